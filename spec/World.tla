-------------------------------- MODULE World -------------------------------
(***************************************************************************)
(* The whole system: what a call does to the state, and the clauses that    *)
(* every call has to satisfy.  A property (PROP) is a set of clauses.       *)
(***************************************************************************)
EXTENDS Laws

Prop == Env("PROP")

NewWorld(run) == [grid |-> <<>>, fluid |-> <<>>, model |-> <<>>, scaler |-> <<>>, well |-> <<>>, vals |-> <<>>,
                  obs |-> <<>>, rows |-> run.rows, live |-> Has(run, "obs"), maps |-> IF Has(run, "maps") THEN run.maps ELSE <<>>]

(* ------------------------------ transitions ---------------------------- *)
IsModelCall(e) == e.op = "call" /\ e.on = "model"
IsMutator(e)   == \/ IsModelCall(e) /\ e.m \in ModelMutators
                  \/ e.op = "call" /\ e.on = "grid" /\ e.m \in GridMutators
                  \/ e.op = "call" /\ e.on = "fluid" /\ e.m \in FluidMutators
                  \/ e.op = "call" /\ e.on = "well"
\* wells as objects: a record of what was given; setting one in a model takes
\* its values, later changes of the object do not reach the model
WellObj(o, m, a) ==
  LET given == {k \in DOMAIN a \cap {"cell_id", "q", "s", "r"} : ~IsNone(a[k])}
  IN  IF m \in {"set_cell_id", "set_q", "set_s", "set_r", "set_props"} THEN [k \in given |-> a[k]] @@ o ELSE o
Resolved(w, e) ==
  IF IsModelCall(e) /\ e.m = "set_well" /\ Has(e.a, "well")
  THEN IF Has(e.a.well, "$wobj") THEN [e EXCEPT !.a.well = ("$well" :> w.well[e.a.well["$wobj"]])] ELSE e
  ELSE e

IsScalerCall(e) == e.op = "call" /\ e.on = "scaler"
NewDefOk(w, e) ==
  CASE e.on = "grid"   -> GridDefOk(e.def)
    [] e.on = "scaler" -> ScalerDefOk(e.def)
    [] e.on = "fluid"  -> FluidDefOk(e.def)
    [] e.on = "model"  -> ModelDefOk(w, e)
    [] OTHER -> TRUE
AllLegal(w, e) ==
  CASE e.op = "new" -> NewDefOk(w, e)
    [] e.op = "call" /\ e.on = "grid"  /\ e.m \in GridMutators  -> SetOk(w.grid[e.i], e.m, e.a)
    [] e.op = "call" /\ e.on = "fluid" /\ e.m \in FluidMutators -> FluidSetOk(w.fluid[e.i], e.m, e.a)
    [] IsModelCall(e) /\ e.m \in ModelMutators -> Legal(w, e)
    [] IsScalerCall(e) -> ScalerLegal(w.scaler[e.i], w.vals, e.m, e.a)
    [] OTHER -> TRUE

Apply(w, e) ==
  CASE e.op = "new" /\ e.on = "grid"  -> [w EXCEPT !.grid = Put(@, e.i, NewGridObj(e.def))]
    [] e.op = "new" /\ e.on = "fluid" -> [w EXCEPT !.fluid = Put(@, e.i, NewFluidObj(e.def))]
    [] e.op = "new" /\ e.on = "model" -> [w EXCEPT !.model = Put(@, e.i, MakeModel(w, e))]
    [] e.op = "new" /\ e.on = "scaler" -> LET o == NewScaler(e.def) IN [w EXCEPT !.scaler = Put(@, e.i, o)]
    [] e.op = "new" /\ e.on = "well" -> [w EXCEPT !.well = Put(@, e.i, e.def)]
    [] e.op = "call" /\ e.on = "well" -> [w EXCEPT !.well = Put(@, e.i, WellObj(@[e.i], e.m, e.a))]
    [] IsScalerCall(e) ->
         LET o   == ScalerAfter(w.scaler[e.i], w.vals, e.m, e.a)
             res == ScalerResult(w.scaler[e.i], w.vals, e.m, e.a)
             w1  == [w EXCEPT !.scaler = Put(@, e.i, o)]
         IN  IF Has(e, "save") THEN [w1 EXCEPT !.vals = Put(@, e.save, res)] ELSE w1
    [] e.op = "call" /\ e.on = "grid" /\ e.m \in GridMutators ->
         LET w1 == [w EXCEPT !.grid = Put(@, e.i, GridSet(w.grid[e.i], e.m, e.a))]
         IN  IF w.live THEN RefreshAll(w1, {i \in DOMAIN w.model : w.model[i].g = e.i}) ELSE w1
    [] e.op = "call" /\ e.on = "fluid" /\ e.m \in FluidMutators ->
         LET w1 == [w EXCEPT !.fluid = Put(@, e.i, FluidSet(w.fluid[e.i], e.m, e.a))]
         IN  IF w.live THEN RefreshAll(w1, {i \in DOMAIN w.model : w.model[i].f = e.i}) ELSE w1
    [] IsModelCall(e) /\ e.m \in ModelMutators ->
         [w EXCEPT !.model = Put(@, e.i, Carried(w.model[e.i], e))]
    [] OTHER -> w
Observed(w, e) == IF Has(e, "obs") THEN [w EXCEPT !.obs = e.obs] ELSE w
After(w, e) ==
  LET carried == e.ok /\ AllLegal(w, e)
      w1 == IF carried THEN Apply(w, e) ELSE w
      w2 == Observed(w1, e)
  IN  IF IsSolve(e) THEN Stepped(w, w2, e) ELSE w2

(* -------------------------- clauses: sessions -------------------------- *)
\* the rows of a solution before any step
InitP(m, i) == IF m.st.isin[i] THEN m.pi
               ELSE IF i \in DOMAIN m.bc /\ m.bc[i].cond = "pressure" THEN m.bc[i].v ELSE None
InitQ(m, i) ==
  IF i \notin DOMAIN m.bc \/ m.bc[i].cond = "pressure" THEN N(0)
  ELSE LET f == FaceLink(m.st, i) IN InFlow(m.bc, f, 0)
SameP(v, x) == IF IsNone(v) THEN NIsNaN(x) ELSE NIsFin(x) /\ NEq(v, x)
FreshRow(m, p, q) ==
  /\ Len(p) = m.st.n /\ Len(q) = m.st.n
  /\ \A i \in 0..(m.st.n - 1) :
       /\ (m.st.isin[i] \/ m.st.isface[i]) => SameP(InitP(m, i), At(p, i))
       /\ NIsFin(At(q, i)) /\ NRel(At(q, i), InitQ(m, i), "1e-9")

\* boundary cells of a solved row
FaceRow(m, p, q) ==
  \A i \in 0..(m.st.n - 1) : m.st.isface[i] =>
     /\ SameP(InitP(m, i), At(p, i))
     /\ NIsFin(At(q, i))
     /\ (i \in DOMAIN m.bc /\ m.bc[i].cond = "rate") => NEq(At(q, i), m.bc[i].v)

\* the new rows of the selected solution, as <<step, old row, new row, rates>>
NewSteps(w, w2, e) ==
  LET k == Added(w, w2, e.i) IN
  IF k = 0 THEN <<>>
  ELSE LET s == SolOf(ObsOf(w2, e.i), w2.model[e.i].cur)  n == Len(s.p) IN
       [j \in 1..k |-> [t |-> n - k + j - 1, s |-> s,
                        old |-> Row(w2, s.p[n - k + j - 1]), new |-> Row(w2, s.p[n - k + j]),
                        q |-> Row(w2, s.q[n - k + j])]]
AllSteps(w, w2, e, OK(_)) ==
  LET ss == NewSteps(w, w2, e) IN \A j \in 1..Len(ss) : OK(ss[j])

IsFdmStep(w2, e) == LET m == w2.model[e.i] IN m.cur # "" /\ m.sols[m.cur].cls = "FDM"

BalanceC(w, w2, e) ==
  LET m == w2.model[e.i]  dir == ModeOf(m, e) IN
  AllSteps(w, w2, e, LAMBDA x : RowOk(x.new, m.st) /\
                       Balanced(m.st, m.bc, m.wells, x.old, x.new, x.q, dir))
PwfAt(x, c) == WOf(x.s, c)[x.t + 1]
RatesC(w, w2, e) ==
  LET m == w2.model[e.i]  dir == ModeOf(m, e) IN
  AllSteps(w, w2, e, LAMBDA x : RowOk(x.new, m.st) /\
                       RatesOk(m.st, m.bc, m.wells, x.new, x.q, LAMBDA c : PwfAt(x, c)))
SumC(w, w2, e) ==
  LET m == w2.model[e.i]  dir == ModeOf(m, e) IN
  AllSteps(w, w2, e, LAMBDA x : RowOk(x.new, m.st) /\
                       SumOk(m.st, m.bc, m.wells, x.old, x.new, x.q, dir))
ErrorC(w, w2, e) ==
  LET m == w2.model[e.i]
      ss == NewSteps(w, w2, e)
  IN  (e.ok /\ ss # <<>> /\ Arg(e.a, "check_MB", TRUE)) =>
        LET x == ss[Len(ss)] IN NIsNum(x.s.err) /\ ErrorOk(m.st, x.old, x.new, x.q, x.s.err)
WellsC(w, w2, e) ==
  LET m == w2.model[e.i]
      dir == ModeOf(m, e)
      ss == NewSteps(w, w2, e)
      o  == ObsOf(w2, e.i)
      last == ss[Len(ss)]
      shown(c) == {n \in 1..Len(o.wells) : o.wells[n].c = c}
  IN  ss # <<>> =>
      /\ AllSteps(w, w2, e, LAMBDA x : \A c \in DOMAIN m.wells :
           HasW(x.s, c) /\ WellOk(m.st, m.wells[c], At(x.new, c), At(x.q, c), PwfAt(x, c), dir))
      /\ \A c \in DOMAIN m.wells : \E n \in shown(c) :
           /\ NEq(o.wells[n].q, At(last.q, c))
           /\ NEq(o.wells[n].pwf, PwfAt(last, c))
FacesC(w, w2, e) ==
  LET m == w2.model[e.i] IN AllSteps(w, w2, e, LAMBDA x : FaceRow(m, x.new, x.q))

\* not yet started solutions and the initial arrays show the initial state
FreshC(w2, i) ==
  LET m == w2.model[i]  o == ObsOf(w2, i) IN
  /\ FreshRow(m, Row(w2, o.init[1]), Row(w2, o.init[2]))
  /\ \A n \in 1..Len(o.sols) :
       LET s == o.sols[n] IN
       (s.tstep = 0 \/ Len(s.p) = 1) =>
          /\ Len(s.p) = 1 /\ Len(s.q) = 1 /\ s.tstep = 0 /\ s.nsteps = 1
          /\ FreshRow(m, Row(w2, s.p[1]), Row(w2, s.q[1]))
          /\ {s.w[k][1] : k \in 1..Len(s.w)} = DOMAIN m.wells
          /\ \A k \in 1..Len(s.w) : Len(s.w[k][2]) = 1 /\ SameP(m.pi, s.w[k][2][1])

\* other models are left alone
Others(w, w2, i) ==
  \A n \in 1..Len(w.obs) : w.obs[n][1] # i =>
     HasObs(w2, w.obs[n][1]) /\ Eq(w.obs[n][2], ObsOf(w2, w.obs[n][1]))
ModelOf(e) == IF e.on \in {"model", "sol"} THEN e.i ELSE 0
FrameC(w, w2, e) == Others(w, w2, ModelOf(e))
UnchangedC(w, w2) == Eq(w.obs, w2.obs)

\* solutions that are not selected are left alone
IsBc(e) == e.m \in {"set_boundary", "set_boundaries", "set_all_boundaries"}
KeptSol(a, b, e) ==
  IF e.m = "set_well" THEN
     /\ Eq([a EXCEPT !.w = <<>>], [b EXCEPT !.w = <<>>])
     /\ \A n \in 1..Len(a.w) : HasW(b, a.w[n][1]) /\ Eq(WOf(b, a.w[n][1]), a.w[n][2])
  ELSE IF IsBc(e) /\ a.tstep = 0 THEN
     Eq([a EXCEPT !.p = <<>>, !.q = <<>>], [b EXCEPT !.p = <<>>, !.q = <<>>])
  ELSE Eq(a, b)
OthersC(w, w2, e) ==
  LET a == ObsOf(w, e.i)  b == ObsOf(w2, e.i)
      cur == w2.model[e.i].cur
      acts == IsSolve(e) \/ e.m = "compile"
  IN  \A n \in 1..Len(a.sols) :
        LET nm == a.sols[n].name IN
        (acts /\ e.ok /\ nm = cur) \/ (HasSol(b, nm) /\ KeptSol(a.sols[n], SolOf(b, nm), e))

NamesC(w2, i) ==
  LET m == w2.model[i]  o == ObsOf(w2, i) IN
  /\ o.cur = m.cur /\ o.vb = m.verbose
  /\ Len(o.names) = Len(m.names) /\ Range(o.names) = Range(m.names)
  /\ \A n \in 1..Len(o.sols) :
       LET s == o.sols[n] IN
       s.name \in DOMAIN m.sols /\ s.sparse = m.sols[s.name].sparse /\ s.cls = m.sols[s.name].cls
  \* well pressures of the model are those of the selected solution
  /\ IF m.cur # "" THEN o.wp = SolOf(o, m.cur).w
     ELSE /\ {o.wp[k][1] : k \in 1..Len(o.wp)} = DOMAIN m.wells /\ Len(o.wp) = Cardinality(DOMAIN m.wells)
          /\ \A k \in 1..Len(o.wp) : Len(o.wp[k][2]) = 1 /\ SameP(m.pi, o.wp[k][2][1])

\* earlier rows are never rewritten
AppendC(w, w2, e) ==
  LET a == ObsOf(w, e.i)  b == ObsOf(w2, e.i)
      cur == w2.model[e.i].cur
  IN  \A n \in 1..Len(a.sols) :
        LET s == a.sols[n]  nm == s.name IN
        (e.m = "compile" /\ nm = cur) \/ s.cls # "FDM" \/
        /\ HasSol(b, nm)
        /\ LET t == SolOf(b, nm) IN
           /\ (IsBc(e) /\ s.tstep = 0) \/ (IsPre(s.p, t.p) /\ IsPre(s.q, t.q))
           /\ \A k \in 1..Len(s.w) : HasW(t, s.w[k][1]) /\ IsPreNum(s.w[k][2], WOf(t, s.w[k][1]))
           /\ IsPre(s["as"], t["as"]) /\ IsPre(s.ds, t.ds)
CountsC(w, w2, e) ==
  LET o == ObsOf(w2, e.i)  m == w2.model[e.i] IN
  /\ \A n \in 1..Len(o.sols) :
       LET s == o.sols[n] IN s.cls = "FDM" =>
         /\ s.tstep = Len(s.p) - 1 /\ s.nsteps = Len(s.p) /\ Len(s.q) = Len(s.p)
         /\ Len(s["as"]) = Len(s.p) /\ Len(s.ds) = Len(s.p)
         /\ {s.w[k][1] : k \in 1..Len(s.w)} = DOMAIN m.wells
         /\ \A k \in 1..Len(s.w) : Len(s.w[k][2]) = Len(s.p)
         /\ Len(s.p) = 1 + Len(m.sols[s.name].hist)
  /\ IsSolve(e) /\ m.cur # "" /\ m.sols[m.cur].cls = "FDM" =>
       LET k == Added(w, w2, e.i) IN
       /\ IF e.ok THEN k = StepsOf(e) ELSE k = 0 \/ k < StepsOf(e)
       /\ k = 0 => Eq(SolOf(ObsOf(w, e.i), m.cur), SolOf(o, m.cur))

\* steps taken under the same conditions from the same definition agree
\* An iterative solver leaves a residual r.  With S the part of the equation of
\* a cell that holds its pressure (accumulation, pressure faces), the equations
\* of a step are monotone, and a residual moves no pressure by more than
\* max |r| / S; from step to step these bounds add up.  The bound of the steps
\* 1..t of a solution is None where a cell has no such part.
SameTol == "1e-7"
Hold(st, bc, n) ==
  NAdd(IF NEq(st.comp, 0) THEN N(0) ELSE st.acc[n],
       NSum(MapSeq(st.fc[n], LAMBDA f : IF f.j \in DOMAIN bc /\ bc[f.j].cond = "pressure" THEN NMul(2, f.T) ELSE N(0))))
StepErr(st, bc, wells, old, new, q) ==
  LET es == TLCEval([n \in 1..Len(st.ids) |->
        LET h == Hold(st, bc, n)  i == st.ids[n]
            r == NAbs(Residual(st, bc, wells, n, old, new, q))
            x == IF i \notin DOMAIN wells THEN N(0)
                 ELSE NMul("4e-4", NAdd(NAbs(At(q, i)), NMul(NAbs(Index(st, wells[i])),
                                        NAdd(NMul(2, NAbs(At(new, i))), NAbs(MinPwf(wells[i]))))))
        IN  IF NLe(h, 0) THEN None ELSE NDiv(NAdd(r, x), h)])
  IN  IF \E n \in DOMAIN es : IsNone(es[n]) THEN None ELSE NMaxSeq(es)
StepsErr(W, st, s, o, t) ==
  LET es == TLCEval([k \in 1..t |->
        IF s.direct[k] = "direct" THEN N(0)
        ELSE StepErr(IF IsNone(s.conds[k].st) THEN st ELSE s.conds[k].st, s.conds[k].bc, s.conds[k].wells, Row(W, o.p[k]), Row(W, o.p[k + 1]), Row(W, o.q[k + 1]))])
  IN  IF \E k \in 1..t : IsNone(es[k]) THEN None ELSE NSum(es)
AddErr(a, b) == IF IsNone(a) \/ IsNone(b) THEN None ELSE NAdd(a, b)
\* the largest change of a rate that a change of the pressures by 1 makes
RateSlope(st, wells) ==
  NAdd(NMaxSeq(<<N(0)>> \o [n \in 1..Len(st.ids) |-> NSum(MapSeq(st.fc[n], LAMBDA f : NMul(2, f.T)))]),
       NMaxSeq(<<N(0)>> \o MapSeq(SetToSeq(DOMAIN wells), LAMBDA c : NAbs(Index(st, wells[c])))))
\* cells that are neither in the reservoir nor next to it carry no state
Live(st, row) == MapSeq(st.live, LAMBDA i : At(row, i))
RowClose(st, a, b, err) ==
  LET sc == NAdd(err, NMul(SameTol, NAdd(NMaxAbs(a), NMaxAbs(b))))
  IN  Len(a) = st.n /\ Len(b) = st.n /\ NCloseSeq(Live(st, a), Live(st, b), sc)
RateClose(st, bc, wells, old, a, qa, qb, err) ==
  LET sc == NMaxSeq([n \in 1..Len(st.ids) |-> ResidualScale(st, bc, wells, n, old, a, qa)])
  IN  NCloseSeq(qa, qb, NAdd(NMul(RateSlope(st, wells), err), NMul(SameTol, sc)))
SamePre(h, g, t) == Len(g) >= t /\ Len(h) >= t /\ \A k \in 1..t : h[k] = g[k]
SameC(w, w2, e) ==
  LET m  == w2.model[e.i]
      s1 == m.sols[m.cur]
      ss == NewSteps(w, w2, e)
      twins == {<<j, nm>> \in UNION {{<<j, nm>> : nm \in DOMAIN w2.model[j].sols} : j \in DOMAIN w2.model} :
                  /\ <<j, nm>> # <<e.i, m.cur>> /\ w2.model[j].key = m.key
                  /\ w2.model[j].sols[nm].cls = "FDM"}
  IN  \A tw \in twins :
        LET s2 == w2.model[tw[1]].sols[tw[2]]
            o2 == SolOf(ObsOf(w2, tw[1]), tw[2])
        IN  \A j \in 1..Len(ss) :
              LET x == ss[j]  t == x.t IN
              (SamePre(s1.hist, s2.hist, t) /\ ~\E k \in 1..t : "loose" \in {s1.direct[k], s2.direct[k]}) =>
                LET err == AddErr(StepsErr(w2, m.st, s1, x.s, t), StepsErr(w2, m.st, s2, o2, t))
                    p2 == Row(w2, o2.p[t + 1])  q2 == Row(w2, o2.q[t + 1])
                IN  IsNone(err) \/
                    /\ RowClose(m.st, x.new, p2, err)
                    /\ RateClose(m.st, m.bc, m.wells, x.old, x.new, x.q, q2, err)
                    /\ \A c \in DOMAIN m.wells :
                         HasW(o2, c) /\
                         LET tp == NMul(SameTol, NAdd(NMaxAbs(x.new),
                                         NDiv(NMaxAbs(x.q), NAbs(Index(m.st, m.wells[c])))))
                         IN  NClose(PwfAt(x, c), WOf(o2, c)[t + 1], NAdd(tp, NMul(2, err)))

\* the equations of the next step, as matrices or symbolic, with the pressures of
\* the last one; a well is either at its rate or at its pressure
KnownSum(st, bc, wells, n, old, ctl) ==
  LET i == st.ids[n] IN
  NAdd(NAdd(IF NEq(st.comp, 0) THEN N(0) ELSE NNeg(NMul(st.acc[n], At(old, i))),
            NSum(MapSeq(st.nb[n], LAMBDA k : NMul(k.T, k.gz)))),
       NNeg(NAdd(NSum(MapSeq(st.fc[n], LAMBDA f : KnownIn(bc, f))),
                 CASE ctl = "none" -> N(0) [] ctl = "q" -> N(wells[i].q)
                   [] OTHER -> NMul(Index(st, wells[i]), MinPwf(wells[i])))))
OwnCoef(st, bc, wells, n, ctl) ==
  NNeg(NAdd(NSum(MapSeq(st.nb[n], LAMBDA k : k.T)),
            NAdd(Hold(st, bc, n), IF ctl = "pwf" THEN Index(st, wells[st.ids[n]]) ELSE N(0))))
EquationOk(m, r, old, ctl) ==
  LET st == m.st
      n  == CHOOSE x \in 1..Len(st.ids) : st.ids[x] = r[1]
      co(j) == LET ks == {x \in 1..Len(r[2]) : r[2][x][1] = j}
               IN  IF ks = {} THEN N(0) ELSE r[2][CHOOSE x \in ks : TRUE][2]
      own == OwnCoef(st, m.bc, m.wells, n, ctl)
      sc  == NAdd(IF m.st.ids[n] \in DOMAIN m.wells /\ ctl = "q" THEN NAbs(m.wells[r[1]].q) ELSE N(0),
                  NAdd(NSum(MapSeq(st.fc[n], LAMBDA f : NAbs(KnownIn(m.bc, f)))),
                       NAdd(NSum(MapSeq(st.nb[n], LAMBDA k : NMul(k.T, NAdd(NAbs(k.gz), "1e-2")))),
                            NAdd(IF NEq(st.comp, 0) THEN N(0) ELSE NMul(st.acc[n], NAbs(At(old, r[1]))),
                                 IF ctl = "pwf" THEN NMul(NAbs(Index(st, m.wells[r[1]])), MinPwf(m.wells[r[1]])) ELSE N(0)))))
  IN  /\ \A x, y \in 1..Len(r[2]) : r[2][x][1] = r[2][y][1] => x = y
      /\ \A x \in 1..Len(r[2]) :
           r[2][x][1] = r[1] \/ NEq(r[2][x][2], 0) \/ \E k \in 1..Len(st.nb[n]) : st.nb[n][k].j = r[2][x][1]
      /\ \A k \in 1..Len(st.nb[n]) : NLe(NAbs(NSub(co(st.nb[n][k].j), st.nb[n][k].T)), NMul("1e-9", st.nb[n][k].T))
      /\ NLe(NAbs(NSub(co(r[1]), own)), NMul("1e-9", NAbs(own)))
      /\ NLe(NAbs(NSub(r[3], KnownSum(st, m.bc, m.wells, n, old, ctl))), NMul("1e-9", sc))
SystemNames == {"get_matrices_vect", "get_matrices_symb", "get_cells_eq", "get_cell_eq"}
SystemFree(w, e) ==
  LET m == w.model[e.i] IN
  m.cur = "" \/ m.sols[m.cur].cls # "FDM" \/ ~Legal(w, [e EXCEPT !.on = "model", !.m = "solve", !.a = [update |-> FALSE]])
SystemOk(w, e) ==
  LET m   == w.model[e.i]
      o   == SolOf(ObsOf(w, e.i), m.cur)
      old == Row(w, o.p[Len(o.p)])
      ids == IF Has(e.a, "cell_id") THEN <<e.a.cell_id>> ELSE m.st.ids
  IN  /\ e.ok /\ e.res.k = "sys"
      /\ Len(e.res.v) = Len(ids) /\ \A n \in 1..Len(ids) : e.res.v[n][1] = ids[n]
      /\ \A n \in 1..Len(ids) :
           LET r == e.res.v[n]
               ctl == IF ids[n] \notin DOMAIN m.wells THEN {"none"}
                      ELSE IF IsNone(m.wells[ids[n]].q) THEN {"pwf"} ELSE {"q", "pwf"}
           IN  \E c \in ctl : EquationOk(m, r, old, c)
\* the equations recorded for the last step are those of this step and are
\* solved by its pressures
Products(r, new) == MapSeq(r[2], LAMBDA x : NMul(x[2], At(new, x[1])))
SolvesOk(rs, new, dir) ==
  LET size(r) == NAdd(NAbs(r[3]), NSum(MapSeq(Products(r, new), LAMBDA x : NAbs(x))))
      sc == NMaxSeq(MapSeq(rs, size))
  IN  dir # "direct" \/ \A n \in 1..Len(rs) : NLe(NAbs(NSub(NSum(Products(rs[n], new)), rs[n][3])), NMul("1e-8", sc))
SolvedC(w, w2, e) ==
  LET m   == w2.model[e.i]
      dir == ModeOf(m, e)
      ss  == NewSteps(w, w2, e)
      x   == ss[Len(ss)]
      ids == m.st.ids
  IN  (ss # <<>> /\ Has(e, "sys")) =>
      /\ e.sys.k = "sys" /\ Len(e.sys.v) = Len(ids)
      /\ \A n \in 1..Len(ids) :
           LET r == e.sys.v[n]
               ctl == IF ids[n] \notin DOMAIN m.wells THEN {"none"}
                      ELSE IF IsNone(m.wells[ids[n]].q) THEN {"pwf"} ELSE {"q", "pwf"}
           IN  /\ r[1] = ids[n]
               /\ \E c \in ctl : EquationOk(m, r, x.old, c)
      /\ SolvesOk(e.sys.v, x.new, dir)

(* ------------------------- clauses: relations -------------------------- *)
LooseUpTo(s, t)  == \E k \in 1..t : s.direct[k] = "loose"
LawTol == "1e-8"
RowsOf(w2, i, nm) == SolOf(ObsOf(w2, i), nm)
\* finite difference solutions with at least t steps
FdmSols(m, t) == {nm \in DOMAIN m.sols : m.sols[nm].cls = "FDM" /\ Len(m.sols[nm].conds) >= t}
\* t steps of solution na of model a and nb of model b have image conditions
ImageSteps(w2, mp, at, na, nb, t) ==
  LET ma == w2.model[mp.a]  mb == w2.model[mp.b]
      sa == ma.sols[na]  sb == mb.sols[nb]
  IN  /\ ~LooseUpTo(sa, t) /\ ~LooseUpTo(sb, t)
      /\ \A k \in 1..t : ImageConds(ma, mb, mp, at, sa.conds[k], sb.conds[k])
ImageStep(w2, mp, at, na, nb, t) ==
  LET ma == w2.model[mp.a]  mb == w2.model[mp.b]
      oa == RowsOf(w2, mp.a, na)  ob == RowsOf(w2, mp.b, nb)
      c  == mb.sols[nb].conds[t]
      ea == StepsErr(w2, ma.st, ma.sols[na], oa, t)
      err == IF IsNone(ea) THEN None ELSE AddErr(NMul(ea, mp.P), StepsErr(w2, mb.st, mb.sols[nb], ob, t))
      pb == Row(w2, ob.p[t + 1])  qb == Row(w2, ob.q[t + 1])  old == Row(w2, ob.p[t])
      pa == ImageRow(at, Row(w2, oa.p[t + 1]), mp.P)  qa == ImageRow(at, Row(w2, oa.q[t + 1]), mp.Q)
  IN  IsNone(err) \/
      /\ RowClose(mb.st, pb, pa, err)
      /\ RateClose(mb.st, c.bc, c.wells, old, pb, qb, qa, err)
      /\ \A x \in DOMAIN ma.sols[na].conds[t].wells :
           HasW(oa, x) /\ HasW(ob, at[x]) /\
           NClose(NMul(WOf(oa, x)[t + 1], mp.P), WOf(ob, at[x])[t + 1],
                  NAdd(NMul(2, err),
                       NMul(SameTol, NAdd(NMaxAbs(pb), NDiv(NMaxAbs(qb), NAbs(Index(mb.st, c.wells[at[x]])))))))
ImageC(w, w2, e) ==
  LET ss == NewSteps(w, w2, e)
      mine == {n \in 1..Len(w2.maps) : w2.maps[n].a = e.i \/ w2.maps[n].b = e.i}
  IN  ss = <<>> \/
      \A n \in {x \in mine : {w2.maps[x].a, w2.maps[x].b} \subseteq DOMAIN w2.model} :
        LET mp == w2.maps[n]
            ma == w2.model[mp.a]  mb == w2.model[mp.b]
            at == Cells(ma, mb, mp)
        IN  ImageProblem(ma, mb, mp, at) /\
            \A j \in 1..Len(ss) :
              \A na \in (IF mp.a = e.i THEN {ma.cur} ELSE FdmSols(ma, ss[j].t)) :
              \A nb \in (IF mp.b = e.i THEN {mb.cur} ELSE FdmSols(mb, ss[j].t)) :
                ImageSteps(w2, mp, at, na, nb, ss[j].t) => ImageStep(w2, mp, at, na, nb, ss[j].t)
ThisErr(m, mode, x) == IF mode = "direct" THEN N(0) ELSE StepErr(m.st, m.bc, m.wells, x.old, x.new, x.q)
RangeC(w, w2, e) ==
  LET m == w2.model[e.i]  mode == ModeOf(m, e) IN
  mode = "loose" \/ AllSteps(w, w2, e, LAMBDA x :
     LET err == ThisErr(m, mode, x) IN IsNone(err) \/ RangeLaw(m, x.old, x.new, LawTol, err))
RestC(w, w2, e) ==
  LET m == w2.model[e.i]  mode == ModeOf(m, e) IN
  mode = "loose" \/ AllSteps(w, w2, e, LAMBDA x :
     LET sc == NMaxSeq([n \in 1..Len(m.st.ids) |-> ResidualScale(m.st, m.bc, m.wells, n, x.old, x.new, x.q)])
         ws == NSum(MapSeq(SetToSeq(DOMAIN m.wells), LAMBDA c :
                  NMul(NAbs(Index(m.st, m.wells[c])), NAdd(NAbs(At(x.new, c)), NAbs(MinPwf(m.wells[c]))))))
         err == ThisErr(m, mode, x)
     IN  IsNone(err) \/ RestLaw(m, x.old, x.new, x.q, LawTol, err,
                                NAdd(NMul(RateSlope(m.st, m.wells), err), NMul(LawTol, NAdd(sc, ws)))))
MonoC(w, w2, e) ==
  LET m  == w2.model[e.i]
      s1 == m.sols[m.cur]
      ss == NewSteps(w, w2, e)
      twins == {<<j, nm>> \in UNION {{<<j, nm>> : nm \in DOMAIN w2.model[j].sols} : j \in DOMAIN w2.model} :
                  /\ <<j, nm>> # <<e.i, m.cur>> /\ w2.model[j].key = m.key
                  /\ w2.model[j].sols[nm].cls = "FDM"}
  IN  \A tw \in twins :
        LET s2 == w2.model[tw[1]].sols[tw[2]]
            o1 == RowsOf(w2, e.i, m.cur)  o2 == RowsOf(w2, tw[1], tw[2])
        IN  \A j \in 1..Len(ss) :
              LET t == ss[j].t
                  q1(k) == Row(w2, o1.q[k + 1])  q2(k) == Row(w2, o2.q[k + 1])
                  p1 == ss[j].new  p2 == Row(w2, o2.p[t + 1])
              IN  (Len(s2.conds) >= t /\ ~LooseUpTo(s1, t) /\ ~LooseUpTo(s2, t)) =>
                    LET err == AddErr(StepsErr(w2, m.st, s1, o1, t), StepsErr(w2, m.st, s2, o2, t)) IN
                    IsNone(err) \/
                    /\ (\A k \in 1..t : NoMore(m, s1.conds[k], s2.conds[k], q1(k), q2(k))) => NoLower(m, p1, p2, LawTol, err)
                    /\ (\A k \in 1..t : NoMore(m, s2.conds[k], s1.conds[k], q2(k), q1(k))) => NoLower(m, p2, p1, LawTol, err)

WellIndexC(w2, i) ==
  LET m == w2.model[i]  o == ObsOf(w2, i) IN
  /\ {o.wells[n].c : n \in 1..Len(o.wells)} = DOMAIN m.wells /\ Len(o.wells) = Cardinality(DOMAIN m.wells)
  /\ \A n \in 1..Len(o.wells) :
       LET x == o.wells[n] IN
       NRel(x.r_eq, m.wells[x.c].req, "1e-9") /\ NRel(x.G, m.wells[x.c].G, "1e-9")

\* scaler settings are shown as they are
ScalersC(w2, i) ==
  LET m == w2.model[i]  o == ObsOf(w2, i) IN
  \A n \in 1..Len(o.sc) :
     LET x == o.sc[n]  r == m.sc[x[1]] IN
     IF IsNone(r) THEN IsNone(x[2])
     ELSE IsSeq(x[2]) /\ Lower(x[2][1]) \in MinMaxNames /\ NEq(x[2][2], r[1]) /\ NEq(x[2][3], r[2])

ErrConverge(e) == Has(e, "exc") /\ e.exc = "AssertionError" /\ e.msg = "unsuccessful convergence"

SessionClauses(w, w2, e, Cl(_, _)) ==
  LET legal == AllLegal(w, e)
      m     == w2.model[e.i]
      seen  == HasObs(w, e.i) /\ HasObs(w2, e.i)
      step  == IsSolve(e) /\ IsFdmStep(w2, e)
      known == HasObs(w2, e.i)
  IN  Cl("NoError", legal => (e.ok \/ (IsSolve(e) /\ m.cur # "" /\ Iterative(m, e) /\ ErrConverge(e))))
   \o Cl("Rejected", ~legal => ~e.ok)
   \o (IF ~known THEN <<>> ELSE
         Cl("Unchanged", ~legal => (~e.ok /\ UnchangedC(w, w2)))
      \o Cl("Names", NamesC(w2, e.i))
      \o Cl("Fresh", FreshC(w2, e.i))
      \o Cl("Counts", seen => CountsC(w, w2, e))
      \o Cl("WellIndex", WellIndexC(w2, e.i))
      \o Cl("Scalers", ScalersC(w2, e.i))
      \o Cl("Frame", FrameC(w, w2, e)))
   \o (IF ~seen THEN <<>> ELSE
         Cl("Others", OthersC(w, w2, e)) \o Cl("Append", AppendC(w, w2, e)))
   \o (IF ~(seen /\ step) THEN <<>> ELSE
         Cl("Balance", BalanceC(w, w2, e)) \o Cl("Rates", RatesC(w, w2, e))
      \o Cl("System", SolvedC(w, w2, e))
      \o Cl("Sum", SumC(w, w2, e)) \o Cl("Error", ErrorC(w, w2, e))
      \o Cl("Wells", WellsC(w, w2, e)) \o Cl("Faces", FacesC(w, w2, e))
      \o Cl("Image", ImageC(w, w2, e)) \o Cl("Range", RangeC(w, w2, e))
      \o Cl("Mono", MonoC(w, w2, e)) \o Cl("Rest", RestC(w, w2, e))
      \o Cl("Same", SameC(w, w2, e)) \o Cl("Converge", ConvergeC(w, w2, e)))
   \o (IF ~(seen /\ IsSolve(e) /\ IsAna(w2, e)) THEN <<>> ELSE Cl("Series", SeriesC(w, w2, e)))

(* --------------------------- clauses: queries -------------------------- *)
QName(e) == IF e.op = "pv" THEN Cat(<<"pv_", e.m>>) ELSE e.m
\* the selected solution as it is shown
SolAttrs == {"compiler.stype", "compiler.method", "compiler.sparse", "solution.sparse", "solution.name"}
SolAttr(m, name) ==
  LET s == m.sols[m.cur] IN
  CASE name = "compiler.stype" -> EStr(IF s.cls = "D1P1" THEN "analytical" ELSE "numerical")
    [] name \in {"compiler.method", "solution.name"} -> EStr(s.cls)
    [] OTHER -> EBool(s.sparse)
\* a model with the present properties
Now(w, m) == [m EXCEPT !.go = w.grid[m.g], !.fo = w.fluid[m.f]]
ModelAnswer(w, e) ==
  LET m == w.model[e.i] IN
  CASE e.m \in TransNames ->
         LET f == w.fluid[m.f]  go == w.grid[m.g] IN Trans(go.d, go.pr, f.mu, f.B, e.m, e.a)
    [] e.m = "get_shape" ->
         IF m.cur = "" THEN EErr
         ELSE ESeq("tuple", <<SolOf(ObsOf(w, e.i), m.cur).nsteps,
                              NCells(m.go.d, Arg(e.a, "boundary", TRUE))>>)
    [] e.m = "get_solutions" -> EBag("list", m.names)
    [] e.m \in SolAttrs -> IF m.cur = "" THEN EFree ELSE SolAttr(m, e.m)
    [] e.m \in OutputNames -> OutputAnswer(w, e)
    [] e.m = "get_alpha" -> AlphaAnswer(Now(w, m))
    [] e.m = "RHS" -> RhsAnswer(Now(w, m))
    [] OTHER -> EAny
UnitOf(w, e) == CASE e.on = "grid"  -> w.grid[e.i].d.unit [] e.on = "fluid" -> w.fluid[e.i].unit
                  [] e.on = "model" -> w.model[e.i].unit
Answer(w, e) ==
  CASE Has(e, "drop") /\ e.on \in {"grid", "fluid", "model"} -> EAny
    [] e.op = "get" /\ e.on \in {"grid", "fluid", "model"} /\ e.m \in UnitQueries -> UnitAnswer(UnitOf(w, e), e.m)
    [] e.op = "get" /\ e.on \in {"grid", "fluid", "model"} /\ e.m = "unit" -> EStr(UnitOf(w, e))
    [] e.on = "tables" -> TablesAnswer(e.m)
    [] e.on = "well" -> IF Has(w.well[e.i], e.m) THEN ENum(w.well[e.i][e.m]) ELSE EFree
    [] e.on = "grid"  -> GridAnswer(w.grid[e.i].d, w.grid[e.i].pr, QName(e), e.a)
    [] e.on = "fluid" -> FluidAnswer(w.fluid[e.i], e.m)
    [] e.on = "model" -> ModelAnswer(w, e)
    [] e.on = "scaler" ->
         IF ~AllLegal(w, e) THEN EErr
         ELSE IF e.m \in {"fit", "set_output_range"} THEN (IF Has(e, "$in") THEN EKept(EAny) ELSE EAny)
         ELSE LET o   == ScalerAfter(w.scaler[e.i], w.vals, e.m, e.a)
                  res == ScalerResult(w.scaler[e.i], w.vals, e.m, e.a)
                  ex  == EAbs(res.sh, res.v, ScalerTol(o, res.v))
              IN  IF Has(e, "$in") THEN EKept(ex) ELSE ex
    [] OTHER -> EAny

(* ------------------------------ properties ----------------------------- *)
Numeric == {"NoError", "Balance", "Rates", "Sum", "Error", "Wells", "Faces"}
Wanted ==
  CASE Prop \in {"C06", "C07", "C08", "C09"} -> {"NoError", "Answer"}
    [] Prop = "C01" -> {"NoError", "Balance", "System"}
    [] Prop = "C02" -> {"NoError", "Rates", "Sum", "Error"}
    [] Prop = "C03" -> {"NoError", "Balance", "System", "Same", "Wells", "Rates"}
    [] Prop = "C04" -> {"NoError", "Wells", "Same"}
    [] Prop = "C05" -> {"NoError", "Faces", "Fresh", "Balance", "Rates", "Same"}
    [] Prop = "C10" -> {"NoError", "Answer", "Rejected", "Frame", "System", "Balance", "Rates", "Sum", "Same"}
    [] Prop = "C11" -> {"Frame", "Same", "Answer", "Fresh", "Names", "WellIndex", "Counts"} \cup Numeric
    [] Prop = "C12" -> {"Names", "Fresh", "Others", "Same", "Append", "Answer", "Rejected", "Unchanged", "Counts",
                        "Frame"} \cup Numeric
    [] Prop = "C13" -> {"NoError", "Counts", "Append", "Same", "System"}
    [] Prop = "C14" -> {"NoError", "Answer", "Frame", "Scalers"}
    [] Prop = "C15" -> {"NoError", "Answer", "Rejected", "Scalers", "Unchanged"}
    [] Prop = "C16" -> {"NoError", "Names", "Rejected", "Unchanged", "Others", "Answer", "Counts", "Frame"}
    [] Prop = "C17" -> {"NoError", "Rejected", "Unchanged", "Same", "Answer"}
    [] Prop = "C18" -> {"NoError", "WellIndex"}
    [] Prop = "C19" -> {"NoError", "Answer", "Rejected", "Unchanged", "WellIndex", "Image", "Balance", "Rates", "Frame"}
    [] Prop = "C21" -> {"NoError", "Image", "Range", "Mono", "Rest"}
    [] Prop = "C20" -> {"NoError", "Answer", "Series", "Converge", "Names", "Fresh", "Others"}
    [] Prop = "C22" -> {"NoError", "Balance", "System", "Rates", "Sum", "Faces", "Wells", "Append", "Same", "Fresh"}
    [] Prop = "*" -> {"Answer", "System", "Rejected", "Unchanged", "Frame", "Fresh", "Names", "WellIndex", "Counts", "Scalers",
                      "Others", "Append", "Same", "Image", "Range", "Mono", "Rest", "Series", "Converge"} \cup Numeric
    [] OTHER -> {}

Clause(name, ok) == IF name \in Wanted /\ ~ok THEN <<name>> ELSE <<>>
IsQuery(e) == e.op \in {"get", "pv"} \/ (e.op = "call" /\ ~IsMutator(e))
\* answers that the property is about
Asked(e) == CASE Prop = "C06" -> QName(e) \in NumberingNames [] Prop = "C07" -> QName(e) \in AdjacencyNames
              [] Prop = "C08" -> QName(e) \in GeometryNames [] Prop = "C09" -> QName(e) \in TransNames
              [] OTHER -> TRUE
Failed(w, w2, e) ==
  CASE e.op = "new" ->
         Clause("NoError", AllLegal(w, e) => e.ok) \o Clause("Rejected", ~AllLegal(w, e) => ~e.ok)
         \o Clause("Unchanged", ~AllLegal(w, e) => UnchangedC(w, w2))
         \o Clause("Frame", Others(w, w2, IF e.on = "model" THEN e.i ELSE 0))
         \o (IF e.on = "model" /\ HasObs(w2, e.i) THEN Clause("Fresh", FreshC(w2, e.i)) ELSE <<>>)
    [] IsModelCall(e) /\ e.m \in ModelMutators -> SessionClauses(w, w2, e, Clause)
    [] IsMutator(e) ->
         Clause("NoError", AllLegal(w, e) => e.ok) \o Clause("Rejected", ~AllLegal(w, e) => ~e.ok)
         \o Clause("Frame", UnchangedC(w, w2))
         \o Clause("Unchanged", ~AllLegal(w, e) => UnchangedC(w, w2))
    [] IsQuery(e) ->
         (IF e.on = "sol" THEN Clause("Answer", e.m = "calc_solution" => (CalcFree(w, e) \/ CalcOk(w, e)))
                                \o Clause("System", e.m \in SystemNames => (SystemFree(w, e) \/ SystemOk(w, e)))
          ELSE IF Asked(e) THEN Clause("Answer", Match(Answer(w, e), e.ok, e.res)) ELSE <<>>)
         \o Clause("Frame", UnchangedC(w, w2)) \o Clause("Unchanged", UnchangedC(w, w2))
    [] OTHER -> <<>>
=============================================================================
