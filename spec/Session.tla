------------------------------ MODULE Session -------------------------------
(***************************************************************************)
(* Models over time: wells, boundary conditions, compiled solutions and     *)
(* time stepping as a state machine over the public interface.              *)
(*                                                                          *)
(* model record                                                             *)
(*   st      static flow problem      unit, dt, pi, date                    *)
(*   bc      boundary conditions in force                                   *)
(*   wells   wells in force                                                 *)
(*   names   registered solutions in order of registration                  *)
(*   sols    name -> [hist, conds, direct, sparse, cls]; hist and conds     *)
(*           have the conditions in force at every step, direct how it was  *)
(*           solved                                                         *)
(*   cur     name of the selected solution, "" if there is none             *)
(*   sc      scaler settings: per quantity an output range or "None"        *)
(*   key     the definition of the model                                    *)
(*   props   "", or the properties after changes of the grid or the fluid    *)
(* world record                                                             *)
(*   grid, fluid, model: functions from object numbers to objects           *)
(*   obs: the last observation of every model; rows: the recorded rows      *)
(***************************************************************************)
EXTENDS Flow, Scalers

\* ------------------------------------------------------------ registry
STypes == [numerical |-> {"n", "num", "numerical"}, analytical |-> {"a", "ana", "analytical"},
           neurical |-> {"nn", "neu", "neurical"}]
Methods ==
  [numerical |->
     [FDM |-> {"fdm", "finite difference method", "finite-difference-method"},
      FVM |-> {"fvm", "finite volume method", "finite-volume-method"},
      FEM |-> {"fem", "finite element method", "finite-element-method"}],
   analytical |->
     [D1P1 |-> {"d1p1", "1d1p", "1-dimension-1-phase", "1dimension1phase"},
      D1P2 |-> {"d1p2", "1d2p", "1-dimension-2-phase", "1dimension2phase"},
      D1P3 |-> {"d1p3", "1d3p", "1-dimension-3-phase", "1dimension3phase"},
      D2P1 |-> {"d2p1", "2d1p", "2-dimension-1-phase", "2dimension1phase"},
      D2P2 |-> {"d2p2", "2-dimension-2-phase", "2dimension2phase"},
      D2P3 |-> {"d2p3", "2-dimension-3-phase", "2dimension3phase"},
      D3P1 |-> {"d3p1", "3d1p", "3-dimension-1-phase", "3dimension1phase"},
      D3P2 |-> {"d3p2", "3-dimension-2-phase", "3dimension2phase"},
      D3P3 |-> {"d3p3", "3-dimension-3-phase", "3dimension3phase"}],
   neurical |->
     [PINN |-> {"pinn", "physics informed neural network", "physics-informed-neural-network"},
      DeepONet |-> {"deeponet", "deep operator network", "deep-operator-network"}]]
Available == {"FDM", "D1P1"}
StypeOf(s) == {k \in DOMAIN STypes : Lower(s) \in STypes[k]}
\* the solutions a request can mean: none or one
Resolve(a) ==
  IF ~(IsStr(a.stype) /\ IsStr(a.method) /\ IsBool(Arg(a, "sparse", TRUE))) THEN {}
  ELSE UNION {{<<t, m>> : m \in {x \in DOMAIN Methods[t] :
                  Lower(a.method) \in Methods[t][x] /\ x \in Available}} : t \in StypeOf(a.stype)}
SolName(t, m, sparse) == Cat(<<"BlackOil-", t, "-", m, "-", IF sparse THEN "True" ELSE "False">>)

\* ---------------------------------------------------------- world state
Put(f, i, x) == (i :> x) @@ f
SortedSeq(S) == SortSeq(SetToSeq(S), LAMBDA x, y : x < y)

\* well requests
WellReq(a) ==
  LET obj == ~IsNone(Arg(a, "well", None))
      o   == IF obj THEN a.well["$well"] ELSE a
      cid == Arg(a, "cell_id", None)
  IN  [c |-> IF IsNone(cid) THEN (IF obj THEN Arg(o, "cell_id", None) ELSE None) ELSE cid,
       q |-> Arg(o, "q", None), pwf |-> IF obj THEN None ELSE Arg(o, "pwf", None),
       r |-> Arg(o, "r", None), s |-> Arg(o, "s", None), fresh |-> obj]
Or(v, old) == IF IsNone(v) THEN old ELSE N(v)
MergedWell(m, rq) ==
  LET none == [q |-> None, pwf |-> None, r |-> None, s |-> None]
      old  == IF rq.fresh \/ rq.c \notin DOMAIN m.wells THEN none ELSE m.wells[rq.c]
  IN  [q |-> Or(rq.q, old.q), pwf |-> Or(rq.pwf, old.pwf), r |-> Or(rq.r, old.r), s |-> Or(rq.s, old.s)]
WellLegal(m, a) ==
  LET rq == WellReq(a)
      g  == m.go.d
  IN  /\ IsInt(rq.c) /\ rq.c \in 0..(m.st.n - 1) /\ m.st.isin[rq.c]
      /\ Fdir(g) \in WellDirs
      /\ ~IsNone(m.go.pr.kx) /\ (Fdir(g) # "x" => ~IsNone(m.go.pr.ky))
      /\ ~IsNone(MergedWell(m, rq).r)
WithWell(m, a) ==
  LET rq == WellReq(a)
      mw == MergedWell(m, rq)
      s  == IF IsNone(mw.s) THEN N(0) ELSE mw.s
      w  == [q |-> mw.q, pwf |-> mw.pwf, r |-> mw.r, s |-> mw.s,
             req |-> REq(m.go.d, m.go.pr, rq.c),
             G |-> WellG(m.go.d, m.go.pr, m.unit, rq.c, mw.r, s)]
  IN  [m EXCEPT !.wells = Put(@, rq.c, TLCEval(w))]

MakeModel(w, e) ==
  LET go == w.grid[e.g]  fo == w.fluid[e.f]
      unit == Arg(e.def, "unit", "field")
      dt == N(Arg(e.def, "dt", 1))
      pi == Arg(e.def, "pi", None)
      m0 ==
      [g |-> e.g, f |-> e.f, go |-> go, fo |-> fo, unit |-> unit, dt |-> dt,
       pi |-> IF IsNone(pi) THEN None ELSE N(pi), date |-> Arg(e.def, "start_date", None),
       st |-> Static(go, fo, unit, dt),
       bc |-> <<>>, wells |-> <<>>, names |-> <<>>, sols |-> <<>>, cur |-> "",
       sc |-> DefaultScalers, props |-> "",
       verbose |-> Arg(e.def, "verbose", FALSE),
       key |-> ToStr(<<go, fo, unit, dt, pi>>)]
  IN  IF Has(e.def, "well") THEN WithWell(m0, [well |-> e.def.well]) ELSE m0
\* a grid or a fluid of the model, or its units, were changed: transmissibilities,
\* gravity and accumulation follow; the total compressibility is that of the
\* creation of the model, the values of a well are those of when it was set
Refreshed(m, go, fo) ==
  [m EXCEPT !.go = go, !.fo = fo, !.st = StaticOf(go, fo, m.unit, m.dt, m.st.comp),
            !.props = TLCEval(ToStr(<<go, fo, m.unit>>))]
RefreshAll(w, ids) ==
  [w EXCEPT !.model = [i \in DOMAIN @ |-> IF i \in ids THEN Refreshed(@[i], w.grid[@[i].g], w.fluid[@[i].f]) ELSE @[i]]]
ModelDefOk(w, e) ==
  /\ e.g \in DOMAIN w.grid /\ e.f \in DOMAIN w.fluid
  /\ KnownUnit(Arg(e.def, "unit", "field"))
  /\ Has(e.def, "well") =>
       WellLegal(MakeModel(w, [e EXCEPT !.def = [x \in DOMAIN @ \ {"well"} |-> @[x]]]), [well |-> e.def.well])

\* the conditions in force, in a form that is the same for conditions that
\* mean the same: closed faces are left out, missing limits are zero
CondKey(m) ==
  LET bs == SortedSeq({b \in DOMAIN m.bc : m.bc[b].cond = "pressure" \/ ~NEq(m.bc[b].v, 0)})
      ws == SortedSeq(DOMAIN m.wells)
      s(c) == IF IsNone(m.wells[c].s) THEN N(0) ELSE m.wells[c].s
  IN  ToStr(<<MapSeq(bs, LAMBDA b : <<b, m.bc[b].cond, m.bc[b].v>>),
              MapSeq(ws, LAMBDA c : <<c, m.wells[c].q, MinPwf(m.wells[c]), m.wells[c].r, s(c), m.wells[c].G>>), m.props>>)

\* ---------------------------------------------------------- observation
HasObs(w, i) == \E n \in 1..Len(w.obs) : w.obs[n][1] = i
ObsOf(w, i)  == w.obs[CHOOSE n \in 1..Len(w.obs) : w.obs[n][1] = i][2]
NamesOf(o)   == MapSeq(o.sols, LAMBDA s : s.name)
HasSol(o, nm) == \E n \in 1..Len(o.sols) : o.sols[n].name = nm
SolOf(o, nm) == o.sols[CHOOSE n \in 1..Len(o.sols) : o.sols[n].name = nm]
Row(w, id)   == w.rows[id]
Eq(a, b)     == ToStr(a) = ToStr(b)
WPos(s, c)   == {n \in 1..Len(s.w) : s.w[n][1] = c}
HasW(s, c)   == WPos(s, c) # {}
WOf(s, c)    == s.w[CHOOSE n \in WPos(s, c) : TRUE][2]
IsPre(a, b)  == Len(a) <= Len(b) /\ \A n \in 1..Len(a) : a[n] = b[n]
IsPreNum(a, b) == Len(a) <= Len(b) /\ \A n \in 1..Len(a) : NSame(a[n], b[n])

\* ------------------------------------------------------------- requests
IsBoundCell(m, c) == IsInt(c) /\ c \in 0..(m.st.n - 1) /\ ~m.st.isin[c]
BEntries(a) == a.bdict["$bdict"]
BcLegal(m, e) ==
  CASE e.m = "set_boundary" -> IsBoundCell(m, e.a.cell_b_id) /\ KnownCond(e.a.cond)
    [] e.m = "set_all_boundaries" -> KnownCond(e.a.cond)
    [] e.m = "set_boundaries" ->
         \A n \in 1..Len(BEntries(e.a)) :
            IsBoundCell(m, BEntries(e.a)[n][1]) /\ KnownCond(BEntries(e.a)[n][2])
\* conditions on cells that have no reservoir neighbour have no effect
PutBc(m, bc, b, cond, v) ==
  IF m.st.isface[b] THEN Put(bc, b, [cond |-> CondOf(cond), v |-> N(v)]) ELSE bc
RECURSIVE PutBcs(_, _, _)
PutBcs(m, bc, es) ==
  IF es = <<>> THEN bc ELSE PutBcs(m, PutBc(m, bc, es[1][1], es[1][2], es[1][3]), Tail(es))
WithBc(m, e) ==
  CASE e.m = "set_boundary" -> [m EXCEPT !.bc = PutBc(m, @, e.a.cell_b_id, e.a.cond, e.a.v)]
    [] e.m = "set_all_boundaries" ->
         [m EXCEPT !.bc = TLCEval([b \in {i \in 0..(m.st.n - 1) : m.st.isface[i]} |->
                                    [cond |-> CondOf(e.a.cond), v |-> N(e.a.v)]])]
    [] e.m = "set_boundaries" -> [m EXCEPT !.bc = PutBcs(m, <<>>, BEntries(e.a))]

WithSolution(m, a) ==
  LET r  == CHOOSE x \in Resolve(a) : TRUE
      sp == Arg(a, "sparse", TRUE)
      nm == SolName(r[1], r[2], sp)
  IN  [m EXCEPT !.names = IF nm \in DOMAIN m.sols THEN @ ELSE Append(@, nm),
                !.sols  = Put(@, nm, [hist |-> <<>>, conds |-> <<>>, direct |-> <<>>, sparse |-> sp, cls |-> r[2]]),
                !.cur   = nm]

ISolvers == {"bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "minres", "qmr", "gcrotmk", "tfqmr"}
ISolverOf(e) == Arg(e.a, "isolver", IF e.m = "solve" THEN "cgs" ELSE None)
Iterative(m, e) == m.sols[m.cur].sparse /\ ~IsNone(ISolverOf(e))
ModeOf(m, e) == IF ~Iterative(m, e) THEN "direct" ELSE IF ISolverOf(e) = "minres" THEN "loose" ELSE "iter"
StepsOf(e) == IF e.m = "run" THEN Arg(e.a, "nsteps", 10) ELSE IF Arg(e.a, "update", TRUE) THEN 1 ELSE 0
SolveLegal(m, e) ==
  IF m.cur = "" THEN TRUE
  ELSE IF m.sols[m.cur].cls = "D1P1" THEN e.m = "run" /\ ~IsNone(m.pi)
  ELSE /\ (Iterative(m, e) => ISolverOf(e) \in ISolvers)
       /\ (NEq(m.st.comp, 0) \/ ~IsNone(m.pi))

ModelMutators == {"set_well", "set_boundary", "set_boundaries", "set_all_boundaries", "compile",
                  "set_solution", "solve", "run", "set_scalers", "set_units"}
\* the request is one that must succeed; requests that are not are rejected
Legal(w, e) ==
  LET m == w.model[e.i] IN
  CASE e.m = "set_well" -> WellLegal(m, e.a)
    [] e.m \in {"set_boundary", "set_boundaries", "set_all_boundaries"} -> BcLegal(m, e)
    [] e.m = "compile" -> Resolve(e.a) # {}
    [] e.m = "set_solution" -> e.a.name \in DOMAIN m.sols
    [] e.m \in {"solve", "run"} -> SolveLegal(m, e)
    [] e.m = "set_scalers" -> SettingsOk(e.a)
    [] e.m = "set_units" -> KnownUnit(Arg(e.a, "unit", "field"))
    [] OTHER -> TRUE

\* the state after a request that was carried out, without the effect of
\* solving, which is taken from the observation
Carried(m, e) ==
  CASE e.m = "set_well" -> WithWell(m, e.a)
    [] e.m \in {"set_boundary", "set_boundaries", "set_all_boundaries"} -> WithBc(m, e)
    [] e.m = "compile" -> WithSolution(m, e.a)
    [] e.m = "set_solution" -> [m EXCEPT !.cur = e.a.name]
    [] e.m = "set_units" -> Refreshed([m EXCEPT !.unit = Arg(e.a, "unit", "field")], m.go, m.fo)
    [] e.m = "set_scalers" -> LET sc == PutSettings(m.sc, Settings(e.a)) IN [m EXCEPT !.sc = sc]
    [] OTHER -> m
IsSolve(e) == e.op = "call" /\ e.on = "model" /\ e.m \in {"solve", "run"}
Rep(n, x) == [k \in 1..n |-> x]
\* steps that were added to the selected solution
Added(w, w2, i) ==
  LET nm == w.model[i].cur
  IN  IF nm = "" \/ ~HasObs(w, i) \/ ~HasObs(w2, i) THEN 0
      ELSE IF ~HasSol(ObsOf(w, i), nm) \/ ~HasSol(ObsOf(w2, i), nm) THEN 0
      ELSE LET k == Len(SolOf(ObsOf(w2, i), nm).p) - Len(SolOf(ObsOf(w, i), nm).p)
           IN  IF k > 0 THEN k ELSE 0
\* the first run of an analytical solution fixes its end pressures
EndValues(m) ==
  LET b == m.st.n - 1 IN
  IF {0, b} \subseteq DOMAIN m.bc THEN
    (IF m.bc[0].cond = "pressure" /\ m.bc[b].cond = "pressure" /\ ~IsNone(m.pi)
     THEN <<m.bc[0].v, m.bc[b].v>> ELSE <<>>)
  ELSE <<>>
AnalyticRun(w2, e) ==
  LET m == w2.model[e.i]  s == m.sols[m.cur] IN
  IF ~e.ok \/ s.hist # <<>> THEN w2
  ELSE [w2 EXCEPT !.model = Put(@, e.i, [m EXCEPT !.sols = Put(@, m.cur, [s EXCEPT !.hist = <<EndValues(m)>>])])]
\* the conditions of a step; the problem only where it is not that of the definition
InForce(m) == [bc |-> m.bc, wells |-> m.wells, st |-> IF m.props = "" THEN None ELSE m.st]
Stepped(w, w2, e) ==
  LET m == w2.model[e.i]  k == Added(w, w2, e.i) IN
  IF m.cur = "" THEN w2
  ELSE IF m.sols[m.cur].cls # "FDM" THEN AnalyticRun(w2, e)
  ELSE IF k = 0 THEN w2
  ELSE [w2 EXCEPT !.model = Put(@, e.i, [m EXCEPT
          !.sols = Put(@, m.cur, [@[m.cur] EXCEPT !.hist = @ \o Rep(k, CondKey(m)),
                                                  !.conds = @ \o Rep(k, InForce(m)),
                                                  !.direct = @ \o Rep(k, ModeOf(m, e))])])]
=============================================================================
