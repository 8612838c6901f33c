----------------------------- MODULE GenSession -----------------------------
(***************************************************************************)
(* Behaviours of the session state machine.  A behaviour starts from        *)
(* generated grids, fluids and models and takes macro steps; every macro    *)
(* step is a sequence of calls that is chosen, by profile, from the calls   *)
(* the state allows (and, for profile "bad", from those it does not).       *)
(* The state is advanced with the transitions of Session, so that all       *)
(* calls that are meant to be legal are legal.                              *)
(***************************************************************************)
EXTENDS GenLib, World

Profile == Env("GEN_PROFILE")
NCases  == EnvInt("GEN_CASES", 40)
Depth   == EnvInt("GEN_DEPTH", 8)
OutFile == Env("GEN_OUT")

(* ------------------------------- set up -------------------------------- *)
Shapes1 == << <<2, 1, 1>>, <<3, 1, 1>>, <<4, 1, 1>>, <<5, 1, 1>>, <<4, 1, 1>> >>
Shapes2 == << <<2, 2, 1>>, <<3, 2, 1>>, <<2, 3, 1>>, <<3, 3, 1>>, <<4, 2, 1>> >>
Shapes3 == << <<2, 2, 2>>, <<3, 2, 2>>, <<2, 3, 2>>, <<2, 2, 3>>, <<3, 3, 2>> >>
ShapesO == << <<1, 3, 1>>, <<1, 1, 4>>, <<1, 2, 3>>, <<3, 1, 2>>, <<1, 3, 3>>, <<1, 4, 1>>, <<2, 1, 2>> >>
ShapesW == Shapes1 \o Shapes2 \o Shapes3           \* wells are possible
ShapesAll == ShapesW \o ShapesO
BigShapes == << <<12, 1, 1>>, <<5, 4, 1>>, <<4, 3, 2>>, <<3, 3, 3>>, <<6, 3, 1>>, <<3, 2, 4>> >>
ProfShapes ==
  CASE Profile \in {"wells"} -> ShapesW
    [] Profile = "sols" -> Shapes1 \o Shapes1 \o Shapes2 \o Shapes3
    [] Profile = "step" -> ShapesW \o <<(<<1, 3, 1>>), (<<1, 2, 3>>)>>
    [] OTHER -> ShapesAll
HugeShapes == << <<40, 1, 1>>, <<11, 10, 1>>, <<5, 5, 4>>, <<13, 4, 2>> >>
ShapeOf(key) == IF Profile \in {"flow", "wells", "change", "step", "bound", "modes", "props"} /\ Chance(<<key, "huge">>, IF Profile = "modes" THEN 4 ELSE 2) THEN Pick(<<key, "shape">>, HugeShapes)
                ELSE IF Chance(<<key, "large">>, IF EnvInt("GEN_LARGE", 0) = 1 THEN 40 ELSE 7)
                THEN Pick(<<key, "shape">>, BigShapes) ELSE Pick(<<key, "shape">>, ProfShapes)

FlowPermStyles == << <<1, 1, 1>>, <<2, 2, 2>>, <<3, 1, 2>>, <<2, 1, 1>>, <<1, 3, 2>>, <<3, 3, 3>>, <<5, 5, 5>>, <<5, 2, 1>>, <<2, 5, 2>> >>
FlowGrid(key, unit, comp) ==
  LET s  == ShapeOf(key)
      ds == <<Between(<<key, "d1">>, 1, 4), Between(<<key, "d2">>, 1, 4), Between(<<key, "d3">>, 1, 4)>>
      g  == GenShape(key, s, ds, Chance(<<key, "uni">>, 60))
      st == Pick(<<key, "perm">>, FlowPermStyles)
      \* some compressible reservoirs have barriers (cells of no permeability)
      bar == Profile \notin {"sols", "df"} /\ ~NEq(comp, 0) /\ Chance(<<key, "barrier">>, 15)
      open == 1 + CHOOSE j \in 0..(NAll(g) - 1) : IsInner(g, j)
      shut(n, v) == IF ~bar THEN v
                    ELSE [m \in 1..NAll(g) |-> IF IsInner(g, m - 1) /\ m # open /\ Chance(<<key, "bar", m>>, 30) /\ (n = "kx" \/ Chance(<<key, "bar", n>>, 60))
                                                THEN N(0) ELSE IF IsSeq(v) THEN v[m] ELSE v]
      perm(n, k) == shut(n, GenPerm(<<key, n>>, g, st[k]))
  IN  [g EXCEPT !.unit = unit] @@ ("kx" :> perm("kx", 1)) @@ ("ky" :> perm("ky", 2)) @@ ("kz" :> perm("kz", 3))
        @@ ("phi" :> GenPhi(key, g))
        @@ ("z" :> GenZ(key, g, Rnd(<<key, "zs">>, ZStyles)))
        @@ ("comp" :> comp)
FlowFluid(key, unit, comp) ==
  [mu |-> N(Pick(<<key, "mu">>, Mus)), B |-> N(Pick(<<key, "B">>, FVFs)),
   rho |-> Pick(<<key, "rho">>, <<0, 50, N("45.5"), 62>>), comp |-> comp, unit |-> unit]
\* rock and fluid compressibility
Comps == << <<0, 0>>, <<N("1e-6"), N("1e-5")>>, <<0, N("2e-5")>>, <<N("4e-6"), 0>>, <<N("1e-6"), N("1e-5")>> >>
Dts == <<1, 1, N("0.5"), 5, 10, 30>>
Pis == <<4000, 6000, 2500, N("3120.5")>>
Pis0 == Pis \o Pis \o Pis \o <<0>>

NeedsPi(cc) == ~NEq(NAdd(cc[1], cc[2]), 0)
NModels ==
  CASE Profile = "modes" -> 3 [] Profile = "multi" -> 3 [] Profile \in {"bound", "step", "change", "bad", "wells", "props"} -> 2
    [] OTHER -> 1
(* --------------------------- generated calls --------------------------- *)
WithCond(m, e) == IF e.m = "set_well" THEN WithWell(m, e.a) ELSE WithBc(m, e)
Mo(i, m, a) == [op |-> "call", on |-> "model", i |-> i, m |-> m, a |-> a]
For(op, i)  == [op EXCEPT !.i = i]
SeqOfSet(S) == SortedSeq(S)
Faces(m)  == SeqOfSet({i \in 0..(m.st.n - 1) : m.st.isface[i]})
Bounds(m) == SeqOfSet({i \in 0..(m.st.n - 1) : ~m.st.isin[i]})
Inners(m) == m.st.ids
FaceCell(m, j) == LET st == m.st
                      n == CHOOSE n \in 1..Len(st.ids) : \E k \in 1..Len(st.fc[n]) : st.fc[n][k].j = j
                  IN  n
Pi(m) == IF IsNone(m.pi) THEN N(4000) ELSE IF NEq(m.pi, 0) THEN N(4000) ELSE m.pi

RateNames == <<"rate", "q", "Rate", "Q", "RATE">>
PresNames == <<"pressure", "press", "p", "Pressure", "P", "PRESS">>
GradNames == <<"gradient", "grad", "g", "Gradient", "G", "GRAD">>
Spell(key, cond) ==
  Pick(<<key, "spell">>, CASE cond = "rate" -> RateNames [] cond = "pressure" -> PresNames
                           [] cond = "gradient" -> GradNames)
Frac(key, s) == N(Pick(key, s))
BcValue(key, m, j, cond) ==
  LET f == FaceLink(m.st, j)
      dp == NMul(Pi(m), Frac(<<key, "dp">>, <<"0.02", "0.1", "0.25", "0.4">>))
      sg == IF Chance(<<key, "sg">>, 50) THEN N(1) ELSE N(-1)
  IN  CASE cond = "pressure" -> IF Chance(<<key, "pz">>, 4) THEN N(0) ELSE NRound(NAdd(Pi(m), NMul(sg, dp)), 5)
        [] cond = "rate"     -> IF Chance(<<key, "zero">>, 20) THEN N(0) ELSE NRound(NMul(sg, NMul(f.T, dp)), 4)
        [] cond = "gradient" -> IF Chance(<<key, "gz">>, 10) THEN N(0) ELSE NRound(NMul(sg, NDiv(dp, NMul(4, f.d))), 4)
\* the flow of a gradient is that of the properties when it was set: unspecified
RandCond(key) == Pick(<<key, "cond">>, <<"pressure", "pressure", "rate", IF Profile = "props" THEN "rate" ELSE "gradient">>)
BcEntry(key, m, j) ==
  LET c == RandCond(key)
  IN  IF m.st.isface[j] THEN <<j, Spell(key, c), BcValue(key, m, j, c)>>
      ELSE <<j, Spell(key, c), N(100)>>
EntryOp(i, en) == Mo(i, "set_boundary", [cell_b_id |-> en[1], cond |-> en[2], v |-> en[3]])
GenBc(key, m, i) ==
  LET k == Rnd(<<key, "bck">>, 10)
      one == EntryOp(i, BcEntry(key, m, Pick(<<key, "cell">>, IF Chance(<<key, "corner">>, 8) THEN Bounds(m) ELSE Faces(m))))
      cells == Sample(<<key, "dict">>, IF Chance(<<key, "dcorner">>, 30) THEN Bounds(m) ELSE Faces(m),
                      1 + Rnd(<<key, "dn">>, 4))
      ac == RandCond(<<key, "ac">>)
      j0 == Pick(<<key, "j0">>, Faces(m))
  IN  IF k < 6 THEN one
      ELSE IF k < 9
           THEN Mo(i, "set_boundaries", [bdict |-> ("$bdict" :> [n \in 1..Len(cells) |-> BcEntry(<<key, n>>, m, cells[n])])])
           ELSE Mo(i, "set_all_boundaries", [cond |-> Spell(key, ac), v |-> BcValue(key, m, j0, ac)])

\* wells
SkinOrNone(key) == Pick(<<key, "s">>, <<"None", 0, N("1.5"), 3, N("-0.75")>>)
Radius(key) == N(Pick(<<key, "r">>, <<"3.5", "0.5", "0.25", "1">>))
Targets5 == <<"0.1", "0.3", "0.7", "1.2", "3">>
WellQ(key, m, c, r, s, pwf) ==
  LET Gw == WellG(m.go.d, m.go.pr, m.unit, c, r, IF IsNone(s) THEN N(0) ELSE N(s))
      J  == NDiv(Gw, m.st.muB)
      p0 == IF IsNone(pwf) THEN N(0) ELSE N(pwf)
      f  == Frac(<<key, "f">>, Targets5)
  IN  IF Chance(<<key, "shut">>, 5) THEN N(0)
      ELSE IF Chance(<<key, "inj">>, 25)
      THEN NRound(NMul(NMul(J, Pi(m)), Frac(<<key, "fi">>, <<"0.05", "0.2">>)), 4)
      ELSE NRound(NNeg(NMul(NMul(J, NSub(Pi(m), p0)), f)), 4)
GenPwf(key, m) == Pick(<<key, "pwf">>, <<"None", 0, NRound(NMul(Pi(m), "0.25"), 4), NRound(NMul(Pi(m), "0.6"), 4),
                                      NRound(NMul(Pi(m), "0.6"), 4), NRound(NMul(Pi(m), "1.1"), 4)>>)
\* cells of no permeability have no wells
WellCells(m) == SelectSeq(Inners(m), LAMBDA j : NLt(0, m.go.pr.kx[j + 1]) /\ NLt(0, m.go.pr.ky[j + 1]))
CanWell(m) == Fdir(m.go.d) \in WellDirs /\ WellCells(m) # <<>>
GenWell(key, m, i) ==
  LET olds == SeqOfSet(DOMAIN m.wells \cap Range(WellCells(m)))
      c   == IF olds # <<>> /\ Chance(<<key, "oldwell">>, 60)
             THEN Pick(<<key, "wc">>, olds) ELSE Pick(<<key, "wc2">>, WellCells(m))
      old == c \in DOMAIN m.wells
      r   == Radius(key)
      s   == SkinOrNone(key)
      pwf == GenPwf(key, m)
      q   == WellQ(key, m, c, r, s, pwf)
      k   == Rnd(<<key, "wk">>, 10)
      full(a) == IF IsNone(s) THEN a ELSE a @@ ("s" :> s)
  IN  IF ~old \/ k < 2 THEN
        \* a cell that is named in the call replaces the cell of the well
        CASE k \in {0, 3} /\ Chance(<<key, "moved">>, 30) ->
               Mo(i, "set_well", [well |-> ("$well" :> full([cell_id |-> Pick(<<key, "wc3">>, WellCells(m)), q |-> q, r |-> r])), cell_id |-> c])
          [] k \in {0, 3} -> Mo(i, "set_well", [well |-> ("$well" :> full([cell_id |-> c, q |-> q, r |-> r]))])
          [] k \in {1, 4} -> Mo(i, "set_well", full([cell_id |-> c, pwf |-> IF IsNone(pwf) THEN 0 ELSE pwf, r |-> r]))
          [] OTHER -> Mo(i, "set_well", IF IsNone(pwf) THEN full([cell_id |-> c, q |-> q, r |-> r])
                                        ELSE full([cell_id |-> c, q |-> q, pwf |-> pwf, r |-> r]))
      ELSE LET mw == m.wells[c]
               q2 == WellQ(key, m, c, mw.r, mw.s, mw.pwf)
           IN  CASE k < 5 -> Mo(i, "set_well", [cell_id |-> c, q |-> q2])
                 [] k < 7 -> Mo(i, "set_well", [cell_id |-> c, pwf |-> IF IsNone(pwf) THEN 100 ELSE pwf])
                 [] k = 7 -> Mo(i, "set_well", [cell_id |-> c, s |-> Pick(<<key, "sk">>, <<N("2.5"), N("-0.5"), 0>>)])
                 [] k = 8 -> Mo(i, "set_well", [cell_id |-> c, r |-> r])
                 [] OTHER -> Mo(i, "set_well", full([cell_id |-> c, q |-> q, r |-> r]))

\* wells that are kept as objects, changed and set (again)
WellObjects(key, w, m) ==
  LET old == w.well # <<>> /\ Chance(<<key, "woold">>, 65)
      i   == IF old THEN Pick(<<key, "woi">>, SeqOfSet(DOMAIN w.well)) ELSE 1 + Rnd(<<key, "won">>, 2)
      c   == IF old THEN w.well[i].cell_id ELSE Pick(<<key, "woc">>, WellCells(m))
      c2  == Pick(<<key, "woc2">>, WellCells(m))
      r   == Radius(key)
      s   == SkinOrNone(key)
      q   == WellQ(key, m, c, r, s, "None")
      new == [op |-> "new", on |-> "well", i |-> i,
              def |-> [cell_id |-> c, q |-> q, r |-> r] @@ (IF IsNone(s) THEN <<>> ELSE ("s" :> s))]
      wm(mm, a) == [op |-> "call", on |-> "well", i |-> i, m |-> mm, a |-> a]
      chg(k) == Pick(<<key, "wom", k>>,
                 << wm("set_q", [q |-> q]), wm("set_q", [q |-> q]), wm("set_s", [s |-> IF IsNone(s) THEN 0 ELSE s]), wm("set_r", [r |-> r]),
                    wm("set_cell_id", [cell_id |-> c2]), wm("set_props", [q |-> q]), wm("set_props", [r |-> r, q |-> q]),
                    wm("set_props", [cell_id |-> c2, s |-> N("0.5")]) >>)
      set == Mo(1, "set_well", IF Chance(<<key, "wor">>, 15) THEN [well |-> ("$wobj" :> i), cell_id |-> c2] ELSE [well |-> ("$wobj" :> i)])
      ask == [op |-> "get", on |-> "well", i |-> i, m |-> Pick(<<key, "woa">>, <<"q", "r", "s", "cell_id">>), a |-> None0]
  IN  IF ~CanWell(m) THEN <<>>
      ELSE IF old THEN <<chg(1)>> \o (IF Chance(<<key, "wos">>, 70) THEN <<set>> ELSE <<>>) \o <<ask>>
                       \o (IF Chance(<<key, "wo2">>, 30) THEN <<chg(2)>> ELSE <<>>)
      ELSE <<new, set>> \o (IF Chance(<<key, "wo2">>, 40) THEN <<chg(1)>> ELSE <<>>)
\* some models are created with a well
FirstWell(key, g, f, def) ==
  LET m == MakeModel(Apply(Apply(NewWorld([rows |-> <<>>]), NewGrid(1, g)), NewFluid(1, f)), NewModel(1, 1, 1, def))
      c == Pick(<<key, "c">>, WellCells(m))
      r == Radius(key)
      s == SkinOrNone(key)
      wl == ("$well" :> ([cell_id |-> c, q |-> WellQ(key, m, c, r, s, "None"), r |-> r] @@ (IF IsNone(s) THEN <<>> ELSE ("s" :> s))))
  IN  IF Chance(key, 20) /\ CanWell(m) THEN def @@ ("well" :> wl) ELSE def
Setup(c) ==
  LET key  == <<Seed, Profile, c>>
      unit == Pick(<<key, "unit">>, <<"field", "field", "metric", "lab">>)
      cc   == Pick(<<key, "comp">>, Comps)
      pi0  == Pick(<<key, "pi">>, Pis0)
      dt0  == Pick(<<key, "dt">>, Dts)
      \* the initial pressure is needed only for compressible systems
      def0 == IF Profile # "df" /\ ~NeedsPi(cc) /\ Chance(<<key, "nopi">>, 30)
              THEN [dt |-> dt0, unit |-> unit] ELSE [pi |-> pi0, dt |-> dt0, unit |-> unit]
      defn == IF Profile # "df" THEN def0
              ELSE ("dt" :> N(Pick(<<key, "dt">>, <<1, "0.25", "0.1", "1.5", 10, 7, "0.5">>))) @@ def0
                   @@ ("start_date" :> ("$date" :> <<Between(<<key, "yr">>, 1999, 2024), Between(<<key, "mo">>, 1, 12),
                                                     Between(<<key, "dy">>, 20, 28)>>))
      g1   == FlowGrid(key, unit, cc[1])
      f1   == FlowFluid(key, unit, cc[2])
      def  == FirstWell(<<key, "fw">>, g1, f1, defn)
      def2 == IF Profile = "multi" /\ Chance(<<key, "def2">>, 40)
              THEN [pi |-> Pick(<<key, "pi2">>, Pis), dt |-> Pick(<<key, "dt2">>, Dts), unit |-> unit] ELSE def
      two  == Profile = "multi" /\ Chance(<<key, "two">>, 40)
      u2   == Pick(<<key, "unit2">>, Units3)
      g2   == IF Chance(<<key, "g2same">>, 50) THEN g1 ELSE FlowGrid(<<key, 2>>, u2, cc[1])
      by   == IF Profile # "multi" THEN <<>>
              ELSE <<NewGrid(9, g1 @@ ("dtype" :> "single")),
                     NewFluid(9, f1 @@ ("dtype" :> "single"))>>
  IN  <<NewGrid(1, g1), NewFluid(1, f1)>>
      \o (IF two THEN <<NewGrid(2, g2), NewFluid(2, FlowFluid(<<key, 2>>, g2.unit, cc[2]))>> ELSE <<>>)
      \o <<NewModel(1, 1, 1, def)>>
      \o by
      \o (IF NModels >= 2 THEN <<NewModel(2, 1, 1, def2)>> ELSE <<>>)
      \o (IF Profile = "bad" /\ NeedsPi(cc) THEN <<NewModel(3, 1, 1, [dt |-> dt0, unit |-> unit])>> ELSE <<>>)
      \o (IF NModels >= 3 THEN <<NewModel(3, IF two THEN 2 ELSE 1, IF two THEN 2 ELSE 1,
                                   IF two THEN [defn EXCEPT !.unit = g2.unit] ELSE def)>> ELSE <<>>)

HasPressure(m) == \E b \in DOMAIN m.bc : m.bc[b].cond = "pressure"
\* problems without a unique solution are left out
Sane(m) == NEq(m.st.comp, 0) => HasPressure(m)
GenCond(key, m, i) ==
  LET b  == GenBc(key, m, i)
      w  == GenWell(key, m, i)
      fb == EntryOp(i, LET j == Pick(<<key, "fbj">>, Faces(m)) IN <<j, "pressure", BcValue(key, m, j, "pressure")>>)
      op == IF CanWell(m) /\ Chance(<<key, "well">>, 50) THEN w ELSE b
  IN  IF Sane(WithCond(m, op)) THEN op ELSE fb

\* time steps
SolverList == <<"bicg", "bicgstab", "cg", "cgs", "gmres", "lgmres", "qmr", "gcrotmk", "tfqmr", "minres">>
Solver(key, pct) == IF Chance(<<key, "iter">>, pct) THEN Pick(<<key, "isolver">>, SolverList) ELSE "None"
Opt(key, name, pct, v, a) == IF Chance(<<key, name>>, pct) THEN a @@ (name :> v) ELSE a
StepOpts(key, pct) ==
  LET a0 == [isolver |-> Solver(key, pct)]
      a1 == Opt(key, "vectorize", 25, FALSE, a0)
      a2 == Opt(key, "threading", 40, Chance(<<key, "thr">>, 50), a1)
      a3 == Opt(key, "check_MB", 25, FALSE, a2)
  IN  Opt(key, "print_arrays", 5, TRUE, a3)
\* without isolver the defaults are used: iterative for solve, direct for run
StepOp(key, i, pct, maxn) ==
  LET o == StepOpts(key, pct)
      d == Chance(<<key, "dflt">>, 8)
  IN  IF Chance(<<key, "solve">>, 50)
      THEN Mo(i, "solve", IF d /\ pct > 0 THEN [vectorize |-> TRUE] ELSE o)
      ELSE Mo(i, "run", IF d THEN [nsteps |-> 1 + Rnd(<<key, "n">>, maxn)]
                        ELSE o @@ ("nsteps" :> (IF Profile \notin {"sols", "bad"} /\ Chance(<<key, "n0">>, 4) THEN 0 ELSE 1 + Rnd(<<key, "n">>, maxn))))
StNames == [numerical |-> <<"numerical", "n", "num", "Numerical", "NUM">>,
            analytical |-> <<"analytical", "a", "ana", "Analytical">>]
MetNames == [FDM |-> <<"FDM", "fdm", "finite difference method", "Finite-Difference-Method">>,
             D1P1 |-> <<"D1P1", "d1p1", "1D1P", "1-dimension-1-phase", "1dimension1phase">>]
CompileOp(key, i, met, sp) ==
  LET t == IF met = "FDM" THEN "numerical" ELSE "analytical"
  IN  Mo(i, "compile", [stype |-> Pick(<<key, "st">>, StNames[t]), method |-> Pick(<<key, "me">>, MetNames[met]),
                        sparse |-> sp])
Compile(i, sp) == Mo(i, "compile", [stype |-> "numerical", method |-> "FDM", sparse |-> sp])
NameOf(met, sp) == SolName(IF met = "FDM" THEN "numerical" ELSE "analytical", met, sp)
SetSol(i, nm) == Mo(i, "set_solution", [name |-> nm])

(* ---------------------------- the behaviour ---------------------------- *)
Conds(m)  == {"set_well", "set_boundary", "set_boundaries", "set_all_boundaries"}
Each2(s, F(_)) == FlattenSeq([n \in 1..Len(s) |-> F(s[n])])
AllModels(w) == SeqOfSet(DOMAIN w.model)
ToAll(w, op) == [n \in 1..Len(AllModels(w)) |-> For(op, AllModels(w)[n])]

\* state after a generated call; a time step adds to the history of conditions
GenAfter(w, e0) ==
  LET e == Resolved(w, e0) IN
  IF ~AllLegal(w, e) THEN w
  ELSE IF IsSolve(e) THEN
         LET m == w.model[e.i] IN
         IF m.cur = "" THEN w
         ELSE [w EXCEPT !.model = Put(@, e.i, [m EXCEPT !.sols = Put(@, m.cur,
                [@[m.cur] EXCEPT !.hist = @ \o Rep(StepsOf(e), "x")])])]
       ELSE TLCEval(Apply(w, e))
RECURSIVE GenAll(_, _)
GenAll(w, es) == IF es = <<>> THEN w ELSE GenAll(TLCEval(GenAfter(w, Head(es))), Tail(es))
\* calls that depend on the state that the earlier ones produce
ChainOp(kind, key, m, i) ==
  CASE kind = "c" -> GenCond(key, m, i)
    [] kind = "w" -> GenWell(key, m, i)
    [] kind = "b" -> LET op == GenBc(key, m, i)
                         j  == Pick(<<key, "fbj">>, Faces(m))
                     IN  IF Sane(WithCond(m, op)) THEN op
                         ELSE EntryOp(i, <<j, "p", BcValue(key, m, j, "pressure")>>)
RECURSIVE Chain(_, _, _, _, _)
Chain(kind, key, w, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET op == TLCEval(ChainOp(kind, <<key, kind, n>>, w.model[i], i))
       IN  <<op>> \o Chain(kind, key, TLCEval(GenAfter(w, op)), i, n - 1)
CondChain(key, w, i, n) == Chain("c", key, w, i, n)
WellChain(key, w, i, n) == Chain("w", key, w, i, n)
BcChain(key, w, i, n)   == Chain("b", key, w, i, n)

\* another way to the same boundary conditions
SyncBc(key, src, dst, i) ==
  LET js  == SeqOfSet(DOMAIN src.bc)
      ent(j, n) == <<j, Spell(<<key, n>>, src.bc[j].cond), src.bc[j].v>>
      gone == SeqOfSet(DOMAIN dst.bc \ DOMAIN src.bc)
      sh  == Shuffle(<<key, "sync">>, js)
      dict == Mo(i, "set_boundaries", [bdict |-> ("$bdict" :> [n \in 1..Len(sh) |-> ent(sh[n], n)])])
      ones == [n \in 1..Len(sh) |-> EntryOp(i, ent(sh[n], n))]
      zero == [n \in 1..Len(gone) |-> EntryOp(i, <<gone[n], "q", N(0)>>)]
  IN  IF Chance(<<key, "how">>, 50) THEN <<dict>> ELSE ones \o zero
SyncWells(key, src, i) ==
  LET cs == Shuffle(<<key, "ws">>, SeqOfSet(DOMAIN src.wells))
      one(c) == LET w == src.wells[c]
                    a1 == [cell_id |-> c, r |-> w.r, s |-> IF IsNone(w.s) THEN N(0) ELSE w.s,
                           pwf |-> IF IsNone(w.pwf) THEN N(0) ELSE w.pwf]
                IN  Mo(i, "set_well", IF IsNone(w.q) THEN a1 ELSE a1 @@ ("q" :> w.q))
  IN  [n \in 1..Len(cs) |-> one(cs[n])]

\* lookups of cells that do not exist, and other queries without an answer
BadCells(key, m, i) ==
  LET g    == m.go.d
      n    == m.st.n
      q(mm, a) == [op |-> "call", on |-> "grid", i |-> 1, m |-> mm, a |-> a]
      ax   == 1 + Rnd(<<key, "bax">>, 3)
      in   == CoordsOf(g, Pick(<<key, "bc0">>, AllIds(g)))
      beyond == Pick(<<key, "bc1">>, <<NB(g, Axes[ax]), NB(g, Axes[ax]) + 2, -1>>)
      co   == [k \in 1..3 |-> IF k = ax THEN beyond ELSE in[k]]
      d    == Pick(<<key, "bd">>, Axes)
      id   == n + Rnd(<<key, "bid">>, 4)
      at   == IF Chance(<<key, "bco">>, 65) THEN [coords |-> co] ELSE [id |-> id]
      tr   == IF Chance(<<key, "btr">>, 65) THEN [cell_coords |-> co] ELSE [cell_id |-> id]
      bc   == Pick(<<key, "bcb">>, Bounds(m))
      arr(v, sh) == ("$arr" :> v) @@ ("sh" :> sh)
      some == arr([k \in 1..n |-> k], FShape(g, TRUE))
  IN  << q("get_cell_icoords", [coords |-> co]), q("get_cell_d", ("dir" :> d) @@ at), q(Cat(<<"get_cell_d", d>>), at),
         q("get_cell_A", ("dir" :> d) @@ at), q(Cat(<<"get_cell_A", d>>), at), q("get_cell_V", at), q("get_cell_center", at),
         q("get_cell_k", ("dir" :> d) @@ at), q(Cat(<<"get_cell_k", d>>), at), q("get_cell_G", at),
         Mo(i, "get_cell_trans", tr), q("get_cell_d", [dir |-> "w", id |-> 0]), q("get_cell_A", [dir |-> "", id |-> 0]),
         q("get_cell_k", [dir |-> "xyz", id |-> 0]), q("get_cells_A", [dir |-> "v"]),
         q("get_cell_neighbors", None0), q("get_cell_neighbors", [id |-> bc, boundary |-> TRUE]),
         q("get_cell_boundaries", None0), q("get_cell_boundaries", [id |-> bc]),
         q("get_cell_neighbors", [id |-> Pick(<<key, "bi2">>, Inners(m)), boundary |-> FALSE, fmt |-> "frame"]),
         q("get_boundaries", [by |-> "coordinates", fmt |-> "list"]), q("get_boundaries", [by |-> "id", fmt |-> "dict"]),
         q("remove_boundaries", [in_data |-> some, points |-> FALSE, remove |-> "top"]),
         q("extract_boundaries", [in_data |-> some, points |-> FALSE, fmt |-> "dict"]),
         q("get_order", [type |-> "random", boundary |-> TRUE, fshape |-> FALSE]),
         q("get_cells_coords", [boundary |-> TRUE, fshape |-> FALSE, fmt |-> "frame"]),
         Mo(i, "get_cells_trans_diag", [boundary |-> FALSE, diag_n |-> Dim(g) + 1]) >>
\* changes of grids and fluids, and objects, that must be rejected
BadObjects(key, m, i) ==
  LET g    == m.go.d
      n    == m.st.n
      gm(mm, a) == [op |-> "call", on |-> "grid", i |-> 1, m |-> mm, a |-> a]
      fm(mm, a) == [op |-> "call", on |-> "fluid", i |-> 1, m |-> mm, a |-> a]
      unit == Pick(<<key, "bu">>, <<"si", "Field", "", "imperial", 0>>)
      p    == Pick(<<key, "bp">>, <<"kx", "ky", "kz", "phi", "z">>)
      list(k) == [j \in 1..k |-> N("0.25")]
      short == list(IF Chance(<<key, "bl">>, 50) THEN n - 1 ELSE n + 1)
      new(def) == [op |-> "new", on |-> "grid", i |-> 7, def |-> def]
      base == [nx |-> 3, ny |-> 2, nz |-> 1, dx |-> 1, dy |-> 1, dz |-> 1]
      axd == Pick(<<key, "bad">>, <<"dx", "dy">>)
  IN  << gm("set_comp", [comp |-> N("-1e-6")]), gm("set_props", [kx |-> 55, comp |-> N("-2e-6")]),
         gm("set_props", (p :> short) @@ ("kx" :> 99)), gm("set_props", [id |-> n, kx |-> 3, phi |-> N("0.1")]),
         gm("set_prop", [name |-> p, value |-> short]), gm("set_prop", [name |-> p, value |-> 1, id |-> n]),
         gm("set_prop", [name |-> "perm", value |-> 5]), gm("set_prop", [name |-> "perm", value |-> 5, id |-> 0]),
         gm("set_prop", [name |-> p, value |-> list(3), id |-> <<0, 1>>]),
         gm("set_units", [unit |-> unit]), fm("set_units", [unit |-> unit]), Mo(i, "set_units", [unit |-> unit]),
         fm("set_comp", [comp |-> N("-1e-6")]), fm("set_props", [mu |-> 7, comp |-> N("-1e-6")]),
         fm("set_props", [B |-> 3, rho |-> 1, comp |-> -1]),
         new(base @@ ("kx" :> list(5))), new(base @@ ("phi" :> list(7))), new(base @@ ("comp" :> N("-1e-6"))),
         new(Put(base, axd, <<1, 2, 3>>)), new(Put(base, axd, <<1, 2, 3, 4, 5, 6>>)),
         new(Put(base, Pick(<<key, "bn">>, <<"nx", "ny", "nz">>), Pick(<<key, "bnv">>, <<0, -1, -3>>))),
         [op |-> "new", on |-> "fluid", i |-> 7, def |-> [mu |-> 1, B |-> 1, comp |-> -1]],
         [op |-> "new", on |-> "model", i |-> 7, g |-> 1, f |-> 1, def |-> [pi |-> 4000, dt |-> 1, unit |-> "SI"]] >>
\* calls that must be rejected
BadOps(key, m, i) ==
  LET b  == Pick(<<key, "bb">>, Bounds(m))
      f  == Pick(<<key, "bf">>, Faces(m))
      c  == Pick(<<key, "bi">>, Inners(m))
      n  == m.st.n
      dict(es) == Mo(i, "set_boundaries", [bdict |-> ("$bdict" :> es)])
      w(a) == Mo(i, "set_well", a)
      comp(t, me, sp) == Mo(i, "compile", [stype |-> t, method |-> me, sparse |-> sp])
      df(cols) == Mo(i, "get_df", [columns |-> cols])
      scal(ss) == Mo(i, "set_scalers", [scalers_dict |-> ("$dict" :> ss)])
      q(mm, a) == [op |-> "call", on |-> "grid", i |-> 1, m |-> mm, a |-> a]
      wells == IF Fdir(m.go.d) \in WellDirs THEN << >> ELSE << w([cell_id |-> c, q |-> -1, r |-> 1]) >>
  IN  << w([cell_id |-> b, q |-> -10, r |-> 1, s |-> 0]), w([cell_id |-> n + 3, q |-> -10, r |-> 1]),
         w([q |-> -10, r |-> 1]), w([cell_id |-> -1, q |-> -10, r |-> 1]),
         w([well |-> ("$well" :> [q |-> -5, r |-> 1])]),
         w([well |-> ("$well" :> [cell_id |-> b, q |-> -5, r |-> 1])]),
         EntryOp(i, <<c, "pressure", 3000>>), EntryOp(i, <<n + 1, "rate", 1>>), EntryOp(i, <<f, "flux", 3000>>),
         EntryOp(i, <<f, "", 3000>>), EntryOp(i, <<c, "rate", 0>>), EntryOp(i, <<f, "pressures", 100>>),
         dict(<< <<f, "pressure", 3333>>, <<c, "rate", 0>> >>),
         dict(<< <<c, "rate", 0>>, <<f, "pressure", 3333>> >>),
         dict(<< <<f, "p", 3333>>, <<Faces(m)[1], "unknown", 5>> >>),
         dict(<< <<Faces(m)[1], "p", 3333>>, <<f, "kx", 5>>, <<n + 2, "p", 5>> >>),
         Mo(i, "set_all_boundaries", [cond |-> "flow", v |-> 1]),
         comp("numeric", "FDM", TRUE), comp("numerical", "D1P1", TRUE), comp("analytical", "FDM", TRUE),
         comp("numerical", "FVM", FALSE), comp("num", "FEM", TRUE), comp("numerical", "FDM", 1),
         comp("numerical", "FDM", "True"), comp("nn", "PINN", TRUE), comp("a", "D2P1", TRUE), comp("a", "1d3p", FALSE),
         comp("", "FDM", TRUE), comp("numerical", "", TRUE),
         SetSol(i, "FDM"), SetSol(i, "BlackOil-numerical-FDM"), SetSol(i, ""),
         df(<<"time", "cell">>), df(<<"pressur">>), df(<<"time", "unknown", "cells">>),
         q("get_cells_d", [dir |-> "w"]), q("get_cells_k", [dir |-> "xy"]), q("get_cells_id", [boundary |-> TRUE, fshape |-> FALSE, fmt |-> "dataframe"]),
         q("get_cell_G", [id |-> n + 5]), q("get_cell_dx", [id |-> n]), q("get_prop", [name |-> "permeability"]),
         q("get_boundaries", [by |-> "index"]),
         [op |-> "new", on |-> "grid", i |-> 7, def |-> [nx |-> 3, ny |-> 1, nz |-> 1, dx |-> <<1, 2>>, dy |-> 1, dz |-> 1, kx |-> 1]],
         [op |-> "new", on |-> "grid", i |-> 7, def |-> [nx |-> 3, ny |-> 1, nz |-> 1, dx |-> 1, dy |-> 1, dz |-> 1, unit |-> "si"]],
         [op |-> "new", on |-> "fluid", i |-> 7, def |-> [mu |-> 1, B |-> 1, comp |-> N("-1e-6")]],
         [op |-> "new", on |-> "fluid", i |-> 7, def |-> [mu |-> 1, B |-> 1, unit |-> "imperial"]],
         [op |-> "new", on |-> "model", i |-> 7, g |-> 1, f |-> 1, def |-> [pi |-> 4000, unit |-> "oilfield"]],
         [op |-> "new", on |-> "model", i |-> 7, g |-> 1, f |-> 1, def |-> [pi |-> 4000, well |-> ("$well" :> [cell_id |-> b, q |-> -5, r |-> 1])]],
         [op |-> "new", on |-> "model", i |-> 7, g |-> 1, f |-> 1, def |-> [pi |-> 4000, well |-> ("$well" :> [cell_id |-> c, q |-> -5])]],
         scal(<< <<"temperature", <<"minmax", <<0, 1>>>>>> >>), scal(<< <<"time", <<"standard", <<0, 1>>>>>> >>),
         scal(<< <<"time", <<"minmax", <<0, 5>>>>>>, <<"porosity", <<"minmax", <<0, 1>>>>>> >>),
         scal(<< <<"pressure", <<"None", "None">>>>, <<"rate", <<"zscore", <<0, 1>>>>>> >>)
      >> \o wells \o BadCells(key, m, i) \o BadObjects(key, m, i)
         \o (IF m.cur = "" THEN <<df(<<"time">>), Mo(i, "get_shape", [boundary |-> TRUE])>>
             ELSE <<Mo(i, "solve", [isolver |-> "superlu"]), Mo(i, "run", [nsteps |-> 2, isolver |-> "jacobi"])>>)

\* changes of the grid and the fluid of models in use
PropUpdate(key, w) ==
  LET g == w.grid[1].d
      acc == ~NEq(w.model[1].st.comp, 0)
      one == Pick(<<key, "one">>, AllIds(g))
      some == Sample(<<key, "some">>, AllIds(g), Between(<<key, "n">>, 2, 4))
      at == CASE Rnd(<<key, "at">>, 5) = 0 -> [id |-> one] [] Rnd(<<key, "at">>, 5) = 1 -> [coords |-> CoordsOf(g, one)]
              [] Rnd(<<key, "at">>, 5) = 2 -> [id |-> some]  [] OTHER -> None0
      p == Pick(<<key, "p">>, IF acc THEN <<"kx", "ky", "kz", "z", "phi", "phi">> ELSE <<"kx", "ky", "kz", "z">>)
      val(n, k) == IF n = "phi" THEN N(Decimal(<<key, n, k>>, "0.05", "0.01", 30)) ELSE IF n = "z" THEN N(Decimal(<<key, n, k>>, -50, "2.5", 100)) ELSE N(Pick(<<key, n, k>>, PermValues))
      value(n) == IF DOMAIN at = {} /\ Chance(<<key, "list", n>>, 50) THEN [k \in 1..NAll(g) |-> val(n, k)] ELSE val(n, 0)
      gm(m, a) == [op |-> "call", on |-> "grid", i |-> 1, m |-> m, a |-> a]
      fm(m, a) == [op |-> "call", on |-> "fluid", i |-> 1, m |-> m, a |-> a]
      r == Rnd(<<key, "pr">>, 20)
      wells == UNION {DOMAIN w.model[i].wells : i \in DOMAIN w.model}
      dead  == ~NEq(w.model[1].st.comp, 0) /\ one \notin wells \cup {Inners(w.model[1])[1]} /\ Chance(<<key, "dead">>, 12)
      more == acc /\ Chance(<<key, "ac">>, 30)
      rest == CASE Chance(<<key, "ac1">>, 50) -> fm("set_B", [B |-> N(Pick(<<key, "B">>, FVFs))])
                [] Chance(<<key, "ac2">>, 50) -> fm("set_props", [mu |-> N(Pick(<<key, "mu">>, Mus)), B |-> N(Pick(<<key, "B">>, FVFs))])
                [] OTHER -> Mo(1, "set_units", [unit |-> Pick(<<key, "mu1">>, Units3)])
  IN  CASE dead  -> gm("set_props", [kx |-> N(0), ky |-> N(0), kz |-> N(0), id |-> one])
        [] more -> rest
        [] r < 10 -> gm("set_prop", [name |-> p, value |-> value(p)] @@ at)
        [] r < 14 -> gm("set_props", (p :> value(p)) @@ ("kx" :> value("kx")) @@ at)
        [] r < 16 -> fm("set_mu", [mu |-> N(Pick(<<key, "mu">>, Mus))])
        [] r < 18 -> fm("set_rho", [rho |-> Pick(<<key, "rho">>, <<0, 50, N("45.5"), 62>>)])
        [] r = 18 -> gm("set_units", [unit |-> Pick(<<key, "gu">>, Units3)])
        [] OTHER  -> fm("set_units", [unit |-> Pick(<<key, "fu">>, Units3)])
RunOp(i, n) == Mo(i, "run", [nsteps |-> n, isolver |-> "None"])
SolveOp(i)  == Mo(i, "solve", [isolver |-> "None"])
\* n steps in random portions
RECURSIVE Split(_, _, _)
Split(key, i, n) ==
  IF n = 0 THEN <<>>
  ELSE LET k == 1 + Rnd(<<key, "part", n>>, n)
       IN  (IF Chance(<<key, "none", n>>, 8) THEN <<RunOp(i, 0)>> ELSE <<>>)
           \o <<IF k = 1 /\ Chance(<<key, "one", n>>, 60) THEN SolveOp(i) ELSE RunOp(i, k)>> \o Split(key, i, n - k)

\* queries that must not change anything
Harmless(key, m, i) ==
  LET c == Pick(<<key, "hc">>, Inners(m)) IN
  Pick(<<key, "h">>,
    << Mo(i, "get_cell_trans", [cell_id |-> c, boundary |-> TRUE]), Mo(i, "get_cells_trans", [boundary |-> FALSE]) @@ ("mat" :> TRUE),
       Mo(i, "get_solutions", None0), Mo(i, "get_df", [columns |-> <<"time", "cells", "wells">>]) @@ ("drop" :> TRUE),
       Mo(i, "get_df", [columns |-> <<"time", "q", "p">>, units |-> TRUE]) @@ ("drop" :> TRUE),
       [op |-> "call", on |-> "grid", i |-> 1, m |-> "get_cells_G", a |-> [boundary |-> TRUE, sparse |-> TRUE]] @@ ("mat" :> TRUE),
       [op |-> "call", on |-> "grid", i |-> 1, m |-> "get_cells_V", a |-> None0],
       [op |-> "call", on |-> "grid", i |-> 1, m |-> "get_boundaries", a |-> None0],
       [op |-> "get", on |-> "grid", i |-> 1, m |-> Pick(<<key, "hg">>, <<"kx", "phi", "z", "comp", "unit">>), a |-> None0],
       [op |-> "get", on |-> "fluid", i |-> 1, m |-> Pick(<<key, "hf">>, <<"mu", "B", "rho", "comp", "g", "unit">>), a |-> None0],
       Mo(i, "get_shape", [boundary |-> FALSE]),
       Mo(i, "solve", [update |-> FALSE, isolver |-> Solver(key, 30), vectorize |-> Chance(<<key, "hv">>, 60), print_arrays |-> Chance(<<key, "ha">>, 30)]),
       Mo(i, "solve", [update |-> FALSE, threading |-> Chance(<<key, "ht">>, 50), vectorize |-> Chance(<<key, "hv">>, 60)]),
       [op |-> "call", on |-> "sol", i |-> i, m |-> "get_matrices_vect", a |-> None0, sys |-> TRUE],
       [op |-> "call", on |-> "sol", i |-> i, m |-> "get_matrices_symb", a |-> [threading |-> Chance(<<key, "hth">>, 30)], sys |-> TRUE],
       [op |-> "call", on |-> "sol", i |-> i, m |-> "get_cells_eq", a |-> [threading |-> Chance(<<key, "hth">>, 30)], sys |-> TRUE],
       [op |-> "call", on |-> "sol", i |-> i, m |-> "get_cell_eq", a |-> [cell_id |-> c], sys |-> TRUE],
       [op |-> "call", on |-> Pick(<<key, "hr">>, <<"grid", "fluid", "model">>), i |-> 1, m |-> "report", a |-> None0, drop |-> TRUE] >>)
\* tables and other outputs
ColNames == <<"time", "t", "Time", "date", "d", "DATE", "q", "rates", "Rates", "p", "pressures", "P", "cells", "CELLS",
              "wells", "cells_rate", "cells_pressure", "Cells_Pressure", "wells_rate", "wells_pressure", "T", "D">>
RECURSIVE Disjoint(_, _)
\* no column twice
Disjoint(cs, used) ==
  IF cs = <<>> THEN <<>>
  ELSE LET ks == Range(ColumnsOf(Head(cs)))
       IN  IF ks \cap used # {} THEN Disjoint(Tail(cs), used) ELSE <<Head(cs)>> \o Disjoint(Tail(cs), used \cup ks)
OptBool(key, name, pct, dflt, a) == IF Chance(<<key, name>>, pct) THEN a @@ (name :> ~dflt) ELSE
                                    IF Chance(<<key, name, 2>>, 20) THEN a @@ (name :> dflt) ELSE a
DfOp(key, m, i) ==
  LET cs0 == Disjoint(Sample(<<key, "cols">>, ColNames, 1 + Rnd(<<key, "nc">>, 6)), {})
      \* tables without any column are left out
      cs == IF DOMAIN m.wells = {} /\ \A n \in 1..Len(cs0) : ColumnsOf(cs0[n]) \in {<<"wells_pressure">>, <<"wells_rate">>, <<"wells_rate", "wells_pressure">>}
            THEN <<"time">> \o cs0 ELSE cs0
      n  == IF m.cur = "" THEN 1 ELSE Len(m.sols[m.cur].hist) + 1
      a0 == IF Chance(<<key, "dflt">>, 10) THEN None0 ELSE [columns |-> cs]
      a1 == OptBool(key, "units", 40, FALSE, a0)
      a2 == OptBool(key, "melt", 40, FALSE, a1)
      a3 == OptBool(key, "boundary", 45, TRUE, a2)
      a4 == IF n > 1 THEN OptBool(key, "scale", 35, FALSE, a3) ELSE a3
      a5 == OptBool(key, "drop_nan", 35, TRUE, a4)
      a6 == OptBool(key, "drop_zero", 35, TRUE, a5)
      saved == m.cur # "" /\ Chance(<<key, "save">>, 12)
  IN  IF saved THEN Mo(i, "get_df", a6 @@ ("save" :> TRUE)) @@ ("csv" :> TRUE) ELSE Mo(i, "get_df", a6)
Ranges == << <<0, 1>>, <<-1, 1>>, <<N("-0.5"), 2>>, <<5, 10>>, <<1, 0>> >>
ScalerNames == <<"minmax", "MinMax", "MinMaxScaler", "MINMAX", "minmaxscaler">>
QuantityNames == <<"t", "time", "Time", "space", "spatial", "XYZ", "p", "pressures", "Pressure", "q", "rates", "RATE", "x", "Y", "z">>
ScalerSetting(key) ==
  LET q == Pick(<<key, "q">>, QuantityNames)
      none == Chance(<<key, "none">>, 25)
  IN  <<q, IF none THEN Pick(<<key, "how">>, << <<"None", "None">>, <<"minmax", "None">>, <<"None", <<0, 1>>>> >>)
           ELSE <<Pick(<<key, "name">>, ScalerNames), Pick(<<key, "range">>, Ranges)>>>>
ScalersOp(key, i) ==
  LET n == 1 + Rnd(<<key, "n">>, 3)
      ss == [j \in 1..n |-> ScalerSetting(<<key, j>>)]
      dup == \E a, b \in 1..n : a # b /\ QuantityOf(ss[a][1]) = QuantityOf(ss[b][1])
  IN  Mo(i, "set_scalers", [scalers_dict |-> ("$dict" :> IF dup THEN <<ss[1]>> ELSE ss)])
OutOp(key, m, i) ==
  LET r == Rnd(<<key, "out">>, 10)
      n == IF m.cur = "" THEN 1 ELSE Len(m.sols[m.cur].hist) + 1
      sc == n > 1 /\ Chance(<<key, "osc">>, 50)
      bd == Chance(<<key, "obd">>, 50)
  IN  IF r < 7 THEN DfOp(key, m, i)
      ELSE CASE r = 7 -> Mo(i, "get_time", [scale |-> sc])
             [] r = 8 -> Mo(i, "get_centers", [scale |-> sc, boundary |-> bd])
             [] OTHER -> Mo(i, "get_domain", [scale |-> sc, boundary |-> bd])
OutOps(key, m, i, n) == [j \in 1..n |-> OutOp(<<key, j>>, m, i)]
HarmlessOk(m, op) == m.cur # "" \/ op.m \notin {"get_df", "get_shape"}

Prologue(key, w) ==
  CASE Profile \in {"flow", "sols"} ->
         LET cs == CondChain(key, w, 1, 1 + Rnd(<<key, "nc">>, 5)) IN
         IF Chance(<<key, "early">>, 50) THEN <<Compile(1, Chance(<<key, "sp">>, 50))>> \o cs
         ELSE cs \o <<Compile(1, Chance(<<key, "sp">>, 50))>>
    [] Profile = "df" ->
         CondChain(key, w, 1, 1 + Rnd(<<key, "nc">>, 4))
         \o (IF Chance(<<key, "scal">>, 40) THEN <<ScalersOp(key, 1)>> ELSE <<>>)
         \o <<Compile(1, Chance(<<key, "sp">>, 50))>>
         \o (IF Chance(<<key, "zero">>, 40) THEN OutOps(key, [w.model[1] EXCEPT !.cur = ""], 1, 1) ELSE <<>>)
    [] Profile = "modes" ->
         LET cs == CondChain(key, w, 1, 2 + Rnd(<<key, "nc">>, 4)) IN
         Each2(cs, LAMBDA op : ToAll(w, op)) \o <<Compile(1, TRUE), Compile(2, FALSE), Compile(3, TRUE)>>
    [] Profile = "wells" ->
         LET b  == BcChain(key, w, 1, 1 + Rnd(<<key, "nb">>, 2))
             w1 == GenAll(w, b)
             ws == WellChain(key, w1, 1, 1 + Rnd(<<key, "nw">>, 3))
             w2 == GenAll(w1, ws)
         IN  b \o ws \o SyncBc(key, w2.model[1], w2.model[2], 2) \o SyncWells(key, w2.model[1], 2)
             \o <<Compile(1, Chance(<<key, "sp">>, 50)), Compile(2, Chance(<<key, "sp2">>, 50))>>
    [] Profile = "bound" ->
         LET b  == BcChain(key, w, 1, 2 + Rnd(<<key, "nb">>, 3))
             w1 == GenAll(w, b)
             ws == IF CanWell(w.model[1]) /\ Chance(<<key, "w">>, 40) THEN WellChain(key, w1, 1, 1) ELSE <<>>
             w2 == GenAll(w1, ws)
             s2 == SyncBc(key, w2.model[1], w2.model[2], 2) \o SyncWells(key, w2.model[1], 2)
         IN  IF Chance(<<key, "c2first">>, 50)
             THEN b \o ws \o <<Compile(1, TRUE), Compile(2, FALSE)>> \o s2
             ELSE b \o ws \o s2 \o <<Compile(1, FALSE), Compile(2, TRUE)>>
    [] Profile = "multi" ->
         Each2(AllModels(w), LAMBDA i :
            IF NEq(w.model[i].st.comp, 0) \/ Chance(<<key, "mc", i>>, 70)
            THEN CondChain(<<key, i>>, w, i, 1 + Rnd(<<key, "n", i>>, 3)) ELSE <<>>)
         \o Each2(AllModels(w), LAMBDA i : IF Chance(<<key, "comp", i>>, 70)
                                            THEN <<Compile(i, Chance(<<key, "sp", i>>, 50))>> ELSE <<>>)
    [] Profile = "step" ->
         LET cs == CondChain(key, w, 1, 2 + Rnd(<<key, "nc">>, 4))
             sp == Chance(<<key, "sp">>, 50)
         IN  Each2(cs, LAMBDA op : <<op, For(op, 2)>>) \o <<Compile(1, sp), Compile(2, sp)>>
    [] Profile = "props" ->
         LET cs == CondChain(key, w, 1, 2 + Rnd(<<key, "nc">>, 4)) IN
         Each2(cs, LAMBDA op : <<op, For(op, 2)>>)
         \o <<Compile(1, Chance(<<key, "sp">>, 50)), Compile(2, Chance(<<key, "sp2">>, 50))>>
    [] Profile = "bad" ->
         LET cs == CondChain(key, w, 1, 2 + Rnd(<<key, "nc">>, 2)) IN
         Each2(cs, LAMBDA op : <<For(op, 2), op>>)
         \o (IF 3 \in DOMAIN w.model
             THEN <<Mo(3, "set_all_boundaries", [cond |-> "p", v |-> 3000]), Compile(3, Chance(<<key, "sp3">>, 50))>> ELSE <<>>)
    [] Profile = "change" ->
         LET cs == CondChain(key, w, 1, 1 + Rnd(<<key, "nc">>, 4))
             w1 == GenAll(w, cs)
         IN  cs \o <<Compile(1, Chance(<<key, "sp">>, 50))>>
             \o (IF Chance(<<key, "late">>, 50) THEN <<Compile(2, Chance(<<key, "sp2">>, 50))>> ELSE <<>>)
             \o SyncWells(key, w1.model[1], 2) \o SyncBc(key, w1.model[1], w1.model[2], 2)
             \o <<Compile(2, Chance(<<key, "sp2">>, 50))>>
    [] OTHER -> <<>>

Macro(key, w) ==
  LET r == Rnd(<<key, "r">>, 100)
      m1 == w.model[1]
  IN
  CASE Profile = "flow" ->
         IF Chance(<<key, "long">>, 2) THEN <<RunOp(1, Between(<<key, "ln">>, 20, 60))>>
         ELSE IF r < 60 THEN <<StepOp(key, 1, 25, 3)>>
         ELSE CondChain(key, w, 1, 1 + Rnd(<<key, "n">>, 2)) \o <<StepOp(key, 1, 25, 2)>>
    [] Profile = "df" ->
         LET cs == (IF r < 30 THEN CondChain(key, w, 1, 1) ELSE <<>>) \o (IF r \in 20..60 THEN <<ScalersOp(key, 1)>> ELSE <<>>)
             st == IF Chance(<<key, "long">>, 2) THEN <<RunOp(1, Between(<<key, "ln">>, 15, 40))>>
                   ELSE IF r % 10 < 5 \/ Len(m1.sols[m1.cur].hist) = 0 THEN <<RunOp(1, 1 + Rnd(<<key, "n">>, 3))>> ELSE <<>>
             cp == IF r > 95 THEN <<CompileOp(key, 1, "FDM", Chance(<<key, "sp">>, 50)), RunOp(1, 2)>> ELSE <<>>
             w1 == GenAll(w, cs \o st \o cp)
         IN  cs \o st \o cp \o OutOps(key, w1.model[1], 1, 2 + Rnd(<<key, "no">>, 2))
    [] Profile = "modes" ->
         IF r < 65 THEN
           IF Chance(<<key, "long">>, 40)
           THEN LET n == IF Chance(<<key, "vlong">>, 4) THEN Between(<<key, "vn">>, 10, 25) ELSE 2 + Rnd(<<key, "ln">>, 2) IN
                Each2(AllModels(w), LAMBDA i : <<Mo(i, "run", StepOpts(<<key, i>>, 40) @@ ("nsteps" :> n))>>)
           ELSE Each2(AllModels(w), LAMBDA i : <<Mo(i, "solve", StepOpts(<<key, i>>, 40))>>)
         ELSE LET op == GenCond(key, m1, 1) IN ToAll(w, op)
              \o Each2(AllModels(w), LAMBDA i : <<Mo(i, "solve", StepOpts(<<key, i>>, 40))>>)
    [] Profile = "wells" /\ r >= 82 ->
         LET es == WellObjects(key, w, m1)
             w1 == GenAll(w, es)
             n  == 1 + Rnd(<<key, "n">>, 2)
         IN  es \o SyncWells(key, w1.model[1], 2)
             \o <<Mo(1, "run", StepOpts(key, 20) @@ ("nsteps" :> n))>> \o Split(key, 2, n)
    [] Profile = "wells" ->
         LET ws == IF r < 55 THEN WellChain(key, w, 1, 1 + Rnd(<<key, "nw">>, 2))
                   ELSE IF r < 70 THEN BcChain(key, w, 1, 1) ELSE <<>>
             w1 == GenAll(w, ws)
             n  == 1 + Rnd(<<key, "n">>, 3)
         IN  ws \o SyncWells(key, w1.model[1], 2)
             \o (IF r \in 55..69 THEN SyncBc(key, w1.model[1], w1.model[2], 2) ELSE <<>>)
             \o <<Mo(1, "run", StepOpts(key, 20) @@ ("nsteps" :> n))>> \o Split(key, 2, n)
    [] Profile = "bound" ->
         LET b  == IF r < 60 THEN BcChain(key, w, 1, 1 + Rnd(<<key, "nb">>, 2)) ELSE <<>>
             w1 == GenAll(w, b)
             n  == 1 + Rnd(<<key, "n">>, 2)
         IN  b \o (IF b = <<>> THEN <<>> ELSE SyncBc(key, w1.model[1], w.model[2], 2))
             \o <<Mo(1, "run", StepOpts(<<key, 1>>, 10) @@ ("nsteps" :> n)), Mo(2, "run", StepOpts(<<key, 2>>, 10) @@ ("nsteps" :> n))>>
    [] Profile = "multi" ->
         LET i == Pick(<<key, "i">>, AllModels(w))
             m == w.model[i]
         IN  IF r < 12 THEN <<CompileOp(key, i, "FDM", Chance(<<key, "sp">>, 50))>>
             ELSE IF r < 20 THEN <<Harmless(key, m, i)>>
             ELSE IF r < 25 THEN
               LET g == [op |-> "call", on |-> "grid", i |-> 9, m |-> "set_prop", a |-> [name |-> "kx", value |-> 77]]
                   f == [op |-> "call", on |-> "fluid", i |-> 9, m |-> "set_mu", a |-> [mu |-> 3]]
                   u == [op |-> "call", on |-> "grid", i |-> 9, m |-> "set_units", a |-> [unit |-> "lab"]]
               IN  <<Pick(<<key, "by">>, <<g, f, u>>)>>
             ELSE IF r < 55 THEN LET op == GenCond(key, m, i)
                                 IN  IF Chance(<<key, "all">>, 30) THEN ToAll(w, op) ELSE <<op>>
             ELSE IF m.cur = "" /\ NEq(m.st.comp, 0) /\ ~HasPressure(m) THEN <<GenCond(key, m, i)>>
             ELSE IF m.cur = "" THEN <<Compile(i, Chance(<<key, "sp">>, 50)), StepOp(key, i, 15, 3)>>
             ELSE <<StepOp(key, i, 15, 3)>>
    [] Profile = "sols" ->
         LET kinds == IF Fdir(m1.go.d) = "x" THEN << <<"FDM", TRUE>>, <<"FDM", FALSE>>, <<"D1P1", TRUE>>, <<"D1P1", FALSE>> >>
                      ELSE << <<"FDM", TRUE>>, <<"FDM", FALSE>> >>
             kd == Pick(<<key, "kd">>, kinds)
             fdm == m1.cur # "" /\ m1.sols[m1.cur].cls = "FDM"
         IN  IF r < 22 THEN <<CompileOp(key, 1, kd[1], kd[2])>>
             ELSE IF r < 42 THEN <<SetSol(1, Pick(<<key, "nm">>, m1.names))>>
             ELSE IF r < 47 THEN <<SetSol(1, Pick(<<key, "bad">>, <<"FDM", "BlackOil-numerical-FDM-None", "blackoil-numerical-fdm-true">>))>>
             ELSE IF r < 58 THEN <<CondChain(key, w, 1, 1)[1]>>
             ELSE IF r < 66 THEN <<Mo(1, "get_shape", [boundary |-> Chance(<<key, "b">>, 50)]), Mo(1, "get_solutions", None0)>>
             ELSE IF fdm THEN <<StepOp(key, 1, 10, 3)>>
             ELSE <<SetSol(1, NameOf("FDM", TRUE)), Mo(1, "get_shape", None0)>>
    [] Profile = "step" ->
         LET cs == IF r < 45 THEN CondChain(key, w, 1, 1 + Rnd(<<key, "nc">>, 2)) ELSE <<>>
             n  == IF Chance(<<key, "long">>, 2) THEN Between(<<key, "ln">>, 15, 40) ELSE 1 + Rnd(<<key, "n">>, 5)
         IN  Each2(cs, LAMBDA op : <<op, For(op, 2)>>)
             \o <<RunOp(1, n)>> \o Split(key, 2, n)
    [] Profile = "props" ->
         LET us == [j \in 1..(1 + Rnd(<<key, "nu">>, 2)) |-> PropUpdate(<<key, j>>, w)]
             cs == IF r < 35 THEN CondChain(key, GenAll(w, us), 1, 1) ELSE <<>>
             hs == IF Chance(<<key, "h">>, 50) THEN <<Harmless(<<key, "h">>, m1, 1 + Rnd(<<key, "hm">>, 2))>> ELSE <<>>
             n  == 1 + Rnd(<<key, "n">>, 2)
             fresh == IF r > 92 THEN <<Compile(1, Chance(<<key, "sp">>, 50)), Compile(2, Chance(<<key, "sp2">>, 50))>> ELSE <<>>
         IN  hs \o (IF Chance(<<key, "upd">>, 70) THEN us ELSE <<>>) \o Each2(cs, LAMBDA op : <<op, For(op, 2)>>) \o fresh
             \o <<Mo(1, "run", StepOpts(<<key, 1>>, 20) @@ ("nsteps" :> n))>>
             \o Each2([k \in 1..n |-> k], LAMBDA k : <<Mo(2, "solve", StepOpts(<<key, 2, k>>, 20))>>)
    [] Profile = "bad" ->
         LET bs == Sample(<<key, "bs">>, BadOps(key, m1, 1), 8)
                   \o (IF 3 \in DOMAIN w.model /\ Chance(<<key, "m3">>, 30)
                       THEN (IF Chance(<<key, "m3a">>, 40)
                             THEN <<CompileOp(<<key, "m3">>, 3, "D1P1", Chance(<<key, "sp3">>, 50)), RunOp(3, 1 + Rnd(<<key, "n3">>, 4)),
                                    SetSol(3, w.model[3].cur)>>
                             ELSE <<StepOp(<<key, "m3">>, 3, 30, 2)>>) ELSE <<>>)
             cs == IF r < 50 THEN <<GenCond(key, m1, 1)>> ELSE <<>>
             cm == IF m1.cur = "" THEN <<Compile(1, Chance(<<key, "sp">>, 50))>> ELSE <<>>
             st == IF Len(cs) = 0 \/ m1.cur # "" THEN <<RunOp(1, 1 + Rnd(<<key, "n">>, 2))>> ELSE <<>>
             tail == cs \o cm \o st
         IN  bs \o Each2(tail, LAMBDA op : <<op, For(op, 2)>>) \o <<Harmless(key, GenAll(w, tail).model[1], 1)>>
    [] Profile = "change" ->
         LET cs == IF r < 70 THEN CondChain(key, w, 1, 1 + Rnd(<<key, "nc">>, 3)) ELSE <<>>
             w1 == GenAll(w, cs)
             n  == 1 + Rnd(<<key, "n">>, 3)
             sy == SyncBc(key, w1.model[1], w.model[2], 2) \o SyncWells(key, w1.model[1], 2)
             o1 == StepOpts(<<key, 1>>, 10)  o2 == StepOpts(<<key, 2>>, 10)
             alt == Chance(<<key, "alt">>, 25)
         IN  cs \o (IF cs = <<>> THEN <<>> ELSE sy)
             \o <<Mo(1, "run", o1 @@ ("nsteps" :> n))>> \o Each2([k \in 1..n |-> k], LAMBDA k : <<Mo(2, "solve", o2)>>)
             \o (IF alt THEN <<Compile(1, Chance(<<key, "sp">>, 50)), Mo(1, "run", [nsteps |-> 2])>>
                             \o <<SetSol(1, Pick(<<key, "nm">>, w.model[1].names))>>
                             \o <<Mo(1, "run", [nsteps |-> 1])>>
                 ELSE <<>>)
    [] OTHER -> <<>>

\* calls for which the answer is not specified or that are not possible are dropped
Possible(w, e) ==
  IF e.op = "new" THEN TRUE
  ELSE IF IsModelCall(e) THEN
         LET m == w.model[e.i] IN
         CASE e.m \in {"get_df", "get_shape"} -> m.cur # "" \/ Profile = "bad"
           [] e.m \in {"solve", "run"} ->
                /\ m.cur # ""
                /\ IF m.sols[m.cur].cls = "FDM" THEN Sane(m) ELSE ~SolveLegal(m, e)
           [] OTHER -> TRUE
       ELSE TRUE
RECURSIVE Filter(_, _)
Filter(w, es) ==
  IF es = <<>> THEN [w |-> w, ops |-> <<>>]
  ELSE LET e == Head(es) IN
       IF Possible(w, e) THEN LET r == TLCEval(Filter(TLCEval(GenAfter(w, e)), Tail(es))) IN [w |-> r.w, ops |-> <<e>> \o r.ops]
       ELSE Filter(w, Tail(es))

\* the equations of the next step, between the steps
SysOps(key, ww) ==
  LET on == {i \in DOMAIN ww.model : ww.model[i].cur # "" /\ ww.model[i].sols[ww.model[i].cur].cls = "FDM"}
      op(i) == LET s(m, a) == [op |-> "call", on |-> "sol", i |-> i, m |-> m, a |-> a, sys |-> TRUE]
                   th == [threading |-> Chance(<<key, i, "th">>, 30)]
               IN  Pick(<<key, i, "sys">>, << s("get_matrices_vect", None0), s("get_matrices_vect", th), s("get_matrices_symb", th),
                        s("get_cells_eq", th), s("get_cell_eq", [cell_id |-> Pick(<<key, i, "sc">>, Inners(ww.model[i]))]) >>)
  IN  IF Profile \in {"flow", "modes", "change", "props", "bound", "wells"} /\ Chance(<<key, "syso">>, 20)
      THEN MapSeq(SeqOfSet(on), op) ELSE <<>>

VARIABLES c, k, w, ops
Init == /\ c \in 1..NCases
        /\ k = 0
        /\ LET r == Filter(NewWorld([rows |-> <<>>, obs |-> <<>>]), Setup(c)) IN w = r.w /\ ops = r.ops
Step == /\ k <= Depth
        /\ LET key == <<Seed, Profile, c, k>>
               es  == TLCEval(IF k = 0 THEN Prologue(key, w) ELSE SysOps(key, w) \o Macro(key, w))
               r   == TLCEval(Filter(w, es))
           IN  w' = r.w /\ ops' = ops \o r.ops
        /\ k' = k + 1 /\ c' = c
Write == /\ k = Depth + 1
         /\ Dump(OutFile, [id |-> Cat(<<Profile, "-", c>>), obs |-> TRUE, ops |-> ops])
         /\ k' = k + 1
         /\ UNCHANGED <<c, w, ops>>
Next == Step \/ Write
View == <<c, k>>
=============================================================================
