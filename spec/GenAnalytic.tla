---------------------------- MODULE GenAnalytic -----------------------------
(***************************************************************************)
(* Behaviours of one-dimensional models along any axis with the analytical  *)
(* solution: requests before and after conditions are set, runs of several  *)
(* lengths, evaluations with all options, scaling settings, other solutions *)
(* of the same model in between, and numerical runs on fine grids.          *)
(***************************************************************************)
EXTENDS GenLib, World

NCases  == EnvInt("GEN_CASES", 60)
Depth   == EnvInt("GEN_DEPTH", 8)
OutFile == Env("GEN_OUT")
Mo(i, m, a) == [op |-> "call", on |-> "model", i |-> i, m |-> m, a |-> a]
Sol(m, a) == [op |-> "call", on |-> "sol", i |-> 1, m |-> m, a |-> a]
IsFine(c) == c % 8 = 0
AnaName(sp) == SolName("analytical", "D1P1", sp)

GridOf(key, fine) ==
  LET n  == IF fine THEN 20 ELSE Between(<<key, "n">>, 2, 7)
      ax == Rnd(<<key, "ax">>, 3)
      s  == CASE ax = 0 -> <<n, 1, 1>> [] ax = 1 -> <<1, n, 1>> [] ax = 2 -> <<1, 1, n>>
      st == IF fine THEN 1 ELSE Between(<<key, "st">>, 1, 3)
      g0 == GenShape(key, s, <<st, st, st>>, Chance(<<key, "uni">>, 60))
      k(nm) == GenPerm(<<key, nm>>, g0, 1)
      \* the same value everywhere, given once or per cell
      every(nm, v) == IF Chance(<<key, nm, "list">>, 30) THEN [m \in 1..NAll(g0) |-> v] ELSE v
  IN  [g0 EXCEPT !.unit = Pick(<<key, "unit">>, Units3)]
        @@ ("kx" :> every("kx", k("kx"))) @@ ("ky" :> every("ky", k("ky"))) @@ ("kz" :> every("kz", k("kz")))
        @@ ("phi" :> every("phi", N(Pick(<<key, "phi">>, <<"0.27", "0.1", "0.33">>))))
        @@ ("z" :> (IF fine THEN N(0) ELSE GenZ(key, g0, Rnd(<<key, "zs">>, 2))))
        @@ ("comp" :> Pick(<<key, "rc">>, <<0, N("1e-6"), N("4e-6")>>))
FluidOf(key, unit, fine) ==
  [mu |-> N(Pick(<<key, "mu">>, Mus)), B |-> N(Pick(<<key, "B">>, FVFs)),
   rho |-> IF fine THEN 0 ELSE Pick(<<key, "rho">>, <<0, 50>>), comp |-> N(Pick(<<key, "fc">>, <<"1e-5", "2e-6">>)), unit |-> unit]
\* steps that cover early times to the steady state
Setup(key, fine) ==
  LET g   == GridOf(key, fine)
      f   == FluidOf(key, g.unit, fine)
      pi  == N(Pick(<<key, "pi">>, <<4000, 3000, "2500.5">>))
      mk(dt) == NewModel(1, 1, 1, [pi |-> pi, dt |-> dt, unit |-> g.unit])
      w0  == Apply(Apply(NewWorld([rows |-> <<>>]), NewGrid(1, g)), NewFluid(1, f))
      m0  == MakeModel(w0, mk(1))
      td  == IF fine THEN N(Pick(<<key, "td">>, <<"0.004", "0.008", "0.01">>))
             ELSE N(Pick(<<key, "td">>, <<"0.001", "0.01", "0.03", "0.1", "0.4", "2">>))
      dt  == NRound(NDiv(NMul(td, NMul(Span(m0), Span(m0))), Diffusivity(m0, 1)), 4)
  IN  <<NewGrid(1, g), NewFluid(1, f), mk(dt)>>

PressNames == <<"pressure", "press", "p", "Pressure", "P">>
EndOp(key, m, n) ==
  LET v == NRound(NMul(m.pi, Pick(<<key, "v">>, <<"0.5", "0.75", "0.9", "1.1", "1.4", "1", "0">>)), 5)
  IN  Mo(1, "set_boundary", [cell_b_id |-> Ends(m)[n], cond |-> Pick(<<key, "spell">>, PressNames), v |-> v])
EndsOps(key, m) ==
  LET a == EndOp(<<key, 1>>, m, 1)  b == EndOp(<<key, 2>>, m, 2)
  IN  CASE Chance(<<key, "all">>, 12) -> <<Mo(1, "set_all_boundaries", [cond |-> "pressure", v |-> NRound(NMul(m.pi, "0.7"), 5)])>>
        [] Chance(<<key, "dict">>, 30) ->
             <<Mo(1, "set_boundaries", [bdict |-> ("$bdict" :> << <<b.a.cell_b_id, b.a.cond, b.a.v>>, <<a.a.cell_b_id, a.a.cond, a.a.v>> >>)])>>
        [] OTHER -> <<a, b>>
CompileA(key, sp) == Mo(1, "compile", [stype |-> Pick(<<key, "st">>, <<"analytical", "a", "Ana">>),
                                       method |-> Pick(<<key, "me">>, <<"D1P1", "1D1P", "1-Dimension-1-Phase">>), sparse |-> sp])
CompileF(sp) == Mo(1, "compile", [stype |-> "numerical", method |-> "FDM", sparse |-> sp])
Ranges == << <<0, 1>>, <<-1, 1>>, <<N("-0.5"), 2>>, <<5, 10>> >>
CalcOp(key, m) ==
  LET a0 == None0
      a1 == IF Chance(<<key, "N">>, 40) THEN a0 @@ ("N" :> Pick(<<key, "Nv">>, <<1, 2, 3, 20, 200, 1000>>)) ELSE a0
      a2 == IF Chance(<<key, "sc">>, 45) THEN a1 @@ ("scale" :> TRUE) ELSE a1
      a3 == IF Chance(<<key, "or">>, 40) THEN a2 @@ ("output_range" :> ("$list" :> Pick(<<key, "orv">>, Ranges))) ELSE a2
  IN  Sol("calc_solution", IF Chance(<<key, "cl">>, 25) THEN a3 @@ ("clean" :> FALSE) ELSE a3)
ScalersOp(key) ==
  LET one(q) == <<q, IF Chance(<<key, q, "none">>, 20) THEN <<"None", "None">> ELSE <<"minmax", Pick(<<key, q>>, Ranges)>>>>
  IN  Mo(1, "set_scalers", [scalers_dict |-> ("$dict" :> <<one("time"), one("space")>>)])
AskOp(key, m) ==
  LET r == Rnd(<<key, "ask">>, 10)  n == IF m.cur = "" THEN 0 ELSE Len(m.sols[m.cur].hist)
      sc == n > 0 /\ Chance(<<key, "s">>, 50)  b == Chance(<<key, "b">>, 60)
  IN  CASE r < 5 -> CalcOp(key, m)
        [] r = 5 -> Mo(1, "get_alpha", None0)
        [] r = 6 -> Mo(1, "get_domain", [scale |-> sc, boundary |-> b])
        [] r = 7 -> Mo(1, "get_shape", [boundary |-> b])
        [] r = 8 -> Mo(1, "get_time", [scale |-> sc])
        [] r = 9 -> Mo(1, "get_centers", [scale |-> sc, boundary |-> b])
\* changes of the properties of the model in use
UpdateOp(key, m) ==
  LET gm(mm, a) == [op |-> "call", on |-> "grid", i |-> 1, m |-> mm, a |-> a]
      fm(mm, a) == [op |-> "call", on |-> "fluid", i |-> 1, m |-> mm, a |-> a]
      mu == N(Pick(<<key, "mu">>, Mus))  B == N(Pick(<<key, "B">>, FVFs))
      kv == N(Pick(<<key, "kv">>, <<100, 150, 270, "92.5">>))
      kn == Cat(<<"k", FlowDirs(m.go.d)[1]>>)
      ph == N(Pick(<<key, "phi">>, <<"0.27", "0.1", "0.33", "0.2">>))
      r  == Rnd(<<key, "u">>, 8)
  IN  CASE r = 0 -> fm("set_mu", [mu |-> mu])
        [] r = 1 -> fm("set_B", [B |-> B])
        [] r = 2 -> fm("set_props", [mu |-> mu, B |-> B])
        [] r = 3 -> gm("set_props", (kn :> kv) @@ ("phi" :> ph))
        [] r = 4 -> gm("set_prop", [name |-> "phi", value |-> ph])
        [] r = 5 -> Mo(1, "set_units", [unit |-> Pick(<<key, "un">>, Units3)])
        [] OTHER -> gm("set_prop", [name |-> kn, value |-> kv])
Asks(key, m, n) == [j \in 1..n |-> AskOp(<<key, j>>, m)]

VARIABLES c, k, w, ops
\* a run marks the history of the selected solution
After1(ww, e) ==
  IF IsSolve(e) THEN
    LET m == ww.model[1] IN
    [ww EXCEPT !.model = Put(@, 1, [m EXCEPT !.sols = Put(@, m.cur, [@[m.cur] EXCEPT !.hist =
        IF @ # <<>> THEN @ ELSE <<EndValues(m)>>])])]
  ELSE IF e.op = "new" \/ IsMutator(e) THEN (IF AllLegal(ww, e) THEN Apply(ww, e) ELSE ww) ELSE ww
RECURSIVE AfterAll(_, _)
AfterAll(ww, es) == IF es = <<>> THEN ww ELSE AfterAll(TLCEval(After1(ww, Head(es))), Tail(es))

Macro(key, m) ==
  LET r == Rnd(<<key, "r">>, 100)
      ana == m.cur # "" /\ m.sols[m.cur].cls = "D1P1"
      run(n) == <<Mo(1, "run", [nsteps |-> n])>>
      nm == Pick(<<key, "nm">>, m.names)
  IN  IF ~ana /\ r < 40 THEN <<Mo(1, "set_solution", [name |-> AnaName(TRUE)])>>
      ELSE IF ~ana THEN <<Mo(1, "solve", [isolver |-> "None"])>>
      ELSE CASE r < 28 -> run(1 + Rnd(<<key, "n">>, 5)) \o Asks(key, m, 2)
             [] r < 35 -> <<UpdateOp(key, m)>> \o (IF Chance(<<key, "al">>, 50) THEN <<Mo(1, "get_alpha", None0)>> ELSE <<>>)
                          \o run(1 + Rnd(<<key, "n">>, 5))
             [] r < 55 -> Asks(key, m, 3)
             [] r < 67 -> <<ScalersOp(key)>> \o Asks(key, m, 2)
             [] r < 77 -> <<CompileA(key, Chance(<<key, "sp">>, 70))>>
             [] r < 84 -> <<CompileF(Chance(<<key, "sp">>, 50))>>
             [] r < 90 -> <<Mo(1, "set_solution", [name |-> nm])>>
             \* new conditions need a new solution
             [] OTHER -> EndsOps(key, m) \o <<CompileA(key, TRUE)>>
Init == /\ c \in 1..NCases
        /\ k = -1
        /\ w = NewWorld([rows |-> <<>>])
        /\ ops = <<>>
Start == /\ k = -1
         /\ \E key \in {<<Seed, "ana", c>>} : \E s0 \in {Setup(key, IsFine(c))} : \E w0 \in {AfterAll(w, s0)} :
              \E es \in {IF IsFine(c) THEN EndsOps(key, w0.model[1]) \o <<CompileF(TRUE), Mo(1, "run", [nsteps |-> 10 + Rnd(<<key, "n">>, 20)])>>
                         ELSE IF Chance(<<key, "first">>, 35) THEN <<CompileA(key, TRUE)>> \o EndsOps(key, w0.model[1])
                         ELSE EndsOps(key, w0.model[1]) \o <<CompileA(key, TRUE)>>} :
                /\ w' = AfterAll(w0, es)
                /\ ops' = s0 \o es
         /\ k' = 0 /\ c' = c
Step == /\ k >= 0 /\ k < Depth
        /\ IF IsFine(c) THEN UNCHANGED <<w, ops>>
           ELSE \E key \in {<<Seed, "ana", c, k>>} : \E es \in {Macro(key, w.model[1])} :
                  w' = AfterAll(w, es) /\ ops' = ops \o es
        /\ k' = k + 1 /\ c' = c
Write == /\ k = Depth
         /\ Dump(OutFile, [id |-> Cat(<<"ana-", c>>), obs |-> TRUE, ops |-> ops])
         /\ k' = k + 1
         /\ UNCHANGED <<c, w, ops>>
Next == Start \/ Step \/ Write
View == <<c, k>>
=============================================================================
