------------------------------ MODULE GenUnits -------------------------------
(***************************************************************************)
(* Behaviours of two grids, fluids and models with unit systems of their    *)
(* own, which are changed (also to unknown ones) between queries of labels, *)
(* constants and everything that is computed with them.                     *)
(***************************************************************************)
EXTENDS GenLib, World

NCases  == EnvInt("GEN_CASES", 60)
Depth   == EnvInt("GEN_DEPTH", 40)
OutFile == Env("GEN_OUT")

ShapesU == << <<3, 1, 1>>, <<2, 2, 1>>, <<2, 2, 2>>, <<4, 1, 1>>, <<3, 2, 1>> >>
GridU(key, s) ==
  LET g0 == GenShape(key, s, <<2, 1, 1>>, TRUE)
      p  == g0 @@ ("kx" :> GenPerm(<<key, "kx">>, g0, Pick(<<key, "ks">>, <<1, 2>>))) @@ ("ky" :> GenPerm(<<key, "ky">>, g0, 1))
            @@ ("kz" :> GenPerm(<<key, "kz">>, g0, 2)) @@ ("phi" :> N("0.2"))
            @@ ("z" :> GenZ(key, g0, Rnd(<<key, "zs">>, ZStyles))) @@ ("comp" :> N("1e-6"))
  IN  p
FluidU(key) == [mu |-> N(Pick(<<key, "mu">>, Mus)), B |-> N(Pick(<<key, "B">>, FVFs)),
                rho |-> N(Pick(<<key, "rho">>, <<50, "12.5", 1000>>)), comp |-> N("1e-5")]
\* without a unit: field
In(def, u) == IF u = "none" THEN [n \in DOMAIN def \ {"unit"} |-> def[n]] ELSE ("unit" :> u) @@ def
UName(key) == Pick(<<key, "u">>, <<"field", "metric", "lab", "metric", "lab", "none">>)
Setup(key) ==
  LET same == Chance(<<key, "same">>, 40)
      s    == Pick(<<key, "shape">>, ShapesU)
      k2   == IF same THEN 1 ELSE 2
      s2   == IF same THEN s ELSE Pick(<<key, "shape2">>, ShapesU)
      def  == [pi |-> 4000, dt |-> Pick(<<key, "dt">>, <<1, 5>>), start_date |-> ("$date" :> <<2020, 2, 27>>)]
      mo(n) == NewModel(n, n, n, In(def, UName(<<key, "m", n>>)))
      fb(n) == [op |-> "call", on |-> "model", i |-> n, m |-> "set_boundaries", a |-> [bdict |-> ("$bdict" :> << <<0, "pressure", 4000>> >>)]]
      run(n) == <<[op |-> "call", on |-> "model", i |-> n, m |-> "get_alpha", a |-> None0],
                  [op |-> "call", on |-> "model", i |-> n, m |-> "compile", a |-> [stype |-> "numerical", method |-> "FDM", sparse |-> Chance(<<key, "sp", n>>, 50)]],
                  [op |-> "call", on |-> "model", i |-> n, m |-> "run", a |-> [nsteps |-> 1]]>>
  IN  <<NewGrid(1, In(GridU(<<key, 1>>, s), UName(<<key, "g", 1>>))), NewGrid(2, In(GridU(<<key, k2>>, s2), UName(<<key, "g", 2>>))),
        NewFluid(1, In(FluidU(<<key, 1>>), UName(<<key, "f", 1>>))), NewFluid(2, In(FluidU(<<key, k2>>), UName(<<key, "f", 2>>))),
        mo(1), mo(2)>> \o run(1) \o run(2)

Kinds == <<"grid", "fluid", "model">>
AllQueries == SetToSeq(UnitQueries)
TableKeys == LET k(u) == SetToSeq({x[1] : x \in TableQueries(u)}) IN k("field") \o k("metric") \o k("lab")
Unknowns == <<"Field", "METRIC", "si", "", "None", 0, "laboratory", "imperial">>
Op(key, w) ==
  LET r   == Rnd(<<key, "r">>, 100)
      i   == Pick(<<key, "i">>, <<1, 2>>)
      kd  == Pick(<<key, "kind">>, Kinds)
      g   == w.grid[i].d
      inn == Pick(<<key, "in">>, InnerIds(g))
      b   == Chance(<<key, "b">>, 50)
      call(on, m, a) == [op |-> "call", on |-> on, i |-> i, m |-> m, a |-> a]
      get(on, m) == [op |-> "get", on |-> on, i |-> i, m |-> m, a |-> None0]
      un  == Pick(<<key, "unknown">>, Unknowns)
  IN  CASE r < 16 -> call(kd, "set_units", [unit |-> Pick(<<key, "nu">>, Units3)])
        [] r = 16 -> call(kd, "set_units", None0)
        [] r < 20 -> call(kd, "set_units", [unit |-> un])
        [] r = 20 -> [op |-> "new", on |-> "grid", i |-> 9, def |-> [nx |-> 2, ny |-> 1, nz |-> 1, dx |-> 1, dy |-> 1, dz |-> 1, kx |-> 1, unit |-> un]]
        [] r = 21 -> [op |-> "new", on |-> "fluid", i |-> 9, def |-> [mu |-> 1, B |-> 1, unit |-> un]]
        [] r = 22 -> [op |-> "new", on |-> "model", i |-> 9, g |-> i, f |-> i, def |-> [pi |-> 4000, unit |-> un]]
        [] r < 27 -> get(kd, "unit")
        [] r < 40 -> get(kd, Pick(<<key, "uq">>, AllQueries))
        [] r < 44 -> get(kd, Pick(<<key, "fq">>, MapSeq(FactorNames, FactorQuery)))
        [] r < 50 -> [op |-> "get", on |-> "tables", i |-> 1, m |-> Pick(<<key, "tq">>, TableKeys), a |-> None0]
        [] r < 56 -> call("fluid", "set_rho", [rho |-> N(Pick(<<key, "rho">>, <<40, "62.5", 850>>))])
        [] r < 64 -> get("fluid", "g")
        [] r < 72 -> call("grid", "get_cell_G", [id |-> inn, boundary |-> b])
        [] r < 75 -> call("grid", "get_cells_G", [boundary |-> b, sparse |-> TRUE]) @@ ("mat" :> TRUE)
        [] r < 80 -> call("model", "get_cell_trans", [cell_id |-> inn, boundary |-> b])
        [] r < 83 -> call("model", "get_cells_trans", [boundary |-> b, sparse |-> FALSE, vectorize |-> Chance(<<key, "vec">>, 50)]) @@ ("mat" :> TRUE)
        [] r < 92 -> call("model", "set_well", [cell_id |-> inn, q |-> N(-10), r |-> N(Pick(<<key, "wr">>, <<"3.5", "0.25">>)), s |-> Pick(<<key, "ws">>, <<0, N("1.5"), N("-0.5")>>)])
        [] OTHER -> call("model", "get_df", [columns |-> Pick(<<key, "cols">>, << <<"time", "cells">>, <<"time", "date", "wells", "q">>, <<"p">> >>),
                                             units |-> TRUE, boundary |-> FALSE])
\* every label and constant of every kind of object
Everything ==
  FlattenSeq(MapSeq(Kinds, LAMBDA kd : MapSeq(AllQueries, LAMBDA q : [op |-> "get", on |-> kd, i |-> 1, m |-> q, a |-> None0])))
  \o MapSeq(TableKeys, LAMBDA t : [op |-> "get", on |-> "tables", i |-> 1, m |-> t, a |-> None0])

VARIABLES c, k, w, ops
Init == /\ c \in 1..NCases
        /\ k = -1
        /\ w = NewWorld([rows |-> <<>>])
        /\ ops = <<>>
After1(ww, e) == IF e.op = "call" /\ e.m \in {"run", "get_df"} THEN ww
                 ELSE IF (e.op = "new" \/ IsMutator(e)) /\ AllLegal(ww, e) THEN TLCEval(Apply(ww, e)) ELSE ww
RECURSIVE AfterAll(_, _)
AfterAll(ww, es) == IF es = <<>> THEN ww ELSE AfterAll(TLCEval(After1(ww, Head(es))), Tail(es))
Start == /\ k = -1
         /\ \E key \in {<<Seed, "units", c>>} : \E es \in {Setup(key)} : \E w1 \in {AfterAll(w, es)} :
              /\ w' = w1
              /\ ops' = es
         /\ k' = 0 /\ UNCHANGED c
Step == /\ k >= 0 /\ k < Depth
        /\ \E e \in {Op(<<Seed, "units", c, k>>, w)} : \E w1 \in {After1(w, e)} :
              w' = w1 /\ ops' = Append(ops, e)
        /\ k' = k + 1 /\ UNCHANGED c
Write == /\ k = Depth
         /\ Dump(OutFile, [id |-> Cat(<<"units-", c>>), obs |-> TRUE, ops |-> IF c % 6 = 0 THEN ops \o Everything ELSE ops])
         /\ k' = k + 1
         /\ UNCHANGED <<c, w, ops>>
Next == Start \/ Step \/ Write
View == <<c, k>>
=============================================================================
