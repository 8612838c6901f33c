------------------------------ MODULE GenProps -------------------------------
(***************************************************************************)
(* Behaviours of two grids, a fluid and a model per grid, whose properties   *)
(* are updated (for all cells, some cells or one cell, by id or coordinates, *)
(* with one value or one per cell) between queries of everything that        *)
(* depends on them.  Each behaviour asks from a small pool of queries, so    *)
(* that the same query is asked before and after the updates.                *)
(***************************************************************************)
EXTENDS GenLib, World

NCases  == EnvInt("GEN_CASES", 100)
Depth   == EnvInt("GEN_DEPTH", 30)
PoolN   == EnvInt("GEN_POOL", 14)
OutFile == Env("GEN_OUT")

B2 == <<TRUE, FALSE>>
PNames == <<"kx", "ky", "kz", "phi", "z">>
\* ------------------------------------------------------------------ objects
ShapesP == << <<3, 1, 1>>, <<1, 4, 1>>, <<1, 1, 3>>, <<3, 2, 1>>, <<2, 1, 3>>, <<1, 3, 2>>, <<2, 2, 2>>,
              <<3, 2, 2>>, <<2, 3, 3>>, <<5, 1, 1>>, <<4, 3, 1>> >>
KStyles == << <<1, 1, 1>>, <<2, 2, 2>>, <<1, 2, 1>>, <<3, 1, 1>>, <<1, 1, 3>>, <<5, 5, 5>>, <<5, 1, 1>> >>
DSt == << <<1, 1, 1>>, <<2, 2, 2>>, <<2, 1, 2>>, <<4, 4, 4>> >>
GridDef(key) ==
  LET s  == Pick(<<key, "shape">>, ShapesP)
      g0 == GenShape(key, s, Pick(<<key, "ds">>, DSt), Chance(<<key, "uni">>, 50))
      st == Pick(<<key, "ks">>, KStyles)
      p  == [g0 EXCEPT !.unit = Pick(<<key, "unit">>, Units3)]
      need(n, ax) == Chance(<<key, "def", n>>, 80) \/ Contains(FlowDirs(g0), ax)
      q1 == IF need("kx", "x") THEN p @@ ("kx" :> GenPerm(<<key, "kx">>, g0, st[1])) ELSE p
      q2 == IF need("ky", "y") THEN q1 @@ ("ky" :> GenPerm(<<key, "ky">>, g0, st[2])) ELSE q1
      q3 == IF need("kz", "z") THEN q2 @@ ("kz" :> GenPerm(<<key, "kz">>, g0, st[3])) ELSE q2
      q4 == IF Chance(<<key, "hasphi">>, 85) THEN q3 @@ ("phi" :> GenPhi(key, g0)) ELSE q3
  IN  IF Chance(<<key, "hasz">>, 60) THEN q4 @@ ("z" :> GenZ(key, g0, Rnd(<<key, "zs">>, ZStyles))) ELSE q4
FluidDef(key) == [mu |-> N(Pick(<<key, "mu">>, Mus)), B |-> N(Pick(<<key, "B">>, FVFs)),
                  rho |-> N(Pick(<<key, "rho">>, <<0, 50, "12.5">>)), comp |-> N(Pick(<<key, "fc">>, <<0, "1e-5">>)),
                  unit |-> Pick(<<key, "funit">>, Units3)]
Setup(key) ==
  LET g1 == GridDef(<<key, 1>>)
      g2 == IF Chance(<<key, "twin">>, EnvInt("GEN_TWIN", 50)) THEN g1 ELSE GridDef(<<key, 2>>)
      \* accumulation needs porosity, which this behaviour is not about
      f  == [FluidDef(key) EXCEPT !.comp = IF Has(g1, "phi") /\ Has(g2, "phi") THEN @ ELSE N(0)]
      mo(n) == NewModel(n, n, 1, [pi |-> 4000, dt |-> 1, unit |-> f.unit])
  IN  <<NewGrid(1, g1), NewGrid(2, g2), NewFluid(1, f), mo(1), mo(2)>>

\* ------------------------------------------------------------------ queries
QI(i, m, a)  == [op |-> "call", on |-> "grid", i |-> i, m |-> m, a |-> a]
GI(i, m)     == [op |-> "get", on |-> "grid", i |-> i, m |-> m, a |-> None0]
MI(i, m, a)  == [op |-> "call", on |-> "model", i |-> i, m |-> m, a |-> a]
FI(m)        == [op |-> "get", on |-> "fluid", i |-> 1, m |-> m, a |-> None0]
Mat(q)       == q @@ ("mat" :> TRUE)
GroupN == 9
Query(key, w) ==
  LET i   == Pick(<<key, "i">>, <<1, 1, 2>>)
      g   == w.grid[i].d
      b   == Chance(<<key, "b">>, 50)
      fs  == Chance(<<key, "fs">>, 50)
      all == Pick(<<key, "id">>, AllIds(g))
      inn == Pick(<<key, "in">>, InnerIds(g))
      ax  == Pick(<<key, "ax">>, <<"x", "y", "z">>)
      p   == Pick(<<key, "p">>, PNames)
      cell(x) == IF Chance(<<key, "bycoords">>, 40) THEN [coords |-> CoordsOf(g, x)] ELSE [id |-> x]
      r   == Rnd(<<key, "group">>, GroupN)
      fmt == Pick(<<key, "fmt">>, <<"array", "array", "list", "tuple", "set">>)
      bare == Chance(<<key, "bare">>, 12)
      part == [boundary |-> b, fshape |-> fs /\ fmt # "set", fmt |-> fmt]
  IN  CASE r = 0 -> QI(i, "get_prop", IF bare THEN [name |-> p] ELSE ("name" :> p) @@ part)
        [] r = 1 -> QI(i, "get_cells_k", IF bare THEN [dir |-> ax] ELSE ("dir" :> ax) @@ part)
        [] r = 2 -> IF Chance(<<key, "dir">>, 50) THEN QI(i, "get_cell_k", ("dir" :> ax) @@ cell(all))
                    ELSE QI(i, Cat(<<"get_cell_k", ax>>), cell(all))
        [] r = 3 -> GI(i, Pick(<<key, "attr">>, <<"kx", "ky", "kz", "phi", "z", "k", "comp", "comp_type">>))
        [] r = 4 -> GI(i, Pick(<<key, "is">>, <<"is_homogeneous", "is_heterogeneous", "is_isotropic",
                                                "is_anisotropic", "is_regular", "is_irregular">>))
        [] r = 5 -> IF Chance(<<key, "g1">>, 60)
                    THEN QI(i, "get_cell_G", cell(IF b THEN inn ELSE all) @@ ("boundary" :> b))
                    ELSE Mat(QI(i, "get_cells_G", [boundary |-> b, sparse |-> fs]))
        [] r = 6 -> MI(i, "get_cell_trans", (IF Chance(<<key, "bycoords">>, 40)
                       THEN [cell_coords |-> CoordsOf(g, IF b THEN inn ELSE all)]
                       ELSE [cell_id |-> IF b THEN inn ELSE all]) @@ ("boundary" :> b))
        [] r = 7 -> IF Chance(<<key, "diag">>, 30)
                    THEN MI(i, "get_cells_trans_diag", [boundary |-> b, diag_n |-> Between(<<key, "dn">>, 1, Dim(g))])
                    ELSE Mat(MI(i, "get_cells_trans", [boundary |-> b, sparse |-> fs,
                                                       vectorize |-> Chance(<<key, "vec">>, 50)]))
        [] r = 8 -> CASE Chance(<<key, "f">>, 45) -> FI(Pick(<<key, "fa">>, <<"mu", "B", "rho", "comp", "g", "unit", "comp_type">>))
                      [] Chance(<<key, "geo">>, 30) -> QI(i, "get_cells_V", [boundary |-> b, fshape |-> fs])
                      [] Chance(<<key, "rhs">>, 50) ->
                                IF Chance(<<key, "al">>, 50) THEN MI(i, "get_alpha", None0)
                                ELSE [op |-> "get", on |-> "model", i |-> i, m |-> "RHS", a |-> None0]
                      [] OTHER -> LET n == NAll(g)
                                  IN  QI(i, "set_cell_value", cell(all)
                                        @@ ("array" :> (("$arr" :> [m \in 1..n |-> m * 3]) @@ ("sh" :> FShape(g, TRUE))
                                                        @@ ("dtype" :> "float64")))
                                        @@ ("value" :> N("-7.5"))) @@ ("$out" :> "array")

\* ------------------------------------------------------------------ updates
ValueFor(key, p) ==
  CASE Chance(<<key, "v0">>, 10) -> N(0)
    [] p = "phi" -> N(Decimal(<<key, "v">>, "0.05", "0.01", 30))
    [] p = "z"   -> N(Decimal(<<key, "v">>, -50, "2.5", 100))
    [] OTHER     -> N(IF Chance(<<key, "pick">>, 50) THEN Pick(<<key, "v">>, PermValues)
                      ELSE Decimal(<<key, "v">>, 5, "2.5", 120))
Values(key, p, n) == [m \in 1..n |-> ValueFor(<<key, m>>, p)]
AsList(key, v) == IF Chance(<<key, "arr">>, 50) THEN ("$arr" :> v) @@ ("sh" :> <<Len(v)>>) ELSE v
\* where: all cells, a cell or several
Where(key, g) ==
  LET one  == Pick(<<key, "one">>, AllIds(g))
      some == Sample(<<key, "some">>, AllIds(g), Between(<<key, "n">>, 2, 4))
      r    == Rnd(<<key, "where">>, 7)
  IN  CASE r <= 1 -> None0
        [] r = 2 -> [id |-> one]
        [] r = 3 -> [coords |-> CoordsOf(g, one)]
        [] r = 4 -> [id |-> some]
        [] r = 5 -> [id |-> ("$list" :> some)]
        [] r = 6 -> [coords |-> [n \in 1..Len(some) |-> CoordsOf(g, some[n])]]
NTargets(g, a) == IF AllCells(a) THEN NAll(g) ELSE Len(Targets(g, a))
Given(key, g, p, a) ==
  LET n == NTargets(g, a)
      single == ~AllCells(a) /\ n = 1
  IN  IF single \/ Chance(<<key, "scalar", p>>, 60) THEN ValueFor(<<key, p>>, p)
      ELSE IF Chance(<<key, "wrong", p>>, 6) THEN AsList(<<key, p>>, Values(<<key, p>>, p, n + 1))
      ELSE AsList(<<key, p>>, Values(<<key, p>>, p, n))
Update(key, w) ==
  LET i == Pick(<<key, "i">>, <<1, 1, 2>>)
      g == w.grid[i].d
      a == IF Chance(<<key, "out">>, 4) THEN [id |-> NAll(g)] ELSE Where(key, g)
      p == IF Chance(<<key, "unknown">>, 4) THEN Pick(<<key, "un">>, <<"k", "perm", "Kx", "porosity">>) ELSE Pick(<<key, "p">>, PNames)
      r == Rnd(<<key, "r">>, 20)
      some == AnySubset(<<key, "ps">>, PNames)
      props == [n \in {some[m] : m \in 1..Len(some)} |-> Given(key, g, n, a)]
      cc == Pick(<<key, "cc">>, <<0, N("1e-6"), N("3e-6"), N("-1e-6")>>)
      ff(n) == CASE n = "mu" -> N(Pick(<<key, "mu">>, <<"0.5", 1, "2.25", "1.75">>))
                 [] n = "B" -> N(Pick(<<key, "B">>, FVFs))
                 [] n = "rho" -> N(Pick(<<key, "rho">>, <<0, 50, "12.5", 62>>))
                 [] n = "comp" -> Pick(<<key, "fcc">>, <<0, N("1e-6"), N("2e-5"), N("-1e-5")>>)
      fsome == AnySubset(<<key, "fs">>, <<"mu", "B", "rho", "comp">>)
      fl(m, args) == [op |-> "call", on |-> "fluid", i |-> 1, m |-> m, a |-> args]
      un == Pick(<<key, "u">>, <<"field", "metric", "lab", "lab", "metric", "Field", "si">>)
  IN  CASE r < 8 /\ Chance(<<key, "mun">>, 8) -> MI(i, "set_units", [unit |-> Pick(<<key, "mu1">>, Units3)])
        [] r < 8 -> QI(i, "set_prop", a @@ ("name" :> p) @@ ("value" :> Given(key, g, IF p \in {"kx", "ky", "kz", "phi", "z"} THEN p ELSE "kx", a)))
        [] r < 12 -> QI(i, "set_props", (IF Chance(<<key, "wc">>, 25) THEN props @@ ("comp" :> cc) ELSE props) @@ a)
        [] r = 12 -> QI(i, "set_comp", [comp |-> cc])
        [] r \in {13, 14} -> QI(i, "set_units", [unit |-> un])
        [] r = 15 -> fl("set_mu", [mu |-> ff("mu")])
        [] r = 16 -> fl("set_B", [B |-> ff("B")])
        [] r = 17 -> fl("set_rho", [rho |-> ff("rho")])
        [] r = 18 -> IF Chance(<<key, "fu">>, 50) THEN fl("set_units", [unit |-> un]) ELSE fl("set_comp", [comp |-> ff("comp")])
        [] r = 19 -> fl("set_props", [n \in {fsome[m] : m \in 1..Len(fsome)} |-> ff(n)] @@ None0)

VARIABLES c, k, w, ops, pool
After1(ww, e) == IF AllLegal(ww, e) THEN TLCEval(Apply(ww, e)) ELSE ww
RECURSIVE AfterAll(_, _)
AfterAll(ww, es) == IF es = <<>> THEN ww ELSE AfterAll(TLCEval(After1(ww, Head(es))), Tail(es))
Init == /\ c \in 1..NCases
        /\ k = -1
        /\ w = NewWorld([rows |-> <<>>])
        /\ ops = <<>>
        /\ pool = <<>>
Start == /\ k = -1
         /\ \E key \in {<<Seed, "props", c>>} : \E es \in {Setup(key)} : \E w1 \in {AfterAll(w, es)} :
              /\ w' = w1
              /\ ops' = es
              /\ pool' = [n \in 1..PoolN |-> Query(<<Seed, "props", c, "pool", n>>, w1)]
         /\ k' = 0 /\ UNCHANGED c
Step == /\ k >= 0 /\ k < Depth
        /\ LET key == <<Seed, "props", c, k>>
               e == TLCEval(IF Chance(<<key, "mut">>, 35) THEN Update(key, w)
                            ELSE IF Chance(<<key, "new">>, 20) THEN Query(key, w)
                            ELSE Pick(<<key, "q">>, pool))
           IN  /\ w' = TLCEval(IF IsMutator(e) THEN After1(w, e) ELSE w)
               /\ ops' = Append(ops, e)
        /\ k' = k + 1 /\ UNCHANGED <<c, pool>>
Write == /\ k = Depth
         /\ Dump(OutFile, [id |-> Cat(<<"props-", c>>), ops |-> ops \o pool])
         /\ k' = k + 1
         /\ UNCHANGED <<c, w, ops, pool>>
Next == Start \/ Step \/ Write
View == <<c, k>>
=============================================================================
