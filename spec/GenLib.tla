------------------------------- MODULE GenLib -------------------------------
(***************************************************************************)
(* Generation of inputs: every choice is a function of a key (seed, case    *)
(* number, purpose), so that a run is reproducible from VERIF_SEED.         *)
(***************************************************************************)
EXTENDS CartGrid

Seed == EnvInt("VERIF_SEED", 1)

Chance(key, pct) == Rnd(key, 100) < pct
Between(key, lo, hi) == lo + Rnd(key, hi - lo + 1)
\* lo + k*step for a random k in 0..n
Decimal(key, lo, step, n) == NAdd(lo, NMul(step, Rnd(key, n + 1)))
Shuffle(key, s) ==
  LET h == TLCEval([n \in 1..Len(s) |-> Rnd(<<key, "shuffle", n>>, 1000000000)])
      p == SortSeq([n \in 1..Len(s) |-> n], LAMBDA x, y : IF h[x] = h[y] THEN x < y ELSE h[x] < h[y])
  IN  [n \in 1..Len(s) |-> s[p[n]]]
Sample(key, s, n) == IF Len(s) <= n THEN s ELSE SubSeq(Shuffle(key, s), 1, n)
AnySubset(key, s) == LET h == [n \in 1..Len(s) |-> Rnd(<<key, "sub", n>>, 2)]
                     IN  [n \in 1..Cardinality({m \in 1..Len(s) : h[m] = 1}) |->
                            s[CHOOSE m \in 1..Len(s) : h[m] = 1
                               /\ Cardinality({q \in 1..m : h[q] = 1}) = n]]

\* all shapes with at most k cells per axis, as <<nx, ny, nz>>
Shapes(k) == [n \in 1..(k * k * k) |->
               << 1 + ((n - 1) % k), 1 + (((n - 1) \div k) % k), 1 + ((n - 1) \div (k * k)) >>]

(* ------------------------------- grids --------------------------------- *)
\* two values only: a single exception, a symmetric pattern, halves, or any
Few(key, n, v, w) ==
  LET kind == Rnd(<<key, "few">>, 4)
      one  == 1 + Rnd(<<key, "one">>, n)
  IN  [m \in 1..n |->
         CASE kind = 0 -> IF m = one THEN w ELSE v
           [] kind = 1 -> IF (IF 2 * m > n THEN n + 1 - m ELSE m) * 3 > n THEN w ELSE v
           [] kind = 2 -> IF 2 * m > n THEN w ELSE v
           [] OTHER    -> IF Chance(<<key, "any", m>>, 50) THEN w ELSE v]
SizeValues == <<10, 25, 40, "12.5", 300, "7.25", 100, 55>>
\* style 1: scalar, 2: per cell (when the axis has flow), 3: uniform list
GenD(key, n, style) ==
  IF n = 1 \/ style = 1 THEN N(Pick(<<key, "d">>, SizeValues))
  ELSE IF style = 3 THEN LET v == N(Pick(<<key, "d">>, SizeValues)) IN [m \in 1..(n + 2) |-> v]
  ELSE IF style = 4 THEN Few(key, n + 2, N(Pick(<<key, "d">>, SizeValues)), N(Pick(<<key, "d'">>, SizeValues)))
  ELSE [m \in 1..(n + 2) |-> N(Decimal(<<key, m>>, 10, "2.5", 60))]
PermValues == <<270, 10, 100, "0.5", 35, 1>>
\* style 0: undefined, 1: scalar, 2: per cell, 3: uniform inside and different on the boundary
GenPerm(key, g, style) ==
  CASE style = 0 -> "None"
    [] style = 1 -> N(Pick(<<key, "k">>, PermValues))
    [] style = 2 -> [m \in 1..NAll(g) |-> N(Decimal(<<key, m>>, 5, "2.5", 120))]
    [] style = 3 -> LET v == N(Pick(<<key, "k">>, PermValues))
                        w == N(Pick(<<key, "kb">>, PermValues))
                    IN  [m \in 1..NAll(g) |-> IF IsInner(g, m - 1) THEN v ELSE w]
    [] style = 4 -> [m \in 1..NAll(g) |-> IF Chance(<<key, m>>, 20) THEN N(0)
                                          ELSE N(Decimal(<<key, m>>, 5, "2.5", 120))]
    [] style = 5 -> Few(key, NAll(g), N(Pick(<<key, "k">>, PermValues)), N(Pick(<<key, "kb">>, PermValues)))
GenPhi(key, g) ==
  CASE Rnd(<<key, "phi">>, 4) = 0 -> N("0.27")
    [] Rnd(<<key, "phi">>, 4) = 3 -> Few(<<key, "phi">>, NAll(g), N("0.2"), N("0.31"))
    [] Rnd(<<key, "phi">>, 4) = 1 -> [m \in 1..NAll(g) |-> N(Decimal(<<key, "phi", m>>, "0.05", "0.01", 30))]
    [] OTHER -> [m \in 1..NAll(g) |-> IF IsInner(g, m - 1) THEN N("0.2") ELSE N("0.1")]
\* elevations: constant, layered, per cell, sloping, domes, few values
GenZ(key, g, style) ==
  CASE style = 0 -> N(0)
    [] style = 1 -> N(Between(<<key, "z">>, -300, 500))
    [] style = 2 -> [m \in 1..NAll(g) |-> NAdd(1000, NMul(25, CoordsOf(g, m - 1)[3]))]
    [] style = 3 -> [m \in 1..NAll(g) |-> N(Decimal(<<key, "z", m>>, 0, "2.5", 80))]
    [] style = 4 -> [m \in 1..NAll(g) |-> NMul(10, CoordsOf(g, m - 1)[1] + 2 * CoordsOf(g, m - 1)[2])]
    [] style = 5 -> [m \in 1..NAll(g) |-> LET c == CoordsOf(g, m - 1)
                        rise(n, ax) == c[n] * (NB(g, ax) - 1 - c[n])
                    IN  NSub(1000, NMul("12.5", rise(1, "x") + rise(2, "y") + rise(3, "z")))]
    [] style = 6 -> LET ids == InnerIds(g)  one == ids[1 + Rnd(<<key, "zi">>, Len(ids))]
                    IN  [m \in 1..NAll(g) |-> IF m - 1 = one THEN N(650) ELSE N(600)]
    [] style = 7 -> Few(key, NAll(g), N(500), N(620))
ZStyles == 8
Mus == <<"0.5", 1, "2.25", "0.8">>
FVFs == <<1, "1.2", "0.85", "1.05">>
Units3 == <<"field", "metric", "lab">>

\* skeleton without properties
GenShape(key, s, styles, unify) ==
  [nx |-> s[1], ny |-> s[2], nz |-> s[3],
   dx |-> GenD(<<key, "x">>, s[1], styles[1]), dy |-> GenD(<<key, "y">>, s[2], styles[2]),
   dz |-> GenD(<<key, "z">>, s[3], styles[3]), unify |-> unify, unit |-> "field"]

(* ------------------------------- calls --------------------------------- *)
\* in some behaviours numbers are given as numpy numbers
Dump(file, x) == DumpLine(file, IF Chance(<<Seed, "np", x.id>>, 25) THEN x @@ ("np" :> TRUE) ELSE x)
Q(m, a)   == [op |-> "call", on |-> "grid", i |-> 1, m |-> m, a |-> a]
G(m)      == [op |-> "get", on |-> "grid", i |-> 1, m |-> m, a |-> [none |-> 0]]
None0     == [none |-> 0]
\* some objects print what they do, which changes nothing
Talk(i, d) == IF Chance(<<Seed, "verbose", i, ToStr(d)>>, 15) THEN d @@ ("verbose" :> TRUE) ELSE d
\* sizes and properties per cell are given as arrays, lists or tuples
NewGrid(i, g)  ==
  LET e == [op |-> "new", on |-> "grid", i |-> i, def |-> Talk(i, g)]
      r == Rnd(<<Seed, "seq", i, ToStr(g)>>, 20)
  IN  CASE r < 6 -> e @@ ("as" :> "list") [] r < 8 -> e @@ ("as" :> "tuple") [] OTHER -> e
NewFluid(i, f) == [op |-> "new", on |-> "fluid", i |-> i, def |-> Talk(i, f)]
NewModel(i, gi, fi, d) == [op |-> "new", on |-> "model", i |-> i, g |-> gi, f |-> fi, def |-> Talk(i, d)]
=============================================================================
