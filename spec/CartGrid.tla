------------------------------ MODULE CartGrid ------------------------------
(***************************************************************************)
(* The regular Cartesian grid: numbering, adjacency, geometry and           *)
(* transmissibility, defined from the grid definition only.                 *)
(*                                                                          *)
(* A grid definition g is a record with                                     *)
(*   nx, ny, nz    number of reservoir cells per axis                       *)
(*   dx, dy, dz    cell size: a number, or a sequence over the cells of     *)
(*                 that axis including the two boundary cells               *)
(*   unify         whether all arrays keep three axes                       *)
(*   unit          unit system                                              *)
(* and a property state pr is a record with kx, ky, kz, phi, z (a sequence  *)
(* with one number per cell in natural order, or "None") and comp.          *)
(*                                                                          *)
(* Ids and coordinates start with 0 as in the implementation; sequences     *)
(* over cells hold cell id at index id + 1.                                 *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, SequencesExt, TLC

Axes == <<"x", "y", "z">>
AxisNo(a) == CASE a = "x" -> 1 [] a = "y" -> 2 [] a = "z" -> 3

NAlong(g, a) == CASE a = "x" -> g.nx [] a = "y" -> g.ny [] a = "z" -> g.nz
IsFlow(g, a) == NAlong(g, a) > 1
FlowDirs(g)  == SelectSeq(Axes, LAMBDA a : IsFlow(g, a))
Dim(g)       == Len(FlowDirs(g))
NB(g, a)     == IF IsFlow(g, a) THEN NAlong(g, a) + 2 ELSE NAlong(g, a)
NWith(g, a, b) == IF b THEN NB(g, a) ELSE NAlong(g, a)
NCells(g, b)   == NWith(g, "x", b) * NWith(g, "y", b) * NWith(g, "z", b)
NAll(g)        == NCells(g, TRUE)
Fdir(g) == IF Dim(g) = 0 THEN "-" ELSE Cat(FlowDirs(g))

(* ---------------------------- numbering -------------------------------- *)
\* natural order: x fastest, then y, then z
IdOf(g, c)     == c[1] + NB(g, "x") * (c[2] + NB(g, "y") * c[3])
CoordsOf(g, i) == << i % NB(g, "x"),
                     (i \div NB(g, "x")) % NB(g, "y"),
                     i \div (NB(g, "x") * NB(g, "y")) >>
LocalIdOf(g, c) == c[1] + g.nx * (c[2] + g.ny * c[3])
LocalCoordsOf(g, i) == << i % g.nx, (i \div g.nx) % g.ny, i \div (g.nx * g.ny) >>

OnGrid(g, c) == \A n \in 1..3 : c[n] \in 0..(NB(g, Axes[n]) - 1)
IsInner(g, i) ==
  LET c == CoordsOf(g, i)
  IN  \A n \in 1..3 : IsFlow(g, Axes[n]) => c[n] \in 1..NAlong(g, Axes[n])
AllIds(g)   == [n \in 1..NAll(g) |-> n - 1]
InnerIds(g) == SelectSeq(AllIds(g), LAMBDA i : IsInner(g, i))
BoundIds(g) == SelectSeq(AllIds(g), LAMBDA i : ~IsInner(g, i))
Ids(g, b)   == IF b THEN AllIds(g) ELSE InnerIds(g)
InnerSet(g) == {i \in 0..(NAll(g) - 1) : IsInner(g, i)}
BoundSet(g) == {i \in 0..(NAll(g) - 1) : ~IsInner(g, i)}

\* shape of arrays in flow shape
FShape(g, b) ==
  LET full == << NWith(g, "z", b), NWith(g, "y", b), NWith(g, "x", b) >>
      kept == SelectSeq(<<"z", "y", "x">>, LAMBDA a : IsFlow(g, a))
  IN  IF g.unify \/ Dim(g) = 3 THEN full
      ELSE IF Dim(g) = 0 THEN <<1>>
      ELSE [n \in 1..Len(kept) |-> NWith(g, kept[n], b)]

\* array index of a cell in arrays of flow shape
ICoordsOf(g, c) ==
  IF g.unify \/ Dim(g) = 3 THEN << c[3], c[2], c[1] >>
  ELSE LET kept == SelectSeq(<<"z", "y", "x">>, LAMBDA a : IsFlow(g, a))
       IN  [n \in 1..Len(kept) |-> c[AxisNo(kept[n])]]

(* ---------------------------- adjacency -------------------------------- *)
Shift(c, a, s) == [c EXCEPT ![AxisNo(a)] = @ + s]
\* all cells of the grid adjacent to cell i along axis a
AdjAlong(g, i, a) ==
  IF ~IsFlow(g, a) THEN <<>>
  ELSE LET c  == CoordsOf(g, i)
           cs == SelectSeq(<<Shift(c, a, -1), Shift(c, a, 1)>>, LAMBDA d : OnGrid(g, d))
       IN  [n \in 1..Len(cs) |-> IdOf(g, cs[n])]
Adj(g, i) == AdjAlong(g, i, "x") \o AdjAlong(g, i, "y") \o AdjAlong(g, i, "z")
AdjInner(g, i) == SelectSeq(Adj(g, i), LAMBDA j : IsInner(g, j))
AdjBound(g, i) == SelectSeq(Adj(g, i), LAMBDA j : ~IsInner(g, j))
\* the axis along which two adjacent cells differ
AxisBetween(g, i, j) ==
  LET c == CoordsOf(g, i)  d == CoordsOf(g, j)
  IN  CHOOSE a \in {"x", "y", "z"} : c[AxisNo(a)] # d[AxisNo(a)]
Adjacent(g, i, j) == \E n \in 1..Len(Adj(g, i)) : Adj(g, i)[n] = j

(* ---------------------------- geometry --------------------------------- *)
InputD(g, a) == CASE a = "x" -> g.dx [] a = "y" -> g.dy [] a = "z" -> g.dz
DAt(g, a, n) == IF IsSeq(InputD(g, a)) THEN N(InputD(g, a)[n + 1]) ELSE N(InputD(g, a))
D(g, a, i)   == DAt(g, a, CoordsOf(g, i)[AxisNo(a)])
Area(g, a, i) ==
  CASE a = "x" -> NMul(D(g, "y", i), D(g, "z", i))
    [] a = "y" -> NMul(D(g, "x", i), D(g, "z", i))
    [] a = "z" -> NMul(D(g, "x", i), D(g, "y", i))
Vol(g, i) == NMul(D(g, "x", i), NMul(D(g, "y", i), D(g, "z", i)))
CentreAlong(g, a, n) ==
  NAdd(NSum([m \in 1..n |-> DAt(g, a, m - 1)]), NDiv(DAt(g, a, n), 2))
Centre(g, i) ==
  LET c == CoordsOf(g, i) IN [n \in 1..3 |-> CentreAlong(g, Axes[n], c[n])]

(* ----------------------- unit systems ---------------------------------- *)
Factors ==
  [field  |-> [ grav |-> "32.174",   beta |-> "0.001127", gamma |-> "0.21584e-3",  alpha |-> "5.614583"],
   metric |-> [ grav |-> "9.806635", beta |-> "0.0864",   gamma |-> "0.001",       alpha |-> "1"],
   lab    |-> [ grav |-> "980.6635", beta |-> "1",        gamma |-> "0.986923e-6", alpha |-> "1"]]
Beta(unit)  == N(Factors[unit].beta)
Alpha(unit) == N(Factors[unit].alpha)
FluidG(unit, rho) == NMul(NMul(N(Factors[unit].gamma), rho), N(Factors[unit].grav))

(* ----------------------- transmissibility ------------------------------ *)
Perm(pr, a) == CASE a = "x" -> pr.kx [] a = "y" -> pr.ky [] a = "z" -> pr.kz
K(pr, a, i) == N(Perm(pr, a)[i + 1])
\* geometric factor between the adjacent cells i and j: twice the constant
\* over the sum of d/(A k), zero when one of them is impermeable
GFactor(g, pr, i, j) ==
  LET a == AxisBetween(g, i, j)
      ki == K(pr, a, i)  kj == K(pr, a, j)
      Res(c, k) == NDiv(D(g, a, c), NMul(Area(g, a, c), k))
  IN  IF NEq(ki, 0) \/ NEq(kj, 0) THEN N(0)
      ELSE NDiv(NMul(2, Beta(g.unit)), NAdd(Res(i, ki), Res(j, kj)))

Uniform(s) == \A n \in 1..Len(s) : NEq(s[n], s[1])
IsHomogeneous(g, pr) == IF IsStr(pr.phi) THEN TRUE ELSE
  LET phi == pr.phi IN Uniform([n \in 1..Len(InnerIds(g)) |-> phi[InnerIds(g)[n] + 1]])
IsIsotropic(g, pr) == \A a \in {"x", "y", "z"} :
  IF IsStr(Perm(pr, a)) THEN TRUE ELSE Uniform(Perm(pr, a))
IsRegular(g) == \A a \in {"x", "y", "z"} :
  Uniform([n \in 1..Len(InnerIds(g)) |-> D(g, a, InnerIds(g)[n])])
=============================================================================
