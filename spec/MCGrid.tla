------------------------------- MODULE MCGrid -------------------------------
(***************************************************************************)
(* Exhaustive check of the grid definitions for all small shapes, sizes     *)
(* and permeability patterns: numbering, adjacency, geometry and            *)
(* transmissibility mean what the properties say they mean.                 *)
(***************************************************************************)
EXTENDS GridQueries
CONSTANTS MaxN, MaxCells

Sizes(n, v) == IF v = 0 THEN N(2) ELSE IF n = 1 THEN <<N(3)>> ELSE [k \in 1..(n + 2) |-> N(1 + ((k * k) % 3))]
Shapes == {s \in (1..MaxN) \X (1..MaxN) \X (1..MaxN) : s[1] * s[2] * s[3] <= MaxCells}
VARIABLES par, g, pr
\* the choice of parameters is one step and their evaluation another one, which runs in parallel
Init ==
  /\ par \in [s : Shapes, u : BOOLEAN, v : {0, 1} \X {0, 1} \X {0, 1}, hole : {0, 1, 2}]
  /\ par.u => (par.v = <<0, 0, 0>> /\ par.hole = 0)
  /\ par.hole = 1 => par.v # <<0, 0, 0>>
  /\ g = <<>> /\ pr = <<>>
Next ==
  /\ g = <<>>
  /\ LET s == par.s  v == par.v  hole == par.hole IN
     /\ g' = [nx |-> s[1], ny |-> s[2], nz |-> s[3], dx |-> Sizes(s[1], v[1]), dy |-> Sizes(s[2], v[2]),
              dz |-> Sizes(s[3], v[3]), unify |-> par.u, unit |-> "metric"]
     /\ LET n == NAll(g')
            k(a) == TLCEval([i \in 1..n |-> IF hole > 0 /\ (i * a) % 5 = hole THEN N(0)
                                            ELSE N(IF hole = 0 THEN 10 ELSE 1 + ((i * a) % 4))])
        IN  pr' = [kx |-> k(1), ky |-> k(2), kz |-> k(3), phi |-> "None", z |-> "None", comp |-> N(0)]
  /\ UNCHANGED par
Done == g # <<>>
Plain == Done /\ par.v = <<0, 0, 0>> /\ par.hole = 0

All == 0..(NAll(g) - 1)
Setof(s) == {s[n] : n \in 1..Len(s)}
Distinct(s) == Cardinality(Setof(s)) = Len(s)
Abs(a) == IF a < 0 THEN -a ELSE a
Dist(i, j) == LET a == CoordsOf(g, i)  b == CoordsOf(g, j)
              IN  Abs(a[1] - b[1]) + Abs(a[2] - b[2]) + Abs(a[3] - b[3])

NumberingOk == Plain =>
  /\ \A i \in All : OnGrid(g, CoordsOf(g, i)) /\ IdOf(g, CoordsOf(g, i)) = i
  /\ \A i, j \in All : i < j =>
       LET a == CoordsOf(g, i)  b == CoordsOf(g, j)
       IN  a[3] < b[3] \/ (a[3] = b[3] /\ (a[2] < b[2] \/ (a[2] = b[2] /\ a[1] < b[1])))
  /\ \A i \in 0..(g.nx * g.ny * g.nz - 1) : LocalIdOf(g, LocalCoordsOf(g, i)) = i
PartitionOk == Plain =>
  /\ InnerSet(g) \cup BoundSet(g) = All /\ InnerSet(g) \cap BoundSet(g) = {}
  /\ Cardinality(InnerSet(g)) = g.nx * g.ny * g.nz
  /\ Len(InnerIds(g)) = NCells(g, FALSE) /\ Len(AllIds(g)) = NCells(g, TRUE)
  /\ LET sh == FShape(g, TRUE)  at == [i \in All |-> ICoordsOf(g, CoordsOf(g, i))] IN
     Dim(g) > 0 =>
     /\ \A i \in All : Len(at[i]) = Len(sh) /\ \A n \in 1..Len(sh) : at[i][n] \in 0..(sh[n] - 1)
     /\ \A i, j \in All : i # j => at[i] # at[j]
NeighboursOk == Plain =>
  /\ \A i \in All : Distinct(Adj(g, i)) /\ Setof(Adj(g, i)) = {j \in All : Dist(i, j) = 1}
  /\ \A i, j \in All : Adjacent(g, i, j) => Adjacent(g, j, i) /\ AxisBetween(g, i, j) = AxisBetween(g, j, i)
  /\ \A i \in InnerSet(g) : Len(Adj(g, i)) = 2 * Dim(g)
  \* a boundary cell touches at most one reservoir cell
  /\ \A i \in BoundSet(g) : Len(AdjInner(g, i)) <= 1
  /\ Dim(g) = 0 => BoundSet(g) = {}
GeometryOk == (Done /\ par.hole = 0) =>
  LET len(a) == NSum([n \in 1..NB(g, a) |-> DAt(g, a, n - 1)])
      ids == AllIds(g)
  IN  /\ NEq(NSum(MapSeq(ids, LAMBDA i : Vol(g, i))), NMul(len("x"), NMul(len("y"), len("z"))))
      /\ \A i \in All : \A n \in 1..3 : NEq(Vol(g, i), NMul(Area(g, Axes[n], i), D(g, Axes[n], i)))
      \* centres of adjacent cells are half of both sizes apart, others agree
      /\ \A i \in All : \A k \in 1..Len(Adj(g, i)) :
           LET j == Adj(g, i)[k]  a == AxisBetween(g, i, j) IN
           \A n \in 1..3 :
             NEq(NAbs(NSub(Centre(g, i)[n], Centre(g, j)[n])),
                 IF Axes[n] = a THEN NDiv(NAdd(D(g, a, i), D(g, a, j)), 2) ELSE 0)
      /\ IsRegular(g) = \A n \in 1..3 : \A i, j \in InnerSet(g) : NEq(D(g, Axes[n], i), D(g, Axes[n], j))
Near(a, b) == NRel(a, b, "1e-30")
TransOk == Done =>
  \A i \in All : LET adj == TLCEval(Adj(g, i)) IN \A k \in 1..Len(adj) :
    LET j == adj[k]
        a == AxisBetween(g, i, j)
        t == TLCEval(GFactor(g, pr, i, j))
        \* half cells in series
        h(c) == NDiv(NMul(NMul(2, Beta(g.unit)), NMul(K(pr, a, c), Area(g, a, c))), D(g, a, c))
    IN  /\ NEq(t, GFactor(g, pr, j, i))
        /\ NLe(0, t)
        /\ NEq(t, 0) = (NEq(K(pr, a, i), 0) \/ NEq(K(pr, a, j), 0))
        /\ ~NEq(t, 0) => Near(NDiv(1, t), NAdd(NDiv(1, h(i)), NDiv(1, h(j))))
        /\ NLe(t, NMin(h(i), h(j)))
        /\ (NEq(K(pr, a, i), K(pr, a, j)) /\ NEq(D(g, a, i), D(g, a, j)) /\ NEq(Area(g, a, i), Area(g, a, j))
            /\ ~NEq(t, 0)) => Near(t, NDiv(h(i), 2))
=============================================================================
