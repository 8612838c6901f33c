------------------------------ MODULE GenGrid -------------------------------
(***************************************************************************)
(* Cases for the grid queries: all shapes with up to MaxN cells per axis,   *)
(* both unify settings, every query with every combination of its          *)
(* arguments and every cell, in an order that depends on the seed.          *)
(* One initial state per case; the case is written when it is stepped.      *)
(***************************************************************************)
EXTENDS GenLib

Focus  == Env("GEN_FOCUS")          \* C06, C07, C08, C09
MaxN   == EnvInt("GEN_MAXN", 3)
NVar   == EnvInt("GEN_VARIANTS", 1)  \* variants of sizes and properties per shape
MaxCell == EnvInt("GEN_MAXCELL", 200) \* sampled cells per query
OutFile == Env("GEN_OUT")

B2 == <<TRUE, FALSE>>
Fmts == <<"array", "list", "tuple", "set">>
All2(F(_, _), s, t) == FlattenSeq([n \in 1..Len(s) |-> [m \in 1..Len(t) |-> F(s[n], t[m])]])
All3(F(_, _, _), s, t, u) ==
  FlattenSeq([n \in 1..Len(s) |-> All2(LAMBDA y, w : F(s[n], y, w), t, u)])
Each(F(_), s) == [n \in 1..Len(s) |-> F(s[n])]

Cells(key, g) == Sample(<<key, "cells">>, AllIds(g), MaxCell)
Crd(g, s) == [n \in 1..Len(s) |-> CoordsOf(g, s[n])]
LCrd(g, s) == [n \in 1..Len(s) |-> LocalCoordsOf(g, s[n])]

NumberingQs(key, g) ==
  LET ids == Cells(key, g)
      loc == [n \in 1..NCells(g, FALSE) |-> n - 1]
      some == Sample(<<key, "some">>, AllIds(g), 5)
      lsome == Sample(<<key, "lsome">>, loc, 4)
  IN  <<Q("get_D", None0), Q("get_fdir", None0), G("cells_id")>>
   \o Each(LAMBDA m : Q(m, None0), <<"get_shape", "get_n", "get_n_max", "get_fshape", "get_order",
        "get_ones", "get_zeros", "get_cells_i", "get_cells_id", "get_cells_coords">>)
   \o Each(LAMBDA b : Q("get_shape", [boundary |-> b]), B2)
   \o Each(LAMBDA b : Q("get_n", [boundary |-> b]), B2)
   \o Each(LAMBDA b : Q("get_n_max", [boundary |-> b]), B2)
   \o All2(LAMBDA b, p : Q("get_fshape", [boundary |-> b, points |-> p]), B2, B2)
   \o All2(LAMBDA b, f : Q("get_order", [type |-> "natural", boundary |-> b, fshape |-> f]), B2, B2)
   \o All2(LAMBDA b, f : Q("get_ones", [boundary |-> b, fshape |-> f, sparse |-> FALSE]), B2, B2)
   \o All2(LAMBDA b, f : Q("get_zeros", [boundary |-> b, fshape |-> f, sparse |-> FALSE]), B2, B2)
   \o All3(LAMBDA b, f, t : Q("get_cells_i", [boundary |-> b, fshape |-> f, fmt |-> t]), B2, B2, Fmts)
   \o All3(LAMBDA b, f, t : Q("get_cells_id", [boundary |-> b, fshape |-> f, fmt |-> t]), B2, B2, Fmts)
   \o All3(LAMBDA b, f, t : Q("get_cells_coords", [boundary |-> b, fshape |-> f, fmt |-> t]), B2, B2, Fmts)
   \o All3(LAMBDA b, f, t : Q("get_cells_icoords", [boundary |-> b, fshape |-> f, fmt |-> t]), B2, B2, Fmts)
   \o Each(LAMBDA i : Q("get_cell_coords", [id |-> i, boundary |-> TRUE]), ids)
   \o Each(LAMBDA i : Q("get_cell_id", [coords |-> CoordsOf(g, i), boundary |-> TRUE]), ids)
   \o Each(LAMBDA i : Q("get_cell_icoords", [coords |-> CoordsOf(g, i)]), ids)
   \o Each(LAMBDA i : Q("get_cell_coords", [id |-> i, boundary |-> FALSE]), Sample(<<key, "l">>, loc, 10))
   \o Each(LAMBDA i : Q("get_cell_id", [coords |-> LocalCoordsOf(g, i), boundary |-> FALSE]), Sample(<<key, "m">>, loc, 10))
   \o <<Q("get_cell_coords", [id |-> some]), Q("get_cell_id", [coords |-> Crd(g, some)]),
        Q("get_cell_coords", [id |-> lsome, boundary |-> FALSE]),
        Q("get_cell_id", [coords |-> LCrd(g, lsome), boundary |-> FALSE]),
        Q("get_cell_icoords", [coords |-> Crd(g, some)])>>

\* arrays to be split into boundary and reservoir cells: id, values, points
Arr(g, w, v, sh) == ("$arr" :> v) @@ ("sh" :> sh)
SplitArrays(key, g) ==
  LET n == NAll(g)
      vals == [k \in 1..n |-> Between(<<key, "val", k>>, 0, 40)]
      pts  == FlattenSeq([k \in 1..n |-> CoordsOf(g, k - 1)])
  IN  << [arr |-> Arr(g, 1, [k \in 1..n |-> k - 1], <<n>>), points |-> FALSE],
         [arr |-> Arr(g, 1, vals, FShape(g, TRUE)), points |-> FALSE],
         [arr |-> Arr(g, 1, vals, <<n>>), points |-> "None"],
         [arr |-> Arr(g, 3, pts, <<n, 3>>), points |-> TRUE],
         [arr |-> Arr(g, 3, pts, FShape(g, TRUE) \o <<3>>), points |-> TRUE] >>
AdjacencyQs(key, g) ==
  LET ids   == Cells(key, g)
      inner == SelectSeq(ids, LAMBDA i : IsInner(g, i))
      F5    == <<"dict">> \o Fmts
      sa    == SplitArrays(key, g)
  IN  All2(LAMBDA i, f : Q("get_cell_neighbors", [id |-> i, boundary |-> FALSE, fmt |-> f]), ids, F5)
   \o All2(LAMBDA i, f : Q("get_cell_neighbors", [coords |-> CoordsOf(g, i), boundary |-> FALSE, fmt |-> f]), ids, F5)
   \o All2(LAMBDA i, f : Q("get_cell_neighbors", [id |-> i, boundary |-> TRUE, fmt |-> f]), inner, F5)
   \o All2(LAMBDA i, f : Q("get_cell_neighbors", [coords |-> CoordsOf(g, i), boundary |-> TRUE, fmt |-> f]), inner, F5)
   \o All2(LAMBDA i, f : Q("get_cell_boundaries", [id |-> i, fmt |-> f]), inner, F5)
   \o All2(LAMBDA i, f : Q("get_cell_boundaries", [coords |-> CoordsOf(g, i), fmt |-> f]), inner, F5)
   \o All2(LAMBDA b, f : Q("get_boundaries", [by |-> b, fmt |-> f]), <<"id", "coords">>, Fmts)
   \o All2(LAMBDA s, r : Q("remove_boundaries", [in_data |-> s.arr, points |-> s.points, remove |-> r]),
           sa, <<"both", "left", "right">>)
   \o All2(LAMBDA s, f : Q("extract_boundaries", [in_data |-> s.arr, points |-> s.points, fmt |-> f]),
           sa, <<"array", "list", "tuple">>)
   \o <<Q("get_boundaries", None0)>>
   \o Each(LAMBDA i : Q("get_cell_neighbors", [id |-> i]), ids)
   \o Each(LAMBDA i : Q("get_cell_boundaries", [id |-> i]), inner)
   \o Each(LAMBDA s : Q("remove_boundaries", [in_data |-> s.arr, points |-> s.points]), sa)
   \o Each(LAMBDA s : Q("extract_boundaries", [in_data |-> s.arr, points |-> s.points]), sa)

Ax3 == <<"x", "y", "z">>
GeometryQs(key, g) ==
  LET ids == Cells(key, g)
      nm(p, a) == Cat(<<p, a>>)
      byid(p) == All2(LAMBDA i, a : Q(nm(p, a), [id |-> i]), ids, Ax3)
      byco(p) == All2(LAMBDA i, a : Q(nm(p, a), [coords |-> CoordsOf(g, i)]), ids, Ax3)
      pv(m, b) == [op |-> "pv", on |-> "grid", i |-> 1, m |-> m, a |-> [boundary |-> b]]
  IN  All3(LAMBDA a, b, f : Q("get_cells_d", [dir |-> a, boundary |-> b, fshape |-> f]), Ax3, B2, B2)
   \o All3(LAMBDA a, b, f : Q(nm("get_cells_d", a), [boundary |-> b, fshape |-> f]), Ax3, B2, B2)
   \o All3(LAMBDA a, b, f : Q("get_cells_A", [dir |-> a, boundary |-> b, fshape |-> f]), Ax3, B2, B2)
   \o All3(LAMBDA a, b, f : Q(nm("get_cells_A", a), [boundary |-> b, fshape |-> f]), Ax3, B2, B2)
   \o Each(LAMBDA d : Q("get_cells_d", [dir |-> d]), <<"-", "all", "dict">>)
   \o Each(LAMBDA d : Q("get_cells_A", [dir |-> d]), <<"-", "all", "dict">>)
   \o byid("get_cell_d") \o byco("get_cell_d") \o byid("get_cell_A") \o byco("get_cell_A")
   \o All2(LAMBDA i, a : Q("get_cell_d", [dir |-> a, id |-> i]), ids, Ax3)
   \o All2(LAMBDA i, a : Q("get_cell_d", [dir |-> a, coords |-> CoordsOf(g, i)]), ids, Ax3)
   \o All2(LAMBDA i, a : Q("get_cell_A", [dir |-> a, id |-> i]), ids, Ax3)
   \o All2(LAMBDA i, a : Q("get_cell_A", [dir |-> a, coords |-> CoordsOf(g, i)]), ids, Ax3)
   \o Each(LAMBDA i : Q("get_cell_V", [id |-> i]), ids)
   \o Each(LAMBDA i : Q("get_cell_V", [coords |-> CoordsOf(g, i)]), ids)
   \o Each(LAMBDA i : Q("get_cell_center", [id |-> i]), ids)
   \o Each(LAMBDA i : Q("get_cell_center", [coords |-> CoordsOf(g, i)]), ids)
   \o All3(LAMBDA b, f, p : Q("get_cells_V", [boundary |-> b, fshape |-> f, pyvista |-> p]), B2, B2, B2)
   \o All3(LAMBDA b, f, p : Q("get_cells_center", [boundary |-> b, fshape |-> f, pyvista |-> p]), B2, B2, B2)
   \o All2(LAMBDA b, p : Q("get_Vt", [boundary |-> b, pyvista |-> p]), B2, B2)
   \o All2(pv, <<"n", "volume", "sizes", "centers">>, B2)
   \o Each(LAMBDA a : Q(nm("get_cells_d", a), None0), Ax3)
   \o Each(LAMBDA a : Q(nm("get_cells_A", a), None0), Ax3)
   \o Each(LAMBDA a : Q("get_cells_d", [dir |-> a]), Ax3)
   \o Each(LAMBDA a : Q("get_cells_A", [dir |-> a]), Ax3)
   \o Each(LAMBDA m : Q(m, None0), <<"get_cells_V", "get_cells_center", "get_Vt">>)
   \o Each(G, <<"dx", "dy", "dz", "Ax", "Ay", "Az", "V", "Vt", "d", "A">>)

M(m, a) == [op |-> "call", on |-> "model", i |-> 1, m |-> m, a |-> a]
MM(q)   == q @@ ("mat" :> TRUE)
TransQs(key, g) ==
  LET ids == Cells(key, g)
      inner == SelectSeq(ids, LAMBDA i : IsInner(g, i))
      ds == [n \in 1..Dim(g) |-> n]
  IN  All2(LAMBDA b, s : MM(Q("get_cells_G", [boundary |-> b, sparse |-> s])), B2, B2)
   \o <<MM(Q("get_cells_G", None0)), MM(M("get_cells_trans", None0)), M("get_cells_trans_diag", None0)>>
   \o Each(LAMBDA i : Q("get_cell_G", [id |-> i]), inner)
   \o Each(LAMBDA i : M("get_cell_trans", [cell_id |-> i]), ids)
   \o All3(LAMBDA b, s, v : MM(M("get_cells_trans", [boundary |-> b, sparse |-> s, vectorize |-> v])), B2, B2, B2)
   \o All2(LAMBDA b, n : M("get_cells_trans_diag", [boundary |-> b, diag_n |-> n]), B2, ds)
   \o Each(LAMBDA i : Q("get_cell_G", [id |-> i, boundary |-> FALSE]), ids)
   \o Each(LAMBDA i : Q("get_cell_G", [coords |-> CoordsOf(g, i), boundary |-> FALSE]), ids)
   \o Each(LAMBDA i : Q("get_cell_G", [id |-> i, boundary |-> TRUE]), inner)
   \o Each(LAMBDA i : Q("get_cell_G", [coords |-> CoordsOf(g, i), boundary |-> TRUE]), inner)
   \o Each(LAMBDA i : M("get_cell_trans", [cell_id |-> i, boundary |-> FALSE]), ids)
   \o Each(LAMBDA i : M("get_cell_trans", [cell_id |-> i, boundary |-> TRUE]), inner)
   \o Each(LAMBDA i : M("get_cell_trans", [cell_coords |-> CoordsOf(g, i), boundary |-> TRUE]), inner)

\* permeability: per direction a style; at least the flow directions defined
PermStyles == << <<1, 1, 1>>, <<2, 2, 2>>, <<3, 1, 2>>, <<3, 3, 3>>, <<2, 1, 1>>, <<4, 2, 2>>,
                 <<2, 4, 1>>, <<1, 3, 2>>, <<2, 2, 2>>, <<2, 2, 4>>, <<5, 5, 5>>, <<2, 5, 5>> >>
WithPerm(key, g, v) ==
  LET st == PermStyles[1 + ((Rnd(<<key, "ps">>, Len(PermStyles)) + v) % Len(PermStyles))]
  IN  g @@ ("kx" :> GenPerm(<<key, "kx">>, g, st[1])) @@ ("ky" :> GenPerm(<<key, "ky">>, g, st[2]))
        @@ ("kz" :> GenPerm(<<key, "kz">>, g, st[3])) @@ ("phi" :> GenPhi(key, g))
        @@ ("z" :> GenZ(key, g, Rnd(<<key, "zs">>, ZStyles)))
        @@ ("comp" :> N(IF Chance(<<key, "gc">>, 50) THEN "1e-6" ELSE 0))
DStyles == << <<1, 1, 1>>, <<2, 2, 2>>, <<2, 1, 2>>, <<3, 2, 3>>, <<1, 2, 2>>, <<2, 3, 1>>, <<4, 4, 4>>, <<4, 2, 4>> >>

Case(s, uni, v) ==
  LET key  == <<Seed, Focus, s, uni, v>>
      ds   == DStyles[1 + Rnd(<<key, "ds">>, Len(DStyles))]
      g0   == GenShape(key, s, ds, uni)
      unit == Pick(<<key, "unit">>, Units3)
      g    == IF Focus = "C09" THEN [WithPerm(key, g0, v) EXCEPT !.unit = unit] ELSE g0
      fl   == [mu |-> N(Pick(<<key, "mu">>, Mus)), B |-> N(Pick(<<key, "B">>, FVFs)),
               rho |-> N(50), comp |-> N("1e-5"), unit |-> unit]
      pre  == IF Focus = "C09"
              THEN <<NewGrid(1, g), NewFluid(1, fl),
                     NewModel(1, 1, 1, [pi |-> 4000, dt |-> 1, unit |-> unit])>>
              ELSE <<NewGrid(1, g)>>
      qs   == CASE Focus = "C06" -> NumberingQs(key, g)
                [] Focus = "C07" -> AdjacencyQs(key, g)
                [] Focus = "C08" -> GeometryQs(key, g)
                [] Focus = "C09" -> TransQs(key, g)
      sh   == Shuffle(<<key, "q">>, qs)
      again == Sample(<<key, "again">>, qs, 10)
  IN  [id |-> Cat(<<Focus, "-", s[1], "x", s[2], "x", s[3], IF uni THEN "-u" ELSE "-n", "-", v>>),
       ops |-> pre \o sh \o again]

\* larger shapes, chosen by the seed
NBig == EnvInt("GEN_BIG", 0)
Big(n) == LET k == Rnd(<<Seed, Focus, "big", n>>, 9)
              r(j, lo, hi) == Between(<<Seed, Focus, "big", n, j>>, lo, hi)
          IN  CASE k = 0 -> <<r(1, 4, 30), 1, 1>> [] k = 1 -> <<1, r(1, 4, 30), 1>>
                [] k = 2 -> <<1, 1, r(1, 4, 30)>> [] k = 3 -> <<r(1, 4, 9), r(2, 2, 9), 1>>
                [] k = 4 -> <<r(1, 2, 9), 1, r(2, 4, 9)>> [] k = 5 -> <<1, r(1, 4, 9), r(2, 2, 9)>>
                [] OTHER -> <<r(1, 2, 6), r(2, 2, 6), r(3, 2, 6)>>
VARIABLES shape, uni, var, done
Init == /\ shape \in {Shapes(MaxN)[n] : n \in 1..Len(Shapes(MaxN))}
                    \cup {Big(n) : n \in 1..NBig}
        /\ (Focus # "C06" => shape # <<1, 1, 1>>)
        /\ uni \in BOOLEAN
        /\ var \in 0..(NVar - 1)
        /\ done = FALSE
Next == /\ ~done
        /\ Dump(OutFile, Case(shape, uni, var))
        /\ done' = TRUE
        /\ UNCHANGED <<shape, uni, var>>
=============================================================================
