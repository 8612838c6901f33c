----------------------------- MODULE GridQueries ----------------------------
(***************************************************************************)
(* What every query of a grid must answer, as a function of the grid        *)
(* definition g and its current properties pr.  Queries are named as in the *)
(* public interface; arguments that are absent take the documented default. *)
(***************************************************************************)
EXTENDS CartGrid, Match

Arg(a, n, dflt) == IF Has(a, n) THEN a[n] ELSE dflt

\* arrays over cells, in natural order, with or without boundary cells,
\* flat or in flow shape
CellArr(g, b, fsh, F(_)) ==
  LET ids == Ids(g, b)
  IN  EArr(IF fsh THEN FShape(g, b) ELSE <<Len(ids)>>, [n \in 1..Len(ids) |-> F(ids[n])])
\* the same with one point of w numbers per cell
RECURSIVE Flat(_)
Flat(s) == IF s = <<>> THEN <<>> ELSE Head(s) \o Flat(Tail(s))
PointArr(g, b, fsh, w, F(_)) ==
  LET ids == Ids(g, b)
      v   == [n \in 1..(w * Len(ids)) |-> F(ids[(n - 1) \div w + 1])[((n - 1) % w) + 1]]
  IN  EArr((IF fsh THEN FShape(g, b) ELSE <<Len(ids)>>) \o <<w>>, v)

IsCoords(c) == IsSeq(c) /\ Len(c) = 3 /\ \A n \in 1..3 : IsInt(c[n])
MapSeq(s, F(_)) == [n \in 1..Len(s) |-> F(s[n])]

\* a listing of items (ids, coordinates) in one of the formats
Listing(fmt, items) == IF fmt = "set" THEN EBag("set", items) ELSE ESeq(fmt, items)
BagListing(fmt, items) == EBag(fmt, items)
KnownFmt(f) == f \in {"array", "list", "tuple", "set"}

\* ids and coordinates address the same cells
CellOf(g, a) == IF Has(a, "id") /\ IsInt(a.id) THEN a.id ELSE IdOf(g, a.coords)
ByCoords(a)  == ~(Has(a, "id") /\ IsInt(a.id))
Name(g, a, i) == IF ByCoords(a) THEN CoordsOf(g, i) ELSE i

ValidCell(g, a) ==
  IF Has(a, "id") /\ IsInt(a.id) THEN a.id \in 0..(NAll(g) - 1)
  ELSE Has(a, "coords") /\ IsCoords(a.coords) /\ OnGrid(g, a.coords)

\* --------------------------------------------------------------- numbering
NumberingNames == {"get_D", "get_shape", "get_n", "get_n_max", "get_fdir", "get_fshape",
  "get_order", "get_ones", "get_zeros", "get_cells_i", "get_cells_id", "get_cell_id",
  "get_cell_coords", "get_cells_coords", "get_cell_icoords", "get_cells_icoords", "cells_id"}

Numbering(g, m, a) ==
  LET b   == Arg(a, "boundary", TRUE)
      fsh == Arg(a, "fshape", FALSE)
      fmt == Arg(a, "fmt", "array")
  IN CASE m = "get_D"     -> EInt(Dim(g))
       [] m = "get_fdir"  -> EStr(Fdir(g))
       [] m = "get_shape" -> LET bb == Arg(a, "boundary", FALSE)
                             IN  ESeq("tuple", <<NWith(g, "x", bb), NWith(g, "y", bb), NWith(g, "z", bb)>>)
       [] m = "get_n"     -> EInt(NCells(g, b))
       [] m = "get_n_max" -> EInt(NMaxSeq(<<NWith(g, "x", b), NWith(g, "y", b), NWith(g, "z", b)>>))
       [] m = "get_fshape" -> ESeq("tuple", FShape(g, b) \o (IF Arg(a, "points", FALSE) THEN <<3>> ELSE <<>>))
       [] m = "get_order" -> IF Arg(a, "type", "natural") # "natural" THEN EErr
                             ELSE CellArr(g, b, fsh, LAMBDA i : i)
       [] m = "get_ones"  -> CellArr(g, b, fsh, LAMBDA i : 1)
       [] m = "get_zeros" -> CellArr(g, b, fsh, LAMBDA i : 0)
       [] m = "cells_id"  -> ESeq("array", InnerIds(g))
       [] m = "get_cells_i" ->
            LET n == NCells(g, b)
                s == [k \in 1..n |-> k - 1]
            IN  IF fsh THEN EArr(FShape(g, b), s)
                ELSE IF ~KnownFmt(fmt) THEN EErr ELSE Listing(fmt, s)
       [] m = "get_cells_id" ->
            IF fsh THEN CellArr(g, b, TRUE, LAMBDA i : i)
            ELSE IF ~KnownFmt(fmt) THEN EErr ELSE Listing(fmt, Ids(g, b))
       [] m = "get_cell_id" ->
            LET one(c) == IF b THEN IdOf(g, c) ELSE LocalIdOf(g, c)
            IN  IF IsCoords(a.coords) THEN EInt(one(a.coords))
                ELSE ESeq("list", MapSeq(a.coords, one))
       [] m = "get_cell_coords" ->
            LET one(i) == IF b THEN CoordsOf(g, i) ELSE LocalCoordsOf(g, i)
            IN  IF IsInt(a.id) THEN ESeq("tuple", one(a.id))
                ELSE ESeq("list", MapSeq(a.id, one))
       [] m = "get_cells_coords" ->
            LET f == Arg(a, "fmt", "tuple")
            IN  IF fsh THEN PointArr(g, b, TRUE, 3, LAMBDA i : CoordsOf(g, i))
                ELSE IF ~KnownFmt(f) THEN EErr
                ELSE Listing(f, MapSeq(Ids(g, b), LAMBDA i : CoordsOf(g, i)))
       [] m = "get_cell_icoords" ->
            IF IsCoords(a.coords)
            THEN IF OnGrid(g, a.coords) THEN ESeq("tuple", ICoordsOf(g, a.coords)) ELSE EErr
            ELSE ESeq("tuple", MapSeq(a.coords, LAMBDA c : ICoordsOf(g, c)))
       [] m = "get_cells_icoords" ->
            LET w == Len(ICoordsOf(g, <<0, 0, 0>>))
                f == Arg(a, "fmt", "None")
            IN  IF fsh THEN PointArr(g, b, TRUE, w, LAMBDA i : ICoordsOf(g, CoordsOf(g, i)))
                ELSE IF ~KnownFmt(f) THEN EErr
                ELSE Listing(f, MapSeq(Ids(g, b), LAMBDA i : ICoordsOf(g, CoordsOf(g, i))))

\* --------------------------------------------------------------- adjacency
AdjacencyNames == {"get_cell_neighbors", "get_cell_boundaries", "get_boundaries",
                   "remove_boundaries", "extract_boundaries"}

AdjResult(g, a, keep(_)) ==
  LET i   == CellOf(g, a)
      fmt == Arg(a, "fmt", "dict")
      along(ax) == MapSeq(SelectSeq(AdjAlong(g, i, ax), keep), LAMBDA j : Name(g, a, j))
  IN  IF fmt = "dict" THEN EDict([n \in 1..3 |-> <<Axes[n], along(Axes[n])>>])
      ELSE IF ~KnownFmt(fmt) THEN EErr
      ELSE EBag(fmt, along("x") \o along("y") \o along("z"))

\* cells that remain when the left, right or both ends of every flow
\* direction are removed
Kept(g, i, side) ==
  LET c == CoordsOf(g, i)
  IN  \A n \in 1..3 : IsFlow(g, Axes[n]) =>
        /\ side \in {"both", "left"}  => c[n] # 0
        /\ side \in {"both", "right"} => c[n] # NB(g, Axes[n]) - 1
KeptShape(g, side) ==
  LET cut == IF side = "both" THEN 2 ELSE 1
      full == <<"z", "y", "x">>
      kept == IF g.unify \/ Dim(g) = 3 THEN full ELSE SelectSeq(full, LAMBDA ax : IsFlow(g, ax))
  IN  IF Dim(g) = 0 /\ ~g.unify THEN <<1>>
      ELSE MapSeq(kept, LAMBDA ax : IF IsFlow(g, ax) THEN NB(g, ax) - cut ELSE NB(g, ax))

\* in_data: an array over all cells (with w numbers per cell)
RemoveB(g, a) ==
  LET arr  == a.in_data["$arr"]
      sh   == a.in_data.sh
      w    == Len(arr) \div NAll(g)
      side == Arg(a, "remove", "both")
      flat == sh # FShape(g, TRUE) \o (IF w = 3 THEN <<3>> ELSE <<>>)
      ids  == SelectSeq(AllIds(g), LAMBDA i : Kept(g, i, side))
      v    == [n \in 1..(w * Len(ids)) |-> arr[w * ids[(n - 1) \div w + 1] + ((n - 1) % w) + 1]]
  IN  IF side \notin {"both", "left", "right"} THEN EErr
      ELSE IF flat THEN EArr(IF w = 3 THEN <<Len(ids), 3>> ELSE <<Len(ids)>>, v)
      ELSE EArr(KeptShape(g, side) \o (IF w = 3 THEN <<3>> ELSE <<>>), v)
ExtractB(g, a) ==
  LET arr == a.in_data["$arr"]
      w   == Len(arr) \div NAll(g)
      ids == BoundIds(g)
      fmt == Arg(a, "fmt", "tuple")
      one(i) == IF w = 3 THEN SubSeq(arr, 3 * i + 1, 3 * i + 3) ELSE arr[i + 1]
  IN  IF ~KnownFmt(fmt) THEN EErr ELSE EBag(fmt, MapSeq(ids, one))

Adjacency(g, m, a) ==
  CASE m = "get_cell_neighbors" ->
         LET b == Arg(a, "boundary", FALSE)
         IN  IF ~Has(a, "id") /\ ~Has(a, "coords") THEN EErr
             ELSE IF b /\ ~IsInner(g, CellOf(g, a)) THEN EErr
             ELSE AdjResult(g, a, LAMBDA j : b \/ IsInner(g, j))
    [] m = "get_cell_boundaries" ->
         IF ~Has(a, "id") /\ ~Has(a, "coords") THEN EErr
         ELSE IF ~IsInner(g, CellOf(g, a)) THEN EErr
         ELSE AdjResult(g, a, LAMBDA j : ~IsInner(g, j))
    [] m = "get_boundaries" ->
         LET by  == Arg(a, "by", "id")
             fmt == Arg(a, "fmt", "tuple")
         IN  IF by \notin {"id", "coords"} \/ ~KnownFmt(fmt) THEN EErr
             ELSE IF by = "id" THEN Listing(fmt, BoundIds(g))
             ELSE EBag(fmt, MapSeq(BoundIds(g), LAMBDA i : CoordsOf(g, i)))
    [] m = "remove_boundaries"  -> RemoveB(g, a)
    [] m = "extract_boundaries" -> ExtractB(g, a)

\* ---------------------------------------------------------------- geometry
GeometryNames == {"get_cells_d", "get_cells_dx", "get_cells_dy", "get_cells_dz",
  "get_cell_d", "get_cell_dx", "get_cell_dy", "get_cell_dz",
  "get_cells_A", "get_cells_Ax", "get_cells_Ay", "get_cells_Az",
  "get_cell_A", "get_cell_Ax", "get_cell_Ay", "get_cell_Az",
  "get_Vt", "get_cells_V", "get_cell_V", "get_cells_center", "get_cell_center",
  "dx", "dy", "dz", "Ax", "Ay", "Az", "V", "Vt", "d", "A",
  "pv_volume", "pv_n", "pv_sizes", "pv_centers"}

PvRel == "2e-5"   \* the visualisation grid stores points in single precision

Geometry(g, m, a) ==
  LET b    == Arg(a, "boundary", TRUE)
      pv   == Arg(a, "pyvista", FALSE)
      L(e) == IF pv THEN Loose(e, PvRel) ELSE e
      Size(ax, i) == D(g, ax, i)
      Cells(F(_)) == CellArr(g, b, Arg(a, "fshape", FALSE), F)
      CellsA(F(_)) == CellArr(g, b, Arg(a, "fshape", TRUE), F)
      Cell(F(_)) == IF ~ValidCell(g, a) THEN EErr ELSE ENum(F(CellOf(g, a)))
      Three(F(_, _)) == ECols([n \in 1..3 |->
           <<Axes[n], MapSeq(AllIds(g), LAMBDA i : F(Axes[n], i))>>])
      dir == Arg(a, "dir", "-")
      isdir == dir \in {"x", "y", "z"}
      isall == dir \in {"-", "all", "dict"}
      flat(F(_)) == CellArr(g, TRUE, FALSE, F)
  IN CASE m = "get_cells_d" -> IF isall THEN Three(Size)
                               ELSE IF ~isdir THEN EErr ELSE Cells(LAMBDA i : Size(dir, i))
       [] m = "get_cells_dx" -> Cells(LAMBDA i : Size("x", i))
       [] m = "get_cells_dy" -> Cells(LAMBDA i : Size("y", i))
       [] m = "get_cells_dz" -> Cells(LAMBDA i : Size("z", i))
       [] m = "get_cell_d"  -> IF ~isdir THEN EErr ELSE Cell(LAMBDA i : Size(dir, i))
       [] m = "get_cell_dx" -> Cell(LAMBDA i : Size("x", i))
       [] m = "get_cell_dy" -> Cell(LAMBDA i : Size("y", i))
       [] m = "get_cell_dz" -> Cell(LAMBDA i : Size("z", i))
       [] m = "get_cells_A" -> IF isall THEN Three(LAMBDA ax, i : Area(g, ax, i))
                               ELSE IF ~isdir THEN EErr ELSE CellsA(LAMBDA i : Area(g, dir, i))
       [] m = "get_cells_Ax" -> CellsA(LAMBDA i : Area(g, "x", i))
       [] m = "get_cells_Ay" -> CellsA(LAMBDA i : Area(g, "y", i))
       [] m = "get_cells_Az" -> CellsA(LAMBDA i : Area(g, "z", i))
       [] m = "get_cell_A"  -> IF ~isdir THEN EErr ELSE Cell(LAMBDA i : Area(g, dir, i))
       [] m = "get_cell_Ax" -> Cell(LAMBDA i : Area(g, "x", i))
       [] m = "get_cell_Ay" -> Cell(LAMBDA i : Area(g, "y", i))
       [] m = "get_cell_Az" -> Cell(LAMBDA i : Area(g, "z", i))
       [] m = "get_cells_V" -> L(Cells(LAMBDA i : Vol(g, i)))
       [] m = "get_cell_V"  -> Cell(LAMBDA i : Vol(g, i))
       [] m = "get_Vt"      -> L(ENum(NSum(MapSeq(Ids(g, b), LAMBDA i : Vol(g, i)))))
       [] m = "get_cells_center" -> L(PointArr(g, b, Arg(a, "fshape", FALSE), 3, LAMBDA i : Centre(g, i)))
       [] m = "get_cell_center" -> IF ~ValidCell(g, a) THEN EErr
                                   ELSE EArr(<<3>>, Centre(g, CellOf(g, a)))
       [] m = "dx" -> flat(LAMBDA i : Size("x", i))
       [] m = "dy" -> flat(LAMBDA i : Size("y", i))
       [] m = "dz" -> flat(LAMBDA i : Size("z", i))
       [] m = "Ax" -> flat(LAMBDA i : Area(g, "x", i))
       [] m = "Ay" -> flat(LAMBDA i : Area(g, "y", i))
       [] m = "Az" -> flat(LAMBDA i : Area(g, "z", i))
       [] m = "V"  -> flat(LAMBDA i : Vol(g, i))
       [] m = "Vt" -> ENum(NSum(MapSeq(AllIds(g), LAMBDA i : Vol(g, i))))
       [] m = "d"  -> Three(Size)
       [] m = "A"  -> Three(LAMBDA ax, i : Area(g, ax, i))
       [] m = "pv_n"       -> EInt(NCells(g, b))
       [] m = "pv_volume"  -> Loose(ENum(NSum(MapSeq(Ids(g, b), LAMBDA i : Vol(g, i)))), PvRel)
       [] m = "pv_sizes"   -> Loose(CellArr(g, b, FALSE, LAMBDA i : Vol(g, i)), PvRel)
       [] m = "pv_centers" -> Loose(PointArr(g, b, FALSE, 3, LAMBDA i : Centre(g, i)), PvRel)

\* -------------------------------------------------------------- properties
PropertyNames == {"get_prop", "get_cells_k", "get_cell_k", "get_cell_kx", "get_cell_ky",
  "get_cell_kz", "is_homogeneous", "is_heterogeneous", "is_isotropic", "is_anisotropic",
  "is_regular", "is_irregular", "kx", "ky", "kz", "phi", "z", "k", "comp", "comp_type",
  "set_cell_value"}

PropSeq(pr, name) ==
  CASE name = "kx" -> pr.kx [] name = "ky" -> pr.ky [] name = "kz" -> pr.kz
    [] name = "phi" -> pr.phi [] name = "z" -> pr.z

Property(g, pr, m, a) ==
  LET b    == Arg(a, "boundary", TRUE)
      fsh  == Arg(a, "fshape", TRUE)
      fmt  == Arg(a, "fmt", "array")
      known(n) == n \in {"kx", "ky", "kz", "phi", "z"} /\ ~IsStr(PropSeq(pr, n))
      cells(n) == IF ~known(n) THEN EErr
                  ELSE IF fmt = "array" THEN CellArr(g, b, fsh, LAMBDA i : PropSeq(pr, n)[i + 1])
                  ELSE IF ~KnownFmt(fmt) THEN EErr
                  ELSE IF fmt = "set" THEN (IF fsh THEN EFree ELSE ESet(MapSeq(Ids(g, b), LAMBDA i : PropSeq(pr, n)[i + 1])))
                  ELSE IF fsh THEN EFlat(fmt, MapSeq(Ids(g, b), LAMBDA i : PropSeq(pr, n)[i + 1]))
                  ELSE ESeq(fmt, MapSeq(Ids(g, b), LAMBDA i : PropSeq(pr, n)[i + 1]))
      cell(n)  == IF ~known(n) \/ ~ValidCell(g, a) THEN EErr
                  ELSE ENum(PropSeq(pr, n)[CellOf(g, a) + 1])
      attr(n)  == IF ~known(n) THEN EErr
                  ELSE CellArr(g, TRUE, FALSE, LAMBDA i : PropSeq(pr, n)[i + 1])
      dir      == Arg(a, "dir", "?")
      kname    == Cat(<<"k", dir>>)
  IN CASE m = "get_prop"    -> cells(a.name)
       [] m = "get_cells_k" -> IF dir \notin {"x", "y", "z"} THEN EErr ELSE cells(kname)
       [] m = "get_cell_k"  -> IF dir \notin {"x", "y", "z"} THEN EErr ELSE cell(kname)
       [] m = "get_cell_kx" -> cell("kx")
       [] m = "get_cell_ky" -> cell("ky")
       [] m = "get_cell_kz" -> cell("kz")
       [] m \in {"kx", "ky", "kz", "phi", "z"} -> attr(m)
       [] m = "k" -> ECols(MapSeq(SelectSeq(Axes, LAMBDA x : ~IsStr(Perm(pr, x))),
                             LAMBDA x : <<x, MapSeq(AllIds(g), LAMBDA i : K(pr, x, i))>>))
       [] m = "set_cell_value" ->  \* changes one entry of the array it is given
            IF ~ValidCell(g, a) THEN EErr
            ELSE LET s == a.array["$arr"]  c == CellOf(g, a)
                 IN  EArr(a.array.sh, [n \in 1..Len(s) |-> IF n = c + 1 THEN a.value ELSE s[n]])
       [] m = "comp" -> ENum(pr.comp)
       [] m = "comp_type" -> EStr(IF NEq(pr.comp, 0) THEN "incompressible" ELSE "compressible")
       [] m = "is_homogeneous"   -> EBool(IsHomogeneous(g, pr))
       [] m = "is_heterogeneous" -> EBool(~IsHomogeneous(g, pr))
       [] m = "is_isotropic"     -> EBool(IsIsotropic(g, pr))
       [] m = "is_anisotropic"   -> EBool(~IsIsotropic(g, pr))
       [] m = "is_regular"       -> EBool(IsRegular(g))
       [] m = "is_irregular"     -> EBool(~IsRegular(g))

\* -------------------------------------------------------- transmissibility
TransNames == {"get_cell_G", "get_cells_G", "get_cell_trans", "get_cells_trans",
               "get_cells_trans_diag", "get_cells_G_diag_1"}

\* all permeabilities of the flow directions are defined
HasPerm(g, pr) == \A n \in 1..Dim(g) : ~IsStr(Perm(pr, FlowDirs(g)[n]))
\* scale: 1 for geometric factors, 1/(mu B) for transmissibilities
CellLinks(g, pr, a, b, scale) ==
  LET i  == CellOf(g, a)
      js == SelectSeq(Adj(g, i), LAMBDA j : b \/ IsInner(g, j))
  IN  IF b /\ ~IsInner(g, i) THEN EErr
      ELSE EMap(MapSeq(js, LAMBDA j : <<Name(g, a, j), NMul(scale, GFactor(g, pr, i, j))>>))

\* index of a cell in a matrix over the reservoir cells
InnerPos(g) == LET ids == InnerIds(g)
               IN  [i \in InnerSet(g) |-> (CHOOSE n \in 1..Len(ids) : ids[n] = i) - 1]

\* non-zero links as sorted triples; rows: cells that have a row with links
LinkTriples(g, pr, b, scale, innerOnly) ==
  LET ids  == Ids(g, b)
      pos  == IF b THEN [i \in 0..(NAll(g) - 1) |-> i] ELSE TLCEval(InnerPos(g))
      row(i) == LET js == SelectSeq(Adj(g, i), LAMBDA j : b \/ IsInner(g, j))
                    ks == SelectSeq(js, LAMBDA j : innerOnly => (IsInner(g, i) /\ IsInner(g, j)))
                    nz == SelectSeq(ks, LAMBDA j : ~NEq(GFactor(g, pr, i, j), 0))
                    srt == SortSeq(nz, LAMBDA x, y : x < y)
                IN  MapSeq(srt, LAMBDA j : <<pos[i], pos[j], NMul(scale, GFactor(g, pr, i, j))>>)
  IN  FlattenSeq(MapSeq(ids, row))

Matrix(g, pr, b, scale, innerOnly) ==
  LET n == NCells(g, b) IN EMat(<<n, n>>, LinkTriples(g, pr, b, scale, innerOnly))

\* links along the n-th flow direction, as an array of the given offset
Diagonal(g, pr, b, n, scale) ==
  LET ax  == FlowDirs(g)[n]
      ids == Ids(g, b)
      off == CASE n = 1 -> 1
               [] n = 2 -> NWith(g, FlowDirs(g)[1], b)
               [] n = 3 -> NWith(g, "x", b) * NWith(g, "y", b)
      len == Len(ids) - off
      at(k) == LET i == ids[k]  j == ids[k + off]
               IN  IF (\E m \in 1..Len(AdjAlong(g, i, ax)) : AdjAlong(g, i, ax)[m] = j)
                   THEN NMul(scale, GFactor(g, pr, i, j)) ELSE N(0)
  IN  EArr(<<len>>, [k \in 1..len |-> at(k)])

Trans(g, pr, mu, bb, m, a) ==
  LET one   == NDiv(1, NMul(mu, bb))
      scale == IF m \in {"get_cell_G", "get_cells_G", "get_cells_G_diag_1"} THEN N(1) ELSE one
  IN IF ~HasPerm(g, pr) THEN EErr
     ELSE CASE m = "get_cell_G" ->
              IF ~ValidCell(g, a) THEN EErr ELSE CellLinks(g, pr, a, Arg(a, "boundary", TRUE), scale)
       [] m = "get_cell_trans" ->
            LET aa == (IF Has(a, "cell_id") THEN [id |-> a.cell_id] ELSE [coords |-> a.cell_coords])
            IN  IF ~ValidCell(g, aa) THEN EErr ELSE CellLinks(g, pr, aa, Arg(a, "boundary", FALSE), scale)
       [] m = "get_cells_G" -> Matrix(g, pr, Arg(a, "boundary", FALSE), scale, FALSE)
       [] m = "get_cells_trans" ->
            LET b == Arg(a, "boundary", FALSE)
                vec == Arg(a, "vectorize", TRUE)
            IN  Matrix(g, pr, b, scale, b /\ ~vec)
       [] m = "get_cells_trans_diag" ->
            IF Arg(a, "diag_n", 1) > Dim(g) THEN EErr
            ELSE Diagonal(g, pr, Arg(a, "boundary", FALSE), Arg(a, "diag_n", 1), scale)

\* ---------------------------------------------------------------- dispatch
GridAnswer(g, pr, m, a) ==
  CASE m \in NumberingNames -> Numbering(g, m, a)
    [] m \in AdjacencyNames -> Adjacency(g, m, a)
    [] m \in GeometryNames  -> Geometry(g, m, a)
    [] m \in PropertyNames  -> Property(g, pr, m, a)
    [] m \in TransNames     -> Trans(g, pr, 1, 1, m, a)
GridQueryNames == NumberingNames \cup AdjacencyNames \cup GeometryNames
                  \cup PropertyNames \cup TransNames
=============================================================================
