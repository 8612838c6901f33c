------------------------------- MODULE Objects ------------------------------
(***************************************************************************)
(* Grids and fluids as objects: their construction, their property updates  *)
(* and what is observed of them.                                            *)
(*   grid object  [d |-> definition, pr |-> properties]                     *)
(*   fluid object [mu, B, rho, comp, unit, g]                               *)
(***************************************************************************)
EXTENDS GridQueries

Spread(g, v) == IF IsSeq(v) THEN [n \in 1..Len(v) |-> N(v[n])]
                ELSE IF Has(v, "$arr") THEN [n \in 1..Len(v["$arr"]) |-> N(v["$arr"][n])]
                ELSE TLCEval([n \in 1..NAll(g) |-> N(v)])
None == "None"
IsNone(v) == IsStr(v) /\ v = None
PropOrNone(g, def, name) ==
  LET v == Arg(def, name, None) IN IF IsNone(v) THEN None ELSE Spread(g, v)

Geo(def) == [nx |-> def.nx, ny |-> def.ny, nz |-> def.nz, dx |-> def.dx, dy |-> def.dy,
             dz |-> def.dz, unify |-> Arg(def, "unify", TRUE), unit |-> Arg(def, "unit", "field")]

\* sizes along an axis: one value, or one per cell including the boundary
SizesOk(def, a) ==
  LET v == InputD(def, a)
  IN  IsSeq(v) => Len(v) = NB(def, a)
KnownUnit(u) == IsStr(u) /\ u \in {"field", "metric", "lab"}

NewGridObj(def) ==
  LET g == Geo(def)
      z == PropOrNone(g, def, "z")
      c == Arg(def, "comp", None)
  IN  [d  |-> g,
       pr |-> [kx |-> PropOrNone(g, def, "kx"), ky |-> PropOrNone(g, def, "ky"),
               kz |-> PropOrNone(g, def, "kz"), phi |-> PropOrNone(g, def, "phi"),
               z  |-> IF IsNone(z) THEN Spread(g, 0) ELSE z,
               comp |-> IF IsNone(c) THEN N(0) ELSE N(c)]]
GridDefOk(def) ==
  /\ KnownUnit(Arg(def, "unit", "field"))
  /\ def.nx >= 1 /\ def.ny >= 1 /\ def.nz >= 1
  /\ \A a \in {"x", "y", "z"} : SizesOk(def, a)
  /\ \A p \in {"kx", "ky", "kz", "phi", "z"} :
        LET v == PropOrNone(def, def, p) IN IsNone(v) \/ Len(v) = NAll(def)
  /\ LET c == Arg(def, "comp", None) IN IsNone(c) \/ NLe(0, c)

(* ------------------------- property updates ---------------------------- *)
\* the cells addressed by id or coords (a cell, a list of cells, or all)
Targets(g, a) ==
  LET id == Arg(a, "id", None)
      co == Arg(a, "coords", None)
      seq(v) == IF Has(v, "$list") THEN v["$list"] ELSE v
  IN  IF ~IsNone(id) THEN (IF IsInt(id) THEN <<id>> ELSE seq(id))
      ELSE IF ~IsNone(co)
           THEN (IF IsCoords(co) THEN <<IdOf(g, co)>>
                 ELSE [n \in 1..Len(seq(co)) |-> IdOf(g, seq(co)[n])])
           ELSE AllIds(g)
AllCells(a) == IsNone(Arg(a, "id", None)) /\ IsNone(Arg(a, "coords", None))

Assign(g, old, v, a) ==
  IF AllCells(a) THEN Spread(g, v)
  ELSE LET t   == Targets(g, a)
           at(k) == IF IsSeq(v) THEN v[k] ELSE IF Has(v, "$arr") THEN v["$arr"][k] ELSE v
       IN  [n \in 1..NAll(g) |->
              LET hits == {k \in 1..Len(t) : t[k] = n - 1}
              IN  IF hits = {} THEN old[n] ELSE N(at(CHOOSE k \in hits : \A j \in hits : j <= k))]
PropNames == <<"kx", "ky", "kz", "phi", "z">>
PutProp(g, pr, name, v, a) == LET new == Assign(g, pr[name], v, a) IN [pr EXCEPT ![name] = new]
RECURSIVE PutProps(_, _, _, _)
PutProps(g, pr, names, a) ==
  IF names = <<>> THEN pr
  ELSE LET v == Arg(a, Head(names), None)
       IN  PutProps(g, IF IsNone(v) THEN pr ELSE PutProp(g, pr, Head(names), v, a), Tail(names), a)

GridMutators == {"set_prop", "set_props", "set_comp", "set_units"}
\* one value, or one per addressed cell
ValuesOk(g, v, a) ==
  LET n == IF IsSeq(v) THEN Len(v) ELSE IF Has(v, "$arr") THEN Len(v["$arr"]) ELSE 0
      single == Has(a, "id") /\ IsInt(a.id)
  IN  n = 0 \/ (n = Len(Targets(g, a)) /\ ~single)
\* the request is one the interface supports
SetOk(o, m, a) ==
  LET g  == o.d
      ts == Targets(g, a)
      cellsOk == \A n \in 1..Len(ts) : ts[n] \in 0..(NAll(g) - 1)
      defined(p) == AllCells(a) \/ ~IsNone(o.pr[p])
  IN  CASE m = "set_comp"  -> NLe(0, a.comp)
        [] m = "set_units" -> KnownUnit(Arg(a, "unit", "field"))
        [] m = "set_prop"  -> /\ a.name \in {"kx", "ky", "kz", "phi", "z"}
                              /\ cellsOk /\ defined(a.name) /\ ValuesOk(g, a.value, a)
        [] m = "set_props" ->
             /\ \A p \in {"kx", "ky", "kz", "phi", "z"} :
                  ~IsNone(Arg(a, p, None)) => (cellsOk /\ defined(p) /\ ValuesOk(g, a[p], a))
             /\ (LET c == Arg(a, "comp", None) IN IsNone(c) \/ NLe(0, c))
GridSet(o, m, a) ==
  CASE m = "set_comp"  -> [o EXCEPT !.pr.comp = N(a.comp)]
    [] m = "set_units" -> [o EXCEPT !.d.unit = Arg(a, "unit", "field")]
    [] m = "set_prop"  -> LET pr == PutProp(o.d, o.pr, a.name, a.value, a) IN [o EXCEPT !.pr = pr]
    [] m = "set_props" ->
         LET c  == Arg(a, "comp", None)
             pr == PutProps(o.d, o.pr, PropNames, a)
         IN  [o EXCEPT !.pr = IF IsNone(c) THEN pr ELSE [pr EXCEPT !.comp = N(c)]]

(* -------------------------------- fluids ------------------------------- *)
FluidNum(def, n, dflt) == LET v == Arg(def, n, None) IN IF IsNone(v) THEN dflt ELSE N(v)
NewFluidObj(def) ==
  LET u   == Arg(def, "unit", "field")
      rho == FluidNum(def, "rho", N(0))
  IN  [mu |-> FluidNum(def, "mu", None), B |-> FluidNum(def, "B", None), rho |-> rho,
       comp |-> FluidNum(def, "comp", N(0)), unit |-> u, g |-> FluidG(u, rho)]
FluidDefOk(def) == KnownUnit(Arg(def, "unit", "field")) /\ NLe(0, FluidNum(def, "comp", N(0)))
FluidMutators == {"set_mu", "set_B", "set_rho", "set_comp", "set_props", "set_units"}
FluidSetOk(o, m, a) ==
  CASE m \in {"set_comp", "set_props"} -> NLe(0, FluidNum(a, "comp", N(0)))
    [] m = "set_units" -> KnownUnit(Arg(a, "unit", "field"))
    [] OTHER -> TRUE
\* gravity follows the density and the units at the time the density is set
FluidSet(o, m, a) ==
  CASE m = "set_units" -> [o EXCEPT !.unit = Arg(a, "unit", "field")]
    [] OTHER ->
       LET new(n) == LET v == Arg(a, n, None) IN IF IsNone(v) THEN o[n] ELSE N(v)
       IN  [mu |-> new("mu"), B |-> new("B"), rho |-> new("rho"), comp |-> new("comp"), unit |-> o.unit,
            g |-> IF IsNone(Arg(a, "rho", None)) THEN o.g ELSE FluidG(o.unit, N(a.rho))]
FluidAttrs == {"mu", "B", "rho", "comp", "g", "unit", "comp_type"}
CompType(c) == IF NEq(c, 0) THEN "incompressible" ELSE "compressible"
FluidAnswer(o, m) ==
  CASE m = "unit" -> EStr(o.unit)
    [] m = "comp_type" -> EStr(CompType(o.comp))
    [] OTHER -> IF IsNone(o[m]) THEN ENone ELSE ENum(o[m])

(* -------------------------------- units -------------------------------- *)
FactorOf(u, name) ==
  CASE name = "gravitational acceleration"  -> N(Factors[u].grav)
    [] name = "transmissibility conversion" -> N(Factors[u].beta)
    [] name = "gravity conversion"          -> N(Factors[u].gamma)
    [] name = "volume conversion"           -> N(Factors[u].alpha)
=============================================================================
