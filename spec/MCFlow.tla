------------------------------- MODULE MCFlow -------------------------------
(***************************************************************************)
(* Exhaustive check of the flow equations on small reservoirs: what the     *)
(* cells gain is what crosses the faces and wells, for every pressure field *)
(* and every mix of boundary conditions; balanced cells imply a balanced    *)
(* reservoir; only pressure differences matter.                             *)
(***************************************************************************)
EXTENDS Session
CONSTANTS Levels, Patterns

Defs == << [nx |-> 2, ny |-> 1, nz |-> 1], [nx |-> 1, ny |-> 1, nz |-> 3],
           [nx |-> 2, ny |-> 2, nz |-> 1], [nx |-> 2, ny |-> 1, nz |-> 2] >>
GridDef(n, slope) ==
  LET d == Defs[n]
      all == NAll([nx |-> d.nx, ny |-> d.ny, nz |-> d.nz])
  IN  d @@ [dx |-> 2, dy |-> 3, dz |-> 1, unit |-> "metric", phi |-> "0.25", comp |-> 0,
            kx |-> [i \in 1..all |-> 1 + (i % 3)], ky |-> [i \in 1..all |-> 1 + (i % 2)], kz |-> 2,
            z |-> [i \in 1..all |-> IF slope THEN (i % 4) ELSE 7]]
FluidDef(c) == [mu |-> "0.5", B |-> 1, rho |-> 1000, comp |-> c, unit |-> "metric"]
World0(n, slope, c) ==
  LET g == NewGridObj(GridDef(n, slope))
      f == NewFluidObj(FluidDef(c))
  IN  MakeModel([grid |-> (1 :> g), fluid |-> (1 :> f)], [g |-> 1, f |-> 1, def |-> [unit |-> "metric", dt |-> 2, pi |-> 1]])

VARIABLES par, m, old, new
Init ==
  /\ par \in [n : 1..Len(Defs), slope : BOOLEAN, c : {"0", "0.01"}, pat : 0..(Patterns - 1)]
  /\ m = <<>> /\ old = <<>> /\ new = <<>>
\* condition pattern of face j; a well in the first cell for odd patterns
Cond(pat, j) ==
  LET r == Rnd(<<pat, j>>, 5) IN
  CASE r = 0 -> <<>>
    [] r = 1 -> <<[cond |-> "pressure", v |-> N(Rnd(<<pat, j, "v">>, 4))]>>
    [] r = 2 -> <<[cond |-> "rate", v |-> N(Rnd(<<pat, j, "v">>, 5) - 2)]>>
    [] r = 3 -> <<[cond |-> "gradient", v |-> N(Rnd(<<pat, j, "v">>, 5) - 2)]>>
    [] OTHER -> <<[cond |-> "pressure", v |-> N(2)]>>
RECURSIVE PutAll(_, _, _)
PutAll(bc, pat, js) ==
  IF js = <<>> THEN bc
  ELSE LET x == Cond(pat, js[1]) IN PutAll(IF x = <<>> THEN bc ELSE Put(bc, js[1], x[1]), pat, Tail(js))
Problem ==
  /\ m = <<>>
  /\ LET a  == World0(par.n, par.slope, par.c)
         js == SelectSeq(AllIds(a.go.d), LAMBDA i : a.st.isface[i])
         b  == [a EXCEPT !.bc = TLCEval(PutAll(<<>>, par.pat, js))]
     IN  m' = TLCEval(IF par.pat % 2 = 1 /\ Fdir(a.go.d) \in WellDirs
              THEN WithWell(b, [cell_id |-> b.st.ids[1], q |-> -1, pwf |-> 0, r |-> "0.1"]) ELSE b)
  /\ UNCHANGED <<par, old, new>>
Field ==
  /\ m # <<>> /\ new = <<>>
  \* pressures of the reservoir cells; what the boundary cells hold does not matter
  /\ \E f \in [1..Len(m.st.ids) -> Levels] : \E u \in Levels :
       LET at(i, v) == IF m.st.isin[i] THEN N(v[CHOOSE n \in 1..Len(m.st.ids) : m.st.ids[n] = i]) ELSE N(9)
       IN  /\ new' = TLCEval([k \in 1..m.st.n |-> at(k - 1, f)])
           /\ old' = TLCEval([k \in 1..m.st.n |-> N(u + (k % 2))])
  /\ UNCHANGED <<par, m>>
Next == Problem \/ Field

Done == new # <<>>
Pwf(i) == NDiv(NAdd(At(new, i), 1), 2)
\* the rates that belong to the pressures
Rates == TLCEval([k \in 1..m.st.n |->
  LET i == k - 1 IN
  IF m.st.isface[i] /\ i \in DOMAIN m.bc
  THEN LET l == FaceLink(m.st, i)
           c == CHOOSE n \in 1..Len(m.st.ids) : \E x \in 1..Len(m.st.fc[n]) : m.st.fc[n][x].j = i
       IN  InFlow(m.bc, l, At(new, m.st.ids[c]))
  ELSE IF i \in DOMAIN m.wells THEN WellRate(m.st, m.wells[i], At(new, i), Pwf(i)) ELSE N(0)])
Near(a, b) == NLe(NAbs(NSub(a, b)), "1e-25")
CellNos == 1..Len(m.st.ids)
\* interior links cancel
Telescoping == Done =>
  LET q == Rates IN
  Near(NSum([n \in CellNos |-> Residual(m.st, m.bc, m.wells, n, old, new, q)]), NSub(SumRates(q), SumAcc(m.st, old, new)))
RatesAreRates == Done => RatesOk(m.st, m.bc, m.wells, new, Rates, Pwf)
LocalImpliesGlobal == Done =>
  LET q == Rates IN Balanced(m.st, m.bc, m.wells, old, new, q, "direct") => SumOk(m.st, m.bc, m.wells, old, new, q, "direct")
LinksMutual == (m # <<>> /\ ~Done) =>
  \A n \in CellNos : \A k \in 1..Len(m.st.nb[n]) :
    LET l == m.st.nb[n][k]
        o == CHOOSE x \in CellNos : m.st.ids[x] = l.j
    IN  \E y \in 1..Len(m.st.nb[o]) :
          m.st.nb[o][y].j = m.st.ids[n] /\ NEq(m.st.nb[o][y].T, l.T) /\ NEq(m.st.nb[o][y].gz, NNeg(l.gz))
\* raising every pressure by the same amount changes no flow
Gauge == Done =>
  LET up(row) == [k \in 1..Len(row) |-> NAdd(row[k], 5)]
      b2 == TLCEval([j \in DOMAIN m.bc |-> IF m.bc[j].cond = "pressure" THEN [m.bc[j] EXCEPT !.v = NAdd(@, 5)] ELSE m.bc[j]])
      q  == Rates
  IN  \A n \in CellNos : Near(Residual(m.st, m.bc, m.wells, n, old, new, q), Residual(m.st, b2, m.wells, n, up(old), up(new), q))
=============================================================================
