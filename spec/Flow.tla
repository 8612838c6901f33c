-------------------------------- MODULE Flow --------------------------------
(***************************************************************************)
(* The discrete flow problem of a model: links between cells, boundary      *)
(* faces, accumulation, wells, and what a solved time step has to satisfy.  *)
(* A step is checked, not computed: the specification is the equation.      *)
(***************************************************************************)
EXTENDS Objects

(* --------------------------- static problem ---------------------------- *)
\* ids: reservoir cells; for the n-th of them nb[n] are its links to other
\* reservoir cells, fc[n] its boundary faces, acc[n] its accumulation term
\* comp is the total compressibility, which is that of the creation of the model
StaticOf(go, fo, unit, dt, comp) ==
  LET g   == go.d
      pr  == go.pr
      ids == InnerIds(g)
      one == NDiv(1, NMul(fo.mu, fo.B))
      link(i, j) == [j |-> j, T |-> NMul(one, GFactor(g, pr, i, j)),
                     gz |-> NMul(fo.g, NSub(pr.z[j + 1], pr.z[i + 1])),
                     d |-> D(g, AxisBetween(g, i, j), i)]
      acc(i) == IF NEq(comp, 0) THEN N(0)
                ELSE NDiv(NMul(NMul(Vol(g, i), pr.phi[i + 1]), comp),
                          NMul(NMul(Alpha(unit), fo.B), dt))
  IN  TLCEval([ids |-> ids, comp |-> comp, muB |-> NMul(fo.mu, fo.B), n |-> NAll(g),
       nb  |-> [n \in 1..Len(ids) |-> MapSeq(AdjInner(g, ids[n]), LAMBDA j : link(ids[n], j))],
       fc  |-> [n \in 1..Len(ids) |-> MapSeq(AdjBound(g, ids[n]), LAMBDA j : link(ids[n], j))],
       acc |-> [n \in 1..Len(ids) |-> acc(ids[n])],
       live |-> SelectSeq(AllIds(g), LAMBDA i : IsInner(g, i) \/ Len(AdjInner(g, i)) > 0),
       isin |-> [i \in 0..(NAll(g) - 1) |-> IsInner(g, i)],
       isface |-> [i \in 0..(NAll(g) - 1) |-> ~IsInner(g, i) /\ Len(AdjInner(g, i)) > 0]])
Static(go, fo, unit, dt) == StaticOf(go, fo, unit, dt, NAdd(go.pr.comp, fo.comp))

(* -------------------------- boundary conditions ------------------------ *)
CondNames ==
  [rate     |-> {"rate", "q"}, pressure |-> {"pressure", "press", "p"},
   gradient |-> {"gradient", "grad", "g"}]
KnownCond(s) == IsStr(s) /\ Lower(s) \in UNION {CondNames[k] : k \in DOMAIN CondNames}
CondOf(s) == CHOOSE k \in DOMAIN CondNames : Lower(s) \in CondNames[k]

\* bc: a function from boundary cells to [cond, v]
InFlow(bc, f, p) ==
  IF f.j \notin DOMAIN bc THEN N(0)
  ELSE CASE bc[f.j].cond = "pressure" -> NMul(NMul(2, f.T), NSub(NSub(bc[f.j].v, p), f.gz))
         [] bc[f.j].cond = "rate"     -> bc[f.j].v
         [] bc[f.j].cond = "gradient" -> NMul(NMul(f.T, f.d), bc[f.j].v)
\* an upper bound of the magnitudes that are added up
InScale(bc, f, p) ==
  IF f.j \notin DOMAIN bc THEN N(0)
  ELSE IF bc[f.j].cond = "pressure"
       THEN NMul(NMul(2, f.T), NAdd(NAbs(bc[f.j].v), NAdd(NAbs(p), NAbs(f.gz))))
       ELSE NAbs(InFlow(bc, f, p))
\* known part of the flow through a face (without the cell pressure)
KnownIn(bc, f) == IF f.j \in DOMAIN bc /\ bc[f.j].cond = "pressure"
                  THEN NMul(NMul(2, f.T), NSub(bc[f.j].v, f.gz)) ELSE InFlow(bc, f, 0)

\* the link of a face cell, seen from its reservoir cell
FaceLink(st, j) ==
  LET n == CHOOSE n \in 1..Len(st.ids) : \E k \in 1..Len(st.fc[n]) : st.fc[n][k].j = j
  IN  st.fc[n][CHOOSE k \in 1..Len(st.fc[n]) : st.fc[n][k].j = j]

(* -------------------------------- wells -------------------------------- *)
WellDirs == {"x", "xy", "xyz"}
REq(g, pr, c) ==
  LET dx == D(g, "x", c)  dy == D(g, "y", c) IN
  IF Fdir(g) = "x" THEN NMul("0.14", NSqrt(NAdd(NMul(dx, dx), NMul(dy, dy))))
  ELSE LET kx == K(pr, "x", c)  ky == K(pr, "y", c)
           a  == NSqrt(NDiv(ky, kx))  b == NSqrt(NDiv(kx, ky))
       IN  NDiv(NMul("0.28", NSqrt(NAdd(NMul(a, NMul(dx, dx)), NMul(b, NMul(dy, dy))))),
                NAdd(NSqrt(a), NSqrt(b)))
WellG(g, pr, unit, c, r, s) ==
  LET kh == IF Fdir(g) = "x" THEN K(pr, "x", c) ELSE NSqrt(NMul(K(pr, "x", c), K(pr, "y", c)))
      up == NMul(NMul(NMul(2, NPi), Beta(unit)), NMul(kh, D(g, "z", c)))
      lo == NAdd(NLn(NDiv(NMul(12, REq(g, pr, c)), r)), s)
  IN  NDiv(up, lo)
\* wells: a function from cells to [q, pwf, r, s, req, G]; q and s may be None
MinPwf(w)  == IF IsNone(w.pwf) THEN N(0) ELSE w.pwf
Index(st, w) == NDiv(w.G, st.muB)
WellRate(st, w, p, pwf) == NNeg(NMul(Index(st, w), NSub(p, pwf)))

(* ---------------------------- a solved step ---------------------------- *)
At(row, i) == row[i + 1]
LinkFlow(k, pi, row) == NMul(k.T, NSub(NSub(At(row, k.j), pi), k.gz))
Acc(st, n, old, new) ==
  IF NEq(st.comp, 0) THEN N(0)
  ELSE NMul(st.acc[n], NSub(At(new, st.ids[n]), At(old, st.ids[n])))

\* flow into cell n minus accumulation; q is the reported row of rates
Residual(st, bc, wells, n, old, new, q) ==
  LET i == st.ids[n]
      p == At(new, i)
  IN  NSub(NAdd(NSum(MapSeq(st.nb[n], LAMBDA k : LinkFlow(k, p, new))),
                NAdd(NSum(MapSeq(st.fc[n], LAMBDA f : InFlow(bc, f, p))),
                     IF i \in DOMAIN wells THEN At(q, i) ELSE N(0))),
           Acc(st, n, old, new))
ResidualScale(st, bc, wells, n, old, new, q) ==
  LET i == st.ids[n]
      p == At(new, i)
  IN  NAdd(NSum(MapSeq(st.nb[n], LAMBDA k : NMul(k.T, NAdd(NAbs(At(new, k.j)), NAdd(NAbs(p), NAbs(k.gz)))))),
           NAdd(NSum(MapSeq(st.fc[n], LAMBDA f : InScale(bc, f, p))),
                NAdd(IF i \in DOMAIN wells THEN NAbs(At(q, i)) ELSE N(0),
                     IF NEq(st.comp, 0) THEN N(0)
                     ELSE NMul(st.acc[n], NAdd(NAbs(p), NAbs(At(old, i)))))))
\* magnitude of the known side of the equation of cell n
KnownSide(st, bc, wells, n, old, q) ==
  LET i == st.ids[n]
  IN  NAdd(NSum(MapSeq(st.fc[n], LAMBDA f : NAbs(KnownIn(bc, f)))),
           NAdd(NSum(MapSeq(st.nb[n], LAMBDA k : NMul(k.T, NAbs(k.gz)))),
                NAdd(IF i \in DOMAIN wells
                     THEN NAdd(NAbs(At(q, i)), NMul(NAbs(Index(st, wells[i])), NAbs(MinPwf(wells[i])))) ELSE N(0),
                     IF NEq(st.comp, 0) THEN N(0) ELSE NMul(st.acc[n], NAbs(At(old, i))))))

RowOk(row, st) == Len(row) = st.n /\ \A n \in 1..Len(st.ids) : NIsFin(At(row, st.ids[n]))
DirectTol == "1e-8"
IterTol   == "1e-4"
\* how a step was solved: "direct", "iter" (iteratively, to a tolerance relative
\* to the right-hand side) or "loose" (minres, whose stopping rule bounds no residual)
Balanced(st, bc, wells, old, new, q, mode) ==
  LET ns  == 1..Len(st.ids)
      sc  == TLCEval([n \in ns |-> ResidualScale(st, bc, wells, n, old, new, q)])
      all == NMaxSeq(sc)
      d2  == TLCEval([n \in ns |-> LET k == KnownSide(st, bc, wells, n, old, q) IN NMul(k, k)])
      nrm == NSqrt(NSum(d2))
  IN  \A n \in ns :
        LET r == NAbs(Residual(st, bc, wells, n, old, new, q))
        IN  CASE mode = "direct" -> NLe(r, NAdd(NMul(DirectTol, sc[n]), NMul("1e-11", all)))
              [] mode = "loose"  -> TRUE
              [] OTHER -> NLe(r, NAdd(NMul(IterTol, nrm), NMul("1e-8", all)))

\* the reported rate of every cell
RatesOk(st, bc, wells, new, q, pwf(_)) ==
  /\ \A n \in 1..Len(st.ids) :
        LET i == st.ids[n]
            p == At(new, i)
        IN  /\ \A m \in 1..Len(st.fc[n]) :
                 LET f == st.fc[n][m] IN
                 NLe(NAbs(NSub(At(q, f.j), InFlow(bc, f, p))), NMul("1e-10", InScale(bc, f, p)))
            /\ IF i \in DOMAIN wells
               THEN LET w == wells[i] IN
                    NLe(NAbs(NSub(At(q, i), WellRate(st, w, p, pwf(i)))),
                        NMul("1e-9", NMul(NAbs(Index(st, w)), NAdd(NAbs(p), NAbs(pwf(i))))))
               ELSE NEq(At(q, i), 0)
  /\ \A i \in 0..(st.n - 1) : (~st.isin[i] /\ ~st.isface[i]) => NEq(At(q, i), 0)

SumRates(q) == NSum(q)
SumAcc(st, old, new) == NSum([n \in 1..Len(st.ids) |-> Acc(st, n, old, new)])
SumAccScale(st, old, new) ==
  IF NEq(st.comp, 0) THEN N(0)
  ELSE NSum([n \in 1..Len(st.ids) |-> NMul(st.acc[n], NAdd(NAbs(At(old, st.ids[n])), NAbs(At(new, st.ids[n]))))])
FlowScale(st, bc, wells, old, new, q) ==
  NSum([n \in 1..Len(st.ids) |-> ResidualScale(st, bc, wells, n, old, new, q)])
\* rates add up to the accumulation
SumOk(st, bc, wells, old, new, q, mode) ==
  LET gap == NAbs(NSub(SumRates(q), SumAcc(st, old, new)))
      d2  == NSum([n \in 1..Len(st.ids) |-> LET k == KnownSide(st, bc, wells, n, old, q) IN NMul(k, k)])
  IN  CASE mode = "direct" -> NLe(gap, NMul("1e-9", FlowScale(st, bc, wells, old, new, q)))
        [] mode = "loose"  -> TRUE
        [] OTHER -> NLe(gap, NAdd(NMul(NMul(Len(st.ids), IterTol), NSqrt(d2)),
                         NMul("1e-8", FlowScale(st, bc, wells, old, new, q))))
\* the reported material balance error
ErrorOk(st, old, new, q, err) ==
  LET s  == SumRates(q)
      sa == NSum([n \in 1..Len(q) |-> NAbs(q[n])])
      a  == SumAcc(st, old, new)
  IN  IF NEq(st.comp, 0)
      THEN NIsFin(err) /\ NLe(NAbs(NSub(err, s)), NMul("1e-9", sa))
      ELSE IF NLe(NAbs(s), NMul("1e-6", sa)) THEN TRUE    \* relative to (almost) nothing
      ELSE LET gap  == NAbs(NSub(NDiv(a, s), 1))
               tol  == NDiv(NAdd(NMul("1e-11", sa), NMul("1e-12", SumAccScale(st, old, new))), NAbs(s))
           IN  NIsFin(err) /\ NLe(NAbs(NSub(err, gap)), NAdd(tol, NMul("1e-6", gap)))

\* limits of a well; tolerance relative to the flow that the pressures stand for
WellOk(st, w, p, q, pwf, mode) ==
  LET J    == NAbs(Index(st, w))
      sc   == NAdd(NMul(J, NAdd(NAbs(p), NAdd(NAbs(pwf), NAbs(MinPwf(w))))), NAbs(q))
      tq   == NMul("1e-8", sc)
      tp   == NDiv(tq, J)
      lq   == IF mode = "direct" THEN tq ELSE NMul("1e-4", sc)
      lp   == NDiv(lq, J)
      atp  == NLe(NAbs(NSub(pwf, MinPwf(w))), tp)
      atq  == NLe(NAbs(NSub(q, w.q)), tq)
      onIpr == NLe(NAbs(NSub(q, WellRate(st, w, p, pwf))), tq)
  IN  /\ NIsFin(pwf) /\ NIsFin(q) /\ onIpr
      /\ IF mode = "loose" THEN TRUE
         ELSE IF IsNone(w.q) THEN atp
         ELSE /\ NLe(NSub(w.q, lq), q)
              /\ NLe(NSub(MinPwf(w), lp), pwf)
              /\ atp \/ atq
=============================================================================
