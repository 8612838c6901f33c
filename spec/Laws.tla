-------------------------------- MODULE Laws --------------------------------
(***************************************************************************)
(* Relations between solutions.                                             *)
(*   Image  one problem expressed in other units, at another scale,         *)
(*          mirrored or with exchanged axes has the image of the solution   *)
(*   Range  no pressure leaves the range of what drives the flow            *)
(*   Mono   more inflow, or a higher pressure at a face or well, lowers no  *)
(*          pressure                                                        *)
(*   Rest   a reservoir in equilibrium stays in equilibrium                 *)
(***************************************************************************)
EXTENDS Analytic

(* -------------------------------- images ------------------------------- *)
\* a map: axis n of the first problem becomes axis ax[n] of the second one,
\* in the opposite direction if flip[n]; pressures are multiplied by P,
\* rates by Q (lengths, times, permeabilities etc. follow, see GenTwin)
MapCoords(g2, mp, c) ==
  LET src(k) == CHOOSE n \in 1..3 : mp.ax[n] = k
      at(k)  == IF mp.flip[src(k)] THEN NB(g2, Axes[k]) - 1 - c[src(k)] ELSE c[src(k)]
  IN  <<at(1), at(2), at(3)>>
MapCell(g1, g2, mp, i) == IdOf(g2, MapCoords(g2, mp, CoordsOf(g1, i)))

NearX(a, b) == NLe(NAbs(NSub(a, b)), NMul("1e-10", NMax(NAbs(a), NAbs(b))))
\* the cells of model b that correspond to those of model a
Cells(ma, mb, mp) == TLCEval([i \in 0..(ma.st.n - 1) |-> MapCell(ma.go.d, mb.go.d, mp, i)])
SameLinks(as, bs, at, mp) ==
  /\ Len(as) = Len(bs)
  /\ \A k \in 1..Len(as) : \E j \in 1..Len(bs) :
       /\ bs[j].j = at[as[k].j]
       /\ NearX(NMul(bs[j].T, mp.P), NMul(as[k].T, mp.Q))
       /\ NLe(NAbs(NSub(bs[j].gz, NMul(as[k].gz, mp.P))), NMul("1e-9", NMax(NAbs(bs[j].gz), 1)))
ImageProblem(ma, mb, mp, at) ==
  /\ ma.st.n = mb.st.n
  /\ (IsNone(ma.pi) /\ IsNone(mb.pi)) \/ (~IsNone(ma.pi) /\ ~IsNone(mb.pi) /\ NearX(mb.pi, NMul(ma.pi, mp.P)))
  /\ \A n \in 1..Len(ma.st.ids) :
       \E k \in 1..Len(mb.st.ids) :
         /\ mb.st.ids[k] = at[ma.st.ids[n]]
         /\ SameLinks(ma.st.nb[n], mb.st.nb[k], at, mp)
         /\ SameLinks(ma.st.fc[n], mb.st.fc[k], at, mp)
         /\ NearX(NMul(mb.st.acc[k], mp.P), NMul(ma.st.acc[n], mp.Q))
\* the inflow through face j of a problem, for a cell pressure of 0
FaceFlow(m, bc, j) == IF j \in DOMAIN bc THEN InFlow(bc, FaceLink(m.st, j), 0) ELSE N(0)
IsP(bc, j) == j \in DOMAIN bc /\ bc[j].cond = "pressure"
FaceSet(m) == {i \in 0..(m.st.n - 1) : m.st.isface[i]}
ImageConds(ma, mb, mp, at, ca, cb) ==
  /\ \A j \in FaceSet(ma) :
       /\ IsP(ca.bc, j) = IsP(cb.bc, at[j])
       /\ IF IsP(ca.bc, j) THEN NearX(cb.bc[at[j]].v, NMul(ca.bc[j].v, mp.P))
          ELSE NearX(FaceFlow(mb, cb.bc, at[j]), NMul(FaceFlow(ma, ca.bc, j), mp.Q))
  /\ {at[c] : c \in DOMAIN ca.wells} = DOMAIN cb.wells
  /\ \A c \in DOMAIN ca.wells :
       LET x == ca.wells[c]  y == cb.wells[at[c]] IN
       /\ IsNone(x.q) = IsNone(y.q)
       /\ IsNone(x.q) \/ NearX(y.q, NMul(x.q, mp.Q))
       /\ NearX(MinPwf(y), NMul(MinPwf(x), mp.P))
       /\ NearX(NMul(Index(mb.st, y), mp.P), NMul(Index(ma.st, x), mp.Q))
\* the image of a row of pressures or rates
ImageRow(at, row, f) ==
  LET src == TLCEval([k \in 0..(Len(row) - 1) |-> CHOOSE i \in 0..(Len(row) - 1) : at[i] = k])
  IN  [k \in 1..Len(row) |-> NMul(At(row, src[k - 1]), f)]

(* -------------------------------- range -------------------------------- *)
Weightless(m) ==
  \A n \in 1..Len(m.st.ids) :
    (\A k \in 1..Len(m.st.nb[n]) : NEq(m.st.nb[n][k].gz, 0)) /\ (\A k \in 1..Len(m.st.fc[n]) : NEq(m.st.fc[n][k].gz, 0))
Flows(m) == {j \in DOMAIN m.bc : m.bc[j].cond # "pressure"}
\* no pressure rises above (falls below) those that were there, those at the
\* faces and those of the wells unless fluid is forced in (out); a well
\* never draws the reservoir below its own limit
Drivers(m, old) ==
  MapSeq(SetToSeq({j \in DOMAIN m.bc : m.bc[j].cond = "pressure"}), LAMBDA j : m.bc[j].v)
  \o MapSeq(SetToSeq(DOMAIN m.wells), LAMBDA c : MinPwf(m.wells[c]))
  \o (IF NEq(m.st.comp, 0) THEN <<>> ELSE MapSeq(m.st.ids, LAMBDA i : At(old, i)))
RangeLaw(m, old, new, tol, err) ==
  LET ds  == TLCEval(Drivers(m, old))
      in  == MapSeq(m.st.ids, LAMBDA i : At(new, i))
      eps == NAdd(err, NMul(tol, NAdd(NMaxAbs(ds), NMaxAbs(in))))
      noInj == (\A j \in Flows(m) : NLe(m.bc[j].v, 0))
               /\ \A c \in DOMAIN m.wells : IsNone(m.wells[c].q) \/ NLe(m.wells[c].q, 0)
      noOut == \A j \in Flows(m) : NLe(0, m.bc[j].v)
  IN  (Weightless(m) /\ ds # <<>>) =>
        /\ noInj => NLe(NMaxSeq(in), NAdd(NMaxSeq(ds), eps))
        /\ noOut => NLe(NSub(NMinSeq(ds), eps), NMinSeq(in))

(* ------------------------------- monotone ------------------------------ *)
\* conditions a give no more than conditions b; qa and qb are the rates
NoMore(m, ca, cb, qa, qb) ==
  /\ \A j \in FaceSet(m) :
       /\ IsP(ca.bc, j) = IsP(cb.bc, j)
       /\ IF IsP(ca.bc, j) THEN NLe(ca.bc[j].v, cb.bc[j].v)
          ELSE NLe(FaceFlow(m, ca.bc, j), FaceFlow(m, cb.bc, j))
  /\ \A c \in DOMAIN ca.wells \cap DOMAIN cb.wells :
       LET x == ca.wells[c]  y == cb.wells[c] IN
       /\ NEq(x.G, y.G) /\ NLe(MinPwf(x), MinPwf(y))
       /\ IsNone(x.q) \/ (~IsNone(y.q) /\ NLe(x.q, y.q))
  /\ \A c \in DOMAIN ca.wells \ DOMAIN cb.wells : NLe(At(qa, c), 0)
  /\ \A c \in DOMAIN cb.wells \ DOMAIN ca.wells : NLe(0, At(qb, c))
NoLower(m, pa, pb, tol, err) ==
  LET eps == NAdd(err, NMul(tol, NAdd(NMaxAbs(MapSeq(m.st.ids, LAMBDA i : At(pa, i))),
                                      NMaxAbs(MapSeq(m.st.ids, LAMBDA i : At(pb, i))))))
  IN  \A n \in 1..Len(m.st.ids) : NLe(At(pa, m.st.ids[n]), NAdd(At(pb, m.st.ids[n]), eps))

(* --------------------------------- rest -------------------------------- *)
Linked(m) ==
  \A n \in 1..Len(m.st.ids) :
    (\A k \in 1..Len(m.st.nb[n]) : NLt(0, m.st.nb[n][k].T)) /\ (\A k \in 1..Len(m.st.fc[n]) : NLt(0, m.st.fc[n][k].T))
PFaces(m) == {j \in DOMAIN m.bc : m.bc[j].cond = "pressure"}
\* the column of fluid that a problem at rest stands under: pressure at elevation 0
RestLaw(m, old, new, q, tol, err, qtol) ==
  LET gz(i) == NMul(m.fo.g, m.go.pr.z[i + 1])
      ps   == PFaces(m)
      P0   == IF ps # {} THEN LET j == CHOOSE j \in ps : TRUE IN NSub(m.bc[j].v, gz(j))
              ELSE NSub(At(old, m.st.ids[1]), gz(m.st.ids[1]))
      at(i) == NAdd(P0, gz(i))
      same(v, i) == NLe(NAbs(NSub(v, at(i))), NMul("1e-11", NMax(NAbs(v), NAbs(P0))))
      still == \A n \in 1..Len(m.st.ids) : same(At(old, m.st.ids[n]), m.st.ids[n])
      closed == \A j \in Flows(m) : NEq(m.bc[j].v, 0)
      shut(c) == LET w == m.wells[c] IN
                 IF IsNone(w.q) THEN same(MinPwf(w), c) ELSE NEq(w.q, 0) /\ NLt(MinPwf(w), at(c))
      eps == NAdd(err, NMul(tol, NAdd(NAbs(P0), NMaxAbs(MapSeq(m.st.ids, LAMBDA i : gz(i))))))
  IN  (/\ Linked(m) /\ closed
       /\ \A j \in ps : same(m.bc[j].v, j)
       /\ \A c \in DOMAIN m.wells : shut(c)
       /\ still \/ (NEq(m.st.comp, 0) /\ ps # {})) =>
      /\ \A n \in 1..Len(m.st.ids) : NLe(NAbs(NSub(At(new, m.st.ids[n]), at(m.st.ids[n]))), eps)
      /\ \A i \in 0..(m.st.n - 1) : NLe(NAbs(At(q, i)), qtol)
=============================================================================
