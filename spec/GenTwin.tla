------------------------------- MODULE GenTwin -------------------------------
(***************************************************************************)
(* Problems and their images, and problems with known solutions.            *)
(*   units   a problem in another unit system and at another scale          *)
(*   mirror  mirrored along one or more axes                                *)
(*   swap    with exchanged axes (and possibly mirrored)                    *)
(*   mono    two models of which one has more inflow                        *)
(*   range   no gravity                                                     *)
(*   rest    in equilibrium                                                 *)
(***************************************************************************)
EXTENDS GenSession

GenKind == Env("GEN_KIND")
KindOf(n) == IF GenKind # "" THEN GenKind ELSE Pick(<<Seed, "kind", n>>, <<"mirror", "swap", "mono", "range", "rest">>)

(* -------------------------- images of definitions ---------------------- *)
Perms == << <<1, 2, 3>>, <<2, 1, 3>>, <<3, 2, 1>>, <<1, 3, 2>>, <<2, 3, 1>>, <<3, 1, 2>> >>
Inv(ax) == [x \in 1..3 |-> CHOOSE n \in 1..3 : ax[n] = x]
Rev(s) == [n \in 1..Len(s) |-> s[Len(s) + 1 - n]]
NName(n) == <<"nx", "ny", "nz">>[n]
DName(n) == <<"dx", "dy", "dz">>[n]
KName(n) == <<"kx", "ky", "kz">>[n]
\* sizes and values: a number or a sequence, times a factor
Times2(v, f) == IF IsSeq(v) THEN MapSeq(v, LAMBDA x : NMul(x, f)) ELSE NMul(v, f)
\* grid definition -> definition of its image; sc: factors of lengths, permeabilities, compressibility
ImageGrid(d, mp, sc, unit) ==
  LET iv == Inv(mp.ax)
      sz(x) == LET v == Times2(d[DName(iv[x])], sc.L) IN IF IsSeq(v) /\ mp.flip[iv[x]] THEN Rev(v) ELSE v
      g2 == [nx |-> d[NName(iv[1])], ny |-> d[NName(iv[2])], nz |-> d[NName(iv[3])],
             dx |-> sz(1), dy |-> sz(2), dz |-> sz(3), unify |-> d.unify, unit |-> unit]
      n  == NAll(d)
      to == TLCEval([i \in 0..(n - 1) |-> MapCell(d, g2, mp, i)])
      from == TLCEval([j \in 0..(n - 1) |-> CHOOSE i \in 0..(n - 1) : to[i] = j])
      perm(v) == IF IsSeq(v) THEN [j \in 1..n |-> v[from[j - 1] + 1]] ELSE v
  IN  TLCEval(g2 @@ ("kx" :> perm(Times2(d[KName(iv[1])], sc.K))) @@ ("ky" :> perm(Times2(d[KName(iv[2])], sc.K)))
         @@ ("kz" :> perm(Times2(d[KName(iv[3])], sc.K))) @@ ("phi" :> perm(d.phi))
         @@ ("z" :> perm(Times2(d.z, sc.L))) @@ ("comp" :> NMul(d.comp, sc.C)))
Fac(u) == [b |-> Beta(u), a |-> Alpha(u), g |-> FluidG(u, 1)]

\* the map of case c: axes, directions and factors; u1 and u2 are the unit systems
MapOf(key, kind, u1, u2) ==
  LET free(n, s) == IF kind = "units" THEN N(Pick(<<key, n>>, s)) ELSE N(1)
      L == free("L", <<1, 1, "0.3048", "30.48", "2.5">>)
      K1 == free("K", <<1, 1, "0.0009869", "0.25", 4>>)
      m == free("m", <<1, 1, "0.5", 3>>)
      b == free("b", <<1, 1, "1.25">>)
      P == free("P", <<1, 1, "6.894757", "0.068", "0.5">>)
      f1 == Fac(u1)  f2 == Fac(u2)
      \* chosen so that the same k stands for the same T, unless the scale is free
      K2 == IF kind = "units" /\ Chance(<<key, "adapt">>, 70) THEN NMul(K1, NDiv(f1.b, f2.b)) ELSE K1
      TT == NDiv(NMul(NDiv(f2.b, f1.b), NMul(L, K2)), NMul(m, b))     \* factor of transmissibilities
      QQ == NMul(TT, P)
      tau == NDiv(NMul(NMul(L, NMul(L, L)), NDiv(f1.a, f2.a)), NMul(b, QQ))
  IN  [a |-> 1, b |-> 2, P |-> P, Q |-> QQ, L |-> L, K |-> K2, m |-> m, B |-> b, t |-> tau, C |-> NDiv(1, P),
       rho |-> NMul(NDiv(f1.g, f2.g), NDiv(P, L)),
       ax |-> IF kind = "swap" THEN Pick(<<key, "ax">>, Perms) ELSE <<1, 2, 3>>,
       flip |-> LET f(n) == Chance(<<key, "flip", n>>, IF kind = "mirror" THEN 60 ELSE IF kind = "swap" THEN 25 ELSE 0)
                IN  <<f(1), f(2), f(3)>>]

(* ------------------------------- set up -------------------------------- *)
UnitsOf(key, kind) ==
  IF kind = "units" THEN Pick(<<key, "us">>, << <<"field", "metric">>, <<"field", "lab">>, <<"metric", "lab">>,
                                               <<"metric", "field">>, <<"lab", "field">>, <<"lab", "metric">>, <<"field", "field">> >>)
  ELSE LET u == Pick(<<key, "u">>, <<"field", "field", "metric", "lab">>) IN <<u, u>>
NoWeight(g, f) == [g EXCEPT !.z = N(0)]
\* hydrostatic problems have pressures that are exact multiples of a unit of pressure
SetupT(n) ==
  LET kind == KindOf(n)
      key  == <<Seed, "twin", kind, n>>
      us   == UnitsOf(key, kind)
      cc   == Pick(<<key, "comp">>, IF kind = "rest" THEN << <<0, 0>>, <<N("1e-6"), N("1e-5")>>, <<0, 0>> >> ELSE Comps)
      g0   == FlowGrid(key, us[1], cc[1])
      g1   == IF kind = "range" /\ Chance(<<key, "flat">>, 85) THEN [g0 EXCEPT !.z = N(Pick(<<key, "zz">>, <<0, 100>>))]
              ELSE IF kind = "rest" /\ ~NEq(NAdd(cc[1], cc[2]), 0) THEN [g0 EXCEPT !.z = N(50)] ELSE g0
      f1   == FlowFluid(key, us[1], cc[2])
      dt   == N(Pick(<<key, "dt">>, Dts))
      pi   == N(Pick(<<key, "pi">>, Pis))
      mp   == MapOf(key, kind, us[1], us[2])
      g2   == ImageGrid(g1, mp, mp, us[2])
      f2   == [mu |-> NMul(f1.mu, mp.m), B |-> NMul(f1.B, mp.B), rho |-> NMul(f1.rho, mp.rho), comp |-> NMul(f1.comp, mp.C), unit |-> us[2]]
      def1 == [pi |-> pi, dt |-> dt, unit |-> us[1]]
      def2 == [pi |-> NMul(pi, mp.P), dt |-> NMul(dt, mp.t), unit |-> us[2]]
  IN  IF kind \in {"units", "mirror", "swap"}
      THEN [kind |-> kind, maps |-> <<mp>>,
            ops |-> <<NewGrid(1, g1), NewFluid(1, f1), NewGrid(2, g2), NewFluid(2, f2), NewModel(1, 1, 1, def1), NewModel(2, 2, 2, def2)>>]
      ELSE [kind |-> kind, maps |-> <<>>,
            ops |-> <<NewGrid(1, g1), NewFluid(1, f1), NewModel(1, 1, 1, def1), NewModel(2, 1, 1, def1)>>]

(* ------------------------------ behaviour ------------------------------ *)
\* the image of a call on model 1
ImageV(m1, m2, mp, at, j, cond, v) ==
  CASE cond = "pressure" -> NMul(v, mp.P)
    [] cond = "rate" -> NMul(v, mp.Q)
    [] cond = "gradient" -> IF m1.st.isface[j] THEN NDiv(NMul(v, mp.P), mp.L) ELSE v
ImageOp(ww, mp, op) ==
  LET m1 == ww.model[1]  m2 == ww.model[2]
      at == Cells(m1, m2, mp)
      a  == op.a
      ent(e) == <<at[e[1]], e[2], ImageV(m1, m2, mp, at, e[1], CondOf(e[2]), e[3])>>
      well(x) == LET y == [n \in DOMAIN x \cap {"cell_id", "q", "pwf", "r", "s"} |->
                            CASE n = "cell_id" -> at[x.cell_id] [] n = "q" -> NMul(x.q, mp.Q) [] n = "pwf" -> NMul(x.pwf, mp.P)
                              [] n = "r" -> NMul(x.r, mp.L) [] n = "s" -> x.s] IN y
  IN  For([op EXCEPT !.a =
        CASE op.m = "set_boundary" -> LET e == ent(<<a.cell_b_id, a.cond, a.v>>) IN [cell_b_id |-> e[1], cond |-> e[2], v |-> e[3]]
          [] op.m = "set_boundaries" -> [bdict |-> ("$bdict" :> Shuffle(<<ToStr(a), "sh">>, MapSeq(BEntries(a), ent)))]
          [] op.m = "set_all_boundaries" ->
               \* gradients stand for the same inflow along every axis at the same scale
               [cond |-> a.cond, v |-> ImageV(m1, m2, mp, at, Faces(m1)[1], CondOf(a.cond), a.v)]
          [] op.m = "set_well" -> IF Has(a, "well") THEN [well |-> ("$well" :> well(a.well["$well"]))] ELSE well(a)], 2)
\* wells are left out when axes are exchanged
CondT(key, kind, ww) ==
  LET m == ww.model[1]
      b == GenBc(key, m, 1)
      fb == EntryOp(1, LET j == Pick(<<key, "fbj">>, Faces(m)) IN <<j, "pressure", BcValue(key, m, j, "pressure")>>)
  IN  IF kind # "swap" THEN GenCond(key, m, 1)
      ELSE IF Sane(WithCond(m, b)) THEN b ELSE fb
RECURSIVE Conds2(_, _, _, _, _)
Conds2(key, kind, mp, ww, n) ==
  IF n = 0 THEN <<>>
  ELSE LET op == TLCEval(CondT(<<key, n>>, kind, ww))
           im == TLCEval(ImageOp(ww, mp, op))
       IN  <<op, im>> \o Conds2(key, kind, mp, TLCEval(GenAfter(TLCEval(GenAfter(ww, op)), im)), n - 1)

\* more inflow for model 2
More(key, ww) ==
  LET m == ww.model[1]  m2 == ww.model[2]
      r == Rnd(<<key, "more">>, 10)
      j == Pick(<<key, "mj">>, Faces(m))
      v == BcValue(<<key, "mv">>, m, j, "rate")
      pj == IF j \in DOMAIN m.bc /\ m.bc[j].cond = "pressure" THEN m.bc[j].v ELSE None
      free == SeqOfSet(Range(Inners(m)) \ (DOMAIN m.wells \cup DOMAIN m2.wells))
      nc == Pick(<<key, "mc">>, free)
      W(i, a) == Mo(i, "set_well", a)
      rate(i, cc, q) == W(i, [cell_id |-> cc, q |-> q, r |-> N("0.5")])
      Qs(cc) == NRound(NMul(NMul(NDiv(WellG(m.go.d, m.go.pr, m.unit, cc, "0.5", 0), m.st.muB), Pi(m)), Frac(<<key, "fq">>, <<"0.05", "0.1", "0.3">>)), 4)
      old == SeqOfSet(DOMAIN m.wells \cap DOMAIN m2.wells)
  IN  IF CanWell(m) /\ r < 4 /\ free # <<>>
      THEN (IF r < 2 THEN <<rate(2, nc, Qs(nc))>> ELSE <<rate(1, nc, NNeg(Qs(nc)))>>)
      ELSE IF r \in {4, 5} /\ old # <<>>
      THEN LET cc == Pick(<<key, "oc">>, old)  y == m2.wells[cc] IN
           IF IsNone(y.q) THEN <<W(2, [cell_id |-> cc, pwf |-> NAdd(MinPwf(y), 50)])>>
           ELSE <<W(2, [cell_id |-> cc, q |-> NMul(y.q, IF NLt(y.q, 0) THEN "0.5" ELSE 2)])>>
      ELSE IF ~IsNone(pj) THEN <<EntryOp(1, <<j, "pressure", pj>>), EntryOp(2, <<j, "pressure", NAdd(pj, NMul(pj, "0.05"))>>)>>
      ELSE <<EntryOp(1, <<j, "rate", NNeg(NAbs(v))>>), EntryOp(2, <<j, "q", IF r < 8 THEN 0 ELSE NAbs(v)>>)>>
\* steps
RunOps(key, i, n) == LET o == StepOpts(<<key, i>>, 10) IN
  IF n = 1 /\ Chance(<<key, "one", i>>, 50) THEN <<Mo(i, "solve", o)>> ELSE <<Mo(i, "run", o @@ ("nsteps" :> n))>>
Both(key, n) == RunOps(key, 1, n) \o RunOps(key, 2, n)

\* equilibrium under a column of fluid with pressure P0 at elevation 0
RestOps(key, ww) ==
  LET m  == ww.model[1]
      P0 == NSub(Pi(m), NMul(m.fo.g, m.go.pr.z[Inners(m)[1] + 1]))
      at(j) == NAdd(P0, NMul(m.fo.g, m.go.pr.z[j + 1]))
      js == Sample(<<key, "rj">>, Faces(m), 1 + Rnd(<<key, "rn">>, 4))
      zs == Sample(<<key, "zj">>, Faces(m), 3)
      ent(j) == <<j, Spell(<<key, j>>, "pressure"), at(j)>>
      cs == Sample(<<key, "wc">>, Inners(m), 2)
      well(x) == IF Chance(<<key, "wk", x>>, 50) THEN Mo(1, "set_well", [cell_id |-> x, q |-> 0, r |-> 1])
                 ELSE Mo(1, "set_well", [cell_id |-> x, pwf |-> at(x), r |-> 1, s |-> 1])
  IN  (IF Chance(<<key, "zero">>, 50) THEN MapSeq(zs, LAMBDA j : EntryOp(1, <<j, Pick(<<key, j>>, <<"rate", "gradient">>), 0>>)) ELSE <<>>)
      \o (IF NEq(m.st.comp, 0) \/ Chance(<<key, "open">>, 60) THEN MapSeq(js, LAMBDA j : EntryOp(1, ent(j))) ELSE <<>>)
      \o (IF CanWell(m) /\ Chance(<<key, "w">>, 50) THEN MapSeq(cs, well) ELSE <<>>)

OpsT(key, kind, mp, kk, ww) ==
  LET n == 1 + Rnd(<<key, "n">>, 2)
      sp(i) == Compile(i, Chance(<<key, "sp", i>>, 50))
      few == 1 + Rnd(<<key, "few">>, 4)
  IN  CASE kind \in {"units", "mirror", "swap"} ->
             IF kk = 0 THEN Conds2(key, kind, mp, ww, few) \o <<sp(1), sp(2)>>
             ELSE (IF Chance(<<key, "cond">>, 50) THEN Conds2(key, kind, mp, ww, 1) ELSE <<>>) \o Both(key, n)
        [] kind = "mono" ->
             IF kk = 0
             THEN LET cs == CondChain(key, ww, 1, few)
                      w1 == GenAll(ww, cs)
                      sy == SyncBc(key, w1.model[1], w1.model[2], 2) \o SyncWells(key, w1.model[1], 2)
                      w2 == GenAll(w1, sy)
                  IN  cs \o sy \o More(key, w2) \o <<sp(1), sp(2)>>
             ELSE (IF Chance(<<key, "cond">>, 30) THEN More(key, ww) ELSE <<>>) \o Both(key, n)
        [] kind = "range" ->
             IF kk = 0 THEN CondChain(key, ww, 1, few) \o <<sp(1)>>
             ELSE (IF Chance(<<key, "cond">>, 40) THEN CondChain(key, ww, 1, 1) ELSE <<>>) \o RunOps(key, 1, n)
        [] kind = "rest" ->
             IF kk = 0 THEN RestOps(key, ww) \o <<sp(1)>> ELSE RunOps(key, 1, n)
DepthOf(kind) == IF kind = "rest" THEN 2 ELSE Depth

VARIABLES maps, kd
InitT == /\ c \in 1..NCases
         /\ k = -1
         /\ w = NewWorld([rows |-> <<>>])
         /\ ops = <<>> /\ maps = <<>> /\ kd = ""
StartT == /\ k = -1
          /\ \E n \in {c} : \E s \in {SetupT(n)} : \E r \in {Filter(w, s.ops)} :
               /\ w' = r.w /\ ops' = r.ops /\ maps' = s.maps /\ kd' = s.kind
          /\ k' = 0 /\ UNCHANGED c
StepT == /\ k >= 0 /\ k <= DepthOf(kd)
         /\ \E key \in {<<Seed, "twin", kd, c, k>>} :
            \E es \in {OpsT(key, kd, IF maps = <<>> THEN 0 ELSE maps[1], k, w)} :
            \E r \in {Filter(w, es)} :
              w' = r.w /\ ops' = ops \o r.ops
         /\ k' = k + 1 /\ UNCHANGED <<c, maps, kd>>
\* every image is one
ImagesOk == \A n \in 1..Len(maps) : ImageProblem(w.model[1], w.model[2], maps[n], Cells(w.model[1], w.model[2], maps[n]))
WriteT == /\ k = DepthOf(kd) + 1
          /\ Assert(ImagesOk, <<"not an image", c>>)
          /\ Dump(OutFile, [id |-> Cat(<<kd, "-", c>>), obs |-> TRUE, maps |-> maps, ops |-> ops])
          /\ k' = k + 1
          /\ UNCHANGED <<c, w, ops, maps, kd>>
NextT == StartT \/ StepT \/ WriteT
=============================================================================
