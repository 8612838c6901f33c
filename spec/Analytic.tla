------------------------------ MODULE Analytic ------------------------------
(***************************************************************************)
(* The analytical solution of one-dimensional models: the Fourier series of *)
(* the diffusion equation between two ends with constant pressures a and b, *)
(* starting from the initial pressure.  x in [0, 1] is the position between *)
(* the centres of the two boundary cells, tD = alpha t / L^2.               *)
(*   P(x, t) = a + (b - a) x                                                *)
(*       + 2/pi Sum_n ((pi - a) + (-1)^n (b - pi)) / n sin(n pi x) e^(-n^2 pi^2 tD) *)
(***************************************************************************)
EXTENDS Units

\* hydraulic diffusivity of cell i
Diffusivity(m, i) ==
  LET ax == FlowDirs(m.go.d)[1] IN
  NDiv(NMul(NMul(Beta(m.unit), Alpha(m.unit)), K(m.go.pr, ax, i)),
       NMul(NMul(m.fo.mu, N(m.go.pr.phi[i + 1])), m.st.comp))

Ends(m) == <<0, NAll(m.go.d) - 1>>
\* the problems with this solution: homogeneous, compressible, constant pressures at both ends
InClass(m) ==
  /\ Dim(m.go.d) = 1 /\ ~IsNone(m.pi) /\ NLt(0, m.st.comp)
  /\ LET p == Perm(m.go.pr, FlowDirs(m.go.d)[1]) IN ~IsStr(p) /\ Uniform(p)
  /\ ~IsStr(m.go.pr.phi) /\ Uniform(m.go.pr.phi)
  /\ \A n \in 1..2 : Ends(m)[n] \in DOMAIN m.bc /\ m.bc[Ends(m)[n]].cond = "pressure"
\* the problem: end pressures, initial pressure, range
Problem(m, a, b) == [a |-> a, b |-> b, i |-> m.pi, lo |-> NMinSeq(<<a, b, m.pi>>), hi |-> NMaxSeq(<<a, b, m.pi>>)]
ProblemOf(m) == Problem(m, m.bc[Ends(m)[1]].v, m.bc[Ends(m)[2]].v)
Width(q) == NSub(q.hi, q.lo)

TwoOverPi == NDiv(2, NPi)
Sgn(n, v) == IF n % 2 = 0 THEN v ELSE NNeg(v)
RECURSIVE Terms(_, _, _, _, _, _)
Terms(a, b, th, e, n, last) ==
  IF n > last THEN N(0)
  ELSE NAdd(NMul(NMul(NDiv(NAdd(a, Sgn(n, b)), n), NSin(NMul(n, th))), NExp(NNeg(NMul(n * n, e)))),
            Terms(a, b, th, e, n + 1, last))
\* bound of what is left out after n terms (Abel): the factors e^(-k^2 ..)/k decrease,
\* partial sums of sin(k th) and (-1)^k sin(k th) are at most 1/sin(th/2) and 1/cos(th/2)
Rest(q, th, e, n) ==
  LET s == NSin(NDiv(th, 2))  c == NSin(NDiv(NSub(NPi, th), 2)) IN
  NMul(NMul(NDiv(TwoOverPi, n + 1), NExp(NNeg(NMul((n + 1) * (n + 1), e)))),
       NAdd(NDiv(NAbs(NSub(q.i, q.a)), s), NDiv(NAbs(NSub(q.b, q.i)), c)))
MaxTerms == 120
\* value and tolerance at x and tD, of a series with nterms terms
Series(q, x, td, nterms) ==
  IF NEq(x, 0) THEN <<q.a, N(0)>> ELSE IF NEq(x, 1) THEN <<q.b, N(0)>>
  ELSE LET th == NMul(NPi, x) IN
       IF NEq(td, 0) THEN <<q.i, Rest(q, th, 0, nterms)>>
       ELSE LET e    == NMul(NMul(NPi, NPi), td)
                need == 1 + NFloor(NSqrt(NDiv(40, NMax(e, "1e-6"))))
                last == IF need < MaxTerms THEN need ELSE MaxTerms
            IN  <<NAdd(NAdd(q.a, NMul(NSub(q.b, q.a), x)),
                       NMul(TwoOverPi, Terms(NSub(q.i, q.a), NSub(q.b, q.i), th, e, 1, last))),
                  NAdd(IF last < need THEN Rest(q, th, e, last) ELSE N(0), Rest(q, th, e, nterms))>>
\* positions of all cells between the ends
Place(m, i) ==
  LET g == m.go.d  ax == FlowDirs(g)[1]
      x0 == CentreAt(g, ax, Ends(m)[1])  x1 == CentreAt(g, ax, Ends(m)[2])
  IN  NDiv(NSub(CentreAt(g, ax, i), x0), NSub(x1, x0))
Span(m) == LET g == m.go.d  ax == FlowDirs(g)[1] IN NSub(CentreAt(g, ax, Ends(m)[2]), CentreAt(g, ax, Ends(m)[1]))
Dimless(m, t) == NDiv(NMul(Diffusivity(m, 1), t), NMul(Span(m), Span(m)))
\* when the series is evaluated again after a run, the limits of the pressures are those
\* of the earlier result, in which the initial pressure is only approximated
Wobble(m, q, again) ==
  IF ~again \/ (NLe(NMin(q.a, q.b), q.i) /\ NLe(q.i, NMax(q.a, q.b))) THEN N(0)
  ELSE LET td(i) == Rest(q, NMul(NPi, Place(m, i)), 0, 1000)
       IN  NMinSeq(MapSeq(m.st.ids, td))
\* the row of step k, as <<value, tolerance>> pairs
SeriesRow(m, q, k, nterms, again) ==
  LET td == Dimless(m, NMul(k, m.dt))
      wb == Wobble(m, q, again)
      tol(t) == NAdd(NAdd(t, wb), NMul("1e-8", NAdd(Width(q), NMul("1e-3", NMaxAbs(<<q.hi, q.lo>>)))))
  IN  MapSeq(AllIds(m.go.d), LAMBDA i : LET s == Series(q, Place(m, i), td, nterms) IN <<s[1], tol(s[2])>>)
RowAgrees(row, ex) == Len(row) = Len(ex) /\ \A n \in 1..Len(ex) : NIsFin(row[n]) /\ NClose(ex[n][1], row[n], ex[n][2])
Within(q, row) ==
  LET eps == NMul("1e-9", NMaxAbs(<<q.hi, q.lo>>)) IN
  \A n \in 1..Len(row) : NIsFin(row[n]) /\ NLe(NSub(q.lo, eps), row[n]) /\ NLe(row[n], NAdd(q.hi, eps))

\* the problem a solution was first run for is kept in its history
Started(s) == s.hist # <<>>
\* still the same ends
SameEnds(m, s) == ~Started(s) \/ ToStr(s.hist[1]) = ToStr(EndValues(m))
Solvable(m, s) == IF InClass(m) /\ SameEnds(m, s) THEN NLt(0, Width(ProblemOf(m))) ELSE FALSE
IsAna(w2, e) == LET m == w2.model[e.i] IN m.cur # "" /\ m.sols[m.cur].cls = "D1P1"

\* a run of n steps gives n + 1 rows, anew
SeriesC(w, w2, e) ==
  LET m == w.model[e.i]
      s == m.sols[m.cur]
      o == SolOf(ObsOf(w2, e.i), m.cur)
      n == Arg(e.a, "nsteps", 10)
      q == ProblemOf(m)
  IN  e.ok =>
       /\ o.tstep = n /\ o.nsteps = n + 1 /\ Len(o.p) = n + 1
       /\ Solvable(m, s) =>
            \A k \in 0..n : LET row == Row(w2, o.p[k + 1]) IN
               Within(q, row) /\ RowAgrees(row, SeriesRow(m, q, k, 1000, Started(s)))

(* ------------------------------- queries ------------------------------- *)
AlphaAnswer(m) ==
  IF m.st.comp = 0 \/ NEq(m.st.comp, 0) \/ Dim(m.go.d) = 0 \/ IsStr(m.go.pr.phi) THEN EFree
  ELSE IF IsStr(Perm(m.go.pr, FlowDirs(m.go.d)[1])) THEN EFree
  ELSE IF \E i \in 1..Len(m.go.pr.phi) : NEq(m.go.pr.phi[i], 0) THEN EFree
  ELSE EArr(<<NAll(m.go.d)>>, MapSeq(AllIds(m.go.d), LAMBDA i : Diffusivity(m, i)))

\* accumulation of all cells
RhsAnswer(m) ==
  LET g == m.go.d  phi == m.go.pr.phi
      a(i) == IF NEq(m.st.comp, 0) THEN N(0)
              ELSE NDiv(NMul(NMul(Vol(g, i), phi[i + 1]), m.st.comp), NMul(NMul(Alpha(m.unit), m.fo.B), m.dt))
  IN  IF ~NEq(m.st.comp, 0) /\ IsStr(phi) THEN EFree ELSE EArr(<<NAll(g)>>, MapSeq(AllIds(g), a))

\* calc_solution: points (t, x) and pressures of the current number of steps
PointTol(m, n, sc) == NAdd(NMul("1e-9", NAdd(NMul(n, m.dt), Span(m))), IF sc THEN ScaleTol(m.sc) ELSE N(0))
CalcOk(w, e) ==
  LET m  == w.model[e.i]
      s  == m.sols[m.cur]
      n  == Len(SolOf(ObsOf(w, e.i), m.cur).p)
      q  == ProblemOf(m)
      sc == Arg(e.a, "scale", FALSE)
      or == Arg(e.a, "output_range", <<-1, 1>>)
      rg == Arg(or, "$list", or)
      N0 == Arg(e.a, "N", 1000)
      cells == NAll(m.go.d)
      ax == FlowDirs(m.go.d)[1]
      tf == IF sc THEN TimeFit(m, n) ELSE None
      xf == IF sc THEN SpaceFit(m, ax) ELSE None
      points == FlattenSeq([k \in 1..n |-> FlattenSeq(MapSeq(AllIds(m.go.d), LAMBDA i :
                   <<Scaled(tf, NMul(k - 1, m.dt)), Scaled(xf, CentreAt(m.go.d, ax, i))>>))])
      out(v) == IF sc THEN Affine(v, q.lo, q.hi, N(rg[1]), N(rg[2])) ELSE v
      fac == IF sc THEN NDiv(NAbs(NSub(N(rg[2]), N(rg[1]))), Width(q)) ELSE N(1)
      res == e.res
      pr  == res.v[2]
  IN  /\ e.ok /\ Kind(res, "tuple") /\ Len(res.v) = 2
      /\ Match(EAbs(<<n, cells, 2>>, points, PointTol(m, n, sc)), TRUE, res.v[1])
      /\ Kind(pr, "arr") /\ pr.sh = <<n, cells>>
      /\ \A k \in 1..n : \A j \in {SeriesRow(m, q, k - 1, N0, Started(s))} :
           \A c \in 1..cells :
              LET v == pr.v[(k - 1) * cells + c]
                  lo == NMin(out(q.lo), out(q.hi))  hi == NMax(out(q.lo), out(q.hi))
                  tol == NAdd(NMul(fac, j[c][2]), NMul("1e-9", NAdd(NAbs(lo), NAbs(hi))))
              IN  /\ NIsFin(v) /\ NClose(out(j[c][1]), v, tol)
                  /\ (Arg(e.a, "clean", TRUE) => (NLe(NSub(lo, tol), v) /\ NLe(v, NAdd(hi, tol))))
CalcFree(w, e) ==
  LET m == w.model[e.i] IN
  IF m.cur = "" THEN TRUE
  ELSE IF m.sols[m.cur].cls # "D1P1" THEN TRUE
  ELSE LET s == m.sols[m.cur]  n == Len(SolOf(ObsOf(w, e.i), m.cur).p) IN
       ~Solvable(m, s) \/ (Arg(e.a, "scale", FALSE) /\ (Degenerate(TimeFit(m, n)) \/ Degenerate(SpaceFit(m, FlowDirs(m.go.d)[1]))))

(* ------------------- agreement of the two solutions -------------------- *)
\* a numerical solution on a fine grid is close to the series between the outer faces of
\* the reservoir, which is where it takes the end pressures
FineCells == 16
ConvergeTol == "0.03"
ConvergeC(w, w2, e) ==
  LET m == w2.model[e.i]
      o == SolOf(ObsOf(w2, e.i), m.cur)
      n == Len(o.p) - 1
      row == Row(w2, o.p[n + 1])
      q == ProblemOf(m)
      h == m.sols[m.cur].hist
      cells == Len(m.st.ids)
      len == NMul(cells, D(m.go.d, FlowDirs(m.go.d)[1], 1))
      td == NDiv(NMul(Diffusivity(m, 1), NMul(n, m.dt)), NMul(len, len))
  IN  (e.ok /\ n >= 10 /\ InClass(m) /\ Len(m.st.ids) >= FineCells /\ Uniform(MapSeq(AllIds(m.go.d), LAMBDA i : D(m.go.d, FlowDirs(m.go.d)[1], i)))
         /\ NEq(m.fo.g, 0) /\ m.wells = <<>> /\ (\A k \in 1..Len(h) : h[k] = h[1]) /\ NLe("0.02", td)) =>
       \A k \in 1..Len(m.st.ids) : LET i == m.st.ids[k] IN
          NClose(At(row, i), Series(q, NDiv(NSub(k, "0.5"), cells), td, 1000)[1], NAdd(NMul(ConvergeTol, Width(q)), NMul("1e-6", NMaxAbs(<<q.lo, q.hi>>))))
=============================================================================
