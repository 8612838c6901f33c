------------------------------ MODULE MCControl ------------------------------
(***************************************************************************)
(* Well control: a well that keeps both a rate limit and a pressure limit   *)
(* has exactly one operating point whatever the reservoir around it does.   *)
(* The reservoir is a response q = b p - a of its cell to the rate of the   *)
(* well.  Exhaustive over responses, limits and productivity.               *)
(***************************************************************************)
EXTENDS Flow
CONSTANTS Vals

VARIABLES a, b, w, pts
St == [muB |-> N(2)]
Init == /\ a \in Vals /\ b \in {"0.5", "3"} /\ w \in [q : {"None", "-3", "-1", "0", "2"}, pwf : {"None", "0", "1", "4"}, G : {"1", "6"}]
        /\ pts = <<>>
J == Index(St, w)
\* operating points: on the rate limit, and on the pressure limit
OnRate == LET p == NDiv(NAdd(a, w.q), b) IN [q |-> N(w.q), p |-> p, pwf |-> NAdd(p, NDiv(w.q, J))]
OnPwf  == LET p == NDiv(NAdd(a, NMul(J, MinPwf(w))), NAdd(b, J))
          IN  [p |-> p, q |-> NNeg(NMul(J, NSub(p, MinPwf(w)))), pwf |-> N(MinPwf(w))]
\* a point between or beyond both
Other(t) == LET q == IF IsNone(w.q) THEN NMul(OnPwf.q, t) ELSE NAdd(NMul(OnPwf.q, t), NMul(w.q, NSub(1, t)))
                p == NDiv(NAdd(a, q), b) IN [q |-> q, p |-> p, pwf |-> NAdd(p, NDiv(q, J))]
Next == /\ pts = <<>>
        /\ pts' = TLCEval((IF IsNone(w.q) THEN <<>> ELSE <<OnRate>>) \o <<OnPwf>>
                  \o [k \in 1..8 |-> Other(<<"-1", "0.1", "0.5", "0.9", "1.1", "2", "-0.2", "0.01">>[k])])
        /\ UNCHANGED <<a, b, w>>
Ok(x) == WellOk(St, w, x.p, x.q, x.pwf, "direct")
Same(x, y) == NClose(x.p, y.p, "1e-6") /\ NClose(x.q, y.q, "1e-6") /\ NClose(x.pwf, y.pwf, "1e-6")
Exists == pts # <<>> => \E n \in 1..Len(pts) : Ok(pts[n])
Unique == pts # <<>> => \A n, k \in 1..Len(pts) : (Ok(pts[n]) /\ Ok(pts[k])) => Same(pts[n], pts[k])
\* the rate limit is used exactly if it does not take the pressure below its own limit
Switch == (pts # <<>> /\ ~IsNone(w.q)) => (Ok(OnRate) = NLe(NSub(MinPwf(w), "1e-9"), OnRate.pwf))
\* a lower pressure limit never produces less
Monotone == (pts # <<>> /\ ~IsNone(w.pwf)) =>
  LET v == [w EXCEPT !.pwf = NSub(@, "0.5")]
      p == NDiv(NAdd(a, NMul(J, v.pwf)), NAdd(b, J))
      q(x, at) == IF IsNone(w.q) \/ NLe(w.q, at) THEN at ELSE N(w.q)
      q1 == q(w, OnPwf.q)
      q2 == q(v, NNeg(NMul(J, NSub(p, v.pwf))))
  IN  NLe(q2, NAdd(q1, "1e-12"))
=============================================================================
