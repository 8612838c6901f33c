-------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Conformance of recorded executions with the specification.               *)
(*                                                                          *)
(* TRACE is a file with one execution per line (see harness/driver.py).     *)
(* There is one initial state per execution; every step takes the next      *)
(* event, evaluates the clauses of the property PROP on it, reports those   *)
(* that fail and goes on from the state that the specification and the      *)
(* observation agree on.  All executions are checked completely:            *)
(* the number of distinct states is the sum of (events + 1).                *)
(***************************************************************************)
EXTENDS World

Runs == LoadLines(Env("TRACE"))
VARIABLES c, l, w
vars == <<c, l, w>>

Ev == Runs[c].ev
Report(fails, n) ==
  \A k \in 1..Len(fails) : PrintT(Cat(<<"FAIL|", Runs[c].id, "|", n, "|", fails[k], "|">>))

Init == /\ c \in 1..Len(Runs)
        /\ l = 1
        /\ w = NewWorld(Runs[c])
        /\ (Has(Runs[c], "timeout") => PrintT(Cat(<<"TIMEOUT|", Runs[c].id>>)))
Step == /\ l <= Len(Ev)
        /\ LET e  == Resolved(w, Ev[l])
               w2 == TLCEval(After(w, e))
           IN  /\ Report(TLCEval(Failed(w, w2, e)), l)
               /\ w' = w2
        /\ l' = l + 1
        /\ c' = c
Next == Step
View == <<c, l>>
=============================================================================
