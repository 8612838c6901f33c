------------------------------ MODULE MCSession ------------------------------
(***************************************************************************)
(* Exhaustive check of the session state machine: every sequence of         *)
(* requests up to a depth over a small model, with wells, conditions,       *)
(* several solutions and steps.  log has the requests that were carried     *)
(* out; the invariants are stated over the log, independently of how the    *)
(* state is updated.                                                        *)
(***************************************************************************)
EXTENDS Session
CONSTANTS MaxLen

Grid0  == [nx |-> 2, ny |-> 1, nz |-> 1, dx |-> 2, dy |-> 3, dz |-> 1, unit |-> "metric",
           phi |-> "0.25", kx |-> 5, comp |-> 0]
Model0 == MakeModel([grid |-> (1 :> NewGridObj(Grid0)), fluid |-> (1 :> NewFluidObj([mu |-> 1, B |-> 1, unit |-> "metric"]))],
                    [g |-> 1, f |-> 1, def |-> [unit |-> "metric", dt |-> 1, pi |-> 100]])
Call(name, a) == [op |-> "call", on |-> "model", i |-> 1, m |-> name, a |-> a]
Entry(j, co, v) == <<j, co, v>>
Requests == <<
  Call("compile", [stype |-> "numerical", method |-> "fdm", sparse |-> TRUE]),
  Call("compile", [stype |-> "num", method |-> "FDM", sparse |-> FALSE]),
  Call("compile", [stype |-> "numerical", method |-> "fvm", sparse |-> TRUE]),
  Call("compile", [stype |-> "numerical", method |-> "fdm", sparse |-> "None"]),
  Call("set_solution", [name |-> "BlackOil-numerical-FDM-True"]),
  Call("set_solution", [name |-> "other"]),
  Call("run", [nsteps |-> 2]),
  Call("solve", [isolver |-> "cgs"]),
  Call("solve", [isolver |-> "nope"]),
  Call("set_well", [cell_id |-> 1, q |-> -5, r |-> 1]),
  Call("set_well", [cell_id |-> 1, pwf |-> 20]),
  Call("set_well", [cell_id |-> 0, q |-> -5, r |-> 1]),
  Call("set_well", [cell_id |-> 2, pwf |-> 20]),
  Call("set_boundary", [cell_b_id |-> 0, cond |-> "pressure", v |-> 90]),
  Call("set_boundary", [cell_b_id |-> 0, cond |-> "Q", v |-> 3]),
  Call("set_boundary", [cell_b_id |-> 1, cond |-> "rate", v |-> 3]),
  Call("set_boundaries", [bdict |-> ("$bdict" :> <<Entry(3, "grad", 1)>>)]),
  Call("set_boundaries", [bdict |-> ("$bdict" :> <<Entry(3, "grad", 1), Entry(0, "heat", 1)>>)]),
  Call("set_all_boundaries", [cond |-> "rate", v |-> 0]) >>

VARIABLES m, log
World1 == [model |-> (1 :> m)]
\* a step adds rows to the selected solution
Solved(e) ==
  LET n == StepsOf(e) IN
  IF m.cur = "" THEN m
  ELSE [m EXCEPT !.sols = Put(@, m.cur, [@[m.cur] EXCEPT !.hist = @ \o Rep(n, CondKey(m)),
             !.conds = @ \o Rep(n, InForce(m)), !.direct = @ \o Rep(n, ModeOf(m, e))])]
Init == m = Model0 /\ log = <<>>
Next == /\ Len(log) < MaxLen
        /\ \E r \in 1..Len(Requests) :
             LET e == Requests[r] IN
             IF Legal(World1, e)
             THEN m' = TLCEval(IF IsSolve(e) THEN Solved(e) ELSE Carried(m, e)) /\ log' = Append(log, r)
             ELSE UNCHANGED <<m, log>>
View == <<log>>

Ever(P(_)) == \E n \in 1..Len(log) : P(Requests[log[n]])
Positions(P(_)) == {n \in 1..Len(log) : P(Requests[log[n]])}
LastOf(S) == CHOOSE n \in S : \A k \in S : k <= n

Registry ==
  /\ NoDup(m.names) /\ {m.names[n] : n \in 1..Len(m.names)} = DOMAIN m.sols
  /\ m.cur = "" \/ m.cur \in DOMAIN m.sols
  /\ (m.cur = "") = ~Ever(LAMBDA e : e.m = "compile")
  \* one solution per kind, under the name of its kind
  /\ DOMAIN m.sols = {SolName("numerical", "FDM", Requests[log[n]].a.sparse) : n \in Positions(LAMBDA e : e.m = "compile")}
\* the selected solution is the last one compiled or chosen
Selected ==
  LET S == Positions(LAMBDA e : e.m \in {"compile", "set_solution"}) IN
  S # {} => LET e == Requests[log[LastOf(S)]] IN
            m.cur = IF e.m = "compile" THEN SolName("numerical", "FDM", e.a.sparse) ELSE e.a.name
\* rows of a solution: the steps since its last compilation during which it was selected
RECURSIVE CountRows(_, _, _, _)
CountRows(n, nm, cur, rows) ==
  IF n > Len(log) THEN rows
  ELSE LET e == Requests[log[n]] IN
       CASE e.m = "compile" -> LET x == SolName("numerical", "FDM", e.a.sparse)
                               IN  CountRows(n + 1, nm, x, IF x = nm THEN 0 ELSE rows)
         [] e.m = "set_solution" -> CountRows(n + 1, nm, e.a.name, rows)
         [] e.m \in {"run", "solve"} -> CountRows(n + 1, nm, cur, rows + (IF cur = nm THEN (IF e.m = "run" THEN 2 ELSE 1) ELSE 0))
         [] OTHER -> CountRows(n + 1, nm, cur, rows)
Rows == \A nm \in DOMAIN m.sols :
  /\ Len(m.sols[nm].hist) = CountRows(1, nm, "", 0)
  /\ Len(m.sols[nm].conds) = Len(m.sols[nm].hist) /\ Len(m.sols[nm].direct) = Len(m.sols[nm].hist)
\* every value of a well is the last one that was given
WellLast(c, f, S) == LET T == {n \in S : Has(Requests[log[n]].a, f)} IN IF T = {} THEN None ELSE Requests[log[LastOf(T)]].a[f]
WellsLast ==
  LET S(c) == Positions(LAMBDA e : e.m = "set_well" /\ e.a.cell_id = c)
      same(x, y) == IF IsNone(x) \/ IsNone(y) THEN IsNone(x) /\ IsNone(y) ELSE NEq(x, y)
  IN  /\ DOMAIN m.wells = {c \in 0..3 : S(c) # {}}
      /\ \A c \in DOMAIN m.wells : \A f \in {"q", "pwf", "r"} : same(m.wells[c][f], WellLast(c, f, S(c)))
\* the condition of a face is the last one that was given since all were replaced
Says(e, j) == CASE e.m = "set_boundary" -> e.a.cell_b_id = j
                [] e.m = "set_all_boundaries" -> TRUE
                [] e.m = "set_boundaries" -> TRUE
                [] OTHER -> FALSE
BoundaryLast ==
  \A j \in {0, 3} :
    LET S == Positions(LAMBDA e : Says(e, j)) IN
    IF S = {} THEN j \notin DOMAIN m.bc
    ELSE LET e == Requests[log[LastOf(S)]] IN
         CASE e.m = "set_boundaries" ->
                LET T == {k \in 1..Len(BEntries(e.a)) : BEntries(e.a)[k][1] = j}
                IN  IF T = {} THEN j \notin DOMAIN m.bc ELSE NEq(m.bc[j].v, BEntries(e.a)[LastOf(T)][3])
           [] OTHER -> j \in DOMAIN m.bc /\ NEq(m.bc[j].v, e.a.v) /\ m.bc[j].cond = CondOf(e.a.cond)
\* requests of the wrong kind are never carried out
Refused == ~Ever(LAMBDA e : \/ (e.m = "compile" /\ e.a.method = "fvm") \/ (e.m = "set_well" /\ e.a.cell_id = 0)
                            \/ (e.m = "set_boundary" /\ e.a.cell_b_id = 1)
                            \/ (e.m = "set_boundaries" /\ Len(BEntries(e.a)) = 2)
                            \/ (e.m = "set_solution" /\ e.a.name = "other"))
           /\ \A n \in 1..Len(log) : log[n] = 13 => FALSE
\* what was computed stays: only the compilation of the same kind starts again
AppendOnly == [][\A nm \in DOMAIN m.sols :
   /\ nm \in DOMAIN m'.sols
   /\ IsPre(m.sols[nm].hist, m'.sols[nm].hist) \/ (m'.sols[nm].hist = <<>> /\ m'.cur = nm /\ Requests[log'[Len(log')]].m = "compile")
   /\ m'.sols[nm].hist # m.sols[nm].hist => nm = m'.cur]_<<m, log>>
=============================================================================
