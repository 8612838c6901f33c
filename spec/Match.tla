------------------------------- MODULE Match --------------------------------
(***************************************************************************)
(* Expected answers and their comparison with what was observed.  An        *)
(* observed result is the normal form written by the harness: a number,     *)
(* string, boolean, "None", or a record whose field k tells the kind (arr,  *)
(* list, tuple, set, dict, mat, df).                                        *)
(* Match is total: an observation of an unexpected kind does not match.     *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, SequencesExt, TLC

ENum(v)       == [t |-> "num", v |-> v, rel |-> "1e-9"]
EInt(v)       == [t |-> "int", v |-> v]
EStr(v)       == [t |-> "str", v |-> v]
EBool(v)      == [t |-> "bool", v |-> v]
ENone         == [t |-> "none"]
EArr(sh, v)   == [t |-> "arr", sh |-> sh, v |-> v, rel |-> "1e-9"]
ESeq(k, v)    == [t |-> "seq", k |-> k, v |-> v]        \* in this order
EBag(k, v)    == [t |-> "bag", k |-> k, v |-> v]        \* in any order
EBagArr(v)    == [t |-> "bagarr", v |-> v]              \* flat array, any order
EDict(v)      == [t |-> "dict", v |-> v]                \* <<key, bag>> pairs
EMap(v)       == [t |-> "map", v |-> v]                 \* <<key, number>> pairs
EMat(sh, v)   == [t |-> "mat", sh |-> sh, v |-> v]      \* <<i, j, number>> triples
ECols(v)      == [t |-> "cols", v |-> v]
EAbs(sh, v, tol) == [t |-> "abs", sh |-> sh, v |-> v, tol |-> tol]  \* up to an absolute error
ETup(k, es)   == [t |-> "tup", k |-> k, v |-> es]       \* a sequence of expectations
EFlat(k, v)   == [t |-> "flat", k |-> k, v |-> v]       \* possibly nested, in this order
ESet(v)       == [t |-> "set", v |-> v]                 \* the distinct values of v
EKept(e)      == [t |-> "kept", e |-> e]                \* and the argument is not modified
EErr          == [t |-> "err"]
EAny          == [t |-> "any"]
EFree         == [t |-> "free"]                         \* anything, including an error
Loose(e, rel) == [e EXCEPT !.rel = rel]

Kind(r, k) == Has(r, "k") /\ Has(r, "v") /\ r.k = k

\* numbers and nested sequences of numbers; strings
RECURSIVE SameItem(_, _)
SameItem(a, b) ==
  IF IsStr(a) \/ IsStr(b) THEN IsStr(a) /\ IsStr(b) /\ a = b
  ELSE IF IsBool(a) \/ IsBool(b) THEN IsBool(a) /\ IsBool(b) /\ a = b
  ELSE IF NIsNum(a) \/ NIsNum(b) THEN NIsNum(a) /\ NIsNum(b) /\ NRel(a, b, "1e-9")
  ELSE IF IsSeq(a) /\ IsSeq(b)
       THEN Len(a) = Len(b) /\ \A n \in 1..Len(a) : SameItem(a[n], b[n])
       ELSE FALSE

SameSeq(a, b) == IsSeq(a) /\ IsSeq(b) /\ SameItem(a, b)
\* as multisets; items are integers or sequences of integers
Occ(s, x) == Cardinality({n \in 1..Len(s) : SameItem(s[n], x)})
IsIntItem(a) == IsInt(a) \/ (IsSeq(a) /\ \A n \in 1..Len(a) : IsInt(a[n]))
SameBag(a, b) ==
  /\ IsSeq(a) /\ IsSeq(b) /\ Len(a) = Len(b)
  /\ IF Len(a) = 0 THEN TRUE
     ELSE IF \A n \in 1..Len(a) : IsIntItem(a[n])
     THEN (\A n \in 1..Len(b) : IsIntItem(b[n]))
          /\ LET flat(s) == [n \in 1..Len(s) |-> IF IsInt(s[n]) THEN <<s[n]>> ELSE s[n]]
                 srt(s)  == SortSeq(flat(s), LAMBDA x, y :
                              \E m \in 1..Len(x) : m <= Len(y) /\ x[m] < y[m]
                                   /\ \A q \in 1..(m - 1) : x[q] = y[q])
             IN  srt(a) = srt(b)
     ELSE \A n \in 1..Len(a) : Occ(a, a[n]) = Occ(b, a[n])
NoDup(s) == \A m, n \in 1..Len(s) : m # n => ~SameItem(s[m], s[n])

ArrClose(e, v) ==
  Len(v) = Len(e.v) /\ \A n \in 1..Len(v) : NIsNum(v[n]) /\ NRel(e.v[n], v[n], e.rel)

Lookup(pairs, key) ==
  LET hits == {n \in 1..Len(pairs) : SameItem(pairs[n][1], key)}
  IN  IF hits = {} THEN 0 ELSE CHOOSE n \in hits : TRUE

\* a flat result in one of the output formats
Items(r) ==
  IF Kind(r, "arr")
  THEN IF Len(r.sh) = 1 THEN r.v
       ELSE LET w == r.sh[2] IN [n \in 1..r.sh[1] |-> SubSeq(r.v, (n - 1) * w + 1, n * w)]
  ELSE r.v
OfKind(r, k) == Kind(r, IF k = "array" THEN "arr" ELSE k)

\* a table: cells of number columns may differ by tol
SameCell(a, b, tol) ==
  IF IsStr(a) \/ IsStr(b) THEN IsStr(a) /\ IsStr(b) /\ a = b
  ELSE NIsNum(a) /\ NIsNum(b) /\ (NRel(a, b, "1e-9") \/ NClose(a, b, tol))
TableSame(e, r) ==
  /\ Kind(r, "df") /\ Has(r, "cols") /\ r.cols = e.cols
  /\ Len(r.idx) = Len(e.idx) /\ (\A n \in 1..Len(e.idx) : NEq(r.idx[n], e.idx[n]))
  /\ IsStr(r.iname) /\ r.iname = e.iname
  /\ Len(r.v) = Len(e.v)
  /\ \A k \in 1..Len(e.v) : /\ Len(r.v[k]) = Len(e.v[k])
                            /\ \A n \in 1..Len(e.v[k]) : SameCell(e.v[k][n], r.v[k][n], e.tol)

RECURSIVE FlatItems(_)
FlatItems(r) ==
  IF IsStr(r) \/ IsBool(r) \/ NIsNum(r) THEN <<r>>
  ELSE IF Has(r, "k") /\ Has(r, "v") THEN (IF Kind(r, "arr") THEN r.v ELSE FlatItems(r.v))
  ELSE IF IsSeq(r) THEN FlattenSeq([n \in 1..Len(r) |-> FlatItems(r[n])])
  ELSE <<"?">>
RECURSIVE DistinctOf(_)
DistinctOf(s) == IF Len(s) = 0 THEN <<>>
               ELSE LET r == DistinctOf(SubSeq(s, 1, Len(s) - 1)) IN
                    IF \E n \in 1..Len(r) : SameItem(r[n], s[Len(s)]) THEN r ELSE Append(r, s[Len(s)])

RECURSIVE Match(_, _, _)
Match(e, ok, r) ==
  IF e.t = "free" THEN TRUE
  ELSE IF e.t = "err" THEN ~ok
  ELSE IF ~ok THEN FALSE
  ELSE CASE e.t = "any"  -> TRUE
    [] e.t = "none" -> IsStr(r) /\ r = "None"
    [] e.t = "num"  -> NIsNum(r) /\ NRel(e.v, r, e.rel)
    [] e.t = "int"  -> NIsNum(r) /\ NEq(e.v, r)
    [] e.t = "str"  -> IsStr(r) /\ r = e.v
    [] e.t = "bool" -> IsBool(r) /\ r = e.v
    [] e.t = "arr"  -> Kind(r, "arr") /\ r.sh = e.sh /\ ArrClose(e, r.v)
    [] e.t = "seq"  -> OfKind(r, e.k) /\ SameSeq(Items(r), e.v)
    [] e.t = "flat" -> OfKind(r, e.k) /\ SameSeq(FlatItems(r), e.v)
    [] e.t = "set"  -> OfKind(r, "set") /\ SameBag(r.v, DistinctOf(e.v))
    [] e.t = "bag"  -> OfKind(r, e.k) /\ SameBag(Items(r), e.v)
    [] e.t = "bagarr" -> Kind(r, "arr") /\ SameBag(r.v, e.v)
    [] e.t = "dict" -> /\ Kind(r, "dict") /\ Len(r.v) = Len(e.v)
                       /\ \A n \in 1..Len(e.v) :
                            LET m == Lookup(r.v, e.v[n][1])
                            IN  IF m = 0 THEN FALSE
                                ELSE LET x == r.v[m][2]
                                     IN  SameBag(IF Has(x, "v") THEN Items(x) ELSE x, e.v[n][2])
    [] e.t = "map"  -> /\ Kind(r, "dict") /\ Len(r.v) = Len(e.v)
                       /\ \A n \in 1..Len(e.v) :
                            LET m == Lookup(r.v, e.v[n][1])
                            IN  IF m = 0 THEN FALSE
                                ELSE NIsNum(r.v[m][2]) /\ NRel(e.v[n][2], r.v[m][2], "1e-9")
    [] e.t = "cols" -> /\ Kind(r, "dict") /\ Len(r.v) = Len(e.v)
                       /\ \A n \in 1..Len(e.v) :
                            LET m == Lookup(r.v, e.v[n][1])
                            IN  IF m = 0 THEN FALSE
                                ELSE /\ Kind(r.v[m][2], "arr")
                                     /\ SameSeq(r.v[m][2].v, e.v[n][2])
    [] e.t = "mat"  -> /\ Kind(r, "mat") /\ r.sh = e.sh /\ Len(r.v) = Len(e.v)
                       /\ \A n \in 1..Len(e.v) :
                            /\ r.v[n][1] = e.v[n][1] /\ r.v[n][2] = e.v[n][2]
                            /\ NRel(e.v[n][3], r.v[n][3], "1e-9")
    [] e.t = "abs"  -> Kind(r, "arr") /\ r.sh = e.sh /\ NCloseSeq(e.v, r.v, e.tol)
    [] e.t = "tup"  -> Kind(r, e.k) /\ Len(r.v) = Len(e.v) /\ (\A n \in 1..Len(e.v) : Match(e.v[n], TRUE, r.v[n]))
    [] e.t = "kept" -> Kind(r, "kept") /\ r.same = TRUE /\ Match(e.e, TRUE, r.v)
    [] e.t = "df"   -> TableSame(e, r)
    [] OTHER -> FALSE
=============================================================================
