-------------------------------- MODULE Num --------------------------------
(***************************************************************************)
(* Real arithmetic (decimal, 50 digits), JSON files and a deterministic     *)
(* choice function.  TLC has 32-bit integers only; the operators below are  *)
(* implemented in java/Num.java.  Integers, decimal strings and numbers     *)
(* read from JSON can be mixed freely as arguments.                         *)
(***************************************************************************)
LOCAL X == CHOOSE x \in {} : TRUE

N(a)        == X   \* a number from an integer or a decimal string
NAdd(a, b)  == X
NSub(a, b)  == X
NMul(a, b)  == X
NDiv(a, b)  == X
NNeg(a)     == X
NAbs(a)     == X
NMax(a, b)  == X
NMin(a, b)  == X
NLt(a, b)   == X
NLe(a, b)   == X
NEq(a, b)   == X
NSame(a, b) == X   \* NEq, but NaN is the same as NaN
NIsNaN(a)   == X
NIsFin(a)   == X   \* a finite number (FALSE for anything else)
NIsNum(a)   == X
NSqrt(a)    == X
NLn(a)      == X
NExp(a)     == X
NSin(a)     == X
NPi         == X
NFloor(a)   == X   \* TLC integer
NRound(a, d) == X   \* rounded to d significant digits
NSum(s)     == X   \* sum of a sequence
NMaxSeq(s)  == X   \* NaN entries are ignored
NMinSeq(s)  == X
NMaxAbs(s)  == X   \* 0 for an empty sequence
NClose(a, b, tol)    == X  \* |a-b| <= tol or both NaN
NRel(a, b, rel)      == X  \* |a-b| <= rel * max(|a|,|b|) or both NaN
NCloseSeq(a, b, tol) == X  \* same length and NClose at every index

Rnd(key, n)  == X  \* a number in 0..n-1 that is a function of key
Pick(key, s) == X  \* an element of the sequence s

LoadLines(file)   == X  \* a sequence with the JSON value of each line
DumpLine(file, v) == X  \* TRUE; appends a line of JSON
ToStr(v) == X
Cat(s)   == X           \* concatenation of strings and printed values
Lower(s) == X
Env(name) == X
EnvInt(name, default) == X
IsStr(v) == X
IsInt(v) == X
IsBool(v) == X
IsSeq(v) == X
Has(r, name) == X       \* r is a record with this field
DatePlus(y, m, d, n) == X
=============================================================================
