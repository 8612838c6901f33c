------------------------------ MODULE GenScaler ------------------------------
(***************************************************************************)
(* Behaviours of scaler objects: several scalers that are fitted, used,     *)
(* given other ranges and used again, in any interleaving, on arrays of one *)
(* to three axes; results are fed back (round trips).  Requests that must   *)
(* be rejected are included.                                                *)
(***************************************************************************)
EXTENDS GenLib, World

NCases  == EnvInt("GEN_CASES", 100)
Depth   == EnvInt("GEN_DEPTH", 16)
OutFile == Env("GEN_OUT")

Scs == <<1, 2, 3>>
Ranges == << <<0, 1>>, <<-1, 1>>, <<1, 0>>, <<N("-2.5"), N("7.5")>>, <<10, 1000>>, <<N("0.001"), N("0.002")>> >>
InRanges == << <<0, 100>>, <<-50, 50>>, <<N("0.5"), 2>>, <<100, -20>> >>
Def(key) ==
  IF Chance(<<key, "dummy">>, 15) THEN [cls |-> "Dummy", output_range |-> Pick(<<key, "or">>, <<"None", <<0, 1>>>>)]
  ELSE LET d == [cls |-> "MinMax", output_range |-> Pick(<<key, "or">>, Ranges)]
       IN  IF Chance(<<key, "ir">>, 30) THEN d @@ ("input_range" :> Pick(<<key, "irv">>, InRanges)) ELSE d
Setup(key) == [n \in 1..Len(Scs) |-> [op |-> "new", on |-> "scaler", i |-> Scs[n], def |-> Def(<<key, n>>)]]

Shapes3D == << <<2>>, <<3>>, <<6>>, <<2, 1>>, <<3, 2>>, <<4, 3>>, <<2, 5>>, <<5, 1>>, <<2, 2, 2>>, <<3, 1, 2>>, <<2, 3, 2>> >>
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
\* distinct values in every column, so that the fitted range is not empty
Value(key, n, kind) ==
  CASE kind = 0 -> N(37 * n + Rnd(<<key, n>>, 30) - 100)
    [] kind = 1 -> NAdd(NMul("12.25", n), NMul("0.01", Rnd(<<key, n>>, 1000)))
    [] kind = 2 -> NSub(NMul("0.004", Rnd(<<key, n>>, 3)), NMul("0.02", n))
    [] kind = 4 -> NMul("0.0000125", 10 * n + Rnd(<<key, n>>, 7) - 40)
    [] kind = 3 -> NMul(IF n % 2 = 0 THEN N(1) ELSE N(-1), N(1000 * n + Rnd(<<key, n>>, 500)))
Arr(key, sh) ==
  LET n == Prod(sh)
      kind == Rnd(<<key, "kind">>, 5)
      perm == Shuffle(<<key, "perm">>, [m \in 1..n |-> m])
      \* rows are shuffled as a whole, so that columns stay distinct
      v0 == [m \in 1..n |-> Value(key, perm[m], kind)]
      \* missing values are ignored when fitting and stay missing
      v == IF sh[1] >= 3 /\ Chance(<<key, "nan">>, 25) THEN [v0 EXCEPT ![1 + Rnd(<<key, "at">>, n)] = N("NaN")] ELSE v0
  IN  IF kind = 0 /\ Chance(<<key, "int">>, 40)
      THEN ("$arr" :> [m \in 1..n |-> 37 * perm[m] + Rnd(<<key, perm[m]>>, 30) - 100]) @@ ("sh" :> sh) @@ ("dtype" :> "int64")
      ELSE ("$arr" :> v) @@ ("sh" :> sh)
Sc(i, m, a) == [op |-> "call", on |-> "scaler", i |-> i, m |-> m, a |-> a]
\* an array the scaler was fitted for: per feature, the number of columns is fixed
ShapeWidth(o) == IF o.cls = "Dummy" THEN 0 ELSE IF ~o.fitted THEN 0 ELSE IF o.per THEN Len(o.min) ELSE 0
Like(key, o) ==
  LET w == ShapeWidth(o)
  IN  IF w = 0 THEN Pick(<<key, "sh">>, Shapes3D) ELSE <<Between(<<key, "rows">>, 1, 4), w>>
\* the result of an earlier call can be used again when it has the right form
Usable(w, o) == SortedSeq({n \in DOMAIN w.vals : ShapeWidth(o) = 0 \/ (Len(w.vals[n].sh) = 2 /\ w.vals[n].sh[2] = ShapeWidth(o))})
ArgOf(key, w, o) ==
  LET us == Usable(w, o) IN
  IF us # <<>> /\ Chance(<<key, "back">>, 45) THEN ("$val" :> Pick(<<key, "val">>, us)) ELSE Arr(key, Like(key, o))
Gen(key, w, k) ==
  LET i  == Pick(<<key, "i">>, Scs)
      o  == w.scaler[i]
      r  == Rnd(<<key, "r">>, 20)
      sh == Pick(<<key, "fsh">>, Shapes3D)
      ax == IF Len(sh) > 2 THEN (IF Chance(<<key, "bad">>, 35) THEN Pick(<<key, "ax0">>, <<[axis |-> 0], None0>>) ELSE [axis |-> "None"])
            ELSE Pick(<<key, "ax">>, <<[axis |-> 0], [axis |-> "None"], None0>>)
      kept(op, name) == op @@ ("$in" :> name)
      rows1 == sh[1] = 1 \/ (Len(sh) = 2 /\ sh[1] = 1)
  IN  CASE r < 4 -> kept(Sc(i, "fit", ("v" :> Arr(key, sh)) @@ ax), "v") @@ ("drop" :> TRUE)
        [] r < 7 -> kept(Sc(i, "fit_transform", ("v" :> Arr(key, sh)) @@ ax), "v") @@ ("save" :> k)
        [] r < 12 -> kept(Sc(i, "transform", ("v" :> ArgOf(key, w, o))), "v") @@ ("save" :> k)
        [] r < 17 -> kept(Sc(i, "inverse_transform", ("vbar" :> ArgOf(key, w, o))), "vbar") @@ ("save" :> k)
        [] OTHER -> Sc(i, "set_output_range", [output_range |-> Pick(<<key, "nor">>, Ranges)]) @@ ("drop" :> TRUE)
\* values stay moderate, so that rounding stays small against the tolerance
Moderate(w) == \A n \in DOMAIN w.vals : NLe(NMaxAbs(w.vals[n].v), "1e7")

VARIABLES c, k, w, ops
After1(ww, e) == IF AllLegal(ww, e) THEN TLCEval(Apply(ww, e)) ELSE ww
RECURSIVE AfterAll(_, _)
AfterAll(ww, es) == IF es = <<>> THEN ww ELSE AfterAll(TLCEval(After1(ww, Head(es))), Tail(es))
Init == /\ c \in 1..NCases
        /\ k = 0
        /\ LET es == Setup(<<Seed, "scaler", c>>) IN w = AfterAll(NewWorld([rows |-> <<>>]), es) /\ ops = es
Step == /\ k < Depth
        /\ LET e  == TLCEval(Gen(<<Seed, "scaler", c, k>>, w, k))
               w1 == TLCEval(After1(w, e))
           IN  IF Moderate(w1) THEN w' = w1 /\ ops' = Append(ops, e) ELSE UNCHANGED <<w, ops>>
        /\ k' = k + 1 /\ c' = c
Write == /\ k = Depth
         /\ Dump(OutFile, [id |-> Cat(<<"scaler-", c>>), ops |-> ops])
         /\ k' = k + 1
         /\ UNCHANGED <<c, w, ops>>
Next == Step \/ Write
View == <<c, k>>
=============================================================================
