------------------------------- MODULE Scalers ------------------------------
(***************************************************************************)
(* Scalers.  A min-max scaler is [cls, lo, hi, min, max, per]: its output   *)
(* range and, after fitting, the fitted smallest and largest values, either *)
(* one per feature (per = TRUE) or one for everything (per = FALSE).        *)
(***************************************************************************)
EXTENDS Objects

Affine(v, a, b, lo, hi) == NAdd(NDiv(NMul(NSub(hi, lo), NSub(v, a)), NSub(b, a)), lo)

(* --------------------------- scaler objects ---------------------------- *)
ScalerDefOk(def) == def.cls \in {"MinMax", "Dummy"}
NewScaler(def) ==
  IF def.cls = "Dummy" THEN [cls |-> "Dummy", fitted |-> TRUE]
  ELSE LET ir == Arg(def, "input_range", None)
           or == def.output_range
       IN  [cls |-> "MinMax", lo |-> N(or[1]), hi |-> N(or[2]), per |-> FALSE,
            fitted |-> ~IsNone(ir),
            min |-> IF IsNone(ir) THEN None ELSE <<N(ir[1])>>,
            max |-> IF IsNone(ir) THEN None ELSE <<N(ir[2])>>]

\* an array argument: given, or the saved result of an earlier call
ArrArg(vals, v) == IF Has(v, "$val") THEN vals[v["$val"]] ELSE [sh |-> v.sh, v |-> v["$arr"]]
\* features: the columns of a table, or everything
Features(sh) == IF Len(sh) = 2 THEN sh[2] ELSE 1
FeatureOf(sh, n) == IF Len(sh) = 2 THEN 1 + ((n - 1) % sh[2]) ELSE 1
Column(arr, k) == SelectSeq([n \in 1..Len(arr.v) |-> IF FeatureOf(arr.sh, n) = k THEN arr.v[n] ELSE None],
                            LAMBDA x : ~IsNone(x))
AxisOf(a) == Arg(a, "axis", 0)
FitOk(o, arr, axis) == o.cls = "Dummy" \/ ~(Len(arr.sh) > 2 /\ ~IsStr(axis))
\* "all": one range for all values ("None" in calls is written as "null")
Fit(o, arr, axis) ==
  IF o.cls = "Dummy" THEN o
  ELSE LET per == ~IsStr(axis) /\ Len(arr.sh) = 2
           seqs == IF per THEN [k \in 1..Features(arr.sh) |-> Column(arr, k)] ELSE <<arr.v>>
       IN  [o EXCEPT !.fitted = TRUE, !.per = per,
                     !.min = [k \in 1..Len(seqs) |-> NMinSeq(seqs[k])],
                     !.max = [k \in 1..Len(seqs) |-> NMaxSeq(seqs[k])]]
Feat(o, arr, n) == IF o.per THEN FeatureOf(arr.sh, n) ELSE 1
Rescale(o, arr) ==
  IF o.cls = "Dummy" THEN arr
  ELSE [sh |-> arr.sh,
        v |-> [n \in 1..Len(arr.v) |-> LET k == Feat(o, arr, n) IN
                                        Affine(arr.v[n], o.min[k], o.max[k], o.lo, o.hi)]]
Unscale(o, arr) ==
  IF o.cls = "Dummy" THEN arr
  ELSE [sh |-> arr.sh,
        v |-> [n \in 1..Len(arr.v) |-> LET k == Feat(o, arr, n) IN
                                        Affine(arr.v[n], o.lo, o.hi, o.min[k], o.max[k])]]
ScalerCalls == {"fit", "transform", "inverse_transform", "fit_transform", "set_output_range"}
ScalerLegal(o, vals, m, a) ==
  CASE m = "set_output_range" -> TRUE
    [] m \in {"fit", "fit_transform"} -> FitOk(o, ArrArg(vals, a.v), AxisOf(a))
    [] m = "transform" -> o.fitted
    [] m = "inverse_transform" -> o.fitted
ScalerArr(vals, m, a) == ArrArg(vals, IF m = "inverse_transform" THEN a.vbar ELSE a.v)
ScalerAfter(o, vals, m, a) ==
  CASE m = "set_output_range" ->
         IF o.cls = "Dummy" THEN o ELSE [o EXCEPT !.lo = N(a.output_range[1]), !.hi = N(a.output_range[2])]
    [] m \in {"fit", "fit_transform"} -> Fit(o, ArrArg(vals, a.v), AxisOf(a))
    [] OTHER -> o
\* value of a call and the absolute error that rounding may cause
ScalerResult(o, vals, m, a) ==
  LET arr == ScalerArr(vals, m, a)
      o2  == ScalerAfter(o, vals, m, a)
  IN  CASE m \in {"transform", "fit_transform"} -> Rescale(o2, arr)
        [] m = "inverse_transform" -> Unscale(o, arr)
        [] OTHER -> [sh |-> <<>>, v |-> <<>>]
ScalerTol(o, res) ==
  IF o.cls = "Dummy" THEN NMul("1e-9", NMaxAbs(res))
  ELSE NMul("1e-9", NAdd(NAdd(NAbs(o.lo), NAbs(o.hi)),
                         NAdd(NMaxAbs(res), NAdd(NMaxAbs(o.min), NMaxAbs(o.max)))))

(* --------------------- scaler settings of a model ---------------------- *)
ScalerAliases ==
  [time |-> {"t", "time"}, space |-> {"space", "spatial", "xyz", "x", "y", "z"},
   pressure |-> {"p", "pressures", "pressure"}, rate |-> {"q", "rates", "rate"}]
KnownQuantity(s) == \E k \in DOMAIN ScalerAliases : Lower(s) \in ScalerAliases[k]
QuantityOf(s) == CHOOSE k \in DOMAIN ScalerAliases : Lower(s) \in ScalerAliases[k]
\* settings are given as <<quantity, <<type, range>>>> pairs
Settings(a) == a.scalers_dict["$dict"]
MinMaxNames == {"minmax", "minmaxscaler"}
NoScaling(s) == IsNone(s[1]) \/ IsNone(s[2])
SettingOk(s) == KnownQuantity(s[1]) /\ (NoScaling(s[2]) \/ Lower(s[2][1]) \in MinMaxNames)
SettingsOk(a) == \A n \in 1..Len(Settings(a)) : SettingOk(Settings(a)[n])
RECURSIVE PutSettings(_, _)
PutSettings(sc, ss) ==
  IF ss = <<>> THEN sc
  ELSE LET s == ss[1]
           new == IF NoScaling(s[2]) THEN None ELSE <<N(s[2][2][1]), N(s[2][2][2])>>
           k   == QuantityOf(s[1])
           sc2 == TLCEval([q \in DOMAIN sc |-> IF q = k THEN new ELSE sc[q]])
       IN  PutSettings(sc2, Tail(ss))
DefaultScalers == [time |-> <<N(0), N(1)>>, space |-> <<N(-1), N(1)>>, pressure |-> <<N(-1), N(1)>>, rate |-> None]
=============================================================================
