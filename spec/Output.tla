------------------------------- MODULE Output -------------------------------
(***************************************************************************)
(* What a model reports about its history: tables, times, centres.          *)
(* The values are those of the observed solution; the specification says    *)
(* which of them appear where.                                              *)
(***************************************************************************)
EXTENDS Session

UnitLabels ==
  [field  |-> [time |-> "days", pressure |-> "psia", rate |-> "stb/day"],
   metric |-> [time |-> "days", pressure |-> "kpa", rate |-> "m^3/day"],
   lab    |-> [time |-> "sec", pressure |-> "atm", rate |-> "cm^3/sec"]]

ColumnNames ==
  [time |-> {"t", "time"}, date |-> {"d", "date"},
   cells_rate |-> {"q", "rates", "cells", "cells_rate"},
   cells_pressure |-> {"p", "pressures", "cells", "cells_pressure"},
   wells_rate |-> {"q", "rates", "wells", "wells_rate"},
   wells_pressure |-> {"p", "pressures", "wells", "wells_pressure"}]
ColumnOrder == <<"time", "date", "cells_rate", "cells_pressure", "wells_rate", "wells_pressure">>
KnownColumn(s) == \E k \in DOMAIN ColumnNames : Lower(s) \in ColumnNames[k]
ColumnsOf(s) == SelectSeq(ColumnOrder, LAMBDA k : Lower(s) \in ColumnNames[k])

FlowAxes(g) == FlowDirs(g)
CentreAt(g, a, i) == CentreAlong(g, a, CoordsOf(g, i)[AxisNo(a)])

(* ------------------------------ scaling -------------------------------- *)
\* a fitted scaling: "None", or <<smallest, largest, lo, hi>>
Fitted(range, seq) ==
  IF IsNone(range) THEN None
  ELSE IF seq = <<>> THEN <<N(0), N(0), range[1], range[2]>>
  ELSE <<NMinSeq(seq), NMaxSeq(seq), range[1], range[2]>>
\* values that are (nearly) all the same cannot be scaled
Degenerate(f) == ~IsNone(f) /\
  NLe(NSub(f[2], f[1]), NMul("1e-6", NMax(NAbs(f[1]), NAbs(f[2]))))
ScaleTol(sc) == NMul("1e-8", NSum([n \in 1..4 |-> LET r == <<sc.time, sc.space, sc.pressure, sc.rate>>[n] IN
                                        IF IsNone(r) THEN N(0) ELSE NAdd(NAbs(r[1]), NAbs(r[2]))]))
Scaled(f, v) == IF IsNone(f) THEN v ELSE IF NIsNaN(v) THEN v ELSE Affine(v, f[1], f[2], f[3], f[4])
ScaledSeq(f, s) == IF IsNone(f) THEN s ELSE TLCEval([n \in 1..Len(s) |-> Scaled(f, s[n])])

Times(m, n) == TLCEval([k \in 1..n |-> NMul(k - 1, m.dt)])
TimeFit(m, n) == Fitted(m.sc.time, Times(m, n))
SpaceFit(m, a) == LET g == m.go.d IN Fitted(m.sc.space, [k \in 1..NAll(g) |-> CentreAt(g, a, k - 1)])
AllSame(s, x) == \A n \in 1..Len(s) : NIsNum(s[n]) /\ NSame(s[n], x)
AllNaN(s)  == \A n \in 1..Len(s) : NIsNum(s[n]) /\ NIsNaN(s[n])
AllZero(s) == \A n \in 1..Len(s) : NIsNum(s[n]) /\ ~NIsNaN(s[n]) /\ NEq(s[n], 0)
ColOf(rows, i) == [k \in 1..Len(rows) |-> At(rows[k], i)]
\* the values a scaler is fitted to: cells whose values are all missing or all zero are left out
FitValues(m, rows) ==
  FlattenSeq(MapSeq(AllIds(m.go.d), LAMBDA i : LET s == ColOf(rows, i) IN
                                               IF AllNaN(s) \/ AllZero(s) THEN <<>> ELSE s))

(* ------------------------------- tables -------------------------------- *)
\* everything the columns need
Data(w, i) ==
  LET m == w.model[i]  o == ObsOf(w, i)  s == SolOf(o, m.cur)
      p == MapSeq(s.p, LAMBDA r : Row(w, r))
      q == MapSeq(s.q, LAMBDA r : Row(w, r))
  IN  [m |-> m, n |-> Len(s.p), p |-> p, q |-> q, w |-> s.w, wells |-> MapSeq(o.wells, LAMBDA x : x.c)]
Fits(d) == [time |-> TimeFit(d.m, d.n), pressure |-> Fitted(d.m.sc.pressure, FitValues(d.m, d.p)),
            rate |-> Fitted(d.m.sc.rate, FitValues(d.m, d.q))]
NoFits == [time |-> None, pressure |-> None, rate |-> None]

Label(d, a, fits, quantity) ==
  IF ~Arg(a, "units", FALSE) THEN ""
  ELSE IF Arg(a, "scale", FALSE) /\ ~IsNone(d.m.sc[quantity]) THEN " [scaled]"
  ELSE Cat(<<" [", UnitLabels[d.m.unit][quantity], "]">>)
DateOf(m, t) == DatePlus(m.date["$date"][1], m.date["$date"][2], m.date["$date"][3], NFloor(t))

\* columns of one kind as <<name, values>> pairs
Group(d, a, fits, kind) ==
  LET melt  == Arg(a, "melt", FALSE)
      ids   == IF Arg(a, "boundary", TRUE) THEN AllIds(d.m.go.d) ELSE InnerIds(d.m.go.d)
      each(s) == IF melt THEN FlattenSeq(MapSeq(s, LAMBDA x : [k \in 1..Len(ids) |-> x])) ELSE s
      lab(q) == Label(d, a, fits, q)
      cells(rows, q, ch) ==
        IF melt THEN << <<Cat(<<ch, lab(q)>>),
                          FlattenSeq(MapSeq(rows, LAMBDA r : ScaledSeq(fits[q], MapSeq(ids, LAMBDA i : At(r, i)))))>> >>
        ELSE MapSeq(ids, LAMBDA i : <<Cat(<<ch, i, lab(q)>>), ScaledSeq(fits[q], ColOf(rows, i))>>)
  IN  CASE kind = "time" -> << <<Cat(<<"Time", lab("time")>>), each(ScaledSeq(fits.time, Times(d.m, d.n)))>> >>
        [] kind = "date" -> << <<IF Arg(a, "units", FALSE) THEN "Date [d.m.y]" ELSE "Date",
                                 each(MapSeq(Times(d.m, d.n), LAMBDA t : DateOf(d.m, t)))>> >>
        [] kind = "cells_rate" -> cells(d.q, "rate", "Q")
        [] kind = "cells_pressure" -> cells(d.p, "pressure", "P")
        [] kind = "wells_rate" ->
             IF melt THEN <<>>
             ELSE MapSeq(d.wells, LAMBDA c : <<Cat(<<"Qw", c, lab("rate")>>), ScaledSeq(fits.rate, ColOf(d.q, c))>>)
        [] kind = "wells_pressure" ->
             IF melt THEN <<>>
             ELSE MapSeq(d.w, LAMBDA x : <<Cat(<<"Pwf", x[1], lab("pressure")>>), ScaledSeq(fits.pressure, x[2])>>)
\* the leading columns of a melted table
Base(d, a) ==
  LET g == d.m.go.d
      ids == IF Arg(a, "boundary", TRUE) THEN AllIds(g) ELSE InnerIds(g)
      per(s) == FlattenSeq([k \in 1..d.n |-> s])
      axis(x) == <<x, per(ScaledSeq(IF Arg(a, "scale", FALSE) THEN SpaceFit(d.m, x) ELSE None,
                                    MapSeq(ids, LAMBDA i : CentreAt(g, x, i))))>>
  IN  << <<"id", per(ids)>>, <<"Step", FlattenSeq([k \in 1..d.n |-> [j \in 1..Len(ids) |-> k - 1]])>> >>
      \o MapSeq(FlowAxes(g), axis)

Missing(v) == NIsNum(v) /\ NIsNaN(v)
Table(d, a) ==
  LET melt == Arg(a, "melt", FALSE)
      fits == TLCEval(IF Arg(a, "scale", FALSE) THEN Fits(d) ELSE NoFits)
      cols == TLCEval((IF melt THEN Base(d, a) ELSE <<>>)
              \o FlattenSeq(MapSeq(a.columns, LAMBDA c : FlattenSeq(MapSeq(ColumnsOf(c), LAMBDA k : Group(d, a, fits, k))))))
      dn   == Arg(a, "drop_nan", TRUE)  dz == Arg(a, "drop_zero", TRUE)
      kept == SelectSeq(cols, LAMBDA c : ~((dn /\ AllNaN(c[2])) \/ (dz /\ AllZero(c[2]))))
      len  == Len(cols[1][2])
      rows == TLCEval(SelectSeq([n \in 1..len |-> n], LAMBDA n : ~(dn /\ \E k \in 1..Len(cols) : Missing(cols[k][2][n]))))
      out  == IF melt THEN MapSeq(cols, LAMBDA c : <<c[1], MapSeq(rows, LAMBDA n : c[2][n])>>) ELSE kept
  IN  [t |-> "df", tol |-> IF Arg(a, "scale", FALSE) THEN ScaleTol(d.m.sc) ELSE N(0), cols |-> MapSeq(out, LAMBDA c : c[1]), v |-> MapSeq(out, LAMBDA c : c[2]),
       idx |-> [n \in 1..(IF melt THEN Len(rows) ELSE d.n) |-> n - 1], iname |-> IF melt THEN None ELSE "Step"]
\* scaling one value, or values that are all the same, is not defined
Scalable(d, a) ==
  ~Arg(a, "scale", FALSE) \/
  LET f == Fits(d) IN ~Degenerate(f.time) /\ ~Degenerate(f.pressure) /\ ~Degenerate(f.rate)
     /\ (\A x \in Range(FlowDirs(d.m.go.d)) : ~Degenerate(SpaceFit(d.m, x)))
DefaultColumns == <<"time", "cells", "wells">>
TableAnswer(w, e) ==
  LET a == e.a @@ ("columns" :> DefaultColumns) IN
  IF ~\A n \in 1..Len(a.columns) : KnownColumn(a.columns[n]) THEN EErr
  ELSE IF w.model[e.i].cur = "" THEN EFree
  ELSE LET d == Data(w, e.i) IN
       IF ~Scalable(d, a) THEN EFree ELSE Table(d, a)

(* --------------------------- times and centres ------------------------- *)
TimeAnswer(m, n, scale) ==
  IF scale /\ Degenerate(TimeFit(m, n)) THEN EFree
  ELSE EAbs(<<n, 1>>, ScaledSeq(IF scale THEN TimeFit(m, n) ELSE None, Times(m, n)),
            NMul("1e-9", NAdd(NMul(n, m.dt), IF scale THEN ScaleTol(m.sc) ELSE N(0))))
CentersArr(m, scale, boundary) ==
  LET g == m.go.d
      ax == FlowAxes(g)
      ids == IF boundary THEN AllIds(g) ELSE InnerIds(g)
  IN  EAbs(<<Len(ids), Len(ax)>>,
           FlattenSeq(MapSeq(ids, LAMBDA i : MapSeq(ax, LAMBDA x :
              Scaled(IF scale THEN SpaceFit(m, x) ELSE None, CentreAt(g, x, i))))),
           IF scale THEN NAdd(ScaleTol(m.sc), "1e-7") ELSE N("1e-7"))
OutputNames == {"get_df", "get_time", "get_centers", "get_domain"}
OutputAnswer(w, e) ==
  LET m == w.model[e.i]
      n == IF m.cur = "" THEN 1 ELSE Len(SolOf(ObsOf(w, e.i), m.cur).p)
      sc == Arg(e.a, "scale", FALSE)
      bd == Arg(e.a, "boundary", TRUE)
  IN  CASE e.m = "get_df" -> TableAnswer(w, e)
        [] e.m = "get_time" -> TimeAnswer(m, n, sc)
        [] e.m = "get_centers" -> ETup("tuple", <<CentersArr(m, sc, bd), ESeq("list", FlowAxes(m.go.d))>>)
        [] e.m = "get_domain" -> ETup("tuple", <<TimeAnswer(m, n, sc), CentersArr(m, sc, bd)>>)
=============================================================================
