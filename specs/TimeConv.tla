------------------------------ MODULE TimeConv ------------------------------
(***************************************************************************)
(* Conversion of timeseries between time grids (openscm.core.time).        *)
(*                                                                         *)
(* Times are rationals (seconds), grids are strictly increasing sequences  *)
(* of times.  A point series has one value per time; an average series has *)
(* one value per period between neighbouring times (one value less).       *)
(* Results are [err |-> set of allowed errors ({} = must succeed),         *)
(* val |-> values, mag |-> magnitude of the numbers involved].             *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, SequencesExt, FiniteSets

TolPoint == "1e-9"
TolAverage == "1e-9"

(* The index i of the segment [x[i], x[i+1]] used at time t (end segments  *)
(* are also used outside).                                                 *)
RECURSIVE SegFrom(_, _, _)
SegFrom(x, t, i) == IF i >= Len(x) - 1 \/ NLe(t, x[i + 1]) THEN i ELSE SegFrom(x, t, i + 1)
Seg(x, t) == SegFrom(x, t, 1)

(* Value at t of the straight line through (x0, y0), (x1, y1). *)
Line(x0, y0, x1, y1, t) == NAdd(y0, NDiv(NMul(NSub(y1, y0), NSub(t, x0)), NSub(x1, x0)))

Inside(x, t) == NLe(x[1], t) /\ NLe(t, x[Len(x)])

(* Piecewise linear curve through the points (x, y); outside, the curve is *)
(* lo / hi if ext = "constant" and continues the end segments if "linear". *)
Curve(x, y, t, ext, lo, hi) ==
  IF ext = "constant" /\ NLt(t, x[1]) THEN lo
  ELSE IF ext = "constant" /\ NLt(x[Len(x)], t) THEN hi
  ELSE LET i == Seg(x, t) IN Line(x[i], y[i], x[i + 1], y[i + 1], t)

(* How far outside the grid t lies, in units of the end segments + 1: the  *)
(* factor by which linear extrapolation magnifies rounding errors.         *)
Reach(x, t) ==
  LET n == Len(x) IN
  IF NLt(t, x[1]) THEN NAdd(1, NDiv(NSub(x[1], t), NSub(x[2], x[1])))
  ELSE IF NLt(x[n], t) THEN NAdd(1, NDiv(NSub(t, x[n]), NSub(x[n], x[n - 1])))
  ELSE "1"

NoData == {"InsufficientDataError"}

(*------------------------------ point series ------------------------------*)
PointConv(src, vals, tgt, ext) ==
  IF Len(vals) < 3 THEN [err |-> NoData, val |-> <<>>, mag |-> "0"]
  ELSE IF ext = "none" /\ \E j \in 1..Len(tgt) : ~Inside(src, tgt[j])
  THEN [err |-> NoData, val |-> <<>>, mag |-> "0"]
  ELSE [err |-> {},
        val |-> [j \in 1..Len(tgt) |->
                   Curve(src, vals, tgt[j], ext, vals[1], vals[Len(vals)])],
        mag |-> NMul(NMaxAbs(vals), NMaxAbs([j \in 1..Len(tgt) |-> Reach(src, tgt[j])]))]

(*----------------------------- average series -----------------------------*)
(* The mean preserving curve: at inner period edges the mean of the        *)
(* adjacent averages, at period middles whatever gives the period its      *)
(* average; straight through the first and last period.                    *)
EdgeValue(v, k) ==   \* k \in 0..Len(v)
  LET n == Len(v) IN
  IF k = 0 THEN NSub(NMul(2, v[1]), NDiv(NAdd(v[1], v[2]), 2))
  ELSE IF k = n THEN NSub(NMul(2, v[n]), NDiv(NAdd(v[n - 1], v[n]), 2))
  ELSE NDiv(NAdd(v[k], v[k + 1]), 2)
MidValue(v, k) ==    \* k \in 1..Len(v)
  IF k = 1 \/ k = Len(v) THEN v[k]
  ELSE NDiv(NSub(NMul(4, v[k]), NAdd(EdgeValue(v, k - 1), EdgeValue(v, k))), 2)
CurvePoints(src) ==
  [k \in 1..(2 * Len(src) - 1) |->
     IF k % 2 = 1 THEN src[(k + 1) \div 2]
     ELSE NDiv(NAdd(src[k \div 2], src[(k \div 2) + 1]), 2)]
CurveValues(v) ==
  [k \in 1..(2 * Len(v) + 1) |->
     IF k % 2 = 1 THEN EdgeValue(v, (k - 1) \div 2) ELSE MidValue(v, k \div 2)]

(* Integral over [l, u]: the curve is linear between neighbouring break    *)
(* points, so each piece is its length times the value in its middle.      *)
Integral(x, y, l, u, ext, lo, hi) ==
  LET inner == SelectSeq(x, LAMBDA b : NLt(l, b) /\ NLt(b, u))
      bs == <<l>> \o inner \o <<u>>
  IN NSum([k \in 1..(Len(bs) - 1) |->
        NMul(NSub(bs[k + 1], bs[k]),
             Curve(x, y, NDiv(NAdd(bs[k], bs[k + 1]), 2), ext, lo, hi))])

AverageConv(src, vals, tgt, ext) ==
  IF Len(vals) < 3 THEN [err |-> NoData, val |-> <<>>, mag |-> "0"]
  ELSE IF ext = "none" /\ \E j \in 1..Len(tgt) : ~Inside(src, tgt[j])
  THEN [err |-> NoData, val |-> <<>>, mag |-> "0"]
  ELSE LET x == CurvePoints(src)
           y == CurveValues(vals)
       IN [err |-> {},
           val |-> [j \in 1..(Len(tgt) - 1) |->
                      NDiv(Integral(x, y, tgt[j], tgt[j + 1], ext, vals[1], vals[Len(vals)]),
                           NSub(tgt[j + 1], tgt[j]))],
           mag |-> NMul(NMaxAbs(y), NMaxAbs([j \in 1..Len(tgt) |-> Reach(x, tgt[j])]))]

Conv(type, src, vals, tgt, ext) ==
  IF type = "average" THEN AverageConv(src, vals, tgt, ext) ELSE PointConv(src, vals, tgt, ext)

(* Creating a converter from src to tgt is refused when the target has     *)
(* (almost) passed before the source begins, in the present version also   *)
(* where the extrapolation type would allow it: both outcomes are accepted *)
(* in that case (Refusable), except that the later conversion must fail    *)
(* without extrapolation.                                                  *)
Refusable(src, tgt) == NLt(tgt[IF Len(tgt) = 1 THEN 1 ELSE 2], src[1])

NumValues(type, tps) == IF type = "average" THEN Len(tps) - 1 ELSE Len(tps)

SeqClose(a, b, scale, tol) ==
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : NClose(a[i], b[i], scale, tol)
=============================================================================
