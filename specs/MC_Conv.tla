------------------------------ MODULE MC_Conv ------------------------------
(***************************************************************************)
(* The laws of time grid conversion, checked on every small case of        *)
(* TimeConv: all source grids with three steps, values, target grids and   *)
(* extrapolation types within the bounds.  Every case is one behaviour     *)
(* that can be replayed on the implementation.                             *)
(***************************************************************************)
EXTENDS TimeConv, FiniteSetsExt, TLC, Json

CONSTANTS Kind, Steps, Values, TBefore, TMax, Scripts
ValueSet == IF Values = 2 THEN {0, 3} ELSE IF Values = 3 THEN {0, 3, -2} ELSE {0, 1, 3, -2}

Unit == 1800
Sec(g) == [i \in 1..Len(g) |-> N(g[i] * Unit)]
Grids == {<<0, a, a + b, a + b + c>> : a, b, c \in Steps}
Targets == {<<a, b>> : a, b \in (-TBefore)..TMax} \union {<<a, b, c>> : a, b, c \in (-TBefore)..TMax}
Increasing(t) == \A i \in 1..(Len(t) - 1) : t[i] < t[i + 1]

VARIABLES src, vals, tgt, ext, done
vars == <<src, vals, tgt, ext, done>>
Init ==
  /\ src \in Grids
  /\ vals = <<>>
  /\ tgt \in {t \in Targets : Increasing(t) /\ ~Refusable(Sec(src), Sec(t))}
  /\ ext = ""
  /\ done = FALSE
Script == << [op |-> "make", kind |-> Kind, src |-> Sec(src), tgt |-> Sec(tgt), ext |-> ext'],
             [op |-> "from", c |-> 1, vals |-> [i \in 1..Len(vals') |-> N(vals'[i])]] >>
Next ==
  /\ ~done /\ done' = TRUE /\ UNCHANGED <<src, tgt>>
  /\ vals' \in [1..NumValues(Kind, src) -> ValueSet]
  /\ ext' \in {"none", "constant", "linear"}
  /\ (Scripts => PrintT("@@" \o ToJson(Script)))
Spec == Init /\ [][Next]_vars

R(v, t) == Conv(Kind, Sec(src), v, Sec(t), ext)
res == R(vals, tgt)
Eq(a, b) == NEq(a, b)
AllEq(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : Eq(a[i], b[i])
n == Len(src)
Fits(t) == src[1] <= t[1] /\ t[Len(t)] <= src[n]
(* refused exactly if there is nothing to go by                            *)
Refused == done => ((res.err # {}) = (ext = "none" /\ ~Fits(tgt)))
(* converting to the same grid changes nothing                             *)
Identity == done => AllEq(R(vals, src).val, vals)
(* a constant stays constant                                               *)
Constant == done /\ (\A i \in DOMAIN vals : vals[i] = vals[1]) =>
              \A i \in 1..Len(res.val) : Eq(res.val[i], vals[1])
(* a straight line stays one                                               *)
Mean(a, b) == NDiv(NAdd(a, b), 2)
LineVals(g) == IF Kind = "point" THEN [i \in 1..Len(g) |-> NAdd(NMul(vals[1], g[i]), vals[2])]
               ELSE [i \in 1..(Len(g) - 1) |-> NAdd(NMul(vals[1], Mean(g[i], g[i + 1])), vals[2])]
(* (of averages only over periods of equal length: the curve puts the mean *)
(* of neighbouring averages on their common edge)                          *)
Even == Kind = "point" \/ \A i \in 2..(n - 1) : src[i + 1] - src[i] = src[2] - src[1]
Linear == done /\ Even =>
  LET o == R(LineVals(src), tgt) IN
  o.err = {} /\ (ext = "linear" \/ Fits(tgt)) => AllEq(o.val, LineVals(tgt))
(* conversion is linear in the values                                      *)
Twice == done => LET o == R([i \in DOMAIN vals |-> NMul(vals[i], "-7/3")], tgt) IN
         AllEq(o.val, [i \in 1..Len(res.val) |-> NMul(res.val[i], "-7/3")])
(* points: source values at source times, values between the source values *)
(* inside, and outside with constant extrapolation                         *)
AtSource == done /\ Kind = "point" /\ res.err = {} =>
  \A j \in 1..Len(tgt), i \in 1..n : tgt[j] = src[i] => Eq(res.val[j], vals[i])
Lo == FoldSet(LAMBDA i, m : NMin(m, vals[i]), N(vals[1]), DOMAIN vals)
Hi == FoldSet(LAMBDA i, m : NMax(m, vals[i]), N(vals[1]), DOMAIN vals)
Between == done /\ Kind = "point" /\ res.err = {} /\ (ext = "constant" \/ Fits(tgt)) =>
  \A j \in 1..Len(tgt) : NLe(Lo, res.val[j]) /\ NLe(res.val[j], Hi)
(* averages: the integral over the periods of the source is kept, and a    *)
(* period's average is the mean of the averages of its parts               *)
Weighted(v, g) == NSum([i \in 1..Len(v) |-> NMul(v[i], g[i + 1] - g[i])])
Kept == done /\ Kind = "average" =>
  \A m \in {1, 2} : LET t == <<src[1]>> \o (IF m = 1 THEN <<>> ELSE <<src[1] + 1>>) \o <<src[n]>> IN
    (\A i \in 1..(Len(t) - 1) : t[i] < t[i + 1]) => Eq(Weighted(R(vals, t).val, t), Weighted(vals, src))
Pieces == done /\ Kind = "average" /\ res.err = {} =>
  LET t == <<tgt[1], tgt[Len(tgt)]>> IN Eq(Weighted(R(vals, t).val, t), Weighted(res.val, tgt))
(* merging whole source periods averages them by length                    *)
Merge == done /\ Kind = "average" =>
  \A i, j \in 1..n : i < j =>
    Eq(R(vals, <<src[i], src[j]>>).val[1],
       NDiv(NSum([k \in 1..(j - i) |-> NMul(vals[i + k - 1], src[i + k] - src[i + k - 1])]), src[j] - src[i]))
=============================================================================
