----------------------------- MODULE MC_Calendar -----------------------------
(***************************************************************************)
(* Walks through the calendar day by day (with a plain successor rule) and *)
(* checks the closed formulas of Calendar on every day, and that the grids *)
(* over any span of days ending there are exactly the boundaries.          *)
(***************************************************************************)
EXTENDS Calendar, TLC, Json

CONSTANTS Starts, Years, Spans, Scripts

StartYears == IF Starts = 0 THEN {50 * k + 1 : k \in 0..199} ELSE {1, 397, 1582, 1899, 1969, 1999, 2099, 9997}
Rules ==
  {[months |-> 1, anchor |-> 1, side |-> s, mult |-> m] : s \in {"start", "end"}, m \in {1, 2}}
  \union {[months |-> 3, anchor |-> a, side |-> s, mult |-> m] : a \in 1..3, s \in {"start", "end"}, m \in {1, 3}}
  \union {[months |-> 12, anchor |-> a, side |-> s, mult |-> m] : a \in {1, 2, 3, 7, 12}, s \in {"start", "end"}, m \in {1, 2}}
  \union {[months |-> 0, anchor |-> a, side |-> "start", mult |-> m] : a \in {0, 6}, m \in {1, 2}}
Lengths == CASE Spans = 0 -> {}
             [] Spans = 1 -> {0, 1, 45}
             [] OTHER -> {0, 1, 2, 27, 28, 30, 59, 90, 91, 365, 366, 800}

(* with Spans = 1 only some of the cases                                   *)
Chosen(yy, nn, r, g) == Spans # 1 \/ (nn + 31 * g + yy + 7 * r.months + r.anchor + r.mult) % 5 = 0

(* grids further than that from the ends of the calendar                   *)
InRange(q) == q >= FirstDay + 800 /\ q <= LastDay - 1700

VARIABLES y, m, d, n, w, start
vars == <<y, m, d, n, w, start>>
Init ==
  /\ start \in StartYears /\ y = start /\ m = 1 /\ d = 1
  /\ n = DaysFromCivil(y, 1, 1) /\ w = Weekday(n)
Next ==
  /\ y < start + Years \/ (m = 1 /\ d = 1 /\ y = start + Years)
  /\ y <= LastYear
  /\ n' = n + 1 /\ w' = (w + 1) % 7 /\ start' = start
  /\ IF d < DaysInMonth(y, m) THEN d' = d + 1 /\ UNCHANGED <<m, y>>
     ELSE IF m < 12 THEN d' = 1 /\ m' = m + 1 /\ y' = y
     ELSE d' = 1 /\ m' = 1 /\ y' = y + 1
  /\ (Scripts /\ InRange(n) /\ d \in {1, 15, DaysInMonth(y, m)} =>
        \A r \in Rules, g \in Lengths :
          Chosen(y, n, r, g) =>
          PrintT("@@" \o ToJson(<<[op |-> "range", rule |-> r, a |-> Midnight(n), b |-> Midnight(n + g)]>>)))
Spec == Init /\ [][Next]_vars

(* 1970-01-01 was a Thursday                                               *)
ASSUME DaysFromCivil(1970, 1, 1) = 0 /\ Weekday(0) = 3

Formula == DaysFromCivil(y, m, d) = n
Inverse == CivilFromDays(n) = <<y, m, d>>
Weekdays == Weekday(n) = w
(* the grid over days n..n+g, step by step of one period, is the set of    *)
(* the boundaries from the last one not after n to the first not before    *)
(* n+g, in order; larger steps take every mult-th of them                  *)
GridRight ==
  InRange(n) /\ d \in {1, 2, 15, DaysInMonth(y, m)} => \A r \in Rules, g \in Lengths : Chosen(y, n, r, g) =>
    LET q == Grid(r, n, n + g)
        one == [r EXCEPT !.mult = 1]
        k == Len(q)
    IN /\ \A i \in 1..k : IsBoundary(r, q[i])
       /\ q[1] <= n /\ ~\E b \in (q[1] + 1)..n : IsBoundary(r, b)
       /\ q[k] >= n + g /\ (k > 1 => q[k - 1] < n + g)
       /\ \A i \in 1..(k - 1) :
            /\ q[i] < q[i + 1]
            /\ Cardinality({b \in q[i]..(q[i + 1] - 1) : IsBoundary(r, b)}) = r.mult
=============================================================================
