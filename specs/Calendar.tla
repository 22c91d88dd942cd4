------------------------------ MODULE Calendar ------------------------------
(***************************************************************************)
(* The proleptic Gregorian calendar, the instants the representations of   *)
(* time denote, and the grids of period boundaries data are resampled to.  *)
(* Days are counted from 1970-01-01 (TLC integers), seconds are Num.       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, Num

FirstYear == 1
LastYear == 9999

(*------------------------------- dates ------------------------------------*)
IsLeap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
DaysInMonth(y, m) == IF m = 2 THEN (IF IsLeap(y) THEN 29 ELSE 28)
                     ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
DaysInYear(y) == IF IsLeap(y) THEN 366 ELSE 365
BeforeMonth == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
DaysFromCivil(y, m, d) ==
  LET z == y - 1 IN
  365 * z + (z \div 4) - (z \div 100) + (z \div 400) - 719162
    + BeforeMonth[m] + (IF m > 2 /\ IsLeap(y) THEN 1 ELSE 0) + d - 1
(* the year of a day: eras of 400 years of 146097 days, from 0000-03-01    *)
CivilFromDays(n) ==
  LET z == n + 719468
      era == z \div 146097
      doe == z - era * 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN <<yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, doy - (153 * mp + 2) \div 5 + 1>>
Weekday(n) == (n + 3) % 7           \* Monday is 0
FirstDay == DaysFromCivil(FirstYear, 1, 1)
LastDay == DaysFromCivil(LastYear, 12, 31)

(*------------------------------ instants ----------------------------------*)
Day(s) == NInt(NFloor(NDiv(s, 86400)))
SecondOfDay(s) == NInt(NSub(NFloor(s), NMul(NFloor(NDiv(s, 86400)), 86400)))
Midnight(n) == NMul(n, 86400)
Parts(s) == LET c == CivilFromDays(Day(s)) IN
  [y |-> c[1], m |-> c[2], d |-> c[3], h |-> SecondOfDay(s) \div 3600, w |-> Weekday(Day(s))]
(* a date and time of day <<y, m, d, h, min, s, us>>: to the second        *)
OfCivil(c) == NAdd(Midnight(DaysFromCivil(c[1], c[2], c[3])), c[4] * 3600 + c[5] * 60 + c[6])
OfYear(y) == Midnight(DaysFromCivil(y, 1, 1))
(* a decimal year: that part of the way through the year, cut to seconds   *)
(* (up to the rounding of doubles)                                         *)
IsDecimalYear(s, x) ==
  LET y == NInt(NFloor(x))
      exact == NAdd(OfYear(y), NMul(NSub(x, NFloor(x)), DaysInYear(y) * 86400))
  IN NIsInt(s) /\ NLe(NSub(s, exact), "1/1000000") /\ NLt(NSub(exact, s), "1000001/1000000")

Equidistant(start, step, n, kind) ==
  [k \in 1..(IF kind = "average" THEN n + 1 ELSE n) |-> NAdd(start, NMul(step, k - 1))]

(*------------------------- period boundaries ------------------------------*)
(* A rule says how many months a period has and how many periods a step,   *)
(* in which month (of the first year) periods start or end, and whether    *)
(* the boundaries are the first or the last days of months; or             *)
(* boundaries are a weekday (months = 0).                                  *)
MonthIndex(y, m) == 12 * y + m - 1
IsAnchor(rule, mi) == (mi - (rule.anchor - 1)) % rule.months = 0
BoundaryOfMonth(rule, mi) ==
  LET y == mi \div 12
      m == (mi % 12) + 1
  IN IF rule.side = "start" THEN DaysFromCivil(y, m, 1) ELSE DaysFromCivil(y, m, DaysInMonth(y, m))
IsBoundary(rule, n) ==
  IF rule.months = 0 THEN Weekday(n) = rule.anchor
  ELSE LET c == CivilFromDays(n) IN
    /\ IsAnchor(rule, MonthIndex(c[1], c[2]))
    /\ c[3] = IF rule.side = "start" THEN 1 ELSE DaysInMonth(c[1], c[2])

(* the last boundary not after day n and the first one not before it       *)
MonthOf(n) == LET c == CivilFromDays(n) IN MonthIndex(c[1], c[2])
LastMonthUpTo(rule, n) ==
  LET mi == MonthOf(n)
      back == (mi - (rule.anchor - 1)) % rule.months
      a == mi - back
  IN IF BoundaryOfMonth(rule, a) <= n THEN a ELSE a - rule.months
Boundary(rule, a) == IF rule.months = 0 THEN a ELSE BoundaryOfMonth(rule, a)
Step(rule) == rule.mult * (IF rule.months = 0 THEN 7 ELSE rule.months)
FirstOf(rule, n) == IF rule.months = 0 THEN n - ((Weekday(n) - rule.anchor) % 7) ELSE LastMonthUpTo(rule, n)

(* the days of the grid covering days from..to; `to' rolls to the first    *)
(* boundary not before it                                                  *)
NumSteps(rule, a, to) ==
  (* as few steps as reach `to'                                            *)
  LET guess == IF rule.months = 0 THEN (to - a) \div Step(rule)
               ELSE (MonthOf(to) - a) \div Step(rule)
      least == CHOOSE k \in (guess - 1)..(guess + 2) :
                 /\ Boundary(rule, a + k * Step(rule)) >= to
                 /\ (k = guess - 1 \/ Boundary(rule, a + (k - 1) * Step(rule)) < to)
  IN IF least < 0 THEN 0 ELSE least
Grid(rule, from, to) ==
  LET a == FirstOf(rule, from)
      k == NumSteps(rule, a, to)
  IN [i \in 1..(k + 1) |-> Boundary(rule, a + (i - 1) * Step(rule))]
(* days of instants: the start is floored, the end raised to a whole day   *)
DayUp(s) == IF SecondOfDay(s) = 0 THEN Day(s) ELSE Day(s) + 1
=============================================================================
