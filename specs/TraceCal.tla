------------------------------ MODULE TraceCal ------------------------------
(***************************************************************************)
(* Checks recorded representations of time points and resampling grids     *)
(* against Calendar.  Every event stands for itself.                       *)
(***************************************************************************)
EXTENDS Calendar, Trace

TInit(e) == <<>>
Same(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NEq(a[i], b[i])

Instants(e) ==
  CASE e.kind = "year" -> [i \in 1..Len(e.x) |-> OfYear(e.x[i])]
    [] e.kind = "civil" -> [i \in 1..Len(e.x) |-> OfCivil(e.x[i])]
    [] OTHER -> <<>>
RightInstants(e) ==
  IF e.kind = "decimal"
  THEN Len(e.r) = Len(e.x) /\ \A i \in 1..Len(e.x) : IsDecimalYear(e.r[i], e.x[i])
  ELSE Same(e.r, Instants(e))
(* the parts and the index say the same instants as the values             *)
RightParts(e) ==
  /\ e.intact
  /\ Same(e.index, e.r)
  /\ Len(e.parts) = Len(e.r)
  /\ \A i \in 1..Len(e.r) : LET p == Parts(e.r[i]) IN e.parts[i] = <<p.y, p.m, p.d, p.h, p.w>>

Norm(S, e) ==
  IF e.err # "" THEN Reject("norm.error", "", S)
  ELSE IF ~RightInstants(e) THEN Reject("norm.instants", ToString(Instants(e)), S)
  ELSE IF ~RightParts(e) THEN Reject("norm.parts", ToString([i \in 1..Len(e.r) |-> Parts(e.r[i])]), S)
  ELSE Accept(S)

MakePoints(S, e) ==
  LET q == Equidistant(e.start, e.step, e.n, e.kind) IN
  IF e.err # "" THEN Reject("points.error", "", S)
  ELSE IF Same(e.r, q) THEN Accept(S)
  ELSE Reject("points.value", ToString(q), S)

Range(S, e) ==
  IF e.rule.bad THEN (IF e.err = "ValueError" THEN Accept(S) ELSE Reject("range.bad", "ValueError", S))
  ELSE LET g == Grid(e.rule, Day(e.a), DayUp(e.b))
           q == [i \in 1..Len(g) |-> Midnight(g[i])]
       IN IF e.err # "" THEN Reject("range.error", "", S)
          ELSE IF Same(e.r, q) THEN Accept(S)
          ELSE Reject("range.value", ToString(q), S)

TJudge(S, e) ==
  CASE e.op = "norm" -> Norm(S, e)
    [] e.op = "points" -> MakePoints(S, e)
    [] e.op = "range" -> Range(S, e)

(*----------------------- the trace state machine --------------------------*)
T == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, fin
Init == tid \in 1..Len(T) /\ l = 1 /\ st = TInit(T[tid]) /\ fin = FALSE
Next ==
  /\ ~fin
  /\ IF l > Len(T[tid].ev)
     THEN PrintT("@@" \o ToJson([done |-> T[tid].id])) /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
     ELSE LET j == TJudge(st, T[tid].ev[l]) IN
          IF j.why = ""
          THEN l' = l + 1 /\ st' = j.st /\ UNCHANGED <<tid, fin>>
          ELSE /\ PrintT("@@" \o ToJson([reject |-> T[tid].id, at |-> l, why |-> j.why, want |-> j.want]))
               /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
=============================================================================
