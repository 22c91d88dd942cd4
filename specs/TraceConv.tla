------------------------------ MODULE TraceConv ------------------------------
(***************************************************************************)
(* Checks recorded conversions between time grids against TimeConv.  The   *)
(* state is the sequence of the converters made so far: a conversion only  *)
(* depends on its converter and the given values.                          *)
(***************************************************************************)
EXTENDS TimeConv, Trace

TInit(e) == <<>>
Tol(k) == IF k = "average" THEN TolAverage ELSE TolPoint

Make(S, e) ==
  IF e.err = "" THEN Accept(Append(S, [kind |-> e.kind, src |-> e.src, tgt |-> e.tgt, ext |-> e.ext]))
  ELSE IF e.err \in NoData /\ Refusable(e.src, e.tgt) THEN Accept(S)
  ELSE Reject("make.error", "", S)

Judge(S, e, clause, kind, src, tgt, ext) ==
  LET o == Conv(kind, src, [i \in 1..Len(e.vals) |-> N(e.vals[i])], tgt, ext) IN
  IF e.err # "" THEN IF e.err \in o.err THEN Accept(S) ELSE Reject(clause \o ".error", ToString(o.err), S)
  ELSE IF o.err # {} THEN Reject(clause \o ".accepted", ToString(o.err), S)
  ELSE IF SeqClose(e.r, o.val, o.mag, Tol(kind)) THEN Accept(S)
  ELSE Reject(clause \o ".value", ToString([i \in 1..Len(o.val) |-> NShow(o.val[i])]), S)

TJudge(S, e) ==
  CASE e.op = "make" -> Make(S, e)
    [] e.op = "from" -> LET c == S[e.c] IN Judge(S, e, c.kind, c.kind, c.src, c.tgt, c.ext)
    [] e.op = "to" -> LET c == S[e.c] IN Judge(S, e, c.kind, c.kind, c.tgt, c.src, c.ext)
    [] e.op = "lengths" -> LET c == S[e.c] IN
         IF e.err = "" /\ e.r = <<NumValues(c.kind, c.src), NumValues(c.kind, c.tgt)>> THEN Accept(S)
         ELSE Reject(c.kind \o ".lengths", ToString(<<NumValues(c.kind, c.src), NumValues(c.kind, c.tgt)>>), S)

(*----------------------- the trace state machine --------------------------*)
T == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, fin
Init == tid \in 1..Len(T) /\ l = 1 /\ st = TInit(T[tid]) /\ fin = FALSE
Next ==
  /\ ~fin
  /\ IF l > Len(T[tid].ev)
     THEN PrintT("@@" \o ToJson([done |-> T[tid].id])) /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
     ELSE LET j == TJudge(st, T[tid].ev[l]) IN
          IF j.why = ""
          THEN l' = l + 1 /\ st' = j.st /\ UNCHANGED <<tid, fin>>
          ELSE /\ PrintT("@@" \o ToJson([reject |-> T[tid].id, at |-> l, why |-> j.why, want |-> j.want]))
               /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
=============================================================================
