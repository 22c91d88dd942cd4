----------------------------- MODULE TraceUnits -----------------------------
(***************************************************************************)
(* Checks recorded unit conversions (openscm.core.units.UnitConverter)     *)
(* against Units and Metrics.  The state is the sequence of converters     *)
(* made so far; what a converter does only depends on its units and its    *)
(* context, never on what was converted before.                            *)
(***************************************************************************)
EXTENDS Metrics, Trace

(* The converter takes scale and offset from the conversion of 1 and -1,   *)
(* which loses digits if there is an offset.                               *)
TolUnit(c) == IF c.off = "0" THEN "1e-12" ELSE "1e-9"
TInit(e) == <<>>
Clause(ctx, what) == (IF ctx = "" THEN "plain." ELSE "context.") \o what

MakeErrors(e, c) ==
  IF e.ctx # "" /\ e.ctx \notin Contexts THEN {"KeyError"}
     \union (IF UDefined(e.u) /\ UDefined(e.v) THEN {} ELSE {"UndefinedUnitError"})
  ELSE IF ~UDefined(e.u) \/ ~UDefined(e.v) THEN {"UndefinedUnitError"}
  ELSE IF ~c.ok \/ ~c.must THEN {"DimensionalityError"} ELSE {}

Make(S, e) ==
  LET def == UDefined(e.u) /\ UDefined(e.v) /\ (e.ctx = "" \/ e.ctx \in Contexts)
      c == IF def THEN InContext(e.u, e.v, e.ctx)
           ELSE [ok |-> FALSE, scale |-> "1", off |-> "0", nan |-> FALSE, must |-> TRUE]
      errs == MakeErrors(e, c)
  IN IF e.err # ""
     THEN IF e.err \in errs THEN Accept(S) ELSE Reject(Clause(e.ctx, "make.error"), ToString(errs), S)
     ELSE IF ~c.ok THEN Reject(Clause(e.ctx, "make.accepted"), ToString(errs), S)
     ELSE IF e.warn # c.nan THEN Reject(Clause(e.ctx, "make.warning"), ToString(c.nan), S)
     ELSE Accept(Append(S, c @@ [ctx |-> e.ctx, s |-> e.u.s, t |-> e.v.s]))

Apply(S, e) ==
  LET c == S[e.c]
      back == [scale |-> NDiv("1", c.scale), off |-> NNeg(NDiv(c.off, c.scale))]
      k == IF e.op = "from" THEN [scale |-> c.scale, off |-> c.off] ELSE back
      want == UApplySeq(k, e.vals)
      mag == UMag(k, NMax("1", NMaxAbs(e.vals)))
      cl == Clause(c.ctx, e.op)
  IN IF e.err # "" THEN Reject(cl \o ".error", "", S)
     ELSE IF Len(e.r) # Len(e.vals) THEN Reject(cl \o ".length", ToString(Len(e.vals)), S)
     ELSE IF c.nan
     THEN IF \A i \in 1..Len(e.r) : NNaN(e.r[i]) THEN Accept(S) ELSE Reject(cl \o ".value", "nan", S)
     ELSE IF \A i \in 1..Len(e.r) : NClose(e.r[i], want[i], mag, TolUnit(c)) THEN Accept(S)
     ELSE Reject(cl \o ".value", ToString([i \in 1..Len(want) |-> NShow(want[i])]), S)

Props(S, e) ==
  LET c == S[e.c] IN
  IF e.err = "" /\ e.s = c.s /\ e.t = c.t THEN Accept(S) ELSE Reject(Clause(c.ctx, "names"), c.s \o " -> " \o c.t, S)

TJudge(S, e) ==
  CASE e.op = "make" -> Make(S, e)
    [] e.op \in {"from", "to"} -> Apply(S, e)
    [] e.op = "props" -> Props(S, e)
    [] e.op = "contexts" ->   \* loaded with the first use of a context
         IF e.err = "" /\ \A x \in Contexts : \E i \in 1..Len(e.r) : e.r[i] = x THEN Accept(S)
         ELSE Reject("context.list", ToString(Contexts), S)

(*----------------------- the trace state machine --------------------------*)
T == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, fin
Init == tid \in 1..Len(T) /\ l = 1 /\ st = TInit(T[tid]) /\ fin = FALSE
Next ==
  /\ ~fin
  /\ IF l > Len(T[tid].ev)
     THEN PrintT("@@" \o ToJson([done |-> T[tid].id])) /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
     ELSE LET j == TJudge(st, T[tid].ev[l]) IN
          IF j.why = ""
          THEN l' = l + 1 /\ st' = j.st /\ UNCHANGED <<tid, fin>>
          ELSE /\ PrintT("@@" \o ToJson([reject |-> T[tid].id, at |-> l, why |-> j.why, want |-> j.want]))
               /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
=============================================================================
