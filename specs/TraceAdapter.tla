---------------------------- MODULE TraceAdapter ----------------------------
(***************************************************************************)
(* Checks recorded calls of adapters, with the calls of their hooks,       *)
(* against Adapter.                                                        *)
(***************************************************************************)
EXTENDS Adapter, Trace

TInit(e) == NewAdapters(e.sets)
Judge(A, e) ==
  CASE e.op = "start" -> IF e.err = "" THEN Accept([A EXCEPT !.start[e.ps] = e.val]) ELSE Reject("setup", "", A)
    [] e.op = "new" ->
         IF e.name \notin Known \union {"-"}
         THEN IF e.err = "KeyError" THEN Accept(A) ELSE Reject("registry.unknown", "KeyError", A)
         ELSE IF e.err # "" THEN Reject("new.error", "", A)
         ELSE IF e.calls # <<>> THEN Reject("new.calls", "<<>>", A)
         ELSE Accept(Made(A, e.kind, e.ps))
    [] e.op = "load" ->
         LET o == Load(A, e.name, e.broken, e.cls) IN
         IF e.err # o.err THEN Reject("registry.error", o.err, A)
         ELSE IF ~o.ok THEN Reject("registry.class", ToString(A.reg), A)
         ELSE Accept(o.st)
    [] e.op = "call" ->
         LET all == Outcomes(A, e.a, e.call, e.fail, e.by)
             by == {o \in all : o.calls = e.calls}
             ok == {o \in by : o.err = e.err /\ o.seen = e.seen /\ o.r = e.r}
         IN IF e.others # <<>> THEN Reject("hooks.other", "<<>>", A)
            ELSE IF by = {} THEN Reject("hooks." \o e.call, ToString({o.calls : o \in all}), A)
            ELSE IF ok = {} THEN Reject("outcome." \o e.call, ToString([err |-> (CHOOSE o \in by : TRUE).err,
                                            seen |-> (CHOOSE o \in by : TRUE).seen, r |-> (CHOOSE o \in by : TRUE).r]), A)
            ELSE Accept((CHOOSE o \in ok : TRUE).st)

(*----------------------- the trace state machine --------------------------*)
T == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, fin
Init == tid \in 1..Len(T) /\ l = 1 /\ st = TInit(T[tid]) /\ fin = FALSE
Next ==
  /\ ~fin
  /\ IF l > Len(T[tid].ev)
     THEN PrintT("@@" \o ToJson([done |-> T[tid].id])) /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
     ELSE LET j == Judge(st, T[tid].ev[l]) IN
          IF j.why = ""
          THEN l' = l + 1 /\ st' = j.st /\ UNCHANGED <<tid, fin>>
          ELSE /\ PrintT("@@" \o ToJson([reject |-> T[tid].id, at |-> l, why |-> j.why, want |-> j.want]))
               /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
=============================================================================
