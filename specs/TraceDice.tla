----------------------------- MODULE TraceDice -----------------------------
(***************************************************************************)
(* Checks recorded sessions with models: operations on the parameter sets  *)
(* (StoreJudge) and on models using them (Dice).                           *)
(***************************************************************************)
EXTENDS StoreJudge, Dice

TInit(e) == [S |-> NewStore(e.roots), m |-> <<>>]

OnModel(st, e, o, clause) ==
  LET next == [S |-> o.S, m |-> [st.m EXCEPT ![e.m] = o.M]] IN
  IF e.err = ""
  THEN IF o.must THEN Reject(clause \o ".accepted", ToString(o.errs), st)
       ELSE IF clause = "step" /\ e.r # o.r THEN Reject("step.time", ToString(o.r), st)
       ELSE Accept(next)
  ELSE IF e.err \in o.errs \/ o.errs = {"*"} THEN Accept(next)
  ELSE Reject(clause \o ".error", ToString(o.errs), st)

TJudge(st, e) ==
  CASE e.op = "model" -> IF e.err = "" THEN Accept([st EXCEPT !.m = Append(@, NewModel(e.ps, e.os))])
                         ELSE Reject("model.error", "", st)
    [] e.op = "run" -> OnModel(st, e, Run(st.S, st.m[e.m]), "run")
    [] e.op = "reset_stepping" -> OnModel(st, e, ResetStepping(st.S, st.m[e.m]), "reset")
    [] e.op = "step" -> OnModel(st, e, Step(st.S, st.m[e.m]), "step")
    [] e.op = "init_run" -> OnModel(st, e, InitRun(st.S, st.m[e.m]), "init")
    [] e.op = "init_input" -> OnModel(st, e, InitModel(st.S, st.m[e.m]), "init")
    [] e.op = "reset" -> OnModel(st, e, Reset(st.S, st.m[e.m]), "reset")
    [] e.op = "bare_run" -> OnModel(st, e, RunFromReset(st.S, st.m[e.m]), "run")
    [] OTHER -> LET j == StoreJudge(st.S, e) IN [j EXCEPT !.st = [st EXCEPT !.S = j.st]]

(*----------------------- the trace state machine --------------------------*)
T == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, fin
Init == tid \in 1..Len(T) /\ l = 1 /\ st = TInit(T[tid]) /\ fin = FALSE
Next ==
  /\ ~fin
  /\ IF l > Len(T[tid].ev)
     THEN PrintT("@@" \o ToJson([done |-> T[tid].id])) /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
     ELSE LET j == TJudge(st, T[tid].ev[l]) IN
          IF j.why = ""
          THEN l' = l + 1 /\ st' = j.st /\ UNCHANGED <<tid, fin>>
          ELSE /\ PrintT("@@" \o ToJson([reject |-> T[tid].id, at |-> l, why |-> j.why, want |-> j.want]))
               /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
StoreConsistent == Consistent(st.S)
=============================================================================
