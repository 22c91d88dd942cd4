------------------------------ MODULE Adapter ------------------------------
(***************************************************************************)
(* The protocol between users, the OpenSCM wrapper and model adapters, and *)
(* the registry of adapters (openscm.adapters, openscm.core.OpenSCM).      *)
(*                                                                         *)
(* State A:                                                                *)
(*  A.inst   sequence of the adapters made so far, each with               *)
(*     kind    "openscm" (through the wrapper) or "direct"                 *)
(*     ps      its input parameter set                                     *)
(*     inited  the model was initialised        live  not yet released     *)
(*     time    current time ("" before the first reset)                    *)
(*  A.start  start time in each parameter set ("" = not set)               *)
(*  A.reg    function from the names of the adapters loaded to classes     *)
(*                                                                         *)
(* A call leads to a sequence of calls of the adapter's hooks: model,      *)
(* input, runpar, reset, run, step, shutdown.                              *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, SequencesExt, FiniteSets, TLC

NewAdapters(n) == [inst |-> <<>>, start |-> [i \in 1..n |-> ""], reg |-> [x \in {} |-> 0]]
Known == {"DICE"}

Made(A, kind, ps) ==
  [A EXCEPT !.inst = Append(@, [kind |-> kind, ps |-> ps, inited |-> FALSE, live |-> TRUE, time |-> ""])]

(* The sequences of hook calls a call may lead to if nothing fails.        *)
First_(I) == IF I.inited THEN <<>> ELSE <<"model">>
Plans(I, call) ==
  CASE call = "init_input" -> {First_(I) \o <<"input">>}
    [] call = "init_run" -> {First_(I) \o <<"runpar">>}
    [] call = "reset" -> {<<"reset">>}
    [] call = "run" -> IF I.kind = "direct" THEN {<<"run">>}
                       ELSE {First_(I) \o p \o <<"reset", "run">> : p \in {<<"input", "runpar">>, <<"runpar", "input">>}}
    [] call = "reset_stepping" -> {First_(I) \o p \o <<"reset">> : p \in {<<"input", "runpar">>, <<"runpar", "input">>}}
    [] call = "step" -> {<<"step">>}
    [] call = "release" -> {<<"shutdown">>}

(* A reset sets the time to the start time and needs it; then it calls the *)
(* hook.                                                                   *)
CutAt(p, hook) == LET i == SelectInSeq(p, LAMBDA x : x = hook) IN IF i = 0 THEN p ELSE SubSeq(p, 1, i)
Before(p, hook) == LET i == SelectInSeq(p, LAMBDA x : x = hook) IN IF i = 0 THEN p ELSE SubSeq(p, 1, i - 1)
(* Outcomes of a call during which the hook `fail' fails ("" = none) and a *)
(* step advances the time by `by':                                         *)
(* [calls, err, st, seen: the times the reset and step hooks see]          *)
Outcome_(A, i, call, fail, by, p) ==
  LET I == A.inst[i]
      start == A.start[I.ps]
      failing == fail # "" /\ Contains(p, fail)
      upto == IF failing THEN CutAt(p, fail) ELSE p
      nostart == Contains(upto, "reset") /\ start = ""
      calls == IF nostart THEN Before(upto, "reset") ELSE upto
      err == IF nostart THEN "ParameterEmptyError" ELSE IF failing THEN "Boom" ELSE ""
      ok(h) == Contains(calls, h) /\ ~(failing /\ fail = h /\ ~nostart)
      wasreset == Contains(calls, "reset")
      t0 == IF wasreset THEN start ELSE I.time
      t1 == IF ok("step") THEN NAdd(t0, by) ELSE t0
  IN [calls |-> calls, err |-> err,
      seen |-> (IF wasreset THEN <<t0>> ELSE <<>>) \o (IF Contains(calls, "step") THEN <<t0>> ELSE <<>>),
      r |-> IF call = "step" /\ err = "" THEN t1 ELSE "",
      st |-> [A EXCEPT !.inst[i] = [I EXCEPT !.inited = @ \/ ok("model"),
                                            !.time = t1, !.live = @ /\ call # "release"]]]
Outcomes(A, i, call, fail, by) == {Outcome_(A, i, call, fail, by, p) : p \in Plans(A.inst[i], call)}

(* The registry: outcome [err, st] of asking for an adapter; cls is the    *)
(* class that is returned if there is one.                                 *)
Load(A, name, broken, cls) ==
  IF name \in DOMAIN A.reg THEN [err |-> "", ok |-> cls = A.reg[name], st |-> A]
  ELSE IF name \notin Known THEN [err |-> "KeyError", ok |-> TRUE, st |-> A]
  ELSE IF broken THEN [err |-> "AdapterNeedsModuleError", ok |-> TRUE, st |-> A]
  ELSE [err |-> "", ok |-> \A x \in DOMAIN A.reg : A.reg[x] # cls, st |-> [A EXCEPT !.reg = @ @@ (name :> cls)]]
=============================================================================
