------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Common parts of the trace specifications.                               *)
(***************************************************************************)
EXTENDS TLC, Sequences, Integers, Json, IOUtils

Accept(S) == [why |-> "", want |-> "", st |-> S]
Reject(clause, want, S) == [why |-> clause, want |-> want, st |-> S]
=============================================================================
