----------------------------- MODULE MC_Adapter -----------------------------
(***************************************************************************)
(* Exhaustive exploration of Adapter: every sequence of calls on two       *)
(* adapters (one wrapped, one direct), every hook failing at any time,     *)
(* the start time set early or late, changed, and the registry used with   *)
(* broken and working dependencies.                                        *)
(***************************************************************************)
EXTENDS Adapter, Json
CONSTANTS MaxSteps, MaxAdapters, Scripts

VARIABLES A, n, log, h
vars == <<A, n, log, h>>
view == <<A, n, log>>
Hooks == {"model", "input", "runpar", "reset", "run", "step"}
Init == A = NewAdapters(1) /\ n = 0 /\ log = <<>> /\ h = <<>>
Go == n < MaxSteps /\ n' = n + 1

New(kind) ==
  /\ Len(A.inst) < MaxAdapters /\ Go
  /\ kind = "openscm" => "DICE" \in DOMAIN A.reg
  /\ A' = Made(A, kind, 1) /\ log' = Append(log, <<>>)
  /\ h' = Append(h, [op |-> "new", kind |-> kind, ps |-> 1, name |-> IF kind = "direct" THEN "-" ELSE "DICE"])
(* (the outputs of a model keep the period they are first asked for)       *)
SetStart(t) == /\ Go /\ A.start[1] # t
               /\ A.start[1] = "" \/ \A i \in 1..Len(A.inst) : A.inst[i].kind = "direct"
               /\ A' = [A EXCEPT !.start[1] = t] /\ UNCHANGED log
               /\ h' = Append(h, [op |-> "start", ps |-> 1, val |-> t])
(* the order in which the protocol allows calls on an adapter used directly*)
Allowed(i, call) ==
  LET I == A.inst[i]
      done == ToSet(log[i])
  IN /\ I.live
     /\ CASE call \in {"init_input", "init_run"} -> I.kind = "direct"
          [] call = "reset" -> I.kind = "direct" /\ {"input", "runpar"} \subseteq done
          [] call = "run" -> I.kind = "openscm" \/ (log[i] # <<>> /\ Last(log[i]) = "reset")
          [] call = "reset_stepping" -> I.kind = "openscm"
          [] call = "step" -> log[i] # <<>> /\ Last(log[i]) \in {"reset", "step"} /\ I.time # ""
          [] OTHER -> TRUE
DoCall(i, call, fail) ==
  /\ Go /\ Allowed(i, call)
  /\ \E o \in Outcomes(A, i, call, fail, "100") :
       /\ fail = "" \/ o.err = "Boom"
       /\ A' = o.st
       /\ log' = [log EXCEPT ![i] = @ \o IF o.err = "Boom" THEN Front(o.calls) \o <<"-">> ELSE o.calls]
  /\ h' = Append(h, [op |-> "call", a |-> i, call |-> call, fail |-> fail, by |-> "100"])
DoLoad(name, broken) ==
  /\ Go /\ UNCHANGED log
  /\ A' = Load(A, name, broken, IF name \in DOMAIN A.reg THEN A.reg[name] ELSE 1).st
  /\ h' = Append(h, [op |-> "load", name |-> name, broken |-> broken])
Next ==
  \/ \E k \in {"openscm", "direct"} : New(k)
  \/ \E t \in {"0", "5000"} : SetStart(t)
  \/ \E i \in 1..Len(A.inst),
        c \in {"init_input", "init_run", "reset", "run", "reset_stepping", "step", "release"},
        f \in {""} \union Hooks : DoCall(i, c, f)
  \/ \E x \in {"DICE", "MAGICC"}, b \in BOOLEAN : DoLoad(x, b)
Spec == Init /\ [][Next]_vars
Emit == Scripts => PrintT("@@" \o ToJson(h'))

(*------------------------------- properties -------------------------------*)
Count(s, x) == Cardinality({i \in 1..Len(s) : s[i] = x})
Pos(s, x) == {i \in 1..Len(s) : s[i] = x}
(* C13                                                                     *)
Protocol ==
  \A i \in 1..Len(A.inst) :
    LET s == SelectSeq(log[i], LAMBDA x : x # "-") IN
    /\ Count(s, "model") <= 1                                  \* initialised once
    /\ s # <<>> /\ s # <<"shutdown">> => s[1] = "model"        \* before anything else
    /\ Count(s, "shutdown") = IF A.inst[i].live THEN 0 ELSE 1
    /\ ~A.inst[i].live => Last(s) = "shutdown"
    /\ \A p \in Pos(s, "run") : s[p - 1] = "reset"             \* reset before each run
    /\ \A p \in Pos(s, "run") \union Pos(s, "step") :          \* and inputs before
         \E q \in 1..(p - 1) : s[q] = "input"
    /\ \A p \in Pos(s, "step") : \E q \in 1..(p - 1) : s[q] = "reset"
Times == \A i \in 1..Len(A.inst) :
           LET I == A.inst[i] IN
           I.time # "" => \E t \in {"0", "5000"} : \E k \in 0..MaxSteps : I.time = NAdd(t, NMul("100", k))
Registry == \A x \in DOMAIN A.reg : x \in Known
Stable == [][\A x \in DOMAIN A.reg : A'.reg[x] = A.reg[x]]_vars
=============================================================================
