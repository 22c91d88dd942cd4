------------------------------ MODULE MC_Dice ------------------------------
(***************************************************************************)
(* Exhaustive exploration of models using the same input parameters (and   *)
(* each its own output parameters): setting inputs, creating models,       *)
(* running and stepping them in any order.                                 *)
(***************************************************************************)
EXTENDS Dice, Json

CONSTANTS MaxSteps, MaxModels, Scripts

Start == "1262304000"
Grid == <<Start, "1293840000", "1325376000", "1356912000">>    \* a step of 365 days
Count == 3
V_(name, kind, unit, tps) ==
  [op |-> "view", ps |-> 1, reg |-> World, name |-> name, kind |-> kind, unit |-> unit, tps |-> tps, ext |-> "none"]
EUnitG == UnitOf("GtC/a")
(* Preparation: the run period and a view of the emissions                 *)
Setup == << V_(<<"Start Time">>, "generic", NoUnit, <<>>), [op |-> "wr", v |-> 1, val |-> "d:1262304000"],
            V_(<<"Stop Time">>, "generic", NoUnit, <<>>), [op |-> "wr", v |-> 2, val |-> "d:1325376000"],
            V_(<<"Emissions", "CO2">>, "average", EUnitG, Grid) >>
Es == << <<"10", "11", "12">>, <<"40", "-30", "5">> >>
Inp == << [name |-> <<"DICE", "mat0">>, unit |-> UnitOf("GtC"), val |-> "900"],
          [name |-> <<"DICE", "mat_lower">>, unit |-> UnitOf("GtC"), val |-> "820"] >>

Exec(St, c) ==
  CASE c.op = "view" -> Request(St, Key(c.ps, c.reg, c.name), c.kind, c.unit, c.tps, c.ext).st
    [] c.op = "wr" -> WriteValue(St, c.v, c.val).st
    [] c.op = "set" -> SetAll(St, c.v, c.vals).st
S0 == FoldLeft(Exec, NewStore([i \in 1..(MaxModels + 1) |-> "World"]), Setup)

VARIABLES S, m, n, given, h, op
vars == <<S, m, n, given, h, op>>
view == <<S, m, n>>
Init == /\ S = S0 /\ m = <<>> /\ n = 0 /\ h = Setup /\ op = [name |-> "init", m |-> 0, err |-> FALSE]
        /\ given = [k \in DOMAIN S0.par |-> IF S0.par[k].written THEN S0.par[k].data ELSE <<>>]

Go == n < MaxSteps /\ n' = n + 1
Given_(St, k) == [x \in DOMAIN given \union {k} |-> IF x = k THEN St.par[k].data ELSE given[x]]
SetE(x) ==
  /\ Go /\ UNCHANGED m
  /\ S' = SetAll(S, 3, Es[x]).st
  /\ given' = Given_(S', S'.views[3].key)
  /\ op' = [name |-> "set", m |-> 0, err |-> FALSE]
  /\ h' = Append(h, [op |-> "set", v |-> 3, vals |-> Es[x]])
SetInput(i) ==
  /\ Go /\ UNCHANGED m
  /\ LET c == V_(Inp[i].name, "scalar", Inp[i].unit, <<>>)
         T == Exec(S, c)
         w == [op |-> "wr", v |-> Len(T.views), val |-> Inp[i].val]
     IN S' = Exec(T, w) /\ h' = h \o <<c, w>> /\ given' = Given_(S', Key(1, World, Inp[i].name))
  /\ op' = [name |-> "set", m |-> 0, err |-> FALSE]
New ==
  /\ Go /\ Len(m) < MaxModels /\ UNCHANGED <<S, given>>
  /\ m' = Append(m, NewModel(1, Len(m) + 2))
  /\ op' = [name |-> "model", m |-> Len(m) + 1, err |-> FALSE]
  /\ h' = Append(h, [op |-> "model", ps |-> 1, os |-> Len(m) + 2])
Use(i, name, o) ==
  /\ Go /\ UNCHANGED given
  /\ S' = o.S /\ m' = [m EXCEPT ![i] = o.M]
  /\ op' = [name |-> name, m |-> i, err |-> o.must]
  /\ h' = Append(h, [op |-> name, m |-> i])
Next ==
  \/ \E x \in 1..Len(Es) : SetE(x)
  \/ \E i \in 1..Len(Inp) : Len(S.views) < 5 /\ SetInput(i)
  \/ New
  \/ \E i \in 1..Len(m) : Use(i, "run", Run(S, m[i]))
  \/ \E i \in 1..Len(m) : Use(i, "reset_stepping", ResetStepping(S, m[i]))
  \/ \E i \in 1..Len(m) : m[i].step \in 0..(Count - 2) /\ Use(i, "step", Step(S, m[i]))
Spec == Init /\ [][Next]_vars
Emit == Scripts => PrintT("@@" \o ToJson(h'))

(*------------------------------- properties -------------------------------*)
Published(St, M) == [o \in DOMAIN Outputs |-> St.par[OutKey(M, o)].data]
(* a parameter set with only what the user set so far, and a fresh model   *)
Clean(St) ==
  [NewStore(<<"World", "World">>) EXCEPT
     !.par = [k \in DOMAIN given \union {Key(2, World, <<"x">>)} |->
                IF k \in DOMAIN given
                THEN [St.par[k] EXCEPT !.data = given[k], !.written = given[k] # <<>>,
                                       !.w = IF given[k] = <<>> THEN 0 ELSE 1] ELSE NoPar]]
AsFresh(St) ==
  LET r == Run(Clean(St), NewModel(1, 2)) IN
  [errs |-> r.errs, out |-> IF r.must THEN <<>> ELSE Published(r.S, r.M)]
Final(St, i) == Published(St, m'[i])
Inv == Consistent(S)
(* C14: whatever was run before, a run gives what a fresh model gives      *)
RunAsFresh == [][op'.name = "run" =>
                   LET f == AsFresh(S) IN
                   (op'.err <=> f.out = <<>>) /\ (~op'.err => f.out = Final(S', op'.m))]_vars
(* C14: stepping to the end, inputs unchanged, gives what a run gives      *)
Quiet_(i) == \* inputs have not been set since stepping model i was started
  \A j \in 1..Len(h') :
    h'[j].op = "reset_stepping" /\ h'[j].m = i /\ (\A l \in (j+1)..Len(h') : ~(h'[l].op = "reset_stepping" /\ h'[l].m = i))
      => \A l \in (j+1)..Len(h') : h'[l].op \notin {"set", "wr"}
StepsAsRun == [][op'.name = "step" /\ ~op'.err /\ m'[op'.m].step = Count - 1 /\ Quiet_(op'.m) =>
                   AsFresh(S).out = Final(S', op'.m)]_vars
(* C14: a run does not change what the user set; other parameters in the   *)
(* inputs hold their defaults                                              *)
InputsKept ==
  /\ \A k \in DOMAIN given : given[k] # <<>> => S.par[k].data = given[k]
  /\ \A k \in DOMAIN S.par : k[1] = 1 /\ S.par[k].written /\ (k \notin DOMAIN given \/ given[k] = <<>>) =>
       \E x \in DOMAIN Inputs : Inputs[x].name = k[3] /\ S.par[k].data = <<IF Inputs[x].kind = "generic" THEN Inputs[x].default ELSE N(Inputs[x].default)>>
(* C13, C15: steps advance the time by the period; the reservoirs keep     *)
(* their lower bounds, the temperatures their bounds                       *)
Bounds ==
  \A i \in 1..Len(m) :
    LET M == m[i] IN M.step >= 0 =>
      /\ M.time = NAdd(Start, NMul("31536000", M.step))
      /\ \A j \in 2..(M.step + 1) :
           /\ NLe("10", M.buf.mat[j]) /\ NLe("1000", M.buf.ml[j]) /\ NLe("100", M.buf.mu[j])
           /\ NLe(M.buf.tatm[j], "40") /\ NLe("-1", M.buf.tocean[j]) /\ NLe(M.buf.tocean[j], "20")
      /\ \A o \in DOMAIN Outputs : \A j \in (M.step + 2)..Count : M.buf[o][j] = "0"
(* other models' outputs stay as they are                                  *)
Apart == [][op'.m # 0 => \A i \in 1..Len(m) : i # op'.m => \A o \in DOMAIN Outputs :
              OutKey(m[i], o) \in DOMAIN S.par => S'.par[OutKey(m[i], o)] = S.par[OutKey(m[i], o)]]_vars
=============================================================================
