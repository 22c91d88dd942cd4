------------------------------ MODULE MC_Store ------------------------------
(***************************************************************************)
(* Exhaustive exploration of ParamStore for scalar and generic parameters  *)
(* in a small hierarchy: every order of view requests (of all kinds and in *)
(* convertible, inconvertible and undefined units) and writes.             *)
(* Ghost: last[k] is the last value written to k and the unit it was       *)
(* written in.                                                             *)
(***************************************************************************)
EXTENDS ParamStore, Json

CONSTANTS MaxViews, MaxWrites, Deep, Scripts

U(str, f) == [s |-> str, f |-> f]
Names == IF Deep THEN << <<"A">>, <<"A", "B">>, <<"A", "C">>, <<"A", "B", "D">> >>
         ELSE << <<"A">>, <<"A", "B">>, <<"A", "C">> >>
Reg == <<"World">>
UnitsOf == << U("GtC/yr", <<<<"G", "tC", 1>>, <<"", "yr", -1>>>>),
              U("MtCO2/yr", <<<<"M", "tCO2", 1>>, <<"", "yr", -1>>>>),
              U("ppm", <<<<"", "ppm", 1>>>>),
              U("bogus", <<<<"", "bogus", 1>>>>) >>
Vals == <<"3", "-7/2">>

VARIABLES S, last, h, op
vars == <<S, last, h, op>>
view == <<S, last>>

K(i) == Key(1, Reg, Names[i])
Init == S = NewStore(<<"World">>) /\ last = [k \in {} |-> ""] /\ h = <<>> /\ op = [name |-> "init", err |-> FALSE]

Took(name, o, c) ==
  /\ op' = [name |-> name, err |-> o.must]
  /\ S' = o.st
  /\ h' = Append(h, c)
AskScalar(i, u) ==
  /\ Len(S.views) < MaxViews
  /\ Took("request", Request(S, K(i), "scalar", UnitsOf[u], <<>>, "none"),
          [op |-> "view", ps |-> 1, reg |-> Reg, name |-> Names[i], kind |-> "scalar", unit |-> UnitsOf[u],
           tps |-> <<>>, ext |-> "none"])
  /\ UNCHANGED last
AskGeneric(i) ==
  /\ Len(S.views) < MaxViews
  /\ Took("request", Request(S, K(i), "generic", NoUnit, <<>>, "none"),
          [op |-> "view", ps |-> 1, reg |-> Reg, name |-> Names[i], kind |-> "generic", unit |-> NoUnit,
           tps |-> <<>>, ext |-> "none"])
  /\ UNCHANGED last
Writes == FoldSet(LAMBDA k, acc : acc + S.par[k].w, 0, DOMAIN S.par)
WriteScalar(v, x) ==
  /\ S.views[v].kind = "scalar" /\ Writes < MaxWrites
  /\ LET o == WriteValue(S, v, Vals[x]) IN
     /\ Took("write", o, [op |-> "wr", v |-> v, val |-> Vals[x]])
     /\ last' = IF o.must THEN last
                ELSE [k \in DOMAIN last \union {S.views[v].key} |->
                        IF k = S.views[v].key THEN <<S.views[v].unit, Vals[x]>> ELSE last[k]]
WriteGeneric(v) ==
  /\ S.views[v].kind = "generic" /\ Writes < MaxWrites
  /\ LET o == WriteValue(S, v, "s:x") IN
     /\ Took("write", o, [op |-> "wr", v |-> v, val |-> "s:x"])
     /\ last' = IF o.must THEN last
                ELSE [k \in DOMAIN last \union {S.views[v].key} |->
                        IF k = S.views[v].key THEN <<NoUnit, "s:x">> ELSE last[k]]
Next ==
  \/ \E i \in 1..Len(Names), u \in 1..Len(UnitsOf) : AskScalar(i, u)
  \/ \E i \in 1..Len(Names) : AskGeneric(i)
  \/ \E v \in 1..Len(S.views), x \in 1..Len(Vals) : WriteScalar(v, x)
  \/ \E v \in 1..Len(S.views) : WriteGeneric(v)
Spec == Init /\ [][Next]_vars

(* one script per transition, for replay against the code                  *)
Emit == Scripts => PrintT("@@" \o ToJson(h'))

(*------------------------------- properties -------------------------------*)
Inv == Consistent(S)
(* C03: every view of a written leaf shows the last value written in its   *)
(* own unit, whatever the units involved on the way                        *)
LatestWrite ==
  \A v \in 1..Len(S.views) :
    LET V == S.views[v]
        o == ReadValue(S, v)
    IN V.key \in DOMAIN last =>
         /\ ~o.must
         /\ IF V.kind = "generic" THEN o.r.val = <<last[V.key][2]>>
            ELSE NEq(o.r.val[1], UApply(UConv(last[V.key][1], V.unit), last[V.key][2]))
(* ... and a view of a parameter without sub-parameters reads as empty     *)
(* before the first write                                                  *)
EmptyUntilWritten ==
  \A v \in 1..Len(S.views) :
    LET V == S.views[v] IN
    ~HasChildren(S, V.key) /\ V.key \notin DOMAIN last => ReadValue(S, v).errs = {"ParameterEmptyError"}
(* C04: aggregates are sums over all leaves and need all of them           *)
AggregateSum ==
  \A v \in 1..Len(S.views) :
    LET V == S.views[v]
        o == ReadValue(S, v)
        ls == LeafSeq(S, V.key)
    IN HasChildren(S, V.key) =>
         IF \A i \in 1..Len(ls) : ls[i] \in DOMAIN last
         THEN ~o.must /\ NEq(o.r.val[1],
                NSum([i \in 1..Len(ls) |-> UApply(UConv(last[ls[i]][1], V.unit), last[ls[i]][2])]))
         ELSE o.errs = {"ParameterEmptyError"}
(* C01/C02: what views aggregate over, kinds and units never change        *)
Frozen ==
  [][\A k \in DOMAIN S.par :
       /\ k \in DOMAIN S'.par
       /\ S.par[k].read => Below(S', k) = Below(S, k) /\ S'.par[k].read
       /\ S.par[k].kind # "none" => S'.par[k].kind = S.par[k].kind /\ S'.par[k].unit = S.par[k].unit
       /\ S.par[k].written => S'.par[k].written]_vars
(* C05: a rejected operation changes nothing                               *)
NoTrace == [][op'.err => S' = S /\ last' = last]_vars
(* C06: a write changes the parameter it goes to and no other              *)
Independent ==
  [][op'.name = "write" => \A j, k \in DOMAIN S.par : S'.par[j] # S.par[j] /\ S'.par[k] # S.par[k] => j = k]_vars
=============================================================================
