------------------------------ MODULE MC_Views ------------------------------
(***************************************************************************)
(* Exhaustive exploration of ParamStore for timeseries views: several      *)
(* views of one parameter (or of two children and their parent) in         *)
(* different units, on different grids and of different kinds, which are   *)
(* read, written (completely or in part), locked and unlocked in any order.*)
(***************************************************************************)
EXTENDS ParamStore, Json

CONSTANTS MaxViews, MaxSteps, Tree2, Scripts

U(str, f) == [s |-> str, f |-> f]
Reg == <<"World">>
Names == IF Tree2 THEN << <<"A", "B">>, <<"A", "C">>, <<"A">> >> ELSE << <<"A">> >>
GtC == U("GtC/yr", <<<<"G", "tC", 1>>, <<"", "yr", -1>>>>)
MtCO2 == U("MtCO2/yr", <<<<"M", "tCO2", 1>>, <<"", "yr", -1>>>>)
G0 == <<"0", "86400", "172800", "259200">>
G1 == <<"0", "43200", "86400", "259200">>
G2 == <<"43200", "172800", "345600">>
F(kind, u, g, e) == [kind |-> kind, unit |-> u, tps |-> g, ext |-> e]
Forms == IF Tree2 THEN << F("point", GtC, G0, "none"), F("point", MtCO2, G0, "linear"), F("point", GtC, G1, "constant") >>
         ELSE << F("point", GtC, G0, "none"), F("point", MtCO2, G0, "linear"), F("point", GtC, G1, "constant"),
                 F("point", GtC, G2, "none") >>
Vals == << <<"1", "2", "4", "-3">>, <<"5", "0", "1/2", "7">> >>

VARIABLES S, n, h, op
vars == <<S, n, h, op>>
view == <<S, n>>
Init == S = NewStore(<<"World">>) /\ n = 0 /\ h = <<>> /\ op = [name |-> "init", v |-> 0, err |-> FALSE]

Took(name, v, o, c) ==
  /\ op' = [name |-> name, v |-> v, err |-> o.must]
  /\ S' = o.st
  /\ h' = Append(h, c)
NumV == Len(S.views)
All(v) == 1..NumValues(S.views[v].kind, S.views[v].tps)
Positions(v) == [i \in All(v) |-> i]
(* requests come first, so that the operations are on a fixed set of views *)
Ask(i, f) ==
  /\ n = 0 /\ NumV < MaxViews
  /\ LET q == Forms[f] IN
     Took("request", 0, Request(S, Key(1, Reg, Names[i]), q.kind, q.unit, q.tps, q.ext),
          [op |-> "view", ps |-> 1, reg |-> Reg, name |-> Names[i], kind |-> q.kind, unit |-> q.unit,
           tps |-> q.tps, ext |-> q.ext])
  /\ UNCHANGED n
Step(v) == n < MaxSteps /\ n' = n + 1
DoSet(v, x) ==
  /\ Step(v)
  /\ LET vals == SubSeq(Vals[x], 1, NumValues(S.views[v].kind, S.views[v].tps)) IN
     Took("write", v, SetAll(S, v, vals), [op |-> "set", v |-> v, vals |-> vals])
DoSetAt(v) ==
  /\ Step(v)
  /\ Took("write", v, SetAt(S, v, <<2>>, <<"9">>, "0"), [op |-> "seti", v |-> v, ix |-> <<2>>, vals |-> <<"9">>])
DoGet(v) ==
  /\ Step(v)
  /\ Took("get", v, Get(S, v, Positions(v)), [op |-> "get", v |-> v, ix |-> Positions(v)])
DoLock(v) == Step(v) /\ ~S.views[v].locked /\ Took("lock", v, Lock(S, v), [op |-> "lock", v |-> v])
DoUnlock(v) == Step(v) /\ S.views[v].locked /\ Took("unlock", v, Unlock(S, v), [op |-> "unlock", v |-> v])
Next ==
  \/ \E i \in 1..Len(Names), f \in 1..Len(Forms) : Ask(i, f)
  \/ \E v \in 1..NumV, x \in 1..Len(Vals) : DoSet(v, x)
  \/ \E v \in 1..NumV : DoSetAt(v)
  \/ \E v \in 1..NumV : DoGet(v)
  \/ \E v \in 1..NumV : DoLock(v)
  \/ \E v \in 1..NumV : DoUnlock(v)
Spec == Init /\ [][Next]_vars
Emit == Scripts => PrintT("@@" \o ToJson(h'))

(*------------------------------- properties -------------------------------*)
Shown(St, v) == LET V == St.views[v]
                    o == Get(St, v, [i \in 1..NumValues(V.kind, V.tps) |-> i])
                IN [err |-> o.errs, val |-> IF o.must THEN <<>> ELSE o.r.val]
Near(a, b) == SeqClose(a, b, NMax(NMaxAbs(a), NMaxAbs(b)), TolPoint)
Same(a, b) == a.err = b.err /\ (a.err # {} \/ Near(a.val, b.val))
Inv == Consistent(S)
(* C07: a view on the parameter's own grid shows the parameter's data in   *)
(* its unit, unless a lock holds its writes back                           *)
Coherent ==
  \A v \in 1..NumV :
    LET V == S.views[v]
        p == S.par[V.key]
    IN ~HasChildren(S, V.key) /\ ~V.pend /\ p.written /\ p.tps = V.tps =>
         Same(Shown(S, v), [err |-> {}, val |-> UApplySeq(UConv(p.unit, V.unit), p.data)])
(* C07: what was written through a view is what this view shows until the  *)
(* parameter is written through another one                                *)
Mine == [][op'.name = "write" /\ ~op'.err =>
             LET V == S'.views[op'.v] IN
             V.has /\ Shown(S', op'.v).val = V.buf /\ (Len(h'[Len(h')].vals) = Len(V.buf) => V.buf = h'[Len(h')].vals)]_vars
(* C04: a parent shows the sum of what its children show on its grid and   *)
(* unit                                                                    *)
Sum ==
  \A v \in 1..NumV :
    LET V == S.views[v]
        kids == {w \in 1..NumV : IsBelow(S.views[w].key, V.key) /\ S.views[w].tps = V.tps
                                  /\ S.par[S.views[w].key].tps = V.tps /\ S.views[w].unit = V.unit
                                  /\ ~S.views[w].pend}
        covers == {S.views[w].key : w \in kids} = Leaves(S, V.key)
        one(k) == CHOOSE w \in kids : S.views[w].key = k
        ks == SetToSeq(Leaves(S, V.key))
    IN HasChildren(S, V.key) /\ covers =>
         IF \A k \in Leaves(S, V.key) : S.par[k].written
         THEN \A i \in All(v) :
                Near(<<Shown(S, v).val[i]>>, <<NSum([j \in 1..Len(ks) |-> Shown(S, one(ks[j])).val[i]])>>)
         ELSE Shown(S, v).err = {"ParameterEmptyError"}
(* C08: writes of a locked view stay in the view; unlocking makes them the *)
(* parameter's values; without pending writes it changes nothing           *)
Held == [][op'.name = "write" /\ S.views[op'.v].locked => S'.par = S.par
              /\ \A w \in 1..NumV : w # op'.v => S'.views[w] = S.views[w]]_vars
Publishes == [][op'.name = "unlock" /\ ~op'.err =>
                  LET V == S.views[op'.v]
                      q == S'.par[V.key] IN
                  IF ~V.pend THEN S'.par = S.par
                  ELSE q.written /\ ~S'.views[op'.v].pend
                       /\ (q.tps = V.tps => Near(UApplySeq(UConv(q.unit, V.unit), q.data), V.buf))]_vars
(* reads, locks and requests change nothing any view shows                 *)
Quiet == [][op'.name \in {"get", "lock", "request"} =>
              /\ \A k \in DOMAIN S.par : [S'.par[k] EXCEPT !.read = TRUE, !.kind = "", !.unit = NoUnit, !.tps = <<>>]
                                        = [S.par[k] EXCEPT !.read = TRUE, !.kind = "", !.unit = NoUnit, !.tps = <<>>]
              /\ op'.name # "request" => \A v \in 1..NumV : Same(Shown(S, v), Shown(S', v))]_vars
(* C05 *)
NoTrace == [][op'.err => S'.par = S.par /\ \A v \in 1..NumV : Same(Shown(S, v), Shown(S', v))]_vars
(* C06: a write shows in views of the written parameter and its ancestors  *)
Independent == [][op'.name \in {"write", "unlock"} =>
                    \A v \in 1..NumV : S.views[v].key # S.views[op'.v].key
                                       /\ ~IsBelow(S.views[op'.v].key, S.views[v].key) =>
                      Same(Shown(S, v), Shown(S', v))]_vars
=============================================================================
