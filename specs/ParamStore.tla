----------------------------- MODULE ParamStore -----------------------------
(***************************************************************************)
(* Parameter sets, hierarchical parameters and views on them               *)
(* (openscm.core.parameterset, parameters, regions, views).                *)
(*                                                                         *)
(* State S:                                                                *)
(*  S.roots  name of the root region of every parameter set                *)
(*  S.par    function from keys <<parameter set, region path, name path>>  *)
(*           of the existing parameters to their state                     *)
(*  S.views  sequence of the views handed out                              *)
(*                                                                         *)
(* Every operation is a function of S and its arguments to                 *)
(*   [errs |-> errors that explain a rejection,                            *)
(*    must |-> the operation has to be rejected,                           *)
(*    st   |-> the state after success,   r |-> the result]                *)
(* The design model (MC_ParamStore) and the validation of traces of the    *)
(* implementation (TraceStore) use these same functions.                   *)
(***************************************************************************)
EXTENDS Units, TimeConv

NoUnit == [s |-> "None", f |-> <<>>]
NoPar == [kind |-> "none", unit |-> NoUnit, tps |-> <<>>, data |-> <<>>, mag |-> "0",
          written |-> FALSE, read |-> FALSE, w |-> 0, lw |-> -1, lv |-> 0]
NewStore(roots) == [roots |-> roots, par |-> [k \in {} |-> NoPar], views |-> <<>>]

IsTs(kind) == kind \in {"point", "average"}
IsNum(kind) == kind = "scalar" \/ IsTs(kind)
(* Values may have been copied from averages, which are only converted     *)
(* with the accuracy of the numerical integration.                         *)
Tol(S) == IF \E v \in 1..Len(S.views) : S.views[v].kind = "average" THEN TolAverage ELSE TolPoint

Fail(errs, S) == [errs |-> errs, must |-> TRUE, st |-> S, r |-> <<>>]
Done(S, r) == [errs |-> {}, must |-> FALSE, st |-> S, r |-> r]

(*------------------------------- hierarchy --------------------------------*)
Key(ps, reg, name) == <<ps, reg, name>>
Above(k) == {<<k[1], k[2], SubSeq(k[3], 1, n)>> : n \in 1..(Len(k[3]) - 1)}
IsBelow(c, k) == c[1] = k[1] /\ c[2] = k[2] /\ Len(c[3]) > Len(k[3]) /\ IsPrefix(k[3], c[3])
Below(S, k) == {c \in DOMAIN S.par : IsBelow(c, k)}
HasChildren(S, k) == \E c \in DOMAIN S.par : IsBelow(c, k)
Tree(S, k) == {k} \union Below(S, k)
Leaves(S, k) == {c \in Tree(S, k) : ~HasChildren(S, c)}
LeafSeq(S, k) == SetToSeq(Leaves(S, k))
(* the deepest existing parameter above k *)
Anchor(S, k) == LET ex == Above(k) \cap DOMAIN S.par IN
                IF ex = {} THEN {} ELSE {CHOOSE p \in ex : \A q \in ex : Len(q[3]) <= Len(p[3])}

(*----------------------------- view requests ------------------------------*)
ValidRegion(S, ps, reg) == reg # <<>> /\ reg[1] = S.roots[ps]

(* Errors of requesting a view; a request with several faults may report   *)
(* any of them.                                                            *)
RequestErrors(S, k, kind, unit) ==
  LET tree == IF k \in DOMAIN S.par THEN Tree(S, k) ELSE {}
      numeric == {c \in tree : IsNum(S.par[c].kind)}
  IN (IF ~ValidRegion(S, k[1], k[2]) \/ k[3] = <<>> THEN {"ValueError"} ELSE {})
     \union (IF IsNum(kind) /\ ~UDefined(unit) THEN {"UndefinedUnitError"} ELSE {})
     \union (IF k \in DOMAIN S.par THEN {}
             ELSE UNION {IF S.par[a].written THEN {"ParameterWrittenError"}
                         ELSE IF S.par[a].read THEN {"ParameterReadError"} ELSE {} : a \in Anchor(S, k)})
     \union (IF \E c \in tree : S.par[c].kind \notin {"none", kind} THEN {"ParameterTypeError"} ELSE {})
     \union (IF kind = "generic" /\ Cardinality(tree) > 1 THEN {"ParameterAggregationError"} ELSE {})
     \union (IF IsNum(kind) /\ UDefined(unit)
                /\ \E c \in numeric : ~UConv(S.par[c].unit, unit).ok
             THEN {"DimensionalityError"} ELSE {})

(* Requests of timeseries views which end before the parameter's data      *)
(* starts may also be rejected (see TimeConv).                             *)
RequestRefusable(S, k, kind, tps) ==
  IsTs(kind) /\ k \in DOMAIN S.par
  /\ \E c \in Tree(S, k) : S.par[c].kind = kind /\ Refusable(S.par[c].tps, tps)

NewView(k, kind, unit, tps, ext) ==
  [key |-> k, kind |-> kind, unit |-> unit, tps |-> tps, ext |-> ext,
   locked |-> FALSE, pend |-> FALSE, has |-> FALSE, buf |-> <<>>, mag |-> "0", at |-> 0]

Request(S, k, kind, unit, tps, ext) ==
  LET errs == RequestErrors(S, k, kind, unit)
      par1 == S.par @@ [c \in Above(k) \union {k} |-> NoPar]
      p == par1[k]
      q == IF p.kind # "none" THEN p ELSE [p EXCEPT !.kind = kind, !.tps = tps,
                                                      !.unit = IF IsNum(kind) THEN unit ELSE NoUnit]
      tree == Tree([S EXCEPT !.par = par1], k)
      par2 == [c \in DOMAIN par1 |->
                 IF c = k THEN [q EXCEPT !.read = TRUE]
                 ELSE IF c \in tree THEN [par1[c] EXCEPT !.read = TRUE] ELSE par1[c]]
      maybe == IF RequestRefusable(S, k, kind, tps) THEN NoData ELSE {}
  IN IF errs # {} THEN Fail(errs \union maybe, S)
     ELSE [errs |-> maybe,
           must |-> FALSE, r |-> <<>>,
           st |-> [S EXCEPT !.par = par2, !.views = Append(@, NewView(k, kind, unit, tps, ext))]]

(*------------------------------- conversions ------------------------------*)
(* A parameter's data as seen by a view.                                   *)
FromParameter(p, V) ==
  IF V.kind = "scalar"
  THEN LET c == UConv(p.unit, V.unit) IN
       [err |-> {}, val |-> UApplySeq(c, p.data), mag |-> UMag(c, p.mag)]
  ELSE LET c == UConv(p.unit, V.unit)
           t == Conv(V.kind, p.tps, UApplySeq(c, p.data), V.tps, V.ext)
       IN [err |-> t.err, val |-> t.val, mag |-> NMax(t.mag, UMag(c, p.mag))]
(* A view's values as parameter data.                                      *)
ToParameter(p, V, vals, mag) ==
  IF V.kind = "scalar"
  THEN LET c == UConv(V.unit, p.unit) IN
       [err |-> {}, val |-> UApplySeq(c, vals), mag |-> UMag(c, mag)]
  ELSE LET c == UConv(V.unit, p.unit)
           t == Conv(V.kind, V.tps, UApplySeq(c, vals), p.tps, V.ext)
       IN [err |-> t.err, val |-> t.val, mag |-> NMax(t.mag, UMag(c, mag))]

(* Values of a parameter (aggregated over its leaves) as seen by a view.   *)
Fresh(S, V) ==
  LET ls == LeafSeq(S, V.key)
      missing == \E i \in 1..Len(ls) : ~S.par[ls[i]].written
      some == {i \in 1..Len(ls) : S.par[ls[i]].written}
      conv == [i \in some |-> FromParameter(S.par[ls[i]], V)]
      errs == (IF missing THEN {"ParameterEmptyError"} ELSE {})
              \union UNION {conv[i].err : i \in some}
      n == IF V.kind = "scalar" THEN 1 ELSE NumValues(V.kind, V.tps)
  IN IF errs # {} THEN [err |-> errs, val |-> <<>>, mag |-> "0"]
     ELSE [err |-> {},
           val |-> [j \in 1..n |-> NRound(NSum([i \in 1..Len(ls) |-> conv[i].val[j]]))],
           mag |-> NSum([i \in 1..Len(ls) |-> conv[i].mag])]

(*------------------------- scalar and generic views -----------------------*)
ReadValue(S, v) ==
  LET V == S.views[v]
      p == S.par[V.key]
      x == Fresh(S, V)
  IN IF V.kind = "generic"
     THEN IF p.written THEN Done(S, [val |-> p.data, mag |-> "0"]) ELSE Fail({"ParameterEmptyError"}, S)
     ELSE IF x.err # {} THEN Fail(x.err, S) ELSE Done(S, [val |-> x.val, mag |-> x.mag])

WriteValue(S, v, val) ==
  LET V == S.views[v]
      p == S.par[V.key]
      x == IF V.kind = "generic" THEN [val |-> <<val>>, mag |-> "0"]
           ELSE ToParameter(p, V, <<N(val)>>, NAbs(val))
  IN IF HasChildren(S, V.key) THEN Fail({"ParameterReadonlyError"}, S)
     ELSE Done([S EXCEPT !.par[V.key] =
                  [p EXCEPT !.data = x.val, !.mag = x.mag, !.written = TRUE, !.w = @ + 1]], <<>>)

(*---------------------------- timeseries views ----------------------------*)
(* What a view shows is its buffer, which follows the parameter: it is     *)
(* recomputed when the parameter was written since (through another view); *)
(* while writes are held back by a lock, it shows these.                   *)
Stale(S, v) == LET V == S.views[v] IN
  ~V.pend /\ (~V.has \/ HasChildren(S, V.key) \/ V.at # S.par[V.key].w)
Refresh(S, v) ==
  IF ~Stale(S, v) THEN Done(S, <<>>)
  ELSE LET V == S.views[v]
           x == Fresh(S, V)
       IN IF x.err # {} THEN Fail(x.err, S)
          ELSE Done([S EXCEPT !.views[v] = [V EXCEPT !.has = TRUE, !.buf = x.val, !.mag = x.mag,
                                                     !.at = S.par[V.key].w]], <<>>)

(* Make the view's buffer the parameter's data; if the data is not enough  *)
(* to convert, nothing changes and the view shows the old data again.      *)
Publish(S0, S, v) ==
  LET V == S.views[v]
      p == S.par[V.key]
      x == ToParameter(p, V, V.buf, V.mag)
  IN IF x.err # {} THEN Fail(x.err, S0)
     ELSE Done([S EXCEPT !.par[V.key] = [p EXCEPT !.data = [i \in 1..Len(x.val) |-> NRound(x.val[i])],
                                                  !.mag = x.mag, !.written = TRUE, !.w = @ + 1],
                         !.views[v].at = p.w + 1, !.views[v].pend = FALSE], <<>>)
Write(S, v, vals, mag) ==
  LET S1 == [S EXCEPT !.views[v] = [@ EXCEPT !.has = TRUE, !.buf = vals, !.mag = NMax(mag, NMaxAbs(vals))]]
  IN IF S.views[v].locked THEN Done([S1 EXCEPT !.views[v].pend = TRUE], <<>>)
     ELSE Publish(S, S1, v)

SetAll(S, v, vals) ==
  LET V == S.views[v]
      errs == (IF HasChildren(S, V.key) THEN {"ParameterReadonlyError"} ELSE {})
              \union (IF Len(vals) # NumValues(V.kind, V.tps) THEN {"TimeseriesPointsValuesMismatchError"} ELSE {})
  IN IF errs # {} THEN Fail(errs, S) ELSE Write(S, v, [i \in 1..Len(vals) |-> N(vals[i])], "0")

(* Read values at the given positions.                                     *)
Get(S, v, ix) ==
  LET a == Refresh(S, v)
      V == a.st.views[v]
  IN IF a.must THEN a
     ELSE IF \E i \in 1..Len(ix) : ix[i] \notin 1..Len(V.buf) THEN Fail({"IndexError"}, a.st)
     ELSE Done(a.st, [val |-> [i \in 1..Len(ix) |-> V.buf[ix[i]]], mag |-> V.mag])

(* Assign values to the given positions of the current values.             *)
SetAt(S, v, ix, vals, mag) ==
  LET a == Refresh(S, v)
      V == a.st.views[v]
      last(j) == CHOOSE i \in 1..Len(ix) : ix[i] = j /\ \A k \in 1..Len(ix) : ix[k] = j => k <= i
      new == [j \in 1..Len(V.buf) |->
                IF \E i \in 1..Len(ix) : ix[i] = j THEN NRound(N(vals[last(j)])) ELSE V.buf[j]]
  IN IF HasChildren(S, S.views[v].key) THEN Fail({"ParameterReadonlyError"} \union a.errs, S)
     ELSE IF a.must THEN a
     ELSE IF \E i \in 1..Len(ix) : ix[i] \notin 1..Len(V.buf) THEN Fail({"IndexError"}, a.st)
     ELSE IF Len(vals) # Len(ix) THEN Fail({"ValueError"}, a.st)
     ELSE Write(a.st, v, new, NMax(mag, V.mag))

(* Writes of what is not a number are rejected without a trace; elements   *)
(* are written after reading the current values.                           *)
WriteBad(S, v, whole) ==
  LET a == Refresh(S, v)
      V == S.views[v]
      ro == IF HasChildren(S, V.key) THEN {"ParameterReadonlyError"} ELSE {}
  IN IF whole THEN Fail({"TypeError", "ValueError"} \union ro, S)
     ELSE IF ro # {} THEN Fail(ro \union a.errs, S)
     ELSE IF a.must THEN a
     ELSE Fail({"TypeError", "ValueError"}, a.st)

(* Operands of elementwise operations: numbers, sequences of numbers or    *)
(* (parts of) views.                                                       *)
Operand(S, x, n) ==
  IF x.k = "num" THEN Done(S, [val |-> [i \in 1..n |-> N(x.c[1])], mag |-> NAbs(x.c[1])])
  ELSE IF x.k = "vec" THEN Done(S, [val |-> [i \in 1..Len(x.c) |-> N(x.c[i])], mag |-> NMaxAbs(x.c)])
  ELSE Get(S, x.v, x.ix)
Elementwise(f, a, b) ==
  CASE f = "add" -> NAdd(a, b) [] f = "sub" -> NSub(a, b) [] f = "mul" -> NMul(a, b)
    [] f = "first" -> a
ElementMag(f, a, b) == IF f = "mul" THEN NMul(a, b) ELSE IF f = "first" THEN a ELSE NAdd(a, b)

Combine(S, f, x, y, n) ==
  LET a == Operand(S, x, n)
      b == Operand(a.st, y, n)
  IN IF a.must \/ b.must THEN Fail(a.errs \union b.errs, IF a.must THEN a.st ELSE b.st)
     ELSE IF Len(a.r.val) # n \/ Len(b.r.val) # n THEN Fail({"ValueError"}, b.st)
     ELSE Done(b.st, [val |-> [i \in 1..n |-> Elementwise(f, a.r.val[i], b.r.val[i])],
                      mag |-> ElementMag(f, a.r.mag, b.r.mag)])

(* v[ix] = x f y, elementwise (in-place operators, numpy out=, assignment  *)
(* of another view's values).                                              *)
Assign(S, v, ix, f, x, y) ==
  LET a == Combine(S, f, x, y, Len(ix))
      b == SetAt(a.st, v, ix, a.r.val, a.r.mag)
  IN IF HasChildren(S, S.views[v].key) THEN Fail({"ParameterReadonlyError"} \union a.errs \union Refresh(S, v).errs, S)
     ELSE IF a.must THEN Fail(a.errs \union Refresh(S, v).errs, a.st)
     ELSE b
(* v.values = x f y: all values at once (the old ones need not be readable)*)
AssignAll(S, v, f, x, y, n) ==
  LET a == Combine(S, f, x, y, n)
      V == S.views[v]
      errs == (IF HasChildren(S, V.key) THEN {"ParameterReadonlyError"} ELSE {})
              \union (IF n # NumValues(V.kind, V.tps) THEN {"TimeseriesPointsValuesMismatchError"} ELSE {})
  IN IF a.must THEN Fail(a.errs \union errs, a.st)
     ELSE IF errs # {} THEN Fail(errs, a.st)
     ELSE Write(a.st, v, [i \in 1..n |-> NRound(a.r.val[i])], a.r.mag)

Lock(S, v) == Done([S EXCEPT !.views[v].locked = TRUE], <<>>)
Unlock(S, v) ==
  LET V == S.views[v]
      a == IF V.pend THEN Publish(S, S, v) ELSE Done(S, <<>>)
  IN IF a.must THEN a ELSE Done([a.st EXCEPT !.views[v].locked = FALSE], <<>>)

(*------------------------------ information -------------------------------*)
Ensure(S, k) == IF S.par[k].written THEN Done(S, <<>>) ELSE Fail({"ParameterEmptyError"}, S)

(* The version increases with every write and with nothing else.           *)
VersionOk(p, ver) ==
  CASE p.lw = -1 -> TRUE
    [] p.w = p.lw -> ver = p.lv
    [] OTHER -> ver > p.lv
SawVersion(S, k, ver) == [S EXCEPT !.par[k].lw = S.par[k].w, !.par[k].lv = ver]

(*------------------------------- invariants -------------------------------*)
Consistent(S) ==
  /\ \A k \in DOMAIN S.par :
       LET p == S.par[k] IN
       /\ Above(k) \subseteq DOMAIN S.par
       /\ ValidRegion(S, k[1], k[2])
       /\ p.written => ~HasChildren(S, k) /\ p.read
       /\ p.read => p.kind # "none" \/ \E a \in Above(k) : S.par[a].kind # "none"
       /\ HasChildren(S, k) => p.kind # "generic" /\ p.w = 0
       /\ (p.w > 0) = p.written
       /\ p.kind # "none" =>
            \A c \in Below(S, k) :
              /\ S.par[c].kind \in {"none", p.kind}
              /\ S.par[c].read
              /\ IsNum(S.par[c].kind) => UConv(p.unit, S.par[c].unit).ok
  /\ \A v \in 1..Len(S.views) :
       LET V == S.views[v] IN
       /\ V.key \in DOMAIN S.par /\ S.par[V.key].kind = V.kind
       /\ V.pend => V.locked /\ V.has
       /\ V.has /\ IsTs(V.kind) => Len(V.buf) = NumValues(V.kind, V.tps)
=============================================================================
