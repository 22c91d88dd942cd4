----------------------------- MODULE StoreJudge -----------------------------
(***************************************************************************)
(* Checks recorded operations on parameter sets against ParamStore: each   *)
(* event is one call of the public interface with its arguments, its       *)
(* outcome (err = name of the exception or "") and its result.             *)
(* Judge returns [why |-> "" or the clause that rejects the event,         *)
(* want |-> expectation for the message, st |-> next state].               *)
(***************************************************************************)
EXTENDS ParamStore, Trace

(* outcome of an operation against the allowed ones                        *)
Outcome(e, S, o, clause) ==
  IF e.err = ""
  THEN IF o.must THEN Reject(clause \o ".accepted", ToString(o.errs), S) ELSE Accept(o.st)
  ELSE IF e.err \in o.errs THEN Accept(IF o.must THEN o.st ELSE S)
  ELSE Reject(clause \o ".error", ToString(IF o.must THEN o.errs ELSE {""}), S)

Values(e, S, o, clause, tol) ==
  LET a == Outcome(e, S, o, clause) IN
  IF a.why # "" \/ e.err # "" THEN a
  ELSE IF SeqClose(e.r, o.r.val, o.r.mag, tol) THEN a
  ELSE Reject(clause \o ".value", ToString([i \in 1..Len(o.r.val) |-> NShow(o.r.val[i])]), S)

(* comparisons: free where the operands agree within the tolerance         *)
Holds(f, d) ==
  CASE f = "lt" -> NLt(d, "0") [] f = "le" -> NLe(d, "0") [] f = "gt" -> NLt("0", d) [] f = "ge" -> NLe("0", d)
    [] f = "eq" -> FALSE [] f = "ne" -> TRUE
Compare(e, S, clause, tol) ==
  LET o == Combine(S, "sub", e.x, e.y, e.n)
      a == Outcome(e, S, o, clause)
      ok(i) == LET d == o.r.val[i] IN
               NNaN(d) \/ NLe(NAbs(d), NMul(tol, o.r.mag)) \/ (e.r[i] = "1") = Holds(e.f, d)
  IN IF a.why # "" \/ e.err # "" THEN a
     ELSE IF Len(e.r) = e.n /\ \A i \in 1..e.n : ok(i) THEN a
     ELSE Reject(clause \o ".value", e.f \o " " \o ToString([i \in 1..e.n |-> NShow(o.r.val[i])]), S)

(* reductions over all values                                              *)
Reduce(e, S) ==
  LET o == Get(S, e.v, [i \in 1..e.n |-> i])
      v == o.r.val
      all(op(_, _)) == CHOOSE x \in {v[i] : i \in 1..Len(v)} : \A i \in 1..Len(v) : op(x, v[i])
      x == CASE e.f = "sum" -> NSum(v) [] e.f = "mean" -> NDiv(NSum(v), N(ToString(e.n)))
             [] e.f = "max" -> all(LAMBDA a, b : NLe(b, a)) [] e.f = "min" -> all(NLe)
  IN IF o.must THEN o ELSE [o EXCEPT !.r = [val |-> <<x>>, mag |-> NMul(o.r.mag, N(ToString(e.n)))]]

InfoOf(S, k) ==
  LET p == S.par[k] IN
  [kind |-> p.kind, unit |-> p.unit.s, empty |-> ~p.written, name |-> k[3], region |-> k[2]]

Info(e, S, k) ==
  IF e.err # "" THEN Reject("info.error", "", S)
  ELSE IF k \notin DOMAIN S.par
  THEN IF e.found THEN Reject("info.phantom", "None", S) ELSE Accept(S)
  ELSE IF ~e.found THEN Reject("info.missing", ToString(InfoOf(S, k)), S)
  ELSE LET x == InfoOf(S, k)
           y == [kind |-> e.kind, unit |-> e.unit, empty |-> e.empty, name |-> e.name2, region |-> e.region2]
       IN IF [x EXCEPT !.unit = ""] # [y EXCEPT !.unit = ""] \/ (x.unit # y.unit)
          THEN Reject(IF x.empty # y.empty THEN "info.empty" ELSE IF x.name # y.name \/ x.region # y.region
                      THEN "info.identity" ELSE "info.kindunit", ToString(x), S)
          ELSE IF VersionOk(S.par[k], e.ver) THEN Accept(SawVersion(S, k, e.ver))
          ELSE Reject("info.version", ToString(<<S.par[k].w, S.par[k].lw, S.par[k].lv>>), S)

VInfo(e, S) ==
  LET V == S.views[e.v]
      p == S.par[V.key]
      x == [kind |-> p.kind, unit |-> IF V.kind = "generic" THEN p.unit.s ELSE V.unit.s,
            empty |-> ~p.written, name |-> V.key[3], region |-> V.key[2],
            len |-> IF IsTs(V.kind) THEN NumValues(V.kind, V.tps) ELSE 0]
      y == [kind |-> e.kind, unit |-> e.unit, empty |-> e.empty, name |-> e.name2, region |-> e.region2,
            len |-> e.len]
  IN IF e.err # "" THEN Reject("info.error", "", S)
     ELSE IF x # y
     THEN Reject(IF x.empty # y.empty THEN "info.empty" ELSE IF x.name # y.name \/ x.region # y.region
                 THEN "info.identity" ELSE "info.kindunit", ToString(x), S)
     ELSE IF VersionOk(p, e.ver) THEN Accept(SawVersion(S, V.key, e.ver))
     ELSE Reject("info.version", ToString(<<p.w, p.lw, p.lv>>), S)

ReadClause(S, v) ==
  LET V == S.views[v] IN
  IF HasChildren(S, V.key) THEN "read.aggregate"
  ELSE IF IsTs(V.kind) THEN IF V.pend \/ V.locked THEN "read.locked" ELSE "read.timeseries"
  ELSE "read." \o V.kind
WriteClause(S, v) ==
  LET V == S.views[v] IN
  IF HasChildren(S, V.key) THEN "write.aggregate"
  ELSE IF IsTs(V.kind) THEN IF V.locked THEN "write.locked" ELSE "write.timeseries"
  ELSE "write." \o V.kind

StoreJudge(S, e) ==
  CASE e.op = "view" ->
         Outcome(e, S, Request(S, Key(e.ps, e.reg, e.name), e.kind, e.unit, e.tps, e.ext), "request")
    [] e.op = "badview" -> \* a request for what is no kind of timeseries, or with no kind of inter- or extrapolation
         IF e.err = "" THEN Reject("request.accepted", "ValueError", S)
         ELSE IF e.err \in {"ValueError", "KeyError"} \union Request(S, Key(e.ps, e.reg, e.name), e.kind, e.unit, e.tps, "none").errs
         THEN Accept(S) ELSE Reject("request.error", "ValueError", S)
    [] e.op = "info" -> Info(e, S, Key(e.ps, e.reg, e.name))
    [] e.op = "vinfo" -> VInfo(e, S)
    [] e.op = "ensure" -> Outcome(e, S, Ensure(S, S.views[e.v].key), "ensure")
    [] e.op = "rd" ->
         IF S.views[e.v].kind = "generic"
         THEN LET o == ReadValue(S, e.v)
                  a == Outcome(e, S, o, "read.generic")
              IN IF a.why # "" \/ e.err # "" THEN a
                 ELSE IF o.r.val = e.r THEN a ELSE Reject("read.generic.value", ToString(o.r.val), S)
         ELSE Values(e, S, ReadValue(S, e.v), ReadClause(S, e.v), TolPoint)
    [] e.op = "wr" -> Outcome(e, S, WriteValue(S, e.v, e.val), WriteClause(S, e.v))
    [] e.op = "get" -> Values(e, S, Get(S, e.v, e.ix), ReadClause(S, e.v), Tol(S))
    [] e.op = "calc" -> Values(e, S, Combine(S, e.f, e.x, e.y, e.n), ReadClause(S, e.v), Tol(S))
    [] e.op = "cmp" -> Compare(e, S, ReadClause(S, e.v), Tol(S))
    [] e.op = "reduce" -> Values(e, S, Reduce(e, S), ReadClause(S, e.v), Tol(S))
    [] e.op = "len" -> IF e.err # "" THEN Outcome(e, S, Refresh(S, e.v), ReadClause(S, e.v))
                       ELSE IF e.n = NumValues(S.views[e.v].kind, S.views[e.v].tps) THEN Accept(S)
                       ELSE Reject("read.timeseries.length", ToString(NumValues(S.views[e.v].kind, S.views[e.v].tps)), S)
    [] e.op = "set" -> Outcome(e, S, SetAll(S, e.v, e.vals), WriteClause(S, e.v))
    [] e.op = "seti" -> Outcome(e, S, SetAt(S, e.v, e.ix, e.vals, "0"), WriteClause(S, e.v))
    [] e.op = "wrbad" -> Outcome(e, S, WriteBad(S, e.v, e.whole), WriteClause(S, e.v))
    [] e.op = "assign" -> Outcome(e, S, Assign(S, e.v, e.ix, e.f, e.x, e.y), WriteClause(S, e.v))
    [] e.op = "assignall" -> Outcome(e, S, AssignAll(S, e.v, e.f, e.x, e.y, e.n), WriteClause(S, e.v))
    [] e.op = "lock" -> Outcome(e, S, Lock(S, e.v), "lock")
    [] e.op = "unlock" -> Outcome(e, S, Unlock(S, e.v), "unlock")
=============================================================================
