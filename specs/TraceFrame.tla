----------------------------- MODULE TraceFrame -----------------------------
(***************************************************************************)
(* Checks recorded sequences of operations on data frames against Frame.   *)
(* The state holds all frames made so far, as last observed; an event says *)
(* which frames were changed (ch), which frame or table came out (new),    *)
(* whether the arguments were left as they were (intact), and for an       *)
(* in-place operation what the other form gave on the same frame (twin).   *)
(***************************************************************************)
EXTENDS Frame, Trace

TInit(e) == [fs |-> <<>>, units |-> e.units]
Show(r) == ToString([t |-> r.f.tps, rows |-> [i \in 1..Len(r.f.rows) |->
             [m |-> r.f.rows[i].m, v |-> [j \in 1..Len(r.f.rows[i].v) |-> NShow(r.f.rows[i].v[j])]]]])

Clause(e) ==
  CASE e.op = "filter" -> IF e.times = <<>> THEN "filter.meta"
                          ELSE IF e.conds = <<>> /\ e.lvl = <<>> THEN "filter.time" ELSE "filter.both"
    [] OTHER -> e.op

Source(S, e) == S.fs[e.f]
(*--------------------------- operations on frames -------------------------*)
Change(e, i) == {k \in 1..Len(e.ch) : e.ch[k].i = i}
Snap(s) == [tps |-> s.tps, cols |-> s.cols, rows |-> s.rows]
After(S, e, i) == LET k == Change(e, i) IN IF k = {} THEN S.fs[i] ELSE Snap(e.ch[CHOOSE x \in k : TRUE].s)
Target(e) == IF e.inplace THEN e.f ELSE 0
Sound(e) == /\ \A k \in 1..Len(e.ch) : e.ch[k].s.ok
            /\ \A k \in 1..Len(e.new) : e.new[k].ok
            /\ \A k \in 1..Len(e.twin) : e.twin[k].ok

Frames(S, e) ==
  LET r == Result(S.units, S.fs, e)
      cl == Clause(e)
      got == IF e.inplace THEN After(S, e, e.f) ELSE Snap(e.new[1])
      fs == [i \in 1..Len(S.fs) |-> After(S, e, i)]
  IN IF e.err # ""
     THEN IF e.err \notin r.errs THEN Reject(cl \o ".error", IF r.must THEN ToString(r.errs) ELSE "", S)
          ELSE IF e.ch # <<>> THEN Reject(cl \o ".failed", "no change", S)
          ELSE IF ~e.intact THEN Reject("intact", "arguments as before", S)
          ELSE Accept(S)
     ELSE IF r.must THEN Reject(cl \o ".accepted", ToString(r.errs), S)
     ELSE IF \E k \in 1..Len(e.ch) : e.ch[k].i # Target(e) THEN Reject("others", "other frames as before", S)
     ELSE IF ~e.intact THEN Reject("intact", "arguments as before", S)
     ELSE IF ~Sound(e) THEN Reject(cl \o ".aligned", "metadata and values of the same timeseries", S)
     ELSE IF Len(e.new) # (IF e.inplace THEN 0 ELSE 1) THEN Reject(cl \o ".result", "", S)
     ELSE IF \E k \in 1..Len(e.twin) : ~SameFrame(Snap(e.twin[k]), got, "0", Exactly, FALSE)
     THEN Reject("twin", ToString(e.twin), S)
     ELSE IF ~SameFrame(r.f, got, r.mag, r.tol, r.ordered) THEN Reject(cl \o ".value", Show(r), S)
     ELSE Accept([S EXCEPT !.fs = IF e.inplace THEN fs ELSE Append(fs, got)])

(*------------------------- operations giving tables -----------------------*)
Tables(S, e) ==
  LET r == Result(S.units, S.fs, e)
      cl == Clause(e)
  IN IF e.ch # <<>> THEN Reject("others", "all frames as before", S)
     ELSE IF ~e.intact THEN Reject("intact", "arguments as before", S)
     ELSE IF e.err # "" THEN (IF e.err \in r.errs THEN Accept(S) ELSE Reject(cl \o ".error", ToString(r.errs), S))
     ELSE IF r.must THEN Reject(cl \o ".accepted", ToString(r.errs), S)
     ELSE IF SameFrame(r.f, e.r, r.mag, r.tol, r.ordered) THEN Accept(S)
     ELSE Reject(cl \o ".value", Show(r), S)

(* policy "return": the joint rows of all frames, if there are duplicates  *)
AppendReturn(S, e) ==
  LET fs == [k \in 1..Len(e.fs) |-> S.fs[e.fs[k]]]
      j == Joint(fs)
      known(a, b) == \A c \in DOMAIN a : a[c] = Missing \/ a[c] = b[c]
  IN IF (\E k \in 1..Len(fs) : HasDup(fs[k])) \/ ~j.dup THEN Frames(S, e)
     ELSE IF e.err # "" THEN Reject("append.error", "", S)
     ELSE IF e.ch # <<>> THEN Reject("others", "all frames as before", S)
     ELSE IF e.r.rows = <<>> \/ Len(e.r.rows) # Len(j.all) \/ ~SameTimes(e.r.tps, j.f.tps)
     THEN Reject("append.return", ToString(j.all), S)
     ELSE IF \A i \in 1..Len(j.all) : \E k \in 1..Len(e.r.rows) :
               /\ known(j.all[i].m, e.r.rows[k].m)
               /\ ValsClose(j.all[i].v, e.r.rows[k].v, "0", Exactly)
     THEN Accept(S) ELSE Reject("append.return", ToString(j.all), S)
AppendWarn(S, e) ==
  LET j == Joint([k \in 1..Len(e.fs) |-> S.fs[e.fs[k]]]) IN
  IF e.err = "" /\ e.warned # (e.policy \in {"warn", "return"} /\ j.dup)
  THEN Reject("append.warning", ToString(j.dup), S)
  ELSE IF e.policy = "return" THEN AppendReturn(S, e) ELSE Frames(S, e)

(*--------------------------------- views ----------------------------------*)
Get(S, e) ==
  LET f == Source(S, e)
      key(c) == CASE c = "time" -> f.tps
                  [] c = "year" -> [j \in 1..Len(f.tps) |-> ToString(Parts(f.tps[j]).y)]
                  [] OTHER -> [i \in 1..Len(f.rows) |-> f.rows[i].m[c]]
      have == {"time", "year"} \union ColsOf(f)
      ok == IF e.single THEN e.keys[1] \in have ELSE \A k \in 1..Len(e.keys) : e.keys[k] \in ColsOf(f)
  IN IF e.ch # <<>> THEN Reject("others", "all frames as before", S)
     ELSE IF ~ok THEN (IF e.err = "KeyError" THEN Accept(S) ELSE Reject("get.unknown", "KeyError", S))
     ELSE IF e.err # "" THEN Reject("get.error", "", S)
     ELSE IF e.r = [k \in 1..Len(e.keys) |-> key(e.keys[k])] THEN Accept(S)
     ELSE Reject("get.value", ToString([k \in 1..Len(e.keys) |-> key(e.keys[k])]), S)

(* the wide table over some of the metadata columns, its ends, the values  *)
(* alone, the number of rows                                               *)
Look(S, e) ==
  LET f == Source(S, e)
      cs == {e.cols[i] : i \in 1..Len(e.cols)}
      rows == [i \in 1..Len(f.rows) |-> [m |-> Part(f.rows[i].m, cs), v |-> f.rows[i].v]]
      dup == \E i, j \in 1..Len(rows) : i < j /\ rows[i].m = rows[j].m
      lo == CASE e.how = "tail" -> IF Len(rows) > e.n THEN Len(rows) - e.n + 1 ELSE 1 [] OTHER -> 1
      hi == CASE e.how = "head" -> IF Len(rows) > e.n THEN e.n ELSE Len(rows) [] OTHER -> Len(rows)
      want == [tps |-> f.tps, cols |-> SetToSeq(cs), rows |-> SubSeq(rows, lo, hi)]
  IN IF e.ch # <<>> THEN Reject("others", "all frames as before", S)
     ELSE IF dup THEN (IF e.err = "ValueError" THEN Accept(S) ELSE Reject("look.accepted", "ValueError", S))
     ELSE IF e.err # "" THEN Reject("look.error", "", S)
     ELSE IF e.len # Len(rows) THEN Reject("look.len", ToString(Len(rows)), S)
     ELSE IF SameFrame(want, e.r, "0", Exactly, TRUE) THEN Accept(S)
     ELSE Reject("look.value", ToString(want), S)
(* what was handed out or handed in is changed by its owner                *)
Poke(S, e) == IF e.ch = <<>> THEN Accept(S) ELSE Reject("others.shared", "all frames as before", S)

(*----------------------- guesses of parameter types -----------------------*)
Guess(S, e) ==
  LET w == GuessType(S.units, Text(e.variable), Text(e.unit)) IN
  IF e.err # "" THEN Reject("interpolate.guess", w, S)
  ELSE IF e.r = w THEN Accept(S) ELSE Reject("interpolate.guess", w, S)

(* the parameters of a set made from a frame: one per row                  *)
Parameters(S, e) ==
  LET f == Source(S, e)
      p == ToParameters(S.units, f)
      want == [i \in 1..Len(f.rows) |-> TypeOf(S.units, f.rows[i].m)]
      m == f.rows[1].m
  IN IF e.ch # <<>> THEN Reject("others", "all frames as before", S)
     ELSE IF p.must THEN (IF e.err \in p.errs THEN Accept(S) ELSE Reject("ps.accepted", ToString(p.errs), S))
     ELSE IF Len(f.tps) < 3 THEN (IF e.err \in NoData THEN Accept(S) ELSE Reject("ps.accepted", ToString(NoData), S))
     ELSE IF e.err # "" THEN Reject("ps.error", "", S)
     ELSE IF Len(e.r) # Len(f.rows) THEN Reject("ps.number", "", S)
     ELSE IF \E i \in 1..Len(f.rows) : e.r[i].type # want[i] THEN Reject("ps.type", ToString(want), S)
     ELSE IF \E i \in 1..Len(f.rows) : Text(e.r[i].unit) # f.rows[i].m["unit"] THEN Reject("ps.unit", "", S)
     ELSE IF \E i \in 1..Len(f.rows) : ~ValsClose(f.rows[i].v, e.r[i].v, NMaxAbs(f.rows[i].v), TolPoint)
     THEN Reject("ps.values", ToString([i \in 1..Len(f.rows) |-> f.rows[i].v]), S)
     ELSE IF \E k \in 1..Len(e.meta) : e.meta[k].cell # m[e.meta[k].c] THEN Reject("ps.meta", ToString(m), S)
     ELSE Accept(S)

TJudge(S, e) ==
  CASE e.op \in {"new", "filter", "rename", "setmeta", "settime", "convert", "interpolate", "resample", "export", "ps",
                  "fromset"}
         -> Frames(S, e)
    [] e.op = "append" -> AppendWarn(S, e)
    [] e.op \in {"process", "ref"} -> Tables(S, e)
    [] e.op = "get" -> Get(S, e)
    [] e.op = "look" -> Look(S, e)
    [] e.op = "poke" -> Poke(S, e)
    [] e.op = "guess" -> Guess(S, e)
    [] e.op = "params" -> Parameters(S, e)

(*----------------------- the trace state machine --------------------------*)
T == JsonDeserialize(IOEnv.TRACE)
VARIABLES tid, l, st, fin
Init == tid \in 1..Len(T) /\ l = 1 /\ st = TInit(T[tid]) /\ fin = FALSE
Next ==
  /\ ~fin
  /\ IF l > Len(T[tid].ev)
     THEN PrintT("@@" \o ToJson([done |-> T[tid].id])) /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
     ELSE LET j == TJudge(st, T[tid].ev[l]) IN
          IF j.why = ""
          THEN l' = l + 1 /\ st' = j.st /\ UNCHANGED <<tid, fin>>
          ELSE /\ PrintT("@@" \o ToJson([reject |-> T[tid].id, at |-> l, why |-> j.why, want |-> j.want]))
               /\ fin' = TRUE /\ UNCHANGED <<tid, l, st>>
=============================================================================
