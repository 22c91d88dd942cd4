------------------------------- MODULE MC_Frame -------------------------------
(***************************************************************************)
(* Exhaustive exploration of Frame: every sequence of operations of a menu *)
(* on a few small frames (gaps in metadata and values, several units, kinds*)
(* of timeseries and depths of names), with the laws the operations obey   *)
(* checked on every frame reached.  Every history is printed for replay on *)
(* the code.                                                               *)
(***************************************************************************)
EXTENDS Frame, Json
CONSTANTS Menu, MaxSteps, Scripts

VARIABLES fs, n, h
vars == <<fs, n, h>>
view == <<fs, n>>

(*-------------------------------- universe --------------------------------*)
Units0 == ("GtC/yr" :> <<<<"G", "tC", 1>>, <<"", "yr", -1>>>>) @@ ("MtCO2/yr" :> <<<<"M", "tCO2", 1>>, <<"", "yr", -1>>>>)
       @@ ("K" :> <<<<"", "K", 1>>>>) @@ ("degC" :> <<<<"", "degC", 1>>>>) @@ ("MtCH4/yr" :> <<<<"M", "tCH4", 1>>, <<"", "yr", -1>>>>)
       @@ ("tC" :> <<<<"", "tC", 1>>>>) @@ ("tCO2" :> <<<<"", "tCO2", 1>>>>)
U(s) == [s |-> s, f |-> Units0[s]]
(* 2005-01-01 (a Saturday), 2010-07-05 (a Monday), 2015-07-01 (a Wednesday)*)
T1 == "1104537600"
T2 == "1278288000"
T3 == "1435708800"
T4 == "1483228800"   \* 2017-01-01
Five == <<"model", "scenario", "region", "variable", "unit">>
M(s, r, v, u) == [model |-> "s:m", scenario |-> Text(s), region |-> Text(r), variable |-> Text(v), unit |-> Text(u)]
Row(m, v) == [m |-> m, v |-> v]
With(m, c, x) == [k \in (DOMAIN m) \union {c} |-> IF k = c THEN x ELSE m[k]]
Whole == [tps |-> <<T1, T2, T3>>, cols |-> Five,
          rows |-> <<Row(M("a", "World", "E", "GtC/yr"), <<"1", "2", "4">>),
                     Row(M("b", "World|A", "E|CO2", "MtCO2/yr"), <<"-3", "1/2", "5">>),
                     Row(M("a", "World", "T", "K"), <<"10", "0", "7">>)>>]
Gappy == [tps |-> <<T1, T3>>, cols |-> Append(Five, "run id"),
          rows |-> <<Row(With(M("a", "World", "E", "GtC/yr"), "run id", "n:1"), <<"1", "nan">>),
                     Row(With(M("a", "World", "E", "GtC/yr"), "run id", "nan"), <<"nan", "6">>),
                     Row(With(M("b", "World|A|B", "E|CO2", "K"), "run id", "nan"), <<"3", "9">>)>>]
Late == [tps |-> <<T3, T4>>, cols |-> Five,
         rows |-> <<Row(M("a", "World", "E", "GtC/yr"), <<"4", "8">>), Row(M("c", "World", "E", "GtC/yr"), <<"1", "1">>)>>]
OneRun == [tps |-> <<T1, T2, T3>>, cols |-> Append(Five, "climate_model"),
           rows |-> <<Row(With(M("a", "World", "E|CO2", "GtC/yr"), "climate_model", "s:unspecified"), <<"1", "2", "4">>),
                      Row(With(M("a", "World|A", "T", "K"), "climate_model", "s:unspecified"), <<"3", "-1", "0">>)>>]
Base == CASE Menu = "ps" -> {OneRun, Whole}
          [] Menu \in {"interpolate"} -> {Whole}
          [] OTHER -> {Whole, Gappy, Late}
New(f) == [op |-> "new", f |-> 0, inplace |-> FALSE, bad |-> "", cols |-> f.cols, tps |-> f.tps, rows |-> f.rows]

(*--------------------------------- menus ----------------------------------*)
S(x) == [k |-> "s", x |-> x]
C(c, items) == [c |-> c, items |-> items]
All == [conds |-> <<>>, times |-> <<>>, lvl |-> <<>>, keep |-> TRUE, hasnan |-> TRUE]
MetaQ ==
  {[All EXCEPT !.conds = c, !.lvl = l] :
    c \in {<<C("scenario", <<S("a")>>)>>, <<C("scenario", <<S("*")>>)>>, <<C("region", <<S("World")>>)>>,
           <<C("region", <<S("World*"), S("b")>>)>>, <<C("variable", <<S("E*")>>)>>, <<C("variable", <<S("E|*")>>)>>,
           <<C("variable", <<S("T"), S("E|CO2")>>)>>, <<C("scenario", <<S("a")>>), C("variable", <<S("E")>>)>>,
           <<C("run id", <<[k |-> "n", x |-> "1"]>>)>>, <<C("no column", <<S("a")>>)>>},
    l \in {<<>>, <<[k |-> "exact", n |-> 0]>>, <<[k |-> "max", n |-> 1]>>, <<[k |-> "min", n |-> 1]>>}}
Q(k, items) == [k |-> k, items |-> items]
Nr(x) == [k |-> "n", x |-> x]
Nm(x) == [k |-> "name", a |-> x]
Rg(a, b) == [k |-> "range", a |-> a, b |-> b]
TimeQ ==
  {[All EXCEPT !.times = t] :
    t \in {<<Q("year", <<Nr(2005)>>)>>, <<Q("year", <<Nr(2010), Nr(2015), Nr(2016)>>)>>, <<Q("month", <<Nm("Jul")>>)>>,
           <<Q("month", <<Rg("jan", "June")>>)>>, <<Q("month", <<Rg("Jul", "Jan")>>)>>, <<Q("month", <<Nm("Foo")>>)>>,
           <<Q("weekday", <<Rg("Mon", "wednesday")>>)>>, <<Q("weekday", <<Nm("sat"), Nm("Wed")>>)>>,
           <<Q("day", <<Nr(1)>>)>>, <<Q("hour", <<Nr(0)>>)>>, <<Q("time", <<Nr(T2), Nr(T4)>>)>>,
           <<Q("year", <<Nr(2005), Nr(2010)>>), Q("day", <<Nr(1)>>)>>, <<Q("year", <<[k |-> "wrong"]>>)>>}}
Both(keeps, Q0) == {[q EXCEPT !.keep = k] : q \in Q0, k \in keeps}
Filters(f, Q0, ins) ==
  {q @@ [op |-> "filter", f |-> f, inplace |-> i] : q \in Both(BOOLEAN, Q0), i \in ins}
Few == {[All EXCEPT !.conds = <<C("scenario", <<S("a")>>)>>], [All EXCEPT !.times = <<Q("year", <<Nr(2015)>>)>>]}
Appends(m) ==
  {[op |-> "append", f |-> a, fs |-> <<a, b>>, policy |-> p, inplace |-> i] :
     a \in 1..m, b \in 1..m, p \in {"warn", "False", "return", "bad"}, i \in BOOLEAN}
Converts(f) ==
  {[All EXCEPT !.conds = c, !.keep = k] @@ [op |-> "convert", f |-> f, inplace |-> i, u |-> U(u), ctx |-> x] :
     c \in {<<>>, <<C("variable", <<S("E*")>>)>>, <<C("variable", <<S("T")>>)>>, <<C("scenario", <<S("b")>>)>>},
     k \in BOOLEAN, i \in {TRUE, FALSE}, u \in {"MtCO2/yr", "GtC/yr", "degC", "MtCH4/yr"},
     x \in {"", "AR4GWP100", "no context"}}
Grids == {<<T1, T2, T3>>, <<T1, T3>>, <<"1200000000", "1300000000", "1400000000">>, <<"1000000000", T2, "1500000000">>}
Interpolations(f) ==
  {[op |-> "interpolate", f |-> f, inplace |-> FALSE, tps |-> g, ext |-> x] : g \in Grids, x \in {"none", "constant", "linear"}}
Edits(f, len) ==
  {[op |-> "rename", f |-> f, inplace |-> i, mapping |-> m] : i \in BOOLEAN,
     m \in {<<[c |-> "scenario", pairs |-> <<<<"s:a", "s:b">>, <<"s:b", "s:a">>>>]>>,
            <<[c |-> "variable", pairs |-> <<<<"s:E", "s:T">>>>]>>,
            <<[c |-> "region", pairs |-> <<<<"s:World", "s:World|A">>>>], [c |-> "scenario", pairs |-> <<<<"s:a", "s:x">>>>]>>,
            <<[c |-> "scenario", pairs |-> <<<<"s:c", "s:a">>>>]>>,
            <<[c |-> "no column", pairs |-> <<<<"s:a", "s:x">>>>]>>}}
  \union
  {[op |-> "setmeta", f |-> f, inplace |-> TRUE, name |-> c, mode |-> "all", cells |-> <<"s:x">>, keys |-> <<>>, at |-> <<>>] :
     c \in {"note", "scenario", ""}}
  \union
  {[op |-> "setmeta", f |-> f, inplace |-> TRUE, name |-> x[1], mode |-> "list", cells |-> x[2], keys |-> <<>>, at |-> <<>>] :
     x \in {<<"note", <<"s:x", "s:y">>>>, <<"note", <<"n:1", "n:2", "n:3">>>>, <<"scenario", <<"s:z", "s:a", "s:y">>>>,
            <<"scenario", <<"s:x", "s:y">>>>}}
  \union
  {[op |-> "setmeta", f |-> f, inplace |-> TRUE, name |-> c, mode |-> "keyed", cells |-> <<"s:x", "s:y">>, at |-> <<>>,
    keys |-> <<[scenario |-> "s:a", variable |-> "s:E"], [scenario |-> "s:b", variable |-> "s:E|CO2"]>>] : c \in {"note", "region"}}
  \union
  {[op |-> "setmeta", f |-> f, inplace |-> TRUE, name |-> c, mode |-> "rows", cells |-> [k \in 1..Len(a) |-> "n:5"],
    keys |-> <<>>, at |-> a] : c \in {"note", "model"}, a \in {<<len>>} \union (IF len > 1 THEN {<<len, 1>>} ELSE {})}
  \union {[op |-> "settime", f |-> f, inplace |-> TRUE, tps |-> t] : t \in {<<T2, T4>>, <<T1, T2, T4>>}}
  \union {[op |-> "get", f |-> f, inplace |-> FALSE, single |-> Len(k) = 1, keys |-> k] :
          k \in {<<"scenario">>, <<"time">>, <<"year">>, <<"note">>, <<"region", "unit">>}}
Tables(f) ==
  {[op |-> "export", f |-> f, inplace |-> FALSE, strict |-> x] : x \in BOOLEAN}
Columns == {<<"scenario">>, <<"region", "variable">>, <<"run id">>, <<"scenario", "region", "variable", "unit">>, <<"no column">>}
Statistics(f) ==
  {[op |-> "process", f |-> f, inplace |-> FALSE, cols |-> c, how |-> w[1], q |-> w[2]] : c \in Columns,
     w \in {<<"mean", "0">>, <<"median", "0">>, <<"quantile", "1/4">>, <<"quantile", "1">>, <<"sum", "0">>}}
  \union
  {q @@ [op |-> "ref", f |-> f, inplace |-> FALSE, suffix |-> "x"] : q \in
     {[All EXCEPT !.times = <<Q("year", <<Nr(2005), Nr(2010)>>)>>], [All EXCEPT !.times = <<Q("month", <<Nm("jul")>>)>>],
      [All EXCEPT !.times = <<Q("year", <<Nr(2005)>>)>>, !.conds = <<C("scenario", <<S("a")>>)>>],
      [All EXCEPT !.times = <<Q("year", <<Nr(1900)>>)>>]}}
Sets(f) ==
  {[op |-> "ps", f |-> f, inplace |-> FALSE, tps |-> g] : g \in {<<T1, T2, T3>>, <<T1, "1200000000", T2, "1400000000">>, <<"1200000000", T2, "1400000000">>}}
  \union {[op |-> "params", f |-> f, inplace |-> FALSE]}
  \union {[op |-> "setmeta", f |-> f, inplace |-> TRUE, name |-> c, mode |-> "all", cells |-> <<x>>, keys |-> <<>>, at |-> <<>>] :
           c \in {"parameter_type"}, x \in {"s:point", "s:average"}}
  \union {[op |-> "setmeta", f |-> f, inplace |-> TRUE, name |-> "climate_model", mode |-> "all", cells |-> <<"s:MAGICC">>,
           keys |-> <<>>, at |-> <<>>]}
(* parameter sets made in other ways                                       *)
Par(kind, name, reg, u, w, tps, v, cell, has) ==
  [kind |-> kind, name |-> name, reg |-> reg, unit |-> u, wunit |-> w, tps |-> tps, v |-> v, cell |-> cell, has |-> has, ext |-> "none"]
NoU == [s |-> "", f |-> <<>>]
Flat(kind, name, reg, u, cell, has) == Par(kind, name, reg, u, u, <<>>, <<>>, cell, has)
HandMade ==
  {[op |-> "fromset", f |-> 0, inplace |-> FALSE, tps |-> g, args |-> <<"unspecified", "IAM", "b">>,
    pars |-> <<Par("point", <<"E", "CO2">>, <<"World">>, U("GtC/yr"), U(w), <<T1, T2, T3, T4>>, <<"1", "2", "4", "0">>, "", TRUE),
               Flat("generic", <<"scenario">>, <<"World">>, NoU, "s:x", ge),
               Flat("scalar", <<"S">>, sc, U("K"), "n:3", TRUE),
               Par("average", <<"E", "CO2">>, <<"World", "A">>, U("MtCO2/yr"), U("MtCO2/yr"), <<T1, T2, T3, T4>>,
                   <<"3", "-1", "0">>, "", av)>>] :
     g \in {<<T1, T2, T3, T4>>, <<T1, T2>>, <<T1, "1200000000", "1300000000">>, <<T1, T2, "1500000000">>},
     w \in {"GtC/yr", "MtCO2/yr"}, ge \in BOOLEAN, sc \in {<<"World">>, <<"World", "A">>}, av \in BOOLEAN}
(* the parameters of the set which is made from a frame                    *)
SetOf(f) ==
  LET common == SetToSeq(Common(f))
      type(i) == TypeOf(Units0, f.rows[i].m)
      u(i) == UnitOf(Units0, f.rows[i].m["unit"])
  IN [i \in 1..Len(f.rows) |->
        Par(type(i), <<TextOf(f.rows[i].m["variable"])>>, <<TextOf(f.rows[i].m["region"])>>, u(i), u(i), GridOf(type(i), f.tps),
            f.rows[i].v, "", TRUE)]
     \o [k \in 1..Len(common) |-> Flat("generic", <<common[k]>>, <<"World">>, NoU, f.rows[1].m[common[k]], TRUE)]
Sharing(m) ==
  UNION {Filters(f, Few, BOOLEAN) : f \in 1..m}
  \union UNION {{[op |-> "export", f |-> f, inplace |-> FALSE, strict |-> FALSE]} : f \in 1..m}
  \union UNION {{[op |-> "setmeta", f |-> f, inplace |-> TRUE, name |-> "scenario", mode |-> "all", cells |-> <<"s:z">>,
                  keys |-> <<>>, at |-> <<>>]} : f \in 1..m}
  \union {a \in Appends(m) : a.policy = "False"}
  \union UNION {{c \in Converts(f) : c.ctx = "" /\ c.keep /\ c.u.s \in {"MtCO2/yr"}} : f \in 1..m}
  \union {[op |-> "poke", f |-> f, inplace |-> FALSE] : f \in 1..m}

Live(f) == fs[f].rows # <<>>
Last0 == Len(fs)
Commands ==
  CASE Menu = "meta" -> Filters(Last0, MetaQ, {FALSE})
    [] Menu = "time" -> Filters(Last0, TimeQ, {FALSE})
    [] Menu = "append" -> Appends(Len(fs)) \union Filters(Last0, Few, {FALSE})
    [] Menu = "convert" -> Converts(Last0)
    [] Menu = "interpolate" ->
         Interpolations(Last0) \union
         {[op |-> "setmeta", f |-> Last0, inplace |-> TRUE, name |-> "parameter_type", mode |-> "list",
           cells |-> <<a, b, c>>, keys |-> <<>>, at |-> <<>>] :
           a \in {"nan", "s:average"}, b \in {"s:point", "s:average"}, c \in {"nan", "s:point", "s:bogus"}}
    [] Menu = "edit" -> Edits(Last0, Len(fs[Last0].rows))
    [] Menu = "tables" -> Tables(Last0) \union Filters(Last0, Few, {FALSE})
    [] Menu = "stats" -> Statistics(Last0) \union Filters(Last0, Few, {FALSE})
    [] Menu = "ps" -> Sets(Last0) \union (IF n = 0 THEN HandMade ELSE {})
    [] Menu = "share" -> Sharing(Len(fs))

(*------------------------------ the machine -------------------------------*)
Roots == IF Menu \in {"append", "share"} THEN 2 ELSE 1
Shown == {"get", "params", "poke", "process", "ref"}    \* operations which do not give a frame
Usable(e) == IF e.op = "append" THEN Live(e.fs[1]) /\ Live(e.fs[2]) ELSE IF e.f = 0 THEN TRUE ELSE Live(e.f)
Init == fs = <<>> /\ n = 0 /\ h = <<>>
Make(f) == Len(fs) < Roots /\ n = 0 /\ fs' = Append(fs, f) /\ h' = Append(h, New(f)) /\ UNCHANGED n
Do(e) ==
  /\ n < MaxSteps /\ n' = n + 1 /\ h' = Append(h, e)
  /\ IF e.op \in Shown THEN UNCHANGED fs
     ELSE LET r == TLCEval(Result(Units0, fs, e)) IN
          IF r.must \/ (e.op = "append" /\ e.policy = "return") THEN UNCHANGED fs
          ELSE fs' = IF e.inplace THEN [fs EXCEPT ![e.f] = r.f] ELSE Append(fs, r.f)
Next == \/ \E f \in Base : Make(f)
        \/ Len(fs) >= Roots /\ \E e \in Commands : Usable(e) /\ Do(e)
Spec == Init /\ [][Next]_vars
Emit == (Scripts /\ n' > n) => PrintT("@@" \o ToJson([cmds |-> h', units |-> Units0]))
(* the others stay as they are (C19)                                       *)
OnlyTarget == [][LET e == h'[Len(h')] IN
                 \A i \in 1..Len(fs) : fs'[i] # fs[i] => (e.inplace /\ i = e.f)]_vars

(*--------------------------------- laws -----------------------------------*)
F == fs[Len(fs)]
Ready == fs # <<>> /\ F.rows # <<>>
Get1(f, m, t) == LET i == {i \in 1..Len(f.rows) : f.rows[i].m = m}
                     j == {j \in 1..Len(f.tps) : f.tps[j] = t}
                 IN IF i = {} \/ j = {} THEN "nan" ELSE f.rows[CHOOSE x \in i : TRUE].v[CHOOSE x \in j : TRUE]
Points(f) == {<<f.rows[i].m, f.tps[j], f.rows[i].v[j]>> : i \in 1..Len(f.rows), j \in 1..Len(f.tps)}
Given0(f) == {p \in Points(f) : p[3] # "nan"}
(* C16, C17: every value is on one side of a filter; filtering again       *)
(* changes nothing; two conditions are one after the other                 *)
FilterLaw ==
  (Ready /\ Menu \in {"meta", "time"}) =>
  \A q \in IF Menu = "meta" THEN MetaQ ELSE TimeQ :
    FilterErrors(F, q) = {} =>
    LET a == Filter(F, q).f
        b == Filter(F, [q EXCEPT !.keep = FALSE]).f
        part(c) == Filter(F, [q EXCEPT !.conds = c]).f
    IN /\ Given0(a) \union Given0(b) = Given0(F) /\ Given0(a) \intersect Given0(b) = {}
       /\ (a.rows # <<>> => Filter(a, q).f = a)
       /\ (b.rows # <<>> => Filter(b, [q EXCEPT !.keep = FALSE]).f = b)
       /\ (Len(q.conds) = 2 =>
             LET c == part(<<q.conds[1]>>) IN
             c.rows # <<>> => Given0(Filter(c, [q EXCEPT !.conds = <<q.conds[2]>>]).f) = Given0(a))
(* C18: what is in one only is kept, what is in both is their mean, the    *)
(* order of frames does not matter, and parts make the whole               *)
AppendLaw ==
  (Ready /\ Menu = "append") =>
  /\ \A k \in 1..Len(fs) : \A l \in 1..Len(fs) :
       LET a == fs[k]
           b == fs[l]
           x == AppendFrames(<<a, b>>, "warn").f
           y == AppendFrames(<<b, a>>, "warn").f
           cols == ColsOf(a) \union ColsOf(b)
           wa == [a EXCEPT !.rows = [i \in 1..Len(a.rows) |-> [a.rows[i] EXCEPT !.m = Widen(@, cols)]]]
           wb == [b EXCEPT !.rows = [i \in 1..Len(b.rows) |-> [b.rows[i] EXCEPT !.m = Widen(@, cols)]]]
       IN (a.rows # <<>> /\ b.rows # <<>>) =>
          /\ SameFrame(x, y, "0", Exactly, FALSE)
          /\ \A p \in Points(x) :
               LET va == Get1(wa, p[1], p[2])
                   vb == Get1(wb, p[1], p[2])
               IN p[3] = IF va = "nan" THEN vb ELSE IF vb = "nan" THEN va ELSE NDiv(NAdd(va, vb), 2)
          /\ \A p \in Given0(wa) \union Given0(wb) : Get1(x, p[1], p[2]) # "nan"
  /\ \A q \in Few :
       LET a == Filter(F, q).f
           b == Filter(F, [q EXCEPT !.keep = FALSE]).f
       IN (a.rows # <<>> /\ b.rows # <<>>) => Given0(AppendFrames(<<a, b>>, "warn").f) = Given0(F)
(* C20: converting there and back changes nothing but the mark; only the   *)
(* selected rows change                                                    *)
ConvertLaw ==
  (Ready /\ Menu = "convert") =>
  \A e \in Converts(Len(fs)) :
    LET r == Convert(Units0, F, e)
        ids == Selected(F, e).ids
        on == {ids[k] : k \in 1..Len(ids)}
        same == \A i \in on : F.rows[i].m["unit"] = "s:GtC/yr"
    IN (FilterErrors(F, e) = {} /\ r.errs = {}) =>
       /\ \A i \in 1..Len(F.rows) : i \notin on => r.f.rows[i].v = F.rows[i].v /\ r.f.rows[i].m["unit"] = F.rows[i].m["unit"]
       /\ \A i \in on : r.f.rows[i].m["unit"] = Text(e.u.s)
       /\ (same /\ e.ctx = "") =>
            LET back == Convert(Units0, r.f, [e EXCEPT !.u = U("GtC/yr")]).f IN
            Len(back.rows) = Len(F.rows) /\ \A i \in 1..Len(F.rows) : ValsClose(back.rows[i].v, F.rows[i].v, "100", "1e-20")
(* C21: points at the same times stay; values on a time given stay; an     *)
(* average keeps its integral                                              *)
InterpolateLaw ==
  (Ready /\ Menu = "interpolate") =>
  \A g \in Grids : \A x \in {"none", "constant", "linear"} :
    LET r == Interpolate(Units0, F, g, x) IN
    r.errs = {} =>
      \A i \in 1..Len(F.rows) :
        /\ r.f.rows[i].m["parameter_type"] \in {"s:point", "s:average"}
        /\ r.f.rows[i].m["parameter_type"] = "s:point" =>
             \A j \in 1..Len(g) : \A k \in 1..Len(F.tps) :
                g[j] = F.tps[k] => NEq(r.f.rows[i].v[j], F.rows[i].v[k])
        /\ (r.f.rows[i].m["parameter_type"] = "s:average" /\ g = F.tps) => ValsClose(r.f.rows[i].v, F.rows[i].v, "100", "1e-20")
(* C24: an exchange of names is undone by another; values given by name of *)
(* the row do not depend on other rows                                     *)
EditLaw ==
  (Ready /\ Menu = "edit") =>
  \A e \in Edits(Len(fs), Len(F.rows)) :
    LET r == Result(Units0, fs, e) IN
    CASE e.op = "rename" ->
           /\ (~r.must => [i \in 1..Len(F.rows) |-> r.f.rows[i].v] = [i \in 1..Len(F.rows) |-> F.rows[i].v] /\ ~HasDup(r.f))
           /\ (Len(e.mapping[1].pairs) = 2 /\ ~r.must => Rename(r.f, e.mapping).f = F)
      [] e.op = "setmeta" -> (~r.must => SetMeta(r.f, e).f = r.f /\ \A i \in 1..Len(F.rows) :
            /\ r.f.rows[i].v = F.rows[i].v
            /\ \A c \in ColsOf(F) \ {e.name} : r.f.rows[i].m[c] = F.rows[i].m[c])
      [] OTHER -> TRUE
(* C25: a statistic of one timeseries is itself; a mean is between the     *)
(* least and the greatest; quantile 1/2 is the median                      *)
StatisticsLaw ==
  (Ready /\ Menu = "stats" /\ ~HasDup(F)) =>
  \A c \in Columns :
    LET over == {c[i] : i \in 1..Len(c)}
        st(how, q) == ProcessOver(F, over, how, q).f
        lo == st("quantile", "0")
        hi == st("quantile", "1")
        md == st("median", "0")
        me == st("mean", "0")
    IN /\ md = st("quantile", "1/2")
       /\ \A k \in 1..Len(me.rows) : \A j \in 1..Len(F.tps) :
            LET x == me.rows[k].v[j] IN
            /\ (x = "nan") <=> (lo.rows[k].v[j] = "nan")
            /\ x # "nan" => NLe(lo.rows[k].v[j], x) /\ NLe(x, hi.rows[k].v[j])
                            /\ NLe(lo.rows[k].v[j], md.rows[k].v[j]) /\ NLe(md.rows[k].v[j], hi.rows[k].v[j])
       /\ (Len(me.rows) = Len(F.rows) =>
             \A k \in 1..Len(me.rows) : \E i \in 1..Len(F.rows) :
                Part(F.rows[i].m, ColsOf(F) \ over) = me.rows[k].m /\ F.rows[i].v = me.rows[k].v)
(* C23: a frame which is one run comes back from a parameter set           *)
SetLaw ==
  (Ready /\ Menu = "ps" /\ ~ToParameters(Units0, F).must) =>
  LET r == FromParameters(Units0, F, F.tps) IN
  IF Len(F.tps) < 3 THEN r.must ELSE
  /\ ~r.must
  /\ \A i \in 1..Len(F.rows) : r.f.rows[i].v = F.rows[i].v
       /\ \A c \in ColsOf(F) \ {"parameter_type"} : r.f.rows[i].m[c] = F.rows[i].m[c]
  /\ LET again == FromParameters(Units0, r.f, F.tps) IN SameFrame(again.f, r.f, "0", Exactly, FALSE)
  (* a set made from a frame is as one made by hand                        *)
  /\ \A g \in {<<T1, T2, T3>>, <<T1, T2>>, <<T2, T4>>} :
       LET made == FromSet(Units0, [pars |-> SetOf(F), tps |-> g, args |-> <<"unspecified", "unspecified", "unspecified">>])
           want == FromParameters(Units0, F, g)
       IN made.must = want.must /\ made.errs = want.errs
          /\ (~made.must => SameFrame(made.f, want.f, "100", "1e-20", FALSE))
Aligned == \A k \in 1..Len(fs) : \A i \in 1..Len(fs[k].rows) :
             DOMAIN fs[k].rows[i].m = ColsOf(fs[k]) /\ Len(fs[k].rows[i].v) = Len(fs[k].tps)
=============================================================================
