------------------------------- MODULE Frame -------------------------------
(***************************************************************************)
(* Data frames of timeseries (openscm.scmdataframe): tables with a row of  *)
(* metadata and of values for each timeseries.                             *)
(*                                                                         *)
(* A frame is [tps, cols, rows]: its times (seconds, ascending), the names *)
(* of its metadata columns, and its rows [m |-> column -> cell, v |-> one  *)
(* value per time].  A cell is a text "s:...", a number "n:..." or missing *)
(* ("nan"); a value is a Num or "nan".                                     *)
(*                                                                         *)
(* Every operation is a function of frames and arguments that gives        *)
(*   [errs |-> errors which the operation may fail with ({} = it must      *)
(*             succeed), must |-> whether it must fail, f |-> result,      *)
(*    mag |-> magnitude of the numbers involved, tol |-> tolerance]        *)
(* The order of rows is significant where ordered = TRUE.                  *)
(***************************************************************************)
EXTENDS Metrics, TimeConv, Calendar, TLC

Missing == "nan"
Required == {"model", "scenario", "region", "variable", "unit"}
Exactly == "0"
Ok(f) == [errs |-> {}, must |-> FALSE, f |-> f, mag |-> "0", tol |-> Exactly, ordered |-> TRUE]
Fail(errs, f) == [Ok(f) EXCEPT !.errs = errs, !.must = TRUE]
Bag(r) == [r EXCEPT !.ordered = FALSE]
Near(r, mag, tol) == [r EXCEPT !.mag = mag, !.tol = tol]

ColsOf(f) == {f.cols[i] : i \in 1..Len(f.cols)}
Metas(f) == [i \in 1..Len(f.rows) |-> f.rows[i].m]
HasDup(f) == \E i, j \in 1..Len(f.rows) : i < j /\ f.rows[i].m = f.rows[j].m
Values(f) == FlattenSeq([i \in 1..Len(f.rows) |-> f.rows[i].v])
Magnitude(f) == IF f.rows = <<>> THEN "0" ELSE NMaxAbs(Values(f))
Filled(v) == v # "nan"
Full(f) == \A i \in 1..Len(f.rows) : \A j \in 1..Len(f.tps) : Filled(f.rows[i].v[j])

(*-------------------------------- cells -----------------------------------*)
Tag(c) == IF c = Missing THEN 0 ELSE Chars(c)[1]
IsText(c) == Tag(c) = 115
IsNumber(c) == c # Missing /\ Tag(c) = 110
Body(c) == SubSeq(Chars(c), 3, Len(Chars(c)))
TextOf(c) == Str(Body(c))
Text(s) == Cat("s:", s)

(*------------------------------ comparison --------------------------------*)
ValClose(a, b, mag, tol) ==
  IF a = "nan" \/ b = "nan" THEN a = b
  ELSE IF tol = Exactly THEN NEq(a, b) ELSE NClose(a, b, mag, tol)
ValsClose(a, b, mag, tol) ==
  Len(a) = Len(b) /\ \A i \in 1..Len(a) : ValClose(a[i], b[i], mag, tol)
RowClose(a, b, mag, tol) == a.m = b.m /\ ValsClose(a.v, b.v, mag, tol)
SameTimes(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : NEq(a[i], b[i])
SameRows(a, b, mag, tol, ordered) ==
  /\ Len(a) = Len(b)
  /\ IF ordered THEN \A i \in 1..Len(a) : RowClose(a[i], b[i], mag, tol)
     ELSE /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : RowClose(a[i], b[j], mag, tol)
          /\ \A j \in 1..Len(b) : \E i \in 1..Len(a) : RowClose(a[i], b[j], mag, tol)
(* an empty frame keeps nothing else                                       *)
SameFrame(a, b, mag, tol, ordered) ==
  \/ a.rows = <<>> /\ b.rows = <<>>
  \/ /\ SameTimes(a.tps, b.tps)
     /\ ColsOf(a) = ColsOf(b)
     /\ SameRows(a.rows, b.rows, mag, tol, ordered)

(*------------------------------- patterns ---------------------------------*)
(* '*' stands for any text; in patterns given as regular expressions ('?'  *)
(* stands for one character there) the end need not be matched.            *)
RECURSIVE GlobAt(_, _, _, _, _, _)
GlobAt(p, i, s, j, end, one) ==
  IF i > Len(p) THEN ~end \/ j > Len(s)
  ELSE IF p[i] = 42 THEN \E k \in j..(Len(s) + 1) : GlobAt(p, i + 1, s, k, end, one)
  ELSE /\ j <= Len(s)
       /\ (p[i] = s[j] \/ (one /\ p[i] = 63))
       /\ GlobAt(p, i + 1, s, j + 1, end, one)
TextMatches(it, s) ==
  IF it.k = "s" THEN GlobAt(Chars(it.x), 1, s, 1, TRUE, FALSE)
  ELSE \E i \in 1..Len(it.alts) : GlobAt(Chars(it.alts[i].g), 1, s, 1, it.alts[i].end, TRUE)

(* the number of separators left when the text of the pattern is cut out   *)
Separator == 124
CutOut(s, p) ==
  LET at == {i \in 1..(Len(s) - Len(p) + 1) : \A k \in 1..Len(p) : s[i + k - 1] = p[k]}
  IN IF p = <<>> \/ at = {} THEN s
     ELSE LET i == CHOOSE i \in at : \A j \in at : i <= j
          IN SubSeq(s, 1, i - 1) \o SubSeq(s, i + Len(p), Len(s))
Depth(s, pattern) ==
  LET rest == CutOut(s, SelectSeq(Chars(pattern), LAMBDA c : c # 42))
  IN Cardinality({i \in 1..Len(rest) : rest[i] = Separator})
LevelOk(lvl, d) ==
  CASE lvl.k = "exact" -> d = lvl.n
    [] lvl.k = "max" -> d <= lvl.n
    [] lvl.k = "min" -> d >= lvl.n

(*------------------------------- filters ----------------------------------*)
(* q: conds (of columns: [c, items]), times ([k, items]), lvl (<<>> or     *)
(* <<level>>), keep, hasnan                                                *)
IsTextItem(it) == it.k \in {"s", "r"}
CondsOf(q) ==   \* with the implied condition of a level
  IF q.lvl # <<>> /\ \A i \in 1..Len(q.conds) : q.conds[i].c # "variable"
  THEN Append(q.conds, [c |-> "variable", items |-> <<[k |-> "s", x |-> "*"]>>])
  ELSE q.conds
ItemMatches(it, cell, q, c) ==
  IF it.k = "n" THEN IsNumber(cell) /\ NEq(TextOf(cell), it.x)
  ELSE LET s == IF cell = Missing THEN <<>> ELSE Body(cell)
       IN TextMatches(it, s) /\ (c # "variable" \/ q.lvl = <<>> \/ LevelOk(q.lvl[1], Depth(s, it.x)))
RowMatches(f, i, q) ==
  LET cs == CondsOf(q) IN
  \A j \in 1..Len(cs) : \E k \in 1..Len(cs[j].items) :
    ItemMatches(cs[j].items[k], f.rows[i].m[cs[j].c], q, cs[j].c)

MonthNames == <<"january", "february", "march", "april", "may", "june", "july", "august", "september",
                "october", "november", "december">>
DayNames == <<"monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday">>
Lower(cs) == [i \in 1..Len(cs) |-> IF cs[i] \in 65..90 THEN cs[i] + 32 ELSE cs[i]]
Named(names, s) == {i \in 1..Len(names) :
  LET a == Lower(Chars(s))
      b == Chars(names[i])
  IN a = b \/ a = SubSeq(b, 1, 3)}
NamesOf(k) == IF k = "month" THEN MonthNames ELSE DayNames
NumberOf(k, s) == LET i == CHOOSE i \in Named(NamesOf(k), s) : TRUE IN IF k = "month" THEN i ELSE i - 1
TimeItemError(k, it) ==
  CASE it.k = "n" -> {}
    [] it.k = "wrong" -> {"TypeError"}
    [] it.k = "name" -> IF Named(NamesOf(k), it.a) = {} THEN {"ValueError"} ELSE {}
    [] it.k = "range" ->
         IF Named(NamesOf(k), it.a) = {} \/ Named(NamesOf(k), it.b) = {} THEN {"ValueError"}
         ELSE IF NumberOf(k, it.a) > NumberOf(k, it.b) THEN {"ValueError"} ELSE {}
FieldOf(k, t) ==
  LET p == Parts(t) IN
  CASE k = "year" -> p.y [] k = "month" -> p.m [] k = "day" -> p.d [] k = "hour" -> p.h [] k = "weekday" -> p.w
TimeItemMatches(k, it, t) ==
  CASE it.k = "n" -> IF k = "time" THEN NEq(it.x, t) ELSE FieldOf(k, t) = it.x
    [] it.k = "name" -> FieldOf(k, t) = NumberOf(k, it.a)
    [] it.k = "range" -> FieldOf(k, t) \in NumberOf(k, it.a)..NumberOf(k, it.b)
TimeMatches(t, q) ==
  \A j \in 1..Len(q.times) : \E k \in 1..Len(q.times[j].items) :
    TimeItemMatches(q.times[j].k, q.times[j].items[k], t)

FilterErrors(f, q) ==
  LET cs == CondsOf(q)
      known == {j \in 1..Len(cs) : cs[j].c \in ColsOf(f)}
      bad(j) == \E k \in 1..Len(cs[j].items) : IsTextItem(cs[j].items[k])
      cell(i, j) == f.rows[i].m[cs[j].c]
  IN (IF Cardinality(known) < Len(cs) THEN {"ValueError"} ELSE {})
     \union (IF \E j \in known : bad(j) /\ \E i \in 1..Len(f.rows) :
                  IsNumber(cell(i, j)) \/ (cell(i, j) = Missing /\ ~q.hasnan)
             THEN {"TypeError"} ELSE {})
     \union (IF q.lvl # <<>> /\ q.lvl[1].k = "bad" THEN {"ValueError"} ELSE {})
     \union UNION {UNION {TimeItemError(q.times[j].k, q.times[j].items[k]) : k \in 1..Len(q.times[j].items)} :
                   j \in 1..Len(q.times)}

(* the values selected (or, keep = FALSE, all others), without the rows    *)
(* and times that have none left                                           *)
Selected(f, q) ==
  LET ro == TLCEval({i \in 1..Len(f.rows) : RowMatches(f, i, q)})
      to == TLCEval({j \in 1..Len(f.tps) : TimeMatches(f.tps[j], q)})
      on(i, j) == Filled(f.rows[i].v[j]) /\ (q.keep <=> (i \in ro /\ j \in to))
      rs == SelectSeq([i \in 1..Len(f.rows) |-> i], LAMBDA i : \E j \in 1..Len(f.tps) : on(i, j))
      ts == SelectSeq([j \in 1..Len(f.tps) |-> j], LAMBDA j : \E i \in 1..Len(f.rows) : on(i, j))
  IN [ids |-> rs,
      f |-> [tps |-> [j \in 1..Len(ts) |-> f.tps[ts[j]]], cols |-> f.cols,
             rows |-> [i \in 1..Len(rs) |->
                [m |-> f.rows[rs[i]].m,
                 v |-> [j \in 1..Len(ts) |-> IF on(rs[i], ts[j]) THEN f.rows[rs[i]].v[ts[j]] ELSE "nan"]]]]]
Filter(f, q) ==
  LET es == FilterErrors(f, q) IN IF es # {} THEN Fail(es, f) ELSE Ok(Selected(f, q).f)

(*------------------------------ metadata edits ----------------------------*)
(* values replaced, column by column, all of a column's at once            *)
RECURSIVE Renamed(_, _, _)
Replaced(cell, pairs) ==
  LET hit == {i \in 1..Len(pairs) : pairs[i][1] = cell} IN
  IF hit = {} THEN cell ELSE pairs[CHOOSE i \in hit : TRUE][2]
RenameCol(rows, c, pairs) == [i \in 1..Len(rows) |-> [rows[i] EXCEPT !.m[c] = Replaced(@, pairs)]]
Renamed(rows, mapping, k) ==
  IF k = 0 THEN rows ELSE RenameCol(Renamed(rows, mapping, k - 1), mapping[k].c, mapping[k].pairs)
Rename(f, mapping) ==
  IF \E k \in 1..Len(mapping) : mapping[k].c \notin ColsOf(f) THEN Fail({"ValueError"}, f)
  ELSE LET g == [f EXCEPT !.rows = Renamed(f.rows, mapping, Len(mapping))]
       IN IF mapping # <<>> /\ HasDup(g) THEN Fail({"ValueError"}, f)
          ELSE IF \E k \in 1..(Len(mapping) - 1) : HasDup([f EXCEPT !.rows = Renamed(f.rows, mapping, k)])
          THEN [Ok(g) EXCEPT !.errs = {"ValueError"}]     \* indistinguishable in between
          ELSE Ok(g)

WithCol(f, c) == IF c \in ColsOf(f) THEN f.cols ELSE Append(f.cols, c)
PutCol(f, c, cell(_)) ==
  [f EXCEPT !.cols = WithCol(f, c),
            !.rows = [i \in 1..Len(f.rows) |->
                        [f.rows[i] EXCEPT !.m = [x \in (DOMAIN @) \union {c} |-> IF x = c THEN cell(i) ELSE @[x]]]]]
Cell(f, i, c) == IF c \in ColsOf(f) THEN f.rows[i].m[c] ELSE Missing
(* e.mode: "all" one cell for every row, "list" one for each row in order, *)
(* "keyed" cells for the rows with the given parts of metadata             *)
Addressed(m, key) == \A x \in DOMAIN key : m[x] = key[x]
SetMeta(f, e) ==
  IF e.name = "" THEN Fail({"ValueError"}, f)
  ELSE CASE e.mode = "all" -> Ok(PutCol(f, e.name, LAMBDA i : e.cells[1]))
    [] e.mode = "list" ->
         IF Len(e.cells) # Len(f.rows) THEN Fail({"ValueError"}, f)
         ELSE Ok(PutCol(f, e.name, LAMBDA i : e.cells[i]))
    [] e.mode = "keyed" ->
         Ok(PutCol(f, e.name, LAMBDA i :
              LET hit == {k \in 1..Len(e.keys) : Addressed(f.rows[i].m, e.keys[k])} IN
              IF hit = {} THEN Cell(f, i, e.name) ELSE e.cells[CHOOSE k \in hit : TRUE]))
    [] e.mode = "rows" ->
         Ok(PutCol(f, e.name, LAMBDA i :
              LET hit == {k \in 1..Len(e.at) : e.at[k] = i} IN
              IF hit = {} THEN Cell(f, i, e.name) ELSE e.cells[CHOOSE k \in hit : TRUE]))
    [] e.mode = "badindex" -> Fail({"ValueError"}, f)
SetTime(f, tps) == IF Len(tps) # Len(f.tps) THEN Fail({"ValueError"}, f) ELSE Ok([f EXCEPT !.tps = tps])

(*--------------------------------- append ---------------------------------*)
Widen(m, cols) == [c \in cols |-> IF c \in DOMAIN m THEN m[c] ELSE Missing]
AllRows(fs, cols) ==   \* rows of all frames with their times
  FlattenSeq([k \in 1..Len(fs) |->
    [i \in 1..Len(fs[k].rows) |-> [m |-> Widen(fs[k].rows[i].m, cols), v |-> fs[k].rows[i].v, t |-> fs[k].tps]]])
JointTimes(fs) ==
  SetToSortSeq(UNION {{fs[k].tps[j] : j \in 1..Len(fs[k].tps)} : k \in 1..Len(fs)}, NLt)
AtTime(row, t) ==
  LET js == {j \in 1..Len(row.t) : row.t[j] = t} IN IF js = {} THEN "nan" ELSE row.v[CHOOSE j \in js : TRUE]
Given(rows, m, t) ==
  SelectSeq([i \in 1..Len(rows) |-> IF rows[i].m = m THEN AtTime(rows[i], t) ELSE "nan"], Filled)
Mean(s) == IF s = <<>> THEN "nan" ELSE NDiv(NSum(s), Len(s))
Joint(fs) ==
  LET cols == UNION {ColsOf(fs[k]) : k \in 1..Len(fs)}
      rows == TLCEval(AllRows(fs, cols))
      tps == TLCEval(JointTimes(fs))
      ids == SetToSeq({rows[i].m : i \in 1..Len(rows)})
      given == TLCEval([i \in 1..Len(ids) |-> [j \in 1..Len(tps) |-> Given(rows, ids[i], tps[j])]])
  IN [f |-> [tps |-> tps, cols |-> SetToSeq(cols),
             rows |-> [i \in 1..Len(ids) |-> [m |-> ids[i], v |-> [j \in 1..Len(tps) |-> Mean(given[i][j])]]]],
      dup |-> \E i \in 1..Len(ids) : \E j \in 1..Len(tps) : Len(given[i][j]) > 1,
      all |-> [i \in 1..Len(rows) |-> [m |-> rows[i].m, v |-> [j \in 1..Len(tps) |-> AtTime(rows[i], tps[j])]]]]
TolMean == "1e-13"
AppendFrames(fs, policy) ==
  IF \E k \in 1..Len(fs) : HasDup(fs[k]) THEN Fail({"ValueError"}, fs[1])
  ELSE LET j == Joint(fs) IN
    IF j.dup /\ policy = "bad" THEN Fail({"ValueError"}, fs[1])
    ELSE Bag(Near(Ok(j.f), "0", TolMean))

(*---------------------------- unit conversion -----------------------------*)
UnitOf(units, cell) ==
  LET s == TextOf(cell) IN
  IF s \in DOMAIN units THEN [s |-> s, f |-> units[s]] ELSE [s |-> s, f |-> <<<<"", "undefined unit", 1>>>>]
NoConv == [ok |-> FALSE, scale |-> "1", off |-> "0", nan |-> FALSE, must |-> TRUE]
ConvOf(u, v, ctx) ==
  IF UDefined(u) /\ UDefined(v) /\ (ctx = "" \/ ctx \in Contexts) THEN InContext(u, v, ctx) ELSE NoConv
ConvErrors(u, v, ctx, c) ==
  (IF ctx # "" /\ ctx \notin Contexts THEN {"KeyError"} ELSE {})
  \union (IF UDefined(u) /\ UDefined(v) THEN {} ELSE {"UndefinedUnitError"})
  \union (IF UDefined(u) /\ UDefined(v) /\ (ctx = "" \/ ctx \in Contexts) /\ (~c.ok \/ ~c.must)
          THEN {"DimensionalityError"} ELSE {})
TolConvert == "1e-9"
Factored(c, x) == IF x = "nan" \/ c.nan THEN "nan" ELSE UApply(c, x)
Convert(units, f, e) ==
  LET es == FilterErrors(f, e) IN
  IF es # {} THEN Fail(es, f)
  ELSE LET ids == Selected(f, e).ids
           on == {ids[k] : k \in 1..Len(ids)}
           from(i) == UnitOf(units, f.rows[i].m["unit"])
           conv == TLCEval([i \in on |-> ConvOf(from(i), e.u, e.ctx)])
           errs == UNION {ConvErrors(from(i), e.u, e.ctx, conv[i]) : i \in on}
           must == \E i \in on : ~conv[i].ok
           tag == IF e.ctx = "" THEN Missing ELSE Text(e.ctx)
           had(i) == Cell(f, i, "unit_context")
           g == PutCol(f, "unit_context", LAMBDA i : IF i \in on THEN tag ELSE had(i))
           h == [g EXCEPT !.rows = [i \in 1..Len(g.rows) |->
                  IF i \notin on THEN g.rows[i]
                  ELSE [m |-> [g.rows[i].m EXCEPT !["unit"] = Text(e.u.s)],
                        v |-> [j \in 1..Len(f.tps) |-> Factored(conv[i], f.rows[i].v[j])]]]]
           mag(i) == UMag(conv[i], NMax("1", IF \E j \in 1..Len(f.tps) : Filled(f.rows[i].v[j])
                                             THEN NMaxAbs(f.rows[i].v) ELSE "0"))
           offset == \E i \in on : conv[i].ok /\ conv[i].off # "0"
       IN IF must THEN Fail(errs, f)
          ELSE [Near(Ok(h), IF offset THEN NMaxAbs([k \in 1..Len(ids) |-> mag(ids[k])]) ELSE "0",
                     IF offset THEN TolConvert ELSE "1e-12") EXCEPT !.errs = errs]

(*---------------------- interpolation and resampling ----------------------*)
AverageNames == <<"Emissions*", "*_EMIS*", "*_GWPEMIS*", "*Flux*", "*_RF*", "*_PEFFRF*", "*_EFFRF*", "*_SRF*",
                  "Radiative Forcing*", "HEATUPTAKE_EBALANCE_TOTAL*">>
GuessByName(s) ==
  IF \E k \in 1..Len(AverageNames) : GlobAt(Chars(AverageNames[k]), 1, s, 1, TRUE, FALSE) THEN "average" ELSE "point"
GuessType(units, variable, unit) ==
  LET u == UnitOf(units, unit) IN
  IF unit # "s:" /\ UDefined(u) THEN (IF "time" \in DOMAIN UDim(u) THEN "average" ELSE "point")
  ELSE GuessByName(Body(variable))
TypeOf(units, m) ==
  IF "parameter_type" \in DOMAIN m /\ m["parameter_type"] # Missing THEN TextOf(m["parameter_type"])
  ELSE GuessType(units, m["variable"], m["unit"])
(* averages are over the periods between times; the last one is as long as *)
(* the one before it                                                       *)
Periods(tps) == Append(tps, NAdd(tps[Len(tps)], NSub(tps[Len(tps)], tps[Len(tps) - 1])))
GridOf(type, tps) == IF type = "average" THEN Periods(tps) ELSE tps
Interpolate(units, f, tps, ext) ==
  LET type == TLCEval([i \in 1..Len(f.rows) |-> TypeOf(units, f.rows[i].m)])
      known(i) == type[i] \in {"point", "average"}
      src(i) == GridOf(type[i], f.tps)
      tgt(i) == GridOf(type[i], tps)
      c == TLCEval([i \in 1..Len(f.rows) |->
             IF known(i) THEN Conv(type[i], src(i), f.rows[i].v, tgt(i), ext)
             ELSE [err |-> {"ValueError"}, val |-> <<>>, mag |-> "0"]])
      errs == UNION {c[i].err : i \in 1..Len(f.rows)}
      refusable == \E i \in 1..Len(f.rows) : known(i) /\ Refusable(src(i), tgt(i))
      g == PutCol(f, "parameter_type", LAMBDA i : Text(type[i]))
      h == [tps |-> tps, cols |-> g.cols,
            rows |-> [i \in 1..Len(f.rows) |-> [m |-> g.rows[i].m, v |-> c[i].val]]]
  IN IF errs # {} THEN Fail(errs \union (IF refusable THEN NoData ELSE {}), f)
     ELSE [Near(Ok(h), NMaxAbs([i \in 1..Len(f.rows) |-> c[i].mag]), TolPoint)
             EXCEPT !.errs = IF refusable THEN NoData ELSE {}]
ResampleGrid(rule, tps) ==
  LET g == Grid(rule, Day(tps[1]), DayUp(tps[Len(tps)])) IN [i \in 1..Len(g) |-> Midnight(g[i])]

(*-------------------------- statistics over groups ------------------------*)
Part(m, cols) == [c \in cols |-> m[c]]
(* linear between the sorted values                                        *)
Quantile(s, q) ==
  IF s = <<>> THEN "nan"
  ELSE LET o == SortSeq(s, NLt)
           pos == NMul(q, Len(o) - 1)
           k == NInt(NFloor(pos))
       IN IF k + 1 >= Len(o) THEN o[Len(o)]
          ELSE NAdd(o[k + 1], NMul(NSub(pos, k), NSub(o[k + 2], o[k + 1])))
Statistic(s, op, q) ==
  CASE op = "mean" -> Mean(s) [] op = "median" -> Quantile(s, "1/2") [] op = "quantile" -> Quantile(s, q)
ProcessOver(f, over, op, q) ==
  LET cols == ColsOf(f) \ over
      ids == SetToSeq({Part(f.rows[i].m, cols) : i \in 1..Len(f.rows)})
      given(m, j) == SelectSeq([i \in 1..Len(f.rows) |->
                        IF Part(f.rows[i].m, cols) = m THEN f.rows[i].v[j] ELSE "nan"], Filled)
  IN IF op \notin {"median", "mean", "quantile"} \/ HasDup(f) THEN Fail({"ValueError"}, f)
     ELSE Bag(Near(Ok([tps |-> f.tps, cols |-> SetToSeq(cols),
                       rows |-> [k \in 1..Len(ids) |->
                          [m |-> ids[k], v |-> [j \in 1..Len(f.tps) |-> Statistic(given(ids[k], j), op, q)]]]]),
                   Magnitude(f), "1e-13"))

Minus(a, b) == IF a = "nan" \/ b = "nan" THEN "nan" ELSE NSub(a, b)
RefPeriod(f, q, suffix) ==
  LET es == FilterErrors(f, q)
      s == Selected(f, q)
      base(i) == LET k == {k \in 1..Len(s.ids) : s.ids[k] = i} IN
                 IF k = {} THEN "nan" ELSE Mean(SelectSeq(s.f.rows[CHOOSE x \in k : TRUE].v, Filled))
  IN IF HasDup(f) THEN Fail({"ValueError"} \union es, f)
     ELSE IF es # {} THEN Fail(es, f)
     ELSE Bag(Near(Ok([f EXCEPT !.rows = [i \in 1..Len(f.rows) |->
            LET b == base(i) IN
            [m |-> [f.rows[i].m EXCEPT !["variable"] = Cat(Cat(@, " "), suffix)],
             v |-> [j \in 1..Len(f.tps) |-> Minus(f.rows[i].v[j], b)]]]]),
          Magnitude(f), "1e-13"))

(*------------------------------ parameter sets ----------------------------*)
OfParameter == {"variable", "region", "unit", "parameter_type"}
Common(f) == ColsOf(f) \ OfParameter
(* a name "k (u)" is that of the scalar k with unit u                      *)
ToParameters(units, f) ==
  LET ms == {Part(f.rows[i].m, Common(f)) : i \in 1..Len(f.rows)} IN
  IF Cardinality(ms) # 1 THEN Fail({"ValueError"}, f)
  ELSE LET m == CHOOSE x \in ms : TRUE IN
    IF \/ "climate_model" \in DOMAIN m /\ m["climate_model"] # "s:unspecified"
       \/ \E i \in 1..Len(f.rows) : TypeOf(units, f.rows[i].m) \notin {"point", "average"}
    THEN Fail({"ValueError"}, f)
    ELSE Ok(f)
(* the timeseries of a parameter set made from f, as a frame at times tps  *)
FromParameters(units, f, tps) ==
  LET type == TLCEval([i \in 1..Len(f.rows) |-> TypeOf(units, f.rows[i].m)])
      same == SameTimes(f.tps, tps)
      c == TLCEval([i \in 1..Len(f.rows) |->
             IF same /\ Len(f.tps) >= 3 THEN [err |-> {}, val |-> f.rows[i].v, mag |-> NMaxAbs(f.rows[i].v)]
             ELSE Conv(type[i], GridOf(type[i], f.tps), f.rows[i].v, GridOf(type[i], tps), "none")])
      errs == UNION {c[i].err : i \in 1..Len(f.rows)}
      cols == ColsOf(f) \union {"parameter_type", "climate_model"}
      g == [tps |-> tps, cols |-> SetToSeq(cols),
            rows |-> [i \in 1..Len(f.rows) |->
              [m |-> [x \in cols |-> IF x = "parameter_type" THEN Text(type[i])
                                     ELSE IF x = "climate_model" THEN "s:unspecified" ELSE f.rows[i].m[x]],
               v |-> c[i].val]]]
  IN IF errs # {} THEN Fail(errs, f)
     ELSE Bag(Near(Ok(g), NMaxAbs([i \in 1..Len(f.rows) |-> c[i].mag]), TolPoint))

(* The frame of a parameter set which was made in other ways: e.pars are   *)
(* its parameters, requested first with unit .unit, those with .has also   *)
(* written, with unit .wunit.  Generic and scalar parameters of the World  *)
(* are columns; a column of the same name as an argument replaces it.      *)
FromSet(units, e) ==
  LET has == SelectSeq(e.pars, LAMBDA p : p.has)
      ts == SelectSeq(has, LAMBDA p : p.kind \in {"point", "average"})
      flat == SelectSeq(has, LAMBDA p : p.kind \in {"generic", "scalar"})
      joined(p) == [p EXCEPT !.name = FoldLeft(Cat, p.name[1], [i \in 1..(2 * Len(p.name) - 2) |->
                                        IF i % 2 = 1 THEN "|" ELSE p.name[(i \div 2) + 1]]),
                             !.reg = FoldLeft(Cat, p.reg[1], [i \in 1..(2 * Len(p.reg) - 2) |->
                                        IF i % 2 = 1 THEN "|" ELSE p.reg[(i \div 2) + 1]])]
      column(p) == IF p.kind = "generic" THEN p.name ELSE Cat(Cat(Cat(p.name, " ("), p.unit.s), ")")
      rows == TLCEval([i \in 1..Len(ts) |-> joined(ts[i])])
      meta == TLCEval([i \in 1..Len(flat) |-> joined(flat[i])])
      given == [climate_model |-> Text(e.args[1]), model |-> Text(e.args[2]), scenario |-> Text(e.args[3])]
      own == {column(meta[i]) : i \in 1..Len(meta)}
      common == [c \in own \union DOMAIN given |->
                   IF c \in own THEN meta[CHOOSE i \in 1..Len(meta) : column(meta[i]) = c].cell ELSE given[c]]
      factor == TLCEval([i \in 1..Len(rows) |-> UConv(rows[i].wunit, rows[i].unit)])
      stored(i) == UApplySeq(factor[i], rows[i].v)
      c == TLCEval([i \in 1..Len(rows) |->
             LET g == GridOf(rows[i].kind, e.tps) IN
             IF SameTimes(rows[i].tps, g) /\ Len(rows[i].v) >= 3 THEN [err |-> {}, val |-> stored(i), mag |-> NMaxAbs(stored(i))]
             ELSE Conv(rows[i].kind, rows[i].tps, stored(i), g, "none")])
      mag(i) == NAdd(c[i].mag, NAdd(UMag(factor[i], NMaxAbs(rows[i].v)), NAbs(factor[i].off)))
      cols == DOMAIN common \union OfParameter
      errs == UNION {c[i].err : i \in 1..Len(rows)}
              \union (IF \E i \in 1..Len(meta) : meta[i].reg # "World" THEN {"ValueError"} ELSE {})
      g == [tps |-> e.tps, cols |-> SetToSeq(cols),
            rows |-> [i \in 1..Len(rows) |->
              [m |-> [x \in cols |-> CASE x = "variable" -> Text(rows[i].name) [] x = "region" -> Text(rows[i].reg)
                                       [] x = "unit" -> Text(rows[i].unit.s) [] x = "parameter_type" -> Text(rows[i].kind)
                                       [] OTHER -> common[x]],
               v |-> c[i].val]]]
  IN IF errs # {} THEN Fail(errs, g)
     ELSE Bag(Near(Ok(g), NMaxAbs([i \in 1..Len(rows) |-> mag(i)]), TolPoint))

(*----------------------------- all operations -----------------------------*)
(* the frame described by the arguments of "new"                           *)
Described(e) == [tps |-> e.tps, cols |-> e.cols, rows |-> e.rows]
Operations == {"new", "filter", "rename", "setmeta", "settime", "append", "convert", "interpolate", "resample",
               "export", "process", "ref", "ps", "fromset"}
Result(units, fs, e) ==
  CASE e.op = "new" -> IF e.bad # "" THEN Fail({e.bad}, Described(e)) ELSE Bag(Near(Ok(Described(e)), "0", "1e-13"))
    [] e.op = "filter" -> Filter(fs[e.f], e)
    [] e.op = "rename" -> Rename(fs[e.f], e.mapping)
    [] e.op = "setmeta" -> SetMeta(fs[e.f], e)
    [] e.op = "settime" -> SetTime(fs[e.f], e.tps)
    [] e.op = "append" -> AppendFrames([k \in 1..Len(e.fs) |-> fs[e.fs[k]]], e.policy)
    [] e.op = "convert" -> Convert(units, fs[e.f], e)
    [] e.op = "interpolate" -> Interpolate(units, fs[e.f], e.tps, e.ext)
    [] e.op = "resample" -> Interpolate(units, fs[e.f], ResampleGrid(e.rule, fs[e.f].tps), e.ext)
    [] e.op = "export" ->
         IF HasDup(fs[e.f]) /\ e.strict THEN Fail({"ValueError"}, fs[e.f])
         ELSE Bag(Near(Ok(fs[e.f]), "0", "1e-13"))
    [] e.op = "process" -> ProcessOver(fs[e.f], {e.cols[i] : i \in 1..Len(e.cols)}, e.how, e.q)
    [] e.op = "ref" -> RefPeriod(fs[e.f], e, e.suffix)
    [] e.op = "fromset" -> FromSet(units, e)
    [] e.op = "ps" -> LET p == ToParameters(units, fs[e.f]) IN
                      IF p.must THEN p ELSE FromParameters(units, fs[e.f], e.tps)
=============================================================================
