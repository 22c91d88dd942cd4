-------------------------------- MODULE Dice --------------------------------
(***************************************************************************)
(* Models wrapped by OpenSCM (openscm.core.OpenSCM, openscm.adapters) and  *)
(* the DICE adapter, on top of ParamStore.                                 *)
(*                                                                         *)
(* A model M is                                                            *)
(*  M.ps, M.os   its input and output parameter set                        *)
(*  M.init       its defaults were written                                 *)
(*  M.count, M.tps, M.taps   run period as set up last                     *)
(*  M.step       current time step (-1: not reset yet)                     *)
(*  M.time       current time                                              *)
(*  M.b          carbon cycle transition matrix                            *)
(*  M.buf, M.mag its outputs up to the current step (0 beyond)             *)
(* Operations return [errs, must, S, M, r].                                *)
(***************************************************************************)
EXTENDS ParamStore

World == <<"World">>
UnitOf(str) ==
  CASE str = "GtC" -> [s |-> str, f |-> <<<<"G", "tC", 1>>>>]
    [] str = "delta_degC" -> [s |-> str, f |-> <<<<"", "delta_degC", 1>>>>]
    [] str = "" -> [s |-> str, f |-> <<>>]
    [] str = "delta_degC*m^2/W" -> [s |-> str, f |-> <<<<"", "delta_degC", 1>>, <<"", "m", 2>>, <<"", "W", -1>>>>]
    [] str = "W/m^2/delta_degC" -> [s |-> str, f |-> <<<<"", "W", 1>>, <<"", "m", -2>>, <<"", "delta_degC", -1>>>>]
    [] str = "W/m^2" -> [s |-> str, f |-> <<<<"", "W", 1>>, <<"", "m", -2>>>>]
    [] str = "GtCO2/a" -> [s |-> str, f |-> <<<<"G", "tCO2", 1>>, <<"", "a", -1>>>>]
    [] str = "GtC/a" -> [s |-> str, f |-> <<<<"G", "tC", 1>>, <<"", "a", -1>>>>]

(* Inputs: full name, kind, unit and default ("" = none).                  *)
Par(n, k, u, d) == [name |-> n, kind |-> k, unit |-> u, default |-> d]
D_(n, d, u) == Par(<<"DICE", n>>, "scalar", u, d)
Inputs ==
  [mat0 |-> D_("mat0", "830.4", "GtC"), mateq |-> D_("mateq", "588", "GtC"),
   mat_lower |-> D_("mat_lower", "10", "GtC"),
   ml0 |-> D_("ml0", "10010", "GtC"), mleq |-> D_("mleq", "10000", "GtC"),
   ml_lower |-> D_("ml_lower", "1000", "GtC"),
   mu0 |-> D_("mu0", "1527", "GtC"), mueq |-> D_("mueq", "1350", "GtC"),
   mu_lower |-> D_("mu_lower", "100", "GtC"),
   tatm0 |-> D_("tatm0", "0.8", "delta_degC"), tatm_upper |-> D_("tatm_upper", "40", "delta_degC"),
   tocean0 |-> D_("tocean0", "0.0068", "delta_degC"), tocean_lower |-> D_("tocean_lower", "-1", "delta_degC"),
   tocean_upper |-> D_("tocean_upper", "20", "delta_degC"),
   b12 |-> D_("b12", "0.0181", ""), b23 |-> D_("b23", "0.00071", ""),
   c1 |-> D_("c1", "0.0222", "delta_degC*m^2/W"), c3 |-> D_("c3", "0.09175", "W/m^2/delta_degC"),
   c4 |-> D_("c4", "0.00487", ""),
   fex0 |-> D_("fex0", "0.25", "W/m^2"), fex1 |-> D_("fex1", "0.7", "W/m^2"),
   period_length |-> Par(<<"DICE", "period_length">>, "generic", "", "p:31536000"),
   original_rounding |-> Par(<<"DICE", "original_rounding">>, "generic", "", "b:True"),
   forcoth_saturation_time |-> Par(<<"DICE", "forcoth_saturation_time">>, "generic", "", "d:4102444800"),
   fco22x |-> Par(<<"Radiative Forcing Sensitivity">>, "scalar", "W/m^2", "3.8"),
   t2xco2 |-> Par(<<"Equilibrium Climate Sensitivity">>, "scalar", "delta_degC", "2.9"),
   start_time |-> Par(<<"Start Time">>, "generic", "", ""),
   stop_time |-> Par(<<"Stop Time">>, "generic", "", "")]
InputNames ==
  <<"mat0", "mateq", "mat_lower", "ml0", "mleq", "ml_lower", "mu0", "mueq", "mu_lower", "tatm0", "tatm_upper",
    "tocean0", "tocean_lower", "tocean_upper", "b12", "b23", "c1", "c3", "c4", "fex0", "fex1", "period_length",
    "original_rounding", "forcoth_saturation_time", "fco22x", "t2xco2", "start_time", "stop_time">>
YearLength == "31536000"

Out(n, u, k) == [name |-> n, unit |-> u, kind |-> k]
Outputs ==
  [mat |-> Out(<<"Pool", "CO2", "Atmosphere">>, "GtC", "point"),
   ml |-> Out(<<"Pool", "CO2", "Ocean", "lower">>, "GtC", "point"),
   mu |-> Out(<<"Pool", "CO2", "Ocean", "shallow">>, "GtC", "point"),
   tatm |-> Out(<<"Surface Temperature", "Increase">>, "delta_degC", "point"),
   tocean |-> Out(<<"Ocean Temperature", "Increase">>, "delta_degC", "point"),
   forc |-> Out(<<"Radiative Forcing", "CO2">>, "W/m^2", "average")]
OutputNames == <<"mat", "ml", "mu", "tatm", "tocean", "forc">>

NewModel(ps, os) ==
  [ps |-> ps, os |-> os, init |-> FALSE, count |-> 0, tps |-> <<>>, taps |-> <<>>, step |-> -1,
   time |-> "0", b |-> <<>>, buf |-> [o \in DOMAIN Outputs |-> <<>>], mag |-> [o \in DOMAIN Outputs |-> "0"]]

(*-------------------------- a model's own views ---------------------------*)
(* A model's views are not handed out: requests leave no entry in S.views. *)
Ask(S, k, kind, unit, tps) ==
  LET o == Request(S, k, kind, unit, tps, "none") IN
  [errs |-> o.errs, must |-> o.must, st |-> [o.st EXCEPT !.views = S.views]]
InKey(M, n) == Key(M.ps, World, Inputs[n].name)
OutKey(M, n) == Key(M.os, World, Outputs[n].name)
InView(M, n) == NewView(InKey(M, n), Inputs[n].kind, IF Inputs[n].kind = "generic" THEN NoUnit ELSE UnitOf(Inputs[n].unit),
                        <<>>, "none")
Given(S, M, n) == S.par[InKey(M, n)].written
Num_(S, M, n) == Fresh(S, InView(M, n)).val[1]
Scalars == {n \in DOMAIN Inputs : Inputs[n].kind = "scalar"}
AllNums(S, M) == TLCEval([n \in Scalars |-> Num_(S, M, n)])
Gen(S, M, n) == S.par[InKey(M, n)].data[1]
Text(v) == Rest(Rest(v))
Time_(S, M, n) == N(Text(Gen(S, M, n)))

Bad(errs, S, M) == [errs |-> errs, must |-> TRUE, S |-> S, M |-> M, r |-> <<>>]
Good(S, M, r) == [errs |-> {}, must |-> FALSE, S |-> S, M |-> M, r |-> r]

(*------------------------------ initialising ------------------------------*)
(* Defaults are used for what is empty, and only when the model is first   *)
(* used.                                                                   *)
WithDefault(S, M, n) ==
  LET i == Inputs[n]
      k == InKey(M, n)
      o == Ask(S, k, i.kind, IF i.kind = "generic" THEN NoUnit ELSE UnitOf(i.unit), <<>>)
      p == o.st.par[k]
      x == IF i.kind = "generic" THEN [val |-> <<i.default>>, mag |-> "0"]
           ELSE ToParameter(p, InView(M, n), <<N(i.default)>>, NAbs(i.default))
  IN IF o.must THEN Bad(o.errs, S, M)
     ELSE IF p.written \/ i.default = "" THEN Good(o.st, M, <<>>)
     ELSE Good([o.st EXCEPT !.par[k] = [p EXCEPT !.data = x.val, !.mag = x.mag, !.written = TRUE, !.w = @ + 1]], M, <<>>)
InitModel(S, M) ==
  IF M.init THEN Good(S, M, <<>>)
  ELSE LET o == FoldLeft(LAMBDA acc, n : IF acc.must THEN acc ELSE WithDefault(acc.S, M, n), Good(S, M, <<>>), InputNames)
       IN IF o.must THEN o ELSE Good(o.S, [M EXCEPT !.init = TRUE], <<>>)

EUnit(S, M) == UnitOf(IF Gen(S, M, "original_rounding") = "b:True" THEN "GtCO2/a" ELSE "GtC/a")
EKey(M) == Key(M.ps, World, <<"Emissions", "CO2">>)
EView(S, M) == NewView(EKey(M), "average", EUnit(S, M), M.taps, "none")
OutTps(M, o) == IF Outputs[o].kind = "average" THEN M.taps ELSE M.tps
OutView(M, o) == NewView(OutKey(M, o), Outputs[o].kind, UnitOf(Outputs[o].unit), OutTps(M, o), "none")

InitRun(S0, M0) ==
  LET i == InitModel(S0, M0)
      S == i.S
      M == i.M
      missing == ~Given(S, M, "start_time") \/ ~Given(S, M, "stop_time")
      start == Time_(S, M, "start_time")
      stop == Time_(S, M, "stop_time")
      period == Time_(S, M, "period_length")
      count == NInt(NFloor(NDiv(NSub(stop, start), period))) + 1
      grid(n) == [j \in 1..n |-> NAdd(start, NMul(period, j - 1))]
      M1 == [M EXCEPT !.count = count, !.tps = grid(count), !.taps = grid(count + 1), !.step = -1]
      asks == <<[k |-> EKey(M), kind |-> "average", unit |-> EUnit(S, M), tps |-> M1.taps]>>
              \o [j \in 1..Len(OutputNames) |->
                    LET o == OutputNames[j] IN
                    [k |-> OutKey(M, o), kind |-> Outputs[o].kind, unit |-> UnitOf(Outputs[o].unit), tps |-> OutTps(M1, o)]]
      all == FoldLeft(LAMBDA acc, a :
                        IF acc.must THEN acc
                        ELSE LET o == Ask(acc.S, a.k, a.kind, a.unit, a.tps) IN
                             IF o.must THEN Bad(o.errs, acc.S, acc.M) ELSE Good(o.st, acc.M, <<>>),
                      Good(S, M1, <<>>), asks)
  IN IF i.must THEN i ELSE IF missing THEN Bad({"ParameterEmptyError"}, S, M) ELSE all

(*------------------------------- publishing -------------------------------*)
PublishOut(S, M, o) ==
  LET k == OutKey(M, o)
      p == S.par[k]
      x == ToParameter(p, OutView(M, o), M.buf[o], M.mag[o])
  IN IF x.err # {} THEN Bad(x.err, S, M)
     ELSE Good([S EXCEPT !.par[k] = [p EXCEPT !.data = [j \in 1..Len(x.val) |-> NRound(x.val[j])],
                                              !.mag = NMax(x.mag, M.mag[o]), !.written = TRUE, !.w = @ + 1]], M, <<>>)
PublishAll(S, M) ==
  FoldLeft(LAMBDA acc, o : IF acc.must THEN acc ELSE PublishOut(acc.S, M, o), Good(S, M, <<>>), OutputNames)

(*--------------------------------- resetting ------------------------------*)
Padded(x, n) == [j \in 1..n |-> IF j = 1 THEN NRound(x) ELSE "0"]
Reset(S, M) ==
  LET nums == AllNums(S, M)
      v(n) == nums[n]
      b21 == NDiv(NMul(v("b12"), v("mateq")), v("mueq"))
      b32 == NDiv(NMul(v("b23"), v("mueq")), v("mleq"))
      forc0 == NAdd(NMul(v("fco22x"), NLog2(NDiv(v("mat0"), v("mateq")))), v("fex0"))
      first == [mat |-> v("mat0"), ml |-> v("ml0"), mu |-> v("mu0"), tatm |-> v("tatm0"), tocean |-> v("tocean0"),
                forc |-> forc0]
      M1 == [M EXCEPT !.step = 0, !.time = Time_(S, M, "start_time"),
               !.b = [b11 |-> NSub("1", v("b12")), b21 |-> b21, b22 |-> NSub(NSub("1", b21), v("b23")),
                      b32 |-> b32, b33 |-> NSub("1", b32)],
               !.buf = [o \in DOMAIN Outputs |-> Padded(first[o], M.count)],
               !.mag = [o \in DOMAIN Outputs |-> NMax(NAbs(first[o]), IF o = "forc" THEN v("fco22x") ELSE "0")]]
  IN IF M.count < 3 THEN Bad({"InsufficientDataError"}, S, M)
     ELSE PublishAll(S, M1)

(*---------------------------------- a step --------------------------------*)
Absum(s) == NSum([i \in 1..Len(s) |-> NAbs(s[i])])
CalcWith(S, M, nums, e) ==
  LET t == M.step + 1          \* 0-based index of the new values
      v(n) == nums[n]
      prev(o) == M.buf[o][t]
      rounding == Gen(S, M, "original_rounding") = "b:True"
      period == Time_(S, M, "period_length")
      start == Time_(S, M, "start_time")
      sat == Time_(S, M, "forcoth_saturation_time")
      years == NDiv(period, YearLength)
      emis == NDiv(NMul(e.val[t], years), IF rounding THEN "3.666" ELSE "1")
      matT == <<NMul(prev("mat"), M.b.b11), NMul(prev("mu"), M.b.b21), emis>>
      mat == NMax(v("mat_lower"), NSum(matT))
      ml == NMax(v("ml_lower"), NAdd(NMul(prev("ml"), M.b.b33), NMul(prev("mu"), v("b23"))))
      mu == NMax(v("mu_lower"),
              NSum(<<NMul(prev("mat"), v("b12")), NMul(prev("mu"), M.b.b22), NMul(prev("ml"), M.b.b32)>>))
      tocean == NMax(v("tocean_lower"), NMin(v("tocean_upper"),
                  NAdd(prev("tocean"), NMul(v("c4"), NSub(prev("tatm"), prev("tocean"))))))
      elapsed == NMul(period, t)
      other == IF NLe(sat, NAdd(start, elapsed)) THEN v("fex1")
               ELSE NAdd(v("fex0"), NDiv(NMul(NSub(v("fex1"), v("fex0")), elapsed), NSub(sat, start)))
      forc == NAdd(NMul(v("fco22x"), NLog2(NDiv(mat, v("mateq")))), other)
      tatmT == <<forc, NMul(NDiv(v("fco22x"), v("t2xco2")), prev("tatm")),
                 NMul(v("c3"), NSub(prev("tatm"), prev("tocean")))>>
      tatm == NMin(v("tatm_upper"),
                NAdd(prev("tatm"), NMul(v("c1"), NSub(NSub(tatmT[1], tatmT[2]), tatmT[3]))))
      new == [mat |-> mat, ml |-> ml, mu |-> mu, tatm |-> tatm, tocean |-> tocean, forc |-> forc]
      size == [mat |-> NMax(NAbs(mat), Absum(matT)), ml |-> NAbs(ml), mu |-> NMax(NAbs(mu), NAbs(NMul(prev("mu"), M.b.b22))),
               tatm |-> NMax(NAbs(tatm), NMul(NAbs(v("c1")), Absum(tatmT))),
               tocean |-> NMax(NAbs(tocean), NAbs(prev("tatm"))),
               forc |-> NMax(NAbs(forc), NAdd(NAbs(v("fco22x")), NAbs(other)))]
  IN IF t >= M.count THEN Bad({"*"}, S, M)    \* past the end: any error
     ELSE IF e.err # {} THEN Bad(e.err, S, M)
     ELSE Good(S, [M EXCEPT !.step = t, !.time = NAdd(@, period),
                     !.buf = [o \in DOMAIN Outputs |-> [M.buf[o] EXCEPT ![t + 1] = NRound(new[o])]],
                     !.mag = [o \in DOMAIN Outputs |-> NMax(M.mag[o], size[o])]], <<>>)
Calc(S, M) == CalcWith(S, M, AllNums(S, M), TLCEval(Fresh(S, EView(S, M))))

(* After a failure, a model has to be reset.                               *)
Failed(errs, S, M) == Bad(errs, S, [M EXCEPT !.step = -1])
Step(S, M) ==
  LET c == Calc(S, M)
      p == PublishAll(c.S, c.M)
  IN IF M.step < 0 THEN Bad({"*"}, S, M)
     ELSE IF c.must THEN Failed(c.errs, S, M)
     ELSE IF p.must THEN Failed(p.errs, p.S, M) ELSE Good(p.S, p.M, <<p.M.time>>)

(* A run is all the steps; its results appear in the output at its end.    *)
RECURSIVE Steps(_, _, _, _)
Steps(S, M, nums, e) ==
  IF M.step >= M.count - 1 THEN Good(S, M, <<>>)
  ELSE LET c == TLCEval(CalcWith(S, M, nums, e)) IN IF c.must THEN c ELSE Steps(c.S, c.M, nums, e)
RunFromReset(S, M) ==
  LET c == Steps(S, M, AllNums(S, M), TLCEval(Fresh(S, EView(S, M)))) IN
  IF c.must THEN Failed(c.errs, S, M) ELSE PublishAll(c.S, c.M)

ResetStepping(S, M) ==
  LET a == InitRun(S, M) IN IF a.must THEN a ELSE Reset(a.S, a.M)
Run(S, M) ==
  LET a == ResetStepping(S, M) IN IF a.must THEN a ELSE RunFromReset(a.S, a.M)
=============================================================================
