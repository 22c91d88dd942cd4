---------------------------- MODULE MC_Contexts ----------------------------
(***************************************************************************)
(* Conversions with and without contexts one after the other on the shared *)
(* registry: a conversion enters its context, converts or fails, and       *)
(* leaves the context again.  Whatever was done before, its outcome is     *)
(* that of its own units and context.                                      *)
(***************************************************************************)
EXTENDS Metrics, Json

CONSTANTS MaxHistory, Scripts

Single(b) == [s |-> b, f |-> <<<<"", b, 1>>>>]
Emission(s) == [s |-> Cat(Cat("Mt ", s), " / yr"), f |-> <<<<"M", "t", 1>>, <<"", s, 1>>, <<"", "yr", -1>>>>]
Mass(s) == [s |-> Cat("g", s), f |-> <<<<"", Cat("g", s), 1>>>>]
Rate(s) == [s |-> Cat(s, "/d"), f |-> <<<<"", s, 1>>, <<"", "d", -1>>>>]
All == {s \in BaseGas \union DOMAIN DerivedGas : TRUE}
Item(u, v, ctx) == [u |-> u, v |-> v, ctx |-> ctx]
(* alone: everything in the table, in all forms, both ways; in histories:  *)
(* these                                                                   *)
Menu ==
  << Item(Emission("CH4"), Emission("CO2"), ""),
     Item(Emission("CH4"), Emission("CO2"), "AR4GWP100"),
     Item(Mass("N2O"), Mass("CO2"), "AR5GWP100"),
     Item(Mass("N2O"), Mass("CO2"), ""),
     Item(Single("CH4"), Single("C"), "CH4_conversions"),
     Item(Single("CH4"), Single("C"), "SARGWP100"),
     Item(Single("CH4"), Single("C"), ""),
     Item(Single("NOx"), Single("CO2"), "AR4GWP100"),
     Item(Single("CFC13"), Single("CO2"), "SARGWP100"),
     Item(Single("NOx"), Single("N2O"), "NOx_conversions"),
     Item(Single("C"), Single("CO2"), "nothing"),
     Item(Emission("CO2"), Emission("HFC134a"), "AR5GWP100") >>
Singles ==
  {Item(f[1], f[2], m) : m \in MetricSet,
     f \in UNION {{<<Single(s), Single("CO2")>>, <<Single("C"), Single(s)>>, <<Mass(s), Mass("CO2")>>,
                   <<Emission("CO2"), Emission(s)>>, <<Emission(s), Emission("CH4")>>, <<Rate(s), Rate("C")>>}
                  : s \in All}}

VARIABLES active, phase, item, log, h
vars == <<active, phase, item, log, h>>
Init == active = <<>> /\ phase = "idle" /\ item = Menu[1] /\ log = <<>> /\ h = <<>>
Start(i) ==
  /\ phase = "idle" /\ Len(log) < MaxHistory /\ item' = Menu[i]
  /\ IF Menu[i].ctx # "" /\ Menu[i].ctx \notin Contexts
     THEN phase' = "leave" /\ UNCHANGED active /\ log' = Append(log, <<Menu[i], "KeyError">>)
     ELSE phase' = "convert" /\ active' = (IF Menu[i].ctx = "" THEN active ELSE Append(active, Menu[i].ctx)) /\ log' = log
  /\ h' = Append(h, [op |-> "make", u |-> Menu[i].u, v |-> Menu[i].v, ctx |-> Menu[i].ctx])
StartAny(x) ==
  /\ phase = "idle" /\ h = <<>> /\ item' = x /\ phase' = "convert" /\ active' = <<x.ctx>> /\ log' = log
  /\ h' = << [op |-> "make", u |-> x.u, v |-> x.v, ctx |-> x.ctx],
             [op |-> "from", c |-> 1, vals |-> <<"1", "7/2">>], [op |-> "to", c |-> 1, vals |-> <<"3">>] >>
Convert ==
  /\ phase = "convert"
  /\ LET c == InContext(item.u, item.v, IF active = <<>> THEN "" ELSE active[Len(active)]) IN
     log' = Append(log, <<item, IF ~c.ok THEN "DimensionalityError" ELSE IF c.nan THEN "nan" ELSE c.scale>>)
  /\ phase' = "leave" /\ UNCHANGED <<active, item, h>>
Leave ==
  /\ phase = "leave" /\ phase' = "idle"
  /\ active' = IF active = <<>> THEN <<>> ELSE SubSeq(active, 1, Len(active) - 1)
  /\ UNCHANGED <<item, log, h>>
  /\ Scripts /\ (Len(log) = MaxHistory \/ (Len(log) = 1 /\ Len(h) = 3)) =>
       PrintT("@@" \o ToJson(h))
Next == (\E i \in 1..Len(Menu) : Start(i) /\ (h # <<>> => h[1] \in {[op |-> "make", u |-> m.u, v |-> m.v, ctx |-> m.ctx] : m \in {Menu[j] : j \in 1..Len(Menu)}}))
        \/ (\E x \in Singles : StartAny(x)) \/ Convert \/ Leave
Spec == Init /\ [][Next]_vars

Idle == phase = "idle" => active = <<>>
Alone ==
  \A i \in 1..Len(log) :
    LET x == log[i][1]
        c == InContext(x.u, x.v, x.ctx)
    IN IF x.ctx # "" /\ x.ctx \notin Contexts THEN log[i][2] = "KeyError"
       ELSE log[i][2] = IF ~c.ok THEN "DimensionalityError" ELSE IF c.nan THEN "nan" ELSE c.scale
(* a metric is used the same way in all forms, and back                    *)
Same == phase = "leave" /\ item.ctx \in MetricSet /\ IsEmission(UDim(item.u)) =>
  LET c == InContext(item.u, item.v, item.ctx)
      d == InContext(item.v, item.u, item.ctx)
  IN c.ok = d.ok /\ c.nan = d.nan /\ (c.ok /\ ~c.nan => NEq(NMul(c.scale, d.scale), "1"))
=============================================================================
