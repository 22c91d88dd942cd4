------------------------------ MODULE Metrics ------------------------------
(***************************************************************************)
(* Conversions in contexts: the tabulated equivalence metrics, and the two *)
(* contexts that allow methane <-> carbon and NOx <-> nitrogen.            *)
(* The table is a copy of the published one: CO2-equivalents of a mass of  *)
(* the species, in the order of MetricNames ("" = no value).               *)
(***************************************************************************)
EXTENDS Units

MetricNames == <<"SARGWP100", "AR4GWP100", "AR5GWP100">>
Metric ==
  [CH4 |-> <<"21", "25", "28">>,
   N2O |-> <<"310", "298", "265">>,
   CFC11 |-> <<"3800", "4750", "4660">>,
   CFC12 |-> <<"8100", "10900", "10200">>,
   CFC13 |-> <<"", "14400", "13900">>,
   CFC113 |-> <<"4800", "6130", "5820">>,
   CFC114 |-> <<"", "10000", "8590">>,
   CFC115 |-> <<"", "7370", "7670">>,
   Halon1301 |-> <<"5400", "7140", "6290">>,
   Halon1211 |-> <<"", "1890", "1750">>,
   Halon2402 |-> <<"", "1640", "1470">>,
   Halon1202 |-> <<"", "", "">>,
   CCl4 |-> <<"1400", "1400", "1730">>,
   CH3Br |-> <<"", "5", "2">>,
   CH3CCl3 |-> <<"100", "146", "160">>,
   HCFC21 |-> <<"", "", "148">>,
   HCFC22 |-> <<"1500", "1810", "1760">>,
   HCFC123 |-> <<"90", "77", "79">>,
   HCFC124 |-> <<"470", "609", "527">>,
   HCFC141b |-> <<"600", "725", "782">>,
   HCFC142b |-> <<"1800", "2310", "1980">>,
   HCFC225ca |-> <<"", "122", "127">>,
   HCFC225cb |-> <<"", "595", "525">>,
   HFC23 |-> <<"11700", "14800", "12400">>,
   HFC32 |-> <<"650", "675", "677">>,
   HFC41 |-> <<"150", "", "116">>,
   HFC125 |-> <<"2800", "3500", "3170">>,
   HFC134 |-> <<"1000", "", "1120">>,
   HFC134a |-> <<"1300", "1430", "1300">>,
   HFC143 |-> <<"300", "", "328">>,
   HFC143a |-> <<"3800", "4470", "4800">>,
   HFC152 |-> <<"", "", "16">>,
   HFC152a |-> <<"140", "124", "138">>,
   HFC161 |-> <<"", "", "4">>,
   HFC227ea |-> <<"2900", "3220", "3350">>,
   HFC236cb |-> <<"", "", "1210">>,
   HFC236ea |-> <<"", "", "1330">>,
   HFC236fa |-> <<"6300", "9810", "8060">>,
   HFC245ca |-> <<"560", "", "716">>,
   HFC245fa |-> <<"", "1030", "858">>,
   HFC365mfc |-> <<"", "794", "804">>,
   HFC4310mee |-> <<"1300", "1640", "1650">>,
   SF6 |-> <<"23900", "22800", "23500">>,
   NF3 |-> <<"", "17200", "16100">>,
   CF4 |-> <<"6500", "7390", "6630">>,
   C2F6 |-> <<"9200", "12200", "11100">>,
   C3F8 |-> <<"7000", "8830", "8900">>,
   cC4F8 |-> <<"8700", "10300", "9540">>,
   C4F10 |-> <<"7000", "8860", "9200">>,
   C5F12 |-> <<"7500", "9160", "8550">>,
   C6F14 |-> <<"7400", "9300", "7910">>,
   C10F18 |-> <<"", "", "7190">>,
   SF5CF3 |-> <<"", "17700", "17400">>,
   cC3F6 |-> <<"", "", "9200">>,
   HFE125 |-> <<"14900", "12400", "">>,
   HFE134 |-> <<"6320", "5560", "">>,
   HFE143a |-> <<"756", "523", "">>,
   HCFE235da2 |-> <<"350", "491", "">>,
   HFE245cb2 |-> <<"708", "654", "">>,
   HFE245fa2 |-> <<"659", "812", "">>,
   HFE347mcc3 |-> <<"575", "530", "">>,
   HFE347pcf2 |-> <<"580", "889", "">>,
   HFE356pcc3 |-> <<"110", "413", "">>,
   HFE449sl |-> <<"297", "421", "">>,
   HFE569sf2 |-> <<"59", "57", "">>,
   HFE4310pccc124 |-> <<"1870", "2820", "">>,
   HFE236ca12 |-> <<"2800", "5350", "">>,
   HFE338pcc13 |-> <<"", "1500", "2910">>,
   HFE227ea |-> <<"", "", "6450">>,
   HFE236ea2 |-> <<"", "", "1790">>,
   HFE236fa |-> <<"", "", "979">>,
   HFE245fa1 |-> <<"", "", "828">>,
   HFE263fb2 |-> <<"", "", "1">>,
   HFE329mcc2 |-> <<"", "", "3070">>,
   HFE338mcf2 |-> <<"", "", "929">>,
   HFE347mcf2 |-> <<"", "", "854">>,
   HFE356mec3 |-> <<"", "", "387">>,
   HFE356pcf2 |-> <<"", "", "719">>,
   HFE356pcf3 |-> <<"", "", "446">>,
   HFE365mcf3 |-> <<"", "", "">>,
   HFE374pc2 |-> <<"", "", "627">>,
   PFPMIE |-> <<"", "10300", "9710">>,
   CHCl3 |-> <<"4", "", "16">>,
   CH2Cl2 |-> <<"9", "8.7", "9">>,
   CH3Cl |-> <<"", "13", "12">>,
   Halon1201 |-> <<"", "", "376">>]

GasContexts ==
  [CH4_conversions |-> [from |-> "CH4", to |-> "C", factor |-> "12/16"],
   NOx_conversions |-> [from |-> "NOx", to |-> "N", factor |-> "14/46"]]
MetricSet == {MetricNames[i] : i \in 1..Len(MetricNames)}
Contexts == MetricSet \union DOMAIN GasContexts

(* the species of the table with the dimension of base species b           *)
LabelOf == [b \in {CHOOSE d \in DOMAIN GasDef(s).dim : TRUE : s \in DOMAIN Metric} |->
              CHOOSE s \in DOMAIN Metric : b \in DOMAIN GasDef(s).dim]
(* carbon equivalents of one unit of base species b ("" = no value, b is   *)
(* not part of the metric)                                                 *)
InMetric(b) == b = "C" \/ b \in DOMAIN LabelOf
Carbon(m, b) ==
  IF b = "C" THEN "1"
  ELSE LET s == LabelOf[b]
           v == Metric[s][CHOOSE i \in 1..Len(MetricNames) : MetricNames[i] = m]
       IN IF v = "" THEN "" ELSE NDiv(NMul(v, GasDef("CO2").scale), GasDef(s).scale)

(* a dimension as one species and the rest                                 *)
SpeciesOf(dim) == {d \in DOMAIN dim : d \in BaseGas}
IsEmission(dim) == Cardinality(SpeciesOf(dim)) = 1 /\ \A d \in SpeciesOf(dim) : dim[d] = 1
Sp(dim) == CHOOSE d \in DOMAIN dim : d \in BaseGas
Form(dim) == [d \in DOMAIN dim \ SpeciesOf(dim) |-> dim[d]]
MetricForms == {NoDim, Dim1("mass"), [mass |-> 1, time |-> -1], [time |-> -1]}

(* [ok, scale, off, nan, must]: must is FALSE where a refusal is also fine *)
InContext(u, v, ctx) ==
  LET a == UMeaning(u)
      b == UMeaning(v)
      plain == UConv(u, v)
      yes(k) == [ok |-> TRUE, scale |-> NDiv(NMul(a.scale, k), b.scale), off |-> "0", nan |-> FALSE, must |-> TRUE]
      no == [ok |-> FALSE, scale |-> "1", off |-> "0", nan |-> FALSE, must |-> TRUE]
  IN IF plain.ok THEN [ok |-> TRUE, scale |-> plain.scale, off |-> plain.off, nan |-> FALSE, must |-> TRUE]
     ELSE IF ctx = "" \/ ~IsEmission(a.dim) \/ ~IsEmission(b.dim) \/ Form(a.dim) # Form(b.dim) THEN no
     ELSE IF ctx \in MetricSet
     THEN IF Form(a.dim) \notin MetricForms \/ ~InMetric(Sp(a.dim)) \/ ~InMetric(Sp(b.dim)) THEN no
          ELSE LET p == Carbon(ctx, Sp(a.dim))
                   q == Carbon(ctx, Sp(b.dim))
               IN IF p = "" \/ q = "" THEN [yes("1") EXCEPT !.nan = TRUE] ELSE yes(NDiv(p, q))
     ELSE LET g == GasContexts[ctx]
              pure == Form(a.dim) = NoDim
          IN IF Sp(a.dim) = g.from /\ Sp(b.dim) = g.to THEN [yes(g.factor) EXCEPT !.must = pure]
             ELSE IF Sp(a.dim) = g.to /\ Sp(b.dim) = g.from THEN [yes(NDiv("1", g.factor)) EXCEPT !.must = pure]
             ELSE no
=============================================================================
