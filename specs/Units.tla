------------------------------- MODULE Units -------------------------------
(***************************************************************************)
(* The algebra of units (openscm.core.units).                              *)
(*                                                                         *)
(* A unit is [s |-> spelling, f |-> factors] with factors a sequence of    *)
(* <<prefix, base, power>>; a base is one of the names below, in any of    *)
(* the documented spellings.  Its meaning is an affine map to a canonical  *)
(* unit: dimension (a function from base dimensions to powers), scale and  *)
(* offset (of temperatures).  Names not defined here are undefined units.  *)
(***************************************************************************)
EXTENDS Num, Integers, Sequences, FiniteSets, FiniteSetsExt, SequencesExt, TLC

NoDim == [x \in {} |-> 0]
Dim1(d) == (d :> 1)
DimPlus(a, b) ==
  LET ds == DOMAIN a \union DOMAIN b
      g(h, d) == IF d \in DOMAIN h THEN h[d] ELSE 0
      nz == {d \in ds : g(a, d) + g(b, d) # 0}
  IN [d \in nz |-> g(a, d) + g(b, d)]
DimTimes(a, n) == IF n = 0 THEN NoDim ELSE [d \in DOMAIN a |-> n * a[d]]

Prefix ==
  [p \in {"", "k", "M", "G", "T", "P", "E", "m", "c", "u", "kilo", "mega", "giga", "tera", "milli"} |->
     CASE p = "" -> "1" [] p \in {"k", "kilo"} -> "1e3" [] p \in {"M", "mega"} -> "1e6"
       [] p \in {"G", "giga"} -> "1e9" [] p \in {"T", "tera"} -> "1e12" [] p = "P" -> "1e15"
       [] p = "E" -> "1e18" [] p \in {"m", "milli"} -> "1e-3" [] p = "c" -> "1e-2" [] p = "u" -> "1e-6"]

Joule == [mass |-> 1, length |-> 2, time |-> -2]
YearS == "31557600"     \* the Julian year of 365.25 days
Unit_(sc, dim) == [scale |-> N(sc), off |-> "0", dim |-> dim]

(* Names which are not emissions species *)
PlainNames ==
  [one |-> {"dimensionless"},
   g |-> {"g", "gram"}, t |-> {"t", "metric_ton", "tonne"}, kt |-> {"kt"}, lb |-> {"lb", "pound"},
   s |-> {"s", "second"}, min |-> {"min", "minute"}, h |-> {"h", "hr", "hour"},
   d |-> {"d", "day"}, week |-> {"week"}, month |-> {"month"},
   yr |-> {"yr", "a", "annum", "year"}, century |-> {"century"},
   m |-> {"m", "meter", "metre"}, ha |-> {"ha", "hectare"},
   W |-> {"W", "watt"}, J |-> {"J", "joule"}, Wh |-> {"Wh", "watt_hour"},
   K |-> {"K", "kelvin", "delta_degC"}, degC |-> {"degC", "degreeC"},
   degF |-> {"degF", "degreeF"}, ddegF |-> {"delta_degF"},
   ppt |-> {"ppt"}, ppb |-> {"ppb"}, ppm |-> {"ppm"}]
PlainKeys == DOMAIN PlainNames
PlainDef ==
  [one |-> Unit_("1", NoDim),
   g |-> Unit_("1e-3", Dim1("mass")), t |-> Unit_("1e3", Dim1("mass")),
   kt |-> Unit_("1e6", Dim1("mass")), lb |-> Unit_("0.45359237", Dim1("mass")),
   s |-> Unit_("1", Dim1("time")), min |-> Unit_("60", Dim1("time")),
   h |-> Unit_("3600", Dim1("time")), d |-> Unit_("86400", Dim1("time")),
   week |-> Unit_("604800", Dim1("time")), month |-> Unit_("2629800", Dim1("time")),
   yr |-> Unit_(YearS, Dim1("time")), century |-> Unit_("3155760000", Dim1("time")),
   m |-> Unit_("1", Dim1("length")), ha |-> Unit_("1e4", [length |-> 2]),
   W |-> Unit_("1", [mass |-> 1, length |-> 2, time |-> -3]), J |-> Unit_("1", Joule),
   Wh |-> Unit_("3600", Joule),
   K |-> Unit_("1", Dim1("temperature")),
   degC |-> [scale |-> "1", off |-> N("273.15"), dim |-> Dim1("temperature")],
   degF |-> [scale |-> "5/9", off |-> NSub("273.15", NDiv("160", "9")), dim |-> Dim1("temperature")],
   ddegF |-> [scale |-> "5/9", off |-> "0", dim |-> Dim1("temperature")],
   ppt |-> Unit_("1", Dim1("concentrations")), ppb |-> Unit_("1e3", Dim1("concentrations")),
   ppm |-> Unit_("1e6", Dim1("concentrations"))]
Plain == [b \in UNION {PlainNames[k] : k \in PlainKeys} |->
            PlainDef[CHOOSE k \in PlainKeys : b \in PlainNames[k]]]

(* Emissions species: base species have a dimension of their own; derived  *)
(* ones are a multiple of another species by the ratio of their molecular  *)
(* weights.                                                                *)
DerivedGas ==
  [CO2 |-> <<"12/44", "C">>, N2O |-> <<"14/44", "N">>, N2ON |-> <<"14/28", "N">>,
   NH3 |-> <<"14/17", "N">>, SO2 |-> <<"32/64", "S">>, SOx |-> <<"32/64", "S">>,
   nox |-> <<"1", "NOx">>, NMVOC |-> <<"1", "VOC">>, HFC4310 |-> <<"1", "HFC4310mee">>]
BaseGas ==
  {"C", "CH4", "N", "NOx", "S", "BC", "OC", "CO", "VOC",
   "CFC11", "CFC12", "CFC13", "CFC113", "CFC114", "CFC115",
   "HCFC21", "HCFC22", "HCFC123", "HCFC124", "HCFC141b", "HCFC142b", "HCFC225ca", "HCFC225cb",
   "HFC23", "HFC32", "HFC41", "HFC125", "HFC134", "HFC134a", "HFC143", "HFC143a", "HFC152",
   "HFC152a", "HFC161", "HFC227ea", "HFC236cb", "HFC236ea", "HFC236fa", "HFC245ca", "HFC245fa",
   "HFC365mfc", "HFC4310mee",
   "Halon1201", "Halon1202", "Halon1211", "Halon1301", "Halon2402",
   "CF4", "C2F6", "cC3F6", "C3F8", "cC4F8", "C4F10", "C5F12", "C6F14", "C7F16", "C8F18", "C10F18",
   "HFE125", "HFE134", "HFE143a", "HCFE235da2", "HFE245cb2", "HFE245fa2", "HFE347mcc3",
   "HFE347pcf2", "HFE356pcc3", "HFE449sl", "HFE569sf2", "HFE4310pccc124", "HFE236ca12",
   "HFE338pcc13", "HFE227ea", "HFE236ea2", "HFE236fa", "HFE245fa1", "HFE263fb2", "HFE329mcc2",
   "HFE338mcf2", "HFE347mcf2", "HFE356mec3", "HFE356pcf2", "HFE356pcf3", "HFE365mcf3",
   "HFE374pc2", "PFPMIE",
   "CCl4", "CHCl3", "CH2Cl2", "CH3CCl3", "CH3Cl", "CH3Br", "SF5CF3", "SF6", "NF3"}
GasName ==   \* long names
  [carbon |-> "C", carbon_dioxide |-> "CO2", methane |-> "CH4", nitrogen |-> "N",
   nitrous_oxide |-> "N2O", nitrous_oxide_farming_style |-> "N2ON", ammonia |-> "NH3",
   sulfur |-> "S", sulfur_dioxide |-> "SO2", black_carbon |-> "BC", carbon_monoxide |-> "CO",
   non_methane_volatile_organic_compounds |-> "NMVOC"]
GasSymbols == BaseGas \union DOMAIN DerivedGas
GasDef(sym) == IF sym \in BaseGas THEN Unit_("1", Dim1(sym))
               ELSE Unit_(DerivedGas[sym][1], Dim1(DerivedGas[sym][2]))
(* every symbol may also be written in upper case                          *)
UpperOf ==
  [NOX |-> "NOx", HCFC141B |-> "HCFC141b", HCFC142B |-> "HCFC142b", HCFC225CA |-> "HCFC225ca",
   HCFC225CB |-> "HCFC225cb", HFC134A |-> "HFC134a", HFC143A |-> "HFC143a",
   HFC152A |-> "HFC152a", HFC227EA |-> "HFC227ea", HFC236CB |-> "HFC236cb",
   HFC236EA |-> "HFC236ea", HFC236FA |-> "HFC236fa", HFC245CA |-> "HFC245ca",
   HFC245FA |-> "HFC245fa", HFC365MFC |-> "HFC365mfc", HFC4310MEE |-> "HFC4310mee",
   HALON1201 |-> "Halon1201", HALON1202 |-> "Halon1202", HALON1211 |-> "Halon1211",
   HALON1301 |-> "Halon1301", HALON2402 |-> "Halon2402", CC3F6 |-> "cC3F6", CC4F8 |-> "cC4F8",
   HFE143A |-> "HFE143a", HCFE235DA2 |-> "HCFE235da2", HFE245CB2 |-> "HFE245cb2",
   HFE245FA2 |-> "HFE245fa2", HFE347MCC3 |-> "HFE347mcc3", HFE347PCF2 |-> "HFE347pcf2",
   HFE356PCC3 |-> "HFE356pcc3", HFE449SL |-> "HFE449sl", HFE569SF2 |-> "HFE569sf2",
   HFE4310PCCC124 |-> "HFE4310pccc124", HFE236CA12 |-> "HFE236ca12",
   HFE338PCC13 |-> "HFE338pcc13", HFE227EA |-> "HFE227ea", HFE236EA2 |-> "HFE236ea2",
   HFE236FA |-> "HFE236fa", HFE245FA1 |-> "HFE245fa1", HFE263FB2 |-> "HFE263fb2",
   HFE329MCC2 |-> "HFE329mcc2", HFE338MCF2 |-> "HFE338mcf2", HFE347MCF2 |-> "HFE347mcf2",
   HFE356MEC3 |-> "HFE356mec3", HFE356PCF2 |-> "HFE356pcf2", HFE356PCF3 |-> "HFE356pcf3",
   HFE365MCF3 |-> "HFE365mcf3", HFE374PC2 |-> "HFE374pc2", CCL4 |-> "CCl4", CHCL3 |-> "CHCl3",
   CH2CL2 |-> "CH2Cl2", CH3CCL3 |-> "CH3CCl3", CH3CL |-> "CH3Cl", CH3BR |-> "CH3Br",
   SOX |-> "SOx"]
IsGasName(b) == b \in GasSymbols \/ b \in DOMAIN UpperOf \/ b \in DOMAIN GasName
IsSymbol(b) == b \in GasSymbols \/ b \in DOMAIN UpperOf
GasMeaning(b) == GasDef(IF b \in GasSymbols THEN b
                        ELSE IF b \in DOMAIN UpperOf THEN UpperOf[b] ELSE GasName[b])
(* mass and symbol may be joined: tCO2 = t CO2, gC = g C                   *)
First(b) == Str(SubSeq(Chars(b), 1, 1))
Rest(b) == Str(SubSeq(Chars(b), 2, Len(Chars(b))))
IsJoint(b) == First(b) \in {"g", "t"} /\ IsSymbol(Rest(b))
BaseDefined(b) == b \in DOMAIN Plain \/ IsGasName(b) \/ IsJoint(b)
BaseMeaning(b) ==
  IF b \in DOMAIN Plain THEN Plain[b]
  ELSE IF IsGasName(b) THEN GasMeaning(b)
  ELSE LET mass == Plain[First(b)]
           gas == GasMeaning(Rest(b))
       IN Unit_(NMul(mass.scale, gas.scale), DimPlus(mass.dim, gas.dim))

RECURSIVE PowN(_, _)
PowN(x, n) == IF n = 0 THEN "1" ELSE IF n < 0 THEN NDiv("1", PowN(x, -n)) ELSE NMul(x, PowN(x, n - 1))

UDefined(u) == \A i \in 1..Len(u.f) : u.f[i][1] \in DOMAIN Prefix /\ BaseDefined(u.f[i][2])
Factor(a) ==
  LET b == BaseMeaning(a[2]) IN
  [scale |-> PowN(NMul(Prefix[a[1]], b.scale), a[3]), off |-> b.off, dim |-> DimTimes(b.dim, a[3])]
(* meaning of a defined unit; offsets only make sense for a unit alone     *)
UMeaning(u) ==
  IF Len(u.f) = 1 THEN Factor(u.f[1])
  ELSE FoldLeft(LAMBDA acc, a : LET x == Factor(a) IN
                  [scale |-> NMul(acc.scale, x.scale), off |-> "0", dim |-> DimPlus(acc.dim, x.dim)],
                [scale |-> "1", off |-> "0", dim |-> NoDim], u.f)
UDim(u) == UMeaning(u).dim

(* conversion x -> scale * x + off; ok is FALSE for different dimensions   *)
UConv(u, v) ==
  IF u.f = v.f THEN [ok |-> TRUE, scale |-> "1", off |-> "0"]
  ELSE LET a == UMeaning(u)
           b == UMeaning(v)
       IN IF a.dim # b.dim THEN [ok |-> FALSE, scale |-> "1", off |-> "0"]
          ELSE [ok |-> TRUE, scale |-> NDiv(a.scale, b.scale),
                off |-> NDiv(NSub(a.off, b.off), b.scale)]
UApply(c, x) == NAdd(NMul(c.scale, x), c.off)
UApplySeq(c, xs) == [i \in 1..Len(xs) |-> UApply(c, xs[i])]
UMag(c, m) == NAdd(NMul(NAbs(c.scale), m), NAbs(c.off))
=============================================================================
