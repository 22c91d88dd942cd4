------------------------------ MODULE MC_Units ------------------------------
(***************************************************************************)
(* The unit algebra on the whole catalogue of names: every documented      *)
(* name, alias, upper case and joint spelling is converted to and from the *)
(* others; conversions are inverse to each other and compose, and units of *)
(* different species do not convert.  Every pair is one behaviour for      *)
(* replay on the implementation.                                           *)
(***************************************************************************)
EXTENDS Units, Json

CONSTANTS Deep, Scripts

Single(b) == [s |-> b, f |-> <<<<"", b, 1>>>>]
GasNames == GasSymbols \union DOMAIN UpperOf \union DOMAIN GasName
Symbols == GasSymbols \union DOMAIN UpperOf
Joint == {Cat(m, s) : m \in {"g", "t"}, s \in Symbols}
Emission(s) == [s |-> Cat(Cat("Mt ", s), " / yr"), f |-> <<<<"M", "t", 1>>, <<"", s, 1>>, <<"", "yr", -1>>>>]
EmissionJ(s) == [s |-> Cat(Cat("kg", s), "/d"), f |-> <<<<"k", Cat("g", s), 1>>, <<"", "d", -1>>>>]
BaseOf(s) == CHOOSE d \in DOMAIN GasMeaning(s).dim : TRUE
MainGas == {"C", "CO2", "CH4", "N", "N2O", "N2ON", "NOx", "NH3", "SO2", "SOx", "VOC", "HFC134a", "CARBON"}

Pairs ==
  {<<Single(a), Single(b)>> : a \in GasNames, b \in IF Deep THEN GasNames ELSE MainGas}
  \union {<<Single(b), Single(a)>> : a \in GasNames, b \in {"C", "CH4"}}
  \union {<<Single(a), Single(BaseOf(a))>> : a \in GasNames}
  \union {<<Single(BaseOf(a)), Single(a)>> : a \in GasNames}
  \union {<<Single(j), [s |-> Cat("kg ", BaseOf(Rest(j))), f |-> <<<<"k", "g", 1>>, <<"", BaseOf(Rest(j)), 1>>>>]>> : j \in Joint}
  \union {<<Emission(a), EmissionJ(b)>> : a \in Symbols, b \in IF Deep THEN Symbols ELSE {"C"}}
  \union {<<EmissionJ(a), Emission(BaseOf(a))>> : a \in Symbols}
  \union {<<Single(a), Single(b)>> : a, b \in DOMAIN Plain}
  \union {<<Single(a), Single(b)>> : a \in DOMAIN Plain, b \in IF Deep THEN GasNames ELSE {"C"}}

VARIABLES pair, done
vars == <<pair, done>>
Init == pair \in Pairs /\ done = FALSE
Script ==
  LET ok == UDefined(pair[1]) /\ UDefined(pair[2]) /\ UConv(pair[1], pair[2]).ok
      make == [op |-> "make", u |-> pair[1], v |-> pair[2], ctx |-> ""]
  IN <<make, [op |-> "from", c |-> 1, vals |-> <<"1", "-5/2">>], [op |-> "to", c |-> 1, vals |-> <<"1", "0", "1000">>]>>
Next == ~done /\ done' = TRUE /\ pair' = pair /\ (Scripts => PrintT("@@" \o ToJson(Script)))
Spec == Init /\ [][Next]_vars

u == pair[1]
v == pair[2]
def == UDefined(u) /\ UDefined(v)
c == UConv(u, v)
d == UConv(v, u)
ThereAndBack ==
  def => /\ c.ok = d.ok
         /\ c.ok => /\ NEq(NMul(c.scale, d.scale), "1")
                    /\ NEq(NAdd(NMul(d.scale, c.off), d.off), "0")
Compose ==
  def /\ c.ok => \A w \in {Single(b) : b \in {"C", "CO2", "N", "kt", "yr", "degF", "degC", "K", "ppb", "NOx", "S"}} :
    LET e == UConv(v, w)
        f == UConv(u, w)
    IN e.ok = f.ok /\ (e.ok => NEq(f.scale, NMul(e.scale, c.scale)) /\ NEq(f.off, NAdd(NMul(e.scale, c.off), e.off)))
(* species never mix                                                       *)
Apart == def /\ c.ok => UDim(u) = UDim(v)
Aliases ==
  /\ \A s \in DOMAIN UpperOf : UMeaning(Single(s)) = UMeaning(Single(UpperOf[s]))
  /\ \A s \in DOMAIN GasName : UMeaning(Single(s)) = UMeaning(Single(GasName[s]))
Distinct == \A s, t \in BaseGas : s # t => ~UConv(Single(s), Single(t)).ok
ASSUME Aliases
ASSUME Distinct
=============================================================================
