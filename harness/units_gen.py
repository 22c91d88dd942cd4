"""Random spellings of units, with the structure the specification (Units.tla) gives them."""
MASS = [("", "g"), ("k", "g"), ("M", "g"), ("G", "g"), ("T", "g"), ("P", "g"), ("", "t"), ("M", "t"), ("G", "t"),
        ("", "kt"), ("", "lb"), ("", "gram"), ("kilo", "gram"), ("", "metric_ton")]
TIME = [("", "yr"), ("", "a"), ("", "year"), ("", "annum"), ("", "d"), ("", "day"), ("", "h"), ("", "hr"),
        ("", "hour"), ("", "s"), ("", "min"), ("", "week"), ("", "month"), ("", "second")]
DERIVED = {"CO2": "C", "N2O": "N", "N2ON": "N", "NH3": "N", "SO2": "S", "SOx": "S", "nox": "NOx", "NMVOC": "VOC",
           "HFC4310": "HFC4310mee"}
BASES = """C CH4 N NOx S BC OC CO VOC CFC11 CFC12 CFC13 CFC113 CFC114 CFC115 HCFC21 HCFC22 HCFC123 HCFC124 HCFC141b
HCFC142b HCFC225ca HCFC225cb HFC23 HFC32 HFC41 HFC125 HFC134 HFC134a HFC143 HFC143a HFC152 HFC152a HFC161 HFC227ea
HFC236cb HFC236ea HFC236fa HFC245ca HFC245fa HFC365mfc HFC4310mee Halon1201 Halon1202 Halon1211 Halon1301 Halon2402
CF4 C2F6 cC3F6 C3F8 cC4F8 C4F10 C5F12 C6F14 C7F16 C8F18 C10F18 HFE125 HFE134 HFE143a HCFE235da2 HFE245cb2 HFE245fa2
HFE347mcc3 HFE347pcf2 HFE356pcc3 HFE449sl HFE569sf2 HFE4310pccc124 HFE236ca12 HFE338pcc13 HFE227ea HFE236ea2 HFE236fa
HFE245fa1 HFE263fb2 HFE329mcc2 HFE338mcf2 HFE347mcf2 HFE356mec3 HFE356pcf2 HFE356pcf3 HFE365mcf3 HFE374pc2 PFPMIE
CCl4 CHCl3 CH2Cl2 CH3CCl3 CH3Cl CH3Br SF5CF3 SF6 NF3""".split()
LONG = {"carbon": "C", "carbon_dioxide": "CO2", "methane": "CH4", "nitrogen": "N", "nitrous_oxide": "N2O",
        "nitrous_oxide_farming_style": "N2ON", "ammonia": "NH3", "sulfur": "S", "sulfur_dioxide": "SO2",
        "black_carbon": "BC", "carbon_monoxide": "CO", "non_methane_volatile_organic_compounds": "NMVOC"}
FAMILY = {}  # base species -> all names of species with its dimension
for _b in BASES:
    FAMILY[_b] = [_b]
for _d, _b in DERIVED.items():
    FAMILY[_b].append(_d)
LONG_OF = {}
for _n, _s in LONG.items():
    LONG_OF.setdefault(DERIVED.get(_s, _s), []).append(_n)
ENERGY = [("", "J"), ("E", "J"), ("P", "J"), ("k", "Wh"), ("G", "Wh"), ("", "joule"), ("M", "J"), ("T", "Wh")]
POWER = [("", "W"), ("k", "W"), ("G", "W"), ("", "watt"), ("M", "W")]
LENGTH = [("", "m"), ("k", "m"), ("c", "m"), ("", "meter"), ("m", "m")]
TEMP = [("", "K"), ("", "degC"), ("", "degF"), ("m", "K"), ("", "delta_degC"), ("", "kelvin"), ("", "delta_degF"),
        ("", "degreeC"), ("", "degreeF")]
DELTA = [("", "K"), ("m", "K"), ("", "delta_degC"), ("", "kelvin"), ("", "delta_degF")]
CONC = [("", "ppm"), ("", "ppb"), ("", "ppt")]


def spell(rng, factors):
    """One of the spellings of a product of powers; factors: [prefix, base, power]."""
    if not factors:
        return rng.choice(["", "dimensionless"])
    num = [f for f in factors if f[2] > 0]
    den = [f for f in factors if f[2] < 0]
    pw = rng.choice(["^", "**"])
    mul = rng.choice([" ", " * ", "*"])

    def atom(f, p):
        return f[0] + f[1] + ("" if p == 1 else "%s%d" % (pw, p))
    if num and (rng.random() < 0.75 or not den):
        s = mul.join(atom(f, f[2]) for f in num)
        div = rng.choice(["/", " / "])
        for f in den:
            s += div + atom(f, -f[2])
        return s
    mul = " * " if mul == " " else mul
    return mul.join(f[0] + f[1] + ("" if f[2] == 1 else "**%d" % f[2] if f[2] > 0 else "**%d" % f[2])
                    for f in factors)


def unit(rng, factors):
    return {"s": spell(rng, factors), "f": [list(f) for f in factors]}


def species(rng, base):
    names = [x for x in FAMILY[base]]
    names += [x.upper() for x in names if x.upper() != x]
    if rng.random() < 0.15:
        names += LONG_OF.get(base, [])
    return rng.choice(names)


def mass_species(rng, base):
    """Factors for a mass of a species, joint (tCO2) or separate (t CO2)."""
    sp = species(rng, base)
    if rng.random() < 0.5 and sp not in LONG:
        return [[rng.choice(["", "k", "M", "G", "T", "P"]), rng.choice("gt") + sp, 1]]
    p, b = rng.choice(MASS)
    return [[p, b, 1], ["", sp, 1]]


def rate(rng):
    p, b = rng.choice(TIME)
    return [p, b, -1]


def in_family(rng, fam):
    """A random unit of a family; all units of a family convert into each other."""
    k = fam[0]
    if k == "emissions":
        return unit(rng, mass_species(rng, fam[1]) + [rate(rng)])
    if k == "stock":
        return unit(rng, mass_species(rng, fam[1]))
    if k == "species":
        return unit(rng, [["", species(rng, fam[1]), 1]])
    if k == "speciesrate":
        return unit(rng, [["", species(rng, fam[1]), 1], rate(rng)])
    if k == "temp":
        p, b = rng.choice(TEMP)
        return unit(rng, [[p, b, 1]])
    if k == "conc":
        p, b = rng.choice(CONC)
        return unit(rng, [[p, b, 1]])
    if k == "flux":
        if rng.random() < 0.15:
            return unit(rng, [["", "g", 1], ["", "s", -3]] if rng.random() < 0.5 else [["k", "g", 1], ["", "s", -3]])
        p, b = rng.choice(POWER)
        if rng.random() < 0.3:
            return unit(rng, [[p, b, 1], ["", "ha", -1]])
        q, c = rng.choice(LENGTH)
        return unit(rng, [[p, b, 1], [q, c, -2]])
    if k == "energy":
        p, b = rng.choice(ENERGY)
        if rng.random() < 0.3:
            p, b = rng.choice(POWER)
            q, c = rng.choice(TIME)
            return unit(rng, [[p, b, 1], [q, c, 1]])
        return unit(rng, [[p, b, 1]])
    if k == "power":
        if rng.random() < 0.4:
            p, b = rng.choice(ENERGY)
            return unit(rng, [[p, b, 1], rate(rng)])
        p, b = rng.choice(POWER)
        return unit(rng, [[p, b, 1]])
    if k == "time":
        p, b = rng.choice(TIME + [("", "century")])
        return unit(rng, [[p, b, 1]])
    if k == "mass":
        p, b = rng.choice(MASS)
        return unit(rng, [[p, b, 1]])
    if k == "sensitivity":
        p, b = rng.choice(DELTA)
        q, c = rng.choice(POWER)
        r, d = rng.choice(LENGTH)
        return unit(rng, [[p, b, 1], [q, c, -1], [r, d, 2]])
    if k == "area":
        if rng.random() < 0.4:
            return unit(rng, [["", "ha", 1]])
        p, b = rng.choice(LENGTH)
        return unit(rng, [[p, b, 2]])
    if k == "none":
        return unit(rng, [])
    raise KeyError(k)


def family(rng):
    k = rng.choice(["emissions"] * 4 + ["stock", "species", "temp", "conc", "flux", "energy", "power", "time", "mass",
                                        "sensitivity", "area", "none", "speciesrate"])
    if k in ("emissions", "stock", "species", "speciesrate"):
        b = rng.choice(["C", "C", "N", "S", "CH4", "NOx", "VOC"] if rng.random() < 0.7 else BASES)
        return (k, b)
    return (k,)


def undefined(rng):
    n = rng.choice(["bogus", "tBogus", "CO3", "GtXx", "unknown_gas"])
    f = [["", n, 1]]
    if rng.random() < 0.5:
        f.append(rate(rng))
    return unit(rng, f)
