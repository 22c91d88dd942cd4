"""Driver for unit conversions (openscm.core.units.UnitConverter), with and without contexts."""
import warnings

import numpy as np

from common import attempt, strip
from enc import fl, num, nums
import units_gen as ug

from openscm.core.units import UnitConverter

METRICS = ["SARGWP100", "AR4GWP100", "AR5GWP100"]
CONTEXTS = METRICS + ["CH4_conversions", "NOx_conversions"]


class Bench:
    def __init__(self):
        self.made = []

    def run(self, c):
        e = strip(c)
        out = {}
        err, _ = attempt(lambda: getattr(self, "do_" + c["op"])(c, out))
        e["err"] = err
        e.update(out)
        return e

    def do_make(self, c, out):
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            try:
                a = (c["u"]["s"], c["v"]["s"])
                if c.get("_short") and not c["ctx"]:
                    u = UnitConverter(*a)
                else:
                    u = UnitConverter(*a, context=c["ctx"] or None)
            finally:
                out["warn"] = any(issubclass(x.category, UserWarning) for x in w)
        self.made.append(u)

    def apply(self, c, out, how):
        u = self.made[c["c"] - 1]
        vals = [fl(x) for x in c["vals"]]
        f = getattr(u, how)
        way = c.get("_how", "array")
        if way == "one":
            out["r"] = [num(f(x)) for x in vals]
        elif way == "int":
            out["r"] = [num(f(int(x) if x == int(x) else x)) for x in vals]
        elif way == "np":
            out["r"] = [num(f(np.float64(x))) for x in vals]
        else:
            a = np.array(vals)
            b = a.copy()
            r = f(a)
            out["r"] = nums(r) if (a == b).all() else ["changed"]

    def do_from(self, c, out):
        self.apply(c, out, "convert_from")

    def do_to(self, c, out):
        self.apply(c, out, "convert_to")

    def do_props(self, c, out):
        u = self.made[c["c"] - 1]
        out["s"], out["t"] = str(u.source), str(u.target)

    def do_contexts(self, c, out):
        out["r"] = [str(x) for x in self.made[c["c"] - 1].contexts if isinstance(x, str)]


def number(r):
    k = r.random()
    if k < 0.3:
        return num(r.randint(-20, 20))
    if k < 0.8:
        return num(r.uniform(-500, 500))
    return num(r.uniform(-1, 1) * 10 ** r.randint(-6, 12))


def emission(r, base, form):
    f = []
    if "m" in form:
        f = ug.mass_species(r, base)
    else:
        f = [["", ug.species(r, base), 1]]
    if "t" in form:
        f.append(ug.rate(r))
    return ug.unit(r, f)


def generate(r, profile):
    b = Bench()
    cmds, ev, made = [], [], []

    def do(c):
        e = b.run(c)
        cmds.append(c)
        ev.append(e)
        if c["op"] == "make" and e["err"] == "":
            made.append(c)
        return e

    def use(i=None):
        if not made:
            return
        i = i or r.randrange(len(made)) + 1
        vals = [number(r) for _ in range(r.choice([1, 1, 2, 5]))]
        do({"op": r.choice(["from", "from", "to"]), "c": i, "vals": vals,
            "_how": r.choice(["array", "array", "one", "int", "np"])})

    pool = [r.choice(["C", "CH4", "N", "NOx", r.choice(ug.BASES), r.choice(ug.BASES)]) for _ in range(3)]
    fam = ug.family(r)
    for _ in range(r.choice([3, 6, 10])):
        k = r.random()
        if profile == "C11" and k < 0.75:
            if r.random() < 0.3:
                fam = ug.family(r)
            u, v = ug.in_family(r, fam), ug.in_family(r, fam)
            ctx = ""
            if r.random() < 0.15:
                v = ug.in_family(r, ug.family(r))
            elif r.random() < 0.1:
                u, v = ug.in_family(r, ("species", "CH4" if r.random() < 0.5 else "NOx")), \
                       ug.in_family(r, ("species", r.choice("CN")))
            elif r.random() < 0.06:
                v = ug.undefined(r)
            elif r.random() < 0.06:
                u = ug.undefined(r)
            elif r.random() < 0.05:
                v = u
        else:
            form = r.choice(["", "m", "t", "mt", "mt"])
            ctx = r.choice(CONTEXTS + METRICS + ["", ""]) if r.random() < 0.8 else ""
            x, y = r.choice(pool), r.choice(pool)
            if ctx == "CH4_conversions" and r.random() < 0.8:
                x, y = r.sample(["C", "CH4"], 2)
                form = r.choice(["", "", form])
            if ctx == "NOx_conversions" and r.random() < 0.8:
                x, y = r.sample(["N", "NOx"], 2)
                form = r.choice(["", "", form])
            u, v = emission(r, x, form), emission(r, y, form if r.random() < 0.9 else r.choice(["", "m", "t", "mt"]))
            if r.random() < 0.04:
                ctx = r.choice(["AR6GWP100", "nothing", "ar5gwp100"])
            if r.random() < 0.04:
                v = ug.undefined(r)
            if r.random() < 0.05:
                fam2 = ug.family(r)
                u, v = ug.in_family(r, fam2), ug.in_family(r, fam2)
        e = do({"op": "make", "u": u, "v": v, "ctx": ctx, "_short": r.random() < 0.5})
        if e["err"] == "":
            use(len(made))
            if r.random() < 0.2:
                do({"op": "props", "c": len(made)})
        if ctx and r.random() < 0.5:   # the same without and in another context
            do({"op": "make", "u": u, "v": v, "ctx": "", "_short": True})
            if r.random() < 0.5:
                if do({"op": "make", "u": u, "v": v, "ctx": r.choice(CONTEXTS)})["err"] == "":
                    use(len(made))
        if made and r.random() < 0.3:
            use()
    if any(c.get("ctx") for c in made) and r.random() < 0.3:
        do({"op": "contexts", "c": r.randrange(len(made)) + 1})
    return {"ev": ev}, {"cmds": cmds}


def replay(script):
    b = Bench()
    ev = []
    for c in script["cmds"]:
        if c.get("c", 0) > len(b.made):
            break
        ev.append(b.run(c))
    return {"ev": ev}
