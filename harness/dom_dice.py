"""
Driver for models: the operations of dom_store on the parameter sets a model uses, plus
creating and running models (openscm.core.OpenSCM or the adapter itself).

Generic values which are times or durations are recorded in seconds ("d:", "p:").
"""
import numpy as np

import dom_store
from dom_store import NOUNIT
from enc import num
import units_gen as ug

from openscm.adapters import load_adapter
from openscm.core import OpenSCM

DAY = 86400
YEAR = 365 * DAY
KIND_OF = {"d": "M8", "p": "m8"}


def secs(x):
    if isinstance(x, np.datetime64):
        return str(int(x.astype("datetime64[s]").astype("int64")))
    return str(int(x.astype("timedelta64[s]").astype("int64")))


class Session(dom_store.Store):
    def __init__(self, roots, plain_first=True):
        super().__init__(roots, plain_first)
        self.models = []

    def do_rd(self, c, out):
        v = self.views[c["v"] - 1].value
        if c["_kind"] != "generic":
            out["r"] = [num(v)]
        elif isinstance(v, np.datetime64):
            out["r"] = ["d:" + secs(v)]
        elif isinstance(v, np.timedelta64):
            out["r"] = ["p:" + secs(v)]
        else:
            out["r"] = [dom_store.generic_name(v)]

    def do_wr(self, c, out):
        t = c["val"][:2]
        if c["_kind"] == "generic" and t in ("d:", "p:"):
            x = int(c["val"][2:])
            days = c.get("_days") and x % DAY == 0
            make = np.datetime64 if t == "d:" else np.timedelta64
            self.views[c["v"] - 1].value = make(x // DAY, "D") if days else make(x, "s")
        else:
            super().do_wr(c, out)

    def do_model(self, c, out):
        ps, os = self.sets[c["ps"] - 1], self.sets[c["os"] - 1]
        if c.get("_via") == "adapter":
            self.models.append(load_adapter("DICE")(ps, os))
        else:
            m = OpenSCM("DICE", ps, os)
            assert m.parameters is ps and m.output is os and m.model == "DICE"
            self.models.append(m)

    def adapter(self, c):
        m = self.models[c["m"] - 1]
        return m._model if isinstance(m, OpenSCM) else m

    def do_run(self, c, out):
        self.models[c["m"] - 1].run()

    def do_reset_stepping(self, c, out):
        self.models[c["m"] - 1].reset_stepping()

    def do_step(self, c, out):
        out["r"] = [secs(self.models[c["m"] - 1].step())]

    def do_init_input(self, c, out):
        self.adapter(c).initialize_model_input()

    def do_init_run(self, c, out):
        self.adapter(c).initialize_run_parameters()

    def do_reset(self, c, out):
        self.adapter(c).reset()

    def do_bare_run(self, c, out):
        self.adapter(c).run()


# ---- generating ---------------------------------------------------------
STOCK, FLUX, DELTA, NONE = ("stock", "C"), ("flux",), ("delta",), ("none",)
# name: unit family, its own unit, sensible range in that unit
INPUTS = {
    ("DICE", "mat0"): (STOCK, (500, 1200)), ("DICE", "mateq"): (STOCK, (400, 700)),
    ("DICE", "mat_lower"): (STOCK, (5, 1100)),
    ("DICE", "ml0"): (STOCK, (8000, 12000)), ("DICE", "mleq"): (STOCK, (8000, 12000)),
    ("DICE", "ml_lower"): (STOCK, (500, 11000)),
    ("DICE", "mu0"): (STOCK, (1000, 2000)), ("DICE", "mueq"): (STOCK, (1000, 2000)),
    ("DICE", "mu_lower"): (STOCK, (50, 1700)),
    ("DICE", "tatm0"): (DELTA, (-1, 4)), ("DICE", "tatm_upper"): (DELTA, (0.5, 6)),
    ("DICE", "tocean0"): (DELTA, (-0.5, 2)), ("DICE", "tocean_lower"): (DELTA, (-1, 0.5)),
    ("DICE", "tocean_upper"): (DELTA, (0.01, 3)),
    ("DICE", "b12"): (NONE, (0.005, 0.1)), ("DICE", "b23"): (NONE, (0.0001, 0.01)),
    ("DICE", "c1"): (("sens",), (0.01, 0.1)), ("DICE", "c3"): (("feed",), (0.05, 0.2)),
    ("DICE", "c4"): (NONE, (0.001, 0.3)),
    ("DICE", "fex0"): (FLUX, (-0.5, 1)), ("DICE", "fex1"): (FLUX, (-0.5, 2)),
    ("Radiative Forcing Sensitivity",): (FLUX, (2, 5)),
    ("Equilibrium Climate Sensitivity",): (DELTA, (1, 6)),
}
OUTPUTS = {("Pool", "CO2", "Atmosphere"): ("point", STOCK), ("Pool", "CO2", "Ocean", "lower"): ("point", STOCK),
           ("Pool", "CO2", "Ocean", "shallow"): ("point", STOCK), ("Surface Temperature", "Increase"): ("point", DELTA),
           ("Ocean Temperature", "Increase"): ("point", DELTA), ("Radiative Forcing", "CO2"): ("average", FLUX),
           ("Pool", "CO2", "Ocean"): ("point", STOCK), ("Pool", "CO2"): ("point", STOCK), ("Pool",): ("point", STOCK)}
U = {"GtC": [["G", "tC", 1]], "K": [["", "delta_degC", 1]], "": [], "W/m^2": [["", "W", 1], ["", "m", -2]],
     "delta_degC*m^2/W": [["", "delta_degC", 1], ["", "m", 2], ["", "W", -1]],
     "W/m^2/delta_degC": [["", "W", 1], ["", "m", -2], ["", "delta_degC", -1]]}
FAMUNIT = {STOCK: ("GtC", U["GtC"]), DELTA: ("delta_degC", U["K"]), NONE: ("", []), FLUX: ("W/m^2", U["W/m^2"]),
           ("sens",): ("delta_degC*m^2/W", U["delta_degC*m^2/W"]), ("feed",): ("W/m^2/delta_degC", U["W/m^2/delta_degC"])}


def unit(rng, fam, plain):
    """A unit of the family and how many of the documented unit make one of it, roughly."""
    if plain:
        s, f = FAMUNIT[fam]
        return {"s": s, "f": f}
    if fam == DELTA:
        b = rng.choice(["K", "delta_degC", "kelvin", "delta_degF"])
        return ug.unit(rng, [["", b, 1]])
    if fam == ("sens",):
        return ug.unit(rng, [["", rng.choice(["K", "delta_degC"]), 1],
                             [rng.choice(["", "k"]), "W", -1], [rng.choice(["", "k"]), "m", 2]])
    if fam == ("feed",):
        return ug.unit(rng, [[rng.choice(["", "m"]), "W", 1], ["", "m", -2], ["", rng.choice(["K", "delta_degC"]), -1]])
    if fam == FLUX:
        return ug.unit(rng, [[rng.choice(["", "k", "m"]), "W", 1], [rng.choice(["", "k", "c"]), "m", -2]])
    return ug.in_family(rng, fam)


class Gen:
    def __init__(self, rng, profile):
        r = self.rng = rng
        self.profile = profile
        self.roots = ["World"] * r.choice([2, 2, 3])
        self.s = Session(self.roots)
        self.cmds, self.ev = [], []
        self.views = []        # [ps, name, kind, grid, n]
        self.models = []       # dict(ps, os, via, state)
        self.grids = {}
        self.pre = set()       # output sets with parameters on other grids
        self.dead = False

    def do(self, c):
        e = self.s.run(c)
        self.cmds.append(c)
        self.ev.append(e)
        if e["err"] == "Timeout":
            raise StopIteration
        return e

    def view(self, ps, name, kind, un=NOUNIT, grid=()):
        for i, v in enumerate(self.views):
            if v[:4] == [ps, name, kind, list(grid)] and self.rng.random() < 0.5:
                return i + 1
        c = {"op": "view", "ps": ps, "reg": ["World"], "name": list(name), "kind": kind, "unit": un,
             "tps": [str(t) for t in grid], "ext": "none",
             "_name": self.rng.choice(["str", "tuple", "list"]), "_reg": self.rng.choice(["default", "str", "tuple"])}
        if kind in ("point", "average"):
            c["ext"] = self.rng.choice(["none", "constant", "linear"])
        e = self.do(c)
        if e["err"]:
            return None
        self.views.append([ps, name, kind, list(grid), len(grid) - (kind == "average")])
        return len(self.views)

    # -- inputs
    def set_generic(self, ps, name, val):
        v = self.view(ps, name, "generic")
        if v:
            self.do({"op": "wr", "v": v, "val": val, "_kind": "generic", "_days": self.rng.random() < 0.5})

    def set_period(self, ps, n, step):
        r = self.rng
        self.start = r.choice([946684800, 1262304000, 1893456000, -631152000, 946684800 + 12345 * DAY])
        self.step, self.n = step, n
        slack = r.choice([0, 0, 0, 1, step // 2, step - 1])
        self.set_generic(ps, ("Start Time",), "d:%d" % self.start)
        self.set_generic(ps, ("Stop Time",), "d:%d" % (self.start + (n - 1) * step + slack))
        if step != YEAR or r.random() < 0.3:
            self.set_generic(ps, ("DICE", "period_length"), "p:%d" % step)

    def set_input(self, ps, name=None):
        r = self.rng
        name = name or r.choice(list(INPUTS))
        fam, (lo, hi) = INPUTS[name]
        un = unit(r, fam, False)
        v = self.view(ps, name, "scalar", unit(r, fam, True))
        if v:
            # in the documented unit, possibly shown in another
            self.do({"op": "wr", "v": v, "val": num(r.uniform(lo, hi)), "_kind": "scalar", "_int": False})
            if r.random() < 0.5:
                w = self.view(ps, name, "scalar", un)
                if w:
                    self.do({"op": "rd", "v": w, "_kind": "scalar"})
                    if r.random() < 0.4 and self.ev[-1]["err"] == "":
                        self.do({"op": "wr", "v": w, "val": self.ev[-1]["r"][0], "_kind": "scalar", "_int": False})

    def emission_grid(self):
        r = self.rng
        own = [self.start + i * self.step for i in range(self.n + 1)]
        k = r.random()
        if k < 0.55:
            return own
        if k < 0.8:   # other points covering the run
            m = r.choice([3, 5, 7])
            span = own[-1] - own[0]
            a = own[0] - r.choice([0, 1, span // 3])
            b = own[-1] + r.choice([0, 1, span // 4])
            return [a + (b - a) * i // m for i in range(m + 1)]
        if k < 0.92:
            return own + [own[-1] + self.step * (i + 1) for i in range(3)]
        return own[:-1] if len(own) > 4 else own      # does not cover the run

    def set_emissions(self, ps):
        r = self.rng
        names = [("Emissions", "CO2")]
        if r.random() < 0.25 and (ps, "E") not in self.grids:
            names = [("Emissions", "CO2", "Fossil"), ("Emissions", "CO2", "Land use")]
            if r.random() < 0.3:
                names.append(("Emissions", "CO2", "Land use", "Other"))
                names.remove(("Emissions", "CO2", "Land use"))
        if (ps, "E") in self.grids:
            names = self.grids[ps, "E"]
        self.grids[ps, "E"] = names
        for name in names:
            grid = self.grids.get((ps, name)) if r.random() < 0.7 else None
            grid = grid or self.emission_grid()
            self.grids.setdefault((ps, name), grid)
            un = {"s": "GtCO2/a", "f": [["G", "tCO2", 1], ["", "a", -1]]}
            if r.random() < 0.6:
                un = ug.unit(r, [[r.choice("GMT"), r.choice(["tC", "tCO2"]), 1], ["", r.choice(["a", "yr", "d"]), -1]])
            v = self.view(ps, name, "average", un, grid)
            if not v:
                continue
            scale = {"G": 1.0, "M": 1e3, "T": 1e-3}[un["f"][0][0]] / (365.0 if un["f"][1][1] == "d" else 1.0)
            big = r.choice([1, 1, 1, 30])
            lo, hi = r.choice([(0, 40), (-20, 40), (-40, 0), (30, 80)])
            vals = [num(r.uniform(lo, hi) * scale * big) for _ in range(self.views[v - 1][4])]
            self.do({"op": "set", "v": v, "vals": vals, "_how": r.choice(["list", "array"])})

    # -- outputs
    def model_grid(self, kind):
        return [self.start + i * self.step for i in range(self.n + (kind == "average"))]

    def output_view(self, os, own=True):
        r = self.rng
        name = r.choice(list(OUTPUTS))
        kind, fam = OUTPUTS[name]
        g = self.model_grid(kind)
        if not own:
            m = r.choice([3, 4, 6])
            span = g[-1] - g[0]
            a, b = r.choice([(0, 0), (0, 0), (min(self.step, span // 7), 0), (0, span // 5)])
            g = [g[0] + a + (span - a - b) * i // m for i in range(m + 1)]
        return self.view(os, name, kind, unit(r, fam, r.random() < 0.3), g)

    def look(self, m):
        """Read outputs (only what has been computed so far)."""
        r = self.rng
        os = m["os"]
        for _ in range(r.choice([1, 2, 3])):
            own = m["state"] == "step" or r.random() < 0.6 or os in self.pre
            v = self.output_view(os, own)
            if v:
                self.read(v, m)

    def read(self, v, m):
        n = self.views[v - 1][4]
        top = n if m["state"] != "step" else min(n, m["at"] + 1)
        if self.views[v - 1][3] != self.model_grid(self.views[v - 1][2]) and m["state"] == "step":
            return
        if m["state"] == "step" and (m["os"] in self.pre or m["at"] < 0):
            return
        self.do({"op": "get", "v": v, "ix": list(range(1, top + 1)), "_how": "index"})

    def read_all(self, m):
        for name, (kind, fam) in OUTPUTS.items():
            v = self.view(m["os"], name, kind, unit(self.rng, fam, True), self.model_grid(kind))
            if v:
                self.read(v, m)

    def inputs_unchanged(self, ps):
        r = self.rng
        for i, v in enumerate(list(self.views)):
            if v[0] != ps or v[1] in OUTPUTS and v[2] != "scalar":
                continue
            if v[2] in ("scalar", "generic"):
                self.do({"op": "rd", "v": i + 1, "_kind": v[2]})
            else:
                self.do({"op": "get", "v": i + 1, "ix": list(range(1, v[4] + 1)), "_how": "list"})
        for name in r.sample(list(INPUTS), 3):   # defaults
            v = self.view(ps, name, "scalar", unit(r, INPUTS[name][0], r.random() < 0.5))
            if v:
                self.do({"op": "rd", "v": v, "_kind": "scalar"})
        if r.random() < 0.5:
            for name in (("DICE", "period_length"), ("DICE", "original_rounding"), ("DICE", "forcoth_saturation_time")):
                v = self.view(ps, name, "generic")
                if v:
                    self.do({"op": "rd", "v": v, "_kind": "generic"})

    # -- models
    def new_model(self, ps, os):
        m = {"ps": ps, "os": os, "via": self.rng.choice(["openscm", "openscm", "adapter"]), "state": "new", "at": 0}
        self.do({"op": "model", "ps": ps, "os": os, "_via": m["via"]})
        self.models.append(m)
        m["m"] = len(self.models)
        return m

    def op(self, m, name):
        return self.do({"op": name, "m": m["m"]})

    def prepare(self, m):
        """reset_stepping, as one call or hook by hook; did it work?"""
        if m["via"] == "openscm":
            return self.op(m, "reset_stepping")["err"] == ""
        if m.get("prepared") and self.rng.random() < 0.4:
            names = ["reset"]
        else:
            names = ["init_input", "init_run", "reset"] if self.rng.random() < 0.8 else ["init_run", "init_input", "reset"]
        m["prepared"] = all(self.op(m, n)["err"] == "" for n in names)
        return m["prepared"]

    def run(self, m):
        if m["via"] == "openscm":
            ok = self.op(m, "run")["err"] == ""
        else:
            ok = self.prepare(m) and self.op(m, "bare_run")["err"] == ""
        m["state"] = "done" if ok else "bad"

    def steps(self, m, n):
        for _ in range(n):
            if self.op(m, "step")["err"]:
                m["state"] = "bad"
                return
            m["at"] += 1
            k = self.rng.random()
            if k < 0.25:
                self.look(m)
            elif k < 0.4:
                self.set_emissions(m["ps"])
        if m["at"] == self.n - 1:
            m["state"] = "done"

    def step_through(self, m):
        ok = self.prepare(m)
        m["state"], m["at"] = ("step", 0) if ok else ("bad", 0)
        if ok:
            if self.rng.random() < 0.3:
                self.look(m)
            self.steps(m, self.n - 1 if self.rng.random() < 0.7 else self.rng.randint(1, self.n - 1))

    def generate(self):
        r = self.rng
        try:
            self.session()
        except StopIteration:
            pass
        return {"roots": self.roots, "ev": self.ev}

    def session(self):
        r = self.rng
        ps, os = 1, r.choice([2, 2, 2, 1])
        early = r.random() < 0.5
        m = self.new_model(ps, os) if early else None
        step = r.choice([YEAR, YEAR, YEAR, 5 * YEAR, 30 * DAY, YEAR + 12345, DAY])
        self.set_period(ps, r.choice([3, 4, 5, 6, 8, 12] + [2] * (r.random() < 0.2)), step)
        if r.random() < 0.4:
            self.set_generic(ps, ("DICE", "original_rounding"), r.choice(["b:True", "b:False", "b:False"]))
        if r.random() < 0.4:
            mid = self.start + r.randint(-1, self.n) * step + r.choice([0, 0, 1, -1, step // 3])
            self.set_generic(ps, ("DICE", "forcoth_saturation_time"), "d:%d" % mid)
        for _ in range(r.choice([0, 1, 2, 4, 8] if self.profile == "C14" else [1, 3, 6, 10, 15])):
            self.set_input(ps)
        if r.random() < 0.95:
            self.set_emissions(ps)
        if r.random() < 0.12 and self.n > 2:
            self.pre.add(os)
            for _ in range(r.choice([1, 2])):
                self.output_view(os, r.random() < 0.4)
        elif r.random() < 0.3:
            for _ in range(r.choice([1, 2])):
                self.output_view(os)
        if m is None:
            m = self.new_model(ps, os)
        for _ in range(r.choice([1, 2, 2, 3])):
            k = r.random()
            if os in self.pre or k < 0.5:
                self.run(m)
            else:
                self.step_through(m)
            if m["state"] in ("done", "step"):
                self.read_all(m)
                self.look(m)
            if m["state"] == "bad" and r.random() < 0.7:
                if r.random() < 0.7:
                    self.set_emissions(ps)
                    continue
                break
            k = r.random()
            if k < 0.4:
                self.inputs_unchanged(ps)
            elif k < 0.7:
                self.set_emissions(ps)
                for _ in range(r.choice([0, 1, 3])):
                    self.set_input(ps)
            elif k < 0.85 and len(self.models) < 3:
                # another model of the same inputs, or of its own
                if len(self.roots) > 2 and r.random() < 0.7:
                    m = self.new_model(ps, 3)
                    os = 3
                else:
                    m = self.new_model(ps, m["os"])
        self.inputs_unchanged(ps)


def generate(rng, profile):
    g = Gen(rng, profile)
    return g.generate(), {"roots": g.roots, "cmds": g.cmds}


def replay(script):
    s = Session(script["roots"])
    ev = []
    kinds = []

    def run(c):
        if c["op"] in ("rd", "wr"):
            c = dict(c, _kind=kinds[c["v"] - 1])
        e = s.run(c)
        ev.append(e)
        if c["op"] == "view" and e["err"] == "":
            kinds.append(c["kind"])
        return e

    models = {}     # number: [output set, points computed]
    for c in script["cmds"]:
        if c.get("v", 0) > len(kinds) or c.get("m", 0) > len(s.models):
            break
        e = run(c)
        if e["err"] == "Timeout":
            break
        if c["op"] == "model":
            models[len(models) + 1] = [c["os"], 0]
        elif c["op"] in ("run", "reset_stepping", "step"):
            m = models[c["m"]]
            m[1] = (script.get("n", 0) if c["op"] == "run" else 1 if c["op"] == "reset_stepping" else m[1] + 1) \
                if e["err"] == "" else 0
    if script.get("look"):   # at inputs and outputs, after a model's behaviour
        for i, k in enumerate(kinds):
            if k in ("scalar", "generic"):
                run({"op": "rd", "v": i + 1})
        start, step, n = script["start"], script["step"], script["n"]
        for os, top in models.values():
            for name, (kind, fam) in OUTPUTS.items():
                if top:
                    u, f = FAMUNIT[fam]
                    e = run({"op": "view", "ps": os, "reg": ["World"], "name": list(name), "kind": kind,
                             "unit": {"s": u, "f": f}, "ext": "none",
                             "tps": [str(start + i * step) for i in range(n + (kind == "average"))]})
                    if e["err"] == "":
                        run({"op": "get", "v": len(kinds), "ix": list(range(1, top + 1)), "_how": "index"})
    return {"roots": script["roots"], "ev": ev}
