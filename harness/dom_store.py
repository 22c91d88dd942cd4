"""
Driver for parameter sets and views: executes operations of the public interface and
records them as the events TraceStore.tla judges.

A command is an event without its outcome, plus fields starting with "_" that say in
which of the equivalent ways the call is written; the specification does not see these.
"""
import numpy as np

from common import attempt, strip
from enc import fl, num, nums, small
import units_gen as ug

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.core.time import ExtrapolationType, InterpolationType

KIND = {"scalar": ParameterType.SCALAR, "generic": ParameterType.GENERIC,
        "point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES}
KIND_NAME = {v: k for k, v in KIND.items()}
KIND_NAME[None] = "none"


def spelled(path, how):
    return "|".join(path) if how == "str" else list(path) if how == "list" else tuple(path)


def generic(v):
    return {"i": int, "s": str, "b": lambda x: x == "True", "n": lambda x: None,
            "f": float, "t": lambda x: tuple(x.split(","))}[v[0]](v[2:])


def generic_name(v):
    if v is None:
        return "n:"
    if isinstance(v, bool):
        return "b:%s" % v
    if isinstance(v, int):
        return "i:%d" % v
    if isinstance(v, float):
        return "f:%r" % v
    if isinstance(v, tuple):
        return "t:" + ",".join(v)
    return "s:%s" % v


class Store:
    def __init__(self, roots, plain_first=True):
        self.roots = roots
        self.sets = [ParameterSet() if r == "World" and plain_first else ParameterSet(r) for r in roots]
        self.views = []
        self.handles = {}
        self.keep = []

    # ---- executing a command -------------------------------------------
    def run(self, c):
        """Execute command c; return its event."""
        e = strip(c)
        out = {}
        err, _ = attempt(lambda: getattr(self, "do_" + c["op"])(c, out))
        e["err"] = err
        e.update(out)
        return e

    def do_view(self, c, out):
        ps = self.sets[c["ps"] - 1]
        name = spelled(c["name"], c.get("_name", "tuple"))
        kw = {}
        if c.get("_reg") != "default":
            kw["region"] = spelled(c["reg"], c.get("_reg", "tuple"))
        if c["kind"] == "scalar":
            v = ps.scalar(name, c["unit"]["s"], **kw)
        elif c["kind"] == "generic":
            v = ps.generic(name, **kw)
        else:
            tps = np.array([int(t) for t in c["tps"]], dtype="datetime64[s]")
            ext = c["ext"]
            if c.get("_enum"):
                kw["timeseries_type"] = KIND[c["kind"]]
                kw["extrapolation"] = ExtrapolationType[ext.upper()]
                kw["interpolation"] = InterpolationType.LINEAR
            else:
                case = [str.lower, str.upper, str.title][c.get("_case", 0)]
                if not (c["kind"] == "point" and c.get("_short")):
                    kw["timeseries_type"] = case(c["kind"])
                if not (ext == "none" and c.get("_short")):
                    kw["extrapolation"] = case(ext)
                if not c.get("_short"):
                    kw["interpolation"] = case("linear")
            v = ps.timeseries(name, c["unit"]["s"], tps, **kw)
            if c.get("_mut"):  # the caller's array is the caller's
                tps += np.timedelta64(12345, "s")
        self.views.append(v)

    def do_badview(self, c, out):
        """Ask for something which is no timeseries."""
        bad = {"scalar": ("timeseries_type", ParameterType.SCALAR), "generic": ("timeseries_type", ParameterType.GENERIC),
               "kind": ("timeseries_type", "mean"), "scalar text": ("timeseries_type", "scalar"),
               "ext": ("extrapolation", "quadratic"), "inter": ("interpolation", "cubic"), "none": ("interpolation", "none")}
        k, x = bad[c["_bad"]]
        tps = np.array([int(t) for t in c["tps"]], dtype="datetime64[s]")
        kw = {"timeseries_type": c["kind"], "region": spelled(c["reg"], "tuple")}
        kw[k] = x
        self.sets[c["ps"] - 1].timeseries(spelled(c["name"], "tuple"), c["unit"]["s"], tps, **kw)

    def describe(self, i):
        return {"kind": KIND_NAME[i.parameter_type], "unit": str(i.unit), "empty": bool(i.empty),
                "name2": list(i.name), "region2": list(i.region), "ver": small(i.version)}

    def do_info(self, c, out):
        kw = {} if c.get("_reg") == "default" else {"region": spelled(c["reg"], c.get("_reg", "tuple"))}
        i = self.sets[c["ps"] - 1].info(spelled(c["name"], c.get("_name", "tuple")), **kw)
        out["found"] = i is not None
        if i is not None:
            out.update(self.describe(i))

    def do_vinfo(self, c, out):
        v = self.views[c["v"] - 1]
        out.update(self.describe(v))
        out["len"] = small(v.length) if hasattr(v, "length") else 0

    def do_ensure(self, c, out):
        self.views[c["v"] - 1].ensure()

    def do_rd(self, c, out):
        v = self.views[c["v"] - 1].value
        out["r"] = [generic_name(v)] if c["_kind"] == "generic" else [num(v)]

    def do_wr(self, c, out):
        v = self.views[c["v"] - 1]
        x = generic(c["val"]) if c["_kind"] == "generic" else fl(c["val"])
        if c.get("_int") and x == x and x == int(x):
            x = int(x)
        v.value = x

    def do_wrbad(self, c, out):
        """Write something that is not a number."""
        v = self.views[c["v"] - 1]
        x = {"text": "x", "words": "a b", "list": [1.0, 2.0, 3.0], "none": None, "obj": object()}[c["_x"]]
        if not hasattr(v, "length"):
            v.value = x
        elif c["whole"]:
            vals = [1.25] * v.length
            vals[c["i"] - 1] = x
            v.values = vals
        else:
            self.handle(c["v"], c.get("_h"))[c["i"] - 1] = x

    # -- timeseries
    def handle(self, v, how):
        """The values of view v (1-based), possibly through a handle kept from before."""
        if how == "kept":
            h = self.handles.get(v)
            if h is not None:
                return h
            h = self.views[v - 1].values
            self.handles[v] = h
            return h
        return self.views[v - 1].values

    def do_get(self, c, out):
        ix = [i - 1 for i in c["ix"]]
        how = c.get("_how", "index")
        h = self.handle(c["v"], c.get("_h"))
        if how == "list":
            r = list(h)
        elif how == "array":
            r = np.array(h)
        elif how == "asarray":
            r = np.asarray(h).copy()
        elif how == "slice":
            r = list(h[ix[0]:ix[-1] + 1])
        elif how == "sub":   # through a slice of a slice
            r = list(h[ix[0]:][:len(ix)])
        elif how == "fancy":
            r = list(np.asarray(h[ix]))
        elif how == "neg":
            n = len(h)
            r = [h[i - n] for i in ix]
        elif how == "mask":
            r = list(np.asarray(h[self.mask(ix, len(h))]))
        elif how == "rev":
            r = list(h[::-1])[::-1]
        elif how == "step":
            r = list(h[ix[0]:ix[-1] + 1:self.stride(ix)])
        elif how == "npint":
            r = [float(h[np.int64(i)]) for i in ix]
        elif how == "take":
            r = list(np.take(h, ix))
        elif how == "reversed":
            r = list(reversed(h))[::-1]
        elif how == "plus":
            r = h + 0
        elif how == "iter":
            r = [x for x in h]
        elif how == "copy":
            r = np.copy(h)
        else:
            r = [h[i] for i in ix]
        out["r"] = nums(r)

    @staticmethod
    def mask(ix, n):
        m = np.zeros(n, dtype=bool)
        m[ix] = True
        return m

    @staticmethod
    def stride(ix):
        return ix[1] - ix[0] if len(ix) > 1 else 1

    def operand(self, x):
        if x["k"] == "num":
            return fl(x["c"][0])
        if x["k"] == "vec":
            return np.array([fl(a) for a in x["c"]])
        h = self.handle(x["v"], x.get("_h"))
        ix = [i - 1 for i in x["ix"]]
        if len(ix) == len(h):
            return h
        return h[ix[0]:ix[-1] + 1]

    def combine(self, c):
        f = c["f"]
        a = self.operand(c["x"])
        if f == "first":
            return a
        b = self.operand(c["y"])
        if c.get("_np"):
            return {"add": np.add, "sub": np.subtract, "mul": np.multiply}[f](a, b)
        return a + b if f == "add" else a - b if f == "sub" else a * b

    def do_calc(self, c, out):
        out["r"] = nums(self.combine(c))

    def do_cmp(self, c, out):
        a, b = self.operand(c["x"]), self.operand(c["y"])
        f = c["f"]
        if c.get("_np"):
            r = {"lt": np.less, "le": np.less_equal, "gt": np.greater, "ge": np.greater_equal, "eq": np.equal,
                 "ne": np.not_equal}[f](a, b)
        else:
            r = a < b if f == "lt" else a <= b if f == "le" else a > b if f == "gt" else a >= b if f == "ge" else \
                a == b if f == "eq" else a != b
        out["r"] = ["1" if x else "0" for x in r]

    def do_reduce(self, c, out):
        h = self.handle(c["v"], c.get("_h"))
        f = c["f"]
        if c.get("_np"):
            out["r"] = nums([{"sum": np.sum, "mean": np.mean, "max": np.max, "min": np.min}[f](h)])
        else:
            out["r"] = nums([sum(h) if f == "sum" else sum(h) / len(h) if f == "mean" else max(h) if f == "max" else min(h)])

    def do_len(self, c, out):
        h = self.views[c["v"] - 1].values
        out["n"] = small(len(h) if c.get("_how") == "len" else h.shape[0])

    def do_set(self, c, out):
        vals = [fl(x) for x in c["vals"]]
        how = c.get("_how", "list")
        if how == "int":
            vals = [int(x) for x in vals]
        if how == "array":
            vals = np.array(vals)
        elif how == "tuple":
            vals = tuple(vals)
        self.views[c["v"] - 1].values = vals
        if how == "array":
            vals += 17.25   # the caller's array is the caller's

    def do_seti(self, c, out):
        ix = [i - 1 for i in c["ix"]]
        vals = [fl(x) for x in c["vals"]]
        h = self.handle(c["v"], c.get("_h"))
        how = c.get("_how", "index")
        if how == "slice":
            h[ix[0]:ix[-1] + 1] = vals
        elif how == "array":
            h[ix[0]:ix[-1] + 1] = np.array(vals)
        elif how == "scalar":
            h[ix[0]:ix[-1] + 1] = vals[0]
        elif how == "sub":
            h[ix[0]:][:len(ix)] = vals
        elif how == "fancy":
            h[ix] = vals
        elif how == "neg":
            h[ix[0] - len(h)] = vals[0]
        elif how == "mask":
            h[self.mask(ix, len(h))] = vals
        elif how == "step":
            h[ix[0]:ix[-1] + 1:self.stride(ix)] = vals
        elif how == "rev":
            h[::-1] = vals[::-1]
        elif how == "npint":
            h[np.int64(ix[0])] = vals[0]
        else:
            h[ix[0]] = vals[0]

    def do_assign(self, c, out):
        """v[ix] = x f y"""
        ix = [i - 1 for i in c["ix"]]
        how = c.get("_how", "slice")
        V = self.views[c["v"] - 1]
        sl = slice(ix[0], ix[-1] + 1)
        if how == "iop":       # x is v[ix] itself
            b = self.operand(c["y"])
            if c.get("_h") == "kept":
                h = self.handle(c["v"], "kept")
                if len(ix) != len(h):
                    h = h[sl]
                if c["f"] == "add":
                    h += b
                elif c["f"] == "sub":
                    h -= b
                else:
                    h *= b
            elif c.get("_whole"):
                if c["f"] == "add":
                    V.values += b
                elif c["f"] == "sub":
                    V.values -= b
                else:
                    V.values *= b
            else:
                if c["f"] == "add":
                    V.values[sl] += b
                elif c["f"] == "sub":
                    V.values[sl] -= b
                else:
                    V.values[sl] *= b
        elif how == "out":     # numpy out=
            a, b = self.operand(c["x"]), self.operand(c["y"])
            h = self.handle(c["v"], c.get("_h"))
            if len(ix) != len(h):
                h = h[sl]
            {"add": np.add, "sub": np.subtract, "mul": np.multiply}[c["f"]](a, b, out=h)
        else:
            val = self.combine(c)
            self.handle(c["v"], c.get("_h"))[sl] = val

    def do_assignall(self, c, out):
        val = self.combine(c)
        self.views[c["v"] - 1].values = val

    def do_lock(self, c, out):
        self.views[c["v"] - 1].lock()

    def do_unlock(self, c, out):
        self.views[c["v"] - 1].unlock()


# ---- generating ---------------------------------------------------------
NOUNIT = {"s": "", "f": []}
YEAR = 31556952
DAY = 86400

#            views  what is done with them
PROFILES = {
    "C01": dict(kinds="ssgppa", names=9, deep=3, regs=2, sets=1, nview=0.35, bad=0.1, unitbad=0.03),
    "C02": dict(kinds="ssggppaa", names=5, deep=3, regs=1, sets=1, nview=0.4, bad=0.25, unitbad=0.2),
    "C03": dict(kinds="ssssg", names=3, deep=2, regs=1, sets=1, nview=0.15, bad=0.08, unitbad=0.03),
    "C04": dict(kinds="sspppa", names=6, deep=4, regs=1, sets=1, nview=0.2, bad=0.04, unitbad=0.02, tree=0.8),
    "C05": dict(kinds="ssgppaa", names=6, deep=3, regs=2, sets=1, nview=0.3, bad=0.35, unitbad=0.2),
    "C06": dict(kinds="ssgpp", names=10, deep=3, regs=5, sets=3, nview=0.35, bad=0.1, unitbad=0.03),
    "C07": dict(kinds="pppppa", names=3, deep=2, regs=1, sets=1, nview=0.12, bad=0.06, unitbad=0.02),
    "C08": dict(kinds="pppa", names=2, deep=2, regs=1, sets=1, nview=0.12, bad=0.05, unitbad=0.02, lock=0.2),
}
# some scripts of a profile concentrate on less
FOCUS = {
    "C01": (0.15, dict(tree=1)), "C02": (0.15, dict(tree=1)), "C03": (0.15, dict(tree=1, kinds="s")),
    "C05": (0.35, dict(kinds="pppass", names=2, deep=2, regs=1, nview=0.12, bad=0.3, unitbad=0.1, lock=0.2)),
    "C06": (0.2, dict(names=3, regs=3, nview=0.25)), "C08": (0.2, dict(names=4, deep=3, tree=1)),
}
PROFILES["C09"] = dict(PROFILES["C07"], kinds="p", names=2, nview=0.25)
PROFILES["C10"] = dict(PROFILES["C07"], kinds="a", names=2, nview=0.25)
LETTER = {"s": "scalar", "g": "generic", "p": "point", "a": "average"}


class Gen:
    def __init__(self, rng, profile):
        self.rng = rng
        self.p = PROFILES[profile]
        self.profile = profile
        r = rng
        if profile in FOCUS and r.random() < FOCUS[profile][0]:
            self.p = dict(self.p, **FOCUS[profile][1])
        nroot = r.choice(["World", "World", "Earth", "My|World" if False else "Mars", "world"])
        self.roots = ["World"] + [r.choice(["World", "World", nroot, "Earth"]) for _ in range(self.p["sets"] - 1)]
        if r.random() < 0.2:
            self.roots[0] = nroot
        self.store = Store(self.roots, r.random() < 0.7)
        self.names = self.make_names()
        self.regs = self.make_regions()
        self.fams = [ug.family(r) for _ in range(r.choice([1, 1, 2]))]
        self.grids = self.make_grids()
        self.ints = r.random() < 0.15     # series first set with integers (no element handles then)
        self.cmds, self.ev = [], []
        self.info = []                    # per view: kind, length, locked
        self.known = []                   # (ps, reg, name) asked for
        self.kindof = {}

    def make_names(self):
        r = self.rng
        parts = r.sample(["A", "B", "C", "Emissions", "CO2", "a", "Fossil fuels"], 4)
        names = []
        top = parts[:2]
        while len(names) < self.p["names"]:
            n = [r.choice(top)]
            while len(n) < self.p["deep"] and r.random() < 0.6:
                n.append(r.choice(parts))
            if n not in names:
                names.append(n)
            elif r.random() < 0.2:
                names.append(n)
        return names

    def make_regions(self):
        r = self.rng
        regs = [[]]
        parts = ["A", "North", "World", "B"]
        while len(regs) < self.p["regs"]:
            base = r.choice(regs)
            if len(base) < 3:
                regs.append(base + [r.choice(parts)])
        return regs

    def make_grids(self):
        r = self.rng
        n = r.choice([3, 4, 4, 5, 6])
        t0 = r.choice([0, 946684800, 1893456000, -1000000000])
        step = r.choice([YEAR, YEAR, 30 * DAY, DAY])
        g0 = [t0]
        irregular = r.random() < 0.4
        for _ in range(n):
            g0.append(g0[-1] + (int(step * r.uniform(0.5, 2)) if irregular else step))
        span = g0[-1] - g0[0]
        grids = [g0]
        # same span, other points
        for _ in range(r.choice([1, 2])):
            k = r.choice([3, 4, 5, 6])
            if r.random() < 0.5:
                grids.append([g0[0] + span * i // k for i in range(k + 1)])
            else:
                inner = sorted(r.sample(range(1, 20), k - 1))
                grids.append([g0[0]] + [g0[0] + span * i // 20 for i in inner] + [g0[-1]])
        # inside, outside, shifted
        grids.append([g0[0] + span * (i + 2) // 10 for i in range(0, 7, 2)])
        grids.append([g0[0] - span // 2 + span * i // 3 for i in range(6)])
        sh = span * r.choice([-3, -1, 1, 3]) // 4
        grids.append([t + sh for t in g0])
        if r.random() < 0.3:
            grids.append(g0[:3])
        if r.random() < 0.1:
            grids.append([t + 5 * span for t in g0])
        return grids

    # -- pieces
    def number(self):
        r = self.rng
        k = r.random()
        if k < 0.35:
            return num(r.randint(-20, 20))
        if k < 0.5:
            return num(r.randint(-40, 40) / 4)
        if k < 0.9:
            return num(r.uniform(-100, 100))
        return num(r.uniform(-1, 1) * 10 ** r.randint(-6, 9))

    def name(self):
        r = self.rng
        if self.known and r.random() < 0.45:
            ps, reg, n = r.choice(self.known)
            if r.random() < 0.2 and len(n) > 1:
                return ps, reg, n[:-1]
            if r.random() < 0.15:
                return ps, reg, n + [r.choice(["A", "B", "C"])]
            return ps, reg, n
        ps = r.randrange(len(self.roots)) + 1
        return ps, [self.roots[ps - 1]] + r.choice(self.regs), r.choice(self.names)

    def spelling(self, c):
        r = self.rng
        c["_name"] = r.choice(["str", "tuple", "list"])
        c["_reg"] = r.choice(["str", "tuple", "list"])
        if c["reg"] == ["World"] and r.random() < 0.6:
            c["_reg"] = "default"

    def view_cmd(self):
        r = self.rng
        ps, reg, name = self.name()
        if r.random() < self.p["bad"] * 0.15:
            reg = r.choice([["Elsewhere"], ["Elsewhere"] + reg, reg[1:] or ["X"]])
        kind = LETTER[r.choice(self.p["kinds"])]
        key = (ps, tuple(reg), name[0])
        if r.random() > self.p["bad"]:
            kind = self.kindof.get(key, kind)
        c = {"op": "view", "ps": ps, "reg": reg, "name": name, "kind": kind, "unit": NOUNIT, "tps": [], "ext": "none"}
        self.spelling(c)
        if kind != "generic":
            fam = self.fams[0] if r.random() > self.p["bad"] * 0.5 else ug.family(r)
            c["unit"] = ug.undefined(r) if r.random() < self.p["unitbad"] else ug.in_family(r, fam)
        if kind in ("point", "average"):
            g = r.choice(self.grids if r.random() < 0.4 else self.grids[:2])
            c["tps"] = [str(t) for t in g]
            c["ext"] = r.choice(["none", "constant", "linear", "linear"])
            c["_enum"] = r.random() < 0.3
            c["_short"] = r.random() < 0.3
            c["_mut"] = r.random() < 0.3
            c["_case"] = r.choice([0, 0, 1, 2])
            if r.random() < self.p["bad"] * 0.1:
                c["op"] = "badview"
                c["_bad"] = r.choice(["scalar", "generic", "kind", "scalar text", "ext", "inter", "none"])
        return c

    def do(self, c):
        if c.get("f") == "first":
            c["y"] = {"k": "num", "c": ["0"]}
        e = self.store.run(c)
        self.cmds.append(c)
        self.ev.append(e)
        if c["op"] == "badview" and (c["ps"], c["reg"], c["name"]) not in self.known:
            self.known.append((c["ps"], c["reg"], c["name"]))
        if c["op"] == "view":
            k = (c["ps"], tuple(c["reg"]), c["name"][0])
            if e["err"] == "":
                self.kindof[k] = c["kind"]
                n = 0
                if c["kind"] == "point":
                    n = len(c["tps"])
                elif c["kind"] == "average":
                    n = len(c["tps"]) - 1
                self.info.append({"kind": c["kind"], "n": n, "locked": False, "ok": False})
            if (c["ps"], c["reg"], c["name"]) not in self.known:
                self.known.append((c["ps"], c["reg"], c["name"]))
        elif c["op"] in ("lock", "unlock") and e["err"] == "":
            self.info[c["v"] - 1]["locked"] = c["op"] == "lock"
        elif c["op"] in ("get", "set") and e["err"] == "":
            self.info[c["v"] - 1]["ok"] = True
        if e["err"] == "Timeout":
            raise StopIteration
        return e

    def pick(self, kinds):
        vs = [i + 1 for i, x in enumerate(self.info) if x["kind"] in kinds]
        return self.rng.choice(vs) if vs else None

    def h(self):
        return None if self.ints else self.rng.choice([None, None, "kept"])

    def read_cmd(self, v, full=False):
        r = self.rng
        x = self.info[v - 1]
        if x["kind"] in ("scalar", "generic"):
            return {"op": "rd", "v": v, "_kind": x["kind"]}
        n = x["n"]
        how = "list" if full else r.choice(["list", "array", "asarray", "slice", "sub", "fancy", "neg", "index",
                                            "plus", "iter", "copy", "mask", "rev", "step", "npint", "take", "reversed"])
        if how in ("list", "array", "asarray", "plus", "iter", "copy", "rev", "reversed"):
            ix = list(range(1, n + 1))
        elif how in ("slice", "sub"):
            a = r.randint(1, n)
            ix = list(range(a, r.randint(a, n) + 1))
        elif how == "step":
            ix = list(range(r.randint(1, n), n + 1, r.choice([2, 2, 3])))
        else:
            ix = sorted(r.sample(range(1, n + 1), r.randint(1, n)))
        return {"op": "get", "v": v, "ix": ix, "_how": how, "_h": self.h()}

    def write_cmd(self, v):
        r = self.rng
        x = self.info[v - 1]
        bad = r.random() < self.p["bad"] * 0.4
        if x["kind"] != "generic" and r.random() < self.p["bad"] * 0.25:
            n = max(1, x["n"])
            whole = x["kind"] == "scalar" or r.random() < 0.5
            return {"op": "wrbad", "v": v, "whole": whole, "i": r.randint(1, n), "_h": self.h(),
                    "_x": r.choice(["text", "words", "obj", "list"] + ["none"] * (x["kind"] == "scalar"))}
        if x["kind"] == "scalar":
            return {"op": "wr", "v": v, "val": "nan" if r.random() < 0.05 else self.number(), "_kind": "scalar",
                    "_int": r.random() < 0.3}
        if x["kind"] == "generic":
            return {"op": "wr", "v": v, "_kind": "generic",
                    "val": r.choice(["i:%d" % r.randint(0, 99), "s:text", "s:x%d" % r.randint(0, 9), "b:True", "b:False",
                                     "n:", "f:1.5", "t:p,q"])}
        n = x["n"]
        k = r.random()
        if k < 0.4 or not x["ok"] and r.random() < 0.8:
            how = r.choice(["list", "array", "tuple"])
            if self.ints and r.random() < 0.6:
                how = "int"
            m = n if not bad else max(1, n + r.choice([-1, 1, 2]))
            vals = [num(r.randint(-30, 30)) if how == "int" else self.number() for _ in range(m)]
            return {"op": "set", "v": v, "vals": vals, "_how": how}
        a = r.randint(1, n)
        b = r.randint(a, n)
        sl = list(range(a, b + 1))
        if k < 0.6 or self.ints:
            how = r.choice(["index", "neg", "slice", "array", "scalar", "sub", "fancy", "mask", "step", "rev", "npint"])
            if self.ints and how == "sub":
                how = "slice"
            if how in ("index", "neg", "npint"):
                ix = [a]
            elif how == "rev":
                ix = list(range(1, n + 1))
            elif how == "step":
                ix = list(range(a, n + 1, r.choice([2, 2, 3])))
            elif how in ("fancy", "mask"):
                ix = sorted(r.sample(range(1, n + 1), r.randint(1, n)))
            else:
                ix = sl
            if how == "scalar":
                vals = [self.number()] * len(ix)
            else:
                vals = [self.number() for _ in ix]
            if bad:
                if how == "index":
                    ix = [n + 3]
                elif how in ("slice", "array", "fancy", "sub") and len(ix) > 1:
                    vals = vals + [self.number()]
            return {"op": "seti", "v": v, "ix": ix, "vals": vals, "_how": how, "_h": self.h()}
        f = r.choice(["add", "sub", "mul"])

        def operand(ix):
            q = r.random()
            if q < 0.4:
                return {"k": "num", "c": [self.number()]}
            if q < 0.6:
                return {"k": "vec", "c": [self.number() for _ in ix]}
            w = [i + 1 for i, y in enumerate(self.info) if y["n"] >= len(ix) and i + 1 != v]
            if not w:
                return {"k": "num", "c": [self.number()]}
            w = r.choice(w)
            o = r.randint(0, self.info[w - 1]["n"] - len(ix))
            return {"k": "view", "v": w, "ix": [o + i + 1 for i in range(len(ix))], "_h": self.h()}
        all_ = list(range(1, n + 1))
        if k < 0.85:
            ix = all_ if r.random() < 0.5 else sl
            how = r.choice(["iop", "iop", "out", "plain"])
            c = {"op": "assign", "v": v, "ix": ix, "f": f, "y": operand(ix), "_how": how, "_h": self.h()}
            if how == "iop":
                c["x"] = {"k": "view", "v": v, "ix": ix}
                c["_whole"] = ix == all_
            else:
                c["x"] = operand(ix)
                if c["x"]["k"] != "view" and c["y"]["k"] == "view":
                    c["x"], c["y"] = c["y"], c["x"]
                if how == "plain" and r.random() < 0.4:
                    c["f"] = "first"
                    if c["x"]["k"] == "num":
                        c["x"] = {"k": "vec", "c": [self.number() for _ in ix]}
            return c
        c = {"op": "assignall", "v": v, "f": f, "x": operand(all_), "y": operand(all_), "n": n, "_np": r.random() < 0.3}
        if c["x"]["k"] == "num":
            c["x"] = {"k": "vec", "c": [self.number() for _ in all_]}
        if r.random() < 0.5:
            c["f"] = "first"
        return c

    def calc_cmd(self):
        r = self.rng
        v = self.pick(("point", "average"))
        n = self.info[v - 1]["n"]
        x = {"k": "view", "v": v, "ix": list(range(1, n + 1)), "_h": self.h()}
        w = [i + 1 for i, y in enumerate(self.info) if y["n"] == n]
        y = r.choice([{"k": "num", "c": [self.number()]}, {"k": "vec", "c": [self.number() for _ in range(n)]},
                      {"k": "view", "v": r.choice(w), "ix": list(range(1, n + 1))}])
        if r.random() < 0.3 and y["k"] != "vec":
            x, y = y, x
        q = r.random()
        if q < 0.25:
            return {"op": "cmp", "v": v, "f": r.choice(["lt", "le", "gt", "ge", "eq", "ne"]), "x": x, "y": y, "n": n,
                    "_np": r.random() < 0.3}
        if q < 0.4:
            return {"op": "reduce", "v": v, "f": r.choice(["sum", "mean", "max", "min"]), "n": n, "_h": self.h(),
                    "_np": r.random() < 0.5}
        return {"op": "calc", "v": v, "f": r.choice(["add", "sub", "mul"]), "x": x, "y": y, "n": n,
                "_np": r.random() < 0.3}

    def info_cmd(self):
        r = self.rng
        if self.info and r.random() < 0.4:
            v = r.randrange(len(self.info)) + 1
            return {"op": r.choice(["vinfo", "vinfo", "ensure"]), "v": v}
        ps, reg, name = self.name()
        if r.random() < 0.1:
            reg = r.choice([["Elsewhere"], reg + ["Nowhere"], reg[1:] or ["X"]])
        elif r.random() < 0.1:
            name = name + ["Nothing"]
        c = {"op": "info", "ps": ps, "reg": reg, "name": name}
        self.spelling(c)
        return c

    def snapshot(self):
        """Look at everything."""
        for v in range(1, len(self.info) + 1):
            self.do(self.read_cmd(v, True))
            self.do({"op": "vinfo", "v": v})
        for ps, reg, name in self.known:
            c = {"op": "info", "ps": ps, "reg": reg, "name": name}
            self.spelling(c)
            self.do(c)

    def step(self):
        r = self.rng
        k = r.random()
        ts = self.pick(("point", "average"))
        if not self.info or k < self.p["nview"]:
            return self.view_cmd()
        k = r.random()
        if ts and k < self.p.get("lock", 0.05):
            if self.info[ts - 1]["locked"]:
                return {"op": "unlock", "v": ts}
            return {"op": "lock" if r.random() < 0.85 else "unlock", "v": ts}
        if k < 0.3:
            return self.info_cmd() if r.random() < 0.4 else self.read_cmd(r.randrange(len(self.info)) + 1)
        if k < 0.55:
            return self.read_cmd(r.randrange(len(self.info)) + 1)
        if ts and k < 0.62:
            if r.random() < 0.2 and self.info[ts - 1]["ok"]:
                return {"op": "len", "v": ts, "_how": r.choice(["len", "shape"])}
            return self.calc_cmd()
        return self.write_cmd(r.randrange(len(self.info)) + 1)

    def make_tree(self):
        """Leaves of one tree, a view or two of each, then views of their ancestors."""
        r = self.rng
        ps, reg = 1, [self.roots[0]] + r.choice(self.regs)
        kind = LETTER[r.choice(self.p["kinds"])]
        leaves = [["A", "B"], ["A", "C"]] + r.sample([["A", "D", "B"], ["A", "D", "C"], ["A", "D", "E", "F"],
                                                      ["A", "G"], ["A", "D", "E", "H"]], r.choice([0, 1, 2, 3]))
        if r.random() < 0.08:     # many of them
            leaves += [["A", "L%d" % i] for i in range(r.choice([8, 12]))]
        def ask(name):
            c = self.view_cmd()
            c.update(ps=ps, reg=reg, name=name, kind=kind)
            if "_name" not in c:
                self.spelling(c)
            if not c["unit"]["s"] or kind != "generic":
                c["unit"] = ug.in_family(r, self.fams[0])
            if kind in ("point", "average"):
                g = r.choice(self.grids[:2])
                c["tps"] = [str(t) for t in g]
                c["ext"] = r.choice(["constant", "linear", "none"])
            else:
                c["tps"] = []
            if c.get("_reg") == "default" and reg != ["World"]:
                c["_reg"] = "tuple"
            self.do(c)
        for n in leaves:
            ask(n)
            if self.info and r.random() < 0.8 and self.ev[-1]["err"] == "":
                self.do(self.write_cmd(len(self.info)))
        for n in r.sample([["A"], ["A"], ["A", "D"], ["A", "D", "E"]], r.choice([1, 2, 3])):
            ask(n)

    def go_on(self):
        """After a rejection: another view writes, locked views are unlocked."""
        r = self.rng
        ok = [i + 1 for i, x in enumerate(self.info) if x["kind"] in ("point", "average") and x["ok"]]
        free = [v for v in ok if not self.info[v - 1]["locked"]]
        if free:
            self.do(self.write_cmd(r.choice(free)))
        for v in ok:
            if self.info[v - 1]["locked"]:
                self.do({"op": "unlock", "v": v})

    def generate(self):
        r = self.rng
        try:
            if r.random() < self.p.get("tree", 0):
                self.make_tree()
            n = r.choice([12, 18, 25, 35])
            for _ in range(n):
                if len(self.info) > 9 and r.random() < 0.9:
                    self.p = dict(self.p, nview=0.02)
                e = self.do(self.step())
                if e["err"] and self.profile == "C05" and r.random() < 0.4 and len(self.ev) < 60:
                    if r.random() < 0.5:
                        self.go_on()
                    self.snapshot()
            if r.random() < 0.6:
                self.snapshot()
        except StopIteration:
            pass
        return {"roots": self.roots, "ev": self.ev}, self.cmds


def generate(rng, profile):
    g = Gen(rng, profile)
    trace, cmds = g.generate()
    return trace, {"roots": g.roots, "cmds": cmds}


def replay(script):
    """Execute a recorded (or model-generated) script; returns the trace."""
    s = Store(script["roots"])
    ev = []
    views = []   # (kind, length)
    asked = []

    def run(c):
        if c["op"] in ("rd", "wr"):
            c = dict(c, _kind=views[c["v"] - 1][0])
        e = s.run(c)
        ev.append(e)
        if c["op"] == "view":
            if e["err"] == "":
                views.append((c["kind"], len(c["tps"]) - (c["kind"] == "average")))
            if (c["ps"], c["reg"], c["name"]) not in asked:
                asked.append((c["ps"], c["reg"], c["name"]))
        return e["err"] != "Timeout"

    for c in script["cmds"]:
        if c.get("v", 0) > len(views):   # a view the specification allows to be refused
            break
        if not run(c):
            return {"roots": script["roots"], "ev": ev}
    if script.get("look"):   # at everything, after a model's behaviour
        cmds = []
        for i, (kind, n) in enumerate(views):
            if kind in ("scalar", "generic"):
                cmds.append({"op": "rd", "v": i + 1})
            else:
                cmds.append({"op": "get", "v": i + 1, "ix": list(range(1, n + 1)), "_how": "list"})
            cmds.append({"op": "vinfo", "v": i + 1})
        cmds += [{"op": "info", "ps": a, "reg": b, "name": d} for a, b, d in asked]
        for c in cmds:
            if not run(c):
                break
    return {"roots": script["roots"], "ev": ev}
