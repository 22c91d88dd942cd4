"""Driver for conversions between time grids (openscm.core.time.TimeseriesConverter)."""
import numpy as np

from common import attempt, strip
from enc import fl, num, nums

from openscm.core.parameters import ParameterType
from openscm.core.time import ExtrapolationType, InterpolationType, TimeseriesConverter

KIND = {"point": ParameterType.POINT_TIMESERIES, "average": ParameterType.AVERAGE_TIMESERIES}
DAY = 86400
YEAR = 31556952


class Bench:
    def __init__(self):
        self.made = []

    def run(self, c):
        e = strip(c)
        out = {}
        err, _ = attempt(lambda: getattr(self, "do_" + c["op"])(c, out))
        e["err"] = err
        e.update(out)
        return e

    def do_make(self, c, out):
        src = np.array([int(t) for t in c["src"]], dtype="datetime64[s]")
        tgt = np.array([int(t) for t in c["tgt"]], dtype="datetime64[s]")
        if c.get("_cast") == "int":
            src = src.astype(np.int64)
        self.made.append(TimeseriesConverter(
            src, tgt, KIND[c["kind"]], InterpolationType.LINEAR, ExtrapolationType[c["ext"].upper()]))
        src += src[1] - src[0]   # the caller's arrays are the caller's
        tgt += 12345

    def conv(self, c, out, how):
        vals = np.array([fl(x) for x in c["vals"]])
        if c.get("_int") and all(x == int(x) for x in vals):
            vals = vals.astype(int)
        before = vals.copy()
        r = getattr(self.made[c["c"] - 1], how)(vals)
        out["r"] = nums(r)
        if not (vals == before).all():
            out["r"] = ["nan"] * 3 + out["r"]

    def do_from(self, c, out):
        self.conv(c, out, "convert_from")

    def do_to(self, c, out):
        self.conv(c, out, "convert_to")

    def do_lengths(self, c, out):
        t = self.made[c["c"] - 1]
        out["r"] = [int(t.source_length), int(t.target_length)]


def grid(r, n, t0, step, irregular):
    g = [t0]
    for _ in range(n):
        g.append(g[-1] + (max(1, int(step * r.uniform(0.1, 3))) if irregular else step))
    return g


def grids(r, large=(51, 70, 130)):
    n = r.choice([2, 3, 3, 4, 5, 6, 8, 12, 20]) if r.random() < 0.97 else r.choice(large)
    t0 = r.choice([0, 0, 946684800, -2208988800, 1893456000, r.randint(-10**10, 10**11)])
    step = r.choice([1, 7, 3600, DAY, 30 * DAY, YEAR, YEAR, YEAR, 10 * YEAR])
    src = grid(r, n, t0, step, r.random() < 0.5)
    a, b = src[0], src[-1]
    span = b - a
    k = r.choice(["same", "inner", "finer", "coarser", "beyond", "before", "other", "merge", "one", "far"])
    if k == "same":
        tgt = list(src)
    elif k == "inner":
        m = sorted({a + span * r.randint(0, 1000) // 1000 for _ in range(r.randint(2, 8))})
        tgt = m if len(m) > 1 else [a, b]
    elif k == "finer":
        tgt = sorted({x for i in range(len(src) - 1) for x in
                      (src[i], src[i] + (src[i + 1] - src[i]) * r.randint(1, 9) // 10, src[i + 1])})
    elif k == "coarser":
        m = r.randint(1, 6 if n <= 20 else n)
        tgt = [a + span * i // m for i in range(m + 1)]
    elif k == "merge":
        inner = [x for x in src[1:-1] if r.random() < 0.5]
        tgt = [a] + inner + [b]
    elif k == "beyond":
        m = r.randint(1, 6)
        e = b + span * r.randint(1, 30) // 10 + 1
        tgt = [a + (e - a) * i // m for i in range(m + 1)]
    elif k == "before":
        m = r.randint(1, 6)
        e = a - span * r.randint(1, 30) // 10 - 1
        tgt = [e + (b - e) * i // m for i in range(m + 1)]
    elif k == "one":
        tgt = [r.choice([r.choice(src), a + span * r.randint(0, 100) // 100, b + 1, b + span])]
    elif k == "far":
        s = b + span * r.randint(1, 100)
        tgt = [s, s + step, s + 3 * step]
    else:
        s = a + span * r.randint(-15, 15) // 10
        tgt = grid(r, r.randint(1, 8), s, max(1, span // r.randint(1, 12)), r.random() < 0.5)
    tgt = sorted(set(tgt))
    return src, tgt


def number(r):
    k = r.random()
    if k < 0.4:
        return num(r.randint(-20, 20))
    if k < 0.9:
        return num(r.uniform(-100, 100))
    return num(r.uniform(-1, 1) * 10 ** r.randint(-9, 12))


def generate(r, profile):
    b = Bench()
    cmds, ev = [], []

    def do(c):
        e = b.run(c)
        cmds.append(c)
        ev.append(e)
        return e
    kind = "average" if profile == "C10" else "point"
    large = (33, 52) if kind == "average" else (51, 70, 130)
    made = []
    for _ in range(r.choice([1, 2, 3])):
        src, tgt = grids(r, large)
        while kind == "average" and len(tgt) < 2:
            src, tgt = grids(r, large)
        if r.random() < 0.3:
            src, tgt = tgt, src
            if len(src) < 2:
                src, tgt = tgt, src
        ext = r.choice(["none", "constant", "linear"])
        c = {"op": "make", "kind": kind, "src": [str(t) for t in src], "tgt": [str(t) for t in tgt], "ext": ext,
             "_cast": r.choice(["no", "int"])}
        if do(c)["err"] == "":
            made.append((kind, src, tgt))
    if not made:
        return {"ev": ev}, {"cmds": cmds}
    for _ in range(r.choice([2, 4, 6])):
        i = r.randrange(len(made))
        kind, src, tgt = made[i]
        if r.random() < 0.05:
            do({"op": "lengths", "c": i + 1})
            continue
        way = r.choice(["from", "from", "to"])
        x = src if way == "from" else tgt
        if len(x) < 2:
            way, x = "from", src
        n = len(x) - (kind == "average")
        shape = r.random()
        if shape < 0.15:
            vals = [number(r)] * n
        elif shape < 0.3:
            p, q = r.randint(-9, 9), r.randint(-9, 9)
            vals = [num(p + q * j) for j in range(n)]
        elif shape < 0.4:
            vals = ["0"] * n
            vals[r.randrange(n)] = number(r)
        else:
            vals = [number(r) for _ in range(n)]
        do({"op": way, "c": i + 1, "vals": vals, "_int": r.random() < 0.2})
    return {"ev": ev}, {"cmds": cmds}


def replay(script):
    b = Bench()
    ev = []
    for c in script["cmds"]:
        if c.get("c", 0) > len(b.made):
            break
        ev.append(b.run(c))
    return {"ev": ev}
