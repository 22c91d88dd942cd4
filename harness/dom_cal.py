"""Driver for representations of time (openscm.core.time.TimePoints) and resampling grids."""
import datetime as dt

import numpy as np

from common import attempt, strip
from enc import fl, num, nums

from openscm.core.time import TimePoints, create_time_points
from openscm.scmdataframe.offsets import generate_range, to_offset

EPOCH = dt.datetime(1970, 1, 1)
MONTHS = "JAN FEB MAR APR MAY JUN JUL AUG SEP OCT NOV DEC".split()
DAYS = "MON TUE WED THU FRI SAT SUN".split()
FORMATS = {
    "iso": "%Y-%m-%dT%H:%M:%S", "space": "%Y-%m-%d %H:%M:%S", "slash": "%Y/%m/%d %H:%M:%S",
    "date": "%Y-%m-%d", "dslash": "%Y/%m/%d", "compact": "%Y%m%d", "text": "%B %d, %Y", "abbr": "%d %b %Y",
    "us": "%m/%d/%Y", "minutes": "%Y-%m-%d %H:%M", "z": "%Y-%m-%dT%H:%M:%SZ", "frac": "%Y-%m-%d %H:%M:%S.%f",
    "long": "%A, %d %B %Y %H:%M:%S", "ampm": "%b %d %Y %I:%M:%S %p",
    "month": "%Y-%m", "mtext": "%B %Y",
}
# how much of <<y, m, d, h, min, s, us>> a representation can say
SAYS = {"iso": 6, "space": 6, "slash": 6, "date": 3, "dslash": 3, "compact": 3, "text": 3, "abbr": 3, "us": 3,
        "minutes": 5, "z": 6, "frac": 7, "long": 6, "ampm": 6, "month": 2, "mtext": 2, "datetime": 7, "pydate": 3,
        "Y": 1, "M": 2, "D": 3, "h": 4, "m": 5, "s": 6, "ms": 7, "us64": 7, "ns": 7, "W": 3, "object": 7}


def moment(s):
    return EPOCH + dt.timedelta(seconds=int(s))


def seconds(d):
    return num(int((d - EPOCH).total_seconds() // 1) if d.microsecond else (d - EPOCH) // dt.timedelta(seconds=1))


def text(d, fmt):
    f = FORMATS[fmt].replace("%Y", "%04d" % d.year)     # strftime does not pad years
    return d.strftime(f)


def pair(c, x):
    """The python value(s) a command's abstract values are given as."""
    how = c["_as"]
    if c["kind"] == "year":
        x = [int(i) for i in x]
        if how in ("int", "tuple", "range"):
            return tuple(x) if how == "tuple" else x
        if how in ("int64", "int32", "int16", "uint16"):
            return np.array(x, dtype=how)
        if how == "npint":
            return [np.int64(i) for i in x]
        if how == "str":
            return [str(i) for i in x]
        if how == "str4":
            return ["%04d" % i for i in x]
        if how == "strarray":
            return np.array([str(i) for i in x])
        if how == "strobject":
            return np.array([str(i) for i in x], dtype=object)
        if how == "strfloat":
            return ["%d.0" % i for i in x]
        if how == "float":
            return [float(i) for i in x]
        if how == "float32":
            return np.array(x, dtype=np.float32)
        if how == "dt64Y":
            return np.array([np.datetime64("%04d" % i, "Y") for i in x])
    if c["kind"] == "decimal":
        f = [fl(i) for i in x]
        if how == "float":
            return f
        if how == "array":
            return np.array(f)
        if how == "str":
            return [repr(i) for i in f]
        if how == "object":
            return np.array(f, dtype=object)
    d = [dt.datetime(*(i + [1, 1, 1, 0, 0, 0, 0][len(i):])) for i in x]
    if how == "datetime":
        return d
    if how == "object":
        return np.array(d, dtype=object)
    if how == "pydate":
        return [i.date() for i in d]
    if how in FORMATS:
        return [text(i, how) for i in d]
    unit = {"us64": "us"}.get(how, how)
    a = np.array(d, dtype="datetime64[us]").astype("datetime64[%s]" % unit)
    return list(a) if c.get("_list") else a


def rule_text(r):
    if r["bad"]:
        return r["_text"]
    m = "" if r["mult"] == 1 else str(r["mult"])
    if r["months"] == 0:
        return m + "W-" + DAYS[r["anchor"]]
    base = {1: "M", 3: "Q", 12: "A"}[r["months"]] + ("S" if r["side"] == "start" else "")
    if r.get("_y") and r["months"] == 12 and r.get("_bare") and r["anchor"] == (1 if r["side"] == "start" else 12):
        base = base.replace("A", "Y")
    if r["months"] == 1:
        return m + base
    a = r["anchor"]
    if r["months"] == 3:      # the anchor names one of the quarter's months
        a = r.get("_q", 0) * 3 + (a - 1) % 3 + 1
    default = {3: 1, 12: 1}[r["months"]] if r["side"] == "start" else 12
    if r.get("_bare") and a == default:
        return m + base
    return m + base + "-" + MONTHS[a - 1]


class Bench:
    def run(self, c):
        e = strip(c)
        if c["op"] == "range":
            e["rule"] = dict({"bad": False}, **strip(c["rule"]))
        out = {}
        err, _ = attempt(lambda: getattr(self, "do_" + c["op"])(c, out))
        e["err"] = err
        e.update(out)
        return e

    def do_norm(self, c, out):
        given = pair(c, c["x"])
        before = given.copy() if hasattr(given, "copy") else list(given)
        t = TimePoints(given)
        v = np.asarray(t.values)
        if v.dtype != np.dtype("datetime64[s]"):
            raise AssertionError("not in seconds")
        r = [str(int(i)) for i in v.astype("int64")]
        parts = [[int(a) for a in p] for p in zip(t.years(), t.months(), t.days(), t.hours(), t.weekdays())]
        idx = t.to_index()
        if idx.name != "time" or any(type(i) is not dt.datetime for i in idx):
            raise AssertionError("not an index of datetimes")
        index = [seconds(i) for i in idx]
        same = all(type(a) is type(b) and a == b for a, b in zip(before, given)) and len(before) == len(given)
        out["intact"] = bool(same) and r == [str(int(i)) for i in t.values.astype("int64")]
        out.update(r=r, parts=parts, index=index)

    def do_points(self, c, out):
        start = np.datetime64(int(c["start"]), "s")
        step = np.timedelta64(int(c["step"]), "s")
        if c.get("_unit"):
            n = {"D": 86400, "h": 3600, "m": 60}[c["_unit"]]
            step = np.timedelta64(int(c["step"]) // n, c["_unit"])
        if c.get("_day"):
            start = start.astype("datetime64[D]")
        kind = c["kind"]
        if c.get("_enum"):
            from openscm.core.parameters import ParameterType
            kind = ParameterType.AVERAGE_TIMESERIES if kind == "average" else ParameterType.POINT_TIMESERIES
        r = create_time_points(start, step, c["n"], kind)
        out["r"] = [str(int(i)) for i in r.astype("datetime64[s]").astype("int64")]

    def do_range(self, c, out):
        off = to_offset(rule_text(dict({"bad": False}, **c["rule"])))
        out["r"] = [seconds(d) for d in generate_range(moment(c["a"]), moment(c["b"]), off)]


YEARS = [1, 2, 4, 100, 400, 999, 1000, 1582, 1600, 1677, 1678, 1700, 1800, 1899, 1900, 1969, 1970, 1971, 1999, 2000,
         2001, 2004, 2038, 2100, 2262, 2263, 2400, 3000, 5000, 9998, 9999]


def year(r, lo=1, hi=9999):
    k = r.random()
    y = r.choice(YEARS) if k < 0.4 else r.randint(1850, 2150) if k < 0.8 else r.randint(lo, hi)
    return min(max(y, lo), hi)


def civil(r, n, hi=9999, lo=1):
    y = year(r, lo, hi)
    m = r.randint(1, 12)
    last = (dt.datetime(y + (m == 12), m % 12 + 1, 1) - dt.timedelta(days=1)).day if (y, m) != (9999, 12) else 31
    d = r.choice([1, last, r.randint(1, last), r.randint(1, last)])
    tod = r.choice([[0, 0, 0, 0], [23, 59, 59, 999999], [12, 0, 0, 0],
                    [r.randint(0, 23), r.randint(0, 59), r.randint(0, 59), r.choice([0, 0, 500000, r.randint(0, 999999)])]])
    return ([y, m, d] + tod)[:n]


def pad(c):
    return c + [1, 1, 1, 0, 0, 0, 0][len(c):]


def norm(r):
    kind = r.choice(["year", "year", "decimal", "decimal", "civil", "civil", "civil", "civil"])
    n = r.choice([1, 1, 2, 3, 5])
    if kind == "year":
        how = r.choice("int int tuple int64 int32 int16 uint16 npint str str4 strarray strobject strfloat float float32 "
                       "dt64Y".split())
        return {"op": "norm", "kind": kind, "x": [year(r) for _ in range(n)], "_as": how}
    if kind == "decimal":
        how = r.choice(["float", "array", "str", "object"])
        xs = []
        for _ in range(n):
            y = year(r)
            k = r.random()
            if k < 0.3:
                f = r.choice([0.5, 0.25, 0.125, 1 / 3, 0.1, 0.9, 1 / 12, 11 / 12, 0.0])
            elif k < 0.8:
                f = r.randint(0, 364) / (366 if (y % 4 == 0 and y % 100 != 0) or y % 400 == 0 else 365)
            else:
                f = r.random()
            x = y + f
            if int(x) != y or f > 0.999999:
                x = float(y)
            if how == "str" and "e" in repr(x):
                x = float(y)
            xs.append(num(x))
        return {"op": "norm", "kind": kind, "x": xs, "_as": how}
    how = r.choice(sorted(SAYS))
    lo, hi = 1, 9999
    if how == "ns":
        lo, hi = 1678, 2261
    if how in FORMATS:
        lo = 1000 if how not in ("iso", "space", "date", "minutes", "z", "frac") else 100
    x = [pad(civil(r, SAYS[how], hi, lo)) for _ in range(n)]
    if how == "compact":
        x = [i for i in x if i[0] >= 1000] or [pad([2010, 1, 1])]
    if how == "W":     # numpy's weeks start on Thursdays
        x = []
        for _ in range(n):
            d = dt.datetime(1970, 1, 1) + dt.timedelta(days=7 * r.randint(-50000, 50000))
            x.append([d.year, d.month, d.day, 0, 0, 0, 0])
    if how == "ms":
        x = [i[:6] + [i[6] // 1000 * 1000] for i in x]
    if how == "us":
        pass
    return {"op": "norm", "kind": "civil", "x": x, "_as": how, "_list": r.random() < 0.3}


def points(r):
    start = r.choice([0, 946684800, -2208988800, r.randint(-6 * 10**10, 6 * 10**10)])
    c = {"op": "points", "start": str(start), "n": r.choice([1, 1, 2, 3, 7, 30, 200]),
         "kind": r.choice(["point", "average"]), "_enum": r.random() < 0.3}
    u = r.choice(["", "D", "h", "m"])
    k = r.choice([1, 1, 7, 30, 365, 366, r.randint(1, 5000)])
    step = k * {"": r.choice([1, 86400, 31556952]), "D": 86400, "h": 3600, "m": 60}[u]
    c["step"] = str(step)
    if u:
        c["_unit"] = u
    if start % 86400 == 0:
        c["_day"] = r.random() < 0.3
    return c


BAD = ["B", "C", "BM", "BMS", "CBM", "CBMS", "BQ", "BQS", "BA", "BAS", "BH", "CBH", "BY", "BYS", "2BA", "BQ-FEB",
       "foo", "AS-XXX", "REQ", "year", "", "Q-13", "5", "XS"]


def grid(r):
    months = r.choice([1, 1, 3, 3, 12, 12, 12, 0])
    mult = r.choice([1, 1, 1, 1, 2, 3, 5, 10, 30])
    if months == 0:
        rule = {"months": 0, "anchor": r.randint(0, 6), "side": "start", "mult": min(mult, 3)}
    else:
        side = r.choice(["start", "end"])
        rule = {"months": months, "side": side, "mult": mult, "_y": r.random() < 0.4, "_bare": r.random() < 0.6,
                "_q": r.randint(0, 3),
                "anchor": 1 if months == 1 else r.choice([1, 3] if side == "end" else [1, 2, 3]) if months == 3
                else r.choice([1, 12, 12, r.randint(1, 12)])}
    lo = max(1, 8)
    y = year(r, lo, 9600)
    d = dt.datetime(y, r.randint(1, 12), r.choice([1, 1, 28, r.randint(1, 28)]))
    k = r.random()
    if k < 0.25:
        d = (d.replace(day=28) + dt.timedelta(days=4)).replace(day=1) - dt.timedelta(days=1)   # last of the month
    span = r.choice([0, 1, 27, 31, 90, 365, 366, r.randint(0, 400), r.randint(0, 4000), 365 * r.randint(1, 100)])
    if months in (0, 1):
        span = min(span, 4000)
    e = d + dt.timedelta(days=span)
    if r.random() < 0.2:
        e = e.replace(day=1)
        e = max(d, e)
    if r.random() < 0.25:
        d += dt.timedelta(seconds=r.choice([1, 43200, 86399, r.randint(0, 86399)]))
    if r.random() < 0.25:
        e += dt.timedelta(seconds=r.choice([1, 43200, 86399, r.randint(0, 86399)]))
    e = max(d, e)
    return {"op": "range", "rule": rule, "a": seconds(d), "b": seconds(e)}


def generate(r, profile):
    b = Bench()
    cmds, ev = [], []
    for _ in range(8):
        if profile == "C26":
            c = norm(r) if r.random() < 0.8 else points(r)
        elif r.random() < 0.08:
            c = {"op": "range", "rule": {"bad": True, "_text": r.choice(BAD)}, "a": "0", "b": "31536000"}
        else:
            c = grid(r)
        cmds.append(c)
        ev.append(b.run(c))
    return {"ev": ev}, {"cmds": cmds}


def replay(script):
    b = Bench()
    return {"ev": [b.run(c) for c in script["cmds"]]}
