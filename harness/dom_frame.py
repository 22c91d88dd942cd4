"""Driver for data frames of timeseries (openscm.scmdataframe)."""
import copy
import datetime as dt
import logging
import os
import re
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

import units_gen
from common import attempt, strip
from dom_cal import EPOCH, moment, rule_text, text
from enc import fl, num

from openscm.core.parameters import ParameterType
from openscm.core.parameterset import ParameterSet
from openscm.scmdataframe import ScmDataFrame, convert_openscm_to_scmdataframe, df_append
from openscm.scmdataframe.parameter_type import guess_parameter_type

REQUIRED = ["model", "scenario", "region", "variable", "unit"]
ROW = "zz row"
logging.disable(logging.CRITICAL)
UNSET = object()


# ---- cells, values, times ------------------------------------------------
def cell(x):
    """Encode a metadata cell."""
    if isinstance(x, str):
        return "s:" + x
    if x is None or x is pd.NaT:
        return "nan"
    if isinstance(x, (int, float, np.integer, np.floating, np.bool_)):
        n = num(x)
        return "nan" if n == "nan" else "n:" + n
    return "s:<%r>" % (x,)


def uncell(c, none=False):
    if c == "nan":
        return None if none else np.nan
    if c.startswith("s:"):
        return c[2:]
    x = fl(c[2:])
    return int(x) if x == int(x) and "/" not in c else x


def meta_row(names, row):
    return {c: cell(x) for c, x in zip(names, row)}


def secs(d):
    """A time of an index as seconds."""
    if isinstance(d, dt.datetime):
        return str((d - EPOCH) // dt.timedelta(seconds=1))
    return str(int(np.datetime64(d, "s").astype("int64")))


def table(ts):
    """A wide table (rows of metadata, columns of times) as a frame of the specification."""
    names = list(ts.index.names)
    idx = [i if isinstance(i, tuple) else (i,) for i in ts.index]
    vals = np.asarray(ts.values, dtype=float)
    return {"tps": [secs(t) for t in ts.columns], "cols": names,
            "rows": [{"m": meta_row(names, i), "v": [num(x) for x in v]} for i, v in zip(idx, vals)]}


def snapshot(f):
    """What the public interface shows of a frame."""
    try:
        meta = f.meta
        cols = list(meta.columns)
        metas = [meta_row(cols, r) for r in meta.itertuples(index=False, name=None)]
        if not metas:
            return {"tps": [], "cols": cols, "rows": [], "ok": len(f) == 0}
        tps = [str(int(t)) for t in np.asarray(f.time_points).astype("datetime64[s]").astype("int64")]
        if meta.duplicated().any():
            g = copy.deepcopy(f)
            g.set_meta(list(range(len(metas))), name=ROW)
            t = table(g.timeseries())
            for r in t["rows"]:
                del r["m"][ROW]
        else:
            t = table(f.timeseries())
        ok = (t["tps"] == tps and [r["m"] for r in t["rows"]] == metas and len(f) == len(metas)
              and [secs(d) for d in f["time"]] == tps)
        return {"tps": tps, "cols": cols, "rows": t["rows"], "ok": bool(ok)}
    except Exception as e:  # a frame in a state that cannot be looked at
        return {"tps": [], "cols": [], "rows": [], "ok": False, "why": repr(e)[:200]}


def view(s):
    return {k: s[k] for k in ("tps", "cols", "rows", "ok")}


MIDNIGHT = 86400


def is_year(t):
    d = moment(t)
    return (d.month, d.day, d.hour, d.minute, d.second) == (1, 1, 0, 0, 0)


def times_as(tps, how):
    """Times in one of the forms users write them in."""
    d = [moment(t) for t in tps]
    if how == "year":
        return [i.year for i in d]
    if how == "npyear":
        return np.array([i.year for i in d])
    if how == "yearstr":
        return [str(i.year) for i in d]
    if how == "datetime":
        return d
    if how == "dt64":
        return np.array([int(t) for t in tps], dtype="datetime64[s]")
    if how == "dt64D":
        return np.array([int(t) for t in tps], dtype="datetime64[s]").astype("datetime64[D]")
    return [text(i, how) for i in d]


def time_forms(tps, header=False):
    """Forms in which these times can be given."""
    d = [moment(t) for t in tps]
    f = ["datetime", "space", "iso", "datetime"]
    if all((i.hour, i.minute, i.second) == (0, 0, 0) for i in d):
        f += ["date", "us"]
        if not header:
            f.append("dt64D")
    if all(is_year(t) for t in tps):
        f += ["year", "year", "yearstr"]
        if not header:
            f.append("npyear")
    if not header:
        f.append("dt64")
    if any(i.year < 1000 for i in d):
        f = [x for x in f if x not in ("space", "iso", "date", "us", "yearstr")] or ["datetime"]
    return f


# ---- writing arguments ----------------------------------------------------
def regex(it):
    alts = ["".join({"*": ".*", "?": "."}.get(ch, re.escape(ch)) for ch in a["g"]) + ("$" if a["end"] else "")
            for a in it["alts"]]
    return "|".join(alts)


def item(it, c):
    if it["k"] == "s":
        return re.escape(it["x"]) + "$" if c.get("_escaped") else it["x"]
    if it["k"] == "r":
        return regex(it)
    x = fl(it["x"])
    return int(x) if x == int(x) and not it.get("_float") else x


def time_item(k, it):
    if it["k"] == "name":
        return it["a"]
    if it["k"] == "range":
        return "%s-%s" % (it["a"], it["b"])
    if it["k"] == "wrong":
        return "2010" if k == "year" else 2010
    return moment(it["x"]) if k == "time" else it["x"]


def filter_kwargs(c):
    """The keyword arguments of a filter."""
    kw = {}
    for q in c["conds"]:
        xs = [item(i, c) for i in q["items"]]
        kw[q["c"]] = xs[0] if len(xs) == 1 and not q.get("_list") else xs
    for q in c["times"]:
        xs = [time_item(q["k"], i) for i in q["items"]]
        if q.get("_np") and q["k"] == "time":
            xs = [np.datetime64(x, "s") for x in xs]
        kw["day" if q["k"] == "weekday" else q["k"]] = xs[0] if len(xs) == 1 and not q.get("_list") else xs
    if c["lvl"]:
        v = c["lvl"][0]
        kw["level"] = {"exact": v["n"], "max": "%d-" % v["n"], "min": "%d+" % v["n"], "bad": v.get("_text")}[v["k"]]
    if c.get("_order"):
        kw = {k: kw[k] for k in sorted(kw, reverse=True)}
    if not c["keep"] or c.get("_keep"):
        kw["keep"] = c["keep"]
    if not c["hasnan"] or c.get("_hasnan"):
        kw["has_nan"] = c["hasnan"]
    if c.get("_regexp"):
        kw["regexp"] = True
    return kw


def same(a, b):
    """Are arguments still as they were?"""
    if isinstance(a, (pd.DataFrame, pd.Series)):
        try:
            (pd.testing.assert_frame_equal if isinstance(a, pd.DataFrame) else pd.testing.assert_series_equal)(a, b)
            return list(a.index.names) == list(b.index.names)
        except AssertionError:
            return False
    if isinstance(a, pd.Index):
        return a.equals(b) and list(a.names) == list(b.names)
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and bool(np.all((a == b) | ((a != a) & (b != b))))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, float) and a != a:
        return b != b
    return type(a) is type(b) and bool(a == b)


class Bench:
    def __init__(self, units):
        self.units = units
        self.frames = []
        self.snaps = []

    # ---- running a command, observing what happened ----
    def run(self, c):
        e = strip(c)
        self.res = None
        self.out = {"new": [], "twin": [], "intact": True, "warned": False}
        self.args, self.after = None, []
        with warnings.catch_warnings(record=True) as w:
            warnings.simplefilter("always")
            err, res = attempt(lambda: getattr(self, "do_" + c["op"])(c))
            self.out["warned"] = any("uplicate" in str(x.message) or "returning" in str(x.message) for x in w)
        e["err"] = err
        if self.args is not None:
            self.out["intact"] = all(same(a, b) for a, b in self.args)
        for fn in self.after:   # the owner of the arguments goes on using them
            attempt(fn)
        out = self.out
        if res is not None and err == "" and isinstance(res, ScmDataFrame):
            s = snapshot(res)
            out["new"] = [view(s)]
            if s["rows"] and c["op"] not in ("append",):
                pass
            self.frames.append(res)
            self.snaps.append(s)
        n = len(self.frames) - len(out["new"])
        ch = []
        for i in range(n):
            s = snapshot(self.frames[i])
            if s != self.snaps[i]:
                ch.append({"i": i + 1, "s": view(s)})
                self.snaps[i] = s
        out["ch"] = ch
        e.update(out)
        return e

    def frame(self, c):
        return self.frames[c["f"] - 1]

    def guard(self, *xs):
        """Remember arguments to see whether they get modified."""
        self.args = [(x, copy.deepcopy(x)) for x in xs]

    def twin(self, c, fn):
        """For an in-place operation: what the other form gives."""
        if c["inplace"] and c.get("_twin"):
            err, res = attempt(lambda: fn(self.frame(c), False))
            if err == "" and res is not None:
                self.out["twin"] = [view(snapshot(res))]

    def both(self, c, fn):
        self.twin(c, fn)
        r = fn(self.frame(c), c["inplace"])
        if c["inplace"] and r is not None:
            raise AssertionError("in-place operation returned something")
        return r

    # ---- construction ----
    def do_new(self, c):
        build = getattr(self, "build_" + c["_form"])
        return build(c)

    def metas(self, c):
        rows = c["rows"]
        return {k: [uncell(r["m"][k], c.get("_none")) for r in rows] for k in c["cols"]}

    def values(self, c):
        return np.array([[fl(x) for x in r["v"]] for r in c["rows"]], dtype=float).reshape(len(c["rows"]), len(c["tps"]))

    def build_columns(self, c):
        cols = self.metas(c)
        if c.get("_short"):
            for k, v in cols.items():
                if len(set(map(cell, v))) == 1:
                    cols[k] = v[0] if c["_short"] == "scalar" else v[:1]
        if c["bad"] and c["_bad"] == "col":
            del cols["scenario"]
        if c["bad"] and c["_bad"] == "length":
            cols["model"] = ["a", "b"] + ["c"] * len(c["rows"])
        vals = self.values(c).T
        times = times_as(c["tps"], c["_time"])
        if c["_data"] == "list":
            data, index = vals.tolist(), times
        elif c["_data"] == "array":
            data, index = vals.copy(), times
        elif c["_data"] == "series":
            data, index = pd.Series(vals[:, 0], index=times), None
        elif c["_data"] == "frame":
            data, index = pd.DataFrame(vals, index=times), None
        elif c["_data"] == "frameindex":
            data, index = pd.DataFrame(vals), times
        if vals.shape[1] == 1 and c["_data"] == "array" and c.get("_flat"):
            data = vals[:, 0].copy()
        # a data frame given as data may get its index named: allowed to be seen by nobody else
        data0 = data
        self.guard(data0, cols, index)
        r = ScmDataFrame(data, index=index, columns=cols) if index is not None else ScmDataFrame(data, columns=cols)

        def spoil():
            if isinstance(data0, np.ndarray):
                data0[...] = 777.0
            elif isinstance(data0, (pd.DataFrame, pd.Series)):
                data0.iloc[...] = 777.0 if isinstance(data0, pd.Series) else 777.0
        self.after.append(spoil)
        self.after.append(lambda: [v.append("spoilt") for v in cols.values() if isinstance(v, list)])
        return r

    def wide(self, c):
        cols = self.metas(c)
        d = pd.DataFrame({k: pd.Series(v, dtype=object if any(isinstance(x, str) or x is None for x in v) else None)
                          for k, v in cols.items()}, columns=list(c["cols"]))
        vals = self.values(c)
        names = list(times_as(c["tps"], c["_time"]))
        for j, t in enumerate(names):
            d[t] = vals[:, j]
        if c.get("_upper"):
            d = d.rename(columns={k: k.capitalize() if c["_upper"] == 1 else k.upper() for k in c["cols"]})
        order = list(d.columns)
        p = c["_perm"]
        order = [x for _, x in sorted(zip([(i * 7919 + p) % 101 for i in range(len(order))], order), key=lambda x: x[0])]
        d = d[order]
        if p % 2:
            d = d.iloc[::-1]
        return d

    def build_wide(self, c):
        d = self.wide(c)
        low = {str(x).lower(): x for x in d.columns if isinstance(x, str)}
        if c["bad"] and c["_bad"] == "col":
            d = d.drop(columns=[low["scenario"]])
        if c["bad"] and c["_bad"] == "notime":
            d = d[[low[k] for k in c["cols"]]]
        if c.get("_index"):
            names = [low[k] for k in c["cols"] if low[k] in d.columns][:c["_index"]]
            d = d.set_index(names)
        elif c.get("_reset"):
            d = d.reset_index(drop=True)
        self.guard(d)
        r = ScmDataFrame(d)
        self.after.append(lambda: d.iloc.__setitem__((slice(None), slice(None)), 777))
        return r

    def long(self, c):
        d = self.wide(dict(c, _upper=0, _perm=0, _time="datetime"))
        cols = list(c["cols"])
        rows = []
        times = list(times_as(c["tps"], c["_time"]))
        name = "year" if c["_time"] in ("year", "npyear") else "time"
        for i, r in enumerate(c["rows"]):
            for j, t in enumerate(times):
                v = fl(r["v"][j])
                if v == v or c.get("_nanrows"):
                    rows.append([uncell(r["m"][k], c.get("_none")) for k in cols] + [t, v])
        del d
        d = pd.DataFrame(rows, columns=cols + [name, "value"])
        p = c["_perm"]
        if p % 3:
            d = d.sample(frac=1, random_state=p)
            if p % 3 == 1:
                d = d.reset_index(drop=True)
        if p % 2:
            d = d[list(d.columns)[::-1]]
        if c.get("_upper"):
            d = d.rename(columns={k: k.capitalize() for k in d.columns})
        if c["bad"]:
            if c["_bad"] == "both":
                d["year" if name == "time" else "time"] = 2010
            if c["_bad"] == "neither":
                d = d.drop(columns=[x for x in d.columns if x.lower() == name])
            if c["_bad"] == "col":
                d = d.drop(columns=[x for x in d.columns if x.lower() == "unit"])
        return d, name

    def build_long(self, c):
        d, name = self.long(c)
        if c.get("_series"):
            d.columns = [x.lower() for x in d.columns]
            d = d.set_index([x for x in d.columns if x != "value"])["value"]
        self.guard(d)
        return ScmDataFrame(d)

    def scratch(self):
        return tempfile.mkdtemp(prefix="frame", dir=os.environ.get("VERIF_SCRATCH"))

    def build_csv(self, c):
        tmp = self.scratch()
        try:
            path = os.path.join(tmp, "data.csv")
            if c["bad"] and c["_bad"] == "nofile":
                return ScmDataFrame(path)
            if c["bad"] and c["_bad"] == "files":
                return ScmDataFrame([path, path])
            if c["bad"] and c["_bad"] == "type":
                return ScmDataFrame({"a": 1})
            d = self.long(c)[0] if c["_long"] else self.wide(c)
            d.to_csv(path, index=False)
            return ScmDataFrame(path)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    # ---- operations ----
    def do_filter(self, c):
        kw = filter_kwargs(c)
        self.guard(kw)
        return self.both(c, lambda f, inplace: f.filter(inplace=inplace, **kw))

    def do_rename(self, c):
        mapping = {m["c"]: {uncell(a): uncell(b) for a, b in m["pairs"]} for m in c["mapping"]}
        self.guard(mapping)
        return self.both(c, lambda f, inplace: f.rename(mapping, inplace=inplace))

    def do_setmeta(self, c):
        f = self.frame(c)
        cells = [uncell(x, c.get("_none")) for x in c["cells"]]
        name, how = c["name"] or None, c["_how"]
        if c["mode"] == "all":
            if how == "item":
                f[name] = cells[0]
            else:
                f.set_meta(cells[0], name=name)
            return None
        if c["mode"] == "list":
            v = {"list": cells, "array": np.array(cells, dtype=object), "item": cells, "index": cells,
                 "series": cells}[how]
            self.guard(v)
            if how == "item":
                f[name] = v
            elif how == "index":
                f.set_meta(v, name=name, index=f.meta.index)
            elif how == "series":
                f.set_meta(pd.Series(v, index=f.meta.index, name=name))
            else:
                f.set_meta(v, name=name)
            return None
        if c["mode"] == "rows":
            labels = f.meta.index[[i - 1 for i in c["at"]]]
            s = pd.Series(cells, index=labels, name=name)
            self.guard(s)
            if how == "series":
                f.set_meta(s)
            else:
                f.set_meta(cells, name=name, index=labels)
            return None
        if c["mode"] == "badindex":
            f.set_meta(cells, name=name, index=[1, 2])
            return None
        cols = list(c["keys"][0])
        idx = pd.MultiIndex.from_tuples([tuple(uncell(k[x]) for x in cols) for k in c["keys"]], names=cols)
        if how == "series":
            s = pd.Series(cells, index=idx, name=name)
            self.guard(s)
            f.set_meta(s, name=None if c.get("_named") else name)
        elif how == "frame":
            d = idx.to_frame(index=False)
            d["something else"] = 1
            self.guard(d)
            f.set_meta(cells, name=name, index=d)
        else:
            self.guard(cells, idx)
            f.set_meta(cells, name=name, index=idx)
        return None

    def do_settime(self, c):
        v = times_as(c["tps"], c["_time"])
        if c.get("_series") and all(1700 < moment(t).year < 2250 for t in c["tps"]):
            v = pd.Series(v)
        self.guard(v)
        self.frame(c)["time"] = v
        return None

    def do_append(self, c):
        fs = [self.frames[i - 1] for i in c["fs"]]
        pol = {"bad": "something", "False": False}.get(c["policy"], c["policy"])
        kw = {} if c["policy"] == "warn" and c.get("_default") else {"duplicate_msg": pol}
        objs = list(fs)
        for k, how in (c.get("_raw") or {}).items():
            k = int(k)
            if c["inplace"] and k == 0:
                continue
            objs[k] = {"ts": lambda f: f.timeseries(), "reset": lambda f: f.timeseries().reset_index()}[how](objs[k])
        self.guard(*[o for o in objs if not isinstance(o, ScmDataFrame)])

        def fn(first, inplace):
            if len(objs) == 2 and c.get("_method") and isinstance(objs[0], ScmDataFrame):
                return first.append(objs[1], inplace=inplace, **kw)
            return df_append([first if i == 0 else o for i, o in enumerate(objs)], inplace=inplace, **kw)
        first = fs[0] if c["inplace"] else objs[0]
        if c["inplace"] and c.get("_twin") and c["policy"] != "return":
            err, r = attempt(lambda: fn(first, False))
            if err == "" and r is not None:
                self.out["twin"] = [view(snapshot(r))]
        r = fn(first, c["inplace"])
        self.out["r"] = {"tps": [], "cols": [], "rows": []}
        if isinstance(r, pd.DataFrame):
            self.out["r"] = table(r.sort_index(axis=1))
            return None
        if r is not None and not isinstance(r, ScmDataFrame):
            r = ScmDataFrame(r)     # of the base class
        return r

    def do_convert(self, c):
        kw = filter_kwargs(c)
        if c["ctx"]:
            kw["context"] = c["ctx"]
        self.guard(kw)
        return self.both(c, lambda f, inplace: f.convert_unit(c["u"]["s"], inplace=inplace, **kw))

    def target(self, c, tps):
        return times_as(tps, c["_time"])

    def do_interpolate(self, c):
        f = self.frame(c)
        t = times_as(c["tps"], c["_time"])
        if c.get("_tuple"):
            t = tuple(t)
        kw = {} if c["ext"] == "constant" and c.get("_default") else {"extrapolation_type": c["ext"]}
        self.guard(t)
        return f.interpolate(t, **kw)

    def do_resample(self, c):
        kw = {} if c["ext"] == "constant" and c.get("_default") else {"extrapolation_type": c["ext"]}
        r = rule_text(dict({"bad": False}, **c["rule"]))
        f = self.frame(c)
        return f.resample(**kw) if r == "AS" and c.get("_default") else f.resample(r, **kw)

    def do_export(self, c):
        f, how = self.frame(c), c["_how"]
        if how == "copy":
            return f.copy()
        if how == "deepcopy":
            return copy.deepcopy(f)
        if how == "init":
            return ScmDataFrame(f)
        if how == "wide":
            return ScmDataFrame(f.timeseries())
        if how == "widereset":
            return ScmDataFrame(f.timeseries().reset_index())
        if how == "long":
            d = f.timeseries().reset_index().melt(id_vars=list(f.meta.columns), var_name="time")
            return ScmDataFrame(d)
        if how == "columns":
            ts = f.timeseries()
            return ScmDataFrame(ts.values.T, index=f.time_points,
                                columns={k: list(f.meta[k]) for k in f.meta.columns})
        if how == "iam":
            return ScmDataFrame(f.to_iamdataframe())
        tmp = self.scratch()
        try:
            path = os.path.join(tmp, "data.csv")
            if how == "csv":
                f.to_csv(path)
            else:
                f.timeseries().reset_index().to_csv(path, index=False)
            return ScmDataFrame(path)
        finally:
            shutil.rmtree(tmp, ignore_errors=True)

    def do_process(self, c):
        f = self.frame(c)
        kw = {"q": fl(c["q"])} if c["how"] == "quantile" else {}
        cols = c["cols"][0] if len(c["cols"]) == 1 and c.get("_single") else list(c["cols"])
        self.guard(cols)
        self.out["r"] = {"tps": [], "cols": [], "rows": []}
        r = f.process_over(cols, c["how"], **kw)
        self.out["r"] = table(r)

    def do_ref(self, c):
        f = self.frame(c)
        kw = filter_kwargs(c)
        self.guard(*kw.values())
        self.out["r"] = {"tps": [], "cols": [], "rows": []}
        if not c.get("_auto"):
            kw["append_str"] = c["suffix"]
        self.out["r"] = table(f.relative_to_ref_period_mean(**kw))

    def do_ps(self, c):
        f = self.frame(c)
        ps = ParameterSet() if c.get("_given") else None
        r = f.to_parameterset() if ps is None else f.to_parameterset(ps)
        if ps is not None and r is not ps:
            raise AssertionError("not the given parameter set")
        t = times_as(c["tps"], "dt64" if c["_time"] == "dt64" else "datetime")
        g = convert_openscm_to_scmdataframe(r, t)
        rows = [(uncell(x["m"]["variable"]), uncell(x["m"]["region"])) for x in self.snaps[c["f"] - 1]["rows"]]
        self.after.append(lambda: self.scribble(r, rows, f.time_points))
        return g

    @staticmethod
    def scribble(ps, rows, tps):
        """The parameter set is used further, the frames are none of its business."""
        longer = np.append(tps, tps[-1] + (tps[-1] - tps[-2])) if len(tps) > 1 else tps
        for var, reg in rows:
            name, reg = tuple(var.split("|")), tuple(reg.split("|"))
            i = ps.info(name, region=reg)
            avg = i.parameter_type == ParameterType.AVERAGE_TIMESERIES
            v = ps.timeseries(name, i.unit, longer if avg else tps, region=reg, timeseries_type=i.parameter_type)
            x = v.values
            x[:] = 777.0
            v.values = x

    def do_fromset(self, c):
        """A parameter set made by hand, as a frame."""
        ps = ParameterSet()
        flat = (lambda x: x[0] if len(x) == 1 else tuple(x)) if c.get("_spell") else tuple
        later = []
        for p in c["pars"]:
            name, reg, unit = flat(p["name"]), flat(p["reg"]), p["unit"]["s"]
            if p["kind"] == "generic":
                v = ps.generic(name, region=reg)
            elif p["kind"] == "scalar":
                v = ps.scalar(name, unit, region=reg)
            else:
                kw = {"region": reg, "timeseries_type": p["kind"], "extrapolation": p["ext"]}
                t = times_as(p["tps"], "dt64")
                v = ps.timeseries(name, unit, t, **kw)
                if p["wunit"]["s"] != unit:
                    v = ps.timeseries(name, p["wunit"]["s"], t, **kw)
            if not p["has"]:
                continue
            x = uncell(p["cell"]) if p["kind"] in ("generic", "scalar") else np.array([fl(y) for y in p["v"]])
            if c.get("_late"):
                later.append((v, x))
            elif isinstance(x, np.ndarray):
                v.values = x
            else:
                v.value = x
        for v, x in later:
            if isinstance(x, np.ndarray):
                v.values = x
            else:
                v.value = x
        t = times_as(c["tps"], "dt64" if c["_time"] == "dt64" else "datetime")
        cm, m, sc = c["args"]
        kw = {}
        for k, x in (("climate_model", cm), ("model", m), ("scenario", sc)):
            if x != "unspecified" or c.get("_args"):
                kw[k] = x
        g = convert_openscm_to_scmdataframe(ps, t, **kw)
        if c.get("_late"):
            rows = [("|".join(p["name"]), "|".join(p["reg"])) for p in c["pars"] if p["has"] and p["v"]]
            self.after.append(lambda: self.scribble(ps, rows, np.array(t, dtype="datetime64[s]")))
        return g

    def do_params(self, c):
        f = self.frame(c)
        s = self.snaps[c["f"] - 1]
        self.out["r"], self.out["meta"] = [], []
        ps = f.to_parameterset()
        tps = f.time_points
        if len(tps) > 1:
            longer = np.append(tps, tps[-1] + (tps[-1] - tps[-2]))
        for row in s["rows"]:
            m = {k: uncell(x) for k, x in row["m"].items()}
            var = tuple(m["variable"].split("|"))
            reg = tuple(m["region"].split("|"))
            i = ps.info(var, region=reg)
            avg = i.parameter_type == ParameterType.AVERAGE_TIMESERIES
            v = ps.timeseries(var, i.unit, longer if avg else tps, region=reg, timeseries_type=i.parameter_type)
            self.out["r"].append({"type": "average" if avg else "point", "unit": i.unit,
                                  "v": [num(x) for x in v.values]})
        for k, x in s["rows"][0]["m"].items():
            if k in ("variable", "region", "unit", "parameter_type"):
                continue
            if scalar_of(k):
                got = ps.scalar(*scalar_of(k)).value
            else:
                got = ps.generic(k).value
            self.out["meta"].append({"c": k, "cell": cell(got)})

    # ---- views ----
    def do_get(self, c):
        f = self.frame(c)
        self.out["r"] = []
        keys = c["keys"]
        r = f[keys[0]] if c["single"] else f[list(keys)]
        if c["single"]:
            if keys[0] == "time":
                self.out["r"] = [[secs(t) for t in r]]
            elif keys[0] == "year":
                self.out["r"] = [[str(int(y)) for y in r]]
            else:
                self.out["r"] = [[cell(x) for x in r]]
        else:
            self.out["r"] = [[cell(x) for x in r[k]] for k in keys]

    def do_look(self, c):
        f = self.frame(c)
        self.out["len"] = len(f)
        self.out["r"] = {"tps": [], "cols": [], "rows": []}
        how = c["how"]
        if how == "head":
            r = f.head(c["n"])
        elif how == "tail":
            r = f.tail(c["n"])
        elif how == "subset":
            r = f.timeseries(list(c["cols"]))
        elif how == "values":
            r = f.timeseries()
            r = pd.DataFrame(f.values, index=r.index, columns=r.columns)
        else:
            r = f.timeseries()
        self.out["r"] = table(r)

    def do_poke(self, c):
        f, how = self.frame(c), c["_how"]
        if how == "meta":
            m = f.meta
            m.iloc[:, :] = "poked"
            m["new column"] = 1
        elif how == "item":
            s = f["region"]
            s.iloc[:] = "poked"
        elif how == "items":
            s = f[["region", "unit"]]
            s.iloc[:, :] = "poked"
        elif how == "timeseries":
            t = f.timeseries()
            t.iloc[:, :] = 777.0
        elif how == "values":
            v = f.values
            v[...] = 777.0
        elif how == "time":
            t = f["time"]
            t.iloc[:] = dt.datetime(1066, 1, 1)
        elif how == "iam":
            t = f.to_iamdataframe()
            t.data.iloc[:, -1] = 777.0

    def do_guess(self, c):
        self.out["r"] = ""
        r = guess_parameter_type(c["variable"], c["unit"] if c["unit"] or not c.get("_none") else None)
        self.out["r"] = "average" if r == ParameterType.AVERAGE_TIMESERIES else "point"


# ---- random scripts -------------------------------------------------------
TEXTS = {
    "model": ["MESSAGE", "MESSAGE V.4", "mod a", "mod b", "mod+a", "IMAGE (x)", "a.b", "a_b", "[IMAGE]"],
    "scenario": ["rcp26", "rcp2.6", "rcp45", "SSP1-26", "SSP1", "scen", "scen 2", "Rcp26"],
    "region": ["World", "World|Europe", "World|Europe|West", "World|Asia", "Europe", "World|Other (x)"],
    "climate_model": ["unspecified", "MAGICC 6", "MAGICC", "FaIR+", "x|y"],
    "note": ["", "n/a!", "5%", "some note", "some note|x", "^x$", "a*b", "\\d", "some note\n", "two\nlines"],
}
VARIABLES = ["Primary Energy", "Primary Energy|Coal", "Primary Energy|Coal|Coal", "Primary Energy|Gas",
             "Emissions|CO2", "Emissions|CO2|MAGICC AFOLU", "Emissions|CO2|MAGICC AFOLU|Emissions", "Emissions|CH4",
             "Surface Temperature", "Radiative Forcing", "Radiative Forcing|CO2", "CO2_RF", "CH4_CONC", "Ocean Flux",
             "TOTAL_EFFRF", "xEmissions", "SOX_PEFFRF", "A_SRF|b", "N2O_EMIS", "X_GWPEMIS|y", "HEATUPTAKE_EBALANCE_TOTAL2",
             "heatuptake", "Atmospheric Concentrations|CO2", "Primary Energy (EJ)", "x*y", "Emission", "FluxX|y",
             "a HEATUPTAKE_EBALANCE_TOTAL", "Effective Radiative Forcing", "X_RFx", "Some|Radiative Forcing", "Coal"]
YEARSETS = [[2000, 2001, 2002], [2005, 2010, 2015, 2020], [1750, 1765, 1850, 1900], [2005, 2010], [2010],
            [2000, 2001, 2003, 2010, 2100], [1500, 1600, 2500], [2004, 2008, 2012], [1, 500, 1200, 9000]]
MONTHS = "January February March April May June July August September October November December".split()
WEEK = "Monday Tuesday Wednesday Thursday Friday Saturday Sunday".split()


def instant(y, m=1, d=1, h=0, s=0):
    return str((dt.datetime(y, m, d, h) - EPOCH) // dt.timedelta(seconds=1) + s)


def some_times(r, least=1, most=6):
    for _ in range(50):
        k = r.random()
        if k < 0.45:
            t = [instant(y) for y in r.choice(YEARSETS)]
        elif k < 0.65:
            y, m = r.randint(1900, 2100), r.randint(1, 12)
            t = [instant(y + (m + i - 1) // 12, (m + i - 1) % 12 + 1, r.choice([1, 1, 15, 28])) for i in range(r.randint(1, 6))]
        elif k < 0.8:
            d = dt.datetime(r.randint(1850, 2150), r.randint(1, 12), r.randint(1, 28), r.choice([0, 0, 6, 23]))
            step = r.choice([dt.timedelta(hours=6), dt.timedelta(days=1), dt.timedelta(days=7), dt.timedelta(hours=5, minutes=1)])
            t = [secs(d + i * step) for i in range(r.randint(2, 6))]
        else:
            ys = sorted(r.sample(range(1990, 2030), r.randint(1, 5)))
            t = [instant(y, r.randint(1, 12), r.randint(1, 28), r.choice([0, 12]), r.choice([0, 0, 59])) for y in ys]
        if least <= len(t) <= most:
            return t
    return [instant(y) for y in (2000, 2010, 2020)]


def a_value(r):
    k = r.random()
    if k < 0.3:
        return float(r.randint(-20, 20))
    if k < 0.6:
        return r.randint(-4000, 4000) / 8
    if k < 0.8:
        return round(r.uniform(-10, 10), r.randint(1, 6))
    if k < 0.95:
        return r.uniform(0, 1) * 10 ** r.randint(-8, 12)
    return r.choice([0.0, 1e-30, 3e20, -999.0, 1 / 3])


SCALARS = {   # columns which hold scalar parameters: their names and units
    "sensitivity (K)": ("sensitivity", "K"), "feedback (W / (m ** 2))": ("feedback", "W / (m ** 2)"),
    "lambda (W/m^2/delta_degC)": ("lambda", "W/m^2/delta_degC"), "mass (dry) (kg)": ("mass (dry)", "kg"),
    "uptake (deep) (GtC/(yr*(m*m)))": ("uptake (deep)", "GtC/(yr*(m*m))"), "fraction (dimensionless)": ("fraction", "dimensionless"),
    "step (yr)": ("step", "yr"), "pool|deep (GtC)": (("pool", "deep"), "GtC"),
}


def scalar_of(column):
    """Name and unit of the scalar parameter in a metadata column."""
    for i, ch in enumerate(column):
        if ch == "(" and column.endswith(")") and i > 0:
            inner = column[i + 1:-1]
            depth, least = 0, 0
            for x in inner:
                depth += (x == "(") - (x == ")")
                least = min(least, depth)
            if depth == 0 and least == 0:
                return tuple(column[:i].strip().split("|")), inner.strip()
    return None


class Gen:
    def __init__(self, r, profile):
        self.r, self.p = r, profile
        self.units = {"W": [["", "W", 1]]}
        fams = [units_gen.family(r) for _ in range(r.choice([1, 1, 2, 3]))]
        self.fams = fams
        self.texts = {}
        for k in TEXTS:
            self.texts[k] = r.sample(TEXTS[k], r.choice([1, 2, 2, 3]))
        self.texts["variable"] = r.sample(VARIABLES, r.randint(2, 5))
        if profile == "C23":
            self.texts["region"] = [x for x in TEXTS["region"] if x.startswith("World")]
            if r.random() < 0.85:
                self.texts["climate_model"] = ["unspecified"]
        self.texts["unit"] = [self.unit() for _ in range(r.choice([1, 2, 3]))]
        self.times = some_times(r, 3 if profile in ("C21", "C23") else 1)
        self.big = r.random() < 0.03
        if self.big:     # many rows and times, few operations
            y, k = r.randint(1900, 2050), 12 if profile in ("C21", "C23", "C19") else 40
            self.times = r.choice([[instant(y + i // 12, i % 12 + 1) for i in range(k)], [instant(y + i) for i in range(k)]])
            self.texts["variable"] = r.sample(VARIABLES, len(VARIABLES))
        self.scen = self.extras()
        self.b = Bench(self.units)
        self.cmds, self.ev = [], []

    def unit(self, fam=None):
        u = units_gen.in_family(self.r, fam or self.r.choice(self.fams))
        if self.p in ("C21", "C23") and self.r.random() < 0.15:
            return self.r.choice(["bogus unit", "", "W", "nonsense"])
        if u["s"].strip() == "":
            u = {"s": "dimensionless", "f": []}
        self.units[u["s"]] = u["f"]
        return u["s"]

    def extras(self):
        r = self.r
        ks = [k for k in ("climate_model", "note", "ensemble", "run id") if r.random() < 0.3]
        if r.random() < (0.4 if self.p in ("C21", "C23") else 0.1):
            ks.append("parameter_type")
        if self.p == "C23":
            ks = [k for k in ks if k != "run id"] + (r.sample(list(SCALARS), r.choice([1, 1, 2])) if r.random() < 0.4 else [])
            ks += [r.choice(["a (b) c", "note (old) 2", "x (y", ")("])] if r.random() < 0.15 else []
        return ks

    def a_cell(self, c, gaps=True):
        r = self.r
        if c in ("ensemble", "run id"):
            x = r.choice([0, 1, 2, 3, -999, -1000, 0.5, 2.25, 1000])
            return "nan" if gaps and r.random() < 0.12 else "n:" + num(x)
        if c in SCALARS:
            return "n:" + num(r.choice([3, 2.5, 0.1]))
        if c == "parameter_type":
            return r.choice(["s:point", "s:average"] + (["nan"] if gaps else []) + (["s:bogus"] if r.random() < 0.1 else []))
        if c == "note" and gaps and r.random() < 0.3:
            return "nan"
        if c == "climate_model" and gaps and r.random() < 0.08:
            return "nan"
        return "s:" + r.choice(self.texts.get(c, ["a", "b"]))

    def rows(self, cols, n, ntimes, gaps, nans, distinct=True):
        r, rows, seen = self.r, [], set()
        one = {c: self.a_cell(c, gaps) for c in cols}
        for _ in range(n * 4):
            if len(rows) == n:
                break
            m = dict(one)
            for c in cols:
                if self.p == "C23" and c not in ("variable", "region", "unit", "parameter_type"):
                    continue
                if r.random() < (0.7 if c in ("variable", "unit") else 0.45):
                    m[c] = self.a_cell(c, gaps)
            key = tuple(sorted(m.items()))
            if distinct and key in seen:
                continue
            seen.add(key)
            rows.append({"m": m, "v": [num(float("nan") if nans and r.random() < 0.2 else a_value(r)) for _ in range(ntimes)]})
        return rows

    # ---- commands ----
    def do(self, c):
        self.cmds.append(c)
        e = self.b.run(c)
        self.ev.append(e)
        return e

    def alive(self, rows=1):
        return [i + 1 for i, s in enumerate(self.b.snaps) if s["ok"] and len(s["rows"]) >= rows]

    def pick(self, **kw):
        a = self.alive(**kw)
        return self.r.choice(a) if a else None

    def snap(self, i):
        return self.b.snaps[i - 1]

    def dup(self, i):
        ms = [tuple(sorted(x["m"].items())) for x in self.snap(i)["rows"]]
        return len(set(ms)) < len(ms)

    def gappy(self, i):
        return any("nan" in x["v"] for x in self.snap(i)["rows"])

    def gen_new(self):
        r = self.r
        nans = r.random() < (0 if self.p in ("C21", "C23") else 0.35)
        form = r.choice(["columns", "columns", "wide", "wide", "long", "csv"] if self.p == "C22" else
                        ["columns", "columns", "columns", "wide", "long"])
        gaps = r.random() < (0 if self.p == "C23" else 0.5)
        cols = REQUIRED + (self.scen if r.random() < 0.7 else self.extras())
        cols = list(dict.fromkeys(cols))
        if r.random() < 0.5:
            tps = self.times
        elif r.random() < 0.5 and len(self.times) > 2:
            k = r.randint(0, len(self.times) - 2)
            tps = self.times[k:]
        else:
            tps = some_times(r)
        if self.p in ("C21", "C23") and len(tps) < 3 and r.random() < 0.9:
            tps = self.times
        n = r.choice([1, 2, 2, 3, 3, 4, 5, 6]) if not self.big else r.choice([3, 8] if self.p in ("C21", "C23", "C19") else [3, 12, 24])
        rows = self.rows(cols, n, len(tps), gaps, nans, distinct=r.random() < 0.95)
        if any(k != k.lower() for k in cols):
            form = "columns"
        c = {"op": "new", "f": 0, "inplace": False, "bad": "", "cols": cols, "tps": tps, "rows": rows, "_form": form,
             "_none": r.random() < 0.3, "_perm": r.randint(0, 50)}
        ms = [tuple(sorted(x["m"].items())) for x in rows]
        uniq = len(set(ms)) == len(ms)
        holes = any(all(x["v"][j] == "nan" for x in rows) for j in range(len(tps))) or any(
            all(v == "nan" for v in x["v"]) for x in rows)
        if form in ("long", "csv") and (not uniq or holes):
            form = c["_form"] = "wide" if form == "long" or not uniq else form
            if not uniq:
                form = c["_form"] = "columns"
        bad = r.random() < 0.1 and self.p in ("C22", "C19")
        if form == "columns":
            c["_time"] = r.choice(time_forms(tps))
            c["_data"] = r.choice(["list", "array", "array", "frame", "frameindex"] + (["series"] * 2 if len(rows) == 1 else []))
            if c["_data"] in ("series", "frame") and c["_time"] in ("dt64", "dt64D"):
                c["_time"] = "datetime"
            c["_short"] = r.choice(["", "list", "scalar"])
            c["_flat"] = r.random() < 0.5
            if bad:
                c["bad"], c["_bad"] = "ValueError", r.choice(["col", "length"])
        elif form == "wide":
            c["_time"] = r.choice(time_forms(tps, header=True))
            c["_upper"] = r.choice([0, 0, 1, 2])
            c["_index"] = 0 if c["_upper"] else r.choice([0, 0, 2, len(cols)])
            c["_reset"] = r.random() < 0.5
            if not uniq:
                c["_index"] = 0
            if bad:
                c["bad"], c["_bad"] = "ValueError", r.choice(["col", "notime"])
                if c["_bad"] == "notime":
                    c["_index"] = 0
        elif form == "long":
            c["_time"] = r.choice(time_forms(tps))
            c["_upper"] = r.choice([0, 0, 1])
            c["_nanrows"] = r.random() < 0.3
            c["_series"] = r.random() < 0.2
            if bad:
                c["bad"], c["_bad"] = "ValueError", r.choice(["both", "neither", "col"])
                c["_series"] = False
        else:
            c["_long"] = not holes and r.random() < 0.5
            c["_time"] = r.choice(time_forms(tps, header=True))
            c["_upper"] = r.choice([0, 0, 1])
            c["_nanrows"] = False
            self.plain(c)
            if bad:
                c["_bad"] = r.choice(["nofile", "files", "type"])
                c["bad"] = {"nofile": "OSError", "files": "ValueError", "type": "TypeError"}[c["_bad"]]
        self.fix_times(c)
        return c

    def fix_times(self, c):
        """Tables indexed by text or pandas' own times lose what they cannot say."""
        if c["_form"] == "long" and c["_time"] in ("dt64", "dt64D", "npyear"):
            c["_time"] = "datetime"

    def plain(self, c):
        """Cells that survive being written to text."""
        for x in c["rows"]:
            for k, v in x["m"].items():
                if v == "s:":
                    x["m"][k] = "s:some text"
        ms = [tuple(sorted(x["m"].items())) for x in c["rows"]]
        if len(set(ms)) < len(ms):
            c["_form"], c["_data"], c["_short"] = "columns", "array", ""
            c["_time"] = "datetime"

    def an_item(self, f, col):
        """An item of a filter on a column."""
        r = self.r
        s = self.snap(f)
        vals = [x["m"][col] for x in s["rows"]]
        if any(v.startswith("n:") for v in vals) and r.random() < 0.9:
            x = r.choice([v for v in vals if v.startswith("n:")])[2:]
            if r.random() < 0.2:
                x = r.choice(["0", "1", "7", "1/2"])
            return {"k": "n", "x": x, "_float": r.random() < 0.4}
        if r.random() < 0.03:
            return {"k": "n", "x": r.choice(["0", "1", "3"])}
        v = r.choice([v for v in vals if v.startswith("s:")] or ["s:"])[2:]
        k = r.random()
        if k < 0.35:
            t = v
        elif k < 0.5:
            i = r.randint(0, len(v))
            t = v[:i] + "*"
        elif k < 0.6:
            i = r.randint(0, len(v))
            t = "*" + v[i:]
        elif k < 0.72:
            i, j = sorted([r.randint(0, len(v)), r.randint(0, len(v))])
            t = v[:i] + "*" + v[j:]
        elif k < 0.8:
            i, j = sorted([r.randint(0, len(v)), r.randint(0, len(v))])
            t = "*" + v[i:j] + "*"
        elif k < 0.88:
            t = v[:r.randint(0, len(v))] + r.choice(["", "x"])
        elif k < 0.92:
            t = r.choice(["*", "", "**", "?", "."])
        else:
            t = r.choice(TEXTS.get(col, VARIABLES))
        return {"k": "s", "x": t}

    def an_expr(self, f, col):
        r = self.r
        alts = []
        for _ in range(r.choice([1, 1, 2])):
            x = self.an_item(f, col)
            g = x["x"] if x["k"] == "s" else "x"
            if g and r.random() < 0.3:
                i = r.randrange(len(g))
                g = g[:i] + "?" + g[i + 1:]
            alts.append({"g": g, "end": r.random() < 0.5})
        return {"k": "r", "alts": alts}

    def meta_conds(self, f, regexp):
        r = self.r
        cols = [c for c in self.snap(f)["cols"]]
        if regexp:     # "." and "$" are about lines, too
            cols = [c for c in cols if not any("\n" in x["m"][c] for x in self.snap(f)["rows"])]
        conds = []
        for col in r.sample(cols, min(len(cols), r.choice([1, 1, 1, 2, 2, 3]))):
            n = r.choice([1, 1, 1, 2, 3])
            items = [self.an_expr(f, col) if regexp else self.an_item(f, col) for _ in range(n)]
            conds.append({"c": col, "items": items, "_list": r.random() < 0.3})
        if r.random() < 0.03:
            conds.append({"c": "no such column", "items": [{"k": "s", "x": "x"}]})
        return conds

    def time_cond(self, f, kinds):
        r = self.r
        ds = [moment(t) for t in self.snap(f)["tps"]]
        k = r.choice(kinds)
        q = {"k": k, "_list": r.random() < 0.4}
        n = r.choice([1, 1, 2, 3])
        if r.random() < 0.03 and k in ("year", "time"):
            q["items"] = [{"k": "wrong"}]
            return q
        d = lambda: r.choice(ds)
        if k == "year":
            q["items"] = [{"k": "n", "x": r.choice([d().year, d().year, d().year + r.choice([-1, 1])])} for _ in range(n)]
            if r.random() < 0.3 and len(ds) > 1:
                a, b = sorted([d().year, d().year])
                q["items"] = [{"k": "n", "x": y} for y in range(a, min(b, a + 40) + 1)]
                q["_list"] = True
        elif k == "hour":
            q["items"] = [{"k": "n", "x": r.choice([d().hour, d().hour, 0, 23])} for _ in range(n)]
        elif k == "time":
            q["items"] = [{"k": "n", "x": r.choice([secs(d()), secs(d()), secs(d() + dt.timedelta(days=1))])} for _ in range(n)]
            q["_np"] = r.random() < 0.3
            if q["_np"]:
                q["_list"] = True
        elif k == "day" or (k == "month" and r.random() < 0.4):
            get = (lambda: d().day) if k == "day" else (lambda: d().month)
            q["items"] = [{"k": "n", "x": r.choice([get(), get(), r.randint(1, 12)])} for _ in range(n)]
        else:
            names = MONTHS if k == "month" else WEEK
            get = (lambda: d().month - 1) if k == "month" else (lambda: d().weekday())

            def name(i):
                t = names[i % len(names)]
                t = t[:3] if r.random() < 0.5 else t
                return r.choice([t, t, t.lower(), t.upper()])
            items = []
            for _ in range(n):
                if r.random() < 0.45:
                    a, b = r.randrange(len(names)), r.randrange(len(names))
                    if r.random() < 0.5:
                        a = get()
                    if a > b and r.random() < 0.9:
                        a, b = b, a
                    items.append({"k": "range", "a": name(a), "b": name(b)})
                elif r.random() < 0.03:
                    items.append({"k": "name", "a": r.choice(["Foo", "Janu", "", "5"])})
                else:
                    items.append({"k": "name", "a": name(get() if r.random() < 0.7 else r.randrange(len(names)))})
            q["items"] = items
        return q

    def filter_fields(self, f, meta=True, times=True):
        r = self.r
        c = {"conds": [], "times": [], "lvl": [], "keep": r.random() < 0.72, "hasnan": r.random() < 0.9,
             "_keep": r.random() < 0.2, "_order": r.random() < 0.3, "_hasnan": r.random() < 0.1}
        if meta:
            regexp = r.random() < 0.15
            if regexp:
                c["_regexp"] = True
            c["conds"] = self.meta_conds(f, regexp)
            if not regexp and r.random() < 0.25:
                k = r.choice(["exact", "exact", "max", "min"] + (["bad"] if r.random() < 0.1 else []))
                c["lvl"] = [{"k": k, "n": r.choice([0, 0, 1, 1, 2, 3]), "_text": r.choice(["1", "one", "x+", "1*"])}]
                if r.random() < 0.5:
                    c["conds"] = [q for q in c["conds"] if q["c"] != "variable"]
                for q in c["conds"]:
                    if q["c"] == "variable":   # where the pattern ends in a wildcard or has none
                        for it in q["items"]:
                            if it["k"] == "s":
                                x = it["x"]
                                it["x"] = x.replace("*", "") + "*" if "*" in x else x
        if times:
            kinds = ["year", "year", "month", "day", "weekday", "hour", "time"]
            seen = set()
            for _ in range(r.choice([1, 1, 1, 2])):
                q = self.time_cond(f, kinds)
                k = "day" if q["k"] == "weekday" else q["k"]
                if k not in seen:
                    seen.add(k)
                    c["times"].append(q)
        return c

    def gen_filter(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        w = {"C16": 0.1, "C17": 0.9}.get(self.p, 0.4)
        k = r.random()
        both = r.random() < 0.2
        c = {"op": "filter", "f": f, "inplace": r.random() < (0.5 if self.p == "C19" else 0.2), "_twin": r.random() < 0.5 or self.p == "C19"}
        c.update(self.filter_fields(f, meta=both or k >= w, times=both or k < w))
        if r.random() < 0.02:
            c.update(conds=[], times=[], lvl=[], keep=True)
        return c

    def gen_rename(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        s = self.snap(f)
        mapping = []
        for col in r.sample(s["cols"], min(len(s["cols"]), r.choice([1, 1, 2, 3]))):
            have = list(dict.fromkeys(x["m"][col] for x in s["rows"] if x["m"][col] != "nan"))
            if not have:
                continue
            pairs = []
            for a in r.sample(have, min(len(have), r.choice([1, 1, 2, 3]))):
                b = r.choice(have) if r.random() < 0.3 else self.a_cell(col, False) if r.random() < 0.4 else "s:new %d" % r.randint(0, 2)
                pairs.append([a, b if col != "unit" or b in have else "s:" + r.choice(list(self.units))])
            if r.random() < 0.2 and "s:not there" not in have:
                pairs.append(["s:not there", "s:x"])
            if len(pairs) > 1 and r.random() < 0.4:    # exchange
                pairs[0][1], pairs[1][1] = pairs[1][0], pairs[0][0]
            if all(v.startswith("n:") for v in have) and r.random() < 0.5:
                pairs = [[a, "n:" + num(r.choice([0, 1, 2, 5, 0.25]))] for a, b in pairs if a.startswith("n:")]
            mapping.append({"c": col, "pairs": pairs})
        if r.random() < 0.08:
            mapping.insert(r.randint(0, len(mapping)), {"c": "no such column", "pairs": [["s:x", "s:y"]]})
        return {"op": "rename", "f": f, "inplace": r.random() < 0.4, "_twin": r.random() < 0.5 or self.p == "C19", "mapping": mapping}

    def gen_setmeta(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        s = self.snap(f)
        n = len(s["rows"])
        name = r.choice([c for c in s["cols"] if c not in ("unit", "variable")] + ["note", "ensemble", "new", "another col"])
        if r.random() < 0.03 and self.p == "C24":
            name = ""
        mode = r.choice(["all", "list", "list", "keyed", "keyed", "keyed", "rows"])
        if r.random() < 0.03:
            mode = "badindex"

        def a():
            if name in self.texts or name in ("ensemble", "run id", "parameter_type"):
                return self.a_cell(name, name not in REQUIRED)
            return r.choice(["s:u", "s:v", "s:w", "n:1", "n:2", "n:1/2"])
        c = {"op": "setmeta", "f": f, "inplace": True, "name": name, "mode": mode, "cells": [], "keys": [], "at": [],
             "_none": r.random() < 0.3, "_named": r.random() < 0.5}
        if mode == "all":
            c["cells"] = [a()]
            c["_how"] = r.choice(["call", "item"])
        elif mode == "list":
            c["cells"] = [a() for _ in range(n)]
            c["_how"] = r.choice(["list", "array", "item", "index", "series"])
            if r.random() < 0.12:
                c["cells"] = c["cells"] + [a()] if r.random() < 0.5 else c["cells"][1:]
                c["_how"] = r.choice(["list", "item"])
                if not c["cells"]:
                    c["cells"] = ["s:u"] * (n + 1)
            if name == "" and c["_how"] == "item":
                c["_how"] = "list"
        elif mode == "rows":
            c["at"] = sorted(r.sample(range(1, n + 1), r.randint(1, n)))
            if r.random() < 0.3:
                r.shuffle(c["at"])
            c["cells"] = [a() for _ in c["at"]]
            c["_how"] = r.choice(["series", "index"])
        elif mode == "badindex":
            c["cells"] = [a(), a()]
            c["_how"] = ""
        else:
            cols = [x for x in s["cols"] if x != name and all(y["m"][x] != "nan" for y in s["rows"])]
            if len(cols) < 2:
                return None
            cols = r.sample(cols, r.choice([2, 2, 3, min(5, len(cols))][:4] if len(cols) > 2 else [2]))
            keys = []
            for x in r.sample(s["rows"], r.randint(1, n)):
                k = {q: x["m"][q] for q in cols}
                if k not in keys:
                    keys.append(k)
            c["keys"] = keys
            c["cells"] = [a() for _ in keys]
            c["_how"] = r.choice(["index", "series", "frame"])
        if name == "" and mode in ("rows", "list") and c["_how"] == "series":
            c["_how"] = "index"
        if name == "" and c["_how"] == "item":
            c["_how"] = "call"
        if mode in ("keyed", "rows") and len(set(x.startswith("n:") for x in c["cells"])) > 1 and False:
            return None
        return c

    def gen_settime(self):
        f = self.pick()
        if not f:
            return None
        r = self.r
        n = len(self.snap(f)["tps"])
        wrong = r.random() < 0.2
        for _ in range(60):
            t = some_times(r, 1, 6)
            if (len(t) == n) != wrong:
                break
        else:
            return None
        return {"op": "settime", "f": f, "inplace": True, "tps": t, "_time": r.choice(time_forms(t)), "_series": r.random() < 0.2}

    def gen_append(self):
        r = self.r
        if not self.alive():
            return None
        fs = [self.pick() for _ in range(r.choice([2, 2, 2, 2, 3, 1]))]
        if sum(len(self.snap(i)["rows"]) for i in fs) > 14 or sum(len(self.snap(i)["tps"]) for i in fs) > 16:
            return None
        if any(c != c.lower() for i in fs for c in self.snap(i)["cols"]):
            return None
        inplace = r.random() < 0.35
        c = {"op": "append", "f": fs[0], "fs": fs, "inplace": inplace, "_twin": r.random() < 0.6 or self.p == "C19",
             "policy": r.choice(["warn", "warn", "False", "return"] + (["bad"] if r.random() < 0.3 else [])),
             "_default": r.random() < 0.5, "_method": r.random() < 0.6}
        if r.random() < 0.25:
            raw = {}
            for k in range(len(fs)):
                if r.random() < 0.5 and not self.dup(fs[k]) and not (inplace and k == 0):
                    how = r.choice(["ts", "reset"])
                    raw[str(k)] = how
            c["_raw"] = raw
        return c

    def gen_convert(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        s = self.snap(f)
        ctx = r.choice([""] * 3 + ["AR4GWP100", "SARGWP100", "AR5GWP100", "CH4_conversions", "NOx_conversions"] +
                       (["NO_SUCH"] if r.random() < 0.1 else []))
        us = list(dict.fromkeys(x["m"]["unit"][2:] for x in s["rows"]))
        if "" in us:
            return None
        fam = r.choice(self.fams)
        k = r.random()
        if k < 0.8:
            u = units_gen.in_family(r, fam)
        elif k < 0.85:
            u = units_gen.undefined(r)
        elif ctx.endswith("100"):
            u = units_gen.in_family(r, (fam[0], "C")) if len(fam) > 1 else units_gen.in_family(r, fam)
        else:
            u = units_gen.in_family(r, units_gen.family(r))
        if u["s"].strip() == "":
            u = {"s": "dimensionless", "f": []}
        if k < 0.85 or u["s"] not in self.units:
            if not any(x[1] in ("bogus", "tBogus", "CO3", "GtXx", "unknown_gas") for x in u["f"]):
                self.units[u["s"]] = u["f"]
        c = {"op": "convert", "f": f, "inplace": r.random() < 0.4, "_twin": r.random() < 0.5 or self.p == "C19", "u": u, "ctx": ctx}
        c.update({"conds": [], "times": [], "lvl": [], "keep": True, "hasnan": True})
        if r.random() < 0.65:
            k = r.random()
            c.update(self.filter_fields(f, meta=k < 0.9, times=k > 0.8))
            if r.random() < 0.5 and len(us) > 1:
                one = r.choice(us)
                names = [x["m"]["variable"] for x in s["rows"] if x["m"]["unit"] == "s:" + one]
                c.update(conds=[{"c": "variable", "items": [{"k": "s", "x": v[2:]} for v in dict.fromkeys(names)]}],
                         keep=r.random() < 0.9, lvl=[], _regexp=False)
            c["conds"] = [q for q in c["conds"] if q["c"] != "unit"]    # the unit is that to convert to
        return c

    def target_times(self, f):
        r = self.r
        t = [int(x) for x in self.snap(f)["tps"]]
        lo, hi = t[0], t[-1]
        span = max(hi - lo, 86400)
        k = r.random()
        if k < 0.3:
            return some_times(r, 2)
        a, b = lo, hi
        if k < 0.6:
            a, b = lo - span // 3, hi + span // 3
        n = r.choice([2, 2, 3, 4, 5, 6, 8])
        xs = set(r.randint(a, b) // 3600 * 3600 for _ in range(n))
        if r.random() < 0.5:
            xs.add(lo)
        if r.random() < 0.5:
            xs.add(hi)
        xs |= set(x for x in t if r.random() < 0.2)
        if r.random() < 0.2:
            xs = set(t) | set(list(xs)[:1])
        xs = sorted(x for x in xs if int(instant(1)) < x < int(instant(9900)))
        return [str(x) for x in xs] if len(xs) >= 2 else [str(x) for x in t] if len(t) > 1 else some_times(r, 2)

    def gen_interpolate(self):
        r = self.r
        fs = [i for i in self.alive() if not self.gappy(i) and len(self.snap(i)["tps"]) > (1 if r.random() < 0.1 else 2)]
        if not fs:
            return None
        f = r.choice(fs)
        c = {"f": f, "inplace": False, "ext": r.choice(["constant", "constant", "linear", "none"]), "_default": r.random() < 0.5}
        if r.random() < 0.65 or self.p == "C19":
            t = self.target_times(f)
            c.update(op="interpolate", tps=t, _time=r.choice([x for x in time_forms(t) if x in ("datetime", "dt64")]), _tuple=False)
            return c
        t = [int(x) for x in self.snap(f)["tps"]]
        span = (t[-1] - t[0]) / 86400
        from dom_cal import grid
        for _ in range(30):
            g = grid(r)["rule"]
            days = (g["months"] * 30 or 7) * g["mult"]
            if span / days < 40 and moment(str(t[-1])).year + days // 360 < 9900 and moment(str(t[0])).year > 30:
                break
        else:
            return None
        if r.random() < 0.3 and span / 365 < 40:
            g = {"months": 12, "mult": 1, "anchor": 1, "side": "start", "_bare": True}
        c.update(op="resample", rule=g)
        return c

    def gen_export(self):
        r = self.r
        f = self.pick()
        if not f or any(c != c.lower() for c in self.snap(f)["cols"]):
            return None
        s = self.snap(f)
        holes = any(all(x["v"][j] == "nan" for x in s["rows"]) for j in range(len(s["tps"]))) or any(
            all(v == "nan" for v in x["v"]) for x in s["rows"])
        gaps = any(v in ("nan", "s:") for x in s["rows"] for v in x["m"].values())
        hows = ["copy", "deepcopy", "init", "wide", "widereset", "columns"]
        if not holes:
            hows += ["long", "long"]
        numeric = any(any(x["m"][c].startswith("n:") for x in s["rows"]) and any(x["m"][c].startswith("s:") for x in s["rows"])
                      for c in s["cols"])
        early = moment(s["tps"][0]).year < 1000
        if not gaps and not holes and not early:
            hows += ["iam", "iam"]
            if not numeric:
                hows += ["csv", "csv"]
        if not gaps and not numeric and not early:
            hows += ["csvwide"]
        how = r.choice(hows)
        return {"op": "export", "f": f, "inplace": False, "strict": how not in ("copy", "deepcopy", "init"), "_how": how}

    def gen_process(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        cols = self.snap(f)["cols"]
        over = r.sample(cols, r.choice([1, 1, 1, 2, 3]))
        if r.random() < 0.2:
            over = [c for c in cols if c not in r.sample(cols, 1)]
        if not set(cols) - set(over):
            over = over[:1]
        if r.random() < 0.1:
            over.append("no such column")
        return {"op": "process", "f": f, "inplace": False, "cols": over, "_single": r.random() < 0.5,
                "how": r.choice(["median", "mean", "quantile", "quantile"] + (["sum"] if r.random() < 0.1 else [])),
                "q": num(r.choice([0.0, 1.0, 0.5, 0.25, 0.05, 0.95, 1 / 3, r.random()]))}

    def gen_ref(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        c = {"op": "ref", "f": f, "inplace": False}
        c.update(self.filter_fields(f, meta=r.random() < 0.2, times=True))
        c.update(hasnan=True, _hasnan=False, keep=c["keep"] or r.random() < 0.7, suffix=r.choice(["rel. to mean", "x", ""]))
        auto = not c["conds"] and c["keep"] and not c["lvl"] and len(c["times"]) == 1 and c["times"][0]["k"] == "year" and all(
            i["k"] == "n" for i in c["times"][0]["items"])
        if auto and r.random() < 0.7:
            q = c["times"][0]
            q["_list"] = True
            c.update(_keep=False, _order=False, _auto=True,
                     suffix="(ref. period year: %d - %d)" % (q["items"][0]["x"], q["items"][-1]["x"]))
        return c

    def leaves(self, f):
        s = self.snap(f)
        vs = [(x["m"]["variable"], x["m"]["region"]) for x in s["rows"]]
        names = [v for v, _ in vs]
        return (len(set(vs)) == len(vs) and not any(a != b and b.startswith(a + "|") for a in names for b in names)
                and all(x.startswith("s:World") for _, x in vs))

    def gen_ps(self):
        r = self.r
        fs = [i for i in self.alive() if not self.gappy(i) and self.leaves(i) and len(self.snap(i)["tps"]) > 2
              and all(v != "nan" or c == "parameter_type" for x in self.snap(i)["rows"] for c, v in x["m"].items())
              and all(x["m"].get("parameter_type") != "nan" for x in self.snap(i)["rows"])
              and all(x["m"]["unit"][2:] in self.units for x in self.snap(i)["rows"])
              and all(v.startswith("n:") for x in self.snap(i)["rows"] for c, v in x["m"].items() if scalar_of(c))]
        if not fs:
            return None
        f = r.choice(fs)
        if r.random() < 0.4:
            return {"op": "params", "f": f, "inplace": False}
        t = self.snap(f)["tps"] if r.random() < 0.6 else self.target_times(f)
        return {"op": "ps", "f": f, "inplace": False, "tps": t, "_time": r.choice(["dt64", "datetime"]), "_given": r.random() < 0.3}

    def gen_fromset(self):
        """A parameter set made by hand: the parameters are independent (no name is above another)."""
        r = self.r
        main = some_times(r, 3)
        if int(main[-1]) > int(instant(9000)):
            return None
        pars, used = [], set()

        def place(names, regs):
            for _ in range(20):
                n, g = list(r.choice(names)), list(r.choice(regs))
                k = (tuple(n), tuple(g))
                if not any(h == g and (n[:len(m)] == m or m[:len(n)] == n) for m, h in
                           [(list(a), list(b)) for a, b in used]):
                    used.add(k)
                    return n, g
            return None, None
        regs = [["World"], ["World", "R5ASIA"], ["World", "R5ASIA", "CHN"], ["World", "World"], ["World", "Land"]]
        names = [["Emissions", "CO2"], ["Emissions", "CH4"], ["Emissions", "CO2", "AFOLU"], ["T"], ["Surface Temperature"],
                 ["a", "b", "c", "e"], ["a", "b", "c", "f", "g"], ["a", "d"], ["Radiative Forcing"], ["ECS"]]
        for i in range(r.choice([1, 2, 2, 3, 4])):
            n, g = place(names, regs)
            if n is None:
                continue
            kind = r.choice(["point", "average"])
            fam = r.choice(self.fams)
            u = units_gen.in_family(r, fam)
            w = units_gen.in_family(r, fam) if r.random() < 0.3 else u
            if "" in (u["s"].strip(), w["s"].strip()):
                u = w = {"s": "dimensionless", "f": []}
            self.units[u["s"]] = u["f"]
            t = list(main)
            last = 2 * int(t[-1]) - int(t[-2])
            if kind == "average":
                t.append(str(last))
            k = r.random()
            if k < 0.04:
                t = some_times(r, 4)
            elif k < 0.35:   # another grid over the same time
                a, b = int(t[0]), int(t[-1])
                s = b - a
                t = [str(x) for x in sorted(set(a + s * i // 24 for i in range(25) if r.random() < r.choice([0.15, 0.3, 0.6]))
                                            | {a - r.choice([0, 0, s // 7, 86400]), b + r.choice([0, 0, s // 9, 3600]), a + s // 2})]
            if int(t[-1]) > int(instant(9990)) or int(t[0]) < int(instant(2)):
                return None
            pars.append({"kind": kind, "name": n, "reg": g, "unit": u, "wunit": w, "tps": t,
                         "v": [num(a_value(r)) for _ in range(len(t) - (kind == "average"))], "has": i == 0 or r.random() < 0.85,
                         "cell": "", "ext": r.choice(["none", "none", "constant", "linear"])})
        odd = r.random() < 0.12
        for _ in range(r.choice([0, 1, 2, 3])):
            sc = r.random() < 0.4
            names = ([["sensitivity"], ["mass (dry)"], ["pool", "deep"], ["pool", "upper"], ["step"]] if sc
                     else [["scenario"], ["model"], ["climate_model"], ["note"], ["note 2", "x"], ["run id"], ["ensemble"]])
            n, g = place(names, regs if odd else [["World"]])
            if n is None:
                continue
            u = {"s": "", "f": []}
            if sc:
                s, f = r.choice([("K", [["", "K", 1]]), ("W / (m ** 2)", [["", "W", 1], ["", "m", -2]]), ("kg", [["k", "g", 1]]),
                                 ("GtC/(yr*m)", [["G", "tC", 1], ["", "yr", -1], ["", "m", -1]])])
                u = {"s": s, "f": f}
            cell_ = ("n:" + num(r.choice([3, 2.5, 0.1, -7, 1e6]))) if sc or n[0] in ("run id", "ensemble") else \
                "s:" + r.choice(["a", "Historical", "RCP 4.5", "x (y)", "7"])
            pars.append({"kind": "scalar" if sc else "generic", "name": n, "reg": g, "unit": u, "wunit": u, "tps": [], "v": [],
                         "has": r.random() < 0.8, "cell": cell_, "ext": "none"})
        r.shuffle(pars)
        t = main
        k = r.random()
        if k > 0.6:
            a, b = int(main[0]), int(main[-1])
            if k > 0.95:
                a, b = a - (b - a) // 4, b + (b - a) // 4
            xs = set(r.randint(a, b) // 60 * 60 for _ in range(r.choice([2, 3, 5])))
            xs |= {a, b} if r.random() < 0.4 else {int(x) for x in main if r.random() < 0.3}
            xs = sorted(x for x in xs if x >= a)
            if len(xs) > 2 and r.random() < 0.7 and 2 * xs[-1] - xs[-2] > b:    # the last period within the data
                xs[-2] = xs[-1] - r.choice([60, 3600, b - xs[-1]]) if b - xs[-1] > 60 else 2 * xs[-1] - b
                xs = sorted(set(xs))
            t = [str(x) for x in xs if int(instant(1)) < x < int(instant(9900))]
        if len(t) < 2:
            return None
        return {"op": "fromset", "f": 0, "inplace": False, "pars": pars, "tps": t, "_time": r.choice(["dt64", "datetime"]),
                "_late": r.random() < 0.5, "_spell": r.random() < 0.5, "_args": r.random() < 0.5,
                "args": [r.choice(["unspecified", "MAGICC"]), r.choice(["unspecified", "IAM"]), r.choice(["unspecified", "b"])]}

    def gen_get(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        cols = self.snap(f)["cols"]
        if r.random() < 0.6:
            return {"op": "get", "f": f, "inplace": False, "single": True, "keys": [r.choice(cols + ["time", "year", "no such", "month"])]}
        return {"op": "get", "f": f, "inplace": False, "single": False,
                "keys": r.sample(cols + (["no such"] if r.random() < 0.2 else []), r.choice([1, 2, 3]))}

    def gen_look(self):
        r = self.r
        f = self.pick()
        if not f:
            return None
        cols = self.snap(f)["cols"]
        how = r.choice(["head", "tail", "subset", "subset", "values", "all"])
        if how == "subset":
            cols = r.sample(cols, r.choice([1, 2, 3, len(cols)]))
        return {"op": "look", "f": f, "inplace": False, "how": how, "cols": cols, "n": r.choice([1, 2, 3, 5])}

    def gen_poke(self):
        r = self.r
        fs = [i for i in self.alive() if not self.dup(i)]
        if not fs:
            return None
        f = r.choice(fs)
        gaps = any(v in ("nan", "s:") for x in self.snap(f)["rows"] for v in x["m"].values()) or self.gappy(f)
        return {"op": "poke", "f": f, "inplace": False,
                "_how": r.choice(["meta", "item", "items", "timeseries", "values", "time"] + ([] if gaps else ["iam"]))}

    def gen_guess(self):
        r = self.r
        v = r.choice(VARIABLES)
        if r.random() < 0.4:
            i = r.randint(0, len(v))
            v = v[:i] + r.choice(["x", "|", "_", "Emissions", "Flux", "_RF", " ", "_EMIS", "TEMP"]) + v[i:]
        if r.random() < 0.2:
            v = r.choice([v.lower(), v.upper()])
        u = r.choice(["", "", "bogus unit", "unknown"]) if r.random() < 0.6 else self.unit()
        return {"op": "guess", "variable": v, "unit": u, "f": 0, "inplace": False, "_none": r.random() < 0.5}


WEIGHTS = {
    "C16": {"filter": 10, "append": 1, "setmeta": 1},
    "C17": {"filter": 10, "settime": 1, "append": 1},
    "C18": {"append": 10, "filter": 2, "setmeta": 1, "convert": 1},
    "C19": {"filter": 3, "rename": 2, "append": 3, "convert": 2, "interpolate": 2, "export": 3, "poke": 4, "process": 1,
            "ref": 1, "setmeta": 2, "settime": 1, "look": 1, "ps": 2, "fromset": 1},
    "C20": {"convert": 10, "filter": 1, "append": 1},
    "C21": {"interpolate": 8, "setmeta": 1, "convert": 1, "guess": 2, "filter": 1},
    "C22": {"new": 6, "export": 6, "filter": 1, "setmeta": 1, "look": 2},
    "C23": {"ps": 8, "fromset": 4, "rename": 1, "interpolate": 1},
    "C24": {"rename": 6, "setmeta": 8, "get": 2, "settime": 2, "filter": 2, "look": 1, "append": 1},
    "C25": {"process": 6, "ref": 5, "filter": 1, "append": 1, "setmeta": 1},
}


def generate(r, profile):
    prop = profile.split(".")[0]
    g = Gen(r, prop)
    w = WEIGHTS[prop]
    g.do(g.gen_new())
    if r.random() < 0.7:
        g.do(g.gen_new())
    n = r.choice([2, 4, 6, 8]) if not g.big else 2
    tries = 0
    while n and tries < 40:
        tries += 1
        if len(g.b.frames) >= 7:
            break
        k = r.choices(list(w), list(w.values()))[0]
        if k == "new" and len(g.b.frames) > 4:
            continue
        if not g.alive() and k != "new":
            k = "new"
        c = getattr(g, "gen_" + k)()
        if c is None:
            continue
        g.do(c)
        n -= 1
        if len(g.b.frames) >= 6:
            break
    return {"ev": g.ev, "units": g.units}, {"cmds": g.cmds, "units": g.units}


def replay(script):
    b = Bench(script["units"])
    return {"ev": [b.run(c) for c in script["cmds"]], "units": script["units"]}
