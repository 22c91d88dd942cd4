"""What each property's check explores, and which clauses of the specification concern it."""
import json
import random

STORE = {
    "request": {"C01", "C02", "C05", "C06"},
    "info.empty": {"C03", "C05", "C01", "C08", "C07"},
    "info.version": {"C03", "C05", "C07", "C08"},
    "info.kindunit": {"C02", "C05", "C06"},
    "info": {"C06", "C05", "C01"},
    "ensure": {"C03", "C05"},
    "read.scalar": {"C03", "C05", "C06"},
    "read.generic": {"C03", "C05", "C06"},
    "read.aggregate": {"C04", "C05", "C01"},
    "read.timeseries": {"C07", "C08", "C05", "C06"},
    "read.locked": {"C08", "C07", "C05"},
    "write.aggregate": {"C01", "C05", "C04"},
    "write.scalar": {"C03", "C05", "C01"},
    "write.generic": {"C03", "C05", "C01"},
    "write.timeseries": {"C07", "C08", "C05"},
    "write.locked": {"C08", "C07", "C05"},
    "lock": {"C08"},
    "unlock": {"C08", "C05"},
}


def concerns(table, pid):
    """Relevance of a rejection: the longest matching prefix of its clause names the properties."""
    def relevant(rej, trace):
        why = rej["why"]
        if why == "unjudged":
            return False
        best = ""
        for k in table:
            if why.startswith(k) and len(k) > len(best):
                best = k
        if not best or trace["ev"][min(rej["at"], len(trace["ev"])) - 1].get("err") == "Timeout":
            return True
        return pid in table[best]
    return relevant


def design(c, module, consts=None, keep=None, cfg=None, timeout=800):
    """Explore a design model; returns (a seeded sample of) the behaviours it printed."""
    m = c.bench.model(module, consts, cfg=cfg, timeout=timeout)
    c.add_model(m)
    lines = sorted(m["lines"], key=json.dumps)
    if keep is not None and len(lines) > keep:
        lines = random.Random("%s %s" % (c.seed, module)).sample(lines, keep)
    return lines


# which clauses of the store each design model serves
MODELS = {"C01": "S", "C02": "S", "C03": "S", "C04": "ST", "C05": "SV", "C06": "ST", "C07": "V", "C08": "V"}


def store(c, quick=1500, thorough=16000):
    scripts = []
    keep = c.deep(400, 6000)
    if "S" in MODELS[c.pid]:
        if c.tier == "thorough":
            design(c, "MC_Store", {"MaxViews": 4, "MaxWrites": 3, "Deep": "TRUE", "Scripts": "FALSE"})
        scripts += design(c, "MC_Store", None, keep)
    if "V" in MODELS[c.pid]:
        if c.tier == "thorough":
            design(c, "MC_Views", {"MaxViews": 3, "MaxSteps": 4, "Scripts": "FALSE"})
        scripts += design(c, "MC_Views", None, keep)
    if "T" in MODELS[c.pid]:
        if c.tier == "thorough":
            design(c, "MC_Views", {"MaxViews": 3, "MaxSteps": 3, "Tree2": "TRUE", "Scripts": "FALSE"})
        scripts += design(c, "MC_Views", {"MaxViews": 3, "MaxSteps": 1, "Tree2": "TRUE"}, keep)
    scripts = [{"id": "m%d" % i, "roots": ["World"], "cmds": h, "look": True} for i, h in enumerate(scripts)]
    c.campaign("store", "TraceStore", c.pid, len(scripts), concerns(STORE, c.pid), scripts=scripts, tag="m",
               seconds=c.deep(60, 400))
    c.campaign("store", "TraceStore", c.pid, c.deep(quick, thorough), concerns(STORE, c.pid),
               seconds=c.deep(60, 400), chunk=c.deep(1, 4))
    return c.finish()


CONV = {"make": {"C09", "C10"}, "point": {"C09"}, "average": {"C10"}}
STORE_CONV = {"request": {"C09", "C10"}, "read.timeseries": {"C09", "C10"}, "write.timeseries": {"C09", "C10"}}


def conv(c, quick=1600, thorough=40000):
    kind = {"C09": "point", "C10": "average"}[c.pid]
    scripts = []
    deep = {"C09": {"Values": 3, "TMax": 5, "Scripts": "FALSE"}, "C10": {"Values": 3, "TMax": 5, "Scripts": "FALSE"}}
    if c.tier == "thorough":
        design(c, "MC_Conv", dict(deep[c.pid], Kind='"%s"' % kind))
    scripts = design(c, "MC_Conv", {"Kind": '"%s"' % kind}, c.deep(800, 7000))
    scripts = [{"id": "m%d" % i, "cmds": h} for i, h in enumerate(scripts)]
    c.campaign("conv", "TraceConv", c.pid, len(scripts), concerns(CONV, c.pid), scripts=scripts, tag="m",
               seconds=c.deep(60, 300))
    c.campaign("conv", "TraceConv", c.pid, c.deep(quick, thorough), concerns(CONV, c.pid),
               seconds=c.deep(60, 400), chunk=c.deep(1, 4))
    c.campaign("store", "TraceStore", c.pid, c.deep(240, 4000), concerns(STORE_CONV, c.pid),
               seconds=c.deep(60, 200), chunk=c.deep(1, 2), tag="v")
    return c.finish()


UNITS = {"plain": {"C11"}, "context": {"C12"}, "plain.make": {"C11", "C12"}}


def units(c, quick=6000, thorough=120000):
    if c.pid == "C11":
        scripts = design(c, "MC_Units", {"Deep": c.deep("FALSE", "TRUE")})
    else:
        scripts = design(c, "MC_Contexts", {"MaxHistory": c.deep(2, 3)})
    scripts = [{"id": "m%d" % i, "cmds": h} for i, h in enumerate(scripts)]
    c.campaign("units", "TraceUnits", c.pid, len(scripts), concerns(UNITS, c.pid), scripts=scripts, tag="m",
               seconds=c.deep(80, 300))
    c.campaign("units", "TraceUnits", c.pid, c.deep(quick, thorough), concerns(UNITS, c.pid),
               seconds=c.deep(80, 400), chunk=c.deep(1, 4))
    return c.finish()


# C14 is about runs agreeing with each other, C15 about each run following the equations
DICE = {
    "model": {"C14"}, "run": {"C14"}, "reset": {"C14"}, "init": {"C14"}, "step": {"C14", "C15"},
    "request": {"C14"}, "info": {"C14"}, "write": {"C14"},
    "read": {"C14", "C15"}, "read.scalar": {"C14"}, "read.generic": {"C14"},
}


def fresh_twin(script, trace, at):
    """
    For a read of an output (event number at): a script reading the same from a fresh
    model run once with the inputs as they were; None if there is no such.
    """
    ev = trace["ev"][:at]
    cmds = (script["cmds"] + ev[len(script["cmds"]):])[:at]    # events of a last look are commands as well
    if ev[-1]["op"] != "get":
        return None
    made = [i for i, e in enumerate(ev) if e["op"] == "view" and e["err"] == ""]
    view = cmds[made[cmds[-1]["v"] - 1]]
    models = [c for c in cmds if c["op"] == "model"]
    runs = [i for i, c in enumerate(cmds) if c.get("m") and models[c["m"] - 1]["os"] == view["ps"]]
    starts = [i for i in runs if cmds[i]["op"] in ("run", "reset_stepping", "init_input", "init_run", "reset")]
    if not starts:
        return None
    model = models[cmds[starts[-1]]["m"] - 1]
    last = starts[-1]
    inputs = [i for i, c in enumerate(cmds) if c["op"] in ("wr", "set")]
    if any(i > last for i in inputs if i < max(runs)):
        return "other"    # inputs changed while stepping: not comparable with a run
    keep = [i for i in range(last) if i in made or i in inputs]
    number = {old + 1: new + 1 for new, old in enumerate(n for n, i in enumerate(made) if i in keep)}
    res = [dict(cmds[i], v=number[cmds[i]["v"]]) if i in inputs else cmds[i] for i in keep]
    res.append(dict(model))
    res += [{"op": o, "m": 1} for o in (["run"] if model.get("_via") != "adapter" else
                                        ["init_input", "init_run", "reset", "bare_run"])]
    res += [{"op": "rd", "v": number[n + 1]} for n, i in enumerate(made)
            if n + 1 in number and cmds[i]["kind"] in ("scalar", "generic")]
    res += [view, dict(cmds[-1], v=len(number) + 1)]
    return {"id": script["id"], "roots": script["roots"], "cmds": res}


def only_unlike_fresh(c):
    """
    Of the outputs that differ from the specification, C14 is about those which a fresh
    model gives differently.
    """
    twins = [(x, fresh_twin(x[4], x[3], x[2]["at"])) for x in c.violations if x[2]["why"].startswith("read.")]
    for x, t in twins:
        if t == "other":
            c.violations.remove(x)
            c.others.append(x)
    twins = [t for t in twins if t[1] and t[1] != "other"][:200]
    if not twins:
        return
    scripts = [dict(t, id=str(i)) for i, (x, t) in enumerate(twins)]
    tr, _ = c.bench.record("dice", "twin", c.seed, len(scripts), 100, scripts=scripts, tag="twin")
    rej, _, _ = c.bench.validate("TraceDice", tr, "twin")
    for i, (x, t) in enumerate(twins):
        r = rej.get(str(i))
        if r and r["why"].startswith("read.") and r["at"] == len(t["cmds"]):
            c.violations.remove(x)
            c.others.append(x)


def dice(c, quick=400, thorough=9000):
    scripts = design(c, "MC_Dice", {"MaxSteps": c.deep(5, 7)}, c.deep(160, 2500))
    scripts = [{"id": "m%d" % i, "roots": ["World"] * 3, "cmds": h, "look": True, "start": 1262304000, "step": 31536000,
                "n": 3} for i, h in enumerate(scripts)]
    c.campaign("dice", "TraceDice", c.pid, len(scripts), concerns(DICE, c.pid), scripts=scripts, tag="m",
               seconds=c.deep(60, 300))
    c.campaign("dice", "TraceDice", c.pid, c.deep(quick, thorough), concerns(DICE, c.pid),
               seconds=c.deep(60, 400), chunk=c.deep(1, 4))
    if c.pid == "C14":
        only_unlike_fresh(c)
    return c.finish()


ADAPTER = {"hooks": {"C13"}, "outcome": {"C13"}, "new": {"C13"}, "registry": {"C13"}, "setup": set()}


def falsify_hooks(trace, rng):
    ev = [e for e in trace["ev"] if e.get("calls")]
    if ev:
        e = rng.choice(ev)
        e["calls"] = e["calls"] + [e["calls"][-1]]
    return bool(ev)


def adapter(c, quick=2400, thorough=120000):
    scripts = design(c, "MC_Adapter", {"MaxSteps": c.deep(6, 7)}, c.deep(2400, 60000))
    if c.tier == "thorough":
        design(c, "MC_Adapter", {"MaxAdapters": 2, "MaxSteps": 6, "Scripts": "FALSE"})
    scripts = [{"id": "m%d" % i, "sets": 1, "cmds": h} for i, h in enumerate(scripts)]
    for kw in (dict(count=len(scripts), scripts=scripts, tag="m"), dict(count=c.deep(quick, thorough))):
        c.campaign("adapter", "TraceAdapter", c.pid, relevant=concerns(ADAPTER, c.pid), seconds=c.deep(60, 300),
                   corrupt=falsify_hooks, **kw)
    return c.finish()


CAL = {"norm": {"C26"}, "points": {"C26"}, "range": {"C27"}}


def calendar(c, quick=4000, thorough=80000):
    if c.pid == "C26":
        design(c, "MC_Calendar", {"Spans": 0, "Scripts": "FALSE", "Years": c.deep(3, 50), "Starts": c.deep(1, 0)})
    else:
        if c.tier == "thorough":
            design(c, "MC_Calendar", {"Spans": 2, "Years": 5, "Scripts": "FALSE"})
        cases = design(c, "MC_Calendar", None, c.deep(6000, 15000))
        scripts = [{"id": "m%d" % i, "cmds": sum(cases[i:i + 20], [])} for i in range(0, len(cases), 20)]
        c.campaign("cal", "TraceCal", c.pid, len(scripts), concerns(CAL, c.pid), scripts=scripts, tag="m",
                   seconds=c.deep(60, 300))
    c.campaign("cal", "TraceCal", c.pid, c.deep(quick, thorough), concerns(CAL, c.pid),
               seconds=c.deep(60, 400), chunk=c.deep(1, 4))
    return c.finish()


# frames: which clauses concern which property, and which menus of MC_Frame serve it
FRAME = {
    "filter.meta": {"C16"}, "filter.time": {"C17"}, "filter": {"C16", "C17"},
    "append": {"C18"}, "convert": {"C20"}, "interpolate": {"C21"}, "resample": {"C21"},
    "new": {"C22"}, "export": {"C22"}, "look": {"C22"}, "ps": {"C23"}, "fromset": {"C23"},
    "rename": {"C24"}, "setmeta": {"C24"}, "settime": {"C24"}, "get": {"C24"},
    "process": {"C25"}, "ref": {"C25"},
    "others": {"C19"}, "twin": {"C19"}, "intact": {"C19"},
    "filter.meta.failed": {"C16", "C19"}, "filter.time.failed": {"C17", "C19"}, "filter.both.failed": {"C16", "C17", "C19"},
    "append.failed": {"C18", "C19"}, "convert.failed": {"C20", "C19"}, "rename.failed": {"C24", "C19"},
    "setmeta.failed": {"C24", "C19"}, "settime.failed": {"C24", "C19"}, "new.failed": {"C22", "C19"},
}
MENUS = {"C16": ["meta"], "C17": ["time"], "C18": ["append"], "C19": ["share"], "C20": ["convert"], "C21": ["interpolate"],
         "C22": ["tables"], "C23": ["ps"], "C24": ["edit"], "C25": ["stats"]}


def complete(cmd, r):
    """A command of MC_Frame with the ways of saying it which the specification does not distinguish."""
    c = dict(cmd)
    op = c["op"]
    c["_twin"] = r.random() < 0.6
    if op == "new":
        gaps = any(x == "nan" for y in c["rows"] for x in y["v"])
        c["_form"] = r.choice(["columns", "columns", "wide"] + ([] if gaps else ["long"]))
        c.update(_time=r.choice(["datetime", "space", "iso", "date"] + (["dt64"] if c["_form"] == "columns" else [])),
                 _none=r.random() < 0.5, _perm=r.randint(0, 50), _data="array" if r.random() < 0.6 else "list",
                 _short=r.choice(["", "list", "scalar"]), _flat=False, _upper=r.choice([0, 0, 1]), _index=0, _reset=True,
                 _nanrows=False, _series=False)
    elif op in ("filter", "convert", "ref"):
        c.update(_keep=r.random() < 0.5, _order=r.random() < 0.3, _hasnan=op != "ref" and r.random() < 0.3)
        c["conds"] = [dict(q, _list=r.random() < 0.3) for q in c["conds"]]
        c["times"] = [dict(q, _list=r.random() < 0.3, _np=r.random() < 0.5) for q in c["times"]]
    elif op == "setmeta":
        hows = {"all": ["call", "item"] if c["name"] else ["call"], "list": ["list", "item"] if c["name"] else ["list"],
                "keyed": ["index", "series", "frame"], "rows": ["series", "index"]}[c["mode"]]
        c.update(_how=r.choice(hows), _none=r.random() < 0.3, _named=r.random() < 0.5)
    elif op == "settime":
        c.update(_time=r.choice(["datetime", "dt64", "iso", "space"]), _series=r.random() < 0.2)
    elif op == "append":
        c.update(_default=r.random() < 0.5, _method=r.random() < 0.5)
    elif op == "interpolate":
        c.update(_time=r.choice(["datetime", "dt64"]), _tuple=False, _default=r.random() < 0.5)
    elif op == "export":
        c["_how"] = r.choice(["wide", "widereset", "columns"] if c["strict"] else ["copy", "deepcopy", "init"])
    elif op == "process":
        c["_single"] = r.random() < 0.5
    elif op == "ps":
        c.update(_given=r.random() < 0.3, _time=r.choice(["datetime", "dt64"]))
    elif op == "fromset":
        c.update(_late=r.random() < 0.5, _time=r.choice(["datetime", "dt64"]), _spell=r.random() < 0.5, _args=r.random() < 0.5)
    elif op == "poke":
        c["_how"] = r.choice(["meta", "item", "items", "timeseries", "values", "time"])
    return c


def falsify_frame(trace, rng):
    """Change a value somewhere in what was recorded of the results."""
    rows = []
    for e in trace["ev"]:
        if e["err"]:
            continue
        if e["op"] in ("process", "ref", "look"):
            rows += [(e, x) for x in e["r"]["rows"]]
        rows += [(e, x) for s in e["new"] for x in s["rows"]]
        rows += [(e, x) for s in e["ch"] for x in s["s"]["rows"]]
    rows = [(e, x) for e, x in rows if any(v != "nan" for v in x["v"])]
    if not rows:
        return False
    e, x = rng.choice(rows)
    j = rng.choice([j for j, v in enumerate(x["v"]) if v != "nan"])
    x["v"][j] = "987654321/1024"
    return True


def frame(c, quick=1600, thorough=30000):
    for menu in MENUS[c.pid]:
        deepest = {"meta": 3, "time": 3, "append": 2, "convert": 2, "interpolate": 3, "edit": 3, "tables": 4, "stats": 4,
                   "ps": 4, "share": 3}[menu]
        if c.tier == "thorough":
            design(c, "MC_Frame", {"Menu": '"%s"' % menu, "MaxSteps": deepest, "Scripts": "FALSE"})
        found = design(c, "MC_Frame", {"Menu": '"%s"' % menu}, c.deep(500, 8000))
        r = random.Random("%s %s" % (c.seed, menu))
        scripts = [{"id": "m%d" % i, "units": s["units"], "cmds": [complete(x, r) for x in s["cmds"]]}
                   for i, s in enumerate(found)]
        c.campaign("frame", "TraceFrame", c.pid, len(scripts), concerns(FRAME, c.pid), scripts=scripts, tag="m" + menu,
                   seconds=c.deep(60, 300), corrupt=falsify_frame)
    c.campaign("frame", "TraceFrame", c.pid, c.deep(quick, thorough), concerns(FRAME, c.pid),
               seconds=c.deep(60, 400), chunk=c.deep(1, 4), corrupt=falsify_frame)
    return c.finish()


def run(c):
    pid = c.pid
    if pid in ("C26", "C27"):
        return calendar(c)
    if pid in MENUS:
        return frame(c)
    if pid in MODELS:
        return store(c)
    if pid in ("C09", "C10"):
        return conv(c)
    if pid in ("C11", "C12"):
        return units(c)
    if pid in ("C14", "C15"):
        return dice(c)
    if pid == "C13":
        return adapter(c)
    raise SystemExit("no plan for " + pid)
