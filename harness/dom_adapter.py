"""
Driver for adapters: calls through the OpenSCM wrapper and on adapters directly, recording
which hooks are called (with failures injected into hooks), and the adapter registry. Every
session runs in its own process, since adapters stay loaded.
"""
import gc
import json
import os
import sys
import warnings

import numpy as np

from common import attempt, strip

import openscm.core  # noqa: F401  (must not load an adapter)
from openscm.adapters import Adapter
from openscm.core.parameterset import ParameterSet

HOOKS = {"model": "_initialize_model", "input": "_initialize_model_input", "runpar": "_initialize_run_parameters",
         "reset": "_reset", "run": "_run", "step": "_step", "shutdown": "_shutdown"}
STEPS = 4


class Boom(Exception):
    pass


def secs(x):
    if isinstance(x, np.datetime64):
        return str(int(x.astype("datetime64[s]").astype("int64")))
    return str(x)


class Session:
    def __init__(self, sets):
        self.ps = [ParameterSet() for _ in range(sets)]
        self.os = []
        self.inst = []          # adapters and wrappers in use
        self.log = []           # (adapter, hook)
        self.seen = []
        self.fail = ""
        self.by = 0
        self.classes = []
        self.number = 0
        self.patched = []
        self.probe = self.make_probe()

    # ---- hooks ------------------------------------------------------------
    def hook(self, obj, name, real):
        n = obj.__dict__.get("_verif_n", 0)
        self.log.append((n, name))
        if name in ("reset", "step"):
            self.seen.append(secs(obj._current_time))
        if self.fail == name:
            raise Boom()
        return real()

    def make_probe(self):
        session = self

        class Probe(Adapter):
            def _advance(self):
                self._current_time = self._current_time + np.timedelta64(session.by, "s")

        def make(name, attr):
            def f(self):
                return session.hook(self, name, self._advance if name == "step" else lambda: None)
            setattr(Probe, attr, f)
        for name, attr in HOOKS.items():
            make(name, attr)
        Probe.__abstractmethods__ = frozenset()
        self.number_instances(Probe)
        return Probe

    def number_instances(self, cls):
        session = self
        init = cls.__init__

        def __init__(self, *args, **kw):
            session.number += 1
            self.__dict__["_verif_n"] = session.number
            init(self, *args, **kw)
        cls.__init__ = __init__

    def patch(self, cls):
        """Make the hooks of a shipped adapter record their calls."""
        if cls in self.patched:
            return
        self.patched.append(cls)
        session = self

        def wrap(name, attr):
            real = getattr(cls, attr)

            def f(self):
                return session.hook(self, name, lambda: real(self))
            setattr(cls, attr, f)
        for name, attr in HOOKS.items():
            wrap(name, attr)
        self.number_instances(cls)

    # ---- commands -----------------------------------------------------------
    def run(self, c):
        e = strip(c)
        del self.log[:], self.seen[:]
        self.fail, self.by = c.get("fail", ""), int(c.get("by", "0"))
        out = {}
        err, _ = attempt(lambda: getattr(self, "do_" + c["op"])(c, out))
        e["err"] = err
        e.update(out)
        if c["op"] == "new":
            e["calls"] = [h for _, h in self.log]
        if c["op"] == "call":
            e["calls"] = [h for n, h in self.log if n == c["a"]]
            e["others"] = [[n, h] for n, h in self.log if n != c["a"]]
            e["seen"] = list(self.seen)
            e.setdefault("r", "")
        return e

    def do_start(self, c, out):
        self.ps[c["ps"] - 1].generic("Start Time").value = np.datetime64(int(c["val"]), "s")

    def do_new(self, c, out):
        n = self.number
        try:
            if c["kind"] == "direct":
                out_set = ParameterSet()
                x = self.probe(self.ps[c["ps"] - 1], out_set)
            else:
                from openscm.core import OpenSCM
                x = OpenSCM(c["name"], self.ps[c["ps"] - 1])
                self.complete(self.ps[c["ps"] - 1])
            self.inst.append(x)
        finally:
            if self.number == n and c["name"] in ("-", "DICE"):
                self.inst.append(None)

    def complete(self, ps):
        """What DICE needs, except for the start time."""
        stop = ps.generic("Stop Time")
        if stop.empty:
            stop.value = np.datetime64(0, "s")
            ps.generic(("DICE", "period_length")).value = np.timedelta64(100, "s")
        e = ps.timeseries(("Emissions", "CO2"), "GtC/a",
                          np.array([-1000000, 0, 100000, 1000000], dtype="datetime64[s]"), timeseries_type="average",
                          extrapolation="constant")
        if e.empty:
            e.values = [1.0, 2.0, 3.0]

    def do_load(self, c, out):
        from openscm.adapters import load_adapter
        name = "openscm.adapters.dice"
        out["cls"] = 0
        kept = sys.modules.get(name, self)
        if c["broken"]:
            sys.modules[name] = None
        try:
            cls = load_adapter(c["name"])
        finally:
            if c["broken"]:
                del sys.modules[name]
                if kept is not self:
                    sys.modules[name] = kept
        assert isinstance(cls, type) and issubclass(cls, Adapter)
        if cls not in self.classes:
            self.classes.append(cls)
            self.patch(cls)
        out["cls"] = self.classes.index(cls) + 1

    def do_call(self, c, out):
        x = self.inst[c["a"] - 1]
        call = c["call"]
        if call == "release":
            self.inst[c["a"] - 1] = None
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                del x
                gc.collect()
        elif call == "init_input":
            x.initialize_model_input()
        elif call == "init_run":
            x.initialize_run_parameters()
        elif call == "step":
            out["r"] = secs(x.step())
        else:
            if call in ("run", "reset_stepping") and not isinstance(x, Adapter):
                # the run period follows the start time
                ps = x.parameters
                start = ps.generic("Start Time")
                if not start.empty:
                    ps.generic("Stop Time").value = start.value + np.timedelta64(100 * (STEPS - 1), "s")
            getattr(x, call)()


def session(sets, cmds):
    s = Session(sets)
    ev = [s.run(c) for c in cmds]
    for i in range(len(s.inst)):
        if s.inst[i] is not None:
            ev.append(s.run({"op": "call", "a": i + 1, "call": "release", "fail": "", "by": "0"}))
    return {"sets": sets, "ev": ev}


def forked(fn):
    """fn() in a process of its own."""
    r, w = os.pipe()
    gc.freeze()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            with os.fdopen(w, "w") as f:
                json.dump(fn(), f)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    with os.fdopen(r) as f:
        text = f.read()
    os.waitpid(pid, 0)
    return json.loads(text)


def make(r):
    """A random sequence of calls in an order the protocol allows."""
    sets = r.choice([1, 1, 2])
    cmds, inst = [], []      # inst: [kind, ps, state, steps]
    loaded = False
    start = {}
    for _ in range(r.choice([8, 15, 25, 40])):
        k = r.random()
        if k < 0.12:
            name = r.choice(["DICE"] * 3 + ["dice", "DICE2", "MAGICC6", "", "Probe", "Adapter", "OpenSCM"])
            broken = r.random() < 0.3
            cmds.append({"op": "load", "name": name, "broken": broken})
            loaded = loaded or name == "DICE" and not broken
        elif k < 0.2:
            ps = r.randint(1, sets)
            if ps not in start or not any(i[0] == "openscm" and i[1] == ps for i in inst):
                # (outputs of DICE keep the period they were first asked for)
                start[ps] = True
                cmds.append({"op": "start", "ps": ps, "val": str(r.choice([0, 5000, 86400, -100]) if not any(
                    i[0] == "openscm" for i in inst) else 5000)})
        elif k < 0.35 and len(inst) < 4 or not inst:
            kind = r.choice(["direct", "openscm"])
            ps = r.randint(1, sets)
            if kind == "openscm":
                name = r.choice(["DICE"] * 5 + ["DICE3", "none"])
                if name == "DICE" and not loaded:
                    cmds.append({"op": "load", "name": "DICE", "broken": False})
                    loaded = True
                cmds.append({"op": "new", "kind": kind, "ps": ps, "name": name})
                if name == "DICE":
                    inst.append([kind, ps, set(), 0])
            else:
                cmds.append({"op": "new", "kind": kind, "ps": ps, "name": "-"})
                inst.append([kind, ps, set(), 0])
        else:
            live = [i for i, x in enumerate(inst) if x[2] is not None]
            if not live:
                continue
            i = r.choice(live)
            kind, ps, st, n = inst[i]
            calls = ["release"] if r.random() < 0.15 else []
            if kind == "openscm":
                if ps in start:
                    calls += ["run", "reset_stepping"]
                elif r.random() < 0.3 and False:
                    calls += ["run"]
                if "reset" in st and n < STEPS - 1:
                    calls += ["step"] * 3
            else:
                calls += ["init_input", "init_run"]
                if {"init_input", "init_run"} <= st:
                    calls += ["reset"] * 2
                if "reset" in st:
                    calls += ["step"] * 2
                    if n == 0:
                        calls += ["run"] * 2
            if not calls:
                continue
            call = r.choice(calls)
            fail = r.choice(["model", "input", "runpar", "reset", "run", "step"]) if r.random() < 0.2 and \
                call != "release" else ""
            cmds.append({"op": "call", "a": i + 1, "call": call, "fail": fail,
                         "by": "100" if kind == "openscm" else str(r.choice([1, 100, 3600, -5]))})
            touches = {"init_input": ["model", "input"], "init_run": ["model", "runpar"], "reset": ["reset"],
                       "run": ["run"] + (["model", "input", "runpar", "reset"] if kind == "openscm" else []),
                       "reset_stepping": ["model", "input", "runpar", "reset"], "step": ["step"], "release": []}[call]
            bad = fail in touches or call in ("run", "reset", "reset_stepping") and ps not in start
            if call == "release":
                inst[i][2] = None
            elif bad:
                inst[i][2] -= {"reset"} if call != "step" or kind == "openscm" else set()
            elif call == "step":
                inst[i][3] += 1
            elif call == "run":
                inst[i][2] -= {"reset"}
            elif call in ("reset", "reset_stepping"):
                inst[i][2] |= {"reset"}
                inst[i][3] = 0
            else:
                inst[i][2] |= {call}
    return sets, cmds


def generate(rng, profile):
    sets, cmds = make(rng)
    return forked(lambda: session(sets, cmds)), {"sets": sets, "cmds": cmds}


def replay(script):
    return forked(lambda: session(script["sets"], script["cmds"]))
