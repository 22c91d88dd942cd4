"""
Running checks: drive the real code (worker.py, under the python openscm is installed
in), let TLC validate the recorded traces against the specification, explore the design
models, write the evidence file.
"""
import collections
import concurrent.futures as cf
import json
import os
import random
import re
import shutil
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPECS = os.path.join(VERIF, "specs")
HARNESS = os.path.join(VERIF, "harness")
REPO = os.environ.get("VERIF_REPO", "/repo")
PY = os.environ.get("VERIF_PYTHON", "/opt/venv/bin/python")
TLA = "/opt/veriftools/tla"
JARS = TLA + "/tla2tools.jar:" + TLA + "/CommunityModules-deps.jar"
PROCS = 8


class MachineryError(Exception):
    pass


class Bench:
    """A scratch directory with the compiled operator overrides."""

    def __init__(self, name):
        base = os.path.join(VERIF, "build")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run-%s-" % name, dir=base)
        self.classes = os.path.join(self.dir, "classes")
        os.makedirs(self.classes)
        src = os.path.join(SPECS, "java")
        subprocess.run(["javac", "-nowarn", "-cp", TLA + "/tla2tools.jar", "-d", self.classes]
                       + [os.path.join(src, f) for f in sorted(os.listdir(src)) if f.endswith(".java")],
                       check=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def tlc(self, module, cfg=None, env=None, workers=1, args=(), timeout=800, heap="3g"):
        """Run TLC; returns its output."""
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.dir)
        cmd = ["java", "-Xmx" + heap, "-Xss64m",
               "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
               "-Dtlc2.overrides.TLCOverrides=tlc2.overrides.TLCOverrides:NumOverrides",
               "-cp", self.classes + ":" + JARS, "tlc2.TLC", "-noGenerateSpecTE", "-nowarning", "-deadlock",
               "-metadir", meta, "-workers", str(workers),
               "-config", (cfg or module) + ".cfg"] + list(args) + [module + ".tla"]
        e = dict(os.environ)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=SPECS, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, universal_newlines=True, errors="replace")
        except subprocess.TimeoutExpired:
            raise MachineryError("TLC ran out of time on " + module)
        finally:
            shutil.rmtree(meta, ignore_errors=True)
        return p.stdout

    # ---- traces --------------------------------------------------------
    def record(self, domain, profile, seed, count, seconds, scripts=None, tag=""):
        """Generate scripts (or execute the given ones) on the real code."""
        out = os.path.join(self.dir, "t-%s-%s-%s%s" % (domain, profile, seed, tag))
        cmd = [PY, "-B", os.path.join(HARNESS, "worker.py"), domain, profile, str(seed), str(count), str(seconds), out]
        if scripts is not None:
            with open(out + ".in.json", "w") as f:
                json.dump(scripts, f)
            cmd.append(out + ".in.json")
        env = dict(os.environ, VERIF_REPO=REPO, PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                   VERIF_SCRATCH=self.dir)
        p = subprocess.run(cmd, env=env, cwd=self.dir, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           universal_newlines=True, errors="replace", timeout=seconds + 300)
        if p.returncode != 0:
            raise MachineryError("driver failed: " + p.stderr[-3000:])
        with open(out + ".json") as f:
            traces = json.load(f)
        with open(out + ".scripts.json") as f:
            sc = json.load(f)
        return traces, sc

    def validate(self, module, traces, tag, timeout=800, depth=0):
        """Let TLC judge traces: (rejections by id, states)."""
        if not traces:
            return {}, 0, 0
        path = os.path.join(self.dir, "v-%s.json" % tag)
        with open(path, "w") as f:
            json.dump(traces, f)
        out = self.tlc(module, env={"TRACE": path}, timeout=timeout)
        os.remove(path)
        done, rej = set(), {}
        broken = re.search(r"^/\\ tid = (\d+)$", out, re.M)
        if "Error: " in out and broken:
            # the recorded event is not even of the form the specification expects
            i = int(broken.group(1)) - 1
            at = [int(x) for x in re.findall(r"^/\\ l = (\d+)$", out, re.M)][-1]
            err = out[out.find("Error: "):][:600]
            if depth > 6:  # enough seen: the others stay without judgement
                rej = {t["id"]: {"reject": t["id"], "at": 1, "why": "unjudged", "want": ""} for t in traces}
                rej[traces[i]["id"]].update(at=at, why="malformed", want=err)
                return rej, 0, 0
            rest = traces[:i] + traces[i + 1:]
            rej, gen, dist = self.validate(module, rest, tag, timeout, depth + 1)
            rej[traces[i]["id"]] = {"reject": traces[i]["id"], "at": at, "why": "malformed", "want": err}
            return rej, gen, dist
        for line in out.splitlines():
            if line.startswith('"@@'):
                d = json.loads(json.loads(line)[2:])
                if "done" in d:
                    done.add(d["done"])
                else:
                    rej[d["reject"]] = d
        missing = [t["id"] for t in traces if t["id"] not in done and t["id"] not in rej]
        m = re.search(r"(\d+) states generated, (\d+) distinct", out)
        if missing or not m:
            k = out.find("Error")
            raise MachineryError("no verdict from TLC on %s (%d traces)\n%s" % (missing[:3], len(missing), out[k:k + 3000]))
        return rej, int(m.group(1)), int(m.group(2))

    # ---- design models --------------------------------------------------
    def model(self, module, consts=None, workers=8, timeout=800, cfg=None):
        """Exhaustively check a design model (with other constants); returns its statistics."""
        t0 = time.time()
        cfg = cfg or module
        name = cfg
        if consts:
            with open(os.path.join(SPECS, cfg + ".cfg")) as f:
                text = f.read()
            for k, v in consts.items():
                text, hit = re.subn(r"\b%s = \S+" % k, "%s = %s" % (k, v), text)
                if hit != 1:
                    raise MachineryError("no constant %s in %s" % (k, cfg))
            name += "(%s)" % ", ".join("%s=%s" % x for x in consts.items())
            cfg = tempfile.mkstemp(prefix=module, suffix=".cfg", dir=self.dir)[1]
            with open(cfg, "w") as f:
                f.write(text)
            cfg = cfg[:-4]
        out = self.tlc(module, cfg=cfg, workers=workers, timeout=timeout, heap="8g")
        m = re.search(r"(\d+) states generated, (\d+) distinct states found, 0 states left", out)
        if "No error has been found" not in out or not m:
            k = out.find("Error")
            raise MachineryError("design model %s fails\n%s" % (name, out[k:k + 3000]))
        lines = scripts_of(out)
        cover = dict(collections.Counter(h[-1]["op"] if isinstance(h, list) and h else "event" for h in lines))
        return {"model": name, "generated": int(m.group(1)), "distinct": int(m.group(2)),
                "transitions_printed": cover, "seconds": round(time.time() - t0, 1), "lines": lines}


def scripts_of(out):
    """What a model printed with PrintT("@@" \\o ToJson(...))."""
    res = []
    for line in out.splitlines():
        if line.startswith('"@@'):
            res.append(json.loads(json.loads(line)[2:]))
    return res


def split(xs, n):
    return [xs[i::n] for i in range(n) if xs[i::n]]


def corrupted(traces, rng, n, corrupt):
    """Copies of some traces with one recorded result falsified."""
    res = []
    order = list(traces)
    rng.shuffle(order)
    for t in order:
        if len(res) >= n:
            break
        c = json.loads(json.dumps(t))
        if corrupt(c, rng):
            c["id"] = t["id"] + "~"
            res.append(c)
    return res


def falsify(trace, rng):
    """Falsify one recorded result: a value or an outcome."""
    ev = trace["ev"]
    cand = [i for i, e in enumerate(ev)
            if e.get("err") == "" and isinstance(e.get("r"), list) and e["r"] and isinstance(e["r"][0], str)
            and re.match(r"^-?\d+(/\d+)?$", e["r"][0])]
    if cand:
        i = rng.choice(cand)
        ev[i]["r"][0] = str(int(ev[i]["r"][0].split("/")[0]) * 3 + 10 ** 12 + 7)
        return True
    return False


class Check:
    """One run of one property's check."""

    def __init__(self, pid, level="model_checking"):
        self.pid = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1") or 1)
        self.t0 = time.time()
        self.bench = Bench(pid)
        self.models = []
        self.states = self.distinct = self.accepted = self.rejected = 0
        self.ops = collections.Counter()
        self.errs = collections.Counter()
        self.samples = []
        self.violations = []
        self.others = []
        self.false_total = self.false_rejected = 0
        self.events = 0

    def deep(self, quick, thorough):
        return thorough if self.tier == "thorough" else quick

    def campaign(self, domain, module, profile, count, relevant, seconds=60, scripts=None, corrupt=falsify, tag="",
                 chunk=None):
        """
        Record count random traces (or execute scripts) on the code and validate them.
        relevant(rejection, trace): does the rejection concern this property?
        """
        jobs = []
        if scripts is None:
            n = max(1, min(PROCS * (chunk or 1), count))
            per = -(-count // n)
            for i in range(n):
                jobs.append(("%d.%d" % (self.seed, i), per, None))
        else:
            for i, part in enumerate(split(scripts, PROCS * (chunk or 1))):
                jobs.append(("s%d" % i, len(part), part))

        def one(job):
            seed, n, part = job
            tr, sc = self.bench.record(domain, profile, seed, n, seconds, scripts=part, tag=tag)
            rng = random.Random(seed)
            bad = corrupted(tr, rng, 4, corrupt) if corrupt else []
            rej, gen, dist = self.bench.validate(module, tr + bad, "%s-%s-%s%s" % (domain, profile, seed, tag))
            if os.environ.get("VERIF_TIMES"):
                print("%s %s: until %.1f s" % (domain, seed, time.time() - self.t0))
            return tr, sc, bad, rej, gen, dist
        with cf.ThreadPoolExecutor(PROCS) as ex:
            results = list(ex.map(one, jobs))
        for tr, sc, bad, rej, gen, dist in results:
            self.states += dist
            self.distinct += dist
            for b in bad:
                self.false_total += 1
                self.false_rejected += b["id"] in rej
            for t, s in zip(tr, sc):
                for e in t["ev"]:
                    self.events += 1
                    self.ops[e["op"]] += 1
                    if e.get("err"):
                        self.errs[e["err"]] += 1
                r = rej.get(t["id"])
                if r is None:
                    self.accepted += 1
                    continue
                self.rejected += 1
                (self.violations if relevant(r, t) else self.others).append((domain, module, r, t, s))
            if len(self.samples) < 3 and tr:
                t = min(tr, key=lambda x: abs(len(x["ev"]) - 8))
                self.samples.append({"id": t["id"], "events": [brief(e) for e in t["ev"][:12]]})

    def add_model(self, m):
        if os.environ.get("VERIF_TIMES"):
            print("%s: %.1f s" % (m["model"], m["seconds"]))
        self.models.append({k: v for k, v in m.items() if k != "lines"})

    def finish(self, extra=None, assumptions=None):
        if self.false_total and not self.false_rejected:
            raise MachineryError("none of %d falsified traces was rejected" % self.false_total)
        shown = set()
        runs = os.path.join(VERIF, "runs", self.pid)
        for domain, module, r, t, s in self.violations:
            key = r["why"]
            if key in shown or len(shown) >= 5:
                continue
            shown.add(key)
            os.makedirs(runs, exist_ok=True)
            path = os.path.join(runs, re.sub(r"[^\w.-]", "_", t["id"]) + ".json")
            short = dict(s)
            for k in ("cmds",):
                if k in short:
                    short[k] = short[k][:r["at"]]
            with open(path, "w") as f:
                json.dump({"property": self.pid, "domain": domain, "module": module, "clause": r["why"], "at": r["at"],
                           "expected": r["want"], "event": t["ev"][r["at"] - 1] if r["at"] <= len(t["ev"]) else None,
                           "script": short}, f, indent=1)
            print("VIOLATION property=%s replay=%s clause=%s event=%s expected=%s" % (
                self.pid, path, r["why"], json.dumps(brief(t["ev"][min(r["at"], len(t["ev"])) - 1]))[:400],
                r["want"][:300]))
        for o in self.others[:3]:
            print("NOTE: trace %s rejected by clause %s, which does not concern %s" % (o[3]["id"], o[2]["why"], self.pid))
        cov = {
            "states": sum(m["distinct"] for m in self.models) + self.distinct,
            "transitions": sum(m["generated"] for m in self.models) + self.events,
            "traces_validated_against_impl": self.accepted + self.rejected,
            "samples": self.samples or [{"note": "none"}],
            "trace_events": self.events,
            "events_by_operation": dict(self.ops.most_common()),
            "errors_observed": dict(self.errs.most_common()),
            "design_models": self.models,
            "falsified_traces": {"made": self.false_total, "rejected": self.false_rejected},
            "rejections_not_concerning_property": len(self.others),
        }
        cov.update(extra or {})
        ev = {"property": self.pid, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
              "assumptions": assumptions or []}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        print("%s %s: %d traces (%d events) validated, %d rejected; %d design states; %.0f s" % (
            self.pid, self.tier, self.accepted + self.rejected, self.events, len(self.violations),
            sum(m["distinct"] for m in self.models), time.time() - self.t0))
        return 1 if self.violations else 0


def brief(x, depth=0):
    """Shortened copy of an event for people."""
    if isinstance(x, str):
        m = re.match(r"^-?(\d+)/(\d+)$", x)
        if m:
            p, q = x.split("/")
            try:
                return "%.6g" % (int(p) / int(q))
            except OverflowError:
                return x[:20]
        return x if len(x) < 80 else x[:77] + "..."
    if isinstance(x, list):
        y = [brief(i, depth + 1) for i in x[:12]]
        return y + ["... %d" % len(x)] if len(x) > 12 else y
    if isinstance(x, dict):
        if set(x) == {"s", "f"}:
            return x["s"]
        return {k: brief(v, depth + 1) for k, v in x.items()}
    return x


def known_findings():
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return json.load(f)["findings"]
