"""Reporting and symbol helpers shared by the checks."""
import json
import os
import sys
import time

import numpy as np

import core
import fortran
import world
from core import const, grad, lift, run_paths, same, sym

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


def known_findings(pid):
    out = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            head, _, text = line[len("finding:"):].partition("|")
            d = dict(x.split("=", 1) for x in head.split())
            if d.get("property") == pid:
                out[(d["rule"], d["construct"])] = text.strip()
    return out


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.thorough = tier == "thorough"
        self.t0 = time.time()
        self.rules = {}        # rule -> [obligations, discharged]
        self.texts = {}        # rule -> text
        self.viol = {}         # (rule, construct) -> dict
        self.paths = 0
        self.configs = 0
        self.functions = {}    # analysed function -> evaluations
        self.lines = set()
        self.samples = []
        self.notes = []
        self.floors = []
        self.level = "other"

    # ---- recording
    def rule(self, name, text):
        self.rules.setdefault(name, [0, 0])
        self.texts[name] = text

    def ok(self, rule, n=1):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += n
        r[1] += n

    def check(self, cond, rule, construct, where, detail, path=None):
        r = self.rules.setdefault(rule, [0, 0])
        r[0] += 1
        if cond:
            r[1] += 1
            return True
        k = (rule, str(construct).replace(" ", "_"))
        v = self.viol.setdefault(k, dict(rule=rule, construct=k[1], where=where, detail=detail,
                                         path=path.describe() if path is not None else None, count=0))
        v["count"] += 1
        return False

    def same(self, a, b, rule, construct, where, detail, path=None):
        return self.check(eqv(a, b), rule, construct, where, detail, path)

    def path(self, p=None):
        self.paths += 1

    def sample(self, s):
        if len(self.samples) < 12:
            self.samples.append(s)

    def analysed(self, I=None, fnames=()):
        if I is not None:
            for k, v in I.calls.items():
                self.functions[k] = self.functions.get(k, 0) + v
            self.lines |= set(I.lines)
            for nm in getattr(I, "bem", None).calls if getattr(I, "bem", None) else ():
                k = world.BEM + ":" + nm
                self.functions[k] = self.functions.get(k, 0) + 1
        for f in fnames:
            self.functions[f] = self.functions.get(f, 0) + 1

    def floor(self, what, n, least):
        self.floors.append((what, n, least))

    # ---- output
    def finish(self):
        for what, n, least in self.floors:
            if n < least:
                print("ERROR: property=%s analysed only %d %s, at least %d expected" % (self.pid, n, what, least))
                self.write([], [])
                return 2
        known = known_findings(self.pid)
        fresh, listed = [], []
        for k, v in self.viol.items():
            (listed if k in known else fresh).append(v)
        rp = self.write(fresh, listed)
        tot = sum(r[0] for r in self.rules.values())
        dis = sum(r[1] for r in self.rules.values())
        print("%s %s: %d obligations, %d discharged, %d paths, %d functions, %.1f s" % (
            self.pid, self.tier, tot, dis, self.paths, len(self.functions), time.time() - self.t0))
        for rl, (o, d) in self.rules.items():
            print("  rule %-28s %6d/%-6d %s" % (rl, d, o, self.texts.get(rl, "")))
        for v in listed:
            print("KNOWN-FINDING: property=%s %s [%s %s]" % (self.pid, known[(v["rule"], v["construct"])], v["rule"], v["construct"]))
        if fresh:
            for v in fresh[:20]:
                print("  %s: %s: rule %s, %s: %s (%d occurrence(s)%s)" % (
                    self.pid, v["where"], v["rule"], v["construct"], v["detail"], v["count"],
                    "; path " + v["path"] if v["path"] else ""))
            print("VIOLATION property=%s replay=%s" % (self.pid, rp))
            return 1
        if tot == 0:
            print("ERROR: property=%s nothing analysed" % self.pid)
            return 2
        return 0

    def write(self, fresh, listed):
        os.makedirs(EVID, exist_ok=True)
        tot = sum(r[0] for r in self.rules.values())
        dis = sum(r[1] for r in self.rules.values())
        cov = dict(
            explanation="static analysis of the source in /repo; the analysed constructs, rules and obligation counts are listed",
            obligations=tot, discharged=dis, paths=self.paths, configurations=self.configs,
            rules={k: dict(obligations=v[0], discharged=v[1], text=self.texts.get(k, "")) for k, v in self.rules.items()},
            functions_analysed=dict(sorted(self.functions.items())),
            source_lines_visited=len(self.lines), samples=self.samples, notes=self.notes,
            violations=fresh, known_findings=listed)
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed, level=self.level, coverage=cov,
                  wall_s=round(time.time() - self.t0, 3))
        with open(os.path.join(EVID, self.pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1, default=str)
        rp = os.path.join(EVID, self.pid + ".replay.json")
        if fresh:
            with open(rp, "w") as f:
                json.dump(dict(property=self.pid, tier=self.tier, seed=self.seed,
                               command="python3-vt sa/run.py %s --tier %s" % (self.pid, self.tier), violations=fresh),
                          f, indent=1, default=str)
        elif os.path.exists(rp):
            os.remove(rp)
        return rp


# ------------------------------------------------------------------ values
def val(x):
    """field value of anything numeric; None when undefined"""
    try:
        return lift(x).v
    except Exception:
        return ("obj", repr(x))


def eqv(a, b):
    va, vb = val(a), val(b)
    return va is not None and va == vb


def differ(a, b, at=""):
    """first place where two results (numbers, arrays, dicts, sequences) are not the same values; None when equal"""
    if isinstance(a, dict) or isinstance(b, dict):
        if not (isinstance(a, dict) and isinstance(b, dict)):
            return at + ": %s against %s" % (type(a).__name__, type(b).__name__)
        if set(a) != set(b):
            return at + ": entries %s" % sorted(map(str, set(a) ^ set(b)))
        for k in a:
            d = differ(a[k], b[k], "%s[%s]" % (at, k))
            if d:
                return d
        return None
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if np.shape(a) != np.shape(b):
            return at + ": shape %s against %s" % (np.shape(a), np.shape(b))
        x, y = np.asarray(a, dtype=object), np.asarray(b, dtype=object)
        for i in np.ndindex(x.shape):
            d = differ(x[i], y[i], "%s%s" % (at, list(i)))
            if d:
                return d
        return None
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return at + ": different sequences"
        for i, (x, y) in enumerate(zip(a, b)):
            d = differ(x, y, "%s[%d]" % (at, i))
            if d:
                return d
        return None
    if a is b or isinstance(a, (str, bytes)) or a is None or b is None:
        return None if a is b or a == b else at + ": %r against %r" % (a, b)
    va, vb = val(a), val(b)
    if isinstance(va, tuple) or isinstance(vb, tuple):
        return None if type(a) is type(b) else at + ": %s against %s" % (type(a).__name__, type(b).__name__)
    return None if va == vb else (at or "value")


def shape(x):
    return np.shape(x)


def syms(spec, positive=()):
    pos = set(positive)
    return {k: sym(k, positive=k in pos) for k in (spec.split() if isinstance(spec, str) else spec)}


def vec(name, n, positive=False):
    a = np.empty(n, dtype=object)
    for i in range(n):
        a[i] = sym("%s[%d]" % (name, i), positive=positive)
    return a


def units(names, order):
    """unit seed matrix: column j of seed k is 1 iff k is the j-th direction"""
    out = {}
    for i, k in enumerate(order):
        s = np.empty(len(order), dtype=object)
        for j in range(len(order)):
            s[j] = const(1 if i == j else 0)
        out[k] = s
    return out


def unit_where(name):
    u, it = world.bem_units()
    if name not in u:
        raise world.AnchorLost("%s: subroutine %s" % (world.BEM, name))
    return "%s:%s (%s)" % (world.BEM, getattr(u[name], "line", "?"), name)


def each_path(rep, fn, on_path, seeds=None, **kw):
    """run fn on every path; program exceptions come back as results"""
    def wrapped():
        from pyinterp import PyRaise
        try:
            return fn()
        except PyRaise as e:
            return e
    uniform = kw.pop("uniform", True)

    def oc(c):
        c.uniform_on = uniform
    n = 0
    for p in run_paths(wrapped, seed=kw.pop("seed", rep.seed), on_ctx=oc, **kw):
        rep.path(p)
        n += 1
        on_path(p)
    return n


# ------------------------------------------------------------------ independent parts of a check in worker processes
def parallel(rep, jobs):
    """run jobs (functions of a report) in forked workers and merge what they report"""
    import pickle
    import pyinterp
    jobs = list(jobs)
    nw = max(1, min(int(os.environ.get("SA_JOBS", "0") or 0) or os.cpu_count() or 1, len(jobs)))
    if nw == 1:
        for j in jobs:
            j(rep)
        return
    world.bem_units()
    pipes = []
    for w in range(nw):
        r, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(r)
            sub = Report(rep.pid, rep.tier, rep.seed)
            err = None
            try:
                for j in jobs[w::nw]:
                    j(sub)
            except core.Unsupported as e:
                err = ("unsupported", str(e))
            except world.AnchorLost as e:
                err = ("anchor", str(e))
            except pyinterp.PyRaise as e:
                err = ("raise", type(e.exc).__name__, str(e.exc), tuple(e.where[:2]) if e.where else None)
            except BaseException:
                import traceback
                err = ("crash", traceback.format_exc())
            d = dict(rules=sub.rules, texts=sub.texts, viol=sub.viol, paths=sub.paths, configs=sub.configs,
                     functions=sub.functions, lines=sub.lines, samples=sub.samples, notes=sub.notes, floors=sub.floors, err=err)
            with os.fdopen(wr, "wb") as f:
                f.write(pickle.dumps(d))
            os._exit(0)
        os.close(wr)
        pipes.append((pid, r))
    errs = []
    for pid, r in pipes:
        with os.fdopen(r, "rb") as f:
            raw = f.read()
        os.waitpid(pid, 0)
        if not raw:
            raise RuntimeError("a worker process ended without a result")
        d = pickle.loads(raw)
        for k, (o, c) in d["rules"].items():
            x = rep.rules.setdefault(k, [0, 0])
            x[0] += o
            x[1] += c
        for k, t in d["texts"].items():
            rep.texts.setdefault(k, t)
        for k, v in d["viol"].items():
            if k in rep.viol:
                rep.viol[k]["count"] += v["count"]
            else:
                rep.viol[k] = v
        rep.paths += d["paths"]
        rep.configs += d["configs"]
        for k, v in d["functions"].items():
            rep.functions[k] = rep.functions.get(k, 0) + v
        rep.lines |= d["lines"]
        for s in d["samples"][:3]:
            rep.sample(s)
        for s in d["notes"]:
            if s not in rep.notes:
                rep.notes.append(s)
        rep.floors += d["floors"]
        if d["err"]:
            errs.append(d["err"])
    for e in errs:
        if e[0] == "raise":
            rep.check(False, "no-exception", e[1], "%s:%s" % e[3] if e[3] else "?", "the analysed call raises %s: %s" % (e[1], e[2]))
    for e in errs:
        if e[0] == "unsupported":
            raise core.Unsupported(e[1])
        if e[0] == "anchor":
            raise world.AnchorLost(e[1])
        if e[0] == "crash":
            raise RuntimeError(e[1])
