import itertools
from fractions import Fraction

import numpy as np

import core
import lib
import npmodel
import world
from checks import omcomp
from core import const, lift, sym
from pyinterp import PyRaise

W = "ccblade/ccblade.py (CCAirfoil.af_flap_coords)"
MODES = [dict(multi_run=True), dict(MPI_run=True), dict(multi_run=True, MPI_run=True)]
XFOIL = "/opt/xfoil"


def airfoil(I, name, tag=""):
    A = world.cls(I, "ccblade", "CCAirfoil")
    t = lambda k: np.array([[sym("%s%s[%d]" % (tag, k, i))] for i in range(4)], dtype=object)
    x, y = ([sym("%s%s%d" % (tag, k, i)) for i in range(5)] for k in "xy")
    a = A(omcomp.aoa_grid(4), omcomp.concrete([10 ** 6]), t("cl"), t("cd"), t("cm"), npmodel.oarr(x), npmodel.oarr(y), name)
    return a, x, y


def num(t):
    if t in npmodel.PLACE:
        return npmodel.PLACE[t][0]
    try:
        return const(Fraction(t))
    except (ValueError, ZeroDivisionError):
        return None


class Xfoil:
    """stand-in for the external program: follows its control script against the virtual files"""

    def __init__(self, fs):
        self.fs, self.runs, self.bad, self.made = fs, 0, [], []

    def __call__(self, cmd):
        self.runs += 1
        cmd = cmd if isinstance(cmd, str) else " ".join(cmd)
        parts = cmd.split()
        if len(parts) != 5 or parts[0] != XFOIL or parts[1] != "<" or parts[3] != ">":
            self.bad.append(("command", "command line %r" % cmd))
            return 1
        script, out = parts[2], parts[4]
        late = self.fs.unwritten()
        if late:
            self.bad.append(("script-closed", "%s not closed when the program starts" % ", ".join(late)))
        if script not in self.fs.files:
            self.bad.append(("script", "control script %s does not exist when the program starts" % script))
            return 1
        self.fs.files[out] = "log"
        self.fs.ev("create", out)
        self.script = [l.strip() for l in self.fs.files[script].split("\n")]
        self.run([l for l in self.script])
        return 0

    def points(self):
        """one coordinate pair per panel node (a few where many are asked for)"""
        k = num(self.nodes)
        return int(k.q) if k is not None and k.q is not None and 0 < k.q < 10 else 3

    def run(self, L):
        at = {k: L.index(k) for k in ("LOAD", "GDES", "FLAP", "EXEC", "PPAR", "N", "PSAV", "QUIT") if k in L}
        miss = [k for k in ("LOAD", "GDES", "FLAP", "EXEC", "PPAR", "N", "PSAV", "QUIT") if k not in at]
        if miss:
            self.bad.append(("script", "control script without %s" % ", ".join(miss)))
            return
        order = ["LOAD", "GDES", "FLAP", "EXEC", "PPAR", "PSAV", "QUIT"]
        if sorted(order, key=lambda k: at[k]) != order:
            self.bad.append(("script", "commands out of order"))
        if [l for l in L[at["QUIT"] + 1:] if l]:
            self.bad.append(("script", "text after QUIT"))
        g = lambda k, j: L[at[k] + j] if at[k] + j < len(L) else ""
        self.coords, self.title = g("LOAD", 1), g("LOAD", 2)
        self.hinge = [g("FLAP", j) for j in (1, 2, 3, 4)]
        self.nodes = g("N", 1)
        self.save = g("PSAV", 1)
        if self.coords not in self.fs.files:
            self.bad.append(("script", "coordinates file %s does not exist when the program starts" % self.coords))
            self.loaded = None
        else:
            self.loaded = [[num(t) for t in l.split()] for l in self.fs.files[self.coords].split("\n") if l.strip()]
        if self.save in self.fs.files:
            # the program asks before overwriting and reads the answer from the script
            self.bad.append(("stale", "result file %s is still there when the program starts" % self.save))
        k = self.runs
        self.result = [(sym("flap x%d,%d" % (k, i)), sym("flap y%d,%d" % (k, i))) for i in range(self.points())]
        toks = []
        for row in self.result:
            toks.append(" ".join(HOLD(v) for v in row))
        self.fs.files[self.save] = "\n".join(toks) + "\n"
        self.fs.ev("create", self.save)


def HOLD(v):
    I = npmodel.HOOKS["interp"]
    return I.percent_format("%.18e", lift(v))


def touched(fs, a=0):
    """names opened for writing, created or removed"""
    out = set()
    for e in fs.events[a:]:
        if e[0] == "open" and ("w" in e[2] or "a" in e[2] or "x" in e[2] or "+" in e[2]):
            out.add(e[1])
        elif e[0] in ("create", "remove"):
            out.add(e[1])
    return out


def setup(pid, files):
    I = world.fresh()
    fs = npmodel.HOOKS["fs"] = npmodel.FS()
    fs.files.update(files)
    npmodel.HOOKS["pid"] = pid
    X = npmodel.HOOKS["system"] = Xfoil(fs)
    return I, fs, X


def names(pid, name, df, mode):
    I, fs, X = setup(pid, {})
    a, x, y = airfoil(I, name)
    I.getattr(a, "af_flap_coords")(XFOIL, df, **mode)
    return touched(fs)


def one(rep, pid, name, df, mode, stale=None, other=(), keep=()):
    """a run starting from given leftovers: stale = subset of the run's own names chosen by a bit mask"""
    rep.configs += 1
    what = "airfoil %s, flap %s, %s, process %s, leftovers %s" % (name, df, mode or "serial", pid, stale if stale is not None else "none")

    def fn():
        own = sorted(names(pid, name, df, mode))
        left = {n: "left over %s\n" % n for k, n in enumerate(own) if stale is not None and (stale >> k) & 1}
        files = dict(left, **{n: "belongs to someone else" for n in keep})
        I, fs, X = setup(pid, files)
        a, x, y = airfoil(I, name)
        xc, yt = sym("xc_hinge"), sym("yt_hinge")
        I.getattr(a, "af_flap_coords")(XFOIL, df, xc, yt, 120, **mode)
        return I, fs, X, a, x, y, xc, yt, own

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, fs, X, a, x, y, xc, yt, own = p.result
        rep.analysed(I)
        c = lambda cond, rule, k, d: rep.check(cond, rule, k, W, "%s (%s)" % (d, what), p)
        c(X.runs == 1, "script", "runs", "the program is started %d times" % X.runs)
        seen = set()
        for k, d in X.bad:
            c(False, {"stale": "stale-removed", "script-closed": "script-closed"}.get(k, "script"), k, d)
            seen.add(k)
        for k, r in (("stale", "stale-removed"), ("script-closed", "script-closed"), ("script", "script")):
            if k not in seen:
                rep.ok(r)
        if getattr(X, "loaded", None) is not None:
            got = [[lib.val(v) for v in r] for r in X.loaded]
            c(got == [[u.v, v.v] for u, v in zip(x, y)], "script", "coordinates", "the program does not load this airfoil's coordinates")
            h = [num(t) for t in X.hinge]
            ok = all(v is not None for v in h) and h[0].v == xc.v and h[1].v == const(999).v and h[2].v == yt.v and h[3].v == lift(df).v
            c(ok, "script", "flap", "flap hinge and deflection %s" % X.hinge)
            c(num(X.nodes) is not None and num(X.nodes).v == const(120).v, "script", "panels", "panel count %s" % X.nodes)
        res = getattr(X, "result", None)
        if res is not None:
            fx, fy = I.getattr(a, "af_flap_xcoords"), I.getattr(a, "af_flap_ycoords")
            ok = len(fx) == len(res) and all(lib.eqv(u, r[0]) and lib.eqv(v, r[1]) for u, v, r in zip(fx, fy, res))
            c(ok, "result", "coords", "flap coordinates are not those the program wrote in this run")
            c(lib.eqv(I.getattr(a, "ctrl"), df), "result", "ctrl", "the deflection is not stored")
        rest = set(fs.files) - set(keep)
        c(not rest, "cleanup", "scratch", "files left: %s" % sorted(rest))
        c(all(fs.files.get(n) == "belongs to someone else" for n in keep), "cleanup", "others", "files of others changed: %s" % sorted(
            n for n in keep if n not in fs.files))
        c(not fs.unwritten(), "script-closed", "open", "files left open")
        rep.sample(what)
    lib.each_path(rep, fn, on)


def private(rep, name, df, mode, pids):
    """two processes never touch a common name"""
    rep.configs += 1
    what = "airfoil %s, flap %s, %s" % (name, df, mode)

    def fn():
        return [names(pid, name, df, mode) for pid in pids]

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        S = p.result
        for (i, a), (j, b) in itertools.combinations(enumerate(S), 2):
            rep.check(not (a & b), "private-names", "names", W, "processes %s and %s both touch %s (%s)" % (pids[i], pids[j], sorted(a & b), what), p)
        for pid, s in zip(pids, S):
            for n in s:
                rep.check(str(pid) in n, "private-names", "pid", W, "%s does not carry the process number %s (%s)" % (n, pid, what), p)
    lib.each_path(rep, fn, on)


def again(rep, pid, mode):
    """two flaps of two airfoils one after the other in one process"""
    rep.configs += 1

    def fn():
        I, fs, X = setup(pid, {})
        a, x, y = airfoil(I, "A")
        b, u, v = airfoil(I, "B", "b ")
        out = []
        for af, df in ((a, 5), (a, -5), (b, 5)):
            I.getattr(af, "af_flap_coords")(XFOIL, df, **mode)
            out.append((list(I.getattr(af, "af_flap_xcoords")), [r[0] for r in X.result]))
        return I, fs, X, out

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, fs, X, out = p.result
        for k, d in X.bad:
            rep.check(False, "stale-removed", k, W, "%s (second run in one process)" % d, p)
        for g, w in out:
            rep.check(lib.differ(g, w) is None, "result", "sequence", W, "coordinates of another run", p)
        rep.check(not fs.files, "cleanup", "sequence", W, "files left: %s" % sorted(fs.files), p)
    lib.each_path(rep, fn, on)


def same_object(rep, pid, mode):
    """every request of one airfoil starts the program and stores what that run wrote, whatever was asked before"""
    rep.configs += 1
    h1, h2 = (sym("xc 1"), sym("yt 1")), (sym("xc 2"), sym("yt 2"))
    asks = [(5, h1, 4), (5, h1, 4), (5, h2, 4), (5, h2, 6), (-5, h2, 6), (5, h1, 4), (5, h1, 100), (5, h2, 100)]

    def fn():
        I, fs, X = setup(pid, {})
        a, x, y = airfoil(I, "A")
        out = []
        for df, h, nn in asks:
            I.getattr(a, "af_flap_coords")(XFOIL, df, h[0], h[1], nn, **mode)
            out.append((X.runs, [num(t) for t in X.hinge], num(X.nodes), list(I.getattr(a, "af_flap_xcoords")),
                        list(I.getattr(a, "af_flap_ycoords")), list(X.result), lift(I.getattr(a, "ctrl"))))
        return I, fs, X, out

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, fs, X, out = p.result
        for i, ((df, h, nn), (runs, hinge, nodes, gx, gy, want, ctrl)) in enumerate(zip(asks, out)):
            what = "request %d of one airfoil, %s" % (i + 1, mode or "serial")
            ok = all(v is not None for v in hinge) and hinge[0].v == h[0].v and hinge[2].v == h[1].v and lib.eqv(hinge[3], const(df))
            rep.check(ok and nodes is not None and lib.eqv(nodes, const(nn)), "script", "again", W, "the last run is for other settings (%s)" % what, p)
            # a repeated request may reuse the coordinates of the same settings
            ok = len(gx) == len(want) and all(lib.eqv(u, r[0]) and lib.eqv(v, r[1]) for u, v, r in zip(gx, gy, want))
            rep.check(ok, "result", "again", W, "the stored coordinates are not those of the last run (%s)" % what, p)
            rep.check(lib.eqv(ctrl, const(df)), "result", "ctrl-again", W, "deflection %s stored for %s (%s)" % (ctrl.f, df, what), p)
        rep.check(not fs.files, "cleanup", "again", W, "files left: %s" % sorted(fs.files), p)
    lib.each_path(rep, fn, on)


def run(rep):
    rep.rule("private-names", "in parallel mode every scratch name carries the process number and two processes share none")
    rep.rule("script", "the control script is complete, in order, and names this airfoil's coordinates, hinge, deflection and panels")
    rep.rule("script-closed", "script and coordinates are closed before the external program starts")
    rep.rule("stale-removed", "results left by an earlier run are gone before the program starts")
    rep.rule("result", "the stored coordinates and deflection are those of this run")
    rep.rule("cleanup", "after a successful run no scratch file is left and no other file was touched")
    KEEP = ("notes.txt", "Polar.txt", "profile.dat", "other_p7.txt")
    DF = (12, -5, 0) if not rep.thorough else (12, -5, 0, 1, Fraction(5, 2))
    PIDS = (7, 17, 71, 1234)
    for df in DF:
        d = const(df)
        for nm in ("DEFAULTAF", "af21") if rep.thorough else ("DEFAULTAF",):
            for mode in MODES:
                private(rep, nm, d, mode, PIDS)
            for mode in MODES + [{}]:
                one(rep, 17, nm, d, mode, None, keep=KEEP)
    d = const(12)
    for mode in (MODES[0], {}) if not rep.thorough else MODES + [{}]:
        n = len(names_ctx(17, "S809", d, mode))
        rep.check(n >= 3, "private-names", "count", W, "only %d scratch files found" % n)
        for bits in range(1, 2 ** n):
            one(rep, 17, "S809", d, mode, bits, keep=KEEP)
        again(rep, 17, mode)
        same_object(rep, 17, mode)
    rep.floor("runs", rep.configs, 30)


def names_ctx(pid, name, df, mode):
    out = []
    for p in core.run_paths(lambda: names(pid, name, df, mode)):
        if isinstance(p.result, PyRaise):
            raise p.result
        out.append(p.result)
    return out[0]
