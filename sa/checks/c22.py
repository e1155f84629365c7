import numpy as np

import core
import lib
import npmodel
import world
from checks.c21 import GRIDS, RE, setup, union, resampled, view
from checks.c27 import HEAD
from checks.geom import rad
from checks.polarref import COEF, P, angle, compare
from core import const, lift, sym
from fractions import Fraction as Fr
from pyinterp import PyRaise

WW = "ccblade/airfoilprep.py (Airfoil.writeToAerodynFile)"
WR = "ccblade/airfoilprep.py (Airfoil.initFromAerodynFile)"
WU = "ccblade/airfoilprep.py (Polar.unsteadyparam)"


def go(rep, fn, on, explore="flip"):
    rep.configs += 1

    def on2(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        rep.analysed(p.result[0])
        on(p, *p.result)
    lib.each_path(rep, fn, on2, explore=explore)


def number(t):
    return npmodel.PLACE[t][0] if t in npmodel.PLACE else const(Fr(t))


def digits(t):
    """decimals written (None: all of them)"""
    if t in npmodel.PLACE:
        s = npmodel.PLACE[t][1]
        if "." in s:
            s = s.split(".")[1].rstrip("fFeEgG%")
            return int(s) if s.isdigit() else None
        return 6 if s[-1:] in "fF" and s else None
    return None


FINE = [Fr(x, 2) for x in range(-50, 51)]


def stall(tag):
    """numeric polar with enough points in the linear range: parameters do not vanish"""
    k = {"p": 0, "q": 1, "s": 2}[tag]
    cl = [(Fr(11 + k, 100) * a + Fr(1, 5) - Fr(1, 10 ** 4) * a ** 3 / 8) for a in FINE]
    cd = [Fr(1, 100) + Fr(1, 1000) * (a - Fr(3 + k)) ** 2 / 4 for a in FINE]
    cm = [Fr(-5, 100) - Fr(1 + k, 1000) * a for a in FINE]
    return P(const(RE[k]), FINE, *[[const(x) for x in v] for v in (cl, cd, cm)])


def roundtrip(rep, order, grids, via, fine=False):
    what = "%d polars, read by %s%s" % (len(order), via, ", stall parameters" if fine else "")

    def fn():
        if fine:
            I = world.fresh()
            ps = [stall(t) for t in "pqs"[:len(order)]]
            made = [q.make(I) for q in ps]
            af = world.cls(I, "airfoilprep", "Airfoil")([made[i] for i in order])
        else:
            I, ps, made, af = setup(order, grids)
        I.getattr(af, "writeToAerodynFile")("out.dat")
        fs = npmodel.HOOKS["fs"]
        text = fs.files.get("out.dat")
        params = [I.getattr(resampled(q, union(ps)).make(I), "unsteadyparam")() for q in ps]
        C = world.cls(I, "airfoilprep", "Airfoil")
        back = I.getattr(C, "initFromAerodynFile")("out.dat")
        return I, ps, text, params, [x for x in I.getattr(back, "polars")], list(fs.files)

    def on(p, I, ps, text, params, back, files):
        rep.check(files == ["out.dat"], "layout", "files", WW, "files written: %s" % files, p)
        L = text.split("\n")
        al = union(ps)
        rec = 4 + len(ps) * (1 + 8 + len(al) + 1)
        rep.check(len(L) == rec + 1 and L[-1] == "", "layout", "records", WW, "%d lines, %d records expected (%s)" % (len(L) - 1, rec, what), p)
        if len(L) == rec + 1:
            rep.check(lib.eqv(number(L[3].split()[0]), const(len(ps))), "layout", "tables", WW, "number of tables (%s)" % what, p)
            at = 4
            for q, pr in zip(ps, params):
                t = L[at].split()[0]
                rep.same(number(t), q.Re / const(10 ** 6), "layout", "Re", WW, "Reynolds number in millions (%s)" % what, p)
                for k in range(8):
                    t = L[at + 1 + k].split()[0]
                    rep.check(near(number(t), pr[k], 7), "parameters", "parameter-%d" % k, WW, "record %d is not the polar's parameter (%s)" % (k, what), p)
                for i, x in enumerate(al):
                    c = L[at + 9 + i].split()
                    if rep.check(len(c) == 4, "layout", "columns", WW, "%d columns (%s)" % (len(c), what), p):
                        want = [const(x)] + [q.at(x, k) for k in COEF]
                        for nm, t, v in zip(("alpha",) + COEF, c, want):
                            rep.check(near(number(t), v, 7), "layout", nm, WW, "column %s at %s degrees (%s)" % (nm, x, what), p)
                            d = digits(t)
                            rep.check(d is None or d >= 4, "digits", nm, WW, "only %s decimals are written" % d, p)
                rep.check(L[at + 9 + len(al)].strip() == "EOT", "layout", "end", WW, "table not closed (%s)" % what, p)
                at += 10 + len(al)
        if rep.check(len(back) == len(ps), "round-trip", "tables", WW, "%d polars read back of %d (%s)" % (len(back), len(ps), what), p):
            for b, q in zip(back, ps):
                ref = resampled(q, al)
                g = view(I, b)
                rep.check(near(g["Re"], q.Re, 0), "round-trip", "Re", WW, "Reynolds number read back (%s)" % what, p)
                for k in ("alpha",) + COEF:
                    v = ref.al if k == "alpha" else getattr(ref, k)
                    if rep.check(np.shape(g[k]) == (len(al),), "round-trip", k, WW, "%s rows read back (%s)" % (np.shape(g[k]), what), p):
                        for i in range(len(al)):
                            rep.check(near(g[k][i], lift(v[i]) if k != "alpha" else const(v[i]), 7), "round-trip", k, WW,
                                      "%s at %s degrees is not read back (%s)" % (k, al[i], what), p)
        rep.sample(what)
    go(rep, fn, on)


def near(a, b, dec):
    """same value, or same printed number for constants"""
    a, b = lift(a), lift(b)
    if a.v is not None and a.v == b.v:
        return True
    return a.f is not None and b.f is not None and is_number(a) and is_number(b) and abs(float(a.f) - float(b.f)) <= 6e-7 * max(1, 0)


def is_number(n):
    return not core.leaves(n)


def reader(rep, tables, via):
    """an independently written file against what the reader builds"""
    what = "%d tables, %s" % (len(tables), via)

    def fn():
        I = world.fresh()
        s = "first header line\nsecond, a description 3 4 5 6\nthird\n%d   tables 9\n" % len(tables)
        for t, (Re, rows) in enumerate(tables):
            s += "%s\tRe in millions\n" % Re
            for k in range(8):
                s += "%d.%d\tparameter %d\n" % (t, k, k)
            s += "".join("%s\t%s  %s %s\n" % r for r in rows) + ("EOT\n" if t % 2 else "EOT  end of table\n")
        npmodel.HOOKS["fs"].files["in.dat"] = s
        C = world.cls(I, "airfoilprep", "Airfoil")
        return I, I.getattr(C, "initFromAerodynFile")("in.dat")

    def on(p, I, af):
        ps = I.getattr(af, "polars")
        T = sorted(tables, key=lambda t: Fr(t[0]))
        if rep.check(len(ps) == len(T), "reader", "tables", WR, "%d polars of %d tables" % (len(ps), len(T)), p):
            for g, (Re, rows) in zip(ps, T):
                f = lambda j: [const(Fr(r[j])) for r in rows]
                ref = P(const(Fr(Re) * 10 ** 6), [Fr(r[0]) for r in rows], f(1), f(2), f(3))
                compare(rep, p, I, g, ref, "reader", "initFromAerodynFile", WR, what)
        rep.sample("reader: " + what)
    go(rep, fn, on)


def parameters(rep):
    """the written parameters are consistent with each other and in the unit of their label"""
    for tag in "pqs":
        q = stall(tag)

        def fn():
            I = world.fresh()
            return I, I.getattr(q.make(I), "unsteadyparam")()

        def on(p, I, pr):
            w = "polar %s" % tag
            if not rep.check(len(pr) == 8, "parameters", "unsteadyparam", WU, "%d parameters" % len(pr), p):
                return
            pr = [lift(x[()] if isinstance(x, np.ndarray) else x) for x in pr]
            idx = [i for i, a in enumerate(q.al) if -5 <= a <= 5]
            X = [rad(const(q.al[i])) for i in idx]
            cn = [q.cl[i] * core.cos(x) + q.cd[i] * core.sin(x) for i, x in zip(idx, X)]
            n = len(idx)
            sx, sy, sxx, sxy = sum(X, const(0)), sum(cn, const(0)), sum((x * x for x in X), const(0)), sum((x * y for x, y in zip(X, cn)), const(0))
            m = (sxy * n - sx * sy) / (sxx * n - sx * sx)
            a0 = -((sy - m * sx) / n) / m
            rep.check(pr[0].q == 0, "parameters", "control-setting", WU, w, p)
            rep.same(pr[3], m, "parameters", "slope", WU, "slope of the linear fit of cn (%s)" % w, p)
            rep.same(rad(pr[2]), a0, "parameters", "zero-cn-angle", WU, "angle of zero cn in degrees (%s)" % w, p)
            rep.same(pr[4], m * (rad(pr[1]) - a0), "parameters", "cn-stall", WU, "cn at the stall angle (degrees) of the linear fit (%s)" % w, p)
            i = min(range(len(q.al)), key=lambda i: q.cd[i].q)
            rep.same(pr[6], const(q.al[i]), "parameters", "minimum-drag-angle", WU, "angle of minimum drag in degrees (%s)" % w, p)
            rep.same(pr[7], q.cd[i], "parameters", "minimum-drag", WU, w, p)
        go(rep, fn, on)


def run(rep):
    rep.rule("layout", "records written one per line, in order, units and columns as documented")
    rep.rule("digits", "numbers are written with at least four decimals")
    rep.rule("round-trip", "reading back gives the same tables")
    rep.rule("reader", "an independently laid out file gives the polars of its tables")
    rep.rule("parameters", "the eight parameters of a table are those of its polar in the unit of their label")
    n0 = rep.paths
    for o in ((0,), (1, 0), (2, 0, 1), (3, 1, 0, 2)):
        roundtrip(rep, o, GRIDS, "Airfoil")
    for o in ((0,), (1, 0), (2, 0, 1)):
        roundtrip(rep, o, None, "Airfoil", True)
    R = [("-180", "0.0", "0.2", "0.01"), ("-10.5", "-0.55", "0.012", "0.02"), ("0", "0.25", "0.01", "-0.03"), ("1.25e1", "1.1", "1.5E-2", "-0.04"), ("180.0", "0.0", "0.2", "0.01")]
    Q = [("-180", "0.1", "0.3", "0.02"), ("5", "-0.15", "0.022", "0.03"), ("180.0", "0.1", "0.3", "0.02")]
    for T in ([("1.0", R)], [("0.75", R), ("3.5", Q)], [("5", Q), ("0.75", R), ("3.5", Q)]):
        reader(rep, T, "in file order" if len(T) < 3 else "unordered Reynolds numbers")
    # tables whose angle ranges follow, overlap or repeat each other; a single row
    row = lambda a, k: (str(a), "%s" % (a * k / 100), "0.0%d" % (10 + k), "-0.0%d" % k)
    A, B, C, D = [[row(a, k) for a in al] for k, al in enumerate(((-5, 0, 5), (6, 10, 15), (5, 7), (20,)), 1)]
    for T in ((A, B), (B, A), (A, C), (A, A), (A, D), (D, A), (D, D), (A, B, D), (D, B, A), (B, C, A)):
        reader(rep, [(str(k + 1), t) for k, t in enumerate(T)], "angle ranges from %s" % ", ".join(t[0][0] for t in T))
    parameters(rep)
    rep.floor("files", rep.paths - n0, 12)
