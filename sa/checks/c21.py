import itertools

import numpy as np

import lib
import npmodel
import world
from checks.polarref import COEF, P, angle, compare
from core import const, lift, sym
from fractions import Fraction as Fr
from pyinterp import PyRaise

W = "ccblade/airfoilprep.py (Airfoil.%s)"
RE = [5 * 10 ** 5, 10 ** 6, 2 * 10 ** 6, 5 * 10 ** 6]
G0 = [-20, -12, -8, -4, -1, 0, 3, 4, 6, 8, 12, 20]
GRIDS = [G0, [-18, -10, -6, -3, 0, 2, 4, 7, 11, 16, 25], [-30, -11, -7, -2, 1, 5, 9, 13, 19], G0]
# angles with many decimals, some of them almost the same as another polar's
FINE = [[Fr(x) for x in "-20.125 -12.0625 -8.3333 -4.0004 -1.04 0 3.00005 4.004 6.0625 8.5 12.34567 20.1".split()],
        [Fr(x) for x in "-18.7 -10.05 -6.015625 -3.3 0.00001 2.004 4 7.1 11.11 16.016 25.5".split()],
        [Fr(x) for x in "-30.3 -11.98 -7.123456 -2.2 1.0009 5.5 9.009 13 19.999".split()], G0]
SUB = "sub"


def go(rep, fn, on, explore="typical"):
    rep.configs += 1

    def on2(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        rep.analysed(p.result[0])
        on(p, *p.result)
    lib.each_path(rep, fn, on2, explore=explore)


def setup(order, grids, res=RE):
    I = world.fresh()
    n = len(order)
    ps = [P.of(t, g, r) for t, g, r in zip("pqst", grids, res)][:n]
    made = [p.make(I) for p in ps]
    return I, ps, made, world.cls(I, "airfoilprep", "Airfoil")([made[i] for i in order])


def full(n):
    return npmodel.oarr([const(x) for x in n])


def view(I, o):
    return {k: I.getattr(o, k) for k in ("Re", "alpha", "cl", "cd", "cm")}


def polarwise(rep, name, order, grids, args, kw, where):
    """the airfoil operation against the polar operation on each polar"""
    what = "%d polars given in order %s, %s" % (len(order), list(order), sorted(kw) or len(args))

    def fn():
        I, ps, made, af = setup(order, grids)
        out = I.getattr(af, name)(*args, **kw)
        I2, ps2, made2, _ = setup(order, grids)
        ref = [view(I2, I2.getattr(m, name)(*args, **kw)) for m in made2]
        return I, [view(I, x) for x in I.getattr(out, "polars")], ref, [view(I, x) for x in I.getattr(af, "polars")], ps

    def on(p, I, got, ref, own, ps):
        if rep.check(len(got) == len(ref), "polar-by-polar", name, where, "%d polars from %d (%s)" % (len(got), len(ref), what), p):
            for i, (a, b) in enumerate(zip(got, ref)):
                d = lib.differ(b, a)
                rep.check(d is None, "polar-by-polar", name, where,
                          "polar %d is not the operation applied once to the polar of that Reynolds number: %s (%s)" % (i, d, what), p)
        for i, (a, b) in enumerate(zip(own, ps)):
            rep.check(lib.eqv(a["Re"], b.Re), "reynolds-order", "Airfoil", W % "__init__", "polar %d of the airfoil (%s)" % (i, what), p)
        rep.sample("%s: %s" % (name, what))
    go(rep, fn, on)


def order_kept(rep, order, grids, res=RE):
    what = "order %s" % (list(order),)

    def fn():
        I, ps, made, af = setup(order, grids, res)
        return I, ps, [x for x in I.getattr(af, "polars")]

    def on(p, I, ps, got):
        if rep.check(len(got) == len(ps), "reynolds-order", "Airfoil", W % "__init__", "%d polars (%s)" % (len(got), what), p):
            for a, b in zip(got, ps):
                compare(rep, p, I, a, b, "reynolds-order", "Airfoil", W % "__init__", what)
    go(rep, fn, on)


def equal_re(rep, order, dup):
    """polars measured at the same Reynolds number are all kept"""
    what = "order %s, polars %s at one Reynolds number" % (list(order), dup)

    def fn():
        I = world.fresh()
        ps = [P.of(t, g, RE[dup[0]] if i in dup else r) for i, (t, g, r) in enumerate(zip("pqst", GRIDS, RE))][:len(order)]
        made = [p.make(I) for p in ps]
        af = world.cls(I, "airfoilprep", "Airfoil")([made[i] for i in order])
        return I, ps, [view(I, x) for x in I.getattr(af, "polars")]

    def on(p, I, ps, got):
        w = W % "__init__"
        if rep.check(len(got) == len(ps), "reynolds-order", "Airfoil", w, "%d polars (%s)" % (len(got), what), p):
            re = [lib.val(g["Re"]) for g in got]
            rep.check(re == [lib.val(x.Re) for x in sorted(ps, key=lambda x: x.Re.q)], "reynolds-order", "Airfoil", w, "order (%s)" % what, p)
            for x in ps:
                n = sum(len(g["cl"]) == len(x.cl) and all(lib.eqv(a, b) for a, b in zip(g["cl"], x.cl)) for g in got)
                rep.check(n == 1, "reynolds-order", "Airfoil", w, "one of the given polars occurs %d times (%s)" % (n, what), p)
    go(rep, fn, on)


def union(ps):
    return sorted(set(a for q in ps for a in q.al))


def resampled(q, al):
    return P(q.Re, al, *[[q.at(x, k) for x in al] for k in COEF])


def common(rep, order, grids, al):
    what = "%d polars, %s" % (len(order), "given angles" if al else "union of angles")

    def fn():
        I, ps, made, af = setup(order, grids)
        out = I.getattr(af, "interpToCommonAlpha")(*([full(al)] if al else []))
        return I, ps, [x for x in I.getattr(out, "polars")]

    def on(p, I, ps, got):
        a = al or union(ps)
        if rep.check(len(got) == len(ps), "common-angles", "interpToCommonAlpha", W % "interpToCommonAlpha", what, p):
            for g, q in zip(got, ps):
                compare(rep, p, I, g, resampled(q, [Fr(x) for x in a]), "common-angles", "interpToCommonAlpha", W % "interpToCommonAlpha", what)
        rep.sample("common angles: %s" % what)
    go(rep, fn, on)


def grid(rep, order, grids):
    what = "%d polars in order %s" % (len(order), list(order))

    def fn():
        I, ps, made, af = setup(order, grids)
        return I, ps, I.getattr(af, "createDataGrid")()

    def on(p, I, ps, got):
        w = W % "createDataGrid"
        if not rep.check(len(got) == 5, "data-grid", "createDataGrid", w, "%d values (%s)" % (len(got), what), p):
            return
        al, Re, T = got[0], got[1], got[2:]
        u = union(ps)
        rep.check(np.shape(np.ravel(np.array(al, dtype=object))) == (len(u),) and all(lib.eqv(a, const(b)) for a, b in zip(al, u)),
                  "data-grid", "createDataGrid:alpha", w, "angles are not the union of the polars' angles (%s)" % what, p)
        rep.check(len(Re) == len(ps) and all(lib.eqv(a, b.Re) for a, b in zip(Re, ps)), "data-grid", "createDataGrid:Re", w,
                  "Reynolds numbers %s (%s)" % (list(Re), what), p)
        for k, t in zip(COEF, T):
            if rep.check(np.shape(t) == (len(u), len(ps)), "data-grid", "createDataGrid:" + k, w, "shape %s (%s)" % (np.shape(t), what), p):
                for i, x in enumerate(u):
                    for j, q in enumerate(ps):
                        rep.same(t[i, j], q.at(x, k), "data-grid", "createDataGrid:" + k, w,
                                 "row %d, column %d is not polar %d at %s degrees (%s)" % (i, j, j, x, what), p)
    go(rep, fn, on)


def run(rep):
    rep.rule("reynolds-order", "polars are kept in increasing Reynolds order with their own data")
    rep.rule("polar-by-polar", "airfoil operation = polar operation with the same parameters on each polar, once")
    rep.rule("common-angles", "every polar linearly interpolated to the common angles")
    rep.rule("data-grid", "rows = union of angles, columns = Reynolds numbers, entry = that polar at that angle")
    rR, cr, t = (sym(k, positive=True) for k in ("r_over_R", "chord_over_r", "tsr"))
    cdmax, AR, cdmin = sym("cdmax"), sym("AR", positive=True), sym("cdmin", positive=True)
    n0 = rep.paths
    orders = list(itertools.permutations(range(3))) + [(0,), (1, 0), (3, 1, 0, 2), (0, 1, 2, 3)]
    jobs = []
    for o in orders:
        jobs.append(lambda r, o=o: order_kept(r, o, GRIDS))
        jobs.append(lambda r, o=o: grid(r, o, GRIDS))
        for al in (None, [-10, Fr(-5, 2), 0, 7, 30]):
            jobs.append(lambda r, o=o, al=al: common(r, o, GRIDS, al))
    for o in ((0, 1), (2, 0, 1), (3, 1, 0, 2)):
        jobs.append(lambda r, o=o: grid(r, o, FINE))
        jobs.append(lambda r, o=o: order_kept(r, o, FINE))
        for al in (None, FINE[1], FINE[2], [Fr(1, 1000), Fr(1, 3)]):
            jobs.append(lambda r, o=o, al=al: common(r, o, FINE, al))
    for o, dup in (((0, 1), (0, 1)), ((1, 0), (0, 1)), ((2, 0, 1), (1, 2)), ((3, 1, 0, 2), (0, 1, 2)), ((0, 1, 2, 3), (0, 1, 2, 3))):
        jobs.append(lambda r, o=o, dup=dup: equal_re(r, o, dup))
    CLOSE = [10 ** 6, 1010000, 1010001, 1050000]
    for o in ((1, 0), (3, 2, 1, 0), (2, 1, 3, 0)):
        jobs.append(lambda r, o=o: order_kept(r, o, GRIDS, CLOSE))
    # as many common angles as one of the polars has, at other angles; and the polar's own angles
    for al in ([-10, Fr(-5, 2), 0, 7, 30, 31, 33, 35, 40], GRIDS[1], GRIDS[2], [a + Fr(1, 2) for a in GRIDS[1]], [a - 1 for a in G0]):
        for o in ((2, 0, 1), (1, 0)):
            jobs.append(lambda r, o=o, al=al: common(r, o, GRIDS, al))
    same = [[a + k for a in G0] for k in range(4)]
    for o in ((0, 1), (1, 0, 2)):
        jobs.append(lambda r, o=o: grid(r, o, same))
        for al in (None, same[0], same[1]):
            jobs.append(lambda r, o=o, al=al: common(r, o, same, al))
    for o in [(0,), (1, 0), (2, 0, 1)] if not rep.thorough else orders:
        for args, kw in (((rR, cr, t), {}), ((rR, cr, t, 15, -10, 12), {}),
                         ((rR,), dict(chord_over_r=cr, tsr=t, alpha_max_corr=20)), ((rR, cr, t), dict(alpha_linear_min=-9)),
                         ((rR, cr, t), dict(alpha_linear_max=8))):
            jobs.append(lambda r, o=o, a=args, k=kw: polarwise(r, "correction3D", o, GRIDS, a, k, W % "correction3D"))
        for args, kw in (((cdmax,), {}), ((cdmax, AR), {}), ((cdmax,), dict(cdmin=cdmin)), ((cdmax, None, cdmin), {}),
                         ((cdmax, AR, const(0)), {}), ((cdmax,), dict(AR=AR, cdmin=const(Fr(1, 50))))):
            jobs.append(lambda r, o=o, a=args, k=kw: polarwise(r, "extrapolate", o, GRIDS, a, k, W % "extrapolate"))
    lib.parallel(rep, jobs)
    rep.floor("operations", rep.paths - n0, 50)
