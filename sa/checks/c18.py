import numpy as np

import lib
import world
from checks.polarref import P, compare
from core import const, sym
from fractions import Fraction as Fr
from pyinterp import PyRaise

WP = "ccblade/airfoilprep.py (Polar.blend)"
WG = "ccblade/airfoilprep.py (Airfoil.getPolar)"
WA = "ccblade/airfoilprep.py (Airfoil.blend)"
GRIDS = [([-20, -10, 0, 10, 20], [-20, -10, 0, 10, 20]), ([-20, -10, 0, 10, 20], [-15, -5, 5, 25]), ([-30, 0, 30], [-10, Fr(5, 2), 10]),
         ([-10, 10], [-20, -12, 3, 11, 20]), ([-180, -20, 0, 15, 180], [-180, -17, 0, 14, 90, 180]), ([-20, 0, 20], [0, 20, 40]),
         ([0, 5, 10], [Fr(1, 3), 5, Fr(31, 3)])]


def go(rep, fn, on):
    rep.configs += 1

    def on2(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        on(p, *p.result)
    lib.each_path(rep, fn, on2, explore="typical")


def weights():
    return [("symbolic weight", sym("weight")), ("weight 0", const(0)), ("weight 1", const(1)), ("weight 1/4", const(Fr(1, 4)))]


def polar(rep, k, ga, gb, wn, w, swap):
    a, b = P.of("p", ga), P.of("q", gb)
    if swap:
        a, b = b, a
    what = "grids %d%s, %s" % (k, " exchanged" if swap else "", wn)

    def fn():
        I = world.fresh()
        x, y = a.make(I), b.make(I)
        return I, I.getattr(x, "blend")(y, w)

    def on(p, I, got):
        rep.analysed(I)
        compare(rep, p, I, got, a.blend(b, w), "affine-blend", "Polar.blend", WP, what)
        if wn in ("weight 0", "weight 1"):
            src = a if wn == "weight 0" else b
            rep.same(I.getattr(got, "Re"), src.Re, "affine-blend", "Polar.blend:Re", WP, what, p)
        rep.sample(what)
    go(rep, fn, on)


RE = [10 ** 6, 2 * 10 ** 6, 5 * 10 ** 6]
AG = [[-20, -10, 0, 10, 20], [-15, -5, 5, 15, 25], [-20, 0, 20]]


def airfoil(I, tags, grids, Re, order):
    ps = [P.of(t, g, r) for t, g, r in zip(tags, grids, Re)]
    A = world.cls(I, "airfoilprep", "Airfoil")
    return ps, A([ps[i].make(I) for i in order])


def ref_at(ps, Re):
    """documented polar at a Reynolds number (exact)"""
    if Re <= Fr(ps[0].Re.q):
        return ps[0]
    if Re >= Fr(ps[-1].Re.q):
        return ps[-1]
    for a, b in zip(ps, ps[1:]):
        if Re <= Fr(b.Re.q):
            w = (Fr(Re) - Fr(a.Re.q)) / (Fr(b.Re.q) - Fr(a.Re.q))
            return a.blend(b, const(w))


def at_re(rep, n, Re, order):
    what = "%d polars, Re=%s" % (n, Re)

    def fn():
        I = world.fresh()
        ps, a = airfoil(I, "pqs", AG[:n], RE[:n], order)
        return I, ps, I.getattr(a, "getPolar")(const(Re))

    def on(p, I, ps, got):
        rep.analysed(I)
        if Re in RE[1:n - 1]:
            # at a stored Reynolds number inside the range: the stored coefficients on the common angles
            src = ps[RE.index(Re)]
            from checks.polarref import COEF, angle
            al = I.getattr(got, "alpha")
            for i in range(len(al)):
                x = angle(al[i])
                for k in COEF:
                    rep.check(x is not None and lib.eqv(I.getattr(got, k)[i], src.at(x, k)), "reynolds-interpolation", "getPolar:" + k, WG,
                              "%s at %s degrees is not the stored polar's (%s)" % (k, x, what), p)
            rep.same(I.getattr(got, "Re"), src.Re, "reynolds-interpolation", "getPolar:Re", WG, what, p)
        else:
            compare(rep, p, I, got, ref_at(ps, Fr(Re)), "reynolds-interpolation", "getPolar", WG, what)
        rep.sample(what)
    go(rep, fn, on)


def airfoils(rep, ra, rb, wn, w):
    what = "Reynolds numbers %s and %s, %s" % (ra, rb, wn)

    def fn():
        I = world.fresh()
        pa, a = airfoil(I, "pqs", AG, ra, list(range(len(ra)))[::-1])
        pb, b = airfoil(I, "tu", [AG[1], AG[2]], rb, range(len(rb)))
        return I, pa, pb, I.getattr(a, "blend")(b, w)

    def on(p, I, pa, pb, got):
        rep.analysed(I)
        Re = sorted({Fr(x) for x in ra} | {Fr(x) for x in rb})
        ps = I.getattr(got, "polars")
        if not rep.check(len(ps) == len(Re), "airfoil-blend", "Airfoil.blend", WA, "%d polars for %d Reynolds numbers (%s)" % (len(ps), len(Re), what), p):
            return
        for x, g in zip(Re, ps):
            if any(x in [Fr(v) for v in r[1:-1]] for r in (ra, rb)):
                rep.same(I.getattr(g, "Re"), const(x), "airfoil-blend", "Airfoil.blend:Re", WA, what, p)
                continue
            compare(rep, p, I, g, ref_at(pa, x).blend(ref_at(pb, x), w), "airfoil-blend", "Airfoil.blend", WA, "%s, at Re=%s" % (what, x))
        rep.sample(what)
    go(rep, fn, on)


def run(rep):
    rep.rule("affine-blend", "angles = merged angles in the common range; coefficients and Reynolds number = affine combination")
    rep.rule("reynolds-interpolation", "polar at a Reynolds number = proportional blend of its neighbours, nearest polar outside")
    rep.rule("airfoil-blend", "blended airfoil = blend at every Reynolds number of either")
    n0 = rep.paths
    for k, (a, b) in enumerate(GRIDS):
        for wn, w in weights():
            for swap in (False, True):
                polar(rep, k, a, b, wn, w, swap)
    for n in (1, 2, 3):
        for Re in (10 ** 4, 10 ** 6, 1250000, 1999999, 2 * 10 ** 6, 2000001, 3 * 10 ** 6, 5 * 10 ** 6, 10 ** 9):
            for order in ((0, 1, 2), (2, 0, 1)):
                at_re(rep, n, Re, [i for i in order if i < n])
    for ra, rb in ((RE, [10 ** 6, 5 * 10 ** 6]), (RE, [1500000, 4 * 10 ** 6]), (RE[:2], [10 ** 5, 10 ** 7]), (RE[:1], [3 * 10 ** 6]), (RE[:1], RE[:1]),
                   (RE[1:2], [10 ** 6, 4 * 10 ** 6]), (RE[:2], [4 * 10 ** 6]), (RE[:1], [10 ** 5, 10 ** 6]), (RE[:2], RE[:2])):
        for wn, w in weights():
            airfoils(rep, ra, rb, wn, w)
    rep.floor("blends", rep.paths - n0, 100)
