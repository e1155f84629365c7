import itertools

import numpy as np

import core
import lib
import npmodel
import world
from checks.geom import rad
from checks.polarref import P, angle
from core import PI, const, cos, lift, maxv, sin, sym, tan
from fractions import Fraction as Fr
from pyinterp import PyRaise

W = "ccblade/airfoilprep.py (Polar.extrapolate)"
GRIDS = [[-20, -10, 0, 10, 20], [-12, -5, 0, 5, 15], [-25, -10, 0, 10, 17], [-4, -2, 0, 2, 30], [Fr(-41, 2), 0, Fr(81, 4)],
         [-80, -40, 0, 40, 85], [-15, -15 + Fr(1, 2), -3, 3, 15], [2, 4, 6, 19], [-60, -30, 0, 10]]


def case(rep, grid, kw, fine, iface="Polar"):
    rep.configs += 1
    src = P.of("p", grid)
    what = "data from %s to %s degrees, %s" % (grid[0], grid[-1], ", ".join("%s=%s" % x for x in kw.items()))
    cdmax = sym("cdmax")
    cdmin = kw.get("cdmin", const(Fr(1, 1000)))

    def fn():
        I = world.fresh()
        o = src.make(I)
        g = I.getattr(o, "extrapolate")(cdmax, **kw)
        return I, g

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, g = p.result
        rep.analysed(I)
        A = {k: I.getattr(g, k) for k in ("alpha", "cl", "cd", "cm")}
        n = np.size(A["alpha"])
        rep.same(I.getattr(g, "Re"), src.Re, "arrays", "extrapolate:Re", W, "Reynolds number (%s)" % what, p)
        ok = all(np.shape(A[k]) == (n,) for k in A)
        if not rep.check(ok, "arrays", "extrapolate", W, "array lengths %s (%s)" % ({k: np.shape(A[k]) for k in A}, what), p):
            return
        al = [angle(x) for x in A["alpha"]]
        if not rep.check(None not in al, "arrays", "extrapolate:alpha", W, "angles not resolved (%s)" % what, p):
            return
        bad = [str(b) for a, b in zip(al, al[1:]) if b <= a]
        rep.check(not bad, "arrays", "extrapolate:alpha", W, "angles not in increasing order at %s (%s)" % (bad[:3], what), p)
        rep.check(al[0] == -180 and al[-1] == 180, "full-circle", "extrapolate:alpha", W, "angles from %s to %s (%s)" % (al[0], al[-1], what), p)
        gap = max(b - a for a, b in zip(al, al[1:]) if not (a in src.al and b in src.al))
        rep.check(gap <= 45, "full-circle", "extrapolate:alpha", W, "no angle for %s degrees (%s)" % (gap, what), p)
        # every stretch the model fills beyond the data carries the requested number of evenly spaced angles
        h, na = Fr(src.al[-1]), kw.get("nalpha", 15)
        low = -h if -h < src.al[0] else None
        for lo, hi in ((h, 90), (90, 180 - h), (180 - h, 180), (-180, h - 180), (h - 180, -90), (-90, low)):
            if hi is None:
                continue
            want = [lo + (Fr(hi) - lo) * k / (na - 1) for k in range(na)]
            got = [x for x in al if lo <= x <= hi]
            rep.check(got == want, "points", "extrapolate:alpha", W, "%d angles from %s to %s degrees, %d evenly spaced ones asked for (%s)"
                      % (len(got), lo, hi, na, what), p)
        V = src.viterna(cdmax, kw.get("AR"))
        for x in src.al:
            if not rep.check(x in al, "data-kept", "extrapolate:alpha", W, "%s degrees is missing (%s)" % (x, what), p):
                continue
            i, j = al.index(x), src.al.index(x)
            rep.same(A["cl"][i], src.cl[j], "data-kept", "extrapolate:cl", W, "cl at %s degrees (%s)" % (x, what), p)
            rep.same(A["cm"][i], src.cm[j], "data-kept", "extrapolate:cm", W, "cm at %s degrees (%s)" % (x, what), p)
            rep.same(A["cd"][i], maxv(src.cd[j], cdmin), "data-kept", "extrapolate:cd", W, "cd at %s degrees (%s)" % (x, what), p)
        for i, x in enumerate(al):
            if x in src.al:
                continue
            e = src.extended(x, V)
            if not rep.check(e is not None, "data-kept", "extrapolate:alpha", W, "angle %s added inside the data (%s)" % (x, what), p):
                continue
            rep.same(A["cl"][i], e[0], "flat-plate", "extrapolate:cl", W, "cl at %s degrees is not the documented extension (%s)" % (x, what), p)
            rep.same(A["cd"][i], maxv(e[1], cdmin), "flat-plate", "extrapolate:cd", W, "cd at %s degrees is not the documented extension (%s)" % (x, what), p)
        # the extension meets the data at the upper end
        c, d = V(src.al[-1])
        rep.same(c, src.cl[-1], "joins", "flat-plate:cl", W, what, p)
        rep.same(d, src.cd[-1], "joins", "flat-plate:cd", W, what, p)
        rep.sample(what)
    lib.each_path(rep, fn, on, explore="flip" if fine else "typical")


def zero_cm(rep, grid):
    rep.configs += 1
    z = np.array([const(0)] * len(grid), dtype=object)
    src = P("p Re" and sym("p Re", positive=True), grid, lib.vec("p cl", len(grid)), lib.vec("p cd", len(grid)), z)

    def fn():
        I = world.fresh()
        return I, I.getattr(src.make(I), "extrapolate")(sym("cdmax"))

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, g = p.result
        for i, x in enumerate(I.getattr(g, "cm")):
            rep.check(lift(x).q == 0, "no-moment-data", "extrapolate:cm", W, "cm is not zero although the data have none", p)
    lib.each_path(rep, fn, on, explore="typical")


MOMENT = {"lift crossing zero between entries": ([-20, -10, 0, 10, 20], [-8, -4, 3, 9, 11]),
          "an entry of exactly zero lift": ([-20, -10, 0, 10, 20], [-8, -4, 0, 9, 11]),
          "zero lift at the first entry below 20 degrees": ([-15, -5, 0, 5, 15], [0, 4, 7, 9, 8]),
          "two neighbouring entries of rising and of zero lift": ([-12, -6, -2, 3, 9, 14], [-5, -1, 0, 2, 5, 6]),
          "two crossings": ([-19, -9, -4, 1, 8, 17], [-3, 2, -1, 4, 8, 9]),
          "a crossing beyond 20 degrees": ([-45, -30, -22, 5, 13, 24], [-7, -6, 2, 4, 9, 10]),
          "no crossing": ([2, 4, 6, 19], [3, 5, 8, 12]),
          "falling lift only": ([-10, -5, 0, 5, 12], [9, 6, -3, -4, 2]),
          "zero lift at the last entry but one": ([-19, -14, -7, -3, 18], [-6, -5, -4, 0, 9]),
          "ends at tens of degrees": ([-30, -10, 10, 30], [-6, -2, 4, 8]),
          "ends off tens of degrees": ([Fr(-55, 2), -3, 4, Fr(67, 2)], [-6, -2, 4, 8]),
          "data within five degrees of zero": ([-4, -2, 0, 2, 4], [-4, -2, 1, 3, 5]),
          "data nearly to ninety degrees": ([-80, -40, 0, 40, 85], [-5, -9, 1, 10, 6])}
NEAR180 = {-180: Fr(0), -170: Fr(4, 10), 170: Fr(-5, 10), 180: Fr(0)}


def moment(src, al, cl, cd):
    """added moments: at tens of degrees the force normal to the section acts at a lever through the last data point"""
    def at(y, x):
        for i in range(1, len(al)):
            if al[i - 1] <= x <= al[i]:
                return y[i - 1] + (y[i] - y[i - 1]) * const(Fr(x - al[i - 1]) / (al[i] - al[i - 1]))
    L = [lift(v).q for v in src.cl]
    i = next((i for i in range(len(L) - 1) if abs(src.al[i]) < 20 and L[i] <= 0 <= L[i + 1]), 0)
    cm0 = src.cm[i] - const(L[i] / (L[i + 1] - L[i])) * (src.cm[i + 1] - src.cm[i])
    t = lambda x: rad(const(x))
    cot = lambda x: tan(t(x) - PI() / 2)
    h = src.al[-1]
    k = ((cm0 - src.cm[-1]) / (src.cl[-1] * cos(t(h)) + src.cd[-1] * sin(t(h))) - Fr(1, 4)) / cot(h)

    def model(x):
        if x in NEAR180:
            return const(NEAR180[x])
        if x == 0:
            return cm0
        lever = k * cot(abs(x)) + Fr(1, 4)
        s = 1 if x > 0 else -1
        return (cm0 - lever * (at(cl, x) * s * cos(t(abs(x))) + at(cd, x) * sin(t(abs(x))))) * s
    X = [Fr(x) for x in range(-180, 181, 10) if x < src.al[0]] + list(src.al) + [Fr(x) for x in range(-180, 181, 10) if x > src.al[-1]]
    M = {x: src.cm[src.al.index(x)] if x in src.al else model(x) for x in X}

    def f(x):
        for a, b in zip(X, X[1:]):
            if a <= x <= b:
                return M[a] + (M[b] - M[a]) * const(Fr(x - a) / (b - a))
    return f


def moments(rep, what, grid, L, kw, flat=False):
    rep.configs += 1
    n = len(grid)
    cm = npmodel.oarr([sym("p cm")] * n) if flat else lib.vec("p cm", n)

    def fn():
        I = world.fresh()
        src = P(sym("p Re", positive=True), grid, [const(Fr(v, 10)) for v in L], lib.vec("p cd", n), cm)
        g = I.getattr(src.make(I), "extrapolate")(sym("cdmax"), **kw)
        A = {k: I.getattr(g, k) for k in ("alpha", "cl", "cd", "cm")}
        al = [angle(x) for x in A["alpha"]]
        return I, src, al, A, None if None in al else moment(src, al, A["cl"], A["cd"])

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, src, al, A, f = p.result
        rep.analysed(I)
        if rep.check(f is not None and np.size(A["cm"]) == len(al), "moment", "extrapolate:cm", W, "angles not resolved (%s)" % what, p):
            for x, m in zip(al, A["cm"]):
                rep.same(lift(m), f(x), "moment", "extrapolate:cm", W, "moment at %s degrees is not the documented extension (%s)" % (x, what), p)
        rep.sample(what)
    lib.each_path(rep, fn, on, explore="typical")


def run(rep):
    rep.rule("arrays", "arrays of one length, angles strictly increasing, Reynolds number kept")
    rep.rule("full-circle", "angles from -180 to 180 without large gaps")
    rep.rule("data-kept", "given angles with their lift and moment; drag only raised to the floor; nothing added in between")
    rep.rule("flat-plate", "added lift and drag = Viterna model fitted to the last data point, mirrored and scaled, drag floor applied")
    rep.rule("points", "the requested number of evenly spaced angles in each stretch filled by the model")
    rep.rule("joins", "the fitted model equals the data at their upper end")
    rep.rule("no-moment-data", "no moment is invented for data without moments")
    rep.rule("moment", "added moments = normal force at a lever through the last data point about the moment at zero lift, "
             "AirfoilPrep's values near 180 degrees, linear over tens of degrees")
    n0 = rep.paths
    AR, cdmin = sym("AR", positive=True), sym("cdmin", positive=True)
    jobs = []
    KW = [{}, {"AR": AR}, {"cdmin": cdmin}, {"nalpha": 8}, {"nalpha": 25, "cdmin": const(Fr(1, 100))}, {"cdmin": const(0)},
          {"AR": AR, "cdmin": cdmin, "nalpha": 12}]
    for k, g in enumerate(GRIDS):
        for j, kw in enumerate(KW):
            jobs.append(lambda r, g=g, kw=kw, f=rep.thorough or k == 4 or (j == 0 and k < 3): case(r, g, kw, f))
        jobs.append(lambda r, g=g: zero_cm(r, g))
    for w, (g, L) in MOMENT.items():
        for j, kw in enumerate(KW if rep.thorough else [KW[0], KW[4]]):
            jobs.append(lambda r, w=w, g=g, L=L, kw=kw: moments(r, "%s, %s" % (w, ", ".join(kw)), g, L, kw))
        jobs.append(lambda r, w=w, g=g, L=L: moments(r, "%s, the same moment at every angle" % w, g, L, {}, True))
    lib.parallel(rep, jobs)
    rep.floor("extrapolations", rep.paths - n0, 60)
