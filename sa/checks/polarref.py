"""Reference of the polar operations on concrete angle grids with symbolic coefficients."""
from fractions import Fraction as Fr

import numpy as np

import core
import lib
import npmodel
import world
from core import PI, const, cos, lift, maxv, power, sin, sqrt, sym
from checks.geom import deg, rad

COEF = ("cl", "cd", "cm")

core.SAMPLES.update({"%s %s" % (t, k): v for t in "pqstu" for k, v in
                     (("cl", (-1.0, 0.5)), ("cd", (0.02, 0.004)), ("cm", (-0.05, 0.01)))})
core.SAMPLES.update({"weight": 0.3, "weight'": 0.6, "cdmax": 1.3, "cdmin": 0.003, "AR": 12.0, "r_over_R": 0.4, "chord_over_r": 0.2, "tsr": 7.0})


class P:
    """a polar: Reynolds number, list of exact angles (deg), coefficients"""

    def __init__(self, Re, al, cl, cd, cm):
        self.Re, self.al = lift(Re), [Fr(a) for a in al]
        self.cl, self.cd, self.cm = ([lift(x) for x in v] for v in (cl, cd, cm))

    @staticmethod
    def of(tag, al, Re=None):
        return P(sym(tag + " Re", positive=True) if Re is None else const(Re), al, *[lib.vec("%s %s" % (tag, k), len(al)) for k in COEF])

    def make(self, I, cls="Polar"):
        C = world.cls(I, "airfoilprep", cls)
        A = npmodel.oarr
        return C(self.Re, A([const(a) for a in self.al]), A(self.cl), A(self.cd), A(self.cm))

    def at(self, x, k):
        """piecewise linear, constant outside"""
        y = getattr(self, k)
        if x <= self.al[0]:
            return y[0]
        for i in range(1, len(self.al)):
            if x <= self.al[i]:
                t = Fr(x - self.al[i - 1]) / (self.al[i] - self.al[i - 1])
                return y[i - 1] + (y[i] - y[i - 1]) * const(t)
        return y[-1]

    def blend(self, o, w):
        lo, hi = max(self.al[0], o.al[0]), min(self.al[-1], o.al[-1])
        al = sorted(a for a in set(self.al) | set(o.al) if lo <= a <= hi)
        mix = lambda a, b: a + w * (b - a)
        return P(mix(self.Re, o.Re), al, *[[mix(self.at(x, k), o.at(x, k)) for x in al] for k in COEF])

    def correction(self, rR, cr, tsr, amax, lo, hi):
        amax, lo, hi = (Fr(x) for x in (amax, lo, hi))
        idx = [i for i, a in enumerate(self.al) if lo <= a <= hi]
        n = len(idx)
        X = [rad(const(self.al[i])) for i in idx]
        Y = [self.cl[i] for i in idx]
        sx, sy = sum(X, const(0)), sum(Y, const(0))
        sxx = sum((x * x for x in X), const(0))
        sxy = sum((x * y for x, y in zip(X, Y)), const(0))
        m = (sxy * n - sx * sy) / (sxx * n - sx * sx)
        b = (sy - m * sx) / n
        lam = tsr / sqrt(tsr * tsr + 1)
        e = const(1) / (lam * rR)
        f = lambda e: (const(Fr(16, 10)) * cr / const(Fr(1267, 10000)) * (const(1) - power(cr, e)) / (const(1) + power(cr, e)) - 1) / m
        fcl, fcd = f(e), f(e / 2)
        cd0 = self.at(Fr(0), "cd")
        cl, cd = [], []
        for i, a in enumerate(self.al):
            x = rad(const(a))
            adj = const(1) if a <= amax else const((Fr(90) - a) / (90 - amax)) ** 2
            cl.append(self.cl[i] + fcl * (m * x + b - self.cl[i]) * adj)
            cd.append(self.cd[i] + fcd * (self.cd[i] - cd0))
        return P(self.Re, self.al, cl, cd, self.cm)

    def viterna(self, cdmax, AR=None):
        """cl(x), cd(x) of the flat-plate model fitted to the last point (x in degrees, exact)"""
        if AR is not None:
            cdmax = const(Fr(111, 100)) + const(Fr(18, 1000)) * AR
        cm = self.cd[0]
        for x in self.cd[1:]:
            cm = maxv(cm, x)
        cm = maxv(cm, cdmax)
        h = rad(const(self.al[-1]))
        s, c = sin(h), cos(h)
        A = (self.cl[-1] - cm * s * c) * s / (c * c)
        B = (self.cd[-1] - cm * s * s) / c

        def f(x):
            t = rad(const(x))
            if float(t.f) < 1e-4:
                t = const(Fr(1, 10 ** 4))
            return cm / 2 * sin(t * 2) + A * cos(t) * cos(t) / sin(t), cm * sin(t) * sin(t) + B * cos(t)
        return f

    def extended(self, x, V):
        """documented coefficients at x outside the data (None inside)"""
        ah, al = self.al[-1], self.al[0]
        clh, q = self.cl[-1], const(Fr(7, 10))
        lin = lambda y: const(Fr(y) / ah) * clh * q
        if x in self.al:
            return None
        if x > 180 - ah:
            return lin(x - 180), V(180 - x)[1]
        if x > 90:
            a, b = V(180 - x)
            return -(a * q), b
        if x > ah:
            return V(x)
        if x < -180 + ah:
            return lin(x + 180), V(x + 180)[1]
        if x <= -90:
            a, b = V(x + 180)
            return a * q, b
        if x <= -ah or al <= -ah:
            a, b = V(-x)
            return -(a * q), b
        if x < al:
            t = const((x + ah) / (al + ah))
            return -(clh * q) + t * (self.cl[0] + clh * q), self.cd[-1] + t * (self.cd[0] - self.cd[-1])
        return None


def angle(x):
    """exact angle of an output (degrees), None when not a constant"""
    x = lift(x)
    if x.q is not None:
        return Fr(x.q)
    f = x.f
    if f is None:
        return None
    y = Fr(float(f)).limit_denominator(10 ** 7)
    return y if const(y).v == x.v else None


def compare(rep, p, I, got, ref, rule, construct, where, what):
    g = lambda k: I.getattr(got, k)
    rep.same(g("Re"), ref.Re, rule, construct + ":Re", where, "Reynolds number (%s)" % what, p)
    al = g("alpha")
    n = len(ref.al)
    if not rep.check(np.shape(al) == (n,) and all(lib.eqv(a, const(b)) for a, b in zip(al, ref.al)), rule, construct + ":alpha", where,
                     "angles %s, expected %s (%s)" % ([str(angle(a)) for a in np.ravel(al)], [str(a) for a in ref.al], what), p):
        return
    for k in COEF:
        x = g(k)
        if rep.check(np.shape(x) == (n,), rule, construct + ":" + k, where, "%s has shape %s (%s)" % (k, np.shape(x), what), p):
            for i in range(n):
                rep.same(x[i], getattr(ref, k)[i], rule, construct + ":" + k, where, "%s at %s degrees (%s)" % (k, ref.al[i], what), p)
