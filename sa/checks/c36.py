"""Unsteady-aerodynamics parameters of a polar."""
from fractions import Fraction as Fr

import lib
import npmodel
import world
from checks.geom import deg, rad
from checks.polarref import P
from core import const, cos, lift, sin, sym
from pyinterp import PyRaise

W = "ccblade/airfoilprep.py (Polar.unsteadyparam)"
NAMES = ("control setting", "upper stall angle", "zero-force angle", "normal-force slope", "normal force at upper stall",
         "normal force at lower stall", "angle of least drag", "least drag")


def table(al, up, lo, slope, cl0, dragmin, after=Fr(1, 50)):
    """lift linear between the stall angles, then bending away and falling; least drag at the given angle"""
    cl, cd = [], []
    for i, a in enumerate(al):
        a = Fr(a)
        if a > up:
            y = slope * up + cl0 + after * (a - up) if a <= up + 20 else (slope * up + cl0 + 20 * after) * (180 - a) / (160 - up)
        elif a < lo:
            y = slope * lo + cl0 + after * (a - lo) if a >= lo - 20 else (slope * lo + cl0 - 20 * after) * (180 + a) / (160 + lo)
        else:
            y = slope * a + cl0
        cl.append(y + Fr(i * i % 7, 5000))
        cd.append(Fr(1, 100) + abs(a - dragmin) / 120 + Fr(i * i % 5, 50000))
    return P(10 ** 6, al, [const(x) for x in cl], [const(x) for x in cd], [const(0)] * len(al))


def reference(p, lo, hi):
    X = [rad(const(a)) for a in p.al]
    cn = [l * cos(x) + d * sin(x) for l, d, x in zip(p.cl, p.cd, X)]
    idx = [i for i, a in enumerate(p.al) if lo <= a <= hi]
    n = const(len(idx))
    sx, sy = sum((X[i] for i in idx), const(0)), sum((cn[i] for i in idx), const(0))
    sxx, sxy = sum((X[i] * X[i] for i in idx), const(0)), sum((X[i] * cn[i] for i in idx), const(0))
    m = (n * sxy - sx * sy) / (n * sxx - sx * sx)
    a0 = -((sy - m * sx) / n) / m

    def at(a):
        if a <= p.al[0]:
            return cn[0]
        for i in range(1, len(p.al)):
            if a <= p.al[i]:
                t = Fr(a - p.al[i - 1]) / (p.al[i] - p.al[i - 1])
                return cn[i - 1] + (cn[i] - cn[i - 1]) * const(t)
        return cn[-1]

    def stall(grid, sign):
        d = [(m * (rad(const(a)) - a0) - at(a)) * const(sign) for a in grid]
        x = Fr(1, 20)
        if d[0].f >= x:
            return rad(const(grid[0])), 0
        cross = [k for k in range(1, len(d)) if (d[k - 1].f - x) * (d[k].f - x) < 0]
        if not cross:
            return rad(const(grid[-1])), 0
        k = cross[0]
        g0, g1 = rad(const(grid[k - 1])), rad(const(grid[k]))
        return g0 + (const(x) - d[k - 1]) / (d[k] - d[k - 1]) * (g1 - g0), len(cross)
    u, c1 = stall(range(40), 1)
    l, c2 = stall(range(5, -40, -1), -1)
    if c1 > 1 or c2 > 1:
        return None
    k = min(range(len(p.al)), key=lambda i: p.cd[i].f)
    return [const(0), deg(u), deg(a0), m, m * (u - a0), m * (l - a0), const(p.al[k]), p.cd[k]]


FINE = [-180, -150, -120, -90, -60, -45, -39, -30] + list(range(-25, 26)) + [30, 35, 40, 50, 70, 90, 120, 150, 180]
MID = [-180, -120, -80, -40, -30, -22, -16, -12, -8, -5, -3, -1, 1, 3, 5, 8, 11, 14, 18, 24, 30, 38, 45, 90, 130, 180]
ODD = [-180, -100, -50, -33, -21, -15, -9, -4, -1, 2, 4, 7, 10, 13, 19, 27, 36, 60, 110, 180]


def case(rep, what, p, rule, args=None, zero=False, form="keyword"):
    rep.configs += 1
    lo, hi = args or (-5, 5)
    def fn():
        I = world.fresh()
        o = p.make(I)
        f = I.getattr(o, "unsteadyparam")
        want = [const(0)] * 8 if zero else reference(p, lo, hi)
        assert want is not None, what
        return I, want, (f() if args is None else f(lo, hi) if form != "keyword" else f(alpha_linear_min=lo, alpha_linear_max=hi))

    def on(q):
        if isinstance(q.result, PyRaise):
            raise q.result
        I, want, got = q.result
        rep.analysed(I)
        if rep.check(isinstance(got, (tuple, list)) and len(got) == 8, rule, "unsteadyparam", W, "eight values documented (%s)" % what, q):
            for nm, g, w in zip(NAMES, got, want):
                rep.same(lift(g), w, rule, nm, W, "%s is not that of the polar (%s)" % (nm, what), q)
        rep.sample(what)
    lib.each_path(rep, fn, on, explore="flip")


def run(rep):
    rep.rule("parameters", "the eight documented values of a polar with a linear range")
    rep.rule("cylinder", "all zero for a table with fewer than ten angles or ten different lift values")
    n0 = rep.paths
    T = {}
    for nm, al in (("fine table", FINE), ("medium table", MID), ("uneven table", ODD)):
        for j, (up, lo, sl, c0, dm) in enumerate(((9, -9, Fr(11, 100), Fr(3, 10), 0), (12, -7, Fr(9, 100), Fr(1, 10), 4),
                                                  (7, -14, Fr(21, 200), Fr(-1, 5), -8), (15, -11, Fr(2, 25), Fr(1, 2), -180))):
            T["%s %d" % (nm, j)] = table(al, up, lo, sl, c0, dm)
    for nm, p in T.items():
        case(rep, nm, p, "parameters")
    # several angles share the least drag: the first of them is reported
    for nm, lo, hi in (("drag bucket about zero", -3, 4), ("drag bucket of two angles", 5, 6), ("flat drag from the left end", -180, -60)):
        b = table(FINE, 9, -9, Fr(11, 100), Fr(3, 10), 0)
        b = P(10 ** 6, FINE, b.cl, [const(Fr(1, 100)) if lo <= a <= hi else b.cd[i] + const(Fr(1, 100)) for i, a in enumerate(FINE)],
              [const(0)] * len(FINE))
        case(rep, nm, b, "parameters")
    for nm, args in (("fine table 0", (-3, 4)), ("medium table 1", (-8, 3)), ("uneven table 2", (-9, 7)), ("fine table 3", (-2, 8))):
        case(rep, nm + ", linear range %s" % (args,), T[nm], "parameters", args)
        case(rep, nm + ", linear range %s by position" % (args,), T[nm], "parameters", args, form="position")
    for nm, al, a in (("table from -12 to 25 degrees", list(range(-12, 26)), (9, -30, Fr(11, 100), Fr(3, 10), 0)),
                      ("table from -30 to 12 degrees", list(range(-30, 13)), (20, -9, Fr(11, 100), Fr(3, 10), 0)),
                      ("table from -8 to 8 degrees", [Fr(k, 2) for k in range(-16, 17)], (30, -30, Fr(1, 10), Fr(1, 5), 3))):
        case(rep, nm, table(al, *a), "parameters")
    few = [-180, -90, -10, -4, 0, 4, 10, 90, 180]
    case(rep, "nine angles", table(few, 9, -9, Fr(1, 10), Fr(1, 5), 0), "cylinder", zero=True)
    n = len(FINE)
    cyl = P(10 ** 6, FINE, [const(0)] * n, [const(Fr(1, 2))] * n, [const(0)] * n)
    case(rep, "cylinder", cyl, "cylinder", zero=True)
    nine = P(10 ** 6, FINE, [const(Fr(i % 9, 10)) for i in range(n)], [const(Fr(i + 1, 100)) for i in range(n)], [const(0)] * n)
    case(rep, "nine different lift values", nine, "cylinder", zero=True)
    ten = P(10 ** 6, FINE, [const(Fr(max(-4, min(5, a)), 10)) for a in FINE], [const(Fr(1, 100) + Fr(abs(a - 3), 300)) for a in FINE],
            [const(0)] * n)
    assert len(set(c.q for c in ten.cl)) == 10
    case(rep, "ten different lift values", ten, "parameters")
    case(rep, "ten angles", table(few[:5] + [2] + few[5:], 9, -9, Fr(1, 10), Fr(1, 5), 0), "parameters")
    rep.floor("polars", rep.paths - n0, 20)
