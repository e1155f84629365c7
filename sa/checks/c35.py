"""Operating points reported by an airfoil: the surfaces take known values on the searched angles, with the peak placed anywhere."""
import random
from fractions import Fraction as Fr

import numpy as np

import lib
import npmodel
import world
from checks.c14 import table
from checks.c17 import reference
from checks.geom import rad
from checks.omcomp import concrete
from core import const, lift, sym
from pyinterp import PyRaise

W = "ccblade/ccblade.py (CCAirfoil.%s)"
GRID = [Fr(-20) + Fr(3, 10) * k for k in range(201)]
TABLES = {"coarse table": [-180, -90, -30, -20, -10, 0, 10, 20, 40, 90, 180], "table without the limits": [-180, -100, -17, 0, 8, 30, 52, 180],
          "table of positive angles near zero": [-180, -21, 0, 20, 50, 180]}
CYL = {"three angles": [-180, 0, 180], "two angles on one side": [-180, 11, 170], "no angle near the limits": [-180, -100, 10, 130, 180]}


MARGINS = [Fr(1), Fr(0), Fr(5), Fr(-3), Fr(1, 4), Fr(13)]


class Surface:
    """values of the lift and drag surfaces: known at known angles, larger outside the searched ones"""

    def __init__(self, keys, Re, i_eff, i_cl, seed):
        self.keys, self.Re = keys, Re
        rnd = random.Random("%s-%s-%s" % (i_eff, i_cl, seed))
        self.val = {}
        n = len(GRID)
        cd = [Fr(rnd.randint(200, 900), 10000) for _ in range(n)]
        cl = [Fr(rnd.randint(-900, 900), 1000) for _ in range(n)]
        cl[i_cl] = Fr(1250 + rnd.randint(0, 50), 1000)
        if i_eff == i_cl:
            cd[i_eff] = Fr(rnd.randint(101, 140), 10000)
        else:
            cd[i_cl] = Fr(rnd.randint(500, 900), 10000)
            cl[i_eff] = Fr(rnd.randint(950, 1000), 1000)
            cd[i_eff] = Fr(rnd.randint(101, 140), 10000)
        # less drag than at either peak: with little lift, and with much negative lift
        free = [k for k in range(n) if k not in (i_eff, i_cl)]
        a, b, c = rnd.sample(free, 3)
        cl[a], cd[a] = Fr(1, 10), Fr(1, 200)
        cl[b], cd[b] = Fr(-19, 20), Fr(1, 150)
        cl[c], cd[c] = Fr(-2), Fr(1, 2)
        self.cl, self.cd = cl, cd

    def node(self, k):
        return rad(const(GRID[k]))

    def __call__(self, key, a, r):
        if key not in self.keys or a.f is None or lift(r).v != self.Re.v:
            return None
        which = self.keys[key]
        x = a.f * 180 / 3.141592653589793
        k = round((x + 20) / 0.3)
        if 0 <= k < len(GRID) and a.v == self.node(k).v:
            return const((self.cl if which == "cl" else self.cd)[k])
        # elsewhere: more lift, less drag
        h = abs(hash(round(x, 9))) % 1000
        return const(Fr(3) + Fr(h, 1000)) if which == "cl" else const(Fr(1, 1000) + Fr(h, 10 ** 6))


def value(x):
    return lift(x[()]) if isinstance(x, np.ndarray) and x.ndim == 0 else lift(x)


def case(rep, what, al, nre, i_eff, i_cl, margin, cylinder=False):
    rep.configs += 1

    def fn():
        I = world.fresh()
        T = {k: table(k, len(al), nre) for k in ("cl", "cd", "cm")}
        Re = [10 ** (5 + k) for k in range(nre)]
        ref = {k: reference(al, Re, T, k) for k in ("cl", "cd")}
        r = sym("Re", positive=True)
        o = world.cls(I, "ccblade", "CCAirfoil")(concrete(al), concrete(Re), T["cl"], T["cd"])
        S = Surface({ref[k].key: k for k in ref}, r, i_eff, i_cl, what)
        # another Reynolds number at which the surfaces peak elsewhere
        r2 = sym("Re'", positive=True)
        S2 = Surface(S.keys, r2, (i_eff + 61) % len(GRID), (i_cl + 83) % len(GRID), what + "'") if nre > 1 and not cylinder else None
        world.HOOKS["rbs_value"] = (lambda *a: S2(*a) if S(*a) is None else S(*a)) if S2 else S
        m = I.getattr(o, "max_eff")(r)
        s = I.getattr(o, "awayfromstall")(r, margin)
        other = [I.getattr(o, "max_eff")(r2), I.getattr(o, "awayfromstall")(r2, margin)] if S2 else []
        again = (I.getattr(o, "max_eff")(r), I.getattr(o, "awayfromstall")(r, margin))
        if cylinder:
            a1 = a2 = const(0)
        else:
            a1, a2 = S.node(i_eff), S.node(i_cl) - rad(lift(margin))
        E = []
        for a in (a1, a2):
            cl, cd = value(ref["cl"].ev(a, r)), value(ref["cd"].ev(a, r))
            E.append((cl / cd, a, cl, cd))
        E2 = []
        if S2:
            for a in (S2.node((i_eff + 61) % len(GRID)), S2.node((i_cl + 83) % len(GRID)) - rad(lift(margin))):
                cl, cd = value(ref["cl"].ev(a, r2)), value(ref["cd"].ev(a, r2))
                E2.append((cl / cd, a, cl, cd))
        x = sym("alpha")
        ev = I.getattr(o, "evaluate")(x, r)
        return I, (m, s), again, E, other, E2, ev, [ref[k].ev(x, r) for k in ("cl", "cd")]

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, got, again, E, other, E2, ev, ev0 = p.result
        rep.analysed(I)
        for nm, g, a, e in zip(("max_eff", "awayfromstall"), got, again, E):
            rule = "cylinder" if cylinder else "best-efficiency" if nm == "max_eff" else "stall-margin"
            if not rep.check(isinstance(g, tuple) and len(g) == 4, rule, nm, W % nm, "four values documented (%s)" % what, p):
                continue
            for k, x, y, z in zip(("efficiency", "angle", "lift", "drag"), g, e, a):
                rep.same(value(x), y, rule, "%s %s" % (nm, k), W % nm, "%s is not that of the airfoil at the reported point (%s)" % (k, what), p)
                rep.same(value(x), value(z), "unchanged", "%s %s" % (nm, k), W % nm, "asked twice, %s differs (%s)" % (k, what), p)
        for nm, g, e in zip(("max_eff", "awayfromstall"), other, E2):
            for k, x, y in zip(("efficiency", "angle", "lift", "drag"), g, e):
                rep.same(value(x), y, "best-efficiency" if nm == "max_eff" else "stall-margin", "%s %s" % (nm, k), W % nm,
                         "asked at another Reynolds number, %s is not that of the airfoil there (%s)" % (k, what), p)
        for k, x, y in zip(("cl", "cd"), ev, ev0):
            rep.same(value(x), value(y), "unchanged", k, W % "evaluate", "evaluate differs after asking (%s)" % what, p)
        rep.sample("%s, peak of efficiency %d, of lift %d" % (what, i_eff, i_cl))
    lib.each_path(rep, fn, on, explore="flip")


def run(rep):
    rep.rule("best-efficiency", "max_eff: angle of the largest lift over drag among the 201 angles, with the airfoil's coefficients there")
    rep.rule("stall-margin", "awayfromstall: angle of the largest lift minus the margin in degrees, with the airfoil's coefficients there")
    rep.rule("cylinder", "both use zero angle of attack when the table has no angles between the limits")
    rep.rule("unchanged", "asking changes neither the airfoil nor a later answer")
    n0 = rep.paths
    jobs = []
    m = sym("margin")
    n = len(GRID)
    step = 1 if rep.thorough else 25
    pairs = [(k, (k * 7 + 3) % n) for k in range(0, n, step)] + [(0, n - 1), (n - 1, 0), (0, 0), (n - 1, n - 1), (1, n - 2), (66, 67), (100, 100)]
    for j, (a, b) in enumerate(pairs):
        t = list(TABLES)[j % 3]
        for nre in (1, 3):
            jobs.append(lambda rp, t=t, nre=nre, a=a, b=b, j=j: case(rp, "%s, %d Reynolds numbers" % (t, nre), TABLES[t], nre, a, b,
                                                                  m if j % 2 else const(MARGINS[j // 2 % len(MARGINS)])))
    for t, al in CYL.items():
        for nre in (1, 2):
            jobs.append(lambda rp, t=t, al=al, nre=nre: case(rp, "cylinder, %s, %d Reynolds numbers" % (t, nre), al, nre, 30, 70, m, True))
    lib.parallel(rep, jobs)
    rep.floor("airfoils", rep.paths - n0, len(jobs))
