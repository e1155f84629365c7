"""Unsteady-aerodynamics parameters of a CCAirfoil table."""
import math

import lib
import npmodel
import world
from checks.geom import rad
from core import PI, const, cos, lift, sin
from fractions import Fraction as Fr
from pyinterp import PyRaise

W = "ccblade/ccblade.py (CCAirfoil.eval_unsteady)"
DEFAULT = "T_f0 T_V0 T_p T_VL b1 b2 b5 A1 A2 A5 St_sh x_cp_bar UACutout filtCutOff".split()
NIL = "S1 S2 S3 S4 k0 k1 k2 k3 k1_hat".split()


def shape(al, slope, a0, up, lo, cd0, adrag, cm0, dip, dip2, tail=-0.0008, lift=0.08):
    """lift rising to the stall angles and falling after, bucket-shaped drag, moment with a dip beyond stall on either side"""
    cl, cd, cm = [], [], []
    for i, a in enumerate(al):
        x = min(max(a, lo), up)
        y = slope * (x - a0)
        if a > up:
            y -= 0.6 * slope * up * (1 - math.exp(-(a - up) / 9.0)) * (1 if a < 90 else 0.4)
        if a < lo:
            y -= 0.6 * slope * lo * (1 - math.exp((a - lo) / 9.0)) * (1 if a > -90 else 0.4)
        if abs(a) > 90:
            y *= (180.0 - abs(a)) / 90.0
        cl.append(round(y + 1e-3 * (i * i % 7), 5))
        cd.append(cd0 + 4e-5 * (a - adrag) ** 2 + (0.02 * max(0.0, a - up * 0.8) + 0.02 * max(0.0, lo * 0.8 - a)) * (1 if abs(a) < 90 else 0.6) + 1e-5 * (i * i % 5))
        cd[-1] = round(cd[-1], 6)
        m = cm0 + tail * a
        m += 0.05 * math.exp(-((a - up) / 3.0) ** 2) - 0.09 * math.exp(-((a - up - dip) / 4.0) ** 2)
        m += -0.04 * math.exp(-((a - lo) / 3.0) ** 2) + lift * math.exp(-((a - lo + dip2) / 4.0) ** 2)
        cm.append(round(m + 2e-5 * (i * i % 11), 6))
    return cl, cd, cm


def nearest(al, a):
    return min(range(len(al)), key=lambda i: abs(al[i] - a))


def minima(v, lo, hi):
    w = list(range(lo, hi))
    return [i for k, i in enumerate(w) if (k == 0 or v[i] < v[i - 1]) and (k == len(w) - 1 or v[i] < v[i + 1])]


def bulge(al, y, lo, hi, measure):
    """entry between two table entries that lies farthest on the given side of the straight line through them"""
    best, at = 0.0, lo
    for i in range(lo, hi):
        line = y[lo] + (y[hi] - y[lo]) * (al[i] - al[lo]) / (al[hi] - al[lo])
        d = measure(y[i] - line)
        if d > best + 1e-13:
            best, at = d, i
    return at


def reference(al, T, S, flatcl=False, flatcm=False):
    """al degrees; T the table as terms; S as typical numbers (they choose the entries, the terms are what is compared)"""
    X = [rad(const(a)) for a in al]
    cn = [T["cl"][i] * cos(x) + T["cd"][i] * sin(x) for i, x in enumerate(X)]
    ncn = [S["cl"][i] * math.cos(math.radians(a)) + S["cd"][i] * math.sin(math.radians(a)) for i, a in enumerate(al)]
    lo, hi = nearest(al, -30), nearest(al, 30)
    zero = nearest(al, 0)
    R = {}
    if flatcl:
        a0n = 0.0
        R.update(alpha0=const(0), Cd0=T["cd"][zero], Cm0=const(0))
    else:
        k = [i for i in range(lo, hi - 1) if S["cl"][i] < 0 <= S["cl"][i + 1]]
        if len(k) != 1 or S["cl"][lo] >= 0 or S["cl"][hi - 1] <= 0:
            return None
        k = k[0]
        t = (const(0) - T["cl"][k]) / (T["cl"][k + 1] - T["cl"][k])
        tn = -S["cl"][k] / (S["cl"][k + 1] - S["cl"][k])
        a0n = al[k] + tn * (al[k + 1] - al[k])
        R.update(alpha0=const(Fr(al[k])) + t * const(Fr(al[k + 1]) - Fr(al[k])),
                 Cd0=T["cd"][k] + t * (T["cd"][k + 1] - T["cd"][k]), Cm0=T["cm"][k] + t * (T["cm"][k + 1] - T["cm"][k]))
    if flatcm:
        R.update({k: const(0) for k in ("Cn1", "Cn2", "C_nalpha", "alpha1", "alpha2")})
        return R
    i0 = nearest(al, a0n)
    m = minima(S["cm"], lo, nearest(al, al[i0] + 35))
    if not m or m[-1] <= i0 + 1:
        return None
    i1 = bulge(al, S["cm"], i0, m[-1], lambda d: d)
    i2lo = nearest(al, (al[i0] + al[i1]) / 2 - 30)
    if i2lo >= i0:
        return None
    i2 = bulge(al, S["cm"], i2lo, i0, abs)
    if i1 - i0 < 2 or i1 <= zero:
        return None

    def slope(v, x, i):
        # second-order difference on uneven angles inside the range, one-sided at its ends
        if i == i0:
            return (v[i + 1] - v[i]) / (x[i + 1] - x[i])
        if i == i1 - 1:
            return (v[i] - v[i - 1]) / (x[i] - x[i - 1])
        h, g = x[i] - x[i - 1], x[i + 1] - x[i]
        return (h * h * v[i + 1] + (g * g - h * h) * v[i] - g * g * v[i - 1]) / (h * g * (h + g))
    xr = [math.radians(a) for a in al]
    steep = max(range(i0, i1), key=lambda i: slope(ncn, xr, i))
    ia = bulge(al, S["cd"], zero, i1, lambda d: -d)
    a1 = const(Fr(al[ia]))
    R.update(Cn1=cn[i1], Cn2=cn[i2], C_nalpha=slope(cn, X, steep), alpha1=a1, alpha2=const(0) - a1)
    return R


def case(rep, what, al, S, flatcl=False, flatcm=False, again=False):
    rep.configs += 1

    def fn():
        I = world.fresh()
        T = {k: npmodel.oarr([const(Fr(str(x))) for x in S[k]]) for k in ("cl", "cd", "cm")}
        want = reference(al, T, S, flatcl, flatcm)
        assert want is not None, what
        A = npmodel.oarr([const(Fr(a)) for a in al])
        o = world.cls(I, "ccblade", "CCAirfoil")(A, npmodel.oarr([const(10 ** 6)]), T["cl"], T["cd"], T["cm"])
        if again:
            o2 = {k: npmodel.oarr([x + const(Fr(1, 100)) * const(i) for i, x in enumerate(T[k])]) for k in T}
            I.getattr(o, "eval_unsteady")(A, o2["cl"], o2["cd"], o2["cm"])
        I.getattr(o, "eval_unsteady")(A, T["cl"], T["cd"], T["cm"])
        return I, A, T, want, I.getattr(o, "unsteady")

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, A, T, want, u = p.result
        rep.analysed(I)
        if not rep.check(isinstance(u, dict), "parameters", "unsteady", W, "no dictionary (%s)" % what, p):
            return
        for k, w in want.items():
            if rep.check(k in u, "parameters", k, W, "missing (%s)" % what, p):
                x = u[k]
                x = x[()] if npmodel.is_arr(x) and x.ndim == 0 else x
                rep.same(lift(x), w, "parameters", k, W, "%s is not that of the table (%s)" % (k, what), p)
        for k, w in dict(Alpha=A, Cl=T["cl"], Cd=T["cd"], Cm=T["cm"]).items():
            ok = k in u and lib.differ(npmodel.oarr(w), npmodel.oarr(u[k])) is None
            rep.check(ok, "table", k, W, "the stored %s is not the table given (%s)" % (k, what), p)
        for k in DEFAULT:
            rep.check(u.get(k) == "Default", "neutral", k, W, "%s is not left to AeroDyn (%s)" % (k, what), p)
        for k in NIL + ["eta_e"]:
            ok = k in u and not isinstance(u[k], str) and lift(u[k]).q == (1 if k == "eta_e" else 0)
            rep.check(ok, "neutral", k, W, "%s is not neutral (%s)" % (k, what), p)
        rep.sample(what)
    lib.each_path(rep, fn, on, explore="typical")


ONE = [-180.0, -160.0, -140.0, -120.0, -100.0, -80.0, -60.0, -50.0, -42.0, -36.0] + [float(a) for a in range(-32, 33)] + [36.0, 42.0, 50.0, 60.0, 80.0, 100.0, 120.0, 140.0, 160.0, 180.0]
HALF = [-180.0, -120.0, -90.0, -60.0, -45.0] + [a / 2.0 for a in range(-80, 81, 3)] + [45.0, 60.0, 90.0, 120.0, 180.0]
EVEN = [-180.0 + 2.5 * i for i in range(145)]
UNEVEN = [-180.0, -130.0, -90.0, -60.0, -44.0, -37.0, -31.0, -27.0, -24.0, -20.0, -17.0, -14.0, -11.5, -9.0, -7.0, -5.0, -3.5, -2.0, -0.5, 0.75, 2.0, 3.0, 4.5, 6.0,
          7.0, 8.5, 10.0, 11.0, 12.5, 14.0, 16.0, 18.0, 21.0, 23.0, 26.0, 29.0, 33.0, 38.0, 45.0, 60.0, 90.0, 130.0, 180.0]
SHAPES = [(0.11, -3.0, 12.0, -11.0, 0.008, 1.0, -0.08, 9, 8), (0.10, -1.0, 9.0, -13.0, 0.011, -2.0, -0.03, 12, 7), (0.095, -4.5, 15.0, -9.0, 0.02, 3.0, -0.12, 7, 10),
          (0.12, 2.0, 14.0, -8.0, 0.006, 0.0, 0.04, 10, 9),
          # the moment rises again after its dip
          (0.11, -2.5, 11.0, -12.0, 0.009, 0.5, -0.06, 10, 9, 0.0015), (0.105, -4.0, 14.0, -10.0, 0.012, -1.0, -0.1, 8, 6, 0.0009),
          # the moment dips below stall on the negative side too
          (0.11, -3.0, 12.0, -11.0, 0.008, 1.0, -0.08, 9, 4, -0.0008, -0.09), (0.1, -2.0, 10.0, -9.0, 0.01, 1.0, -0.05, 10, 6, 0.001, -0.07),
          # zero lift far below zero degrees
          (0.1, -12.5, 9.0, -24.0, 0.01, -6.0, -0.15, 10, 4), (0.11, -17.0, 8.0, -28.0, 0.01, -3.0, -0.2, 11, 3, 0.001)]


def run(rep):
    rep.rule("parameters", "zero lift, breakpoints, slope and forces are those of the given table")
    rep.rule("table", "the table is stored as given")
    rep.rule("neutral", "the other AeroDyn keys keep their neutral or default values")
    n0 = rep.paths
    grids = [("one degree", ONE), ("uneven", UNEVEN), ("one and a half degrees", HALF), ("two and a half degrees", EVEN)]
    used = 0
    for gn, al in grids:
        for j, s in enumerate(SHAPES):
            S = dict(zip(("cl", "cd", "cm"), shape(al, *s)))
            if reference(al, {k: [const(0)] * len(al) if k != "cl" else [const(i) for i in range(len(al))] for k in S}, S) is None:
                continue
            used += 1
            case(rep, "%s table, shape %d" % (gn, j), al, S, again=j == 1)
    for j, (kl, km) in enumerate(((1.0, 0.04), (0.01, 1.0), (0.01, 0.04))):
        S = dict(zip(("cl", "cd", "cm"), shape(ONE, *SHAPES[4])))
        S["cl"], S["cm"] = [round(x * kl, 7) for x in S["cl"]], [round(x * km, 7) for x in S["cm"]]
        used += 1
        case(rep, "one degree table, weak %s" % ("moment", "lift", "lift and moment")[j], ONE, S)
    for gn, al in grids[:2]:
        S = dict(zip(("cl", "cd", "cm"), shape(al, *SHAPES[0])))
        case(rep, "%s table, constant moment" % gn, al, dict(S, cm=[-0.125] * len(al)), flatcm=True)
        case(rep, "%s table, no moment" % gn, al, dict(S, cm=[0.0] * len(al)), flatcm=True)
        case(rep, "%s table, cylinder" % gn, al, dict(S, cl=[0.0] * len(al), cm=[0.0] * len(al)), flatcl=True, flatcm=True)
    rep.floor("tables", used, 10)
