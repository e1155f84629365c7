import functools
from fractions import Fraction as Fr

import numpy as np

import core
import lib
import npmodel
from checks import geom, pipeline
from checks.c05 import OUT, points
from checks.pipeline import EVAL_WHERE, Rotor
from core import PI, const, cos, lift, sin
from pyinterp import PyRaise

INIT_WHERE = "ccblade/ccblade.py (CCBlade.__init__)"


def expected(R, ops, nsec, L):
    """documented outputs from the section loads L[point][sector] of a separate rotor object"""
    s, v = R.s, R.v
    B, pc = s["B"], geom.rad(s["precone"])
    Rr = s["Rtip"] * cos(pc) + s["precurveTip"] * sin(pc)
    A = PI() * Rr * Rr
    E = {k: [] for k in OUT + ["C" + o for o in OUT]}
    for i in range(len(ops["Uinf"])):
        t = {k: const(0) for k in OUT}
        for j in range(nsec):
            az = const(2) * PI() * j / nsec
            ca, sa = cos(az), sin(az)
            T, Y, Z, Q, M = geom.trapezoid(L[i][j]["Np"], L[i][j]["Tp"], v["r"], v["precurve"], v["presweep"], pc,
                                           s["Rhub"], s["Rtip"], s["precurveTip"], s["presweepTip"])
            for k, x in (("T", B * T), ("Y", B * (Y * ca - Z * sa)), ("Z", B * (Z * ca + Y * sa)), ("Q", B * Q),
                         ("My", B * M * ca), ("Mz", B * M * sa), ("Mb", M)):
                t[k] = t[k] + x / nsec
        t["P"] = t["Q"] * ops["Omega"][i] * PI() / 30
        U = ops["Uinf"][i]
        q = s["rho"] * U * U / 2
        for k in OUT:
            E[k].append(t[k])
            d = q * A * (U if k == "P" else Rr if k[0] in "QM" else const(1))
            E["C" + k].append(t[k] / d)
    return E


# operating points with the same wind speed, rotor speed or pitch angle as another one (index of the point they share it with)
SHARED = [{"Uinf": (0, 0, 0, 0)}, {"Uinf": (0, 1, 0, 1), "Omega": (0, 0, 1, 1), "pitch": (0, 1, 1, 1)}, {"Omega": (0, 0, 0, 0), "pitch": (0, 0, 0, 0)},
          {"Uinf": (0, 0, 2, 2), "Omega": (0, 0, 0, 0), "pitch": (0, 0, 2, 2)}]


def run(rep):
    rep.rule("azimuth-average", "dimensional outputs = blade count x mean over sectors of the rotated single-blade integrals; power = torque x speed")
    rep.rule("normalisation", "coefficients = outputs over dynamic pressure, area, radius, wind speed as documented")
    rep.rule("sector-count", "one sector iff tilt, yaw and shear all vanish, at least four otherwise")
    rep.rule("input-shape", "scalar and list operating points give the same outputs as arrays")
    z = const(0)
    cfg = [("three points", {}, 5, 5, 3, 2, None), ("fewer than four sectors requested", {}, 2, 4, 1, 2, None),
           ("tilt only", dict(yaw=z, shearExp=z), 1, 4, 1, 2, None), ("yaw only", dict(tilt=z, shearExp=z), 3, 4, 1, 2, None),
           ("shear only", dict(tilt=z, yaw=z), 1, 4, 1, 2, None),
           ("axisymmetric", dict(tilt=z, yaw=z, shearExp=z), 7, 1, 2, 3, None),
           ("default sectors", {}, 8, 8, 1, 2, None), ("scalar operating point", {}, 4, 4, 1, 2, "scalar"),
           ("list operating points", {}, 4, 4, 2, 2, "list"), ("whole operating points", {}, 4, 4, 2, 2, "whole"),
           ("list of whole operating points", {}, 4, 4, 2, 2, "whole list")]
    # angles that are small, negative or large are no different
    for k, a in (("tilt", Fr(1, 2)), ("yaw", Fr(-1, 10)), ("shearExp", Fr(1, 100)), ("tilt", Fr(-1, 1000)), ("yaw", 60)):
        cfg.append(("%s of %s" % (k, a), dict(dict(tilt=z, yaw=z, shearExp=z), **{k: const(a)}), 1, 4, 1, 2, None))
    cfg.append(("turning backwards", {}, 4, 4, 1, 2, "backwards"))
    cfg += [("zero " + "/".join(zs), {}, 4, 1 if {"tilt", "yaw", "shearExp"} <= set(zs) else 4, 1, 2, None, zs) for zs in pipeline.ZEROS]
    cfg += [("blade count %s, sectors %d" % (b, k), {"B": const(b)}, k, k, 1, 2, None) for b, k in ((1, 6), (2, 7), (4, 9))]
    cfg += [("seven stations", {}, 4, 4, 1, 7, None), ("seven stations, axisymmetric", dict(tilt=z, yaw=z, shearExp=z), 4, 1, 1, 7, None),
            ("many points", dict(tilt=z, yaw=z, shearExp=z), 4, 1, 7, 2, None), ("many sectors", {}, 24, 24, 1, 2, None)]
    for k, sh in enumerate(SHARED):
        cfg.append(("points that share settings %d" % k, dict(tilt=z, yaw=z, shearExp=z) if k else {}, 4, 1 if k else 4, 4, 2, None, (), sh))
    n0 = rep.paths
    lib.parallel(rep, [functools.partial(case, c=c) for c in cfg])
    rep.floor("evaluations", rep.paths - n0, len(cfg))


def case(rep, c):
    what, cs, req, nsec, npts, n, form = c[:7]
    zeros = c[7] if len(c) > 7 else ()
    shared = c[8] if len(c) > 8 else None
    rep.configs += 1

    def fn():
        R = Rotor(n, pipeline.FLAGSETS[1], False, cs, nSector=req, zeros=zeros)
        ops = points(npts, shared, zeros=zeros)
        if form == "backwards":
            ops["Omega"] = npmodel.oarr([const(-3)])
        if form and "whole" in form:
            W = dict(Uinf=[9, 11], Omega=[10, 12], pitch=[-1, 3])
            ops = {k: npmodel.oarr([const(x) for x in W[k]]) for k in ops}
            o = {k: list(W[k]) if "list" in form else np.array(W[k]) for k in W}
        else:
            o = {k: (a[0] if form == "scalar" else list(a) if form == "list" else a) for k, a in ops.items()}
        out, _ = R.evaluate(o["Uinf"], o["Omega"], o["pitch"], coefficients=True)
        R2 = Rotor(n, pipeline.FLAGSETS[1], False, cs, nSector=req, I=R.I, af=R.af, zeros=zeros)
        L = []
        for i in range(npts):
            L.append([R2.loads(Uinf=ops["Uinf"][i], Omega=ops["Omega"][i], pitch=ops["pitch"][i],
                               azimuth=const(360) * j / nsec)[0] for j in range(nsec)])
        return R, out, expected(R, ops, nsec, L)

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, out, E = p.result
        rep.analysed(R.I)
        rep.check(lib.val(R.m("nSector")) == const(nsec).v, "sector-count", "nSector", INIT_WHERE,
                  "%s: %s sectors for %d requested" % (what, R.m("nSector"), req), p)
        for k in E:
            rule = "input-shape" if form else "normalisation" if k[0] == "C" else "azimuth-average"
            if not rep.check(k in out and np.shape(out[k]) == (npts,), rule, k, EVAL_WHERE, "missing or of wrong shape (%s)" % what, p):
                continue
            for i in range(npts):
                rep.same(out[k][i], E[k][i], rule, k, EVAL_WHERE, "%s of point %d is not the documented quantity (%s)" % (k, i, what), p)
        rep.sample("%s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore="typical" if n > 5 or npts > 4 or nsec > 9 else "all" if rep.thorough and nsec < 5 and not zeros and not shared else "flip")
