import itertools

import numpy as np

import lib
import world
from checks.geom import rad
from core import const, cos, grad, lift, sin, sym
from lib import vec
from pyinterp import PyRaise

WHERE = "ccblade/csystem.py (DirectionVector.%s)"

# documented elementary rotations: from, to, axis, sign, derivative name
STEPS = [("inertial", "wind", 2, 1, "beta", "inertialToWind", "windToInertial"),
         ("wind", "yaw", 2, 1, "yaw", "windToYaw", "yawToWind"),
         ("yaw", "hub", 1, 1, "tilt", "yawToHub", "hubToYaw"),
         ("hub", "azimuth", 0, 1, "azimuth", "hubToAzimuth", "azimuthToHub"),
         ("azimuth", "blade", 1, -1, "precone", "azimuthToBlade", "bladeToAzimuth"),
         ("blade", "airfoil", 2, -1, "theta", "bladeToAirfoil", "airfoilToBlade")]


def turned(c, axis, ang):
    """components of the same vector in the frame turned by +ang (deg) about its own axis"""
    i, j = (axis + 1) % 3, (axis + 2) % 3
    a = rad(lift(ang))
    o = list(c)
    o[i] = c[i] * cos(a) + c[j] * sin(a)
    o[j] = c[j] * cos(a) - c[i] * sin(a)
    return o


def comps(I, v):
    return [np.asarray(I.getattr(v, k), dtype=object).reshape(-1) for k in "xyz"]


def mk(I, kind, tag):
    D = world.cls(I, "csystem", "DirectionVector")
    if kind == "scalar":
        c = [sym(tag + k) for k in "xyz"]
        return D(*c), [[x] for x in c]
    if kind == "mixed":
        c = [vec(tag + "x", 2), sym(tag + "y"), vec(tag + "z", 2)]
        return D(*c), [list(c[0]), [c[1]] * 2, list(c[2])]
    c = [vec(tag + k, 2) for k in "xyz"]
    return D(*c), [list(x) for x in c]


def ang(kind, name):
    return vec(name, 2) if kind == "angles" else sym(name)


def at(a, i):
    return a[i] if isinstance(a, np.ndarray) else a


def derivs(rep, p, I, v, ref, base, angles, rule, what):
    """v: resulting vector; ref[k][i]: its component; base[k][i]: original component; angles: name -> value"""
    n = len(ref[0])
    for k, nm in enumerate("xyz"):
        D = I.getattr(v, "d" + nm)
        for key in ["dx", "dy", "dz"] + ["d" + a for a in angles]:
            if not rep.check(key in D, rule, "d%s[%s]" % (nm, key), WHERE % "_rotateAboutZ", "missing entry (%s)" % what, p):
                continue
            d = np.asarray(D[key], dtype=object).reshape(-1)
            for i in range(n):
                x = base["xyz".index(key[1])][i] if key in ("dx", "dy", "dz") else at(angles[key[1:]], i)
                rep.check(lib.val(d[i if len(d) > 1 else 0]) == grad(lift(ref[k][i]), [x])[0], rule,
                          "d%s[%s]" % (nm, key), WHERE % "_rotateAboutZ",
                          "not the derivative of the rotated component (%s)" % what, p)


def eq(rep, p, I, v, ref, rule, name, what):
    got = comps(I, v)
    n = len(ref[0])
    for k in range(3):
        for i in range(n):
            if rep.check(len(got[k]) in (1, n), rule, name, WHERE % name, "wrong number of elements (%s)" % what, p):
                rep.same(got[k][i if len(got[k]) > 1 else 0], ref[k][i], rule, "%s:%s" % (name, "xyz"[k]), WHERE % name, what, p)


def rotate(ref, axis, a):
    n = len(ref[0])
    cols = [turned([ref[k][i] for k in range(3)], axis, at(a, i)) for i in range(n)]
    return [[cols[i][k] for i in range(n)] for k in range(3)]


def neg(a):
    if isinstance(a, np.ndarray):
        o = np.empty(len(a), dtype=object)
        for i in range(len(a)):
            o[i] = -a[i]
        return o
    return -a


def pairs(rep, p, I, kind):
    for (_, _, axis, sg, nm, fwd, bwd) in STEPS:
        v, base = mk(I, kind, "v")
        a = ang(kind, nm)
        s = a if sg > 0 else neg(a)
        f = I.getattr(v, fwd)(a)
        eq(rep, p, I, f, rotate(base, axis, s), "rotation", fwd, "not the documented rotation (%s)" % kind)
        derivs(rep, p, I, f, rotate(base, axis, s), base, {nm: a}, "rotation-derivative", "%s, %s" % (fwd, kind))
        b = I.getattr(v, bwd)(a)
        eq(rep, p, I, b, rotate(base, axis, neg(s)), "rotation", bwd, "not the documented rotation (%s)" % kind)
        derivs(rep, p, I, b, rotate(base, axis, neg(s)), base, {nm: a}, "rotation-derivative", "%s, %s" % (bwd, kind))
        for x, y in ((fwd, bwd), (bwd, fwd)):
            r = I.getattr(I.getattr(v, x)(a), y)(a)
            eq(rep, p, I, r, base, "inverse", y, "%s does not undo %s (%s)" % (y, x, kind))
            derivs(rep, p, I, r, base, base, {nm: a}, "inverse-derivative", "%s after %s, %s" % (y, x, kind))
        eq(rep, p, I, v, base, "operand-unchanged", fwd, "the original vector changed (%s)" % kind)
        # lengths, angles and handedness
        w, wb = mk(I, kind, "w")
        fw = I.getattr(w, fwd)(a)
        g, h = comps(I, f), comps(I, fw)
        for i in range(len(base[0])):
            pick = lambda c: c[i if len(c) > 1 else 0]
            dot = sum((pick(g[k]) * pick(h[k]) for k in range(3)), const(0))
            ref = sum((base[k][i] * wb[k][i] for k in range(3)), const(0))
            rep.same(dot, ref, "isometry", fwd, WHERE % fwd, "lengths and angles not preserved (%s)" % kind, p)
        if kind == "mixed":
            continue
        l = I.getattr(I.getattr(v, "cross")(w), fwd)(a)
        r = I.getattr(f, "cross")(fw)
        eq(rep, p, I, l, comps(I, r), "isometry", fwd, "handedness not preserved (%s)" % kind)
    v, base = mk(I, kind, "v")
    for nm in ("airfoilToProfile", "profileToAirfoil"):
        f = I.getattr(v, nm)()
        eq(rep, p, I, f, [base[1], base[0], base[2]], "rotation", nm, "not the documented swap (%s)" % kind)
        derivs(rep, p, I, f, [base[1], base[0], base[2]], base, {}, "rotation-derivative", "%s, %s" % (nm, kind))
        for m in ("airfoilToProfile", "profileToAirfoil"):
            eq(rep, p, I, I.getattr(f, m)(), base, "inverse", m, "swap is not its own inverse")


def chains(rep, p, I, kind):
    for fwd in (True, False):
        v, base = mk(I, kind, "v")
        ref, A, cur = base, {}, v
        for (_, _, axis, sg, nm, f, b) in (STEPS if fwd else STEPS[::-1]):
            a = A[nm] = ang(kind, nm)
            s = a if sg > 0 else neg(a)
            cur = I.getattr(cur, f if fwd else b)(a)
            ref = rotate(ref, axis, s if fwd else neg(s))
        nm = "chain %s" % ("inertial to airfoil" if fwd else "airfoil to inertial")
        eq(rep, p, I, cur, ref, "chain", nm, "composition of the documented rotations (%s)" % kind)
        derivs(rep, p, I, cur, ref, base, A, "chain-derivative", nm + ", " + kind)


def algebra(rep, p, I, kind):
    v, a = mk(I, kind, "v")
    w, b = mk(I, kind, "w")
    n = len(a[0])
    k = sym("k")
    ew = lambda f: [[f(a[c][i], b[c][i]) for i in range(n)] for c in range(3)]
    es = lambda f: [[f(a[c][i], k) for i in range(n)] for c in range(3)]
    import operator as op
    for nm, f in (("add", op.add), ("sub", op.sub), ("mul", op.mul), ("truediv", op.truediv)):
        sy = {"add": "+", "sub": "-", "mul": "*", "truediv": "/"}[nm]
        run = lambda x, y: I.getattr(x, "__%s__" % nm)(y)
        eq(rep, p, I, run(v, w), ew(f), "algebra", "__%s__" % nm, "v %s w (%s)" % (sy, kind))
        eq(rep, p, I, run(v, k), es(f), "algebra", "__%s__" % nm, "v %s scalar (%s)" % (sy, kind))
        eq(rep, p, I, v, a, "operand-unchanged", "__%s__" % nm, "left operand changed (%s)" % kind)
        eq(rep, p, I, w, b, "operand-unchanged", "__%s__" % nm, "right operand changed (%s)" % kind)
        if nm == "truediv":
            continue
        if kind == "mixed":
            continue
        for other, ref in ((w, ew(f)), (k, es(f))):
            u, _ = mk(I, kind, "v")
            r = I.getattr(u, "__i%s__" % nm)(other)
            eq(rep, p, I, r, ref, "algebra", "__i%s__" % nm, "in-place %s (%s)" % (sy, kind))
            eq(rep, p, I, w, b, "operand-unchanged", "__i%s__" % nm, "right operand changed (%s)" % kind)
    eq(rep, p, I, I.getattr(v, "__neg__")(), [[-x for x in c] for c in a], "algebra", "__neg__", "-v (%s)" % kind)
    crs = lambda p_, q_: [[p_[1][i] * q_[2][i] - p_[2][i] * q_[1][i] for i in range(n)],
                          [p_[2][i] * q_[0][i] - p_[0][i] * q_[2][i] for i in range(n)],
                          [p_[0][i] * q_[1][i] - p_[1][i] * q_[0][i] for i in range(n)]]
    c = crs(a, b)
    if kind != "mixed":
        eq(rep, p, I, I.getattr(v, "cross")(w), c, "algebra", "cross", "v x w (%s)" % kind)
        got = np.asarray(I.getattr(v, "toArray")(), dtype=object)
        if rep.check(got.size == 3 * n, "algebra", "toArray", WHERE % "toArray", "size %s" % (got.shape,), p):
            got = got.reshape(n, 3)
            for i, j in itertools.product(range(n), range(3)):
                rep.same(got[i, j], a[j][i], "algebra", "toArray", WHERE % "toArray", "order x, y, z (%s)" % kind, p)
    names = ("p", "q")
    dd = I.getattr(v, "cross_deriv_array")(w, *names)
    for k_, D in enumerate(dd):
        for nm, src in zip(names, (a, b)):
            for j in range(3):
                key = "d%s%s" % (nm, "xyz"[j])
                if not rep.check(key in D, "cross-derivative", "cross_deriv_array[%s]" % key, WHERE % "cross_deriv_array", "missing", p):
                    continue
                d = np.asarray(D[key], dtype=object).reshape(-1)
                for i in range(n):
                    if kind == "mixed":
                        continue
                    rep.check(lib.val(d[i if len(d) > 1 else 0]) == grad(lift(c[k_][i]), [src[j][i]])[0], "cross-derivative",
                              "cross_deriv_array:%s[%s]" % ("xyz"[k_], key), WHERE % "cross_deriv_array",
                              "not the derivative of the cross product (%s)" % kind, p)
    if kind == "scalar":
        dd = I.getattr(v, "cross_deriv")(w, *names)
        for k_, D in enumerate(dd):
            for nm, src in zip(names, (a, b)):
                d = np.asarray(D[nm], dtype=object).reshape(-1)
                g = grad(lift(c[k_][0]), [src[j][0] for j in range(3)])
                rep.check([lib.val(x) for x in d] == g, "cross-derivative", "cross_deriv:%s[%s]" % ("xyz"[k_], nm),
                          WHERE % "cross_deriv", "not the derivative of the cross product", p)
        arr = vec("arr", 3)
        D = world.cls(I, "csystem", "DirectionVector")
        eq(rep, p, I, I.getattr(D, "fromArray")(arr), [[x] for x in arr], "algebra", "fromArray", "order x, y, z")


def run(rep):
    rep.rule("rotation", "each transformation = the documented rotation (axis and positive sense of docs/csystem.rst)")
    rep.rule("rotation-derivative", "carried derivative = derivative of the rotated component")
    rep.rule("inverse", "backward after forward (and forward after backward) = identity")
    rep.rule("inverse-derivative", "derivatives after forward and backward = derivatives of the identity")
    rep.rule("isometry", "dot products and cross products commute with the transformation")
    rep.rule("chain", "chain of all transformations = composition of the documented rotations")
    rep.rule("chain-derivative", "derivatives carried along the chain, for every angle")
    rep.rule("algebra", "vector algebra component by component")
    rep.rule("cross-derivative", "cross product derivatives = derivatives of its components")
    rep.rule("operand-unchanged", "transformations and operators leave their operands unchanged")
    n0 = rep.paths
    for kind in ("scalar", "array", "angles", "mixed"):
        rep.configs += 1

        def fn():
            return world.fresh()

        def on(p):
            I = p.result
            if isinstance(I, PyRaise):
                raise I
            import core
            core.set_ctx(p.ctx)
            pairs(rep, p, I, kind)
            chains(rep, p, I, kind)
            algebra(rep, p, I, kind if kind != "angles" else "array")
            rep.analysed(I)
            rep.sample("%s operands: %s" % (kind, p.describe()))
        lib.each_path(rep, fn, on)
    rep.floor("operand kinds", rep.paths - n0, 4)
