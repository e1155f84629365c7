import numpy as np

import core
import lib
import npmodel
import world
from checks.c14 import H, table
from checks.c27 import HEAD, PARAM
from checks.geom import rad
from checks.omcomp import concrete
from core import const, grad, lift, sym
from fractions import Fraction as Fr
from pyinterp import PyRaise

W = "ccblade/ccblade.py (CCAirfoil)"
SMOOTH = dict(cl=Fr(1, 10), cd=Fr(1, 1000), cm=Fr(1, 10000))
GRID = [-180, -90, -20, -10, 0, 10, 20, 90, 180]
core.SAMPLES.update({"alpha": 0.1, "alpha'": 0.2, "Re": 1e6, "Re'": 2e6})


def reference(al, Re, T, kind):
    t = T[kind]
    if len(Re) < 2:
        y = concrete([10, 10 ** 15])
        t = t.reshape(len(al), 1)
        t = np.concatenate((t, t), axis=1)
    else:
        y = concrete(Re)
    x = npmodel.oarr([rad(const(a)) for a in al])
    return npmodel.RBS(x, y, t, kx=min(len(al) - 1, 3), ky=min(len(y) - 1, 3), s=const(SMOOTH[kind]))


def symbolic(n):
    """an angle grid in which only the data are symbolic"""
    if n > 9:
        return [Fr(-180) + Fr(360 * i, n - 1) for i in range(n)]
    return {2: [-180, 180], 3: [-180, 0, 180], 4: [-180, -10, 15, 180], 9: GRID}[n]


# Reynolds numbers of tables measured close together, far apart, at low speed, unevenly
OTHER = [[10 ** 6, 1050000], [30, 10 ** 15], [50000, 60000, 70000, 9 * 10 ** 6], [Fr(5, 2) * 10 ** 6, 3 * 10 ** 6], [10 ** 6, 10 ** 6 + 1, 2 * 10 ** 6]]
# tables of whole numbers, as a hand-written test airfoil has (the other tables stay symbolic)
WHOLE = dict(cl=lambda i, j: 2 - (i + j) % 5, cd=lambda i, j: 1 + (2 * i + j) % 3, cm=lambda i, j: (i * j + 1) % 4 - 1)


def case(rep, na, nre, cm, flat=False, named=False, Re=None, whole=""):
    rep.configs += 1
    what = "%d angles, %s Reynolds numbers%s%s%s" % (na, "/".join(str(float(x)) for x in Re) if Re else nre, ", moments" if cm else "",
                                                     ", one-dimensional tables" if flat else "",
                                                     ", whole numbers in " + whole if whole else "")
    al = symbolic(na)
    Re = Re or [10 ** (5 + k) for k in range(nre)]
    a, r = sym("alpha"), sym("Re", positive=True)
    vr, va = lib.vec("Re", 2, positive=True), lib.vec("alpha", 2)

    def fn():
        I = world.fresh()
        npmodel.HOOKS["rbs_clamp"] = True
        T = {k: (lib.vec(k, na) if flat else table(k, na, max(nre, 1))) for k in ("cl", "cd", "cm")}
        G = dict(T)
        for q in whole.split():
            w = np.array([[WHOLE[q](i, j) for j in range(nre)] for i in range(na)]).astype(int)
            G[q], T[q] = w, npmodel.oarr([[const(int(x)) for x in row] for row in w])
        C = world.cls(I, "ccblade", "CCAirfoil")
        k = dict(cm=G["cm"]) if cm else {}
        if named:
            k.update(AFName="X", x=concrete([1, 0, 1]), y=concrete([0, 0, 0]))
        o = C(concrete(al), concrete(Re) if nre else [], G["cl"], G["cd"], **k)
        R = {}
        for n in ("evaluate", "derivatives"):
            R[n] = I.getattr(o, n)
        out = dict(plain=R["evaluate"](a, r), cm=R["evaluate"](a, r, return_cm=True), no=R["evaluate"](a, r, return_cm=False),
                   vec=R["evaluate"](va, vr), d=R["derivatives"](a, r))
        ref = {q: reference(al, Re, T, q) for q in T}
        return I, out, ref

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, out, ref = p.result
        rep.analysed(I)
        E = {k: lift(ref[k].ev(a, r)) for k in ref}
        V = {k: ref[k].ev(va, vr) for k in ref}
        for nm, want in (("plain", 2), ("no", 2), ("cm", 3 if cm else 2)):
            x = out[nm]
            if rep.check(len(x) == want, "values", "evaluate", W, "%d values returned, %d documented (%s)" % (len(x), want, what), p):
                for k, v in zip(("cl", "cd", "cm"), x):
                    rep.same(v[()] if isinstance(v, np.ndarray) else v, E[k], "values", k, W,
                             "%s is not the spline of its own table at (alpha, Re) (%s)" % (k, what), p)
        for k, v in zip(("cl", "cd"), out["vec"]):
            d = lib.differ(V[k], np.asarray(v, dtype=object))
            rep.check(d is None, "values", k, W, "%s at an array of angles differs at %s (%s)" % (k, d, what), p)
        names = ("dcl/dalpha", "dcl/dRe", "dcd/dalpha", "dcd/dRe")
        if rep.check(len(out["d"]) == 4, "derivatives", "derivatives", W, "%d values (%s)" % (len(out["d"]), what), p):
            for i, (nm, v) in enumerate(zip(names, out["d"])):
                val = lift(out["plain"][i // 2][()] if isinstance(out["plain"][i // 2], np.ndarray) else out["plain"][i // 2])
                g = grad(val, [(a, r)[i % 2]])[0]
                v = lift(v[()] if isinstance(v, np.ndarray) else v)
                rep.check(lib.val(v) == g, "derivatives", nm, W, "%s is not the derivative of the value returned by evaluate (%s)" % (nm, what), p)
                if nre < 2 and i % 2:
                    rep.check(v.q == 0, "single-reynolds", nm, W, "derivative w.r.t. Re of Reynolds-independent data (%s)" % what, p)
        if nre < 2:
            for i, k in enumerate(("cl", "cd")):
                g = grad(lift(out["plain"][i][()] if isinstance(out["plain"][i], np.ndarray) else out["plain"][i]), [r])[0]
                rep.check(g == 0, "single-reynolds", k, W, "%s depends on the Reynolds number (%s)" % (k, what), p)
        rep.sample(what)
    lib.each_path(rep, fn, on, explore="flip", uniform=False)


def fromfile(rep, nt):
    rep.configs += 1
    rows = [[-180, 0, 25, 0], [-10, -50, 12, 1], [0, 20, 10, -2], [12, 110, 15, -3], [180, 0, 25, 0]]

    def fn():
        I = world.fresh()
        s = HEAD + "%d tables\n" % nt
        for t in range(nt):
            s += "%d.5 Re\n" % (t + 1) + PARAM
            for x in rows:
                s += "%d %.3f %.3f %.3f\n" % (x[0], (x[1] + t) / 100, (x[2] + t) / 1000, (x[3] - t) / 100)
            s += "EOT\n"
        npmodel.HOOKS["fs"].files["a.dat"] = s
        o = I.getattr(world.cls(I, "ccblade", "CCAirfoil"), "initFromAerodynFile")("a.dat")
        a, r = sym("alpha"), sym("Re", positive=True)
        T = {}
        for j, (k, d) in enumerate((("cl", 100), ("cd", 1000), ("cm", 100))):
            T[k] = npmodel.oarr([[const(Fr(x[j + 1] + (t if j < 2 else -t), d)) for t in range(nt)] for x in rows])
        Re = [Fr(2 * t + 3, 2) * 10 ** 6 for t in range(nt)]
        ref = {k: reference([x[0] for x in rows], Re, T, k) for k in T}
        return I, I.getattr(o, "evaluate")(a, r, return_cm=True), [ref[k].ev(a, r) for k in ("cl", "cd", "cm")]

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, x, E = p.result
        rep.analysed(I)
        if rep.check(len(x) == 3, "from-file", "initFromAerodynFile", W, "no moment coefficient from a file with moments", p):
            for k, a, b in zip(("cl", "cd", "cm"), x, E):
                d = lib.differ(lift(a[()] if isinstance(a, np.ndarray) else a), lift(b[()] if isinstance(b, np.ndarray) else b))
                rep.check(d is None, "from-file", k, W, "%s is not the spline of the file's table (%d tables)" % (k, nt), p)
    lib.each_path(rep, fn, on, explore="flip")


def run(rep):
    rep.rule("values", "lift, drag, moment = spline of the own table over angles in radians and Reynolds numbers")
    rep.rule("derivatives", "reported derivatives = derivatives of the reported values")
    rep.rule("single-reynolds", "data at one Reynolds number do not depend on it")
    rep.rule("from-file", "an airfoil read from a file is built from that file's tables")
    n0 = rep.paths
    for na in (2, 3, 4, 9):
        for nre in (1, 2, 3, 4, 5):
            for cm in (False, True):
                case(rep, na, nre, cm)
    for cm in (False, True):
        case(rep, 4, 1, cm, True)
        case(rep, 4, 0, cm)
        case(rep, 4, 2, cm, named=True)
    for na in (37, 201, 401):
        for nre in (1, 2):
            case(rep, na, nre, nre == 2)
    for R in OTHER:
        case(rep, 4, len(R), True, Re=R)
    case(rep, 4, 1, True, Re=[Fr(7, 2) * 10 ** 6])
    for w in ("cl", "cd", "cm", "cl cd", "cl cm", "cd cm"):
        for nre in (1, 2):
            case(rep, 4, nre, True, whole=w)
    for nt in (1, 2, 4):
        fromfile(rep, nt)
    rep.floor("airfoils", rep.paths - n0, 40)
