"""Tangent and adjoint kernels of bem.f90 against automatic differentiation of the plain kernels' value graphs."""
import itertools

import numpy as np

import fortran
import lib
import world
from core import add, const, grad, lift, mul, sym
from lib import units, unit_where, vec
from pyinterp import PyRaise

FLAGS = ("usecd", "tiploss", "hubloss", "wakerotation")
IND_ARGS = "r chord Rhub Rtip phi cl cd B Vx Vy".split()
IND_DIRS = "r chord Rhub Rtip phi cl cd Vx Vy".split()
POS = ("r", "chord", "Rhub", "Rtip", "B", "rho", "mu", "hubHt")


def call(rep, name, args, kw=None):
    u, it = world.bem_units()
    if name not in u:
        raise world.AnchorLost("%s: subroutine %s" % (world.BEM, name))
    rep.analysed(fnames=[world.BEM + ":" + name])
    try:
        return fortran.call_wrapped(it, name, list(args), kw or {})
    except (fortran.ShapeError, fortran.ShapeMismatch) as e:
        raise PyRaise(ValueError("%s: %s" % (name, e)))
    except fortran.OutOfBounds as e:
        raise PyRaise(IndexError("%s: %s" % (name, e)))


def random_dir(names, tag="w"):
    return {k: sym("seed %s %s" % (tag, k)) for k in names}


def seeds_for(dirs, extra=1):
    """unit seeds for every direction plus random symbolic directions"""
    nd = len(dirs)
    S = {}
    W = [random_dir(dirs, "w%d" % e) for e in range(extra)]
    for i, k in enumerate(dirs):
        s = np.empty(nd + extra, dtype=object)
        for j in range(nd):
            s[j] = const(1 if i == j else 0)
        for e in range(extra):
            s[nd + e] = W[e][k]
        S[k] = s
    return S, W


def combine(g, W, dirs):
    t = 0
    from core import fadd, fmul
    for gi, k in zip(g, dirs):
        t = fadd(t, fmul(gi, W[k].v))
    return t


def tangent(rep, p, prim, dv, dirs, wrt, W, outs, kernel, what):
    """prim: values; dv: alternating value/tangent"""
    wh = unit_where(kernel)
    for o, name in enumerate(outs):
        rep.same(prim[o], dv[2 * o], "tangent-value", "%s:%s" % (kernel, name), wh,
                 "value of %s differs from the plain kernel (%s)" % (name, what), p)
        g = grad(lift(prim[o]), wrt) if lift(prim[o]).v is not None else [None] * len(wrt)
        t = dv[2 * o + 1]
        nd = len(dirs)
        if not rep.check(np.shape(t) == (nd + len(W),), "tangent-exact", "%s:d%s" % (kernel, name), wh,
                         "tangent of %s has shape %s" % (name, np.shape(t)), p):
            continue
        for j, k in enumerate(dirs):
            rep.check(lib.val(t[j]) == g[j] and g[j] is not None, "tangent-exact", "%s:d%s/d%s" % (kernel, name, k), wh,
                      "d%s/d%s is not the derivative of the plain kernel (%s)" % (name, k, what), p)
        for e, w in enumerate(W):
            rep.check(lib.val(t[nd + e]) == combine(g, w, dirs), "tangent-linear", "%s:d%s" % (kernel, name), wh,
                      "tangent of %s along a general direction is not the directional derivative (%s)" % (name, what), p)


def induction(rep):
    rep.rule("tangent-value", "value returned by the tangent kernel = value of the plain kernel")
    rep.rule("tangent-exact", "tangent along each unit direction = derivative of the plain kernel's value graph")
    rep.rule("tangent-linear", "tangent along a symbolic direction = gradient . direction")
    n0 = rep.paths
    for fl in itertools.product((1, 0), repeat=4):
        flags = dict(zip(FLAGS, fl))
        rep.configs += 1

        def fn():
            g = {k: sym(k, positive=k in POS) for k in IND_ARGS}
            prim = call(rep, "inductionfactors", [g[k] for k in IND_ARGS], flags)
            S, W = seeds_for(IND_DIRS, 1 if not rep.thorough else 3)
            a = []
            for k in IND_ARGS:
                a.append(g[k])
                if k in S:
                    a.append(S[k])
            dv = call(rep, "inductionfactors_dv", a, flags)
            return prim, dv, [g[k] for k in IND_DIRS], W

        def on(p):
            if isinstance(p.result, PyRaise):
                raise p.result
            prim, dv, wrt, W = p.result
            d = ",".join("%s=%d" % x for x in flags.items())
            tangent(rep, p, prim, dv, IND_DIRS, wrt, W, ("fzero", "a", "ap"), "inductionfactors_dv", d)
            if len(rep.samples) < 4:
                rep.sample("inductionfactors_dv [%s] %s: 3 values, 27 partials compared" % (d, p.describe()))
        lib.each_path(rep, fn, on)
    rep.floor("paths through the induction kernels", rep.paths - n0, 16)


RW_ARGS = "phi a ap Vx Vy pitch chord theta rho mu".split()
RW_DIRS = "phi a ap Vx Vy pitch chord theta".split()


def relwind(rep):
    n0 = rep.paths

    def fn():
        g = {k: sym(k, positive=k in POS) for k in RW_ARGS}
        prim = call(rep, "relativewind", [g[k] for k in RW_ARGS])
        S, W = seeds_for(RW_DIRS, 1 if not rep.thorough else 3)
        a = []
        for k in RW_ARGS:
            a.append(g[k])
            if k in S:
                a.append(S[k])
        dv = call(rep, "relativewind_dv", a)
        return prim, dv, [g[k] for k in RW_DIRS], W

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        prim, dv, wrt, W = p.result
        tangent(rep, p, prim, dv, RW_DIRS, wrt, W, ("alpha", "W", "Re"), "relativewind_dv", "")
        rep.sample("relativewind_dv %s: 3 values, 24 partials compared" % p.describe())
    lib.each_path(rep, fn, on)
    rep.floor("paths through the relative wind kernels", rep.paths - n0, 1)


# ------------------------------------------------------------------ geometry kernels (C02, C03)
WC = "r precurve presweep precone yaw tilt azimuth Uinf Omega hubHt shear".split()
WC_VEC = ("r", "precurve", "presweep")


def geom_syms(n):
    g = {}
    for k in WC:
        g[k] = vec(k, n, positive=(k == "r")) if k in WC_VEC else sym(k, positive=k in POS)
    return g


def vdirs(g, names, n):
    d = []
    for k in names:
        if k in WC_VEC or isinstance(g[k], np.ndarray):
            d += [(k, i) for i in range(n)]
        else:
            d.append((k, None))
    return d


def vseeds(g, names, n, extra=1):
    """seed matrices (directions, n) / vectors (directions,)"""
    d = vdirs(g, names, n)
    W = [{x: sym("seed %d %s" % (e, x)) for x in d} for e in range(extra)]
    S = {}
    for k in names:
        arr = isinstance(g[k], np.ndarray)
        s = np.empty((len(d) + extra, n) if arr else (len(d) + extra,), dtype=object)
        for j in range(len(d) + extra):
            for i in (range(n) if arr else (None,)):
                if j < len(d):
                    v = const(1 if d[j] == (k, i) else 0)
                else:
                    v = W[j - len(d)][(k, i)]
                if arr:
                    s[j, i] = v
                else:
                    s[j] = v
        S[k] = s
    wrt = [g[k] if i is None else g[k][i] for k, i in d]
    return d, S, W, wrt


def vtangent(rep, p, prim, vals, tans, d, W, wrt, outs, kernel, n):
    wh = unit_where(kernel)
    for o, name in enumerate(outs):
        if not rep.check(np.shape(tans[o]) == (len(d) + len(W), n) and np.shape(vals[o]) == (n,), "tangent-exact",
                         "%s:d%s" % (kernel, name), wh, "wrong result shape %s" % (np.shape(tans[o]),), p):
            continue
        for i in range(n):
            rep.same(prim[o][i], vals[o][i], "tangent-value", "%s:%s" % (kernel, name), wh,
                     "value of %s at station %d of %d differs from the plain kernel" % (name, i, n), p)
            x = lift(prim[o][i])
            if x.v is None:
                continue
            g = grad(x, wrt)
            for j, (k, q) in enumerate(d):
                rep.check(lib.val(tans[o][j, i]) == g[j], "tangent-exact", "%s:d%s/d%s" % (kernel, name, k), wh,
                          "d%s[%d]/d%s%s (n=%d) is not the derivative of the plain kernel" % (
                              name, i, k, "" if q is None else "[%d]" % q, n), p)
            for e, w in enumerate(W):
                t = 0
                from core import fadd, fmul
                for j, x in enumerate(d):
                    t = fadd(t, fmul(g[j], w[x].v))
                rep.check(lib.val(tans[o][len(d) + e, i]) == t, "tangent-linear", "%s:d%s" % (kernel, name), wh,
                          "tangent of %s[%d] along a general direction is wrong" % (name, i), p)


def wind(rep, sizes=(3, 4)):
    n0 = rep.paths
    for n in sizes:
        rep.configs += 1

        def fn():
            g = geom_syms(n)
            prim = call(rep, "windcomponents", [g[k] for k in WC])
            d, S, W, wrt = vseeds(g, WC, n)
            a = []
            for k in WC:
                a += [g[k], S[k]]
            dv = call(rep, "windcomponents_dv", a)
            return prim, dv, d, W, wrt

        def on(p):
            if isinstance(p.result, PyRaise):
                raise p.result
            prim, dv, d, W, wrt = p.result
            vtangent(rep, p, prim, dv[0::2], dv[1::2], d, W, wrt, ("Vx", "Vy"), "windcomponents_dv", n)
            rep.sample("windcomponents_dv n=%d: %d directions" % (n, len(d) + len(W)))
        lib.each_path(rep, fn, on)
    rep.floor("wind component runs", rep.paths - n0, len(sizes))


CURV = "r precurve presweep precone".split()
CURV_OUT = ("x_az", "y_az", "z_az", "cone", "s")


def curvature(rep, sizes=(3, 4)):
    u, _ = world.bem_units()
    kernels = [k for k in ("definecurvature_dv", "definecurvature_dv2") if k in u]
    if not kernels:
        raise world.AnchorLost("definecurvature_dv")
    n0 = rep.paths
    for n in sizes:
        for kern in kernels:
            rep.configs += 1
            w = fortran.F2py(u[kern])
            # which of the inputs carry seeds is part of the kernel's own signature
            ins = [x for x in w.required + w.optional]
            seeded = [k for k in CURV if k + "d" in ins]
            order = [x for x in ins if x not in ("n", "nbdirs", "nbdirsmax")]

            def fn():
                g = geom_syms(n)
                prim = call(rep, "definecurvature", [g[k] for k in CURV])
                d, S, W, wrt = vseeds(g, seeded, n)
                kw = {}
                for x in order:
                    kw[x] = g[x] if x in g else S[x[:-1]]
                dv = call(rep, kern, [], kw)
                return prim, dv, d, W, wrt

            def on(p):
                if isinstance(p.result, PyRaise):
                    raise p.result
                prim, dv, d, W, wrt = p.result
                outs = w.outs
                base = fortran.F2py(u["definecurvature"]).outs
                vals, tans, names, pr = [], [], [], []
                for i, o in enumerate(base):
                    if o in outs and o + "d" not in outs:
                        # handed back without a tangent of its own: still the plain kernel's value
                        rep.same(dv[outs.index(o)], prim[i], "tangent-value", kern, unit_where(kern),
                                 "%s returned by the tangent kernel (n=%d)" % (o, n), p)
                    if o + "d" in outs:
                        names.append(o)
                        pr.append(prim[i])
                        vals.append(dv[outs.index(o)] if o in outs else prim[i])
                        tans.append(dv[outs.index(o + "d")])
                rep.check(len(names) > 0, "tangent-exact", kern, unit_where(kern), "kernel returns no tangents", p)
                vtangent(rep, p, pr, vals, tans, d, W, wrt, names, kern, n)
                rep.sample("%s n=%d: outputs %s, %d directions" % (kern, n, ",".join(names), len(d) + len(W)))
            lib.each_path(rep, fn, on)
    rep.floor("curvature runs", rep.paths - n0, len(sizes))


TT = "Np Tp r precurve presweep precone Rhub Rtip precurvetip presweeptip".split()
TT_OUT = "T Y Z Q Mb".split()


def adjoint(rep, sizes=(2, 3, 4)):
    rep.rule("adjoint-exact", "adjoint of each input = gradient of the weighted sum of outputs over the plain kernel's value graph")
    n0 = rep.paths
    for n in sizes:
        rep.configs += 1

        def fn():
            g = {k: (vec(k, n, positive=(k == "r")) if k in ("Np", "Tp") + WC_VEC else sym(k, positive=k in POS)) for k in TT}
            prim = call(rep, "thrusttorque", [g[k] for k in TT])
            nb = 6 if not rep.thorough else 8
            W = np.empty((5, nb), dtype=object)
            for o in range(5):
                for b in range(nb):
                    W[o, b] = const(1 if o == b else 0) if b < 5 else sym("weight %s %d" % (TT_OUT[o], b))
            res = call(rep, "thrusttorque_bv", [g[k] for k in TT] + [W[o] for o in range(5)])
            return g, prim, W, res

        def on(p):
            if isinstance(p.result, PyRaise):
                raise p.result
            g, prim, W, res = p.result
            wh = unit_where("thrusttorque_bv")
            names = [k for k in TT]
            for b in range(W.shape[1]):
                obj = const(0)
                for o in range(5):
                    obj = add(obj, mul(W[o, b], lift(prim[o])))
                for k, ad in zip(names, res):
                    x = g[k]
                    if isinstance(x, np.ndarray):
                        gr = grad(obj, list(x))
                        got = [lib.val(ad[b, i]) for i in range(n)] if np.shape(ad)[1:] == (n,) else None
                    else:
                        gr = grad(obj, [x])
                        got = [lib.val(ad[b])] if np.ndim(ad) == 1 else None
                    rep.check(got is not None and len(got) == len(gr), "adjoint-exact", "thrusttorque_bv:%sb" % k, wh, "wrong shape", p)
                    for i, (a_, b_) in enumerate(zip(got or [], gr)):
                        rep.check(a_ == b_, "adjoint-exact", "thrusttorque_bv:%sb" % k, wh,
                                  "adjoint of %s[%d] for weight %s is not the gradient (n=%d)" % (
                                      k, i, TT_OUT[b] if b < 5 else "general", n), p)
            rep.sample("thrusttorque_bv n=%d: %d weights x %d inputs" % (n, W.shape[1], len(names)))
        lib.each_path(rep, fn, on)
    rep.floor("adjoint runs", rep.paths - n0, len(sizes))
