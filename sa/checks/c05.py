import functools

import numpy as np

import lib
from checks import kernels, pipeline
from checks.pipeline import EVAL_WHERE, Rotor
from core import const, grad, lift, sym
from lib import vec
from pyinterp import PyRaise

SCAL = dict(dprecone="precone", dtilt="tilt", dhubHt="hubHt", dRhub="Rhub", dRtip="Rtip", dprecurveTip="precurveTip",
            dpresweepTip="presweepTip", dyaw="yaw", dshear="shearExp")
OP = dict(dUinf="Uinf", dOmega="Omega", dpitch="pitch")
VECS = dict(dr="r", dchord="chord", dtheta="theta", dprecurve="precurve", dpresweep="presweep")
OUT = "P T Y Z Q My Mz Mb".split()


def jac(rep, p, R, ops, outputs, derivs, names, rule, what, skip=()):
    npts, n = len(ops["Uinf"]), R.n
    for o in names:
        dn = "d" + o
        if not rep.check(dn in derivs and o in outputs, rule, dn, EVAL_WHERE, "%s missing (%s)" % (dn, what), p):
            continue
        D = derivs[dn]
        wrt, pos = [], []
        for tab, kind in ((SCAL, 0), (OP, 1), (VECS, 2)):
            for key, nm in tab.items():
                if key in skip:
                    continue
                xs = [R.s[nm]] if kind == 0 else list(ops[nm] if kind == 1 else R.v[nm])
                xs = [x for x in xs]
                if any(x.f is not None for x in xs):
                    continue
                shp = (npts, len(xs))
                if not rep.check(key in D, rule, "%s[%s]" % (dn, key), EVAL_WHERE, "missing entry (%s)" % what, p):
                    continue
                if not rep.check(np.shape(D[key]) == shp, rule, "%s[%s]" % (dn, key), EVAL_WHERE,
                                 "shape %s, documented %s (%s)" % (np.shape(D[key]), shp, what), p):
                    continue
                for j, x in enumerate(xs):
                    wrt.append(x)
                    pos.append((key, j))
        for i in range(npts):
            out = lift(outputs[o][i])
            if not rep.check(out.v is not None, rule, o, EVAL_WHERE, "%s[%d] undefined (%s)" % (o, i, what), p):
                continue
            uniq = list({id(x): x for x in wrt}.values())
            by = dict(zip((id(x) for x in uniq), grad(out, uniq)))
            g = [by[id(x)] for x in wrt]
            for (key, j), gi in zip(pos, g):
                if key in OP and j != i and len(ops[OP[key]]) > i and ops[OP[key]][j] is ops[OP[key]][i]:
                    gi = 0  # another point's setting that happens to be equal
                rep.check(lib.val(D[key][i, j]) == gi, rule, "%s[%s]" % (dn, key), EVAL_WHERE,
                          "d%s[%d]/d%s[%d] is not the total derivative (n=%d, %s)" % (o, i, key[1:], j, n, what), p)


def points(npts, consts=None, zeros=()):
    ops = {}
    for k in ("Uinf", "Omega", "pitch"):
        ops[k] = vec(k, npts)
        if k in zeros:
            for i in range(npts):
                ops[k][i] = sym("%s[%d]" % (k, i), zero=True)
        if consts and k in consts:
            c = consts[k]
            for i in range(npts):
                ops[k][i] = ops[k][c[i]] if isinstance(c, tuple) else c
    return ops


def run(rep):
    rep.rule("total-derivative", "dimensional Jacobian entry = derivative of the output's own value graph")
    rep.rule("coefficient-derivative", "same for the nondimensional outputs")
    rep.rule("one-sector", "same for an axisymmetric rotor (tilt, yaw, shear all zero, one sector)")
    rep.rule("parked", "same for a parked rotor")
    z = const(0)
    ax = dict(tilt=z, yaw=z, shearExp=z)
    cfg = [("tilted", {}, {}, 4, 2, 3, ("total-derivative", "coefficient-derivative"), ()),
           ("one sector", ax, {}, 4, 2, 3, ("one-sector", "one-sector"), ("dtilt", "dyaw", "dshear")),
           ("parked", {}, {"Omega": z}, 4, 1, 3, ("parked", "parked"), ("dOmega",))]
    if rep.thorough:
        cfg += [("tilted, 5 sectors", {}, {}, 5, 3, 4, ("total-derivative", "coefficient-derivative"), ()),
                ("tilted, n=5", {}, {}, 4, 1, 5, ("total-derivative", "coefficient-derivative"), ())]
    for zs in pipeline.ZEROS:
        cfg.append(("zero " + "/".join(zs), {}, {}, 4, 1, 3, ("total-derivative", "coefficient-derivative"), (), zs))
    for h in pipeline.HOOKS:
        cfg.append((h[0], {}, {}, 4, 1, 3, ("total-derivative", "coefficient-derivative"), (), (), h))
    cfg.append(("seven stations", ax, {}, 4, 1, 7, ("one-sector", "one-sector"), ("dtilt", "dyaw", "dshear")))
    cfg.append(("seven stations", {}, {}, 4, 1, 7, ("total-derivative", "coefficient-derivative"), ()))
    # operating points that share a wind speed, a rotor speed or a pitch angle
    cfg.append(("points that share settings", ax, {"Uinf": (0, 1, 0, 1), "Omega": (0, 0, 1, 1), "pitch": (0, 1, 1, 1)}, 4, 4, 2,
                ("one-sector", "one-sector"), ("dtilt", "dyaw", "dshear")))
    for f in pipeline.FLAGSETS[:1] + pipeline.FLAGSETS[2:]:
        cfg.append((",".join(k for k in f if f[k]), ax, {}, 4, 1, 3, ("one-sector", "one-sector"), ("dtilt", "dyaw", "dshear"), (), None, f))
    n0 = rep.paths
    jobs = [functools.partial(case, c=c) for c in cfg]
    jobs += [lambda r: kernels.adjoint(r, (3,)), kernels.induction, kernels.relwind, lambda r: kernels.wind(r, (3,))]
    lib.parallel(rep, jobs)
    rep.floor("evaluation paths", rep.paths - n0, len(cfg))


def case(rep, c):
    what, cs, ocs, nsec, npts, n, rules, skip = c[:8]
    zeros = c[8] if len(c) > 8 else ()
    hook = c[9][1] if len(c) > 9 and c[9] else pipeline.sign_hook
    flags = c[10] if len(c) > 10 else pipeline.FLAGSETS[1]
    rep.configs += 1

    def fn():
        R = Rotor(n, flags, True, cs, nSector=nsec, zeros=zeros, hook=hook)
        ops = points(npts, ocs, zeros)
        return R, ops, R.evaluate(ops["Uinf"], ops["Omega"], ops["pitch"], coefficients=True)

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, ops, (outputs, derivs) = p.result
        rep.analysed(R.I)
        jac(rep, p, R, ops, outputs, derivs, OUT, rules[0], what, skip)
        jac(rep, p, R, ops, outputs, derivs, ["C" + o for o in OUT], rules[1], what, skip)
        rep.sample("%s: n=%d, %d points, %d sectors: %s" % (what, n, npts, nsec, p.describe()))
    lib.each_path(rep, fn, on, explore="typical" if n > 5 else "all" if rep.thorough and n < 4 and not zeros else "flip")
