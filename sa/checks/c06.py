import numpy as np

import lib
from checks import kernels, omcomp, pipeline
from checks.omcomp import Comp, WHERE
from core import const, grad, lift, sym
from pyinterp import PyRaise

EXCLUDED = ("rho", "mu")


def compare(rep, p, C, rule, what, skip=()):
    ins = [k for k in C.ins.v if not k.startswith("airfoils") and k not in EXCLUDED and k not in skip]
    wrt, pos = [], []
    for k in ins:
        a = C.ins.v[k].reshape(-1)
        for j in range(len(a)):
            if a[j].f is None:
                wrt.append(a[j])
                pos.append((k, j))
    for o in C.outs.v:
        flat = C.outs.v[o].reshape(-1)
        D = {k: C.J.dense((o, k)) for k in ins}
        for i, out in enumerate(flat):
            out = lift(out)
            if not rep.check(out.v is not None, rule, o, WHERE % C.name, "output %s[%d] undefined" % (o, i), p):
                continue
            g = grad(out, wrt)
            for (k, j), gi in zip(pos, g):
                rep.check(lib.val(D[k][i, j]) == gi, rule, "%s.J[%s,%s]" % (C.name, o, k),
                          WHERE % (C.name + ".compute_partials"),
                          "partial of %s[%d] w.r.t. %s[%d] is not the derivative of the computed output (%s)" % (o, i, k, j, what), p)


def geometry(rep, n):
    def fn():
        C = Comp("CCBladeGeometry", dict(n_span=n))
        C.compute()
        C.partials()
        C.partials()
        return C

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        rep.analysed(p.result.I)
        compare(rep, p, p.result, "geometry-partials", "n_span=%d" % n)
    lib.each_path(rep, fn, on)


def rotor(rep, name, n, n_Re, flags, rule, zero=()):
    what = "n_span=%d, n_Re=%d, %s%s" % (n, n_Re, ",".join(k for k, v in flags.items() if v), ", zero %s" % " ".join(zero) if zero else "")

    def fn():
        mo, oo = omcomp.options(n_span=n, n_Re=n_Re)
        fixed = dict(airfoils_aoa=omcomp.aoa_grid(4))
        fixed["airfoils_Re"] = omcomp.concrete(omcomp.RE2[:n_Re] if n_Re <= 2 else [10 ** (5 + i) for i in range(n_Re)])
        fixed.update((k, omcomp.ZERO) for k in zero)
        C = Comp(name, dict(modeling_options=mo), fixed, dict(flags, nBlades=3))
        C.compute()
        C.partials()
        C.partials()
        return C

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        rep.analysed(p.result.I)
        # a curve that ends exactly at the tip is moved onto the last station by the constructor (excluded, see DESIGN)
        compare(rep, p, p.result, rule, what, skip=("precurve", "presweep") if "precurve" in zero and "precurveTip" in zero else ())
        rep.sample("%s %s: %s" % (name, what, p.describe()))
    lib.each_path(rep, fn, on, explore="typical" if zero and not rep.thorough else "all" if rep.thorough else "flip")


# inputs that vanish in ordinary use: no misalignment, a straight blade, no shear, blade up, fine pitch
ZEROS = (("tilt", "yaw"), ("precone", "shearExp"), ("pitch_load", "azimuth_load"), ("precurve", "presweep"), ("precurveTip", "presweepTip"),
         ("tilt", "yaw", "precone", "shearExp", "azimuth_load", "pitch_load", "precurve", "precurveTip", "presweep", "presweepTip"))


GROUPS = (("r", "chord", "theta"), ("precurve", "presweep", "precurveTip", "presweepTip", "precurve_in", "presweep_in"), ("Rhub", "Rtip", "hub_height"),
          ("precone", "tilt", "yaw", "shearExp"), ("rho", "mu"), ("airfoils_cl", "airfoils_cd", "airfoils_cm"))


def groups(C, single):
    """inputs changed together: operating point one by one, the rest by kind"""
    ks = [k for k in list(C.ins.v) + list(C.din.v) if k not in ("airfoils_aoa", "airfoils_Re")]
    if single:
        return [(k,) for k in ks]
    G = [tuple(k for k in g if k in ks) for g in GROUPS] + [tuple(k for k in ks if k in C.din.v)]
    G = [g for g in G if g]
    return G + [(k,) for k in ks if not any(k in g for g in G)]


def history(rep, name, n_Re=1):
    """the same component used for another point before: one input (or discrete input) at a time was different"""
    rep.configs += 1

    def make():
        if name == "CCBladeGeometry":
            return Comp(name, dict(n_span=3))
        mo, oo = omcomp.options(n_span=2, n_Re=n_Re)
        fixed = dict(airfoils_aoa=omcomp.aoa_grid(4), airfoils_Re=omcomp.concrete(omcomp.RE2[:n_Re]))
        if name == "CCBladeEvaluate":
            # one azimuth is enough
            fixed.update(tilt=const(0), yaw=const(0), shearExp=const(0))
        return Comp(name, dict(modeling_options=mo), fixed, dict(pipeline.FLAGSETS[0], nBlades=3))

    def used(C):
        C.compute()
        C.partials()
        return {(o, k): C.J.dense((o, k)).copy() for o in C.outs.v for k in C.ins.v if not k.startswith("airfoils") and k not in EXCLUDED}

    def fn():
        out = []
        ref = used(make())
        C = make()
        for ks in groups(C, rep.thorough):
            kept = {}
            for k in ks:
                if k in C.din.v:
                    kept[k] = keep = C.din.v[k]
                    C.din.v[k] = not keep if isinstance(keep, bool) else keep + 2
                else:
                    kept[k] = C.ins.v[k].copy()
                    a = C.ins.v[k].reshape(-1)
                    for j in range(a.size):
                        a[j] = sym("%s'%s" % (k, "" if a.size == 1 else "[%d]" % j), positive=k in omcomp.POS)
            used(C)
            for k, v in kept.items():
                if k in C.din.v:
                    C.din.v[k] = v
                else:
                    C.ins.v[k][...] = v
            out.append((", ".join(ks), used(C)))
        return C, ref, out

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        C, ref, out = p.result
        rep.analysed(C.I)
        for k, got in out:
            for o in ref:
                bad = [i for i in np.ndindex(ref[o].shape) if lib.val(ref[o][i]) != lib.val(got[o][i])]
                rep.check(not bad, "current-point", "%s.J[%s,%s]" % ((name,) + o), WHERE % (name + ".compute_partials"),
                          "partials of %s w.r.t. %s at a point differ when the component was used before with another %s" % (o[0], o[1], k), p)
        rep.sample("%s reused after each of %d inputs differed" % (name, len(out)))
    lib.each_path(rep, fn, on, explore="typical")


def run(rep):
    rep.rule("geometry-partials", "CCBladeGeometry: every sub-Jacobian entry = derivative of the computed output")
    rep.rule("loads-partials", "CCBladeLoads: every sub-Jacobian entry (declared or not) = derivative of the computed output")
    rep.rule("evaluate-partials", "CCBladeEvaluate: every sub-Jacobian entry = derivative of the computed output")
    rep.notes.append("rho, mu and the airfoil tables are documented as not differentiated and are excluded")
    rep.rule("current-point", "partials belong to the point computed last, whatever the component was used for before")
    n0 = rep.paths
    F = pipeline.FLAGSETS
    jobs = [lambda r, n=n: geometry(r, n) for n in (2, 4)]
    jobs += [lambda r, a=a: history(r, *a) for a in (("CCBladeGeometry",), ("CCBladeLoads",), ("CCBladeEvaluate",))]
    sets = [(3, 1, F[1]), (3, 2, F[2])]
    if rep.thorough:
        sets += [(4, 2, F[0]), (4, 1, F[3])]
        jobs += [lambda r, a=a: history(r, *a) for a in (("CCBladeLoads", 2), ("CCBladeEvaluate", 2))]

    def go(r, name, n, nre, fl, rule, zero=()):
        r.configs += 1
        rotor(r, name, n, nre, fl, rule, zero)
    for z in ZEROS:
        jobs.append(lambda r, z=z: go(r, "CCBladeLoads", 3, 1, F[1], "loads-partials", z))
        jobs.append(lambda r, z=tuple(k for k in z if k != "azimuth_load"): go(r, "CCBladeEvaluate", 3, 1, F[1], "evaluate-partials", z))
    for n, nre, fl in sets:
        jobs.append(lambda r, a=("CCBladeLoads", n, nre, fl, "loads-partials"): go(r, *a))
    for n, nre, fl in sets[:1] if not rep.thorough else sets[:2]:
        jobs.append(lambda r, a=("CCBladeEvaluate", n, nre, fl, "evaluate-partials"): go(r, *a))
    jobs += [lambda r: kernels.adjoint(r, (3,)), kernels.induction, kernels.relwind, lambda r: kernels.wind(r, (3,))]
    lib.parallel(rep, jobs)
    rep.floor("component paths", rep.paths - n0, 3)
