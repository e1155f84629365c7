import numpy as np

import core
import lib
import npmodel
import world
from checks import omcomp, pipeline, refrotor
from checks.geom import deg, rad
from checks.omcomp import Comp, WHERE
from core import PI, const, cos, lift, sin, sym
from pyinterp import PyRaise

SHARED = dict(precone="precone", tilt="tilt", yaw="yaw", shearExp="shearExp", hubHt="hub_height", rho="rho", mu="mu",
              precurveTip="precurveTip", presweepTip="presweepTip", precurve="precurve", presweep="presweep")


def unset(C):
    """every output starts as a value of its own, so that an output left alone is recognised"""
    U = {}
    for k, a in C.outs.v.items():
        for i in np.ndindex(a.shape):
            a[i] = sym("unset %s%s" % (k, list(i)))
        U[k] = a.copy()
    return U


def solver(C, derivatives=False, theta="theta", tab=0):
    """a rotor built from the component's inputs by meaning, not by position"""
    v, d = omcomp.meant(C), C.din.v
    x = lambda k: lift(v[k].reshape(-1)[0])
    AF = world.cls(C.I, "ccblade", "CCAirfoil")
    n = len(v["r"])
    af = [AF(v["airfoils_aoa"].copy(), v["airfoils_Re"].copy(), cl=v["airfoils_cl"][i, :, :, tab].copy(),
             cd=v["airfoils_cd"][i, :, :, tab].copy(), cm=v["airfoils_cm"][i, :, :, tab].copy()) for i in range(n)]
    kw = {}
    for k, nm in SHARED.items():
        if nm in v:
            kw[k] = v[nm].copy() if k in ("precurve", "presweep") else x(nm)
    kw.update(B=d["nBlades"], nSector=d["nSector"], derivatives=derivatives,
              **{k: d[k] for k in ("tiploss", "hubloss", "wakerotation", "usecd")})
    th = v[theta].copy() if isinstance(theta, str) else theta
    B = world.cls(C.I, "ccblade", "CCBlade")
    R = B(r=v["r"].copy(), chord=v["chord"].copy(), theta=th, af=af, Rhub=x("Rhub"), Rtip=x("Rtip"), **kw)
    return R, af


def flat(a):
    return [lift(z) for z in np.asarray(npmodel.oarr(a), dtype=object).reshape(-1)]


def judge(rep, p, C, U, want, rule, what):
    w = WHERE % (C.name + ".compute")
    for k in C.outs.v:
        got = C.outs.v[k].reshape(-1)
        first = U[k].reshape(-1)
        left = [i for i in range(len(got)) if lib.eqv(got[i], first[i])]
        if not rep.check(not left, "all-outputs-set", "%s.%s" % (C.name, k), w,
                         "output %s is not set by a successful run (%s)" % (k, what), p):
            continue
        if not rep.check(k in want, rule, "%s.%s" % (C.name, k), w, "output %s has no documented meaning here" % k, p):
            continue
        e = omcomp.declared(C, k, flat(want[k]))
        if len(e) == 1 and len(got) > 1:
            e = e * len(got)
        if not rep.check(len(e) == len(got), rule, "%s.%s" % (C.name, k), w, "size of %s (%s)" % (k, what), p):
            continue
        for i in range(len(got)):
            rep.same(got[i], e[i], rule, "%s.%s" % (C.name, k), w,
                     "%s[%d] is not the solver's answer for the component's inputs (%s)" % (k, i, what), p)


def geometry(rep, n):
    def fn():
        C = Comp("CCBladeGeometry", dict(n_span=n))
        U = unset(C)
        C.compute()
        v = omcomp.meant(C)
        R, pc, t = v["Rtip"][0], rad(v["precone"][0]), v["precurve_in"][-1]
        rr = R * cos(pc) + t * sin(pc)
        return C, U, dict(R=[rr], diameter=[2 * rr], precurveTip=[t], presweepTip=[v["presweep_in"][-1]])

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        C, U, want = p.result
        rep.analysed(C.I)
        judge(rep, p, C, U, want, "geometry", "n_span=%d" % n)
    lib.each_path(rep, fn, on)


def fixed_polar(n_Re, n_aoa=4):
    return dict(airfoils_aoa=omcomp.aoa_grid(n_aoa),
                airfoils_Re=omcomp.concrete([10 ** (5 + 2 * i) for i in range(n_Re)]))


def loads(rep, n, n_Re, n_tab, flags, nsec, B, zero=()):
    what = "n_span=%d, n_Re=%d, n_tab=%d, nSector=%d, B=%d, %s%s" % (n, n_Re, n_tab, nsec, B, ",".join(k for k, f in flags.items() if f),
                                                                     ", zero %s" % " ".join(zero) if zero else "")

    def fn():
        mo, oo = omcomp.options(n_span=n, n_Re=n_Re, n_tab=n_tab)
        C = Comp("CCBladeLoads", dict(modeling_options=mo), dict(fixed_polar(n_Re), **{k: omcomp.ZERO for k in zero}),
                 dict(flags, nBlades=B, nSector=nsec))
        U = unset(C)
        C.compute()
        R, af = solver(C)
        v = omcomp.meant(C)
        L, _ = C.I.getattr(R, "distributedAeroLoads")(*[lift(v[k][0]) for k in ("V_load", "Omega_load", "pitch_load", "azimuth_load")])
        return C, U, dict(loads_r=v["r"], loads_Px=L["Np"], loads_Py=[-lift(t) for t in L["Tp"]], loads_Pz=[const(0)] * n)

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        C, U, want = p.result
        rep.analysed(C.I)
        judge(rep, p, C, U, want, "loads", what)
        rep.sample("CCBladeLoads %s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore="flip")


def evaluate(rep, n, n_Re, n_tab, flags, nsec, B, fixed=None):
    what = "n_span=%d, n_Re=%d, n_tab=%d, nSector=%d, B=%d, %s" % (n, n_Re, n_tab, nsec, B, ",".join(k for k, f in flags.items() if f))

    def fn():
        mo, oo = omcomp.options(n_span=n, n_Re=n_Re, n_tab=n_tab)
        C = Comp("CCBladeEvaluate", dict(modeling_options=mo), dict(fixed_polar(n_Re), **(fixed or {})),
                 dict(flags, nBlades=B, nSector=nsec))
        U = unset(C)
        C.compute()
        R, af = solver(C)
        v = omcomp.meant(C)
        o, _ = C.I.getattr(R, "evaluate")(*[npmodel.oarr([lift(v[k][0])]) for k in ("V_load", "Omega_load", "pitch_load")], coefficients=True)
        g = lambda *ks: [lift(o[k][0]) for k in ks]
        return C, U, dict(P=g("P"), Mb=g("Mb"), CP=g("CP"), CMb=g("CMb"), Fhub=g("T", "Y", "Z"), Mhub=g("Q", "My", "Mz"),
                          CFhub=g("CT", "CY", "CZ"), CMhub=g("CQ", "CMy", "CMz"))

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        C, U, want = p.result
        rep.analysed(C.I)
        judge(rep, p, C, U, want, "evaluate", what)
        rep.sample("CCBladeEvaluate %s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore="flip")


class _Af:
    def __init__(self, I, a):
        self.f = I.getattr(a, "evaluate")

    def evaluate(self, alpha, Re):
        return [lift(npmodel.oarr(z).reshape(-1)[0]) for z in self.f(alpha, Re)]


class _Ref:
    """the parts of a rotor that refrotor needs, taken from a component's inputs"""

    def __init__(self, C, af):
        v, d = omcomp.meant(C), C.din.v
        x = lambda k: lift(v[k].reshape(-1)[0])
        self.I, self.n = C.I, len(v["r"])
        self.af = [_Af(C.I, a) for a in af]
        self.s = dict({k: x(nm) for k, nm in SHARED.items() if k not in ("precurve", "presweep")}, Rhub=x("Rhub"), Rtip=x("Rtip"),
                      B=lift(d["nBlades"]))
        self.v = dict(r=v["r"], chord=v["chord"], theta=None, precurve=v["precurve"], presweep=v["presweep"])
        self.kw = {k: d[k] for k in ("usecd", "tiploss", "hubloss", "wakerotation")}


def cap(theta):
    """twist above 20 degrees: that station and everything inboard of the outermost such station is set to 20 degrees"""
    lim = rad(const(20))
    th = [lift(t) for t in theta]
    for i in reversed(range(len(th))):
        if core.CTX.positive(th[i] - lim):
            return [lim] * (i + 1) + th[i + 1:]
    return th


def twist(rep, n, n_Re, n_tab, flags, nsec, B, inverse=False, inn=False, thick=0, n_opt=3, explore="typical", stall=(), zero=(), edge=()):
    what = "n_span=%d, n_Re=%d, n_tab=%d, nSector=%d, B=%d, %s%s%s" % (
        n, n_Re, n_tab, nsec, B, "inverse, " if inverse else "", "inn_af, " if inn else "", ",".join(k for k, f in flags.items() if f))

    def fn():
        mo, oo = omcomp.options(n_span=n, n_Re=n_Re, n_tab=n_tab, n_aoa=73 if stall else 4, inverse=inverse, inn_af=inn, n_opt=n_opt)
        fx = dict(fixed_polar(n_Re, 73 if stall else 4), rthick=[const(100)] * thick + [const(30)] * (n - thick),
                  s_opt_theta=omcomp.concrete([0, q(2, 5), 1][:n_opt]), r=omcomp.concrete([3, 20, 41, 61][:n]))
        fx.update((k, omcomp.ZERO) for k in zero)
        for i, t in edge:
            fx["rthick"][i] = const(t)
        if inverse:
            fx["aoa_op"] = np.array([PI() if i in stall else sym("aoa_op[%d]" % i) for i in range(n)], dtype=object)
        C = Comp("CCBladeTwist", dict(modeling_options=mo, opt_options=oo), fx, dict(flags, nBlades=B, nSector=nsec))
        if stall:
            for i in range(n):
                for t in range(n_tab):
                    for m in range(n_Re):
                        # every station and table stalls at its own angle
                        pol = _polar(10 + 5 * ((i + t) % 3))
                        for k in ("cl", "cd", "cm"):
                            C.ins.v["airfoils_" + k][i, :, m, t] = [const(z) for z in pol[k]]
        for i in range(n) if inverse else ():
            # an angle of attack within 1e-4 of pi asks for the stall point: only where intended
            if i not in stall and core.CTX.positive(const(q(1, 10 ** 4)) - core.absv(lift(fx["aoa_op"][i]) - PI())):
                return None
        U = unset(C)
        C.compute()
        v = omcomp.meant(C)
        x = lambda k: lift(v[k].reshape(-1)[0])
        tab = n_tab // 2 if n_tab > 1 else 0
        Om = x("tsr") * x("Uhub") / v["r"][-1] * 30 / PI()
        if inverse:
            R0, af = solver(C, theta=npmodel.np_zeros(n), tab=tab)
            Re = [Om * PI() / 30 * v["r"][i] * v["chord"][i] * x("rho") / x("mu") for i in range(n)]
            al = list(v["aoa_op"])
            for i in stall:
                C.I.getattr(af[i], "eval_unsteady")(v["airfoils_aoa"], *[v["airfoils_" + k][i, :, 0, tab] for k in ("cl", "cd", "cm")])
                al[i] = rad(lift(C.I.getattr(af[i], "unsteady")["alpha1"])) - oo["constraints"]["blade"]["stall"]["margin"]
            co = [C.I.getattr(af[i], "evaluate")(al[i], Re[i]) for i in range(n)]
            cl, cd = ([lift(npmodel.oarr(c[k]).reshape(-1)[0]) for c in co] for k in (0, 1))
            for i in range(thick):
                al[i] = al[thick]
            # the twist of the last azimuthal position the rotor-averaged analysis visits
            az = const(360) * (nsec - 1) / nsec
            ref = refrotor.loads(_Ref(C, af), dict(Uinf=x("Uhub"), Omega=Om, pitch=x("pitch"), azimuth=az), 1,
                                 dict(cl=cl, cd=cd, alpha=al))
            th = cap([e["theta"] for e in ref])
            if inn:
                s = [(v["r"][i] - v["r"][0]) / (v["r"][-1] - v["r"][0]) for i in range(n)]
                P = npmodel.mk1("pchip")
                to = P(npmodel.oarr(s), npmodel.oarr(th))(v["s_opt_theta"])
                th = list(P(v["s_opt_theta"], to)(npmodel.oarr(s)))
        else:
            th = list(v["theta_in"])
        th = npmodel.oarr(th)
        R, af = solver(C, theta=npmodel.oarr([deg(t) for t in th]), tab=tab)
        L, _ = C.I.getattr(R, "distributedAeroLoads")(x("Uhub"), Om, x("pitch"), const(0))
        o, _ = C.I.getattr(R, "evaluate")(*[npmodel.oarr([z]) for z in (x("Uhub"), Om, x("pitch"))], coefficients=True)
        g = lambda k: [lift(o[k][0])]
        s = [(v["r"][i] - v["r"][0]) / (v["r"][-1] - v["r"][0]) for i in range(n)]
        at = lambda a: npmodel.np_interp(v["s_opt_theta"], npmodel.oarr(s), npmodel.oarr(a))
        N, T = ([lift(z) for z in L[k]] for k in ("Np", "Tp"))

        def turn(ang):
            """blade frame to a frame turned by the angle about the span (blade x = normal, y = minus tangential)"""
            return ([N[i] * cos(ang[i]) + T[i] * sin(ang[i]) for i in range(n)],
                    [N[i] * sin(ang[i]) - T[i] * cos(ang[i]) for i in range(n)])
        af_ = turn([lift(t) for t in th])
        ld = turn([lift(th[i]) + rad(lift(L["alpha"][i])) + rad(x("pitch")) for i in range(n)])
        want = dict(theta=th, CP=g("CP"), CM=g("CMb"), P=g("P"), T=g("T"), Q=g("Q"), M=g("Mb"),
                    local_airfoil_velocities=o["W"], a=L["a"], ap=L["ap"], alpha=L["alpha"], cl=L["Cl"], cd=L["Cd"],
                    cl_n_opt=at(L["Cl"]), cd_n_opt=at(L["Cd"]), Px_b=N, Py_b=[-t for t in T], Pz_b=[const(0)] * n,
                    Px_af=af_[0], Py_af=af_[1], Pz_af=[const(0)] * n, LiftF=ld[0], DragF=ld[1], L_n_opt=at(ld[0]), D_n_opt=at(ld[1]))
        return C, U, want

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        if p.result is None:
            return
        C, U, want = p.result
        rep.analysed(C.I)
        judge(rep, p, C, U, want, "twist-inverse" if inverse else "twist", what)
        rep.sample("CCBladeTwist %s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore=explore)


def q(a, b):
    from fractions import Fraction
    return Fraction(a, b)


def _polar(stall):
    """lift linear up to stall, drag rising beyond it, on a five-degree grid"""
    cl, cd, cm = [], [], []
    for x in range(-180, 181, 5):
        k = abs(x) if abs(x) <= 90 else 180 - abs(x)
        sg = (1 if x > 0 else -1) * (1 if abs(x) <= 90 else -1)
        lin = min(k, stall)
        cl.append(sg * (q(11, 100) * lin - q(1, 100) * max(0, k - stall)))
        cd.append(q(1, 100) + q(k, 10000) + q(14, 1000) * max(0, k - stall))
        cm.append(-q(3, 1000) * sg * k + (q(1, 100) if k < stall else q(2, 100)))
    return dict(cl=cl, cd=cd, cm=cm)


def run(rep):
    rep.rule("all-outputs-set", "every declared output holds a value computed by the run")
    rep.rule("geometry", "rotor radius, diameter and tip offsets from the declared inputs")
    rep.rule("loads", "blade-frame loads = the solver's loads for a rotor built by keyword from the declared inputs")
    rep.rule("evaluate", "rotor outputs = the solver's outputs for a rotor built by keyword from the declared inputs")
    rep.rule("twist", "twist component, forward: every output from the solver at the given twist")
    rep.rule("twist-inverse", "twist component, inverse: twist for the requested angle of attack, capped, optionally smoothed; then as forward")
    F = pipeline.FLAGSETS
    n0 = rep.paths
    jobs = []
    for n in (2, 3, 4):
        jobs.append(lambda r, n=n: geometry(r, n))
    for k, (n, nre, ntab, nsec, B) in enumerate([(3, 1, 1, 4, 3), (3, 2, 2, 5, 2), (2, 3, 1, 6, 3), (4, 1, 3, 4, 2)]):
        fl = F[k]
        jobs.append(lambda r, a=(n, nre, ntab, fl, nsec, B): loads(r, *a))
        jobs.append(lambda r, a=(n, nre, ntab, fl, nsec, B): evaluate(r, *a))
        jobs.append(lambda r, a=(n, nre, ntab, fl, nsec, B): twist(r, *a))
        for inn in (False, True):
            jobs.append(lambda r, a=(n, nre, ntab, fl, nsec, B), inn=inn, k=k: twist(
                r, *a, inverse=True, inn=inn, thick=k % 2, explore="flip" if k == 2 or r.thorough else "typical"))
        jobs.append(lambda r, a=(n, nre, ntab, fl, nsec, B), k=k: twist(
            r, *a, inverse=True, thick=k % 2, stall=(k % a[0], a[0] - 1)))
    # numbers that vanish in ordinary use
    for z in (("precurve", "presweep"), ("precurveTip", "presweepTip"), ("precurve", "presweep", "precurveTip", "presweepTip"),
              ("tilt", "yaw", "precone", "shearExp"), ("theta",)):
        jobs.append(lambda r, z=z: loads(r, 3, 1, 1, F[1], 4, 3, z))
        jobs.append(lambda r, z=z: evaluate(r, 3, 1, 1, F[1], 4, 3, {k: omcomp.ZERO for k in z}))
        jobs.append(lambda r, z=tuple("theta_in" if k == "theta" else k for k in z): twist(r, 3, 1, 1, F[1], 4, 3, zero=z))
    jobs.append(lambda r: loads(r, 3, 1, 1, F[1], 4, 3, ("pitch_load", "azimuth_load")))
    # the root reaches to the last station of at least 95 per cent thickness
    for e in (((1, 95),), ((1, q(9501, 100)),), ((1, q(9499, 100)),), ((1, 96), (2, 95))):
        k = 1 + sum(t >= 95 for _, t in e)
        jobs.append(lambda r, e=e, k=k: twist(r, 4, 1, 1, F[1], 4, 3, inverse=True, thick=k, edge=e))
    lib.parallel(rep, jobs)
    rep.floor("component runs", rep.paths - n0, 8)
