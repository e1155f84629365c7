"""The rotor that is analysed is the rotor the caller described."""
from fractions import Fraction as Q

import numpy as np

import core
import lib
import world
from checks import c11, pipeline, refrotor
from checks.c12 import compare
from checks.pipeline import EVAL_WHERE, Rotor
from core import const, lift, sym
from pyinterp import PyRaise

WHERE = "ccblade/ccblade.py (CCBlade.__init__)"
DEFAULT = dict(B=3, rho=Q("1.225"), mu=Q("1.81206e-5"), precone=0, tilt=0, yaw=0, shearExp=Q("0.2"), hubHt=80)
FLAGS = dict(usecd=True, tiploss=True, hubloss=True, wakerotation=True)

# stations with wide and narrow end intervals
TABLES = {
    "wide intervals": [Q(2), Q(7), Q(11), Q(20)],
    "narrow first interval": [Q(2), Q("2.125"), Q(11), Q(20)],
    "narrow last interval": [Q(2), Q(7), Q("19.75"), Q(20)],
    "narrow intervals": [Q(3), Q("3.5"), Q(30), Q(61), Q(63)],
    "three stations": [Q(1), Q(5), Q("5.0625")],
}
MANY = [Q(3, 2), Q(20)] + [Q(21) + Q(41 * i, 38) for i in range(39)]

# numbers of unusual size and sign (the longest blade is 20 m)
VALUES = [dict(hubHt=12, azimuth=20), dict(hubHt=Q(29, 2), tilt=-6, yaw=-40, azimuth=-15), dict(hubHt=1000, shearExp=2), dict(shearExp=0, yaw=120),
          dict(shearExp=-1, precone=Q(-7, 2)), dict(B=1, precone=35), dict(B=2, tilt=20), dict(B=7, rho=Q(1, 50), mu=Q(3, 10)),
          dict(rho=1025, mu=Q(1, 1000), tilt=-1, precone=-1, yaw=-1)]


CLOSE = Q(1, 3000)  # near, not equal


def hub(r):
    return r[0] + min(Q(1, 100) * (r[-1] - r[0]), (r[1] - r[0]) / 2)


def back(r):
    """how far, as a fraction of the last interval, a last station at the tip is moved inwards"""
    return min(Q(1, 100) * (r[-1] - r[0]), (r[-1] - r[-2]) / 2) / (r[-1] - r[-2])


def arr(x):
    a = np.empty(len(x), dtype=object)
    a[:] = [lift(v) for v in x]
    return a


def ints(x):
    return np.array([int(v) for v in x])


FORMS = {"array": arr, "list": lambda x: list(arr(x)), "tuple": lambda x: tuple(arr(x)), "whole numbers": ints,
         "list of whole numbers": lambda x: [int(v) for v in x]}


def case(rep, what, r, rule, at_hub=False, at_tip=False, curve="apart", sweep="apart", form="array", given=None, flags=None,
         evaluate=False, nSector=None, derivatives=None, bare=False, values=None):
    """given: names of the optional descriptions passed (None: all of them); curve/sweep: tip value equal, apart or omitted"""
    rep.configs += 1
    n = len(r)
    num = "whole" in form

    def fn():
        I = world.fresh()
        C = world.cls(I, "ccblade", "CCBlade")
        world.HOOKS["ind_sign"] = pipeline.sign_hook
        opt = {k: sym(k, positive=k in pipeline.POS) for k in DEFAULT} if not bare else {k: const(v) for k, v in DEFAULT.items()}
        opt.update({k: const(v) for k, v in (values or {}).items() if k != "azimuth"})
        op = {k: const(v) for k, v in (values or {}).items() if k == "azimuth"}
        Rhub = const(r[0]) if at_hub is True else const(r[0] * (1 - CLOSE)) if at_hub else const(r[0] / 2)
        Rtip = const(r[-1]) if at_tip is True else const(r[-1] * (1 + CLOSE)) if at_tip else const(r[-1] + 1)
        chord = [Q(2 + i) for i in range(n)] if num else lib.vec("chord", n, positive=True)
        theta = [Q(9 - i) for i in range(n)] if num else lib.vec("theta", n)
        F = FORMS[form]
        kw = {}
        if given is not None:
            for k in opt:
                if k in given:
                    kw[k] = opt[k]
                else:
                    opt[k] = const(DEFAULT[k])
        elif not bare:
            kw.update(opt)
        shape, tips = {}, {}
        for nm, how in (("precurve", curve), ("presweep", sweep)):
            if how == "omitted":
                shape[nm], tips[nm] = [Q(0)] * n, Q(0)
                if how == "omitted" and not bare:
                    kw[nm + "Tip"] = sym(nm + "Tip")
                continue
            v = [Q(2 * i * i + (nm == "presweep")) for i in range(n)] if num or how == "close" else list(lib.vec(nm, n))
            t = v[-1] if how == "equal" else v[-1] * (1 + CLOSE) if how == "close" else (v[-1] + 3 if num else sym(nm + "Tip"))
            kw[nm] = F(v)
            kw[nm + "Tip"] = int(t) if num else t
            shape[nm], tips[nm] = v, t
            if how == "equal":
                w = list(v)
                w[-1] = lift(v[-1]) - const(back(r)) * (lift(v[-1]) - lift(v[-2]))
                shape[nm] = w
        fl = dict(FLAGS)
        if flags:
            fl.update(flags)
            kw.update(flags)
        if nSector is not None:
            kw["nSector"] = nSector
        if derivatives is not None:
            kw["derivatives"] = derivatives
        er = [lift(x) for x in r]
        if at_hub is True:
            er[0] = const(hub(r))
        if at_tip is True:
            er[-1] = const(r[-1] - back(r) * (r[-1] - r[-2]))
        exp = dict(opt, **op, r=arr(er), chord=arr(chord), theta=arr(theta), precurve=arr(shape["precurve"]),
                   presweep=arr(shape["presweep"]), Rhub=Rhub, Rtip=Rtip, precurveTip=lift(tips["precurve"]),
                   presweepTip=lift(tips["presweep"]))
        af = [world.OpaqueAirfoil("%d" % i) for i in range(n)]
        end = (lambda x: int(x.q)) if num and at_hub and at_tip else (lambda x: x)
        obj = C(F(r), F(chord), F(theta), af, end(Rhub), end(Rtip), **kw)
        R = Rotor(n, fl, False, exp, I=I, af=af)
        o = R.s
        L, _ = I.getattr(obj, "distributedAeroLoads")(o["Uinf"], o["Omega"], o["pitch"], o["azimuth"])
        E = refrotor.loads(R)
        out = want = None
        if evaluate:
            ops = {k: lib.vec(k, 1, positive=True) for k in ("Uinf", "Omega", "pitch")}
            out, _ = I.getattr(obj, "evaluate")(ops["Uinf"], ops["Omega"], ops["pitch"], coefficients=True)
            sect = evaluate
            S = [[{k: [d[k] for d in refrotor.loads(R, dict(Uinf=ops["Uinf"][0], Omega=ops["Omega"][0], pitch=ops["pitch"][0],
                                                            azimuth=const(360) * j / sect))] for k in ("Np", "Tp")}
                  for j in range(sect)]]
            want = c11.expected(R, ops, sect, S)
        return R, L, E, out, want

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, L, E, out, want = p.result
        rep.analysed(R.I)
        compare(rep, p, R, L, E, rule, what)
        if out is not None:
            for k in want:
                if rep.check(k in out and np.shape(out[k]) == (1,), rule, k, EVAL_WHERE, "missing or of wrong shape (%s)" % what, p):
                    rep.same(out[k][0], want[k][0], rule, k, EVAL_WHERE, "%s is not that of the described rotor (%s)" % (k, what), p)
        rep.sample("%s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore="flip" if n < 20 else "typical")


def run(rep):
    rep.rule("end-stations", "stations, precurve and presweep are those given, except that an end station (or last curvature value) "
             "coinciding with hub or tip is moved inwards by the smaller of 1% of the span and half its interval")
    rep.rule("straight-blade", "a blade given without precurve or presweep is straight, its tip included")
    rep.rule("defaults", "descriptions left out take the documented default values")
    rep.rule("as-given", "numbers of any size and sign are used as given")
    rep.rule("number-form", "arrays, lists, tuples and whole numbers describe the same rotor")
    n0 = rep.paths
    jobs = []

    def add(*a, **k):
        jobs.append(lambda rp: case(rp, *a, **k))
    ends = [("hub", dict(at_hub=True)), ("tip", dict(at_tip=True)), ("hub and tip", dict(at_hub=True, at_tip=True)),
            ("precurve", dict(curve="equal")), ("presweep", dict(sweep="equal")),
            ("hub almost", dict(at_hub="close")), ("tip almost", dict(at_tip="close")), ("precurve almost", dict(curve="close")),
            ("everything almost", dict(at_hub="close", at_tip="close", curve="close", sweep="close")),
            ("everything", dict(at_hub=True, at_tip=True, curve="equal", sweep="equal")), ("nothing", {})]
    F = pipeline.FLAGSETS
    for i, (t, r) in enumerate(TABLES.items()):
        for j, (e, k) in enumerate(ends):
            ev = 1 if (i + j) % 3 == 0 or rep.thorough else 0
            add("%s, %s coinciding" % (t, e), r, "end-stations", flags=F[(i + j) % len(F)], evaluate=4 if ev else 0, nSector=2, **k)
    add("41 stations, everything coinciding", MANY, "end-stations", at_hub=True, at_tip=True, curve="equal", sweep="equal", flags=F[1])
    add("41 stations, nothing coinciding", MANY, "end-stations", flags=F[3])
    r = w0 = TABLES["wide intervals"]
    for c in ("omitted", "apart", "equal"):
        for s in ("omitted", "apart", "equal"):
            if "omitted" in (c, s):
                add("precurve %s, presweep %s" % (c, s), r, "straight-blade", curve=c, sweep=s, at_tip=s == "equal", evaluate=4, nSector=4)
    for v in VALUES:
        add("unusual " + ", ".join("%s=%s" % (k, x) for k, x in v.items()), w0, "as-given", values=v, at_tip="hubHt" in v,
            evaluate=0 if "azimuth" in v else 4, nSector=4)
    for k in (5, 6, 7, 9):
        add("%d sectors" % k, w0, "as-given", evaluate=k, nSector=k)
    add("nothing but the required descriptions", r, "defaults", curve="omitted", sweep="omitted", bare=True, evaluate=8)
    for k in DEFAULT:
        add("only %s given" % k, r, "defaults", given=[k], curve="omitted", sweep="omitted",
            evaluate=0 if not rep.thorough else 8)
    add("switches left out", r, "defaults", given=list(DEFAULT), evaluate=8)
    add("explicit switches off", r, "defaults", flags=dict(usecd=False, tiploss=False, hubloss=False, wakerotation=False), derivatives=False)
    w = [Q(2), Q(7), Q(11), Q(20)]
    for f in FORMS:
        add("as %s" % f, w, "number-form", form=f, at_hub=True, at_tip=True, curve="equal", sweep="equal", evaluate=4, nSector=4)
        add("as %s, ends apart" % f, w, "number-form", form=f, evaluate=0)
    lib.parallel(rep, jobs)
    rep.floor("analyses", rep.paths - n0, len(jobs))
