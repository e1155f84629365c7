import numpy as np

import lib
from checks import pipeline
from checks.pipeline import EVAL_WHERE, LOADS_WHERE, Rotor
from core import const, sym
from pyinterp import PyRaise

OUT = "P T Y Z Q My Mz Mb".split()
DOUT = ["d" + k for k in OUT]
AX = dict(tilt=const(0), yaw=const(0), shearExp=const(0))


def loads_case(rep, what, flags, consts, it=1, inverse=False):
    rep.configs += 1

    def one(d):
        R = Rotor(3 if not rep.thorough else 4, flags, d, consts)
        if inverse:
            R.obj.d["inverse_analysis"] = True
            R.obj.d["cl"], R.obj.d["cd"], R.obj.d["alpha"] = (lib.vec("inv " + k, R.n) for k in ("cl", "cd", "al"))
        L, D = R.loads()
        return R, L, D, R.m("theta")

    def fn():
        return one(False), one(True)

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        (R0, L0, D0, t0), (R1, L1, D1, t1) = p.result
        rep.analysed(R0.I)
        rep.analysed(R1.I)
        d = lib.differ(L0, L1)
        rep.check(d is None, "loads", "distributedAeroLoads", LOADS_WHERE, "switching derivatives on changes the loads at %s (%s)" % (d, what), p)
        d = lib.differ(t0, t1)
        rep.check(d is None, "loads", "theta", LOADS_WHERE, "switching derivatives on changes the twist at %s (%s)" % (d, what), p)
        rep.check(isinstance(D0, dict) and not D0, "present-when-requested", "distributedAeroLoads", LOADS_WHERE,
                  "derivatives returned without being requested (%s)" % what, p)
        rep.check(set(D1) >= {"dNp", "dTp"}, "present-when-requested", "distributedAeroLoads", LOADS_WHERE,
                  "derivatives missing although requested (%s)" % what, p)
        rep.sample("loads, %s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore="flip")


def eval_case(rep, what, flags, consts, npts, nsec, n=2):
    rep.configs += 1

    def one(d, co):
        R = Rotor(n, flags, d, consts, nSector=nsec)
        S = R.s
        A = [np.array([S[k]] + [sym("%s''%d" % (k, i)) for i in range(1, npts)], dtype=object) for k in ("Uinf", "Omega", "pitch")]
        if "Omega" in consts:
            A[1] = np.array([consts["Omega"]] * npts, dtype=object)
        return (R,) + tuple(R.evaluate(*A, coefficients=co))

    def fn():
        return {(d, co): one(d, co) for d in (False, True) for co in (False, True)}

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        X = p.result
        for (d, co), (R, o, g) in X.items():
            rep.analysed(R.I)
            w = "%s, derivatives %s, coefficients %s" % (what, "on" if d else "off", "on" if co else "off")
            ref = X[(False, co)][1]
            for k in OUT + ["C" + k for k in OUT]:
                want = co or not k.startswith("C")
                if not rep.check((k in o) == want, "present-when-requested", k, EVAL_WHERE,
                                 "%s (%s)" % ("missing" if want else "reported without being requested", w), p) or not want:
                    continue
                x = lib.differ(ref[k], o[k])
                rep.check(x is None, "evaluate-derivatives", k, EVAL_WHERE, "switching derivatives on changes %s at %s (%s)" % (k, x, w), p)
                if not k.startswith("C"):
                    x = lib.differ(X[(d, False)][1][k], o[k])
                    rep.check(x is None, "evaluate-coefficients", k, EVAL_WHERE, "asking for coefficients changes %s at %s (%s)" % (k, x, w), p)
            for k in DOUT + ["dC" + k for k in OUT]:
                want = d and (co or not k.startswith("dC"))
                if not rep.check((k in g) == want, "present-when-requested", k, EVAL_WHERE,
                                 "%s (%s)" % ("missing" if want else "reported without being requested", w), p) or not want:
                    continue
                if not k.startswith("dC"):
                    x = lib.differ(X[(d, False)][2][k], g[k])
                    rep.check(x is None, "evaluate-coefficients", k, EVAL_WHERE, "asking for coefficients changes %s at %s (%s)" % (k, x, w), p)
        rep.sample("evaluate, %s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore="flip")


def run(rep):
    rep.rule("loads", "loads dictionary (and inverse twist) with derivatives = without, entry by entry")
    rep.rule("evaluate-derivatives", "every rotor output with derivatives = without")
    rep.rule("evaluate-coefficients", "every dimensional output and derivative with coefficients = without")
    rep.rule("present-when-requested", "coefficients and derivatives appear exactly when requested")
    z = const(0)
    F = pipeline.FLAGSETS
    n0 = rep.paths
    jobs = []
    C = [("rotating", {}), ("parked", {"Omega": z}), ("parked and aligned", {"Omega": z, "yaw": z, "azimuth": z}),
         ("no wind", {"Uinf": z}), ("axisymmetric", AX)]
    for what, c in C:
        for fl in F if what in ("rotating", "parked") or rep.thorough else F[:1]:
            jobs.append(lambda r, what=what, c=c, fl=fl: loads_case(r, what + " %s" % fl, fl, c))
    jobs.append(lambda r: loads_case(r, "inverse", F[0], {}, inverse=True))
    E = [("four sectors", F[0], {}, 1, 4), ("axisymmetric, two points", F[0], AX, 2, 4), ("no shear", F[1], {"shearExp": z}, 1, 4),
         ("one sector asked", F[2], {}, 1, 1), ("parked", F[3], {"Omega": z}, 1, 4), ("parked, axisymmetric", F[0], dict(AX, Omega=z), 1, 4)]
    for k in ("precone", "tilt", "yaw", "shearExp", "azimuth", "pitch", "precurveTip", "presweepTip", "hubHt"):
        jobs.append(lambda r, k=k: loads_case(r, "zero " + k, F[0], {k: z}))
    def chord(n):
        v = lib.vec("chord", n, positive=True)
        v[-1] = const(0)
        return v
    for what, c in (("rotating", {}), ("parked", {"Omega": z})):
        jobs.append(lambda r, what=what, c=c: loads_case(r, what + ", closed tip", F[0], dict(c, chord=chord(4 if r.thorough else 3))))
    for e in E:
        jobs.append(lambda r, e=e: eval_case(r, *e))
    lib.parallel(rep, jobs)
    rep.floor("analyses", rep.paths - n0, 8)
