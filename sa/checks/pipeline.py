"""A symbolic rotor analysed through the interpreted CCBlade class."""
import numpy as np

import core
import lib
import world
from core import const, grad, lift, sym
from lib import vec

SC = "Rhub Rtip B rho mu precone tilt yaw shearExp hubHt precurveTip presweepTip".split()
OPER = "Uinf Omega pitch azimuth".split()
VEC = "r chord theta precurve presweep".split()
POS = ("Rhub", "Rtip", "hubHt", "rho", "mu", "B", "r", "chord")

core.SAMPLES.update({
    "r": (3.0, 12.0), "chord": 3.0, "theta": 6.0, "precurve": (0.1, 0.4), "presweep": (0.05, 0.2), "Rhub": 1.5,
    "Rtip": 63.0, "B": 3.0, "rho": 1.225, "mu": 1.8e-5, "precone": 2.5, "tilt": 5.0, "yaw": 3.0, "shearExp": 0.2,
    "shear": 0.2, "hubHt": 90.0, "precurveTip": 3.0, "presweepTip": 1.0, "Uinf": 10.0, "Omega": 12.0, "pitch": 1.0,
    "azimuth": 40.0, "Vx": 10.0, "Vy": 40.0, "phi": 0.15, "cl": 0.8, "cd": 0.02, "a": 0.2, "ap": 0.01,
})

FLAGSETS = [dict(usecd=True, tiploss=True, hubloss=True, wakerotation=True),
            dict(usecd=True, tiploss=False, hubloss=True, wakerotation=False),
            dict(usecd=False, tiploss=True, hubloss=True, wakerotation=False),
            dict(usecd=False, tiploss=False, hubloss=False, wakerotation=True)]

# one switch at a time
MORE = [dict(FLAGSETS[0], **{k: False}) for k in FLAGSETS[0]]


def sign_hook(o, sc):
    """residual positive at the end of the first bracket, negative elsewhere: the first bracket is accepted"""
    if o != "fzero":
        return 0
    return 1 if sc["phi"].f is not None and sc["phi"].f > 0.1 else -1


def second_hook(o, sc):
    """no sign change in the first bracket, one below zero"""
    if o != "fzero":
        return 0
    f = sc["phi"].f
    return -1 if f is not None and f < -0.1 else 1


def third_hook(o, sc):
    """a sign change above ninety degrees only"""
    return 1 if o == "fzero" else 0


HOOKS = [("second bracket", second_hook, "brake"), ("third bracket", third_hook, "beyond")]


class Rotor:
    def __init__(self, n=4, flags=None, derivatives=False, consts=None, nSector=4, iterRe=1, opaque=True, hook=sign_hook,
                 af=None, I=None, tag="", shared=None, extra=None, copy_args=False, zeros=()):
        self.I = I or world.fresh(opaque=opaque)
        self.n = n
        C = world.cls(self.I, "ccblade", "CCBlade")
        consts = consts or {}
        self.s = {}
        for k in SC + OPER:
            self.s[k] = (consts[k] if k in consts else sym(tag + k, zero=True) if k in zeros else
                         sym(tag + k, positive=k in POS))
        self.v = {}
        for k in VEC:
            self.v[k] = (consts[k] if k in consts else
                         np.array([sym("%s%s[%d]" % (tag, k, i), zero=True) for i in range(n)], dtype=object) if k in zeros else
                         vec(tag + k, n, positive=k in POS))
            if k + "Last" in zeros:  # e.g. a blade that closes at the tip
                self.v[k] = self.v[k].copy()
                self.v[k][-1] = sym("%s%s[%d]" % (tag, k, n - 1), zero=True)
        self.af = af if af is not None else [world.OpaqueAirfoil("%s%d" % (tag, i)) for i in range(n)]
        s, v = self.s, self.v
        if hook is not None:
            world.HOOKS["ind_sign"] = hook
        kw = dict(B=s["B"], rho=s["rho"], mu=s["mu"], precone=s["precone"], tilt=s["tilt"], yaw=s["yaw"],
                  shearExp=s["shearExp"], hubHt=s["hubHt"], nSector=nSector, precurve=v["precurve"],
                  precurveTip=s["precurveTip"], presweep=v["presweep"], presweepTip=s["presweepTip"],
                  iterRe=iterRe, derivatives=derivatives)
        kw.update(flags or {})
        kw.update(extra or {})
        self.kw = kw
        self.obj = C(v["r"], v["chord"], v["theta"], self.af, s["Rhub"], s["Rtip"], **kw)

    def m(self, name):
        return self.I.getattr(self.obj, name)

    def loads(self, **over):
        a = dict(self.s)
        a.update(over)
        return self.m("distributedAeroLoads")(a["Uinf"], a["Omega"], a["pitch"], a["azimuth"])

    def evaluate(self, U, Om, pi, **k):
        return self.m("evaluate")(U, Om, pi, **k)


# numbers that may all be zero in ordinary use, one at a time and together
ZEROS = [("precone",), ("tilt",), ("yaw",), ("shearExp",), ("azimuth",), ("pitch",), ("precurve",), ("precurveTip",), ("presweep",),
         ("presweepTip",), ("theta",), ("precurve", "presweep"), ("precurveTip", "presweepTip"),
         ("precone", "tilt", "yaw", "shearExp", "azimuth", "pitch"), ("chordLast",)]

LOADS_WHERE = "ccblade/ccblade.py (CCBlade.distributedAeroLoads)"
EVAL_WHERE = "ccblade/ccblade.py (CCBlade.evaluate)"

DKEYS = dict(dr="r", dchord="chord", dtheta="theta", dpresweep="presweep", dprecurve="precurve",
             dRhub="Rhub", dRtip="Rtip", dprecone="precone", dtilt="tilt", dhubHt="hubHt", dyaw="yaw",
             dshear="shearExp", dazimuth="azimuth", dUinf="Uinf", dOmega="Omega", dpitch="pitch")


def load_jacobians(rep, p, R, loads, derivs, skip=(), what="", rule="total-derivative"):
    n = R.n
    for ld, dn in (("Np", "dNp"), ("Tp", "dTp")):
        if not rep.check(dn in derivs, rule, dn, LOADS_WHERE, "%s missing from the derivative dictionary (%s)" % (dn, what), p):
            continue
        D = derivs[dn]
        wrt, pos = [], []
        for key, nm in DKEYS.items():
            if key in skip:
                continue
            xs = list(R.v[nm]) if nm in R.v else [R.s[nm]]
            if isinstance(R.s.get(nm), np.ndarray):
                xs = [R.s[nm][0]]
            for j, x in enumerate(xs):
                wrt.append(x)
                pos.append((key, j, len(xs)))
            if rep.check(key in D, rule, "%s[%s]" % (dn, key), LOADS_WHERE, "missing entry (%s)" % what, p):
                rep.check(np.shape(D[key]) == (n, len(xs)), rule, "%s[%s]" % (dn, key), LOADS_WHERE,
                          "shape %s, documented %s" % (np.shape(D[key]), (n, len(xs))), p)
        U = R.s["Uinf"]
        if isinstance(U, np.ndarray) and "dUinf" in D:
            # wind speed given at each station: the station's own speed
            wrt, pos = wrt[:], pos[:]
            keep = [k for k, q in enumerate(pos) if q[0] != "dUinf"]
            wrt, pos = [wrt[k] for k in keep], [pos[k] for k in keep]
            for i in range(n):
                o = lift(loads[ld][i])
                g = grad(o, list(U)) if o.v is not None else [None] * n
                for j in range(n):
                    want = lib.val(D["dUinf"][i, 0]) if i == j and np.shape(D["dUinf"]) == (n, 1) else 0
                    rep.check(want == g[j], rule, "%s[dUinf]" % dn, LOADS_WHERE,
                              "d%s[%d]/dUinf[%d] is not the total derivative (%s)" % (ld, i, j, what), p)
        for i in range(n):
            out = lift(loads[ld][i])
            if out.v is None:
                rep.check(False, rule, ld, LOADS_WHERE, "%s[%d] undefined (%s)" % (ld, i, what), p)
                continue
            g = grad(out, wrt)
            for (key, j, m), gi in zip(pos, g):
                if key not in D or np.shape(D[key]) != (n, m):
                    continue
                rep.check(lib.val(D[key][i, j]) == gi, rule, "%s[%s]" % (dn, key), LOADS_WHERE,
                          "d%s[%d]/d%s[%d] is not the total derivative (n=%d, %s)" % (ld, i, key[1:], j, n, what), p)
