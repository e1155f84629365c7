from fractions import Fraction as Fr

import numpy as np

import lib
import npmodel
from checks import pipeline, refrotor
from checks.pipeline import LOADS_WHERE, Rotor
from checks.refrotor import KEYS
from core import const
from pyinterp import PyRaise


def compare(rep, p, R, L, E, rule, what, keys=KEYS):
    for k in keys:
        if not rep.check(k in L and np.shape(L[k]) == (R.n,), rule, k, LOADS_WHERE, "missing or wrong shape (%s)" % what, p):
            continue
        for i in range(R.n):
            rep.same(L[k][i], E[i][k], rule, k, LOADS_WHERE, "%s[%d] is not the documented quantity (%s)" % (k, i, what), p)


def case(rep, what, rule, n=3, consts=None, iterRe=1, flags=None, derivatives=False, rotating=True, zeros=(), hook=None):
    rep.configs += 1
    what = "%s; iterRe=%d, %s%s" % (what, iterRe, ",".join(k for k, x in flags.items() if x) or "all switches off",
                                    ", derivatives" if derivatives else "")

    def fn():
        R = Rotor(n, flags, derivatives, consts, iterRe=iterRe, zeros=zeros, hook=hook[1] if hook else pipeline.sign_hook)
        L, _ = R.loads()
        return R, L, refrotor.loads(R, iterRe=iterRe, rotating=rotating, choose=(lambda i: hook[2]) if hook else None)

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, L, E = p.result
        rep.analysed(R.I)
        compare(rep, p, R, L, E, rule, what)
        rep.sample("%s: %s" % (what, p.describe()))
    lib.each_path(rep, fn, on, explore="typical" if n > 4 else "all" if rep.thorough and iterRe == 1 and not zeros else "flip")


def run(rep):
    rep.rule("rotating", "every entry of the loads dictionary = the section model at the solved inflow angle of its own station")
    rep.rule("reynolds-iteration", "same with several Reynolds iterations: coefficients at the Reynolds number of the last iteration")
    rep.rule("parked", "same at 90 degrees of inflow without induction when the rotor stands still")
    rep.rule("parked-aligned", "same for a parked rotor aligned with the wind (no tangential velocity)")
    z = const(0)
    n0 = rep.paths
    F = pipeline.FLAGSETS
    for fl in F:
        case(rep, "rotating", "rotating", flags=fl)
    case(rep, "rotating, 4 stations", "rotating", n=4, flags=F[1], derivatives=True)
    case(rep, "rotating, wind speed per station", "rotating", consts={"Uinf": lib.vec("Uinf", 3)}, flags=F[0])
    case(rep, "parked, wind speed per station", "parked", consts={"Uinf": lib.vec("Uinf", 3), "Omega": z}, flags=F[0], rotating=False)
    for k, n in enumerate((6, 9)):
        case(rep, "rotating, %d stations" % n, "rotating", n=n, flags=F[k])
        case(rep, "parked, %d stations" % n, "parked", n=n, flags=F[k], consts={"Omega": z}, rotating=False)
    for h in pipeline.HOOKS:
        for fl in F[:2]:
            case(rep, "rotating, " + h[0], "rotating", flags=fl, n=2, hook=h)
    fine = dict(Uinf=Fr("9.00012345"), Omega=Fr("11.000321"), pitch=Fr("-2.000123"), azimuth=Fr("33.33337"))
    case(rep, "operating point with many decimals", "rotating", consts={k: const(x) for k, x in fine.items()}, flags=F[0], n=2)
    fine["Omega"] = 0
    case(rep, "parked operating point with many decimals", "parked", consts={k: const(x) for k, x in fine.items()}, flags=F[0], n=2, rotating=False)
    for it in (2, 3):
        case(rep, "rotating", "reynolds-iteration", iterRe=it, flags=F[it - 1], n=2)
    for fl in F[:2]:
        case(rep, "parked", "parked", consts={"Omega": z}, flags=fl, rotating=False)
    case(rep, "parked", "parked", consts={"Omega": z}, flags=F[0], rotating=False, derivatives=True, iterRe=1)
    case(rep, "parked", "parked", consts={"Omega": z}, flags=F[0], rotating=False, iterRe=2)
    case(rep, "parked, no yaw, azimuth 0", "parked-aligned", consts={"Omega": z, "yaw": z, "azimuth": z}, flags=F[0], rotating=False)
    case(rep, "parked, no yaw, azimuth 0", "parked-aligned", consts={"Omega": z, "yaw": z, "azimuth": z}, flags=F[1],
         rotating=False, derivatives=True)
    for zs in pipeline.ZEROS:
        case(rep, "rotating, zero " + "/".join(zs), "rotating", flags=F[0], n=2, zeros=zs)
    rep.floor("analyses", rep.paths - n0, 6)
