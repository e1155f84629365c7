"""Reference of the distributed-load analysis: what each station must report, from the user's description of the rotor."""
import numpy as np

import npmodel
from checks import geom
from checks.bemmodel import q
from core import PI, const, cos, lift, sin
from checks.geom import deg, rad



def eps():
    from fractions import Fraction
    return const(Fraction(1, 10 ** 6))


def brackets():
    return {"first": (eps(), PI() / 2), "brake": (-(PI() / 4), -eps()), "beyond": (PI() / 2, PI() - eps())}


def residual(R, i, pitch, Vx, Vy, iterRe, inverse):
    """section residual of station i as a function of phi; also its state"""
    s, v, bem = R.s, R.v, R.I.bem
    fl = {k: R.kw[k] for k in ("usecd", "tiploss", "hubloss", "wakerotation")}
    th = None if inverse else rad(v["theta"][i])

    def state(phi, th=th, given=inverse):
        a = ap = const(0)
        cl = cd = None
        for _ in range(iterRe):
            if given:
                cl, cd = inverse["cl"][i], inverse["cd"][i]
            else:
                al, W, Re = bem.relativewind(phi, a, ap, Vx, Vy, pitch, v["chord"][i], th, s["rho"], s["mu"])
                cl, cd = (lift(x) if not isinstance(x, np.ndarray) else lift(x[()]) for x in R.af[i].evaluate(al, Re))
            f, a, ap = bem.inductionfactors(v["r"][i], v["chord"][i], s["Rhub"], s["Rtip"], phi, cl, cd, s["B"], Vx, Vy, **fl)
        return f, a, ap, cl, cd

    def f(phi):
        return state(phi)[0]
    f.__module__ = "npmodel"
    return f, state


def loads(R, oper=None, iterRe=1, inverse=None, choose=None, rotating=True):
    """list of dicts, one per station; choose(i) names the bracket to be searched"""
    o = dict(R.s)
    o.update(oper or {})
    s, v = R.s, R.v
    g = dict(v, Uinf=o["Uinf"], Omega=o["Omega"], hubHt=s["hubHt"], shear=s["shearExp"], precone=rad(s["precone"]),
             tilt=rad(s["tilt"]), yaw=rad(s["yaw"]), azimuth=rad(lift(o["azimuth"])))
    Vx, Vy = geom.velocities(g)
    pitch = rad(lift(o["pitch"]))
    out = []
    for i in range(R.n):
        f, state = residual(R, i, pitch, Vx[i], Vy[i], iterRe, inverse)
        if rotating:
            br = brackets()[choose(i) if choose else "first"]
            phi = npmodel.brentq(f, br[0], br[1])
        else:
            phi = PI() / 2
        th = (phi - inverse["alpha"][i] - pitch) if inverse else rad(v["theta"][i])
        if rotating:
            _, a, ap, cl, cd = state(phi, th, None)
        else:
            a = ap = const(0)
        al, W, Re = R.I.bem.relativewind(phi, a, ap, Vx[i], Vy[i], pitch, v["chord"][i], th, s["rho"], s["mu"])
        if not rotating:
            cl, cd = (lift(x) if not isinstance(x, np.ndarray) else lift(x[()]) for x in R.af[i].evaluate(al, Re))
        cn = cl * cos(phi) + cd * sin(phi)
        ct = cl * sin(phi) - cd * cos(phi)
        dyn = s["rho"] * W * W / 2 * v["chord"][i]
        out.append(dict(Np=cn * dyn, Tp=ct * dyn, a=a, ap=ap, alpha=deg(al), Cl=cl, Cd=cd, Cn=cn, Ct=ct, W=W, Re=Re,
                        theta=th, phi=phi))
    return out


KEYS = "Np Tp a ap alpha Cl Cd Cn Ct W Re".split()
