from fractions import Fraction as Fr

import lib
import npmodel
import world
from checks import geom, pipeline, refrotor
from checks.c05 import OUT, points
from checks.c11 import expected
from checks.c23 import twist
from checks.pipeline import EVAL_WHERE, LOADS_WHERE, Rotor
from checks.refrotor import KEYS
from core import const, lift
from pyinterp import PyRaise

BR = {"first": pipeline.sign_hook}


def hook(which):
    """residual signs that make the documented choice the given interval at every station"""
    from checks.c25 import PTS
    sg = {"first": (-1, 1, 1, 1), "brake": (-1, -1, -1, 1), "beyond": (1, 1, 1, 1)}[which]

    def h(o, sc):
        if o != "fzero" or sc["phi"].f is None:
            return 0
        for x, s in zip(PTS, sg):
            if abs(sc["phi"].f - x) < 1e-9:
                return s
        return 0
    return h


# requested coefficients and angles (radians) of unusual size and sign
WILD = [dict(cl=(3, Fr(-7, 2)), cd=(2, Fr(3, 2)), alpha=(Fr(3, 2), -2)), dict(cl=(0, Fr(1, 1000)), cd=(0, Fr(-1, 10)), alpha=(0, Fr(1, 10 ** 6))),
        dict(cl=(20, -20), cd=(30, 5), alpha=(3, -3)), dict(cl=(Fr(3, 2), Fr(3, 2)), cd=(Fr(1, 100), Fr(1, 100)), alpha=(Fr(1, 10), Fr(1, 10)))]


def request(n, wild=None):
    inv = {k: lib.vec("inv " + k, n) for k in ("cl", "cd", "al")}
    inv["alpha"] = inv.pop("al")
    for k in wild or ():
        inv[k] = npmodel.oarr([const(wild[k][i % 2]) for i in range(n)])
    return inv


def ask(R, inv):
    R.obj.d["inverse_analysis"] = True
    for k in inv:
        R.obj.d[k] = inv[k].copy()


def station(rep, n, flags, which, iterRe=1, derivatives=False, parked=False, wild=None):
    rep.configs += 1
    what = "n=%d, interval %s, iterRe=%d%s, %s" % (n, which, iterRe, ", parked" if parked else "", ",".join(k for k, f in flags.items() if f))

    if wild is not None:
        what += ", requesting %s" % {k: tuple(str(x) for x in v) for k, v in wild.items()}

    def fn():
        R = Rotor(n, flags, derivatives, iterRe=iterRe, hook=None)
        world.HOOKS["ind_sign"] = hook(which)
        inv = request(n, wild)
        ask(R, inv)
        over = dict(Omega=const(0)) if parked else {}
        first = [lift(t) for t in R.m("theta")]
        L, _ = R.loads(**over)
        th = list(R.m("theta"))
        E = refrotor.loads(R, over, iterRe=iterRe, inverse=inv, choose=lambda i: which, rotating=not parked)
        # asking again at another operating point must not remember the first twist
        U2 = lift(R.s["Uinf"]) + 1
        L2, _ = R.loads(Uinf=U2, **over)
        th2 = list(R.m("theta"))
        E2 = refrotor.loads(R, dict(over, Uinf=U2), iterRe=iterRe, inverse=inv, choose=lambda i: which, rotating=not parked)
        return R, inv, L, th, E, th2, E2, L2

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, inv, L, th, E, th2, E2, L2 = p.result
        rep.analysed(R.I)
        for i in range(n):
            rep.same(th[i], E[i]["theta"], "twist", "theta", LOADS_WHERE,
                     "twist of station %d is not the inflow angle for the requested coefficients minus requested angle and pitch (%s)" % (i, what), p)
            rep.same(th2[i], E2[i]["theta"], "twist", "theta-again", LOADS_WHERE, "twist of station %d on a second analysis (%s)" % (i, what), p)
            rep.same(L["alpha"][i], geom.deg(inv["alpha"][i]), "requested-angle", "alpha", LOADS_WHERE,
                     "station %d does not fly at the requested angle of attack (%s)" % (i, what), p)
            for k in KEYS:
                rep.same(L[k][i], E[i][k], "loads", k, LOADS_WHERE, "%s[%d] is not that of the section at the returned twist (%s)" % (k, i, what), p)
                rep.same(L2[k][i], E2[i][k], "loads", k, LOADS_WHERE, "%s[%d] on a second analysis (%s)" % (k, i, what), p)
        rep.sample(what)
    lib.each_path(rep, fn, on, explore="flip")


def evaluate(rep, n, flags, nsec, npts):
    """rotor outputs in inverse mode = documented integrals of the inverse section loads"""
    rep.configs += 1
    what = "n=%d, %d sectors, %d points" % (n, nsec, npts)

    def fn():
        R = Rotor(n, flags, False, nSector=nsec, hook=None)
        world.HOOKS["ind_sign"] = hook("first")
        inv = request(n)
        ask(R, inv)
        ops = points(npts)
        o, _ = R.evaluate(*[npmodel.oarr(list(ops[k])) for k in ("Uinf", "Omega", "pitch")], coefficients=True)
        th = list(R.m("theta"))
        Ls = []
        for i in range(npts):
            row = []
            for j in range(nsec):
                E = refrotor.loads(R, dict(Uinf=ops["Uinf"][i], Omega=ops["Omega"][i], pitch=ops["pitch"][i],
                                           azimuth=const(360) * j / nsec), inverse=inv)
                row.append({k: [e[k] for e in E] for k in ("Np", "Tp", "theta")})
            Ls.append(row)
        return R, o, th, expected(R, ops, nsec, Ls), Ls

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, o, th, E, Ls = p.result
        rep.analysed(R.I)
        for k in OUT + ["C" + x for x in OUT]:
            for i in range(npts):
                rep.same(o[k][i], E[k][i], "evaluate", k, EVAL_WHERE, "%s[%d] of the inverse analysis (%s)" % (k, i, what), p)
        for i in range(n):
            rep.check(any(lib.eqv(th[i], s["theta"][i]) for row in Ls for s in row), "twist", "theta-evaluate", EVAL_WHERE,
                      "twist of station %d after evaluate is none of the positions analysed (%s)" % (i, what), p)
        rep.sample("evaluate " + what)
    lib.each_path(rep, fn, on, explore="typical")


def run(rep):
    rep.rule("twist", "returned twist = inflow angle solved with the requested coefficients - requested angle of attack - pitch")
    rep.rule("requested-angle", "at the returned twist the section flies at the requested angle of attack")
    rep.rule("loads", "reported loads and state = those of the section at the returned twist")
    rep.rule("evaluate", "rotor outputs of an inverse analysis = integrals of the inverse section loads")
    rep.rule("twist-inverse", "CCBladeTwist in inverse mode: outputs from the analysis at the inverted twist")
    rep.rule("all-outputs-set", "every output of the inverse component run is set")
    F = pipeline.FLAGSETS
    n0 = rep.paths
    jobs = []
    for k, fl in enumerate(F):
        for w in ("first", "brake", "beyond"):
            for it in (1, 2) if not rep.thorough else (1, 2, 3):
                jobs.append(lambda r, fl=fl, w=w, it=it, k=k: station(r, 2 + k % 2, fl, w, it))
        jobs.append(lambda r, fl=fl: station(r, 2, fl, "first", 1, True))
        jobs.append(lambda r, fl=fl: station(r, 2, fl, "first", 1, False, True))
        jobs.append(lambda r, fl=fl, k=k: evaluate(r, 2 + k % 2, fl, 4 + k % 3, 1 + k % 2))
    for k, x in enumerate(WILD):
        jobs.append(lambda r, k=k, x=x: station(r, 2, F[k % 4], "first", wild=x))
        jobs.append(lambda r, k=k, x=x: station(r, 2, F[(k + 1) % 4], "first", parked=True, wild=x))
    for k in (5, 8):
        jobs.append(lambda r, k=k: station(r, k, F[k % 4], "first"))
    jobs.append(lambda r: twist(r, 3, 1, 1, F[0], 4, 3, inverse=True, thick=1))
    jobs.append(lambda r: twist(r, 2, 2, 1, F[1], 5, 2, inverse=True, inn=True))
    lib.parallel(rep, jobs)
    rep.floor("analyses", rep.paths - n0, 8)
