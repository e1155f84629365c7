import numpy as np

import core
import lib
import world
from checks import pipeline
from checks.c05 import OUT
from checks.pipeline import EVAL_WHERE, LOADS_WHERE, Rotor, sign_hook
from core import const, lift
from pyinterp import PyRaise

ZERO = "Np Tp a ap alpha".split()
DOCKEYS = "Np Tp a ap alpha Cl Cd Cn Ct W Re".split()


class BadAirfoil(world.OpaqueAirfoil):
    """airfoil whose coefficients are not a number"""

    def __init__(self, tag):
        world.OpaqueAirfoil.__init__(self, tag)
        self.nan = core.sym("nan of " + tag)

    def evaluate(self, alpha, Re, return_cm=False):
        return tuple(x + self.nan for x in world.OpaqueAirfoil.evaluate(self, alpha, Re, return_cm))

    def derivatives(self, alpha, Re):
        return tuple(x + self.nan for x in world.OpaqueAirfoil.derivatives(self, alpha, Re))


BadAirfoil.__module__ = "npmodel"


class Tainted:
    def __init__(self):
        self.memo = {}
        self.bad = {}

    def __call__(self, node):
        st = [lift(node)]
        while st:
            n = st[-1]
            if id(n) in self.memo:
                st.pop()
                continue
            if n.v is not None and n.v in self.bad:
                self.memo[id(n)] = (True, n)
                st.pop()
                continue
            todo = [a for a in n.args if isinstance(a, core.Node) and id(a) not in self.memo]
            if n.op == "root" and isinstance(n.aux, dict):
                todo += [n.aux[k] for k in ("R",) if id(n.aux[k]) not in self.memo]
            if todo:
                st += todo
                continue
            st.pop()
            self.memo[id(n)] = (any(self.memo[id(a)][0] for a in n.args if isinstance(a, core.Node)), n)
        return self.memo[id(lift(node))][0] if id(lift(node)) in self.memo else self.memo[id(node)][0]


def other(tag):
    return world.OpaqueAirfoil("other " + tag)


class Setup:
    """rotor in which the solver fails and/or the coefficients are NaN at station j"""

    def __init__(self, n, j, solver, bad, flags, deriv, consts, inverse=False, alt=False, iterRe=1, wind=False):
        I = world.fresh()
        af = [world.OpaqueAirfoil(str(i)) for i in range(n)]
        t = Tainted()
        if alt:
            af = [af[i] if i == j else other(str(i)) for i in range(n)]
        if wind:
            # wind speed given at each station, undefined at one of them
            nan = core.sym("nan of the wind")
            U = lib.vec("Uinf", n)
            if bad:
                U[j] = U[j] + nan
            consts = dict(consts or {}, Uinf=U)
            t.bad[nan.v] = 1
        elif bad:
            af[j] = BadAirfoil(str(j))
            t.bad[af[j].nan.v] = 1
        self.R = R = Rotor(n, flags, deriv, consts, I=I, af=af, iterRe=iterRe)
        if inverse:
            R.obj.d["inverse_analysis"] = True
            for k, s in (("cl", "cl"), ("cd", "cd"), ("alpha", "al")):
                x = lib.vec("inv " + s, n)
                if bad and k != "alpha":
                    x[j] = x[j] + af[j].nan if isinstance(af[j], BadAirfoil) else x[j]
                R.obj.d[k] = x
        self.t = t
        if bad:
            world.HOOKS["isnan"] = t
            core.NOTNUM = t
        self.n_search = 0
        if solver:
            def h(a, b):
                self.n_search += 1
                return (self.n_search - 1) % n == j
            world.HOOKS["brentq_raises"] = h


def warned(p):
    return any(e[0] in ("warn", "log", "print") for e in p.ctx.events)


def case(rep, what, solver, bad, j, n=3, flags=None, deriv=False, consts=None, inverse=False, iterRe=1, wind=False):
    rep.configs += 1
    what = "%s at station %d of %d%s%s" % (what, j, n, ", derivatives" if deriv else "", ", inverse" if inverse else "")
    box = {}

    def fn():
        S = Setup(n, j, solver, bad, flags, deriv, consts, inverse, iterRe=iterRe, wind=wind)
        n0 = len(core.CTX.events)
        L, D = S.R.loads()
        th = S.R.m("theta")
        box["w"] = [e for e in core.CTX.events[n0:] if e[0] in ("warn", "log")]
        # the same rotor without failure
        G = Setup(n, j, False, False, flags, deriv, consts, inverse, iterRe=iterRe, wind=wind)
        L0, D0 = G.R.loads()
        # other rotor at the other stations, same failure
        A = Setup(n, j, solver, bad, flags, deriv, consts, inverse, alt=True, iterRe=iterRe, wind=wind)
        L1, D1 = A.R.loads()
        return S, L, D, L0, D0, L1, D1, th

    def on(p):
        if isinstance(p.result, PyRaise):
            e = p.result
            rep.check(False, "continues", "distributedAeroLoads", "%s:%s" % tuple(e.where[:2]) if e.where else LOADS_WHERE,
                      "the analysis ends with %s: %s (%s)" % (type(e.exc).__name__, e.exc, what), p)
            return
        S, L, D, L0, D0, L1, D1, th = p.result
        rep.ok("continues")
        rep.analysed(S.R.I)
        if solver:
            rep.check(len(box["w"]) > 0, "warned", "distributedAeroLoads", LOADS_WHERE, "no warning is issued (%s)" % what, p)
        for k in DOCKEYS:
            for i in range(n):
                if i != j:
                    rep.same(L[k][i], L0[k][i], "others-unchanged", k, LOADS_WHERE, "%s[%d] changes (%s)" % (k, i, what), p)
            if bad and k in ZERO:
                rep.check(lift(L[k][j]).q == 0, "zeroed", k, LOADS_WHERE, "%s[%d] is not reported as zero (%s)" % (k, j, what), p)
            if not bad:
                rep.same(L[k][j], L1[k][j], "own-data", k, LOADS_WHERE,
                         "%s[%d] depends on the airfoils of other stations (%s)" % (k, j, what), p)
        if deriv:
            for dn in ("dNp", "dTp"):
                for k in D0[dn]:
                    for i in range(n):
                        if i != j:
                            x = lib.differ(D0[dn][k][i], D[dn][k][i])
                            rep.check(x is None, "others-unchanged", "%s[%s]" % (dn, k), LOADS_WHERE,
                                      "row %d of %s[%s] changes at %s (%s)" % (i, dn, k, x, what), p)
        rep.sample(what)
    lib.each_path(rep, fn, on, explore="typical")


def evaluate(rep, what, solver, bad, j, n=3, flags=None, consts=None, nsec=4, deriv=False):
    rep.configs += 1
    what = "%s at station %d, evaluate%s" % (what, j, ", derivatives" if deriv else "")

    def fn():
        S = Setup(n, j, solver, bad, flags, deriv, consts)
        S.R.obj  # built
        o, d = S.R.evaluate(*[np.array([S.R.s[k]], dtype=object) for k in ("Uinf", "Omega", "pitch")], coefficients=True)
        # reference: this rotor with loads of station j zero
        return S, o, d

    def on(p):
        if isinstance(p.result, PyRaise):
            e = p.result
            rep.check(False, "continues", "evaluate", "%s:%s" % tuple(e.where[:2]) if e.where else EVAL_WHERE,
                      "the evaluation ends with %s: %s (%s)" % (type(e.exc).__name__, e.exc, what), p)
            return
        S, o, d = p.result
        rep.ok("continues")
        rep.analysed(S.R.I)
        for k in OUT + ["C" + k for k in OUT]:
            for x in np.ravel(o[k]):
                rep.check(lift(x).v is not None and not S.t(lift(x)), "totals-finite", k, EVAL_WHERE,
                          "%s is not a number although the failing station is reported without loads (%s)" % (k, what), p)
    lib.each_path(rep, fn, on, explore="typical")


def no_wind(rep, what, n, flags, consts, deriv, rotating):
    """sections without wind carry no load and no derivative"""
    rep.configs += 1

    def fn():
        R = Rotor(n, flags, deriv, consts)
        L, D = R.loads()
        return R, L, D

    def on(p):
        if isinstance(p.result, PyRaise):
            e = p.result
            rep.check(False, "continues", "distributedAeroLoads", "%s:%s" % tuple(e.where[:2]) if e.where else LOADS_WHERE,
                      "the analysis ends with %s: %s (%s)" % (type(e.exc).__name__, e.exc, what), p)
            return
        R, L, D = p.result
        rep.analysed(R.I)
        for k in ZERO:
            for i in range(n):
                rep.check(lift(L[k][i]).q == 0, "no-wind", k, LOADS_WHERE, "%s[%d] is not zero (%s)" % (k, i, what), p)
        for dn in D:
            for k, x in D[dn].items():
                for idx in np.ndindex(np.shape(x)):
                    rep.check(lift(x[idx]).q == 0, "no-wind", "%s[%s]" % (dn, k), LOADS_WHERE, "%s is not zero (%s)" % (list(idx), what), p)
    lib.each_path(rep, fn, on, explore="typical")


def run(rep):
    rep.rule("continues", "no exception leaves the analysis")
    rep.rule("warned", "a failed search is reported to the user")
    rep.rule("others-unchanged", "results and derivatives of every other station = those without the failure")
    rep.rule("zeroed", "loads, induction factors and angle of attack of a station without a number are zero")
    rep.rule("own-data", "a station whose search fails is reported from its own data")
    rep.rule("totals-finite", "rotor totals do not contain the failing station's undefined loads")
    rep.rule("no-wind", "sections without wind: zero loads and derivatives")
    F = pipeline.FLAGSETS
    z = const(0)
    n0 = rep.paths
    jobs = []
    add = lambda f, *a, **k: jobs.append(lambda r: f(r, *a, **k))
    for n in (3, 4) if rep.thorough else (3,):
        for j in range(n):
            for d in (False, True):
                for fl in F if rep.thorough else F[:2]:
                    add(case, "search fails", True, False, j, n, fl, d)
                    add(case, "search fails, loads not a number", True, True, j, n, fl, d)
                    add(case, "loads not a number", False, True, j, n, fl, d)
                    add(case, "parked, loads not a number", False, True, j, n, fl, d, {"Omega": z})
            for d in (False, True):
                add(case, "parked, wind not a number", False, True, j, n, F[d], d, {"Omega": z}, wind=True)
                add(case, "search fails, wind not a number", True, True, j, n, F[d], d, wind=True)
            add(case, "search fails", True, False, j, n, F[0], False, inverse=True)
            add(case, "search fails, loads not a number", True, True, j, n, F[0], False, inverse=True)
            add(case, "search fails, loads not a number, iterRe=2", True, True, j, n, F[0], False, iterRe=2)
            add(evaluate, "search fails, loads not a number", True, True, j, n, F[0])
            add(evaluate, "parked, loads not a number", False, True, j, n, F[1], {"Omega": z})
    nw = {"Uinf": z, "presweep": lib.np.array([z, z, z], dtype=object)}
    for fl in F:
        for d in (False, True):
            add(no_wind, "no wind, turning", 3, fl, nw, d, True)
            add(no_wind, "no wind, parked", 3, fl, dict(nw, Omega=z), d, False)
    lib.parallel(rep, jobs)
    rep.floor("analyses", rep.paths - n0, 15)
