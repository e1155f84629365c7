import itertools
import math

import numpy as np

import lib
import npmodel
import world
from checks import pipeline, refrotor
from checks.pipeline import LOADS_WHERE, Rotor
from checks.refrotor import KEYS
from core import const, lift
from pyinterp import PyRaise

EPS = 1e-6
PTS = (EPS, math.pi / 2, -math.pi / 4, -EPS)


def expected(s):
    """bracket documented for the signs of the residual at eps, pi/2, -pi/4, -eps"""
    if s[0] * s[1] < 0:
        return "first"
    return "brake" if s[2] < 0 and s[3] > 0 else "beyond"


def hook(signs):
    """signs: value of r at a station -> signs at the four points"""
    def h(o, sc):
        if o != "fzero" or sc["phi"].f is None:
            return 0
        s = signs.get(lift(sc["r"]).v)
        if s is None:
            return 0
        for x, sg in zip(PTS, s):
            if abs(sc["phi"].f - x) < 1e-9:
                return sg
        return 0
    return h


def case(rep, pat, flags, iterRe=1, inverse=False, derivatives=False):
    rep.configs += 1
    n = len(pat)
    names = [expected(s) for s in pat]
    what = "%s, iterRe=%d, residual signs %s" % ("inverse" if inverse else "forward", iterRe, pat)

    def fn():
        R = Rotor(n, flags, derivatives, iterRe=iterRe, hook=None)
        signs = {lift(R.v["r"][i]).v: pat[i] for i in range(n)}
        world.HOOKS["ind_sign"] = hook(signs)
        inv = None
        if inverse:
            inv = {k: lib.vec("inv " + k, n) for k in ("cl", "cd", "al")}
            inv["alpha"] = inv.pop("al")
            R.obj.d["inverse_analysis"] = True
            for k in inv:
                R.obj.d[k] = inv[k].copy()
        log = world.HOOKS["brentq_log"] = []
        und = world.HOOKS["ind_undefined"] = []
        opt = world.HOOKS["brentq_opts"] = []
        L, _ = R.loads()
        log, und = list(log), list(und)
        th = R.m("theta")
        world.HOOKS["brentq_log"] = None
        E = refrotor.loads(R, iterRe=iterRe, inverse=inv, choose=lambda i: names[i])
        return R, L, log, opt, th, E, und

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, L, log, opt, th, E, und = p.result
        rep.analysed(R.I)
        if iterRe > 1 and any(lift(ph).f is not None and abs(lift(ph).f - math.pi / 2) < 1e-12 for _, ph in und):
            # |a| > 10 while iterating on the Reynolds number at phi = pi/2: W is divided by the cosine of a right angle,
            # a number that is decided by rounding alone
            rep.skipped = getattr(rep, "skipped", 0) + 1
            return
        br = refrotor.brackets()
        want = [br[x] for x in names]
        got = [(a.v, b.v) for a, b, *_ in log]
        for i in range(n):
            w = {want[i][0].v, want[i][1].v}
            ok = any({a, b} == w for a, b in got)
            rep.check(ok, "bracket", "bracket-" + names[i], LOADS_WHERE,
                      "station %d: the root is not searched in the documented interval '%s' (%s)" % (i, names[i], what), p)
        rep.check(len(got) == n, "bracket", "searches", LOADS_WHERE, "%d root searches for %d stations (%s)" % (len(got), n, what), p)
        for o in opt:
            f = lambda k, d: d if o.get(k) is None else float(lift(o[k]).f)
            rep.check(f("xtol", 0) <= 1e-8 and f("rtol", 0) <= 1e-8 and f("maxiter", 100) >= 100 and o.get("disp", True) is not False,
                      "tolerance", "brentq", LOADS_WHERE, "the search is stopped before the root is resolved: %s" % (o,), p)
        for k in KEYS:
            for i in range(n):
                rep.same(L[k][i], E[i][k], "state", k, LOADS_WHERE,
                         "%s[%d] does not come from the root of this station's residual in '%s' (%s)" % (k, i, names[i], what), p)
        if inverse:
            for i in range(n):
                rep.same(th[i], E[i]["theta"], "state", "theta", LOADS_WHERE, "twist of station %d (%s)" % (i, what), p)
        rep.sample("%s: %s" % (what, names))
    lib.each_path(rep, fn, on, explore="flip" if rep.thorough else "typical", uniform=False)


def run(rep):
    rep.rule("bracket", "interval searched at each station, for every combination of residual signs at eps, pi/2, -pi/4, -eps")
    rep.rule("tolerance", "the search runs to the solver's tolerance and reports failure")
    rep.rule("state", "loads, angles and twist = the section state at the root of the station's own residual in that interval")
    F = pipeline.FLAGSETS
    n0 = rep.paths
    S = list(itertools.product((1, -1), repeat=4))
    jobs = []
    first = (1, -1, 1, 1)
    for k, s in enumerate(S):
        for inv in (False, True):
            # other station: solved in the first bracket / in the brake bracket
            for other in ((first, (-1, -1, -1, 1)) if not rep.thorough else S):
                for pat in ((s, other), (other, s)):
                    jobs.append(lambda r, pat=pat, k=k, inv=inv: case(r, pat, F[k % 4], 1, inv))
        jobs.append(lambda r, s=s, k=k: case(r, (s, first), F[(k + 1) % 4], 2))
        jobs.append(lambda r, s=s, k=k: case(r, (first, s), F[0], 1, False, True))
    lib.parallel(rep, jobs)
    rep.floor("analyses", rep.paths - n0, 30)
