import itertools

import core
import lib
import world
from checks.bemmodel import Section, q
from checks.kernels import FLAGS, IND_ARGS, POS, RW_ARGS, call
from core import absv, const, cos, sin, sqrt, sym
from lib import unit_where
from pyinterp import PyRaise


def induction(rep):
    n0 = rep.paths
    seen = set()
    combos = [dict(zip(FLAGS, f)) for f in itertools.product((1, 0), repeat=4)] + [None]
    for flags in combos:
        rep.configs += 1
        full = flags or dict.fromkeys(FLAGS, 1)
        d = ",".join("%s=%d" % x for x in full.items()) + ("" if flags else " (defaults)")

        def fn():
            g = {k: sym(k, positive=k in POS) for k in IND_ARGS}
            S = Section(g, full)
            out = call(rep, "inductionfactors", [g[k] for k in IND_ARGS], flags or {})
            return S, S.regime(), out

        def on(p):
            if isinstance(p.result, PyRaise):
                raise p.result
            S, reg, out = p.result
            seen.add(reg)
            wh = unit_where("inductionfactors")
            exp = (S.resid(reg), S.a(reg), S.ap())
            if not rep.check(len(out) == 3, "section-model", "inductionfactors", wh, "returns %d values" % len(out), p):
                return
            for nm, o, e in zip(("fzero", "a", "ap"), out, exp):
                rep.same(o, e, "section-model", "inductionfactors:%s" % nm, wh,
                         "%s in the %s regime is not the documented model (%s)" % (nm, reg, d), p)
            rep.sample("%s [%s] %s" % (reg, d, p.describe()))
        lib.each_path(rep, fn, on)
    rep.floor("paths through the induction kernel", rep.paths - n0, 17)
    rep.floor("regimes reached", len(seen), 3)


def relwind(rep):
    n0 = rep.paths

    def fn():
        g = {k: sym(k, positive=k in POS) for k in RW_ARGS}
        phi, a, ap, Vx, Vy = g["phi"], g["a"], g["ap"], g["Vx"], g["Vy"]
        if absv(a) > 10:
            W = Vy * (q(1) + ap) / cos(phi)
        elif absv(ap) > 10:
            W = Vx * (q(1) - a) / sin(phi)
        else:
            u, w = Vx * (q(1) - a), Vy * (q(1) + ap)
            W = sqrt(u * u + w * w)
        exp = (phi - (g["theta"] + g["pitch"]), W, g["rho"] * W * g["chord"] / g["mu"])
        return exp, call(rep, "relativewind", [g[k] for k in RW_ARGS])

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        exp, out = p.result
        for nm, o, e in zip(("alpha", "W", "Re"), out, exp):
            rep.same(o, e, "relative-wind", "relativewind:%s" % nm, unit_where("relativewind"),
                     "%s is not the documented relation" % nm, p)
    lib.each_path(rep, fn, on)
    rep.floor("paths through the relative wind kernel", rep.paths - n0, 1)


def run(rep):
    rep.rule("section-model", "residual and induction factors = the published equations of the regime the state lies in")
    rep.rule("relative-wind", "angle of attack, relative speed and Reynolds number = the documented relations")
    induction(rep)
    relwind(rep)
