import itertools

import core
import lib
import world
from checks.bemmodel import Section, q
from checks.kernels import FLAGS, IND_ARGS, POS, call
from core import const, grad, sqrt, sym
from lib import unit_where
from pyinterp import PyRaise


def on_surface(rep, flags, kstar, name, check):
    """run the kernel with lift chosen so that the documented loading parameter k equals kstar(F)"""
    def oc_fn():
        core.CTX.surface = True
        g = {k: sym(k, positive=k in POS or k == "phi") for k in IND_ARGS}
        S0 = Section(dict(g, cl=const(0)), dict(flags, usecd=0))
        F = S0.F
        ks, root = kstar(F)
        if root is not None:
            core.CTX.roots[(root * root).v] = root.v
        cn = q(4) * F * S0.s * S0.s * ks / S0.sigma
        cl = (cn - (g["cd"] * S0.s if flags["usecd"] else const(0))) / S0.c
        g["cl"] = cl
        out = call(rep, "inductionfactors", [g[k] for k in IND_ARGS], flags)
        return F, out, g

    res = []

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        res.append((p, p.result))
    # the valuation is the same on every path, so values of different paths are comparable
    lib.each_path(rep, oc_fn, on)
    check(res)


def run(rep):
    rep.rule("switch-continuity", "on the surface k = 2/3 both sides of the switch give the same value")
    rep.rule("switch-location", "the kernel really branches on that surface (otherwise nothing was compared)")
    rep.rule("singular-limit", "at the singularity of the empirical formula the value is the formula's limit")
    n0 = rep.paths
    cnt = [0]
    for f in itertools.product((1, 0), repeat=4):
        flags = dict(zip(FLAGS, f))
        rep.configs += 1
        d = ",".join("%s=%d" % x for x in flags.items())
        wh = unit_where("inductionfactors")

        def at_switch(res):
            sides = {}
            for p, (F, out, g) in res:
                key = tuple(b for dsc, b, fr, w in p.ctx.taken if dsc.startswith("atom:('boundary'"))
                sides.setdefault(key, []).append((p, out))
            both = len(sides) >= 2
            if not both:
                rep.notes.append("no branch exactly at k=2/3 for %s" % d)
            # a kernel that does not branch there is continuous there
            rep.ok("switch-location")
            allp = [x for v in sides.values() for x in v]
            p0, o0 = allp[0]
            for p, o in allp:
                for nm, i in (("residual", 0), ("axial induction", 1), ("tangential induction", 2)):
                    rep.check(lib.val(o[i]) is not None and lib.eqv(o[i], o0[i]), "switch-continuity", "inductionfactors:" + nm, wh,
                              "%s jumps at the momentum/empirical switch (%s)" % (nm, d), p)
            rep.sample("k=2/3 [%s]: %d sides compared" % (d, len(sides)))

        def at_sing(res):
            for p, (F, out, g) in res:
                S = Section(g, flags)
                core.set_ctx(p.ctx)
                if core.CTX.implied(S.k - q(2, 3)) <= 0:
                    continue      # the formula is not in use there
                cnt[0] += 1
                lim = q(1) - q(1) / (q(2) * (q(5, 3) - F))
                rep.same(out[1], lim, "singular-limit", "inductionfactors:a", wh,
                         "axial induction at the singular point is not the limit of the formula (%s)" % d, p)
                rep.same(out[0], S.s / (q(1) - lim) - S.c / (S.lam * (q(1) + S.ap())), "singular-limit", "inductionfactors:fzero", wh,
                         "residual at the singular point is not the limit of the formula (%s)" % d, p)
            rep.sample("g3=0 [%s]: %d paths" % (d, len(res)))
        on_surface(rep, flags, lambda F: (q(2, 3), F), "k=2/3", at_switch)
        on_surface(rep, flags, lambda F: ((q(25, 9) - q(2) * F) / (q(2) * F), q(5, 3) - F), "g3=0", at_sing)
        # the kernel's own switches, wherever they are
        own(rep, flags, d)
    rep.floor("singular states", cnt[0], 6)
    rep.floor("states on switching surfaces", rep.paths - n0, 16)


def own(rep, flags, d):
    """switching surfaces found in the kernel itself: momentum/empirical branch conditions linear in lift"""
    rep.rule("own-switch-continuity", "on every surface k = const where the kernel itself branches, both sides agree")
    ks = set()

    def fn():
        g = {k: sym(k, positive=k in POS or k == "phi") for k in IND_ARGS}
        S = Section(g, flags)
        call(rep, "inductionfactors", [g[k] for k in IND_ARGS], flags)
        return S

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        S = p.result
        for gd, wh in p.ctx.guards:
            for sg in (1, -1):
                t = core.ratrec(core.fsub(S.k.v, gd.v) if sg == 1 else core.fadd(S.k.v, gd.v))
                if t is not None:
                    ks.add(t)
    lib.each_path(rep, fn, on)
    wh = unit_where("inductionfactors")
    for t in sorted(ks):
        def cmp(res):
            p0, (F, o0, g) = res[0]
            for p, (F, o, g) in res:
                for nm, i in (("residual", 0), ("axial induction", 1)):
                    rep.check(lib.val(o[i]) is not None and lib.eqv(o[i], o0[i]), "own-switch-continuity", "inductionfactors:" + nm, wh,
                              "%s jumps at the kernel's switch k=%s (%s)" % (nm, t, d), p)
        on_surface(rep, flags, lambda F: (q(t.numerator, t.denominator), F), "k=%s" % t, cmp)
