import lib
from checks import geom
from checks.kernels import POS, TT, TT_OUT, WC_VEC, call
from core import sym
from lib import unit_where, vec
from pyinterp import PyRaise


def run(rep):
    rep.rule("trapezoid", "each integral = trapezoidal sum over path length with zero loads at hub and tip")
    sizes = (1, 2, 3, 4) if not rep.thorough else (1, 2, 3, 4, 5, 7)
    n0 = rep.paths
    for n in sizes:
        rep.configs += 1

        def fn():
            g = {k: (vec(k, n, positive=(k == "r")) if k in ("Np", "Tp") + WC_VEC else sym(k, positive=k in POS)) for k in TT}
            return g, call(rep, "thrusttorque", [g[k] for k in TT])

        def on(p):
            if isinstance(p.result, PyRaise):
                raise p.result
            g, out = p.result
            ref = geom.trapezoid(*[g[k] for k in TT])
            rep.check(len(out) == 5, "trapezoid", "thrusttorque", unit_where("thrusttorque"), "%d outputs" % len(out), p)
            for k, a, b in zip(TT_OUT, out, ref):
                rep.same(a, b, "trapezoid", "thrusttorque:%s" % k, unit_where("thrusttorque"),
                         "%s (n=%d) is not the trapezoidal integral of the documented integrand" % (k, n), p)
            rep.sample("n=%d: %s" % (n, p.describe()))
        lib.each_path(rep, fn, on)
    rep.floor("runs", rep.paths - n0, len(sizes))
