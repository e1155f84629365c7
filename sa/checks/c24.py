import numpy as np

import core
import lib
import npmodel
from checks import omcomp, pipeline
from checks import c23
from checks.c23 import fixed_polar, q
from checks.omcomp import Comp, WHERE, dims
from core import const, lift, sym
from pyinterp import PyRaise

core.SAMPLES.update({"unit m": 1.0, "unit s": 1.0, "unit kg": 1.0})


def factor(d):
    f = const(1)
    for nm, e in zip(("unit m", "unit s", "unit kg"), d):
        b = sym(nm, positive=True)
        for _ in range(abs(e)):
            f = f * b if e > 0 else f / b
    return f


def show(d):
    return "m^%d s^%d kg^%d" % d


def case(rep, name, opts, fixed, disc, what, explore="typical"):
    rep.configs += 1

    def fn():
        out = []
        I = None
        core.CTX.homog = True
        for scaled in (False, True):
            C = Comp(name, opts(), fixed(), disc, I=I, opaque=False, hook=None)
            I = C.I
            if scaled:
                for k, m in C.om["inputs"].items():
                    f = factor(dims(m.get("units")))
                    a = C.ins.v[k]
                    for i in np.ndindex(a.shape):
                        a[i] = lift(a[i]) * f
            C.compute()
            out.append(C)
        return out

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        A, B = p.result
        rep.analysed(A.I)
        for k, m in A.om["outputs"].items():
            d = dims(m.get("units"))
            f = factor(d)
            a, b = A.outs.v[k].reshape(-1), B.outs.v[k].reshape(-1)
            bad = [i for i in range(len(a)) if not lib.eqv(lift(a[i]) * f, b[i])]
            rep.check(not bad, "dimension", "%s.%s" % (name, k), WHERE % (name + ".setup"),
                      "output %s declared in %r does not change like %s when the units of the inputs change (%s)" % (k, m.get("units"), show(d), what), p)
        rep.sample("%s %s: %d inputs, %d outputs" % (name, what, len(A.om["inputs"]), len(A.om["outputs"])))
    lib.each_path(rep, fn, on, explore=explore)


class Scale:
    """report of C23's comparison, counted here as: values are numbers in the declared unit"""

    def __init__(self, rep):
        self.rep = rep

    def __getattr__(self, k):
        return getattr(self.rep, k)

    def check(self, ok, rule, construct, where, detail, path=None):
        if rule == "all-outputs-set":
            return ok
        return self.rep.check(ok, "scale", construct, where, detail, path)

    def same(self, a, b, rule, construct, where, detail, path=None):
        return self.rep.same(a, b, "scale", construct, where, detail, path)


def run(rep):
    rep.rule("scale", "each output is the solver's answer expressed in its declared unit for inputs read in their declared units")
    rep.rule("dimension", "scaling the metre, second and kilogram of the inputs scales each output by the dimension of its declared unit")
    F = pipeline.FLAGSETS
    jobs = []

    def opts(twist=False, **k):
        def f():
            mo, oo = omcomp.options(**k)
            return dict(modeling_options=mo, opt_options=oo) if twist else dict(modeling_options=mo)
        return f
    jobs.append(lambda r: case(r, "CCBladeGeometry", lambda: dict(n_span=3), lambda: {}, None, "n_span=3"))
    sets = [(0, 2, 1, 4), (3, 3, 3, 5)] if not rep.thorough else [(k, n, nre, ns) for k in range(4) for n, nre, ns in ((2, 1, 4), (3, 3, 5))]
    for k, n, nre, ns in sets:
        for name in ("CCBladeLoads", "CCBladeEvaluate"):
            jobs.append(lambda r, k=k, n=n, nre=nre, ns=ns, name=name: case(
                r, name, opts(n_span=n, n_Re=nre), lambda: fixed_polar(nre), dict(F[k], nBlades=3, nSector=ns),
                "n_span=%d, n_Re=%d, switches %d" % (n, nre, k)))
        for inv in (False, True):
            for inn in ((False, True) if inv else (False,)):
                jobs.append(lambda r, k=k, n=n, nre=nre, ns=ns, inv=inv, inn=inn: case(
                    r, "CCBladeTwist", opts(True, n_span=n, n_Re=nre, inverse=inv, inn_af=inn),
                    lambda: dict(fixed_polar(nre), rthick=[const(30)] * n, s_opt_theta=omcomp.concrete([0, q(2, 5), 1]),
                                 r=omcomp.concrete([3, 20, 41][:n])), dict(F[k], nBlades=3, nSector=ns),
                    "%s, n_span=%d, n_Re=%d, switches %d" % ("inverse" if inv else "forward", n, nre, k)))
    for a in ((3, 1, 1, F[0], 4, 3), (2, 2, 2, F[3], 5, 2)) if rep.thorough else ((2, 1, 1, F[0], 4, 3),):
        jobs.append(lambda r, a=a: c23.loads(Scale(r), *a))
        jobs.append(lambda r, a=a: c23.evaluate(Scale(r), *a))
        jobs.append(lambda r, a=a: c23.twist(Scale(r), *a))
        jobs.append(lambda r, a=a: c23.twist(Scale(r), *a, inverse=True))
    jobs.append(lambda r: c23.geometry(Scale(r), 3))
    lib.parallel(rep, jobs)
    rep.floor("components", rep.configs, 9)
