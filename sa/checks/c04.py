import functools

from checks import kernels, pipeline
from checks.pipeline import Rotor
from core import const
import lib
import world
from pyinterp import PyRaise


def run(rep):
    rep.rule("total-derivative", "Jacobian entry = reverse-mode derivative of the load's own value graph (through the solved inflow angle)")
    rep.rule("parked-derivative", "same for a parked rotor (rotor speed zero)")
    rep.notes.append("section equations enter as an uninterpreted differentiable function; their tangents are discharged "
                     "by the same obligations as C01/C02, repeated here")
    sizes = (4,) if not rep.thorough else (3, 4, 6)
    fl = pipeline.FLAGSETS[:2] if not rep.thorough else pipeline.FLAGSETS
    n0 = rep.paths
    cfg = [(n, f, rot, {}, ()) for n in sizes for f in fl for rot in (True, False)]
    cfg += [(n, fl[0], True, {"Uinf": lib.vec("Uinf", n)}, ()) for n in sizes]
    cfg += [(n, fl[0], rot, {}, ()) for n in (7,) for rot in (True, False)]
    cfg += [(n, fl[0], rot, {}, z) for n in sizes[:1] for z in pipeline.ZEROS for rot in (True, False)
            if rot or rep.thorough and "yaw" not in z and "azimuth" not in z]
    cfg += [(3, f, rot, {}, ()) for f in pipeline.FLAGSETS[len(fl):] + pipeline.MORE for rot in (True, False)]
    cfg += [(3, f, True, {}, (), h) for f in fl[:1] for h in pipeline.HOOKS]
    lib.parallel(rep, [functools.partial(case, c=c) for c in cfg] +
                 [kernels.induction, kernels.relwind, lambda r: kernels.wind(r, (3, 4))])
    rep.floor("pipeline paths", rep.paths - n0, len(cfg))


def case(rep, c):
    n, flags, rot, cs, zeros, hook = (c + (None,))[:6]
    rep.configs += 1
    cs = dict(cs, **({} if rot else {"Omega": const(0)}))
    what = "%s%s%s, %s" % ("rotating" if rot else "parked", ", wind per station" if "Uinf" in cs else "",
                           ", zero " + "/".join(zeros) if zeros else "" if hook is None else ", " + hook[0], ",".join(k for k, v in flags.items() if v))

    def fn():
        R = Rotor(n, flags, True, cs, zeros=zeros, hook=hook[1] if hook else pipeline.sign_hook)
        return R, R.loads()

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        R, (loads, derivs) = p.result
        rep.analysed(R.I)
        pipeline.load_jacobians(rep, p, R, loads, derivs, () if rot else ("dOmega",), what,
                                "total-derivative" if rot else "parked-derivative")
        rep.sample("n=%d %s: %s" % (n, what, p.describe()))
    lib.each_path(rep, fn, on, explore="typical" if n > 6 else "all" if rep.thorough and not zeros else "flip")
