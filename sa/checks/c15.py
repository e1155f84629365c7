import numpy as np

import core
import lib
import npmodel
import world
from checks import c14, pipeline
from checks.c14 import AL, H, PA, pol, polar_data, table
from checks.omcomp import Comp, aoa_grid, concrete, options, RE2
from checks.pipeline import Rotor
from core import const, sym
from lib import vec
from pyinterp import Inst, PyRaise

ROTOR = "ccblade/ccblade.py (CCBlade)"


def snap(x, I=None):
    """deep picture of caller-owned data"""
    if isinstance(x, np.ndarray):
        return ("array", x.shape, [snap(v) for v in x.reshape(-1)])
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, [snap(v, I) for v in x])
    if isinstance(x, dict):
        return ("dict", {k: snap(v, I) for k, v in x.items()})
    if isinstance(x, Inst):
        names = ("Re", "alpha", "cl", "cd", "cm", "polars", "x", "y", "z")
        return ("object", id(x), {k: snap(x.d[k], I) for k in names if k in x.d})
    if x is None or isinstance(x, (str, bool)):
        return x
    try:
        return ("value", lib.val(x))
    except Exception:
        return ("id", id(x))


def arrays(x, seen=None):
    """all arrays reachable from a value or object"""
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, np.ndarray):
        yield x
        if x.dtype == object:
            return
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from arrays(v, seen)
    elif isinstance(x, dict):
        for v in x.values():
            yield from arrays(v, seen)
    elif isinstance(x, Inst):
        yield from arrays(x.d, seen)


def objects(x, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    if isinstance(x, Inst):
        yield x
        yield from objects(x.d, seen)
    elif isinstance(x, (list, tuple)):
        for v in x:
            yield from objects(v, seen)
    elif isinstance(x, dict):
        for v in x.values():
            yield from objects(v, seen)


def watch(rep, p, rule, where, name, before, after):
    for k in before:
        rep.check(before[k] == after[k], rule, "%s:%s" % (name, k), where, "%s changed by %s" % (k, name), p)


def run_case(rep, rule, where, name, mk, act, explore="typical"):
    """mk() -> (interpreter, caller data dict); act(I, data) performs the calls"""
    rep.configs += 1

    def fn():
        I, data = mk()
        b = {k: snap(v) for k, v in data.items()}
        act(I, data)
        return I, b, {k: snap(v) for k, v in data.items()}

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        I, b, a = p.result
        rep.analysed(I)
        watch(rep, p, rule, where, name, b, a)
        rep.sample("%s: %s" % (name, ", ".join(b)))
    lib.each_path(rep, fn, on, explore=explore)


# ------------------------------------------------------------------ rotor
def rotor_case(rep, name, n, form, coincide, deriv, inverse=False, parked=False):
    def mk():
        I = world.fresh()
        npmodel.HOOKS["ind_sign"] = pipeline.sign_hook
        d = {}
        pos = [2, 10, 30, 60][:n] if n == 4 else [2, 10, 60]
        d["r"] = concrete(pos) if coincide else vec("r", n, positive=True)
        d["chord"], d["theta"] = vec("chord", n, positive=True), vec("theta", n)
        d["precurve"], d["presweep"] = vec("precurve", n), vec("presweep", n)
        d["af"] = [world.OpaqueAirfoil("a%d" % i) for i in range(n)]
        d["Uinf"], d["Omega"], d["pitch"] = vec("Uinf", 2), vec("Omega", 2), vec("pitch", 2)
        if parked:
            d["Omega"] = npmodel.oarr([const(0), const(0)])
        if inverse:
            d["cl"], d["cd"], d["alpha"] = vec("inv cl", n), vec("inv cd", n), vec("inv al", n)
        if form == "list":
            for k in ("r", "chord", "theta", "precurve", "presweep", "Uinf", "Omega", "pitch"):
                d[k] = list(d[k])
        return I, d

    def act(I, d):
        C = world.cls(I, "ccblade", "CCBlade")
        if coincide:
            Rh, Rt, ct, st = d["r"][0], d["r"][-1], d["precurve"][-1], d["presweep"][-1]
        else:
            Rh, Rt = sym("Rhub", positive=True), sym("Rtip", positive=True)
            ct, st = sym("precurveTip"), sym("presweepTip")
        o = C(d["r"], d["chord"], d["theta"], d["af"], Rh, Rt, B=sym("B", positive=True), precone=sym("precone"),
              tilt=sym("tilt"), yaw=sym("yaw"), precurve=d["precurve"], precurveTip=ct, presweep=d["presweep"],
              presweepTip=st, derivatives=deriv, nSector=4)
        if inverse:
            o.d["inverse_analysis"] = True
            o.d["cl"], o.d["cd"], o.d["alpha"] = d["cl"], d["cd"], d["alpha"]
        I.getattr(o, "distributedAeroLoads")(d["Uinf"][0], d["Omega"][0], d["pitch"][0], sym("azimuth"))
        I.getattr(o, "evaluate")(d["Uinf"], d["Omega"], d["pitch"], coefficients=True)
    run_case(rep, "rotor-arguments", ROTOR, name, mk, act)


def rotors(rep):
    jobs = []
    for form in ("array", "list"):
        for co in (False, True):
            for dv in (False, True):
                nm = "CCBlade (%s%s%s)" % (form, ", stations at hub and tip" if co else "", ", derivatives" if dv else "")
                jobs.append(lambda r, nm=nm, form=form, co=co, dv=dv: rotor_case(r, nm, 4 if co else 2, form, co, dv))
    jobs.append(lambda r: rotor_case(r, "CCBlade (inverse)", 2, "array", False, False, inverse=True))
    jobs.append(lambda r: rotor_case(r, "CCBlade (parked)", 2, "array", False, True, parked=True))
    lib.parallel(rep, jobs)


# ------------------------------------------------------------------ airfoils and polars
def ccairfoils(rep):
    for nre in (1, 2, 3):
        for cm in (False, True):
            for form in ("array", "list"):
                def mk():
                    I = world.fresh()
                    d = dict(alpha=concrete(AL), Re=concrete([10 ** (5 + i) for i in range(nre)]), cl=table("cl", 6, nre),
                             cd=table("cd", 6, nre), x=concrete([0, 1]), y=concrete([0, 0]))
                    if cm:
                        d["cm"] = table("cm", 6, nre)
                    if form == "list":
                        d["alpha"], d["Re"] = list(d["alpha"]), list(d["Re"])
                    return I, d

                def act(I, d):
                    C = world.cls(I, "ccblade", "CCAirfoil")
                    k = dict(cm=d["cm"]) if cm else {}
                    o = C(d["alpha"], d["Re"], d["cl"], d["cd"], x=d["x"], y=d["y"], **k)
                    a, r = vec("alpha", 2), vec("Re", 2, positive=True)
                    d["query alpha"], d["query Re"] = a, r
                    I.getattr(o, "evaluate")(a[0], r[0], return_cm=cm)
                    I.getattr(o, "derivatives")(a[0], r[0])
                rep.configs += 1

                def fn():
                    I, d = mk()
                    keep = list(d)
                    b = {k: snap(d[k]) for k in keep}
                    act(I, d)
                    return I, b, {k: snap(d[k]) for k in keep}

                def on(p):
                    if isinstance(p.result, PyRaise):
                        raise p.result
                    I, b, a = p.result
                    rep.analysed(I)
                    watch(rep, p, "airfoil-arguments", "ccblade/ccblade.py (CCAirfoil)", "CCAirfoil", b, a)
                lib.each_path(rep, fn, on, explore="typical")


def polars(rep):
    w, cmx = sym("weight"), sym("cdmax")
    R, c, t = sym("r_over_R", positive=True), sym("chord_over_r", positive=True), sym("tsr", positive=True)
    QA = [-20, -5, 5, 20]

    def mkP():
        I = world.fresh()
        return I, {"polar": pol(I, "p"), "other": pol(I, "q", QA), "same angles": pol(I, "u")}

    def mkA():
        I = world.fresh()
        A = world.cls(I, "airfoilprep", "Airfoil")
        P = world.cls(I, "airfoilprep", "Polar")
        mk = lambda tag, re, al: P(const(re), concrete(al), *polar_data(tag, len(al)))
        lst = [mk("p", 3000000, PA), mk("q", 1000000, QA)]
        l2 = [mk("s", 2000000, [-20, 0, 20]), mk("t", 500000, PA)]
        d = {"polar list": lst, "other list": l2}
        d["airfoil"], d["other"] = A(lst), A(l2)
        d["same angles"] = A([mk("u", 2000000, PA), mk("v", 500000, PA)])
        d["one"] = A([mk("x", 2000000, PA)])
        d["alpha"], d["shuffled"], d["falling"] = concrete([-15, 0, 15]), concrete([5, -15, 15, 0]), concrete([15, 5, -5])
        return I, d
    core.SAMPLES.update({"t cl": (-0.8, 0.5), "t cd": (0.03, 0.004), "t cm": (-0.04, 0.01)})

    def g(I, o, n):
        return I.getattr(o, n)
    P = {"blend": lambda I, d: g(I, d["polar"], "blend")(d["other"], w),
         "correction3D": lambda I, d: g(I, d["polar"], "correction3D")(R, c, t, 15, -12, 12),
         "extrapolate": lambda I, d: g(I, d["polar"], "extrapolate")(cmx),
         "unsteadyparam": lambda I, d: g(I, d["polar"], "unsteadyparam")(),
         "extrapolate with aspect ratio": lambda I, d: g(I, d["polar"], "extrapolate")(cmx, AR=sym("AR", positive=True)),
         "correction3D hardly": lambda I, d: g(I, d["polar"], "correction3D")(R, c, t, -15, -12, 12)}
    A = {"blend": lambda I, d: g(I, d["airfoil"], "blend")(d["other"], w),
         "correction3D": lambda I, d: g(I, d["airfoil"], "correction3D")(R, c, t, 15, -12, 12),
         "extrapolate": lambda I, d: g(I, d["airfoil"], "extrapolate")(cmx),
         "interpToCommonAlpha": lambda I, d: g(I, d["airfoil"], "interpToCommonAlpha")(),
         "interpToCommonAlpha(alpha)": lambda I, d: g(I, d["airfoil"], "interpToCommonAlpha")(d["alpha"]),
         "createDataGrid": lambda I, d: g(I, d["airfoil"], "createDataGrid")(),
         "getPolar below": lambda I, d: g(I, d["airfoil"], "getPolar")(const(100000)),
         "getPolar at": lambda I, d: g(I, d["airfoil"], "getPolar")(const(3000000)),
         "getPolar between": lambda I, d: g(I, d["airfoil"], "getPolar")(const(2000000)),
         "getPolar above": lambda I, d: g(I, d["airfoil"], "getPolar")(const(9000000)),
         "writeToAerodynFile": lambda I, d: g(I, d["airfoil"], "writeToAerodynFile")("out.dat")}
    for X, o in ((P, "polar"), (A, "airfoil")):
        for k in (0, 1):
            for q in ("other", "same angles"):
                X["blend weight %d, %s" % (k, q)] = lambda I, d, o=o, k=k, q=q: g(I, d[o], "blend")(d[q], const(k))
        X["blend with itself"] = lambda I, d, o=o: g(I, d[o], "blend")(d[o], w)
    for k in ("shuffled", "falling"):
        A["interpToCommonAlpha(%s)" % k] = lambda I, d, k=k: g(I, d["airfoil"], "interpToCommonAlpha")(d[k])
    A["interpToCommonAlpha of one polar"] = lambda I, d: g(I, d["one"], "interpToCommonAlpha")()
    A["createDataGrid of one polar"] = lambda I, d: g(I, d["one"], "createDataGrid")()
    A["getPolar of one polar"] = lambda I, d: g(I, d["one"], "getPolar")(const(2000000))
    for cls, mk, ops in (("Polar", mkP, P), ("Airfoil", mkA, A)):
        for nm, op in ops.items():
            rep.configs += 1

            def fn():
                I, d = mk()
                b = {k: snap(v) for k, v in d.items()}
                r = op(I, d)
                src = {id(a) for a in arrays(d)}
                sh = [a for a in arrays(r) if any(np.shares_memory(a, s) for s in arrays(d))]
                own = {id(o) for o in objects(d)}
                so = [o for o in objects(r) if id(o) in own]
                return I, b, {k: snap(v) for k, v in d.items()}, sh, so

            def on(p):
                if isinstance(p.result, PyRaise):
                    raise p.result
                I, b, a, sh, so = p.result
                rep.analysed(I)
                wh = "ccblade/airfoilprep.py (%s.%s)" % (cls, nm.split()[0].split("(")[0])
                watch(rep, p, "polar-source", wh, "%s.%s" % (cls, nm), b, a)
                rep.check(not sh, "result-independent", "%s.%s" % (cls, nm), wh, "result shares arrays with its source", p)
                rep.check(not so, "result-independent", "%s.%s" % (cls, nm), wh, "result contains objects of its source", p)
                rep.sample("%s.%s" % (cls, nm))
            lib.each_path(rep, fn, on, explore="typical")
    # the constructors keep their own copy
    def mk():
        I = world.fresh()
        d = dict(alpha=concrete(PA), **dict(zip(("cl", "cd", "cm"), polar_data("p", 5))))
        return I, d

    def fn():
        I, d = mk()
        P_ = world.cls(I, "airfoilprep", "Polar")
        o = P_(const(1000000), d["alpha"], d["cl"], d["cd"], d["cm"])
        sh = [k for k, v in d.items() if any(np.shares_memory(v, a) for a in arrays(o))]
        return I, sh

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        rep.analysed(p.result[0])
        rep.check(not p.result[1], "result-independent", "Polar.__init__", "ccblade/airfoilprep.py (Polar.__init__)",
                  "the polar shares %s with the caller" % p.result[1], p)
    lib.each_path(rep, fn, on, explore="typical")


def airfoil_lists(rep):
    """the constructor neither reorders nor keeps the list of polars it is given"""
    for nm, order in (("by Reynolds number", (1, 2, 3)), ("in falling order", (3, 2, 1)), ("in mixed order", (2, 3, 1)), ("one polar", (2,))):
        for form in (list, tuple):
            rep.configs += 1

            def fn():
                I = world.fresh()
                P = world.cls(I, "airfoilprep", "Polar")
                pl = form(P(const(10 ** 6 * k), concrete(PA), *polar_data("pqs"[k - 1], len(PA))) for k in order)
                d = {"polar list": pl}
                b = snap(pl)
                o = world.cls(I, "airfoilprep", "Airfoil")(pl)
                mid = snap(pl)
                held = form is list and any(x is pl for x in walk(o))
                I.getattr(o, "getPolar")(const(1500000))
                I.getattr(o, "interpToCommonAlpha")()
                I.getattr(o, "createDataGrid")()
                return I, b, mid, snap(pl), held

            def on(p):
                if isinstance(p.result, PyRaise):
                    raise p.result
                I, b, mid, a, held = p.result
                rep.analysed(I)
                w = "ccblade/airfoilprep.py (Airfoil.__init__)"
                what = "polars given %s as %s" % (nm, form.__name__)
                rep.check(b == mid, "polar-source", "Airfoil.__init__", w, "the list given is changed by the constructor (%s)" % what, p)
                rep.check(b == a, "polar-source", "Airfoil", w, "the list given is changed by the airfoil (%s)" % what, p)
                rep.check(not held, "result-independent", "Airfoil.__init__", w, "the airfoil keeps the caller's list (%s)" % what, p)
                rep.sample(what)
            lib.each_path(rep, fn, on, explore="typical")


def walk(x, seen=None):
    seen = set() if seen is None else seen
    if id(x) in seen:
        return
    seen.add(id(x))
    yield x
    if isinstance(x, (list, tuple)):
        for v in x:
            yield from walk(v, seen)
    elif isinstance(x, dict):
        for v in x.values():
            yield from walk(v, seen)
    elif isinstance(x, Inst):
        yield from walk(x.d, seen)


def vectors(rep):
    def mk():
        I = world.fresh()
        d = {k: vec(k, 2) for k in ("x", "y", "z", "u", "v", "w")}
        d["azimuth"] = vec("azimuth", 2)
        return I, d

    def act(I, d):
        D = world.cls(I, "csystem", "DirectionVector")
        a, b = D(d["x"], d["y"], d["z"]), D(d["u"], d["v"], d["w"])
        for nm in ("__iadd__", "__isub__", "__imul__"):
            I.getattr(a, nm)(b)
            I.getattr(a, nm)(sym("k"))
        I.getattr(I.getattr(a, "hubToAzimuth")(d["azimuth"]), "azimuthToBlade")(d["azimuth"])
        I.getattr(a, "cross")(b)
        I.getattr(a, "cross_deriv_array")(b)
    run_case(rep, "vector-arguments", "ccblade/csystem.py (DirectionVector)", "DirectionVector", mk, act)


def components(rep):
    def case(rep, name, nre):
        def mk():
            if name == "CCBladeGeometry":
                C = Comp(name, dict(n_span=2))
                mo = {}
            else:
                mo, oo = options(n_span=2, n_Re=nre)
                fixed = dict(airfoils_aoa=aoa_grid(4), airfoils_Re=concrete(RE2[:nre]))
                C = Comp(name, dict(modeling_options=mo), fixed, dict(pipeline.FLAGSETS[0], nBlades=3))
            return C.I, {"inputs": C.ins.v, "modeling options": mo, "discrete inputs": C.din.v, "_comp": C}

        def fn():
            I, d = mk()
            C = d.pop("_comp")
            b = {k: snap(v) for k, v in d.items()}
            C.compute()
            C.partials()
            return I, b, {k: snap(v) for k, v in d.items()}

        def on(p):
            if isinstance(p.result, PyRaise):
                raise p.result
            I, b, a = p.result
            rep.analysed(I)
            watch(rep, p, "component-inputs", "ccblade/ccblade_component.py (%s)" % name, name, b, a)
        lib.each_path(rep, fn, on, explore="typical")
    lib.parallel(rep, [lambda r, n=n, m=m: case(r, n, m) for n, m in (
        ("CCBladeGeometry", 1), ("CCBladeLoads", 1), ("CCBladeLoads", 2), ("CCBladeEvaluate", 1))])


def run(rep):
    rep.rule("rotor-arguments", "arrays and lists given to the rotor constructor and its analyses are the same after the calls")
    rep.rule("airfoil-arguments", "tables given to CCAirfoil are the same after construction and queries")
    rep.rule("polar-source", "polars, airfoils and lists are the same after every preparation step")
    rep.rule("result-independent", "prepared polars and airfoils share no array or object with their sources")
    rep.rule("vector-arguments", "arrays given to DirectionVector are the same after in-place operations")
    rep.rule("component-inputs", "component inputs and options are the same after compute and compute_partials")
    n0 = rep.paths
    rotors(rep)
    ccairfoils(rep)
    polars(rep)
    airfoil_lists(rep)
    vectors(rep)
    components(rep)
    rep.floor("cases", rep.paths - n0, 40)
