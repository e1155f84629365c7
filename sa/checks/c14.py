from fractions import Fraction as Fr

import numpy as np

import core
import lib
import npmodel
import world
from checks import pipeline
from checks.omcomp import Comp, aoa_grid, concrete, options, RE2
from checks.pipeline import EVAL_WHERE, LOADS_WHERE, Rotor
from core import const, sym
from lib import vec
from pyinterp import PyRaise

core.SAMPLES.update({"Uinf'": 8.0, "Omega'": 9.0, "pitch'": 2.0, "azimuth'": 75.0, "inv cl": 0.7, "inv cd": 0.01, "inv al": 0.1})
ARG = ("Uinf", "Omega", "pitch", "azimuth")


def second(s, ch):
    o = {k: s[k] for k in ARG}
    for k in ch:
        o[k] = const(0) if k == "Omega0" else sym(k + "'")
    if "Omega0" in ch:
        o["Omega"] = const(0)
        o.pop("Omega0", None)
    return o


def ops_rotor():
    """name -> function of (rotor, base symbols)"""
    O = {}
    for ch in ((), ("Uinf",), ("Omega",), ("pitch",), ("azimuth",), ("Omega0",)):
        def f(R, ch=ch):
            return R.loads(**second(R.s, ch))
        O["loads(%s)" % (",".join(x + " changed" for x in ch) or "base")] = f
    for k, o in (("turned", dict(azimuth=400)), ("backwards", dict(azimuth=-100, pitch=-3)), ("feathered", dict(pitch=91)), ("fast", dict(Omega=40, Uinf=3)), ("round", dict(pitch=5, Omega=10, Uinf=9, azimuth=30)),
                 ("almost the same", dict(pitch=Fr(5001, 1000), Omega=Fr(100001, 10000), Uinf=Fr(90001, 10000), azimuth=Fr(3001, 100)))):
        O["loads(%s)" % k] = lambda R, o=o: R.loads(**dict(second(R.s, ()), **{q: const(x) for q, x in o.items()}))
    for ch in ((), ("Uinf",), ("Omega",), ("pitch",)):
        def f(R, ch=ch):
            o = second(R.s, ch)
            return R.evaluate(o["Uinf"], o["Omega"], o["pitch"], coefficients=bool(ch))
        O["evaluate(%s)" % (",".join(x + " changed" for x in ch) or "base")] = f

    def two(R):
        a, b = second(R.s, ()), second(R.s, ("Uinf", "pitch"))
        A = lambda k: npmodel.oarr([a[k], b[k]])
        return R.evaluate(A("Uinf"), A("Omega"), A("pitch"), coefficients=True)
    O["evaluate(two points)"] = two
    return O


def snap(x):
    """a copy of everything a caller can hold on to"""
    if isinstance(x, dict):
        return {k: snap(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [snap(v) for v in x]
    return x.copy() if isinstance(x, np.ndarray) else x


def fresh_run(rep, name, build, seqs, rule, where, what="", keeps=True):
    """each sequence: [(op name, op), ...]; the result of the last op must equal that of the same op on a new object of a
    newly imported program"""
    def one(seq, rep):
        rep.configs += 1
        title = " ; ".join(n for n, _ in seq)

        def fn():
            h = build()
            r = None
            held = []
            for nm, op in seq:
                r = op(h)
                held.append((nm, r, snap(r)))
            g = build()
            return h, r, seq[-1][1](g), held

        def on(p):
            if isinstance(p.result, PyRaise):
                raise p.result
            h, r, f, held = p.result
            if hasattr(h, "I"):
                rep.analysed(h.I)
            for nm, x, y in held[:-1] if keeps else ():
                d = lib.differ(y, x)
                rep.check(d is None, rule, "%s:%s" % (name, nm.split("(")[0]), where,
                          "the result of %s in [%s] is changed by the later calls at %s %s" % (nm, title, d, what), p)
            d = lib.differ(f, r)
            rep.check(d is None, rule, "%s:%s" % (name, seq[-1][0].split("(")[0]), where,
                      "%s after [%s] differs from a first call at %s %s" % (seq[-1][0], " ; ".join(n for n, _ in seq[:-1]), d, what), p)
            rep.sample("%s: %s" % (name, title))
        lib.each_path(rep, fn, on, explore="typical")
    lib.parallel(rep, [lambda sub, seq=seq: one(seq, sub) for seq in seqs])


def rotor(rep):
    O = ops_rotor()
    names = list(O)
    z = const(0)
    ax = dict(tilt=z, yaw=z, shearExp=z)
    for deriv in (False, True):
        build = lambda deriv=deriv: Rotor(2, pipeline.FLAGSETS[0], deriv, dict(ax) if deriv else None)
        firsts = names if rep.thorough else ["loads(base)", "loads(Omega0 changed)", "evaluate(base)"]
        seqs = [[(a, O[a]), (b, O[b])] for a in firsts for b in names]
        trip = [("loads(round)", "loads(almost the same)"), ("evaluate(two points)", "loads(Omega0 changed)", "loads(base)"), ("loads(base)", "loads(pitch changed)", "loads(base)"),
                ("loads(pitch changed)", "loads(Omega0 changed)", "evaluate(base)"),
                ("loads(base)", "loads(base)", "loads(azimuth changed)"), ("loads(turned)", "loads(turned)", "loads(base)"),
                ("loads(turned)", "loads(backwards)", "evaluate(base)"), ("loads(fast)", "loads(feathered)", "loads(base)")]
        seqs += [[(n, O[n]) for n in t] for t in trip]
        if deriv and not rep.thorough:
            seqs = [s for s in seqs if s[0][0] != "evaluate(base)" or s[-1][0].startswith("evaluate")]
        fresh_run(rep, "CCBlade", build, seqs, "rotor-history", LOADS_WHERE, "(derivatives)" if deriv else "")

    def inv():
        R = Rotor(2, pipeline.FLAGSETS[0], False)
        R.obj.d["inverse_analysis"] = True
        R.obj.d["cl"], R.obj.d["cd"], R.obj.d["alpha"] = vec("inv cl", 2), vec("inv cd", 2), vec("inv al", 2)
        return R
    # the twist found by an inverse run belongs to its result
    I = {n: (lambda R, f=f: (f(R), R.m("theta"))) for n, f in O.items()}
    seqs = [[(a, I[a]), (b, I[b])] for a in ("loads(base)", "evaluate(base)") for b in names if "two" not in b]
    fresh_run(rep, "CCBlade (inverse)", inv, seqs, "inverse-history", LOADS_WHERE, keeps=False)


def pair_of_rotors(rep):
    """two rotors sharing an interpreter and interleaved calls against each alone"""
    rep.configs += 1

    def fn():
        I = world.fresh()
        A = Rotor(2, pipeline.FLAGSETS[0], True, I=I, tag="A.")
        B = Rotor(2, pipeline.FLAGSETS[3], True, I=I, tag="B.")
        a1 = A.loads()
        b1 = B.loads(Omega=const(0))
        b2 = B.loads()
        a2 = A.loads()
        A0 = Rotor(2, pipeline.FLAGSETS[0], True, tag="A.")
        a0 = A0.loads()
        B0 = Rotor(2, pipeline.FLAGSETS[3], True, tag="B.")
        b0 = B0.loads()
        B0 = Rotor(2, pipeline.FLAGSETS[3], True, tag="B.")
        bp = B0.loads(Omega=const(0))
        return I, [("first rotor", a0, a1), ("first rotor again", a0, a2), ("second rotor parked", bp, b1), ("second rotor", b0, b2)]

    def on(p):
        if isinstance(p.result, PyRaise):
            raise p.result
        rep.analysed(p.result[0])
        for nm, f, r in p.result[1]:
            d = lib.differ(f, r)
            rep.check(d is None, "objects-independent", "CCBlade", LOADS_WHERE, "%s: differs from the rotor alone at %s" % (nm, d), p)
    lib.each_path(rep, fn, on, explore="typical")


# ------------------------------------------------------------------ airfoils
class H:
    def __init__(self, I, obj, **k):
        self.I, self.obj = I, obj
        self.__dict__.update(k)

    def m(self, n):
        return self.I.getattr(self.obj, n)


def table(tag, na, nre):
    a = np.empty((na, nre), dtype=object)
    for i in np.ndindex(a.shape):
        a[i] = sym("%s[%d,%d]" % ((tag,) + i))
    return a


AL = [-180, -20, 0, 20, 90, 180]


def ccairfoil(nre, cm):
    def build():
        I = world.fresh()
        C = world.cls(I, "ccblade", "CCAirfoil")
        Re = concrete(RE2[:nre])
        k = dict(cm=table("cm", 6, nre)) if cm else {}
        return H(I, C(concrete(AL), Re, table("cl", 6, nre), table("cd", 6, nre), **k))
    return build


def airfoil(rep):
    a, b = sym("alpha"), sym("alpha'")
    r, q = sym("Re", positive=True), sym("Re'", positive=True)
    O = {"evaluate(alpha,Re)": lambda h: h.m("evaluate")(a, r), "evaluate(alpha',Re)": lambda h: h.m("evaluate")(b, r),
         "evaluate(alpha,Re')": lambda h: h.m("evaluate")(a, q), "evaluate(cm)": lambda h: h.m("evaluate")(a, r, return_cm=True),
         "derivatives(alpha,Re)": lambda h: h.m("derivatives")(a, r), "derivatives(alpha',Re')": lambda h: h.m("derivatives")(b, q)}
    n = list(O)
    for nre, cm in ((1, False), (2, True)) if not rep.thorough else ((1, False), (1, True), (2, False), (2, True)):
        seqs = [[(x, O[x]), (y, O[y])] for x in n for y in n]
        fresh_run(rep, "CCAirfoil", ccairfoil(nre, cm), seqs, "airfoil-history", "ccblade/ccblade.py (CCAirfoil)")

    def shared():
        """an airfoil without moment data made before and after one with"""
        I = world.fresh()
        C = world.cls(I, "ccblade", "CCAirfoil")
        mk = lambda k: C(concrete(AL), concrete(RE2[:2]), table("cl", 6, 2), table("cd", 6, 2), **k)
        return H(I, None, mk=mk)
    M = {"plain": lambda h: I_eval(h, h.mk({}), a, r), "with moments": lambda h: I_eval(h, h.mk(dict(cm=table("cm", 6, 2))), a, r)}

    def I_eval(h, o, a, r):
        return h.I.getattr(o, "evaluate")(a, r, return_cm=True)
    seqs = [[(x, M[x]), (y, M[y])] for x in M for y in M]
    fresh_run(rep, "CCAirfoil objects", shared, seqs, "objects-independent", "ccblade/ccblade.py (CCAirfoil)")


PA = [-20, -10, 0, 10, 20]


def polar_data(tag, n):
    return [vec("%s %s" % (tag, k), n) for k in ("cl", "cd", "cm")]


core.SAMPLES.update({"p cl": (-1.0, 0.5), "p cd": (0.02, 0.004), "p cm": (-0.05, 0.01), "q cl": (-0.9, 0.45),
                     "q cd": (0.03, 0.004), "q cm": (-0.04, 0.01), "p Re": 1e6, "q Re": 2e6, "weight": 0.3, "weight'": 0.6,
                     "cdmax": 1.3, "cdmax'": 1.5, "r_over_R": 0.4, "chord_over_r": 0.2, "tsr": 7.0, "AR": 12.0})


def pol(I, tag, al=PA):
    P = world.cls(I, "airfoilprep", "Polar")
    return P(sym(tag + " Re", positive=True), concrete(al), *polar_data(tag, len(al)))


def view(I, o):
    """everything observable of a polar or an airfoil"""
    if "polars" in o.d:
        return [view(I, p) for p in o.d["polars"]]
    return {k: I.getattr(o, k) for k in ("Re", "alpha", "cl", "cd", "cm")}


def polars(rep):
    cm, cm2 = sym("cdmax"), sym("cdmax'")
    w, w2 = sym("weight"), sym("weight'")
    R, c, t = sym("r_over_R", positive=True), sym("chord_over_r", positive=True), sym("tsr", positive=True)

    def build():
        I = world.fresh()
        return H(I, pol(I, "p"), other=pol(I, "q", [-20, -5, 5, 20]))

    def build_af():
        I = world.fresh()
        A = world.cls(I, "airfoilprep", "Airfoil")
        h = H(I, A([pol(I, "p"), pol(I, "q", [-20, -5, 5, 20])]))
        h.other = A([pol(I, "s", [-20, 0, 20])])
        return h
    core.SAMPLES.update({"s cl": (-0.8, 0.6), "s cd": (0.03, 0.004), "s cm": (-0.04, 0.01), "s Re": 1.5e6, "Re?": 1.7e6})
    O = {"extrapolate(cdmax)": lambda h: view(h.I, h.m("extrapolate")(cm)),
         "extrapolate(cdmax')": lambda h: view(h.I, h.m("extrapolate")(cm2)),
         "extrapolate(AR)": lambda h: view(h.I, h.m("extrapolate")(cm, AR=sym("AR", positive=True))),
         "correction3D()": lambda h: view(h.I, h.m("correction3D")(R, c, t, 15, -12, 12)),
         "blend(weight)": lambda h: view(h.I, h.m("blend")(h.other, w)),
         "blend(weight')": lambda h: view(h.I, h.m("blend")(h.other, w2)),
         "observe": lambda h: (view(h.I, h.obj), view(h.I, h.other))}
    P = dict(O)
    P["unsteadyparam()"] = lambda h: h.m("unsteadyparam")()
    A = dict(O)
    A["getPolar(Re)"] = lambda h: view(h.I, h.m("getPolar")(sym("Re?", positive=True)))
    A["interpToCommonAlpha()"] = lambda h: view(h.I, h.m("interpToCommonAlpha")())
    A["createDataGrid()"] = lambda h: h.m("createDataGrid")()
    for nm, ops, bld in (("Polar", P, build), ("Airfoil", A, build_af)):
        n = list(ops)
        seqs = [[(x, ops[x]), (y, ops[y])] for x in n if x != "observe" for y in n]
        fresh_run(rep, nm, bld, seqs, "polar-history", "ccblade/airfoilprep.py (%s)" % nm)


# ------------------------------------------------------------------ components
def components(rep):
    def mk(name, nre=1):
        def build():
            if name == "CCBladeGeometry":
                return Comp(name, dict(n_span=2))
            mo, oo = options(n_span=2, n_Re=nre)
            fixed = dict(airfoils_aoa=aoa_grid(4), airfoils_Re=concrete(RE2[:nre]))
            return Comp(name, dict(modeling_options=mo), fixed, dict(pipeline.FLAGSETS[0], nBlades=3))
        return build

    def change(C):
        for k in C.ins.v:
            if not k.startswith("airfoils"):
                a = C.ins.v[k].reshape(-1)
                for j in range(a.size):
                    nm = "%s'%s" % (k, "" if a.size == 1 else "[%d]" % j)
                    a[j] = sym(nm, positive=k in ("r", "chord", "Rhub", "Rtip", "hub_height", "rho", "mu"))

    def swap(C, which):
        if not hasattr(C, "saved"):
            C.saved = {k: v.copy() for k, v in C.ins.v.items()}
            change(C)
            C.chg = {k: v.copy() for k, v in C.ins.v.items()}
        for k, v in (C.saved if which == 0 else C.chg).items():
            C.ins.v[k][...] = v

    def comp(which):
        def f(C):
            swap(C, which)
            C.compute()
            return {k: v.copy() for k, v in C.outs.v.items()}
        return f

    def part(which):
        def f(C):
            swap(C, which)
            C.compute()
            C.partials()
            return {"%s,%s" % (o, i): C.J.dense((o, i)) for o in C.outs.v for i in C.ins.v}
        return f
    for k in list(core.SAMPLES):
        core.SAMPLES.setdefault(k + "'", core.SAMPLES[k])
    O = {"compute(x)": comp(0), "compute(y)": comp(1), "compute_partials(x)": part(0), "compute_partials(y)": part(1)}
    names = ["CCBladeGeometry", "CCBladeLoads", "CCBladeEvaluate"]
    for nm in names:
        n = list(O)
        seqs = [[(x, O[x]), (y, O[y])] for x in n for y in n]
        if nm == "CCBladeEvaluate" and not rep.thorough:
            seqs = [[("compute(x)", O["compute(x)"]), ("compute(y)", O["compute(y)"])],
                    [("compute_partials(x)", O["compute_partials(x)"]), ("compute(y)", O["compute(y)"])]]
        fresh_run(rep, nm, mk(nm), seqs, "component-history", "ccblade/ccblade_component.py (%s)" % nm)


def run(rep):
    rep.rule("rotor-history", "a call after other calls = the same call on a newly built rotor, every returned value and derivative")
    rep.rule("inverse-history", "same in inverse mode, including the twist found")
    rep.rule("objects-independent", "interleaved objects = each object alone")
    rep.rule("airfoil-history", "CCAirfoil queries do not depend on earlier queries")
    rep.rule("polar-history", "polar and airfoil operations do not depend on earlier operations")
    rep.rule("component-history", "components: compute and compute_partials do not depend on earlier runs")
    n0 = rep.paths
    rotor(rep)
    pair_of_rotors(rep)
    airfoil(rep)
    polars(rep)
    components(rep)
    rep.floor("call sequences", rep.paths - n0, 100)
