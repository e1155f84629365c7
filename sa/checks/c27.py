import numpy as np

import core
import lib
import npmodel
import world
from checks import pipeline
from checks.c14 import AL, PA, pol, table
from checks.omcomp import Comp, concrete, options
from checks.pipeline import EVAL_WHERE, LOADS_WHERE, Rotor
from core import const, sym
from fractions import Fraction as Fr
from pyinterp import PyRaise

THOROUGH = False
AF = "ccblade/ccblade.py (CCAirfoil)"
EX = "ccblade/airfoilprep.py (Polar.extrapolate)"
RD = "ccblade/airfoilprep.py (Airfoil.initFromAerodynFile)"
TW = "ccblade/ccblade_component.py (CCBladeTwist.compute)"


def expect(jobs, *a, **k):
    jobs.append(lambda rep: judge(rep, *a, **k))


def judge(rep, rule, construct, where, what, fn, raises, explore="flip", **kw):
    """every path of fn raises (or none does)"""
    rep.configs += 1

    def on(p):
        r = p.result
        if isinstance(r, PyRaise):
            if raises:
                rep.ok(rule)
                rep.sample("%s: %s: %s" % (what, type(r.exc).__name__, str(r.exc)[:80]))
            else:
                rep.check(False, "supported-accepted", construct, "%s:%s" % tuple(r.where[:2]) if r.where else where,
                          "%s ends with %s: %s" % (what, type(r.exc).__name__, r.exc), p)
            return
        if raises:
            rep.check(False, rule, construct, where, "%s: an answer is returned instead of an exception" % what, p)
        else:
            rep.ok("supported-accepted")
        if hasattr(r, "calls"):
            rep.analysed(r)
    lib.each_path(rep, fn, on, explore=explore, **kw)


def rotor(rep):
    F = pipeline.FLAGSETS
    z = const(0)
    ax = dict(tilt=z, yaw=z, shearExp=z)

    def lo(it, d, c=None, fl=F[0], af=None):
        def fn():
            R = Rotor(2, fl, d, c, iterRe=it)
            R.loads()
            return R.I
        return fn

    def ev(it, d, c=None, co=False):
        def fn():
            R = Rotor(2, F[0], d, c, iterRe=it)
            R.evaluate(*[np.array([R.s[k]], dtype=object) for k in ("Uinf", "Omega", "pitch")], coefficients=co)
            return R.I
        return fn
    for it in (2, 3) + ((5,) if THOROUGH else ()):
        for k, fl in enumerate(F):
            expect(rep, "derivatives-iterRe", "distributedAeroLoads", LOADS_WHERE,
                   "loads with derivatives and iterRe=%d (%s)" % (it, fl), lo(it, True, None, fl), True, "flip")
        for c in (None, ax):
            for co in (False, True):
                expect(rep, "derivatives-iterRe", "evaluate", EVAL_WHERE,
                       "evaluate with derivatives and iterRe=%d" % it, ev(it, True, c, co), True)
    expect(rep, "", "distributedAeroLoads", LOADS_WHERE, "loads with iterRe=2", lo(2, False), False)
    expect(rep, "", "distributedAeroLoads", LOADS_WHERE, "loads with derivatives and iterRe=1", lo(1, True), False)
    expect(rep, "", "evaluate", EVAL_WHERE, "evaluate with derivatives and iterRe=1", ev(1, True, ax, True), False)
    expect(rep, "", "evaluate", EVAL_WHERE, "evaluate with iterRe=2", ev(2, False, ax, True), False)

    def used(first):
        """derivatives asked for after the rotor has been used"""
        def fn():
            R = Rotor(2, F[0], False, None, iterRe=2)
            R.loads()
            R.obj.d["derivatives"] = True
            R.loads()
            return R.I
        return fn
    expect(rep, "derivatives-iterRe", "distributedAeroLoads", LOADS_WHERE, "derivatives switched on later, iterRe=2", used(1), True)

    def wrong(n, m):
        def fn():
            R = Rotor(n, F[0], False, {"Uinf": lib.vec("Uinf", m)})
            R.loads()
            return R.I
        return fn
    for n, m in ((3, 2), (3, 4)):
        expect(rep, "wind-per-station", "distributedAeroLoads", LOADS_WHERE, "%d wind speeds for %d stations" % (m, n), wrong(n, m), True)


def airfoil(rep):
    def mk(na, nre, cm, flat=False):
        def fn():
            I = world.fresh()
            C = world.cls(I, "ccblade", "CCAirfoil")
            t = lambda k: lib.vec(k, na) if flat else table(k, na, nre)
            C(concrete(AL[:na]), concrete([10 ** (5 + k) for k in range(nre)]), t("cl"), t("cd"), **(dict(cm=t("cm")) if cm else {}))
            return I
        return fn
    for cm in (False, True):
        for nre in (0, 1, 2, 4):
            for na in (0, 1):
                if na == 0 and nre == 0:
                    continue
                expect(rep, "two-angles", "CCAirfoil", AF, "airfoil with %d angles, %d Reynolds numbers" % (na, nre),
                       mk(na, max(nre, 1), cm, nre == 0), True)
            for na in (2, 3, 6):
                expect(rep, "", "CCAirfoil", AF, "airfoil with %d angles, %d Reynolds numbers" % (na, nre),
                       mk(na, max(nre, 1), cm, nre == 0), False)


def extrapolate(rep):
    def mk(al, cdmin=None, nalpha=None, AR=None):
        def fn():
            I = world.fresh()
            p = pol(I, "p", al)
            k = {}
            if cdmin is not None:
                k["cdmin"] = cdmin
            if AR is not None:
                k["AR"] = AR
            I.getattr(p, "extrapolate")(sym("cdmax"), **k)
            return I
        return fn

    def viaaf(al, cdmin):
        def fn():
            I = world.fresh()
            A = world.cls(I, "airfoilprep", "Airfoil")([pol(I, "p", PA), pol(I, "q", al)])
            I.getattr(A, "extrapolate")(sym("cdmax"), None, cdmin)
            return I
        return fn
    for al in ([-20, 0, 90.5], [-20, 0, 95], [-20, 0, 180], [-91, 0, 20], [-180, -20, 20], [-180, 0, 180], [-120, 0, 120], [-20, 0, 20, 90.0625]):
        a = [const(Fr(x)) for x in al]
        expect(rep, "extrapolation-range", "extrapolate", EX, "data from %s to %s degrees" % (al[0], al[-1]), mk(a), True)
        expect(rep, "extrapolation-range", "Airfoil.extrapolate", EX, "one polar from %s to %s degrees" % (al[0], al[-1]), viaaf(a, const(Fr(1, 100))), True)
    for al in ([-20, 0, 20], [-89, 0, 30], [-30, 0, 89], PA):
        expect(rep, "", "extrapolate", EX, "data from %s to %s degrees" % (al[0], al[-1]), mk(al), False)
    for c in (-1, Fr(-1, 1000), Fr(-1, 10 ** 9), -100):
        for AR in (None, const(12)):
            expect(rep, "negative-drag-floor", "extrapolate", EX, "drag floor %s" % c, mk(PA, const(c), AR=AR), True)
        expect(rep, "negative-drag-floor", "Airfoil.extrapolate", EX, "drag floor %s" % c, viaaf(PA, const(c)), True)
    for c in (0, Fr(1, 1000), 1):
        expect(rep, "", "extrapolate", EX, "drag floor %s" % c, mk(PA, const(c)), False)


HEAD = "AeroDyn airfoil file\nsome airfoil\ncomment\n"
PARAM = "".join("%s\tparameter\n" % x for x in ("0.0", "15.0", "0.0", "-3.0", "6.5", "1.5", "0.0", "0.01"))


def aerodyn(tables, eot=True):
    s = HEAD + "%d\tnumber of tables\n" % len(tables)
    for k, rows in enumerate(tables):
        s += "%s\tReynolds number in millions\n" % (1.0 + k) + PARAM + "".join(r + "\n" for r in rows)
        if eot:
            s += "EOT\n"
    return s


ROWS = ["-180 0.0 0.02 0.0", "-10\t-0.5\t0.012\t0.01", "  0.0   0.2   0.01   -0.02  ", "10 1.1 0.015 -0.03", "180 0.0 0.02 0.0"]


def files(rep):
    def mk(text, via):
        def fn():
            I = world.fresh()
            npmodel.HOOKS["fs"].files["a.dat"] = text
            C = world.cls(I, "airfoilprep" if via == "Airfoil" else "ccblade", via)
            I.getattr(C, "initFromAerodynFile")("a.dat")
            return I
        return fn
    BAD = ["10", "10 1.1", "10 1.1 0.015", "10 1.1 0.015 n/a", "", "10,1.1,0.015,-0.03", "   "]
    for via in ("Airfoil", "CCAirfoil"):
        for nt in (1, 2):
            expect(rep, "", via, RD, "well-formed file with %d tables" % nt, mk(aerodyn([ROWS] * nt), via), False)
            for b in BAD:
                for t in range(nt):
                    for j in (0, 2, 5):
                        T = [list(ROWS) for _ in range(nt)]
                        T[t].insert(j, b)
                        expect(rep, "short-rows", via, RD, "row %r in table %d at position %d" % (b, t, j), mk(aerodyn(T), via), True)


def twist(rep):
    def mk(inverse, flag, inn):
        def fn():
            mo, oo = options(n_span=3, inverse=inverse, flag=flag, inn_af=inn)
            C = Comp("CCBladeTwist", dict(modeling_options=mo, opt_options=oo), fixed=TWIST_FIXED)
            C.compute()
            return C.I
        return fn
    for inn in (False, True):
        expect(rep, "twist-mode", "CCBladeTwist", TW, "twist optimised and inverted (inn_af=%s)" % inn, mk(True, True, inn), True)
    expect(rep, "", "CCBladeTwist", TW, "twist optimised", mk(False, True, False), False)


TWIST_FIXED = {}


def run(rep):
    rep.rule("derivatives-iterRe", "derivatives of a rotor with several Reynolds iterations end in an exception on every path")
    rep.rule("wind-per-station", "a vector of wind speeds that does not fit the stations is rejected")
    rep.rule("two-angles", "an airfoil with fewer than two angles is rejected")
    rep.rule("extrapolation-range", "extrapolating data beyond +/-90 degrees is rejected")
    rep.rule("negative-drag-floor", "a negative drag floor is rejected")
    rep.rule("short-rows", "AeroDyn rows with missing or unreadable columns are rejected")
    rep.rule("twist-mode", "twist both optimised and inverted is rejected")
    rep.rule("supported-accepted", "the neighbouring supported request is answered")
    global THOROUGH
    THOROUGH = rep.thorough
    n0 = rep.paths
    jobs = []
    for part in (rotor, airfoil, extrapolate, files, twist):
        part(jobs)
    lib.parallel(rep, jobs)
    rep.floor("requests", rep.paths - n0, 100)
