"""OpenMDAO components analysed through a model of their vectors and sub-Jacobians."""
import re

import numpy as np

import core
import lib
import npmodel
import world
from checks import pipeline
from core import PI, const, sym
from npmodel import Jac, Vec

WHERE = "ccblade/ccblade_component.py (%s)"
AOA = [-180.0, -90.0, -10.0, 0.0, 15.0, 60.0, 180.0]

core.SAMPLES.update({
    "V_load": 10.0, "Omega_load": 12.0, "pitch_load": 1.0, "azimuth_load": 40.0, "hub_height": 90.0, "theta_in": 0.1,
    "Uhub": 10.0, "tsr": 7.5, "precurve_in": (0.1, 0.4), "presweep_in": (0.05, 0.2), "airfoils_cl": 0.8,
    "airfoils_cd": 0.05, "airfoils_cm": 0.01, "airfoils_Re": (1e6, 1e6),
})
POS = ("r", "chord", "Rhub", "Rtip", "hub_height", "rho", "mu")


def options(n_span=3, n_aoa=4, n_Re=1, n_tab=1, inverse=False, n_opt=3, flag=False, inn_af=False):
    mo = {"WISDEM": {"RotorSE": dict(n_span=n_span, n_aoa=n_aoa, n_Re=n_Re, n_tab=n_tab, inn_af=inn_af)}}
    oo = {"design_variables": {"blade": {"aero_shape": {"chord": {"n_opt": n_opt},
                                                        "twist": {"n_opt": n_opt, "inverse": inverse, "flag": flag}}}},
          "constraints": {"blade": {"stall": {"margin": sym("margin")}}}}
    return mo, oo


# marks an input whose value is exactly zero (still an independent variable)
ZERO = object()


def fill(name, shp, fixed):
    a = np.empty(shp, dtype=object)
    zero = fixed.get(name) is ZERO
    if name in fixed and not zero:
        v = fixed[name]
        v = npmodel.oarr(v)
        a[...] = v if v.ndim else v[()]
        return a
    for i in np.ndindex(a.shape):
        nm = name if a.size == 1 else "%s[%s]" % (name, ",".join(map(str, i)))
        a[i] = sym(nm, zero=True) if zero else sym(nm, positive=name in POS)
    return a


class Comp:
    def __init__(self, name, opts, fixed=None, disc=None, I=None, opaque=True, hook=pipeline.sign_hook):
        self.name = name
        self.I = I or world.fresh(opaque=opaque)
        if hook:
            npmodel.HOOKS["ind_sign"] = hook
        C = world.cls(self.I, "ccblade_component", name)
        self.obj = C(**opts)
        self.I.getattr(self.obj, "setup")()
        sp = self.I.getattr(self.obj, "setup_partials")
        sp()
        self.om = om = self.obj.d["_om"]
        fixed = fixed or {}
        self.ins = Vec({k: m["shape"] for k, m in om["inputs"].items()},
                       {k: fill(k, m["shape"], fixed) for k, m in om["inputs"].items()})
        self.outs = Vec({k: m["shape"] for k, m in om["outputs"].items()},
                        {k: npmodel.np_zeros(m["shape"]) for k, m in om["outputs"].items()})
        dv = {k: m["val"] for k, m in om["din"].items()}
        dv.update(disc or {})
        self.din = Vec(None, dv, True)
        self.dout = Vec(None, {k: m["val"] for k, m in om["dout"].items()}, True)
        self.J = Jac(om)

    def compute(self):
        self.outs.written = []
        a = [self.ins, self.outs]
        if self.om["din"] or self.om["dout"]:
            a += [self.din, self.dout]
        self.I.getattr(self.obj, "compute")(*a)
        return self.outs

    def partials(self):
        a = [self.ins, self.J]
        if self.om["din"] or self.om["dout"]:
            a += [self.din]
        self.I.getattr(self.obj, "compute_partials")(*a)
        return self.J


def concrete(name):
    return npmodel.oarr([const(x) if not isinstance(x, core.Node) else x for x in name])


def aoa_grid(n):
    if n == 4:
        return concrete([-180, -20, 30, 180])
    return concrete(list(np.linspace(-180, 180, n).astype(int).tolist()))


RE2 = [100000, 10000000]


# ------------------------------------------------------------------ declared units
# exponents of (m, s, kg)
BASE = {"m": (1, 0, 0), "s": (0, 1, 0), "kg": (0, 0, 1), "g": (0, 0, 1), "N": (1, -2, 1), "W": (2, -3, 1), "J": (2, -2, 1),
        "Pa": (-1, -2, 1), "Hz": (0, -1, 0), "rpm": (0, -1, 0), "deg": (0, 0, 0), "rad": (0, 0, 0), "kN": (1, -2, 1),
        "kW": (2, -3, 1), "MW": (2, -3, 1), "MN": (1, -2, 1), "km": (1, 0, 0), "mm": (1, 0, 0), "cm": (1, 0, 0), "h": (0, 1, 0),
        "min": (0, 1, 0), "1": (0, 0, 0), "rev": (0, 0, 0), "unitless": (0, 0, 0)}
TOK = re.compile(r"\s*(\*\*|[*/()]|-?\d+|[A-Za-z]+)")


class BadUnit(Exception):
    pass


def dims(u):
    """dimension of a unit expression"""
    if u is None:
        return (0, 0, 0)
    toks, i = [], 0
    while i < len(u):
        m = TOK.match(u, i)
        if not m:
            raise BadUnit(u)
        toks.append(m.group(1))
        i = m.end()
    pos = [0]

    def peek():
        return toks[pos[0]] if pos[0] < len(toks) else None

    def take():
        pos[0] += 1
        return toks[pos[0] - 1]

    def atom():
        t = take() if peek() is not None else None
        if t == "(":
            d = prod()
            if take() != ")":
                raise BadUnit(u)
        elif t in BASE:
            d = BASE[t]
        else:
            raise BadUnit(u)
        if peek() == "**":
            take()
            k = int(take())
            d = tuple(k * x for x in d)
        return d

    def prod():
        d = atom()
        while peek() in ("*", "/"):
            s = 1 if take() == "*" else -1
            d = tuple(a + s * b for a, b in zip(d, atom()))
        return d
    d = prod()
    if pos[0] != len(toks):
        raise BadUnit(u)
    return d


def scale(u):
    """value of one such unit in m, s, kg, rad"""
    F = {"deg": PI() / 180, "rpm": PI() / 30, "rev": 2 * PI(), "kN": const(1000), "kW": const(1000), "MW": const(10 ** 6),
         "MN": const(10 ** 6), "km": const(1000), "mm": const(1) / 1000, "cm": const(1) / 100, "g": const(1) / 1000,
         "h": const(3600), "min": const(60)}
    r, sign, prev = const(1), 1, None
    if "(" in u:
        a, b = u.split("/(", 1) if "/(" in u else (None, None)
        if a is None or not b.endswith(")"):
            raise BadUnit(u)
        return scale(a) / scale(b[:-1])
    for t in TOK.findall(u):
        if t in "*/":
            sign = 1 if t == "*" else -1
        elif t == "**":
            prev = (prev, sign)
        elif type(prev) is tuple:
            f, sg = prev
            for _ in range(abs(int(t)) - 1):
                r = r * f if sg > 0 else r / f
            prev = f
        else:
            prev = F.get(t, const(1))
            r = r * prev if sign > 0 else r / prev
    return r


# units in which the checks state the meaning of a quantity; everything else in m, s, kg
CANON = dict(precone="deg", tilt="deg", yaw="deg", theta="deg", pitch="deg", pitch_load="deg", azimuth_load="deg", airfoils_aoa="deg",
             Omega_load="rpm", theta_in="rad", aoa_op="rad")
CANON_OUT = dict(alpha="deg", theta="rad")


def factor_of(k, unit, canon):
    """canonical number = declared number * factor (None: the same)"""
    c = canon.get(k)
    if unit is None or unit == c:
        return None
    try:
        if c is not None and dims(c) != dims(unit):
            return None
        f = scale(unit) / (scale(c) if c else const(1))
    except BadUnit:
        return None
    return None if f.v == 1 else f


def meant(C):
    """the component's inputs as numbers in the units of CANON"""
    out = {}
    for k, a in C.ins.v.items():
        f = factor_of(k, C.om["inputs"][k].get("units"), CANON)
        if f is not None:
            a = a.copy()
            for i in np.ndindex(a.shape):
                a[i] = core.lift(a[i]) * f
        out[k] = a
    return out


def declared(C, k, vals):
    f = factor_of(k, C.om["outputs"][k].get("units"), CANON_OUT)
    return vals if f is None else [core.lift(v) / f for v in vals]
