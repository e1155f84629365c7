"""The analysed program: sources parsed from /repo on every run, plus the library models."""
import ast
import os

import numpy as np

import core
import fortran
import npmodel
from core import Node, Unsupported, const, lift
from npmodel import FS, HOOKS, asarr, oarr
from pyinterp import Interp, Model, Module, PyRaise, is_arr

REPO = os.environ.get("CCBLADE_REPO", "/repo")
_cache = {}


def source(rel):
    p = os.path.join(REPO, rel)
    with open(p) as f:
        return f.read()


def tree(rel):
    if rel not in _cache:
        _cache[rel] = ast.parse(source(rel), rel)
    return _cache[rel]


def loader(name):
    rel = name.replace(".", "/")
    for cand in (rel + ".py", rel + "/__init__.py"):
        p = os.path.join(REPO, cand)
        if name.split(".")[0] == "ccblade" and os.path.exists(p):
            return tree(cand), cand
    return None


BEM = "ccblade/src/bem.f90"


def bem_units():
    if "bem" not in _cache:
        srcs = [BEM]
        d = os.path.join(REPO, "ccblade/src")
        units = {}
        for f in sorted(os.listdir(d)):
            if f.endswith((".f90", ".F90", ".f95")):
                units.update(fortran.parse_file(os.path.join(d, f)))
        _cache["bem"] = (units, fortran.FInterp(units, BEM))
    return _cache["bem"]


IND = "inductionfactors"
INDV = "inductionfactors_dv"


class BemModule(Model):
    """f2py extension module; the section equations are kept as uninterpreted functions when opaque"""

    def __init__(self, opaque=False):
        self.units, self.it = bem_units()
        self.opaque = opaque
        self.calls = []

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if name not in self.units:
            raise PyRaise(AttributeError("module 'ccblade._bem' has no attribute '%s'" % name))

        def f(*a, **k):
            self.calls.append(name)
            try:
                if self.opaque and name in (IND, INDV):
                    return self.ind(name, a, k)
                return fortran.call_wrapped(self.it, name, a, k)
            except (fortran.ShapeError, fortran.ShapeMismatch) as e:
                raise PyRaise(ValueError("%s: %s" % (name, e)))
            except fortran.OutOfBounds as e:
                raise PyRaise(IndexError("%s: %s" % (name, e)))
            except TypeError as e:
                if name in str(e):
                    raise PyRaise(e)
                raise
        f.__module__ = "npmodel"
        return f

    def ind(self, name, a, k):
        u = self.units[name]
        w = fortran.F2py(u)
        b = w.bind(a, k)
        scal = {}
        seeds = {}
        flags = {}
        base = fortran.F2py(self.units[IND])
        hub = [x for x in base.required + base.optional]
        for n, v in b.items():
            d = u.decls[n]
            if d.typ == "l":
                flags[n] = bool(npmodel.HOOKS["interp"].truth(v))
            elif d.dims is not None:
                seeds[n] = oarr(v)
            elif d.typ == "i" and n not in hub:
                continue
            else:
                x = asarr(v)
                if x.size != 1:
                    raise PyRaise(ValueError("array passed for scalar argument " + n))
                scal[n] = lift(x.reshape(-1)[0])
        names = [n for n in hub if n in scal]
        key = tuple(sorted(flags.items()))
        args = [scal[n] for n in names]
        out = {}
        for o in base.outs:
            nd = core.func("ind_" + o, *args, key=key)
            h = HOOKS.get("ind_sign")
            if nd.v is None and "ind_undefined" in HOOKS:
                HOOKS["ind_undefined"].append((o, scal.get("phi")))
            if h is not None and nd.v is not None:
                s = h(o, scal)
                if s:
                    nd._sg = s
            out[o] = nd
        HOOKS.setdefault("ind_calls", []).append((name, scal, flags))
        if name == IND:
            return tuple(out[o] for o in base.outs)
        nd = None
        for n, s in seeds.items():
            if s.ndim != 1:
                raise PyRaise(ValueError("seed %s must be one-dimensional" % n))
            if nd is not None and len(s) != nd:
                raise PyRaise(ValueError("seed %s has %d directions, expected %d" % (n, len(s), nd)))
            nd = len(s)
        res = []
        for o in w.outs:
            if o in out:
                res.append(out[o])
                continue
            bo = o[:-1]
            r = np.empty(nd, dtype=object)
            part = [core.func_partial("ind_" + bo, key, args, i) for i in range(len(args))]
            for j in range(nd):
                t = const(0)
                for i, n in enumerate(names):
                    if n + "d" in seeds:
                        sd = lift(seeds[n + "d"][j])
                        if sd.v == 0:
                            continue
                        t = core.add(t, core.mul(core.leafv(part[i]), sd))
                r[j] = t
            res.append(r)
        return tuple(res)


class OpaqueAirfoil(Model):
    """airfoil supplied by the user: arbitrary differentiable cl(alpha, Re), cd(alpha, Re), cm(alpha, Re)"""

    def __init__(self, tag, sep=False):
        self.tag = tag
        self.one_Re = False

    def __repr__(self):
        return "<airfoil %s>" % self.tag

    def evaluate(self, alpha, Re, return_cm=False):
        f = lambda nm: npmodel.ew(lambda a, r: core.func(nm, a, r, key=self.tag), 2)(alpha, Re)
        if return_cm:
            return f("cl"), f("cd"), f("cm")
        return f("cl"), f("cd")

    def derivatives(self, alpha, Re):
        out = []
        for nm in ("cl", "cd"):
            for i in (0, 1):
                out.append(npmodel.ew(lambda a, r: core.leafv(core.func_partial(nm, self.tag, (a, r), i)), 2)(alpha, Re))
        return tuple(out)


OpaqueAirfoil.__module__ = "npmodel"


def fresh(opaque=True, extra=None):
    """a new interpreter with freshly imported (interpreted) modules"""
    HOOKS.clear()
    core.NOTNUM = None
    npmodel.PLACE.clear()
    bem = BemModule(opaque)
    M = npmodel.models(bem)
    if extra:
        M.update(extra)
    I = Interp(loader, M, npmodel.builtin_table())
    HOOKS["interp"] = I
    HOOKS["fs"] = FS()
    HOOKS["pid"] = "\u27ebpid\u27eb"
    I.hooks["ndattr"] = npmodel.ndattr
    I.hooks["asarray"] = npmodel.asarr
    I.hooks["single"] = lambda v: npmodel.cast(npmodel.oarr(v), "float32").reshape(np.shape(v))[()]
    I.hooks["fmt"] = npmodel.fmt
    I.hooks["str"] = npmodel.pystr
    I.bem = bem
    return I


def cls(I, mod, name):
    m = I.load("ccblade." + mod)
    if name not in m.env:
        raise AnchorLost("ccblade/%s.py: class %s" % (mod, name))
    return m.env[name]


class AnchorLost(Exception):
    pass
