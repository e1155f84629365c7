"""Abstract interpreter for the Python subset used by the analysed package, over the value-number domain.

It walks the abstract syntax tree of /repo/ccblade/*.py; nothing of the analysed package is imported or
executed.  Library calls (numpy, scipy, openmdao, os ...) are interpreted by models (npmodel.py)."""
import ast
import builtins
import operator
import sys
import threading

import numpy as np

import core
from core import Node, Unsupported, const, dec, lift


class PyRaise(BaseException):
    """an exception raised by the analysed program (as opposed to an analysis failure)"""

    def __init__(self, exc, where=None):
        self.exc = exc
        self.where = where or (core.CTX.where() if core.CTX.site else None)
        self.stack = list(core.CTX.site)

    def __str__(self):
        e = self.exc
        n = e.cls.name if isinstance(e, Inst) else type(e).__name__
        w = "%s:%s" % self.where[:2] if self.where else "?"
        return "%s(%s) at %s" % (n, getattr(e, "args", ("",))[0] if getattr(e, "args", None) else "", w)


class Model:
    """marker for library models"""


# ------------------------------------------------------------------ value helpers
def is_arr(x):
    return isinstance(x, np.ndarray)


def liftarr(a):
    if a.dtype == object:
        return a
    r = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        r[i] = lift(a[i].item() if hasattr(a[i], "item") else a[i])
    return r


def norm(v):
    """native numpy results back into the domain"""
    if isinstance(v, np.ndarray):
        if v.dtype.kind == "f":
            return liftarr(v)
        if v.dtype == object:
            f = v.reshape(-1) if v.flags.c_contiguous else None
            it = f if f is not None else v.ravel()
            if any(type(x) in (int, float, bool, np.float64, np.int64) for x in it):
                if not v.flags.writeable:
                    v = v.copy()
                for i in np.ndindex(v.shape):
                    x = v[i]
                    if type(x) in (int, float, bool, np.float64, np.int64):
                        v[i] = lift(x if type(x) not in (np.float64, np.int64) else x.item())
        return v
    if isinstance(v, float):
        return lift(float(v))
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, np.integer):
        return int(v)
    return v


def tonum(x):
    """operand of arithmetic: floats lifted, native float arrays lifted"""
    if isinstance(x, float):
        return lift(float(x))
    if isinstance(x, np.ndarray) and x.dtype.kind == "f":
        return liftarr(x)
    return x


OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.Pow: operator.pow, ast.FloorDiv: operator.floordiv, ast.Mod: operator.mod,
       ast.BitAnd: operator.and_, ast.BitOr: operator.or_, ast.BitXor: operator.xor,
       ast.LShift: operator.lshift, ast.RShift: operator.rshift, ast.MatMult: operator.matmul}
IOPS = {ast.Add: operator.iadd, ast.Sub: operator.isub, ast.Mult: operator.imul, ast.Div: operator.itruediv,
        ast.Pow: operator.ipow}
DUNDER = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "truediv", ast.Pow: "pow",
          ast.FloorDiv: "floordiv", ast.Mod: "mod", ast.BitAnd: "and", ast.BitOr: "or", ast.BitXor: "xor",
          ast.MatMult: "matmul", ast.LShift: "lshift", ast.RShift: "rshift"}
CMPD = {ast.Eq: "__eq__", ast.NotEq: "__ne__", ast.Lt: "__lt__", ast.LtE: "__le__", ast.Gt: "__gt__",
        ast.GtE: "__ge__"}
CMPO = {ast.Eq: operator.eq, ast.NotEq: operator.ne, ast.Lt: operator.lt, ast.LtE: operator.le,
        ast.Gt: operator.gt, ast.GtE: operator.ge}


# ------------------------------------------------------------------ program objects
class Scope:
    __slots__ = ("vars", "parent", "locals", "globals_", "glob_names", "nonlocals")

    def __init__(self, parent, localnames, module, globs=(), nonl=()):
        self.vars = {}
        self.parent = parent
        self.locals = localnames
        self.globals_ = module
        self.glob_names = globs
        self.nonlocals = nonl


class Module:
    def __init__(self, name, fname):
        self.name = name
        self.fname = fname
        self.env = {"__name__": name, "__file__": fname}

    def __repr__(self):
        return "<module %s>" % self.name


class Func:
    def __init__(self, interp, node, scope, module, cls, name, defaults, kwdefaults):
        self.interp = interp
        self.node = node
        self.scope = scope
        self.module = module
        self.cls = cls
        self.name = name
        self.defaults = defaults
        self.kwdefaults = kwdefaults
        self.attrs = {}

    def __call__(self, *a, **k):
        return self.interp.call_func(self, list(a), k)

    @property
    def qual(self):
        return (self.cls.name + "." if self.cls else "") + self.name


class Bound:
    def __init__(self, fn, self_):
        self.fn = fn
        self.self_ = self_

    def __call__(self, *a, **k):
        return self.fn(self.self_, *a, **k)

    def __eq__(self, o):
        return isinstance(o, Bound) and o.fn is self.fn and o.self_ is self.self_

    __hash__ = object.__hash__


class Native:
    """natively modelled method of a modelled class"""

    def __init__(self, fn):
        self.fn = fn

    def __call__(self, *a, **k):
        return self.fn(*a, **k)


class Cls:
    def __init__(self, interp, name, bases, d, module):
        self.interp = interp
        self.name = name
        self.bases = bases
        self.d = d
        self.module = module

    def mro(self):
        out = [self]
        for b in self.bases:
            if isinstance(b, Cls):
                for c in b.mro():
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def lookup(self, n):
        for c in self.mro():
            if n in c.d:
                return c.d[n]
        return None

    def issub(self, o):
        if isinstance(o, Cls):
            return o in self.mro()
        if isinstance(o, type):
            return any(isinstance(b, type) and issubclass(b, o) for c in self.mro() for b in c.bases) or o is object
        return False

    def __call__(self, *a, **k):
        return self.interp.instantiate(self, list(a), k)

    def __repr__(self):
        return "<class %s>" % self.name


class ClassMaker(Model):
    """base class that turns the class statement into something else (Enum, NamedTuple)"""

    def __init__(self, make):
        self.make = make


class EnumCls(Cls):
    pass


def enum_class(I, c):
    e = EnumCls(I, c.name, c.bases, {}, c.module)
    members = {}
    for k, v in c.d.items():
        if k.startswith("_") or isinstance(v, (Func, Prop, StaticM, ClassM, Native)):
            e.d[k] = v
            continue
        if isinstance(v, Missing):
            raise Unsupported("enum value")
        if v == "<auto>":
            v = len(members) + 1
        m = Inst(e)
        m.d["name"] = m.d["_name_"] = k
        m.d["value"] = m.d["_value_"] = v
        members[k] = m
        e.d[k] = m
    e.members = members
    return e


class Inst:
    def __init__(self, cls):
        object.__setattr__(self, "cls", cls)
        object.__setattr__(self, "d", {})

    @property
    def args(self):
        return self.d.get("args", ())

    def __repr__(self):
        return "<%s object>" % self.cls.name

    # protocol methods so that containers and builtins can use program objects
    def _m(self, n):
        f = self.cls.lookup(n)
        if f is None:
            raise Unsupported("method %s of %s" % (n, self.cls.name))
        return lambda *a: f(self, *a)

    def __len__(self):
        return self._m("__len__")()

    def __iter__(self):
        if self.cls.lookup("__iter__") is None:
            raise TypeError("%s object is not iterable" % self.cls.name)
        return iter(self._m("__iter__")())

    def __next__(self):
        return self._m("__next__")()

    def __call__(self, *a, **k):
        f = self.cls.lookup("__call__")
        if f is None:
            raise TypeError("%s object is not callable" % self.cls.name)
        return f(self, *a, **k)


class StaticM:
    def __init__(self, f):
        self.f = f


class ClassM:
    def __init__(self, f):
        self.f = f


class Prop:
    def __init__(self, fget, fset=None):
        self.fget = fget
        self.fset = fset

    def setter(self, f):
        return Prop(self.fget, f)


class CachedProp(Prop):
    pass


class _Stop(BaseException):
    """unwinds the body of a generator nobody reads any more"""


class _GenState:
    """body of a generator, run in a thread of its own that only moves while somebody waits for the next value"""

    def __init__(self, run):
        self.run = run                # function of a yield function
        self.go, self.back = threading.Semaphore(0), threading.Semaphore(0)
        self.started = self.done = False
        self.msg = self.out = self.err = self.ret = None
        self.tail = []                # the body's own part of the call stack
        self.depth = 0

    def body(self):
        self.go.acquire()
        try:
            if self.msg is None:
                self.ret = self.run(self.give)
        except _Stop:
            pass
        except BaseException as e:
            self.err = e
        self.done = True
        self.back.release()

    def give(self, v):
        self.out = v
        self.back.release()
        self.go.acquire()
        m = self.msg
        if m is not None and m[0] == "raise":
            raise m[1]
        return m[1] if m is not None else None

    def step(self, msg, interp):
        if self.done:
            return False
        c = core.CTX
        base, depth = list(c.site), interp.depth
        if not self.started:
            self.started = True
            threading.Thread(target=self.body, daemon=True).start()
        c.site.extend(self.tail)
        self.msg = msg
        self.go.release()
        self.back.acquire()
        self.tail = c.site[len(base):]
        c.site[:] = base
        interp.depth = depth
        if self.err is not None:
            e, self.err = self.err, None
            raise e
        return not self.done


class Gen:
    """generator"""
    __module__ = "npmodel"

    def __init__(self, run, interp):
        self.st = _GenState(run)
        self.interp = interp

    @property
    def ret(self):
        return self.st.ret

    def __iter__(self):
        return self

    def __next__(self):
        if self.st.step(None, self.interp):
            return self.st.out
        raise StopIteration(self.st.ret)

    def send(self, v):
        if not self.st.started and v is not None:
            raise PyRaise(TypeError("can't send non-None value to a just-started generator"))
        if self.st.step(("send", v) if self.st.started else None, self.interp):
            return self.st.out
        raise PyRaise(StopIteration(self.st.ret))

    def throw(self, e, *a):
        e = e if isinstance(e, PyRaise) else PyRaise(self.interp.exception(e) if hasattr(self.interp, "exception") else e)
        if not self.st.started or self.st.done:
            self.st.done = True
            raise e
        if self.st.step(("raise", e), self.interp):
            return self.st.out
        raise PyRaise(StopIteration(self.st.ret))

    def close(self):
        if self.st.started and not self.st.done:
            try:
                if self.st.step(("raise", PyRaise(GeneratorExit())), self.interp):
                    raise PyRaise(RuntimeError("generator ignored GeneratorExit"))
            except PyRaise as p:
                if not isinstance(p.exc, (GeneratorExit, StopIteration)):
                    raise
        self.st.done = True

    def __del__(self):
        if self.st.started and not self.st.done and not sys.is_finalizing():
            try:
                self.st.step(("raise", PyRaise(GeneratorExit())), self.interp)
            except BaseException:
                pass


class CtxManager:
    """what a function decorated with contextlib.contextmanager returns"""

    def __init__(self, fn, args, kwargs):
        self.fn, self.args, self.kwargs = fn, args, kwargs


class Missing(Model):
    """a library object the analysis has no model of: harmless until it is used"""

    def __init__(self, name):
        self._name = name

    def __call__(self, *a, **k):
        raise Unsupported("library object " + self._name)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return Missing(self._name + "." + n)


def real_module(name):
    import importlib.util
    top = name.split(".")[0]
    if top not in sys.stdlib_module_names and top not in ("numpy", "scipy", "openmdao", "matplotlib"):
        return None
    if top == "openmdao":
        return True
    try:
        return importlib.util.find_spec(name) is not None
    except (ImportError, ValueError, AttributeError):
        return None


def has_real(name, attr):
    """does the real library provide the name?"""
    if not real_module(name):
        return False
    if name.split(".")[0] == "openmdao":
        return True
    import importlib
    try:
        return hasattr(importlib.import_module(name), attr)
    except Exception:
        return True


class Super:
    def __init__(self, cls, inst):
        self.cls = cls
        self.inst = inst


class _Ret:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v


BRK = object()
CONT = object()

PROGERR = (IndexError, KeyError, TypeError, AttributeError, ValueError, NameError, ZeroDivisionError,
           AssertionError, StopIteration, OverflowError, NotImplementedError, RuntimeError, OSError)


def assigned_names(body, acc=None):
    """names bound in a function body (not descending into nested functions)"""
    acc = set() if acc is None else acc
    globs, nonl = set(), set()

    def tgt(t):
        if isinstance(t, ast.Name):
            acc.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for e in t.elts:
                tgt(e)
        elif isinstance(t, ast.Starred):
            tgt(t.value)

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            acc.add(n.name)
            return
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for c in ast.walk(n):
                if isinstance(c, ast.NamedExpr):
                    tgt(c.target)
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr)):
            tgt(n.target)
        elif isinstance(n, ast.For):
            tgt(n.target)
        elif isinstance(n, ast.With):
            for i in n.items:
                if i.optional_vars is not None:
                    tgt(i.optional_vars)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                acc.add((a.asname or a.name).split(".")[0])
        elif isinstance(n, ast.ExceptHandler):
            if n.name:
                acc.add(n.name)
        elif isinstance(n, ast.Global):
            globs.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nonl.update(n.names)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, ast.Match):
            for c in ast.walk(n):
                if isinstance(c, (ast.MatchAs, ast.MatchStar)) and c.name:
                    acc.add(c.name)
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    return acc - globs - nonl, globs, nonl


_scan = {}


class Interp:
    def __init__(self, loader, models, builtins_=None):
        """loader(modname) -> (tree, filename) or None; models: {module name: object}"""
        self.loader = loader
        self.models = models
        self.modules = {}
        self.builtins = dict(builtins_ or {})
        self.calls = {}          # qualified function name -> number of abstract calls
        self.lines = set()       # (file, line) of statements visited
        self.depth = 0
        self.hooks = {}
        self.gen_hook = None
        self.attr_log = None     # list collecting (op, inst, attr) effects

    # ---------------------------------------------------------------- modules
    def load(self, name):
        m = self.modules.get(name)
        if m is not None:
            return m
        if name in self.models:
            self.modules[name] = self.models[name]
            return self.models[name]
        got = self.loader(name)
        if got is None and real_module(name):
            self.modules[name] = Missing(name)
            return self.modules[name]
        if got is None:
            raise PyRaise(ImportError("No module named %r" % name))
        tree, fname = got
        m = Module(name, fname)
        self.modules[name] = m
        sc = Scope(None, None, m)
        sc.vars = m.env
        core.CTX.site.append((fname, 0, 0))
        try:
            self.block(tree.body, sc, m, None)
        finally:
            core.CTX.site.pop()
        return m

    # ---------------------------------------------------------------- calls
    def call(self, f, args, kwargs):
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, Bound):
            return self.call(f.fn, [f.self_] + list(args), kwargs)
        if isinstance(f, Cls):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, Native):
            return norm(f.fn(*args, **kwargs))
        if isinstance(f, type) and issubclass(f, BaseException):
            return f(*args)
        if isinstance(f, (Inst, Model)) or callable(f):
            mod = getattr(f, "__module__", None) or ""
            try:
                return norm(f(*args, **kwargs))
            except PROGERR as e:
                if mod in ("npmodel", "models") or isinstance(f, Inst):
                    if isinstance(e, (ValueError, IndexError)):
                        raise PyRaise(e)
                    raise
                if isinstance(e, RecursionError):
                    raise
                raise PyRaise(e)
        raise PyRaise(TypeError("%r object is not callable" % type(f).__name__))

    def bind(self, f, args, kwargs):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        loc = {}
        if len(args) > len(pos) and a.vararg is None:
            raise PyRaise(TypeError("%s() takes %d positional arguments but %d were given" % (f.name, len(pos), len(args))))
        for n, v in zip(pos, args):
            loc[n] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(pos):])
        extra = {}
        names = set(pos[len(a.posonlyargs):]) | {x.arg for x in a.kwonlyargs}
        for k, v in kwargs.items():
            if k in names:
                if k in loc:
                    raise PyRaise(TypeError("%s() got multiple values for argument '%s'" % (f.name, k)))
                loc[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyRaise(TypeError("%s() got an unexpected keyword argument '%s'" % (f.name, k)))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = extra
        nd = len(f.defaults)
        for i, n in enumerate(pos):
            if n not in loc:
                j = i - (len(pos) - nd)
                if j >= 0:
                    loc[n] = f.defaults[j]
                else:
                    raise PyRaise(TypeError("%s() missing required argument: '%s'" % (f.name, n)))
        for x in a.kwonlyargs:
            if x.arg not in loc:
                if x.arg in f.kwdefaults:
                    loc[x.arg] = f.kwdefaults[x.arg]
                else:
                    raise PyRaise(TypeError("%s() missing keyword argument '%s'" % (f.name, x.arg)))
        return loc

    def call_func(self, f, args, kwargs):
        loc = self.bind(f, args, kwargs)
        q = f.module.name + ":" + f.qual
        self.calls[q] = self.calls.get(q, 0) + 1
        self.depth += 1
        if self.depth > 200:
            self.depth = 0
            raise Unsupported("recursion deeper than 200 in " + q)
        node = f.node
        key = id(node)
        if isinstance(node, ast.Lambda):
            sc = Scope(f.scope, None, f.module)
            sc.vars.update(loc)
            core.CTX.site.append((f.module.fname, node.lineno, node.col_offset))
            try:
                return self.ev(node.body, sc, f)
            finally:
                core.CTX.site.pop()
                self.depth -= 1
        info = _scan.get(key)
        if info is None or info[0] is not node:
            names, globs, nonl = assigned_names(node.body)
            isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in self._walk_fn(node))
            info = _scan[key] = (node, names, globs, nonl, isgen)
        _, names, globs, nonl, isgen = info
        sc = Scope(f.scope, names | set(loc), f.module, globs, nonl)
        sc.vars.update(loc)
        core.CTX.site.append((f.module.fname, node.lineno, 0))
        try:
            if isgen:
                hook, self.gen_hook = self.gen_hook, None
                if hook is not None:          # body of a with statement run at the yield of its context manager
                    sc.vars["__yield__"] = hook
                    self.block(node.body, sc, f.module, f)
                    return None

                def run(give):
                    sc.vars["__yield__"] = give
                    core.CTX.site.append((f.module.fname, node.lineno, 0))
                    try:
                        r = self.block(node.body, sc, f.module, f)
                        return r.v if isinstance(r, _Ret) else None
                    finally:
                        core.CTX.site.pop()
                return Gen(run, self)
            r = self.block(node.body, sc, f.module, f)
            return r.v if isinstance(r, _Ret) else None
        finally:
            core.CTX.site.pop()
            self.depth -= 1

    @staticmethod
    def _walk_fn(node):
        st = list(node.body)
        while st:
            n = st.pop()
            yield n
            if not isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                st.extend(ast.iter_child_nodes(n))

    def instantiate(self, cls, args, kwargs):
        if isinstance(cls, EnumCls) and cls.members:
            for m in cls.members.values():
                if self.truth(self.compare(ast.Eq, m.d["value"], args[0])):
                    return m
            raise PyRaise(ValueError("%r is not a valid %s" % (args[0], cls.name)))
        o = Inst(cls)
        init = cls.lookup("__init__")
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif cls.issub(BaseException):
            o.d["args"] = tuple(args)
        elif args or kwargs:
            raise PyRaise(TypeError("%s() takes no arguments" % cls.name))
        return o

    # ---------------------------------------------------------------- attributes
    def mangle(self, n, f):
        if n.startswith("__") and not n.endswith("__") and f is not None and f.cls is not None:
            return "_" + f.cls.name.lstrip("_") + n
        return n

    def getattr(self, o, n):
        if isinstance(o, Inst):
            if n in o.d:
                if self.attr_log is not None:
                    self.attr_log.append(("r", o, n, core.CTX.where()))
                return o.d[n]
            v = o.cls.lookup(n)
            if v is None:
                if n == "__class__":
                    return o.cls
                if n == "__dict__":
                    return o.d
                if n == "args" and o.cls.issub(BaseException):
                    return ()
                g = o.cls.lookup("__getattr__")
                if g is not None:
                    return self.call(g, [o, n], {})
                raise PyRaise(AttributeError("'%s' object has no attribute '%s'" % (o.cls.name, n)))
            if isinstance(v, (Func, Native)):
                return Bound(v, o)
            if isinstance(v, ClassM):
                return Bound(v.f, o.cls)
            if isinstance(v, StaticM):
                return v.f
            if isinstance(v, CachedProp):
                o.d[n] = r = self.call(v.fget, [o], {})
                return r
            if isinstance(v, Prop):
                return self.call(v.fget, [o], {})
            return v
        if isinstance(o, Cls):
            if n == "__name__":
                return o.name
            v = o.lookup(n)
            if v is None:
                raise PyRaise(AttributeError("type object '%s' has no attribute '%s'" % (o.name, n)))
            if isinstance(v, ClassM):
                return Bound(v.f, o)
            if isinstance(v, StaticM):
                return v.f
            return v
        if isinstance(o, Module):
            if n in o.env:
                return o.env[n]
            raise PyRaise(AttributeError("module '%s' has no attribute '%s'" % (o.name, n)))
        if isinstance(o, Super):
            mro = o.inst.cls.mro() if isinstance(o.inst, Inst) else o.inst.mro()
            for c in mro[mro.index(o.cls) + 1:]:
                if n in c.d:
                    v = c.d[n]
                    if isinstance(v, (Func, Native)):
                        return Bound(v, o.inst)
                    if isinstance(v, ClassM):
                        return Bound(v.f, o.inst if isinstance(o.inst, Cls) else o.inst.cls)
                    if isinstance(v, StaticM):
                        return v.f
                    if isinstance(v, Prop):
                        return self.call(v.fget, [o.inst], {})
                    return v
            if n == "__init__":
                return lambda *a, **k: None
            if n == "__setattr__":
                return lambda k, v: o.inst.d.__setitem__(k, v)
            raise PyRaise(AttributeError("super object has no attribute '%s'" % n))
        if isinstance(o, Func):
            if n == "__name__":
                return o.name
            if n == "__doc__":
                return ast.get_docstring(o.node)
            if n in o.attrs:
                return o.attrs[n]
            raise PyRaise(AttributeError(n))
        if isinstance(o, Bound):
            if n == "__self__":
                return o.self_
            return self.getattr(o.fn, n)
        if isinstance(o, (np.ndarray, Node, bool, int)) and not isinstance(o, Model):
            g = self.hooks.get("ndattr")
            if g:
                r = g(o, n)
                if r is not NotImplemented:
                    return r
        if isinstance(o, str):
            if n == "format":
                return lambda *a, **k: self.str_format(o, a, k)
        if isinstance(o, Prop) and n in ("setter",):
            return o.setter
        try:
            return getattr(o, n)
        except AttributeError as e:
            if isinstance(o, Model):
                raise Unsupported("library attribute %s of %s" % (n, type(o).__name__))
            raise PyRaise(AttributeError("%r object has no attribute '%s'" % (type(o).__name__, n)))

    def setattr(self, o, n, v):
        if isinstance(o, Inst):
            c = o.cls.lookup(n)
            if isinstance(c, Prop) and not isinstance(c, CachedProp):
                if c.fset is None:
                    raise PyRaise(AttributeError("can't set attribute"))
                self.call(c.fset, [o, v], {})
                return
            s = o.cls.lookup("__setattr__")
            if s is not None:
                self.call(s, [o, n, v], {})
                return
            if self.attr_log is not None:
                self.attr_log.append(("w", o, n, core.CTX.where()))
            o.d[n] = v
        elif isinstance(o, Cls):
            if self.attr_log is not None:
                self.attr_log.append(("w", o, n, core.CTX.where()))
            o.d[n] = v
        elif isinstance(o, Module):
            o.env[n] = v
        elif isinstance(o, Func):
            o.attrs[n] = v
        elif isinstance(o, Bound):
            raise PyRaise(AttributeError(n))
        elif isinstance(o, np.ndarray):
            try:
                setattr(o, n, v)
            except PROGERR as e:
                raise PyRaise(e)
        elif isinstance(o, Model):
            setattr(o, n, v)
        else:
            raise PyRaise(AttributeError("%r object has no attribute %r" % (type(o).__name__, n)))

    # ---------------------------------------------------------------- names
    def lookup(self, n, sc, f):
        s = sc
        while s is not None:
            if n in s.glob_names:
                break
            if n in s.vars:
                return s.vars[n]
            if s.locals is not None and n in s.locals:
                raise PyRaise(UnboundLocalError("local variable '%s' referenced before assignment" % n))
            s = s.parent
        env = sc.globals_.env
        if n in env:
            return env[n]
        if n in self.builtins:
            return self.builtins[n]
        raise PyRaise(NameError("name '%s' is not defined" % n))

    def store(self, n, v, sc):
        if n in sc.glob_names:
            sc.globals_.env[n] = v
            return
        if n in sc.nonlocals:
            s = sc.parent
            while s is not None:
                if n in s.vars or (s.locals and n in s.locals):
                    s.vars[n] = v
                    return
                s = s.parent
        sc.vars[n] = v

    # ---------------------------------------------------------------- statements
    def block(self, body, sc, mod, f):
        for s in body:
            r = self.stmt(s, sc, mod, f)
            if r is not None:
                return r
        return None

    def at(self, n, mod):
        site = core.CTX.site
        if site:
            site[-1] = (mod.fname, n.lineno, n.col_offset)

    def stmt(self, s, sc, mod, f):
        self.at(s, mod)
        self.lines.add((mod.fname, s.lineno))
        t = type(s)
        if t is ast.Expr:
            if isinstance(s.value, ast.Constant):
                return None
            self.ev(s.value, sc, f)
            return None
        if t is ast.Assign:
            v = self.ev(s.value, sc, f)
            for tg in s.targets:
                self.assign(tg, v, sc, f)
            return None
        if t is ast.AugAssign:
            self.augassign(s, sc, f)
            return None
        if t is ast.AnnAssign:
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, sc, f), sc, f)
            return None
        if t is ast.Return:
            return _Ret(self.ev(s.value, sc, f) if s.value is not None else None)
        if t is ast.If:
            return self.block(s.body if self.truth(self.ev(s.test, sc, f)) else s.orelse, sc, mod, f)
        if t is ast.For:
            it = self.iter(self.ev(s.iter, sc, f))
            n = 0
            for v in it:
                n += 1
                if n > 200000:
                    raise Unsupported("loop bound")
                self.assign(s.target, v, sc, f)
                r = self.block(s.body, sc, mod, f)
                if r is BRK:
                    return None
                if r is CONT or r is None:
                    continue
                return r
            return self.block(s.orelse, sc, mod, f)
        if t is ast.While:
            n = 0
            while True:
                self.at(s, mod)
                if not self.truth(self.ev(s.test, sc, f)):
                    break
                n += 1
                if n > 20000:
                    raise Unsupported("loop at line %d not bounded by the analysis" % s.lineno)
                r = self.block(s.body, sc, mod, f)
                if r is BRK:
                    return None
                if r is CONT or r is None:
                    continue
                return r
            return self.block(s.orelse, sc, mod, f)
        if t is ast.Pass:
            return None
        if t is ast.Break:
            return BRK
        if t is ast.Continue:
            return CONT
        if t is ast.FunctionDef:
            fn = self.mkfunc(s, s.name, sc, mod, f)
            for d in reversed(s.decorator_list):
                fn = self.decorate(self.ev(d, sc, f), fn)
            self.store(self.mangle(s.name, f), fn, sc)
            return None
        if t is ast.ClassDef:
            self.classdef(s, sc, mod, f)
            return None
        if t is ast.Import:
            for a in s.names:
                if a.asname:
                    self.store(a.asname, self.import_dotted(a.name), sc)
                else:
                    self.import_dotted(a.name)
                    self.store(a.name.split(".")[0], self.load(a.name.split(".")[0]), sc)
            return None
        if t is ast.ImportFrom:
            name = s.module or ""
            if s.level:
                parts = mod.name.split(".")
                base = parts if mod.fname.endswith("__init__.py") else parts[:-1]
                base = base[:len(base) - (s.level - 1)]
                name = ".".join(base + ([s.module] if s.module else []))
            if name == "__future__":
                return None
            m = self.load(name)
            for a in s.names:
                if a.name == "*":
                    for k, v in m.env.items():
                        if not k.startswith("_"):
                            self.store(k, v, sc)
                    continue
                try:
                    v = self.getattr(m, a.name)
                except (PyRaise, Unsupported):
                    try:
                        v = self.load(name + "." + a.name)
                    except PyRaise:
                        if not isinstance(m, Model) or not has_real(name, a.name):
                            raise
                        v = Missing(name + "." + a.name)
                self.store(a.asname or a.name, v, sc)
            return None
        if t is ast.Raise:
            if s.exc is None:
                cur = sc.vars.get("__exc__")
                p = sc
                while cur is None and p is not None:
                    cur = p.vars.get("__exc__")
                    p = p.parent
                raise PyRaise(cur if cur is not None else RuntimeError("No active exception to reraise"))
            e = self.ev(s.exc, sc, f)
            if isinstance(e, (type, Cls)):
                e = self.call(e, [], {})
            raise PyRaise(e, (mod.fname, s.lineno))
        if t is ast.Try:
            return self.try_(s, sc, mod, f)
        if t is ast.With:
            return self.with_(s, s.items, sc, mod, f)
        if t is ast.Assert:
            if not self.truth(self.ev(s.test, sc, f)):
                raise PyRaise(AssertionError())
            return None
        if t is ast.Delete:
            for tg in s.targets:
                if isinstance(tg, ast.Name):
                    sc.vars.pop(tg.id, None)
                elif isinstance(tg, ast.Subscript):
                    o = self.ev(tg.value, sc, f)
                    try:
                        del o[self.index(tg.slice, sc, f)]
                    except PROGERR as e:
                        raise PyRaise(e)
                elif isinstance(tg, ast.Attribute):
                    o = self.ev(tg.value, sc, f)
                    n = self.mangle(tg.attr, f)
                    if isinstance(o, Inst):
                        if n not in o.d:
                            raise PyRaise(AttributeError(n))
                        del o.d[n]
            return None
        if t in (ast.Global, ast.Nonlocal):
            return None
        if t is ast.Match:
            v = self.ev(s.subject, sc, f)
            for c in s.cases:
                if self.match(c.pattern, v, sc, f) and (c.guard is None or self.truth(self.ev(c.guard, sc, f))):
                    return self.block(c.body, sc, mod, f)
            return None
        raise Unsupported("statement %s at %s:%d" % (t.__name__, mod.fname, s.lineno))

    def match(self, p, v, sc, f):
        t = type(p)
        if t is ast.MatchValue:
            return self.truth(self.compare(ast.Eq, v, self.ev(p.value, sc, f)))
        if t is ast.MatchSingleton:
            return v is p.value
        if t is ast.MatchAs:
            if p.pattern is not None and not self.match(p.pattern, v, sc, f):
                return False
            if p.name:
                self.store(p.name, v, sc)
            return True
        if t is ast.MatchOr:
            return any(self.match(q, v, sc, f) for q in p.patterns)
        if t is ast.MatchSequence:
            if not isinstance(v, (list, tuple)):
                return False
            star = [i for i, q in enumerate(p.patterns) if isinstance(q, ast.MatchStar)]
            n = len(p.patterns)
            if (not star and len(v) != n) or (star and len(v) < n - 1):
                return False
            if not star:
                return all(self.match(q, x, sc, f) for q, x in zip(p.patterns, v))
            i = star[0]
            k = n - i - 1
            if not all(self.match(q, x, sc, f) for q, x in zip(p.patterns[:i], v[:i])):
                return False
            if p.patterns[i].name:
                self.store(p.patterns[i].name, list(v[i:len(v) - k]), sc)
            return all(self.match(q, x, sc, f) for q, x in zip(p.patterns[i + 1:], v[len(v) - k:]))
        if t is ast.MatchMapping:
            if not isinstance(v, dict):
                return False
            ks = [self.ev(k, sc, f) for k in p.keys]
            if any(k not in v for k in ks) or not all(self.match(q, v[k], sc, f) for k, q in zip(ks, p.patterns)):
                return False
            if p.rest:
                self.store(p.rest, {k: x for k, x in v.items() if k not in ks}, sc)
            return True
        if t is ast.MatchClass:
            c = self.ev(p.cls, sc, f)
            if not self.call(self.builtins["isinstance"], [v, c], {}):
                return False
            names = list(p.kwd_attrs)
            pats = list(p.kwd_patterns)
            if p.patterns:
                ma = c.lookup("__match_args__") if isinstance(c, Cls) else None
                if ma is None:
                    if len(p.patterns) == 1 and not isinstance(c, Cls):
                        return self.match(p.patterns[0], v, sc, f)
                    raise Unsupported("positional class pattern")
                names = list(ma[:len(p.patterns)]) + names
                pats = list(p.patterns) + pats
            for n, q in zip(names, pats):
                try:
                    x = self.getattr(v, n)
                except PyRaise:
                    return False
                if not self.match(q, x, sc, f):
                    return False
            return True
        raise Unsupported("pattern " + t.__name__)

    def import_dotted(self, name):
        if name in self.models:
            return self.load(name)
        return self.load(name)

    def decorate(self, d, fn):
        if d in (StaticM, ClassM, Prop):
            return d(fn)
        return self.call(d, [fn], {})

    def mkfunc(self, s, name, sc, mod, f, cls=None):
        a = s.args
        defaults = [self.ev(d, sc, f) for d in a.defaults]
        kwd = {x.arg: self.ev(d, sc, f) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        scope = sc if sc.locals is not None or sc.parent is not None else None
        c = cls if cls is not None else (f.cls if f is not None and hasattr(f, "cls") else None)
        if isinstance(c, _ClassBody):
            c = c.cls
            scope = sc.parent if sc.parent is not None and sc.parent.locals is not None else None
        return Func(self, s, scope, mod, c, name, defaults, kwd)

    def classdef(self, s, sc, mod, f):
        bases = [self.ev(b, sc, f) for b in s.bases]
        bases = [b for b in bases if b is not object and not (hasattr(b, "pytype") and b.pytype is object)]
        special = next((b for b in bases if isinstance(b, ClassMaker)), None)
        bases = [b for b in bases if not isinstance(b, ClassMaker)]
        c = Cls(self, s.name, bases, {}, mod)
        body = Scope(sc, None, mod)
        body.vars = c.d
        cb = _ClassBody(c)
        self.block(s.body, body, mod, cb)
        ann = [x.target.id for x in s.body if isinstance(x, ast.AnnAssign) and isinstance(x.target, ast.Name)]
        if ann:
            c.d["__annotations__"] = dict.fromkeys(ann)
        v = c
        if special is not None:
            v = special.make(self, c)
        else:
            e = next((b for b in c.mro()[1:] if isinstance(b, EnumCls)), None)
            if e is not None:
                v = enum_class(self, c)
        for d in reversed(s.decorator_list):
            v = self.decorate(self.ev(d, sc, f), v)
        self.store(s.name, v, sc)

    def match_exc(self, exc, typ):
        if isinstance(typ, tuple):
            return any(self.match_exc(exc, t) for t in typ)
        if isinstance(exc, Inst):
            return exc.cls.issub(typ)
        if isinstance(typ, Cls):
            return False
        if hasattr(typ, "pytype"):
            typ = typ.pytype
        return isinstance(typ, type) and isinstance(exc, typ)

    def try_(self, s, sc, mod, f):
        r = None
        depth = self.depth
        nsite = len(core.CTX.site)
        try:
            try:
                r = self.block(s.body, sc, mod, f)
            except PyRaise as p:
                self.depth = depth
                del core.CTX.site[nsite:]
                for h in s.handlers:
                    if h.type is None or self.match_exc(p.exc, self.ev(h.type, sc, f)):
                        if h.name:
                            sc.vars[h.name] = p.exc
                        old = sc.vars.get("__exc__")
                        sc.vars["__exc__"] = p.exc
                        ev = core.CTX.events
                        ev.append(("caught", str(p), (mod.fname, h.lineno)))
                        try:
                            r = self.block(h.body, sc, mod, f)
                        finally:
                            sc.vars["__exc__"] = old
                        break
                else:
                    raise
            else:
                if r is None:
                    r = self.block(s.orelse, sc, mod, f)
        except (PyRaise,):
            r2 = self.block(s.finalbody, sc, mod, f)
            if r2 is not None:
                return r2
            raise
        r2 = self.block(s.finalbody, sc, mod, f)
        return r2 if r2 is not None else r

    def with_(self, s, items, sc, mod, f):
        if not items:
            return self.block(s.body, sc, mod, f)
        it = items[0]
        cm = self.ev(it.context_expr, sc, f)
        if isinstance(cm, CtxManager):
            res = []

            def hook(v):
                if res:
                    raise PyRaise(RuntimeError("generator didn't stop"))
                res.append(None)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, sc, f)
                res[0] = self.with_(s, items[1:], sc, mod, f)
            self.gen_hook = hook
            self.call(cm.fn, cm.args, cm.kwargs)
            if not res:
                raise PyRaise(RuntimeError("generator didn't yield"))
            return res[0]
        enter = self.getattr(cm, "__enter__")
        v = self.call(enter, [], {})
        if it.optional_vars is not None:
            self.assign(it.optional_vars, v, sc, f)
        ex = self.getattr(cm, "__exit__")
        try:
            r = self.with_(s, items[1:], sc, mod, f)
        except PyRaise as p:
            if self.truth(self.call(ex, [type(p.exc), p.exc, None], {})):
                return None
            raise
        self.call(ex, [None, None, None], {})
        return r

    # ---------------------------------------------------------------- assignment
    def assign(self, t, v, sc, f):
        tt = type(t)
        if tt is ast.Name:
            self.store(self.mangle(t.id, f), v, sc)
        elif tt is ast.Attribute:
            self.setattr(self.ev(t.value, sc, f), self.mangle(t.attr, f), v)
        elif tt is ast.Subscript:
            o = self.ev(t.value, sc, f)
            self.setitem(o, self.index(t.slice, sc, f), v)
        elif tt in (ast.Tuple, ast.List):
            vals = list(self.iter(v))
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                i = star[0]
                k = len(t.elts) - i - 1
                if len(vals) < len(t.elts) - 1:
                    raise PyRaise(ValueError("not enough values to unpack"))
                vals = vals[:i] + [vals[i:len(vals) - k]] + vals[len(vals) - k:]
            if len(vals) != len(t.elts):
                raise PyRaise(ValueError("unpack: expected %d values, got %d" % (len(t.elts), len(vals))))
            for e, x in zip(t.elts, vals):
                self.assign(e.value if isinstance(e, ast.Starred) else e, x, sc, f)
        else:
            raise Unsupported("assignment target " + tt.__name__)

    def setitem(self, o, i, v):
        if isinstance(o, Inst):
            m = o.cls.lookup("__setitem__")
            if m is None:
                raise PyRaise(TypeError("'%s' object does not support item assignment" % o.cls.name))
            self.call(m, [o, i, v], {})
            return
        try:
            if is_arr(o):
                if o.dtype == object:
                    if isinstance(v, (list, tuple)):
                        v = self.hooks["asarray"](v)
                    if is_arr(v):
                        if v.dtype != object:
                            v = liftarr(v)
                        if v.ndim == 0:
                            v = v[()]
                    elif not isinstance(v, Node):
                        if v is None:
                            raise TypeError("float() argument must be a string or a real number, not 'NoneType'")
                        if isinstance(v, (Inst, str)):
                            pass
                        else:
                            v = lift(v)
                    if isinstance(v, np.ndarray) and v.size == 1 and not self._is_slice(i, o):
                        v = v.reshape(-1)[0]
                    if type(o).__name__ == "Single":
                        v = self.hooks["single"](v)
                elif o.dtype.kind in "iu":
                    v = self._toint(v)
                elif o.dtype.kind == "b" and is_arr(v) and v.dtype == object:
                    v = v.astype(bool)
                o[i] = v
            else:
                o[i] = v
        except PROGERR as e:
            raise PyRaise(e)

    def _is_slice(self, i, o):
        ix = i if isinstance(i, tuple) else (i,)
        if any(not isinstance(k, (int, np.integer)) for k in ix):
            return True
        return len(ix) < o.ndim

    def _toint(self, v):
        def one(x):
            if isinstance(x, Node):
                if x.q is not None:
                    return int(x.q)
                # the fraction is lost: a whole number unrelated to the value stands for it
                t = core.func("trunc", x).v
                if t is None:
                    raise Unsupported("symbolic value stored in an integer array")
                return 10 ** 6 + int(t) % (10 ** 9)
            return int(x)
        if is_arr(v):
            return np.frompyfunc(one, 1, 1)(v).astype(int)
        return one(v)

    def augassign(self, s, sc, f):
        t = s.target
        op = type(s.op)
        if isinstance(t, ast.Name):
            o = self.lookup(t.id, sc, f)
            v = self.ev(s.value, sc, f)
            self.store(t.id, self.iop(op, o, v), sc)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, sc, f)
            n = self.mangle(t.attr, f)
            o = self.getattr(b, n)
            v = self.ev(s.value, sc, f)
            self.setattr(b, n, self.iop(op, o, v))
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value, sc, f)
            i = self.index(t.slice, sc, f)
            o = self.getitem(b, i)
            v = self.ev(s.value, sc, f)
            self.setitem(b, i, self.iop(op, o, v))
        else:
            raise Unsupported("augmented assignment target")

    def iop(self, op, o, v):
        if isinstance(o, Inst):
            m = o.cls.lookup("__i%s__" % DUNDER[op])
            if m is not None:
                return self.call(m, [o, v], {})
            return self.binop(op, o, v)
        if is_arr(o) and o.dtype == object and op in IOPS and not isinstance(v, Inst):
            v = self.arith(v)
            try:
                if is_arr(v) or isinstance(v, (list, tuple)):
                    r = OPS[op](o, v)
                    if np.shape(r) != o.shape:
                        raise ValueError("non-broadcastable output operand with shape %s doesn't match the "
                                         "broadcast shape %s" % (o.shape, r.shape))
                    o[...] = norm(r)
                else:
                    for i in np.ndindex(o.shape):
                        o[i] = OPS[op](o[i], v)
                return o
            except PROGERR as e:
                raise PyRaise(e)
        if is_arr(o) and o.dtype.kind in "iu" and (isinstance(v, Node) or op is ast.Div or (is_arr(v) and v.dtype == object)):
            raise PyRaise(TypeError("Cannot cast ufunc output from float64 to int64 with casting rule 'same_kind'"))
        if isinstance(o, (list, set, dict)) or is_arr(o):
            iops = {ast.Add: operator.iadd, ast.BitOr: operator.ior, ast.Mult: operator.imul,
                    ast.BitAnd: operator.iand, ast.Sub: operator.isub}
            if isinstance(o, list) and op is ast.Add and is_arr(v):
                return self.binop(op, o, v)
            if op in iops:
                try:
                    return iops[op](o, v)
                except PROGERR as e:
                    raise PyRaise(e)
        return self.binop(op, o, v)

    # ---------------------------------------------------------------- expressions
    def truth(self, v):
        if isinstance(v, (bool, int, str, list, tuple, dict, set, type(None))):
            return bool(v)
        if is_arr(v):
            if v.size == 1:
                return self.truth(v.reshape(-1)[0])
            if v.size == 0:
                return False
            raise PyRaise(ValueError("The truth value of an array with more than one element is ambiguous."))
        if isinstance(v, Inst):
            m = v.cls.lookup("__bool__") or v.cls.lookup("__len__")
            if m is None:
                return True
            return self.truth(self.call(m, [v], {}))
        return bool(v)

    def iter(self, v):
        if isinstance(v, EnumCls):
            return iter(list(v.members.values()))
        if isinstance(v, Inst):
            m = v.cls.lookup("__iter__")
            if m is None:
                raise PyRaise(TypeError("'%s' object is not iterable" % v.cls.name))
            return self.iter(self.call(m, [v], {}))
        if is_arr(v):
            if v.ndim == 0:
                raise PyRaise(TypeError("iteration over a 0-d array"))
            return (norm(x) for x in v)
        if isinstance(v, (Node, int, bool, type(None))):
            raise PyRaise(TypeError("'%s' object is not iterable" % type(v).__name__))
        try:
            return iter(v)
        except TypeError as e:
            raise PyRaise(e)

    def arith(self, v):
        if isinstance(v, float):
            return lift(float(v))
        if is_arr(v) and v.dtype.kind == "f":
            return liftarr(v)
        return v

    def binop(self, op, a, b):
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst):
                m = a.cls.lookup("__%s__" % DUNDER[op])
                if m is not None:
                    r = self.call(m, [a, b], {})
                    if r is not NotImplemented:
                        return r
            if isinstance(b, Inst):
                m = b.cls.lookup("__r%s__" % DUNDER[op])
                if m is not None and is_arr(a) and a.ndim > 0:
                    # numpy broadcasts over the left array element by element
                    r = np.empty(a.shape, dtype=object)
                    for i in np.ndindex(a.shape):
                        r[i] = self.call(m, [b, norm(a[i])], {})
                    return r
                if m is not None:
                    r = self.call(m, [b, a], {})
                    if r is not NotImplemented:
                        return r
            raise PyRaise(TypeError("unsupported operand type(s) for %s" % DUNDER[op]))
        a, b = self.arith(a), self.arith(b)
        if isinstance(a, str) and op is ast.Mod:
            return self.percent_format(a, b)
        num_a, num_b = isinstance(a, (int, Node)), isinstance(b, (int, Node))
        if num_a and num_b:
            if isinstance(a, Node) or isinstance(b, Node):
                a, b = lift(a), lift(b)
            elif op is ast.Div:
                if b == 0:
                    raise PyRaise(ZeroDivisionError("division by zero"))
                return core.div(const(a), const(b))
            elif op is ast.Pow and b < 0:
                return core.power(const(a), const(b))
            try:
                return OPS[op](a, b)
            except PROGERR as e:
                raise PyRaise(e)
        if type(b).__name__ == "NpInt" and isinstance(a, (list, tuple)):
            a = self.hooks["asarray"](a)
        if type(a).__name__ == "NpInt" and isinstance(b, (list, tuple)):
            b = self.hooks["asarray"](b)
        if is_arr(a) or is_arr(b):
            # list/tuple operands broadcast with arrays
            if isinstance(a, (list, tuple)):
                a = self.hooks["asarray"](a)
            if isinstance(b, (list, tuple)):
                b = self.hooks["asarray"](b)
            if op is ast.Div or op is ast.Pow:
                if is_arr(a) and a.dtype != object:
                    a = liftarr(a)
                if is_arr(b) and b.dtype != object:
                    b = liftarr(b)
                if isinstance(a, (int, bool)):
                    a = lift(a)
                if isinstance(b, (int, bool)):
                    b = lift(b)
            else:
                # boolean arrays in arithmetic
                oa = isinstance(b, Node) or (is_arr(b) and b.dtype == object)
                ob = isinstance(a, Node) or (is_arr(a) and a.dtype == object)
                if oa and is_arr(a) and a.dtype != object:
                    a = liftarr(a)
                if ob and is_arr(b) and b.dtype != object:
                    b = liftarr(b)
            if isinstance(a, Node) and is_arr(b):
                z = np.empty((), dtype=object)
                z[()] = a
                a = z
            if isinstance(b, Node) and is_arr(a):
                z = np.empty((), dtype=object)
                z[()] = b
                b = z
            try:
                return norm(OPS[op](a, b))
            except PROGERR as e:
                raise PyRaise(e)
        try:
            return norm(OPS[op](a, b))
        except PROGERR as e:
            raise PyRaise(e)

    def compare(self, op, a, b):
        if op is ast.Is:
            return a is b or (isinstance(a, bool) and isinstance(b, bool) and a == b)
        if op is ast.IsNot:
            return not self.compare(ast.Is, a, b)
        if op in (ast.In, ast.NotIn):
            r = self.contains(b, a)
            return r if op is ast.In else not r
        if isinstance(a, Inst) or isinstance(b, Inst):
            if isinstance(a, Inst):
                m = a.cls.lookup(CMPD[op])
                if m is not None:
                    return self.call(m, [a, b], {})
            if op is ast.Eq:
                return a is b
            if op is ast.NotEq:
                return a is not b
            raise PyRaise(TypeError("ordering not supported"))
        a, b = self.arith(a), self.arith(b)
        if is_arr(a) or is_arr(b):
            if a is None or b is None:
                return False if op is ast.Eq else True
            if isinstance(a, (list, tuple)):
                a = self.hooks["asarray"](a)
            if isinstance(b, (list, tuple)):
                b = self.hooks["asarray"](b)
            if isinstance(a, str) or isinstance(b, str):
                return norm(CMPO[op](a, b))
            if isinstance(a, Node):
                z = np.empty((), dtype=object)
                z[()] = a
                a = z
            if isinstance(b, Node):
                z = np.empty((), dtype=object)
                z[()] = b
                b = z
            try:
                r = CMPO[op](a, b)
            except PROGERR as e:
                raise PyRaise(e)
            if is_arr(r) and r.dtype == object:
                r = r.astype(bool)
            return norm(r)
        try:
            return norm(CMPO[op](a, b))
        except PROGERR as e:
            raise PyRaise(e)

    def contains(self, c, x):
        if isinstance(c, Inst):
            m = c.cls.lookup("__contains__")
            if m is not None:
                return self.truth(self.call(m, [c, x], {}))
        if is_arr(c):
            return any(self.truth(self.compare(ast.Eq, y, x)) for y in c.ravel())
        try:
            if isinstance(c, (list, tuple)):
                for y in c:
                    if y is x:
                        return True
                    if is_arr(x) or is_arr(y):
                        raise ValueError("The truth value of an array with more than one element is ambiguous.")
                    if self.truth(self.compare(ast.Eq, y, x)):
                        return True
                return False
            return x in c
        except PROGERR as e:
            raise PyRaise(e)

    def getitem(self, o, i):
        if isinstance(o, EnumCls):
            if i not in o.members:
                raise PyRaise(KeyError(i))
            return o.members[i]
        if isinstance(o, Cls):                # List[float], Generic[T]
            return o
        if isinstance(o, Inst):
            m = o.cls.lookup("__getitem__")
            if m is None:
                raise PyRaise(TypeError("'%s' object is not subscriptable" % o.cls.name))
            return self.call(m, [o, i], {})
        if isinstance(o, Node):
            raise PyRaise(TypeError("'float' object is not subscriptable") if i != () else None)
        try:
            if isinstance(i, tuple) and is_arr(o):
                for k in i:
                    if is_arr(k) and k.dtype == object and any(not isinstance(x, bool) for x in k.ravel()):
                        raise IndexError("arrays used as indices must be of integer (or boolean) type")
                i = tuple(np.asarray(k, dtype=bool) if is_arr(k) and k.dtype == object else k for k in i)
            if isinstance(i, Node):
                if i.q is not None and i.q.denominator == 1 and isinstance(o, dict) is False:
                    raise IndexError("only integers, slices (`:`), ellipsis, numpy.newaxis and integer or boolean arrays are valid indices") if is_arr(o) else TypeError("list indices must be integers or slices, not float")
            r = o[i]
        except PROGERR as e:
            raise PyRaise(e)
        if is_arr(o) and not is_arr(r):
            return norm(r)
        return r

    def index(self, n, sc, f):
        if isinstance(n, ast.Slice):
            def g(x):
                v = self.ev(x, sc, f) if x is not None else None
                if isinstance(v, Node):
                    if v.q is not None and v.q.denominator == 1:
                        raise PyRaise(TypeError("slice indices must be integers or None or have an __index__ method"))
                    raise Unsupported("symbolic slice bound")
                if is_arr(v):
                    v = v.item()
                return v
            return slice(g(n.lower), g(n.upper), g(n.step))
        if isinstance(n, ast.Tuple):
            return tuple(self.index(e, sc, f) for e in n.elts)
        v = self.ev(n, sc, f)
        if is_arr(v) and v.dtype == object and v.ndim > 0:
            # integer index arrays carried as objects
            flat = [x for x in v.ravel()]
            if flat and all(isinstance(x, bool) for x in flat):
                return v.astype(bool)
            if not flat:
                return v.astype(int)
        return v

    def ev(self, n, sc, f):
        t = type(n)
        if t is ast.Constant:
            v = n.value
            if isinstance(v, float):
                return lift(v)
            return v
        if t is ast.Name:
            return self.lookup(self.mangle(n.id, f), sc, f)
        if t is ast.Attribute:
            return self.getattr(self.ev(n.value, sc, f), self.mangle(n.attr, f))
        if t is ast.BinOp:
            a = self.ev(n.left, sc, f)
            b = self.ev(n.right, sc, f)
            return self.binop(type(n.op), a, b)
        if t is ast.UnaryOp:
            v = self.ev(n.operand, sc, f)
            if isinstance(n.op, ast.Not):
                return not self.truth(v)
            if isinstance(v, Inst):
                m = v.cls.lookup({ast.USub: "__neg__", ast.UAdd: "__pos__", ast.Invert: "__invert__"}[type(n.op)])
                if m is None:
                    raise PyRaise(TypeError("bad operand type for unary operator"))
                return self.call(m, [v], {})
            v = self.arith(v)
            try:
                if isinstance(n.op, ast.USub):
                    return norm(-v)
                if isinstance(n.op, ast.UAdd):
                    return v
                return norm(~v)
            except PROGERR as e:
                raise PyRaise(e)
        if t is ast.Call:
            return self.call_expr(n, sc, f)
        if t is ast.Subscript:
            o = self.ev(n.value, sc, f)
            return self.getitem(o, self.index(n.slice, sc, f))
        if t is ast.Compare:
            a = self.ev(n.left, sc, f)
            res = True
            for k, (op, c) in enumerate(zip(n.ops, n.comparators)):
                b = self.ev(c, sc, f)
                if core.CTX.site:
                    s = core.CTX.site[-1]
                    core.CTX.site[-1] = (s[0], c.lineno, c.col_offset)
                res = self.compare(type(op), a, b)
                if k < len(n.ops) - 1 and not self.truth(res):
                    return res
                a = b
            return res
        if t is ast.BoolOp:
            isand = isinstance(n.op, ast.And)
            v = None
            for e in n.values:
                v = self.ev(e, sc, f)
                if e is n.values[-1]:
                    return v
                b = self.truth(v)
                if isand and not b or not isand and b:
                    return v
            return v
        if t is ast.IfExp:
            return self.ev(n.body if self.truth(self.ev(n.test, sc, f)) else n.orelse, sc, f)
        if t is ast.Tuple:
            return tuple(self.elts(n.elts, sc, f))
        if t is ast.List:
            return self.elts(n.elts, sc, f)
        if t is ast.Set:
            return set(self.elts(n.elts, sc, f))
        if t is ast.Dict:
            d = {}
            for k, v in zip(n.keys, n.values):
                if k is None:
                    m = self.ev(v, sc, f)
                    d.update(m)
                else:
                    kk = self.ev(k, sc, f)
                    d[kk] = self.ev(v, sc, f)
            return d
        if t is ast.ListComp:
            out = []
            self.comp(n.generators, 0, Scope(sc, None, sc.globals_), f,
                      lambda s: out.append(self.ev(n.elt, s, f)))
            return out
        if t is ast.SetComp:
            out = set()
            self.comp(n.generators, 0, Scope(sc, None, sc.globals_), f,
                      lambda s: out.add(self.ev(n.elt, s, f)))
            return out
        if t is ast.GeneratorExp:
            return self.lazy(n.generators, 0, Scope(sc, None, sc.globals_), f, n.elt, self.iter(self.ev(n.generators[0].iter, sc, f)))
        if t is ast.DictComp:
            out = {}

            def add(s):
                k = self.ev(n.key, s, f)
                out[k] = self.ev(n.value, s, f)
            self.comp(n.generators, 0, Scope(sc, None, sc.globals_), f, add)
            return out
        if t is ast.Lambda:
            return self.mkfunc(n, "<lambda>", sc, sc.globals_, f)
        if t is ast.JoinedStr:
            out = ""
            for p in n.values:
                if isinstance(p, ast.Constant):
                    out += p.value
                else:
                    v = self.ev(p.value, sc, f)
                    spec = self.ev(p.format_spec, sc, f) if p.format_spec is not None else ""
                    if p.conversion == 114:
                        out += self.fmt(repr(v), spec)
                    else:
                        out += self.fmt(v, spec)
            return out
        if t is ast.NamedExpr:
            v = self.ev(n.value, sc, f)
            s = sc
            while s.locals is None and s.parent is not None and n.target.id not in s.vars:
                s = s.parent
            self.store(n.target.id, v, s)
            return v
        if t is ast.Starred:
            raise Unsupported("starred expression")
        if t is ast.Yield or t is ast.YieldFrom:
            s = sc
            while "__yield__" not in s.vars:
                s = s.parent
            give = s.vars["__yield__"]
            v = self.ev(n.value, sc, f) if n.value is not None else None
            if t is ast.Yield:
                return give(v)
            for x in self.iter(v):
                give(x)
            return v.ret if isinstance(v, Gen) else None
        if t is ast.Slice:
            return self.index(n, sc, f)
        raise Unsupported("expression %s at line %d" % (t.__name__, getattr(n, "lineno", 0)))

    def lazy(self, gens, k, sc, f, elt, it=None):
        g = gens[k]
        for v in it if it is not None else self.iter(self.ev(g.iter, sc, f)):
            self.assign(g.target, v, sc, f)
            if all(self.truth(self.ev(c, sc, f)) for c in g.ifs):
                if k + 1 < len(gens):
                    yield from self.lazy(gens, k + 1, sc, f, elt)
                else:
                    yield self.ev(elt, sc, f)

    def comp(self, gens, k, sc, f, leaf):
        if k == len(gens):
            leaf(sc)
            return
        g = gens[k]
        for v in self.iter(self.ev(g.iter, sc, f)):
            self.assign(g.target, v, sc, f)
            if all(self.truth(self.ev(c, sc, f)) for c in g.ifs):
                self.comp(gens, k + 1, sc, f, leaf)

    def elts(self, es, sc, f):
        out = []
        for e in es:
            if isinstance(e, ast.Starred):
                out.extend(self.iter(self.ev(e.value, sc, f)))
            else:
                out.append(self.ev(e, sc, f))
        return out

    def call_expr(self, n, sc, f):
        fn = n.func
        if isinstance(fn, ast.Name) and fn.id == "super" and "super" not in sc.vars:
            if n.args:
                c, o = [self.ev(a, sc, f) for a in n.args]
                return Super(c, o)
            s = sc
            first = f.node.args.args[0].arg
            return Super(f.cls, self.lookup(first, sc, f))
        if isinstance(fn, ast.Name) and fn.id == "locals" and not n.args:
            return dict(sc.vars)
        g = self.ev(fn, sc, f)
        args = self.elts(n.args, sc, f)
        kw = {}
        for k in n.keywords:
            v = self.ev(k.value, sc, f)
            if k.arg is None:
                for kk, vv in v.items():
                    if kk in kw:
                        raise PyRaise(TypeError("got multiple values for keyword argument '%s'" % kk))
                    kw[kk] = vv
            else:
                if k.arg in kw:
                    raise PyRaise(TypeError("got multiple values for keyword argument '%s'" % k.arg))
                kw[k.arg] = v
        if core.CTX.site:
            s = core.CTX.site[-1]
            core.CTX.site[-1] = (s[0], n.lineno, n.col_offset)
        return self.call(g, args, kw)

    # ---------------------------------------------------------------- formatting
    def fmt(self, v, spec):
        return self.hooks["fmt"](v, spec)

    def str_format(self, s, a, k):
        import string
        out = ""
        auto = 0
        for lit_, field, spec, conv in string.Formatter().parse(s):
            out += lit_
            if field is None:
                continue
            if spec and "{" in spec:
                spec = self.str_format(spec, a[auto + 1:] if field == "" else a, k)
            name, rest = _split_field(field)
            if name == "":
                v = a[auto]
                auto += 1
            elif name.isdigit():
                if int(name) >= len(a):
                    raise PyRaise(IndexError("Replacement index %s out of range" % name))
                v = a[int(name)]
            else:
                if name not in k:
                    raise PyRaise(KeyError(name))
                v = k[name]
            for kind, x in rest:
                v = self.getattr(v, x) if kind == "." else self.getitem(v, int(x) if x.isdigit() else x)
            if conv == "r":
                v = repr(v)
            out += self.fmt(v, spec or "")
        return out

    def percent_format(self, s, a):
        import re
        out = ""
        pos = 0
        vals = list(a) if isinstance(a, tuple) else [a]
        k = 0
        for m in re.finditer(r"%(\((\w+)\))?([-+ 0#]*)(\d+|\*)?(?:\.(\d+|\*))?([diouxXeEfFgGcrsa%])", s):
            out += s[pos:m.start()]
            pos = m.end()
            c = m.group(6)
            if c == "%":
                out += "%"
                continue
            if m.group(2):
                v = a[m.group(2)]
            else:
                if k >= len(vals):
                    raise PyRaise(TypeError("not enough arguments for format string"))
                v = vals[k]
                k += 1
            flags = m.group(3) or ""
            w = m.group(4) or ""
            p = "." + m.group(5) if m.group(5) else ""
            align = "<" if "-" in flags else (">" if w and c in "sr" else "")
            sign = "+" if "+" in flags else ""
            zero = "0" if "0" in flags and "-" not in flags else ""
            if c in "diu":
                out += self.fmt(v, align + sign + zero + w + "d")
            elif c in "sr":
                out += self.fmt(v if isinstance(v, str) else self.hooks["str"](v), align + w + p)
            else:
                out += self.fmt(v, align + sign + zero + w + p + c)
        out += s[pos:]
        return out


class _ClassBody:
    def __init__(self, cls):
        self.cls = cls


def _split_field(field):
    import re
    m = re.match(r"^([^.\[]*)", field)
    name = m.group(1)
    rest = []
    s = field[m.end():]
    while s:
        m = re.match(r"^\.(\w+)|^\[([^\]]*)\]", s)
        if not m:
            raise Unsupported("format field " + field)
        rest.append((".", m.group(1)) if m.group(1) else ("[", m.group(2)))
        s = s[m.end():]
    return name, rest
