"""Models of builtins, numpy, scipy, os and openmdao used when the analysed package is interpreted."""
import ast
import functools
import itertools
import math as _math
import operator
import types
import weakref
from fractions import Fraction

import numpy as np

import core
from core import Node, Unsupported, const, lift
from pyinterp import (Bound, CachedProp, ClassMaker, Cls, CtxManager, enum_class, ClassM, Func, Inst, Model, Module, Native, Prop, PyRaise, StaticM, is_arr, liftarr,
                      norm)

TYPEERR = (TypeError, AttributeError)


def prog(exc):
    raise PyRaise(exc)


# ------------------------------------------------------------------ array helpers
def asarr(x, obj=True):
    """np.asarray of a program value; object dtype holding Nodes unless integer/boolean"""
    if is_arr(x):
        return liftarr(x) if x.dtype.kind == "f" else x
    if isinstance(x, Node):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, bool):
        return np.array(x)
    if isinstance(x, (int, np.integer)):
        return np.array(int(x))
    if isinstance(x, float):
        return asarr(lift(x))
    if x is None:
        a = np.empty((), dtype=object)
        a[()] = None
        return a
    if isinstance(x, (list, tuple)) or hasattr(x, "__next__") or isinstance(x, (range, map, zip)) or \
            type(x).__name__ in ("dict_keys", "dict_values"):
        if hasattr(x, "__next__") or isinstance(x, (map, zip)) or type(x).__name__.startswith("dict_"):
            if not type(x).__name__.startswith("dict_"):
                raise Unsupported("array of a generator")
            x = list(x)
        items = [asarr(e) if not isinstance(e, (str, Inst, Model)) or isinstance(e, Node) else e for e in x]
        if not items:
            return np.empty(0, dtype=object)
        if not all(is_arr(e) for e in items):
            a = np.empty(len(items), dtype=object)
            for i, e in enumerate(items):
                a[i] = e[()] if is_arr(e) and e.ndim == 0 else e
            return a
        sh = items[0].shape
        if any(e.shape != sh for e in items):
            prog(ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape"))
        if all(e.dtype.kind == "b" for e in items):
            return np.array(items)
        if all(e.dtype.kind in "biu" for e in items):
            return np.array(items).astype(int)
        r = np.empty((len(items),) + sh, dtype=object)
        for i, e in enumerate(items):
            e = liftarr(e)
            if e.ndim == 0:
                r[i] = e[()]
            else:
                r[i] = e
        return r
    if isinstance(x, (str, Inst, Model)):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    raise Unsupported("array from " + type(x).__name__)


def oarr(x):
    return liftarr(asarr(x))


def ew(fn, nin=1):
    u = np.frompyfunc(lambda *a: fn(*[lift(x) for x in a]), nin, 1)

    def f(*args, out=None, where=None, dtype=None, **kw):
        if kw:
            raise Unsupported("keyword of elementwise function")
        if len(args) > nin:
            out = args[nin]
            args = args[:nin]
        xs = [a if isinstance(a, (Node, int, bool)) else asarr(a) for a in args]
        if where is not None:
            where = asarr(where)
            xs = np.broadcast_arrays(*[oarr(x) for x in xs], where)
            where = xs[-1]
            r = oarr(out).copy() if out is not None else np.full(where.shape, core.undef("masked"), dtype=object)
            for i in np.ndindex(where.shape):
                if where[i]:
                    r[i] = fn(*[lift(x[i]) for x in xs[:-1]])
        elif not any(is_arr(x) for x in xs):
            r = fn(*[lift(x) for x in xs])
        else:
            xs = [asarr(x) if not is_arr(x) else x for x in xs]
            try:
                r = u(*xs)
            except ValueError as e:
                prog(e)
        if out is not None:
            if isinstance(out, tuple):
                out = out[0]
            out[...] = r
            return out
        return r
    f.__module__ = "npmodel"
    return f


def sign(x):
    x = lift(x)
    if x.v is None:
        return x
    if x.v == 0:
        return const(0)
    s = core.CTX.implied(x)
    if s:
        return const(s)
    if x.f is None and core.CTX.abs_mode == "fork":
        return const(1 if core.CTX.positive(x) else -1)
    if x.f is not None:
        return const(1 if x.f > 0 else -1)
    return core.div(core.absv(x), x)


def deg2rad(x):
    return core.mul(x, core.div(core.PI(), const(180)))


def rad2deg(x):
    return core.mul(x, core.div(const(180), core.PI()))


def logical(fn, nin):
    def f(*a, out=None):
        xs = [asarr(x).astype(bool) if asarr(x).dtype != object else
              np.frompyfunc(bool, 1, 1)(asarr(x)).astype(bool) for x in a]
        try:
            return norm(fn(*xs))
        except ValueError as e:
            prog(e)
    f.__module__ = "npmodel"
    return f


def reduce_axis(fn, x, axis=None, keepdims=False):
    a = asarr(x)
    if axis is None:
        r = fn(list(a.ravel()))
        if keepdims:
            z = np.empty((1,) * a.ndim, dtype=object)
            z.ravel()[0] = r
            return z
        return r
    if isinstance(axis, tuple):
        for ax in sorted([k % a.ndim for k in axis], reverse=True):
            a = reduce_axis(fn, a, ax)
        return a
    if axis >= a.ndim or axis < -a.ndim:
        prog(ValueError("axis %d is out of bounds for array of dimension %d" % (axis, a.ndim)))
    b = np.moveaxis(a, axis, -1)
    r = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = fn(list(b[i]))
    if keepdims:
        r = np.expand_dims(r, axis)
    if r.ndim == 0:
        return r[()]
    return r


def allint(a):
    return is_arr(a) and a.dtype.kind in "iub"


def _sum(l):
    r = const(0)
    for x in l:
        r = core.add(r, lift(x))
    return r


def np_sum(x, axis=None, dtype=None, out=None, keepdims=False, initial=None, where=None):
    a = asarr(x) if not hasattr(x, "__next__") else asarr(list(x))
    if where is not None:
        a = np.where(asarr(where), oarr(a), const(0))
    if allint(a):
        return norm(np.sum(a, axis=axis, keepdims=keepdims))
    r = reduce_axis(_sum, a, axis, keepdims)
    return r if initial is None else r + initial


def _prod(l):
    r = const(1)
    for x in l:
        r = core.mul(r, lift(x))
    return r


def np_prod(x, axis=None, dtype=None):
    a = asarr(x)
    if allint(a):
        return norm(np.prod(a, axis=axis))
    return reduce_axis(_prod, a, axis)


def np_mean(x, axis=None, dtype=None, keepdims=False):
    a = oarr(x)
    n = a.size if axis is None else a.shape[axis]
    if n == 0:
        return core.special("nan")
    return reduce_axis(lambda l: core.div(_sum(l), const(len(l))), a, axis, keepdims)


def _mx(l, mx=True):
    if not l:
        prog(ValueError("zero-size array to reduction operation maximum which has no identity"))
    if any(lift(x).v is None for x in l):
        return core.special("nan")
    return core.maxn(l, mx)


def np_max(x, axis=None, initial=None, keepdims=False):
    a = asarr(x)
    if allint(a):
        return norm(np.max(a, axis=axis))
    return reduce_axis(lambda l: _mx(l), a, axis, keepdims)


def np_min(x, axis=None, initial=None, keepdims=False):
    a = asarr(x)
    if allint(a):
        return norm(np.min(a, axis=axis))
    return reduce_axis(lambda l: _mx(l, False), a, axis, keepdims)


class NpInt(int):
    """an integer numpy made: adding it to a list broadcasts"""


def _argm(l, mx):
    if not l:
        prog(ValueError("attempt to get argmax of an empty sequence"))
    b = 0
    for i in range(1, len(l)):
        d = core.sub(lift(l[i]), lift(l[b]))
        if d.v is None:
            continue
        if d.v == 0:
            continue
        p = core.CTX.positive(d)
        if p == mx:
            b = i
    return NpInt(b)


def np_argmax(x, axis=None):
    a = asarr(x)
    if axis is None:
        return _argm(list(a.ravel()), True)
    r = reduce_axis(lambda l: _argm(l, True), a, axis)
    return r.astype(int) if is_arr(r) else r


def np_argmin(x, axis=None):
    a = asarr(x)
    if axis is None:
        return _argm(list(a.ravel()), False)
    r = reduce_axis(lambda l: _argm(l, False), a, axis)
    return r.astype(int) if is_arr(r) else r


def shape_of(s):
    if isinstance(s, (list, tuple)):
        return tuple(int(k) if not isinstance(k, Node) else prog(TypeError("'float' object cannot be interpreted as an integer")) for k in s)
    if is_arr(s) and s.ndim == 1:
        return tuple(int(k) for k in s)
    if isinstance(s, Node):
        prog(TypeError("'float' object cannot be interpreted as an integer"))
    return (int(s),)


def kind_of_dtype(d):
    if d is None:
        return "f"
    n = getattr(d, "name", None) or getattr(d, "__name__", None) or str(d)
    if n in ("int", "i", "i8", "i4", "intp", "int_", "long", "integer") or n.lstrip("u") in ("int8", "int16", "int32", "int64"):
        return "i"
    if n in ("float32", "float16", "single", "half", "f4", "f2", "f"):
        return "s"
    if n in ("bool", "bool_", "?"):
        return "b"
    if n in ("object", "O"):
        return "O"
    if n in ("complex", "complex128"):
        return "f"
    return "f"


class Single(np.ndarray):
    """array that keeps single-precision numbers: what is stored in it is rounded"""


def single(x):
    """the nearest single-precision number"""
    x = lift(x)
    if x.q is not None:
        y = Fraction(float(np.float32(float(x.q))))
        return x if y == x.q else const(y)
    return x if x.v is None else core.func("single", x)


def np_full(shape, val, dtype=None):
    sh = shape_of(shape)
    k = kind_of_dtype(dtype) if dtype is not None else ("b" if isinstance(val, bool) else "i" if isinstance(val, int) else "f")
    if k == "i":
        return np.full(sh, int(val))
    if k == "b":
        return np.full(sh, bool(val))
    a = np.empty(sh, dtype=object)
    v = val if k == "O" else (oarr(val) if not isinstance(val, Node) else val)
    if is_arr(v):
        a[...] = v
    else:
        for i in np.ndindex(a.shape):
            a[i] = v
    if k == "s":
        for i in np.ndindex(a.shape):
            a[i] = single(a[i])
        return a.view(Single)
    return a


def np_zeros(shape, dtype=None, order=None):
    return np_full(shape, const(0) if kind_of_dtype(dtype) not in "ib" else 0, dtype or FLOAT)


def np_ones(shape, dtype=None, order=None):
    return np_full(shape, const(1) if kind_of_dtype(dtype) not in "ib" else 1, dtype or FLOAT)


def np_empty(shape, dtype=None, order=None):
    k = kind_of_dtype(dtype)
    if k in "ib":
        return np.zeros(shape_of(shape), dtype=int if k == "i" else bool)
    a = np.empty(shape_of(shape), dtype=object)
    for i in np.ndindex(a.shape):
        a[i] = core.undef("uninitialised")
    return a


def _like(v):
    def f(x, dtype=None):
        a = asarr(x)
        if dtype is None and a.dtype.kind in "ib":
            return np.full(a.shape, v if a.dtype.kind == "i" else bool(v))
        return np_full(a.shape, const(v) if kind_of_dtype(dtype) not in "ib" else v, dtype or FLOAT)
    f.__module__ = "npmodel"
    return f


def np_array(x, dtype=None, copy=True, ndmin=0, order=None):
    a = asarr(x)
    if a is x or (is_arr(x) and np.shares_memory(a, x)):
        a = a.copy() if copy else a
    if dtype is not None:
        a = cast(a, dtype)
    while a.ndim < ndmin:
        a = a[None]
    return a


def np_asarray(x, dtype=None, order=None):
    a = asarr(x)
    if dtype is not None:
        a = cast(a, dtype)
    return a


def cast(a, dtype):
    k = kind_of_dtype(dtype)
    if k == "i":
        if a.dtype == object:
            def one(x):
                x = lift(x)
                if x.q is not None:
                    return int(x.q)
                return core.func("trunc", x)
            r = np.frompyfunc(one, 1, 1)(a)
            if any(isinstance(x, Node) for x in np.ravel(np.asarray(r, dtype=object))):
                return asarr(r)
            return r.astype(int) if a.ndim else np.array(one(a[()]))
        return a.astype(int)
    if k == "b":
        return np.frompyfunc(bool, 1, 1)(a).astype(bool) if a.size else a.astype(bool)
    if k == "O":
        return a
    if k == "s":
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = single(a[i])
        return r.view(Single)
    def chk(x):
        if isinstance(x, str):
            return pyfloat(x)
        if x is None:
            return core.special("nan")
        return lift(x)
    if a.dtype == object:
        r = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            r[i] = chk(a[i])
        return r
    return liftarr(a)


def np_eye(n, m=None, k=0, dtype=None):
    return liftarr(np.eye(n, m, k)) if kind_of_dtype(dtype) == "f" else np.eye(n, m, k, dtype=int)


def np_diag(v, k=0):
    a = asarr(v)
    if a.dtype == object and a.ndim == 1:
        n = len(a) + abs(k)
        r = np_zeros((n, n))
        for i in range(len(a)):
            r[i + max(-k, 0), i + max(k, 0)] = a[i]
        return r
    return np.diag(a, k).copy()


def np_linspace(a, b, num=50, endpoint=True, retstep=False, dtype=None, axis=0):
    if isinstance(num, Node):
        prog(TypeError("'float' object cannot be interpreted as an integer"))
    num = int(num)
    a, b = asarr(a), asarr(b)
    a, b = liftarr(a), liftarr(b)
    div = num - 1 if endpoint else num
    r = []
    for i in range(num):
        if i == div and endpoint and num > 1:
            r.append(b[()] if b.ndim == 0 else b)
        else:
            t = const(Fraction(i, div)) if div else const(0)
            r.append((a + (b - a) * t) if i else (a[()] if a.ndim == 0 else a))
    out = asarr(r) if r else np.empty(0, dtype=object)
    out = liftarr(out)
    if retstep:
        return out, norm(b[()] - a[()]) / div
    return out


def np_arange(*a, dtype=None, step=None):
    if step is not None:
        a = (tuple(a) + (step,)) if len(a) == 2 else (0, a[0], step)
    if all(isinstance(x, (int, np.integer)) for x in a):
        return np.arange(*a)
    a = [lift(x[()] if is_arr(x) else x) for x in a]
    if len(a) == 1:
        s, e, st = const(0), a[0], const(1)
    elif len(a) == 2:
        s, e, st = a[0], a[1], const(1)
    else:
        s, e, st = a
    if any(x.f is None for x in (s, e, st)):
        raise Unsupported("arange with symbolic bounds")
    n = max(0, _math.ceil((e.f - s.f) / st.f - 1e-12))
    return liftarr(asarr([s + st * k for k in range(n)])) if n else np.empty(0, dtype=object)


def sorted_check(xp):
    for i in range(len(xp) - 1):
        d = core.sub(lift(xp[i + 1]), lift(xp[i]))
        if d.f is not None and d.f < 0:
            return False
    return True


def interp1(x, xp, fp, left=None, right=None):
    x = lift(x)
    n = len(xp)
    if x.v is None:
        return core.special("nan")
    if any(p.v is None for p in xp):
        raise Unsupported("interpolation over undefined abscissae")
    if n == 1:
        return lift(fp[0])
    if not sorted_check(xp):
        # numpy searches as if the abscissae increased: follow it on known numbers, keep it opaque otherwise
        if x.f is not None and left is None and right is None and all(p.f is not None for p in xp):
            t = float(np.interp(x.f, [p.f for p in xp], np.arange(n)))
            k = int(_math.floor(t))
            return lift(fp[k]) if t == k else seg(x, xp, fp, k)
        return core.func("interp_unsorted", x, *list(xp), *list(fp))
    # knot hit
    for k in range(n):
        if x.v == xp[k].v:
            if k < n - 1 and xp[k + 1].v == xp[k].v:
                continue
            return lift(fp[k])
    known = x.f is not None and all(p.f is not None for p in xp)

    def gt(a, b):
        if known:
            return a.f > b.f
        return core.CTX.greater(a, b)
    if not known and core.CTX.abs_mode != "fork":
        s0 = core.CTX.implied(core.sub(xp[0], x))
        s1 = core.CTX.implied(core.sub(x, xp[n - 1]))
        if s0 <= 0 and s1 <= 0:
            # try to locate the interval with the orders implied so far, else keep it uninterpreted
            for k in range(n - 1):
                if core.CTX.implied(core.sub(x, xp[k])) > 0 and core.CTX.implied(core.sub(xp[k + 1], x)) > 0:
                    return seg(x, xp, fp, k)
            return core.func("interp", x, *list(xp), *list(fp))
    if gt(xp[0], x):
        return lift(fp[0]) if left is None else lift(left)
    if gt(x, xp[n - 1]):
        return lift(fp[n - 1]) if right is None else lift(right)
    for k in range(n - 1):
        if xp[k + 1].v == xp[k].v:
            continue
        if gt(xp[k + 1], x):
            return seg(x, xp, fp, k)
    return lift(fp[n - 1])


def seg(x, xp, fp, k):
    f0, f1 = lift(fp[k]), lift(fp[k + 1])
    t = core.div(core.sub(x, xp[k]), core.sub(xp[k + 1], xp[k]))
    return core.add(f0, core.mul(core.sub(f1, f0), t))


def np_interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("periodic interpolation")
    xp, fp = oarr(xp).ravel(), oarr(fp).ravel()
    if len(xp) != len(fp):
        prog(ValueError("fp and xp are not of the same length."))
    if len(xp) == 0:
        prog(ValueError("array of sample points is empty"))
    xs = asarr(x)
    if xs.ndim == 0:
        return interp1(xs[()].item() if hasattr(xs[()], "item") else xs[()], xp, fp, left, right)
    r = np.empty(xs.shape, dtype=object)
    for i in np.ndindex(xs.shape):
        r[i] = interp1(lift(xs[i]), xp, fp, left, right)
    return r


def order(vals):
    """stable argsort of domain values"""
    vals = [lift(v) for v in vals]

    def cmp(i, j):
        d = core.sub(vals[i], vals[j])
        if d.v is None or d.v == 0:
            return 0
        return 1 if core.CTX.positive(d) else -1
    return sorted(range(len(vals)), key=functools.cmp_to_key(cmp))


def np_sort(x, axis=-1, kind=None):
    a = asarr(x)
    if allint(a):
        return np.sort(a)
    if a.ndim != 1:
        raise Unsupported("sort of a matrix")
    return a[order(list(a))]


def np_argsort(x, axis=-1, kind=None):
    a = asarr(x)
    if allint(a):
        return np.argsort(a, kind="stable")
    return np.array(order(list(a)), dtype=int)


def np_unique(x, return_index=False, return_inverse=False, return_counts=False):
    a = asarr(x).ravel()
    if allint(a):
        return np.unique(a, return_index=return_index, return_inverse=return_inverse, return_counts=return_counts)
    o = order(list(a))
    out, idx, cnt = [], [], []
    inv = [0] * len(a)
    for i in o:
        v = lift(a[i])
        if out and out[-1].v == v.v:
            cnt[-1] += 1
        else:
            out.append(v)
            idx.append(i)
            cnt.append(1)
        inv[i] = len(out) - 1
    r = asarr(out)
    res = [r]
    if return_index:
        res.append(np.array(idx))
    if return_inverse:
        res.append(np.array(inv))
    if return_counts:
        res.append(np.array(cnt))
    return res[0] if len(res) == 1 else tuple(res)


def cat(xs, axis=0):
    if hasattr(xs, "__next__"):
        xs = list(xs)
    arrs = [asarr(x) for x in xs]
    if any(a.dtype == object for a in arrs):
        arrs = [a if a.dtype == object else liftarr(a) for a in arrs]
    return arrs


def structural(fn):
    def f(xs, *a, **k):
        try:
            return norm(fn(cat(xs), *a, **k))
        except ValueError as e:
            prog(e)
    f.__module__ = "npmodel"
    return f


def one_arr(fn):
    def f(x, *a, **k):
        try:
            return norm(fn(asarr(x), *[asarr(y) if isinstance(y, (list,)) else y for y in a], **k))
        except ValueError as e:
            prog(e)
    f.__module__ = "npmodel"
    return f


def two_arr(fn):
    def f(x, y, *a, **k):
        x, y = asarr(x), asarr(y)
        if x.dtype == object or y.dtype == object:
            x, y = liftarr(x), liftarr(y)
        try:
            return norm(fn(x, y, *a, **k))
        except ValueError as e:
            prog(e)
    f.__module__ = "npmodel"
    return f


def np_where(c, x=None, y=None):
    c = asarr(c)
    if c.dtype == object:
        c = np.frompyfunc(bool, 1, 1)(c).astype(bool) if c.ndim else np.array(bool(c[()]))
    if x is None:
        return np.where(c)
    x, y = asarr(x), asarr(y)
    if x.dtype == object or y.dtype == object:
        x, y = liftarr(x), liftarr(y)
    c, x, y = np.broadcast_arrays(c, x, y)
    r = np.empty(c.shape, dtype=x.dtype)
    for i in np.ndindex(c.shape):
        r[i] = x[i] if c[i] else y[i]
    return r


def solve(A, B):
    """Gaussian elimination over the value domain (first non-zero pivot; exact arithmetic)"""
    n = len(A)
    A = [[lift(A[i][j]) for j in range(n)] + [lift(v) for v in np.atleast_1d(B[i])] for i in range(n)]
    for c in range(n):
        p = next((r for r in range(c, n) if A[r][c].v not in (0, None)), None)
        if p is None:
            prog(np.linalg.LinAlgError("Singular matrix"))
        A[c], A[p] = A[p], A[c]
        inv = core.div(const(1), A[c][c])
        A[c] = [core.mul(x, inv) for x in A[c]]
        for r in range(n):
            if r != c and A[r][c].v != 0:
                k = A[r][c]
                A[r] = [core.sub(x, core.mul(k, y)) for x, y in zip(A[r], A[c])]
    return [row[n:] for row in A]


def _det(A):
    A = oarr(A)
    n = len(A)
    if n == 1:
        return A[0][0]
    t = const(0)
    for j in range(n):
        m = np.delete(np.delete(A, 0, 0), j, 1)
        t = t + (A[0][j] if j % 2 == 0 else -A[0][j]) * _det(m)
    return t


def np_polyfit(x, y, deg, rcond=None, full=False, w=None, cov=False):
    x, y = oarr(x).ravel(), oarr(y).ravel()
    if len(x) != len(y):
        prog(TypeError("expected x and y to have same length"))
    if len(x) == 0:
        prog(TypeError("expected non-empty vector for x"))
    d = int(deg)
    ww = oarr(w).ravel() if w is not None else np_ones(len(x))
    M = [[_sum([core.mul(core.power(xi, const(i + j)), core.mul(wi, wi)) for xi, wi in zip(x, ww)]) for j in range(d + 1)]
         for i in range(d + 1)]
    b = [_sum([core.mul(core.mul(yi, core.power(xi, const(i))), core.mul(wi, wi)) for xi, yi, wi in zip(x, y, ww)]) for i in range(d + 1)]
    try:
        s = solve(M, b)
    except PyRaise:
        return asarr([core.func("polyfit_rank_deficient%d" % k, *x, *y) for k in range(d + 1)])
    r = asarr([row[0] for row in s][::-1])
    return r


def np_polyval(p, x):
    p = oarr(p)
    xs = asarr(x)
    r = const(0)
    for c in p:
        r = r * (liftarr(xs) if xs.ndim else lift(xs[()])) + c
    return norm(r)


def np_gradient(f, *varargs, axis=None, edge_order=1):
    f = oarr(f)
    if f.ndim != 1:
        raise Unsupported("gradient of a matrix")
    n = len(f)
    if n < 2:
        prog(ValueError("Shape of array too small to calculate a numerical gradient"))
    g = np.empty(n, dtype=object)
    if varargs and asarr(varargs[0]).ndim == 1:
        x = oarr(varargs[0])
        h = [x[i + 1] - x[i] for i in range(n - 1)]
    else:
        s = lift(varargs[0]) if varargs else const(1)
        h = [s] * (n - 1)
    g[0] = (f[1] - f[0]) / h[0]
    g[n - 1] = (f[n - 1] - f[n - 2]) / h[n - 2]
    for i in range(1, n - 1):
        a, b = h[i - 1], h[i]
        if a.v == b.v:
            g[i] = (f[i + 1] - f[i - 1]) / (a + b)
        else:
            g[i] = (a * a * f[i + 1] + (b * b - a * a) * f[i] - b * b * f[i - 1]) / (a * b * (a + b))
    return g


def np_trapz(y, x=None, dx=None, axis=-1):
    y = oarr(y)
    r = const(0) if y.ndim == 1 else None
    y = np.moveaxis(y, axis, -1)
    n = y.shape[-1]
    if x is not None:
        xx = oarr(x)
    tot = None
    for i in range(n - 1):
        h = (xx[..., i + 1] - xx[..., i]) if x is not None else (lift(dx) if dx is not None else const(1))
        t = (y[..., i + 1] + y[..., i]) * h / const(2)
        tot = t if tot is None else tot + t
    return norm(tot) if tot is not None else const(0)


def np_searchsorted(a, v, side="left", sorter=None):
    a = oarr(a)

    def one(x):
        x = lift(x)
        k = 0
        for p in a:
            d = core.sub(x, p)
            if d.v == 0:
                if side == "right":
                    k += 1
                    continue
                break
            if core.CTX.positive(d):
                k += 1
            else:
                break
        return k
    vs = asarr(v)
    if vs.ndim == 0:
        return one(vs[()])
    return np.array([one(x) for x in vs], dtype=int)


def np_cross(a, b, axis=-1, **k):
    a, b = oarr(a), oarr(b)
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    r = [a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0]
    r = [asarr(x) for x in r]
    return norm(np.stack(r, axis=-1))


def np_dot(a, b, out=None):
    a, b = asarr(a), asarr(b)
    if a.dtype == object or b.dtype == object:
        a, b = liftarr(a), liftarr(b)
    if a.ndim == 0 or b.ndim == 0:
        return norm(a * b)
    try:
        return norm(np.dot(a, b))
    except ValueError as e:
        prog(e)


def np_norm(x, ord=None, axis=None):
    a = oarr(x)
    if ord not in (None, 2):
        raise Unsupported("norm order")
    return reduce_axis(lambda l: core.sqrt(_sum([core.mul(v, v) for v in l])), a, axis)


def np_isnan(x):
    def one(v):
        v = lift(v)
        if v.v is None:
            return v.f is None
        h = HOOKS.get("isnan")
        return bool(h(v)) if h else False
    a = asarr(x)
    if a.ndim == 0:
        return one(a[()])
    return np.frompyfunc(one, 1, 1)(a).astype(bool)


def np_isfinite(x):
    a = asarr(x)
    if a.ndim == 0:
        return lift(a[()]).v is not None
    return np.frompyfunc(lambda v: lift(v).v is not None, 1, 1)(a).astype(bool)


def np_isinf(x):
    a = asarr(x)

    def one(v):
        v = lift(v)
        return v.v is None and v.f is not None
    if a.ndim == 0:
        return one(a[()])
    return np.frompyfunc(one, 1, 1)(a).astype(bool)


def np_nan_to_num(x, copy=True, nan=0, posinf=None, neginf=None):
    def one(v):
        v = lift(v)
        h = HOOKS.get("isnan")
        if v.v is None and v.f is None:
            return lift(nan)
        if h and h(v):
            return lift(nan)
        return v
    a = asarr(x)
    if a.ndim == 0:
        return one(a[()])
    r = np.frompyfunc(one, 1, 1)(a)
    if not copy and is_arr(x):
        x[...] = r
        return x
    return r


def np_isclose(a, b, rtol=None, atol=None, equal_nan=False):
    a, b = asarr(a), asarr(b)
    rt = lift(rtol) if rtol is not None else const(Fraction(1, 10 ** 5))
    at = lift(atol) if atol is not None else const(Fraction(1, 10 ** 8))

    def one(x, y):
        x, y = lift(x), lift(y)
        d = core.sub(x, y)
        if d.v is None:
            return False
        if d.v == 0:
            return True
        if d.f is not None:
            return abs(d.f) <= at.f + rt.f * abs(y.f)
        if core.CTX.iszero(d):
            return True
        # far apart in generic position, but two different numbers may be close as well
        return not core.CTX.ask(("apart", core.fmul(d.v, d.v), rt.v, at.v))
    r = np.frompyfunc(one, 2, 1)(a, b)
    return r.astype(bool) if is_arr(r) else bool(r)


def np_clip(x, lo, hi, out=None):
    r = x
    if lo is not None:
        r = NPF["maximum"](r, lo)
    if hi is not None:
        r = NPF["minimum"](r, hi)
    return r


def cum(fn):
    def f(x, axis=None):
        a = oarr(x)
        if axis is None:
            a = a.ravel()
            axis = 0
        b = np.moveaxis(a, axis, 0)
        r = np.empty(b.shape, dtype=object)
        acc = None
        for i in range(b.shape[0]):
            acc = b[i] if acc is None else fn(acc, b[i])
            r[i] = acc
        return np.moveaxis(r, 0, axis)
    f.__module__ = "npmodel"
    return f


def np_diff(x, n=1, axis=-1):
    a = asarr(x)
    return norm(np.diff(a, n=n, axis=axis)) if a.dtype != object else norm(_diff(a, n, axis))


def _diff(a, n, axis):
    for _ in range(n):
        a = np.moveaxis(a, axis, -1)
        a = a[..., 1:] - a[..., :-1]
        a = np.moveaxis(a, -1, axis)
    return a


def np_vectorize(f, otypes=None, excluded=None):
    def g(*a):
        xs = np.broadcast_arrays(*[asarr(x) for x in a])
        r = np.empty(xs[0].shape, dtype=object)
        for i in np.ndindex(r.shape):
            r[i] = f(*[norm(x[i]) for x in xs])
        return r
    g.__module__ = "npmodel"
    return g


class CClass(Model):
    def __init__(self, kind):
        self.kind = kind

    def __getitem__(self, key):
        if not isinstance(key, tuple):
            key = (key,)
        parts = []
        for k in key:
            if isinstance(k, slice):
                if isinstance(k.step, complex):
                    parts.append(np_linspace(k.start, k.stop, int(abs(k.step))))
                else:
                    parts.append(np_arange(*[x for x in (k.start or 0, k.stop, k.step) if x is not None]))
            elif isinstance(k, str):
                raise Unsupported("r_ directives")
            else:
                parts.append(asarr(k))
        if any(p.dtype == object for p in parts):
            parts = [liftarr(p) for p in parts]
        try:
            if self.kind == "r":
                return norm(np.concatenate([np.atleast_1d(p) for p in parts]))
            cols = []
            for p in parts:
                cols.append(np.atleast_1d(p)[:, None] if p.ndim <= 1 else p)
            return norm(np.concatenate(cols, axis=-1))
        except ValueError as e:
            prog(e)


NPF = {}


def npf(name, fn):
    try:
        fn.__module__ = "npmodel"
    except AttributeError:
        pass
    NPF[name] = fn


for _n, _f in dict(sin=core.sin, cos=core.cos, tan=core.tan, exp=core.exp, log=core.log, sqrt=core.sqrt,
                   arctan=core.atan, arccos=core.acos, arcsin=core.asin, abs=core.absv, absolute=core.absv,
                   fabs=core.absv, floor=core.floorv, ceil=lambda a: core.neg(core.floorv(core.neg(a))),
                   deg2rad=deg2rad, radians=deg2rad, rad2deg=rad2deg, degrees=rad2deg, square=lambda a: core.mul(a, a),
                   negative=core.neg, sign=sign, reciprocal=lambda a: core.div(const(1), a),
                   log10=lambda a: core.div(core.log(a), core.log(const(10))),
                   log2=lambda a: core.div(core.log(a), core.log(const(2))),
                   log1p=lambda a: core.log(core.add(a, const(1))), expm1=lambda a: core.sub(core.exp(a), const(1)),
                   sinh=lambda a: core.div(core.sub(core.exp(a), core.exp(core.neg(a))), const(2)),
                   cosh=lambda a: core.div(core.add(core.exp(a), core.exp(core.neg(a))), const(2)),
                   cbrt=lambda a: core.power(a, const(Fraction(1, 3))),
                   real=lambda a: a, positive=lambda a: a, rint=lambda a: const(round(a.q)) if a.q is not None else core.func("rint", a)).items():
    npf(_n, ew(_f))
for _n, _f in dict(arctan2=core.atan2, atan2=core.atan2, power=core.power, add=core.add, subtract=core.sub,
                   multiply=core.mul, divide=core.div, true_divide=core.div, maximum=core.maxv, minimum=core.minv,
                   fmax=core.maxv, fmin=core.minv, float_power=core.power,
                   hypot=lambda a, b: core.sqrt(core.add(core.mul(a, a), core.mul(b, b))),
                   mod=lambda a, b: a % b, remainder=lambda a, b: a % b,
                   floor_divide=lambda a, b: a // b,
                   copysign=lambda a, b: core.mul(core.absv(a), sign(b)),
                   heaviside=lambda a, h: (const(0) if core.CTX.positive(core.neg(a)) else const(1)) if a.v != 0 else h).items():
    npf(_n, ew(_f, 2))
NPF["asin"], NPF["acos"], NPF["atan"] = NPF["arcsin"], NPF["arccos"], NPF["arctan"]


def np_convolve(a, v, mode="full"):
    a, v = asarr(a).ravel(), asarr(v).ravel()
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full = []
    for k in range(n + m - 1):
        t = const(0)
        for j in range(m):
            if 0 <= k - j < n:
                t = core.add(t, core.mul(lift(a[k - j]), lift(v[j])))
        full.append(t)
    if mode == "same":
        o = (m - 1) // 2
        full = full[o:o + n]
    elif mode == "valid":
        full = full[m - 1:n]
    return oarr(full)


def _sinc(a):
    x = core.mul(core.PI(), a)
    return const(1) if a.v == 0 else core.div(core.sin(x), x)


def np_unwrap(p, **k):
    p = asarr(p)
    if p.ndim != 1 or k:
        raise Unsupported("np.unwrap of this")
    out, shift, pi = [lift(p[0])], const(0), core.PI()
    for a, b in zip(p[:-1], p[1:]):
        d = core.sub(lift(b), lift(a))
        while core.CTX.greater(d, pi):
            d, shift = core.sub(d, core.mul(const(2), pi)), core.sub(shift, core.mul(const(2), pi))
        while core.CTX.greater(core.neg(pi), d):
            d, shift = core.add(d, core.mul(const(2), pi)), core.add(shift, core.mul(const(2), pi))
        out.append(core.add(lift(b), shift))
    return oarr(out)


npf("unwrap", np_unwrap)
npf("convolve", np_convolve)
npf("sinc", ew(_sinc))


def cmpfn(op):
    def f(a, b):
        a, b = asarr(a), asarr(b)
        r = op(a, b)
        if is_arr(r) and r.dtype == object:
            r = r.astype(bool)
        return norm(r)
    return f


for _n, _f in dict(greater=operator.gt, less=operator.lt, greater_equal=operator.ge, less_equal=operator.le,
                   equal=operator.eq, not_equal=operator.ne).items():
    npf(_n, cmpfn(_f))
for _n in ("logical_and", "logical_or", "logical_xor", "bitwise_and", "bitwise_or"):
    npf(_n, logical(getattr(np, _n), 2))
npf("logical_not", logical(np.logical_not, 1))
npf("invert", logical(np.logical_not, 1))
for _n, _f in dict(sum=np_sum, prod=np_prod, mean=np_mean, average=np_mean, max=np_max, amax=np_max, min=np_min,
                   amin=np_min, nansum=np_sum, nanmax=np_max, nanmin=np_min,
                   argmax=np_argmax, argmin=np_argmin, zeros=np_zeros, ones=np_ones, empty=np_empty, full=np_full,
                   zeros_like=_like(0), ones_like=_like(1),
                   empty_like=lambda x, dtype=None: np_empty(asarr(x).shape, dtype),
                   full_like=lambda x, v, dtype=None: np_full(asarr(x).shape, v if not isinstance(v, int) else const(v), dtype),
                   array=np_array, asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray,
                   copy=lambda x: np_array(x), eye=np_eye, identity=np_eye, diag=np_diag,
                   linspace=np_linspace, arange=np_arange, interp=np_interp, sort=np_sort, argsort=np_argsort,
                   unique=np_unique, union1d=lambda a, b: np_unique(NPF["concatenate"]([asarr(a).ravel(), asarr(b).ravel()])),
                   where=np_where, polyfit=np_polyfit, polyval=np_polyval, gradient=np_gradient, trapz=np_trapz,
                   trapezoid=np_trapz, searchsorted=np_searchsorted, cross=np_cross, dot=np_dot, isnan=np_isnan,
                   isfinite=np_isfinite, isinf=np_isinf, nan_to_num=np_nan_to_num, isclose=np_isclose, clip=np_clip,
                   allclose=lambda a, b, **k: bool(np.all(np_isclose(a, b, **k))),
                   array_equal=lambda a, b: asarr(a).shape == asarr(b).shape and bool(np.all(cmpfn(operator.eq)(a, b))),
                   cumsum=cum(lambda a, b: a + b), cumprod=cum(lambda a, b: a * b), diff=np_diff, vectorize=np_vectorize,
                   ndim=lambda x: asarr(x).ndim, size=lambda x: asarr(x).size, shape=lambda x: asarr(x).shape,
                   isscalar=lambda x: isinstance(x, (Node, int, str)), iscomplexobj=lambda x: False,
                   may_share_memory=lambda a, b: np.may_share_memory(a, b),
                   shares_memory=lambda a, b: np.shares_memory(a, b),
                   geomspace=lambda a, b, n=50: asarr([lift(a) * core.power(lift(b) / lift(a), const(Fraction(i, max(n - 1, 1)))) for i in range(n)]),
                   radians_=None).items():
    if _f is not None:
        npf(_n, _f)
for _n in ("concatenate", "vstack", "hstack", "column_stack", "stack", "dstack"):
    npf(_n, structural(getattr(np, _n)))
for _n in ("reshape", "ravel", "squeeze", "transpose", "flip", "flipud", "fliplr", "roll", "tile", "repeat", "expand_dims",
           "broadcast_to", "atleast_1d", "atleast_2d", "moveaxis", "swapaxes", "rollaxis", "delete", "split", "array_split", "take",
           "compress_", "nonzero", "triu", "tril", "diagonal", "flatnonzero", "rot90", "argwhere"):
    if hasattr(np, _n):
        npf(_n, one_arr(getattr(np, _n)))


def np_insert(a, i, v, axis=None):
    a = asarr(a)
    if a.dtype != object and isinstance(v, Node):
        a = liftarr(a)
    if isinstance(v, Node):
        z = np.empty((), dtype=object)
        z[()] = v
        v = z
    return norm(np.insert(a, i, v, axis=axis))


npf("insert", np_insert)
npf("append", lambda a, b, axis=None: NPF["concatenate"]([asarr(a).ravel(), asarr(b).ravel()] if axis is None else [a, b], *([] if axis is None else [axis])))
for _n in ("outer", "matmul", "inner", "kron", "tensordot", "vdot"):
    npf(_n, two_arr(getattr(np, _n)))
npf("any", lambda x, axis=None: norm(np.any(logical(lambda y: y, 1)(x), axis=axis)))
npf("all", lambda x, axis=None: norm(np.all(logical(lambda y: y, 1)(x), axis=axis)))
npf("count_nonzero", lambda x, axis=None: norm(np.count_nonzero(logical(lambda y: y, 1)(x), axis=axis)))
npf("broadcast_arrays", lambda *a: [x for x in np.broadcast_arrays(*[oarr(y) for y in a])])
npf("meshgrid", lambda *a, **k: [norm(x) for x in np.meshgrid(*[oarr(y) for y in a], **k)])
npf("einsum", lambda s, *a, **k: norm(np.einsum(s, *[oarr(y) for y in a])))
npf("var", lambda x, axis=None: np_mean((oarr(x) - np_mean(x)) ** 2))
npf("std", lambda x, axis=None: core.sqrt(np_mean((oarr(x) - np_mean(x)) ** 2)))
npf("select", lambda conds, choices, default=0: functools.reduce(
    lambda acc, cv: np_where(cv[0], cv[1], acc), list(zip(conds, choices))[::-1], default if not isinstance(default, int) else const(default)))
npf("apply_along_axis", lambda f, ax, a: norm(np.apply_along_axis(lambda v: f(v), ax, oarr(a))))
npf("nan_to_num", np_nan_to_num)
npf("fill_diagonal", lambda a, v: np.fill_diagonal(a, v if not is_arr(v) else v))
npf("put", lambda a, i, v: np.put(a, i, v))
npf("diag_indices", lambda n: np.diag_indices(n))
npf("ix_", lambda *a: np.ix_(*[np.asarray(x) for x in a]))
npf("copyto", lambda dst, src: dst.__setitem__(Ellipsis, oarr(src)))
npf("seterr", lambda **k: {})
npf("set_printoptions", lambda **k: None)


def np_round(x, decimals=0, out=None):
    def r(a):
        if a.q is not None:
            return const(round(a.q, decimals))
        return core.func("round", a, key=decimals or None)
    return ew(r)(x)


npf("round", np_round)
npf("around", np_round)
npf("round_", np_round)
npf("polyder", lambda p: asarr([oarr(p)[i] * (len(oarr(p)) - 1 - i) for i in range(len(oarr(p)) - 1)]))


npf("ptp", lambda x, axis=None: norm(asarr(np_max(x, axis=axis)) - asarr(np_min(x, axis=axis))))
npf("tanh", ew(lambda a: core.div(core.sub(core.exp(core.mul(const(2), a)), const(1)), core.add(core.exp(core.mul(const(2), a)), const(1)))))
npf("exp2", ew(lambda a: core.power(const(2), a)))
npf("divmod", lambda a, b: (NPF["floor_divide"](a, b), NPF["mod"](a, b)))
for _n in ("trace", "diagflat", "atleast_3d", "matrix_transpose", "permute_dims", "vsplit", "hsplit", "dsplit", "resize", "asfortranarray",
           "unstack", "swapaxes", "conj", "conjugate", "asarray_chkfinite"):
    if hasattr(np, _n):
        npf(_n, one_arr(getattr(np, _n)))
npf("concat", NPF["concatenate"])
npf("matvec", NPF["matmul"])
npf("vecmat", NPF["matmul"])
npf("vecdot", lambda a, b, axis=-1: norm(np.sum(oarr(a) * oarr(b), axis=axis)))
npf("compress", lambda c, a, axis=None: norm(np.compress(np.asarray(c, dtype=bool), asarr(a), axis=axis)))
npf("extract", lambda c, a: norm(np.extract(np.asarray(c, dtype=bool), asarr(a))))
npf("iterable", lambda x: isinstance(x, (list, tuple, dict, set, str, range)) or (is_arr(x) and x.ndim > 0))
npf("fromiter", lambda it, dtype=None, count=-1: np_array(tolist(it)))
npf("array_equiv", lambda a, b: bool(np.all(cmpfn(operator.eq)(a, b))))
npf("ndenumerate", lambda a: iter([(ix, asarr(a)[ix]) for ix in np.ndindex(*asarr(a).shape)]))
npf("ndindex", lambda *s: iter(list(np.ndindex(*s))))
npf("indices", lambda s: np.indices(s))
npf("tril_indices", lambda *a: np.tril_indices(*a))
npf("triu_indices", lambda *a: np.triu_indices(*a))
npf("tri", lambda *a: np.tri(*a, dtype=int))
npf("diag_indices_from", lambda a: np.diag_indices_from(asarr(a)))
npf("unravel_index", lambda i, s: np.unravel_index(i, s))
npf("ravel_multi_index", lambda i, s: np.ravel_multi_index(i, s))
npf("take_along_axis", lambda a, i, axis=-1: norm(np.take_along_axis(asarr(a), np.asarray(i, dtype=int), axis)))
npf("put_along_axis", lambda a, i, v, axis: np.put_along_axis(a, np.asarray(i, dtype=int), v, axis))
npf("putmask", lambda a, m, v: np.putmask(a, np.asarray(m, dtype=bool), v))
npf("place", lambda a, m, v: np.place(a, np.asarray(m, dtype=bool), v))
npf("ediff1d", lambda a: np_diff(asarr(a).ravel()))
npf("signbit", ew(lambda a: core.CTX.positive(core.neg(a))))
npf("isreal", lambda a: np.ones(asarr(a).shape, dtype=bool))
npf("trunc", ew(lambda a: core.floorv(a) if core.CTX.positive(a) else core.neg(core.floorv(core.neg(a)))))
npf("fix", NPF["trunc"])
npf("fmod", ew(lambda a, b: a - b * NPF["trunc"](a / b), 2))


def np_quantile(a, q, axis=None, scale=1, method="linear"):
    v = [lift(x) for x in np_sort(asarr(a).ravel())]
    if axis is not None or method != "linear":
        raise Unsupported("quantile along an axis")

    def one(p):
        p = lift(p) / scale
        if p.q is None:
            raise Unsupported("quantile at a symbolic level")
        t = p.q * (len(v) - 1)
        k = min(int(t), max(len(v) - 2, 0))
        return v[k] if len(v) == 1 else v[k] + (v[k + 1] - v[k]) * const(t - k)
    return ew(one)(q)


npf("quantile", np_quantile)
npf("percentile", lambda a, q, axis=None, **k: np_quantile(a, q, axis, 100, **k))
npf("digitize", lambda x, bins, right=False: np_searchsorted(bins, x, side="left" if right else "right"))
npf("nanmean", np_mean)
npf("nancumsum", NPF["cumsum"])
npf("cumulative_sum", NPF["cumsum"])
npf("cumulative_prod", NPF["cumprod"])
npf("polyadd", lambda a, b: _polypad(a, b, operator.add))
npf("polysub", lambda a, b: _polypad(a, b, operator.sub))
npf("var", lambda x, axis=None: np_mean((oarr(x) - np_mean(x)) ** 2))
npf("logspace", lambda a, b, n=50, base=10: NPF["power"](lift(base), np_linspace(a, b, n)))
npf("vander", lambda x, N=None, increasing=False: norm(np.array([[v ** k for k in (range(N or len(oarr(x))) if increasing else range((N or len(oarr(x))) - 1, -1, -1))]
                                                               for v in oarr(x)], dtype=object)))
npf("flatiter", lambda a: iter(list(asarr(a).ravel())))
npf("isin", lambda a, b, invert=False, **k: norm(np.array([any(bool(x == y) for y in asarr(b).ravel()) != invert for x in asarr(a).ravel()], dtype=bool).reshape(asarr(a).shape)))
npf("in1d", NPF["isin"])
npf("setdiff1d", lambda a, b, **k: np_unique(asarr([x for x in asarr(a).ravel() if not any(bool(x == y) for y in asarr(b).ravel())])))
npf("intersect1d", lambda a, b, **k: np_unique(asarr([x for x in asarr(a).ravel() if any(bool(x == y) for y in asarr(b).ravel())])))


def _polypad(a, b, f):
    a, b = oarr(a), oarr(b)
    n = max(len(a), len(b))
    z = [const(0)] * n
    return norm(f(np.concatenate([z[:n - len(a)], a]) if len(a) < n else a, np.concatenate([z[:n - len(b)], b]) if len(b) < n else b))


def np_piecewise(x, conds, funcs):
    x = asarr(x)
    out = np_zeros(x.shape)
    I = HOOKS["interp"]
    conds = [np.asarray(c, dtype=bool) for c in conds]
    if len(funcs) == len(conds) + 1:
        conds.append(~functools.reduce(np.logical_or, conds))
    for c, f in zip(conds, funcs):
        out[c] = I.call(f, [x[c]], {}) if isinstance(f, (Func, Bound, Native)) or callable(f) else f
    return norm(out)


npf("piecewise", np_piecewise)


def np_average(x, axis=None, weights=None, returned=False, keepdims=False):
    if returned:
        raise Unsupported("average with returned weights")
    if weights is None:
        return np_mean(x, axis, keepdims=keepdims)
    x, w = oarr(x), oarr(weights)
    if w.ndim < x.ndim and axis is not None:
        s = [1] * x.ndim
        s[axis] = -1
        w = w.reshape(s)
    w = np.broadcast_to(w, x.shape)
    return norm(asarr(np_sum(x * w, axis=axis, keepdims=keepdims)) / asarr(np_sum(w, axis=axis, keepdims=keepdims)))


def np_pad(a, width, mode="constant", constant_values=0):
    a = oarr(a)
    if mode not in ("constant", "edge", "wrap", "reflect"):
        raise Unsupported("pad mode %s" % mode)
    k = dict(constant_values=lift(constant_values)) if mode == "constant" else {}
    idx = np.pad(np.arange(a.size).reshape(a.shape), width, mode=mode, **(dict(constant_values=-1) if k else {}))
    out = np.empty(idx.shape, dtype=object)
    flat = a.ravel()
    for i in np.ndindex(idx.shape):
        out[i] = flat[idx[i]] if idx[i] >= 0 else k["constant_values"]
    return norm(out)


def np_lexsort(keys, axis=-1):
    order = list(range(len(asarr(keys[0]))))
    for k in keys:
        a = np_argsort(asarr([asarr(k)[i] for i in order]), kind="stable")
        order = [order[int(i)] for i in a]
    return np.array(order)


def np_median(x, axis=None):
    if axis is None:
        return np_quantile(x, const(Fraction(1, 2)))
    x = np.moveaxis(oarr(x), axis, -1)
    out = np.empty(x.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = lift(norm(asarr(np_quantile(x[i], const(Fraction(1, 2))))))
    return norm(out)


class _Poly1d(Model):
    def __init__(self, c, **k):
        self.c = self.coeffs = self.coefficients = self.coef = oarr(c)
        self.order = self.o = len(self.c) - 1

    def __call__(self, x):
        return np_polyval(self.c, x)

    def deriv(self, m=1):
        p = self.c
        for _ in range(m):
            p = NPF["polyder"](p)
        return _Poly1d(p)

    def __getitem__(self, k):
        return self.c[len(self.c) - 1 - k] if k < len(self.c) else const(0)

    @property
    def r(self):
        return self.roots

    @property
    def roots(self):
        if len(self.c) != 2:
            raise Unsupported("roots of a polynomial")
        return asarr([-self.c[1] / self.c[0]])


def _frompyfunc(f, nin, nout):
    if nout != 1:
        raise Unsupported("frompyfunc with several outputs")
    return np_vectorize(f)


def _ufunc_methods(name):
    f = NPF[name]

    def reduce_(a, axis=0, keepdims=False, dtype=None, out=None, initial=None):
        a = asarr(a)
        r = functools.partial(functools.reduce, lambda x, y: f(x, y))
        if axis is None:
            a, axis = a.ravel(), 0
        start = [] if initial is None else [initial]
        x = np.moveaxis(a, axis, 0)
        res = r(start + [x[i] for i in range(x.shape[0])])
        return norm(np.expand_dims(asarr(res), axis)) if keepdims else res

    def accumulate(a, axis=0):
        x = np.moveaxis(oarr(a), axis, 0)
        out = [x[0]]
        for i in range(1, x.shape[0]):
            out.append(f(out[-1], x[i]))
        res = np.empty(x.shape, dtype=object)
        for i, v in enumerate(out):
            res[i] = v
        return norm(np.moveaxis(res, 0, axis))

    def outer(a, b):
        a, b = asarr(a), asarr(b)
        return f(a.reshape(a.shape + (1,) * b.ndim), b)

    def at(a, i, b):
        i = np.asarray(i, dtype=int) if isinstance(i, (list, np.ndarray)) else i
        b = np.broadcast_to(asarr(b), np.shape(i))
        for k in np.ndindex(np.shape(i)):
            a[i[k]] = f(a[i[k]], b[k])
    for nm, g in (("reduce", reduce_), ("accumulate", accumulate), ("outer", outer), ("at", at)):
        g.__module__ = "npmodel"
        setattr(f, nm, g)


for _n in ("add", "subtract", "multiply", "divide", "true_divide", "maximum", "minimum", "fmax", "fmin", "logical_and", "logical_or",
           "logical_xor", "power", "hypot"):
    try:
        _ufunc_methods(_n)
    except AttributeError:
        pass
npf("vdot", lambda a, b: np_sum(oarr(a).ravel() * oarr(b).ravel()))
def np_block(x):
    def depth(v):
        return 1 + depth(v[0]) if isinstance(v, list) else 0

    def rec(v, d, n):
        if not isinstance(v, list):
            a = oarr(v)
            return a.reshape((1,) * (n - a.ndim) + a.shape) if a.ndim < n else a
        return np.concatenate([rec(w, d - 1, n) for w in v], axis=-d)
    d = depth(x)
    return norm(rec(x, d, d))


class _Polynomial(Model):
    """numpy.polynomial.Polynomial in the power basis (coefficients in rising order)"""

    def __init__(self, coef, domain=None, window=None):
        self.coef = oarr(coef)

    def convert(self, **k):
        return self

    def __call__(self, x):
        return np_polyval(self.coef[::-1], x)

    def deriv(self, m=1):
        p = self.coef[::-1]
        for _ in range(m):
            p = NPF["polyder"](p)
        return _Polynomial(p[::-1])

    def degree(self):
        return len(self.coef) - 1

    def roots(self):
        return _Poly1d(self.coef[::-1]).roots


class _PolyCls(Model):
    def __call__(self, *a, **k):
        return _Polynomial(*a, **k)

    def fit(self, x, y, deg, domain=None, window=None, **k):
        return _Polynomial(np_polyfit(x, y, deg)[::-1])


def np_cov(x, y=None, ddof=1, rowvar=True, bias=False):
    if not rowvar or bias:
        raise Unsupported("covariance options")
    rows = [oarr(r) for r in (list(np.atleast_2d(oarr(x))) + ([] if y is None else [y]))]
    d = [r - np_mean(r) for r in rows]
    return norm(asarr([[core.div(np_sum(a * b), const(len(a) - ddof)) for b in d] for a in d]))


def np_var(x, axis=None, ddof=0):
    x = oarr(x)
    d = (x - (np_mean(x, axis=axis, keepdims=True) if axis is not None else np_mean(x))) ** 2
    n = x.size if axis is None else x.shape[axis]
    return norm(asarr(np_sum(d, axis=axis)) * core.div(const(1), const(n - ddof)))


npf("var", np_var)
npf("std", lambda x, axis=None, ddof=0: NPF["sqrt"](np_var(x, axis, ddof)))
npf("cov", np_cov)
npf("corrcoef", lambda x, y: (lambda c: norm(asarr([[c[i, j] / core.sqrt(c[i, i] * c[j, j]) for j in range(len(c))] for i in range(len(c))])))(np_cov(x, y)))
npf("block", np_block)
npf("average", np_average)
npf("pad", np_pad)
npf("lexsort", np_lexsort)
npf("median", np_median)
npf("nanmedian", np_median)
npf("frompyfunc", _frompyfunc)
npf("poly1d", _Poly1d)
npf("choose", lambda i, c: norm(np.choose(np.asarray(i, dtype=int), [oarr(x) for x in c])))


class _Err(Model):
    def __init__(self, *a, **k):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


# ------------------------------------------------------------------ types
class PyType(Model):
    def __init__(self, name, pytype, call, check):
        self.name = name
        self.pytype = pytype
        self.call_ = call
        self.check = check
        self.__name__ = name

    def __call__(self, *a, **k):
        return self.call_(*a, **k)

    def __getattr__(self, n):
        if n.startswith("__") or n in ("pytype",):
            raise AttributeError(n)
        if self.__dict__.get("pytype") in (dict, str, list):
            f = getattr(self.__dict__["pytype"], n)
            return f
        raise AttributeError(n)

    def __eq__(self, o):
        if isinstance(o, PyType):
            return self.name == o.name
        return False

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return "<type %s>" % self.name


def pyfloat(x=0):
    if isinstance(x, Node):
        return x
    if isinstance(x, (bool, int, float, np.integer)):
        return lift(x if not isinstance(x, np.integer) else int(x))
    if is_arr(x):
        if x.size != 1:
            prog(TypeError("only length-1 arrays can be converted to Python scalars"))
        return pyfloat(x.reshape(-1)[0])
    if isinstance(x, str):
        t = x.strip()
        if t in PLACE:
            return PLACE[t][0]
        try:
            return lift(Fraction(t)) if t.lower() not in ("nan", "inf", "-inf") else core.special(t.lower())
        except ValueError:
            prog(ValueError("could not convert string to float: %r" % x))
    if isinstance(x, Inst):
        m = x.cls.lookup("__float__")
        if m is not None:
            return m(x)
    prog(TypeError("float() argument must be a string or a real number, not '%s'" % type(x).__name__))


def pyint(x=0, base=10):
    if isinstance(x, (bool, int, np.integer)):
        return int(x)
    if isinstance(x, Node):
        if x.q is not None:
            return int(x.q)
        if x.f is not None:
            return int(x.f)
        if x.v is None:
            prog(ValueError("cannot convert float NaN to integer"))
        raise Unsupported("int() of a symbolic value")
    if is_arr(x):
        if x.size != 1:
            prog(TypeError("only length-1 arrays can be converted to Python scalars"))
        return pyint(norm(x.reshape(-1)[0]))
    if isinstance(x, str):
        t = x.strip()
        if t in PLACE:
            if PLACE[t][1].endswith("d"):
                return PLACE[t][0]
            prog(ValueError("invalid literal for int(): %r" % x))
        try:
            return int(t, base)
        except ValueError as e:
            prog(e)
    prog(TypeError("int() argument"))


def pystr(x=""):
    if isinstance(x, str):
        return x
    if isinstance(x, Inst):
        m = x.cls.lookup("__str__") or x.cls.lookup("__repr__")
        if m is not None:
            return m(x)
        return repr(x)
    return fmt(x, "")


PLACE = {}
HOOKS = {}


def fmt(v, spec):
    if isinstance(v, bool) and not spec:
        return str(v)
    if isinstance(v, Node) or (is_arr(v) and v.ndim == 0):
        if is_arr(v):
            v = norm(v[()])
            if not isinstance(v, Node):
                return format(v, spec)
        if spec and spec[-1] == "d":
            prog(ValueError("Unknown format code 'd' for object of type 'float'"))
        if v.f is not None and (v.q is not None or v.v is None):
            try:
                return format(v.f, spec)
            except ValueError as e:
                prog(e)
        if v.v is None:
            return format(float("nan"), spec)
        tok = "\u27e6%d\u27e7" % (len(PLACE) + 1)
        for k, (n, s) in PLACE.items():
            if n.v == v.v and s == spec:
                tok = k
        PLACE[tok] = (v, spec)
        import re
        m = re.match(r"^(.?[<>^=])?[+\- ]?0?(\d+)?", spec)
        w = int(m.group(2) or 0)
        return format(tok, (m.group(1) or ">") + str(w)) if w else tok
    if isinstance(v, (int, str)):
        try:
            return format(v, spec)
        except ValueError as e:
            prog(e)
    if isinstance(v, Inst):
        m = v.cls.lookup("__format__")
        return m(v, spec) if m is not None else pystr(v)
    if isinstance(v, BaseException):
        return format(str(v), spec)
    if spec:
        if isinstance(v, (list, tuple, dict, type(None))) or is_arr(v):
            prog(TypeError("unsupported format string passed to %s.__format__" % type(v).__name__))
    if isinstance(v, (list, tuple)):
        l = ", ".join(pystr(e) if not isinstance(e, str) else repr(e) for e in v)
        return "[%s]" % l if isinstance(v, list) else "(%s)" % l
    if is_arr(v):
        return "[" + " ".join(pystr(norm(e)) for e in v.ravel()) + "]"
    if isinstance(v, dict):
        return "{" + ", ".join("%s: %s" % (pystr(k), pystr(x)) for k, x in v.items()) + "}"
    return str(v)


def isnum(x):
    return isinstance(x, Node)


FLOAT = PyType("float", float, pyfloat, isnum)
INT = PyType("int", int, pyint, lambda x: isinstance(x, int))
BOOL = PyType("bool", bool, lambda x=False: HOOKS["interp"].truth(x), lambda x: isinstance(x, bool))
STR = PyType("str", str, pystr, lambda x: isinstance(x, str))


def tolist(x=()):
    return list(HOOKS["interp"].iter(x))


LIST = PyType("list", list, tolist, lambda x: isinstance(x, list))
TUPLE = PyType("tuple", tuple, lambda x=(): tuple(tolist(x)), lambda x: isinstance(x, tuple))


def mkdict(*a, **k):
    d = {}
    if a:
        if isinstance(a[0], dict):
            d.update(a[0])
        else:
            for kv in tolist(a[0]):
                kk, v = tolist(kv)
                d[kk] = v
    d.update(k)
    return d


DICT = PyType("dict", dict, mkdict, lambda x: isinstance(x, dict))
SET = PyType("set", set, lambda x=(): set(tolist(x)), lambda x: isinstance(x, set))
FSET = PyType("frozenset", frozenset, lambda x=(): frozenset(tolist(x)), lambda x: isinstance(x, frozenset))
OBJECT = PyType("object", object, lambda: Inst(Cls(None, "object", [], {}, None)), lambda x: True)
NDARRAY = PyType("ndarray", np.ndarray, np_empty, lambda x: is_arr(x))
SLICE = PyType("slice", slice, lambda *a: slice(*a), lambda x: isinstance(x, slice))
NUMBER = PyType("Number", None, None, lambda x: isinstance(x, (int, Node)))
NPINT = PyType("int64", np.int64, pyint, lambda x: False)
NPFLOAT = PyType("float64", np.float64, pyfloat, isnum)
NPSINGLE = PyType("float32", np.float32, lambda x=0: single(x) if not is_arr(x) else cast(x, "float32"), lambda x: False)
NPBOOL = PyType("bool_", np.bool_, lambda x=False: bool(x), lambda x: isinstance(x, bool))


def pyisinstance(x, t):
    if isinstance(t, tuple):
        return any(pyisinstance(x, u) for u in t)
    if isinstance(t, PyType):
        return bool(t.check(x))
    if isinstance(t, Cls):
        return isinstance(x, Inst) and x.cls.issub(t)
    if isinstance(t, type):
        if isinstance(x, Inst):
            return x.cls.issub(t)
        return isinstance(x, t)
    raise Unsupported("isinstance against %r" % (t,))


def pytype(x, *a):
    if a:
        raise Unsupported("dynamic class creation")
    if isinstance(x, Inst):
        return x.cls
    for t in (BOOL, INT, FLOAT, STR, LIST, TUPLE, DICT, SET, NDARRAY):
        if t.check(x):
            return t
    if x is None:
        return type(None)
    return type(x)


# ------------------------------------------------------------------ builtins
def b_len(x):
    if isinstance(x, (Node, int, bool, type(None))):
        prog(TypeError("object of type '%s' has no len()" % type(x).__name__))
    if is_arr(x) and x.ndim == 0:
        prog(TypeError("len() of unsized object"))
    if isinstance(x, Inst) and x.cls.lookup("__len__") is None:
        prog(TypeError("object of type '%s' has no len()" % x.cls.name))
    return len(x)


def b_range(*a):
    r = []
    for x in a:
        if is_arr(x) and x.dtype.kind in "iu":
            x = int(x)
        if isinstance(x, Node):
            prog(TypeError("'float' object cannot be interpreted as an integer"))
        r.append(x)
    return range(*r)


def b_minmax(mx):
    def f(*a, key=None, default=None):
        v = tolist(a[0]) if len(a) == 1 else list(a)
        if not v:
            if default is not None:
                return default
            prog(ValueError("max() arg is an empty sequence"))
        if key is not None or any(isinstance(x, (tuple, list)) for x in v):
            I = HOOKS["interp"]
            ks = v if key is None else [I.call(key, [x], {}) for x in v]
            b = 0
            for i in range(1, len(v)):
                if I.truth(I.compare(ast.Gt if mx else ast.Lt, ks[i], ks[b])):
                    b = i
            return v[b]
        v = [norm(x[()]) if is_arr(x) and x.ndim == 0 else (norm(x.reshape(-1)[0]) if is_arr(x) and x.size == 1 else x) for x in v]
        if all(isinstance(x, int) for x in v) or any(isinstance(x, str) for x in v):
            return max(v) if mx else min(v)
        if any(is_arr(x) for x in v):
            prog(ValueError("The truth value of an array with more than one element is ambiguous."))
        return core.maxn([lift(x) for x in v], mx)
    f.__module__ = "npmodel"
    return f


def b_sum(x, start=0):
    r = start
    for v in tolist(x):
        r = HOOKS["interp"].binop(__import__("ast").Add, r, v)
    return r


def b_sorted(x, key=None, reverse=False):
    v = tolist(x)
    I = HOOKS["interp"]
    ks = v if key is None else [I.call(key, [e], {}) for e in v]
    if any(isinstance(k, Node) for k in ks):
        o = order(ks if not reverse else [core.neg(lift(k)) for k in ks])
    else:
        def cmp(i, j):
            a, b = (i, j) if not reverse else (j, i)
            if I.truth(I.compare(ast.Lt, ks[a], ks[b])):
                return -1
            return 1 if I.truth(I.compare(ast.Lt, ks[b], ks[a])) else 0
        o = sorted(range(len(v)), key=functools.cmp_to_key(cmp))
    return [v[i] for i in o]


def b_abs(x):
    if isinstance(x, int):
        return abs(x)
    if isinstance(x, (list, tuple)):
        prog(TypeError("bad operand type for abs()"))
    if isinstance(x, Inst):
        return x._m("__abs__")()
    return NPF["abs"](x)


def b_round(x, n=None):
    if isinstance(x, int):
        return round(x, n)
    x = lift(x)
    if x.q is not None:
        r = round(x.q, n) if n is not None else round(x.q)
        return const(r) if n is not None else int(r)
    return core.func("round", x, key=n)


def b_getattr(o, n, *d):
    try:
        return HOOKS["interp"].getattr(o, n)
    except PyRaise as p:
        if d and isinstance(p.exc, AttributeError):
            return d[0]
        raise


def b_hasattr(o, n):
    try:
        HOOKS["interp"].getattr(o, n)
        return True
    except PyRaise as p:
        if isinstance(p.exc, AttributeError):
            return False
        raise


def b_print(*a, file=None, sep=" ", end="\n", flush=False):
    s = sep.join(pystr(x) for x in a) + end
    if file is not None and hasattr(file, "write"):
        file.write(s)
    else:
        core.CTX.events.append(("print", s, core.CTX.where()))


def b_zip(*a, strict=False):
    its = [HOOKS["interp"].iter(x) for x in a]
    if not strict:
        return zip(*its)

    def pairs():
        try:
            yield from zip(*its, strict=True)
        except ValueError as e:
            prog(e)
    return pairs()


def b_map(f, *a):
    I = HOOKS["interp"]
    its = [I.iter(x) for x in a]
    return (I.call(f, list(t), {}) for t in zip(*its))


def b_filter(f, a):
    I = HOOKS["interp"]
    it = I.iter(a)
    return (x for x in it if (I.truth(x) if f is None else I.truth(I.call(f, [x], {}))))


def b_next(it, *d):
    try:
        return next(it)
    except StopIteration as e:
        if d:
            return d[0]
        prog(e)


def b_isclose(a, b, rel_tol=None, abs_tol=None):
    return np_isclose(a, b)


# ------------------------------------------------------------------ file system model
class FS(Model):
    """virtual file system: the only files the interpreted program can touch"""

    def __init__(self):
        self.files = {}
        self.events = []
        self.handles = []

    def unwritten(self):
        """names of files with text that may not have reached the disk"""
        return sorted({h.name for h in (r() for r in self.handles) if h is not None and h.dirty})

    def ev(self, kind, *a):
        self.events.append((kind,) + a + (tuple(core.CTX.site),))


class File(Model):
    def __init__(self, fs, name, mode):
        self.fs = fs
        self.name = name
        self.mode = mode
        self.closed = False
        self.dirty = False
        fs.handles.append(weakref.ref(self))
        fs.ev("open", name, mode)
        if "r" in mode and "+" not in mode:
            if name not in fs.files:
                prog(FileNotFoundError(2, "No such file or directory: %r" % name))
            self.buf = fs.files[name]
        elif "a" in mode:
            self.buf = fs.files.get(name, "")
        else:
            self.buf = ""
            fs.files[name] = ""
        self.pos = 0

    def write(self, s):
        if not isinstance(s, str):
            prog(TypeError("write() argument must be str"))
        if self.closed or "r" in self.mode:
            prog(ValueError("I/O operation on closed file or not writable"))
        self.buf += s
        self.dirty = True
        self.fs.files[self.name] = self.buf
        return len(s)

    def writelines(self, l):
        for s in tolist(l):
            self.write(s)

    def readline(self):
        if self.closed:
            prog(ValueError("I/O operation on closed file."))
        i = self.buf.find("\n", self.pos)
        j = len(self.buf) if i < 0 else i + 1
        s = self.buf[self.pos:j]
        self.pos = j
        return s

    def readlines(self):
        out = []
        while True:
            l = self.readline()
            if not l:
                return out
            out.append(l)

    def read(self, n=-1):
        if self.closed:
            prog(ValueError("I/O operation on closed file."))
        s = self.buf[self.pos:] if n is None or n < 0 else self.buf[self.pos:self.pos + n]
        self.pos += len(s)
        return s

    def __iter__(self):
        return self

    def __next__(self):
        l = self.readline()
        if not l:
            raise StopIteration
        return l

    def readable(self):
        return "r" in self.mode or "+" in self.mode

    def writable(self):
        return "r" not in self.mode or "+" in self.mode

    def seek(self, p, whence=0):
        self.pos = p if whence == 0 else (self.pos + p if whence == 1 else len(self.buf) + p)
        return self.pos

    def tell(self):
        return self.pos

    def fileno(self):
        return 3

    def close(self):
        if not self.closed:
            self.closed = True
            self.dirty = False
            self.fs.ev("close", self.name)

    def flush(self):
        self.dirty = False

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


class StringIO(File):
    """text buffer: a file of no file system"""
    def __init__(self, text="", newline="\n"):
        self.fs, self.name, self.mode, self.closed, self.dirty, self.buf, self.pos = None, None, "+", False, False, text, 0

    def write(self, s):
        if not isinstance(s, str):
            prog(TypeError("string argument expected"))
        if self.closed:
            prog(ValueError("I/O operation on closed file"))
        self.buf = self.buf[:self.pos] + s + self.buf[self.pos + len(s):]
        self.pos += len(s)
        return len(s)

    def getvalue(self):
        return self.buf

    def truncate(self, n=None):
        self.buf = self.buf[:self.pos if n is None else n]
        return len(self.buf)

    def close(self):
        self.closed = True


def _tmpname(prefix, suffix, dir):
    F = fs()
    F.tmp = getattr(F, "tmp", 0) + 1
    return "%s/%stmp%s_%d%s" % (dir or "/tmp", prefix or "", HOOKS["pid"], F.tmp, suffix or "")


def mkdtemp(suffix=None, prefix=None, dir=None):
    return _tmpname(prefix, suffix, dir)


def rmtree(p, ignore_errors=False, **k):
    p = path_str(p).rstrip("/") + "/"
    for n in sorted(fs().files):
        if n.startswith(p):
            fs_remove(n)


class TemporaryDirectory(Model):
    def __init__(self, suffix=None, prefix=None, dir=None, **k):
        self.name = mkdtemp(suffix, prefix, dir)

    def cleanup(self):
        rmtree(self.name)

    def __enter__(self):
        return self.name

    def __exit__(self, *a):
        self.cleanup()
        return False


class NamedTemporaryFile(File):
    def __init__(self, mode="w+b", suffix=None, prefix=None, dir=None, delete=True, **k):
        if "b" in mode:
            raise Unsupported("binary temporary file")
        File.__init__(self, fs(), _tmpname(prefix, suffix, dir), mode)
        self.delete = delete

    def close(self):
        if not self.closed:
            File.close(self)
            if self.delete:
                fs_remove(self.name)


def fs_copy(a, b, **k):
    t = fs_open(a).read()
    f = fs_open(b, "w")
    f.write(t)
    f.close()
    return b


def fs_move(a, b, **k):
    fs_copy(a, b)
    fs_remove(a)
    return b


def path_split(p):
    p = path_str(p)
    i = p.rfind("/") + 1
    h = p[:i]
    return (h.rstrip("/") or h), p[i:]


def path_join(*a):
    r = ""
    for x in a:
        x = path_str(x)
        r = x if x.startswith("/") or not r else (r + x if r.endswith("/") else r + "/" + x)
    return r


def proc_run(cmd, shell=False, stdin=None, stdout=None, stderr=None, input=None, **k):
    if not isinstance(cmd, str):
        cmd = " ".join(path_str(c) for c in tolist(cmd))
    if isinstance(stdin, File):
        cmd += " < " + stdin.name
    elif input is not None:
        raise Unsupported("subprocess input text")
    if isinstance(stdout, File):
        cmd += " > " + stdout.name
    return fs_system(cmd)


def path_str(p):
    if isinstance(p, PathM):
        return p.s
    if not isinstance(p, str):
        prog(TypeError("expected str, bytes or os.PathLike object, not %s" % type(p).__name__))
    return p


def _cleanup_guard(what, p):
    h = HOOKS.get("fs_guard")
    if h:
        h(what, p)


def fs():
    return HOOKS["fs"]


def fs_exists(p):
    p = path_str(p)
    fs().ev("exists", p)
    if p in fs().files:
        return True
    h = HOOKS.get("exists")
    return bool(h(p)) if h else False


def fs_remove(p, missing_ok=False):
    p = path_str(p)
    fs().ev("remove", p)
    if p not in fs().files and not missing_ok:
        h = HOOKS.get("exists")
        if not (h and h(p)):
            prog(FileNotFoundError(2, "No such file: %r" % p))
    fs().files.pop(p, None)


def fs_system(cmd):
    fs().ev("system", cmd)
    h = HOOKS.get("system")
    return h(cmd) if h else 0


def fs_open(name, mode="r", *a, **k):
    return File(fs(), path_str(name), mode)


def np_savetxt(fname, X, fmt="%.18e", delimiter=" ", newline="\n", header="", footer="", comments="# ", encoding=None):
    a = asarr(X)
    if isinstance(fname, File):
        w = fname
    else:
        w = File(fs(), path_str(fname), "w")
    if a.ndim == 1:
        a = a[:, None]
    if header:
        w.write(comments + header + newline)
    for row in a:
        fm = fmt if isinstance(fmt, (list, tuple)) else [fmt] * len(row)
        w.write(delimiter.join(HOOKS["interp"].percent_format(f, lift(v)) for f, v in zip(fm, row)) + newline)
    if not isinstance(fname, File):
        w.close()


def np_loadtxt(fname, skiprows=0, usecols=None, unpack=False, **k):
    if isinstance(fname, File):
        lines = fname.readlines()
    else:
        f = File(fs(), path_str(fname), "r")
        lines = f.readlines()
        f.close()
    rows = [[pyfloat(t) for t in l.split()] for l in lines[skiprows:] if l.strip() and not l.strip().startswith("#")]
    a = oarr(rows)
    if usecols is not None:
        a = a[:, usecols]
    return a.T if unpack else a


class PathM(Model):
    def __init__(self, *p):
        self.s = path_join(*p) if p else "."

    def exists(self):
        return fs_exists(self.s)

    is_file = exists

    def unlink(self, missing_ok=False):
        fs_remove(self.s, missing_ok)

    def open(self, mode="r", **k):
        return fs_open(self.s, mode)

    def read_text(self, **k):
        f = fs_open(self.s)
        r = f.read()
        f.close()
        return r

    def write_text(self, t, **k):
        f = fs_open(self.s, "w")
        f.write(t)
        f.close()

    def __eq__(self, o):
        return isinstance(o, PathM) and o.s == self.s

    def __hash__(self):
        return hash(self.s)

    def __fspath__(self):
        return self.s

    def resolve(self, **k):
        return self

    absolute = expanduser = resolve

    def as_posix(self):
        return self.s

    def rename(self, t):
        fs_move(self.s, t)
        return PathM(t)

    def mkdir(self, *a, **k):
        fs().ev("mkdir", self.s)

    def is_dir(self):
        return False

    def __rtruediv__(self, o):
        return PathM(o, self.s)

    def __truediv__(self, o):
        return PathM(self.s, o)

    def __str__(self):
        return self.s

    @property
    def name(self):
        return self.s.split("/")[-1]

    @property
    def stem(self):
        n = self.name
        return n[:n.rindex(".")] if "." in n[1:] else n

    @property
    def suffix(self):
        return self.name[len(self.stem):]

    @property
    def parent(self):
        return PathM(self.s.rpartition("/")[0] or ("/" if self.s.startswith("/") else "."))

    def with_suffix(self, x):
        return PathM(self.s[:len(self.s) - len(self.suffix)] + x)

    def with_name(self, n):
        return self.parent / n if "/" in self.s else PathM(n)

    def joinpath(self, *p):
        return PathM(self.s, *p)

    @property
    def parts(self):
        return tuple(x for x in self.s.split("/") if x)


class NS(Model):
    def __init__(self, **k):
        self.__dict__.update(k)


def wrap(f, mod="npmodel"):
    def g(*a, **k):
        return f(*a, **k)
    g.__module__ = mod
    return g


# ------------------------------------------------------------------ scipy models
RBS_LIN = {}


def rbs_diff(key, dx, dy):
    """FITPACK differentiates fewer times than the degree in that direction"""
    kx, ky = (key[2], key[3]) if key[0] == "broken" else (key[4], key[5])
    if dx and dx >= kx:
        prog(ValueError("0 <= dx = %d < kx = %d must hold" % (dx, kx)))
    if dy and dy >= ky:
        prog(ValueError("0 <= dy = %d < ky = %d must hold" % (dy, ky)))


def rbs_eval(key, x, y, dx, dy):
    h = HOOKS.get("rbs_value")
    if h and not dx and not dy:
        r = h(key, lift(x), lift(y))
        if r is not None:
            return r
    lin = RBS_LIN.get(key)
    if lin is not None:
        # two data points in a direction: the surface is linear there
        for which, e in enumerate(lin):
            if e is None:
                continue
            z, d = (x, y)[which], (dx, dy)[which]
            if any(lift(z).v == w.v for w in e):
                if not d:
                    continue
            f = [rbs_eval(key, w, y, 0, dy) if which == 0 else rbs_eval(key, x, w, dx, 0) for w in e]
            s = core.div(core.sub(f[1], f[0]), core.sub(e[1], e[0]))
            if d:
                return s if d == 1 else const(0)
            return core.add(f[0], core.mul(s, core.sub(lift(z), e[0])))
    if key[-1] == "flat":
        # data constant along y: so is the surface fitted to them
        if dy:
            return const(0)
        y = const(0)
    return core.func("rbs", lift(x), lift(y), key=(key, int(dx), int(dy)))


RBS_RANGE = {}


def rbs_at(key, x, y, dx, dy):
    """the fitted surface; beyond the data both its value and its partial derivatives are those of the nearest end"""
    if HOOKS.get("rbs_clamp") and key in RBS_RANGE:
        x, y = lift(x), lift(y)
        rx, ry = RBS_RANGE[key]
        for lo, hi, w in (rx + (0,), ry + (1,)):
            v = (x, y)[w]
            if v.v is None:
                continue
            v = lo if v < lo else hi if v > hi else v
            x, y = (v, y) if w == 0 else (x, v)
    return rbs_eval(key, x, y, dx, dy)


def _rbs_partial(n):
    key, dx, dy = n.aux[1]
    x, y = n.args
    return (rbs_eval(key, x, y, dx + 1, dy).v, rbs_eval(key, x, y, dx, dy + 1).v)


core.FUNC_PARTIALS["rbs"] = _rbs_partial


def spline_key(kind, *parts):
    k = [kind]
    for p in parts:
        if is_arr(p):
            k.append((p.shape, tuple(lift(v).v for v in p.ravel())))
        elif isinstance(p, Node):
            k.append(p.v)
        else:
            k.append(p)
    return tuple(k)


class Tck(Model):
    def __init__(self, name, key, data=None):
        self.name = name
        self.key = key
        self.data = data

    def __getitem__(self, i):
        # the outer knots are the ends of the data
        if self.data is not None and i in (0, -1):
            return self.data[i]
        raise Unsupported("knots or coefficients of a fitted surface")


class RBS(Model):
    """scipy.interpolate.RectBivariateSpline: an uninterpreted, twice differentiable surface determined by
    the data, degrees and smoothing it was built from"""

    def __init__(self, x, y, z, bbox=None, kx=3, ky=3, s=0, maxit=20):
        x, y, z = oarr(x).ravel(), oarr(y).ravel(), oarr(z)
        for nm, v in (("x", x), ("y", y)):
            for i in range(len(v) - 1):
                d = core.sub(v[i + 1], v[i])
                if d.v == 0 or (d.f is not None and d.f <= 0):
                    prog(ValueError("%s must be strictly increasing" % nm))
        if z.shape[0] != len(x):
            prog(ValueError("x dimension of z must have same number of elements as x"))
        if z.ndim < 2 or z.shape[1] != len(y):
            prog(ValueError("y dimension of z must have same number of elements as y"))
        if isinstance(kx, Node) or isinstance(ky, Node):
            raise Unsupported("symbolic spline degree")
        if len(x) <= kx or len(y) <= ky:
            prog(TypeError("mx > kx and my > ky must hold"))
        s = lift(s)
        bb = None if bbox is None or all(b is None for b in (bbox if not is_arr(bbox) else [])) else spline_key("bb", oarr([b for b in bbox if b is not None]))
        self.data = dict(x=x, y=y, z=z, kx=kx, ky=ky, s=s)
        flat = z.ndim == 2 and all(lift(z[i, j]).v is not None and lift(z[i, j]).v == lift(z[i, 0]).v
                                   for i in range(z.shape[0]) for j in range(z.shape[1]))
        self.key = spline_key("rbs", x, y, z, kx, ky, s, bb, "flat" if flat else "")
        self.degrees = (kx, ky)
        ex, ey = [(lift(v[0]), lift(v[-1])) if k == 1 and len(v) == 2 else None for k, v in ((kx, x), (ky, y))]
        if flat:
            ey = None
        if len(RBS_LIN) > 20000:
            RBS_LIN.clear()
        if ex is not None or ey is not None:
            RBS_LIN[self.key] = (ex, ey)
        if len(RBS_RANGE) > 20000:
            RBS_RANGE.clear()
        if bb is None:
            RBS_RANGE[self.key] = ((lift(x[0]), lift(x[-1])), (lift(y[0]), lift(y[-1])))
        if not HOOKS.get("rbs_clamp"):
            # arguments lie within the table, where the surface is differentiable (C17 decides the rest)
            core.CTX.inside.update({lift(w[k]).v: sg for w in (x, y) for k, sg in ((0, -1), (-1, 1)) if lift(w[k]).v})
        self.tck = (Tck("tx", self.key, x), Tck("ty", self.key, y), Tck("c", self.key))
        HOOKS.setdefault("splines", []).append(self)

    def ev(self, xi, yi, dx=0, dy=0):
        rbs_diff(self.key, dx, dy)
        return ew(lambda a, b: rbs_at(self.key, a, b, dx, dy), 2)(xi, yi)

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        if not grid:
            return self.ev(x, y, dx, dy)
        rbs_diff(self.key, dx, dy)
        xs, ys = np.atleast_1d(oarr(x)), np.atleast_1d(oarr(y))
        r = np.empty((len(xs), len(ys)), dtype=object)
        for i in range(len(xs)):
            for j in range(len(ys)):
                r[i, j] = rbs_at(self.key, xs[i], ys[j], dx, dy)
        return r

    def partial_derivative(self, dx, dy):
        return RBSD(self, dx, dy)

    def get_knots(self):
        return self.tck[:2]

    def get_coeffs(self):
        return self.tck[2]


RBS.__module__ = "npmodel"


class RBSD(Model):
    def __init__(self, b, dx, dy):
        self.b, self.dx, self.dy = b, dx, dy

    def ev(self, x, y):
        return self.b.ev(x, y, self.dx, self.dy)

    def __call__(self, x, y, dx=0, dy=0, grid=True):
        return self.b(x, y, self.dx + dx, self.dy + dy, grid)


def bisplev(x, y, tck, dx=0, dy=0):
    h = HOOKS.get("bisplev_raises")
    if h and h(dx, dy):
        prog(ValueError("Invalid input data"))
    tx, ty, c, kx, ky = tck
    if not (isinstance(tx, Tck) and isinstance(ty, Tck) and isinstance(c, Tck)):
        raise Unsupported("bisplev on a hand-made representation")
    if tx.key == ty.key == c.key and (tx.name, ty.name, c.name) == ("tx", "ty", "c"):
        key = tx.key
        if (kx, ky) != (key[4], key[5]):
            key = ("broken", key, kx, ky)
    else:
        key = ("broken", tx.key, ty.key, c.key, tx.name, ty.name, c.name, kx, ky)
    rbs_diff((0, 0, 0, 0, kx, ky), dx, dy)
    xs, ys = asarr(x), asarr(y)
    if xs.ndim == 0 and ys.ndim == 0:
        return rbs_at(key, xs[()], ys[()], dx, dy)
    xs, ys = np.atleast_1d(oarr(xs)), np.atleast_1d(oarr(ys))
    r = np.empty((len(xs), len(ys)), dtype=object)
    for i in range(len(xs)):
        for j in range(len(ys)):
            r[i, j] = rbs_at(key, xs[i], ys[j], dx, dy)
    if r.size == 1:
        return r[0, 0]
    return r[0] if len(xs) == 1 else (r[:, 0] if len(ys) == 1 else r)


class Interp1(Model):
    """one-dimensional interpolants of scipy: uninterpreted function through the data"""

    def __init__(self, kind, x, y, axis=0, extra=()):
        self.x, self.y = oarr(x).ravel(), oarr(y)
        if self.y.shape[0] != len(self.x):
            prog(ValueError("x and y must have the same length"))
        self.kind = kind
        self.extra = extra

    def __call__(self, xi, nu=0, extrapolate=None):
        def one(v, col):
            v = lift(v)
            if nu == 0:
                for k in range(len(self.x)):
                    if self.x[k].v == v.v:
                        return lift(col[k])
            return core.func("interp1d", v, *list(self.x), *list(col), key=(self.kind, nu, self.extra))
        if self.y.ndim == 1:
            return ew(lambda v: one(v, self.y))(xi)
        xs = np.atleast_1d(oarr(xi))
        tail = self.y.shape[1:]
        r = np.empty((len(xs),) + tail, dtype=object)
        for i in range(len(xs)):
            for j in np.ndindex(tail):
                r[(i,) + j] = one(xs[i], self.y[(slice(None),) + j])
        return r if asarr(xi).ndim else r[0]


def mk1(kind):
    def f(x, y, *a, **k):
        return Interp1(kind, x, y, extra=tuple(sorted((kk, str(v)) for kk, v in k.items())))
    f.__module__ = "npmodel"
    return f


def brentq(f, a, b, args=(), xtol=None, rtol=None, maxiter=None, full_output=False, disp=True):
    """root of f between a and b: an implicit function of everything the residual depends on"""
    I = HOOKS["interp"]
    if not isinstance(args, tuple):
        args = (args,)
    a, b = lift(a), lift(b)
    rec = HOOKS.get("brentq_log")
    if rec is not None:
        rec.append((a, b, f, args, tuple(core.CTX.site)))
    if HOOKS.get("brentq_opts") is not None:
        HOOKS["brentq_opts"].append({k: x for k, x in (("xtol", xtol), ("rtol", rtol), ("maxiter", maxiter)) if x is not None} |
                                    ({} if disp else {"disp": False}))
    h = HOOKS.get("brentq_raises")
    if h and h(a, b):
        prog(ValueError("f(a) and f(b) must have different signs"))
    h = HOOKS.get("brentq_stub")
    if h:
        return h(f, a, b, args)
    probe = core.sym("phi-probe")
    R0 = lift(I.call(f, [probe] + list(args), {}))
    if R0.v is None:
        return core.undef("root of undefined residual")
    # the direction of the bracket does not matter
    key = tuple(sorted([a.v, b.v], key=repr))
    v = core.CTX.rnd("root", R0.v, key)
    phi = core.Node("leaf", (), v, aux="phi*")
    R = lift(I.call(f, [phi] + list(args), {}))
    dres = core.grad(R, [phi])[0]
    root = core.Node("root", (R,), v, aux={"dres": dres, "a": a, "b": b, "R": R, "phi": phi})
    HOOKS.setdefault("roots", {})[v] = root
    if full_output:
        return root, NS(converged=True, iterations=1, function_calls=1, root=root)
    return root


def root_scalar(f, args=(), method=None, bracket=None, **k):
    if bracket is None:
        raise Unsupported("root_scalar without bracket")
    lo, hi = tolist(bracket)
    return NS(root=brentq(f, lo, hi, args), converged=True)


# ------------------------------------------------------------------ openmdao model
class Vec(Model):
    """inputs/outputs vector of a component"""

    def __init__(self, shapes=None, vals=None, discrete=False):
        self.s = shapes or {}
        self.v = vals or {}
        self.discrete = discrete
        self.written = []

    def __getitem__(self, n):
        if n not in self.v:
            prog(KeyError(n))
        return self.v[n]

    def __setitem__(self, n, x):
        if n not in self.s and n not in self.v:
            prog(KeyError('Variable name "%s" not found.' % n))
        self.written.append(n)
        if self.discrete:
            self.v[n] = x
            return
        cur = self.v[n]
        a = oarr(x)
        try:
            cur[...] = a if a.ndim else a[()]
        except ValueError as e:
            if a.size != cur.size:
                prog(e)
            cur[...] = a.reshape(cur.shape)

    def __contains__(self, n):
        return n in self.v

    def keys(self):
        return list(self.v.keys())

    def items(self):
        return list(self.v.items())

    def __iter__(self):
        return iter(list(self.v))


class Jac(Model):
    """sub-Jacobians of a component as OpenMDAO stores them: one array per declared pair"""

    def __init__(self, om):
        self.om = om
        self.sub = {}
        size = {n: int(np.prod(m["shape"])) for k in ("inputs", "outputs") for n, m in om[k].items()}
        self.size = size
        for d in om["partials"]:
            for of in self.match(d["of"], om["outputs"]):
                for wrt in self.match(d["wrt"], om["inputs"]):
                    key = (of, wrt)
                    if not d["dependent"]:
                        self.sub.pop(key, None)
                        continue
                    rows, cols = d["rows"], d["cols"]
                    if rows is not None:
                        rows, cols = [int(i) for i in tolist(rows)], [int(i) for i in tolist(cols)]
                        if len(rows) != len(cols):
                            prog(ValueError("rows and cols must have the same shape"))
                        if rows and (max(rows) >= size[of] or max(cols) >= size[wrt]):
                            prog(ValueError("d(%s)/d(%s): row or column index outside the sub-Jacobian" % key))
                        v = np_zeros(len(rows))
                    else:
                        v = np_zeros((size[of], size[wrt]))
                    if d["val"] is not None:
                        a = oarr(d["val"])
                        if a.size == 1:
                            v[...] = a.reshape(-1)[0]
                        else:
                            v[...] = a.reshape(v.shape)
                    self.sub[key] = dict(val=v, rows=rows, cols=cols, method=d["method"], set=0)

    @staticmethod
    def match(pat, names):
        import fnmatch
        out = []
        for p in ([pat] if isinstance(pat, str) else tolist(pat)):
            m = [n for n in names if fnmatch.fnmatchcase(n, p)]
            if not m:
                prog(ValueError("No matches were found for '%s'" % p))
            out += m
        return out

    def _e(self, key):
        key = tuple(key)
        if key not in self.sub:
            prog(KeyError("Variable name pair %s must first be declared." % (key,)))
        return self.sub[key]

    def __getitem__(self, key):
        e = self._e(key)
        e["set"] += 1
        return e["val"]

    def __setitem__(self, key, x):
        e = self._e(key)
        e["set"] += 1
        v = e["val"]
        a = oarr(x)
        if a.ndim == 0:
            v[...] = a[()]
            return
        try:
            if e["rows"] is not None:
                v[:] = a
            else:
                v[:] = a.reshape(v.shape)
        except ValueError as err:
            if a.size == 1:
                v[...] = a.reshape(-1)[0]
            else:
                prog(ValueError("For subjacobian %s: %s" % (key, err)))

    def dense(self, key):
        m = np_zeros((self.size[key[0]], self.size[key[1]]))
        if key not in self.sub:
            return m
        e = self.sub[key]
        if e["rows"] is None:
            return e["val"].copy()
        for k, (i, j) in enumerate(zip(e["rows"], e["cols"])):
            m[i, j] = core.add(lift(m[i, j]), lift(e["val"][k]))
        return m


def shape_from(val, shape):
    if shape is not None:
        return shape_of(shape)
    if val is None:
        return (1,)
    a = asarr(val)
    return a.shape if a.ndim else (1,)


def comp_class():
    """ExplicitComponent"""
    d = {}

    def init(self, *a, **k):
        self.d["_om"] = om = dict(inputs={}, outputs={}, din={}, dout={}, partials=[], order=[])
        self.d["options"] = Options()
        f = self.cls.lookup("initialize")
        if f is not None:
            f(self)
        for kk, v in k.items():
            self.d["options"][kk] = v

    def add(kind):
        def f(self, name, val=None, shape=None, units=None, desc="", **k):
            self.d["_om"][kind][name] = dict(val=val, shape=shape_from(val, shape), units=units)
            return dict(name=name)
        return f

    def addd(kind):
        def f(self, name, val=None, desc="", **k):
            self.d["_om"][kind][name] = dict(val=val)
        return f

    def declare(self, of, wrt, dependent=True, rows=None, cols=None, val=None, method="exact", step=None, form=None,
                **k):
        self.d["_om"]["partials"].append(dict(of=of, wrt=wrt, dependent=dependent, rows=rows, cols=cols, val=val,
                                              method=method, site=core.CTX.where()))
    d["__init__"] = Native(init)
    d["add_input"] = Native(add("inputs"))
    d["add_output"] = Native(add("outputs"))
    d["add_discrete_input"] = Native(addd("din"))
    d["add_discrete_output"] = Native(addd("dout"))
    d["declare_partials"] = Native(declare)
    d["set_check_partial_options"] = Native(lambda self, *a, **k: None)
    d["declare_coloring"] = Native(lambda self, *a, **k: None)
    d["initialize"] = Native(lambda self: None)
    d["setup"] = Native(lambda self: None)
    d["setup_partials"] = Native(lambda self: None)
    d["comm"] = NS(rank=0, size=1)
    d["under_complex_step"] = False
    d["under_approx"] = False
    d["name"] = "comp"
    d["pathname"] = "comp"
    for v in d.values():
        if isinstance(v, Native):
            v.fn.__module__ = "npmodel"
    return Cls(None, "ExplicitComponent", [], d, None)


class Options(Model):
    def __init__(self):
        self.v = {}
        self.decl = set()

    def declare(self, n, default=None, **k):
        self.decl.add(n)
        if default is not None:
            self.v[n] = default
        elif "default" in k:
            self.v[n] = k["default"]

    def __getitem__(self, n):
        if n not in self.v:
            prog(KeyError("Option '%s' has not been declared or set." % n))
        return self.v[n]

    def __setitem__(self, n, x):
        self.v[n] = x

    def __contains__(self, n):
        return n in self.v


class _Flat(Model):
    def __init__(self, a):
        self.a = a

    def __getitem__(self, i):
        r = self.a.flat[i]
        return norm(r) if is_arr(r) else r

    def __setitem__(self, i, v):
        self.a.flat[i] = oarr(v) if isinstance(v, (list, tuple)) or is_arr(v) else v

    def __iter__(self):
        return iter(list(self.a.flat))

    def __len__(self):
        return self.a.size


# ------------------------------------------------------------------ attributes of arrays and scalars
def ndattr(o, n):
    if is_arr(o):
        F = {
            "T": lambda: o.T, "shape": lambda: o.shape, "size": lambda: o.size, "ndim": lambda: o.ndim,
            "dtype": lambda: NS(name="float64" if o.dtype == object else str(o.dtype), kind="f" if o.dtype == object else o.dtype.kind,
                                type=NPFLOAT if o.dtype == object else NPINT),
            "flat": lambda: _Flat(o), "real": lambda: o, "base": lambda: o.base, "flags": lambda: o.flags,
            "nbytes": lambda: 8 * o.size,
        }
        if n in F:
            return F[n]()
        M = {
            "flatten": lambda *a, **k: o.flatten(*a, **k), "ravel": lambda *a, **k: o.ravel(*a, **k), "copy": lambda *a, **k: o.copy(),
            "reshape": lambda *a, **k: _resh(o, *a, **k), "mean": lambda *a, **k: np_mean(o, *a, **k),
            "sum": lambda *a, **k: np_sum(o, *a, **k), "prod": lambda *a, **k: np_prod(o, *a, **k),
            "max": lambda *a, **k: np_max(o, *a, **k), "min": lambda *a, **k: np_min(o, *a, **k),
            "argmax": lambda *a, **k: np_argmax(o, *a, **k), "argmin": lambda *a, **k: np_argmin(o, *a, **k),
            "dot": lambda b: np_dot(o, b), "tolist": lambda: _tolist(o), "item": lambda *a: norm(o.item(*a)) if (o.size == 1 or a) else prog(ValueError("can only convert an array of size 1 to a Python scalar")),
            "astype": lambda d, *a, **k: cast(o, d) if kind_of_dtype(d) != "f" else (liftarr(o).copy()),
            "squeeze": lambda *a, **k: o.squeeze(*a, **k), "transpose": lambda *a: o.transpose(*a),
            "any": lambda *a, **k: NPF["any"](o, *a, **k), "all": lambda *a, **k: NPF["all"](o, *a, **k),
            "fill": lambda v: o.__setitem__(Ellipsis, lift(v) if o.dtype == object else v),
            "cumsum": lambda *a, **k: NPF["cumsum"](o, *a, **k), "nonzero": lambda: np.nonzero(o),
            "round": lambda *a, **k: NPF["round"](o, *a, **k), "clip": lambda *a, **k: np_clip(o, *a, **k),
            "diagonal": lambda *a: o.diagonal(*a), "sort": lambda *a: o.__setitem__(Ellipsis, np_sort(o)),
            "argsort": lambda *a, **k: np_argsort(o), "repeat": lambda *a, **k: o.repeat(*a, **k),
            "swapaxes": lambda *a: o.swapaxes(*a), "take": lambda *a, **k: o.take(*a, **k), "conj": lambda: o,
            "searchsorted": lambda v, **k: np_searchsorted(o, v, **k), "view": lambda *a: o.view(),
            "std": lambda *a, **k: NPF["std"](o, *a, **k), "var": lambda *a, **k: NPF["var"](o, *a, **k), "ptp": lambda: np_max(o) - np_min(o),
            "resize": lambda *a: (_ for _ in ()).throw(Unsupported("resize")),
            "tobytes": lambda: tuple(lift(v).v for v in o.ravel()), "__len__": lambda: b_len(o),
            "__array__": lambda *a, **k: o, "setflags": lambda **k: o.setflags(**k),
            "__getitem__": lambda i: o[i],
        }
        if n in M:
            f = M[n]
            f.__module__ = "npmodel"
            return f
        if n == "__class__":
            return NDARRAY
        prog(AttributeError("'numpy.ndarray' object has no attribute '%s'" % n))
    if isinstance(o, Node):
        F = {"shape": (), "size": 1, "ndim": 0, "real": o, "T": o, "imag": const(0), "dtype": NS(name="float64", kind="f", type=NPFLOAT)}
        if n in F:
            return F[n]
        M = {"item": lambda: o, "copy": lambda: o, "mean": lambda *a: o, "sum": lambda *a: o, "squeeze": lambda: o,
             "max": lambda: o, "min": lambda: o, "tolist": lambda: o, "astype": lambda d=None, *a, **k: cast(oarr(o), d).reshape(-1)[0],
             "flatten": lambda: np.atleast_1d(asarr(o)), "ravel": lambda: np.atleast_1d(asarr(o)),
             "reshape": lambda *a: _resh(asarr(o), *a), "is_integer": lambda: o.q is not None and o.q.denominator == 1,
             "conjugate": lambda: o, "dot": lambda b: o * b, "any": lambda: bool(o), "all": lambda: bool(o),
             "__float__": lambda: o, "__class__": FLOAT, "hex": lambda: str(o.v), "tobytes": lambda: o.v}
        if n in M:
            f = M[n]
            if isinstance(f, types.FunctionType):
                f.__module__ = "npmodel"
            return f
        prog(AttributeError("'float' object has no attribute '%s'" % n))
    if isinstance(o, bool):
        if n in ("any", "all"):
            return wrap(lambda *a: o)
        if n == "sum":
            return wrap(lambda *a: int(o))
    if isinstance(o, int):
        if n in ("item", "copy", "squeeze"):
            return wrap(lambda: o)
        if n == "shape":
            return ()
        if n == "size":
            return 1
        if n in ("flatten", "ravel"):
            return wrap(lambda: np.array([o]))
    return NotImplemented


def _resh(o, *a, **k):
    sh = a[0] if len(a) == 1 and isinstance(a[0], (tuple, list)) else a
    try:
        return o.reshape(tuple(int(x) for x in sh), order=k.get("order") or "C")
    except ValueError as e:
        prog(e)


def _tolist(o):
    if o.ndim == 0:
        return norm(o[()])
    return [norm(x) if not is_arr(x) else _tolist(x) for x in o]


# ------------------------------------------------------------------ misc modules
def deepcopy(x, memo=None):
    memo = {} if memo is None else memo
    if id(x) in memo:
        return memo[id(x)]
    if is_arr(x):
        r = x.copy()
        memo[id(x)] = r
        if x.dtype == object:
            for i in np.ndindex(r.shape):
                if isinstance(r[i], (Inst, list, dict)):
                    r[i] = deepcopy(r[i], memo)
        return r
    if isinstance(x, list):
        r = memo[id(x)] = []
        r.extend(deepcopy(e, memo) for e in x)
        return r
    if isinstance(x, dict):
        r = memo[id(x)] = {}
        for k, v in x.items():
            r[k] = deepcopy(v, memo)
        return r
    if isinstance(x, tuple):
        return tuple(deepcopy(e, memo) for e in x)
    if isinstance(x, set):
        return set(x)
    if isinstance(x, Inst):
        r = memo[id(x)] = Inst(x.cls)
        for k, v in x.d.items():
            r.d[k] = deepcopy(v, memo)
        return r
    return x


def shallow(x):
    if is_arr(x):
        return x.copy()
    if isinstance(x, (list, dict, set)):
        return x.copy()
    if isinstance(x, Inst):
        r = Inst(x.cls)
        r.d.update(x.d)
        return r
    return x


def _wraps(f, g):
    if isinstance(f, Func) and isinstance(g, Func):
        f.name = g.name
    return f


def math_mod():
    g = {}
    for n, m in dict(sin="sin", cos="cos", tan="tan", exp="exp", log="log", sqrt="sqrt", atan="arctan", acos="arccos", asin="arcsin",
                     fabs="abs", radians="deg2rad", degrees="rad2deg", atan2="arctan2", pow="power", hypot="hypot", log10="log10",
                     copysign="copysign", sinh="sinh", cosh="cosh", tanh="tanh", exp2="exp2", asinh="arcsinh", acosh="arccosh",
                     atanh="arctanh", log1p="log1p", log2="log2", expm1="expm1", cbrt="cbrt", isinf="isinf", fmod="fmod").items():
        if m not in NPF:
            continue
        def f(*a, _m=m, **k):
            r = NPF[_m](*[x.reshape(-1)[0] if is_arr(x) and x.size == 1 else x for x in a])
            return r
        f.__module__ = "npmodel"
        g[n] = f
    g["floor"] = wrap(lambda x: _fl(x, False))
    g["ceil"] = wrap(lambda x: _fl(x, True))
    g["trunc"] = wrap(lambda x: _fl(x, lift(x).q < 0) if lift(x).q is not None else NPF["trunc"](x))
    for n in ("gcd", "factorial", "comb", "lcm", "isqrt", "perm"):
        g[n] = wrap(getattr(_math, n))
    g["dist"] = wrap(lambda a, b: core.sqrt(np_sum([(lift(x) - lift(y)) ** 2 for x, y in zip(tolist(a), tolist(b))])))
    g["pi"] = None
    g["isnan"] = np_isnan
    g["isclose"] = b_isclose
    g["isfinite"] = np_isfinite
    g["inf"] = None
    g["nan"] = None
    g["e"] = None
    g["fsum"] = wrap(lambda x: np_sum(tolist(x)))
    g["prod"] = wrap(lambda x: np_prod(tolist(x)))
    return MathM(g)


def _fl(x, up):
    x = lift(x)
    if x.q is not None:
        return _math.ceil(x.q) if up else _math.floor(x.q)
    return core.neg(core.floorv(core.neg(x))) if up else core.floorv(x)


class MathM(Model):
    def __init__(self, g):
        self.__dict__.update(g)

    def __getattribute__(self, n):
        if n == "pi":
            return core.PI()
        if n == "inf":
            return core.special("inf")
        if n == "nan":
            return core.special("nan")
        if n == "tau":
            return core.PI() * 2
        if n == "e":
            return core.exp(const(1))
        return object.__getattribute__(self, n)


class SClass(Model):
    def __getitem__(self, key):
        return key


class NumpyM(Model):
    def __init__(self):
        self.__dict__.update(NPF)
        self.s_ = self.index_exp = SClass()
        self.nanargmax, self.nanargmin = NPF["argmax"], NPF["argmin"]
        self.isrealobj = wrap(lambda x: True)
        self.r_ = CClass("r")
        self.c_ = CClass("c")
        self.newaxis = None
        self.ndarray = NDARRAY
        self.float64 = NPFLOAT
        self.float32 = self.single = self.float16 = self.half = NPSINGLE
        self.float_ = FLOAT
        self.float = FLOAT
        self.double = NPFLOAT
        self.floating = NPFLOAT
        self.number = NUMBER
        self.integer = NPINT
        self.int64 = self.int32 = self.int_ = NPINT
        self.bool_ = self.bool = NPBOOL
        self.object_ = OBJECT
        self.generic = NUMBER
        self.errstate = _Err
        self.savetxt = np_savetxt
        self.loadtxt = np_loadtxt
        self.genfromtxt = np_loadtxt
        self.linalg = NS(norm=np_norm, LinAlgError=np.linalg.LinAlgError,
                         solve=wrap(lambda A, b: _solve(A, b)), inv=wrap(lambda A: _solve(A, np_eye(len(A)))),
                         lstsq=wrap(_lstsq), det=wrap(_det), matmul=wrap(NPF["matmul"]), cross=wrap(NPF["cross"]), outer=wrap(NPF["outer"]))
        self.ma = NS()
        self.finfo = wrap(lambda *a: NS(eps=const(Fraction(1, 2 ** 52)), tiny=const(Fraction(1, 2 ** 1022)), max=const(2 ** 1023)))
        for u in ("add", "multiply", "maximum", "minimum", "subtract"):
            fn = getattr(self, u)
            setattr(self, u, Ufunc(fn, {"add": np_sum, "multiply": np_prod, "maximum": np_max, "minimum": np_min}.get(u)))
        pp = NS(polyfit=wrap(lambda x, y, deg, **k: np_polyfit(x, y, deg)[::-1]), polyval=wrap(lambda x, c: np_polyval(oarr(c)[::-1], x)),
                Polynomial=_PolyCls())
        self.polynomial = NS(polynomial=pp, Polynomial=pp.Polynomial)

    def __getattribute__(self, n):
        if n == "pi":
            return core.PI()
        if n in ("inf", "Inf"):
            return core.special("inf")
        if n in ("nan", "NaN"):
            return core.special("nan")
        if n == "e":
            return core.exp(const(1))
        return object.__getattribute__(self, n)


class Ufunc(Model):
    def __init__(self, f, red):
        self.f = f
        self.red = red

    def __call__(self, *a, **k):
        return self.f(*a, **k)

    def reduce(self, x, axis=0, **k):
        if self.red is None or k:
            return self.f.reduce(x, axis=axis, **k)
        return self.red(x, axis=axis)

    def outer(self, a, b):
        return self.f.outer(a, b)

    def accumulate(self, a, axis=0):
        return self.f.accumulate(a, axis)

    def at(self, a, idx, v):
        vs = np.broadcast_to(oarr(v), np.shape(idx)) if not isinstance(idx, int) else [v]
        for i, x in zip(np.atleast_1d(idx), vs):
            a[i] = self.f(a[i], x)


def _solve(A, b):
    A, b = oarr(A), oarr(b)
    r = solve([list(x) for x in A], [x for x in b])
    r = oarr([list(x) for x in r])
    return r[:, 0] if b.ndim == 1 else r


def _lstsq(A, b, rcond=None):
    A, b = oarr(A), oarr(b)
    return _solve(A.T @ A, A.T @ b), None, None, None


def pass_decorator(*a, **k):
    if len(a) == 1 and isinstance(a[0], Func) and not k:
        return a[0]
    return wrap(lambda f: f)


class LruCache(Model):
    """functools.lru_cache: results remembered by the identity/equality of the arguments"""

    def __init__(self, f):
        self.f = f
        self.c = {}

    def __call__(self, *a, **k):
        key = (a, tuple(sorted(k.items())))
        try:
            hit = key in self.c
        except TypeError as e:
            prog(e)
        if not hit:
            self.c[key] = HOOKS["interp"].call(self.f, list(a), k)
        return self.c[key]


class WarnM(Model):
    def warn(self, *a, **k):
        core.CTX.events.append(("warn", pystr(a[0]) if a else "", core.CTX.where()))

    def filterwarnings(self, *a, **k):
        core.CTX.events.append(("filterwarnings", a, core.CTX.where()))

    simplefilter = filterwarnings

    def catch_warnings(self, *a, **k):
        return _Err()


class PartialM(Model):
    def __init__(self, f, *a, **k):
        self.f, self.a, self.k = f, a, k

    def __call__(self, *a, **k):
        return HOOKS["interp"].call(self.f, list(self.a) + list(a), {**self.k, **k})


def lru(*a, **k):
    if len(a) == 1 and isinstance(a[0], Func):
        return Bindable(LruCache(a[0]))
    return wrap(lambda f: Bindable(LruCache(f)))


class Bindable(Native):
    def __init__(self, c):
        self.c = c
        self.fn = lambda *a, **k: c(*a, **k)
        self.fn.__module__ = "npmodel"


def models(bem=None):
    np_ = NumpyM()
    comp = comp_class()
    osm = NS(rename=wrap(fs_move), replace=wrap(fs_move), rmdir=wrap(lambda p: fs().ev("rmdir", path_str(p))), fspath=wrap(path_str), mkdir=wrap(lambda *a, **k: fs().ev("mkdir", path_str(a[0]))), path=NS(exists=wrap(fs_exists), isfile=wrap(fs_exists), join=wrap(path_join), split=wrap(path_split),
                     basename=wrap(lambda p: p.split("/")[-1]), dirname=wrap(lambda p: "/".join(p.split("/")[:-1])),
                     splitext=wrap(lambda p: (p[:p.rfind(".")], p[p.rfind("."):]) if "." in p else (p, "")),
                     abspath=wrap(lambda p: p), realpath=wrap(lambda p: p)),
             remove=wrap(fs_remove), unlink=wrap(fs_remove), system=wrap(fs_system), getpid=wrap(lambda: HOOKS["pid"]),
             sep="/", linesep="\n", environ={}, getcwd=wrap(lambda: "."), devnull="/dev/null", name="posix",
             makedirs=wrap(lambda *a, **k: fs().ev("mkdir", a[0])), listdir=wrap(lambda *a: sorted(fs().files)))
    cp = wrap(lambda: NS(pid=HOOKS["pid"], name="proc"))
    sub = NS(run=wrap(lambda cmd, *a, **k: NS(returncode=proc_run(cmd, *a, **k), stdout="", stderr="")), call=wrap(proc_run),
             check_call=wrap(proc_run), PIPE=-1, DEVNULL=-3)
    M = {
        "numpy": np_, "numpy.linalg": np_.linalg, "numpy.polynomial": np_.polynomial, "numpy.polynomial.polynomial": np_.polynomial.polynomial, "math": math_mod(), "os": osm, "os.path": osm.path,
        "multiprocessing": NS(current_process=cp), "warnings": WarnM(), "subprocess": sub,
        "copy": NS(deepcopy=wrap(deepcopy), copy=wrap(shallow)),
        "scipy": NS(), "scipy.optimize": NS(brentq=brentq, root_scalar=wrap(root_scalar), bisect=brentq, brenth=brentq, ridder=brentq),
        "scipy.interpolate": NS(RectBivariateSpline=RBS, bisplev=bisplev, PchipInterpolator=mk1("pchip"),
                                CubicSpline=mk1("cubic"), interp1d=mk1("interp1d"), Akima1DInterpolator=mk1("akima")),
        "openmdao": NS(), "openmdao.api": NS(ExplicitComponent=comp),
        "itertools": _pass("itertools"), "functools": NS(partial=wrap(lambda f, *a, **k: PartialM(f, *a, **k)), reduce=wrap(lambda f, s, *i: functools.reduce(f, tolist(s), *i)),
                                                       lru_cache=wrap(lru), cache=wrap(lru), wraps=wrap(lambda g, *a, **k: wrap(lambda f: _wraps(f, g))),
                                                       cached_property=CachedProp, total_ordering=wrap(total_ordering)),
        "operator": _pass("operator"), "collections": _pass("collections"), "re": _pass("re"), "string": _pass("string"),
        "typing": _Typing(), "time": NS(time=wrap(lambda: core.sym("clock"))), "logging": _Log(), "pathlib": NS(Path=PathM),
        "sys": NS(argv=["prog"], exit=wrap(lambda *a: prog(SystemExit(*a))), stderr=None, stdout=None, maxsize=2 ** 63 - 1, version_info=(3, 12)),
        "argparse": _Any(), "matplotlib": _Any(), "matplotlib.pyplot": _Any(), "matplotlib.pylab": _Any(), "pylab": _Any(), "numbers": NS(Number=NUMBER, Real=NUMBER),
        "tempfile": NS(mkdtemp=wrap(mkdtemp), TemporaryDirectory=TemporaryDirectory, NamedTemporaryFile=NamedTemporaryFile, gettempdir=wrap(lambda: "/tmp")), "contextlib": NS(suppress=Suppress, contextmanager=wrap(lambda f: wrap(lambda *a, **k: CtxManager(f, list(a), k))), ExitStack=ExitStack,
                                                     closing=Closing, nullcontext=NullCtx), "types": NS(SimpleNamespace=NS), "abc": NS(ABC=OBJECT, abstractmethod=wrap(lambda f: f)),
        "dataclasses": NS(dataclass=wrap(dataclass), field=wrap(dc_field), asdict=wrap(dc_asdict), replace=wrap(dc_replace), astuple=wrap(lambda o: tuple(o.d[n] for n in _dc_names(o))),
                          fields=wrap(lambda o: tuple(NS(name=n) for n in _dc_names(o))), is_dataclass=wrap(lambda o: (o if isinstance(o, Cls) else getattr(o, "cls", None)) is not None)), "io": NS(StringIO=StringIO), "textwrap": _pass("textwrap"), "heapq": _pass("heapq"), "bisect": _pass("bisect"), "glob": NS(glob=wrap(lambda p: [])), "shutil": NS(rmtree=wrap(rmtree), copy=wrap(fs_copy), copyfile=wrap(fs_copy), move=wrap(fs_move)), "threading": NS(Lock=wrap(lambda: _Err())),
        "enum": NS(Enum=ClassMaker(enum_class), IntEnum=ClassMaker(enum_class), auto=wrap(lambda: "<auto>"), unique=wrap(lambda c: c)), "decimal": NS(), "fractions": NS(), "six": NS(), "scipy.integrate": NS(trapezoid=NPF["trapezoid"], trapz=NPF["trapz"]),
    }
    M["os"].path = osm.path
    M["scipy"].optimize, M["scipy"].interpolate = M["scipy.optimize"], M["scipy.interpolate"]
    M["openmdao"].api = M["openmdao.api"]
    if bem is not None:
        M["ccblade._bem"] = bem
    return M


def named_tuple(I, c):
    import collections
    ann = list(c.d.get("__annotations__", {}))
    nt = collections.namedtuple(c.name, ann, defaults=[c.d[a] for a in ann if a in c.d])
    d = {}
    for k, v in c.d.items():
        if k in ann or k == "__annotations__":
            continue
        if isinstance(v, Func):
            d[k] = (lambda v: lambda self, *a, **kw: I.call(v, [self] + list(a), kw))(v)
        elif isinstance(v, Prop):
            d[k] = property((lambda v: lambda self: I.call(v.fget, [self], {}))(v))
        elif isinstance(v, StaticM):
            d[k] = staticmethod(v.f)
        elif isinstance(v, ClassM):
            d[k] = classmethod((lambda v: lambda cls, *a, **kw: I.call(v.f, [cls] + list(a), kw))(v))
        else:
            d[k] = v
    return type(c.name, (nt,), d) if d else nt


class Field(Model):
    def __init__(self, default=None, default_factory=None, init=True, has=False, **k):
        self.default, self.factory, self.init, self.has = default, default_factory, init, has


def dc_field(*a, **k):
    return Field(has="default" in k, **k)


def _dc_fields(c):
    out = {}
    for k in reversed(c.mro()):
        for n in k.d.get("__annotations__", {}):
            out[n] = k.d.get(n, out.get(n))
            if n not in k.d and out[n] is None:
                out[n] = Field()
            elif not isinstance(out[n], Field):
                out[n] = Field(default=out[n], has=True)
    return out


def dataclass(cls=None, **opts):
    def make(c):
        I = HOOKS["interp"]
        fs = _dc_fields(c)

        def init(self, *args, **kw):
            names = [n for n, fl in fs.items() if fl.init]
            if len(args) > len(names):
                prog(TypeError("__init__() takes %d positional arguments but %d were given" % (len(names) + 1, len(args) + 1)))
            vals = dict(zip(names, args))
            for k, v in kw.items():
                if k not in names or k in vals:
                    prog(TypeError("__init__() got an unexpected or repeated argument %r" % k))
                vals[k] = v
            for n, fl in fs.items():
                if n not in vals:
                    if fl.factory is not None:
                        vals[n] = I.call(fl.factory, [], {})
                    elif fl.has:
                        vals[n] = fl.default
                    elif fl.init:
                        prog(TypeError("__init__() missing a required argument: %r" % n))
                    else:
                        continue
                self.d[n] = vals[n]
            post = c.lookup("__post_init__")
            if post is not None:
                I.call(post, [self], {})

        def eq(self, o):
            if not isinstance(o, Inst) or o.cls is not self.cls:
                return NotImplemented
            return all(I.truth(I.compare(ast.Eq, self.d[n], o.d[n])) for n in fs)
        for n, fl in fs.items():
            if fl.has:
                c.d[n] = fl.default
            elif isinstance(c.d.get(n), Field):
                del c.d[n]
        if "__init__" not in c.d and opts.get("init", True):
            c.d["__init__"] = Native(init)
        if "__eq__" not in c.d and opts.get("eq", True):
            c.d["__eq__"] = Native(eq)
        if opts.get("order"):
            def key(o):
                return tuple(o.d[n] for n in fs)
            for nm, op in (("__lt__", ast.Lt), ("__le__", ast.LtE), ("__gt__", ast.Gt), ("__ge__", ast.GtE)):
                c.d.setdefault(nm, Native(lambda self, o, op=op: I.compare(op, key(self), key(o))))
        if "__repr__" not in c.d and opts.get("repr", True):
            c.d["__repr__"] = Native(lambda self: "%s(%s)" % (c.name, ", ".join("%s=%s" % (n, repr(self.d[n]) if isinstance(self.d[n], str) else pystr(self.d[n])) for n, fl in fs.items())))
        c.d["__match_args__"] = tuple(n for n, fl in fs.items() if fl.init)
        c.d["__dataclass_fields__"] = fs
        if opts.get("frozen"):
            def sa(self, k, v):
                prog(AttributeError("cannot assign to field %r" % k))
            c.d["__setattr__"] = Native(sa)
        return c
    return make(cls) if cls is not None else wrap(make)


def _dc_names(o):
    fs = (o if isinstance(o, Cls) else o.cls).lookup("__dataclass_fields__")
    if fs is None:
        prog(TypeError("must be called with a dataclass type or instance"))
    return list(fs)


def dc_asdict(o, **k):
    return {n: dc_asdict(o.d[n]) if isinstance(o.d[n], Inst) and o.d[n].cls.lookup("__dataclass_fields__") else deepcopy(o.d[n]) for n in _dc_names(o)}


def dc_replace(o, **k):
    return HOOKS["interp"].call(o.cls, [], {**{n: o.d[n] for n in _dc_names(o)}, **k})


def total_ordering(c):
    def mk(f):
        return Native(f)
    I = HOOKS["interp"]
    lt, eq = c.lookup("__lt__"), c.lookup("__eq__")
    if lt is not None:
        L = lambda a, b: I.truth(I.call(lt, [a, b], {}))
        E = lambda a, b: I.truth(I.compare(ast.Eq, a, b))
        c.d.setdefault("__gt__", mk(lambda a, b: not (L(a, b) or E(a, b))))
        c.d.setdefault("__le__", mk(lambda a, b: L(a, b) or E(a, b)))
        c.d.setdefault("__ge__", mk(lambda a, b: not L(a, b)))
    return c


class ExitStack(Model):
    def __init__(self):
        self.cbs = []

    def __enter__(self):
        return self

    def enter_context(self, cm):
        I = HOOKS["interp"]
        if isinstance(cm, CtxManager):
            raise core.Unsupported("ExitStack over a generator context manager")
        v = I.call(I.getattr(cm, "__enter__"), [], {})
        self.cbs.append(lambda: I.call(I.getattr(cm, "__exit__"), [None, None, None], {}))
        return v

    def callback(self, f, *a, **k):
        self.cbs.append(lambda: HOOKS["interp"].call(f, list(a), k))
        return f

    def __exit__(self, *a):
        for c in self.cbs[::-1]:
            c()
        return False


class Closing(Model):
    def __init__(self, o=None):
        self.o = o

    def __enter__(self):
        return self.o

    def __exit__(self, *a):
        if self.o is not None and self.close:
            HOOKS["interp"].call(HOOKS["interp"].getattr(self.o, "close"), [], {})
        return False

    close = True


class NullCtx(Closing):
    close = False


class Suppress(Model):
    def __init__(self, *t):
        self.t = t

    def __enter__(self):
        return None

    def __exit__(self, et, e, tb):
        return e is not None and HOOKS["interp"].match_exc(e, tuple(self.t))


class _Any(Model):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _Any()

    def __call__(self, *a, **k):
        return _Any()

    def __getitem__(self, k):
        return _Any()


class _Typing(_Any):
    def __getattr__(self, n):
        if n == "NamedTuple":
            return ClassMaker(named_tuple)
        if n in ("Protocol", "Generic"):
            return OBJECT
        return _Any.__getattr__(self, n)


class _Log(Model):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "getLogger":
            return wrap(lambda *a: _Log())
        if n.isupper():
            return 10
        return wrap(lambda *a, **k: core.CTX.events.append(("log", n, core.CTX.where())))


class _pass(Model):
    def __init__(self, name):
        import importlib
        self._m = importlib.import_module(name)

    def __getattr__(self, n):
        v = getattr(self.__dict__["_m"], n)
        return v


def b_iter(x, *sentinel):
    I = HOOKS["interp"]
    if sentinel:
        def produce():
            for _ in range(200000):
                v = I.call(x, [], {})
                if I.truth(I.compare(ast.Eq, v, sentinel[0])):
                    return
                yield v
            raise core.Unsupported("iter(callable, sentinel) does not end")
        return produce()
    if hasattr(x, "__next__"):
        return x
    return iter(tolist(x))


def builtin_table():
    t = dict(float=FLOAT, int=INT, bool=BOOL, str=STR, list=LIST, tuple=TUPLE, dict=DICT, set=SET, frozenset=FSET, object=OBJECT,
             slice=SLICE, len=b_len, range=b_range, max=b_minmax(True), min=b_minmax(False), sum=b_sum, sorted=b_sorted, abs=b_abs,
             round=b_round, enumerate=lambda x, start=0: enumerate(HOOKS["interp"].iter(x), start), zip=b_zip, map=b_map,
             filter=b_filter, reversed=lambda x: iter(list(x)[::-1]), any=lambda x: any(HOOKS["interp"].truth(e) for e in HOOKS["interp"].iter(x)),
             all=lambda x: all(HOOKS["interp"].truth(e) for e in HOOKS["interp"].iter(x)), isinstance=pyisinstance,
             issubclass=lambda a, b: a.issub(b) if isinstance(a, Cls) else issubclass(a, b), type=pytype,
             getattr=b_getattr, setattr=lambda o, n, v: HOOKS["interp"].setattr(o, n, v), hasattr=b_hasattr,
             delattr=lambda o, n: o.d.pop(n), callable=lambda x: isinstance(x, (Func, Bound, Cls, Native)) or callable(x), iter=b_iter, next=b_next,
             print=b_print, repr=lambda x: pystr(x) if not isinstance(x, str) else repr(x), pow=lambda a, b, *m: HOOKS["interp"].binop(__import__("ast").Pow, a, b), divmod=lambda a, b: (a // b, a % b),
             open=fs_open, staticmethod=StaticM, classmethod=ClassM, property=Prop, NotImplemented=NotImplemented,
             Ellipsis=Ellipsis, format=lambda v, s="": fmt(v, s), hash=hash, id=id, ord=ord, chr=chr, vars=lambda o: o.d,
             input=lambda *a: prog(EOFError()), globals=lambda: {}, complex=lambda *a: prog(TypeError("complex")))
    import builtins
    for n in dir(builtins):
        o = getattr(builtins, n)
        if isinstance(o, type) and issubclass(o, BaseException):
            t[n] = o
    t["exit"] = lambda *a: prog(SystemExit(*a))
    t["__debug__"] = True
    for k, v in t.items():
        if isinstance(v, types.FunctionType):
            v.__module__ = "npmodel"
    return t
