import contextlib
import copy
import functools
import itertools
import math
import operator
import warnings
from collections import OrderedDict, defaultdict, namedtuple, deque, Counter, ChainMap
from dataclasses import dataclass, field
from enum import Enum
from functools import lru_cache, partial, reduce, wraps, singledispatch, cached_property
from itertools import accumulate, chain, count, islice, pairwise, product, starmap, takewhile, zip_longest, groupby, tee, repeat, cycle, compress
from operator import attrgetter, itemgetter, methodcaller
from types import SimpleNamespace
from typing import NamedTuple, Optional
import numpy as np
from numpy import cos, sin

A = np.array([1.0, 2.5, -3.0, 4.0])
B = np.array([[1.0, 2.0, 3.0], [4.0, 5.0, 7.0]])

def t1():
    (x := A * 2)[1] = 7.0
    return x, [y for y in x if y > 1], {k: v for k, v in zip("abcd", x)}
def t2():
    match (1, 2.0):
        case (1, y): r = y * 2
        case _: r = 0
    match {"k": "a", "z": 3}:
        case {"k": "b"}: r += 100
        case {"k": "a", "z": z} if z > 2: r += z
    return r
def t3():
    @dataclass
    class P:
        x: float
        y: float = 2.0
        z: list = field(default_factory=list)
        def norm(self): return math.hypot(self.x, self.y)
    p = P(3.0, 4.0); q = P(1.0)
    q.z.append(3)
    return p.norm(), q.y, q.z, p == P(3.0, 4.0, [])
def t4():
    class V(NamedTuple):
        a: float
        b: float = 5.0
    v = V(1.0); w = v._replace(a=9.0)
    P = namedtuple("P", "x y"); p = P(1, y=2)
    return v.a + v.b, w.a, p.x, p[1], tuple(p), v._asdict()["b"]
def t5():
    d = defaultdict(list)
    for i, a in enumerate(A): d[i % 2].append(a)
    o = OrderedDict((("a", 1), ("b", 2)))
    o.move_to_end("a")
    return d[0], list(o), dict(Counter("aab")), list(deque([1, 2, 3], maxlen=2))
def t6():
    def gen(n):
        for i in range(n):
            r = yield i
        return 5
    def outer():
        x = yield from gen(3)
        yield x
    return list(outer()), sum(gen(4)), next(iter(gen(2))), next(gen(0), None)
def t7():
    out = []
    for a in A:
        if a > 3: break
        if a < 0: continue
        out.append(a)
    else: out.append(-1)
    for a in (): pass
    else: out.append(99)
    i = 0
    while True:
        i += 1
        if i > 3: break
    return out, i
def t8():
    try:
        try: raise ValueError("x")
        except ValueError as e: raise KeyError("y") from e
        finally: z = 3
    except (KeyError, IndexError) as e: r = type(e).__name__
    else: r = "no"
    with contextlib.suppress(ZeroDivisionError): r += str(1 // 0)
    return r, z
def t9():
    @contextlib.contextmanager
    def cm(v):
        v.append(1)
        try: yield v
        finally: v.append(2)
    v = []
    with cm(v) as w: w.append(5)
    return v
def t10():
    f = partial(np.interp, xp=[0.0, 1.0, 2.0], fp=[0.0, 10.0, 30.0])
    return f(0.5), list(map(f, [0.25, 1.5])), reduce(lambda a, b: a * b, A), list(accumulate(A)), list(chain([1], [2, 3], *[[4]]))
def t11():
    return list(itertools.pairwise(A)), list(itertools.product("ab", repeat=2)), list(starmap(max, [(1, 2), (4, 3)])), list(islice(count(5, 2), 3)), list(zip_longest([1, 2], [3], fillvalue=0)), list(takewhile(lambda x: x > 0, A))
def t12():
    return sorted(A, key=lambda x: -x), sorted("bca", reverse=True), max(A, key=abs), min((3, "a"), (2, "b")), max([], default=4), sum([[1], [2]], []), list(reversed(A)), any(a < 0 for a in A), all(A)
def t13():
    return f"{A[0]:.3f} {1e-3:g} {'x':>5}|{3:04d} {A[1]!r} {1==1}", "%5.2f|%-6s|%d" % (2.5, "ab", 3), "{:.2e} {a}".format(12345.678, a=1), "a,b".split(","), "-".join(map(str, [1, 2])), " x ".strip(), "abc"[::-1], "abc".upper().startswith("A"), "a b c".partition(" "), "k=v".rpartition("=")
def t14():
    x = A.copy(); x[x < 0] = 0.0; x[[0, 1]] += 1; x[-1:] *= 2
    m = np.where(x > 1, x, -x)
    return x, m, np.clip(x, 0.5, 3), np.cumsum(x)[::-1], np.diff(x), x.argmax(), x.mean(), x.tolist(), x.reshape(2, -1).T, x.astype(int), x.min(), x[1:3].sum(), x.size, x.shape, x.ndim
def t15():
    return np.einsum("ij,j->i", B, B[0]), B @ B.T, B.dot(B[0]), np.dot(B[0], B[1]), np.outer(B[0], B[1]), np.cross(B[0], B[1]), np.trace(B[:, :2]), B.sum(axis=0), B.max(axis=1), B.flatten(), B.ravel(order="F"), B[..., 0], B[:, None, :].shape, np.linalg.norm(B[0]), B.prod()
def t16():
    a, *b, c = A
    (d, e), f = (1, 2), 3
    x, y = y, x = 1, 2
    return a, b, c, d, e, f, x, y, [*b, *(1, 2)], {**{"a": 1}, "b": 2}, (lambda *a, k=3, **kw: (a, k, kw))(1, 2, z=4)
def t17():
    n = 0
    def inc():
        nonlocal n
        n += 1
        return n
    inc(); inc()
    fs = [lambda i=i: i for i in range(3)]
    gs = [lambda: i for i in range(3)]
    return n, [f() for f in fs], [g() for g in gs]
class Base:
    k = 3
    def __init__(self, x): self._x = x
    @property
    def x(self): return self._x
    @x.setter
    def x(self, v): self._x = v * 2
    @classmethod
    def make(cls, v): return cls(v)
    @staticmethod
    def twice(v): return 2 * v
    def __call__(self, y): return self._x + y
    def __getitem__(self, i): return self._x * i
    def __len__(self): return 4
    def __repr__(self): return "B(%r)" % (self._x,)
    def __enter__(self): return self
    def __exit__(self, *a): self._x = 0; return True
    def __eq__(self, o): return self._x == o._x
    def __lt__(self, o): return self._x < o._x
    def __hash__(self): return 1
    def __contains__(self, v): return v == self._x
    def __iter__(self): return iter([self._x, 2])
    def __getattr__(self, n):
        if n == "zz": return 77
        raise AttributeError(n)
class Derived(Base):
    k = Base.k + 1
    __slots__ = ()
    def __init__(self, x, y):
        super().__init__(x)
        self.y = y
    def twice(self, v): return super().twice(v) + self.k
def t18():
    d = Derived(2, 3); d.x = 5
    b = Base.make(4)
    with b as q: q.x = 1; raise ValueError
    return d.x, d(1), d[3], len(d), d.twice(2), isinstance(d, Base), Derived.twice(d, 1), b._x, sorted([Base(3), Base(1)])[0]._x, list(d), 10 in d, d.zz, getattr(d, "nope", None), hasattr(d, "nope"), str(Base(1)), vars(d)["y"]
def t19():
    class C(Enum):
        R = 1
        G = 2
    @lru_cache(maxsize=None)
    def fib(n): return n if n < 2 else fib(n - 1) + fib(n - 2)
    def deco(f):
        @wraps(f)
        def g(*a, **k): return f(*a, **k) + 1
        return g
    @deco
    def h(x): return x
    return C.R.value, C.G.name, [c.value for c in C], C(2) is C.G, fib(10), h(3), h.__name__
def t20():
    s = {1, 2} | {3}
    s.add(5); s.discard(1)
    return sorted(s), s & {3, 9}, {1} <= s, frozenset([1]) == {1}, dict.fromkeys("ab", 0), {"a": 1}.get("b", 3), {"a": 1} | {"b": 2}, sorted({"a": 1, "c": 3}.items()), {"a": 1}.setdefault("z", []), {"a": 1}.pop("a"), list({"x": 1}.keys())
def t21():
    return np.hypot(3.0, 4.0), np.arctan2(1.0, -1.0), np.sign(A), np.abs(A), np.sqrt(np.square(A)), np.exp(A), np.log(np.abs(A)), np.maximum(A, 1.0), np.minimum.reduce(A), np.add.reduce(B, axis=0), np.multiply.outer(A, A), np.power(2.0, A), A ** 2, 2.0 ** A, np.floor(A), np.round(A), np.floor_divide(A, 2.0), A % 2, divmod(7, 2), 7 // 2, -7 // 2, 7 % -3, round(2.567, 2), round(2.5), abs(-3), pow(2, 5), np.tanh(0.5)
def t22():
    x = np.linspace(0, 1, 5); y = x ** 2
    return np.interp(0.3, x, y), np.trapezoid(y, x), np.gradient(y, x), np.polyfit(x, y, 2), np.polyval([1.0, 2.0], x), np.searchsorted(x, 0.4), np.argsort(-x), np.sort(A), np.unique([3, 1, 3]), np.flip(x), np.roll(x, 1), np.repeat(x[:2], 2), np.tile(x[:2], 2), np.arange(3), np.arange(0.0, 1.0, 0.25), np.insert(x, 1, 9.0), np.append(x, 3.0), np.delete(x, 0), np.union1d([1.0, 2.0], [2.0, 3.0]), np.argwhere(x > 0.3), np.flatnonzero(x > 0.3), np.nonzero(x > 0.3)[0], np.count_nonzero(x > 0.3), np.any(x > 2), np.all(x < 2), np.isclose(x, 0.5), np.allclose(x, x), np.array_equal(x, x), np.select([x < 0.3, x < 0.6], [x, -x], 5.0), np.digitize(0.4, x), np.ptp(x), np.percentile is not None
def t23():
    z = np.zeros((2, 3)); z[0] = 1; z[:, 1] += [5, 6]; z[1, ::2] = (8, 9)
    for row in z: row *= 2
    for i, row in enumerate(z): row[0] = i
    q = np.empty_like(z); q[...] = z; q.fill(3.0)
    it = np.nditer(A) if False else None
    return z, q, z.T[0], np.vstack([z, z]), np.hstack((z, z)), np.c_[z[0], z[1]], np.r_[1.0, z[0], 2], np.column_stack((z[0], z[1])), np.stack([z[0], z[1]], axis=-1), np.concatenate([z, z], axis=1), np.split(z, 3, axis=1)[1], np.diag([1.0, 2.0]), np.eye(2), np.full((2,), 4.0), np.ones(2, dtype=int), np.ix_([0], [1])[0], np.meshgrid([1, 2], [3, 4])[0], np.array([[1, 2]]).squeeze(), np.expand_dims(A, 0).shape, np.broadcast_to(A, (2, 4))[1], np.atleast_2d(A).shape, np.swapaxes(z, 0, 1).shape, np.moveaxis(z, 0, 1).shape, np.triu(np.ones((2, 2)))
def t24():
    b = True and 0 or "x"
    c = 1 if A[0] > 0 else 2
    assert c == 1, "bad"
    del c
    global GG
    GG = 4
    x = 1 < A[1] < 3
    return b, GG, x, not x, A[0] is None, 3 in [1, 3], "a" not in "bc", None or 5, 1_000, 0x10, 1e3, ~3, 5 & 3, 5 | 3, 5 ^ 1, 1 << 3, -A[0], +A[1], ...  is Ellipsis
def t25():
    ns = SimpleNamespace(a=1, b=2.0)
    ns.c = ns.a + ns.b
    g = attrgetter("a", "c")(ns); h = itemgetter(1)([4, 5]); m = methodcaller("upper")("q")
    return g, h, m, operator.mul(2, 3), list(compress("abc", [1, 0, 1])), [k for k, _ in groupby("aabb")], list(zip(*[[1, 2], [3, 4]])), list(map(operator.add, [1, 2], [3, 4])), list(filter(None, [0, 1])), copy.deepcopy({"a": [1]}), copy.copy([1])
def t26():
    class CP:
        def __init__(self): self.n = 0
        @cached_property
        def v(self):
            self.n += 1
            return self.n
    c = CP(); c.v; c.v
    return c.v, c.n
def t27():
    with np.errstate(divide="ignore", invalid="ignore"):
        x = A / 2
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        y = x + 1
    return x, y, math.radians(180.0), math.degrees(math.pi), math.isclose(1.0, 1.0 + 1e-12), math.fsum([0.5, 0.5]), math.prod([2, 3]), math.floor(2.5), math.ceil(2.1), math.copysign(2, -1), math.atan2(1, 1), math.exp(1), math.log(2.0), math.log10(100), math.fabs(-2), math.sqrt(2), math.isnan(2.0), math.tau, math.inf > 3, math.trunc(2.7), math.fmod(5, 3)
def t28():
    res = []
    stack = [(0, [1, [2, 3]])]
    while stack:
        d, v = stack.pop()
        if isinstance(v, list): stack.extend((d + 1, w) for w in v)
        else: res.append((d, v))
    i = iter([1, 2, 3])
    first = next(i); rest = list(i)
    l = [5, 3, 1]; l.sort(); l.insert(0, 9); l.remove(3); l2 = l[:]; l2.reverse(); l.extend((7,)); l += [8]
    return res, first, rest, l, l2, l.index(9), l.count(7), l.pop(), l[-1], [0] * 3, [[0] * 2 for _ in range(2)], list(range(5, 0, -2)), list(enumerate("ab", 1)), len(range(4)), 3 in range(4), tuple(x for x in (1, 2)), [(i, j) for i in range(3) for j in range(i) if i + j > 1]
def t29():
    def f(a, /, b, *, c=1): return a + b + c
    def kw(**k): return sorted(k)
    return f(1, b=2, c=3), kw(x=1, **{"y": 2}), (lambda: (yield))  is None, f.__name__, callable(f), type(3).__name__, type(A).__name__, isinstance(A, np.ndarray), isinstance(3, (int, float)), isinstance(3.0, float), isinstance("a", str), int("3"), float("2.5"), str(2), bool([]), list("ab"), tuple([1]), complex is not None, np.float64(3.0), int(3.9), np.isscalar(3.0), np.size(A), np.shape(B), np.ndim(B), issubclass(Derived, Base)
def t30():
    a = b = np.zeros(2); a[0] = 1
    v = A.view(); w = A[:2]; x = A + 0; w2 = w.copy()
    return b, np.shares_memory(A, w), np.shares_memory(A, x), w is w, A.base is None, A.flat[1], A.item(0), np.asarray(A) is A, np.array(A) is A, np.array(A, copy=True), A.dtype == float, A.any(), (A > 0).all(), (A > 0).sum(), ~(A > 0), (A > 0) & (A < 2), (A > 0) | (A < -2), np.logical_and(A > 0, A < 2), A.clip(0, 1), A.cumsum(), A.round(), A.std(), A.var(), A.dot(A), A.repeat(2), A.take([0, 2]), A.nonzero()[0], A.searchsorted(0.0) is not None, A.conj(), A.real, A.ptp() if hasattr(A, "ptp") else np.ptp(A)
def t31():
    l = [3.5, 1.5, 2.5]; l.sort(key=lambda x: -x); m = [(2, 1.0), (1, 2.0)]; m.sort(); n = [2.5, A[0], 0.25]; n.sort(reverse=True)
    return l, m, n, sorted([(1.5, 2), (0.5, 3)], key=lambda t: t[0])
def t32():
    d = {165: -0.4, 170: 1, -1.5: "x"}; t = {}
    for a in np.linspace(160.0, 180.0, 5): t[a] = d.get(a, 0)
    s = {1, 2.0, 3.5}
    return t, A[0] in d, np.float64(170.0) in d, -3 / 2 in d, 2 in s, 3.5 in s, {1: "a", 1.0: "b"}, [170.0, 1.0].index(1), (0.5, 2.5).count(2.5)
def t33():
    return [np.add.outer([1.0, 2.0], [3.0, 4.0]), np.einsum("i,i->", A, A), np.einsum("ij,j->i", np.outer(A, A), A), np.tensordot(A, A, axes=1), np.fromiter((x * x for x in A), dtype=float), np.piecewise(A, [A < 0, A >= 0], [-1.0, 1.0]), np.select([A < 0, A > 1], [A, A * 2], default=7.0), np.choose([0, 1], [[1.0, 2.0], [3.0, 4.0]]), np.digitize([0.5, 2.5], [0.0, 1.0, 2.0]), np.searchsorted([1.0, 2.0, 3.0], [0.5, 2.0, 2.5], side="right")]
def t34():
    X = np.arange(12.0).reshape(3, 4)
    Y = X.copy(); Y[Y > 5] = -1; Z = X[np.ix_([0, 2], [1, 3])]; X2 = X.copy(); X2[[0, 2], 1] += 10; X2[..., 0] = 9; X2[1:, -1:] *= 2
    return Y, Z, X2, X[::-1, ::2], X[:, None, 1], X.T[1], X[X % 2 == 0], X.ravel()[::5], X.flatten().sum(), X.mean(axis=0), X.sum(1, keepdims=True), X.max(axis=-1), X.argmax(axis=1), X.cumsum(axis=1), np.diff(X, axis=0), np.diff(A, n=2), np.tile(A, 2), np.tile(A, (2, 1)), np.roll(X, 1, axis=1), np.flip(X, 0), np.fliplr(X), np.pad(A, 1, mode="edge"), np.pad(A, (1, 0), "constant"), np.swapaxes(X, 0, 1), np.moveaxis(X, 0, -1)
def t35():
    X = np.arange(6.0).reshape(2, 3)
    return [np.insert(A, 1, 9.0), np.delete(A, 0), np.append(A, [1.0, 2.0]), np.hstack([A, A]), np.vstack([A, A]), np.column_stack([A, A]), np.stack([A, A], axis=1), np.split(np.arange(6.0), 3), np.array_split(np.arange(5.0), 2), np.meshgrid([1.0, 2.0], [3.0, 4.0, 5.0]), np.polyval([1.0, 2.0, 3.0], 2.0), np.poly1d([1.0, 2.0])(3.0), np.linalg.norm(A), np.linalg.solve([[2.0, 1.0], [1.0, 3.0]], [1.0, 2.0]), np.linalg.det([[2.0, 1.0], [1.0, 3.0]]), np.linalg.inv([[2.0, 0.0], [0.0, 4.0]]), np.inner(A, A), np.vdot(A, A), np.cross([1.0, 2.0, 3.0], [4.0, 5.0, 6.0]), np.concatenate((X, X), axis=1), np.concatenate([X, X], 0), np.block([[X], [X]]), np.c_[A, A], np.r_[A, 1.0, 2.0], np.atleast_2d(A), np.squeeze(X[:1]), np.expand_dims(A, 1), np.dstack([A, A])]
def t36():
    return [np.hypot(3.0, 4.0), np.arctan2(1.0, 2.0), np.mod(-1.0, 3.0), np.fmod(-1.0, 3.0), np.divmod(7, 3), divmod(-7, 3), np.sign(A), np.isfinite(A), np.nan_to_num(A), np.allclose(A, A + 1e-12), np.array_equal(A, A.copy()), np.flatnonzero(A > 0), np.argwhere(A > 0), np.count_nonzero(A > 0), np.average([1.0, 2.0], weights=[3.0, 1.0]), np.median([3.0, 1.0, 2.0]), np.gradient([1.0, 4.0, 9.0]), np.interp([0.0, 5.0], [1.0, 2.0], [3.0, 4.0], left=-1.0, right=-2.0), np.apply_along_axis(lambda v: v.sum(), 0, np.outer(A, A)), np.add.reduce(A), np.maximum.reduce(A), np.add.accumulate(A), np.multiply.reduce(A), np.maximum.accumulate([1.0, 3.0, 2.0]), np.union1d([1.0, 2.0], [2.0, 3.0]), np.intersect1d([1.0, 2.0], [2.0, 3.0]), np.setdiff1d([1.0, 2.0], [2.0]), np.isin([1.0, 5.0], [5.0]), np.unique([3.0, 1.0, 3.0], return_index=True), np.unique([3.0, 1.0, 3.0], return_inverse=True), np.unique([3.0, 1.0, 3.0], return_counts=True), np.lexsort(([1, 0, 1], [0, 1, 0])), np.argsort([3.0, 1.0, 2.0])[::-1], np.trapezoid([1.0, 2.0, 4.0], [0.0, 1.0, 3.0]) if hasattr(np, "trapezoid") else np.trapz([1.0, 2.0, 4.0], [0.0, 1.0, 3.0])]
def t37():
    f = np.vectorize(lambda x, y: x * y + 1)
    g = np.frompyfunc(lambda x: x + 1, 1, 1)
    out = np.empty(3); np.add([1.0, 2.0, 3.0], 1.0, out=out)
    m = np.zeros((2, 2)); np.fill_diagonal(m, 5.0); m.flat[1] = 3
    it = [(i, float(v)) for i, v in np.ndenumerate(m)]
    b = np.broadcast_to([1.0, 2.0], (2, 2)); p, q = np.broadcast_arrays([1.0, 2.0], [[1.0], [2.0]])
    return f([1.0, 2.0], 3.0), f(2.0, 3.0), out, m, it, b, p, q, np.full_like(A, 2.0), np.ones_like(A), np.eye(2), np.identity(2), np.diag([1.0, 2.0]), np.diagonal(m), np.trace(m), np.tril(m), np.triu(m), list(np.ndindex(2, 2)), np.repeat([1.0, 2.0], [2, 1]), np.logspace(0, 2, 3), np.geomspace(1.0, 4.0, 3), np.linspace(0.0, 1.0, 3, endpoint=False), np.linspace(0, 1, 5, retstep=True)
def t38():
    x = np.zeros(4); x += A; x[1:] -= 0.5; x **= 2; y = x.tolist(); z = x.astype(int); w = x.reshape(-1, 1)
    k = np.array([[1, 2], [3, 4]]); k2 = k @ k; k3 = k.T @ [1, 2]
    a, *b = x; (c, d), e = (1, 2), 3
    return x, y, z, w.shape, k2, k3, a, b, c + d + e, x.min(), x.argmin(), np.abs(-x), abs(-x), -x, +x, x // 2, x % 2, 2 ** x, x == x, (x > 1).tolist(), np.where(x > 1, x, -x), np.where(x > 1)[0], x.size, x.ndim, x.shape[0], len(x), sum(x), max(x), min(x), sorted(x), list(reversed(x)), any(v > 1 for v in x), all(v > -1 for v in x), [i for i, v in enumerate(x) if v > 1], dict(zip("abc", x)), list(map(lambda v: v + 1, x)), list(filter(lambda v: v > 1, x))
def t39():
    class V:
        __slots__ = ("a", "b")
        def __init__(self, a, b): self.a, self.b = a, b
        def __iter__(self): yield self.a; yield self.b
        def __len__(self): return 2
        def __getitem__(self, i): return (self.a, self.b)[i]
        def __contains__(self, x): return x in (self.a, self.b)
        def __call__(self, k=1): return self.a * k
        def __matmul__(self, o): return self.a * o.a + self.b * o.b
        def __neg__(self): return V(-self.a, -self.b)
        def __bool__(self): return self.a != 0
        def __format__(self, s): return "V"
        def __repr__(self): return "<V>"
        @property
        def n(self): return self.a ** 2 + self.b ** 2
        @classmethod
        def of(cls, x): return cls(x, x)
        @staticmethod
        def k(): return 3
    v = V(1.0, 2.0); p, q = v
    return p, q, len(v), v[1], 2.0 in v, v(3), v @ v, list(-v), bool(v), bool(V(0, 1)), f"{v}", repr(v), v.n, list(V.of(2)), V.k(), [*v], dict(a=1, **{"b": 2}), getattr(v, "zz", 5), hasattr(v, "a"), isinstance(v, V)
def t40():
    from collections import namedtuple, defaultdict, OrderedDict, Counter, deque, ChainMap
    from itertools import product, chain, accumulate, islice, zip_longest, starmap, takewhile, groupby, count, repeat, combinations, cycle, pairwise, tee
    from functools import partial, reduce, lru_cache
    from operator import itemgetter, attrgetter, mul
    P = namedtuple("P", "x y"); p = P(1.0, y=2.0); dd = defaultdict(list); dd["a"].append(1); od = OrderedDict(b=1); od["a"] = 2; dq = deque([1, 2], maxlen=2); dq.append(3)
    return p.x, p._replace(x=5.0).x, p._asdict(), dict(dd), list(od), Counter("aab")["a"], list(dq), list(product([1, 2], "ab")), list(chain([1], [2])), list(chain.from_iterable([[1], [2]])), list(accumulate([1, 2, 3])), list(islice(count(), 2, 5)), list(zip_longest([1], [2, 3], fillvalue=0)), list(starmap(mul, [(2, 3)])), list(takewhile(lambda x: x < 2, [1, 2, 1])), [(k, list(g)) for k, g in groupby([1, 1, 2])], list(combinations([1, 2, 3], 2)), list(pairwise([1, 2, 3])), partial(mul, 3)(4), reduce(mul, [1, 2, 3]), itemgetter(1)([5, 6]), attrgetter("x")(p), list(repeat(1, 2)), list(islice(cycle([1, 2]), 3))
def t41():
    from numpy.polynomial import Polynomial
    from numpy.polynomial import polynomial as P
    x = np.array([0.0, 1.0, 2.0, 4.0]); y = np.array([1.0, 2.5, 3.5, 9.0])
    c = Polynomial.fit(x, y, 1).convert().coef
    return c, P.polyfit(x, y, 1), P.polyval(2.0, [1.0, 3.0]), Polynomial([1.0, 2.0])(3.0), np.polyfit(x, y, 1), np.poly1d([2.0, -3.0]).r, np.linalg.lstsq(np.vstack([x, np.ones(4)]).T, y, rcond=None)[0], np.cov(x, y)[0, 1] / np.var(x, ddof=1), np.var(x, ddof=1), np.std(x, ddof=1), np.corrcoef(x, y)[0, 1]
def t42():
    M = np.zeros((3, 3)); M[np.diag_indices(3)] = A[:3]; M[np.diag_indices_from(M)] += 1.0
    x = A[:, np.newaxis] * np.ones(2)[None, :]; y = x.transpose(); z = x.transpose(1, 0)
    t = np.take(A, [0, 2]); t2 = np.take(B, 1, axis=1); c = A.copy(); np.put(c, [0, 1], [9.0, 8.0])
    return M, x, y, z, t, t2, c, np.heaviside(A, 0.5), np.convolve(A, [1.0, 2.0]), np.kron([1.0, 2.0], [1.0, 3.0]), A.take([1]), np.convolve(A, [0.5, 0.5], mode="valid"), np.convolve(A, [1.0, 1.0, 1.0], mode="same")
def t43():
    import logging
    log = logging.getLogger(__name__); log.debug("x %s", 3); log.warning("y")
    @dataclass
    class D:
        a: float
        b: float = 2.0
        c: list = field(default_factory=list)
        d: float = field(init=False, default=0.0)
        def __post_init__(self):
            self.d = self.a * self.b
    @dataclass(frozen=True, order=True)
    class F:
        x: float
        y: float = 1.0
    import dataclasses
    d = D(3.0); d.c.append(1)
    return d.d, d.c, D(1.0, b=4.0).d, D(1.0).c, F(1.0) == F(1.0, 1.0), F(1.0) < F(2.0), dataclasses.asdict(d), dataclasses.replace(F(1.0), y=5.0).y, [f.name for f in dataclasses.fields(D)], dataclasses.astuple(F(2.0))
def t44():
    def deco(n):
        def outer(f):
            @functools.wraps(f)
            def inner(*a, **k):
                return f(*a, **k) * n
            return inner
        return outer
    @deco(3)
    def g(x, /, y=1, *, z=2): return x + y + z
    class C:
        @deco(2)
        def m(self, x): return x
    r = [x for x in zip([1, 2], [3, 4], strict=True)]
    try:
        list(zip([1], [1, 2], strict=True)); e = 0
    except ValueError: e = 1
    import bisect, heapq
    h = [3, 1, 2]; heapq.heapify(h)
    return g(1), g(1, 2, z=5), g.__name__, C().m(4), r, e, bisect.bisect_left([1, 2, 3], 2), bisect.bisect([1, 2, 3], 2), heapq.heappop(h), heapq.nsmallest(2, [3, 1, 2])
def t45():
    import io, textwrap, string
    s = io.StringIO(); s.write("a b\n"); print("c", 3.5, file=s); print("x", "y", sep="-", end="!\n", file=s)
    f = io.StringIO("1 2\n3 4\n"); rows = [list(map(float, l.split())) for l in f]
    return s.getvalue(), rows, textwrap.dedent("""
        a
        b
    """), string.Template("$a ${b}").substitute(a=1, b=2), "{:>8.3f}|{:<6}|{:^7}|{:+.2e}".format(1.5, "a", "b", 12345.678), "%5.2f %-5s| %05d %e %g" % (1.234, "a", 42, 12345.6789, 0.0001), f"{3.14159:.3f} {10:>5d} {'a':>3}", "a,b,,c".split(","), " a  b ".split(), "abc".partition("b"), "a.b.c".rsplit(".", 1), "xax".strip("x"), "Abc".swapcase(), "a\tb".expandtabs(4), "abc".translate(str.maketrans("a", "z")), "%s" % [1.5], "{0!r} {1[0]} {k}".format("q", [7], k=3)
def t46():
    x = 5
    match x:
        case 1 | 2: r = "a"
        case int(n) if n > 4: r = "b%d" % n
        case _: r = "c"
    out = [r]
    for v in ([1, 2, 3], {"k": 1, "z": 2}, (1,), "s", None):
        match v:
            case [a, *rest]: out.append((a, rest))
            case {"k": k, **others}: out.append((k, others))
            case str(): out.append("str")
            case None: out.append("none")
    while (y := x - 1) > 2: x = y
    else: out.append("else")
    for i in range(3):
        if i == 5: break
    else: out.append("nobreak")
    (a, b), *c = [(1, 2), 3, 4]; *d, e = "xyz"
    def gen():
        z = yield 1
        out.append(z)
        yield from (2, 3)
        return 4
    g = gen(); next(g); g.send(7); rest = list(g)
    del out[0]
    return out, x, y, a, b, c, d, e, rest, [i for i in range(3) for j in range(i)], {k: v for k, v in zip("ab", (1, 2))}, {i % 2 for i in range(4)}, sum(i * i for i in range(4)), max([3, 1], default=0), min((), default=9), sorted([3, 1, 2], key=lambda q: -q), any([]), all([]), list(map(lambda p, q: p + q, [1], [2])), list(filter(None, [0, 1])), 7 // 2, -7 // 2, -7 % 3, divmod(7, 2), 2 ** -1, round(2.5), round(2.675, 2), int("5"), float("1e3"), abs(-3), bool([]), 1 if [] else 2, 0 or 3, 1 and 2, not 1, 3 < 4 < 5, 1 is not None
def t47():
    r = np.linspace(0.0, 1.0, 5); w = np.gradient(A); m = np.ma.masked_array if False else 1
    a2 = np.asarray(B); out = np.empty_like(B); np.multiply(B, 2.0, out=out); np.add(out, 1.0, out=out)
    i, j = np.nonzero(B > 2.0); k = np.flatnonzero(A > 0); s = np.argwhere(A > 0)
    u, inv, cnt = np.unique([3.0, 1.0, 3.0], return_inverse=True, return_counts=True)
    sw = np.select([A < 0, A > 2], [-1.0, 1.0], default=0.0); pw = np.piecewise(A, [A < 0, A >= 0], [lambda x: -x, lambda x: x * 2])
    return r, w, out, i, j, k, s, u, inv, cnt, sw, pw, np.where(A > 0)[0], np.digitize([0.5, 2.0], [0.0, 1.0, 3.0]), np.searchsorted([1.0, 2.0, 3.0], [2.0, 2.5], side="right"), np.triu(np.ones((2, 2))), np.trace(B[:, :2]), np.ptp(A), np.prod(A), np.cumprod(A), np.nanmax(A), np.nansum([1.0, np.nan]), np.isin([1, 2], [2]), np.flip(A), np.rot90(B), np.moveaxis(B[None], 0, -1).shape, np.ravel(B, order="F"), B.reshape(-1, order="F"), B.swapaxes(0, 1), np.stack([A, A], axis=-1), np.dstack([A, A]).shape, np.hsplit(B, 3)[0], np.split(A, 2), np.array_split(A, 3), np.atleast_2d(A).shape, np.vander([1.0, 2.0], 3), np.logspace(0, 2, 3), np.around(2.567, 1), np.fix(-2.5), np.rint(2.5), np.trunc(-2.7), np.mod(-7.0, 3.0), np.fmod(-7.0, 3.0), np.remainder(7.0, 3.0), np.copysign(2.0, -1.0), np.cbrt(8.0), np.square(3.0), np.reciprocal(4.0), np.log10(100.0), np.log2(8.0), np.log1p(0.0), np.expm1(0.0), np.sinc(0.0), np.arctan2(1.0, 1.0), np.deg2rad(180.0), np.degrees(np.pi), np.unwrap([0.0, 6.5])
def t48():
    import tempfile, os, shutil
    from pathlib import Path
    p = Path("dir") / "file.txt"
    q = os.path.join("a", "b.txt"); root, ext = os.path.splitext(q)
    return str(p), p.name, p.stem, p.suffix, str(p.parent), q, root, ext, os.path.basename(q), os.path.dirname(q), str(p.with_suffix(".dat")), os.path.split("a/b")
def x49():
    class Meta(type):
        def __new__(m, n, b, d):
            d["tag"] = n.lower(); return super().__new__(m, n, b, d)
    class Base(metaclass=Meta):
        reg = []
        def __init_subclass__(cls, **k): Base.reg.append(cls.__name__)
        def hi(self): return "base"
    class Mixin:
        def hi(self): return "mix" + super().hi()
    class K(Mixin, Base):
        def hi(self): return "k" + super().hi()
    class Desc:
        def __set_name__(self, o, n): self.n = "_" + n
        def __get__(self, o, t=None): return getattr(o, self.n, 1.0)
        def __set__(self, o, v): o.__dict__[self.n] = v * 2
    class U:
        d = Desc()
    u = U(); a0 = u.d; u.d = 3
    return K().hi(), K.tag, Base.reg, a0, u.d, [c.__name__ for c in K.__mro__[:3]], issubclass(K, Base), type(u).__name__
def t50():
    log = []
    def g(n):
        try:
            i = 0
            while True:
                log.append(("out", i)); yield i; i += 1
        finally:
            log.append("closed")
    a = next(x for x in g(3) if x > 2)
    h = g(1); next(h); h.close()
    st = {"v": 1}
    def r():
        while st["v"] < 5: yield st["v"]
    got = []
    for v in r(): got.append(v); st["v"] += 2
    def bad():
        yield 1
        raise ValueError("x")
    try:
        for v in bad(): got.append(v)
    except ValueError: got.append("err")
    def inner():
        x = yield 1
        return x * 2
    def outer():
        r = yield from inner2()
        got.append(r)
    def inner2():
        try:
            yield 5
        except KeyError: yield 6
        return 7
    o = outer(); got.append(next(o)); got.append(o.throw(KeyError("k"))) if False else None; got.extend(o)
    gg = inner(); next(gg)
    try: gg.send(4)
    except StopIteration as e: got.append(e.value)
    z = any(got.append(q) or q > 1 for q in (1, 2, 3))
    return a, log, got, z, list(itertools.islice((k * k for k in itertools.count()), 3)), dict((k, v) for k, v in zip("ab", g(0))), sum(x for x in (y for y in range(4)) if x)

def t51():
    out = []
    for v in ([0.0, np.array([1.0])], [np.array([1.0]), np.array([2.0])], [np.array([1.0, 2.0]), 3.0], [[1.0, 2.0], [3.0]]):
        try:
            out.append(np.array(v).shape)
        except ValueError:
            out.append("ragged")
    return out
