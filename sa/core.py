"""Value-numbering domain of the analyser.

Every value computed by the analysed source is a node of a value graph.  A node carries a *value
number*: its image under a ring homomorphism into the finite field GF(p)[i] (p ~ 2^140) in which the
inputs of the analysed routine are uninterpreted symbols (random field elements), sin/cos are
coordinates on the unit circle of GF(p)[i], exp/pow are characters, square roots are algebraic, and
every other function is an uninterpreted symbol of its arguments' value numbers.  Two nodes with the
same value number denote the same rational/trigonometric expression of the inputs (up to a collision
probability < deg/2^140); this is global value numbering by random interpretation (Gulwani & Necula).
No source program is executed: the domain only ever sees the abstract syntax tree.

Guards whose truth is not implied by the constants or the current path assumptions split the analysis
(trace partitioning); `run_paths` enumerates the partition."""
import hashlib
import math
import sys
from fractions import Fraction

sys.setrecursionlimit(100000)

P = 1393796574908163946345891663893185562671999   # prime, = 7 mod 8, = -1 mod 2*NA and mod 3..47
NA = 100800            # denominators admitted in angle coefficients
NE = 720               # denominators admitted in exponents


class Retry(Exception):
    """square root not available in GF(p)[i] under this valuation: choose another one"""


class Unsupported(Exception):
    """construct outside the analysed subset"""


class PathLimit(Exception):
    pass


# ------------------------------------------------------------------ field GF(p)[i]
def fadd(a, b):
    if type(a) is int and type(b) is int:
        return (a + b) % P
    ar, ai = a if type(a) is tuple else (a, 0)
    br, bi = b if type(b) is tuple else (b, 0)
    return fnorm((ar + br) % P, (ai + bi) % P)


def fnorm(r, i):
    return r if i == 0 else (r, i)


def fneg(a):
    if type(a) is int:
        return (-a) % P
    return ((-a[0]) % P, (-a[1]) % P)


def fsub(a, b):
    if type(a) is int and type(b) is int:
        return (a - b) % P
    return fadd(a, fneg(b))


def fmul(a, b):
    if type(a) is int and type(b) is int:
        return a * b % P
    ar, ai = a if type(a) is tuple else (a, 0)
    br, bi = b if type(b) is tuple else (b, 0)
    return fnorm((ar * br - ai * bi) % P, (ar * bi + ai * br) % P)


def finv(a):
    if type(a) is int:
        return pow(a, -1, P)
    n = pow(a[0] * a[0] + a[1] * a[1], -1, P)
    return fnorm(a[0] * n % P, (-a[1]) * n % P)


def fdiv(a, b):
    return fmul(a, finv(b))


def fpow(a, e):
    if e < 0:
        a = finv(a)
        e = -e
    if type(a) is int:
        return pow(a, e, P)
    r = 1
    while e:
        if e & 1:
            r = fmul(r, a)
        a = fmul(a, a)
        e >>= 1
    return r


def chi(a):
    """quadratic character used as a formal sign; +1/-1 on GF(p); extended through the norm elsewhere"""
    if type(a) is tuple:
        a = a[0] if a[0] else a[1]
    if a == 0:
        return 0
    return 1 if pow(a, (P - 1) // 2, P) == 1 else -1


def fsqrt(a):
    if a == 0:
        return 0
    if type(a) is int:
        if chi(a) == 1:
            s = pow(a, (P + 1) // 4, P)
            return s if chi(s) == 1 else P - s
        return (0, fsqrt(P - a))
    n = (a[0] * a[0] + a[1] * a[1]) % P
    if chi(n) != 1:
        raise Retry()
    sn = fsqrt(n)
    half = (P + 1) // 2
    t = (a[0] + sn) * half % P
    if chi(t) != 1:
        t = (a[0] - sn) * half % P
        if chi(t) != 1:
            raise Retry()
    x = fsqrt(t)
    y = a[1] * half % P * pow(x, -1, P) % P
    return fnorm(x, y)


def frac(q):
    return q.numerator * pow(q.denominator, -1, P) % P


def ratrec(a, bound=1 << 34):
    """rational reconstruction; None unless |num|,den <= bound (chance hit < 2^-70)"""
    if type(a) is tuple:
        return None
    r0, r1 = P, a
    t0, t1 = 0, 1
    while r1 > bound:
        q = r0 // r1
        r0, r1 = r1, r0 - q * r1
        t0, t1 = t1, t0 - q * t1
    if t1 == 0 or abs(t1) > bound:
        return None
    return Fraction(r1, t1)


# root of unity of order 2*NA on the unit circle, oriented so that exp(i*pi/2) = +i
def _omega():
    g = 2
    k = (P + 1) // (2 * NA)
    fac = [2, 3, 5, 7]
    while True:
        # random norm-1 element: (g+i)/(g-i)
        z = fdiv((g, 1), (g, P - 1))
        w = fpow(z, k)
        if all(fpow(w, 2 * NA // q) != 1 for q in fac):
            if fpow(w, NA // 2) == (0, P - 1):
                w = finv(w)
            if fpow(w, NA // 2) == (0, 1):
                return w
        g += 1


OMEGA = _omega()


NOTNUM = None                             # which undetermined values are not numbers (set by a check)


def notnum(n):
    """x != x"""
    if n.v is None:
        return n.f is None
    return bool(NOTNUM and NOTNUM(n))


# ------------------------------------------------------------------ context
class Ctx:
    def __init__(self, seed=1, choices=(), policy=None, abs_mode="fork", eq_policy=None, max_forks=64):
        self.seed = seed
        self.choices = list(choices)      # replayed decisions
        self.taken = []                   # [(key description, bool, free?)]
        self.assump = []                  # [(field value of d, sign)]
        self.below = {}                   # value -> values decided to be smaller
        self.policy = policy
        self.abs_mode = abs_mode
        self.eq_policy = eq_policy
        self.bases = []                   # canonical angle bases (field values)
        self.dual = False                 # some variables are zero (see sym)
        self.inside = {}                  # end values of tables: 1 upper, -1 lower; other values lie between
        self.site = []                    # interpreter call stack of (file, line)
        self.uniform = {}
        self.uniform_on = False
        self.log = []
        self.max_forks = max_forks
        self.nodes = 0
        self.events = []
        self.effects = None
        self.cache = {}
        self.approx = {}
        self.roots = {}                   # square -> the root known to be positive
        self.homog = False                # dimension analysis only: angles of proportional vectors are identified
        self.surface = False              # guards met exactly on their boundary go both ways
        self.guards = []                  # every order guard decided, in order
        self.bases_pos = set()            # bases of real powers: x**e with a symbolic exponent needs x > 0

    def rnd(self, *key):
        h = hashlib.blake2b(repr((self.seed,) + key).encode(), digest_size=32).digest()
        return int.from_bytes(h, "big") % P

    def pos(self, *key):
        v = self.rnd(*key)
        return v if chi(v) == 1 else P - v

    # -------- guards
    def where(self):
        return self.site[-1][:2] if self.site else ("?", 0)

    def ask(self, key, default=None):
        """undecided boolean atom, not an order guard (e.g. "does this call raise")"""
        for k, b in self.assump:
            if k == ("atom", key):
                return b
        b = self._choose("atom:" + str(key), ("atom",) + (key,))
        self.assump.append((("atom", key), b))
        return b

    def _choose(self, desc, key, tag=None):
        ukey = None
        if self.uniform_on:
            ukey = tuple(self.site) + (tag,)
            if ukey in self.uniform:
                return self.uniform[ukey]
        if self.policy is not None:
            r = self.policy(desc, key, self)
            if r is not None:
                if ukey is not None:
                    self.uniform[ukey] = r
                self.taken.append((desc, r, False, self.where()))
                return r
        n = sum(1 for t in self.taken if t[2])
        if n < len(self.choices):
            b = self.choices[n]
        else:
            if n >= self.max_forks:
                raise PathLimit("more than %d undecided guards" % self.max_forks)
            b = True
            if key[0] == "sign":
                x = approx(key[1])
                b = x is None or x > 0
        self.taken.append((desc, b, True, self.where()))
        if ukey is not None:
            self.uniform[ukey] = b
        return b

    def implied(self, d):
        s = sign_of(d)
        if s:
            return s
        v = d.v
        for w in self.bases_pos:
            r = ratrec(fdiv(v, w), 1 << 24)
            if r is not None and r != 0:
                return 1 if r > 0 else -1
        for w, sg in self.assump:
            if type(w) is tuple and w and w[0] == "atom":
                continue
            r = ratrec(fdiv(v, w), 1 << 24) if w != 0 else None
            if r is not None and r != 0:
                return sg if r > 0 else -sg
            # same quantity against another constant:  d = +-w + c
            c = ratrec(fsub(v, w))
            if c is not None and c * sg > 0:
                return sg
            c = ratrec(fadd(v, w))
            if c is not None and c * sg < 0:
                return -sg
        return 0

    def reach(self, hi, lo):
        """has hi > lo been decided, directly or through a chain of decisions?"""
        seen, todo = {hi}, [hi]
        while todo:
            for w in self.below.get(todo.pop(), ()):
                if w == lo:
                    return True
                if w not in seen:
                    seen.add(w)
                    todo.append(w)
        return False

    def greater(self, a, b, tag=None):
        """decide a > b, consistently with the order of the values decided so far"""
        if isinf(a) or isinf(b):
            return a.f != b.f and (a.f == math.inf or b.f == -math.inf) and (isinf(a) or a.v is not None) and (isinf(b) or b.v is not None)
        plain = a.v is None or b.v is None or (a.f is not None and b.f is not None) or a.v == b.v
        if self.inside and not plain:
            if b.f is not None and b.v in self.inside:
                return self.inside[b.v] < 0
            if a.f is not None and a.v in self.inside:
                return self.inside[a.v] > 0
        if not plain:
            for x, y, s in ((a, b, True), (b, a, False)):
                if x.op == "root" and y.f is not None and x.aux["a"].f is not None and x.aux["b"].f is not None:
                    # a root lies in the interval searched
                    lo, hi = sorted((x.aux["a"].f, x.aux["b"].f))
                    if y.f <= lo or y.f >= hi:
                        return s == (y.f <= lo)
        d = sub(a, b)
        if plain or d.f is not None:
            return self.positive(d, tag)
        if self.below:
            if self.reach(a.v, b.v):
                return True
            if self.reach(b.v, a.v):
                return False
        r = self.positive(d, tag)
        hi, lo = (a.v, b.v) if r else (b.v, a.v)
        self.below.setdefault(hi, set()).add(lo)
        return r

    def positive(self, d, tag=None):
        """decide d > 0 (equality excluded: measure-zero boundary)"""
        if d.v is None:
            return False
        if d.f is not None:
            if d.v == 0:
                return False
            return d.f > 0
        if d.v == 0:
            return self.surface and self.ask(("boundary",) + tuple(self.where()))
        s = self.implied(d)
        if not s:
            c = ratrec(d.v)
            if c is not None:
                return c > 0
        if not s:
            b = self._choose("sign" if tag is None else "sign(%s)" % tag, ("sign", d), tag)
            s = 1 if b else -1
            self.assump.append((d.v, s))
            self.guards.append((d, self.where()))
        return s > 0

    def iszero(self, d):
        if d.v is None:
            return False
        if d.v == 0:
            return True
        if d.f is not None:
            return False
        if self.implied(d):
            return False
        if self.eq_policy is not None:
            r = self.eq_policy(d, self)
            if r is not None:
                return r
        return False


CTX = Ctx()


def set_ctx(c):
    global CTX
    CTX = c
    _consts.clear()
    return c


def ctx():
    return CTX


# ------------------------------------------------------------------ nodes
class Node:
    __slots__ = ("op", "args", "v", "q", "f", "pm", "aux", "_lin", "_sg")
    __array_priority__ = -1.0

    def __init__(self, op, args, v, q=None, f=None, pm=None, aux=None):
        self.op = op
        self.args = args
        self.v = v
        self.q = q
        self.f = f
        self.pm = pm
        self.aux = aux
        self._lin = None
        self._sg = None
        CTX.nodes += 1

    # arithmetic operators used by numpy object arrays
    def __add__(self, o):
        return add(self, lift(o)) if _ok(o) else NotImplemented

    def __radd__(self, o):
        return add(lift(o), self) if _ok(o) else NotImplemented

    def __sub__(self, o):
        return sub(self, lift(o)) if _ok(o) else NotImplemented

    def __rsub__(self, o):
        return sub(lift(o), self) if _ok(o) else NotImplemented

    def __mul__(self, o):
        return mul(self, lift(o)) if _ok(o) else NotImplemented

    def __rmul__(self, o):
        return mul(lift(o), self) if _ok(o) else NotImplemented

    def __truediv__(self, o):
        return div(self, lift(o)) if _ok(o) else NotImplemented

    def __rtruediv__(self, o):
        return div(lift(o), self) if _ok(o) else NotImplemented

    def __pow__(self, o):
        return power(self, lift(o)) if _ok(o) else NotImplemented

    def __rpow__(self, o):
        return power(lift(o), self) if _ok(o) else NotImplemented

    def __neg__(self):
        return neg(self)

    def __pos__(self):
        return self

    def __abs__(self):
        return absv(self)

    def __floordiv__(self, o):
        return floorv(self / lift(o))

    def __rfloordiv__(self, o):
        return floorv(lift(o) / self)

    def __mod__(self, o):
        o = lift(o)
        return self - o * floorv(self / o)

    def __rmod__(self, o):
        return lift(o) % self

    def __lt__(self, o):
        return CTX.greater(lift(o), self)

    def __gt__(self, o):
        return CTX.greater(self, lift(o))

    def __le__(self, o):
        return le(self, lift(o))

    def __ge__(self, o):
        return le(lift(o), self)

    def __eq__(self, o):
        if not _ok(o):
            return False
        if o is self and (self.v is None or NOTNUM is not None):
            return not notnum(self)
        return CTX.iszero(sub(self, lift(o)))

    def __ne__(self, o):
        if not _ok(o):
            return True
        if o is self and (self.v is None or NOTNUM is not None):
            return notnum(self)
        return not CTX.iszero(sub(self, lift(o)))

    def __bool__(self):
        return not CTX.iszero(self)

    def __hash__(self):
        if self.v is None:
            return id(self)
        q = ratrec(self.v) if self.q is None else self.q
        if q is None or max(abs(q.numerator), q.denominator) > 1 << 34:
            return hash(self.v)
        return hash(q)  # as the equal int or Fraction

    def __float__(self):
        raise TypeError("symbolic value used as float")

    def __repr__(self):
        if self.q is not None:
            return "%s" % (self.q,)
        if self.f is not None:
            return "~%.6g" % self.f
        if self.v is None:
            return "UNDEF"
        return "<%s%s>" % (self.op, (":" + str(self.aux)) if self.op in ("sym", "func") else "")


def _ok(o):
    return isinstance(o, (Node, int, float, Fraction)) or type(o).__name__ in (
        "int64", "float64", "bool_", "int32", "bool")


_consts = {}


def const(q):
    q = Fraction(q)
    n = _consts.get(q)
    if n is None:
        try:
            f = float(q)
        except OverflowError:
            f = math.inf if q > 0 else -math.inf
        n = _consts[q] = Node("const", (), frac(q), q=q, f=f, pm=(q, 0))
    return n


def dec(x):
    """exact decimal value of a float literal"""
    return Fraction(repr(x)) if isinstance(x, float) else Fraction(x)


def lift(o):
    if isinstance(o, Node):
        return o
    if isinstance(o, (bool, int)):
        return const(int(o))
    if isinstance(o, Fraction):
        return const(o)
    if isinstance(o, float) or type(o).__name__ == "float64":
        o = float(o)
        if o != o or o in (math.inf, -math.inf):
            return special("nan" if o != o else ("inf" if o > 0 else "-inf"))
        if abs(o - math.pi) < 1e-15:
            return PI()
        return const(dec(o))
    if type(o).__name__ in ("int64", "int32", "bool_", "bool"):
        return const(int(o))
    raise Unsupported("cannot lift %r" % (type(o),))


def special(kind):
    n = Node("undef", (), None, aux=kind)
    if kind == "inf":
        n.f = math.inf
    elif kind == "-inf":
        n.f = -math.inf
    return n


def isinf(n):
    return n.op == "undef" and n.aux in ("inf", "-inf")


def undef(why):
    return Node("undef", (), None, aux=why)


def PI():
    n = _consts.get("pi")
    if n is None:
        n = _consts["pi"] = Node("pi", (), CTX.pos("pi"), f=math.pi, pm=(Fraction(1), 1))
    return n


def _zc(a):
    """constant zero (a zero with a derivative is kept as a node)"""
    return a.v == 0 and (a.q is not None or not CTX.dual)


def sym(name, positive=False, sign=None, zero=False):
    """an unknown number; zero: the number zero, kept as a variable for derivatives"""
    if zero:
        CTX.dual = True
        return Node("sym", (), 0, aux=name)
    if sign == 1:
        positive = True
    v = CTX.pos("sym", name) if positive else CTX.rnd("sym", name)
    n = Node("sym", (), v, aux=name)
    if positive:
        n._sg = 1
    elif sign == -1:
        n.v = (-CTX.pos("sym", name)) % P
        n._sg = -1
    return n


def leafv(v, what="deriv"):
    """opaque value (e.g. a derivative); may be compared but not differentiated"""
    if v is None:
        return undef(what)
    if v == 0:
        return const(0)
    return Node("leaf", (), v, aux=what)


def ident(n, tag="id"):
    m = Node("id", (n,), n.v, q=None, f=n.f, pm=None, aux=tag)
    return m


def _anyundef(*a):
    for x in a:
        if x.v is None:
            return True
    return False


def _ff(fn, *a):
    for x in a:
        if x.f is None:
            return None
    try:
        return fn(*[x.f for x in a])
    except (ValueError, OverflowError, ZeroDivisionError):
        return None


def mk(op, args, v, f=None, pm=None, aux=None):
    if v == 0 and not (CTX.dual and any(a.q is None for a in args)):
        return const(0)
    return Node(op, args, v, f=f, pm=pm, aux=aux)


def add(a, b):
    if _anyundef(a, b):
        return undef("add")
    if a.q is not None and b.q is not None:
        return const(a.q + b.q)
    if _zc(a):
        return b
    if _zc(b):
        return a
    pm = None
    if a.pm and b.pm and a.pm[1] == b.pm[1]:
        pm = (a.pm[0] + b.pm[0], a.pm[1])
    return mk("add", (a, b), fadd(a.v, b.v), _ff(lambda x, y: x + y, a, b), pm)


def sub(a, b):
    if _anyundef(a, b):
        return undef("sub")
    if a.q is not None and b.q is not None:
        return const(a.q - b.q)
    if _zc(b):
        return a
    pm = None
    if a.pm and b.pm and a.pm[1] == b.pm[1]:
        pm = (a.pm[0] - b.pm[0], a.pm[1])
    return mk("sub", (a, b), fsub(a.v, b.v), _ff(lambda x, y: x - y, a, b), pm)


def neg(a):
    if isinf(a):
        return special("inf" if a.aux == "-inf" else "-inf")
    if a.v is None:
        return undef("neg")
    if a.q is not None:
        return const(-a.q)
    pm = (-a.pm[0], a.pm[1]) if a.pm else None
    return mk("neg", (a,), fneg(a.v), _ff(lambda x: -x, a), pm)


def mul(a, b):
    if _anyundef(a, b):
        return undef("mul")
    if a.q is not None and b.q is not None:
        return const(a.q * b.q)
    if _zc(a) or _zc(b):
        return const(0)
    if a.q == 1:
        return b
    if b.q == 1:
        return a
    pm = (a.pm[0] * b.pm[0], a.pm[1] + b.pm[1]) if a.pm and b.pm else None
    v = fmul(a.v, b.v)
    if pm and pm[1] == 0:
        return const(pm[0])
    return mk("mul", (a, b), v, _ff(lambda x, y: x * y, a, b), pm)


def div(a, b):
    if _anyundef(a, b):
        return undef("div")
    if b.v == 0:
        return undef("division by zero")
    if a.q is not None and b.q is not None:
        return const(a.q / b.q)
    if _zc(a):
        return const(0)
    if b.q == 1:
        return a
    pm = (a.pm[0] / b.pm[0], a.pm[1] - b.pm[1]) if a.pm and b.pm else None
    if pm and pm[1] == 0:
        return const(pm[0])
    return mk("div", (a, b), fdiv(a.v, b.v), _ff(lambda x, y: x / y, a, b), pm)


# ---- linear forms over angle/exponent bases
ONE = ("one",)


def lin(n):
    if n._lin is not None:
        return n._lin
    r = None
    if n.pm:
        r = {(ONE, n.pm[1]): n.pm[0]} if n.pm[0] else {}
    elif n.v == 0:
        r = {}
    elif n.op == "add" or n.op == "sub":
        r = dict(lin(n.args[0]))
        s = 1 if n.op == "add" else -1
        for k, c in lin(n.args[1]).items():
            r[k] = r.get(k, 0) + s * c
            if r[k] == 0:
                del r[k]
    elif n.op == "neg":
        r = {k: -c for k, c in lin(n.args[0]).items()}
    elif n.op == "id":
        r = lin(n.args[0])
    elif n.op == "mul" and (n.args[0].pm or n.args[1].pm):
        m, x = (n.args[0], n.args[1]) if n.args[0].pm else (n.args[1], n.args[0])
        r = {(k, e + m.pm[1]): c * m.pm[0] for (k, e), c in lin(x).items()}
    elif n.op == "div" and n.args[1].pm:
        m = n.args[1]
        r = {(k, e - m.pm[1]): c / m.pm[0] for (k, e), c in lin(n.args[0]).items()}
    if r is None:
        base, c = canon(n.v)
        r = {(base, 0): c}
    n._lin = r
    return r


def canon(v):
    """find a registered base of which v is a small rational multiple"""
    hit = CTX.cache.get(("base", v))
    if hit:
        return hit
    for b in CTX.bases:
        r = ratrec(fdiv(v, b), 1 << 20)
        if r is not None and r != 0:
            CTX.cache[("base", v)] = (b, r)
            return b, r
    # sums/differences of two registered bases (angles combined before multiplication by a unit)
    bs = CTX.bases
    CTX.bases.append(v)
    CTX.cache[("base", v)] = (v, Fraction(1))
    return v, Fraction(1)


def circle_unit(b, k):
    key = ("unit", b, k)
    u = CTX.cache.get(key)
    if u is None:
        if b == ONE and k == 1:
            u = OMEGA
        else:
            t = CTX.rnd("circle", b, k)
            u = fdiv((t, 1), (t, P - 1))
        CTX.cache[key] = u
    return u


def circle(n):
    key = ("circ", n.v)
    z = CTX.cache.get(key)
    if z is not None:
        return z
    z = 1
    for (b, k), c in lin(n).items():
        e = c * NA
        if e.denominator != 1:
            b, k, e = ("frac", b, c), k, Fraction(NA)
        u = circle_unit(b, k)
        e = int(e)
        if b == ONE and k == 1:
            e %= 2 * NA
        z = fmul(z, fpow(u, e))
    CTX.cache[key] = z
    return z


def _re(z):
    return z[0] if type(z) is tuple else z


def _im(z):
    return z[1] if type(z) is tuple else 0


def sin(a):
    if a.v is None:
        return undef("sin")
    if _zc(a):
        return const(0)
    return _trigconst(mk("sin", (a,), _im(circle(a)), _ff(math.sin, a)), a)


def cos(a):
    if a.v is None:
        return undef("cos")
    if _zc(a):
        return const(1)
    return _trigconst(mk("cos", (a,), _re(circle(a)), _ff(math.cos, a)), a)


def _trigconst(n, a):
    """fold sin/cos of rational multiples of pi to exact constants where rational"""
    if a.pm and a.pm[1] == 1 and n.q is None and type(n.v) is int:
        for c in (0, 1, -1, Fraction(1, 2), Fraction(-1, 2)):
            if n.v == frac(Fraction(c)):
                return const(c)
    return n


def tan(a):
    return div(sin(a), cos(a))


def exp(a):
    if a.v is None:
        return undef("exp")
    if _zc(a):
        return const(1)
    if a.op == "log":
        return a.args[0]
    return mk("exp", (a,), _char(("e",), a), _ff(math.exp, a))


def _char(base, a):
    v = 1
    for (b, k), c in lin(a).items():
        e = c * NE
        if e.denominator != 1:
            b, e = ("frac", b, c), Fraction(1)
        v = fmul(v, fpow(CTX.pos("char", base, b, k), int(e)))
    return v


def log(a):
    if a.v is None or a.v == 0:
        return undef("log")
    if a.q == 1:
        return const(0)
    if a.op == "exp":
        return a.args[0]
    return mk("log", (a,), 0 if a.v == 1 else CTX.rnd("log", a.v), _ff(math.log, a))


def sqrt(a):
    if a.v is None:
        return undef("sqrt")
    if a.q is not None and a.q >= 0:
        n, d = math.isqrt(a.q.numerator), math.isqrt(a.q.denominator)
        if n * n == a.q.numerator and d * d == a.q.denominator:
            return const(Fraction(n, d))
    if a.f is not None and a.f < 0:
        return undef("sqrt of negative constant")
    r = CTX.roots.get(a.v) if CTX.roots else None
    return mk("sqrt", (a,), fsqrt(a.v) if r is None else r, _ff(math.sqrt, a))


def power(a, e):
    if _anyundef(a, e):
        return undef("pow")
    if e.q is not None:
        if e.q.denominator == 1:
            k = int(e.q)
            if k == 0:
                return const(1)
            if k == 1:
                return a
            if _zc(a) or a.v == 0 and k < 0:
                return const(0) if k > 0 else undef("zero to negative power")
            if a.q is not None and abs(k) < 4096:
                return const(a.q ** k)
            pm = (a.pm[0] ** k, a.pm[1] * k) if a.pm else None
            return mk("powi", (a,), fpow(a.v, k), _ff(lambda x: x ** k, a), pm, aux=k)
        if e.q.denominator == 2:
            return power(sqrt(a), const(e.q * 2))
    if a.q == 1:
        return const(1)
    if a.f is None and a.v != 0 and sign_of(a) <= 0:
        CTX.bases_pos.add(a.v)
    l = dict(lin(e))
    m = l.pop((ONE, 0), Fraction(0))
    k = m.numerator // m.denominator
    m = m - k
    if m:
        l[(ONE, 0)] = m
    v = fpow(a.v, k) if a.v != 0 else 0
    for (b, kk), c in l.items():
        ee = c * NE
        if ee.denominator != 1:
            b, ee = ("frac", b, c), Fraction(1)
        v = fmul(v, fpow(CTX.pos("char", ("b", a.v), b, kk), int(ee)))
    return mk("pow", (a, e), v, _ff(lambda x, y: x ** y, a, e))


def atan2(y, x):
    if _anyundef(x, y):
        return undef("atan2")
    if y.f is not None and x.f is not None:
        if y.v == 0 and x.f > 0:
            return const(0)
        return mk("atan2", (y, x), CTX.rnd("atan2", y.v, x.v), math.atan2(y.f, x.f))
    # atan2(-y, x) = -atan2(y, x); positive common factors are not removed
    if y.v == 0:
        return Node("atan2", (y, x), CTX.rnd("atan2", 0, x.v))
    s = chi(y.v)
    yv = y.v if s == 1 else fneg(y.v)
    if CTX.homog and x.v != 0:
        # dimension analysis: the angle does not change when both coordinates change by the same positive factor
        v = CTX.rnd("atan2h", fmul(yv, finv(x.v)), chi(x.v))
    else:
        v = CTX.rnd("atan2", yv, x.v)
    if s != 1:
        v = fneg(v)
    return mk("atan2", (y, x), v)


def atan(a):
    return atan2(a, const(1))


def acos(a):
    if a.v is None:
        return undef("acos")
    if a.q == 1:
        return const(0)
    if a.q == 0:
        return div(PI(), const(2))
    if a.q == -1:
        return PI()
    # acos(x) = pi/2 - asin(x)
    return mk("acos", (a,), fsub(frac_half_pi(), _asin_v(a)), _ff(math.acos, a))


def frac_half_pi():
    return PI().v * ((P + 1) // 2) % P


def _asin_v(a):
    s = chi(a.v)
    v = CTX.rnd("asin", a.v if s == 1 else fneg(a.v))
    return v if s == 1 else fneg(v)


def asin(a):
    if a.v is None:
        return undef("asin")
    if _zc(a):
        return const(0)
    if a.q == 1:
        return div(PI(), const(2))
    if a.q == -1:
        return neg(div(PI(), const(2)))
    return mk("asin", (a,), _asin_v(a), _ff(math.asin, a))


def absv(a):
    if a.v is None:
        return undef("abs")
    if a.q is not None:
        return const(abs(a.q))
    if a.f is not None:
        return a if a.f >= 0 else neg(a)
    s = CTX.implied(a)
    if s:
        return a if s > 0 else neg(a)
    if CTX.abs_mode == "fork":
        return a if CTX.positive(a, "abs") else neg(a)
    s = chi(a.v)
    r = mk("abs", (a,), a.v if s == 1 else fneg(a.v), aux=s)
    r._sg = 1
    return r


def _minmax(a, b, mx):
    if isinf(a) or isinf(b):
        if (a.v is None and not isinf(a)) or (b.v is None and not isinf(b)):
            return undef("minmax")
        return a if CTX.greater(a, b) == mx else b
    if _anyundef(a, b):
        return undef("minmax")
    if a.v == b.v:
        return a
    if a.f is not None and b.f is not None:
        return (a if a.f >= b.f else b) if mx else (a if a.f <= b.f else b)
    s = CTX.implied(sub(a, b))
    if s:
        return a if (s > 0) == mx else b
    if CTX.abs_mode == "fork":
        return a if CTX.greater(a, b, "max") == mx else b
    key = sorted([repr(a.v), repr(b.v)])
    # max(a,b) + min(a,b) = a + b
    v = CTX.rnd("max", *key)
    if not mx:
        v = fsub(fadd(a.v, b.v), v)
    n = Node("func", (a, b), v, aux=("max" if mx else "min",))
    return n


def maxv(a, b):
    return _minmax(a, b, True)


def minv(a, b):
    return _minmax(a, b, False)


def maxn(vals, mx=True):
    """symmetric n-ary maximum/minimum"""
    flat = []
    nm = "max" if mx else "min"

    def go(a):
        if a.op == "func" and a.aux[0] in (nm, nm + "n"):
            for b in a.args:
                go(b)
        elif all(b.v != a.v for b in flat):
            flat.append(a)
    vals = [lift(a) for a in vals]
    if any(isinf(a) for a in vals):
        r = vals[0]
        for a in vals[1:]:
            r = _minmax(r, a, mx)
        return r
    for a in vals:
        go(a)
    if _anyundef(*flat):
        return undef(nm)
    # fold what is ordered already
    out = []
    for a in flat:
        drop = False
        for b in list(out):
            s = CTX.implied(sub(a, b)) if not (a.f is not None and b.f is not None) else \
                ((a.f > b.f) - (a.f < b.f))
            if s:
                if (s > 0) == mx:
                    out.remove(b)
                else:
                    drop = True
                    break
        if not drop:
            out.append(a)
    if len(out) == 1:
        return out[0]
    if len(out) == 2:
        return _minmax(out[0], out[1], mx)
    if CTX.abs_mode == "fork":
        r = out[0]
        for a in out[1:]:
            r = _minmax(r, a, mx)
        return r
    key = sorted(repr(a.v) for a in out)
    return Node("func", tuple(out), CTX.rnd(nm + "n", *key), aux=(nm + "n",))


def floorv(a):
    if a.f is not None:
        return const(math.floor(a.q if a.q is not None else a.f))
    return func("floor", a)


def le(a, b):
    """a <= b.  Strict and non-strict comparison of distinct non-constants coincide off a null set"""
    if isinf(a) or isinf(b):
        return CTX.greater(b, a) or (isinf(a) and isinf(b) and a.aux == b.aux)
    d = sub(b, a)
    if d.v is None:
        return False
    if d.v == 0:
        return True
    return CTX.greater(b, a)


def func(name, *args, npartials=None, key=None):
    """uninterpreted function of its arguments, differentiable through formal partials"""
    args = tuple(lift(a) for a in args)
    if _anyundef(*args):
        return undef(name)
    k = ("fn", name, key) + tuple(a.v for a in args)
    return Node("func", args, CTX.rnd(*k), aux=(name, key))


def func_partial(name, key, args, i):
    return CTX.rnd("dfn", name, key, i, *[a.v for a in args])


# ------------------------------------------------------------------ signs
def sign_of(n):
    if n._sg is not None:
        return n._sg
    s = 0
    if n.f is not None:
        s = (n.f > 0) - (n.f < 0)
    elif n.op == "id":
        s = sign_of(n.args[0])
    elif n.op in ("mul", "div"):
        s = sign_of(n.args[0]) * sign_of(n.args[1])
    elif n.op == "add":
        a, b = sign_of(n.args[0]), sign_of(n.args[1])
        s = a if a == b or n.args[1].v == 0 else b if n.args[0].v == 0 else 0
    elif n.op == "sub":
        a, b = sign_of(n.args[0]), -sign_of(n.args[1])
        s = a if a == b or n.args[1].v == 0 else b if n.args[0].v == 0 else 0
    elif n.op == "neg":
        s = -sign_of(n.args[0])
    elif n.op == "root":
        lo, hi = n.aux["a"].f, n.aux["b"].f
        s = 0 if lo is None or hi is None else 1 if min(lo, hi) >= 0 else -1 if max(lo, hi) <= 0 else 0
    elif n.op in ("sqrt", "exp"):
        s = 1
    elif n.op == "powi":
        s = 1 if n.aux % 2 == 0 else sign_of(n.args[0])
    elif n.op == "pow":
        s = 1 if sign_of(n.args[0]) > 0 else 0
    n._sg = s
    return s


# ------------------------------------------------------------------ differentiation on the value graph
def _partials(n):
    op = n.op
    a = n.args
    if op == "add":
        return (1, 1)
    if op == "sub":
        return (1, P - 1)
    if op == "neg":
        return (P - 1,)
    if op == "id":
        return (1,)
    if op == "mul":
        return (a[1].v, a[0].v)
    if op == "div":
        inv = finv(a[1].v)
        return (inv, fneg(fmul(n.v, inv)))
    if op == "powi":
        return (fmul(n.aux % P, fpow(a[0].v, n.aux - 1)),)
    if op == "pow":
        x, e = a
        return (fmul(e.v, fdiv(n.v, x.v)), fmul(n.v, log(x).v))
    if op == "sin":
        return (cos(a[0]).v,)
    if op == "cos":
        return (fneg(sin(a[0]).v),)
    if op == "exp":
        return (n.v,)
    if op == "log":
        return (finv(a[0].v),)
    if op == "sqrt":
        return (finv(fmul(2, n.v)),)
    if op == "acos" or op == "asin":
        d = finv(fsqrt(fsub(1, fmul(a[0].v, a[0].v))))
        return (fneg(d) if op == "acos" else d,)
    if op == "atan2":
        y, x = a[0].v, a[1].v
        den = finv(fadd(fmul(x, x), fmul(y, y)))
        return (fmul(x, den), fneg(fmul(y, den)))
    if op == "abs":
        return (n.aux % P,)
    if op == "func":
        name = n.aux[0]
        key = n.aux[1] if len(n.aux) > 1 else None
        h = FUNC_PARTIALS.get(name)
        if h:
            return h(n)
        return tuple(func_partial(name, key, a, i) for i in range(len(a)))
    if op == "root":
        # a[0] is the residual with the unknown replaced by a marked leaf
        return (fneg(finv(n.aux["dres"])),)
    raise Unsupported("no derivative rule for node " + op)


FUNC_PARTIALS = {}


def grad(out, wrt):
    """exact gradient (field values) of one node with respect to a list of nodes"""
    if out.v is None:
        return [None] * len(wrt)
    ids = {id(w): i for i, w in enumerate(wrt)}
    res = [0] * len(wrt)
    # nodes that depend on wrt, in topological order (iterative post-order)
    dep = {}
    order = []
    stack = [(out, 0)]
    seen = set()
    while stack:
        n, st = stack.pop()
        if st == 0:
            if id(n) in seen:
                continue
            seen.add(id(n))
            stack.append((n, 1))
            if id(n) not in ids:
                for a in n.args:
                    if id(a) not in seen:
                        stack.append((a, 0))
        else:
            if id(n) in ids:
                dep[id(n)] = True
            else:
                if n.op == "leaf":
                    dep[id(n)] = False
                else:
                    dep[id(n)] = any(dep.get(id(a), False) for a in n.args)
            order.append(n)
    adj = {id(out): 1}
    for n in reversed(order):
        g = adj.pop(id(n), None)
        if g is None or g == 0:
            continue
        i = ids.get(id(n))
        if i is not None:
            res[i] = fadd(res[i], g)
            continue
        if not dep[id(n)]:
            continue
        for a, p in zip(n.args, _partials(n)):
            if dep[id(a)] and p != 0:
                k = id(a)
                t = fmul(g, p)
                adj[k] = fadd(adj[k], t) if k in adj else t
    return res


def depends(out, wrt_ids):
    stack = [out]
    seen = set()
    hit = set()
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if id(n) in wrt_ids:
            hit.add(id(n))
        stack.extend(n.args)
    return hit


def leaves(out, acc=None):
    stack = [out]
    seen = set()
    res = []
    while stack:
        n = stack.pop()
        if id(n) in seen:
            continue
        seen.add(id(n))
        if n.op == "sym":
            res.append(n)
        stack.extend(n.args)
    return res


# ------------------------------------------------------------------ path driver
class Path:
    def __init__(self, ctx, result):
        self.ctx = ctx
        self.result = result

    def describe(self):
        return "; ".join("%s=%s@%s:%s" % (d, "T" if b else "F", w[0], w[1]) for d, b, fr, w in self.ctx.taken)


SAMPLES = {}      # symbol name -> typical magnitude; orders the exploration of guards, decides nothing


def _h01(*key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=8).digest()
    return int.from_bytes(h, "big") / 2.0 ** 64


def approx(n):
    """a typical real value of the node (None if there is none)"""
    memo = CTX.approx
    st = [n]
    while st:
        x = st[-1]
        if id(x) in memo:
            st.pop()
            continue
        todo = [a for a in x.args if isinstance(a, Node) and id(a) not in memo]
        if todo:
            st.extend(todo)
            continue
        memo[id(x)] = (_approx1(x, [memo[id(a)][0] for a in x.args if isinstance(a, Node)]), x)
        st.pop()
    return memo[id(n)][0]


def _approx1(n, a):
    try:
        if n.f is not None:
            return float(n.f)
        if n.op == "sym":
            nm = n.aux
            s = SAMPLES.get(nm)
            if s is None:
                b = nm.split("[")[0]
                s = SAMPLES.get(b)
                if s is not None and "[" in nm and not isinstance(s, tuple):
                    s = s * (1 + 0.01 * _h01(nm))
                elif isinstance(s, tuple):
                    s = s[0] + s[1] * int(nm.split("[")[1].rstrip("]"))
            if s is None:
                s = 0.2 + 0.6 * _h01(nm)
            return -abs(s) if n._sg == -1 else float(s)
        if n.op in ("leaf", "func", "root"):
            if any(x is None for x in a):
                return None
            nm = n.aux[0] if n.op == "func" else n.op
            if nm == "max":
                return max(a)
            if nm == "min":
                return min(a)
            r = 0.05 + 0.3 * _h01(n.op, nm, [round(x, 9) for x in a] if n.op != "leaf" else n.v)
            return -r if n._sg == -1 else r
        if any(x is None for x in a):
            return None
        o = n.op
        if o == "add":
            return a[0] + a[1]
        if o == "sub":
            return a[0] - a[1]
        if o == "mul":
            return a[0] * a[1]
        if o == "div":
            return a[0] / a[1]
        if o == "neg":
            return -a[0]
        if o == "id":
            return a[0]
        if o == "powi":
            return a[0] ** n.aux
        if o == "pow":
            return a[0] ** a[1]
        if o == "abs":
            return abs(a[0])
        if o in ("sin", "cos", "exp", "log", "sqrt", "acos", "asin", "atan2"):
            return getattr(math, o)(*a)
    except Exception:
        return None
    return None


def run_paths(fn, seed=1, max_paths=4096, prefixes=None, on_ctx=None, explore="all", **kw):
    """enumerate the trace partition of fn(); fn runs with the current context set
    explore: "all" guards both ways in every combination, or "flip": a typical path and, for each of its
    undecided guards, the path that takes that guard the other way (the rest typical again)"""
    work = [list(p) for p in (prefixes or [[]])]
    n = 0
    while work:
        pre = work.pop()
        res = None
        for attempt in range(400):
            c = Ctx(seed=seed * 1000 + attempt, choices=pre, **kw)
            if on_ctx:
                on_ctx(c)
            set_ctx(c)
            try:
                res = fn()
                break
            except Retry:
                continue
        else:
            raise Unsupported("no valuation with all square roots found")
        n += 1
        if n > max_paths:
            raise PathLimit("more than %d paths" % max_paths)
        yield Path(c, res)
        # guards met while the consumer evaluated its reference are explored as well
        free = [t for t in c.taken if t[2]]
        for i in range(len(pre), len(free)) if (explore == "all" or explore == "flip" and not pre) else ():
            work.append([t[1] for t in free[:i]] + [not free[i][1]])


def with_ctx(fn, seed=1, **kw):
    """single path evaluation (all guards must be decided by policy)"""
    for p in run_paths(fn, seed=seed, **kw):
        return p


def same(a, b):
    a, b = lift(a), lift(b)
    if a.v is None or b.v is None:
        return False
    return a.v == b.v
