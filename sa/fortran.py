"""Free-form Fortran front end (subset) and its abstract interpreter over the value-number domain."""
import re
import struct
from fractions import Fraction

import numpy as np

import core
from core import Node, Unsupported, const, lift, undef

# ------------------------------------------------------------------ lexer
TOK = re.compile(r"""
   (?P<num>(\d+\.\d*|\.\d+|\d+)([eEdD][+-]?\d+)?(_\w+)?)
 | (?P<dotop>\.[a-zA-Z]+\.)
 | (?P<name>[A-Za-z]\w*)
 | (?P<str>'[^']*'|"[^"]*")
 | (?P<op>\*\*|==|/=|<=|>=|::|=>|//|\(/|/\)|[-+*/<>=(),:%\[\];&])
 | (?P<ws>\s+)
""", re.X)
DOT = {".eq.": "==", ".ne.": "/=", ".lt.": "<", ".le.": "<=", ".gt.": ">", ".ge.": ">=", ".and.": ".and.",
       ".or.": ".or.", ".not.": ".not.", ".true.": "TRUE", ".false.": "FALSE", ".eqv.": ".eqv.",
       ".neqv.": ".neqv."}


class FortranError(Unsupported):
    pass


def tokenize(s, line):
    pos = 0
    out = []
    # guard against "1.eq.2" style: numbers directly followed by dot operators
    s = re.sub(r"(\d)\.(?=(eq|ne|lt|le|gt|ge|and|or|not|eqv|neqv)\.)", r"\1 .", s, flags=re.I)
    while pos < len(s):
        m = TOK.match(s, pos)
        if not m:
            raise FortranError("line %d: cannot tokenise %r" % (line, s[pos:pos + 20]))
        pos = m.end()
        k = m.lastgroup
        # lastgroup may be an inner unnamed group; find the named one
        for g in ("num", "dotop", "name", "str", "op", "ws"):
            if m.group(g) is not None:
                k = g
                break
        t = m.group(0)
        if k == "ws":
            continue
        if k == "name":
            t = t.lower()
        if k == "dotop":
            t = t.lower()
            if t not in DOT:
                raise FortranError("line %d: operator %s" % (line, t))
            d = DOT[t]
            out.append(("bool" if d in ("TRUE", "FALSE") else "op", d))
            continue
        out.append((k, t))
    out.append(("eof", ""))
    return out


def strip_comment(l):
    q = None
    for i, c in enumerate(l):
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == "!":
            return l[:i]
    return l


def logical_lines(text):
    """(lineno, statement text); yields !f2py directives as ('!f2py', text)"""
    cur = ""
    start = None
    for no, raw in enumerate(text.split("\n"), 1):
        st = raw.strip()
        if st.lower().startswith("!f2py"):
            yield no, "!f2py " + st[5:].strip()
            continue
        l = strip_comment(raw).rstrip()
        if not l.strip():
            continue
        ls = l.strip()
        if cur:
            if ls.startswith("&"):
                ls = ls[1:]
                # token continuation joins without blank
                joined = cur + ls
            else:
                joined = cur + " " + ls
        else:
            start = no
            joined = ls
        if joined.endswith("&"):
            cur = joined[:-1]
            continue
        cur = ""
        for part in split_semi(joined):
            if part.strip():
                yield start, part.strip()
    if cur:
        yield start, cur


def split_semi(s):
    if ";" not in s:
        return [s]
    out, q, b = [], None, ""
    for c in s:
        if q:
            if c == q:
                q = None
        elif c in "'\"":
            q = c
        elif c == ";":
            out.append(b)
            b = ""
            continue
        b += c
    out.append(b)
    return out


# ------------------------------------------------------------------ expression parser
class EP:
    def __init__(self, toks, line):
        self.t = toks
        self.i = 0
        self.line = line

    def peek(self):
        return self.t[self.i]

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, *ops):
        k, v = self.peek()
        if k in ("op",) and v in ops:
            self.i += 1
            return v
        return None

    def expect(self, op):
        if not self.accept(op):
            raise FortranError("line %d: expected %s, found %s" % (self.line, op, self.peek()))

    def expr(self):
        return self.eqv()

    def eqv(self):
        a = self.orx()
        while True:
            o = self.accept(".eqv.", ".neqv.")
            if not o:
                return a
            a = ("bin", o, a, self.orx())

    def orx(self):
        a = self.andx()
        while self.accept(".or."):
            a = ("bin", ".or.", a, self.andx())
        return a

    def andx(self):
        a = self.notx()
        while self.accept(".and."):
            a = ("bin", ".and.", a, self.notx())
        return a

    def notx(self):
        if self.accept(".not."):
            return ("not", self.notx())
        return self.rel()

    def rel(self):
        a = self.addx()
        o = self.accept("==", "/=", "<=", ">=", "<", ">")
        if o:
            return ("bin", o, a, self.addx())
        return a

    def addx(self):
        o = self.accept("+", "-")
        a = self.mulx()
        if o == "-":
            a = ("neg", a)
        while True:
            o = self.accept("+", "-")
            if not o:
                return a
            a = ("bin", o, a, self.mulx())

    def mulx(self):
        a = self.powx()
        while True:
            o = self.accept("*", "/")
            if not o:
                return a
            a = ("bin", o, a, self.powx())

    def powx(self):
        a = self.prim()
        if self.accept("**"):
            # right associative; unary sign allowed by common extension
            if self.accept("-"):
                return ("bin", "**", a, ("neg", self.powx()))
            self.accept("+")
            return ("bin", "**", a, self.powx())
        return a

    def prim(self):
        k, v = self.next()
        if k == "num":
            return ("num", v)
        if k == "bool":
            return ("bool", v == "TRUE")
        if k == "str":
            return ("str", v[1:-1])
        if k == "op" and v == "(":
            e = self.expr()
            if self.accept(","):
                raise FortranError("line %d: complex literal" % self.line)
            self.expect(")")
            return ("paren", e)
        if k == "op" and v in ("(/", "["):
            close = "/)" if v == "(/" else "]"
            items = []
            if not self.accept(close):
                while True:
                    items.append(self.actor())
                    if self.accept(close):
                        break
                    self.expect(",")
            return ("array", items)
        if k == "op" and v in ("+", "-"):
            e = self.prim()
            return ("neg", e) if v == "-" else e
        if k == "name":
            return self.suffix(v)
        raise FortranError("line %d: unexpected %r" % (self.line, v))

    def actor(self):
        # array constructor item, maybe implied do
        if self.peek() == ("op", "("):
            save = self.i
            try:
                self.next()
                e = self.expr()
                if self.accept(","):
                    k, v = self.next()
                    if k == "name" and self.accept("="):
                        lo = self.expr()
                        self.expect(",")
                        hi = self.expr()
                        st = self.expr() if self.accept(",") else ("num", "1")
                        self.expect(")")
                        return ("implied", e, v, lo, hi, st)
            except FortranError:
                pass
            self.i = save
        return self.expr()

    def suffix(self, name):
        node = ("name", name, self.line)
        while self.peek() == ("op", "("):
            self.next()
            args = []
            if not self.accept(")"):
                while True:
                    args.append(self.arg())
                    if self.accept(")"):
                        break
                    self.expect(",")
            node = ("ref", node, args, self.line)
        if self.peek() == ("op", "%"):
            raise FortranError("line %d: derived types" % self.line)
        return node

    def arg(self):
        # section or expression or keyword
        if self.peek()[0] == "name" and self.t[self.i + 1] == ("op", "="):
            k = self.next()[1]
            self.next()
            return ("kw", k, self.expr())
        lo = hi = st = None
        if self.accept("::"):
            st = self.expr()
            return ("sec", None, None, st)
        if self.peek() == ("op", ":"):
            pass
        else:
            lo = self.expr()
            if self.peek() != ("op", ":") and self.peek() != ("op", "::"):
                return lo
        if self.accept("::"):
            st = self.expr()
            return ("sec", lo, None, st)
        self.expect(":")
        if self.peek() not in (("op", ")"), ("op", ","), ("op", ":")):
            hi = self.expr()
        if self.accept(":"):
            st = self.expr()
        return ("sec", lo, hi, st)


def parse_expr(s, line):
    p = EP(tokenize(s, line), line)
    e = p.expr()
    if p.peek()[0] != "eof":
        raise FortranError("line %d: trailing %r" % (line, p.peek()))
    return e


# ------------------------------------------------------------------ statements
class Unit:
    def __init__(self, kind, name, args, line):
        self.kind = kind
        self.name = name
        self.args = args
        self.line = line
        self.result = None
        self.decls = {}
        self.order = []
        self.body = []
        self.f2py_opt = {}
        self.contains = {}
        self.endline = line
        self.uses = []
        self.module = None
        self.linked = False


class Decl:
    def __init__(self, typ):
        self.typ = typ
        self.dims = None
        self.intent = None
        self.param = False
        self.init = None
        self.optional = False


TYPES = re.compile(r"^(integer|real|logical|double\s*precision|character|complex|type)\b", re.I)


def match_paren(s, i):
    d = 0
    for j in range(i, len(s)):
        if s[j] in "([":
            d += 1
        elif s[j] in ")]":
            d -= 1
            if d == 0:
                return j
    raise FortranError("unbalanced parenthesis in " + s)


def split_top(s, sep=","):
    out, d, b = [], 0, ""
    for c in s:
        if c in "([":
            d += 1
        if c in ")]":
            d -= 1
        if c == sep and d == 0:
            out.append(b)
            b = ""
        else:
            b += c
    if b.strip():
        out.append(b)
    return [x.strip() for x in out]


class Parser:
    def __init__(self, text, fname):
        self.lines = list(logical_lines(text))
        self.i = 0
        self.fname = fname
        self.units = {}
        self.modules = {}

    def err(self, no, msg):
        raise FortranError("%s:%d: %s" % (self.fname, no, msg))

    def parse(self):
        module = None
        while self.i < len(self.lines):
            no, s = self.lines[self.i]
            l = s.lower()
            mm = re.match(r"^module\s+(\w+)$", l)
            if mm and mm.group(1) != "procedure":
                module = self.modules[mm.group(1)] = Unit("module", mm.group(1), [], no)
                self.i += 1
                continue
            if re.match(r"^(end\s*module|contains|implicit|private|public|use|save)\b", l):
                if l.startswith("use") and module is not None:
                    module.uses.append(s)
                if l.startswith("end"):
                    module = None
                self.i += 1
                continue
            u = self.unit_header(no, s)
            if u is None:
                # module level declarations are not supported beyond parameters
                if TYPES.match(l) or l.startswith("!f2py"):
                    if module is not None and TYPES.match(l) and not l.startswith("type"):
                        self.declaration(module, no, s)
                    self.i += 1
                    continue
                self.err(no, "unexpected statement outside a program unit: " + s)
            self.i += 1
            self.unit_body(u)
            u.module = module
            self.units[u.name] = u
        for u in list(self.units.values()):
            self.link(u)
        return self.units

    def link(self, u, outer=()):
        """named constants of the modules a unit belongs to or uses"""
        if u.linked:
            return
        u.linked = True
        new = {}
        if u.module is not None:
            self.link(u.module)
            new.update((k, d) for k, d in u.module.decls.items() if d.param)
        for t in u.uses:
            m = re.match(r"^use\b\s*(?:,\s*(?:non_)?intrinsic\s*)?(?:::)?\s*(\w+)\s*(?:,\s*(.*))?$", t, re.I)
            if not m:
                continue
            M = self.modules.get(m.group(1).lower())
            if M is not None:
                self.link(M)
                new.update((k, d) for k, d in M.decls.items() if d.param)
            names = re.sub(r"^only\s*:", "", m.group(2) or "", flags=re.I)
            for x in split_top(names):
                a, _, b = (y.strip().lower() for y in x.partition("=>"))
                b = b or a
                if M is not None and b in M.decls and M.decls[b].param:
                    new[a] = M.decls[b]
                elif M is None and b in ("real64", "real32", "c_double", "c_float", "int32", "int64", "c_int"):
                    d = Decl("i")
                    d.param, d.init = True, ("name", b)
                    new[a] = d
        for k, d in u.decls.items():
            new.pop(k, None)
        u.decls = dict(new, **u.decls)
        u.order = [k for k in new] + u.order
        for c in u.contains.values():
            self.link(c)

    def unit_header(self, no, s):
        m = re.match(r"^(?:(?:pure|elemental|recursive|impure)\s+)*subroutine\s+(\w+)\s*(\((.*)\))?\s*(bind\(.*\))?$",
                     s, re.I)
        if m:
            args = [a.lower() for a in split_top(m.group(3) or "")]
            return Unit("subroutine", m.group(1).lower(), args, no)
        m = re.match(r"^((?:pure|elemental|recursive|impure)\s+)*(.*?)\bfunction\s+(\w+)\s*\(([^)]*)\)\s*"
                     r"(?:result\s*\(\s*(\w+)\s*\))?\s*$", s, re.I)
        if m and not re.match(r"^end", s, re.I):
            args = [a.lower() for a in split_top(m.group(4) or "")]
            u = Unit("function", m.group(3).lower(), args, no)
            u.result = (m.group(5) or m.group(3)).lower()
            t = (m.group(2) or "").strip()
            if t:
                d = Decl(self.typename(t))
                u.decls[u.result] = d
            return u
        return None

    def typename(self, t):
        t = t.lower().strip()
        if t.startswith("integer"):
            return "i"
        if t.startswith("logical"):
            return "l"
        if t.startswith("double"):
            return "r8"
        if t.startswith("character"):
            return "c"
        if t.startswith("real"):
            m = re.match(r"real\s*\*\s*(\d+)", t)
            if m:
                return "r8" if m.group(1) == "8" else "r4"
            m = re.match(r"real\s*\(\s*(?:kind\s*=\s*)?(.*)\)\s*$", t)
            if m:
                return "kind:" + m.group(1).strip()
            return "r4"
        raise FortranError("type " + t)

    def declaration(self, u, no, s):
        m = TYPES.match(s)
        i = m.end()
        rest = s[i:]
        # kind / length selector
        sel = ""
        r = rest.lstrip()
        if r.startswith("("):
            j = match_paren(r, 0)
            sel = r[:j + 1]
            r = r[j + 1:]
        elif r.startswith("*"):
            mm = re.match(r"\*\s*(\d+|\(\*\))", r)
            sel = r[:mm.end()]
            r = r[mm.end():]
        typ = self.typename(m.group(1) + sel)
        attrs = ""
        if "::" in r:
            attrs, ents = r.split("::", 1)
        else:
            ents = r
        intent = None
        param = False
        dims = None
        opt = False
        for a in split_top(attrs.strip().lstrip(",")):
            al = a.lower()
            if al.startswith("intent"):
                intent = re.sub(r"\s", "", al)[7:-1]
            elif al.startswith("parameter"):
                param = True
            elif al.startswith("dimension"):
                dims = split_top(a[a.index("(") + 1:a.rindex(")")])
            elif al.startswith("optional"):
                opt = True
            elif al.startswith(("allocatable", "save", "target", "value", "contiguous", "pointer", "external",
                                "intrinsic", "")):
                pass
        for e in split_top(ents):
            init = None
            # split initialiser at top level '='
            depth = 0
            for k, c in enumerate(e):
                if c in "([":
                    depth += 1
                elif c in ")]":
                    depth -= 1
                elif c == "=" and depth == 0 and e[k + 1:k + 2] != "=":
                    init = e[k + 1:].strip()
                    e = e[:k].strip()
                    break
            mm = re.match(r"^(\w+)\s*(\((.*)\))?\s*(\*\s*\d+)?$", e)
            if not mm:
                self.err(no, "declaration " + e)
            name = mm.group(1).lower()
            d = u.decls.get(name) or Decl(typ)
            d.typ = typ
            dd = split_top(mm.group(3)) if mm.group(3) else dims
            if dd:
                d.dims = [self.dim(x, no) for x in dd]
            d.intent = intent or d.intent
            d.param = param
            d.optional = opt
            d.line = no
            if init is not None:
                d.init = parse_expr(init, no)
            u.decls[name] = d
            if name not in u.order:
                u.order.append(name)

    def dim(self, x, no):
        if ":" in x:
            lo, hi = x.split(":", 1)
            return (parse_expr(lo, no) if lo.strip() else ("num", "1"),
                    parse_expr(hi, no) if hi.strip() else None)
        if x.strip() == "*":
            return (("num", "1"), None)
        return (("num", "1"), parse_expr(x, no))

    def unit_body(self, u):
        in_spec = True
        stmts = []
        while self.i < len(self.lines):
            no, s = self.lines[self.i]
            l = s.lower()
            if l.startswith("!f2py"):
                self.f2py(u, no, s)
                self.i += 1
                continue
            if re.match(r"^end\s*(subroutine|function)?(\s+\w+)?$", l) and not re.match(
                    r"^end\s*(if|do|where|select|associate|block|forall)", l):
                u.endline = no
                self.i += 1
                u.body = stmts
                return
            if re.match(r"^contains$", l):
                self.i += 1
                while True:
                    no, s = self.lines[self.i]
                    h = self.unit_header(no, s)
                    if h is None:
                        break
                    self.i += 1
                    self.unit_body(h)
                    u.contains[h.name] = h
                continue
            if in_spec and re.match(r"^use\b", l):
                u.uses.append(s)
            if in_spec and re.match(r"^(implicit|intrinsic|external|use|save|include)\b", l):
                self.i += 1
                continue
            if in_spec and TYPES.match(l) and not re.match(r"^(real|integer|logical)\s*\(.*\)\s*=", l):
                self.declaration(u, no, s)
                self.i += 1
                continue
            if in_spec and re.match(r"^parameter\s*\(", l):
                for e in split_top(s[s.index("(") + 1:s.rindex(")")]):
                    n, v = e.split("=", 1)
                    d = u.decls.setdefault(n.strip().lower(), Decl("r8"))
                    d.param = True
                    d.init = parse_expr(v, no)
                self.i += 1
                continue
            if in_spec and re.match(r"^dimension\b", l):
                for e in split_top(s[9:].replace("::", "")):
                    mm = re.match(r"^(\w+)\s*\((.*)\)$", e)
                    u.decls.setdefault(mm.group(1).lower(), Decl("r8")).dims = [self.dim(x, no) for x in
                                                                              split_top(mm.group(2))]
                self.i += 1
                continue
            in_spec = False
            stmts.append(self.statement())
        self.err(u.line, "unterminated unit " + u.name)

    def f2py(self, u, no, s):
        # "logical, optional, intent(in) :: a = 1, b = 1"
        m = re.match(r"^!f2py\s+(.*?)::(.*)$", s, re.I)
        if not m:
            return
        if "optional" in m.group(1).lower():
            for e in split_top(m.group(2)):
                if "=" in e:
                    n, v = e.split("=", 1)
                    u.f2py_opt[n.strip().lower()] = v.strip()
                else:
                    u.f2py_opt[e.strip().lower()] = None
        if "intent(hide)" in m.group(1).lower().replace(" ", ""):
            raise FortranError("f2py intent(hide)")

    # ---- executable statements
    def statement(self):
        no, s = self.lines[self.i]
        l = s.lower()
        m = re.match(r"^(\w+)\s*:\s*(do|if|select|where|block|associate|forall)\b", l)
        label = None
        if m and not re.match(r"^\w+\s*::", l):
            label = m.group(1)
            s = s[s.index(":") + 1:].strip()
            l = s.lower()
        m = re.match(r"^forall\s*\(", l)
        if m:
            j = match_paren(s, s.index("("))
            rest = s[j + 1:].strip()
            if not rest:
                return self.concurrent(no, s[s.index("(") + 1:j], None)
            self.lines[self.i] = (no, rest)
            st = self.statement()
            return self.concurrent(no, s[s.index("(") + 1:j], [st])
        m = re.match(r"^do\s+concurrent\s*\(", l)
        if m:
            j = match_paren(s, s.index("("))
            return self.concurrent(no, s[s.index("(") + 1:j], None)
        if re.match(r"^associate\s*\(", l):
            pairs = []
            for x in split_top(s[s.index("(") + 1:s.rindex(")")]):
                a, b = x.split("=>", 1)
                pairs.append((a.strip().lower(), parse_expr(b, no)))
            self.i += 1
            body, n2, e = self.block([r"^end\s*associate\b"])
            self.i += 1
            return ("associate", no, pairs, body)
        if l == "block":
            self.i += 1
            B = Unit("block", "block", [], no)
            while TYPES.match(self.lines[self.i][1]) and "::" in self.lines[self.i][1]:
                self.declaration(B, *self.lines[self.i])
                self.i += 1
            body, n2, e = self.block([r"^end\s*block\b"])
            self.i += 1
            return ("block", no, B, body)
        m = re.match(r"^if\s*\(", l)
        if m:
            j = match_paren(s, s.index("("))
            cond = s[s.index("(") + 1:j]
            rest = s[j + 1:].strip()
            if rest.lower() == "then":
                return self.if_block(no, cond)
            self.lines[self.i] = (no, rest)
            st = self.statement()
            return ("if", no, [(parse_expr(cond, no), [st])], [])
        if re.match(r"^do\b", l):
            return self.do_block(no, s, label)
        if re.match(r"^where\s*\(", l):
            j = match_paren(s, s.index("("))
            cond = parse_expr(s[s.index("(") + 1:j], no)
            rest = s[j + 1:].strip()
            if rest:
                self.lines[self.i] = (no, rest)
                st = self.statement()
                return ("where", no, [(cond, [st])], None)
            return self.where_block(no, cond)
        if re.match(r"^select\s*case\s*\(", l):
            return self.select_block(no, s)
        self.i += 1
        if l.startswith("call "):
            m = re.match(r"^call\s+(\w+)\s*(\((.*)\))?$", s, re.I)
            e = parse_expr((m.group(1) + (m.group(2) or "()")), no)
            return ("call", no, m.group(1).lower(), e[2] if e[0] == "ref" else [])
        if l in ("return", "continue", "exit", "cycle") or re.match(r"^(exit|cycle)\s+\w+$", l):
            return (l.split() + [None])[0], no, (l.split() + [None])[1]
        if re.match(r"^(print|write|stop|error\s+stop|format|flush)\b", l) and not re.match(r"^\w+\s*=", l):
            return ("nop", no)
        if re.match(r"^(allocate|deallocate)\s*\(", l):
            if l.startswith("dealloc"):
                return ("nop", no)
            e = parse_expr(s, no)
            return ("alloc", no, e[2])
        # assignment
        p = EP(tokenize(s, no), no)
        k, v = p.next()
        if k != "name":
            self.err(no, "statement " + s)
        lhs = p.suffix(v)
        if not p.accept("="):
            self.err(no, "statement " + s)
        rhs = p.expr()
        if p.peek()[0] != "eof":
            self.err(no, "trailing tokens in " + s)
        return ("assign", no, lhs, rhs)

    def block(self, enders):
        out = []
        while True:
            if self.i >= len(self.lines):
                raise FortranError("unterminated block")
            no, s = self.lines[self.i]
            l = s.lower()
            if l.startswith("!f2py"):
                self.i += 1
                continue
            for e in enders:
                if re.match(e, l):
                    return out, no, s
            out.append(self.statement())

    def if_block(self, no, cond):
        arms = []
        els = []
        cur = parse_expr(cond, no)
        self.i += 1
        while True:
            body, n2, s = self.block([r"^else\s*if\s*\(", r"^else(\s+\w+)?$", r"^end\s*if\b"])
            l = s.lower()
            if cur is not None:
                arms.append((cur, body))
            else:
                els = body
            self.i += 1
            if re.match(r"^end\s*if", l):
                return ("if", no, arms, els)
            if re.match(r"^else\s*if", l):
                j = match_paren(s, s.index("("))
                cur = parse_expr(s[s.index("(") + 1:j], n2)
            else:
                cur = None

    def concurrent(self, no, head, body):
        heads, mask = [], []
        for x in split_top(re.sub(r"^\s*integer\s*(\([^)]*\))?\s*::", "", head, flags=re.I)):
            mm = re.match(r"^\s*(\w+)\s*=\s*(.*)$", x)
            if mm and not mm.group(2).startswith("="):
                b = split_top(mm.group(2), ":")
                heads.append(("for", mm.group(1).lower(), [parse_expr(y, no) for y in b]))
            else:
                mask.append(parse_expr(x, no))
        if body is None:
            self.i += 1
            body, n2, e = self.block([r"^end\s*(do|forall)\b"])
            self.i += 1
        if mask:
            body = [("if", no, [(mask[0], body)], [])]
        for h in reversed(heads):
            body = [("do", no, h, body, None)]
        return body[0]

    def do_block(self, no, s, label=None):
        m = re.match(r"^do\s+(\w+)\s*=\s*(.*)$", s, re.I)
        if m:
            parts = split_top(m.group(2))
            head = ("for", m.group(1).lower(), [parse_expr(x, no) for x in parts])
        elif re.match(r"^do\s+while\s*\(", s, re.I):
            head = ("while", parse_expr(s[s.index("(") + 1:s.rindex(")")], no))
        elif re.match(r"^do\s*$", s, re.I):
            head = ("forever",)
        elif re.match(r"^do\s+concurrent\s*\(", s, re.I):
            mm = re.match(r"^do\s+concurrent\s*\(\s*(\w+)\s*=\s*(.*):(.*)\)$", s, re.I)
            head = ("for", mm.group(1).lower(), [parse_expr(mm.group(2), no), parse_expr(mm.group(3), no)])
        else:
            self.err(no, "do form " + s)
        self.i += 1
        body, n2, e = self.block([r"^end\s*do\b"])
        self.i += 1
        return ("do", no, head, body, label)

    def where_block(self, no, cond):
        arms = []
        els = None
        cur = cond
        self.i += 1
        while True:
            body, n2, s = self.block([r"^else\s*where\b", r"^end\s*where\b"])
            if cur is not None:
                arms.append((cur, body))
            else:
                els = body
            self.i += 1
            l = s.lower()
            if re.match(r"^end\s*where", l):
                return ("where", no, arms, els)
            if "(" in s:
                cur = parse_expr(s[s.index("(") + 1:s.rindex(")")], n2)
            else:
                cur = None

    def select_block(self, no, s):
        e = parse_expr(s[s.index("(") + 1:s.rindex(")")], no)
        self.i += 1
        cases = []
        _, n2, s2 = self.block([r"^case\b"])
        while True:
            m = re.match(r"^case\s*(default|\((.*)\))", s2, re.I)
            if m.group(1).lower() == "default":
                cur = None
            else:
                cur = EP(tokenize("x(" + m.group(2) + ")", n2), n2).expr()[2]
            self.i += 1
            body, n2, s2 = self.block([r"^case\b", r"^end\s*select\b"])
            cases.append((cur, body))
            if re.match(r"^end\s*select", s2.lower()):
                self.i += 1
                return ("select", no, e, cases)


def parse_file(path):
    with open(path) as f:
        return Parser(f.read(), path).parse()


# ------------------------------------------------------------------ abstract interpreter
class Num(Node):
    """typed constant: kind 'i', 'r4' or 'r8' (so that integer division and single precision are modelled)"""
    __slots__ = ("kind",)


def r4(q):
    return Fraction(struct.unpack("f", struct.pack("f", float(q)))[0])


def typed(q, kind):
    n = const(q)
    return TC(n, kind)


class TC:
    """typed constant wrapper, only lives inside expression evaluation"""
    __slots__ = ("n", "kind")

    def __init__(self, n, kind):
        self.n = n
        self.kind = kind


class _Ret(Exception):
    pass


class _Exit(Exception):
    pass


class _Cycle(Exception):
    pass


def is_arr(x):
    return isinstance(x, np.ndarray)


def oarr(shape):
    a = np.empty(shape, dtype=object)
    a[...] = None
    it = undef("uninitialised")
    a.fill(it)
    return a


def vmap(f, *args):
    if any(is_arr(a) for a in args):
        args = np.broadcast_arrays(*[np.asarray(a, dtype=object) if not is_arr(a) else a for a in args])
        out = np.empty(args[0].shape, dtype=object)
        for idx in np.ndindex(out.shape):
            out[idx] = f(*[a[idx] for a in args])
        return out
    return f(*args)


def val(x):
    """to Node / bool / array"""
    if isinstance(x, TC):
        return x.n
    return x


def toint(x):
    x = val(x)
    if isinstance(x, Node):
        if x.q is None or x.q.denominator != 1:
            raise Unsupported("non-constant integer in Fortran index")
        return int(x.q)
    return int(x)


class Array1:
    """array with lower bounds"""
    __slots__ = ("a", "lb")

    def __init__(self, a, lb):
        self.a = a
        self.lb = lb


INTRIN1 = {"sin": core.sin, "cos": core.cos, "tan": core.tan, "exp": core.exp, "log": core.log, "sqrt": core.sqrt,
           "asin": core.asin, "acos": core.acos, "atan": core.atan, "abs": core.absv,
           "dsin": core.sin, "dcos": core.cos, "dsqrt": core.sqrt, "dexp": core.exp, "dabs": core.absv,
           "sinh": lambda x: (core.exp(x) - core.exp(-x)) / 2, "cosh": lambda x: (core.exp(x) + core.exp(-x)) / 2,
           "tanh": lambda x: (core.exp(x) - core.exp(-x)) / (core.exp(x) + core.exp(-x)),
           "log10": lambda x: core.func("log10", x)}


class FInterp:
    def __init__(self, units, fname):
        self.units = units
        self.fname = fname
        self.calls = []
        self.nstmt = 0
        self.assigned_at = {}

    # ---- public: call with python-level dict of inputs; returns dict of final values of all dummies
    def call(self, name, inputs, dims=None):
        u = self.units[name]
        fr = Frame(self, u)
        for a in u.args:
            if a in inputs:
                fr.bind_value(a, inputs[a])
        fr.run()
        return fr

    def run_unit(self, u, actuals, caller):
        fr = Frame(self, u)
        for a, x in zip(u.args, actuals):
            if x is not None:
                fr.bind_actual(a, x)
        fr.run()
        return fr


class Scope(dict):
    """names of a unit; those it does not declare belong to the unit that contains it"""

    def __init__(self, outer=None, own=()):
        dict.__init__(self)
        self.outer = outer
        self.own = own

    def __contains__(self, k):
        return dict.__contains__(self, k) or (k not in self.own and self.outer is not None and k in self.outer)

    def __missing__(self, k):
        if k not in self.own and self.outer is not None:
            return self.outer[k]
        raise KeyError(k)

    def get(self, k, d=None):
        return self[k] if k in self else d

    def __setitem__(self, k, v):
        if not dict.__contains__(self, k) and k not in self.own and self.outer is not None and k in self.outer:
            self.outer[k] = v
        else:
            dict.__setitem__(self, k, v)


class Frame:
    def __init__(self, it, u, parent=None):
        self.it = it
        self.u = u
        self.parent = parent
        self.decls = Scope(parent.decls if parent else None, set(u.decls))
        self.decls.update(u.decls)
        self.env = {}
        self.copyback = []
        self.local_units = dict(parent.local_units if parent else it.units)
        self.local_units.update(u.contains)

    def kind_of(self, typ):
        if typ.startswith("kind:"):
            k = typ[5:]
            if k in self.decls and self.decls[k].init is not None:
                e = self.decls[k].init
            else:
                e = parse_expr(k, 0)
            return self.kindexpr(e)
        return typ

    def kindexpr(self, e):
        # kind(0.d0), 8, selected_real_kind(15,...), real64
        if e[0] == "num":
            return "r8" if e[1].startswith("8") else "r4" if e[1].startswith("4") else "r8"
        if e[0] == "ref" and e[1][1] == "kind":
            t = e[2][0]
            if t[0] == "num":
                return self.numkind(t[1])
        if e[0] == "ref" and e[1][1] == "selected_real_kind":
            return "r8" if int(e[2][0][1]) > 6 else "r4"
        if e[0] == "name" and e[1] in ("real64", "c_double") and e[1] not in self.decls:
            return "r8"
        if e[0] == "name" and e[1] in ("real32", "c_float") and e[1] not in self.decls:
            return "r4"
        if e[0] == "name" and e[1] in self.decls and self.decls[e[1]].init == e:
            return "r4" if e[1] in ("real32", "c_float") else "r8"
        if e[0] == "name" and e[1] in self.decls and self.decls[e[1]].init is not None:
            return self.kindexpr(self.decls[e[1]].init)
        raise Unsupported("kind expression")

    def numkind(self, t):
        t = t.lower()
        if "_" in t:
            k = t.split("_", 1)[1]
            if "." not in t and "e" not in t.split("_")[0] and "d" not in t.split("_")[0]:
                return "i"
            return self.kind_of("kind:" + k)
        if "d" in t:
            return "r8"
        if "." in t or "e" in t:
            return "r4"
        return "i"

    # ---- binding
    def decl(self, name):
        d = self.decls.get(name)
        if d is None:
            raise Unsupported("%s: implicit variable %s" % (self.u.name, name))
        return d

    def bind_value(self, name, x):
        self.env[name] = x

    def bind_actual(self, name, x):
        """x: ('val', v) or ('var', get, set, view)"""
        self.env[name] = x

    def dimshape(self, d):
        shp, lb = [], []
        for lo, hi in d.dims:
            l = toint(self.ev(lo))
            lb.append(l)
            if hi is None:
                shp.append(None)
            else:
                shp.append(max(0, toint(self.ev(hi)) - l + 1))
        return shp, lb

    def prepare(self):
        u = self.u
        raw = self.env
        self.env = Scope(self.parent.env if self.parent else None, set(u.decls) | set(u.args))
        # parameters and scalar dummies first
        names = list(u.order)
        for a in u.args:
            if a not in u.decls:
                raise Unsupported("%s: undeclared dummy %s" % (u.name, a))
        for n in names:
            d = u.decls[n]
            if d.param and d.init is not None:
                if d.typ == "i" and d.init[0] == "ref" and d.init[1][1] in ("kind", "selected_real_kind"):
                    self.env[n] = const(8)
                    continue
                if d.init[0] == "name" and d.init[1] in ("real64", "real32", "c_double", "c_float", "int32", "int64", "c_int"):
                    self.env[n] = const(8 if d.init[1] in ("real64", "c_double", "int64") else 4)
                    continue
                self.env[n] = val(self.coerce(self.ev(d.init), self.kind_of(d.typ)))
        for n in u.args:
            d = u.decls[n]
            if d.dims is None and n in raw:
                self.env[n] = raw[n]
        for n in u.args:
            d = u.decls[n]
            if d.dims is not None:
                shp, lb = self.dimshape(d)
                if n in raw:
                    a = raw[n]
                    if not is_arr(a):
                        raise Unsupported("%s: scalar passed for array %s" % (u.name, n))
                    want = tuple(s if s is not None else a.shape[i] if i < a.ndim else None for i, s in
                                 enumerate(shp))
                    if a.shape != want:
                        if a.size == int(np.prod(want)) or (a.ndim == 1 and len(want) == 1 and a.size >= want[0]):
                            if a.ndim == 1 and len(want) == 1:
                                a = a[:want[0]]
                            else:
                                raise Unsupported("%s: sequence association for %s" % (u.name, n))
                        else:
                            raise ShapeMismatch("%s: argument %s has shape %s, declared %s" % (
                                u.name, n, a.shape, want))
                    self.env[n] = Array1(a, lb)
                else:
                    self.env[n] = Array1(oarr(shp), lb)
            elif n not in raw:
                self.env[n] = undef("uninitialised " + n)
        for n in names:
            d = u.decls[n]
            if n in self.env:
                continue
            if d.dims is not None:
                shp, lb = self.dimshape(d)
                if None in shp:
                    self.env[n] = None
                else:
                    self.env[n] = Array1(oarr(shp), lb)
            else:
                self.env[n] = undef("uninitialised " + n)
            if d.init is not None and not d.param:
                self.store_name(n, self.ev(d.init))

    def run(self):
        c = core.CTX
        c.site.append((self.it.fname, self.u.line))
        try:
            self.prepare()
            try:
                self.block(self.u.body)
            except _Ret:
                pass
        finally:
            c.site.pop()

    def get(self, name):
        x = self.env[name]
        return x.a if isinstance(x, Array1) else x

    # ---- statements
    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.it.nstmt += 1
        k = s[0]
        c = core.CTX
        c.site[-1] = (self.it.fname, s[1])
        if k == "assign":
            self.assign(s[2], self.ev(s[3]))
        elif k == "if":
            for cond, body in s[2]:
                c.site[-1] = (self.it.fname, s[1])
                if self.truth(self.ev(cond)):
                    self.block(body)
                    return
            self.block(s[3])
        elif k == "do":
            self.do(s)
        elif k == "call":
            self.call_stmt(s[2], s[3])
        elif k == "where":
            self.where(s)
        elif k == "select":
            x = val(self.ev(s[2]))
            for lst, body in s[3]:
                if lst is None:
                    continue
                for it in lst:
                    if it[0] == "sec":
                        ok = True
                        if it[1] is not None:
                            ok = ok and toint(self.ev(it[1])) <= toint(x)
                        if it[2] is not None:
                            ok = ok and toint(x) <= toint(self.ev(it[2]))
                    else:
                        y = val(self.ev(it))
                        ok = (x == y)
                    if ok:
                        self.block(body)
                        return
            for lst, body in s[3]:
                if lst is None:
                    self.block(body)
        elif k == "associate":
            self.associate(s)
        elif k == "block":
            B = s[2]
            keep = {n: (self.env.get(n), self.decls.get(n), n in self.env) for n in B.decls}
            for n, d in B.decls.items():
                self.decls[n] = d
                if d.param:
                    dict.__setitem__(self.env, n, val(self.coerce(self.ev(d.init), self.kind_of(d.typ))))
                elif d.dims is not None:
                    shp, lb = self.dimshape(d)
                    dict.__setitem__(self.env, n, Array1(oarr(shp), lb))
                else:
                    dict.__setitem__(self.env, n, undef("uninitialised " + n))
                    if d.init is not None:
                        self.store_name(n, self.ev(d.init))
            try:
                self.block(s[3])
            finally:
                self.restore(keep)
        elif k == "return":
            raise _Ret()
        elif k == "exit":
            raise _Exit(s[2])
        elif k == "cycle":
            raise _Cycle(s[2])
        elif k == "alloc":
            for e in s[2]:
                if e[0] == "kw":
                    continue
                n = e[1][1]
                shp = [toint(self.ev(a)) if a[0] != "sec" else toint(self.ev(a[2])) - toint(self.ev(a[1])) + 1
                       for a in e[2]]
                lb = [1 if a[0] != "sec" else toint(self.ev(a[1])) for a in e[2]]
                self.env[n] = Array1(oarr(shp), lb)
        elif k in ("nop", "continue"):
            pass
        else:
            raise Unsupported("statement " + k)

    def restore(self, keep):
        for n, (x, d, there) in keep.items():
            dict.pop(self.env, n, None)
            dict.pop(self.decls, n, None)
            if there and n not in self.env:
                dict.__setitem__(self.env, n, x)
            if d is not None and n not in self.decls:
                dict.__setitem__(self.decls, n, d)

    def associate(self, s):
        new, back = {}, []
        for n, e in s[2]:
            var = e[0] in ("name", "ref") and self.is_var(e)
            typ = "r8"
            if var:
                b = e[1] if e[0] == "name" else e[1][1]
                typ = self.kind_of(self.decls[b].typ) if b in self.decls else "r8"
                x = self.lvalue(e)
            else:
                x = self.ev(e)
                typ = x.kind if isinstance(x, TC) else "l" if isinstance(x, bool) else "r8"
                x = val(x)
            d = Decl(typ)
            if is_arr(x):
                d.dims = [(("num", "1"), None)] * x.ndim
                x = Array1(x, [1] * x.ndim)
            elif var:
                back.append((n, e, x))
            new[n] = (x, d)
        keep = {n: (self.env.get(n), self.decls.get(n), n in self.env) for n in new}
        for n, (x, d) in new.items():
            dict.__setitem__(self.env, n, x)
            dict.__setitem__(self.decls, n, d)
        out = {}
        try:
            self.block(s[3])
        finally:
            out = {n: self.env[n] for n in new}
            self.restore(keep)
            for n, e, x in back:
                if out[n] is not x:
                    self.assign(e, out[n])

    def truth(self, x):
        x = val(x)
        if isinstance(x, (bool, np.bool_)):
            return bool(x)
        if isinstance(x, Node):
            if x.q is not None:
                return x.q != 0
            raise Unsupported("symbolic logical")
        raise Unsupported("logical value %r" % (x,))

    def do(self, s):
        head, body = s[2], s[3]
        if head[0] == "for":
            b = [toint(self.ev(e)) for e in head[2]]
            st = b[2] if len(b) > 2 else 1
            if st == 0:
                raise Unsupported("zero stride")
            n = max(0, (b[1] - b[0] + st) // st)
            i = b[0]
            for _ in range(n):
                self.env[head[1]] = const(i)
                try:
                    self.block(body)
                except _Cycle as e:
                    if e.args[0] not in (None, s[4]):
                        raise
                except _Exit as e:
                    if e.args[0] not in (None, s[4]):
                        raise
                    return
                i += st
            self.env[head[1]] = const(i)
            return
        cnt = 0
        while head[0] == "forever" or self.truth(self.ev(head[1])):
            cnt += 1
            if cnt > 500:
                raise Unsupported("loop bound")
            try:
                self.block(body)
            except _Cycle as e:
                if e.args[0] not in (None, s[4]):
                    raise
            except _Exit as e:
                if e.args[0] not in (None, s[4]):
                    raise
                return

    def where(self, s):
        arms, els = s[2], s[3]
        pending = None
        masks = []
        for cond, body in arms:
            m = self.ev(cond)
            if not is_arr(m):
                raise Unsupported("scalar WHERE mask")
            m = np.array([[bool(x)] for x in m.ravel()], dtype=bool).reshape(m.shape)
            act = m if pending is None else (m & pending)
            pending = (~m) if pending is None else (pending & ~m)
            for st in body:
                self.masked(st, act)
        if els:
            for st in els:
                self.masked(st, pending)

    def masked(self, st, mask):
        if st[0] != "assign":
            raise Unsupported("statement inside WHERE")
        self.it.nstmt += 1
        tgt = self.lvalue(st[2])
        # evaluate right-hand side; undefined values outside the mask are harmless
        v = val(self.ev(st[3]))
        v = np.broadcast_to(v if is_arr(v) else np.array(v, dtype=object), mask.shape)
        for idx in np.ndindex(mask.shape):
            if mask[idx]:
                tgt[idx] = v[idx]

    def call_stmt(self, name, args):
        if name not in self.local_units:
            raise Unsupported("call of unknown subroutine " + name)
        u = self.local_units[name]
        self.invoke(u, args)

    def invoke(self, u, args):
        self.it.calls.append((self.u.name, u.name))
        pos = [a for a in args if a[0] != "kw"]
        kws = {a[1]: a[2] for a in args if a[0] == "kw"}
        fr = Frame(self.it, u, self.owner(u))
        back = []
        for i, dn in enumerate(u.args):
            if i < len(pos):
                e = pos[i]
            elif dn in kws:
                e = kws[dn]
            else:
                continue
            d = u.decls.get(dn)
            if d is None:
                raise Unsupported("undeclared dummy " + dn)
            if e[0] in ("name", "ref") and self.is_var(e):
                if d.dims is not None:
                    view = self.lvalue(e, whole=True)
                    if not is_arr(view):
                        raise Unsupported("array element passed to array dummy")
                    fr.env[dn] = view        # numpy view: modifications are seen by the caller
                else:
                    v = val(self.ev(e))
                    if is_arr(v):
                        raise Unsupported("array passed for scalar dummy")
                    fr.env[dn] = v
                    if d.intent != "in":
                        back.append((e, dn))
            else:
                v = val(self.ev(e))
                fr.env[dn] = v
        fr.run()
        for e, dn in back:
            self.assign(e, fr.env[dn])
        return fr

    def owner(self, u):
        f = self
        while f is not None and f.u.contains.get(u.name) is not u:
            f = f.parent
        return f

    def is_var(self, e):
        n = e[1] if e[0] == "name" else e[1][1]
        return n in self.env and not (e[0] == "ref" and n not in self.env)

    # ---- lvalues
    def lvalue(self, e, whole=False):
        if e[0] == "name":
            x = self.env.get(e[1])
            if isinstance(x, Array1):
                return x.a
            return x
        if e[0] == "ref":
            x = self.env.get(e[1][1])
            if not isinstance(x, Array1):
                raise Unsupported("subscript of non-array " + e[1][1])
            return x.a[self.index(x, e[2])]
        raise Unsupported("lvalue")

    def index(self, x, args):
        if len(args) != x.a.ndim:
            raise Unsupported("rank mismatch")
        out = []
        for d, a in enumerate(args):
            n = x.a.shape[d]
            lb = x.lb[d]
            if a[0] == "sec":
                st = toint(self.ev(a[3])) if a[3] is not None else 1
                if st > 0:
                    lo = toint(self.ev(a[1])) - lb if a[1] is not None else 0
                    hi = toint(self.ev(a[2])) - lb if a[2] is not None else n - 1
                    if hi >= lo and (lo < 0 or hi >= n):
                        raise OutOfBounds("%s:%d section %d:%d of dimension %d" % (
                            core.CTX.where() + (lo + lb, hi + lb, n)))
                    out.append(slice(lo, max(lo, hi + 1), st))
                else:
                    lo = toint(self.ev(a[1])) - lb if a[1] is not None else n - 1
                    hi = toint(self.ev(a[2])) - lb if a[2] is not None else 0
                    out.append(slice(lo, hi - 1 if hi > 0 else None, st))
            else:
                v = val(self.ev(a))
                if is_arr(v):
                    out.append(np.array([toint(t) - lb for t in v]))
                else:
                    i = toint(v) - lb
                    if i < 0 or i >= n:
                        raise OutOfBounds("%s:%d index %d outside 1..%d" % (core.CTX.where() + (i + lb, n)))
                    out.append(i)
        return tuple(out)

    def coerce(self, v, kind):
        if isinstance(v, TC):
            q = v.n.q
            if q is not None:
                if kind == "i" and v.kind != "i":
                    return const(int(q))
                if kind == "r4" and v.kind == "r8":
                    return const(r4(q))
            return v.n
        if kind == "i":
            v = val(v)
            if isinstance(v, Node) and v.q is not None and v.q.denominator != 1:
                return const(int(v.q))
        return v

    def store_name(self, n, v):
        x = self.env.get(n)
        kind = self.kind_of(self.decl(n).typ) if n in self.decls else "r8"
        v = self.coerce(v, kind)
        if isinstance(x, Array1):
            if is_arr(v):
                if v.shape != x.a.shape:
                    raise ShapeMismatch("%s:%d: assignment of shape %s to %s%s" % (
                        core.CTX.where() + (v.shape, n, x.a.shape)))
                x.a[...] = v.copy()
            else:
                x.a[...] = np.array(v, dtype=object)
                x.a.fill(v)
        else:
            if is_arr(v):
                d = self.decls.get(n)
                if d is not None and d.dims is not None:
                    self.env[n] = Array1(v.copy(), [1] * v.ndim)
                    return
                raise Unsupported("array assigned to scalar " + n)
            self.env[n] = v

    def assign(self, lhs, v):
        if lhs[0] == "name":
            if lhs[1] not in self.env and lhs[1] not in self.decls:
                raise Unsupported("assignment to undeclared " + lhs[1])
            d = self.decls.get(lhs[1])
            if d is not None and d.intent == "in":
                raise Unsupported("assignment to intent(in) " + lhs[1])
            self.store_name(lhs[1], v)
            return
        n = lhs[1][1]
        x = self.env.get(n)
        if not isinstance(x, Array1):
            raise Unsupported("subscripted assignment to " + n)
        idx = self.index(x, lhs[2])
        v = self.coerce(v, self.kind_of(self.decl(n).typ))
        v = val(v)
        tgt = x.a[idx]
        if is_arr(tgt):
            if is_arr(v):
                if v.shape != tgt.shape:
                    raise ShapeMismatch("%s:%d: shape %s assigned to section of shape %s" % (
                        core.CTX.where() + (v.shape, tgt.shape)))
                x.a[idx] = v.copy()
            else:
                tmp = np.empty(tgt.shape, dtype=object)
                tmp.fill(v)
                x.a[idx] = tmp
        else:
            if is_arr(v):
                raise ShapeMismatch("%s:%d: array assigned to element" % core.CTX.where())
            x.a[idx] = v

    # ---- expressions
    def ev(self, e):
        k = e[0]
        if k == "num":
            t = e[1].lower()
            kind = self.numkind(t)
            body = t.split("_")[0].replace("d", "e")
            if kind == "i":
                return TC(const(int(body)), "i")
            f = float(body)
            if abs(f - 3.141592653589793) < 1e-15 and kind == "r8":
                return core.PI()
            q = Fraction(body)
            if kind == "r4":
                q = r4(q) if r4(q) != q else q
            return TC(const(q), kind)
        if k == "paren":
            return self.ev(e[1])
        if k == "bool":
            return e[1]
        if k == "str":
            return e[1]
        if k == "name":
            n = e[1]
            if n in self.env:
                x = self.env[n]
                if isinstance(x, Array1):
                    return x.a
                d = self.decls.get(n)
                if d is not None and isinstance(x, Node) and x.q is not None:
                    kd = self.kind_of(d.typ)
                    if kd in ("i", "r4", "r8"):
                        return TC(x, kd)
                return x
            if n in self.local_units and not self.local_units[n].args:
                return self.call_fn(n, [])
            raise Unsupported("unknown name %s in %s" % (n, self.u.name))
        if k == "neg":
            v = self.ev(e[1])
            if isinstance(v, TC):
                return TC(const(-v.n.q), v.kind)
            return vmap(core.neg, v)
        if k == "not":
            v = self.ev(e[1])
            if is_arr(v):
                return vmap(lambda x: not x, v)
            return not self.truth(v)
        if k == "bin":
            return self.binop(e)
        if k == "array":
            items = []
            for it in e[1]:
                if it[0] == "implied":
                    lo, hi, st = toint(self.ev(it[3])), toint(self.ev(it[4])), toint(self.ev(it[5]))
                    for i in range(lo, hi + (1 if st > 0 else -1), st):
                        self.env[it[2]] = const(i)
                        items.append(val(self.ev(it[1])))
                else:
                    v = val(self.ev(it))
                    items.extend(list(v.ravel()) if is_arr(v) else [v])
            a = np.empty(len(items), dtype=object)
            for i, v in enumerate(items):
                a[i] = v
            return a
        if k == "ref":
            return self.ref(e)
        raise Unsupported("expression " + k)

    def binop(self, e):
        o = e[1]
        if o == ".and.":
            a = self.ev(e[2])
            if is_arr(a):
                return vmap(lambda x, y: bool(x) and bool(y), a, self.lift_l(self.ev(e[3])))
            if not self.truth_or_arr(a):
                b = None
                try:
                    b = self.ev(e[3])
                except Unsupported:
                    return False
                if is_arr(b):
                    return vmap(lambda y: False, b)
                return False
            b = self.ev(e[3])
            return vmap(lambda y: bool(y), b) if is_arr(b) else self.truth(b)
        if o == ".or.":
            a = self.ev(e[2])
            if is_arr(a):
                return vmap(lambda x, y: bool(x) or bool(y), a, self.lift_l(self.ev(e[3])))
            if self.truth(a):
                return True
            b = self.ev(e[3])
            return vmap(lambda y: bool(y), b) if is_arr(b) else self.truth(b)
        a, b = self.ev(e[2]), self.ev(e[3])
        if o in (".eqv.", ".neqv."):
            r = self.truth(a) == self.truth(b)
            return r if o == ".eqv." else not r
        if o in ("==", "/=", "<", "<=", ">", ">="):
            c = core.CTX
            old = c.site[-1]
            c.site[-1] = old[:2] + (id(e),)
            r = vmap(lambda x, y: self.cmp(o, x, y), val(a), val(b))
            c.site[-1] = old
            return r
        if isinstance(a, TC) and isinstance(b, TC):
            return self.fold(o, a, b)
        fn = {"+": core.add, "-": core.sub, "*": core.mul, "/": core.div, "**": core.power}[o]
        a, b = val(a), val(b)
        if is_arr(a) and is_arr(b) and a.shape != b.shape:
            raise ShapeMismatch("%s:%d: operands of shape %s and %s" % (core.CTX.where() + (a.shape, b.shape)))
        return vmap(fn, a, b)

    def truth_or_arr(self, a):
        return self.truth(a)

    def lift_l(self, b):
        return b

    def cmp(self, o, x, y):
        if isinstance(x, str) or isinstance(y, str):
            return {"==": x == y, "/=": x != y}[o]
        x, y = lift(x), lift(y)
        if o == "==":
            return x == y
        if o == "/=":
            return x != y
        return {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y}[o]

    def fold(self, o, a, b):
        x, y = a.n.q, b.n.q
        if a.kind == "i" and b.kind == "i":
            if o == "/":
                if y == 0:
                    return undef("integer division by zero")
                r = abs(x) // abs(y)
                return TC(const(r if (x < 0) == (y < 0) else -r), "i")
            if o == "**":
                if y >= 0:
                    return TC(const(x ** int(y)), "i")
                return TC(const(int(Fraction(1) / x ** int(-y)) if x else 0), "i")
            return TC(const({"+": x + y, "-": x - y, "*": x * y}[o]), "i")
        kind = "r8" if "r8" in (a.kind, b.kind) else "r4"
        n = {"+": core.add, "-": core.sub, "*": core.mul, "/": core.div, "**": core.power}[o](a.n, b.n)
        if n.q is None:
            return n
        if kind == "r4":
            # single precision arithmetic: inexact results are rounded
            f = r4(n.q)
            return TC(const(f), "r4")
        return TC(n, kind)

    def ref(self, e):
        base = e[1]
        if base[0] != "name":
            raise Unsupported("nested reference")
        n = base[1]
        if n in self.env and isinstance(self.env[n], Array1):
            x = self.env[n]
            v = x.a[self.index(x, e[2])]
            return v
        if n in self.local_units:
            return self.call_fn(n, e[2])
        return self.intrinsic(n, e[2])

    def call_fn(self, n, args):
        u = self.local_units[n]
        if u.kind != "function":
            raise Unsupported("subroutine used as function")
        vals = {}
        for i, a in enumerate(args):
            dn, e = (a[1], a[2]) if a[0] == "kw" else (u.args[i], a)
            if dn in u.decls and u.decls[dn].dims is None:
                vals[dn] = val(self.ev(e))
        shp = [v.shape for v in vals.values() if is_arr(v)]
        if shp:
            # elemental
            out = np.empty(shp[0], dtype=object)
            for ix in np.ndindex(shp[0]):
                self.it.calls.append((self.u.name, u.name))
                fr = Frame(self.it, u, self.owner(u))
                for dn, v in vals.items():
                    fr.env[dn] = v[ix] if is_arr(v) else v
                fr.run()
                out[ix] = fr.get(u.result)
            return out
        fr = self.invoke(u, args)
        return fr.get(u.result)

    def intrinsic(self, n, args):
        kws = {a[1]: a[2] for a in args if a[0] == "kw"}
        pos = [a for a in args if a[0] != "kw"]
        if n in INTRIN1:
            return vmap(lambda x: INTRIN1[n](lift(x)), val(self.ev(pos[0])))
        if n in ("atan2", "datan2"):
            return vmap(lambda y, x: core.atan2(lift(y), lift(x)), val(self.ev(pos[0])), val(self.ev(pos[1])))
        if n in ("real", "dble", "float", "dfloat", "sngl"):
            v = self.ev(pos[0])
            kind = "r8" if n.startswith("d") or len(pos) > 1 or "kind" in kws else "r4"
            if isinstance(v, TC):
                return TC(v.n if kind == "r8" else const(r4(v.n.q)), kind)
            return v
        if n in ("int", "nint", "floor", "ceiling"):
            v = val(self.ev(pos[0]))

            def f(x):
                x = lift(x)
                if x.q is not None:
                    import math
                    q = x.q
                    return const({"int": int(q), "nint": int(q + Fraction(1, 2)) if q >= 0 else -int(-q + Fraction(1, 2)),
                                  "floor": math.floor(q), "ceiling": math.ceil(q)}[n])
                return core.func("f_" + n, x)
            r = vmap(f, v)
            return r if is_arr(r) or r.q is None else TC(r, "i")
        if n in ("min", "max", "amin1", "amax1", "dmin1", "dmax1"):
            vs = [self.ev(a) for a in pos]
            r = val(vs[0])
            f = core.minv if "min" in n else core.maxv
            for v in vs[1:]:
                r = vmap(lambda a, b: f(lift(a), lift(b)), r, val(v))
            if all(isinstance(v, TC) and v.kind == "i" for v in vs):
                return TC(r, "i")
            return r
        if n in ("sum", "product", "maxval", "minval"):
            a = val(self.ev(pos[0]))
            ax = None
            mask = None
            if len(pos) > 1:
                ax = toint(self.ev(pos[1])) - 1
            if "dim" in kws:
                ax = toint(self.ev(kws["dim"])) - 1
            if "mask" in kws:
                mask = self.ev(kws["mask"])
            f = {"sum": core.add, "product": core.mul, "maxval": core.maxv, "minval": core.minv}[n]

            def red(v):
                v = list(v)
                if not v:
                    return const(0 if n == "sum" else 1)
                r = lift(v[0])
                for x in v[1:]:
                    r = f(r, lift(x))
                return r
            if mask is not None:
                return red([x for x, m in zip(a.ravel(), np.asarray(mask).ravel()) if m])
            if ax is None:
                return red(a.ravel())
            return np.apply_along_axis(lambda v: red(v), ax, a)
        if n == "dot_product":
            a, b = val(self.ev(pos[0])), val(self.ev(pos[1]))
            r = const(0)
            for x, y in zip(a, b):
                r = core.add(r, core.mul(lift(x), lift(y)))
            return r
        if n == "hypot":
            return vmap(lambda x, y: core.sqrt(core.add(core.mul(lift(x), lift(x)), core.mul(lift(y), lift(y)))), val(self.ev(pos[0])),
                        val(self.ev(pos[1])))
        if n == "norm2":
            r = const(0)
            for x in np.ravel(val(self.ev(pos[0]))):
                r = core.add(r, core.mul(lift(x), lift(x)))
            return core.sqrt(r)
        if n == "dim":
            return vmap(lambda x, y: core.maxv(core.sub(lift(x), lift(y)), const(0)), val(self.ev(pos[0])), val(self.ev(pos[1])))
        if n == "count":
            return TC(const(sum(bool(self.truth(x)) for x in np.asarray(self.ev(pos[0])).ravel())), "i")
        if n in ("cshift", "eoshift"):
            a, k = val(self.ev(pos[0])), toint(self.ev(pos[1] if len(pos) > 1 else kws["shift"]))
            if a.ndim != 1:
                raise Unsupported(n + " of a matrix")
            r = np.roll(a, -k)
            if n == "eoshift":
                fillv = val(self.ev(pos[2] if len(pos) > 2 else kws["boundary"])) if len(pos) > 2 or "boundary" in kws else const(0)
                for j in range(min(abs(k), len(r))):
                    r[len(r) - 1 - j if k > 0 else j] = fillv
            return r
        if n == "reshape":
            a, sh = val(self.ev(pos[0])), [toint(x) for x in val(self.ev(pos[1]))]
            return np.reshape(np.ravel(a, order="F"), sh, order="F")
        if n == "shape":
            return oarr_of([const(x) for x in val(self.ev(pos[0])).shape])
        if n in ("lbound", "ubound") and pos[0][0] == "name":
            x = self.env[pos[0][1]]
            k = toint(self.ev(pos[1])) - 1 if len(pos) > 1 else 0
            return TC(const(x.lb[k] + (x.a.shape[k] - 1 if n == "ubound" else 0)), "i")
        if n == "matmul":
            a, b = val(self.ev(pos[0])), val(self.ev(pos[1]))
            return np.dot(a, b)
        if n == "transpose":
            return val(self.ev(pos[0])).T.copy()
        if n == "merge":
            m = self.ev(pos[2])
            return vmap(lambda x, y, t: lift(x) if self.truth(t) else lift(y), val(self.ev(pos[0])),
                        val(self.ev(pos[1])), m)
        if n == "sign":
            return vmap(lambda x, y: (core.absv(lift(x)) if core.le(const(0), lift(y)) else
                                      core.neg(core.absv(lift(x)))), val(self.ev(pos[0])), val(self.ev(pos[1])))
        if n in ("mod", "modulo"):
            a, b = self.ev(pos[0]), self.ev(pos[1])
            if isinstance(a, TC) and isinstance(b, TC):
                q = a.n.q - b.n.q * int(a.n.q / b.n.q)
                return TC(const(q), a.kind)
            return vmap(lambda x, y: core.func("mod", lift(x), lift(y)), val(a), val(b))
        if n == "size":
            a = val(self.ev(pos[0]))
            if len(pos) > 1:
                return TC(const(a.shape[toint(self.ev(pos[1])) - 1]), "i")
            return TC(const(a.size), "i")
        if n in ("any", "all"):
            a = np.asarray(self.ev(pos[0])).ravel()
            return any(self.truth(x) for x in a) if n == "any" else all(self.truth(x) for x in a)
        if n == "spread":
            a = val(self.ev(pos[0]))
            d = toint(self.ev(pos[1] if len(pos) > 1 else kws["dim"])) - 1
            c = toint(self.ev(pos[2] if len(pos) > 2 else kws["ncopies"]))
            return np.repeat(np.expand_dims(a, d), c, axis=d)
        if n in ("epsilon", "tiny"):
            return TC(const(Fraction(1, 2 ** 52) if n == "epsilon" else Fraction(1, 2 ** 1022)), "r8")
        if n == "huge":
            return TC(const(2 ** 1023), "r8")
        if n == "present":
            return not (isinstance(self.env.get(pos[0][1]), Node) and self.env[pos[0][1]].op == "undef")
        if n in ("isnan", "ieee_is_nan"):
            return False
        raise Unsupported("intrinsic or function " + n)


def oarr_of(v):
    a = np.empty(len(v), dtype=object)
    a[:] = v
    return a


class ShapeMismatch(Exception):
    pass


class OutOfBounds(Exception):
    pass


# ------------------------------------------------------------------ f2py binding model
class F2py:
    """signature of a wrapped routine as numpy.f2py derives it"""

    def __init__(self, u):
        self.u = u
        self.ins, self.outs = [], []
        dimvars = set()
        for a in u.args:
            d = u.decls[a]
            it = d.intent or "in"
            if it in ("out", "inout") or "out" in it:
                self.outs.append(a)
            if it != "out":
                self.ins.append(a)
        first = {}
        for a in self.ins:
            d = u.decls[a]
            if d.dims:
                for k, (lo, hi) in enumerate(d.dims):
                    if hi is not None and hi[0] == "name" and u.decls.get(hi[1]) is not None \
                            and u.decls[hi[1]].dims is None and hi[1] in u.args and hi[1] not in first:
                        first[hi[1]] = (a, k)
        self.dimfrom = first
        req = [a for a in self.ins if a not in first and a not in u.f2py_opt]
        opt = [a for a in self.ins if a in first or a in u.f2py_opt]
        self.required = req
        self.optional = opt

    def bind(self, args, kwargs):
        order = self.required + self.optional
        if len(args) > len(order):
            raise TypeError("%s() takes at most %d arguments (%d given)" % (self.u.name, len(order), len(args)))
        b = dict(zip(order, args))
        for k, v in kwargs.items():
            if k not in order:
                raise TypeError("%s() got an unexpected keyword argument %s" % (self.u.name, k))
            if k in b:
                raise TypeError("duplicate argument " + k)
            b[k] = v
        for a in self.required:
            if a not in b:
                raise TypeError("%s() missing required argument %s" % (self.u.name, a))
        # shape checks and dimension inference
        for dv, (a, k) in self.dimfrom.items():
            if dv not in b:
                x = b[a]
                if not is_arr(x):
                    x = np.atleast_1d(np.array(x, dtype=object))
                if x.ndim <= k:
                    raise ShapeError("%s: argument %s has too few dimensions" % (self.u.name, a))
                b[dv] = x.shape[k]
        for a in self.optional:
            if a not in b:
                v = self.u.f2py_opt.get(a)
                b[a] = int(v) if v is not None else 0
        return b


class ShapeError(Exception):
    pass


def call_wrapped(interp, name, args, kwargs):
    """model of calling the f2py wrapper: copies in, Fortran body, tuple of intent(out) results"""
    u = interp.units[name]
    w = F2py(u)
    b = w.bind(args, kwargs)
    fr = Frame(interp, u)
    for a, x in b.items():
        d = u.decls[a]
        if d.dims is not None:
            if not is_arr(x):
                x = np.array(x, dtype=object)
                if x.ndim == 0:
                    x = x.reshape(1)
            y = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                y[i] = lift(x[i])
            if y.ndim < len(d.dims):
                y = y.reshape((1,) * (len(d.dims) - y.ndim) + y.shape) if y.ndim == 0 else y
            fr.env[a] = y
        elif d.typ == "l":
            if isinstance(x, Node):
                x = x.q != 0 if x.q is not None else x
            if isinstance(x, Node):
                raise Unsupported("symbolic logical flag")
            fr.env[a] = bool(x)
        else:
            if is_arr(x):
                if x.size != 1:
                    raise ShapeError("%s: array passed for scalar argument %s" % (name, a))
                x = x.ravel()[0]
            fr.env[a] = lift(x)
    fr.run()
    res = []
    for o in w.outs:
        v = fr.get(o)
        res.append(v.copy() if is_arr(v) else v)
    return tuple(res) if len(res) != 1 else res[0]
