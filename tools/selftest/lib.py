import ast, re
R = {}
def method(src, cls, name, new):
    t = ast.parse(src); L = src.split("\n")
    for c in t.body:
        if isinstance(c, ast.ClassDef) and c.name == cls:
            for f in c.body:
                if isinstance(f, ast.FunctionDef) and f.name == name:
                    a = min([f.lineno] + [d.lineno for d in f.decorator_list]) - 1
                    return "\n".join(L[:a] + new.strip("\n").split("\n") + L[f.end_lineno:])
    raise SystemExit("no %s.%s" % (cls, name))
def ref(id, file, props, *edits):
    R[id] = (file, props, edits)
def apply(id, root):
    file, props, edits = R[id]
    for e in edits:
        f = file
        if len(e) == 4: f, e = e[0], e[1:]
        p = root + "/" + f
        s = open(p).read()
        if len(e) == 3: s = method(s, *e)
        else:
            n = s.count(e[0])
            if n == 0: raise SystemExit("%s: no match %r" % (id, e[0][:60]))
            s = s.replace(e[0], e[1])
        open(p, "w").write(s)
