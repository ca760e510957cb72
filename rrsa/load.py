"""Parse /repo's current sources and resolve names."""
import ast
import hashlib
import os
import warnings

from .norm import normalise

REPO = os.environ.get("RRSA_REPO", "/repo")
PKG = "redrock"


class AnalysisBroken(Exception):
    """An anchor of the analysis vanished or a source cannot be parsed."""


class Func(object):
    def __init__(self, qual, node, mod, cls=None):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.cls = cls
        self.decorators = [d for d in getattr(node, "decorator_list", [])]

    @property
    def is_static(self):
        return any(isinstance(d, ast.Name) and d.id == "staticmethod" for d in self.decorators)

    @property
    def is_classmethod(self):
        return any(isinstance(d, ast.Name) and d.id == "classmethod" for d in self.decorators)

    @property
    def is_property(self):
        return any((isinstance(d, ast.Name) and d.id == "property") or
                   (isinstance(d, ast.Attribute) and d.attr in ("setter", "getter")) for d in self.decorators)

    def params(self):
        a = self.node.args
        return [x.arg for x in a.posonlyargs + a.args], [x.arg for x in a.kwonlyargs], \
            a.vararg.arg if a.vararg else None, a.kwarg.arg if a.kwarg else None


class Cls(object):
    def __init__(self, qual, node, mod):
        self.qual = qual
        self.node = node
        self.mod = mod
        self.methods = {}
        self.consts = {}
        self.bases = []


class Mod(object):
    def __init__(self, name, path, rel, tree, src):
        self.name = name
        self.path = path
        self.rel = rel
        self.tree = tree
        self.src = src
        self.names = {}      # local name -> ('fn',Func)|('cls',Cls)|('mod',dotted)|('ext',dotted)|('var',ast)
        self.toplevel = []


def all_functions(prog):
    return prog.funcs.values()


BODY = ".<body>"


class Program(object):
    def __init__(self, repo=None):
        self.repo = repo or REPO
        self.mods = {}
        self.funcs = {}
        self.classes = {}
        self.consulted = set()
        self.bodies = {}
        self._load()

    def _load(self):
        base = os.path.join(self.repo, "py", PKG)
        files = []
        for dp, dn, fn in os.walk(base):
            dn[:] = sorted(d for d in dn if d not in ("test", "__pycache__"))
            for f in sorted(fn):
                if f.endswith(".py"):
                    files.append(os.path.join(dp, f))
        bindir = os.path.join(self.repo, "bin")
        for f in sorted(os.listdir(bindir)):
            p = os.path.join(bindir, f)
            if os.path.isfile(p):
                with open(p, "rb") as fh:
                    first = fh.readline()
                if b"python" in first or p.endswith(".py"):
                    files.append(p)
        for p in files:
            with open(p, encoding="utf-8") as fh:
                src = fh.read()
            rel = os.path.relpath(p, self.repo)
            if rel.startswith("py"):
                name = rel[3:-3].replace(os.sep, ".")
                if name.endswith(".__init__"):
                    name = name[:-9]
            else:
                name = "bin." + os.path.basename(p)
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = normalise(ast.parse(src, p))
            except SyntaxError as e:
                raise AnalysisBroken("cannot parse %s: %s" % (rel, e))
            self.mods[name] = Mod(name, p, rel, tree, src)
        for m in self.mods.values():
            self._index(m)
            self._lateglobals(m)

    def _lateglobals(self, m):
        """names that functions rebind by `global x; import y as x`"""
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
        for f in ast.walk(m.tree):
            if isinstance(f, ast.FunctionDef):
                gl = {n for s in ast.walk(f) if isinstance(s, ast.Global) for n in s.names}
                for s in ast.walk(f):
                    if gl and isinstance(s, (ast.Import, ast.ImportFrom)):
                        names = {}
                        self.bind_import(s, names, pkg)
                        for n, r in names.items():
                            if n in gl:
                                m.names[n] = r

    def digest(self):
        h = hashlib.sha256()
        for n in sorted(self.mods):
            h.update(n.encode())
            h.update(self.mods[n].src.encode())
        return h.hexdigest()[:16]

    def _index(self, m):
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]

        def do(stmts, top):
            for s in stmts:
                if isinstance(s, (ast.Import, ast.ImportFrom)):
                    self.bind_import(s, m.names, pkg)
                elif isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    f = Func(m.name + "." + s.name, s, m)
                    self.funcs.setdefault(f.qual, f)
                    # a later redefinition (fallback in try/except) does not hide the first
                    if s.name not in m.names or m.names[s.name][0] != "fn":
                        m.names[s.name] = ("fn", f)
                    self._nested(f)
                elif isinstance(s, ast.ClassDef):
                    c = Cls(m.name + "." + s.name, s, m)
                    self.classes[c.qual] = c
                    m.names[s.name] = ("cls", c)
                    for b in s.body:
                        if isinstance(b, (ast.FunctionDef, ast.AsyncFunctionDef)):
                            f = Func(c.qual + "." + b.name, b, m, c)
                            if b.name in c.methods and f.is_property:
                                continue
                            c.methods[b.name] = f
                            self.funcs[f.qual] = f
                            self._nested(f)
                        elif isinstance(b, ast.Assign):
                            for t in b.targets:
                                if isinstance(t, ast.Name):
                                    c.consts[t.id] = b.value
                        elif isinstance(b, ast.AnnAssign) and isinstance(b.target, ast.Name) and b.value:
                            c.consts[b.target.id] = b.value
                    c.bases = s.bases
                elif isinstance(s, ast.Assign):
                    for t in s.targets:
                        for n in ast.walk(t):
                            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                                m.names.setdefault(n.id, ("var", s.value if isinstance(t, ast.Name) else None))
                elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name):
                    m.names[s.target.id] = ("var", None)
                elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                    m.names[s.target.id] = ("var", s.value)
                elif isinstance(s, ast.Try):
                    do(s.body, top)
                    for h in s.handlers:
                        do(h.body, top)
                    do(s.orelse, top)
                    do(s.finalbody, top)
                elif isinstance(s, ast.If):
                    do(s.body, top)
                    do(s.orelse, top)
                elif isinstance(s, (ast.For, ast.While, ast.With)):
                    do(s.body, top)
        do(m.tree.body, True)

    def _nested(self, f):
        for n in ast.walk(f.node):
            if n is not f.node and isinstance(n, ast.FunctionDef):
                q = f.qual + ".<locals>." + n.name
                self.funcs.setdefault(q, Func(q, n, f.mod))

    def bind_import(self, s, names, pkg):
        if isinstance(s, ast.Import):
            for a in s.names:
                if a.asname:
                    names[a.asname] = self._modref(a.name)
                else:
                    top = a.name.split(".")[0]
                    names[top] = self._modref(top)
        else:
            base = s.module or ""
            if s.level:
                parts = pkg.split(".")
                parts = parts[:len(parts) - (s.level - 1)]
                base = ".".join(parts + ([s.module] if s.module else []))
            for a in s.names:
                full = base + "." + a.name
                names[a.asname or a.name] = ("from", (base, a.name))

    def _modref(self, dotted):
        if dotted in self.mods or dotted.split(".")[0] == PKG:
            return ("mod", dotted)
        return ("ext", canon_ext(dotted))

    def resolve(self, ref, depth=0):
        """follow 'from' references"""
        while ref is not None and ref[0] == "from" and depth < 12:
            depth += 1
            base, name = ref[1]
            if base in self.mods:
                m = self.mods[base]
                if name in m.names:
                    r = m.names[name]
                    if r[0] == "var":
                        return ("gvar", (m, name, r[1]))
                    ref = r
                    continue
                if base + "." + name in self.mods:
                    return ("mod", base + "." + name)
                return ("ext", base + "." + name)
            if base + "." + name in self.mods:
                return ("mod", base + "." + name)
            return ("ext", canon_ext(base + "." + name))
        return ref

    def lookup(self, m, name):
        r = m.names.get(name)
        if r is None:
            return None
        if r[0] == "var":
            return ("gvar", (m, name, r[1]))
        return self.resolve(r)

    def body(self, name):
        """the statements of a program file as a function of no arguments"""
        m = self.mods.get(name)
        if m is None:
            return None
        q = name + BODY
        if q not in self.bodies:
            ss = []
            for x in m.tree.body:
                if isinstance(x, ast.If) and isinstance(x.test, ast.Compare) and any(isinstance(y, ast.Name) and y.id == "__name__" for y in ast.walk(x.test)):
                    ss.extend(x.body)
                elif not isinstance(x, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
                    ss.append(x)
            node = ast.parse("def __body__():\n    pass\n").body[0]
            node.body = ss or node.body
            self.bodies[q] = Func(q, node, m)
        return self.bodies[q]

    def func(self, qual):
        f = self.funcs.get(qual)
        if f is None and qual.endswith(BODY):
            f = self.body(qual[:-len(BODY)])
        if f is None:
            raise AnalysisBroken("anchor function %s not found in the source tree" % qual)
        return f


ALIAS = {"numpy.absolute": "numpy.abs", "numpy.amin": "numpy.min", "numpy.amax": "numpy.max",
         "numpy.float_": "numpy.float64", "scipy.constants.speed_of_light": "scipy.constants.c",
         "numpy.concatenate": "numpy.concatenate", "numpy.in1d": "numpy.in1d",
         "cupy.absolute": "cupy.abs"}


def canon_ext(d):
    return ALIAS.get(d, d)
