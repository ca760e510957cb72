"""Value-flow interpreter: one structured pass over the syntax tree per entry
point, merging at joins (gated values), summarising loops by one generic
iteration, inlining repository functions.  It produces value terms and an
ordered list of effects; nothing of /repo is executed."""
import ast

from .terms import *
from .terms import mksub as _mksub
from .load import AnalysisBroken, canon_ext, Func

MUTATORS = {"extend", "update", "pop", "sort", "remove", "insert", "clear", "setdefault", "add", "discard", "reverse",
            "fill", "popitem", "put_nowait"}
IMPURE = {"get", "recv", "Recv", "irecv", "Irecv", "isend", "Isend", "put", "send", "Send", "bcast", "gather", "scatter",
          "allgather", "allreduce", "reduce", "Wait", "wait", "Test", "test", "Split", "split_type", "Queue", "Process",
          "readline", "read", "time", "random", "rand", "poll", "Bcast", "Gather", "pop", "RawArray", "Array", "Value"}
NPFUN = {"sum", "any", "all", "min", "max", "dot", "argsort", "mean", "prod", "copy", "argmin", "argmax", "ravel",
         "flatten", "transpose", "cumsum", "nonzero", "std", "searchsorted", "astype", "tolist", "reshape"}
FRESH = {"numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.zeros_like", "numpy.ones_like",
         "numpy.empty_like", "numpy.full_like", "builtins.list", "builtins.dict", "builtins.set", "numpy.array",
         "cupy.zeros", "cupy.ones", "cupy.empty", "cupy.full", "cupy.zeros_like", "cupy.array", "numpy.arange",
         "collections.OrderedDict", "collections.defaultdict", "copy.copy", "copy.deepcopy", "numpy.copy",
         "astropy.table.Table", "numpy.linspace"}
BUILTINS = set(dir(__builtins__)) if not isinstance(__builtins__, dict) else set(__builtins__)
EXITS = {"sys.exit", "builtins.exit", "builtins.quit", "os._exit", "os.abort"}


class Effect(object):
    __slots__ = ("kind", "seq", "guards", "loops", "trys", "node", "func", "ctx", "chain", "depth", "d")

    def __init__(self, kind, **d):
        self.kind = kind
        self.d = d

    def __getattr__(self, k):
        try:
            return self.d[k]
        except KeyError:
            raise AttributeError(k)

    @property
    def line(self):
        return getattr(self.node, "lineno", 0)

    @property
    def where(self):
        f = self.func
        return "%s:%d (%s)" % (f.mod.rel, self.line, f.qual.split("redrock.", 1)[-1])

    def __repr__(self):
        return "<%s %s %s>" % (self.kind, self.where, {k: v for k, v in self.d.items()})


class Frame(object):
    n = 0

    def __init__(self, func, parent=None):
        Frame.n += 1
        self.id = Frame.n
        self.func = func
        self.parent = parent
        self.returns = []
        self.g0 = 0
        self.globals = set()
        self.nonlocals = set()
        self.loopbase = 0
        self.imports = {}


class LoopCtx(object):
    def __init__(self, key, g0):
        self.key = key
        self.g0 = g0
        self.conts = []
        self.breaks = []
        self.hasret = []


class Result(object):
    pass


class Interp(object):
    def __init__(self, prog, stop=None, maxdepth=9, types=None, hooks=None, unroll=8, assume=()):
        self.prog = prog
        self.stop = stop or (lambda q: False)
        self.maxdepth = maxdepth
        self.S = {}
        self.effects = []
        self.guards = []
        self.loops = []
        self.trys = []
        self.ctx = []
        self.chain = ()
        self.frames = []
        self.dead = None
        self.sites = {}
        self.types = dict(types or {})
        self.seq = 0
        self.dry = 0
        self.clos = {}
        self.breaks = {}
        self.muup = {}
        self.muall = {}
        self.unroll = unroll
        self.assume = list(assume)
        self.stats = {"functions": set(), "calls": 0}
        self.method_hint = {}
        self.hooks = hooks or {}

    # ------------------------------------------------------------ entry
    def run(self, qual, args=None):
        f = self.prog.func(qual)
        pos, kwo, va, kw = f.params()
        fr = Frame(f)
        self.frames.append(fr)
        self.stats["functions"].add(f.qual)
        for p in pos + kwo + ([va] if va else []) + ([kw] if kw else []):
            t = (args or {}).get(p) or mk("param", f.qual, p)
            self.S[(fr.id, p)] = t
            if f.cls and p == pos[0] and not f.is_static:
                self.types[t] = f.cls.qual
        for a in self.assume:
            self.guards.append((a, "assume"))
        g0 = len(self.guards)
        fr.g0 = g0
        self.block(f.node.body)
        ret = self.finish(fr)
        self.frames.pop()
        self.ret = ret
        self.frame = fr
        return ret

    def local(self, name):
        return self.S.get((self.frame.id, name))

    # ------------------------------------------------------------ util
    @property
    def fr(self):
        return self.frames[-1]

    def eff(self, kind, node, **d):
        e = Effect(kind, **d)
        self.seq += 1
        e.seq = self.seq
        e.guards = tuple(self.guards)
        e.loops = tuple(self.loops)
        e.trys = tuple(self.trys)
        e.node = node
        e.func = self.fr.func
        e.depth = len(self.frames)
        e.ctx = tuple(self.ctx)
        e.chain = self.chain
        if not self.dry:
            self.effects.append(e)
        return e

    def site(self, node):
        k = (self.fr.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0), type(node).__name__, self.chain)
        s = self.sites.get(k)
        if s is None:
            s = len(self.sites) + 1
            self.sites[k] = s
        return s

    def fresh(self, node, t):
        if t.op == "const":
            return t
        return mk("alloc", self.site(node), t)

    def gcond(self, g0):
        return mkand(*[g for g, k in self.guards[g0:]])

    def lits(self):
        out = set()
        for g, k in self.guards:
            if g.op == "and":
                out.update(g.a)
            else:
                out.add(g)
        return out

    def under(self, t):
        """Simplify a gated value by the literals known to hold here."""
        if t.op != "ite":
            return t
        L = self.lits()
        n = 0
        while t.op == "ite" and n < 40:
            n += 1
            c = t.a[0]
            if self._holds(c, L):
                t = t.a[1]
            elif self._holds(mknot(c), L):
                t = t.a[2]
            else:
                break
        if t.op == "ite":
            # one level below
            a = t.a[1]
            b = t.a[2]
            if b.op == "ite" and b.a[0] in L:
                return mkite(t.a[0], a, b.a[1])
        return t

    def _holds(self, c, L):
        if c in L:
            return True
        if c.op == "and":
            return all(x in L for x in c.a)
        if c.op == "or":
            return any(x in L for x in c.a)
        return False

    def merge(self, c, A, B):
        if A is B:
            return A
        out = {}
        for k in A:
            a = A[k]
            b = B.get(k)
            if b is None and k[0] == "H" and not strip_alloc(k[1]).op == "new":
                b = mk("attr", k[1], k[2])
            if b is None or a is b:
                out[k] = a
            else:
                out[k] = mkite(c, a, b)
        for k in B:
            if k not in A:
                if k[0] == "H" and not strip_alloc(k[1]).op == "new":
                    out[k] = mkite(c, mk("attr", k[1], k[2]), B[k])
                else:
                    out[k] = B[k]
        return out

    def kill(self, kind):
        self.dead = kind

    # ------------------------------------------------------------ statements
    def block(self, stmts):
        for s in stmts:
            if self.dead:
                return
            self.stmt(s)

    def stmt(self, s):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return
        m(s)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        self.fr.globals.update(s.names)

    def s_Nonlocal(self, s):
        self.fr.nonlocals.update(s.names)

    def s_Import(self, s):
        names = {}
        self.prog.bind_import(s, names, self.pkg())
        for n, r in names.items():
            self.setname(n, self.refterm(self.prog.resolve(r)))

    s_ImportFrom = s_Import

    def pkg(self):
        m = self.fr.func.mod
        return m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]

    def s_FunctionDef(self, s):
        f = Func(self.fr.func.qual + ".<locals>." + s.name, s, self.fr.func.mod)
        cid = (f.qual, self.fr.id)
        self.clos[cid] = (f, self.fr)
        self.setname(s.name, mk("clo", f.qual, self.fr.id))

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s):
        pass

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v, s)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value), s)

    def setname(self, n, v):
        fr = self.fr
        if n in fr.globals:
            self.S[("G", fr.func.mod.name, n)] = v
            return
        if n in fr.nonlocals:
            p = fr.parent
            while p is not None:
                if (p.id, n) in self.S:
                    self.S[(p.id, n)] = v
                    return
                p = p.parent
        self.S[(fr.id, n)] = v

    def assign(self, t, v, s):
        if isinstance(t, ast.Name):
            self.setname(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if star:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        n = len(t.elts) - 1 - i
                        self.assign(e.value, mksub(v, mk("slice", const(i), const(-n) if n else NONE, NONE)), s)
                    elif i < star[0]:
                        self.assign(e, mksub(v, const(i)), s)
                    else:
                        self.assign(e, mksub(v, const(i - len(t.elts))), s)
                return
            vals = [self.under(mksub(v, const(i))) for i in range(len(t.elts))]
            for e, x in zip(t.elts, vals):
                self.assign(e, x, s)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            self.eff("setattr", s, base=b, attr=t.attr, value=v, op=None)
            self.setheap(b, t.attr, v)
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            self.eff("setitem", s, base=b, key=k, value=v, op=None, tgt=t)
            self.writeback(t.value, b, mk("store", b, k, v))
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, s)

    def setheap(self, b, attr, v):
        cls = self.types.get(b)
        if cls and attr in self.prog.classes[cls].methods and self.prog.classes[cls].methods[attr].is_property:
            pass
        self.S[("H", b, attr)] = v

    def writeback(self, expr, old, new):
        """The container `old`, denoted by `expr`, now has value `new`."""
        if old is new:
            return
        if old.op != "const":
            for k, v in list(self.S.items()):
                if v is old:
                    self.S[k] = new
        if isinstance(expr, ast.Name):
            k = self.findname(expr.id)
            if k is not None and k in self.S and self.under(self.S[k]) is old:
                self.S[k] = new
        elif isinstance(expr, ast.Attribute):
            b = self.quiet(expr.value)
            self.S[("H", b, expr.attr)] = new
        elif isinstance(expr, ast.Subscript):
            b = self.quiet(expr.value)
            k = self.quiet(expr.slice)
            self.writeback(expr.value, b, mk("store", b, k, new))

    def quiet(self, e):
        self.dry += 1
        try:
            return self.ev(e)
        finally:
            self.dry -= 1

    def findname(self, n):
        fr = self.fr
        if n in fr.globals:
            return ("G", fr.func.mod.name, n)
        p = fr
        while p is not None:
            if (p.id, n) in self.S:
                return (p.id, n)
            p = p.parent
        k = ("G", fr.func.mod.name, n)
        return k if k in self.S else None

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%", ast.Pow: "**",
           ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^", ast.LShift: "<<", ast.RShift: ">>", ast.MatMult: "@"}

    def s_AugAssign(self, s):
        op = self.OPS[type(s.op)]
        t = s.target
        if isinstance(t, ast.Name):
            old = self.ev(ast.copy_location(ast.Name(t.id, ast.Load()), t))
            r = self.ev(s.value)
            if op == "+" and strip_alloc(old).op in ("list", "app", "comp") or \
               (op == "+" and self._listy(old)):
                rr = strip_alloc(r)
                new = old
                if rr.op == "list":
                    for x in rr.a:
                        new = mk("app", new, x)
                else:
                    new = mk("extend", old, r)
                self.eff("aug", s, base=old, value=r, op=op, name=t.id)
                self.writeback(t, old, new)
                self.setname(t.id, new)
                return
            self.eff("aug", s, base=old, value=r, op=op, name=t.id)
            self.setname(t.id, mkbin(op, old, r))
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value)
            old = self.getattr(b, t.attr, t)
            r = self.ev(s.value)
            self.eff("setattr", s, base=b, attr=t.attr, value=r, op=op, old=old)
            new = mkbin(op, old, r)
            self.S[("H", b, t.attr)] = new
        elif isinstance(t, ast.Subscript):
            b = self.ev(t.value)
            k = self.ev(t.slice)
            old = self.getsub(b, k)
            r = self.ev(s.value)
            self.eff("setitem", s, base=b, key=k, value=r, op=op, tgt=t, old=old)
            self.writeback(t.value, b, mk("store", b, k, mkbin(op, old, r)))

    def _listy(self, t):
        t = strip_alloc(t)
        if t.op == "mu":
            return self._listy(t.a[2])
        if t.op in ("list", "app", "extend", "comp"):
            return True
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] == "builtins.list":
            return True
        if t.op == "ite":
            return self._listy(t.a[1]) and self._listy(t.a[2])
        return False

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Subscript):
                b = self.ev(t.value)
                k = self.ev(t.slice)
                self.eff("del", s, base=b, key=k)
                self.writeback(t.value, b, mk("store", b, k, UNDEF))
            elif isinstance(t, ast.Name):
                k = self.findname(t.id)
                if k:
                    self.S.pop(k, None)
            elif isinstance(t, ast.Attribute):
                self.eff("delattr", s, base=self.ev(t.value), attr=t.attr)

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else NONE
        self.eff("return", s, value=v)
        fr = self.fr
        fr.returns.append((self.gcond(fr.g0), v, dict(self.S)))
        for lc in self.loops_ctx(fr):
            lc.hasret.append(self.gcond(lc.g0))
        self.kill("ret")

    def loops_ctx(self, fr):
        return [lc for lc in self.lctx[fr.loopbase:]] if hasattr(self, "lctx") else []

    def s_Raise(self, s):
        v = self.ev(s.exc) if s.exc is not None else NONE
        self.eff("raise", s, value=v)
        for lc in self.loops_ctx(self.fr):
            pass
        self.kill("raise")

    def s_Assert(self, s):
        c = self.ev(s.test)
        self.eff("assert", s, value=c)
        if not is_const(c):
            self.guards.append((c, "raise"))

    def finish(self, fr):
        """Fold the returns of a frame into value and state; restore liveness."""
        rets = list(fr.returns)
        if not self.dead:
            rets.append((self.gcond(fr.g0), NONE, self.S))
        extra = []
        if not rets:
            self.kill("raise")
            return UNDEF
        # guards that only exclude raising paths survive the call
        for g, k in self.guards[fr.g0:]:
            if k == "raise" and not self.dead:
                extra.append((g, k))
        if self.dead == "ret":
            # the last return determines which raise-guards hold on that path only;
            # keep those common to all returns
            common = None
            for c, v, S in rets:
                L = set(c.a) if c.op == "and" else {c}
                common = L if common is None else (common & L)
            for g, k in self.guards[fr.g0:]:
                if k == "raise" and (g in common or (g.op == "and" and all(x in common for x in g.a))):
                    extra.append((g, k))
        c, v, S = rets[-1]
        for c2, v2, S2 in reversed(rets[:-1]):
            S = self.merge(c2, S2, S)
            v = mkite(c2, v2, v)
        self.S = S
        del self.guards[fr.g0:]
        self.guards.extend(extra)
        self.dead = None
        return v

    def s_If(self, s):
        c = self.ev_cond(s.test)
        if is_const(c):
            self.block(s.body if c.a[0] else s.orelse)
            return
        L = self.lits()
        if self._holds(c, L):
            self.block(s.body)
            return
        if self._holds(mknot(c), L):
            self.block(s.orelse)
            return
        self.branch(c, lambda: self.block(s.body), lambda: self.block(s.orelse))

    def branch(self, c, fa, fb):
        g0 = len(self.guards)
        S0 = dict(self.S)
        self.guards.append((c, "if"))
        ra = fa()
        Sa, da, ea = self.S, self.dead, self.guards[g0 + 1:]
        del self.guards[g0:]
        self.S = S0
        self.dead = None
        nc = mknot(c)
        self.guards.append((nc, "if"))
        rb = fb()
        Sb, db, eb = self.S, self.dead, self.guards[g0 + 1:]
        del self.guards[g0:]
        self.dead = None
        if da and db:
            self.dead = da if da == db else "ret"
            if "raise" not in (da, db) or da != db:
                self.dead = da if da != "raise" else db
            self.S = Sb
            return None
        if da:
            self.S = Sb
            self.guards.append((nc, "raise" if da == "raise" else da))
            self.guards.extend(eb)
            return rb
        if db:
            self.S = Sa
            self.guards.append((c, "raise" if db == "raise" else db))
            self.guards.extend(ea)
            return ra
        self.S = self.merge(c, Sa, Sb)
        for g, k in ea:
            self.guards.append((mkor(nc, g), k))
        for g, k in eb:
            self.guards.append((mkor(c, g), k))
        if ra is not None and rb is not None and isinstance(ra, T) and isinstance(rb, T):
            return mkite(c, ra, rb)
        return ra if ra is not None else rb

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            self.eff("enter", s, value=v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, s)
        self.block(s.body)
        if not self.dead:
            for it in s.items:
                self.eff("exit", s, value=self.quiet(it.context_expr))

    s_AsyncWith = s_With

    def s_Try(self, s):
        S0 = dict(self.S)
        g0 = len(self.guards)
        hts = []
        for h in s.handlers:
            hts.append(self.exc_types(h.type))
        tid = mk("try", self.site(s))
        self.trys.append((tid, tuple(hts), s))
        self.block(s.body)
        self.trys.pop()
        if not self.dead:
            self.block(s.orelse)
        Sb, db, eb = self.S, self.dead, self.guards[g0:]
        del self.guards[g0:]
        self.dead = None
        outs = []
        for h, ht in zip(s.handlers, hts):
            self.S = dict(S0)
            # names assigned in the body may or may not be assigned
            for k in Sb:
                if k not in self.S:
                    self.S[k] = Sb[k]
            ex = mk("exc", tid, ",".join(ht))
            self.guards.append((ex, "if"))
            if h.name:
                self.setname(h.name, mk("excval", tid))
            self.block(h.body)
            outs.append((ex, self.S, self.dead, self.guards[g0 + 1:]))
            del self.guards[g0:]
            self.dead = None
        live = [(ex, S, e) for ex, S, d, e in outs if not d]
        if db and not live:
            kinds = [db] + [d for _, _, d, _ in outs]
            self.dead = "raise" if all(k == "raise" for k in kinds) else next(k for k in kinds if k != "raise")
            self.S = Sb
        else:
            if db:
                S = live[-1][1]
                rest = live[:-1]
                if db:
                    self.guards.append((mkor(*[ex for ex, _, _ in live]), db))
            else:
                S = Sb
                rest = live
            for ex, Sh, e in reversed(rest):
                S = self.merge(ex, Sh, S)
            if not db:
                self.guards.extend(eb)
                for ex, Sh, d, e in outs:
                    if d:
                        self.guards.append((mknot(ex), "raise" if d == "raise" else d))
            self.S = S
        if s.finalbody:
            d = self.dead
            self.dead = None
            self.block(s.finalbody)
            if d and not self.dead:
                self.dead = d

    s_TryStar = s_Try

    def exc_types(self, t):
        if t is None:
            return ("*",)
        if isinstance(t, ast.Tuple):
            out = ()
            for e in t.elts:
                out += self.exc_types(e)
            return out
        v = self.quiet(t)
        if v.op == "ext":
            return (v.a[0].split(".")[-1],)
        return (show(v).split(".")[-1],)

    # ------------------------------------------------------------ loops
    def iter_of(self, it):
        """(loop key, element term) for iterating over `it`."""
        u = it
        wrap = 0
        while True:
            v = strip_alloc(u)
            if v.op == "call" and v.a[0].op == "ext" and len(v.a) == 2 and v.a[0].a[0] in (
                    "builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.iter", "numpy.atleast_1d"):
                u = v.a[1]
                continue
            break
        v = strip_alloc(u)
        name = v.a[0].a[0] if v.op == "call" and v.a[0].op == "ext" else None
        if name == "builtins.enumerate" and len(v.a) >= 2:
            start = v.a[2] if len(v.a) > 2 else const(0)
            if start.op == "kw":
                start = start.a[1]
            key, i, e = self.iter3(v.a[1])
            return key, mk("tuple", mkbin("+", i, start), e)
        if name == "builtins.zip" and len(v.a) >= 2:
            key, i, e = self.iter3(v.a[1])
            es = [e]
            for x in v.a[2:]:
                es.append(self.elem_at(x, i))
            return key, mk("tuple", *es)
        key, i, e = self.iter3(u)
        return key, e

    def elem_at(self, x, i):
        u = x
        while True:
            v = strip_alloc(u)
            if v.op == "call" and v.a[0].op == "ext" and len(v.a) == 2 and v.a[0].a[0] in (
                    "builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray"):
                u = v.a[1]
                continue
            break
        if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "builtins.range":
            n = [y for y in v.a[1:]]
            if len(n) == 1:
                return i
            if len(n) == 2:
                return mkbin("+", i, n[0])
        if v.op == "comp" and v.a[0] == "list" and len(v.a) == 4 and v.a[2] is TRUE:
            itk = v.a[3]
            oi = mk("idx", itk.a[0], itk.a[1])
            return rewrite(v.a[1], lambda y: i if y is oi else y)
        if u.op == "items":
            k = mksub(u.a[0], i)
            return mk("tuple", k, mksub(u.a[0], k))
        if u.op == "values":
            return mksub(u.a[0], mksub(u.a[0], i))
        return mksub(u, i)

    def iter3(self, u):
        while True:
            v = strip_alloc(u)
            if v.op == "call" and v.a[0].op == "ext" and len(v.a) == 2 and v.a[0].a[0] in (
                    "builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.iter"):
                u = v.a[1]
                continue
            break
        v = strip_alloc(u)
        base = u
        off = None
        if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] in ("builtins.range", "numpy.arange"):
            n = [y for y in v.a[1:] if y.op != "kw"]
            if len(n) == 2 and is_const(n[0], 0):
                n = n[1:]
            if len(n) == 1:
                ln = n[0]
                if ln.op == "call" and ln.a[0].op == "ext" and ln.a[0].a[0] == "builtins.len":
                    base = self.unwrap(ln.a[1])
                else:
                    base = mk("range", ln)
                key = self.lkey(base)
                i = mk("idx", base, key.a[1])
                return key, i, i
            base = mk("range", *n)
            key = self.lkey(base)
            i = mk("idx", base, key.a[1])
            return key, i, i
        if v.op == "comp" and v.a[0] == "list" and len(v.a) == 4 and v.a[2] is TRUE:
            itk = v.a[3]
            base = itk.a[0]
            key = self.lkey(base)
            i = mk("idx", base, key.a[1])
            oi = mk("idx", itk.a[0], itk.a[1])
            return key, i, rewrite(v.a[1], lambda y: i if y is oi else y)
        if u.op in ("items", "values"):
            base = u.a[0]
        base = self.unwrap(base)
        key = self.lkey(base)
        i = mk("idx", base, key.a[1])
        return key, i, self.elem_at(u if u.op in ("items", "values") else base, i)

    def unwrap(self, u):
        while True:
            v = strip_alloc(u)
            if v.op == "call" and v.a[0].op == "ext" and len(v.a) == 2 and v.a[0].a[0] in (
                    "builtins.list", "builtins.tuple", "numpy.array", "numpy.asarray", "builtins.iter"):
                u = v.a[1]
                continue
            return u

    def lkey(self, base):
        d = sum(1 for k in self.loops if k.op == "it" and k.a[0] is base)
        return mk("it", base, d)

    def literal_items(self, it):
        v = strip_alloc(it)
        if v.op in ("tuple", "list", "set") and len(v.a) <= self.unroll and not any(x.op == "star" for x in v.a):
            return list(v.a)
        if v.op == "items" and strip_alloc(v.a[0]).op == "dict":
            d = strip_alloc(v.a[0])
            return [mk("tuple", d.a[i], d.a[i + 1]) for i in range(0, len(d.a), 2)]
        if v.op == "dict":
            return [v.a[i] for i in range(0, len(v.a), 2)]
        if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "builtins.enumerate" and len(v.a) == 2:
            x = self.literal_items(v.a[1])
            if x is not None:
                return [mk("tuple", const(i), e) for i, e in enumerate(x)]
        if v.op == "call" and v.a[0].op == "ext" and v.a[0].a[0] == "builtins.zip" and len(v.a) > 1:
            xs = [self.literal_items(y) for y in v.a[1:]]
            if all(x is not None for x in xs):
                return [mk("tuple", *r) for r in zip(*xs)]
        return None

    def s_For(self, s):
        it = self.ev(s.iter)
        lit = self.literal_items(it)
        if lit is not None and not any(isinstance(n, (ast.Break, ast.Continue)) for n in ast.walk(s)):
            ch = self.chain
            for n, e in enumerate(lit):
                if self.dead:
                    break
                self.chain = ch + (("u", n),)
                self.assign(s.target, e, s)
                self.block(s.body)
            self.chain = ch
            if not self.dead:
                self.block(s.orelse)
            return
        key, e = self.iter_of(it)
        self.eff("loop", s, key=key, iter=it)
        self.loop(key, s, lambda: self.assign(s.target, e, s), s.body)
        if not self.dead:
            self.block(s.orelse)

    s_AsyncFor = s_For

    def s_While(self, s):
        key = mk("while", self.site(s))
        self.eff("loop", s, key=key, iter=None)
        def pre():
            c = self.ev_cond(s.test)
            self.eff("whiletest", s, value=c, key=key)
            if not is_const(c):
                self.guards.append((c, "if"))
        self.loop(key, s, pre, s.body)
        if not self.dead:
            # the exit condition holds
            c = self.quiet(s.test)
            if not is_const(c) and not self.breaks.get(key):
                self.guards.append((mknot(c), "loopexit"))
            self.block(s.orelse)

    def loop(self, key, s, pre, body):
        if not hasattr(self, "lctx"):
            self.lctx = []
        S0 = dict(self.S)
        ef0 = len(self.effects)
        # pass 1: which locations change?
        self.dry += 1
        if self.dry < 3:
            S1, _ = self.one_iter(key, s, pre, body)
            self.S = dict(S0)
            changed = {k for k in S1 if k in S0 and S1[k] is not S0[k]}
            # newly created heap locations of pre-existing bases count as changed
            newheap = {k for k in S1 if k not in S0 and k[0] == "H"}
        else:
            changed = set()
            newheap = set()
        self.dry -= 1
        mus = {}
        # names of one object (an argument and the caller's variable) share their loop value
        alias = {}
        for k in changed:
            if k[0] not in ("H", "G") and S0[k].op != "const":
                g = (S0[k].id, S1[k].id)
                alias[g] = min(alias.get(g, k), k)
        for k0 in changed:
            v0 = S0[k0]
            k = alias.get((v0.id, S1[k0].id), k0) if k0[0] not in ("H", "G") and v0.op != "const" else k0
            ident = v0.op in ("alloc", "mu", "loop", "store", "app")
            nm = "" if ident else (k[1] if k[0] != "H" else "." + k[2]) + "@%s" % (k[0] if k[0] not in ("H", "G") else k[1])
            m = mk("mu", nm, key, v0)
            mus[k0] = m
            self.S[k0] = m
        for k in newheap:
            b, at = k[1], k[2]
            m = mk("mu", "." + at + "@%d" % b.id, key, mk("attr", b, at))
            mus[k] = m
            self.S[k] = m
        S2, lc = self.one_iter(key, s, pre, body)
        for k in mus:
            self.muup[mus[k].id] = S2.get(k)
            if not self.dry:
                self.muall.setdefault(mus[k].id, []).append(S2.get(k))
        if lc.breaks or lc.hasret:
            self.breaks.setdefault(key, [])
            if not self.dry:
                self.breaks[key] += [c for c, _ in lc.breaks] + lc.hasret
        out = dict(S2)
        for k in S2:
            v = S2[k]
            if k in mus:
                out[k] = self.summ(key, mus[k], v, S0.get(k))
            elif k in S0:
                out[k] = v if v is S0[k] else self.summ(key, S0[k], v, S0[k])
        self.S = out
        self.dead = None
        if lc.hasret:
            c = mkor(*lc.hasret)
            self.guards.append((mknot(mk("exists", key, c)), "ret"))

    def summ(self, key, mu, v, v0):
        if v is mu:
            return v0 if v0 is not None else v
        # list building by append
        r = self._appform(key, mu, v, v0)
        if r is not None:
            return r
        return mk("loop", mu, v)

    def _appform(self, key, mu, v, v0):
        if v0 is None or mu.op != "mu":
            return None
        base = strip_alloc(v0)
        empty = (base.op == "list" and not base.a) or _empty(base)
        if not empty or key.op != "it" or self.breaks.get(key):
            return None
        conds = []
        x = v
        while x.op == "ite":
            if x.a[2] is mu:
                conds.append(x.a[0])
                x = x.a[1]
            elif x.a[1] is mu:
                conds.append(mknot(x.a[0]))
                x = x.a[2]
            else:
                return None
        if x.op == "app" and x.a[0] is mu:
            elt = x.a[1]
            if contains(elt, lambda y: y is mu):
                return None
            t = mk("comp", "list", elt, mkand(*conds), key)
            return mk("alloc", v0.a[0], t) if v0.op == "alloc" else t
        if x.op == "alloc" or x.op == "comp":
            pass
        return None

    def one_iter(self, key, s, pre, body):
        g0 = len(self.guards)
        lc = LoopCtx(key, g0)
        self.lctx.append(lc)
        self.loops.append(key)
        pre()
        self.block(body)
        self.loops.pop()
        self.lctx.pop()
        S, d = self.S, self.dead
        del self.guards[g0:]
        for c, Sc in reversed(lc.conts + lc.breaks):
            if d:
                S = Sc
                d = None
            else:
                S = self.merge(c, Sc, S)
        self.dead = None
        return S, lc

    def s_Continue(self, s):
        if getattr(self, "lctx", None):
            lc = self.lctx[-1]
            lc.conts.append((self.gcond(lc.g0), dict(self.S)))
        self.kill("cont")

    def s_Break(self, s):
        if getattr(self, "lctx", None):
            lc = self.lctx[-1]
            lc.breaks.append((self.gcond(lc.g0), dict(self.S)))
            self.eff("break", s)
        self.kill("brk")

    # ------------------------------------------------------------ expressions
    def ev(self, e):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            return mk("opaque", ast.dump(e)[:80])
        return m(e)

    def ev_cond(self, e):
        return self.ev(e)

    def e_Constant(self, e):
        return const(e.value)

    def e_Name(self, e):
        n = e.id
        k = self.findname(n)
        if k is not None and k in self.S:
            return self.under(self.S[k])
        return self.globalname(self.fr.func.mod, n)

    def globalname(self, m, n):
        k = ("G", m.name, n)
        if k in self.S:
            return self.S[k]
        r = self.prog.lookup(m, n)
        if r is None:
            if n in BUILTINS:
                return ext("builtins." + n)
            return mk("undefname", n)
        return self.refterm(r)

    def refterm(self, r):
        k, v = r
        if k == "fn":
            return mk("fn", v.qual)
        if k == "cls":
            return mk("cls", v.qual)
        if k == "mod":
            return mk("mod", v)
        if k == "ext":
            return ext(v)
        if k == "gvar":
            m, name, val = v
            if isinstance(val, ast.Constant) and (val.value is None or isinstance(val.value, (str, bool))):
                return const(val.value)
            if isinstance(val, (ast.Name, ast.Attribute)):
                d = dotted(val)
                if d:
                    root = d.split(".")[0]
                    rr = self.prog.lookup(m, root)
                    if rr is not None and rr[0] != "gvar":
                        t = self.refterm(rr)
                        for a in d.split(".")[1:]:
                            t = self.modattr(t, a)
                        return t
            return mk("global", m.name + "." + name)
        raise AnalysisBroken("bad ref %r" % (r,))

    def modattr(self, b, name):
        if b.op == "mod":
            m = self.prog.mods.get(b.a[0])
            if m is not None:
                if ("G", m.name, name) in self.S:
                    return self.S[("G", m.name, name)]
                r = self.prog.lookup(m, name)
                if r is not None:
                    return self.refterm(r)
            if b.a[0] + "." + name in self.prog.mods:
                return mk("mod", b.a[0] + "." + name)
            return ext(b.a[0] + "." + name)
        if b.op == "ext":
            return ext(canon_ext(b.a[0] + "." + name))
        return mk("attr", b, name)

    def e_Attribute(self, e):
        b = self.ev(e.value)
        return self.getattr(b, e.attr, e)

    def getattr(self, b, name, node):
        if b.op in ("mod", "ext"):
            return self.modattr(b, name)
        k = ("H", b, name)
        if k in self.S:
            return self.under(self.S[k])
        c = self.types.get(b)
        if c is None and b.op == "mu":
            c = self.types.get(b.a[2])
        if c is not None:
            cl = self.prog.classes[c]
            f = self.find_method(cl, name)
            if f is not None:
                if f.is_property:
                    if not self.stop(f.qual):
                        return self.inline(f, {f.params()[0][0]: b}, node)
                    return mk("attr", b, name)
                return mk("bm", b, f.qual)
        if b.op == "cls":
            cl = self.prog.classes.get(b.a[0])
            if cl is not None and name in cl.methods:
                f = cl.methods[name]
                return mk("bm", b, f.qual) if f.is_classmethod else mk("fn", f.qual)
            return mk("attr", b, name)
        if b.op == "ite" and all(x.op in ("ext", "mod") for x in b.a[1:]):
            return mkite(b.a[0], self.getattr(b.a[1], name, node), self.getattr(b.a[2], name, node))
        if b.op == "ite" and (("H", b.a[1], name) in self.S or ("H", b.a[2], name) in self.S):
            return mkite(b.a[0], self.getattr(b.a[1], name, node), self.getattr(b.a[2], name, node))
        return mk("attr", b, name)

    def find_method(self, cl, name, d=0):
        if name in cl.methods:
            return cl.methods[name]
        for bexp in cl.bases:
            if isinstance(bexp, ast.Name) and d < 5:
                r = self.prog.lookup(cl.mod, bexp.id)
                if r and r[0] == "cls":
                    f = self.find_method(r[1], name, d + 1)
                    if f:
                        return f
        return None

    def e_Subscript(self, e):
        b = self.ev(e.value)
        k = self.ev(e.slice)
        return self.getsub(b, k)

    def getsub(self, b, k):
        r = mksub(b, k)
        if r.op == "sub" and r.a[0].op == "alloc" and r.a[0].a[1].op == "comp":
            r = self.comp_sub(r.a[0].a[1], k) or r
        elif r.op == "sub" and r.a[0].op == "comp":
            r = self.comp_sub(r.a[0], k) or r
        return self.under(r)

    def comp_sub(self, c, k):
        """index into an unconditional single-generator comprehension"""
        if c.a[0] == "list" and len(c.a) == 4 and c.a[2] is TRUE:
            it = c.a[3]
            if k.op == "idx" and k.a[0] is it.a[0]:
                oi = mk("idx", it.a[0], it.a[1])
                return rewrite(c.a[1], lambda y: k if y is oi else y)
        return None

    def e_Slice(self, e):
        f = lambda x: self.ev(x) if x is not None else NONE
        lo = f(e.lower)
        if is_const(lo, 0):
            lo = NONE
        return mk("slice", lo, f(e.upper), f(e.step))

    def e_Tuple(self, e):
        return mk("tuple", *self.elts(e.elts))

    def elts(self, es):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                sv = strip_alloc(v)
                if sv.op in ("tuple", "list"):
                    out.extend(sv.a)
                else:
                    out.append(mk("star", v))
            else:
                out.append(self.ev(x))
        return out

    def e_List(self, e):
        return self.fresh(e, mk("list", *self.elts(e.elts)))

    def e_Set(self, e):
        return mk("set", *self.elts(e.elts))

    def e_Dict(self, e):
        out = []
        for k, v in zip(e.keys, e.values):
            if k is None:
                x = strip_alloc(self.ev(v))
                if x.op == "dict":
                    out.extend(x.a)
                else:
                    out.extend([mk("star", x), x])
            else:
                out.append(self.ev(k))
                out.append(self.ev(v))
        return self.fresh(e, mk("dict", *out))

    def e_BinOp(self, e):
        l = self.ev(e.left)
        r = self.ev(e.right)
        return mkbin(self.OPS[type(e.op)], l, r)

    def e_UnaryOp(self, e):
        x = self.ev(e.operand)
        if isinstance(e.op, ast.Not):
            return mknot(x)
        if isinstance(e.op, ast.Invert):
            if x.op in ("cmp", "not"):
                return mknot(x)
            return mk("un", "~", x)
        if isinstance(e.op, ast.USub):
            if x.op == "const" and isinstance(x.a[0], (int, float)):
                return const(-x.a[0])
            return mk("un", "-", x)
        return x

    def e_BoolOp(self, e):
        xs = []
        g0 = len(self.guards)
        isand = isinstance(e.op, ast.And)
        for v in e.values:
            t = self.ev(v)
            xs.append(t)
            if not is_const(t):
                self.guards.append((t if isand else mknot(t), "if"))
            elif bool(t.a[0]) != isand:
                break
        del self.guards[g0:]
        return mkand(*xs) if isand else mkor(*xs)

    CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Is: "is",
           ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in"}

    def e_Compare(self, e):
        l = self.ev(e.left)
        out = []
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r)
            out.append(mkcmp(self.CMP[type(op)], l, r))
            l = r
        return mkand(*out)

    def e_IfExp(self, e):
        c = self.ev(e.test)
        if is_const(c):
            return self.ev(e.body if c.a[0] else e.orelse)
        L = self.lits()
        if self._holds(c, L):
            return self.ev(e.body)
        if self._holds(mknot(c), L):
            return self.ev(e.orelse)
        return self.branch(c, lambda: self.ev(e.body), lambda: self.ev(e.orelse))

    def e_NamedExpr(self, e):
        v = self.ev(e.value)
        self.assign(e.target, v, e)
        return v

    def e_Starred(self, e):
        return mk("star", self.ev(e.value))

    def e_JoinedStr(self, e):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(v.value))
            else:
                spec = ""
                if v.format_spec is not None:
                    sp = self.ev(v.format_spec)
                    spec = sp.a[0] if sp.op == "const" else show(sp)
                parts.append(mkfmtpart(self.ev(v.value), spec))
        return mkfstr(parts)

    def e_Lambda(self, e):
        node = ast.FunctionDef(name="<lambda>", args=e.args, body=[ast.copy_location(ast.Return(e.body), e.body)],
                               decorator_list=[], lineno=e.lineno, col_offset=e.col_offset)
        q = self.fr.func.qual + ".<lambda>%d" % self.site(e)
        f = Func(q, node, self.fr.func.mod)
        self.clos[(q, self.fr.id)] = (f, self.fr)
        return mk("clo", q, self.fr.id)

    def comp(self, e, kind, elts):
        fr = self.fr
        saved = {}
        names = set()
        for g in e.generators:
            for n in ast.walk(g.target):
                if isinstance(n, ast.Name):
                    names.add(n.id)
        for n in names:
            if (fr.id, n) in self.S:
                saved[n] = self.S[(fr.id, n)]
        if len(e.generators) == 1:
            lit = None
            it = self.ev(e.generators[0].iter)
            lit = self.literal_items(it)
            if lit is not None and not e.generators[0].ifs:
                out = []
                ch = self.chain
                for n, x in enumerate(lit):
                    self.chain = ch + (("u", n),)
                    self.assign(e.generators[0].target, x, e)
                    out.append([self.ev(y) for y in elts])
                self.chain = ch
                self.restore(names, saved)
                if kind == "dict":
                    return self.fresh(e, mk("dict", *[y for r in out for y in r]))
                if kind == "set":
                    return mk("set", *[r[0] for r in out])
                return self.fresh(e, mk("list", *[r[0] for r in out]))
        g0 = len(self.guards)
        l0 = len(self.loops)
        keys = []
        conds = []
        first = True
        for g in e.generators:
            itx = it if (first and len(e.generators) == 1) else self.ev(g.iter)
            first = False
            key, x = self.iter_of(itx)
            keys.append(key)
            self.loops.append(key)
            self.assign(g.target, x, e)
            for c in g.ifs:
                t = self.ev(c)
                conds.append(t)
                self.guards.append((t, "if"))
        vals = [self.ev(y) for y in elts]
        del self.guards[g0:]
        del self.loops[l0:]
        self.restore(names, saved)
        elt = vals[0] if len(vals) == 1 else mk("tuple", *vals)
        t = mk("comp", kind, elt, mkand(*conds), *keys)
        return self.fresh(e, t)

    def restore(self, names, saved):
        for n in names:
            self.S.pop((self.fr.id, n), None)
        for n, v in saved.items():
            self.S[(self.fr.id, n)] = v

    def e_ListComp(self, e):
        return self.comp(e, "list", [e.elt])

    def e_GeneratorExp(self, e):
        return self.comp(e, "list", [e.elt])

    def e_SetComp(self, e):
        return self.comp(e, "set", [e.elt])

    def e_DictComp(self, e):
        return self.comp(e, "dict", [e.key, e.value])

    def e_Await(self, e):
        return self.ev(e.value)

    def e_Yield(self, e):
        v = self.ev(e.value) if e.value else NONE
        self.eff("yield", e, value=v)
        return mk("opaque", "yield")

    # ------------------------------------------------------------ calls
    def e_Call(self, e):
        self.stats["calls"] += 1
        fe = e.func
        recv = None
        if isinstance(fe, ast.Attribute):
            recv = self.ev(fe.value)
            f = self.getattr(recv, fe.attr, fe)
        else:
            f = self.ev(fe)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value)
                sv = strip_alloc(v)
                if sv.op in ("tuple", "list"):
                    args.extend(sv.a)
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a))
        kws = {}
        for k in e.keywords:
            v = self.ev(k.value)
            if k.arg is None:
                d = self.dict_items(v)
                if d is None:
                    kws["**"] = v
                else:
                    kws.update(d)
            else:
                kws[k.arg] = v
        return self.call(f, args, kws, e, recv, fe)

    def dict_items(self, v):
        out = {}
        chain = []
        while True:
            v = strip_alloc(v)
            if v.op == "store":
                chain.append((v.a[1], v.a[2]))
                v = v.a[0]
                continue
            break
        if v.op == "dict":
            for i in range(0, len(v.a), 2):
                if not (v.a[i].op == "const" and isinstance(v.a[i].a[0], str)):
                    return None
                out[v.a[i].a[0]] = v.a[i + 1]
        elif _empty(v):
            pass
        else:
            return None
        for k, x in reversed(chain):
            if not (k.op == "const" and isinstance(k.a[0], str)):
                return None
            out[k.a[0]] = x
        return out

    def call(self, f, args, kws, node, recv=None, fe=None):
        if f.op == "ite" and all(x.op in ("fn", "clo", "bm", "cls", "ext", "partial") for x in (f.a[1], f.a[2])):
            return self.branch(f.a[0], lambda: self.call(f.a[1], args, kws, node), lambda: self.call(f.a[2], args, kws, node))
        if f.op == "partial":
            n = f.a[1]
            pre = list(f.a[2:2 + n])
            pk = {x.a[0]: x.a[1] for x in f.a[2 + n:]}
            pk.update(kws)
            return self.call(f.a[0], pre + args, pk, node)
        if f.op == "fn":
            return self.callfn(self.prog.funcs[f.a[0]], args, kws, node, None)
        if f.op == "bm":
            fn = self.prog.funcs[f.a[1]]
            if fn.is_static:
                return self.callfn(fn, args, kws, node, None)
            return self.callfn(fn, [f.a[0]] + args, kws, node, None)
        if f.op == "clo":
            fn, parent = self.clos[(f.a[0], f.a[1])]
            return self.callfn(fn, args, kws, node, parent)
        if f.op == "cls":
            return self.instantiate(f, args, kws, node)
        if f.op == "ext":
            return self.callext(f, args, kws, node)
        if f.op == "attr":
            return self.callmeth(f, args, kws, node, fe)
        r = mk("call", f, *(args + [mk("kw", k, v) for k, v in sorted(kws.items())]))
        self.eff("call", node, fn=f, args=args, kws=kws, bound=None, result=r, meth=None, recv=None)
        return r

    def bind(self, fn, args, kws, node, parent):
        pos, kwo, va, kwa = fn.params()
        out = {}
        rest = []
        for i, a in enumerate(args):
            if a.op == "star":
                # unknown tail: parameters not otherwise given are opaque
                for j, p in enumerate(pos[i:]):
                    if p not in kws:
                        out[p] = mksub(a.a[0], const(j))
                break
            if i < len(pos):
                out[pos[i]] = a
            else:
                rest.append(a)
        extra = []
        for k, v in kws.items():
            if k == "**":
                extra.append(("**", v))
            elif k in pos or k in kwo:
                out[k] = v
            else:
                extra.append((k, v))
        a = fn.node.args
        defs = list(a.defaults)
        dpos = pos[len(pos) - len(defs):]
        miss = []
        for p, d in list(zip(dpos, defs)) + [(p, d) for p, d in zip(kwo, a.kw_defaults) if d is not None]:
            if p not in out:
                out[p] = self.default(fn, d, parent)
        for p in pos + kwo:
            if p not in out:
                out[p] = mk("missing", fn.qual, p)
                miss.append(p)
        if va:
            out[va] = mk("tuple", *rest)
        if kwa:
            out[kwa] = mk("dict", *[y for k, v in extra for y in (const(k), v)])
        return out, miss, rest if not va else [], extra if not kwa else []

    def default(self, fn, d, parent):
        if isinstance(d, ast.Constant):
            return const(d.value)
        fr = Frame(Func(fn.qual, fn.node, fn.mod), parent)
        self.frames.append(fr)
        try:
            return self.quiet(d)
        finally:
            self.frames.pop()

    def callterm(self, fn, b, args, kws):
        if b is None:
            return mk("call", mk("fn", fn.qual), *(args + [mk("kw", k, v) for k, v in sorted(kws.items())]))
        return mk("call", mk("fn", fn.qual), *[mk("kw", p, b[p]) for p in sorted(b)])

    def callfn(self, fn, args, kws, node, parent):
        b, miss, rest, extra = self.bind(fn, args, kws, node, parent)
        depth = len(self.frames)
        stop = (parent is None and self.stop(fn.qual)) or depth > self.maxdepth or \
            any(fr.func.node is fn.node for fr in self.frames)
        r = self.callterm(fn, b, args, kws)
        hook = self.hooks.get(fn.qual)
        if hook is not None:
            hv = hook(self, b, node)
            if hv is not None:
                self.eff("call", node, fn=mk("fn", fn.qual), args=args, kws=kws, bound=b, result=hv, meth=None, recv=None,
                         inlined=False, miss=miss, extra=extra, rest=rest)
                return hv
        if stop:
            if self.stop(fn.qual) and fn.qual.rsplit(".", 1)[-1] in IMPURE:
                r = self.fresh(node, r)
            self.eff("call", node, fn=mk("fn", fn.qual), args=args, kws=kws, bound=b, result=r, meth=None, recv=None,
                     inlined=False, miss=miss, extra=extra, rest=rest)
            return r
        self.eff("call", node, fn=mk("fn", fn.qual), args=args, kws=kws, bound=b, result=r, meth=None, recv=None,
                 inlined=True, miss=miss, extra=extra, rest=rest)
        return self.inline(fn, b, node, parent)

    def inline(self, fn, b, node, parent=None):
        self.stats["functions"].add(fn.qual)
        fr = Frame(fn, parent)
        fr.g0 = len(self.guards)
        if not hasattr(self, "lctx"):
            self.lctx = []
        fr.loopbase = len(self.lctx)
        self.frames.append(fr)
        ch = self.chain
        self.chain = ch + ((self.frames[-2].func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0)),)
        for p, v in b.items():
            self.S[(fr.id, p)] = v
        self.block(fn.node.body)
        v = self.finish(fr)
        self.frames.pop()
        self.chain = ch
        for k in [k for k in self.S if k[0] == fr.id]:
            # keep frames alive for closures only
            if not any(c[1] is fr for c in self.clos.values()):
                del self.S[k]
        return v

    def instantiate(self, f, args, kws, node):
        cl = self.prog.classes[f.a[0]]
        init = self.find_method(cl, "__init__")
        if init is None:
            r = mk("call", f, *(args + [mk("kw", k, v) for k, v in sorted(kws.items())]))
            self.eff("call", node, fn=f, args=args, kws=kws, bound=None, result=r, meth=None, recv=None)
            return r
        obj = self.fresh(node, mk("new", cl.qual))
        b, miss, rest, extra = self.bind(init, [obj] + args, kws, node, None)
        if self.stop(init.qual) or len(self.frames) > self.maxdepth or any(fr.func.node is init.node for fr in self.frames):
            selfp = init.params()[0][0]
            bb = {p: v for p, v in b.items() if p != selfp}
            r = self.fresh(node, mk("call", f, *[mk("kw", p, bb[p]) for p in sorted(bb)]))
            self.types[r] = cl.qual
            self.eff("call", node, fn=f, args=args, kws=kws, bound=bb, result=r, meth=None, recv=None, inlined=False,
                     miss=miss, extra=extra, rest=rest)
            return r
        self.types[obj] = cl.qual
        self.eff("call", node, fn=f, args=args, kws=kws, bound=b, result=obj, meth=None, recv=None, inlined=True,
                 miss=miss, extra=extra, rest=rest)
        self.inline(init, b, node)
        return obj

    def mkcall(self, name, args, kws):
        return mk("call", ext(name), *(list(args) + [mk("kw", k, v) for k, v in sorted(kws.items())]))

    def callext(self, f, args, kws, node):
        name = f.a[0]
        short = name.rsplit(".", 1)[-1]
        lib = name.split(".")[0]
        # multiprocessing entry points
        if short == "Process" and "target" in kws:
            return self.spawn(f, kws["target"], strip_alloc(kws.get("args", mk("tuple"))), kws, node)
        if name == "functools.partial" and args:
            return mk("partial", args[0], len(args) - 1, *(args[1:] + [mk("kw", k, v) for k, v in sorted(kws.items())]))
        if name == "builtins.map" and len(args) >= 2:
            key, x = self.iter_of(args[1] if len(args) == 2 else self.mkcall("builtins.zip", args[1:], {}))
            self.loops.append(key)
            xs = [x] if len(args) == 2 else list(x.a)
            v = self.call(args[0], xs, {}, node)
            self.loops.pop()
            return self.fresh(node, mk("comp", "list", v, TRUE, key))
        r = self.normext(name, lib, short, args, kws, node)
        if r is None:
            r = self.mkcall(name, args, kws)
            if name in FRESH or short in IMPURE or short in ("Table", "HDUList", "File"):
                r = self.fresh(node, r)
        self.eff("call", node, fn=f, args=args, kws=kws, bound=None, result=r, meth=None, recv=None)
        if name in EXITS:
            self.eff("raise", node, value=r)
            self.kill("raise")
        return r

    def normext(self, name, lib, short, args, kws, node):
        if lib in ("numpy", "cupy"):
            if name == lib + "." + short:
                if len(args) == 2 and not kws:
                    two = {"multiply": "*", "add": "+", "subtract": "-", "divide": "/", "true_divide": "/", "dot": "@",
                           "matmul": "@", "bitwise_or": "|", "bitwise_and": "&", "logical_and": "&", "logical_or": "|",
                           "power": "**", "floor_divide": "//", "left_shift": "<<", "mod": "%"}
                    if short in two:
                        return mkbin(two[short], *args)
                    cm = {"less": "<", "less_equal": "<=", "greater": ">", "greater_equal": ">=", "equal": "==",
                          "not_equal": "!="}
                    if short in cm:
                        return mkcmp(cm[short], *args)
                if short in ("logical_not", "invert") and len(args) == 1:
                    x = args[0]
                    return mknot(x) if x.op in ("cmp", "not") else mk("un", "~", x)
                if short in ("square",) and len(args) == 1:
                    return mkbin("*", args[0], args[0])
                if short == "negative" and len(args) == 1:
                    return mk("un", "-", args[0])
                if short in ("power",) and len(args) == 2:
                    return mkbin("**", *args)
        if name == "builtins.abs":
            return self.mkcall("numpy.abs", args, kws)
        if name in ("builtins.sum", "builtins.any", "builtins.all") and len(args) == 1 and not kws:
            return self.mkcall("numpy." + short, args, kws)
        if name in ("builtins.min", "builtins.max") and len(args) == 1 and not kws:
            return self.mkcall("numpy." + short, args, kws)
        if name == "builtins.len" and len(args) == 1:
            v = strip_alloc(args[0])
            if v.op in ("tuple", "list", "dict") and not any(x.op == "star" for x in v.a):
                return const(len(v.a) // (2 if v.op == "dict" else 1))
            u = args[0]
            return self.mkcall("builtins.len", [self.unwrap(u)], {})
        if name == "builtins.str" and len(args) == 1:
            return mkfstr([mkfmtpart(args[0], "")])
        if name == "builtins.format" and len(args) == 2 and args[1].op == "const":
            return mkfstr([mkfmtpart(args[0], args[1].a[0])])
        if name == "builtins.range" and len(args) >= 2 and is_const(args[0], 0) and len(args) == 2:
            return self.mkcall(name, args[1:], {})
        if name == "builtins.slice" and 1 <= len(args) <= 3 and not kws:
            a = [NONE, args[0], NONE] if len(args) == 1 else list(args) + [NONE] * (3 - len(args))
            return mk("slice", NONE if is_const(a[0], 0) else a[0], a[1], a[2])
        if name == "builtins.dict":
            if not args:
                if kws and "**" not in kws:
                    return self.fresh(node, mk("dict", *[y for k, v in kws.items() for y in (const(k), v)]))
                return self.fresh(node, mk("dict"))
            if len(args) == 1 and strip_alloc(args[0]).op == "dict" and "**" not in kws:
                d = strip_alloc(args[0])
                return self.fresh(node, mk("dict", *(list(d.a) + [y for k, v in kws.items() for y in (const(k), v)])))
        if name == "builtins.list":
            if not args:
                return self.fresh(node, mk("list"))
            v = strip_alloc(args[0])
            if v.op in ("list", "tuple"):
                return self.fresh(node, mk("list", *v.a))
        if name == "builtins.tuple" and len(args) == 1:
            v = strip_alloc(args[0])
            if v.op in ("list", "tuple"):
                return mk("tuple", *v.a)
            if not args:
                return mk("tuple")
        if name == "builtins.bool" and len(args) == 1 and args[0].op in ("cmp", "not", "and", "or"):
            return args[0]
        if name == "builtins.getattr" and len(args) >= 2 and args[1].op == "const":
            if len(args) == 2:
                return self.getattr(args[0], args[1].a[0], node)
        if name == "builtins.setattr" and len(args) == 3 and args[1].op == "const":
            self.eff("setattr", node, base=args[0], attr=args[1].a[0], value=args[2], op=None)
            self.setheap(args[0], args[1].a[0], args[2])
            return NONE
        if name == "builtins.isinstance" and len(args) == 2 and args[0].op == "const" and args[0].a[0] is None:
            return FALSE
        return None

    def spawn(self, f, target, targs, kws, node):
        args = list(targs.a) if targs.op in ("tuple", "list") else [mk("star", targs)]
        kk = self.dict_items(kws["kwargs"]) if "kwargs" in kws else {}
        p = self.fresh(node, mk("call", f, mk("kw", "target", target)))
        fn, parent = None, None
        t = target
        if t.op == "partial":
            n = t.a[1]
            args = list(t.a[2:2 + n]) + args
            k2 = {x.a[0]: x.a[1] for x in t.a[2 + n:]}
            k2.update(kk or {})
            kk = k2
            t = t.a[0]
        if t.op == "fn":
            fn = self.prog.funcs[t.a[0]]
        elif t.op == "clo":
            fn, parent = self.clos[(t.a[0], t.a[1])]
        elif t.op == "bm":
            fn = self.prog.funcs[t.a[1]]
            args = [t.a[0]] + args
        if fn is None:
            self.eff("spawn", node, fn=target, args=args, bound=None, result=p)
            return p
        b, miss, rest, extra = self.bind(fn, args, kk or {}, node, parent)
        self.eff("spawn", node, fn=mk("fn", fn.qual), args=args, bound=b, result=p, miss=miss, target=fn)
        if len(self.frames) <= self.maxdepth:
            S0 = dict(self.S)
            g0 = len(self.guards)
            d0 = self.dead
            self.ctx.append(("worker", fn.qual))
            self.inline(fn, b, node, parent)
            self.ctx.pop()
            # a child process does not change the parent's state
            self.S = S0
            del self.guards[g0:]
            self.dead = d0
        return p

    def callmeth(self, f, args, kws, node, fe):
        b, meth = f.a
        expr = fe.value if isinstance(fe, ast.Attribute) else None
        r = None
        if meth == "format" and b.op in ("const", "fstr"):
            if b.op == "const" and isinstance(b.a[0], str):
                r = fmt_format(b.a[0], args, kws)
        elif meth == "append" and len(args) == 1:
            self.eff("append", node, base=b, value=args[0], expr=expr)
            self.writeback(expr, b, mk("app", b, args[0]))
            return NONE
        elif meth == "extend" and len(args) == 1:
            self.eff("extend", node, base=b, value=args[0], expr=expr)
            v = strip_alloc(args[0])
            new = b
            if v.op in ("list", "tuple"):
                for x in v.a:
                    new = mk("app", new, x)
            else:
                new = mk("extend", b, args[0])
            self.writeback(expr, b, new)
            return NONE
        elif meth == "update" and not self._known_obj(b):
            d = None
            if len(args) == 1 and not kws:
                d = self.dict_items(args[0])
            elif not args and "**" not in kws:
                d = dict(kws)
            self.eff("update", node, base=b, value=args[0] if args else NONE, kws=kws, expr=expr)
            new = b
            if d is not None:
                for k, v in d.items():
                    self.eff("setitem", node, base=new, key=const(k), value=v, op=None, tgt=None)
                    new = mk("store", new, const(k), v)
            else:
                new = mk("update", b, args[0] if args else NONE)
            self.writeback(expr, b, new)
            return NONE
        elif meth == "setdefault" and len(args) == 2:
            self.eff("setdefault", node, base=b, key=args[0], value=args[1])
            return mksub(b, args[0])
        elif meth in ("keys",) and not args:
            r = b
        elif meth == "items" and not args:
            r = mk("items", b)
        elif meth == "values" and not args:
            r = mk("values", b)
        elif meth == "join" and b.op == "const" and len(args) == 1:
            v = strip_alloc(args[0])
            if v.op in ("list", "tuple") and not any(x.op == "star" for x in v.a):
                parts = []
                for i, x in enumerate(v.a):
                    if i:
                        parts.append(b)
                    parts.append(x if (x.op == "const" and isinstance(x.a[0], str)) or x.op == "fstr" else mkfmtpart(x, ""))
                r = mkfstr(parts)
        elif meth == "dot" and len(args) == 1 and not kws:
            r = mkbin("@", b, args[0])
        elif meth in NPFUN and b.op not in ("mod",):
            if not (meth == "copy" and args):
                r = mk("call", ext("numpy." + meth), b, *(args + [mk("kw", k, v) for k, v in sorted(kws.items())]))
                if meth == "copy":
                    r = self.fresh(node, r)
        elif meth in ("lower", "upper", "strip") and b.op == "const" and isinstance(b.a[0], str) and not args:
            r = const(getattr(b.a[0], meth)())
        if r is None:
            # a method of a repository class resolved by name on request
            hint = self.method_hint.get(meth)
            if hint:
                fn = self.prog.func(hint)
                return self.callfn(fn, [b] + args, kws, node, None)
            r = mk("call", f, *(args + [mk("kw", k, v) for k, v in sorted(kws.items())]))
            if meth in IMPURE:
                r = self.fresh(node, r)
        self.eff("call", node, fn=f, args=args, kws=kws, bound=None, result=r, meth=meth, recv=b)
        if meth in MUTATORS and expr is not None:
            self.writeback(expr, b, mk("mut", meth, b, *args))
        if meth in ("Abort",) or (meth == "error" and contains(b, lambda y: y.op == "ext" and y.a[0].startswith("argparse"))):
            self.eff("raise", node, value=r)
            self.kill("raise")
        return r

    def _known_obj(self, b):
        return b in self.types


def _empty(t):
    t = strip_alloc(t)
    return (t.op in ("list", "dict") and not t.a) or (t.op == "call" and t.a[0].op == "ext" and
        t.a[0].a[0] in ("builtins.list", "builtins.dict") and len(t.a) == 1)


def dotted(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        d = dotted(e.value)
        return d + "." + e.attr if d else None
    return None
