"""Path analysis of parent/worker message protocols on the syntax tree.

A function is executed abstractly over all its paths.  Only what matters to
a message protocol is tracked: queues, worker processes, messages, constants
and whether an exception has happened.  Everything else is unknown and an
unknown test takes both branches.
"""
import ast

CATCHALL = ("Exception", "BaseException")
QUEUES = ("Queue", "SimpleQueue", "JoinableQueue")
HARMLESS_FN = {"print", "len", "list", "dict", "tuple", "set", "str", "repr", "range", "enumerate", "zip",
               "format", "isinstance", "type", "int", "float", "bool", "getattr", "hasattr", "sorted", "reversed",
               "elapsed", "max", "min", "id"}
HARMLESS_ATTR = {"append", "format", "join", "flush", "write", "exc_info", "format_exception", "format_exc",
                 "print_exc", "keys", "values", "items", "strip", "split", "time", "getpid", "copy", "extend",
                 "debug", "info", "warning", "error", "critical", "exception", "log", "get_logger"}
EXCNAMES = ("Exception", "BaseException", "RuntimeError", "Error")
MAXSTATES = 3000


class TooMany(Exception):
    pass


class St(object):
    __slots__ = ("env", "failed", "origin", "puts", "term", "joined", "daemon", "spawned")

    def __init__(self, env=None, failed=None, origin=None, puts=frozenset(), term=False, joined=None, daemon=False, spawned=False):
        self.env = env or {}
        self.failed = failed
        self.origin = origin
        self.puts = puts
        self.term = term
        self.joined = joined
        self.daemon = daemon
        self.spawned = spawned

    def key(self):
        return (frozenset(self.env.items()), self.failed, self.origin, self.puts, self.term, self.joined, self.daemon, self.spawned)

    def but(self, **kw):
        d = {k: getattr(self, k) for k in self.__slots__}
        d.update(kw)
        return St(**d)

    def bind(self, name, val):
        if self.env.get(name) == val:
            return self
        env = dict(self.env)
        if val is None:
            env.pop(name, None)
        else:
            env[name] = val
        return self.but(env=env)


def dedupe(outs):
    seen, res = set(), []
    for o in outs:
        k = (o[0], o[1].key()) + tuple(o[2:])
        if k not in seen:
            seen.add(k)
            res.append(o)
    if len(res) > MAXSTATES:
        raise TooMany()
    return res


def truth(v):
    if v is None:
        return None
    k = v[0]
    if k == "c":
        return bool(v[1])
    if k in ("pos", "neb", "procs", "proc", "q", "exc", "fn"):
        return True
    if k == "elist":
        return False
    if k == "t":
        return len(v[1]) > 0
    return None


def isnone(v):
    if v is None:
        return None
    if v[0] == "c":
        return v[1] is None
    return False


ACTS = {"put", "put_nowait", "get_nowait", "terminate", "kill", "Process", "_exit", "exit", "abort"}


def relevant(func, prog):
    """names whose values may steer the protocol: messages and what is set near queue operations"""
    def names(e):
        return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}

    def isget(n):
        return isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
            (n.func.attr == "get_nowait" or n.func.attr == "get" and (not n.args or isinstance(n.args[0], ast.Constant) and n.args[0].value in (True, False)))

    def act(n):
        if not isinstance(n, ast.Call):
            return False
        f = n.func
        nm = f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)
        return nm in ACTS or isget(n)
    R = set()
    for n in ast.walk(func.node):
        if isinstance(n, (ast.Assign, ast.NamedExpr)) and any(isget(m) for m in ast.walk(n.value)):
            for t in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                R |= names(t)

    # flags and counters: constants assigned around queue operations
    def flags(block, near):
        here = near or any(act(m) for x in block for m in ast.walk(x))
        for x in block:
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and here:
                R.add(x.target.id)
            elif isinstance(x, ast.Assign) and isinstance(x.value, ast.Constant) and here:
                for t in x.targets:
                    R.update(names(t))
            msg = isinstance(x, (ast.If, ast.While)) and bool(names(x.test) & R)
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(x, fld, None)
                if b and not isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                    flags(b, msg)
            for h in getattr(x, "handlers", ()):
                flags(h.body, any(act(m) for m in ast.walk(x)))
    flags(func.node.body, False)
    put = set()
    for n in ast.walk(func.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("put", "put_nowait"):
            put |= names(n)
        if isinstance(n, ast.Call):
            # values handed on together with queues
            pass
    R |= put
    for _ in range(4):
        for n in ast.walk(func.node):
            if isinstance(n, ast.Assign):
                t = set().union(*[names(x) for x in n.targets])
                if names(n.value) & R and not any(isinstance(c, (ast.Call, ast.Subscript)) and not act(c) for c in ast.walk(n.value)):
                    R |= t
                if t & put and not any(isinstance(c, ast.Call) for c in ast.walk(n.value)):
                    R |= names(n.value)
                    put |= names(n.value)
            elif isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id in R:
                R |= names(n.target)
    small = len(func.node.body) <= 12
    if small:
        a = func.node.args
        R |= {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        for n in ast.walk(func.node):
            if isinstance(n, ast.Return) and n.value is not None:
                R |= names(n.value)
    return R


class Exec(object):
    """mode 'worker': any non-trivial call may raise.  mode 'parent': only
    explicit raises and misuse of a failure message raise."""

    def __init__(self, prog, mode, messages=None, only=None):
        self.prog = prog
        self.mode = mode
        self.messages = messages or {}
        self.only = only
        self._track = {}
        self.spawns = []          # (Func, {param: val}, lineno)
        self.gets = {}            # queue -> [lineno]
        self.loops = 0
        self.stack = []
        self.problems = []        # (kind, text, func, lineno)
        self.inlined = set()
        self.raisers = 0
        self.loopput = set()
        self.fail_calls = ()

    # ------------------------------------------------------------ functions
    def run(self, func, env, st=None):
        st = st or St()
        self.stack.append(func)
        self.inlined.add(func.qual)
        tr = self.track
        env = {k: v for k, v in env.items() if k in tr or v[0] not in ("c", "obj", "lst", "elist", "neb", "pos", "t")}
        try:
            outs = self.block(func.node.body, [st.but(env=dict(env))])
        finally:
            self.stack.pop()
        if len(self.stack) == 0:
            outs = dedupe([(o[0], o[1].but(env={})) + (tuple(o[2:]) if o[0] == "raise" else ()) for o in outs])
        return outs

    @property
    def fn(self):
        return self.stack[-1]

    @property
    def track(self):
        f = self.fn
        if self.only is not None:
            return self.only
        if f.qual not in self._track:
            self._track[f.qual] = relevant(f, self.prog)
        return self._track[f.qual]

    def problem(self, kind, text, node):
        p = (kind, text, self.fn, getattr(node, "lineno", 0))
        if p not in self.problems:
            self.problems.append(p)

    # ----------------------------------------------------------- statements
    def block(self, stmts, states):
        """list of outcomes (kind, st, extra...)"""
        cur = [s for s in states]
        done = []
        for s in stmts:
            outs = []
            for st in cur:
                outs.extend(self.stmt(s, st))
            outs = dedupe(outs)
            cur = [o[1] for o in outs if o[0] == "next"]
            done.extend(o for o in outs if o[0] != "next")
            if not cur:
                break
        return dedupe(done + [("next", st) for st in cur])

    def stmt(self, s, st):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return [("next", st)]
        return m(s, st)

    def s_Expr(self, s, st):
        return [("next", o[2]) if o[0] == "v" else o[1:] for o in self.ev(s.value, st)]

    def assign(self, tgt, val, st):
        if isinstance(tgt, ast.Name):
            if val is not None and tgt.id not in self.track and val[0] in ("c", "obj", "lst", "elist", "neb", "pos", "t"):
                val = None
            return st.bind(tgt.id, val)
        if isinstance(tgt, (ast.Tuple, ast.List)):
            vs = val[1] if val is not None and val[0] == "t" and len(val[1]) == len(tgt.elts) else [None] * len(tgt.elts)
            for t, v in zip(tgt.elts, vs):
                st = self.assign(t, v, st)
            return st
        if isinstance(tgt, ast.Attribute) and tgt.attr == "daemon" and truth(val) and self.isval(tgt.value, st, ("proc",)):
            return st.but(daemon=True)
        return st

    def isval(self, e, st, kinds):
        return isinstance(e, ast.Name) and (st.env.get(e.id) or ("",))[0] in kinds

    def s_Assign(self, s, st):
        outs = []
        for o in self.ev(s.value, st):
            if o[0] != "v":
                outs.append(o[1:])
                continue
            x = o[2]
            if o[1] is not None and o[1] == ("c", None) and any(isinstance(t, (ast.Tuple, ast.List)) for t in s.targets):
                outs.append(("raise", x, "TypeError"))
                continue
            subs = [t for t in s.targets if isinstance(t, (ast.Subscript, ast.Attribute))]
            pend = [x]
            for t in subs:
                nxt = []
                for y in pend:
                    for p in self.ev(t.value, y) if isinstance(t, ast.Attribute) else self.evs([t.value, t.slice], y):
                        if p[0] == "v":
                            nxt.append(p[2])
                        else:
                            outs.append(p[1:])
                pend = nxt
            for y in pend:
                for t in s.targets:
                    y = self.assign(t, o[1], y)
                outs.append(("next", y))
        return outs

    def s_AnnAssign(self, s, st):
        if s.value is None:
            return [("next", st)]
        return self.s_Assign(ast.Assign(targets=[s.target], value=s.value, lineno=s.lineno), st)

    def s_AugAssign(self, s, st):
        outs = []
        for o in self.ev(s.value, st):
            if o[0] != "v":
                outs.append(o[1:])
                continue
            v, x = o[1], o[2]
            old = x.env.get(s.target.id) if isinstance(s.target, ast.Name) else None
            r = self.binop(old, v, s.op)
            if r == "raise":
                outs.append(("raise", x, "TypeError"))
            elif isinstance(s.target, ast.Name):
                outs.append(("next", self.assign(s.target, r, x)))
            else:
                outs.append(("next", x))
        return outs

    def binop(self, a, b, op):
        if a == ("c", None) or b == ("c", None):
            return "raise"

        def num(v):
            return v is not None and (v[0] == "pos" or v[0] == "c" and isinstance(v[1], (int, float)) and v[1] >= 0)
        if isinstance(op, ast.Add) and num(a) and num(b):
            if a == ("c", 0) and b == ("c", 0):
                return a
            return ("pos",)
        if isinstance(op, ast.Add) and a is not None and b is not None:
            if "neb" in (a[0], b[0]):
                return ("neb",)
        return None

    def s_Return(self, s, st):
        if s.value is None:
            return [("return", st, ("c", None))]
        return [("return", o[2], o[1]) if o[0] == "v" else o[1:] for o in self.ev(s.value, st)]

    def s_Raise(self, s, st):
        name = "*"
        outs = []
        states = [st]
        if s.exc is not None:
            e = s.exc.func if isinstance(s.exc, ast.Call) else s.exc
            if isinstance(e, ast.Name):
                name = e.id if e.id[:1].isupper() else "*"
            elif isinstance(e, ast.Attribute):
                name = e.attr
            states = []
            for o in self.ev(s.exc, st, quiet=True):
                if o[0] == "v":
                    states.append(o[2])
                else:
                    outs.append(o[1:])
        for x in states:
            if self.mode == "worker" and x.failed is None:
                x = x.but(failed=True, origin=s.lineno)
            outs.append(("raise", x, name))
        return outs

    def s_Assert(self, s, st):
        outs = []
        for r in self.test(s.test, st):
            if r[0] == "v":
                outs.append(("next", r[2]) if r[1] else ("raise", r[2], "AssertionError"))
            else:
                outs.append(r[1:])
        return outs

    def s_Pass(self, s, st):
        return [("next", st)]

    def s_Break(self, s, st):
        return [("break", st)]

    def s_Continue(self, s, st):
        return [("continue", st)]

    def s_Delete(self, s, st):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st = st.bind(t.id, None)
        return [("next", st)]

    def s_FunctionDef(self, s, st):
        q = None
        for f in self.prog.funcs.values():
            if f.node is s:
                q = f
        return [("next", st.bind(s.name, ("fn", q) if q is not None else None))]

    def s_If(self, s, st):
        outs = []
        for r in self.test(s.test, st):
            if r[0] != "v":
                outs.append(r[1:])
            else:
                outs.extend(self.block(s.body if r[1] else s.orelse, [r[2]]) if (r[1] or s.orelse) else [("next", r[2])])
        return outs

    def s_With(self, s, st):
        pend, outs = [st], []
        for it in s.items:
            nxt = []
            for x in pend:
                for o in self.ev(it.context_expr, x):
                    if o[0] == "v":
                        y = o[2]
                        if it.optional_vars is not None:
                            y = self.assign(it.optional_vars, None, y)
                        nxt.append(y)
                    else:
                        outs.append(o[1:])
            pend = nxt
        return outs + self.block(s.body, pend)

    def loop(self, s, init, body, least=False):
        """init: states at the head; body(st) -> outcomes of one pass"""
        seen, work, exits, outs = {}, [(x, True) for x in init], [], []
        while work:
            x, first = work.pop()
            k = (x.key(), first)
            if k in seen:
                continue
            seen[k] = True
            if len(seen) > MAXSTATES:
                raise TooMany()
            for o in body(x, first):
                if o[0] in ("next", "continue"):
                    work.append((o[1], False))
                elif o[0] == "break":
                    exits.append(("next", o[1]))
                elif o[0] == "end":
                    if not (first and least):
                        exits.append(("else", o[1]))
                else:
                    outs.append(o)
        for o in dedupe(exits):
            if o[0] == "else" and getattr(s, "orelse", None):
                outs.extend(self.block(s.orelse, [o[1]]))
            else:
                outs.append(("next", o[1]))
        return dedupe(outs)

    def s_For(self, s, st):
        outs = []
        for o in self.ev(s.iter, st):
            if o[0] != "v":
                outs.append(o[1:])
                continue
            v, x = o[1], o[2]
            if v == ("c", None):
                outs.append(("raise", x, "TypeError"))
                continue
            elt = self.element(s.iter, v, x)

            def body(y, first):
                r = [("end", y)]
                z = self.assign(s.target, elt, y)
                self.loops += 1
                try:
                    r += self.block(s.body, [z])
                finally:
                    self.loops -= 1
                return r
            least = self.mode == "parent" or v is not None and v[0] == "procs"
            if v is not None and v[0] == "elist":
                outs.append(("next", x))
                continue
            outs.extend(self.loop(s, [x], body, least))
        return outs

    def element(self, it, v, st):
        if v is not None and v[0] == "procs":
            return ("proc",)
        if v is not None and v[0] == "msglist":
            return v[1]
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.args:
            n = it.func.id
            if n == "enumerate":
                return ("t", (None, self.element(it.args[0], self.peek(it.args[0], st), st)))
            if n == "zip":
                return ("t", tuple(self.element(a, self.peek(a, st), st) for a in it.args))
            if n in ("list", "reversed", "sorted", "tuple", "tqdm"):
                return self.element(it.args[0], self.peek(it.args[0], st), st)
        return None

    def peek(self, e, st):
        return st.env.get(e.id) if isinstance(e, ast.Name) else None

    def s_While(self, s, st):
        def body(y, first):
            r = []
            for t in self.test(s.test, y):
                if t[0] != "v":
                    r.append(t[1:])
                elif t[1]:
                    self.loops += 1
                    try:
                        r += self.block(s.body, [t[2]])
                    finally:
                        self.loops -= 1
                else:
                    r.append(("end", t[2]))
            return r
        return self.loop(s, [st], body)

    def s_Try(self, s, st):
        outs = self.block(s.body, [st])
        res, done = [], []
        for o in outs:
            if o[0] == "next":
                done.extend(self.block(s.orelse, [o[1]]) if s.orelse else [o])
            elif o[0] != "raise":
                done.append(o)
            else:
                done.extend(self.handle(s, o))
        done = dedupe(done)
        if not s.finalbody:
            return done
        for o in done:
            for f in self.block(s.finalbody, [o[1]]):
                res.append((o[0], f[1]) + tuple(o[2:]) if f[0] == "next" else f)
        return dedupe(res)

    def handle(self, s, o):
        st, name = o[1], o[2]
        for h in s.handlers:
            types = self.htypes(h.type)
            sure = types is None or any(t in CATCHALL for t in types) and name != "SystemExit" or types is not None and "BaseException" in types
            if not sure and name != "*" and name in types:
                sure = True
            maybe = sure or name == "*"
            if not maybe:
                continue
            x = st
            narrow = types is not None and not any(t in CATCHALL for t in types)
            if self.mode == "worker" and narrow and len(self.stack) > 1 and x.failed:
                x = x.but(failed=None, origin=None)     # a specific error handled inside the computation
            if h.name:
                x = x.bind(h.name, ("exc",))
            outs = []
            for r in self.block(h.body, [x]):
                if r[0] == "raise" and r[2] == "*":
                    r = (r[0], r[1], name)
                outs.append((r[0], r[1].bind(h.name, None)) + tuple(r[2:]) if h.name else r)
            if sure:
                return outs
            return outs + [o]
        return [o]

    def htypes(self, t):
        if t is None:
            return None
        es = t.elts if isinstance(t, ast.Tuple) else [t]
        return [e.attr if isinstance(e, ast.Attribute) else getattr(e, "id", "?") for e in es]

    # ----------------------------------------------------------- tests
    def test(self, e, st):
        """[( 'v', bool, st )] or raise outcomes"""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [("v", not r[1], r[2]) if r[0] == "v" else r for r in self.test(e.operand, st)]
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            pend, outs = [st], []
            for v in e.values:
                nxt = []
                for x in pend:
                    for r in self.test(v, x):
                        if r[0] != "v":
                            outs.append(r)
                        elif r[1] == isand:
                            nxt.append(r[2])
                        else:
                            outs.append(r)
                pend = nxt
            return outs + [("v", isand, x) for x in pend]
        outs = []
        for o in self.ev(e, st):
            if o[0] != "v":
                outs.append(o)
                continue
            b = truth(o[1])
            for want in (True, False):
                if b is None or b == want:
                    outs.append(("v", want, self.refine(e, want, o[2]) if b is None else o[2]))
        return outs

    def refine(self, e, want, st):
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.left, ast.Name) and \
                isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is None and \
                st.env.get(e.left.id) is None and e.left.id in self.track:
            pos = isinstance(e.ops[0], (ast.Is, ast.Eq))
            return st.bind(e.left.id, ("c", None) if pos == want else ("obj",))
        return st

    # ----------------------------------------------------------- expressions
    def evs(self, es, st):
        """evaluate several expressions in order: ('v', [vals], st)"""
        cur, outs = [([], st)], []
        for e in es:
            nxt = []
            for vs, x in cur:
                if e is None:
                    nxt.append((vs + [None], x))
                    continue
                for o in self.ev(e, x):
                    if o[0] == "v":
                        nxt.append((vs + [o[1]], o[2]))
                    else:
                        outs.append(o)
            cur = nxt
        return [("v", vs, x) for vs, x in cur] + outs

    def ev(self, e, st, quiet=False):
        if isinstance(e, ast.Constant):
            v = e.value
            return [("v", ("c", v) if v is None or isinstance(v, (bool, int, str)) else ("obj",), st)]
        if isinstance(e, ast.Name):
            return [("v", st.env.get(e.id), st)]
        if isinstance(e, ast.Tuple):
            return [("v", ("t", tuple(o[1])), o[2]) if o[0] == "v" else o for o in self.evs(e.elts, st)]
        if isinstance(e, ast.List):
            outs = []
            for o in self.evs(e.elts, st):
                if o[0] == "v":
                    v = ("elist",) if not o[1] else ("procs",) if all(x == ("proc",) for x in o[1]) else ("neb",)
                    outs.append(("v", v, o[2]))
                else:
                    outs.append(o)
            return outs
        if isinstance(e, ast.Dict):
            return [("v", ("obj",), o[2]) if o[0] == "v" else o for o in self.evs([k for k in e.keys if k] + e.values, st)]
        if isinstance(e, ast.Starred):
            return self.ev(e.value, st)
        if isinstance(e, ast.Call):
            return self.call(e, st, quiet)
        if isinstance(e, ast.BoolOp) or isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [("v", ("c", r[1]), r[2]) if r[0] == "v" else r for r in self.test(e, st)]
        if isinstance(e, ast.Compare):
            outs = []
            for o in self.evs([e.left] + e.comparators, st):
                outs.append(("v", self.compare(e, o[1]), o[2]) if o[0] == "v" else o)
            return outs
        if isinstance(e, ast.IfExp):
            outs = []
            for r in self.test(e.test, st):
                outs.extend(self.ev(e.body if r[1] else e.orelse, r[2]) if r[0] == "v" else [r])
            return outs
        if isinstance(e, ast.BinOp):
            outs = []
            for o in self.evs([e.left, e.right], st):
                if o[0] != "v":
                    outs.append(o)
                    continue
                r = self.binop(o[1][0], o[1][1], e.op) if not isinstance(e.op, ast.Mod) else None
                outs.append(("x", "raise", o[2], "TypeError") if r == "raise" else ("v", r, o[2]))
            return outs
        if isinstance(e, ast.Subscript):
            outs = []
            for o in self.evs([e.value, e.slice], st):
                if o[0] != "v":
                    outs.append(o)
                    continue
                b, i = o[1]
                if b == ("c", None) or b is not None and b[0] == "c" and isinstance(b[1], (bool, int)):
                    outs.append(("x", "raise", o[2], "TypeError"))
                elif b is not None and b[0] == "t" and i is not None and i[0] == "c" and isinstance(i[1], int) and -len(b[1]) <= i[1] < len(b[1]):
                    outs.append(("v", b[1][i[1]], o[2]))
                elif b is not None and b[0] == "procs" and not isinstance(e.slice, ast.Slice):
                    outs.append(("v", ("proc",), o[2]))
                else:
                    outs.append(("v", None, o[2]))
            return outs
        if isinstance(e, ast.Attribute):
            outs = []
            for o in self.ev(e.value, st):
                if o[0] == "v" and o[1] == ("c", None):
                    outs.append(("x", "raise", o[2], "AttributeError"))
                else:
                    outs.append(("v", None, o[2]) if o[0] == "v" else o)
            return outs
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            return self.comp(e, st)
        if isinstance(e, ast.Lambda):
            return [("v", None, st)]
        subs = [c for c in ast.iter_child_nodes(e) if isinstance(c, ast.expr)]
        return [("v", None, o[2]) if o[0] == "v" else o for o in self.evs(subs, st)]

    def comp(self, e, st):
        g = e.generators[0]
        outs = []
        for o in self.ev(g.iter, st):
            if o[0] != "v":
                outs.append(o)
                continue
            x, env = o[2], o[2].env
            elt = self.element(g.iter, o[1], x)
            y = self.assign(g.target, elt, x)
            for g2 in e.generators[1:]:
                y = self.assign(g2.target, None, y)
            body = [e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]
            conds = [c for q in e.generators for c in q.ifs] + [q.iter for q in e.generators[1:]]
            self.loops += 1
            try:
                rs = self.evs(conds + body, y)
            finally:
                self.loops -= 1
            for r in rs:
                if r[0] != "v":
                    outs.append((r[0], r[1], r[2].but(env=env)) + tuple(r[3:]))
                else:
                    v = r[1][-1]
                    kind = ("procs",) if v == ("proc",) else ("lst",)
                    outs.append(("v", kind, r[2].but(env=env)))
        return outs

    def compare(self, e, vals):
        if len(e.ops) != 1:
            return None
        a, b, op = vals[0], vals[1], e.ops[0]
        if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            pos = isinstance(op, (ast.Is, ast.Eq))
            for x, y in ((a, b), (b, a)):
                if y == ("c", None):
                    n = isnone(x)
                    return None if n is None else ("c", n == pos)
            if a is not None and b is not None and a[0] == "c" and b[0] == "c":
                return ("c", (a[1] == b[1] and (type(a[1]) is type(b[1]) or isinstance(op, (ast.Eq, ast.NotEq)))) == pos)
            for x, y in ((a, b), (b, a)):
                if y is not None and x is not None and y[0] == "c" and x[0] in ("t", "lst", "neb", "elist", "exc", "q", "proc", "procs"):
                    return ("c", not pos)
                if y == ("c", 0) and x == ("pos",):
                    return ("c", not pos)
            return None
        if isinstance(op, (ast.Gt, ast.Lt, ast.GtE, ast.LtE)):
            if isinstance(op, (ast.Lt, ast.LtE)):
                a, b, op = b, a, (ast.Gt() if isinstance(op, ast.Lt) else ast.GtE())
            if a == ("pos",) and b is not None and b[0] == "c" and isinstance(b[1], int) and b[1] <= 0:
                return ("c", True)
            if b == ("pos",) and a is not None and a[0] == "c" and isinstance(a[1], int) and a[1] <= 0:
                return ("c", False)
            if a is not None and b is not None and a[0] == "c" and b[0] == "c" and \
                    isinstance(a[1], int) and isinstance(b[1], int):
                return ("c", a[1] > b[1] if isinstance(op, ast.Gt) else a[1] >= b[1])
        return None

    # ----------------------------------------------------------- calls
    def target(self, f, st):
        """project Func of a callee expression"""
        if isinstance(f, ast.Name):
            v = st.env.get(f.id)
            if v is not None and v[0] == "fn":
                return v[1]
            r = self.prog.lookup(self.fn.mod, f.id)
            if r is None:
                r = self.localimport(f.id)
            return r[1] if r is not None and r[0] == "fn" else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
            r = self.prog.lookup(self.fn.mod, f.value.id) or self.localimport(f.value.id)
            if r is not None and r[0] == "mod" and r[1] in self.prog.mods:
                r2 = self.prog.lookup(self.prog.mods[r[1]], f.attr)
                return r2[1] if r2 is not None and r2[0] == "fn" else None
        return None

    def localimport(self, name):
        k = (self.fn.qual, name)
        c = self.prog.__dict__.setdefault("_localimports", {})
        if k not in c:
            c[k] = self._localimport(name)
        return c[k]

    def _localimport(self, name):
        m = self.fn.mod
        pkg = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
        for n in ast.walk(self.fn.node):
            if isinstance(n, (ast.Import, ast.ImportFrom)):
                names = {}
                self.prog.bind_import(n, names, pkg)
                if name in names:
                    return self.prog.resolve(names[name])
        return None

    def call(self, e, st, quiet=False):
        f = e.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else None
        outs = []
        # receiver
        recv = None
        pre = [("v", None, st)]
        if isinstance(f, ast.Attribute):
            pre = self.ev(f.value, st)
        elif not isinstance(f, ast.Name):
            pre = self.ev(f, st)
        kwn = [k.arg for k in e.keywords]
        for p in pre:
            if p[0] != "v":
                outs.append(p)
                continue
            recv = p[1]
            if recv == ("c", None) and isinstance(f, ast.Attribute):
                outs.append(("x", "raise", p[2], "AttributeError"))
                continue
            for o in self.evs(list(e.args) + [k.value for k in e.keywords], p[2]):
                if o[0] != "v":
                    outs.append(o)
                    continue
                vals, x = o[1], o[2]
                args, kws = vals[:len(e.args)], dict(zip(kwn, vals[len(e.args):]))
                outs.extend(self.apply(e, name, recv, args, kws, x, quiet))
        return outs

    def apply(self, e, name, recv, args, kws, st, quiet):
        isattr = isinstance(e.func, ast.Attribute)
        rk = recv[0] if recv is not None else None
        if name in QUEUES and not (rk == "q"):
            q = ("q", "%s:%d:%d" % (self.fn.qual, e.lineno, e.col_offset))
            x = st.but(joined=None, term=False, spawned=False)
            return [("v", q, x)]
        if name == "Process":
            return self.spawn(e, args, kws, st)
        if rk == "q" and isattr:
            if name in ("put", "put_nowait"):
                v = args[0] if args else kws.get("obj")
                if v is not None and v[0] == "neb":
                    v = ("lst",)
                if self.loops:
                    self.loopput.add(recv[1])
                return [("v", ("c", None), st.but(puts=st.puts | {(recv[1], bool(st.failed), v, e.lineno)}))]
            if name in ("get", "get_nowait"):
                return self.receive(e, recv[1], args, kws, st)
            return [("v", None, st)]
        if isattr and name in ("terminate", "kill") and rk in ("proc", "procs"):
            return [("v", ("c", None), st.but(term=True))]
        if isattr and name == "join" and rk == "proc":
            if st.failed is not None and not st.term and not st.daemon and not args and not kws:
                self.problem("join", "after a failure message the parent waits for the workers before stopping them; "
                             "a worker with an unread result never ends", e)
            return [("v", ("c", None), st.but(joined=e.lineno if not args and not kws else st.joined))]
        if isattr and name == "append" and (rk in ("procs", "elist", "neb") or args and args[0] == ("proc",)):
            tgt = e.func.value
            new = ("procs",) if (args and args[0] == ("proc",)) else recv if rk == "procs" else ("neb",)
            return [("v", ("c", None), st.bind(tgt.id, new) if isinstance(tgt, ast.Name) else st)]
        if isattr and rk == "proc" and name == "start":
            return [("v", ("c", None), st)]
        if not isattr and name in ("list", "dict", "set") and not args and not kws:
            return [("v", ("elist",), st)]
        if not isattr and name in ("list", "tuple", "reversed", "sorted", "enumerate", "zip") and args:
            a = args[0]
            if a is not None and a[0] in ("procs",):
                return [("v", a, st)]
            return [("v", ("lst",) if a != ("c", None) else None, st)]
        if not isattr and name == "isinstance" and len(args) == 2:
            return [("v", self.isinst(args[0], e.args[1]), st)]
        if not isattr and name == "len" and args:
            t = truth(args[0])
            if args[0] == ("c", None):
                return [("x", "raise", st, "TypeError")]
            return [("v", ("pos",) if t is True else ("c", 0) if t is False else None, st)]
        if (isattr and name == "exit" and isinstance(e.func.value, ast.Name) and e.func.value.id == "sys") or name in ("_exit",) \
                or (not isattr and name in ("exit", "quit")):
            x = st.but(term=True) if name == "_exit" else st
            if self.mode == "worker" and x.failed is None:
                x = x.but(failed=True, origin=e.lineno)
            return [("x", "raise", x, "SystemExit")]
        t = self.target(e.func, st)
        if t is not None and t.qual in self.fail_calls:
            return [("x", "raise", st.but(failed=t.qual, origin=e.lineno), "*")]
        if t is not None and t not in self.stack and len(self.stack) < 8 and self.worth(t, args, kws):
            return self.inline(t, e, args, kws, st)
        val = None
        if name is not None and name[:1].isupper() and (name.endswith("Error") or name.endswith("Exception")):
            val = ("exc",)
        elif isattr and name in ("join", "format"):
            val = ("obj",)
        outs = [("v", val, st)]
        if self.mode == "worker" and not quiet and not self.harmless(e, name, isattr) and not self.gentle(t):
            x = st if st.failed else st.but(failed=True, origin=e.lineno)
            outs.append(("x", "raise", x, "*"))
            self.raisers += 1
        return outs

    def harmless(self, e, name, isattr):
        if name is None:
            return False
        if not isattr:
            if name[:1].isupper() and name.endswith("Error"):
                return True
            return name in HARMLESS_FN and name not in self.fn.mod.names or name in ("elapsed",)
        return name in HARMLESS_ATTR

    def gentle(self, t, seen=()):
        """a helper whose body only makes calls that are harmless here (formatting and printing a message)"""
        if t is None or t in seen or len(seen) > 4:
            return False
        for st in t.node.body:
            for n in ast.walk(st):
                if isinstance(n, (ast.Raise, ast.Assert, ast.BinOp, ast.Subscript, ast.While, ast.Import, ast.ImportFrom,
                                  ast.Await, ast.Yield, ast.YieldFrom)):
                    return False
                if isinstance(n, ast.Call):
                    isattr = isinstance(n.func, ast.Attribute)
                    nm = n.func.attr if isattr else n.func.id if isinstance(n.func, ast.Name) else None
                    if nm in ("exit", "put", "get") or not (self.harmless(n, nm, isattr) or not isattr and self.gentle(
                            self.target(n.func, St()), seen + (t,))):
                        return False
        return True

    def worth(self, t, args, kws):
        for v in list(args) + list(kws.values()):
            if v is not None and v[0] in ("q", "procs", "proc", "exc"):
                return True
        b = t.node.body
        if b and isinstance(b[-1], ast.Raise):
            return True
        if self.mode == "parent" and any(v == ("c", None) for v in args) and len(b) <= 6:
            return True
        return False

    def inline(self, t, e, args, kws, st):
        if t.decorators:
            return [("v", None, st)]
        pos, kwo, va, ka = t.params()
        env = {}
        a = t.node.args
        dflt = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        dflt.update({k: d for k, d in zip(kwo, a.kw_defaults) if d is not None})
        for n, d in dflt.items():
            if isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, (bool, int))):
                env[n] = ("c", d.value)
            else:
                env.pop(n, None)
        for n, v in zip(pos, args):
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v
        for n, v in kws.items():
            if n is None:
                continue
            if v is None:
                env.pop(n, None)
            else:
                env[n] = v
        if ".<locals>." in t.qual:
            for k, v in st.env.items():
                env.setdefault(k, v)
        save, lp = st.env, self.loops
        outs = []
        for o in self.run(t, env, st):
            y = o[1].but(env=save)
            # an argument list extended inside the callee
            for p, x in zip(pos, e.args):
                if isinstance(x, ast.Name) and o[1].env.get(p) in (("procs",), ("neb",)) and save.get(x.id) == ("elist",):
                    y = y.bind(x.id, o[1].env[p])
            if o[0] == "next":
                outs.append(("v", ("c", None), y))
            elif o[0] == "return":
                outs.append(("v", o[2], y))
            elif o[0] == "raise":
                outs.append(("x", "raise", y, o[2]))
        self.loops = lp
        res, seen = [], set()
        for o in outs:
            k = (o[0], o[1], o[2].key()) + tuple(o[3:])
            if k not in seen:
                seen.add(k)
                res.append(o)
        return res

    def isinst(self, v, te):
        es = te.elts if isinstance(te, ast.Tuple) else [te]
        names = [x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?") for x in es]
        if v is None:
            return None
        exc = any(n in EXCNAMES or n.endswith("Error") for n in names)
        if v[0] == "exc":
            return ("c", True) if any(n in CATCHALL for n in names) else ("c", False) if not exc else None
        if v[0] in ("t", "lst", "elist", "neb", "pos", "c", "procs", "proc", "q"):
            if exc and all(n in EXCNAMES or n.endswith("Error") for n in names):
                return ("c", False)
            kind = {"t": "tuple", "lst": "list", "elist": "list", "neb": "list", "pos": "int"}.get(v[0])
            if v[0] == "c":
                kind = type(v[1]).__name__
            if kind and all(n in ("tuple", "list", "int", "str", "dict", "float", "bool") for n in names):
                return ("c", kind in names)
        return None

    def receive(self, e, q, args, kws, st):
        self.gets.setdefault(q, [])
        if (self.fn, e.lineno) not in self.gets[q]:
            self.gets[q].append((self.fn, e.lineno))
        timed = bool(args) or bool(kws) or e.func.attr == "get_nowait"
        outs = []
        if st.joined is not None and not timed:
            self.problem("early-join", "the parent waits for the workers at line %d before it has read their results" % st.joined, e)
        if st.failed == q and q in self.messages.get("loop", ()) and not timed:
            self.problem("wait-on", "the parent keeps waiting on a queue after a failure message from it", e)
        if timed:
            outs.append(("x", "raise", st, "Empty"))
        msgs = self.messages.get(q)
        if not msgs:
            outs.append(("v", None, st))
            return outs
        if not st.spawned:
            return []          # no worker, no message: this path does not happen
        for (failed, val) in msgs:
            x = st
            if failed:
                x = x.but(failed=q, origin=e.lineno)
            elif st.failed is not None and st.failed != q:
                x = x.but(failed=None, origin=None)
            outs.append(("v", val, x))
        return outs

    def spawn(self, e, args, kws, st):
        tgt = None
        for k in e.keywords:
            if k.arg == "target":
                tgt = self.target(k.value, st)
        if tgt is None and len(e.args) > 1:
            tgt = self.target(e.args[1], st)
        a = kws.get("args") or (args[3] if len(args) > 3 else None)
        if truth(kws.get("daemon")):
            st = st.but(daemon=True)
        env, known = {}, tgt is not None
        if tgt is not None:
            pos = tgt.params()[0]
            if a is not None and a[0] == "t":
                for n, v in zip(pos, a[1]):
                    if v is not None:
                        env[n] = v
            elif "args" in [k.arg for k in e.keywords]:
                known = False
            for k in e.keywords:
                if k.arg == "kwargs":
                    if isinstance(k.value, ast.Dict) and all(isinstance(x, ast.Constant) for x in k.value.keys):
                        for kk, vv in zip(k.value.keys, k.value.values):
                            v = self.peek(vv, st)
                            if v is not None:
                                env[kk.value] = v
                    elif isinstance(k.value, ast.Call) and getattr(k.value.func, "id", "") == "dict":
                        for kk in k.value.keywords:
                            v = self.peek(kk.value, st)
                            if v is not None:
                                env[kk.arg] = v
                    else:
                        known = False
        rec = (tgt, tuple(sorted(env.items(), key=repr)), e.lineno, self.fn, known)
        if rec not in self.spawns:
            self.spawns.append(rec)
        return [("v", ("proc",), st.but(spawned=True))]
