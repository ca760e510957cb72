"""Queries over terms and effects shared by the checks."""
from .terms import *
from .terms import mksub  # noqa

WRAP1 = {"numpy.asarray", "numpy.array", "cupy.asarray", "cupy.array", "numpy.ascontiguousarray", "numpy.copy", "cupy.copy",
         "builtins.list", "builtins.tuple", "builtins.int", "builtins.float", "builtins.iter", "cupy.asnumpy", "numpy.atleast_1d",
         "numpy.ascontiguousarray", "cupy.ascontiguousarray", "numpy.asanyarray", "numpy.require", "copy.copy", "copy.deepcopy"}


def fname(t):
    """dotted name of a callee term"""
    if t.op in ("ext", "fn", "cls"):
        return t.a[0]
    if t.op == "attr":
        return "." + t.a[1]
    if t.op == "bm":
        return t.a[1]
    return ""


def is_call(t, *names):
    if t.op != "call":
        return False
    n = fname(t.a[0])
    return any(n == x or n.endswith("." + x) for x in names)


def cargs(t):
    return [x for x in t.a[1:] if x.op != "kw"]


def ckw(t, name, pos=None, default=None):
    for x in t.a[1:]:
        if x.op == "kw" and x.a[0] == name:
            return x.a[1]
    if pos is not None:
        p = cargs(t)
        if len(p) > pos:
            return p[pos]
    return default


def strip(t, methods=("get", "astype", "copy", "tolist")):
    """drop value-preserving wrappers"""
    while True:
        if t.op == "alloc":
            t = t.a[1]
            continue
        if t.op == "call":
            n = fname(t.a[0])
            if n in WRAP1 and len(t.a) >= 2 and t.a[1].op != "kw":
                t = t.a[1]
                continue
            if t.a[0].op == "attr" and t.a[0].a[1] in methods:
                t = t.a[0].a[0]
                continue
            if n in ("numpy.astype", "numpy.copy", "numpy.tolist") and len(t.a) >= 2:
                t = t.a[1]
                continue
        return t


def deep_strip(t):
    """remove alloc and value-preserving wrappers everywhere"""
    return rewrite(t, lambda x: strip(x))


def is_range(t):
    return t.op == "range" or is_call(t, "builtins.range", "numpy.arange")


def rargs(t):
    return list(t.a) if t.op == "range" else cargs(t)


def as_aug(e):
    """(operator, operand) of x[k] op= v, also when written x[k] = x[k] op v"""
    if e.d.get("op") or e.kind != "setitem":
        return e.d.get("op"), e.value
    v = e.value
    while v.op == "alloc":
        v = v.a[1]
    if v.op == "bin" and v.a[0] in ("|", "&", "+", "*", "^"):
        cur = mksub(e.base, e.key)
        rest = [x for x in v.a[1:] if x is not cur and strip(x) is not strip(cur)]
        if len(rest) == len(v.a) - 2:
            return v.a[0], rest[0] if len(rest) == 1 else mk("bin", v.a[0], *rest)
    return None, e.value


def flat_guards(e):
    out = []
    for g, k in e.guards:
        if g.op == "and":
            out.extend(g.a)
        else:
            out.append(g)
    return out


def exc_guards(e):
    return [g for g in flat_guards(e) if g.op == "exc"]


def calls(I, *names, **kw):
    """call effects whose callee matches; optional ctx filter"""
    out = []
    for e in I.effects:
        if e.kind != "call":
            continue
        n = fname(e.fn)
        if any(n == x or n.endswith("." + x) for x in names):
            out.append(e)
    return out


def effs(I, *kinds):
    """effects of these kinds; returns only of the analysed function itself, not of the helpers it calls"""
    return [e for e in I.effects if e.kind in kinds and (e.kind != "return" or e.depth <= 1)]


def assume(t, lits):
    """Resolve ite/and/or in t given truth values for literals {term: bool}."""
    m = {}
    for k, v in lits.items():
        m[k.id] = v
        nk = mknot(k)
        m[nk.id] = not v
    memo = {}

    def f(x):
        r = memo.get(x.id)
        if r is not None:
            return r
        if x.id in m:
            r = TRUE if m[x.id] else FALSE
        elif x.op == "ite":
            c = f(x.a[0])
            if is_const(c):
                r = f(x.a[1]) if c.a[0] else f(x.a[2])
            else:
                r = mkite(c, f(x.a[1]), f(x.a[2]))
        else:
            na = tuple(f(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            if r.id in m:
                r = TRUE if m[r.id] else FALSE
        memo[x.id] = r
        return r
    return f(t)


def factors(t):
    if t.op == "bin" and t.a[0] == "*":
        return list(t.a[1:])
    return [t]


def addends(t):
    if t.op == "bin" and t.a[0] == "+":
        return list(t.a[1:])
    return [t]


def leaves(t, pred):
    return [x for x in subterms(t) if pred(x)]


def params_in(t):
    return {x.a[1] for x in subterms(t) if x.op == "param"}


def ites(t):
    """all alternatives of a gated value: list of (conds, term)"""
    out = []

    def go(x, cs):
        if x.op == "ite":
            go(x.a[1], cs + [x.a[0]])
            go(x.a[2], cs + [mknot(x.a[0])])
        else:
            out.append((cs, x))
    go(t, [])
    return out


def glob_const(prog, t):
    """constant value of a module-level name or class attribute, else None"""
    import ast
    if t.op == "const":
        return t.a[0]
    if t.op == "global":
        m, _, n = t.a[0].rpartition(".")
        mod = prog.mods.get(m)
        if mod is None:
            return None
        r = mod.names.get(n)
        if r and r[0] == "var":
            return var_eval(prog, mod, n, r[1])
    if t.op == "attr" and t.a[0].op == "cls":
        c = prog.classes.get(t.a[0].a[0])
        if c and t.a[1] in c.consts:
            return const_eval(prog, c.mod, c.consts[t.a[1]], c)
    return None


def var_eval(prog, mod, name, expr, d=0):
    """value of a module-level name, following assignments and augmented assignments in order"""
    import ast
    if d > 20:
        return None
    v, n = None, 0
    for s in mod.tree.body:
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == name for t in s.targets):
            v = const_eval(prog, mod, s.value, None, d + 1)
            n += 1
        elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id == name:
            w = const_eval(prog, mod, s.value, None, d + 1)
            if v is None or w is None:
                return None
            try:
                v = {ast.BitOr: lambda a, b: a | b, ast.BitAnd: lambda a, b: a & b, ast.Add: lambda a, b: a + b, ast.Sub: lambda a, b: a - b,
                     ast.BitXor: lambda a, b: a ^ b, ast.Mult: lambda a, b: a * b}[type(s.op)](v, w)
            except (KeyError, TypeError):
                return None
            n += 1
        elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)) and any(
                isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store) for x in ast.walk(s)):
            return None
    if n == 0:
        return const_eval(prog, mod, expr, None, d + 1) if expr is not None else None
    return v


def const_eval(prog, mod, e, cls=None, d=0):
    import ast
    import operator as o
    if d > 20:
        return None
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.Name):
        if cls is not None and e.id in cls.consts:
            return const_eval(prog, mod, cls.consts[e.id], cls, d + 1)
        r = prog.lookup(mod, e.id)
        if r and r[0] == "gvar":
            return var_eval(prog, r[1][0], r[1][1], r[1][2], d + 1)
        return None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        r = prog.lookup(mod, e.value.id)
        if r and r[0] == "cls" and e.attr in r[1].consts:
            return const_eval(prog, r[1].mod, r[1].consts[e.attr], r[1], d + 1)
        return None
    if isinstance(e, ast.UnaryOp):
        v = const_eval(prog, mod, e.operand, cls, d + 1)
        if v is None:
            return None
        return {ast.USub: o.neg, ast.UAdd: o.pos, ast.Invert: o.invert, ast.Not: o.not_}[type(e.op)](v)
    if isinstance(e, ast.BinOp):
        a = const_eval(prog, mod, e.left, cls, d + 1)
        b = const_eval(prog, mod, e.right, cls, d + 1)
        if a is None or b is None:
            return None
        f = {ast.Add: o.add, ast.Sub: o.sub, ast.Mult: o.mul, ast.Div: o.truediv, ast.FloorDiv: o.floordiv, ast.Mod: o.mod,
             ast.Pow: o.pow, ast.LShift: o.lshift, ast.RShift: o.rshift, ast.BitOr: o.or_, ast.BitAnd: o.and_,
             ast.BitXor: o.xor}.get(type(e.op))
        try:
            return f(a, b) if f else None
        except Exception:
            return None
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("int", "float") and len(e.args) == 1:
        v = const_eval(prog, mod, e.args[0], cls, d + 1)
        return None if v is None else {"int": int, "float": float}[e.func.id](v)
    return None


# ------------------------------------------------------------------ boolean reasoning
def batoms(t, out=None):
    out = [] if out is None else out
    if t.op in ("and", "or"):
        for x in t.a:
            batoms(x, out)
    elif t.op == "not":
        batoms(t.a[0], out)
    elif t is TRUE or t is FALSE:
        pass
    elif t.op == "ite":
        for x in t.a:
            batoms(x, out)
    else:
        n = mknot(t)
        if n.op == "cmp" and t.op == "cmp" and n.id < t.id:
            t = n
        if t not in out:
            out.append(t)
    return out


def bval(t, env):
    if t is TRUE:
        return True
    if t is FALSE:
        return False
    if t.id in env:
        return env[t.id]
    if t.op == "and":
        return all(bval(x, env) for x in t.a)
    if t.op == "or":
        return any(bval(x, env) for x in t.a)
    if t.op == "not":
        return not bval(t.a[0], env)
    if t.op == "ite":
        return bval(t.a[1], env) if bval(t.a[0], env) else bval(t.a[2], env)
    n = mknot(t)
    if n.id in env:
        return not env[n.id]
    return None


def benvs(terms, limit=12):
    import itertools
    at = []
    for t in terms:
        batoms(t, at)
    if len(at) > limit:
        return None, at
    return ({a.id: v for a, v in zip(at, vs)} for vs in itertools.product((True, False), repeat=len(at))), at


def b_equiv(a, b):
    """True/False/None: boolean terms agree for every truth assignment of their atoms"""
    envs, at = benvs([a, b])
    if envs is None:
        return None
    return all(bool(bval(a, e)) == bool(bval(b, e)) for e in envs)


def b_implies(a, b):
    envs, at = benvs([a, b])
    if envs is None:
        return None
    return all((not bval(a, e)) or bool(bval(b, e)) for e in envs)


def b_taut(a):
    envs, at = benvs([a])
    if envs is None:
        return None
    return all(bool(bval(a, e)) for e in envs)


def guard_term(e, drop=()):
    """conjunction of the guards of an effect, without exception guards and those in drop"""
    gs = []
    for g in flat_guards(e):
        if g.op == "exc" or (g.op == "not" and g.a[0].op == "exc"):
            continue
        if g in drop:
            continue
        gs.append(g)
    return mkand(*gs) if gs else TRUE


# ------------------------------------------------------------------ sequences
PERM = {"builtins.sorted", "builtins.reversed", "numpy.sort", "random.sample", "numpy.random.permutation", "numpy.flip", "numpy.roll"}
DEDUP = {"builtins.set", "builtins.frozenset", "numpy.unique", "builtins.dict.fromkeys"}


def is_argsort(t):
    t = strip(t)
    if t.op == "sub":
        return is_argsort(t.a[0])
    return t.op == "call" and (fname(t.a[0]).rsplit(".", 1)[-1] in ("argsort", "lexsort", "permutation"))


def covers(t, base):
    """'all' if the sequence t holds every element of base exactly once (any order), 'part' if it provably drops or merges
    elements, None if unknown"""
    t = strip(t)
    b = strip(base)
    if t is b:
        return "all"
    if t.op == "ite":
        x, y = covers(t.a[1], b), covers(t.a[2], b)
        if "part" in (x, y):
            return "part"
        return x if x == y else None
    if t.op == "call":
        n = fname(t.a[0])
        if n in PERM and cargs(t):
            return covers(cargs(t)[0], b)
        if n in DEDUP and cargs(t):
            return "part" if covers(cargs(t)[0], b) else None
        if n in ("builtins.filter",) and len(cargs(t)) > 1:
            return "part" if covers(cargs(t)[1], b) else None
        return None
    if t.op == "comp" and len(t.a) == 4:
        it = t.a[3]
        src = it.a[0]
        i = mk("idx", it.a[0], it.a[1])
        el = strip(t.a[1])
        if el is strip(mksub(src, i)):
            r = covers(src, b)
            if r is None:
                return None
            if t.a[0] == "set" or t.a[2] is not TRUE:
                return "part"
            return r
        if el.op == "sub" and strip(el.a[0]) is b and is_argsort(src) and t.a[2] is TRUE:
            return "all" if contains(src, lambda y: y is b) else None
        if el.op == "sub" and strip(el.a[0]) is b and el.a[1] is i and is_range(strip(src)):
            return range_cov(strip(src), b, i)
        return None
    if t.op == "sub":
        k = t.a[1]
        if k.op == "slice":
            r = covers(t.a[0], b)
            if r is None:
                return None
            lo, hi, st = (list(k.a) + [NONE] * 3)[:3]
            if lo is NONE and hi is NONE and (st is NONE or is_const(st, 1) or is_const(st, -1)):
                return r
            return "part" if all(x is NONE or is_const(x) for x in (lo, hi, st)) and not (is_const(lo, 0) and hi is NONE and st is NONE) else (
                r if is_const(lo, 0) and hi is NONE and st is NONE else None)
        if is_argsort(k):
            return covers(t.a[0], b)
    return None


def covers_elem(r, base):
    """covers() for the loop whose element is r"""
    r = strip(r)
    if r.op == "sub" and r.a[1].op == "idx":
        s, i = r.a
        if strip(i.a[0]) is strip(s):
            return covers(s, base)
        if strip(s) is strip(base) and is_range(strip(i.a[0])):
            return range_cov(strip(i.a[0]), strip(base), i)
    if r.op == "idx":
        return covers(r.a[0], base)
    if r.op == "sub" and strip(r.a[0]) is strip(base) and is_const(r.a[1]):
        return "part"
    return None


def range_cov(r, b, i=None):
    a = rargs(r)
    ln = [mk("call", ext("builtins.len"), b)]
    if len(a) == 1:
        lo, hi, st = const(0), a[0], const(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], const(1)
    else:
        lo, hi, st = a
    full = any(hi is x for x in ln) or (is_call(hi, "len") and strip(cargs(hi)[0]) is b)
    if is_const(lo, 0) and full and is_const(st, 1):
        return "all"
    if is_const(lo) and lo.a[0] and full:
        return "part"
    if is_const(st) and st.a[0] not in (1, -1):
        return "part"
    if hi.op == "bin" and contains(hi, lambda y: is_call(y, "len") and strip(cargs(y)[0]) is b) and all(
            is_const(x) or is_call(x, "len") for x in hi.a[1:]):
        return "part"
    return None


def rank_zero(c):
    """truth of condition c on rank 0 of a communicator, None if it is not a rank test"""
    if c.op == "not":
        v = rank_zero(c.a[0])
        return None if v is None else not v
    if c.op != "cmp":
        return None
    a, b = strip(c.a[1]), strip(c.a[2])

    def isrank(x):
        if x.op == "ite":
            return isrank(strip(x.a[1])) or isrank(strip(x.a[2]))
        return (x.op == "attr" and x.a[1] in ("rank", "_comm_rank")) or is_call(x, "Get_rank") or (x.op == "param" and x.a[1] == "comm_rank")
    if isrank(a) and is_const(b):
        n, o, flip = b.a[0], c.a[0], False
    elif isrank(b) and is_const(a):
        n, o, flip = a.a[0], c.a[0], True
    else:
        return None
    try:
        if o == "==":
            return n == 0
        if o == "!=":
            return n != 0
        if o == "<":
            return (n < 0) if flip else (0 < n)
        if o == "<=":
            return (n <= 0) if flip else (0 <= n)
    except TypeError:
        pass
    return None


def on_root(t):
    """value of t after broadcasts: bcast(x) is x as rank 0 sees it"""
    def f(x):
        if x.op == "call" and fname(x.a[0]).endswith("bcast") and cargs(x):
            return cargs(x)[0]
        if x.op == "ite":
            v = rank_zero(x.a[0])
            if v is not None:
                return x.a[1] if v else x.a[2]
        return x
    for _ in range(4):
        u = rewrite(t, f)
        if u is t:
            return t
        t = u
    return t


def cases(t, limit=5):
    """alternatives of t with all gated values resolved: [(conditions, term)]"""
    cs = []
    for x in subterms(t, stop=lambda y: y.op in ("idx", "loop", "mu", "comp", "clo")):
        if x.op == "ite" and x.a[0] not in cs and mknot(x.a[0]) not in cs:
            cs.append(x.a[0])
    if not cs or len(cs) > limit:
        return ites(t)
    import itertools
    out = []
    for vs in itertools.product((True, False), repeat=len(cs)):
        lits = {c: v for c, v in zip(cs, vs)}
        u = assume(t, lits)
        out.append(([c if v else mknot(c) for c, v in zip(cs, vs)], u))
    return out


def outside_product(t, R, pred):
    """subterms satisfying pred that are not multiplied by the matrix R (inside R @ x or R.dot(x)); and whether t has such a product"""
    out, seen, found = [], set(), [False]
    st = [t]
    while st:
        x = st.pop()
        if not isinstance(x, T) or x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "bin" and x.a[0] == "@" and strip(x.a[1]) is R:
            found[0] = True
            continue
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("dot", "multiply", "__matmul__") and strip(x.a[0].a[0]) is R:
            found[0] = True
            continue
        if pred(x):
            out.append(x)
        for y in x.a:
            if isinstance(y, T):
                st.append(y)
    return out, found[0]


# ---- conditions on the size of an array ------------------------------------------------------------------------------------------
SIZES = ("len", "builtins.len", "numpy.size", "cupy.size")


def size_of(y):
    """the array whose number of elements (or rows) y is"""
    if y.op == "call" and fname(y.a[0]) in SIZES and len(cargs(y)) == 1:
        return strip(cargs(y)[0])
    if y.op == "attr" and y.a[1] == "size":
        return strip(y.a[0])
    if y.op == "sub" and y.a[0].op == "attr" and y.a[0].a[1] == "shape" and is_const(y.a[1], 0):
        return strip(y.a[0].a[0])
    return None


def with_size(t, x, n, also=()):
    """condition t when the array x (None: every array) has n elements and the terms of also have the values there"""
    also = [(strip(a), v) for a, v in also]

    def sizes(y):
        z = size_of(y)
        for a, v in also:
            if z is a:
                return const(v)
        return const(n) if z is not None and (x is None or z is x) else y

    def others(y):
        for a, v in also:
            if strip(y) is a:
                return const(v)
        return y

    def fold(y):
        if y.op == "cmp" and y.a[0] in ("==", "!=", "<", ">", "<=", ">=") and all(is_const(z) and isinstance(z.a[0], (int, float)) for z in y.a[1:]):
            a, b = y.a[1].a[0], y.a[2].a[0]
            return const({"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[y.a[0]])
        return y

    def bools(y):
        if is_const(y) and isinstance(y.a[0], int):
            return const(bool(y.a[0]))
        if y.op == "not":
            return mknot(bools(y.a[0]))
        if y.op in ("and", "or"):
            return (mkand if y.op == "and" else mkor)(*[bools(z) for z in y.a])
        return y
    for f in (sizes, others, fold):
        t = rewrite(t, f)
    return bools(t)


def says_empty(g):
    """g says that an array has no elements, and nothing else"""
    return with_size(g, None, 0) is TRUE and all(with_size(g, None, n) is FALSE for n in (1, 2, 3))
