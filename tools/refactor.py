#!/usr/bin/env python3
"""Developer aid: behaviour-preserving rewrites of /repo in scratch copies; every check must stay quiet.
python3 tools/refactor.py [-t transform,...] [-f qualname-substring,...] [-c CNN,...] [-u]   (-u: also list undecided)
Transforms: rename temp ret invert cond noop cont comp aug swap kw enum while helper"""
import ast, copy, os, sys, shutil, tempfile, multiprocessing, builtins
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
sys.path.insert(0, ROOT + "/tools")
import check
from rrsa.load import Program

FILES = ["py/redrock/" + x for x in ("targets.py", "templates.py", "archetypes.py", "zfind.py", "zscan.py", "fitz.py", "rebin.py", "igm.py",
         "results.py", "utils.py", "priors.py", "plotspec.py", "zwarning.py", "external/desi.py", "external/boss.py", "external/merge.py",
         "constants.py", "_zscan.py") if os.path.exists("/repo/py/redrock/" + x)] + ["bin/wrap-redrock"]

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
LOOPS = (ast.For, ast.While)


def walk_own(fn):
    """nodes of fn, not entering nested functions/lambdas/classes"""
    st = list(ast.iter_child_nodes(fn))
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, FN + (ast.Lambda, ast.ClassDef)):
            st.extend(ast.iter_child_nodes(n))


def bodies(fn):
    """all statement lists of fn (own)"""
    out = [fn.body]
    for n in walk_own(fn):
        if isinstance(n, FN + (ast.ClassDef,)):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                out.append(b)
        for h in getattr(n, "handlers", []):
            out.append(h.body)
    u, seen = [], set()
    for b in out:
        if id(b) not in seen:
            seen.add(id(b)); u.append(b)
    return u


def stores(nodes):
    s = set()
    for n0 in nodes:
        for n in [n0] + list(walk_own(n0)):
            if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
                s.add(n.id)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                s |= {(a.asname or a.name).split(".")[0] for a in n.names}
            elif isinstance(n, FN + (ast.ClassDef,)):
                s.add(n.name)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                s.add(n.name)
    return s


def compvars(n0):
    s = set()
    for n in ast.walk(n0):
        if isinstance(n, ast.comprehension):
            s |= {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
        if isinstance(n, ast.Lambda) or isinstance(n, FN):
            s |= {a.arg for a in n.args.args}
    return s


def loads(nodes):
    return {n.id for n0 in nodes for n in ast.walk(n0) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}


def params(fn):
    a = fn.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def globs(fn):
    return {x for n in ast.walk(fn) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}


def pure(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.Lambda)):
            return False
    return True


# ---------------------------------------------------------------- transforms: fn -> bool (changed) ; in place
def t_rename(fn, tree):
    own = stores(fn.body) - params(fn) - globs(fn)
    nested = [n for n in walk_own(fn) if isinstance(n, FN + (ast.ClassDef, ast.Lambda))]
    skip = {x for n in ast.walk(fn) if isinstance(n, (ast.Import, ast.ImportFrom)) for x in stores([n])}
    skip |= {n.name for n in nested if hasattr(n, "name")} | {h.name for h in ast.walk(fn) if isinstance(h, ast.ExceptHandler) and h.name}
    for n in nested:
        skip |= compvars(n) | params(n) if isinstance(n, FN) else compvars(n)
    own -= skip
    if not own:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in own:
            n.id = "v_" + n.id
    return True


def t_noop(fn, tree):
    for b in bodies(fn):
        k = 1 if isinstance(b[0], ast.Expr) and isinstance(b[0].value, ast.Constant) else 0
        b.insert(k, ast.parse("_unused_ = 0").body[0])
        b.insert(k + 1, ast.parse("pass").body[0])
    return True


def t_temp(fn, tree):
    """first non-trivial argument of calls in simple statements to a temporary"""
    n, ch = 0, False
    for b in bodies(fn):
        i = 0
        while i < len(b):
            s = b[i]
            v = getattr(s, "value", None)
            if isinstance(s, (ast.Assign, ast.Return, ast.Expr)) and isinstance(v, ast.Call) and v.args:
                tgt_pure = not isinstance(s, ast.Assign) or all(pure(t) for t in s.targets)
                a = v.args[0]
                if tgt_pure and pure(v.func) and not isinstance(a, (ast.Name, ast.Constant, ast.Starred, ast.GeneratorExp)):
                    nm = "tmp_%d" % n; n += 1
                    b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], a))
                    v.args[0] = ast.Name(nm, ast.Load())
                    i += 1; ch = True
            i += 1
    return ch


def t_ret(fn, tree):
    """right-hand sides through a temporary; return through a temporary"""
    ch, n = False, 0
    for b in bodies(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Return) and s.value is not None and not isinstance(s.value, (ast.Name, ast.Constant)):
                b.insert(i, ast.Assign([ast.Name("ret_", ast.Store())], s.value)); s.value = ast.Name("ret_", ast.Load()); i += 1; ch = True
            elif isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], (ast.Subscript, ast.Attribute)) and not isinstance(s.value, (ast.Name, ast.Constant)):
                nm = "rhs_%d" % n; n += 1
                b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], s.value)); s.value = ast.Name(nm, ast.Load()); i += 1; ch = True
            i += 1
    return ch


def neg(t):
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return t.operand
    if isinstance(t, ast.Compare) and len(t.ops) == 1:
        m = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
        for a, c in m.items():
            if isinstance(t.ops[0], a):
                return ast.Compare(t.left, [c()], t.comparators)
    return ast.UnaryOp(ast.Not(), t)


def t_invert(fn, tree):
    ch = False
    for n in walk_own(fn):
        if isinstance(n, ast.If) and n.orelse:
            n.test = neg(n.test); n.body, n.orelse = n.orelse, n.body; ch = True
        elif isinstance(n, ast.IfExp):
            n.test = neg(n.test); n.body, n.orelse = n.orelse, n.body; ch = True
    return ch


def t_cond(fn, tree):
    """operands of comparisons swapped; conditions through a temporary"""
    ch = False
    m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
    for n in walk_own(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in m and (pure(n.left) or pure(n.comparators[0])):
            n.ops = [m[type(n.ops[0])]()]
            n.left, n.comparators = n.comparators[0], [n.left]; ch = True
    return ch


def t_condtemp(fn, tree):
    ch, k = False, 0
    for b in bodies(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.If) and not isinstance(s.test, ast.Name):
                nm = "cond_%d" % k; k += 1
                b.insert(i, ast.Assign([ast.Name(nm, ast.Store())], s.test)); s.test = ast.Name(nm, ast.Load()); i += 1; ch = True
            i += 1
    return ch


def t_cont(fn, tree):
    """trailing `if c: B` of a loop body -> `if not c: continue` + B ; same with return at the end of the function; and the inverse"""
    ch = False
    for n in walk_own(fn):
        if isinstance(n, LOOPS) and isinstance(n.body[-1], ast.If) and not n.body[-1].orelse:
            s = n.body.pop()
            n.body.append(ast.If(neg(s.test), [ast.Continue()], [])); n.body.extend(s.body); ch = True
    if isinstance(fn.body[-1], ast.If) and not fn.body[-1].orelse and not isinstance(fn.body[-1].body[-1], ast.Return):
        s = fn.body.pop()
        fn.body.append(ast.If(neg(s.test), [ast.Return(None)], [])); fn.body.extend(s.body); ch = True
    return ch


def t_uncont(fn, tree):
    """`if c: continue` + B -> `if not c: B`; `if c: ...return` + rest -> else"""
    ch = False
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.If) and not s.orelse and i + 1 < len(b):
                if len(s.body) == 1 and isinstance(s.body[0], ast.Continue):
                    b[i:] = [ast.If(neg(s.test), b[i + 1:], [])]; ch = True; break
                if isinstance(s.body[-1], ast.Return):
                    rest = b[i + 1:]
                    del b[i + 1:]
                    s.orelse = rest; ch = True; break
    return ch


def t_comp(fn, tree):
    """x = [e for a in b] -> loop"""
    ch = False
    for b in bodies(fn):
        i = 0
        while i < len(b):
            s = b[i]
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, (ast.ListComp, ast.DictComp)):
                c, nm = s.value, s.targets[0].id
                allv = compvars(c)
                if nm not in loads([c]) and not (allv & (stores(fn.body) | params(fn))) and not any(
                        isinstance(x, (ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp)) for x in ast.walk(c) if x is not c):
                    if isinstance(c, ast.ListComp):
                        init = ast.List([], ast.Load())
                        inner = [ast.Expr(ast.Call(ast.Attribute(ast.Name(nm, ast.Load()), "append", ast.Load()), [c.elt], []))]
                    else:
                        init = ast.Dict([], [])
                        inner = [ast.Assign([ast.Subscript(ast.Name(nm, ast.Load()), c.key, ast.Store())], c.value)]
                    for g in reversed(c.generators):
                        for t in reversed(g.ifs):
                            inner = [ast.If(t, inner, [])]
                        inner = [ast.For(g.target, g.iter, inner, [])]
                    b[i:i + 1] = [ast.Assign([ast.Name(nm, ast.Store())], init)] + inner
                    ch = True; i += 1
            i += 1
    return ch


def t_uncomp(fn, tree):
    """x = list() ; for a in b: x.append(e)  -> comprehension"""
    ch = False
    for b in bodies(fn):
        for i in range(len(b) - 1):
            s, l = b[i], b[i + 1]
            if (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Name) and isinstance(l, ast.For) and not l.orelse and len(l.body) == 1
                    and ast.unparse(s.value) in ("[]", "list()") and isinstance(l.body[0], ast.Expr) and isinstance(l.body[0].value, ast.Call)
                    and ast.unparse(l.body[0].value.func) == s.targets[0].id + ".append"):
                tv = {x.id for x in ast.walk(l.target) if isinstance(x, ast.Name)}
                if s.targets[0].id in loads([l.iter] + l.body[0].value.args):
                    continue
                b[i:i + 2] = [ast.Assign(s.targets, ast.ListComp(l.body[0].value.args[0], [ast.comprehension(l.target, l.iter, [], 0)]))]
                ch = True
                break
    return ch


def t_aug(fn, tree):
    ch = False
    for b in bodies(fn):
        for i, s in enumerate(b):
            if isinstance(s, ast.AugAssign) and isinstance(s.target, (ast.Subscript, ast.Attribute)) and pure(s.target):
                t = copy.deepcopy(s.target)
                for n in [t]:
                    n.ctx = ast.Load()
                b[i] = ast.Assign([s.target], ast.BinOp(t, s.op, s.value)); ch = True
            elif isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant):
                b[i] = ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)); ch = True
    return ch


def t_comm(fn, tree):
    """a*b -> b*a ; a+b -> b+a for products (operands pure)"""
    ch = False
    for n in walk_own(fn):
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mult) and pure(n.left) and pure(n.right) and not any(
                isinstance(x, (ast.List, ast.Tuple, ast.JoinedStr)) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in (n.left, n.right)):
            n.left, n.right = n.right, n.left; ch = True
    return ch


def t_swap(fn, tree):
    """adjacent independent simple assignments swapped"""
    ch = False
    for b in bodies(fn):
        i = 0
        while i + 1 < len(b):
            s, t = b[i], b[i + 1]
            if all(isinstance(x, ast.Assign) and all(isinstance(g, ast.Name) for g in x.targets) and purish(x.value) for x in (s, t)):
                ss, ts = stores([s]), stores([t])
                if not (ss & ts) and not (ss & loads([t])) and not (ts & loads([s])):
                    b[i], b[i + 1] = t, s; ch = True; i += 2; continue
            i += 1
    return ch


PUREFN = ("np.", "len", "list", "dict", "range", "str", "int", "float", "min", "max", "isinstance", "sorted", "os.path.", "set", "tuple", "zip", "sum", "xp.", "cp.")


def purish(e):
    for n in ast.walk(e):
        if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.NamedExpr)):
            return False
        if isinstance(n, ast.Call):
            f = ast.unparse(n.func)
            if not any(f == p or (p.endswith(".") and f.startswith(p)) for p in PUREFN) or "random" in f:
                return False
    return True


def t_kw(fn, tree):
    """positional arguments of module-level functions of the same file -> keywords"""
    defs = {n.name: n for n in tree.body if isinstance(n, FN)}
    ch = False
    for n in walk_own(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in defs and not any(isinstance(a, ast.Starred) for a in n.args):
            d = defs[n.func.id]
            if n.func.id in stores(fn.body) or d.args.posonlyargs or d.args.vararg or d.decorator_list or len(n.args) > len(d.args.args):
                continue
            if n.args:
                n.keywords = [ast.keyword(p.arg, a) for p, a in zip(d.args.args, n.args)] + n.keywords
                n.args = []; ch = True
    return ch


def t_enum(fn, tree):
    """for x in xs -> for i_ in range(len(xs)): x = xs[i_]   (xs a name/attribute; only where xs is subscriptable by construction: not dict-like)"""
    ch, k = False, 0
    for n in walk_own(fn):
        if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and isinstance(n.target, ast.Name) and n.iter.id in ("targets", "templates", "spectra", "redshifts", "ww", "results", "group"):
            nm = "ii_%d" % k; k += 1
            x = n.iter
            n.body.insert(0, ast.Assign([n.target], ast.Subscript(copy.deepcopy(x), ast.Name(nm, ast.Load()), ast.Load())))
            n.target = ast.Name(nm, ast.Store())
            n.iter = ast.Call(ast.Name("range", ast.Load()), [ast.Call(ast.Name("len", ast.Load()), [x], [])], [])
            ch = True
    return ch


def t_enumerate(fn, tree):
    """for i in range(len(xs)): ... -> for i, x_ in enumerate(xs): xs[i] -> x_ (loads; xs not assigned in the loop)"""
    ch, k = False, 0
    for n in walk_own(fn):
        if isinstance(n, ast.For) and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "range" and len(n.iter.args) == 1:
            a = n.iter.args[0]
            if isinstance(a, ast.Call) and ast.unparse(a.func) == "len" and isinstance(a.args[0], (ast.Name, ast.Attribute)):
                xs, i = ast.unparse(a.args[0]), n.target.id
                if isinstance(a.args[0], ast.Name) and xs in stores(n.body):
                    continue
                if any(isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load) and ast.unparse(x.value) == xs for s in n.body for x in ast.walk(s)) or i in stores(n.body):
                    continue
                nm = "el_%d" % k; k += 1

                class V(ast.NodeTransformer):
                    def visit_Subscript(self, y):
                        if ast.unparse(y) == "%s[%s]" % (xs, i):
                            return ast.Name(nm, ast.Load())
                        return self.generic_visit(y)
                n.body = [V().visit(s) for s in n.body]
                n.target = ast.Tuple([ast.Name(i, ast.Store()), ast.Name(nm, ast.Store())], ast.Store())
                n.iter = ast.Call(ast.Name("enumerate", ast.Load()), [a.args[0]], [])
                ch = True
    return ch


def t_while(fn, tree):
    """for i in range(n) -> while (no continue inside, i and n not rebound)"""
    ch = False
    for b in bodies(fn):
        k = 0
        while k < len(b):
            n = b[k]
            if isinstance(n, ast.For) and not n.orelse and isinstance(n.target, ast.Name) and isinstance(n.iter, ast.Call) and ast.unparse(n.iter.func) == "range" and len(n.iter.args) == 1:
                if not any(isinstance(x, ast.Continue) for s in n.body for x in ast.walk(s)) and n.target.id not in stores(n.body):
                    nm = "n_%d" % n.lineno
                    i = n.target.id
                    b[k:k + 1] = [ast.Assign([ast.Name(nm, ast.Store())], n.iter.args[0]), ast.Assign([ast.Name(i, ast.Store())], ast.Constant(0)),
                                  ast.While(ast.Compare(ast.Name(i, ast.Load()), [ast.Lt()], [ast.Name(nm, ast.Load())]),
                                            n.body + [ast.AugAssign(ast.Name(i, ast.Store()), ast.Add(), ast.Constant(1))], [])]
                    k += 2; ch = True
            k += 1
    return ch


def helper_candidates(fn):
    """(statement list, lo, hi) blocks that can become a helper"""
    outer = params(fn) | stores(fn.body)
    cand = []
    for b in bodies(fn):
        rng = [(0, len(b))] if b is not fn.body else []
        L = len(b)
        if L >= 4:
            rng += [(L // 3, 2 * L // 3), (0, L // 2), (L // 2, L)]
        for i, s in enumerate(b):
            if isinstance(s, (ast.For, ast.If, ast.With, ast.Try)):
                rng.append((i, i + 1))
        for lo, hi in rng:
            if lo < hi:
                cand.append((b, lo, hi))
    return cand


def make_helper(fn, b, lo, hi, name, cls):
    blk = b[lo:hi]
    nodes = [x for s in blk for x in [s] + list(walk_own(s))]
    if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom, ast.Global, ast.Nonlocal, ast.Import, ast.ImportFrom, ast.Delete) + FN + (ast.ClassDef,)) for x in nodes):
        return None

    def brk(s, depth):
        if isinstance(s, (ast.Break, ast.Continue)):
            return depth == 0
        for f in ("body", "orelse", "finalbody"):
            for y in getattr(s, f, []) or []:
                if isinstance(y, ast.stmt) and brk(y, depth + (isinstance(s, LOOPS) and f == "body")):
                    return True
        for h in getattr(s, "handlers", []):
            if any(brk(y, depth) for y in h.body):
                return True
        return False
    if any(brk(s, 0) for s in blk):
        return None
    if len(blk) == 1 and isinstance(blk[0], ast.Expr) and isinstance(blk[0].value, ast.Constant):
        return None
    if blk and isinstance(blk[0], ast.Expr) and isinstance(blk[0].value, ast.Constant):
        return None
    if globs(fn):
        return None
    local = params(fn) | stores(fn.body)
    st = stores(blk)
    # names bound for sure in the block
    sure = set()
    for s in blk:
        if isinstance(s, (ast.Assign, ast.AnnAssign)):
            sure |= stores([s])
        elif isinstance(s, ast.With):
            sure |= stores([x for x in s.items if False])
    ln0 = min(getattr(s, "lineno", 10 ** 9) for s in blk)
    ln1 = max(getattr(x, "end_lineno", 0) or 0 for x in nodes if hasattr(x, "end_lineno"))
    cv = set()
    for s in blk:
        cv |= compvars(s)
    ins, outs = set(), set()
    used_outside = set()
    for n in walk_own(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and not (ln0 <= n.lineno <= ln1):
            used_outside.add(n.id)
    for n in ast.walk(fn):          # nested functions' loads
        if isinstance(n, FN + (ast.Lambda,)) and n is not fn:
            used_outside |= loads([n])
    # loads inside before store
    first_store, first_load = {}, {}
    for n in nodes:
        if isinstance(n, ast.Name):
            d = first_store if isinstance(n.ctx, ast.Store) else first_load
            d[n.id] = min(d.get(n.id, (10 ** 9, 0)), (n.lineno, n.col_offset))
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            first_load[n.target.id] = min(first_load.get(n.target.id, (10 ** 9, 0)), (n.lineno, -1))
    before = params(fn) | {n.id for n in walk_own(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.lineno < ln0}
    allcomp = compvars(fn)
    for x in local & (set(first_load) | st):
        if x in cv and x not in st and x not in params(fn) and x not in before:
            continue
        if x in first_load and x not in sure:
            if x in st and x not in before:
                if first_load[x] < first_store.get(x, (0, 0)):
                    return None
                continue
            if x in before:
                ins.add(x)
        elif x in first_load and first_load[x][0] <= first_store.get(x, (10 ** 9, 0))[0] and x in before:
            ins.add(x)
        elif x in st and x not in sure and x in used_outside and x in before:
            ins.add(x)
    for x in st & used_outside:
        if x not in sure:
            if x not in before:
                return None          # may be unbound
            ins.add(x)
        outs.add(x)
    for x in ins:
        # bound for sure at function level before?
        if x not in params(fn) and not any(isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id == x and n.lineno < ln0 for n in walk_own(fn)):
            return None
        # only names bound unconditionally earlier, in an enclosing block
        if x not in params(fn) and not bound_before(fn, b, lo, x):
            return None
    # names imported inside the function: the helper imports them itself
    pre = []
    imps = {}
    for n in walk_own(fn):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                imps[(a.asname or a.name).split(".")[0]] = n
    for x in sorted(set(imps) & loads(blk)):
        n = copy.deepcopy(imps[x])
        if x == "cp":
            if "use_gpu" not in params(fn):
                return None
            ins.add("use_gpu")
            n = ast.If(ast.Name("use_gpu", ast.Load()), [n], [])
        pre.append(n)
    if any(isinstance(n, FN) and n is not fn and n.name in loads(blk) for n in walk_own(fn)):
        return None
    ins, outs = sorted(ins), sorted(outs)
    if "super" in loads(blk) or "__class__" in loads(blk):
        return None
    body = pre + list(blk)
    if outs:
        v = [ast.Name(o, ast.Load()) for o in outs]
        body = body + [ast.Return(v[0] if len(v) == 1 else ast.Tuple(v, ast.Load()))]
    h = ast.FunctionDef(name, ast.arguments([], [ast.arg(x) for x in ins], None, [], [], None, []), body, [], None, None)
    h.type_params = []
    call = ast.Call(ast.Name(name, ast.Load()), [ast.Name(x, ast.Load()) for x in ins], [])
    if outs:
        tg = [ast.Name(o, ast.Store()) for o in outs]
        st_ = ast.Assign([tg[0] if len(tg) == 1 else ast.Tuple(tg, ast.Store())], call)
    else:
        st_ = ast.Expr(call)
    b[lo:hi] = [st_]
    return h


def bound_before(fn, b, lo, x):
    """x assigned in a statement that dominates b[lo] (enclosing blocks' earlier statements), or loop target"""
    par = {}
    def rec(lst, chain):
        if lst is b:
            return chain + [(lst, lo)]
        for i, s in enumerate(lst):
            for f in ("body", "orelse", "finalbody"):
                y = getattr(s, f, None)
                if isinstance(y, list) and y and isinstance(y[0], ast.stmt):
                    r = rec(y, chain + [(lst, i)])
                    if r:
                        return r
            for h in getattr(s, "handlers", []):
                r = rec(h.body, chain + [(lst, i)])
                if r:
                    return r
        return None
    ch = rec(fn.body, [])
    if not ch:
        return False
    def sure_stmt(s):
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Import, ast.ImportFrom) + FN):
            return stores([s])
        if isinstance(s, ast.With):
            r = set()
            for it in s.items:
                if it.optional_vars is not None:
                    r |= {n.id for n in ast.walk(it.optional_vars) if isinstance(n, ast.Name)}
            for y in s.body:
                r |= sure_stmt(y)
            return r
        if isinstance(s, ast.If) and s.orelse:
            A = set().union(*[sure_stmt(y) for y in s.body])
            B = set().union(*[sure_stmt(y) for y in s.orelse])
            if isinstance(s.body[-1], (ast.Raise, ast.Return, ast.Continue)):
                return B
            if isinstance(s.orelse[-1], (ast.Raise, ast.Return, ast.Continue)):
                return A
            return A & B
        return set()
    for lst, i in ch:
        for s in lst[:i]:
            if x in sure_stmt(s):
                return True
        s = lst[i] if i < len(lst) else None
        if isinstance(s, ast.For) and lst is not b:
            if x in {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}:
                return True
        if isinstance(s, ast.With) and lst is not b:
            for it in s.items:
                if it.optional_vars is not None and x in {n.id for n in ast.walk(it.optional_vars) if isinstance(n, ast.Name)}:
                    return True
    return False


SIMPLE = dict(rename=t_rename, temp=t_temp, ret=t_ret, invert=t_invert, cond=t_cond, condtemp=t_condtemp, noop=t_noop, cont=t_cont, uncont=t_uncont, comp=t_comp,
              uncomp=t_uncomp, aug=t_aug, comm=t_comm, swap=t_swap, kw=t_kw, enum=t_enum, enumerate=t_enumerate)
SIMPLE["while"] = t_while


def functions(tree):
    out = []
    def rec(body, pre):
        for n in body:
            if isinstance(n, FN):
                out.append((pre + n.name, n))
            elif isinstance(n, ast.ClassDef):
                rec(n.body, pre + n.name + ".")
    rec(tree.body, "")
    return out


def variants(f, want_t, want_f):
    src = open("/repo/" + f).read()
    bang = src[:src.index("\n") + 1] if src.startswith("#!") else ""
    base = bang + ast.unparse(ast.parse(src))
    out = []
    for qn, _ in functions(ast.parse(src)):
        full = f + ":" + qn
        if want_f and not any(w in full for w in want_f):
            continue
        for t, g in SIMPLE.items():
            if want_t and t not in want_t:
                continue
            tree = ast.parse(src)
            fn = dict(functions(tree))[qn]
            try:
                if not g(fn, tree):
                    continue
            except Exception as e:
                print("transform", t, full, "crashed", repr(e)); continue
            ast.fix_missing_locations(tree)
            out.append((t, full, f, bang + ast.unparse(tree)))
        if not want_t or "helper" in want_t:
            k, seen = 0, set()
            while True:
                tree = ast.parse(src)
                fn = dict(functions(tree))[qn]
                c = helper_candidates(fn)
                if k >= len(c):
                    break
                b, lo, hi = c[k]; k += 1
                lines = (b[lo].lineno, b[hi - 1].end_lineno)
                if lines in seen:
                    continue
                seen.add(lines)
                h = make_helper(fn, b, lo, hi, "helper_of_" + qn.replace(".", "_"), None)
                if h is None:
                    continue
                top = next(i for i, n in enumerate(tree.body) if n is fn or (isinstance(n, ast.ClassDef) and any(x is fn for x in ast.walk(n))))
                tree.body.insert(top, h)
                ast.fix_missing_locations(tree)
                out.append(("helper@%d-%d" % lines, full, f, bang + ast.unparse(tree)))
    return [(t, q, f, s) for t, q, f, s in out if s != base]


BASE = None


def one(job):
    t, q, f, s, ids = job
    import mut
    tmp = tempfile.mkdtemp(prefix="refac")
    res = []
    try:
        mut.tree(tmp)
        p = os.path.join(tmp, f)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return t, q, [("*", "SYNTAX %s" % e, [])]
        prog = Program(tmp)
        for i in ids:
            try:
                rc, lines, viol = check.run(i, "quick", prog, write=False)
            except Exception as e:
                res.append((i, "CRASH %r" % e, [])); continue
            und = [l for l in lines if "UNDECIDED" in l]
            if rc == 1:
                res.append((i, "ALARM", [l for l in lines if "FAILED" in l]))
            elif rc == 2:
                res.append((i, "NOANSWER", und))
            elif und:
                res.append((i, "UNDECIDED", und))
        return t, q, res
    finally:
        shutil.rmtree(tmp)


def main():
    a = sys.argv[1:]
    get = lambda k: (a[a.index(k) + 1].split(",") if k in a else None)
    want_t, want_f = get("-t"), get("-f")
    ids = get("-c") or sorted(x[:-3].upper() for x in os.listdir(ROOT + "/rrsa/checks") if x[0] == "c" and x[1:3].isdigit())
    jobs = []
    span = get("-s")
    for f in FILES:
        jobs += [(t, q, f, s, ids) for t, q, f, s in variants(f, want_t, want_f)]
    if "-w" in a:       # write one variant to a directory: -w DIR (first job)
        import mut
        d = a[a.index("-w") + 1]
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        mut.tree(d)
        if span:
            jobs = [j for j in jobs if span[0] in j[0]]
        open(d + "/" + jobs[0][2], "w").write(jobs[0][3])
        print(len(jobs), "variants; wrote", jobs[0][:2]); return
    print(len(jobs), "variants x", len(ids), "checks", flush=True)
    n = dict(ok=0, ALARM=0, UNDECIDED=0)
    with multiprocessing.Pool(int((get("-j") or ["7"])[0]), maxtasksperchild=20) as p:
        for t, q, res in p.imap_unordered(one, jobs):
            n["ok"] += not res
            for i, st, ls in res:
                n[st.split()[0]] = n.get(st.split()[0], 0) + 1
                if st != "UNDECIDED" or "-u" in a:
                    print(st, i, t, q)
                    for l in ls[:4]:
                        print("      ", l.strip()[:230])
                    sys.stdout.flush()
    print(n)


if __name__ == "__main__":
    main()
