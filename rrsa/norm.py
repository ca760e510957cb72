"""Syntax-tree normalisation before the analysis: counting while loops become range loops, loops over literal attribute names are unrolled."""
import ast
import copy

FN = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)


def own(nodes):
    st = list(nodes)
    while st:
        n = st.pop()
        yield n
        if not isinstance(n, FN):
            st.extend(ast.iter_child_nodes(n))


def stored(nodes):
    return {n.id for n in own(nodes) if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)}


def is_inc(s, i):
    if isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add) and isinstance(s.target, ast.Name) and s.target.id == i:
        return isinstance(s.value, ast.Constant) and s.value.value == 1
    if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and s.targets[0].id == i and isinstance(s.value, ast.BinOp) \
            and isinstance(s.value.op, ast.Add):
        a, b = s.value.left, s.value.right
        if isinstance(a, ast.Constant):
            a, b = b, a
        return isinstance(a, ast.Name) and a.id == i and isinstance(b, ast.Constant) and b.value == 1
    return False


def continues(body):
    st = list(body)
    while st:
        n = st.pop()
        if isinstance(n, ast.Continue):
            return True
        if not isinstance(n, FN + (ast.For, ast.While)):
            st.extend(ast.iter_child_nodes(n))
    return False


def counting(w):
    """(variable, bound, positions of the increment) of a counting while loop"""
    t = w.test
    if w.orelse or not isinstance(t, ast.Compare) or len(t.ops) != 1 or not w.body:
        return None
    a, o, b = t.left, t.ops[0], t.comparators[0]
    if isinstance(o, ast.Gt):
        a, b, o = b, a, ast.Lt()
    if not isinstance(o, (ast.Lt, ast.NotEq)) or not isinstance(a, ast.Name):
        return None
    i = a.id
    if not is_inc(w.body[-1], i) or i in stored(w.body[:-1]) or continues(w.body):
        return None
    names = {n.id for n in own([b]) if isinstance(n, ast.Name)}
    if names & stored(w.body):
        return None
    # the bound must not grow in the loop (len(x) of something appended to)
    for n in own(w.body):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "pop", "remove", "extend", "insert", "clear", "update", "add", "discard"):
            if isinstance(n.func.value, ast.Name) and n.func.value.id in names:
                return None
    return i, b


class Subst(ast.NodeTransformer):
    def __init__(self, env):
        self.env = env

    def visit_Name(self, n):
        if n.id in self.env and isinstance(n.ctx, ast.Load):
            return ast.copy_location(ast.Constant(self.env[n.id]), n)
        return n

    def visit_JoinedStr(self, n):
        self.generic_visit(n)
        out = ""
        for v in n.values:
            if isinstance(v, ast.FormattedValue) and v.conversion == -1 and v.format_spec is None:
                v = v.value
            if not (isinstance(v, ast.Constant) and isinstance(v.value, str)):
                return n
            out += v.value
        return ast.copy_location(ast.Constant(out), n)

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Add) and all(isinstance(x, ast.Constant) and isinstance(x.value, str) for x in (n.left, n.right)):
            return ast.copy_location(ast.Constant(n.left.value + n.right.value), n)
        return n

    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) == 2 and not n.keywords and isname(n.args[1]):
            return ast.copy_location(ast.Attribute(n.args[0], n.args[1].value, ast.Load()), n)
        return n

    def visit_Expr(self, n):
        self.generic_visit(n)
        c = n.value
        if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and len(c.args) >= 2 and not c.keywords and isname(c.args[1]):
            if c.func.id == "setattr" and len(c.args) == 3:
                t = ast.copy_location(ast.Attribute(c.args[0], c.args[1].value, ast.Store()), c)
                return ast.copy_location(ast.Assign([t], c.args[2]), n)
            if c.func.id == "delattr" and len(c.args) == 2:
                t = ast.copy_location(ast.Attribute(c.args[0], c.args[1].value, ast.Del()), c)
                return ast.copy_location(ast.Delete([t]), n)
        return n


def isname(c):
    return isinstance(c, ast.Constant) and isinstance(c.value, str) and c.value.isidentifier()


def unroll(f, fn):
    """copies of the body of a loop over literal names that are used as attribute names"""
    if f.orelse or not isinstance(f.iter, (ast.Tuple, ast.List)) or not 0 < len(f.iter.elts) <= 20 or continues(f.body):
        return None
    if not any(isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr", "delattr") for n in own(f.body)):
        return None
    if any(isinstance(n, ast.Break) for n in own(f.body)):
        return None
    tg = [f.target] if isinstance(f.target, ast.Name) else list(f.target.elts) if isinstance(f.target, ast.Tuple) else []
    if not tg or not all(isinstance(x, ast.Name) for x in tg) or {x.id for x in tg} & stored(f.body) or any(used_after(fn, f, x.id) for x in tg):
        return None
    out = []
    for e in f.iter.elts:
        vs = [e] if isinstance(f.target, ast.Name) else list(e.elts) if isinstance(e, (ast.Tuple, ast.List)) else []
        if len(vs) != len(tg) or not all(isinstance(v, ast.Constant) for v in vs):
            return None
        s = Subst({x.id: v.value for x, v in zip(tg, vs)})
        for b in f.body:
            out.append(ast.fix_missing_locations(s.visit(copy.deepcopy(b))))
    return out


def norm_body(b, fn):
    k = 0
    while k < len(b):
        s = b[k]
        for f in ("body", "orelse", "finalbody"):
            y = getattr(s, f, None)
            if isinstance(y, list) and y and isinstance(y[0], ast.stmt) and not isinstance(s, FN):
                norm_body(y, fn)
        for h in getattr(s, "handlers", []):
            norm_body(h.body, fn)
        if isinstance(s, ast.For):
            u = unroll(s, fn)
            if u:
                b[k:k + 1] = u
                continue
        if isinstance(s, ast.While):
            c = counting(s)
            if c:
                i, bound = c
                # nearest earlier assignment of i in the same list, nothing in between uses it
                j = k - 1
                while j >= 0 and i not in {n.id for n in own([b[j]]) if isinstance(n, ast.Name)}:
                    j -= 1
                p = b[j] if j >= 0 else None
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name) and p.targets[0].id == i \
                        and isinstance(p.value, ast.Constant) and isinstance(p.value.value, int) and not used_after(fn, s, i):
                    a = [p.value, bound] if p.value.value else [bound]
                    call = ast.Call(ast.Name("range", ast.Load()), a, [])
                    f = ast.For(ast.Name(i, ast.Store()), call, s.body[:-1] or [ast.Pass()], [])
                    ast.copy_location(f, s)
                    for n in (call, call.func, f.target):
                        ast.copy_location(n, s.test)
                    ast.fix_missing_locations(f)
                    b[k] = f
        k += 1


def used_after(fn, w, i):
    """the counter is read outside the loop before it is set again (approximation: read below the loop with no store in between)"""
    end = w.end_lineno
    evs = []
    for n in own([fn]) if isinstance(fn, ast.Module) else own(fn.body):
        if isinstance(n, ast.Name) and n.id == i and n.lineno > end:
            evs.append((n.lineno, n.col_offset, isinstance(n.ctx, ast.Load)))
    if not evs:
        return False
    return min(evs)[2]


def normalise(tree):
    for n in list(ast.walk(tree)):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            norm_body(n.body, n)
    return tree
