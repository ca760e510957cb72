"""Definite assignment with guard correlation, on the syntax tree.

A state is (assigned, facts): whether the variable under study is bound, and the truth values of those
conditions (atoms) that occur more than once in the function.  Each state stands for a set of paths."""
import ast

CAP = 3000


class TooMany(Exception):
    pass


def is_name(n, v=None):
    return isinstance(n, ast.Name) and (v is None or n.id == v)


SCOPES = (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)
COMPS = (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)


def own(node, skip_first=True):
    """nodes of this scope only (comprehension bodies included, nested functions/classes not)"""
    todo = list(ast.iter_child_nodes(node)) if not isinstance(node, list) else list(node)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, SCOPES):
            # decorators, defaults, bases belong to this scope
            for k in ("decorator_list", "bases"):
                todo.extend(getattr(n, k, []))
            a = getattr(n, "args", None)
            if a is not None and not isinstance(n, ast.ClassDef):
                todo.extend(a.defaults)
                todo.extend(x for x in a.kw_defaults if x is not None)
            continue
        todo.extend(ast.iter_child_nodes(n))


def comp_targets(c):
    return {x.id for g in c.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}


def arg_names(fn):
    a = fn.args
    r = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    return r + [x.arg for x in (a.vararg, a.kwarg) if x is not None]


def bound_names(body):
    """names bound by statements of this scope (not comprehension targets), and its global/nonlocal names"""
    out, gl, nl = set(), set(), set()
    todo = list(body)
    while todo:
        n = todo.pop()
        if isinstance(n, SCOPES):
            if not isinstance(n, ast.Lambda):
                out.add(n.name)
                todo.extend(n.decorator_list)
            continue
        if isinstance(n, COMPS):
            # walrus inside a comprehension binds outside
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.NamedExpr):
            out.add(n.target.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                if a.name != "*":
                    out.add(a.asname or (a.name.split(".")[0] if isinstance(n, ast.Import) else a.name))
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            gl.update(n.names)
        elif isinstance(n, ast.Nonlocal):
            nl.update(n.names)
        todo.extend(ast.iter_child_nodes(n))
    return out - gl - nl, gl, nl


# ------------------------------------------------------------------ conditions

def flat(test):
    r = test.__dict__.get("_flat")
    if r is None:
        r = test._flat = flat_(test)
    return r


def flat_(test):
    """(atom key, polarity, names) of a non-boolean-operator test"""
    pol = True
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        pol = not pol
        test = test.operand
    if is_call_to(test, "bool") and len(test.args) == 1:
        k, p, e = flat(test.args[0])
        return k, p == pol, e
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, l, r = test.ops[0], test.left, test.comparators[0]
        if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
            flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
            if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)):
                l, r = r, l
            elif type(op) in flip:
                l, r, op = r, l, flip[type(op)]()
        neg = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In, ast.GtE: ast.Lt, ast.LtE: ast.Gt}
        if type(op) in neg:
            pol = not pol
            op = neg[type(op)]()
        # `x is True`, `x == False` on flags: same atom as x (assuming the flag is a boolean)
        if isinstance(r, ast.Constant) and isinstance(r.value, bool) and isinstance(op, (ast.Is, ast.Eq)):
            k, p, e = flat(l)
            return k, (p == pol) == r.value, e
        # len(x) > 0, len(x) != 0: non-empty
        if isinstance(r, ast.Constant) and r.value == 0 and not isinstance(r.value, bool) and is_call_to(l, "len"):
            if isinstance(op, ast.Eq):
                return key(l), not pol, l
            if isinstance(op, ast.Gt):
                return key(l), pol, l
        if isinstance(r, ast.Constant) and r.value == 1 and not isinstance(r.value, bool) and is_call_to(l, "len") and isinstance(op, ast.Lt):
            return key(l), not pol, l
        t = ast.Compare(l, [op], [r])
        return key(t), pol, t
    return key(test), pol, test


def is_call_to(n, nm):
    return isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == nm and not n.keywords


def key(e):
    r = e.__dict__.get("_key")
    if r is None:
        r = e._key = ast.dump(e)
    return r


def split_in(test):
    if "_split" not in test.__dict__:
        test._split = split_in_(test)
    return test._split


def split_in_(test):
    """x in ("a", "b")  ->  x == "a" or x == "b" """
    if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.ops[0], (ast.In, ast.NotIn)) \
            and isinstance(test.comparators[0], (ast.Tuple, ast.List, ast.Set)) and test.comparators[0].elts \
            and all(isinstance(x, ast.Constant) for x in test.comparators[0].elts):
        vals = [ast.Compare(test.left, [ast.Eq()], [x]) for x in test.comparators[0].elts]
        t = ast.BoolOp(ast.Or(), vals) if len(vals) > 1 else vals[0]
        return ast.UnaryOp(ast.Not(), t) if isinstance(test.ops[0], ast.NotIn) else t
    if isinstance(test, ast.Compare) and len(test.ops) > 1:
        parts, l = [], test.left
        for op, r in zip(test.ops, test.comparators):
            parts.append(ast.Compare(l, [op], [r]))
            l = r
        return ast.BoolOp(ast.And(), parts)
    if is_call_to(test, "any") or is_call_to(test, "all"):
        a = test.args[0] if test.args else None
        if isinstance(a, (ast.List, ast.Tuple)) and a.elts and not any(isinstance(x, ast.Starred) for x in a.elts):
            return ast.BoolOp(ast.Or() if test.func.id == "any" else ast.And(), a.elts)
    return None


def none_key(e):
    r = e.__dict__.get("_nkey")
    if r is None:
        r = e._nkey = key(ast.Compare(e, [ast.Is()], [ast.Constant(None)]))
    return r


BOOLY = (ast.Compare, ast.BoolOp, ast.Name, ast.Attribute, ast.Subscript)


def test_atoms(e, out):
    """atoms of a test expression, in order"""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return test_atoms(e.operand, out)
    s = split_in(e)
    if s is not None:
        return test_atoms(s, out)
    if isinstance(e, ast.BoolOp):
        for v in e.values:
            test_atoms(v, out)
        return out
    if isinstance(e, ast.IfExp):
        for v in (e.test, e.body, e.orelse):
            test_atoms(v, out)
        return out
    k, _, x = flat(e)
    out.append((k, x))
    return out


def base_of(x):
    """the expression whose value the atom tests: x for `x`, `x is None`, `x == c`"""
    if isinstance(x, ast.Compare):
        return x.left
    return x


def holds(op, x, c):
    if op in (ast.Eq, ast.Is):
        return x == c
    if x is None:
        return False
    return x < c if op is ast.Lt else x > c


def lowest(b):
    """least value of an integer-valued expression, or None"""
    if isinstance(b, ast.Attribute) and b.attr == "ndim":
        return 1
    if is_call_to(b, "len") or (isinstance(b, ast.Attribute) and b.attr == "size"):
        return 0
    if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr == "ndim":
        return 1
    return None


class Scope(object):
    """one function, class body or module"""

    def __init__(self, node, body, params, kind, nested_reads=None, noreturn=None, domains=None):
        self.domains = domains or {}
        self.node, self.body, self.params, self.kind = node, body, list(params), kind
        self.bound, self.globals_, self.nonlocals = bound_names(body)
        self.locals = (self.bound | set(params)) - self.globals_ - self.nonlocals
        self.nested_reads = nested_reads or {}
        self.noreturn = noreturn or (lambda call: False)
        self._find_atoms()

    def domain(self, b):
        if isinstance(b, ast.Attribute) and isinstance(b.value, ast.Name):
            return self.domains.get(b.attr)
        return None

    def _find_atoms(self):
        occ, flags = {}, []
        for n in own(self.body):
            t = getattr(n, "test", None)
            if t is not None and not isinstance(n, ast.Assert):
                for k, x in test_atoms(t, []):
                    occ.setdefault(k, []).append(x)
            if isinstance(n, ast.Assert):
                for k, x in test_atoms(n.test, []):
                    occ.setdefault(k, []).append(x)
            if isinstance(n, ast.comprehension):
                pass
            if isinstance(n, ast.BoolOp):
                for v in n.values:
                    for k, x in test_atoms(v, []):
                        occ.setdefault(k, []).append(x)
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], (ast.Name, ast.Attribute)):
                flags.append((n.targets[0], n.value))
        # bases tested more than once, in whatever form, are worth remembering
        bases = {}
        for k, xs in occ.items():
            for x in xs:
                bases.setdefault(key(base_of(x)), []).append(k)
        changed = True
        self.interest = set()
        want = {b for b, ks in bases.items()}
        tested = dict(occ)
        while changed:
            changed = False
            for tgt, val in flags:
                tk = key(load(tgt))
                if tk in want and (isinstance(val, (ast.Compare, ast.BoolOp, ast.UnaryOp, ast.Name, ast.Attribute, ast.IfExp, ast.Constant)) or is_call_to(val, "bool")):
                    for k, x in test_atoms(val, []):
                        bk = key(base_of(x))
                        if (tk, k) not in self.__dict__.setdefault("_fl", set()):
                            self._fl.add((tk, k))
                            bases.setdefault(bk, []).append(k)
                            bases.setdefault(tk, []).append(tk)
                            tested.setdefault(k, []).append(x)
                            want.add(bk)
                            changed = True
        for b, ks in bases.items():
            if len(ks) > 1:
                self.interest |= set(ks)
        self.atom_expr = {k: xs[0] for k, xs in tested.items()}
        self.all_interest = self.interest
        self.samekeys = same_keys(self)
        self.deps = {}
        for k, x in self.atom_expr.items():
            self.deps[k] = deps_of(x)


def widen(scope, atoms):
    """plus the atoms tested together with these (and/or), and what they are copied from"""
    out = set(atoms)
    for n in own(scope.body):
        t = getattr(n, "test", None)
        if t is not None:
            ks = {k for k, _ in test_atoms(t, [])}
            if len(ks) > 1 and ks & atoms:
                out |= ks
    return out & scope.all_interest


def guards_of(scope, var):
    """atoms of the tests around (or earlier exits before) the sets and reads of the variable"""
    out = set()

    def has(n):
        r = n.__dict__.setdefault("_names", None)
        if r is None:
            r = n._names = {x.id for x in ast.walk(n) if isinstance(x, ast.Name)} | {"." + x.attr for x in ast.walk(n) if isinstance(x, ast.Attribute)} | {y for x in ast.walk(n) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names for y in (a.asname, a.name) if y}
        return var in r

    def go(n):
        if not has(n):
            return
        t = getattr(n, "test", None)
        if t is not None:
            out.update(k for k, _ in test_atoms(t, []))
        if isinstance(n, ast.BoolOp):
            for v in n.values:
                out.update(k for k, _ in test_atoms(v, []))
        for c in ast.iter_child_nodes(n):
            if not isinstance(c, SCOPES):
                go(c)
    for b in scope.body:
        go(b)
    bases = {key(base_of(scope.atom_expr[k])) for k in out if k in scope.atom_expr}
    # flags copied into these
    for _ in range(4):
        more = {k for tk, k in scope.__dict__.get("_fl", ()) if tk in bases}
        nb = bases | {key(base_of(scope.atom_expr[k])) for k in more if k in scope.atom_expr}
        if nb == bases:
            break
        bases = nb
    return {k for k in scope.all_interest if k in scope.atom_expr and key(base_of(scope.atom_expr[k])) in bases or k in bases}


def load(t):
    """a store target as a load expression"""
    if isinstance(t, ast.Name):
        return ast.Name(t.id, ast.Load())
    if isinstance(t, ast.Attribute):
        return ast.Attribute(t.value, t.attr, ast.Load())
    if isinstance(t, ast.Subscript):
        return ast.Subscript(t.value, t.slice, ast.Load())
    return t


def deps_of(x):
    names = {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
    attrs = {n.attr for n in ast.walk(x) if isinstance(n, ast.Attribute)}
    return names, attrs


class Flow(object):
    """analyse one variable of one scope"""

    def __init__(self, scope, var, track=True, attr=None, setter=None):
        self.attr = attr             # (self name, attribute) instead of a variable
        self.setter = setter         # call node -> whether the call sets the attribute
        self.returns = set()
        self.s, self.v, self.track = scope, var, track
        self.reports = {}          # line -> state facts
        self.forced = {}
        self.collect = [set()]       # where exceptions go
        self.nested = {f for f, free in scope.nested_reads.items() if var in free}

    # ---- facts
    def learn(self, facts, k, val):
        """add the fact; None if contradictory"""
        if not self.track:
            return facts
        d = dict(facts)
        if k in d:
            return facts if d[k] == val else None
        if k in self.s.interest:
            d[k] = val
        x = self.s.atom_expr.get(k)
        if x is not None:
            for k2, v2 in self.implied(x, val):
                if k2 in d:
                    if d[k2] != v2:
                        return None
                elif k2 in self.s.interest:
                    d[k2] = v2
            if not self.feasible(d, base_of(x)):
                return None
        return frozenset(d.items())

    def feasible(self, d, b):
        """can the tested value b satisfy everything known about it?"""
        bk = key(b)
        cons = []
        for k, v in d.items():
            e = self.s.atom_expr.get(k)
            if isinstance(e, ast.Compare) and key(e.left) == bk and isinstance(e.comparators[0], ast.Constant):
                cons.append((type(e.ops[0]), e.comparators[0].value, v))
        if not cons:
            return True
        dom = self.s.domain(b)
        if dom is not None:
            return any(all(holds(op, x, c) == v for op, c, v in cons if op in (ast.Eq, ast.Is)) for x in dom)
        num = [(op, c, v) for op, c, v in cons if isinstance(c, (int, float)) and not isinstance(c, bool) and op in (ast.Eq, ast.Lt, ast.Gt)]
        if len(num) < 1:
            return True
        low = lowest(b)
        if low is None:
            cand = [c + e for _, c, _ in num for e in (-0.5, 0, 0.5)]
        else:
            cand = [low] + [x for _, c, _ in num for x in (int(c) - 1, int(c), int(c) + 1) if x >= low]
        return any(all(holds(op, x, c) == v for op, c, v in num) for x in cand)

    def implied(self, x, val):
        if isinstance(x, ast.Compare):
            l, op, r = x.left, x.ops[0], x.comparators[0]
            if isinstance(op, ast.Is) and isinstance(r, ast.Constant) and r.value is None:
                if val:
                    yield key(l), False
                    for k, e in self.s.atom_expr.items():
                        if isinstance(e, ast.Compare) and key(e.left) == key(l) and isinstance(e.ops[0], ast.Eq) and isinstance(e.comparators[0], ast.Constant) and e.comparators[0].value is not None:
                            yield k, False
            elif isinstance(op, ast.Eq) and isinstance(r, ast.Constant):
                if val:
                    lk = key(l)
                    for k, e in self.s.atom_expr.items():
                        if k != key(x) and isinstance(e, ast.Compare) and key(e.left) == lk and isinstance(e.comparators[0], ast.Constant):
                            c = e.comparators[0].value
                            if isinstance(e.ops[0], ast.Eq):
                                yield k, c == r.value
                            elif isinstance(e.ops[0], ast.Is) and c is None:
                                yield k, r.value is None
                            elif isinstance(r.value, (int, float)) and isinstance(c, (int, float)):
                                if isinstance(e.ops[0], ast.Lt):
                                    yield k, r.value < c
                                elif isinstance(e.ops[0], ast.Gt):
                                    yield k, r.value > c
                    yield lk, bool(r.value)
            elif isinstance(op, ast.In) and isinstance(r, ast.Name):
                pass
        else:
            if val:
                yield none_key(x), False

    def kill(self, facts, names=(), attrs=(), whole=()):
        if not facts:
            return facts
        out = []
        for k, v in facts:
            n, a = self.s.deps[k] if k in self.s.deps else (set(), set())
            if n & set(names) or a & set(attrs):
                continue
            out.append((k, v))
        return frozenset(out) if len(out) != len(facts) else facts

    # ---- expressions: reads of the variable, in evaluation order
    def read(self, n, st):
        if not st[0]:
            self.reports.setdefault((n.lineno, n.col_offset), st[1])
            return (True, st[1])
        return st

    def ev(self, e, sts):
        """states after evaluating e"""
        if e is None or not sts:
            return sts
        if isinstance(e, list):
            for x in e:
                sts = self.ev(x, sts)
            return sts
        if isinstance(e, ast.Constant):
            return sts
        if isinstance(e, ast.Name):
            if isinstance(e.ctx, ast.Load):
                if e.id == self.v:
                    return {self.read(e, st) for st in sts}
                if e.id in self.nested:
                    return {self.read(e, st) for st in sts}
            return sts
        if isinstance(e, ast.IfExp):
            t, f = self.cond(e.test, sts)
            return self.ev(e.body, t) | self.ev(e.orelse, f)
        if isinstance(e, ast.BoolOp):
            t, f = self.cond(e, sts)
            return t | f
        if isinstance(e, ast.Lambda):
            sts = self.ev(e.args.defaults, sts)
            return self.ev([x for x in e.args.kw_defaults if x is not None], sts)
        if isinstance(e, COMPS):
            tg = comp_targets(e)
            g0 = e.generators[0]
            sts = self.ev(g0.iter, sts)
            if self.v in tg:
                return sts
            for i, g in enumerate(e.generators):
                if i:
                    sts = self.ev(g.iter, sts)
                for c in g.ifs:
                    t, f = self.cond(c, sts)
                    sts = t | f if not t else t
            if isinstance(e, ast.DictComp):
                return self.ev(e.value, self.ev(e.key, sts))
            return self.ev(e.elt, sts)
        if isinstance(e, ast.NamedExpr):
            sts = self.ev(e.value, sts)
            return self.store(e.target, sts, e.value)
        if self.setter is not None and isinstance(e, ast.Call) and self.setter(e):
            sts = {(True, f) for _, f in sts}
        if self.attr is not None and isinstance(e, ast.Attribute) and isinstance(e.ctx, ast.Load) and e.attr == self.attr[1] and is_name(e.value, self.attr[0]):
            return {self.read(e, st) for st in sts}
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.keyword):
                c = c.value
            if isinstance(c, (ast.expr, ast.Slice)):
                sts = self.ev(c, sts)
            elif isinstance(c, ast.FormattedValue):
                sts = self.ev(c.value, sts)
        return sts

    def cond(self, test, sts):
        """(states where true, states where false)"""
        if not sts:
            return set(), set()
        if isinstance(test, ast.Constant):
            return (sts, set()) if test.value else (set(), sts)
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            t, f = self.cond(test.operand, sts)
            return f, t
        s = split_in(test)
        if s is not None:
            return self.cond(s, sts)
        if isinstance(test, ast.BoolOp):
            isand = isinstance(test.op, ast.And)
            cur, other = sts, set()
            for v in test.values:
                t, f = self.cond(v, cur)
                if isand:
                    cur, other = t, other | f
                else:
                    cur, other = f, other | t
            return (cur, other) if isand else (other, cur)
        if isinstance(test, ast.IfExp):
            t, f = self.cond(test.test, sts)
            a, b = self.cond(test.body, t)
            c, d = self.cond(test.orelse, f)
            return a | c, b | d
        if isinstance(test, ast.NamedExpr):
            sts = self.ev(test, sts)
            test = test.target
        else:
            sts = self.ev(test, sts)
        if not self.track:
            return set(sts), set(sts)
        k, pol, _ = flat(test)
        T, F = set(), set()
        if k in self.s.samekeys:
            return (set(sts), F) if pol else (F, set(sts))
        if k in self.forced:
            return (set(sts), F) if pol == self.forced[k] else (F, set(sts))
        for a, facts in sts:
            g = self.learn(facts, k, True)
            if g is not None:
                (T if pol else F).add((a, g))
            g = self.learn(facts, k, False)
            if g is not None:
                (F if pol else T).add((a, g))
        if len(T) + len(F) > CAP:
            raise TooMany()
        return T, F

    # ---- stores
    def store(self, t, sts, value=None):
        if isinstance(t, (ast.Tuple, ast.List)):
            vals = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) \
                and not any(isinstance(x, ast.Starred) for x in t.elts + value.elts) else [None] * len(t.elts)
            names = {n.id for x in t.elts for n in ast.walk(x) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            for x, y in zip(t.elts, vals):
                if y is not None and any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(y)):
                    y = None
                sts = self.store(x, sts, y)
            return sts
        if isinstance(t, ast.Starred):
            return self.store(t.value, sts)
        if isinstance(t, ast.Name):
            out = set()
            for a, f in self.assign_facts(t, sts, value):
                out.add((True if t.id == self.v else a, f))
            return out
        if isinstance(t, ast.Attribute):
            sts = self.ev(t.value, sts)
            if self.attr is not None and t.attr == self.attr[1] and is_name(t.value, self.attr[0]):
                sts = {(True, f) for _, f in sts}
            return self.assign_facts(t, sts, value)
        if isinstance(t, ast.Subscript):
            sts = self.ev(t.slice, self.ev(t.value, sts))
            if isinstance(t.value, ast.Name):
                # contents change: forget facts about x[...] and len(x), keep x is None
                return {(a, self.kill_content(f, t.value.id)) for a, f in sts}
            return sts
        return sts

    def kill_content(self, facts, name):
        if not facts:
            return facts
        out = []
        for k, v in facts:
            x = self.s.atom_expr.get(k)
            n, _ = self.s.deps.get(k, (set(), set()))
            if name in n and not (isinstance(x, ast.Compare) and isinstance(x.ops[0], ast.Is)):
                continue
            out.append((k, v))
        return frozenset(out)

    def assign_facts(self, t, sts, value):
        names = {t.id} if isinstance(t, ast.Name) else set()
        attrs = {t.attr} if isinstance(t, ast.Attribute) else set()
        tl = load(t)
        tk = key(tl)
        nk = none_key(tl)
        I = self.s.interest

        def set_(a, facts, pairs):
            f = self.kill(facts, names, attrs)
            for k, v in pairs:
                if f is None:
                    return None
                if k in I:
                    f = self.learn(f, k, v)
            return None if f is None else (a, f)

        if not self.track:
            return set(sts)
        rel = tk in I or nk in I or any(key(base_of(self.s.atom_expr[k])) == tk for k in I if k in self.s.atom_expr)
        out = set()
        if value is None or not rel:
            return {(a, self.kill(f, names, attrs)) for a, f in sts}
        if isinstance(value, ast.Constant):
            c = value.value
            pairs = [(nk, c is None), (tk, bool(c))]
            for k in I:
                e = self.s.atom_expr.get(k)
                if isinstance(e, ast.Compare) and key(e.left) == tk and isinstance(e.comparators[0], ast.Constant):
                    r = e.comparators[0].value
                    if isinstance(e.ops[0], ast.Eq):
                        pairs.append((k, c == r))
                    elif isinstance(c, (int, float)) and isinstance(r, (int, float)):
                        if isinstance(e.ops[0], ast.Lt):
                            pairs.append((k, c < r))
                        elif isinstance(e.ops[0], ast.Gt):
                            pairs.append((k, c > r))
            for a, f in sts:
                n = set_(a, f, pairs)
                out.add(n if n is not None else (a, self.kill(f, names, attrs)))
            return out
        if isinstance(value, (ast.List, ast.Tuple, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.JoinedStr)):
            return {x for x in (set_(a, f, [(nk, False)]) for a, f in sts) if x is not None}
        if is_call_to(value, "bool") and value.args:
            T, F = self.quiet_cond(value.args[0], sts)
            for g, val in ((T, True), (F, False)):
                out |= {x for x in (set_(a, f, [(tk, val), (nk, False)]) for a, f in g) if x is not None}
            return out
        if isinstance(value, (ast.Name, ast.Attribute, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.IfExp)) and \
                not (isinstance(value, ast.UnaryOp) and not isinstance(value.op, ast.Not)):
            if isinstance(value, ast.IfExp):
                tt, ff = self.cond(value.test, sts)
                return self.assign_facts(t, tt, value.body) | self.assign_facts(t, ff, value.orelse)
            T, F = self.quiet_cond(value, sts)
            for group, val in ((T, True), (F, False)):
                if isinstance(value, (ast.Name, ast.Attribute)):
                    N, NN = self.quiet_cond(ast.Compare(value, [ast.Is()], [ast.Constant(None)]), group)
                    parts = ((N, [(nk, True)]), (NN, [(nk, False)]))
                elif isinstance(value, (ast.Compare, ast.UnaryOp)):
                    parts = ((group, [(nk, False)]),)
                else:
                    parts = ((group, []),)
                for g, extra in parts:
                    for a, f in g:
                        n = set_(a, f, [(tk, val)] + extra)
                        if n is not None:
                            out.add(n)
            return out
        return {(a, self.kill(f, names, attrs)) for a, f in sts}

    def quiet_cond(self, e, sts):
        """split without reporting reads a second time"""
        r = dict(self.reports)
        x = self.cond(e, sts)
        self.reports = r
        return x

    # ---- statements; returns dict of outcome -> states
    def block(self, body, sts):
        out = {"n": sts, "b": set(), "c": set(), "x": set()}
        for s in body:
            if not out["n"]:
                break
            r = self.stmt(s, out["n"])
            out["n"] = r.get("n", set())
            for k in "bcx":
                out[k] |= r.get(k, set())
        return out

    def mayraise(self, sts):
        for c in self.collect[-1:]:
            c |= sts

    def stmt(self, s, sts):
        if len(sts) > CAP:
            raise TooMany()
        if isinstance(s, ast.Pass) or isinstance(s, (ast.Global, ast.Nonlocal)):
            return {"n": sts}
        if not isinstance(s, (ast.If, ast.While, ast.For, ast.With, ast.Try)) and not safe(s):
            self.mayraise(sts)
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            return {"n": self.ev([c for c in ast.iter_child_nodes(s) if isinstance(c, ast.expr)], sts)}
        return m(s, sts)

    def s_Expr(self, s, sts):
        r = self.ev(s.value, sts)
        if isinstance(s.value, ast.Call) and self.s.noreturn(s.value):
            return {"n": set()}
        return {"n": r}

    def s_Assign(self, s, sts):
        sts = self.ev(s.value, sts)
        for t in s.targets:
            sts = self.store(t, sts, s.value)
        return {"n": sts}

    def s_AugAssign(self, s, sts):
        sts = self.ev(load(s.target), sts) if not isinstance(s.target, ast.Name) else \
            self.ev(ast.copy_location(load(s.target), s.target), sts)
        sts = self.ev(s.value, sts)
        return {"n": self.store(s.target, sts)}

    def s_AnnAssign(self, s, sts):
        if s.value is None:
            return {"n": sts}
        return {"n": self.store(s.target, self.ev(s.value, sts), s.value)}

    def s_Delete(self, s, sts):
        for t in s.targets:
            if isinstance(t, ast.Name):
                if t.id == self.v:
                    sts = {self.read(t, st) for st in sts}
                    sts = {(False, f) for a, f in sts}
                sts = {(a, self.kill(f, {t.id})) for a, f in sts}
            else:
                sts = self.ev(t.value, sts)
        return {"n": sts}

    def s_Return(self, s, sts):
        self.returns |= self.ev(s.value, sts)
        return {"n": set()}

    def s_Raise(self, s, sts):
        self.ev(s.cause, self.ev(s.exc, sts))
        return {"n": set()}

    def s_Assert(self, s, sts):
        t, f = self.cond(s.test, sts)
        return {"n": t}

    def s_Break(self, s, sts):
        return {"n": set(), "b": sts}

    def s_Continue(self, s, sts):
        return {"n": set(), "c": sts}

    def s_Import(self, s, sts):
        for a in s.names:
            n = a.asname or (a.name.split(".")[0] if isinstance(s, ast.Import) else a.name)
            sts = self.store(ast.Name(n, ast.Store()), sts)
        return {"n": sts}

    s_ImportFrom = s_Import

    def s_FunctionDef(self, s, sts):
        sts = self.ev(s.decorator_list, sts)
        sts = self.ev(s.args.defaults + [x for x in s.args.kw_defaults if x is not None], sts)
        return {"n": self.store(ast.Name(s.name, ast.Store()), sts)}

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, sts):
        sts = self.ev(s.decorator_list + s.bases + [k.value for k in s.keywords], sts)
        return {"n": self.store(ast.Name(s.name, ast.Store()), sts)}

    def s_If(self, s, sts):
        self.mayraise(sts)
        t, f = self.cond(s.test, sts)
        a = self.block(s.body, t)
        b = self.block(s.orelse, f)
        return {k: a[k] | b[k] for k in "nbcx"}

    def s_For(self, s, sts):
        self.mayraise(sts)
        sts = self.ev(s.iter, sts)
        literal_empty = isinstance(s.iter, (ast.List, ast.Tuple)) and not s.iter.elts
        head, ends, brk = set(sts), set(), set()
        seen = set()
        while True:
            new = head - seen
            if not new:
                break
            seen |= new
            r = self.block(s.body, self.store(s.target, new))
            ends |= r["n"] | r["c"]
            brk |= r["b"]
            head |= r["n"] | r["c"]
            if len(head) > CAP:
                raise TooMany()
        if literal_empty:
            ends |= sts
        look = lookups(s)
        if look and self.track:
            # the element looked for exists: leave only on paths that met it
            rep = dict(self.reports)
            old, self.forced = self.forced, look
            r = self.block(s.body, self.store(s.target, set(sts)))
            self.forced = old
            ends, brk, seen = r["n"] | r["c"], set(r["b"]), set()
            head = set(ends)
            while head - seen:
                new = head - seen
                seen |= new
                r = self.block(s.body, self.store(s.target, new))
                ends |= r["n"] | r["c"]
                brk |= r["b"]
                head |= r["n"] | r["c"]
                if len(head) > CAP:
                    raise TooMany()
            self.reports = rep
        e = self.block(s.orelse, ends) if s.orelse else {"n": ends, "b": set(), "c": set(), "x": set()}
        return {"n": e["n"] | brk, "b": e["b"], "c": e["c"], "x": set()}

    s_AsyncFor = s_For

    def s_While(self, s, sts):
        self.mayraise(sts)
        head, brk, out, seen = set(sts), set(), set(), set()
        while True:
            new = head - seen
            if not new:
                break
            seen |= new
            t, f = self.cond(s.test, new)
            out |= f
            r = self.block(s.body, t)
            brk |= r["b"]
            head |= r["n"] | r["c"]
            if len(head) > CAP:
                raise TooMany()
        e = self.block(s.orelse, out) if s.orelse else {"n": out, "b": set(), "c": set(), "x": set()}
        return {"n": e["n"] | brk, "b": e["b"], "c": e["c"], "x": set()}

    def s_With(self, s, sts):
        self.mayraise(sts)
        for i in s.items:
            sts = self.ev(i.context_expr, sts)
            if i.optional_vars is not None:
                sts = self.store(i.optional_vars, sts)
        return self.block(s.body, sts)

    s_AsyncWith = s_With

    def s_Try(self, s, sts):
        self.collect.append(set())
        b = self.block(s.body, sts)
        raised = self.collect.pop()
        # the last statement of the body may be the one that raises: its effects then did not happen
        res = {k: set(b[k]) for k in "nbcx"}
        if s.orelse:
            r = self.block(s.orelse, b["n"])
            res["n"] = r["n"]
            for k in "bcx":
                res[k] |= r[k]
        if not s.handlers:
            self.mayraise(raised)
        for h in s.handlers:
            st = set(raised)
            if h.name:
                st = self.store(ast.Name(h.name, ast.Store()), st)
            r = self.block(h.body, st)
            if h.name == self.v:
                r["n"] = {(False, f) for a, f in r["n"]}
            for k in "nbcx":
                res[k] |= r[k]
        if s.handlers and not any(catch_all(h) for h in s.handlers):
            self.mayraise(raised)
        if s.finalbody:
            # exceptional entry (reads are checked; the exception then continues)
            self.block(s.finalbody, set(raised) | res["b"] | res["c"])
            r = self.block(s.finalbody, res["n"])
            out = {k: set(r[k]) for k in "nbcx"}
            for k in "bc":
                if res[k]:
                    q = self.block(s.finalbody, res[k])
                    out[k] |= q["n"]
            res = out
        return res

    s_TryStar = s_Try

    def s_Match(self, s, sts):
        raise TooMany()

    def run(self, assigned):
        r = self.block(self.s.body, {(assigned, frozenset())})
        return r


def safe(s):
    """statements that cannot raise"""
    if isinstance(s, (ast.FunctionDef, ast.Break, ast.Continue)):
        return True
    if isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) for t in s.targets):
        v = s.value
        return isinstance(v, ast.Constant) or (isinstance(v, (ast.List, ast.Tuple, ast.Set)) and not v.elts) or (isinstance(v, ast.Dict) and not v.keys)
    return isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def catch_all(h):
    return h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ("Exception", "BaseException"))


def lookups(loop):
    """keys of the tests `field of the element == something else` that guard the body's assignments"""
    tg = {n.id for n in ast.walk(loop.target) if isinstance(n, ast.Name)}
    inner, _, _ = bound_names(loop.body)
    out, temps = {}, {}
    for s in loop.body:
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            temps.setdefault(s.targets[0].id, []).append(s.value)
    for s in loop.body:
        if not isinstance(s, ast.If):
            continue
        t = s.test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t = t.operand
        flag = None
        if isinstance(t, ast.Name) and len(temps.get(t.id, ())) == 1:
            flag, t = t, temps[t.id][0]
        pos = True
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            pos, t = not pos, t.operand
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Eq, ast.NotEq)):
            l, r = ({n.id for n in ast.walk(x) if isinstance(n, ast.Name)} for x in (t.left, t.comparators[0]))
            if (l & tg and r and not r & (tg | inner)) or (r & tg and l and not l & (tg | inner)):
                k, pol, _ = flat(t)
                out[k] = True
                if flag is not None:
                    out[flat(flag)[0]] = pol == pos
    return out


def root(e):
    while True:
        if isinstance(e, (ast.Subscript, ast.Attribute, ast.Starred)):
            e = e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            e = e.func.value
        elif isinstance(e, ast.Call) and e.args and isinstance(e.func, ast.Name):
            e = e.args[0]
        else:
            return e.id if isinstance(e, ast.Name) else None


def same_keys(scope):
    """tests `k in X[i]` where k runs over the keys of X[0]: the entries of one list are taken to have the same keys"""
    loops, alias = [], {}
    for n in own(scope.body):
        if isinstance(n, (ast.For, ast.comprehension)):
            r = root(n.iter)
            for t in ast.walk(n.target):
                if isinstance(t, ast.Name):
                    alias.setdefault(t.id, set()).add(r)
            if any(isinstance(x, ast.Subscript) for x in ast.walk(n.iter)):
                loops.append(({t.id for t in ast.walk(n.target) if isinstance(t, ast.Name)}, r))
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Subscript):
            alias.setdefault(n.targets[0].id, set()).add(root(n.value))
    out = set()
    for k, x in scope.atom_expr.items():
        if isinstance(x, ast.Compare) and isinstance(x.ops[0], ast.In) and isinstance(x.left, ast.Name):
            r = root(x.comparators[0])
            direct = isinstance(x.comparators[0], ast.Name) and r not in alias
            if r is None or direct:
                continue
            for tg, lr in loops:
                if x.left.id in tg and lr is not None and (lr == r or lr in alias.get(r, ()) or (alias.get(r, set()) & alias.get(lr, set()))):
                    out.add(k)
    return out


def suspicious(scope, var):
    """cheap filter: False if the variable is certainly set by a top-level statement before every read"""
    first_read, first_set = None, None
    for n in own(scope.body):
        if isinstance(n, ast.Name) and n.id == var:
            if isinstance(n.ctx, ast.Del):
                return True
            if isinstance(n.ctx, ast.Load):
                p = (n.lineno, n.col_offset)
                first_read = p if first_read is None or p < first_read else first_read
    # a read through a nested function
    for f, free in scope.nested_reads.items():
        if var in free:
            for n in own(scope.body):
                if isinstance(n, ast.Name) and n.id == f and isinstance(n.ctx, ast.Load):
                    p = (n.lineno, n.col_offset)
                    first_read = p if first_read is None or p < first_read else first_read
    if first_read is None:
        return False
    for s in scope.body:
        if isinstance(s, (ast.Assign, ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef)):
            bn, _, _ = bound_names([s])
            if var in bn:
                return first_read[0] <= s.end_lineno
    return True
