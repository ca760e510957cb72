"""Boolean reasoning with order constraints: conditions that compare the same quantity with different bounds are not
independent.  Decides implication and equivalence by enumerating every sign pattern."""
from .q import *
from .arith import *

def _split(p):
    """polynomial -> (normalised non-constant part, scale, constant)"""
    p = dict(p)
    c = p.pop((), Fr(0))
    if not p:
        return None, None, c
    k = min(p, key=repr)
    s = p[k]
    return tuple(sorted(pscale(p, 1 / s).items(), key=repr)), s, c


def atom_of(t):
    """('num', group, op, bound) with group OP bound, ('val', group, value), or ('op', key)"""
    if t.op == "cmp" and t.a[0] in ("<", "<=", "==", "!=", "is"):
        a, b = t.a[1], t.a[2]
        for x, y in ((a, b), (b, a)):
            y = strip(y)
            if y.op == "const" and not isinstance(y.a[0], (int, float)) and t.a[0] in ("==", "!=", "is") or y is NONE:
                return ("val", canon(x), y.a[0] if y.op == "const" else None, t.a[0] == "!=")
        if t.a[0] != "is":
            p = padd(poly(a), pscale(poly(b), -1))
            g, s, c = _split(p)
            if g is None:
                v = {"<": c < 0, "<=": c <= 0, "==": c == 0, "!=": c != 0}[t.a[0]]
                return ("const", v)
            o = t.a[0]
            bd = -c / s
            if s < 0 and o in ("<", "<="):
                o = {"<": ">", "<=": ">="}[o]
            return ("num", g, o, bd)
    return ("op", canon(t))


def isint(g):
    return all(len(m) == 1 and m[0][1] == 1 and m[0][0].v[0] == "len" for m, c in g) and all(c.denominator == 1 for m, c in g)


def isnonneg(g):
    return isint(g) and all(c > 0 for m, c in g)


class Space(object):
    def __init__(self, terms):
        self.at = []
        for t in terms:
            self.collect(t)
        self.info = {}
        dom = {}
        for t in self.at:
            i = atom_of(t)
            self.info[t.id] = i
            if i[0] == "num":
                dom.setdefault(("num", i[1]), set()).add(i[3])
            elif i[0] == "val":
                dom.setdefault(("val", i[1]), set()).add(i[2])
            elif i[0] == "op":
                dom.setdefault(("op", i[1]), set())
        self.keys = sorted(dom, key=repr)
        self.vals = []
        n = 1
        for k in self.keys:
            if k[0] == "num":
                b = sorted(dom[k])
                if isint(k[1]):
                    v = sorted({x for y in b for x in ((y - 1).__floor__(), y.__floor__(), y.__ceil__(), (y + 1).__ceil__())})
                    if isnonneg(k[1]):
                        v = [x for x in v if x >= 0]
                else:
                    v = [b[0] - 1]
                    for x, y in zip(b, b[1:]):
                        v += [x, (x + y) / 2]
                    v += [b[-1], b[-1] + 1]
            elif k[0] == "val":
                v = [(x,) for x in sorted(dom[k], key=repr)] + [("\0other",)]
            else:
                v = [True, False]
            self.vals.append(v)
            n *= len(v)
        self.size = n

    def collect(self, t):
        if t.op in ("and", "or"):
            for x in t.a:
                self.collect(x)
        elif t.op == "not":
            self.collect(t.a[0])
        elif t is TRUE or t is FALSE:
            pass
        elif t.op == "ite":
            for x in t.a:
                self.collect(x)
        elif t not in self.at:
            self.at.append(t)

    def solve(self, fs, budget=200000):
        """an assignment that makes every formula of fs true, False if there is none, None if the search was cut short"""
        self.left = budget
        env = {}
        dom = dict(zip(self.keys, self.vals))
        diff = {k for k, _, _ in (self.diffs()[0] or [])}

        def go(fs):
            self.left -= 1
            if self.left < 0:
                return None
            rest = []
            for f in fs:
                v = self.ev(f, env)
                if v is False:
                    return False
                if v is None:
                    rest.append(f)
            if not rest:
                return dict(env)
            k = self.pick(rest[0], env)
            for v in dom[k]:
                env[k] = v
                if k not in diff or self.consistent(env):
                    r = go(rest)
                    if r is None or r is not False:
                        del env[k]
                        return r
                del env[k]
            return False
        # small formulas first: they fix the most
        return go(sorted(fs, key=lambda f: len(self.keysof(f))))

    def keysof(self, t, out=None):
        out = set() if out is None else out
        if t.op in ("and", "or", "not", "ite"):
            for x in t.a:
                self.keysof(x, out)
        elif t is not TRUE and t is not FALSE:
            i = self.info[t.id]
            if i[0] != "const":
                out.add(i[:2])
        return out

    def pick(self, t, env):
        if t.op in ("and", "or", "not", "ite"):
            for x in t.a:
                if self.ev(x, env) is None:
                    return self.pick(x, env)
        return self.info[t.id][:2]

    def diffs(self):
        """groups of the form x - y or x, as edges of a constraint graph"""
        if not hasattr(self, "_diffs"):
            out = []
            for k in self.keys:
                if k[0] != "num":
                    continue
                g = k[1]
                if len(g) == 1 and g[0][1] == 1:
                    out.append((k, g[0][0], None))
                elif len(g) == 2 and sorted(c for m, c in g) == [-1, 1]:
                    x = [m for m, c in g if c == 1][0]
                    y = [m for m, c in g if c == -1][0]
                    out.append((k, x, y))
            nodes = sorted({n for _, x, y in out for n in (x, y)}, key=repr)
            deg = {}
            for _, x, y in out:
                for n in (x, y):
                    deg[n] = deg.get(n, 0) + 1
            self._diffs = (out, nodes) if any(v > 1 for v in deg.values()) and len(nodes) <= 12 else (None, None)
            self._cons = {}
        return self._diffs

    def consistent(self, env):
        """the chosen positions of the compared quantities admit values (difference constraints without negative cycle)"""
        edges_, nodes = self.diffs()
        if not edges_:
            return True
        sig = tuple(env.get(k) for k, _, _ in edges_)
        r = self._cons.get(sig)
        if r is not None:
            return r
        n = len(nodes)
        if not hasattr(self, "_edge"):
            import math
            ix = {v: i for i, v in enumerate(nodes)}
            bk = {k: sorted({i[3] for i in self.info.values() if i[0] == "num" and i[1] == k[1]}) for k, _, _ in edges_}
            den = 1
            for q in [x for b in bk.values() for x in b] + [v for k, vs in zip(self.keys, self.vals) if k in bk for v in vs]:
                q = Fr(q)
                den = den * q.denominator // math.gcd(den, q.denominator)
            # bounds are integers: 64 * value, minus one when strict (a cycle has fewer than 64 edges)
            sc = lambda q, st=False: int(Fr(q) * den) * 64 - (1 if st else 0)
            self._edge = {}
            for k, x, y in edges_:
                i, j = ix[x], ix[y]
                b = bk[k]
                for v in dict(zip(self.keys, self.vals))[k]:
                    if v in b or isint(k[1]):
                        r = [(i, j, sc(v)), (j, i, sc(-v))]
                    else:
                        r = []
                        lo = [q for q in b if q < v]
                        hi = [q for q in b if q > v]
                        if hi:
                            r.append((i, j, sc(hi[0], True)))
                        if lo:
                            r.append((j, i, sc(-lo[-1], True)))
                    self._edge[k, v] = r
        es = [e for k, _, _ in edges_ if env.get(k) is not None for e in self._edge[k, env[k]]]
        # Bellman-Ford from a virtual source
        d = [0] * n
        r = True
        for it in range(n + 1):
            ch = False
            for i, j, c in es:
                if d[j] + c < d[i]:
                    d[i] = d[j] + c
                    ch = True
            if not ch:
                break
        else:
            r = False
        self._cons[sig] = r
        return r

    def ev(self, t, env):
        """True, False, or None while unassigned"""
        if t is TRUE:
            return True
        if t is FALSE:
            return False
        if t.op == "and":
            r = True
            for x in t.a:
                v = self.ev(x, env)
                if v is False:
                    return False
                if v is None:
                    r = None
            return r
        if t.op == "or":
            r = False
            for x in t.a:
                v = self.ev(x, env)
                if v:
                    return True
                if v is None:
                    r = None
            return r
        if t.op == "not":
            v = self.ev(t.a[0], env)
            return None if v is None else not v
        if t.op == "ite":
            c = self.ev(t.a[0], env)
            if c is None:
                a, b = self.ev(t.a[1], env), self.ev(t.a[2], env)
                return a if a is not None and a == b else None
            return self.ev(t.a[1] if c else t.a[2], env)
        i = self.info[t.id]
        if i[0] == "const":
            return i[1]
        v = env.get(i[:2])
        if v is None:
            return None
        if i[0] == "num":
            o, b = i[2], i[3]
            return {"<": v < b, "<=": v <= b, ">": v > b, ">=": v >= b, "==": v == b, "!=": v != b}[o]
        if i[0] == "val":
            return (v == (i[2],)) != i[3]
        return v

    def show(self, env):
        out = []
        for t in self.at:
            v = self.ev(t, env)
            if v is not None:
                out.append(("" if v else "not ") + show(t)[:70])
        return " & ".join(out[:6])


def implies(pre, concl, why=None):
    """True if concl holds whenever all of pre hold; False with an example in why; None if undecided"""
    fs = list(pre) + [mk("not", concl) if concl is not TRUE and concl is not FALSE else mknot(concl)]
    s = Space(fs)
    r = s.solve(fs)
    if r is None:
        return None
    if r is False:
        return True
    if why is not None:
        why.append(s.show(r))
    return False


def equiv(a, b, pre=(), why=None):
    x = implies(list(pre) + [a], b, why)
    y = implies(list(pre) + [b], a, why)
    if x is False or y is False:
        return False
    return True if x and y else None


def sat(pre):
    s = Space(list(pre))
    r = s.solve(list(pre))
    return None if r is None else r is not False


def zw(name):
    return mk("attr", mk("cls", "redrock.zwarning.ZWarningMask"), name)


def zval(prog, name):
    return glob_const(prog, zw(name))


def bitcond(prog, t, bit, d=0):
    """boolean term: bit (an integer with one bit) is set in the value t; None if unknown"""
    t = strip(t)
    if d > 40:
        return None
    v = glob_const(prog, t)
    if v is not None:
        if isinstance(v, bool) or not isinstance(v, int):
            return None if not isinstance(v, bool) else const(bool(int(v) & bit))
        return TRUE if v & bit else FALSE
    if t.op == "bin" and t.a[0] == "|":
        xs = [bitcond(prog, x, bit, d + 1) for x in t.a[1:]]
        if any(x is TRUE for x in xs):
            return TRUE
        return None if None in xs else mkor(*xs)
    if t.op == "bin" and t.a[0] == "&":
        xs = [bitcond(prog, x, bit, d + 1) for x in t.a[1:]]
        if any(x is FALSE for x in xs):
            return FALSE
        return None if None in xs else mkand(*xs)
    if t.op == "bin" and t.a[0] == "^":
        xs = [bitcond(prog, x, bit, d + 1) for x in t.a[1:]]
        return None if None in xs else xor(*xs)
    if t.op == "bin" and t.a[0] == "+":
        # adding one bit: the carry runs through the bits that are already set
        x, c = t.a[1:]
        v = glob_const(prog, c)
        if not isinstance(v, int):
            x, c = c, x
            v = glob_const(prog, c)
        if not isinstance(v, int) or isinstance(v, bool) or v <= 0 or v & (v - 1):
            return None
        r, carry = bitcond(prog, x, bit, d + 1), None
        if r is None or bit < v:
            return r
        carry, k = TRUE, v
        while k < bit:
            a = bitcond(prog, x, k, d + 1)
            if a is None:
                return None
            carry, k = mkand(carry, a), 2 * k
            if carry is FALSE:
                return r
        return xor(r, carry)
    if t.op == "un" and t.a[0] == "~":
        x = bitcond(prog, t.a[1], bit, d + 1)
        return None if x is None else mknot(x)
    if t.op == "ite":
        a, b = bitcond(prog, t.a[1], bit, d + 1), bitcond(prog, t.a[2], bit, d + 1)
        if a is None or b is None:
            return None
        c = bittest(prog, t.a[0], d + 1)
        return mkor(mkand(c, a), mkand(mknot(c), b))
    if t.op == "call" and fname(t.a[0]) in ("numpy.int64", "numpy.int32", "builtins.int", "numpy.bitwise_or", "operator.or_"):
        if fname(t.a[0]).endswith("or") or fname(t.a[0]).endswith("or_"):
            return bitcond(prog, mk("bin", "|", *cargs(t)[:2]), bit, d + 1)
        return bitcond(prog, cargs(t)[0], bit, d + 1)
    if t.op in ("sub", "param", "attr", "call", "mu", "loop"):
        return mk("bit", t, const(bit))
    return None


def xor(a, b):
    return mkor(mkand(a, mknot(b)), mkand(mknot(a), b))


def bittest(prog, c, d=0):
    """the condition c with the tests `x & BIT` written as bits of x"""
    def one(x):
        if x.op == "bin" and x.a[0] == "&":
            for y, z in (x.a[1:], x.a[:0:-1]):
                v = glob_const(prog, z)
                if isinstance(v, int) and v > 0 and not v & (v - 1):
                    return bitcond(prog, y, v, d + 1)
        return None

    def f(x):
        if x.op == "cmp" and x.a[0] in ("==", "!="):
            for y, z in (x.a[1:], x.a[:0:-1]):
                v = glob_const(prog, z)
                r = one(y)
                if r is not None and isinstance(v, int):
                    w = [u for u in y.a[1:] if isinstance(glob_const(prog, u), int)]
                    if v == 0 or w and glob_const(prog, w[0]) == v:
                        return r if (v != 0) == (x.a[0] == "==") else mknot(r)
        return x
    c = rewrite(c, f)

    def g(x):
        if x.op in ("and", "or", "not"):
            ys = [g(y) for y in x.a]
            return {"and": mkand, "or": mkor, "not": mknot}[x.op](*ys)
        r = one(x)
        return x if r is None else r
    return g(c)


def edges(t, seqs=None):
    """write the extremes of ascending sequences as their first and last element"""
    def f(x):
        if x.op == "call" and fname(x.a[0]) in ("numpy.min", "numpy.amin", "builtins.min", "numpy.max", "numpy.amax", "builtins.max") and len(cargs(x)) == 1:
            s = cargs(x)[0]
            if seqs is None or strip(s) in seqs:
                return mksub(s, const(0 if fname(x.a[0]).endswith("min") else -1))
        return x
    return rewrite(t, f)


def resolve(t, pre, d=0):
    """replace every gated value whose condition is decided by pre"""
    memo = {}

    def val(c):
        if c.id not in memo:
            x = implies(pre, c)
            if x is True:
                memo[c.id] = True
            elif x is False and implies(pre, mknot(c)) is True:
                memo[c.id] = False
            else:
                memo[c.id] = None
        return memo[c.id]

    def f(x):
        if x.op == "ite":
            v = val(x.a[0])
            if v is not None:
                return x.a[1] if v else x.a[2]
        return x
    for _ in range(4):
        u = rewrite(t, f)
        if u is t:
            break
        t = u
    return t
