"""Index normal form of array expressions: sums of products of atoms with labelled axes.

Elementwise products identify axes, matrix products contract them; two expressions with the
same normal form are the same function of their atoms whatever operations they are written with."""
import itertools
from fractions import Fraction
from .q import *

_n = itertools.count()


def fresh():
    return next(_n)


class Ten(object):
    """free: axis labels (None: an axis of length one); terms: [(coef, ((atom, labels, power), ...))]"""
    def __init__(self, free, terms):
        self.free, self.terms = tuple(free), terms


class No(Exception):
    pass


def atom(name, rank):
    ls = tuple(fresh() for _ in range(rank))
    return Ten(ls, [(Fraction(1), ((name, ls, Fraction(1)),))])


def num(v):
    return Ten((), [(Fraction(v), ())])


def rename(t, m):
    f = lambda l: m.get(l, l)
    return Ten(tuple(f(l) if l is not None else None for l in t.free),
               [(c, tuple((n, tuple(f(l) for l in ls), p) for n, ls, p in fs)) for c, fs in t.terms])


def copy(t):
    """all labels new"""
    m = {}
    for l in t.free:
        if l is not None:
            m.setdefault(l, fresh())
    for c, fs in t.terms:
        for n, ls, p in fs:
            for l in ls:
                m.setdefault(l, fresh())
    return rename(t, m)


def unbind(t):
    """bound labels of each term are its own"""
    fr = set(t.free)
    out = []
    for c, fs in t.terms:
        m = {}
        for n, ls, p in fs:
            for l in ls:
                if l not in fr:
                    m.setdefault(l, fresh())
        out.append((c, tuple((n, tuple(m.get(l, l) for l in ls), p) for n, ls, p in fs)))
    return Ten(t.free, out)


def align(a, b):
    """broadcast: axes aligned from the right"""
    a, b = copy(a), copy(b)
    n = max(len(a.free), len(b.free))
    fa = (None,) * (n - len(a.free)) + a.free
    fb = (None,) * (n - len(b.free)) + b.free
    m = {}
    free = []
    for x, y in zip(fa, fb):
        if x is None:
            free.append(y)
        else:
            if y is not None:
                m[y] = x
            free.append(x)
    return a, rename(b, m), tuple(free)


def fixed(t, free):
    """every term must depend on the axes only through its own labels: adding a constant along an
    axis it lacks is broadcasting"""
    return Ten(free, t.terms)


def add(a, b, s=1):
    a, b, free = align(a, b)
    return Ten(free, list(a.terms) + [(c * s, fs) for c, fs in b.terms])


def mul(a, b):
    a, b, free = align(a, b)
    out = []
    for c, fs in a.terms:
        for d, gs in b.terms:
            x, y = unbind(Ten(free, [(c, fs)])), unbind(Ten(free, [(d, gs)]))
            out.append((c * d, x.terms[0][1] + y.terms[0][1]))
    return Ten(free, out)


def power(t, p):
    if p == int(p) and 0 < p <= 4:
        r = t
        for _ in range(int(p) - 1):
            r = mul(r, t)
        return r
    if len(t.terms) == 1:
        c, fs = t.terms[0]
        if c == 1 and all(l in t.free for n, ls, q in fs for l in ls):
            return Ten(t.free, [(c, tuple((n, ls, q * Fraction(p)) for n, ls, q in fs))])
    raise No("power")


def summed(t, axes):
    """sum over axes: the labels become bound"""
    if len(t.free) == 0:
        raise No("sum of a number")
    ax = {x % len(t.free) for x in axes}
    free = tuple(l for i, l in enumerate(t.free) if i not in ax)
    gone = {l for i, l in enumerate(t.free) if i in ax and l is not None}
    # a term without the summed label would be multiplied by the length
    for c, fs in t.terms:
        for l in gone:
            if not any(l in ls for n, ls, p in fs):
                raise No("sum of a constant")
    return unbind(Ten(free, t.terms))


def matmul(a, b):
    if not a.free or not b.free:
        raise No("matrix product with a number")
    a, b = copy(a), copy(b)
    if len(a.free) == 1 and len(b.free) == 1:
        return summed(mul(a, b), [0])
    if len(a.free) == 1:        # p @ [..., p, q]
        x = Ten(a.free + (None,), a.terms)
        return summed(mul(x, b), [-2])
    if len(b.free) == 1:        # [..., n, p] @ p
        return summed(mul(a, b), [-1])
    # [..., n, p] @ [..., p, q]
    x = Ten(a.free + (None,), a.terms)
    y = Ten(b.free[:-2] + (None,) + b.free[-2:], b.terms)
    return summed(mul(x, y), [-2])


def normal(t):
    """{canonical monomial: coefficient} with free axes numbered from the right"""
    pos = {}
    n = len(t.free)
    for i, l in enumerate(t.free):
        if l is not None:
            pos[l] = ("f", n - i)
    out = {}
    for c, fs in t.terms:
        # same factor, same labels: add powers
        d = {}
        for nme, ls, p in fs:
            d[(nme, ls)] = d.get((nme, ls), 0) + p
        fs = [(k[0], k[1], p) for k, p in d.items() if p != 0]
        bound = sorted({l for nme, ls, p in fs for l in ls if l not in pos})
        if len(bound) > 5:
            raise No("too many indices")
        best = None
        for perm in itertools.permutations(range(len(bound))):
            m = {l: ("b", k) for l, k in zip(bound, perm)}
            key = tuple(sorted((str(nme), tuple(pos.get(l) or m[l] for l in ls), p) for nme, ls, p in fs))
            if best is None or key < best:
                best = key
        if best is None:
            best = ()
        out[best] = out.get(best, 0) + c
    return {k: v for k, v in out.items() if v != 0}


def shape_free(t):
    return sum(1 for l in t.free if l is not None)


class Eval(object):
    """term -> Ten; leaf(term) gives the Ten of an atom or None"""
    def __init__(self, leaf):
        self.leaf, self.memo = leaf, {}

    def __call__(self, t):
        t = strip(t)
        r = self.memo.get(t.id)
        if r is None:
            r = self.memo[t.id] = self.ev(t)
        return r

    def axes(self, x, n):
        if x is None or x is NONE:
            return list(range(n))
        if is_const(x) and isinstance(x.a[0], int):
            return [x.a[0]]
        if x.op == "tuple" and all(is_const(y) for y in x.a):
            return [y.a[0] for y in x.a]
        raise No("axis")

    def subs(self, v, k):
        ks = list(k.a) if k.op == "tuple" else [k]
        if any(x.op == "const" and x.a[0] is Ellipsis for x in ks):
            i = [j for j, x in enumerate(ks) if x.op == "const" and x.a[0] is Ellipsis][0]
            have = sum(1 for j, x in enumerate(ks) if j != i and x is not NONE)
            ks[i:i + 1] = [None] * (len(v.free) - have)
        free, rest = [], list(v.free)
        for x in ks:
            if x is NONE or x is not None and is_ext(x, "numpy.newaxis", "cupy.newaxis"):
                free.append(None)
            elif x is None or x.op == "slice" and all(y is NONE for y in x.a):
                if not rest:
                    raise No("too many indices")
                free.append(rest.pop(0))
            elif is_const(x, 0) and rest and rest[0] is None:
                rest.pop(0)
            else:
                raise No("subscript " + show(k)[:40])
        return Ten(free + rest, v.terms)

    def ev(self, t):
        r = self.leaf(t)
        if r is not None:
            return r
        if t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool):
            return num(Fraction(t.a[0]))
        if t.op == "bin":
            o, a = t.a[0], t.a[1:]
            if o in ("+", "*", "@"):
                f = {"+": add, "*": mul, "@": matmul}[o]
                r = self(a[0])
                for x in a[1:]:
                    r = f(r, self(x))
                return r
            if o == "-":
                r = self(a[0])
                for x in a[1:]:
                    r = add(r, self(x), -1)
                return r
            if o == "/":
                return mul(self(a[0]), power(self(a[1]), -1)) if not is_const(a[1]) else mul(self(a[0]), num(1 / Fraction(a[1].a[0])))
            if o == "**" and is_const(a[1]):
                return power(self(a[0]), Fraction(a[1].a[0]))
        if t.op == "un" and t.a[0] == "-":
            return mul(num(-1), self(t.a[1]))
        if t.op == "attr" and t.a[1] == "T":
            v = self(t.a[0])
            return Ten(v.free[::-1], v.terms)
        if t.op == "sub":
            return self.subs(self(t.a[0]), t.a[1])
        if t.op == "call":
            f = fname(t.a[0])
            a = list(cargs(t))
            s = f.split(".")[-1]
            if t.a[0].op == "attr" and not f.startswith(("numpy.", "cupy.", "scipy.")):
                s = t.a[0].a[1]
                a = [t.a[0].a[0]] + a
                f = "numpy." + s
            if f.startswith(("numpy.", "cupy.")):
                if s in ("dot", "matmul"):
                    return matmul(self(a[0]), self(a[1]))
                if s == "outer":
                    return mul(self.subs(self(a[0]), mk("tuple", mk("slice", NONE, NONE, NONE), NONE)), self(a[1]))
                if s == "multiply":
                    return mul(self(a[0]), self(a[1]))
                if s in ("add", "subtract"):
                    return add(self(a[0]), self(a[1]), 1 if s == "add" else -1)
                if s == "negative":
                    return mul(num(-1), self(a[0]))
                if s == "square":
                    return power(self(a[0]), 2)
                if s == "sqrt":
                    return power(self(a[0]), Fraction(1, 2))
                if s == "power" and is_const(a[1]):
                    return power(self(a[0]), Fraction(a[1].a[0]))
                if s in ("inner", "vdot"):
                    x, y = self(a[0]), self(a[1])
                    if len(x.free) == 1 and len(y.free) == 1:
                        return matmul(x, y)
                if s == "sum":
                    v = self(a[0])
                    return summed(v, self.axes(ckw(t, "axis", 1 if t.a[0].op != "attr" else 0), len(v.free)))
                if s == "swapaxes" and is_const(a[1]) and is_const(a[2]):
                    v = self(a[0])
                    fr = list(v.free)
                    i, j = a[1].a[0], a[2].a[0]
                    fr[i], fr[j] = fr[j], fr[i]
                    return Ten(fr, v.terms)
                if s == "transpose":
                    v = self(a[0])
                    ax = a[1:]
                    if len(ax) == 1 and ax[0].op in ("tuple", "list"):
                        ax = ax[0].a
                    if not ax:
                        return Ten(v.free[::-1], v.terms)
                    if all(is_const(x) for x in ax):
                        return Ten([v.free[x.a[0]] for x in ax], v.terms)
                if s == "expand_dims" and is_const(ckw(t, "axis", 1 if t.a[0].op != "attr" else 0)):
                    v = self(a[0])
                    i = ckw(t, "axis", 1 if t.a[0].op != "attr" else 0).a[0]
                    fr = list(v.free)
                    fr.insert(i if i >= 0 else len(fr) + 1 + i, None)
                    return Ten(fr, v.terms)
                if s == "squeeze":
                    v = self(a[0])
                    return Ten([l for l in v.free if l is not None], v.terms)
                if s == "reshape":
                    v = self(a[0])
                    sh = a[1:]
                    if len(sh) == 1 and sh[0].op in ("tuple", "list"):
                        sh = sh[0].a
                    if len(sh) == shape_free(v):
                        return Ten([l for l in v.free if l is not None], v.terms)
                if s == "einsum" and is_const(a[0]) and isinstance(a[0].a[0], str):
                    return self.einsum(a[0].a[0].replace(" ", ""), [self(x) for x in a[1:]])
                if s in ("ascontiguousarray", "asarray", "array", "atleast_1d", "copy"):
                    return self(a[0])
        raise No(show(t)[:60])

    def einsum(self, spec, vs):
        if "->" not in spec:
            raise No("einsum")
        ins, out = spec.split("->")
        ins = ins.split(",")
        if len(ins) != len(vs) or "." in spec:
            raise No("einsum")
        lab = {}
        r = None
        for s, v in zip(ins, vs):
            if len(s) != len(v.free) or None in v.free:
                raise No("einsum")
            v = copy(v)
            m = {}
            for ch, l in zip(s, v.free):
                if l in m:
                    raise No("einsum")
                m[l] = lab.setdefault(ch, fresh())
            v = rename(v, m)
            r = v.terms if r is None else [(c * d, fs + unbind(Ten(tuple(lab.values()), [(d, gs)])).terms[0][1]) for c, fs in r for d, gs in v.terms]
        t = Ten(tuple(lab.values()), r)
        for c, fs in r:
            for ch, l in lab.items():
                if ch not in out and not any(l in ls for n, ls, p in fs):
                    raise No("einsum")
        return unbind(Ten(tuple(lab[ch] for ch in out), r))


def is_ext(t, *names):
    return t.op == "ext" and t.a[0] in names
