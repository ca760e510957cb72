"""Exact normal form of arithmetic terms: polynomials over opaque atoms with rational coefficients, integer division by a
positive constant in canonical form.  Two terms with the same form are equal for all values."""
from fractions import Fraction as Fr
from .q import *

_memo = {}


class K(object):
    """interned canonical form"""
    __slots__ = ("v", "n")
    table = {}

    def __repr__(self):
        return "K%07d" % self.n


def intern(v):
    k = K.table.get(v)
    if k is None:
        k = K()
        k.v, k.n = v, len(K.table)
        K.table[v] = k
    return k


def canon(t):
    """hashable canonical form"""
    r = _memo.get(t.id)
    if r is None:
        r = _canon(t)
        if not isinstance(r, K):
            r = intern(r)
        _memo[t.id] = r
    return r


def _canon(t):
    u = strip(t)
    if u is not t:
        return canon(u)
    if t.op == "const" and isinstance(t.a[0], bool):
        return ("bool", t.a[0])
    if (t.op == "const" and isinstance(t.a[0], (int, float))) or (t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "//", "**")) or \
            (t.op == "un" and t.a[0] in ("-", "+")) or is_call(t, "numpy.square", "numpy.negative", "cupy.square", "math.pow", "math.ceil", "numpy.ceil", "math.floor",
                                                     "numpy.floor", "builtins.abs", "numpy.abs", "numpy.absolute", "numpy.fabs", "numpy.sqrt", "math.sqrt",
                                                     "numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide", "builtins.len"):
        p = poly(t)
        return ("poly",) + tuple(sorted(p.items(), key=repr))
    if t.op == "cmp" and t.a[0] in ("<", "<=", "==", "!="):
        o = t.a[0]
        d = padd(poly(t.a[1]), pscale(poly(t.a[2]), -1))
        if o in ("==", "!=") and d:
            k = min(d, key=repr)
            d = pscale(d, 1 / d[k])
        return ("cmp", o) + tuple(sorted(d.items(), key=repr))
    if t.op in ("and", "or"):
        return (t.op,) + tuple(sorted((canon(x) for x in t.a), key=repr))
    if t.op == "bin" and t.a[0] in ("&", "|", "^"):
        return ("bin", t.a[0]) + tuple(sorted((canon(x) for x in t.a[1:]), key=repr))
    return (t.op,) + tuple(canon(x) if isinstance(x, T) else x for x in t.a)


def padd(p, q):
    r = dict(p)
    for k, v in q.items():
        r[k] = r.get(k, 0) + v
        if r[k] == 0:
            del r[k]
    return r


def pscale(p, c):
    return {k: v * c for k, v in p.items() if v * c != 0}


def mono(m1, m2):
    d = dict(m1)
    for a, e in m2:
        d[a] = d.get(a, 0) + e
        if d[a] == 0:
            del d[a]
    return tuple(sorted(d.items(), key=repr))


def pmul(p, q):
    r = {}
    for a, x in p.items():
        for b, y in q.items():
            k = mono(a, b)
            r[k] = r.get(k, 0) + x * y
    return {k: v for k, v in r.items() if v != 0}


def pconst(p):
    if not p:
        return Fr(0)
    if set(p) == {()}:
        return p[()]
    return None


def pow_(p, n):
    if n == 0:
        return {(): Fr(1)}
    if len(p) == 1:
        (m, c), = p.items()
        if isinstance(n, int) or float(n).is_integer():
            n = int(n)
            return {tuple((a, e * n) for a, e in m): c ** n}
        f = Fr(n).limit_denominator(64)
        if c == 1:
            return {tuple((a, e * f) for a, e in m): Fr(1)}
    if isinstance(n, int) and 0 < n <= 6:
        r = {(): Fr(1)}
        for _ in range(n):
            r = pmul(r, p)
        return r
    if isinstance(n, int) and n == -1 or (isinstance(n, (int, float, Fr)) and n < 0):
        k = intern(("poly",) + tuple(sorted(p.items(), key=repr)))
        return {((k, Fr(n).limit_denominator(64) if not isinstance(n, int) else n),): Fr(1)}
    k = intern(("poly",) + tuple(sorted(p.items(), key=repr)))
    return {((k, Fr(n).limit_denominator(64)),): Fr(1)}


def floordiv(p, m):
    """floor(p/m), m positive integer: canonical"""
    p = dict(p)
    c = p.pop((), Fr(0))
    if not p:
        return {(): Fr((c / m).__floor__())} if (c / m).__floor__() else {}
    lead = p[min(p, key=repr)]
    if all(v.denominator == 1 for v in p.values()) and c.denominator == 1:
        if lead < 0:
            # floor((-X + c)/m) = -floor((X - c + m - 1)/m)
            q = pscale(p, -1)
            q = padd(q, {(): -c + m - 1} if -c + m - 1 else {})
            return pscale(floordiv(q, m), -1)
        off = (c / m).__floor__()
        c = c - off * m
        k = intern(("fdiv", tuple(sorted(padd(p, {(): c} if c else {}).items(), key=repr)), m))
        r = {((k, 1),): Fr(1)}
        return padd(r, {(): Fr(off)} if off else {})
    k = intern(("fdiv", tuple(sorted(padd(p, {(): c} if c else {}).items(), key=repr)), m))
    return {((k, 1),): Fr(1)}


def atom(key):
    return {((key if isinstance(key, K) else intern(key), 1),): Fr(1)}


def poly(t):
    if is_call(t, "builtins.int") and len(cargs(t)) == 1:
        x = strip(cargs(t)[0])
        if x.op == "bin" and x.a[0] == "/":
            c = pconst(poly(x.a[2]))
            if c is not None and c > 0 and c.denominator == 1:
                return floordiv(poly(x.a[1]), int(c))    # quotients here are of counts, never negative
    t = strip(t)
    if t.op == "const":
        v = t.a[0]
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, (int, float)):
            try:
                f = Fr(v) if isinstance(v, int) else Fr(repr(v))
            except (ValueError, OverflowError):
                return atom(("const", repr(v)))
            return {(): f} if f else {}
    if t.op == "un" and t.a[0] == "-":
        return pscale(poly(t.a[1]), -1)
    if t.op == "un" and t.a[0] == "+":
        return poly(t.a[1])
    if t.op == "bin":
        o = t.a[0]
        if o == "+":
            r = {}
            for x in t.a[1:]:
                r = padd(r, poly(x))
            return r
        if o == "-":
            return padd(poly(t.a[1]), pscale(poly(t.a[2]), -1))
        if o == "*":
            r = {(): Fr(1)}
            for x in t.a[1:]:
                r = pmul(r, poly(x))
            return r
        if o == "/":
            d = poly(t.a[2])
            c = pconst(d)
            if c is not None and c != 0:
                return pscale(poly(t.a[1]), 1 / c)
            return pmul(poly(t.a[1]), pow_(d, -1))
        if o == "**" and t.a[2].op == "const" and isinstance(t.a[2].a[0], (int, float)):
            return pow_(poly(t.a[1]), t.a[2].a[0])
        if o == "//":
            c = pconst(poly(t.a[2]))
            if c is not None and c > 0 and c.denominator == 1:
                return floordiv(poly(t.a[1]), int(c))
    if t.op == "call":
        n = fname(t.a[0])
        s = n.rsplit(".", 1)[-1]
        a = cargs(t)
        if n in ("numpy.square", "cupy.square"):
            return pow_(poly(a[0]), 2)
        if n in ("numpy.sqrt", "math.sqrt"):
            return pow_(poly(a[0]), 0.5)
        if n in ("numpy.negative",):
            return pscale(poly(a[0]), -1)
        if n in ("numpy.power", "math.pow") and len(a) == 2 and a[1].op == "const":
            return pow_(poly(a[0]), a[1].a[0])
        if n in ("numpy.multiply", "numpy.add", "numpy.subtract", "numpy.divide") and len(a) == 2:
            return poly(mk("bin", {"multiply": "*", "add": "+", "subtract": "-", "divide": "/"}[s], *a))
        if s == "ceil" and n in ("math.ceil", "numpy.ceil"):
            x = strip(a[0])
            if x.op == "bin" and x.a[0] == "/":
                c = pconst(poly(x.a[2]))
                if c is not None and c > 0 and c.denominator == 1:
                    return floordiv(padd(poly(x.a[1]), {(): c - 1} if c != 1 else {}), int(c))
        if s == "floor" and n in ("math.floor", "numpy.floor"):
            x = strip(a[0])
            if x.op == "bin" and x.a[0] == "/":
                c = pconst(poly(x.a[2]))
                if c is not None and c > 0 and c.denominator == 1:
                    return floordiv(poly(x.a[1]), int(c))
        if n == "builtins.len" and len(a) == 1:
            x = strip(a[0])
            if is_range(x):
                r = range_len(x)
                if r is not None:
                    return r
            if x.op in ("items", "keys", "values"):
                return poly(mk("call", t.a[0], x.a[0]))
            return atom(("len", canon(a[0])))
        if s in ("abs", "absolute", "fabs") and len(a) == 1:
            p = poly(a[0])
            if p and p[min(p, key=repr)] < 0:
                p = pscale(p, -1)
            return atom(("abs", tuple(sorted(p.items(), key=repr))))
        return atom(("call", canon(t.a[0])) + tuple(canon(x) for x in t.a[1:]))
    return atom((t.op,) + tuple(canon(x) if isinstance(x, T) else x for x in t.a))


def range_len(x):
    a = rargs(x)
    if len(a) == 1:
        return poly(a[0])
    lo = poly(a[0])
    d = padd(poly(a[1]), pscale(lo, -1))
    if len(a) == 2:
        return d
    c = pconst(poly(a[2]))
    if c is not None and c > 0 and c.denominator == 1:
        return floordiv(padd(d, {(): c - 1} if c != 1 else {}), int(c))
    return None


def peq(a, b):
    return poly(a) == poly(b)


def ceq(a, b):
    return canon(a) == canon(b)


def pshow(p):
    out = []
    for k, v in sorted(p.items(), key=repr):
        out.append("%s*%s" % (v, "*".join(repr(a.v)[:60] for a, e in k)))
    return " + ".join(out)


def loop_count(key):
    """number of iterations of a loop key, as a polynomial (None if unknown)"""
    if key.op != "it":
        return None
    b = strip(key.a[0])
    if is_range(b):
        return range_len(b)
    return poly(mk("call", ext("builtins.len"), b))
