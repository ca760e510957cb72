"""Sign-case simplification of a term in one scalar unknown f (f<0, f==0, f>0)."""
from .q import *


def case(t, f, s, memo=None):
    """value of t in the case sign(f)==s as one of: ('lin', a) meaning a*f, ('const', c), None unknown"""
    t = strip(t)
    if t is f:
        return ("const", 0) if s == 0 else ("lin", 1)
    if t.op == "const" and isinstance(t.a[0], (int, float)):
        return ("const", float(t.a[0]))
    if t.op == "ite":
        c = boolcase(t.a[0], f, s)
        if c is None:
            return None
        return case(t.a[1] if c else t.a[2], f, s)
    if t.op in ("cmp", "not", "and", "or"):
        c = boolcase(t, f, s)
        return None if c is None else ("const", 1.0 if c else 0.0)
    if t.op == "un":
        x = case(t.a[1], f, s)
        if x is None:
            return None
        if t.a[0] == "-":
            return (x[0], -x[1])
        return None
    if t.op == "bin":
        xs = [case(y, f, s) for y in t.a[1:]]
        if any(x is None for x in xs):
            if t.a[0] == "*" and any(x is not None and x == ("const", 0.0) for x in xs):
                return ("const", 0.0)
            return None
        if t.a[0] == "*":
            r = ("const", 1.0)
            for x in xs:
                r = mul(r, x)
                if r is None:
                    return None
            return r
        if t.a[0] in ("+", "-"):
            r = xs[0]
            for x in xs[1:]:
                y = x if t.a[0] == "+" else (x[0], -x[1])
                r = add(r, y)
                if r is None:
                    return None
            return r
        if t.a[0] == "/" and xs[1][0] == "const" and xs[1][1]:
            return (xs[0][0], xs[0][1] / xs[1][1])
        return None
    if t.op == "call":
        n = fname(t.a[0]).rsplit(".", 1)[-1]
        A = cargs(t)
        if n == "where" and len(A) == 3:
            c = boolcase(A[0], f, s)
            return None if c is None else case(A[1] if c else A[2], f, s)
        if n in ("abs", "fabs", "absolute") and A:
            x = case(A[0], f, s)
            if x is None:
                return None
            sg = sgn(x, s)
            return x if sg >= 0 else (x[0], -x[1])
        if n in ("maximum", "minimum", "max", "min", "fmax", "fmin") and len(A) == 2:
            x, y = case(A[0], f, s), case(A[1], f, s)
            if x is None or y is None:
                return None
            d = add(x, (y[0], -y[1]))
            if d is None:
                return None
            big = x if sgn(d, s) >= 0 else y
            small = y if big is x else x
            return big if n in ("maximum", "max", "fmax") else small
        if n == "clip":
            lo, hi = ckw(t, "a_min", 1, NONE), ckw(t, "a_max", 2, NONE)
            x = case(A[0], f, s)
            if x is None:
                return None
            for b, up in ((lo, False), (hi, True)):
                if b is NONE:
                    continue
                y = case(b, f, s)
                if y is None:
                    return None
                d = add(x, (y[0], -y[1]))
                if d is None:
                    return None
                if (sgn(d, s) > 0) == up and sgn(d, s) != 0:
                    x = y
            return x
        if n in ("sign",) and A:
            x = case(A[0], f, s)
            return None if x is None else ("const", float(sgn(x, s)))
        if n in ("heaviside",):
            x = case(A[0], f, s)
            return None if x is None or sgn(x, s) == 0 else ("const", float(sgn(x, s) > 0))
    return None


def mul(x, y):
    if x[0] == "const" and y[0] == "const":
        return ("const", x[1] * y[1])
    if x[0] == "const":
        return ("lin", x[1] * y[1]) if x[1] else ("const", 0.0)
    if y[0] == "const":
        return mul(y, x)
    return None


def add(x, y):
    if x[0] == "const" and x[1] == 0:
        return y
    if y[0] == "const" and y[1] == 0:
        return x
    if x[0] != y[0]:
        return None
    r = (x[0], x[1] + y[1])
    return ("const", 0.0) if r[1] == 0 else r


def sgn(x, s):
    v = x[1] * (s if x[0] == "lin" else 1)
    return (v > 0) - (v < 0)


def boolcase(t, f, s):
    if t.op == "const":
        return bool(t.a[0])
    if t.op == "not":
        c = boolcase(t.a[0], f, s)
        return None if c is None else not c
    if t.op in ("and", "or"):
        cs = [boolcase(x, f, s) for x in t.a]
        if any(c is None for c in cs):
            return None
        return all(cs) if t.op == "and" else any(cs)
    if t.op == "un" and t.a[0] == "~":
        c = boolcase(t.a[1], f, s)
        return None if c is None else not c
    if t.op == "cmp":
        op, l, r = t.a
        x, y = case(l, f, s), case(r, f, s)
        if x is None or y is None:
            return None
        d = add(x, (y[0], -y[1]))
        if d is None:
            return None
        g = sgn(d, s)
        return {"<": g < 0, "<=": g <= 0, "==": g == 0, "!=": g != 0}.get(op)
    return None
