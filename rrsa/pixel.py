"""Value of an array expression at one pixel (C33): slices shift the pixel, masks are decided case by case."""
import itertools
from .q import *
from .terms import *
from .ctx import Undecided

ARR = ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "copy.copy", "copy.deepcopy")
ODD = "odd"


def S(n):
    return mk("sym", n)


def const_int(t):
    return t.a[0] if t is not None and is_const(t) and isinstance(t.a[0], int) and not isinstance(t.a[0], bool) else None


class Px(object):
    """field(t) -> "F", "V", "X" for the flux, inverse variance and wavelength array of one exposure, None otherwise;
    bad: {offset: True if the pixel is masked (inverse variance 0)}; first: offsets count from the first pixel of the array,
    otherwise from some pixel away from both ends"""

    def __init__(self, field, bad, first=False):
        self.field, self.bad, self.first = field, bad, first

    def at(self, t, o):
        t = strip_alloc(t)
        f = self.field(t)
        if f:
            if f == "V" and self.bad.get(o) is True:
                return const(0)
            return S("%s@%d" % (f, o))
        if t.op == "const":
            return t
        if is_call(t, *ARR) and cargs(t):
            return self.at(cargs(t)[0], o)
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("copy", "astype"):
            return self.at(t.a[0].a[0], o)
        if t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "**"):
            return mk("bin", t.a[0], *[self.at(x, o) for x in t.a[1:]])
        if t.op == "un" and t.a[0] in ("-", "+"):
            x = self.at(t.a[1], o)
            return x if t.a[0] == "+" else mk("un", "-", x)
        if t.op == "sub":
            return self.item(t, o)
        if t.op == "store":
            return self.store(t, o)
        if t.op == "ite":
            try:
                c = self.cond(t.a[0], o)
            except Undecided:
                c = None
            if c is not None:
                return self.at(t.a[1] if c else t.a[2], o)
            a, b = self.at(t.a[1], o), self.at(t.a[2], o)
            if a is b:
                return a
            raise Undecided("pixel value " + show(t)[:60])
        if is_call(t, "numpy.where") and len(cargs(t)) == 3:
            m, a, b = cargs(t)
            c = self.cond(m, o)
            if c is None:
                raise Undecided("mask " + show(m)[:60])
            return self.at(a if c else b, o)
        if is_call(t, "numpy.interp") and len(cargs(t)) == 3:
            x, xp, fp = cargs(t)
            return S("interp(%s@%d; %s, %s)" % (self.at(x, o).a[0] if self.at(x, o).op == "sym" else "?", o, self.knots(xp), self.knots(fp)))
        if is_call(t, "numpy.min", "numpy.amin", "builtins.min", "numpy.max", "numpy.amax", "numpy.median", "numpy.mean") or \
                t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("min", "max", "mean"):
            return S("stat")
        if is_call(t, "numpy.diff") and len(cargs(t)) == 1:
            return mk("bin", "-", self.at(cargs(t)[0], o + 1), self.at(cargs(t)[0], o))
        if is_call(t, "numpy.ediff1d") and cargs(t) and ckw(t, "to_begin", 2) is not None and ckw(t, "to_end", 1) is None:
            if self.first and o == 0:
                return self.at(ckw(t, "to_begin", 2), 0)
            return mk("bin", "-", self.at(cargs(t)[0], o), self.at(cargs(t)[0], o - 1))
        if is_call(t, "numpy.zeros_like", "numpy.zeros", "numpy.empty_like", "numpy.empty"):
            return const(0) if "zeros" in fname(t.a[0]) else S("unset")
        if is_call(t, "numpy.ones_like", "numpy.ones"):
            return const(1)
        raise Undecided("pixel value " + show(t)[:60])

    def knots(self, t):
        """which values at which pixels"""
        t = strip_alloc(t)
        while is_call(t, *ARR) and cargs(t):
            t = strip_alloc(cargs(t)[0])
        if t.op == "sub" and t.a[1].op != "slice":
            f = self.field(strip_alloc(t.a[0]))
            # evaluated away from any particular pixel
            k = 1000
            g = Px(self.field, {k: False}).cond(t.a[1], k)
            b = Px(self.field, {k: True}).cond(t.a[1], k)
            if f is None or g is None or b is None:
                v = Px(self.field, {k: False}).at(t.a[0], k)
                if v.op == "sym" and g is True and b is False:
                    return v.a[0].split("@")[0] + "[good]"
                raise Undecided("knots " + show(t)[:60])
            return f + ("[good]" if g and not b else "[bad]" if b and not g else "[all]" if g else "[none]")
        f = self.field(t)
        if f:
            return f + "[all]"
        raise Undecided("knots " + show(t)[:60])

    def item(self, t, o):
        k = t.a[1]
        if k.op == "slice":
            lo, hi, st = k.a
            if st is not NONE and const_int(st) != 1:
                raise Undecided("strided " + show(t)[:60])
            a = 0 if lo is NONE else const_int(lo)
            if a is None:
                raise Undecided("slice " + show(t)[:60])
            if a < 0:
                raise Undecided("slice " + show(t)[:60])
            return self.at(t.a[0], o + a)
        if k.op == "const":
            raise Undecided("single pixel " + show(t)[:60])
        c = self.cond(k, o)
        if c is None:
            raise Undecided("mask " + show(k)[:60])
        if not c:
            return S(ODD)           # not among the selected pixels
        return self.at(t.a[0], o)

    def store(self, t, o):
        base, k, v = t.a
        if k.op == "slice":
            lo, hi, st = k.a
            if st is not NONE and const_int(st) != 1:
                raise Undecided("strided store")
            a = 0 if lo is NONE else const_int(lo)
            if a is None or a < 0 or not (hi is NONE or (const_int(hi) is not None and const_int(hi) < 0)):
                raise Undecided("slice store")
            if self.first and o < a:
                return self.at(base, o)
            return self.at(v, o - a)
        n = const_int(k)
        if n is not None:
            if self.first and n == o:
                return self.at(v, 0)
            return self.at(base, o)
        c = self.cond(k, o)
        if c is None:
            raise Undecided("mask " + show(k)[:60])
        return self.at(v, o) if c else self.at(base, o)

    def cond(self, m, o):
        """truth of a mask at the pixel, None if unknown"""
        m = strip_alloc(m)
        if m.op == "const":
            return bool(m.a[0])
        if m.op == "not" or m.op == "un" and m.a[0] == "~":
            v = self.cond(m.a[-1], o)
            return None if v is None else not v
        if m.op in ("and", "or") or m.op == "bin" and m.a[0] in ("&", "|"):
            xs = m.a if m.op in ("and", "or") else m.a[1:]
            vs = [self.cond(x, o) for x in xs]
            isand = m.op == "and" or m.op == "bin" and m.a[0] == "&"
            if (False if isand else True) in vs:
                return not isand
            return None if None in vs else isand
        if is_call(m, "numpy.logical_not", "numpy.invert"):
            v = self.cond(cargs(m)[0], o)
            return None if v is None else not v
        if is_call(m, "numpy.where", "numpy.nonzero", "numpy.flatnonzero") and len(cargs(m)) == 1:
            return self.cond(cargs(m)[0], o)
        if m.op == "sub" and is_const(m.a[1], 0) and is_call(strip_alloc(m.a[0]), "numpy.where", "numpy.nonzero"):
            return self.cond(m.a[0], o)
        if m.op == "sub" and m.a[1].op == "slice":
            return self.cond(m.a[0], o + (const_int(m.a[1].a[0]) or 0))
        if m.op == "cmp":
            op, a, b = m.a
            x, y = self.at(a, o), self.at(b, o)
            if x.op == "const":
                x, y = y, x
                op = {"<": ">", "<=": ">=", ">": "<", ">=": "<="}.get(op, op)
            if y.op != "const" or y.a[0] != 0 and x.op != "const":
                return None
            if x.op == "const":
                u, w = x.a[0], y.a[0]
                return {"<": u < w, "<=": u <= w, ">": u > w, ">=": u >= w, "==": u == w, "!=": u != w}.get(op)
            if x.op == "sym" and (x.a[0].startswith("V@") and self.bad.get(o_of(x)) is False or x.a[0].startswith("interp(") and x.a[0].endswith("V[good])")
                                  or x.a[0] == "stat"):
                return {"<": False, "<=": False, ">": True, ">=": True, "==": False, "!=": True}.get(op)
            return None
        return None


def o_of(x):
    return int(x.a[0].split("@")[1].split(";")[0].rstrip(")"))


def cases(field, t, first=False, span=(-1, 0, 1)):
    """[(bad, value)] over the masked/unmasked cases of the pixels around one pixel"""
    out = []
    offs = span if not first else (0, 1)
    for bs in itertools.product((False, True), repeat=len(offs)):
        bad = dict(zip(offs, bs))
        out.append((bad, Px(field, bad, first).at(t, 0)))
    return out
