"""Axis and zero-where-masked inference for pixel sums.

axes(t): tuple of axis labels; 'p' is the axis over all pixels of a target.
wdeg(t): how often the inverse variance divides the value as a factor on every
pixel (0 = not zero on masked pixels)."""
from .q import *


class NoAxes(Exception):
    pass


class Axes(object):
    def __init__(self, base, wdeg):
        self.base = base          # term id -> axes
        self.wd = wdeg            # term id -> degree
        self.memo = {}

    def axes(self, t):
        r = self.memo.get(t.id)
        if r is None:
            r = self._axes(t)
            self.memo[t.id] = r
        return r

    def _axes(self, t):
        if t.id in self.base:
            return self.base[t.id]
        t0 = t
        t = strip(t)
        if t.id in self.base:
            return self.base[t.id]
        if t.op == "const" or t.op == "global":
            return ()
        if t.op == "attr":
            if t.a[1] == "T":
                return tuple(reversed(self.axes(t.a[0])))
            if t.a[1] in ("nbasis",):
                return ()
        if t.op == "un":
            return self.axes(t.a[1])
        if t.op == "cmp":
            return self.bc([t.a[1], t.a[2]])
        if t.op == "not":
            return self.axes(t.a[0])
        if t.op == "bin":
            if t.a[0] == "@":
                x = self.axes(t.a[1])
                y = self.axes(t.a[2])
                if not x or not y:
                    raise NoAxes("product with a scalar " + show(t)[:80])
                return self.contract(x, y)
            return self.bc(t.a[1:])
        if t.op == "ite":
            a = self.axes(t.a[1])
            return a
        if t.op == "sub":
            ax = list(self.axes(t.a[0]))
            ks = t.a[1].a if t.a[1].op == "tuple" else (t.a[1],)
            out = []
            for k in ks:
                if k is NONE or (k.op == "ext" and k.a[0].endswith("newaxis")):
                    out.append("1")
                elif is_const(k, Ellipsis):
                    n = len([q for q in ks if q is not NONE and not is_const(q, Ellipsis)])
                    while len(ax) > n - sum(1 for q in out if q != "1"):
                        out.append(ax.pop(0))
                elif k.op == "slice":
                    if not ax:
                        raise NoAxes("too many indices")
                    out.append(ax.pop(0))
                else:
                    if not ax:
                        raise NoAxes("too many indices " + show(t)[:80])
                    ax.pop(0)
            return tuple(out + ax)
        if t.op == "call":
            n = fname(t.a[0])
            s = n.rsplit(".", 1)[-1]
            A = cargs(t)
            if s in ("multiply", "subtract", "add", "where", "maximum", "minimum", "abs", "sqrt", "square", "isfinite", "log", "exp",
                     "nan_to_num", "clip", "power"):
                return self.bc(A)
            if s in ("vstack", "concatenate", "hstack") and A:
                c = strip(A[0])
                if c.op == "comp":
                    return self.relabel(self.axes(c.a[1]))
                if c.op in ("list", "tuple") and c.a:
                    return self.relabel(self.axes(c.a[0]))
                if c.op == "loop" or c.op == "mu":
                    raise NoAxes("stack of " + show(c)[:60])
            if s in ("transpose",) and len(A) == 1:
                return tuple(reversed(self.axes(A[0])))
            if s == "swapaxes":
                x = list(self.axes(t.a[0].a[0] if t.a[0].op == "attr" else A[0]))
                a = A if t.a[0].op == "attr" else A[1:]
                i, j = cval(a[0]), cval(a[1])
                x[i], x[j] = x[j], x[i]
                return tuple(x)
            if s in ("sum", "nansum", "mean", "any", "all", "prod", "min", "max"):
                x = self.axes(A[0])
                axk = ckw(t, "axis", 1)
                if axk is None or axk is NONE:
                    return ()
                x = list(x)
                x.pop(cval(axk))
                return tuple(x)
            if s in ("zeros", "ones", "empty", "full"):
                raise NoAxes("shape of " + show(t)[:60])
            if s in ("zeros_like", "ones_like", "empty_like"):
                return self.axes(A[0])
            if s in ("inner", "vdot"):
                return ()
            if s == "reshape":
                raise NoAxes("reshape")
        if t.op in ("store", "mut", "update"):
            return self.axes(t.a[0])
        if t.op in ("loop",):
            return self.axes(t.a[0])
        if t.op == "mu":
            return self.axes(t.a[2])
        raise NoAxes("axes of " + t.op + " " + show(t)[:90])

    def relabel(self, x):
        return ("p",) + tuple(x[1:]) if x and x[0] in ("q", "p") else tuple("p" if a == "q" else a for a in x)

    def bc(self, xs):
        best = ()
        for x in xs:
            a = self.axes(x)
            if len(a) > len(best):
                a, best = best, a
            # merge trailing dims
            b = list(best)
            for i in range(1, len(a) + 1):
                if b[-i] == "1":
                    b[-i] = a[-i]
            best = tuple(b)
        return best

    def contract(self, x, y):
        if len(y) == 1:
            return tuple(x[:-1])
        if len(x) == 1:
            return tuple(y[:-2]) + (y[-1],)
        return tuple(x[:-1]) + (y[-1],)

    def contracted(self, t):
        """axis label(s) that reduction term t sums over, or None"""
        t = strip(t)
        if t.op == "bin" and t.a[0] == "@":
            x, y = self.axes(t.a[1]), self.axes(t.a[2])
            a = x[-1]
            b = y[0] if len(y) == 1 else y[-2]
            return {a, b} - {"1"}
        if t.op == "call":
            s = fname(t.a[0]).rsplit(".", 1)[-1]
            if s in ("sum", "nansum", "mean") and cargs(t):
                x = self.axes(cargs(t)[0])
                axk = ckw(t, "axis", 1)
                if axk is None or axk is NONE:
                    return set(x)
                return {x[cval(axk)]}
            if s in ("inner", "vdot"):
                return set(self.axes(cargs(t)[0]))
        return None

    # ---------------------------------------------------------- weights
    def deg(self, t):
        if t.id in self.wd:
            return self.wd[t.id]
        t = strip(t)
        if t.id in self.wd:
            return self.wd[t.id]
        if t.op == "bin":
            if t.a[0] in ("*", "@"):
                return sum(self.deg(x) for x in t.a[1:])
            if t.a[0] in ("+", "-"):
                return min(self.deg(x) for x in t.a[1:])
            if t.a[0] == "/":
                return self.deg(t.a[1]) - self.deg(t.a[2])
            if t.a[0] == "**":
                k = cval(t.a[2])
                return self.deg(t.a[1]) * k if isinstance(k, (int, float)) else 0
            return 0
        if t.op == "un":
            return self.deg(t.a[1]) if t.a[0] == "-" else 0
        if t.op == "ite":
            return min(self.deg(t.a[1]), self.deg(t.a[2]))
        if t.op == "sub":
            return self.deg(t.a[0])
        if t.op == "attr" and t.a[1] == "T":
            return self.deg(t.a[0])
        if t.op == "call":
            s = fname(t.a[0]).rsplit(".", 1)[-1]
            A = cargs(t)
            if s == "sqrt":
                return self.deg(A[0]) * 0.5
            if s in ("abs", "transpose", "reshape", "ravel", "flatten") and A:
                return self.deg(A[0])
            if s in ("swapaxes", "reshape") and t.a[0].op == "attr":
                return self.deg(t.a[0].a[0])
        return 0
