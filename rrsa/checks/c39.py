"""C39: the IGM optical depths are the published ones, each wavelength in exactly one regime."""
import ast, os
from ..q import *
from ..ctx import Undecided, Stop

G = "redrock.igm."
IN = G + "Inoue14."


class No(Exception):
    pass


class Mono(dict):
    """sum of monomials: {((symbol, power), ...): coefficient}"""


def num(c):
    return Mono({(): float(c)}) if c else Mono()


def clean(m):
    s = max([abs(c) for c in m.values()] or [0])
    return Mono({k: c for k, c in m.items() if abs(c) > 1e-12 * max(s, 1e-30)})


def add(a, b, f=1.0):
    out = Mono(a)
    for k, c in b.items():
        out[k] = out.get(k, 0.0) + f * c
        if abs(out[k]) <= 1e-12 * max(abs(a.get(k, 0)), abs(f * c)):
            del out[k]
    return out


def mulkey(a, b, f=1):
    d = dict(a)
    for s, p in b:
        d[s] = d.get(s, 0) + f * p
    return tuple(sorted((s, round(p, 9)) for s, p in d.items() if abs(p) > 1e-9))


def mul(a, b):
    out = Mono()
    for k, c in a.items():
        for l, d in b.items():
            out = add(out, Mono({mulkey(k, l): c * d}))
    return out


def power(a, p):
    if not a:
        if p > 0:
            return Mono()
        raise No("power of zero")
    if len(a) == 1:
        (k, c), = a.items()
        if c <= 0 and p != int(p):
            raise No("power of a negative number")
        return Mono({tuple(sorted((s, round(q * p, 9)) for s, q in k)): c ** p})
    if p == int(p) and 0 <= p <= 6:
        out = num(1)
        for i in range(int(p)):
            out = mul(out, a)
        return out
    raise No("power of a sum")


def value(m, at):
    t = 0.0
    for k, c in m.items():
        for s, p in k:
            if s not in at:
                raise No("comparison of " + s)
            c *= at[s] ** p
        t += c
    return t


def less(a, b, strict):
    if abs(a - b) <= 1e-9 * max(abs(a), abs(b)):
        return not strict
    return a < b


class Cell:
    """value of one element of an array expression in one cell of the (lobs, z) plane"""

    def __init__(self, f, at, gpu):
        self.f, self.at, self.gpu = f, at, gpu
        self.masks = []      # (store mask, gather mask) that differ
        self.memo = {}

    def ev(self, t):
        if t.id not in self.memo:
            self.memo[t.id] = self._ev(t)
        return self.memo[t.id]

    def b(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return v
        raise No("not a condition: " + show(t)[:40])

    def m(self, t):
        v = self.ev(t)
        if isinstance(v, bool):
            return num(1) if v else Mono()
        return v

    def mask(self, i):
        """value of a boolean index, None if i only reshapes"""
        if i.op in ("slice",) or i is NONE or is_const(i):
            return None
        if i.op == "tuple":
            ms = [self.mask(x) for x in i.a]
            ms = [x for x in ms if x is not None]
            return ms[0] if len(ms) == 1 else None if not ms else all(ms)
        v = self.ev(i)
        if isinstance(v, bool):
            return v
        raise No("index " + show(i)[:40])

    def _ev(self, t):
        t = strip_alloc(t)
        o = t.op
        if o == "const":
            if isinstance(t.a[0], bool):
                return t.a[0]
            if isinstance(t.a[0], (int, float)):
                return num(t.a[0])
            raise No("constant " + show(t))
        if o == "param":
            if t.a[1] == "lobs":
                return Mono({(("L", 1),): 1.0})
            if t.a[1] == "zS":
                return Mono({(("V", 1),): 1.0, (): -1.0})
            if t.a[1] == "use_gpu":
                return self.gpu
            raise No("argument " + t.a[1])
        if o == "attr":
            n = t.a[1]
            if t.a[0].op == "param" and t.a[0].a[1] == "self":
                n = n[4:] if n.startswith("gpu_") else n
                if n == "lam" or n[:4] in ("ALAF", "ADLA"):
                    return Mono({((n, 1),): 1.0})
            if n == "T":
                return self.ev(t.a[0])
            raise No("attribute " + show(t)[:40])
        if o == "sub":
            k = self.mask(t.a[1])
            if k is not None:
                self.gathers.append(k)
            return self.ev(t.a[0])
        if o == "store":
            k = self.mask(t.a[1])
            base = self.m(t.a[0])
            if k is None:
                return self.m(t.a[2])
            old, self.gathers = self.gathers, []
            # evaluated outside of the memo, to see its own gathers
            memo, self.memo = self.memo, {}
            try:
                v = self.m(t.a[2])
            except No:
                if k:
                    raise
                v = None
            self.memo = memo
            if any(g != k for g in self.gathers):
                self.masks.append(t)
            self.gathers = old
            return v if k else base
        if o == "ite":
            return self.ev(t.a[1]) if self.b(t.a[0]) else self.ev(t.a[2])
        if o == "cmp":
            a, b = value(self.m(t.a[1]), self.at), value(self.m(t.a[2]), self.at)
            r = {"<": lambda: less(a, b, True), "<=": lambda: less(a, b, False), ">": lambda: less(b, a, True), ">=": lambda: less(b, a, False),
                 "==": lambda: less(a, b, False) and less(b, a, False), "!=": lambda: not (less(a, b, False) and less(b, a, False))}.get(t.a[0])
            if r is None:
                raise No("comparison " + t.a[0])
            return r()
        if o == "not":
            return not self.b(t.a[0])
        if o in ("and", "or"):
            vs = [self.b(x) for x in t.a]
            return all(vs) if o == "and" else any(vs)
        if o == "un":
            if t.a[0] in ("~", "not"):
                return not self.b(t.a[1])
            if t.a[0] == "-":
                return add(Mono(), self.m(t.a[1]), -1.0)
            if t.a[0] == "+":
                return self.m(t.a[1])
        if o == "bin":
            op, x = t.a[0], [y for y in t.a[1:] if isinstance(y, T)]
            if op in ("&", "|"):
                vs = [self.b(y) for y in x]
                return all(vs) if op == "&" else any(vs)
            if op == "^" and len(x) == 2:
                return self.b(x[0]) != self.b(x[1])
            vs = [self.m(y) for y in x]
            if op == "+":
                out = Mono()
                for v in vs:
                    out = add(out, v)
                return out
            if op == "-":
                return add(vs[0], vs[1], -1.0)
            if op == "*":
                if x and all(isinstance(self.ev(y), bool) for y in x):
                    return all(self.ev(y) for y in x)
                out = num(1)
                for v in vs:
                    out = mul(out, v)
                return out
            if op == "/":
                if len(vs[1]) != 1:
                    raise No("division by a sum")
                return mul(vs[0], power(vs[1], -1))
            if op == "**":
                return self.pow(vs[0], vs[1])
        if o == "call":
            n, a = fname(t.a[0]), cargs(t)
            s = n.split(".")[-1]
            if s == "power" and len(a) == 2 or s == "_pow" and len(a) >= 2:
                return self.pow(self.m(a[-2]), self.m(a[-1]))
            if s in ("zeros_like", "zeros"):
                return Mono()
            if s in ("ones_like", "ones"):
                return num(1)
            if s in ("asarray", "array", "atleast_1d", "float", "ascontiguousarray", "copy", "broadcast_to", "expand_dims", "squeeze") and a:
                return self.ev(a[0])
            if s in ("copy", "reshape", "astype") and t.a[0].op == "attr" and not n.startswith(("numpy", "cupy")):
                return self.ev(t.a[0].a[0])
            if s == "where" and len(a) == 3:
                return self.ev(a[1]) if self.b(a[0]) else self.ev(a[2])
            if s == "logical_and":
                return all(self.b(x) for x in a)
            if s == "logical_or":
                return any(self.b(x) for x in a)
            if s == "logical_not":
                return not self.b(a[0])
            if s in ("multiply", "add", "subtract", "divide") and len(a) == 2:
                return self.ev(mk("bin", {"multiply": "*", "add": "+", "subtract": "-", "divide": "/"}[s], *a))
        raise No(show(t)[:60])

    def pow(self, a, b):
        if not b:
            return num(1)
        if list(b) != [()]:
            raise No("exponent")
        return power(a, b[()])

    gathers = ()


LL = 911.8


def spec(name, u, v):
    """published optical depth (Inoue et al. 2014, eqs. 21-29) as {(power of u, power of v, coefficient name): number}; u = lobs/limit, v = 1+z"""
    ge = lambda a, b: less(b, a, False)
    if ge(u, v):
        return {}
    if name == "tLSLAF":
        k, p = (1, 1.2) if not ge(u, 2.2) else (2, 3.7) if not ge(u, 5.7) else (3, 5.5)
        return {(p, 0, "ALAF%d" % k): 1.0}
    if name == "tLSDLA":
        return {(2, 0, "ADLA1"): 1.0} if not ge(u, 3) else {(3, 0, "ADLA2"): 1.0}
    if name == "tLCDLA":
        if not ge(v, 3):
            return {(0, 2, ""): 0.2113, (-0.3, 2.3, ""): -0.07661, (2, 0, ""): -0.1347}
        if not ge(u, 3):
            return {(0, 0, ""): 0.6340, (0, 3, ""): 0.04696, (-0.3, 3.3, ""): -0.01779, (2, 0, ""): -0.1347, (-0.3, 0, ""): -0.2905}
        return {(0, 3, ""): 0.04696, (-0.3, 3.3, ""): -0.01779, (3, 0, ""): -0.02916}
    if not ge(v, 2.2):
        return {(1.2, 0, ""): 0.3248, (2.1, -0.9, ""): -0.3248}
    if not ge(v, 5.7):
        if not ge(u, 2.2):
            return {(2.1, 1.6, ""): 2.545e-2, (1.2, 0, ""): 0.3248, (2.1, 0, ""): -0.2496}
        return {(2.1, 1.6, ""): 2.545e-2, (3.7, 0, ""): -2.545e-2}
    if not ge(u, 2.2):
        return {(2.1, 3.4, ""): 5.221e-4, (1.2, 0, ""): 0.3248, (2.1, 0, ""): -3.140e-2}
    if not ge(u, 5.7):
        return {(2.1, 3.4, ""): 5.221e-4, (2.1, 0, ""): 0.2182, (3.7, 0, ""): -2.545e-2}
    return {(2.1, 3.4, ""): 5.221e-4, (5.5, 0, ""): -5.221e-4}


def to_mono(sp, line):
    out = Mono()
    for (p, q, nm), c in sp.items():
        k = {"L": p, "V": q}
        if line:
            k["lam"] = -p
            k[nm] = 1
        else:
            c = c * LL ** -p
        out = add(out, Mono({tuple(sorted((s, round(x, 9)) for s, x in k.items() if abs(x) > 1e-9)): c}))
    return out


def same(a, b):
    ks = set(a) | set(b)
    return all(abs(a.get(k, 0) - b.get(k, 0)) <= 1e-6 * max(abs(a.get(k, 0)), abs(b.get(k, 0))) for k in ks)


def text(m):
    if not m:
        return "0"
    return " + ".join("%.4g%s" % (c, "".join("*%s^%g" % (s, p) for s, p in k)) for k, c in sorted(m.items()))


def points(ts):
    """break points of u and v: every constant compared with a wavelength or redshift, and the points between them"""
    ks = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "cmp":
                for y in subterms(x):
                    if y.op == "const" and isinstance(y.a[0], (int, float)) and not isinstance(y.a[0], bool):
                        for k in (y.a[0], 1 + y.a[0], y.a[0] / LL, y.a[0] / 1000.0):
                            if 0.05 < k < 60:
                                ks.add(float(k))
    ks |= {2.2, 3.0, 5.7, 1.0}
    s = []
    for k in sorted(ks):
        if not s or k - s[-1] > 1e-6:
            s.append(k)
    out = [s[0] * 0.5]
    for a, b in zip(s, s[1:] + [s[-1] * 1.5]):
        # three points between two breaks, so that u < v and u > v are both seen inside
        out += [a, a + (b - a) * 0.25, a + (b - a) * 0.5, a + (b - a) * 0.75]
    return out


def reshape(i):
    """the index selects nothing"""
    return i is NONE or i.op == "slice" or i.op == "tuple" and all(reshape(x) for x in i.a)


def depends(t, p):
    """t depends on the values of p, not only on its size"""
    if t is p:
        return True
    if t.op == "attr" and t.a[1] in ("size", "shape", "ndim") or is_call(t, "builtins.len"):
        return False
    return any(depends(x, p) for x in t.a if isinstance(x, T))


def region(u, v):
    return "lobs = %.4g x limit, 1+z = %.4g" % (u, v)


def r_regimes(ctx):
    done = 0
    for name in ("tLSLAF", "tLSDLA", "tLCDLA", "tLCLAF"):
        q = IN + name
        I = ctx.interp(q)
        line = name.startswith("tLS")
        r = strip_alloc(I.ret)
        if line:
            ok = r.op == "call" and (fname(r.a[0]).endswith(".sum") or r.a[0].op == "attr" and r.a[0].a[1] == "sum")
            if not ok:
                red = r.op == "call" and r.a[0].op == "attr" and r.a[0].a[1] in ("max", "min", "mean", "prod", "cumsum") or r.op == "call" and fname(r.a[0]).split(".")[-1] in ("max", "min", "mean", "prod", "amax", "cumsum")
                if red:
                    ctx.ob("regimes/sum/" + name, False, q, "the lines are not added up: " + fname(r.a[0]).split(".")[-1])
                    continue
                ctx.undecided.append((ctx.cur, name + ": sum over lines"))
                continue
            meth = r.a[0].op == "attr" and not fname(r.a[0]).startswith(("numpy.", "cupy."))
            ax = ckw(r, "axis", 0 if meth else 1)
            ctx.ob("regimes/sum/" + name, ax is not None and is_const(ax, 0), q, "the sum is not over the lines (first axis)")
            r = r.a[0].a[0] if meth else cargs(r)[0]
            while r.op == "alloc":
                r = r.a[1]
            k = r.a[1] if r.op == "sub" else None
            if k is not None and k.op == "tuple" and k.a:
                k = k.a[0]
            if k is not None and k.op == "slice" and any(x is not NONE and is_const(x) and not is_const(x, d) for x, d in zip(k.a, (0, None, 1))):
                ctx.ob("regimes/sum/" + name, False, q, "only the lines %s are added up" % show(k))
                continue
        # one element depends on its own wavelength and redshift only
        red = [x for st in subterms(r) if st.op == "store" for y in (st.a[1], st.a[2]) for x in subterms(y)
               if is_call(x, *[m + n for m in ("numpy.", "cupy.", "builtins.") for n in ("min", "max", "mean", "median", "amin", "amax", "sum")])
               or x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("min", "max", "mean", "sum")]
        red = red or [x for st in subterms(r) if st.op == "store" for y in (st.a[1], st.a[2]) for x in subterms(y)
                      if x.op == "sub" and is_const(x.a[1]) and isinstance(x.a[1].a[0], int) and any(strip(y).op == "param" and strip(y).a[1] in ("zS", "lobs") for _, y in ites(strip(x.a[0])))]
        ctx.ob("regimes/own/" + name, not red, q, "the optical depth of one redshift depends on the others: " + show(red[0])[:60] if red else "")
        if red:
            continue
        ps = points([r])
        bad = mism = None
        n = 0
        try:
            for gpu in (False, True):
                for u in ps:
                    for v in ps:
                        if v < 1:
                            continue
                        lam = 1000.0 if line else LL
                        c = Cell(name, {"L": u * lam, "V": v, "lam": 1000.0}, gpu)
                        c.gathers = []
                        got = c.m(r)
                        want = to_mono(spec(name, u, v), line)
                        n += 1
                        if not same(got, want) and bad is None:
                            bad = (u, v, gpu, got, want)
                        if c.masks and mism is None:
                            mism = (u, v, c.masks[0])
        except No as e:
            ctx.undecided.append((ctx.cur, name + ": " + str(e)))
            continue
        done += 1
        ctx.ob("regimes/" + name, bad is None, q, "%s%s: %s instead of %s" % (region(*bad[:2]), ", GPU" if bad[2] else "", text(bad[3]), text(bad[4])) if bad else "%d cells" % n)
        ctx.ob("pixels/" + name, mism is None, q, "%s: the pixels that are set are not the ones that are computed" % region(*mism[:2]) if mism else "")
    if not done:
        raise Undecided("no optical depth evaluated")


def r_total(ctx):
    q = IN + "full_IGM"
    I = ctx.interp(q)
    r = strip_alloc(I.ret)
    for cs, y in ites(r):
        y = strip_alloc(y)
        if not (y.op == "call" and fname(y.a[0]).split(".")[-1] == "exp"):
            ok = None
            for cs2, f in ites(y.a[0]) if y.op == "call" else []:
                ok = fname(f).split(".")[-1] == "exp" if ok is None else ok and fname(f).split(".")[-1] == "exp"
            if not ok:
                raise Undecided("transmission is not an exponential")
        arg = cargs(y)[0]
        seen = {}

        def lin(t, s):
            """coefficients of the optical depths in -scale_tau * (...)"""
            t = strip_alloc(t)
            if t.op == "bin" and t.a[0] == "+":
                for x in t.a[1:]:
                    lin(x, s)
            elif t.op == "bin" and t.a[0] == "-":
                lin(t.a[1], s), lin(t.a[2], mulkey_c(s, -1))
            elif t.op == "bin" and t.a[0] == "*":
                sums = [x for x in t.a[1:] if contains(x, lambda z: z.op == "call")]
                rest = [x for x in t.a[1:] if x not in sums]
                if len(sums) > 1 and all(any(fname(z.a[0]).split(".")[-1].startswith("tL") for z in subterms(x) if z.op == "call") for x in sums):
                    ctx.ob("total/sum", False, q, "optical depths are multiplied")
                    raise Undecided("product of optical depths")
                if len(sums) != 1:
                    raise Undecided("product of optical depths")
                for x in rest:
                    s = fac(x, s)
                lin(sums[0], s)
            elif t.op == "un" and t.a[0] == "-":
                lin(t.a[1], mulkey_c(s, -1))
            elif t.op == "const":
                if t.a[0] != 0:
                    seen["const"] = s
            elif t.op == "call" and t.a[0].op in ("attr", "func", "method") or t.op == "call":
                seen.setdefault(fname(t.a[0]).split(".")[-1], []).append((s, t))
            else:
                raise Undecided("optical depth " + show(t)[:60])

        def mulkey_c(s, c):
            return (s[0] * c, s[1])

        def fac(x, s):
            x = strip_alloc(x)
            if x.op == "const":
                return (s[0] * x.a[0], s[1])
            if x.op == "un" and x.a[0] == "-":
                return fac(x.a[1], (-s[0], s[1]))
            if x.op == "attr" and x.a[1] == "scale_tau":
                return (s[0], s[1] + 1)
            raise Undecided("factor " + show(x)[:40])
        lin(arg, (1.0, 0))
        for n in ("tLSLAF", "tLSDLA", "tLCLAF", "tLCDLA"):
            v = seen.get(n, [])
            ctx.ob("total/" + n, len(v) == 1 and v[0][0] == (-1.0, 1), q, "%s enters the exponent %s" % (n, "%d times" % len(v) if len(v) != 1 else "with factor %g * scale_tau^%d" % v[0][0]))
        ctx.ob("total/other", "const" not in seen, q, "a constant is added to the optical depth")
    for e in calls(I, "tLSLAF", "tLSDLA", "tLCLAF", "tLCDLA"):
        b = e.d.get("bound") or {}
        for nm, src in (("zS", "z"), ("lobs", "lobs"), ("use_gpu", "use_gpu")):
            v = b.get(nm)
            if v is not None and strip(v).op in ("param", "const"):
                ctx.ob("total/arguments", strip(v) is mk("param", q, src), e, "%s of %s is %s" % (nm, fname(e.fn).split(".")[-1], show(v)[:40]))


def r_apply(ctx):
    """the transmission is computed for every redshift with wavelengths shortward of Lyman alpha, and put where it belongs"""
    q = G + "transmission_IGM_Inoue14"
    I = ctx.interp(q)
    sets = effs(I, "setitem")
    if not sets:
        raise Undecided("transmission is not stored")
    Z, L = mk("param", q, "zObj"), mk("param", q, "lObs")
    for e in sets:
        key = e.key.a[0] if e.key.op == "tuple" and e.key.a else e.key
        cl = [x for x in subterms(e.value) if x.op == "call" and fname(x.a[0]).endswith("full_IGM")]
        if not cl:
            continue
        for x in {y.id: y for y in cl}.values():
            a = [ckw(x, "z", 0), ckw(x, "lobs", 1)]
            for nm, v, w in (("redshifts", a[0], Z), ("wavelengths", a[1], L)):
                if v is None:
                    continue
                ctx.ob("apply/" + nm, contains(v, lambda y: y is w), e, "%s of the absorption are %s" % (nm, show(v)[:50]))
                idx = [y.a[1].a[0] if y.a[1].op == "tuple" else y.a[1] for y in subterms(v) if y.op == "sub" and contains(y.a[0], lambda z: z is w) and not reshape(y.a[1])]
                idx = [i for i in idx if i.op != "slice" and i is not NONE]
                if key.op != "slice":
                    ctx.ob("apply/rows", bool(idx) and all(i is key for i in idx), e, "rows of the %s: %s, rows stored: %s" % (nm, [show(i)[:40] for i in idx], show(key)[:40]))
        # the selection of redshifts
        if key.op == "slice":
            continue
        sel = key
        cs = [x for x in subterms(sel) if x.op == "cmp"]
        if len(cs) != 1 or not (sel is cs[0]):
            ctx.undecided.append((ctx.cur, "selection of redshifts"))
            continue
        c = cs[0]
        mx = contains(c, lambda y: is_call(y, "numpy.max", "cupy.max", "numpy.mean", "numpy.median", "builtins.max", "numpy.amax") or (y.op == "attr" and y.a[1] in ("max", "mean")))
        ctx.ob("apply/selection", not mx, e, "redshifts with some wavelengths shortward of Lyman alpha are left out: " + show(c)[:80])
        side = [strip(x) for x in c.a[1:]]
        lya = [i for i, x in enumerate(side) if show(x).endswith("LyA_wavelength") or is_const(x) and isinstance(x.a[0], float) and abs(x.a[0] - 1215.67) < 0.2]
        low = [x for x in side if is_const(x) and isinstance(x.a[0], (int, float)) and x.a[0] < 1215.4]
        if low and not lya:
            ctx.ob("apply/limit", False, e, "redshifts with absorbed wavelengths are left out: " + show(c)[:80])
        if len(lya) == 1:
            ctx.ob("apply/direction", (c.a[0] in ("<", "<=")) == (lya[0] == 1), e, "absorption is applied longward of Lyman alpha: " + show(c)[:80])
            w = side[1 - lya[0]]
            ctx.ob("apply/rest", w.op == "bin" and w.a[0] == "/" and depends(w.a[1], L) and depends(w.a[2], Z) or w.op != "bin", e, "compared with Lyman alpha: %s, not the rest wavelength" % show(w)[:60])
    ones = [x for e in sets for x in subterms(e.base) if is_call(x, "numpy.ones", "cupy.ones", "numpy.zeros", "cupy.zeros", "numpy.empty", "cupy.empty", "numpy.ones_like", "numpy.zeros_like", "numpy.full")]
    for x in {y.id: y for y in ones}.values():
        ctx.ob("apply/unabsorbed", "ones" in fname(x.a[0]), sets[0], "redshifts without absorption do not get transmission 1 (%s)" % fname(x.a[0]))


def r_series(ctx):
    """the effective optical depth of the Lyman series"""
    q = G + "transmission_Lyman_CaluraKamble"
    I = ctx.interp(q)
    Z, L = mk("param", q, "zObj"), mk("param", q, "lObs")
    sets = [e for e in I.effects if e.kind == "setitem" and e.loops]
    sets = [e for e in sets if contains(e.value, lambda x: x.op == "call" and fname(x.a[0]).split(".")[-1] == "exp")]
    if not sets:
        raise Undecided("absorption of one line")

    def const_of(x, nm):
        return x.op == "sub" and is_const(x.a[1], nm) and x.a[0].op == "sub"
    for e in sets:
        for l in e.loops:
            for x in (l if isinstance(l, tuple) else (l,)):
                if isinstance(x, T) and contains(x, lambda y: y.op == "attr" and y.a[1] == "Lyman_series" or show(y).endswith("Lyman_series")):
                    ctx.ob("series/all", not contains(x, lambda y: y.op == "slice"), e, "not all lines are applied: " + show(x)[:60])
        ls = {x.a[0].a[1].id for t in (e.key, e.value) for x in subterms(t) if const_of(x, "line") or const_of(x, "A") or const_of(x, "B")}
        ctx.ob("series/own", len(ls) == 1, e, "line, A and B are those of different lines")
        m = e.key
        if m.op == "cmp":
            side = [strip(x) for x in m.a[1:]]
            ln = [i for i, x in enumerate(side) if const_of(x, "line")]
            if len(ln) == 1:
                ctx.ob("series/blueward", (m.a[0] in ("<", "<=")) == (ln[0] == 1), e, "a line absorbs longward of it")
                w = side[1 - ln[0]]
                ctx.ob("series/rest", depends(w, Z) and depends(w, L), e, "compared with the line: %s, not the rest wavelength" % show(w)[:60])
            else:
                ctx.undecided.append((ctx.cur, "selection of pixels"))
        else:
            ctx.undecided.append((ctx.cur, "selection of pixels"))
        ctx.ob("series/product", e.d.get("op") == "*" or any(x.op == "sub" and x.a[1] is e.key for y in (strip(e.value),) if y.op == "bin" and y.a[0] == "*" for x in map(strip, y.a[1:])), e, "the absorption of several lines is not multiplied")
        for x in {y.id: y for y in subterms(e.value) if y.op == "call" and fname(y.a[0]).split(".")[-1] == "exp"}.values():
            a = strip(cargs(x)[0])
            neg = 1
            fs = []

            def flat(t):
                nonlocal neg
                t = strip(t)
                if t.op == "un" and t.a[0] == "-":
                    neg = -neg
                    flat(t.a[1])
                elif t.op == "bin" and t.a[0] == "*":
                    for y in t.a[1:]:
                        flat(y)
                elif t.op == "const" and isinstance(t.a[0], (int, float)):
                    if t.a[0] < 0:
                        neg = -neg
                    if abs(t.a[0]) != 1:
                        fs.append(t)
                else:
                    fs.append(t)
            flat(a)
            ctx.ob("series/sign", neg == -1, e, "the flux is amplified: exp(+tau)")
            As = [f for f in fs if const_of(f, "A")]
            ps = [f for f in fs if f.op == "bin" and f.a[0] == "**" or f.op == "call" and fname(f.a[0]).split(".")[-1] == "power"]
            if len(fs) == 2 and len(ps) == 1:
                ctx.ob("series/amplitude", len(As) == 1, e, "the amplitude is %s" % ", ".join(show(f)[:40] for f in fs if f is not ps[0]))
                base, ex = (ps[0].a[1], ps[0].a[2]) if ps[0].op == "bin" else cargs(ps[0])[:2]
                ctx.ob("series/exponent", const_of(strip(ex), "B"), e, "the exponent is " + show(ex)[:40])
                # base = lobs/line, written as 1 + (lobs/line - 1)
                terms = {}

                def lin(t, s):
                    t = strip(t)
                    if t.op == "bin" and t.a[0] == "+":
                        for y in t.a[1:]:
                            lin(y, s)
                    elif t.op == "bin" and t.a[0] == "-":
                        lin(t.a[1], s), lin(t.a[2], -s)
                    elif t.op == "const":
                        terms["1"] = terms.get("1", 0) + s * t.a[0]
                    else:
                        terms[t.id] = (t, s)
                lin(base, 1)
                one = terms.pop("1", 0)
                if len(terms) == 1:
                    (t, s), = terms.values()
                    ratio = t.op == "bin" and t.a[0] == "/" and const_of(strip(t.a[2]), "line") and depends(t.a[1], L) and not depends(mk("tuple", *[y.a[0] if y.op == "sub" and y.a[1] is m else y for y in (strip(t.a[1]),)]), Z)
                    ctx.ob("series/base", one == 0 and s == 1 and bool(ratio), e, "the optical depth is a power of %s, not of lobs/line" % show(base)[:60])
                    gs = [y.a[1] for y in subterms(t) if y.op == "sub" and contains(y.a[0], lambda z: z is L) and not reshape(y.a[1])]
                    if gs:
                        ctx.ob("series/pixels", all(g is m for g in gs), e, "absorption is computed for other pixels than it is applied to")
                else:
                    ctx.undecided.append((ctx.cur, "base of the power"))
            else:
                ctx.undecided.append((ctx.cur, "optical depth of one line"))


def r_data(ctx):
    """coefficients are read from their columns; no line lies longward of the wavelength used for the shortcut"""
    q = IN + "_load_data"
    I = ctx.interp(q)
    lya = None
    cpath = os.path.join(ctx.prog.repo, "py/redrock/constants.py")
    table = {}
    try:
        tree = ast.parse(open(cpath).read())
    except OSError:
        raise Undecided("constants")
    for n in tree.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == "LyA_wavelength" and isinstance(n.value, ast.Constant):
            lya = n.value.value
    if lya is None:
        ctx.undecided.append((ctx.cur, "LyA_wavelength"))
    else:
        for n in ast.walk(tree):
            if isinstance(n, ast.Dict):
                for k, v in zip(n.keys, n.values):
                    if isinstance(k, ast.Constant) and k.value == "line" and isinstance(v, ast.Constant):
                        ctx.ob("data/line", v.value <= lya + 1e-6, "py/redrock/constants.py:%d" % v.lineno, "the line at %g lies longward of the limit %g of the shortcut without absorption" % (v.value, lya))
    want = {"lam": ("LAF", 1), "ALAF1": ("LAF", 2), "ALAF2": ("LAF", 3), "ALAF3": ("LAF", 4), "ADLA1": ("DLA", 2), "ADLA2": ("DLA", 3)}
    for e in effs(I, "setattr"):
        if e.attr not in want:
            continue
        f, k = want[e.attr]
        v = strip_alloc(e.value)
        subs_ = [x for x in subterms(v) if x.op == "sub" and is_const(x.a[1]) and isinstance(x.a[1].a[0], int) and is_call(strip_alloc(x.a[0]), "numpy.loadtxt")]
        subs_ = list({x.id: x for x in subs_}.values())
        if len(subs_) != 1:
            ctx.undecided.append((ctx.cur, e.attr))
            continue
        x = subs_[0]
        lt = strip_alloc(x.a[0])
        files = [y.a[0] for y in subterms(lt) if is_const(y) and isinstance(y.a[0], str) and "coeff" in y.a[0]]
        ctx.ob("data/file/" + e.attr, len(files) == 1 and (f in files[0] or e.attr == "lam"), e, "%s is read from %s" % (e.attr, files))
        ctx.ob("data/column/" + e.attr, x.a[1].a[0] == k, e, "%s is column %s of %s" % (e.attr, show(x.a[1]), files))
    # the tables themselves
    base = os.path.join(os.path.dirname(cpath), "data")
    cols = {}
    for f in ("LAF", "DLA"):
        try:
            rows = [l.split() for l in open(os.path.join(base, f + "coeff.txt")) if l.strip() and not l.startswith("#")]
            cols[f] = [float(r[1]) for r in rows]
        except (OSError, ValueError, IndexError):
            ctx.undecided.append((ctx.cur, f + "coeff.txt"))
    if len(cols) == 2:
        ctx.ob("data/lines", cols["LAF"] == cols["DLA"], "py/redrock/data/DLAcoeff.txt", "the two tables list different lines, but share one list of wavelengths")
        if lya is not None:
            ctx.ob("data/limit", max(cols["LAF"] + cols["DLA"]) <= lya + 1e-6, "py/redrock/data/LAFcoeff.txt", "a line lies longward of the limit of the shortcut without absorption")


def run(ctx):
    ctx.rule("regimes", "in every cell of the (wavelength, redshift) plane each component has the published optical depth, once, and none longward of its limit", r_regimes)
    ctx.rule("total", "the transmission is exp(-scale_tau times the sum of the four components)", r_total)
    ctx.rule("apply", "it is computed for every redshift with wavelengths shortward of Lyman alpha, and stored in its own rows", r_apply)
    ctx.rule("series", "Calura/Kamble: exp(-A (lobs/line)^B) shortward of each line, multiplied", r_series)
    ctx.rule("data", "coefficients come from their own columns; no line is longward of the shortcut limit", r_data)
