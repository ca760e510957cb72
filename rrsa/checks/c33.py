"""C33: coaddition combines only like spectra, weighted by inverse variance."""
import ast

from ..q import *
from ..arith import poly, canon, peq, padd, pmul, pscale, pow_, pconst, atom, K, Fr
from ..pixel import cases, S
from ..store import roots
from ..terms import *
from ..terms import mkcmp, mksub
from ..ctx import Undecided, Stop

CO = "redrock.targets.Target.compute_coadd"
SP = "redrock.targets.Spectrum"
ARR = ("numpy.array", "numpy.asarray", "numpy.stack", "numpy.vstack", "numpy.copy", "numpy.ascontiguousarray")
SYM = {"flux": "FLUX", "ivar": "IVAR"}


def sym(n):
    return mk("sym", n)


class Coadd(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = ctx.interp(CO, stop_extra=(SP + ".__init__", SP))
        self.me = mk("param", CO, "self")
        self.spectra = mk("attr", self.me, "spectra")
        self.news = [e for e in self.I.effects if e.kind == "call" and (fname(e.fn) or "") == SP]
        if len(self.news) != 1:
            raise Undecided("%d spectra are built" % len(self.news))
        self.new = self.news[0]
        self.b = self.new.d.get("bound") or {}
        self.rejects = []
        self.when = []
        self.pysums = {strip_all(e.result).id for e in self.I.effects if e.kind == "call" and (fname(e.fn) or "") == "builtins.sum" and e.result is not None}

    # ---- elements of arrays over the members of a group
    def isspec(self, t):
        t = strip(t)
        if t.op != "sub" or t.a[1].op != "idx":
            return False
        return strip(t.a[0]) is self.spectra or self.sublist(t.a[0]) is not None

    def sublist(self, t):
        """condition of a list of selected spectra"""
        t = strip(t)
        if t.op == "comp" and t.a[0] == "list" and strip(t.a[3].a[0]) is self.spectra and self.isspec(t.a[1]) and strip(t.a[1]).a[0] is t.a[3].a[0]:
            return t.a[2]
        return None

    def which(self, t):
        """condition of the spectra a list has one element for"""
        b = strip(t.a[3].a[0])
        if b is self.spectra:
            return t.a[2]
        sub = self.sublist(b)
        return None if sub is None else mkand(sub, t.a[2])

    def val(self, t):
        """value of one member in symbols"""
        t = strip_alloc(t)
        if is_call(t, *ARR) and cargs(t):
            return self.val(cargs(t)[0])
        if t.op == "attr" and t.a[1] in SYM and self.isspec(t.a[0]):
            return sym(SYM[t.a[1]])
        if t.op == "attr" and t.a[1] == "data" and strip(t.a[0]).op == "attr" and strip(t.a[0]).a[1] == "R" and self.isspec(strip(t.a[0]).a[0]):
            return sym("RDATA")
        if t.op == "bin":
            return mk("bin", t.a[0], *[self.val(x) for x in t.a[1:]])
        if t.op == "const":
            return t
        raise Undecided("member value " + show(t)[:80])

    def member(self, t):
        """(condition, value) of the members of an array over one group"""
        t = strip_alloc(t)
        if is_call(t, *ARR) and cargs(t):
            return self.member(cargs(t)[0])
        if t.op == "comp" and t.a[0] == "list":
            it = t.a[3]
            if strip(it.a[0]) is self.spectra:
                return t.a[2], self.val(t.a[1])
            sub = self.sublist(it.a[0])
            if sub is not None:
                cc = mkand(sub, t.a[2])
                try:
                    return cc, self.val(t.a[1])
                except Undecided:
                    if t.a[2] is not TRUE:
                        raise
                c, v = self.expr(t.a[1], mk("idx", it.a[0], it.a[1]), cc)
                return cc, v
            # a list made from another list over the same members
            if t.a[2] is TRUE:
                c, v = None, None
                return self.expr(t.a[1], mk("idx", it.a[0], it.a[1]))
            raise Undecided("list over " + show(it.a[0])[:60])
        if t.op == "sub" and t.a[1].op == "slice":
            lo, hi, sp = t.a[1].a
            if lo is NONE and hi is NONE and (sp is NONE or is_const(sp, 1, -1)):
                return self.member(t.a[0])
            if is_const(lo) and lo is not NONE and lo.a[0] != 0 or is_const(hi) and hi is not NONE or is_const(sp) and sp is not NONE and sp.a[0] not in (1, -1) \
                    or hi.op == "bin" and hi.a[0] in ("+", "-") and len(hi.a) == 3 and any(is_call(x, "builtins.len") for x in hi.a[1:]) and any(is_const(x) and x.a[0] != 0 for x in hi.a[1:]):
                self.member(t.a[0])
                raise Stop2("only members %s take part" % show(t.a[1]))
        if t.op == "ite":
            if is_const(t.a[0]):
                return self.member(t.a[1] if t.a[0].a[0] else t.a[2])
            c1, v1 = self.member(t.a[1])
            c2, v2 = self.member(t.a[2])
            if c1 is not c2:
                raise Undecided("different groups in " + show(t)[:60])
            if v1 is v2:
                return c1, v1
            if {v1, v2} == {sym("IVAR"), sym("MIVAR")}:
                self.when.append(t.a[0] if v1 is sym("MIVAR") else mknot(t.a[0]))
                return c1, sym("MIVAR")
            raise Undecided("alternative member values")
        if t.op == "loop":
            mu, body = t.a[0], t.a[1]
            if mu.op == "mu":
                c, v = self.member(mu.a[2])
                if v is sym("IVAR"):
                    for s in self.stores(body, mu):
                        self.rejects.append((s, mu, t))
                    return c, sym("MIVAR")
        if t.op == "store":
            c, v = self.member(t.a[0])
            if v is sym("IVAR") or v is sym("MIVAR"):
                self.rejects.append((t, None, t))
                return c, sym("MIVAR")
        if t.op == "bin":
            return self.expr(t, None)
        if is_call(t, "numpy.maximum", "numpy.minimum", "numpy.sqrt", "numpy.square", "numpy.log", "numpy.exp", "numpy.clip", "numpy.fmax", "numpy.fmin") and cargs(t):
            a = cargs(t)
            for x, o in ((a[0], a[1:]), (a[-1], a[:-1])):
                if all(is_const(y) and type(y.a[0]) in (int, float) for y in o):
                    if fname(t.a[0]) in ("numpy.maximum", "numpy.fmax") and o and o[0].a[0] <= 0:
                        c, v = self.member(x)
                        if v in (sym("IVAR"), sym("MIVAR")):
                            return c, v
                        break
                    self.member(x)
                    raise Stop2("the members enter through %s, not with their own values" % show(t.a[0])[:40])
        raise Undecided("array over the members: " + show(t)[:80])

    def stores(self, body, mu):
        out, st, seen = [], [body], set()
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            x = strip_alloc(x)
            if x.op == "ite":
                st += [x.a[1], x.a[2]]
            elif x.op == "store":
                out.append(x)
                st.append(x.a[0])
        return out

    def expr(self, t, i, own=None):
        """elementwise arithmetic of member arrays"""
        t = strip_alloc(t)
        if own is not None:
            try:
                return own, self.val(t)
            except Undecided:
                pass
        if t.op == "bin":
            cs, vs = [], []
            for x in t.a[1:]:
                c, v = self.expr(x, i, own)
                if c is not None:
                    cs.append(c)
                vs.append(v)
            if any(c is not cs[0] for c in cs[1:]):
                raise Stop2("members of different groups are combined: %s" % show(t)[:60])
            return (cs[0] if cs else None), mk("bin", t.a[0], *vs)
        if t.op == "const":
            return None, t
        if i is not None and t.op == "sub" and t.a[1] is i:
            return self.member(t.a[0])
        if i is None:
            return self.member(t)
        raise Undecided("member expression " + show(t)[:80])

    def total(self, t):
        """sum over the members: (condition, value)"""
        t = strip_alloc(t)
        if is_call(t, "numpy.mean", "numpy.average") and is_const(ckw(t, "axis", 1) or NONE, 0) and ckw(t, "weights") is None:
            c, v = self.member(cargs(t)[0])
            return c, mk("bin", "*", v, sym("1/N"))
        if t.op == "bin" and t.a[0] == "*" and any(is_call(strip_alloc(x), "numpy.mean", "numpy.average") for x in t.a[1:]) and any(
                is_call(strip_alloc(x), "numpy.sum", "numpy.count_nonzero") and cargs(strip_alloc(x)) and strip_alloc(cargs(strip_alloc(x))[0]).op == "cmp" for x in t.a[1:]):
            raise Stop2("the mean over all members is multiplied by the number of some")
        if is_call(t, "numpy.median", "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "numpy.prod"):
            raise Stop2("uses %s over the members" % fname(t.a[0]))
        if is_call(t, "numpy.sum") or t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "sum":
            a = cargs(t) if is_call(t, "numpy.sum") else [t.a[0].a[0]] + cargs(t)
            ax = ckw(t, "axis", 1)
            if ax is None or not is_const(ax):
                if ax is None and strip_all(t).id in self.pysums:
                    return self.member(a[0])
                if ax is None:
                    raise Stop2("the sum runs over pixels as well")
                raise Undecided("axis of the sum")
            x = strip_alloc(a[0])
            if not is_const(ax, 0):
                raise Stop2("the sum runs over axis %s" % show(ax))
            return self.member(x)
        if is_call(t, "builtins.sum") and cargs(t):
            x = strip_alloc(cargs(t)[0])
            if x.op == "comp":
                return self.member(x)
            return self.member(x)
        if t.op == "loop" and t.a[0].op == "mu" and strip(t.a[0].a[1].a[0]) is self.spectra:
            mu = t.a[0]
            if not (is_const(strip_alloc(mu.a[2]), 0, 0.0) or is_call(strip_alloc(mu.a[2]), "numpy.zeros", "numpy.zeros_like") or mu.a[2] is NONE):
                raise Undecided("start of the sum")
            cond, add = TRUE, None
            for cs, v in ites(t.a[1]):
                v = strip_alloc(v)
                if v is mu:
                    continue
                if v.op == "bin" and v.a[0] == "+" and any(y is mu for y in v.a[1:]):
                    rest = [y for y in v.a[1:] if y is not mu]
                    cond, add = [c for c in cs], mk("bin", "+", *rest) if len(rest) > 1 else rest[0]
            if add is None:
                raise Undecided("running sum")
            cond = [c for c in cond if not contains(c, lambda y: y.op == "mu")]
            return mkand(*cond), self.val(add)
        raise Undecided("sum over the members: " + show(t)[:80])


def zero_test(t, w):
    """t says that w is zero"""
    t, w = strip_alloc(t), strip_alloc(w)
    if t.op == "cmp" and t.a[0] in ("==", "<="):
        a, b = strip_alloc(t.a[1]), strip_alloc(t.a[2])
        if a is w and is_const(b, 0, 0.0) or t.a[0] == "==" and b is w and is_const(a, 0, 0.0):
            return True
    return None


class Stop2(Exception):
    pass


def build(ctx):
    C = Coadd(ctx)
    return C


def weight(ctx, C):
    W = strip_all(C.b["ivar"])
    n = 0
    while W.op == "store" and n < 4:
        n += 1
        v = strip_alloc(W.a[2])
        if not is_const(v) or isinstance(v.a[0], str):
            if zero_test(W.a[1], W.a[0]) and not (v.op == "sub" and strip_alloc(v.a[0]) is strip_alloc(W.a[0])):
                raise Stop2("pixels without any weight get the weight %s" % show(v)[:60])
            break
        # only pixels whose weight is zero anyway may be set, to zero
        if v.a[0] == 0 and zero_test(W.a[1], W.a[0]) is None:
            break
        ctx.ob("weight/masked", v.a[0] == 0, C.new, "pixels with %s get weight %s" % (show(W.a[1])[-60:], show(v)))
        W = strip_all(W.a[0])
    c, v = C.total(W)
    return W, c, v


def r_weight(ctx):
    C = build(ctx)
    try:
        W, c, v = weight(ctx, C)
    except Stop2 as s:
        ctx.ob("weight", False, C.new, str(s))
        return
    ctx.ob("weight/sum", v in (sym("IVAR"), sym("MIVAR")), C.new, "the weight is the sum of %s" % show(v)[:60])


def quot(t):
    """(numerator, denominator) of a term"""
    t = strip_alloc(t)
    if t.op == "bin" and t.a[0] == "/":
        return t.a[1], t.a[2]
    if is_call(t, "numpy.divide") and len(cargs(t)) >= 2:
        return cargs(t)[0], cargs(t)[1]
    if t.op == "bin" and t.a[0] == "*":
        ds = [x for x in t.a[1:] if strip_alloc(x).op == "bin" and strip_alloc(x).a[0] == "/"]
        if len(ds) == 1 and is_const(strip_alloc(ds[0]).a[1], 1, 1.0):
            n = [x for x in t.a[1:] if x is not ds[0]]
            return (mk("bin", "*", *n) if len(n) > 1 else n[0]), strip_alloc(ds[0]).a[2]
    return None


def when(t, W, zero):
    """resolve tests of the weight against zero"""
    def bit(b):
        return mk("bit", 1 if b else 0)

    def isbit(x):
        return x.op == "bit"

    def f(x):
        if x.op == "cmp" and len(x.a) == 3:
            o, a, b = x.a
            if (a is W and is_const(b, 0, 0.0)) or (b is W and is_const(a, 0, 0.0)):
                left = a is W
                if o in ("==", "!="):
                    return bit(zero == (o == "=="))
                if o == "<":
                    return bit(not left and not zero)
                if o == "<=":
                    return bit(zero if left else True)
        if x.op == "not" and isbit(x.a[0]):
            return bit(not x.a[0].a[0])
        if x.op == "un" and isbit(x.a[-1]) and x.a[0] == "~":
            return bit(not x.a[-1].a[0])
        if x.op == "call" and (fname(x.a[0]) or "") in ("numpy.astype", "builtins.float", "builtins.int") and cargs(x) and isbit(cargs(x)[0]):
            return cargs(x)[0]
        if is_call(x, "numpy.logical_not", "numpy.invert") and isbit(cargs(x)[0]):
            return bit(not cargs(x)[0].a[0])
        if is_call(x, "numpy.where") and len(cargs(x)) == 3 and isbit(cargs(x)[0]):
            return cargs(x)[1] if cargs(x)[0].a[0] else cargs(x)[2]
        if x.op == "store" and isbit(x.a[1]):
            return x.a[2] if x.a[1].a[0] else x.a[0]
        if x.op == "sub" and isbit(x.a[1]):
            return x.a[0]
        if x.op == "ite" and isbit(x.a[0]):
            return x.a[1] if x.a[0].a[0] else x.a[2]
        return x
    r = rewrite(t, f)
    return rewrite(r, lambda y: const(y.a[0]) if y.op == "bit" else y)


def mean_of(ctx, C, t, what, tag, e, W, wc, wv, allow):
    """t is the weighted mean of the given member quantity"""
    x = strip_alloc(when(strip_all(t), W, False))
    q = quot(x)
    if q is None:
        try:
            C.total(x)
        except (Undecided, Stop2):
            raise Undecided("form of " + tag)
        ctx.ob(tag + "/normalised", False, e, "%s is a sum that is not divided by the weight" % tag)
        return
    num, den = q
    den = strip_alloc(den)
    okden = peq(den, W)
    if not okden:
        dv = None
        try:
            dc, dv = C.total(den)
        except (Undecided, Stop2) as why:
            if isinstance(why, Stop2):
                ctx.ob(tag + "/denominator", False, e, "%s is divided by something else than the weight: %s" % (tag, why))
                return
            # W plus something
            extra = [y for y in addends(den) if y is not W]
            if all(is_const(y) for y in extra) and len(extra) < len(addends(den)):
                ctx.ob(tag + "/denominator", all(y.a[0] == 0 for y in extra), e, "%s is divided by the weight plus %s" % (tag, " ".join(show(y) for y in extra)))
                return
            raise Undecided("denominator of %s: %s" % (tag, show(den)[:60]))
        if dv is not None:
            same = dv is wv or peq(dv, mk("bin", "*", wv, sym("1/N")))
            ctx.ob(tag + "/denominator", same and dc is wc, e, "%s is divided by the sum of %s, the weight is the sum of %s" % (tag, name(dv), name(wv)))
            if not same:
                return
            wv = dv
    nc, nv = C.total(num)
    ctx.ob(tag + "/group", nc is wc, e, "%s is summed over other spectra than the weight" % tag)
    want = mk("bin", "*", sym(what), wv)
    ok = peq(nv, want)
    ctx.ob(tag + "/numerator", ok, e, "%s is the sum of %s over the sum of %s" % (tag, name(nv), name(wv)))
    ctx.ob(tag + "/denominator", True, e, "")
    # zero weight
    z = strip_alloc(when(strip_all(t), W, True))
    q = quot(z)
    if q is not None:
        d = strip_alloc(rewrite(q[1], lambda y: const(0) if y is W else y))
        if is_const(d):
            ctx.ob(tag + "/masked", d.a[0] != 0, e, "%s divides by zero where every input is masked" % tag)
        elif d.op == "bin" and all(is_const(y) for y in d.a[1:]) and d.a[0] == "+":
            ctx.ob(tag + "/masked", sum(y.a[0] for y in d.a[1:]) != 0, e, "%s divides by zero where every input is masked" % tag)


def strip_all(t):
    return rewrite(t, lambda y: y.a[1] if y.op == "alloc" and len(y.a) == 2 else y)


def name(v):
    return show(v).replace("sym<'", "").replace("'>", "")[:80] if v.op != "sym" else v.a[0]


def guarded(f):
    def g(ctx):
        C = build(ctx)
        try:
            W, c, v = weight(ctx, C)
        except Stop2:
            raise Undecided("weight")
        try:
            f(ctx, C, W, c, v)
        except Stop2 as s:
            ctx.ob(f.__name__[2:], False, C.new, str(s))
    return g


@guarded
def r_flux(ctx, C, W, c, v):
    mean_of(ctx, C, C.b["flux"], "FLUX", "flux", C.new, W, c, v, None)


@guarded
def r_resolution(ctx, C, W, c, v):
    R = strip_alloc(C.b["R"])
    if not (R.op == "call" and (fname(R.a[0]) or "").endswith((".dia_matrix", ".dia_array"))):
        raise Undecided("resolution " + show(R)[:60])
    a = strip_alloc(cargs(R)[0])
    if a.op not in ("tuple", "list") or len(a.a) != 2:
        raise Undecided("resolution components")
    offs = a.a[1]
    for cs, x in ites(offs):
        for y in leafvals(x):
            if y is NONE or y.op in ("mu", "undef"):
                continue
            if y.op == "attr" and y.a[1] == "offsets":
                o = strip(y.a[0])
                ctx.ob("resolution/offsets", o.op == "attr" and o.a[1] == "R" and C.isspec(o.a[0]), C.new, "offsets come from " + show(y)[:60])
            elif C_is_data(C, y):
                ctx.ob("resolution/offsets", False, C.new, "the offsets are %s" % show(y)[:60])
    mean_of(ctx, C, a.a[0], "RDATA", "resolution", C.new, W, c, v, None)
    rc = C.b.get("Rcsr")
    if rc is not None:
        for cs, x in ites(rc):
            x = strip_alloc(x)
            if x is NONE:
                continue
            if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "tocsr":
                ctx.ob("resolution/csr", strip_alloc(x.a[0].a[0]) is R, C.new, "the CSR matrix is made from " + show(x.a[0].a[0])[:60])


def C_is_data(C, y):
    return y.op == "attr" and y.a[1] in ("data", "indices", "shape")


def r_group(ctx):
    """members share the wavelength grid and camera; every group is built once"""
    C = build(ctx)
    e = C.new
    if not e.loops:
        raise Undecided("no loop over groups")
    keys = e.loops[0].a[0]
    W, c, v = weight(ctx, C)
    # membership
    cs = list(c.a) if c.op == "and" else [c]
    eq = []
    for x in cs:
        if x.op == "cmp" and x.a[0] == "==":
            l, r = x.a[1], x.a[2]
            for m, o in ((l, r), (r, l)):
                if strip(m).op == "attr" and C.isspec(strip(m).a[0]) and not (strip(o).op == "attr" and C.isspec(strip(o).a[0])):
                    eq.append((strip(m).a[1], o, x))
    if not eq:
        if c is TRUE:
            ctx.ob("group/members", False, e, "spectra of every wavelength grid are combined")
            return
        parts, stack = set(), [c]
        while stack:
            y = stack.pop()
            if y.op in ("and", "or", "not"):
                stack += y.a
            else:
                parts.add(y)
        at = [x for x in parts if x.op == "cmp" and x.a[0] == "==" and any(strip(y).op == "attr" and strip(y).a[1] == "wavehash" and C.isspec(strip(y).a[0]) for y in x.a[1:])]
        oth = [x for x in parts if x.op == "cmp" and x not in at]
        if len(at) == 1 and oth and not b_implies(c, at[0]) and len(oth) + 1 == len(parts) and all(x.a[0] == "is" or x.a[0] in ("==", "!=") and all(is_call(strip(y), "builtins.len") for y in x.a[1:]) for x in oth):
            ctx.ob("group/members", False, e, "spectra of another wavelength grid are members if %s" % show(oth[0])[:60])
            return
        raise Undecided("membership condition " + show(c)[:80])
    attr, other, x = eq[0]
    ctx.ob("group/members", attr == "wavehash" or len(eq) > 1 and {a for a, o, y in eq} >= {"wavehash"}, e, "members are chosen by %s" % attr)
    rest = [y for y in cs if y is not x]
    if rest:
        raise Undecided("further membership condition " + show(rest[0])[:60])
    # keys cover every wavehash once
    src = strip(keys)
    if src.op == "comp":
        it = src.a[3]
        el = strip(src.a[1])
        cond = src.a[2]
        if el.op == "attr" and el.a[1] == attr:
            k2 = covers_elem(el.a[0], C.spectra)
            if k2 is not None:
                ctx.ob("group/all", k2 == "all", e, "groups are formed from %s only" % show(it.a[0])[:60])
            if cond is TRUE and src.a[0] == "list":
                ctx.ob("group/once", False, e, "the same group is built once per spectrum")
            elif cond is not TRUE:
                bad = [y for y in (cond.a if cond.op == "and" else [cond]) if not (y.op == "not" and y.a[0].op == "cmp" and y.a[0].a[0] == "in" and strip(y.a[0].a[1]) is el)]
                for y in bad:
                    if y.op == "not" and y.a[0].op == "cmp" and y.a[0].a[0] == "in" and strip(y.a[0].a[1]).op == "attr" and C.isspec(strip(y.a[0].a[1]).a[0]) and strip(y.a[0].a[1]).a[1] != attr:
                        ctx.ob("group/all", False, e, "groups are named by %s but looked up by %s: the same group is built again, or left out" % (attr, strip(y.a[0].a[1]).a[1]))
                        return
                if bad:
                    raise Undecided("selection of groups: " + show(bad[0])[:60])
                ctx.ob("group/once", True, e, "")
    else:
        uniq = src
        for _ in range(3):
            if is_call(uniq, "builtins.list", "builtins.sorted", "builtins.set", "numpy.unique", "builtins.tuple") and cargs(uniq):
                uniq = strip(cargs(uniq)[0])
        if uniq.op == "comp" and strip(uniq.a[1]).op == "attr" and strip(uniq.a[1]).a[1] == attr:
            k2 = covers_elem(strip(uniq.a[1]).a[0], C.spectra)
            if k2:
                ctx.ob("group/all", k2 == "all" and uniq.a[2] is TRUE, e, "groups are formed from part of the spectra")
    leftover(ctx, C, c)
    # grid and camera of the coadd are those of a member
    for nme, at in (("wave", "wave"), ("band", "band")):
        w = C.b.get(nme)
        if w is None or w is NONE:
            if nme == "band":
                ctx.ob("group/band", False, e, "the coadd has no camera")
            continue
        for r in leafvals(w):
            if r is NONE or r.op in ("mu", "undef"):
                continue
            if r.op == "attr" and C.isspec(r.a[0]):
                ctx.ob("group/" + nme, r.a[1] == at, e, "the %s of the coadd is %s" % (nme, show(r)[:60]))
            elif r.op == "attr" and strip(r.a[0]).op == "sub" and strip(strip(r.a[0]).a[0]) is C.spectra and is_const(strip(r.a[0]).a[1]):
                ctx.ob("group/" + nme, False, e, "the %s of the coadd is %s, of whatever group that spectrum is" % (nme, show(r)[:60]))
            elif nme == "band" and r is strip(other):
                raise Undecided("camera of the coadd")
            elif is_const(r):
                ctx.ob("group/" + nme, False, e, "the %s of the coadd is %s" % (nme, show(r)))
            else:
                raise Undecided("%s of the coadd: %s" % (nme, show(r)[:60]))


def leftover(ctx, C, c):
    """nothing is taken from the variable of a finished loop over all the spectra: that is the last spectrum, of whatever group"""
    if c is TRUE:
        return
    f = ctx.prog.funcs[CO].node
    par = {}
    for n in ast.walk(f):
        for m in ast.iter_child_nodes(n):
            par[m] = n
    binds = {}
    for n in ast.walk(f):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            binds.setdefault(n.id, []).append(n)
    for n in ast.walk(f):
        if not (isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and isinstance(n.ctx, ast.Load) and len(binds.get(n.value.id, ())) >= 1):
            continue
        up, x = [], n
        while x in par:
            x = par[x]
            up.append(x)
        fs = [par[b] for b in binds[n.value.id]]
        if any(y in up for y in fs) or any(isinstance(y, ast.comprehension) and par[y] in up for y in fs):
            continue
        last = [y for y in fs if isinstance(y, ast.For) and y.lineno < n.lineno]
        if last and all(isinstance(y, (ast.For, ast.comprehension)) for y in fs):
            y = max(last, key=lambda z: z.lineno)
            it = y.iter
            if isinstance(it, ast.Attribute) and it.attr == "spectra" and isinstance(it.value, ast.Name) and it.value.id == "self" and any(l in up for l in [par[y]] if isinstance(l, ast.For)):
                ctx.ob("group/member", False, C.new, "%s is read after the loop over all spectra: it is that of the last spectrum, of whatever group" % ast.unparse(n))


def leafvals(t):
    out = set()
    st = [t]
    seen = set()
    while st:
        x = strip(st.pop())
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "ite":
            st += [x.a[1], x.a[2]]
        elif x.op == "loop":
            st += [x.a[0], x.a[1]]
        elif x.op == "mu":
            st.append(x.a[2])
        else:
            out.add(x)
    return out


def r_hash(ctx):
    """the group key of a spectrum identifies its wavelength grid"""
    q = SP + ".__init__"
    I = ctx.interp(q)
    wave, band = mk("param", q, "wave"), mk("param", q, "band")
    n = 0
    for e in effs(I, "setattr"):
        if e.attr != "wavehash":
            continue
        for cs, v in ites(e.value):
            v = strip_alloc(v)
            if v is band:
                ctx.ob("hash/band", True, e)
                n += 1
                continue
            if not is_call(v, "builtins.hash"):
                raise Undecided("group key " + show(v)[:60])
            k = strip_alloc(cargs(v)[0])
            parts = list(k.a) if k.op in ("tuple", "list") else [k]
            n += 1
            uses = [strip_alloc(p) for p in parts if contains(p, lambda x: x is wave)]
            if not uses:
                ctx.ob("hash/grid", False, e, "the group key does not depend on the wavelengths")
                continue
            ends = set()
            whole = False
            for p in uses:
                if p.op == "sub" and strip(p.a[0]) is wave and is_const(p.a[1]) and isinstance(p.a[1].a[0], int):
                    ends.add("first" if p.a[1].a[0] >= 0 else "last")
                elif is_call(p, "len") or p.op == "attr" and p.a[1] in ("size", "shape"):
                    ends.add("length")
                elif is_call(p, "min", "numpy.min", "numpy.amin"):
                    ends.add("first")
                elif is_call(p, "max", "numpy.max", "numpy.amax"):
                    ends.add("last")
                else:
                    whole = True
            if whole:
                ctx.ob("hash/grid", True, e)
                continue
            miss = [x for x in ("first", "last", "length") if x not in ends]
            ctx.ob("hash/grid", not miss, e, "the group key does not contain the %s of the wavelengths: different grids are coadded" % " and ".join({"first": "first value", "last": "last value", "length": "number"}[x] for x in miss))
    if not n:
        raise Undecided("no group key")


def r_store(ctx):
    """every coadd is kept, and the list replaces the spectra"""
    C = build(ctx)
    sets = [e for e in effs(C.I, "setattr") if e.attr == "spectra" and e.base is C.me]
    if not sets:
        ctx.ob("store/replace", False, C.new, "the coadds are not stored")
        return
    for e in sets:
        v = strip_alloc(e.value)
        if v.op == "comp" and v.a[0] == "list":
            el = strip_alloc(v.a[1])
            ctx.ob("store/coadd", el is strip_alloc(C.new.result), e, "the stored list holds " + show(el)[:60])
            if v.a[2] is not TRUE:
                raise Undecided("only some coadds are stored")
            ctx.ob("store/all", strip(v.a[3].a[0]) is strip(C.new.loops[0].a[0]), e, "the list is not built over all groups")
        else:
            raise Undecided("stored spectra " + show(v)[:60])


def r_inputs(ctx):
    """the input spectra are not written to"""
    C = build(ctx)
    n = 0
    for e in C.I.effects:
        if e.kind == "setattr" and C.isspec(e.base):
            ctx.ob("inputs", False, e, "an input spectrum gets a new %s" % e.attr)
        if e.kind in ("setitem", "aug"):
            if e.kind == "aug" and not (strip_alloc(e.base).op in ("attr",) or isarr(C, e.base)):
                continue
            for r in alias(C, e.base):
                n += 1
                if r is not None:
                    ctx.ob("inputs", False, e, "%s of an input spectrum is modified in place" % r)
                else:
                    ctx.ob("inputs", True, e, "")
    if not n:
        ctx.ob("inputs", True, C.new, "")


def isarr(C, t):
    return any(x for x in alias(C, t) if x)


def alias(C, t):
    """names of input arrays that t may share memory with"""
    out = set()
    for r in roots(t):
        y = strip_alloc(r)
        d = 0
        while d < 10:
            d += 1
            if y.op == "sub":
                if y.a[1].op in ("slice", "tuple", "idx", "const", "sub", "param", "mu") or True:
                    z = strip_alloc(y.a[0])
                    # an element of a list of references
                    lst = [x for x in roots(z)]
                    w = [strip_alloc(x) for x in lst]
                    hit = [x for x in w if x.op == "comp" and x.a[0] == "list"]
                    if hit:
                        y = strip_alloc(hit[0].a[1])
                        continue
                    if C.isspec(y):
                        break
                    y = w[0] if len(w) == 1 else z
                    continue
            if is_call(y, "numpy.asarray", "numpy.ravel", "numpy.reshape", "numpy.atleast_1d", "numpy.asanyarray") and cargs(y):
                z = strip_alloc(cargs(y)[0])
                if z.op in ("comp", "list"):
                    break
                y = z
                continue
            break
        if y.op == "attr" and (C.isspec(y.a[0]) or strip(y.a[0]).op == "attr" and C.isspec(strip(y.a[0]).a[0])):
            out.add(show(y).replace("self.spectra[#self.spectra].", ""))
        else:
            out.add(None)
    return out


def condition(g, n, nsig):
    """truth of a condition for n exposures and a threshold, None when it depends on something else"""
    if g.op == "not":
        v = condition(g.a[0], n, nsig)
        return None if v is None else not v
    if g.op in ("and", "or"):
        vs = [condition(x, n, nsig) for x in g.a]
        if (g.op == "or") in vs:
            return g.op == "or"
        return None if None in vs else g.op == "and"
    if is_const(g):
        return bool(g.a[0])

    def num(x):
        x = strip_alloc(x)
        if is_const(x) and type(x.a[0]) in (int, float):
            return x.a[0]
        if is_call(x, "builtins.len") or x.op == "sub" and is_const(x.a[1], 0) and x.a[0].op == "attr" and x.a[0].a[1] == "shape":
            return n
        if x.op == "param" and x.a[1] == "cosmics_nsig":
            return nsig
        return None
    if g.op == "cmp":
        a, b = num(g.a[1]), num(g.a[2])
        if a is not None and b is not None and g.a[0] in ("<", "<=", "==", "!="):
            return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[g.a[0]]
    return None


def enough(ctx, C):
    """two exposures scatter: the rejection does not wait for more, whatever the threshold"""
    for g in C.when:
        for n in (2, 3, 4, 10):
            for k in (0.5, 4.0, 100.0):
                if condition(g, n, k) is False:
                    ctx.ob("reject/when", False, C.new, "nothing is rejected among %d exposures with a threshold of %s: %s" % (n, k, show(g)[-80:]))
                    return
        if condition(g, 2, 4.0) is not None:
            ctx.ob("reject/when", True, C.new)


@guarded
def r_reject(ctx, C, W, c, v):
    """cosmic rejection zeroes the weight of single exposures"""
    if not C.rejects:
        if v is sym("IVAR"):
            ctx.ob("reject/used", False, C.new, "the weight does not use the rejected pixels")
        return
    enough(ctx, C)
    seen = set()
    for s, mu, whole in C.rejects:
        if s.id in seen:
            continue
        seen.add(s.id)
        e = C.new
        for x in C.I.effects:
            if x.kind == "setitem" and (x.value is s.a[2] or strip_alloc(x.value) is strip_alloc(s.a[2])) and x.key is s.a[1]:
                e = x
        # ivar[i][j] = 0 appears as store(base, i, store(sub(base, i), j, 0))
        base, key, value = s.a
        value = strip_alloc(value)
        if value.op == "store":
            row, col, value = key, value.a[1], strip_alloc(value.a[2])
        elif key.op == "tuple" and len(key.a) == 2:
            row, col = key.a
        else:
            if value.op == "const":
                ctx.ob("reject/single", False, e, "the whole of %s is rejected" % show(key)[:60])
                continue
            raise Undecided("rejected element " + show(key)[:60])
        if not is_const(value):
            raise Undecided("rejected value")
        ctx.ob("reject/zero", value.a[0] == 0, e, "rejected pixels get weight %s" % show(value))
        if row.op == "slice" or is_const(row):
            ctx.ob("reject/single", False, e, "the rejected exposure is %s" % show(row)[:40])
            continue
        rowmap(ctx, C, row, c, e)
        col = onepixel(col)
        if col.op == "slice":
            if any(contains(x, lambda y: y.op == "idx") for x in col.a):
                raise Undecided("rejected pixels " + show(col)[:60])
            ctx.ob("reject/pixel", False, e, "all pixels of the exposure are rejected")


def onepixel(col):
    """j of a slice j:j+1"""
    if col.op == "slice" and col.a[2] in (NONE, const(1)) and col.a[0] is not NONE and col.a[1] is not NONE and peq(mk("bin", "+", col.a[0], const(1)), col.a[1]):
        return col.a[0]
    return col


def counts_itself(seq):
    """a list that gets its own length with every new element"""
    if seq.op != "loop" or seq.a[0].op != "mu":
        return False
    mu = seq.a[0]
    vs = [strip_alloc(v) for cs, v in ites(seq.a[1])]
    vs = [v for v in vs if v is not mu]
    return bool(vs) and all(v.op == "app" and strip_alloc(v.a[0]) is strip_alloc(mu) and is_call(strip(v.a[1]), "builtins.len") and strip_alloc(cargs(strip(v.a[1]))[0]) is strip_alloc(mu) for v in vs)


def rowmap(ctx, C, row, c, e):
    """row is the position of an exposure in the member list"""
    row = strip(row)
    if row.op == "sub":
        seq = strip_alloc(row.a[0])
        i = strip(row.a[1])
        if seq.op == "comp" and seq.a[0] == "list":
            val = strip(seq.a[1])
            # position of the member in a list that grows with every member
            if val.op == "bin" and val.a[0] == "-" and is_const(val.a[2], 1) or val.op == "bin" and val.a[0] == "+" and any(is_const(x, -1) for x in val.a[1:]):
                ln = [x for x in subterms(val) if is_call(x, "builtins.len")]
                if not ln:
                    raise Undecided("position " + show(val)[:60])
                good = cargs(ln[0])[0].op == "app"
                ctx.ob("reject/position", good, e, "positions are taken before the member is added")
            elif is_call(val, "builtins.len"):
                grown = strip(cargs(val)[0]).op == "app"
                ctx.ob("reject/position", not grown, e, "positions are one too large")
            else:
                raise Undecided("position " + show(val)[:60])
            cc = C.which(seq)
            if cc is None:
                raise Undecided("map of exposures")
        elif counts_itself(seq):
            cc = None               # 0, 1, 2, ...: no map at all
        else:
            raise Undecided("map of exposures")
    else:
        i, cc = row, None
    # where the index comes from
    arrs = set()
    for x in subterms(i):
        if x.op == "comp" and x.a[0] == "list" and C.sublist(x) is None and not (strip(x.a[1]).op == "attr" and strip(x.a[1]).a[1] in ("wavehash", "band")):
            w = C.which(x)
            if w is not None:
                arrs.add(w)
    if not arrs:
        raise Undecided("exposure index " + show(i)[:60])
    want = cc if cc is not None else c
    for a in arrs:
        ctx.ob("reject/exposure", a is want, e, "the exposure index counts the spectra with %s, it is used as an index of those with %s" % (show(a)[-90:], show(want)[-60:]))


# ---- the statistic that finds cosmic rays

def fieldof(C):
    def field(t):
        t = strip_alloc(t)
        if t.op == "attr" and t.a[1] in ("flux", "ivar", "wave"):
            if C.isspec(t.a[0]):
                return {"flux": "F", "ivar": "V", "wave": "X"}[t.a[1]]
        if t.op in ("ite", "mu", "loop"):
            ls = leaves_of(t)
            if ls and all(x.op == "attr" and x.a[1] == "wave" for x in ls):
                return "X"
        return None
    return field


def leaves_of(t, d=0, seen=None):
    """values a conditional or loop-carried value may have (None is the initial value)"""
    seen = set() if seen is None else seen
    t = strip_alloc(t)
    if t.id in seen or d > 20:
        return []
    seen.add(t.id)
    if t.op == "ite":
        return leaves_of(t.a[1], d + 1, seen) + leaves_of(t.a[2], d + 1, seen)
    if t.op == "loop":
        return leaves_of(t.a[1], d + 1, seen) + leaves_of(t.a[0], d + 1, seen)
    if t.op == "mu":
        return leaves_of(t.a[2], d + 1, seen)
    return [] if t is NONE else [t]


def want_pixel(kind, bad, o=0):
    def good(f, k):
        return S("interp(X@%d@%d; X[good], %s[good])" % (k, k, f)) if bad[k] else S("%s@%d" % (f, k))
    if kind == "G":
        return mk("bin", "-", good("F", o), good("F", o - 1))
    v = [mk("bin", "/", const(1), good("V", k)) for k in (o, o - 1)]
    return mk("bin", "+", *v)


class Stat(object):
    def __init__(self, ctx, C):
        self.ctx, self.C, self.field = ctx, C, fieldof(C)
        self.memo, self.lists = {}, []

    def classify(self, t, e):
        """member array -> polynomial atom"""
        if t.id in self.memo:
            return self.memo[t.id]
        elt = t.a[1]
        mixed = self.mixture(elt)
        if mixed:
            self.ctx.ob("statistic/interpolated", False, e, "masked pixels of the %s are interpolated from the %s" % mixed)
            raise Bad()
        vals = cases(self.field, elt)
        r = None
        G, V = S("G"), S("V")
        for name_, kind, tr in (("G", "G", lambda x: x), ("V", "V", lambda x: x), ("W", "V", lambda x: mk("bin", "/", const(1), x))):
            if all(peq(v, tr(want_pixel(kind, bad))) for bad, v in vals):
                r = {"G": G, "V": V, "W": mk("bin", "/", const(1), V)}[name_]
                self.ctx.ob("statistic/" + ("gradient" if name_ == "G" else "variance"), True, e)
        if r is G:
            f = cases(self.field, elt, True)
            self.ctx.ob("statistic/first-pixel", all(peq(v, const(0)) for _, v in f), e,
                        "the first pixel has no neighbour before it, its difference must be 0, is %s" % show(f[0][1])[:60])
        if r is None:
            syms = {x.a[0][:1] if not x.a[0].startswith("interp") else x.a[0][-len("V[good])")] for _, v in vals for x in subterms(v) if x.op == "sym"}
            if "F" in syms:
                kind = "G"
            elif "V" in syms:
                kind = "V"
            else:
                raise Undecided("compared value " + show(elt)[:80])
            odd = [(b, v) for b, v in vals if not peq(v, want_pixel(kind, b))]
            self.ctx.ob("statistic/" + ("gradient" if kind == "G" else "variance"), False, e, "the compared %s is not that of neighbouring pixels interpolated over masked ones: %s where the pixel is %s and the one before %s, expected %s" % (
                "flux difference" if kind == "G" else "variance", ptext(odd[0][1]), "masked" if odd[0][0][0] else "unmasked", "masked" if odd[0][0][-1] else "unmasked", ptext(want_pixel(kind, odd[0][0]))))
            raise Bad()
        self.memo[t.id] = r
        self.lists.append(t)
        return r

    def mixture(self, t):
        """values of one array interpolated into another"""
        names = {"F": "flux", "V": "inverse variance"}

        def base(x, d=0):
            x = strip_alloc(x)
            while d < 8 and (x.op in ("store", "sub") or is_call(x, "numpy.copy", "numpy.array", "numpy.asarray") and cargs(x)):
                x = strip_alloc(x.a[0] if x.op in ("store", "sub") else cargs(x)[0])
                d += 1
            return self.field(x)
        for x in subterms(t):
            if x.op == "store":
                v = strip_alloc(x.a[2])
                if is_call(v, "numpy.interp") and len(cargs(v)) >= 3:
                    a, b = base(x.a[0]), base(cargs(v)[2])
                    if a in names and b in names and a != b:
                        return names[a], names[b]
        return None

    def memb(self, t):
        t = strip_alloc(t)
        while is_call(t, *ARR) and cargs(t):
            t = strip_alloc(cargs(t)[0])
        if t.op == "comp" and t.a[0] == "list" and self.C.which(t) is not None:
            return t
        return None

    def val(self, t, e, col):
        """polynomial over the symbols G, V (one exposure), sums over the exposures and N"""
        t = strip_alloc(t)
        m = self.memb(t)
        if m is not None:
            return poly(self.classify(m, e))
        if t.op == "const":
            return poly(t)
        if t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "**"):
            xs = [self.val(x, e, col) for x in t.a[1:]]
            r = xs[0]
            for x in xs[1:]:
                if t.a[0] == "+":
                    r = padd(r, x)
                elif t.a[0] == "-":
                    r = padd(r, pscale(x, -1))
                elif t.a[0] == "*":
                    r = pmul(r, x)
                elif t.a[0] == "/":
                    r = pmul(r, pow_(x, -1)) if pconst(x) is None else pscale(r, 1 / pconst(x))
                else:
                    n = pconst(x)
                    if n is None:
                        raise Undecided("power " + show(t)[:60])
                    r = pow_(r, int(n) if n.denominator == 1 else n)
            return r
        if t.op == "un" and t.a[0] == "-":
            return pscale(self.val(t.a[1], e, col), -1)
        if is_call(t, "numpy.square") and len(cargs(t)) == 1:
            return pow_(self.val(cargs(t)[0], e, col), 2)
        if is_call(t, "numpy.sqrt") and len(cargs(t)) == 1:
            return pow_(self.val(cargs(t)[0], e, col), Fr(1, 2))
        if is_call(t, "numpy.sum", "numpy.average", "numpy.mean") or t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("sum", "mean"):
            meth = t.a[0].op == "attr" and not fname(t.a[0])
            a = [t.a[0].a[0]] + cargs(t) if meth else cargs(t)
            ax = ckw(t, "axis", 0 if meth else 1)
            if ax is None or not is_const(ax, 0):
                raise Undecided("sum over " + (show(ax) if ax is not None else "everything"))
            x = self.val(a[0], e, col)
            n = t.a[0].a[1] if meth else fname(t.a[0])
            if n.endswith("average") and ckw(t, "weights") is not None:
                w = self.val(ckw(t, "weights"), e, col)
                return pmul(self.total(pmul(x, w)), pow_(self.total(w), -1))
            if n.endswith(("mean", "average")):
                return pmul(self.total(x), pow_(poly(S("N")), -1))
            return self.total(x)
        if t.op == "sub":
            k = t.a[1]
            if k.op == "tuple" and len(k.a) == 2 and k.a[0].op == "slice" and all(x is NONE for x in k.a[0].a) and k.a[1] is col:
                return self.val(t.a[0], e, col)
            if is_const(k, 0):
                s = strip_alloc(t.a[0])
                if s.op == "attr" and s.a[1] == "shape" and self.mentions(self.val(s.a[0], e, col)):
                    return poly(S("N"))
            if k is col:
                v = self.val(t.a[0], e, col)
                if not self.mentions(v):
                    return v
        if is_call(t, "builtins.len") and len(cargs(t)) == 1 and self.mentions(self.val(cargs(t)[0], e, col)):
            return poly(S("N"))
        raise Undecided("statistic " + show(t)[:80])

    def mentions(self, p):
        return any(self.depends(a) for m in p for a, n in m)

    def total(self, p):
        """sum over exposures, linear in what does not depend on the exposure"""
        out = {}
        for m, c in p.items():
            inner = [(a, n) for a, n in m if self.depends(a)]
            outer = tuple((a, n) for a, n in m if not self.depends(a))
            s = atom(("total",) + tuple(sorted(inner, key=repr))) if inner else poly(S("N"))
            out = padd(out, pmul(s, {outer: c}))
        return out

    def depends(self, k, d=0):
        """does an atom depend on the exposure?"""
        if k in self.ks:
            return True
        if isinstance(k, K) and isinstance(k.v, tuple) and k.v and k.v[0] == "total" or d > 12 or not isinstance(k, K):
            return False
        st = [k.v]
        while st:
            v = st.pop()
            if isinstance(v, K):
                if self.depends(v, d + 1):
                    return True
            elif isinstance(v, tuple):
                st.extend(v)
        return False


def ptext(t):
    if t.op == "sym":
        n = t.a[0].split("@")
        return {"F": "flux", "V": "ivar", "X": "wave"}.get(n[0], n[0]) + ({"0": "[j]", "-1": "[j-1]", "1": "[j+1]"}.get(n[1], "") if len(n) == 2 else "")
    if t.op == "const":
        return str(t.a[0])
    if t.op == "bin":
        return "(" + (" %s " % t.a[0]).join(ptext(x) for x in t.a[1:]) + ")"
    if t.op == "un":
        return "-" + ptext(t.a[1])
    return show(t)[:40]


class Bad(Exception):
    pass


def r_statistic(ctx, C, W, c, v):
    """which exposure of which pixel is an outlier"""
    if not C.rejects:
        if v is sym("IVAR"):
            return
        raise Undecided("no rejection")
    G, V, N = (poly(S(x)) for x in "GVN")
    w = pow_(V, -1)
    for s, mu, whole in C.rejects[:1]:
        key, value = s.a[1], strip_alloc(s.a[2])
        if value.op == "store":
            row, col = key, value.a[1]
        elif key.op == "tuple" and len(key.a) == 2:
            row, col = key.a
        else:
            raise Undecided("rejected element " + show(key)[:60])
        e = C.new
        for x in C.I.effects:
            if x.kind == "setitem" and (x.value is s.a[2] or strip_alloc(x.value) is strip_alloc(s.a[2])) and x.key is s.a[1]:
                e = x
        st = Stat(ctx, C)
        st.ks = {canon(S("G")), canon(S("V"))}
        m = pmul(st.total(pmul(w, G)), pow_(st.total(w), -1))
        dev = pmul(w, pow_(padd(G, pscale(m, -1)), 2))
        chi2 = pmul(st.total(dev), pow_(padd(N, {(): -1}), -1))
        try:
            # the pixels
            col = strip(onepixel(col))
            if col.op != "sub" or col.a[1].op != "idx":
                js = {x for x in subterms(col) if x.op == "sub" and x.a[1].op == "idx" and contains(x.a[0], lambda y: is_call(y, "numpy.where", "numpy.nonzero", "numpy.flatnonzero"))}
                js = {x for x in js if not any(y is not x and contains(y, lambda z: z is x) for y in js)}
                if len(js) == 1:
                    j = poly(next(iter(js)))
                    alt = [x for x in cargs(col)] if is_call(col, "builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum") else [col]
                    off = [pconst(padd(poly(x), pscale(j, -1))) for x in alt]
                    if any(d not in (None, 0) for d in off):
                        ctx.ob("statistic/pixels", False, e, "the rejected pixel is not the one that scatters but %+d from it" % next(d for d in off if d))
                        return
                raise Undecided("rejected pixel " + show(col)[:60])
            seq = strip_alloc(col.a[0])
            if seq.op == "sub" and is_const(seq.a[1], 0):
                seq = strip_alloc(seq.a[0])
            if not is_call(seq, "numpy.where", "numpy.nonzero", "numpy.flatnonzero") or len(cargs(seq)) != 1:
                raise Undecided("rejected pixels " + show(seq)[:60])
            cond = strip(cargs(seq)[0])
            neg = False
            while cond.op == "not" or cond.op == "un" and cond.a[0] == "~":
                cond, neg = strip(cond.a[-1]), not neg
            if cond.op != "cmp" or cond.a[0] not in ("<", "<=", ">", ">="):
                raise Undecided("outlier test " + show(cond)[:60])
            a, b = cond.a[1:]
            if (cond.a[0] in (">", ">=")) != neg:
                a, b = b, a
            # a < b: the statistic b exceeds the threshold a
            thr = mk("param", CO, "cosmics_nsig")

            def side(x):
                """the threshold is one more symbol"""
                x = strip_alloc(x)
                if x is thr:
                    return poly(thr)
                if not contains(x, lambda y: y is thr):
                    return st.val(x, e, col)
                if x.op == "bin" and x.a[0] in ("+", "-", "*", "/", "**") and st.memb(x) is None:
                    ps = [side(y) for y in x.a[1:]]
                    r = ps[0]
                    for y in ps[1:]:
                        if x.a[0] == "**":
                            n = pconst(y)
                            if n is None:
                                raise Undecided("power")
                            r = pow_(r, int(n) if n.denominator == 1 else n)
                        else:
                            r = {"+": lambda: padd(r, y), "-": lambda: padd(r, pscale(y, -1)), "*": lambda: pmul(r, y),
                                 "/": lambda: pmul(r, pow_(y, -1)) if pconst(y) is None else pscale(r, 1 / pconst(y))}[x.a[0]]()
                    return r
                return st.val(x, e, col)
            d = padd(side(b), pscale(side(a), -1))
            T2 = pow_(poly(thr), 2)
            exp = padd(chi2, pscale(T2, -1))
            n1 = padd(N, {(): -1})
            ok = d == exp or d == pmul(exp, n1) or d == padd(st.total(dev), pscale(pmul(T2, n1), -1)) or d == padd(pow_(chi2, Fr(1, 2)), pscale(poly(thr), -1))
            ctx.ob("statistic/threshold", ok, e, "pixels are rejected where another quantity exceeds the threshold than the weighted variance of the differences over cosmics_nsig squared")
            # the exposure
            i = row
            r0 = strip(row)
            if r0.op == "sub":
                i = r0.a[1]
            i = strip(i)
            if not is_call(i, "numpy.argmax", "numpy.argmin") and not (i.op == "call" and i.a[0].op == "attr" and i.a[0].a[1] in ("argmax", "argmin")):
                raise Undecided("rejected exposure " + show(i)[:60])
            meth = i.a[0].op == "attr" and not fname(i.a[0])
            nm = i.a[0].a[1] if meth else fname(i.a[0])
            p = st.val(i.a[0].a[0] if meth else cargs(i)[0], e, col)
            if nm.endswith("argmin"):
                ctx.ob("statistic/largest", False, e, "the exposure with the smallest deviation is rejected")
                continue
            good = same_up_to(p, dev)
            if not good and any(isinstance(x, K) and isinstance(x.v, tuple) and x.v and x.v[0] in ("abs", "call") for mm in p for x, _ in mm):
                raise Undecided("rejected exposure " + show(i)[:60])
            ctx.ob("statistic/largest", good, e, "the rejected exposure is not the one with the largest weighted deviation")
        except Bad:
            return
        # who takes part
        for t in st.lists:
            cc = C.which(t)
            at = [x for x in subterms(cc) if x.op == "attr" and x.a[1] == "ivar"]
            tests = cc.a if cc.op == "and" else (cc,)
            ctx.ob("statistic/some-good-pixel", bool(at), e, "an exposure without any unmasked pixel takes part in the comparison: there is nothing to interpolate from")


def same_up_to(p, q):
    """p = c q with a positive number c"""
    if p == q:
        return True
    if not p or set(p) != set(q):
        return False
    k = next(iter(p))
    c = p[k] / q[k]
    return c > 0 and p == pscale(q, c)


def r_callers(ctx):
    """the rejection threshold given by the user reaches the coaddition"""
    for q in ("redrock.targets.Target.__init__", "redrock.external.desi.DistTargetsDESI.__init__"):
        I = ctx.interp(q, stop_extra=(CO,))
        for e in I.effects:
            if e.kind == "call" and (e.fn.op == "attr" and e.fn.a[1] == "compute_coadd" or (fname(e.fn) or "") == CO):
                v = (e.d.get("bound") or {}).get("cosmics_nsig")
                if v is None:
                    v = ckw(e.result, "cosmics_nsig") if e.result is not None else None
                p = [x for x in e.args]
                if v is None and len(p) > 1:
                    v = p[-1]
                if v is None:
                    ctx.ob("callers/" + q.split(".")[-2], False, e, "cosmics_nsig is not passed on")
                    continue
                ctx.ob("callers/" + q.split(".")[-2], show(v).endswith("cosmics_nsig") or not is_const(v), e, "cosmics_nsig is %s" % show(v)[:40])


def run(ctx):
    ctx.rule("group", "a coadd is built once per wavehash from exactly the spectra with that wavehash, and takes grid and camera of a member", r_group)
    ctx.rule("weight", "the weight is the sum over members of their (rejected) inverse variance", r_weight)
    ctx.rule("flux", "the flux is sum(w f)/sum(w) over the same members and weights, and finite where the weight is zero", r_flux)
    ctx.rule("resolution", "the resolution is sum(w R)/sum(w) over the same members and weights", r_resolution)
    ctx.rule("reject", "rejection sets single pixels of the exposure whose gradient is the outlier to zero weight", r_reject)
    ctx.rule("statistic", "the pixels and exposures rejected are the outliers of the neighbour difference of the flux, masked pixels interpolated, weighted by the inverse of the summed variances", guarded(r_statistic))
    ctx.rule("inputs", "no array of an input spectrum is modified in place", r_inputs)
    ctx.rule("hash", "the group key of a spectrum is its camera or is made of the length and both ends of its wavelength grid", r_hash)
    ctx.rule("store", "every coadd is kept and the list replaces the spectra", r_store)
    ctx.rule("callers", "callers pass the rejection threshold on", r_callers)
