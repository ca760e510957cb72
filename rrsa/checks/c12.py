"""C12: delta-chi2 compares each fit with the next distinct good fit."""
from ..q import *
from ..store import *
from ..arith import *
from ..logic import *
from ..ctx import Undecided, Stop
from . import c11

CD = "redrock.zfind.calc_deltachi2"
ZF = "redrock.zfind.zfind"
DV = "redrock.fitz.get_dv"
ELW = {"numpy.abs": "abs", "numpy.absolute": "abs", "numpy.fabs": "abs", "builtins.abs": "abs",
       "numpy.minimum": "min", "numpy.fmin": "min", "numpy.maximum": "max", "numpy.fmax": "max",
       "numpy.logical_and": "and", "numpy.logical_or": "or", "numpy.logical_not": "not", "numpy.bitwise_and": "and",
       "numpy.bitwise_or": "or", "numpy.where": "where", "numpy.subtract": "-", "numpy.isin": None}
NAMES = ("chi2", "z", "zwarn", "dvlimit")


class View(object):
    """reads vector expressions of one loop iteration as conditions on a pair (me, other)"""

    def __init__(self, ctx, i):
        self.ctx, self.i, self.sels = ctx, i, []
        badfit = glob_const(ctx.prog, mk("global", "redrock.zwarning.badfit_mask"))
        self.badfit = badfit

    def leaf(self, t):
        t = strip(t)
        if t.op == "param" and t.a[0] == CD and t.a[1] in NAMES:
            return t.a[1]
        if t.op == "ite" and is_call(t.a[0], "numpy.isscalar"):
            d = strip(t.a[2])
            f = strip(t.a[1])
            if d.op == "param" and d.a[1] == "dvlimit" and strip(cargs(t.a[0])[0]) is d:
                if is_call(f, "numpy.full", "numpy.repeat") or f.op == "bin" or is_call(f, "numpy.full_like"):
                    if any(strip(x) is d for x in cargs(f)) or f.op == "bin":
                        return "dvlimit"
                    y = cargs(f)[0 if is_call(f, "numpy.repeat") else 1] if len(cargs(f)) > 1 else NONE
                    vals = [(v, scalarval(y, d, v)) for v in (1000.0, 200.0, 350.0)]
                    if all(w is not None for v, w in vals):
                        for v, w in vals:
                            self.ctx.ob("limit/as-given", v == w, CD, "a velocity limit of %s is used as %s" % (v, w))
                        return "dvlimit"
        if t.op == "call" and fname(t.a[0]) in ("numpy.full", "numpy.broadcast_to") and any(strip(x).op == "param" and strip(x).a[1] == "dvlimit" for x in cargs(t)):
            return "dvlimit"
        return None

    def ev(self, t, sel=()):
        """sel: None for this candidate, otherwise the selectors still to be applied, outermost last"""
        t = strip(t)
        n = self.leaf(t)
        if n is not None:
            if sel is not None:
                self.sels.append(sel)
            return mk("cand", "me" if sel is None else "oth", n)
        if is_const(t) or t.op == "ext":
            return t
        v = glob_const(self.ctx.prog, t)
        if v is not None:
            return const(v)
        if t.op == "sub":
            k = t.a[1]
            if k is self.i:
                return self.ev(t.a[0], None)
            if k.op == "tuple" or (is_const(k) and isinstance(k.a[0], (int, float))):
                n = self.leaf(t.a[0])
                if n is not None and is_const(k):
                    return cand("fixed", n)
                raise Undecided("element " + show(t)[:80])
            if sel is None:
                raise Undecided("element " + show(t)[:80])
            return self.ev(t.a[0], (self.normsel(k),) + sel)
        if t.op == "bin":
            o = t.a[0]
            xs = [self.ev(x, sel) for x in t.a[1:]]
            if o in ("&", "|"):
                ints = [x for x in xs if is_const(x) and not isinstance(x.a[0], bool)]
                if o == "&" and ints:
                    o_ = [x for x in xs if x not in ints]
                    return mk("bin", "&", *(o_ + ints))
                return (mkand if o == "&" else mkor)(*xs)
            return mk("bin", o, *xs)
        if t.op == "un" and t.a[0] == "~":
            return mknot(self.ev(t.a[1], sel))
        if t.op == "un":
            return mk("un", t.a[0], self.ev(t.a[1], sel))
        if t.op == "not":
            return mknot(self.ev(t.a[0], sel))
        if t.op in ("and", "or"):
            return (mkand if t.op == "and" else mkor)(*[self.ev(x, sel) for x in t.a])
        if t.op == "cmp":
            return mkcmp(t.a[0], self.ev(t.a[1], sel), self.ev(t.a[2], sel))
        if t.op == "call":
            f = fname(t.a[0])
            if f == DV:
                a = cargs(t)
                z = ckw(t, "z", 0)
                r = ckw(t, "zref", 1)
                return mk("call", ext("dv"), self.ev(z, sel), self.ev(r, sel))
            if f in ELW and ELW[f] and not any(x.op == "kw" for x in t.a[1:]):
                xs = [self.ev(x, sel) for x in cargs(t)]
                o = ELW[f]
                if o == "abs":
                    return mk("call", ext("abs"), xs[0])
                if o in ("min", "max"):
                    return mk("call", ext(o), *sorted(xs, key=lambda x: x.id))
                if o == "and":
                    return mkand(*xs)
                if o == "or":
                    return mkor(*xs)
                if o == "not":
                    return mknot(xs[0])
                if o == "-":
                    return mk("bin", "-", *xs)
                if o == "where" and len(xs) == 3:
                    return self.pick(*xs)
            if f == "builtins.len" and self.leaf(cargs(t)[0]) is not None:
                return cand("number", "chi2")
        raise Undecided("expression " + show(t)[:100])

    def normsel(self, k):
        """x[a:len(x)] is x[a:]"""
        k = strip(k)
        if k.op == "slice" and k.a[1] is not NONE:
            for n in NAMES:
                if peq(k.a[1], mk("call", ext("builtins.len"), mk("param", CD, n))):
                    return mk("slice", k.a[0], NONE, k.a[2])
        return k

    def pick(self, c, a, b):
        if c.op == "cmp" and c.a[0] in ("<", "<="):
            if c.a[1] is a and c.a[2] is b:
                return mk("call", ext("min"), *sorted((a, b), key=lambda x: x.id))
            if c.a[1] is b and c.a[2] is a:
                return mk("call", ext("max"), *sorted((a, b), key=lambda x: x.id))
        raise Undecided("selection " + show(c)[:60])

    def boolean(self, t):
        """min/max inside comparisons become alternatives, warning tests become atoms"""
        def f(x):
            if x.op == "cmp" and x.a[0] in ("<", "<="):
                for k in (1, 2):
                    y = x.a[k]
                    if y.op == "call" and y.a[0].op == "ext" and y.a[0].a[0] in ("min", "max"):
                        parts = [mkcmp(x.a[0], *((v, x.a[2]) if k == 1 else (x.a[1], v))) for v in y.a[1:]]
                        any_ = (y.a[0].a[0] == "min") == (k == 1)
                        return (mkor if any_ else mkand)(*parts)
            if x.op == "cmp" and x.a[0] in ("==", "!="):
                a, b = x.a[1], x.a[2]
                if is_const(a, 0):
                    a, b = b, a
                if is_const(b, 0) and a.op == "bin" and a.a[0] == "&" and len(a.a) == 3 and is_const(a.a[2]) and a.a[1].op == "cand" and a.a[1].a[1] == "zwarn":
                    if not isinstance(a.a[2].a[0], int):
                        return x
                    b = mk("badbits", a.a[1], a.a[2])
                    return b if x.a[0] == "!=" else mknot(b)
            return x
        return rewrite(t, f)


def scalarval(t, d, v):
    """value of a scalar expression of d when d is v"""
    while t.op == "alloc":
        t = t.a[1]
    if t is d:
        return v
    if is_const(t):
        return t.a[0] if isinstance(t.a[0], (int, float)) else None
    if t.op == "bin" and len(t.a) == 3:
        a, b = scalarval(t.a[1], d, v), scalarval(t.a[2], d, v)
        if a is None or b is None:
            return None
        o = t.a[0]
        try:
            return {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: a / b, "//": lambda: a // b}[o]()
        except (KeyError, ZeroDivisionError):
            return None
    if t.op == "call" and len(cargs(t)) == 1:
        f = fname(t.a[0]).rsplit(".", 1)[-1]
        a = scalarval(cargs(t)[0], d, v)
        if a is not None and f in ("int", "float", "abs", "round", "float64", "float32"):
            return {"int": int, "abs": abs, "round": round}.get(f, float)(a)
    return None


def cand(w, n):
    return mk("cand", w, n)


def spec(badfit, strict):
    dv = mk("call", ext("abs"), mk("call", ext("dv"), cand("oth", "z"), cand("me", "z")))
    lim = [mkcmp("<" if strict else "<=", cand(w, "dvlimit"), dv) for w in ("me", "oth")]
    ok = mknot(mk("badbits", cand("oth", "zwarn"), const(badfit)))
    return mkand(mkor(*lim), ok)


def results(ctx):
    I = ctx.interp(CD)
    out = []
    for k in (0, 1):
        out.append(mksub(I.ret, const(k)))
    return I, out


def sites(ctx, I, r):
    """[(effect, loop key or None, index term, [guards], value)] that fill result r"""
    r = strip(r)
    while r.op == "call" and fname(r.a[0]) in ("numpy.array", "numpy.asarray"):
        r = strip(cargs(r)[0])
    rs = roots(r)
    out = []
    for e in effs(I, "setitem"):
        if set(roots(e.base)) & rs and not roots(e.base) - rs:
            out.append(e)
    if out:
        res = []
        for e in out:
            if len(e.loops) != 1 or e.loops[0].op != "it":
                raise Undecided("how the result is filled (line %s)" % e.line)
            i = mk("idx", e.loops[0].a[0], e.loops[0].a[1])
            if e.key is not i:
                raise Undecided("filled at " + show(e.key)[:60])
            res.append((e, e.loops[0], i, flat_guards(e), strip(e.value)))
        return res, rs
    if r.op == "comp" and r.a[0] in ("list", "gen"):
        it = r.a[3]
        raise Undecided("comprehension result")
    raise Undecided("result " + show(r)[:80])


def anyof(t):
    """X if t is 'any element of X'"""
    t = strip(t)
    if is_call(t, "numpy.any", "builtins.any", "numpy.count_nonzero", "numpy.sum"):
        return cargs(t)[0]
    if t.op == "call" and fname(t.a[0]).endswith(".any") and len(cargs(t)) == 1:
        return cargs(t)[0]
    if t.op == "cmp" and t.a[0] in ("<", "!=", "<="):
        a, b = t.a[1], t.a[2]
        if t.a[0] == "!=" and is_const(b, 0):
            a, b = b, a
        if is_const(a, 0) and t.a[0] != "<=" or is_const(a, 1) and t.a[0] == "<=":
            b = strip(b)
            if is_call(b, "numpy.sum", "numpy.count_nonzero"):
                return cargs(b)[0]
            if is_call(b, "builtins.len"):
                w = strip(cargs(b)[0])
                return filt(w)
    return None


def filt(k):
    """mask behind an index made by where/flatnonzero"""
    k = strip(k)
    if k.op == "sub" and is_const(k.a[1], 0) and is_call(strip(k.a[0]), "numpy.where", "numpy.nonzero"):
        return cargs(strip(k.a[0]))[0]
    if is_call(k, "numpy.flatnonzero"):
        return cargs(k)[0]
    if is_call(k, "numpy.where", "numpy.nonzero") and len(cargs(k)) == 1:
        return cargs(k)[0]
    return k


def position(ctx, sel, i):
    """'later', 'others', 'all' or None: which candidates a base selector leaves"""
    if not sel:
        return "all"
    if len(sel) != 1:
        return None
    k = strip(sel[0])
    if k.op == "slice":
        lo, hi, st = k.a
        if not (hi is NONE and (st is NONE or is_const(st, 1))):
            return None if not is_const(hi) else "cut"
        if lo is NONE or is_const(lo, 0):
            return "all"
        d = pconst(padd(poly(lo), pscale(poly(i), -1)))
        if d is None:
            return None
        return "later" if d in (0, 1) else ("wrong" if d > 1 else "wrong")
    if k.op == "store":
        if is_const(k.a[2], False) and k.a[1].op == "slice":
            lo, hi, st = k.a[1].a
            if lo is NONE and hi is not NONE and pconst(padd(poly(hi), pscale(poly(i), -1))) is not None:
                return "wrong"
        if is_const(k.a[2], False) and k.a[1] is i:
            b = k.a[0]
            if b.op == "store" and is_const(b.a[2], True) and b.a[1].op == "slice" and all(x is NONE for x in b.a[1].a):
                return "others"
            if b.op == "mu":
                # carried over from the previous candidate: what else is stored there decides
                rs = roots(b)
                es = [x for x in effs(ctx.interp(CD), "setitem") if roots(x.base) & rs]
                init = [strip(r.a[1]) if r.op == "alloc" else strip(r) for r in rs]
                if all(is_call(y, "numpy.ones") for y in init) and es and all(x.key is i for x in es):
                    if all(is_const(x.value, False) for x in es):
                        return "later"
                    if len(es) == 2 and is_const(es[-1].value, True):
                        return "others"
                return None
            b = strip(b)
            if is_call(b, "numpy.ones") or (is_call(b, "numpy.full") and is_const(cargs(b)[1], True)):
                return "others"
    if k.op == "cmp" and k.a[0] == "!=":
        a, b = strip(k.a[1]), strip(k.a[2])
        if b is i:
            a, b = b, a
        if a is i and is_call(b, "numpy.arange"):
            return "others"
    if k.op == "cmp" and k.a[0] in ("<", "<="):
        a, b = strip(k.a[1]), strip(k.a[2])
        if a is i and is_call(b, "numpy.arange"):
            return "later"
        if b is i and is_call(a, "numpy.arange"):
            return "wrong"
    return None


def coverage(ctx, nm, e, key, missing):
    """the loop visits every candidate but the last `missing`"""
    n = loop_count(key)
    ln = padd(poly(mk("call", ext("builtins.len"), mk("param", CD, "chi2"))), {})
    if n is None:
        ctx.undecided.append((ctx.cur, nm))
        return
    for w in NAMES:
        d = pconst(padd(n, pscale(poly(mk("call", ext("builtins.len"), mk("param", CD, w))), -1)))
        if d is not None:
            ctx.ob(nm, d >= -missing, e, "the loop stops %d candidates early" % (-d))
            return
    ctx.undecided.append((ctx.cur, nm))


def selcheck(ctx, v, nm, e, want, filters):
    """all candidates compared in one expression are the same ones"""
    ss = set(v.sels)
    base = set()
    for s in ss:
        rest = [k for k in s if filt(k) not in filters and k not in filters]
        base.add(tuple(rest))
    if len(base) > 1:
        # a shorter selector is fine when it selects the same elements
        ps = {position(ctx, b, v.i) for b in base}
        if None in ps:
            raise Undecided("selectors")
        ctx.ob(nm + "/same-candidates", False, e, "values of different candidates are compared: " + "; ".join("[%s]" % ",".join(show(k)[:50] for k in b) for b in base))
        return
    b = next(iter(base)) if base else ()
    p = position(ctx, b, v.i)
    if p is None:
        raise Undecided("selector " + "; ".join(show(k)[:60] for k in b))
    ctx.ob(nm + "/candidates", p in want, e, "compares with %s candidates (%s)" % (p, "; ".join(show(k)[:60] for k in b)))


def own(v, g):
    """the condition g, if it depends on values of the candidate itself and on nothing else"""
    try:
        p = v.boolean(v.ev(g, None))
    except Undecided:
        return None
    cs = {x.a[0] for x in subterms(p) if x.op == "cand"}
    return p if cs == {"me"} else None


def r_delta(ctx):
    I, (r, _) = results(ctx)
    ss, rs = sites(ctx, I, r)
    if len(ss) != 1:
        raise Undecided("%d places fill deltachi2" % len(ss))
    e, key, i, guards, val = ss[0]
    for a in rs:
        b = strip(a)
        if a.op == "alloc":
            b = strip(a.a[1])
        if is_call(b, "numpy.zeros", "numpy.zeros_like"):
            ctx.ob("delta/default-zero", True, e)
        elif is_call(b, "numpy.ones", "numpy.full", "numpy.empty", "numpy.full_like", "numpy.ones_like", "numpy.empty_like"):
            z = len(cargs(b)) > 1 and is_const(cargs(b)[1], 0)
            ctx.ob("delta/default-zero", z, e, "without another good fit the difference is " + show(b)[:60])
        else:
            ctx.undecided.append((ctx.cur, "default " + show(b)[:60]))
    coverage(ctx, "delta/every-candidate", e, key, 1)
    rest = None
    if val.op == "ite" and (is_const(strip(val.a[2]), 0, 0.0) or is_const(strip(val.a[1]), 0, 0.0)):
        # writing the default explicitly is the same as not writing
        yes = is_const(strip(val.a[2]), 0, 0.0)
        guards = guards + [val.a[0] if yes else mknot(val.a[0])]
        val = strip(val.a[1] if yes else val.a[2])
    if val.op == "bin" and val.a[0] in ("+", "-"):
        # the part that does not vary may be subtracted after taking the minimum
        ms = [q for q in subterms(val) if is_call(q, "numpy.min", "numpy.amin", "builtins.min") and len(cargs(q)) == 1]
        if len(ms) == 1:
            rest, val0, val = True, val, ms[0]
    if not is_call(val, "numpy.min", "numpy.amin", "builtins.min"):
        if is_call(val, "numpy.max", "numpy.mean", "numpy.median", "numpy.sum") or val.op == "sub" and is_const(val.a[1]):
            ctx.ob("delta/smallest", False, e, "the difference is " + show(val)[:100])
            return
        raise Undecided("value " + show(val)[:80])
    if len(cargs(val)) != 1:
        raise Undecided("value " + show(val)[:80])
    x = strip(cargs(val)[0])
    fs = []
    y = x

    def collect(t):
        while t.op == "sub" and t.a[1] is not i:
            k = t.a[1]
            m = filt(k)
            if k.op != "slice" and position(ctx, (k,), i) is None:
                fs.append(m)
            t = strip(t.a[0])
        for c in t.a:
            if isinstance(c, T) and t.op in ("bin", "call", "un"):
                collect(strip(c))
    collect(y)
    v = View(ctx, i)
    d = v.ev(x, ())
    if rest is not None:
        def sc(t):
            if t is val:
                return d
            return mk(t.op, t.a[0], *[sc(q) for q in t.a[1:]]) if t.op == "bin" else v.ev(t, None)
        d = sc(val0)
    want = padd(poly(cand("oth", "chi2")), pscale(poly(cand("me", "chi2")), -1))
    ctx.ob("delta/difference", padd(poly(d), pscale(want, -1)) == {} or peq(d, mk("bin", "-", cand("oth", "chi2"), cand("me", "chi2"))), e, "the difference is " + show(d)[:100])
    preds = []
    for m in fs:
        preds.append(v.boolean(v.ev(m, ())))
    s = spec(v.badfit, True)
    p = mkand(*preds) if preds else TRUE
    why = []
    if preds:
        q = equiv(p, s, (), why)
        if q is None:
            ctx.undecided.append((ctx.cur, "condition"))
        else:
            ctx.ob("delta/distinct-good", q, e, "the compared candidates satisfy %s%s" % (show(p)[:200], "; differs e.g. for " + why[0][:200] if why else ""))
    else:
        ctx.ob("delta/distinct-good", False, e, "every candidate is compared, also bad or close ones")
    # a guard must only skip the case without any candidate
    for g in guards:
        m = anyof(g)
        if m is None:
            gs = strip(g)
            if is_call(gs, "numpy.all", "builtins.all") or (gs.op == "sub" and is_const(gs.a[1]) and isinstance(gs.a[1].a[0], int)):
                # one candidate, or all of them, have to satisfy the condition
                v.boolean(v.ev(filt(gs.a[0] if gs.op == "sub" else cargs(gs)[0]), ()))
                ctx.ob("delta/guard", False, e, "only set when " + show(g)[:120])
                continue
            mine = own(v, gs)
            if mine is not None:
                ctx.ob("delta/guard", False, e, "only set when the candidate itself satisfies " + show(mine)[:120])
                continue
            raise Undecided("condition " + show(g)[:80])
        gp = v.boolean(v.ev(filt(m), ()))
        q = equiv(gp, p)
        if q is None:
            ctx.undecided.append((ctx.cur, "guard"))
        else:
            ctx.ob("delta/guard", q, e, "only set when any candidate satisfies " + show(gp)[:150])
    selcheck(ctx, v, "delta", e, ("later",), [filt(f) for f in fs])


def r_flag(ctx):
    I, (_, r) = results(ctx)
    ss, rs = sites(ctx, I, r)
    if len(ss) != 1:
        raise Undecided("%d places fill setzwarn" % len(ss))
    e, key, i, guards, val = ss[0]
    coverage(ctx, "flag/every-candidate", e, key, 0)
    v = View(ctx, i)
    conds = list(guards)
    if is_const(val, True):
        for a in rs:
            b = strip(a.a[1]) if a.op == "alloc" else strip(a)
            if is_call(b, "numpy.zeros", "numpy.zeros_like") or (is_call(b, "numpy.full") and is_const(cargs(b)[1], False)):
                ctx.ob("flag/default", True, e)
            elif is_call(b, "numpy.ones", "numpy.ones_like"):
                ctx.ob("flag/default", False, e, "flagged by default")
            else:
                ctx.undecided.append((ctx.cur, "default " + show(b)[:60]))
    elif is_const(val):
        raise Undecided("value " + show(val))
    else:
        conds.append(val)
    if len(conds) != 1:
        main = [g for g in conds if anyof(g) is not None]
        if len(main) != 1:
            raise Undecided("%d conditions" % len(conds))
        for g in conds:
            if g is main[0]:
                continue
            x = v.boolean(v.ev(g, None))
            if not contains(x, lambda q: q.op == "cand") or contains(x, lambda q: q.op == "cand" and q.a[0] != "me"):
                raise Undecided("condition " + show(g)[:80])
            ctx.ob("flag/every-kind", x is TRUE, e, "only flagged when the candidate itself satisfies " + show(x)[:100])
        conds = main
    m = anyof(conds[0])
    if m is None:
        if is_call(strip(conds[0]), "numpy.all", "builtins.all"):
            ctx.ob("flag/any", False, e, "flagged only when all candidates are close")
            return
        raise Undecided("condition " + show(conds[0])[:100])
    p = v.boolean(v.ev(filt(m), ()))
    lim = glob_const(ctx.prog, mk("global", "redrock.constants.min_deltachi2"))
    if lim is None:
        raise Undecided("min_deltachi2")
    near = mkcmp("<", mk("call", ext("abs"), mk("bin", "-", cand("oth", "chi2"), cand("me", "chi2"))), const(lim))

    def norm(t):
        def f(x):
            if x.op == "call" and x.a[0] is ext("abs") and x.a[1].op == "bin" and x.a[1].a[0] == "-":
                if x.a[1].a[1] is cand("me", "chi2") and x.a[1].a[2] is cand("oth", "chi2"):
                    return mk("call", ext("abs"), mk("bin", "-", cand("oth", "chi2"), cand("me", "chi2")))
            return x
        return rewrite(t, f)
    s = mkand(norm(near), spec(v.badfit, False))
    p = norm(p)
    why = []
    q = equiv(p, s, (), why)
    if q is None:
        raise Undecided("condition " + show(p)[:100])
    ctx.ob("flag/close-distinct-good", q, e, "flagged when another candidate satisfies %s%s" % (show(p)[:200], "; differs e.g. for " + why[0][:200] if why else ""))
    selcheck(ctx, v, "flag", e, ("others", "all"), [])


def r_use(ctx):
    """zfind calls it on the final candidate table and stores both results"""
    t = c11.table(ctx)
    ds = [(e) for k, e, x in t.ev if k == "delta"]
    if not ds:
        raise Undecided("calc_deltachi2 is not called on the candidate table")
    if len(ds) > 1:
        raise Undecided("called %d times" % len(ds))
    d = ds[0]
    re_ = [e for k, e, x in t.ev if k == "reorder"]
    ctx.ob("use/on-final-order", not any(e.seq > d.seq for e in re_), d, "candidates are reordered or removed after their chi2 differences were computed")
    ctx.ob("use/always", not t.extra(d), d, "only computed when " + "; ".join(show(g)[:60] for g in t.extra(d)))
    a = d.bound
    for p, c in (("chi2", "chi2"), ("z", "z"), ("zwarn", "zwarn"), ("dvlimit", "max_velo_diff")):
        x = a.get(p)
        if x is None or is_const(x) or x.op == "default":
            ctx.ob("use/" + p, False, d, "%s is not given" % p)
            continue
        x = strip(x)
        col = t.column_of(x)
        if col is None:
            if x.op == "sub" and is_const(x.a[1]) and isinstance(x.a[1].a[0], int) and t.column_of(strip(x.a[0])) is not None:
                ctx.ob("use/" + p, False, d, "%s is that of one candidate for all: %s" % (p, show(x)[-60:]))
            elif p == "dvlimit" and is_call(x, "numpy.full", "numpy.repeat", "numpy.full_like") and not any(t.column_of(y) for y in subterms(strip(cargs(x)[0 if is_call(x, "numpy.repeat") else 1]))):
                ctx.ob("use/dvlimit", False, d, "every candidate of a target gets the same velocity limit: " + show(x)[-80:])
            elif glob_const(ctx.prog, x) is not None:
                ctx.ob("use/" + p, False, d, "%s is %s for every candidate" % (p, show(x)))
            else:
                ctx.undecided.append((ctx.cur, p + " " + show(x)[:60]))
            continue
        ctx.ob("use/" + p, col == c, d, "%s is column %s" % (p, col))
    r0, r1 = mksub(d.result, const(0)), mksub(d.result, const(1))
    col = [e for k, e, x in t.ev if k == "column" and x == "deltachi2"]
    if not col:
        ctx.ob("use/stored", False, d, "the differences are not stored")
    else:
        v = strip(col[-1].value)
        if contains(v, lambda q: q is d.result):
            ctx.ob("use/stored", v is r0 or canon(v) == canon(r0), col[-1], "deltachi2 is " + show(v)[:80])
        else:
            ctx.ob("use/stored", False, col[-1], "deltachi2 is " + show(v)[:80])
    bit = zval(ctx.prog, "SMALL_DELTA_CHI2")
    fl = []
    for k, e, x in t.ev:
        if x == "zwarn" and k in ("inplace", "column") and e.seq > d.seq:
            fl.append(e)
    hit = 0
    for e in fl:
        if e.kind == "setitem" and contains(mk("tuple", e.key, e.value), lambda q: q is d.result):
            hit = 1
            k = strip(e.key)
            if k is r1:
                op, val = as_aug(e)
                ctx.ob("use/flag-bit", op == "|" and glob_const(ctx.prog, strip(val)) == bit, e, "the flagged candidates get %s= %s" % (e.op, show(e.value)[:60]))
            elif k is r0 or (k.op in ("not", "un") and contains(k, lambda q: q is d.result)):
                ctx.ob("use/flag-bit", False, e, "the flagged candidates are " + show(k)[:60])
            else:
                ctx.undecided.append((ctx.cur, "flagging " + show(k)[:60]))
    if not hit:
        if any(contains(mk("tuple", *[y for y in (e.d.get("key"), e.d.get("value")) if isinstance(y, T)]), lambda q: q is d.result) for e in t.I.effects if e.kind in ("setitem",) and e.seq > d.seq and e not in col):
            ctx.undecided.append((ctx.cur, "flagging"))
        else:
            ctx.ob("use/flagged", False, d, "no warning is set on the candidates with a small difference")
    # limits of each candidate
    st = glob_const(ctx.prog, mk("global", "redrock.constants.max_velo_diff_star"))
    ot = glob_const(ctx.prog, mk("global", "redrock.constants.max_velo_diff"))
    ws = [e for e in effs(t.I, "setitem") if is_const(e.key, "max_velo_diff")]
    if not ws:
        ctx.undecided.append((ctx.cur, "velocity limits"))
    for e in ws:
        v = strip(e.value)
        if is_call(v, "numpy.full") and len(cargs(v)) >= 2:
            v = strip(cargs(v)[1])
        if v.op != "ite":
            c = glob_const(ctx.prog, v)
            if c is not None and not any(contains(g, lambda q: is_const(q, "STAR")) for g in flat_guards(e)):
                ctx.ob("use/limits", False, e, "every candidate gets the limit " + show(v))
            elif c is None:
                ctx.undecided.append((ctx.cur, "limit " + show(v)[:60]))
            continue
        c = v.a[0]
        lim = (glob_const(ctx.prog, strip(v.a[1])), glob_const(ctx.prog, strip(v.a[2])))
        if None in lim:
            ctx.undecided.append((ctx.cur, "limit " + show(v)[:60]))
            continue
        if not contains(c, lambda q: is_const(q, "STAR")):
            ctx.undecided.append((ctx.cur, "limit " + show(v)[:60]))
            continue
        # value when every comparison with 'STAR' holds / fails
        def atval(star):
            def f(x):
                if x.op == "cmp" and x.a[0] in ("==", "!=") and any(is_const(y, "STAR") for y in x.a[1:]):
                    return TRUE if (x.a[0] == "==") == star else FALSE
                return x
            return rewrite(c, f)
        for star, w in ((True, st), (False, ot)):
            r = atval(star)
            if r is TRUE or r is FALSE:
                ctx.ob("use/limits", lim[0 if r is TRUE else 1] == w, e, "a candidate that is %sa star gets the limit %s" % ("" if star else "not ", lim[0 if r is TRUE else 1]))
                continue
            # scalar or list of types (archetypes): the limit has to be right for both
            vals = set()
            for sc in (True, False):
                def g(x):
                    if is_call(x, "numpy.isscalar", "builtins.isinstance"):
                        return TRUE if sc else FALSE
                    return x
                if not any(rewrite(x, g) is FALSE for x in flat_guards(e)):
                    vals.add(rewrite(r, g))
            if vals and vals <= {TRUE, FALSE}:
                bad = [x for x in vals if lim[0 if x is TRUE else 1] != w]
                ctx.ob("use/limits", not bad, e, "a candidate that is %sa star gets the limit %s, depending on whether the types are a list" % ("" if star else "not ", lim[0 if bad and bad[0] is TRUE else 1]))
            else:
                ctx.undecided.append((ctx.cur, "limit condition " + show(c)[:80]))
    pos = {"max_velo_diff": ot, "max_velo_diff_star": st, "min_deltachi2": glob_const(ctx.prog, mk("global", "redrock.constants.min_deltachi2"))}
    for n, w in sorted(pos.items()):
        if w is not None:
            ctx.ob("use/constants", w > 0, d, "%s is %s" % (n, w))


def run(ctx):
    ctx.rule("delta", "deltachi2[i] is the smallest chi2 difference to a later, good, distinct candidate, else 0", r_delta)
    ctx.rule("flag", "the flag is exactly: any other good, distinct candidate closer than the threshold", r_flag)
    ctx.rule("use", "computed on the final candidate table, with each candidate's own velocity limit, and stored", r_use)
