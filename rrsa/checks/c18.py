"""C18: at most the requested number of mutually distinct minima."""
from ..q import *
from ..arith import *
from ..logic import *
from ..ctx import Undecided, Stop
from .c19 import minima, FZ

FM = "redrock.fitz.find_minima"
DV = "redrock.fitz.get_dv"


def r_order(ctx):
    """find_minima returns the positions of all local minima by increasing chi2"""
    I = ctx.interp(FM)
    x = mk("param", FM, "x")
    r = strip(I.ret)
    if r.op == "comp" or r.op != "sub":
        raise Undecided("find_minima returns " + show(r)[:80])
    ii, k = strip(r.a[0]), strip(r.a[1])
    e = [q for q in effs(I, "return")][-1]
    if is_call(k, "numpy.argsort") or is_call(k, "sorted"):
        key = strip(cargs(k)[0])
        neg = key.op == "un" and key.a[0] == "-"
        if neg:
            ctx.ob("order/ascending", False, e, "minima are ordered by decreasing chi2")
            return
        ok = key.op == "sub" and strip(key.a[0]) is x and strip(key.a[1]) is ii
        if not ok and strip(key) is x:
            ctx.ob("order/ascending", False, e, "minima are ordered by " + show(key)[:80])
            return
        if not ok:
            raise Undecided("sort key " + show(key)[:80])
        ctx.ob("order/ascending", True, e)
        return
    if k.op == "slice":
        lo, hi, st = k.a
        base = strip(ii)
        if base.op == "sub" and is_argsort(base.a[1]) and is_const(st, -1):
            ctx.ob("order/ascending", False, e, "minima are ordered by decreasing chi2")
            return
        if is_argsort(base) or (base.op == "sub" and is_argsort(base.a[1])):
            ctx.ob("order/all", lo is NONE and hi is NONE, e, "only part of the minima is returned")
            return
    if k.op == "sub" and is_argsort(k.a[0]) and k.a[1].op == "slice" and is_const(k.a[1].a[2], -1):
        ctx.ob("order/ascending", False, e, "minima are ordered by decreasing chi2")
        return
    if not is_argsort(k) and (is_call(ii, "numpy.where", "numpy.flatnonzero") or (ii.op == "sub" and is_call(ii.a[0], "numpy.where"))):
        pass
    raise Undecided("find_minima returns " + show(r)[:80])


def r_number(ctx):
    I, ap = minima(ctx)
    n = mk("param", FZ, "nminima")
    key = ap[0].loops[0]
    it = strip(key.a[0])
    zc = mk("param", FZ, "zchi2")
    bounded = False
    while it.op == "sub" and it.a[1].op == "slice":
        lo, hi, st = it.a[1].a
        ctx.ob("number/lowest-first", (lo is NONE or is_const(lo, 0)) and (st is NONE or is_const(st, 1)), ap[0], "the minima are tried as " + show(it)[-80:])
        if hi is not NONE and canon(hi) == canon(n):
            bounded = True
        it = strip(it.a[0])
    if it.op == "call" and fname(it.a[0]) in ("builtins.reversed", "builtins.sorted"):
        ctx.ob("number/lowest-first", False, ap[0], "the minima are tried as " + show(it)[:80])
        return
    if not (it.op == "call" and fname(it.a[0]) == FM):
        raise Undecided("loop over " + show(it)[:80])
    a = ckw(it, "x", 0)
    ctx.ob("number/of-scan-chi2", a is not None and strip(a) is zc, ap[0], "minima of " + show(a)[:60])
    cat = mkor(*[mkand(*flat_guards(e)) for e in ap]) if len(ap) > 1 else None
    brk = [e for e in effs(I, "break") if e.loops == ap[0].loops]
    for e in ap:
        root_ = e.base
        ln = lambda b: mk("call", ext("builtins.len"), b)
        pre = flat_guards(e)
        cur = [x for g in pre for x in subterms(g) if is_call(x, "builtins.len") and (contains(cargs(x)[0], lambda y: y.op == "mu" and y.a[1] is key))]
        L = ln(strip(e.base) if strip(e.base).op == "mu" else e.base)
        # results collected so far
        base = strip(e.base)
        pos = mk("cmp", "<=", const(0), n)
        if bounded:
            ctx.ob("number/at-most", True, e)
            continue
        tests = {c for g in pre for c in subterms(g) if c.op == "cmp" and contains(c, lambda y: y is n)}
        # the limit may also be tested after each addition
        after = [b for b in brk if b.seq > e.seq and any(contains(g, lambda y: y is n) for g in flat_guards(b))]
        if not tests and not after:
            post = contains(I.ret, lambda y: y.op == "slice" and contains(y, lambda q: q is n))
            if post:
                raise Undecided("limit applied at the end")
            ctx.ob("number/at-most", False, e, "a minimum is added without regard to the requested number")
            continue
        if tests:
            t0 = sorted(tests, key=lambda q: q.id)
            lens = {x for c in t0 for x in subterms(c) if is_call(x, "builtins.len")}
            if len(lens) != 1:
                raise Undecided("test " + show(t0[0])[:80])
            l = lens.pop()
            x = implies(pre, mkor(mk("cmp", "<", l, n), mk("cmp", "!=", l, n)))
            same = strip(cargs(l)[0]) is base or (base.op == "mu" and contains(l, lambda y: y is base)) or \
                contains(l, lambda y: y.op == "mu" and y.a[1] is key)
            if not same:
                raise Undecided("length of " + show(l)[:60])
            if x is None:
                raise Undecided("test " + show(t0[0])[:80])
            ctx.ob("number/at-most", x, e, "a minimum is added although %s may already hold the requested number" % show(l)[:60])
        else:
            b = after[0]
            x = None
            for g in flat_guards(b):
                if g.op == "cmp" and contains(g, lambda y: y is n):
                    lens = {q for q in subterms(g) if is_call(q, "builtins.len")}
                    if len(lens) == 1:
                        l = lens.pop()
                        x = implies([mk("cmp", "==", l, n)], g)
            if x is None:
                raise Undecided("limit after the addition")
            ctx.ob("number/at-most", x, b, "the search goes on when the requested number is reached")


def is_dv(t):
    """(z, zref) of a velocity difference"""
    t = strip(t)
    if t.op == "call" and fname(t.a[0]) == DV:
        return ckw(t, "z", 0), ckw(t, "zref", 1)
    return None


def r_distinct(ctx):
    I, ap = minima(ctx)
    tmpl = mk("param", FZ, "template")
    for e in ap:
        z = mksub(e.value, const("z"))
        found, wrong = [], []
        for g in flat_guards(e):
            c = strip(g.a[0]) if g.op == "not" else strip(g)
            neg = g.op == "not"
            if not is_call(c, "numpy.any", "builtins.any", "numpy.all", "builtins.all"):
                continue
            q = strip(cargs(c)[0])
            allq = fname(c.a[0]).endswith("all")
            if q.op == "comp":
                el = q.a[1]
            else:
                el = q
            if el.op == "not":
                el, flip = el.a[0], True
            else:
                flip = False
            if el.op != "cmp" or el.a[0] not in ("<", "<="):
                continue
            a, b = strip(el.a[1]), strip(el.a[2])
            if is_call(a, "numpy.abs", "builtins.abs", "numpy.absolute", "numpy.fabs"):
                dv, lim, near = is_dv(cargs(a)[0]), b, not flip
            elif is_call(b, "numpy.abs", "builtins.abs", "numpy.absolute", "numpy.fabs"):
                dv, lim, near = is_dv(cargs(b)[0]), a, flip
            else:
                for s, o in ((a, b), (b, a)):
                    if is_dv(s):
                        wrong.append((g, "the velocity difference is compared without its absolute value"))
                continue
            if dv is None:
                continue
            # no pair is near: not any(near) or all(far)
            good = (neg and not allq and near) or (not neg and allq and not near)
            found.append((g, dv, lim, good, q))
        if wrong and not found:
            ctx.ob("distinct/absolute", False, e, wrong[0][1])
            continue
        mine = [f for f in found if strip(f[1][0]) is strip(z) or strip(f[1][1]) is strip(z)]
        if not mine:
            ctx.ob("distinct/refined-redshift", False, e, "the refined redshift of a new minimum is not compared with those already kept")
            continue
        for g, dv, lim, good, q in mine:
            ctx.ob("distinct/far", good, e, "a new minimum is kept when " + show(g)[:80])
            o = strip(dv[1] if strip(dv[0]) is strip(z) else dv[0])
            # the other operand: redshifts of all minima kept so far
            key = e.loops[0]
            if o.op == "comp":
                src = strip(o.a[3].a[0])
                el = strip(o.a[1])
                ctx.ob("distinct/all-previous", o.a[2] is TRUE and not (src.op == "sub" and src.a[1].op == "slice"), e, "only compared with " + show(o)[:80])
                ctx.ob("distinct/previous-refined", el.op == "sub" and is_const(el.a[1], "z"), e, "compared with " + show(el)[-60:])
                ctx.ob("distinct/of-results", contains(src, lambda y: y.op == "mu" and y.a[1] is key), e, "compared with " + show(src)[:60])
            elif o.op == "sub" and q.op == "comp":
                ctx.ob("distinct/all-previous", q.a[2] is TRUE, e, "only compared with some previous minima")
                ctx.ob("distinct/previous-refined", is_const(o.a[1], "z"), e, "compared with " + show(o)[-60:])
            else:
                ctx.undecided.append((ctx.cur, "compared with " + show(o)[:80]))
            star = [c for c in subterms(lim) if c.op == "cmp"]
            isstar = mk("cmp", "==", mk("attr", tmpl, "template_type"), const("STAR"))
            nm = lambda t: t.a[0].rsplit(".", 1)[-1] if t.op in ("global", "ext") else (t.a[1] if t.op == "attr" else show(t))
            for lab, pre, want in (("star-limit", isstar, True), ("limit", mknot(isstar), False)):
                for cs, leaf in ites(resolve(lim, [pre])):
                    if sat([pre] + cs) is False:
                        continue
                    v = glob_const(ctx.prog, leaf)
                    if v is None:
                        ctx.undecided.append((ctx.cur, "limit " + show(leaf)[:80]))
                        continue
                    ctx.ob("distinct/" + lab, nm(leaf) == "max_velo_diff" + ("_star" if want else "") or v == star_limit(ctx, want), e,
                           "%s are separated by %s" % ("stars" if want else "other classes", nm(leaf)))


def star_limit(ctx, star):
    return glob_const(ctx.prog, mk("global", "redrock.constants.max_velo_diff" + ("_star" if star else "")))


def r_dv(ctx):
    I = ctx.interp(DV)
    z, zr = mk("param", DV, "z"), mk("param", DV, "zref")
    r = strip(I.ret)
    num = poly(mk("bin", "/", mk("bin", "-", z, zr), mk("bin", "+", const(1), zr)))
    p = poly(r)
    e = effs(I, "return")[-1]
    lin = set()
    c = [x for x in subterms(r) if x.op in ("ext", "global") and "speed_of_light" in x.a[0] or (x.op == "ext" and x.a[0].endswith(".c"))]
    if not c:
        k = [x.a[0] for x in subterms(r) if is_const(x) and isinstance(x.a[0], (int, float)) and x.a[0] > 1e5]
        if not k:
            raise Undecided("velocity " + show(r)[:80])
        C = const(k[0])
        cands = [C]
    else:
        cands = [mk("bin", "/", c[0], const(1000)), mk("bin", "*", c[0], const(0.001))]
    ctx.ob("dv/formula", any(p == poly(mk("bin", "*", q, mk("bin", "/", mk("bin", "-", z, zr), mk("bin", "+", const(1), zr)))) for q in cands), e, "the velocity difference is " + show(r)[:120])


def r_sorted(ctx):
    I, ap = minima(ctx)
    key = ap[0].loops[0]
    e = effs(I, "return")[-1]
    # the list of minima after the loop and every reordering of it
    srt = []
    for x in subterms(I.ret):
        if x.op == "comp" and len(x.a) == 4:
            src = strip(x.a[3].a[0])
            el = strip(x.a[1])
            if el.op == "sub" and contains(el.a[0], lambda y: y.op == "loop") and (is_argsort(src) or (src.op == "call" and fname(src.a[0]) == "builtins.reversed")):
                srt.append((x, src))
        if is_call(x, "builtins.sorted") and contains(cargs(x)[0], lambda y: y.op == "loop"):
            k = ckw(x, "key")
            srt.append((x, x))
    # one entry per sort, outermost last
    seen = []
    for x, s in srt:
        if s not in [b for _, b in seen]:
            seen.append((x, s))
    if not seen:
        o = [c for c in I.effects if c.kind == "call" and (c.meth == "sort" or fname(c.fn).endswith("argsort"))]
        if o:
            raise Undecided("order of the returned minima")
        ctx.ob("sorted/by-chi2", False, e, "the refined minima are returned in the order they were tried")
        return
    x, s = seen[0]
    if is_call(s, "builtins.sorted"):
        raise Undecided("sorted() with key")
    sl = s
    if sl.op == "sub" and sl.a[1].op == "slice":
        st = sl.a[1].a[2]
        if is_const(st, -1):
            ctx.ob("sorted/by-chi2", False, e, "the minima are sorted by decreasing chi2")
            return
        raise Undecided("slice of the order")
    if is_call(sl, "builtins.reversed"):
        ctx.ob("sorted/by-chi2", False, e, "the minima are returned in reverse order")
        return
    k = strip(cargs(sl)[0])
    if k.op == "un" and k.a[0] == "-":
        ctx.ob("sorted/by-chi2", False, e, "the minima are sorted by decreasing chi2")
        return
    if k.op != "comp":
        raise Undecided("sort key " + show(k)[:80])
    el = strip(k.a[1])
    if el.op == "un" and el.a[0] == "-":
        ctx.ob("sorted/by-chi2", False, e, "the minima are sorted by decreasing chi2")
        return
    ctx.ob("sorted/by-chi2", el.op == "sub" and is_const(el.a[1], "chi2") and k.a[2] is TRUE, e, "the minima are sorted by " + show(el)[-60:])


def run(ctx):
    ctx.rule("order", "candidate positions are ordered by increasing chi2", r_order)
    ctx.rule("number", "every addition to the minima is guarded by the requested number", r_number)
    ctx.rule("distinct", "every addition is guarded by the velocity distance of the stored redshift to all kept ones, with the class limit", r_distinct)
    ctx.rule("dv", "the velocity difference is c (z - zref) / (1 + zref)", r_dv)
    ctx.rule("sorted", "the returned minima are ordered by the refined chi2", r_sorted)
