"""C19: failed or out-of-range minimum fits are always flagged."""
from ..q import *
from ..kern import *
from ..arith import *
from ..logic import *
from ..ctx import Undecided, Stop

MF = "redrock.fitz.minfit"
FZ = "redrock.fitz.fitz"
BAD = "BAD_MINFIT"
LIM = "Z_FITLIMIT"


def polycoef(t):
    """(call, k) if t is coefficient k of a quadratic numpy.polyfit"""
    if t.op == "sub" and is_const(t.a[1]) and is_call(t.a[0], "numpy.polyfit") and len(cargs(t.a[0])) >= 3 and is_const(cargs(t.a[0])[2], 2):
        return t.a[0], t.a[1].a[0] % 3
    return None


def bits(ctx, v, name):
    b = zval(ctx.prog, name)
    if b is None:
        raise Undecided("bit " + name)
    r = bitcond(ctx.prog, v, b)
    if r is None:
        raise Undecided("warning value " + show(v)[:80])
    return r


def must(ctx, nm, pre, concl, e, msg):
    why = []
    r = implies(pre, concl, why)
    if r is None:
        ctx.undecided.append((ctx.cur, nm))
        return
    ctx.ob(nm, r, e, msg + ("" if r else " (e.g. %s)" % why[0]))


def pz(x):
    return mk("cmp", "<=", x, const(0))


def r_minfit(ctx):
    I = ctx.interp(MF)
    x, y = mk("param", MF, "x"), mk("param", MF, "y")
    rets = effs(I, "return")
    pf = [c for c in calls(I, "numpy.polyfit")]
    if not rets or not pf:
        raise Undecided("minfit")
    for c in pf:
        a = cargs(c.result)
        ctx.ob("minfit/quadratic", len(a) >= 3 and is_const(a[2], 2) and strip(a[0]) is x and strip(a[1]) is y, c, "fits " + show(c.result)[:80])
        ctx.ob("minfit/failed-solve-caught", any(catches(t, ("LinAlgError",)) for t in c.trys), c, "a failed polynomial fit is not caught")
    A = {i: mksub(pf[0].result, const(i)) for i in range(3)}
    n = 0
    for e in rets:
        v = e.value
        z0, ze, c0, w = [edges(mksub(v, const(i)), {x}) for i in range(4)]
        pre = [edges(g, {x}) for g in flat_guards(e)]
        bit = edges(bits(ctx, w, BAD), {x})
        if sat(pre) is False:
            continue
        n += 1
        must(ctx, "minfit/few-points", pre + [mk("cmp", "<", mk("call", ext("builtins.len"), x), const(3))], bit, e, "fewer than three points are not flagged")
        failed = [g for g in pre if g.op == "exc"]
        if failed:
            must(ctx, "minfit/failed-solve", pre, bit, e, "a failed solve is not flagged")
            continue
        if is_const(z0) or z0.op == "un":
            must(ctx, "minfit/no-solution", pre, bit, e, "a placeholder result is not flagged")
            continue
        if not contains(z0, lambda q: q is pf[0].result):
            ctx.undecided.append((ctx.cur, "vertex " + show(z0)[:80]))
            continue
        a, b, c = A[0], A[1], A[2]
        vx = mk("bin", "/", mk("un", "-", b), mk("bin", "*", const(2), a))
        vy = mk("bin", "-", c, mk("bin", "/", mk("bin", "*", b, b), mk("bin", "*", const(4), a)))
        ctx.ob("minfit/vertex", peq(z0, vx), e, "the vertex is " + show(z0)[:120])
        ctx.ob("minfit/minimum", peq(c0, vy), e, "the minimum is " + show(c0)[:120])
        must(ctx, "minfit/curvature", pre + [pz(a)], bit, e, "a non-positive curvature is not flagged")
        must(ctx, "minfit/below-range", pre + [mk("cmp", "<=", z0, mksub(x, const(0)))], bit, e, "a vertex below the sampled points is not flagged")
        must(ctx, "minfit/above-range", pre + [mk("cmp", "<=", mksub(x, const(-1)), z0)], bit, e, "a vertex above the sampled points is not flagged")
        must(ctx, "minfit/minimum-positive", pre + [pz(c0)], bit, e, "a non-positive minimum chi2 is not flagged")
    if not n:
        raise Undecided("no return")



def catches(t, names):
    """try record (id, handler types, node) has a handler for one of names (or a broader one)"""
    return any(not h or any(x.rsplit(".", 1)[-1] in names + ("Exception", "BaseException") for x in ([h] if isinstance(h, str) else h)) for h in t[1])


def minima(ctx):
    """(interp, appends of a minimum in the minima loop)"""
    I = ctx.interp(FZ)
    ap = []
    for e in effs(I, "append"):
        if len(e.loops) != 1:
            continue
        z, c = mksub(e.value, const("z")), mksub(e.value, const("chi2"))
        if not (z.op == "sub" and z.a[0] is e.value) and not (c.op == "sub" and c.a[0] is e.value):
            ap.append(e)
    if not ap:
        raise Undecided("the loop over minima was not found")
    return I, ap


def r_fitz(ctx):
    I, ap = minima(ctx)
    mf = [c for c in I.effects if c.kind == "call" and fname(c.fn) == MF]
    if len(mf) != 1:
        raise Undecided("%d calls of minfit" % len(mf))
    m = mf[0].result
    red = mk("param", FZ, "redshifts")
    xx = mf[0].bound.get("x")
    if xx is None or xx.op != "sub" or xx.a[1].op != "slice":
        raise Undecided("minfit is called with " + show(xx)[:80])
    zz = xx.a[0]
    yy = mf[0].bound["y"]
    zc = yy.a[0] if yy.op == "sub" else None
    ctx.ob("fitz/same-window", zc is not None and xx.a[1] is yy.a[1], mf[0], "abscissa and chi2 of the parabola are different windows")
    asc = {strip(zz), red, zz}
    raises = [[g for g in flat_guards(e)] for e in effs(I, "raise") if any(g.op == "exc" for g in flat_guards(e))]
    E = lambda t: edges(t, asc)
    zz, zc, m = E(zz), E(zc), E(m)
    zmin = mksub(m, const(0))
    for e in ap:
        Z, C, W = [mksub(e.value, const(k)) for k in ("z", "chi2", "zwarn")]
        gs = [E(g) for g in flat_guards(e)]
        b = E(bits(ctx, W, BAD))
        l = E(bits(ctx, W, LIM))
        alive = [E(mknot(mkand(*[g for g in r if g not in flat_guards(e)]))) for r in raises]
        must(ctx, "fitz/keeps-minfit-flag", alive + [mk("bit", mksub(m, const(3)), const(zval(ctx.prog, BAD)))], b, e, "the bad-minimum flag of the parabola fit is lost")
        le = lambda p, q: mk("cmp", "<=", p, q)
        r = lambda k: mksub(red, const(k))
        # the redshift grid and the fine grid ascend, and the fine grid lies inside the redshift grid
        alive += [le(r(0), r(1)), le(r(-2), r(-1)), le(r(0), mksub(zz, const(0))), le(mksub(zz, const(-1)), r(-1)), le(mksub(zz, const(0)), mksub(zz, const(-1)))]
        lo, hi = mk("cmp", "<", zmin, mksub(zz, const(0))), mk("cmp", "<", mksub(zz, const(-1)), zmin)
        inside = [mknot(lo), mknot(hi)]
        for nm, out in (("below", lo), ("above", hi)):
            pre = alive + [out]
            must(ctx, "fitz/outside-fine-grid-flagged", pre, b, e, "a vertex %s the fine grid is not flagged" % nm)
            z1, c1 = resolve(E(Z), pre), resolve(E(C), pre)
            ok = z1.op == "sub" and strip(z1.a[0]) is strip(zz)
            if not ok and strip(z1) is not strip(zmin):
                ctx.undecided.append((ctx.cur, "redshift of a vertex outside"))
                continue
            ctx.ob("fitz/outside-fine-grid-replaced", ok, e, "a vertex %s the fine grid is kept as redshift" % nm)
            if ok:
                k = z1.a[1]
                arch = contains(c1, lambda q: q.op == "call" and fname(q.a[0]).endswith("get_best_archetype")) or \
                    any(g.op == "not" and g.a[0].op == "cmp" and strip(g.a[0].a[1]) is mk("param", FZ, "archetype") for g in gs)
                if not arch:
                    ctx.ob("fitz/replaced-together", c1.op == "sub" and strip(c1.a[0]) is strip(zc) and canon(c1.a[1]) == canon(k), e,
                           "redshift is replaced by %s but chi2 by %s" % (show(z1)[-60:], show(c1)[-60:]))
                mn = argmin_of(k)
                if mn is None:
                    ctx.undecided.append((ctx.cur, "position " + show(k)[:80]))
                else:
                    ctx.ob("fitz/replaced-by-lowest", mn is not False and strip(mn) is strip(zc), e, "the replacement is not the lowest sampled point")
            for nm2, c in (("first", mk("cmp", "<", z1, mksub(red, const(1)))), ("last", mk("cmp", "<", mksub(red, const(-2)), z1))):
                must(ctx, "fitz/edge-flagged", pre + [c], resolve(l, pre), e, "a redshift in the %s grid step is not flagged" % nm2)
        pre = alive + inside
        z1 = resolve(E(Z), pre)
        if strip(z1) is not strip(zmin):
            ctx.undecided.append((ctx.cur, "redshift of a regular fit"))
        for nm2, c in (("first", mk("cmp", "<", z1, mksub(red, const(1)))), ("last", mk("cmp", "<", mksub(red, const(-2)), z1))):
            must(ctx, "fitz/edge-flagged", pre + [c], resolve(l, pre), e, "a redshift in the %s grid step is not flagged" % nm2)
        for nm2, c in (("first", mk("cmp", "<", zmin, r(1))), ("last", mk("cmp", "<", r(-2), zmin))):
            must(ctx, "fitz/vertex-edge-flagged", alive + [c], l, e, "a vertex in the %s grid step is not flagged" % nm2)
        ex = {x for x in subterms(W) if x.op == "exc"} | {x for x in subterms(mksub(e.value, const("coeff"))) if x.op == "exc"}
        ex |= {g for r in raises for g in r if g.op == "exc"}
        for x in sorted(ex, key=lambda q: q.id):
            pre = alive + [x]
            must(ctx, "fitz/failed-evaluation-flagged", pre, b, e, "a failed evaluation is returned without the bad-minimum flag")
            must(ctx, "fitz/failed-evaluation-limit", pre, l, e, "a failed evaluation is returned without the fit-limit flag")


def argmin_of(k):
    """array whose lowest element k indexes, False if k is another position, None if unknown"""
    k = strip(k)
    if is_call(k, "numpy.argmin", "numpy.nanargmin") and cargs(k):
        return cargs(k)[0]
    if is_call(k, "numpy.argmax"):
        return False
    if k.op == "sub" and k.a[0].op == "call" and is_const(k.a[1], 0):
        c = strip(k.a[0])
        if is_argsort(c):
            return cargs(c)[0]
    if is_call(k, "builtins.min", "builtins.max", "numpy.clip", "numpy.minimum", "numpy.maximum") and any(argmin_of(y) not in (None, False) or argmin_of(y) is False for y in cargs(k)):
        return False        # moved away from the edges of the window
    if k.op == "bin" and k.a[0] in ("+", "-") and len(k.a) == 3 and is_const(k.a[2]) and not is_const(k.a[2], 0) and argmin_of(k.a[1]) is not None:
        return False
    x = k
    n = 0
    while x.op == "sub" and is_const(x.a[1]):
        x = strip(x.a[0])
        n += 1
    if is_call(x, "numpy.where", "numpy.nonzero", "numpy.flatnonzero", "numpy.argwhere") and cargs(x):
        c = strip(cargs(x)[0])
        if c.op == "cmp" and c.a[0] in ("==", "<="):
            for a, b in ((c.a[1], c.a[2]), (c.a[2], c.a[1])):
                b, a = strip(b), strip(a)
                if is_call(b, "numpy.min", "numpy.amin") and strip(cargs(b)[0]) is a:
                    return a
                if is_call(b, "numpy.max", "numpy.amax") and strip(cargs(b)[0]) is a:
                    return False
                if is_call(b, "numpy.min", "numpy.amin", "builtins.min") and strip(cargs(b)[0]).op == "sub" and strip(strip(cargs(b)[0]).a[0]) is a:
                    return False        # the lowest of a part
                if b.op == "sub" and is_const(b.a[1]) and strip(b.a[0]) is a:   # extremes were rewritten
                    return a
    return None


def run(ctx):
    ctx.rule("minfit", "every return of the parabola fit carries the bad-minimum bit under each failure condition", r_minfit)
    ctx.rule("fitz", "the bits of a returned minimum are set under each out-of-range condition and replaced values belong together", r_fitz)
