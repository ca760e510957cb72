"""C34: redshift, chi2 and coefficients of a candidate belong together."""
from ..q import *
from ..kern import *
from ..arith import *
from ..logic import *
from ..terms import mksub
from ..ctx import Undecided, Stop
from ..padding import r_pad, r_types
from ..stacking import r_stack, r_whole
from . import c19
from .c32 import argof, e_name, GB

FZ, MF = c19.FZ, c19.MF
BATCH = "redrock.zscan.calc_zchi2_batch"
REBIN = "redrock.rebin.rebin_template"
SHAPE = ("numpy.atleast_2d", "numpy.squeeze", "numpy.ravel", "numpy.reshape", "numpy.copy", "numpy.array", "numpy.asarray", "numpy.expand_dims")


def bare(t):
    """coefficients without changes of shape"""
    t = strip(t)
    while True:
        if t.op == "call" and fname(t.a[0]) in SHAPE and cargs(t):
            t = strip(cargs(t)[0])
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("reshape", "copy", "ravel", "squeeze", "flatten", "get"):
            t = strip(t.a[0].a[0])
        elif t.op == "sub" and t.a[1].op == "slice" and all(x is NONE for x in t.a[1].a):
            t = strip(t.a[0])
        else:
            return t


def rowof(t):
    """(matrix, row) of one row of a matrix"""
    t = bare(t)
    if t.op != "sub":
        return t, None
    k = t.a[1]
    if k.op == "tuple" and k.a and all(x is NONE or x.op == "slice" and all(y is NONE for y in x.a) for x in k.a[1:]):
        k = k.a[0]
    if k.op == "slice":
        lo, hi, st = k.a
        if lo is not NONE and hi is not NONE and pconst(padd(poly(hi), pscale(poly(lo), -1))) == 1:
            k = lo
        elif is_const(lo, 0) or lo is NONE:
            if is_const(hi, 1):
                k = const(0)
            else:
                return t, None
        else:
            return t, None
    if k.op == "list" and len(k.a) == 1:
        k = k.a[0]
    return strip(t.a[0]), k


def calls_of(t):
    """the kernel calls whose second output t is, over both kinds of processor; None if something else"""
    out = []
    for conds, x in ites(t):
        x = bare(x)
        if x.op == "sub" and is_const(x.a[1], 1) and is_call(strip(x.a[0]), BATCH):
            out.append(strip(x.a[0]))
        else:
            return None
    return out


def redshifts_of(call):
    """what the templates of a kernel call were shifted to"""
    t = ckw(call, "tdata", 1)
    if t is None:
        return []
    out = []
    for x in subterms(t, stop=lambda q: is_call(q, BATCH, MF)):
        if is_call(x, REBIN):
            z = ckw(x, "myz", 1)
            if z is not None and z not in out:
                out.append(z)
    return out


def single(t):
    """the one element of array([z]), else None"""
    t = strip(t)
    while t.op == "call" and fname(t.a[0]) in ("numpy.array", "numpy.asarray", "numpy.atleast_1d", "cupy.array", "cupy.asarray") and cargs(t):
        t = strip(cargs(t)[0])
    if t.op in ("list", "tuple") and len(t.a) == 1:
        return strip(t.a[0])
    if t.op == "sub" and t.a[1].op == "slice" and t.a[1].a[0] is not NONE and t.a[1].a[1] is not NONE:
        if pconst(padd(poly(t.a[1].a[1]), pscale(poly(t.a[1].a[0]), -1))) == 1:
            return mksub(t.a[0], t.a[1].a[0])
    if t.op == "call" and fname(t.a[0]) in ("numpy.full",) and len(cargs(t)) > 1 and is_const(cargs(t)[0], 1):
        return strip(cargs(t)[1])
    return None


class Minimum(object):
    def __init__(self, ctx):
        I, self.ap = c19.minima(ctx)
        self.I = I
        mf = [c for c in I.effects if c.kind == "call" and fname(c.fn) == MF]
        if len(mf) != 1:
            raise Undecided("%d calls of minfit" % len(mf))
        self.mf = mf[0]
        xx, yy = self.mf.bound.get("x"), self.mf.bound.get("y")
        if xx is None or xx.op != "sub" or xx.a[1].op != "slice" or yy.op != "sub":
            raise Undecided("minfit is called with " + show(xx)[:80])
        self.zz0, self.zc0 = xx.a[0], yy.a[0]
        red = mk("param", FZ, "redshifts")
        asc = {strip(self.zz0), red, self.zz0}
        self.E = E = lambda t: edges(t, asc)
        self.zz, self.zc, self.m = E(self.zz0), E(self.zc0), E(self.mf.result)
        self.zmin = mksub(self.m, const(0))
        le = lambda p, q: mk("cmp", "<=", p, q)
        r = lambda k: mksub(red, const(k))
        self.raises = [[g for g in flat_guards(e)] for e in effs(I, "raise") if any(g.op == "exc" for g in flat_guards(e))]
        self.order = [le(r(0), r(1)), le(r(-2), r(-1)), le(r(0), mksub(self.zz, const(0))), le(mksub(self.zz, const(-1)), r(-1)), le(mksub(self.zz, const(0)), mksub(self.zz, const(-1)))]
        lo = mk("cmp", "<", self.zmin, mksub(self.zz, const(0)))
        hi = mk("cmp", "<", mksub(self.zz, const(-1)), self.zmin)
        self.states = [("below the fine grid", [lo, mknot(hi)]), ("above the fine grid", [hi, mknot(lo)]), ("inside the fine grid", [mknot(lo), mknot(hi)])]

    def at(self, lits):
        import copy
        m = copy.copy(self)
        for k in ("zz", "zc", "m", "zmin"):
            setattr(m, k, assume(getattr(self, k), lits))
        return m

    def alive(self, e):
        return [self.E(mknot(mkand(*[g for g in r if g not in flat_guards(e)]))) for r in self.raises] + self.order

    def archetype(self, e):
        A = mk("param", FZ, "archetype")
        none = mk("cmp", "is", A, NONE)
        gs = flat_guards(e)
        if none in gs:
            return False
        if mknot(none) in gs:
            return True
        return None


def has(t, x):
    return contains(t, lambda q: q is x)


def r_coeff(ctx):
    M = Minimum(ctx)
    E = M.E
    n = 0
    for e in M.ap:
        arch = M.archetype(e)
        keys = {False: ("coeff",), True: ("pca_coeff",), None: ("coeff", "pca_coeff")}[arch]
        Z = E(mksub(e.value, const("z")))
        for key in keys:
            C0 = mksub(e.value, const(key))
            if C0.op == "sub" and C0.a[0] is e.value:
                continue
            C = E(C0)
            for nm, st in M.states:
                pre = M.alive(e) + st
                z = strip(resolve(Z, pre))
                c = resolve(C, pre)
                # inside, no exception is swallowed: such redshifts are outside of the range
                cs = [c]
                for x in sorted({q for t, v in ites(c) for y in t for q in subterms(y) if q.op == "exc"}, key=lambda q: q.id):
                    cs = [resolve(assume(y, {x: b}), pre) for y in cs for b in ((False,) if nm.startswith("inside") else (False, True))]
                for gpu, c in [(g, y) for g in (True, False) for y in cs]:
                    A, k = rowof(c)
                    A1 = bare(assume(A, {mk("param", FZ, "use_gpu"): gpu}))
                    k1 = assume(k, {mk("param", FZ, "use_gpu"): gpu}) if k is not None else None
                    n += one(ctx, M, e, key, nm, strip(assume(z, {mk("param", FZ, "use_gpu"): gpu})), A1, k1, gpu)
    if not n:
        raise Undecided("coefficients of the minima")


def r_chi2(ctx):
    """the chi2 of a template candidate is that of its redshift; nothing reported is changed afterwards"""
    M = Minimum(ctx)
    E = M.E
    n = 0
    for e in M.ap:
        if M.archetype(e) is True:
            continue
        C0, Z0 = mksub(e.value, const("chi2")), mksub(e.value, const("z"))
        A = {mk("cmp", "is", mk("param", FZ, "archetype"), NONE): True}
        C, Z = E(assume(C0, A)), E(assume(Z0, A))
        for nm, st in M.states:
            pre = M.alive(e) + st
            z, c = strip(resolve(Z, pre)), strip(resolve(C, pre))
            where = "with the vertex " + nm
            if z is strip(M.zmin):
                if c is mksub(M.m, const(2)):
                    ctx.ob("chi2/same-redshift", True, e)
                    n += 1
                elif c.op == "sub" and strip(c.a[0]) is strip(M.zc) and c.a[1].op != "slice":
                    ctx.ob("chi2/same-redshift", False, e, "%s the reported redshift is the vertex but the chi2 that of a sampled point" % where)
                elif c.op == "sub" and c.a[0] is M.m:
                    ctx.ob("chi2/same-redshift", False, e, "chi2 is output %s of the parabola fit" % show(c.a[1]))
                else:
                    ctx.undecided.append((ctx.cur, "chi2 " + show(c)[:80]))
            elif z.op == "sub" and strip(z.a[0]) is strip(M.zz):
                if c.op == "sub" and strip(c.a[0]) is strip(M.zc):
                    n += 1
                    ctx.ob("chi2/same-redshift", canon(z.a[1]) == canon(c.a[1]), e, "%s redshift and chi2 belong to different sampled points: %s and %s" % (where, show(z.a[1])[-50:], show(c.a[1])[-50:]))
                elif c.op == "sub" and c.a[0] is M.m:
                    ctx.ob("chi2/same-redshift", False, e, "%s a sampled redshift is reported with the chi2 of the vertex" % where)
                else:
                    k = strip(z.a[1])
                    least = is_call(c, "builtins.min", "numpy.minimum", "builtins.max", "numpy.maximum") and len(cargs(c)) > 1
                    if least and mksub(M.m, const(2)) in [strip(x) for x in cargs(c)]:
                        ctx.ob("chi2/same-redshift", False, e, "%s a sampled redshift is reported with the chi2 of the vertex whenever that is the %ser" % (where, fname(c.a[0]).split(".")[-1][:3] == "min" and "small" or "larg"))
                        continue
                    mn = is_call(c, "numpy.min", "numpy.amin", "builtins.min") and cargs(c) and strip(cargs(c)[0]) is strip(M.zc)
                    if not mn:
                        ctx.undecided.append((ctx.cur, "chi2 " + show(c)[:80]))
            else:
                ctx.undecided.append((ctx.cur, "redshift " + show(z)[:80]))
    last = max(M.I.effects.index(e) for e in M.ap)
    for w in M.I.effects[last + 1:]:
        if w.kind in ("setitem", "aug") and isinstance(w.d.get("key"), T) and is_const(w.key) and w.key.a[0] in ("z", "zerr", "chi2", "coeff", "pca_coeff", "legcoeff", "fulltype", "zz", "zzchi2"):
            b = strip(w.base)
            if b.op == "sub" and not (strip(w.value) is mksub(w.base, w.key) or strip(w.value) is mksub(b, w.key)) or as_aug(w)[0]:
                ctx.ob("chi2/kept", not indata(w, b), w, "%s of a finished candidate is replaced by %s" % (w.key.a[0], show(w.value)[:60]))
    if not n:
        raise Undecided("chi2 of the minima")


def r_vertex(ctx):
    """the parabola goes through chi2 values at the redshifts they were computed for"""
    M = Minimum(ctx)
    x, y = strip(M.mf.bound["x"]), strip(M.mf.bound["y"])
    if y.a[1].op != "slice":
        raise Undecided("minfit is called with " + show(y)[:80])
    for i, what in enumerate(("start", "end", "step")):
        p, q = x.a[1].a[i], y.a[1].a[i]
        if p is q or canon(p) == canon(q):
            ctx.ob("vertex/" + what, True, M.mf)
            continue
        d = pconst(poly(mk("bin", "-", p, q))) if p.op != "none" and q.op != "none" and NONE not in (p, q) else None
        if d is None:
            ctx.undecided.append((ctx.cur, "%s of the points of the parabola: %s and %s" % (what, show(p)[-50:], show(q)[-50:])))
        else:
            ctx.ob("vertex/" + what, d == 0, M.mf, "the parabola is fitted to chi2 values that belong to other redshifts: the slices %s %s apart" % (what, d))


def indata(w, b):
    """the new value is not merely another form of the old"""
    v = strip(w.value)
    while is_call(v, "numpy.reshape", "numpy.ravel", "numpy.atleast_1d", "numpy.squeeze", "builtins.float", "numpy.float64") and cargs(v):
        v = strip(cargs(v)[0])
    return not (v.op == "sub" and v.a[1] is w.key)


def one(ctx, M, e, key, nm, z, A, k, gpu):
    where = "with the vertex %s" % nm
    g = {mk("param", FZ, "use_gpu"): gpu}
    M = M.at(g)
    ks = calls_of(A) if k is not None else None
    if A.op == "call" and e_is(A, "get_best_archetype") or any(e_is(x, "get_best_archetype") for x in subterms(A)) and contains(A, lambda x: is_call(x, "split_archetype_coeff")) or A.op == "sub" and e_is(strip(A.a[0]), "get_best_archetype"):
        if key == "pca_coeff":
            ctx.ob("coeff/template", False, e, "%s: %s holds the coefficients of the archetype fit" % (where, key))
            return 1
    if ks is None and k is not None and A.op != "sub":
        k2, ks2 = k, None
    if ks is None:
        # the whole second output
        full = A if k is None else mksub(A, k)
        ks, k = calls_of(full), None
        if ks is None:
            if is_call(A, "numpy.zeros", "numpy.zeros_like", "numpy.ones", "numpy.empty"):
                ctx.ob("coeff/solved", False, e, "%s: %s is %s" % (where, key, show(A)[:40]))
                return 1
            ctx.undecided.append((ctx.cur, "%s %s" % (key, show(full)[:80])))
            return 0
    if len(ks) != 1:
        ctx.undecided.append((ctx.cur, "%s %s" % (key, show(A)[:80])))
        return 0
    zs = [M.E(assume(x, {mk("param", FZ, "use_gpu"): gpu})) for x in redshifts_of(ks[0])]
    if not zs:
        ctx.undecided.append((ctx.cur, "redshift of the templates"))
        return 0
    done = 0
    for zt in zs:
        s = single(zt)
        if s is not None:
            if k is not None and not is_const(k, 0) and not is_const(k, -1):
                ctx.undecided.append((ctx.cur, "row of " + key))
                continue
            s = strip(s)
            if not all(x is strip(M.zmin) or x.op in ("sub", "bin", "param") or is_call(x, "builtins.round", "numpy.round", "numpy.around", "numpy.float32") for x in (s, z)):
                ctx.undecided.append((ctx.cur, "redshift " + show(z)[:60]))
                continue
            ctx.ob("coeff/same-redshift", s is strip(z) or canon(s) == canon(z), e,
                   "%s the reported redshift is %s but %s was solved at %s" % (where, name(M, z), key, name(M, s)))
            done = 1
        elif strip(zt) is strip(M.zz):
            if z.op == "sub" and strip(z.a[0]) is strip(M.zz) and k is not None:
                ctx.ob("coeff/same-redshift", canon(z.a[1]) == canon(k), e, "%s the reported redshift is %s but %s belongs to another sampled point" % (where, name(M, z), key))
                done = 1
            elif z is strip(M.zmin) and k is not None:
                ctx.ob("coeff/same-redshift", False, e, "%s the reported redshift is the vertex but %s belongs to a sampled point" % (where, key))
                done = 1
            else:
                ctx.undecided.append((ctx.cur, "row of " + key))
        else:
            ctx.undecided.append((ctx.cur, "templates at " + show(zt)[:80]))
    return done


def name(M, z):
    if z is strip(M.zmin):
        return "the vertex"
    if z.op == "sub" and strip(z.a[0]) is strip(M.zz):
        return "a sampled point"
    return show(z)[:60]


def r_archetype(ctx):
    """chi2, coefficients and name are those of one archetype fit at the reported redshift"""
    M = Minimum(ctx)
    fits = [e for e in M.I.effects if e.kind == "call" and e_name(e) == "get_best_archetype"]
    if not fits:
        raise Undecided("archetype fit")
    n = 0
    for e in M.ap:
        if M.archetype(e) is False:
            continue
        fs = [f for f in fits if has(mksub(e.value, const("coeff")), f.result) or has(mksub(e.value, const("chi2")), f.result)]
        if len(fs) != 1:
            ctx.undecided.append((ctx.cur, "%d archetype fits of one minimum" % len(fs)))
            continue
        f = fs[0]
        n += 1
        A = mk("param", FZ, "archetype")
        lits = {mk("cmp", "is", A, NONE): False}
        for k, i in (("chi2", 0), ("fulltype", 2)):
            v = strip(assume(mksub(e.value, const(k)), lits))
            if v is mksub(f.result, const(i)):
                ctx.ob("archetype/" + k, True, e)
            elif not has(v, f.result):
                ctx.ob("archetype/" + k, False, e, "%s is not that of the archetype fit: %s" % (k, show(v)[:60]))
            else:
                ctx.undecided.append((ctx.cur, k + " " + show(v)[:60]))
        v = mksub(e.value, const("coeff"))
        ctx.ob("archetype/coeff", has(v, f.result), e, "the coefficients are not those of the archetype fit")
        z = argof(ctx, f, GB, "z")
        if z is None:
            ctx.undecided.append((ctx.cur, "redshift of the archetype fit"))
        else:
            Z = M.E(assume(mksub(e.value, const("z")), lits))
            y = M.E(assume(z, lits))
            same = strip(y) is strip(Z)
            if not same:
                for nm, st in M.states:
                    pre = M.alive(e) + st
                    a, b = strip(resolve(y, pre)), strip(resolve(Z, pre))
                    ctx.ob("archetype/redshift", a is b or canon(a) == canon(b), e, "with the vertex %s the archetypes are fitted at %s but %s is reported" % (nm, name(M, a), name(M, b)))
            else:
                ctx.ob("archetype/redshift", True, e)
    if not n:
        raise Undecided("minima with archetypes")


def r_best(ctx):
    """chi2, coefficients and name of the best archetype have one index, that of the smallest chi2"""
    I = ctx.interp(GB)
    n = 0
    for cs, x in ites(I.ret):
        x = strip(x)
        if x.op != "tuple" or len(x.a) != 3:
            continue
        least = ["numpy." + f for f in "min amin nanmin".split()]
        other = ["numpy." + f for f in "max amax nanmax mean nanmean median nanmedian sum nansum average std ptp".split()]
        if is_call(strip(x.a[0]), *other) and contains(x.a[0], lambda y: is_call(y, "calc_zchi2_batch", "per_camera_coeff_with_least_square_batch") or e_is(y, "calc_zchi2_batch")):
            n += 1
            ctx.ob("best/one-index", False, GB, "the chi2 of the best archetype is %s of the values of all" % fname(strip(x.a[0]).a[0]))
            continue
        if any(strip(y).op == "call" and not (k == 0 and is_call(strip(y), *least)) or strip(y).op == "sub" and strip(strip(y).a[0]).op == "call" and e_is(strip(strip(y).a[0]), "nearest_neighbour_model") for k, y in enumerate(x.a)):
            continue
        sel = []
        for k, y in enumerate(x.a):
            s = set()
            if k == 0 and is_call(strip(y), *least):
                # the smallest value is that at the index of the smallest value
                continue
            for c2, v in ites(y):
                v = bare(v)
                if v.op != "sub":
                    raise Undecided("best archetype: " + show(v)[:60])
                bs = [strip(b) for c3, b in ites(v.a[0])]
                if k < 2 and not all(b.op == "sub" and is_const(b.a[1], k) and strip(b.a[0]).op == "call" for b in bs):
                    raise Undecided("best archetype: " + show(v)[:60])
                s.add(strip(v.a[1]))
            sel.append(s)
        n += 1
        al = set().union(*sel)
        ctx.ob("best/one-index", len(al) == 1, GB, "chi2, coefficients and name of the best archetype are elements " + "; ".join(sorted(show(y)[:40] for y in al)))
        if len(al) == 1:
            i = next(iter(al))
            if is_call(i, "numpy.argmax", "numpy.nanargmax") or is_const(i):
                ctx.ob("best/smallest", False, GB, "the archetype taken is number " + show(i)[:40])
            elif is_call(i, "numpy.argmin", "numpy.nanargmin") or i.op == "call" and i.a[0].op == "attr" and i.a[0].a[1] == "argmin":
                a = cargs(i)[0] if cargs(i) else i.a[0].a[0]
                lv = {strip(v) for c2, v in ites(a)}
                ctx.ob("best/smallest", all(v.op == "sub" and is_const(v.a[1], 0) for v in lv), GB, "the archetype taken has the smallest " + show(a)[-60:])
    if not n:
        raise Undecided("return value of the archetype fit")


def e_is(t, nm):
    return t.op == "call" and ((fname(t.a[0]) or "").endswith("." + nm) or t.a[0].op == "attr" and t.a[0].a[1] == nm)


def r_grid(ctx):
    """the recorded fine grid, its chi2 and the error are those the minimum was taken from"""
    M = Minimum(ctx)
    n = 0
    for e in M.ap:
        for k, want, what in (("zz", M.zz0, "the fine grid of the parabola"), ("zzchi2", M.zc0, "the chi2 of the parabola")):
            v = mksub(e.value, const(k))
            if v.op == "sub" and v.a[0] is e.value:
                continue
            n += 1
            ok = strip(v) is strip(want)
            if not ok and not (strip(v).op in ("param",) or is_const(strip(v))) and has(v, strip(want)):
                ctx.undecided.append((ctx.cur, k + " " + show(v)[:60]))
                continue
            ctx.ob("grid/" + k, ok, e, "%s is not %s but %s" % (k, what, show(v)[:60]))
        v = mksub(e.value, const("zerr"))
        if not (v.op == "sub" and v.a[0] is e.value):
            n += 1
            s = strip(v)
            if s is mksub(M.mf.result, const(1)):
                ctx.ob("grid/zerr", True, e)
            elif s.op == "sub" and s.a[0] is M.mf.result:
                ctx.ob("grid/zerr", False, e, "zerr is output %s of the parabola fit" % show(s.a[1]))
            elif not has(v, M.mf.result) or s.op == "bin":
                ctx.ob("grid/zerr", False, e, "zerr is " + show(v)[:60])
            else:
                ctx.undecided.append((ctx.cur, "zerr " + show(v)[:60]))
    if not n:
        raise Undecided("records of the minima")


def run(ctx):
    ctx.rule("coeff", "the template coefficients of a minimum were solved at the redshift it reports, whether the vertex or a sampled point is reported", r_coeff)
    ctx.rule("chi2", "the chi2 of a template candidate is that of its redshift (vertex or sampled point) and is not replaced later", r_chi2)
    ctx.rule("vertex", "the parabola goes through chi2 values at the redshifts they were computed for", r_vertex)
    ctx.rule("archetype", "chi2, coefficients and name of an archetype candidate come from one fit at the reported redshift", r_archetype)
    ctx.rule("best", "chi2, coefficients and name of the best archetype have one index, that of the smallest chi2", r_best)
    ctx.rule("grid", "the recorded grid, chi2 curve and error are those of the same minimum", r_grid)
    ctx.rule("padding", "coefficients are padded at the end and cut from the start: column j of a fit stays column j of the catalogue", r_pad)
    ctx.rule("whole", "ordering the minima moves each one as a whole", r_whole(FZ))
    ctx.rule("columns", "the table of the minima stacks every column over the same minima in the same order", r_stack(FZ))
    ctx.rule("fits", "the table of a target stacks every column over the same fits in the same order", r_stack("redrock.zfind.zfind"))
    ctx.rule("types", "type, subtype and number of coefficients of the candidates are those of the fit they come from, in its order", r_types)
