"""C40: every fit solves the weighted least-squares problem of its own spectra."""
from ..q import *
from ..logic import *
from ..terms import mksub, mknot
from ..arith import poly, padd, pscale
from ..ctx import Undecided
from ..tensor import *

Z = "redrock.zscan."
BATCH, ONE, PER = Z + "calc_zchi2_batch", Z + "calc_zchi2_one", Z + "per_camera_coeff_with_least_square_batch"
ONE_ = Z + "_zchi2_one"
SOLVE, SD = Z + "solve_matrices", Z + "spectral_data"
DOT1, DOTB = Z + "dot_product_sparse_one", Z + "batch_dot_product_sparse"
D33, D32 = Z + "calc_batch_dot_product_3d3d_gpu", Z + "calc_batch_dot_product_3d2d"
FULL = mk("slice", NONE, NONE, NONE)


def P(f, n):
    return mk("param", f, n)


# ---------------------------------------------------------------- the model matrix

def element(t):
    """(container, index) if t is the current element of a loop over a container"""
    t = strip(t)
    if t.op == "sub" and t.a[1].op == "idx":
        return strip(t.a[0]), t.a[1]
    return None


def template_of(t):
    """(key, selectors) of a template array t: tdata[key][sel]"""
    t = strip(t)
    sel = []
    while t.op == "sub":
        b = strip(t.a[0])
        if b.op == "param" or b.op != "sub" and not sel:
            return b, t.a[1], sel
        if b.op != "sub":
            return b, t.a[1], sel
        sel.insert(0, t.a[1])
        t = b
    return None, None, sel


def matrix(ctx, f, t, where, spectra, tdata, index):
    """t is the stack over all spectra of resolution times template; None: not such a stack"""
    t = strip(t)
    if t.op == "call" and fname(t.a[0]) in ("numpy.vstack", "numpy.concatenate", "cupy.vstack", "cupy.concatenate", "cupy.hstack", "numpy.hstack") and cargs(t):
        c = strip(cargs(t)[0])
    else:
        return None
    if c.op != "comp":
        return None
    if fname(t.a[0]).endswith("hstack"):
        ctx.undecided.append((ctx.cur, "stack along the second axis"))
        return None
    el, flt, it = c.a[1], c.a[2], c.a[3]
    if not (isinstance(it, T) and it.op == "it"):
        return None
    src = strip(it.a[0])
    ctx.ob("stack/all spectra", flt is TRUE, where, "only spectra with %s enter the model" % show(flt)[-60:])
    same_order(ctx, "stack/order", src, spectra, where)
    idx = mk("idx", it.a[0], it.a[1])
    for cs, x in ites(strip(el)):
        x = strip(x)
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("dot", "__matmul__"):
            l, r = strip(x.a[0].a[0]), strip(cargs(x)[0])
        elif x.op == "bin" and x.a[0] == "@" and len(x.a) == 3:
            l, r = strip(x.a[1]), strip(x.a[2])
        elif x.op == "sub" and strip(x.a[0]).op in ("mu", "loop", "alloc", "ite") and strip(x.a[1]).op == "attr" and strip(x.a[1]).a[1] == "wavehash":
            ctx.ob("stack/own resolution", False, where, "spectra on one grid share one model, also when their resolutions differ")
            continue
        else:
            ctx.undecided.append((ctx.cur, "model of one spectrum: " + show(x)[:60]))
            continue
        while l.op == "call" and l.a[0].op == "attr" and l.a[0].a[1] in ("tocsr", "todense", "toarray"):
            l = strip(l.a[0].a[0])
        if l.op == "attr" and l.a[1] in ("Rcsr", "R"):
            e = element(l.a[0])
            if e is not None:
                ctx.ob("stack/own resolution", e[1] is idx or e == (src, idx), where, "the resolution is that of another spectrum: " + show(l)[-60:])
            elif strip(l.a[0]).op == "sub":
                ctx.ob("stack/own resolution", False, where, "the resolution is that of another spectrum: " + show(l)[-60:])
            else:
                ctx.undecided.append((ctx.cur, "resolution " + show(l)[-60:]))
        elif l.op == "attr" and l.a[1] == "T" and strip(l.a[0]).op == "attr" and strip(l.a[0]).a[1] in ("R", "Rcsr"):
            ctx.ob("stack/resolution", False, where, "the transposed resolution is applied")
        else:
            ctx.undecided.append((ctx.cur, "resolution " + show(l)[-60:]))
        b, k, sel = template_of(r)
        if b is None:
            ctx.undecided.append((ctx.cur, "template " + show(r)[-60:]))
            continue
        if b is not tdata:
            ctx.undecided.append((ctx.cur, "template of " + show(b)[-60:]))
        k = strip(k)
        if k.op == "attr" and k.a[1] == "wavehash":
            e = element(k.a[0])
            if e is None and strip(k.a[0]).op != "sub":
                ctx.undecided.append((ctx.cur, "template for " + show(k)[-60:]))
            else:
                ctx.ob("stack/own grid", e is not None and e[1] is idx, where, "the template is sampled on the grid of another spectrum: " + show(k)[-60:])
        elif k.op in ("idx", "const") or k.op == "sub":
            ctx.ob("stack/own grid", False, where, "the template is not selected by the wavelength grid of the spectrum: " + show(k)[-60:])
        else:
            ctx.undecided.append((ctx.cur, "template for " + show(k)[-60:]))
        # which redshift
        if index is not None:
            ks = [y for s in sel for y in (s.a if s.op == "tuple" else (s,))]
            rest = [y for y in ks if not (y.op == "slice" and all(z is NONE for z in y.a)) and not is_const(y, Ellipsis)]
            if ks and strip(ks[0]) is strip(index) and len(rest) == 1:
                ctx.ob("stack/own redshift", True, where)
            elif ks and len(rest) == 1 and (is_const(rest[0]) or rest[0].op == "bin"):
                ctx.ob("stack/own redshift", False, where, "the template is that of redshift %s, not %s" % (show(rest[0])[:40], show(index)[:20]))
            elif not rest:
                ctx.ob("stack/own redshift", False, where, "the template is not taken at one redshift")
            elif strip(rest[0]) is strip(index) and len(rest) == 1:
                ctx.ob("stack/own redshift", False, where, "the redshift selects along another axis")
            else:
                ctx.undecided.append((ctx.cur, "redshift of the template"))
    return True


def same_order(ctx, key, src, spectra, where):
    if src is spectra or spectra is None:
        ctx.ob(key, True, where)
    elif src.op == "call" and fname(src.a[0]) in ("builtins.sorted", "builtins.reversed", "builtins.set", "numpy.unique") and cargs(src) and strip(cargs(src)[0]) is spectra:
        ctx.ob(key, False, where, "the spectra are taken in another order: " + show(src)[:60])
    elif src.op == "sub" and strip(src.a[0]) is spectra and src.a[1].op == "slice" and not (src.a[1].a[0] in (NONE, const(0)) and src.a[1].a[1] is NONE and src.a[1].a[2] in (NONE, const(1))):
        ctx.ob(key, False, where, "not all spectra in their order: " + show(src)[-60:])
    elif src.op in ("param", "attr") and src.op != spectra.op or src.op == "param":
        ctx.ob(key, False, where, "the spectra are %s, not %s" % (show(src)[-40:], show(spectra)[-40:]))
    else:
        ctx.undecided.append((ctx.cur, "spectra taken from " + show(src)[-60:]))


def r_stack(ctx):
    n = 0
    for f, index in ((DOT1, "i"),):
        I = ctx.interp(f)
        for cs, v in ites(I.ret):
            if matrix(ctx, f, v, f, P(f, "spectra"), P(f, "tdata"), P(f, index)):
                n += 1
    I = ctx.interp(ONE)
    for e in calls(I, ONE_):
        b = e.bound
        if matrix(ctx, ONE, b["Tb"], e, P(ONE, "spectra"), P(ONE, "tdata"), None):
            n += 1
    if not n:
        raise Undecided("model matrix")
    # the batch on the GPU: all arguments of the kernel belong to one spectrum
    f = Z + "_batch_dot_product_sparse_gpu"
    I = ctx.interp(f)
    sp, td = P(f, "spectra"), P(f, "tdata")
    for e in effs(I, "call"):
        if not e.loops or len(e.d.get("args") or ()) != 3 or e.args[2].op != "tuple":
            continue
        it = e.loops[-1]
        if not (isinstance(it, T) and it.op == "it"):
            continue
        same_order(ctx, "stack/order", strip(it.a[0]), sp, e)
        idx = mk("idx", it.a[0], it.a[1])
        for x in e.args[2].a:
            for y in subterms(x):
                if y.op == "sub" and strip(y.a[0]) is sp:
                    ctx.ob("stack/own spectrum", y.a[1] is idx, e, "an argument of the kernel belongs to another spectrum: " + show(y))
                if y.op == "sub" and strip(y.a[0]) is td:
                    k = strip(y.a[1])
                    el = element(k.a[0]) if k.op == "attr" and k.a[1] == "wavehash" else None
                    if el is None:
                        ctx.undecided.append((ctx.cur, "template for " + show(k)[-40:]))
                    else:
                        ctx.ob("stack/own grid", el[1] is idx, e, "the template is sampled on the grid of another spectrum: " + show(k)[-60:])


# ---------------------------------------------------------------- the normal equations

class Leaf(object):
    def __init__(self, f, gpu):
        self.f, self.gpu, self.ev = f, gpu, None
        self.mats = []

    def __call__(self, t):
        f = self.f
        if t.op == "param" and t.a[0] == f:
            n = t.a[1]
            if n in ("weights", "flux"):
                return atom(n[0], 1)
            if n == "wflux":
                return mul(w(), fl())
            if n == "prior":
                return atom("prior", 2)
            if n == "Tb":
                return atom("T", 2)
        if t.op == "store" and t.a[1].op == "slice" and all(x is NONE for x in t.a[1].a):
            return self.ev(t.a[2])
        if t.op == "call":
            n = fname(t.a[0])
            if n == SOLVE:
                return atom("z", 2 if self.gpu else 1)
            if n == DOT1:
                self.mats.append(t)
                return atom("T", 2)
            if n == DOTB:
                self.mats.append(t)
                return atom("T", 3)
            if n in ("numpy.vstack", "numpy.concatenate") and cargs(t) and strip(cargs(t)[0]).op == "comp" and contains(t, lambda x: x.op == "attr" and x.a[1] in ("Rcsr", "wavehash")):
                self.mats.append(t)
                return atom("T", 2)
            if n == D33:
                a, b = self.ev(ckw(t, "a")), self.ev(ckw(t, "b"))
                tr = ckw(t, "transpose_a", None, FALSE)
                if not is_const(tr):
                    raise No("transpose_a")
                if tr.a[0]:
                    a = Ten(a.free[:-2] + (a.free[-1], a.free[-2]), a.terms)
                return matmul(a, b)
            if n == D32:
                a, b = self.ev(ckw(t, "Tbs")), self.ev(ckw(t, "zc"))
                r = matmul(a, Ten(b.free + (None,), b.terms))
                return Ten(r.free[:-1], r.terms)
        return None


def w():
    return atom("w", 1)


def fl():
    return atom("f", 1)


def Tm(gpu):
    return atom("T", 3 if gpu else 2)


def tr(a):
    return Ten(a.free[:-2] + (a.free[-1], a.free[-2]), a.terms)


def want_M(gpu, prior):
    ww = w()
    t = Tm(gpu)
    r = matmul(tr(t), mul(Ten(ww.free + (None,), ww.terms), Tm(gpu)))
    return add(r, atom("prior", 2)) if prior else r


def want_y(gpu):
    return matmul(tr(Tm(gpu)), mul(w(), fl()))


def model(gpu):
    z = atom("z", 2 if gpu else 1)
    if not gpu:
        return matmul(Tm(gpu), z)
    r = matmul(Tm(gpu), Ten(z.free + (None,), z.terms))
    return Ten(r.free[:-1], r.terms)


def want_chi2(gpu):
    m = model(gpu)
    return matmul(mul(add(fl(), m, -1), add(fl(), m, -1)), w())


def explain(got, want):
    ms = sorted(set(got) - set(want), key=str) + sorted(k for k in want if k in got and got[k] != want[k])
    f = lambda m: "*".join("%s[%s]%s" % (n, ",".join("%s%d" % l for l in ls), "" if p == 1 else "^%s" % p) for n, ls, p in m) or "1"
    if ms:
        return "it contains the term %s %s" % (got[ms[0]], f(ms[0]))
    return "the term %s is missing" % f(sorted(set(want) - set(got), key=str)[0])


def compare(ctx, key, leaf, t, want, where, what, sym=False):
    ev = Eval(leaf)
    leaf.ev = ev
    try:
        got = ev(t)
        g, h = normal(got), normal(want)
    except No as e:
        ctx.undecided.append((ctx.cur, "%s: %s" % (key, e)))
        return None
    if len([l for l in got.free if l is not None]) != len(want.free) and len(got.free) != len(want.free):
        ctx.undecided.append((ctx.cur, key + ": shape"))
        return None
    ok = g == h
    if not ok and sym:
        ok = normal(tr(got)) == h
    ctx.ob(key, ok, where, "" if ok else "%s: %s" % (what, explain(g, h)))
    return ok


def modes(f, t):
    """alternatives of t over processor and presence of a prior"""
    gpu, pr = P(f, "use_gpu"), mkcmp("is", P(f, "prior"), NONE)
    out = []
    for g in (True, False):
        for p in (True, False):
            out.append((g, p, assume(t, {gpu: g, pr: not p})))
    return out


def one_way(t):
    """alternatives that are not an error value"""
    return [(cs, x) for cs, x in ites(strip(t))]


def guard_gpu(f, e):
    gpu = P(f, "use_gpu")
    g = guard_term(e)
    if b_implies(g, gpu):
        return True
    if b_implies(g, mknot(gpu)):
        return False
    return None


def r_normal(ctx):
    n = 0
    for f in (BATCH, ONE_):
        I = ctx.interp(f)
        prior = mkcmp("is", P(f, "prior"), NONE)
        for e in calls(I, SOLVE):
            b = e.bound
            gs = (True, False)
            if f == ONE_:
                gs = (False,)
            elif guard_gpu(f, e) is not None:
                gs = (guard_gpu(f, e),)
            for g in gs:
                for p in ((True, False) if f == BATCH else (False,)):
                    lits = {P(f, "use_gpu"): g, prior: not p}
                    M, y = assume(b["M"], lits), assume(b["y"], lits)
                    tag = ("gpu" if g else "cpu") + ("/prior" if p else "")
                    leaf = Leaf(f, g)
                    n += compare(ctx, "matrix/" + tag, leaf, M, want_M(g, p), e, "the matrix of the normal equations is not T' W T%s" % (" + prior" if p else ""), True) is not None
                    compare(ctx, "vector/" + tag, leaf, y, want_y(g), e, "the right-hand side of the normal equations is not T' W f")
                    mats(ctx, f, leaf, e)
    if not n:
        raise Undecided("normal equations")


def mats(ctx, f, leaf, e):
    """the model matrices used are those of the spectra and templates of this fit"""
    ms = {m.id: m for m in leaf.mats}
    for m in ms.values():
        if fname(m.a[0]) not in (DOT1, DOTB):
            matrix(ctx, f, m, e, P(f, "spectra"), P(f, "tdata"), None)
            continue
        for k in ("spectra", "tdata"):
            v = ckw(m, k)
            if v is not None:
                v = strip(v)
                if v is P(f, k):
                    ctx.ob("matrix/" + k, True, e)
                elif k == "spectra":
                    same_order(ctx, "matrix/" + k, v, P(f, k), e)
                else:
                    ctx.undecided.append((ctx.cur, "templates " + show(v)[-60:]))
    if len(ms) > 1:
        ctx.ob("matrix/one", False, e, "different model matrices are combined in one fit: " + ", ".join(sorted(show(m)[-60:] for m in ms.values())))


def allocs(t):
    return {x.a[0] for x in subterms(t) if x.op == "alloc" and not isinstance(x.a[0], T)}


def root_alloc(t):
    """allocation an array value goes back to"""
    while isinstance(t, T):
        if t.op == "alloc":
            return t.a[0]
        if t.op == "store":
            t = t.a[0]
        elif t.op == "mu":
            t = t.a[-1]
        elif t.op == "loop":
            t = t.a[0]
        elif t.op == "ite":
            a = {root_alloc(t.a[1]), root_alloc(t.a[2])}
            return a.pop() if len(a) == 1 else None
        else:
            return None
    return None


def r_chi2(ctx):
    n = 0
    # one at a time
    I = ctx.interp(ONE_)
    leaf = Leaf(ONE_, False)
    for cs, v in ites(I.ret):
        if contains(v, lambda x: is_call(x, SOLVE)) or contains(v, lambda x: x is P(ONE_, "weights")):
            n += compare(ctx, "chi2/one", leaf, v, want_chi2(False), ONE_, "the chi2 is not the weighted sum of squared residuals") is not None
    for e in effs(I, "setitem"):
        if isinstance(e.base, T) and strip_alloc(e.base) is P(ONE_, "zcoeff"):
            for cs, v in ites(e.value):
                coeff(ctx, v, e)
    # in batch
    I = ctx.interp(BATCH)
    rs = [e for e in I.effects if e.kind == "return" and e.fn.endswith("calc_zchi2_batch")] if False else []
    ret = I.ret
    outs = []
    for cs, r in ites(ret):
        if r.op == "tuple" and len(r.a) == 2:
            outs.append((cs, r.a[0], r.a[1]))
    if not outs:
        raise Undecided("result of the batch")
    chi = set().union(*[allocs(o[1]) for o in outs])
    zc = set().union(*[allocs(o[2]) for o in outs])
    for e in effs(I, "setitem"):
        if not isinstance(e.base, T):
            continue
        r = root_alloc(e.base)
        if e.d.get("op") is not None:
            if r in chi - zc and contains(e.value, lambda x: is_call(x, SOLVE)):
                ctx.ob("chi2/only residuals", False, e, "something is added to the chi2: " + show(e.value)[:60])
            continue
        if not contains(e.value, lambda x: is_call(x, SOLVE)) or r is None:
            continue
        g = guard_gpu(BATCH, e)
        for gpu in ((True, False) if g is None else (g,)):
            for p in (True, False):
                lits = {P(BATCH, "use_gpu"): gpu, mkcmp("is", P(BATCH, "prior"), NONE): not p}
                v = assume(e.value, lits)
                tag = ("gpu" if gpu else "cpu") + ("/prior" if p else "")
                for cs, w in ites(strip(v)):
                    if strip(w).op == "call" and fname(strip(w).a[0]) == SOLVE or not contains(w, lambda x: is_call(x, SOLVE)):
                        continue
                    if r not in chi or r in zc - chi:
                        continue
                    leaf = Leaf(BATCH, gpu)
                    n += compare(ctx, "chi2/" + tag, leaf, w, want_chi2(gpu), e, "the chi2 is not the weighted sum of squared residuals") is not None
                    mats(ctx, BATCH, leaf, e)
                # the solution is that of the same redshift
        ks = e.key.a[0] if e.key.op == "tuple" and e.key.a else e.key
        for m in {x.id: x for x in subterms(e.value) if is_call(x, DOT1)}.values():
            i = ckw(m, "i")
            if i is not None and ks.op == "idx":
                if strip(i) is ks:
                    ctx.ob("chi2/own redshift", True, e)
                elif i.op in ("bin", "const") or i.op == "idx" or contains(i, lambda x: x is ks):
                    ctx.ob("chi2/own redshift", False, e, "the fit at redshift %s is stored as that of redshift %s" % (show(i)[-40:], show(ks)[-20:]))
                else:
                    ctx.undecided.append((ctx.cur, "redshift of the fit"))
    if not n:
        raise Undecided("chi2")


def coeff(ctx, v, e):
    v = strip(v)
    if v.op == "call" and fname(v.a[0]) == SOLVE:
        ctx.ob("coefficients/solution", True, e)
    elif v.op == "bin" and contains(v, lambda x: is_call(x, SOLVE)):
        ctx.ob("coefficients/solution", False, e, "the coefficients are not the solution: " + show(v)[:60])
    else:
        ctx.undecided.append((ctx.cur, "coefficients"))


def r_coeff(ctx):
    I = ctx.interp(BATCH)
    n = 0
    for cs, r in ites(I.ret):
        if r.op != "tuple" or len(r.a) != 2:
            continue
        for gpu in (True, False):
            v = assume(r.a[1], {P(BATCH, "use_gpu"): gpu})
            for cs2, x in ites(v):
                x = strip(x)
                if is_call(x, "numpy.zeros", "cupy.zeros"):
                    continue
                if x.op == "loop" or x.op == "mu":
                    continue
                n += 1
                coeff(ctx, x, BATCH)
    for e in effs(I, "setitem"):
        for cs, v in ites(e.value):
            if is_call(strip(v), SOLVE):
                n += 1
                k = e.key
                k = k.a[0] if k.op == "tuple" and k.a else k
                i = {y for m in subterms(v) if is_call(m, DOT1) for y in [strip(ckw(m, "i"))]}
                j = i.pop() if len(i) == 1 else None
                if j is not None and (k.op == "idx" or k.op in ("bin", "const") and contains(k, lambda x: x is j) or is_const(k)):
                    if j is not k and (j.op in ("idx", "bin", "const") or contains(j, lambda x: x is k) or contains(k, lambda x: x is j)):
                        ctx.ob("coefficients/own redshift", False, e, "the coefficients are stored for redshift %s, not %s" % (show(k)[:40], show(j)[:40]))
                    elif j is k:
                        ctx.ob("coefficients/own redshift", True, e)
                    else:
                        ctx.undecided.append((ctx.cur, "redshift of the coefficients"))
                else:
                    coeff(ctx, v, e)
            elif contains(strip(v), lambda x: is_call(x, SOLVE)) and strip(v).op == "bin" and root_alloc(e.base) is not None:
                outs = [r.a for c, r in ites(I.ret) if r.op == "tuple" and len(r.a) == 2]
                if any(root_alloc(e.base) in allocs(o[1]) and root_alloc(e.base) not in allocs(o[0]) for o in outs):
                    coeff(ctx, v, e)
    if not n:
        raise Undecided("coefficients")


# ---------------------------------------------------------------- the solver

def r_solver(ctx):
    f = SOLVE
    I = ctx.interp(f)
    M, y, gpu = P(f, "M"), P(f, "y"), P(f, "use_gpu")
    n = 0
    SHAPE = ("numpy.reshape", "numpy.squeeze", "cupy.reshape", "numpy.expand_dims", "cupy.squeeze")

    def core(t):
        """(root, row) of a value of the same numbers"""
        row = None
        while True:
            t = strip(t)
            if t.op == "call" and fname(t.a[0]) in SHAPE and cargs(t):
                t = cargs(t)[0]
            elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("reshape", "squeeze", "ravel", "get"):
                t = t.a[0].a[0]
            elif t.op == "sub":
                ks = t.a[1].a if t.a[1].op == "tuple" else (t.a[1],)
                rest = [x for x in ks if x.op != "slice" and x is not NONE]
                if len(rest) > 1 or rest and row is not None or rest and ks[0] is not rest[0]:
                    return t, row
                if any(x.op == "slice" and not all(z is NONE for z in x.a) for x in ks):
                    return t, row
                if rest:
                    row = rest[0]
                t = t.a[0]
            else:
                return t, row

    for e in effs(I, "call"):
        r = e.result
        if r.op != "call":
            continue
        nm = fname(r.a[0])
        if not nm.endswith(("linalg.solve", ".nnls", ".lsq_linear", "linalg.lstsq")):
            continue
        n += 1
        a = cargs(r)
        A, Ar = core(ckw(r, {"nnls": "A", "lsq_linear": "A"}.get(nm.split(".")[-1], "a"), 0))
        B, Br = core(ckw(r, "b", 1))
        for nmx, got, want in (("matrix", A, M), ("vector", B, y)):
            if got is want:
                ctx.ob("solver/" + nmx, True, e)
            elif got.op in ("param", "bin", "attr"):
                ctx.ob("solver/" + nmx, False, e, "%s is called with %s as the %s" % (nm.split(".")[-1], show(got)[:40], nmx))
            else:
                ctx.undecided.append((ctx.cur, "%s: %s" % (nmx, show(got)[:50])))
        if A is M and B is y:
            ctx.ob("solver/same redshift", Ar is Br, e, "matrix and vector of different redshifts")
        # where the solution goes
        x = None
        key = None
        for s in effs(I, "setitem"):
            for cs, v in ites(s.value):
                if contains(v, lambda q: q is r):
                    x, key, wh = v, s.key, s
        if x is None:
            for cs, v in ites(I.ret):
                if contains(v, lambda q: q is r):
                    x, wh = v, e
        if x is None:
            ctx.undecided.append((ctx.cur, "solution of " + nm))
            continue
        x, row = core_solution(x, r)
        kind = nm.split(".")[-1]
        if x == "other":
            ctx.undecided.append((ctx.cur, "solution of " + nm))
        else:
            good = {"nnls": ("[0]",), "lsq_linear": (".x",), "solve": ("",), "lstsq": ("[0]",)}[kind]
            ctx.ob("solver/solution", x in good, wh, "the result of %s is used as the solution: %s%s" % (kind, kind, x))
        if key is not None and Ar is not None:
            k = key.a[0] if key.op == "tuple" and key.a else key
            if k.op == "idx":
                ctx.ob("solver/own redshift", k is Ar, wh, "the solution is stored for another redshift")
    if not n:
        raise Undecided("solver")


def core_solution(t, r):
    """how the result of a solver is read: '', '[0]', '.x', 'other'"""
    how = ""
    while True:
        t = strip(t)
        if t is strip(r):
            return how, None
        if t.op == "call" and fname(t.a[0]).split(".")[-1] in ("reshape", "squeeze", "asarray", "array") and cargs(t):
            t = cargs(t)[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("reshape", "squeeze", "ravel", "get"):
            t = t.a[0].a[0]
        elif t.op == "sub" and is_const(t.a[1]) and isinstance(t.a[1].a[0], (int, str)):
            how = "[%s]" % t.a[1].a[0] + how
            t = t.a[0]
        elif t.op == "sub" and not any(x.op not in ("slice",) and x is not NONE and not is_const(x, 0) for x in (t.a[1].a if t.a[1].op == "tuple" else (t.a[1],))):
            t = t.a[0]
        elif t.op == "attr":
            how = "." + t.a[1] + how
            t = t.a[0]
        elif t.op in ("bin", "un"):
            return " " + t.a[0], None
        elif t.op == "call" and fname(t.a[0]).split(".")[-1] in ("abs", "absolute", "clip", "maximum", "flip", "sort"):
            return " " + fname(t.a[0]), None
        else:
            return "other", None


# ---------------------------------------------------------------- the data vectors

def r_data(ctx):
    n = 0
    for f, sp in ((SD, P(SD, "spectra")), ("redrock.targets.Target.gpu_spectral_data", None)):
        I = ctx.interp(f)
        for cs, r in ites(I.ret):
            if r.op != "tuple" or len(r.a) != 3:
                ctx.undecided.append((ctx.cur, "result of " + f))
                continue
            vs = [[v for c, v in ites(x)] for x in r.a]

            def vec(t):
                t = strip(t)
                if t.op == "call" and fname(t.a[0]).split(".")[-1] in ("concatenate", "hstack") and cargs(t):
                    c = strip(cargs(t)[0])
                    if c.op == "comp":
                        el = strip(c.a[1])
                        if el.op == "attr" and element(el.a[0]) is not None:
                            return el.a[1], c
                        return None, c
                return None, None
            for i, want in ((0, "ivar"), (1, "flux")):
                for v in vs[i]:
                    if v.op == "attr":
                        continue
                    nm, c = vec(v)
                    if nm is None:
                        if c is not None and strip(c.a[1]).op in ("bin", "call"):
                            ctx.ob("data/" + want, False, f, "the %s is computed: %s" % (want, show(c.a[1])[:60]))
                        else:
                            ctx.undecided.append((ctx.cur, want))
                        continue
                    n += 1
                    ctx.ob("data/" + want, nm == want, f, "%s is taken as the %s" % (nm, want))
                    ctx.ob("data/all spectra", c.a[2] is TRUE, f, "only spectra with %s give the %s" % (show(c.a[2])[-60:], want))
                    if isinstance(c.a[3], T) and c.a[3].op == "it":
                        s = strip(c.a[3].a[0])
                        same_order(ctx, "data/order", s, sp if sp is not None else (s if s.op == "attr" else mk("attr", P(f, "self"), "spectra")), f)
            for v in vs[2]:
                if v.op == "attr":
                    continue
                leafs = {}
                for i in (0, 1):
                    for x in vs[i]:
                        leafs[strip(x).id] = "wf"[i]
                ev = Eval(lambda t: atom(leafs[t.id], 1) if t.id in leafs else None)
                try:
                    g = normal(ev(v))
                except No as x:
                    ctx.undecided.append((ctx.cur, "weighted flux: %s" % x))
                    continue
                h = normal(mul(w(), fl()))
                ctx.ob("data/weighted flux", g == h, f, "" if g == h else "the weighted flux is not weight times flux: " + explain(g, h))
    if not n:
        raise Undecided("data vectors")


NAMES = ("weights", "flux", "wflux")


def r_sites(ctx):
    """weights, flux and weighted flux handed to a fit are those of the spectra handed to it"""
    n = 0
    for q in ("redrock.zscan.calc_zchi2", "redrock.fitz.fitz", "redrock.archetypes.Archetype.get_best_archetype", "redrock.archetypes.Archetype.nearest_neighbour_model", PER, BATCH, ONE):
        try:
            I = ctx.interp(q)
        except Undecided:
            raise
        for e in I.effects:
            if e.kind != "call" or not e.d.get("bound"):
                continue
            b = e.bound
            if not all(k in b for k in NAMES):
                continue
            callee = e.result
            sp = b.get("spectra")
            if sp is None and b.get("target") is not None:
                sp = mk("attr", strip(b["target"]), "spectra")
            sp = strip(sp) if sp is not None else None
            for gs in (True, False):
                lits = {P(q, "use_gpu"): gs}
                vals = [assume(b[k], lits) for k in NAMES]
                for alt in range(1):
                    for i, (k, v) in enumerate(zip(NAMES, vals)):
                        for cs, x in ites(strip(v)):
                            x = strip(x)
                            if x.op == "param":
                                if x.a[1] in NAMES:
                                    n += 1
                                    ctx.ob("sites/" + k, x.a[1] == k, e, "%s is passed as %s" % (x.a[1], k))
                                else:
                                    ctx.undecided.append((ctx.cur, "%s: %s" % (k, show(x))))
                                continue
                            if x.op == "sub" and is_const(x.a[1]):
                                c = strip(x.a[0])
                                j = x.a[1].a[0]
                                if c.op == "call" and fname(c.a[0]) == SD:
                                    s = strip(ckw(c, "spectra", 0))
                                elif c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "gpu_spectral_data":
                                    s = mk("attr", strip(c.a[0].a[0]), "spectra")
                                elif c.op == "call" and fname(c.a[0]).endswith("gpu_spectral_data"):
                                    a = ckw(c, "self", 0)
                                    s = mk("attr", strip(a), "spectra") if a is not None else None
                                else:
                                    ctx.undecided.append((ctx.cur, "%s: %s" % (k, show(x)[:50])))
                                    continue
                                n += 1
                                ctx.ob("sites/" + k, j in (i, i - 3), e, "the %s of the spectra is passed as %s" % (NAMES[j] if j in (0, 1, 2) else j, k))
                                if sp is not None and s is sp:
                                    ctx.ob("sites/spectra", True, e)
                                elif sp is not None and s is not None and deep_strip(s) is not deep_strip(sp):
                                    if s.op in ("attr", "param", "sub") and sp.op in ("attr", "param", "sub"):
                                        ctx.ob("sites/spectra", False, e, "the data are those of %s, the model that of %s" % (show(s)[-50:], show(sp)[-50:]))
                                    else:
                                        ctx.undecided.append((ctx.cur, "spectra"))
                                continue
                            if x.op == "attr" and x.a[1] in ("gpuweights", "gpuflux", "gpuwflux"):
                                n += 1
                                ctx.ob("sites/" + k, x.a[1] == "gpu" + k, e, "%s is passed as %s" % (x.a[1], k))
                                continue
                            if x.op == "bin":
                                ctx.ob("sites/" + k, k == "wflux" and x.a[0] == "*", e, "%s is changed on the way to the fit: %s" % (k, show(x)[:60]))
                                continue
                            ctx.undecided.append((ctx.cur, "%s: %s" % (k, show(x)[:50])))
    if not n:
        raise Undecided("fits")


# ---------------------------------------------------------------- the templates

def r_template(ctx):
    """every grid gets the template rebinned to it"""
    n = 0
    f = "redrock.rebin.rebin_template"
    I = ctx.interp(f)
    for e in effs(I, "setitem"):
        for cs, v in ites(e.value):
            v = strip(v)
            if not is_call(v, "redrock.rebin.trapz_rebin"):
                continue
            n += 1
            k = strip(e.key)
            for nm, dn in (("xnew", "dwave"), ("edges", "dedges")):
                x = ckw(v, nm)
                if x is None or x is NONE:
                    continue
                for c2, y in ites(strip(x)):
                    own = [z for z in subterms(y) if z.op == "sub" and strip(z.a[0]) in (P(f, "dwave"), P(f, "dedges"))]
                    tops = [z for z in own if not (strip(z).a[1].op == "idx")]
                    if not own and contains(y, lambda z: z.op == "sub" and is_const(z.a[1]) and contains(z.a[0], lambda q: q in (P(f, "dwave"), P(f, "dedges")))) and not contains(y, lambda z: z.op == "idx"):
                        ctx.ob("template/own grid", False, e, "every grid gets the template rebinned to one of them: " + show(y)[-60:])
                    elif not own:
                        ctx.undecided.append((ctx.cur, "grid " + show(y)[:40]))
                        continue
                    bad = [z for z in own if strip(z.a[1]) is not k and z is not k]
                    bad = [z for z in bad if not (z.a[1].op == "idx" and k is z)]
                    ctx.ob("template/own grid", not bad, e, "the template for one grid is rebinned to another: " + (show(bad[0])[-50:] if bad else ""))
            x, y = ckw(v, "x", 0), ckw(v, "y", 1)
            if x is not None and y is not None:
                x, y = strip(x), strip(y)
                if x.op == "attr" and y.op == "attr" and strip(x.a[0]) is strip(y.a[0]):
                    ctx.ob("template/wave and flux", (x.a[1], y.a[1]) in (("wave", "flux"), ("gpuwave", "gpuflux")), e, "the template is rebinned with %s as wavelengths and %s as flux" % (x.a[1], y.a[1]))
            z = ckw(v, "myz")
            if z is not None:
                z = strip(z)
                if z is P(f, "myz"):
                    ctx.ob("template/redshift", True, e)
                elif z.op in ("bin", "sub", "const"):
                    ctx.ob("template/redshift", False, e, "the template is rebinned at redshifts " + show(z)[:60])
                else:
                    ctx.undecided.append((ctx.cur, "redshifts " + show(z)[:50]))
    if not n:
        raise Undecided("rebinning of the template")
    # the grids are named by their own hash
    for q in ("redrock.fitz.fitz", "redrock.archetypes.Archetype.get_best_archetype", "redrock.targets.Target.eval_model", "redrock.targets.DistTargets.wavegrids"):
        try:
            I = ctx.interp(q)
        except Exception:
            continue
        seen = set()
        ts = [x for e in I.effects for x in (e.d.get("value"), e.d.get("result")) if isinstance(x, T)] + [I.ret]
        for t in ts:
            for x in subterms(t):
                if x.op == "comp" and x.a[0] == "dict" and x.id not in seen:
                    seen.add(x.id)
                    kv = x.a[1]
                    if kv.op not in ("tuple", "pair", "kv") or len(kv.a) != 2:
                        continue
                    named(ctx, kv.a[0], kv.a[1], q)
        for e in effs(I, "setitem"):
            if e.d.get("op") is None:
                named(ctx, e.key, e.value, e)


GRID = ("wave", "gpuwave", "gpuedges", "minedge", "maxedge")


def named(ctx, k, v, where):
    k = strip(k)
    if not (k.op == "attr" and k.a[1] == "wavehash"):
        return
    s = strip(k.a[0])
    for x in subterms(v):
        if x.op == "attr" and x.a[1] in GRID:
            ctx.ob("template/name of the grid", strip(x.a[0]) is s, where, "a grid is stored under the name of another: " + show(x)[-50:])


def run(ctx):
    ctx.rule("stack", "the model matrix stacks, over all spectra in their order, the spectrum's own resolution times the template on its own grid at the fitted redshift", r_stack)
    ctx.rule("normal", "in index normal form the solver gets T'WT (+ prior) and T'Wf", r_normal)
    ctx.rule("chi2", "in index normal form the chi2 is sum w (f - T z)^2 of the same fit", r_chi2)
    ctx.rule("coeff", "the coefficients returned are the solution of the same fit", r_coeff)
    ctx.rule("solver", "each algorithm is called with the matrix and the vector of one redshift and its solution is returned", r_solver)
    ctx.rule("data", "weights, flux and weighted flux are stacked over all spectra in their order", r_data)
    ctx.rule("sites", "every fit is called with the data of the spectra it fits", r_sites)
    ctx.rule("template", "each grid gets the template rebinned to that grid", r_template)
