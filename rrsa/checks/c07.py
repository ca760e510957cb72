"""C07: the GPU and CPU branches compute from the same inputs.

Every function with a GPU switch is evaluated twice, once with the switch on and once with it off.  The two sets of terms are
brought to a common form (CuPy and NumPy names identified, device copies dropped, data already kept on the GPU replaced by what
it was copied from) and then compared: the arguments of every kernel call, the conditions under which it happens, and the returned
value."""
from . import c13
from ..q import *
from ..kern import HINT, ZS, data_kind
from ..arith import peq, poly
from ..ctx import Undecided

ARCH = "redrock.archetypes.Archetype."
FITZ = "redrock.fitz.fitz"
REB = "redrock.rebin."
IGM = "redrock.igm."
GATTR = {"gpuwave": "wave", "gpuflux": "flux", "_gpulegendre": "_legendre"}
UNWRAP = ("numpy.asarray", "numpy.ascontiguousarray", "numpy.asnumpy", "numpy.int32", "numpy.int64")
# parameters that only say where arrays live, or that pass the same wavelength grid in another form
DEVICE = ("use_gpu",)


def spectral(tg):
    return mk("call", mk("fn", ZS + "spectral_data"), mk("kw", "spectra", mk("attr", tg, "spectra")))


def canon1(x):
    op = x.op
    if op == "alloc":
        return x.a[1]
    if op == "ext" and x.a[0].split(".")[0] == "cupy":
        return ext("numpy" + x.a[0][4:])
    if op == "attr":
        if x.a[1] in GATTR:
            return mk("attr", x.a[0], GATTR[x.a[1]])
        if x.a[1].startswith("gpu_") if isinstance(x.a[1], str) else False:
            return mk("attr", x.a[0], "#" + x.a[1][4:])
        return x
    if op == "mu" and isinstance(x.a[0], str) and x.a[0]:
        return rebuild("mu", [x.a[0].split("@")[0]] + list(x.a[1:]))
    if op == "try":
        return mk("try", 0)
    if op == "kw" and x.a[0] == "use_gpu":
        return mk("kw", "use_gpu", const("*"))
    if op == "tuple" and len(x.a) == 3:
        e, lo, hi = x.a
        if e.op == lo.op == hi.op == "attr" and e.a[1] == "gpuedges" and lo.a[1] == "minedge" and hi.a[1] == "maxedge" and e.a[0] is lo.a[0] is hi.a[0]:
            return mk("attr", e.a[0], "wave")
    if op == "store" and x.a[2].op == "sub" and x.a[2].a[0] is x.a[0] and x.a[2].a[1] is x.a[1]:
        return x.a[0]
    if op == "call":
        n = fname(x.a[0])
        if n == "redrock.targets.Target.gpu_spectral_data":
            return spectral(ckw(x, "self", 0))
        if n == REB + "rebin_template" or n.rsplit(".", 1)[-1] == "rebin_template_batch":
            d = ckw(x, "dedges")
            if d is not None and not is_const(d, None):
                return rebuild("call", [mk("kw", y.a[0], d if y.a[0] == "dwave" else NONE) if y.op == "kw" and y.a[0] in ("dwave", "dedges") else y
                                        for y in x.a])
        if n.endswith("Archetype.nearest_neighbour_model"):
            # the bin edges are only needed if the templates are not passed
            return rebuild("call", [mk("kw", "dedges", NONE) if y.op == "kw" and y.a[0] == "dedges" else y for y in x.a])
        if n in ("builtins.dict", "builtins.list") and len(x.a) == 2 and x.a[1].op == "comp":
            return x.a[1]
        if n in UNWRAP and len(x.a) >= 2 and x.a[1].op != "kw":
            return x.a[1]
        if x.a[0].op == "attr" and x.a[0].a[1] == "get" and len(x.a) == 1:
            return x.a[0].a[0]
    return x


class Mode(object):
    """one function evaluated with the GPU switch fixed"""

    def __init__(self, ctx, q, on, extra=None, assume=(), **kw):
        self.on = on
        self.memo = {}
        self.subst = {}
        self.more = None
        self.assumed = set(assume)
        a = {"use_gpu": const(on)}
        a.update(extra or {})
        self.I = ctx.interp(q, args=a, method_hint=HINT, assume=tuple(assume), **kw)

    def c1(self, x):
        if x in self.subst:
            return self.subst[x]
        x = canon1(x)
        if self.more is not None:
            x = self.more(x)
        return self.subst.get(x, x)

    def c(self, t):
        return rewrite(t, self.c1, self.memo)

    def rename(self, t, to):
        self.subst[t] = to
        self.memo = {}

    def calls(self):
        out = {}
        for e in effs(self.I, "call"):
            n = fname(e.fn)
            if e.d.get("bound") is None or e.inlined:
                continue
            out.setdefault(n, []).append(e)
        return out

    def args(self, e, skip=()):
        """canonical arguments; the wavelength grid is one argument, in whatever form it is passed"""
        b = {k: self.c(v) for k, v in e.bound.items() if k not in DEVICE and k not in skip}
        if "dwave" in b and "dedges" in b:
            d = b.pop("dedges")
            if not is_const(d, None):
                b["dwave"] = d
        return b


def pair(ctx, q, extra=None, assume_gpu=(), extra_gpu=None, extra_cpu=None, **kw):
    if q not in ctx.prog.funcs:
        raise Undecided("%s not found" % q)
    if "use_gpu" not in sum(ctx.prog.funcs[q].params()[:2], []):
        raise Undecided("%s has no GPU switch" % q)
    a, b = dict(extra or {}), dict(extra or {})
    a.update(extra_gpu or {})
    b.update(extra_cpu or {})
    return Mode(ctx, q, True, a, assume_gpu, **kw), Mode(ctx, q, False, b, **kw)


# ------------------------------------------------------------------ comparison
SHAPES = {"loop", "comp", "mu", "store", "it", "idx", "ite", "unk", "lambda"}
COMM = ("+", "*", "&", "|", "^")


def diff(a, b, out, seen, d=0):
    """smallest pairs of subterms in which a and b differ"""
    if a is b or (a.id, b.id) in seen:
        return
    seen.add((a.id, b.id))
    if a.op == b.op and a.op in ("bin", "and", "or") and (a.op != "bin" or a.a[0] == b.a[0] and a.a[0] in COMM):
        xs, ys = [x for x in a.a if isinstance(x, T)], [y for y in b.a if isinstance(y, T)]
        for x in list(xs):
            if x in ys:
                xs.remove(x)
                ys.remove(x)
        if len(xs) == len(ys):
            # pair operands of the same kind
            while xs:
                x = xs.pop(0)
                y = next((y for y in ys if y.op == x.op and len(y.a) == len(x.a) and (not x.a or isinstance(x.a[0], T) or x.a[0] == y.a[0])), ys[0])
                ys.remove(y)
                diff(x, y, out, seen, d + 1)
            return
        out.append((a, b))
        return
    if a.op == b.op and len(a.a) == len(b.a) and a.op != "ite" and d < 60:
        plain = [(x, y) for x, y in zip(a.a, b.a) if not (isinstance(x, T) and isinstance(y, T))]
        if all(x == y for x, y in plain):
            for x, y in zip(a.a, b.a):
                if isinstance(x, T):
                    diff(x, y, out, seen, d + 1)
            return
    out.append((a, b))


def tests(t, out=None):
    """atoms of the conditions at the top of t"""
    out = [] if out is None else out
    if t.op == "ite":
        for c in batoms(t.a[0]):
            if c not in out:
                out.append(c)
        tests(t.a[1], out)
        tests(t.a[2], out)
    return out


def same(a, b, depth=0):
    """True, False or None, with the differing parts"""
    if a is b:
        return True, None
    try:
        if peq(a, b):
            return True, None
    except Exception:
        pass
    ds = []
    diff(a, b, ds, set())
    und = None
    for x, y in ds:
        r, w = part(x, y, depth)
        if r is False:
            return r, w
        if r is None:
            und = w
    return (None, und) if und else (True, None)


def part(x, y, depth):
    try:
        if peq(x, y):
            return True, None
    except Exception:
        pass
    if "ite" in (x.op, y.op) and depth < 4:
        tx, ty = tests(x), tests(y)
        at = list(tx) + [c for c in ty if c not in tx]
        if len(at) > 6 or (set(tx) - set(ty) and set(ty) - set(tx)):
            return None, (x, y)
        und = None
        for m in range(2 ** len(at)):
            l = {c: bool(m >> i & 1) for i, c in enumerate(at)}
            u, v = assume(x, l), assume(y, l)
            if u.op == v.op == "ite" and u is x and v is y:
                return None, (x, y)
            r, w = same(u, v, depth + 1)
            if r is False:
                return r, w
            if r is None:
                und = w
        return (None, und) if und else (True, None)
    for u, v in ((x, y), (y, x)):
        if u.op in ("loop", "mu") and v.op not in ("loop", "mu"):
            # updated in the loop of one branch only
            m = u.a[0] if u.op == "loop" else u
            if m.op == "mu" and same(m.a[2], v, depth + 1)[0] and depth < 4:
                return False, (x, y)
    if x.op not in SHAPES and y.op not in SHAPES or x.op == "const" or y.op == "const":
        return False, (x, y)
    if x.op == y.op == "idx":
        return False, (x, y)
    return None, (x, y)


def judge(ctx, name, a, b, where, what):
    r, d = same(a, b)
    if r is None:
        ctx.undecided.append((ctx.cur, "%s: %s against %s" % (name, show(d[0])[:80], show(d[1])[:80])))
        return
    ctx.ob(name, r, where, "%s differs between the GPU and the CPU branch: %s on the GPU, %s on the CPU" % (
        what, show(d[0])[:140] if d else "", show(d[1])[:140] if d else ""))


def fits(a, b):
    """number of equal arguments"""
    return sum(1 for k in a if k in b and same(a[k], b[k])[0])


def align(G, P, gs, ps, skip):
    """pair the calls of one kernel in the two modes"""
    out = []
    gs = [(i, x, G.args(x, skip)) for i, x in enumerate(gs)]
    ps = [(i, x, P.args(x, skip)) for i, x in enumerate(ps)]
    while gs and ps:
        best = max(((fits(x[2], y[2]), -abs(x[0] - y[0]), -x[0], x, y) for x in gs for y in ps), key=lambda z: z[:3])
        out.append(best[3:])
        gs.remove(best[3])
        ps.remove(best[4])
    return out, [x[1] for x in gs], [x[1] for x in ps]


def conds(M, e):
    out = set()
    for g in flat_guards(e):
        if g.op not in ("exc", "try") and g not in M.assumed:
            c = M.c(g)
            if not says_empty(mknot(c)):   # a share without any work may be left out
                out.add(c)
    return out


def sites(ctx, q, kernels, skip=None, modes=None, **kw):
    """arguments and conditions of the kernel calls of q, GPU against CPU"""
    G, P = modes or pair(ctx, q, **kw)
    short = q.rsplit(".", 1)[-1]
    if short == "__init__":
        short = q.rsplit(".", 2)[-2]
    cg, cp_ = G.calls(), P.calls()
    for n in sorted(set(cg) | set(cp_)):
        k = n.rsplit(".", 1)[-1]
        if k not in kernels:
            continue
        sk = (skip or {}).get(k, ())
        prs, lg, lp = align(G, P, cg.get(n, []), cp_.get(n, []), sk)
        for side, l in (("GPU", lg), ("CPU", lp)):
            for e in l:
                if prs and any(says_empty(g) for g in flat_guards(e)):
                    continue    # a share without any work
                ctx.ob("%s->%s/one-branch-only" % (short, k), False, e, "%s is only called on the %s branch" % (k, side))
        for i, (x, y) in enumerate(prs):
            eg, ep = x[1], y[1]
            nm = "%s->%s%s" % (short, k, "#%d" % (i + 1) if len(prs) > 1 else "")
            for a in sorted(set(x[2]) | set(y[2])):
                va, vb = x[2].get(a), y[2].get(a)
                if va is None or vb is None:
                    ctx.ob("%s/%s" % (nm, a), False, eg, "%s is passed on one branch only" % a)
                    continue
                judge(ctx, "%s/%s" % (nm, a), va, vb, eg, "argument %s of %s" % (a, k))
            x, y = conds(G, eg), conds(P, ep)
            ok = x == y
            if not ok:
                try:
                    ok = b_equiv(mkand(*x) if x else TRUE, mkand(*y) if y else TRUE)
                except Exception:
                    ok = False
            if ok:
                ctx.ob(nm + "/conditions", True, eg)
            else:
                ctx.undecided.append((ctx.cur, "%s: conditions differ: %s" % (nm, "; ".join(show(z)[:80] for z in x ^ y))))
    return G, P


def returned(ctx, q, G, P, **kw):
    judge(ctx, q.rsplit(".", 1)[-1] + "/returned", G.c(G.I.ret), P.c(P.I.ret), effs(G.I, "return")[-1] if effs(G.I, "return") else q, "the returned value")


KERN = ("rebin_template", "rebin_template_batch", "transmission_Lyman", "calc_zchi2_batch", "calc_negOII_penalty", "minfit",
        "per_camera_coeff_with_least_square_batch", "trapz_rebin", "solve_matrices", "get_best_archetype", "nearest_neighbour_model",
        "fitz", "calc_zchi2", "get_dv", "DistTemplatePiece")


def r_fitz(ctx):
    G, P = sites(ctx, FITZ, KERN)
    returned(ctx, FITZ, G, P)


def arch_args(ctx):
    """what fitz passes to get_best_archetype, in terms of the parameters of that function"""
    q = ARCH + "get_best_archetype"
    M = Mode(ctx, FITZ, False)
    es = M.calls().get(q, [])
    if not es:
        raise Undecided("fitz does not call get_best_archetype")
    tgt = es[0].bound.get("target")
    to = mk("param", q, "target")
    out = {}
    for k in ("weights", "flux", "wflux", "dwave"):
        v = es[0].bound.get(k)
        if v is None:
            raise Undecided("get_best_archetype has no parameter " + k)
        out[k] = rewrite(M.c(v), lambda x: to if x is tgt else x, {})
        if params_in(out[k]) - {"target"}:
            raise Undecided("%s passed to get_best_archetype is %s" % (k, show(out[k])[:100]))
    return out


def r_best(ctx):
    q = ARCH + "get_best_archetype"
    G, P = sites(ctx, q, KERN, skip={"nearest_neighbour_model": ("dedges",)}, extra=arch_args(ctx))
    returned(ctx, q, G, P)


def r_rebin_template(ctx):
    q = REB + "rebin_template"
    t = mk("param", q, "template")
    g = mknot(mkcmp("is", mk("attr", t, "gpuwave"), NONE))
    G, P = sites(ctx, q, KERN, assume_gpu=(g,))
    returned(ctx, q, G, P)


def r_dist(ctx):
    q = "redrock.templates.DistTemplate.__init__"
    G, P = pair(ctx, q, extra_gpu={"gpu_mode": TRUE}, extra_cpu={"gpu_mode": FALSE})
    z = mk("sym", "local redshifts")
    for M in (G, P):
        es = M.calls().get(REB + "rebin_template", [])
        if len(es) != 1:
            raise Undecided("DistTemplate does not rebin in one call")
        M.rename(M.c(es[0].bound["myz"]), z)
    sites(ctx, q, KERN, modes=(G, P))


# ------------------------------------------------------------------ batched linear algebra
def full_slice(k):
    return k.op == "slice" and all(is_const(x, None) for x in k.a)


def transpose(x):
    return x.a[1] if is_call(x, "T*") else mk("call", ext("T*"), x)


def batched(idx):
    """common form of the matrix algebra: one redshift at a time (index idx) or all redshifts at once"""
    def f(x):
        if x.op == "sub":
            k = x.a[1]
            ks = list(k.a) if k.op == "tuple" else [k]
            if any(q is idx for q in ks) and all(q is idx or full_slice(q) for q in ks) and ks[0] is idx:
                return x.a[0]
            if all(full_slice(q) or is_const(q, None) for q in ks) and len(ks) > 1:
                return x.a[0]
            return x
        if x.op == "attr" and x.a[1] == "T":
            return transpose(x.a[0])
        if x.op != "call":
            return x
        n = fname(x.a[0])
        if n in (ZS + "dot_product_sparse_one", ZS + "batch_dot_product_sparse"):
            return mk("call", ext("projected"), ckw(x, "spectra"), ckw(x, "tdata"))
        if n == ZS + "calc_batch_dot_product_3d3d_gpu":
            t = ckw(x, "transpose_a")
            a = ckw(x, "a")
            if not is_const(t):
                return x
            return mkbin("@", transpose(a) if t.a[0] else a, ckw(x, "b"))
        if n == ZS + "calc_batch_dot_product_3d2d":
            return mkbin("@", ckw(x, "Tbs"), ckw(x, "zc"))
        if n == "numpy.transpose" and len(x.a) == 2:
            return transpose(x.a[1])
        if n.rsplit(".", 1)[-1] == "swapaxes":
            a = [x.a[0].a[0]] + list(x.a[1:]) if x.a[0].op == "attr" else list(x.a[1:])
            if len(a) == 3 and sorted(cval(y) for y in a[1:] if is_const(y)) in ([-2, -1], [1, 2]):
                return transpose(a[0])
        if n in ("numpy.dot", "numpy.matmul") and len(x.a) == 3:
            return mkbin("@", x.a[1], x.a[2])
        if n == "numpy.multiply" and len(x.a) == 3:
            return mkbin("*", x.a[1], x.a[2])
        return x
    return f


def no_exc(t):
    return assume(t, {x: False for x in subterms(t) if x.op == "exc"})


def rowvalue(t):
    """(value of one row, row index) of an array filled row by row; (value, None) if filled at once"""
    t = strip(t)
    if t.op == "loop":
        m, b = t.a[0], strip(t.a[1])
        if b.op == "store" and strip(b.a[0]) is strip(m):
            k = b.a[1]
            k0 = k.a[0] if k.op == "tuple" else k
            if k0.op == "idx" and (k.op != "tuple" or all(full_slice(q) for q in k.a[1:])):
                return b.a[2], k0
        raise Undecided("row of " + show(t)[:80])
    if t.op == "store" and full_slice(t.a[1]):
        return t.a[2], None
    if t.op == "comp" and t.a[0] == "list":
        it = t.a[3]
        return t.a[1], mk("idx", it.a[0], it.a[1])
    return t, None


def r_batch(ctx):
    q = ZS + "calc_zchi2_batch"
    G, P = pair(ctx, q)
    w = mk("param", q, "weights")
    rows = {}
    for M in (G, P):
        r = no_exc(M.c(M.I.ret))
        zero = {x: False for x in subterms(r) if x.op == "cmp" and has(x, w) and x.a[0] == "==" and any(is_const(y, 0) for y in x.a[1:])}
        r = strip(assume(r, zero))
        if r.op != "tuple" or len(r.a) != 2:
            raise Undecided("calc_zchi2_batch returns " + show(r)[:80])
        vals = []
        for x in r.a:
            v, i = rowvalue(x)
            vals.append(rewrite(v, batched(i), {}))
        rows[M.on] = vals
    e = effs(G.I, "return")[-1]
    for i, what in ((1, "coefficients"), (0, "chi2")):
        judge(ctx, "calc_zchi2_batch/" + what, rows[True][i], rows[False][i], e, "the " + what + " formula")


def r_solve(ctx):
    q = ZS + "solve_matrices"
    n = 0
    for alg in ("PCA", "NMF", "NNLS", "BVLS"):
        G, P = pair(ctx, q, extra={"solve_algorithm": const(alg)})
        v = []
        for M in (G, P):
            r = no_exc(M.c(M.I.ret))
            # which branch a literal name takes
            r = assume(r, {x: any(y is x.a[1] for y in x.a[2].a) for x in subterms(r) if x.op == "cmp" and x.a[0] == "in" and is_const(x.a[1])
                           and x.a[2].op in ("tuple", "list", "set") and all(is_const(y) for y in x.a[2].a)})
            x, i = rowvalue(r)
            v.append(rewrite(x, batched(i), {}))
        es = effs(G.I, "return")
        judge(ctx, "solve_matrices/" + alg, v[0], v[1], es[-1] if es else q, "the %s solution" % alg)


def r_percamera(ctx):
    q = ZS + "per_camera_coeff_with_least_square_batch"
    G, P = sites(ctx, q, KERN, skip={"calc_zchi2_batch": ("nz", "tdata")})
    maps = {}
    tp = mk("param", q, "tdata")
    for M in (G, P):
        out = []
        for e in effs(M.I, "setitem"):
            k, v = M.c(e.key), M.c(e.value)
            if k.op != "tuple" or v.op != "sub" or v.a[1].op != "tuple" or not has(v.a[0], tp):
                continue
            d, s = k.a[-1], v.a[1].a[-1]
            out.append((M.c(e.base), span(d), span(s), e))
        maps[M.on] = out
    e = effs(G.I, "return")[-1]
    if not maps[True] or not maps[False] or any(a is None or b is None for m in maps.values() for _, a, b, _ in m):
        raise Undecided("columns of the per-camera templates")
    g, p = [[(a, b) for _, a, b, _ in maps[k]] for k in (True, False)]
    n = len(g)
    for a, b, e in [(x[1], x[2], x[3]) for x in maps[True]]:
        hit = [y for y in p if peq(y[0][0], a[0]) and same_end(y[0][1], a[1])]
        if not hit:
            ctx.ob("per-camera/columns", False, e, "columns from %s are filled on the GPU branch only" % show(a[0]))
            continue
        ctx.ob("per-camera/columns", any(peq(y[1][0], b[0]) and same_end(y[1][1], b[1]) for y in hit), e,
               "columns from %s are copied from columns from %s on the GPU, from %s on the CPU" % (show(a[0]), show(b[0]), show(hit[0][1][0])))
    for y in p:
        ctx.ob("per-camera/columns-cpu", any(peq(y[0][0], a[0]) and same_end(y[0][1], a[1]) for a, b in g), e,
               "columns from %s are filled on the CPU branch only" % show(y[0][0]))


def same_end(a, b):
    return a is None or b is None or peq(a, b)


def span(k):
    """[start, end) of a column slice, or of an index running over a range"""
    if k.op == "slice" and is_const(k.a[2], None):
        return (const(0) if is_const(k.a[0], None) else k.a[0], None if is_const(k.a[1], None) else k.a[1])
    ix = [x for x in subterms(k) if x.op == "idx" and is_range(x.a[0])]
    if len(ix) != 1:
        return None
    r = rargs(ix[0].a[0])
    if len(r) == 3 and not is_const(r[2], 1):
        return None
    lo, hi = r[:2] if len(r) > 1 else (const(0), r[0])
    f = lambda v: rewrite(k, lambda x: v if x is ix[0] else x, {})
    return f(lo), f(hi)


def one(ctx, M, n, pred, what):
    es = [e for e in M.calls().get(n, []) if pred(e)]
    if len(es) != 1:
        raise Undecided("%d calls of %s %s" % (len(es), n, what))
    return es[0]


def r_archetype_rebin(ctx):
    q = ARCH + "rebin_template_batch"
    G, P = pair(ctx, q, extra={"trapz": TRUE})
    T_ = REB + "trapz_rebin"
    eg = one(ctx, G, T_, lambda e: not is_const(e.bound["edges"], None), "with bin edges on the GPU")
    ep = one(ctx, P, T_, lambda e: True, "on the CPU")
    dd, dw, z = (mk("param", q, x) for x in ("dedges", "dwave", "z"))
    me = mk("param", q, "self")

    def settle(t):
        t = G.c(t)
        return assume(t, {x: True for x in subterms(t) if x.op == "cmp" and x.a[0] in ("is", "==") and any(is_call(y, "type") for y in x.a[1:])}
                      | {x: True for x in subterms(t) if is_call(x, "isinstance")})
    b = {k: settle(v) for k, v in eg.bound.items()}
    c = {k: P.c(v) for k, v in ep.bound.items()}
    nm = "rebin_template_batch->trapz_rebin/"
    judge(ctx, nm + "y", b["y"], c["y"], eg, "the flux")
    zs = strip(b["myz"])
    if zs.op == "list" and len(zs.a) == 1:
        zs = zs.a[0]
    elif zs.op == "const":
        zs = const(0) if zs.a[0] is None else zs
    one_ = const(1)
    zc = c["myz"]
    if not is_const(zc, None):
        raise Undecided("redshift argument on the CPU")
    judge(ctx, nm + "x", mkbin("*", b["x"], mkbin("+", one_, zs)), c["x"], eg, "the redshifted wavelength grid")
    for k, at in (("xmin", "minwave"), ("xmax", "maxwave")):
        if not is_const(b[k], None):
            judge(ctx, nm + k, b[k], mkbin("*", mk("attr", me, at), mkbin("+", one_, z)), eg, "the end of the redshifted grid (%s)" % k)
    ed = b["edges"]
    if ed.op == "sub" and is_const(ed.a[1], 0) and ed.a[0].op == "sub" and ed.a[0].a[0] is dd:
        el = ed.a[0]
        for k, i in (("edge_min", 1), ("edge_max", 2)):
            ctx.ob(nm + k, is_const(b[k], None) or b[k] is mksub(el, const(i)), eg, "%s is %s" % (k, show(b[k])[:100]))
        xn = c["xnew"]
        ctx.ob(nm + "grid", xn.op == "sub" and xn.a[0] is dw, ep, "the output grid on the CPU is " + show(xn)[:100])
    else:
        raise Undecided("bin edges " + show(ed)[:80])


def r_trapz(ctx):
    q = REB + "trapz_rebin"
    G, P = pair(ctx, q)
    gk, pk = REB + "_trapz_rebin_batch_gpu", REB + "_trapz_rebin_batch"
    eg, ep = one(ctx, G, gk, lambda e: True, ""), one(ctx, P, pk, lambda e: True, "")
    for k in ("x", "y", "edges", "myz"):
        if k not in eg.bound or k not in ep.bound:
            raise Undecided("parameter %s of the rebinning kernels" % k)
        judge(ctx, "trapz_rebin/" + k, G.c(eg.bound[k]), P.c(ep.bound[k]), eg, "argument %s of the kernel" % k)
    # the same range check comes before both
    rg, rp = effs(G.I, "raise"), effs(P.I, "raise")
    cg = {frozenset(conds(G, e)) for e in rg}
    cp_ = {frozenset(conds(P, e)) for e in rp}
    if rg and rp:
        ctx.ob("trapz_rebin/range-check", cg == cp_, rg[-1], "the range check differs between GPU and CPU: " +
               "; ".join(show(x)[:100] for s in cg ^ cp_ for x in s)[:300])
    else:
        ctx.ob("trapz_rebin/range-check", bool(rg) == bool(rp), eg, "only one mode checks that the bins are inside the template")


def stored_attrs(ctx, q):
    I = ctx.interp(q)
    out = {}
    M = Mode.__new__(Mode)
    M.memo, M.subst, M.more = {}, {}, None
    for e in effs(I, "setattr"):
        out[e.attr] = M.c(e.value)
    return out


def r_igm(ctx):
    cp_q = IGM + "Inoue14.copy_data_to_gpu"
    me = mk("param", cp_q, "self")
    at = stored_attrs(ctx, cp_q) if cp_q in ctx.prog.funcs else {}
    n = 0
    for q in sorted(ctx.prog.funcs):
        if not q.startswith(IGM) or "use_gpu" not in sum(ctx.prog.funcs[q].params()[:2], []) or q not in ctx.KNOWN:
            continue
        G, P = pair(ctx, q)
        s = mk("param", q, "self")
        for a, v in at.items():
            if a.startswith("gpu_"):
                G.rename(mk("attr", s, "#" + a[4:]), rewrite(v, lambda x: s if x is me else x, {}))
        returned(ctx, q, G, P)
        n += 1
    if n == 0:
        raise Undecided("no transmission function with a GPU switch")


def r_legendre(ctx):
    q = "redrock.targets.Target.legendre"
    G, P = pair(ctx, q)

    def ident(x):
        # {k: X[k] for k in X} is a copy of X
        if x.op == "comp" and x.a[0] == "dict" and is_const(x.a[2], True) and x.a[1].op == "tuple":
            k, v = x.a[1].a
            it = x.a[3].a[0]
            if v.op == "sub" and v.a[0] is it and v.a[1] is k:
                return it
        return x
    G.more = ident
    returned(ctx, q, G, P)
    me = mk("param", q, "self")
    host = [G.c(mk("attr", me, "_legendre"))] + [G.c(e.value) for e in effs(G.I, "setattr") if e.attr == "_legendre"]
    for e in effs(G.I, "setattr"):
        if e.attr == "_gpulegendre" and not is_const(e.value, None):
            v = G.c(e.value)
            ctx.ob("legendre/copy", any(same(v, h)[0] for h in host), e, "the polynomials on the GPU must be a copy of those on the CPU, are " + show(v)[:160])
    # a new set of polynomials replaces the copy on the GPU as well
    for M in (G, P):
        st = [e for e in effs(M.I, "setattr") if e.attr in ("_legendre", "_gpulegendre")]
        for e in st:
            if e.attr != "_legendre" or is_const(e.value, None):
                continue
            later = [x for x in st if x.attr == "_gpulegendre" and set(flat_guards(x)) <= set(flat_guards(e))]
            ctx.ob("legendre/gpu-copy-%s" % ("gpu" if M.on else "cpu"), bool(later), e,
                   "new polynomials are stored but the copy on the GPU still holds those of the previous degree")


GSRC = {"gpuwave": "wave", "_gpuwave": "wave", "gpuflux": "flux", "_gpuflux": "flux"}


def r_copies(ctx):
    """what is kept on the GPU is a copy of the host array of the same object"""
    import ast
    n = 0
    qs = ctx.entries(lambda f: any(isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store) and (x.attr in GSRC or x.attr == "_gpuedges")
                                   for x in ast.walk(f)))
    for q in qs:
        I = ctx.interp(q)
        M = Mode.__new__(Mode)
        M.memo, M.subst, M.more = {}, {}, None
        st = effs(I, "setattr")
        for e in st:
            v = M.c(e.value)
            if e.attr in GSRC:
                if is_const(v, None) or data_kind(e.value):
                    continue  # the data of a target: see C13
                n += 1
                ctx.ob("%s/%s" % (q.rsplit(".", 1)[-1], e.attr), v is mk("attr", M.c(e.base), GSRC[e.attr]), e,
                       "%s must be a copy of %s of the same object, is %s" % (e.attr, GSRC[e.attr], show(v)[:120]))
            elif e.attr == "_gpuedges" and not is_const(v, None):
                n += 1
                w = mk("attr", M.c(e.base), "wave")
                ok = v.op == "call" and fname(v.a[0]) == REB + "centers2edges" and ckw(v, "centers", 0) is w
                ctx.ob("%s/%s" % (q.rsplit(".", 1)[-1], e.attr), ok, e, "the bin edges on the GPU are " + show(v)[:120])
                for a, i in (("minedge", 0), ("maxedge", -1)):
                    m = [x for x in st if x.attr == a and not is_const(x.value, None) and x.base is e.base]
                    ok = bool(m) and all(M.c(x.value) is mksub(v, const(i)) for x in m)
                    ctx.ob("%s/%s" % (q.rsplit(".", 1)[-1], a), ok, m[0] if m else e, "%s must be edge %d of the bins, is %s" % (
                        a, i, show(M.c(m[0].value))[:100] if m else "never set"))
            # single precision on one side only
            if e.attr.startswith("gpu") or e.attr.startswith("_gpu"):
                low = narrow(e.value)
                if low:
                    ctx.ob("%s/precision" % q.rsplit(".", 1)[-1], False, e, "%s is kept on the GPU as %s" % (e.attr, low))
    if n == 0:
        raise Undecided("nothing is kept on the GPU")


def narrow(t):
    """an array made with less than double precision"""
    for x in subterms(t):
        if x.op != "call":
            continue
        ds = [ckw(x, "dtype")] + ([cargs(x)[-1]] if cargs(x) and (fname(x.a[0]) or "").endswith("astype") or x.a[0].op == "attr" and x.a[0].a[1] == "astype" and cargs(x) else [])
        for d in ds:
            if d is None:
                continue
            nm = str(d.a[0]) if is_const(d) else (fname(d) or "")
            if nm.rsplit(".", 1)[-1] in ("float32", "float16", "half", "single", "f4", "f2", "int32", "int64", "int"):
                return nm
    return None


def r_device(ctx):
    """a kernel told to run on the GPU gets GPU data and the other way round"""
    ad = arch_args(ctx)
    n = 0
    for q, extra in ((FITZ, {}), (ARCH + "get_best_archetype", ad), (ZS + "calc_zchi2", {}), (ARCH + "nearest_neighbour_model", {})):
        for M in pair(ctx, q, extra=extra):
            for nm, es in M.calls().items():
                for e in es:
                    b = e.bound
                    if "use_gpu" not in b or "weights" not in b or not is_const(b["use_gpu"]):
                        continue
                    k = nm.rsplit(".", 1)[-1]
                    if k in ("get_best_archetype", "nearest_neighbour_model"):
                        continue
                    for d in ("weights", "flux", "wflux"):
                        src = strip(b[d])
                        on = contains(src, lambda x: is_call(x, "gpu_spectral_data"))
                        if not on and not contains(src, lambda x: is_call(x, "spectral_data") or x.op == "param"):
                            continue
                        n += 1
                        ctx.ob("%s->%s/%s-on-%s" % (q.rsplit(".", 1)[-1], k, d, "gpu" if M.on else "cpu"), on == bool(cval(b["use_gpu"])), e,
                               "%s runs on the %s but %s is %s" % (k, "GPU" if cval(b["use_gpu"]) else "CPU", d, "a GPU array" if on else "a host array"))
    if n == 0:
        raise Undecided("no kernel call with data")


def run(ctx):
    ctx.rule("refinement", "fitz evaluated with and without GPU gives the same kernel arguments, conditions and result", r_fitz)
    ctx.rule("best-archetype", "get_best_archetype with and without GPU: same kernel arguments, conditions and result", r_best)
    ctx.rule("nearest", "nearest_neighbour_model with and without GPU: same kernel arguments and conditions", sites, ARCH + "nearest_neighbour_model", KERN)
    ctx.rule("per-camera", "the per-camera fit passes the same bounds, prior, data and template columns in both modes", r_percamera)
    ctx.rule("scan", "the coarse scan passes the same data, templates and algorithm in both modes", sites, ZS + "calc_zchi2", KERN)
    ctx.rule("normal-equations", "coefficients and chi2 of the batch are the same formula in both modes", r_batch)
    ctx.rule("solver", "each algorithm solves the same system with the same bounds in both modes", r_solve)
    ctx.rule("rebin", "rebin_template passes the same grid, range and template in both modes", r_rebin_template)
    ctx.rule("archetype-rebin", "archetypes are rebinned from the same redshifted grid in both modes", r_archetype_rebin)
    ctx.rule("rebin-kernel", "trapz_rebin checks and passes the same grid in both modes", r_trapz)
    ctx.rule("templates", "the distributed templates use the same model and kernels in both modes", r_dist)
    ctx.rule("transmission", "the Lyman transmission is the same formula in both modes", r_igm)
    ctx.rule("legendre", "the Legendre polynomials on the GPU are a copy of those on the CPU", r_legendre)
    ctx.rule("copies", "wavelengths, fluxes and bin edges kept on the GPU are copies of the host arrays", r_copies)
    ctx.rule("data", "the data kept on the GPU are those the CPU fits: ivar, flux and ivar*flux of the same spectra, in their order", lambda c: c13.r_spectral_data(c))
    ctx.rule("device", "GPU kernels get GPU arrays, CPU kernels host arrays", r_device)
