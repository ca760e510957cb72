"""C13: masked pixels have no influence."""
from ..q import *
from ..kern import *


def reduction_rule(ctx, qual, short):
    I = batch_interp(ctx, short)
    ax = KAxes(I, qual)
    red, und = reductions(I, ax)
    n = 0
    for t, e, c, d in red:
        if "p" not in c:
            continue
        n += 1
        w = e.where if e is not None else short
        ctx.ob("%s/pixel-sum/%s" % (short, "unweighted" if d == 0 else "weight-degree-%s" % d), d == 1, w,
               "sum over pixels of %s: inverse variance enters as a factor %s times, must be exactly once" % (show(t)[:140], d))
    for t, e, why in und:
        if contains(t, lambda y: y.op == "param" and y.a[1] in DATA):
            ctx.undecided.append((ctx.cur, "%s: %s" % (short, why)))
    if n == 0 and not und:
        ctx.ob("%s/pixel-sum/none" % short, False, short, "no sum over pixels weighted by the inverse variance was found")


def r_reductions(ctx):
    for short in ("calc_zchi2_batch", "_zchi2_one"):
        if ZS + short in ctx.prog.funcs:
            reduction_rule(ctx, ZS + short, short)


def r_spectral_data(ctx):
    I = ctx.interp(ZS + "spectral_data")
    check_triple(ctx, I, "spectral_data", mk("param", ZS + "spectral_data", "spectra"))
    q = "redrock.targets.Target.gpu_spectral_data"
    I = ctx.interp(q)
    s = mk("param", q, "self")
    attr = mk("attr", s, "gpuweights")
    r = assume(I.ret, {mkcmp("is", attr, NONE): True})
    check_triple(ctx, I, "gpu_spectral_data", mk("attr", s, "spectra"), r)
    r2 = assume(I.ret, {mkcmp("is", attr, NONE): False})
    r2 = strip(r2)
    # cached values are what was stored under the same attribute
    st = {e.attr: e for e in effs(I, "setattr") if e.base is s}
    if r2.op == "tuple" and len(r2.a) == 3:
        for i, d in enumerate(DATA):
            alts = [strip(x) for c, x in ites(r2.a[i])]
            x = ([x for x in alts if x.op == "attr" and strip(x.a[0]) is s] or alts)[0]
            if len(alts) > 1:
                for y in alts:
                    if y is not x:
                        ctx.ob("gpu_spectral_data/cache/%s" % d, (data_kind(y) or (None,))[0] == d, I.effects[-1], "item %d may be %s" % (i, show(y)[:80]))
            v = st.get(x.a[1]) if x.op == "attr" else None
            ok = v is not None and (data_kind(v.value) or (None,))[0] == d
            ctx.ob("gpu_spectral_data/cache/%s" % d, ok, v or I.effects[-1], "item %d of the cached triple is %s, stored as %s" % (
                i, show(x), show(v.value)[:80] if v is not None else "nothing"))


def check_triple(ctx, I, name, src, ret=None):
    r = strip(ret if ret is not None else I.ret)
    e = effs(I, "return")[-1]
    if not ctx.ob(name + "/triple", r.op == "tuple" and len(r.a) == 3, e, "must return (weights, flux, wflux), returns " + show(r)[:120]):
        return
    for i, d in enumerate(DATA):
        k = data_kind(r.a[i])
        ctx.ob("%s/%s" % (name, d), k is not None and k[0] == d and strip(k[1]) is src, e,
               "item %d must be exactly the %s over all spectra of the target, is %s" % (
                   i, {"weights": "inverse variances", "flux": "fluxes", "wflux": "product of inverse variance and flux"}[d],
                   show(r.a[i])[:160]))


def r_callsites(ctx):
    for q in CALLERS:
        if q not in ctx.prog.funcs:
            continue
        I = caller(ctx, q)
        for e in effs(I, "call"):
            if e.d.get("bound") is None or e.inlined or fname(e.fn) not in KERNELS:
                continue
            kn = fname(e.fn).rsplit(".", 1)[-1]
            srcs = []
            for d in DATA:
                if d not in e.bound:
                    continue
                k = data_kind(e.bound[d])
                srcs.append(k[1] if k else None)
                ctx.ob("%s->%s/%s" % (q.rsplit(".", 1)[-1], kn, d), k is not None and k[0] == d, e,
                       "parameter %s receives %s" % (d, show(e.bound[d])[:120]))
            if all(s is not None for s in srcs):
                ctx.ob("%s->%s/same-source" % (q.rsplit(".", 1)[-1], kn), len({s.id for s in srcs}) == 1, e,
                       "weights, flux and wflux come from different spectra")


def r_npixels(ctx):
    I = caller(ctx, "redrock.fitz.fitz")
    n = 0
    for e in effs(I, "setitem", "setattr"):
        if e.kind == "setitem" and is_const(e.key, "npixels"):
            v = as_aug(e)[1]
            if v.op == "const" and v.a[0] == 0:
                continue
            n += 1
            ok = True
            cmps = [x for x in subterms(v, stop=lambda y: y.op in ("mu", "idx", "it")) if x.op == "cmp" and x.a[0] in ("<", "!=", "<=", "==")]
            good = [x for x in cmps if count_ok(x)]
            cnz = [x for x in subterms(v) if is_call(x, "count_nonzero") and ivarlike(cargs(x)[0])]
            ok = (bool(good) and len(good) == len(cmps)) or (bool(cnz) and not cmps)
            ctx.ob("fitz/npixels", ok, e, "pixel count must count ivar > 0 only, counts " + show(v)[:120])
    if n == 0:
        d = [x for e in effs(I, "return", "append") for x in subterms(e.value) if x.op == "dict"]
        vals = [x.a[i + 1] for x in d for i in range(0, len(x.a), 2) if is_const(x.a[i], "npixels")]
        for v in vals:
            cm = [x for x in subterms(v) if x.op == "cmp"]
            if not cm:
                continue
            n += 1
            ctx.ob("fitz/npixels", any(count_ok(x) for x in cm), "fitz", "pixel count must count ivar > 0 only: " + show(v)[:120])
    if n == 0:
        ctx.ob("fitz/npixels", False, "fitz", "no pixel count of unmasked pixels found")


def ivarlike(t):
    t = strip(t)
    if t.op == "attr" and t.a[1] == "ivar":
        return True
    k = data_kind(t)
    return bool(k) and k[0] == "weights"


def count_ok(c):
    op, l, r = c.a
    if op == "<":
        return l.op == "const" and l.a[0] == 0 and ivarlike(r)
    if op == "!=":
        return any(x.op == "const" and x.a[0] == 0 for x in (l, r)) and any(ivarlike(x) for x in (l, r))
    return False


def run(ctx):
    ctx.rule("pixel-sums", "every reduction over the pixel axis in the chi2 kernels carries the inverse variance as a factor exactly once "
             "(zero-where-masked domain with axis inference)", r_reductions)
    ctx.rule("data-triple", "the data triple is exactly (ivar, flux, ivar*flux) concatenated over the spectra", r_spectral_data)
    ctx.rule("call-sites", "every call of a fitting kernel passes weights, flux and weighted flux of one source in their own parameters", r_callsites)
    ctx.rule("npixels", "the pixel count of a fit counts pixels with positive inverse variance", r_npixels)
