"""C17: the negative [OII] penalty."""
from ..q import *
from ..kern import *
from ..axes import Axes, NoAxes
from .. import sign

PEN = ZS + "calc_negOII_penalty"


def r_function(ctx):
    I = ctx.interp(PEN)
    po, pc = mk("param", PEN, "OIItemplate"), mk("param", PEN, "coeff")
    r = strip(I.ret)
    w = effs(I, "return")[-1]
    ax = Axes({po.id: ("b", "w"), pc.id: ("z", "b")}, {})
    fs = []
    for x in subterms(r):
        if has(x, po) and has(x, pc) and (x.op == "call" or (x.op == "bin" and x.a[0] == "@")):
            try:
                a = ax.axes(x)
            except (NoAxes, IndexError, TypeError):
                continue
            if a == ("z",):
                prods = [y for y in subterms(x) if y.op == "bin" and y.a[0] == "@"]
                if len(prods) == 1 and only_linear(x):
                    fs.append(x)
    if not ctx.ob("line-flux", bool(fs), w, "the summed [OII] flux per redshift (sum over the doublet of coeff @ OIItemplate) was not found in " + show(r)[:160]):
        return
    best = None
    for f in fs:
        v = [sign.case(r, f, s) for s in (-1, 0, 1)]
        if None not in v:
            best = (f, v)
            break
    if best is None:
        raise Undecided_("sign analysis of " + show(r)[:100])
    f, v = best
    ctx.ob("negative-flux", v[0][0] == "lin" and v[0][1] < 0, w, "for negative line flux f the penalty is %s" % (fmt(v[0]),))
    ctx.ob("unit-slope", v[0] == ("lin", -1), w, "for negative line flux f the penalty is %s, expected -f" % (fmt(v[0]),))
    ctx.ob("zero-flux", v[1] == ("const", 0.0) or v[1] == ("const", 0), w, "for zero line flux the penalty is %s" % (fmt(v[1]),))
    ctx.ob("positive-flux", v[2][0] == "const" and v[2][1] == 0, w, "for positive line flux the penalty is %s" % (fmt(v[2]),))


def Undecided_(m):
    from ..ctx import Undecided
    return Undecided(m)


def fmt(x):
    return "%g%s" % (x[1], "*f" if x[0] == "lin" else "")


def only_linear(x):
    return not contains(x, lambda y: y.op in ("cmp", "ite", "not") or (y.op == "call" and fname(y.a[0]).rsplit(".", 1)[-1] in ("abs", "where", "maximum", "minimum", "clip")))


def hasattr_lit(tm):
    return mk("call", ext("builtins.hasattr"), tm, const("OIItemplate"))


def template_of(x):
    """template term from OIItemplate operand"""
    x = strip(x)
    if x.op == "attr" and x.a[1] == "OIItemplate":
        return x.a[0]
    if is_call(x, "getattr") and len(cargs(x)) >= 2 and is_const(cargs(x)[1], "OIItemplate"):
        return cargs(x)[0]
    return None


def guard_ok(g, tm):
    """g says the template has an [OII] window"""
    if g is hasattr_lit(tm):
        return True
    s = show(g)
    return "OIItemplate" in s and not g.op == "not"


def site(ctx, I, e, name, coeff_ok, allow):
    """one penalty call: operands and guards"""
    b = e.bound
    tm = template_of(b["OIItemplate"])
    if not ctx.ob(name + "/template-operand", tm is not None, e, "first operand is " + show(b["OIItemplate"])[:100]):
        return
    ctx.ob(name + "/coeff-operand", coeff_ok(strip(b["coeff"])), e, "coefficients passed to the penalty are " + show(b["coeff"])[:160])
    gs = flat_guards(e)
    ctx.ob(name + "/guarded", any(guard_ok(g, tm) for g in gs), e, "penalty is not restricted to templates that define the [OII] window")
    for g in gs:
        if guard_ok(g, tm) or allow(g):
            continue
        ctx.ob(name + "/extra-condition", False, e, "the penalty is only applied if " + show(g)[:120])


def r_scan(ctx):
    I = caller(ctx, ZS + "calc_zchi2")
    cs = [e for e in calls(I, "calc_negOII_penalty") if not e.inlined]
    w = effs(I, "return")[-1]
    if not ctx.ob("calc_zchi2/present", bool(cs), w, "the coarse scan does not compute the penalty"):
        return
    from .c16 import zero_weight_lits, base_array
    zl = {mknot(x) if v else x for x, v in zero_weight_lits(I)}

    def coeff_ok(c):
        # the kernel's coefficients of this target
        return (c.op == "sub" and is_call(strip(c.a[0]), "calc_zchi2_batch") and is_const(c.a[1], 1)) or \
            row_of(c, I)
    for e in cs:
        site(ctx, I, e, "calc_zchi2", coeff_ok, lambda g: g in zl or is_env(g))
    # stored in the third returned array only, at the row of this target
    r = strip(I.ret)
    ok = False
    for e in effs(I, "setitem"):
        if has(e.value, cs[0].result):
            b = base_array(e.base)
            third = r.op == "tuple" and len(r.a) == 3 and b is base_array(r.a[2])
            ctx.ob("calc_zchi2/stored-separately", third and (e.op is None or e.op == "+"), e, "the penalty must be stored in the penalty array, not mixed into another result")
            ctx.ob("calc_zchi2/stored-plain", strip(e.value) is strip(cs[0].result), e, "the stored penalty is " + show(e.value)[:120])
            k = e.key.a[0] if e.key.op == "tuple" else e.key
            kk = [z for z in effs(I, "setitem") if base_array(z.base) is base_array(r.a[0])]
            keys = {(z.key.a[0] if z.key.op == "tuple" else z.key) for z in kk}
            ctx.ob("calc_zchi2/row", k in keys, e, "penalty row index differs from the chi2 row index")
            ok = ok or third
    ctx.ob("calc_zchi2/stored", ok, cs[0], "the penalty is not returned by the scan")


def row_of(c, I):
    """c is row j of an array whose row j was just stored from the kernel"""
    from .c16 import base_array
    if c.op != "sub":
        return False
    b = base_array(c.a[0])
    for e in effs(I, "setitem"):
        if base_array(e.base) is b and b is not None:
            k = e.key.a[0] if e.key.op == "tuple" else e.key
            ck = c.a[1].a[0] if c.a[1].op == "tuple" else c.a[1]
            v = strip(e.value)
            if k is ck and v.op == "sub" and is_call(strip(v.a[0]), "calc_zchi2_batch") and is_const(v.a[1], 1):
                return True
    return False


def is_env(g):
    """guards about GPU/mode/assertions, not about the penalty"""
    ps = params_in(g)
    s = show(g)
    if "coeff" in s or "zchi2" in s and "len(" not in s:
        return False
    return True


def r_refine(ctx):
    I = caller(ctx, "redrock.fitz.fitz")
    cs = [e for e in calls(I, "calc_negOII_penalty") if not e.inlined]
    mf = [e for e in calls(I, "minfit") if not e.inlined]
    w = effs(I, "return")[-1]
    if not ctx.ob("fitz/present", bool(cs), w, "the refinement does not compute the penalty"):
        return
    for e in cs:
        b = e.bound
        tm = template_of(b["OIItemplate"])
        ctx.ob("fitz/template-operand", tm is mk("param", "redrock.fitz.fitz", "template"), e, "template operand is " + show(b["OIItemplate"])[:80])
        alts = [strip(x) for c, x in ites(strip(b["coeff"]))]
        ctx.ob("fitz/coeff-operand", all(a.op == "sub" and is_call(strip(a.a[0]), "calc_zchi2_batch") and is_const(a.a[1], 1) for a in alts), e,
               "coefficients passed to the penalty are " + show(b["coeff"])[:160])
        gs = flat_guards(e)
        ctx.ob("fitz/guarded", tm is not None and any(guard_ok(g, tm) for g in gs), e, "penalty not restricted to templates with the window")
        for g in gs:
            if tm is not None and not guard_ok(g, tm) and ("archetype" in show(g) or "use_gpu" in show(g) and "call" not in g.op) and g.op in ("param", "not", "cmp"):
                ctx.ob("fitz/extra-condition", False, e, "the penalty is only applied if " + show(g)[:120])
    if not ctx.ob("fitz/minfit", bool(mf), w, "no parabola fit found"):
        return
    tm = mk("param", "redrock.fitz.fitz", "template")
    lit = [g for e in cs for g in flat_guards(e) if guard_ok(g, tm)]
    gpu = mk("param", "redrock.fitz.fitz", "use_gpu")
    for e in mf:
        y = e.bound.get("y")
        chk_penalised(ctx, "fitz/parabola-chi2", y, cs, lit, e)
    for e in effs(I, "append"):
        d = strip(e.value)
        if d.op != "dict":
            continue
        for i in range(0, len(d.a), 2):
            if is_const(d.a[i], "zzchi2"):
                chk_penalised(ctx, "fitz/stored-zzchi2", d.a[i + 1], cs, lit, e)
            if is_const(d.a[i], "chi2"):
                v = d.a[i + 1]
                for c, x in ites(v):
                    x = strip(x)
                    if is_call(x, "get_best_archetype") or (x.op == "sub" and contains(x.a[0], lambda z: is_call(z, "get_best_archetype"))):
                        continue
                    if contains(x, lambda z: is_call(z, "minfit")) and x.op == "sub" and is_call(strip(x.a[0]), "minfit"):
                        continue
                    chk_penalised(ctx, "fitz/fallback-chi2", x, cs, lit, e)


def chk_penalised(ctx, name, t, cs, lit, e):
    t1 = assume(t, {l: True for l in lit})
    t0 = assume(t, {l: False for l in lit})
    pen = [x for x in subterms(t1) if is_call(x, "calc_negOII_penalty")]
    ctx.ob(name + "/included", bool(pen), e, "chi2 used here does not include the penalty")
    # added once: batch chi2 + penalty
    sums = [x for x in subterms(t1) if x.op == "bin" and x.a[0] in ("+", "-") and any(is_call(strip(y), "calc_negOII_penalty") or (
        y.op == "bin" and contains(y, lambda z: is_call(z, "calc_negOII_penalty"))) for y in x.a[1:])]
    for s in sums:
        p = [y for y in s.a[1:] if is_call(strip(y), "calc_negOII_penalty")]
        o = [y for y in s.a[1:] if not is_call(strip(y), "calc_negOII_penalty")]
        ctx.ob(name + "/added-once", s.a[0] == "+" and len(p) == 1 and all(not contains(y, lambda z: is_call(z, "calc_negOII_penalty")) for y in o), e,
               "penalised chi2 is " + show(s)[:140])
    ctx.ob(name + "/window-only", not contains(t0, lambda z: is_call(z, "calc_negOII_penalty")), e, "penalty applied to templates without the window")


def r_zfind(ctx):
    I = ctx.interp("redrock.zfind.zfind", inline=["redrock.zfind._mp_fitz"])
    cs = [e for e in calls(I, "fitz") if fname(e.fn) == "redrock.fitz.fitz"]
    if not ctx.ob("zfind/calls", len(cs) >= 1, "zfind", "no refinement call found"):
        return
    for e in cs:
        nm = "zfind/" + ("worker" if e.ctx else "serial")
        v = e.bound.get("zchi2")
        v = elem(v)
        keys = [x.a[1].a[0] for x in subterms(v) if x.op == "sub" and x.a[1].op == "const" and x.a[1].a[0] in ("zchi2", "penalty")]
        top = addends(strip(v))
        kk = sorted(k.a[1].a[0] for k in map(strip, top) if k.op == "sub" and k.a[1].op == "const")
        same = len({strip(k).a[0] for k in top if strip(k).op == "sub"}) == 1
        if v.op in ("bin",) or "zchi2" in keys:
            ctx.ob(nm + "/scan-plus-penalty", kk == ["penalty", "zchi2"] and len(top) == 2, e,
                   "minima are searched on %s, must be scan chi2 plus penalty" % show(v)[:140])
            ctx.ob(nm + "/same-entry", same, e, "chi2 and penalty of different targets or templates are added")
        else:
            ctx.undecided.append((ctx.cur, "chi2 handed to the refinement: " + show(v)[:100]))


def elem(v):
    """element of an array filled row by row"""
    v = strip(v)
    if v.op == "sub":
        b = strip(v.a[0])
        if b.op == "loop" and strip(b.a[1]).op == "store":
            s = strip(b.a[1])
            k = s.a[1].a[0] if s.a[1].op == "tuple" else s.a[1]
            if k.op == "idx":
                i = v.a[1].a[0] if v.a[1].op == "tuple" else v.a[1]
                return strip(rewrite(s.a[2], lambda y: i if y is k else y))
        if b.op == "comp" and len(b.a) == 4:
            it = b.a[3]
            oi = mk("idx", it.a[0], it.a[1])
            return strip(rewrite(b.a[1], lambda y: v.a[1] if y is oi else y))
    return v


def r_window(ctx):
    q = "redrock.templates.Template.__init__"
    I = ctx.interp(q)
    ss = [e for e in effs(I, "setattr") if e.attr == "OIItemplate"]
    if not ctx.ob("template/window", bool(ss), q, "the [OII] window template is never defined"):
        return
    s = mk("param", q, "self")
    for e in ss:
        v = strip(e.value)
        ok = v.op == "sub" and v.a[1].op == "tuple" and len(v.a[1].a) == 2 and v.a[1].a[0].op == "slice"
        ctx.ob("template/window-columns", ok, e, "the window must select wavelength columns of all basis vectors: " + show(v)[:100])
        if ok:
            m = v.a[1].a[1]
            cm = [x for x in subterms(m) if x.op == "cmp" and x.a[0] in ("<", "<=")]
            lo = [x.a[1].a[0] for x in cm if x.a[1].op == "const"]
            hi = [x.a[2].a[0] for x in cm if x.a[2].op == "const"]
            ctx.ob("template/window-range", len(lo) == 1 and len(hi) == 1 and 3700 < lo[0] <= 3727.1 and 3729.9 <= hi[0] < 3760, e,
                   "the window must bracket the [OII] doublet 3727-3730 A, is %s..%s" % (lo, hi))


def run(ctx):
    ctx.rule("penalty-function", "sign-case analysis: penalty is -f for summed line flux f<0 and 0 otherwise", r_function)
    ctx.rule("scan-site", "penalty computed from this target's coefficients for every template with a window and stored separately", r_scan)
    ctx.rule("refine-site", "the refined chi2 used for the parabola, the fallback and the stored curve includes the penalty exactly once", r_refine)
    ctx.rule("minima-site", "minima are searched on scan chi2 plus penalty of the same target and template, serial and worker", r_zfind)
    ctx.rule("window", "the cached window selects the doublet's wavelength columns", r_window)
