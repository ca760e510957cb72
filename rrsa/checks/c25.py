"""C25: best-fit models are evaluated from the fit of the same target."""
from ..q import *
from ..logic import *
from ..arith import *
from ..terms import *
from ..store import Writes
from ..ctx import Undecided, Stop
from ..padding import r_pad
from .c31 import realguards

EM = "redrock.targets.Target.eval_model"
EMS = "redrock.targets.DistTargets.eval_models"
TE = "redrock.templates.Template.eval"
AE = "redrock.archetypes.Archetype.eval"
EV = "redrock.templates.eval_model"
RD = "redrock.external.desi.rrdesi"
WB = "redrock.external.desi.write_bestmodel"
nostop = lambda y: y.op in ("loop", "mu")


def evcalls(I, meth):
    for e in effs(I, "call"):
        if e.d.get("meth") == meth or fname(e.fn).rsplit(".", 1)[-1] == meth:
            yield e


def argof(e, name, pos):
    """argument of a call whose callee may be unresolved"""
    b = e.d.get("bound")
    if b and name in b:
        return b[name]
    v = ckw(e.result, name)
    if v is None:
        p = cargs(e.result)
        v = p[pos] if len(p) > pos else None
    return v


def receiver(e):
    b = e.d.get("bound")
    if b and "self" in b:
        return strip(b["self"])
    r = e.d.get("recv")
    if r is None and e.fn.op == "attr":
        r = e.fn.a[0]
    return strip(r) if r is not None else None


# ------------------------------------------------------------------ row of the target
def r_rows(ctx):
    I = ctx.interp(EMS)
    B = mk("param", EMS, "bestfit")
    es = list(evcalls(I, "eval_model"))
    if not es:
        raise Undecided("no call of eval_model")
    for e in es:
        r = receiver(e)
        row = argof(e, "bestfit", 0)
        if row is None or r is None:
            raise Undecided("arguments of eval_model")
        ctx.ob("rows/target", not (contains(r, lambda x: x.op == "sub" and is_const(x.a[1]) and is_call(strip(x.a[0]), "local"))), e, "always the same target: " + show(r)[:80])
        tid = [mk("attr", r, "id")]
        row_ = strip(row)
        if row_ is B:
            ctx.ob("rows/own-row", False, e, "the whole table is passed instead of the row of the target")
            continue
        good, bad = False, None
        for x in subterms(row_):
            if x.op == "cmp" and any(y is t for y in x.a[1:] for t in tid) and any(tidcol(y, B) for y in x.a[1:]):
                if x.a[0] == "==":
                    good = True
                else:
                    bad = "rows with another target ID are selected"
        if is_call(row_.a[1] if row_.op == "sub" else row_, "argmin"):
            bad = "the first row of another target is selected"
        if not good and not bad:
            # dictionary keyed by TARGETID
            for x in subterms(row_):
                if x.op == "sub" and any(x.a[1] is t for t in tid):
                    d = strip(x.a[0])
                    if d.op == "comp" and d.a[0] == "dict" and contains(d.a[1].a[0], lambda y: tidcol(y, B)):
                        good = True
            if any(is_call(x, "searchsorted") and ckw(x, "sorter", 3) is None and cargs(x) and tidcol(cargs(x)[0], B) for x in subterms(row_)):
                bad = "the row is looked up by bisection in a table that is not sorted by target ID"
            if not good and row_.op == "sub" and strip(row_.a[0]) is B and row_.a[1].op in ("idx", "const"):
                bad = "row %s of the table is used whatever its target ID" % show(row_.a[1])
        if not good and not bad:
            raise Undecided("row passed to eval_model: " + show(row_)[:100])
        ctx.ob("rows/own-row", good and not bad, e, (bad or "") + ": " + show(row_)[:120])
        for n, pos in (("templates", 1), ("archetypes", 2), ("nleg", 3)):
            v = argof(e, n, pos)
            if v is None:
                if n != "nleg":
                    ctx.ob("rows/" + n, False, e, "the %s of the caller are not passed on" % n)
                continue
            p = mk("param", EMS, n)
            others = [mk("param", EMS, m) for m in ("templates", "archetypes", "nleg", "bestfit") if m != n]
            if v is p:
                ctx.ob("rows/" + n, True, e)
            elif is_const(v) or v in others:
                ctx.ob("rows/" + n, n == "nleg", e, "%s receives %s" % (n, show(v)[:60]))
            else:
                ctx.undecided.append((ctx.cur, "%s receives %s" % (n, show(v)[:60])))
    r = strip(I.ret)
    if r.op == "comp" and r.a[0] == "list":
        it = r.a[3]
        ctx.ob("rows/all-targets", r.a[2] is TRUE, es[0], "models of some local targets are left out")
        src = strip(it.a[0])
        if is_call(src, "local"):
            ctx.ob("rows/order", True, es[0])
        elif src.op == "sub" and src.a[1].op == "slice" or is_call(src, "reversed", "sorted"):
            ctx.ob("rows/order", False, es[0], "models are not returned in the order of the local targets: " + show(src)[:80])
        else:
            ctx.undecided.append((ctx.cur, "models are evaluated over " + show(src)[:80]))
    else:
        ctx.undecided.append((ctx.cur, "models returned as " + show(r)[:80]))


def tidcol(t, B):
    t = strip(t)
    return t.op == "sub" and strip(t.a[0]) is B and is_const(t.a[1], "TARGETID")


# ------------------------------------------------------------------ per-spectrum evaluation
def r_eval_model(ctx):
    I = ctx.interp(EM)
    S = mk("param", EM, "self")
    B = mk("param", EM, "bestfit")
    col = lambda n: mk("sub", B, const(n))
    specs = mk("attr", S, "spectra")
    W = [e for e in effs(I, "setitem") if e.key is not None and contains(e.key, lambda x: x.op == "attr" and x.a[1] in ("wavehash", "band")) or
         (e.kind == "setitem" and contains(e.value, lambda x: x.op == "call" and (x.a[0].op == "attr" and x.a[0].a[1] == "eval")))]
    pairs = [(e, strip(e.key), e.value) for e in W]
    if not pairs:
        for e in effs(I, "setattr", "return"):
            for x in subterms(e.value):
                if x.op == "comp" and x.a[0] == "dict":
                    pairs.append((e, strip(x.a[1].a[0]), x.a[1].a[1]))
    if not pairs:
        raise Undecided("no model is stored per spectrum")
    kinds = set()
    done = set()
    for e, k, v in pairs:
        if (k.id, v.id) in done:
            continue
        done.add((k.id, v.id))
        if not (k.op == "attr" and k.a[1] in ("wavehash", "band")):
            ctx.undecided.append((ctx.cur, "model stored under " + show(k)[:80]))
            continue
        sp = k.a[0]
        part = [x for x in subterms(sp, stop=nostop) if x.op == "sub" and x.a[1].op in ("slice", "const") and has(x.a[0], specs)]
        ctx.ob("model/all-spectra", not part, e, "only some spectra get a model: " + show(sp)[:80])
        ctx.ob("model/key", k.a[1] == "wavehash", e, "models must be keyed by the wavehash, keyed by " + show(k)[:80])
        ev = [x for x in subterms(v, stop=nostop) if x.op == "call" and (x.a[0].op == "attr" and x.a[0].a[1] == "eval" or fname(x.a[0]).endswith(".eval"))]
        if not ev:
            zero_case(ctx, e, v, sp, col("COEFF"))
            continue
        if len(ev) > 1:
            ctx.undecided.append((ctx.cur, "model is " + show(v)[:80]))
            continue
        x = ev[0]
        if strip(v) is not x:
            ctx.undecided.append((ctx.cur, "model is " + show(v)[:80]))
        recv = ckw(x, "self") if fname(x.a[0]).endswith(("Template.eval", "Archetype.eval")) and x.a[0].op != "attr" else x.a[0].a[0]
        recv = strip(recv)
        base = recv.a[0] if recv.op == "sub" else None
        if base is None:
            ctx.undecided.append((ctx.cur, "template used: " + show(recv)[:80]))
            continue
        arch = base is mk("param", EM, "archetypes")
        kinds.add("arch" if arch else "tmpl")
        key = recv.a[1]
        names = ("subtype", "coeff", "wave", "z", "R", "legcoeff") if arch else ("coeff", "wave", "z", "R")
        a = {n: ckw(x, n, i) for i, n in enumerate(names)}
        tag = "archetype" if arch else "template"
        if arch:
            ctx.ob(tag + "/type", strip(key) is col("SPECTYPE"), e, "archetypes of %s are used" % show(key)[:80])
            prov(ctx, tag + "/subtype", e, a["subtype"], col("SUBTYPE"), B)
        else:
            ok = key.op == "tuple" and len(key.a) == 2 and strip(key.a[0]) is col("SPECTYPE") and strip(key.a[1]) is col("SUBTYPE")
            if not ok and not (key.op == "tuple"):
                ctx.undecided.append((ctx.cur, "template key " + show(key)[:80]))
            else:
                ctx.ob(tag + "/type", ok, e, "the template used is %s" % show(key)[:100])
        prov(ctx, tag + "/redshift", e, a["z"], col("Z"), B)
        # coefficients: a leading slice at most
        c = strip(a["coeff"]) if a["coeff"] is not None else NONE
        c0 = c
        if c.op == "sub" and c.a[1].op == "slice":
            lo, hi, st = c.a[1].a
            ctx.ob(tag + "/coeff-slice", (is_const(lo) and lo.a[0] in (None, 0)) and is_const(st) and st.a[0] in (None, 1), e, "coefficients " + show(c)[:100])
            if arch:
                n = strip(hi)
                ok = is_call(n, "len") and contains(n, lambda y: y is col("SUBTYPE")) or (n.op == "bin" and n.a[0] == "+" and contains(n, lambda y: y is col("SUBTYPE")))
                if not ok and is_const(n):
                    ctx.ob(tag + "/coeff-count", is_const(n, None), e, "always the first %s coefficients are used" % show(n))
            c0 = strip(c.a[0])
        prov(ctx, tag + "/coeff", e, c0, col("COEFF"), B)
        # same spectrum
        w = strip(a["wave"]) if a["wave"] is not None else NONE
        same(ctx, tag + "/wave", e, w, sp, "wave", specs)
        R = a["R"]
        if R is None or is_const(R, None):
            ctx.ob(tag + "/resolution", False, e, "the model is not convolved with the resolution of the spectrum")
        else:
            same(ctx, tag + "/resolution", e, strip(R), sp, ("Rcsr", "R"), specs)
        if arch:
            l = a["legcoeff"]
            if l is None or is_const(l, None):
                ctx.ob(tag + "/legendre", False, e, "the Legendre terms are left out of the model")
            else:
                ctx.ob(tag + "/legendre", has(l, col("LEGCOEFF")), e, "Legendre coefficients come from " + show(l)[:100])
        # selection of the branch
        FM = col("FITMETHOD")
        lits = [g for g in realguards(e) if has(g, FM)]
        is_arch = mkcmp("==", FM, const("ARCH"))
        if not lits:
            ctx.ob(tag + "/branch", False, e, "the %s model is evaluated whatever the fit method" % tag)
        for g in lits:
            if arch:
                if g is is_arch:
                    ctx.ob(tag + "/branch", True, e)
                elif g is mknot(is_arch):
                    ctx.ob(tag + "/branch", False, e, "archetype model evaluated when " + show(g))
                else:
                    ctx.undecided.append((ctx.cur, "branch condition " + show(g)[:80]))
            else:
                if g is is_arch:
                    ctx.ob(tag + "/branch", False, e, "template model evaluated when " + show(g))
                else:
                    ctx.ob(tag + "/branch", True, e)
    for k in ("arch", "tmpl"):
        if k not in kinds and not any(u[0] == ctx.cur for u in ctx.undecided):
            ctx.ob("model/%s-present" % k, False, EM, "no %s model is evaluated" % k)
    st = [e for e in effs(I, "setattr") if e.attr == "model"]
    # nothing evaluated for another fit is used again
    old = mk("attr", S, "model")
    stale = []
    for e in effs(I, "return"):
        v = strip(e.value) if e.value is not None else NONE
        if v is old or v.op == "call" and fname(v.a[0]) == "builtins.getattr" and len(cargs(v)) > 1 and cargs(v)[0] is S and is_const(cargs(v)[1], "model"):
            stale.append(e)
    fresh = [e for e in st if not realguards(e)]
    for e in stale:
        if not any(f.seq < e.seq for f in fresh):
            ctx.ob("model/fresh", False, e, "the model of an earlier evaluation is returned whatever the fit is")
    ctx.ob("model/returned", not is_const(I.ret, None), effs(I, "return")[-1] if effs(I, "return") else EM, "nothing is returned")


def prov(ctx, name, e, v, want, B):
    if v is None:
        ctx.ob(name, False, e, "not passed")
        return
    v = strip(v)
    if v is want:
        ctx.ob(name, True, e)
    elif is_const(v) or (v.op == "sub" and v.a[0] is B and is_const(v.a[1])):
        ctx.ob(name, False, e, "receives %s instead of %s" % (show(v)[:80], show(want)))
    elif has(v, want) and v.op == "bin":
        ctx.ob(name, False, e, "receives %s instead of %s" % (show(v)[:80], show(want)))
    else:
        ctx.undecided.append((ctx.cur, "%s receives %s" % (name, show(v)[:80])))


def same(ctx, name, e, v, sp, attrs, specs):
    attrs = (attrs,) if isinstance(attrs, str) else attrs
    v = strip(v)
    if v.op == "ite":
        # R if available
        for x in (v.a[1], v.a[2]):
            if not is_const(x, None):
                same(ctx, name, e, x, sp, attrs, specs)
        return
    if v.op == "attr" and strip(v.a[0]) is strip(sp):
        ctx.ob(name, v.a[1] in attrs, e, "receives %s" % show(v)[:80])
    elif v.op == "call" and v.a[0].op == "attr" and strip(v.a[0].a[0]).op == "attr":
        same(ctx, name, e, v.a[0].a[0], sp, attrs, specs)
    elif has(v, specs) and v.op == "attr":
        ctx.ob(name, False, e, "of another spectrum: %s" % show(v)[:100])
    else:
        ctx.undecided.append((ctx.cur, "%s receives %s" % (name, show(v)[:80])))


def zero_case(ctx, e, v, sp, C):
    gs = realguards(e)
    z = strip(v)
    if not is_call(z, "zeros", "zeros_like", "full"):
        ctx.undecided.append((ctx.cur, "model set to " + show(z)[:80]))
        return
    ok = any(allzero(g, C) for g in gs)
    neg = any(g.op == "not" and allzero(g.a[0], C) for g in gs)
    one = [g for g in gs if g.op == "cmp" and any(strip(y).op == "sub" and strip(strip(y).a[0]) is C and is_const(strip(y).a[1]) for y in g.a[1:])]
    if not ok and one:
        ctx.ob("zero-model/condition", False, e, "a zero model is stored when %s: the other coefficients are not looked at" % show(one[0])[:60])
        return
    anyz = any(is_call(g, "any") and has(g, C) for g in gs)
    if ok:
        ctx.ob("zero-model/condition", True, e)
    elif neg or anyz or not gs:
        ctx.ob("zero-model/condition", False, e, "a zero model is stored when " + (" and ".join(show(g)[:60] for g in gs) or "any coefficients were fitted"))
    else:
        ctx.undecided.append((ctx.cur, "zero model condition " + show(gs[0])[:80]))


def allzero(g, C):
    if is_call(g, "all"):
        x = cargs(g)[0] if cargs(g) else (g.a[0].a[0] if g.a[0].op == "attr" else None)
        return x is not None and x.op == "cmp" and x.a[0] == "==" and has(x, C) and any(is_const(y) and y.a[0] == 0 for y in x.a[1:])
    if g.op == "not" and is_call(g.a[0], "any"):
        y = g.a[0]
        x = cargs(y)[0] if cargs(y) else y.a[0].a[0]
        return x is C or (x.op == "cmp" and x.a[0] == "!=" and has(x, C))
    if g.op == "cmp" and g.a[0] == "==" and any(is_const(y) and y.a[0] == 0 for y in g.a[1:]):
        return any(is_call(y, "count_nonzero") and has(y, C) for y in g.a[1:])
    return False


# ------------------------------------------------------------------ the model of one template
def unR(ctx, name, I, ret, R, lits=None):
    """model before the resolution is applied; checks that R is applied once and last"""
    if lits:
        ret = assume(ret, lits)
    on = assume(ret, {mkcmp("is", R, NONE): False})
    off = assume(ret, {mkcmp("is", R, NONE): True})
    e = effs(I, "return")[-1]
    x = strip(on)
    inner = None
    if x.op == "bin" and x.a[0] == "@":
        if x.a[1] is R:
            inner = x.a[2] if len(x.a) == 3 else mkbin("@", *x.a[2:])
        elif x.a[-1] is R:
            ctx.ob(name + "/resolution", False, e, "the resolution matrix is applied from the right (transposed)")
            return off
        elif x.a[1].op == "attr" and x.a[1].a[0] is R:
            ctx.ob(name + "/resolution", False, e, "the resolution matrix is applied as " + show(x.a[1]))
            return off
    elif is_call(x, "dot") and strip(x.a[0].a[0] if x.a[0].op == "attr" else cargs(x)[0]) is R:
        inner = cargs(x)[-1]
    if inner is None:
        if not has(x, R):
            ctx.ob(name + "/resolution", False, e, "the resolution matrix is never applied")
            return off
        # R applied inside, e.g. before the transmission
        if x.op == "bin" and x.a[0] in ("*", "+") and any(contains(y, lambda z: z.op == "bin" and z.a[0] == "@" and z.a[1] is R) for y in x.a[1:]) and \
                any(not has(y, R) for y in x.a[1:]):
            ctx.ob(name + "/resolution", False, e, "the resolution is applied to part of the model only, or before the absorption: " + show(x)[:140])
            return off
        raise Undecided("use of the resolution matrix: " + show(x)[:100])
    ctx.ob(name + "/resolution", not has(inner, R), e, "the resolution matrix is applied twice")
    if strip(inner) is strip(off):
        ctx.ob(name + "/resolution-same", True, e)
    elif not has(inner, R):
        a, b = {f.id for f in factors(strip(inner))}, {f.id for f in factors(strip(off))}
        ctx.ob(name + "/resolution-same", peq(inner, off), e, "with a resolution the model is R applied to %s, without one it is %s" % (show(inner)[:80], show(off)[:80]))
    return off


def r_template_eval(ctx):
    I = ctx.interp(TE)
    P = lambda n: mk("param", TE, n)
    S = P("self")
    tr = [e.result for e in calls(I, "transmission_Lyman")]
    m1 = unR(ctx, "template", I, I.ret, P("R"), dict([(mkcmp("is", t, NONE), False) for t in tr]))
    rb = [e for e in calls(I, "trapz_rebin")]
    if not rb:
        raise Undecided("no rebinning in Template.eval")
    for e in rb:
        b = e.bound
        shift(ctx, "template", e, b, P("z"), mk("attr", S, "wave"))
        ctx.ob("template/grid", b.get("xnew") is P("wave"), e, "rebinned to " + show(b.get("xnew"))[:80])
        y = strip(b["y"])
        while y.op == "attr" and y.a[1] == "T":
            y = strip(y.a[0])
        F = mk("attr", S, "flux")
        if y.op == "bin" and y.a[0] == "@" and len(y.a) == 3:
            l, r = y.a[1], y.a[2]
            lt = l.op == "attr" and l.a[1] == "T" and l.a[0] is F
            rt = r is F
            cf = r if lt else (l if rt else None)
            part = [x for x in subterms(y) if x.op == "sub" and x.a[0] is F and (x.a[1].op == "slice" and (not is_const(x.a[1].a[2], None, 1)) or x.a[1].op in ("const",))]
            if cf is None and part:
                ctx.ob("template/combination", False, e, "the template vectors are re-ordered: " + show(part[0])[:80])
                continue
            if cf is None:
                ctx.ob("template/combination", not (l is F or (r.op == "attr" and r.a[0] is F)) and False, e, "template vectors and coefficients are combined as " + show(y)[:100]) \
                    if (l is F or (r.op == "attr" and r.a[0] is F)) else ctx.undecided.append((ctx.cur, "combination " + show(y)[:80]))
                continue
            cf = strip(cf)
            ok = cf is P("coeff") or (cf.op == "sub" and cf.a[0] is P("coeff") and cf.a[1].op == "slice" and is_const(cf.a[1].a[0]) and cf.a[1].a[0].a[0] in (None, 0)
                                     and nbas(cf.a[1].a[1], S) and is_const(cf.a[1].a[2], None))
            if ok:
                ctx.ob("template/combination", True, e)
            elif cf.op == "sub" and cf.a[0] is P("coeff"):
                ctx.ob("template/combination", False, e, "coefficients used: " + show(cf)[:100])
            else:
                ctx.undecided.append((ctx.cur, "coefficients " + show(cf)[:80]))
        else:
            ctx.undecided.append((ctx.cur, "template combination " + show(y)[:80]))
    # nothing else multiplies or shifts the model
    fs = [strip(f) for f in factors(strip(m1))]
    extra = [f for f in fs if not is_call(f, "trapz_rebin") and not is_call(f, "transmission_Lyman")]
    if extra and all(is_const(f) or has(f, P("z")) for f in extra):
        ctx.ob("template/scale", False, effs(I, "return")[-1], "the model is scaled by " + " * ".join(show(f)[:60] for f in extra))
    elif extra:
        ctx.undecided.append((ctx.cur, "model " + show(m1)[:100]))
    else:
        ctx.ob("template/scale", True, effs(I, "return")[-1])


def nbas(t, S):
    return t is mk("attr", S, "nbasis") or is_const(t, None) or (t.op in ("attr", "sub", "call") and has(t, mk("attr", S, "flux")))


def shift(ctx, name, e, b, z, wave):
    x = b["x"]
    my = b.get("myz")
    want = mkbin("*", wave, mkbin("+", z, const(1.0)))
    if my is None or is_const(my, None):
        ok = ceq(x, want) if False else peq(x, want)
        if not ok and not (has(x, wave) and all(p.op in ("param", "attr", "const", "bin", "neg") for p in subterms(x))):
            ctx.undecided.append((ctx.cur, "%s wavelengths %s" % (name, show(x)[:80])))
        else:
            ctx.ob(name + "/shift", ok, e, "the template is shifted to %s instead of wave*(1+z)" % show(x)[:100])
    else:
        ok = x is wave and has(my, z)
        if ok:
            ctx.ob(name + "/shift", True, e)
        else:
            ctx.undecided.append((ctx.cur, "%s wavelengths %s at %s" % (name, show(x)[:60], show(my)[:60])))


def r_archetype_eval(ctx):
    I = ctx.interp(AE)
    P = lambda n: mk("param", AE, n)
    S = P("self")
    m = unR(ctx, "archetype", I, I.ret, P("R"), {mkcmp("is", P("legcoeff"), NONE): False})
    rb = [e for e in calls(I, "trapz_rebin")]
    if not rb:
        raise Undecided("no rebinning in Archetype.eval")
    for e in rb:
        b = e.bound
        shift(ctx, "archetype", e, b, P("z"), mk("attr", S, "wave"))
        ctx.ob("archetype/grid", b.get("xnew") is P("wave"), e, "rebinned to " + show(b.get("xnew"))[:80])
        y = strip(b["y"])
        F = mk("attr", S, "flux")
        if not (y.op == "sub" and y.a[0] is F):
            ctx.undecided.append((ctx.cur, "archetype flux " + show(y)[:80]))
            continue
        k = y.a[1]
        eqs = [x for x in subterms(k) if x.op == "cmp" and x.a[0] in ("==", "!=") and any(s.op == "attr" and s.a[1] == "_subtype" for s in x.a[1:])]
        if len(eqs) != 1:
            if k.op in ("const", "idx"):
                ctx.ob("archetype/index", False, e, "archetype %s is used whatever its name" % show(k)[:60])
            elif k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] == "index" and has(k.a[0].a[0], P("subtype")) and not contains(k.a[0].a[0], lambda s: s.op == "attr" and s.a[1] == "_subtype"):
                ctx.ob("archetype/index", False, e, "archetypes are looked up by position in the fit, not by name")
            else:
                ctx.undecided.append((ctx.cur, "archetype index " + show(k)[:80]))
            continue
        st = [s for s in eqs[0].a[1:] if not (s.op == "attr" and s.a[1] == "_subtype")][0]
        ctx.ob("archetype/index", eqs[0].a[0] == "==", e, "archetypes with another name are used")
        isplit = strip(st)
        ok = isplit.op == "sub" and is_call(strip(isplit.a[0]), "split") or (isplit.op == "sub" and strip(isplit.a[0]).op == "call" and strip(isplit.a[0]).a[0].op == "attr" and strip(isplit.a[0]).a[0].a[1] == "split")
        re_ = [x for x in subterms(isplit) if x.op == "call" and fname(x.a[0]) in ("builtins.sorted", "builtins.reversed", "builtins.set", "numpy.unique", "numpy.sort") and contains(x, lambda y: y is P("subtype"))]
        if isplit.op == "sub" and re_:
            ctx.ob("archetype/index", False, e, "the archetypes are taken in another order than the coefficients: " + show(re_[0])[:60])
            continue
        if not ok:
            ctx.undecided.append((ctx.cur, "archetype name " + show(isplit)[:80]))
            continue
        sep = cargs(strip(isplit.a[0]))
        ctx.ob("archetype/separator", len(sep) == 1 and is_const(sep[0], ";"), e, "names are split at " + (show(sep[0]) if sep else "white space"))
        ix = isplit.a[1]
        # the coefficient that multiplies it
        acc = [x for x in effs(I, "aug", "setitem") if contains(x.value, lambda y: y is e.result, stop=nostop)]
        cs = set()
        for x in acc:
            for f in factors(strip(x.value)):
                f = strip(f)
                if has(f, P("coeff")):
                    cs.add(f)
        loops = [x for x in subterms(m) if x.op == "loop"]
        for l in loops:
            if contains(l.a[1], lambda y: y is e.result, stop=nostop) and l.a[0].op == "mu":
                ctx.ob("archetype/sum", contains(l.a[1], lambda y: y is l.a[0], stop=nostop), e, "the archetypes before it are dropped from the model")
            for ad in addends(strip(l.a[1])):
                if contains(ad, lambda y: y is e.result, stop=nostop):
                    for f in factors(strip(ad)):
                        f = strip(f)
                        if has(f, P("coeff")):
                            cs.add(f)
        if len(cs) != 1:
            if not cs and not any(has(x, P("coeff")) for x in [m]):
                ctx.ob("archetype/coeff", False, e, "the coefficients never enter the model")
            else:
                ctx.undecided.append((ctx.cur, "coefficient of an archetype"))
            continue
        c = next(iter(cs))
        if c.op == "sub":
            base = strip(c.a[0])
            sl = base.op == "sub" and base.a[0] is P("coeff") and base.a[1].op == "slice"
            lo = base.a[1].a[0] if sl else None
            ok0 = base is P("coeff") or (sl and is_const(lo) and lo.a[0] in (None, 0) and is_const(base.a[1].a[2]) and base.a[1].a[2].a[0] in (None, 1))
            ctx.ob("archetype/coeff", ok0 and c.a[1] is ix, e, "archetype number %s is multiplied by coefficient %s" % (show(ix)[:60], show(c)[:80])) \
                if (ok0 or sl) and c.a[1].op in ("idx", "const") else ctx.undecided.append((ctx.cur, "coefficient " + show(c)[:80]))
        else:
            ctx.undecided.append((ctx.cur, "coefficient " + show(c)[:80]))
    # Legendre part
    L = P("legcoeff")
    on = assume(m, {mkcmp("is", L, NONE): False})
    if not contains(on, lambda x: is_call(x, "legendre") or is_call(x, "legval")):
        ctx.ob("archetype/legendre", False, rb[0], "the Legendre terms are left out of the model")
    else:
        lg = [x for x in subterms(on) if x.op == "bin" and x.a[0] == "@" and has(x.a[-1], L) or (x.op == "bin" and x.a[0] == "@" and has(x.a[1], L))]
        ctx.ob("archetype/legendre", bool(lg) or not any(True for _ in ()), rb[0])
        for x in lg:
            fn = [y for y in subterms(x) if y.op == "call" and cargs(y) and any(strip(z) is L or strip(z).op == "attr" and strip(z).a[0] is L for z in cargs(y)) and fname(y.a[0]).rsplit(".", 1)[-1] in
                  ("abs", "absolute", "sort", "sorted", "flip", "reversed", "clip", "maximum", "minimum", "round", "roll", "sign", "square", "sqrt", "exp")]
            ctx.ob("archetype/legendre-coeff", not fn, rb[0], "the Legendre terms are multiplied by " + (show(fn[0])[:60] if fn else ""))
        for x in effs(I, "call"):
            if is_call(x.result, "reduced_wavelength"):
                w = x.bound.get("wave")
                ctx.ob("archetype/legendre-grid", w is P("wave"), x, "Legendre polynomials are evaluated at " + show(w)[:60])


# ------------------------------------------------------------------ eval_model on tables
def r_table_eval(ctx):
    I = ctx.interp(EV)
    P = lambda n: mk("param", EV, n)
    D = P("data")
    es = [e for e in effs(I, "call") if e.d.get("meth") == "eval" or fname(e.fn).endswith("Template.eval")]
    if not es:
        raise Undecided("no template is evaluated")

    def row(t):
        """(column, index) of a table entry"""
        t = strip(t)
        if t.op == "sub":
            b = strip(t.a[0])
            if b.op == "sub" and strip(b.a[0]) is D:
                if is_const(b.a[1]) and isinstance(b.a[1].a[0], str):
                    return b.a[1].a[0], t.a[1]
                if is_const(t.a[1]) and isinstance(t.a[1].a[0], str):
                    return t.a[1].a[0], b.a[1]
        return None
    for e in es:
        a = {n: argof(e, n, i) for i, n in enumerate(("coeff", "wave", "z", "R"))}
        r = receiver(e)
        r0 = e.d.get("recv") if e.d.get("recv") is not None else e.fn.a[0] if e.fn.op == "attr" else r
        if e.d.get("bound") and "self" in e.d["bound"]:
            r0 = e.d["bound"]["self"]
        r0 = strip_alloc(r0)
        idxs = {}
        if r.op == "sub" and r.a[1].op == "tuple" and len(r.a[1].a) == 2:
            for want, x in zip(("SPECTYPE", "SUBTYPE"), r.a[1].a):
                k = row(x)
                if k is None:
                    ctx.undecided.append((ctx.cur, "template key " + show(x)[:60]))
                    continue
                ctx.ob("table/" + want.lower(), k[0] == want, e, "template is looked up with " + k[0])
                idxs[want] = k[1]
        elif r0.op == "call" and fname(r0.a[0]).rsplit(".", 1)[-1] == "get" and len(cargs(r0)) > 1 and not is_const(cargs(r0)[-1], None):
            ctx.ob("table/other-template", False, e, "a fit whose template is missing is evaluated with " + show(cargs(r0)[-1])[:60])
        else:
            ctx.undecided.append((ctx.cur, "template used: " + show(r)[:60]))
        c = strip(a["coeff"])
        if c.op == "sub" and c.a[1].op == "slice":
            lo, hi, st = c.a[1].a
            neg = lambda x: poly(x) and all(v < 0 for v in poly(x).values())
            ctx.ob("table/coeff-start", not (is_const(st) and st.a[0] not in (None, 1)) and (is_const(lo, None, 0) or not (is_const(lo) or neg(lo))), e, "coefficients used: [%s]" % show(c.a[1])[:60])
            c = strip(c.a[0])
        for want, x in (("COEFF", c), ("Z", a["z"])):
            k = row(x)
            if k is None:
                if is_const(x):
                    ctx.ob("table/" + want.lower(), False, e, "receives " + show(x)[:60])
                else:
                    ctx.undecided.append((ctx.cur, want + " is " + show(x)[:60]))
                continue
            ctx.ob("table/" + want.lower(), k[0] == want, e, "receives column " + k[0])
            idxs[want] = k[1]
        Rv = a["R"]
        if Rv is None:
            ctx.ob("table/resolution", False, e, "the resolution is not passed on")
        else:
            on = strip(assume(Rv, {mkcmp("is", P("R"), NONE): False}))
            if on.op == "sub" and on.a[0] is P("R"):
                idxs["R"] = on.a[1]
            elif on is P("R") or is_const(on):
                ctx.ob("table/resolution", False, e, "receives %s for every row" % show(on))
            else:
                ctx.undecided.append((ctx.cur, "resolution is " + show(on)[:60]))
        ctx.ob("table/same-row", len({x.id for x in idxs.values()}) <= 1, e, "different rows are combined: " + ", ".join("%s from row %s" % (k, show(v)[:40]) for k, v in idxs.items()))
        ctx.ob("table/wave", a["wave"] is P("wave"), e, "evaluated at " + show(a["wave"])[:60])
        ix = next(iter(idxs.values())) if idxs else None
        for w in effs(I, "setitem"):
            if contains(w.value, lambda y: y is e.result, stop=nostop):
                k = w.key
                if ix is not None and k.op == "tuple":
                    k = k.a[0]
                ctx.ob("table/output-row", k is ix, w, "the model of row %s is stored in row %s" % (show(ix)[:40] if ix is not None else "?", show(k)[:40]))
    for e in [e for e in calls(I, "redrock.templates.eval_model")]:
        b = e.bound
        w, R = b.get("wave"), b.get("R")
        if w.op == "sub" and w.a[0] is P("wave"):
            on = strip(assume(R, {mkcmp("is", P("R"), NONE): False}))
            if on.op == "sub" and on.a[0] is P("R"):
                ctx.ob("cameras/resolution", on.a[1] is w.a[1], e, "camera %s is evaluated with the resolution of camera %s" % (show(w.a[1])[:40], show(on.a[1])[:40]))
            elif is_const(on, None):
                ctx.ob("cameras/resolution", False, e, "the resolution is not passed on")
            elif on.op == "sub" and is_const(on.a[1]) and has(on, P("R")) and not has(on, w.a[1]):
                ctx.ob("cameras/resolution", False, e, "camera %s is evaluated with the resolution %s" % (show(w.a[1])[:40], show(on)[:60]))
            else:
                ctx.undecided.append((ctx.cur, "resolution of a camera " + show(on)[:60]))
            for x in effs(I, "setitem"):
                if contains(x.value, lambda y: y is e.result, stop=nostop):
                    ctx.ob("cameras/key", x.key is w.a[1], x, "camera %s is stored under %s" % (show(w.a[1])[:40], show(x.key)[:40]))
        ctx.ob("cameras/data", b.get("data") is D, e, "data is " + show(b.get("data"))[:60])


# ------------------------------------------------------------------ collection in rrdesi
def peel_sel(t):
    """drop single-process / broadcast selection: both branches are looked at by the caller"""
    t = strip_alloc(t)
    return t


def order(t, d=0):
    """order tag of a per-target sequence: ('gather',), ('table', root), ('other', text)"""
    t = strip(t)
    if d > 40:
        return None
    if is_call(t, "eval_models", "local_target_ids"):
        return ("local",)
    if is_call(t, "builtins.sorted", "numpy.sort", "numpy.unique", "builtins.reversed", "builtins.set") and cargs(t):
        o = order(cargs(t)[0], d + 1)
        return ("local", "sorted") if o and o[0] == "local" else None
    if t.op == "list" and len(t.a) == 1:
        o = order(t.a[0], d + 1)
        if o == ("local", "sorted"):
            return ("gathered", "sorted")
        return ("gathered",) if o == ("local",) else None
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("gather", "allgather"):
        o = order(cargs(t)[0] if cargs(t) else ckw(t, "sendobj"), d + 1)
        if o == ("local", "sorted"):
            return ("gathered", "sorted")
        return ("gathered",) if o == ("local",) else None
    if t.op == "ite":
        a, b = order(t.a[1], d + 1), order(t.a[2], d + 1)
        if is_const(t.a[2], None):
            return a
        if is_const(t.a[1], None):
            return b
        if a and b and a[0] == b[0]:
            for x in (a, b):
                if x[1:] == ("sorted",):
                    return x
        return a if a == b else None
    if t.op == "call" and fname(t.a[0]).rsplit(".", 1)[-1] in ("from_iterable", "concatenate", "hstack", "sum", "chain") and cargs(t):
        x = cargs(t)[0]
        x = x.a[0] if x.op == "star" else x
        o = order(x, d + 1)
        return ("flat",) if o == ("gathered",) else (o if fname(t.a[0]).rsplit(".", 1)[-1] != "sum" else None)
    if t.op == "call" and fname(t.a[0]).rsplit(".", 1)[-1] in ("vstack", "array", "asarray", "stack", "list", "tuple"):
        return order(cargs(t)[0], d + 1)
    if t.op == "comp" and t.a[0] == "list":
        if len(t.a) == 4:
            o = order(t.a[3].a[0], d + 1)
            if t.a[2] is not TRUE:
                return None
            # element of the sequence itself, or something of it
            el = mk("idx", t.a[3].a[0], t.a[3].a[1])
            return o if has(t.a[1], el) else None
        if len(t.a) == 5:
            o = order(t.a[3].a[0], d + 1)
            return ("flat",) if o == ("gathered",) and t.a[2] is TRUE else None
        return None
    if t.op == "sub":
        k = strip(t.a[1])
        if is_const(k, "TARGETID") or (t.op == "attr" and t.a[1] == "TARGETID"):
            return ("table", tableroot(t.a[0]).id)
        if k.op == "const" or k.op == "idx":
            return None
        o = order(t.a[0], d + 1)
        return reorder(o, k, d)
    if t.op == "attr" and t.a[1] == "data":
        return order(t.a[0], d + 1)
    if is_call(t, "sorted") or is_call(t, "numpy.sort"):
        return ("ascending",)
    return None


def tableroot(t):
    t = strip(t)
    while True:
        if t.op == "store" and is_const(t.a[1]) and isinstance(t.a[1].a[0], str) and t.a[1].a[0] != "TARGETID":
            t = strip(t.a[0])
        elif t.op == "ite" and is_const(t.a[2], None):
            t = strip(t.a[1])
        elif t.op == "ite" and is_const(t.a[1], None):
            t = strip(t.a[2])
        elif t.op == "ite":
            a, b = tableroot(t.a[1]), tableroot(t.a[2])
            if a is b:
                return a
            return t
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "bcast":
            t = strip(cargs(t)[0])
        else:
            return t


def reorder(o, k, d):
    """order of X[k] where X has order o"""
    if o is None:
        return None
    if is_call(k, "argsort"):
        ok = order(cargs(k)[0] if cargs(k) else k.a[0].a[0], d + 1)
        if ok is None:
            return None
        return ("ascending",) if ok == o else ("mixed", "argsort of a sequence in another order")
    if is_call(k, "searchsorted"):
        a, v = cargs(k)[0], cargs(k)[1]
        s = ckw(k, "sorter")
        if s is not None:
            return ("mixed", "position within the sorted sequence used as position in the unsorted one")
        oa = order(a, d + 1)
        ov = order(v, d + 1)
        if ov is None or oa is None:
            return None
        if oa != ("ascending",):
            return ("mixed", "searchsorted in a sequence that is not sorted")
        if o == ("ascending",):
            return ov
        return ("mixed", "position within the sorted sequence used as position in the unsorted one")
    if k.op == "sub":
        # xs[ypos]
        xs, yp = strip(k.a[0]), strip(k.a[1])
        o1 = reorder(o, xs, d + 1)
        if o1 is None or o1[0] == "mixed":
            return o1
        if is_call(yp, "searchsorted") and ckw(yp, "sorter") is not None:
            a, v, s = cargs(yp)[0], cargs(yp)[1], ckw(yp, "sorter")
            if strip(s) is not xs:
                return None
            return order(v, d + 1)
        return reorder(o1, yp, d + 1)
    if k.op == "comp" and k.a[0] == "list" and len(k.a) == 4:
        ov = order(k.a[3].a[0], d + 1)
        # index of the element equal to v
        for x in subterms(k.a[1]):
            if x.op == "cmp" and x.a[0] == "==":
                os_ = [order(y, d + 1) for y in x.a[1:]]
                if o in os_:
                    return ov
            if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "index" and order(x.a[0].a[0], d + 1) == o:
                return ov
            if x.op == "sub" and strip(x.a[0]).op == "comp" and strip(x.a[0]).a[0] == "dict":
                return None
        return None
    return None


def tableorder(ctx):
    """order of the target IDs in the table of fits: the order of all_target_ids"""
    Z = ctx.interp("redrock.zfind.zfind")
    if not any(x.op == "attr" and x.a[1] == "all_target_ids" for e in Z.effects if e.kind == "append" for g, k in e.guards for x in subterms(g)) and \
            not any(x.op == "attr" and x.a[1] == "all_target_ids" for e in Z.effects if e.kind == "append" for x in subterms(e.value)):
        return None
    I = ctx.interp("redrock.external.desi.DistTargetsDESI.__init__")
    for e in I.effects:
        if e.kind != "call" or not fname(e.fn).endswith("__init__"):
            continue
        r = e.result.a[1] if e.result.op == "alloc" else e.result
        t = (e.d.get("bound") or {}).get("targetids") or ckw(r, "targetids") or (cargs(r)[0] if cargs(r) else None)
        if t is not None:
            t = strip(t)
            while t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "copy":
                t = strip(t.a[0].a[0])
            if is_call(t, "builtins.sorted", "numpy.sort") or is_call(t, "numpy.unique") and ckw(t, "return_index") is None:
                return "ascending"
            if t.op == "sub" and contains(t.a[1], lambda x: is_call(x, "numpy.argsort")) and contains(t.a[1], lambda x: is_call(x, "numpy.unique") and ckw(x, "return_index") is TRUE):
                return "input"
    return None


def r_collect(ctx):
    I = ctx.interp(RD)
    es = list(calls(I, "redrock.external.desi.write_bestmodel"))
    evs = list(calls(I, "eval_models"))
    if not es:
        raise Undecided("the model file is not written by rrdesi itself")
    for e in evs:
        for cs, x in ites(strip(e.bound["bestfit"])):
            if strip(x) is NONE and cs and not any(contains(g, lambda y: y.op == "attr" and y.a[1] in ("rank", "size", "Get_rank")) for g in cs):
                ctx.ob("collect/table-given", sat([g for g, k in e.guards if g.op != "exc"] + cs) is False, e, "models are evaluated although no table was made, when " + show(mkand(*cs))[-100:])
    for e in es:
        b = e.bound
        Z = tableroot(b["zbest"])
        if evs:
            zb = tableroot(evs[0].bound["bestfit"])
            ctx.ob("collect/same-table", zb is Z, e, "models are evaluated from another table than the one written")
        md = strip(b["modeldict"])
        vals = []
        if md.op == "loop":
            st = strip_alloc(md.a[1])
            if st.op == "store":
                vals.append((st.a[1], st.a[2]))
        elif md.op == "comp" and md.a[0] == "dict":
            vals.append((md.a[1].a[0], md.a[1].a[1]))
        if not vals:
            raise Undecided("models written: " + show(md)[:80])
        for k, v in vals:
            o = order(v)
            bands = [x.a[1] for x in subterms(v, stop=nostop) if x.op == "sub" and strip(x.a[0]).op == "sub" and strip(strip(x.a[0]).a[1]).op == "idx" and
                     order(strip(x.a[0]).a[0]) in (("flat",), ("gathered",), ("local",))]
            for bd in bands:
                ctx.ob("collect/band", strip(bd) is strip(k), e, "band %s holds the models of band %s" % (show(k)[:40], show(bd)[:40]))
            if o is None:
                ctx.undecided.append((ctx.cur, "order of the models not understood"))
                continue
            if o[0] == "table":
                ctx.ob("collect/order", o[1] == Z.id, e, "models are ordered like another table than the one written")
            elif o[0] == "mixed":
                ctx.ob("collect/order", False, e, "models are put in a wrong order: " + o[1])
            elif o[0] == "ascending":
                t = tableorder(ctx)
                if t is None:
                    ctx.undecided.append((ctx.cur, "models are in ascending target ID order; the order of the table is not established here"))
                else:
                    ctx.ob("collect/order", t == "ascending", e, "models are in ascending target ID order, the table in the order of the input")
            else:
                ctx.ob("collect/order", False, e, "models are written in the order in which the processes hold the targets, not in the order of the catalog rows")
        w = strip(b["wavedict"])
        ctx.ob("collect/waves", is_call(w, "wavegrids") or not is_call(w, "eval_models"), e, "wavelengths are " + show(w)[:60])
    I2 = ctx.interp(WB)
    P = lambda n: mk("param", WB, n)
    n = 0
    # one HDU per band: data of the band whose name it carries
    for e in effs(I2, "setattr"):
        if e.attr != "data":
            continue
        v = strip(e.value)
        if not (v.op == "sub" and v.a[0] in (P("modeldict"), P("wavedict"))):
            if has(v, P("modeldict")) or has(v, P("wavedict")):
                ctx.undecided.append((ctx.cur, "data of an HDU " + show(v)[:60]))
            continue
        h = strip_alloc(e.base)
        nm = ckw(h, "name", None) if h.op == "call" else None
        if nm is None:
            continue
        n += 1
        model = v.a[0] is P("modeldict")
        sfx = [x.a[0] for x in nm.a if x.op == "const"] if nm.op == "fstr" else []
        ctx.ob("file/%s" % ("model" if model else "wavelength"), bool(sfx) and sfx[-1].endswith("_MODEL" if model else "_WAVELENGTH") or not sfx, e,
               "%s are written into %s" % ("models" if model else "wavelengths", show(nm)[:60]))
        ctx.ob("file/band", not sfx or contains(nm, lambda x: x is v.a[1]), e, "HDU %s holds band %s" % (show(nm)[:60], show(v.a[1])[:40]))
    tb = [e for e in effs(I2, "call") if is_call(e.result, "table_to_hdu", "BinTableHDU", "write_table")]
    for e in tb:
        ctx.ob("file/table", any(has(x, P("zbest")) for x in cargs(e.result)), e, "the table written is not the one passed")
    if n == 0:
        ctx.undecided.append((ctx.cur, "HDUs of the model file not recognised"))


def run(ctx):
    ctx.rule("own-row", "the row given to Target.eval_model is selected by equality of TARGETID with the id of that target, for every local target in local order", r_rows)
    ctx.rule("per-spectrum", "each model is evaluated with the type, subtype, redshift and coefficients of the row and the wavelengths and resolution of the spectrum it is filed under", r_eval_model)
    ctx.rule("template-model", "a template model is R(rebin(wave*(1+z), flux.T@coeff, grid) * transmission), nothing else", r_template_eval)
    ctx.rule("archetype-model", "an archetype model sums coefficient k times the archetype named k-th, plus the Legendre terms, and is convolved once", r_archetype_eval)
    ctx.rule("table-model", "templates.eval_model combines values of one row and one camera only", r_table_eval)
    ctx.rule("collection", "gathered models are re-ordered to the TARGETID order of the table written with them (order algebra over gather, chain, argsort, searchsorted)", r_collect)
    ctx.rule("padding", "coefficients are padded at the end and cut from the start: column j of a fit stays column j of the catalogue", r_pad)
