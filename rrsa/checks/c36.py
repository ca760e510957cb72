"""C36: a plot shows the data, fit and model it names."""
from ..q import *
from ..arith import canon
from ..logic import *
from ..ctx import Undecided, Stop
from .c35 import ev

P = "redrock.plotspec.PlotSpec."
PLOT = P + "plot"
SMOOTH = ("scipy.signal.medfilt", "medfilt", "numpy.copy", "numpy.asarray", "numpy.array", "numpy.where", "numpy.ma.masked_array")


def self_attr(t, n):
    t = strip(t)
    return t.op == "attr" and t.a[1] == n and strip(t.a[0]).op == "param" and strip(t.a[0]).a[1] == "self"


def current(t):
    """self.targets[self.itarget]"""
    t = strip(t)
    return t.op == "sub" and self_attr(t.a[0], "targets") and self_attr(t.a[1], "itarget")


def conds(k):
    k = strip(k)
    if k.op == "bin" and k.a[0] == "&" or k.op == "and":
        out = []
        for x in (k.a[1:] if k.op == "bin" else k.a):
            c = conds(x)
            if c is None:
                return None
            out += c
        return out
    if k.op == "cmp" and k.a[0] == "==":
        for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
            a = strip(a)
            if a.op == "sub" and is_const(a.a[1]) and isinstance(a.a[1].a[0], str):
                return [(a.a[1].a[0], strip(b))]
    if k.op == "cmp" and k.a[0] in ("<", "<=", ">", ">=", "!="):
        for a, b in ((k.a[1], k.a[2]), (k.a[2], k.a[1])):
            a = strip(a)
            if a.op == "sub" and is_const(a.a[1]) and isinstance(a.a[1].a[0], str):
                return [(k.a[0] + " " + a.a[1].a[0], strip(b))]
    return None


def row_of(t):
    """(column conditions, single row?) of a selection of the table of fits, or None"""
    t = strip(t)
    cs, one = [], None
    while t.op == "sub":
        k = strip(t.a[1])
        if is_const(k) and type(k.a[0]) is int:
            one = k.a[0]
        else:
            if k.op == "attr" and self_attr(k, "itarget") or k.op == "attr" and self_attr(k, "znum"):
                # a position in a table, whatever that row is
                cs.append(("position", k))
                t = strip(t.a[0])
                continue
            c = conds(k)
            if c is None:
                return None
            cs += c
        t = strip(t.a[0])
    if not self_attr(t, "zfit"):
        return None
    return cs, one


def check_row(ctx, key, t, e, znum=True):
    """t is the row of the current target and (with znum) of the selected fit"""
    r = row_of(t)
    if r is None:
        raise Undecided("row of the table of fits: " + show(t)[:100])
    cs, one = r
    tid = [v for c, v in cs if c == "targetid"]
    zn = [v for c, v in cs if c == "znum"]
    ok = len(tid) == 1 and tid[0].op == "attr" and tid[0].a[1] == "id" and current(tid[0].a[0])
    ctx.ob(key + "/target", ok, e, "the row is not selected by the identifier of the displayed target: %s" % show(t)[:100])
    if znum:
        if not zn and any(c == "position" and self_attr(v, "znum") for c, v in cs):
            raise Undecided("the fit is selected by position")
        ok = len(zn) == 1 and self_attr(zn[0], "znum") and one in (0, -1)
        ctx.ob(key + "/fit", ok, e, "the row is not that of the selected fit: %s" % show(t)[-100:])


def col(t):
    """(column, row) of an entry of a table; rows may be selected before or after the column"""
    t = strip(t)
    ks = []
    while t.op == "sub" and not (is_const(t.a[1]) and isinstance(t.a[1].a[0], str)):
        ks.append(t.a[1])
        t = strip(t.a[0])
        if len(ks) > 3:
            return None, None
    if t.op == "sub" and ks:
        r = t.a[0]
        for k in reversed(ks):
            r = mk("sub", r, k)
        return t.a[1].a[0], r
    if t.op == "sub" and is_const(t.a[1]) and isinstance(t.a[1].a[0], str):
        return t.a[1].a[0], t.a[0]
    return None, None


def peel(t):
    """(term without smoothing and masking, resolution matrix or None, stores)"""
    R, st = None, []
    t = strip(strip_alloc(t))
    while True:
        if t.op == "store":
            st.append(t)
            t = strip(strip_alloc(t.a[0]))
        elif t.op == "call" and fname(t.a[0]) in SMOOTH and cargs(t):
            t = strip(strip_alloc(cargs(t)[0]))
        elif t.op == "matmul" or t.op == "bin" and t.a[0] == "@":
            a = t.a[1:] if t.op == "bin" else t.a
            R = a[0]
            t = strip(strip_alloc(a[1]))
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "dot" and cargs(t):
            R = t.a[0].a[0]
            t = strip(strip_alloc(cargs(t)[0]))
        else:
            return t, R, st


def is_eval(t):
    return t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "eval"


def spectrum_of(t):
    """the spectrum whose attribute t is"""
    t = strip(t)
    return strip(t.a[0]) if t.op == "attr" else None


def drawn(ctx):
    I = ctx.interp(PLOT)
    out = []
    for e in I.effects:
        if e.kind == "call" and e.meth in ("plot", "step", "errorbar", "scatter") and isinstance(e.result, T):
            a = cargs(e.result)
            if len(a) >= 2:
                out.append((e, a[0], a[1]))
    if not out:
        raise Undecided("nothing is drawn")
    return I, out


def r_model(ctx):
    I, ds = drawn(ctx)
    n = 0
    for e, x, y in ds:
        if not contains(y, is_eval):
            continue
        for cs, alt in cases(y):
            t, R, st = peel(alt)
            n += 1
            if not is_eval(t):
                if t.op in ("bin", "un"):
                    ctx.ob("model/as fitted", False, e, "the model drawn is not the one that was fitted but %s" % show_top(t))
                else:
                    ctx.undecided.append((ctx.cur, "model " + show(t)[:80]))
                continue
            ctx.ob("model/as fitted", True, e)
            sp = spectrum_of(x)
            ok = sp is not None and sp.op == "sub" and strip(sp.a[0]).op == "attr" and strip(sp.a[0]).a[1] == "spectra" and current(strip(sp.a[0]).a[0])
            if ok:
                ctx.ob("model/spectrum", True, e)
            else:
                ctx.undecided.append((ctx.cur, "spectrum " + show(x)[:80]))
                continue
            if R is not None:
                ctx.ob("model/own resolution", strip(R).op == "attr" and strip(R).a[1] in ("R", "Rcsr") and spectrum_of(R) is sp, e, "the model is convolved with %s" % show(R)[:80])
            model_args(ctx, e, t, sp)
    if not n:
        raise Undecided("no model is drawn")


def show_top(t):
    if t.op == "bin":
        return " ".join(("%s " % t.a[0] if i else "") + (show(x)[:40] if len(show(x)) < 40 else "…" + show(x)[-30:]) for i, x in enumerate(t.a[1:]))
    return show(t)[:80]


def model_args(ctx, e, t, sp):
    a = cargs(t)
    b = {x.a[0]: x.a[1] for x in t.a[1:] if x.op == "kw"}
    obj = strip(t.a[0].a[0])
    arch = contains(obj, lambda y: y.op == "attr" and y.a[1] == "archetypes")
    names = ("subtype", "coeff", "wave", "z") if arch else ("coeff", "wave", "z")
    for i, nm in enumerate(names):
        if i < len(a):
            b[nm] = a[i]
    kind = "archetype" if arch else "template"
    # which template
    if obj.op != "sub":
        ctx.undecided.append((ctx.cur, kind + " " + show(obj)[:80]))
    else:
        k = strip(obj.a[1])
        if arch:
            c, r = col(k)
            if c is not None:
                ctx.ob(kind + "/type", c == "spectype", e, "the archetype is chosen by %s" % c)
                check_row(ctx, kind + "/type", r, e)
            else:
                ctx.undecided.append((ctx.cur, kind + " " + show(k)[:80]))
        elif is_call(k, "redrock.templates.make_fulltype", "make_fulltype"):
            kw = {x.a[0]: x.a[1] for x in k.a[1:] if x.op == "kw"}
            for i, nm in enumerate(("spectype", "subtype")):
                v = kw.get(nm) if nm in kw else (cargs(k)[i] if i < len(cargs(k)) else None)
                c, r = col(v) if v is not None else (None, None)
                if c is None:
                    ctx.undecided.append((ctx.cur, nm))
                    continue
                ctx.ob(kind + "/" + nm, c == nm, e, "%s of the template is column %s" % (nm, c))
                check_row(ctx, kind + "/" + nm, r, e)
        else:
            ctx.undecided.append((ctx.cur, kind + " " + show(k)[:80]))
    w = b.get("wave")
    if w is not None:
        w = strip(w)
        if w.op == "attr":
            ctx.ob(kind + "/wave", w.a[1] == "wave" and strip(w.a[0]) is sp, e, "the model is evaluated at %s" % show(w)[:80])
        else:
            ctx.undecided.append((ctx.cur, "wave"))
    for nm, want in (("z", "z"), ("subtype", "subtype"), ("coeff", "coeff")):
        v = b.get(nm)
        if v is None:
            continue
        v = strip(v)
        while nm == "coeff" and v.op == "sub" and v.a[1].op == "slice":
            s = v.a[1].a
            ctx.ob(kind + "/coeff from the first", s[0] is NONE or is_const(s[0], 0), e, "the first coefficients are left out")
            v = strip(v.a[0])
        c, r = col(v)
        if c is None:
            if v.op == "bin":
                ctx.ob(kind + "/" + nm, False, e, "%s is changed: %s" % (nm, show_top(v)))
            else:
                ctx.undecided.append((ctx.cur, nm + " " + show(v)[:60]))
            continue
        ctx.ob(kind + "/" + nm, c == want, e, "%s is column %s" % (nm, c))
        check_row(ctx, kind + "/" + nm, r, e)


def r_data(ctx):
    I, ds = drawn(ctx)
    n = 0
    for e, x, y in ds:
        t, R, st = peel(y)
        sx = spectrum_of(x)
        if t.op == "attr" and t.a[1] in ("flux", "ivar") or contains(t, lambda q: q.op == "attr" and q.a[1] == "flux") and not contains(t, is_eval):
            n += 1
            if t.op != "attr":
                ctx.undecided.append((ctx.cur, "data " + show(t)[:60]))
                continue
            ctx.ob("data/flux", t.a[1] == "flux" and sx is not None and strip(t.a[0]) is sx and strip(x).a[1] == "wave", e, "%s is drawn against %s" % (show(t)[:60], show(x)[:60]))
            ctx.ob("data/resolution", R is None, e, "the data are convolved") if R is not None else None
        for s in st:
            if sx is None:
                continue
            k, v = strip(s.a[1]), s.a[2]
            iv = [q for q in subterms(k) if q.op == "attr" and q.a[1] == "ivar"]
            if len(iv) == 1 and k.op == "cmp" and len(k.a) == 3:
                z = [q for q in k.a[1:] if is_const(q) and q.a[0] == 0]
                i = [j for j, q in enumerate(k.a[1:]) if strip(q) is iv[0]]
                if z and i:
                    o = k.a[0]
                    bad_is_zero = o == "==" or o == "<=" and i == [0] or o == ">=" and i == [1]
                    ctx.ob("data/masked", bad_is_zero and strip(iv[0].a[0]) is sx, e, "pixels with %s are hidden" % show(k)[:60])
            other = [q for q in subterms(k) if q.op == "attr" and q.a[1] in ("flux", "wave") and strip(q.a[0]) is sx]
            if k.op == "cmp" and other and not iv:
                ctx.ob("data/masked", False, e, "pixels with %s are hidden, not the masked ones" % show(k)[:60])
    if not n:
        raise Undecided("no data are drawn")


def r_curves(ctx):
    I, ds = drawn(ctx)
    n = 0

    def zsc(t):
        """(scan of the target and type, column)"""
        c, b = col(t)
        if c is None:
            return None
        b = strip(b)
        if b.op == "sub":
            d = strip(b.a[0])
            if d.op == "sub" and self_attr(d.a[0], "zscan"):
                return strip(d.a[1]), strip(b.a[1]), c
        return None
    for e, x, y in ds:
        if contains(y, lambda q: self_attr(q, "zscan")) or contains(x, lambda q: self_attr(q, "zscan")):
            n += 1
            xs = zsc(x)
            y = strip(y)
            ts = [strip(q) for q in y.a[1:]] if y.op == "bin" and y.a[0] == "+" else [y]
            ys = [zsc(q) for q in ts]
            if xs is None or None in ys:
                if y.op == "bin" and y.a[0] in ("-", "*", "/"):
                    ctx.ob("curve/chi2", False, e, "the curve drawn is " + show_top(y))
                else:
                    ctx.undecided.append((ctx.cur, "curve " + show(y)[:80]))
                continue
            ok = all(canon(q[0]) == canon(xs[0]) and canon(q[1]) == canon(xs[1]) for q in ys)
            ctx.ob("curve/one scan", ok, e, "redshifts and chi2 of the curve come from different scans")
            ok = xs[0].op == "attr" and xs[0].a[1] == "id" and current(xs[0].a[0])
            ctx.ob("curve/target", ok, e, "the curve is that of target %s" % show(xs[0])[:60])
            ctx.ob("curve/chi2", xs[2] == "redshifts" and sorted(q[2] for q in ys) in (["zchi2"], ["penalty", "zchi2"]), e, "%s is drawn against %s" % ("+".join(q[2] for q in ys), xs[2]))
            lab = ckw(e.result, "label")
            if lab is not None and is_const(lab) and is_const(xs[1]) and not str(lab.a[0]).startswith("_"):
                ctx.ob("curve/label", lab.a[0] == xs[1].a[0], e, "the curve of %s is labelled %s" % (xs[1].a[0], lab.a[0]))
            continue
        cx, bx = col(x)
        cy, by = col(y)
        if cx is not None and cy is not None and row_of(bx) is not None and row_of(by) is not None:
            n += 1
            ctx.ob("fits/columns", (cx, cy) == ("z", "chi2"), e, "%s is drawn against %s" % (cy, cx))
            check_row(ctx, "fits", bx, e, znum=False)
            check_row(ctx, "fits", by, e, znum=False)
    for e in I.effects:
        if e.kind != "call" or e.meth not in ("text", "annotate") or len(e.args) < 3 or not e.loops:
            continue
        (cx, bx), (cy, by) = col(e.args[0]), col(e.args[1])
        if (cx, cy) != ("z", "chi2") or canon(bx) != canon(by):
            continue
        v = strip(e.args[2])
        while v.op in ("fstr", "fmt") and v.a and isinstance(v.a[0], T) and len([x for x in v.a if isinstance(x, T) and not is_const(x)]) == 1:
            v = strip([x for x in v.a if isinstance(x, T) and not is_const(x)][0])
        if is_call(v, "builtins.str") and len(cargs(v)) == 1:
            v = strip(cargs(v)[0])
        c, b = col(v)
        if c is not None:
            ctx.ob("fits/label", c == "znum" and canon(b) == canon(bx), e, "a minimum is labelled with %s of %s" % (c, show(b)[-60:]))
        elif self_attr(v, "znum") or self_attr(v, "itarget"):
            ctx.ob("fits/label", False, e, "every minimum is labelled with " + show(v)[:60])
    if not n:
        raise Undecided("no chi2 curve is drawn")


def r_truth(ctx):
    """the true redshift drawn is that of the displayed target"""
    I = ctx.interp(PLOT)
    n = 0
    for e in I.effects:
        if e.kind != "call" or e.meth not in ("axvline", "plot", "axhline", "vlines") or not isinstance(e.result, T):
            continue
        for v in cargs(e.result):
            v = strip(v)
            tr = [q for q in subterms(v) if self_attr(q, "truth")]
            if not tr:
                continue
            n += 1
            if e.meth == "axvline":
                # the column drawn
                b, cols, idx = v, [], []
                while b.op == "sub":
                    k = strip(b.a[1])
                    if is_const(k) and isinstance(k.a[0], str):
                        cols.append(k.a[0])
                    else:
                        idx.append(k)
                    b = strip(b.a[0])
                if not self_attr(b, "truth") or len(cols) != 1:
                    ctx.undecided.append((ctx.cur, "true redshift"))
                    continue
                ctx.ob("truth/column", "z" in cols[0].lower(), e, "column %s of the truth is drawn as redshift" % cols[0])
            eq = [q for k in subterms(v) if k.op == "sub" for q in subterms(k.a[1]) if q.op == "cmp" and q.a[0] == "==" and contains(q, lambda w: self_attr(w, "truth"))]
            ok = any(strip(y).op == "attr" and strip(y).a[1] == "id" and current(strip(y).a[0]) for q in eq for y in q.a[1:])
            pos = any(self_attr(strip(k.a[1]), "itarget") or is_const(strip(k.a[1])) and isinstance(strip(k.a[1]).a[0], int) and self_attr(strip(k.a[0]) if strip(k.a[0]).op != "sub" else strip(strip(k.a[0]).a[0]), "truth") for k in subterms(v) if k.op == "sub" and contains(k.a[0], lambda w: self_attr(w, "truth")) and not contains(k.a[1], lambda w: w.op == "cmp"))
            if ok or eq or pos:
                ctx.ob("truth/target", ok, e, "the true redshift is not that of the displayed target: " + show(v)[-80:])
            else:
                ctx.undecided.append((ctx.cur, "row of the truth"))
    if not n:
        raise Undecided("no true redshift is drawn")


def r_bands(ctx):
    """per-camera coefficients are in the order of the sorted camera names"""
    I, ds = drawn(ctx)
    n = 0
    for e, x, y in ds:
        if not contains(y, is_eval):
            continue
        for v in {q.id: q for q in subterms(y) if q.op == "sub"}.values():
            k = strip(v.a[1])
            if k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] == "index" and contains(k, lambda w: w.op == "attr" and w.a[1] == "band"):
                n += 1
                l = strip(k.a[0].a[0])
                while is_call(l, "builtins.list", "builtins.tuple") and cargs(l):
                    l = strip(cargs(l)[0])
                ctx.ob("bands/order", is_call(l, "builtins.sorted") or not (l.op in ("attr", "comp")), e, "coefficients of the camera are found by its place in %s, but stored in sorted order" % show(l)[:50])
                b = cargs(k)
                ctx.ob("bands/own", bool(b) and strip(b[0]).op == "attr" and strip(b[0]).a[1] == "band" and (spectrum_of(x) is None or strip(strip(b[0]).a[0]) is spectrum_of(x)), e, "the coefficients are those of camera %s" % (show(b[0])[:50] if b else ""))
    if not n:
        raise Undecided("per-camera coefficients")


def r_labels(ctx):
    I = ctx.interp(PLOT)
    n = 0
    for e in I.effects:
        if e.kind == "append" and isinstance(e.value, T):
            v = strip(e.value)
            if not contains(v, lambda q: is_call(q, "redrock.zwarning.ZWarningMask.flags", "flags")):
                continue
            n += 1
            el = strip(v.a[0]) if v.op == "sub" else None
            if el is None or not is_const(v.a[1]):
                ctx.undecided.append((ctx.cur, "label " + show(v)[:60]))
                continue
            ctx.ob("label/name", v.a[1].a[0] == 0, e, "the label is not the name of the flag")
            from .c31 import realguards
            hit = None
            for g in realguards(e):
                if g.op == "cmp" and any(y.op == "bin" and y.a[0] == "&" and contains(y, lambda q: q is el) for y in map(strip, g.a[1:])):
                    hit = g
            if hit is None:
                if any(y.op == "bin" and y.a[0] in ("|", "^", "+") and contains(y, lambda q: q is el) for g in realguards(e) if g.op == "cmp" for y in map(strip, g.a[1:])):
                    ctx.ob("label/set flags only", False, e, "the flags are not tested with &")
                elif any(contains(g, lambda q: q is el) for g in realguards(e)):
                    ctx.undecided.append((ctx.cur, "condition of the label"))
                else:
                    ctx.ob("label/set flags only", False, e, "a flag is listed whether or not it is set")
                continue
            y = [q for q in map(strip, hit.a[1:]) if q.op == "bin"][0]
            zero = [q for q in hit.a[1:] if is_const(q) and q.a[0] == 0]
            other = [strip(q) for q in y.a[1:] if not contains(q, lambda w: w is el)]
            mask = [strip(q) for q in y.a[1:] if contains(q, lambda w: w is el)]
            if zero and len(other) == 1 and len(mask) == 1:
                ctx.ob("label/set flags only", hit.a[0] == "!=" or hit.a[0] == "<" and is_const(hit.a[1]) or hit.a[0] == ">" and is_const(hit.a[2]), e, "a flag is listed when %s" % show(hit)[-60:])
                ctx.ob("label/mask", mask[0].op == "sub" and is_const(mask[0].a[1], 1) and strip(mask[0].a[0]) is el, e, "the flag is tested with %s" % show(mask[0])[-60:])
                c, r = col(other[0])
                if c is not None:
                    ctx.ob("label/zwarn", c == "zwarn", e, "the flags are read from column %s" % c)
                    check_row(ctx, "label", r, e)
            else:
                ctx.undecided.append((ctx.cur, "condition of the label"))
    if not n:
        raise Undecided("warning labels")


def r_keys(ctx):
    F = P + "_onkeypress"
    I = ctx.interp(F)
    sets = [e for e in I.effects if e.kind == "setattr" and e.d.get("attr") in ("itarget", "znum")]
    if not sets:
        raise Undecided("keys")
    S = mk("param", F, "self")
    it, zn, nz = mk("attr", S, "itarget"), mk("attr", S, "znum"), mk("attr", S, "nznum")

    def truth(g, env):
        g = strip(g)
        if g.op == "not":
            return not truth(g.a[0], env)
        if g.op in ("and", "or"):
            v = [truth(x, env) for x in g.a]
            return all(v) if g.op == "and" else any(v)
        if g.op == "cmp" and g.a[0] in ("<", "<=", ">", ">=", "==", "!="):
            a, b = val(g.a[1], env), val(g.a[2], env)
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[g.a[0]]
        raise Undecided("condition " + show(g)[:60])

    def val(t, env):
        t = strip(t)
        if t in env:
            return env[t]
        if is_call(t, "min", "max", "builtins.min", "builtins.max") and cargs(t):
            v = [val(x, env) for x in cargs(t)]
            return (min if fname(t.a[0]).endswith("min") else max)(v)
        if is_call(t, "len", "builtins.len") and cargs(t):
            b = strip(cargs(t)[0])
            if b.op == "attr" and ("len", b.a[1]) in env:
                return env[("len", b.a[1])]
            raise Undecided("length of " + show(b)[:40])
        if t.op == "bin":
            f = t.a[0]
            v = [val(x, env) for x in t.a[1:]]
            r = v[0]
            for y in v[1:]:
                r = {"+": r + y, "-": r - y, "*": r * y}.get(f) if f != "%" else r % y
                if r is None:
                    raise Undecided("operator " + f)
            return r
        return ev(t, env)
    n = 0
    for e in sets:
        key = [strip(x).a[0] for g, k in e.guards for c in ([g] if g.op == "cmp" else []) if c.a[0] == "==" for x in c.a[1:] if is_const(x) and isinstance(x.a[0], str)]
        if len(key) != 1:
            continue
        key = key[0]
        gs = [g for g, k in e.guards if not contains(g, lambda q: q.op == "attr" and q.a[1] == "key")]
        at = e.attr
        op = e.d.get("op")
        for nt, ns in ((1, 1), (3, 3), (5, 5), (2, 4), (4, 2)):
            last = min(nt, ns) - 1
            for i in range(last + 1):
                for nzv in (1, 3):
                    for z in range(nzv):
                        env = {it: i, zn: z, nz: nzv, ("len", "targets"): nt, ("len", "zscan"): ns}
                        if not all(truth(g, env) for g in gs):
                            if at == "itarget" and key in ("up", "down") and 0 <= i + (1 if key == "down" else -1) <= last:
                                ctx.ob("%s/reachable" % key, False, e, "target %d of %d cannot be left by %s" % (i, last + 1, key))
                                n += 1
                            continue
                        v = val(e.value, env)
                        if op:
                            b = i if at == "itarget" else z
                            v = {"+": b + v, "-": b - v}.get(op)
                            if v is None:
                                raise Undecided("operator " + op)
                        n += 1
                        if at == "itarget":
                            if key in ("up", "down"):
                                d = 1 if key == "down" else -1
                                ctx.ob("%s/one step" % key, v == i + d, e, "%s goes from target %d to %d" % (key, i, v))
                            ctx.ob("%s/in range" % key, 0 <= v <= last, e, "%s goes from target %d to %d of %d" % (key, i, v, last + 1))
                        elif key in ("left", "right"):
                            d = 1 if key == "right" else -1
                            ctx.ob("%s/one fit" % key, v == (z + d) % nzv, e, "%s goes from fit %d of %d to %d" % (key, z, nzv, v))
                        else:
                            ctx.ob("%s/first fit" % key, v == 0, e, "the fit shown of the next target is number %d" % v)
    moved = {k for e in sets if e.attr == "itarget" for k in [tuple(g for g, kk in e.guards)]}
    reset = {k for e in sets if e.attr == "znum" and is_const(e.value, 0) for k in [tuple(g for g, kk in e.guards)]}
    for e in sets:
        if e.attr == "itarget":
            g = {canon(x) for x, kk in e.guards}
            ok = any(y.attr == "znum" and is_const(y.value) and {canon(x) for x, kk in y.guards} <= g for y in sets)
            ctx.ob("fit is reset", ok, e, "the number of the fit is kept for another target, which may have fewer")
    if not n:
        raise Undecided("keys")


def r_targets(ctx):
    I = ctx.interp(P + "__init__")
    n = 0
    for e in I.effects:
        if e.kind == "setattr" and e.d.get("attr") == "targets":
            v = strip(strip_alloc(e.value))
            n += 1
            if v.op == "comp":
                el, c = strip(v.a[1]), v.a[2]
                ok = c.op == "cmp" and c.a[0] == "in" and strip(c.a[1]).op == "attr" and strip(c.a[1]).a[1] == "id" and strip(strip(c.a[1]).a[0]) is el
                t = [q for q in subterms(c.a[2]) if is_const(q) and isinstance(q.a[0], str)] if ok else []
                if ok and len(t) == 1:
                    ctx.ob("targets/with fits", t[0].a[0] == "targetid", e, "targets are kept by column %s" % t[0].a[0])
                elif c is TRUE:
                    ctx.ob("targets/with fits", False, e, "targets without fits are kept")
                else:
                    ctx.undecided.append((ctx.cur, "targets " + show(c)[:80]))
            elif v.op == "param":
                ctx.ob("targets/with fits", False, e, "targets without fits are kept")
            else:
                ctx.undecided.append((ctx.cur, "targets"))
    if not n:
        raise Undecided("targets")
    for nm in ("zscan", "zfit", "templates", "archetypes", "truth"):
        for e in I.effects:
            if e.kind == "setattr" and e.d.get("attr") == nm:
                v = strip(e.value)
                if v.op == "param":
                    ctx.ob("inputs/" + nm, v.a[1] == nm, e, "%s is the argument %s" % (nm, v.a[1]))


def run(ctx):
    ctx.rule("model", "the model drawn is the one that was fitted: template, coefficients and redshift of the selected fit of the displayed target, at the wavelengths and resolution of the spectrum drawn, without other factors", r_model)
    ctx.rule("data", "the flux drawn is that of the spectrum, without its masked pixels", r_data)
    ctx.rule("curves", "the chi2 curves and fits drawn are those of the displayed target", r_curves)
    ctx.rule("truth", "the true redshift drawn is that of the displayed target", r_truth)
    ctx.rule("bands", "per-camera coefficients are those of the camera of the spectrum drawn, in sorted order", r_bands)
    ctx.rule("labels", "the warnings listed are exactly the flags set in the selected fit", r_labels)
    ctx.rule("keys", "the keys step through all targets and fits, one at a time and within range", r_keys)
    ctx.rule("targets", "targets without fits are left out; tables and templates are those handed in", r_targets)
