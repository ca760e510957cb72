"""C23: rebinning never reads outside the template."""
import itertools
from ..q import *
from ..logic import implies
from ..arith import poly, canon, peq
from ..terms import *
from ..terms import mkcmp, mksub
from ..ctx import Undecided, Stop

RB = "redrock.rebin."
TR, RT = RB + "trapz_rebin", RB + "rebin_template"
KERN = (RB + "_trapz_rebin_1d", RB + "_trapz_rebin_batch", RB + "_trapz_rebin_batch_gpu")
ONE = KERN[0]
LIST = ("list", "tuple")
ARR = ("numpy.array", "numpy.asarray", "cupy.array", "cupy.asarray", "numpy.atleast_1d")


def bare(t):
    """the array without conversions"""
    while True:
        u = strip(t)
        if u.op == "alloc":
            u = u.a[1]
        if u.op == "call" and (fname(u.a[0]) or "") in ARR and cargs(u):
            v = strip_alloc(cargs(u)[0])
            if v.op in LIST:
                return mk("list", *v.a)
            u = v
        if u is t:
            return t
        t = u


def extreme(m, which):
    """largest or smallest element of an array term"""
    m = bare(m)
    if m.op == "list" and len(m.a) == 1:
        return m.a[0]
    if which in ("max", "min") and m.op == "list" and all(is_const(x) for x in m.a) and m.a:
        return const((max if which == "max" else min)(x.a[0] for x in m.a))
    return mk("ext1", which, m)


def simp(t):
    """normal form: extremes and first/last elements of arrays, no conversions"""
    memo = {}

    def go(x):
        r = memo.get(x.id)
        if r is None:
            r = memo[x.id] = step(x)
        return r

    def step(x):
        b = bare(x)
        if b.op == "list":
            return mk("list", *[go(y) for y in b.a])
        if b is not x:
            return go(b)
        if is_call(x, "numpy.max", "numpy.min", "numpy.amax", "numpy.amin", "cupy.max", "cupy.min", "builtins.max", "builtins.min") and len(cargs(x)) == 1:
            return extreme(go(cargs(x)[0]), "max" if "max" in fname(x.a[0]) else "min")
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("max", "min") and len(x.a) == 1:
            return extreme(go(x.a[0].a[0]), x.a[0].a[1])
        if is_call(x, "numpy.mean", "numpy.median", "numpy.average", "numpy.nanmean") and len(cargs(x)) == 1:
            return extreme(go(cargs(x)[0]), "mean")
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "mean" and len(x.a) == 1:
            return extreme(go(x.a[0].a[0]), "mean")
        if x.op == "call" and (fname(x.a[0]) or "") in ("builtins.float", "numpy.float64") and len(cargs(x)) == 1:
            return go(cargs(x)[0])
        if x.op == "attr" and x.a[1] in ("minwave", "maxwave"):
            return mk("end", go(mk("attr", x.a[0], "wave")), 0 if x.a[1] == "minwave" else -1)
        if x.op == "attr" and x.a[1] == "gpuwave":
            return go(mk("attr", x.a[0], "wave"))
        if x.op == "sub" and is_const(x.a[1], 0, -1):
            b = go(x.a[0])
            if b.op == "list" and b.a:
                return b.a[x.a[1].a[0]]
            return end(b, x.a[1].a[0])
        if x.op in ("const", "param", "ext", "fn", "cls", "global", "ext1", "end", "poly"):
            return x
        return mk(x.op, *[go(y) if isinstance(y, T) else y for y in x.a])

    def end(b, k):
        if b.op == "bin" and b.a[0] == "*":
            arr = [f for f in b.a[1:] if isarray(f)]
            if len(arr) == 1:
                return mk("bin", "*", *[end(f, k) if f is arr[0] else f for f in b.a[1:]])
        if b.op == "ite":
            return mkite(b.a[0], end(b.a[1], k), end(b.a[2], k))
        return mk("end", b, k)

    return go(t)


def isarray(f):
    f = strip(f)
    return f.op == "attr" and f.a[1] in ("wave", "gpuwave", "x") or f.op == "param" and f.a[1] in ("x", "wave") or f.op == "call" and (fname(f.a[0]) or "") in ARR \
        or f.op == "ite" and all(isarray(y) for y in f.a[1:]) or f.op == "bin" and any(isarray(y) for y in f.a[1:])


def num(t):
    return poly(simp(t))


def atoms_ok(t):
    """the value is built from the pieces this rule knows"""
    for x in subterms(t, stop=lambda y: y.op in ("end", "ext1")):
        if x.op == "call":
            return False
        if x.op in ("mu", "loop", "store", "comp", "undef"):
            return False
    return True


def conds(*ts):
    out = []
    for t in ts:
        for x in subterms(t):
            if x.op == "ite":
                for a in batoms(x.a[0]):
                    if a not in out:
                        out.append(a)
    return out


def r_guard(ctx):
    I = ctx.interp(TR, stop_extra=KERN)
    P = {n: mk("param", TR, n) for n in ("xmin", "xmax", "edge_min", "edge_max", "edges", "myz", "use_gpu", "x")}
    found = []
    for e in I.effects:
        if e.kind == "call" and (fname(e.fn) or "") in KERN:
            found.append(e)
    if not found:
        raise Undecided("no compiled kernel is called")
    for e in found:
        k = fname(e.fn)
        b = e.d.get("bound") or {}
        X, E = b.get("x"), b.get("edges")
        M = b.get("myz")
        if X is None or E is None:
            raise Undecided("kernel arguments")
        guards = [g for g, kk in e.guards]
        free = [mkcmp("is", P[n], NONE) for n in ("edge_min", "edge_max", "xmin", "xmax", "edges", "myz")]
        sc = [a for a in conds(X, E, *([M] if M is not None else [])) + [a for g in guards for a in batoms(g)] if is_call(a, "numpy.isscalar", "numpy.ndim", "builtins.isinstance")]
        sc = list(dict.fromkeys(sc))[:2]
        for lo in (True, False):
            names = ("edge_min", "xmin") if lo else ("edge_max", "xmax")
            for ne, nx, dd, dz in itertools.product((True, False), repeat=4):
                for ss in itertools.product((True, False), repeat=len(sc)):
                    lits = {mkcmp("is", P[names[0]], NONE): ne, mkcmp("is", P[names[1]], NONE): nx, mkcmp("is", P["edges"], NONE): dd, mkcmp("is", P["myz"], NONE): dz}
                    if dz and any(ss):
                        continue
                    for s, v in zip(sc, ss):
                        lits[s] = v
                    gs = [simp(assume(g, lits)) for g in guards]
                    if any(is_const(g) and not g.a[0] for g in gs):
                        continue
                    x, ed = assume(X, lits), assume(E, lits)
                    m = assume(M, lits) if M is not None else None
                    edge = simp(mksub(ed, const(0 if lo else -1))) if ne else P[names[0]]
                    if nx:
                        first = simp(mksub(x, const(0 if lo else -1)))
                        lim = first if m is None else mk("bin", "*", first, mk("bin", "+", const(1), extreme(simp_arr(m), "max" if lo else "min")))
                    else:
                        lim = P[names[1]]
                    concl = mkcmp("<=", lim, edge) if lo else mkcmp("<=", edge, lim)
                    # normal forms of both sides so that equal values are the same atom
                    pre = [normcmp(g) for g in gs]
                    c = normcmp(concl)
                    why = []
                    r = implies(pre, c, why)
                    tag = "guard/%s/%s" % (k.rsplit("_", 1)[-1] if k != ONE else "1d", "low" if lo else "high")
                    if r:
                        ctx.ob(tag, True, e, "")
                        continue
                    rel = [g for g in pre if contains(g, lambda y: y.op == "call" and not is_call(y, "numpy.isscalar", "builtins.len", "builtins.type", "builtins.isinstance", "numpy.ndim"))]
                    if rel or r is None:
                        raise Undecided("guard " + show((rel or pre or [TRUE])[0])[:80])
                    ctx.ob(tag, False, e, "the kernel is reached although %s may not hold (%s)" % (
                        "the template starts at or below the first bin edge" if lo else "the template ends at or above the last bin edge",
                        ", ".join("%s %s" % (n, "omitted" if v else "given") for n, v in zip(names + ("edges", "myz"), (ne, nx, dd, dz)))))
                    return


def simp_arr(m):
    b = bare(m)
    return mk("list", *[simp(y) for y in b.a]) if b.op == "list" else simp(b)


def normcmp(t):
    """comparisons written as polynomial difference against zero: name both sides canonically"""
    def f(x):
        if x.op == "cmp" and x.a[0] in ("<", "<="):
            return mk("cmp", x.a[0], can(x.a[1]), can(x.a[2]))
        return x
    return rewrite(t, f)


def can(t):
    return mk("poly", repr(canon(t)))


def r_only(ctx):
    """the kernels are called from trapz_rebin (and its private helpers) only"""
    import ast
    prog = ctx.prog
    callers = {}
    for q, f in prog.funcs.items():
        for n in ast.walk(f.node):
            nm = n.id if isinstance(n, ast.Name) else n.attr if isinstance(n, ast.Attribute) else None
            if nm:
                callers.setdefault(nm, set()).add(q)
    mods = {}
    for k in KERN:
        short = k.rsplit(".", 1)[1]
        todo, seen = [short], set()
        while todo:
            nm = todo.pop()
            for q in callers.get(nm, ()):
                if q in seen or q.rsplit(".", 1)[1] == nm:
                    continue
                seen.add(q)
                if q == TR or q in KERN:
                    continue
                if q in ctx.KNOWN or not q.startswith(RB):
                    ctx.ob("only/" + short, False, q, "%s reaches the unchecked kernel %s%s" % (q, short, "" if nm == short else " through " + nm))
                    return
                todo.append(q.rsplit(".", 1)[1])
        ctx.ob("only/" + short, True, k, "")
        for m, mod in prog.mods.items():
            tree = getattr(mod, "tree", None)
            if tree is None or m == "redrock.rebin":
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom) and any(a.name == short for a in n.names):
                    ctx.ob("only/" + short, False, m, "%s imports the unchecked kernel %s" % (m, short))


def r_batch(ctx):
    """the batch kernel hands the shifted wavelengths of each redshift to the one-dimensional kernel"""
    q = KERN[1]
    I = ctx.interp(q, stop_extra=KERN)
    P = {n: mk("param", q, n) for n in ("x", "y", "edges", "myz", "results", "redshifted_x")}
    got = calls(I, ONE)
    if not got:
        raise Undecided("one-dimensional kernel not called")
    for e in got:
        b = e.d.get("bound") or {}
        if b.get("edges") is not P["edges"]:
            raise Undecided("edges of the one-dimensional kernel")
        ctx.ob("batch/edges", True, e, "")
        xs = strip_alloc(b["x"])
        zi = None
        if xs.op == "loop":
            st = xs.a[1]
            if st.op == "store":
                i = st.a[1]
                v = st.a[2]
                n = mk("idx", i.a[0], i.a[1]) if i.op == "idx" else None
                ms = [y for y in subterms(v) if y.op == "sub" and y.a[0] is P["myz"]]
                if i.op == "idx" and ms:
                    want = mk("bin", "*", mksub(P["x"], i), mk("bin", "+", const(1), ms[0]))
                    whole = covers_index(i, P["x"])
                    ctx.ob("batch/shift", peq(v, want), e, "wavelengths are scaled by %s" % show(v)[:80])
                    if whole is not None:
                        ctx.ob("batch/all-samples", whole, e, "only part of the wavelengths is shifted")
                    zi = ms[0].a[1]
        elif xs.op == "bin" and xs.a[0] == "*":
            ms = [y for y in subterms(xs) if y.op == "sub" and y.a[0] is P["myz"]]
            if ms:
                ctx.ob("batch/shift", peq(xs, mk("bin", "*", P["x"], mk("bin", "+", const(1), ms[0]))), e, "wavelengths are scaled by %s" % show(xs)[:80])
                zi = ms[0].a[1]
        if zi is None:
            raise Undecided("shifted wavelengths")
        r = strip_alloc(b["results"])
        if r.op == "sub" and r.a[0] is P["results"] and r.a[1].op == "tuple":
            ctx.ob("batch/row", r.a[1].a[0] is zi, e, "the result of one redshift is stored in the row of another")


def covers_index(i, x):
    src = strip(i.a[0])
    if src is x:
        return True
    if is_range(src):
        c = range_cov(src, x, i)
        return None if c is None else c == "all"
    return None


def r_ranges(ctx):
    """ranges supplied by callers are the template's ends at the extreme redshifts"""
    n = 0
    todo = []
    import ast

    def uses(node):
        return any(isinstance(x, ast.Name) and x.id in ("trapz_rebin", "rebin_template") or isinstance(x, ast.Attribute) and x.attr in ("trapz_rebin", "rebin_template") for x in ast.walk(node))
    for q in ctx.entries(uses):
        if q.startswith(RB) and q != RT:
            continue
        todo.append(q)
    for q in todo:
        try:
            I = ctx.interp(q, stop_extra=(TR, RT) if q != RT else (TR,))
        except Exception as e:
            ctx.undecided.append((ctx.cur, "%s: %s" % (q, e)))
            continue
        for e in calls(I, TR, RT):
            b = e.d.get("bound")
            if not b:
                ctx.undecided.append((ctx.cur, "%s: arguments of the rebinning" % q))
                continue
            n += 1
            f = fname(e.fn)
            tag = "ranges/%s/%s" % (q.rsplit(".", 1)[-1], f.rsplit(".", 1)[-1])
            ng = {g: v for g, v in [(x, True) for x, k in e.guards]}
            if f == TR:
                x, m = b.get("x"), b.get("myz")
            else:
                x, m = mk("attr", b.get("template"), "wave"), b.get("myz")
            dflt = {}
            if q == RT:
                for nme in ("xmin", "xmax"):
                    p = mk("param", RT, nme)
                    dflt[nme] = p
            for nme, lo in (("xmin", True), ("xmax", False)):
                v = b.get(nme)
                if v is None or v is NONE:
                    ctx.ob(tag, True, e, "")
                    continue
                for cs, w in ites(v):
                    if w is NONE or w is dflt.get(nme):
                        ctx.ob(tag, True, e, "")
                        continue
                    if m is None:
                        raise Undecided("redshifts of the rebinning")
                    xx = x
                    a = {}
                    for c in cs:
                        a[c] = True
                    a.update(ng)
                    xx = assume(x, a)
                    mm = assume(m, a)
                    end = simp(mksub(xx, const(0 if lo else -1)))
                    alts = []
                    for c2, m2 in ites(mm):
                        sh = const(0) if m2 is NONE else extreme(simp_arr(m2), "max" if lo else "min")
                        alts.append(mk("bin", "*", end, mk("bin", "+", const(1), sh)))
                        arr = simp_arr(m2)
                        if is_call(strip_alloc(arr), "numpy.linspace"):
                            # an ascending grid (a scanned window of redshifts)
                            a0 = cargs(strip_alloc(arr))
                            for alt in (mk("end", arr, -1 if lo else 0), a0[1 if lo else 0]):
                                alts.append(mk("bin", "*", end, mk("bin", "+", const(1), alt)))
                    got = simp(assume(w, a))
                    ok = any(peq(got, t) for t in alts)
                    if not ok and not (atoms_ok(got) and all(atoms_ok(t) for t in alts)):
                        if not same_kind(got, alts[0]):
                            ctx.undecided.append((ctx.cur, "%s: %s=%s" % (q, nme, show(got)[:60])))
                            continue
                    ctx.ob(tag + "/" + nme, ok, e, "%s passes %s as the %s, expected the template's %s edge at the %s redshift" % (
                        q.rsplit(".", 1)[-1], show(w)[:70], nme, "lower" if lo else "upper", "highest" if lo else "lowest"))
            edgeargs(ctx, e, b, q, tag)
    if not n:
        raise Undecided("no rebinning call found")


def same_kind(got, want):
    """both are products of a template end and (1+z) with the same or another extreme of the same redshifts"""
    g = [y for y in subterms(got) if y.op in ("ext1", "end")]
    w = [y for y in subterms(want) if y.op in ("ext1", "end")]
    base = lambda t: t.a[0] if t.op == "end" else t.a[1]
    g += [y for y in subterms(got) if y.op == "sub" and any(y.a[0] is base(x) for x in w)]
    base0 = base
    base = lambda t: t.a[0] if t.op == "sub" else base0(t)
    if not g or not w or not all(any(base(x) is base(y) for y in w) for x in g):
        return False
    left = leaves_out(got, [base(x) for x in w])
    return not left


def inner(k):
    """an index that is neither the first nor the last element"""
    k = strip(k)
    if is_const(k):
        return isinstance(k.a[0], int) and k.a[0] not in (0, -1)
    return k.op == "bin" and k.a[0] in ("//", "/") and is_const(k.a[2]) and not contains(k, lambda q: q.op == "sub")


def leaves_out(t, arrays=()):
    out = []

    def go(x):
        if x.op in ("ext1", "end", "const"):
            return
        if x.op == "sub" and any(x.a[0] is y for y in arrays) and inner(x.a[1]):
            return
        if x.op == "bin":
            for y in x.a[1:]:
                go(y)
            return
        out.append(x)
    go(t)
    return out


def edgeargs(ctx, e, b, q, tag):
    """edge_min / edge_max given with the edges are the first and last edge of the same grid"""
    ed = b.get("edges")
    for nme, pos in (("edge_min", 1), ("edge_max", 2)):
        v = b.get(nme)
        if v is None or v is NONE or ed is None:
            continue
        for cs, w in ites(v):
            w = strip_alloc(w)
            if w.op in ("mu", "loop"):
                ctx.ob(tag + "/" + nme, False, e, "%s can be that of the spectrum handled before" % nme)
                continue
            if w is NONE:
                continue
            a = {c: True for c in cs}
            g = strip_alloc(assume(ed, a))
            if w.op == "sub" and is_const(w.a[1]) and g.op == "sub" and is_const(g.a[1], 0) and strip(g.a[0]) is strip(w.a[0]) and w.a[1].a[0] in (1, 2, -1, -2):
                p = w.a[1].a[0] % 3
                ctx.ob(tag + "/" + nme, p == pos, e, "%s is taken from position %d of the (edges, first, last) tuple" % (nme, p))
            elif w.op == "sub" and is_const(w.a[1], 0, -1) and strip(w.a[0]) is strip(g):
                ctx.ob(tag + "/" + nme, w.a[1].a[0] == (0 if pos == 1 else -1), e, "%s is the wrong end of the grid" % nme)
            elif w.op == "attr" and w.a[1] in ("minedge", "maxedge"):
                ctx.ob(tag + "/" + nme, w.a[1] == ("minedge" if pos == 1 else "maxedge"), e, "%s is %s" % (nme, w.a[1]))
            else:
                ctx.undecided.append((ctx.cur, "%s: %s" % (q, nme)))


def r_tuples(ctx):
    """(edges, first, last) tuples and the cached ends are built from the same grid"""
    n = 0
    q = "redrock.targets.Spectrum.gpuedges"
    I = ctx.interp(q, stop_extra=(RB + "centers2edges",))
    at = {}
    for e in effs(I, "setattr"):
        at[e.attr] = e
    for nme, k in (("minedge", 0), ("maxedge", -1)):
        e = at.get(nme)
        g = at.get("_gpuedges")
        if e is None or g is None:
            raise Undecided("cached ends of the grid")
        src = bare(g.value)
        v = simp(e.value)
        if v.op == "sub" and is_const(v.a[1]):
            ctx.ob("tuples/" + nme, False, e, "%s is element %s of the edges" % (nme, show(v.a[1])))
            continue
        if v.op != "end":
            raise Undecided("cached end " + show(v)[:60])
        same = v.a[0] is simp(src)
        ctx.ob("tuples/" + nme, same and v.a[1] == k, e, "%s is %s of %s" % (nme, "the first edge" if v.a[1] == 0 else "the last edge", show(v.a[0])[:60]))
        if is_call(src, RB + "centers2edges"):
            w = ckw(src, "centers", 0)
            ctx.ob("tuples/grid", w.op == "attr" and w.a[1] == "wave", e, "edges come from " + show(w)[:60])
    for q in sorted(ctx.prog.funcs):
        f = ctx.prog.funcs[q]
        import ast
        if not any(isinstance(x, ast.Attribute) and x.attr in ("minedge", "maxedge") and isinstance(x.ctx, ast.Load) for x in ast.walk(f.node)) or q.startswith("redrock.targets.Spectrum"):
            continue
        for t in ast.walk(f.node):
            if isinstance(t, ast.Tuple) and len(t.elts) == 3 and all(isinstance(x, ast.Attribute) for x in t.elts):
                names = [x.attr for x in t.elts]
                if set(names) & {"minedge", "maxedge"}:
                    owners = {ast.unparse(x.value) for x in t.elts}
                    n += 1
                    ctx.ob("tuples/" + q.rsplit(".", 1)[-1], len(owners) == 1 and names[1:] == ["minedge", "maxedge"] and names[0] in ("gpuedges", "_gpuedges"),
                           "%s:%d" % (q, t.lineno), "tuple (%s)" % ", ".join(names))


def r_ends(ctx):
    """minwave and maxwave are the ends of the template's own wavelengths"""
    for cls in ("redrock.templates.Template", "redrock.archetypes.Archetype"):
        q = cls + ".__init__"
        I = ctx.interp(q)
        me = mk("param", q, "self")
        ws = [e for e in effs(I, "setattr") if e.base is me and e.attr == "wave"]
        vals = [strip(e.value) for e in ws]
        for e in effs(I, "setattr"):
            if e.base is not me or e.attr not in ("minwave", "maxwave"):
                continue
            tag = "ends/%s/%s" % (cls.rsplit(".", 1)[1], e.attr)
            for cs, v in ites(e.value):
                v = strip_alloc(v)
                if v.op == "call" and (fname(v.a[0]) or "").rsplit(".", 1)[-1] in ("min", "max", "amin", "amax"):
                    ctx.ob(tag, (fname(v.a[0]) or "").endswith(e.attr[:3]), e, "%s is the %s" % (e.attr, fname(v.a[0]).rsplit(".", 1)[-1]))
                    src = cargs(v)[0]
                elif v.op == "sub" and is_const(v.a[1]):
                    src = v.a[0]
                    ctx.ob(tag, is_const(v.a[1], 0) if e.attr == "minwave" else is_const(v.a[1], -1), e, "%s is wave[%s]" % (e.attr, show(v.a[1])))
                else:
                    raise Undecided("value of %s" % e.attr)
                lv = [strip(x) for c2, x in ites(src)]
                if not all(x in vals or x.op == "attr" and x.a[1] == "wave" for x in lv):
                    raise Undecided("source of %s" % e.attr)
                late = [w for w in ws if I.effects.index(w) > I.effects.index(e)]
                ctx.ob(tag + "/final", not late, e, "%s is taken before the wavelengths are final" % e.attr)


def run(ctx):
    ctx.rule("guard", "every call of a compiled kernel in trapz_rebin is dominated by a check that implies template start at the highest redshift <= first edge and last edge <= template end at the lowest redshift, for the very arrays passed on, for every combination of omitted and given ranges", r_guard)
    ctx.rule("only", "no function outside trapz_rebin and its private helpers names a compiled kernel", r_only)
    ctx.rule("batch", "the batch kernel scales all wavelengths by 1+z of the row it fills", r_batch)
    ctx.rule("ranges", "caller-supplied xmin/xmax equal the template's end times (1 + the extreme of the redshifts passed in the same call)", r_ranges)
    ctx.rule("tuples", "precomputed edge tuples are (edges, first, last) of one spectrum's own grid", r_tuples)
    ctx.rule("ends", "minwave/maxwave are the first and last wavelength", r_ends)
