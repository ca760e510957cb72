"""C26: a redshift prior is applied once, to its own target, on every path."""
from fractions import Fraction as Fr
from ..q import *
from ..logic import *
from ..arith import *
from ..store import Writes, elem, idof
from ..terms import mksub, mkcmp
from ..ctx import Undecided, Stop
from .c31 import realguards

ZF = "redrock.zfind.zfind"
PR = "redrock.priors.Priors"


def iseval(t):
    """t is the contribution of a prior"""
    if t.op != "call":
        return False
    n = fname(t.a[0])
    if n.endswith("Priors.eval"):
        return True
    return t.a[0].op == "attr" and t.a[0].a[1] == "eval" and contains(t.a[0].a[0], lambda x: x.op == "call" and fname(x.a[0]).endswith("priors.Priors"))


def evarg(t, name, pos):
    v = ckw(t, name)
    if v is None:
        p = cargs(t)
        if fname(t.a[0]).endswith("Priors.eval") and len(p) > 2:
            p = p[1:]
        v = p[pos] if len(p) > pos else None
    return v


def loopkey(k, conts):
    """(True, container) if k runs over all keys of container"""
    k = strip(k)
    if k.op == "sub" and k.a[1].op == "idx":
        src = k.a[0]
        if strip(src) is strip(k.a[1].a[0]) or k.a[1].a[0].op == "range":
            return src
    return None


def r_apply(ctx):
    I = ctx.interp(ZF)
    W = Writes(I)
    P = mk("param", ZF, "priors")
    given = [mknot(mkcmp("is", P, NONE)), P]
    evs = [e for e in I.effects if e.kind == "call" and iseval(e.result)]
    if not evs:
        ctx.ob("apply/present", False, I.effects[0], "the prior is never evaluated")
        return
    app = []
    for e in I.effects:
        if e.kind == "setitem" and contains(e.value, iseval):
            if not any(iseval(x) for x in subterms(e.value, stop=lambda y: y.op in ("loop", "mu", "comp") or is_call(y, "redrock.fitz.fitz"))):
                continue
            app.append(e)
    if not app:
        raise Undecided("the prior is not added in place")
    fits = [e for e in I.effects if e.kind == "call" and (fname(e.fn).endswith("fitz.fitz") or fname(e.fn).endswith("zfind._mp_fitz"))]
    done = []
    for e in app:
        key = e.key
        vals = [(cs, v) for cs, v in ites(e.value)]
        for cs, v in vals:
            calls_ = [x for x in subterms(v) if iseval(x)]
            if not calls_:
                continue
            x = calls_[0]
            done.append((e, cs))
            # the column
            if is_const(key) and isinstance(key.a[0], str):
                if key.a[0] == "penalty":
                    ctx.undecided.append((ctx.cur, "column"))
                else:
                    ctx.ob("apply/column", key.a[0] == "zchi2", e, "the prior is added to " + key.a[0])
            else:
                ctx.undecided.append((ctx.cur, "column " + show(key)[:40]))
                continue
            # multiplicity
            p = poly(v)
            a = poly(x)
            old = {}
            if e.d.get("op") is None:
                old = poly(mksub(e.base, key))
            if e.d.get("op") in (None, "+"):
                rest = padd(p, pscale(padd(a, old), -1))
                if not rest:
                    ctx.ob("apply/once", True, e)
                else:
                    am = list(a)[0]
                    simple = all(set(f for f, n in m) <= {f for f, n in am} or m == () or m in old for m in p)
                    if simple:
                        ctx.ob("apply/once", False, e, "adds %s" % show(v)[:100])
                    else:
                        ctx.undecided.append((ctx.cur, "added value"))
            elif e.d.get("op") in ("-", "*", "/"):
                ctx.ob("apply/once", False, e, "the prior is combined with chi2 by %s" % e.d["op"])
            else:
                ctx.undecided.append((ctx.cur, "operator"))
            # operands
            tid, zz = evarg(x, "targetid", 0), evarg(x, "z", 1)
            bc = W.cells(e.base)
            if tid is None or zz is None:
                ctx.undecided.append((ctx.cur, "arguments"))
                continue
            ks = [c for c in bc if len(c[1]) >= 2]
            if not ks:
                ctx.undecided.append((ctx.cur, "record"))
                continue
            for r, k in ks:
                kt, kf = k[-2], k[-1]
                same = same_key(tid, kt)
                if same is None:
                    ctx.undecided.append((ctx.cur, "target"))
                else:
                    ctx.ob("apply/own-target", same, e, "the prior of %s is added to the scan of %s" % (show(tid)[-60:], show(kt)[-60:]))
            zc = [c for c in W.cells(zz) if len(c[1]) >= 3]
            if zc:
                ok = all(is_const(c[1][-1], "redshifts") for c in zc)
                ctx.ob("apply/grid", ok, e, "the prior is evaluated on " + show(zc[0][1][-1])[:60])
                bk = {(same_norm(k[-2]), same_norm(k[-1])) for r, k in ks}
                zk = {(same_norm(c[1][-3]), same_norm(c[1][-2])) for c in zc}
                ctx.ob("apply/own-grid", zk <= bk, e, "the redshift grid is that of another record: " + show(zz)[-100:])
            elif strip(zz).op == "attr" and strip(zz).a[1] == "redshifts":
                t = strip(zz).a[0]
                for r, k in ks:
                    kf = strip(k[-1])
                    if kf.op == "attr" and kf.a[1] in ("full_type",):
                        ctx.ob("apply/own-grid", strip(kf.a[0]) is strip(t), e, "the redshift grid is that of another template")
                    elif any(q.op == "sub" and is_const(q.a[1]) and isinstance(q.a[1].a[0], int) and strip(q.a[0]).op == "param" for q in subterms(t)) and not contains(t, lambda q: q.op == "idx"):
                        ctx.ob("apply/own-grid", False, e, "the redshift grid is that of one template for all: " + show(zz)[-60:])
                    else:
                        ctx.undecided.append((ctx.cur, "grid"))
            else:
                ctx.undecided.append((ctx.cur, "grid " + show(zz)[-60:]))
            # guards
            for g in realguards(e) + list(cs):
                g2 = rewrite(resolve(g, given), lambda y: TRUE if y.op == "call" and fname(y.a[0]).endswith("priors.Priors") else y)
                if mknot(mkcmp("is", NONE, NONE)) is g2:
                    continue
                at = batoms(g2)
                if any(a.op == "cmp" and a.a[0] == "is" and any(y.op == "call" and "Priors" in fname(y.a[0]) or y.op == "alloc" and "Priors" in show(y) for y in a.a[1:]) for a in at):
                    g2 = rewrite(g2, lambda y: FALSE if y.op == "cmp" and y.a[0] == "is" and NONE in y.a and any("Priors" in show(w)[:40] or w is TRUE for w in y.a[1:]) else y)
                r = implies(given, g2)
                if r is True:
                    continue
                if any(y in (mk("param", ZF, n) for n in ("chi2_scan", "mp_procs", "use_gpu", "archetypes", "nminima", "per_camera", "deg_legendre")) or
                       y.op == "attr" and y.a[1] in ("comm", "rank", "size") for y in subterms(g2, stop=lambda y: y.op in ("call", "mu", "loop", "comp"))):
                    ctx.ob("apply/always", False, e, "a given prior is only added if " + show(g)[:100])
                else:
                    ctx.undecided.append((ctx.cur, "condition " + show(g)[-60:]))
            # all targets and templates
            for it in e.loops:
                src = it.a[0] if isinstance(it, T) and it.op == "it" else None
                if src is not None and src.op == "sub" and src.a[1].op == "slice" or src is not None and strip(src).op == "sub" and strip(src).a[1].op == "slice":
                    c = covers(src, strip(src).a[0])
                    if c == "part":
                        ctx.ob("apply/all", False, e, "the prior is added to some only: " + show(strip(src).a[1]))
            nest = [it for it in e.loops]
            if len(nest) == 2 and all(isinstance(it, T) for it in nest):
                ctx.ob("apply/nest", True, e)
            elif len(nest) > 2 and any(isinstance(it, T) and not contains(e.base, lambda y, it=it: y.op == "idx" and y.a[0] is it.a[0]) for it in nest):
                ctx.ob("apply/nest", False, e, "the prior is added once per iteration of a further loop")
        # before the refinement
        if fits:
            ctx.ob("apply/before-refinement", e.seq < min(f.seq for f in fits), e, "the prior is added after the minima are searched")
        for f in I.effects:
            if f.kind == "break" and any(l in e.loops for l in f.loops):
                ctx.ob("apply/all", False, f, "the loop over records stops early")
    for i in range(len(done)):
        for j in range(i + 1, len(done)):
            a, b = done[i], done[j]
            if a[0] is b[0]:
                continue
            s = sat(given + [g for g in realguards(a[0])] + [g for g in realguards(b[0])] + a[1] + b[1])
            if s:
                ctx.ob("apply/single", False, b[0], "the prior is added a second time (first at %s)" % a[0].where)
    # the file given by the user
    for x in subterms(app[0].value):
        if x.op == "call" and fname(x.a[0]).endswith("priors.Priors"):
            v = ckw(x, "filename", 0)
            ctx.ob("apply/file", v is not None and strip(v) is P, app[0], "priors are read from " + show(v)[:60])
            break


def same_norm(k):
    return deep_strip(k)


def same_key(a, b):
    a, b = deep_strip(a), deep_strip(b)
    if a is b:
        return True
    if a.op == b.op == "sub" and a.a[1] is b.a[1]:
        return True
    if a.op == "attr" and a.a[1] == "id" or b.op == "attr" and b.a[1] == "id":
        x, y = (a, b) if a.op == "attr" else (b, a)
        if y.op == "sub":
            if deep_strip(idof(x.a[0])) is y:
                return True
            return None
        if x.op == y.op == "attr" and x.a[1] == y.a[1]:
            return x.a[0] is y.a[0] or None
    if a.op == "sub" and b.op == "sub" and a.a[1].op == "idx" and b.a[1].op == "idx" and a.a[1] is not b.a[1]:
        return False
    if is_const(a) or is_const(b):
        return False
    for x, y in ((a, b), (b, a)):
        if x.op == "sub" and is_const(x.a[1]) and isinstance(x.a[1].a[0], int) and (y.op == "sub" and y.a[1].op == "idx" or y.op == "attr"):
            return False
    return None


# ------------------------------------------------------------------ lookup
def r_lookup(ctx):
    Q = PR + ".eval"
    I = ctx.interp(Q)
    T_, Z = mk("param", Q, "targetid"), mk("param", Q, "z")
    S = mk("param", Q, "self")
    n = 0
    order = None
    for f in ("gaussian", "lorentzien", "tophat"):
        fi = ctx.prog.funcs.get(PR + "." + f)
        if fi is None:
            continue
        ps = [a.arg for a in fi.node.args.args]
        ps = [p for p in ps if p != "self"]
        order = ps if order in (None, ps) else False
    if not order or order != ["z", "z0", "s0"]:
        ctx.undecided.append((ctx.cur, "parameters of the prior functions"))
        order = ["z", "z0", "s0"]
    for e in I.effects:
        if e.kind != "call":
            continue
        n_ = show(e.fn)
        if not n_.endswith("._func") and not any(fname(e.fn).endswith("Priors." + f) for f in ("gaussian", "lorentzien", "tophat")):
            continue
        t = e.result.a[1] if e.result.op == "alloc" else e.result
        n += 1
        for i, (p, want) in enumerate((("z", None), ("z0", "Z"), ("s0", "SIGMA"))):
            v = ckw(t, p, i)
            if v is None:
                ctx.undecided.append((ctx.cur, p))
                continue
            v = strip(v)
            kept = [x for _, x in ites(v) for x in [strip(x)] if x.op == "attr" and x.a[0] is S and
                    any(w.kind == "setattr" and w.d.get("attr") == x.a[1] and contains(w.value, lambda y: y is (Z if want is None else T_)) for w in I.effects)]
            if kept:
                ctx.ob("lookup/kept", False, e, "%s is kept from an earlier call in %s" % (p, show(kept[0])))
                continue
            if want is None:
                if v.op in ("param", "const") or not contains(v, lambda x: x is Z):
                    ctx.ob("lookup/z", v is Z, e, "the prior is evaluated on " + show(v)[-60:])
                else:
                    ctx.undecided.append((ctx.cur, "z"))
                continue
            if v.op == "sub" and is_const(v.a[1]):
                ctx.ob("lookup/" + p, v.a[1].a[0] == want, e, "%s is the entry %s" % (p, show(v.a[1])))
                b = strip(v.a[0])
                if b.op == "sub":
                    ctx.ob("lookup/target", strip(b.a[1]) is T_, e, "uses the entry of " + show(b.a[1])[:60])
                elif b.op == "call" and fname(b.a[0]).endswith(".get"):
                    ctx.ob("lookup/target", strip(cargs(b)[0]) is T_, e, "uses the entry of " + show(cargs(b)[0])[:60])
                else:
                    ctx.undecided.append((ctx.cur, "entry"))
            elif v.op in ("param", "const"):
                ctx.ob("lookup/" + p, False, e, "%s is %s" % (p, show(v)))
            else:
                ctx.undecided.append((ctx.cur, p + " " + show(v)[:60]))
    if not n:
        raise Undecided("call of the prior function")
    # targets without an entry
    rets = effs(I, "return")
    miss = [e for e in rets if exc_guards(e)] or [e for e in rets if any(g.op == "not" and g.a[0].op == "cmp" and g.a[0].a[0] == "in" or
                                                                       g.op == "cmp" and g.a[0] in ("in", "notin") for g in flat_guards(e))]
    k = 0
    for e in rets:
        if is_const(e.value) or e.value is NONE:
            k += 1
            ctx.ob("lookup/no-entry", is_const(e.value) and e.value.a[0] == 0, e, "a target without a prior gets " + show(e.value))
        elif exc_guards(e) and not contains(e.value, lambda x: x.op == "sub" or x.op == "attr"):
            k += 1
            v = strip(e.value)
            zero = is_call(v, "numpy.zeros", "numpy.zeros_like")
            if zero:
                ctx.ob("lookup/no-entry", True, e)
            elif is_call(v, "numpy.ones", "numpy.ones_like"):
                ctx.ob("lookup/no-entry", False, e, "a target without a prior gets " + show(v))
            else:
                ctx.undecided.append((ctx.cur, "no entry"))
    if not k:
        if any(c.kind == "raise" and exc_guards(c) for c in I.effects) or not any(c.kind == "raise" for c in I.effects) and not any(contains(e.value, lambda x: fname(x.a[0]).endswith(".get") if x.op == "call" else False) for e in rets):
            ctx.ob("lookup/no-entry", False, rets[0] if rets else "py/redrock/priors.py", "a target without a prior raises an error")
        else:
            ctx.undecided.append((ctx.cur, "no entry"))


def r_table(ctx):
    Q = PR + ".__init__"
    I = ctx.interp(Q)
    n = 0
    for e in I.effects:
        if e.kind == "setattr" and e.d.get("attr") == "_param":
            v = strip(e.value)
            if v.op == "comp" and v.a[0] == "dict":
                k, d = v.a[1].a
                ks = [("TARGETID", k)]
                d = strip_alloc(d)
                if d.op == "dict":
                    ents = list(zip(d.a[::2], d.a[1::2]))
                    for kk, vv in ents:
                        if is_const(kk):
                            ks.append((kk.a[0], vv))
                else:
                    ctx.undecided.append((ctx.cur, "entry " + d.op))
                    continue
                idx = set()
                for nm, t in ks:
                    t = strip(t)
                    if t.op == "sub" and is_call(strip(t.a[0]), "unique", "sort", "sorted", "flip", "reversed", "roll", "argsort"):
                        ctx.ob("table/" + nm, False, e, "%s is re-ordered on its own: %s" % (nm, show(t)[:80]))
                        continue
                    if t.op == "sub" and t.a[1].op == "idx":
                        idx.add(t.a[1])
                        b = strip(t.a[0])
                        if b.op == "sub" and is_const(b.a[1]):
                            n += 1
                            ctx.ob("table/" + nm, b.a[1].a[0] == nm, e, "%s is read from column %s" % (nm, b.a[1].a[0]))
                        else:
                            ctx.undecided.append((ctx.cur, nm))
                    elif t.op == "sub" and is_const(t.a[1]) and isinstance(t.a[1].a[0], int):
                        idx.add(t.a[1])
                    else:
                        ctx.undecided.append((ctx.cur, nm))
                if len(idx) == 1 and list(idx)[0].op == "idx":
                    ctx.ob("table/one-row", True, e)
                    r = list(idx)[0].a[0]
                    if is_range(r) and len(rargs(r)) > 1:
                        a = rargs(r)
                        if is_const(a[0]) and a[0].a[0] != 0:
                            ctx.ob("table/all-rows", False, e, "rows are skipped: " + show(r)[:60])
                    elif is_range(r) and rargs(r)[0].op == "bin":
                        ctx.ob("table/all-rows", False, e, "rows are skipped: " + show(r)[:60])
                    ctx.ob("table/filter", v.a[2] is TRUE, e, "rows are skipped: " + show(v.a[2])[:60]) if v.a[2] is TRUE else ctx.undecided.append((ctx.cur, "filter"))
                elif len(idx) > 1:
                    ctx.ob("table/one-row", False, e, "mean, width and target come from different rows")
            elif is_call(v, "builtins.dict", "zip"):
                ctx.undecided.append((ctx.cur, "table"))
            else:
                ctx.undecided.append((ctx.cur, "table"))
        if e.kind == "setattr" and e.d.get("attr") == "_func":
            v = e.value
            if is_call(v, "builtins.getattr"):
                c = strip(cargs(v)[1])
                if contains(c, lambda x: is_const(x, "FUNCTION")):
                    ctx.ob("table/function", True, e)
                elif is_const(c):
                    ctx.ob("table/function", False, e, "the prior function is always " + show(c))
                else:
                    ctx.undecided.append((ctx.cur, "function"))
            elif v.op in ("attr", "fn", "bm"):
                ctx.ob("table/function", False, e, "the prior function is always " + show(v)[:60])
    if not n:
        raise Undecided("table")


# ------------------------------------------------------------------ functions
def rat(t):
    """(numerator, denominator) polynomials of a rational term"""
    t = strip(t)
    if t.op == "bin" and t.a[0] == "/":
        a, b = rat(t.a[1]), rat(t.a[2])
        return pmul(a[0], b[1]), pmul(a[1], b[0])
    if t.op == "bin" and t.a[0] == "*":
        n, d = {(): Fr(1)}, {(): Fr(1)}
        for x in t.a[1:]:
            a = rat(x)
            n, d = pmul(n, a[0]), pmul(d, a[1])
        return n, d
    if t.op == "bin" and t.a[0] in ("+", "-"):
        n, d = rat(t.a[1])
        for x in t.a[2:]:
            a = rat(x)
            n, d = padd(pmul(n, a[1]), pscale(pmul(a[0], d), 1 if t.a[0] == "+" else -1)), pmul(d, a[1])
        return n, d
    if t.op == "un" and t.a[0] == "-":
        a = rat(t.a[1])
        return pscale(a[0], -1), a[1]
    if t.op == "bin" and t.a[0] == "**" and is_const(t.a[2]) and isinstance(t.a[2].a[0], int) and 0 < t.a[2].a[0] < 5:
        a = rat(t.a[1])
        n, d = a
        for _ in range(t.a[2].a[0] - 1):
            n, d = pmul(n, a[0]), pmul(d, a[1])
        return n, d
    if t.op == "call" and fname(t.a[0]) in ("numpy.square",) and len(cargs(t)) == 1:
        a = rat(cargs(t)[0])
        return pmul(*[a[0]] * 2), pmul(*[a[1]] * 2)
    if t.op == "call" and fname(t.a[0]) in ("builtins.pow", "numpy.power") and len(cargs(t)) == 2:
        return rat(mk("bin", "**", *cargs(t)))
    return poly(t), {(): Fr(1)}


def rateq(a, b):
    return pmul(a[0], b[1]) == pmul(b[0], a[1])


def pure(t, q):
    """only the parameters and arithmetic"""
    return not contains(t, lambda x: x.op in ("attr", "sub", "ite", "mu", "loop", "comp") or x.op == "call" and fname(x.a[0]) not in (
        "numpy.square", "numpy.power", "builtins.pow", "numpy.log", "numpy.log1p", "numpy.abs", "numpy.absolute", "builtins.abs"))


def logform(t):
    """(c, rational) of c*log(r), None"""
    t = strip(t)
    if t.op == "call" and fname(t.a[0]) == "numpy.log" and len(cargs(t)) == 1:
        return Fr(1), rat(cargs(t)[0])
    if t.op == "call" and fname(t.a[0]) == "numpy.log1p" and len(cargs(t)) == 1:
        a = rat(cargs(t)[0])
        return Fr(1), (padd(a[0], a[1]), a[1])
    if t.op == "un" and t.a[0] == "-":
        a = logform(t.a[1])
        return None if a is None else (-a[0], a[1])
    if t.op == "bin" and t.a[0] in ("*", "/"):
        c, l = Fr(1), None
        for i, x in enumerate(t.a[1:]):
            k = pconst(poly(x))
            if k is not None:
                c = c * k if t.a[0] == "*" or i == 0 else c / k
            elif l is None and (t.a[0] == "*" or i == 0):
                l = logform(x)
                if l is None:
                    return None
            else:
                return None
        return None if l is None else (c * l[0], l[1])
    return None


def unabs(t):
    """the square of an absolute value is the square"""
    AB = ("numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs")

    def f(x):
        if x.op == "bin" and x.a[0] == "*" and len(x.a) == 3 and x.a[1] is x.a[2] and is_call(x.a[1], *AB):
            i = cargs(x.a[1])[0]
            return mk("bin", "*", i, i)
        if x.op == "bin" and x.a[0] == "**" and is_call(x.a[1], *AB) and is_const(x.a[2], 2, 2.0, 4, 4.0):
            return mk("bin", "**", cargs(x.a[1])[0], x.a[2])
        if is_call(x, "numpy.square") and is_call(cargs(x)[0], *AB):
            i = cargs(cargs(x)[0])[0]
            return mk("bin", "*", i, i)
        return x
    return rewrite(t, f)


def r_functions(ctx):
    n = 0
    for f in ("gaussian", "lorentzien", "tophat"):
        Q = PR + "." + f
        if Q not in ctx.prog.funcs:
            continue
        I = ctx.interp(Q)
        z, z0, s0 = [mk("param", Q, x) for x in ("z", "z0", "s0")]
        u = mk("bin", "/", mk("bin", "-", z, z0), s0)
        u2 = rat(mk("bin", "*", u, u))
        one = ({(): Fr(1)}, {(): Fr(1)})
        t = unabs(I.ret)
        w = "py/redrock/priors.py (%s)" % f
        if f == "gaussian":
            n += 1
            if pure(t, Q):
                ctx.ob("functions/gaussian", rateq(rat(t), u2), w, "is %s instead of ((z-z0)/s0)^2" % show(t)[:80])
            else:
                ctx.undecided.append((ctx.cur, f))
        elif f == "lorentzien":
            n += 1
            l = logform(t)
            if l is None or not pure(t, Q):
                ctx.undecided.append((ctx.cur, f))
                continue
            A = (padd(u2[0], u2[1]), u2[1])
            ok = l[0] == 2 and rateq(l[1], A) or l[0] == -2 and rateq(l[1], (A[1], A[0]))
            ctx.ob("functions/lorentzian", ok, w, "is %s instead of 2 log(1 + ((z-z0)/s0)^2)" % show(t)[:80])
        else:
            ws = [x for x in subterms(t) if is_call(x, "numpy.where") and len(cargs(x)) == 3]
            if not ws:
                ctx.undecided.append((ctx.cur, f))
                continue
            for x in ws[:1]:
                c, a, b = cargs(x)
                neg = False
                if is_const(b) and b.a[0] == 0:
                    a, b, neg = b, a, True
                n += 1
                ctx.ob("functions/tophat/inside", is_const(a) and a.a[0] == 0, w, "inside the top hat the prior is " + show(a)[:40])
                if neg:
                    c = mknot(c)
                if c.op == "cmp" and c.a[0] in ("<", "<="):
                    l, r = strip(c.a[1]), strip(c.a[2])
                    if l.op == "call" and fname(l.a[0]) in ("numpy.abs", "numpy.absolute", "builtins.abs", "numpy.fabs"):
                        d = poly(cargs(l)[0])
                        dz = padd(poly(z), pscale(poly(z0), -1))
                        ctx.ob("functions/tophat/centre", d == dz or d == pscale(dz, -1), w, "centred on " + show(cargs(l)[0])[:60])
                        ctx.ob("functions/tophat/width", rateq(rat(r), rat(mk("bin", "/", s0, const(2)))), w, "half width is " + show(r)[:60])
                    elif r.op == "call" and fname(r.a[0]) in ("numpy.abs", "numpy.absolute", "builtins.abs", "numpy.fabs"):
                        ctx.ob("functions/tophat/inside", False, w, "the prior excludes the inside of the top hat")
                    else:
                        ctx.undecided.append((ctx.cur, f))
                else:
                    ctx.undecided.append((ctx.cur, f))
    if not n:
        raise Undecided("prior functions")


def run(ctx):
    ctx.rule("apply", "the prior is added once, for its own target and grid, before the minima are searched, whenever given", r_apply)
    ctx.rule("lookup", "mean and width are those of the target; targets without entry get zero", r_lookup)
    ctx.rule("table", "target, mean and width of an entry come from the same row and their own columns", r_table)
    ctx.rule("functions", "the prior functions are the documented functions of (z - mean) / width", r_functions)
