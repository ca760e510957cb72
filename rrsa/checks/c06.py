"""C06: serial, multi-process and MPI runs feed the same computation."""
from ..q import *
from ..store import *
from ..terms import *
from ..ctx import Undecided, Stop
from .. import scanflow
from .c32 import C3
from .c17 import elem as rowelem

ZF = "redrock.zfind."
ZS = "redrock.zscan."


MODES = ("serial", "MPI", "MPI with processes", "worker")


def modes(q, e):
    """[(mode name, literals)] in which the call is reached"""
    comm, mp = mk("attr", mk("param", q, "targets"), "comm"), mk("param", q, "mp_procs")
    out = []
    for nm in MODES:
        vals = {mp: const(1 if nm in ("serial", "MPI") else 4)}
        nn = [comm]
        if not nm.startswith("MPI"):
            vals[comm] = NONE
        sub = lambda t, vals=vals, nn=nn: settle(t, vals, nn)
        if not any(sub(g) is FALSE for g in flat_guards(e)):
            out.append((nm, sub))
    return out


def sites(ctx, q, kernel):
    f = ctx.prog.funcs[q]
    if not {"targets", "mp_procs"} <= set(f.params()[0]):
        raise Undecided("parameters of " + q)
    I = ctx.interp(q)
    full = {"fitz": "redrock.fitz.fitz", "calc_zchi2": ZS + "calc_zchi2"}[kernel]
    cs = [e for e in calls(I, kernel) if fname(e.fn) == full and e.d.get("bound")]
    if not cs:
        raise Undecided("no call of %s in %s" % (kernel, q))
    byq = {}
    for e in cs:
        for nm, lits in modes(q, e):
            byq.setdefault(nm, []).append((e, lits))
    return I, cs, byq


def pins(t):
    return {x for x in subterms(t) if x.op == "param"}


def conv(t):
    """drop conversions that keep the value"""
    t = strip(t)
    while t.op == "call" and fname(t.a[0]) in ("builtins.int", "builtins.float", "builtins.bool", "numpy.asarray", "numpy.array", "builtins.list") and len(cargs(t)) == 1:
        t = strip(cargs(t)[0])
    return deep_strip(t)


def settle(t, vals, notnone):
    """t with the terms in vals replaced by constants and tests on them decided"""
    m = {k.id: v for k, v in vals.items()}
    nn = {x.id for x in notnone}
    memo = {}

    def nonish(x):
        """True: is None, False: is not None, None: unknown"""
        if x is NONE:
            return True
        if x.id in nn or x.op in ("alloc", "dict", "list", "tuple") or is_const(x):
            return False
        if x.op == "ite":
            a, b = nonish(x.a[1]), nonish(x.a[2])
            return a if a == b else None
        return None

    def f(x):
        if x.id in memo:
            return memo[x.id]
        if x.id in m:
            r = m[x.id]
        elif x.op == "ite":
            c = f(x.a[0])
            r = f(x.a[1]) if c is TRUE else f(x.a[2]) if c is FALSE else mkite(c, f(x.a[1]), f(x.a[2]))
        elif x.op in ("and", "or", "not"):
            r = [f(y) for y in x.a]
            r = mknot(r[0]) if x.op == "not" else mkand(*r) if x.op == "and" else mkor(*r)
        else:
            na = tuple(f(y) if isinstance(y, T) else y for y in x.a)
            r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            if r.op == "cmp":
                a, b = r.a[1], r.a[2]
                if r.a[0] == "is" and NONE in (a, b):
                    k = nonish(b if a is NONE else a)
                    r = r if k is None else TRUE if k else FALSE
                elif is_const(a) and is_const(b) and isinstance(a.a[0], (int, float)) and isinstance(b.a[0], (int, float)):
                    u, v = a.a[0], b.a[0]
                    k = {"==": u == v, "!=": u != v, "<": u < v, "<=": u <= v, ">": u > v, ">=": u >= v}.get(r.a[0])
                    r = r if k is None else TRUE if k else FALSE
        memo[x.id] = r
        return r
    return f(t)


def plain(t):
    """without arguments that only steer distribution or messages"""
    def f(x):
        if x.op == "call":
            keep = [y for y in x.a[1:] if not (y.op == "kw" and y.a[0] in ("verbose", "comm", "capacities"))]
            if len(keep) != len(x.a) - 1:
                return mk("call", x.a[0], *keep)
        return x
    return rewrite(t, f)


def same(a, b):
    """True, False or None"""
    if a is b:
        return True
    a, b = conv(a), conv(b)
    if a is b:
        return True
    ca, cb = is_const(a), is_const(b)
    if ca and cb:
        return a.a[0] == b.a[0] and type(a.a[0]) is type(b.a[0])
    pa, pb = pins(a), pins(b)
    if ca or cb:
        # a fixed value on one path, an input on the other
        return False if (pa or pb) else None
    if a.op == "param" or b.op == "param":
        if a.op == b.op:
            return False
        if pa != pb:
            return False
        p, t = (a, b) if a.op == "param" else (b, a)
        for k in (1, 2, 3, 4, 7, 20, 100):
            v = number(t, p, k)
            if v is None:
                break
            if v != k:
                return False    # a bounded, scaled or shifted setting
        return None
    if pa != pb:
        return False
    x, y = path(a), path(b)
    if x and y and x[0] is y[0] and x[1] != y[1]:
        return False
    return None


def number(t, p, k):
    """value of t for the value k of the input p; None when t depends on more than that"""
    t = strip(t)
    if t is p:
        return k
    if is_const(t):
        return t.a[0] if isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool) else None
    if t.op == "bin" and t.a[0] in ("+", "*", "-", "//"):
        v = [number(x, p, k) for x in t.a[1:]]
        if None in v:
            return None
        r = v[0]
        for x in v[1:]:
            if t.a[0] == "//" and x == 0:
                return None
            r = {"+": r + x, "*": r * x, "-": r - x}[t.a[0]] if t.a[0] != "//" else r // x
        return r
    if is_call(t, "builtins.min", "builtins.max", "numpy.minimum", "numpy.maximum", "builtins.abs", "numpy.abs") and cargs(t):
        v = [number(x, p, k) for x in cargs(t)]
        if None in v:
            return None
        return abs(v[0]) if "abs" in fname(t.a[0]) else (min if "min" in fname(t.a[0]) else max)(v)
    return None


def path(t):
    """(base, attribute names) of a chain of attributes"""
    names = []
    while t.op == "attr":
        names.append(t.a[1])
        t = t.a[0]
    return (t, names) if names else None


def compare(ctx, q, kernel, skip):
    I, cs, by = sites(ctx, q, kernel)
    for nm in MODES:
        if not ctx.ob("%s/reached-%s" % (kernel, nm), bool(by.get(nm)), cs[0], "%s is not called in %s mode" % (kernel, nm)):
            return
    names = []
    for e in cs:
        for k in e.d["bound"]:
            if k not in names:
                names.append(k)
    ref, rl = by["serial"][0]
    own = ctx.prog.funcs[q].params()[0]
    for k in names:
        if k in skip:
            continue
        if k not in ref.d["bound"]:
            ctx.ob("%s/%s" % (kernel, k), None, ref, "argument list")
            continue
        v0 = rl(ref.d["bound"][k])
        bad, und = None, None
        for nm in by:
            for e, lits in by[nm]:
                if k not in e.d["bound"]:
                    und = "argument list"
                    continue
                v = lits(e.d["bound"][k])
                r = same(v0, v)
                if r is False:
                    bad = (e, "in %s mode %s of %s is %s, in serial mode it is %s" % (nm, k, kernel, show(v)[:70], show(v0)[:70]))
                elif r is None:
                    und = "%s: %s against %s" % (k, show(v)[:60], show(v0)[:60])
        ctx.ob("%s/%s" % (kernel, k), False if bad else None if und else True, bad[0] if bad else ref, bad[1] if bad else und or "")
        if k in own:
            t = conv(v0)
            p = mk("param", q, k)
            ok = True if t is p else False if t.op == "param" or is_const(t) else (None if p in pins(t) else False)
            ctx.ob("%s/%s-is-own-option" % (kernel, k), ok, ref, "parameter %s of %s gets %s" % (k, kernel, show(t)[:80]))


def r_fit(ctx):
    compare(ctx, ZF + "zfind", "fitz", ("zchi2", "target"))


def r_scan(ctx):
    compare(ctx, ZS + "calc_zchi2_targets", "calc_zchi2", ("target_ids", "target_data", "progress"))


def chi_keys(v):
    """sorted list of the results entries added up, or None"""
    out = []

    def terms(t, s):
        t = strip(t)
        if t.op == "bin" and t.a[0] == "+":
            return [y for z in t.a[1:] for y in terms(z, s)]
        if t.op == "bin" and t.a[0] == "-" and len(t.a) == 3:
            return terms(t.a[1], s) + terms(t.a[2], -s)
        if t.op in ("neg", "un"):
            return terms(t.a[-1], -s)
        return [(s, t)]
    def text(x):
        """an entry of the results changed by a function"""
        x = strip(x)
        if x.op == "sub" and x.a[1].op == "const" and isinstance(x.a[1].a[0], str):
            return x.a[1].a[0]
        if is_const(x) or x.op == "ext":
            return show(x)
        if x.op == "call":
            f = x.a[0]
            xs = [text(y) for y in cargs(x)]
            if f.op == "attr":
                xs = [text(f.a[0])] + xs
            n = f.a[1] if f.op == "attr" else fname(f)
            return None if None in xs or not n else "%s(%s)" % (n, ", ".join(xs))
        if x.op == "bin" and x.a[0] in ("*", "/"):
            xs = [text(y) for y in x.a[1:]]
            return None if None in xs else (" %s " % x.a[0]).join(xs)
        return None
    for s, x in terms(v, 1):
        if x.op in ("call", "bin") and text(x) is not None and not is_const(x):
            out.append((s, text(x)))
        elif x.op == "sub" and x.a[1].op == "const" and isinstance(x.a[1].a[0], str):
            out.append((s, x.a[1].a[0]))
        else:
            return None
    return sorted(out)


def r_chi2(ctx):
    q = ZF + "zfind"
    I, cs, by = sites(ctx, q, "fitz")
    want = None
    for nm in MODES:
        for e, lits in by.get(nm, ()):
            v = lits(e.d["bound"]["zchi2"])
            k = chi_keys(rowelem(strip(v)))
            if k is None:
                ctx.ob("fitz/chi2-" + nm, None, e, "chi2 " + show(v)[:80])
                continue
            if want is None:
                want = k
            ctx.ob("fitz/chi2-" + nm, k == want, e, "in %s mode the refinement gets the sum of %s, in serial mode of %s" % (nm, k, want))


NARROW = ("float32", "float16", "single", "half", "f4", "f2", "<f4", "int", "int32", "int64", "i4", "i8")


def narrowings(v):
    """types narrower than double precision that a value passes through"""
    out = set()
    for x in subterms(v):
        if x.op != "call":
            continue
        n = (fname(x.a[0]) or "").rsplit(".", 1)[-1]
        if n not in ("zeros", "empty", "ones", "full", "array", "asarray", "zeros_like", "empty_like", "full_like", "astype", "fromiter", "vstack", "stack"):
            continue
        ts = [y.a[1] for y in x.a[1:] if y.op == "kw" and y.a[0] == "dtype"]
        if n == "astype" or x.a[0].op == "attr" and x.a[0].a[1] == "astype":
            ts += cargs(x)[-1:]
        elif n in ("zeros", "empty", "ones") and len(cargs(x)) > 1:
            ts.append(cargs(x)[1])
        for t in ts:
            k = str(t.a[0]) if is_const(t) else (fname(t) or "")
            k = k.rsplit(".", 1)[-1]
            if k in NARROW:
                out.add((n, k))
    return out


def container(v):
    """what a row was taken from, without the values stored in it"""
    v = strip(v)
    out = [v]
    for r in roots(v.a[0] if v.op == "sub" else v):
        out.append(r)
    return out


def r_precision(ctx):
    """the chi2 of the scan reaches the refinement in the same precision in every mode"""
    q = ZF + "zfind"
    I, cs, by = sites(ctx, q, "fitz")
    want = None
    for nm in MODES:
        for e, lits in by.get(nm, ()):
            v = e.d["bound"]["zchi2"]
            k = set()
            for x in container(lits(v)):
                if x.op == "alloc" or x is strip(rowelem(strip(lits(v)))):
                    k |= narrowings(x.a[1] if x.op == "alloc" and isinstance(x.a[1], T) else x)
            if want is None:
                want = k
            ctx.ob("fitz/precision-" + nm, k == want, e, "in %s mode the chi2 of the scan is stored as %s before the refinement" % (nm, ", ".join(sorted(b for a, b in k - want)) or "double"))


def r_paths(ctx):
    for q, kernel in ((ZF + "zfind", "fitz"), (ZS + "calc_zchi2_targets", "calc_zchi2")):
        I, cs, by = sites(ctx, q, kernel)
        for nm in MODES:
            es = {e for e, l in by.get(nm, ())}
            if len(es) > 1:
                # alternatives must exclude each other
                lits = by[nm][0][1]
                gs = [lits(guard_term(e)) for e in es]
                excl = all(b_implies(a, mknot(b)) for i, a in enumerate(gs) for b in gs[i + 1:])
                ctx.ob("%s/once-%s" % (kernel, nm), True if excl else None, sorted(es, key=lambda e: e.seq)[0], "several calls in %s mode" % nm)
            else:
                ctx.ob("%s/once-%s" % (kernel, nm), len(es) == 1, cs[0], "%s is called at %d places in %s mode" % (kernel, len(es), nm))
            if nm.startswith("MPI"):
                for e in es:
                    ctx.ob("%s/%s-in-process" % (kernel, nm), not e.ctx, e, "in %s mode the work is handed to worker processes, which have no targets there" % nm)


def r_quant(ctx):
    S = scanflow.Scan(ctx)
    if not S.final:
        raise Undecided("no scan results are stored")
    n = 0
    for e, key, ks, X, k, conds in S.final:
        if X is None:
            continue
        rs = roots(X)
        by = {}
        for c in S.cells:
            if c[1] in rs:
                by.setdefault(c[2], set()).add(c[3])
        if len(by) < 2:
            continue
        n += 1
        ctx.ob("stored-" + key, by.get("serial") == by.get("worker"), e, "%s holds output %s of the scan in serial mode and output %s in worker mode" % (
            key, sorted(by.get("serial", ())), sorted(by.get("worker", ()))))
    if not n:
        raise Undecided("stored scan outputs")


LOSSY = ("round", "around", "round_", "rint", "floor", "ceil", "trunc", "fix", "clip", "nan_to_num", "abs", "absolute",
         "sqrt", "log", "exp", "minimum", "maximum")


def changes(v, stop):
    """lossy conversions met on the way from v down to terms accepted by stop"""
    out, seen = set(), set()

    def down(x):
        if x.id in seen:
            return False
        seen.add(x.id)
        if stop(x):
            return True
        hit = False
        for y in x.a:
            for z in (y if isinstance(y, tuple) else (y,)):
                if isinstance(z, T) and z.op not in ("const", "ext", "fn", "param"):
                    seen.discard(z.id)
                    if down(z):
                        hit = True
        if hit and x.op == "call":
            n = (x.a[0].a[1] if x.a[0].op == "attr" else fname(x.a[0]) or "").rsplit(".", 1)[-1]
            if n in LOSSY:
                out.add(n)
            elif narrowings(mk("call", *x.a)) and n in ("astype", "array", "asarray", "single", "half"):
                ts = [str(y.a[1].a[0]) if is_const(y.a[1]) else (fname(y.a[1]) or "?") for y in x.a[1:] if y.op == "kw" and y.a[0] == "dtype"]
                ts += [str(y.a[0]) if is_const(y) else (fname(y) or "?") for y in cargs(x)[0 if n == "astype" else 1:]]
                k = [t.rsplit(".", 1)[-1] for t in ts]
                out.update("%s(%s)" % (n, t) for t in k if t in NARROW)
            elif n in ("float32", "float16", "single", "half"):
                out.add(n)
        return hit
    down(v)
    return out


def r_unchanged(ctx):
    """what the workers send back is stored like what the serial run computes: not rounded or narrowed on the way"""
    S = scanflow.Scan(ctx)
    kern = lambda x: is_call(x, "calc_zchi2") and fname(x.a[0]) == ZS + "calc_zchi2"
    n = 0
    per = {}
    for e, b, k, v in S.W.w:
        if not any(r in S.src for r, ks in S.W.cells(b)):
            continue
        w = resolve_messages(S.I, v)
        ks = [x for x in subterms(w) if x.op == "sub" and is_const(x.a[1]) and kern(strip(x.a[0]))]
        if len(ks) != 1:
            continue
        per.setdefault(ks[0].a[1].a[0], []).append((e, "worker" if w is not v else "serial", changes(w, lambda x: x is ks[0])))
    for out, l in sorted(per.items(), key=str):
        want = {m: c for e, m, c in l}.get("serial")
        if want is None:
            continue
        for e, m, c in l:
            n += 1
            ctx.ob("unchanged/%s-%s" % (out, m), not (c - want) and not (want - c), e, "output %s of the scan passes through %s in %s mode only" % (out, ", ".join(sorted(c ^ want)), m))
    if not n:
        raise Undecided("stored scan outputs")


def r_programs(ctx):
    n = 0
    for q in sorted(ctx.prog.funcs):
        if q not in ("redrock.external.desi.rrdesi", "redrock.external.boss.rrboss"):
            continue
        I = ctx.interp(q)
        comm = mk("param", q, "comm")
        none = mk("cmp", "is", comm, NONE)
        for e in calls(I, "zfind"):
            if fname(e.fn) != ZF + "zfind":
                continue
            for k, v in e.d["bound"].items():
                if k in ("targets", "templates", "mp_procs", "use_gpu", "ncamera"):
                    continue
                if not contains(v, lambda x: x is comm):
                    ctx.ob("%s/%s" % (q.split(".")[-1], k), True, e, "")
                    n += 1
                    continue
                a, b = settle(v, {comm: NONE}, ()), settle(v, {}, (comm,))
                r = same(plain(a), plain(b))
                if r is not True and contains(b, lambda x: x.op == "call" and (fname(x.a[0]) or "").endswith("bcast") or x.op == "attr" and x.a[1] == "bcast"):
                    r = None
                if r is False and not (is_const(a) or is_const(b) or a.op == b.op == "param"):
                    r = None
                if r is True and contains(plain(a), lambda x: x is comm):
                    r = None
                ctx.ob("%s/%s" % (q.split(".")[-1], k), r, e, "option %s is %s without MPI and %s with MPI" % (k, show(a)[:70], show(b)[:70]))
                n += 1
    if not n:
        raise Undecided("calls of zfind by the programs")


def run(ctx):
    ctx.rule("fit", "every parameter of the refinement except the data has the same value in serial, MPI and worker mode, and options reach the parameter of their name", lambda c: r_fit(C3(c)))
    ctx.rule("scan", "every parameter of the scan except the data has the same value in serial, MPI and worker mode", lambda c: r_scan(C3(c)))
    ctx.rule("chi2", "the refinement gets the same combination of scan results in every mode", lambda c: r_chi2(C3(c)))
    ctx.rule("precision", "the scan results reach the refinement in the same precision in every mode", lambda c: r_precision(C3(c)))
    ctx.rule("paths", "every mode calls scan and refinement at exactly one place", lambda c: r_paths(C3(c)))
    ctx.rule("stored", "the same outputs of the scan are stored under the same names in serial and worker mode", lambda c: r_quant(C3(c)))
    ctx.rule("unchanged", "the outputs of the scan are not rounded or narrowed on the way back from the workers", lambda c: r_unchanged(C3(c)))
    ctx.rule("programs", "the programs pass options that do not depend on the execution mode", lambda c: r_programs(C3(c)))
