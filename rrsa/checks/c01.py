"""C01: every result is filed under the target whose data produced it."""
from ..q import *
from ..kern import *
from ..store import *
from ..ctx import Undecided, Stop
from .. import scanflow

ZF = "redrock.zfind."


def data_id(data, i):
    """id of element i of a target list"""
    d = strip(data)
    # API contract: local() and local_target_ids() of one container are parallel (checked in rule containers)
    x = elem(d, i)
    if x.op == "sub" and is_call(strip(x.a[0]), "local") and strip(x.a[0]).a[0].op == "attr":
        o = strip(x.a[0]).a[0].a[0]
        return [idof(x), mk("sub", mk("call", mk("attr", o, "local_target_ids")), x.a[1])]
    return [idof(x)]


def aligned(ids, data, i):
    return any(strip(elem(ids, i)) is strip(y) for y in data_id(data, i))


def opaque(t):
    """no structure known: cannot say anything"""
    t = strip(t)
    return t.op in ("mu", "loop", "unk", "undef") or (t.op == "call" and t.a[0].op in ("fn", "clo", "attr") and not is_call(
        t, "local", "local_target_ids", "distribute_targets", "distribute_work"))


def r_scan(ctx):
    S = scanflow.Scan(ctx)
    if not S.final:
        raise Undecided("no scan results are stored")
    for m in ("serial", "worker"):
        cs = [c for c in S.cells if c[2] == m]
        if not cs:
            ctx.undecided.append((ctx.cur, "no understood %s result write" % m))
        for e, r, mode, n, K, i, call, more in cs:
            ids, data = ckw(call, "target_ids", 0), ckw(call, "target_data", 1)
            nm = "%s/%s" % (mode, {v: k for k, v in scanflow.OUT.items()}.get(n, n))
            # row i of the kernel output belongs to element i of the data
            ok = any(strip(K) is strip(y) for y in data_id(data, i)) or (strip(K) is strip(elem(ids, i)) and aligned(ids, data, i))
            ctx.ob(nm + "/row-of-own-target", ok, e, "row %s of the scan output, computed from element %s of %s, is stored under %s" % (
                show(i)[:50], show(i)[:50], show(data)[:120], show(K)[:120]))
    for call in {c[6] for c in S.cells}:
        ids, data = ckw(call, "target_ids", 0), ckw(call, "target_data", 1)
        i = mk("idx", ids, 0)
        ctx.ob("scan-arguments-parallel", aligned(ids, data, i), scanflow.CT, "ids %s and data %s handed to the scan are not in the same order" % (show(ids)[:100], show(data)[:160]))
    for e, key, ks, X, k, conds in S.final:
        if X is None:
            continue
        want = scanflow.OUT[key]
        for call in {c[6] for c in S.cells}:
            dt = ckw(call, "dtemplate", 2)
            if len(ks) > 1 and dt is not None:
                ctx.ob("final/%s/same-template" % key, full_type_of(ks[1], dt), e, "scan of template %s stored under %s" % (show(dt)[:60], show(ks[1])[:60]))
        ctx.ob("final/%s/same-target" % key, bool(ks) and strip(ks[0]) is strip(k), e, "results of %s are filled from the entry of %s" % (
            show(ks[0])[:80] if ks else "?", show(k)[:80]))
        rs = roots(X)
        ns = {c[3] for c in S.cells if c[1] in rs}
        if ns:
            ctx.ob("final/%s/right-array" % key, ns == {want}, e, "%s is filled from output %s of the scan, must be output %d" % (key, sorted(ns), want))


def full_type_of(k, tm):
    k, tm = strip(k), strip(tm)
    return k is mk("attr", tm, "full_type") or k is mk("attr", mk("attr", tm, "template"), "full_type") or \
        deep_strip(k) in (deep_strip(mk("attr", tm, "full_type")), deep_strip(mk("attr", mk("attr", tm, "template"), "full_type")))


def r_calc(ctx):
    """inside calc_zchi2: row j comes from target_data[j]"""
    q = ZS + "calc_zchi2"
    I = caller(ctx, q)
    data = mk("param", q, "target_data")
    ids = mk("param", q, "target_ids")
    from .c16 import base_array
    r = strip(I.ret)
    if r.op != "tuple":
        raise Undecided("calc_zchi2 does not return a tuple")
    outs = [base_array(x) for x in r.a]
    n = 0
    for e in effs(I, "setitem"):
        b = base_array(e.base)
        if b not in outs:
            continue
        k = e.key.a[0] if e.key.op == "tuple" else e.key
        if k.op == "bin" and contains(k, lambda y: y.op == "idx"):
            ctx.ob("calc_zchi2/row-%d" % outs.index(b), False, e, "row %s is not the row of the target at hand" % show(k)[:80])
        ev = [x for x in subterms(e.value) if is_call(x, "calc_zchi2_batch", "calc_zchi2_one", "calc_negOII_penalty")]
        if not ev:
            continue
        src = set()
        for x in subterms(e.value):
            if x.op == "sub" and strip(x.a[0]) is data:
                src.add(x.a[1])
        if k.op == "idx":
            n += 1
            ctx.ob("calc_zchi2/row-%d" % outs.index(b), src <= {k} and bool(src), e, "row %s is computed from target_data[%s]" % (
                show(k), ", ".join(sorted(show(s) for s in src))))
        else:
            ctx.undecided.append((ctx.cur, "row index " + show(k)[:60]))
    if n == 0:
        raise Undecided("no per-target rows found in calc_zchi2")


def fitz_sites(ctx):
    I = ctx.interp(ZF + "zfind", inline=[ZF + "_mp_fitz"])
    return I, [e for e in calls(I, "fitz") if fname(e.fn) == "redrock.fitz.fitz"]


def id_keys(I, W, t):
    """(target key, template key) of the results entries summed in a chi2 term"""
    out = []
    for x in addends(strip(t)):
        x = strip(x)
        if x.op == "sub" and x.a[1].op == "const" and x.a[1].a[0] in ("zchi2", "penalty"):
            y = strip(x.a[0])
            if y.op == "sub" and strip(y.a[0]).op == "sub":
                out.append((strip(y.a[0]).a[1], y.a[1]))
    return out


def row_value(I, W, v):
    """value of an array element that was written row by row"""
    from .c17 import elem as e17
    v = strip(v)
    x = e17(v)
    return x


def r_fit(ctx):
    I, cs = fitz_sites(ctx)
    W = Writes(I)
    if not cs:
        raise Undecided("no refinement call")
    for e in cs:
        nm = "worker" if e.ctx else "serial"
        tgt = e.bound.get("target")
        chi = e.bound.get("zchi2")
        tid = idof(tgt)
        v = row_value(I, W, chi)
        ks = id_keys(I, W, v)
        if not ks:
            ctx.undecided.append((ctx.cur, nm + ": chi2 source " + show(v)[:80]))
            continue
        for k, ft in ks:
            ctx.ob("refine/%s/chi2-of-own-template" % nm, full_type_of(ft, e.bound.get("template")), e, "refinement with template %s uses the scan of %s" % (show(e.bound.get("template"))[:80], show(ft)[:80]))
            ctx.ob("refine/%s/chi2-of-own-target" % nm, strip(k) is strip(tid), e, "refinement of target %s uses the scan of %s" % (show(tid)[:100], show(k)[:100]))
    n = 0
    for e, b, k, v in W.w:
        if not is_const(k, "zfit"):
            continue
        v2 = strip(resolve_messages(I, v))
        alts = [strip(x) for c, x in ites(v2)]
        for x in alts:
            if is_call(x, "fitz"):
                n += 1
                tid = idof(ckw(x, "target", 2))
                for r, keys in W.cells(b):
                    kk = resolve_messages(I, keys[0]) if keys else None
                    ctx.ob("store-fit/own-target", kk is not None and strip(kk) is strip(tid), e, "fit of target %s stored under %s" % (show(tid)[:100], show(kk)[:100] if kk is not None else "?"))
            else:
                # element of the worker's list of (id, fit)
                y = list_elem(I, x)
                if y is not None:
                    n += 1
                    pay, src = y
                    tid = idof(ckw(pay, "target", 2))
                    for r, keys in W.cells(b):
                        kk = list_elem_any(I, resolve_messages(I, keys[0])) if keys else None
                        ctx.ob("store-fit/own-target", kk is not None and strip(kk) is strip(tid), e,
                               "fit of target %s returned by a worker is stored under %s" % (show(tid)[:100], show(kk)[:120] if kk is not None else "?"))
                else:
                    ctx.undecided.append((ctx.cur, "stored fit " + show(x)[:100]))
    if n == 0:
        raise Undecided("no stored fits understood")
    for e, b, k, v in W.w:
        if is_const(k, "meta"):
            x = strip(v)
            for r, keys in W.cells(b):
                ok = x.op == "attr" and keys and strip(idof(x.a[0])) is strip(keys[0])
                ctx.ob("metadata/own-target", ok, e, "metadata %s stored under %s" % (show(x)[:80], show(keys[0])[:80] if keys else "?"))


def list_elem_any(I, t):
    """simplify comp-list elements inside t"""
    def f(y):
        if y.op == "sub":
            b = strip(y.a[0])
            if b.op == "comp" and b.a[0] == "list" and b.a[2] is TRUE and y.a[1].op == "idx":
                return elem(b, y.a[1])
        return y
    return rewrite(t, f)


def list_elem(I, t):
    u = strip(list_elem_any(I, resolve_messages(I, t)))
    if is_call(u, "fitz"):
        return u, None
    return None


def r_final(ctx):
    I, cs = fitz_sites(ctx)
    W = Writes(I)
    n = 0
    for e, b, k, v in W.w:
        if is_const(k, "targetid"):
            n += 1
            el = written(v)
            ids = [x for x in subterms(v if el is None else el) if x.op == "sub" and x.a[1].op == "idx" and strip(x.a[0]).op == "attr" and strip(x.a[0]).a[1] == "all_target_ids"]
            if el is not None:
                ids = [x for x in ids if x is el]
            # the fits appended to the same table are read from the same id
            fits = [x.a[1] for x in subterms(b) if x.op == "sub" and x.a[1].op == "idx" and contains(x.a[1], lambda y: y.op == "attr" and y.a[1] == "all_target_ids")]
            ok = len(set(ids)) == 1 and all(f.a[0] is ids[0].a[1].a[0] or True for f in fits)
            ctx.ob("catalog/targetid", ok, e, "the target id written to the rows is " + show(v)[:120])
            if ok:
                # every read of allresults in this iteration uses this id
                for x in effs(I, "append"):
                    for s in subterms(x.value):
                        if s.op == "sub" and s.a[1].op == "const" and s.a[1].a[0] == "zfit":
                            p = strip(s.a[0])
                            if p.op == "sub":
                                pp = strip(p.a[0])
                                if pp.op == "sub":
                                    ctx.ob("catalog/fits-of-same-target", strip(pp.a[1]) is strip(ids[0]), x, "rows labelled %s are built from results of %s" % (show(ids[0])[:80], show(pp.a[1])[:80]))
    for e in calls(I, "Column"):
        if not e.args:
            continue
        x = strip(e.args[0])
        if x.op != "comp":
            ctx.undecided.append((ctx.cur, "metadata column " + show(x)[:80]))
            continue
        el, it = strip(x.a[1]), x.a[3]
        y = strip(el.a[0]) if el.op == "sub" else el
        if not (y.op == "sub" and is_const(y.a[1], "meta") and strip(y.a[0]).op == "sub"):
            ctx.undecided.append((ctx.cur, "metadata value " + show(el)[:80]))
            continue
        n += 1
        k = strip(y.a[0]).a[1]
        i = mk("idx", it.a[0], it.a[1])
        src = strip(it.a[0])
        ok = x.a[2] is TRUE and strip(k) is strip(mksub_(it.a[0], i)) and src.op == "sub" and is_const(src.a[1], "targetid")
        ctx.ob("catalog/metadata-column", ok, e, "metadata column must list the metadata of each catalog row's own target, in row order; lists that of " + show(k)[:120])
    if n == 0:
        raise Undecided("catalog assembly not understood")


def r_containers(ctx):
    for q, ids, data in (("redrock.targets.DistTargetsCopy", "_my_targets", "_my_data"), ("redrock.external.desi.DistTargetsDESI", "_my_targets", "_my_data")):
        short = q.rsplit(".", 1)[-1]
        I = ctx.interp(q + ".__init__")
        s = mk("param", q + ".__init__", "self")
        # what the accessors return
        def acc(name):
            J = ctx.interp("%s.%s" % (q, name))
            r = strip(J.ret)
            return r.a[1] if r.op == "attr" and r.a[0].op == "param" else None
        a_ids, a_data = acc("_local_target_ids"), acc("_local_data")
        odd = []
        for name, a in (("_local_target_ids", a_ids), ("_local_data", a_data)):
            r = strip_alloc(strip(ctx.interp("%s.%s" % (q, name)).ret))
            if a is None and is_call(r, "builtins.sorted", "builtins.reversed", "builtins.set", "numpy.unique", "numpy.sort") and len(cargs(r)) == 1 and strip(cargs(r)[0]).op == "attr":
                odd.append((name, r))
        if len(odd) == 1:
            ctx.ob("parallel/%s/accessors" % short, False, "%s.%s" % (q, odd[0][0]), "%s returns %s: the list of %s follows another order" % (
                odd[0][0], show(odd[0][1])[:60], "data" if odd[0][0].endswith("ids") else "ids"))
            continue
        if a_ids is None or a_data is None:
            ctx.undecided.append((ctx.cur, short + " accessors"))
            continue
        vi, wi = final_attr(I, s, a_ids)
        vd, wd = final_attr(I, s, a_data)
        if vi is None or vd is None:
            ctx.undecided.append((ctx.cur, short + " attributes"))
            continue
        for conds, d in ites(vd):
            if strip(d) is NONE:
                continue
            asm = {c: True for c in conds}
            ii = assume(vi, asm) if asm else vi
            d = assume(d, asm) if asm else d
            d0 = strip(d)
            i = mk("idx", strip_alloc(ii), 0)
            x = elem(d, i)
            if d0.op == "comp" or d0.op in ("call", "sub", "attr", "param", "values", "items"):
                if d0.op == "comp" and d0.a[2] is TRUE:
                    it = d0.a[3]
                    j = mk("idx", it.a[0], it.a[1])
                    tid = idof(d0.a[1])
                    ok = strip(it.a[0]) is strip(ii) and strip(tid) is strip(mksub_(it.a[0], j))
                    ctx.ob(short + "/data-follows-ids", ok, wd, "element of the data list for position j has id %s; the id list is %s" % (show(tid)[:100], show(ii)[:100]))
                else:
                    ok = aligned(ii, d, i)
                    ctx.ob(short + "/data-follows-ids", ok, wd, "data list %s is not in the order of the id list %s" % (show(d)[:120], show(ii)[:100]))
            else:
                ctx.undecided.append((ctx.cur, "%s data list %s" % (short, show(d)[:80])))
    # base class accessors
    B = "redrock.targets.DistTargets."
    for m, t in (("local_target_ids", "_local_target_ids"), ("local", "_local_data")):
        J = ctx.interp(B + m)
        r = strip(J.ret)
        ctx.ob("DistTargets." + m, is_call(r, t) or (r.op == "call" and fname(r.a[0]).endswith("." + t)), B + m, "returns " + show(r)[:80])


def written(v):
    """the one value that is repeated in a column"""
    v = strip(v)
    while is_call(v, "numpy.array", "numpy.asarray") and cargs(v):
        v = strip(cargs(v)[0])
    if v.op == "bin" and v.a[0] == "*":
        l = [strip(x) for x in v.a[1:] if strip_alloc(strip(x)).op == "list"]
        if len(l) == 1 and len(strip_alloc(l[0]).a) == 1:
            return strip(strip_alloc(l[0]).a[0])
    if is_call(v, "numpy.full", "numpy.full_like") and len(cargs(v)) >= 2:
        return strip(cargs(v)[1])
    if is_call(v, "numpy.repeat") and cargs(v):
        return strip(cargs(v)[0])
    return None


def mksub_(b, k):
    from ..terms import mksub
    return mksub(b, k)


def final_attr(I, s, name):
    v, w = None, None
    for e in effs(I, "setattr"):
        if e.base is s and e.attr == name:
            w = e
    for k in I.S:
        if k[0] == "H" and k[1] is s and k[2] == name:
            v = I.S[k]
    return v, w


def r_rebalance(ctx):
    q = ZF + "_rebalance_after_scan"
    if q not in ctx.prog.funcs:
        return
    I = ctx.interp(q)
    for e in calls(I, "scatter"):
        a = e.args[0] if e.args else None
        for c, x in ites(strip(a)):
            for y in subterms(x):
                if y.op == "comp" and y.a[0] == "dict":
                    k, v = y.a[1].a
                    v = strip(v)
                    if v.op == "sub":
                        ctx.ob("rebalance/own-key", strip(k) is strip(v.a[1]), e, "entry of %s stored under %s" % (show(v.a[1])[:60], show(k)[:60]))


def run(ctx):
    ctx.rule("scan-attribution", "each scan row is stored under the id at the same position of the id list that is parallel to the data list", r_scan)
    ctx.rule("scan-rows", "row j of the scan output is computed from target j of the data list", r_calc)
    ctx.rule("refine-attribution", "a target is refined from its own scan and the fit is stored under its own id", r_fit)
    ctx.rule("catalog-attribution", "catalog rows and metadata columns carry the id whose results they were built from", r_final)
    ctx.rule("containers", "local id list and local data list of each container class are parallel", r_containers)
    ctx.rule("rebalance", "redistributed results keep their own key", r_rebalance)
