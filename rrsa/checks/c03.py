"""C03: redshift slices are reassembled completely and in grid order."""
from ..q import *
from ..kern import *
from ..store import *
from ..arith import *
from ..terms import rewrite
from ..ctx import Undecided, Stop
from .. import scanflow
from .. import ring as rg

DTI = "redrock.templates.DistTemplate.__init__"


def r_slice(ctx):
    I = ctx.interp(DTI)
    comm = mk("param", DTI, "comm")
    tm = mk("param", DTI, "template")
    red = mk("attr", tm, "redshifts")
    none = mk("cmp", "is", comm, NONE)
    rank = [const(0), mk("attr", comm, "rank")]
    pieces = [e for e in effs(I, "setattr") if e.attr == "_piece"]
    if not pieces:
        raise Undecided("no slice is stored")
    gm = mk("param", DTI, "gpu_mode")
    for e in pieces:
        p = strip(e.value)
        if not is_call(p, "DistTemplatePiece"):
            ctx.undecided.append((ctx.cur, "slice " + show(p)[:80]))
            continue
        g = guard_term(e)
        z = assume(ckw(p, "redshifts", 1), {gm: False})
        idx = ckw(p, "index", 0)
        data = ckw(p, "data", 2)
        dead = b_implies(g, gm)
        for lits, cpu in (({gm: False}, True),):
            gg = assume(g, lits)
            if gg is FALSE or dead:
                continue
            for cs, zz in cases(strip(z)):
                zz = strip(zz)
                if is_none_case(cs, comm):
                    continue
                split, k = None, None
                if zz.op == "sub":
                    split, k = strip(zz.a[0]), strip(zz.a[1])
                if split is not None and is_call(split, "array_split"):
                    a = cargs(split)
                    src = ckw(split, "ary", 0)
                    n = strip(ckw(split, "indices_or_sections", 1))
                    ctx.ob("slice/of-whole-grid", strip(src) is red or deep_strip(src) is deep_strip(red), e, "the grid that is split is " + show(src)[:80])
                    ctx.ob("slice/one-per-rank", n is mk("attr", comm, "size"), e, "the grid is split into %s parts" % show(n)[:60])
                    ctx.ob("slice/own-rank", k is mk("attr", comm, "rank"), e, "rank takes slice " + show(k)[:60])
                    ki = [strip(x) for c2, x in cases(strip(idx)) if not is_none_case(c2, comm)]
                    ctx.ob("slice/index-is-position", all(x is k for x in ki), e, "slice %s is labelled with index %s" % (show(k)[:40], show(strip(idx))[:60]))
                elif by_hand(ctx, e, split, k, comm, red):
                    pass
                elif zz is red:
                    ctx.ob("slice/one-per-rank", False, e, "with MPI every rank evaluates the whole grid, and the copies are concatenated")
                else:
                    ctx.undecided.append((ctx.cur, "slice redshifts " + show(zz)[:80]))
        # data and redshifts of the piece belong together
        rb = [x for x in subterms(data) if is_call(x, "rebin_template")]
        for x in set(rb):
            ctx.ob("slice/data-at-own-redshifts", strip(ckw(x, "myz", 1)) is strip(ckw(p, "redshifts", 1)), e, "templates are rebinned at %s, the slice says %s" % (
                show(ckw(x, "myz", 1))[:80], show(ckw(p, "redshifts", 1))[:80]))
        # GPU mode: all redshifts on GPU ranks
        zg = strip(assume(ckw(p, "redshifts", 1), {gm: True}))
        if rb and not b_implies(g, mknot(gm)):
            if zg.op == "sub" or zg.op == "call":
                ctx.ob("slice/gpu-whole-grid", zg is red, e, "in GPU mode a rank evaluates only " + show(zg)[:80])
            else:
                ctx.ob("slice/gpu-whole-grid", zg is red, e, "in GPU mode a rank evaluates " + show(zg)[:80])
    # the constructor keeps the three apart
    q = "redrock.templates.DistTemplatePiece.__init__"
    if q in ctx.prog.funcs:
        J = ctx.interp(q)
        for e in effs(J, "setattr"):
            v = strip(e.value)
            if v.op == "param" and e.attr in ("index", "redshifts", "data"):
                ctx.ob("piece/" + e.attr, v.a[1] == e.attr, e, "%s is set from %s" % (e.attr, v.a[1]))


def by_hand(ctx, e, split, k, comm, red):
    """slices of the grid cut at multiples of its length over the number of ranks"""
    if split is None or split.op != "comp" or split.a[0] != "list" or split.a[2] is not TRUE:
        return False
    el, it = strip(split.a[1]), split.a[3]
    n, size = strip(it.a[0]), mk("attr", comm, "size")
    if not is_range(n) or range_len(n) != poly(size) or el.op != "sub" or strip(el.a[0]) is not red or el.a[1].op != "slice":
        return False
    i = mk("idx", it.a[0], it.a[1])
    lo, hi, st = el.a[1].a
    if hi is NONE or st is not NONE and not is_const(st, 1):
        return False
    at = lambda t, v: poly(rewrite(t, lambda x: v if x is i else x))
    last = at(hi, mk("bin", "-", size, const(1)))
    ln = mk("call", ext("builtins.len"), red)
    whole = pmul(poly(size), poly(mk("bin", "//", ln, size)))
    if last == whole and whole != poly(ln):
        ctx.ob("slice/of-whole-grid", False, e, "the slices end at %s, which is not the length of the grid when it is no multiple of the number of ranks" % pshow(last)[:80])
        return True
    if last == poly(ln) and (lo is NONE or at(lo, const(0)) in ({}, poly(const(0)))) and lo is not NONE and at(lo, mk("bin", "+", i, const(1))) == poly(hi):
        ctx.ob("slice/of-whole-grid", True, e)
        ctx.ob("slice/own-rank", k is mk("attr", comm, "rank"), e, "rank takes slice " + show(k)[:60])
        return True
    return False


def is_none_case(cs, comm):
    for c in cs:
        if c.op == "cmp" and c.a[0] == "is" and comm in (strip(c.a[1]), strip(c.a[2])):
            return True
    return False


def r_store(ctx):
    S = scanflow.Scan(ctx)
    cells = [c for c in S.cells if c[2] == "serial"]
    if not cells:
        raise Undecided("no serial scan results")
    names = {v: k for k, v in scanflow.OUT.items()}
    cyc = calls(S.I, "cycle")
    for e, r, mode, n, K, i, call, more in cells:
        dt = ckw(call, "dtemplate", 2)
        want = mk("attr", mk("attr", dt, "local"), "index")
        if not more:
            ctx.ob("stored-under-slice/" + names[n], False, e, "the result of one slice is stored without the slice index, later slices overwrite it")
            continue
        k = strip(more[-1])
        ok = k is want or k is mk("attr", mk("attr", dt, "_piece"), "index")
        if not ok and (k.op in ("const", "mu", "idx") or k.op == "attr" or k.op == "bin"):
            ctx.ob("stored-under-slice/" + names[n], False, e, "slice result stored under %s, not under the index of the slice" % show(k)[:60])
        elif ok:
            ctx.ob("stored-under-slice/" + names[n], True, e)
        else:
            ctx.undecided.append((ctx.cur, "slice key " + show(k)[:60]))
        for y in cyc:
            if y.loops and y.loops == e.loops[:len(y.loops)]:
                kc = [x for x in S.I.effects if x.kind == "call" and x.result is not None and strip(x.result) is call]
                s0 = kc[0].seq if kc else None
                ctx.ob("slice-not-exchanged-before-store/" + names[n], not (s0 is not None and s0 < y.seq < e.seq) and not y.seq < (s0 or 0), e,
                       "the slice is exchanged (line %d) before the result of the previous one is stored" % y.line)
    # the cycle is called on the template that was evaluated, on every iteration
    for y in cyc:
        dts = {strip(ckw(c[6], "dtemplate", 2)) for c in cells}
        ctx.ob("cycle/same-template", strip(y.recv) in dts, y, "cycles %s" % show(y.recv)[:60])
        w = [l for l in y.loops if l.op == "while"]
        if not w:
            ctx.undecided.append((ctx.cur, "cycle is not in a while loop"))
            continue
        gs = [g for g, k in y.guards]
        wt = [x for x in effs(S.I, "whiletest") if x.key is w[-1]]
        kinds = {k for g, k in y.guards}
        entry = cells[0][0]
        inner = [g for g in flat_guards(y) if not any(g is h for h in flat_guards_of(wt))]
        outer = [g for x in effs(S.I, "loop") if x.d.get("key") is w[-1] for g in flat_guards(x)]
        wtst = [strip(x.value) for x in wt]
        extra = [g for g in flat_guards(y) if g not in outer and not any(g is t or g in (t.a if t.op == "and" else ()) for t in wtst) and g.op != "exc"]
        ev = [g for x in [c[0] for c in cells] for g in flat_guards(x)]
        if wt:
            extra = [g for g in extra if g not in flat_guards(wt[0])]
        ctx.ob("cycle/every-iteration", not extra, y, "cycle() is skipped unless " + "; ".join(show(g)[:80] for g in extra))
        for x in wt:
            t = strip(x.value)
            mus = [m for m in subterms(t) if m.op == "mu" and m.a[1] is w[-1]]
            for m in mus:
                nm = str(m.a[0]).split("@")[0]
                fin = [b for b in mus_next(S.I, m)]
                for b in fin:
                    if strip(b) is strip(y.result):
                        ctx.ob("cycle/until-done", t is mknot(m) or t.op == "and" and mknot(m) in t.a, x, "loop test is " + show(t)[:80])
                    elif strip(b).op == "const" or b is mknot(y.result):
                        ctx.ob("cycle/until-done", False, x, "the loop does not continue until cycle() reports completion")
        for c in cells:
            g2 = [g for g in flat_guards(c[0]) if g not in flat_guards(y) and g.op != "exc"]
            g2 = [g for g in g2 if not contains(g, lambda q: q.op == "cmp" and q.a[0] == "in")]
            ctx.ob("every-slice-stored/" + names[c[3]], not g2, c[0], "results are only stored when " + "; ".join(show(g)[:80] for g in g2))
        for b in effs(S.I, "break"):
            if b.loops and b.loops[-1] is w[-1]:
                ctx.ob("cycle/no-early-exit", False, b, "the slice loop can end before all slices were evaluated")


def mus_next(I, m):
    """values of a loop variable at the end of an iteration"""
    out = []
    seen = set()
    for e in I.effects:
        for t in [e.d.get(k) for k in ("value", "result", "base") if isinstance(e.d.get(k), T)]:
            for x in subterms(t):
                if x.id not in seen:
                    seen.add(x.id)
                    if x.op == "loop" and x.a[0] is m:
                        out.append(x.a[1])
    v = None
    return out


def flat_guards_of(es):
    out = []
    for e in es:
        out.extend(flat_guards(e))
    return out


def keyseq(t):
    """('sorted'|'plain'|'reversed'|'range'|None, container term) of a sequence of slice indices"""
    t = strip(t)
    if is_call(t, "builtins.sorted", "numpy.sort"):
        if ckw(t, "reverse") is not None and not is_const(ckw(t, "reverse"), False):
            return "reversed", None
        kf = ckw(t, "key")
        if kf is not None and kf is not NONE and fname(kf) != "builtins.int":
            if fname(kf) in ("builtins.str", "builtins.repr", "builtins.len", "builtins.hash", "builtins.id"):
                return fname(kf).rsplit(".", 1)[-1], keyseq(cargs(t)[0])[1]
            return None, None
        k, c = keyseq(cargs(t)[0])
        return "sorted", c
    if is_call(t, "builtins.reversed"):
        return "reversed", None
    if t.op == "sub" and t.a[1].op == "slice":
        st = (list(t.a[1].a) + [NONE] * 3)[2]
        k, c = keyseq(t.a[0])
        if is_const(st, -1):
            return "reversed", c
        if all(x is NONE for x in t.a[1].a):
            return k, c
        return "partial", c
    if t.op in ("keys", "items"):
        return "plain", t.a[0]
    if is_call(t, "keys", "items") and t.a[0].op == "attr":
        return "plain", t.a[0].a[0]
    if is_range(t):
        return "range", None
    return "plain", t


def r_concat(ctx):
    S = scanflow.Scan(ctx)
    names = {v: k for k, v in scanflow.OUT.items()}
    cells = {}
    for c in S.cells:
        if c[2] == "serial" and c[7]:
            cells.setdefault(c[1], set()).add(c[3])
    done = set()
    for e, r, keys, v in S.concat:
        if r not in cells:
            continue
        ns = cells[r]
        nm = "/".join(names[n] for n in sorted(ns))
        a = strip(cargs(v)[0])
        if ckw(v, "axis", 1) is not None and not is_const(ckw(v, "axis", 1), 0):
            ctx.ob("concat/axis/" + nm, False, e, "slices are joined along axis " + show(ckw(v, "axis", 1)))
        if a.op != "comp":
            # np.concatenate(list(d.values()))
            if a.op == "values" or (a.op == "call" and contains(a, lambda y: y.op == "values")):
                ctx.ob("concat/grid-order/" + nm, False, e, "slices are joined in the order they arrived: " + show(a)[:80])
                done |= ns
            else:
                ctx.undecided.append((ctx.cur, "joined sequence " + show(a)[:80]))
            continue
        it = a.a[3]
        el = strip(a.a[1])
        i = mk("idx", it.a[0], it.a[1])
        order, cont = keyseq(it.a[0])
        if order is None or order == "range":
            if order == "range":
                n = rargs(strip(it.a[0]))
                ok = len(n) == 1 and strip(n[0]).op == "attr" and strip(n[0]).a[1] in ("size", "_comm_size")
                if ok:
                    done |= ns
                    ctx.ob("concat/grid-order/" + nm, True, e)
                    continue
            ctx.undecided.append((ctx.cur, "joined over " + show(it.a[0])[:80]))
            continue
        done |= ns
        ctx.ob("concat/grid-order/" + nm, order == "sorted", e, "slices are joined in %s order of their index, not in increasing order" % ("insertion" if order == "plain" else order))
        ctx.ob("concat/all-slices/" + nm, a.a[2] is TRUE and order != "partial", e, "only some slices are joined")
        # element is cell[key] of the same container
        if el.op == "sub" and el.a[1].op == "const" and strip(el.a[0]).op == "sub":
            el2 = el
        if el.op == "sub":
            base = el.a[0]
            rr = {x for x, ks in S.W.cells(base)}
            rr0 = {x for x, ks in S.W.cells(e.base)} | {r}
            if strip(base).op == "call" and is_call(strip(base), "concatenate", "hstack", "append"):
                ctx.ob("concat/own-array/" + nm, False, e, "an already joined array is joined again: " + show(base)[:80])
            elif rr and all(x.op == "alloc" for x in rr):
                ctx.ob("concat/own-array/" + nm, r in rr, e, "slices of another array are joined into this one")
                ks = [k for x, k in S.W.cells(base) if x is r]
                if ks and keys and ks[0]:
                    ctx.ob("concat/own-target/" + nm, strip(ks[0][0]) is strip(keys[0]), e, "slices of target %s are joined for target %s" % (show(ks[0][0])[:60], show(keys[0])[:60]))
    for n in names:
        if n not in done and any(n in s for s in cells.values()):
            ctx.undecided.append((ctx.cur, "how the slices of %s are joined" % names[n]))
    # a slice dictionary used directly as the result
    # the scan chi2 is stored next to the template's full grid
    for e, b, k, v in S.W.w:
        if is_const(k, "redshifts"):
            v = strip(v)
            if v.op == "attr" and v.a[1] == "redshifts":
                o = strip(v.a[0])
                ctx.ob("stored-grid", o.op == "attr" and o.a[1] in ("template", "_template"), e, "the grid stored with the scan is " + show(v)[:80])
                for r, ks in S.W.cells(b):
                    if len(ks) > 1:
                        from .c01 import full_type_of
                        ctx.ob("stored-grid/same-template", full_type_of(ks[1], o), e, "grid of %s stored for %s" % (show(o)[:60], show(ks[1])[:60]))
            else:
                ctx.undecided.append((ctx.cur, "stored grid " + show(v)[:60]))


def r_eval(ctx):
    I = caller(ctx, ZS + "calc_zchi2")
    dt = mk("param", ZS + "calc_zchi2", "dtemplate")
    loc = [mk("attr", dt, "local"), mk("attr", dt, "_piece")]
    for e in calls(I, "calc_zchi2_batch"):
        td = strip(e.bound.get("tdata"))
        nz = strip(e.bound.get("nz"))
        if td.op == "attr":
            ctx.ob("evaluates-own-slice", td.a[1] == "data" and strip(td.a[0]) in loc, e, "the scan evaluates " + show(td)[:60])
        if is_call(nz, "len"):
            x = strip(cargs(nz)[0])
            if x.op == "attr":
                ctx.ob("slice-length", x.a[1] == "redshifts" and strip(x.a[0]) in loc, e, "number of redshifts is " + show(nz)[:60])
        nb = strip(e.bound.get("nbasis"))
    if not ctx.obs:
        raise Undecided("no kernel call")


def r_ring(ctx):
    I = rg.ring(ctx)
    if I is None:
        raise Undecided("no cycle method")
    snd, rcv = rg.comms(I)
    if not snd or not rcv:
        raise Undecided("no exchange")
    s = mk("param", rg.CY, "self")
    piece = mk("attr", s, "_piece")
    for e in snd:
        v = strip(e.args[0]) if e.args else None
        ctx.ob("ring/sends-current-slice", v is piece, e, "sends " + (show(v)[:60] if v is not None else "?"))
    new = [e for e in effs(I, "setattr") if e.attr == "_piece"]
    if not new:
        ctx.ob("ring/keeps-received-slice", False, rg.CY, "the received slice is not kept")
    got = [strip(e.result) for e in rcv if e.result is not None]
    for e in new:
        ctx.ob("ring/keeps-received-slice", strip(e.value) in got or is_call(strip(e.value), "wait"), e, "the new slice is " + show(e.value)[:60])
        ctx.ob("ring/sent-before-replaced", all(x.seq < e.seq for x in snd), e, "the slice is replaced before it was sent")
    for n in range(1, 9):
        for e in snd:
            to = rg.table(rg.partner(e, ("dest",), 1), I, n)
            if None in to:
                raise Undecided("send partner does not fold")
            # one cycle through all ranks
            r, k = 0, 0
            seen = []
            while r not in seen and 0 <= r < n:
                seen.append(r)
                r = to[r]
            ctx.ob("ring/visits-all-ranks", len(seen) == n and r == 0, e, "with %d ranks a slice only visits ranks %s" % (n, seen))
    # completion is reported exactly after as many exchanges as there are ranks
    c = mk("attr", s, "_comm")
    R, S = rg.rank_size(I)
    nocomm = [mk("cmp", "is", c, NONE), mk("cmp", "is", mk("attr", s, "comm"), NONE)]
    ret = deep_strip(assume(I.ret, {x: False for x in nocomm}))
    old = deep_strip(mk("attr", piece, "index"))
    news = [deep_strip(mk("attr", g, "index")) for g in got]
    for n in range(1, 6):
        to = rg.table(rg.partner(snd[0], ("dest",), 1), I, n)
        fr = {t: r for r, t in enumerate(to)}
        for r in range(n):
            idx = list(range(n))
            for k in range(1, n + 1):
                o = idx[r]
                idx = [idx[fr[q]] if q in fr else None for q in range(n)]
                if None in idx:
                    return
                env = {x.id: const(r) for x in R}
                env.update({x.id: const(n) for x in S})
                env[old.id] = const(o)
                for x in news:
                    env[x.id] = const(idx[r])
                v = strip(rg.fold(ret, env))
                if v.op != "const":
                    raise Undecided("completion " + show(v)[:80])
                ctx.ob("ring/done-exactly-when-all-slices-seen", bool(v.a[0]) == (k == n), rg.CY,
                       "with %d ranks, completion after %d exchanges is %s" % (n, k, v.a[0]))


REDUCE = ("max", "min", "amax", "amin", "argmax", "argmin", "nanmax", "nanmin", "ptp")


def fails_on_empty(ctx, q, name, bound):
    """a reduction without identity that q applies to its parameter when that has no elements"""
    I = ctx.interp(q)
    x = mk("param", q, name)
    lits = {}
    for k, v in bound.items():
        p = mk("param", q, k)
        if v is NONE:
            lits[mkcmp("is", p, NONE)] = True
        elif v is TRUE or v is FALSE:
            lits[p] = v is TRUE
    for e in effs(I, "call"):
        r = strip(e.result)
        if r.op != "call":
            continue
        n = fname(r.a[0]).split(".")[-1]
        if n not in REDUCE:
            continue
        a = cargs(r)
        if r.a[0].op == "attr" and not fname(r.a[0]).startswith(("numpy.", "cupy.")):
            a = [r.a[0].a[0]]
        if not a or strip(a[0]) is not x:
            continue
        g = with_size(assume(guard_term(e), lits), x, 0)
        if b_implies(g, FALSE):
            continue
        if e.d.get("initial") is not None or any(y.op == "kw" and y.a[0] == "initial" for y in r.a[1:]):
            continue
        return e, n
    return None


def r_empty(ctx):
    """a process without a share of the redshifts (more processes than redshifts) has nothing to do"""
    I = ctx.interp(DTI)
    gm = mk("param", DTI, "gpu_mode")
    n = 0

    def shares(e, v, k, r=0):
        """condition of e on a process with rank r of 5 that gets k redshifts"""
        lits = {gm: False}
        for y in subterms(v.a[1]):
            if y.op == "cmp" and y.a[0] == "is" and NONE in y.a[1:]:
                lits[y] = False     # with a communicator
        g, v = assume(guard_term(e), lits), strip(assume(v, lits))
        grid, nproc = cargs(strip(v.a[0]))[:2]
        return with_size(g, v, k, ((v.a[1], r), (grid, 3 if k == 0 else 5 * k), (nproc, 5)))

    for e in effs(I, "call"):
        b = e.d.get("bound")
        if not b:
            continue
        for k, v in b.items():
            v = strip(assume(v, {gm: False}))
            if not (v.op == "sub" and is_call(strip(v.a[0]), "numpy.array_split")):
                continue
            q = fname(strip(e.result).a[0]) if strip(e.result).op == "call" else None
            if q is None or q not in ctx.prog.funcs:
                continue    # the constructor of the slice
            n += 1
            short = [k for k in (1, 2, 3) if b_implies(shares(e, v, k), FALSE)]
            ctx.ob("empty/%s/share" % q.split(".")[-1], not short, e, "a slice of %s redshifts is not evaluated" % "/".join(map(str, short)))
            if all(b_implies(shares(e, v, 0, r), FALSE) for r in (3, 4)):
                ctx.ob("empty/" + q.split(".")[-1], True, e)
                continue
            bad = fails_on_empty(ctx, q, k, b)
            ctx.ob("empty/" + q.split(".")[-1], bad is None, e, "" if bad is None else "with more processes than redshifts the slice is empty, and %s takes its %s" % (q.split(".")[-1], bad[1]))
    if not n:
        raise Undecided("use of the slice")


def run(ctx):
    ctx.rule("slices", "rank r holds slice r of the whole grid split over all ranks, labelled r, rebinned at those redshifts", r_slice)
    ctx.rule("evaluate", "the scan evaluates the local slice at its own redshifts", r_eval)
    ctx.rule("store", "each slice result is stored under the index of the slice evaluated, before it is exchanged, on every iteration until done", r_store)
    ctx.rule("concatenate", "all slices of one array of one target are joined in increasing slice order", r_concat)
    ctx.rule("empty", "a process whose slice has no redshifts applies no reduction without identity to it", r_empty)
    ctx.rule("ring", "cycle() passes the slice on, keeps the received one, visits all ranks and ends when the own slice is back", r_ring)
