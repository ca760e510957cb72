"""C02: distributing work assigns every unit to exactly one process."""
from ..q import *
from ..kern import *
from ..store import *
from ..arith import *
from ..batch import *
from ..ctx import Undecided, Stop

DW = "redrock.utils.distribute_work"
DT = "redrock.targets.distribute_targets"


def listlen(t):
    """number of elements of [x] * n or of a comprehension over range(n)"""
    t = strip_alloc(strip(t))
    if t.op == "bin" and t.a[0] == "*" and len(t.a) == 3:
        ls = [strip_alloc(x) for x in t.a[1:] if strip_alloc(x).op == "list" and len(strip_alloc(x).a) == 1]
        ns = [x for x in t.a[1:] if strip_alloc(x).op != "list"]
        return ns[0] if len(ls) == 1 and len(ns) == 1 else None
    if t.op == "comp" and t.a[2] is TRUE and is_range(strip(t.a[3].a[0])):
        a = rargs(strip(t.a[3].a[0]))
        return a[0] if len(a) == 1 else None
    if is_call(t, "numpy.ones", "numpy.full") and cargs(t):
        return cargs(t)[0]
    return None


def fresh_lists(t):
    """does a container start as one fresh empty list per process: True / False / None; and the range term"""
    t = strip(t)
    if t.op == "comp" and t.a[0] == "list":
        el = t.a[1]
        if t.a[2] is not TRUE:
            return False, None
        if el.op == "alloc" and strip(el).op == "list" and not strip(el).a:
            return True, t.a[3].a[0]
        if el.op == "call" and fname(el.a[0]) == "builtins.list" and len(el.a) == 1:
            return True, t.a[3].a[0]
        return None, None
    if t.op == "bin" and t.a[0] == "*":
        for x in t.a[1:]:
            y = strip(x)
            if y.op == "list" and len(y.a) == 1 and strip(y.a[0]).op == "list":
                return False, None
    if t.op == "bin" and t.a[0] in ("mul", "rep"):
        return False, None
    return None, None


def r_work(ctx):
    if DW not in ctx.prog.funcs:
        raise Undecided("distribute_work not found")
    I = ctx.interp(DW)
    ids = mk("param", DW, "ids")
    nproc = mk("param", DW, "nproc")
    r = I.ret
    adds = [e for e in I.effects if e.kind in ("append", "extend", "setitem", "aug", "setattr")]
    rts = set()
    for c, x in ites(r):
        rts |= roots(x)
    lists = []
    for t in rts:
        ok, rng = fresh_lists(t)
        if ok is None:
            ctx.undecided.append((ctx.cur, "result list starts as " + show(t)[:80]))
            continue
        ctx.ob("one-list-per-process/separate", ok, DW, "the lists of the processes start as " + show(t)[:80])
        if ok:
            lists.append(t)
            n = strip(rng)
            if is_range(n):
                ctx.ob("one-list-per-process/count", range_len(n) == poly(nproc), DW, "number of lists is " + show(n)[:60])
    if not lists:
        return
    sites = []
    for e in I.effects:
        if e.kind in ("append", "extend") and e.d.get("base") is not None:
            b = e.base
            # an element of the result container
            if strip(b).op == "sub" and roots(strip(b).a[0]) & set(lists):
                sites.append((e, strip(b)))
            elif roots(b) & set(lists):
                ctx.ob("units-only/extra-list", False, e, "a value is added to the list of process lists")
        elif e.kind == "setitem" and roots(e.base) & set(lists):
            v = strip(e.value)
            # dist[i] = dist[i] + [x]
            if e.d.get("op") == "+" or (v.op == "bin"):
                sites.append((e, mk("sub", e.base, e.key)))
            else:
                ctx.undecided.append((ctx.cur, "write " + show(v)[:80]))
        elif e.kind == "call" and e.meth in ("pop", "remove", "clear", "insert") and e.recv is not None and (
                roots(e.recv) & set(lists) or (strip(e.recv).op == "sub" and roots(strip(e.recv).a[0]) & set(lists))):
            if e.meth == "insert":
                sites.append((e, strip(e.recv)))
            else:
                ctx.ob("no-removal", False, e, "a unit is removed from a process list")
    # capacities assumed when none are given: one per process
    cap = mk("param", DW, "capacities")
    for x in {y for e in I.effects for v in ([e.result] if e.kind == "call" and e.result is not None else []) for y in subterms(v) if y.op == "ite"}:
        for c, t in ites(x):
            if mk("cmp", "is", cap, NONE) in c and not contains(t, lambda y: y is cap):
                n = listlen(t)
                if n is not None:
                    ctx.ob("capacities/one-each", peq(n, nproc), DW, "without capacities, %s processes are assumed" % show(n)[:60])
    # comprehension forms have no sites: undecided
    if not sites:
        raise Undecided("no assignment of units found")
    byloop = {}
    for e, b in sites:
        byloop.setdefault(e.loops, []).append(e)
    ctx.ob("assigned-in-one-loop", len(byloop) == 1, sites[0][0], "units are assigned in %d different loops" % len(byloop))
    for loops, es in byloop.items():
        e0 = es[0]
        if len(loops) == 1 and loops[0].op == "while":
            ctx.undecided.append((ctx.cur, "units are assigned in a while loop"))
            continue
        if len(loops) != 1:
            # inner loops over processes
            ctx.undecided.append((ctx.cur, "units are assigned in a nest of %d loops" % len(loops)))
            continue
        key = loops[0]
        src = key.a[0]
        i = mk("idx", src, key.a[1])
        for e in es:
            v = e.value if e.kind != "call" else e.args[-1]
            v = strip(v)
            if e.kind in ("setitem", "extend"):
                ls = [y for y in subterms(v) if y.op == "list" and len(y.a) == 1]
                v = strip(ls[-1].a[0]) if ls else v
            cov = None
            rb = strip(src)
            if is_range(rb):
                if v.op == "sub" and v.a[1] is i:
                    x = strip(v.a[0])
                    cov = range_cov(rb, x)
                    c2 = covers(x, ids)
                    cov = "part" if "part" in (cov, c2) else ("all" if cov == c2 == "all" else None)
            elif deep_strip(v) is deep_strip(mksub(src, i)) or v is strip(elem(src, i)):
                cov = covers(src, ids)
            elif v.op == "sub" and contains(v.a[1], lambda y: y is i):
                cov = covers(mk("comp", "list", v, TRUE, key), ids)
            if cov is None and other_units(src, ids):
                cov = "part"
            if cov is None:
                ctx.undecided.append((ctx.cur, "assigned unit %s in loop over %s" % (show(v)[:60], show(src)[:80])))
            else:
                ctx.ob("every-unit-once", cov == "all", e, "the loop over %s does not visit every unit exactly once" % show(src)[:100])
        gs = [guard_term(e) for e in es]
        u = mkor(*gs) if len(gs) > 1 else gs[0]
        t = b_taut(u)
        if t is None:
            ctx.undecided.append((ctx.cur, "conditions of the assignment"))
        else:
            ctx.ob("every-unit-assigned", t, e0, "a unit is only assigned if " + show(u)[:120])
        for a in range(len(es)):
            for b in range(a + 1, len(es)):
                x = b_taut(mknot(mkand(gs[a], gs[b])))
                if x is not None:
                    ctx.ob("assigned-once", x, es[b], "a unit can be assigned twice in one step")
        for e in es:
            if e.d.get("loops") and False:
                pass
    for b in I.effects:
        if b.kind == "break" and b.loops and b.loops[0].op != "while" and any(b.loops[0] in l for l in byloop):
            ctx.ob("loop-not-left-early", False, b, "the assignment loop can end before all units are assigned")
        if b.kind == "return" and b.depth <= 1 and b.loops:
            ctx.ob("loop-not-left-early", False, b, "return inside the assignment loop")
    if not any(o[1] == "loop-not-left-early" for o in ctx.obs):
        ctx.ob("loop-not-left-early", True, DW)
    # the returned value is the container itself
    x = r
    k = covers(x, x)
    rr = strip(r)
    if rr.op == "sub":
        ctx.ob("returns-all-lists", False, DW, "returns only " + show(rr)[:80])
    if rr.op == "comp" and rr.a[2] is not TRUE:
        ctx.ob("returns-all-lists", False, DW, "returns only some of the lists")


def other_units(t, ids):
    """the loop runs over something that is not made of the ids (the keys of the weights)"""
    while True:
        t = strip(t)
        if t.op == "ite":
            return any(other_units(x, ids) for c, x in ites(t))
        if t.op == "call" and (fname(t.a[0]) or "") in PERM | DEDUP and cargs(t):
            t = cargs(t)[0]
            continue
        if t.op == "keys" or is_call(t, "keys") and t.a[0].op == "attr":
            t = t.a[0] if t.op == "keys" else t.a[0].a[0]
            continue
        d = t.a[0] if t.op == "values" else t.a[0].a[0] if is_call(t, "values") and t.a[0].op == "attr" else t
        d = strip(d)
        if d.op == "comp" and d.a[0] == "dict" and d.a[1].op == "tuple" and len(d.a[1].a) == 2:
            # units with the same key replace one another
            k, v = d.a[1].a
            it = mk("idx", d.a[3].a[0], d.a[3].a[1])
            return strip(d.a[3].a[0]) is ids and contains(k, lambda y: y.op == "sub" and y.a[1] is mksub(ids, it)) and strip(k).op == "sub" and strip(strip(k).a[1]) is strip(mksub(ids, it))
        return t.op == "param" and t is not ids


def r_weights(ctx):
    """every target that is distributed has a weight"""
    I = ctx.interp(DT)
    tg = mk("param", DT, "targets")
    for e in calls(I, "distribute_work"):
        w = e.bound.get("weights")
        if w is None or w is NONE or strip(w) is NONE:
            ctx.ob("weights/all-targets", True, e)
            continue
        v = strip(w)
        if v.op == "comp" and v.a[0] == "dict" or is_call(v, "dict") and cargs(v):
            v = v if v.op == "comp" else strip(cargs(v)[0])
            if v.op == "comp":
                if v.a[2] is not TRUE:
                    ctx.ob("weights/all-targets", False, e, "only targets with %s have a weight" % show(v.a[2])[:80])
                elif covers(v.a[3].a[0], tg) == "all":
                    ctx.ob("weights/all-targets", True, e)
                continue
        sets = [x for x in effs(I, "setitem") if roots(x.base) & roots(w)]
        if not sets:
            raise Undecided("weights " + show(v)[:60])
        gs = [guard_term(x) for x in sets]
        u = mkor(*gs) if len(gs) > 1 else gs[0]
        t = b_taut(u)
        if t is None:
            raise Undecided("which targets have a weight")
        ctx.ob("weights/all-targets", t, sets[0], "a target only has a weight if " + show(u)[:80])
        for x in sets:
            k = strip(x.key)
            for l in x.loops[-1:]:
                if l.op == "it" and covers(l.a[0], tg) == "all":
                    ctx.ob("weights/by-id", k is strip(idof(mksub(l.a[0], mk("idx", l.a[0], l.a[1])))) or k.op == "attr" and k.a[1] == "id", x, "the weight of a target is stored under " + show(k)[:60])


def r_targets(ctx):
    if DT not in ctx.prog.funcs:
        raise Undecided("distribute_targets not found")
    I = ctx.interp(DT)
    tg = mk("param", DT, "targets")
    cs = calls(I, "distribute_work")
    if not cs:
        raise Undecided("distribute_targets does not call distribute_work")
    for e in cs:
        v = strip(e.bound.get("ids"))
        i = None
        cov = None
        if v.op == "comp":
            it = v.a[3]
            i = mk("idx", it.a[0], it.a[1])
            el = idof(mksub(it.a[0], i))
            if strip(v.a[1]) is strip(el):
                cov = covers(it.a[0], tg)
                if v.a[2] is not TRUE or v.a[0] == "set":
                    cov = "part"
            if v.a[0] == "dict":
                cov = None
        elif v.op == "call" and fname(v.a[0]) in PERM | DEDUP:
            u = strip(cargs(v)[0])
            if u.op == "comp" and u.a[2] is TRUE and covers(u.a[3].a[0], tg) == "all":
                cov = "all"
        if cov is None:
            ctx.undecided.append((ctx.cur, "ids " + show(v)[:100]))
        else:
            ctx.ob("all-targets-distributed", cov == "all", e, "only some targets are distributed: " + show(v)[:120])
        ctx.ob("number-of-processes", strip(e.bound.get("nproc")) is mk("param", DT, "nproc"), e, "distributes over %s processes" % show(e.bound.get("nproc"))[:60])
        for c, x in ites(I.ret):
            x = strip(x)
            if x.op == "comp" and x.a[2] is not TRUE or x.op == "sub":
                ctx.ob("returns-all-lists", False, DT, "returns only part of the distribution: " + show(x)[:80])
            elif is_call(x, "distribute_work"):
                ctx.ob("returns-all-lists", True, DT)


def mp_users(ctx):
    for entry, inl in (("redrock.zfind.zfind", ["redrock.zfind._mp_fitz"]), (ZS + "calc_zchi2_targets", [ZS + "_mp_calc_zchi2"])):
        yield entry, ctx.interp(entry, inline=inl)


def r_use(ctx):
    """every list of the distribution is given to a worker; only empty ones are skipped"""
    for entry, I in mp_users(ctx):
        short = entry.rsplit(".", 1)[-1]
        dist = {e.result: e for e in calls(I, "distribute_targets") if e.result is not None}
        mp = mk("param", entry, "mp_procs")
        for e in dist.values():
            ctx.ob(short + "/distribute-over-workers", strip(e.bound.get("nproc")) is mp, e, "targets are split over %s, not over the number of workers" % show(e.bound.get("nproc"))[:60])
            t = strip(e.bound.get("targets"))
            if is_call(t, "local"):
                ctx.ob(short + "/distributes-local-targets", True, e)
            elif t.op == "comp" and t.a[2] is not TRUE or t.op == "sub":
                ctx.ob(short + "/distributes-local-targets", False, e, "only %s is distributed" % show(t)[:80])
        sp = effs(I, "spawn")
        if not sp:
            raise Undecided("no worker is started in " + short)
        for e in sp:
            # the part of the distribution this worker gets
            parts = set()
            for a in subterms(mk("tuple", *[x for x in (e.d.get("args") or ())])) if e.d.get("args") else ():
                if a.op == "sub" and any(strip(a.a[0]) is strip(d) for d in dist):
                    parts.add(a)
            for g in flat_guards(e):
                for a in subterms(g):
                    if a.op == "sub" and any(strip(a.a[0]) is strip(d) for d in dist):
                        parts.add(a)
            if len(parts) > 1:
                own = {a for a in parts if a.a[1].op == "idx" and any(l.op == "it" and mk("idx", l.a[0], l.a[1]) is a.a[1] for l in e.loops)}
                parts = own or parts
            if len(parts) != 1:
                ctx.undecided.append((ctx.cur, "%s: worker gets %d parts" % (short, len(parts))))
                continue
            p = next(iter(parts))
            if p.a[1].op != "idx":
                ctx.undecided.append((ctx.cur, short + ": part " + show(p)[:80]))
                continue
            src = strip(p.a[1].a[0])
            key = [l for l in e.loops if l.op == "it" and l.a[0] is p.a[1].a[0]]
            full = (is_range(src) and range_len(src) == poly(mp) and (len(rargs(src)) == 1 or is_const(rargs(src)[0], 0))) or any(strip(d) is src for d in dist)
            short_list = strip_alloc(src)
            if short_list.op == "comp" and short_list.a[2] is not TRUE and any(strip(l.a[0]) is strip(d) for l in short_list.a[3:] for d in dist):
                ctx.ob(short + "/every-part-gets-a-worker", False, e, "the number of a part counts only some parts: " + show(short_list)[:80])
            elif is_range(src) or full:
                ctx.ob(short + "/every-part-gets-a-worker", full, e, "workers are started for parts %s of %s only" % (show(src)[:60], show(mp)))
            else:
                ctx.undecided.append((ctx.cur, short + ": loop over " + show(src)[:60]))
            # inner guards: those that mention the part
            bad = []
            empt = [canon(mk("cmp", "!=", const(0), mk("call", ext("builtins.len"), p))), canon(p)]
            for g in flat_guards(e):
                if g.op == "exc" or not contains(g, lambda y: y.op == "idx" and y is p.a[1]):
                    continue
                if strip(g) is p or canon(g) in empt or nonempty(g, p):
                    continue
                bad.append(g)
            ctx.ob(short + "/only-empty-parts-skipped", not bad, e, "a part is also skipped when not " + "; ".join(show(g)[:100] for g in bad))


def nonempty(g, p):
    """g is equivalent to len(p) > 0"""
    if g.op != "cmp":
        return False
    a, b = strip(g.a[1]), strip(g.a[2])
    L = lambda x: is_call(x, "len") and strip(cargs(x)[0]) is p
    if g.a[0] == "!=":
        return (is_const(a, 0) and L(b)) or (L(a) and is_const(b, 0))
    if g.a[0] == "<":
        return is_const(a, 0) and L(b)
    if g.a[0] == "<=":
        return is_const(a, 1) and L(b)
    return False


def r_batches(ctx):
    n = 0
    for entry in ("redrock.zfind.zfind", "redrock.external.desi.DistTargetsDESI.__init__"):
        I = ctx.interp(entry, inline=["redrock.zfind._mp_fitz"] if entry.endswith("zfind") else [])
        short = entry.split("redrock.", 1)[1]
        for e, seq, i, lo, hi in batches(I):
            n += 1
            check_batch(ctx, short + "/batches", e, seq, i, lo, hi)
    if not n:
        raise Undecided("no batch loops found")


def r_ranks(ctx):
    """MPI: the distribution is computed for the size of the communicator and rank r takes element r"""
    for q in ("redrock.targets.DistTargetsCopy.__init__", "redrock.external.desi.DistTargetsDESI.__init__"):
        I = ctx.interp(q)
        comm = mk("param", q, "comm")
        short = q.rsplit(".", 2)[1]
        cs = calls(I, "distribute_work", "distribute_targets")
        if not cs:
            ctx.undecided.append((ctx.cur, short + " does not distribute"))
            continue
        res = [strip(e.result) for e in cs]
        for e in cs:
            for c, x in cases(strip(e.bound.get("nproc"))):
                x = strip(x)
                none0 = [g for g in c if g.op == "cmp" and g.a[0] == "is" and comm in (strip(g.a[1]), strip(g.a[2]))]
                if none0 and x.op != "const":
                    ctx.undecided.append((ctx.cur, short + ": size " + show(x)[:60]))
                elif x.op == "const":
                    none = any(g.op == "cmp" and g.a[0] == "is" and strip(g.a[1]) is comm for g in c) or any(
                        g.op == "cmp" and g.a[0] == "is" and strip(g.a[2]) is comm for g in c)
                    ctx.ob(short + "/size-one-without-mpi", x.a[0] == 1 and none, e, "distributes over %s processes" % show(x))
                elif (x.op == "attr" and x.a[1] == "size" and strip(x.a[0]) is comm) or is_call(x, "Get_size"):
                    ctx.ob(short + "/over-all-ranks", True, e)
                else:
                    d = pconst(padd(poly(x), pscale(poly(mk("attr", comm, "size")), -1)))
                    if d is not None:
                        ctx.ob(short + "/over-all-ranks", d == 0, e, "distributes over %s processes" % show(x)[:60])
                    else:
                        ctx.undecided.append((ctx.cur, short + ": number of processes " + show(x)[:60]))
        hits = set()
        seen = set()
        for e in I.effects:
            for t in [e.d[k] for k in ("value", "base", "result") if isinstance(e.d.get(k), T)] + list(e.loops):
                for x in subterms(t):
                    if x.op == "sub" and x.id not in seen:
                        seen.add(x.id)
                        for c, b in ites(strip(x.a[0])):
                            b = strip(b)
                            if any(b is r for r in res) or (is_call(b, "bcast") and cargs(b) and any(y in res for c2, z in ites(strip(cargs(b)[0])) for y in [strip(z)])):
                                hits.add((x.a[1], e.where))
        rank = mk("attr", comm, "rank")
        for k, w in hits:
            for c, x in cases(strip(k)):
                x = strip(x)
                if x is rank or is_call(x, "Get_rank"):
                    ctx.ob(short + "/rank-takes-own-part", True, w)
                elif is_const(x):
                    none = any(g.op == "cmp" and g.a[0] == "is" and comm in (strip(g.a[1]), strip(g.a[2])) for g in c)
                    ctx.ob(short + "/rank-takes-own-part", none and x.a[0] == 0, w, "takes part %s" % show(x))
                elif x.op in ("idx",):
                    pass
                else:
                    d = padd(poly(x), pscale(poly(rank), -1))
                    if pconst(d) is not None:
                        ctx.ob(short + "/rank-takes-own-part", pconst(d) == 0, w, "rank takes part " + show(x)[:60])
                    else:
                        ctx.undecided.append((ctx.cur, short + ": part " + show(x)[:60]))


def run(ctx):
    ctx.rule("distribute-work", "the loop visits each unit once and adds it to exactly one fresh per-process list on every path", r_work)
    ctx.rule("distribute-targets", "the ids of all targets are distributed over the requested number of processes and all lists returned", r_targets)
    ctx.rule("weights", "every target that is distributed is given a weight, under its id", r_weights)
    ctx.rule("workers", "one worker per non-empty part of the distribution over exactly the number of workers", r_use)
    ctx.rule("ranks", "the distribution has one part per rank and each rank takes its own", r_ranks)
    ctx.rule("batches", "batch slices start at 0, have the width of the step and reach the end", r_batches)
