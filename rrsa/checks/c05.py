"""C05: point-to-point messages match and the gathered result is complete."""
from ..q import *
from ..kern import *
from ..store import *
from ..arith import *
from ..batch import *
from ..terms import rewrite
from ..ctx import Undecided, Stop
from .. import ring as rg
from .c02 import nonempty

ZF = "redrock.zfind.zfind"
SEND = ("send", "isend", "ssend", "issend", "bsend")
RECV = ("recv", "irecv")


def nonrank(e):
    gs = []
    for g in flat_guards(e):
        if g.op == "exc" or rank_zero(g) is not None:
            continue
        if commtest(g):
            continue
        gs.append(g)
    return gs


def commtest(g):
    if g.op in ("not", "and", "or"):
        return all(commtest(x) or rank_zero(x) is not None for x in g.a)
    if g.op == "cmp" and g.a[0] in ("is", "=="):
        x, y = strip(g.a[1]), strip(g.a[2])
        if y is not NONE:
            x, y = y, x
        return y is NONE and ((x.op == "attr" and x.a[1] in ("comm", "_comm")) or (x.op == "param" and x.a[1] == "comm"))
    return False


def ranks(e, rng, i, n):
    """ranks of n from which the receive e takes messages"""
    def size(y):
        return const(n) if y.op == "attr" and y.a[1] == "size" or y.op == "call" and fname(y.a[0]) == ".Get_size" else y
    out = []
    a = [pconst(poly(rewrite(x, size))) for x in rargs(rng)]
    if any(x is None or x != int(x) for x in a):
        return None
    for r in range(*[int(x) for x in a]):
        ok = True
        for g in flat_guards(e):
            if contains(g, lambda y: y is i):
                v = with_size(rewrite(rewrite(g, lambda y: const(r) if y is i else y), size), i, 0)
                if v is not TRUE and v is not FALSE:
                    return None
                ok = ok and v is TRUE
        if ok:
            out.append(r)
    return out


def r_gather(ctx):
    I = ctx.interp(ZF, inline=["redrock.zfind._mp_fitz"])
    snd = [e for e in I.effects if e.kind == "call" and e.meth in SEND]
    rcv = [e for e in I.effects if e.kind == "call" and e.meth in RECV]
    if not snd and not rcv:
        raise Undecided("zfind uses no point-to-point messages")
    if not snd or not rcv:
        ctx.ob("gather/both-sides", False, (snd or rcv)[0], "messages are only %s" % ("sent" if snd else "received"))
        return
    # ranks: the receiving side is rank 0, the sending side all others
    for e in rcv:
        v = [rank_zero(g) for g in flat_guards(e)]
        ctx.ob("gather/root-receives", True in v and False not in v, e, "a receive is not restricted to rank 0")
    for e in snd:
        v = [rank_zero(g) for g in flat_guards(e)]
        ctx.ob("gather/others-send", False in v and True not in v, e, "a send is not restricted to the other ranks")
        d = rg.partner(e, ("dest",), 1)
        ctx.ob("gather/sent-to-root", d is not None and is_const(strip(d), 0), e, "sent to rank " + (show(d)[:40] if d is not None else "?"))
    tags = {}
    for es, names, pos in ((snd, ("tag",), 2), (rcv, ("tag",), 1)):
        tags[id(es)] = [rg.partner(e, names, 99) for e in es]
    st, rt = tags[id(snd)], tags[id(rcv)]
    if any(x is not None for x in st + rt):
        a = {strip(x) for x in st if x is not None}
        b = {strip(x) for x in rt if x is not None}
        ctx.ob("gather/tags", not b or (a == b and (None not in st or None not in rt) or (None in st and b == {const(0)})), rcv[0], "send and receive tags differ")
    # receiving side: for every other rank, a count and then that many messages
    outer = {e.loops[:1] for e in rcv if e.loops}
    for e in rcv:
        if not e.loops or any(l.op != "it" for l in e.loops):
            ctx.undecided.append((ctx.cur, "receive outside a loop over ranks"))
            return
        b = strip(e.loops[0].a[0])
        if not is_range(b):
            ctx.undecided.append((ctx.cur, "receive loop over " + show(b)[:60]))
            return
        i = mk("idx", e.loops[0].a[0], e.loops[0].a[1])
        got = {n: ranks(e, b, i, n) for n in (2, 3, 4, 7)}
        bad = [n for n in got if got[n] is None or sorted(got[n]) != list(range(1, n))]
        ctx.ob("gather/from-every-rank", not bad, e, "receives from ranks %s%s" % (show(b)[:60], "" if not bad or got[bad[0]] is None else ": of %d ranks only from %s" % (bad[0], got[bad[0]])))
        s = rg.partner(e, ("source",), 0)
        ctx.ob("gather/source", s is not None and strip(s) is i, e, "receives from %s" % (show(s)[:40] if s is not None else "any rank: the messages of different ranks get mixed"))
    cnt = sorted([e for e in rcv if len(e.loops) == 1], key=lambda e: e.seq)
    body = [e for e in rcv if len(e.loops) == 2]
    if len(cnt) == 1 and len(body) == 1:
        n = loop_count(body[0].loops[1])
        ctx.ob("gather/receives-announced-number", n is not None and n == poly(cnt[0].result), body[0], "receives %s messages, announced is the first message" % (pshow(n)[:80] if n is not None else "?"))
        ctx.ob("gather/count-first", cnt[0].seq < body[0].seq, body[0], "the count is received after the messages")
        # and all of them are kept
        keep = [e for e in I.effects if e.kind in ("update", "append", "setitem") and e.loops == body[0].loops and isinstance(e.d.get("value"), T) and contains(e.value, lambda y: y is body[0].result or y is strip(body[0].result))]
        if not keep:
            ctx.ob("gather/messages-kept", False, body[0], "received results are not kept")
        for e in keep:
            if e.kind == "update":
                g = [x for x in flat_guards(e) if x not in flat_guards(body[0])]
                ctx.ob("gather/messages-kept", not g, e, "received results are only kept when " + "; ".join(show(x)[:60] for x in g))
        app = [e for e in I.effects if e.kind == "append" and e.loops == cnt[0].loops]
        for e in app:
            pass
        protocol = "count"
    elif len(cnt) == 1 and not body:
        protocol = "single"
    else:
        ctx.undecided.append((ctx.cur, "receive protocol"))
        return
    # sending side
    gts = [mkand(*nonrank(e)) if nonrank(e) else TRUE for e in snd]
    envs, at = benvs(gts)
    if envs is None:
        ctx.undecided.append((ctx.cur, "conditions of the sends"))
        return
    # drop guards shared by everything in the function (validity of arguments)
    for env in envs:
        act = sorted([e for e, g in zip(snd, gts) if bval(g, env)], key=lambda e: e.seq)
        what = ", ".join(("" if env[a.id] else "not ") + show(a)[:60] for a in at) or "always"
        if not act:
            ctx.ob("gather/every-rank-sends", False, snd[0], "a rank sends nothing when " + what)
            continue
        if protocol == "single":
            ctx.ob("gather/one-message", len(act) == 1 and not act[0].loops, act[0], "sends several messages")
            continue
        first = act[0]
        if first.loops:
            ctx.ob("gather/count-sent-first", False, first, "the number of messages is not sent first")
            continue
        k = poly(first.args[0])
        n = {}
        for e in act[1:]:
            if not e.loops:
                n = padd(n, {(): 1})
            else:
                c = {(): 1}
                for l in e.loops:
                    lc = loop_count(l)
                    if lc is None:
                        c = None
                        break
                    c = pmul(c, lc)
                if c is None:
                    ctx.undecided.append((ctx.cur, "number of messages"))
                    return
                n = padd(n, c)
        ctx.ob("gather/announced-number-is-sent", norm(k) == norm(n), first, "announces %s messages but sends %s (%s)" % (pshow(k)[:80], pshow(n)[:80], what))
        if any(br.loops and br.loops[-1] in e.loops for e in act[1:] for br in effs(I, "break")):
            ctx.ob("gather/announced-number-is-sent", False, first, "the send loop can end early")
    # what is sent is the whole
    local = None
    for e in snd:
        if e.loops:
            continue
        v = strip(e.args[0])
        if e.seq != min(x.seq for x, g in zip(snd, gts) if mkand(*nonrank(x)) is mkand(*nonrank(e))):
            local = v
    bs = batches(I, lambda e: e.kind == "call" and e.meth in SEND)
    for e, seq, i, lo, hi in bs:
        check_batch(ctx, "gather/batches", e, seq, i, lo, hi, total=local and mk("call", ext("builtins.len"), local))
        s = strip(seq)
        src = strip(s.a[0]) if s.op in ("items",) else (strip(s.a[0]) if s.op == "keys" else s)
        if local is not None and s.op == "items":
            ctx.ob("gather/batches-of-own-results", deep_strip(src) is deep_strip(local), e, "batches are made of " + show(src)[:80])
    if local is not None:
        ctx.ob("gather/sends-results", not (local.op == "sub" and local.a[1].op == "slice") and not (local.op == "comp" and local.a[2] is not TRUE), snd[0], "only part of the results is sent: " + show(local)[:80])


def norm(p):
    """unify len(d.items()) etc. with len(d)"""
    return p


def r_merge(ctx):
    """the gathered dictionaries are all merged"""
    I = ctx.interp(ZF, inline=["redrock.zfind._mp_fitz"])
    rcv = [e for e in I.effects if e.kind == "call" and e.meth in RECV]
    own = {strip(e.result) for e in rcv}
    ups = [e for e in effs(I, "update") if e.loops and len(e.loops) == 1 and not any(x in own for x in [strip(e.value)])]
    n = 0
    for e in ups:
        key = e.loops[0]
        if key.op != "it":
            continue
        src = key.a[0]
        i = mk("idx", src, key.a[1])
        if not contains(e.value, lambda y: y is i):
            continue
        if not contains(src, lambda y: y.op == "attr" and y.a[1] in ("comm", "rank")):
            continue
        n += 1
        g = [x for x in flat_guards(e) if contains(x, lambda y: y is i) and strip(x) is not strip(e.value) and not nonempty(x, strip(e.value))]
        ctx.ob("merge/all", not g, e, "results of a rank are only merged when " + "; ".join(show(x)[:60] for x in g))
        s = strip(src)
        ctx.ob("merge/whole-list", not (s.op == "sub" and s.a[1].op == "slice"), e, "merges only " + show(s)[:60])
    # own results of rank 0 are part of the gathered list
    if n == 0:
        raise Undecided("merge loop not found")
    recs = [e.result for e in rcv] + list(own)
    for e in ups:
        for r in roots(e.loops[0].a[0]):
            v = strip(r)
            if v.op == "comp" and contains(v.a[1], lambda z: z in recs or (z.op == "loop" and contains(z, lambda y: y in recs))):
                ctx.ob("merge/own-results", False, e, "the results of rank 0 itself are not part of the merged list")
            if v.op != "list" and not (v.op == "call" and fname(v.a[0]) == "builtins.list" and len(v.a) == 1):
                continue
            vals = list(v.a) if v.op == "list" else []
            for x in effs(I, "append", "extend"):
                if r in roots(x.base):
                    vals.append(x.value)
            if vals or not rcv:
                got = [y for y in vals if contains(y, lambda z: z in recs)]
                if rcv and got and len(vals) > 0:
                    ctx.ob("merge/own-results", len(got) < len(vals), e, "the results of rank 0 itself are not part of the merged list")


def r_ring(ctx):
    I = rg.ring(ctx)
    if I is None:
        raise Undecided("no ring exchange")
    snd, rcv = rg.comms(I)
    if not snd or not rcv:
        if snd or rcv:
            ctx.ob("ring/matched", False, (snd or rcv)[0], "a send without receive or a receive without send")
            return
        raise Undecided("no exchange")
    ctx.ob("ring/one-to-one", len(snd) == len(rcv) or any(e.meth == "sendrecv" for e in snd), snd[0], "%d sends but %d receives" % (len(snd), len(rcv)))
    gs = [canon(guard_term(e)) for e in snd]
    gr = [canon(guard_term(e)) for e in rcv]
    if len(snd) == 1 and len(rcv) == 1:
        x = b_equiv(guard_term(snd[0]), guard_term(rcv[0]))
        if x is not None:
            ctx.ob("ring/same-condition", x, rcv[0], "sent when %s but received when %s" % (show(guard_term(snd[0]))[:60], show(guard_term(rcv[0]))[:60]))
        for n in range(1, 9):
            e, f = snd[0], rcv[0]
            d, s = rg.partner(e, ("dest",), 1), rg.partner(f, ("source",), 0 if f.meth != "sendrecv" else 4)
            if s is None:
                ctx.ob("ring/source", False, f, "receives from any rank")
                break
            to, fr = rg.table(d, I, n), rg.table(s, I, n)
            if None in to or None in fr:
                raise Undecided("partners do not fold")
            ok = all(0 <= to[r] < n and 0 <= fr[r] < n for r in range(n)) and all(fr[to[r]] == r for r in range(n))
            ctx.ob("ring/partners-match", ok, f, "with %d ranks, sends go to %s but are received from %s" % (n, to, fr))
        ts, tr = rg.partner(snd[0], ("tag",), 2), rg.partner(rcv[0], ("tag",), 1)
        if ts is not None and tr is not None and s is not None and not (is_const(strip(ts)) and is_const(strip(tr))):
            for n in range(2, 6):
                fr = rg.table(s, I, n)
                a, b = rg.table(ts, I, n), rg.table(tr, I, n)
                if None in fr or None in a or None in b:
                    break
                ctx.ob("ring/tags", all(b[r] == a[fr[r]] for r in range(n)), snd[0], "with %d ranks, messages are sent with tags %s but expected with tags %s" % (n, [a[x] for x in fr], b))
        elif (ts is None) != (tr is None) or (ts is not None and strip(ts) is not strip(tr)):
            t = ts if ts is not None else tr
            ctx.ob("ring/tags", is_const(strip(t), 0), snd[0], "send and receive tags differ")
    for e in snd:
        if e.meth in ("send", "ssend", "Send") and any(x.seq > e.seq for x in rcv):
            ctx.ob("ring/send-does-not-block", False, e, "every rank sends before it receives: a blocking send deadlocks")
        elif e.meth in ("isend", "issend", "Isend"):
            ctx.ob("ring/send-does-not-block", True, e)
            w = [x for x in I.effects if x.kind == "call" and x.meth in ("wait", "Wait") and x.recv is not None and strip(x.recv) is strip(e.result)]
            w += [x for x in I.effects if x.kind == "call" and x.meth in ("Waitall", "waitall")]
            if not w:
                ctx.ob("ring/send-completed", False, e, "the send is never completed")
            for x in w:
                b = b_implies(guard_term(e), guard_term(x))
                if b is not None:
                    ctx.ob("ring/send-completed", b, x, "the send is only completed when " + show(guard_term(x))[:80])
                late = [r for r in rcv if r.seq > x.seq and r.meth == "recv"]
                ctx.ob("ring/completed-after-receive", not late, x, "waits for its send before it receives")
                rp = [y for y in effs(I, "setattr") if y.attr == "_piece"]


def run(ctx):
    ctx.rule("gather", "per rank: the announced number of messages is sent and received, from every other rank in turn, covering all results", r_gather)
    ctx.rule("merge", "the root merges its own and every received result", r_merge)
    ctx.rule("ring", "each send of the ring has its matching receive, does not block and is completed", r_ring)
