"""Splitting a sequence into consecutive batches."""
from .q import *
from .arith import *


def batches(I, of=None):
    """slices x[i:j] taken inside a loop over range(lo, hi, m): [(effect-ish where, sliced sequence, range term, lower, upper)]"""
    out, seen = [], set()
    for e in I.effects:
        if of is not None and not of(e):
            continue
        ts = [e.d[k] for k in ("value", "result", "recv") if isinstance(e.d.get(k), T)] + list(e.d.get("args") or ())
        for t in ts:
            for x in subterms(t):
                if x.op != "sub" or x.a[1].op != "slice" or x.id in seen:
                    continue
                lo, hi = x.a[1].a[0], x.a[1].a[1]
                rs = [y for y in subterms(mk("tuple", lo, hi)) if y.op == "idx" and is_range(strip(y.a[0])) and len(rargs(strip(y.a[0]))) == 3]
                rs = {y for y in rs if not any(y is not z and contains(strip(z.a[0]), lambda w: w is y) for z in rs)}
                if len(rs) != 1:
                    continue
                seen.add(x.id)
                out.append((e, x.a[0], next(iter(rs)), lo, hi))
    return out


def check_batch(ctx, nm, e, seq, i, lo, hi, total=None):
    """the slices of one batch loop tile the whole sequence"""
    r = strip(i.a[0])
    a = rargs(r)
    width = a[2]
    seq0, seq = seq, on_root(seq)
    a = [on_root(x) for x in a]
    ctx.ob(nm + "/starts-at-first", is_const(a[0], 0), e, "batches start at element " + show(a[0]))
    ends = [poly(mk("call", ext("builtins.len"), seq))]
    s = strip(seq)
    if total is not None:
        ends.append(poly(total))
    if s.op in ("items", "keys", "values"):
        ends.append(poly(mk("call", ext("builtins.len"), s.a[0])))
    ends.append(poly(mk("sub", mk("attr", seq, "shape"), const(0))))
    ends.append(poly(mk("attr", seq, "size")))
    hi_ok = poly(a[1]) in ends
    if hi_ok:
        ctx.ob(nm + "/reaches-last", True, e)
    else:
        d = [pconst(padd(poly(a[1]), pscale(x, -1))) for x in ends]
        if any(x is not None for x in d):
            ctx.ob(nm + "/reaches-last", any(x is not None and x >= 0 for x in d), e, "batches stop before the last element (range end %s)" % show(a[1])[:80])
        else:
            ctx.undecided.append((ctx.cur, nm + ": range end " + show(a[1])[:80]))
    w = padd(poly(hi), pscale(poly(lo), -1)) if hi is not NONE and lo is not NONE else None
    ctx.ob(nm + "/slice-starts-at-loop-index", lo is i or ceq(lo, i), e, "slice starts at " + show(lo)[:80])
    if w is not None:
        ctx.ob(nm + "/width-equals-step", w == poly(a[2]), e, "batch width %s differs from the step %s of the batch loop" % (pshow(w)[:60], show(a[2])[:40]))
    else:
        ctx.ob(nm + "/width-equals-step", False, e, "batches are not bounded")
