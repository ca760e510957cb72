"""Tables made by stacking one column of several fits: all columns keep the same rows in the same order."""
from .q import *
from .logic import *
from .terms import mksub
from .ctx import Undecided

STACK = ("numpy.vstack", "numpy.concatenate", "numpy.hstack", "numpy.array", "numpy.stack", "numpy.row_stack")
MOVE = ("numpy.flip", "numpy.flipud", "numpy.sort", "numpy.roll", "builtins.sorted", "builtins.reversed", "numpy.unique")


def source(it):
    """the container a loop runs over"""
    return strip(it.a[0]) if isinstance(it, T) and it.op == "it" else None


def first(t):
    """L if t is L[0] or the keys of it"""
    t = strip(t)
    while t.op == "call" and (t.a[0].op == "attr" and t.a[0].a[1] in ("keys", "copy") or fname(t.a[0]) in ("builtins.list", "builtins.sorted", "builtins.tuple")):
        t = strip(t.a[0].a[0] if t.a[0].op == "attr" else cargs(t)[0])
    if t.op == "sub" and is_const(t.a[1], 0):
        return strip(t.a[0])
    return None


def leaf(t, L, i):
    """(True/False/None, why): the rows of t are those of fit i of the list L, in their order"""
    t = strip(t)
    if t.op == "ite":
        r = [leaf(x, L, i) for x in t.a[1:]]
        for x in r:
            if x[0] is False:
                return x
        return (None, "") if any(x[0] is None for x in r) else (True, "")
    if t.op == "undef":
        return True, ""
    if t.op == "call":
        f = fname(t.a[0])
        if f in ("numpy.zeros_like", "numpy.zeros"):
            return True, ""
        if f in MOVE:
            r = leaf(cargs(t)[0], L, i) if cargs(t) else (None, "")
            return (False, "its rows are moved: " + f) if r[0] else r
        if f in ("numpy.pad", "numpy.asarray", "numpy.array", "numpy.atleast_2d", "numpy.copy", "numpy.reshape") and cargs(t):
            return leaf(cargs(t)[0], L, i)
        if t.a[0].op == "attr" and t.a[0].a[1] in ("reshape", "astype", "copy"):
            return leaf(t.a[0].a[0], L, i)
        return None, ""
    if t.op == "sub":
        k = t.a[1]
        if k.op == "tuple" and k.a:
            k = k.a[0]
        if k.op == "slice":
            r = leaf(t.a[0], L, i)
            if r[0]:
                if is_const(k.a[2], -1):
                    return False, "its rows are reversed"
                if not all(x is NONE for x in k.a[:2]):
                    return None, ""
            return r
        x = strip(t.a[0])
        if x.op == "ite":
            r = [leaf(mksub(y, t.a[1]), L, i) for y in x.a[1:]]
            for y in r:
                if y[0] is False:
                    return y
            return (None, "") if any(y[0] is None for y in r) else (True, "")
        if x.op == "sub" and same(x.a[0], L):
            if x.a[1] is i:
                return True, ""
            j = strip(x.a[1])
            if j.op == "ite":
                j = [strip(y) for c, y in ites(j)]
                if all(y is i for y in j):
                    return True, ""
                return (False, "it is the column of another fit: " + show(x.a[1])[-60:]) if any(is_const(y) for y in j) else (None, "")
            if is_const(j) or j.op == "bin":
                return False, "it is the column of another fit: " + show(j)[-60:]
    return None, ""


def same(a, b):
    a, b = strip(a), strip(b)
    return a is b


def mentions(t, k):
    return isinstance(t, T) and contains(t, lambda x: x is k)


def stacks(I):
    """[(setitem effect, outer loop, key term, L)]"""
    out = []
    for e in effs(I, "setitem"):
        if e.d.get("op") is not None or not e.loops:
            continue
        o = e.loops[-1]
        if not (isinstance(o, T) and o.op == "it"):
            continue
        L = first(o.a[0])
        if L is None:
            continue
        k = strip(e.key)
        if k.op != "sub" or k.a[1].op != "idx":
            continue
        if not any(is_call(x, *STACK) for x in subterms(e.value, stop=lambda y: y.op in ("loop", "mu", "comp") or is_call(y, *STACK))):
            continue
        out.append((e, o, k, L))
    return out


def r_stack(q, least=1):
    def run(ctx):
        I = ctx.interp(q)
        n = 0
        for e, o, k, L in stacks(I):
            for cs, v in ites(e.value):
                v = strip(v)
                if v.op == "call" and fname(v.a[0]) in MOVE:
                    ctx.ob("stack/order", False, e, "rows are moved after stacking: " + fname(v.a[0]))
                    continue
                if v.op == "sub" and v.a[1].op == "slice" and is_const(v.a[1].a[2], -1):
                    ctx.ob("stack/order", False, e, "rows are reversed after stacking")
                    continue
                if not is_call(v, *STACK):
                    continue
                for c2, a in ites(cargs(v)[0]):
                    a = strip(a)
                    if a.op == "sub" and a.a[1].op == "slice":
                        if is_const(a.a[1].a[2], -1):
                            ctx.ob("stack/order", False, e, "one column is stacked in the reverse order")
                        elif not all(x is NONE for x in a.a[1].a[:2]):
                            ctx.ob("stack/all", False, e, "only the fits %s are stacked" % show(a.a[1])[:60])
                        continue
                    if a.op == "call" and fname(a.a[0]) in MOVE:
                        ctx.ob("stack/order", False, e, "the values of one column are moved before stacking: " + fname(a.a[0]))
                        continue
                    if a.op == "comp":
                        j = mk("idx", a.a[3].a[0], a.a[3].a[1]) if isinstance(a.a[3], T) and a.a[3].op == "it" else None
                        if j is None or not same(a.a[3].a[0], L):
                            ctx.undecided.append((ctx.cur, "stacked " + show(a)[:60]))
                            continue
                        n += 1
                        r, why = leaf(a.a[1], L, j)
                        if r is None:
                            ctx.undecided.append((ctx.cur, "stacked " + show(a.a[1])[-60:]))
                        else:
                            ctx.ob("stack/own-fit", r, e, why)
                        ctx.ob("stack/all", a.a[2] is TRUE, e, "only fits with %s are stacked" % show(a.a[2])[-60:])
            # values appended to the list that is stacked
            depth = len(e.loops)
            for p in effs(I, "append"):
                if len(p.loops) != depth + 1 or p.loops[:depth] != e.loops:
                    continue
                it = p.loops[-1]
                if not (isinstance(it, T) and it.op == "it"):
                    if isinstance(it, T) and mentions(it, k.a[1]):
                        ctx.ob("stack/order", False, p, "the order of the fits depends on the column")
                    continue
                if not same(it.a[0], L):
                    s = strip(it.a[0])
                    if mentions(s, k) or mentions(s, k.a[1]):
                        ctx.ob("stack/order", False, p, "the order of the fits depends on the column: " + show(s)[-60:])
                        n += 1
                    elif s.op == "sub" and s.a[1].op == "slice" and same(s.a[0], L) and not is_const(s.a[1].a[2], -1) and not all(x is NONE for x in s.a[1].a[:2]):
                        ctx.ob("stack/all", False, p, "only the fits %s are stacked" % show(s.a[1])[:60])
                        n += 1
                    continue
                n += 1
                r, why = leaf(p.value, L, mk("idx", it.a[0], it.a[1]))
                if r is None:
                    ctx.undecided.append((ctx.cur, "stacked " + show(p.value)[-80:]))
                else:
                    ctx.ob("stack/own-fit", r, p, why)
        if n < least:
            raise Undecided("stacking of the columns")
    return run


def r_whole(q):
    """re-ordering the minima keeps each one whole"""
    def run(ctx):
        I = ctx.interp(q)
        n = 0
        seen = set()
        for x in subterms(I.ret):
            if x.op != "comp" or len(x.a) != 4 or not isinstance(x.a[3], T) or x.a[3].op != "it":
                continue
            if not contains(x.a[3].a[0], lambda y: is_call(y, "numpy.argsort", "builtins.sorted")):
                continue
            el = strip(x.a[1])
            while el.op == "alloc":
                el = strip(el.a[1])
            if el.id in seen:
                continue
            seen.add(el.id)
            if el.op == "sub":
                n += 1
                ctx.ob("whole/kept", True, q)
                continue
            over = []
            src = None
            if is_call(el, "builtins.dict"):
                src = strip(cargs(el)[0]) if cargs(el) else None
                over = [(y.a[0], y.a[1]) for y in el.a[1:] if y.op == "kw"]
            elif el.op == "store":
                while el.op == "store":
                    over.append((el.a[1].a[0] if is_const(el.a[1]) else None, el.a[2]))
                    el = strip(el.a[0])
                src = el
                if is_call(src, "builtins.dict") and cargs(src):
                    src = strip(cargs(src)[0])
            if src is None or src.op != "sub":
                continue
            for k, v in over:
                v = strip(v)
                n += 1
                own = v.op == "sub" and is_const(v.a[1], k) and strip(v.a[0]) is src
                if own:
                    ctx.ob("whole/kept", True, q)
                elif k in ("z", "zerr", "chi2", "coeff", "zz", "zzchi2", "zwarn", "pca_coeff", "legcoeff", "fulltype") and not mentions(v, src):
                    ctx.ob("whole/kept", False, "%s" % q, "%s of a minimum is replaced by %s while the minima are ordered" % (k, show(v)[-80:]))
                else:
                    ctx.undecided.append((ctx.cur, "%s %s" % (k, show(v)[-60:])))
        if not n:
            raise Undecided("ordering of the minima")
    return run
