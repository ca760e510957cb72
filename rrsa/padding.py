"""Padding of coefficient vectors in zfind: column j of a fit stays column j of the catalogue."""
from .q import *
from .ctx import Undecided

ZF = "redrock.zfind.zfind"
ZEROS = ("numpy.zeros", "numpy.zeros_like", "numpy.full", "numpy.empty", "numpy.ones")


def iscoeff(t):
    """t is (part of) the coefficient column of a table"""
    t = strip(t)
    n = 0
    while n < 12:
        n += 1
        if t.op == "sub" and is_const(t.a[1], "coeff"):
            return True
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("astype", "copy", "reshape"):
            t = strip(t.a[0].a[0])
        elif t.op == "call" and fname(t.a[0]) in ("numpy.asarray", "numpy.array", "numpy.atleast_2d", "numpy.copy") and cargs(t):
            t = strip(cargs(t)[0])
        elif t.op == "ite":
            return iscoeff(t.a[1]) or iscoeff(t.a[2])
        elif t.op in ("loop", "mu", "store") and isinstance(t.a[0], T):
            t = strip(t.a[0])
        else:
            return False
    return False


def iszeros(t):
    return is_call(strip(t), *ZEROS)


def columns(k):
    """second index of a two-dimensional subscript"""
    k = strip(k)
    if k.op == "tuple" and len(k.a) == 2:
        c = strip(k.a[1])
        if c.op == "slice":
            return c
    return None


def isncoeff(t):
    t = strip(t)
    return t.op == "sub" and is_const(t.a[1], "ncoeff")


def cut(ctx, e, hi):
    """coefficients are only cut to a width that no fit exceeds"""
    h = hi
    while h.op == "alloc" or is_call(h, "builtins.int") and cargs(h):
        h = h.a[1] if h.op == "alloc" else cargs(h)[0]
    h = strip(h)

    def uniq(t):
        t = strip(t)
        return is_call(t, "numpy.unique") and len(cargs(t)) == 1 and isncoeff(cargs(t)[0])
    same = False
    for g in flat_guards(e):
        if g.op == "cmp" and g.a[0] == "==" and any(is_const(x, 1) for x in g.a[1:]):
            n = [strip(x) for x in g.a[1:] if not is_const(x, 1)]
            same = same or len(n) == 1 and (is_call(n[0], "builtins.len") and uniq(cargs(n[0])[0]) or n[0].op == "attr" and n[0].a[1] == "size" and uniq(n[0].a[0]))
    small = is_call(h, "numpy.min", "numpy.amin", "builtins.min", "numpy.median", "numpy.mean") and cargs(h) and (isncoeff(cargs(h)[0]) or uniq(cargs(h)[0]))
    first = h.op == "sub" and is_const(h.a[1]) and h.a[1].a[0] != -1 and (uniq(h.a[0]) or isncoeff(h.a[0]))
    if small or first:
        ctx.ob("pad/nothing-cut", same, e, "the coefficients are cut to %s columns although some fits have more" % show(h)[:60].rsplit("(", 1)[0])


TYPES = {"spectype": 0, "subtype": 1}
MIXED = ("sorted", "unique", "reversed", "set", "flip", "sort", "roll")


def written(v):
    """the value that fills a column"""
    v = strip(v)
    while True:
        if v.op == "call" and fname(v.a[0]).rsplit(".", 1)[-1] in ("array", "asarray", "reshape", "atleast_2d") and cargs(v):
            v = strip(cargs(v)[0])
        elif v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("reshape", "copy", "astype"):
            v = strip(v.a[0].a[0])
        elif is_call(v, "numpy.full", "numpy.full_like") and len(cargs(v)) > 1:
            v = strip(cargs(v)[1])
        elif v.op == "bin" and v.a[0] == "*" and any(strip(x).op == "list" for x in v.a[1:]):
            v = [strip(x) for x in v.a[1:] if strip(x).op == "list"][0]
        elif v.op in ("list", "tuple") and len(v.a) == 1:
            v = strip(v.a[0])
        else:
            return v


def r_types(ctx):
    """type, subtype and number of coefficients of the candidates of a fit are those of that fit"""
    I = ctx.interp(ZF)
    n = 0
    for e in effs(I, "setitem"):
        if not is_const(e.key) or not contains(e.base, lambda y: y.op == "sub" and is_const(y.a[1], "zfit")):
            continue
        k = e.key.a[0]
        if k in TYPES:
            for _, x in ites(written(e.value)):
                x = strip(x)
                mixed = False
                while x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] in MIXED and cargs(x) or x.op == "sub" and x.a[1].op == "slice" and x.a[1].a[2] is not NONE:
                    mixed = True
                    x = strip(x.a[0] if x.op == "sub" else cargs(x)[0])
                    y = [strip(y) for _, y in ites(x)]
                    x = next((z for z in y if z.op == "comp"), y[0])
                if x.op == "comp":
                    if mixed:
                        n += 1
                        ctx.ob("types/order", False, e, "the %s of the candidates are not in the order of the candidates" % k)
                        continue
                    if x.a[2] is not TRUE:
                        continue
                    x = strip(x.a[1])
                if x.op == "sub" and is_const(x.a[1]) and x.a[0].op == "call" and fname(x.a[0].a[0]).rsplit(".", 1)[-1] == "parse_fulltype":
                    n += 1
                    ctx.ob("types/part", x.a[1].a[0] == TYPES[k], e, "the %s of a candidate is part %s of its full type" % (k, x.a[1].a[0]))
                elif x.op == "undef":
                    pass
                else:
                    ctx.undecided.append((ctx.cur, "%s %s" % (k, show(x)[-60:])))
        elif k == "ncoeff":
            x = written(e.value)
            n += 1
            if x.op == "sub" and strip(x.a[0]).op == "attr" and strip(x.a[0]).a[1] == "shape" and iscoeff(strip(x.a[0]).a[0]) and is_const(x.a[1]):
                ctx.ob("types/ncoeff", x.a[1].a[0] in (1, -1), e, "the number of coefficients is %s" % show(x)[-20:])
            elif not contains(x, lambda y: y.op == "sub" and is_const(y.a[1], "coeff")) and x.op in ("attr", "const", "param", "global"):
                ctx.ob("types/ncoeff", False, e, "the number of coefficients of a fit is taken from " + show(x)[-60:])
            else:
                ctx.undecided.append((ctx.cur, "ncoeff " + show(x)[-60:]))
    if not n:
        raise Undecided("types of the candidates")


def r_pad(ctx):
    I = ctx.interp(ZF)
    seen = set()
    n = 0
    for e in I.effects:
        ts = [x for x in (e.d.get("value"), e.d.get("result"), e.d.get("base")) if isinstance(x, T)]
        if e.kind == "setitem":
            c = columns(e.key)
            b = strip(e.base)
            v = strip(e.value)
            if c is not None and iszeros(b) and (iscoeff(v) or v.op == "sub" and iscoeff(v.a[0])):
                n += 1
                ctx.ob("pad/at-the-end", c.a[0] is NONE or is_const(c.a[0], 0), e, "the coefficients are copied to the columns %s of the padded ones" % show(c)[:60])
                if v.op == "sub":
                    w = columns(v.a[1])
                    if w is not None:
                        ctx.ob("pad/from-the-start", w.a[0] is NONE or is_const(w.a[0], 0), e, "only the columns %s are copied" % show(w)[:60])
        stack = list(ts)
        while stack:
            t = stack.pop()
            if t.id in seen:
                continue
            seen.add(t.id)
            stack.extend(x for x in t.a if isinstance(x, T))
            if t.op != "call":
                continue
            f = fname(t.a[0])
            a = cargs(t)
            if f == "numpy.append" and len(a) == 2:
                parts = list(a)
            elif f in ("numpy.hstack", "numpy.concatenate", "numpy.column_stack") and a and strip(a[0]).op in ("list", "tuple"):
                parts = list(strip(a[0]).a)
            elif f == "numpy.pad" and len(a) > 1:
                w = strip(a[1])
                if w.op in ("tuple", "list") and len(w.a) == 2 and strip(w.a[1]).op in ("tuple", "list") and len(strip(w.a[1]).a) == 2:
                    n += 1
                    front = strip(strip(w.a[1]).a[0])
                    ctx.ob("pad/at-the-end", is_const(front, 0), e, "%s columns are added in front" % show(front)[:60])
                    for x in (strip(w.a[0]).a if strip(w.a[0]).op in ("tuple", "list") else ()):
                        ctx.ob("pad/rows", is_const(strip(x), 0), e, "rows are added to a column: " + show(w)[:60])
                continue
            else:
                continue
            if any(iscoeff(x) for x in parts) and any(iszeros(x) for x in parts):
                n += 1
                ctx.ob("pad/at-the-end", iscoeff(parts[0]), e, "the padding comes before the coefficients")
        # coefficients cut to a width
        if e.kind == "setitem" and is_const(e.key, "coeff") or e.kind == "call" and fname(e.fn).rsplit(".", 1)[-1] == "replace_column":
            x = e.value if e.kind == "setitem" else (cargs(e.result)[-1] if cargs(e.result) else None)
            x = strip(x) if x is not None else None
            if x is not None and x.op == "sub" and iscoeff(x.a[0]):
                c = columns(x.a[1])
                if c is not None:
                    n += 1
                    ctx.ob("pad/from-the-start", c.a[0] is NONE or is_const(c.a[0], 0), e, "only the columns %s of the coefficients are kept" % show(c)[:60])
                    ctx.ob("pad/step", c.a[2] is NONE or is_const(c.a[2], 1), e, "the columns %s of the coefficients are kept" % show(c)[:60])
                    cut(ctx, e, c.a[1])
    if not n:
        raise Undecided("padding of the coefficients")
