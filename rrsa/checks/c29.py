"""C29: catalog, fibermap and TSNR2 rows describe the same targets in the same order."""
from ..q import *
from ..arith import poly, pconst
from ..terms import *
from ..terms import mksub, mkcmp
from ..ctx import Undecided, Stop
from .c15 import bare, subterms, filevalue, Q, TG

D = "redrock.external.desi."
SORTERS = ("numpy.sort", "builtins.sorted", "numpy.unique", "numpy.intersect1d", "builtins.set", "builtins.reversed", "numpy.flip", "numpy.union1d", "numpy.setdiff1d", "builtins.frozenset")


def deep(t):
    return deep_strip(t)


class Sel(object):
    """rows of a sequence: base sequence, selections that keep the order, or a reason why the order is lost"""

    def __init__(self, base, sels, lost=None):
        self.base, self.sels, self.lost = base, sels, lost


def sel(t, d=0):
    t = bare_(t)
    if is_call(t, *SORTERS) and cargs(t):
        return Sel(None, [], "%s orders them by value" % fname(t.a[0]))
    if t.op == "mut" and t.a[0] in ("sort", "reverse", "shuffle"):
        return Sel(None, [], "they are put in another order by %s()" % t.a[0])
    if t.op == "comp" and t.a[0] == "set":
        return Sel(None, [], "a set has no order")
    if t.op == "comp" and t.a[0] == "list" and strip(t.a[1]).op == "sub" and strip(t.a[1]).a[1].op == "idx" and strip(t.a[1]).a[1].a[0] is t.a[3].a[0]:
        s = sel(t.a[3].a[0], d + 1)
        c = strip(t.a[2])
        if c is TRUE:
            return s
        if c.op == "cmp" and c.a[0] == "in" and strip(c.a[1]) is strip(t.a[1]):
            return Sel(s.base, s.sels + [("in", deep(t.a[3].a[0]), deep(c.a[2]))], s.lost)
        return Sel(s.base, s.sels + [("?", deep(c))], s.lost)
    if t.op == "sub":
        k = strip(t.a[1])
        s = sel(t.a[0], d + 1)
        if is_const(k) and isinstance(k.a[0], str):
            if s.base is None:
                return s
            return Sel(mk("sub", s.base, k), s.sels, s.lost)
        if is_call(k, "numpy.isin", "numpy.in1d") and len(cargs(k)) >= 2:
            inv = ckw(k, "invert")
            if inv is not None and inv is not FALSE:
                return Sel(s.base, s.sels + [("?", deep(k))], s.lost)
            return Sel(s.base, s.sels + [("in", deep(cargs(k)[0]), deep(cargs(k)[1]))], s.lost)
        if is_call(k, "numpy.where", "numpy.flatnonzero", "numpy.nonzero"):
            return sel(mk("sub", t.a[0], strip(cargs(k)[0])), d + 1)
        if k.op == "sub" and is_call(strip(k.a[0]), "numpy.where", "numpy.nonzero") and is_const(k.a[1]):
            return sel(mk("sub", t.a[0], strip(cargs(strip(k.a[0]))[0])), d + 1)
        if k.op == "slice":
            st = k.a[2]
            if st is not NONE and is_const(st) and st.a[0] < 0:
                return Sel(s.base, s.sels, "the slice reverses them")
            return Sel(s.base, s.sels + [("slice", deep(k))], s.lost)
        if is_argsort(k):
            return Sel(s.base, s.sels, "they are sorted by %s" % show(k)[-60:])
        if k.op == "cmp" or k.op in ("and", "or", "not", "bin"):
            return Sel(s.base, s.sels + [("?", deep(k))], s.lost)
        if k.op == "const" and not isinstance(k.a[0], str):
            return Sel(mk("sub", s.base if s.base is not None else t.a[0], k), s.sels, s.lost)
        return Sel(deep(t), [], None)
    return Sel(deep(t), [], None)


def bare_(t):
    while True:
        u = strip(t)
        if is_call(u, "astropy.table.Table") and cargs(u):
            u = cargs(u)[0]
        if u is t:
            return t
        t = u


def split_cases(*terms):
    """assignments of the conditions that choose between kinds of input"""
    atoms = []
    for t in terms:
        for x in subterms(t):
            if x.op == "ite":
                for a in batoms(x.a[0]):
                    b = strip(a)
                    # tests of the input file or of the options, not of the data
                    if b not in atoms and (b.op == "cmp" and b.a[0] == "in" and is_const(b.a[1]) or
                                           b.op == "cmp" and b.a[0] in ("is", "isnot") and any(y.op == "param" for y in b.a[1:])):
                        atoms.append(b)
    return atoms


def envs(atoms):
    if len(atoms) > 6:
        raise Undecided("too many kinds of input")
    out = [{}]
    for a in atoms:
        out = [{**o, a: v} for o in out for v in (True, False)]
    return out


class Desi(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = I = ctx.interp(Q, stop_extra=(TG + ".compute_coadd",), args={"comm": NONE})
        self.attrs = {}
        for e in I.effects:
            if e.kind == "setattr" and strip(e.base).op == "param":
                self.attrs.setdefault(e.attr, []).append(e)
        self.tables = {}
        for n in ("fibermap", "exp_fibermap", "tsnr2"):
            es = self.attrs.get(n, [])
            if len(es) != 1:
                raise Undecided("%d assignments of %s" % (len(es), n))
            self.tables[n] = (es[0], self.stack(es[0]))
        sup = [e for e in I.effects if e.kind == "call" and e.result is not None and e.result.op == "call" and "__init__" in (e.meth or "")]
        if len(sup) != 1 or not cargs(sup[0].result):
            raise Undecided("the list of all targets is not handed to the base class")
        self.sup = sup[0]
        self.ids = cargs(sup[0].result)[0]

    def stack(self, e):
        """(files iterated, value stored for a file) of a table stacked over files"""
        v = bare_(e.value)
        if is_call(v, "numpy.hstack", "numpy.concatenate", "astropy.table.vstack") and cargs(v):
            c = strip(cargs(v)[0])
            if c.op == "comp" and c.a[0] == "list" and c.a[2] is TRUE:
                x = strip(c.a[1])
                if x.op == "sub":
                    f = filevalue(None, x)
                    if f is not None:
                        return strip(c.a[3].a[0]), f, x
        return None


def r_order(ctx, S):
    """identifiers kept from a file"""
    ids = strip(S.ids)
    # unique identifiers in order of appearance
    acc = unique_in_order(ctx, S, ids)
    grow = acc_values(acc)
    if len(grow) != 1:
        raise Undecided("how the identifiers of the files are collected")
    keep = grow[0]
    S.keep = deep(keep)
    S.keepraw = keep
    n = 0
    for env in envs(split_cases(keep)):
        s = sel(assume(keep, env))
        n += 1
        txt = "; ".join("%s is %s" % (show(k)[-30:], v) for k, v in env.items())[:120]
        if s.lost:
            ctx.ob("selected targets keep the order of the file (%s)" % txt, False, S.sup, s.lost)
            continue
        b = s.base
        if b is not None and b.op == "param":
            ctx.ob("selected targets keep the order of the file (%s)" % txt, False, S.sup, "they are in the order of the option %s" % b.a[1])
            continue
        if b is None or b.op != "sub" or not (is_const(b.a[1]) and b.a[1].a[0] == "TARGETID"):
            raise Undecided("identifiers of the targets of a file")
        ctx.ob("selected targets keep the order of the file (%s)" % txt, True, S.sup)
        for x in s.sels:
            if x[0] == "?":
                raise Undecided("selection of targets by %s" % show(x[1])[-60:])
            if x[0] == "slice":
                bounds(ctx, S, x[1], env, txt)
            if x[0] == "in":
                ctx.ob("targets are selected by their own identifiers (%s)" % txt, x[1] is b, S.sup, "a selection of %s is applied to %s" % (show(x[1])[-40:], show(b)[-40:]))
                ctx.ob("a requested target in the file is kept (%s)" % txt, x[2].op == "param" and x[2].a[1] == "targetids" or x[2].op != "param", S.sup, "")
    S.done = n


def bounds(ctx, S, k, env, txt):
    """the range of targets runs from first_target over n_target, or to the end"""
    lo, hi, st = k.a
    nt = mk("param", Q, "n_target")
    isn = [v for a, v in env.items() if a.op == "cmp" and a.a[0] in ("is", "isnot") and any(y is nt for y in a.a[1:])]
    lo = const(0) if lo is NONE else lo
    key = "the range of targets is complete (%s)" % txt
    if st is not NONE and not is_const(st, 1):
        ctx.ob(key, False, S.sup, "every %s-th target is used" % show(st))
        return
    if is_const(lo):
        ctx.ob(key, lo.a[0] == 0, S.sup, "the first %s targets are left out" % show(lo))
    if hi is NONE:
        if isn == [True] or not contains(S.keepraw, lambda y: y is nt):
            ctx.ob(key, True, S.sup)
        return
    lens = {x for x in subterms(hi) if is_call(x, "builtins.len")}
    if len({deep(x).id for x in lens}) > 1:
        ctx.undecided.append((ctx.cur, "range of targets"))
        return
    bad = unk = None
    for L in range(1, 6):
        for f in ([min(lo.a[0], L)] if is_const(lo) and isinstance(lo.a[0], int) and lo.a[0] >= 0 else range(0, L + 1)):
            for m in ([None] if isn == [True] else range(0, L - f + 1)):
                def ev(t):
                    t = strip(t)
                    if t is lo or deep(t) is deep(lo):
                        return f
                    if is_const(t):
                        return t.a[0]
                    if t in lens:
                        return L
                    if t is nt:
                        return m
                    if t.op == "bin" and t.a[0] in ("+", "-", "*"):
                        v = [ev(x) for x in t.a[1:]]
                        if None in v:
                            return None
                        r = v[0]
                        for y in v[1:]:
                            r = r + y if t.a[0] == "+" else r - y if t.a[0] == "-" else r * y
                        return r
                    if is_call(t, "builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum") and len(cargs(t)) >= 2:
                        v = [ev(x) for x in cargs(t)]
                        return None if None in v else (max if "max" in fname(t.a[0]) else min)(v)
                    return None
                h = ev(hi)
                if h is None:
                    unk = True
                    continue
                want = L if m is None else f + m
                if min(max(h, f), L) != want:
                    bad = bad or "of %d targets those from %d to %d are used, not to %d" % (L, f, h, want)
    if bad and not unk:
        ctx.ob(key, False, S.sup, bad)
    elif unk:
        ctx.undecided.append((ctx.cur, "range of targets"))
    else:
        ctx.ob(key, True, S.sup)


def unique_in_order(ctx, S, ids):
    key = "targets of all files are listed once, in the order of the files"
    v = strip(ids)
    if is_call(v, "dict.fromkeys") or v.op == "call" and fname(v.a[0]).endswith("fromkeys"):
        ctx.ob(key, True, S.sup)
        return cargs(v)[0]
    if is_call(v, "numpy.unique") and ckw(v, "return_index") is None:
        ctx.ob(key, False, S.sup, "numpy.unique orders them by value")
        raise Stop()
    if is_call(v, *SORTERS):
        ctx.ob(key, False, S.sup, "%s changes their order" % fname(v.a[0]))
        raise Stop()
    if v.op == "sub":
        a, k = v.a[0], strip(v.a[1])
        u = None
        asc = False
        if k.op == "sub" and is_argsort(strip(k.a[1])):
            u = strip(k.a[0])
            x = strip(k.a[1])
            arg = cargs(x)[0] if cargs(x) else None
            asc = arg is not None and deep(arg) is deep(u)
        elif is_argsort(k) and cargs(k):
            w = strip(cargs(k)[0])
            if w.op == "sub" and is_call(strip(w.a[0]), "numpy.unique") and is_const(w.a[1], 1):
                ctx.ob(key, False, S.sup, "places in the list of unique identifiers are used as places in the list of all identifiers")
                raise Stop()
        elif k.op == "sub" and is_call(strip(k.a[1]), "numpy.arange"):
            # all places, in the order in which numpy.unique lists them
            u = strip(k.a[0])
        elif is_call(k, "numpy.sort", "builtins.sorted"):
            u = strip(cargs(k)[0])
            asc = True
        elif k.op == "sub" and is_call(strip(k.a[0]), "numpy.unique"):
            u = k
        if u is not None and u.op == "sub" and is_call(strip(u.a[0]), "numpy.unique") and is_const(u.a[1]):
            uc = strip(u.a[0])
            same = deep(cargs(uc)[0]) is deep(a)
            if ckw(uc, "return_index") is TRUE and u.a[1].a[0] == 1 and same:
                ctx.ob(key, asc, S.sup, "they are listed in order of value")
                if not asc:
                    raise Stop()
                return a
    raise Undecided("how the targets of all files are listed")


def acc_values(t):
    """values a list is extended with"""
    out = []
    for x in subterms(t):
        if x.op == "extend" and any(y.op == "mu" for y in [strip(x.a[0])]):
            out.append(x.a[1])
    # only the outermost list
    t = strip(t)
    if t.op == "loop":
        b = t.a[1]
        vals = []
        for c, v in ites(b):
            v = strip_alloc(v)
            if v.op == "extend" and strip_alloc(v.a[0]).op == "mu":
                vals.append(v.a[1])
            elif v.op == "mu":
                continue
            else:
                return []
        return vals
    if t.op == "comp":
        return []
    return out if len(out) == 1 else []


def r_tables(ctx, S):
    if not hasattr(S, "keep"):
        raise Undecided("the kept identifiers were not found")
    files = None
    for n, (e, st) in S.tables.items():
        if st is None:
            raise Undecided("how %s is put together" % n)
        fs, v, x = st
        if files is None:
            files = (fs, n)
        s = sel(fs)
        if s.lost:
            ctx.ob("%s: files in the order of the catalog" % n, False, e, s.lost)
        elif fs is not files[0]:
            raise Undecided("%s and %s are stacked over different lists" % (n, files[1]))
        else:
            ctx.ob("%s: files in the order of the catalog" % n, True, e)
        for env in envs(split_cases(v, S.keep)):
            txt = "; ".join("%s is %s" % (show(k)[-30:], w) for k, w in env.items())[:120]
            r = sel(assume(v, env))
            k = deep(assume(S.keep, env))
            kb = sel(assume(S.keepraw, env)).base
            if r.lost:
                ctx.ob("%s keeps the order of the file (%s)" % (n, txt), False, e, r.lost)
                continue
            ins = [y for y in r.sels if y[0] == "in"]
            if not ins and r.sels and all(y[0] == "slice" for y in r.sels):
                ks = sel(assume(S.keepraw, env)).sels
                if any(y[0] == "in" for y in ks):
                    ctx.ob("%s has the rows of the targets in the catalog (%s)" % (n, txt), False, e, "a range of rows is taken although the targets are selected by their identifiers")
                    continue
                if n != "exp_fibermap" and len(ks) == len(r.sels) and all(deep(assume(a[1], env)) is deep(assume(b[1], env)) for a, b in zip(ks, r.sels)):
                    ctx.ob("%s has the rows of the targets in the catalog (%s)" % (n, txt), True, e)
                    continue
            if len(ins) != len(r.sels) or len(ins) > 1:
                raise Undecided("rows selected for %s" % n)
            if not ins:
                if r.base is not None and not r.sels and r.base.op in ("call", "sub"):
                    ctx.ob("%s has rows of the selected targets only (%s)" % (n, txt), False, e, "no selection is applied")
                    continue
                raise Undecided("rows selected for %s" % n)
            _, arr, kk = ins[0]
            ctx.ob("%s has the rows of the targets in the catalog (%s)" % (n, txt), kk is k, e, "rows are selected by %s, targets by %s" % (show(kk)[-60:], show(k)[-60:]))
            if True:
                own = mk("sub", r.base, const("TARGETID"))
                if n == "exp_fibermap":
                    good = arr is deep(own)
                    if not good and arr.op != "sub":
                        raise Undecided("rows selected for %s" % n)
                    ctx.ob("%s is selected by its own identifiers (%s)" % (n, txt), good, e, "by %s" % show(arr)[-60:])
                else:
                    # one row per target, in the order of the table of identifiers
                    good = arr is kb or arr is deep(own)
                    if not good and is_call(arr, *SORTERS):
                        ctx.ob("%s is selected by the identifiers of the targets (%s)" % (n, txt), False, e, "rows are selected by identifiers in another order: %s" % show(arr)[:60])
                        continue
                    if not good and not (arr.op == "sub" and is_const(arr.a[1])):
                        raise Undecided("rows selected for %s" % n)
                    ctx.ob("%s is selected by the identifiers of the targets (%s)" % (n, txt), good, e, "by %s" % show(arr)[-60:])


def r_zfind(ctx):
    I = ctx.interp("redrock.zfind.zfind")
    r = strip(I.ret)
    if r.op != "tuple" or len(r.a) != 2:
        raise Undecided("what zfind returns")
    t = r.a[1]
    vals = [v for c, v in ites(t) if v is not NONE]
    tg = mk("param", "redrock.zfind.zfind", "targets")
    for v in vals:
        lost = None
        x = v
        while True:
            x = strip(x)
            if x.op == "store":
                x = x.a[0]
                continue
            if x.op == "mut":
                if x.a[0] in ("sort", "reverse"):
                    lost = "the table is changed by %s()" % x.a[0]
                x = x.a[1]
                continue
            if x.op == "loop":
                # row-wise updates do not move rows
                b = [z for c, z in ites(x.a[1])]
                x = strip(x.a[0])
                if x.op == "mu":
                    x = x.a[2]
                continue
            break
        s = sel(x)
        if s.lost:
            lost = s.lost
        elif s.sels:
            raise Undecided("rows are selected from the table of all fits")
        if lost:
            ctx.ob("fits are listed in the order of the targets", False, I.where if hasattr(I, "where") else "redrock.zfind.zfind", lost)
            continue
        if not is_call(x, "astropy.table.vstack") or not cargs(x):
            raise Undecided("how the table of all fits is built")
        if x.op == "call":
            c = strip(cargs(x)[0])
            if c.op != "comp" or c.a[0] != "list":
                raise Undecided("how the table of all fits is built")
            it = sel(c.a[3].a[0])
            if it.lost:
                ctx.ob("fits are listed in the order of the targets", False, "redrock.zfind.zfind", it.lost)
                continue
            b = it.base
            if b is deep(mk("attr", tg, "all_target_ids")) and not it.sels and c.a[2] is TRUE:
                ctx.ob("fits are listed in the order of the targets", True, "redrock.zfind.zfind")
            elif b is not None and (b.op in ("loop", "dict", "comp") or is_call(b, "keys", "builtins.dict")):
                ctx.ob("fits are listed in the order of the targets", False, "redrock.zfind.zfind", "they are listed in the order of the results, which depends on the process count")
            else:
                raise Undecided("fits are listed for %s" % show(c.a[3].a[0])[-60:])


def peel_rows(t):
    """(row selection, source) below column updates"""
    n = 0
    while True:
        t = strip(t)
        if t.op in ("store",):
            t = t.a[0]
        elif t.op == "mut":
            if t.a[0] in ("sort", "reverse"):
                return None, t
            t = t.a[1]
        elif t.op == "loop":
            t = strip(t.a[0])
            t = t.a[2] if t.op == "mu" else t
        elif t.op == "ite" and NONE in t.a[1:]:
            t = t.a[1] if t.a[2] is NONE else t.a[2]
        elif t.op == "ite" and strip_updates(t.a[1]) is strip_updates(t.a[2]):
            t = t.a[1]
        elif is_call(t, "bcast") and cargs(t):
            t = cargs(t)[0]
        else:
            return t, None


def strip_updates(t):
    while True:
        t = strip(t)
        if t.op == "store":
            t = t.a[0]
        elif t.op == "mut" and t.a[0] not in ("sort", "reverse"):
            t = t.a[1]
        elif t.op == "loop":
            t = strip(t.a[0])
            t = t.a[2] if t.op == "mu" else t
        elif t.op == "ite" and t.a[1] is not t.a[2] and strip_updates(t.a[1]) is strip_updates(t.a[2]):
            t = t.a[1]
        else:
            return t


def r_main(ctx):
    I = ctx.interp(D + "rrdesi")
    wz = calls(I, D + "write_zbest")
    if not wz:
        raise Undecided("rrdesi writes no catalog")
    for e in wz:
        b = e.d.get("bound") or {}
        z = b.get("zbest")
        t, bad = peel_rows(z)
        key = "the catalog keeps the order of the fits"
        if bad is not None:
            ctx.ob(key, False, e, "the table is changed by %s()" % bad.a[0])
            continue
        if t.op == "sub" and is_argsort(strip(t.a[1])):
            ctx.ob(key, False, e, "rows are sorted by %s" % show(t.a[1])[-60:])
            continue
        if t.op == "sub":
            c = strip(t.a[1])
            src, bad = peel_rows(t.a[0])
            if bad is not None:
                ctx.ob(key, False, e, "the table is changed by %s()" % bad.a[0])
                continue
            if c.op == "cmp" and c.a[0] == "==" and any(y.op == "sub" and is_const(y.a[1]) and y.a[1].a[0] == "znum" for y in c.a[1:]):
                ctx.ob(key, True, e)
            elif c.op == "bin" and c.a[0] == "&" and any(x.op == "cmp" and x.a[0] == "==" and any(y.op == "sub" and is_const(y.a[1], "znum") for y in x.a[1:]) for x in map(strip, c.a[1:])) and \
                    all(strip(x).op == "cmp" and any(y.op == "sub" and is_const(y.a[1]) for y in strip(x).a[1:] if isinstance(y, T)) for x in c.a[1:]):
                ctx.ob(key, False, e, "targets are left out of the catalog: " + show(c)[-60:])
            else:
                raise Undecided("rows of the catalog: %s" % show(c)[-60:])
        else:
            raise Undecided("rows of the catalog")
        for n in ("fibermap", "exp_fibermap", "tsnr2"):
            v = b.get(n)
            u, bad = peel_rows(v)
            if bad is not None:
                ctx.ob("%s keeps the order of the targets" % n, False, e, "the table is changed by %s()" % bad.a[0])
            elif u.op == "attr" and u.a[1] == n:
                ctx.ob("%s keeps the order of the targets" % n, True, e)
            elif u.op == "attr" and u.a[1] in ("fibermap", "exp_fibermap", "tsnr2"):
                ctx.ob("%s is written under its own name" % n, False, e, "%s is written as %s" % (u.a[1], n))
            elif u.op == "sub" and is_argsort(strip(u.a[1])):
                ctx.ob("%s keeps the order of the targets" % n, False, e, "sorted by %s" % show(u.a[1])[-60:])
            else:
                raise Undecided("%s handed to the catalog" % n)


def r_write(ctx):
    F = D + "write_zbest"
    I = ctx.interp(F)
    n = 0
    for e in I.effects:
        if e.kind == "call" and (e.meth in ("sort", "reverse", "remove_rows", "add_row", "insert_row", "remove_row")) and e.recv is not None:
            x = strip(e.recv)
            if any(y.op == "param" and y.a[1] in ("zbest", "fibermap", "exp_fibermap", "tsnr2") for y in [x] + list(subterms(x))):
                ctx.ob("tables are written as they are", False, e, "%s() is applied to %s" % (e.meth, show(x)[:60]))
    for e in calls(I, "table_to_hdu"):
        v = e.args[0]
        u, bad = peel_rows(v)
        if bad is not None:
            ctx.ob("tables are written as they are", False, e, "changed by %s()" % bad.a[0])
        elif u.op == "param":
            n += 1
            ctx.ob("table %s is written as it is" % u.a[1], True, e)
        elif u.op == "sub" and (is_argsort(strip(u.a[1])) or strip(u.a[1]).op == "slice"):
            ctx.ob("tables are written as they are", False, e, "rows %s are written" % show(u.a[1])[-60:])
        else:
            raise Undecided("a table that is written")
    if n < 4:
        raise Undecided("%d tables are written" % n)


def run(ctx):
    box = {}

    def load(c):
        box["S"] = Desi(c)
        c.ob("tables are stacked over files: %s" % ", ".join(sorted(box["S"].tables)), True, box["S"].sup)
    ctx.rule("tables", "the loader builds the tables that accompany the catalog", load)
    if "S" in box:
        ctx.rule("target order", "the list of all targets keeps the order of the file for every selection", r_order, box["S"])
        ctx.rule("table rows", "the tables keep the rows of exactly these targets, in the order of the file", r_tables, box["S"])
    ctx.rule("fit order", "fits are listed in the order of the targets", r_zfind)
    ctx.rule("catalog", "the catalog and its tables are written in that order", r_main)
    ctx.rule("written tables", "writing the catalog does not move rows", r_write)
