"""C11: candidates are ranked by quality then chi2 and numbered in that order."""
from ..q import *
from ..store import *
from ..arith import *
from ..logic import *
from ..ctx import Undecided, Stop

ZF = "redrock.zfind.zfind"
INL = ["redrock.zfind.sort_zfit_dict", "redrock.zfind.sort_dict_by_cols", "redrock.zfind.sort_dict_by_col"]


class Table(object):
    """what happens to the candidate table of one target, in program order"""

    def __init__(self, ctx):
        I = self.I = ctx.interp(ZF, inline=INL)
        zn = [e for e in effs(I, "setitem") if is_const(e.key, "znum")]
        if not zn:
            raise Undecided("no column znum is set")
        self.zn = zn
        self.loop = zn[0].loops[:1]
        self.roots = roots(zn[0].base)
        self.roots = {r for r in self.roots if r.op == "alloc"} or set(self.roots)
        self.common = None
        self.ev = []
        self.split = []
        for e in I.effects:
            if e.loops[:1] != self.loop:
                continue
            if e.kind == "setitem" and set(roots(e.base)) & self.roots:
                r = self.reorder(e)
                if r is not None:
                    self.ev.append(("reorder", e, r))
                elif is_const(e.key):
                    self.ev.append(("column", e, e.key.a[0]))
                else:
                    self.ev.append(("fill", e, None))
            elif e.kind == "setitem" and self.column_of(e.base):
                self.ev.append(("inplace", e, self.column_of(e.base)))
            elif e.kind == "call" and fname(e.fn) == "redrock.zfind.calc_deltachi2":
                self.ev.append(("delta", e, None))
            elif e.kind == "append" and e.seq > zn[0].seq:
                self.ev.append(("store", e, None))
        self.base = set(flat_guards(zn[0]))
        self.ev.sort(key=lambda x: x[1].seq)

    def reorder(self, e, v=None):
        v = strip(e.value) if v is None else strip(v)
        if v.op == "ite":
            rs = [self.reorder(e, x) for _, x in ites(v)]
            if any(r is None for r in rs):
                return None
            if len({canon(r) for r in rs}) > 1:
                self.split.append((e, v))
            return rs[-1]
        if v.op != "sub":
            return None
        b = v.a[0]
        if b.op == "sub" and set(roots(b.a[0])) & self.roots and canon(b.a[1]) == canon(e.key) and (v.a[1].op != "const") and v.a[1] is not e.key:
            return v.a[1]
        return None

    def column_of(self, b, d=0):
        """name of the column when b is a column of the table"""
        if d > 8:
            return None
        if b.op == "sub" and is_const(b.a[1]) and set(roots(b.a[0])) & self.roots:
            return b.a[1].a[0]
        if b.op == "store":
            return self.column_of(b.a[0], d + 1)
        if b.op in ("loop",):
            return self.column_of(b.a[0], d + 1)
        if b.op == "ite":
            return self.column_of(b.a[1], d + 1) or self.column_of(b.a[2], d + 1)
        return None

    def before(self, e):
        """state of the table before the loop over its columns that e belongs to"""
        b = e.base
        n = 0
        while b.op in ("mu", "loop", "alloc") and n < 9:
            b = b.a[2] if b.op == "mu" else (b.a[0] if b.op == "loop" else b.a[1])
            n += 1
        return e.base.a[2] if e.base.op == "mu" else e.base

    def extra(self, e):
        bad = [g for g, k in e.guards if k == "raise"]
        return [g for g in flat_guards(e) if g not in self.base and g.op != "exc" and not any(g is b or (b.op == "and" and g in b.a) for b in bad)]


def table(ctx):
    if not hasattr(ctx, "_c11"):
        ctx._c11 = Table(ctx)
    return ctx._c11


def sort_keys(P):
    """keys of an ordering index, most significant first; None if P is no sort; with the direction"""
    P = strip(P)
    rev = False
    while P.op == "call" and fname(P.a[0]) in ("numpy.flatten", "numpy.ravel", "numpy.squeeze", "builtins.list") or (P.op == "sub" and P.a[1].op == "slice"):
        if P.op == "sub":
            lo, hi, st = P.a[1].a
            if lo is NONE and hi is NONE and is_const(st, -1):
                rev = not rev
                P = strip(P.a[0])
                continue
            return None
        P = strip(cargs(P)[0])
    if is_call(P, "numpy.lexsort"):
        k = strip(cargs(P)[0])
        if k.op in ("tuple", "list"):
            return [strip(x) for x in reversed(k.a)], rev
        return ["?"], rev
    if is_call(P, "numpy.argsort"):
        return [strip(cargs(P)[0])], rev
    return None


def is_badflag(ctx, k, zw):
    """True if k is (zwarn & badfit) != 0, False if it is another mask of zwarn, None if unknown"""
    k = strip(k)
    inv = False
    if k.op == "un" and k.a[0] == "~" or k.op == "not":
        k, inv = strip(k.a[-1]), True
    if k.op == "cmp" and k.a[0] in ("!=", "==", "<"):
        a, b = strip(k.a[1]), strip(k.a[2])
        if is_const(b, 0):
            a, b = b, a
        if not is_const(a, 0):
            return None
        if k.a[0] == "==":
            inv = not inv
        k = b
    elif k.op == "call" and fname(k.a[0]).endswith("bool"):
        k = strip(cargs(k)[0])
    if k.op == "bin" and k.a[0] == "&":
        ms = [x for x in k.a[1:] if glob_const(ctx.prog, x) is not None]
        zs = [x for x in k.a[1:] if glob_const(ctx.prog, x) is None]
        if len(ms) == 1 and len(zs) == 1:
            ok = glob_const(ctx.prog, ms[0]) == glob_const(ctx.prog, mk("global", "redrock.zwarning.badfit_mask"))
            same = zw is None or canon(strip(zs[0])) == canon(strip(zw))
            return ok and not inv and same
    if zw is not None and canon(k) == canon(strip(zw)):
        return False
    return None


def final(ctx, t):
    """obligations on the last reordering before numbering; returns the seq after which the order is final"""
    sorts, filters = [], []
    for kind, e, x in t.ev:
        if kind == "reorder":
            k = sort_keys(x)
            (sorts if k is not None else filters).append((e, x, k))
    return sorts, filters


def r_sort(ctx):
    t = table(ctx)
    for e, v in t.split:
        ctx.ob("sort/all-columns", False, e, "columns are put in different orders: " + show(v)[:100])
    sorts, filters = final(ctx, t)
    if not sorts:
        unk = [e for k, e, x in t.ev if k == "reorder"]
        if unk or any(c.kind == "call" and fname(c.fn).rsplit(".", 1)[-1] in ("sort", "sorted", "lexsort", "argsort") and c.loops[:1] == t.loop for c in t.I.effects):
            raise Undecided("sorting of the candidates")
        ctx.ob("sort/exists", False, t.zn[0], "candidates are numbered without being sorted")
        return
    for e, P, (keys, rev) in sorts:
        if "?" in keys:
            raise Undecided("sort keys " + show(P)[:80])
        s = t.before(e)
        chi2, zw = mksub(s, const("chi2")), mksub(s, const("zwarn"))
        ctx.ob("sort/ascending", not rev and not any(k.op == "un" and k.a[0] == "-" for k in keys), e, "the order is reversed")
        if len(keys) < 2:
            f = is_badflag(ctx, keys[0], None)
            ctx.ob("sort/quality-then-chi2", False, e, "sorted only by " + show(keys[0])[-80:])
            continue
        f = is_badflag(ctx, keys[0], zw)
        if f is None and canon(keys[0]) == canon(strip(chi2)):
            f = False
        if f is None:
            ctx.undecided.append((ctx.cur, "first sort key " + show(keys[0])[:80]))
        else:
            ctx.ob("sort/good-first", f, e, "the first sort key is " + show(keys[0])[-100:])
        c = canon(keys[1]) == canon(strip(chi2))
        if c or keys[1].op == "sub" or is_badflag(ctx, keys[1], zw) is not None:
            ctx.ob("sort/then-chi2", c, e, "the second sort key is " + show(keys[1])[-100:])
        else:
            ctx.undecided.append((ctx.cur, "second sort key " + show(keys[1])[:80]))
    for kind, e, x in t.ev:
        if kind == "reorder":
            g = [q for q in t.extra(e) if any(contains(q, lambda y: y is mk("idx", l.a[0], l.a[1])) for l in e.loops[1:] if l.op == "it")]
            ctx.ob("sort/all-columns", not g, e, "a column only follows the new order when " + "; ".join(show(q)[:80] for q in g))


def r_final(ctx):
    t = table(ctx)
    sorts, filters = final(ctx, t)
    if not sorts:
        raise Undecided("no sort")
    badfit = glob_const(ctx.prog, mk("global", "redrock.zwarning.badfit_mask"))
    evs = t.ev
    plain = [e for e, P, k in sorts if not t.extra(e)]
    ctx.ob("final/always-sorted", bool(plain), sorts[0][0], "candidates are only sorted when " + "; ".join(show(g)[:60] for g in t.extra(sorts[0][0])))
    if not plain:
        return
    for f, P, _ in filters:
        after = [e for e, _, _ in sorts if e.seq > f.seq and set(t.extra(e)) <= set(t.extra(f))]
        ctx.ob("final/sorted-after-trim", bool(after), f, "the trimmed list is not sorted again")
        before = [e for e in plain if e.seq < f.seq]
        ctx.ob("final/sorted-before-trim", bool(before), f, "the list is trimmed before it is sorted")
    last = max([e.seq for e, _, _ in sorts] + [f.seq for f, _, _ in filters])
    lastplain = max(e.seq for e in plain)
    for z in t.zn:
        ctx.ob("final/numbered-last", z.seq > last, z, "candidates are reordered after they were numbered")
        ctx.ob("final/numbered-always", not t.extra(z), z, "candidates are only numbered when " + "; ".join(show(g)[:60] for g in t.extra(z)))
        v = strip(z.value)
        if is_call(v, "numpy.arange"):
            a = cargs(v)
            ctx.ob("final/numbers-count", len(a) == 1 and ckw(v, "start") is None or (len(a) == 2 and is_const(a[0], 0)), z, "the numbers are " + show(v)[:80])
            n = a[-1]
            if is_call(strip(n), "builtins.len"):
                c = strip(cargs(strip(n))[0])
                st = z.base
                # length of a column of the table as it is now
                if c.op == "sub" and is_const(c.a[1]):
                    ctx.ob("final/numbers-length", canon(c) == canon(strip(mksub(st, c.a[1]))) or not filters, z, "as many numbers as " + show(c)[:80])
        else:
            ctx.undecided.append((ctx.cur, "numbers " + show(v)[:60]))
    # what the order depends on does not change any more
    for kind, e, x in evs:
        if kind in ("column", "inplace") and e.seq > lastplain and x in ("zwarn", "chi2"):
            if x == "chi2":
                ctx.ob("final/order-stays-valid", False, e, "chi2 changes after the final sort")
                continue
            v = glob_const(ctx.prog, strip(e.value)) if e.op == "|" else None
            if kind == "inplace" and v is not None:
                ctx.ob("final/order-stays-valid", not (v & badfit), e, "a bad-fit bit is set after the final sort")


def r_trim(ctx):
    t = table(ctx)
    sorts, filters = final(ctx, t)
    n = mk("param", ZF, "nminima")
    if not filters:
        for e in t.I.effects:
            if e.kind == "call" and e.loops[:1] == t.loop and contains(e.result if isinstance(e.d.get("result"), T) else NONE, lambda y: y is n):
                raise Undecided("trimming of the candidates")
        ctx.ob("trim/exists", False, t.zn[0], "the number of candidates per spectral type is not limited")
        return
    for f, P, _ in filters:
        rs = set(roots(P))
        ex = [e for e in effs(t.I, "extend", "append") if set(roots(e.base)) & rs]
        if not ex:
            raise Undecided("kept rows " + show(P)[:80])
        s = t.before(f)
        sp = canon(strip(mksub(s, const("spectype"))))
        for e in ex:
            v = strip(e.value)
            if v.op == "ite":
                for x in [strip(y) for _, y in ites(v)]:
                    if x.op == "sub" and x.a[1].op == "slice":
                        lo = x.a[1].a[0]
                        ctx.ob("trim/best", lo is NONE or is_const(lo, 0), e, "the kept candidates are " + show(x.a[1])[:40])
            if e.kind != "extend" or v.op != "sub" or v.a[1].op != "slice":
                if v.op == "sub" and is_call(strip(v.a[0]), "numpy.where") or is_call(v, "numpy.flatnonzero"):
                    ctx.ob("trim/number", False, e, "all candidates of a type are kept")
                    continue
                raise Undecided("kept rows " + show(v)[:80])
            lo, hi, st = v.a[1].a
            ctx.ob("trim/best", (lo is NONE or is_const(lo, 0)) and (st is NONE or is_const(st, 1)), e, "the kept candidates are " + show(v.a[1])[:40])
            if hi is NONE or is_const(hi) or canon(hi) == canon(n) or contains(hi, lambda y: y is n):
                ctx.ob("trim/number", canon(hi) == canon(n), e, "%s candidates per type are kept" % show(hi)[:40])
            else:
                ctx.undecided.append((ctx.cur, "number " + show(hi)[:60]))
            w = strip(v.a[0])
            if w.op == "sub" and is_const(w.a[1], 0):
                w = strip(w.a[0])
            if not is_call(w, "numpy.where", "numpy.nonzero", "numpy.flatnonzero"):
                raise Undecided("rows of a type " + show(w)[:80])
            c = strip(cargs(w)[0])
            if c.op != "cmp" or c.a[0] != "==":
                raise Undecided("rows of a type " + show(c)[:80])
            a, b = strip(c.a[1]), strip(c.a[2])
            key = e.loops[-1]
            i = mk("idx", key.a[0], key.a[1]) if key.op == "it" else None
            col = [x for x in (a, b) if not contains(x, lambda y: y is i)]
            one = [x for x in (a, b) if contains(x, lambda y: y is i)]
            if len(col) != 1 or len(one) != 1:
                raise Undecided("type selection " + show(c)[:80])
            ctx.ob("trim/per-type", canon(col[0]) == sp, e, "candidates are grouped by " + show(col[0])[-60:])
            src = strip(key.a[0])
            if is_call(src, "numpy.unique", "builtins.set", "builtins.sorted"):
                src = strip(cargs(src)[0])
                if is_call(src, "numpy.unique", "builtins.set"):
                    src = strip(cargs(src)[0])
            ctx.ob("trim/all-types", canon(src) == sp, e, "only the types in %s are kept" % show(key.a[0])[-60:])
            g = [q for q in t.extra(e)]
            ctx.ob("trim/every-type-kept", not g, e, "a type is only kept when " + "; ".join(show(q)[:60] for q in g))
        # skipping the trim must mean that nothing would be removed
        for g in t.extra(f):
            if contains(g, lambda y: set(roots(y)) & rs if y.op in ("loop", "alloc") else False):
                g0 = g
                if g.op == "cmp" and g.a[0] in ("<", "!=", "<="):
                    ctx.ob("trim/when-needed", True, f)
                elif g.op == "cmp" and g.a[0] == "==":
                    ctx.ob("trim/when-needed", False, f, "the list is trimmed only when " + show(g)[-60:])


def run(ctx):
    ctx.rule("sort", "every ordering of the candidates uses (bad fit, chi2), ascending, for all columns", r_sort)
    ctx.rule("final", "the last reordering is a sort, numbers follow it, and nothing the order depends on changes later", r_final)
    ctx.rule("trim", "at most the requested number per type, the first ones of the sorted list", r_trim)
