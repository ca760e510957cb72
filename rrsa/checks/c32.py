"""C32: archetype coefficients keep one layout from fit to model."""
from ..q import *
from ..arith import *
from ..terms import *
from ..ctx import Undecided, Stop
from ..padding import r_pad
from .c15 import subterms

PC = "redrock.zscan.per_camera_coeff_with_least_square_batch"
CB = "redrock.zscan.calc_zchi2_batch"
SP = "redrock.archetypes.split_archetype_coeff"
PR = "redrock.fitz.prior_on_coeffs"
FZ = "redrock.fitz.fitz"
GB = "redrock.archetypes.Archetype.get_best_archetype"
NN = "redrock.archetypes.Archetype.nearest_neighbour_model"
EV = "redrock.archetypes.Archetype.eval"
EM = "redrock.targets.Target.eval_model"
SB = "redrock.targets.Target._set_bands"
PL = "redrock.plotspec.PlotSpec.plot"
ZERO, ONE = mk("const", 0), mk("const", 1)


def add(a, b):
    return b if a is ZERO else a if b is ZERO else mk("bin", "+", a, b)


def mul(a, b):
    return mk("bin", "*", a, b)


def sub_(a, b):
    return mk("bin", "-", a, b)


def same(a, b):
    return a is b or (a is not None and b is not None and (peq(a, b) or canon(deep_strip(a)) is canon(deep_strip(b))))


def unalloc(t):
    while t.op == "alloc":
        t = t.a[1]
    return t


# ---------------------------------------------------------------- intervals of indices

class C3(object):
    """obligations may be undecided (None)"""

    def __init__(self, ctx):
        self.c = ctx

    def __getattr__(self, k):
        return getattr(self.c, k)

    def ob(self, nm, ok, where="", msg=""):
        if ok is None:
            self.c.undecided.append((self.c.cur, nm + ": " + msg[:100]))
            return None
        return self.c.ob(nm, ok, where, msg)


def has(t, x):
    return contains(t, lambda q: q is x)


def span(k):
    """(first, past-the-end or None) index term of an index expression with step 1, else None"""
    k = strip(k)
    if k.op == "slice":
        a, b, s = k.a
        if s is not NONE and not is_const(s, 1):
            return None
        a = ZERO if a is NONE else a
        for x in (a, b):
            if x is not NONE and is_const(x) and isinstance(x.a[0], (int, float)) and x.a[0] < 0:
                return None
        return a, (None if b is NONE else b)
    if k.op == "const" and isinstance(k.a[0], int) and not isinstance(k.a[0], bool):
        return k, add(k, ONE)
    return None


def loop_span(k, lo):
    """interval visited by index k over the loop whose running index is lo (coefficient one), or None"""
    if not is_range(lo.a[0]):
        return None
    a = rargs(lo.a[0])
    if len(a) == 3 and not is_const(a[2], 1):
        return None
    s, e = (ZERO, a[0]) if len(a) == 1 else (a[0], a[1])
    d = poly(sub_(k, lo))
    if has(k, lo) and any(key_has(m, lo) for m in d):
        d = poly(mk("bin", "+", k, lo))
        if not any(key_has(m, lo) for m in d):
            # counts down: from k at the last step to k at the first
            last = mk("bin", "-", e, ONE)
            return rewrite(k, lambda q: last if q is lo else q), mk("bin", "+", rewrite(k, lambda q: s if q is lo else q), ONE)
        return None
    return rewrite(k, lambda q: s if q is lo else q), rewrite(k, lambda q: e if q is lo else q)


def stride(k, lo):
    """step of index k per step of the loop index lo (polynomial as a string), None if not linear"""
    def at(j):
        return rewrite(k, lambda q: mk("bin", "+", lo, mk("const", j)) if q is lo else q)
    d = poly(sub_(at(1), k))
    if any(key_has(m, lo) for m in d):
        return None
    return pshow(d)


def key_has(m, lo):
    return canon(lo).n in {x.n for x in walkk(m)}


def walkk(m, d=0):
    if isinstance(m, K):
        yield m
        if d < 12:
            for x in walkk(m.v, d + 1):
                yield x
    elif isinstance(m, (tuple, list)):
        for y in m:
            for x in walkk(y, d + 1):
                yield x


def compose(base, sl):
    """interval sl applied inside interval base"""
    s = add(base[0], sl[0])
    e = add(base[0], sl[1]) if sl[1] is not None else base[1]
    return s, e


def interval(t, root):
    """interval of root's (last) axis that t selects by nested slices, or None"""
    t = strip(unalloc(strip(t)))
    if t is root:
        return ZERO, None
    if t.op == "sub":
        b = interval(t.a[0], root)
        k = span(t.a[1])
        if b is None or k is None:
            return None
        return compose(b, k)
    return None


def ishow(i):
    return "[%s, %s)" % (show(i[0]), show(i[1]) if i[1] is not None else "end")


# ---------------------------------------------------------------- order of dictionary keys

def keyorder(t, lits):
    """insertion order of the keys of a dict term: list of ('key', k) / ('seq', sequence)"""
    t = unalloc(strip(t))
    if t.op == "dict":
        d = t
        if len(d.a) % 2:
            raise Undecided("dict display")
        return [("key", d.a[i]) for i in range(0, len(d.a), 2)]
    if is_call(t, "builtins.dict") and not cargs(t):
        return []
    if t.op == "comp" and t.a[0] == "dict":
        return [("seq", t.a[3].a[0])]
    if t.op == "store":
        o = keyorder(t.a[0], lits)
        k = t.a[1]
        return put(o, elem_seq(k))
    if t.op == "loop":
        o = keyorder(t.a[0].a[-1], lits)
        b = t.a[1]
        for x in keyorder_body(b, t.a[0]):
            o = put(o, x)
        return o
    if t.op == "ite":
        v = lits.get(t.a[0].id)
        if v is None:
            a, b = keyorder(t.a[1], lits), keyorder(t.a[2], lits)
            if a == b:
                return a
            if a[:len(b)] == b:
                return a
            if b[:len(a)] == a:
                return b
            raise Undecided("key order depends on " + show(t.a[0])[:60])
        return keyorder(t.a[1] if v else t.a[2], lits)
    raise Undecided("keys of " + show(t)[:80])


def keyorder_body(b, mu):
    b = strip(b)
    if b is mu:
        return []
    if b.op == "store":
        return keyorder_body(b.a[0], mu) + [elem_seq(b.a[1])]
    if b.op == "ite":
        x, y = keyorder_body(b.a[1], mu), keyorder_body(b.a[2], mu)
        return x if len(x) >= len(y) else y
    raise Undecided("keys set in a loop")


def elem_seq(k):
    k = strip(k)
    if k.op == "sub" and k.a[1].op == "idx":
        return ("seq", k.a[0])
    return ("key", k)


def put(o, x):
    for y in o:
        if y[0] == x[0] and (y[1] is x[1] or (y[0] == "seq" and members(y[1]) is members(x[1]))):
            return o
    return o + [x]


def members(s):
    """sequence without its order"""
    s = strip(unalloc(strip(s)))
    while is_call(s, "builtins.sorted", "builtins.list", "builtins.tuple", "builtins.reversed", "numpy.sort", "numpy.array", "numpy.asarray", "numpy.flip") and cargs(s):
        s = strip(unalloc(strip(cargs(s)[0])))
    return s


def ordered(s):
    """(base, 'as-is'|'sorted'|'other'): the order in which a sequence visits its base"""
    s = strip(unalloc(strip(s)))
    how = "as-is"
    while is_call(s, "builtins.sorted", "numpy.sort", "builtins.list", "builtins.tuple", "builtins.reversed", "numpy.unique", "builtins.set", "numpy.array", "numpy.asarray") and cargs(s):
        n = fname(s.a[0]).rsplit(".", 1)[-1]
        if n in ("sorted", "sort", "unique") and how == "as-is":
            rv = ckw(s, "reverse")
            how = "sorted" if (rv is None or rv is FALSE) and ckw(s, "key") is None else "other"
        elif n in ("reversed", "set") and how != "sorted":
            how = "other"
        elif n == "reversed":
            how = "other"
        s = strip(unalloc(strip(cargs(s)[0])))
    if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "keys":
        s = strip(s.a[0].a[0])
    return s, how


# ---------------------------------------------------------------- the per-camera fit

def P(q, n):
    return mk("param", q, n)


def r_build(ctx):
    I = ctx.interp(PC)
    n, nleg, td, bands, gpu = [P(PC, x) for x in ("n_nbh", "nleg", "tdata", "bands", "use_gpu")]
    total = add(n, nleg)
    width = add(n, mul(nleg, mk("call", ext("builtins.len"), bands)))
    blocks = {True: set(), False: set()}
    seen, poison = 0, False
    for e in effs(I, "setitem"):
        v = strip(e.value)
        if v.op != "sub" or strip(v.a[1]).op != "tuple":
            continue
        row = strip(v.a[0])
        if row.op != "sub" or base_of(row.a[0]) is not td or strip(row.a[1]).op != "sub":
            continue
        key = strip(row.a[1])          # tdata[#i]
        if key.a[1].op != "idx":
            continue
        i = key.a[1]
        kb, how = ordered(i.a[0])
        if base_of(kb) is not td:
            continue
        dk, sk = strip(e.key), strip(v.a[1])
        if dk.op != "tuple":
            continue
        d, s = dk.a[-1], sk.a[-1]
        si, di = span(s), span(d)
        if si is None or di is None:
            los = [q for q in subterms(s) if q.op == "idx" and is_range(q.a[0])]
            if len(los) != 1 or si is not None or di is not None:
                poison = True
                ctx.undecided.append((ctx.cur, "columns " + show(e.key)[:80]))
                continue
            if stride(s, los[0]) is not None and stride(d, los[0]) not in (None, stride(s, los[0])):
                seen += 1
                poison = True
                ctx.ob("build/camera-block", False, e, "the columns of camera %s are not adjacent: %s" % (show(i)[:30], show(d)[:60]))
                continue
            si, di = loop_span(s, los[0]), loop_span(d, los[0])
            if si is None or di is None:
                poison = True
                ctx.undecided.append((ctx.cur, "columns " + show(e.key)[:80]))
                continue
        seen += 1
        off = sub_(di[0], si[0])
        if peq(si[0], ZERO):
            if not (si[1] is not None and peq(si[1], n)):
                if si[1] is not None and not pin(si[1]) <= {n, nleg}:
                    poison = True
                    ctx.undecided.append((ctx.cur, "columns " + show(e.value)[-80:]))
                    continue
                ctx.ob("build/archetype-block", False, e, "the archetype block takes the template columns " + ishow(si))
                continue
            ctx.ob("build/archetype-block", peq(off, ZERO) and (di[1] is None or peq(di[1], n)), e, "the archetype columns go to " + ishow(di))
            blk = "a"
        else:
            ctx.ob("build/camera-source", peq(si[0], n) and (si[1] is None or peq(si[1], total)), e, "the polynomial block takes the template columns " + ishow(si))
            want = add(n, mul(nleg, i))
            ctx.ob("build/camera-block", peq(di[0], want) and (di[1] is None or peq(di[1], add(want, nleg))), e, "the polynomial columns of camera %s go to %s" % (show(i)[:30], ishow(di)))
            ctx.ob("build/camera-order", how == "as-is", e, "cameras are numbered in the order " + show(i.a[0])[:80])
            blk = "l"
        g = [x for x in flat_guards(e)]
        for b in (True, False):
            lit = gpu if b else mknot(gpu)
            if not any(x is mknot(lit) for x in g):
                blocks[b].add(blk)
    if not seen:
        raise Undecided("columns of the per-camera design matrix")
    for b in (True, False):
        if blocks[b] and not poison:
            ctx.ob("build/both-blocks/%s" % ("gpu" if b else "cpu"), blocks[b] == {"a", "l"}, PC, "only the %s block is filled" % "/".join(sorted(blocks[b])))
    # sizes
    for c in calls(I, CB):
        nb = c.bound.get("nbasis")
        if nb is None:
            continue
        ctx.ob("build/width", peq(nb, width) if known(nb, (n, nleg, bands)) else None, c, "the solver is told %s basis vectors" % show(nb)[:80])
        ctx.ob("build/prior", c.bound.get("prior") is P(PC, "prior"), c, "the solver gets the prior " + show(c.bound.get("prior"))[:80])
        bounds(ctx, c, n, width)


def pin(t):
    return {x for x in subterms(t) if x.op == "param"}


def known(t, ps):
    return pin(t) <= set(ps)


def base_of(t):
    t = strip(t)
    while t.op == "mu":
        t = strip(t.a[-1])
    return t


def bounds(ctx, c, n, width, nm="build"):
    """lower bounds zero for the n archetypes, none for the polynomials, no upper bounds"""
    b = None
    sa = c.bound.get("solver_args")
    if sa is None:
        ctx.undecided.append((ctx.cur, "solver arguments"))
        return
    for conds, t in ites(sa):
        t = strip(t)
        v = None
        if t.op == "store" and is_const(t.a[1], "bounds"):
            v = t.a[2]
        elif unalloc(t).op == "dict":
            d = unalloc(t).a
            for i in range(0, len(d) - 1, 2):
                if is_const(d[i], "bounds"):
                    v = d[i + 1]
        if v is not None:
            b = v
            cells = bound_cells(v)
            if cells is None:
                ctx.undecided.append((ctx.cur, "bounds " + show(v)[:80]))
                continue
            lo, hi, size = cells
            ok = lo and is_inf(lo[-1][1], -1) and same(lo[-1][0][0], n) and lo[-1][0][1] is None and all(is_zero(v) for k, v in lo[:-1])
            if lo and lo[-1][0][1] is None and is_inf(lo[-1][1], -1) or not lo or all(is_inf(v, -1) or is_zero(v) for k, v in lo):
                ctx.ob(nm + "/lower-bounds", bool(ok), c, "the lower bounds are " + (", ".join("%s on %s" % (show(v), ishow(k)) for k, v in lo) or "all zero") + "; expected zero for the archetypes only, columns [0, %s)" % show(n))
            else:
                ctx.undecided.append((ctx.cur, "lower bounds"))
            if hi:
                ctx.ob(nm + "/upper-bounds", is_inf(hi[-1][1], 1) and peq(hi[-1][0][0], ZERO) and hi[-1][0][1] is None, c, "the upper bounds are " + ", ".join("%s on %s" % (show(v), ishow(k)) for k, v in hi))
    if b is None:
        ctx.undecided.append((ctx.cur, "no bounds"))


def is_zero(t):
    return is_const(t) and t.a[0] == 0


def is_inf(t, sign):
    t = strip(t)
    if t.op == "un" and t.a[0] == "-":
        return is_inf(t.a[1], -sign)
    if t.op == "ext" and t.a[0].rsplit(".", 1)[-1].lower() in ("inf", "infty") and sign > 0:
        return True
    return is_const(t) and isinstance(t.a[0], float) and t.a[0] == sign * float("inf")


def bound_cells(v):
    """(lower cells, upper cells, shape) of a (2, n) array built by zeros and item assignments"""
    v = strip(v)
    chain = []
    while v.op == "store":
        chain.append((v.a[1], v.a[2]))
        v = strip(v.a[0])
    c = unalloc(v)
    if not (is_call(c, "numpy.zeros") and cargs(c)):
        return None
    sh = strip(cargs(c)[0])
    lo, hi = [], []
    for k, x in reversed(chain):
        k = strip(k)
        if k.op == "tuple" and len(k.a) == 2 and is_const(k.a[0]):
            row, col = k.a[0].a[0], span(k.a[1])
            cell = [(col, x)]
            if col is None:
                return None
        elif is_const(k) and k.a[0] in (0, 1, -1, -2):
            row = k.a[0]
            y = strip(x)
            cell = []
            # row assignment of a modified row: bounds[0][n:] = v
            while y.op == "store" and not is_inf(y, 1):
                s = span(y.a[1])
                if s is None:
                    return None
                cell.append((s, y.a[2]))
                y = strip(y.a[0])
            if cell:
                cell.reverse()
            else:
                if not (is_inf(x, 1) or is_inf(x, -1) or is_zero(x)):
                    return None
                cell = [((ZERO, None), x)]
        else:
            return None
        (lo if row in (0, -2) else hi).extend(cell)
    return lo, hi, sh


def r_split(ctx):
    """the coefficients returned by the per-camera fit"""
    I = ctx.interp(PC)
    n, nleg, td, bands, gpu = [P(PC, x) for x in ("n_nbh", "nleg", "tdata", "bands", "use_gpu")]
    out = mksub(I.ret, ONE)
    out = strip(unalloc(strip(out)))
    lits = {}
    if not is_call(out, "numpy.concatenate", "numpy.hstack", "numpy.column_stack"):
        raise Undecided("returned coefficients " + show(out)[:80])
    if is_call(out, "numpy.concatenate"):
        ax = ckw(out, "axis", 1)
        ctx.ob("split/axis", ax is not None and is_const(ax) and ax.a[0] in (1, -1), PC, "the blocks are joined along axis " + (show(ax) if ax is not None else "0"))
    seq = strip(unalloc(strip(cargs(out)[0])))
    while is_call(seq, "builtins.list", "builtins.tuple"):
        seq = strip(unalloc(strip(cargs(seq)[0])))
    d = None
    if seq.op == "values" or seq.op == "call" and seq.a[0].op == "attr" and seq.a[0].a[1] == "values":
        d = strip(seq.a[0] if seq.op == "values" else seq.a[0].a[0])
        order = keyorder(d, lits)
    elif seq.op == "sub" and seq.a[1].op == "idx":
        raise Undecided("sequence of blocks")
    elif seq.op == "comp" and strip(seq.a[1]).op == "sub":
        d = strip(strip(seq.a[1]).a[0])
        order = keyorder(d, lits)
    else:
        order = keyorder(seq, lits)
        d = seq
    if not order:
        raise Undecided("blocks of the coefficients")
    ctx.ob("split/archetypes-first", order[0][0] == "key" and is_const(order[0][1], "alpha") or order[0][0] == "key", PC, "the first block is " + show(order[0][1])[:60])
    rest = order[1:]
    if len(rest) != 1 or rest[0][0] != "seq":
        raise Undecided("camera blocks " + str([(a, show(b)[:40]) for a, b in rest]))
    b, how = ordered(rest[0][1])
    if b is not bands:
        raise Undecided("camera blocks follow " + show(rest[0][1])[:80])
    ctx.ob("split/camera-order", how == "sorted", PC, "the camera blocks are stored in the order of %s, the model is evaluated in sorted camera order" % show(rest[0][1])[:60])
    # nothing reorders the coefficients within a block
    for s in subterms(d):
        if not is_call(s, "numpy.sort", "numpy.flip", "numpy.flipud", "numpy.fliplr", "numpy.roll", "builtins.sorted", "builtins.reversed", "numpy.argsort") or not cargs(s):
            continue
        x = cargs(s)[0]
        if contains(x, lambda y: y is bands) and members(x) is bands:
            continue
        if contains(x, lambda y: is_call(y, "numpy.linalg.solve", "solve_matrices", "calc_zchi2_batch") or y.op == "call" and (fname(y.a[0]) or "").startswith("redrock.")):
            ctx.ob("split/reordered", False, PC, "the coefficients pass through %s; the model is evaluated with them in the order of the archetypes" % show(s.a[0]))
    # contents: last assignment of each key
    nsplit = 0
    for s in subterms(d):
        if is_call(s, "numpy.split", "numpy.array_split", "numpy.hsplit") and cargs(s):
            nsplit += 1
            src = strip(cargs(s)[0])
            k = strip(src.a[1]) if src.op == "sub" else None
            if k is None or k.op != "tuple":
                ctx.undecided.append((ctx.cur, "split of " + show(src)[-60:]))
                continue
            sp = span(k.a[-1])
            if sp is None:
                ctx.undecided.append((ctx.cur, "split of " + show(src)[-60:]))
                continue
            ctx.ob("split/polynomials", peq(sp[0], n) and sp[1] is None, PC, "the polynomial coefficients are taken from columns " + ishow(sp))
            m = cargs(s)[1] if len(cargs(s)) > 1 else ckw(s, "indices_or_sections")
            if m is not None and is_call(strip(m), "builtins.len"):
                ctx.ob("split/cameras", members(cargs(strip(m))[0]) is bands, PC, "they are split in " + show(m)[:60])
            ax = ckw(s, "axis", 2)
            if not is_call(s, "numpy.hsplit"):
                ctx.ob("split/split-axis", ax is not None and is_const(ax) and ax.a[0] in (1, -1), PC, "they are split along axis " + (show(ax) if ax is not None else "0"))
    # block i of the split belongs to band i (the order in which cameras were numbered)
    for s in subterms(d):
        kv = None
        if s.op == "comp" and s.a[0] == "dict" and strip(s.a[1]).op == "tuple":
            kv = strip(s.a[1]).a
        elif s.op == "store":
            kv = s.a[1], s.a[2]
        if kv is None:
            continue
        v = strip(kv[1])
        if v.op == "sub" and is_call(unalloc(strip(v.a[0])), "numpy.split", "numpy.array_split", "numpy.hsplit"):
            key = strip(kv[0])
            if key.op == "sub" and key.a[1].op == "idx":
                b2, how2 = ordered(key.a[0])
                if b2 is not bands:
                    ctx.undecided.append((ctx.cur, "camera names " + show(key.a[0])[:60]))
                    continue
                ctx.ob("split/camera-names", how2 == "as-is" and v.a[1] is key.a[1] if v.a[1].op == "idx" else None, PC, "block %s is filed under camera %s" % (show(v.a[1])[:40], show(key)[:60]))
    # archetype columns
    for s in subterms(d):
        if s.op == "comp" and s.a[0] == "list":
            w = strip(s.a[3].a[0])
            back = w.op == "sub" and w.a[1].op == "slice" and len(w.a[1].a) == 3 and is_const(w.a[1].a[2], -1) and is_range(strip(w.a[0])) or is_call(w, "builtins.reversed") and is_range(strip(cargs(w)[0]))
            if back and contains(s.a[1], lambda q: q.op == "idx" and q.a[0] is s.a[3].a[0]):
                ctx.ob("split/archetype-order", False, PC, "the archetype coefficients are returned in the order of %s" % show(w)[:60])
        if s.op == "comp" and s.a[0] == "list" and is_range(s.a[3].a[0]):
            el = strip(s.a[1])
            lo = [q for q in subterms(el) if q.op == "idx" and q.a[0] is s.a[3].a[0]]
            if el.op == "sub" and strip(el.a[1]).op == "tuple" and len(lo) == 1 and contains(el.a[0], lambda q: is_call(q, CB)):
                r = loop_span(strip(el.a[1]).a[-1], lo[0])
                if r is not None:
                    ctx.ob("split/archetypes", peq(r[0], ZERO) and peq(r[1], n), PC, "the archetype coefficients are the columns " + ishow(r))
    if not nsplit:
        ctx.undecided.append((ctx.cur, "splitting of the polynomial coefficients"))


def r_cameras(ctx):
    """cameras are numbered alike in the data and in the list of bands"""
    I = ctx.interp(FZ)
    n = 0
    for c in [e for e in I.effects if e.kind == "call" and e.result.op == "call"]:
        f = e_name(c)
        if f not in ("get_best_archetype",):
            continue
        dw = argof(ctx, c, GB, "dwave")
        tg = argof(ctx, c, GB, "target")
        if dw is None:
            continue
        d = unalloc(strip(dw))
        if d.op == "comp" and d.a[0] == "dict":
            b, how = ordered(d.a[3].a[0])
            n += 1
            ctx.ob("cameras/data-order", how == "as-is" and b.op == "attr" and b.a[1] == "spectra" and (tg is None or strip(b.a[0]) is strip(tg)) and d.a[2] is TRUE, c, "the wavelength grids follow " + show(d.a[3].a[0])[:80])
    for q in (GB, NN):
        J = ctx.interp(q)
        for c in calls(J, PC):
            t = c.bound.get("tdata")
            o = keyorder(t, {})
            if len(o) == 1 and o[0][0] == "seq":
                b, how = ordered(o[0][1])
                if b is P(q, "dwave"):
                    n += 1
                    ctx.ob("cameras/template-order", how == "as-is", c, "the template data follow " + show(o[0][1])[:80])
            bb = c.bound.get("bands")
            b, how = ordered(bb)
            if b.op == "attr" and b.a[1] == "bands":
                n += 1
                ctx.ob("cameras/bands", how == "as-is" and strip(b.a[0]) is P(q, "target"), c, "the bands are " + show(bb)[:80])
    # Target.bands: unique bands of the spectra in their order
    J = ctx.interp(SB) if SB in ctx.prog.funcs else None
    if J is not None:
        slf = P(SB, "self")
        for e in effs(J, "append"):
            v = strip(e.value)
            if v.op == "attr" and v.a[1] == "band" and strip(v.a[0]).op == "sub" and strip(v.a[0]).a[1].op == "idx":
                b, how = ordered(strip(v.a[0]).a[0])
                n += 1
                ctx.ob("cameras/band-list", how == "as-is" and b is mk("attr", slf, "spectra"), e, "the bands are collected from " + show(b)[:60])
                g = flat_guards(e)
                ctx.ob("cameras/band-unique", any(x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "in" and strip(x.a[0].a[1]) is v or x.op == "cmp" and x.a[0] == "not in" and strip(x.a[1]) is v for x in g) if g else False, e, "a camera is listed once per spectrum")
    if not n:
        raise Undecided("order of the cameras")


def e_name(c):
    f = c.fn
    if f.op == "attr":
        return f.a[1]
    return (fname(f) or "").rsplit(".", 1)[-1]


def argof(ctx, c, q, name):
    """argument of a call of method q (possibly through an object of unknown type)"""
    b = c.d.get("bound") or {}
    if name in b:
        return b[name]
    f = ctx.prog.funcs.get(q)
    if f is None:
        return None
    ps = [a.arg for a in f.node.args.args][1:]
    return ckw(c.result, name, ps.index(name)) if name in ps else None


def r_prior(ctx):
    I = ctx.interp(PR)
    n, dg, sg, nc = [P(PR, x) for x in ("n_nbh", "deg_legendre", "sigma", "ncamera")]
    r = strip(I.ret)
    width = add(n, mul(dg, nc))
    z = [t for t in subterms(r) if is_call(t, "numpy.zeros", "numpy.diag", "numpy.eye", "numpy.identity")]
    if len(z) != 1 or not is_call(z[0], "numpy.zeros"):
        raise Undecided("prior matrix " + show(r)[:80])
    sh = strip(cargs(z[0])[0])
    if sh.op == "tuple" and len(sh.a) == 2:
        ctx.ob("prior/size", peq(sh.a[0], width) and peq(sh.a[1], width), PR, "the prior has the shape " + show(sh)[:100])
    fd = calls(I, "numpy.fill_diagonal")
    if len(fd) == 1 and not fd[0].loops:
        v = cargs(fd[0].result)[1]
        ctx.ob("prior/value", ceq(v, mk("bin", "/", ONE, mk("bin", "**", sg, mk("const", 2)))), fd[0], "the prior is " + show(v)[:60])
    elif fd:
        raise Undecided("prior diagonal")
    # zeroed part
    zs = []
    for e in effs(I, "setitem"):
        v = strip(e.value)
        k = strip(e.key)
        if is_zero(v):
            if k.op == "tuple" and len(k.a) == 2 and k.a[0] is k.a[1]:
                k = k.a[0]
            s = span(k) if not k.op == "tuple" else None
            if s is None and k.op == "tuple":
                a, b = span(k.a[0]), span(k.a[1])
                if a and b and same(a[0], b[0]) and same(a[1], b[1]):
                    s = a
            if s is None:
                lo = [q for q in subterms(k) if q.op == "idx" and is_range(q.a[0])]
                if len(lo) == 1:
                    s = loop_span(k, lo[0])
            if s is None:
                raise Undecided("zeroed part of the prior")
            zs.append((s, e))
        elif not fd:
            raise Undecided("prior diagonal")
    if not fd:
        raise Undecided("prior diagonal")
    if not zs:
        ctx.ob("prior/archetypes-free", False, PR, "the prior also acts on the archetype coefficients")
    for s, e in zs:
        ctx.ob("prior/archetypes-free", peq(s[0], ZERO) and s[1] is not None and peq(s[1], n), e, "the prior is removed from the coefficients %s, the archetypes are [0, n_nbh)" % ishow(s))


def r_fitz(ctx):
    """refinement: prior, fit and splitting use the same number of archetypes, cameras and polynomials"""
    I = ctx.interp(FZ)
    dg, ps, nn, pc = [P(FZ, x) for x in ("deg_legendre", "prior_sigma", "n_nearest", "per_camera")]
    fit = [e for e in I.effects if e.kind == "call" and e_name(e) == "get_best_archetype"]
    sp = calls(I, SP)
    pr = calls(I, PR)
    if len(fit) != 1 or len(sp) != 1:
        raise Undecided("%d archetype fits, %d splits" % (len(fit), len(sp)))
    f, s = fit[0], sp[0]
    dw = argof(ctx, f, GB, "dwave")
    ncam = s.bound.get("nbands")
    ctx.ob("fitz/split-source", strip(s.bound.get("coeff")) is mksub(f.result, ONE), s, "splits " + show(s.bound.get("coeff"))[:80])
    st = strip(s.bound.get("subtype"))
    if has(st, f.result):
        ctx.ob("fitz/split-subtype", st.op == "sub" and is_const(st.a[1], 1) and strip(st.a[0]).op == "call" and contains(st.a[0], lambda q: q is mksub(f.result, mk("const", 2))), s, "the number of archetypes is taken from " + show(st)[:80])
    ctx.ob("fitz/split-degree", s.bound.get("nleg") is dg, s, "split with %s polynomials per camera" % show(s.bound.get("nleg")))
    cam = camcount(ncam, pc, dw)
    if cam is None:
        ctx.undecided.append((ctx.cur, "number of cameras " + show(ncam)[:80]))
    else:
        ctx.ob("fitz/split-cameras", cam, s, "the number of cameras is " + show(ncam)[:80])
    for c in pr:
        ctx.ob("fitz/prior-degree", c.bound.get("deg_legendre") is dg, c, "the prior covers %s polynomials per camera" % show(c.bound.get("deg_legendre")))
        ctx.ob("fitz/prior-sigma", c.bound.get("sigma") is ps, c, "the prior width is " + show(c.bound.get("sigma")))
        k = camcount(c.bound.get("ncamera"), pc, dw)
        if k is not None:
            ctx.ob("fitz/prior-cameras", k, c, "the prior covers %s cameras" % show(c.bound.get("ncamera"))[:60])
        none = mk("cmp", "is", nn, NONE)
        v = c.bound.get("n_nbh")
        g = flat_guards(c)
        for isnone in (True, False):
            if any(x is (mknot(none) if isnone else none) for x in g):
                continue
            x = strip(assume(v, {none: isnone}))
            want = ONE if isnone else nn
            if known(x, (nn,)) or is_const(x):
                ctx.ob("fitz/prior-archetypes", same(x, want), c, "the prior leaves %s coefficients free %s" % (show(x), "without --nnearest" if isnone else "with n_nearest neighbours"))
    # the same options go to the fit
    for nm, want in (("per_camera", pc), ("n_nearest", nn)):
        a = argof(ctx, f, GB, nm)
        if a is not None:
            ctx.ob("fitz/fit-%s" % nm, strip(a) is want, f, "the fit gets %s=%s" % (nm, show(a)[:60]))
    a = argof(ctx, f, GB, "prior")
    if pr:
        ok = a is not None
        for conds, t in (ites(a) if a is not None else []):
            t = strip(t)
            if not (t is NONE or any(t is c.result for c in pr)):
                ok = None
        ctx.ob("fitz/fit-prior", ok and any(has(a, c.result) for c in pr), f, "the prior of the fit is " + (show(a)[:80] if a is not None else "not passed"))
    # per-camera rows are kept as rows
    for e in effs(I, "append"):
        l = mksub(e.value, const("legcoeff"))
        if l.op == "sub" and l.a[0] is e.value or not has(l, s.result):
            continue
        for v in (True, False):
            x = strip(unalloc(strip(assume(l, {pc: v}))))
            legs = strip(assume(mksub(s.result, ONE), {pc: v}))
            if v:
                el = strip(unalloc(strip(x)))
                if el.op in ("list", "tuple") and len(el.a) == 1:
                    w = unalloc(strip(el.a[0]))
                    ctx.ob("fitz/rows", is_call(w, "numpy.vstack", "numpy.array", "numpy.asarray", "numpy.stack") and strip(cargs(w)[0]) is legs and (not is_call(w, "numpy.stack") or ckw(w, "axis", 1) is None or is_const(ckw(w, "axis", 1), 0)), e, "per-camera coefficients are stored as " + show(w)[:60])
        ar = mksub(e.value, const("coeff"))
        if has(ar, s.result):
            ctx.ob("fitz/archetype-coeff", strip(ar) is mksub(s.result, ZERO), e, "the archetype coefficients stored are " + show(ar)[:60])


def r_catalog(ctx):
    """the coefficients of all candidates fit in the column of the catalog"""
    q = "redrock.zfind.zfind"
    I = ctx.interp(q)
    n = 0
    for e in effs(I, "setitem"):
        b = strip(e.base)
        k = strip(e.key)
        if not (is_call(b, "numpy.zeros") and k.op == "tuple" and len(k.a) == 2 and k.a[1].op == "slice" and k.a[1].a[0] in (NONE, ZERO)):
            continue
        v = strip(e.value)
        if not (v.op == "sub" and is_const(v.a[1], "coeff")):
            continue
        sh = strip(cargs(b)[0])
        if sh.op != "tuple" or len(sh.a) != 2:
            continue
        n += 1
        w, hi = strip(sh.a[1]), strip(k.a[1].a[1])
        ok = w is hi or is_call(w, "builtins.max", "numpy.maximum") and any(strip(x) is hi or strip(x).op in ("list", "tuple") and hi in [strip(y) for y in strip(x).a] for x in cargs(w))
        if not ok:
            alts = [strip(x) for cs, x in ites(w)]
            if any(contains(x, lambda y: y is hi or y is v) for x in alts):
                raise Undecided("width of the coefficient column: " + show(w)[:60])
        ctx.ob("catalog/width", ok, e, "the coefficient column has the width %s, which does not depend on the number of coefficients the candidates have" % show(w)[:80])
    if not n:
        raise Undecided("the coefficient column is made in another way")


def camcount(t, pc, dw):
    """True/False if t is len(cameras) per camera and one otherwise"""
    if t is None:
        return None
    res = True
    for v in (True, False):
        x = strip(assume(t, {pc: v}))
        if v:
            if is_call(x, "builtins.len"):
                m = members(cargs(x)[0])
                if m.op == "call" and m.a[0].op == "attr" and m.a[0].a[1] in ("keys", "values", "items"):
                    m = strip(m.a[0].a[0])
                if m.op == "attr" and m.a[1] == "bands":
                    continue
                if m.op == "attr" and m.a[1] == "spectra" and not (dw is not None and strip(dw) is m):
                    # several exposures of one camera are several spectra
                    res = False
                    continue
                if members(m) is not members(dw):
                    return None
            elif is_const(x):
                res = False
            else:
                return None
        else:
            if not is_const(x):
                if is_call(x, "builtins.len"):
                    res = False
                else:
                    return None
            elif x.a[0] != 1:
                res = False
    return res


def r_fits(ctx):
    """both archetype fits: template columns, number of archetypes, bounds, prior block, neighbours"""
    for q in (GB, NN):
        I = ctx.interp(q)
        nn = P(q, "n_nearest")
        na = ONE if q == GB else nn
        pr = P(q, "prior")
        cs = calls(I, PC) + calls(I, CB)
        if not cs:
            raise Undecided("no fit in " + q)
        nlegs = set()
        for c in cs:
            td = c.bound.get("tdata")
            columns(ctx, c, td, q)
            if fname(c.fn) == PC:
                ctx.ob("fits/archetypes", same(c.bound.get("n_nbh"), na), c, "the fit is told %s archetypes" % show(c.bound.get("n_nbh")))
                p = c.bound.get("prior")
                if q == NN:
                    ctx.ob("fits/prior", strip(p) is pr, c, "the prior is " + show(p)[:80])
                else:
                    none = mk("cmp", "is", nn, NONE)
                    nop = mk("cmp", "is", pr, NONE)
                    x = strip(assume(p, {none: True, nop: False}))
                    ctx.ob("fits/prior", x is pr if known(x, (pr, nn)) else None, c, "without neighbours the prior is " + show(x)[:80])
                    x = strip(assume(p, {none: False, nop: False}))
                    k = block(x, pr)
                    if k is not None:
                        w = sub_(nn, ONE)
                        ctx.ob("fits/prior-block", len(k) == 2 and all(peq(a[0], w) and a[1] is None for a in k), c, "the prior of the one-archetype fit is the block " + ", ".join(ishow(a) for a in k))
                    x = strip(assume(p, {none: False, nop: True}))
                    ctx.ob("fits/no-prior", x is pr or x is NONE if known(x, (pr, nn)) else None, c, "without a prior the fit gets " + show(x)[:60])
            else:
                nb = c.bound.get("nbasis")
                bounds(ctx, c, na, nb, "fits")
    for c in calls(ctx.interp(GB), NN):
        p = c.bound.get("prior")
        x = strip(assume(p, {mk("cmp", "is", P(GB, "n_nearest"), NONE): False, mk("cmp", "is", P(GB, "prior"), NONE): False})) if p is not None else NONE
        k = block(x, P(GB, "prior"))
        if k is not None or x is NONE:
            ctx.ob("fits/neighbour-prior", x is P(GB, "prior"), c, "the neighbour fit gets the prior " + show(x)[:80])
    # neighbours: columns and names in the same order
    I = ctx.interp(NN)
    nn = P(NN, "n_nearest")
    zz = P(NN, "zzchi2")
    picks = []
    for t in subterms(I.ret):
        if t.op == "sub" and strip(t.a[1]).op == "tuple" and strip(strip(t.a[1]).a[-1]).op == "sub":
            k = strip(strip(t.a[1]).a[-1])
            if is_argsort(strip(k.a[0])):
                picks.append(("columns", k))
        if is_call(t, "redrock.archetypes.Archetype.rebin_template_batch"):
            k = ckw(t, "indx")
            if k is not None and k is not NONE:
                picks.append(("rebinned", strip(k)))
        if t.op == "comp" and strip(t.a[1]).op == "sub" or t.op == "comp" and contains(t.a[1], lambda q: q.op == "attr" and q.a[1] == "_subtype"):
            for s in subterms(t.a[1]):
                if s.op == "sub" and strip(s.a[0]).op == "attr" and strip(s.a[0]).a[1] == "_subtype":
                    k = strip(s.a[1])
                    if k.op == "sub" and k.a[1].op == "idx":
                        picks.append(("names", strip(k.a[0])))
    for t in subterms(I.ret):
        k = strip(strip(t.a[1]).a[-1]) if t.op == "sub" and strip(t.a[1]).op == "tuple" else strip(t.a[0]) if t.op == "sub" and t.a[1].op == "idx" and contains(I.ret, lambda x: x.op == "comp") else None
        if k is not None and k.op == "call" and fname(k.a[0]).rsplit(".", 1)[-1] in ("sort", "sorted", "unique", "flip", "reversed", "set", "roll") and cargs(k) and contains(cargs(k)[0], lambda x: is_argsort(x) and has(x, zz)):
            picks.append(("columns" if strip(t.a[1]).op == "tuple" else "names", k))
    for nm, k in picks:
        if k.op == "call" and fname(k.a[0]).rsplit(".", 1)[-1] in ("sort", "sorted", "unique", "flip", "reversed", "set", "roll"):
            continue
        ok = k.op == "sub" and is_argsort(strip(k.a[0])) and has(k.a[0], zz)
        sp = span(k.a[1]) if ok else None
        if sp is None:
            ctx.undecided.append((ctx.cur, "neighbours " + show(k)[:80]))
            continue
        ctx.ob("fits/neighbour-" + nm, peq(sp[0], ZERO) and sp[1] is not None and same(sp[1], nn), NN, "the %s use the archetypes %s" % (nm, show(k)[:80]))
    if {a for a, b in picks} >= {"columns", "names"}:
        ks = {canon(deep_strip(k)) for a, k in picks}
        ctx.ob("fits/neighbour-order", len(ks) == 1, NN, "columns and names of the neighbours are selected differently: " + " / ".join(sorted({show(k)[:60] for a, k in picks})))


def block(x, pr):
    """row and column intervals of prior[a:,][:,b:] or prior[a:,b:]"""
    iv = [(ZERO, None), (ZERO, None)]
    ks = []
    while x.op == "sub":
        ks.append(strip(x.a[1]))
        x = strip(x.a[0])
    if x is not pr:
        return None
    for k in reversed(ks):
        comps = list(k.a) if k.op == "tuple" else [k]
        for i, c in enumerate(comps):
            s = span(c)
            if s is None or i > 1:
                return None
            iv[i] = compose(iv[i], s)
    return iv


def columns(ctx, c, td, q):
    """per-camera template data: archetypes first, polynomials after them, along the last axis"""
    n = 0
    for t in subterms(td):
        if is_call(t, "numpy.append", "cupy.append", "numpy.concatenate", "cupy.concatenate", "numpy.dstack") and contains(t, isleg):
            if is_call(t, "numpy.append", "cupy.append"):
                ab = list(cargs(t)[:2])
                ax = ckw(t, "axis", 2)
            else:
                ab = strip(unalloc(strip(cargs(t)[0])))
                if ab.op not in ("tuple", "list") or len(ab.a) != 2:
                    continue
                ab = list(ab.a)
                ax = mk("const", 2) if is_call(t, "numpy.dstack") else ckw(t, "axis", 1)
            l = [contains(x, lambda s: isleg(s)) and not contains(x, lambda s: is_call(s, "redrock.archetypes.Archetype.rebin_template_batch")) for x in ab]
            if l == [True, True]:
                continue
            n += 1
            ctx.ob("fits/polynomials-last", l == [False, True], c, "the columns are " + " then ".join("polynomials" if x else "archetypes" for x in l))
            ctx.ob("fits/column-axis", ax is not None and is_const(ax) and ax.a[0] in (2, -1), c, "the columns are joined along axis " + (show(ax) if ax is not None else "none"))
    if not n:
        ctx.undecided.append((ctx.cur, "template columns in " + q))


def isleg(t):
    return t.op == "call" and (fname(t.a[0]) or "").endswith(".legendre") or (t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "legendre")


def r_splitter(ctx):
    I = ctx.interp(SP)
    co, nb, nl = P(SP, "coeff"), P(SP, "nbands"), P(SP, "nleg")
    a, l = strip(mksub(I.ret, ZERO)), strip(unalloc(strip(mksub(I.ret, ONE))))
    na = narch(a, co, P(SP, "subtype"))
    ia = interval(a, co)
    if ia is None:
        raise Undecided("archetype coefficients " + show(a)[:80])
    ctx.ob("splitter/archetypes-first", peq(ia[0], ZERO) and ia[1] is not None and isnarch(ia[1], P(SP, "subtype")), SP, "the archetype coefficients are " + ishow(ia))
    if l.op != "comp" or ia[1] is None:
        raise Undecided("polynomial coefficients " + show(l)[:80])
    lo = l.a[3].a[0]
    if not is_range(lo):
        raise Undecided("loop over cameras")
    ra = rargs(lo)
    ctx.ob("splitter/cameras", len(ra) == 1 and ra[0] is nb or len(ra) == 2 and is_zero(ra[0]) and ra[1] is nb, SP, "one block for each of " + show(lo)[:60])
    i = [q for q in subterms(l.a[1]) if q.op == "idx" and q.a[0] is lo]
    il = interval(l.a[1], co)
    x = strip(l.a[1])
    if x.op == "sub" and x.a[1].op == "slice" and not is_const(x.a[1].a[2], None, 1) and contains(x.a[0], lambda y: y is co):
        ctx.ob("splitter/block", False, SP, "the block of camera i is every %s-th coefficient from %s" % (show(x.a[1].a[2])[:30], show(x.a[1].a[0])[:30]))
        return
    if il is None or not i or il[1] is None:
        raise Undecided("polynomial block " + show(l.a[1])[:80])
    want = add(ia[1], mul(nl, i[0]))
    ctx.ob("splitter/block", peq(il[0], want) and peq(il[1], add(want, nl)), SP, "the block of camera i is " + ishow(il))


def narch(a, co, st):
    return None


def isnarch(t, st):
    """len(st.split(';')) or an equal count"""
    t = strip(t)
    if is_call(t, "builtins.len"):
        s = strip(unalloc(strip(cargs(t)[0])))
        return s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "split" and strip(s.a[0].a[0]) is st and len(cargs(s)) == 1 and is_const(cargs(s)[0], SEP[0])
    if t.op == "bin" and t.a[0] == "+" and any(is_const(x, 1) for x in t.a[1:]):
        o = [x for x in t.a[1:] if not is_const(x, 1)]
        return len(o) == 1 and o[0].op == "call" and o[0].a[0].op == "attr" and o[0].a[0].a[1] == "count" and strip(o[0].a[0].a[0]) is st and is_const(cargs(o[0])[0], SEP[0])
    return False


SEP = [";"]


def r_sep(ctx):
    """neighbours are joined with the separator the readers split by"""
    I = ctx.interp(NN)
    js = [t for t in subterms(I.ret) if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "join" and is_const(t.a[0].a[0])]
    if len(js) != 1:
        raise Undecided("joined subtypes")
    sep = js[0].a[0].a[0].a[0]
    n = 0
    for q in (SP, EV, EM):
        J = ctx.interp(q)
        seen = set()
        ts = [J.ret] + [e.result for e in J.effects if e.kind == "call"]
        for t in ts:
            for s in subterms(t):
                if s.op == "call" and s.a[0].op == "attr" and s.a[0].a[1] == "split" and len(cargs(s)) == 1 and is_const(cargs(s)[0]) and s.id not in seen:
                    seen.add(s.id)
                    x = strip(s.a[0].a[0])
                    if x is P(q, "subtype") or (x.op == "sub" and is_const(x.a[1], "SUBTYPE")):
                        n += 1
                        ctx.ob("separator", cargs(s)[0].a[0] == sep, q, "subtypes are joined by %r and split by %r" % (sep, cargs(s)[0].a[0]))
    if not n:
        raise Undecided("splitting of subtypes")


def r_eval(ctx):
    """evaluation of archetype models"""
    I = ctx.interp(EV)
    st, co, lg, wv = [P(EV, x) for x in ("subtype", "coeff", "legcoeff", "wave")]
    n = 0
    fl = [t for t in subterms(I.ret) if t.op == "bin" and t.a[0] == "*"]
    for t in fl:
        fs = factors(t)
        cs = [x for x in fs if pin(x) and base_sub(x) is co]
        if len(cs) != 1:
            continue
        c = strip(cs[0])
        if c.op != "sub" or c.a[1].op != "idx":
            ctx.undecided.append((ctx.cur, "coefficient " + show(c)[:60]))
            continue
        iv = interval(c.a[0], co)
        shuf = [s for x in fs for s in subterms(x) if s.op == "sub" and s.a[1].op == "idx" and strip(s.a[0]).op == "call" and fname(strip(s.a[0]).a[0]) in ("builtins.sorted", "builtins.reversed", "builtins.set", "numpy.unique", "numpy.sort")
                and contains(s.a[0], lambda y: y is st)]
        if shuf:
            n += 1
            ctx.ob("eval/coefficient", False, EV, "archetypes are taken in the order of %s, coefficients in the order of the fit" % show(shuf[0].a[0])[:60])
            continue
        names = [s for x in fs for s in subterms(x) if s.op == "sub" and s.a[1].op == "idx" and strip(s.a[0]).op == "call" and strip(s.a[0]).a[0].op == "attr" and strip(s.a[0]).a[0].a[1] == "split"]
        if iv is None or not names:
            ctx.undecided.append((ctx.cur, "coefficient " + show(c)[:60]))
            continue
        n += 1
        for l in subterms(I.ret):
            if l.op == "loop" and l.a[0].op == "mu" and has(l.a[1], t):
                ctx.ob("eval/sum", has(l.a[1], l.a[0]), EV, "only one of the archetypes enters the model")
        ctx.ob("eval/coefficient", peq(iv[0], ZERO) and all(s.a[1] is c.a[1] for s in names), EV, "archetype number i is multiplied by coefficient i of " + ishow(iv))
    legendre_cache(ctx)
    # polynomials: the same functions, in the same order, as in the fit
    J = ctx.interp("redrock.targets.Target.legendre")
    a, b = legs(I, EV), legs(J, "redrock.targets.Target.legendre")
    if a and b:
        n += 1
        ctx.ob("eval/polynomials", a == b, EV, "the model uses the polynomials %s, the fit %s" % (sorted(a), sorted(b)))
        R = P(EV, "R")
        t = assume(I.ret, {mk("cmp", "is", R, NONE): False, mk("cmp", "is", lg, NONE): False})
        out, has_ = outside_product(t, R, lambda x: x.op == "call" and is_call(x.a[0], "scipy.special.legendre"))
        if has_:
            ctx.ob("eval/polynomials-convolved", not out, EV, "the polynomials are added after the convolution with the resolution; in the fit they are convolved")
    # coefficient i belongs to polynomial i
    for s in subterms(I.ret):
        ops = None
        if s.op == "bin" and s.a[0] == "@":
            ops = s.a[1:]
        elif is_call(s, "numpy.dot", "numpy.matmul") and len(cargs(s)) == 2:
            ops = cargs(s)
        if ops and contains(mk("tuple", *ops), lambda x: x is lg) and any(contains(y, lambda x: x.op == "call" and is_call(x.a[0], "scipy.special.legendre")) for y in ops):
            for y in ops:
                if not contains(y, lambda x: x.op == "call" and is_call(x.a[0], "scipy.special.legendre")):
                    y = unT(y)
                    if y is lg:
                        ctx.ob("eval/polynomial-order", True, EV)
                    elif y.op == "call" and cargs(y) and unT(cargs(y)[0]) is lg and fname(y.a[0]).rsplit(".", 1)[-1] in ("abs", "absolute", "sort", "sorted", "clip", "maximum", "minimum", "round", "square", "sqrt", "exp", "cumsum"):
                        ctx.ob("eval/polynomial-order", False, EV, "polynomial i is multiplied by entry i of " + show(y)[:60])
                    elif backwards(y, lg):
                        ctx.ob("eval/polynomial-order", False, EV, "polynomial i is multiplied by " + show(y)[:60])
    # the archetype is looked up by its subtype
    me = P(EV, "self")
    for s in set(subterms(I.ret)):
        if s.op == "sub" and strip(s.a[0]) is mk("attr", me, "flux") and s.a[1].op != "slice":
            k = s.a[1]
            ctx.ob("eval/lookup", contains(k, lambda x: x.op == "attr" and strip(x.a[0]) is me) or contains(k, lambda x: x.op == "idx" and contains(x.a[0], lambda y: y.op == "attr" and strip(y.a[0]) is me)), EV,
                   "the archetype of a subtype is number %s, whatever the subtypes of the archetypes are" % show(k)[:80])
    if not n:
        raise Undecided("archetype models")


def r_best(ctx):
    """the best archetype is looked for among all of them"""
    I = ctx.interp(GB)
    n = 0
    for t in set(subterms(I.ret)):
        if t.op != "sub":
            continue
        k = strip(t.a[1])
        if k.op == "sub" and is_const(k.a[1], 0):
            k = strip(k.a[0])
        if is_call(k, "numpy.argmin", "numpy.nanargmin", "numpy.argsort", "numpy.argmax", "cupy.argmin", "builtins.min") or k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] in ("argmin", "argmax"):
            x = strip(k.a[0].a[0]) if k.a[0].op == "attr" else strip(cargs(k)[0])
            n += 1
            if x.op == "sub" and x.a[1].op not in ("const",) and not (x.a[1].op == "slice" and all(is_const(y, None) for y in x.a[1].a)) and not isfit(x):
                ctx.ob("best/index", False, GB, "position %s within a part of the archetypes is used to select from all of them" % show(k)[:80])
            else:
                ctx.ob("best/index", fname(k.a[0]).rsplit(".", 1)[-1] != "argmax", GB, "the archetype with the largest chi2 is selected")
    if not n:
        raise Undecided("choice of the best archetype")


def isfit(x):
    """one of the results of the fit"""
    return x.op == "sub" and is_const(x.a[1])


def unT(t):
    t = strip(t)
    while t.op == "attr" and t.a[1] == "T":
        t = strip(t.a[0])
    return t


def backwards(t, b):
    """t is the array b in reversed order"""
    t = strip(t)
    if t.op == "sub" and strip(t.a[0]) is b:
        k = t.a[1].a if t.a[1].op == "tuple" else (t.a[1],)
        return any(x.op == "slice" and len(x.a) == 3 and is_const(x.a[2], -1) for x in k)
    return is_call(t, "numpy.flip", "numpy.flipud", "numpy.fliplr", "builtins.reversed", "numpy.roll") and bool(cargs(t)) and unT(cargs(t)[0]) is b


def legendre_cache(ctx):
    """polynomials kept from an earlier call are only returned for the same number of them"""
    q = "redrock.targets.Target.legendre"
    J = ctx.interp(q)
    me, n = mk("param", q, "self"), mk("param", q, "nleg")
    for e in effs(J, "return"):
        v = strip(e.value) if e.value is not None else None
        if v is None or not (v.op == "attr" and v.a[1] in ("_legendre", "_gpulegendre") and strip(v.a[0]) is me):
            continue
        cmp_ = [x for g in flat_guards(e) for x in subterms(g) if x.op == "cmp" and n in (strip(x.a[1]), strip(x.a[2]))]
        cmp_ = [x for x in cmp_ if all(y is n or y.op == "attr" and strip(y.a[0]) is me for y in (strip(x.a[1]), strip(x.a[2])))]
        if not cmp_:
            continue
        g = guard_term(e)
        eq = {x if x.a[0] == "==" else mknot(x) for x in cmp_ if x.a[0] in ("==", "!=")}
        if not any(b_implies(g, x) for x in eq) and not any(x.a[0] in ("<", "<=", ">", ">=") for x in cmp_):
            continue
        ctx.ob("polynomials/same-number", any(b_implies(g, x) for x in eq), e, "polynomials kept from an earlier call are returned when " + show(cmp_[0])[:60])


def base_sub(t):
    t = strip(t)
    while t.op == "sub":
        t = strip(t.a[0])
    return t


def legs(I, q):
    """descriptions of legendre(i)(x(wave)) for i in range(...)"""
    r = set()
    ts = [I.ret] + [e.value for e in I.effects if e.kind in ("setattr", "setitem", "append") and e.d.get("value") is not None]
    for t in ts:
        for s in subterms(t):
            if s.op == "call" and is_call(s.a[0], "scipy.special.legendre"):
                d = cargs(s.a[0])[0]
                x = cargs(s)[0]
                if d.op == "idx" and is_range(d.a[0]):
                    ra = rargs(d.a[0])
                    first = "0" if len(ra) == 1 else show(ra[0])
                    f = fname(x.a[0]) if x.op == "call" else "?"
                    r.add((first + ".." + ("" if len(ra) < 3 else show(ra[2])), f))
                elif d.op == "bin" and [q for q in subterms(d) if q.op == "idx"]:
                    r.add((show(rewrite(d, lambda q: mk("const", "i") if q.op == "idx" else q)), fname(x.a[0]) if x.op == "call" else "?"))
    return r


def r_legcache(ctx):
    """a copy of the polynomials does not outlive them"""
    q = "redrock.targets.Target.legendre"
    if q not in ctx.prog.funcs:
        raise Undecided("polynomials of a target")
    I = ctx.interp(q)
    sets = {}
    for e in effs(I, "setattr"):
        sets.setdefault(e.attr, []).append(e)
    n = 0
    for src, copy in (("_legendre", "_gpulegendre"),):
        if src not in sets or copy not in sets:
            continue
        me = mk("attr", sets[src][0].base, copy)
        for e in sets[src]:
            n += 1
            g = guard_term(e)
            ok = any(f.base is e.base and b_implies(g, guard_term(f)) for f in sets[copy])
            # or a copy is only used with the degree it was made for
            ctx.ob("legendre-cache/" + copy, ok, e, "new polynomials are stored but the copy of the old ones in %s stays" % copy)
    if not n:
        raise Undecided("polynomials kept for the GPU")


def r_models(ctx):
    """models of targets use the row of their camera"""
    n = 0
    for q in (EM, PL):
        if q not in ctx.prog.funcs:
            continue
        I = ctx.interp(q)
        for c in [e for e in I.effects if e.kind == "call" and e_name(e) == "eval"]:
            lc = argof(ctx, c, EV, "legcoeff")
            if lc is None:
                continue
            w = argof(ctx, c, EV, "wave")
            spec = strip(w).a[0] if w is not None and strip(w).op == "attr" else None
            g = flat_guards(c)
            two = False
            alts = []
            for conds, t in ites(lc):
                t = strip(t)
                if t.op == "sub":
                    alts += [(conds + c2, mk("sub", x, t.a[1])) for c2, x in ites(strip(t.a[0]))]
                else:
                    alts.append((conds, t))
            for conds, t in alts:
                if t.op == "sub" and t.a[1].op == "idx" and unalloc(strip(t.a[0])).op == "comp":
                    cp = unalloc(strip(t.a[0]))
                    el = strip(rewrite(cp.a[1], lambda s: t.a[1] if s.op == "idx" and s.a[0] is cp.a[3].a[0] else s))
                else:
                    el = t
                if el.op == "ite":
                    ctx.undecided.append((ctx.cur, "coefficients " + show(el)[:60]))
                    continue
                rows = unalloc(strip(el.a[0])) if el.op == "sub" else None
                if rows is not None and rows.op == "comp" and rows.a[0] == "dict" and strip(rows.a[1]).op == "tuple":
                    # {camera: row}[camera of the spectrum]
                    kk, vv = [strip(x) for x in strip(rows.a[1]).a]
                    x = strip(el.a[1])
                    if kk.op == "sub" and vv.op == "sub" and kk.a[1].op == "idx":
                        b, how = ordered(kk.a[0])
                        two = True
                        n += 1
                        if b.op == "attr" and b.a[1] == "bands" and vv.a[1].op == "idx":
                            ctx.ob("models/camera-row", how == "sorted" and vv.a[1] is kk.a[1], c, "the coefficients are stored in sorted camera order but read in the order of " + show(kk.a[0])[:60])
                            ctx.ob("models/own-camera", x.op == "attr" and x.a[1] == "band" and (spec is None or strip(x.a[0]) is strip(spec)), c, "the row is chosen by " + show(x)[:60])
                        else:
                            ctx.undecided.append((ctx.cur, "camera rows " + show(rows)[:60]))
                        continue
                sb = [s for s in [el] if s.op == "sub" and not (is_const(s.a[1]) and isinstance(s.a[1].a[0], str))]
                if not sb:
                    continue
                two = True
                k = strip(el.a[1])
                n += 1
                # sorted(bands).index(spec.band)
                if k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] == "index":
                    b, how = ordered(k.a[0].a[0])
                    x = strip(cargs(k)[0])
                    if b.op == "attr" and b.a[1] == "bands":
                        ctx.ob("models/camera-row", how == "sorted", c, "the coefficients are stored in sorted camera order but read in the order of " + show(k.a[0].a[0])[:60])
                        ctx.ob("models/own-camera", x.op == "attr" and x.a[1] == "band" and (spec is None or strip(x.a[0]) is strip(spec)), c, "the row is chosen by " + show(x)[:60])
                    else:
                        ctx.undecided.append((ctx.cur, "camera row " + show(k)[:60]))
                elif k.op == "idx":
                    b, how = ordered(k.a[0])
                    ctx.ob("models/camera-row", False if b.op == "attr" and b.a[1] in ("spectra", "bands") and how != "sorted" else None, c, "the coefficients are stored in sorted camera order but read in the order of " + show(k.a[0])[:60])
                elif is_const(k):
                    ctx.ob("models/camera-row", False, c, "every camera uses row " + show(k))
                else:
                    ctx.undecided.append((ctx.cur, "camera row " + show(k)[:60]))
            ctx.ob("models/per-camera/" + q.rsplit(".", 1)[-1], two, c, "the rows of coefficients are not assigned to cameras")
            a = argof(ctx, c, EV, "coeff")
            if a is not None and strip(a).op == "sub":
                sp = span(strip(a).a[1])
                if sp is not None:
                    n += 1
                    ctx.ob("models/archetype-coeff", peq(sp[0], ZERO), c, "the archetype coefficients are " + show(a)[:60])
                    hi = strip(sp[1]) if sp[1] is not None else None
                    if hi is not None:
                        sub = [x for y in subterms(hi) if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] in ("split", "count") for x in [strip(y.a[0].a[0])]]
                        ok = any(isnarch(hi, x) for x in sub)
                        if not ok and (contains(hi, lambda y: is_call(y, "builtins.set", "numpy.unique", "builtins.frozenset")) or is_const(hi) or hi.op == "bin" and sub and
                                       all(is_const(y) or any(isnarch(y, x) for x in sub) for y in hi.a[1:])):
                            ctx.ob("models/archetype-count", False, c, "%s archetype coefficients are used, there is one for each named archetype" % show(hi)[:60])
    if not n:
        raise Undecided("per-camera models")


def run(ctx):
    ctx.rule("build", "the per-camera design matrix has the archetypes in columns [0,n) and the polynomials of camera i in [n+i*nleg, n+(i+1)*nleg)", lambda c: r_build(C3(c)))
    ctx.rule("split", "the fitted coefficients are returned as archetypes followed by one block per camera in sorted camera order", lambda c: r_split(C3(c)))
    ctx.rule("cameras", "cameras are numbered in the order of the target's spectra in the data and in the list of bands", lambda c: r_cameras(C3(c)))
    ctx.rule("prior", "the prior matrix covers exactly the same coefficients and acts only on the polynomials", lambda c: r_prior(C3(c)))
    ctx.rule("fitz", "prior, fit and splitting agree on the number of archetypes, polynomials and cameras", lambda c: r_fitz(C3(c)))
    ctx.rule("fits", "both archetype fits put archetypes before polynomials, bound only the archetypes and use the matching prior block", lambda c: r_fits(C3(c)))
    ctx.rule("splitter", "the coefficient vector is split at the number of archetypes and every nleg coefficients", lambda c: r_splitter(C3(c)))
    ctx.rule("separator", "neighbour subtypes are joined and split by the same separator", lambda c: r_sep(C3(c)))
    ctx.rule("eval", "archetype i is multiplied by coefficient i and the polynomials are those of the fit", lambda c: r_eval(C3(c)))
    ctx.rule("catalog", "the coefficient column of the catalog is as wide as the longest coefficient vector", lambda c: r_catalog(C3(c)))
    ctx.rule("legendre-cache", "the polynomials kept for the GPU are dropped or replaced whenever those of another degree are computed", lambda c: r_legcache(C3(c)))
    ctx.rule("models", "each camera's model uses its own row of coefficients", lambda c: r_models(C3(c)))
    ctx.rule("best", "the position of the smallest chi2 is taken over all archetypes, as is what it selects", lambda c: r_best(C3(c)))
    ctx.rule("padding", "coefficients are padded at the end and cut from the start: column j of a fit stays column j of the catalogue", r_pad)
