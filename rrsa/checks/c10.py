"""C10: warning bits are distinct, only accumulate, and reserved bits stay clear."""
import ast
from ..q import *
from ..logic import *
from ..zflags import *
from ..terms import mksub
from ..ctx import Undecided, Stop
from . import c19

CLS = "redrock.zwarning.ZWarningMask"
BADNAMES = ("NEGATIVE_MODEL", "MANY_OUTLIERS", "Z_FITLIMIT", "NEGATIVE_EMISSION", "BAD_MINFIT")
RESERVED = range(16, 24)


def names(ctx):
    c = ctx.prog.classes.get(CLS)
    if c is None:
        raise Undecided(CLS)
    out = {}
    for k in c.consts:
        if k.isupper() and not k.startswith("_"):
            v = zval(ctx.prog, k)
            if v is None:
                raise Undecided("value of " + k)
            out[k] = v
    if not out:
        raise Undecided("no warning bits")
    return out


def where(ctx):
    return "py/redrock/zwarning.py"


def r_bits(ctx):
    ns = names(ctx)
    res = {k for k in ns if k.startswith("RESERVED")}
    for k, v in sorted(ns.items()):
        ok = isinstance(v, int) and not isinstance(v, bool) and v > 0 and v & (v - 1) == 0
        ctx.ob("bits/single", ok, where(ctx), "%s = %r is not a single bit" % (k, v))
        if not ok:
            continue
        if k not in res:
            b = v.bit_length() - 1
            ctx.ob("bits/not-reserved", b not in RESERVED, where(ctx), "%s uses bit %d, which is reserved for later programs" % (k, b))
            ctx.ob("bits/fits-output", b < 31, where(ctx), "%s = 2**%d does not fit the 32-bit output column" % (k, b))
    vs = sorted(ns.items(), key=lambda z: z[0])
    for i, (k, v) in enumerate(vs):
        for k2, v2 in vs[i + 1:]:
            ctx.ob("bits/distinct", not (isinstance(v, int) and isinstance(v2, int) and v & v2), where(ctx), "%s and %s share a bit" % (k, k2))


def r_badfit(ctx):
    v = glob_const(ctx.prog, mk("global", "redrock.zwarning.badfit_mask"))
    if v is None:
        raise Undecided("badfit_mask")
    want = 0
    for n in BADNAMES:
        b = zval(ctx.prog, n)
        if b is None:
            raise Undecided(n)
        want |= b
    ns = names(ctx)
    show_ = lambda m: ", ".join(sorted(k for k, x in ns.items() if isinstance(x, int) and x & m))
    ctx.ob("badfit/exact", v == want, where(ctx), "missing: %s; too many: %s" % (show_(want & ~v), show_(v & ~want)))


def functions(ctx):
    out = []
    for q, f in sorted(ctx.prog.funcs.items()):
        if ".plotspec" in q or q.startswith("bin.rrplot"):
            continue
        t = ast.unparse(f.node)
        if "zwarn" in t.lower():
            out.append(q)
    return out


INTS = {"int32": 31, "int64": 63, "int16": 15, "int8": 7, "uint8": 8, "uint16": 16, "uint32": 32, "uint64": 64, "i2": 15, "i4": 31, "i8": 63, "int": 63}


def width(t):
    """number of value bits of an integer type, None if unknown, 0 if not an integer"""
    t = strip(t)
    n = t.a[0] if is_const(t) else (fname(t) or "")
    n = str(n).rsplit(".", 1)[-1].lstrip("<>=|")
    if n in INTS:
        return INTS[n]
    if n.startswith(("float", "bool", "f4", "f8")):
        return 0 if n.startswith("bool") else 24
    return None


def r_accumulate(ctx):
    ns = names(ctx)
    used = 0
    for k, v in ns.items():
        used |= v
    plain = 0
    for k, v in ns.items():
        if not k.startswith("RESERVED"):
            plain |= v
    bs = [1 << i for i in range(24)]
    n = 0
    for q in functions(ctx):
        try:
            I = ctx.interp(q)
        except Undecided:
            continue
        for w in writes(I):
            e = w.e
            n += 1
            if w.mode == "or":
                c = glob_const(ctx.prog, w.value)
                ctx.ob("accumulate/or", True, e)
                continue
            if w.mode in ("elem", "col"):
                OLD = mk("param", "old", "zwarn")
                olds = {w.old.id, strip(w.old).id}
                v = elemwise(rewrite(w.value, lambda x: OLD if x.id in olds else x))
                if w.mode == "elem":
                    whole = strip(e.base)
                    v = rewrite(v, lambda x: OLD if x.op == "sub" and strip(x.a[0]) is whole and x.a[1] is w.idx else x)
                else:
                    v = rewrite(v, lambda x: OLD if x.op == "sub" and x.a[0] is OLD else x)
                if w.mode == "col":
                    # type changes keep the bits only if wide enough
                    p = peel(w.value)
                    x = w.value
                    while x.op == "alloc" and isinstance(x.a[1], T):
                        x = x.a[1]
                    ty = None
                    if is_call(x, "numpy.astype") and len(cargs(x)) > 1:
                        ty = cargs(x)[1]
                    elif x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "astype" and cargs(x):
                        ty = cargs(x)[0]
                    if ty is not None:
                        wd = width(ty)
                        if wd is not None:
                            ctx.ob("accumulate/wide-enough", wd >= plain.bit_length(), e, "the warning column is stored with %d bits" % wd)
                    if columns_under(w.value):
                        # the same column, perhaps with elements changed: those writes were seen
                        ctx.ob("accumulate/same-column", True, e)
                        continue
                bad, unk = None, False
                for b in bs:
                    if not b & used:
                        continue
                    r = bitcond(ctx.prog, v, b)
                    if r is None:
                        unk = True
                        continue
                    x = implies([mk("bit", OLD, const(b))], r)
                    if x is None:
                        unk = True
                    elif not x:
                        # positive evidence only: the new value is known
                        if known(r):
                            bad = b
                        else:
                            unk = True
                if unk and bad is None and not contains(v, lambda x: x is OLD) and not mentions(w.value):
                    if not fresh(w.old):
                        bad = used
                if bad is not None:
                    ctx.ob("accumulate/overwritten", False, e, "%s overwrites warnings set before, e.g. %s" % (show(w.value)[:60], [k for k, x in ns.items() if x & bad]))
                elif unk:
                    ctx.undecided.append((ctx.cur, "warning value %s at %s" % (show(w.value)[:60], e.where)))
                else:
                    ctx.ob("accumulate/kept", True, e)
                continue
            c = glob_const(ctx.prog, w.value)
            if w.mode == "&":
                if c is None and w.value.op == "un":
                    x = glob_const(ctx.prog, w.value.a[1])
                    c = ~x if isinstance(x, int) else None
                if c is None:
                    ctx.undecided.append((ctx.cur, "warnings are masked with " + show(w.value)[:60]))
                else:
                    ctx.ob("accumulate/masked", not (used & ~c), e, "&= clears warnings set before")
            else:
                ctx.ob("accumulate/operator", False, e, "%s= changes warnings that are already set" % w.mode)
    if not n:
        raise Undecided("no warning column is written")


def known(r):
    """only the old value, constants and conditions"""
    return not contains(r, lambda x: x.op == "bit" and not (x.a[0].op == "param" and x.a[0].a[0] == "old"))


def mentions(t):
    """does the value come from some warning column or from something opaque?"""
    return contains(t, lambda x: x.op == "sub" and is_const(x.a[1], *COLS) or x.op in ("mu", "loop"))


def fresh(t):
    """a column of a table that did not have it"""
    return t.op == "sub" and all(r.op == "alloc" for r in roots(t.a[0]))


def r_minimum(ctx):
    """in the refinement of one minimum every bit of the parabola fit survives"""
    I, ap = c19.minima(ctx)
    mf = [c for c in I.effects if c.kind == "call" and fname(c.fn) == c19.MF]
    if len(mf) != 1:
        raise Undecided("%d calls of minfit" % len(mf))
    base = mksub(mf[0].result, const(3))
    ns = names(ctx)
    for e in ap:
        Wv = mksub(e.value, const("zwarn"))
        for k, b in sorted(ns.items()):
            if b & (b - 1) or k.startswith("RESERVED"):
                continue
            r = bitcond(ctx.prog, Wv, b)
            if r is None:
                raise Undecided("warning value " + show(Wv)[:80])
            x = implies([mk("bit", base, const(b))], r)
            if x is None:
                ctx.undecided.append((ctx.cur, k))
            else:
                ctx.ob("minimum/kept", x, e, "%s set by the parabola fit is lost" % k)


def r_reserved(ctx):
    ns = names(ctx)
    res = 0
    for b in RESERVED:
        res |= 1 << b
    n = 0

    def look(t, e):
        cs = set()
        for x in subterms(t):
            if x.op == "attr" and x.a[0].op == "cls" and x.a[0].a[0] == CLS and x.a[1].startswith("RESERVED"):
                cs.add(x.a[1])
        v = glob_const(ctx.prog, t)
        bad = bool(cs) or isinstance(v, int) and not isinstance(v, bool) and bool(v & res)
        ctx.ob("reserved/clear", not bad, e, "sets a reserved bit: " + show(t)[:60])
    for q in functions(ctx):
        try:
            I = ctx.interp(q)
        except Undecided:
            continue
        for w in writes(I):
            if w.mode != "&":
                n += 1
                look(peel(w.value) if w.mode == "col" else w.value, w.e)
    I, ap = c19.minima(ctx)
    for e in ap:
        n += 1
        Wv = mksub(e.value, const("zwarn"))
        base = None
        for b in RESERVED:
            r = bitcond(ctx.prog, Wv, 1 << b)
            if r is None:
                raise Undecided("warning value " + show(Wv)[:80])
            ctx.ob("reserved/minimum", known_false(r), e, "bit %d can be set" % b)
    if not n:
        raise Undecided("no warning is set")


def r_stages(ctx):
    """within the parabola fit and the refinement a bit set at one step is still set at the next"""
    ns = names(ctx)
    n = 0
    J = ctx.interp(c19.MF)
    I, ap = c19.minima(ctx)
    rets = [(e, e.value.a[-1]) for e in J.effects if e.kind == "return" and e.value.op == "tuple" and len(e.value.a) == 4]
    for e, W in rets + [(e, mksub(e.value, const("zwarn"))) for e in ap]:
        n += 1
        stages, st = set(), [strip(W)]
        while st:
            x = st.pop()
            if x.op == "bin" and x.a[0] in ("^", "+", "-", "&", "|"):
                new = {strip(y) for y in x.a[1:] if strip(y).op in ("bin", "ite")} - stages
                stages |= new
                st += new
            elif x.op == "ite":
                st += [strip(y) for y in x.a[1:]]
        for k, b in sorted(ns.items()):
            if b & (b - 1) or k.startswith("RESERVED"):
                continue
            r = bitcond(ctx.prog, W, b)
            if r is None:
                raise Undecided("warning value " + show(W)[:80])
            for x in stages:
                q = bitcond(ctx.prog, x, b)
                if q is None or q is FALSE:
                    continue
                y = implies([q], r)
                if y is None:
                    ctx.undecided.append((ctx.cur, k))
                else:
                    ctx.ob("stages/kept", y, e, "%s set by %s is cleared again" % (k, show(x)[:80]))
    if not n:
        raise Undecided("no warning is set")


def known_false(r):
    """no path sets it by itself (an unknown earlier value may)"""
    y = rewrite(r, lambda x: FALSE if x.op == "bit" else x)
    return y is FALSE or implies([], mknot(y)) is True


def run(ctx):
    ctx.rule("bits", "every named warning is a single bit of its own outside the reserved range", r_bits)
    ctx.rule("badfit", "the mask of bad fits is exactly the five documented warnings", r_badfit)
    ctx.rule("accumulate", "every write to a warning column keeps the bits that were set", r_accumulate)
    ctx.rule("minimum", "the bits of the parabola fit survive to the returned minimum", r_minimum)
    ctx.rule("stages", "a bit set at one step of the refinement of a minimum is kept by the next", r_stages)
    ctx.rule("reserved", "no reserved bit is ever set", r_reserved)
