"""C31: missing data and coverage problems are flagged on the right targets."""
from ..q import *
from ..logic import *
from ..zflags import *
from ..terms import mksub
from ..ctx import Undecided, Stop

ZF = "redrock.zfind.zfind"
FZ = "redrock.fitz.fitz"
RD = "redrock.external.desi.rrdesi"
NPIX = mk("call", ext("builtins.len"), mk("param", "c31", "npix"))
NCOEF = mk("call", ext("builtins.len"), mk("param", "c31", "ncoeff"))
WIDTH = mk("call", ext("builtins.len"), mk("param", "c31", "width"))
OBJ = mk("param", "c31", "OBJTYPE")
PAD = ("numpy.append", "numpy.pad", "numpy.hstack", "numpy.vstack", "numpy.concatenate", "numpy.column_stack")


def fbit(n):
    return mk("fbit", const(n))


def objis(s):
    a = mk("cmp", "==", OBJ, const(s))
    return a


BADT = mkand(mknot(objis("TGT")), mknot(objis("SKY")))
TABLE = {
    "POORDATA": fbit("POORPOSITION"),
    "NODATA": mkor(fbit("BADPOSITION"), fbit("BROKENFIBER"), fbit("UNASSIGNED"), BADT),
    "UNPLUGGED": fbit("BROKENFIBER"),
    "SKY": objis("SKY"),
    "LITTLE_COVERAGE": mkor(*[fbit(x) for x in ("BADCOLUMN", "BADAMPB", "BADAMPR", "BADAMPZ")]),
    "BAD_TARGET": BADT,
}


# ------------------------------------------------------------------ conditions on fibermap rows
def is_fmap(t):
    """the fibermap of the distributed targets"""
    t = strip(t)
    return t.op == "attr" and t.a[1] == "fibermap"


def column(t):
    """name of a fibermap column, None"""
    t = peel(strip(t))
    if t.op == "sub" and is_const(t.a[1]) and isinstance(t.a[1].a[0], str) and is_fmap(t.a[0]):
        return t.a[1].a[0]
    return None


def maskbits(t):
    """names of the fiber status bits in a mask value"""
    t = strip(t)
    n = fname(t)
    if t.op in ("ext", "attr") and "fibermask" in show(t):
        return [n.rsplit(".", 1)[-1]]
    if t.op == "bin" and t.a[0] == "|":
        xs = [maskbits(x) for x in t.a[1:]]
        return None if None in xs else sum(xs, [])
    if t.op == "call" and fname(t.a[0]).endswith("mask") and cargs(t) and all(is_const(x) and isinstance(x.a[0], str) for x in cargs(t)):
        return sum([x.a[0].split("|") for x in cargs(t)], [])
    return None


def rowcond(t, d=0):
    """condition on one fibermap row as a boolean term, None if unknown"""
    t = peel(strip(t))
    if d > 40:
        return None
    if t is TRUE or t is FALSE:
        return t
    if is_const(t) and t.a[0] in (0, 1):
        return TRUE if t.a[0] else FALSE
    if t.op == "call" and fname(t.a[0]) in ("numpy.zeros", "numpy.zeros_like"):
        return FALSE
    if t.op == "call" and fname(t.a[0]) in ("numpy.ones", "numpy.ones_like"):
        return TRUE
    if t.op == "bin" and t.a[0] in ("|", "&"):
        xs = [rowcond(x, d + 1) for x in t.a[1:]]
        if None in xs:
            return None
        return mkor(*xs) if t.a[0] == "|" else mkand(*xs)
    if t.op in ("or", "and"):
        xs = [rowcond(x, d + 1) for x in t.a]
        if None in xs:
            return None
        return mkor(*xs) if t.op == "or" else mkand(*xs)
    if t.op == "un" and t.a[0] in ("~", "not"):
        x = rowcond(t.a[1], d + 1)
        return None if x is None else mknot(x)
    if t.op == "not":
        x = rowcond(t.a[0], d + 1)
        return None if x is None else mknot(x)
    if t.op == "call":
        n = fname(t.a[0])
        a = cargs(t)
        if n in ("numpy.logical_or", "numpy.bitwise_or") and len(a) == 2:
            return rowcond(mk("bin", "|", *a), d + 1)
        if n in ("numpy.logical_and", "numpy.bitwise_and") and len(a) == 2:
            return rowcond(mk("bin", "&", *a), d + 1)
        if n in ("numpy.logical_not", "numpy.invert", "numpy.bitwise_not") and len(a) == 1:
            return rowcond(mk("un", "~", a[0]), d + 1)
        if n in ("numpy.astype",) and a:
            return rowcond(a[0], d + 1)
        if n in ("numpy.isin", "numpy.in1d") and len(a) == 2 and column(a[0]) == "OBJTYPE":
            v = strip(a[1])
            if v.op in ("list", "tuple", "set") and all(is_const(x) for x in v.a):
                r = mkor(*[objis(x.a[0]) for x in v.a])
                return mknot(r) if ckw(t, "invert") is TRUE else r
        if n.rsplit(".", 1)[-1] == "any" and not a:
            return None
    if t.op == "ite":
        c = t.a[0]
        neg = c.op == "not"
        k = c.a[0] if neg else c
        if k.op == "cmp" and k.a[0] == "in" and "names" in show(k.a[2]):
            return rowcond(t.a[2] if neg else t.a[1], d + 1)
        x, y = rowcond(t.a[1], d + 1), rowcond(t.a[2], d + 1)
        if x is None or y is None:
            return None
        if x is y:
            return x
        return None
    if t.op == "cmp" and t.a[0] in ("==", "!="):
        for x, y in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            x, y = peel(strip(x)), strip(y)
            if is_const(y) and isinstance(y.a[0], (str, bytes)) and column(x) == "OBJTYPE":
                s = y.a[0].decode() if isinstance(y.a[0], bytes) else y.a[0]
                return objis(s) if t.a[0] == "==" else mknot(objis(s))
            if column(x) is not None and column(x).endswith("FIBERSTATUS") and (maskbits(y) or is_const(y)):
                # the whole status word compared: not a test of single bits
                r = mk("bit", mk("param", "status", "%s==%s" % (column(x), show(y))), const(0))
                return r if t.a[0] == "==" else mknot(r)
            if x.op == "bin" and x.a[0] == "&" and len(x.a) == 3:
                for f, m in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                    c = column(f)
                    b = maskbits(m)
                    if c is not None and b:
                        if c != "COADD_FIBERSTATUS":
                            b = [c + ":" + k for k in b]
                        if is_const(y, 0):
                            r = mkor(*[fbit(k) for k in b])
                            return mknot(r) if t.a[0] == "==" else r
                        if is_const(y) and isinstance(y.a[0], int):
                            r = mk("bit", mk("param", "status", "%s&%s==%s" % (c, b, show(y))), const(0))
                            return r if t.a[0] == "==" else mknot(r)
                        if maskbits(y) and sorted(maskbits(y)) == sorted(maskbits(m)):
                            r = mkand(*[fbit(k) for k in b])
                            return r if t.a[0] == "==" else mknot(r)
    if t.op == "cmp" and t.a[0] in ("<",) and is_const(strip(t.a[1]), 0):
        return rowcond(mk("cmp", "!=", t.a[2], const(0)), d + 1)
    if t.op == "bin" and t.a[0] == "&":
        return rowcond(mk("cmp", "!=", t, const(0)), d + 1)
    return None


def fitcond(t, d=0):
    """(kind, condition): kind 'id' if rows of the fit table are selected by target ID, 'row' if a condition on fibermap rows
    is used as an index of the fit table"""
    t = peel(strip(t))
    if t.op == "call" and fname(t.a[0]) in ("numpy.isin", "numpy.in1d") and len(cargs(t)) >= 2:
        a, b = strip(cargs(t)[0]), strip(cargs(t)[1])
        if column(a) == "TARGETID" and ckw(t, "invert", default=FALSE) is FALSE and not is_fmap(b.a[0] if b.op == "sub" else b):
            return ("row", TRUE)
        if a.op == "sub" and is_const(a.a[1], "targetid", "TARGETID") and not is_fmap(a.a[0]):
            inv = ckw(t, "invert", default=FALSE)
            if inv is not FALSE:
                return None
            if b.op == "sub" and column(b.a[0]) == "TARGETID":
                c = rowcond(b.a[1])
                return None if c is None else ("id", c)
            if b.op == "sub" and column(b.a[0]) is not None:
                return ("col", column(b.a[0]))
            if b.op == "sub" and is_const(b.a[1], "TARGETID") and b.a[0].op == "sub" and is_fmap(b.a[0].a[0]):
                c = rowcond(b.a[0].a[1])
                return None if c is None else ("id", c)
        return None
    if t.op == "call" and fname(t.a[0]) in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and len(cargs(t)) == 1:
        return fitcond(cargs(t)[0], d + 1)
    if t.op == "sub" and is_const(t.a[1], 0):
        return fitcond(t.a[0], d + 1)
    if t.op == "bin" and t.a[0] == "&":
        ids = [x for x in t.a[1:] if (fitcond(x, d + 1) or ("",))[0] == "id"]
        cand = [x for x in t.a[1:] if x not in ids and any(y.op == "sub" and is_const(y.a[1], "znum", "chi2", "spectype", "subtype", "fitmethod") and not is_fmap(y.a[0]) for y in subterms(x))]
        if ids and cand and len(ids) + len(cand) == len(t.a) - 1:
            return ("part", [y.a[1].a[0] for x in cand for y in subterms(x) if y.op == "sub" and is_const(y.a[1], "znum", "chi2", "spectype", "subtype", "fitmethod")][0])
    if t.op == "bin" and t.a[0] in ("|", "&") and d < 10:
        xs = [fitcond(x, d + 1) for x in t.a[1:]]
        if None in xs or any(x[0] != "id" for x in xs):
            return None
        return ("id", mkor(*[x[1] for x in xs]) if t.a[0] == "|" else mkand(*[x[1] for x in xs]))
    c = rowcond(t)
    if c is not None and c is not TRUE and c is not FALSE:
        return ("row", c)
    return None


def realguards(e):
    out = []
    for g, k in e.guards:
        if k in ("raise", "loopexit"):
            continue
        if g.op == "exc" or (g.op == "not" and g.a[0].op == "exc"):
            continue
        out.extend(g.a if g.op == "and" else [g])
    return out


class Set(object):
    def __init__(self, e, idx, value):
        self.e, self.idx, self.value = e, idx, value


def settings(ctx, I):
    """[Set]: value is or-ed into the warning column at idx; idx None if unknown"""
    out = []
    for w in writes(I):
        v = w.value
        if w.mode == "or":
            idx = w.idx
            s = strip(v)
            if idx is not None and idx.op == "slice":
                idx = None
            if idx is None and is_call(s, "numpy.where") and len(cargs(s)) == 3 and is_const(cargs(s)[2], 0):
                out.append(Set(w.e, cargs(s)[0], cargs(s)[1]))
            elif idx is None and s.op == "bin" and s.a[0] == "*" and len(s.a) == 3 and any(bitsof(ctx, x) for x in s.a[1:]):
                b = [x for x in s.a[1:] if bitsof(ctx, x)][0]
                c = [x for x in s.a[1:] if x is not b][0]
                out.append(Set(w.e, c, b))
            else:
                out.append(Set(w.e, idx, v))
            continue
        def split(t):
            # (bits, rest) of old | bits
            t = strip(t)
            if is_call(t, "numpy.bitwise_or") and len(cargs(t)) == 2:
                t = mk("bin", "|", *cargs(t))
            if t.op == "bin" and t.a[0] == "|":
                b = [x for x in t.a[1:] if bitsof(ctx, x) is not None]
                if b and len(b) < len(t.a) - 1:
                    return b
            return None
        if w.mode == "elem":
            b = split(v)
            if b:
                for x in b:
                    out.append(Set(w.e, w.idx, x))
            elif bitsof(ctx, v) is not None:
                out.append(Set(w.e, w.idx, v))
            elif bitsof(ctx, v) is None:
                out.append(Set(w.e, None, v))
        elif w.mode == "col":
            s = strip(v)
            if is_call(s, "numpy.where") and len(cargs(s)) == 3:
                b = split(cargs(s)[1])
                if b and columns_under(cargs(s)[2]):
                    for x in b:
                        out.append(Set(w.e, cargs(s)[0], x))
                    continue
            if not columns_under(v):
                out.append(Set(w.e, None, v))
    return out


# ------------------------------------------------------------------ rules
def bitsof(ctx, t):
    v = glob_const(ctx.prog, t)
    if v is None and t.op == "bin" and t.a[0] == "|":
        xs = [glob_const(ctx.prog, x) for x in t.a[1:]]
        if all(isinstance(x, int) for x in xs):
            v = 0
            for x in xs:
                v |= x
    return v


def r_fibermap(ctx):
    I = ctx.interp(RD)
    ws = settings(ctx, I)
    if not ws:
        raise Undecided("no warnings are set in rrdesi")
    for e in I.effects:
        if e.kind == "setitem" and is_const(e.key, "zwarn", "ZWARN") and isinstance(e.base, T):
            b = strip(e.base)
            if b.op == "sub" and not is_const(b.a[1]) and b.a[1].op not in ("slice", "idx") and (fitcond(b.a[1]) or ("",))[0] == "id":
                ctx.ob("fibermap/in-place", False, e, "the warning is set in a copy of the selected rows, not in the table")
    got = {k: [] for k in TABLE}
    unk = False
    last = 0
    for w in ws:
        v = bitsof(ctx, w.value)
        fc = None if w.idx is None else fitcond(w.idx)
        if v is None and w.idx is not None and fc is None:
            unk = True
            continue
        if fc is None or v is None:
            unk = True
            ctx.undecided.append((ctx.cur, "condition %s" % show(w.idx)[-120:] if w.idx is not None else "whole column"))
            continue
        if fc[0] == "part":
            unk = True
            ctx.ob("fibermap/all-candidates", False, w.e, "only some of the fits of a target are flagged, depending on " + fc[1])
            continue
        ctx.ob("fibermap/by-target-id", fc[0] == "id", w.e,
               "fit rows are selected by %s instead of by the IDs of the targets" % ("a condition on fibermap rows" if fc[0] == "row" else "column " + str(fc[1])))
        if fc[0] != "id":
            unk = True
            continue
        left = v
        for k in TABLE:
            b = zval(ctx.prog, k)
            if v & b:
                got[k].append((w.e, fc[1]))
                left &= ~b
        ctx.ob("fibermap/documented-bits", not left, w.e, "sets an undocumented warning on fibermap conditions: " + show(w.value))
    for k, want in sorted(TABLE.items()):
        if not got[k]:
            if not unk:
                ctx.ob("fibermap/" + k, False, "py/redrock/external/desi.py", "%s is never set" % k)
            else:
                ctx.undecided.append((ctx.cur, k))
            continue
        have = mkor(*[c for e, c in got[k]])
        why = []
        a = implies([have], want, why)
        if a is False:
            ctx.ob("fibermap/" + k, False, got[k][-1][0], "%s is set on other targets too: %s" % (k, why[0] if why else ""))
            continue
        b = implies([want], have, why)
        if b is False and unk:
            b = None
        if a is None or b is None:
            ctx.undecided.append((ctx.cur, k))
            continue
        ctx.ob("fibermap/" + k, b, got[k][-1][0], "%s is not set on some targets: %s" % (k, why[0] if why else ""))


def outputs(I):
    out = []
    for e in I.effects:
        if e.kind != "call":
            continue
        n = fname(e.fn)
        if n.endswith("results.write_zscan") or n.endswith("desi.write_zbest"):
            out.append((e, n))
    return out


def r_written(ctx):
    """every output contains the warnings: they are set whenever an output is written, and before"""
    I = ctx.interp(RD)
    outs = outputs(I)
    if not outs:
        raise Undecided("no output call")
    ws = settings(ctx, I)
    pos = {id(e): i for i, e in enumerate(I.effects)}
    for o, n in outs:
        og = realguards(o)
        for w in ws:
            v = bitsof(ctx, w.value)
            if v is None:
                continue
            nm = [k for k in TABLE if zval(ctx.prog, k) & v]
            if not nm:
                continue
            ctx.ob("written/before", pos[id(w.e)] < pos[id(o)], w.e, "%s is set after the output is written at %s" % (nm[0], o.where))
            for g in realguards(w.e):
                r = implies(og, g)
                if r is None:
                    ctx.undecided.append((ctx.cur, "guard " + show(g)[:60]))
                else:
                    ctx.ob("written/always", r, w.e, "%s is only set if %s" % (nm[0], show(g)[-80:]))


RESET = {"z": 0, "coeff": 0, "spectype": "GALAXY", "subtype": "", "fitmethod": "NONE"}


def r_reset(ctx):
    """fits are replaced only for the targets without data"""
    I = ctx.interp(RD)
    want = TABLE["NODATA"]
    n = 0
    und = len(ctx.undecided)
    done = {}
    for e in I.effects:
        if e.kind != "setitem" or e.d.get("op") is not None:
            continue
        b = peel(e.base)
        if not (b.op == "sub" and is_const(b.a[1]) and isinstance(b.a[1].a[0], str) and b.a[1].a[0].lower() in RESET):
            continue
        if is_fmap(b.a[0]):
            continue
        fc = fitcond(e.key)
        if fc is None:
            if e.key.op == "slice":
                ctx.ob("reset/targets", False, e, "replaces a column of every fit")
                continue
            ctx.undecided.append((ctx.cur, "rows " + show(e.key)[-100:]))
            continue
        n += 1
        if fc[0] == "part":
            continue
        if fc[0] != "id":
            ctx.ob("reset/by-target-id", False, e, "rows of the fibermap are used as rows of the fit table")
            continue
        why = []
        r = implies([fc[1]], want, why)
        if r is None:
            ctx.undecided.append((ctx.cur, "rows"))
        else:
            if r:
                done.setdefault(b.a[1].a[0].lower(), []).append((e, fc[1]))
            ctx.ob("reset/targets", r, e, "%s is replaced for targets with data: %s" % (b.a[1].a[0], why[0] if why else ""))
    if n and len(ctx.undecided) == und:
        # targets without data are listed at redshift zero with zero coefficients
        for k in ("z", "coeff"):
            have = mkor(*[c for e, c in done.get(k, [])])
            r = implies([want], have, [])
            if not done.get(k) or r is not None:
                ctx.ob("reset/" + k, bool(done.get(k)) and r, done[k][0][0] if done.get(k) else "py/redrock/external/desi.py", "%s is left as fitted for some targets without data" % k)
            for e, c in done.get(k, []):
                v = strip(e.value)
                if v.op == "const":
                    ctx.ob("reset/zero", v.a[0] == 0, e, "%s of targets without data is set to %s" % (k, show(v)))
    if not n:
        ctx.ob("reset/none", True, "py/redrock/external/desi.py")


def coverage_term(t):
    """the condition with the pixel and coefficient counts as integers"""
    tabs = set()

    def f(x):
        if x.op == "sub" and is_const(x.a[1], "npixels", "ncoeff"):
            tabs.add(x.a[0].id)
            return NPIX if x.a[1].a[0] == "npixels" else NCOEF
        if x.op == "sub" and is_const(x.a[1], 1, -1) and x.a[0].op == "attr" and x.a[0].a[1] == "shape":
            if any(y.op == "sub" and is_const(y.a[1], "coeff") for c, y in ites(strip(x.a[0].a[0]))) or x.a[0].a[0].op == "ite" and contains(
                    x.a[0].a[0], lambda y: y.op == "sub" and is_const(y.a[1], "coeff")):
                return WIDTH
        if x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] in ("min", "max", "amin", "amax", "mean", "median") and len(cargs(x)) == 1:
            y = strip(cargs(x)[0])
            if y.op == "comp" and y.a[0] in ("list", "gen"):
                b = strip(y.a[1])
                if (b.op == "sub" and is_const(b.a[1], 1, -1) and b.a[0].op == "attr" and b.a[0].a[1] == "shape" and
                        contains(b.a[0].a[0], lambda q: q.op == "sub" and is_const(q.a[1], "coeff"))):
                    # one number for the fits of all templates
                    return mk("param", ZF, fname(x.a[0]) + " number of coefficients of all templates")
            if y.op == "sub" and is_const(y.a[1], "npixels", "ncoeff"):
                tabs.add(y.a[0].id)
                # every row of one target has the same number of pixels, but not of coefficients
                return NPIX if is_const(y.a[1], "npixels") else mk("param", ZF, fname(x.a[0]) + " ncoeff")
        return x
    memo = {}

    def top(x):
        if x.id in memo:
            return memo[x.id]
        y = f(x)
        if y is x:
            p = peel(x) if x.op in ("alloc", "store") else x
            if p is not x:
                y = top(p)
            elif x.op == "call" and fname(x.a[0]) in ("numpy.multiply",) and len(cargs(x)) == 2:
                y = mk("bin", "*", *[top(z) for z in cargs(x)])
            elif x.op == "call" and fname(x.a[0]) in ("numpy.less", "numpy.equal", "numpy.less_equal") and len(cargs(x)) == 2:
                y = mk("cmp", {"less": "<", "equal": "==", "less_equal": "<="}[fname(x.a[0])[6:]], *[top(z) for z in cargs(x)])
            elif x.op == "bin" and x.a[0] in ("|", "&"):
                y = (mkor if x.a[0] == "|" else mkand)(*[top(z) for z in x.a[1:]])
            elif x.op == "un" and x.a[0] == "~":
                y = mknot(top(x.a[1]))
            elif x.op == "call" and fname(x.a[0]) in ("numpy.where", "numpy.nonzero", "numpy.flatnonzero") and len(cargs(x)) == 1:
                y = top(cargs(x)[0])
            elif x.op == "sub" and is_const(x.a[1], 0) and x.a[0].op == "call":
                y = top(x.a[0])
            elif x.op in ("bin", "cmp", "un", "and", "or", "not"):
                y = rebuild(x.op, tuple(top(z) if isinstance(z, T) else z for z in x.a))
        memo[x.id] = y
        return y
    return top(t), tabs


def known(t):
    return not contains(t, lambda x: x not in (NPIX, NCOEF, WIDTH) and x.op in ("sub", "attr", "mu", "loop", "call", "ite", "idx"))


def r_pixels(ctx):
    I = ctx.interp(ZF)
    want = {"NODATA": mk("cmp", "==", NPIX, const(0)), "LITTLE_COVERAGE": mk("cmp", "<", NPIX, mk("bin", "*", const(10), NCOEF))}
    got = {k: [] for k in want}
    unk = False
    for w in settings(ctx, I):
        v = bitsof(ctx, w.value)
        if v is None:
            # a conditional value: x |= where(c, BIT, 0)
            unk = True
            continue
        for k in want:
            if zval(ctx.prog, k) & v:
                c, tabs = coverage_term(w.idx) if w.idx is not None else (None, None)
                if c is None or not known(c) or len(tabs) != 1:
                    unk = True
                    continue
                got[k].append((w, c))
    apps = [e for e in I.effects if e.kind == "call" and fname(e.fn).endswith(".append")]
    tabs_made = [e for e in I.effects if e.kind == "call" and fname(e.fn).rsplit(".", 1)[-1] == "Table"]
    for k in sorted(want):
        if not got[k]:
            if unk:
                ctx.undecided.append((ctx.cur, k))
            else:
                ctx.ob("pixels/" + k, False, "py/redrock/zfind.py", "%s is never set from the number of pixels" % k)
            continue
        have = mkor(*[c for w, c in got[k]])
        why = []
        r = equiv(have, want[k], (), why)
        if r is None or (r is False and unk):
            ctx.undecided.append((ctx.cur, k))
            continue
        ctx.ob("pixels/" + k, r, got[k][-1][0].e, "%s does not follow its definition: %s" % (k, why[0] if why else ""))
        for w, c in got[k]:
            for t in tabs_made:
                for g in realguards(w.e):
                    x = implies(realguards(t), g)
                    if x is None:
                        ctx.undecided.append((ctx.cur, "guard " + show(g)[:60]))
                    else:
                        ctx.ob("pixels/always", x, w.e, "%s is only set if %s" % (k, show(g)[:80]))


def shape_of(t):
    """the arrays whose second dimension occurs in t"""
    out = []
    for x in subterms(t):
        if x.op == "sub" and is_const(x.a[1], 1, -1) and x.a[0].op == "attr" and x.a[0].a[1] == "shape":
            out.append(x.a[0].a[0])
    return out


def r_ncoeff(ctx):
    """the number of coefficients is that of the fit itself, not of the padded table"""
    I = ctx.interp(ZF)
    n = 0
    for e in I.effects:
        if e.kind == "setitem" and is_const(e.key, "ncoeff"):
            for a in shape_of(e.value):
                n += 1
                ctx.ob("ncoeff/unpadded", not contains(a, lambda x: x.op == "call" and fname(x.a[0]) in PAD), e,
                       "the number of coefficients is taken from padded coefficients")
    if not n:
        raise Undecided("ncoeff")


def pixcond(t):
    """(array condition) whose true elements t counts"""
    t = strip(t)
    if t.op == "call":
        n = fname(t.a[0]).rsplit(".", 1)[-1]
        if t.a[0].op == "attr" and n in ("sum",) and not cargs(t):
            return strip(t.a[0].a[0])
        if n in ("sum", "count_nonzero") and len(cargs(t)) == 1:
            return strip(cargs(t)[0])
    return None


def r_npixels(ctx):
    """pixels are those with positive inverse variance, over all spectra of the target"""
    I = ctx.interp(FZ)
    spectra = mk("attr", mk("param", FZ, "target"), "spectra")
    n = 0
    for e in I.effects:
        if e.kind == "setitem" and is_const(e.key, "npixels"):
            v = e.value
            src = []
            if e.d.get("op") == "+":
                src.append(v)
            elif is_const(v, 0):
                continue
            else:
                # a total computed first
                def incr(u):
                    if u.op == "loop" and u.a[0].op == "mu":
                        m = u.a[0]
                        for y in addends(u.a[1]):
                            if y is not m:
                                src.append(y)
                        return True
                    if u.op == "call" and fname(u.a[0]).rsplit(".", 1)[-1] == "sum" and cargs(u) and strip(cargs(u)[0]).op == "comp":
                        src.append(strip(cargs(u)[0]).a[1])
                        return strip(cargs(u)[0]).a[2] is TRUE
                    return False
                s = strip(v)
                if is_call(s, "builtins.max", "builtins.min", "numpy.maximum", "numpy.minimum") and any(pixcond(q) is not None for q in cargs(s)):
                    n += 1
                    ctx.ob("npixels/accumulated", False, e, "the pixels of the spectra are not added up: " + show(s)[-80:])
                    continue
                if s.op == "bin" and s.a[0] == "+" and any(x.op == "sub" and is_const(x.a[1], "npixels") for x in s.a[1:]):
                    src += [x for x in s.a[1:] if not (x.op == "sub" and is_const(x.a[1], "npixels"))]
                elif not incr(s):
                    c = pixcond(s)
                    if c is not None and c.op == "cmp" and contains(c, lambda x: x.op == "sub" and x.a[0] is spectra and x.a[1].op == "idx"):
                        n += 1
                        ctx.ob("npixels/accumulated", False, e, "keeps only the pixels of the last spectrum")
                    continue
            for s in src:
                c = pixcond(s)
                if c is not None and (c.op == "and" or c.op == "bin" and c.a[0] == "&"):
                    data = [q for q in (c.a if c.op == "and" else c.a[1:]) if q.op == "cmp" and any(is_const(strip(y)) for y in q.a[1:]) and any(strip(y).op == "attr" and strip(y).a[1] in ("flux", "wave") for y in q.a[1:])]
                    if data:
                        n += 1
                        ctx.ob("npixels/counted", False, e, "unmasked pixels only count when %s" % show(data[0])[-60:])
                        continue
                if c is None or c.op != "cmp":
                    ctx.undecided.append((ctx.cur, "pixel count " + show(s)[:80]))
                    continue
                a, b = strip(c.a[1]), strip(c.a[2])
                x, z = (b, a) if is_const(a) else (a, b)
                if not (x.op == "attr" and x.a[1] in ("ivar", "flux", "wave") and is_const(z)):
                    ctx.undecided.append((ctx.cur, "pixel count " + show(s)[:80]))
                    continue
                n += 1
                el = x.a[0]
                ctx.ob("npixels/inverse-variance", x.a[1] == "ivar", e, "counts pixels by their " + x.a[1])
                # 0 < ivar or ivar != 0
                pos = (c.a[0] == "<" and is_const(a) and z.a[0] == 0) or (c.a[0] == "!=" and z.a[0] == 0)
                ctx.ob("npixels/unmasked", pos, e, "counts pixels with " + show(c)[:60])
                if el.op == "sub" and el.a[0] is spectra:
                    k = el.a[1]
                    ctx.ob("npixels/all-spectra", k.op == "idx" and strip(k.a[0]) is spectra, e, "counts only " + show(el)[:60])
                    for g in realguards(e):
                        # idx terms are shared by all loops over the spectra: those inside finished loops do not count
                        if any(q is k for q in subterms(g, stop=lambda y: y.op in ("comp", "loop", "mu", "clo"))):
                            ctx.ob("npixels/all-spectra", False, e, "skips spectra: " + show(g)[:80])
                elif el.op == "sub" and el.a[0].op == "sub" and el.a[0].a[1].op == "slice" and el.a[0].a[0] is spectra:
                    ctx.ob("npixels/all-spectra", False, e, "counts only " + show(el.a[0])[:60])
    if not n:
        raise Undecided("npixels")


def run(ctx):
    ctx.rule("fibermap", "each documented fibermap condition sets its warning on the fits of exactly the targets with that condition", r_fibermap)
    ctx.rule("written", "the warnings are set before, and whenever, an output is written", r_written)
    ctx.rule("reset", "fits are replaced by placeholders only for targets without usable data", r_reset)
    ctx.rule("pixels", "no data means no unmasked pixel, little coverage fewer than ten pixels per coefficient, for every fit", r_pixels)
    ctx.rule("ncoeff", "coefficients are counted before padding", r_ncoeff)
    ctx.rule("npixels", "pixels are counted over all spectra of the target where the inverse variance is positive", r_npixels)
