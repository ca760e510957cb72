"""C14: every source of bad data masks its pixels, nothing unmasks them."""
import ast
import operator
from ..q import *
from ..logic import *
from ..arith import *
from ..terms import *
from ..ctx import Undecided, Stop
from .c31 import realguards

LD = "redrock.external.desi.DistTargetsDESI.__init__"
RD = "redrock.external.desi.rrdesi"
BR = "redrock.external.boss.read_spectra"
SP = "redrock.targets.Spectrum.__init__"
KINDS = ("FLUX", "IVAR", "MASK", "RESOLUTION")
TRANSPARENT = ("astype", "copy", "newbyteorder", "byteswap", "ravel", "squeeze", "view")
TRANSNP = tuple("numpy." + x for x in TRANSPARENT)
TRANSFN = ("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.copy", "numpy.vstack", "numpy.concatenate", "numpy.atleast_2d")


def hdukind(k):
    if k.op == "const" and isinstance(k.a[0], str):
        s = [k.a[0]]
    elif k.op == "fstr":
        s = [x.a[0] for x in k.a if x.op == "const" and isinstance(x.a[0], str)]
    elif k.op == "bin" and k.a[0] == "+":
        s = [x.a[0] for x in k.a[1:] if x.op == "const" and isinstance(x.a[0], str)]
    else:
        return None
    for x in s:
        for n in KINDS:
            if x.upper().endswith(n):
                return n
    return None


def src(t, d=0):
    """(kind, frozenset of masking stores, raw hdu term) of pixel data, or None"""
    if d > 60 or not isinstance(t, T):
        return None
    if t.op == "alloc":
        return src(t.a[1], d + 1)
    if t.op == "store":
        r = src(t.a[0], d + 1)
        if r is None:
            return None
        return (r[0], r[1] | frozenset([(t.a[1], t.a[2])]), r[2])
    if t.op == "ite":
        a, b = t.a[1], t.a[2]
        ra = None if is_const(a, None) else src(a, d + 1)
        rb = None if is_const(b, None) else src(b, d + 1)
        if ra is None and not is_const(a, None) or rb is None and not is_const(b, None):
            return None
        if ra is None or rb is None:
            return ra or rb
        if ra[0] != rb[0] or ra[2] is not rb[2]:
            return None
        return ra if ra[1] == rb[1] else (ra[0], ra[1] & rb[1], ra[2])
    if t.op == "call":
        f = t.a[0]
        if f.op == "attr" and f.a[1] in TRANSPARENT:
            return src(f.a[0], d + 1)
        if f.op == "attr" and f.a[1] in ("bcast",):
            a = cargs(t)
            return src(a[0] if a else ckw(t, "obj"), d + 1)
        if fname(f) in TRANSFN or fname(f) in TRANSNP:
            a = cargs(t)
            return src(a[0], d + 1) if a else None
        return None
    if t.op == "attr" and t.a[1] == "data":
        return src(t.a[0], d + 1)
    if t.op == "comp" or t.op == "loop" or t.op == "mu":
        # batches of one array put together again
        ks = [src(x, d + 20) for x in subterms(t, stop=lambda y: src_hdu(y) is not None) if src_hdu(x) is not None]
        ks = {(k[0], k[2].id): k for k in ks if k}
        return next(iter(ks.values())) if len(ks) == 1 else None
    if t.op == "list" and len(t.a) == 0:
        return None
    if t.op == "sub":
        k = src_hdu(t)
        if k:
            return (k, frozenset(), t)
        return src(t.a[0], d + 1)
    if t.op in ("app",):
        return src(t.a[1], d + 1)
    return None


def src_hdu(t):
    if t.op == "sub" and contains(t.a[0], lambda x: x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] in ("open", "FITS"), stop=lambda x: x.op in ("loop", "mu")):
        return hdukind(t.a[1])
    return None


def or_parts(t):
    if t.op == "or" or (t.op == "bin" and t.a[0] == "|"):
        for x in (t.a if t.op == "or" else t.a[1:]):
            for y in or_parts(x):
                yield y
    elif is_call(t, "logical_or"):
        for x in cargs(t):
            for y in or_parts(x):
                yield y
    elif t.op == "alloc":
        for y in or_parts(t.a[1]):
            yield y
    else:
        yield t


def peelmask(t, d=0):
    """drop bcast/rank selection around a mask"""
    while d < 40:
        d += 1
        if t.op == "alloc":
            t = t.a[1]
        elif t.op == "ite":
            a, b = t.a[1], t.a[2]
            if is_const(a, None):
                t = b
            elif is_const(b, None):
                t = a
            else:
                pa, pb = peelmask(a, d), peelmask(b, d)
                if pa is not pb:
                    return t
                t = pa
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in TRANSPARENT + ("bcast",):
            if t.a[0].a[1] == "bcast":
                a = cargs(t)
                t = a[0] if a else ckw(t, "obj")
            else:
                t = t.a[0].a[0]
        elif t.op == "call" and fname(t.a[0]) in TRANSNP + ("numpy.asarray", "numpy.array"):
            t = cargs(t)[0]
        elif is_call(t, "where", "nonzero", "flatnonzero", "argwhere") and len(cargs(t)) == 1:
            t = cargs(t)[0]
        elif t.op == "sub" and is_const(t.a[1], 0) and is_call(strip(t.a[0]), "where", "nonzero"):
            t = t.a[0]
        else:
            return t
    return t


def covered(key):
    """({(kind, 'nan'|'inf')}, understood) covered by a mask"""
    out = set()
    known = True
    key = peelmask(key)
    for p in or_parts(key):
        p = peelmask(p)
        if p is not key and (p.op == "or" or p.op == "bin" and p.a[0] == "|"):
            o, k = covered(p)
            out |= o
            known = known and k
            continue
        what = None
        if p.op == "and" or (p.op == "bin" and p.a[0] == "&") or is_call(p, "logical_and"):
            parts = p.a[1:] if p.op == "bin" else (cargs(p) if p.op == "call" else p.a)
            cs = [covered(x) for x in parts]
            if all(k for c, k in cs):
                out |= frozenset.intersection(*[frozenset(c) for c, k in cs])
            else:
                known = False
            continue
        if is_call(p, "isnan"):
            what = ("nan",)
        elif is_call(p, "isinf"):
            what = ("+inf", "-inf")
        elif is_call(p, "isposinf"):
            what = ("+inf",)
        elif is_call(p, "isneginf"):
            what = ("-inf",)
        elif p.op == "not" or p.op == "inv" or is_call(p, "logical_not") or (p.op == "un" and p.a[0] in ("~", "not")):
            x = p.a[-1] if p.op != "call" else cargs(p)[0]
            x = peelmask(x)
            if is_call(x, "isfinite"):
                what = ("nan", "+inf", "-inf")
                p = x
        elif p.op == "cmp" and p.a[0] == "!=" and p.a[1] is p.a[2]:
            what = ("nan",)
            s = src(p.a[1])
            if s:
                if s[1]:
                    return out, False
                out.add((s[0], "nan"))
                continue
        if what is None:
            known = False
            continue
        s = src(cargs(p)[0])
        if s is None:
            known = False
            continue
        if s[0] == "FLUX" and any(is_const(v) for k, v in s[1]):
            # tested after the bad values were replaced: finds nothing
            continue
        for w in what:
            out.add((s[0], w))
    return out, known


def basesite(ctx):
    I = ctx.interp(LD)
    sets = {}
    for e in effs(I, "setattr"):
        if e.attr in ("flux", "ivar", "R") and not e.d.get("op"):
            k = src(e.value) if e.attr != "R" else None
            sets.setdefault(e.attr, []).append((e, k))
    return I, sets


def masks_after(I, base):
    """[(effect, key, value)] masking writes into .ivar of a loaded spectrum, incl. multiplications by booleans (value None)"""
    out = []
    for e in I.effects:
        if e.kind == "setitem" and is_ivar(e.base):
            out.append((e, e.key, e.value))
        elif e.kind == "setattr" and e.attr == "ivar" and e.d.get("op"):
            out.append((e, None, e.value))
        elif e.kind == "setattr" and e.attr == "ivar" and src(e.value) is None:
            out.append((e, None, e.value))
    return out


def is_ivar(t, d=0):
    """t is (part of) the inverse variance of an existing spectrum"""
    while d < 60:
        d += 1
        if t.op == "mu":
            t = t.a[2]
        elif t.op == "loop":
            t = t.a[0]
        elif t.op == "store":
            t = t.a[0]
        elif t.op == "mut":
            t = t.a[1]
        elif t.op == "alloc" and t.a[1].op != "call":
            t = t.a[1]
        else:
            break
    if t.op == "attr" and t.a[1] == "ivar":
        return True
    s = src(t)
    # the copy that was put into a spectrum
    return s is not None and s[0] == "IVAR" and t.op != "sub" and contains(
        t, lambda x: x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] in ("copy", "astype", "array") or (x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("copy", "astype")))


def r_badvalues(ctx):
    I, sets = basesite(ctx)
    allb = {(k, w) for k in ("IVAR", "FLUX") for w in ("nan", "+inf", "-inf")}
    for attr, kind in (("ivar", "IVAR"), ("flux", "FLUX")):
        es = [(e, k) for e, k in sets.get(attr, []) if k is not None]
        other = [e for e, k in sets.get(attr, []) if k is None]
        if not es:
            raise Undecided("no load of %s data into the spectra was recognised" % attr)
        for e, k in es:
            ctx.ob("load/%s-source" % attr, k[0] == kind, e, "the %s of a spectrum is loaded from the %s data" % (attr, k[0]))
            cov = set()
            known = True
            for key, val in k[1]:
                if not (is_const(val) and not isinstance(val.a[0], (str, bool)) and val.a[0] == 0):
                    if is_const(val):
                        ctx.ob("load/%s-fill" % attr, False, e, "bad values are replaced by %s, not by zero" % show(val))
                    else:
                        known = False
                    continue
                c, kn = covered(key)
                cov |= c
                known = known and kn
            # masks applied later directly on the loaded array
            if attr == "ivar":
                for m, key, val in masks_after(I, e.base):
                    if key is not None and is_const(val) and val.a[0] == 0 and not extraguards(m, e):
                        cov |= covered(key)[0]
            want = allb if attr == "ivar" else {x for x in allb if x[0] == "FLUX"}
            if attr == "flux" and not want <= cov and "IVAR" == kind:
                continue
            for b in sorted(want):
                if b in cov:
                    ctx.ob("load/%s/%s-%s" % (attr, b[0].lower(), b[1]), True, e)
                elif known:
                    ctx.ob("load/%s/%s-%s" % (attr, b[0].lower(), b[1]), False, e,
                           "%s where the %s is %s" % ("inverse variance is not set to zero" if attr == "ivar" else "flux is not replaced", b[0].lower(), b[1]))
                else:
                    ctx.undecided.append((ctx.cur, "load/%s/%s-%s: mask not understood" % (attr, b[0], b[1])))


def extraguards(m, ref):
    """guards of m that are not guards of the load ref"""
    r = {g.id for g in realguards(ref)}
    out = []
    for g in realguards(m):
        if g.id in r:
            continue
        out.append(g)
    return out


OWN = ("comm", "self", "spectrafiles", "targetids", "first_target", "n_target", "capacities")


def guardparams(g):
    return {x.a[1] for x in subterms(g) if x.op == "param" and x.a[0] == LD}


def countguard(g, key):
    """a condition on the number of pixels in a mask: True when it holds for every number >= 1, False when not, None otherwise"""
    if g.op == "not":
        g2 = g.a[0]
        if isany(g2, key):
            return False
        r = countguard(g2, key)
        return None
    if isany(g, key):
        return True
    if g.op != "cmp" or g.a[0] not in CMP:
        return None
    c = [x for x in g.a[1:] if is_const(x) and type(x.a[0]) in (int, float)]
    o = [strip(x) for x in g.a[1:] if x not in c]
    if len(c) != 1 or len(o) != 1 or not is_call(o[0], "sum", "count_nonzero", "numpy.sum", "numpy.count_nonzero") or not any(samekey(x, key) for x in cargs(o[0])):
        return None
    k = c[0].a[0]
    return all(CMP[g.a[0]](k, z) if c[0] is g.a[1] else CMP[g.a[0]](z, k) for z in (1, 2, 3, 10, 100, 10**6, k, k - 1, k + 1) if z >= 1)


def samekey(x, key):
    return peelmask(strip(x)) is peelmask(strip(key))


def isany(g, key):
    g = strip(g)
    return is_call(g, "any", "numpy.any", "sum", "numpy.sum", "numpy.count_nonzero") and any(samekey(x, key) for x in cargs(g))


def judge_guards(ctx, name, m, ref, ok=lambda g: False, key=None):
    """extra guards on a mask: report those which depend on an unrelated option"""
    good = True
    opts = {p for g in realguards(ref) for p in guardparams(g)} | set(OWN)
    for g in extraguards(m, ref):
        if ok(g):
            continue
        n = countguard(g, key) if key is not None else None
        if n is not None:
            ctx.ob(name + "/condition", n, m, "this masking is only done when %s" % show(g)[:120])
            good = good and n
            continue
        direct = shallow_params(g) - set(OWN)
        if direct:
            ctx.ob(name + "/condition", False, m, "this masking is only done when %s" % show(g)[:120])
            good = False
        elif loopish(g):
            continue
        else:
            ctx.undecided.append((ctx.cur, "%s: extra condition %s" % (name, show(g)[:80])))
    return good


def shallow_params(g):
    if g.op == "param":
        return {g.a[1]}
    if g.op in ("not", "and", "or"):
        out = set()
        for x in g.a:
            out |= shallow_params(x)
        return out
    if g.op == "cmp":
        out = set()
        for x in g.a[1:]:
            if x.op == "param":
                out.add(x.a[1])
        return out
    return set()


def loopish(g):
    """non-emptiness of what is looped over, membership of the target in the file"""
    if g.op == "not":
        return loopish(g.a[0])
    return g.op == "cmp" and g.a[0] in ("in", "<", "<=", "!=", "==") and any(x.op in ("call",) and fname(x.a[0]).endswith("len") for x in g.a[1:]) \
        or (g.op == "cmp" and g.a[0] == "in")


def conjuncts(t):
    t = peelmask(t)
    if t.op == "bin" and t.a[0] == "&" or t.op == "and":
        return [y for x in t.a[(1 if t.op == "bin" else 0):] for y in conjuncts(x)]
    if is_call(t, "numpy.logical_and"):
        return [y for x in cargs(t)[:2] for y in conjuncts(x)]
    return [t]


def plainpix(t):
    """an expression of flux and inverse variance only"""
    st = [t]
    n = 0
    while st:
        x = strip(st.pop())
        s = src(x)
        if s:
            if s[0] not in ("FLUX", "IVAR"):
                return False
            n += 1
        elif x.op == "attr" and x.a[1] in ("flux", "ivar"):
            n += 1
        elif x.op in ("bin", "un", "neg"):
            st += [y for y in x.a if isinstance(y, T)]
        elif is_call(x, "numpy.sqrt", "numpy.abs", "numpy.absolute", "numpy.fabs", "builtins.abs", "numpy.copy", "numpy.astype"):
            st += cargs(x)[:1]
        elif x.op != "const":
            return False
    return n > 0


def posivar(x):
    """ivar > 0, ivar != 0"""
    o = [y for y in x.a[1:] if not is_const(y)]
    c = [y for y in x.a[1:] if is_const(y)]
    if len(o) != 1 or c[0].a[0] != 0:
        return False
    y = strip(o[0])
    isv = (src(y) or ("",))[0] == "IVAR" or y.op == "attr" and y.a[1] == "ivar"
    return isv and (x.a[0] == "!=" or x.a[0] == "<" and is_const(x.a[1]))


def r_negflux(ctx):
    I, sets = basesite(ctx)
    ref = [e for e, k in sets.get("ivar", []) if k is not None]
    if not ref:
        raise Undecided("no load of the inverse variance")
    ref = ref[0]
    P = mk("param", LD, "negflux_nsig")
    ms = [(m, k, v) for m, k, v in masks_after(I, ref.base) if k is not None and has(k, P)]
    stores = [(ref, k, v) for k, v in src(ref.value)[1] if has(k, P)]
    allm = ms + stores
    if not allm:
        anyp = any(has(e.d.get(x), P) for e in I.effects if e.kind != "call" for x in ("value", "key") if isinstance(e.d.get(x), T)) \
            or any(has(e.result, P) for e in effs(I, "call") if not e.d.get("inlined") and fname(e.fn).rsplit(".", 1)[-1] not in ("abs", "absolute", "fabs", "sqrt"))
        if anyp:
            raise Undecided("negflux_nsig is used in a way not understood")
        ctx.ob("negflux/present", False, ref, "significantly negative pixels are never masked: negflux_nsig is not used in any mask")
        return
    for m, key, val in allm:
        key = peelmask(key)
        ctx.ob("negflux/zero", is_const(val) and val.a[0] == 0, m, "pixels are set to %s" % show(val)[:80])
        whole, parts = key, conjuncts(key)
        if len(parts) > 1:
            main = [x for x in parts if has(x, P)]
            for x in parts:
                if x in main:
                    continue
                if x.op == "cmp" and any(is_const(y) for y in x.a[1:]) and all(is_const(y) or plainpix(y) for y in x.a[1:]):
                    if posivar(x):
                        continue
                    ctx.ob("negflux/condition", False, m, "of the significantly negative pixels only those with %s are masked" % show(x)[-60:])
            key = peelmask(main[0]) if len(main) == 1 else key
        if key.op != "cmp" or key.a[0] not in ("<", "<="):
            ctx.undecided.append((ctx.cur, "negative-flux mask is " + show(key)[:100]))
            continue
        l, r = key.a[1], key.a[2]
        # abstract flux and ivar
        F, V = mk("sym", "F"), mk("sym", "V")
        N = mk("sym", "N")

        def ab(t):
            s = src(t)
            if s and s[0] == "FLUX":
                return F
            if s and s[0] == "IVAR":
                return V
            if t.op == "attr" and t.a[1] == "flux":
                return F
            if t.op == "attr" and t.a[1] == "ivar":
                return V
            if is_call(t, "builtins.len"):
                return mk("sym", "number%d" % t.id)
            if t.op == "call":
                a = [ab(x) if isinstance(x, T) and x.op != "kw" else x for x in t.a[1:]]
                n = fname(t.a[0])
                if n.rsplit(".", 1)[-1] in ("abs", "absolute", "fabs") and a and a[0] is P:
                    return N
                return mk("call", t.a[0], *a)
            if t.op == "bin":
                return mkbin(t.a[0], *[ab(x) for x in t.a[1:]])
            if t.op in ("neg",):
                return mk(t.op, ab(t.a[0]))
            if t.op == "un":
                return mk(t.op, t.a[0], ab(t.a[1]))
            if t.op == "alloc":
                return ab(t.a[1])
            return t
        l2, r2 = ab(l), ab(r)
        if has(l2, P) or has(r2, P):
            # without abs(): the same for the non-negative values every caller passes
            l2, r2 = (rewrite(x, lambda y: N if y is P else y) for x in (l2, r2))
        diff = mkbin("-", l2, r2)
        want = mkbin("+", mkbin("*", F, mk("call", ext("numpy.sqrt"), V)), N)
        p, q = poly(diff), poly(want)
        if p == q:
            ctx.ob("negflux/condition", True, m)
        elif not has(diff, F) or not has(diff, V):
            ctx.ob("negflux/condition", has(diff, F) and has(diff, V), m, "the mask does not compare flux over its error with the threshold: " + show(key)[:140])
        else:
            left = {x.id for x in subterms(diff) if x.op in ("attr", "sub", "param", "loop", "mu")}
            if left:
                ctx.undecided.append((ctx.cur, "negative-flux mask is " + show(key)[:100]))
            else:
                ctx.ob("negflux/condition", False, m, "the mask must be flux*sqrt(ivar) < -nsig; it is %s < %s with F=flux, V=ivar, N=nsig" % (show(l2)[:80], show(r2)[:80]))
        judge_guards(ctx, "negflux", m, ref, key=whole)


def r_mask(ctx):
    I, sets = basesite(ctx)
    ref = [e for e, k in sets.get("ivar", []) if k is not None]
    if not ref:
        raise Undecided("no load of the inverse variance")
    ref = ref[0]
    n = 0
    cand = masks_after(I, ref.base) + [(ref, k, v) for k, v in src(ref.value)[1]]
    for m, key, val in cand:
        t = val if key is None else key
        ks = {s[0] for s in (src(x) for x in subterms(t, stop=lambda y: y.op in ("loop", "mu"))) if s}
        if "MASK" not in ks:
            continue
        n += 1
        if key is None:
            op = m.d.get("op")
            v = t
            if not op:
                v = None
                fs = factors(t)
                keep = [x for x in fs if not (x.op == "attr" and x.a[1] == "ivar")]
                if len(keep) == 1 and len(fs) == 2:
                    v = keep[0]
                    op = "*"
            pol = maskpol(v) if v is not None else None
            if op == "*" and v is not None and partmask(v):
                ctx.ob("mask/polarity", False, m, "only some mask bits are honoured: " + show(v)[:100])
            elif op == "*" and pol is not None:
                ctx.ob("mask/polarity", pol == "good", m, "inverse variance is multiplied by %s: pixels with a non-zero mask must get zero, and only they" % show(v)[:100])
            else:
                ctx.undecided.append((ctx.cur, "mask is applied as %s= %s" % (op, show(t)[:80])))
        else:
            pol = maskpol(peelmask(key))
            if not (is_const(val) and val.a[0] == 0):
                ctx.ob("mask/zero", not is_const(val), m, "masked pixels are set to %s" % show(val)[:60])
                continue
            if partmask(peelmask(key)):
                ctx.ob("mask/polarity", False, m, "only some mask bits are honoured: " + show(key)[:100])
            elif pol is None:
                ctx.undecided.append((ctx.cur, "mask condition %s" % show(key)[:80]))
            else:
                ctx.ob("mask/polarity", pol == "bad", m, "pixels with %s are set to zero; it must be those with a non-zero mask" % show(key)[:100])
        judge_guards(ctx, "mask", m, ref, ok=lambda g: is_present(g))
        for g in extraguards(m, ref):
            for c in unread(g):
                ctx.ob("mask/condition", False, m, "the mask is only read when %s" % show(c)[:120])
    if n == 0:
        if any(src(x) and src(x)[0] == "MASK" for e in I.effects for f in ("value", "key", "result") if isinstance(e.d.get(f), T)
               for x in subterms(e.d[f], stop=lambda y: y.op in ("loop", "mu"))if x.op in("sub",)):
            used = [e for e in I.effects if e.kind in ("setitem", "setattr") and any(src_hdu(x) == "MASK" for x in subterms(e.value))]
            if used:
                raise Undecided("mask data is used in a way not understood")
        ctx.ob("mask/present", False, ref, "the MASK data of a spectra file never changes the inverse variance")


def is_present(g):
    """mask data / mask HDU is there"""
    if g.op == "not":
        return is_present(g.a[0])
    if g.op == "cmp" and g.a[0] == "is":
        return any(is_const(x, None) for x in g.a[1:])
    if g.op == "cmp" and g.a[0] == "in":
        return hdukind(g.a[1]) == "MASK"
    return False


def unread(g):
    """a condition, other than its presence in the file and the rank of the process, under which mask data count as absent"""
    xs = [g.a[0]] if g.op == "not" else [g]
    out = []

    def leaf(c):
        if c.op in ("and", "or", "not"):
            for y in c.a:
                leaf(y)
        elif c.op == "cmp" and not is_present(c) and all(is_const(strip(y)) or is_call(strip(y), "builtins.len") for y in c.a[1:]) and any(is_call(strip(y), "builtins.len") for y in c.a[1:]):
            # the file has spectra, rows are selected: not about the mask
            if not any(is_const(strip(y), 0, 1) for y in c.a[1:]):
                out.append(c)
        elif shallow_params(c) - {"comm"} - set(OWN):
            out.append(c)

    def walk(v, d=0):
        if v.op == "ite" and d < 6:
            if any(is_const(x, None) for x in (strip(v.a[1]), strip(v.a[2]))):
                leaf(v.a[0])
            for y in v.a[1:]:
                walk(strip(y), d + 1)
        elif v.op == "call" and fname(v.a[0]).rsplit(".", 1)[-1] == "bcast" and cargs(v):
            walk(strip(cargs(v)[-1] if v.a[0].op != "attr" else cargs(v)[0]), d + 1)
    for x in xs:
        if x.op == "cmp" and x.a[0] == "is":
            for y in x.a[1:]:
                if not is_const(y, None):
                    walk(strip(y))
    return out


def partmask(t):
    """a comparison of mask & constant, or of mask with a value other than zero"""
    for x in subterms(t, stop=lambda y: src(y) is not None):
        if x.op == "cmp":
            for y in x.a[1:]:
                y = strip(y)
                if y.op == "bin" and y.a[0] == "&" and any(is_const(z) for z in y.a[1:]) and any((src(z) or ("",))[0] == "MASK" for z in y.a[1:]):
                    return True
            l, r = strip(x.a[1]), strip(x.a[2])
            c = [y for y in (l, r) if is_const(y) and type(y.a[0]) in (int, float)]
            m = [y for y in (l, r) if (src(y) or ("",))[0] == "MASK"]
            if len(c) == 1 and len(m) == 1 and x.a[0] in CMP:
                k = c[0].a[0]
                v = {(CMP[x.a[0]](k, z) if c[0] is l else CMP[x.a[0]](z, k)) for z in (1, 2, 4, 1 << 16, k, k + 1) if z >= 1}
                if len(v) > 1:
                    return True
    return False


CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def maskpol(t):
    """'good': true where mask == 0; 'bad': true where mask != 0"""
    t = peelmask(t)
    if t.op == "cmp" and t.a[0] in ("==", "!=", "<"):
        l, r = t.a[1], t.a[2]
        z = [x for x in (l, r) if is_const(x) and x.a[0] == 0 and not isinstance(x.a[0], str)]
        o = [x for x in (l, r) if not is_const(x)]
        if len(z) == 1 and len(o) == 1 and src(o[0]) and src(o[0])[0] == "MASK":
            if t.a[0] == "==":
                return "good"
            if t.a[0] == "!=":
                return "bad"
            return "bad" if l is z[0] else None
        return None
    if t.op == "not" or (t.op in ("inv",)):
        p = maskpol(t.a[0])
        return {"good": "bad", "bad": "good"}.get(p)
    if t.op == "un" and t.a[0] in ("~", "not"):
        p = maskpol(t.a[1])
        return {"good": "bad", "bad": "good"}.get(p)
    if is_call(t, "logical_not"):
        p = maskpol(cargs(t)[0])
        return {"good": "bad", "bad": "good"}.get(p)
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "astype" and (is_const(cargs(t)[0]) or cargs(t)[0].op == "ext") \
            and fname(cargs(t)[0]).endswith("bool"):
        return maskpol(t.a[0].a[0])
    if t.op == "bin" and t.a[0] == "*":
        c = [x for x in t.a[1:] if is_const(x)]
        o = [x for x in t.a[1:] if not is_const(x)]
        if len(o) == 1 and all(x.a[0] == 1 for x in c):
            return maskpol(o[0])
    s = src(t)
    if s and s[0] == "MASK":
        return "bad"
    return None


def min_integral(ctx):
    import ast
    m = ctx.prog.mods.get("redrock.constants")
    t = getattr(m, "tree", None)
    for x in ast.walk(t) if t is not None else ():
        if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name) and x.targets[0].id == "min_resolution_integral" and isinstance(x.value, ast.Constant):
            return x.value.value
    return None


def resokey(ctx, key, isres):
    """True/False/None: key is 'integral of the resolution below the minimum'"""
    key = peelmask(key)
    if key.op == "not" or (key.op == "un" and key.a[0] in ("~", "not")):
        v = resokey(ctx, key.a[-1], isres)
        return None if v is None else ("neg" if v is True else (True if v == "neg" else v))
    if key.op != "cmp" or key.a[0] not in ("<", "<="):
        return None
    l, r = key.a[1], key.a[2]

    def isint_(t):
        for x in subterms(t):
            if x.op == "call" and (x.a[0].op == "attr" and x.a[0].a[1] == "sum" and isres(x.a[0].a[0])):
                ax = ckw(x, "axis", 0)
            elif x.op == "call" and fname(x.a[0]) == "numpy.sum" and cargs(x) and isres(cargs(x)[0]):
                ax = ckw(x, "axis", 1)
            else:
                continue
            return ax.a[0] if ax is not None and is_const(ax) else "all"
        return None

    def islim(t):
        if contains(t, isres):
            return False
        return is_const(t) or "min_resolution_integral" in show(t)

    def judge(t, ok):
        """the limit is the documented constant"""
        if is_const(t):
            w = min_integral(ctx)
            if w is not None and t.a[0] != w:
                return "limit"
        return ok
    ax = isint_(l)
    if ax is not None and islim(r):
        return judge(r, True) if ax == 1 else ("axis%s" % ax)
    ax = isint_(r)
    if ax is not None and islim(l):
        return judge(l, "neg") if ax == 1 else ("axis%s" % ax)
    return None


def r_resolution(ctx):
    # in the constructor
    I = ctx.interp(SP)
    R = mk("param", SP, "R")
    IV = mk("param", SP, "ivar")
    n = 0
    for e in I.effects:
        if e.kind != "setitem":
            continue
        b = e.base
        if not (has(b, IV) or (b.op == "attr" and b.a[1] == "ivar")):
            continue
        v = resokey(ctx, e.key, lambda x: x is R or (x.op == "attr" and x.a[1] == "R"))
        if v is None:
            ctx.undecided.append((ctx.cur, "constructor masks pixels with " + show(e.key)[:80]))
            n += 1
            continue
        n += 1
        ctx.ob("constructor/condition", v is True, e, "pixels must be masked where the resolution row integrates to less than the minimum; the condition is " + show(e.key)[:120])
        ctx.ob("constructor/zero", is_const(e.value) and e.value.a[0] == 0, e, "set to " + show(e.value)[:60])
        gs = realguards(e)
        bad = [g for g in gs if not implied_by_present(g, R)]
        ctx.ob("constructor/guard", not bad, e, "only when " + " and ".join(show(g)[:60] for g in bad))
    if n == 0:
        used = any(has(e.value, R) for e in effs(I, "setattr") if e.attr == "ivar")
        if used:
            raise Undecided("constructor computes ivar from R in a way not understood")
        ctx.ob("constructor/present", False, SP.split("redrock.")[1], "a spectrum created with a poor resolution is not masked")
    last = [e for e in effs(I, "setattr") if e.attr == "ivar" and e.base.op == "param"]
    for e in last:
        ctx.ob("constructor/stored", has(e.value, IV), e, "the inverse variance stored is not the one passed: " + show(e.value)[:80])
    # spectra loaded from DESI files get their resolution later
    I, sets = basesite(ctx)
    refs = [e for e, k in sets.get("R", [])]
    if not refs:
        raise Undecided("no load of the resolution")
    ref = refs[0]
    CO = mk("param", LD, "coadd")

    def isr(x):
        if x.op == "attr" and x.a[1] == "R":
            return True
        x = strip_alloc(x)
        return x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] == "Resolution" or (src(x) or ("",))[0] == "RESOLUTION"
    # constructed with R?
    ctor = [e for e in calls(I, "Spectrum") if any(is_call(strip_alloc(x), "Resolution") for x in subterms(e.result))]
    n = 0
    for m, key, val in masks_after(I, ref.base):
        if key is None:
            continue
        v = resokey(ctx, key, isr)
        if v is None:
            if contains(key, lambda x: x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] == "Resolution", stop=lambda y: y.op in ("loop", "mu")):
                ctx.undecided.append((ctx.cur, "resolution mask is " + show(key)[:80]))
                n += 1
            continue
        n += 1
        ctx.ob("loader/condition", v is True, m, "pixels must be masked where the resolution row integrates to less than the minimum; the condition is " + show(key)[:120])
        ctx.ob("loader/zero", is_const(val) and val.a[0] == 0, m, "set to " + show(val)[:60])
        good = lambda g: g is mknot(CO) or g is CO
        gs = [g for g in extraguards(m, ref)]
        if any(g is CO for g in gs):
            ctx.ob("loader/guard", False, m, "only done for coadded spectra, whose coadded resolution is checked anyway; single spectra are not masked")
        judge_guards(ctx, "loader", m, ref, ok=good)
    if n == 0 and not ctor:
        ctx.ob("loader/present", False, ref, "spectra that are not coadded get a resolution from the file, but poor rows are never masked")


def implied_by_present(g, R):
    if g.op == "not":
        x = g.a[0]
        return x.op == "cmp" and x.a[0] in ("is", "==") and (R in x.a)
    return g is R or (g.op == "cmp" and g.a[0] == "!=" and R in g.a) or (g.op == "call" and fname(g.a[0]) == "builtins.hasattr")


SKY = ((5572.0, 5582.0), (9792.0, 9795.0))


def wave_eval(t, x, d=0):
    """truth of an interval predicate on s.wave at wavelength x (None: not understood)"""
    t = peelmask(t)
    if d > 40:
        return None
    if t.op in ("and", "or") or (t.op == "bin" and t.a[0] in ("&", "|")) or is_call(t, "logical_and", "logical_or"):
        isand = t.op == "and" or (t.op == "bin" and t.a[0] == "&") or is_call(t, "logical_and")
        xs = t.a[1:] if t.op == "bin" else (cargs(t) if t.op == "call" else t.a)
        vs = [wave_eval(y, x, d + 1) for y in xs]
        if None in vs:
            return None
        return all(vs) if isand else any(vs)
    if t.op == "not" or t.op == "inv":
        v = wave_eval(t.a[0], x, d + 1)
        return None if v is None else not v
    if t.op == "un" and t.a[0] in ("~", "not"):
        v = wave_eval(t.a[1], x, d + 1)
        return None if v is None else not v
    if t.op == "const" and isinstance(t.a[0], bool):
        return t.a[0]
    if t.op == "cmp" and t.a[0] in ("<", "<=", "==", "!="):
        a, b = wnum(t.a[1], x), wnum(t.a[2], x)
        if a is None or b is None:
            return None
        return {"<": a < b, "<=": a <= b, "==": a == b, "!=": a != b}[t.a[0]]
    return None


def wnum(t, x):
    t = strip(t)
    if is_const(t) and isinstance(t.a[0], (int, float)):
        return float(t.a[0])
    if t.op == "attr" and t.a[1] == "wave":
        return x
    if t.op == "call" and fname(t.a[0]).rsplit(".", 1)[-1] in ("abs", "absolute", "fabs"):
        v = wnum(cargs(t)[0], x)
        return None if v is None else abs(v)
    if t.op == "bin" and len(t.a) >= 3:
        vs = [wnum(y, x) for y in t.a[1:]]
        if None in vs:
            return None
        v = vs[0]
        for y in vs[1:]:
            if t.a[0] == "+":
                v += y
            elif t.a[0] == "-":
                v -= y
            elif t.a[0] == "*":
                v *= y
            elif t.a[0] == "/" and y:
                v /= y
            else:
                return None
        return v
    if t.op == "neg":
        v = wnum(t.a[0], x)
        return None if v is None else -v
    return None


def consts(t):
    return {float(x.a[0]) for x in subterms(t) if x.op == "const" and isinstance(x.a[0], (int, float)) and not isinstance(x.a[0], bool) and x.a[0] > 100}


def r_sky(ctx):
    I = ctx.interp(RD)
    wm = []
    und = False
    for i, e in enumerate(I.effects):
        if e.kind == "setitem" and is_ivar(e.base):
            wm.append((i, e))
        elif e.kind == "setattr" and e.attr == "ivar":
            und = True
    z = [i for i, e in enumerate(I.effects) if e.kind == "call" and is_call(e.result, "redrock.zfind.zfind")]
    # each window
    pts = sorted({p for w in SKY for p in w} | {c for i, e in wm for c in consts(e.key)})
    test = []
    for a, b in zip([pts[0] - 100] + pts, pts + [pts[-1] + 100]):
        test.append((a + b) / 2)
    test = sorted(set(test) | set(pts))
    cov = {x: False for x in test}
    understood = True
    NS = None
    for i, e in wm:
        vs = {x: wave_eval(e.key, x) for x in test}
        if None in vs.values():
            understood = False
            continue
        ctx.ob("sky/zero", is_const(e.value) and e.value.a[0] == 0, e, "set to " + show(e.value)[:60])
        gs = realguards(e)
        extra = []
        okguard = True
        for g in gs:
            o = {x.a[1] for y in batoms(g) for x in optreads(y)}
            o = {x for x in o if x not in ("parse_args",)}
            if not o:
                continue
            if o == {"no_skymask"}:
                if g.op == "not" or (g.op == "cmp" and g.a[0] == "is" and is_const(g.a[2], False)):
                    continue
                if g.op == "attr":
                    ctx.ob("sky/option", False, e, "the sky lines are masked only when --no-skymask is given")
                    okguard = False
            elif o & {"no_skymask"} or g.op in ("attr", "cmp") or (g.op == "not" and g.a[0].op in ("attr", "cmp")):
                extra.append(g)
        conditional = [g for g in extra if opt_if(e, g)]
        if conditional:
            ctx.ob("sky/condition", False, e, "the sky lines are masked only when also " + show(conditional[0])[:120])
            okguard = False
        its = e.loops
        if okguard:
            for x in test:
                cov[x] = cov[x] or vs[x]
        if z:
            ctx.ob("sky/before-fit", i < min(z), e, "the sky lines are masked after the redshifts are fitted")
        b = e.base
        ls = [t for t in subterms(b, stop=lambda y: y.op in ("loop", "mu")) if t.op == "attr" and t.a[1] == "spectra"]
        part = [t for r in [b] + [l.a[0] for l in e.loops] for t in subterms(r, stop=lambda y: y.op in ("loop", "mu")) if t.op == "sub" and t.a[1].op in ("slice", "const")
                and contains(t.a[0], lambda y: y.op == "attr" and y.a[1] in ("spectra", "local"), stop=lambda y: y.op in ("loop", "mu"))]
        ctx.ob("sky/all-spectra", not part, e, "only some of the spectra are masked: " + show(b)[:120])
    if not wm and not und:
        # maybe in a helper
        if any(contains(e.result, lambda x: x.op == "const" and x.a[0] in (5572.0, 9792.0, 5582.0)) for e in effs(I, "call")):
            raise Undecided("sky-line windows are handed to a function")
        ctx.ob("sky/present", False, RD.split("redrock.")[1], "no sky-line masking before the fit")
        return
    if not understood or und:
        if not any(cov.values()):
            raise Undecided("sky-line mask not understood")
    bad = []
    for x in test:
        w = any(a <= x <= b for a, b in SKY)
        if cov[x] != w:
            bad.append((x, w))
    if bad and not understood:
        raise Undecided("one of the sky-line masks is not understood")
    ctx.ob("sky/windows", not bad, wm[0][1] if wm else "", "at wavelength %s a pixel is %s" % (bad[0][0] if bad else "", "not masked" if bad and bad[0][1] else "masked although outside the problem windows"))


def optreads(t):
    """attributes read directly from the parsed options in a condition atom"""
    out = []
    for x in ([t] if t.op == "attr" else list(t.a[1:]) if t.op == "cmp" else []):
        if x.op == "attr" and contains(x.a[0], lambda y: y.op == "attr" and y.a[1] == "parse_args" or y.op == "call" and fname(y.a[0]).endswith("parse_args")):
            out.append(x)
    return out


def opt_if(e, g):
    """g is the condition of an enclosing 'if' (not an earlier return)"""
    for h, k in e.guards:
        if k == "if":
            for x in (h.a if h.op == "and" else [h]):
                if x is g:
                    return True
    return False


def r_andmask(ctx):
    I = ctx.interp(BR)
    U = mk("param", BR, "use_andmask")
    spec = [e for e in calls(I, "Spectrum") if e.d.get("bound") is not None]
    if not spec:
        raise Undecided("no spectrum is created")
    for e in spec:
        iv = e.bound.get("ivar")
        if iv is None:
            continue
        on = deep_assume(iv, {U: True})
        off = deep_assume(iv, {U: False})
        f_on, f_off = bosspol(on), bosspol(off)
        if f_on == "?" or f_off == "?":
            ctx.undecided.append((ctx.cur, "and-mask use not understood: " + show(iv)[:100]))
            continue
        ctx.ob("boss/and-mask", f_on == "good", e, {None: "the and-mask does not change the inverse variance when it is requested",
                                                    "bad": "it is not exactly the pixels with a set and-mask that are masked"}.get(f_on, ""))
        ctx.ob("boss/default", f_off is None, e, "the and-mask is applied although it was not requested")


def deep_assume(t, lits):
    return assume(t, lits)


def bosspol(t):
    """how HDU 2 enters the inverse variance: 'good' (zero where set), 'bad', None, '?'"""
    ps = set()
    for cs, u in cases(t):
        ps.add(bosspol1(u))
    if len(ps) == 1:
        return ps.pop()
    if "?" in ps:
        return "?"
    # applied only for some inputs
    return "bad"


CMPV = {"==": lambda a, b: a == b, "!=": lambda a, b: a != b, "<": lambda a, b: a < b, "<=": lambda a, b: a <= b,
        ">": lambda a, b: a > b, ">=": lambda a, b: a >= b}


def bosspol1(t):
    def hdu(x, n):
        return x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "read" and x.a[0].a[0].op == "sub" and is_const(x.a[0].a[0].a[1], n)
    if not contains(t, lambda x: hdu(x, 2)):
        return None if contains(t, lambda x: hdu(x, 1)) else "?"

    def mask(x):
        x = strip(strip_alloc(x))
        while x.op == "sub" and x.a[1].op in ("tuple", "slice"):
            x = strip(strip_alloc(x.a[0]))
        return hdu(x, 2)
    pol = {}
    for x in subterms(t):
        if x.op == "cmp" and x.a[0] in CMPV:
            l, r = x.a[1:]
            f = CMPV[x.a[0]]
            if mask(l) and is_const(r) and type(r.a[0]) in (int, float):
                pol[x] = [bool(f(v, r.a[0])) for v in (0, 1, 8, 1 << 20)]
            elif mask(r) and is_const(l) and type(l.a[0]) in (int, float):
                pol[x] = [bool(f(l.a[0], v)) for v in (0, 1, 8, 1 << 20)]
    if len(pol) != 1:
        return "?"
    c, keep = next(iter(pol.items()))
    neg = [x for x in subterms(t) if (x.op in ("not", "inv") and x.a[0] is c) or (x.op == "un" and x.a[0] in ("~", "not") and x.a[1] is c) or (is_call(x, "logical_not") and cargs(x)[0] is c)]
    if neg:
        keep = [not k for k in keep]
        c = neg[0]
    good = keep == [True, False, False, False]
    st = [x for x in subterms(t) if x.op == "store" and peelmask(x.a[1]) is c]
    if st:
        if all(is_const(x.a[2]) and x.a[2].a[0] == 0 for x in st):
            return "good" if keep == [False, True, True, True] else "bad"
        return "?"
    fs = [x for x in subterms(t) if (x.op == "bin" and x.a[0] == "*" and any(has(y, c) for y in x.a[1:]))]
    if fs:
        return "good" if good else "bad"
    return "?"


SKIP = (".test", "tests.")


def r_monotone(ctx):
    n = 0
    def masks(node):
        for x in ast.walk(node):
            if isinstance(x, (ast.Assign, ast.AugAssign)):
                ts = x.targets if isinstance(x, ast.Assign) else [x.target]
                for tg in ts:
                    b = tg
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    if isinstance(b, ast.Attribute) and b.attr in ("ivar",):
                        return True
        return False
    for q in ctx.entries(masks):
        if ".test." in q or ".tests." in q or "plotspec" in q:
            continue
        I = ctx.interp(q)
        for e in I.effects:
            if e.kind == "setitem" and is_ivar(e.base):
                n += 1
                v = e.value
                op = e.d.get("op")
                short = q.split("redrock.")[-1]
                if not op:
                    if is_const(v) and not isinstance(v.a[0], (str, bool)) and v.a[0] is not None:
                        ctx.ob("monotone/%s" % short, v.a[0] == 0, e, "pixels of the inverse variance are set to %s" % show(v))
                    else:
                        ctx.undecided.append((ctx.cur, "%s: ivar[...] = %s" % (short, show(v)[:60])))
                else:
                    decide_op(ctx, "monotone/%s" % short, e, op, v)
            elif e.kind == "setattr" and e.attr == "ivar" and e.d.get("op"):
                n += 1
                decide_op(ctx, "monotone/%s" % q.split("redrock.")[-1], e, e.d.get("op"), e.value)
    if n == 0:
        raise Undecided("no masking writes found")


def decide_op(ctx, name, e, op, v):
    if op in ("+", "|", "/", "**"):
        ctx.ob(name, False, e, "the inverse variance is changed by %s= %s after loading, which can un-mask or raise it" % (op, show(v)[:80]))
    elif op == "*":
        if boolish(v):
            ctx.ob(name, True, e)
        elif is_const(v):
            ctx.ob(name, v.a[0] in (0, 1, 0.0, 1.0), e, "the inverse variance is multiplied by %s" % show(v))
        else:
            ctx.undecided.append((ctx.cur, "%s: ivar *= %s" % (name, show(v)[:60])))
    else:
        ctx.undecided.append((ctx.cur, "%s: ivar %s= %s" % (name, op, show(v)[:60])))


def boolish(t):
    t = strip_alloc(t)
    if t.op in ("cmp", "not", "inv"):
        return True
    if t.op in ("and", "or"):
        return all(boolish(x) for x in t.a)
    if t.op == "un":
        return t.a[0] in ("~", "not") and boolish(t.a[1])
    if t.op == "bin" and t.a[0] in ("&", "|"):
        return all(boolish(x) for x in t.a[1:])
    if t.op == "bin" and t.a[0] == "*":
        return all(boolish(x) or (is_const(x) and x.a[0] in (0, 1)) for x in t.a[1:])
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "astype":
        return boolish(t.a[0].a[0])
    return t.op == "call" and fname(t.a[0]).rsplit(".", 1)[-1] in ("isfinite", "isnan", "isinf", "logical_not", "logical_and", "logical_or")


def run(ctx):
    ctx.rule("bad-values", "the inverse variance loaded from a DESI file is zero where flux or inverse variance is NaN or infinite, and such flux is replaced; "
             "masks are tracked through the array stores on the way into the spectrum", r_badvalues)
    ctx.rule("negative-flux", "pixels with flux*sqrt(ivar) < -nsig are zeroed (polynomial identity), under no further option", r_negflux)
    ctx.rule("mask", "pixels with a non-zero MASK value are zeroed whenever the file has a MASK", r_mask)
    ctx.rule("resolution", "pixels whose resolution integrates to less than the minimum are zeroed in the constructor and, when not coadding, in the loader", r_resolution)
    ctx.rule("sky-lines", "the two sky-line windows are zeroed in every local spectrum before the fit unless --no-skymask is given (decision on every interval "
             "between the constants of the predicate)", r_sky)
    ctx.rule("and-mask", "BOSS and-mask zeroes the set pixels exactly when requested", r_andmask)
    ctx.rule("monotone", "every write into the inverse variance of an existing spectrum sets pixels to zero or multiplies by a boolean", r_monotone)
