"""C35: BOSS spectra keep each fiber's data together and are filed under its target."""
from ..q import *
from ..arith import canon
from ..logic import *
from ..terms import mkor
from ..ctx import Undecided, Stop
from .c31 import realguards
from .c29 import peel_rows, is_argsort

B = "redrock.external.boss."
RS = B + "read_spectra"
UF = mk("param", RS, "use_frames")
FIB = mk("param", RS, "fiberid")
HDU = {"flux": 0, "ivar": 1, "wd": 4}
NAME = {0: "flux", 1: "ivar", 2: "and-mask", 3: "wavelength", 4: "wdisp", 5: "plugmap"}
SAMPLES = (1, 7, 500, 501, 640, 1000)
UNIT = ("int", "float", "numpy.int64", "numpy.int32", "numpy.asarray", "numpy.array", "round")


def hdu_of(x):
    """n when x is the content of HDU n of the opened file"""
    if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("read", "read_image"):
        b = strip_alloc(x.a[0].a[0])
        if b.op == "sub" and is_const(b.a[1]) and type(b.a[1].a[0]) is int:
            return b.a[1].a[0]
    if x.op == "sub" and is_const(x.a[1]) and x.a[1].a[0] == "FIBERID" or x.op == "sub" and x.a[1].op == "slice":
        return None
    return None


def hdus(t):
    out = set()
    for x in subterms(t):
        n = hdu_of(x)
        if n is not None:
            out.add(n)
    return out


def fiber_subs(t):
    """elements of the FIBERID column used in t"""
    def fibcol(b):
        b = strip(b)
        for cs, x in ites(b):
            x = strip(x)
            while x.op == "sub" and not is_const(x.a[1]):
                x = strip(x.a[0])
            if not (x.op == "sub" and is_const(x.a[1]) and x.a[1].a[0] == "FIBERID"):
                return False
        return True
    return [x for x in subterms(t) if x.op == "sub" and x.a[1].op == "idx" and fibcol(x.a[0])]


def ev(t, env):
    t = strip(t)
    if t in env:
        return env[t]
    if t.op == "const" and type(t.a[0]) in (int, float, bool):
        return t.a[0]
    if t.op == "un" and t.a[0] == "-":
        return -ev(t.a[1], env)
    if t.op == "call" and fname(t.a[0]) in UNIT and cargs(t):
        return ev(cargs(t)[0], env)
    if t.op == "bin":
        v = [ev(x, env) for x in t.a[1:]]
        r = v[0]
        for y in v[1:]:
            o = t.a[0]
            if o in ("%", "//") and y == 0:
                raise Undecided("division by zero")
            r = {"+": lambda: r + y, "-": lambda: r - y, "*": lambda: r * y, "%": lambda: r % y, "//": lambda: r // y}.get(o, lambda: None)()
            if r is None:
                raise Undecided("operator " + o)
        return r
    if t.op == "ite":
        c = t.a[0]
        if c.op == "cmp" and c.a[0] in ("<", "<=", ">", ">=", "==", "!="):
            a, b = ev(c.a[1], env), ev(c.a[2], env)
            v = {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[c.a[0]]
            return ev(t.a[1] if v else t.a[2], env)
    raise Undecided("value " + show(t)[:80])


def split(t):
    """(array, row, [column slices]) of a selected row of an array"""
    row, cols = None, []
    t = strip(strip_alloc(t))
    while True:
        if t.op == "store":
            t = strip(strip_alloc(t.a[0]))
            continue
        if t.op != "sub" or is_const(t.a[1]) and isinstance(t.a[1].a[0], str):
            break
        k = t.a[1]
        if k.op == "tuple" and len(k.a) == 2:
            r, cc = k.a
            full = r.op == "slice" and all(x is NONE for x in r.a)
            if not full:
                if row is not None:
                    return None
                row = r
            cols.append(cc)
        elif k.op == "slice":
            if row is None:
                # columns of a row, seen from outside
                cols.append(k)
            elif not all(x is NONE for x in k.a):
                return None
        else:
            if row is not None:
                return None
            row = k
        t = strip(strip_alloc(t.a[0]))
    return t, row, cols


def fiberval(ctx, row, e, key, what, want):
    fs = set(fiber_subs(row))
    if not fs:
        if row.op == "idx" or is_const(row):
            ctx.ob(key, False, e, "%s is selected by %s, not by the fiber number" % (what, show(row)[:60]))
            return False
        raise Undecided("%s does not depend on a fiber: %s" % (key, show(row)[:80]))
    if len(fs) > 1:
        raise Undecided("several fibers in " + show(row)[:80])
    f = fs.pop()
    bad = None
    for v in SAMPLES:
        try:
            g = ev(row, {f: v})
        except Undecided:
            # a bound that is not a number of the survey
            r2 = strip(row)
            if r2.op == "bin" and r2.a[0] == "%" and any(is_call(x, "len") for x in subterms(r2.a[2])):
                ctx.ob(key, False, e, "%s is fiber number modulo %s, the number of selected fibers" % (what, show(r2.a[2])[:50]))
                return False
            if contains(r2, lambda x: x is FIB) and (r2.op == "call" and r2.a[0].op == "attr" and r2.a[0].a[1] == "index" or is_call(r2, "numpy.searchsorted", "numpy.where", "numpy.nonzero", "numpy.flatnonzero") and not contains(r2, lambda x: is_call(x, "numpy.arange"))):
                ctx.ob(key, False, e, "%s is the position of the fiber among those selected" % what)
                return False
            raise
        if g != want(v):
            bad = (v, g)
            break
    ctx.ob(key, bad is None, e, "" if bad is None else "fiber %d takes %s %s" % (bad[0], what, bad[1]))
    return bad is None


def spectra(ctx):
    I = ctx.interp(RS)
    es = [e for e in calls(I, "Spectrum") if e.d.get("bound")]
    if not es:
        raise Undecided("no spectrum is created")
    return I, es


def frames(t, v):
    return assume(t, {UF: v})


def r_rows(ctx):
    I, es = spectra(ctx)
    for e in es:
        b = e.bound
        for v, mode in ((True, "frames"), (False, "plate")):
            def want(f, v=v):
                return (f - 1) % 500 if v else f - 1
            for k in ("flux", "ivar", "wave"):
                t = frames(b.get(k), v) if b.get(k) is not None else None
                if t is None:
                    ctx.undecided.append((ctx.cur, k))
                    continue
                s = split(t)
                if k == "wave" and v and s is not None:
                    one = [x for x in subterms(s[0]) if is_call(x, "numpy.broadcast_to", "numpy.tile", "numpy.repeat", "numpy.resize") and 3 in hdus(x) and
                           any(y.op == "sub" and is_const(y.a[1]) and type(y.a[1].a[0]) is int and 3 in hdus(y.a[0]) for y in subterms(cargs(x)[0]))]
                    if one:
                        ctx.ob("frames/wave row", False, e, "all fibers of a frame get the wavelengths of one of them")
                        continue
                if s is None or s[1] is None:
                    ctx.undecided.append((ctx.cur, "%s/%s: row of %s" % (mode, k, show(t)[:80])))
                    continue
                if k == "wave" and not v:
                    # one wavelength grid for the plate: any row will do when it is broadcast
                    if contains(s[0], lambda x: is_call(x, "numpy.broadcast_to", "numpy.tile", "numpy.repeat")):
                        continue
                try:
                    fiberval(ctx, s[1], e, "%s/%s row" % (mode, k), "row", want)
                except Undecided as u:
                    ctx.undecided.append((ctx.cur, "%s/%s %s" % (mode, k, u)))
            # the sparse form is that of the same matrix
            for cs, x in ites(strip(b.get("Rcsr"))) if b.get("Rcsr") is not None else ():
                x = strip(strip_alloc(x))
                if x is NONE or b.get("R") is None:
                    continue
                src = None
                if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "tocsr":
                    src = strip(strip_alloc(x.a[0].a[0]))
                elif x.op == "call" and fname(x.a[0]).endswith("csr_matrix") and cargs(x):
                    src = strip(strip_alloc(cargs(x)[0]))
                if src is None:
                    ctx.undecided.append((ctx.cur, "sparse form of the resolution"))
                elif canon(src) == canon(strip(strip_alloc(b["R"]))):
                    ctx.ob("resolution/sparse form", True, e)
                elif src.op == "attr" and src.a[1] == "T" or src.op == "call" and src.a[0].op == "attr" and src.a[0].a[1] == "transpose" or is_call(src, "numpy.transpose"):
                    ctx.ob("resolution/sparse form", False, e, "the sparse form is the transposed resolution matrix")
                else:
                    ctx.undecided.append((ctx.cur, "sparse form of the resolution"))
            # resolution
            R = frames(b.get("R"), v) if b.get("R") is not None else None
            rows = set()
            for x in subterms(R) if R is not None else ():
                if x.op == "sub":
                    s = split(x)
                    if s and s[1] is not None and s[1].op not in ("slice", "cmp") and hdus_root(s[0]) == 4:
                        rows.add(s[1])
            if not rows:
                ctx.undecided.append((ctx.cur, "%s/dispersion used for the resolution" % mode))
            for r in rows:
                try:
                    fiberval(ctx, r, e, "%s/resolution row" % mode, "dispersion row", want)
                except Undecided as u:
                    ctx.undecided.append((ctx.cur, "%s/resolution %s" % (mode, u)))


def hdus_root(t):
    t = strip(strip_alloc(t))
    return hdu_of(t)


def r_mask(ctx, t, e, mode):
    """pixels flagged in the and-mask lose their weight, the others keep theirs"""
    def mask(x, pol=True):
        """is x true (1) where the mask is clear?  None: not a test of the mask"""
        x = strip(strip_alloc(x))
        if x.op in ("not", "un") and x.a[-1] is not x and (x.op == "not" or x.a[0] in ("~", "!")):
            return mask(x.a[-1], not pol)
        if x.op == "call" and fname(x.a[0]).split(".")[-1] in ("logical_not", "invert"):
            return mask(cargs(x)[0], not pol)
        if x.op == "bin" and x.a[0] == "*":
            for p, q in ((x.a[1], x.a[2]), (x.a[2], x.a[1])):
                if is_const(strip(p), 1):
                    return mask(q, pol)
        if x.op == "cmp" and len(x.a) == 3:
            l, o, r = strip(x.a[1]), x.a[0], strip(x.a[2])
            if is_const(l, 0):
                l, r = r, l
            if is_const(r, 0) and hdus(l) == {2}:
                if o == "==":
                    return pol
                if o in ("!=", "<", ">"):
                    return not pol
        return None
    seen = set()
    for x in subterms(t):
        if x.op == "bin" and x.a[0] == "*":
            for y in x.a[1:]:
                m = mask(y)
                if m is not None and (y.id, 0) not in seen:
                    seen.add((y.id, 0))
                    ctx.ob("%s/mask" % mode, m, e, "the pixels flagged in the mask are the ones that keep their weight")
        elif x.op == "store" and is_const(strip(x.a[2]), 0):
            m = mask(x.a[1])
            if m is not None and (x.a[1].id, 1) not in seen:
                seen.add((x.a[1].id, 1))
                ctx.ob("%s/mask" % mode, not m, e, "the pixels that are not flagged in the mask lose their weight")


def r_hdus(ctx):
    I, es = spectra(ctx)
    for e in es:
        b = e.bound
        for v, mode in ((True, "frames"), (False, "plate")):
            for k, n in (("flux", 0), ("ivar", 1)):
                t = b.get(k)
                if t is None:
                    continue
                s = split(frames(t, v))
                if s is None:
                    ctx.undecided.append((ctx.cur, k))
                    continue
                h = hdus(s[0])
                if not h:
                    ctx.undecided.append((ctx.cur, k))
                    continue
                h -= {2}
                ctx.ob("%s/%s" % (mode, k), h == {n}, e, "%s is read from HDU %s (%s)" % (k, sorted(h), ", ".join(NAME.get(x, "?") for x in sorted(h))))
                if k == "ivar":
                    r_mask(ctx, s[0], e, mode)
            t = b.get("wave")
            if t is not None:
                s = split(frames(t, v))
                if s is not None:
                    h = hdus(s[0])
                    if v:
                        ctx.ob("frames/wave", 3 in h or not h, e, "the wavelengths of a frame are read from HDU %s" % sorted(h)) if h else ctx.undecided.append((ctx.cur, "wave"))
                    else:
                        ks = {x.a[1].a[0] for x in subterms(s[0]) if x.op == "sub" and is_const(x.a[1]) and isinstance(x.a[1].a[0], str)}
                        if {"COEFF0", "COEFF1"} <= ks:
                            ctx.ob("plate/wave", True, e)
                        else:
                            ctx.undecided.append((ctx.cur, "plate wavelengths"))
            # the crop
            cs = {}
            for k in ("flux", "ivar", "wave"):
                if b.get(k) is None:
                    continue
                s = split(frames(b[k], v))
                if s is not None:
                    cs[k] = tuple(canon(x) for x in s[2])
            R = b.get("R")
            if R is not None:
                w = set()
                for x in subterms(frames(R, v)):
                    if x.op == "sub":
                        s = split(x)
                        if s and hdus_root(s[0]) == 4 and s[1] is None and s[2]:
                            w.add(tuple(canon(y) for y in s[2]))
                if len(w) == 1:
                    cs["resolution"] = w.pop()
            ref = cs.get("wave")
            for k, c in cs.items():
                if k == "wave":
                    continue
                if len(c) != len(ref) and (not c or not ref):
                    ctx.ob("%s/crop %s" % (mode, k), False, e, "%s and the wavelengths are not cropped alike" % k)
                elif len(c) == len(ref):
                    ctx.ob("%s/crop %s" % (mode, k), c == ref, e, "%s and the wavelengths are not cropped to the same pixels" % k)
                else:
                    ctx.undecided.append((ctx.cur, "crop of " + k))


def r_file(ctx):
    """a spectrum is filed under the target of its fiber"""
    I, es = spectra(ctx)
    rs = {strip_alloc(e.result) for e in es}
    n = 0
    for a in I.effects:
        if a.kind != "append" or not isinstance(a.value, T) or strip_alloc(a.value) not in rs:
            continue
        b = strip_alloc(a.base)
        # the newest version of the list of that key
        k = None
        for x in subterms(a.base):
            if x.op == "sub" and any(fiber_subs(x.a[1])) and not fiber_subs(x.a[0]):
                k = x.a[1]
                break
            if x.op == "store" and fiber_subs(x.a[1]):
                k = x.a[1]
                break
            if x.op == "sub" and contains(x.a[1], lambda y: is_call(y, B + "platemjdfiber2targetid", "platemjdfiber2targetid")):
                k = x.a[1]
                break
            if is_call(x, "setdefault") or x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "setdefault":
                k = cargs(x)[0]
                break
        if k is None:
            raise Undecided("key of the list of spectra")
        for cs, t in ites(strip(k)):
            t = strip(t)
            for v, mode in ((True, "frames"), (False, "plate")):
                t2 = strip(frames(t, v))
                if is_call(t2, B + "platemjdfiber2targetid"):
                    n += 1
                    d = {x.a[0]: x.a[1] for x in t2.a[1:] if x.op == "kw"}
                    f = d.get("fiber")
                    if f is None and len(cargs(t2)) == 3:
                        f = cargs(t2)[2]
                    if f is None:
                        raise Undecided("fiber of the identifier")
                    fiberval(ctx, f, a, "%s/identifier of the fiber" % mode, "the identifier of fiber", lambda x: x)
                    for nm, i in (("plate", 0), ("mjd", 1)):
                        p = d.get(nm)
                        hk = {x.a[1].a[0] for x in subterms(p) if x.op == "sub" and is_const(x.a[1]) and x.a[1].a[0] in ("PLATEID", "MJD", "PLATE")} if p is not None else set()
                        if len(hk) == 1:
                            h = hk.pop()
                            ctx.ob("identifier/" + nm, (h == "MJD") == (nm == "mjd"), a, "%s is taken from %s" % (nm, h))
                elif t2.op == "sub" and t2.a[0].op == "sub":
                    n += 1
                    src = t2.a[0].a[1]
                    fiberval(ctx, t2.a[1], a, "%s/THING_ID row" % mode, "THING_ID row", lambda x: x - 1)
                    fl = split(frames(es[0].bound["flux"], v)) if es[0].bound.get("flux") is not None else None
                    hs = [strip_alloc(strip_alloc(x.a[0].a[0]).a[0]) for x in subterms(fl[0]) if hdu_of(x) is not None] if fl else []
                    op = list({x for x in hs if is_call(x, "fitsio.FITS", "astropy.io.fits.open")})
                    if len(op) == 1:
                        f = cargs(op[0])[0]
                        ctx.ob("%s/THING_ID file" % mode, canon(f) == canon(src), a, "THING_ID is that of %s, the spectra are those of %s" % (show(src)[:50], show(f)[:50]))
                else:
                    ctx.undecided.append((ctx.cur, "identifier " + show(t2)[:80]))
    if not n:
        raise Undecided("filing of the spectra")


def r_id(ctx):
    """plate, mjd and fiber are recovered from the identifier"""
    F, G = B + "platemjdfiber2targetid", B + "targetid2platemjdfiber"
    I = ctx.interp(F)
    r = [e for e in I.effects if e.kind == "return"]
    if len(r) != 1:
        raise Undecided("identifier")
    smp = ((3586, 55181, 1), (3586, 55181, 1000), (10000, 58999, 640), (266, 51602, 12))
    J = ctx.interp(G)
    r2 = [e for e in J.effects if e.kind == "return"]
    if len(r2) != 1 or strip_alloc(r2[0].value).op != "tuple":
        raise Undecided("inverse of the identifier")
    for p, m, f in smp:
        t = ev(r[0].value, {mk("param", F, "plate"): p, mk("param", F, "mjd"): m, mk("param", F, "fiber"): f})
        ctx.ob("identifier", t == p * 1000000000 + m * 10000 + f, r[0], "plate %d, mjd %d, fiber %d have identifier %s" % (p, m, f, t))
        o = tuple(ev(x, {mk("param", G, "targetid"): t}) for x in strip_alloc(r2[0].value).a)
        ctx.ob("inverse", o == (p, m, f), r2[0], "identifier %s is read back as %s" % (t, o))


def r_kept(ctx):
    """every selected spectrum of a target is kept"""
    I, es = spectra(ctx)
    rs = {strip_alloc(e.result) for e in es}
    n = 0
    TI = mk("param", RS, "targetids")
    for a in I.effects:
        if a.kind == "append" and isinstance(a.value, T) and strip_alloc(a.value) in rs:
            n += 1
            for g in realguards(a):
                alts = g.a if g.op == "or" else [g]
                sel = [x for x in alts if x.op == "cmp" and x.a[0] == "in" and strip(x.a[2]) is TI]
                non = [x for x in alts if x.op == "cmp" and x.a[0] == "is" and TI in x.a and NONE in x.a]
                if sel and non and len(alts) == 2:
                    ctx.ob("selection", True, a)
                    continue
                if g.op == "not" and g.a[0].op == "cmp" and g.a[0].a[0] == "in" and fiber_subs(g.a[0].a[1]) and not contains(g.a[0].a[2], lambda y: y is TI):
                    ctx.ob("all observations", False, a, "only the first spectrum of a target is kept")
                    continue
                if sel or non:
                    ctx.ob("selection", False, a, "spectra are kept when %s" % show(g)[-80:]) if len(alts) == 1 and non else ctx.undecided.append((ctx.cur, "selection " + show(g)[-80:]))
                    continue
                ctx.undecided.append((ctx.cur, "spectra are skipped: " + show(g)[-80:]))
        if a.kind == "setitem" and isinstance(a.d.get("key"), T) and isinstance(a.value, T) and a.value is not None:
            v = strip_alloc(a.value)
            if v.op == "list" and (fiber_subs(a.key) or contains(a.key, lambda y: is_call(y, B + "platemjdfiber2targetid"))):
                n += 1
                gs = realguards(a)
                for g in gs:
                    own = [x for x in g.a if x.op == "not" and x.a[0].op == "cmp" and x.a[0].a[0] == "in" and canon(x.a[0].a[1]) == canon(a.key)] if g.op == "or" else []
                    if own and all(x in own or not fiber_subs(x) and not contains(x, lambda y: y is a.key or is_call(y, "len", "builtins.len")) for x in g.a):
                        ctx.ob("all observations", False, a, "the list of spectra of a target starts anew when " + show(mkor(*[x for x in g.a if x not in own]))[-60:])
                once = [g for g in gs if g.op == "not" and g.a[0].op == "cmp" and g.a[0].a[0] == "in" and canon(g.a[0].a[1]) == canon(a.key)]
                if once:
                    ctx.ob("all observations", True, a)
                elif not [g for g in gs if not contains(g, lambda y: y is TI)]:
                    ctx.ob("all observations", False, a, "the list of spectra of a target starts anew with every spectrum: earlier observations are dropped")
                else:
                    ctx.undecided.append((ctx.cur, "start of the list of spectra"))
    # every file is read
    for e in I.effects:
        if e.kind == "call" and fname(e.fn) in ("fitsio.FITS", "astropy.io.fits.open"):
            t = e.result.a[1] if e.result.op == "alloc" else e.result
            f = strip(cargs(t)[0]) if cargs(t) else NONE
            q = seq_of(f)
            if q is not None:
                cut = q.op == "sub" and q.a[1].op == "slice" and not all(x is NONE for x in q.a[1].a[:2])
                ctx.ob("all files", not cut, e, "only some of the files are read: " + show(q)[-60:])
    if not n:
        raise Undecided("list of spectra")


def seq_of(t):
    """the sequence an element comes from"""
    t = strip(t)
    if t.op == "sub" and t.a[1].op == "idx":
        return strip(t.a[0])
    return None


def allsorted(t):
    return all(is_call(strip(x), "sorted", "numpy.unique", "numpy.sort") for cs, x in ites(t))


def r_targets(ctx):
    I = ctx.interp(RS)
    ts = [e for e in calls(I, "Target") if e.d.get("bound")]
    if not ts:
        raise Undecided("no target is created")
    seqs = set()
    for e in ts:
        i, s = strip(e.bound.get("targetid")), strip(e.bound.get("spectra"))
        if s.op == "sub":
            ctx.ob("target/own spectra", canon(s.a[1]) == canon(i), e, "target %s gets the spectra of %s" % (show(i)[-50:], show(s.a[1])[-50:]))
        else:
            ctx.undecided.append((ctx.cur, "spectra of the target"))
        q = seq_of(i)
        if q is not None:
            seqs.add(q)
        m = e.bound.get("meta")
        if m is not None:
            for x in subterms(m):
                if x.op == "store" and is_const(x.a[1], "BRICKNAME"):
                    v = strip(x.a[2])
                    if v.op == "sub":
                        ctx.ob("target/own brick", canon(v.a[1]) == canon(i), e, "the brick name is that of %s" % show(v.a[1])[-50:])
    if len(seqs) != 1:
        raise Undecided("order of the targets")
    ref = seqs.pop()
    n = 0
    for e in I.effects:
        if e.kind != "setitem" or not is_const(e.d.get("key")) or e.d["key"].a[0] not in ("TARGETID", "BRICKNAME"):
            continue
        r = strip_alloc(e.base)
        while r.op == "store":
            r = strip_alloc(r.a[0])
        if not is_call(r, "astropy.table.Table", "Table", "astropy.table.table.Table"):
            continue
        n += 1
        k = e.key.a[0]
        v = strip(strip_alloc(e.value))
        while v.op == "call" and fname(v.a[0]) in ("numpy.array", "numpy.asarray", "list", "astropy.table.Column") and cargs(v):
            v = strip(strip_alloc(cargs(v)[0]))
        if v.op == "comp":
            it = v.a[3] if len(v.a) > 3 else None
            el = strip(v.a[1])
            q = None
            if k == "BRICKNAME" and el.op == "sub":
                q = seq_of(el.a[1])
            elif k == "TARGETID":
                q = seq_of(el)
                if q is None and el.op in ("attr", "sub"):
                    q = None
            if q is None:
                ctx.undecided.append((ctx.cur, k))
                continue
            if canon(q) != canon(ref) and allsorted(q) and allsorted(ref):
                ctx.undecided.append((ctx.cur, k + " in another sorted list"))
                continue
            ctx.ob("table/" + k, canon(q) == canon(ref) and v.a[2] is TRUE, e, "%s runs over %s, the targets over %s" % (k, show(q)[-50:], show(ref)[-50:]))
        elif v.op in ("values", "keys", "items") or v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("values", "keys", "items"):
            ctx.ob("table/" + k, False, e, "%s is in the order of a dictionary, the targets are sorted" % k)
        elif k == "TARGETID" and canon(v) == canon(ref):
            ctx.ob("table/TARGETID", True, e)
        elif k == "TARGETID" and allsorted(v) and allsorted(ref):
            ctx.undecided.append((ctx.cur, "TARGETID in another sorted list"))
        elif k == "TARGETID" and (v.op == "loop" or is_call(v, "sorted", "numpy.unique", "numpy.sort", "reversed")):
            ctx.ob("table/TARGETID", False, e, "the identifiers are %s, the targets %s" % (show(v)[-60:], show(ref)[-60:]))
        else:
            ctx.undecided.append((ctx.cur, k + " " + show(v)[:60]))
    if not n:
        raise Undecided("metadata table")


def r_best(ctx):
    F = B + "rrboss"
    I = ctx.interp(F)
    ws = [e for e in I.effects if e.kind == "call" and fname(e.result.a[0] if e.result.op == "call" else e.result) == B + "write_zbest" or e.kind == "call" and e.d.get("bound") and is_call(e.result, B + "write_zbest")]
    if not ws:
        raise Undecided("rrboss writes no catalog")
    for e in ws:
        z = (e.d.get("bound") or {}).get("zbest")
        t, bad = peel_rows(z)
        key = "one row per target, the best fit"
        if bad is not None:
            ctx.ob(key, False, e, "the table is changed by %s()" % bad.a[0])
            continue
        if t.op != "sub":
            raise Undecided("rows of the catalog")
        c = strip(t.a[1])
        if is_argsort(c):
            ctx.ob(key, False, e, "rows are sorted by %s" % show(c)[-60:])
            continue
        if c.op == "cmp":
            col = [y.a[1].a[0] for y in map(strip, c.a[1:]) if y.op == "sub" and is_const(y.a[1])]
            k = [y.a[0] for y in c.a[1:] if is_const(y)]
            ok = c.a[0] == "==" and col == ["znum"] and k == [0]
            if not ok and c.a[0] == "<" and col == ["znum"] and k == [1] and is_const(c.a[2]):
                ok = True
            if len(col) != 1 or len(k) != 1:
                raise Undecided("rows of the catalog: " + show(c)[:80])
            ctx.ob(key, ok, e, "the catalog has the rows with %s" % show(c)[-60:])
        else:
            raise Undecided("rows of the catalog: " + show(c)[:80])


def run(ctx):
    ctx.rule("row", "flux, inverse variance, wavelength and dispersion of a spectrum are the row of its fiber, for plates and for frames", r_rows)
    ctx.rule("hdu", "each quantity is read from its own extension and cropped to the same pixels", r_hdus)
    ctx.rule("target", "a spectrum is filed under the identifier of its fiber in its file", r_file)
    ctx.rule("kept", "every selected observation of a target is kept", r_kept)
    ctx.rule("identifier", "the identifier is computed from plate, MJD and fiber and gives them back", r_id)
    ctx.rule("table", "targets, their spectra and the metadata table go through the same identifiers in the same order", r_targets)
    ctx.rule("catalog", "the catalog has the best fit of every target", r_best)
