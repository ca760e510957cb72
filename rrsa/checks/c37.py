"""C37: templates and archetypes carry the wavelengths, vectors and identity of their file."""
from ..q import *
from ..arith import canon
from ..logic import *
from ..terms import rewrite, mkcmp, mkor, mkand
from ..ctx import Undecided, Stop

TI = "redrock.templates.Template.__init__"
AI = "redrock.archetypes.Archetype.__init__"
PROGS = ("rrgaltemplate", "rrqsotemplate", "rrstartemplate", "rrstarwdtemplate", "rrconvertSDSStemplates")
CAST = ("numpy.asarray", "numpy.array", "numpy.ascontiguousarray", "numpy.float64")
F64 = ("numpy.float64", "builtins.float", "f8", "float64", "float", "=f8", "d")


# ------------------------------------------------------------------ the file as symbols
def opened(x):
    return x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] in ("open", "FITS") and fname(x.a[0]) != "builtins.open"


def isfile(x):
    x = strip_alloc(x)
    if x.op == "ite":
        return isfile(x.a[1]) and isfile(x.a[2])
    return opened(x)


class World(object):
    """the terms of a reader when its file has exactly the given keywords"""
    def __init__(self, q, hdu, have, exc, vals=None, redshifts=True):
        self.q, self.hdu, self.have, self.exc, self.vals, self.z = q, hdu, have, exc, vals or {}, redshifts
        self.memo = {}
        self.fn = mk("param", q, "filename")

    def ext(self, x):
        """name of the extension x is the HDU of"""
        return x.a[1].a[0] if x.op == "sub" and is_const(x.a[1]) and isinstance(x.a[1].a[0], (str, int)) and isfile(x.a[0]) else None

    def absent(self, x):
        """x cannot be read from the file"""
        return x.op == "param" and x.a[0] == "file" and x.a[1].startswith("missing ") or not self.z and self.ext(x) == "REDSHIFTS"

    def hdr(self, x):
        return self.ext(x.a[0]) if x.op == "attr" and x.a[1] == "header" else None

    def key(self, k):
        if k in self.vals:
            return const(self.vals[k])
        return mk("param", "file", k)

    def f(self, x):
        if x.op == "alloc" and len(x.a) > 1 and isinstance(x.a[1], T) and (is_const(x.a[1]) or x.a[1].op == "param"):
            return x.a[1]
        if x.op == "exc":
            return TRUE if self.exc else FALSE
        if x.op == "cmp" and x.a[0] == "is" and self.fn in x.a[1:] and NONE in x.a[1:]:
            return FALSE
        if x.op == "call" and fname(x.a[0]).endswith(("path.exists", "path.isfile")):
            return TRUE
        if x.op == "cmp" and x.a[0] in ("in", "not in") and is_const(x.a[1]):
            c = strip(x.a[2])
            if c.op == "call" and c.a[0].op == "attr" and c.a[0].a[1] == "keys":
                c = strip(c.a[0].a[0])
            r = None
            if c.op == "attr" and c.a[1] == "header" and self.ext(c.a[0]) is not None:
                r = x.a[1].a[0] in self.have
            elif isfile(c) and x.a[1].a[0] == "REDSHIFTS":
                r = self.z
            if r is not None:
                return TRUE if r == (x.a[0] == "in") else FALSE
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get" and self.hdr(x.a[0].a[0]) is not None and cargs(x) and is_const(cargs(x)[0]):
            k = cargs(x)[0].a[0]
            if k in self.have:
                return self.key(k)
            return ckw(x, "default", 1, NONE)
        if x.op == "sub" and is_const(x.a[1]) and self.hdr(x.a[0]) is not None:
            k = x.a[1].a[0]
            if self.hdr(x.a[0]) != self.hdu:
                return mk("param", "file", "%s of extension %s" % (k, self.hdr(x.a[0])))
            return self.key(k) if k in self.have or k in ("NAXIS1", "NAXIS2", "NAXIS") else mk("param", "file", "missing " + str(k))
        if x.op == "cmp" and all(is_const(y) for y in x.a[1:]) and x.a[0] in ("==", "!="):
            return const((x.a[1].a[0] == x.a[2].a[0]) == (x.a[0] == "=="))
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("strip", "upper") and not cargs(x) and is_const(x.a[0].a[0]) and isinstance(x.a[0].a[0].a[0], str):
            return const(getattr(x.a[0].a[0].a[0], x.a[0].a[1])())
        if x.op == "call" and fname(x.a[0]) == "builtins.bool" and len(cargs(x)) == 1 and is_const(cargs(x)[0]):
            return const(bool(cargs(x)[0].a[0]))
        if x.op == "ite" and is_const(x.a[0]):
            return x.a[1] if x.a[0].a[0] else x.a[2]
        return x

    def __call__(self, t):
        return rewrite(t, self.f, self.memo)

    def cond(self, g):
        g = self(g)
        if g is self.fn:
            return TRUE
        if g.op == "not" and g.a[0] is self.fn:
            return FALSE
        if is_const(g):
            return TRUE if g.a[0] else FALSE
        return g


def final(I, W, attr):
    """[(value, conditions, effect)]: what self.<attr> may be at the end"""
    alts = []
    for e in I.effects:
        if e.kind != "setattr" or e.d.get("attr") != attr:
            continue
        gs = [(W.cond(g), k) for g, k in e.guards]
        if any(g is FALSE for g, k in gs):
            continue
        if W.exc and contains(W(e.value), lambda x: W.absent(x)):
            continue
        res = [g for g, k in gs if g is not TRUE and k not in ("raise", "loopexit")]
        alts = ([] if not res else [a for a in alts if not set(x.id for x in res) <= set(x.id for x in a[1])]) + [(W(e.value), res, e)]
    return alts


def uncast(t, narrow=None):
    """t without copies and casts; narrowing casts are listed"""
    while True:
        t = strip_alloc(t)
        if t.op == "call" and fname(t.a[0]) in CAST and cargs(t):
            d = ckw(t, "dtype", 1)
            if d is not None and narrow is not None and not (is_const(d, *F64) or fname(d) in F64):
                narrow.append(d)
            t = cargs(t)[0]
            continue
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("astype", "copy", "newbyteorder", "byteswap", "view"):
            d = cargs(t)[0] if cargs(t) else ckw(t, "dtype")
            if t.a[0].a[1] == "astype" and d is not None and narrow is not None and not (is_const(d, *F64) or fname(d) in F64):
                narrow.append(d)
            t = t.a[0].a[0]
            continue
        if t.op == "call" and fname(t.a[0]) in ("numpy.astype", "numpy.copy") and cargs(t):
            d = ckw(t, "dtype", 1)
            if fname(t.a[0]) == "numpy.astype" and d is not None and narrow is not None and not (is_const(d, *F64) or fname(d) in F64):
                narrow.append(d)
            t = cargs(t)[0]
            continue
        if t.op == "call" and fname(t.a[0]).endswith("native_endian"):
            t = cargs(t)[0] if cargs(t) else ckw(t, "data")
            continue
        return t


def dataof(W, t, col=None):
    """extension whose data t is"""
    t = uncast(t)
    if col is not None:
        if t.op != "sub" or not is_const(t.a[1], col):
            return None
        t = uncast(t.a[0])
    if t.op == "attr" and t.a[1] == "data":
        return W.ext(t.a[0])
    return None


CR, CD = mk("param", "file", "CRVAL1"), mk("param", "file", "CDELT1")
AR = mk("param", "grid", "0..n-1")
N = mk("param", "grid", "n")


def grid(W, t, isflux):
    """t with the pixel numbers as a symbol"""
    def g(x):
        if x.op == "alloc":
            return x.a[1] if len(x.a) > 1 and isinstance(x.a[1], T) else x
        if x.op == "param" and x.a[0] == "file" and x.a[1] == "NAXIS1":
            return N
        if x.op == "sub" and is_const(x.a[1], 1, -1) and x.a[0].op == "attr" and x.a[0].a[1] == "shape" and isflux(x.a[0].a[0]):
            return N
        if x.op == "sub" and is_const(x.a[1]) and x.a[0].op == "attr" and x.a[0].a[1] == "shape" and isflux(x.a[0].a[0]):
            return mk("param", "grid", "number of spectra")
        if x.op == "call" and fname(x.a[0]) == "builtins.len" and cargs(x) and cargs(x)[0].op == "sub" and is_const(cargs(x)[0].a[1], 0) and isflux(cargs(x)[0].a[0]):
            return N
        if x.op == "call" and fname(x.a[0]) in ("numpy.arange", "builtins.range"):
            a = cargs(x)
            if len(a) == 1 and a[0] is N or len(a) == 2 and is_const(a[0], 0) and a[1] is N:
                return AR
            if len(a) == 2 and is_const(a[0]) and type(a[0].a[0]) is int and canon(a[1]) == canon(mkbin("+", N, a[0])):
                return mkbin("+", AR, a[0])
            if a and all(known(y) for y in a):
                return mk("param", "grid", "arange(%s)" % ", ".join(show(y)[-40:] for y in a))
        if x.op == "call" and fname(x.a[0]) == "numpy.linspace":
            a = cargs(x)
            if len(a) >= 3 and a[2] is N and ckw(x, "endpoint") in (None, TRUE):
                ok = canon(mkbin("-", a[1], a[0])) == canon(mkbin("*", CD, mkbin("-", N, const(1))))
                return mkbin("+", a[0], mkbin("*", AR, CD if ok else mk("param", "grid", "(%s - %s)/(n-1)" % (show(a[1])[-40:], show(a[0])[-40:]))))
        if x.op == "call" and fname(x.a[0]) in CAST and cargs(x):
            return cargs(x)[0]
        if x.op == "call" and fname(x.a[0]) == "numpy.power" and len(cargs(x)) == 2:
            return mkbin("**", *cargs(x))
        return x
    return rewrite(t, g)


def known(t):
    return not contains(t, lambda x: x.op in ("call", "sub", "attr", "mu", "loop", "idx", "store", "comp"))


def r_wave(ctx, q, hdu, isflux):
    I = ctx.interp(q)
    base = {"CRVAL1", "CDELT1", "RRTYPE", "VERSION", "RRSUBTYP", "RRMETHOD", "RRIGM"}
    lin = canon(mkbin("+", CR, mkbin("*", CD, AR)))
    cases_ = [("log", base | {"LOGLAM"}, {"LOGLAM": 1}), ("linear", base | {"LOGLAM"}, {"LOGLAM": 0})]
    if q == TI:
        cases_.append(("no-LOGLAM", base, {}))
    for name, have, vals in cases_:
        W = World(q, hdu, have, False, vals)
        alts = final(I, W, "wave")
        if not alts:
            ctx.undecided.append((ctx.cur, "wave is not set"))
            continue
        for v, cs, e in alts:
            narrow = []
            u = uncast(v, narrow)
            if u.op == "bin" or u.op == "call":
                for x in subterms(u):
                    if x.op == "call":
                        uncast(x, narrow)
            ctx.ob("wave/%s/precision" % name, not narrow, e, "wavelengths are kept as %s" % (show(narrow[0]) if narrow else ""))
            g = grid(W, v, lambda x: isflux(W, x))
            g = uncast(g)
            islog = g.op == "bin" and g.a[0] == "**" and is_const(g.a[1], 10, 10.0)
            if islog:
                g = uncast(g.a[2])
            elif g.op == "call" and fname(g.a[0]) in ("numpy.exp", "numpy.exp2", "numpy.expm1", "numpy.log10", "numpy.log"):
                ctx.ob("wave/%s/scale" % name, False, e, "the wavelengths are %s of the grid" % fname(g.a[0]))
                continue
            elif name == "log" and not known(g):
                ctx.undecided.append((ctx.cur, "wavelengths " + show(g)[:60]))
                continue
            if cs and not (islog == (name == "log")):
                ctx.undecided.append((ctx.cur, "wavelengths under " + show(cs[0])[:60]))
                continue
            ctx.ob("wave/%s/scale" % name, islog == (name == "log"), e, "the wavelengths of a file with %s are %s" % (
                {"log": "LOGLAM=1", "linear": "LOGLAM=0", "no-LOGLAM": "no LOGLAM"}[name], "10 to the power of its grid" if islog else "its grid itself"))
            same = canon(g) == lin
            if same or known(g):
                ctx.ob("wave/%s/grid" % name, same, e, "the wavelength grid is %s, not CRVAL1 + CDELT1 * (pixel number)" % show(g)[:120])
            else:
                ctx.undecided.append((ctx.cur, "grid " + show(g)[:60]))


def full_have():
    return {"CRVAL1", "CDELT1", "RRTYPE", "VERSION", "RRSUBTYP", "RRMETHOD", "RRIGM", "LOGLAM"}


def peel_str(t):
    while True:
        t = uncast(t)
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("strip", "upper", "rstrip", "lstrip", "decode"):
            t = t.a[0].a[0]
        elif t.op == "call" and fname(t.a[0]) in ("builtins.str", "numpy.char.strip") and cargs(t):
            t = cargs(t)[0]
        else:
            return t


KEYS = [("_rrtype", "RRTYPE", None), ("_subtype", "RRSUBTYP", ""), ("_version", "VERSION", "unknown"), ("_method", "RRMETHOD", "PCA"), ("_igm_model", "RRIGM", None)]


def r_keys(ctx):
    I = ctx.interp(TI)
    for attr, k, dflt in KEYS:
        W = World(TI, "BASIS_VECTORS", full_have(), False)
        alts = final(I, W, attr)
        if not alts:
            ctx.undecided.append((ctx.cur, attr + " is not set"))
        for v, cs, e in alts:
            p = peel_str(v)
            if p.op == "param" and p.a[0] == "file":
                ctx.ob("key/" + attr, p.a[1] == k, e, "%s comes from keyword %s of the file" % (attr.strip("_"), p.a[1]))
            elif is_const(p) or p.op == "param":
                if cs:
                    ctx.undecided.append((ctx.cur, attr))
                else:
                    ctx.ob("key/" + attr, False, e, "%s is %s although the file has the keyword %s" % (attr.strip("_"), show(p)[:40], k))
            else:
                ctx.undecided.append((ctx.cur, attr))
        if dflt is None:
            continue
        W = World(TI, "BASIS_VECTORS", full_have() - {k}, True)
        for v, cs, e in final(I, W, attr):
            p = peel_str(v)
            if is_const(p):
                ctx.ob("default/" + attr, p.a[0] == dflt, e, "%s of a file without %s is %r" % (attr.strip("_"), k, p.a[0]))
            elif p.op == "param" and p.a[0] == "file":
                ctx.ob("default/" + attr, False, e, "%s of a file without %s: %s" % (attr.strip("_"), k, p.a[1]))
            else:
                ctx.undecided.append((ctx.cur, attr))


def r_flux(ctx):
    I = ctx.interp(TI)
    W = World(TI, "BASIS_VECTORS", full_have(), False)
    for v, cs, e in final(I, W, "flux") or [(NONE, [], TI)]:
        narrow = []
        u = uncast(v, narrow)
        ctx.ob("vectors/precision", not narrow, e, "basis vectors are kept as %s" % (show(narrow[0]) if narrow else ""))
        x = dataof(W, u)
        if x is not None:
            ctx.ob("vectors", x == "BASIS_VECTORS", e, "basis vectors come from extension %s" % x)
        elif u.op in ("sub", "bin", "un") and contains(u, lambda y: y.op == "attr" and y.a[1] == "data"):
            ctx.ob("vectors", False, e, "basis vectors are not those of the file: " + show(u)[:20] + " … " + show(u)[-40:])
        else:
            ctx.undecided.append((ctx.cur, "vectors"))
    # redshifts of the file win over any default
    n = 0
    for v, cs, e in final(I, W, "_redshifts"):
        n += 1
        x = dataof(W, v)
        if x is not None:
            ctx.ob("redshifts", x == "REDSHIFTS", e, "redshifts come from extension %s" % x)
        elif is_const(uncast(v)) or contains(v, lambda y: is_call(y, "numpy.arange", "numpy.linspace", "numpy.logspace")):
            ctx.ob("redshifts", False, e, "the redshifts of the file are replaced by " + show(v)[:60])
        elif uncast(v).op in ("bin", "un", "sub"):
            ctx.ob("redshifts", False, e, "the redshifts are not those of the file: " + show(v)[:60])
        else:
            ctx.undecided.append((ctx.cur, "redshifts"))
    if not n:
        ctx.undecided.append((ctx.cur, "redshifts are not set"))
    # without REDSHIFTS: grids on the scale of their class
    for typ, log in (("GALAXY", True), ("QSO", True), ("STAR", False)):
        W = World(TI, "BASIS_VECTORS", full_have(), True, {"RRTYPE": typ}, redshifts=False)
        alts = final(I, W, "_redshifts")
        rest = mkor(*[mkand(*cs) for v, cs, e in alts if not is_const(uncast(v))])
        for v, cs, e in alts:
            u = uncast(v)
            if is_const(u):
                if not cs and not b_taut(rest):
                    ctx.ob("grid/%s/set" % typ, False, e, "%s templates without redshifts get none" % typ)
                continue
            out = u.op == "bin" and contains(u, lambda y: y.op == "bin" and y.a[0] == "**" and is_const(y.a[1], 10, 10.0))
            ar = [y for y in subterms(u) if is_call(y, "numpy.arange", "numpy.linspace")]
            if len(ar) != 1 or len(cargs(ar[0])) < 3:
                ctx.undecided.append((ctx.cur, "redshift grid"))
                continue
            a = cargs(ar[0])
            inn = [contains(y, lambda z: z.op == "call" and fname(z.a[0]) == "numpy.log10") for y in a[:2]]
            ctx.ob("grid/%s/scale" % typ, inn == [log, log] and out == log, e, "the redshift grid of %s templates is not %s" % (typ, "logarithmic in 1+z" if log else "linear"))
            if log and out and inn == [True, True]:
                def lg(y):
                    return mk("param", "log", canonkey(cargs(y)[0])) if y.op == "call" and fname(y.a[0]) == "numpy.log10" else y
                P = mk("param", "grid", "log")
                body = rewrite(u, lambda y: P if y is ar[0] or y.op == "alloc" and y.a[1] is ar[0] else y)
                ctx.ob("grid/%s/inverse" % typ, canon(body) == canon(mkbin("-", mkbin("**", const(10), P), const(1))), e,
                       "the redshift grid of %s templates is %s of the logarithmic grid" % (typ, show(body)[:60]))
                for y, w in zip(a[:2], ("start", "end")):
                    y = uncast(y)
                    if y.op == "call" and fname(y.a[0]) == "numpy.log10" and contains(y, lambda z: z.op == "sub"):
                        arg = cargs(y)[0]
                        fl = [z for z in subterms(arg) if is_call(z, "builtins.float", "numpy.float64")]
                        if len(fl) == 1:
                            S = mk("param", "grid", "z")
                            b = rewrite(arg, lambda z: S if z is fl[0] else z)
                            ctx.ob("grid/%s/%s" % (typ, w), canon(b) == canon(mkbin("+", const(1), S)), e, "the %s of the range given is taken as log10(%s)" % (w, show(b)[:40]))


def canonkey(t):
    return repr(canon(t))


def r_given(ctx):
    """a template given as arrays keeps each argument as its own attribute"""
    I = ctx.interp(TI)
    want = {"_rrtype": "spectype", "_redshifts": "redshifts", "wave": "wave", "flux": "flux", "_subtype": "subtype", "_method": "method", "_version": "version"}
    fn = mk("param", TI, "filename")
    env = {mkcmp("is", fn, NONE): True, mk("cmp", "==", fn, NONE): True}
    for attr, p in sorted(want.items()):
        n = 0
        for e in effs(I, "setattr"):
            if e.attr != attr:
                continue
            if is_const(assume(guard_term(e), env), False) or not contains(guard_term(e), lambda x: x is fn):
                continue
            for cs, v in ites(strip(assume(e.value, env))):
                v = uncast(v)
                n += 1
                if v.op == "param" and v.a[0] == TI:
                    ctx.ob("given/" + attr, v.a[1] == p, e, "%s of a template given as arrays is its %s" % (attr.strip("_"), v.a[1]))
                elif is_const(v):
                    ctx.ob("given/" + attr, bool(cs), e, "%s of a template given as arrays is %s" % (attr.strip("_"), show(v)))
                elif contains(v, lambda x: x.op == "param" and x.a[0] == TI and x.a[1] == p):
                    ctx.ob("given/" + attr, True, e)
                else:
                    ctx.undecided.append((ctx.cur, attr))
        if not n:
            ctx.undecided.append((ctx.cur, attr + " is not set"))
    # accessors
    for cls, m in (("redrock.templates.Template", {"template_type": "_rrtype", "sub_type": "_subtype", "redshifts": "_redshifts", "nbasis": "_nbasis", "nwave": "_nwave",
                                                 "igm_model": "_igm_model", "method": "_method"}),
                   ("redrock.archetypes.Archetype", {"template_type": "_rrtype", "sub_type": "_subtype", "full_type": "_full_type", "version": "_version", "filename": "_filename"})):
        for name, attr in sorted(m.items()):
            q = cls + "." + name
            try:
                P = ctx.interp(q)
            except (Undecided, KeyError):
                ctx.undecided.append((ctx.cur, q))
                continue
            r = strip(P.ret) if P.ret is not None else NONE
            if r.op == "attr":
                ctx.ob("accessor/%s" % name, r.a[1] == attr, q, "%s returns %s" % (q, r.a[1]))
            elif is_const(r):
                ctx.ob("accessor/%s" % name, False, q, "%s returns %s" % (q, show(r)))
            else:
                ctx.undecided.append((ctx.cur, q))
    # numbers of vectors and of wavelengths
    for q, pairs in ((TI, (("_nbasis", 0), ("_nwave", 1))), (AI, (("_narch", 0), ("_nwave", 1)))):
        J = ctx.interp(q)
        fl = [e for e in effs(J, "setattr") if e.attr == "flux"]
        for attr, ax in pairs:
            for e in effs(J, "setattr"):
                if e.attr != attr:
                    continue
                v = strip(e.value)
                if v.op == "sub" and is_const(v.a[1]) and v.a[0].op == "attr" and v.a[0].a[1] == "shape":
                    ctx.ob("size/%s" % attr, v.a[1].a[0] in (ax, ax - 2), e, "%s is axis %s of the vectors" % (attr.strip("_"), v.a[1].a[0]))
                elif is_call(v, "builtins.len"):
                    b = uncast(cargs(v)[0])
                    ctx.ob("size/%s" % attr, ax == 0 or b.op == "sub" or not any(uncast(f.value) is b for f in fl), e, "%s is the number of vectors" % attr.strip("_"))
                else:
                    ctx.undecided.append((ctx.cur, attr))


# ------------------------------------------------------------------ archetypes
def r_arch(ctx):
    I = ctx.interp(AI)
    W = World(AI, "ARCHETYPES", full_have(), False, {"LOGLAM": 1})

    def col(t, name):
        t = uncast(t)
        while t.op == "call" and fname(t.a[0]) in ("numpy.char.strip", "numpy.strings.strip") and cargs(t):
            t = uncast(cargs(t)[0])
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("strip", "decode"):
            t = uncast(t.a[0].a[0])
        return t.op == "sub" and is_const(t.a[1], name) and dataof(W, t.a[0]) == "ARCHETYPES"
    flux = None
    for v, cs, e in final(I, W, "flux"):
        narrow = []
        u = uncast(v, narrow)
        flux = u
        ctx.ob("archetypes/precision", not narrow, e, "archetypes are kept as %s" % (show(narrow[0]) if narrow else ""))
        if u.op == "sub" and is_const(u.a[1]):
            ctx.ob("archetypes/flux", col(u, "ARCHETYPE"), e, "archetypes come from column %s" % show(u.a[1]))
        elif u.op in ("bin", "un", "sub"):
            ctx.ob("archetypes/flux", False, e, "archetypes are not those of the file: " + show(u)[:60])
        else:
            ctx.undecided.append((ctx.cur, "archetypes"))
    # subtypes: row i is called SUBTYPE[i]_i
    for v, cs, e in final(I, W, "_subtype"):
        v = uncast(v)
        if not (v.op == "call" and fname(v.a[0]) in ("numpy.char.add", "numpy.strings.add")):
            ctx.undecided.append((ctx.cur, "subtypes"))
            continue
        parts = []

        def flat(x):
            x = uncast(x)
            if x.op == "call" and fname(x.a[0]) in ("numpy.char.add", "numpy.strings.add"):
                for y in cargs(x):
                    flat(y)
            else:
                parts.append(x)
        flat(v)
        names = [k for k, x in enumerate(parts) if col(x, "SUBTYPE")]
        nums = [k for k, x in enumerate(parts) if is_call(uncast(x), "numpy.arange")]
        ctx.ob("archetypes/subtype", len(names) == 1 or contains(v, lambda y: is_const(y, "SUBTYPE")), e, "the names of the archetypes do not contain SUBTYPE")
        for k in nums:
            r = cargs(uncast(parts[k]))
            if r:
                one = len(r) == 1 or is_const(r[0], 0)
                ctx.ob("archetypes/number", one and (len(r) < 3 or is_const(r[2], 1)), e, "archetype numbers do not count rows from 0")
        if len(parts) == len([x for x in parts if is_const(x)]) + len(names) + len(nums):
            ctx.ob("archetypes/unique", bool(nums), e, "archetypes of the same subtype are not told apart")
    for v, cs, e in final(I, W, "_rrtype"):
        p = peel_str(v)
        if p.op == "param" and p.a[0] == "file":
            ctx.ob("archetypes/type", p.a[1] == "RRTYPE", e, "the type comes from keyword " + p.a[1])
        else:
            ctx.undecided.append((ctx.cur, "type"))
    # interpolators
    n = 0
    for e in I.effects:
        if e.kind == "call" and fname(e.fn).endswith("interp1d"):
            n += 1
            t = e.result.a[1] if e.result.op == "alloc" else e.result
            x, y = ckw(t, "x", 0), ckw(t, "y", 1)
            wv = [w for w, cs, ee in final(I, W, "wave")]
            ctx.ob("interp/wave", any(uncast(W(x)) is uncast(w) for w in wv) or not contains(x, lambda z: is_const(z, "CRVAL1")), e, "archetypes are interpolated over " + show(x)[:50])
            st = [s for s in I.effects if s.kind == "setitem" and contains(s.value, lambda z: z is e.result or z is t)]
            yy = uncast(y)
            if yy.op == "sub":
                k = yy.a[1]
                if k.op == "tuple":
                    ctx.ob("interp/axis", k.a[0].op != "slice" or len(k.a) < 2 or k.a[1].op == "slice", e, "interpolates over the archetypes instead of the wavelengths")
                    k = k.a[0]
                for s in st:
                    ctx.ob("interp/row", s.key is k, s, "interpolator %s is that of archetype %s" % (show(s.key)[:30], show(k)[:30]))
            else:
                ctx.undecided.append((ctx.cur, "interpolated row"))
    if not n:
        ctx.undecided.append((ctx.cur, "no interpolation"))


# ------------------------------------------------------------------ programs that write templates
def chain(h):
    """keywords stored in a header"""
    out = {}
    while True:
        h = strip_alloc(h)
        if h.op == "store":
            if is_const(h.a[1]):
                v = h.a[2]
                out.setdefault(h.a[1].a[0], v.a[0] if v.op in ("tuple", "list") and v.a else v)
            h = h.a[0]
        elif h.op == "ite":
            a, b = chain(h.a[1]), chain(h.a[2])
            for k in a:
                if k in b and a[k] is b[k]:
                    out.setdefault(k, a[k])
            return out
        elif h.op == "call" and fname(h.a[0]).endswith("Header") and not cargs(h):
            return out
        elif h.op == "mut" or h.op == "call" and h.a[0].op == "attr" and h.a[0].a[1] in ("add_comment", "add_history", "copy"):
            h = h.a[0].a[0] if h.op == "call" else h.a[0]
        else:
            raise Undecided("header " + h.op)


def hdulists(t):
    """alternatives of the list of HDUs"""
    t = strip_alloc(t)
    if t.op == "ite":
        return hdulists(t.a[1]) + hdulists(t.a[2])
    if t.op == "app" and strip_alloc(t.a[0]).op == "ite":
        b = strip_alloc(t.a[0])
        return [x + [t.a[1]] for x in hdulists(b)]
    return [hdulist(t)[0]]


def hdulist(t):
    t = strip_alloc(t)
    out = []
    while t.op == "app":
        out.insert(0, t.a[1])
        t = strip_alloc(t.a[0])
    if not (t.op == "call" and fname(t.a[0]).endswith("HDUList")):
        raise Undecided("list of HDUs " + t.op)
    if cargs(t):
        x = cargs(t)[0]
        if x.op != "list":
            raise Undecided("list of HDUs")
        out = list(x.a) + out
    return out, t


def num(t):
    return t.a[0] if t is not None and is_const(t) and type(t.a[0]) in (int, float, bool) else None


def r_writer(ctx, prog):
    q = "bin.%s.%s" % (prog, "convert" if prog == "rrconvertSDSStemplates" else "<body>")
    I = ctx.interp(q)
    writes = [e for e in I.effects if e.kind == "call" and fname(e.fn).endswith("writeto")]
    if not writes:
        raise Undecided("no file is written by " + prog)
    resamp = [e for e in I.effects if e.kind == "call" and fname(e.fn).endswith("resample_flux")]
    files = {}
    for w in writes:
        t = w.result.a[1] if w.result.op == "alloc" else w.result
        for k in t.a[1:]:
            if k.op == "kw":
                ctx.ob("write/keyword/%s" % prog, k.a[0] in ("overwrite", "output_verify", "checksum", "name", "fileobj"), w, "writeto has no argument %s: the program fails when it writes" % k.a[0])
        allp = []
        for hd in hdulists(w.fn.a[0]):
          prim = []
          for h in hd:
            h = strip_alloc(h)
            if not (h.op == "call" and fname(h.a[0]).endswith(("PrimaryHDU", "ImageHDU", "CompImageHDU"))):
                raise Undecided("HDU " + show(h)[:60])
            hh = ckw(h, "header", 1)
            nm = ckw(h, "name")
            ks = chain(hh) if hh is not None else {}
            n = nm if nm is not None else ks.get("EXTNAME")
            if n is not None and is_const(n, "BASIS_VECTORS"):
                prim.append((h, ks))
          allp += prim
          ctx.ob("write/extension/%s" % prog, len(prim) == 1, w, "the file has %d BASIS_VECTORS extensions" % len(prim))
        for h, ks in allp:
            for k in ("CRVAL1", "CDELT1", "RRTYPE"):
                ctx.ob("write/keys/%s/%s" % (prog, k), k in ks, w, "the file has no %s, which the reader needs" % k)
            if not all(k in ks for k in ("CRVAL1", "CDELT1", "RRTYPE")):
                continue
            typ = ks["RRTYPE"]
            ctx.ob("igm/%s" % prog, "RRIGM" in ks or is_const(typ, "STAR"), w,
                   "the file has no RRIGM: Template() rejects it unless its VERSION is one of the old ones")
            log = ks.get("LOGLAM")
            if log is not None and num(log) is None:
                raise Undecided("LOGLAM")
            islog = log is not None and num(log) != 0
            data = uncast(ckw(h, "data", 0, NONE))
            src = [x for x in subterms(data) if opened(x) or is_call(x, "getdata", "fitsio.read")]
            if resamp and contains(data, lambda x: x.op == "call" and fname(x.a[0]).endswith("resample_flux")):
                Ws = {uncast(cargs(e.result)[0]).id: uncast(cargs(e.result)[0]) for e in resamp}
                ctx.ob("write/one-grid/%s" % prog, len(Ws) == 1, w, "input spectra are resampled to %d different grids" % len(Ws))
                if len(Ws) != 1:
                    continue
                g = list(Ws.values())[0]
                if not is_call(g, "numpy.arange") or len(cargs(g)) != 3:
                    ctx.undecided.append((ctx.cur, "grid of " + prog))
                    continue
                lo, hi, st = cargs(g)

                def first(x):
                    x = uncast(x)
                    return x.op == "sub" and is_const(x.a[1], 0) and uncast(x.a[0]) is g or canon(x) == canon(lo)

                def step(x):
                    x = uncast(x)
                    if canon(x) == canon(st):
                        return True
                    if x.op == "bin" and x.a[0] in "+-":
                        a = [y for y in subterms(x) if y.op == "sub" and is_const(y.a[1]) and uncast(y.a[0]) is g]
                        if len(a) == 2:
                            P = {a[0].id: a[0].a[1], a[1].id: a[1].a[1]}
                            c = canon(rewrite(x, lambda y: P.get(y.id, y)))
                            return c == canon(const(1))
                    return False
                ctx.ob("write/scale/%s" % prog, not islog, w, "LOGLAM is set for a grid that is linear in wavelength")
                for k, f in (("CRVAL1", first), ("CDELT1", step)):
                    ok = f(ks[k])
                    if ok or is_const(uncast(ks[k])) or uncast(ks[k]).op == "sub":
                        ctx.ob("write/grid/%s/%s" % (prog, k), ok, w, "%s is %s for the grid arange(%s, %s, %s)" % (k, show(ks[k])[-40:], show(lo), show(hi), show(st)))
                    else:
                        ctx.undecided.append((ctx.cur, k))
                d = data
                if d.op == "attr" and d.a[1] in ("eigvec", "coeff"):
                    ctx.ob("write/data/%s" % prog, d.a[1] == "eigvec", w, "the %s are written as basis vectors" % d.a[1])
                elif d.op in ("loop", "mu", "store"):
                    ctx.ob("write/data/%s" % prog, not contains(d, lambda x: x.op == "attr" and x.a[1] == "coeff"), w, "the coefficients of the input spectra are written as basis vectors")
                else:
                    ctx.undecided.append((ctx.cur, "data of " + prog))
            elif src:
                for k, c in (("CRVAL1", "COEFF0"), ("CDELT1", "COEFF1")):
                    v = uncast(ks[k])
                    if v.op == "sub" and is_const(v.a[1]):
                        ctx.ob("write/grid/%s/%s" % (prog, k), v.a[1].a[0] == c, w, "%s is %s of the input" % (k, v.a[1].a[0]))
                        ctx.ob("write/scale/%s" % prog, islog, w, "the grid of the input is logarithmic and LOGLAM is not set")
                    else:
                        ctx.undecided.append((ctx.cur, k))
            else:
                ctx.undecided.append((ctx.cur, "data of " + prog))
            st = ks.get("RRSUBTYP")
            path = cargs(t)[0] if cargs(t) else ckw(t, "fileobj")
            if path is not None:
                files.setdefault(path.id, []).append((w, st))
    # one file per subtype
    for fs in files.values():
        subs = {s.id if s is not None else None for w, s in fs}
        ctx.ob("write/files/%s" % prog, len(subs) == 1, fs[0][0], "templates of several subtypes are written to the same file")
    for w in writes:
        t = w.result.a[1] if w.result.op == "alloc" else w.result
        hd = [h for x in hdulists(w.fn.a[0]) for h in x]
        if prog == "rrconvertSDSStemplates":
            path = cargs(t)[0] if cargs(t) else NONE
            keys = {x.id: x for x in subterms(mk("tuple", *hd)) if x.op == "idx"}
            if keys:
                ctx.ob("write/files/%s/loop" % prog, any(contains(path, lambda y: y is x) for x in keys.values()), w, "the templates of the input are written to the same file")
                rows = [x for h in hd for x in subterms(strip_alloc(h)) if x.op == "sub" and contains(x.a[0], lambda y: y.op == "attr" and y.a[1] == "data")]
                nm = [x for x in subterms(mk("tuple", *hd)) if x.op == "sub" and contains(x.a[0], lambda y: y.op == "attr" and y.a[1] == "header") and contains(x.a[1], lambda y: is_const(y, "NAME"))]
                if not nm or not rows:
                    ctx.undecided.append((ctx.cur, "rows of " + prog))
                    continue
                ks = {next((y.id for y in subterms(x.a[1]) if y.op == "idx"), None) for x in rows + nm}
                ctx.ob("write/row/%s" % prog, len(ks) == 1, w, "the name and the spectrum of a template come from different rows")
    # resampled rows
    for e in I.effects:
        if e.kind != "setitem":
            continue
        v = uncast(e.value)
        if v.op == "call" and fname(v.a[0]).endswith("resample_flux") and len(cargs(v)) >= 3:
            g, x, y = [uncast(z) for z in cargs(v)[:3]]
            if y.op == "sub":
                k = y.a[1].a[0] if y.a[1].op == "tuple" else y.a[1]
                ctx.ob("resample/row/%s" % prog, k is e.key, e, "row %s holds spectrum %s" % (show(e.key)[:30], show(k)[:30]))
                b = uncast(y.a[0])
                if x.op == "sub" and b.op == "sub" and is_const(x.a[1]) and is_const(b.a[1]):
                    ctx.ob("resample/source/%s" % prog, x.a[0] is b.a[0] and (x.a[1].a[0], b.a[1].a[0]) == (1, 0), e, "flux and wavelengths of the input spectra do not belong together")
                    n = [z for z in cargs(b.a[0])]
                    rg = k.a[0] if k.op == "idx" else None
                    if n and rg is not None and rg.op in ("range",):
                        ctx.ob("resample/count/%s" % prog, canon(rargs(rg)[-1]) == canon(n[0]) if len(rg.a) == 1 else None, e, "%s of %s input spectra are resampled" % (show(rg), show(n[0])))


def isflux_t(W, x):
    return dataof(W, x) == "BASIS_VECTORS"


def isflux_a(W, x):
    return dataof(W, x, "ARCHETYPE") == "ARCHETYPES"


def run(ctx):
    ctx.rule("template wavelengths", "the grid is CRVAL1 + CDELT1 * pixel, and its power of ten exactly if LOGLAM is set", r_wave, TI, "BASIS_VECTORS", isflux_t)
    ctx.rule("archetype wavelengths", "the grid is CRVAL1 + CDELT1 * pixel, and its power of ten exactly if LOGLAM is set", r_wave, AI, "ARCHETYPES", isflux_a)
    ctx.rule("keywords", "type, subtype, version, method and absorption model come from their own keyword, with their defaults", r_keys)
    ctx.rule("vectors", "vectors and redshifts are those of the file; default grids are on the scale of their class", r_flux)
    ctx.rule("given", "a template given as arrays keeps them, and accessors return their own attribute", r_given)
    ctx.rule("archetypes", "archetype spectra, names and interpolators belong to the same row", r_arch)
    for p in PROGS:
        ctx.rule("writer", "the header written describes the grid of the vectors written, with the keywords the reader needs", r_writer, p)
