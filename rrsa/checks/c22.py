"""C22: shared-memory packing and unpacking restores every spectrum.

The two methods are summarised as transformers of the attributes of a spectrum (value-flow terms over the attributes at entry)
and composed symbolically for every sequence of pack / unpack / CSR access up to a length; a scipy constructor applied to the
components of one matrix in their own roles is that matrix.
"""
import itertools
from ..q import *
from ..terms import *
from ..ctx import Undecided, Stop

SP = "redrock.targets.Spectrum."
PACK, UNPACK, CSR = SP + "sharedmem_pack", SP + "sharedmem_unpack", SP + "Rcsr"
MPA = "redrock.utils.mp_array"
FIELDS = ("wave", "flux", "ivar", "R", "_Rcsr")
WORKERS = ("redrock.zscan._mp_calc_zchi2", "redrock.zfind._mp_fitz")
COPY = ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.ascontiguousarray", "copy.copy", "copy.deepcopy", "numpy.asanyarray", MPA)
DOUBLE = ("numpy.float64", "builtins.float")


def tok(name):
    return mk("tok", name)


def is_tok(t, *n):
    return t.op == "tok" and (not n or t.a[0] in n)


class Miss(Exception):
    pass


class Fork(Exception):
    pass


def bysize(c):
    """c compares the size of an array or matrix with a number: spectra exist on either side of it"""
    if c.op != "cmp" or c.a[0] not in ("<", "<="):
        return False
    k = [x for x in c.a[1:] if is_const(x) and type(x.a[0]) in (int, float) and x.a[0] > 2]
    o = [x for x in c.a[1:] if not is_const(x)]
    if len(k) != 1 or len(o) != 1:
        return False
    o = o[0]
    return o.op == "attr" and o.a[1] in ("nnz", "size") and o.a[0].op in ("tok", "part") or o.op == "dim" or is_call(o, "builtins.len") and cargs(o)[0].op in ("tok", "part")


class Sim(object):
    """attribute state of one spectrum"""
    sizes = {}

    def __init__(self, ctx, csr):
        self.ctx = ctx
        self.s = {f: tok(f) for f in FIELDS}
        self.s["_mpshared"] = const(False)
        if not csr:
            self.s["_Rcsr"] = NONE
        self.want = dict(self.s)
        self.where = {}

    def self_of(self, q):
        return mk("param", q, "self")

    def ev(self, t, me, S):
        """term over the entry state -> simplified value"""
        memo = {}

        def go(x):
            if x.id in memo:
                return memo[x.id]
            r = step(x)
            memo[x.id] = r
            return r

        def step(x):
            if x.op == "alloc" and len(x.a) == 2:
                return go(x.a[1])
            if x.op == "attr":
                b = x.a[0]
                if b is me:
                    n = x.a[1]
                    if n in S:
                        return S[n]
                    if n in self.known_attrs:
                        return mk("tok", n)
                    raise Miss(n)
                b = go(b)
                if is_tok(b) and x.a[1] == "shape":
                    return mk("part", b, "shape")
                if is_tok(b) and b.a[0] in ("R", "_Rcsr", "csrR") and x.a[1] in ("data", "offsets", "indices", "indptr", "_shape"):
                    return mk("part", b, x.a[1].lstrip("_"))
                if b.op == "part" and x.a[1] == "shape":
                    return mk("partshape", b)
                return mk("attr", b, x.a[1])
            if x.op in ("and", "or"):
                # operands after a deciding one are not evaluated
                ys, miss = [], None
                for y in x.a:
                    try:
                        v = go(y)
                    except Miss as m:
                        miss = m
                        continue
                    if self.truth(v) is (x.op == "or"):
                        return const(x.op == "or")
                    ys.append(v)
                if miss is not None:
                    raise miss
                return mk(x.op, *ys)
            if x.op == "ite":
                c = self.truth(go(x.a[0]))
                if c is None:
                    raise Undecided("condition " + show(x.a[0])[:60])
                return go(x.a[1] if c else x.a[2])
            if x.op == "sub":
                b, k = go(x.a[0]), x.a[1]
                if b.op == "partshape" and b.a[0].a[1] == "data" and is_tok(b.a[0].a[0], "R") and is_const(k, 1, -1):
                    return mk("dim", b.a[0].a[0])
                if b.op == "partshape" and b.a[0].a[1] == "data" and is_tok(b.a[0].a[0], "R") and is_const(k, 0):
                    return mk("ndiag", b.a[0].a[0])
                if b.op == "part" and b.a[1] == "shape" and is_tok(b.a[0], "R", "_Rcsr", "csrR") and is_const(k, 0, 1, -1):
                    return mk("dim", tok("R") if b.a[0].a[0] != "wave" else b.a[0])
                if b.op == "part" and b.a[1] == "shape" and is_tok(b.a[0], "wave", "flux", "ivar"):
                    return mk("dim", tok("R"))
                return mk("sub", b, go(k))
            if x.op == "call":
                f = fname(x.a[0]) or ""
                if f == CSR:
                    raise Undecided("uses the Rcsr property")
                if f in COPY:
                    a = cargs(x)
                    v = go(a[0]) if a else go(ckw(x, "original") or ckw(x, "object"))
                    dt = ckw(x, "dtype", 1 if f != MPA else None)
                    return self.cast(v, dt)
                if f == "numpy.astype":
                    a = cargs(x)
                    return self.cast(go(a[0]), a[1] if len(a) > 1 else None)
                if f.endswith((".dia_matrix", ".csr_matrix", ".dia_array", ".csr_array")):
                    return self.matrix(x, f, go)
                if f == "builtins.len" and cargs(x):
                    v = go(cargs(x)[0])
                    if is_tok(v, "wave", "flux", "ivar"):
                        return mk("dim", tok("R"))
                h = x.a[0]
                if h.op == "attr":
                    b = go(h.a[0])
                    if h.a[1] in ("copy", "view") and len(x.a) == 1:
                        return b
                    if h.a[1] == "tocsr" and len(x.a) == 1 and is_tok(b, "R"):
                        return tok("csrR")
                    if h.a[1] == "todia" and is_tok(b, "csrR", "_Rcsr") and len(x.a) == 1:
                        return tok("R")
            if x.op in ("const", "param", "global", "ext", "fn", "cls", "tok"):
                if x is me:
                    raise Undecided("the spectrum itself is stored")
                return x
            return mk(x.op, *[go(y) if isinstance(y, T) else y for y in x.a])
        return go(t)

    def cast(self, v, dt):
        if dt is None or dt is NONE:
            return v
        n = fname(dt) or (dt.a[0] if is_const(dt) and isinstance(dt.a[0], str) else None)
        if n in DOUBLE or n in ("f8", "float64", "d", "float") and v.op in ("tok", "part") and (v.op == "tok" or v.a[1] == "data"):
            return v
        if dt.op == "attr" and dt.a[1] == "dtype":
            return v
        if n in ("numpy.float32", "numpy.float16", "f4", "f2", "f", "float32") or n in ("numpy.int32", "numpy.int64", "builtins.int", "int", "i4", "i8") and is_tok(v):
            return mk("lossy", v, const(n))
        if n in ("numpy.int32", "numpy.int64", "i4", "i8", "builtins.int") and v.op == "part" and v.a[1] != "data":
            return v
        raise Undecided("conversion to " + show(dt)[:40])

    def matrix(self, x, f, go):
        a = [y for y in x.a[1:] if y.op != "kw"]
        kind = "dia" if ".dia_" in f else "csr"
        arg = a[0] if a else ckw(x, "arg1")
        if arg is None:
            raise Undecided("matrix constructor without data")
        arg = strip_alloc(arg)
        if arg.op not in ("tuple", "list"):
            v = go(arg)
            if kind == "csr" and is_tok(v, "R"):
                return tok("csrR")
            if kind == "csr" and is_tok(v, "_Rcsr", "csrR") or kind == "dia" and is_tok(v, "R"):
                return v
            raise Undecided("matrix built from " + show(arg)[:60])
        roles = ("data", "offsets") if kind == "dia" else ("data", "indices", "indptr")
        comps = [go(y) for y in arg.a]
        shp = ckw(x, "shape", 1)
        shp = go(shp) if shp is not None else None
        if len(comps) == len(roles) and all(c.op == "part" for c in comps) and len({c.a[0].id for c in comps}) == 1 \
                and tuple(c.a[1] for c in comps) == roles:
            base = comps[0].a[0]
            dim = mk("dim", tok("R"))
            if shp is not None and (shp.op == "part" and shp.a[1] == "shape" and is_tok(shp.a[0], "R", "_Rcsr", "csrR")
                                    or shp.op in ("tuple", "list") and len(shp.a) == 2 and all(y is dim for y in shp.a)):
                return base
            if shp is not None and shp.op in ("tuple", "list") and any(y.op == "ndiag" for y in shp.a):
                return mk("badshape", base)
            if shp is not None and shp.op in ("tuple", "list") and any(y.op == "bin" and y.a[0] == "+" and any(is_const(z) and z.a[0] != 0 for z in y.a[1:]) and len(y.a) == 3 and
                                                                       any(z is dim or is_tok(z, "nwave") for z in y.a[1:]) for y in shp.a):
                return mk("badshape", base)
            if shp is None or shp is NONE:
                if kind == "csr":
                    return mk("badshape", base)      # column count would be guessed from the largest column index
            raise Undecided("matrix shape " + (show(shp)[:60] if shp is not None else "missing"))
        return mk(kind, *comps)

    def truth(self, c):
        if c.op == "const":
            return bool(c.a[0])
        if c.op == "not":
            v = self.truth(c.a[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [self.truth(y) for y in c.a]
            if c.op == "and":
                return False if False in vs else (None if None in vs else True)
            return True if True in vs else (None if None in vs else False)
        if c.op == "cmp" and c.a[0] in ("is", "==", "isnot", "!=") and (c.a[1] is NONE or c.a[2] is NONE):
            o = c.a[1] if c.a[2] is NONE else c.a[2]
            neg = c.a[0] in ("isnot", "!=")
            if o is NONE:
                return not neg
            if o.op in ("tok", "part", "dia", "csr", "badshape", "lossy", "sub", "bin"):
                return neg
            return None
        if c.op == "cmp" and c.a[0] in ("is", "=="):
            if c.a[1].op == "const" and c.a[2].op == "const":
                return c.a[1].a[0] == c.a[2].a[0]
        if bysize(c):
            if c.id not in Sim.sizes:
                raise Fork(c)
            return Sim.sizes[c.id]
        if is_call(c, "builtins.hasattr") and len(cargs(c)) == 2 and is_const(cargs(c)[1]):
            return None
        if c.op in ("tok",):
            return None
        return None

    def run(self, q, I, stale=False):
        """apply one method; returns its value"""
        me = self.self_of(q)
        S = self.s
        new = dict(S)
        for e in I.effects:
            if e.kind == "call":
                f = fname(e.fn) or ""
                if e.fn.op == "attr" and e.fn.a[0] is me and not e.d.get("inlined"):
                    raise Undecided("calls self.%s" % e.fn.a[1])
                continue
            if e.kind in ("setattr", "delattr") and e.base is me:
                ok = True
                for g, k in e.guards:
                    v = self.truth(self.ev(g, me, S))
                    if v is None:
                        raise Undecided("condition " + show(g)[:60])
                    if not v:
                        ok = False
                        break
                if not ok:
                    continue
                if e.loops:
                    raise Undecided("attribute stored in a loop")
                if e.kind == "delattr":
                    new.pop(e.attr, None)
                    continue
                if e.d.get("op"):
                    raise Undecided("attribute updated in place")
                new[e.attr] = self.ev(e.value, me, S)
                self.where[e.attr] = e
            elif e.kind in ("setitem", "aug") and contains(e.base, lambda x: x is me):
                ok = all(self.truth(self.ev(g, me, S)) for g, k in e.guards)
                if ok:
                    b = strip_alloc(e.base)
                    if b.op == "attr" and b.a[0] is me and b.a[1] in FIELDS:
                        new[b.a[1]] = mk("changed", self.ev(b, me, S))
                        self.where[b.a[1]] = e
                    else:
                        raise Undecided("in-place change of " + show(b)[:60])
        self.s = new


KNOWN_BAD = ("tok", "part", "dia", "csr", "badshape", "lossy", "changed", "sub", "bin", "const", "dim", "partshape")


def name(t):
    if t.op == "tok":
        return {"csrR": "R.tocsr()"}.get(t.a[0], t.a[0])
    if t.op == "part":
        return name(t.a[0]) + "." + t.a[1]
    if t.op == "const":
        return repr(t.a[0])
    if t.op in ("dia", "csr"):
        return "%s_matrix(%s)" % (t.op, ", ".join(name(x) for x in t.a))
    if t.op == "badshape":
        return name(t.a[0]) + " with another shape"
    if t.op == "lossy":
        return name(t.a[0]) + " in lower precision"
    if t.op == "changed":
        return name(t.a[0]) + " modified in place"
    return show(t)[:80]


def attrs_of_init(ctx):
    I = ctx.interp(SP + "__init__")
    me = mk("param", SP + "__init__", "self")
    return {e.attr for e in effs(I, "setattr") if e.base is me}


def inverse(ctx):
    P, U = ctx.interp(PACK), ctx.interp(UNPACK)
    Pr = ctx.interp(CSR, stop_extra=(UNPACK,))
    Sim.known_attrs = attrs_of_init(ctx) - set(FIELDS) - {"_mpshared"}
    L = 5 if ctx.tier == "thorough" else 4
    meP = mk("param", CSR, "self")
    # the property unpacks before it reads
    bad = None
    for csr in (True, False):
        for n in range(1, L + 1):
            for seq in itertools.product("puc", repeat=n):
                sim = Sim(ctx, csr)
                w = "".join(seq)
                for i, o in enumerate(seq + ("u",)):
                    q, I = {"p": (PACK, P), "u": (UNPACK, U), "c": (CSR, Pr)}[o]
                    if o == "c":
                        o2 = access(ctx, sim, Pr, meP)
                        if o2 is not None:
                            return "sequence " + w, o2
                        continue
                    try:
                        sim.run(q, I)
                    except Miss as m:
                        return "sequence " + w, ("%s reads attribute %s that is not set" % (q.rsplit(".", 1)[1], m), sim.where.get("_mpshared"))
                    if o == "u":
                        for f in FIELDS:
                            g, h = sim.s.get(f), sim.want[f]
                            if g is h:
                                continue
                            if f == "_Rcsr" and h is NONE and g is not None and is_tok(g, "csrR"):
                                continue
                            if g is None:
                                return "sequence " + w, ("%s is not restored" % f, sim.where.get("_mpshared"))
                            if g.op in KNOWN_BAD:
                                return "sequence " + w, ("%s comes back as %s" % (f, name(g)), sim.where.get(f))
                            raise Undecided("%s restored as %s" % (f, show(g)[:80]))
                        if sim.truth(sim.s["_mpshared"]) is not False:
                            return "sequence " + w, ("still marked as packed after unpacking", sim.where.get("_mpshared"))
    return None, None


def access(ctx, sim, Pr, me):
    """one read of the Rcsr property"""
    first = None
    for e in Pr.effects:
        if e.kind == "call":
            f = fname(e.fn) or ""
            if f == UNPACK or e.fn.op == "attr" and e.fn.a[1] == "sharedmem_unpack":
                if e.guards:
                    v = [sim.truth(sim.ev(g, me, sim.s)) for g, k in e.guards]
                    if False in v:
                        continue
                    if None in v:
                        raise Undecided("unpacking in the property is conditional")
                first = e
                break
    if first is not None:
        try:
            sim.run(UNPACK, ctx.interp(UNPACK))
        except Miss as m:
            return "sharedmem_unpack reads attribute %s that is not set" % m, first
    S = sim.s
    new = dict(S)
    try:
        for e in Pr.effects:
            if e.kind == "setattr" and e.base is me:
                if all(sim.truth(sim.ev(g, me, S)) for g, k in e.guards):
                    new[e.attr] = sim.ev(e.value, me, S)
        r = sim.ev(Pr.ret, me, S)
    except Miss as m:
        return "Rcsr reads attribute %s that is not set" % m, Pr.effects[0] if Pr.effects else None
    sim.s = new
    want = tok("csrR") if sim.want["_Rcsr"] is NONE else sim.want["_Rcsr"]
    if r is not want and not is_tok(r, "csrR"):
        if r.op in KNOWN_BAD:
            return "Rcsr gives " + name(r), Pr.effects[0] if Pr.effects else None
        raise Undecided("Rcsr gives " + show(r)[:60])
    if sim.want["_Rcsr"] is NONE:
        sim.want["_Rcsr"] = new["_Rcsr"]
    return None


def allsizes(ctx, d=0):
    """over small and large spectra, as far as the code tells them apart"""
    if not d:
        Sim.sizes = {}
    try:
        return inverse(ctx)
    except Fork as f:
        c = f.args[0]
        if d > 3:
            raise Undecided("many conditions on sizes")
        r = (None, None)
        for v in (True, False):
            Sim.sizes[c.id] = v
            seq, bad = allsizes(ctx, d + 1)
            if bad is not None:
                r = (seq, bad)
        del Sim.sizes[c.id]
        return r


def rinverse(ctx):
    seq, bad = allsizes(ctx)
    if bad is None:
        for f in FIELDS:
            ctx.ob("inverse/" + f, True, UNPACK, "")
        ctx.ob("inverse/flag", True, UNPACK, "")
        return
    msg, e = bad
    ctx.ob("inverse", False, e if e is not None else UNPACK, "%s (%s)" % (msg, seq))


def array(ctx):
    """mp_array keeps element type, order and shape"""
    I = ctx.interp(MPA)
    orig = mk("param", MPA, "original")
    raws = calls(I, "multiprocessing.RawArray", "multiprocessing.sharedctypes.RawArray")
    if not raws:
        raise Undecided("no RawArray")

    def char(t):
        t = strip_alloc(t)
        if t.op == "attr" and t.a[1] in ("char", "dtype"):
            return True if t.a[0] is orig or strip_alloc(t.a[0]).op == "attr" and strip_alloc(t.a[0]).a[1] == "dtype" and strip_alloc(t.a[0]).a[0] is orig else None
        return False if is_const(t) or (fname(t) or "").startswith(("numpy.", "ctypes.", "builtins.")) else None

    for e in raws:
        k = char(e.args[0]) if e.args else None
        if k is None:
            raise Undecided("type code of the shared array")
        ctx.ob("array/typecode", k, e, "the shared buffer has type %s" % show(e.args[0])[:40])
        if len(e.args) > 1:
            v = strip_alloc(e.args[1])
            if is_call(v, "numpy.ravel", "numpy.flatten"):
                o = ckw(v, "order", 1)
                if o is not None and not is_const(o, "C"):
                    if is_const(o, "K") or is_const(o, "A"):
                        ctx.ob("array/order", False, e, "memory-order flattening of %s differs from the C order it is read back in" % show(v)[:60])
                    else:
                        ctx.ob("array/order", False, e, "flattened in another order")
                    continue
                ok = cargs(v)[0] is orig
                if not ok:
                    x = strip_alloc(cargs(v)[0])
                    if is_call(x, "numpy.transpose") or x.op == "attr" and x.a[1] == "T":
                        ctx.ob("array/order", False, e, "transposed")
                        continue
                    raise Undecided("content of the shared array")
                ctx.ob("array/order", True, e, "")
    # result
    dims = {}
    for e in effs(I, "setattr"):
        if e.attr == "shape":
            dims[strip_alloc(e.base).id] = e
    for conds, r in ites(I.ret):
        x, shaped = strip_alloc(r), False
        if x is orig:
            only = [c for c in conds if c.op == "cmp" and contains(c, lambda y: y.op == "attr" and y.a[1] == "size" or is_call(y, "builtins.len"))]
            ctx.ob("array/unshared-empty", True, MPA, "")
            continue
        for _ in range(8):
            if x.id in dims:
                s = strip_alloc(dims[x.id].value)
                shaped = s.op == "attr" and s.a[1] == "shape" and s.a[0] is orig or shaped
            if is_call(x, "numpy.reshape"):
                s = cargs(x)[1] if len(cargs(x)) > 1 else None
                if s is not None and s.op == "attr" and s.a[1] == "shape" and s.a[0] is orig:
                    shaped = True
                else:
                    raise Undecided("shape of the shared array")
                x = strip_alloc(cargs(x)[0])
                continue
            if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("view", "copy") and len(x.a) == 1:
                x = strip_alloc(x.a[0].a[0])
                continue
            break
        f = fname(x.a[0]) if x.op == "call" else None
        if f not in ("numpy.array", "numpy.frombuffer", "numpy.asarray", "numpy.ctypeslib.as_array"):
            raise Undecided("shared array result " + show(x)[:60])
        dt = ckw(x, "dtype", 1)
        if f == "numpy.frombuffer":
            k = char(dt) if dt is not None else False
        else:
            k = True if dt is None or dt is NONE else char(dt)
        if k is None:
            raise Undecided("dtype of the wrapped array")
        ctx.ob("array/dtype", k, MPA, "the wrapped array has another dtype")
        ctx.ob("array/shape", shaped, MPA, "the wrapped array does not get the shape of the original")


def cover(ctx):
    """Target.sharedmem_pack/unpack handle every spectrum"""
    for m in ("sharedmem_pack", "sharedmem_unpack"):
        q = "redrock.targets.Target." + m
        I = ctx.interp(q, stop_extra=(SP + m,))
        me = mk("param", q, "self")
        spectra = mk("attr", me, "spectra")
        got = [e for e in I.effects if e.kind == "call" and (e.fn.op == "attr" and e.fn.a[1] in ("sharedmem_pack", "sharedmem_unpack") or (fname(e.fn) or "") in (PACK, UNPACK))]
        if not got:
            ctx.ob("cover/" + m, False, q, "no spectrum is handled")
            continue
        for e in got:
            n = e.fn.a[1] if e.fn.op == "attr" else (fname(e.fn) or "").rsplit(".", 1)[1]
            ctx.ob("cover/%s/same" % m, n == m, e, "calls %s on the spectra" % n)
            r = e.fn.a[0] if e.fn.op == "attr" else (cargs(e.result) or [None])[0] if e.result is not None else None
            if r is None:
                raise Undecided("receiver of " + n)
            c = covers_elem(r, spectra)
            if c is None:
                raise Undecided("which spectra are handled: " + show(r)[:80])
            bad = [g for g, k in e.guards if k != "loopexit"]
            ctx.ob("cover/%s/all" % m, c == "all" and not bad, e, "not every spectrum is handled (%s%s)" % (show(r)[:60], " when " + show(bad[0])[:60] if bad else ""))


def workers(ctx):
    """workers unpack every target before using it"""
    for q in WORKERS:
        I = ctx.interp(q, stop_extra=("redrock.targets.Target.sharedmem_unpack",))
        P = mk("param", q, "target_data")
        un, use = [], []
        for e in I.effects:
            if e.kind != "call":
                continue
            if e.fn.op == "attr" and e.fn.a[1] == "sharedmem_unpack" or (fname(e.fn) or "") == "redrock.targets.Target.sharedmem_unpack":
                un.append(e)
            elif (fname(e.fn) or "") in ("redrock.fitz.fitz", "redrock.zscan.calc_zchi2"):
                use.append(e)
        if not use:
            raise Undecided(q + ": computation not found")
        if not un:
            ctx.ob("workers/unpack", False, use[0], "%s computes with targets still in packed form" % q)
            continue
        e = un[0]
        r = e.fn.a[0] if e.fn.op == "attr" else cargs(e.result)[0]
        c = covers_elem(r, P)
        if c is None:
            raise Undecided(q + ": which targets are unpacked: " + show(r)[:80])
        bad = [g for g, k in e.guards if k in ("if", "cont")]
        first = I.effects.index(e) < min(I.effects.index(u) for u in use)
        ctx.ob("workers/all", c == "all" and not bad, e, "%s: only some targets are unpacked" % q)
        if c == "all":
            ctx.ob("workers/before-use", first, e, "%s: targets are used before they are unpacked" % q)


def run(ctx):
    ctx.rule("inverse", "every sequence of pack, unpack and Rcsr reads followed by unpack gives back wave, flux, ivar, R and CSR of the same spectrum (symbolic composition of attribute transformers)", rinverse)
    ctx.rule("array", "mp_array keeps element type, C order and shape, and every element", array)
    ctx.rule("cover", "packing and unpacking a target handles every one of its spectra", cover)
    ctx.rule("workers", "every worker unpacks all its targets before it computes with them", workers)
