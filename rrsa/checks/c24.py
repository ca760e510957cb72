"""C24: the same IGM absorption is applied in scan, refinement, archetype fits and evaluated models."""
from ..q import *
from ..logic import *
from ..arith import *
from ..terms import *
from ..ctx import Undecided, Stop

TD = "redrock.templates.DistTemplate.__init__"
TE = "redrock.templates.Template.eval"
AE = "redrock.archetypes.Archetype.eval"
GB = "redrock.archetypes.Archetype.get_best_archetype"
NN = "redrock.archetypes.Archetype.nearest_neighbour_model"
FZ = "redrock.fitz.fitz"
TL = "redrock.igm.transmission_Lyman"
CK = "redrock.igm.transmission_Lyman_CaluraKamble"
IN = "redrock.igm.transmission_IGM_Inoue14"
KERNELS = ("calc_zchi2_batch", "calc_zchi2", "calc_zchi2_one", "per_camera_coeff_with_least_square_batch", "nearest_neighbour_model")


def is_T(t):
    return is_call(t, "transmission_Lyman")


def is_R(t):
    return is_call(t, "rebin_template", "rebin_template_batch", "trapz_rebin", "_mp_rebin_template")


def zof(t):
    """redshift term behind array wrappers"""
    while True:
        u = strip(t)
        if is_call(u, "numpy.reshape", "numpy.ravel", "numpy.atleast_1d", "cupy.atleast_1d"):
            u = u.a[1]
        if u.op in ("list", "tuple") and len(u.a) == 1:
            u = u.a[0]
        if u.op == "sub" and u.a[1].op in ("tuple",) and all(is_const(x, None) or x.op == "slice" for x in u.a[1].a):
            u = u.a[0]
        if u is t:
            return t
        t = u


class Path(object):
    """one way a rebinned template reaches a consumer"""
    __slots__ = ("root", "ts", "lits")

    def __init__(self, root, ts=(), lits=()):
        self.root, self.ts, self.lits = root, tuple(ts), tuple(lits)

    def key(self):
        return (id(self.root), tuple(sorted(id(x) for x in self.ts)), tuple(sorted((id(l), p) for l, p in self.lits)))


def uniq(ps):
    d = {}
    for p in ps:
        d.setdefault(p.key(), p)
    if len(d) > 64:
        raise Undecided("too many paths from rebinning to the fit")
    return list(d.values())


class Flow(object):
    """roots: terms (params) that count as rebinned data / as transmission"""

    def __init__(self, data=(), trans=()):
        self.data, self.trans = set(map(id, data)), set(map(id, trans))
        self.memo, self.busy = {}, set()
        self.loops = []

    def carries(self, t):
        """the value contains a transmission array (and no rebinned data)"""
        return bool(self.tsof(t))

    def tsof(self, t):
        """transmission calls / parameters a multiplicative factor consists of"""
        out, st, seen = [], [t], set()
        while st:
            x = st.pop()
            if id(x) in seen:
                continue
            seen.add(id(x))
            if is_T(x) or id(x) in self.trans:
                out.append(x)
                continue
            if is_R(x) or id(x) in self.data:
                continue
            if x.op == "ite":
                st.extend(x.a[1:])
                continue
            st.extend(y for y in x.a if isinstance(y, T))
        return out

    def paths(self, t):
        k = id(t)
        if k in self.memo:
            return self.memo[k]
        if k in self.busy:
            return []
        self.busy.add(k)
        try:
            r = uniq(self._paths(t))
        finally:
            self.busy.discard(k)
        self.memo[k] = r
        return r

    def _paths(self, t):
        if is_R(t) or id(t) in self.data:
            return [Path(t)]
        if is_T(t) or id(t) in self.trans or t.op in ("const", "param", "global", "ext", "fn", "cls"):
            return []
        if t.op == "ite":
            out = []
            for pol, b in ((True, t.a[1]), (False, t.a[2])):
                for p in self.paths(b):
                    out.append(Path(p.root, p.ts, p.lits + ((t.a[0], pol),)))
            return out
        if t.op == "bin" and t.a[0] == "*":
            fs = factors(t)
            ds = [(f, self.paths(f)) for f in fs]
            have = [x for x in ds if x[1]]
            if not have:
                return []
            extra = []
            for f, ps in ds:
                if not ps:
                    extra.extend(self.factor_cases(f))
            cases = [((), ())]
            for f, ps in ds:
                if not ps:
                    fc = self.factor_cases(f)
                    cases = [(a + x, l + m) for a, l in cases for x, m in fc]
            if len(cases) > 32:
                raise Undecided("too many cases of the factors")
            return [Path(p.root, p.ts + a, p.lits + l) for _, ps in have for p in ps for a, l in cases]
        if t.op == "bin" and t.a[0] in ("/", "+", "-") and len(t.a) == 3 and t.a[0] == "/" and self.carries(t.a[2]) and self.paths(t.a[1]):
            raise Undecided("division by the transmission")
        if is_call(t, "numpy.multiply", "cupy.multiply") and len(cargs(t)) == 2:
            a, b = cargs(t)
            pa, pb = self.paths(a), self.paths(b)
            for ps, f in ((pa, b), (pb, a)):
                if ps and not self.paths(f):
                    return [Path(p.root, p.ts + x, p.lits + l) for p in ps for x, l in self.factor_cases(f)]
        if t.op == "loop":
            out = []
            for b in t.a[1:]:
                if isinstance(b, T):
                    out.extend(self.paths(b))
            m = t.a[0]
            if not out:
                out = self.paths(m)
            return out
        if t.op == "mu":
            out = []
            for b in t.a:
                if isinstance(b, T) and b.op != "it":
                    out.extend(self.paths(b))
            return out
        if t.op == "store":
            v = self.paths(t.a[2])
            if v:
                self.loops.append((t.a[1], t.a[2]))
                k = strip(t.a[1])
                if k.op == "const":
                    return v + self.paths(t.a[0])
                return v
            return self.paths(t.a[0])
        if t.op == "comp":
            b = t.a[1]
            if t.a[0] == "dict" and b.op == "tuple":
                b = b.a[1]
            return self.paths(b)
        if t.op == "dict":
            out = []
            for v in t.a[1::2]:
                out.extend(self.paths(v))
            return out
        if t.op == "sub":
            return self.paths(t.a[0])
        if t.op == "attr":
            return self.paths(t.a[0])
        if t.op in ("cmp", "slice", "it", "idx"):
            return []
        out = []
        for x in t.a:
            if isinstance(x, T):
                out.extend(self.paths(x.a[1] if x.op == "kw" else x))
        return out

    def factor_cases(self, f):
        """[(transmission terms, literals)] of a factor without rebinned data"""
        if f.op == "ite":
            out = []
            for pol, b in ((True, f.a[1]), (False, f.a[2])):
                for a, l in self.factor_cases(b):
                    out.append((a, l + ((f.a[0], pol),)))
            return out
        ts = self.tsof(f)
        if not ts:
            return [((), ())]
        # alternatives of one value: a choice is made by position (ite inside); all must match
        bad = self.altered(f)
        return [((tuple(ts) + ((const("altered: " + bad),) if bad else ()),), ())]

    def altered(self, f, d=0):
        """what is done to the transmission before it is applied, besides adding axes and copying; None"""
        f = strip(f)
        if is_T(f) or id(f) in self.trans or d > 12:
            return None
        if f.op == "bin" and f.a[0] in ("**", "+", "-", "/", "//", "%") and self.tsof(f):
            return show(f)[-80:]
        if f.op == "call" and fname(f.a[0]).rsplit(".", 1)[-1] in ("sqrt", "square", "power", "exp", "log", "abs", "clip", "minimum", "maximum", "mean", "sum", "prod", "max", "min", "median", "round", "rint", "roll", "flip", "ones_like", "zeros_like", "sort", "cumprod", "where", "nan_to_num") and self.tsof(f):
            return fname(f.a[0]).rsplit(".", 1)[-1] + "()"
        if f.op == "sub":
            ks = f.a[1].a if f.a[1].op == "tuple" else (f.a[1],)
            for k in ks:
                if k.op == "slice" and not all(is_const(x, None) for x in k.a):
                    # a part of a table of transmissions by wavelength grid is something else
                    if self.tsof(f.a[0]) and any(is_T(x) or id(x) in self.trans for x in [strip(f.a[0])]):
                        return "only a part of it is used: [" + show(k)[:40] + "]"
            return self.altered(f.a[0], d + 1)
        return None


def none_lits(lits):
    """transmission terms known to be None / conditions that are something else"""
    none, other = [], []
    for c, pol in lits:
        lits_ = []

        def split(x, p):
            if x.op == "not":
                return split(x.a[0], not p)
            if x.op == "and" and p:
                return [z for y in x.a for z in split(y, True)]
            if x.op == "or" and not p:
                return [z for y in x.a for z in split(y, False)]
            return [(x, p)]
        for x, p in split(c, pol):
            if x.op == "cmp" and x.a[0] in ("is", "==") and any(is_const(y, None) for y in x.a[1:]) and p:
                none.append([y for y in x.a[1:] if not is_const(y, None)])
            else:
                other.append((x, p))
    return none, other


class Site(object):
    def __init__(self, ctx, name, z, lobs_ok, model_ok, where, flow, neutral=()):
        self.ctx, self.name, self.z, self.lobs_ok, self.model_ok, self.where, self.flow = ctx, name, z, lobs_ok, model_ok, where, flow
        self.neutral = neutral


def arg(t, name, pos=None):
    return ckw(t, name, pos)


def rebin_z(ctx, r):
    """(redshift, owner template/archetype term, wave argument) of a rebin call"""
    if is_call(r, "rebin_template_batch"):
        return arg(r, "z", 1), arg(r, "self", 0), arg(r, "dwave")
    if is_call(r, "rebin_template"):
        if arg(r, "self") is not None:
            return arg(r, "z"), arg(r, "self"), arg(r, "dwave")
        return arg(r, "myz", 1), arg(r, "template", 0), arg(r, "dwave")
    if is_call(r, "trapz_rebin"):
        z = arg(r, "myz", 3)
        x = arg(r, "x", 0)
        own = [y.a[0] for y in subterms(x) if y.op == "attr" and y.a[1] in ("wave", "gpuwave", "_wave")]
        own = own[0] if own else None
        if z is None or is_const(z, None):
            zz = [y for y in subterms(x) if y.op == "bin" and y.a[0] == "+" and any(is_const(w) and w.a[0] == 1 for w in y.a[1:])]
            if len(zz) != 1:
                return None, own, arg(r, "xnew", 2)
            rest = [w for w in zz[0].a[1:] if not (is_const(w) and w.a[0] == 1)]
            z = rest[0] if len(rest) == 1 else None
        return z, own, arg(r, "xnew", 2)
    return None, None, None


def same_alt(a, b):
    """equal up to array wrappers; every alternative of a must match the alternative of b"""
    a, b = zof(a), zof(b)
    if a is b or peq(a, b):
        return True
    if a.op == "ite" and b.op == "ite" and a.a[0] is b.a[0]:
        return same_alt(a.a[1], b.a[1]) and same_alt(a.a[2], b.a[2])
    if a.op == "ite":
        return same_alt(a.a[1], b) and same_alt(a.a[2], b)
    if b.op == "ite":
        return same_alt(a, b.a[1]) and same_alt(a, b.a[2])
    return False


def unwrap_wave(t):
    t = strip(t)
    return t


def wave_match(lobs, wave):
    """transmission wavelengths are those of the rebinning: dwave[k] of dict dwave, or the same array"""
    l = unwrap_wave(lobs)
    if wave is None or is_const(wave, None):
        return None
    w = unwrap_wave(wave)
    if l is w:
        return True
    if l.op == "sub":
        if strip(l.a[0]) is w:
            return True
    if l.op == "idx" or l.op == "sub":
        return None
    return False


def out_calls(ctx):
    return [e for I in ctx._cache.values() for e in effs(I, "call") if e.result.op == "call" and ckw(e.result, "out") is not None and any(contains(x, is_T) for x in cargs(e.result))]


def judge(ctx, rule, where, paths, what, trans_params=(), pre=()):
    """every path from a rebinning to the consumer carries exactly one matching transmission, or none where it is None"""
    if not paths:
        raise Undecided("no rebinned template found in " + what)
    for p in paths:
        none, other = none_lits(p.lits)
        r = p.root
        if id(r) in pre:
            ctx.ob(rule + "/once", not p.ts, where, "%s: already absorbed templates are multiplied by the transmission again" % what)
            continue
        z, own, wave = rebin_z(ctx, r)
        if not p.ts:
            ok = any(any(is_T(y) or y in trans_params or any(is_T(w) or w in trans_params for w in subterms(y)) for y in n) for n in none)
            if not ok and any("LyA" in show(c)[:400] for c, _ in other):
                raise Undecided("the wavelength range of the absorption is tested by the caller")
            if not ok and out_calls(ctx):
                raise Undecided("in-place numpy.multiply(out=)")
            ctx.ob(rule + "/once", ok, where, "%s: templates reach the fit without the IGM transmission%s" % (
                what, "" if not other else " when " + "; ".join(("" if q else "not ") + show(c)[:80] for c, q in other[:3])))
            continue
        ctx.ob(rule + "/once", len(p.ts) == 1, where, "%s: the IGM transmission is applied %d times" % (what, len(p.ts)))
        alt = [x.a[0] for g in p.ts if isinstance(g, tuple) for x in g if x.op == "const" and str(x.a[0]).startswith("altered")]
        ctx.ob(rule + "/unaltered", not alt, where, "%s: the IGM transmission is %s" % (what, alt[0] if alt else ""))
        for grp in p.ts:
            for t in (grp if isinstance(grp, tuple) else (grp,)):
                if t in trans_params:
                    continue
                if not is_T(t):
                    continue
                tz, tl, tm = arg(t, "zObj", 0), arg(t, "lObs", 1), arg(t, "model", 3)
                if z is None:
                    ctx.undecided.append((rule, "redshift of the rebinning in " + what))
                else:
                    ctx.ob(rule + "/redshift", same_alt(z, tz), where, "%s: transmission at another redshift (%s) than the rebinning (%s)" % (what, show(zof(tz))[:60], show(zof(z))[:60]))
                ok = wave_match(tl, wave)
                if ok is False:
                    ctx.ob(rule + "/wavelength", False, where, "%s: transmission on another wavelength grid (%s)" % (what, show(tl)[:80]))
                elif ok:
                    ctx.ob(rule + "/wavelength", True, where, "")
                if own is not None:
                    m = strip(tm) if tm is not None else None
                    ok = m is not None and m.op == "attr" and m.a[1] in ("igm_model", "_igm_model") and (strip(m.a[0]) is strip(own) or same_alt(m.a[0], own))
                    ctx.ob(rule + "/model", ok, where, "%s: transmission of another IGM model than the template names (%s)" % (what, show(tm)[:60] if tm is not None else "default"))


def judge_keys(ctx, rule, where, flow, what):
    """data[k] is multiplied by the transmission of wavelengths k"""
    for k, v in flow.loops:
        for x in subterms(v):
            if not (x.op == "bin" and x.a[0] == "*"):
                continue
            ts = [y for f in factors(x) if not flow.paths(f) for y in flow.tsof(f)]
            ds = [f for f in factors(x) if flow.paths(f)]
            for t in ts:
                l = strip(arg(t, "lObs", 1)) if is_T(t) else None
                if l is None:
                    continue
                if l.op == "sub":
                    ctx.ob(rule + "/grid", strip(l.a[1]) is strip(k), where, "%s: element %s multiplied by the transmission of wavelengths %s" % (what, show(k)[:50], show(l.a[1])[:50]))


def loops_cover(ctx, rule, I, flow, what):
    """multiplication loops run over all wavelength grids"""
    for e in effs(I, "setitem", "aug"):
        if e.d.get("op") != "*" or not flow.tsof(e.value) or not e.loops:
            continue
        it = e.loops[-1]
        src = strip(it.a[0])
        if src.op == "sub" and src.a[1].op == "slice":
            ctx.ob(rule + "/all-grids", False, e, "%s: the transmission is applied to a part of the wavelength grids" % what)
        else:
            ctx.ob(rule + "/all-grids", True, e, "")
        for b in effs(I, "break", "return"):
            if b.loops and b.loops[-1] is it and b.kind == "break":
                ctx.ob(rule + "/all-grids", False, b, "%s: the loop over wavelength grids ends early" % what)


def r_scan(ctx):
    I = ctx.interp(TD)
    es = [e for e in effs(I, "call") if fname(e.fn).endswith("DistTemplatePiece")]
    n = 0
    for e in es:
        d = e.d["bound"].get("data") if e.d.get("bound") else None
        if d is None:
            continue
        f = Flow()
        ps = f.paths(d)
        if not ps:
            continue
        n += 1
        judge(ctx, ctx.cur, e, ps, "coarse scan")
        judge_keys(ctx, ctx.cur, e, f, "coarse scan")
        loops_cover(ctx, ctx.cur, I, f, "coarse scan")
    if not n:
        raise Undecided("no piece of rebinned data")


def consumers(I):
    for e in effs(I, "call"):
        n = fname(e.fn).rsplit(".", 1)[-1]
        if n in KERNELS and e.d.get("bound"):
            d = e.d["bound"].get("tdata")
            if d is None:
                d = e.d["bound"].get("binned")
            if d is not None and not is_const(d, None):
                yield e, n, d


def r_refine(ctx):
    I = ctx.interp(FZ)
    k = 0
    for e, n, d in consumers(I):
        f = Flow()
        k += 1
        judge(ctx, ctx.cur, e, f.paths(d), "refinement")
        judge_keys(ctx, ctx.cur, e, f, "refinement")
        loops_cover(ctx, ctx.cur, I, f, "refinement")
    if k < 1:
        raise Undecided("no fit in the refinement")


def r_arch(ctx):
    I = ctx.interp(GB)
    tp = mk("param", GB, "trans")
    k = 0
    for e, n, d in consumers(I):
        f = Flow(trans=[tp])
        k += 1
        judge(ctx, ctx.cur, e, f.paths(d), "archetype fit", (tp,))
        judge_keys(ctx, ctx.cur, e, f, "archetype fit")
        if n == "nearest_neighbour_model":
            tr = e.d["bound"].get("trans")
            b = e.d["bound"].get("binned")
            zz = e.d["bound"].get("z")
            if (b is None or is_const(b, None)) and tr is not None:
                ts = Flow(trans=[tp]).tsof(tr)
                ctx.ob("archetypes/nearest", bool(ts), e, "no transmission is passed to the nearest-neighbour fit")
    if not k:
        raise Undecided("no fit of archetypes")
    I = ctx.interp(NN)
    bp, tp = mk("param", NN, "binned"), mk("param", NN, "trans")
    k = 0
    premult = True
    for e, n, d in consumers(I):
        f = Flow(data=[bp], trans=[tp])
        k += 1
        judge(ctx, ctx.cur, e, f.paths(d), "nearest-neighbour fit", (tp,), pre=(id(bp),))
        judge_keys(ctx, ctx.cur, e, f, "nearest-neighbour fit")
    if not k:
        raise Undecided("no nearest-neighbour fit")


def r_models(ctx):
    for q, what in ((TE, "template model"), (AE, "archetype model")):
        I = ctx.interp(q)
        f = Flow()
        judge(ctx, ctx.cur, q, f.paths(I.ret), what)
        # the resolution blurs the absorbed spectrum: absorption comes first
        R = mk("param", q, "R")
        t = assume(I.ret, {mk("cmp", "is", R, NONE): False})
        out, has_ = outside_product(t, R, lambda x: is_call(x, TL))
        if has_:
            ctx.ob(ctx.cur + "/before-resolution", not out, q, "the %s is absorbed after it was convolved with the resolution; in the fit before" % what)


def r_noop(ctx):
    """the shortcut without absorption is taken only where nothing is absorbed"""
    I = ctx.interp(TL)
    Z, L = mk("param", TL, "zObj"), mk("param", TL, "lObs")
    model = mk("param", TL, "model")
    aw = None
    seen = 0
    conds = []
    for e in effs(I, "return"):
        if is_const(e.value, None):
            conds.append((e, [(g, True) for g, kk in e.guards if kk in ("if", "ret")]))

    def walk(t, lits):
        if t.op == "ite":
            walk(t.a[1], lits + [(t.a[0], True)])
            walk(t.a[2], lits + [(t.a[0], False)])
        elif is_const(t, None) or (is_call(t, "numpy.ones", "cupy.ones", "numpy.ones_like")):
            conds.append((None, lits))
    conds = []
    walk(I.ret, [])
    for e, lits in conds:
        # positive literals of the innermost decision
        if not lits:
            ctx.ob("noop/condition", False, TL, "the transmission is never computed")
            continue
        c, pol = lits[-1]
        c = c if pol else mk("not", c)
        for alt in dnf(c):
            ok = False
            for a, p in alt:
                if a.op == "cmp" and a.a[0] in ("is", "==") and p and any(y is model for y in a.a[1:]) and any(is_const(y, None) or is_const(y, "None") for y in a.a[1:]):
                    ok = True
                if a.op == "cmp" and a.a[0] in ("<", "<=") and any(True for _ in [0]):
                    lo, hi = (a.a[1], a.a[2]) if p else (a.a[2], a.a[1])
                    seen += 1
                    r = short_ok(lo, hi, Z, L)
                    if r is None:
                        ctx.undecided.append((ctx.cur, "condition of the shortcut: " + show(a)[:100]))
                        ok = True
                    elif r:
                        ok = True
                    else:
                        ctx.ob("noop/condition", False, TL, "absorption is skipped although part of the wavelengths is shortward of Lyman alpha: " + show(a)[:100])
                        ok = True
            ctx.ob("noop/shortcut", ok, TL, "absorption is skipped without testing the wavelength range or the model (%s)" % "; ".join(show(a)[:60] for a, p in alt))
    if not conds:
        ctx.ob("noop/shortcut", True, TL, "no shortcut")


def dnf(c):
    """alternatives [(atom, polarity)...] of a condition"""
    def rec(x, p):
        if x.op == "not":
            return rec(x.a[0], not p)
        if x.op in ("and", "or"):
            conj = (x.op == "and") == p
            parts = [rec(y, p) for y in x.a]
            if conj:
                out = [()]
                for q in parts:
                    out = [o + a for o in out for a in q]
                return out[:64]
            return [a for q in parts for a in q]
        return [((x, p),)]
    return rec(c, True)


def short_ok(lo, hi, Z, L):
    """lo < hi with hi the smallest rest wavelength and lo Lyman alpha.  None: not understood"""
    ly = lambda y: y.op in ("global", "attr") and "LyA_wavelength" in show(y)
    if ly(strip(hi)) and not contains(lo, ly) and contains(lo, lambda y: y is L):
        return False
    if not any(y.op in ("global", "attr") and "LyA_wavelength" in show(y) for y in [lo]) and not (is_const(strip(lo)) and isinstance(strip(lo).a[0], (int, float))):
        return None
    if is_const(strip(lo)) and strip(lo).a[0] < 1215.0:
        return False
    h = strip(hi)

    def minmax(t):
        """'min'/'max' extremum of parameter"""
        t = strip(t)
        if is_call(t, "numpy.min", "cupy.min", "builtins.min", "numpy.amin", "numpy.nanmin"):
            return "min", strip(t.a[1])
        if is_call(t, "numpy.max", "cupy.max", "builtins.max", "numpy.amax", "numpy.nanmax"):
            return "max", strip(t.a[1])
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("min", "max"):
            return t.a[0].a[1], strip(t.a[0].a[0])
        return None, t
    if h.op == "bin" and h.a[0] == "/":
        num, den = h.a[1], strip(h.a[2])
        kn, vn = minmax(num)
        zs = [x for x in addends(den) if not is_const(strip(x))]
        one = [x for x in addends(den) if is_const(strip(x))]
        if len(zs) != 1 or len(one) != 1 or strip(one[0]).a[0] != 1:
            return None
        kz, vz = minmax(zs[0])
        if vz is not Z or vn is not L:
            # min of the whole quotient?
            return None
        if kn is None or kz is None:
            return False
        return kn == "min" and kz == "max"
    k, v = minmax(h)
    if k == "max":
        return False
    return None


def r_dispatch(ctx):
    I = ctx.interp(TL)
    Z, L, M, G = (mk("param", TL, n) for n in ("zObj", "lObs", "model", "use_gpu"))
    n = 0
    for e in effs(I, "call"):
        f = fname(e.fn)
        if not f.endswith(("transmission_Lyman_CaluraKamble", "transmission_IGM_Inoue14")) or not e.d.get("bound"):
            continue
        n += 1
        b = e.d["bound"]
        for nm, want in (("zObj", Z), ("lObs", L)):
            v = b.get(nm)
            ok = v is not None and (strip(v) is want or contains(v, lambda x: x is want)) and not contains(v, lambda x: x is (L if want is Z else Z))
            ctx.ob("dispatch/arguments", ok, e, "%s of the transmission is %s" % (nm, show(v)[:60] if v is not None else "missing"))
        if "model" in b and f.endswith("CaluraKamble"):
            ctx.ob("dispatch/model", strip(b["model"]) is M, e, "the constants of model %s are used whatever the template names" % show(b["model"])[:40])
        # which model leads here
        names = model_names(e, M)
        if names is not None:
            want = {"Calura12", "Kamble20"} if f.endswith("CaluraKamble") else {"Inoue14"}
            ctx.ob("dispatch/branch", names == want, e, "used for models %s" % sorted(names))
    if n < 2:
        raise Undecided("transmission functions of the models")
    # constants of the model
    I = ctx.interp(CK)
    M = mk("param", CK, "model")
    for e in I.effects:
        for t in e.terms() if hasattr(e, "terms") else [v for v in e.d.values() if isinstance(v, T)]:
            for x in subterms(t):
                if x.op == "sub" and show(x.a[0]).endswith("Lyman_series"):
                    ctx.ob("dispatch/constants", x.a[1] is M, e, "constants of %s" % show(x.a[1])[:40])
                    return


def model_names(e, M):
    """values of the model for which the call is reached"""
    dom = ["Calura12", "Kamble20", "Inoue14", "None", None]
    out = set()

    def ev(c, v):
        if c.op == "not":
            r = ev(c.a[0], v)
            return None if r is None else not r
        if c.op in ("and", "or"):
            rs = [ev(x, v) for x in c.a]
            if c.op == "and":
                return False if any(r is False for r in rs) else (True if all(r is True for r in rs) else None)
            return True if any(r is True for r in rs) else (False if all(r is False for r in rs) else None)
        if c.op == "cmp":
            o, a, b = c.a
            if b is M:
                a, b = b, a
            if a is M:
                b = strip(b)
                if o in ("==", "is") and is_const(b):
                    return b.a[0] == v
                if o == "in" and b.op in ("tuple", "list", "set") and all(is_const(x) for x in b.a):
                    return v in [x.a[0] for x in b.a]
        return None
    for v in dom:
        ok = True
        for g, k in e.guards:
            if k in ("raise", "loopexit"):
                continue
            if ev(g, v) is False:
                ok = False
        if ok and v in ("Calura12", "Kamble20", "Inoue14"):
            out.add(v)
    return out


def r_attr(ctx):
    """igm_model is the RRIGM keyword of the template file"""
    q = "redrock.templates.Template.__init__"
    I = ctx.interp(q)
    vs = [e for e in effs(I, "setattr") if e.attr == "_igm_model"]
    if not vs:
        raise Undecided("_igm_model is not set in Template.__init__")
    hits = [e for e in vs if contains(e.value, lambda x: is_const(x, "RRIGM"))]
    ctx.ob("model/keyword", bool(hits), q, "the RRIGM keyword of the file is ignored")
    for e in hits:
        gs = [g for g, k in e.guards if k == "if"]
        flat = [y for g in gs for y in (g.a if g.op == "and" else [g])]
        for g in flat:
            if contains(g, lambda x: is_const(x, "RRIGM")):
                pos = not (g.op == "not")
                ctx.ob("model/keyword", pos, e, "read only when missing")
    # later overrides under the same condition
    for e in vs:
        if e in hits:
            continue
        later = I.effects.index(e) > max(I.effects.index(h) for h in hits) if hits else False
        gs = [y for g, k in e.guards if k in ("if", "ret") for y in (g.a if g.op == "and" else [g])]
        excl = any(g.op == "not" and contains(g, lambda x: is_const(x, "RRIGM")) or (g.op == "cmp" and contains(g, lambda x: is_const(x, "RRIGM")) and g.a[0] in ("not in",)) for g in gs)
        other = any(contains(g, lambda x: x.op == "param" and x.a[1] in ("filename", "spectype", "redshifts")) for g in gs)
        if later and not excl and not other:
            ctx.ob("model/keyword", False, e, "the RRIGM keyword is overridden")
    # a template given as arrays: the model that was asked for
    fn, im = mk("param", q, "filename"), mk("param", q, "igm_model")
    env = {mk("cmp", "is", fn, const(None)): True, mk("cmp", "==", fn, const(None)): True}
    for e in vs:
        if is_const(assume(guard_term(e), env), False):
            continue
        if contains(guard_term(e), lambda x: x is fn):
            v = strip(assume(e.value, env))
            ctx.ob("model/given", contains(v, lambda x: x is im) or v.op not in ("const", "param"), e, "the absorption model of a template given as arrays is " + show(v)[:60])
    P = ctx.interp("redrock.templates.Template.igm_model")
    r = strip(P.ret)
    ctx.ob("model/property", r.op == "attr" and r.a[1] == "_igm_model", "redrock.templates.Template.igm_model", "returns " + show(r)[:60])


def r_lines(ctx):
    """no line is skipped unless every wavelength is longward of it"""
    I = ctx.interp(CK)
    n = 0
    for e in I.effects:
        if e.kind not in ("setitem", "aug") or e.d.get("op") != "*" or not e.loops:
            continue
        n += 1
        for g, k in e.guards:
            if k in ("raise",):
                continue
            for x in subterms(g):
                if x.op == "cmp" and x.a[0] in ("<", "<=", ">", ">="):
                    mx = contains(x, lambda y: is_call(y, "numpy.max", "cupy.max", "numpy.mean", "numpy.median", "builtins.max", "numpy.amax") or (y.op == "attr" and y.a[1] in ("max", "mean")))
                    ctx.ob("lines/skip", not mx, e, "a line is skipped although some wavelengths are shortward of it: " + show(x)[:80])
    if not n:
        raise Undecided("no accumulation of line absorption")
    for q in (CK, IN):
        I = ctx.interp(q)
        Z, L = mk("param", q, "zObj"), mk("param", q, "lObs")
        outer = [x for e in I.effects for t in e.d.values() if isinstance(t, T) for x in subterms(t) if is_call(x, "numpy.outer", "cupy.outer")]
        outer = list({id(x): x for x in outer}.values())
        for x in outer:
            a = cargs(x)
            if len(a) != 2:
                continue
            if contains(a[0], lambda y: y is Z) and contains(a[1], lambda y: y is L):
                want = mk("bin", "/", mk("const", 1), mk("bin", "+", mk("const", 1), Z)) if False else None
                d = strip(a[0])
                inv = d.op == "bin" and (d.a[0] == "/" or (d.a[0] == "**" and is_const(d.a[2]) and d.a[2].a[0] == -1))
                ctx.ob("lines/rest-frame", bool(inv), q, "rest wavelengths are not observed wavelengths divided by 1+z")


def run(ctx):
    for name, text, f in (
            ("scan", "in the coarse scan each rebinned template reaches the local piece with exactly one transmission factor (or none exactly where the transmission is None), computed from the redshifts, the wavelength grid and the IGM model of that rebinning", r_scan),
            ("refine", "the same for both fits of the refinement", r_refine),
            ("archetypes", "the same for archetype fits, including the nearest-neighbour refit, which does not multiply an already absorbed array again", r_arch),
            ("models", "the same for Template.eval and Archetype.eval", r_models),
            ("noop", "the shortcut without absorption is taken only for model None or when the smallest rest wavelength (smallest wavelength, largest redshift) is longward of Lyman alpha", r_noop),
            ("dispatch", "every model name leads to its own function with the caller's redshifts and wavelengths, and to its own constants", r_dispatch),
            ("model", "the model is the RRIGM keyword of the template file", r_attr),
            ("lines", "no line is skipped for wavelengths shortward of it; rest wavelengths are observed wavelengths over 1+z", r_lines)):
        ctx.rule(name, text, f)
