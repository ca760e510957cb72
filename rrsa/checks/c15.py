"""C15: flux, variance, mask and resolution of a spectrum come from the same row."""
import operator
from ..q import *
from ..arith import poly, pconst
from ..terms import *
from ..terms import mksub, mkcmp
from ..ctx import Undecided, Stop
from .c20 import parts

Q = "redrock.external.desi.DistTargetsDESI.__init__"
TG = "redrock.targets.Target"
SP = "redrock.targets.Spectrum"
KIND = {"flux": "FLUX", "ivar": "IVAR", "R": "RESOLUTION", "_Rcsr": "RESOLUTION"}
KINDS = ("FLUX", "IVAR", "MASK", "RESOLUTION")


def bare(t):
    """without copies, element stores and missing alternatives"""
    while True:
        u = strip(t)
        if u.op in ("store", "mut"):
            u = u.a[0] if u.op == "store" else u.a[1]
        elif u.op == "ite" and u.a[1] is NONE:
            u = u.a[2]
        elif u.op == "ite" and u.a[2] is NONE:
            u = u.a[1]
        elif u.op == "ite" and bare(u.a[1]) is bare(u.a[2]):
            u = bare(u.a[1])
        elif u.op == "bin" and u.a[0] == "*" and len(u.a) == 3 and any(is_const(x) for x in u.a[1:]):
            u = [x for x in u.a[1:] if not is_const(x)][0]
        if u is t:
            return t
        t = u


class Load(object):
    def __init__(self, ctx, args=None):
        self.ctx = ctx
        self.I = I = ctx.interp(Q, stop_extra=(TG + ".compute_coadd",), args=args if args is not None else {"comm": NONE})
        sp = [e for e in I.effects if e.kind == "call" and fname(e.fn) == SP]
        tg = [e for e in I.effects if e.kind == "call" and fname(e.fn) == TG]
        if len(sp) != 1 or len(tg) != 1:
            raise Undecided("%d spectra and %d targets are created" % (len(sp), len(tg)))
        self.sp, self.tg = sp[0], tg[0]
        if len(self.tg.loops) != 1:
            raise Undecided("targets are created in %d loops" % len(self.tg.loops))
        self.T = strip(self.tg.loops[0].a[0])
        self.pre = list(self.sp.loops)
        self.fills = []
        for e in I.effects:
            if e.kind == "setattr" and e.attr in KIND:
                s = self.slot(e.base)
                if s:
                    self.fills.append((e, e.attr, s))
            elif e.kind == "setitem" and bare(e.base).op == "attr" and bare(e.base).a[1] in ("ivar", "flux"):
                s = self.slot(bare(e.base).a[0])
                if s:
                    self.fills.append((e, bare(e.base).a[1], s))
        if not self.fills:
            raise Undecided("no spectrum is filled")

    def slot(self, t):
        """(target position, spectrum position) of an element of the local data"""
        t = bare(t)
        if t.op != "sub" or bare(t.a[0]).op != "attr" or bare(t.a[0]).a[1] != "spectra":
            return None
        tt = bare(bare(t.a[0]).a[0])
        if tt.op != "sub":
            return None
        v = bare(tt.a[0])
        if v.op == "comp" and v.a[0] == "list" and is_call(strip(v.a[1]), TG) or v.op in ("loop", "app"):
            return tt.a[1], t.a[1]
        return None

    def kindof(self, it):
        s = strip(it.a[0])
        if s is self.T:
            return "T"
        if is_range(s):
            r = rargs(s)
            n = strip(r[-1] if len(r) < 3 else r[1])
            if is_call(n, "builtins.len") and (len(r) == 1 or is_const(r[0]) and r[0].a[0] == 0):
                s = strip(cargs(n)[0])
        return deep_strip(s)

    def loopelem(self, e, n):
        it = e.loops[n]
        return mksub(it.a[0], mk("idx", it.a[0], it.a[1]))


def target_of(x, L, e, s):
    """the target loop of a fill and the target's identifier"""
    for it in e.loops:
        if strip(it.a[0]) is L.T:
            return it
    return None


def r_position(ctx, L):
    n = 0
    for e, a, (pos, k) in L.fills:
        n += 1
        it = target_of(None, L, e, pos)
        if it is None:
            raise Undecided("the target loop at %s is not recognised" % e.where)
        p = strip(pos)
        key = "%s: position of the target" % a
        if p.op == "idx":
            s = strip(p.a[0])
            ctx.ob(key, s is L.T or s.op == "comp", e, "data is stored at the position of another sequence")
            continue
        if p.op == "sub":
            d = strip(p.a[0])
            if d.op == "comp" and d.a[0] == "dict":
                kk, vv = [strip(y) for y in d.a[1].a]
                ok = kk.op == "sub" and strip(kk.a[0]) is L.T and vv.op == "idx" and vv is kk.a[1] and d.a[2] is TRUE
                tid = strip(p.a[1])
                mine = tid.op == "sub" and strip(tid.a[0]) is L.T and tid.a[1].op == "idx"
                if ok and mine:
                    ctx.ob(key, True, e)
                    continue
        if p.op == "mu":
            if strip(p.a[1].a[0]) is not L.T:
                raise Undecided("the position of the target counts over another loop")
            bad = None
            if not is_const(p.a[2]):
                bad = "?"
            elif p.a[2].a[0] != 0:
                bad = "positions start at %s" % show(p.a[2])
            for b in L.I.muall.get(p.id, []):
                for conds, v in ites(b):
                    d = pconst(poly(mk("bin", "-", v, p)))
                    if d is None:
                        bad = bad or "?"
                    elif d != 1:
                        bad = "the position advances by %s for a target%s" % (d, "" if not conds else " when " + " and ".join(show(c) for c in conds)[-120:])
            if bad == "?":
                raise Undecided("the position of the target at %s is not understood" % e.where)
            ctx.ob(key, bad is None, e, bad or "")
            continue
        c = pconst(poly(mk("bin", "-", p, mk("idx", it.a[0], it.a[1]))))
        if c is not None:
            ctx.ob(key, c == 0, e, "the position is off by %s" % c)
            continue
        raise Undecided("the position %s at %s is not understood" % (show(p)[-80:], e.where))


def counter(ctx, L, e, k, key):
    """the spectrum position: one step for every spectrum of the target"""
    k = strip(k)
    it = target_of(None, L, e, None)
    t = mksub(it.a[0], mk("idx", it.a[0], it.a[1]))
    off = 0
    if k.op == "bin":
        for x in k.a[1:]:
            if x.op == "sub" and strip(x.a[0]).op == "mu":
                d = pconst(poly(mk("bin", "-", k, x)))
                if d is not None and d != 0:
                    ctx.ob(key, False, e, "the position is off by %s" % d)
                    return
    if k.op != "sub" or strip(k.a[0]).op != "mu":
        raise Undecided("the spectrum position at %s is not a running count" % e.where)
    ctx.need(key + " is counted per target", strip(k.a[1]) is strip(t) or strip(k.a[1]).op != "sub" or strip(strip(k.a[1]).a[0]) is not L.T, e, "the count of another target is used")
    if strip(k.a[1]) is not strip(t):
        raise Undecided("the count at %s is not per target" % e.where)
    m = strip(k.a[0])
    for lv in range(len(e.loops) - 1, -1, -1):
        here = e.loops[lv]
        if m.op != "mu":
            kd = L.kindof(here)
            v = strip_alloc(m)
            if v.op in ("comp", "dict", "store") or is_const(v):
                ctx.ob(key + " runs over all files, cameras and exposures", False, e, "the count restarts inside the loop over %s" % show(e.loops[lv - 0].a[0])[-60:])
                return
            if v.op == "loop":
                up = [x for x in subterms(v.a[1]) if x.op == "store" and (pconst(poly(mk("bin", "-", x.a[2], mksub(strip(x.a[0]), x.a[1])))) or 0) > 0]
                if up:
                    ctx.ob(key + " is its own", False, e, "another pass over the spectra has already advanced this count")
                    return
            raise Undecided("the count at %s is not understood" % e.where)
        if m.a[1] is not here:
            raise Undecided("the count at %s belongs to another loop" % e.where)
        inner = lv == len(e.loops) - 1
        bodies = L.I.muall.get(m.id, [])
        if not bodies:
            raise Undecided("the count is never advanced")
        for b in bodies:
            for conds, v in cases_of(b):
                v0 = v
                while v.op == "alloc":
                    v = v.a[1]
                if inner:
                    if v is m:
                        ctx.ob(key + " advances for every spectrum", False, e, "it stays when " + (" and ".join(show(c)[-80:] for c in conds) or "(always)"))
                        return
                    if v.op == "store" and strip(v.a[0]) is m and strip(v.a[1]) is strip(t):
                        d = pconst(poly(mk("bin", "-", v.a[2], mksub(m, v.a[1]))))
                        if d is None:
                            raise Undecided("step of the count at %s" % e.where)
                        ctx.ob(key + " advances for every spectrum", d == 1, e, "it advances by %s" % d)
                        if d != 1:
                            return
                    elif v.op == "store" and strip(v.a[0]) is m and strip(v.a[1]).op == "sub" and strip(strip(v.a[1]).a[0]) is L.T:
                        ctx.ob(key + " advances for every spectrum", False, e, "the count of another target advances")
                        return
                    else:
                        raise Undecided("the count at %s is updated in an unknown way" % e.where)
                else:
                    nxt = e.loops[lv + 1]
                    if v is m:
                        # without spectra of this target in this file there is nothing to count
                        if not empty(L, conds):
                            if not conds:
                                raise Undecided("the count at %s does not advance" % e.where)
                            ctx.ob(key + " runs over all files, cameras and exposures", False, e, "it stays when " + " and ".join(show(c)[-80:] for c in conds))
                            return
                    elif v.op == "loop" and strip(v.a[0]).op == "mu" and strip(v.a[0]).a[1] is nxt:
                        i = strip(v.a[0]).a[2]
                        if strip(i) is not m and strip_alloc(i).op in ("comp", "dict"):
                            ctx.ob(key + " runs over all files, cameras and exposures", False, e, "the count restarts for every %s" % show(here.a[0])[-60:])
                            return
                    else:
                        raise Undecided("the count at %s is updated in an unknown way" % e.where)
        m = strip(m.a[2]) if m.a[2].op != "alloc" else m.a[2]
        if m.op == "alloc" and m.a[1].op in ("mu", "loop"):
            m = m.a[1]
    v = strip(m)
    zero = v.op == "comp" and v.a[0] == "dict" and is_const(v.a[1].a[1]) and v.a[2] is TRUE or v.op == "call" and "defaultdict" in fname(v.a[0]) or v.op == "call" and fname(v.a[0]).endswith("fromkeys")
    if not zero:
        raise Undecided("the count starts from %s" % show(v)[:80])
    if v.op == "comp":
        ctx.ob(key + " starts at the first spectrum", v.a[1].a[1].a[0] == 0, e, "it starts at %s" % show(v.a[1].a[1]))
        ctx.ob(key + " exists for every local target", strip(v.a[3].a[0]) is L.T, e, "it is kept for %s" % show(v.a[3].a[0])[-60:]) if strip(v.a[3].a[0]) is L.T else None


def cases_of(t):
    return [([c for c in conds], v) for conds, v in ites(t)]


def empty(L, conds):
    """the target has no spectra in this file, or the file none that are kept"""
    c = mkand(*conds)
    ok = []
    for a in batoms(c):
        x = strip(a)
        if x.op == "cmp" and x.a[0] == "in" and strip(x.a[1]).op == "sub" and strip(strip(x.a[1]).a[0]) is L.T:
            ok.append(mknot(a))
        elif any(is_call(y, "builtins.len", "numpy.size") for y in subterms(x)):
            ok += [a, mknot(a)]
    return any(b_implies(c, o) for o in ok)


def subterms(t):
    seen, st = set(), [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        st.extend(y for y in x.a if isinstance(y, T))


def r_counter(ctx, L):
    und = None
    for e, a, (pos, k) in L.fills:
        try:
            counter(ctx, L, e, k, "%s: position of the spectrum" % a)
        except Stop:
            pass
        except Undecided as u:
            und = u
    if und:
        raise und


def peelorder(t):
    """(sequence, how its order is changed)"""
    tags = []
    while True:
        u = strip_alloc(t)
        if is_call(u, "builtins.sorted", "numpy.sort") and cargs(u):
            r = ckw(u, "reverse")
            k = ckw(u, "key")
            tags.append("sorted" + ("" if k is None or k is NONE else " by " + show(k)) + (" backwards" if r is not None and not is_const(r, False) else ""))
            t = cargs(u)[0]
        elif is_call(u, "builtins.reversed") and cargs(u):
            tags.append("backwards")
            t = cargs(u)[0]
        elif u.op == "sub" and u.a[1].op == "slice" and u.a[1].a[0] is NONE and u.a[1].a[1] is NONE and is_const(u.a[1].a[2], -1):
            tags.append("backwards")
            t = u.a[0]
        elif is_call(u, "builtins.set", "numpy.unique") and cargs(u):
            tags.append("as a set")
            t = cargs(u)[0]
        elif is_call(u, "builtins.list", "builtins.tuple") and len(cargs(u)) == 1 and tags:
            t = cargs(u)[0]
        else:
            return t, tuple(tags[::-1])


def unordered(t):
    """the same with elements of a re-ordered sequence written as elements of the sequence"""
    def f(x):
        if x.op == "idx":
            b, o = peelorder(x.a[0])
            return mk("idx", b, *x.a[1:]) if o else x
        if x.op == "sub" and x.a[1].op == "idx":
            b, o = peelorder(x.a[0])
            return mk("sub", b, x.a[1]) if o else x
        return x
    return rewrite(t, f)


def r_order(ctx, L):
    pre = [L.kindof(x) for x in L.pre]
    if pre.count("T") != 1 or pre[0] != "T":
        raise Undecided("spectra are not created per target")
    pre = pre[1:]
    done = 0
    peeled = [peelorder(x) for x in pre]
    changed = any(t for _, t in peeled) or any(t for e, a, s in L.fills for x in e.loops if isinstance(L.kindof(x), T) for t in peelorder(L.kindof(x))[1])
    if changed:
        un = lambda b: unordered(deep_strip(b)).id
        pb = {un(b): t for b, t in peeled}
        rows = un(peeled[-1][0])
        seen = {}
        for e, a, s in L.fills:
            f = [peelorder(x) for x in (L.kindof(y) for y in e.loops) if x != "T"]
            if {un(b) for b, _ in f} != set(pb) or len(f) != len(pb):
                raise Undecided("the loops at %s differ from those that create the spectra" % e.where)
            for b, t in f:
                i = un(b)
                if i == rows:
                    # row numbers are listed in increasing order
                    seen.setdefault(t if t != ("sorted",) else (), []).append((e, a))
                else:
                    ctx.ob("%s: filled in the order in which the spectra were created" % a, t == pb[i], e, "%s is run through %s, the spectra were created with it %s" % (show(b)[-40:], " ".join(t) or "in order", " ".join(pb[i]) or "in order"))
        if len(seen) > 1:
            (t1, l1), (t2, l2) = sorted(seen.items(), key=lambda kv: len(kv[1]))[:2]
            ctx.ob("%s: rows in the same order as for the other data" % l1[0][1], False, l1[0][0], "%s runs through the rows of a target %s, %s %s" % (l1[0][1], " ".join(t1) or "in order", l2[0][1], " ".join(t2) or "in order"))
        pre = [unordered(deep_strip(b)) for b, _ in peeled]
    for e, a, s in L.fills:
        f = [L.kindof(x) for x in e.loops]
        if f.count("T") != 1:
            raise Undecided("the target loop at %s" % e.where)
        # identifiers of one loop variable
        f = [x for x in f if x != "T"]
        if changed:
            f = [unordered(deep_strip(peelorder(x)[0])) for x in f]
        if len(f) != len(pre) or {x.id for x in f} != {x.id for x in pre}:
            raise Undecided("the loops at %s differ from those that create the spectra" % e.where)
        ctx.ob("%s: filled in the order in which the spectra were created" % a, all(x is y for x, y in zip(f, pre)), e,
               "loop order differs from that of the spectra at %s" % L.sp.where)
        done += 1
    # appended at the end
    b = L.tg.d.get("bound") or {}
    v = strip(b.get("spectra", NONE))
    n = 0
    for x in subterms(v):
        if x.op == "app" and is_call(strip(x.a[1]), SP):
            n += 1
        if x.op == "comp" and is_call(strip(x.a[1]), SP):
            n += 1
    if n != 1:
        raise Undecided("the list of spectra is built in an unknown way")
    ctx.ob("spectra are appended in creation order", True, L.sp)
    tid = strip(b.get("targetid", NONE))
    it = L.tg.loops[0]
    ctx.ob("target i gets identifier i", tid is strip(mksub(it.a[0], mk("idx", it.a[0], it.a[1]))) or tid.op != "sub" or strip(tid.a[0]) is not L.T, L.tg, "identifier is %s" % show(tid)[-80:])
    for g in flat_guards(L.tg):
        if any(strip(x) is tid for x in subterms(g)):
            raise Undecided("targets are left out when " + show(g)[-100:])


class View(object):
    """an effect as every rank sees it after the broadcasts"""

    def __init__(self, e, f):
        self.kind, self.d, self.where = e.kind, e.d, e.where
        self.value = f(e.value) if e.value is not None else None
        self.loops = [f(x) for x in e.loops]
        self.attr = e.d.get("attr")
        self.key = f(e.key) if e.d.get("key") is not None else None


class MPI(object):
    """the loading code with a communicator"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.bad = []
        self.unknown = []
        self.L = L = Load(ctx, {})
        comm = mk("param", Q, "comm")
        self.lits = {mkcmp("is", comm, NONE): False, mkcmp("==", mk("attr", comm, "rank"), const(0)): True}
        self.I = L.I
        self.T = strip(self.view(L.T))
        self.fills = [(View(e, self.view), a, s) for e, a, s in L.fills]
        self.sp = L.sp
    loopelem = Load.__dict__["loopelem"]
    kindof = Load.__dict__["kindof"]

    def view(self, t):
        return rewrite(assume(t, self.lits), self.f)

    def f(self, x):
        if is_call(x, "bcast") and cargs(x):
            return cargs(x)[0]
        if is_call(x, "numpy.vstack", "numpy.concatenate", "numpy.row_stack") and cargs(x):
            v, tags = peelorder(strip(cargs(x)[0]))
            v = strip(v)
            if tags and v.op == "comp":
                self.bad.append("batches are put together " + " ".join(tags))
            if v.op == "comp" and v.a[0] == "list":
                b = strip(v.a[1])
                it = v.a[3]
                if b.op == "sub" and b.a[1].op == "slice" and it.a[0].op == "range":
                    r = list(it.a[0].a)
                    lo, n, step = (const(0), r[0], const(1)) if len(r) == 1 else (r + [const(1)])[:3]
                    i = mk("idx", it.a[0], it.a[1])
                    size = strip(n)
                    whole = size.op == "sub" and size.a[0].op == "attr" and size.a[0].a[1] == "shape" and is_const(size.a[1]) and size.a[1].a[0] == 0 and strip(size.a[0].a[0]) is strip(b.a[0]) or is_call(size, "builtins.len") and strip(cargs(size)[0]) is strip(b.a[0])
                    s0, s1 = b.a[1].a[0], b.a[1].a[1]
                    w = pconst(poly(mk("bin", "-", mk("bin", "-", s1, s0), step)))
                    o = pconst(poly(mk("bin", "-", s0, i))) if s0 is not NONE else None
                    l = pconst(poly(lo))
                    if not whole:
                        d = [pconst(poly(mk("bin", "-", n, y))) for y in self.sizes(b.a[0], n)]
                        d = [y for y in d if y is not None]
                    else:
                        d = [0]
                    if w is not None and o is not None and l is not None and d and v.a[2] is TRUE:
                        if (w, o, l) != (0, 0, 0) or d[0] != 0:
                            self.bad.append("slices of %s rows are cut every %s rows over %s" % (show(mk("bin", "-", s1, s0))[-30:], show(step), show(it.a[0])[-50:]))
                        return b.a[0]
            ins = [y for y in subterms(v) if y.op == "mut" and y.a[0] == "insert" and is_const(y.a[2]) and y.a[2].a[0] == 0]
            if ins and not any(y.op == "mut" and y.a[0] == "reverse" for y in subterms(v)):
                self.bad.append("batches are put in front of earlier ones")
            self.unknown.append(show(v)[-80:])
        return x

    def sizes(self, b, n):
        out = []
        for y in subterms(n):
            if y.op == "sub" and y.a[0].op == "attr" and y.a[0].a[1] == "shape" and strip(y.a[0].a[0]) is strip(b):
                out.append(y)
            if is_call(y, "builtins.len") and strip(cargs(y)[0]) is strip(b):
                out.append(y)
        return out


def r_mpi(ctx, L):
    M = MPI(ctx)
    for b in sorted(set(M.bad)):
        ctx.ob("batches of a broadcast cover all rows once", False, M.sp, b)
    r_source(ctx, M)
    if not M.bad and M.unknown:
        raise Undecided("how batches are put together: " + M.unknown[0])
    if not M.bad:
        ctx.ob("batches of a broadcast cover all rows once", True, M.sp)
    # data that only the root has
    for e, a, s in M.L.fills:
        if e.value is None:
            continue
        t = rewrite(assume(e.value, {mkcmp("is", mk("param", Q, "comm"), NONE): False}), lambda x: mk("sym", "bcast") if is_call(x, "bcast") else x)
        t = bare(t)
        gs = [a for g in flat_guards(e) for a in batoms(rewrite(g, lambda x: mk("sym", "bcast") if is_call(x, "bcast") else x))]
        if any(rank_zero(g) is not None for g in gs):
            ctx.ob("%s: data reaches every rank" % a, False, e, "only the root fills it")
            continue
        for x in subterms(t):
            if x.op == "ite" and NONE in x.a[1:] and any(rank_zero(y) is not None for y in batoms(x.a[0])):
                ctx.ob("%s: data reaches every rank" % a, False, e, "only the root has it")
                break
        else:
            ctx.ob("%s: data reaches every rank" % a, True, e)


def reads(L, t, out=None, seen=None):
    """rows of HDU data used by a term: [(ext parts, file, [row subscripts])]"""
    out = [] if out is None else out
    seen = set() if seen is None else seen

    def hd(x):
        """HDU data of a file"""
        x = bare(x)
        if x.op == "attr" and x.a[1] == "data":
            h = bare(x.a[0])
            if h.op == "sub":
                o = bare(h.a[0])
                if is_call(o, "open", "astropy.io.fits.open"):
                    return parts(h.a[1]), cargs(o)[0]
        if is_call(x, "getdata") and len(cargs(x)) > 1:
            return parts(cargs(x)[1]), cargs(x)[0]
        if is_call(x, "fitsio.read") and len(cargs(x)) > 1:
            return parts(cargs(x)[1]), cargs(x)[0]
        return None

    def go(x):
        if x.id in seen:
            return
        seen.add(x.id)
        b = bare(x)
        if b.op in ("sub", "attr", "call"):
            subs = []
            y = b
            while True:
                y = bare(y)
                if y.op == "sub" and hd(y) is None:
                    subs.append(y.a[1])
                    y = y.a[0]
                    continue
                break
            h = hd(y)
            if h is not None:
                out.append((h[0], h[1], subs[::-1], x))
                # stores into the block
                st(x)
                return
        for y in x.a:
            if isinstance(y, T):
                go(y)

    def st(x):
        while True:
            if x.op == "store":
                go(x.a[1])
                x = x.a[0]
            elif x.op in ("alloc",):
                x = x.a[1]
            elif x.op == "mut":
                x = x.a[1]
            elif x.op == "sub":
                x = x.a[0]
            elif x.op == "ite":
                go(x.a[0])
                st(x.a[1])
                x = x.a[2]
            elif x.op == "call" and strip(x) is not x:
                x = strip(x)
            else:
                return
    go(t)
    return out


def split_ext(L, p):
    """(band term, KIND) of an extension name"""
    if p is None:
        return None
    txt = [x for x in p if isinstance(x, str)]
    oth = [x for x in p if not isinstance(x, str)]
    if len(oth) != 1 or len(p) < 2 or p[0] is not oth[0]:
        return None
    return oth[0], "".join(txt).lstrip("_")


def r_source(ctx, L):
    rows0 = None
    seenk = {}
    uses = []
    for e, a, s in L.fills:
        v = [e.value] + ([e.key] if e.kind == "setitem" else [])
        rs = []
        for x in v:
            if x is not None:
                rs += reads(L, x)
        direct = [r for r in rs]
        # block-level stores appear before the row is taken
        for p, f, subs, x in rs:
            ex = split_ext(L, p)
            if ex is None:
                raise Undecided("extension name at %s" % e.where)
            uses.append((e, a, s, ex, f, subs))
    if not uses:
        raise Undecided("no HDU data reaches the spectra")
    # the rows that are kept, by majority
    first = {}
    for e, a, s, ex, f, subs in uses:
        if subs:
            first.setdefault(strip(subs[0]).id, [strip(subs[0]), 0])[1] += 1
    rows0 = max(first.values(), key=lambda z: z[1])[0]
    for e, a, s, ex, f, subs in uses:
        fi = [n for n, it in enumerate(e.loops)]
        elems = [L.loopelem(e, n) for n in fi]
        fl = [x for x in elems if strip(x) is strip(f)]
        key = "%s from %s" % (a, ex[1])
        if not fl:
            raise Undecided("the file read at %s is not a loop variable" % e.where)
        band = strip(ex[0])
        b0 = band
        if band.op == "call" and fname(band.a[0]).rsplit(".", 1)[-1] in ("upper", "lower"):
            b0 = strip(band.a[0].a[0]) if band.a[0].op == "attr" else strip(cargs(band)[0])
        bs = [x for x in elems if strip(x) is b0]
        if not bs:
            other = b0.op == "sub" and any(strip(b0.a[0]) is strip(it.a[0]) for it in e.loops)
            if not is_const(b0) and not other:
                raise Undecided("the camera of the extension read at %s" % e.where)
        ctx.ob(key + ": extension of this camera", bool(bs), e, "the extension is that of %s" % show(band)[:60])
        # the camera of the spectra that were created
        ctx.ob(key + ": rows of the selected spectra", not subs or strip(subs[0]) is rows0, e, "rows %s are read, other extensions use %s" % (show(subs[0])[-60:] if subs else "", show(rows0)[-60:]))
        if len(subs) >= 2:
            tr = strip(subs[1])
            rowit = e.loops[-1]
            want = strip(L.loopelem(e, len(e.loops) - 1))
            if tr is want:
                ctx.ob(key + ": row of this spectrum", True, e)
            else:
                rk = L.kindof(rowit)
                # range(len(specs)) loop
                if tr.op == "sub" and deep_strip(tr.a[0]) is rk and tr.a[1].op == "idx" and strip(tr.a[1].a[0]) is strip(rowit.a[0]):
                    ctx.ob(key + ": row of this spectrum", True, e)
                elif not any(y is want for y in subterms(tr)) and rk.op == "sub":
                    ctx.ob(key + ": row of this spectrum", False, e, "row %s is used instead of the one listed for the target" % show(tr)[-60:])
                elif pconst(poly(mk("bin", "-", tr, want))) is not None:
                    ctx.ob(key + ": row of this spectrum", False, e, "row %s is used instead of the one listed for the target" % show(tr)[-60:])
                else:
                    raise Undecided("the row read at %s" % e.where)
    # kinds
    for attr, want in KIND.items():
        for e, a, s, ex, f, subs in uses:
            if a == attr and e.kind == "setattr" and not e.d.get("op") and len(subs) >= 2:
                ctx.ob("%s is read from the %s extension" % (attr, want), ex[1] == want, e, "it is read from %s" % ex[1])
    m = [u for u in uses if u[3][1] == "MASK" and len(u[5]) >= 2]
    if not m:
        raise Undecided("no use of the mask extension is recognised")
    for e, a, s, ex, f, subs in m:
        ctx.ob("the mask is applied to the variance", a == "ivar", e, "it is applied to %s" % a)
        if a != "ivar":
            continue
        val = strip(e.value)
        if e.kind == "setattr" and e.d.get("op") == "*" or e.kind == "setattr":
            c = val
            while c.op == "bin" and c.a[0] == "*":
                c = [x for x in c.a[1:] if reads(L, x)][0]
                c = strip(c)
            if c.op == "cmp" and c.a[0] in ("==", "!=") and any(is_const(y) and y.a[0] == 0 for y in c.a[1:]):
                ctx.ob("pixels with a zero mask are kept", c.a[0] == "==", e, "masked pixels are kept")
            else:
                raise Undecided("how the mask is applied at %s" % e.where)
        elif e.kind == "setitem":
            k = strip(e.key)
            if k.op == "cmp" and k.a[0] in ("==", "!=") and any(is_const(y) and y.a[0] == 0 for y in k.a[1:]):
                ctx.ob("pixels with a zero mask are kept", k.a[0] == "!=" and is_const(val) and val.a[0] == 0, e, "unmasked pixels are zeroed")
            elif k.op == "cmp" and k.a[0] in (">", "<"):
                ctx.ob("pixels with a zero mask are kept", True, e)
            else:
                raise Undecided("how the mask is applied at %s" % e.where)
    L.rows0 = rows0
    L.uses = uses


def r_sibling(ctx, L):
    """values of the spectrum itself that take part in its masking"""
    n = 0
    for e, a, s in L.fills:
        for x in [e.value, e.key if e.kind == "setitem" else None]:
            if x is None:
                continue
            for y in subterms(x):
                if y.op == "attr" and y.a[1] in ("flux", "ivar", "R"):
                    o = L.slot(y.a[0])
                    if o is None:
                        continue
                    n += 1
                    key = "%s uses the %s of the same spectrum" % (a, y.a[1])
                    same = strip(o[0]) is strip(s[0])
                    if not same:
                        raise Undecided("targets compared at %s" % e.where)
                    try:
                        counter(ctx, L, e, o[1], key)
                    except Stop:
                        pass
    ctx.ob("reads of spectra in the loading code: %d" % n, True, L.fills[0][0])


def filt(t, d=0):
    """(base, [selections]) of an array filtered by masks"""
    t = strip(t)
    if t.op == "sub":
        k = strip(t.a[1])
        b, c = filt(t.a[0], d + 1)
        if is_call(k, "numpy.isin", "numpy.in1d") and len(cargs(k)) >= 2:
            return b, c + [(deep_strip(cargs(k)[0]), deep_strip(cargs(k)[1]), False)]
        if is_const(k) and isinstance(k.a[0], str):
            return mk("sub", deep_strip(b), k), c
        if k.op == "slice":
            return b, c + [deep_strip(k)]
        return mk("sub", deep_strip(b), k), c
    return deep_strip(t), []


def r_rows(ctx, L):
    if not hasattr(L, "rows0"):
        raise Undecided("rows were not identified")
    rows = strip(L.rows0)
    I = L.I
    # value stored for this file
    rv = filevalue(L, rows)
    specs = [L.kindof(e.loops[-1]) for e, a, s in L.fills][0]
    sv = None
    writes = []
    for e in I.effects:
        if e.kind == "setitem" and e.value is not None:
            v = strip(e.value)
            if v.op == "comp" and v.a[0] == "list" and len(e.loops) == 2:
                writes.append((e, v))
    cond = None
    if rv is None or rv.op != "comp" or rv.a[0] != "list":
        raise Undecided("rows are %s" % show(rows)[:60])
    el, cn, it = rv.a[1], rv.a[2], rv.a[3]
    sel = row_pred(rv)
    if sel is None:
        raise Undecided("the selection of rows is not understood")
    arr, keep, w = sel
    if w is not None:
        ctx.ob("every row of a kept target is listed", False, L.fills[0][0], w)
        return
    hits = []
    for e, v in writes:
        x = v.a[3]
        c = strip(v.a[2])
        if c.op == "cmp" and c.a[0] == "==" and strip(v.a[1]).op == "idx":
            y = [z for z in c.a[1:] if strip(z).op == "sub" and strip(z).a[1] is strip(v.a[1])]
            if len(y) == 1:
                o = [z for z in c.a[1:] if z is not y[0]][0]
                hits.append((e, strip(strip(y[0]).a[0]), strip(o), strip(e.key)))
        elif c.op == "cmp" and c.a[0] == "==" and strip(v.a[1]).op == "sub" and strip(strip(v.a[1]).a[1]).op == "idx":
            # positions translated back to rows of the file, while the data were cut to the kept rows
            y = deep_strip(strip(v.a[1]).a[0])
            if y.op == "comp" and (y is deep_strip(rv) or show(y) == show(deep_strip(rv))):
                ctx.ob("row numbers index the rows that were read", False, e, "rows of a target are numbered as in the file, but only the kept rows were read")
                return
    if len(hits) != 1:
        raise Undecided("the rows of a target are listed in an unknown way")
    e, seq, tid, key = hits[0]
    ctx.ob("rows are listed for the identifier they carry", tid is key or deep_strip(tid) is deep_strip(key), e, "rows of %s are listed for %s" % (show(tid)[-60:], show(key)[-60:]))
    # both cases of the input
    atoms = set()
    for x in subterms(mk("tuple", arr, seq)):
        if x.op == "ite":
            c = strip(x.a[0])
            if c.op == "cmp" and c.a[0] == "in" and is_const(c.a[1]):
                atoms.add(c)
    if len(atoms) > 1:
        raise Undecided("several kinds of input files")
    for val in (True, False) if atoms else (None,):
        lit = {} if val is None else {next(iter(atoms)): val}
        a = deep_strip(assume(arr, lit))
        k = deep_strip(assume(keep, lit))
        b, cs = filt(assume(seq, lit))
        name = "" if val is None else " (%s %s)" % (show(next(iter(atoms)).a[1]), "present" if val else "absent")
        if len(cs) != 1 or not isinstance(cs[0], tuple):
            if not cs and (deep_strip(b) is a or deep_strip(b).op == "sub" and is_const(deep_strip(b).a[1], "TARGETID") and not contains(strip(deep_strip(b).a[0]), lambda y: is_call(y, "numpy.isin", "numpy.in1d"))):
                ctx.ob("rows of a target index the selected rows" + name, False, e, "they index all rows of the file, but only the selected rows are read")
                continue
            raise Undecided("the list of target rows%s" % name)
        inn, kk, _ = cs[0]
        ctx.ob("identifiers are taken from the table that describes the rows" + name, b is a, e, "rows are selected by %s, target rows are listed from %s" % (show(a)[-60:], show(b)[-60:]))
        ctx.ob("the same rows are selected" + name, deep_strip(inn) is a and kk is k, e, "rows are selected by %s in %s, target rows by %s in %s" % (show(a)[-60:], show(k)[-40:], show(inn)[-60:], show(kk)[-40:]))
        want = "FIBERMAP" if val or val is None else None
        L.table = (a, val)


CMP = {"==": operator.eq, "!=": operator.ne, "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def row_pred(v):
    """(array, kept identifiers, effect) of a list of row numbers whose identifier is kept"""
    el, cn, it = strip(v.a[1]), strip(v.a[2]), v.a[3]
    c = why = None
    if el.op == "ite" and cn.op == "cmp":
        # x if kept else -1, with the negative ones dropped
        pos, neg = strip(el.a[1]), strip(el.a[2])
        if pos.op == "idx" and is_const(neg) and isinstance(neg.a[0], (int, float)) and neg.a[0] < 0:
            if any(strip(x) is el or x is el for x in cn.a[1:]):
                c = strip(el.a[0])
                k = [x for x in cn.a[1:] if is_const(x) and isinstance(x.a[0], (int, float))]
                if len(k) == 1 and cn.a[0] in CMP:
                    k0, first = k[0].a[0], k[0] is cn.a[1]
                    f = lambda z: CMP[cn.a[0]](k0, z) if first else CMP[cn.a[0]](z, k0)
                    lost = [z for z in (0, 1, 2, 10, 10**6) if not f(z)]
                    why = "row %d is left out although its target is kept" % lost[0] if lost else "rows of other targets are kept" if f(neg.a[0]) else None
    elif el.op == "idx" and cn.op == "cmp" and cn.a[0] == "in":
        c = cn
    if c is None or c.op != "cmp" or c.a[0] != "in":
        return None
    y, keep = strip(c.a[1]), c.a[2]
    if y.op != "sub" or y.a[1].op != "idx" or y.a[1].a[0] is not it.a[0]:
        return None
    return y.a[0], keep, why


def filevalue(L, rows):
    """value stored under the file whose rows are looked up"""
    r = strip(rows)
    if r.op != "sub":
        return r if r.op == "comp" else None
    b = strip(r.a[0])
    if b.op == "comp" and b.a[0] == "dict":
        return strip(b.a[1].a[1])
    while b.op == "loop":
        s = strip_alloc(b.a[1])
        if s.op == "store":
            return strip(s.a[2])
        b = b.a[0]
    return None


def r_wave(ctx, L):
    b = L.sp.d.get("bound") or {}
    w, band = strip(b.get("wave", NONE)), strip(b.get("band", NONE))
    elems = [mksub(it.a[0], mk("idx", it.a[0], it.a[1])) for it in L.pre]
    be = [x for x in elems if strip(x) is band]
    if not be or w.op != "sub":
        raise Undecided("wavelengths and camera of a new spectrum")
    fe = [x for x in elems if strip(x) is strip(w.a[0]).a[1]] if strip(w.a[0]).op == "sub" else []
    key = "a spectrum has the wavelengths of its camera and file"
    if strip(w.a[1]) is not band:
        if strip(w.a[1]).op == "sub" and strip(w.a[1]).a[1].op == "idx" or is_const(w.a[1]):
            ctx.ob(key, False, L.sp, "wavelengths of %s, camera %s" % (show(w.a[1])[-60:], show(band)[-60:]))
            return
        raise Undecided("wavelengths of a new spectrum")
    if not fe:
        fk = strip(strip(w.a[0]).a[1]) if strip(w.a[0]).op == "sub" else None
        if fk is not None and (is_const(fk) or fk.op == "sub" and is_const(fk.a[1])):
            ctx.ob(key, False, L.sp, "wavelengths of file %s" % show(fk)[-60:])
            return
        raise Undecided("wavelengths of a new spectrum")
    ctx.ob(key, True, L.sp)
    # the file whose cameras are looped over is the file of the wavelengths
    bs = strip(be[0].a[0])
    if bs.op == "sub":
        ctx.ob("cameras and wavelengths are those of the same file", strip(bs.a[1]) is strip(fe[0]), L.sp, "cameras of %s, wavelengths of %s" % (show(bs.a[1])[-40:], show(fe[0])[-40:]))
    # where the wavelengths are stored
    ws = [e for e in L.I.effects if e.kind == "setitem" and len(e.loops) >= 2 and reads_wave(e)]
    if len(ws) != 1:
        raise Undecided("%d places store wavelengths" % len(ws))
    e = ws[0]
    k = strip(e.key)
    val = strip(e.value)
    h = bare(val.a[0])           # hdus[...]
    name = headername(h)
    if name is None:
        raise Undecided("the extension name of the wavelengths")
    used = [x for x in subterms(k) if x.op == "sub" and is_const(x.a[1]) and x.a[1].a[0] == "EXTNAME"]
    ctx.ob("wavelengths are filed under the camera named by their extension", any(deep_strip(x) is deep_strip(name) for x in used), e, "camera from %s, data from %s" % (show(k)[-60:], show(h)[-40:]))
    gs = flat_guards(e)
    ctx.ob("wavelengths come from WAVELENGTH extensions", any(has_const(g, "WAVELENGTH") for g in gs), e, "no test for the extension type guards the store")


def has_const(t, s):
    return any(is_const(x) and isinstance(x.a[0], str) and s in x.a[0] for x in subterms(t))


def reads_wave(e):
    v = strip(e.value) if e.value is not None else NONE
    return v.op == "attr" and v.a[1] == "data" and bare(v.a[0]).op == "sub"


def headername(h):
    return mk("sub", mk("attr", h, "header"), const("EXTNAME"))


def run(ctx):
    box = {}

    def load(c):
        box["L"] = Load(c)
        c.ob("the loading code fills %d attributes" % len(box["L"].fills), True, box["L"].fills[0][0])
    ctx.rule("fills", "spectra are created empty per target and filled in later passes over the files", load)
    L = box.get("L")
    if L is None:
        return
    ctx.rule("target position", "data is stored with the target at the position of its identifier in the local list", r_position, L)
    ctx.rule("spectrum position", "every pass advances its per-target count by one for every row, over all files and cameras", r_counter, L)
    ctx.rule("loop order", "spectra are filled in the order in which they were created", r_order, L)
    ctx.rule("source", "flux, variance, mask and resolution read the same row of the extension of their kind, camera and file", r_source, L)
    ctx.rule("broadcast", "with MPI every rank fills its spectra from the same rows", r_mpi, L)
    ctx.rule("same spectrum", "masking uses values of the spectrum that is masked", r_sibling, L)
    ctx.rule("row lists", "row numbers listed for a target index the rows that are read", r_rows, L)
    ctx.rule("wavelengths", "every spectrum has the wavelength grid of its camera and file", r_wave, L)
