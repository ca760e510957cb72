"""C30: BOSS target numbers encode plate, MJD and fiber reversibly."""
from ..q import *
from ..logic import *
from ..arith import *
from ..terms import *
from ..ctx import Undecided, Stop

ENC = "redrock.external.boss.platemjdfiber2targetid"
DEC = "redrock.external.boss.targetid2platemjdfiber"
RS = "redrock.external.boss.read_spectra"
INF = float("inf")
PROG = [None]


def enc_coeffs(ctx):
    """(plate, mjd, fiber) multipliers of the encoding"""
    I = ctx.interp(ENC)
    r = unint(I.ret)
    names = ("plate", "mjd", "fiber")
    P = {n: mk("param", ENC, n) for n in names}
    co = {n: 0 for n in names}
    for a in expand(r):
        k, v = 1, None
        for f in factors(a):
            f = unint(f)
            if is_const(f) and isinstance(f.a[0], (int, float)):
                k *= f.a[0]
            elif f in P.values() and v is None:
                v = [n for n in names if P[n] is f][0]
            elif f.op == "bin" and f.a[0] == "**" and is_const(f.a[1]) and is_const(f.a[2]):
                k *= f.a[1].a[0] ** f.a[2].a[0]
            else:
                raise Undecided("encoding term " + show(a)[:80])
        if v is None:
            if k:
                ctx.ob("number/constant", True, ENC, "")
                raise Undecided("constant offset in the number")
            continue
        co[v] += k
    return co


def expand(t):
    """addends with products distributed"""
    out = []
    t = unint(t)
    if t.op == "bin" and t.a[0] in ("<<",) and is_const(t.a[2]):
        return [mk("bin", "*", x, mk("const", 2 ** t.a[2].a[0])) for x in expand(t.a[1])]
    for a in addends(t):
        a = unint(a)
        if a.op == "bin" and a.a[0] == "*":
            parts = [mk("const", 1)]
            for f in a.a[1:]:
                f = unint(f)
                parts = [mul(x, y) for x in parts for y in expand(f)]
            out.extend(parts)
        elif a is t:
            out.append(a)
        else:
            out.extend(expand(a))
    return out


def mul(x, y):
    fx = factors(x) if x.op == "bin" else [x]
    fy = factors(y) if y.op == "bin" else [y]
    return mk("bin", "*", *(fx + fy))


def unint(t):
    while True:
        u = strip(t)
        if is_call(u, "numpy.int64", "builtins.int", "numpy.asarray", "numpy.uint64"):
            u = cargs(u)[0]
        if u.op == "global":
            v = glob_const(PROG[0], u)
            if isinstance(v, (int, float)):
                u = mk("const", v)
        if u is t:
            return t
        t = u


def cval(t):
    t = unint(t)
    if is_const(t) and isinstance(t.a[0], (int, float)):
        return t.a[0]
    if t.op == "bin" and t.a[0] in ("*", "**", "+", "-"):
        vs = [cval(x) for x in t.a[1:]]
        if any(v is None for v in vs):
            return None
        r = vs[0]
        for v in vs[1:]:
            r = r * v if t.a[0] == "*" else r ** v if t.a[0] == "**" else r + v if t.a[0] == "+" else r - v
        return r
    return None


def digit(t, N):
    """(divisor, modulus) of the digit of N that t computes"""
    t = unint(t)
    if t is N:
        return 1, INF
    if t.op == "bin" and t.a[0] in ("%", "//", "/") and len(t.a) == 3:
        b = cval(t.a[2])
        if b is None:
            raise Undecided("decoding constant " + show(t.a[2])[:60])
        a = t.a[1]
        if t.a[0] == "/":
            return "float", b
        d = digit(a, N)
        if d[0] == "float":
            return d
        if t.a[0] == "%":
            return d[0], min(d[1], b) if d[1] == INF or d[1] % b == 0 else None
        if d[1] == INF:
            return d[0] * b, INF
        if d[1] % b:
            raise Undecided("uneven division")
        return d[0] * b, d[1] // b
    if t.op in ("sub", "idx"):
        base, i = (t.a[0], t.a[1])
        if not isinstance(base, T):
            base, i = i, base
        iv = i.a[0] if isinstance(i, T) and is_const(i) else i
        if is_call(base, "builtins.divmod", "numpy.divmod") and isinstance(iv, int):
            x, b = cargs(base)
            if iv in (0, 1):
                return digit(mk("bin", "//" if iv == 0 else "%", x, b), N)
    if t.op == "bin" and t.a[0] == "-" and len(t.a) == 3:
        # N - (N % b): multiples of b; only useful below a division by b
        raise Undecided("difference in the decoding")
    raise Undecided("decoding step " + show(t)[:80])


def r_number(ctx):
    co = enc_coeffs(ctx)
    p, m, f = co["plate"], co["mjd"], co["fiber"]
    ints = all(isinstance(x, int) or float(x).is_integer() for x in (p, m, f))
    ctx.ob("number/integer", ints, ENC, "multipliers %s" % co)
    ctx.ob("number/fiber", f == 1 or f > 0, ENC, "the fiber does not enter the number" if not f else "")
    ctx.ob("number/fiber-range", m >= 10000 * f and f > 0, ENC, "fibers below 10000 overlap with the MJD digits (mjd*%s + fiber*%s)" % (m, f))
    ctx.ob("number/mjd-range", p >= 100000 * m and m > 0, ENC, "five-digit MJDs overlap with the plate digits (plate*%s + mjd*%s)" % (p, m))
    I = ctx.interp(ENC)
    bad = [x for x in subterms(I.ret) if is_call(x, "numpy.int32", "numpy.float32", "numpy.float64", "builtins.float", "numpy.int16", "numpy.uint32")]
    ctx.ob("number/type", not bad, ENC, "the number does not fit the type " + (show(bad[0])[:60] if bad else ""))


def r_decode(ctx):
    co = enc_coeffs(ctx)
    I = ctx.interp(DEC)
    N = mk("param", DEC, "targetid")
    r = strip(I.ret)
    if r.op not in ("tuple", "list") or len(r.a) != 3:
        raise Undecided("result of the decoding")
    p, m, f = co["plate"], co["mjd"], co["fiber"]
    want = dict(plate=(p, INF), mjd=(m, p // m if m else 0), fiber=(f, m // f if f else 0))
    for n, t in zip(("plate", "mjd", "fiber"), r.a):
        d = digit(t, N)
        if d[0] == "float":
            ctx.ob("decode/" + n, False, DEC, "true division: the %s is not an integer" % n)
            continue
        w = want[n]
        ok = d[0] == w[0] and d[1] is not None and d[1] == w[1]
        ctx.ob("decode/" + n, ok, DEC, "%s is read as number // %s %% %s, it was written with multiplier %s below %s" % (n, d[0], d[1], w[0], w[1]))


def r_use(ctx):
    I = ctx.interp(RS)
    cs = [e for e in calls(I, "platemjdfiber2targetid") if e.d.get("bound")]
    if not cs:
        raise Undecided("no target number is built in read_spectra")
    for e in cs:
        b = e.d["bound"]
        pl, mj, fi = b.get("plate"), b.get("mjd"), b.get("fiber")
        has = lambda t, k: contains(t, lambda x: is_const(x, k))
        ctx.ob("use/plate", has(pl, "PLATEID") and not has(pl, "MJD"), e, "plate is " + show(pl)[:80])
        ctx.ob("use/mjd", has(mj, "MJD") and not has(mj, "PLATEID"), e, "mjd is " + show(mj)[:80])
        ctx.ob("use/fiber", has(fi, "FIBERID"), e, "fiber is " + show(fi)[:80])
        raw = unint(fi)
        # row of the spectrum attached to this number
        rows = []
        for s in effs(I, "call"):
            if not fname(s.fn).endswith("Spectrum") or not s.d.get("bound"):
                continue
            for nm in ("wave", "flux", "ivar"):
                v = s.d["bound"].get(nm)
                if v is None:
                    continue
                v = strip(v)
                if v.op == "sub":
                    rows.append((s, nm, v.a[1]))
        for s, nm, i in rows:
            ok = None
            for _, alt in ites(i):
                a = alt
                while a.op == "bin" and a.a[0] == "%":
                    a = a.a[1]
                    for _, a2 in ites(a):
                        a = a2
                try:
                    d = padd(poly(a), pscale(poly(raw), -1))
                    k = pconst(d)
                except Exception:
                    k = None
                if k is None:
                    if contains(a, lambda x: x is raw):
                        continue
                    ok = False if ok is None else ok
                elif k == -1:
                    ok = True if ok is None else ok
                else:
                    ok = False
                    break
            if ok is None:
                ctx.undecided.append((ctx.cur, "row of %s: %s" % (nm, show(i)[:60])))
            else:
                ctx.ob("use/row", ok, s, "%s of fiber f is row %s" % (nm, show(i)[:60]))
        if len({id(i) for _, _, i in rows}) > 1:
            ctx.ob("use/same-row", False, rows[0][0], "wavelengths, fluxes and variances come from different rows")
        elif rows:
            ctx.ob("use/same-row", True, rows[0][0], "")


def run(ctx):
    PROG[0] = ctx.prog
    ctx.rule("number", "the number is a*plate + b*mjd + c*fiber with c*10000 <= b and b*100000 <= a, all integers", r_number)
    ctx.rule("decode", "each decoded value is the digit (number // multiplier % next multiplier ratio) of the encoding, in the order plate, mjd, fiber", r_decode)
    ctx.rule("use", "the reader passes plate, MJD and fiber in this order, and attaches to the number of fiber f the spectrum of row f-1 (within the spectrograph for frames)", r_use)
