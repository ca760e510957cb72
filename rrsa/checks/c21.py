"""C21: template names and headers identify exactly the templates used."""
import re
from ..q import *
from ..logic import *
from ..arith import *
from ..terms import *
from ..store import *
from ..ctx import Undecided, Stop

MK = "redrock.templates.make_fulltype"
PF = "redrock.templates.parse_fulltype"
RH = "redrock.templates.header2templatefiles"
LH = "redrock.templates.load_templates_from_header"
WH = "redrock.external.desi._get_header"
WB = "redrock.external.boss.write_zbest"


# ------------------------------------------------------------------ abstract strings
# a string is a tuple of pieces: str constants and symbols ("S",) / ("U",): non-empty, stripped, without separator characters
class Bad(Exception):
    pass


S, U = ("S",), ("U",)


def norm(ps):
    out = []
    for p in ps:
        if p == "":
            continue
        if out and isinstance(out[-1], str) and isinstance(p, str):
            out[-1] += p
        else:
            out.append(p)
    return tuple(out)


def find(ps, sep):
    """piece index and offset of the first occurrence of a separator, None"""
    for i, p in enumerate(ps):
        if isinstance(p, str) and sep in p:
            return i, p.index(sep)
    return None


def split(ps, sep, n=-1, right=False):
    out, cur = [], ps
    while n != 0:
        f = find(cur, sep)
        if f is None:
            break
        if right and n > 0:
            raise Undecided("rsplit")
        i, o = f
        out.append(norm(cur[:i] + (cur[i][:o],)))
        cur = norm((cur[i][o + len(sep):],) + cur[i + 1:])
        n -= 1
    out.append(cur)
    return out


class Str(object):
    """evaluates string terms over the abstract domain"""

    def __init__(self, env, inner=None):
        self.env, self.inner = env, inner or {}

    def ev(self, t):
        if id(t) in self.env:
            return self.env[id(t)]
        if t.op == "alloc":
            return self.ev(t.a[1])
        if t.op == "const":
            v = t.a[0]
            return norm((v,)) if isinstance(v, str) else v
        if t.op == "fstr":
            out = ()
            for p in t.a:
                v = self.ev(p.a[0]) if isinstance(p, T) and p.op == "fmt" else (self.ev(p) if isinstance(p, T) else norm((p,)))
                if isinstance(p, T) and p.op == "fmt" and len(p.a) > 1 and not self.plain(p.a[1]):
                    raise Undecided("format specification")
                out += self.s(v)
            return norm(out)
        if t.op == "ite":
            c = self.ev(t.a[0])
            return self.ev(t.a[1] if c else t.a[2])
        if t.op == "and":
            return all(self.ev(x) for x in t.a)
        if t.op == "or":
            return any(self.ev(x) for x in t.a)
        if t.op == "not":
            return not self.ev(t.a[0])
        if t.op == "cmp":
            o, a, b = t.a[0], self.ev(t.a[1]), self.ev(t.a[2])
            if o in ("is",):
                if a is None or b is None:
                    return a is None and b is None
                return a == b
            if o in ("==", "!="):
                return (a == b) == (o == "==")
            if o in ("in", "not in"):
                if isinstance(b, list):
                    return (a in b) == (o == "in")
                if isinstance(a, tuple) and len(a) == 1 and isinstance(a[0], str):
                    return (find(b, a[0]) is not None) == (o == "in")
            if o in ("<", "<=", ">", ">=") and isinstance(a, int) and isinstance(b, int):
                return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
            raise Undecided("comparison " + show(t)[:80])
        if t.op in ("tuple", "list"):
            return [self.ev(x) for x in t.a]
        if t.op == "bin" and t.a[0] == "+":
            vs = [self.ev(x) for x in t.a[1:]]
            if all(isinstance(v, tuple) for v in vs):
                return norm(sum(vs, ()))
        if t.op == "bin" and t.a[0] == "%" and is_const(t.a[1]) and isinstance(t.a[1].a[0], str):
            fm = t.a[1].a[0].split("%s")
            v = self.ev(t.a[2])
            v = v if isinstance(v, list) else [v]
            if len(fm) == len(v) + 1:
                out = (fm[0],)
                for x, f in zip(v, fm[1:]):
                    out += self.s(x) + (f,)
                return norm(out)
        if t.op == "sub" or t.op == "idx":
            b, i = self.ev(t.a[0]), t.a[1]
            i = self.ev(i) if isinstance(i, T) and i.op != "slice" else i
            if isinstance(b, list) and isinstance(i, int):
                if i >= len(b) or i < -len(b):
                    raise Bad("too few parts")
                return b[i]
            if isinstance(b, list) and isinstance(i, T) and i.op == "slice":
                ks = [None if x is None else self.ev(x) if isinstance(x, T) else x for x in i.a]
                if all(k is None or isinstance(k, int) for k in ks):
                    return b[slice(*ks)]
        if t.op == "call":
            n = fname(t.a[0])
            recv = None
            args = [self.ev(x) for x in cargs(t)] if n not in () else []
            if t.a[0].op == "attr":
                recv = self.ev(t.a[0].a[0])
                m = t.a[0].a[1]
            elif t.a[0].op == "bm":
                m = n.rsplit(".", 1)[-1]
                recv, args = (args[0], args[1:]) if args else (None, args)
            else:
                m = n
            if recv is not None and isinstance(recv, tuple):
                if m in ("strip", "rstrip", "lstrip") and not args:
                    return self.strip(recv, m)
                if m in ("split",):
                    if not args:
                        raise Undecided("split on blanks")
                    k = args[1] if len(args) > 1 else -1
                    mx = ckw(t, "maxsplit")
                    k = mx.a[0] if mx is not None and is_const(mx) else k
                    return split(recv, args[0][0], k)
                if m == "rsplit" and args:
                    r = split(recv, args[0][0])
                    k = args[1] if len(args) > 1 else -1
                    if k in (-1,) or len(r) <= k + 1:
                        return r
                if m in ("partition", "rpartition"):
                    r = split(recv, args[0][0])
                    if len(r) == 1:
                        return [recv, (), ()] if m == "partition" else [(), (), recv]
                    if len(r) == 2:
                        return [r[0], args[0], r[1]]
                if m == "join" and args and isinstance(args[0], list):
                    out = ()
                    for k, x in enumerate(args[0]):
                        out += (recv if k else ()) + self.s(x)
                    return norm(out)
                if m == "format" and len(recv) == 1 and recv[0].count("{}") == len(args):
                    fm = recv[0].split("{}")
                    out = (fm[0],)
                    for x, f in zip(args, fm[1:]):
                        out += self.s(x) + (f,)
                    return norm(out)
                if m in ("upper", "lower", "title", "capitalize"):
                    raise Bad("the case is changed")
                if m == "count" and args:
                    return len(split(recv, args[0][0])) - 1
                if m in ("startswith", "endswith") and args:
                    q = args[0][0]
                    e = recv[0] if m == "startswith" else recv[-1]
                    if isinstance(e, str) and len(e) >= len(q):
                        return e.startswith(q) if m == "startswith" else e.endswith(q)
                    if isinstance(e, tuple):
                        return False
            if n == "builtins.len" and isinstance(args[0], (tuple, list)):
                if isinstance(args[0], list):
                    return len(args[0])
                return sum(len(p) if isinstance(p, str) else 3 for p in args[0])
            if n == "builtins.str":
                return self.s(args[0])
            if n in ("builtins.tuple", "builtins.list"):
                return list(args[0])
        raise Undecided("string operation " + show(t)[:80])

    @staticmethod
    def plain(spec):
        return spec is None or spec == "" or (isinstance(spec, T) and spec.op == "const" and spec.a[0] in ("", None, "s"))

    @staticmethod
    def s(v):
        if isinstance(v, tuple):
            return v
        if v is None:
            return ("None",)
        raise Undecided("text of a value")

    @staticmethod
    def strip(ps, m):
        if not ps:
            return ps
        ps = list(ps)
        if isinstance(ps[0], str) and m != "rstrip":
            ps[0] = ps[0].lstrip()
        if isinstance(ps[-1], str) and m != "lstrip":
            ps[-1] = ps[-1].rstrip()
        return norm(ps)


def txt(v):
    if isinstance(v, tuple):
        return "".join(p if isinstance(p, str) else {"S": "<type>", "U": "<subtype>"}[p[0]] for p in v) or "''"
    return str(v)


def r_pair(ctx):
    Im, Ip = ctx.interp(MK), ctx.interp(PF)
    a, b = mk("param", MK, "spectype"), mk("param", MK, "subtype")
    f = mk("param", PF, "fulltype")
    for su, name, want in (((U,), "subtype", (U,)), ((), "blank", ()), (None, "none", ())):
        try:
            full = Str({id(a): (S,), id(b): su}).ev(Im.ret)
            if not isinstance(full, tuple):
                raise Undecided("full type is not a string")
            r = Str({id(f): full}).ev(Ip.ret)
        except Bad as e:
            ctx.ob("pair/" + name, False, PF, "(type, %s) does not come back: %s" % (txt(su), e))
            continue
        if not isinstance(r, list) or len(r) != 2:
            raise Undecided("parse_fulltype does not return a pair")
        r = [() if x is None and False else x for x in r]
        ctx.ob("pair/" + name, r[0] == (S,) and r[1] == want, PF, "(<type>, %s) becomes '%s' and is read back as (%s, %s)" % (txt(su), txt(full), txt(r[0]), txt(r[1])))
    # distinct pairs give distinct full types
    try:
        x = Str({id(a): (S,), id(b): (U,)}).ev(Im.ret)
        y = Str({id(a): (S,), id(b): ()}).ev(Im.ret)
        ctx.ob("pair/distinct", x != y and S in x and U in x, MK, "type and subtype do not both enter the full type")
    except Bad as e:
        ctx.ob("pair/distinct", False, MK, str(e))


# ------------------------------------------------------------------ header keys
def keyform(t):
    """(prefix, index term, width) of a numbered keyword"""
    t = strip(t)
    if t.op == "fstr":
        pre, idx, w = "", None, None
        for p in t.a:
            if isinstance(p, T) and p.op == "const":
                if idx is not None:
                    return None
                pre += str(p.a[0])
            elif isinstance(p, str):
                pre += p
            elif p.op == "fmt":
                idx, w = p.a[0], spec(p.a[1] if len(p.a) > 1 else None)
                idx, w2 = num(idx)
                w = w2 if w2 is not None else w
            else:
                idx, w = num(p)
        return (pre, idx, w) if idx is not None else None
    if t.op == "bin" and t.a[0] == "+":
        c = [x for x in t.a[1:] if is_const(x)]
        o = [x for x in t.a[1:] if not is_const(x)]
        if len(c) == 1 and len(o) == 1:
            i, w = num(o[0])
            return c[0].a[0], i, w
    return None


def spec(s):
    if s is None:
        return 0
    if isinstance(s, T):
        s = s.a[0] if s.op == "const" else None
    if s in ("", None):
        return 0
    return s


def num(t):
    """(integer, zero-padded width) of the text of a number"""
    w = None
    while True:
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in ("zfill", "rjust") and len(cargs(t)) >= 1:
            w = "%02dd" % cargs(t)[0].a[0] if is_const(cargs(t)[0]) else "?"
            t = t.a[0].a[0]
        elif t.op == "fstr" and len(t.a) == 1 and isinstance(t.a[0], T) and t.a[0].op == "fmt":
            s = spec(t.a[0].a[1] if len(t.a[0].a) > 1 else None)
            if s:
                w = s
            t = t.a[0].a[0]
        elif is_call(t, "builtins.str"):
            t = cargs(t)[0]
        elif t.op == "bin" and t.a[0] == "%" and is_const(t.a[1]) and isinstance(t.a[1].a[0], str) and t.a[1].a[0].startswith("%"):
            w = t.a[1].a[0][1:]
            t = t.a[2]
            if t.op == "tuple" and len(t.a) == 1:
                t = t.a[0]
        else:
            return t, w


def width(w):
    return {"02d": 2, "02": 2, "0>2": 2, "0>2d": 2, "02dd": 2, 0: 0, None: 0}.get(w, w)


def elem_of(v):
    """(sequence, index) terms of the element an expression is about"""
    for x in subterms(v):
        if x.op == "sub" and x.a[1].op == "idx":
            return x
    return None


def idxroot(t):
    """loop index of a number (up to a constant)"""
    xs = [x for x in subterms(t) if x.op == "idx"]
    return xs[0] if xs else None


def writer_keys(ctx, q, prefix):
    I = ctx.interp(q)
    out = []
    for e in effs(I, "setitem"):
        k = keyform(e.key)
        if k and k[0].startswith(prefix):
            out.append((e, k))
    return out


REORDER = ("builtins.sorted", "builtins.reversed", "builtins.set", "numpy.unique", "numpy.sort")


def atoms(g):
    if g.op in ("and", "or", "not"):
        return [y for x in g.a for y in atoms(x)]
    return [g]


ATTR = dict(NAM=("full_type",), VER=("version", "_version"), FIL=("filename", "_filename"))


def r_writer(ctx):
    ks = writer_keys(ctx, WH, "TEM")
    if not ks:
        raise Undecided("no numbered TEM keywords in _get_header")
    have = {k[0] for _, k in ks}
    for p in ("TEMNAM", "TEMVER", "TEMFIL"):
        ctx.ob("writer/" + p, p in have, WH, "keyword %snn is not written" % p)
    seqs = set()
    for e, (pre, i, w) in ks:
        kind = pre[3:]
        ctx.ob("writer/width", width(w) == 2, e, "%s numbers are written as %s" % (pre, w))
        if kind in ATTR:
            at = [x.a[1] for x in subterms(e.value) if x.op == "attr" and x.a[1] in ("full_type", "version", "_version", "filename", "_filename", "template_type", "sub_type", "_rrtype", "_subtype", "method", "_full_type")]
            if not at and not contains(e.value, lambda x: is_call(x, "make_fulltype")):
                ctx.undecided.append((ctx.cur, "value of " + pre))
            elif at:
                ctx.ob("writer/value", at[0] in ATTR[kind] or (kind == "NAM" and contains(e.value, lambda x: is_call(x, "make_fulltype"))), e, "%s holds %s" % (pre, at[0]))
            if kind == "FIL" and at and at[0] in ATTR["FIL"]:
                ctx.ob("writer/file", True, e, "")
        el, ir = elem_of(e.value), idxroot(i)
        if el is None or ir is None:
            ctx.undecided.append((ctx.cur, "number of " + pre))
            continue
        ctx.ob("writer/number", el.a[1] is ir, e, "the number of %s is not the position of the template it describes" % pre)
        off = pconst(padd(poly(i), pscale(poly(ir), -1)))
        seqs.add((id(el.a[0]), id(ir), off))
        src = strip(el.a[0])
        for _, alt in ites(src):
            alt = strip(alt)
            part = contains(alt, lambda x: x.op == "slice") or alt.op == "comp" and not is_const(alt.a[2], True)
            ctx.ob("writer/all", not part, e, "only a part of the templates is listed")
        gs = [g for g, k in e.guards if k in ("if", "cont") and contains(g, lambda x: x is el or x is ir)]
        ctx.ob("writer/all", not gs, e, "templates are left out under the condition " + (show(gs[0])[:60] if gs else ""))
    ctx.ob("writer/matching", len(seqs) <= 1, WH, "name, version and file of one template are written under different numbers")
    # BOSS header
    ks = writer_keys(ctx, WB, "TEM")
    have = {k[0] for _, k in ks}
    if ks:
        ctx.ob("writer/boss", {"TEMNAM", "TEMVER"} <= have, WB, "written keywords: %s" % sorted(have))
        tv = mk("param", WB, "template_version")
        seqs, orders = set(), set()
        for e, (pre, i, w) in ks:
            ctx.ob("writer/boss-width", width(w) == 2, e, "%s numbers are written as %s" % (pre, w))
            ir = idxroot(i)
            v = strip(e.value)
            if ir is None:
                continue
            kind, seq = bossval(v, tv, ir)
            if kind == "foreign":
                ctx.ob("writer/boss-value", False, e, "%s holds %s" % (pre, show(v)[:60]))
                continue
            ctx.ob("writer/boss-number", kind != "elsewhere", e, "the number of %s is not the position of its template" % pre)
            if kind in ("name", "version"):
                ctx.ob("writer/boss-value", (kind == "version") == (pre == "TEMVER"), e, "%s holds %s" % (pre, show(v)[:60]))
            if seq is not None:
                orders.add(id(seq))
            off = pconst(padd(poly(i), pscale(poly(ir), -1)))
            seqs.add((id(ir), off))
        ctx.ob("writer/boss-order", len(orders) <= 1, WB, "names and versions are listed in different orders")
        ctx.ob("writer/boss-matching", len(seqs) <= 1, WB, "name and version under different numbers")


def keyseq(t, tv):
    """the order in which a sequence lists the keys (or values) of tv: tv itself, or the re-ordering; None"""
    t = strip(t)
    if t is tv:
        return "keys", tv
    if t.op in ("keys", "values", "items") and t.a[0] is tv:
        return t.op, tv
    if t.op == "call":
        n = fname(t.a[0]).rsplit(".", 1)[-1]
        if t.a[0].op == "attr" and t.a[0].a[0] is tv and n in ("keys", "values", "items"):
            return n, tv
        if fname(t.a[0]) in ("builtins.sorted", "builtins.reversed") and cargs(t):
            k = keyseq(cargs(t)[0], tv)
            return (k[0], t) if k else None
        if fname(t.a[0]) in ("builtins.list", "builtins.tuple"):
            return keyseq(cargs(t)[0], tv)
    return None


def bossval(v, tv, ir):
    """('name'|'version'|'elsewhere'|'foreign'|None, ordering) of a header value"""
    v = strip(v)
    if is_call(v, "builtins.str") and cargs(v):
        v = strip(cargs(v)[0])
    if v.op == "sub" and is_const(v.a[1], 0, 1):
        k = v.a[0]
        if k.op == "sub":
            s = keyseq(k.a[0], tv)
            if s and s[0] == "items":
                return ("name" if v.a[1].a[0] == 0 else "version") if strip(k.a[1]) is ir else "elsewhere", s[1]
    if v.op == "sub" and v.a[0] is tv:
        k = strip(v.a[1])
        if k is ir:
            return "name", tv
        n, s = bossval(k, tv, ir)
        return ("version" if n == "name" else n), s
    if v.op == "sub":
        s = keyseq(v.a[0], tv)
        if s and s[0] in ("keys", "values"):
            if strip(v.a[1]) is ir:
                return ("name" if s[0] == "keys" else "version"), s[1]
            return "elsewhere", s[1]
        if v.a[0].op == "param" and v.a[0] is not tv:
            return "foreign", None
    if contains(v, lambda x: x is tv):
        return None, None
    return "foreign", None


def r_reader(ctx):
    I = ctx.interp(RH)
    H = mk("param", RH, "hdr")
    W = {k[0]: k for _, k in writer_keys(ctx, WH, "TEM")}
    found = {}
    for e in I.effects:
        for t in [e.d.get("value"), e.d.get("key")] + [g for g, k in e.guards]:
            if not isinstance(t, T):
                continue
            for x in subterms(t):
                k = None
                if x.op == "sub" and x.a[0] is H:
                    k = keyform(x.a[1])
                elif x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[2] is H:
                    k = keyform(x.a[1])
                if k:
                    found.setdefault(k[0], []).append((e, k))
    if not found:
        raise Undecided("no numbered keywords are read")
    for p in ("TEMFIL", "TEMNAM", "TEMVER"):
        ctx.ob("reader/" + p, p in found, RH, "keyword %snn is not read" % p)
    roots = set()
    for p, l in found.items():
        ctx.ob("reader/known", p in W or p in ("TEMNAM", "TEMVER"), l[0][0], "keyword %snn is never written" % p)
        for e, (pre, i, w) in l:
            ctx.ob("reader/width", width(w) == 2, e, "%s numbers are read as %s" % (pre, w))
            ir = idxroot(i)
            if ir is None and not is_const(i) and any(idxroot(k2[1]) is not None for l2 in found.values() for _, k2 in l2):
                ctx.ob("reader/matching", False, e, "%s is read under the number %s, the other keywords under the position in the header" % (pre, show(i)[:60]))
            if ir is not None:
                roots.add((id(ir), pconst(padd(poly(i), pscale(poly(ir), -1)))))
                it = ir.a[0] if isinstance(ir.a[0], T) else ir.a[1]
                r = strip(it)
                if is_range(r):
                    ra = rargs(r)
                    lo, hi = (None, ra[0]) if len(ra) == 1 else (ra[0], ra[1])
                    lov = lo.a[0] if lo is not None and is_const(lo) else 0 if lo is None else None
                    off = pconst(padd(poly(i), pscale(poly(ir), -1)))
                    if lov is not None and off is not None:
                        ctx.ob("reader/first", lov + off == 0, e, "reading starts at number %s" % (lov + off))
                    if hi is not None and is_const(hi):
                        ctx.ob("reader/last", hi.a[0] + (off or 0) >= 100, e, "templates from number %s on are not read" % hi.a[0])
    ctx.ob("reader/matching", len(roots) <= 1, RH, "keywords of different numbers are combined")
    for b in effs(I, "break") + effs(I, "append"):
        # ended or skipped because of the number alone
        for g, k in b.guards:
            if k not in ("if", "cont", "brk", "break"):
                continue
            for at in atoms(g):
                if contains(at, lambda x: x is H) or not contains(at, lambda x: x.op == "idx"):
                    continue
                v = strip(at)
                lim = None
                if v.op == "cmp" and v.a[0] in (">", ">=", "==") and v.a[1].op == "idx" and is_const(v.a[2]) and isinstance(v.a[2].a[0], int):
                    lim = v.a[2].a[0] + (v.a[0] == ">")
                elif v.op == "cmp" and v.a[0] in ("<", "<=") and is_const(v.a[1]) and isinstance(v.a[1].a[0], int) and v.a[2].op == "idx":
                    lim = v.a[1].a[0] + (v.a[0] == "<")
                ctx.ob("reader/every-number", b.kind == "break" and lim is not None and lim >= 99, b, "templates are left out under the condition " + show(at)[:60])
    for e in I.effects:
        if not any(k == "loop" for _, k in e.guards) and e.kind not in ("append", "call"):
            continue
        for t in [e.d.get("value"), e.d.get("key")]:
            if not isinstance(t, T):
                continue
            for x in subterms(t):
                if x.op == "sub" and x.a[0] is H and is_const(x.a[1]) and re.fullmatch(r"TEM(NAM|VER|FIL)\d+", str(x.a[1].a[0])) and contains(t, lambda y: y.op == "idx"):
                    ctx.ob("reader/matching", False, e, "%s is combined with keywords of other numbers" % x.a[1].a[0])
    # what a file name is made of
    names = [e for e in effs(I, "append")] + [e for e in effs(I, "call") if e.d.get("meth") == "append"]
    fil = ver = 0
    for e in effs(I, "append"):
        v = strip(e.value)
        keys = [keyform(x.a[1])[0] for x in subterms(v) if x.op == "sub" and x.a[0] is H and keyform(x.a[1])]
        if "TEMFIL" in keys:
            fil += 1
            continue
        if not keys:
            continue
        pieces = flat(v)
        txts = [p for p in pieces]
        seq = []
        for p in txts:
            if isinstance(p, str):
                seq.append(p)
            else:
                pf = [x.a[1] for x in subterms(p) if x.op == "sub" and is_call(x.a[0], "parse_fulltype") and is_const(x.a[1])]
                ks = [keyform(x.a[1])[0] for x in subterms(p) if x.op == "sub" and x.a[0] is H and keyform(x.a[1])]
                if pf and not any(q.a[0] != pf[0].a[0] for q in pf):
                    seq.append("<type>" if pf[0].a[0] == 0 else "<subtype>")
                    alt = [strip(y) for _, y in ites(p) if not is_const(strip(y))]
                    case = [y for y in alt if y.op == "call" and y.a[0].op in ("attr", "bm") and fname(y.a[0]).rsplit(".", 1)[-1] in ("lower", "upper", "title", "capitalize", "swapcase", "replace", "casefold")]
                    ctx.ob("reader/unchanged", not case, e, "the %s is changed in the file name: %s" % ("subtype" if pf[0].a[0] else "type", show(case[0])[-40:] if case else ""))
                    if pf[0].a[0] == 1:
                        # a blank subtype reads "None"
                        none = p.op == "ite" and any(is_const(strip(y), None) or is_const(strip(y), "None") for _, y in ites(p))
                        ctx.ob("reader/blank-subtype", none, e, "a blank subtype is not written as None in the file name")
                elif "TEMVER" in ks:
                    seq.append("<version>")
                elif pf:
                    vals = {x.a[1].a[0] for _, y in ites(p) for x in subterms(strip(y)) if x.op == "sub" and is_call(x.a[0], "parse_fulltype") and is_const(x.a[1])}
                    if len(vals) > 1:
                        ctx.ob("reader/unchanged", False, e, "type and subtype are mixed in one part of the file name: " + show(p)[:80])
                    seq.append("?")
                else:
                    seq.append("?")
        name = "".join(seq)
        if "?" in name:
            ctx.undecided.append((ctx.cur, "template file name " + name))
        else:
            ctx.ob("reader/file-name", name == "rrtemplate-<type>-<subtype>-v<version>.fits", e, "file name " + name)
            ver += 1
    # TEMFIL wins
    for e in effs(I, "append"):
        keys = [keyform(x.a[1])[0] for x in subterms(e.value) if x.op == "sub" and x.a[0] is H and keyform(x.a[1])]
        if not keys:
            continue
        tf = [(g, x) for g, k in e.guards if k in ("if", "ret", "cont") for x in subterms(g) if x.op == "cmp" and x.a[0] in ("in", "not in") and x.a[2] is H and keyform(x.a[1]) and keyform(x.a[1])[0] == "TEMFIL"]
        if "TEMFIL" in keys:
            continue
        if tf:
            atom = tf[0][1] if tf[0][1].a[0] == "in" else mk("cmp", "in", *tf[0][1].a[1:])
            env = {mk("cmp", "in", *tf[0][1].a[1:]): True, mk("cmp", "not in", *tf[0][1].a[1:]): False}
            open_ = [g for g, k in e.guards if k in ("if", "ret", "cont")]
            tf = any(is_const(assume(g, env), False) for g in open_) or implies(open_, mk("not", atom)) is not False
        ctx.ob("reader/file-first", bool(tf), e, "a name built from type and version is used although the file name is recorded")
    # order of the result
    r = strip(I.ret)
    bad = contains(I.ret, lambda x: is_call(x, "builtins.sorted", "builtins.set", "numpy.unique", "builtins.reversed", "numpy.sort"))
    ctx.ob("reader/order", not bad, RH, "the list of files is re-ordered")
    TDp = mk("param", RH, "template_dir")
    if not contains(I.ret, lambda x: x is TDp):
        ctx.ob("reader/directory", False, RH, "template_dir is ignored")
    I2 = ctx.interp(LH)
    cs = calls(I2, "load_templates")
    for e in cs:
        tp = e.d["bound"].get("template_path") if e.d.get("bound") else None
        if tp is None:
            continue
        ctx.ob("reader/load", contains(tp, lambda x: is_call(x, "header2templatefiles")), e, "other templates than those of the header are loaded")
    # a list of files is loaded in its order
    LT = "redrock.templates.load_templates"
    I3 = ctx.interp(LT)
    P = mk("param", LT, "template_path")

    def direct(t):
        t = strip(t)
        return t is P or t.op == "ite" and any(direct(x) for x in t.a[1:]) or t.op == "call" and fname(t.a[0]) in REORDER + ("builtins.list", "builtins.tuple") and any(direct(x) for x in cargs(t)) or t.op == "sub" and t.a[1].op == "slice" and direct(t.a[0])

    for e in calls(I3, "Template"):
        for a in list((e.d.get("bound") or {}).values()):
            for x in subterms(a):
                if (is_call(x, *REORDER) and any(direct(y) for y in cargs(x))) or (x.op == "sub" and x.a[1].op == "slice" and direct(x.a[0])):
                    ctx.ob("reader/load-order", False, e, "the given files are loaded in another order: " + show(x)[:60])
                    break
        for g, k in e.guards:
            pass
        ctx.ob("reader/load-order", True, e, "")


def flat(t):
    t = strip(t)
    if t.op == "fstr":
        out = []
        for p in t.a:
            if isinstance(p, T) and p.op == "fmt":
                out.extend(flat(p.a[0]) if strip(p.a[0]).op in ("fstr", "const") else [strip(p.a[0])])
            elif isinstance(p, T):
                out.extend(flat(p))
            else:
                out.append(p)
        return out
    if t.op == "const":
        return [str(t.a[0])]
    if t.op == "bin" and t.a[0] == "+":
        return [y for x in t.a[1:] for y in flat(x)]
    return [t]


# ------------------------------------------------------------------ attributes and uses
def r_attrs(ctx):
    for q, want in (("redrock.templates.Template", dict(template_type="_rrtype", sub_type="_subtype", version="_version", filename="_filename")),
                    ("redrock.archetypes.Archetype", dict(template_type="_rrtype", version="_version", filename="_filename"))):
        for p, a in want.items():
            try:
                I = ctx.interp(q + "." + p)
            except Exception:
                continue
            r = strip(I.ret)
            if r.op != "attr":
                ctx.undecided.append((ctx.cur, q + "." + p))
                continue
            ctx.ob("attributes/" + p, r.a[1] == a, q + "." + p, "returns " + r.a[1])
    I = ctx.interp("redrock.templates.Template.full_type")
    r = strip(I.ret)
    if is_call(r, "make_fulltype"):
        a, b = ckw(r, "spectype", 0), ckw(r, "subtype", 1)
        ok = a.op == "attr" and a.a[1] in ("_rrtype", "template_type") and b.op == "attr" and b.a[1] in ("_subtype", "sub_type")
        ctx.ob("attributes/full_type", ok, "redrock.templates.Template.full_type", "made of %s and %s" % (show(a)[:40], show(b)[:40]))
    else:
        ctx.undecided.append((ctx.cur, "full_type"))
    q = "redrock.templates.Template.__init__"
    I = ctx.interp(q)
    for at, key in (("_rrtype", "RRTYPE"), ("_subtype", "RRSUBTYP"), ("_version", "VERSION")):
        es = [e for e in effs(I, "setattr") if e.attr == at]
        if not es:
            ctx.undecided.append((ctx.cur, at))
            continue
        ok = any(contains(e.value, lambda x: is_const(x, key)) for e in es)
        other = [x.a[0] for e in es for x in subterms(e.value) if x.op == "const" and x.a[0] in ("RRTYPE", "RRSUBTYP", "VERSION", "RRMETHOD", "RRIGM") and x.a[0] != key and not contains(e.value, lambda y: is_const(y, key))]
        ctx.ob("attributes/" + at, ok or not other, es[0], "%s is read from %s" % (at, other))
        for e in es:
            unchanged(ctx, "attributes/text", e, e.value, key, at)
    A = ctx.interp("redrock.archetypes.Archetype.__init__")
    for at, key in (("_rrtype", "RRTYPE"), ("_version", "VERSION")):
        for e in effs(A, "setattr"):
            if e.attr == at:
                unchanged(ctx, "attributes/text", e, e.value, key, "Archetype." + at)
    fs = [e for e in effs(I, "setattr") if e.attr == "_filename"]
    for e in fs:
        ctx.ob("attributes/_filename", contains(e.value, lambda x: x.op == "param" and x.a[1] == "filename"), e, "is " + show(e.value)[:60])


TEXT = ("strip", "lstrip", "rstrip", "upper", "decode", "encode")
CUT = ("split", "rsplit", "partition", "rpartition", "replace", "lower", "title", "capitalize", "removeprefix", "removesuffix", "ljust", "zfill", "swapcase")


def unchanged(ctx, name, e, t, key, what):
    """the header value is taken as it is, up to blanks and case of the whole"""
    for _, alt in ites(t):
        x = strip(alt)
        if not contains(x, lambda y: is_const(y, key)):
            continue
        bad = None
        while True:
            x = strip(x)
            if x.op == "call" and is_call(x, "builtins.str", "numpy.char.strip") and len(cargs(x)) == 1:
                x = cargs(x)[0]
                continue
            if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in TEXT and (x.a[0].a[1] in ("decode", "encode") or not cargs(x)):
                x = x.a[0].a[0]
                continue
            if x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] in TEXT and x.a[0].op == "bm" and len(cargs(x)) == 1:
                x = cargs(x)[0]
                continue
            if x.op == "call" and fname(x.a[0]).rsplit(".", 1)[-1] in CUT:
                bad = fname(x.a[0]).rsplit(".", 1)[-1] + "()"
            elif x.op == "sub" and not is_const(x.a[1], key) and contains(x.a[0], lambda y: is_const(y, key)):
                bad = "[" + show(x.a[1])[:30] + "]"
            elif x.op == "call" and is_call(x, "builtins.int", "builtins.float", "builtins.round"):
                bad = fname(x.a[0])
            break
        if x.op == "sub" or bad or is_call(x, ".get") or x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "get":
            ctx.ob(name, bad is None, e, "%s is not the text of %s: %s" % (what, key, bad))


def kindof(t):
    """which of type / subtype a value is, from the attribute or column it is read from"""
    out = set()
    st = [t]
    while st:
        x = strip(st.pop())
        if x.op == "ite":
            st += x.a[1:]
        elif x.op == "sub":
            ks = [y.a[0] for y in subterms(x.a[1]) if y.op == "const" and isinstance(y.a[0], str)] if x.a[1].op != "slice" else []
            ks = [str(k).lower() for k in ks]
            if any(k in ("spectype", "rrtype", "subtype") for k in ks):
                out |= {"sub" if k == "subtype" else "type" for k in ks if k in ("spectype", "rrtype", "subtype")}
            else:
                st.append(x.a[0])
        elif x.op == "attr":
            if x.a[1] in ("_subtype", "sub_type"):
                out.add("sub")
            elif x.a[1] in ("_rrtype", "template_type"):
                out.add("type")
        elif x.op in ("comp",):
            st.append(x.a[1])
        elif x.op in ("call", "fstr", "fmt", "bin"):
            st += [y.a[1] if y.op == "kw" else y for y in x.a[(1 if x.op == "call" else 0):] if isinstance(y, T)]
    return out


def r_uses(ctx):
    """types and subtypes taken from a parsed full type keep their positions"""
    n = 0
    for q in ("redrock.zfind.zfind", "redrock.results.read_zscan", "redrock.results.read_zfit", "redrock.fitz.fitz", "redrock.archetypes.Archetype.nearest_neighbour_model",
              "redrock.archetypes.Archetype.__init__", "redrock.archetypes.All_archetypes.__init__", "redrock.plotspec.PlotSpec.__init__", "redrock.plotspec.PlotSpec._draw", "redrock.results.write_zscan"):
        try:
            I = ctx.interp(q)
        except Exception:
            continue
        for e in I.effects:
            if e.kind == "setitem" and is_const(e.key) and str(e.key.a[0]).lower() in ("spectype", "subtype", "pca_spectype", "pca_subtype"):
                k = 0 if "spectype" in str(e.key.a[0]).lower() else 1
                got = {x.a[1].a[0] for x in subterms(e.value) if x.op == "sub" and is_call(x.a[0], "parse_fulltype") and is_const(x.a[1])}
                # the value itself, not what it is selected by
                if got:
                    n += 1
                    ctx.ob("uses/columns", got <= {k}, e, "column %s holds part %s of the full type" % (e.key.a[0], sorted(got)))
            if e.kind == "call" and fname(e.fn).endswith("make_fulltype") and e.d.get("bound"):
                a, b = e.d["bound"].get("spectype"), e.d["bound"].get("subtype")
                n += 1
                ka, kb = kindof(a), kindof(b)
                ctx.ob("uses/make", ka != {"sub"} and kb != {"type"}, e, "full type made of (%s, %s)" % (show(a)[:50], show(b)[:50]))
            if e.kind == "call" and fname(e.fn).endswith("split_archetype_coeff") and e.d.get("bound"):
                s = e.d["bound"].get("subtype")
                got = {x.a[1].a[0] for x in subterms(s) if x.op == "sub" and is_call(x.a[0], "parse_fulltype") and is_const(x.a[1])} if s is not None else set()
                if got:
                    n += 1
                    ctx.ob("uses/archetype", got == {1}, e, "the subtype is part %s of the full type" % sorted(got))
    if not n:
        raise Undecided("no use of full types")


def r_keys(ctx):
    """what the tables of templates are keyed by"""
    n = 0
    LT = "redrock.templates.load_templates"
    I = ctx.interp(LT)
    for t in [x for x in subterms(I.ret)]:
        if t.op == "comp" and t.a[0] == "dict":
            n += pairkey(ctx, LT, t.a[1].a[0], t.a[1].a[1])
    for e in I.effects:
        if e.kind in ("setitem", "setdefault") and isinstance(e.d.get("key"), T) and strip(e.key).op == "tuple":
            n += pairkey(ctx, e, e.key, e.value)
    for q in ("redrock.external.boss.rrboss",):
        B = ctx.interp(q)
        for e in calls(B, "write_zbest"):
            b = e.d.get("bound") or {}
            t = b.get("template_version")
            if t is None:
                continue
            for x in subterms(t):
                if x.op == "comp" and x.a[0] == "dict":
                    k, v = strip(x.a[1].a[0]), strip(x.a[1].a[1])
                    if k.op == "attr":
                        n += 1
                        ctx.ob("keys/boss-name", k.a[1] in ("full_type", "_full_type"), e, "templates are listed by " + k.a[1])
                    elif is_call(k, "make_fulltype"):
                        n += 1
                    if v.op == "attr":
                        n += 1
                        ctx.ob("keys/boss-version", v.a[1] in ATTR["VER"] and (k.op != "attr" or v.a[0] is k.a[0]), e, "the version of a template is %s" % show(v)[-60:])
    I = ctx.interp(WB)
    for pre, par in (("ARC", "archetype_version"), ("TEM", "template_version")):
        m, o = mk("param", WB, par), mk("param", WB, "template_version" if pre == "ARC" else "archetype_version")
        for e, (p, i, w) in writer_keys(ctx, WB, pre):
            n += 1
            ctx.ob("keys/boss-mapping", contains(e.value, lambda x: x is m) and not contains(e.value, lambda x: x is o), e, "%s holds %s" % (p, show(e.value)[:60]))
    if not n:
        raise Undecided("no table of templates")


def pairkey(ctx, where, k, v):
    k, v = strip(k), strip(v)
    if k.op != "tuple" or len(k.a) != 2:
        ctx.undecided.append((ctx.cur, "key of a template table"))
        return 0
    for i, (x, names) in enumerate(zip(k.a, (("template_type", "_rrtype"), ("sub_type", "_subtype")))):
        x = strip(x)
        at = [y.a[1] for y in subterms(x) if y.op == "attr" and y.a[1] in ("template_type", "_rrtype", "sub_type", "_subtype", "full_type", "version", "_version", "method", "_method", "igm_model")]
        if x.op == "attr":
            ctx.ob("keys/pair", x.a[1] in names and (strip(x.a[0]) is v or v.op != x.a[0].op), where, "part %d of the key is %s" % (i, show(x)[-60:]))
        elif at and not contains(x, lambda y: is_call(y, "parse_fulltype")):
            cut = [y for y in subterms(x) if y.op == "call" and fname(y.a[0]).rsplit(".", 1)[-1] in CUT or y.op == "sub" and y.a[1].op == "slice" and contains(y.a[0], lambda z: z.op == "attr" and z.a[1] in at)]
            if cut or not set(at) <= set(names):
                ctx.ob("keys/pair", False, where, "part %d of the key is %s" % (i, show(x)[-60:]))
            else:
                ctx.undecided.append((ctx.cur, "key of a template table"))
    return 1


def r_list(ctx):
    """a list of template files is used completely and in its order"""
    FT = "redrock.templates.find_templates"
    I = ctx.interp(FT)
    ap = [e for e in effs(I, "append") if contains(e.value, lambda x: x.op == "idx")]
    for e in effs(I, "call"):
        if e.d.get("meth") == "insert" and len(e.args) == 2 and contains(e.args[1], lambda x: x.op == "sub" and x.a[1].op == "idx"):
            back = any(is_call(x, *REORDER) for x in subterms(e.args[1]))
            if is_const(e.args[0], 0) and not back:
                ctx.ob("list/order", False, e, "every file is put before those listed above it")
                return
        if e.d.get("meth") in ("sort", "reverse") and e.d.get("recv") is not None and ap and roots(strip(e.recv)) & roots(strip(ap[0].base)):
            ctx.ob("list/result", False, e, "the files of the list are re-ordered (%s)" % e.meth)
    if not ap:
        raise Undecided("no list of files is built")
    raises = [e for e in I.effects if e.kind == "raise"]
    for e in ap:
        line = [x for x in subterms(e.value) if x.op == "sub" and x.a[1].op == "idx"]
        if not line:
            ctx.undecided.append((ctx.cur, "file of a line"))
            continue
        line = line[0]
        it = line.a[1].a[0] if isinstance(line.a[1].a[0], T) else line.a[1].a[1]
        bad = [x for x in subterms(line.a[0]) if is_call(x, *REORDER)]
        ctx.ob("list/order", not bad, e, "the lines are read in another order: " + (show(bad[0])[:60] if bad else ""))
        for g, k in e.guards:
            if k == "loop" or not contains(g, lambda x: x is line):
                continue
            for a in bits(g):
                if not contains(a, lambda x: x is line):
                    continue
                if contains(a, lambda x: is_call(x, "os.path.exists", "os.path.isfile")):
                    neg = [r for r in raises if contains(guard_term(r), lambda x: x is a)]
                    ctx.ob("list/missing", bool(neg), e, "a listed file that does not exist is left out silently")
                    continue
                ctx.ob("list/all", lineskip(a, line), e, "a listed file is left out under the condition " + show(a)[:80])
    rs = [x for x in subterms(I.ret) if x.op == "call" and fname(x.a[0]) in ("builtins.set", "builtins.reversed", "numpy.unique") or x.op == "sub" and x.a[1].op == "slice" and any(y.op == "app" for y in subterms(x.a[0]))]
    ctx.ob("list/result", not rs, FT, "the files of the list are re-ordered or cut: " + (show(rs[0])[:60] if rs else ""))


def bits(g):
    if g.op in ("and", "or", "not"):
        return [y for x in g.a for y in bits(x)]
    return [g]


def lineskip(a, line):
    """conditions under which a line names no file: blank or a comment line"""
    def isline(t):
        t = strip(t)
        while t.op == "call" and t.a[0].op in ("attr", "bm") and fname(t.a[0]).rsplit(".", 1)[-1] in ("strip", "rstrip", "lstrip"):
            t = strip(t.a[0].a[0] if t.a[0].op == "attr" else cargs(t)[0])
        return t is line
    if isline(a):
        return True
    if a.op == "call" and fname(a.a[0]).rsplit(".", 1)[-1] == "startswith":
        r = a.a[0].a[0] if a.a[0].op == "attr" else cargs(a)[0]
        c = cargs(a)[-1]
        return isline(r) and is_const(c, "#")
    if a.op == "cmp":
        o, x, y = a.a
        for p, q in ((x, y), (y, x)):
            if is_call(p, "builtins.len") and is_const(q) and isinstance(q.a[0], int):
                return isline(cargs(p)[0]) and q.a[0] <= 2
            if is_const(q, ""):
                return isline(p)
            if is_const(q, "#") and p.op == "sub" and o in ("==", "!="):
                return isline(p.a[0]) and (is_const(p.a[1], 0) or p.a[1].op == "slice")
    return False


def r_used(ctx):
    """the header lists every template of the run"""
    n = 0
    for q, names in (("redrock.external.desi.rrdesi", ("write_zbest", "write_bestmodel")), ("redrock.external.boss.rrboss", ("write_zbest",))):
        I = ctx.interp(q)
        for nm in names:
            for e in calls(I, nm):
                b = e.d.get("bound") or {}
                t = b.get("templates") or b.get("template_version")
                if t is None:
                    continue
                if not contains(t, lambda x: is_call(x, "load_dist_templates", "load_templates")):
                    ctx.ob("used/source", False, e, "the templates of the header are not those loaded for the run: " + show(t)[:80])
                    continue
                n += 1
                part = any(x.op == "comp" and not is_const(x.a[2], True) and contains(x.a[3] if len(x.a) > 3 else x, lambda y: is_call(y, "load_dist_templates")) for x in subterms(t)) if strip(t).op == "comp" else False
                top = strip(t)
                if top.op == "comp":
                    part = not is_const(top.a[2], True)
                    it = top.a[3]
                    src = strip(it.a[0])
                    part = part or (src.op == "sub" and src.a[1].op == "slice")
                elif top.op == "loop":
                    it = [x for x in top.a[0].a if isinstance(x, T) and x.op == "it"]
                    src = strip(it[0].a[0]) if it else None
                    part = src is not None and src.op == "sub" and src.a[1].op == "slice"
                    body = top.a[1] if isinstance(top.a[1], T) else None
                    if body is not None and body.op == "ite":
                        part = True
                ctx.ob("used/all", not part, e, "only some of the templates are listed in the header")
    for q in ("redrock.external.desi.write_zbest", "redrock.external.desi.write_bestmodel"):
        I = ctx.interp(q)
        for e in calls(I, "_get_header"):
            b = e.d.get("bound") or {}
            t = b.get("templates")
            n += 1
            ctx.ob("used/passed", t is not None and t is mk("param", q, "templates"), e, "header of " + (show(t)[:60] if t is not None else "nothing"))
            t = b.get("archetypes")
            ctx.ob("used/archetypes", t is not None and t is mk("param", q, "archetypes"), e, "archetypes of the header: " + (show(t)[:60] if t is not None else "nothing"))
    if not n:
        raise Undecided("no header is written")


def run(ctx):
    ctx.rule("pair", "parse_fulltype(make_fulltype(type, subtype)) is (type, subtype) for every stripped type and subtype without separator, blank and None subtypes giving '' (evaluation over strings with symbolic pieces)", r_pair)
    ctx.rule("writer", "TEMNAMnn, TEMVERnn and TEMFILnn hold full type, version and file name of the template at position nn of the whole list, two digits", r_writer)
    ctx.rule("reader", "the reader uses the same keywords and numbering from 00 to 99 in order, prefers TEMFIL, and otherwise builds rrtemplate-type-subtype-vversion.fits with None for a blank subtype", r_reader)
    ctx.rule("attributes", "template attributes used in headers return the values read from the template file", r_attrs)
    ctx.rule("uses", "callers take the type from the first and the subtype from the second part of a full type", r_uses)
    ctx.rule("used", "the header is given every template loaded for the run", r_used)
    ctx.rule("keys", "templates are keyed by (type, subtype), and the mappings written to BOSS headers by full type with the version of the same template", r_keys)
    ctx.rule("list", "every line of a template list file that is neither blank nor a comment names one file that is used, in order; a missing file stops the run", r_list)
