"""C20: the details file is read back as it was written (writer / reader schema)."""
import ast
from ..q import *
from ..terms import *
from ..ctx import Undecided

R = "redrock.results."
WR, RZ, RF, RR = R + "write_zscan", R + "read_zscan", R + "read_zfit", R + "read_zscan_redrock"
FIELDS = ("redshifts", "zchi2", "penalty", "zcoeff")
TEXT = ("spectype", "subtype", "fitmethod", "pca_spectype", "pca_subtype")
EMPTY = mk("tuple")


def isfile(t):
    t = strip_alloc(t)
    return t.op == "call" and (fname(t.a[0]) or "").rsplit(".", 1)[-1] in ("File", "open_file") and (fname(t.a[0]) or "").startswith("h5py")


def fileroot(t):
    """the file object behind stores into it"""
    t = strip_alloc(t)
    for _ in range(200):
        if isfile(t):
            return t
        if t.op == "store":
            t = strip_alloc(t.a[0])
        elif t.op == "mu":
            t = strip_alloc(t.a[2])
        elif t.op == "loop":
            t = strip_alloc(t.a[0])
        elif t.op == "ite":
            a, b = fileroot(t.a[1]), fileroot(t.a[2])
            return a if a is not None and b is not None else None
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "__enter__":
            t = strip_alloc(t.a[0].a[0])
        else:
            return None
    return None


def parts(k):
    """path text as components: strings and terms"""
    k = strip_alloc(k)
    out = []

    def add(s):
        for i, x in enumerate(s.split("/")):
            if i:
                out.append("/")
            if x:
                out.append(x)
    if is_const(k) and isinstance(k.a[0], str):
        add(k.a[0])
    elif k.op == "fstr":
        for x in k.a:
            if is_const(x) and isinstance(x.a[0], str):
                add(x.a[0])
            elif isinstance(x, str):
                add(x)
            elif getattr(x, "op", None) == "fmt":
                out.append(strip_str(x.a[0]))
            else:
                out.append(strip_str(x))
    elif k.op == "bin" and k.a[0] == "+":
        for x in k.a[1:]:
            p = parts(x)
            if p is None:
                return None
            out += p
        return out
    elif is_call(k, "os.path.join", "posixpath.join"):
        for i, x in enumerate(cargs(k)):
            if i:
                out.append("/")
            out += parts(x)
        return out
    elif k.op == "call" and k.a[0].op == "attr" and k.a[0].a[1] == "join" and is_const(k.a[0].a[0], "/") and strip_alloc(cargs(k)[0]).op in ("list", "tuple"):
        for i, x in enumerate(strip_alloc(cargs(k)[0]).a):
            if i:
                out.append("/")
            out += parts(x)
        return out
    elif k.op == "bin" and k.a[0] == "%" and is_const(k.a[1]) and isinstance(k.a[1].a[0], str):
        vals = strip_alloc(k.a[2])
        vals = list(vals.a) if vals.op == "tuple" else [vals]
        segs = k.a[1].a[0].replace("%d", "%s").split("%s")
        if len(segs) != len(vals) + 1:
            return None
        for i, s in enumerate(segs):
            if i:
                out.append(strip_str(vals[i - 1]))
            add(s)
        return out
    else:
        return [strip_str(k)]
    return out


def strip_str(t):
    t = strip(t)
    while is_call(t, "builtins.str", "builtins.int") and len(cargs(t)) == 1:
        t = strip(cargs(t)[0])
    return t


def comps(p):
    """[parts] -> path components; None when a component mixes text and a value"""
    if p is None:
        return None
    out, cur = [], []
    for x in p + ["/"]:
        if isinstance(x, str) and x == "/":
            if cur:
                if len(cur) > 1:
                    if all(isinstance(y, str) for y in cur):
                        cur = ["".join(cur)]
                    else:
                        return None
                out.append(cur[0])
            cur = []
        else:
            cur.append(x)
    return out


def whole(k):
    """subscripts that read a dataset as a whole"""
    k = strip(k)
    return k is EMPTY or k.op == "slice" and all(x is NONE for x in k.a) or k.op == "const" and k.a[0] is Ellipsis or k.op == "tuple" and not k.a


def dictlook(t):
    """resolve lookups in dictionaries built by comprehension or literal"""
    t = strip_alloc(t)
    if t.op != "sub":
        return t
    b = dictlook(t.a[0])
    k = t.a[1]
    if b.op == "dict" and is_const(k):
        for i in range(0, len(b.a), 2):
            if b.a[i] is k:
                return dictlook(b.a[i + 1])
        return mk("missing", k)
    if b.op == "comp" and b.a[0] == "dict" and b.a[1].op == "tuple" and len(b.a[1].a) == 2:
        kk, vv = b.a[1].a
        kk = strip(kk)
        it = b.a[3]
        # the element of the same iterable under another index
        if kk.op == "sub" and kk.a[1].op == "idx" and k is not kk:
            ks = strip(k)
            if ks.op == "sub" and ks.a[1].op == "idx" and strip(ks.a[0]) is strip(kk.a[0]):
                i0, i1 = kk.a[1], ks.a[1]
                return dictlook(rewrite(vv, lambda x: i1 if x is i0 else x))
        if k is kk:
            return dictlook(vv)
    return t if b is strip_alloc(t.a[0]) else mk("sub", b, k)


def dataset(t):
    """(path components, [row subscripts]) of a value read from the file"""
    subs = []
    t = dictlook(t)
    for _ in range(30):
        t = strip_alloc(t)
        if is_call(t, "numpy.asarray", "numpy.array", "numpy.copy", "numpy.ascontiguousarray", "numpy.astype", "builtins.list", "builtins.tuple") and cargs(t):
            t = dictlook(cargs(t)[0])
            continue
        if is_call(t, "numpy.take") and len(cargs(t)) >= 2 and is_const(ckw(t, "axis", 2) or const(0), 0):
            subs.append(cargs(t)[1])
            t = dictlook(cargs(t)[0])
            continue
        if t.op == "sub":
            subs.append(t.a[1])
            t = dictlook(t.a[0])
            continue
        if t.op == "attr" and t.a[1] == "value":
            t = t.a[0]
            continue
        if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "keys" and not cargs(t):
            t = t.a[0].a[0]
            continue
        break
    f = fileroot(t)
    if f is None:
        return None
    subs.reverse()
    path = []
    while subs:
        c = comps(parts(subs[0]))
        if path == ["zscan"] and (strip(subs[0]).op == "idx" or is_const(subs[0]) and isinstance(subs[0].a[0], int)):
            break
        done = path and (path[0] == "zscan" and len(path) >= 3 or path[0] == "zfit" and len(path) >= 3 or path[0] in ("targetids", "zbest"))
        if done or c is None or whole(subs[0]):
            break
        path += c
        subs.pop(0)
    return path, [s for s in subs if not whole(s)]


CHANGE = ["numpy." + x for x in "round around round_ rint abs absolute floor ceil trunc sqrt log log10 exp maximum minimum clip nan_to_num sort flip roll cumsum diff unique square negative".split()] + ["builtins.round", "builtins.abs", "builtins.sorted", "builtins.reversed"]


def altered(t, get):
    """what is done to the stored value t is computed from (get finds it), when that is no mere copy; None: not known"""
    t = strip_alloc(t)
    if is_call(t, *CHANGE) and cargs(t):
        xs = [strip_alloc(x) for x in cargs(t)]
        if get(xs[0]) is not None or altered(xs[0], get):
            return fname(t.a[0])
    if t.op == "un" and t.a[0] == "-" and get(strip_alloc(t.a[1])) is not None:
        return "-"
    if t.op == "bin" and t.a[0] in ("+", "-", "*", "/", "**", "//", "%"):
        for x, o in ((t.a[1], t.a[2]), (t.a[2], t.a[1])):
            g = get(strip_alloc(x))
            if g is None:
                continue
            n = {"+": (0, 0.0), "-": (0, 0.0)}.get(t.a[0], (1, 1.0))
            if is_const(strip(o)) and not is_const(strip(o), *n):
                return t.a[0] + show(o)
            # a spread or an extreme of the value itself
            if any(is_call(y, *["numpy." + z for z in "min max amin amax mean median nanmin nanmax std ptp sum".split()]) and cargs(y) and get(strip_alloc(cargs(y)[0])) == g for y in (strip_alloc(o),)):
                return t.a[0] + fname(strip_alloc(o).a[0])
    return None


def chain(subs):
    """normal form of successive row subscripts"""
    out = []
    for s in subs:
        s = strip(s)
        if s.op == "idx":
            out.append(s)
        elif s.op == "sub" and not is_call(strip(s.a[0]), "numpy.where", "numpy.nonzero") and dataset(s) is None:
            out += chain([s.a[0], s.a[1]])
        elif s.op == "sub" and is_call(strip(s.a[0]), "numpy.where", "numpy.nonzero") and is_const(s.a[1], 0):
            out.append(strip(cargs(strip(s.a[0]))[0]))
        elif is_call(s, "numpy.flatnonzero"):
            out.append(strip(cargs(s)[0]))
        else:
            out.append(s)
    return out


def deep(t):
    return rewrite(t, lambda y: y.a[1] if y.op == "alloc" and len(y.a) == 2 else y)


def samechain(a, b):
    a, b = [deep(x) for x in chain(a)], [deep(x) for x in chain(b)]
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


# ------------------------------------------------------------------ writer
class Writer(object):
    def __init__(self, ctx):
        self.ctx = ctx
        self.I = ctx.interp(WR)
        self.ds = []
        for e in self.I.effects:
            if e.kind == "setitem" and fileroot(e.base) is not None:
                self.ds.append((comps(parts(e.key)), e.value, e))
            elif e.kind == "call" and e.meth in ("create_dataset",) and e.recv is not None and fileroot(e.recv) is not None:
                v = ckw(e.result, "data", 99)
                self.ds.append((comps(parts(e.args[0])), v, e))
        if not self.ds:
            raise Undecided("no datasets are written")
        self.zscan = mk("param", WR, "zscan")
        self.zfit = mk("param", WR, "zfit")
        self.T = None
        for p, v, e in self.ds:
            if p == ["targetids"]:
                self.T, self.Te = v, e
        if self.T is None:
            return
        t = strip_alloc(self.T)
        self.tset = {self.T.id, t.id}
        for _ in range(4):
            if is_call(t, "numpy.asarray", "numpy.array", "numpy.copy", "builtins.list") and cargs(t):
                t = strip_alloc(cargs(t)[0])
                self.tset.add(t.id)
        self.T0 = t

    def istargets(self, t):
        t = strip_alloc(t)
        for _ in range(5):
            if t.id in self.tset:
                return True
            if is_call(t, "numpy.asarray", "numpy.array", "numpy.copy", "builtins.list", "builtins.tuple") and cargs(t):
                t = strip_alloc(cargs(t)[0])
            else:
                break
        return t.id in self.tset

    def entry(self, t):
        """zscan[target][type][name] -> (target, type, name, casts)"""
        casts = []
        for _ in range(12):
            t = strip_alloc(t)
            if is_call(t, "numpy.astype") and cargs(t):
                casts.append(ckw(t, "dtype", 1))
                t = cargs(t)[0]
            elif is_call(t, "numpy.float32", "numpy.float64", "numpy.float16") and cargs(t):
                casts.append(t.a[0])
                t = cargs(t)[0]
            elif is_call(t, "numpy.asarray", "numpy.array", "numpy.reshape", "numpy.expand_dims", "numpy.atleast_2d", "numpy.atleast_1d", "numpy.ascontiguousarray", "numpy.copy") and cargs(t):
                if ckw(t, "dtype") is not None:
                    casts.append(ckw(t, "dtype"))
                t = cargs(t)[0]
            elif t.op == "sub" and (t.a[1] is NONE or t.a[1].op == "tuple" and all(x is NONE or x.op == "slice" and all(y is NONE for y in x.a) or is_const(x) and x.a[0] is Ellipsis for x in t.a[1].a)):
                t = t.a[0]
            else:
                break
        if t.op == "sub" and is_const(t.a[1]) and isinstance(t.a[1].a[0], str):
            b = strip_alloc(t.a[0])
            if b.op == "sub":
                z = strip_alloc(b.a[0])
                if z.op == "sub" and strip_alloc(z.a[0]) is self.zscan:
                    return z.a[1], b.a[1], t.a[1].a[0], casts
        return None


def floatkind(c):
    """bits of a float dtype, None when unknown, 0 when it is not a float type"""
    n = fname(c) if c.op in ("global", "attr", "ext") or True else None
    n = (n or "").rsplit(".", 1)[-1] if n else None
    if n is None and is_const(c) and isinstance(c.a[0], str):
        n = {"f4": "float32", "f8": "float64", "f2": "float16", "i4": "int32", "i8": "int64", "i2": "int16", "i1": "int8", "f": "float32", "d": "float64", "u1": "uint8"}.get(c.a[0].lstrip("<>=|"), c.a[0])
    return n


WIDTH = {"float": 64, "double": 64, "int": 64, "float64": 64, "float32": 32, "float16": 16, "single": 32, "half": 16, "int64": 64, "int32": 32, "int16": 16, "int8": 8, "uint64": 64, "uint32": 32, "uint16": 16, "uint8": 8, "bool": 1, "bool_": 1}


def cast_ok(c, isfloat, bits):
    n = floatkind(c)
    if n not in WIDTH:
        return None
    if isfloat and not n.startswith(("float", "double", "single", "half")):
        return False
    return WIDTH[n] >= bits


def r_targets(ctx):
    W = Writer(ctx)
    if W.T is None:
        ctx.ob("targets/stored", False, W.ds[0][2], "the target list is not written")
        return
    t = W.T0
    # targetid of the rows with znum 0
    if t.op == "sub" and is_const(t.a[1], "targetid", "TARGETID"):
        b = strip_alloc(t.a[0])
        if b.op == "sub":
            k = strip(b.a[1])
            if k.op == "sub" and is_const(k.a[1], 0) and is_call(strip(k.a[0]), "numpy.where", "numpy.nonzero"):
                k = strip(cargs(strip(k.a[0]))[0])
            cs = conjuncts(k)
            if len(cs) > 1:
                num = [x for x in cs if x.op == "cmp" and any(contains(y, lambda z: z.op == "const" and z.a[0] == "znum") for y in x.a[1:])]
                oth = [x for x in cs if x not in num and x.op == "cmp" and any(strip(y).op == "sub" and is_const(strip(y).a[1]) and contains(strip(y).a[0], lambda z: z is W.zfit) for y in x.a[1:])]
                if num and oth:
                    ctx.ob("targets/once", False, W.Te, "targets without a row with %s are left out" % show(oth[0])[-60:])
                    return
            if k.op == "cmp" and any(contains(x, lambda y: y.op == "const" and y.a[0] == "znum") for x in k.a[1:]):
                n = [x for x in k.a[1:] if is_const(x)]
                ctx.ob("targets/once", k.a[0] == "==" and bool(n) and n[0].a[0] == 0, W.Te, "targets are taken from rows with %s" % show(k)[-30:])
                return
            raise Undecided("rows of the target list: " + show(k)[:60])
        ctx.ob("targets/once", False, W.Te, "the target list repeats a target for every fit")
        return
    if is_call(t, "numpy.unique") or t is W.zscan or t.op == "comp" and strip(t.a[3].a[0]) is W.zscan and t.a[2] is TRUE:
        ctx.ob("targets/once", True, W.Te, "")
        return
    raise Undecided("target list " + show(t)[:60])


def r_scan(ctx):
    W = Writer(ctx)
    if W.T is None:
        raise Undecided("target list")
    seen = set()
    for p, v, e in W.ds:
        if p is None:
            raise Undecided("path " + show(e.key)[:60])
        if len(p) != 3 or p[0] != "zscan":
            continue
        typ, nme = p[1], p[2]
        if not isinstance(nme, str):
            raise Undecided("dataset name " + show(nme)[:40])
        tag = "scan/" + nme
        seen.add(nme)
        if [g for g, k in e.guards if k == "if"]:
            raise Undecided("%s is only written sometimes" % nme)
        x = strip_alloc(v)
        stacked = False
        casts = []
        for _ in range(6):
            if is_call(x, "numpy.astype") and cargs(x):
                casts.append(ckw(x, "dtype", 1))
                x = strip_alloc(cargs(x)[0])
            elif is_call(x, "numpy.vstack", "numpy.stack", "numpy.array", "numpy.asarray", "numpy.row_stack") and cargs(x):
                if is_call(x, "numpy.stack") and not is_const(ckw(x, "axis", 1) or const(0), 0):
                    ctx.ob(tag + "/stack", False, e, "targets are stacked along axis %s" % show(ckw(x, "axis", 1)))
                if ckw(x, "dtype") is not None:
                    casts.append(ckw(x, "dtype"))
                x = strip_alloc(cargs(x)[0])
            elif is_call(x, "numpy.concatenate") and cargs(x):
                x = strip_alloc(cargs(x)[0])
            else:
                break
        if x.op == "comp":
            stacked = True
            it = x.a[3]
            if x.a[2] is not TRUE:
                ctx.ob(tag + "/rows", False, e, "%s is stacked for some targets only (%s)" % (nme, show(x.a[2])[:60]))
                continue
            el = W.entry(x.a[1])
        else:
            el = W.entry(x)
        if el is None:
            w = altered(x.a[1] if x.op == "comp" else x, W.entry)
            if w:
                ctx.ob(tag + "/unchanged", False, e, "%s is not stored as it was found: %s" % (nme, w[:60]))
                continue
            raise Undecided("value of %s: %s" % (nme, show(x)[:80]))
        tid, ft, key, cs = el
        casts += cs
        ctx.ob(tag + "/field", key == nme, e, "the dataset %s holds the field %s" % (nme, key))
        if not isinstance(typ, str) and typ.op == "sub" and typ.a[1].op == "idx":
            src = strip_alloc(typ.a[0])
            while is_call(src, "builtins.list", "builtins.tuple", "builtins.sorted") and cargs(src):
                src = strip_alloc(cargs(src)[0])
            part = src.op == "sub" and strip(src.a[1]).op == "slice" or src.op == "comp" and src.a[2] is not TRUE
            ctx.ob(tag + "/all-types", not part, e, "only some template types are written: " + show(src)[:80])
        if not isinstance(typ, str):
            ctx.ob(tag + "/type", strip(ft) is typ, e, "the group %s holds the values of %s" % (show(typ)[-60:], show(ft)[-60:]))
        else:
            ctx.ob(tag + "/type", False, e, "every template type is written to " + typ)
        if stacked:
            s = strip(tid)
            if not (s.op == "sub" and s.a[1].op == "idx"):
                ctx.ob(tag + "/rows", False, e, "every row holds the target " + show(s)[-40:])
            elif W.istargets(s.a[0]):
                ctx.ob(tag + "/rows", True, e, "")
            else:
                base = strip_alloc(s.a[0])
                if base is W.zscan or is_call(base, "builtins.sorted", "numpy.unique", "numpy.sort", "builtins.reversed") or base.op == "sub":
                    ctx.ob(tag + "/rows", False, e, "rows follow %s, the target list does not" % show(base)[:60])
                else:
                    raise Undecided("row order " + show(base)[:60])
        elif key != "redshifts":
            ctx.ob(tag + "/rows", False, e, "only the values of target %s are written" % show(tid)[-30:])
        for c in casts:
            k = cast_ok(c, True, 32)
            if k is not None:
                ctx.ob(tag + "/kind", k, e, "%s is stored as %s" % (nme, show(c)))
    miss = [f for f in FIELDS if f not in seen]
    ctx.ob("scan/all", not miss, W.ds[0][2], "not written: " + ", ".join(miss))


def conjuncts(t):
    """parts of a conjunction, of values or of arrays"""
    t = strip(t)
    if t.op == "and" or t.op == "bin" and t.a[0] == "&":
        return [y for x in (t.a if t.op == "and" else t.a[1:]) for y in conjuncts(x)]
    if is_call(t, "numpy.logical_and") and len(cargs(t)) == 2:
        return [y for x in cargs(t) for y in conjuncts(x)]
    return [t]


def rowsel(W, v):
    """zfit[...] rows of a fit table value -> selecting condition"""
    x = strip_alloc(v)
    for _ in range(8):
        if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] in ("as_array", "copy"):
            x = strip_alloc(x.a[0].a[0])
        elif is_call(x, "numpy.asarray", "numpy.array", "numpy.copy", "astropy.table.Table") and cargs(x):
            x = strip_alloc(cargs(x)[0])
        else:
            break
    if x.op == "sub":
        k = strip(x.a[1])
        c = chain([k])
        return x.a[0], c[0] if len(c) == 1 else None
    return x, TRUE


def r_fits(ctx):
    W = Writer(ctx)
    if W.T is None:
        raise Undecided("target list")
    n = 0
    for p, v, e in W.ds:
        if p is None or p[0] != "zfit":
            continue
        n += 1
        if len(p) != 3 or isinstance(p[1], str):
            raise Undecided("path of the fit tables")
        tid = strip(p[1])
        if tid.op == "sub" and tid.a[1].op == "idx":
            ctx.ob("fits/all", W.istargets(tid.a[0]) or not known_part(W, tid.a[0]), e, "fit tables are written for %s" % show(tid.a[0])[:60])
        base, cond = rowsel(W, v)
        cut = [y for y in subterms(v) if y.op == "sub" and y.a[1].op == "slice" and not all(is_const(z, None) for z in y.a[1].a) and not is_const(y.a[1].a[2], -1)
               and contains(y.a[0], lambda z: is_call(z, "numpy.where", "numpy.flatnonzero", "numpy.nonzero") or z is W.zfit)]
        if cut:
            ctx.ob("fits/rows", False, e, "only some of the fits are written: " + show(cut[0])[-80:])
            continue
        if cond is None:
            raise Undecided("rows of a fit table")
        if cond is TRUE:
            ctx.ob("fits/rows", False, e, "every target gets the fits of all targets")
            continue
        cs = conjuncts(cond)
        good = [c for c in cs if c.op == "cmp" and any(strip(y) is tid or strip_str(y) is tid for y in c.a[1:]) and any(contains(y, lambda z: z.op == "const" and z.a[0] == "targetid") for y in c.a[1:])]
        if not good:
            o = [c for c in cs if c.op == "cmp"]
            if o and any(contains(c, lambda z: z.op == "const" and z.a[0] == "targetid") for c in o):
                ctx.ob("fits/rows", False, e, "the fits of target %s are selected by %s" % (show(tid)[-30:], show(o[0])[-60:]))
                continue
            raise Undecided("rows of a fit table: " + show(cond)[:80])
        ctx.ob("fits/rows", good[0].a[0] == "==", e, "rows with %s" % show(good[0])[-60:])
        rest = [c for c in cs if c not in good]
        if any(c.op == "cmp" and any(strip(y).op == "sub" and is_const(strip(y).a[1]) and isinstance(strip(y).a[1].a[0], str) and strip(y).a[1].a[0] != "targetid" for y in c.a[1:]) for c in rest):
            ctx.ob("fits/rows", False, e, "only the fits with %s are written" % show(rest[0])[-60:])
            continue
        if rest:
            raise Undecided("further selection of fits")
    if not n:
        ctx.ob("fits/all", False, W.ds[0][2], "no fit tables are written")


def known_part(W, t):
    t = strip_alloc(t)
    return t.op == "sub" and (t.a[1].op == "slice") and W.istargets(t.a[0])


def r_columns(ctx):
    """columns of the fit table keep type and enough width"""
    W = Writer(ctx)
    FL = ("z", "zerr", "chi2", "zz", "zzchi2", "coeff", "deltachi2", "pca_coeff", "archcoeff", "legcoeff")
    IN = {"targetid": 64, "zwarn": 24, "npixels": 32, "ncoeff": 8, "znum": 8}
    n = 0
    for e in W.I.effects:
        if e.kind != "setitem" or not is_const(e.key) or fileroot(e.base) is not None:
            continue
        c = e.key.a[0]
        v = strip_alloc(e.value)
        if not is_call(v, "numpy.astype", "numpy.asarray", "numpy.array") or not cargs(v):
            continue
        d = ckw(v, "dtype", 1)
        src = strip_alloc(cargs(v)[0])
        if d is None or src.op != "sub" or not is_const(src.a[1]):
            continue
        n += 1
        ctx.ob("columns/%s/source" % c, src.a[1].a[0] == c, e, "column %s is replaced by %s" % (c, src.a[1].a[0]))
        if c in FL:
            k = cast_ok(d, True, 64 if c == "z" else 32)
        elif c in IN:
            k = cast_ok(d, False, IN[c])
            if k and floatkind(d).startswith("float"):
                k = False
        else:
            continue
        if k is not None:
            ctx.ob("columns/%s/type" % c, k, e, "column %s is stored as %s" % (c, show(d)))
    if not n:
        ctx.ob("columns/none", True, W.ds[0][2], "")
    # zfit is copied before its columns are changed
    for e in W.I.effects:
        hit = None
        if e.kind == "setitem" and strip(e.base) is W.zfit and e.base.op != "alloc" and isparam(e.base, W.zfit):
            hit = e
        if e.kind == "call" and e.meth in ("replace_column", "remove_column", "remove_columns", "rename_column", "keep_columns", "sort") and isparam(e.recv, W.zfit):
            hit = e
        if hit is not None:
            ctx.ob("columns/caller", False, hit, "the caller's fit table is modified")


def isparam(t, p):
    return t is p


def text_ops(I, fns, fixed=()):
    """columns converted by replace_column / setitem, with the column read; `fixed` collects conversions to a fixed width"""
    fixed = [] if fixed == () else fixed
    out = []
    for e in I.effects:
        if e.kind == "call" and e.meth in ("replace_column",) and len(e.args) >= 2:
            c, v = e.args[0], strip_alloc(e.args[1])
        elif e.kind == "setitem" and is_const(e.key) and isinstance(e.key.a[0], str):
            c, v = e.key, strip_alloc(e.value)
        else:
            continue
        if is_call(v, "numpy.astype") and "numpy.astype" not in fns and cargs(v) and is_call(strip_alloc(cargs(v)[0]), *fns):
            d = ckw(v, "dtype", 1)
            if d is not None and is_const(d) and isinstance(d.a[0], str) and any(z.isdigit() for z in d.a[0]):
                fixed.append((c, d.a[0], e))
            v = strip_alloc(cargs(v)[0])
        if is_call(v, *fns) or v.op == "call" and v.a[0].op == "attr" and v.a[0].a[1] in ("encode", "decode"):
            src = ckw(v, "c", 0)
            src = strip_alloc(src) if src is not None else None
            if src is not None and src.op == "sub":
                out.append((c, src.a[1], e, v))
    return out


def r_text(ctx):
    W = Writer(ctx)
    fixed = []
    enc = text_ops(W.I, ("numpy.char.encode", "redrock.utils.encode_column"), fixed)
    for c, d, e in fixed:
        ctx.ob("text/width", False, e, "text column %s is cut to %s" % (show(c), d))
    I = ctx.interp(RF)
    # the reader calls encode_column, seen as astype(str) when it is inlined
    dec = text_ops(I, ("numpy.char.decode", "redrock.utils.encode_column", "numpy.astype"))
    ws, rs = set(), set()
    for o, lst, s in (("written", enc, ws), ("read", dec, rs)):
        for c, src, e, v in lst:
            if is_const(c):
                s.add(c.a[0])
                ctx.ob("text/%s/%s" % (o, c.a[0]), src is c, e, "text column %s is replaced by %s" % (show(c), show(src)))
            elif src is c and any(g.op == "cmp" and g.a[0] == "==" and any(is_const(x, "S" if s is rs else "U") for x in g.a[1:]) for g in flat_guards(e)) and len(flat_guards(e)) == 1:
                s |= set(TEXT)
            else:
                s.add(None)
    if None in ws or None in rs or not rs:
        # general loops over columns: look at the guard
        raise Undecided("set of text columns")
    miss = sorted(ws - rs)
    ctx.ob("text/both", not miss, dec[0][2], "encoded when written, not decoded when read: " + ", ".join(miss))
    miss = [c for c in TEXT if c not in rs]
    ctx.ob("text/read-all", not miss, dec[0][2], "text columns that come back as bytes: " + ", ".join(miss))
    miss = [c for c in TEXT if c not in ws]
    if enc:
        ctx.ob("text/write-all", not miss, enc[0][2], "text columns that cannot be written: " + ", ".join(miss))
    for c, src, e, v in enc:
        for g in flat_guards(e):
            if g.op == "cmp" and g.a[0] == "==" and any(is_const(x) for x in g.a[1:]) and contains(g, lambda y: y.op == "attr" and y.a[1] == "kind"):
                kk = [x for x in g.a[1:] if is_const(x)][0].a[0]
                ctx.ob("text/written/%s/kind" % c.a[0], kk == "U", e, "only columns of kind %r are encoded" % kk)
            elif g.op == "cmp" and g.a[0] in ("in", "not in") and is_const(g.a[1]):
                ctx.ob("text/written/%s/present" % c.a[0], g.a[1] is c and g.a[0] == "in", e, "column %s is encoded when %s" % (c.a[0], show(g)[:60]))
    for c, src, e, v in dec:
        for g in flat_guards(e):
            if g.op == "cmp" and g.a[0] in ("in", "not in") and is_const(g.a[1]):
                ctx.ob("text/read/%s/present" % c.a[0], g.a[1] is c and g.a[0] == "in", e, "column %s is decoded when %s" % (c.a[0], show(g)[:60]))


def r_decode(ctx):
    """encode_column turns bytes into text of full length"""
    q = "redrock.utils.encode_column"
    I = ctx.interp(q)
    c = mk("param", q, "c")
    r = strip_alloc(I.ret)
    at = ("def", q)
    e = effs(I, "return")
    e = e[0] if e else q
    if is_call(r, "numpy.astype") and strip(cargs(r)[0]) is c:
        d = strip_alloc(ckw(r, "dtype", 1))
        if d.op == "tuple" and len(d.a) == 2:
            n = fname(d.a[0]) or ""
            ctx.ob("decode/text", n.rsplit(".", 1)[-1] in ("str", "str_", "unicode_") or is_const(d.a[0], "U", "str"), e, "columns become " + show(d.a[0]))
            if is_const(d.a[1]):
                ctx.ob("decode/length", False, e, "text is cut to %s characters" % show(d.a[1]))
            else:
                w = strip(d.a[1])
                full = w.op == "attr" and w.a[1] == "itemsize"
                if w.op == "bin" and w.a[0] in ("//", "/", "-"):
                    ctx.ob("decode/length", False, e, "text is cut to " + show(w))
                elif full:
                    ctx.ob("decode/length", True, e, "")
            return
        n = fname(d) or ""
        if n.rsplit(".", 1)[-1] in ("str", "str_") or is_const(d, "U", "str"):
            ctx.ob("decode/text", True, e, "")
            return
        if n.rsplit(".", 1)[-1] in ("bytes", "bytes_", "object") or is_const(d, "S", "O"):
            ctx.ob("decode/text", False, e, "columns become " + show(d))
            return
    elif is_call(r, "numpy.char.decode"):
        ctx.ob("decode/text", True, e, "")
        return
    elif r is c:
        ctx.ob("decode/text", False, e, "the column is returned as bytes")
        return
    raise Undecided("form of encode_column")


# ----------------------------------------------------------------- readers
def leaves(I):
    """(target key, type key, field, value, effect) assigned to the result"""
    out = []

    def dic(v):
        v = strip_alloc(v)
        return [(v.a[i], v.a[i + 1]) for i in range(0, len(v.a), 2)] if v.op == "dict" else None

    for e in I.effects:
        if e.kind != "setitem":
            continue
        k = e.key
        if is_const(k) and isinstance(k.a[0], str):
            b = e.base
            ks = keysof(b)
            if ks is not None and len(ks) == 2:
                out.append((ks[0], ks[1], k.a[0], e.value, e))
            continue
        v = strip_alloc(e.value)
        if v.op == "comp" and v.a[0] == "dict" and v.a[1].op == "tuple":
            ks = keysof(e.base)
            d = dic(v.a[1].a[1])
            if ks == [] and d:
                for kk, vv in d:
                    if is_const(kk):
                        out.append((k, v.a[1].a[0], kk.a[0], vv, e))
            continue
        d = dic(e.value)
        if d:
            ks = keysof(e.base)
            if ks is not None and len(ks) == 1:
                for kk, vv in d:
                    if is_const(kk):
                        out.append((ks[0], k, kk.a[0], vv, e))
    r = I.ret
    if r is not None:
        for cs, x in ites(r):
            x = strip_alloc(x)
            if x.op == "comp" and x.a[0] == "dict" and x.a[1].op == "tuple":
                tk, tv = x.a[1].a
                tv = strip_alloc(tv)
                if tv.op == "comp" and tv.a[0] == "dict":
                    fk, fv = tv.a[1].a
                    d = dic(fv)
                    for kk, vv in d or []:
                        if is_const(kk):
                            out.append((tk, fk, kk.a[0], vv, None))
    return out


def keysof(b):
    """keys k1, k2 of result[k1][k2], seen through the stores that built it"""
    ks = []
    for _ in range(60):
        b = strip_alloc(b)
        if b.op == "store":
            if keysel(b):
                ks.append(b.a[1])
                return None
            b = b.a[0]
        elif b.op == "sub":
            ks.append(b.a[1])
            b = b.a[0]
        elif b.op in ("mu", "loop"):
            b = b.a[2] if b.op == "mu" else b.a[0]
        elif b.op == "dict":
            return list(reversed(ks))
        elif b.op == "call" and (fname(b.a[0]) or "") in ("builtins.dict", "collections.OrderedDict"):
            return list(reversed(ks))
        elif b.op == "comp" and b.a[0] == "dict":
            return list(reversed(ks))
        elif b.op == "ite":
            b = b.a[2] if strip_alloc(b.a[1]).op in ("const",) else b.a[1]
        else:
            return None
    return None


def keysel(b):
    return False


ORDER = ("builtins.sorted", "numpy.sort", "numpy.unique", "builtins.reversed", "numpy.flip")


def tkey(t):
    """(rows subscripts) when t is an element of the file's target list"""
    t = strip_str(t)
    d = dataset(t)
    if d is not None and d[0] == ["targetids"]:
        return d[1]
    if t.op == "sub":
        b = strip_alloc(t.a[0])
        if is_call(b, *ORDER) and cargs(b):
            d = dataset(cargs(b)[0])
            if d is not None and d[0] == ["targetids"]:
                return [b, t.a[1]]
    return None


def reader(ctx, q, tag):
    I = ctx.interp(q)
    ls = leaves(I)
    got = set()
    first = None
    ls2 = []
    for tk, fk, nme, v, e in ls:
        al = [x for conds, x in ites(strip_alloc(v))]
        # one value or another: each of them must be the right one
        ls2 += [(tk, fk, nme, x, e) for x in al] if len(al) > 1 and all(dataset(x) is not None for x in al) else [(tk, fk, nme, v, e)]
    for tk, fk, nme, v, e in ls2:
        at = e if e is not None else q
        if nme == "zfit":
            continue
        d = dataset(v)
        if d is None:
            x = dictlook(v)
            if x.op == "missing":
                ctx.ob("%s/%s/name" % (tag, nme), False, at, "%s is not among the values read" % show(x.a[0]))
                continue
            w = altered(x, dataset)
            if w:
                ctx.ob("%s/%s/unchanged" % (tag, nme), False, at, "%s is not returned as it was read: %s" % (nme, w[:60]))
                continue
            raise Undecided("value of %s: %s" % (nme, show(x)[:80]))
        path, subs = d
        first = first or at
        if len(path) != 3 or path[0] != "zscan":
            if len(path) == 3 and isinstance(path[0], str):
                ctx.ob("%s/%s/path" % (tag, nme), False, at, "%s is read from %s" % (nme, "/".join(x if isinstance(x, str) else "*" for x in path)))
                continue
            raise Undecided("path of " + nme)
        got.add(nme)
        if isinstance(path[2], str):
            ctx.ob("%s/%s/name" % (tag, nme), path[2] == nme, at, "%s is read from the dataset %s" % (nme, path[2]))
        f = strip(fk)
        if isinstance(path[1], str):
            ctx.ob("%s/%s/type" % (tag, nme), False, at, "%s of every type is read from %s" % (nme, path[1]))
        elif strip(path[1]) is f or deep(path[1]) is deep(f):
            ctx.ob("%s/%s/type" % (tag, nme), True, at, "")
        else:
            a = dataset(path[1])
            if a is not None and a[0] == ["zscan"] or contains(deep(path[1]), lambda x, f=deep(f): x is f):
                ctx.ob("%s/%s/type" % (tag, nme), False, at, "%s of %s is read from the group %s" % (nme, show(f)[-40:], show(path[1])[-40:]))
            else:
                raise Undecided("group of " + nme)
        if nme == "redshifts":
            if subs:
                ctx.ob("%s/redshifts/whole" % tag, False, at, "redshifts are subscripted by " + show(subs[0])[-40:])
            continue
        if path[2] == "redshifts":
            continue
        tr = tkey(tk)
        if tr is None:
            # key from the caller's selection: rows of the file cannot follow it
            raise Undecided("target key " + show(tk)[:60])
        if not subs:
            ctx.ob("%s/%s/row" % (tag, nme), False, at, "%s holds the values of all targets" % nme)
            continue
        ok = samechain(subs, tr)
        if not ok and not (simple(subs) and simple(tr)):
            raise Undecided("row of %s: %s, target %s" % (nme, show(subs[-1])[-60:], show(tr[-1])[-60:] if tr else ""))
        ctx.ob("%s/%s/row" % (tag, nme), ok, at, "%s of target %s comes from row %s" % (nme, "".join("[%s]" % show(x)[-50:] for x in chain(tr)), "".join("[%s]" % show(x)[-50:] for x in chain(subs))))
    if not got:
        raise Undecided("nothing is assigned to the result")
    miss = [f for f in FIELDS if f not in got]
    ctx.ob(tag + "/all", not miss, first, "not read back: " + ", ".join(miss))
    return I, ls


def simple(subs):
    return all(x.op == "idx" or is_const(x) or x.op in ("ite", "cmp", "slice") or is_call(x, *(ORDER + ("numpy.isin", "numpy.in1d", "numpy.where", "numpy.arange", "numpy.argsort", "numpy.searchsorted"))) for x in chain(subs))


def r_read(ctx):
    I, ls = reader(ctx, RZ, "read")
    # selection keeps the rows whose target is asked for
    sel = mk("param", RZ, "select_targetids")
    n = 0
    for e in I.effects:
        if e.kind == "call" and is_call(e.result, "numpy.searchsorted") and len(cargs(e.result)) > 1 and ckw(e.result, "sorter", 3) is None:
            d = dataset(cargs(e.result)[0])
            if d is not None and d[0] == ["targetids"] and not d[1] and contains(cargs(e.result)[1], lambda x: x is sel):
                ctx.ob("read/select-sorted", False, e, "targets are looked up by bisection, but the targets of a file are in no order")
        if e.kind == "call" and (fname(e.fn) or "") in ("numpy.isin", "numpy.in1d"):
            a = cargs(e.result)
            d = dataset(a[0])
            if d is None:
                d2 = dataset(a[1])
                if d2 is not None and d2[0] == ["targetids"]:
                    ctx.ob("read/select", False, e, "the selection has the rows of the argument, not of the file")
                continue
            n += 1
            ctx.ob("read/select", d[0] == ["targetids"] and not d[1], e, "the selection runs over " + show(a[0])[-40:])
            inv = ckw(e.result, "invert")
            if inv is not None and is_const(inv):
                ctx.ob("read/select-not", not inv.a[0], e, "the selection is inverted")


def r_reuse(ctx):
    reader(ctx, RR, "reuse")


def r_readfit(ctx):
    I = ctx.interp(RF)
    sel = mk("param", RF, "select_targetids")
    n = 0
    for t in list(I_terms(I)):
        if t.op != "comp" or t.a[0] != "list":
            continue
        d = dataset(t.a[1])
        if d is None or not d[0] or d[0][0] != "zfit":
            continue
        n += 1
        p = d[0]
        if len(p) != 3:
            raise Undecided("path of the fit tables")
        k = strip_str(p[1]) if not isinstance(p[1], str) else None
        it = t.a[3].a[0]
        ctx.ob("readfit/target", k is not None and k.op == "sub" and k.a[1].op == "idx", RF, "the table of target %s is read for every target" % (p[1] if k is None else show(k)[-40:]))
        ctx.ob("readfit/name", p[2] == "zfit", RF, "the table is read from %s" % (p[2],))
        ctx.ob("readfit/rows", not [x for x in d[1]], RF, "only rows %s of a table are read" % (show(d[1][0])[-40:] if d[1] else ""))
        if t.a[2] is not TRUE:
            raise Undecided("condition on the tables read")
        for cs, x in ites(it):
            x = strip(x)
            if x is sel or x.op in ("list", "tuple") and len(x.a) == 1 and strip(x.a[0]) is sel:
                continue
            dd = dataset(x)
            if dd is not None and dd[0] == ["targetids"]:
                ctx.ob("readfit/default", not dd[1], RF, "without a selection only %s of the targets are read" % (show(dd[1][0]) if dd[1] else ""))
    if not n:
        raise Undecided("how fit tables are read")
    for e in I.effects:
        if e.kind == "call" and e.meth == "rename_column" and len(e.args) == 2:
            a, b = e.args
            b = strip_alloc(b)
            if b.op == "call" and b.a[0].op == "attr" and b.a[0].a[1] in ("upper", "lower"):
                ctx.ob("readfit/upper", b.a[0].a[1] == "upper" and strip(b.a[0].a[0]) is strip(a), e, "%s is renamed to %s" % (show(a)[-30:], show(b)[-30:]))
                g = [x for x in flat_guards(e) if x is mk("param", RF, "upper") or x.op == "not" and x.a[0] is mk("param", RF, "upper")]
                if g:
                    ctx.ob("readfit/upper-when", g[0].op != "not", e, "columns are renamed when upper is not set")


def I_terms(I):
    seen = set()
    st = [e.result for e in I.effects if e.kind == "call" and e.result is not None] + ([I.ret] if I.ret is not None else [])
    st += [x for e in I.effects if e.kind == "call" for x in e.args]
    while st:
        t = st.pop()
        for x in subterms(t):
            if x.id not in seen:
                seen.add(x.id)
                yield x


def r_attach(ctx):
    """fit tables are attached to the target and type they belong to"""
    I = ctx.interp(RZ, stop_extra=(RF,))
    up = mk("param", RZ, "upper")
    for e in I.effects:
        if e.kind == "call" and (fname(e.fn) or "") == RF:
            b = e.d.get("bound") or {}
            u = b.get("upper")
            ctx.ob("attach/upper", u is up, e, "upper is %s when the fits are read" % (show(u) if u is not None else "not set"))
            s = b.get("select_targetids")
            if s is None or s is NONE:
                ctx.ob("attach/select", False, e, "the selection is not applied to the fits")
            else:
                if contains(s, lambda x: x is mk("param", RZ, "select_targetids")):
                    ctx.ob("attach/select", True, e, "")
    n = 0
    for tk, fk, nme, v, e in leaves(I):
        if nme != "zfit":
            continue
        n += 1
        if e is not None and getattr(e, "base", None) is not None and e.kind == "setitem" and e.key is not NONE and is_const(e.key, "zfit"):
            guarded_key(ctx, e, fk)
        g = strip(v)
        t = strip(tk)
        t = t.a[0] if t.op == "sub" and is_const(t.a[1], 0) else t
        if not (t.op == "sub" and strip(t.a[0]) is g):
            if t.op == "sub" and t.a[1].op == "idx" and tkey(tk) is not None:
                ctx.ob("attach/target", False, e, "groups of fits are attached to the targets of the file in order")
                continue
            raise Undecided("target of a group of fits: " + show(tk)[:60])
        for u in (True, False):
            for pca in (True, False):
                env = lambda x: settle(x, up, u, pca)
                col = env(t.a[1])
                want = "TARGETID" if u else "targetid"
                if is_const(col):
                    ctx.ob("attach/target", col.a[0] == want, e, "the target of a group is its %s (upper=%s)" % (col.a[0], u))
                f = strip(fk)
                if is_call(f, "redrock.templates.make_fulltype"):
                    b = [ckw(f, "spectype", 0), ckw(f, "subtype", 1)]
                    names = []
                    for x in b:
                        x = strip(env(x))
                        x = x.a[0] if x.op == "sub" and is_const(x.a[1], 0) else x
                        names.append(x.a[1].a[0] if x.op == "sub" and is_const(x.a[1]) and strip(x.a[0]) is strip(env(g)) else None)
                    if None in names:
                        raise Undecided("type of a group of fits")
                    pre = "PCA_" if pca else ""
                    w = [pre + "SPECTYPE", pre + "SUBTYPE"]
                    if not u:
                        w = [x.lower() for x in w]
                    ctx.ob("attach/type", names == w, e, "the type of a group is made of %s and %s (upper=%s%s)" % (names[0], names[1], u, ", archetypes" if pca else ""))
                    gb = [y for y in subterms(env(g)) if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "group_by"]
                    if gb:
                        k = strip_alloc(cargs(gb[0])[0])
                        ks = [x.a[0] for x in k.a if is_const(x)] if k.op in ("tuple", "list") else [k.a[0]] if is_const(k) else None
                        if ks is not None and len(ks) == (len(k.a) if k.op in ("tuple", "list") else 1):
                            ctx.ob("attach/groups", set(ks) >= {want} | set(w), e, "fits are grouped by %s (upper=%s)" % (", ".join(ks), u))
    if not n:
        if any(is_const(x, "zfit") for e in I.effects if e.kind in ("setitem", "call") for x in ([e.key] if e.kind == "setitem" else cargs(e.term) if getattr(e, "term", None) is not None else [])):
            raise Undecided("how the fits are attached")
        ctx.ob("attach/stored", False, RZ, "the fits are not attached to the scan results")


def guarded_key(ctx, e, fk):
    """targets without data are filled as GALAXY, which is not necessarily
    one of the scanned types: their entry may not exist"""
    b = strip(e.base)
    own = b.op == "sub" and strip(b.a[1]) is strip(fk)
    if not own:
        return

    def absent(x):
        """the condition says that the type is one of those scanned"""
        return x.op == "cmp" and x.a[0] in ("in",) and strip(x.a[1]) is strip(fk)

    ok = False
    for g, k in e.guards:
        for x in subterms(g):
            if absent(x) or (x.op == "cmp" and x.a[0] == "not in" and strip(x.a[1]) is strip(fk)):
                ok = True
    if any("KeyError" in t or "Exception" in t or "LookupError" in t for _, ts, _ in e.trys for t in ts):
        ok = True
    if any(isinstance(x, ast.Attribute) and x.attr == "setdefault" for x in ast.walk(e.node)):
        ok = True
    if not ok and (e.trys or [g for g, k in e.guards if k == "if" and contains(g, lambda x: x.op in ("name", "idx", "call"))]):
        if any(not contains(g, lambda x: x is b) for g, k in e.guards) or e.trys:
            raise Undecided("whether the entry of the type exists")
    ctx.ob("attach/member", ok, e, "the fits of a target are attached to types that were not scanned (GALAXY rows of targets without data)")


def settle(t, up, u, pca):
    def f(x):
        if x.op == "ite":
            c = x.a[0]
            v = ev(c)
            if v is not None:
                return x.a[1] if v else x.a[2]
        return x

    def ev(c):
        if c is up:
            return u
        if is_const(c):
            return bool(c.a[0])
        if c.op == "not":
            v = ev(c.a[0])
            return None if v is None else not v
        if c.op in ("and", "or"):
            vs = [ev(x) for x in c.a]
            if None in vs:
                return None
            return all(vs) if c.op == "and" else any(vs)
        if c.op == "cmp" and c.a[0] in ("in", "not in"):
            k = strip(c.a[1])
            if is_const(k) and isinstance(k.a[0], str) and k.a[0].lower() in ("pca_spectype", "pca_subtype"):
                return pca == (c.a[0] == "in")
        return None
    return rewrite(t, f)


def r_feed(ctx):
    """a saved scan replaces the computed one, target by target"""
    q = "redrock.zfind.zfind"
    I = ctx.interp(q, stop_extra=(RR,))
    p = mk("param", q, "chi2_scan")
    n = 0
    for e in I.effects:
        if e.kind != "call" or (fname(e.fn) or "") != RR:
            continue
        n += 1
        a = (e.d.get("bound") or {}).get("filename")
        ctx.ob("feed/file", a is p or a is not None and contains(a, lambda x: x is p), e, "the scan is read from %s" % show(a)[:40])
        for g in flat_guards(e):
            if g.op == "cmp" and g.a[0] in ("is", "is not", "==", "!=") and any(x is p for x in g.a[1:]) and any(x is NONE for x in g.a[1:]):
                ctx.ob("feed/when", g.a[0] in ("is not", "!="), e, "the scan is read when none is given")
        r = e.result
        use = [t for t in I_terms2(I) if t.op == "comp" and t.a[0] == "dict" and contains(t.a[1], lambda x: x is r)]
        for t in use:
            kv = t.a[1]
            if kv.op != "tuple" or len(kv.a) != 2:
                continue
            v = strip(kv.a[1])
            if v.op == "sub" and strip(v.a[0]) is strip(r):
                ctx.ob("feed/target", strip(v.a[1]) is strip(kv.a[0]), e, "the scan of target %s is filed under %s" % (show(v.a[1])[-40:], show(kv.a[0])[-40:]))
            if t.a[2] is not TRUE:
                raise Undecided("only some targets are kept")
    if not n:
        ctx.ob("feed/used", False, q, "a saved scan is not read")


def I_terms2(I):
    seen = set()
    st = [x for e in I.effects for x in (e.d.get("base"), e.d.get("value"), e.d.get("result")) if x is not None and hasattr(x, "op")]
    st += [l.a[0] for e in I.effects for l in e.loops]
    for t in st:
        for x in subterms(t):
            if x.id not in seen:
                seen.add(x.id)
                yield x


def r_callers(ctx):
    for q in ("redrock.external.desi.rrdesi", "redrock.external.boss.rrboss"):
        I = ctx.interp(q, stop_extra=(WR,))
        nm = q.rsplit(".", 1)[-1]
        for e in I.effects:
            if e.kind == "call" and (fname(e.fn) or "") == WR:
                b = e.d.get("bound") or {}
                for pn, i in (("zscan", 0), ("zfit", 1)):
                    v = b.get(pn)
                    hit = None
                    for cs, x in ites(v) if v is not None else []:
                        x = strip(x)
                        if x.op == "sub" and is_call(strip(x.a[0]), "redrock.zfind.zfind") and is_const(x.a[1]):
                            hit = x.a[1].a[0]
                            ctx.ob("callers/%s/%s" % (nm, pn), hit == i, e, "%s is result %s of zfind" % (pn, hit))


def run(ctx):
    ctx.rule("targets", "the target list holds every target once", r_targets)
    ctx.rule("scan", "every scan dataset holds the field of its name, of its group's type, one row per listed target in that order", r_scan)
    ctx.rule("fits", "the fit table of a target holds exactly its rows", r_fits)
    ctx.rule("columns", "fit columns keep their kind and enough width, and the caller's table is not changed", r_columns)
    ctx.rule("text", "text columns encoded by the writer are exactly those decoded by the reader", r_text)
    ctx.rule("decode", "decoding a text column gives text of full length", r_decode)
    ctx.rule("read", "read_zscan gives every target the rows of the file that belong to it", r_read)
    ctx.rule("readfit", "read_zfit reads the whole table of each target asked for", r_readfit)
    ctx.rule("attach", "fits are attached to the target and template type of their group", r_attach)
    ctx.rule("reuse", "read_zscan_redrock gives every target the rows of the file that belong to it", r_reuse)
    ctx.rule("feed", "a saved scan fed back is filed under the target it was saved for", r_feed)
    ctx.rule("callers", "the programs store the scan and fits returned by zfind", r_callers)
