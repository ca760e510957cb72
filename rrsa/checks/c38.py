"""C38: the batch launcher runs every unfinished spectra file exactly once."""
from ..q import *
from ..arith import canon
from ..logic import *
from ..terms import rewrite, mkcmp, mkand, mkor
from ..ctx import Undecided, Stop
from .c31 import realguards

W = "bin.wrap-redrock."
CAST = ("numpy.asarray", "numpy.array", "builtins.list", "builtins.int", "builtins.tuple")


def un(t):
    while True:
        t = strip_alloc(t)
        if t.op == "call" and fname(t.a[0]) in CAST and cargs(t):
            t = cargs(t)[0]
        elif t.op == "idx" and False:
            pass
        else:
            return t


def P(f, n):
    return mk("param", W + f, n)


def permutation(t, w):
    """t lists every index of w once"""
    t = un(t)
    if t.op == "sub" and t.a[1].op == "slice":
        s = t.a[1]
        if all(x is NONE for x in s.a[:2]) and is_const(s.a[2], -1, 1):
            return permutation(t.a[0], w)
        return False
    if t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] == "argsort":
        b = un(t.a[0].a[0])
        return permutation_of(b, w)
    if is_call(t, "numpy.argsort") and cargs(t):
        return permutation_of(un(cargs(t)[0]), w)
    if is_call(t, "builtins.sorted", "builtins.reversed", "numpy.flip", "numpy.flipud") and cargs(t):
        return permutation(cargs(t)[0], w)
    if t.op == "range" or is_call(t, "builtins.range", "numpy.arange"):
        a = rargs(t) if t.op == "range" else cargs(t)
        if len(a) > 1 and not is_const(a[0], 0):
            return False
        n = a[-1] if len(a) <= 2 else None
        if n is None:
            return None
        n = un(n)
        if is_call(n, "builtins.len") and un(cargs(n)[0]) is w or n.op == "attr" and n.a[1] == "size" and un(n.a[0]) is w:
            return True
        return False if is_const(n) or n.op == "bin" else None
    return None


def permutation_of(b, w):
    while b.op in ("un", "bin"):
        ks = [x for x in b.a if isinstance(x, T) and contains(x, lambda y: y is w)]
        if len(ks) != 1:
            return None
        b = un(ks[0])
    if b is w:
        return True
    if b.op == "sub" and contains(b, lambda y: y is w):
        return False
    return None


def r_partition(ctx):
    f = "weighted_partition"
    I = ctx.interp(W + f)
    w, n = P(f, "weights"), P(f, "n")
    apps = [e for e in I.effects if e.kind == "append" and un(e.value).op not in ("list", "dict")]
    if not apps:
        raise Undecided("groups are not filled with append")
    fills = []
    for e in apps:
        v = un(e.value)
        it = None
        if v.op == "sub" and v.a[1].op == "idx":
            it = v.a[0]
        elif v.op == "idx":
            it = v.a[0]
        if it is None:
            raise Undecided("element appended: " + show(v)[:60])
        r = permutation(it, w)
        if r is None:
            raise Undecided("order of assignment: " + show(it)[:60])
        ctx.ob("partition/all", r, e, "not every index is assigned: " + show(it)[:60])
        gs = [g for g in realguards(e)]
        fills.append((e, mkand(*gs)))
    for e, g in fills:
        others = mkor(*[x for y, x in fills if y is not e]) if len(fills) > 1 else FALSE
    tot = mkor(*[g for e, g in fills])
    ctx.ob("partition/always", b_taut(tot), fills[0][0], "an index is assigned only if " + show(tot)[:60])
    for i, (e, g) in enumerate(fills):
        for e2, g2 in fills[i + 1:]:
            ctx.ob("partition/once", b_implies(mkand(g, g2), FALSE), e2, "an index is assigned twice")
    # the groups are distinct lists
    for x in {y.id: y for e in apps for y in subterms(e.base)}.values():
        if x.op == "bin" and x.a[0] == "*" and any(un(y).op == "list" and un(y).a and un(un(y).a[0]).op == "list" for y in x.a[1:]):
            ctx.ob("partition/distinct", False, apps[0], "all groups are the same list")
    # returned: (groups, sums)
    r = I.ret
    if r is not None and un(r).op == "tuple":
        g = un(un(r).a[0])
        s = un(un(r).a[1])
        if g.op == "comp":
            ctx.ob("partition/none-left-out", g.a[2] is TRUE, W + f, "groups are left out of what is returned: " + show(g)[:80])
        ctx.ob("partition/returned", contains(g, lambda x: x.op == "app") or g.op in ("loop", "mu"), W + f, "the groups are not returned")
        ctx.ob("partition/order", not (contains(s, lambda x: x.op == "store") and not contains(s, lambda x: x.op == "comp") and not contains(g, lambda x: x.op == "app")), W + f, "the weights are returned as groups")


def exists_of(x):
    """(output prefix, ext, index) when x is exists(output file [index])"""
    if x.op != "call" or not fname(x.a[0]).endswith(("path.exists", "path.isfile")):
        return None
    v = un(cargs(x)[0])
    if v.op == "sub":
        b = un(v.a[0])
        for cs, y in ites(b):
            y = un(y)
            if y.op == "call" and fname(y.a[0]).endswith("spectra2outfiles"):
                p, e = ckw(y, "outprefix"), ckw(y, "ext", None, NONE)
                if is_const(p):
                    return (p.a[0], e.a[0] if is_const(e) else None, v.a[1])
    return None


def r_todo(ctx):
    f = "find_specfiles"
    I = ctx.interp(W + f)
    # which files
    apps = [e for e in I.effects if e.kind == "append"]
    n = 0
    for e in apps:
        v = un(e.value)
        if not (v.op == "call" and fname(v.a[0]).endswith("path.join")):
            continue
        a = [un(x) for x in cargs(v)]
        if len(a) != 2 or not contains(v, lambda x: is_call(x, "os.walk")):
            continue
        n += 1
        walk = lambda x: [y for y in subterms(x) if y.op == "sub" and is_const(y.a[1], 0, 1, 2) and y.a[0].op == "sub" and is_call(un(y.a[0].a[0]), "os.walk")]
        d, fn = walk(a[0]), walk(a[1])
        ctx.ob("found/path", bool(d) and bool(fn) and {y.a[1].a[0] for y in d} == {0} and 2 in {y.a[1].a[0] for y in fn}, e, "the path of a file is not its directory joined with its name")
        ctx.ob("found/same", {y.a[0].id for y in d} == {y.a[0].id for y in fn}, e, "directory and file name come from different places")
        for g in realguards(e):
            for y in (g.a if g.op == "and" else [g]):
                neg = y.op == "not"
                z = y.a[0] if neg else y
                if z.op == "call" and z.a[0].op == "attr" and z.a[0].a[1] in ("startswith", "endswith"):
                    what = cargs(z)[0]
                    if z.a[0].a[1] == "startswith":
                        ctx.ob("found/prefix", not neg and un(what) is P(f, "prefix"), e, "files are taken %sif they start with %s" % ("un" if neg else "", show(what)))
                    else:
                        ctx.ob("found/extension", not neg and is_const(what, ".fits"), e, "files are taken if they end with " + show(what))
    if not n:
        ctx.undecided.append((ctx.cur, "files found"))
    # a directory is pruned only if it is the one to avoid
    av = P(f, "avoiddir")
    for e in I.effects:
        if e.kind == "call" and e.meth in ("pop", "clear", "remove") and any(is_call(x, "os.walk") for x in subterms(e.result)) or e.kind in ("setitem", "delitem") and isinstance(e.base, T) and (e.kind == "delitem" or e.key.op == "slice") and contains(e.base, lambda x: is_call(x, "os.walk")):
            flat_ = [y for g in realguards(e) for y in (g.a if g.op == "and" else [g])]
            about = [y for y in flat_ if contains(y, lambda x: x is av) and y.op in ("cmp", "not") and not contains(y, lambda x: x is NONE) or y.op in ("cmp", "not") and contains(y, lambda x: x is av) and contains(y, lambda x: is_call(x, "os.walk"))]
            if about:
                ctx.ob("found/avoid", all(y.op == "cmp" and y.a[0] in ("==", "in") for y in about), e, "directories other than the one to avoid are not searched: " + show(about[0])[-60:])
            elif not flat_:
                ctx.ob("found/avoid", False, e, "directories are not searched")
            else:
                ctx.undecided.append((ctx.cur, "directory to avoid"))
    # which are still to be done
    r = un(I.ret)
    if r.op != "sub":
        raise Undecided("files returned")
    todo = r.a[1]
    bs = un(r.a[0])
    ctx.ob("todo/same-order", not is_call(bs, "numpy.unique", "numpy.sort", "builtins.sorted", "builtins.reversed", "numpy.flip", "builtins.set"), W + f, "the files selected are in another order than the flags: " + show(bs)[:40])
    sets = [e for e in effs(I, "setitem") if contains(todo, lambda x: x.op == "store" and x.a[2] is e.value and x.a[1] is e.key)]
    if not sets or any(x.key is not sets[0].key for x in sets):
        raise Undecided("selection of unfinished files")
    e = sets[0]
    base = [x for x in subterms(todo) if is_call(x, "numpy.ones", "numpy.zeros", "numpy.full")]
    if len({b.id for b in base}) != 1:
        raise Undecided("initial selection")
    b = base[0]
    init = TRUE if is_call(b, "numpy.ones") else FALSE if is_call(b, "numpy.zeros") else cargs(b)[1]
    got = init
    for x in sets:
        g = mkand(*realguards(x))
        got = mkor(mkand(g, strip(x.value)), mkand(mknot(g), got))
    es = {}
    for x in subterms(mk("tuple", got)):
        k = exists_of(x)
        if k:
            es[k[:2]] = x
            ctx.ob("todo/own", k[2] is e.key, e, "file %s is judged by the outputs of file %s" % (show(e.key)[:30], show(k[2])[:30]))
    names = set(es)
    ctx.ob("todo/outputs", names == {("redrock", None), ("rrdetails", "h5")}, e, "a file counts as finished when %s exist" % sorted(map(str, names)))
    if len(es) == 2:
        both = mkand(*es.values())
        ctx.ob("todo/finished", b_equiv(got, mknot(both)), e, "a file is left out although not all of its outputs exist, or kept although they do")
    # judged by the files that will be written
    J = ctx.interp(W + "run_redrock")
    args = P("run_redrock", "args")

    def outs(K, fun):
        out = {}
        for c in calls(K, "spectra2outfiles"):
            t = c.result.a[1] if c.result.op == "alloc" else c.result
            k = ckw(t, "outprefix")
            if k is None or not is_const(k):
                raise Undecided("output prefix")
            e_ = ckw(t, "ext")
            out[(k.a[0], e_.a[0] if e_ is not None and is_const(e_) else None)] = (c, t)
        return out
    A, B = outs(I, f), outs(J, "run_redrock")
    ctx.ob("todo/names", set(A) == set(B), W + "run_redrock", "outputs looked for: %s, written: %s" % (sorted(map(str, A)), sorted(map(str, B))))
    for k, (c, t) in list(A.items()) + list(B.items()):
        mine = (c, t) == A.get(k)
        for key in ("inprefix", "outdir"):
            v = un(ckw(t, key) or NONE)
            src = "prefix" if key == "inprefix" else "outdir"
            want = P(f, src) if mine else mk("attr", args, src)
            if v.op in ("param", "attr", "const"):
                ctx.ob("todo/%s/%s" % (k[0], key), v is want, c, "%s of the %s files is %s" % (key, k[0], show(v)))
    L = ctx.interp(W + "plan")
    pa = P("plan", "args")
    for c in calls(L, "find_specfiles"):
        t = c.result.a[1] if c.result.op == "alloc" else c.result
        for key, pos in (("reduxdir", 0), ("outdir", 1), ("prefix", 2)):
            v = ckw(t, key, pos)
            if v is not None and un(v).op in ("attr", "const", "param"):
                ctx.ob("todo/plan/" + key, un(v) is mk("attr", pa, key), c, "%s of the search is %s" % (key, show(v)))


def r_names(ctx):
    f = "spectra2outfiles"
    I = ctx.interp(W + f)
    sp, od = P(f, "specfiles"), P(f, "outdir")
    apps = [e for e in I.effects if e.kind == "append"]
    if not apps:
        raise Undecided("no list of outputs")
    for e in apps:
        for cs, v in ites(un(e.value)):
            v = un(v)
            if not (v.op == "call" and fname(v.a[0]).endswith("path.join") and len(cargs(v)) == 2):
                ctx.undecided.append((ctx.cur, "output name"))
                continue
            d, nme = [un(x) for x in cargs(v)]
            pre = [g for g, k in e.guards if k == "if"] + cs
            for cs2, d1 in ites(d):
                p2 = pre + cs2
                d1 = un(d1)
                given = implies(p2, mknot(mkcmp("is", od, NONE)))
                unset = implies(p2, mkcmp("is", od, NONE))
                own = d1.op == "sub" and is_const(d1.a[1], 0) and is_call(un(d1.a[0]), "os.path.split") or is_call(d1, "os.path.dirname")
                if d1 is od:
                    ctx.ob("names/outdir", not unset, e, "outputs are put in outdir although there is none")
                elif own:
                    ctx.ob("names/outdir", not given, e, "outputs are put beside the input although outdir is given")
                else:
                    ctx.undecided.append((ctx.cur, "directory"))
            # the name: that of the same input, without its directory
            subs = [x for x in subterms(v) if x.op == "sub" and un(x.a[0]) is sp or x.op == "idx" and un(x.a[0]) is sp]
            ids = {(x.a[1] if x.op == "sub" else x).id for x in subs}
            ctx.ob("names/own", len(ids) == 1, e, "the output name mixes several inputs")
            reps = [x for x in subterms(nme) if x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "replace"]
            for x in reps:
                b = un(x.a[0].a[0])
                for cs3, y in ites(b):
                    y = un(y)
                    while y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "replace":
                        y = un(y.a[0].a[0])
                    isname = y.op == "sub" and is_const(y.a[1], 1, -1) or is_call(y, "os.path.basename")
                    if any(is_call(z, "os.path.basename") and contains(z, lambda w: w is x) for z in subterms(nme)):
                        continue
                    if y.op == "sub" and y.a[1].op == "idx" or y.op == "idx":
                        ctx.ob("names/basename", False, e, "the prefix is replaced in the directory of the file too")
                    elif isname:
                        ctx.ob("names/basename", True, e)
                a = [un(z) for z in cargs(x)]
                if a and a[0] is P(f, "inprefix"):
                    ctx.ob("names/prefix", len(a) > 1 and a[1] is P(f, "outprefix"), e, "the input prefix becomes " + (show(a[1]) if len(a) > 1 else ""))
            ctx.ob("names/prefix", any(un(cargs(x)[0]) is P(f, "inprefix") for x in reps if cargs(x)) or not reps, e, "the input prefix is not replaced")
        if realguards(e):
            tot = mkor(*[mkand(*realguards(x)) for x in apps])
            ctx.ob("names/all", b_taut(tot), e, "some inputs get no output name")
    for i, e in enumerate(apps):
        for e2 in apps[i + 1:]:
            ctx.ob("names/once", b_implies(mkand(*(realguards(e) + realguards(e2))), FALSE), e2, "an input gets two output names")


def r_groups(ctx):
    f = "group_specfiles"
    I = ctx.interp(W + f)
    sp, comm = P(f, "specfiles"), P(f, "comm")
    st = effs(I, "setitem")
    for e in st:
        v = un(e.value)
        subs = [x for x in subterms(v) if x.op == "sub" and un(x.a[0]) is sp]
        for x in subs:
            j = un(x.a[1])
            # j is the element at the position stored to
            if j.op == "sub" and j.a[1].op == "idx":
                ctx.ob("groups/position", j.a[1] is e.key, e, "the number of targets of file %s is stored at %s" % (show(j)[-40:], show(e.key)[-40:]))
            elif j.op == "idx":
                ctx.ob("groups/position", contains(j, lambda y: y.op in ("slice",)) or j.a[0].op == "range" and len(j.a[0].a) == 1 and j is e.key, e, "the number of targets is stored at another position")
    gat = [e for e in I.effects if e.kind == "call" and e.meth in ("gather", "allgather")]
    spl = [x for e in st for x in subterms(e.value) if is_call(x, "numpy.array_split")]
    for x in {y.id: y for y in spl}.values():
        a = cargs(x)
        ctx.ob("groups/split", permutation(a[0], sp) is not False, st[0], "the files are not all looked at: " + show(a[0])[:60])
        if len(a) > 1:
            for cs, y in ites(un(a[1])):
                y = un(y)
                if y.op in ("attr", "param"):
                    ctx.ob("groups/parts", y.op == "attr" and y.a[1] in ("size", "Get_size"), st[0], "the files are split into %s parts" % show(y))
    if gat and st:
        strided = [x for e in st for x in subterms(e.value) if x.op == "slice" and not (x.a[2] is NONE or is_const(x.a[2], 1))]
        ctx.ob("groups/order", not strided, gat[0], "files are taken in steps, but put together in rank order")
    wp = calls(I, "weighted_partition")
    for e in wp:
        t = e.result.a[1] if e.result.op == "alloc" else e.result
        w, n = ckw(t, "weights", 0), ckw(t, "n", 1)
        for cs, y in ites(un(n)):
            y = un(y)
            on = implies(cs + [g for g, k in e.guards if k == "if"], mknot(mkcmp("is", comm, NONE)))
            if on:
                ctx.ob("groups/ranks", contains(y, lambda z: z.op == "attr" and z.a[1] in ("size", "Get_size")) or y.op not in ("attr", "call", "param"), e, "under MPI there are %s groups, not one per rank" % show(y)[:40])
        ctx.ob("groups/all", not (un(w).op == "sub" and un(w).a[1].op == "slice" and not all(x is NONE for x in un(w).a[1].a[:2])), e, "only some of the files are grouped: " + show(w)[-60:])
        bad = [x for x in subterms(w) if is_call(x, "numpy.sort", "builtins.sorted", "numpy.unique") and contains(x, lambda y: y.op in ("loop", "store", "comp"))]
        ctx.ob("groups/weights", not bad, e, "weights are not in the order of the files")


def planres(b):
    """which results of plan b may be"""
    out = set()
    for cs, y in ites(un(b)):
        y = un(y)
        if y.op == "call" and y.a[0].op == "attr" and y.a[0].a[1] == "bcast" and cargs(y):
            y = un(cargs(y)[0])
        if y.op == "ite":
            r = planres(y)
            if not r:
                return set()
            out |= r
        elif y.op == "sub" and is_const(y.a[1]) and un(y.a[0]).op == "call" and fname(un(y.a[0]).a[0]).endswith("plan"):
            out.add(y.a[1].a[0])
        else:
            return set()
    return out


def r_ends(ctx):
    """a run with nothing left to do ends normally"""
    L = ctx.interp(W + "plan")
    empty = False
    for cs, y in ites(un(L.ret)):
        y = un(y)
        if y.op == "tuple" and len(y.a) > 1 and un(y.a[1]).op == "list" and not un(y.a[1]).a or y.op == "tuple" and len(y.a) > 1 and is_call(un(y.a[1]), "builtins.list") and not cargs(un(y.a[1])):
            empty = True
    if not empty:
        raise Undecided("groups planned when nothing is left")
    I = ctx.interp(W + "run_redrock")
    hit = 0
    for e in I.effects:
        if e.kind == "assert":
            ts = [e.d.get("cond") or e.d.get("test")] if isinstance(e.d, dict) else []
            ts = [x for x in ts if isinstance(x, T)]
            lens = [x for t in ts for x in subterms(t) if is_call(x, "builtins.len") and planres(cargs(x)[0]) == {1}]
        elif e.kind == "call" and fname(e.fn) in ("numpy.concatenate", "numpy.hstack"):
            t = e.result.a[1] if e.result.op == "alloc" else e.result
            lens = [t] if cargs(t) and planres(cargs(t)[0]) == {1} else []
        else:
            continue
        if not lens:
            continue
        hit += 1
        g = [g for g, k in e.guards if g.op != "exc"]
        ns = [x for h in g for x in subterms(h) if is_call(x, "builtins.len") and planres(cargs(x)[0]) and planres(cargs(x)[0]) <= {0, 1}]
        r = any(implies(g, mkcmp("!=", mk("const", 0), n)) or implies(g, mkcmp("<", mk("const", 0), n)) for n in ns)
        truth = [n for h in g for n in ns if n is h or h.op == "and" and any(n is z for z in h.a)]
        truth += [x for h in g for x in subterms(h) if planres(x) and planres(x) <= {0, 1} and (h is x or h.op == "and" and any(x is z for z in h.a))]
        ctx.ob("ends/normally", r or bool(truth), e, "if all files are processed already, the run stops with an error here: plan returns no groups")
    if not hit:
        ctx.undecided.append((ctx.cur, "no use of the number of groups"))


NOTJOB = ("maxnodes", "dryrun", "plan", "nompi")


def r_job(ctx):
    """the batch job printed by --plan runs with the options that were planned with"""
    L = ctx.interp(W + "plan")
    pa = P("plan", "args")
    pr = []
    for e in L.effects:
        if e.kind == "call" and fname(e.fn) in ("builtins.print",):
            t = e.result.a[1] if e.result.op == "alloc" else e.result
            if contains(t, lambda x: is_const(x) and isinstance(x.a[0], str) and "--reduxdir" in x.a[0]):
                pr.append((e, t))
    if len(pr) != 1:
        raise Undecided("command of the batch job")
    e, t = pr[0]
    need = set()
    for K, pm in ((ctx.interp(W + "run_redrock"), P("run_redrock", "args")), (L, pa)):
        for x in K.effects:
            if x.kind == "call" and not fname(x.fn).startswith("builtins.print"):
                tt = x.result.a[1] if x.result.op == "alloc" else x.result
                need |= {y.a[1] for y in subterms(mk("tuple", *[z for z in tt.a if isinstance(z, T)])) if y.op == "attr" and y.a[0] is pm}
            need |= {y.a[1] for g, k in x.guards for y in subterms(g) if y.op == "attr" and y.a[0] is pm}
    need -= set(NOTJOB)
    text = {}
    for x in subterms(t):
        if x.op == "fstr":
            for i, y in enumerate(x.a):
                if is_const(y) and isinstance(y.a[0], str):
                    w = y.a[0].split()
                    for j, z in enumerate(w):
                        if z.startswith("--"):
                            val = x.a[i + 1] if j == len(w) - 1 and i + 1 < len(x.a) else None
                            text.setdefault(z[2:].split("=")[0], []).append(val)
    for n in sorted(need):
        ctx.ob("job/option/" + n, n in text or contains(t, lambda x: x.op not in ("fstr", "fmt", "ite", "const", "attr", "call", "param", "cmp", "not", "bin", "tuple", "undefname", "and", "or", "func", "mod", "kw", "builtin", "ext", "global")), e, "the batch job is run without --%s" % n)
        for v in text.get(n, []):
            if v is None:
                continue
            at = {y.a[1] for cs, z in ites(un(v.a[0] if v.op == "fmt" else v)) for y in subterms(z) if y.op == "attr" and y.a[0] is pa}
            for cs, z in ites(un(v.a[0] if v.op == "fmt" else v)):
                own = mk("attr", pa, n)
                if not contains(z, lambda x: x is own) and not contains(mk("tuple", *cs), lambda x: x is own):
                    ctx.ob("job/value/" + n, False, e, "--%s of the batch job may be %s, whatever was asked for" % (n, show(z)[:40]))
            if at:
                ctx.ob("job/value/" + n, n in at, e, "--%s of the batch job is args.%s" % (n, ", ".join(sorted(at))))


def r_plan(ctx):
    """without weights, the files are split into groups of positions that cover all of them"""
    L = ctx.interp(W + "plan")
    n = 0
    seen = {}
    for cs, y in ites(un(L.ret)):
        y = un(y)
        if y.op == "tuple" and len(y.a) >= 2:
            seen[y.id] = y
    for y in seen.values():
        sp = un(y.a[0])
        for cs, g in ites(un(y.a[1])):
            g = un(g)
            if is_call(g, "numpy.array_split") and cargs(g):
                n += 1
                a = un(cargs(g)[0])
                alts = [un(z) for cs2, z in ites(sp)] + [sp]
                rs = [permutation(a, z) for z in alts]
                if any(rs):
                    ctx.ob("plan/all", True, W + "plan")
                elif a.op == "range" or is_call(a, "builtins.range", "numpy.arange"):
                    k = (rargs(a) if a.op == "range" else cargs(a))
                    k = un(k[-1])
                    inner = [x for x in subterms(k) if is_call(x, "builtins.len")]
                    if k.op == "bin" or len(cargs(a) if a.op != "range" else rargs(a)) > 1:
                        ctx.ob("plan/all", False, W + "plan", "the groups do not cover all files: " + show(k)[:60])
                    else:
                        ctx.undecided.append((ctx.cur, "split of " + show(a)[:60]))
                else:
                    ctx.undecided.append((ctx.cur, "split of " + show(a)[:60]))
            elif g.op == "sub" and is_const(g.a[1]) and un(g.a[0]).op == "call" and fname(un(g.a[0]).a[0]).endswith("group_specfiles"):
                n += 1
                ctx.ob("plan/groups", is_const(g.a[1], 0), W + "plan", "the groups are result %s of group_specfiles" % show(g.a[1]))
    if not n:
        raise Undecided("groups of the plan")


def r_run(ctx):
    f = "run_redrock"
    I = ctx.interp(W + f)
    args = P(f, "args")
    runs = [e for e in I.effects if e.kind == "call" and fname(e.fn) in ("subprocess.call", "subprocess.run", "subprocess.check_call", "subprocess.Popen", "os.system")]
    if not runs:
        raise Undecided("no program is started")

    def groups_elem(x):
        """x is an element of one of the groups; returns that group"""
        x = un(x)
        if x.op == "sub" and x.a[1].op == "idx":
            b = un(x.a[0])
            return b if b.op == "sub" and planres(b.a[0]) else None
        return None
    for e in runs:
        t = e.result.a[1] if e.result.op == "alloc" else e.result
        cmd = cargs(t)[0]
        # every file of the command and the log belongs to the same element of this rank's group
        ix = {}
        for x in subterms(mk("tuple", cmd, *[y for y in t.a[1:] if isinstance(y, T)])):
            if x.op == "sub":
                b = un(x.a[0])
                if b.op == "call" and fname(b.a[0]).endswith("spectra2outfiles") or planres(b) == {0}:
                    ix[un(x.a[1]).id] = un(x.a[1])
        files = [x for x in ix.values() if groups_elem(x) is not None]
        oth = [x for x in ix.values() if groups_elem(x) is None]
        if not files and not oth:
            ctx.undecided.append((ctx.cur, "files of the command"))
        elif oth and not all(x.op == "idx" or is_const(x) or x.op in ("attr", "ite", "param") or x.op == "bin" for x in oth):
            ctx.undecided.append((ctx.cur, "index of the file"))
        else:
            ctx.ob("run/own", len(files) == 1 and not oth, e, "the files of the command are not those of one entry of this rank's group: " + ", ".join(show(x)[-40:] for x in files + oth))
        for x in files:
            g = groups_elem(x)
            k = g.a[1]
            ok = []
            for cs, y in ites(un(k)):
                y = un(y)
                alone = implies(cs + [g for g, k in e.guards if g.op != "exc"], mkcmp("is", P(f, "comm"), NONE))
                ok.append(y.op == "attr" and y.a[1] == "rank" or is_const(y, 0) and alone)
            ctx.ob("run/rank", all(ok), e, "this rank runs the group %s" % show(k)[:40])
            ctx.ob("run/groups", planres(g.a[0]) == {1}, e, "the groups are result %s of plan" % sorted(planres(g.a[0])))
        # dry run
        dry = mk("attr", args, "dryrun")
        r = sat([g for g, k in e.guards if g.op != "exc"] + [dry])
        ctx.ob("run/dry", r is False, e, "a dry run starts programs")
        # nothing but dryrun keeps a file from being run
        for g, k in e.guards:
            if k == "raise" or g.op == "exc":
                continue
            for y in (g.a if g.op == "and" else [g]):
                z = y.a[0] if y.op == "not" else y
                if z is dry or contains(z, lambda w: w.op == "exc") or contains(z, lambda w: w.op == "call" and fname(w.a[0]).startswith("subprocess")):
                    continue
                if contains(z, lambda w: w.op == "call" and fname(w.a[0]).endswith(("exists",))) or contains(z, lambda w: w.op == "attr" and w.a[0] is args):
                    ctx.undecided.append((ctx.cur, "run only if " + show(y)[:60]))
    # rename / backup in a dry run
    for e in I.effects:
        if e.kind == "call" and fname(e.fn).endswith(("backup_logs", "os.rename", "os.remove", "os.replace")):
            r = sat([g for g, k in e.guards if g.op != "exc"] + [mk("attr", args, "dryrun")])
            ctx.ob("run/dry-files", r is False, e, "a dry run moves files")


def r_failures(ctx):
    """an error of one file is caught within the loop over files, and retried only while it fails"""
    import ast
    fi = ctx.prog.func(W + "run_redrock")
    node = getattr(fi, "node", fi)
    par = {}
    for n in ast.walk(node):
        for c in ast.iter_child_nodes(n):
            par[id(c)] = n
    hits = []
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == "subprocess":
            hits.append(n)
    if not hits:
        raise Undecided("no program is started here")
    for h in hits:
        chain_, x = [], h
        while id(x) in par:
            p = par[id(x)]
            if isinstance(p, (ast.For, ast.While)):
                chain_.append(("loop", p))
            if isinstance(p, ast.Try) and any(x is s for s in p.body):
                chain_.append(("try", p))
            x = p
        loops = [p for k, p in chain_ if k == "loop"]
        outer = [p for p in loops if isinstance(p, ast.For) and any(isinstance(y, ast.Name) and y.id == "groups" for y in ast.walk(p.iter))] or loops[-1:]
        if not outer:
            raise Undecided("loop over files")
        o = outer[0]
        tries = [p for k, p in chain_ if k == "try" and any(p is y for y in ast.walk(o))]
        caught = False
        for t in tries:
            for hd in t.handlers:
                broad = hd.type is None or isinstance(hd.type, ast.Name) and hd.type.id in ("Exception", "BaseException")
                leaves_ = any(isinstance(y, (ast.Raise, ast.Return)) for s in hd.body for y in ast.walk(s)) or \
                    any(isinstance(y, ast.Break) for s in hd.body for y in ast.walk(s)) and not any(isinstance(y, (ast.For, ast.While)) and any(t is z for z in ast.walk(y)) and y is not o and any(y is w for w in ast.walk(o)) for y in ast.walk(node)) or \
                    any(isinstance(y, ast.Call) and ast.unparse(y.func) in ("sys.exit", "exit", "os._exit", "comm.Abort") for s in hd.body for y in ast.walk(s))
                if broad and not leaves_:
                    caught = True
        ctx.ob("failure/caught", caught, "bin/wrap-redrock:%d" % h.lineno, "an error with one file ends the rank: its other files are not run")
        # a retry loop is left after success, and only then
        inner = [p for p in loops if p is not o]
        for lp in inner:
            brs = []
            for y in ast.walk(lp):
                if isinstance(y, ast.Break):
                    z, conds = y, []
                    while z is not lp:
                        p_ = par[id(z)]
                        if isinstance(p_, ast.If):
                            conds.append((p_.test, any(z is w for w in p_.body)))
                        if isinstance(p_, (ast.For, ast.While)) and p_ is not lp:
                            conds = None
                            break
                        z = p_
                    if conds is not None:
                        brs.append((y, conds))
            var = None
            st = h
            while id(st) in par and not isinstance(st, ast.stmt):
                st = par[id(st)]
            if isinstance(st, ast.Assign) and isinstance(st.targets[0], ast.Name):
                var = st.targets[0].id

            def success(t, pos):
                """t (or its negation) says that the program succeeded; None: not about it"""
                if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
                    return success(t.operand, not pos)
                if isinstance(t, ast.Name) and t.id == var:
                    return not pos
                if isinstance(t, ast.Compare) and len(t.ops) == 1:
                    a_, b_ = t.left, t.comparators[0]
                    if any(isinstance(w, ast.Name) and w.id == var for w in ast.walk(t)) and any(isinstance(w, ast.Constant) and w.value == 0 for w in (a_, b_)):
                        if isinstance(t.ops[0], ast.Eq):
                            return pos
                        if isinstance(t.ops[0], (ast.NotEq, ast.Gt, ast.Lt)):
                            return not pos
                return None
            if var and isinstance(lp, ast.For):
                ok = [any(success(t, p_) is True for t, p_ in cs_) for y, cs_ in brs]
                wrong = [any(success(t, p_) is False for t, p_ in cs_) for y, cs_ in brs]
                other = [y for (y, cs_), a1, b1 in zip(brs, ok, wrong) if not a1 and not b1]
                if not brs:
                    ctx.ob("retry/once", False, "bin/wrap-redrock:%d" % lp.lineno, "a file that succeeded is run again")
                elif not other:
                    ctx.ob("retry/once", any(ok), "bin/wrap-redrock:%d" % brs[0][0].lineno, "a file that succeeded is run again")
                else:
                    ctx.undecided.append((ctx.cur, "end of the retries"))
        # no way out of the loop over the files
        for y in ast.walk(o):
            if isinstance(y, ast.Call) and ast.unparse(y.func) in ("sys.exit", "exit", "quit", "os._exit", "comm.Abort", "os.abort") or isinstance(y, ast.Raise) and isinstance(y.exc, (ast.Name, ast.Call)) and "SystemExit" in ast.unparse(y.exc):
                ctx.ob("failure/exit", False, "bin/wrap-redrock:%d" % y.lineno, "the rank ends before all of its files are run")
            if isinstance(y, ast.Return):
                ctx.ob("failure/return", False, "bin/wrap-redrock:%d" % y.lineno, "the rank returns before all of its files are run")
            if isinstance(y, ast.Break):
                z = par[id(y)]
                while not isinstance(z, (ast.For, ast.While)):
                    z = par[id(z)]
                if z is o:
                    ctx.ob("failure/break", False, "bin/wrap-redrock:%d" % y.lineno, "the loop over the files of this rank is left early")


def r_backup(ctx):
    f = "backup_logs"
    I = ctx.interp(W + f)
    mv = [e for e in I.effects if e.kind == "call" and fname(e.fn) in ("os.rename", "os.replace", "shutil.move")]
    if not mv:
        raise Undecided("old logs are not renamed")
    for e in mv:
        t = e.result.a[1] if e.result.op == "alloc" else e.result
        a = [un(x) for x in cargs(t)]
        ctx.ob("backup/source", a[0] is P(f, "logfile"), e, "%s is moved away instead of the log" % show(a[0])[:40])
        ex = [x for g, k in e.guards for x in subterms(g) if x.op == "call" and fname(x.a[0]).endswith("path.exists") and un(cargs(x)[0]) is a[1]]
        if ex:
            r = implies([g for g, k in e.guards if g.op != "exc"], mknot(ex[0]))
            ctx.ob("backup/keep", r, e, "an earlier log may be overwritten")
        elif contains(a[1], lambda x: is_call(x, "glob.glob")):
            ctx.ob("backup/keep", False, e, "an earlier log may be overwritten: nothing ensures that %s is a new name" % show(a[1])[:50])
        else:
            ctx.undecided.append((ctx.cur, "name of the old log"))


def r_logs(ctx):
    """a log is moved away before it is opened for writing"""
    r_backup(ctx)
    I = ctx.interp(W + "run_redrock")
    n = 0
    bk = [e for e in I.effects if e.kind == "call" and fname(e.fn).endswith("backup_logs")]
    for e in I.effects:
        if e.kind != "call" or fname(e.fn) not in ("builtins.open", "open"):
            continue
        t = e.result.a[1] if e.result.op == "alloc" else e.result
        a = [un(x) for x in cargs(t)]
        md = a[1] if len(a) > 1 else ckw(t, "mode") or NONE
        if not is_const(md) or not isinstance(md.a[0], str) or not md.a[0].startswith("w"):
            continue
        mine = [b for b in bk if canon(un(ckw(b.result.a[1] if b.result.op == "alloc" else b.result, "logfile", 0) or NONE)) == canon(a[0])]
        if not mine:
            ctx.undecided.append((ctx.cur, "log opened for writing")) if bk else None
            continue
        n += 1
        G = mkand(*[g for g, k in e.guards if g.op != "exc"])
        H = mkor(*[mkand(*[g for g, k in b.guards if g.op != "exc"]) for b in mine])
        ex = [x for x in subterms(H) if x.op == "call" and fname(x.a[0]).endswith(("path.exists", "path.isfile")) and canon(un(cargs(x)[0])) == canon(a[0])]
        ctx.ob("open/after-backup", b_implies(mkand(G, *ex), H), e, "the log is opened for writing although an existing one is moved away only if " + show(H)[-80:])


def run(ctx):
    ctx.rule("partition", "every index is appended to one group, unconditionally", r_partition)
    ctx.rule("unfinished", "exactly the files whose outputs do not all exist are run, judged by the names that will be written", r_todo)
    ctx.rule("names", "the outputs of a file have its name and are put in outdir, or beside it", r_names)
    ctx.rule("groups", "target counts are kept in file order, one group per rank", r_groups)
    ctx.rule("plan", "the groups cover all files", r_plan)
    ctx.rule("run", "each rank runs the files of its own group, and nothing in a dry run", r_run)
    ctx.rule("ends", "a run with nothing left to do ends normally", r_ends)
    ctx.rule("job", "the batch job printed by --plan has the options it was planned with", r_job)
    ctx.rule("failures", "an error with one file does not keep the others from running", r_failures)
    ctx.rule("logs", "an old log is kept", r_logs)
