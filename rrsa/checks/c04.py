"""C04: every MPI collective is reached by all ranks of its communicator."""
import ast
from ..q import *
from ..arith import *
from ..ctx import Undecided, Stop

DIRECT = {"barrier", "Barrier", "bcast", "Bcast", "gather", "Gather", "allgather", "Allgather", "scatter", "Scatter", "reduce", "Reduce",
          "allreduce", "Allreduce", "alltoall", "Alltoall", "Split", "Dup", "gatherv", "Gatherv", "scatterv", "Scatterv", "ibarrier", "ibcast"}
UNIFORM = {"bcast", "allgather", "Allgather", "allreduce", "Allreduce", "alltoall", "Split", "Dup", "cycle"}
LOCALATTR = {"rank", "_comm_rank", "_my_targets", "_my_data", "_piece", "is_lopsided"}
LOCALMETH = {"eval_models", "local", "local_target_ids", "_local_target_ids", "_local_data", "Get_rank", "recv", "irecv", "gather", "scatter", "reduce", "Gather", "Scatter", "Reduce"}
LOCALFN = {"time.time", "os.getpid", "socket.gethostname", "random.random", "numpy.random.rand", "numpy.random.random", "time.perf_counter", "cupy.cuda.runtime.getDevice", "cupy.cuda.runtime.deviceGetPCIBusId"}
OBJ = {"redrock.templates.load_dist_templates", "redrock.targets.DistTargets.wavegrids"}
# functions that only return data on the root process
ROOTONLY = {"redrock.zfind.zfind"}
# arguments documented to be given on the root process only
ROOTPARAMS = {("redrock.targets.DistTargetsCopy.__init__", "targets")}
DIST = ("redrock.targets.DistTargets", "redrock.external.desi.DistTargetsDESI", "redrock.targets.DistTargetsCopy",
        "redrock.templates.DistTemplate", "redrock.templates.ReDistTemplate")


class Taint(object):
    """which values can differ between the ranks of a communicator"""

    def __init__(self, I, params=("use_gpu", "comm_rank", "rank"), stop=()):
        self.I, self.memo, self.params, self.stop = I, {}, params, stop
        self.chains = {}

    def __call__(self, t):
        if t.id in self.memo:
            return self.memo[t.id]
        self.memo[t.id] = None
        r = self.why(t)
        self.memo[t.id] = r
        return r

    def why(self, t):
        if t.op == "isroot":
            return "the rank"
        if t.op == "param":
            if (t.a[0], t.a[1]) in ROOTPARAMS:
                return "the targets, which only the root process has"
            return t.a[1] if t.a[1] in self.params else None
        if t.op == "attr":
            if t.a[1] in LOCALATTR:
                return show(t)
            if t.a[1] == "local" and not (t.a[0].op == "param" and False):
                return show(t)
            if t.a[1] in ("size", "all_target_ids", "_comm_size"):
                return None
            return self(t.a[0])
        if t.op == "call":
            f = fname(t.a[0]) or ""
            m = t.a[0].a[1] if t.a[0].op == "attr" else f.rsplit(".", 1)[-1]
            if f in OBJ or m in UNIFORM:
                return None
            if f in DIST or t.a[0].op == "cls" and t.a[0].a[0] in DIST:
                return None
            if f in ROOTONLY:
                return show(t.a[0])
            if m in ("wavegrids", "all_target_ids"):
                return None
            if m in LOCALMETH and (t.a[0].op in ("attr", "fn", "method") or m in ("local", "local_target_ids")):
                return m + "()"
            if f in LOCALFN:
                return f
        if t.op == "mu":
            u = self.I.muup.get(t.id)
            r = self(t.a[2])
            if r is None and u is not None:
                r = self(u)
            return r
        if t.op == "closure":
            return None
        if t.op == "ite":
            n = nocomm(t.a[0])
            if n is not None:
                # without a communicator there is only one process
                return self(t.a[2] if n else t.a[1])
        if t.op in ("store", "loop", "app", "update", "extend"):
            return self.chain(t, {})[0]
        for x in t.a:
            if isinstance(x, T):
                r = self(x)
                if r is not None:
                    return r
        return None

    def chain(self, t, seen):
        """(reason, changed, bases): a container's history; later writes to the same key replace earlier ones"""
        key = (t.id, frozenset(seen))
        if key in self.chains:
            return self.chains[key]
        self.chains[key] = (None, False, frozenset())
        r = self.chain1(t, seen)
        self.chains[key] = r
        return r

    def chain1(self, t, seen):
        why, changed, bases = None, False, frozenset()
        while True:
            if t.op == "store":
                if t.a[1].id not in seen:
                    why = why or self(t.a[2]) or self(t.a[1])
                    changed = True
                    seen = dict(seen)
                    seen[t.a[1].id] = t.a[1]
                t = t.a[0]
            elif t.op == "alloc" and isinstance(t.a[1], T) and t.a[1].op in ("store", "mu", "loop", "ite", "alloc"):
                t = t.a[1]
            elif t.op == "loop":
                w, c, b = self.chain(t.a[1], seen)
                if w is None and c:
                    m = t.a[0]
                    if m.op == "mu" and isinstance(m.a[1], T) and m.a[1].op == "it":
                        w = self(m.a[1].a[0])
                why, changed = why or w, changed or c
                m = t.a[0]
                if m.op == "mu":
                    u = self.I.muup.get(m.id)
                    if u is not None:
                        why = why or self.chain(u, {i: k for i, k in seen.items() if not self.loopkey(k, m.a[1])})[0]
                    bases |= b - {m.id}
                    t = m.a[2]
                else:
                    bases |= b
                    t = m
            elif t.op == "mu":
                u = self.I.muup.get(t.id)
                if u is not None:
                    # the stores of earlier iterations
                    sk = {i: k for i, k in seen.items() if not self.loopkey(k, t.a[1])}
                    why = why or self.chain(u, sk)[0]
                w, c, b = self.chain(t.a[2], seen)
                return why or w, changed, bases | {t.id}
            elif t.op == "ite":
                n = nocomm(t.a[0])
                if n is not None:
                    t = t.a[2] if n else t.a[1]
                    continue
                w1, c1, b1 = self.chain(t.a[1], seen)
                w2, c2, b2 = self.chain(t.a[2], seen)
                w = w1 or w2
                if c1 or c2 or b1 != b2:
                    w = w or self(t.a[0])
                return why or w, changed or c1 or c2, bases | b1 | b2
            elif t.op in ("app", "update", "extend"):
                changed = True
                for x in t.a[1:]:
                    if isinstance(x, T):
                        why = why or self(x)
                t = t.a[0]
            else:
                return why or self(t), changed, bases | {t.id}

    def loopkey(self, k, it):
        """does this key change with the iterations of that loop?"""
        def f(x):
            if x.op == "idx":
                return it.op != "it" or mk("idx", it.a[0], it.a[1]) is x
            if x.op in ("mu", "loop"):
                return True
            return False
        return contains(k, f)


def nocomm(c):
    """True when c means there is no communicator, False when it means there is one, None otherwise"""
    if c.op == "not":
        v = nocomm(c.a[0])
        return None if v is None else not v
    if c.op == "cmp" and c.a[0] in ("is", "=="):
        x, y = strip(c.a[1]), strip(c.a[2])
        if y is not NONE:
            x, y = y, x
        if y is NONE and commlike(x):
            return True
    return None


def commlike(t):
    t = strip(t)
    if t.op == "ite":
        return commlike(t.a[1]) or commlike(t.a[2])
    if t.op == "attr":
        return t.a[1] in ("comm", "_comm", "COMM_WORLD", "subcomm", "input_comm")
    if t.op == "param":
        return "comm" in t.a[1]
    if t.op == "call":
        return t.a[0].op == "attr" and t.a[0].a[1] in ("Split", "Dup")
    if t.op in ("ext", "global"):
        return "COMM_WORLD" in t.a[0]
    if t.op in ("mu", "loop"):
        return commlike(t.a[-1])
    return False


def collective_functions(prog):
    """{qualified name: how} of the functions that reach a collective, directly or through others"""
    direct, callees = set(), {}
    names = {}
    for q, f in prog.funcs.items():
        names.setdefault(q.rsplit(".", 1)[-1], []).append(q)
        if q.endswith(".__init__"):
            names.setdefault(q.rsplit(".", 2)[-2], []).append(q)
    for q, f in prog.funcs.items():
        cs = set()
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call):
                a = n.func.attr if isinstance(n.func, ast.Attribute) else getattr(n.func, "id", None)
                if isinstance(n.func, ast.Attribute) and a in DIRECT and "comm" in ast.unparse(n.func.value).lower():
                    direct.add(q)
                elif a and a != "__init__":
                    for c in names.get(a, ()):
                        cs.add(c)
        callees[q] = cs
    out = set(direct)
    ch = True
    while ch:
        ch = False
        for q, cs in callees.items():
            if q not in out and cs & out:
                # attribute calls are only name matches; keep those that are plausible
                out.add(q)
                ch = True
    return direct, out


class Sites(object):
    def __init__(self, ctx, q, coll):
        self.I = ctx.interp(q)
        self.sites = []
        for e in self.I.effects:
            if e.kind != "call" or e.d.get("inlined"):
                continue
            f = fname(e.fn) or ""
            m = e.meth or f.rsplit(".", 1)[-1]
            if e.meth in DIRECT and e.recv is not None and commlike(e.recv):
                self.sites.append((e, e.meth, e.recv))
            elif e.meth in DIRECT and e.recv is not None and strip(e.recv).op in ("sub", "mu", "loop"):
                continue
            else:
                tgt = None
                if f in coll:
                    tgt = f
                elif e.fn is not None and e.fn.op == "cls" and e.fn.a[0] + ".__init__" in coll:
                    tgt = e.fn.a[0]
                elif f + ".__init__" in coll:
                    tgt = f
                elif e.meth in ("wavegrids",):
                    tgt = "redrock.targets.DistTargets.wavegrids"
                if tgt is None:
                    continue
                c = None
                if e.bound:
                    c = e.bound.get("comm")
                if c is None and isinstance(e.d.get("kws"), dict):
                    c = e.kws.get("comm")
                if "comm" in params_of(ctx, tgt) and (c is None or c is NONE):
                    continue
                if c is not None and c is NONE:
                    continue
                self.sites.append((e, tgt, c))


def params_of(ctx, q):
    f = ctx.prog.funcs.get(q) or ctx.prog.funcs.get(q + ".__init__")
    if f is None:
        return []
    a = f.node.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]


ROOT = mk("isroot")


def rootform(t):
    """rank tests that single out rank 0 become one atom"""
    def f(x):
        if x.op == "cmp":
            v = rank_zero(x)
            if v is None:
                return x
            a, b = strip(x.a[1]), strip(x.a[2])
            n = a.a[0] if is_const(a) else (b.a[0] if is_const(b) else None)
            o = x.a[0]
            exact = o in ("==", "!=") and n == 0 or o == "<" and (is_const(a, 0) or is_const(b, 1)) or o == "<=" and (is_const(a, 1) or is_const(b, 0))
            if exact:
                return ROOT if v else mknot(ROOT)
        return x
    return rewrite(t, f)


def live(e, c, foldgpu):
    """guards of a site that ranks can disagree about"""
    out = []
    c = mk("tuple", *([c] if c is not None else []) + [x for x in ([e.recv] if e.meth else []) + list(e.args) if isinstance(x, T)])
    split = contains(c, lambda x: x.op == "call" and x.a[0].op == "attr" and x.a[0].a[1] == "Split")
    for g, k in e.guards:
        if k in ("raise", "loopexit"):
            continue
        if g.op == "exc" or contains(g, lambda x: x.op == "exc"):
            continue
        if k == "ret" and split:
            continue
        out.append(g)
    return out


def selfof(e):
    x = e.recv
    if x is None and e.bound:
        x = e.bound.get("self")
    if x is None and e.args:
        x = e.args[0]
    return strip(x) if x is not None else None


def check_function(ctx, q, coll, foldgpu=False):
    S = Sites(ctx, q, coll)
    n = 0
    if not S.sites:
        return 0
    tn = Taint(S.I)

    def dead_exc(e):
        return any(g.op == "exc" for g, k in e.guards)
    byloop = {}
    for e, m, c in S.sites:
        if dead_exc(e):
            continue
        n += 1
        nm = m.rsplit(".", 1)[-1] if not m.endswith("__init__") else m.rsplit(".", 2)[-2]
        # loops around the site run equally often everywhere
        for key in e.loops:
            if key.op == "it":
                w = tn(key.a[0])
                ctx.ob("sites/loop", w is None, e, "%s is called once per element of %s, which depends on %s" % (nm, show(key.a[0])[:80], w))
            else:
                for x in S.I.effects:
                    if x.kind == "whiletest" and x.key is key:
                        v = x.value
                        w = tn(v)
                        ctx.ob("sites/while", w is None, e, "%s is called in a loop that ends depending on %s" % (nm, w))
            for b in S.I.breaks.get(key, ()):
                w = tn(b)
                ctx.ob("sites/break", w is None, e, "%s is called in a loop that is left early depending on %s (%s)" % (nm, w, show(b)[:80]))
        gs = live(e, c, foldgpu)
        byloop.setdefault(tuple(k.id for k in e.loops), []).append((e, m, nm, gs))
        # the arguments that steer a helper are the same everywhere
        if m in ctx._steer and e.bound:
            for p in ctx._steer[m]:
                v = e.bound.get(p)
                if v is None or not isinstance(v, T):
                    continue
                w = tn(v)
                if w is not None and p not in ("use_gpu",):
                    ctx.ob("sites/argument", False, e, "%s decides about collectives by %s, which depends on %s" % (nm, p, w))
    for key, ss in byloop.items():
        bad = []
        for e, m, nm, gs in ss:
            fine = [g for g in gs if tn(g) is None]
            tg = [g for g in gs if tn(g) is not None]
            # what the other conditions already say does not depend on the rank
            tg = [g for g in tg if not (fine and b_implies(mkand(*fine), g))]
            bad.append((e, m, nm, tg))
        for e, m, nm, tg in bad:
            if not tg:
                ctx.ob("sites/all-ranks", True, e)
        bad = [b for b in bad if b[3]]
        rest = []
        for e, m, nm, tg in bad:
            if m.endswith("wavegrids") and any(e2.seq < e.seq and m2 == m and not [g for g in gs2 if tn(g) is not None] and selfof(e2) is not None and selfof(e2) is selfof(e) for e2, m2, _, gs2 in ss):
                ctx.ob("sites/all-ranks", True, e)
                continue
            rest.append((e, m, nm, tg))
        if not rest:
            continue
        conds = [rootform(mkand(*tg)) for _, _, _, tg in rest]
        envs, at = benvs(conds)
        if envs is None:
            raise Undecided("%d sites under conditions that depend on the rank" % len(rest))
        ta = [a for a in at if a is ROOT or tn(a) is not None]
        groups = {}
        for env in envs:
            k = tuple(sorted((a.id, env[a.id]) for a in at if a not in ta))
            seq = tuple(m for (e, m, nm, tg), cnd in sorted(zip(rest, conds), key=lambda z: z[0][0].seq) if bval(cnd, env))
            groups.setdefault(k, set()).add(seq)
        okay = all(len(v) == 1 for v in groups.values())
        for e, m, nm, tg in rest:
            ctx.ob("sites/all-ranks", okay, e, "%s is only reached when %s" % (nm, "; ".join(show(g)[:100] for g in tg)))
    return n


def steering(ctx, fns, coll):
    """parameters that decide whether a helper performs its collectives"""
    st = {}
    for q in fns:
        try:
            S = Sites(ctx, q, coll)
        except Undecided:
            continue
        ps = set()
        for e, m, c in S.sites:
            if any(g.op == "exc" for g, k in e.guards):
                continue
            ts = live(e, c, False)
            for key in e.loops:
                if key.op == "it":
                    ts.append(key.a[0])
                for b in S.I.breaks.get(key, ()):
                    ts.append(b)
            for t in ts:
                for x in subterms(t):
                    if x.op == "param" and x.a[0] in (q, q + ".__init__"):
                        ps.add(x.a[1])
        ps.discard("self")
        nm = q[:-9] if q.endswith(".__init__") else q
        st[nm] = st[q] = ps
    return st


SKIP = {"redrock.zfind._rebalance_after_scan", "redrock.templates.DistTemplate.cycle"}


def functions(ctx):
    direct, coll = collective_functions(ctx.prog)
    coll = {q for q in coll if not q.startswith("bin.rrplot") and ".plotspec" not in q}
    coll -= {"redrock.templates.DistTemplate.cycle", "redrock.templates.ReDistTemplate.cycle"}
    # functions that are never called run no collective
    return direct, coll


def r_sites(ctx):
    direct, coll = functions(ctx)
    ctx._steer = steering(ctx, sorted(coll), coll)
    tot = 0
    for q in sorted(coll):
        if q in SKIP:
            continue
        tot += check_function(ctx, q, coll)
    if not tot:
        raise Undecided("no collective was found")


def r_cycle(ctx):
    """the slice exchange: on the CPU every rank takes part in every round"""
    q = "redrock.zscan.calc_zchi2_targets"
    I = ctx.interp(q)
    g = mk("param", q, "use_gpu")

    def cpu(t):
        return rewrite(t, lambda x: FALSE if x is g else x)
    tn = Taint(I)
    cs = [e for e in I.effects if e.kind == "call" and e.meth == "cycle"]
    if not cs:
        raise Undecided("no cycle() call")
    for e in cs:
        for gd, k in e.guards:
            if k in ("raise", "loopexit") or gd.op == "exc":
                continue
            x = gd
            y = cpu(x)

            def muz(t):
                # loop variables: their start value and their update, without the GPU
                def f(z):
                    return z
                return t
            w = None
            for z in subterms(y):
                if z.op == "mu":
                    v0 = cpu(z.a[2])
                    w = w or tn(v0)
                    u = I.muup.get(z.id)
                    if u is not None:
                        w = w or tn(cpu(u))
            z = rewrite(y, lambda t: const(0) if t.op == "mu" else t)
            w = w or tn(z)
            ctx.ob("cycle/every-rank", w is None, e, "taking part in the exchange depends on %s (%s)" % (w, show(gd)[:80]))
        for key in e.loops:
            if key.op == "it":
                w = tn(cpu(key.a[0]))
                ctx.ob("cycle/loop", w is None, e, "the number of exchanges depends on %s" % w)
            for b in I.breaks.get(key, ()):
                w = tn(cpu(b))
                ctx.ob("cycle/break", w is None, e, "the exchange is left early depending on %s" % w)


def run(ctx):
    ctx.rule("sites", "no collective, direct or in a helper, is guarded by, or repeated according to, something that differs between ranks", r_sites)
    ctx.rule("cycle", "every rank takes part in every round of the slice exchange", r_cycle)
