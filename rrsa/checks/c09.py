"""C09: a failing worker process ends the run with an error, never a hang."""
import ast

from ..q import *
from ..terms import *
from ..ctx import Undecided, Stop
from ..mpflow import Exec, TooMany
from .c32 import C3


def calls_named(node, name):
    for n in ast.walk(node):
        if isinstance(n, ast.Call) and (getattr(n.func, "attr", None) or getattr(n.func, "id", None)) == name:
            return True
    return False


def parents(ctx):
    """functions that start worker processes, helpers analysed where they are called"""
    return [q for q in ctx.entries(lambda n: calls_named(n, "Process")) if not q.startswith("bin.rrspeedtest")]


class Model(object):
    def __init__(self, ctx, q):
        self.q = q
        f = ctx.prog.funcs[q]
        self.f = f
        X = Exec(ctx.prog, "parent")
        X.run(f, {})
        if not X.spawns:
            raise Undecided("no worker is started on any path of " + q)
        self.awaited = dict(X.gets)
        self.workers = []
        self.loop = set()
        self.msgs = {}
        for (t, env, line, fn, known) in X.spawns:
            if t is None or t.decorators or not known:
                raise Undecided("the function or arguments of a worker started by %s" % fn.qual)
            W = Exec(ctx.prog, "worker")
            outs = W.run(t, dict(env))
            self.workers.append((t, line, outs, W, set(v[1] for k, v in env if v[0] == "q")))
            self.loop |= W.loopput
            for o in outs:
                for (qq, failed, val, ln) in o[1].puts:
                    self.msgs.setdefault(qq, set()).add((failed, val))
            ctx.functions |= W.inlined
        msgs = dict(self.msgs)
        msgs["loop"] = self.loop
        self.P = Exec(ctx.prog, "parent", msgs)
        self.outs = self.P.run(f, {})
        ctx.functions |= self.P.inlined


def model(ctx, q):
    cache = ctx.prog.__dict__.setdefault("_c09", {})
    if q not in cache:
        try:
            cache[q] = Model(ctx, q)
        except TooMany:
            cache[q] = Undecided("too many paths in " + q)
        except Undecided as e:
            cache[q] = e
    if isinstance(cache[q], Undecided):
        raise cache[q]
    return cache[q]


def each(ctx, fn):
    ps = parents(ctx)
    if not ps:
        raise Undecided("no function starts worker processes")
    err = None
    for q in ps:
        try:
            fn(ctx, q)
        except Undecided as e:
            err = e
    if err is not None:
        raise err


def loc(f, line):
    return "%s:%s (%s)" % (f.mod.rel, line, f.qual.replace("redrock.", ""))


def qname(ctx, m, q):
    """the local name of a queue"""
    fq, ln, _ = q.rsplit(":", 2)
    f = ctx.prog.funcs[fq]
    for n in ast.walk(f.node):
        if isinstance(n, ast.Assign) and n.value.lineno == int(ln) and isinstance(n.targets[0], ast.Name):
            return n.targets[0].id
    return "queue of line " + ln


def r_worker(ctx):
    def one(ctx, q):
        m = model(ctx, q)
        if not m.awaited:
            raise Undecided("%s reads no queue" % q)
        for (t, line, outs, W, qs) in m.workers:
            for aq in sorted(m.awaited):
                if aq not in qs:
                    continue
                nm = qname(ctx, m, aq)
                bad = {}
                ok = 0
                for o in outs:
                    st = o[1]
                    if not st.failed:
                        continue
                    if any(p[0] == aq and p[1] for p in st.puts):
                        ok += 1
                    else:
                        bad[st.origin] = o[0]
                for ln in sorted(bad, key=lambda x: x or 0)[:4]:
                    ctx.ob("%s/%s" % (t.name if hasattr(t, "name") else t.node.name, nm), False, loc(t, ln),
                           "an exception here ends the worker without a message on %s, which %s waits for" % (nm, q.replace("redrock.", "")))
                if not bad:
                    if not ok:
                        raise Undecided("no exception path of %s" % t.qual)
                    ctx.ob("%s/%s" % (t.node.name, nm), True, loc(t, t.node.lineno), "%d exception paths" % ok)
    each(ctx, one)


def in_while(f, line):
    """the line lies in a while loop, or in a loop over something that is not the workers (conservative)"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.While) and n.lineno <= line <= n.end_lineno:
            return True
        if isinstance(n, ast.For) and n.lineno <= line <= n.end_lineno:
            inner = [x for x in ast.walk(n) if isinstance(x, ast.For) and x is not n and x.lineno <= line <= x.end_lineno]
            for x in inner:
                if not any(isinstance(y, ast.Call) and getattr(y.func, "attr", "") == "Process" for y in ast.walk(n)):
                    return True
    return False


def looped(ctx, f, line, d=0):
    """... or in a helper called from such a loop"""
    if in_while(f, line):
        return True
    if d > 3:
        return False
    for g in ctx.prog.funcs.values():
        if g is f or g.node is f.node:
            continue
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and (getattr(n.func, "id", None) == f.node.name or getattr(n.func, "attr", None) == f.node.name) and looped(ctx, g, n.lineno, d + 1):
                return True
    return False


def r_result(ctx):
    def one(ctx, q):
        m = model(ctx, q)
        n = 0
        for (t, line, outs, W, qs) in m.workers:
            for aq in sorted(m.awaited):
                if aq not in qs:
                    continue
                nm = qname(ctx, m, aq)
                if aq in m.loop:
                    if not any(looped(ctx, f, ln) for f, ln in m.awaited[aq]):
                        n += 1
                        ctx.ob("%s/%s" % (t.node.name, nm), False, loc(t, t.node.lineno),
                               "the worker sends messages in a loop but %s reads one per worker" % q.replace("redrock.", ""))
                    continue
                n += 1
                good = [o for o in outs if not o[1].failed]
                if not good:
                    continue
                none = [o for o in good if not any(p[0] == aq for p in o[1].puts)]
                many = [o for o in good if len({p[3] for p in o[1].puts if p[0] == aq}) > 1]
                ctx.ob("%s/%s" % (t.node.name, nm), not none and not many, loc(t, t.node.lineno),
                       "the worker can end normally without a message on %s" % nm if none else
                       "the worker can send more than one message on %s" % nm if many else "")
        if not n:
            raise Undecided("no result queue in " + q)
    each(ctx, one)


def r_parent(ctx):
    def one(ctx, q):
        m = model(ctx, q)
        seen = set()
        for aq, sites in sorted(m.awaited.items()):
            if not any(f for f, v in m.msgs.get(aq, ())):
                continue        # no failure message exists: reported by the worker rule
            nm = qname(ctx, m, aq)
            f, ln = sites[0]
            bad = [o for o in m.outs if o[1].failed == aq and o[0] in ("next", "return")]
            unterm = [o for o in m.outs if o[1].failed == aq and o[0] == "raise" and not o[1].term and not o[1].daemon]
            ctx.ob(nm + "/raises", not bad, loc(f, ln), "a failure message received here does not stop %s with an error" % q.replace("redrock.", ""))
            ctx.ob(nm + "/stops", not unterm, loc(f, ln), "the error is raised while other workers are not stopped: they block on unread results and the program never exits")
        for kind, text, f, ln in m.P.problems:
            if kind != "early-join":
                ctx.ob(kind, False, loc(f, ln), text)
    each(ctx, one)


def r_join(ctx):
    def one(ctx, q):
        m = model(ctx, q)
        bad = [p for p in m.P.problems if p[0] == "early-join"]
        for kind, text, f, ln in bad:
            ctx.ob(kind, False, loc(f, ln), text)
        if not bad:
            ctx.ob("join", True, loc(m.f, m.f.node.lineno), "")
    each(ctx, one)


# ------------------------------------------------------------------ counts

def is_proc(t):
    t = strip(t)
    return t.op == "alloc" and is_proc(t.a[-1]) or is_call(t, "Process") or t.op == "call" and (fname(t.a[0]) or "").endswith("Process")


def expand_loop(l):
    """loop over the list of started processes -> (loop, [conditions]) of the statement that built the list"""
    s = strip(l.a[0])
    if s.op == "alloc":
        s = strip(s.a[-1])
    if s.op == "comp" and is_proc(s.a[1]):
        c = s.a[2]
        return s.a[3], [] if c is TRUE else list(c.a) if c.op == "and" else [c]
    return None


def raw(I):
    starts, gets = [], []
    for e in I.effects:
        if e.kind != "call" or e.fn.op != "attr":
            continue
        r = e.d.get("result")
        if e.fn.a[1] == "start" and is_proc(e.fn.a[0]):
            starts.append(e)
        elif e.fn.a[1] == "get" and isq(e.fn.a[0]):
            gets.append(e)
    return starts, gets


def isq(t):
    t = strip(t)
    if t.op == "alloc":
        t = strip(t.a[-1])
    return t.op == "call" and (fname(t.a[0]) or "").split(".")[-1] in ("Queue", "SimpleQueue", "JoinableQueue")


def r_count(ctx):
    def one(ctx, q):
        dropped(ctx, q)
        I = ctx.interp(q)
        starts, gets = raw(I)
        if not starts or not gets:
            raise Undecided("starts or reads of workers in " + q)
        progress = 0
        for g in gets:
            where = g.where if hasattr(g, "where") else ""
            if any(l.op != "it" for l in g.loops[-1:]):
                progress += while_bound(ctx, g)
                continue
            ok = None
            for s in starts:
                r = same_count(s, g)
                if r is not None:
                    ok = r
            if ok is None:
                raise Undecided("number of messages read in %s" % q)
            ctx.ob("messages/" + q.split(".")[-1], ok, g, "the number of result messages read differs from the number of workers started")
    each(ctx, one)


def dropped(ctx, q):
    """a read that gives up after a time limit (or does not wait) while the loop over the workers goes on"""
    def scan(body, loop, trys, f):
        for n in body:
            for c in ast.walk(n) if not isinstance(n, (ast.For, ast.While, ast.Try, ast.If, ast.With)) else ():
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and (
                        c.func.attr == "get_nowait" or c.func.attr == "get" and any(k.arg in ("timeout", "block") for k in c.keywords)):
                    if isinstance(loop, ast.For) and trys:
                        t = trys[-1]
                        for h in t.handlers:
                            ends = any(isinstance(x, (ast.Raise, ast.Return, ast.While)) or isinstance(x, ast.Call) and getattr(x.func, "id", getattr(x.func, "attr", "")) not in ("print", "flush", "write", "warn", "warning", "error", "info") for y in h.body for x in ast.walk(y))
                            if not ends:
                                ctx.ob("gives-up", False, loc(f, c.lineno), "a worker that takes longer than the time limit is skipped: its results are lost")
            if isinstance(n, (ast.For, ast.While)):
                scan(n.body + n.orelse, n, [], f)
            elif isinstance(n, ast.Try):
                scan(n.body, loop, trys + [n], f)
                scan(n.orelse + n.finalbody, loop, trys, f)
                for h in n.handlers:
                    scan(h.body, loop, trys, f)
            elif isinstance(n, ast.If):
                scan(n.body + n.orelse, loop, trys, f)
            elif isinstance(n, ast.With):
                scan(n.body, loop, trys, f)
    for fq in {q} | set(model(ctx, q).P.inlined):
        f = ctx.prog.funcs[fq]
        scan(f.node.body, None, [], f)


def while_bound(ctx, g):
    """the progress loop must end when all targets are done"""
    for c in flat_guards(g):
        if c.op == "cmp" and c.a[0] in ("<", "<=") and any(x.op == "mu" for x in c.a[1:]):
            if c.a[1].op == "mu":
                n = strip(c.a[2])
                ctx.ob("progress-end", not (c.a[0] == "<=" and is_call(n, "len")), g,
                       "the parent waits for one progress message more than there are targets")
                return 1
    return 0


def same_count(s, g):
    Ls, Lg = list(s.loops), list(g.loops)
    Gs = [x for x in flat_guards(s)]
    Gg = [x for x in flat_guards(g) if x.op != "exc" and not contains(x, lambda y: y.op in ("mu", "loop"))]
    while Ls and Lg and Ls[0] is Lg[0] and len(Ls) > 1:
        Ls.pop(0)
        Lg.pop(0)
    if not Lg:
        return None
    if len(Ls) != 1 or len(Lg) != 1:
        return None
    x = expand_loop(Lg[0])
    l, cond = (x[0], x[1]) if x is not None else (Lg[0], [])
    if l.a[0] is not Ls[0].a[0]:
        return None
    # conditions inside the loop: those that mention its element
    i = lambda t: contains(t, lambda y: y.op == "idx" and y.a[0] is l.a[0])
    a = mkand(*[c for c in Gs if i(c)]) if any(i(c) for c in Gs) else TRUE
    cg = cond + [c for c in Gg if i(c)]
    b = mkand(*cg) if cg else TRUE
    if a is b:
        return True
    return b_equiv(a, b)


def r_progress(ctx):
    done = 0
    for q in parents(ctx):
        m = model(ctx, q)
        for (t, line, outs, W, qs) in m.workers:
            if not (W.loopput & set(m.awaited)):
                continue
            for fq in sorted(W.inlined):
                f = ctx.prog.funcs[fq]
                if fq == t.qual or fq not in ctx.KNOWN:
                    continue
                I = ctx.interp(fq)
                puts = [e for e in I.effects if e.kind == "call" and e.fn.op == "attr" and e.fn.a[1] in ("put", "put_nowait")
                        and e.fn.a[0].op == "param" and e.loops]
                if not puts:
                    continue
                ls = {tuple(l.id for l in e.loops) for e in puts}
                if len(ls) != 1 or len(puts[0].loops) != 1:
                    raise Undecided("loops of the progress messages of " + fq)
                pr = puts[0].fn.a[0]
                base = strip(puts[0].loops[0].a[0])
                if base.op != "param":
                    raise Undecided("loop of the progress messages of " + fq)
                amounts = [e.d["args"][0] if e.d.get("args") else cargs(e.d["result"])[0] for e in puts]
                lits = {mk("cmp", "is", pr, NONE): False}
                alts = []
                for e in puts:
                    g = guard_term(e)
                    for a in batoms(g):
                        if a.op == "cmp" and a.a[0] == "is" and any(x is NONE for x in a.a[1:]) and a.a[1].op in ("attr", "param"):
                            lits[a] = not (a.a[1] is pr)
                    alts.append(assume(g, lits))
                env, at = benvs(alts)
                if env is None:
                    raise Undecided("conditions of the progress messages")
                full = all(any(bval(x, v) for x in alts) for v in env)
                ctx.ob("every-target/" + fq.split(".")[-1], full, puts[0], "some targets send no progress message: the parent waits for it forever")
                ctx.ob("amount/" + fq.split(".")[-1], all(is_const(x, 1) for x in amounts) or any(not is_const(x) for x in amounts), puts[0],
                       "a progress message does not count one target")
                done += 1
    if not done:
        raise Undecided("progress messages")


def r_programs(ctx):
    n = 0
    for q in sorted(ctx.prog.funcs):
        f = ctx.prog.funcs[q]
        if q.startswith("bin.") or not calls_named(f.node, "zfind") or q == "redrock.zfind.zfind":
            continue
        if "comm" not in f.params()[0]:
            continue
        X = Exec(ctx.prog, "parent", only=frozenset(["comm"]))
        X.fail_calls = ("redrock.zfind.zfind",)
        try:
            outs = X.run(f, {"comm": ("c", None)})
        except TooMany:
            raise Undecided("too many paths in " + q)
        failed = [o for o in outs if o[1].failed]
        if not failed:
            raise Undecided("call of zfind in " + q)
        bad = [o for o in failed if o[0] != "raise"]
        n += 1
        ctx.ob("error/" + f.node.name, not bad, loc(f, bad[0][1].origin if bad else f.node.lineno), "an error of the redshift fit does not end the program with an error")
    if not n:
        raise Undecided("programs that call zfind")


def run(ctx):
    ctx.rule("worker", "every path of a worker on which an exception happens sends a message on every queue its parent blocks on", r_worker)
    ctx.rule("result", "every path of a worker without an exception sends exactly one message on each result queue", r_result)
    ctx.rule("parent", "every failure message makes the parent stop the other workers and raise", r_parent)
    ctx.rule("join", "workers are joined only after their results were read", r_join)
    ctx.rule("count", "the parent reads exactly one result message per started worker", lambda c: r_count(C3(c)))
    ctx.rule("progress", "every target processed by a worker sends its progress message", lambda c: r_progress(C3(c)))
    ctx.rule("programs", "without MPI an error of the redshift fit leaves the program as an error", r_programs)
