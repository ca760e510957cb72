"""The ring exchange of template slices."""
from .q import *
from .arith import *

CY = "redrock.templates.DistTemplate.cycle"


def ring(ctx):
    if CY not in ctx.prog.funcs:
        return None
    return ctx.interp(CY)


def fold(t, env):
    memo = {}

    def f(x):
        r = memo.get(x.id)
        if r is None:
            if x.id in env:
                r = env[x.id]
            else:
                na = tuple(f(y) if isinstance(y, T) else y for y in x.a)
                r = x if all(p is q for p, q in zip(na, x.a)) else rebuild(x.op, na)
            memo[x.id] = r
        return r
    return f(t)


def rank_size(I, q=CY):
    s = mk("param", q, "self")
    c = mk("attr", s, "_comm")
    return [mk("attr", s, "_comm_rank"), mk("attr", c, "rank"), mk("attr", mk("attr", s, "comm"), "rank")], \
        [mk("attr", s, "_comm_size"), mk("attr", c, "size"), mk("attr", mk("attr", s, "comm"), "size")]


def table(t, I, n):
    """values of a partner term for every rank of a communicator of size n (None where it does not fold)"""
    R, S = rank_size(I)
    out = []
    for r in range(n):
        env = {x.id: const(r) for x in R}
        env.update({x.id: const(n) for x in S})
        v = strip(fold(deep_strip(t), env))
        out.append(v.a[0] if v.op == "const" and isinstance(v.a[0], int) else None)
    return out


def partner(e, names, pos):
    v = None
    for n in names:
        v = v or e.d.get("kws", {}).get(n) if isinstance(e.d.get("kws"), dict) else v
    if v is None and e.result is not None:
        r = strip(e.result)
        if r.op == "call":
            for n in names:
                v = ckw(r, n)
                if v is not None:
                    return v
            v = ckw(r, names[0], pos)
    return v


def comms(I):
    snd = [e for e in I.effects if e.kind == "call" and e.meth in ("isend", "send", "issend", "ssend", "Isend", "Send", "sendrecv")]
    rcv = [e for e in I.effects if e.kind == "call" and e.meth in ("irecv", "recv", "Recv", "Irecv", "sendrecv")]
    return snd, rcv
