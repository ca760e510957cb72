"""Containers, cells and element provenance."""
from .q import *
from .terms import *
from .terms import mksub

GROW = ("store", "app", "update", "extend")


def roots(t, d=0):
    """the allocations (or opaque terms) a container value can have started from"""
    out = set()
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.op == "alloc":
            i = x.a[1]
            if i.op in ("store", "mu", "loop", "ite"):
                st.append(i)
            else:
                out.add(x)
        elif x.op in GROW:
            st.append(x.a[0])
        elif x.op == "mut":
            st.append(x.a[1])
        elif x.op == "mu":
            st.append(x.a[2])
        elif x.op == "loop":
            st.append(x.a[0])
        elif x.op == "ite":
            st.append(x.a[1])
            st.append(x.a[2])
        else:
            out.add(x)
    return out


def root(t):
    r = roots(t)
    return next(iter(r)) if len(r) == 1 else None


class Writes(object):
    """All writes into containers: (effect, base, key, value)."""

    def __init__(self, I):
        self.I = I
        self.w = []
        for e in I.effects:
            if e.kind == "setitem" or e.kind == "setdefault":
                self.w.append((e, e.base, e.key, e.value))
            elif e.kind == "update":
                v = strip_alloc(e.value)
                if v.op == "comp" and v.a[0] == "dict":
                    kv = v.a[1]
                    self.w.append((e, e.base, kv.a[0], kv.a[1]))
        self.home = {}
        for e, b, k, v in self.w:
            if v.op == "alloc":
                self.home.setdefault(v.id, []).append((b, k))

    def cells(self, t, d=0):
        """[(root, (k1, k2, ...))] of a nested container value"""
        out = []
        if d > 6:
            return out
        seen = set()
        st = [t]
        while st:
            x = st.pop()
            if x.id in seen:
                continue
            seen.add(x.id)
            if x.op == "alloc" and x.a[1].op not in ("store", "mu", "loop", "ite"):
                hs = self.home.get(x.id)
                if hs:
                    for b, k in hs:
                        for r, ks in self.cells(b, d + 1):
                            out.append((r, ks + (k,)))
                else:
                    out.append((x, ()))
            elif x.op == "alloc":
                st.append(x.a[1])
            elif x.op in GROW:
                st.append(x.a[0])
            elif x.op == "mut":
                st.append(x.a[1])
            elif x.op == "mu":
                st.append(x.a[2])
            elif x.op == "loop":
                st.append(x.a[0])
            elif x.op == "ite":
                st.append(x.a[1])
                st.append(x.a[2])
            elif x.op == "sub" and not (x.a[0].op in ("call", "attr") and False):
                for r, ks in self.cells(x.a[0], d + 1):
                    out.append((r, ks + (x.a[1],)))
            else:
                out.append((x, ()))
        u = []
        for c in out:
            if c not in u:
                u.append(c)
        return u


def elem(seq, i):
    """element i of a sequence term"""
    v = strip(seq)
    if v.op == "comp" and v.a[0] == "list" and len(v.a) == 4 and v.a[2] is TRUE:
        it = v.a[3]
        oi = mk("idx", it.a[0], it.a[1])
        return rewrite(v.a[1], lambda y: i if y is oi else y)
    if v.op == "ite":
        return mkite(v.a[0], elem(v.a[1], i), elem(v.a[2], i))
    if v.op == "loop" and strip_alloc(v.a[1]).op == "store":
        s = strip_alloc(v.a[1])
        k = s.a[1].a[0] if s.a[1].op == "tuple" else s.a[1]
        if k.op == "idx":
            return rewrite(s.a[2], lambda y: i if y is k else y)
    return mksub(v, i)


def same_id(k, v, attrname="id"):
    return deep_strip(k) is deep_strip(mk("attr", v, attrname))


def idof(x, attrname="id", ctors=("Target",)):
    """identifier of a target-like term"""
    x = strip(x)
    if x.op == "sub":
        b = strip(x.a[0])
        if b.op == "comp" and b.a[0] == "dict":
            k, v = b.a[1].a
            if same_id(k, v, attrname):
                return x.a[1]
        if b.op == "loop":
            s = b.a[1]
            sts = [y for c, y in ites(s)]
            ok = []
            for y in sts:
                if y.op == "mu" or y is b.a[0]:
                    continue
                y = strip_alloc(y)
                if y.op == "store" and same_id(y.a[1], y.a[2], attrname):
                    ok.append(True)
                else:
                    ok.append(False)
            if ok and all(ok):
                return x.a[1]
    if x.op == "call" and x.a[0].op == "cls" and any(x.a[0].a[0].endswith("." + c) for c in ctors):
        v = ckw(x, "targetid", 0)
        if v is not None:
            return v
    if x.op == "ite":
        a, b = idof(x.a[1], attrname, ctors), idof(x.a[2], attrname, ctors)
        if a is b:
            return a
    return mk("attr", x, attrname)


def queue_of(t):
    t = strip_alloc_keep(t)
    return t


def strip_alloc_keep(t):
    return t


def messages(I, q):
    """non-None values put on queue term q: [(effect, term)]"""
    out = []
    for e in I.effects:
        if e.kind == "call" and e.meth in ("put", "put_nowait") and e.recv is q and e.args:
            out.append((e, e.args[0]))
    return out


def receives(I):
    """{receive result term: queue term}"""
    out = {}
    for e in I.effects:
        if e.kind == "call" and e.meth in ("get", "get_nowait") and e.recv is not None and e.result is not None:
            r = strip_alloc(e.recv)
            if r.op == "call" and fname(r.a[0]).rsplit(".", 1)[-1] in ("Queue", "SimpleQueue", "JoinableQueue"):
                out[e.result] = e.recv
    return out


def resolve_messages(I, t, d=0):
    """replace receive results by the single non-None message put on the queue"""
    rc = receives(I)
    m = {}
    for r, q in rc.items():
        ms = [x for e, x in messages(I, q) if x is not NONE and not exc_guards(e)]
        if len(ms) == 1:
            m[r.id] = ms[0]
    if not m:
        return t

    def f(y):
        return m.get(y.id, y)
    return rewrite(t, f)
