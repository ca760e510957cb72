"""Writes to warning columns."""
from .q import *
from .logic import *
from .store import roots

COLS = ("zwarn", "ZWARN")
DIS = ("astype", "copy", "view")


def peel(t, d=0):
    """the value under allocation, element writes and type changes"""
    while d < 60:
        d += 1
        if t.op == "alloc" and isinstance(t.a[1], T):
            t = t.a[1]
        elif t.op == "store":
            t = t.a[0]
        elif t.op == "call" and t.a[0].op == "attr" and t.a[0].a[1] in DIS:
            t = t.a[0].a[0]
        elif t.op == "call" and fname(t.a[0]) in ("numpy.array", "numpy.asarray", "numpy.copy", "numpy.astype") and cargs(t):
            t = cargs(t)[0]
        elif t.op == "attr" and t.a[1] == "data":
            t = t.a[0]
        else:
            break
    return t


def columns_under(t, d=0):
    """tables whose warning column this value is (with possible element writes)"""
    if d > 8:
        return []
    p = peel(t)
    if p.op == "sub" and is_const(p.a[1], *COLS):
        return [p.a[0]]
    if p.op == "ite":
        return columns_under(p.a[1], d + 1) + columns_under(p.a[2], d + 1)
    if p.op in ("mu", "loop"):
        return columns_under(p.a[-1] if p.op == "mu" else p.a[0], d + 1)
    # a stored column read back resolves to the value written
    return []


class W(object):
    def __init__(self, e, mode, value, idx=None, old=None):
        self.e, self.mode, self.value, self.idx, self.old = e, mode, value, idx, old


def writes(I):
    """[W]: mode 'or' (|=), 'elem' (element assignment), 'col' (column assignment), or another operator"""
    out = []
    zid = set()

    def zlike(t):
        if columns_under(t):
            return True
        return peel(t).id in zid
    for e in I.effects:
        if e.kind == "setitem":
            if is_const(e.key, *COLS):
                op = e.d.get("op")
                if op is None:
                    out.append(W(e, "col", e.value, None, mksub(e.base, e.key)))
                    zid.add(peel(e.value).id)
                else:
                    out.append(W(e, op if op != "|" else "or", e.value, None, e.d.get("old")))
            elif zlike(e.base):
                op = e.d.get("op")
                out.append(W(e, "elem" if op is None else ("or" if op == "|" else op), e.value, e.key, e.d.get("old") or mksub(e.base, e.key)))
    return out


def elemwise(t):
    """array expressions written for one element: where() becomes a conditional, x[i] of the old column stays"""
    def f(x):
        if is_call(x, "numpy.where") and len(cargs(x)) == 3:
            return mkite(*cargs(x))
        if is_call(x, "numpy.bitwise_or", "numpy.logical_or") and len(cargs(x)) == 2:
            return mk("bin", "|", *cargs(x))
        if is_call(x, "numpy.bitwise_and") and len(cargs(x)) == 2:
            return mk("bin", "&", *cargs(x))
        if is_call(x, "numpy.bitwise_not", "numpy.invert") and len(cargs(x)) == 1:
            return mk("un", "~", cargs(x)[0])
        return x
    return rewrite(t, f)
