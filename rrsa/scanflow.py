"""How scan results reach the per-target dictionaries of calc_zchi2_targets."""
from .q import *
from .kern import ZS
from .store import *
from .terms import mksub

CT = ZS + "calc_zchi2_targets"
OUT = {"zchi2": 0, "zcoeff": 1, "penalty": 2}


def interp(ctx):
    return ctx.interp(CT, inline=[ZS + "_mp_calc_zchi2"])


class Scan(object):
    """final: [(effect, outkey, id key, source container, source key)]
       cells: [(effect, container root, mode, n, id key, row index, kernel call term, more keys)]
       other: writes into the source containers that were not understood"""

    def __init__(self, ctx):
        I = self.I = interp(ctx)
        self.W = Writes(I)
        self.final, self.cells, self.other, self.concat = [], [], [], []
        src = set()
        for e, b, k, v in self.W.w:
            if not (is_const(k) and k.a[0] in OUT):
                continue
            for r, ks in self.W.cells(b):
                for conds, x in ites(v):
                    x = strip(x)
                    if x.op == "sub":
                        self.final.append((e, k.a[0], ks, x.a[0], x.a[1], conds))
                        src |= roots(x.a[0])
                    else:
                        self.final.append((e, k.a[0], ks, None, x, conds))
        self.src = src
        for e, b, k, v in self.W.w:
            for r, ks in self.W.cells(b):
                if r not in src:
                    continue
                self.classify(e, r, ks + (k,), v)

    def classify(self, e, r, keys, v):
        v0 = strip(v)
        if v0.op == "dict" and not v0.a or (v0.op == "call" and fname(v0.a[0]) == "builtins.dict" and len(v0.a) == 1):
            return
        if is_call(v0, "concatenate", "hstack", "append", "vstack"):
            self.concat.append((e, r, keys, v0))
            return
        w = resolve_messages(self.I, v)
        mode = "worker" if w is not v else "serial"
        keys2 = tuple(resolve_messages(self.I, x) for x in keys)
        w = strip(w)
        if w.op == "sub" and strip(w.a[0]).op == "sub" and strip(w.a[0]).a[1].op == "const":
            c = strip(strip(w.a[0]).a[0])
            if is_call(c, "calc_zchi2") and fname(c.a[0]) == ZS + "calc_zchi2":
                self.cells.append((e, r, mode, strip(w.a[0]).a[1].a[0], keys2[0], w.a[1], c, keys2[1:]))
                return
        self.other.append((e, r, keys, v))
