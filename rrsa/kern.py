"""Shared knowledge about the fitting kernels."""
from .q import *
from .axes import Axes, NoAxes

ZS = "redrock.zscan."
DATA = ("weights", "flux", "wflux")
FIELD = {"weights": "ivar", "flux": "flux"}


def concat_of(t):
    """(attr, sequence term) when t is the concatenation of attribute attr over a sequence of spectra"""
    t = strip(t)
    if is_call(t, "numpy.concatenate", "cupy.concatenate", "numpy.hstack", "cupy.hstack") and cargs(t):
        c = strip(cargs(t)[0])
        if c.op == "comp" and c.a[0] == "list" and c.a[2] is TRUE and len(c.a) == 4:
            e = strip(c.a[1])
            it = c.a[3]
            if e.op == "attr" and e.a[0].op == "sub" and e.a[0].a[0] is it.a[0]:
                return e.a[1], strip(it.a[0])
            if e.op == "attr" and contains(e.a[0], lambda y: y.op == "idx" and y.a[0] is it.a[0]):
                return e.a[1], strip(it.a[0])
    return None


def data_kind(t):
    """('weights'|'flux'|'wflux', source) of a data vector, or None"""
    t = strip(t)
    if t.op == "param" and t.a[1] in DATA:
        return t.a[1], mk("srcparam")
    if t.op == "param" and t.a[1].startswith("gpu") and t.a[1][3:] in DATA:
        return t.a[1][3:], mk("srcparam")
    if t.op == "sub" and is_call(t.a[0], "spectral_data", "gpu_spectral_data") and t.a[1].op == "const" and t.a[1].a[0] in (0, 1, 2):
        c = t.a[0]
        src = ckw(c, "spectra", 0)
        if src is None:
            o = ckw(c, "self")
            if o is None and c.a[0].op in ("attr", "bm"):
                o = c.a[0].a[0]
            src = mk("attr", o, "spectra") if o is not None else c
        return DATA[t.a[1].a[0]], strip(src)
    c = concat_of(t)
    if c:
        return {"ivar": "weights", "flux": "flux"}.get(c[0], c[0]), c[1]
    if t.op == "bin" and t.a[0] == "*" and len(t.a) == 3:
        k = [data_kind(x) for x in t.a[1:]]
        if all(k) and {x[0] for x in k} == {"weights", "flux"} and k[0][1] is k[1][1]:
            return "wflux", k[0][1]
    if t.op == "ite":
        a, b = data_kind(t.a[1]), data_kind(t.a[2])
        if a and b and a[0] == b[0]:
            return a
    if t.op == "attr" and t.a[1] in ("gpuweights", "gpuflux", "gpuwflux"):
        return t.a[1][3:], mk("attr", t.a[0], "spectra")
    return None


KERNELS = [ZS + "calc_zchi2_batch", ZS + "calc_zchi2_one", ZS + "_zchi2_one", ZS + "per_camera_coeff_with_least_square_batch",
           "redrock.archetypes.Archetype.get_best_archetype", "redrock.archetypes.Archetype.nearest_neighbour_model"]

# functions that call the kernels, analysed one by one
CALLERS = [ZS + "calc_zchi2", ZS + "calc_zchi2_one", ZS + "per_camera_coeff_with_least_square_batch", "redrock.fitz.fitz",
           "redrock.archetypes.Archetype.get_best_archetype", "redrock.archetypes.Archetype.nearest_neighbour_model"]

HINT = {"get_best_archetype": "redrock.archetypes.Archetype.get_best_archetype",
        "nearest_neighbour_model": "redrock.archetypes.Archetype.nearest_neighbour_model",
        "gpu_spectral_data": "redrock.targets.Target.gpu_spectral_data",
        "rebin_template_batch": "redrock.archetypes.Archetype.rebin_template_batch",
        "legendre": "redrock.targets.Target.legendre"}


def caller(ctx, q):
    return ctx.interp(q, method_hint=HINT)


def batch_interp(ctx, name="calc_zchi2_batch", **kw):
    return ctx.interp(ZS + name, inline=[ZS + "dot_product_sparse_one"], **kw)


class KAxes(Axes):
    def __init__(self, I, fnq):
        P = lambda n: mk("param", fnq, n)
        base = {P("weights").id: ("p",), P("flux").id: ("p",), P("wflux").id: ("p",), P("nz").id: (), P("nbasis").id: (),
                P("prior").id: ("b", "b"), P("Tb").id: ("p", "b"), P("Tbs").id: ("z", "p", "b"), P("zcoeff").id: ("b",),
                P("zc").id: ("z", "b"), P("M").id: ("b", "b"), P("y").id: ("b",)}
        wd = {P("weights").id: 1, P("wflux").id: 1, P("flux").id: 0}
        self.fnq = fnq
        self.extra = []       # (contracted axes, [operands], term)
        Axes.__init__(self, base, wd)

    def _axes(self, t):
        u = strip(t)
        if u.op == "sub" and u.a[0].op == "param" and u.a[0].a[1] == "tdata":
            return ("z", "l", "b") if not self.fnq.endswith("zchi2_one") else ("l", "b")
        if u.op == "attr" and u.a[1] == "Rcsr" or u.op == "attr" and u.a[1] == "R":
            return ("q", "l")
        if u.op == "call":
            n = fname(u.a[0]).rsplit(".", 1)[-1]
            if n == "batch_dot_product_sparse" or n == "_batch_dot_product_sparse_gpu":
                return ("z", "p", "b")
            if n == "dot_product_sparse_one":
                return ("p", "b")
            if n == "calc_batch_dot_product_3d3d_gpu":
                a, b, tr = ckw(u, "a", 0), ckw(u, "b", 1), ckw(u, "transpose_a", 2)
                x = self.axes(a)
                y = self.axes(b)
                if tr is not None and is_const(tr, True):
                    x = (x[0], x[2], x[1])
                return (x[0], x[1], y[2])
            if n in ("calc_batch_dot_product_3d2d", "_calc_batch_dot_product_3d2d_gpu"):
                return ("z", "p")
            if n == "solve_matrices":
                return self.axes(ckw(u, "y", 1))
        return Axes._axes(self, t)

    def contracted(self, t):
        u = strip(t)
        if is_call(u, "calc_batch_dot_product_3d3d_gpu"):
            a, b, tr = ckw(u, "a", 0), ckw(u, "b", 1), ckw(u, "transpose_a", 2)
            x, y = self.axes(a), self.axes(b)
            if tr is not None and is_const(tr, True):
                x = (x[0], x[2], x[1])
            return {x[2], y[1]}
        return Axes.contracted(self, t)

    def deg(self, t):
        u = strip(t)
        if is_call(u, "calc_batch_dot_product_3d3d_gpu"):
            return self.deg(ckw(u, "a", 0)) + self.deg(ckw(u, "b", 1))
        return Axes.deg(self, t)


def reductions(I, ax):
    """[(term, contracted axes, weight degree)] of all reductions in the terms of I; also the undecided ones"""
    seen = set()
    out, und = [], []
    roots = [I.ret]
    for e in I.effects:
        for k in ("value", "result"):
            v = e.d.get(k)
            if isinstance(v, T):
                roots.append((v, e))
        b = e.d.get("bound")
        if b:
            roots.extend((v, e) for v in b.values())
    for r in roots:
        e = None
        if isinstance(r, tuple):
            r, e = r
        for t in subterms(r):
            if t.id in seen:
                continue
            seen.add(t.id)
            u = t
            red = (u.op == "bin" and u.a[0] == "@") or (u.op == "call" and fname(u.a[0]).rsplit(".", 1)[-1] in (
                "sum", "nansum", "mean", "inner", "vdot", "einsum", "calc_batch_dot_product_3d3d_gpu", "trapz", "average", "tensordot"))
            if not red:
                continue
            try:
                c = ax.contracted(u)
                if c is None:
                    und.append((u, e, "unknown reduction"))
                    continue
                d = None
                if "p" in c:
                    if u.op == "call" and fname(u.a[0]).rsplit(".", 1)[-1] in ("sum", "nansum", "mean"):
                        d = ax.deg(cargs(u)[0])
                    else:
                        d = ax.deg(u)
                out.append((u, e, c, d))
            except (NoAxes, IndexError, TypeError) as x:
                und.append((u, e, str(x)))
    return out, und
