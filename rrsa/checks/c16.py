"""C16: failed solves and empty data give the sentinel chi2."""
import ast
from ..q import *
from ..kern import *

HUGE = mk("global", "redrock.zscan.HUGE_CHI2")
ZEROW = ("numpy.sum", "cupy.sum")


def is_huge(ctx, t):
    t = strip(t)
    if t is HUGE:
        return True
    if is_call(t, "full", "full_like") and len(cargs(t)) >= 2:
        return is_huge(ctx, cargs(t)[1])
    if t.op == "bin" and t.a[0] in ("+", "*"):
        # zeros + HUGE, ones * HUGE
        hs = [x for x in t.a[1:] if is_huge(ctx, x)]
        rest = [x for x in t.a[1:] if not is_huge(ctx, x)]
        z = "zeros" if t.a[0] == "+" else "ones"
        return bool(hs) and all(is_call(strip(x), z, z + "_like") for x in rest)
    v = glob_const(ctx.prog, t)
    if isinstance(v, (int, float)) and not isinstance(v, bool) and v >= 9e6:
        return True
    if t.op == "store":
        k = t.a[1]
        if k.op == "slice" and all(x is NONE for x in k.a) or is_const(k, Ellipsis):
            return is_huge(ctx, t.a[2])
    return False


def is_zeros(t):
    t = strip(t)
    return is_call(t, "zeros", "zeros_like") or (t.op == "bin" and t.a[0] == "*" and any(is_const(x, 0) or is_const(x, 0.0) for x in t.a[1:]))


def zero_weight_lits(I):
    """literals that say 'this target has no weight'"""
    out = set()
    for e in I.effects:
        for g in flat_guards(e):
            for x in subterms(g):
                if x.op == "cmp" and x.a[0] in ("==", "!=", "<=", "<"):
                    op, l, r = x.a
                    sums = [y for y in (l, r) if strip(y).op == "call" and is_call(strip(y), "sum", "any", "max", "count_nonzero")
                            and (data_kind(cargs(strip(y))[0]) or (0,))[0] == "weights"]
                    zero = [y for y in (l, r) if y.op == "const" and y.a[0] in (0, 0.0)]
                    if sums and zero:
                        # truth value of x when no weight
                        v = {"==": True, "!=": False, "<=": True, "<": False}[op]
                        out.add((x, v))
                elif is_call(x, "any") and cargs(x):
                    y = strip(cargs(x)[0])
                    if (data_kind(y) or (0,))[0] == "weights" or (y.op == "cmp" and any((data_kind(z) or (0,))[0] == "weights" for z in y.a[1:])):
                        out.add((x, False))
    return out


def r_constant(ctx):
    m = ctx.prog.mods["redrock.zscan"]
    v = glob_const(ctx.prog, HUGE)
    ctx.ob("HUGE_CHI2", isinstance(v, (int, float)) and v >= 9e6, m.rel, "sentinel chi2 must be huge, is %r" % (v,))


def r_zero_weight_batch(ctx):
    I = batch_interp(ctx)
    zl = zero_weight_lits(I)
    w = effs(I, "return")[0]
    if not ctx.ob("calc_zchi2_batch/zero-weight-test", bool(zl), w, "no test for a target without any weight"):
        return
    r = strip(assume(I.ret, dict(zl)))
    if ctx.ob("calc_zchi2_batch/zero-weight-result", r.op == "tuple" and len(r.a) == 2, w, "result without weight is " + show(r)[:160]):
        ctx.ob("calc_zchi2_batch/zero-weight-chi2", is_huge(ctx, r.a[0]), w, "chi2 without weight must be the sentinel for every redshift, is " + show(r.a[0])[:160])
        ctx.ob("calc_zchi2_batch/zero-weight-coeff", is_zeros(r.a[1]), w, "coefficients without weight must be zero, are " + show(r.a[1])[:160])


def elem_value(t, idx):
    """value of t[idx] when t is a (chain of) store(s) over a loop variable"""
    return t


def r_solver_handlers(ctx):
    I = batch_interp(ctx)
    n = 0
    for e in calls(I, "solve_matrices"):
        if e.inlined:
            continue
        n += 1
        gpu = e.bound.get("use_gpu")
        iscpu = is_const(gpu, False) or not is_const(gpu, True)
        types = {x for tr in e.trys for ht in tr[1] for x in ht}
        need = ["NotImplementedError"] + (["LinAlgError"] if is_const(gpu, False) else [])
        for ty in need:
            ok = ty in types or "*" in types or "Exception" in types or "BaseException" in types
            ctx.ob("calc_zchi2_batch/handler-%s-%s" % (ty, "gpu" if is_const(gpu, True) else "cpu"), ok, e,
                   "solver call is not covered by a handler for %s" % ty)
    if n == 0:
        ctx.ob("calc_zchi2_batch/solver-call", False, "calc_zchi2_batch", "no call of solve_matrices found")
        return
    # every handler path stores the sentinel and leaves coefficients at zero
    zl = zero_weight_lits(I)
    nz = {k: not v for k, v in zl}
    exs = {x for e in I.effects for x in exc_guards(e)} | {x for x in subterms(I.ret) if x.op == "exc"}
    for use_gpu in (True, False):
        a = dict(nz)
        a[mk("param", ZS + "calc_zchi2_batch", "use_gpu")] = use_gpu
        for x in sorted(exs, key=lambda t: t.a[1]):
            b = dict(a)
            for y in exs:
                b[y] = y is x
            r = strip(assume(I.ret, b))
            base = strip(assume(I.ret, dict(list(a.items()) + [(y, False) for y in exs])))
            if r is base:
                continue        # handler not on this path
            w = [e for e in I.effects if x in exc_guards(e)]
            w = w[0] if w else effs(I, "return")[-1]
            nm = "calc_zchi2_batch/%s-%s" % ("gpu" if use_gpu else "cpu", x.a[1])
            if r.op != "tuple" or len(r.a) != 2:
                ctx.ob(nm + "/result", False, w, "result of a failed solve is " + show(r)[:160])
                continue
            ctx.ob(nm + "/chi2", fail_chi2(ctx, r.a[0]), w, "chi2 after a failed solve must be the sentinel, is " + show(r.a[0])[:200])
            ctx.ob(nm + "/coeff", fail_coeff(r.a[1]), w, "coefficients after a failed solve must stay zero, are " + show(r.a[1])[:200])


def fail_chi2(ctx, t):
    t = strip(t)
    if is_huge(ctx, t):
        return True
    if t.op == "loop":
        mu, v = t.a[0], strip(t.a[1])
        # one generic iteration: mu{i := HUGE}
        if v.op == "store" and is_huge(ctx, v.a[2]):
            k = v.a[1]
            ix = k.a[0] if k.op == "tuple" and k.a else k
            return contains(ix, lambda y: y.op == "idx") and (v.a[0] is mu or strip(v.a[0]) is mu)
        if v is mu or strip(v) is mu:
            return is_huge(ctx, mu.a[2]) if mu.op == "mu" else False
        if v.op == "app":
            return is_huge(ctx, v.a[1])
    if t.op == "comp":
        return is_huge(ctx, t.a[1])
    if t.op == "store" and is_huge(ctx, t.a[0]):
        return False
    return False


def fail_coeff(t):
    t = strip(t)
    if is_zeros(t):
        return True
    if t.op == "loop":
        mu, v = t.a[0], strip(t.a[1])
        if v is mu or strip(v) is mu:
            return is_zeros(mu.a[2]) if mu.op == "mu" else is_zeros(mu)
        if v.op == "store":
            return (v.a[0] is mu) and (is_zeros(v.a[2]) or is_const(v.a[2], 0, 0.0))
    if t.op == "mu":
        return is_zeros(t.a[2])
    if t.op == "comp":
        return is_zeros(t.a[1])
    return False


def r_one(ctx):
    q = ZS + "_zchi2_one"
    if q not in ctx.prog.funcs:
        ctx.ob("_zchi2_one", True, "zscan.py", "function no longer exists")
        return
    I = ctx.interp(q)
    for e in calls(I, "solve_matrices"):
        types = {x for tr in e.trys for ht in tr[1] for x in ht}
        for ty in ("NotImplementedError", "LinAlgError"):
            ctx.ob("_zchi2_one/handler-" + ty, ty in types or types & {"*", "Exception", "BaseException"}, e, "solver call not covered for " + ty)
    exs = {x for e in I.effects for x in exc_guards(e)}
    for x in sorted(exs, key=lambda t: t.a[1]):
        r = assume(I.ret, {y: y is x for y in exs})
        w = [e for e in I.effects if x in exc_guards(e)][0]
        ctx.ob("_zchi2_one/%s" % x.a[1], is_huge(ctx, r), w, "chi2 after a failed solve must be the sentinel, is " + show(r)[:160])


def r_scan(ctx):
    I = caller(ctx, ZS + "calc_zchi2")
    zl = zero_weight_lits(I)
    w = effs(I, "return")[-1]
    r = strip(I.ret)
    if not ctx.ob("calc_zchi2/result", r.op == "tuple" and len(r.a) == 3, w, "must return (zchi2, zcoeff, penalty)"):
        return
    # every chi2 stored is either the kernel's value or the sentinel; stored row stays zero in coeff
    good = kernel = False
    for e in effs(I, "setitem"):
        if base_array(e.base) is not base_array(r.a[0]):
            continue
        v = strip(e.value)
        if is_huge(ctx, v):
            good = True
            gs = {g for g in flat_guards(e)}
            k = e.key.a[0] if e.key.op == "tuple" else e.key
            whole = e.key.op != "tuple" or all(x.op == "slice" and all(y is NONE for y in x.a) for x in e.key.a[1:])
            ctx.ob("calc_zchi2/zero-weight-row", contains(k, lambda y: y.op == "idx") and whole, e, "sentinel must fill the whole row of this target")
        else:
            k = v
            ok = v.op == "sub" and is_call(strip(v.a[0]), "calc_zchi2_batch") and is_const(v.a[1], 0)
            kernel = kernel or ok
            ctx.ob("calc_zchi2/chi2-source", ok, e, "scan chi2 must come from the kernel or be the sentinel, is " + show(v)[:140])
    ctx.ob("calc_zchi2/kernel", kernel, w, "no kernel chi2 is stored")
    # the kernel itself handles zero weight, so an explicit branch is optional; if present it must store the sentinel
    if zl:
        ctx.ob("calc_zchi2/zero-weight-sentinel", good, w, "targets without weight are skipped without storing the sentinel")
        for e in effs(I, "setitem"):
            if base_array(e.base) is base_array(r.a[1]):
                gs = set(flat_guards(e))
                nz = all((x if not v else mknot(x)) in gs for x, v in zl)
                ctx.ob("calc_zchi2/coeff-only-with-weight", nz or is_zeros(e.value), e, "coefficients are written for a target without weight")
    for i, nm in ((0, "zchi2"), (1, "zcoeff"), (2, "penalty")):
        b = base_array(r.a[i])
        ctx.ob("calc_zchi2/%s-init" % nm, b is not None and (is_zeros(b) or (i == 0 and is_huge(ctx, b))), w, "array must start as zeros, starts as " + show(b or r.a[i])[:100])


def base_array(t):
    """the allocation an array value started from"""
    n = 0
    while n < 200:
        n += 1
        if t.op == "alloc":
            i = t.a[1]
            if i.op in ("store", "mu", "loop", "ite"):
                t = i
                continue
            return t
        if t.op in ("store", "app", "mut", "update", "extend"):
            t = t.a[1] if t.op == "mut" else t.a[0]
        elif t.op == "mu":
            t = t.a[2]
        elif t.op == "loop":
            t = t.a[0]
        elif t.op == "ite":
            t = t.a[1]
        else:
            return t
    return t


def r_solver(ctx):
    q = ZS + "solve_matrices"
    I = ctx.interp(q)
    f = ctx.prog.func(q)
    # unknown algorithm -> NotImplementedError
    rs = effs(I, "raise")
    ni = [e for e in rs if contains(e.value, lambda y: y.op == "ext" and y.a[0].endswith("NotImplementedError"))]
    ctx.ob("solve_matrices/not-implemented", bool(ni), ni[0] if ni else f.qual, "unknown algorithms must raise NotImplementedError")
    ctx.ob("solve_matrices/no-silent-none", not any(x is NONE for c, x in ites(strip(I.ret))), f.qual,
           "a path returns no solution without raising")
    # every solver call on the CPU raises LinAlgError on failure; on the GPU stores the sentinel
    n = 0
    g = mk("param", q, "use_gpu")
    for name, only in (("solve", None), ("nnls", None), ("lsq_linear", None)):
        for e in calls(I, name):
            if fname(e.fn).split(".")[0] not in ("numpy", "scipy", "cupy"):
                continue
            n += 1
            cpu = mknot(g) in flat_guards(e)
            for tr in e.trys:
                for i, ht in enumerate(tr[1]):
                    exs = [x for x in {y for z in I.effects for y in exc_guards(z)} if x.a[0] is tr[0] and x.a[1] == ",".join(ht)]
                    if not exs:
                        # handler without any effect
                        ctx.ob("solve_matrices/%s-%s-handler" % (name, "cpu" if cpu else "gpu"), False, e, "handler for %s does nothing" % (ht,))
                        continue
                    he = [z for z in I.effects if exs[0] in exc_guards(z)]
                    if cpu:
                        ok = any(z.kind == "raise" and (z.value is NONE or contains(z.value, lambda y: (y.op == "ext" and y.a[0].endswith(
                            ("LinAlgError", "NotImplementedError"))) or y.op == "excval")) for z in he)
                        msg = "a failed solve on the CPU must raise LinAlgError"
                    else:
                        ok = any(z.kind == "raise" for z in he) or any(z.kind == "setitem" and is_huge(ctx, z.value) for z in he)
                        msg = "a failed solve on the GPU path must leave the sentinel"
                    ctx.ob("solve_matrices/%s-%s-handler" % (name, "cpu" if cpu else "gpu"), ok, he[0], msg)
            if name == "nnls":
                types = {x for tr in e.trys for ht in tr[1] for x in ht}
                ctx.ob("solve_matrices/nnls-%s-covered" % ("cpu" if cpu else "gpu"), types & {"*", "Exception", "RuntimeError", "BaseException"}, e,
                       "nnls reports failure by RuntimeError, which must become LinAlgError/sentinel")
            if not cpu and name in ("nnls", "lsq_linear"):
                types = {x for tr in e.trys for ht in tr[1] for x in ht}
                ctx.ob("solve_matrices/%s-gpu-covered" % name, bool(types), e, "per-redshift solve on the GPU path is not covered by a handler")
    if n < 4:
        ctx.ob("solve_matrices/solvers", False, f.qual, "expected solver calls not found")
    # linear solve: no least-squares / pseudo-inverse fallback that would hide singular systems
    for e in calls(I, "lstsq", "pinv"):
        ctx.ob("solve_matrices/fallback", False, e, "a singular system is solved silently by %s" % fname(e.fn))


def r_refine(ctx):
    I = caller(ctx, "redrock.fitz.fitz")
    n = 0
    for e in calls(I, "calc_zchi2_batch"):
        n += 1
        types = {x for tr in e.trys for ht in tr[1] for x in ht}
        ctx.ob("fitz/kernel-chi2", True, e)
    for e in effs(I, "append"):
        d = strip(e.value)
        if d.op != "dict":
            continue
        for i in range(0, len(d.a), 2):
            if is_const(d.a[i], "chi2"):
                v = d.a[i + 1]
                bad = [x for c, x in ites(v) if x.op == "const" and isinstance(x.a[0], (int, float)) and x.a[0] >= 0 and x.a[0] < 9e6]
                ctx.ob("fitz/chi2-value", not bad, e, "a candidate can get a constant good chi2: " + show(v)[:100])
    # handlers in the refinement may not turn a failure into an unflagged fit
    for x in {y for z in I.effects for y in exc_guards(z)}:
        he = [z for z in I.effects if x in exc_guards(z)]
        ok = any(z.kind in ("raise",) for z in he) or any(z.kind == "aug" and z.op == "|" for z in he)
        ctx.ob("fitz/handler-%s" % x.a[1], ok, he[0], "a handler in the refinement neither raises nor flags the fit")
    if n == 0:
        ctx.ob("fitz/kernel-chi2", False, "fitz", "no kernel call in the refinement")


def run(ctx):
    ctx.rule("sentinel-constant", "the sentinel is a huge constant", r_constant)
    ctx.rule("zero-weight", "a target without weight gets the sentinel for all redshifts and zero coefficients", r_zero_weight_batch)
    ctx.rule("solver-failure", "each documented solver failure is caught and yields the sentinel and zero coefficients", r_solver_handlers)
    ctx.rule("one-redshift-kernel", "same for the single-redshift kernel", r_one)
    ctx.rule("scan", "the scan stores only kernel values or the sentinel", r_scan)
    ctx.rule("solver", "the solver raises on failure on the CPU and stores the sentinel on the GPU, and never hides a failure", r_solver)
    ctx.rule("refinement", "the refinement uses kernel chi2 and flags or re-raises failures", r_refine)
