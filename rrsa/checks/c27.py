"""C27: every command-line option reaches the computation it controls."""
from ..q import *
from ..logic import *
from ..ctx import Undecided, Stop
from .c31 import realguards

RD = "redrock.external.desi.rrdesi"
RB = "redrock.external.boss.rrboss"
WM = "bin.wrap-redrock.main"
WR = "bin.wrap-redrock.run_redrock"
WP = "bin.wrap-redrock.plan"
DECOR = ("print", "format", "flush", "info", "warning", "debug", "error", "critical", "log", "write")


class Opts(object):
    """options of one program"""
    def __init__(self, ctx, qual):
        self.qual = qual
        self.I = I = ctx.interp(qual)
        self.opt = {}
        self.flags = {}
        for e in I.effects:
            if e.kind == "call" and fname(e.fn).endswith((".add_argument", ".add_option")):
                names = [x.a[0] for x in cargs(e.result) if is_const(x) and isinstance(x.a[0], str)]
                if len(names) != len(cargs(e.result)) or not names:
                    raise Undecided("option names of " + qual)
                k = {x.a[0]: x.a[1] for x in e.result.a[1:] if x.op == "kw"}
                dest = k.get("dest")
                if dest is not None and not is_const(dest):
                    raise Undecided("dest of " + names[0])
                long_ = [n for n in names if n.startswith("--")]
                d = dest.a[0] if dest is not None else (long_ or names)[0].lstrip("-").replace("-", "_")
                self.opt[d] = k
                for n in names:
                    self.flags[n] = d
        if not self.opt:
            raise Undecided("no options in " + qual)
        self.args = None
        for e in I.effects:
            for x in I.effects and subterms(e.result) if e.kind == "call" else ():
                if x.op == "attr" and x.a[1] in self.opt and contains(x.a[0], lambda y: y.op == "call" and fname(y.a[0]).endswith("parse_args")) \
                        and (x.a[0].op == "ite" or x.a[0].op == "sub" and x.a[0].a[1] is const(0) or x.a[0].op == "call" and fname(x.a[0].a[0]).endswith("parse_args")):
                    self.args = x.a[0]
                    break
            if self.args is not None:
                break
        if self.args is None:
            raise Undecided("options of %s are never read" % qual)

    def get(self, name):
        return mk("attr", self.args, name)

    def name(self, t):
        return t.a[1] if t.op == "attr" and t.a[0] is self.args else None

    def names(self, t):
        return {x.a[1] for x in subterms(t) if x.op == "attr" and x.a[0] is self.args}

    def isflag(self, d):
        a = self.opt[d].get("action")
        return a is not None and is_const(a, "store_true", "store_false")


def isnone(t):
    return mkcmp_none(t)


def mkcmp_none(t):
    from ..terms import mkcmp
    return mkcmp("is", t, NONE)


def scen(o, unset=(), given=(), true=(), false=(), extra=()):
    pre = []
    for d in unset:
        pre += [isnone(o.get(d)), mknot(o.get(d))]
    for d in given:
        pre += [mknot(isnone(o.get(d))), o.get(d)]
    for d in true:
        pre += [o.get(d), mknot(isnone(o.get(d)))]
    for d in false:
        pre += [mknot(o.get(d)), mknot(isnone(o.get(d)))]
    return pre + list(extra)


PROGS = ["bin.%s.<body>" % x for x in ("rrplot", "rrgaltemplate", "rrqsotemplate", "rrstartemplate", "rrstarwdtemplate")] + ["bin.rrconvertSDSStemplates.convert"]


def progname(q):
    p = q.split(".")
    return p[1] if p[0] == "bin" and p[1] != "wrap-redrock" else p[-1]


# ------------------------------------------------------------------ 1, 2: every option is defined and used
def r_known(ctx, qs=(RD, RB, WM)):
    for q in qs:
        o = Opts(ctx, q)
        seen = {}
        for e in o.I.effects:
            if e.kind == "call" and fname(e.fn).endswith(("add_argument", "add_option")):
                continue
            ts = [e.result] if e.kind == "call" else [v for v in e.d.values() if isinstance(v, T)]
            for t in ts + [g for g, k in e.guards]:
                for n in o.names(t):
                    seen.setdefault(n, e)
        for n, e in sorted(seen.items()):
            if n.startswith("__"):
                continue
            ctx.ob("known/%s/%s" % (progname(q), n), n in o.opt, e, "reads the option %s that is not defined" % n)


def decor(e):
    n = fname(e.fn).rsplit(".", 1)[-1]
    return n in DECOR or n.startswith("log") and n not in ("log10", "log2", "log1p")


def r_used(ctx, qs=(RD, RB, WM)):
    for q in qs:
        o = Opts(ctx, q)
        used = set()
        unk = False
        for e in o.I.effects:
            if e.kind == "call" and (decor(e) or fname(e.fn).endswith(("add_argument", "add_option"))):
                continue
            ts = [e.result] if e.kind == "call" else [v for v in e.d.values() if isinstance(v, T)]
            for t in ts:
                # the whole options object is handed on
                if e.kind == "call":
                    for x in e.result.a[1:]:
                        v = strip(x.a[1] if x.op == "kw" else x)
                        if v is o.args or is_call(v, "vars") or v.op == "attr" and v.a[1] == "__dict__":
                            unk = True
                used |= o.names(t)
            if e.kind in ("call", "raise", "setitem", "setattr"):
                for g, k in e.guards:
                    if g.op != "exc":
                        used |= o.names(g)
        if q == WM:
            # the options object is handed to plan and run_redrock
            for f in (WP, WR):
                J = ctx.interp(f)
                p = mk("param", f, "args")
                for e in J.effects:
                    ts = [e.result] if e.kind == "call" and not decor(e) else []
                    ts += [g for g, k in e.guards] if e.kind == "call" and not decor(e) or e.kind == "raise" else []
                    for t in ts:
                        used |= {x.a[1] for x in subterms(t) if x.op == "attr" and x.a[0] is p}
            unk = False
        for d in sorted(o.opt):
            c = "used/%s/%s" % (progname(q), d)
            if d in used:
                ctx.ob(c, True, "")
            elif unk:
                ctx.undecided.append((ctx.cur, c))
            else:
                ctx.ob(c, False, o.I.effects[0], "the option %s is accepted but has no effect" % d)


# ------------------------------------------------------------------ 3: sinks
def kind(o, t):
    """('opt', name) | ('not', name) | ('const', v) | None"""
    t = strip(t)
    n = o.name(t)
    if n:
        return ("opt", n)
    if t.op == "not" and o.name(strip(t.a[0])):
        return ("not", o.name(strip(t.a[0])))
    if is_const(t):
        return ("const", t.a[0])
    if t is NONE:
        return ("const", None)
    if t.op == "call" and fname(t.a[0]) in ("builtins.abs", "numpy.abs", "numpy.absolute", "builtins.bool") and len(cargs(t)) == 1:
        return kind(o, cargs(t)[0])
    if is_call(t, "loop") or t.op in ("loop", "mu"):
        return None
    return None


def compare(ctx, o, c, e, t, want, pre, what):
    """t under pre must be the option (or constant) want"""
    v = resolve(t, pre)
    if want[0] == "opt":
        for x in subterms(v):
            if is_call(x, "builtins.int", "builtins.round", "numpy.floor", "numpy.rint", "numpy.round") and cargs(x) and o.name(strip(cargs(x)[0])):
                ty = o.opt[o.name(strip(cargs(x)[0]))].get("type")
                if ty is not None and fname(ty) in ("builtins.float", "numpy.float64"):
                    return ctx.ob(c, False, e, "%s: the fraction of --%s is dropped" % (what, o.name(strip(cargs(x)[0])).replace("_", "-")))
    k = kind(o, v)
    if k is None:
        # a gated value that stays gated: every alternative must agree
        alts = []
        for cs, x in ites(strip(v)):
            kx = kind(o, x)
            s = sat(list(pre) + cs)
            if s is False:
                continue
            alts.append((kx, s, cs))
        if len(alts) > 1 and all(a[0] == want for a in alts):
            return ctx.ob(c, True, e)
        bad = [a for a in alts if a[0] is not None and a[0] != want and a[1] and
               all(o.names(z) and not z_other(o, z) for z in a[2])]
        if bad and len(alts) > 1:
            return ctx.ob(c, False, e, "%s: is %s if %s, instead of %s" % (what, showk(bad[0][0]), " & ".join(show(z)[-40:] for z in bad[0][2]), showk(want)))
        if want[0] in ("const", "opt") and len(o.names(v)) == 1:
            n = list(o.names(v))[0]
            for x in (1, 2, 7, 1.5):
                r = fold(o, v, {n: x})
                if r is not None and r[0] != (want[1] if want[0] == "const" else x):
                    return ctx.ob(c, False, e, "%s: is %s if --%s is %s, instead of %s" % (what, r[0], n.replace("_", "-"), x, showk(want)))
        ctx.undecided.append((ctx.cur, c + ": " + show(v)[-80:]))
        return None
    return ctx.ob(c, k == want, e, "%s: is %s instead of %s" % (what, showk(k), showk(want)))


FOLD = {"builtins.max": max, "builtins.min": min, "numpy.maximum": max, "numpy.minimum": min, "builtins.abs": abs, "builtins.int": int,
        "builtins.float": float, "builtins.bool": bool}


def fold(o, t, env):
    """constant folding of arithmetic on one option: (value,), None if unknown"""
    t = strip(t, methods=())
    if is_const(t):
        return (t.a[0],)
    n = o.name(t)
    if n:
        return (env[n],) if n in env else None
    xs = None
    if t.op == "call" and fname(t.a[0]) in FOLD and not any(x.op == "kw" for x in t.a[1:]):
        xs = [fold(o, x, env) for x in cargs(t)]
        f = FOLD[fname(t.a[0])]
    elif t.op == "bin" and t.a[0] in "+-*" and len(t.a[0]) == 1:
        import functools
        import operator
        op = {"+": operator.add, "-": operator.sub, "*": operator.mul}[t.a[0]]
        xs = [fold(o, x, env) for x in t.a[1:]]
        f = lambda *a: functools.reduce(op, a)
    elif t.op == "un" and t.a[0] == "-":
        xs = [fold(o, t.a[1], env)]
        f = lambda a: -a
    if xs is None or None in xs or not xs:
        return None
    try:
        return (f(*[x[0] for x in xs]),)
    except Exception:
        return None


def z_other(o, z):
    """z depends on more than the options"""
    return contains(z, lambda y: y.op in ("call", "param", "sub", "idx", "mu", "loop") and not contains(o.args, lambda w: w is y))


def showk(k):
    return {"opt": "--%s", "not": "not --%s", "const": "%r"}[k[0]] % (k[1].replace("_", "-") if k[0] != "const" else k[1],)


def sink(o, *names):
    out = []
    for e in o.I.effects:
        if e.kind == "call" and any(fname(e.fn) == n or fname(e.fn).endswith("." + n) for n in names):
            out.append(e)
    return out


def arg(e, name):
    t = e.result
    return ckw(t.a[1] if t.op == "alloc" else t, name)


# program, callee, parameter, [(scenario dict, expected)]
S = dict
RDESI = [
    ("DistTargetsDESI", "spectrafiles", [(S(), ("opt", "infiles"))]),
    ("DistTargetsDESI", "coadd", [(S(true=["allspec"]), ("const", False)), (S(false=["allspec"]), ("const", True))]),
    ("DistTargetsDESI", "first_target", [(S(given=["mintarget"]), ("opt", "mintarget"))]),
    ("DistTargetsDESI", "n_target", [(S(given=["ntargets"]), ("opt", "ntargets")), (S(unset=["ntargets"]), ("none", "ntargets"))]),
    ("DistTargetsDESI", "targetids", [(S(unset=["targetids"]), ("const", None))]),
    ("DistTargetsDESI", "cosmics_nsig", [(S(), ("opt", "cosmics_nsig"))]),
    ("DistTargetsDESI", "negflux_nsig", [(S(), ("opt", "negflux_nsig"))]),
    ("load_dist_templates", "zscan_galaxy", [(S(), ("opt", "zscan_galaxy"))]),
    ("load_dist_templates", "zscan_qso", [(S(), ("opt", "zscan_qso"))]),
    ("load_dist_templates", "zscan_star", [(S(), ("opt", "zscan_star"))]),
    ("load_dist_templates", "gpu_mode", [(S(true=["gpu"]), ("const", True)), (S(false=["gpu"]), ("const", False))]),
    ("load_dist_templates", "templates", [(S(unset=["templates"]), ("none", "templates"))]),
    ("zfind", "nminima", [(S(given=["nminima"]), ("opt", "nminima")), (S(unset=["nminima", "archetypes"]), ("const", 3)),
                          (S(unset=["nminima"], given=["archetypes"]), ("const", 9))]),
    ("zfind", "archetypes", [(S(unset=["archetypes"]), ("none", "archetypes"))]),
    ("zfind", "priors", [(S(given=["priors"]), ("opt", "priors")), (S(unset=["priors"]), ("none", "priors"))]),
    ("zfind", "chi2_scan", [(S(given=["chi2_scan"]), ("opt", "chi2_scan")), (S(unset=["chi2_scan"]), ("none", "chi2_scan"))]),
    ("zfind", "zminfit_npoints", [(S(), ("opt", "zminfit_npoints"))]),
    ("zfind", "n_nearest", [(S(given=["archetypes", "archetype_nnearest"]), ("opt", "archetype_nnearest")),
                            (S(given=["archetypes"], unset=["archetype_nnearest"]), ("none", "archetype_nnearest"))]),
    ("zfind", "deg_legendre", [(S(given=["archetypes"], false=["archetypes_no_legendre"]), ("opt", "archetype_legendre_degree")),
                               (S(given=["archetypes"], true=["archetypes_no_legendre"]), ("const", 0))]),
    ("zfind", "prior_sigma", [(S(given=["archetypes"], true=["archetypes_no_legendre"]), ("const", None)),
                              (S(given=["archetypes"], false=["archetypes_no_legendre"], pos=["archetype_legendre_prior"]), ("opt", "archetype_legendre_prior")),
                              (S(given=["archetypes"], false=["archetypes_no_legendre"], neg=["archetype_legendre_prior"]), ("const", None))]),
    ("zfind", "per_camera", [(S(given=["archetypes"], true=["archetypes_no_legendre"]), ("const", False))]),
    ("write_zscan", "filename", [(S(given=["details"]), ("opt", "details"))]),
    ("write_zbest", "outfile", [(S(given=["outfile"]), ("opt", "outfile"))]),
    ("write_bestmodel", "outfile", [(S(given=["model"]), ("opt", "model"))]),
    ("All_archetypes", "archetypes_dir", [(S(given=["archetypes"]), ("opt", "archetypes"))]),
]
RBOSS = [
    ("read_spectra", "spplates_name", [(S(), ("opt", "spplate"))]),
    ("read_spectra", "targetids", [(S(unset=["targetids"]), ("const", None))]),
    ("read_spectra", "use_frames", [(S(true=["use_frames"]), ("const", True)), (S(false=["use_frames"]), ("const", False))]),
    ("read_spectra", "coadd", [(S(true=["allspec"]), ("const", False)), (S(false=["allspec"]), ("const", True))]),
    ("read_spectra", "use_andmask", [(S(true=["use_andmask"]), ("const", True)), (S(false=["use_andmask"]), ("const", False))]),
    ("load_dist_templates", "templates", [(S(given=["templates"]), ("opt", "templates")), (S(unset=["templates"]), ("none", "templates"))]),
    ("zfind", "nminima", [(S(), ("opt", "nminima"))]),
    ("zfind", "archetypes", [(S(unset=["archetypes"]), ("none", "archetypes"))]),
    ("zfind", "priors", [(S(given=["priors"]), ("opt", "priors")), (S(unset=["priors"]), ("none", "priors"))]),
    ("zfind", "chi2_scan", [(S(given=["chi2_scan"]), ("opt", "chi2_scan")), (S(unset=["chi2_scan"]), ("none", "chi2_scan"))]),
    ("write_zscan", "filename", [(S(given=["output"]), ("opt", "output"))]),
    ("write_zbest", "outfile", [(S(given=["zbest"]), ("opt", "zbest"))]),
    ("All_archetypes", "archetypes_dir", [(S(given=["archetypes"]), ("opt", "archetypes"))]),
]


RPLOT = [
    ("read_spectra", "spplates_name", [(S(), ("opt", "specfile"))]),
    ("read_spectra", "targetids", [(S(unset=["targetids"]), ("const", None))]),
    ("DistTargetsDESI", "targetids", [(S(unset=["targetids"]), ("const", None))]),
    ("read_spectra", "coadd", [(S(true=["allspec"]), ("const", False)), (S(false=["allspec"]), ("const", True))]),
    ("DistTargetsDESI", "coadd", [(S(true=["allspec"]), ("const", False)), (S(false=["allspec"]), ("const", True))]),
    ("find_templates", "template_path", [(S(), ("opt", "templates"))]),
    ("read_zscan", "filename", [(S(), ("opt", "rrfile"))]),
    ("All_archetypes", "archetypes_dir", [(S(true=["use_archetype"]), ("opt", "archetypes"))]),
]


def r_several(ctx, qs):
    """an element of a list option may be taken only where the list has one element or the others are taken too"""
    for q in qs:
        o = Opts(ctx, q)
        for d, k in sorted(o.opt.items()):
            if not is_const(k.get("nargs") or NONE, "*", "+"):
                continue
            t = o.get(d)
            one = mkcmp_len(t)
            n = 0
            for e in o.I.effects:
                if e.kind != "call" or decor(e) or fname(e.fn).endswith(("add_argument", "add_option")):
                    continue
                for x in (e.result.a[1] if e.result.op == "alloc" else e.result).a[1:]:
                    x = x.a[1] if x.op == "kw" else x
                    if x.op == "star":
                        x = x.a[0]
                    for cs, v in ites(strip(x)):
                        v = strip(v)
                        if not contains(v, lambda y: y is t):
                            continue
                        n += 1
                        if v.op == "sub" and strip(v.a[0]) is t and is_const(v.a[1]):
                            r = implies([g for g, kk in e.guards if g.op != "exc"] + cs, one)
                            if r is None:
                                ctx.undecided.append((ctx.cur, "values of " + d))
                            else:
                                ctx.ob("several/%s/%s" % (progname(q), d), r, e, "only one of the values of --%s is used by %s" % (d, fname(e.fn).rsplit(".", 1)[-1]))
                        else:
                            ctx.ob("several/%s/%s" % (progname(q), d), True, e)
            if not n:
                ctx.undecided.append((ctx.cur, "no use of " + d))


def bools(o, t, pre):
    """resolve, with boolean options replaced by their value under pre"""
    v = resolve(t, pre)
    m = {x.id: x for x in pre}

    def f(x):
        if o.name(x) and o.isflag(x.a[1]):
            if x.id in m:
                return TRUE
            if mknot(x).id in m:
                return FALSE
        return x
    v = rewrite(v, f)
    if v.op == "not" and is_const(v.a[0]):
        v = const(not v.a[0].a[0])
    return v


def r_sinks(ctx, qual, table):
    from ..terms import mkcmp
    o = Opts(ctx, qual)
    for fn, p, cases_ in table:
        es = sink(o, fn)
        if not es:
            ctx.undecided.append((ctx.cur, "no call of " + fn))
            continue
        for e in es:
            t = arg(e, p)
            if t is None:
                ctx.undecided.append((ctx.cur, "%s of %s" % (p, fn)))
                continue
            for s, want in cases_:
                s = dict(s)
                pos, neg = s.pop("pos", ()), s.pop("neg", ())
                pre = scen(o, **s)
                for d in pos:
                    pre += [mkcmp("<", const(0), o.get(d)), mknot(isnone(o.get(d))), o.get(d)]
                for d in neg:
                    pre += [mkcmp("<", o.get(d), const(0)), mknot(isnone(o.get(d))), o.get(d)]
                miss = [d for ds in list(s.values()) + [pos, neg] for d in ds if d not in o.opt] + ([want[1]] if want[0] in ("opt", "none") and want[1] not in o.opt else [])
                if miss:
                    ctx.undecided.append((ctx.cur, "option %s is gone" % miss[0]))
                    continue
                # only calls made under the scenario
                live = sat(pre + [g for g in realguards(e) if o.names(g)])
                if live is False:
                    continue
                c = "%s/%s.%s/%s" % (qual.rsplit(".", 1)[-1], fn, p, ",".join("%s=%s" % (k, "+".join(v)) for k, v in s.items()) or "any")
                v = bools(o, t, pre)
                if want[0] == "none":
                    # the option itself or None: both are None here
                    k = kind(o, v)
                    if k == ("opt", want[1]) or k == ("const", None):
                        ctx.ob(c, True, e)
                        continue
                    want = ("const", None)
                compare(ctx, o, c, e, v, want, pre, "%s of %s" % (p, fn))


def r_special(ctx):
    """options that reach the computation in converted form"""
    o = Opts(ctx, RD)
    for q, fn in ((RD, "DistTargetsDESI"), (RB, "read_spectra"), (PROGS[0], "DistTargetsDESI"), (PROGS[0], "read_spectra")):
        p = Opts(ctx, q)
        for e in sink(p, fn):
            t = arg(e, "targetids")
            if t is None:
                continue
            v = strip(resolve(t, scen(p, given=["targetids"])))
            c = "targetids/%s/%s" % (progname(q), fn)
            if v.op == "comp":
                if not p.names(v.a[3]):
                    ctx.ob(c, False, e, "the target IDs do not come from --targetids")
                    continue
                el = v.a[1]
                ctx.ob(c + "/int", is_call(el, "int", "int64") or contains(v, lambda x: is_call(x, "int", "int64") or x.op == "ext" and x.a[0] == "builtins.int"), e,
                       "target IDs are not converted to integers")
                ctx.ob(c + "/exact", not contains(el, lambda x: is_call(x, "builtins.float", "numpy.float64", "numpy.float32", "numpy.int32", "numpy.int16")), e,
                       "64-bit target IDs do not survive the conversion " + show(el)[-60:])
                ctx.ob(c + "/all", v.a[2] is TRUE, e, "target IDs are dropped: " + show(v.a[2])[:60])
            elif p.name(v) == "targetids" or is_call(v, "split") and v.a[0].op == "attr" and p.name(strip(v.a[0].a[0])) == "targetids":
                ctx.ob(c + "/list", False, e, "the option string is used without being split into integers")
            elif kind(p, v):
                ctx.ob(c, False, e, "--targetids is ignored")
            else:
                ctx.undecided.append((ctx.cur, c))
    # every input file
    for q, fn, p_, opt in ((RD, "DistTargetsDESI", "spectrafiles", "infiles"), (RB, "read_spectra", "spplates_name", "spplate")):
        p = Opts(ctx, q)
        for e in sink(p, fn):
            t = arg(e, p_)
            for cs, v in ites(strip(t)) if t is not None else ():
                v = strip(v)
                if v.op == "sub" and contains(v.a[0], lambda x: p.name(x) == opt):
                    full = v.a[1].op == "slice" and all(x is NONE for x in v.a[1].a[:2])
                    ctx.ob("inputs/%s/all" % progname(q), full, e, "only some of the input files are read: " + show(v.a[1])[:40])
    # first_target without --mintarget
    for e in sink(o, "DistTargetsDESI"):
        if arg(e, "first_target") is None:
            ctx.ob("first-target/given", False, e, "--mintarget is not passed on")
            continue
        v = resolve(arg(e, "first_target"), scen(o, unset=["mintarget"]))
        for cs, x in ites(strip(v)):
            k = kind(o, x)
            if k is None:
                ctx.undecided.append((ctx.cur, "first target"))
            else:
                ctx.ob("first-target/default", k in (("const", None), ("const", 0), ("opt", "mintarget")), e, "without --mintarget the first target is %s" % showk(k))
    # archetypes and templates objects
    for q in (RD, RB):
        p = Opts(ctx, q)
        for e in sink(p, "zfind"):
            v = strip(resolve(arg(e, "archetypes"), scen(p, given=["archetypes"])))
            if contains(v, lambda x: is_call(x, "All_archetypes")):
                ctx.ob("archetypes/" + q, True, e)
            elif kind(p, v):
                ctx.ob("archetypes/" + q, False, e, "the archetypes given are not used in the fits: " + showk(kind(p, v)))
            else:
                ctx.undecided.append((ctx.cur, "archetypes"))
            t = arg(e, "templates")
            if contains(t, lambda x: is_call(x, "load_dist_templates", "load_templates")):
                ctx.ob("templates/" + q, True, e)
        # number of processes
        for e in sink(p, "zfind"):
            t = arg(e, "mp_procs")
            g = [x for x in subterms(t) if is_call(x, "get_mp")]
            names = set()
            for x in g:
                names |= p.names(ckw(x, "requested", 0, const(0)))
            if not g:
                ctx.undecided.append((ctx.cur, "number of processes"))
            else:
                ctx.ob("processes/" + q, "mp" in names, e, "--mp does not reach the fits")
    # --ncpu and --mp
    for e in sink(o, "get_mp"):
        t = arg(e, "requested")
        if t is None:
            continue
        compare(ctx, o, "ncpu/given", e, t, ("opt", "ncpu"), scen(o, given=["ncpu"]), "number of processes")
        compare(ctx, o, "ncpu/unset", e, t, ("opt", "mp"), scen(o, unset=["ncpu"]), "number of processes")
    # templates: one name is passed as such, several as list
    for e in sink(o, "load_dist_templates"):
        t = arg(e, "templates")
        v = resolve(t, scen(o, given=["templates"]))
        for cs, x in ites(strip(v)):
            x = strip(x)
            if o.name(x):
                ctx.ob("templates/given", o.name(x) == "templates", e, "templates come from --" + o.name(x))
            elif x.op == "sub" and o.name(strip(x.a[0])):
                ctx.ob("templates/given", o.name(strip(x.a[0])) == "templates", e, "templates come from --" + o.name(strip(x.a[0])))
                one = mkcmp_len(o.get("templates"))
                r = implies(scen(o, given=["templates"]) + cs, one)
                if r is not None:
                    ctx.ob("templates/all", r, e, "only the first of several templates is used")
            elif is_const(x):
                ctx.ob("templates/given", False, e, "--templates is ignored")
            else:
                ctx.undecided.append((ctx.cur, "templates"))
    # per-camera fits
    from ..terms import mkcmp
    for e in sink(o, "zfind"):
        t = arg(e, "per_camera")
        nc = arg(e, "ncamera")
        PC = o.get("archetype_legendre_percamera") if "archetype_legendre_percamera" in o.opt else None
        if t is None or nc is None or PC is None:
            continue
        wave = [x for x in subterms(nc) if is_call(x, "wavegrids")]
        ctx.ob("ncamera", bool(wave), e, "the number of cameras is not that of the data") if wave or kind(o, nc) else ctx.undecided.append((ctx.cur, "ncamera"))
        base = scen(o, given=["archetypes"], false=["archetypes_no_legendre"])
        val = lambda s: [mkcmp("==", PC, const(s)), mknot(isnone(PC))] + [mknot(mkcmp("==", PC, const(x))) for x in ("True", "False") if x != s] + [PC]
        many, few = mkcmp("<", const(1), nc), mkcmp("<=", nc, const(1))
        for nm, pre, want in (("True", base + val("True") + [many], True), ("False", base + val("False") + [many], False),
                              ("default/one-camera", base + scen(o, unset=["archetype_legendre_percamera"]) + [few], False),
                              ("default/cameras", base + scen(o, unset=["archetype_legendre_percamera"]) + [many], True)):
            v = resolve(rewrite(t, lambda x: cargs(x)[0] if is_call(x, "builtins.bool") and len(cargs(x)) == 1 else x), pre)
            a, b = implies(pre, v), implies(pre, mknot(v))
            if a is True or b is True:
                ctx.ob("per-camera/" + nm, (a is True) == want, e, "--archetype-legendre-percamera %s gives per-camera fits: %s" % (nm, a is True))
            else:
                ctx.undecided.append((ctx.cur, "per-camera/" + nm + " " + show(v)[-60:]))
    for e in sink(o, "eval_models"):
        t = arg(e, "nleg")
        if t is None:
            continue
        compare(ctx, o, "model/legendre", e, t, ("opt", "archetype_legendre_degree"), scen(o, given=["archetypes"], false=["archetypes_no_legendre"]), "degree of the model")
        compare(ctx, o, "model/no-legendre", e, bools(o, t, scen(o, given=["archetypes"], true=["archetypes_no_legendre"])), ("const", 0),
                scen(o, given=["archetypes"], true=["archetypes_no_legendre"]), "degree of the model")


def mkcmp_len(t):
    from ..terms import mkcmp
    return mkcmp("==", mk("call", ext("builtins.len"), t), const(1))


# ------------------------------------------------------------------ BOSS target selection
def r_slice(ctx):
    from ..terms import mkcmp
    o = Opts(ctx, RB)
    es = sink(o, "DistTargetsCopy")
    if not es:
        raise Undecided("DistTargetsCopy")
    for e in es:
        t = arg(e, "targets")
        for nm, pre in (("none", scen(o, unset=["mintarget", "ntargets"])),
                        ("mintarget", scen(o, given=["mintarget"], unset=["ntargets"])),
                        ("ntargets", scen(o, given=["ntargets"], unset=["mintarget"])),
                        ("both", scen(o, given=["ntargets", "mintarget"]))):
            v = strip(resolve(t, pre))
            a, n = o.get("mintarget"), o.get("ntargets")
            if v.op == "sub" and v.a[1].op == "slice" and contains(v.a[0], lambda x: is_call(x, "read_spectra")) and v.a[0].op != "ite":
                lo, hi, st = (list(v.a[1].a) + [NONE] * 3)[:3]
                lo = const(0) if lo is NONE else lo
                wl = a if "mintarget" in nm or nm == "both" else const(0)
                wh = None if nm in ("none", "mintarget") else mk("bin", "+", wl, n) if wl is a else n
                full = mk("call", ext("builtins.len"), v.a[0])
                c = "slice/" + nm
                r = [peq(lo, wl)]
                if wh is None:
                    r.append(hi is NONE or contains(hi, lambda x: is_call(x, "len")))
                else:
                    hs = [y for cs, y in ites(hi)]
                    if is_call(hi, "min", "minimum"):
                        hs = [y for y in cargs(hi) if o.names(y)]
                    if any(contains(y, lambda x: x.op in ("call", "mu", "loop") and not contains(o.args, lambda w: w is x)) for y in hs):
                        ctx.undecided.append((ctx.cur, c))
                        continue
                    r.append(all(peq(wh, NONEZERO(y)) for y in hs) and bool(hs))
                r.append(st is NONE or is_const(st, 1))
                ctx.ob(c, all(r), e, "targets %s instead of [%s:%s]" % (show(v.a[1]), show(wl)[-30:], "" if wh is None else show(wh)[-40:]))
            elif is_call(v, "read_spectra") or v.op == "sub" and is_const(v.a[1]) and is_call(strip(v.a[0]), "read_spectra"):
                ctx.ob("slice/" + nm, nm == "none", e, "%s given but all targets are used" % nm)
            else:
                ctx.undecided.append((ctx.cur, "slice/%s: %s" % (nm, show(v)[-60:])))


def NONEZERO(t):
    return const(0) if t is NONE else t


# ------------------------------------------------------------------ 4: an output option always produces its file
def r_outputs(ctx):
    for q, outs in ((RD, (("details", "write_zscan"), ("outfile", "write_zbest"), ("model", "write_bestmodel"))),
                    (RB, (("output", "write_zscan"), ("zbest", "write_zbest")))):
        o = Opts(ctx, q)
        comm = mk("param", q, "comm")
        for d, fn in outs:
            es = sink(o, fn)
            if not es:
                ctx.ob("outputs/" + d, False, o.I.effects[0], "nothing is written for --" + d)
                continue
            rest = [x for x in ("targetids", "archetypes", "model", "priors", "chi2_scan", "mintarget", "ntargets", "templates", "max_gpuprocs", "ncpu") if x in o.opt and x != d]
            others = [x for x, _ in outs if x != d and x in o.opt]
            pre0 = [isnone(comm)] + scen(o, given=[d], unset=sorted(set(rest + others) - {d}), false=[x for x in o.opt if o.isflag(x)])
            best = None
            for e in es:
                ok = True
                for g in realguards(e):
                    if not o.names(g) and not contains(g, lambda x: x is comm):
                        continue
                    g = resolve(g, pre0)
                    r = implies(pre0, g)
                    if r is None:
                        ok = None
                    elif r is False:
                        if implies(pre0, mknot(g)) is True or not z_other(o, g):
                            ok = (False, g)
                            break
                        ok = None
                if ok is True:
                    best = True
                    break
                best = ok if best is None or ok is None else best
            if best is None:
                ctx.undecided.append((ctx.cur, d))
            elif best is True:
                ctx.ob("outputs/%s/%s" % (q.rsplit(".", 1)[-1], d), True, es[0])
            else:
                ctx.ob("outputs/%s/%s" % (q.rsplit(".", 1)[-1], d), False, es[0], "--%s alone writes nothing: needs %s" % (d, show(best[1])[-80:]))


# ------------------------------------------------------------------ 5: library
def r_zscan(ctx):
    """the redshift ranges reach the template of their own class"""
    LD, LT = "redrock.templates.load_dist_templates", "redrock.templates.load_templates"
    for q, callee in ((LD, LT), (LT, "redrock.templates.Template")):
        I = ctx.interp(q)
        for e in calls(I, callee.split(".", 1)[1], callee):
            for y in ("zscan_galaxy", "zscan_qso", "zscan_star"):
                v = arg(e, y)
                p = mk("param", q, y)
                if v is None or v is NONE:
                    ctx.ob("forward/%s/%s" % (q.rsplit(".", 1)[-1], y), False, e, "%s is not passed on" % y)
                elif strip(v) is p:
                    ctx.ob("forward/%s/%s" % (q.rsplit(".", 1)[-1], y), True, e)
                elif strip(v).op == "param":
                    ctx.ob("forward/%s/%s" % (q.rsplit(".", 1)[-1], y), False, e, "%s is passed as %s" % (show(v), y))
                else:
                    ctx.undecided.append((ctx.cur, y))
    Q = "redrock.templates.Template.__init__"
    I = ctx.interp(Q)
    n = 0
    for e in I.effects:
        if not (e.kind == "setattr" and e.d.get("attr") == "_redshifts"):
            continue
        for cs, v in ites(e.value):
            ys = {x.a[1] for x in subterms(v) if x.op == "param" and x.a[1] in ("zscan_galaxy", "zscan_qso", "zscan_star")}
            conds = list(cs) + list(flat_guards(e))
            cl = set()
            for g in conds:
                if g.op == "cmp" and g.a[0] == "==":
                    for x in g.a[1:]:
                        if is_const(x, "GALAXY", "QSO", "STAR"):
                            cl.add(x.a[0].lower())
            if not ys:
                # default ranges: only where the option is not given
                continue
            if len(ys) > 1:
                ctx.ob("class/one", False, e, "mixes the ranges " + ", ".join(sorted(ys)))
                continue
            y = ys.pop()
            n += 1
            if len(cl) == 1:
                ctx.ob("class/" + y, y == "zscan_" + list(cl)[0], e, "%s is used for %s templates" % (y, list(cl)[0].upper()))
            else:
                ctx.undecided.append((ctx.cur, "class of " + y))
            rng = [x for x in subterms(v) if is_call(x, "numpy.arange", "numpy.linspace", "numpy.logspace")]
            for r in rng:
                if not is_call(r, "numpy.arange"):
                    ctx.undecided.append((ctx.cur, "grid"))
                    continue
                for k, x in enumerate(cargs(r)[:3]):
                    ks = {z.a[1].a[0] for z in subterms(x) if z.op == "sub" and is_const(z.a[1]) and isinstance(z.a[1].a[0], int)
                          and contains(z.a[0], lambda w: w.op == "param" and w.a[1] == y)}
                    if ks:
                        ctx.ob("grid/%s/%d" % (y, k), ks == {k}, e, "field %s of %s is used as %s" % (sorted(ks), y, ("start", "end", "step")[k]))
                    elif all(z.op in ("const", "bin", "un", "call", "ext", "kw") for z in subterms(x)):
                        ctx.ob("grid/%s/%d" % (y, k), False, e, "%s is used as %s whatever %s says" % (show(x)[:40], ("start", "end", "step")[k], y))
                    else:
                        ctx.undecided.append((ctx.cur, "grid"))
                # logarithmic grid: start and end converted alike
                if len(cargs(r)) >= 2:
                    lg = [contains(x, lambda w: w.op == "call" and fname(w.a[0]) == "numpy.log10") for x in cargs(r)[:2]]
                    ctx.ob("grid/%s/scale" % y, lg[0] == lg[1], e, "start and end of the range are on different scales")
            # given: used whenever it is not None
            p = mk("param", Q, y)
            pre = [mknot(isnone(p)), p]
            for g in conds:
                if contains(g, lambda w: w is p) and g.op != "exc":
                    r = implies(pre, g)
                    if r is False and implies(pre, mknot(g)) is True:
                        ctx.ob("grid/%s/given" % y, False, e, "the range is used only if it is not given")
    if not n:
        raise Undecided("redshift ranges")


def r_cosmics(ctx):
    Q = "redrock.external.desi.DistTargetsDESI.__init__"
    I = ctx.interp(Q)
    p = mk("param", Q, "cosmics_nsig")
    n = 0
    for e in calls(I, "compute_coadd"):
        v = arg(e, "cosmics_nsig")
        if v is None:
            continue
        n += 1
        if strip(v) is p or is_const(strip(v)):
            ctx.ob("cosmics", strip(v) is p, e, "coadds are computed with cosmics_nsig=%s" % show(v))
        else:
            ctx.undecided.append((ctx.cur, "cosmics_nsig"))
    for e in I.effects:
        if e.kind == "call" and fname(e.fn).endswith("Target") and arg(e, "coadd") is not None:
            pass
    TQ = "redrock.targets.Target.__init__"
    J = ctx.interp(TQ)
    for e in calls(J, "compute_coadd"):
        v = arg(e, "cosmics_nsig")
        if v is not None and (strip(v) is mk("param", TQ, "cosmics_nsig") or is_const(strip(v))):
            n += 1
            ctx.ob("cosmics/target", not is_const(strip(v)), e, "coadds are computed with cosmics_nsig=%s" % show(v))
    if not n:
        raise Undecided("compute_coadd")


# ------------------------------------------------------------------ 6: launcher
def strings(t):
    """alternatives of a string: [(conditions, [parts])] where parts are str or terms"""
    if t.op == "alloc":
        return strings(t.a[1])
    if is_const(t) and isinstance(t.a[0], str):
        return [([], [t.a[0]])]
    if t.op == "ite":
        return [([t.a[0]] + c, p) for c, p in strings(t.a[1])] + [([mknot(t.a[0])] + c, p) for c, p in strings(t.a[2])]
    if t.op == "fstr" or t.op == "bin" and t.a[0] == "+":
        out = [([], [])]
        for x in (t.a if t.op == "fstr" else t.a[1:]):
            if isinstance(x, str):
                alts = [([], [x])]
            else:
                alts = strings(x)
            out = [(c1 + c2, p1 + p2) for c1, p1 in out for c2, p2 in alts]
            if len(out) > 256:
                raise Undecided("command string")
        return out
    if t.op == "fmt":
        x = t.a[0]
        if x.op in ("ite", "fstr", "alloc") and not (len(t.a) > 1 and t.a[1]):
            return strings(x)
        return [([], [x])]
    return [([], [t])]


def words(parts):
    """command words: each a str or list of parts"""
    out, cur = [], []
    for p in parts:
        if isinstance(p, str):
            ws = p.split(" ")
            for i, w in enumerate(ws):
                if i and cur:
                    out.append(cur)
                    cur = []
                if w:
                    cur.append(w)
        else:
            cur.append(p)
    if cur:
        out.append(cur)
    return out


def r_launcher(ctx):
    progs = {"rrdesi": Opts(ctx, RD), "rrboss": Opts(ctx, RB), "wrap": Opts(ctx, WM)}
    n = 0
    cmds = []
    I = ctx.interp(WR)
    for e in I.effects:
        if e.kind == "call" and fname(e.fn) in ("subprocess.call", "subprocess.run", "subprocess.check_call", "subprocess.Popen", "os.system"):
            a = strip(cargs(e.result)[0])
            if a.op == "call" and fname(a.a[0]).endswith("split") and not fname(a.a[0]).startswith("shlex"):
                a = a.a[0].a[0]
            elif is_call(a, "shlex.split"):
                a = cargs(a)[0]
            cmds.append((e, a, mk("param", WR, "args")))
    J = ctx.interp(WP)
    for e in J.effects:
        if e.kind == "call" and fname(e.fn).endswith("print"):
            for a in cargs(e.result):
                if contains(a, lambda x: x.op == "fstr" and any(isinstance(y, str) and "--" in y for y in x.a) or is_const(x) and isinstance(x.a[0], str) and "--" in x.a[0]):
                    cmds.append((e, a, mk("param", WP, "args")))
    if not any(x[0] in I.effects for x in cmds):
        raise Undecided("launch command")
    seen = set()
    for e, a, P in cmds:
        for cs, parts in strings(a):
            if cs and sat(cs) is False:
                continue
            ws = words(parts)
            if not ws:
                continue
            first = ws[0][0]
            if isinstance(first, str) and first in progs:
                prog = first
            elif isinstance(first, str) and first == "srun":
                prog = "wrap"
                k = next((i for i, w in enumerate(ws) if any(not isinstance(x, str) and "__file__" in show(x) for x in w)), None)
                if k is None:
                    k = next((i for i, w in enumerate(ws) if any(isinstance(x, str) and x.startswith("--") for x in w)), 1) - 1
                ws = ws[k:]
            elif first in ("#!/bin/bash", "#SBATCH") or not isinstance(first, str):
                continue
            else:
                ctx.undecided.append((ctx.cur, "command " + str(first)))
                continue
            o = progs[prog]
            n += 1
            if prog == "rrdesi" or prog == "rrboss":
                # the program of the data type
                for g in cs:
                    if g.op == "cmp" and g.a[0] == "==" and any(is_const(x, "desi", "boss") for x in g.a[1:]):
                        dt = [x.a[0] for x in g.a[1:] if is_const(x)][0]
                        ctx.ob("launcher/program", prog == "rr" + dt, e, "%s data are given to %s" % (dt, prog))
            got = {}
            i = 1
            while i < len(ws):
                w = ws[i]
                if isinstance(w[0], str) and w[0].startswith("-") and len(w) == 1:
                    f = w[0]
                    known = f in o.flags or f.startswith("--") and len([x for x in o.flags if x.startswith(f)]) == 1
                    ctx.ob("launcher/%s/%s" % (prog, f), known, e, "%s has no option %s" % (prog, f))
                    if known:
                        d = o.flags.get(f) or o.flags[[x for x in o.flags if x.startswith(f)][0]]
                        val = ws[i + 1] if i + 1 < len(ws) and not o.isflag(d) else None
                        got[d] = val
                        if val is not None and len(val) == 1 and not isinstance(val[0], str):
                            v = val[0]
                            nm = {x.a[1] for x in subterms(strip(v)) if x.op == "attr" and x.a[0] is P}
                            vs = strip(v)
                            if is_call(vs, "abspath", "realpath", "str") and cargs(vs):
                                vs = strip(cargs(vs)[0])
                            if vs.op == "attr" and vs.a[0] is P:
                                ctx.ob("launcher/value/%s/%s" % (prog, d), vs.a[1] == d or vs.a[1] not in o.opt, e, "--%s is given the value of --%s" % (d, vs.a[1]))
                        i += 1 if o.isflag(d) else 2
                        continue
                i += 1
            for d, k in o.opt.items():
                if k.get("required") is TRUE:
                    ctx.ob("launcher/%s/required-%s" % (prog, d), d in got, e, "%s is run without its required option %s" % (prog, d))
            W = progs["wrap"]
            if prog in ("rrdesi", "rrboss"):
                for d in W.opt:
                    if d in o.opt and d not in ("outdir", "prefix", "templates"):
                        absent = mknot(mk("attr", P, d))
                        none = any(g is isnone(mk("attr", P, d)) or g is absent for g in cs)
                        if not none:
                            ctx.ob("launcher/forward/%s/%s" % (prog, d), d in got, e, "--%s given to wrap-redrock is not passed to %s" % (d, prog))
                out = {"rrdesi": ("infiles", "outfile", "details"), "rrboss": ("spplate", "zbest", "output")}[prog]
                for d in out:
                    ctx.ob("launcher/files/%s/%s" % (prog, d), d in got, e, "%s is run without --%s" % (prog, d))
                r = {}
                for d in out:
                    if got.get(d) and len(got[d]) == 1 and not isinstance(got[d][0], str):
                        src = [x for x in subterms(got[d][0]) if is_call(x, "spectra2outfiles")]
                        r[d] = [(ckw(x, "outprefix"), ckw(x, "ext")) for x in src]
                        if d == out[0]:
                            continue
                        for pfx, ex in r[d]:
                            if pfx is not None and is_const(pfx):
                                ctx.ob("launcher/filenames/%s" % d, (pfx.a[0] == "rrdetails") == (d in ("details", "output")), e, "--%s is the %s file" % (d, pfx.a[0]))
    if not n:
        raise Undecided("no command")


def run(ctx):
    ctx.rule("known", "the programs read only options they define", r_known)
    ctx.rule("used", "every option influences a call that is not a message", r_used)
    for q in PROGS:
        ctx.rule("known/" + progname(q), "the program reads only options it defines", r_known, [q])
        ctx.rule("used/" + progname(q), "every option influences a call that is not a message", r_used, [q])
    ctx.rule("several", "an option that takes several values is not used through one of them only", r_several, [RD, RB, PROGS[0]])
    ctx.rule("rrplot", "each rrplot option arrives at the parameter it controls", r_sinks, PROGS[0], RPLOT)
    ctx.rule("rrdesi", "each rrdesi option arrives at the parameter it controls", r_sinks, RD, RDESI)
    ctx.rule("rrboss", "each rrboss option arrives at the parameter it controls", r_sinks, RB, RBOSS)
    ctx.rule("converted", "converted options (target IDs, templates, processes, archetypes, cameras) arrive", r_special)
    ctx.rule("selection", "rrboss selects targets [mintarget : mintarget + ntargets]", r_slice)
    ctx.rule("outputs", "an output option by itself writes its file", r_outputs)
    ctx.rule("zscan", "redshift ranges are used as start, end, step of the templates of their class", r_zscan)
    ctx.rule("cosmics", "the cosmic-ray rejection threshold reaches the coaddition", r_cosmics)
    ctx.rule("launcher", "wrap-redrock starts programs with options that exist, carrying its own", r_launcher)
