"""C28: no accepted option combination reads a variable that was never set."""
import ast
import warnings
import builtins

from ..ctx import Undecided
from ..defassign import *

BUILTINS = set(dir(builtins)) | {"__file__", "__name__", "__doc__", "__package__", "__spec__", "__path__"}

# documented values of options that are not declared with choices=
DOMAINS = {"datatype": ("desi", "boss")}


def scopes(ctx):
    """every function, class body and module of the package and programs, with its chain of enclosing scopes"""
    if hasattr(ctx.prog, "_c28"):
        return ctx.prog._c28
    out = []
    for nm in sorted(ctx.prog.mods):
        m = ctx.prog.mods[nm]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(m.src)
        top = build(m, tree, [], nm, "module", ctx)
        out.extend(top)
    ctx.prog._c28 = out
    return out


class Sc(object):
    pass


def build(m, node, chain, qual, kind, ctx):
    s = Sc()
    s.mod, s.node, s.qual, s.kind, s.chain = m, node, qual, kind, chain
    body = node.body if not isinstance(node, ast.Lambda) else [ast.copy_location(ast.Return(node.body), node.body)]
    s.body = body
    s.params = arg_names(node) if kind in ("function", "lambda") else []
    s.bound, s.gl, s.nl = bound_names(body)
    s.locals = (s.bound | set(s.params)) - s.gl - s.nl
    s.children = []
    res = [s]
    sub = chain + [s]
    for n in own(body):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            r = build(m, n, sub, qual + "." + n.name, "function", ctx)
        elif isinstance(n, ast.Lambda):
            r = build(m, n, sub, qual + ".<lambda>", "lambda", ctx)
        elif isinstance(n, ast.ClassDef):
            r = build(m, n, sub, qual + "." + n.name, "class", ctx)
        else:
            continue
        s.children.append(r[0])
        res.extend(r)
    return res


def reads(s):
    """(name node, name) read in this scope, with comprehension targets removed"""
    out = []

    def go(n, hidden):
        if isinstance(n, SCOPES):
            for k in ("decorator_list", "bases", "keywords"):
                for x in getattr(n, k, []):
                    go(x, hidden)
            a = getattr(n, "args", None)
            if a is not None and not isinstance(n, ast.ClassDef):
                for x in a.defaults + [x for x in a.kw_defaults if x is not None]:
                    go(x, hidden)
            return
        if isinstance(n, COMPS):
            go(n.generators[0].iter, hidden)
            h = hidden | comp_targets(n)
            for i, g in enumerate(n.generators):
                if i:
                    go(g.iter, h)
                for c in g.ifs:
                    go(c, h)
            for k in ("elt", "key", "value"):
                if hasattr(n, k):
                    go(getattr(n, k), h)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)) and n.id not in hidden:
            out.append(n)
        if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
            out.append(n.target)
        if isinstance(n, ast.arg) or isinstance(n, ast.AnnAssign):
            if isinstance(n, ast.AnnAssign) and n.value is not None:
                go(n.value, hidden)
            return
        for c in ast.iter_child_nodes(n):
            go(c, hidden)
    for b in s.body:
        go(b, frozenset())
    return out


def resolve(s, name):
    """scope that provides the name, or 'builtin', or None"""
    if name in s.locals and (s.kind != "class"):
        return s
    if s.kind == "class" and name in s.locals:
        return s
    if name not in s.gl:
        for e in reversed(s.chain[1:]):
            if e.kind != "class" and name in e.locals:
                return e
    top = s.chain[0] if s.chain else s
    if name in top.locals or name in global_sets(top):
        return top
    if name in BUILTINS:
        return "builtin"
    return None


def global_sets(top):
    if not hasattr(top, "_gs"):
        top._gs = set()
        todo = list(top.children)
        while todo:
            c = todo.pop()
            top._gs |= c.gl
            todo.extend(c.children)
    return top._gs


def noreturn_calls(ctx, allsc):
    """functions of the package without a normal exit"""
    nr = set()

    def is_nr(call):
        f = call.func
        if isinstance(f, ast.Attribute):
            if f.attr == "_exit" or f.attr == "Abort":
                return True
            if f.attr == "exit" and isinstance(f.value, ast.Name) and (f.value.id == "sys" or "pars" in f.value.id):
                return True
            if f.attr == "error" and isinstance(f.value, ast.Name) and "pars" in f.value.id:
                return True
            return f.attr in nr
        return isinstance(f, ast.Name) and (f.id in ("exit", "quit") or f.id in nr)

    byname = {}
    for s in allsc:
        if s.kind == "function":
            byname.setdefault(s.node.name, []).append(s)
    cand = {n: v[0] for n, v in byname.items() if len(v) == 1 and not any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for x in own(v[0].body))}
    # names also used as methods of other things are not considered (log.error and the like)
    for n in ("error", "critical", "run", "get", "close", "main"):
        cand.pop(n, None)
    while True:
        grew = False
        for n, s in cand.items():
            if n in nr:
                continue
            last = any(isinstance(x, ast.Raise) or (isinstance(x, ast.Call) and is_nr(x)) for x in own(s.body))
            if not last:
                continue
            sc = Scope(s.node, s.body, s.params, "function", noreturn=is_nr)
            try:
                r = Flow(sc, "", track=False).run(True)
            except TooMany:
                continue
            if not r["n"]:
                nr.add(n)
                grew = True
        if not grew:
            break
    return is_nr


def free_reads(s):
    """names a nested function reads from enclosing scopes"""
    out = {n.id for n in reads(s)} - s.locals - s.gl
    for c in s.children:
        out |= free_reads(c) - s.locals
    return out | s.nl


def r_assigned(ctx):
    allsc = scopes(ctx)
    nr = noreturn_calls(ctx, allsc)
    nfun = nvar = npath = 0
    for s in allsc:
        if s.kind == "lambda":
            continue
        nested = {c.node.name: free_reads(c) & s.locals for c in s.children if c.kind == "function"}
        names = {n.id for n in reads(s)} & s.locals
        for f in nested.values():
            names |= f
        names -= set(s.params) - {n.id for x in own(s.body) if isinstance(x, ast.Delete) for n in x.targets if isinstance(n, ast.Name)}
        sc = Scope(s.node, s.body, s.params, s.kind, nested_reads=nested, noreturn=nr, domains=DOMAINS)
        nfun += 1
        bad = []
        for v in sorted(names):
            nvar += 1
            if s.kind in ("class", "module") and v in BUILTINS:
                continue
            if not suspicious(sc, v):
                continue
            try:
                f = Flow(sc, v, track=False)
                f.run(v in s.params)
                if not f.reports:
                    continue
                npath += 1
                sc.interest = guards_of(sc, v)
                f = Flow(sc, v)
                f.run(v in s.params)
                if f.reports:
                    # look again with the conditions that are tested together with these
                    wide = widen(sc, sc.interest)
                    if wide != sc.interest:
                        sc.interest = wide
                        try:
                            g = Flow(sc, v)
                            g.run(v in s.params)
                            f = g
                        except TooMany:
                            pass
            except TooMany:
                ctx.undecided.append((ctx.cur, "%s: %s has too many paths" % (s.qual, v)))
                continue
            for (line, col), facts in sorted(f.reports.items()):
                bad.append((v, line, facts))
        ctx.functions.add(s.qual)
        ctx.ob("assigned/" + s.qual, not bad, "%s:%d" % (s.mod.rel, bad[0][1] if bad else getattr(s.node, "lineno", 1)),
               "; ".join("%s read on line %d may be unset" % (v, l) for v, l, fa in bad[:4]))
    ctx.ncalls += nvar
    ctx.samples.append("%d scopes, %d variables, %d needed the path-sensitive analysis" % (nfun, nvar, npath))


def r_names(ctx):
    allsc = scopes(ctx)
    for s in allsc:
        if s.kind == "lambda":
            continue
        bad = []
        todo = [s] + [c for c in s.children if c.kind == "lambda"]
        for x in todo:
            for n in reads(x):
                if resolve(x, n.id) is None and not guarded_name(s, n):
                    bad.append((n.id, n.lineno))
        ctx.ob("resolved/" + s.qual, not bad, "%s:%d" % (s.mod.rel, bad[0][1] if bad else getattr(s.node, "lineno", 1)),
               "; ".join("name %s (line %d) is defined nowhere" % b for b in bad[:4]))


def guarded_name(s, n):
    """name tested inside try/except NameError"""
    for x in own(s.body):
        if isinstance(x, ast.Try):
            for h in x.handlers:
                t = h.type
                names = [y.id for y in ast.walk(t) if isinstance(y, ast.Name)] if t is not None else ["NameError"]
                if "NameError" in names and x.body[0].lineno <= n.lineno <= x.body[-1].end_lineno:
                    return True
    return False


def r_globals(ctx):
    """module-level names used by functions exist after the module was imported, on every path through its code"""
    allsc = scopes(ctx)
    nr = noreturn_calls(ctx, allsc)
    used = {}
    for s in allsc:
        if not s.chain:
            continue
        for n in reads(s):
            r = resolve(s, n.id)
            if r is s.chain[0]:
                used.setdefault(id(r), {}).setdefault(n.id, (s, n))
    for top in allsc:
        if top.chain:
            continue
        names = used.get(id(top), {})
        sc = Scope(top.node, top.body, [], "module", noreturn=nr)
        bad = []
        for v in sorted(names):
            if v not in top.locals:
                # only set through `global`: some function must have been called
                bad.append((v, names[v][1].lineno, "is only set inside functions"))
                continue
            try:
                f = Flow(sc, v, track=False)
                r = f.run(False)
            except TooMany:
                ctx.undecided.append((ctx.cur, "%s: %s" % (top.qual, v)))
                continue
            if any(not a for a, _ in r["n"]) and v not in BUILTINS:
                g = names[v][1]
                bad.append((v, g.lineno, "is not set on every path through the module's code"))
        ctx.ob("module/" + top.qual, not bad, "%s:%d" % (top.mod.rel, bad[0][1] if bad else 1),
               "; ".join("%s (line %d) %s" % b for b in bad[:4]))


# attributes that another method prepares on purpose before the reading method can run
PREPARED = {"gpu_ADLA1", "gpu_ADLA2", "gpu_ALAF1", "gpu_ALAF2", "gpu_ALAF3", "gpu_lam",      # igm.Inoue14: load_gpu
            "R_data", "R_offsets", "Rcsr_data", "Rcsr_indices", "Rcsr_indptr", "_csrshape", "_splen"}   # sharedmem_pack
OBJ = set(dir(object)) | {"__dict__"}


def r_attrs(ctx):
    allsc = scopes(ctx)
    nr = noreturn_calls(ctx, allsc)
    stores = {n.attr for s in allsc if not s.chain for n in ast.walk(s.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)}
    stores |= {n.args[1].value for s in allsc if not s.chain for n in ast.walk(s.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)
               and n.func.id == "setattr" and len(n.args) > 1 and isinstance(n.args[1], ast.Constant)}
    classes = {c.node.name: c for c in allsc if c.kind == "class"}
    for c in allsc:
        if c.kind != "class":
            continue
        line, ext = [c], False          # the class and its bases
        for k in line:
            for b in k.node.bases:
                nm = b.attr if isinstance(b, ast.Attribute) else getattr(b, "id", None)
                if nm in classes:
                    if classes[nm] not in line:
                        line.append(classes[nm])
                elif nm != "object":
                    ext = True
        if ext or any(n.node.name in ("__getattr__", "__getattribute__") for k in line for n in k.children if n.kind == "function"):
            continue
        meth = {}
        for k in reversed(line):
            meth.update({x.node.name: x for x in k.children if x.kind == "function"})
        known = set(meth) | OBJ
        for k in line:
            known |= k.locals
        rd = {}
        for m in c.children:
            if m.kind != "function" or not m.params or static(m.node):
                continue
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and is_name(n.value, m.params[0]):
                    rd.setdefault(n.attr, {}).setdefault(m.node.name, n.lineno)
        bad = []
        for a in sorted(rd):
            if a in known or a in PREPARED:
                continue
            m0, l0 = sorted(rd[a].items(), key=lambda x: x[1])[0]
            if a not in stores:
                if not all(tested(meth[m].node, a) for m in rd[a]):
                    bad.append((a, l0, "is never set"))
                continue

            def flow(m, seen, reports=False, sf=None):
                sc = Scope(m.node, m.body, m.params, "function", noreturn=nr)
                sc.interest = guards_of(sc, "." + a)
                sf = sf or m.params[0]

                def setter(e):
                    f = e.func
                    if isinstance(f, ast.Attribute) and is_name(f.value, sf):
                        return sets(meth.get(f.attr), seen)
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Call) and is_name(f.value.func, "super") and len(line) > 1:
                        for k in line[1:]:
                            for x in k.children:
                                if x.kind == "function" and x.node.name == f.attr:
                                    return sets(x, seen)
                    if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in classes and e.args and is_name(e.args[0], sf):
                        for x in classes[f.value.id].children:
                            if x.kind == "function" and x.node.name == f.attr:
                                return sets(x, seen)
                    pos = [i for i, x in enumerate(e.args) if is_name(x, sf)]
                    kws = [k.arg for k in e.keywords if is_name(k.value, sf)]
                    if (pos or kws) and isinstance(f, (ast.Name, ast.Attribute)):
                        # the object is handed to a function
                        nm = f.id if isinstance(f, ast.Name) else f.attr
                        hs = [x for x in allsc if x.kind == "function" and x.node.name == nm]
                        if len(hs) != 1:
                            return nm not in BUILTINS and bool(hs)
                        h = hs[0]
                        off = 1 if isinstance(f, ast.Attribute) and h.chain[-1].kind == "class" and not static(h.node) else 0
                        if pos and pos[0] + off < len(h.params):
                            return sets(h, seen, h.params[pos[0] + off])
                        return bool(kws) and kws[0] in h.params and sets(h, seen, kws[0])
                    return False
                f = Flow(sc, "", attr=(sf, a), setter=setter)
                r = f.run(False)
                if reports:
                    return f.reports
                return all(x for x, _ in r["n"] | f.returns)

            def sets(m, seen=(), sf=None):
                if m is None or m in seen or not m.params:
                    return False
                return flow(m, seen + (m,), sf=sf)
            try:
                if "__init__" in meth and sets(meth["__init__"]):
                    # constructor reads must still come after the set
                    todo = [x for x in c.children if x.kind == "function" and x.node.name == "__init__" and a in rd and "__init__" in rd[a]]
                else:
                    todo = [x for x in c.children if x.kind == "function" and x.node.name in rd[a]]
                for m in todo:
                    if not tested(m.node, a):
                        rep = flow(m, (m,), True)
                        if rep and not (("__init__" not in meth or m.node.name != "__init__") and subclassed_set(c, a, allsc)):
                            bad.append((a, sorted(rep)[0][0], "may be unset in %s" % m.node.name))
                            break
            except TooMany:
                ctx.undecided.append((ctx.cur, "%s.%s" % (c.qual, a)))
        ctx.ncalls += len(rd)
        ctx.ob("attributes/" + c.qual, not bad, "%s:%d" % (c.mod.rel, bad[0][1] if bad else c.node.lineno),
               "; ".join("self.%s (line %d) %s" % b for b in bad[:4]))


def subclassed_set(c, a, allsc):
    """abstract classes: the subclasses set the attribute"""
    subs = [k for k in allsc if k.kind == "class" and any(getattr(b, "id", getattr(b, "attr", None)) == c.node.name for b in k.node.bases)]
    own_ = any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == a for n in ast.walk(c.node))
    return bool(subs) and not own_


def static(f):
    return any(isinstance(d, ast.Name) and d.id in ("staticmethod", "classmethod") for d in f.decorator_list)


def tested(fn, a):
    """hasattr/getattr with default on the attribute, or the read is inside try/except AttributeError"""
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("hasattr", "getattr") and len(n.args) > 1 \
                and isinstance(n.args[1], ast.Constant) and n.args[1].value == a:
            return True
        if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(y, ast.Name) and y.id in ("AttributeError", "Exception") for y in ast.walk(h.type)) for h in n.handlers):
            if any(isinstance(x, ast.Attribute) and x.attr == a and isinstance(x.ctx, ast.Load) for b in n.body for x in ast.walk(b)):
                return True
    return False


def r_options(ctx):
    allsc = scopes(ctx)
    for top in allsc:
        if top.chain:
            continue
        tree = top.node
        dests, holders, dynamic = set(), {}, False
        for n in ast.walk(tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
                if n.func.attr in ("add_argument", "add_option"):
                    d = [k.value for k in n.keywords if k.arg == "dest"]
                    if d and isinstance(d[0], ast.Constant):
                        dests.add(d[0].value)
                        continue
                    opts = [a.value for a in n.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                    if len(opts) != len(n.args) or any(k.arg is None for k in n.keywords):
                        dynamic = True
                    lng = [o for o in opts if o.startswith("--")]
                    for o in (lng[:1] or opts[:1]):
                        dests.add(o.lstrip("-").replace("-", "_"))
                elif n.func.attr == "set_defaults":
                    dests |= {k.arg for k in n.keywords}
                elif n.func.attr == "add_subparsers":
                    dynamic = True
        for s in [x for x in allsc if x is top or (x.chain and x.chain[0] is top)]:
            for n in own(s.body):
                if isinstance(n, ast.Assign) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and n.value.func.attr in ("parse_args", "parse_known_args"):
                    t = n.targets[0]
                    if isinstance(t, (ast.Tuple, ast.List)):
                        t = t.elts[0]
                    if isinstance(t, ast.Name):
                        holders.setdefault(t.id, s)
        if not holders or dynamic:
            continue
        sub = [x for x in allsc if x is top or (x.chain and x.chain[0] is top)]
        stored = {n.attr for n in ast.walk(tree) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id in holders}
        bad, nread = [], 0
        for s in sub:
            for n in own(s.body):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and isinstance(n.value, ast.Name) and n.value.id in holders:
                    r = resolve(s, n.value.id)
                    h = holders[n.value.id]
                    if not (r is h or (isinstance(r, Sc) and n.value.id in r.params)):
                        continue
                    if n.attr.startswith("_") or n.attr in ("ensure_value",):
                        continue
                    nread += 1
                    if n.attr not in dests | stored:
                        bad.append((n.attr, n.lineno))
        ctx.ncalls += nread
        ctx.ob("options/" + top.qual, not bad, "%s:%d" % (top.mod.rel, bad[0][1] if bad else 1),
               "; ".join("option %s (line %d) is not declared" % b for b in bad[:4]))


def r_imports(ctx):
    """names imported from, or read as attributes of, the package's own modules exist there"""
    allsc = scopes(ctx)
    mods = {s.mod.name: s for s in allsc if not s.chain}
    pk = {m.rpartition(".")[0] for m in mods} | set(mods)

    def absname(m, level, module):
        if level == 0:
            return module
        base = m.name if m.path.endswith("__init__.py") else m.name.rpartition(".")[0]
        for _ in range(level - 1):
            base = base.rpartition(".")[0]
        return base + ("." + module if module else "")

    def has(mod, nm):
        if mod + "." + nm in pk:
            return True
        t = mods.get(mod)
        return t is None or nm in t.locals or nm in global_sets(t) or nm.startswith("__") or star(t)

    def star(t):
        return any(isinstance(n, ast.ImportFrom) and n.names[0].name == "*" for n in ast.walk(t.node))

    for top in allsc:
        if top.chain:
            continue
        m, bad, cnt = top.mod, [], 0
        alias = {}
        optional = set()
        for n in ast.walk(top.node):
            if isinstance(n, ast.Try) and any(h.type is None or any(isinstance(y, ast.Name) and y.id in ("ImportError", "ModuleNotFoundError", "Exception") for y in ast.walk(h.type)) for h in n.handlers):
                optional |= {id(x) for b in n.body for x in ast.walk(b)}
        for n in ast.walk(top.node):
            if isinstance(n, ast.ImportFrom):
                a = absname(m, n.level, n.module)
                if a is None or a.split(".")[0] != "redrock":
                    continue
                for x in n.names:
                    if x.name == "*":
                        continue
                    cnt += 1
                    if a not in pk and id(n) not in optional:
                        bad.append(("module " + a, n.lineno))
                        break
                    if a in mods and not has(a, x.name) and id(n) not in optional and not generated(a, x.name):
                        bad.append((a + "." + x.name, n.lineno))
                    if a + "." + x.name in mods:
                        alias.setdefault(x.asname or x.name, set()).add(a + "." + x.name)
            elif isinstance(n, ast.Import):
                for x in n.names:
                    if x.name.split(".")[0] == "redrock":
                        cnt += 1
                        if x.name not in pk:
                            bad.append(("module " + x.name, n.lineno))
                        elif x.asname:
                            alias.setdefault(x.asname, set()).add(x.name)
        for s in allsc:
            if s is not top and not (s.chain and s.chain[0] is top):
                continue
            for n in own(s.body):
                if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in alias and isinstance(n.ctx, ast.Load):
                    r = resolve(s, n.value.id)
                    if not isinstance(r, Sc) or n.value.id in r.params or any(
                            isinstance(x, ast.Name) and x.id == n.value.id and isinstance(x.ctx, ast.Store) for x in own(r.body)):
                        continue
                    cnt += 1
                    if not any(has(a, n.attr) for a in alias[n.value.id]):
                        bad.append(("%s.%s" % (n.value.id, n.attr), n.lineno))
        ctx.ncalls += cnt
        for what, line in dict((w, l) for w, l in reversed(bad)).items():
            ctx.ob("imports/%s/%s" % (top.qual, what), False, "%s:%d" % (m.rel, line), what + " does not exist")
        if not bad:
            ctx.ob("imports/" + top.qual, True, m.rel, "")


def generated(mod, nm):
    """files that setup.py writes"""
    return mod.endswith("_version")


def run(ctx):
    ctx.rule("assigned", "on every path through a function, class body or module every local variable is set before it is read (path-sensitive in the conditions tested more than once)", r_assigned)
    ctx.rule("names", "every name read is a local, an enclosing function's, a module-level name or a builtin", r_names)
    ctx.rule("globals", "every module-level name that functions read is set on every path through the module's top-level code", r_globals)
    ctx.rule("attributes", "every attribute a method reads from its object is set on every path through the constructor, or earlier in that method", r_attrs)
    ctx.rule("options", "every command-line option that a program reads is one its parser declares", r_options)
    ctx.rule("imports", "every name imported from or read through a module of the package exists in that module", r_imports)
