"""C08: output files appear atomically and a crash never loses the old one."""
import ast
from ..q import *
from ..arith import canon
from ..store import roots
from ..ctx import Undecided, Stop

WRITERS = ("redrock.results.write_zscan", "redrock.external.desi.write_zbest", "redrock.external.desi.write_bestmodel", "redrock.external.boss.write_zbest")
PROGRAMS = ("redrock.external.desi.rrdesi", "redrock.external.boss.rrboss")
NORM = ("os.path.expandvars", "os.path.abspath", "os.path.expanduser", "os.path.normpath", "os.path.realpath", "builtins.str", "os.fspath", "pathlib.Path")
REMOVE = ("os.remove", "os.unlink", "os.truncate", "shutil.rmtree", "os.rmdir", "os.removedirs")
MOVE = ("os.rename", "os.replace", "shutil.move", "os.renames")
COPY = ("shutil.copy", "shutil.copyfile", "shutil.copy2", "os.link", "os.symlink")
TEMPFN = ("get_tempfilename",)
OUTOPTS = ("outfile", "details", "model", "output", "zbest")


def norm(t):
    t = strip_alloc(t)
    while t.op == "call" and (fname(t.a[0]) or "") in NORM and cargs(t):
        t = strip_alloc(cargs(t)[0])
    if t.op == "fstr" and len(t.a) == 1 and isinstance(t.a[0], T) and t.a[0].op == "fmt":
        return norm(t.a[0].a[0])
    return t


def same(t, f):
    return canon(norm(t)) is canon(norm(f)) or canon(norm(t)) == canon(norm(f))


def parts(t):
    """the pieces of a string expression"""
    t = strip_alloc(t)
    if t.op == "call" and (fname(t.a[0]) or "") in NORM and cargs(t):
        t = strip_alloc(cargs(t)[0])
    if t.op == "fstr":
        out = []
        for x in t.a:
            if isinstance(x, T) and x.op == "fmt":
                if len(x.a) > 1 and x.a[1] not in ("", None) and not (isinstance(x.a[1], T) and is_const(x.a[1], "", None)):
                    return [t]
                out += parts(x.a[0])
            else:
                out.append(x if isinstance(x, T) else const(x))
        return out
    if t.op == "bin" and t.a[0] == "+":
        out = []
        for x in t.a[1:]:
            out += parts(x)
        return out
    return [t]


def dirof(t, f):
    t = strip_alloc(t)
    while t.op == "call" and (fname(t.a[0]) or "") in NORM[:-1] and cargs(t):
        t = strip_alloc(cargs(t)[0])
    if is_call(t, "os.path.dirname") and cargs(t):
        return same(cargs(t)[0], f)
    return False


def kind(t, f):
    """'final', 'temp' (another name in the same directory), 'elsewhere' (another directory) or None"""
    if same(t, f):
        return "final"
    t = norm(t)
    ps = parts(t)
    if len(ps) > 1 and same(ps[0], f):
        rest = ps[1:]
        if all(is_const(x) for x in rest):
            s = "".join(str(x.a[0]) for x in rest)
            return "elsewhere" if "/" in s else ("temp" if s else "final")
        if is_const(rest[0]) and rest[0].a[0] and "/" not in str(rest[0].a[0]):
            return "temp"
    if is_const(ps[0]) and str(ps[0].a[0]).startswith("/"):
        return "elsewhere"
    # without its directory: a file of the current directory
    h = strip_alloc(ps[0])
    if is_call(h, "os.path.basename") or h.op == "sub" and is_const(h.a[1], 1) and is_call(h.a[0], "os.path.split") or is_call(h, "pathlib.Path.name"):
        return "elsewhere"
    # the name without its extension, with another one
    if len(ps) > 1 and h.op == "sub" and is_const(h.a[1], 0) and is_call(h.a[0], "os.path.splitext") and same(cargs(h.a[0])[0], f) and is_const(ps[1]) and ps[1].a[0] and "/" not in str(ps[1].a[0]):
        return "temp" if str(ps[1].a[0]) not in (".fits", ".h5", ".hdf5") else None
    if t.op == "call":
        n = fname(t.a[0]) or ""
        if n.rsplit(".", 1)[-1] in TEMPFN and cargs(t) and same(cargs(t)[0], f):
            return "temp"
        if n in ("os.path.join",) and cargs(t):
            a = cargs(t)
            if dirof(a[0], f):
                last = a[-1]
                if is_call(last, "os.path.basename") and same(cargs(last)[0], f):
                    return "final"
                lp = parts(last)
                if any(is_const(x) and x.a[0] for x in lp):
                    return "temp"
                return None
            if is_const(strip_alloc(a[0])) or is_call(strip_alloc(a[0]), "tempfile.gettempdir", "os.getcwd", "tempfile.mkdtemp"):
                return "elsewhere"
    for x in subterms(t):
        if is_call(x, "tempfile.mkstemp", "tempfile.NamedTemporaryFile", "tempfile.mktemp", "tempfile.TemporaryDirectory", "tempfile.mkdtemp"):
            d = ckw(x, "dir")
            if d is None or d is NONE:
                return "elsewhere"
            return "temp" if dirof(d, f) else None
    return None


def mode_of(c, pos=1, default="r"):
    m = ckw(c, "mode", pos, const(default))
    return m.a[0] if is_const(m) else None


class Fs(object):
    """file-system effects of one function, in program order"""

    def __init__(self, ctx, q):
        self.I = ctx.interp(q)
        self.q = q
        self.opens, self.moves, self.removes, self.closes = [], [], [], []
        for e in self.I.effects:
            if e.kind != "call":
                continue
            f = fname(e.fn) or ""
            r = strip_alloc(e.result)
            if f in MOVE and len(e.args) >= 2:
                self.moves.append((e, e.args[0], e.args[1]))
            elif e.meth in ("rename", "replace") and e.recv is not None and contains(e.recv, lambda x: x.op == "call" and (fname(x.a[0]) or "").startswith("pathlib.")) and e.args:
                self.moves.append((e, e.recv, e.args[0]))
            elif f in REMOVE and e.args:
                self.removes.append((e, e.args[0]))
            elif e.meth in ("unlink", "rmdir") and e.recv is not None:
                self.removes.append((e, e.recv))
            elif f in COPY and len(e.args) >= 2:
                self.opens.append((e, e.args[1], "copy"))
            elif f in ("h5py.File", "h5py._hl.files.File") and e.args:
                m = mode_of(r)
                if m is None or any(ch in m for ch in "wax+"):
                    self.opens.append((e, e.args[0], "handle"))
            elif f in ("builtins.open", "io.open", "gzip.open", "open") and e.args:
                m = mode_of(r)
                if m is None or any(ch in m for ch in "wax+"):
                    self.opens.append((e, e.args[0], "handle"))
            elif f in ("fitsio.FITS",) and e.args:
                m = ckw(r, "mode", 1, const("r"))
                if not is_const(m) or m.a[0] not in ("r", 0):
                    self.opens.append((e, e.args[0], "handle"))
            elif f in ("fitsio.write", "numpy.save", "numpy.savez", "numpy.savetxt") and e.args:
                self.opens.append((e, e.args[0], "whole"))
            elif e.meth in ("writeto", "tofile", "savefig") and e.args:
                self.opens.append((e, e.args[0], "whole"))
            elif e.meth == "write" and e.args and not contains(e.recv, lambda x: x.op == "attr" and x.a[1] in ("stdout", "stderr") or x.op == "ext" and ("stdout" in x.a[0] or "stderr" in x.a[0])):
                if not any(contains(e.recv, lambda x, o=o: x is strip_alloc(o[0].result)) for o in self.opens):
                    self.opens.append((e, e.args[0], "whole"))
            elif e.meth == "writeto":
                self.opens.append((e, None, "whole"))
            elif e.meth == "close":
                self.closes.append(e)


def in_finally(e):
    """is the call inside a finally block?"""
    if e.func is None or e.node is None:
        return False
    root = getattr(e.func, "node", None)
    if root is None:
        return False
    for n in ast.walk(root):
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                if any(x is e.node for x in ast.walk(s)):
                    return True
    return False


def swallowed(w, m):
    """a failure of w can be swallowed before m runs"""
    tm = {t[0] for t in m.trys}
    for tid, hts, node in w.trys:
        if tid in tm:
            continue
        for h in range(len(hts)):
            ex = mk("exc", tid, ",".join(hts[h]))
            ok = False
            for g, k in m.guards:
                if g.op == "not" and g.a[0] is ex or g is mknot(ex):
                    ok = True
            if not ok:
                return True
    return False


def check(ctx, q):
    S = Fs(ctx, q)
    if not S.opens:
        raise Undecided("%s opens no file for writing" % q)
    finals = []
    for e, src, dst in S.moves:
        if any(norm(dst) is f or same(dst, f) for f in finals):
            continue
        finals.append(dst)
    prm = [mk("param", q, a) for a in ("outfile", "filename", "path", "output")]

    def is_param(t):
        t = norm(t)
        return t.op == "param" and t.a[0] == q or t.op == "attr" and t.a[1] in OUTOPTS
    for e, p, how in S.opens:
        if p is None:
            raise Undecided("path of " + show(e.result)[:80])
        if is_param(p):
            ctx.ob("final/never-opened", False, e, "%s is written in place" % show(p)[:60])
            continue
        alts = [x for cs, x in ites(p)]
        if len(alts) > 1 and any(is_param(x) or any(kind(x, d) == "final" for m, s, d in S.moves) for x in alts):
            ctx.ob("final/never-opened", False, e, "the final name is written in place in some cases: %s" % show(p)[:80])
            continue
        mv = [(m, s, d) for m, s, d in S.moves if same(s, p)]
        if not mv:
            k = None
            for m, s, d in S.moves:
                k = k or kind(p, d)
            if k == "final":
                ctx.ob("final/never-opened", False, e, "the final name is written in place")
            elif not S.moves:
                ctx.ob("final/renamed", False, e, "%s is never renamed to the final name" % show(p)[:60])
            else:
                raise Undecided("%s is written but another file is renamed" % show(p)[:60])
            continue
        for m, s, d in mv:
            k = kind(p, d)
            if k is None:
                raise Undecided("relation of %s and %s" % (show(p)[:60], show(d)[:60]))
            ctx.ob("temp/other-name", k != "final", e, "the final name itself is written")
            ctx.ob("temp/same-directory", k != "elsewhere", e, "the temporary file is in another directory")
            ctx.ob("rename/after-write", m.seq > e.seq, m, "renamed before it is written")
            ctx.ob("rename/not-after-failure", not in_finally(m), m, "the rename is in a finally block and also runs after a failed write")
            ctx.ob("rename/not-in-handler", not any(g.op == "exc" for g, kk in m.guards), m, "the rename runs in an exception handler")
            wr = [x for x in S.I.effects if e.seq <= x.seq < m.seq and (x is e or x.kind == "setitem" and isinstance(x.d.get("base"), T) and any(r is strip_alloc(e.result) or r is e.result for r in roots(x.base)))]
            ctx.ob("rename/failure-stops", not any(swallowed(x, m) for x in wr), m, "a failed write can be swallowed before the rename")
            # contextlib.suppress around the write
            ent = [x for x in S.I.effects if x.kind in ("enter", "exit") and isinstance(x.value, T) and contains(x.value, lambda y: is_call(y, "contextlib.suppress"))]
            for a, b in zip(ent[::2], ent[1::2]):
                if any(a.seq < x.seq < b.seq for x in wr) and m.seq > b.seq:
                    ctx.ob("rename/failure-stops", False, m, "a failed write is suppressed before the rename")
            if how == "handle":
                h = strip_alloc(e.result)

                def ours(t):
                    return contains(t, lambda x: x is h)
                cl = [c for c in S.closes if c.recv is not None and ours(c.recv) and e.seq < c.seq] + \
                     [x for x in S.I.effects if x.kind == "exit" and isinstance(x.value, T) and ours(x.value) and x.seq > e.seq]
                before = [c for c in cl if c.seq < m.seq]
                ctx.ob("rename/closed", bool(before), m, "the file is renamed before it is closed")
                if before:
                    late = [x for x in S.I.effects if x.kind == "setitem" and isinstance(x.d.get("base"), T) and h in {strip_alloc(r) for r in roots(x.base)} and x.seq > m.seq]
                    ctx.ob("rename/complete", not late, m, "data is written after the rename")
            # the rename is reached whenever the file was written
    for e, p in S.removes:
        ks = [kind(p, d) for m, s, d in S.moves]
        bad = is_param(p) or "final" in ks
        ctx.ob("final/never-removed", not bad, e, "%s is removed before the new file is in place" % show(p)[:60])
    for m, s, d in S.moves:
        bad = is_param(s) or any(kind(s, d2) == "final" for m2, s2, d2 in S.moves if m2 is not m)
        ctx.ob("final/never-moved-away", not bad, m, "%s is moved away" % show(s)[:60])


def r_writers(ctx, q):
    if q not in ctx.prog.funcs:
        raise Undecided(q + " not found")
    check(ctx, q)


def r_programs(ctx):
    """the programs and the rest of the package never touch an output name themselves"""
    n = 0
    def files(node):
        src = ast.unparse(node)
        return any(w in src for w in ("open(", "File(", "writeto", "remove", "unlink", "rename", "replace(", "truncate", "rmtree", "move(", "copy", "FITS(", ".write("))
    for q in ctx.entries(files):
        m = q.split(".")[0]
        if q in WRITERS or m == "bin" or not q.startswith("redrock.") or ".plotspec" in q:
            continue
        try:
            S = Fs(ctx, q)
        except Undecided:
            continue
        n += 1

        def out(t):
            t = norm(t)
            if t.op == "attr" and t.a[1] in OUTOPTS:
                return True
            ps = parts(t)
            return len(ps) == 1 and ps[0] is not t and norm(ps[0]).op == "attr" and norm(ps[0]).a[1] in OUTOPTS
        for e, p, how in S.opens:
            ctx.ob("programs/opened", p is None or not out(p), e, "the output name %s is opened for writing" % (show(p)[:60] if p is not None else ""))
        for e, p in S.removes:
            ctx.ob("programs/removed", not out(p), e, "the output %s is removed" % show(p)[:60])
        for e, s, d in S.moves:
            ctx.ob("programs/moved", not out(s), e, "the output %s is moved away" % show(s)[:60])
        ctx.ob("programs/scanned", True, q)
    if not n:
        raise Undecided("no function handles files")


def run(ctx):
    for q in WRITERS:
        ctx.rule(q.split("redrock.")[-1], "the file is written under a temporary name in the same directory, closed, then renamed; the final name is never opened or removed", r_writers, q)
    ctx.rule("programs", "no other function opens, removes or moves an output file", r_programs)
