"""Hash-consed value-flow terms and their normalisation.

A term stands for the value an expression has at one program point, expressed
over the inputs of the analysed entry point.  Terms are built by a single
structured pass over the syntax tree (gated merges, no path enumeration, no
solver) and compared by identity.
"""
_TAB = {}
_N = [0]


class T(object):
    __slots__ = ("op", "a", "id")

    def __repr__(self):
        return show(self)


def mk(op, *a):
    assert op == "const" or None not in a, (op, a)
    key = (op,) + tuple((type(x).__name__, x) if not isinstance(x, T) else x.id for x in a)
    t = _TAB.get(key)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        _N[0] += 1
        t.id = _N[0]
        _TAB[key] = t
    return t


def const(v):
    return mk("const", v)


NONE = const(None)
TRUE = const(True)
FALSE = const(False)
UNDEF = mk("undef")


def is_const(t, *vals):
    return t.op == "const" and (not vals or any(t.a[0] == v and type(t.a[0]) is type(v) for v in vals))


def cval(t):
    return t.a[0] if t.op == "const" else None


def ext(name):
    return mk("ext", name)


def mknot(x):
    if x.op == "not":
        return x.a[0]
    if x.op == "const" and isinstance(x.a[0], (bool, type(None), int)):
        return const(not x.a[0])
    if x.op == "cmp" and x.a[0] in ("<", "<="):
        o = "<=" if x.a[0] == "<" else "<"
        return mk("cmp", o, x.a[2], x.a[1])
    if x.op == "cmp" and x.a[0] == "==":
        return mk("cmp", "!=", x.a[1], x.a[2])
    if x.op == "cmp" and x.a[0] == "!=":
        return mk("cmp", "==", x.a[1], x.a[2])
    if x.op == "and":
        return mkor(*[mknot(y) for y in x.a])
    if x.op == "or":
        return mkand(*[mknot(y) for y in x.a])
    return mk("not", x)


def _flat(op, xs):
    out = []
    for x in xs:
        if x.op == op:
            out.extend(x.a)
        else:
            out.append(x)
    return out


def mkand(*xs):
    xs = _flat("and", xs)
    r = []
    for x in xs:
        if is_const(x, True):
            continue
        if x not in r:
            r.append(x)
    for x in r:
        if is_const(x, False) or mknot_raw(x) in r:
            return FALSE
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return mk("and", *sorted(r, key=lambda t: t.id))


def mknot_raw(x):
    return x.a[0] if x.op == "not" else mk("not", x)


def mkor(*xs):
    xs = _flat("or", xs)
    r = []
    for x in xs:
        if is_const(x, False):
            continue
        if x not in r:
            r.append(x)
    for x in r:
        if is_const(x, True) or mknot_raw(x) in r:
            return TRUE
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return mk("or", *sorted(r, key=lambda t: t.id))


def mkcmp(op, l, r):
    if op == ">":
        op, l, r = "<", r, l
    elif op == ">=":
        op, l, r = "<=", r, l
    if op in ("==", "is") and (l is NONE or r is NONE):
        if l is NONE:
            l, r = r, l
        if l is NONE:
            return TRUE
        if l.op in ("alloc", "tuple", "fn", "list", "dict", "fstr", "clo", "obj") or (l.op == "const"):
            return FALSE
        return mk("cmp", "is", l, NONE)
    if op in ("!=", "is not") and (l is NONE or r is NONE):
        return mknot(mkcmp("is", l, r))
    if op == "is not":
        return mknot(mkcmp("is", l, r))
    if op == "not in":
        return mknot(mkcmp("in", l, r))
    if op in ("==", "!=", "is"):
        if l.op == "const" and r.op == "const":
            v = (l.a[0] == r.a[0])
            return const(v if op != "!=" else not v)
        if l.id > r.id:
            l, r = r, l
        if op != "is" and (r is TRUE or l is TRUE):
            x = l if r is TRUE else r
            return x if op == "==" else mknot(x)
        if op != "is" and (r is FALSE or l is FALSE):
            x = l if r is FALSE else r
            return mknot(x) if op == "==" else x
    if op in ("<", "<=") and l.op == "const" and r.op == "const":
        try:
            return const(l.a[0] < r.a[0] if op == "<" else l.a[0] <= r.a[0])
        except TypeError:
            pass
    return mk("cmp", op, l, r)


_SEQ = ("list", "fstr", "tuple", "app", "comp")


def _seqlike(t):
    while t.op == "alloc":
        t = t.a[1]
    if t.op == "const" and isinstance(t.a[0], (str, bytes)):
        return True
    if t.op == "ite":
        return _seqlike(t.a[1]) or _seqlike(t.a[2])
    if t.op in ("mu",):
        return _seqlike(t.a[2])
    if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.list", "builtins.tuple", "builtins.str"):
        return True
    if t.op == "bin" and t.a[0] == "cat":
        return True
    return t.op in _SEQ


def _num(t):
    return t.op == "const" and isinstance(t.a[0], (int, float)) and not isinstance(t.a[0], bool)


def mkbin(op, *xs):
    if op == "**" and len(xs) == 2 and is_const(xs[1], 2):
        return mkbin("*", xs[0], xs[0])
    if op == "+" and any(_seqlike(x) for x in xs):
        strs = [x for x in xs if (x.op == "const" and isinstance(x.a[0], str)) or x.op == "fstr"]
        if strs:
            parts = []
            for x in xs:
                parts.append(x)
            return mkfstr(parts)
        tt = [x for x in xs]
        if all(x.op == "tuple" for x in tt):
            return mk("tuple", *[y for x in tt for y in x.a])
        inner = [strip_alloc(x) for x in tt]
        if all(x.op == "list" for x in inner):
            return mk("list", *[y for x in inner for y in x.a])
        out = []
        for x in xs:
            if x.op == "bin" and x.a[0] == "cat":
                out.extend(x.a[1:])
            else:
                out.append(x)
        return mk("bin", "cat", *out)
    if op in ("+", "*", "&", "|", "^"):
        out = []
        for x in xs:
            if x.op == "bin" and x.a[0] == op:
                out.extend(x.a[1:])
            else:
                out.append(x)
        nums = [x for x in out if _num(x)]
        if len(nums) > 1:
            rest = [x for x in out if not _num(x)]
            try:
                v = nums[0].a[0]
                for x in nums[1:]:
                    v = {"+": lambda p, q: p + q, "*": lambda p, q: p * q, "&": lambda p, q: p & q,
                         "|": lambda p, q: p | q, "^": lambda p, q: p ^ q}[op](v, x.a[0])
                out = rest + [const(v)]
            except TypeError:
                pass
        if op == "+" and len(out) > 1:
            out = [x for x in out if not is_const(x, 0)] or [const(0)]
        if op == "*" and len(out) > 1:
            out = [x for x in out if not is_const(x, 1)] or [const(1)]
        if len(out) == 1:
            return out[0]
        return mk("bin", op, *sorted(out, key=lambda t: t.id))
    if len(xs) == 2 and _num(xs[0]) and _num(xs[1]):
        a, b = xs[0].a[0], xs[1].a[0]
        try:
            if op == "-":
                return const(a - b)
            if op == "<<" and 0 <= b < 512:
                return const(a << b)
            if op == ">>":
                return const(a >> b)
            if op == "/":
                return const(a / b)
            if op == "//":
                return const(a // b)
            if op == "%":
                return const(a % b)
            if op == "**" and abs(b) < 100 and abs(a) < 1e4:
                return const(a ** b)
        except (TypeError, ZeroDivisionError, OverflowError):
            pass
    if op == "-" and is_const(xs[1], 0):
        return xs[0]
    if op == "%" and xs[0].op == "const" and isinstance(xs[0].a[0], str):
        return fmt_percent(xs[0].a[0], xs[1])
    return mk("bin", op, *xs)


def mkfstr(parts):
    out = []
    for p in parts:
        ps = p.a if p.op == "fstr" else (p,)
        for q in ps:
            if q.op == "const" and isinstance(q.a[0], str):
                if q.a[0] == "":
                    continue
                if out and out[-1].op == "const":
                    out[-1] = const(out[-1].a[0] + q.a[0])
                    continue
            elif q.op == "const" and isinstance(q.a[0], int) and not isinstance(q.a[0], bool):
                q = const(str(q.a[0]))
                if out and out[-1].op == "const":
                    out[-1] = const(out[-1].a[0] + q.a[0])
                    continue
            out.append(q)
    if not out:
        return const("")
    if len(out) == 1 and out[0].op == "const":
        return out[0]
    return mk("fstr", *out)


def mkfmtpart(val, spec, conv=None):
    if val.op == "const" and isinstance(val.a[0], (str, int)) and not isinstance(val.a[0], bool):
        try:
            return const(format(val.a[0], spec or ""))
        except (ValueError, TypeError):
            pass
    spec = (spec or "")
    if spec in ("", "d", "s"):
        return mk("fmt", val, "")
    if spec.endswith("d") and len(spec) > 1:
        spec = spec
    return mk("fmt", val, spec)


def fmt_percent(s, arg):
    import re
    args = list(arg.a) if arg.op == "tuple" else [arg]
    parts = []
    pos = 0
    i = 0
    for m in re.finditer(r"%(%|([0#\- +]*\d*(?:\.\d+)?)([sdifgr]))", s):
        parts.append(const(s[pos:m.start()]))
        pos = m.end()
        if m.group(1) == "%":
            parts.append(const("%"))
            continue
        if i >= len(args):
            return mk("bin", "%", const(s), arg)
        sp = m.group(2) + (m.group(3) if m.group(3) not in "sri" else ("d" if m.group(3) == "i" else ""))
        parts.append(mkfmtpart(args[i], sp))
        i += 1
    parts.append(const(s[pos:]))
    return mkfstr(parts)


def fmt_format(s, args, kws):
    import string
    parts = []
    auto = 0
    try:
        for lit, field, spec, conv in string.Formatter().parse(s):
            parts.append(const(lit))
            if field is None:
                continue
            if field == "":
                v = args[auto]
                auto += 1
            elif field.isdigit():
                v = args[int(field)]
            elif field in kws:
                v = kws[field]
            else:
                return None
            if spec and "{" in spec:
                return None
            parts.append(mkfmtpart(v, spec, conv))
    except (ValueError, IndexError):
        return None
    return mkfstr(parts)


def mkite(c, a, b):
    if a is b:
        return a
    if is_const(c):
        return a if c.a[0] else b
    if c.op == "not":
        return mkite(c.a[0], b, a)
    if c.op == "cmp" and c.a[0] == "!=":
        return mkite(mk("cmp", "==", c.a[1], c.a[2]), b, a)
    if c.op == "cmp" and c.a[0] == "<=":
        return mkite(mk("cmp", "<", c.a[2], c.a[1]), b, a)
    a = simp_under(a, c, True)
    b = simp_under(b, c, False)
    if a is b:
        return a
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return mknot(c)
    if a is TRUE:
        return mkor(c, b)
    if b is FALSE:
        return mkand(c, a)
    if a is FALSE:
        return mkand(mknot(c), b)
    if b is TRUE:
        return mkor(mknot(c), a)
    return mk("ite", c, a, b)


def simp_under(t, c, pol):
    """Resolve a chain of top-level ite's by one literal."""
    n = 0
    while t.op == "ite" and n < 20:
        n += 1
        if t.a[0] is c:
            t = t.a[1] if pol else t.a[2]
        else:
            break
    return t


def strip_alloc(t):
    while t.op == "alloc":
        t = t.a[1]
    return t


def children(t):
    for x in t.a:
        if isinstance(x, T):
            yield x


def subterms(t, stop=None):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        yield x
        if stop is not None and stop(x):
            continue
        st.extend(children(x))


def contains(t, pred, stop=None):
    for x in subterms(t, stop):
        if pred(x):
            return True
    return False


def has(t, needle):
    return contains(t, lambda x: x is needle)


def rewrite(t, f, memo=None):
    """Bottom-up rewrite; f(term)->term."""
    if memo is None:
        memo = {}
    r = memo.get(t.id)
    if r is not None:
        return r
    na = tuple(rewrite(x, f, memo) if isinstance(x, T) else x for x in t.a)
    if all(x is y for x, y in zip(na, t.a)):
        n = t
    else:
        n = rebuild(t.op, na)
    r = f(n)
    memo[t.id] = r
    return r


def rebuild(op, a):
    if op == "bin":
        return mkbin(a[0], *a[1:])
    if op == "ite":
        return mkite(*a)
    if op == "not":
        return mknot(a[0])
    if op == "and":
        return mkand(*a)
    if op == "or":
        return mkor(*a)
    if op == "cmp":
        return mkcmp(*a)
    if op == "sub":
        return mksub(a[0], a[1])
    return mk(op, *a)


# ---------------------------------------------------------------- select
def _distinct_keys(k1, k2):
    return k1.op == "const" and k2.op == "const" and k1 is not k2


def mksub(b, k):
    """b[k] with read-over-write resolution."""
    n = 0
    while n < 60:
        n += 1
        if b.op == "alloc":
            inner = b.a[1]
            if inner.op in ("dict", "list", "tuple") or (inner.op == "call" and _is_empty_ctor(inner)):
                r = _sub_lit(inner, k)
                if r is not None:
                    return r
            break
        if b.op in ("dict", "list", "tuple"):
            r = _sub_lit(b, k)
            if r is not None:
                return r
            break
        if b.op == "store":
            if b.a[1] is k:
                return b.a[2]
            if _distinct_keys(b.a[1], k):
                b = b.a[0]
                continue
            break
        if b.op == "ite":
            if any(_resolvable(x, k) for x in (b.a[1], b.a[2])):
                return mkite(b.a[0], mksub(b.a[1], k), mksub(b.a[2], k))
            break
        break
    if b.op == "const" and isinstance(b.a[0], str) and k.op == "const" and isinstance(k.a[0], int):
        try:
            return const(b.a[0][k.a[0]])
        except IndexError:
            pass
    if b.op == "slice_":
        pass
    return mk("sub", b, k)


def _is_empty_ctor(t):
    return t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in ("builtins.dict", "builtins.list") and len(t.a) == 1


def _resolvable(b, k, d=0):
    if b.op == "alloc":
        b = b.a[1]
    if b.op in ("tuple", "list", "dict"):
        return _sub_lit(b, k) is not None
    if b.op == "store":
        if b.a[1] is k:
            return True
        return _distinct_keys(b.a[1], k) and d < 10 and _resolvable(b.a[0], k, d + 1)
    if b.op == "ite" and d < 10:
        return _resolvable(b.a[1], k, d + 1) or _resolvable(b.a[2], k, d + 1)
    return False


def _sub_lit(b, k):
    if b.op in ("tuple", "list"):
        if k.op == "const" and isinstance(k.a[0], int) and not any(x.op == "star" for x in b.a):
            if -len(b.a) <= k.a[0] < len(b.a):
                return b.a[k.a[0]]
        if k.op == "slice" and not any(x.op == "star" for x in b.a):
            def iv(x):
                return True if x is NONE or (x.op == "const" and isinstance(x.a[0], int)) else False
            if all(iv(x) for x in k.a):
                return mk(b.op, *list(b.a)[slice(*[x.a[0] for x in k.a])])
        return None
    if b.op == "dict":
        for i in range(len(b.a) - 2, -1, -2):
            if b.a[i] is k:
                return b.a[i + 1]
            if not _distinct_keys(b.a[i], k):
                return None
        return None
    return None


# ---------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 9:
        return "…"
    s = lambda x: show(x, d + 1)
    o = t.op
    if o == "const":
        return repr(t.a[0])
    if o in ("ext", "fn", "cls", "mod", "global"):
        return str(t.a[0]).split("builtins.")[-1]
    if o == "param":
        return t.a[1]
    if o == "attr":
        return s(t.a[0]) + "." + t.a[1]
    if o == "sub":
        return s(t.a[0]) + "[" + s(t.a[1]) + "]"
    if o == "slice":
        return ":".join("" if x is NONE else s(x) for x in t.a[:2]) + ("" if t.a[2] is NONE else ":" + s(t.a[2]))
    if o in ("tuple", "list", "set"):
        return {"tuple": "(%s)", "list": "[%s]", "set": "{%s}"}[o] % ", ".join(s(x) for x in t.a)
    if o == "dict":
        return "{" + ", ".join(s(t.a[i]) + ": " + s(t.a[i + 1]) for i in range(0, len(t.a), 2)) + "}"
    if o == "call":
        return s(t.a[0]) + "(" + ", ".join(s(x) for x in t.a[1:]) + ")"
    if o == "kw":
        return t.a[0] + "=" + s(t.a[1])
    if o == "bin":
        return "(" + (" %s " % t.a[0]).join(s(x) for x in t.a[1:]) + ")"
    if o == "un":
        return t.a[0] + s(t.a[1])
    if o == "not":
        return "not " + s(t.a[0])
    if o in ("and", "or"):
        return "(" + (" %s " % o).join(s(x) for x in t.a) + ")"
    if o == "cmp":
        return "(" + s(t.a[1]) + " " + t.a[0] + " " + s(t.a[2]) + ")"
    if o == "ite":
        return "(" + s(t.a[1]) + " if " + s(t.a[0]) + " else " + s(t.a[2]) + ")"
    if o == "idx":
        return "#" + s(t.a[0])
    if o == "alloc":
        return s(t.a[1])
    if o == "mu":
        return "µ%s" % t.a[1]
    if o == "loop":
        return "loop(" + s(t.a[1]) + ")"
    if o == "store":
        return s(t.a[0]) + "{" + s(t.a[1]) + ":=" + s(t.a[2]) + "}"
    if o == "app":
        return s(t.a[0]) + "+[" + s(t.a[1]) + "]"
    if o == "fstr":
        return "f'" + "".join(x.a[0] if x.op == "const" else "{" + s(x) + "}" for x in t.a) + "'"
    if o == "fmt":
        return s(t.a[0]) + (":" + t.a[1] if t.a[1] else "")
    return o + "<" + ", ".join(s(x) for x in t.a) + ">"
