"""Obligation bookkeeping for one check run."""
import os
import traceback

from .interp import Interp
from .load import AnalysisBroken
from .terms import *

HERE = os.path.dirname(os.path.abspath(__file__))


def known_functions():
    with open(os.path.join(HERE, "known_functions.txt")) as f:
        return frozenset(x.strip() for x in f if x.strip())


class Undecided(Exception):
    """The code no longer has a shape this rule understands."""


import ast


class Ctx(object):
    def __init__(self, prog, prop, tier="quick"):
        self.prog = prog
        self.prop = prop
        self.tier = tier
        self.obs = []
        self.undecided = []
        self.rules = {}
        self.cur = None
        self.KNOWN = known_functions()
        self._cache = {}
        self.functions = set()
        self.ncalls = 0
        self.neffects = 0
        self.samples = []

    # -------------------------------------------------- running rules
    def rule(self, name, text, fn, *a):
        self.rules[name] = text
        self.cur = name
        n0 = len(self.obs)
        try:
            fn(self, *a)
        except Undecided as e:
            self.undecided.append((name, str(e)))
        except AnalysisBroken as e:
            self.undecided.append((name, str(e)))
        except RecursionError:
            self.undecided.append((name, "recursion limit"))
        except Exception:
            if os.environ.get("RRSA_DEBUG"):
                raise
            self.undecided.append((name, traceback.format_exc().strip().splitlines()[-1]))
        if len(self.obs) == n0 and not any(u[0] == name for u in self.undecided):
            self.undecided.append((name, "no construct for this rule was found"))
        self.cur = None

    def ob(self, construct, ok, where="", msg=""):
        if not isinstance(where, str):
            where = where.where if where is not None else ""
        self.obs.append((self.cur, construct, bool(ok), where, msg))
        return bool(ok)

    def need(self, construct, cond, where="", msg=""):
        """an obligation; later steps of the rule depend on it"""
        if not self.ob(construct, cond, where, msg):
            raise Stop()
        return cond

    # -------------------------------------------------- analysis access
    def entries(self, pred):
        """functions to analyse on their own whose body, or that of a helper they call, satisfies pred(node)

        Helpers (functions the checks do not know by name) are analysed where they are called."""
        if not hasattr(self.prog, "_refs"):
            self.prog._refs = {}
            for q, f in self.prog.funcs.items():
                self.prog._refs[q] = {n.id for n in ast.walk(f.node) if isinstance(n, ast.Name)} | {n.attr for n in ast.walk(f.node) if isinstance(n, ast.Attribute)}
        refs = self.prog._refs
        helpers = {}
        for q in self.prog.funcs:
            if q not in self.KNOWN:
                helpers.setdefault(q.rsplit(".", 1)[1], []).append(q)
        own = {q: bool(pred(f.node)) for q, f in self.prog.funcs.items()}
        called = set()
        for q in self.prog.funcs:
            for n in refs[q] & set(helpers):
                called |= {h for h in helpers[n] if h != q}
        out = []
        for q in sorted(self.prog.funcs):
            if q in called and q not in self.KNOWN:
                continue
            todo, seen, hit = [q], {q}, False
            while todo and not hit:
                x = todo.pop()
                hit = own[x]
                for n in refs[x] & set(helpers):
                    for h in helpers[n]:
                        if h not in seen:
                            seen.add(h)
                            todo.append(h)
            if hit:
                out.append(q)
        return out

    def interp(self, entry, inline=(), args=None, types=None, method_hint=None, assume=(), inline_all=False, maxdepth=9,
               hooks=None, stop_extra=()):
        key = (entry, tuple(sorted(inline)), tuple(sorted((k, v.id) for k, v in (args or {}).items())),
               tuple(sorted((k.id, v) for k, v in (types or {}).items())),
               tuple(sorted((method_hint or {}).items())), tuple(a.id for a in assume), inline_all,
               tuple(sorted(stop_extra)))
        if key in self._cache and not hooks:
            return self._cache[key]
        inl = frozenset(inline)
        xs = frozenset(stop_extra)
        if inline_all:
            st = lambda q: q in xs
        else:
            st = lambda q: (q in self.KNOWN and q not in inl) or q in xs
        I = Interp(self.prog, stop=st, types=types, assume=assume, maxdepth=maxdepth, hooks=hooks)
        if method_hint:
            I.method_hint.update(method_hint)
        I.run(entry, args)
        self.functions |= I.stats["functions"]
        self.ncalls += I.stats["calls"]
        self.neffects += len(I.effects)
        self._cache[key] = I
        return I


class Stop(Undecided):
    """the rule ended after a failed obligation"""
