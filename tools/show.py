#!/usr/bin/env python3
"""developer aid: print effects and result terms of a function"""
import sys, os
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from rrsa.load import Program
from rrsa.ctx import Ctx
from rrsa.terms import *
import argparse
ap = argparse.ArgumentParser()
ap.add_argument("qual"); ap.add_argument("-i", action="append", default=[]); ap.add_argument("-k", default="")
ap.add_argument("-g", action="store_true"); ap.add_argument("-a", action="store_true"); ap.add_argument("-m", action="append", default=[])
a = ap.parse_args()
c = Ctx(Program(), "X")
q = a.qual if a.qual.startswith(("redrock", "bin.")) else "redrock." + a.qual
I = c.interp(q, inline=["redrock." + x for x in a.i], inline_all=a.a, method_hint=dict(m.split("=") for m in a.m))
for e in I.effects:
    if a.k and e.kind not in a.k.split(","):
        continue
    g = " G[" + " & ".join(show(x) + "/" + k for x, k in e.guards) + "]" if a.g else ""
    d = {k: v for k, v in e.d.items() if k not in ("expr", "tgt", "args", "kws", "extra", "rest", "miss") and v is not None}
    if e.kind == "call" and e.d.get("bound") is not None: d.pop("result", None)
    print("%3d %s %s:%d L%d %s%s" % (e.seq, e.kind, e.func.qual.split(".")[-1], e.line, len(e.loops), d, g))
print("RET", I.ret)
