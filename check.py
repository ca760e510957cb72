#!/usr/bin/env python3
"""python3 check.py CNN [--thorough] | --setup | --all   (static analysis; never runs code of /repo)"""
import importlib
import json
import os
import sys
import time

ROOT = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, ROOT)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)

from rrsa.load import Program, AnalysisBroken          # noqa: E402
from rrsa.ctx import Ctx                                # noqa: E402


def known_findings():
    out = {}
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("finding: "):
                d = line[len("finding: "):]
                prop, key, what = [x.strip() for x in d.split(" | ", 2)]
                out[(prop.replace("property=", ""), key)] = what
    return out


def run(pid, tier, prog=None, quiet=False, write=True):
    t0 = time.time()
    lines = []
    if prog is None:
        prog = Program()
    mod = importlib.import_module("rrsa.checks." + pid.lower())
    ctx = Ctx(prog, pid, tier)
    mod.run(ctx)
    kf = known_findings()
    viol, found = [], []
    for rule, cons, ok, where, msg in ctx.obs:
        if ok:
            continue
        key = rule + ":" + cons
        if (pid, key) in kf:
            found.append((key, where, kf[(pid, key)]))
        else:
            viol.append((key, where, msg))
    undec = [u for u in ctx.undecided if not any(v[0].startswith(u[0] + ":") for v in viol)]
    lines.append("%s: %d functions analysed, %d rules, %d obligations, %d failed, %d known, %d rules undecided" % (
        pid, len(ctx.functions), len(ctx.rules), len(ctx.obs), len(viol), len(found), len(undec)))
    for r, why in undec:
        lines.append("  UNDECIDED rule=%s (%s)" % (r, why))
    for k, w, what in found:
        lines.append("KNOWN-FINDING: property=%s %s [%s at %s]" % (pid, what, k, w))
    seen = set()
    for k, w, msg in viol:
        if (k, w) in seen:
            continue
        seen.add((k, w))
        lines.append("  FAILED %s at %s: %s" % (k, w, msg))
    rc = 0
    evdir = os.path.join(ROOT, "evidence")
    if viol:
        rc = 1
        if write:
            os.makedirs(evdir, exist_ok=True)
            rp = os.path.join(evdir, "%s.violation.json" % pid)
            with open(rp, "w") as f:
                json.dump([dict(rule=k.split(":", 1)[0], construct=k.split(":", 1)[1], where=w, message=m) for k, w, m in viol], f, indent=1)
        lines.append("VIOLATION property=%s replay=evidence/%s.violation.json" % (pid, pid))
    elif not ctx.obs:
        rc = 2
        lines.append("ERROR: no rule of %s could be decided" % pid)
    if write:
        per = {}
        for rule, cons, ok, where, msg in ctx.obs:
            d = per.setdefault(rule, dict(text=ctx.rules[rule], obligations=0, failed=0))
            d["obligations"] += 1
            d["failed"] += (not ok)
        samp = [dict(rule=r, construct=c, where=w, holds=ok) for r, c, ok, w, m in ctx.obs[:40]]
        ev = dict(property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level="other",
                  coverage=dict(
                      explanation="Static analysis of the current source tree: value-flow terms and ordered effects of the listed "
                                  "functions were built from the syntax trees (helpers inlined, gated merges, loops summarised) and each "
                                  "obligation below was decided on them. No code of /repo was executed.",
                      source_digest=prog.digest(), functions_analysed=sorted(ctx.functions), functions=len(ctx.functions),
                      call_sites_evaluated=ctx.ncalls, effects_recorded=ctx.neffects, rules=per,
                      obligations=len(ctx.obs), obligations_failed=len(viol), known_findings=len(found),
                      rules_undecided=[dict(rule=r, reason=w) for r, w in undec], samples=samp),
                  wall_s=round(time.time() - t0, 3))
        os.makedirs(evdir, exist_ok=True)
        with open(os.path.join(evdir, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    return rc, lines, viol


def main(argv):
    tier = "thorough" if "--thorough" in argv or os.environ.get("VERIF_TIER") == "thorough" else "quick"
    args = [a for a in argv if not a.startswith("--")]
    if "--setup" in argv:
        Program()
        print("setup: sources parsed")
        return 0
    if "--all" in argv:
        args = sorted(f[:-3].upper() for f in os.listdir(os.path.join(ROOT, "rrsa", "checks")) if f[0] == "c" and f[1:-3].isdigit())
    rc = 0
    prog = None
    for a in args:
        try:
            if prog is None:
                prog = Program()
            r, lines, _ = run(a, tier, prog)
        except AnalysisBroken as e:
            r, lines = 2, ["%s: ERROR %s" % (a, e)]
        print("\n".join(lines))
        rc = max(rc, r) if not (rc == 1 or r == 1) else 1
    return rc


if __name__ == "__main__":
    sys.exit(main(sys.argv[1:]))
