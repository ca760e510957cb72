#!/usr/bin/env python3
"""Developer aid: textual mutants of /repo in scratch copies.  python3 tools/mut.py [CNN ...] [-v]
Mutant files: tools/mutants/cNN.py defines M = [(name, file, old, new, expect)], expect 'bad' (a rule must fire) or 'ok' (stay quiet);
old may be a list of (old, new) pairs with new None."""
import os, sys, shutil, tempfile, importlib.util, multiprocessing
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
import check
from rrsa.load import Program

def tree(dst):
    for d in ("py", "bin"):
        shutil.copytree("/repo/" + d, dst + "/" + d, ignore=shutil.ignore_patterns("test", "*.pyc", "__pycache__", "*.fits", "*.h5"), symlinks=True)

def one(job):
    pid, (name, f, old, new, expect), verbose = job
    tmp = tempfile.mkdtemp(prefix="mut")
    try:
        tree(tmp)
        p = os.path.join(tmp, f)
        s = open(p).read()
        for o, n in (old if isinstance(old, list) else [(old, new)]):
            if s.count(o) < 1:
                return pid, name, "NOT-APPLICABLE (text not found): %r" % o[:60], []
            s = s.replace(o, n, 1)
        open(p, "w").write(s)
        try:
            compile(s, p, "exec")
        except SyntaxError as e:
            return pid, name, "SYNTAX %s" % e, []
        try:
            rc, lines, viol = check.run(pid, "quick", Program(tmp), write=False)
        except Exception as e:
            return pid, name, "CRASH %r" % e, []
        und = [l for l in lines if "UNDECIDED" in l]
        if expect == "bad":
            st = "ok" if rc == 1 else "MISSED rc=%d" % rc
        else:
            st = "ok" if rc == 0 and not und else ("UNDECIDED" if rc == 0 else "FALSE-ALARM rc=%d" % rc)
        return pid, name, st, lines
    finally:
        shutil.rmtree(tmp)

def main():
    v = "-v" in sys.argv
    blind = [a for a in sys.argv[1:] if a[0] == "b"]        # bN: only that file of blind mutants
    own = [a for a in sys.argv[1:] if a[0] in "cC"]
    ids = [a.lower() for a in own] or sorted(x[:-3] for x in os.listdir(ROOT + "/tools/mutants") if x[0] == "c")
    jobs = []
    for i in ids:
        sp = importlib.util.spec_from_file_location(i, ROOT + "/tools/mutants/%s.py" % i)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        jobs += [(i.upper(), x, v) for x in m.M] if not blind or own else []
    # mutants written from the statements alone: B = [(CNN, name, file, old, expect)]
    for f in sorted(os.listdir(ROOT + "/tools/mutants/blind")):
        if not f.endswith(".py") or blind and f[:-3] not in blind:
            continue
        sp = importlib.util.spec_from_file_location(f[:-3], ROOT + "/tools/mutants/blind/" + f)
        m = importlib.util.module_from_spec(sp); sp.loader.exec_module(m)
        jobs += [(c, (n, p, o, None, e), v) for c, n, p, o, e in m.B if e and c.lower() in ids]
    with multiprocessing.Pool(8) as p:
        bad = 0
        for pid, name, st, lines in p.imap(one, jobs):
            if st != "ok" or v:
                print(pid, name, st)
                if v or st.startswith(("FALSE", "UNDEC")):
                    print("\n".join("     " + l[:260] for l in lines))
            bad += st != "ok"
        print(len(jobs), "mutants,", bad, "not as expected")
if __name__ == "__main__":
    main()
