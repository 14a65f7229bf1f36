"""Compares the models of the standard library with the library itself: every function of zz.rs is true when it runs
(cargo test) and has to be found true, on one exact path, by the analysis. Not a check; run by hand after changes to models.py.

usage: run.py SCRATCH_DIR [name...]   (SCRATCH_DIR is created as a copy of /repo if it does not exist)"""
import os, re, subprocess, sys
HERE = os.path.dirname(os.path.abspath(__file__))
D = os.path.abspath(sys.argv[1])
src = open(os.path.join(HERE, "zz.rs")).read()
names = re.findall(r"pub fn (a_\w+)", src)
if not os.path.isdir(D):
    subprocess.run(["cp", "-a", "/repo", D], check=True)
    open(D + "/src/lib.rs", "a").write("pub mod zz;\n")
with open(D + "/src/zz.rs", "w") as fh:
    fh.write(src + "#[cfg(test)] mod t { use super::*; #[test] fn all() { %s } }\n" % " ".join(
        'assert!(%s(), "%s");' % (n, n) for n in names))
subprocess.run(["cargo", "test", "--offline", "--lib", "zz", "-q"], cwd=D, check=True, stderr=subprocess.DEVNULL)
os.environ["OSU_REPO"] = D
sys.path.insert(0, os.path.join(HERE, "../../sa"))
sys.setrecursionlimit(20000)
import facts, an
F = facts.Facts()
bad = wrong = 0
for f in F.fns:
    n = f["path"].rsplit("::", 1)[-1]
    if "zz::a_" not in f["path"] or n not in names or sys.argv[2:] and not any(o in n for o in sys.argv[2:]):
        continue
    st = an.St()
    try:
        ex = an.make_engine(F, (), K=6)
        res = []
        for k, v, s in ex.run(f["id"], [], st):
            res.append((k, v if v is True or v is False else str(v)[:120], tuple(map(str, s.notes))))
    except an.Unsupported as e:
        res = [("unsupported", str(e)[:120], ())]
    exact = [r for r in res if not r[2] and r[0] in ("ret", "panic")]
    if res != [("ret", True, ())]:
        bad += 1
        w = any(r[1] is not True or r[0] == "panic" for r in exact)
        wrong += w
        print("WRONG" if w else "open ", n, res[:2])
print("%d functions, %d open, %d wrong" % (len(names), bad - wrong, wrong))
sys.exit(1 if wrong else 0)
