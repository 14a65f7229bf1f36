"""check.py <property>: decides one property from /repo's current source."""
import os, sys, importlib, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.setrecursionlimit(20000)


def main():
    pid = sys.argv[1]
    import build, facts, report
    rep = report.Report(pid)
    mod = importlib.import_module("checks." + pid.lower())
    F = facts.Facts()
    mod.run(F, rep)
    return rep.finish()


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    sys.exit(rc)
