"""Development aid.  seed.py new ID PROPERTY 'needs' 'what' < main.rs : takes the diff in the scratch
copy /tmp/w/sr as seeded/ID.   seed.py verify ID...   seed.py check ID [PROP...]"""
import subprocess, sys, os, json, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = "/tmp/w/sr"


def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)


def reset():
    sh("git -C %s fetch -q /repo HEAD && git -C %s checkout -q -f FETCH_HEAD" % (SR, SR))


def verify(i):
    d = "%s/seeded/%s" % (V, i)
    reset()
    r0 = sh("bash %s/demo.sh" % d, cwd=SR)
    a = sh("git -C %s apply %s/patch.diff" % (SR, d))
    if a.returncode:
        print(i, "PATCH DOES NOT APPLY", a.stdout)
        return False
    e = "export PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true; "
    sh("sleep 1; find src -name '*.rs' | xargs touch", cwd=SR)
    t = sh(e + "cargo test --workspace --no-fail-fast --offline 2>&1 ", cwd=SR)
    fails = [l for l in t.stdout.splitlines() if "FAILED" in l or l.startswith("error") or l.startswith("    tests::")]
    r1 = sh("bash %s/demo.sh" % d, cwd=SR)
    reset()
    ok = r0.returncode == 0 and r1.returncode != 0 and not fails
    print(i, "OK" if ok else "BAD", "clean rc", r0.returncode, "patched rc", r1.returncode, "test fails", fails[:4])
    if not ok:
        print(r0.stdout[-1500:], "\n-----patched\n", r1.stdout[-1500:])
    return ok


def check(i, props):
    d = "%s/seeded/%s" % (V, i)
    reset()
    sh("git -C %s apply %s/patch.diff" % (SR, d))
    env = dict(os.environ, OSU_REPO=SR)
    for p in props or [json.load(open(d + "/meta.json"))["property"]]:
        r = sh("python3 %s/sa/check.py %s" % (V, p), env=env)
        print(i, p, "rc", r.returncode, "CAUGHT" if r.returncode == 1 else "missed")
        print("\n".join("   " + l for l in r.stdout.splitlines()[-6:]))
    reset()


if __name__ == "__main__":
    c = sys.argv[1]
    if c == "new":
        i, p, needs, what = sys.argv[2:6]
        d = "%s/seeded/%s" % (V, i)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(sh("git -C %s diff" % SR).stdout)
        open(d + "/main.rs", "w").write(sys.stdin.read())
        shutil.copy(V + "/tools/demo.sh", d + "/demo.sh")
        json.dump({"property": p, "needs": needs, "what_it_breaks": what}, open(d + "/meta.json", "w"), indent=1)
        verify(i)
    elif c == "verify":
        for i in sys.argv[2:] or sorted(os.listdir(V + "/seeded")):
            verify(i)
    elif c == "check":
        check(sys.argv[2], sys.argv[3:])
    elif c == "checkall":
        for i in sorted(os.listdir(V + "/seeded")):
            check(i, sys.argv[2:])
    elif c == "reset":
        reset()
