"""Builds the rustc driver (once) and dumps typed, monomorphised MIR facts of /repo's
current working tree.  Nothing of the analysed crate is executed."""
import hashlib, json, os, shutil, subprocess, sys, time, fcntl, glob

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("OSU_REPO", "/repo")
CACHE = os.path.join(VERIF, ".cache")

# library code that is interpreted from its own MIR (everything else in std is modelled)
EXPAND = ("nom::,either::,core::option::,std::option::,core::result::,std::result::,"
          "core::ops::,std::ops::,core::convert::,std::convert::,core::cmp::,std::cmp::,"
          "core::iter::,std::iter::,core::bool::,core::tuple::,core::default::,std::default::,"
          "core::borrow::,std::borrow::,Option<,Result<")
NOEXPAND = ("core::fmt::,std::fmt::,core::ptr::,std::ptr::,alloc::raw_vec,precondition_check,"
            "rust_decimal::,strum::")


class BuildError(Exception):
    pass


def env():
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    e["RUSTUP_TOOLCHAIN"] = "nightly"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUSTC_WRAPPER"] = ""
    e.pop("RUSTFLAGS", None)
    e.pop("CARGO_ENCODED_RUSTFLAGS", None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def driver():
    d = os.path.join(VERIF, "driver")
    out = os.path.join(CACHE, "driver", "debug", "osu-facts")
    run(["cargo", "build", "--offline", "--manifest-path", os.path.join(d, "Cargo.toml"),
         "--target-dir", os.path.join(CACHE, "driver")], env=env(), cwd=d)
    return out


def tree_hash():
    h = hashlib.sha256()
    files = sorted(glob.glob(REPO + "/src/**/*", recursive=True)) + [REPO + "/Cargo.toml", REPO + "/Cargo.lock"]
    files += [os.path.join(VERIF, "driver/src/main.rs"), os.path.abspath(__file__)]
    for f in files:
        if os.path.isfile(f):
            h.update(f.encode() + b"\0")
            with open(f, "rb") as fh:
                h.update(fh.read())
            h.update(b"\0")
    return h.hexdigest()[:24]


def facts_path():
    """path of the facts of the current tree (content-addressed: any change of a source
    file gives another key and a new dump)"""
    os.makedirs(CACHE, exist_ok=True)
    with open(os.path.join(CACHE, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = tree_hash()
        out = os.path.join(CACHE, "facts-%s.json" % key)
        if os.path.exists(out):
            return out
        drv = driver()
        sysroot = run(["rustc", "--print", "sysroot"], env=env()).strip()
        tgt = os.path.join(CACHE, "target")
        # cargo's freshness cache would skip the wrapper
        for fp in (glob.glob(os.path.join(tgt, "debug/.fingerprint/osu-file-parser-*")) +
                   glob.glob(os.path.join(tgt, "debug/build/osu-file-parser")) +
                   glob.glob(os.path.join(tgt, "debug/build/osu-file-parser-*"))):
            shutil.rmtree(fp, ignore_errors=True)
        e = env()
        e["RUSTC_WORKSPACE_WRAPPER"] = drv
        e["LD_LIBRARY_PATH"] = sysroot + "/lib"
        e["RUSTFLAGS"] = "-Zalways-encode-mir -Zmir-enable-passes=-CheckNull,-CheckAlignment,-CheckEnums"
        e["OSU_FACTS_CRATE"] = "osu_file_parser"
        tmp = out + ".tmp%d" % os.getpid()
        e["OSU_FACTS_OUT"] = tmp
        e["OSU_FACTS_EXPAND"] = EXPAND
        e["OSU_FACTS_NOEXPAND"] = NOEXPAND
        log = run(["cargo", "check", "--lib", "--offline", "--manifest-path", REPO + "/Cargo.toml",
                   "--target-dir", tgt], env=e, cwd=REPO)
        if not os.path.exists(tmp):
            raise BuildError("driver wrote no facts\n" + log[-4000:])
        old = sorted((f for f in glob.glob(os.path.join(CACHE, "facts-*.json*")) if f != tmp),
                     key=os.path.getmtime)
        for f in old[:-5]:
            os.remove(f)
        os.rename(tmp, out)
        return out


if __name__ == "__main__":
    t = time.time()
    p = facts_path()
    print(p, os.path.getsize(p), "%.1fs" % (time.time() - t))
