"""C14: parsing, printing and every accessor are pure functions of their arguments.
Rule: no function of the crate reaches (resolved call graph over monomorphised MIR) a
library function with an effect outside its arguments or a result that differs between
runs, and no static holds mutable state."""
import re

DENY = [
    (r"^(std|core)::fs::", "file system"), (r"\bstd::fs::", "file system"),
    (r"\bstd::env::", "process environment"), (r"\bstd::net::", "network"),
    (r"\bstd::process::", "processes"),
    (r"\bstd::time::(Instant|SystemTime)", "clock"),
    (r"\bstd::thread::(?!local_impl::|panicking)", "threads"),
    (r"\bstd::io::", "stdio"), (r"\bstd::os::", "operating system"),
    (r"\bstd::path::Path::(exists|try_exists|is_file|is_dir|is_symlink|metadata|symlink_metadata|"
     r"canonicalize|read_link|read_dir)\b", "file system"),
    (r"\bstd::path::absolute\b", "current directory"),
    (r"(HashMap|HashSet)(::)?<.*>::(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain|retain|"
     r"extract_if|difference|union|intersection|symmetric_difference)\b", "hash iteration order"),
    (r"<&?'?\w* ?(mut )?std::collections::(hash_map::|hash_set::)?Hash(Map|Set)<.* as std::iter::IntoIterator>",
     "hash iteration order"),
    (r"\bRandomState as std::hash::BuildHasher", "random hash state"),
    (r"\bstd::hash::random::", "random hash state"),
    (r"\bstd::sync::atomic::.*::(store|swap|fetch_\w+|compare_exchange\w*|update)\b", "shared mutable state"),
    (r"\bstd::sync::(poison::)?(mutex::|rwlock::)?(Mutex|RwLock)::<.*>::(lock|write|try_lock|try_write)",
     "shared mutable state"),
    (r"\bstd::intrinsics::(volatile_|atomic_(store|xchg|xadd|cxchg))", "shared mutable state"),
    (r"\bstd::alloc::set_alloc_error_hook", "global hooks"), (r"\bstd::panic::(set_hook|take_hook)", "global hooks"),
    (r"\brand::|\bgetrandom::|\blibc::", "operating system"),
    (r"\bas std::fmt::Pointer>::fmt", "addresses"),
]
DENY = [(re.compile(a), b) for a, b in DENY]
# the rule must be able to fire: one name per class that has to match
MUST_MATCH = ["std::fs::read", "std::env::var", "std::time::SystemTime::now", "std::io::_print",
              "std::path::Path::exists", "std::collections::HashMap::<K, V, S, A>::iter",
              "<&'a std::collections::HashMap<K, V, S> as std::iter::IntoIterator>::into_iter",
              "std::thread::LocalKey::<T>::with", "std::sync::atomic::Atomic::<usize>::fetch_add"]
MUST_NOT = ["std::path::Path::extension", "std::str::<impl str>::replace", "std::vec::Vec::<T>::new",
            "std::collections::HashSet::<T, S, A>::insert"]


def classify(name):
    for r, why in DENY:
        if r.search(name):
            return why
    return None


def run(F, rep):
    rep.rule = ("effect analysis: reachability in the resolved call graph of the monomorphised MIR, from "
                "every function of the crate, to library functions with ambient effects or run-dependent "
                "results; plus statics with interior mutability")
    for n in MUST_MATCH:
        if not classify(n):
            rep.errors.append("rule cannot match " + n)
    for n in MUST_NOT:
        if classify(n):
            rep.errors.append("rule matches " + n)
    starts = [f["id"] for f in F.fns if f["local"]]
    seen, parent = F.reach(starts)
    leaves = set()
    for x in sorted(seen):
        f = F.fns[x]
        if f["local"]:
            rep.count("functions")
            for _ in F.calls(f):
                rep.count("call_sites")
            continue
        leaves.add(f["path"])
        why = classify(f["name"]) or classify(f["path"])
        if why:
            ch = F.chain(parent, x)
            loc = [c for c in ch]
            rep.violation("effect|%s|%s" % (loc[-2] if len(loc) > 1 else "?", f["path"]),
                          "%s: %s reached through %s" % (why, f["path"], " -> ".join(ch)))
        else:
            rep.ok()
    rep.samples = sorted(leaves)[:40]
    rep.count("library_functions", len(leaves))
    # call sites whose callee is not resolved must be through values of the crate's own closures
    for f in F.fns:
        if f["local"] and f.get("body"):
            for bi, callee, t in F.calls(f):
                if callee is not None and callee.get("kind", "").startswith("virtual"):
                    rep.count("virtual_calls")
    for s in F.statics:
        rep.count("statics")
        if s["mut"] or s["tls"] or (s["interior"] and not re.search(r"\b(OnceLock|LazyLock|OnceCell|LazyCell)<", s["ty"])):
            rep.violation("static|%s" % s["name"], "static %s holds mutable state" % s["name"])
        else:
            rep.ok()
    rep.floor("functions", rep.analysed.get("functions", 0), 600)
    rep.floor("library functions", len(leaves), 100)
    rep.assumptions = ["library functions outside the deny table have no ambient effects (std, nom, either, "
                       "rust_decimal contracts)", "generic methods nothing in the crate instantiates "
                       "(Hash::hash<H>) are only calls into their argument"]
