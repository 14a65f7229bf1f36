"""C17: a line that was read and written again reads back as the same value."""
import collections, os
import lines, rt, an

DEPS = {}


def job(F, j):
    kind, x = j
    if kind == "leaf":
        o, ex = rt.roundtrip(F, x, max_steps=30000000)
    else:
        o, ex = rt.roundtrip(F, x.T, DEPS[x.T], entry=lambda ex, st: lines.tmpl(st, x.text), K=x.K,
                             vers=x.vers, max_outs=60000, max_steps=60000000)
    c = collections.Counter(a[0] for a in o)
    bad, und = {}, {}
    for st, key, detail, d, vs in o:
        if st in ("bad", "unwritten"):
            k = "not written" if st == "unwritten" else key
            for v in vs:
                bad.setdefault((k, v), d)
        elif st in ("undec", "cut"):
            und.setdefault((st, key, detail), d)
    fns = {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}
    return dict(c), bad, und, fns, ex.steps, dict(ex.unmodelled)


def run(F, rep):
    rep.rule = ("abstract interpretation of from_str, to_string and from_str again over every partition of the "
                "input texts of each line format and of each field type, at every format version; the value read "
                "the second time has to be structurally identical to the first (texts and numbers by the input "
                "column they come from), so it does not depend on what the columns contain")
    rep.assumptions = [
        "printing a number (integer, rust_decimal) and parsing the text gives the number back",
        "a path printed in quotes because it contains a space stands for the same file",
        "lists are followed up to %s repetitions per format" % "1 to 3"]
    ls, deps, missing, badsum = lines.plan(F)
    DEPS.update(deps)
    only = os.environ.get("ONLY")
    ls = [l for l in ls if l.stop is None and (not only or any(l.label.startswith(o) for o in only.split(",")))]
    jobs = [("line", l) for l in ls]
    if not only:
        jobs += [("leaf", t) for t in lines.leaf_types(F)]
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=500):
        name = j[1].name() if j[0] == "line" else j[1].replace("osu_file::", "")
        lab = j[1].label if j[0] == "line" else name
        rep.count("formats")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (name, str(r)[-200:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("partitions", sum(c.values()))
        rep.count("abstract_steps", steps)
        for _ in range(c.get("ok", 0)):
            rep.ok()
        rep.samples.append("%s: %s" % (name, c))
        for (k, v), d in bad.items():
            rep.violation("%s|%s@v%d" % (lab, k, v), "%s: %s: %s" % (name, k, d))
        for k, d in und.items():
            rep.undec("%s: %s %s" % (name, " ".join(k), d or ""))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (name, u))
    rep.analysed["functions"] = len(fns)
    rep.samples = rep.samples[:120]
    rep.floor("formats", rep.analysed.get("formats", 0), 1 if only else 80)
    rep.floor("discharged partitions", rep.discharged, 1 if only else 500)
    rep.errors += ["anchor type %s not found" % m for m in missing]
