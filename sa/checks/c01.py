"""C01: no text makes a parser panic."""
import collections, os
import lines, rt, an, cont
from checks import c10
from an import *

DEPS = {}
# containers: (type, element parsers are taken as unknown functions, template texts)
SECT = ["{a*}", "{a*}\n{b*}", "{a*}\n\n{b*}\n{c*}", "{k:[]}:{v*}\r\n{l*}"]
FILES = ["{a*}", "osu file format v{n*}\n{a*}\n{b*}", "osu file format v14\n\n[General]\n{a*}\n[{s:[]}]\n{b*}",
         "osu file format v14\n[Events]\n[Editor]{a*}\n[Colours]", "{a*}[{b:[]}]\n{c*}"]


OSB = ["{a*}", "[Variables]\n{a*}\n[Events]\n{b*}", "{a*}\n[{s:[]}]\n{b*}"]
EVENTS = [("{a*}", None), ("0,0,bg.png,0,0\n a{b*}", "Background"), ("Sprite,Fail,Centre,a.png,0,0\n a{b*}", "Object"),
          ("Sprite,Fail,Centre,a.png,0,0\n a{b*}\n  b{c*}", "Object"), ("//{a*}\n\n a{b*}", None),
          ("Sprite,Fail,Centre,a.png,0,0\n_{b*}", "Object"),
          ("1,0,v.avi\n a{b*}", "Video"), ("4,0,0,a.png,0,0\n a{b*}", "SpriteLegacy")]


def site(F, v):
    """function (and reason) of a panic outcome, without line numbers"""
    if isinstance(v, tuple):
        m = str(v[0])
        f = F.fns[v[1]]["name"].replace("osu_file_parser::", "") if len(v) > 1 and v[1] is not None else "?"
        return m, f
    return str(v), "?"


def parsers(F):
    """public text parsers without a version: FromStr, TryFrom<&str>, From<&str>"""
    return lines.from_impls(F)


def black(F, D):
    return [an.Black(d, ("some", "err") if an.fallible(F, d) else ("some",)) for d in D]


def job(F, j):
    kind, T, text, kw = j
    stubs = DEPS.get(T, ())
    kw = dict(kw)
    fid = kw.pop("fid", None)
    if kind == "section":
        real = kw.pop("real", None)
        stubs = black(F, [d for d in lines.direct_deps(F, T, fid) if not (real and d.endswith(real))])
    elif kind == "file":
        stubs = [an.Black(TT, ("some", "none", "err"), pid=p, tid=t, trim=True) for TT, p, t in c10.secs_of(F).values()]
        i = [i for i, f in enumerate(F.fns) if f.get("local") and f["name"].endswith("::Events::from_str_variables")]
        if i:
            stubs.append(an.Black("osu_file::events::Events", ("some", "err"), pid=i[0]))
    elif kind == "fromstr":
        stubs = []
    vers = kw.pop("vers", (3, 14))
    ex = an.make_engine(F, stubs, max_outs=60000, max_steps=60000000, **kw)
    st = St()
    ver = ver_sym(F, st, *vers)
    segs = lines.tmpl(st, text) if text else (Atom("text"),)
    c, bad, und = collections.Counter(), {}, collections.Counter()
    if fid is not None and kind in ("fromstr", "file"):
        outs = []

        def go(s):
            return ex.run(fid, [RefV(Str(segs))], s)
        outs = ex.split(st, go)
    else:
        outs = parse_outcomes(ex, T, segs, ver, st, fid=fid)
    for k, v, s in outs:
        c[k] += 1
        if k == "panic":
            m, f = site(F, v)
            d = rt.describe(ex, s, segs, ver)
            if s.notes:
                und["panic? %s in %s (approximated: %s)" % (m, f, ",".join(map(str, s.notes))[:80])] += 1
            else:
                bad.setdefault("%s in %s" % (m, f), d)
        elif k == "cut":
            und["cut: %s" % str(v)[:80]] += 1
    fns = {i for i in ex.visited if F.fns[i].get("local")}
    return dict(c), bad, dict(und), fns, ex.steps, dict(ex.unmodelled)


def sites(F, ids):
    """potential panic sites of functions: MIR asserts and calls that may panic"""
    n = collections.Counter()
    for i in ids:
        b = F.fns[i].get("body")
        if not b:
            continue
        for blk in b["blocks"]:
            t = blk["t"]
            if t[0] == "assert":
                n["checks (overflow, index)"] += 1
            elif t[0] == "call":
                c = None
        for bi, c, t in F.calls(F.fns[i]):
            if c is None:
                continue
            p = F.fns[c["id"]]["path"] if "id" in c else ""
            l = p.split("::")[-1]
            if "panicking" in p or l in ("unwrap", "expect", "unwrap_err", "index", "index_mut", "remove", "insert", "split_at", "drain", "swap_remove"):
                n["calls that may panic"] += 1
    return n


def run(F, rep):
    rep.rule = ("abstract interpretation of every parser of the crate (line formats, field types, sections, whole "
                "files) over every partition of its input texts at every version: no path may reach a panic "
                "(failed unwrap, index or slice out of range or inside a character, arithmetic overflow with "
                "overflow checks on, unreachable!)")
    rep.assumptions = ["parsers of the standard library, nom and rust_decimal behave as modelled",
                       "lists inside a line are followed up to 1 to 3 repetitions"]
    ls, deps, missing, badsum = lines.plan(F)
    DEPS.update(deps)
    only = os.environ.get("ONLY")
    P = lines.from_impls(F)
    jobs = [("line", l.T, l.text, {"K": l.K, "vers": l.vers}) for l in ls]
    seen = {l.T for l in ls}
    lv = set(lines.leaf_types(F))
    simple = sorted(set(P) & (lv | {t for t in P if method_id(F, t, TO, "to_string") is None and not lines.direct_deps(F, t)}) - seen)
    jobs += [("leaf", t, None, {}) for t in simple]
    rest = sorted(set(P) - seen - set(simple))
    for t in rest:
        n = t.rsplit("::", 1)[-1]
        if n == "Osb":
            jobs += [("file", t, x, {"K": 4}) for x in OSB]
        elif n == "Events":
            jobs += [("section", t, x, {"K": 4, "real": r}) for x, r in EVENTS]
        elif method_id(F, t, TO, "to_string") is not None and len(lines.direct_deps(F, t)) == 1 and n.endswith("s"):
            jobs += [("section", t, x, {"K": 4}) for x in SECT]
        else:
            jobs.append(("section", t, "{a*}", {"K": 2}))
    # inherent from_str of the containers and FromStr implementations
    for i, f in enumerate(F.fns):
        if f.get("local") and f.get("body") and f["name"].endswith("::from_str") and i not in P.values():
            n = f["name"].replace("osu_file_parser::", "")
            b = f["body"]
            if b["argc"] == 2 and not n.startswith("<"):
                jobs += [("section", n.rsplit("::", 1)[0], x, {"K": 4, "fid": i}) for x in SECT]
            elif b["argc"] == 1 and "OsuFile" in n:
                jobs += [("file", n, x, {"K": 4, "fid": i}) for x in FILES]
            elif b["argc"] == 1:
                jobs.append(("fromstr", n, "{a*}", {"K": 4, "fid": i}))
    if only:
        jobs = [j for j in jobs if any(o in str(j) for o in only.split(","))]
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=400):
        name = "%s|%s" % (j[1].replace("osu_file::", ""), j[2] or "")
        rep.count("entry templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (name, str(r)[-300:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("partitions", sum(c.values()))
        rep.count("abstract_steps", steps)
        for _ in range(sum(c.values()) - c.get("panic", 0) - c.get("cut", 0)):
            rep.ok()
        rep.samples.append("%s: %s" % (name, c))
        for k, d in bad.items():
            rep.violation(k, "%s: %s panics: %s" % (name, d, k))
        for k, d in und.items():
            rep.undec("%s: %s" % (name, k))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (name, u))
    rep.analysed["functions"] = len(fns)
    for k, n in sites(F, fns).items():
        rep.analysed["panic sites: " + k] = n
    rep.samples = rep.samples[:150]
    rep.floor("partitions", rep.analysed.get("partitions", 0), 1 if only else 2000)
