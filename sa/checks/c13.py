"""C13: nothing written on an accepted line is lost.  Every line form of the format gets one more
piece of text behind its last column; on each accepted path that text must be part of the value."""
import cols, lines, rt
from cols import *


def run(F, rep):
    rep.rule = ("abstract interpretation of every line parser on a line with all its columns followed by a separator and "
                "one more arbitrary text: on each accepted path the additional text, unless it is blank, must occur in the value read "
                "(followed through the parser); a path that accepts the line without it loses what was written")
    rep.assumptions = ["the columns hold no comma or line break (and no '|' or ':' where these separate items)",
                       "field parsers behave as their own analysis says"]
    fs = cols.forms()
    P = lines.from_impls(F)
    deps, need = {}, set()
    for f in fs:
        if f.T in P and f.T not in deps:
            deps[f.T] = lines.direct_deps(F, f.T)
            need |= set(deps[f.T])
        elif f.T not in P:
            rep.undec("no parser for %s" % f.T)
    bad = {b[0] for b in lines.presummarise(F, sorted(need))}
    # a last column that takes all the rest of the line is decided by C04 and by its own form
    jobs = [(i, [d for d in deps[f.T] if d not in bad]) for i, f in enumerate(fs) if f.T in P and f.cols[-1].hole != "*"]
    only = __import__("os").environ.get("ONLY")
    if only:
        jobs = [j for j in jobs if only in fs[j[0]].name()]
    fns = set()
    for j, status, r in an.run_jobs(F, one, jobs, limit=300):
        fm = fs[j[0]]
        rep.count("line forms")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (fm.name(), str(r)[-200:]))
            continue
        out, paths, f, unm = r
        fns |= f
        rep.count("paths", paths)
        for u in unm:
            rep.undec("%s: unmodelled %s" % (fm.name(), u))
        for ok, key, d in out:
            if ok is True:
                rep.ok()
            elif ok is False:
                rep.violation(key, d)
            else:
                rep.undec("%s: %s" % (key, d))
    rep.analysed["functions"] = len(fns)


def longer(fm):
    """the line with all its columns and one more piece of text"""
    sep = fm.cols[-1].sep if fm.cols[-1].sep in (",", ":") else ","
    hole = ":|" if fm.T.endswith("HitObject") else "::" if sep == ":" else ""
    return fm.text() + sep + "{extra%s}" % hole


def one(F, j):
    idx, deps = j
    fm = cols.forms()[idx]
    out, n = [], 0
    ex = make_engine(F, deps, K=fm.K + 1, max_outs=20000, max_steps=40000000)
    text = longer(fm)
    st = St()
    ver = ver_sym(F, st, *fm.vers)
    segs = lines.tmpl(st, text)
    rejected = False
    for k, v, s in parse_outcomes(ex, fm.T, segs, ver, st):
        n += 1
        x = s.norm((Atom("extra"),))
        key = "%s|text behind the last column is lost" % fm.name()
        if k == "cut":
            out.append((None, key, "cut: %s" % str(v)[:100]))
        rejected |= k == "err"
        if k != "some":
            continue
        if is_blank(s, x):
            out.append((True, "", ""))
            continue
        got = "extra" in holes(ex, s, v, {"extra": x})
        if not got and all(isinstance(q, str) for q in x):
            got = None
        d = "%s `%s` is accepted without the text of {extra}: %s" % (fm.name(), text, rt.describe(ex, s, segs, ver))
        out.append((got if got is not False or not loose_notes(s) else None, key, d))
    if rejected:
        out.append((True, "", ""))
    return out, n, {i for i in ex.visited if F.fns[i].get("local")}, dict(ex.unmodelled)
