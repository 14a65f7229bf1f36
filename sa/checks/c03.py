"""C03: the error of a rejected line names the column at fault."""
import cols


def run(F, rep, prop="C03", rule=None):
    rep.rule = rule or (
        "abstract interpretation of every line parser on a line with all its columns and on the line cut after each "
        "column, every column being an arbitrary text: on each rejected path the first column that no accepted path "
        "allows is computed from the path conditions, and the error must be the one of that column; a cut line must "
        "be rejected with the error of the first missing column")
    rep.assumptions = ["a column holds no comma or line break (and no '|' or ':' where these separate items)",
                       "field parsers behave as their own analysis says"]
    fs, missing, res = cols.run_forms(F)
    for m in missing:
        rep.undec("no parser for %s" % m)
    fns = set()
    for j, status, r in res:
        fm = fs[j[0]]
        rep.count("line forms")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (fm.name(), str(r)[-200:]))
            continue
        out, paths, cuts, f, unm = r
        fns |= f
        rep.count("paths", paths)
        rep.count("cut lines", cuts)
        for u in unm:
            rep.undec("%s: unmodelled %s" % (fm.name(), u))
        c = {}
        for p, ok, key, d in out:
            if p != prop:
                continue
            c[ok] = c.get(ok, 0) + 1
            if ok is True:
                rep.ok()
            elif ok is False:
                rep.violation(key, d)
            else:
                rep.undec("%s: %s" % (key, d))
        rep.samples.append("%s: %s" % (fm.name(), {str(k): v for k, v in c.items()}))
    rep.analysed["functions"] = len(fns)
    return res
