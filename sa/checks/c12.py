"""C12: a list section is exactly its non-blank lines, in order; a rejected line is reported at
its own index; writing puts every element on its own line, in order."""
import collections
import an, lines, cont, rt
from an import *
from cont import *

CONTAINERS = ["timingpoints::TimingPoints", "colours::Colours", "hitobjects::HitObjects"]
LONG = 300
TEMPLATES = [
    ("two lines", ["{l1*}", "{l2*}"], "\n"),
    ("three lines", ["{l1*}", "{l2*}", "{l3*}"], "\n"),
    ("CRLF", ["{l1*}", "{l2*}"], "\r\n"),
    ("%d lines" % LONG, ["a{l%d*}z" % i for i in range(LONG)], "\n"),
    ("nine lines", ["a{l1*}z", "", "b{l2*}z", "c{l3*}z", "", " ", "d{l4*}z", "e{l5*}z", "f{l6*}z"], "\n"),
    ("blank line inside", ["{l1*}", "", "{l2*}"], "\n"),
]


def job(F, j):
    T, name, ls, sep = j
    T = "osu_file::" + T
    D = [d for d in lines.direct_deps(F, T)]
    ex = an.make_engine(F, [an.Black(d, ("some",) if len(ls) > 9 else ("some", "err")) for d in D], K=max(4, len(ls) + 1), max_outs=60000, max_steps=5 * 10 ** 7)
    st = St()
    ver = ver_sym(F, st)
    holes = [lines.tmpl(st, x) if x else () for x in ls]
    segs = ()
    for i, h in enumerate(holes):
        segs += ((sep,) if i else ()) + tuple(h)
    segs = st.norm(segs)
    c = collections.Counter()
    bad, und = {}, collections.Counter()

    def verdict(st, key, what):
        if st.notes:
            und[key + " (approximated)"] += 1
        else:
            bad.setdefault(key, "%s: %s" % (rt.describe(ex, st, segs, ver), what))

    def decided(st, h):
        """how the element parser took this line in this state: some / err / none / None"""
        for kind, s, arg, orig in st.cons:
            if kind == "leaf" and arg[0] in D and strip(st, orig) == strip(st, h):
                return arg[2]
        return None

    for k, v, s in parse_outcomes(ex, T, segs, ver, st):
        c[k] += 1
        if k in ("panic", "cut"):
            und["parse " + k] += 1
            continue
        if k == "none":
            # a format without the section: must not look at the lines
            if any(x[0] == "leaf" for x in s.cons):
                verdict(s, "lines dropped", "the section is not returned although its lines were read")
            continue
        want = []
        amb = False
        for i, h in enumerate(holes):
            b = blank(s, h)
            if b is None:
                amb = True
            if not b:
                want.append(i)
                if k == "err" and decided(s, h) == "err":
                    break           # what follows a rejected line does not matter
        if amb:
            und["blank or not"] += 1
            continue
        if k == "some":
            it = find_seq(ex, s, v)
            if it is None:
                und["list unknown"] += 1
                continue
            got = []
            for x in it:
                lf = leafs(ex, s, x)
                if len(lf) != 1:
                    got.append(None)
                    continue
                t = strip(s, lf[0].k[2])
                got.append(next((i for i in want if strip(s, holes[i]) == t), None))
            if None in got:
                und["element of unknown origin"] += 1
                if len(got) != len(want):
                    verdict(s, "number of elements", "%d elements for %d non-blank lines" % (len(got), len(want)))
            elif got == want:
                c["ok"] += 1
                pr(F, ex, T, v, ver, s, it, verdict, und, c)
            elif sorted(got) == want:
                verdict(s, "order", "elements come from lines %s, expected %s" % (got, want))
            else:
                verdict(s, "lost or repeated line", "elements come from lines %s, expected %s" % (got, want))
        else:
            idx, err = err_parts(ex, s, v)
            lf = leafs(ex, s, err)
            rej = [i for i in want if decided(s, holes[i]) == "err"]
            if not rej or len(lf) != 1:
                verdict(s, "error without a rejected line", "error %s" % (err,))
                continue
            i = rej[0]
            if strip(s, lf[0].k[2]) != strip(s, holes[i]):
                verdict(s, "wrong line reported", "the error is not the one of line %d" % i)
            elif idx != i:
                if isinstance(idx, int):
                    verdict(s, "error line index", "line %d is rejected, but reported at index %s" % (i, idx))
                else:
                    und["line index " + str(idx)] += 1
            else:
                c["ok"] += 1
    return dict(c), bad, dict(und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps


def pr(F, ex, T, v, ver, s, it, verdict, und, c):
    for k, text, s2 in print_outcomes(ex, T, v, ver, s):
        if k in ("panic", "cut"):
            und["print " + k] += 1
            continue
        if k == "none":
            verdict(s2, "not written", "the section is read but not written at this version")
            continue
        want = ()
        els = find_seq(ex, s2, v)
        sub = []
        for x in els:
            et = ex.T[x.ty]["t"] if hasattr(x, "ty") else None
            sub.append(et)
        for i, x in enumerate(els):
            lf = leafs(ex, s2, x, ("lv",))[0]
            want += (("\n",) if i else ()) + (Atom(("pr", lf.k[1], lf, s2.simp(ver))),)
        if s2.norm(text) == s2.norm(want):
            c["ok"] += 1
        else:
            verdict(s2, "written lines", "printed as %s, expected one element per line: %s" % (
                rt.show(s2, text), rt.show(s2, want)))


def run(F, rep):
    rep.rule = ("abstract interpretation of the list sections' from_str and to_string on symbolic lines with the "
                "element parser and printer taken as arbitrary functions of a line: elements = non-blank lines in "
                "order, first rejected line reported at its index, one printed element per line in order")
    rep.assumptions = ["sections of up to three arbitrary lines and of %d accepted lines stand for longer ones" % LONG]
    P = lines.from_impls(F)
    jobs = []
    for T in CONTAINERS:
        if "osu_file::" + T not in P:
            rep.errors.append("anchor type %s not found" % T)
            continue
        for n, ls, sep in TEMPLATES:
            jobs.append((T, n, ls, sep))
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=300):
        name = "%s (%s)" % (j[0].rsplit("::", 1)[-1], j[1])
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (name, str(r)[-200:]))
            continue
        c, bad, und, fs, steps = r
        fns |= fs
        rep.count("partitions", sum(n for k, n in c.items() if k != "ok"))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (name, c))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation("%s|%s" % (j[0].rsplit("::", 1)[-1], k), "%s: %s: %s" % (name, k, d))
        for k, n in und.items():
            rep.undec("%s: %s (%d partitions)" % (name, k, n))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged partitions", rep.discharged, 300)
