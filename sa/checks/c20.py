"""C20: a storyboard file is its [Variables] and [Events] sections, each once, version 14 only;
anything else is rejected at its line; the variables reach the events parser and printer."""
import collections
import an, lines, cont, rt
from an import *
from cont import *
from checks import c10

OSB = "osu_file::osb::Osb"
VAR = "osu_file::osb::types::Variable"
EV = "osu_file::events::Events"


def sec(name, *content):
    return (name, list(content))


def templates():
    """(label, lines before, sections, kinds)"""
    out = []
    both = ("some", "err")
    V = lambda *c: sec("Variables", *c)
    E = lambda *c: sec("Events", *c)
    out.append(("events", [], [E("{c1*}")], ("some", "none", "err")))
    out.append(("events", [], [E("a{c1*}z", "b{c2*}z")], both))
    out.append(("variables", [], [V("{v1*}")], both))
    out.append(("variables", [], [V("a{v1*}z", "b{v2*}z", "c{v3*}z")], both))
    out.append(("variables with blank lines", [], [V("a{v1*}z", "", "b{v2*}z")], both))
    out.append(("variables and events", [], [V("a{v1*}z", "b{v2*}z"), E("a{c1*}z")], both))
    out.append(("variables, blank line and events", [], [V("a{v1*}z", ""), E("a{c1*}z")], both))
    out.append(("variables, two blank lines and events", [], [V("a{v1*}z", "", ""), E("a{c1*}z")], both))
    out.append(("blank line in front of variables", [], [V("", "a{v1*}z", "b{v2*}z"), E("", "a{c1*}z")], both))
    out.append(("events and variables", [], [E("a{c1*}z", "b{c2*}z"), V("a{v1*}z", "b{v2*}z")], both))
    out.append(("empty variables", [], [V(), E("a{c1*}z")], both))
    out.append(("empty events", [], [E(), V("a{v1*}z")], both))
    out.append(("blank variables", [], [V(""), E("a{c1*}z")], both))
    for a in (V, E):
        out.append(("repeated section", [], [a("a{c1*}z"), a("b{c2*}z")], both))
        out.append(("repeated section behind a blank line", [], [a("a{c1*}z", ""), a("b{c2*}z")], both))
        out.append(("distant repeated section", [], [a("a{c1*}z"), (E if a is V else V)("b{c2*}z"), a("c{c3*}z")], both))
        out.append(("unknown section behind", [], [a("a{c1*}z"), sec("?", "b{c2*}z")], both))
        out.append(("unknown section behind a blank line", [], [a("a{c1*}z", ""), sec("?", "b{c2*}z")], both))
    out.append(("any section", [], [sec("?", "a{c1*}z")], both))
    for pre in ([""], ["//{k*}"], ["", " // {k*}", ""]):
        out.append(("lines in front", pre, [V("a{v1*}z"), E("a{c1*}z")], both))
        out.append(("lines in front", pre, [E("a{c1*}z"), sec("?", "b{c2*}z")], both))
    out.append(("nothing", ["", " "], [], both))
    out.append(("long", [], [V(*["a{v%d*}z" % i for i in range(5)]), E(*["a{c%d*}z" % i for i in range(5)])], ("some",)))
    return out


SPECIAL = [
    ("text in front", "x{a:[]}y\n[Events]\na{b*}", "UnexpectedLine", 0),
    ("text in front", "\n//{k*}\n{b:[]/}y\n[Events]\na{c*}", "UnexpectedLine", 2),
    ("no closing bracket", "[Events{a:[]}\nb{b*}", "SectionNameNoCloseBracket", 0),
    ("no closing bracket behind a section", "[Events]\na{a*}z\n[Foo{b:[]}", "SectionNameNoCloseBracket", 2),
    ("no closing bracket behind a section", "[Events]\na{a*}z\n\n[Foo{b:[]}", "SectionNameNoCloseBracket", 3),
    ("no closing bracket behind a section", "[Variables]\na{a*}z\n\n\n[Foo{b:[]}", "SectionNameNoCloseBracket", 4),
    ("no opening bracket", "x{a:[]}]\nb{b*}", "SectionNameNoOpenBracket", 0),
]


def job(F, j):
    kind = j[0]
    fv = inherent(F, EV, "from_str_variables")
    tv = inherent(F, EV, "to_string_variables")
    kinds = j[4] if kind == "sections" else ("some",)
    bl = Black(EV, kinds, pid=fv, tid=tv, trim=False)
    vb = Black(VAR, tuple(k for k in kinds if k != "none"))
    vb.pr = (ALL & ~mask("\n\r[]"), ALL & ~WS & ~mask("[]"), ALL & ~WS & ~mask("[]"), 1)
    bl.pr = vb.pr[:3] + (0,)
    ex = an.make_engine(F, [bl, vb], K=max(12, sum(len(x[1]) for x in j[3]) + 2 if kind == "sections" else 0), max_outs=60000,
                        max_steps=5 * 10 ** 7)
    orig, shown = ex.stubs[fv], ex.stubs[tv]

    def keys(st, r):
        it = items(ex, st, ex.deref(st, r))
        return None if it is None else tuple(x.k if isinstance(ex.deref(st, x), Sym) else None
                                             for x in [ex.deref(st, y) for y in it])

    def parse(e, st, a, f, dty):
        v = keys(st, a[2])
        text = st.norm(e.deref(st, a[0]).s)
        st.d["vars", text] = v
        st.d["evver", text] = st.simp(a[1])
        return orig(e, st, a[:2], f, dty)

    def show(e, st, a, f, dty):
        v = e.deref(st, a[0])
        if isinstance(v, Sym):
            st.d["varsout", v.k] = keys(st, a[2])
        return shown(e, st, a[:2], f, dty)
    ex.stubs[fv], ex.stubs[tv] = parse, show
    c = collections.Counter()
    bad, und = {}, collections.Counter()
    st = St()
    ver = ver_sym(F, st)
    parts = []
    if kind == "special":
        ls = j[2].split("\n")
    else:
        ls = list(j[2])
        for name, content in j[3]:
            hdr = len(ls)
            ls.append("[{name:[]}]" if name == "?" else "[%s]" % name)
            parts.append((name, hdr, len(ls), content))
            ls += content
    holes, segs = [], ()
    for i, x in enumerate(ls):
        h = lines.tmpl(st, x) if x else ()
        holes.append(h)
        segs += (("\n",) if i else ()) + tuple(h)
    segs = st.norm(segs)

    def verdict(st, key, what):
        if st.notes:
            und[key + " (approximated)"] += 1
        else:
            bad.setdefault(key, "%s: %s" % (rt.describe(ex, st, segs, ver), what))

    def leaf(st, T, t):
        for kd, sg, arg, o in st.cons:
            if kd == "leaf" and arg[0] == T and strip(st, o) == strip(st, t):
                return arg[2], o
        return None, None
    for k, v, s in parse_outcomes(ex, OSB, segs, ver, st):
        c[k] += 1
        if k in ("panic", "cut"):
            und["%s: %s" % (k, str(v)[:80])] += 1
            continue
        vs = ver_set(s, ver)
        if k == "none":
            if 14 in vs:
                verdict(s, "not read at version 14", "nothing is returned")
            else:
                c["ok"] += 1
            continue
        if vs != {14}:
            verdict(s, "read before version 14", "outcome %s at versions %s" % (k, sorted(vs)))
            continue
        if kind == "special":
            if k == "some":
                verdict(s, "accepted", "expected " + j[3])
                continue
            idx, err = err_parts(ex, s, v)
            nm = ex.T[err.ty]["variants"][err.v]["n"] if isinstance(err, Adt) else str(err)
            if nm != j[3]:
                verdict(s, "wrong error " + nm, "expected %s, got %s" % (j[3], nm))
            elif idx != j[4]:
                verdict(s, "error line index|" + nm, "%s of line %d reported at %s" % (nm, j[4], idx))
            else:
                c["ok"] += 1
            continue
        want, variables, events, seen, unk = None, None, None, set(), None
        for name, hdr, first, content in parts:
            nm = name
            if name == "?":
                t = s.norm((Atom("name"),))
                nm = "".join(t) if all(isinstance(x, str) for x in t) else None
            if nm in seen:
                want = ("DuplicateSections", hdr)
                break
            if nm not in ("Variables", "Events"):
                want = ("UnknownSection", hdr)
                break
            seen.add(nm)
            if nm == "Variables":
                variables = []
                for q in range(first, first + len(content)):
                    b = blank(s, holes[q])
                    if b is None:
                        unk = "blank or not"
                    if b:
                        continue
                    r, o = leaf(s, VAR, holes[q])
                    if r is None:
                        unk = unk or ("variable line %d" % q,)
                        break
                    if r == "err":
                        want = (("le", VAR, o), q)
                        break
                    variables.append(("lv", VAR, o))
                if want or unk:
                    break
                continue
            body = ()
            for q in range(first, first + len(content)):
                body += (("\n",) if q > first else ()) + tuple(holes[q])
            r, o = leaf(s, EV, body)
            if r is None:
                unk = ("events",)
                break
            got = s.d.get(("vars", s.norm(o)), "?")
            if got != tuple(variables or ()):
                verdict(s, "variables of the events", "the events are read with the variables %s, expected %s" % (got, variables))
                unk = "reported"
                break
            if s.d.get(("evver", s.norm(o))) not in (14, s.simp(ver)):
                verdict(s, "version of the events", "read at version %s" % s.d.get(("evver", s.norm(o))))
                unk = "reported"
                break
            if r == "err":
                lead = first
                while lead < first + len(content) and blank(s, holes[lead]):
                    lead += 1
                want = (("le", EV, o), lead)
                break
            if r == "some":
                events = ("lv", EV, o)
        if unk == "reported":
            continue
        if isinstance(unk, tuple):
            verdict(s, "content not read|" + unk[0].split()[0], "the content of the section does not reach its parser unchanged (%s)" % unk)
            continue
        if unk:
            und[unk] += 1
            continue
        if k == "err":
            idx, err = err_parts(ex, s, v)
            nm = ex.T[err.ty]["variants"][err.v]["n"] if isinstance(err, Adt) else str(err)
            if want is None:
                verdict(s, "rejected", "error %s for a valid file" % nm)
                continue
            if isinstance(want[0], str):
                if nm != want[0]:
                    verdict(s, "wrong error " + nm, "expected %s, got %s" % (want[0], nm))
                elif idx != want[1]:
                    verdict(s, "error line index|" + want[0], "%s in line %d reported at %s" % (nm, want[1], idx))
                else:
                    c["ok"] += 1
                continue
            ks = c10.leafs_deep(ex, s, err)
            if not any(strip(s, x[2]) == strip(s, want[0][2]) and x[1] == want[0][1] for x in ks):
                verdict(s, "wrong error", "expected the error %s, got %s" % (str(want[0])[:100], str(err)[:100]))
                continue
            y = c10.idx_sym(ex, s, idx)
            base = idx if isinstance(idx, int) else s.simp(lsub(idx, y)) if y is not None else None
            if base != want[1] and not blank(s, want[0][2]):
                if isinstance(base, int):
                    verdict(s, "error line index|" + ("variables" if want[0][1] == VAR else "events"),
                            "the error of line %d is reported relative to line %s" % (want[1], base))
                else:
                    und["line index"] += 1
                continue
            c["ok"] += 1
            continue
        if want is not None:
            verdict(s, "accepted|" + (want[0] if isinstance(want[0], str) else want[0][0]), "expected %s" % str(want)[:80])
            continue
        sv = ex.resolve(s, v)
        names = [f[0] for f in ex.T[sv.ty]["variants"][0]["f"]]
        x = ex.resolve(s, sv.f[names.index("variables")])
        got = None if x.v == 0 else [y.k if isinstance(ex.deref(s, y), Sym) else "?" for y in items(ex, s, x.f[0]) or []]
        if got != variables:
            verdict(s, "variables", "the variables are %s, expected %s" % (got, variables))
            continue
        x = ex.resolve(s, sv.f[names.index("events")])
        lf = leafs(ex, s, x, ("lv",))
        lk = lf[0].k if lf else None
        if x.v == 1 and not lf:
            l2 = c10.leafs_deep(ex, s, x, "lv")
            lk = l2[0] if l2 else "?"
        if (lk is None) != (events is None) or lk is not None and (lk[1], strip(s, lk[2])) != (EV, strip(s, events[2])):
            verdict(s, "events", "the events are %s, expected %s" % (lk, events))
            continue
        c["ok"] += 1
        # written
        for k2, text, s2 in print_outcomes(ex, OSB, sv, ver, s):
            if k2 in ("panic", "cut"):
                und["print %s" % k2] += 1
                continue
            if k2 == "none":
                verdict(s2, "not written", "the storyboard is read but not written")
                continue
            if lf and s2.d.get(("varsout", lf[0].k), "?") != tuple(variables or ()):
                verdict(s2, "variables of the printer", "the events are written with the variables %s, expected %s" % (
                    s2.d.get(("varsout", lf[0].k), "?"), variables))
                continue
            for k3, v3, s3 in parse_outcomes(ex, OSB, text, ver, s2):
                if k3 in ("panic", "cut"):
                    und["read again: %s" % k3] += 1
                elif k3 != "some":
                    verdict(s3, "written file rejected", "written as %s" % rt.show(s3, text))
                else:
                    r = same(ex, s3, sv, v3)
                    if r is True:
                        c["ok"] += 1
                    elif r is False:
                        verdict(s3, "written file differs" + rt.diff_path(ex, s3, sv, v3), "written as %s" % rt.show(s3, text))
                    else:
                        und["compare " + rt.diff_path(ex, s3, sv, v3)] += 1
    return dict(c), bad, dict(und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def run(F, rep):
    rep.rule = ("abstract interpretation of Osb::from_str and to_string on files made of section headers and symbolic content, "
                "the variable and events parsers and printers taken as arbitrary functions")
    if OSB not in lines.from_impls(F):
        rep.errors.append("anchor Osb not found")
        return
    for m in ("from_str_variables", "to_string_variables"):
        if inherent(F, EV, m) is None:
            rep.errors.append("anchor Events::%s not found" % m)
            return
    jobs = [("sections",) + t for t in templates()] + [("special",) + t for t in SPECIAL]
    only = __import__("os").environ.get("ONLY")
    if only:
        jobs = [x for x in jobs if only in x[1]]
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=300):
        name = j[1]
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (name, str(r)[-300:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("partitions", sum(n for k, n in c.items() if k != "ok"))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (name, c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (name, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation("%s|%s" % (j[1], k), "%s: %s: %s" % (name, k, d))
        for k, n in und.items():
            rep.undec("%s: %s (%d partitions)" % (name, k, n))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged partitions", rep.discharged, 1 if only else 40)
