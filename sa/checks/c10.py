"""C10: the sections of a file reach the field of their name, once; anything else is rejected at
its line; writing gives every section back under its header."""
import collections
import an, lines, cont, rt, models
from an import *
from cont import *

SECTIONS = [("General", "general", "general::General"), ("Editor", "editor", "editor::Editor"),
            ("Metadata", "metadata", "metadata::Metadata"), ("Difficulty", "difficulty", "difficulty::Difficulty"),
            ("Events", "events", "events::Events"), ("TimingPoints", "timing_points", "timingpoints::TimingPoints"),
            ("Colours", "colours", "colours::Colours"), ("HitObjects", "hitobjects", "hitobjects::HitObjects")]
NAMES = {a: (b, "osu_file::" + c) for a, b, c in SECTIONS}
HEAD = "osu file format v14"


def secs_of(F):
    out = {}
    for n, fld, T in SECTIONS:
        TT = "osu_file::" + T
        p = method_id(F, TT, FROM, "from_str")
        t = method_id(F, TT, TO, "to_string")
        if p is None:
            p = inherent(F, TT, "from_str")
        if t is None:
            t = inherent(F, TT, "to_string")
        out[n] = (TT, p, t)
    return out


# a template is a list of lines; what it means: ("sec", name, [content lines]) in order
def sec(name, *content, **kw):
    return dict(name=name, content=list(content), before=kw.get("before", []), header=kw.get("header"))


def templates():
    out = []
    N = [x[0] for x in SECTIONS]
    for i, n in enumerate(N):
        m = N[(i + 1) % len(N)]
        k = N[(i + 3) % len(N)]
        out.append(("section " + n, [""], [sec(n, "{c1*}")], ("some", "none", "err"), HEAD))
        out.append(("two sections", [""], [sec(n, "a{c1*}z"), sec(m, "a{c2*}z")], ("some", "err"), HEAD))
        out.append(("two sections", ["", ""], [sec(n, "a{c1*}z", "b{d1*}z"), sec(k, "a{c2*}z")], ("some", "err"), HEAD))
        out.append(("empty section first", [""], [sec(n), sec(m, "a{c2*}z")], ("some", "err"), HEAD))
        out.append(("empty section and blank line first", [""], [sec(n, ""), sec(m, "a{c2*}z")], ("some", "err"), HEAD))
        out.append(("blank line between sections", [""], [sec(n, "a{c1*}z", ""), sec(m, "a{c2*}z")], ("some", "err"), HEAD))
        out.append(("repeated section", [""], [sec(n, "a{c1*}z"), sec(n, "a{c2*}z")], ("some", "err"), HEAD))
        out.append(("distant repeated section", [""], [sec(n, "a{c1*}z"), sec(m, "a{c2*}z"), sec(n, "a{c3*}z")],
                    ("some", "err"), HEAD))
    out.append(("all sections", [""], [sec(n, "a{c%d*}z" % i) for i, n in enumerate(N)], ("some",), HEAD))
    out.append(("all sections backwards", [""], [sec(n, "a{c%d*}z" % i) for i, n in reversed(list(enumerate(N)))],
                ("some",), HEAD))
    out.append(("any section name", [""], [sec("?", "a{c1*}z")], ("some", "err"), HEAD))
    out.append(("any second section name", [""], [sec("General", "a{c1*}z"), sec("?", "a{c2*}z")], ("some", "err"), HEAD))
    for v in range(3, 15):
        out.append(("version %d" % v, [""], [sec(n, "a{c%d*}z" % i) for i, n in enumerate(N)], ("some", "err"),
                    "osu file format v%d" % v))
    out.append(("blank line before any section name", [""], [sec("General", "a{c1*}z", ""), sec("?", "a{c2*}z")],
                ("some", "err"), HEAD))
    out.append(("comments first", ["//{k*}", "  // {k2*}", ""], [sec("General", "a{c1*}z")], ("some", "err"), HEAD))
    out.append(("byte order mark", [""], [sec("General", "a{c1*}z")], ("some",), "\ufeff" + HEAD))
    out.append(("blank lines first", [""], [sec("General", "a{c1*}z")], ("some", "err"), "\n \n" + HEAD))
    out.append(("no sections", ["", " "], [], ("some",), HEAD))
    return out


SPECIAL = [
    # (label, text, error, line index)
    ("text before the sections", HEAD + "\n\nx{a:[]}y\n[General]\na", "UnexpectedLine", 2),
    ("text before the sections after a comment", HEAD + "\n//{a*}\n{b:[]/}y\n[General]\na", "UnexpectedLine", 2),
    ("text before the sections, leading blank lines", "\n\n" + HEAD + "\nx{a:[]}y\n[General]\na", "UnexpectedLine", 3),
    ("no version line", "x{a*}", "FileVersionDefinedWrong", 0),
    ("no version line", "[General]\na{a*}", "FileVersionDefinedWrong", 0),
    ("version not a number", "osu file format vx{a*}\n[General]\na", "InvalidFileVersion", 0),
    ("no version number", "osu file format v\n[General]\na", "InvalidFileVersion", 0),
    ("header without closing bracket", HEAD + "\n[General{a:[]}\nb{b*}", "SectionNameNoCloseBracket", 1),
    ("header without opening bracket", HEAD + "\nx{a:[]}]\nb{b*}", "SectionNameNoOpenBracket", 1),
    ("later header without closing bracket", HEAD + "\n[General]\na{a*}z\n[Foo{b:[]}", "SectionNameNoCloseBracket", 3),
]
for _v in list(range(0, 3)) + list(range(15, 40)) + [99, 127, 128, 255, 256, 260, 270, 1000]:
    SPECIAL.append(("unsupported version", "osu file format v%d\n[General]\na" % _v, "InvalidFileVersion", 0))


# a written section: one line, perhaps none
PR = (ALL & ~mask("\n\r"), ALL & ~mask("\n\r\t "), ALL & ~mask("\n\r\t "), 0)


def job(F, j):
    kind = j[0]
    S = secs_of(F)
    kinds = j[4] if kind == "sections" else ("some",)
    stubs = [an.Black(TT, kinds, pid=p, tid=t, trim=True, pr=PR) for TT, p, t in S.values()]
    ex = an.make_engine(F, stubs, K=12, max_outs=60000, max_steps=5 * 10 ** 7)
    OSU = "osu_file::OsuFile"
    fid = method_id(F, OSU, "std::str::FromStr", "from_str")
    c = collections.Counter()
    bad, und = {}, collections.Counter()
    st = St()
    if kind == "special":
        segs = ()
        for i, x in enumerate(j[2].split("\n")):
            segs += (("\n",) if i else ()) + tuple(lines.tmpl(st, x))
        parts = []
    else:
        ls, parts = [j[5].split("\n")[-1]], []
        pre = j[5].split("\n")[:-1]
        ls = pre + ls + j[2]
        for s in j[3]:
            hdr = len(ls)
            ls.append("[{name:[]}]" if s["name"] == "?" else "[%s]" % s["name"])
            parts.append((s["name"], hdr, len(ls), s["content"]))
            ls += s["content"]
        segs = ()
        holes = []
        for i, x in enumerate(ls):
            h = lines.tmpl(st, x) if x else ()
            holes.append(h)
            segs += (("\n",) if i else ()) + tuple(h)
    segs = st.norm(segs)

    def describe(st):
        return rt.show(st, segs)

    def verdict(st, key, what):
        if st.notes:
            und[key + " (approximated)"] += 1
        else:
            bad.setdefault(key, "%s: %s" % (describe(st), what))

    def go(s):
        return ex.run(fid, [RefV(Str(segs))], s)
    outs = []
    for k, v, s in ex.split(st, go):
        if k != "ret":
            outs.append((k, v, s))
            continue

        def fin(s2, v=v):
            r = ex.resolve(s2, v)
            return [("some" if r.v == 0 else "err", r.f[0], s2)]
        outs += ex.split(s, fin)
    oty = ty_id(F, OSU)
    names = [f[0] for f in F.types[oty]["variants"][0]["f"]]
    for k, v, s in outs:
        c[k] += 1
        if k in ("panic", "cut"):
            und["%s: %s" % (k, str(v)[:80])] += 1
            continue
        if kind == "special":
            if k == "some":
                verdict(s, "accepted", "expected " + j[3])
                continue
            idx, err = err_parts(ex, s, v)
            nm = ex.T[err.ty]["variants"][err.v]["n"] if isinstance(err, Adt) else str(err)
            if nm != j[3]:
                verdict(s, "wrong error " + nm, "expected %s, got %s" % (j[3], nm))
            elif idx != j[4]:
                verdict(s, "error line index", "%s of line %d reported at %s" % (nm, j[4], idx))
            else:
                c["ok"] += 1
            continue
        version = int(j[5].rsplit("v", 1)[1])
        want, exp, seen, skip, soft = None, {}, set(), False, False
        for name, hdr, first, content in parts:
            nm = name
            if name == "?":
                t = s.norm((Atom("name"),))
                nm = "".join(t) if all(isinstance(x, str) for x in t) else None
            if nm is None or nm not in NAMES:
                want = ("UnknownSection", hdr)
                break
            if nm in seen:
                want = ("DuplicateSections", hdr)
                break
            seen.add(nm)
            fld, TT = NAMES[nm]
            body = ()
            for q in range(first, first + len(content)):
                body += (("\n",) if q > first else ()) + tuple(holes[q])
            t = strip(s, body)
            r = None
            for kd, sg, arg, orig in s.cons:
                if kd == "leaf" and arg[0] == TT and strip(s, orig) == t:
                    r = arg[2]
                    if s.simp(arg[1]) != version:
                        verdict(s, "version of " + nm, "%s is read as version %s in a version %d file" % (
                            nm, s.simp(arg[1]), version))
                        skip = True
            if r is None:
                want = ("unread", nm)
                break
            if r == "err":
                # white space in front of the content's first line
                want = ("le", TT, t, first, [i for i in range(first, first + len(content)) if holes[i] != ()])
                break
            if r == "some":
                exp[fld] = (TT, t)
        if skip:
            continue
        if want and want[0] == "unread":
            verdict(s, "content not read|" + want[1], "the content of %s does not reach its parser unchanged (%s)" % (
                want[1], k if k == "some" else "error"))
            continue
        if k == "err":
            idx, err = err_parts(ex, s, v)
            lf = leafs(ex, s, err, ("le",))
            nm = ex.T[err.ty]["variants"][err.v]["n"] if isinstance(err, Adt) else str(err)
            if want is None:
                verdict(s, "rejected", "error %s for a valid file" % nm)
            elif want[0] == "le":
                ev = None
                tl = [x for x in leafs_deep(ex, s, err) if x[1] == want[1]]
                base = lsub(idx, idx_sym(ex, s, idx)) if idx_sym(ex, s, idx) is not None else None
                base = s.simp(base) if base is not None else None
                if not tl or any(strip(s, x[2]) != want[2] for x in tl):
                    verdict(s, "wrong error", "expected the error of the content at line %d, got %s" % (want[3], err))
                elif not want[2] or blank(s, want[2]):
                    c["ok"] += 1        # an error of nothing: any line will do
                elif base is None or not isinstance(base, int):
                    verdict(s, "error line index", "error of the section reported at %s" % (idx,))
                elif base != lead(s, holes, parts, want[3]):
                    verdict(s, "error line index of a section", "errors of the section content at line %d are reported "
                            "relative to line %s" % (want[3], base))
                else:
                    c["ok"] += 1
            elif nm != want[0]:
                verdict(s, "wrong error " + nm, "expected %s, got %s" % (want[0], nm))
            elif idx != want[1]:
                verdict(s, "error line index|" + want[0], "%s in line %d reported at %s" % (nm, want[1], idx))
            else:
                c["ok"] += 1
            continue
        if want is not None:
            verdict(s, "accepted|" + want[0], "expected %s" % want[0])
            continue
        sv = ex.resolve(s, v)
        wrong = False
        for n, x in zip(names, sv.f):
            if n == "version":
                if s.simp(ex.deref(s, x)) != version:
                    verdict(s, "version", "version %s for %d" % (x, version))
                    wrong = True
                continue
            x = ex.resolve(s, x)
            lf = leafs(ex, s, x, ("lv",))
            if x.v == 1 and not lf:
                lf2 = leafs_deep(ex, s, x, "lv")
                got = (lf2[0][1], strip(s, lf2[0][2])) if lf2 else "?"
            else:
                got = (lf[0].k[1], strip(s, lf[0].k[2])) if lf else None
            if got != exp.get(n):
                wrong = True
                verdict(s, "field|" + n, "field %s holds %s, expected %s" % (n, got, exp.get(n)))
        if wrong:
            continue
        c["ok"] += 1
        back(F, ex, s, sv, oty, fid, exp, version, verdict, und, c)
    return dict(c), bad, dict(und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps


def lead(s, holes, parts, first):
    """index of the line the content parser's text starts in: leading blank lines of the
    content are not part of it"""
    i = first
    while i < len(holes) and holes[i] == ():
        i += 1
    return i


def leafs_deep(ex, st, v, tag="le", depth=8):
    """keys of the leaf results inside a value, fresh fields of a leaf included"""
    out = []
    v = ex.deref(st, v)

    def key(k):
        while isinstance(k, tuple):
            if len(k) >= 3 and k[0] == tag and isinstance(k[1], str):
                return k
            nxt = [x for x in k if isinstance(x, (tuple, V))]
            if not nxt:
                return None
            k = nxt[0]
            if isinstance(k, Sym):
                k = k.k
        return None
    if isinstance(v, Sym):
        k = key(v.k)
        if k:
            out.append(k)
    elif isinstance(v, Adt) and depth:
        for x in v.f:
            out += leafs_deep(ex, st, x, tag, depth - 1)
    elif isinstance(v, Seq):
        for x in v.it:
            out += leafs_deep(ex, st, x, tag, depth - 1)
    return out


def idx_sym(ex, st, idx):
    if isinstance(idx, Sym):
        return idx
    p = linparts(idx) if not isinstance(idx, int) else None
    if p and len(p[1]) == 1 and p[1][0][1] == 1:
        return p[1][0][0]
    return None


def back(F, ex, s, sv, oty, fid, exp, version, verdict, und, c):
    """written and read again: the same file"""
    for k, text, s2 in ex.split(s, lambda x: models.disp(ex, x, oty, sv)):
        if k != "ret":
            und["print " + k] += 1
            continue
        for k3, v3, s3 in ex.split(s2, lambda x: ex.run(fid, [RefV(Str(text))], x)):
            if k3 != "ret":
                und["read again: %s %s" % (k3, str(v3)[:60])] += 1
                continue

            def fin(s4):
                r = ex.resolve(s4, v3)
                return [("some" if r.v == 0 else "err", r.f[0], s4)]
            for k4, v4, s4 in ex.split(s3, fin):
                if k4 == "err":
                    verdict(s4, "written file rejected", "written as %s" % rt.show(s4, text))
                    continue
                r = same(ex, s4, sv, v4)
                if r is True:
                    c["ok"] += 1
                elif r is False:
                    verdict(s4, "written file differs" + rt.diff_path(ex, s4, sv, v4), "written as %s" % rt.show(s4, text))
                else:
                    und["compare " + rt.diff_path(ex, s4, sv, v4)] += 1


def run(F, rep):
    rep.rule = ("abstract interpretation of OsuFile::from_str and Display on files made of every section header, "
                "arbitrary headers and symbolic content, section parsers and printers taken as arbitrary functions: "
                "each section's text reaches its own parser at the declared version and its own field, everything "
                "else is rejected with the right error at the right line, and a written file reads back the same")
    rep.assumptions = ["files of up to eight sections with up to two content lines stand for longer ones"]
    S = secs_of(F)
    for n, (TT, p, t) in S.items():
        if p is None or t is None:
            rep.errors.append("anchor %s not found" % TT)
    if method_id(F, "osu_file::OsuFile", "std::str::FromStr", "from_str") is None:
        rep.errors.append("anchor OsuFile::from_str not found")
    if rep.errors:
        return
    jobs = [("sections",) + t for t in templates()] + [("special",) + t for t in SPECIAL]
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=400):
        name = j[1] if j[0] == "special" else "%s (%s)" % (j[1], ", ".join(x["name"] for x in j[3]))
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (name, str(r)[-300:]))
            continue
        c, bad, und, fs, steps = r
        fns |= fs
        rep.count("partitions", sum(n for k, n in c.items() if k != "ok"))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (name, c))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation("%s|%s" % (j[1], k), "%s: %s: %s" % (name, k, d))
        for k, n in und.items():
            rep.undec("%s: %s (%d partitions)" % (name, k, n))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged partitions", rep.discharged, 100)
