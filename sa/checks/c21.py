"""C21: comparing two osu file texts.  osu_str_eq and the trimmed text behind it ignore empty lines, white
space around lines, byte order marks, the spaces around the colon of a key and the order of the keys of a
section, and nothing else."""
import an, api, lines
from an import *

V = "osu file format v{v:*}\n"
# (what, left, right): texts that must compare equal
SAME = [
    ("an empty line in front of the version line", V + "[{h:]}]\n{k::}:{x}", "\n" + V + "[{h:]}]\n{k::}:{x}"),
    ("an empty line behind the version line", V + "[{h:]}]\n{k::}:{x}", V + "\n[{h:]}]\n{k::}:{x}"),
    ("an empty line behind a section name", V + "[{h:]}]\n{k::}:{x}", V + "[{h:]}]\n\n{k::}:{x}"),
    ("an empty line between two lines", V + "[{h:]}]\n{p::}\n{q::}", V + "[{h:]}]\n{p::}\n\n{q::}"),
    ("a line of white space between two lines", V + "[{h:]}]\n{p::}\n{q::}", V + "[{h:]}]\n{p::}\n{w%}\n{q::}"),
    ("an empty line between two sections", "[{h:]}]\n{p::}\n[{i:]}]\n{q::}", "[{h:]}]\n{p::}\n\n[{i:]}]\n{q::}"),
    ("an empty last line", "[{h:]}]\n{p::}", "[{h:]}]\n{p::}\n"),
    ("carriage returns", V + "[{h:]}]\n{p::}\n{q::}", V[:-1] + "\r\n[{h:]}]\r\n{p::}\r\n{q::}\r\n"),
    ("white space around a line", "[{h:]}]\n{p::}\n{q::}", "[{h:]}]\n{w%}{p::}{u%}\n{q::}"),
    ("white space around a section name", "[{h:]}]\n{p::}", "{w%}[{h:]}]{u%}\n{p::}"),
    ("white space in front of a colon", "[{h:]}]\n{k::}:{x}", "[{h:]}]\n{k::}{w%}:{x}"),
    ("white space behind a colon", "[{h:]}]\n{k::}:{x}", "[{h:]}]\n{k::}:{w%}{x}"),
    ("a byte order mark", V + "[{h:]}]\n{p::}", "\ufeff" + V + "[{h:]}]\n{p::}"),
    ("a line between the version line and the first section", V + "[{h:]}]\n{p::}", V + "{j::}\n[{h:]}]\n{p::}"),
    ("the order of two keys", "[{h:]}]\n{k::}:{x}\n{l::}:{y}", "[{h:]}]\n{l::}:{y}\n{k::}:{x}"),
    ("the order of two keys in front of a section", "[{h:]}]\n{k::}:{x}\n{l::}:{y}\n[{i:]}]\n{q::}", "[{h:]}]\n{l::}:{y}\n{k::}:{x}\n[{i:]}]\n{q::}"),
    ("the order of two keys behind a section of lines", "[{i:]}]\n{q::}\n[{h:]}]\n{k::}:{x}\n{l::}:{y}", "[{i:]}]\n{q::}\n[{h:]}]\n{l::}:{y}\n{k::}:{x}"),
    ("white space at the end of a value", "[{h:]}]\n{k::}:{x}", "[{h:]}]\n{k::}:{x}{w%}"),
    ("a byte order mark inside a line", "[{h:]}]\n{k::}:{x}", "[{h:]}]\n{k::}\ufeff:{x}"),
    ("a line of a byte order mark and white space", V + "[{h:]}]\n{p::}\n{q::}", V + "[{h:]}]\n{p::}\n{w%}\ufeff{u%}\n{q::}"),
    ("a byte order mark in front of white space", V + "[{h:]}]\n{p::}", V + "\ufeff{w%}[{h:]}]\n{p::}"),
    ("a version line that is not the first line", "[{h:]}]\n{p::}", "x{j::}\nosu file format v14\n[{h:]}]\n{p::}"),
    ("a second version line", V + "[{h:]}]\n{p::}", V + "osu file format v3\n[{h:]}]\n{p::}"),
    ("lines in front of the first section", "[{h:]}]\n{p::}", "x{j::}\ny{r::}\n[{h:]}]\n{p::}"),
]
# texts that must not compare equal (where the named pieces differ)
DIFFER = [
    ("the version", "osu file format v14\n[{h:]}]\n{p::}", "osu file format v13\n[{h:]}]\n{p::}"),
    ("a missing version line", V + "[{h:]}]\n{p::}", "[{h:]}]\n{p::}"),
    ("a section name", "[Editor]\n{p::}", "[Events]\n{p::}"),
    ("a missing empty section", "[{h:]}]\n{p::}\n[Editor]", "[{h:]}]\n{p::}"),
    ("the order of two sections", "[Editor]\n{p::}\n[Events]\n{q::}", "[Events]\n{q::}\n[Editor]\n{p::}"),
    ("a line moved to another section", "[Editor]\n{p!::}\n[Events]", "[Editor]\n[Events]\n{p!::}"),
    ("a key moved to another section", "[Editor]\n{k::}:{x}\n[Events]", "[Editor]\n[Events]\n{k::}:{x}"),
    ("a missing line", "[{h:]}]\n{p::}\n1", "[{h:]}]\n{p::}"),
    ("a missing key", "[{h:]}]\n{k::}:{x}\na:1", "[{h:]}]\n{k::}:{x}"),
    ("a repeated line", "[{h:]}]\n1\n1", "[{h:]}]\n1"),
    ("a repeated key", "[{h:]}]\na:1\na:1", "[{h:]}]\na:1"),
    ("the order of two lines", "[{h:]}]\n1\n2", "[{h:]}]\n2\n1"),
    ("a value", "[{h:]}]\n{k::}:{x}1", "[{h:]}]\n{k::}:{x}2"),
    ("a key", "[{h:]}]\n{k::}a:{x}", "[{h:]}]\n{k::}b:{x}"),
    ("a line", "[{h:]}]\n{p::}1", "[{h:]}]\n{p::}2"),
    ("a space inside a value", "[{h:]}]\n{k::}:a b{x}", "[{h:]}]\n{k::}:ab{x}"),
    ("a space inside a line", "[{h:]}]\na b{p::}", "[{h:]}]\nab{p::}"),
    ("a colon inside a value", "[{h:]}]\n{k::}:a:{x}", "[{h:]}]\n{k::}:a{x}"),
    ("an empty value", "[{h:]}]\nk:1", "[{h:]}]\nk:"),
    ("a missing colon", "[{h:]}]\nk:1", "[{h:]}]\nk1"),
    ("the case of a value", "[{h:]}]\nk:a", "[{h:]}]\nk:A"),
    ("two values swapped", "[{h:]}]\na:1\nb:2", "[{h:]}]\na:2\nb:1"),
    ("the order of a key and a line", "[{h:]}]\na:1\nb", "[{h:]}]\nb\na:1"),
    ("the order of a line among keys", "[{h:]}]\na:1\n2\nb:1", "[{h:]}]\na:1\nb:1\n2"),
    ("a missing version line in front of keys", V + "[{h:]}]\n{k::}:{x}", "[{h:]}]\n{k::}:{x}"),
    ("a missing last section", "[{h:]}]\n{k::}:{x}\n[Editor]\na:1", "[{h:]}]\n{k::}:{x}"),
    ("the order of two lines with other lines between them", "[{h:]}]\n1\n{p::}\n2", "[{h:]}]\n2\n{p::}\n1"),
    ("a quoted mark", "[{h:]}]\n{p::}\"", "[{h:]}]\n{p::}"),
]


# differences between two bodies of a section; every one is put between the sections and lines of AROUND
def families():
    same = [
        ("the order of two keys", "a:{x::}\nb:{y::}", "b:{y::}\na:{x::}"),
        ("the order of three keys", "a:{x::}\nb:{y::}\nc:{z::}", "c:{z::}\na:{x::}\nb:{y::}"),
        ("white space around a colon", "a:{x::}\nb:{y::}", "a : {x::}\nb:\t{y::}"),
        ("white space around lines", "a:{x::}\nb:{y::}", " a:{x::}\n\n\tb:{y::} "),
    ]
    differ = [
        ("a value", "a:1{x::}\nb:{y::}", "a:2{x::}\nb:{y::}"),
        ("a later value", "a:{x::}\nb:{y::}1", "a:{x::}\nb:{y::}2"),
        ("a missing first key", "a:{x::}\nb:{y::}", "b:{y::}"),
        ("a missing last key", "a:{x::}\nb:{y::}", "a:{x::}"),
        ("a key twice", "a:{x::}\nb:{y::}", "a:{x::}\na:{x::}\nb:{y::}"),
        ("a key with another name", "a:{x::}\nb:{y::}", "c:{x::}\nb:{y::}"),
    ]
    lines = [
        ("a line", "1{p::}\n2", "3{p::}\n2"),
        ("a missing first line", "1{p::}\n2", "2"),
        ("a missing last line", "1{p::}\n2", "1{p::}"),
        ("a line twice", "1{p::}\n2", "1{p::}\n1{p::}\n2"),
        ("the order of two lines", "1{p::}\n2", "2\n1{p::}"),
    ]
    keyed = [("", ""), (V, ""), (V + "[E]\n5\n6\n", ""), ("[K]\nd:{u::}\nc:{w::}\n", ""), ("", "\n[E]\n5\n6"), ("", "\n[K]\nd:{u::}\nc:{w::}"),
             ("[E]\nd:{u::}\n5\n", "\n[F]\n7"), ("[E]\n5\nd:{u::}\n", "\n[K]\nd:{w::}"), ("[E]\n", "\n[K]\n"), ("[E]\n5\n[K]\nd:{u::}\n", "\n[E]\n5")]
    inner = [("", "\n9"), ("9\n", ""), ("9\n", "\n8"), ("e:{g::}\n9\n", "\n8\nf:{g::}")]
    for what, l, r in same:
        for i, (a, b) in enumerate(keyed):
            SAME.append(("%s (arrangement %d)" % (what, i), a + "[H]\n" + l + b, a + "[H]\n" + r + b))
    for what, l, r in differ + lines:
        for i, (a, b) in enumerate(keyed):
            DIFFER.append(("%s (arrangement %d)" % (what, i), a + "[H]\n" + l + b, a + "[H]\n" + r + b))
        for i, (a, b) in enumerate(inner):
            DIFFER.append(("%s (among lines %d)" % (what, i), "[H]\n" + a + l + b, "[H]\n" + a + r + b))


families()


def text(st, t):
    """template of a whole text: {x:cs} as for lines, {x%} white space of a line"""
    out = []
    for k, x in parts(t):
        if k == "lit":
            out.append(x)
            continue
        n, _, cs = x.partition(":")
        m = ALL & ~NL & ~mask("\r\ufeff")
        if n.endswith("%"):
            n, m = n[:-1], mask(" \t")
        if cs.startswith("*"):
            m = mask("0123456789")
        else:
            m &= ~mask(cs)
        a = Atom(n)
        if ("at", a.k) not in st.d:
            if x.endswith("%"):
                st.set_af(a, AF(m, min=1))
            elif cs.startswith(":"):
                # lines and keys: neither empty nor with white space or brackets at their ends
                e = m & ~WS & ~mask("[]/")
                st.set_af(a, AF(m, f=e, l=e, min=1))
            else:
                st.set_af(a, AF(m))
        out.append(a)
    return st.norm(tuple(out))


def parts(t):
    out, i = [], 0
    while i < len(t):
        j = t.find("{", i)
        if j < 0:
            out.append(("lit", t[i:]))
            break
        if j > i:
            out.append(("lit", t[i:j]))
        e = t.index("}", j)
        out.append(("hole", t[j + 1:e].replace("!", "")))
        i = e + 1
    return out


def job(F, j):
    kind, i = j
    what, left, right = (SAME if kind == "same" else DIFFER)[i]
    ex = an.make_engine(F, [], K=16, max_outs=4000, max_steps=3 * 10 ** 6)
    ex.sort_texts = True
    fid = next(f["id"] for f in F.fns if F.short(f["name"]) == "osu_str_trimmer")
    st = St()
    a, b = text(st, left), text(st, right)
    out, n = [], 0
    key = ("%s|matters" if kind == "same" else "%s|ignored") % what
    show = "%r and %r" % (left, right)

    def run(segs, s0):
        nonlocal n
        res = []
        for k, v, s in ex.split(s0, lambda q: ex.run(fid, [Str(segs)], q)):
            n += 1
            if k == "ret":
                res.append((ex.deref(s, v), s))
            elif k == "cut":
                out.append((None, key, "cut: %s" % str(v)[:100]))
        return res
    for x, s in run(a, st):
        for y, s2 in run(b, s):
            if not isinstance(x, Str) or not isinstance(y, Str):
                out.append((None, key, "not a text"))
                continue
            p, q = s2.norm(x.s), s2.norm(y.s)
            same = p == q
            if kind == "same":
                ok = True if same else False
                if not same and not apart(p, q) and sorted(map(str, split(p))) == sorted(map(str, split(q))):
                    ok = None           # the same lines; their order depends on texts not known here
                out.append((ok if ok or not s2.notes else None, key, "%s do not compare equal: %s and %s" % (show, txt(s2, p), txt(s2, q))))
            else:
                out.append((False if same and not s2.notes else None if same else True, key, "%s compare equal: %s" % (show, txt(s2, p))))
    # the answer of osu_str_eq
    eq = eq_fn(F)
    if eq is not None:
        got = set()
        s = St()
        a, b = text(s, left), text(s, right)
        for k, v, s2 in ex.split(s, lambda q: ex.run(eq, [Str(a), Str(b)], q)):
            n += 1
            if k == "ret" and isinstance(v, bool) and not s2.notes:
                got.add(v)
            elif k == "ret":
                got.add(None)
            elif k == "cut":
                got.add(None)
        want = kind == "same"
        ok = True if got == {want} or kind == "differ" and False in got else False if got == {not want} else None
        out.append((ok, "osu_str_eq|" + key, "osu_str_eq gives %s for %s" % (not want, show)))
    return out, n, {i for i in ex.visited if F.fns[i].get("local")}, dict(ex.unmodelled)


def eq_fn(F):
    r = [f["id"] for f in F.fns if f.get("local") and api.base(F.short(f["name"])) == "osu_str_eq"]
    return r[0] if len(r) == 1 else None


def apart(p, q):
    """do the two texts differ for certain: the first lines that are not the same start with different letters"""
    for a, b in zip(split(p), split(q)):
        if a != b:
            return bool(a and b and isinstance(a[0], str) and isinstance(b[0], str) and not a[0].startswith(b[0]) and not b[0].startswith(a[0]))
    return False


def split(segs):
    out = [[]]
    for x in segs:
        if isinstance(x, str):
            ps = x.split("\n")
            out[-1].append(ps[0])
            for p in ps[1:]:
                out.append([p])
        else:
            out[-1].append(x)
    return [tuple(y for y in l if y != "") for l in out]


def txt(st, segs):
    return "".join(x if isinstance(x, str) else "<%s>" % maskstr(st.af(x).m) for x in segs)


def run(F, rep):
    rep.rule = ("abstract interpretation of osu_str_trimmer on pairs of texts that differ in one respect, all other pieces arbitrary: equal results "
                "exactly where the difference is one that does not matter")
    names = {F.short(f["name"]) for f in F.fns if f.get("local")}
    for n in ("osu_str_trimmer",):
        if n not in names:
            rep.errors.append("anchor not found: " + n)
    if eq_fn(F) is None:
        rep.errors.append("anchor not found: osu_str_eq")
    if rep.errors:
        return
    jobs = [("same", i) for i in range(len(SAME))] + [("differ", i) for i in range(len(DIFFER))]
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=120):
        what = (SAME if j[0] == "same" else DIFFER)[j[1]][0]
        rep.count("pairs of texts")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (what, str(r)[-200:]))
            continue
        out, n, f, unm = r
        fns |= f
        rep.count("paths", n)
        for u in unm:
            rep.undec("%s: unmodelled %s" % (what, u))
        for ok, key, d in out:
            if ok is True:
                rep.ok()
            elif ok is False:
                rep.violation(key, d)
            else:
                rep.undec("%s: %s" % (key, d))
    rep.analysed["functions"] = len(fns)
