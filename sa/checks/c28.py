"""C28: in storyboard commands a variable stands for its value, in reading and in writing."""
import collections
import an, lines, rt
from an import *
from checks import c19
from cont import inherent

CMD, EV, VAR = c19.CMD, c19.EV, "osu_file::osb::types::Variable"
A, B, X1 = ("a", "{va:$}"), ("b", "{vb:$}"), ("pos_1", "{vx:$}")
# lines of a section (the first is a sprite), variables in the order of their definition
READ = [("no variables", [" F,{x:$},{y:$}"], []),
        ("no name in the line", [" F,{x:$},{y:$}"], [A]),
        ("no name in the line, two variables", [" F,{x:$},{y:$},{z:$}"], [A, B]),
        ("last column", [" F,{x:$},$a"], [A]),
        ("first column", [" F,$a,{x:$}"], [A]),
        ("inside a column", [" F,{x:$}1$a,{y:$}"], [A]),
        ("in front of other text", [" F,$a.5,{y:$}"], [A]),
        ("twice", [" M,{x:$},$a,$a,{y:$}"], [A]),
        ("side by side", [" M,{x:$},$a$a"], [A]),
        ("three times", [" M,$a,{x:$},$a,$a"], [A]),
        ("two variables", [" M,$a,{x:$},$b"], [A, B]),
        ("two variables, later first", [" M,$b,{x:$},$a"], [A, B]),
        ("two variables, each twice", [" M,$b,$a,$b,$a"], [A, B]),
        ("two variables, only the second is used", [" M,0,$b,{x:$}"], [A, B]),
        ("two variables, only the first is used", [" M,0,$a,{x:$}"], [A, B]),
        ("three variables", [" M,$pos_1,$b,{x:$},$a"], [A, B, X1]),
        ("three variables, the middle one is not used", [" M,$pos_1,{x:$},$a"], [A, B, X1]),
        ("three variables, the last is used", [" M,{x:$},$pos_1"], [A, B, X1]),
        ("long name", [" M,0,$pos_1,{x:$}"], [X1]),
        ("unknown name", [" M,0,$c,{x:$}"], [A]),
        ("unknown and known name", [" M,0,$c,$a,{x:$}"], [A]),
        ("name in another case", [" M,0,$A,{x:$}"], [A]),
        ("name without its sign", [" M,0,a,{x:$}"], [A]),
        ("nested command", [" L,0,1", "  F,0,$a,{x:$}"], [A]),
        ] + [("nested command, depth %d" % n, [" " * n + "F,0,$a,{x:$}"], [A]) for n in (3, 4, 5, 7, 9)] + [
        ("underscore indentation", ["_F,0,$a,{x:$}"], [A]),
        ("several lines", [" F,0,$a,{x:$}", " F,1,{y:$}", " F,$b,$a"], [A, B]),
        ("a later line without names", [" F,0,$b,{x:$}", " F,1,{y:$},{z:$}"], [A, B]),
        ("value with a column separator", [" F,0,$a,{x:$}"], [("a", "1,2")]),
        ("value with spaces", [" F,0,$a,{x:$}"], [("a", " 1 ")]),
        ("empty value", [" F,0,$a1,{x:$}"], [("a", "")]),
        ("value that is a name without its sign", [" F,0,$a,{x:$}"], [("a", "b"), B]),
        ("a repeated name", [" F,0,$a,{x:$}"], [A, ("a", "{vc:$}")]),
        ]
# variables written in place of values: a text that every command has, one only some have, one that none has
WRITE = [("none", []), ("no value occurs", [("a", "~~")]), ("separator", [("a", ",")]), ("separator, long name", [("sep_1", ",")]),
         ("second of two", [("b", "~~"), ("a", ",")]), ("first of two", [("a", ","), ("b", "~~")]),
         ("both of two", [("q", ","), ("r", "Passing")]), ("letters", [("r", "Passing")]), ("header letter", [("k", "T")]),
         ("header letters", [("k", "MX")]), ("empty column", [("e", ",,")])]
_T, _V = "{s:18},{e:18}", "{%s:~18PMXg}"
COMMANDS = ["%s,18,%s,%s%s" % (c, _T, _V % "v", m) for c in ("F", "MX", "MY", "S", "R") for m in ("", "," + _V % "w")]
COMMANDS += ["%s,18,%s,%s,%s" % (c, _T, _V % "v", _V % "w") for c in ("M", "V")]
COMMANDS += ["M,18,%s,%s,%s,%s,%s" % (_T, _V % "v", _V % "w", _V % "x", _V % "y"), "C,18,%s,{r},{g},{b}" % _T, "C,18,%s,{r},{g},{b},{r2}" % _T,
             "P,18,%s,{p}" % _T, "L,{s:18},{c}", "T,Passing,%s" % _T, "T,HitSound{t},%s,{g}" % _T, "T,Failing"]

# the same with given numbers: values that fill whole columns, occur in several of them, or are longer than a column
NUMBERS = ["F,0,1024,1024,0.25,0.25", "M,0,1024,1024,320.5,1024,320.5,1024", "MX,0,1024,,320.5,320.5", "MY,0,1024,,1024,320.5", "S,0,1024,1024,320.5,320.5",
           "V,0,1024,1024,320.5,1024,320.5,1024", "R,0,1024,1024,320.5,320.5", "C,0,1024,1024,102,102,102", "P,0,1024,1024,H", "L,1024,1024",
           "T,Passing,1024,1024,1024", "T,HitSoundClap,1024,1024,1024"]
WRITE_NUMBERS = [("value of columns", [("k", "1024")]), ("value of columns and a part of them", [("k", "1024"), ("m", "320")]),
                 ("digits", [("k", "1"), ("m", "5")]), ("two columns", [("k", "1024,1024")]), ("decimal point", [("dot", "320.5"), ("q", ".")]),
                 ("three times", [("ab", "102"), ("m", "25")])]


def segtmpl(st, text):
    return lines.tmpl(st, text) if text else ()


def variables(ex, F, st, vs):
    ty = ty_id(F, VAR)
    names = [f[0] for f in F.types[ty]["variants"][0]["f"]]
    out = []
    for n, v in vs:
        d = {"name": Str((n,)), "value": Str(st.norm(segtmpl(st, v)))}
        out.append(Adt(ty, 0, tuple(d[x] for x in names)))
    return RefV(Seq(tuple(out)))


def substituted(line, vs):
    head, sep, body = line.partition(",")
    for n, v in vs:
        body = body.replace("$" + n, v)
    return head + sep + body


def read_job(F, j):
    _, label, ls, vs = j
    ex = c19.engine(F, ("some", "err"), len(ls) + 1)
    st = St()
    ver = ver_sym(F, st)
    fid = inherent(F, EV, "from_str_variables")
    segs = ("Sprite,Fail,Centre,a.png,0,0",)
    for l in ls:
        segs += ("\n",) + tuple(segtmpl(st, l))
    want = [segtmpl(st, substituted(l, vs)) for l in ls]
    segs = st.norm(segs)
    va = variables(ex, F, st, vs)
    c = collections.Counter()
    bad, und = {}, collections.Counter()

    def go(s):
        return ex.run(fid, [RefV(Str(segs)), ver, va], s)
    for k, v, s in ex.split(st, go):
        c[k] += 1
        if k != "ret":
            und["%s %s" % (k, str(v)[:80])] += 1
            continue
        got = [(arg[2], s.norm(o)) for kind, _, arg, o in s.cons if kind == "leaf" and arg[0] == CMD]
        ws = [c19.strip(s, w) for w in want]
        n = 0
        for kind, g in got:
            if c19.strip(s, g) in ws:
                c["ok"] += 1
                n += 1
                continue
            d = "the command `%s` is read as `%s`" % (" / ".join(ls), rt.show(s, g))
            if s.notes:
                und["text of a command (approximated: %s)" % ",".join(map(str, s.notes))[:80]] += 1
            else:
                bad.setdefault("%s|not replaced by its value" % label, d)
        if not got and len(s.cons) and not any(kk == "leaf" and a[2] != "some" for kk, _, a, _ in s.cons if kk == "leaf"):
            und["no command read"] += 1
    return dict(c), bad, dict(und), {i for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def replaced(ex, st, segs, lit, by):
    """every occurrence of a literal in a printed text, or None where that is not known"""
    out = []
    for x in st.norm(segs):
        if isinstance(x, str):
            out.append(x.replace(lit, by))
        elif len(lit) == 1 and st.af(x).m & mask(lit):
            return None
        elif any(not st.af(x).m & mask(ch) for ch in lit):
            if st.af(x).m & (mask(lit[0]) | mask(lit[-1])):
                return None
            out.append(x)
        else:
            return None
    return st.norm(tuple(out))


DEPS = {}


def write_job(F, j):
    _, label, T, text, K, vs = j
    ex = make_engine(F, DEPS.get(T, ()), K=K, max_outs=20000, max_steps=20000000)
    st = St()
    ver = ver_sym(F, st, 14, 14)
    segs = lines.tmpl(st, text)
    fid = inherent(F, CMD, "to_string_variables")
    c = collections.Counter()
    bad, und = {}, collections.Counter()

    def written(v, s, vs):
        va = variables(ex, F, s, vs)
        out = []

        def go(q):
            return ex.run(fid, [RefV(v), ver, va], q)
        for k, r, q in ex.split(s, go):
            if k != "ret":
                out.append((k, r, q))
                continue

            def fin(q2, r=r):
                x = optval(ex, q2, r)
                return [("none", None, q2)] if x is None else [("some", q2.norm(ex.deref(q2, x).s), q2)]
            out += ex.split(q, fin)
        return out
    for k, v, s in parse_outcomes(ex, T, segs, ver, st):
        if k == "cut":
            und["parse %s" % str(v)[:60]] += 1
        if k != "some":
            continue
        for k1, t1, s1 in written(v, s, []):
            for k2, t2, s2 in written(v, s1, vs):
                if "cut" in (k1, k2) or "panic" in (k1, k2):
                    und["print %s %s" % (k1, k2)] += 1
                    continue
                c["paths"] += 1
                if k1 != k2:
                    w = "written with variables but not without, or the other way round"
                    g = None
                elif k1 == "none":
                    c["ok"] += 1
                    continue
                else:
                    base = s2.norm(t1)
                    if not base or not isinstance(base[0], str) or "," not in base[0]:
                        und["header of the command"] += 1
                        continue
                    h, body = base[0].split(",", 1)
                    body = ((body,) if body else ()) + tuple(base[1:])
                    for n, x in vs:
                        body = body if body is None else replaced(ex, s2, body, x, "$" + n)
                    if body is None:
                        und["value may occur in a column"] += 1
                        continue
                    g = s2.norm((h + ",",) + tuple(body))
                    w = "written as %s, expected %s" % (rt.show(s2, t2), rt.show(s2, g))
                if g is not None and s2.norm(t2) == g:
                    c["ok"] += 1
                elif s2.notes:
                    und["written text (approximated)"] += 1
                else:
                    bad.setdefault("%s|%s|written text" % (text.split(",")[0], label), w)
    return dict(c), bad, dict(und), {i for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def job(F, j):
    return (read_job if j[0] == "read" else write_job)(F, j)


def run(F, rep):
    rep.rule = ("abstract interpretation of Events::from_str_variables with the command parser as an arbitrary function: the text every "
                "command is read from has each `$name` replaced by the value of that variable; and of Command::to_string_variables on "
                "commands of every kind: the text is that without variables with every occurrence of a value behind the header replaced")
    rep.assumptions = ["names hold no `$`, no name begins another one, no value occurs in a name (the format is ambiguous there)"]
    for n in ("from_str_variables",):
        if inherent(F, EV, n) is None:
            rep.errors.append("anchor Events::%s not found" % n)
    if inherent(F, CMD, "to_string_variables") is None or ty_id(F, VAR) is None:
        rep.errors.append("anchor Command::to_string_variables not found")
    if rep.errors:
        return
    ls, deps, missing, badsum = lines.plan(F, {CMD})
    DEPS.update(deps)
    jobs = [("read", a, b, c) for a, b, c in READ]
    jobs += [("write", lab, CMD, t, 2, vs) for t in COMMANDS for lab, vs in WRITE]
    jobs += [("write", lab, CMD, t, 4, vs) for t in NUMBERS for lab, vs in WRITE_NUMBERS]
    only = __import__("os").environ.get("ONLY")
    if only:
        jobs = [j for j in jobs if only in str(j)]
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=200):
        nm = "%s %s: %s" % (j[0], j[1], " / ".join(j[2]) if j[0] == "read" else j[3])
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (nm, str(r)[-200:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (nm, c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (nm, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        if not c.get("ok") and not bad:
            rep.undec("%s: nothing decided" % nm)
        for k, d in bad.items():
            rep.violation(k, "%s: %s" % (nm, d))
        for k, n in und.items():
            rep.undec("%s: %s (%d paths)" % (nm, k, n))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged cases", rep.discharged, 1 if only else 40)
