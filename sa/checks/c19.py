"""C19: the Events section is its lines, in order: every line becomes the event of its header,
comments are kept, commands go to the event in front of them, errors are reported at their line."""
import collections
import an, lines, rt, cont
from an import *
from cont import *

EV = "osu_file::events::Events"
CMD = "osu_file::events::storyboard::cmds::Command"
N = "osu_file::events::normal_event::"
TYPES = {"Background": N + "Background", "Video": N + "Video", "Break": N + "Break",
         "ColourTransformation": N + "ColourTransformation", "SpriteLegacy": N + "SpriteLegacy",
         "AnimationLegacy": N + "AnimationLegacy", "SampleLegacy": N + "SampleLegacy",
         "StoryboardObject": "osu_file::events::storyboard::sprites::Object",
         "AudioSample": "osu_file::events::audio_sample::AudioSample"}
HEADS = {"0": "Background", "1": "Video", "Video": "Video", "2": "Break", "Break": "Break", "3": "ColourTransformation",
         "4": "SpriteLegacy", "5": "AnimationLegacy", "6": "SampleLegacy"}
WITH = ("Background", "Video", "SpriteLegacy", "AnimationLegacy", "SampleLegacy", "StoryboardObject")
ERRS = {"StoryboardObject": "ParseStoryboardObjectError", "AudioSample": "ParseAudioSampleError"}
PUSH = "try_push_cmd"


def templates():
    """(label, lines, kinds of the element parsers)"""
    out = []
    both = ("some", "none", "err")
    for h in HEADS:
        out.append(("header " + h, [h + ",{a*}"], both))
        out.append(("only header " + h, [h], both))
        out.append(("longer header " + h, [h + "{x:0123456789}q,a{a*}z"], ("some", "err")))
        out.append(("longer header " + h, [h + "0,a{a*}z"], ("some", "err")))
    for h in ("Sprite", "Animation", "Sample", "7", "Video2", "", "sprite", "-0", "00"):
        out.append(("header " + (h or "nothing"), [h + ",a{a*}z"], both))
    for x in "xSAV019-/":
        out.append(("line of " + x, [x + "{l*}"], ("some", "err")))
    out.append(("comment", ["//{a*}"], both))
    out.append(("comment and event", ["//{a*}", "2,b{b*}z"], ("some", "err")))
    reps = {}
    for h, n in list(HEADS.items()) + [("Sprite", "StoryboardObject"), ("Sample", "AudioSample")]:
        reps.setdefault(n, h)
    for n, h in reps.items():
        out.append(("command after " + n, ["%s,a{a*}z" % h, " C,c{c*}z"], both))
        out.append(("nested command after " + n, ["%s,a{a*}z" % h, "  _C,c{c*}z"], ("some", "err")))
        out.append(("blank line and command after " + n, ["%s,a{a*}z" % h, "", "_C,c{c*}z"], ("some",)))
        out.append(("two commands after " + n, ["%s,a{a*}z" % h, " C,c{c*}z", "  D,d{d*}z"], ("some", "err")))
        for m, g in reps.items():
            out.append(("%s, %s and a command" % (n, m), ["%s,a{a*}z" % h, "%s,b{b*}z" % g, " C,c{c*}z"], ("some",)))
        out.append(("%s between events" % n, ["2,a{a*}z", "", "%s,b{b*}z" % h, "3,d{d*}z"], ("some", "none", "err")))
        out.append(("%s after a command" % n, ["0,a{a*}z", " C,c{c*}z", "%s,b{b*}z" % h], ("some", "err")))
    out.append(("command first", [" C,c{c*}z"], both))
    out.append(("command first", ["", "_C,c{c*}z", "0,a{a*}z"], both))
    out.append(("blank lines", ["", " ", "2,a{a*}z", "   ", "", "3,b{b*}z"], ("some", "err")))
    out.append(("many comments", ["//{a*}", "//{b*}", "", "//{c*}", "//{d*}", "2,e{e*}z", "//{f*}", "0,g{g*}z", " C,c{c*}z"], ("some", "err")))
    out.append(("many events", ["2,e{e*}z", "0,g{g*}z", " C,c{c*}z", "", "", "  C,d{d*}z", "3,h{h*}z", "2,i{i*}z", "//{j*}"], ("some", "err")))
    out.append(("CRLF", ["2,a{a*}z\r", "0,b{b*}z\r", " C,c{c*}z\r"], ("some", "err")))
    out.append(("long", [x % i for i in range(12) for x in ("2,a{a%d*}z", "0,b{b%d*}z", " C,c{c%d*}z", "//{d%d*}z")], ("some",)))
    return out


def head_of(st, segs):
    """the literal text in front of the first comma, or None"""
    segs = st.norm(segs)
    t = ""
    for x in segs:
        if isinstance(x, str):
            if "," in x:
                return t + x.split(",")[0]
            t += x
        else:
            g = st.af(x)
            if g.min and not g.f & ~mask(","):
                return t
            if not g.f & mask(",") and not g.m & mask(",") and g.min == 0 and g.m == 0:
                continue
            return None
    return t


def engine(F, kinds, n):
    """an engine in which the parsers and printers of single events are arbitrary functions"""
    deps = lines.direct_deps(F, EV)
    long_ = n > 10
    types = {t: n for n, t in TYPES.items()}
    stubs = [an.Black(d, kinds if not long_ else ("some",)) for d in deps if d in types or d == CMD]
    ex = an.make_engine(F, stubs, K=max(6, n + 2), max_outs=60000, max_steps=5 * 10 ** 7)
    pushes = {}
    for f in F.fns:
        m = F.split_method(f["name"])
        if m and m[2] == PUSH and m[0] in types:
            pushes[f["id"]] = m[0]

    def push_stub(T):
        def push(e, st, a, f, dty):
            ev, cmd, ind = e.deref(st, a[0]), e.deref(st, a[1]), st.simp(a[2])
            k = ("push?", ev.k if isinstance(ev, Sym) else str(ev), cmd.k if isinstance(cmd, Sym) else str(cmd), ind)
            r = st.d.get(k)
            if r is None and not long_ and "err" in kinds:
                x, y = st.copy(), st.copy()
                x.d[k], y.d[k] = True, False
                raise Fork([x, y], "push")
            if r is False:
                et = ex.T[dty]["variants"][1]["f"][0][1]
                return Adt(dty, 1, (Sym(("pe",) + k[1:], et),))
            e.write_cell(st, a[0], Sym(("pushed", ev.k, cmd.k, ind), ev.ty))
            return Adt(dty, 0, (Adt(ex.T[dty]["variants"][0]["f"][0][1], 0, ()),))
        return push

    def show(T):
        def f_(e, st, a, f, dty):
            v = e.deref(st, a[0])
            if not isinstance(v, Sym):
                return NotImplemented
            at = Atom(("pr", T, v, st.simp(a[1])))
            if ("at", at.k) not in st.d:
                st.d["at", at.k] = AF(ALL & ~mask("\n\r"), ALL & ~mask("\n\r\t "), ALL & ~mask("\n\r\t "), 1)
            return Adt(dty, 1, (Str((at,)),))
        return f_
    for f in F.fns:
        nm = F.short(f["name"])
        m = F.split_method(f["name"])
        for T in types:
            if nm == T + "::to_string_variables" or m and m[0] == T and m[2] == "to_string_variables":
                ex.stubs[f["id"]] = show(T)
    for i, T in pushes.items():
        ex.stubs[i] = push_stub(T)
    return ex


def job(F, j):
    label, ls, kinds = j
    ex = engine(F, kinds, len(ls))
    long_ = len(ls) > 10
    st = St()
    ver = ver_sym(F, st)
    holes = [lines.tmpl(st, x) if x else () for x in ls]
    segs = ()
    for i, h in enumerate(holes):
        segs += (("\n",) if i else ()) + tuple(h)
    segs = st.norm(segs)
    c = collections.Counter()
    bad, und = {}, collections.Counter()

    def verdict(st, key, what):
        if st.notes:
            und[key + " (approximated)"] += 1
        else:
            bad.setdefault(key, "%s: %s" % (rt.describe(ex, st, segs, ver), what))

    def leaf(st, T, h):
        for kind, s, arg, orig in st.cons:
            if kind == "leaf" and arg[0] == T and strip(st, orig) == strip(st, h):
                return arg[2], st.norm(orig)
        return None, None

    for k, v, s in parse_outcomes(ex, EV, segs, ver, st):
        c[k] += 1
        if k in ("panic", "cut"):
            und["%s %s" % (k, str(v)[:80])] += 1
            continue
        if k == "none":
            verdict(s, "section lost", "the section is not returned")
            continue
        # what the lines mean in this state
        want, err, unk = [], None, None
        for i, h in enumerate(holes):
            b = blank(s, h)
            if b is None:
                unk = "blank or not"
                break
            if b:
                continue
            n = s.norm(h)
            first = n[0] if isinstance(n[0], str) else None
            fm = mask(first[0]) if first else s.af(n[0]).f
            if first and first.startswith("//"):
                rest = s.norm((first[2:],) + n[1:])
                want.append(("Comment", rest))
                continue
            if not fm & ~mask(" _") and fm:
                ind = 0
                if first:
                    t = first
                    while ind < len(t) and t[ind] in " _":
                        ind += 1
                if not first or ind == len(first):
                    unk = "indentation"
                    break
                if want and want[-1][0] == "Comment":
                    unk = "command behind a comment"
                    break
                if not want or want[-1][0] not in WITH:
                    err = ("StoryboardCmdWithNoSprite", i)
                    break
                r, o = leaf(s, CMD, h)
                if r is None:
                    unk = ("command of line %d is not read" % i,)
                    break
                if r == "none":
                    continue
                if r == "err":
                    err = (("le", CMD, o), i)
                    break
                ev = want[-1][1]
                cm = ("lv", CMD, o)
                if s.d.get(("push?", ev, cm, ind)) is False:
                    err = (("pe", ev, cm, ind), i)
                    break
                want[-1] = (want[-1][0], ("pushed", ev, cm, ind))
                continue
            if fm & mask(" _") or (not first and fm & mask("/")) or first == "/":
                # may still be a comment or a command: some path decides it
                if not (first == "/" and len(n) > 1 and not s.af(n[1]).f & mask("/")) and not (
                        first is None and not fm & mask(" _")):
                    unk = "comment or command"
                    break
            hd = head_of(s, n)
            kind = HEADS.get(hd) if hd is not None else None
            if kind is None and hd is None:
                # the event type the code took, when the header cannot be one of the others
                taken = [nm for nm, T in TYPES.items() if leaf(s, T, h)[0]]
                if not taken:
                    unk = "header"
                    break
                kind = taken[0] if taken[0] in HEADS.values() else None
                if kind:
                    unk = "header"
                    break
            if kind:
                r, o = leaf(s, TYPES[kind], h)
                if r is None:
                    unk = ("line %d is not read as %s" % (i, kind),)
                    break
                if r == "some":
                    want.append((kind, ("lv", TYPES[kind], o)))
                elif r == "err":
                    err = (("le", TYPES[kind], o), i)
                    break
                continue
            O, A = TYPES["StoryboardObject"], TYPES["AudioSample"]
            r, o = leaf(s, O, h)
            if r is None:
                unk = ("line %d is not read as a storyboard object" % i,)
                break
            if r == "some":
                want.append(("StoryboardObject", ("lv", O, o)))
                continue
            if r == "none":
                continue
            oe = variant_of(ex, s, ("le", O, o), "UnknownObjectType")
            if oe is None:
                unk = "object error"
                break
            if oe != "UnknownObjectType":
                err = (("le", O, o), i)
                break
            r, o = leaf(s, A, h)
            if r is None:
                unk = ("line %d is not read as an audio sample" % i,)
                break
            if r == "some":
                want.append(("AudioSample", ("lv", A, o)))
            elif r == "err":
                ae = variant_of(ex, s, ("le", A, o), "WrongEvent")
                if ae is None:
                    unk = "audio sample error"
                    break
                err = ("UnknownEventType", i) if ae == "WrongEvent" else (("le", A, o), i)
                break
        if isinstance(unk, tuple):
            verdict(s, unk[0].split(" of line")[0].split("line ")[-1].lstrip("0123456789 "), unk[0])
            continue
        if unk:
            und[unk] += 1
            continue
        if k == "err":
            idx, e = err_parts(ex, s, v)
            if err is None:
                verdict(s, "error without a rejected line", "error %s" % (e,))
                continue
            if isinstance(err[0], str):
                e = ex.resolve(s, e) if isinstance(e, (Adt, Sym)) else e
                nm = ex.T[e.ty]["variants"][e.v]["n"] if isinstance(e, Adt) else str(e)
                if nm != err[0]:
                    verdict(s, "error %s" % nm, "expected %s, got %s" % (err[0], nm))
                    continue
            else:
                ks = [x.k for x in keyed(ex, s, e)]
                if err[0] not in ks:
                    ev = e if not isinstance(e, Sym) else e.k
                    # an error whose variant was looked at is rebuilt field by field
                    if not same_error(ex, s, e, err[0]):
                        verdict(s, "wrong error", "expected the error %s, got %s" % (str(err[0])[:80], str(ev)[:120]))
                        continue
            if idx != err[1]:
                if isinstance(idx, int):
                    verdict(s, "error line index", "the error of line %d is reported at index %s" % (err[1], idx))
                else:
                    und["line index " + str(idx)] += 1
                continue
            c["ok"] += 1
            continue
        if err is not None:
            verdict(s, "accepted", "expected the error %s of line %d" % (str(err[0])[:60], err[1]))
            continue
        it = find_seq(ex, s, v)
        if it is None:
            und["list unknown"] += 1
            continue
        got = []
        for x in it:
            x = ex.resolve(s, ex.deref(s, x))
            nm = ex.T[x.ty]["variants"][x.v]["n"]
            y = ex.deref(s, x.f[0])
            if nm == "Comment":
                got.append((nm, s.norm(y.s) if isinstance(y, Str) else None))
            else:
                got.append((nm, y.k if isinstance(y, Sym) else None))
        if any(x[1] is None for x in got):
            und["event unknown"] += 1
            continue
        w = [(a, s.norm(b) if a == "Comment" else b) for a, b in want]
        if got == w:
            c["ok"] += 1
            write_back(F, ex, v, ver, s, w, verdict, und, c)
        elif len(got) != len(w):
            verdict(s, "number of events", "%d events for %d lines" % (len(got), len(w)))
        elif sorted(map(str, got)) == sorted(map(str, w)):
            verdict(s, "order", "the events are not in the order of their lines")
        else:
            i = next(i for i in range(len(w)) if got[i] != w[i])
            key = "event " + ("kind %s instead of %s" % (got[i][0], w[i][0]) if got[i][0] != w[i][0] else "content " + w[i][0])
            verdict(s, key, "event %d is %s, expected %s" % (i, str(got[i])[:160], str(w[i])[:160]))
    return dict(c), bad, dict(und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def variant_of(ex, st, key, name):
    """name of the known variant of an enum leaf ("other": not the given one), or None"""
    r = st.d.get(("var", key))
    if r is None:
        return None
    T = next((i for i, t in enumerate(ex.T) if t["k"] == "adt" and t.get("local") and t["kind"] == "enum" and
              ERRTYPE.get(key[1]) == t["t"]), None)
    if T is None:
        return None
    ns = {ex.T[T]["variants"][i]["n"] for i in r}
    return name if ns == {name} else "other" if name not in ns else None


ERRTYPE = {}


def keyed(ex, st, v, out=None, depth=6):
    out = [] if out is None else out
    v = ex.deref(st, v)
    if isinstance(v, Sym):
        out.append(v)
    elif isinstance(v, Adt) and depth:
        for x in v.f:
            keyed(ex, st, x, out, depth - 1)
    return out


def same_error(ex, st, e, key):
    return any(isinstance(x.k, tuple) and str(key) in str(x.k) for x in keyed(ex, st, e))


def write_back(F, ex, v, ver, s, w, verdict, und, c):
    for k, text, s2 in print_outcomes(ex, EV, v, ver, s):
        if k in ("panic", "cut"):
            und["print %s %s" % (k, str(text)[:80])] += 1
            continue
        if k == "none":
            verdict(s2, "not written", "the section is read but not written")
            continue
        want = ()
        for i, (a, b) in enumerate(w):
            if i:
                want += ("\n",)
            if a == "Comment":
                want += ("//",) + tuple(b)
            else:
                want += (Atom(("pr", TYPES[a], Sym(b, ty_id(F, TYPES[a])), s2.simp(ver))),)
        if s2.norm(text) == s2.norm(want):
            c["ok"] += 1
        else:
            verdict(s2, "written lines", "written as %s, expected one event per line: %s" % (
                rt.show(s2, text), rt.show(s2, want)))


def run(F, rep):
    rep.rule = ("abstract interpretation of Events::from_str on symbolic lines, the event and command parsers and try_push_cmd "
                "taken as arbitrary functions: every non-blank line is a comment, a command of the event before it, or the "
                "event of its header; errors are those of the line at fault, at its index")
    P = lines.from_impls(F)
    if EV not in P:
        rep.errors.append("anchor type %s not found" % EV)
        return
    for t in P:
        fid = P[t]
        r = F.fns[fid]["body"]["locals"][0]
        et = F.types[r]["args"][1]
        ERRTYPE[t] = F.types[et]["t"]
    fns = set()
    js = templates()
    only = __import__("os").environ.get("ONLY")
    if only:
        js = [j for j in js if only in j[0]]
    for j, status, r in an.run_jobs(F, job, js, limit=300):
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (j[0], str(r)[-200:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("partitions", sum(n for k, n in c.items() if k != "ok"))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (j[0], c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (j[0], u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation("Events|" + k, "%s: %s: %s" % (j[0], k, d))
        for k, n in und.items():
            rep.undec("%s: %s (%d partitions)" % (j[0], k, n))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged partitions", rep.discharged, 1 if only else 100)
