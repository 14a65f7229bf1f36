"""C11: every documented key of the key-value sections is read into its own field and written
back under that key; unknown and repeated keys and lines without a colon are rejected at
their line."""
import collections, re
import an, lines, cont, rt
from an import *
from cont import *

KEYS = {
    "general::General": "AudioFilename AudioLeadIn AudioHash PreviewTime Countdown SampleSet StackLeniency Mode "
                        "LetterboxInBreaks StoryFireInFront UseSkinSprites AlwaysShowPlayfield OverlayPosition "
                        "SkinPreference EpilepsyWarning CountdownOffset SpecialStyle WidescreenStoryboard "
                        "SamplesMatchPlaybackRate EditorBookmarks EditorDistanceSpacing",
    "editor::Editor": "Bookmarks DistanceSpacing BeatDivisor GridSize TimelineZoom CurrentTime",
    "metadata::Metadata": "Title TitleUnicode Artist ArtistUnicode Creator Version Source Tags BeatmapID "
                          "BeatmapSetID",
    "difficulty::Difficulty": "HPDrainRate CircleSize OverallDifficulty ApproachRate SliderMultiplier "
                              "SliderTickRate",
}


def norm_name(s):
    return s.replace("_", "").lower()


def jobs_for(T, keys):
    V = "{v%d*}"
    out = []
    n = len(keys)
    for i, k in enumerate(keys):
        out.append(("key " + k, [(k, k + ":" + V % 1)], ("some", "none", "err")))
        k2 = keys[(i + 1) % n]
        out.append(("two keys", [(k, k + ":" + V % 1), (k2, k2 + ":" + V % 2)], ("some", "err")))
        out.append(("two keys, blank lines", [(k2, k2 + ":" + V % 1), ("", ""), ("", ""), (k, k + ":" + V % 2)],
                    ("some", "err")))
        out.append(("repeated key", [(k, k + ":" + V % 1), (k, k + ":" + V % 2)], ("some", "err")))
        out.append(("distant repeated key",
                    [(k, k + ":" + V % 1), (k2, k2 + ":" + V % 2), (k, k + ":" + V % 3)], ("some", "err")))
    k = keys[0]
    out.append(("any key", [("?", "{k::}:" + V % 1)], ("some", "err")))
    out.append(("any second key", [(k, k + ":" + V % 1), ("?", "{k::}:" + V % 2)], ("some", "err")))
    out.append(("no colon", [("!", "x{k::}")], ("some", "err")))
    out.append(("no colon in the second line", [(k, k + ":" + V % 1), ("!", "x{k::}")], ("some", "err")))
    out.append(("all keys", [(k, k + ":a" + V % i + "z") for i, k in enumerate(keys)], ("some",)))
    out.append(("all keys backwards", [(k, k + ":a" + V % i + "z") for i, k in reversed(list(enumerate(keys)))], ("some",)))
    return [(T,) + o for o in out]


def job(F, j):
    T, name, ls, kinds = j
    TT = "osu_file::" + T
    sid = ty_id(F, TT)
    fields = F.types[sid]["variants"][0]["f"]
    fty = {}
    for n, ty, _ in fields:
        t = F.types[ty]
        fty[n] = F.types[t["variants"][1]["f"][0][1]]["t"]
    keys = KEYS[T].split()
    f2k = {}
    for n in fty:
        for k in keys:
            if norm_name(k) == norm_name(n):
                f2k[n] = k
    ex = an.make_engine(F, [an.Black(t, tuple(q for q in kinds if q != "err" or an.fallible(F, t))) for t in sorted(set(fty.values()))], K=30, max_outs=60000,
                        max_steps=5 * 10 ** 7)
    fid = inherent(F, TT, "from_str")
    tid = inherent(F, TT, "to_string")
    st = St()
    ver = ver_sym(F, st)
    segs, parts = (), []
    for i, (k, text) in enumerate(ls):
        if k == "!":
            key, val = text, ""
        elif k == "?":
            key, val = "{k::}", text[6:]
        else:
            key, _, val = text.partition(":")
        ks = lines.tmpl(st, key) if key else ()
        vs = lines.tmpl(st, val) if val else ()
        parts.append((k, ks, vs))
        segs += (("\n",) if i else ()) + tuple(ks) + ((":",) if k not in ("", "!") else ()) + tuple(vs)
    segs = st.norm(segs)
    c = collections.Counter()
    bad, und = {}, collections.Counter()

    def verdict(st, key, what):
        if st.notes:
            und[key + " (approximated)"] += 1
        else:
            bad.setdefault(key, "%s: %s" % (rt.describe(ex, st, segs, ver), what))

    def outcome(st, t, h):
        for kind, s, arg, orig in st.cons:
            if kind == "leaf" and arg[0] == t and strip(st, orig) == strip(st, h):
                return arg[2]
        return None

    for k, v, s in parse_outcomes(ex, TT, segs, ver, st, fid):
        c[k] += 1
        if k in ("panic", "cut"):
            und["parse %s: %s" % (k, str(v)[:60])] += 1
            continue
        # what the documented format asks for
        want, exp, seen, amb = None, {}, set(), False
        for i, (key, ks, vs) in enumerate(parts):
            if key == "":
                continue
            if key == "!":
                want = ("InvalidColonSet", i)
                break
            kk = key
            if key == "?":
                t = s.norm(ks)
                if all(isinstance(x, str) for x in t):
                    kk = "".join(t)
                    if kk.strip() in keys and kk not in keys:
                        amb = True
                elif any((strip(s, ks), s.norm(ks)) != (s.norm(ks), s.norm(ks)) for _ in (1,)):
                    amb = strip(s, ks) in [(q,) for q in keys]
                    kk = None
                else:
                    kk = None
            if amb:
                break
            if kk is None or kk not in keys:
                want = ("InvalidKey", i)
                break
            if kk in seen:
                want = ("DuplicateField", i)
                break
            seen.add(kk)
            fld = next((n for n, q in f2k.items() if q == kk), None)
            if fld is None:
                und["no field for key " + kk] += 1
                amb = True
                break
            r = outcome(s, fty[fld], vs)
            if r == "err":
                want = ("le", i, fty[fld], strip(s, vs))
                break
            if r == "some":
                exp[fld] = strip(s, vs)
            elif r is None:
                # the value was not read by its own parser
                want = ("unread", i, kk)
                break
        if amb:
            c["ambiguous"] += 1
            continue
        if want and want[0] == "unread" and k == "err":
            nc = [i for i, x in enumerate(parts) if x[0] == "!"]
            if nc:
                want = ("InvalidColonSet", nc[0])       # found before any value is read
        if want and want[0] == "unread":
            verdict(s, "value not read by the key's own type|" + want[2], "the value of %s was not parsed as %s" % (
                want[2], want[2]))
            continue
        if k == "err":
            idx, err = err_parts(ex, s, v)
            lf = leafs(ex, s, err, ("le",))
            nm = None
            if isinstance(err, Adt) and not lf:
                nm = ex.T[err.ty]["variants"][err.v]["n"]
            if want is None:
                verdict(s, "rejected", "error %s at %s for a valid section" % (nm, idx))
            elif want[0] == "le":
                if len(lf) != 1 or lf[0].k[1] != want[2] or strip(s, lf[0].k[2]) != want[3]:
                    verdict(s, "wrong error", "expected the error of the value in line %d, got %s" % (want[1], err))
                elif idx != want[1]:
                    verdict(s, "error line index", "invalid value in line %d reported at %s" % (want[1], idx))
                else:
                    c["ok"] += 1
            elif nm != want[0]:
                if want[0] == "InvalidColonSet" and want[1] and nm is None:
                    # an earlier value is rejected as well: either error is right
                    c["ok"] += 1
                else:
                    verdict(s, "wrong error", "expected %s, got %s" % (want[0], nm or err))
            elif idx != want[1]:
                verdict(s, "error line index|" + want[0], "%s in line %d reported at %s" % (nm, want[1], idx))
            else:
                c["ok"] += 1
            continue
        if want is not None:
            verdict(s, "accepted|" + want[0], "expected %s" % (want[0],))
            continue
        if k == "none":
            verdict(s, "not returned", "the section is dropped")
            continue
        sv = ex.resolve(s, v)
        wrong = False
        for (n, ty, _), x in zip(fields, sv.f):
            x = ex.resolve(s, x)
            got = None
            if x.v == 1:
                lf = leafs(ex, s, x.f[0], ("lv",))
                got = strip(s, lf[0].k[2]) if lf else "?"
                if lf and lf[0].k[1] != fty[n]:
                    got = "value of another type"
            if got != exp.get(n):
                wrong = True
                verdict(s, "field|" + n, "field %s holds %s, expected %s" % (n, got, exp.get(n)))
        if wrong:
            continue
        c["ok"] += 1
        for k2, text, s2 in print_outcomes(ex, TT, sv, ver, s, tid):
            if k2 != "some":
                if k2 == "none":
                    verdict(s2, "not written", "the section is read but not written")
                else:
                    und["print " + k2] += 1
                continue
            left = [tuple(ln) for ln in split_lines(s2.norm(text))]
            left = [x for x in left if x]
            wrong = []
            for n, t in exp.items():
                at = next(x for x in leafs(ex, s2, sv, ("lv",)) if x.k[1] == fty[n] and strip(s2, x.k[2]) == t)
                at = Atom(("pr", fty[n], at, s2.simp(ver)))
                for sp in range(9):
                    w = tuple(s2.norm((f2k[n] + ":" + " " * sp, at)))
                    if w in left:
                        left.remove(w)
                        break
                else:
                    wrong.append(f2k[n])
            if not left and not wrong:
                c["ok"] += 1
            else:
                verdict(s2, "written|" + ",".join(sorted(wrong)), "printed as %s" % rt.show(s2, text))
    return dict(c), bad, dict(und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps


def run(F, rep):
    rep.rule = ("abstract interpretation of the key-value sections' from_str and to_string on lines of every "
                "documented key (and of an arbitrary key) with symbolic values, the value parsers taken as arbitrary "
                "functions: each key reaches the field of its name and is written back under it; unknown and "
                "repeated keys, lines without colon and rejected values are reported at their line index")
    jobs = []
    for T, ks in KEYS.items():
        if ty_id(F, "osu_file::" + T) is None or inherent(F, "osu_file::" + T, "from_str") is None:
            rep.errors.append("anchor %s not found" % T)
            continue
        jobs += jobs_for(T, ks.split())
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=300):
        sec = j[0].rsplit("::", 1)[-1]
        name = "%s (%s: %s)" % (sec, j[1], ", ".join(x[0] for x in j[2])[:60])
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (name, str(r)[-300:]))
            continue
        c, bad, und, fs, steps = r
        fns |= fs
        rep.count("partitions", sum(n for k, n in c.items() if k != "ok"))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (name, c))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation("%s|%s|%s" % (sec, j[1], k), "%s: %s: %s" % (name, k, d))
        for k, n in und.items():
            rep.undec("%s: %s (%d partitions)" % (name, k, n))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged partitions", rep.discharged, 200)
