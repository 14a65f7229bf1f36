"""C24: what exists at a version, and the defaults.  Every field and section is read, written and given a
default exactly at the versions that have it; the defaults are the documented ones and read back."""
import collections, os
import an, api, lines, models
from an import *
from api import *

VD = "osu_file::types::VersionedDefault"


def vs(a=3, b=14):
    return frozenset(range(a, b + 1))


# type -> (versions read at, written at, default at); every version where not listed
GATE = {
    "general::AudioHash": (vs(), vs(3, 13), vs(3, 13)),
    "general::EditorBookmarks": (vs(), vs(3, 5), None),
    "general::EditorDistanceSpacing": (vs(), vs(3, 5), None),
    "general::types::Countdown": (vs(5), vs(5), vs(5)),
    "general::types::SampleSet": (vs(4), vs(4), vs(4)),
    "general::types::OverlayPosition": (vs(14), vs(14), vs(14)),
    "editor::CurrentTime": (vs(), vs(10, 10), None),
    "events::normal_event::ColourTransformation": (vs(), vs(3, 13), None),
    "hitobjects::types::HitSample": (vs(), vs(10), vs()),
    "colours::Colours": (vs(5), vs(5), vs(5)),
    "osb::Osb": (vs(14), vs(14), None),
}
# documented defaults, as they are written
DEFAULT = {
    "general::AudioFilename": "", "general::AudioLeadIn": "0", "general::AudioHash": "", "general::PreviewTime": "-1",
    "general::types::Countdown": "1", "general::types::SampleSet": "Normal", "general::StackLeniency": "0.7", "general::types::Mode": "0",
    "general::LetterboxInBreaks": "0", "general::StoryFireInFront": "1", "general::UseSkinSprites": "0", "general::AlwaysShowPlayfield": "0",
    "general::types::OverlayPosition": "NoChange", "general::SkinPreference": "", "general::EpilepsyWarning": "0", "general::CountdownOffset": "0",
    "general::SpecialStyle": "0", "general::WidescreenStoryboard": "0", "general::SamplesMatchPlaybackRate": "0",
    "metadata::Tags": "", "events::storyboard::sprites::LoopType": "LoopForever", "hitobjects::types::SampleSet": "0",
    "hitobjects::types::SampleIndex": "0", "timingpoints::types::SampleIndex": "0",
    "colours::Colours": "", "events::Events": "", "hitobjects::HitObjects": "", "timingpoints::TimingPoints": "",
    "hitobjects::types::HitSound": "0", "types::Decimal": "0",
}
SAMPLE = {10: "0:0:0", 11: "0:0:0", 12: "0:0:0:0:", 13: "0:0:0:0:", 14: "0:0:0:0:"}
OBJECTS = {"hitcircle_default": "256,192,0,1,0", "spinner_default": "256,192,0,8,0,0", "osu_mania_hold_default": "0,192,0,128,0,0:"}
# sections with all their fields optional: nothing is set by default
SECTIONS = ("general::General", "editor::Editor", "metadata::Metadata", "difficulty::Difficulty")


class J:
    def __init__(self, F, **kw):
        self.F = F
        self.ex = an.make_engine(F, [], max_outs=6000, max_steps=3 * 10 ** 6, **kw)
        self.c, self.bad, self.und = collections.Counter(), {}, collections.Counter()

    def verdict(self, st, ok, key, text):
        if ok is True:
            self.c["ok"] += 1
        elif ok is None:
            self.und[key] += 1
        elif st is not None and st.notes:
            self.und[key + " (approximated)"] += 1
        else:
            self.bad.setdefault(key, text)

    def result(self):
        F, ex = self.F, self.ex
        return dict(self.c), self.bad, dict(self.und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def show(s):
    s = sorted(s)
    out = []
    while s:
        a = b = s.pop(0)
        while s and s[0] == b + 1:
            b = s.pop(0)
        out.append("%d" % a if a == b else "%d-%d" % (a, b))
    return ",".join(out) or "none"


def gates(F, T):
    """versions at which a text may give a value, a value is written, and a default exists"""
    j = J(F)
    ex = j.ex
    n = T.replace("osu_file::", "", 1)
    rd, wr, de = GATE.get(n, (vs(), vs(), vs()))
    ty = ty_id(F, T)

    def compare(key, got, exact, want, what):
        some, none = got
        # a value at a version that has none, or nothing at a version that has it
        for extra, why in ((some - want, "at"), ((vs() - some) & want, "nothing at")):
            if extra:
                j.verdict(None, False if exact else None, "%s|%s|%s" % (n, key, "extra" if why == "at" else "missing"),
                          "%s: %s %s version %s, which %s it" % (n, what, why, show(extra), "does not have" if why == "at" else "has"))
        if not (some - want) and not ((vs() - some) & want):
            j.c["ok"] += 1

    if method_id(F, T, FROM, "from_str") is not None:
        st = St()
        ver = ver_sym(F, st)
        some, none, exact = frozenset(), frozenset(), True
        for k, v, s in parse_outcomes(ex, T, (Atom("text"),), ver, st):
            j.c["paths"] += 1
            if k == "some":
                some |= ver_set(s, ver)
            if k == "cut":
                exact = False
            # approximated paths may only make the set of values too large
            exact = exact and not (k == "some" and s.notes and ver_set(s, ver) - rd)
        compare("read", (some, none), exact, rd, "reading gives a value")
    if method_id(F, T, TO, "to_string") is not None:
        st = St()
        ver = ver_sym(F, st)
        some, none, exact = frozenset(), frozenset(), True
        for k, v, s in print_outcomes(ex, T, Sym("in:x", ty), ver, st):
            j.c["paths"] += 1
            if k == "some":
                some |= ver_set(s, ver)
            elif k == "none":
                none |= ver_set(s, ver)
            elif k == "cut":
                exact = False
        compare("write", (some, none), exact, wr, "writing gives a text")
        both = (none & wr) - (vs() - some)
        j.verdict(None, (False if exact else None) if both else True, "%s|write|some" % n, "%s: some values are not written at version %s" % (n, show(both)))
    return j.result()


def container(F, T):
    """an empty text of a list section, at every version"""
    j = J(F)
    ex = j.ex
    n = T.replace("osu_file::", "", 1)
    rd, wr, de = GATE.get(n, (vs(), vs(), vs()))
    ms = api.methods(F).get(ty_id(F, T), {})
    for v in sorted(vs()):
        for k, x, s in parse_outcomes(ex, T, (), v, St()):
            j.c["paths"] += 1
            if k in ("some", "none", "err"):
                j.verdict(s, (k == "some") == (v in rd), "%s|read|%s" % (n, "extra" if k == "some" else "missing"),
                          "%s: an empty section reads as %s at version %d" % (n, k, v))
            elif k == "cut":
                j.und["cut"] += 1
            if k == "some":
                # the same empty value at any version
                for w in sorted(vs()):
                    for k2, t, s2 in print_outcomes(ex, T, x, w, s.copy()):
                        j.c["paths"] += 1
                        if k2 in ("some", "none"):
                            j.verdict(s2, (k2 == "some") == (w in wr), "%s|write|%s" % (n, "extra" if k2 == "some" else "missing"),
                                      "%s: an empty section writes as %s at version %d" % (n, k2, w))
    return j.result()


def defaults(F, T):
    j = J(F)
    ex = j.ex
    n = T.replace("osu_file::", "", 1)
    rd, wr, de = GATE.get(n, (vs(), vs(), vs()))
    fids = [(tr, i) for (ty, tr, me), l in F.bymethod.items() if ty == T and me == "default" for _, i in l]
    printed = 0
    for tr, fid in fids:
        b = F.fns[fid].get("body")
        if not b:
            continue
        for v in sorted(vs()) if b["argc"] else [14]:
            for k, x, s in ex.split(St(), lambda q: ex.run(fid, [v] if b["argc"] else [], q)):
                j.c["paths"] += 1
                if k != "ret":
                    if k == "cut":
                        j.und["default: cut"] += 1
                    continue
                x = an.optval(ex, s, x) if b["argc"] else x
                if b["argc"]:
                    j.verdict(s, (x is not None) == (v in de), "%s|default|%s" % (n, "extra" if x is not None else "missing"),
                              "%s: there is %s default at version %d" % (n, "a" if x is not None else "no", v))
                if x is None or n not in DEFAULT and n != "hitobjects::types::HitSample":
                    continue
                ok = check_text(j, T, n, x, v, s, DEFAULT.get(n) if n in DEFAULT else SAMPLE.get(v), v in wr, v in rd)
                printed += ok
    return j.result()


def check_text(j, T, n, x, v, st, want, writes, reads):
    ex, F = j.ex, j.F
    if method_id(F, T, TO, "to_string") is not None:
        outs = print_outcomes(ex, T, x, v, st.copy())
    else:
        outs = [("some" if k == "ret" else k, r, s) for k, r, s in ex.split(st.copy(), lambda w: models.disp(ex, w, ty_id(F, T), x))]
        writes = True
    for k, t, s in outs:
        j.c["paths"] += 1
        if k == "none":
            j.verdict(s, not writes, n + "|default|not written", "%s: the default is not written at version %d" % (n, v))
            continue
        if k != "some":
            j.und["%s: default written: %s" % (n, k)] += 1
            continue
        t = s.norm(t)
        if not all(isinstance(y, str) for y in t):
            j.und["%s: text of the default" % n] += 1
            continue
        t = "".join(t)
        j.verdict(s, t == want, n + "|default|value", "%s: the default is %r instead of %r" % (n, t, want))
        if reads and t == want and method_id(F, T, FROM, "from_str") is not None:
            for k2, y, s2 in parse_outcomes(ex, T, (t,) if t else (), v, s.copy()):
                j.c["paths"] += 1
                if k2 != "some":
                    if k2 != "cut":
                        j.verdict(s2, False, n + "|default|read back", "%s: the default reads as %s" % (n, k2))
                    continue
                for _, d, s3 in ex.split(s2, lambda q: [(None, eqv(ex, q, deepen(ex, q, x), deepen(ex, q, y)), q)]):
                    if n == "types::Decimal" or "Decimal" in str(j.F.types[ty_id(F, T)]["variants"][0]["f"]):
                        d = True if d is not False else None
                    j.verdict(s3, d, n + "|default|read back", "%s: the default %s reads back as %s" % (n, x, y))
    return 1


def deepen(ex, st, v, d=0):
    v = ex.deref(st, v)
    if d < 6 and isinstance(v, (Adt, Sym)) and isinstance(v.ty, int) and v.ty >= 0 and ex.kind[v.ty] in ("enum", "struct"):
        v = ex.resolve(st, v)
        if isinstance(v, Adt):
            return Adt(v.ty, v.v, tuple(deepen(ex, st, x, d + 1) for x in v.f))
    return v


def objects(F, T):
    """ready-made hit objects, and sections with nothing set"""
    j = J(F)
    ex = j.ex
    n = T.replace("osu_file::", "", 1)
    ty = ty_id(F, T)
    for fid in api.makers(F).get(ty, []) + [i for (t, tr, me), l in F.bymethod.items() if t == T and me == "default" for _, i in l]:
        b = F.fns[fid]["body"]
        name = F.fns[fid]["name"].rsplit("::", 1)[-1]
        if b["argc"]:
            continue
        for k, x, s in ex.split(St(), lambda q: ex.run(fid, [], q)):
            j.c["paths"] += 1
            if k != "ret":
                continue
            if n in SECTIONS:
                x = ex.resolve(s, x)
                for f, y in zip(F.types[ty]["variants"][0]["f"], x.f):
                    y = ex.resolve(s, y)
                    j.verdict(s, F.types[y.ty].get("name") == "std::option::Option" and y.v == 0, "%s|%s|%s" % (n, name, f[0]),
                              "%s::%s sets the field %s" % (n, name, f[0]))
            elif name in OBJECTS:
                check_text(j, T, "%s::%s" % (n, name), x, 14, s, OBJECTS[name], True, False)
    return j.result()


def job(F, a):
    return {"gates": gates, "container": container, "defaults": defaults, "objects": objects}[a[0]](F, a[1])


def run(F, rep):
    rep.rule = ("abstract interpretation of every versioned reader, writer and default with an arbitrary text or value and the version "
                "symbolic; the versions at which they give something are compared with the table of the format")
    types = sorted({k[0] for k in F.bymethod if k[1] in (FROM, TO) and k[2] in ("from_str", "to_string")})
    conts = [T for T in types if T.replace("osu_file::", "", 1) in (
        "colours::Colours", "events::Events", "hitobjects::HitObjects", "timingpoints::TimingPoints", "osb::Osb")]
    leaf = set(lines.leaf_types(F)) | {"osu_file::hitobjects::types::HitSample"}
    defs = sorted({k[0] for k in F.bymethod if k[2] == "default" and k[1] in (VD, "std::default::Default") and ty_id(F, k[0]) is not None
                   and F.types[ty_id(F, k[0])].get("local")})
    jobs = [("gates", T) for T in types if T in leaf] + [("container", T) for T in conts] + [("defaults", T) for T in defs]
    jobs += [("objects", "osu_file::" + T) for T in SECTIONS + ("hitobjects::HitObject",) if ty_id(F, "osu_file::" + T) is not None]
    known = {T.replace("osu_file::", "", 1) for T in types}
    for n in GATE:
        if n not in known and ty_id(F, "osu_file::" + n) is None:
            rep.undec("type of the version table not found: " + n)
    only = os.environ.get("ONLY")
    if only:
        jobs = [x for x in jobs if only in x[1] or only == x[0]]
    fns = set()
    for a, status, r in an.run_jobs(F, job, jobs, limit=200):
        nm = "%s %s" % a
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (nm, str(r)[-300:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count(a[0])
        rep.count("paths", c.get("paths", 0))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (nm, c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (nm, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation(k, d)
        for k, x in und.items():
            rep.undec("%s: %s (%d)" % (nm, k, x))
    rep.analysed["functions"] = len(fns)
    rep.floor("facts", rep.discharged, 1 if only else 200)
