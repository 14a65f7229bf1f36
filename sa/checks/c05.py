"""C05: names and numbers of enumerations mean what the format documents, both ways.

The mapping of every enumeration (text -> variant, number -> variant, variant -> text,
variant -> number) is extracted from the paths of its conversion functions, for an arbitrary
text or number, and compared with the documented one."""
import an, lines
from an import *

DIR = ("TopLeft Centre CentreLeft TopRight BottomCentre TopCentre Custom CentreRight BottomLeft BottomRight").split()
EASE = ("Linear EasingOut EasingIn QuadIn QuadOut QuadInOut CubicIn CubicOut CubicInOut QuartIn QuartOut QuartInOut "
        "QuintIn QuintOut QuintInOut SineIn SineOut SineInOut ExpoIn ExpoOut ExpoInOut CircIn CircOut CircInOut ElasticIn "
        "ElasticOut ElasticHalfOut ElasticQuarterOut ElasticInOut BackIn BackOut BackInOut BounceIn BounceOut "
        "BounceInOut").split()


def nums(names):
    return dict(enumerate(names))


# type -> (documented tokens, name of the catch-all variant)
SPEC = {
    "events::normal_event::types::LayerLegacy": (nums("Background Fail Pass Foreground Overlay Video".split()), None),
    "events::normal_event::types::OriginTypeLegacy": (nums(DIR), None),
    "events::storyboard::sprites::OriginType": (nums(DIR), None),
    "events::storyboard::sprites::Layer": ({x: x for x in "Background Fail Pass Foreground Overlay".split()}, None),
    "events::storyboard::sprites::LoopType": ({x: x for x in ("LoopForever", "LoopOnce")}, None),
    "events::storyboard::types::Addition": ({x: x for x in "Whistle Finish Clap".split()}, None),
    "events::storyboard::types::SampleSet": ({x: x for x in "All Normal Soft Drum".split()}, None),
    "events::storyboard::types::Parameter": ({"H": "ImageFlipHorizontal", "V": "ImageFlipVertical",
                                             "A": "UseAdditiveColourBlending"}, None),
    "events::storyboard::types::Easing": (nums(EASE), "Other"),
    "events::storyboard::types::TriggerType": ({"Passing": "Passing", "Failing": "Failing", "HitSound": "HitSound"}, "HitSound"),
    "events::audio_sample::Layer": (nums("Background Fail Pass Foreground".split()), None),
    "general::types::Countdown": (nums("NoCountdown Normal Half Double".split()), None),
    "general::types::Mode": (nums("Osu Taiko Catch Mania".split()), None),
    "general::types::OverlayPosition": ({x: x for x in "NoChange Below Above".split()}, None),
    "general::types::SampleSet": ({x: x for x in "Normal Soft Drum None".split()}, None),
    "hitobjects::types::CurveType": ({"B": "Bezier", "C": "Centripetal", "L": "Linear", "P": "PerfectCircle"}, None),
    "hitobjects::types::SampleSet": (nums("NoCustomSampleSet NormalSet SoftSet DrumSet".split()), "Other"),
    "hitobjects::types::SampleIndex": ({0: "TimingPointSampleIndex"}, "Index"),
    "timingpoints::types::SampleSet": (nums("BeatmapDefault Normal Soft Drum".split()), "Other"),
    "timingpoints::types::SampleIndex": ({0: "OsuDefaultHitsounds"}, "Index"),
    "helper": ({}, None),
}
del SPEC["helper"]


def payload(ex, st, v):
    """the value inside Option / Result / Result<Option>: ('some', x) / ('none',) / ('err',)"""
    v = ex.deref(st, v)
    while isinstance(v, (Adt, Sym)) and ex.kind[v.ty] == "enum" and ex.T[v.ty].get("name") in (
            "std::option::Option", "std::result::Result"):
        n = ex.T[v.ty]["name"]
        v = ex.resolve(st, v)
        if n == "std::option::Option" and v.v == 0:
            return ("none",)
        if n == "std::result::Result" and v.v == 1:
            return ("err",)
        v = ex.deref(st, v.f[0])
    return ("some", v)


def variant(ex, st, v):
    v = ex.resolve(st, v)
    return ex.T[v.ty]["variants"][v.v]["n"], v


def domain(st, key, segs):
    """what a path says about the text: ('lit', text) / ('num', lo, hi, excluded) / ('any',)"""
    segs = st.norm(segs)
    if all(isinstance(x, str) for x in segs):
        t = "".join(segs)
        return ("lit", t)
    iv = st.d.get(("iv", ("num", segs)))
    if iv is not None:
        return ("num", iv[0], iv[1], frozenset(iv[2]) if len(iv) > 2 else frozenset())
    if any(x[0] == "parse" and st.norm(x[1]) == segs and x[3] for x in st.cons):
        return ("num", None, None, frozenset())
    return ("any",) if len(segs) == 1 else ("shape",)


def inside(d, tok):
    if d[0] == "lit":
        return d[1] == str(tok)
    if d[0] == "num":
        if not isinstance(tok, int):
            return False
        return (d[1] is None or d[1] <= tok <= d[2]) and tok not in d[3]
    return False


def only(d, toks):
    """tokens beyond the documented ones in the domain?"""
    if d[0] == "num":
        if d[1] is None:
            return False
        n = d[2] - d[1] + 1
        known = [t for t in toks if isinstance(t, int) and d[1] <= t <= d[2]]
        return n - len([x for x in d[3] if d[1] <= x <= d[2]]) <= len([t for t in known if t not in d[3]])
    return True


def show(d):
    if d[0] == "lit":
        return repr(d[1])
    if d[0] == "num":
        return str(d[1]) if d[1] == d[2] else "numbers %s..%s" % (d[1], d[2])
    return d[0]


def check_in(out, T, what, rows, spec, other, ex, strict=True):
    """rows: (domain, ('some', variant, payload) / ('none',) / ('err',), versions, notes)"""
    for d, r, vs, notes in rows:
        if r[0] != "some":
            continue
        name, val, ok_payload = r[1], r[2], r[3]
        for t, want in spec.items():
            if not inside(d, t):
                continue
            if name == want:
                out.append((True, "", ""))
            else:
                out.append((None if notes else False, "%s|%s|%s is %s" % (T, what, t, name),
                            "%s: %s reads %s as %s, documented is %s (versions %s)" % (T, what, t, name, want, sorted(vs))))
        if name == other:
            if ok_payload is False:
                out.append((False if not notes else None, "%s|%s|payload of %s" % (T, what, other),
                            "%s: %s does not keep the number in %s" % (T, what, other)))
        elif d[0] == "lit" and d[1] not in [str(t) for t in spec] and strict:
            out.append((False if not notes else None, "%s|%s|%s accepted" % (T, what, d[1]),
                        "%s: %s accepts the undocumented %r as %s" % (T, what, d[1], name)))
        elif d[0] == "num" and not only(d, spec):
            out.append((False if not notes else None, "%s|%s|undocumented numbers as %s" % (T, what, name),
                        "%s: %s accepts %s as %s" % (T, what, show(d), name)))
        elif d[0] in ("any", "shape"):
            out.append((None, "", "%s: %s: %s for %s text" % (T, what, name, d[0])))
    cut = any(r[0] == "cut" for d, r, vs, n in rows)
    for t, want in spec.items():
        bad = set()
        for v in VERS:
            if any(r[0] == "none" and v in vs for d, r, vs, n in rows if d[0] != "lit" and not (d[0] == "num" and not inside(d, t))):
                continue
            if not any(r[0] == "some" and v in vs and inside(d, t) for d, r, vs, n in rows):
                bad.add(v)
        if bad:
            out.append((None if cut else False, "%s|%s|%s not accepted" % (T, what, t),
                        "%s: %s does not accept %s (%s) at versions %s" % (T, what, t, want, sorted(bad))))
        else:
            out.append((True, "", ""))


def job(F, T):
    spec, other = SPEC[T]
    T = "osu_file::" + T
    ex = make_engine(F, [], max_outs=4000)
    tid = ty_id(F, T)
    vts = F.types[tid]["variants"]
    out, fns = [], []
    # ---- text -> variant
    P = lines.from_impls(F)
    if T in P:
        fns.append("from_str")
        st = St()
        ver = ver_sym(F, st)
        a = (Atom("text"),)
        rows = []
        for k, v, s in parse_outcomes(ex, T, a, ver, st):
            if k == "panic":
                continue
            r = (k,)
            if k == "some":
                def go(s2, v=v):
                    n, val = variant(ex, s2, v)
                    return [(n, val, s2)]
                for n, val, s2 in ex.split(s, go):
                    d = domain(s2, "text", a)
                    okp = None
                    if n == other and val.f and other != "HitSound":
                        okp = s2.simp(val.f[0]) == s2.simp(Sym(("num", s2.norm(a)), getattr(val.f[0], "ty", -1))) \
                            if isinstance(val.f[0], Sym) else None
                        if okp is False and isinstance(val.f[0], Sym) and val.f[0].k == ("num", s2.norm(a)):
                            okp = True
                    rows.append((d, ("some", n, val, okp), ver_set(s2, ver), s2.notes))
                continue
            rows.append((domain(s, "text", a), r, ver_set(s, ver), s.notes))
        check_in(out, T, "from_str", rows, spec, other, ex)
    # ---- number -> variant, variant -> number
    for i in sorted(F.roots):
        f = F.fns[i]
        b = f.get("body")
        if not b or not f.get("local") or "Versioned" not in f["name"] or b["argc"] != 2:
            continue
        r, x, y = b["locals"][0], b["locals"][1], b["locals"][2]
        if F.types[y]["t"] != "u8":
            continue
        ret = r
        while F.types[ret].get("name") in ("std::option::Option", "std::result::Result"):
            ret = F.types[ret]["args"][0]
        short = f["name"].replace("osu_file_parser::", "").replace("osu_file::", "")
        if ret == tid and F.types[x]["k"] == "int":
            fns.append(short)
            st = St()
            ver = ver_sym(F, st)
            n = ex.fresh(x, "number", st)
            rows = []

            def fin(s, i=i, n=n):
                return ex.run(i, [n, ver], s)
            for k, v, s in ex.split(st, fin):
                if k != "ret":
                    if k == "cut":
                        rows.append((("any",), ("cut",), ver_set(s, ver), s.notes))
                    continue

                def go(s2, v=v):
                    p = payload(ex, s2, v)
                    if p[0] == "some":
                        nm, val = variant(ex, s2, p[1])
                        return [(("some", nm, val), None, s2)]
                    return [(p, None, s2)]
                for p, _, s2 in ex.split(s, go):
                    z = s2.simp(n)
                    if isinstance(z, int):
                        d = ("num", z, z, frozenset())
                    else:
                        lo, hi = s2.interval(z)
                        d = ("num", lo, hi, frozenset(s2.excl(z)))
                    okp = None
                    if p[0] == "some" and p[1] == other and p[2].f:
                        w = s2.simp(p[2].f[0])
                        okp = True if w == z else None if not isinstance(w, int) else d[1] == d[2] == w
                        if isinstance(w, Sym) and w != z and w.k == getattr(z, "k", None):
                            okp = True
                        elif isinstance(w, (Sym, Lin)) and w != z and not isinstance(w, Sym):
                            okp = False
                    rows.append((d, p + (okp,) if p[0] == "some" else p, ver_set(s2, ver), s2.notes))
            check_in(out, T, short, rows, {t: w for t, w in spec.items() if isinstance(t, int)}, other, ex)
        elif x == tid and F.types[ret]["k"] == "int":
            fns.append(short)
            back = {w: t for t, w in spec.items()}
            for vi, vt in enumerate(vts):
                st = St()
                ver = ver_sym(F, st)
                val = Adt(tid, vi, tuple(ex.fresh(q[1], "field", st) for q in vt["f"]))

                def fin(s, i=i, val=val):
                    return ex.run(i, [val, ver], s)
                for k, v, s in ex.split(st, fin):
                    if k != "ret":
                        continue

                    def go(s2, v=v):
                        return [(payload(ex, s2, v), None, s2)]
                    for p, _, s2 in ex.split(s, go):
                        if p[0] != "some":
                            continue
                        w = s2.simp(p[1])
                        if vt["n"] in back and isinstance(w, int):
                            ok = w == back[vt["n"]]
                            out.append((ok if ok or not s2.notes else None, "%s|%s|%s is %s" % (T, short, vt["n"], w),
                                        "%s: %s turns %s into %s, documented is %s" % (T, short, vt["n"], w, back[vt["n"]])))
                        elif vt["n"] == other:
                            z = s2.simp(val.f[0])
                            out.append((True if w == z or isinstance(w, (Sym, Lin)) else None if not isinstance(w, int) else False
                                        if not s2.notes else None,
                                        "%s|%s|%s" % (T, short, other), "%s: %s does not give back the number in %s" % (T, short, other)))
                        else:
                            out.append((None, "", "%s: %s of %s is %s" % (T, short, vt["n"], str(w)[:60])))
    # ---- variant -> text
    if method_id(F, T, TO, "to_string") is not None:
        fns.append("to_string")
        back = {w: t for t, w in spec.items()}
        for vi, vt in enumerate(vts):
            if vt["n"] not in back or vt["f"]:
                continue
            st = St()
            ver = ver_sym(F, st)
            for k, t, s in print_outcomes(ex, T, Adt(tid, vi, ()), ver, st):
                if k != "some":
                    continue
                want = str(back[vt["n"]])
                if all(isinstance(x, str) for x in t):
                    ok = "".join(t) == want
                    out.append((ok if ok or not s.notes else None, "%s|to_string|%s is %s" % (T, vt["n"], "".join(t)),
                                "%s: to_string writes %s as %r, documented is %r (versions %s)"
                                % (T, vt["n"], "".join(t), want, sorted(ver_set(s, ver)))))
                else:
                    out.append((None, "", "%s: to_string of %s: %s" % (T, vt["n"], str(t)[:80])))
    return out, fns, {i for i in ex.visited if F.fns[i].get("local")}, dict(ex.unmodelled)


def bools(F):
    """types that wrap one bool and are read from text"""
    P = lines.from_impls(F)
    out = []
    for T in sorted(P):
        i = ty_id(F, T)
        if i is None:
            continue
        t = F.types[i]
        if t["k"] == "adt" and t["kind"] == "struct" and len(t["variants"][0]["f"]) == 1 and \
                F.types[t["variants"][0]["f"][0][1]]["k"] == "bool":
            out.append(T)
    return out


def bool_job(F, T):
    ex = make_engine(F, [], max_outs=4000)
    out = []
    st = St()
    ver = ver_sym(F, st)
    a = (Atom("text"),)
    seen = {}
    nones = set()
    for k, v, s in parse_outcomes(ex, T, a, ver, st):
        if k == "none":
            nones |= ver_set(s, ver)
        if k != "some":
            continue

        def go(s2, v=v):
            x = ex.resolve(s2, v).f[0]
            x = s2.simp(x) if not isinstance(x, bool) else x
            return [(x, None, s2)]
        for x, _, s2 in ex.split(s, go):
            d = domain(s2, "text", a)
            vs = ver_set(s2, ver)
            if x in (0, 1, True, False) and d[0] in ("lit", "num"):
                x = int(x)
                for t in (0, 1):
                    if inside(d, t):
                        seen.setdefault((t, x), set()).update(vs)
                        ok = t == x
                        out.append((ok if ok or not s2.notes else None, "%s|from_str|%d is %s" % (T, t, bool(x)),
                                    "%s: %d is read as %s (versions %s)" % (T, t, bool(x), sorted(vs))))
                if not only(d, (0, 1)):
                    out.append((None if s2.notes else False, "%s|from_str|other numbers" % T,
                                "%s: %s is read as %s" % (T, show(d), bool(x))))
            else:
                out.append((None, "", "%s: %s for %s" % (T, str(x)[:60], d)))
    if not any(o[0] is None for o in out):
        for t in (0, 1):
            miss = set(VERS) - nones - seen.get((t, t), set())
            out.append((not miss, "%s|from_str|%d not accepted" % (T, t), "%s: %d is not read at versions %s" % (T, t, sorted(miss))))
    tid = ty_id(F, T)
    for b in (False, True):
        st = St()
        ver = ver_sym(F, st)
        for k, t, s in print_outcomes(ex, T, Adt(tid, 0, (b,)), ver, st):
            if k == "some":
                if all(isinstance(x, str) for x in t):
                    ok = "".join(t) == str(int(b))
                    out.append((ok if ok or not s.notes else None, "%s|to_string|%s is %s" % (T, b, "".join(t)),
                                "%s: %s is written as %r" % (T, b, "".join(t))))
                else:
                    out.append((None, "", "%s: %s written as %s" % (T, b, str(t)[:80])))
    return out, ["from_str", "to_string"], {i for i in ex.visited if F.fns[i].get("local")}, dict(ex.unmodelled)


def any_job(F, j):
    return job(F, j[1]) if j[0] == "enum" else bool_job(F, j[1])


def run(F, rep):
    rep.rule = ("the mapping of every enumeration is extracted from the paths of its conversions (from_str, from / try_from / "
                "from_repr, into an integer, to_string) by abstract interpretation with an arbitrary text or number, and "
                "compared with the documented table in both directions: every documented token gives its variant, no other "
                "token does, every variant gives its token, catch-all variants keep the number")
    jobs = [("enum", t) for t in SPEC if ty_id(F, "osu_file::" + t) is not None]
    for t in SPEC:
        if ty_id(F, "osu_file::" + t) is None:
            rep.undec("type %s not found" % t)
    bs = bools(F)
    jobs += [("bool", t) for t in bs]
    only_ = __import__("os").environ.get("ONLY")
    if only_:
        jobs = [j for j in jobs if only_ in j[1]]
    fns = set()
    for j, status, r in run_jobs(F, any_job, jobs, limit=200):
        rep.count("enumerations" if j[0] == "enum" else "flag types")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (j[1], str(r)[-300:]))
            continue
        out, fs, f, unm = r
        fns |= f
        rep.count("conversions", len(fs))
        if not fs:
            rep.undec("%s: no conversion found" % j[1])
        for u in unm:
            rep.undec("%s: unmodelled %s" % (j[1], u))
        c = {}
        for ok, key, d in out:
            c[ok] = c.get(ok, 0) + 1
            if ok is True:
                rep.ok()
            elif ok is False:
                rep.violation(key, d)
            else:
                rep.undec(d)
        rep.samples.append("%s: %s %s" % (j[1], ", ".join(fs), {str(k): v for k, v in c.items()}))
    rep.analysed["functions"] = len(fns)
    rep.floor("enumerations", rep.analysed.get("enumerations", 0), 1 if only_ else 10)
