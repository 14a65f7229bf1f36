"""C29: derived values: tempo, slider velocity and frame names are the documented functions of what is stored."""
import collections
from fractions import Fraction
import an, api, lines, rt
from an import *
from cont import inherent

TP = "osu_file::timingpoints::TimingPoint"
ANIM = "osu_file::events::storyboard::sprites::Animation"


def monomial(st, v):
    """(factor, {quantity: power}) of a product of decimals without its rounding, or None"""
    v = st.simp(v) if not isinstance(v, tuple) else v
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return Fraction(v), {}
    if isinstance(v, Sym) and isinstance(v.k, tuple):
        if v.k[0] == "decc":
            return Fraction(v.k[1]), {}
        if v.k[0] == "decs" and isinstance(v.k[1], int) and isinstance(v.k[2], int):
            return Fraction(v.k[1], 10 ** v.k[2]), {}
        if v.k[0] == "dop" and v.k[1] in ("mul", "div"):
            x, y = monomial(st, v.k[2]), monomial(st, v.k[3])
            if x is None or y is None or v.k[1] == "div" and not y[0]:
                return None
            s = 1 if v.k[1] == "mul" else -1
            p = dict(x[1])
            for q, n in y[1].items():
                p[q] = p.get(q, 0) + s * n
            return (x[0] * y[0] if s > 0 else x[0] / y[0]), {q: n for q, n in p.items() if n}
        if v.k[0] == "dop":
            return Fraction(1), {"(%s)" % repr(v.k)[:200]: 1}
        return Fraction(1), {v.k: 1}
    if isinstance(v, Sym):
        return Fraction(1), {v.k: 1}
    if isinstance(v, Lin):
        return Fraction(1), {"(%s)" % repr(v)[:200]: 1}
    return None


def overflows(st):
    return any(isinstance(k, tuple) and k[0] == "dovf" and v for k, v in st.d.items())


class Job:
    def __init__(self, F):
        self.F = F
        self.ex = make_engine(F, (), max_outs=20000, max_steps=5000000, K=4)
        self.c = collections.Counter()
        self.bad, self.und = {}, collections.Counter()

    def rets(self, fid, args, st):
        out = []
        for k, v, s in self.ex.split(st, lambda q: self.ex.run(fid, args, q)):
            self.c["paths"] += 1
            if k == "ret":
                out.append((v, s))
            elif k == "cut":
                self.und["cut: %s" % str(v)[:80]] += 1
        return out

    def say(self, st, ok, key, text):
        if ok:
            self.c["ok"] += 1
        elif st.notes:
            self.und[key + " (approximated)"] += 1
        else:
            self.bad.setdefault(key, text)

    def product(self, st, v, factor, powers, key):
        m = monomial(st, v)
        if m is None:
            self.und["%s: not a product of decimals" % key] += 1
        else:
            self.say(st, m == (Fraction(factor), powers), key, "%s gives %s" % (key, show(m)))


def show(m):
    return " * ".join([str(m[0])] + ["%s^%d" % (q if isinstance(q, str) else q[-1], n) for q, n in m[1].items()])


def conversions(F, _):
    j = Job(F)
    for n in ("beat_duration_ms_to_bpm", "bpm_to_beat_duration_ms"):
        fid = inherent(F, TP, n)
        ty = F.fns[fid]["body"]["locals"][1]
        for v, s in j.rets(fid, [Sym("x", ty)], St()):
            j.product(s, v, 60000, {"x": -1}, n)
    return j


def decimal_variants(ex, st, ty, x):
    """values of the crate's Decimal: a number, a text"""
    F = ex.F
    t = F.types[ty]
    if t.get("name") == "rust_decimal::Decimal":
        return [("number", x)]
    inner = t["variants"][0]["f"][0][1]
    at = Atom("kept")
    st.set_af(at, AF(ALL, min=1))
    return [("number", Adt(ty, 0, (Adt(inner, 0, (x,)),))), ("text", Adt(ty, 0, (Adt(inner, 1, (Str((at,)),)),)))]


def points(F, kind):
    """timing points from their constructors, from a setter, and with the column that says what they are missing"""
    j = Job(F)
    ex = j.ex
    bpm, sv, unin = (inherent(F, TP, n) for n in ("calc_bpm", "calc_slider_velocity_multiplier", "uninherited"))
    made = []
    if kind in ("uninherited", "set inherited"):
        fid = inherent(F, TP, "new_uninherited")
    elif kind in ("inherited", "set uninherited"):
        fid = inherent(F, TP, "new_inherited")
    else:
        fid = None
    if fid is not None:
        tys = F.fns[fid]["body"]["locals"]
        st0 = St()
        args = [Sym("a%d" % i, tys[i + 1]) for i in range(F.fns[fid]["body"]["argc"])]
        dty = tys[2]
        num = Sym("x", dty if F.types[dty].get("name") == "rust_decimal::Decimal" else next(
            i for i, t in enumerate(F.types) if t.get("name") == "rust_decimal::Decimal"))
        for what, d in decimal_variants(ex, st0, dty, num):
            args[1] = d
            for v, s in j.rets(fid, list(args), st0.copy()):
                made.append((what, v, s))
    else:
        ty = ty_id(F, TP)
        fs = F.types[ty]["variants"][0]["f"]
        st0 = St()
        k = next((i for i, f in enumerate(fs) if F.types[f[1]].get("name") == "std::option::Option" and
                  F.types[F.types[f[1]]["args"][0]]["k"] == "bool"), None)
        b = next((i for i, f in enumerate(fs) if f[0] == "beat_length"), None)
        if k is None or b is None:
            j.und["fields of a timing point"] += 1
            return j
        num = Sym("x", next(i for i, t in enumerate(F.types) if t.get("name") == "rust_decimal::Decimal"))
        for what, d in decimal_variants(ex, st0, fs[b][1], num):
            f = [Sym("f%d" % i, x[1]) for i, x in enumerate(fs)]
            f[b] = d
            f[k] = Adt(fs[k][1], 0, ())
            made.append((what, Adt(ty, 0, tuple(f)), st0.copy()))
    if kind.startswith("set"):
        fid = inherent(F, TP, "set_uninherited")
        l = []
        for what, v, s in made:
            c = s.alloc(v)
            for _, z in j.rets(fid, [MutRef(c), kind == "set uninherited"], s):
                l.append((what, z.d["h", c], z))
        made = l
    # what the stored length is
    length = {"inherited": (Fraction(-100), {"x": -1}), "set uninherited": (Fraction(-100), {"x": -1})}.get(kind, (Fraction(1), {"x": 1}))
    for what, v, s in made:
        for u, s1 in j.rets(unin, [RefV(v)], s.copy()):
            for t, s2 in [(t, z) for k, t, z in ex.split(s1, lambda q: [("ret", ex.truth(q, u), q)]) if k == "ret"]:
                for name, fid, factor, applies in (("calc_bpm", bpm, 60000, t), ("calc_slider_velocity_multiplier", sv, -100, not t)):
                    some = 0
                    key = "%s of a timing point (%s, length as %s)" % (name, kind, what)
                    for r, s3 in j.rets(fid, [RefV(v)], s2.copy()):
                        r = ex.resolve(s3, r)
                        if not applies or what == "text":
                            j.say(s3, r.v == 0, key, "%s is given although there is none" % key)
                        elif r.v == 0:
                            j.say(s3, overflows(s3), key, "%s is not given" % key)
                        else:
                            some += 1
                            j.product(s3, r.f[0], Fraction(factor) / length[0], {q: -n for q, n in length[1].items()}, key)
                    if applies and what == "number":
                        j.say(s2, some > 0, key, "%s is never given" % key)
    if not made:
        j.und["no timing point: " + kind] += 1
    return j


PATHS = [("{n:/.}", "{n:/.}", ""), ("{n:/.}.{e:/.}", "{n:/.}", ".{e:/.}"), ("{d:/}/{n:/.}.{e:/.}", "{n:/.}", ".{e:/.}"), ("{d:/}/{n:/.}", "{n:/.}", ""),
         ("{n:/.}.{m:/.}.{e:/.}", "{n:/.}.{m:/.}", ".{e:/.}"), ("{n:/.}.{e:/.}.{e:/.}", "{n:/.}.{e:/.}", ".{e:/.}"), (".{n:/.}", ".{n:/.}", ""), ("{n:/.}.", "{n:/.}", "."),
         (".{n:/.}.{e:/.}", ".{n:/.}", ".{e:/.}"), ("{d:/}/{c:/}/{n:/.}.{e:/.}", "{n:/.}", ".{e:/.}"), ("", "", ""), ("{n:/.}.{e:/.}/{m:/.}", "{m:/.}", "")]


def frames(F, case):
    i, count = case
    path, stem, ext = PATHS[i]
    j = Job(F)
    ex = j.ex
    ty = ty_id(F, ANIM)
    st = St()
    fs = F.types[ty]["variants"][0]["f"]
    segs = lines.tmpl(st, path) if path else ()
    for x in segs:
        if not isinstance(x, str):
            g = st.af(x)
            st.set_af(x, AF(g.m, g.f, g.l, 1))
    f = []
    for n, t, _ in fs:
        if n == "frame_count":
            f.append(count)
        elif n == "filepath":
            inner = F.types[t]["variants"][0]["f"]
            f.append(Adt(t, 0, tuple(Str(st.norm(segs)) for _ in inner)))
        else:
            f.append(Sym("f " + n, t))
    stem, ext = (lines.tmpl(st, stem) if stem else ()), (lines.tmpl(st, ext) if ext else ())
    key = "frame_file_names of `%s`" % path
    for v, s in j.rets(inherent(F, ANIM, "frame_file_names"), [RefV(Adt(ty, 0, tuple(f)))], st):
        got = [s.norm(ex.deref(s, x).s) for x in ex.whole_seq(s, ex.deref(s, v)).it]
        want = [s.norm(tuple(stem) + (str(n),) + tuple(ext)) for n in range(count)]
        # the only approximation here: names are UTF-8
        s.notes = type(s.notes)(x for x in s.notes if "UTF-8" not in str(x))
        j.say(s, got == want, key, "%s with %d frames gives %s, expected %s" % (key, count, [rt.show(s, x) for x in got], [rt.show(s, x) for x in want]))
    return j


def job(F, a):
    j = {"conversions": conversions, "point": points, "frames": frames}[a[0]](F, a[1])
    return dict(j.c), j.bad, dict(j.und), {i for i in j.ex.visited if F.fns[i].get("local")}, j.ex.steps, dict(j.ex.unmodelled)


def run(F, rep):
    rep.rule = ("abstract interpretation of the conversions on arbitrary decimals: the result, as a product of powers without its rounding, is the "
                "documented one; of frame_file_names on path templates: the name with the number of the frame behind its stem")
    for t, ns in ((TP, ("beat_duration_ms_to_bpm", "bpm_to_beat_duration_ms", "calc_bpm", "calc_slider_velocity_multiplier", "new_inherited",
                        "new_uninherited", "uninherited", "set_uninherited")), (ANIM, ("frame_file_names",))):
        for n in ns:
            if inherent(F, t, n) is None:
                rep.errors.append("anchor %s::%s not found" % (t, n))
    if rep.errors:
        return
    jobs = [("conversions", None)] + [("point", k) for k in ("uninherited", "inherited", "set uninherited", "set inherited", "not said")]
    jobs += [("frames", (i, n)) for i in range(len(PATHS)) for n in (0, 1, 2, 11)]
    fns = set()
    for a, status, r in an.run_jobs(F, job, jobs, limit=200):
        nm = "%s %s" % a
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (nm, str(r)[-200:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (nm, c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (nm, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        if not c.get("ok") and not bad:
            rep.undec("%s: nothing decided" % nm)
        for k, d in bad.items():
            rep.violation(k, d)
        for k, n in und.items():
            rep.undec("%s: %s (%d paths)" % (nm, k, n))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged cases", rep.discharged, 20)
