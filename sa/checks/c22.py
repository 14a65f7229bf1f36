"""C22: accessors.  A setter sets exactly its own property, a getter gives it, a mutable reference
is that property, and a constructor stores its arguments; checked on arbitrary objects, only
through the public functions and fields."""
import collections, itertools
import an, api, lines
from an import *
from api import *

MUT = "_mut"
# decided by C08 (ranges) and C16 (bits)
ELSEWHERE = ("osu_file::hitobjects::types::Volume", "osu_file::hitobjects::types::HitSound", "osu_file::timingpoints::types::Effects",
             "osu_file::events::audio_sample::Volume", "osu_file::hitobjects::types::ComboSkipCount")


def job(F, ty):
    ex = an.make_engine(F, [], max_outs=4000, max_steps=4000000)
    T = F.types[ty]
    name = T["t"].split("::")[-1] if "<" not in T["t"] else T["t"].split("<")[0].split("::")[-1]
    c = collections.Counter()
    bad, und = {}, collections.Counter()
    ms = api.methods(F).get(ty, {})
    pub = {f[0]: k for k, f in enumerate(T["variants"][0]["f"]) if f[2]}
    raw = {f[0]: k for k, f in enumerate(T["variants"][0]["f"])}
    getters = {}
    for g, fid in ms.items():
        b = F.fns[fid]["body"]
        if b["argc"] == 1 and not F.types[b["locals"][1]].get("mut") and not g.startswith(("to_", "calc_")):
            getters[g] = fid
    setters = {m[4:]: fid for m, fid in ms.items() if m.startswith("set_") and F.types[F.fns[fid]["body"]["locals"][1]].get("mut")}
    if "set" in ms and "get" in ms:
        setters["get"] = ms["set"]
    muts = {m[:-4]: fid for m, fid in ms.items() if m.endswith(MUT) and F.fns[fid]["body"]["argc"] == 1}

    def verdict(st, ok, key, text):
        if ok is True:
            c["ok"] += 1
        elif ok is None:
            und[key] += 1
        elif st.notes:
            und[key + " (approximated)"] += 1
        else:
            bad.setdefault("%s|%s" % (name, key), text)

    def rets(st, fid, args):
        out = []
        for k, v, s in ex.split(st, lambda q: ex.run(fid, args, q)):
            c["paths"] += 1
            if k == "ret":
                out.append((v, s))
            elif k == "cut":
                und["cut: %s" % str(v)[:80]] += 1
        return out

    def gets(st, obj, g):
        """[(value, state)] of a property"""
        if g in getters:
            return rets(st, getters[g], [RefV(obj)])
        if g in pub:
            return [(ex.deref(st, obj).f[pub[g]], st)]
        return None

    def want(st, arg, aty, gty):
        """what the getter has to give for an argument"""
        if arg is None:
            return []
        aty0 = aty
        while F.types[aty]["k"] == "ref":
            aty = F.types[aty]["e"]
        opt = False
        while F.types[gty]["k"] == "ref" or F.types[gty].get("name") == "std::option::Option" and F.types[aty].get("name") != "std::option::Option":
            if F.types[gty]["k"] == "ref":
                gty = F.types[gty]["e"]
            else:
                opt, oty, gty = True, gty, F.types[gty]["args"][0]
        while opt and F.types[gty]["k"] == "ref":
            gty = F.types[gty]["e"]
        vs = None
        if gty == aty:
            vs = [(arg, st)]
        elif F.types[gty].get("name") == F.types[aty].get("name") == "std::option::Option":
            vs = [(arg, st)]        # Option<&T> of Option<T>
        elif textual(gty) and textual(aty):
            vs = [(arg, st)]        # a text as a path
        elif (F.types[gty].get("name") or "").endswith("either::Either") or F.types[gty].get("name") == "Either":
            # one of two kinds of value
            for i, x in enumerate(F.types[gty]["args"]):
                if x == aty or textual(x) and textual(aty):
                    vs = [(Adt(gty, i, (arg,)), st)]
        else:
            for (t, tr, me), l in F.bymethod.items():
                if t == F.types[gty]["t"] and me == "from" and tr.endswith("convert::From"):
                    for _, fid in l:
                        b = F.fns[fid]["body"]
                        if b["argc"] == 1 and b["locals"][1] in (aty, aty0):
                            vs = rets(st.copy(), fid, [arg])
        if vs is None:
            return None
        return [(Adt(oty, 1, (v,)) if opt else v, s) for v, s in vs]

    def textual(t):
        while F.types[t]["k"] == "ref":
            t = F.types[t]["e"]
        return F.types[t]["k"] == "str" or F.types[t].get("name") in ("std::string::String", "std::path::Path", "std::path::PathBuf")

    def gty(g):
        return F.fns[getters[g]]["body"]["locals"][0] if g in getters else raw_ty(g)

    def raw_ty(g):
        return T["variants"][0]["f"][raw[g]][1]

    def check_prop(st, obj, g, arg, aty, what):
        w = want(st, arg, aty, gty(g))
        if w is None:
            und["%s: no conversion from %s" % (what, F.types[aty]["t"])] += 1
            return
        for v, s in w:
            for r, s2 in gets(s.copy(), obj, g) or []:
                ok = eqv(ex, s2, r, v)
                if ok is not True:
                    # look at each variant
                    for k3, d, s3 in ex.split(s2, lambda q: cmp_deep(ex, q, r, v)):
                        verdict(s3, d, what, "%s::%s: %s gives %s instead of %s" % (name, what, g, r, v))
                else:
                    verdict(s2, True, what, "")

    def frame(before, obj0, obj1, st, changed, what):
        o0, o1 = ex.deref(st, obj0), ex.deref(st, obj1)
        for n, k in raw.items():
            if changed in raw and n != changed and n not in getters and isinstance(o0, Adt) and isinstance(o1, Adt):
                verdict(st, eqv(ex, st, o0.f[k], o1.f[k]), what + "|changes " + n, "%s::%s changes %s" % (name, what, n))
        for h in list(getters) + [p for p in pub if p not in getters]:
            if h == changed:
                continue
            if h not in setters and h not in raw and h not in muts:
                continue
            for r0, s in gets(st.copy(), obj0, h):
                for r1, s2 in gets(s, obj1, h):
                    for k3, d, s3 in ex.split(s2, lambda q: cmp_deep(ex, q, r0, r1)):
                        verdict(s3, d, what + "|changes " + h, "%s::%s changes %s()" % (name, what, h))

    # setters
    for g, fid in setters.items():
        b = F.fns[fid]["body"]
        if g not in getters and g not in pub:
            continue
        st = St()
        obj = ex.fresh(ty, "self", st)
        r = MutRef(st.alloc(obj))
        args, val = [r], None
        nm = arg_names(F.fns[fid])
        for i in range(2, b["argc"] + 1):
            a = Sym("in:version", b["locals"][i]) if "version" in nm.get(i, "") else ex.fresh(b["locals"][i], "in:%d" % i, st)
            if "version" in nm.get(i, ""):
                st.set_iv(a, 3, 14, frozenset())
            elif val is None:
                val, vty = a, b["locals"][i]
            else:
                val = "many"
            args.append(a)
        if val is None or val == "many":
            und["set %s: %d arguments" % (g, b["argc"] - 1)] += 1
            continue
        rt = F.types[b["locals"][0]]
        for v, s in rets(st, fid, args):
            if rt.get("name") == "std::result::Result" and ex.resolve(s, v).v == 1:
                continue            # C09
            o1 = ex.deref(s, r)
            x = val
            check_prop(s.copy(), o1, g, x, vty, "set " + g)
            frame(None, obj, o1, s, g, "set " + g)
    # mutable references
    for g, fid in muts.items():
        b = F.fns[fid]["body"]
        if g not in getters:
            continue
        st = St()
        obj = ex.fresh(ty, "self", st)
        r = MutRef(st.alloc(obj))
        et = F.types[b["locals"][0]]["e"]
        for v, s in rets(st, fid, [r]):
            if not isinstance(v, MutRef):
                und["%s_mut: unknown reference" % g] += 1
                continue
            # reading through it; taking it changes nothing
            cur = ex.deref(s, v)
            verdict(s, eqv(ex, s, obj, ex.deref(s, r)), "%s_mut|changes the value" % g,
                    "%s::%s_mut changes the value when the reference is taken" % (name, g))
            for r0, s2 in gets(s.copy(), ex.deref(s, r), g):
                cmpv(s2, r0, cur, et, gty(g), verdict, ex, F, "%s_mut reads" % g, name)
            s3 = s.copy()
            new = ex.fresh(et, "in:new", s3)
            ex.write_cell(s3, v, new)
            o1 = ex.deref(s3, r)
            check_prop(s3, o1, g, new, et, "%s_mut" % g)
            frame(None, obj, o1, s3, g, "%s_mut" % g)
    # constructors
    for fid in api.makers(F).get(ty, []):
        f = F.fns[fid]
        b = f["body"]
        m = f["name"].rsplit("::", 1)[-1]
        if not (m == "new" or m.startswith("new_")) or b["argc"] == 0:
            continue
        st = St()
        nm = arg_names(f)
        args = []
        for i in range(1, b["argc"] + 1):
            a = ex.fresh(b["locals"][i], "in:%d" % i, st)
            if nm.get(i) == "version" and nm.get(i) not in pub and F.types[b["locals"][i]]["t"] == "u8":
                st.set_iv(a, 3, 14, frozenset())
            args.append(a)
        for v, s in rets(st, fid, args):
            for k2, o, s2 in ex.split(s, lambda q: [(None, unwrap(ex, q, v), q)]):
                if o is None:
                    continue
                for i in range(1, b["argc"] + 1):
                    g = nm.get(i)
                    if g in getters or g in pub:
                        check_prop(s2.copy(), o, g, args[i - 1], b["locals"][i], "%s(%s)" % (m, g))
                    elif g == "value" or g == "error" or b["argc"] == 1:
                        one = [x for x in getters if x in ("get", "volume")]
                        if one:
                            check_prop(s2.copy(), o, one[0], args[i - 1], b["locals"][i], "%s(%s)" % (m, g))
    if T["t"] == "osu_file::timingpoints::TimingPoint":
        kinds(F, ex, ty, ms, rets, verdict, name)
    return dict(c), bad, dict(und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def kinds(F, ex, ty, ms, rets, verdict, name):
    """a timing point is either inherited or not: only one of the two derived values exists"""
    if not {"uninherited", "calc_bpm", "calc_slider_velocity_multiplier"} <= set(ms):
        return
    objs = [(ex.fresh(ty, "self", st), st, "any") for st in [St()]]
    st = St()
    ver = ver_sym(F, st)
    for k, v, s in parse_outcomes(ex, F.types[ty]["t"], lines.tmpl(st, "{time},{beat}"), ver, st):
        if k == "some":
            objs.append((v, s, "read without its kind"))
    for o, st, what in objs:
        for u, s in rets(st, ms["uninherited"], [RefV(o)]):
            for m, w in (("calc_bpm", True), ("calc_slider_velocity_multiplier", False)):
                for r, s2 in rets(s, ms[m], [RefV(o)]):
                    for k3, d, s3 in ex.split(s2, lambda q: [(None, (ex.truth(q, u), ex.resolve(q, r).v), q)]):
                        if what != "any":
                            verdict(s3, d[0], "kind|default", "a timing point read without its kind is not uninherited")
                        if d[1]:
                            verdict(s3, d[0] == w, "kind|" + m, "%s() gives a value where uninherited() is %s" % (m, d[0]))
                        else:
                            verdict(s3, True, "", "")


def cmp_deep(ex, st, a, b):
    """one variant at a time"""
    def go(q, x, y, d=0):
        x, y = ex.deref(q, x), ex.deref(q, y)
        for z in (x, y):
            if isinstance(z, Sym) and ex.T[z.ty]["k"] == "bool":
                ex.truth(q, z)
            elif isinstance(z, (Adt, Sym)) and isinstance(z.ty, int) and ex.kind[z.ty] == "enum" and \
                    ex.T[z.ty].get("name", "").endswith(("option::Option", "either::Either")):
                ex.resolve(q, z)
        x, y = ex.deref(q, x), ex.deref(q, y)
        if isinstance(x, Sym) and ex.kind[x.ty] == "enum" and isinstance(y, Adt):
            x = ex.resolve(q, x)
        if isinstance(y, Sym) and ex.kind[y.ty] == "enum" and isinstance(x, Adt):
            y = ex.resolve(q, y)
        if isinstance(x, Adt) and isinstance(y, Adt) and x.v == y.v and d < 6:
            for p, r in zip(x.f, y.f):
                go(q, p, r, d + 1)
    if eqv(ex, st, a, b) is not True:
        go(st, a, b)
    return [(None, eqv(ex, st, a, b), st)]


def cmpv(st, got, cur, et, gt, verdict, ex, F, what, name):
    g = ex.deref(st, got)
    for k3, d, s3 in ex.split(st, lambda q: cmp_deep(ex, q, g, cur)):
        verdict(s3, d, what, "%s::%s: the reference gives %s, the getter %s" % (name, what, cur, g))


def run(F, rep):
    rep.rule = ("abstract interpretation of the setters, mutable references, getters and constructors of every local type on "
                "arbitrary objects and arguments")
    tys = sorted({t for t in set(api.methods(F)) | set(api.makers(F))
                  if F.types[t]["k"] == "adt" and len(F.types[t]["variants"]) == 1 and "rror" not in F.types[t]["t"].split("::")[-1].split("<")[0]
                  or "types::Error<" in F.types[t]["t"]})
    tys = [t for t in tys if F.types[t]["t"] not in ELSEWHERE]
    only = __import__("os").environ.get("ONLY")
    if only:
        tys = [t for t in tys if only in F.types[t]["t"]]
    fns = set()
    for t, status, r in an.run_jobs(F, job, tys, limit=200):
        nm = F.types[t]["t"]
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (nm, str(r)[-300:]))
            continue
        c, bad, und, fs, steps, unm = r
        if not c:
            continue
        fns |= fs
        rep.count("types")
        rep.count("paths", c.get("paths", 0))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (nm, c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (nm, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation(k, d)
        for k, x in und.items():
            rep.undec("%s: %s (%d)" % (nm, k, x))
    rep.analysed["functions"] = len(fns)
    rep.floor("laws", rep.discharged, 1 if only else 40)
