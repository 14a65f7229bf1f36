"""C09: the storyboard file of a map.  append_osb replaces the storyboard part of a map by what the text
reads as at the map's own version, or changes nothing; osb_to_string writes it at that version; a
new map is empty."""
import collections
import an, api
from an import *
from api import *

OF = "osu_file::OsuFile"
OSB = "osu_file::osb::Osb"


def run(F, rep):
    rep.rule = "abstract interpretation of OsuFile::append_osb, osb_to_string, new and default on arbitrary maps, texts and storyboard parsers"
    oty, sty = ty_id(F, OF), ty_id(F, OSB)
    pid, tid = (method_id(F, OSB, FROM, "from_str"), method_id(F, OSB, TO, "to_string")) if sty is not None else (None, None)
    ms = api.methods(F).get(oty, {})
    mk = {F.fns[i]["name"].rsplit("::", 1)[-1]: i for i in api.makers(F).get(oty, [])}
    for what, x in (("type OsuFile", oty), ("type Osb", sty), ("Osb::from_str", pid), ("Osb::to_string", tid), ("append_osb", ms.get("append_osb")),
                    ("osb_to_string", ms.get("osb_to_string")), ("new", mk.get("new"))):
        if x is None:
            rep.errors.append("anchor not found: " + what)
    if rep.errors:
        return
    ex = an.make_engine(F, [], max_outs=4000, max_steps=10 ** 6)
    T = F.types[oty]
    fields = [f[0] for f in T["variants"][0]["f"]]
    osb = [i for i, f in enumerate(T["variants"][0]["f"]) if F.types[f[1]].get("name") == "std::option::Option" and F.types[f[1]]["args"][0] == sty]
    ver = [i for i, f in enumerate(T["variants"][0]["f"]) if F.types[f[1]]["k"] == "int"]
    if len(osb) != 1 or len(ver) != 1:
        rep.errors.append("the storyboard or version field of OsuFile is not unique")
        return
    osb, ver = osb[0], ver[0]
    v = Sym("in:version", T["variants"][0]["f"][ver][1])
    text = (Atom("in:text"),)
    obj = Adt(oty, 0, tuple(v if i == ver else Sym("in:" + f[0], f[1]) for i, f in enumerate(T["variants"][0]["f"])))
    rty = F.fns[pid]["body"]["locals"][0]
    opt, err = F.types[rty]["variants"][0]["f"][0][1], F.types[rty]["variants"][1]["f"][0][1]
    sopt = F.fns[tid]["body"]["locals"][0]
    read = Adt(rty, 0, (Adt(opt, 1, (Sym("in:read", sty),)),))
    none = Adt(rty, 0, (Adt(opt, 0, ()),))
    fail = Adt(rty, 1, (Sym("in:err", err),))
    calls = []

    def count(st, ok, key, msg):
        if ok is True:
            rep.ok()
        elif ok is None or st.notes:
            rep.undec("%s: %s" % (key, msg))
        else:
            rep.violation(key, msg)

    def rets(st, fid, args, key):
        out = []
        for k, r, s in ex.split(st, lambda q: ex.run(fid, args, q)):
            rep.count("paths")
            if k == "ret":
                out.append((r, s))
            elif k == "cut":
                rep.undec("%s: %s" % (key, str(r)[:100]))
            elif k == "panic":
                count(s, False, key + "|panics", "%s panics" % key)
        return out

    def start(st):
        st.set_iv(v, 3, 14, frozenset())
        return st
    # reading
    for res, kind in ((read, "read"), (none, "none"), (fail, "err")):
        def stub(e, st, a, f, dty, res=res):
            t = e.deref(st, a[0])
            ok = isinstance(t, Str) and st.norm(t.s) == st.norm(text) and st.simp(a[1]) == v
            count(st, ok, "append_osb|arguments", "append_osb reads %s at version %s instead of the given text at the version of the map" % (t, a[1]))
            return res
        ex.stubs[pid] = stub
        st = start(St())
        r = MutRef(st.alloc(obj))
        for x, s in rets(st, ms["append_osb"], [r, Str(text)], "append_osb"):
            x = ex.resolve(s, x)
            o = ex.deref(s, r)
            count(s, (x.v == 1) == (kind == "err"), "append_osb|result", "append_osb %s a text whose storyboard is %s" % ("rejects" if x.v else "accepts", kind))
            if kind == "err" and x.v == 1:
                count(s, eqv(ex, s, x.f[0], fail.f[0]), "append_osb|error", "append_osb reports %s instead of the error of the storyboard" % x.f[0])
            for i, f in enumerate(fields):
                want = obj.f[i] if i != osb or kind == "err" else res.f[0]
                count(s, eqv(ex, s, o.f[i], want), "append_osb|%s|%s" % (kind, f),
                      "append_osb%s leaves the field %s as %s instead of %s" % (" of a rejected text" if kind == "err" else "", f, o.f[i], want))
    # writing
    for some in (0, 1):
        for out in (0, 1):
            val = Adt(sopt, out, (Str((Atom("in:printed"),)),) if out else ())

            def stub2(e, st, a, f, dty, val=val):
                ok = eqv(e, st, e.deref(st, a[0]), Sym("in:read", sty)) is True and st.simp(a[1]) == v
                count(st, ok, "osb_to_string|arguments", "osb_to_string writes %s at version %s" % (a[0], a[1]))
                return val
            ex.stubs[tid] = stub2
            o = Adt(oty, 0, tuple((Adt(opt, 1, (Sym("in:read", sty),)) if some else Adt(opt, 0, ())) if i == osb else x for i, x in enumerate(obj.f)))
            for x, s in rets(start(St()), ms["osb_to_string"], [RefV(o)], "osb_to_string"):
                x = ex.resolve(s, x)
                want = some and out
                count(s, (x.v == 1) == bool(want) and (not want or ex.deref(s, x.f[0]) == val.f[0] or eqv(ex, s, x.f[0], val.f[0]) is True), "osb_to_string|result",
                      "osb_to_string gives %s where the storyboard %s" % (x, "writes as %s" % val if some else "is missing"))
    # new maps
    for n in ("new", "default"):
        if n in mk and F.fns[mk[n]]["body"]["argc"] == 1:
            for x, s in rets(start(St()), mk[n], [v], n):
                x = ex.resolve(s, x)
                for i, f in enumerate(fields):
                    y = s.simp(x.f[i]) if i == ver else ex.resolve(s, x.f[i]) if isinstance(x.f[i], (Adt, Sym)) else x.f[i]
                    count(s, y == v if i == ver else isinstance(y, Adt) and y.v == 0 and F.types[y.ty].get("name") == "std::option::Option",
                          "%s|%s" % (n, f), "%s: the field %s is %s" % (n, f, y))
    for u in ex.unmodelled:
        rep.undec("unmodelled %s" % u)
    rep.count("abstract_steps", ex.steps)
    rep.analysed["functions"] = len({F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")})
    rep.floor("facts", rep.discharged, 30)
