"""C26: line endings.  A text with Windows line endings, some or all, or with a line break behind its last
line, is read like the same text with plain line breaks: same value, same error, same line index."""
import an, lines, cont, rt, api
from an import *
from cont import *
from checks import c10, c11, c12, c19, c20

VARIANTS = ["Windows line endings", "a Windows line ending behind the first line", "a Windows line ending in front of the last line",
            "a line break behind the last line", "Windows line endings, also behind the last line"]
MAXL = 9


def cases():
    """(target, label, lines, kinds)"""
    out, seen = [], set()

    def add(T, label, ls, kinds):
        k = (T, tuple(ls))
        if k not in seen and len(ls) <= MAXL:
            seen.add(k)
            out.append((T, label, ls, kinds))
    for T in c12.CONTAINERS:
        for name, ls, sep in c12.TEMPLATES:
            add(T, name, ls, ("some", "err"))
        add(T, "blank line first", ["", "{l1*}", "{l2*}"], ("some", "err"))
        add(T, "one line", ["{l1*}"], ("some", "err"))
    for T, keys in c11.KEYS.items():
        k = keys.split()
        for i in range(len(k)):
            q = k[(i + 1) % len(k)]
            add(T, "two keys", [k[i] + ":{v1*}", q + ":{v2*}"], ("some", "err"))
        add(T, "blank line inside", [k[0] + ":{v1*}", "", k[1] + ":{v2*}"], ("some", "err"))
        add(T, "blank line first", ["", k[1] + ":{v1*}", k[0] + ":{v2*}"], ("some", "err"))
        add(T, "repeated key", [k[0] + ":{v1*}", k[0] + ":{v2*}"], ("some", "err"))
        add(T, "no colon", [k[0] + ":{v1*}", "x{k::}"], ("some", "err"))
        add(T, "any key", [k[0] + ":{v1*}", "{k::}:{v2*}"], ("some", "err"))
    for t in c19.templates():
        if 1 <= len(t[1]) <= 4 and "CRLF" not in t[0]:
            add("events::Events", t[0], list(t[1]), tuple(t[2]))
    for t in c20.templates():
        ls = list(t[1])
        for name, content in t[2]:
            ls += ["[{name:[]}]" if name == "?" else "[%s]" % name] + list(content)
        add("osb::Osb", t[0], ls, t[3])
    for t in c20.SPECIAL:
        add("osb::Osb", t[0], t[1].split("\n"), ("some",))
    for t in c10.templates():
        ls = t[4].split("\n") + list(t[1])
        for s in t[2]:
            ls += ["[{name:[]}]" if s["name"] == "?" else "[%s]" % s["name"]] + s["content"]
        add("OsuFile", t[0], ls, t[3])
    for t in c10.SPECIAL:
        if "unsupported" not in t[0]:
            add("OsuFile", t[0], t[1].split("\n"), ("some",))
    return out


def plain(st, s):
    """the text with plain line breaks and without one at its end"""
    out = []
    for x in st.norm(s):
        if isinstance(x, str):
            x = x.replace("\r\n", "\n")
        out.append(x)
    while out and isinstance(out[-1], str):
        x = out[-1].rstrip("\r\n")
        if x == out[-1]:
            break
        out[-1] = x
        if not x:
            out.pop()
        else:
            break
    return st.norm(tuple(out))


def engine(F, T, kinds, n):
    """(engine, function) with the parts of T taken as arbitrary functions of their text"""
    TT = "osu_file::" + T
    fid = method_id(F, TT, FROM, "from_str")
    K = max(12, n + 2)
    lim = dict(max_outs=60000, max_steps=3 * 10 ** 7)
    if T == "events::Events":
        return c19.engine(F, kinds, n), fid
    if T in c11.KEYS:
        ts = set()
        for nme, ty, _ in F.types[ty_id(F, TT)]["variants"][0]["f"]:
            ts.add(F.types[F.types[ty]["variants"][1]["f"][0][1]]["t"])
        return an.make_engine(F, [an.Black(t, tuple(q for q in kinds if q != "err" or an.fallible(F, t))) for t in sorted(ts)], K=30, **lim), inherent(F, TT, "from_str")
    if T == "osb::Osb":
        fv = inherent(F, c20.EV, "from_str_variables")
        bl = an.Black(c20.EV, kinds, pid=fv, tid=None)
        bl.clean = plain
        vb = an.Black(c20.VAR, tuple(k for k in kinds if k != "none"))
        ex = an.make_engine(F, [bl, vb], K=K, **lim)
        orig = ex.stubs[fv]
        ex.stubs[fv] = lambda e, st, a, f, dty: orig(e, st, a[:2], f, dty)
        return ex, fid
    if T == "OsuFile":
        stubs = []
        for t, p, w in c10.secs_of(F).values():
            b = an.Black(t, kinds, pid=p, tid=w)
            b.clean = plain
            stubs.append(b)
        return an.make_engine(F, stubs, K=K, **lim), method_id(F, TT, "std::str::FromStr", "from_str")
    return an.make_engine(F, [an.Black(d, kinds) for d in lines.direct_deps(F, TT)], K=max(4, n + 2), **lim), fid


def same(ex, st, a, b):
    a, b = ex.deref(st, a), ex.deref(st, b)
    if a == b or st.simp(a) == st.simp(b):
        return True
    if isinstance(a, Lin) and isinstance(b, Lin):
        d = st.simp(lsub(a, b))
        return d == 0 if isinstance(d, int) else None
    if isinstance(a, (bool, int)) or isinstance(b, (bool, int)):
        a, b = st.simp(a), st.simp(b)
        return True if a == b else False if isinstance(a, int) and isinstance(b, int) else None
    if isinstance(a, Str) and isinstance(b, Str):
        return True if st.norm(a.s) == st.norm(b.s) else False
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.v != b.v or len(a.f) != len(b.f):
            return False
        r = [same(ex, st, x, y) for x, y in zip(a.f, b.f)]
        return False if False in r else None if None in r else True
    if isinstance(a, Seq) and isinstance(b, Seq):
        p, q = items(ex, st, a), items(ex, st, b)
        if p is None or q is None:
            return None
        if len(p) != len(q):
            return False
        r = [same(ex, st, x, y) for x, y in zip(p, q)]
        return False if False in r else None if None in r else True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return True if canon(st, a.k) == canon(st, b.k) else False
    if isinstance(a, Sym) and isinstance(b, Adt) or isinstance(a, Adt) and isinstance(b, Sym):
        return None
    return None


def canon(st, k):
    if isinstance(k, tuple):
        if len(k) == 3 and k[0] in ("lv", "le"):
            return (k[0], k[1], st.norm(k[2]))
        return tuple(canon(st, x) for x in k)
    return k


def job(F, j):
    T, label, ls, kinds = j
    ex, fid = engine(F, T, kinds, len(ls))
    st = St()
    ver = None if T == "OsuFile" else ver_sym(F, st)
    holes = [lines.tmpl(st, x) if x else () for x in ls]

    def text(v):
        out = ()
        n = len(holes) - 1
        for i, h in enumerate(holes):
            if i:
                w = v in (0, 4) or v == 1 and i == 1 or v == 2 and i == n
                out += ("\r\n" if w else "\n",)
            out += tuple(h)
        return st.norm(out + (("\n",) if v == 3 else ("\r\n",) if v == 4 else ()))

    def read(segs, s0):
        def go(s):
            return ex.run(fid, [RefV(Str(segs))] + ([ver] if ver is not None else []), s)
        res = []
        for k, v, s in ex.split(s0, go):
            if k != "ret":
                res.append((k, v, s))
                continue

            def fin(s2, v=v):
                r = ex.resolve(s2, v)
                return [("ok" if r.v == 0 else "err", r.f[0], s2)]
            res += ex.split(s, fin)
        return res
    base = text(None)
    out, n = [], 0
    texts = [(i, text(i)) for i in range(5)]
    for k, v, s in read(base, st):
        n += 1
        if k in ("panic", "cut"):
            out.append((None, "cut", "%s: %s" % (k, str(v)[:80])))
            continue
        if T in ("OsuFile", "osb::Osb") and any(c[0] == "leaf" and c[2][2] == "err" and blank(s, c[1]) for c in s.cons):
            continue                # no section rejects an empty text
        done = {base}
        for i, t in texts:
            if t in done:
                continue
            done.add(t)
            if not len(ls[-1]) and i >= 3:
                continue            # the text ends with a blank line already
            for k2, v2, s2 in read(t, s):
                n += 1
                key = "%s|%s" % (T, VARIANTS[i])
                if k2 in ("panic", "cut"):
                    out.append((None, key, "%s: %s" % (k2, str(v2)[:80])))
                    continue
                r = same(ex, s2, v, v2) if k == k2 else False
                if r is False and s2.notes:
                    r = None
                d = ""
                if r is not True:
                    d = "%s `%s` with %s: %s with plain line breaks, but %s" % (T, rt.show(s2, base), VARIANTS[i], rt_val(ex, s2, k, v), rt_val(ex, s2, k2, v2))
                    if s2.notes:
                        d += " (approximated: %s)" % list(s2.notes)[0]
                out.append((r, key, d))
    return out, n, {i for i in ex.visited if F.fns[i].get("local")}, dict(ex.unmodelled)


def rt_val(ex, st, k, v):
    v = ex.deref(st, v)
    if k == "err":
        try:
            i, e = err_parts(ex, st, v)
            nm = ex.T[e.ty]["variants"][e.v]["n"] if isinstance(e, Adt) else str(e)[:60]
            return "error %s at line %s" % (nm, i)
        except Exception:
            return "an error"
    return "the value %s" % str(v)[:120]


def run(F, rep):
    rep.rule = ("abstract interpretation of every reader of several lines on templates with plain line breaks and, in every resulting state, on the same "
                "template with other line endings: equal values and errors; the parsers of single lines and of the sections are arbitrary functions of their text")
    jobs = cases()
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=300):
        what = "%s: %s" % (j[0], j[1])
        rep.count("templates")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (what, str(r)[-200:]))
            continue
        out, n, f, unm = r
        fns |= f
        rep.count("paths", n)
        for u in unm:
            rep.undec("%s: unmodelled %s" % (what, u))
        for ok, key, d in out:
            if ok is True:
                rep.ok()
            elif ok is False:
                rep.violation(key, d)
            else:
                rep.undec("%s: %s" % (key, d))
    rep.analysed["functions"] = len(fns)
    if rep.analysed.get("templates", 0) < 40:
        rep.errors.append("too few templates")
