"""C25: error reports.  An error keeps its line index and its cause through every conversion, offsets
add up, and its texts name the 1-based line and the cause; no two kinds of an error read the same."""
import collections, os
import re
import an, api, dom, models
from an import *
from api import *

ERR = "osu_file::types::Error"


class J:
    def __init__(self, F):
        self.F = F
        self.ex = an.make_engine(F, [], max_outs=4000, max_steps=3 * 10 ** 6)
        self.c, self.bad, self.und = collections.Counter(), {}, collections.Counter()

    def verdict(self, st, ok, key, text):
        if ok is True:
            self.c["ok"] += 1
        elif ok is None:
            self.und[key] += 1
        elif st.notes:
            self.und[key + " (approximated)"] += 1
        else:
            self.bad.setdefault(key, text)

    def rets(self, st, fn):
        out = []
        for k, v, s in self.ex.split(st, fn):
            self.c["paths"] += 1
            if k == "ret":
                out.append((v, s))
            elif k == "cut":
                self.und["cut: %s" % str(v)[:80]] += 1
        return out

    def run(self, st, fid, args):
        return self.rets(st, lambda q: self.ex.run(fid, args, q))

    def result(self):
        F, ex = self.F, self.ex
        return dict(self.c), self.bad, dict(self.und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def is_err(F, ty):
    t = F.types[ty]
    return t["k"] == "adt" and t["t"].startswith(ERR + "<")


def inner(F, ty):
    return F.types[ty]["variants"][0]["f"]


def idx_of(F, ty):
    """positions of the index and of the cause"""
    fs = inner(F, ty)
    i = [k for k, f in enumerate(fs) if F.types[f[1]]["k"] == "int"]
    e = [k for k, f in enumerate(fs) if F.types[f[1]]["k"] != "int"]
    return (i[0], e[0]) if len(i) == 1 and len(e) == 1 else None


def value(j, st, ty, key):
    """an arbitrary value; types the engine cannot open stay opaque"""
    t = j.F.types[ty]
    if t["k"] == "tuple" and not t["e"]:
        return Adt(ty, 0, ())
    return Sym(key, ty)


def small(st, n):
    st.set_iv(n, 0, (1 << 63) - 1, frozenset())
    return n


def convert(j, st, src, dst, v):
    """[(value, state)] of the conversion between two causes"""
    F = j.F
    if src == dst:
        return [(v, st)]
    for name, i in F.bymethod.get((F.types[dst]["t"], "std::convert::From", "from"), []):
        b = F.fns[i].get("body")
        if b and b["argc"] == 1 and b["locals"][1] == src:
            return j.run(st, i, [v])
    return None


def makers(F, fid):
    """functions that make or carry an Error: told by their types alone"""
    j = J(F)
    ex = j.ex
    f = F.fns[fid]
    b = f["body"]
    name = F.short(f["name"])
    short = name.replace("osu_file::", "").split("::{")[0]
    kind = name.rsplit(">::", 1)[-1] if name.startswith("<") else name.split(">::", 1)[1].split("::")[0]
    short = kind
    rty = b["locals"][0]
    wrapped = F.types[rty].get("name") == "std::result::Result"
    ety = F.types[rty]["args"][1] if wrapped else rty
    if not is_err(F, ety) or idx_of(F, ety) is None:
        return j.result()
    pi, pe = idx_of(F, ety)
    st = St()
    args, index, cause, okval = [], None, None, None
    for a in range(1, b["argc"] + 1):
        ty = b["locals"][a]
        t = F.types[ty]
        if t["k"] == "int":
            n = small(st, Sym("in:n%d" % a, ty))
            index = n if index is None else "two"
            args.append(("plain", n))
            continue
        rin = t.get("name") == "std::result::Result"
        e = t["args"][1] if rin else ty
        if is_err(F, e):
            q = idx_of(F, e)
            if q is None:
                return j.result()
            k = [None, None]
            k[q[0]] = small(st, Sym("in:line", inner(F, e)[q[0]][1]))
            k[q[1]] = value(j, st, inner(F, e)[q[1]][1], "in:cause")
            v = Adt(e, 0, tuple(k))
            had = k[q[0]]
            cause = (inner(F, e)[q[1]][1], k[q[1]])
            args.append(("res" if rin else "plain", v, had, ty))
        elif rin or e == inner(F, ety)[pe][1] or not wrapped and cause is None:
            v = value(j, st, e, "in:cause")
            cause = (e, v)
            args.append(("res" if rin else "plain", v, None, ty))
        else:
            return j.result()
    if cause is None or index == "two":
        return j.result()
    j.c["functions"] += 1
    had = [a[2] for a in args if len(a) > 2][0]
    full = [Adt(a[3], 1, (a[1],)) if a[0] == "res" else a[1] for a in args]
    for v, s in j.run(st.copy(), fid, full):
        def go(q):
            r = ex.resolve(q, v)
            if wrapped:
                if r.v != 1:
                    return [(None, None, q)]
                r = ex.resolve(q, r.f[0])
            return [(None, r, q)]
        for _, r, s2 in ex.split(s, go):
            if r is None:
                j.verdict(s2, False, kind + "|accepted", "%s turns an error into a success" % short)
                continue
            got = s2.simp(r.f[pi])
            if had is not None and index is not None:
                want = s2.simp(dom.ladd(had, index))
            else:
                want = had if had is not None else index if index is not None else 0
            ok = got == want or (isinstance(got, Lin) and isinstance(want, Lin) and str(got) == str(want))
            j.verdict(s2, ok if ok else False, kind + "|index", "%s: the error is at line index %s instead of %s" % (short, got, want))
            cs = convert(j, s2, cause[0], inner(F, ety)[pe][1], cause[1])
            if cs is None:
                j.und["%s: no conversion between the causes" % kind] += 1
                continue
            for w, s3 in cs:
                for _, d, s4 in ex.split(s3, lambda q: deep(ex, q, r.f[pe], w)):
                    j.verdict(s4, d, kind + "|cause", "%s: the cause becomes %s instead of %s" % (short, r.f[pe], w))
    if wrapped and [a for a in args if a[0] == "res"]:
        a = [x for x in args if x[0] == "res"][0]
        okty = F.types[a[3]]["args"][0]
        ok = value(j, st, okty, "in:ok")
        for v, s in j.run(st.copy(), fid, [Adt(x[3], 0, (ok,)) if x[0] == "res" else x[1] for x in args]):
            for _, r, s2 in ex.split(s, lambda q: [(None, ex.resolve(q, v), q)]):
                if r.v != 0:
                    j.verdict(s2, False, kind + "|rejected", "%s turns a success into an error" % short)
                else:
                    for _, d, s3 in ex.split(s2, lambda q: deep(ex, q, r.f[0], ok)):
                        j.verdict(s3, d, kind + "|success", "%s changes the accepted value" % short)
    return j.result()


def deep(ex, st, a, b):
    a, b = ex.deref(st, a), ex.deref(st, b)
    if eqv(ex, st, a, b) is True:
        return [(None, True, st)]

    def go(q, x, y, d=0):
        x, y = ex.deref(q, x), ex.deref(q, y)
        if isinstance(x, Adt) and isinstance(y, Sym) and ex.kind[y.ty] == "enum":
            y = ex.resolve(q, y)
        if isinstance(y, Adt) and isinstance(x, Sym) and ex.kind[x.ty] == "enum":
            x = ex.resolve(q, x)
        if isinstance(x, Adt) and isinstance(y, Adt) and x.v == y.v and d < 5:
            for p, r in zip(x.f, y.f):
                go(q, p, r, d + 1)
    go(st, a, b)
    return [(None, eqv(ex, st, a, b), st)]


def texts(F, ty):
    """Display and display_error_with_line of one Error<E>"""
    j = J(F)
    ex = j.ex
    q = idx_of(F, ty)
    if q is None:
        return j.result()
    ety = inner(F, ty)[q[1]][1]
    m = ex.method("std::fmt::Display", "fmt", ety)
    if m is not None:
        ex.opaque_disp.add(m)
    cause = Sym("in:cause", ety)
    ctext = Atom(("disp", "leaf", cause, ety))
    name = F.types[ty]["t"]

    def obj(i):
        k = [None, None]
        k[q[0]], k[q[1]] = i, cause
        return Adt(ty, 0, tuple(k))
    if ex.method("std::fmt::Display", "fmt", ty) is not None:
        for i in (0, 1, 9, 99, None):
            st = St()
            n = i if i is not None else small(st, Sym("in:line", inner(F, ty)[q[0]][1]))
            for k, r, s in ex.split(st, lambda w: models.disp(ex, w, ty, obj(n))):
                j.c["paths"] += 1
                if k != "ret":
                    j.und["printing: %s" % k] += 1
                    continue
                if i is None:
                    r = s.norm(r)
                    at = [x for x in r if isinstance(x, Atom) and isinstance(x.k, tuple) and x.k[:2] == ("disp", "int")]
                    lo, hi = s.interval(at[0].k[2]) if len(at) == 1 else (None, None)
                    ok = len(at) == 1 and list(r) == ["Line ", at[0], ", ", ctext] and (lo, hi) == (1, 1 << 63)
                else:
                    ok = s.norm(r) == s.norm(("Line %d, " % (i + 1), ctext))
                j.verdict(s, ok, "Display", "an error at line index %s shows as %s" % ("n" if i is None else i, r))
    fid = api.methods(F).get(ty, {}).get("display_error_with_line")
    if fid is None:
        j.und["display_error_with_line not found"] += 1
        return j.result()
    for tmpl, parts in (("{a:l}\n{b:l}", ["a", "b"]), ("{a:l}\r\n{b:l}\n", ["a", "b"]), ("", []), ("{a:l}", ["a"]), ("\n\n{b:l}", [None, None, "b"])):
        for i in range(4):
            st = St()
            s0, parts2 = [], []
            t = []
            cs = {x: Sym("in:t_" + x, 0) for x in ()}
            segs = []
            for piece in split_t(tmpl):
                if isinstance(piece, tuple):
                    a = Atom("in:" + piece[0])
                    st.d[("at", a.k)] = AF(ALL & ~mask("\n\r"), ALL & ~mask("\n\r"), ALL & ~mask("\n\r"), 1)
                    segs.append(a)
                else:
                    segs.append(piece)
            want = Atom("in:" + parts[i]) if i < len(parts) and parts[i] else ""
            for v, s in j.run(st, fid, [RefV(obj(i)), Str(tuple(segs))]):
                x = ex.deref(s, v)
                if not isinstance(x, Str):
                    j.und["display_error_with_line: no text"] += 1
                    continue
                w = s.norm(("Line %d: " % (i + 1), want, ", ", ctext))
                j.verdict(s, s.norm(x.s) == w, "display_error_with_line",
                          "an error at line index %d of a file of %d lines shows as %s" % (i, len(parts), x.s))
    src = ex.method("std::error::Error", "source", ty)
    isrc = ex.method("std::error::Error", "source", ety)
    if src is not None and isrc is not None:
        rty = F.fns[src]["body"]["locals"][0]
        ex.stubs[isrc] = lambda e, st, a, f, dty: Sym(("source of", str(e.deref(st, a[0]))), rty)
        for v, s in j.run(St(), src, [RefV(obj(0))]):
            v = ex.deref(s, v)
            j.verdict(s, isinstance(v, Sym) and v.k == ("source of", str(cause)), "source", "the source of an error is %s, not that of its cause" % v)
    return j.result()


def split_t(t):
    import re
    for p in re.split(r"(\{\w:l\})", t):
        if p.startswith("{"):
            yield (p[1],)
        elif p:
            yield p


SECTIONS = ("general", "editor", "metadata", "difficulty", "events", "colours", "timingpoints", "hitobjects")


def built(F, ty):
    """variants that some code makes, other than by their name"""
    out = set()

    def walk(x):
        if isinstance(x, list):
            if len(x) > 2 and x[0] == "agg" and isinstance(x[1], list) and x[1][:1] == ["adt"] and x[2] == ty:
                out.add(x[1][1])
            for y in x:
                walk(y)
    for f in F.fns:
        if f.get("local") and f.get("body") and not f.get("derived") and "std::str::FromStr>" not in f["name"]:
            for b in f["body"]["blocks"]:
                walk(b["s"])
    return out


def messages(F, ty):
    """the kinds of one error read differently, and never as nothing"""
    j = J(F)
    ex = j.ex
    T = F.types[ty]
    seen = {}
    made = built(F, ty)
    mod = T["t"].split("::")[1] if T["t"].count("::") > 1 else ""
    if ex.method("std::fmt::Display", "fmt", ty) is None:
        return j.result()
    st = St()
    for vi, v in enumerate(T["variants"]):
        fs = tuple(value(j, st, f[1], "in:%s" % k) for k, f in enumerate(v["f"]))
        for f in v["f"]:
            m = ex.method("std::fmt::Display", "fmt", f[1])
            if m is not None:
                ex.opaque_disp.add(m)
                if F.types[f[1]].get("local") and F.fns[m].get("body") and F.fns[m].get("local"):
                    ex.stubs[m] = lambda e, st, a, g, dty, t=f[1]: models.fmt_append(
                        e, st, a[1], (Atom(("disp", "leaf", e.deref(st, a[0]), t)),), dty)
    for vi, v in enumerate(T["variants"]):
        fs = tuple(value(j, st, f[1], "in:%s" % k) for k, f in enumerate(v["f"]))
        for k, r, s in ex.split(St(), lambda w: models.disp(ex, w, ty, Adt(ty, vi, fs))):
            j.c["paths"] += 1
            if k != "ret":
                j.und["%s::%s shown: %s" % (T["t"], v["n"], k)] += 1
                continue
            r = s.norm(r)
            j.verdict(s, len(r) > 0, "%s|%s|empty" % (T["t"], v["n"]), "%s::%s shows as an empty text" % (T["t"], v["n"]))
            for w in re.findall(r"`(\w+)`", "".join(x for x in r if isinstance(x, str)) if not any(fs) else ""):
                if w.lower() in SECTIONS and mod in SECTIONS:
                    j.verdict(s, w.lower() == mod, "%s|%s|section" % (T["t"], v["n"]), "%s::%s is said to be in the section %s" % (T["t"], v["n"], w))
            for f, x in zip(v["f"], fs):
                d = F.types[f[1]]
                if d["k"] == "adt" and d.get("local") and ex.method("std::error::Error", "source", f[1]) is not None \
                        and ex.method("std::fmt::Display", "fmt", f[1]) in ex.opaque_disp:
                    j.verdict(s, any(isinstance(y, Atom) and y.k[:2] == ("disp", "leaf") and y.k[2] == x for y in r), "%s|%s|cause" % (T["t"], v["n"]),
                              "%s::%s does not show its cause" % (T["t"], v["n"]))
                    j.c["causes shown"] += 1
            if not fs and vi in made and all(isinstance(x, str) for x in r):
                t = "".join(r).strip()
                if t in seen and seen[t] != v["n"]:
                    j.verdict(s, False, "%s|%s|%s" % (T["t"], seen[t], v["n"]), "%s::%s and ::%s show as the same text: %s" % (T["t"], seen[t], v["n"], t[:80]))
                seen.setdefault(t, v["n"])
    return j.result()


def job(F, a):
    return {"maker": makers, "texts": texts, "messages": messages}[a[0]](F, a[1])


def run(F, rep):
    rep.rule = ("abstract interpretation of every instance of the error conversions on arbitrary errors and line indices, and of the "
                "Display implementations of the error types")
    jobs = []
    for f in F.fns:
        if f.get("local") and f.get("body") and "{closure" not in f["name"]:
            n = F.short(f["name"])
            if n.startswith((ERR + "::<", "<" + ERR + "<")):
                r = f["body"]["locals"][0]
                t = F.types[r]
                e = t["args"][1] if t.get("name") == "std::result::Result" else r
                if is_err(F, e):
                    jobs.append(("maker", f["id"]))
    errs = sorted(t for t in range(len(F.types)) if is_err(F, t))
    jobs += [("texts", t) for t in errs if "display_error_with_line" in api.methods(F).get(t, {})]
    kinds = sorted(t for t, x in enumerate(F.types) if x["k"] == "adt" and x.get("local") and x.get("kind") == "enum"
                   and F.bymethod.get((x["t"], "std::fmt::Display", "fmt")) and F.bymethod.get((x["t"], "std::error::Error", "source"))
                   or x["k"] == "adt" and x.get("local") and x.get("kind") == "enum" and x["t"].rsplit("::", 1)[-1].endswith("Error")
                   and F.bymethod.get((x["t"], "std::fmt::Display", "fmt")))
    jobs += [("messages", t) for t in kinds]
    only = os.environ.get("ONLY")
    if only:
        jobs = [x for x in jobs if only in x[0]]
    fns = set()
    for a, status, r in an.run_jobs(F, job, jobs, limit=120):
        nm = "%s %s" % (a[0], F.short(F.fns[a[1]]["name"]) if a[0] == "maker" else F.types[a[1]]["t"])
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (nm, str(r)[-300:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count(a[0])
        rep.count("paths", c.get("paths", 0))
        rep.count("abstract_steps", steps)
        if c.get("ok"):
            rep.samples.append("%s: %s" % (nm[:160], c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (nm, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation(k, d)
        for k, x in und.items():
            rep.undec("%s: %s (%d)" % (nm, k, x))
    rep.analysed["functions"] = len(fns)
    rep.floor("facts", rep.discharged, 1 if only else 150)
