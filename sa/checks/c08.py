"""C08: validated values.  Volumes, combo skips and the value lists of storyboard commands can only
be built, read or edited into valid ones, exactly the valid ones are accepted, and they hold what
was given; a decimal is the number of its text, or keeps the text."""
import collections, itertools, sys
import an, api, lines, models
from an import *
from api import *

HV = "osu_file::hitobjects::types::Volume"
SV = "osu_file::events::audio_sample::Volume"
CS = "osu_file::hitobjects::types::ComboSkipCount"
CF = "osu_file::events::storyboard::cmds::types::ContinuingFields<osu_file::types::Decimal>"
CC = "osu_file::events::storyboard::cmds::types::Colours"
DE = "osu_file::types::Decimal"
# type -> (lowest, highest, getter, setter, number that stands for "not given", low error, high error)
RANGE = {HV: (1, 100, "volume", "set_volume", 0, "VolumeTooLow", "VolumeTooHigh"),
         SV: (0, 100, "get", "set", None, None, "VolumeTooHigh"),
         CS: (0, 7, "get", "set", None, None, None)}


class Job:
    def __init__(self, F, T, **kw):
        self.F, self.T = F, T
        self.name = T.split("<")[0].replace("osu_file::", "").replace("events::storyboard::cmds::types::", "")
        self.ex = an.make_engine(F, [], max_outs=20000, max_steps=10 ** 7, **kw)
        self.ty = ty_id(F, T)
        self.c = collections.Counter()
        self.bad, self.und = {}, collections.Counter()
        self.ms = api.methods(F).get(self.ty, {})
        self.mk = {F.fns[i]["name"].rsplit("::", 1)[-1]: i for i in api.makers(F).get(self.ty, [])}

    def rets(self, st, fid, args):
        out = []
        for k, v, s in self.ex.split(st, lambda q: self.ex.run(fid, args, q)):
            self.c["paths"] += 1
            if k == "ret":
                out.append((v, s))
            elif k == "cut":
                self.und["cut: %s" % str(v)[:80]] += 1
        return out

    def verdict(self, st, ok, key, text):
        if ok is True:
            self.c["ok"] += 1
        elif ok is None:
            self.und[key] += 1
        elif st.notes:
            self.und[key + " (approximated)"] += 1
        else:
            self.bad.setdefault("%s|%s" % (self.name, key), "%s: %s" % (self.name, text))

    def need(self, table, *names):
        r = True
        for n in names:
            if n not in table:
                self.und["%s::%s not found" % (self.T, n)] += 1
                r = False
        return r

    def result(self):
        F, ex = self.F, self.ex
        return dict(self.c), self.bad, dict(self.und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)

    def ver(self, st):
        v = Sym("in:version", ty_id(self.F, "u8"))
        st.set_iv(v, 3, 14, frozenset())
        return v

    def num(self, st, v):
        """the number inside nested wrappers; None: not given"""
        v = self.ex.deref(st, v)
        while isinstance(v, (Adt, Sym)) and isinstance(v.ty, int) and self.ex.kind[v.ty] in ("struct", "enum"):
            v = self.ex.resolve(st, v)
            if not v.f:
                return None
            v = self.ex.deref(st, v.f[0])
        return st.simp(v)

    def outcome(self, st, v):
        """(accepted, value or error variant)"""
        ex = self.ex
        v = ex.resolve(st, v)
        n = ex.T[v.ty].get("name")
        if n == "std::result::Result" and v.v == 1:
            e = ex.resolve(st, v.f[0]) if isinstance(ex.deref(st, v.f[0]), (Adt, Sym)) else v.f[0]
            while isinstance(e, Adt) and e.f and ex.T[e.ty]["variants"][e.v]["n"].startswith("Volume") is False:
                x = ex.deref(st, e.f[0])
                if not isinstance(x, (Adt, Sym)) or not (isinstance(x.ty, int) and x.ty >= 0) or ex.kind[x.ty] not in ("enum", "struct"):
                    break
                e = ex.resolve(st, x)
            return False, ex.T[e.ty]["variants"][e.v]["n"] if isinstance(e, Adt) and e.ty >= 0 else "?"
        if n == "std::option::Option":
            return (False, "None") if v.v == 0 else self.outcome(st, v.f[0])
        if n == "std::result::Result":
            return self.outcome(st, v.f[0])
        return True, v


def bounds(st, n):
    if isinstance(n, int):
        return n, n
    return st.interval(n)


def scalar(F, T):
    j = Job(F, T)
    ex = j.ex
    lo, hi, get, setter, none, elow, ehigh = RANGE[T]
    u8 = ty_id(F, "u8")

    def judge(s, n, acc, val, what, isnone=False):
        """n: the number given; every value of it is inside / outside of the range"""
        a, b = bounds(s, n) if not isnone else (None, None)
        if acc is False:
            if isnone:
                j.verdict(s, False, what + "|none rejected", "%s: no volume is rejected" % what)
                return
            inside = not (b is not None and b < lo or a is not None and a > hi)
            j.verdict(s, not inside, what + "|rejects", "%s rejects %s" % (what, rng(max(lo, a or lo), min(hi, b if b is not None else hi))))
            if not inside:
                e = elow if b is not None and b < lo else ehigh
                if e and val != "?":
                    j.verdict(s, val == e, what + "|error", "%s: the error for %s is %s instead of %s" % (what, rng(a, b), val, e))
            return
        for r, s2 in j.rets(s.copy(), j.ms[get], [RefV(val)]):
            def go(q):
                return [(None, j.num(q, r), q)]
            for _, m, s3 in ex.split(s2, go):
                if isnone or none is not None and bounds(s3, n) == (none, none) and what == "from_str":
                    j.verdict(s3, m is None, what + "|none", "%s: gives %s where no volume is set" % (what, m))
                    continue
                a3, b3 = bounds(s3, n)
                ok = a3 is not None and b3 is not None and a3 >= lo and b3 <= hi
                j.verdict(s3, ok, what + "|accepts", "%s accepts %s" % (what, rng(a3 if a3 is None or a3 < lo else max(a3, hi + 1), b3)))
                if ok:
                    j.verdict(s3, m is not None and (True if s3.simp(m) == s3.simp(n) else bounds(s3, m) == bounds(s3, n) and a3 == b3),
                              what + "|value", "%s(%s) gives %s" % (what, n, m))

    def split_num(st, n):
        """the number below, inside and above the range"""
        out = []
        for a, b in ((0, lo - 1), (lo, hi), (hi + 1, 255)):
            if a > b:
                continue
            s = st.copy()
            s.set_iv(n, a, b, frozenset())
            out.append(s)
        return out
    if j.need(j.mk, "new") and j.need(j.ms, get, setter):
        b = F.fns[j.mk["new"]]["body"]
        optarg = F.types[b["locals"][1]].get("name") == "std::option::Option"
        n = Sym("in:n", u8)
        seen = []
        for s in split_num(St(), n):
            args = [Adt(b["locals"][1], 1, (n,)) if optarg else n] + ([j.ver(s)] if b["argc"] > 1 else [])
            for v, s2 in j.rets(s, j.mk["new"], args):
                for _, (acc, val), s3 in ex.split(s2, lambda q: [(None, j.outcome(q, v), q)]):
                    judge(s3, n, acc, val, "new")
                    if acc:
                        seen.append((val, s3))
        if optarg:
            s = St()
            for v, s2 in j.rets(s, j.mk["new"], [Adt(b["locals"][1], 0, ())]):
                for _, (acc, val), s3 in ex.split(s2, lambda q: [(None, j.outcome(q, v), q)]):
                    judge(s3, None, acc, val, "new", True)
                    if acc:
                        seen.append((val, s3))
        # setters, from every valid value
        m = Sym("in:m", u8)
        sb = F.fns[j.ms[setter]]["body"]
        for val, s0 in seen:
            for s in split_num(s0, m):
                r = MutRef(s.alloc(val))
                args = [r, m] + ([j.ver(s)] if sb["argc"] > 2 else [])
                for v, s2 in j.rets(s, j.ms[setter], args):
                    for _, (acc, x), s3 in ex.split(s2, lambda q: [(None, j.outcome(q, v), q)]):
                        judge(s3, m, acc, ex.deref(s3, r) if acc else x, "set")
                        if not acc:
                            j.verdict(s3, eqv(ex, s3, val, ex.deref(s3, r)), "set|changes", "a rejected %s changes the value" % setter)
            if T == HV and j.need(j.ms, "set_use_timing_point_volume", "use_timing_point_volume"):
                for q, s in j.rets(s0.copy(), j.ms["use_timing_point_volume"], [RefV(val)]):
                    for g, s1 in j.rets(s, j.ms[get], [RefV(val)]):
                        for _, d, s2 in ex.split(s1, lambda w: [(None, (ex.truth(w, q), j.num(w, g) is None), w)]):
                            j.verdict(s2, d[0] == d[1], "use_timing_point_volume", "use_timing_point_volume() is %s where the volume is%s set" % (d[0], " not" if d[1] else ""))
                s = s0.copy()
                r = MutRef(s.alloc(val))
                for _, s1 in j.rets(s, j.ms["set_use_timing_point_volume"], [r]):
                    for g, s2 in j.rets(s1, j.ms[get], [RefV(ex.deref(s1, r))]):
                        for _, d, s3 in ex.split(s2, lambda w: [(None, j.num(w, g), w)]):
                            j.verdict(s3, d is None, "set_use_timing_point_volume", "set_use_timing_point_volume leaves the volume %s" % d)
            # as a number
            for f in F.fns:
                m2 = F.split_method(f["name"])
                if m2 and "VersionedFrom<%s>" % T in m2[1] and m2[2] == "from":
                    s = s0.copy()
                    for v, s1 in j.rets(s, f["id"], [val, j.ver(s)]):
                        for g, s2 in j.rets(s1, j.ms[get], [RefV(val)]):
                            for _, d, s3 in ex.split(s2, lambda w: [(None, (j.num(w, v), j.num(w, g)), w)]):
                                w = none if d[1] is None else s3.simp(d[1])
                                j.verdict(s3, d[0] is not None and (s3.simp(d[0]) == w or bounds(s3, d[0]) == bounds(s3, w) and bounds(s3, w)[0] == bounds(s3, w)[1]),
                                          "as a number", "as a number it is %s instead of %s" % (d[0], w))
    # defaults
    for (ty, tr, me), l in F.bymethod.items():
        if ty == T and me == "default":
            for _, fid in l:
                s = St()
                for v, s1 in j.rets(s, fid, [j.ver(s)] if F.fns[fid]["body"]["argc"] else []):
                    for _, (acc, val), s2 in ex.split(s1, lambda q: [(None, j.outcome(q, v), q)]):
                        if acc:
                            for g, s3 in j.rets(s2, j.ms[get], [RefV(val)]):
                                for _, m, s4 in ex.split(s3, lambda q: [(None, j.num(q, g), q)]):
                                    a, b = (None, None) if m is None else bounds(s4, m)
                                    j.verdict(s4, m is None and none is not None or m is not None and lo <= a <= b <= hi, "default", "the default is %s" % m)
    # reading
    st = St()
    ver = ver_sym(F, st)
    a = (Atom("text"),)
    for k, v, s in parse_outcomes(ex, T, a, ver, st) if T != CS else ():
        j.c["paths"] += 1
        if k in ("panic", "cut", "none"):
            if k != "panic":
                j.und["from_str %s" % k] += 1
            continue
        t = s.norm(a)
        if all(isinstance(x, str) for x in t):
            try:
                n = int("".join(t))
            except ValueError:
                n = None
        else:
            n = Sym(("num", t), u8)
        isnum = isinstance(n, int) or any(c[0] == "parse" and s.norm(c[1]) == t and c[3] and c[2][0] == "int" for c in s.cons)
        if k == "err":
            if isnum and n is not None:
                judge(s, n, False, "?", "from_str")
                a0, b0 = bounds(s, n)
                if none is not None:
                    j.verdict(s, not (a0 is not None and a0 <= none <= b0), "from_str|none rejected", "0 is rejected")
            else:
                j.c["ok"] += 1
            continue
        if not isnum:
            j.verdict(s, False, "from_str|not a number", "a text that is no number is accepted")
            continue
        judge(s, n, True, v, "from_str")
    return j.result()


def rng(a, b):
    return "%s" % a if a == b else "%s to %s" % (a, b)


# ------------------------------------------------------------------ value lists of commands
def option(ety, F, some, v):
    return Adt(ety, 1, (v,)) if some else Adt(ety, 0, ())


def valid(T, pats):
    for i, p in enumerate(pats):
        last = i == len(pats) - 1
        if not last and not all(p):
            return False
        if len(p) == 2 and p[1] and not p[0]:
            return False
    return True


def build(F, T, ety, pats, tag="in:i"):
    """list items for the patterns of given optional values"""
    tt = F.types[ety]
    out = []
    for i, p in enumerate(pats):
        fs = [leaf(F, tt["e"][0], "%s%d" % (tag, i))]
        for n, (oty, some) in enumerate(zip(tt["e"][1:], p)):
            fs.append(option(oty, F, some, leaf(F, F.types[oty]["args"][0], "%s%d_%d" % (tag, i, n))))
        out.append(Adt(ety, 0, tuple(fs)))
    return out


def leaf(F, ty, key):
    t = F.types[ty]
    if t["k"] == "adt" and t.get("local") and t["kind"] == "struct" and len(t["variants"][0]["f"]) == 1:
        return Adt(ty, 0, (leaf(F, t["variants"][0]["f"][0][1], key),))
    return Sym(key, ty)


def lists(F, what):
    T, part = what
    j = Job(F, T)
    ex = j.ex
    width = 1 if T == CF else 2
    P = list(itertools.product((False, True), repeat=width))
    names = dict(zip(("start", "list", "set", "push"), ("start_values", "continuing_fields", "set_continuing_fields", "push_continuing_fields")
                     if T == CF else ("start_rgb", "continuing_fields", "set_continuing_rgbs", "push_continuing_rgbs")))
    if not j.need(j.mk, "new") or not j.need(j.ms, *names.values()):
        return j.result()
    new = F.fns[j.mk["new"]]["body"]
    sty, lty = new["locals"][1], new["locals"][2]
    ety = F.types[lty]["args"][0]

    def start():
        return Adt(sty, 0, tuple(leaf(F, t, "in:s%d" % i) for i, t in enumerate(F.types[sty]["e"])))

    def seen(s, obj):
        """(start, items) through the getters"""
        out = []
        for a, s1 in j.rets(s, j.ms[names["start"]], [RefV(obj)]):
            for b, s2 in j.rets(s1, j.ms[names["list"]], [RefV(obj)]):
                x = ex.norm_seq(s2, ex.deref(s2, b))
                out.append((ex.deref(s2, a), None if x.tail is not None else list(x.it), s2))
        return out

    def holds(s, obj, want, key, text):
        for a, l, s2 in seen(s.copy(), obj):
            ok = eqv(ex, s2, a, start())
            j.verdict(s2, ok, key + "|start", text + ": the start values change")
            if l is None:
                j.und[key] += 1
                continue
            r = [eqv(ex, s2, x, y) for x, y in zip(l, want)]
            j.verdict(s2, False if len(l) != len(want) or False in r else None if None in r else True, key + "|list",
                      "%s: the list is %s instead of %s" % (text, l, want))

    def show(pats):
        return "[%s]" % " ".join("".join("+" if x else "-" for x in p) for p in pats)
    for n in range(4 if T == CF else 3):
        for pats in itertools.product(P, repeat=n):
            items = build(F, T, ety, pats)
            st = St()
            ok = valid(T, pats)
            objs = []
            for v, s in j.rets(st, j.mk["new"], [start(), Seq(tuple(items))]):
                for _, (acc, val), s2 in ex.split(s, lambda q: [(None, j.outcome(q, v), q)]):
                    if part == "new":
                        j.verdict(s2, acc == ok, "new|" + ("accepts" if acc else "rejects"), "new %s a list with the optional values %s" % (
                            "accepts" if acc else "rejects", show(pats)))
                        if acc and ok:
                            holds(s2, val, items, "new", "new with %s" % show(pats))
                        if not acc and not ok and T == CC:
                            w = next(("Green" if not p[0] and i < len(pats) - 1 else "Blue") for i, p in enumerate(pats)
                                     if i < len(pats) - 1 and not all(p) or p[1] and not p[0])
                            j.verdict(s2, val == w, "new|error", "new with %s: the error is %s instead of %s" % (show(pats), val, w))
                    if acc and ok:
                        objs.append((val, s2))
            if not ok:
                continue
            for val, s0 in objs:
                for p in P:
                    item = build(F, T, ety, [p], "in:new")[0]
                    if part == "push":
                        s = s0.copy()
                        r = MutRef(s.alloc(val))
                        want = list(items)
                        if want:
                            prev = want[-2] if len(want) > 1 else None
                            last = want[-1]
                            fs = [last.f[0]]
                            for i, some in enumerate(pats[-1]):
                                if some:
                                    fs.append(last.f[1 + i])
                                elif prev is not None:
                                    fs.append(prev.f[1 + i])
                                else:
                                    fs.append(Adt(F.types[ety]["e"][1 + i], 1, (start().f[1 + i],)))
                            want[-1] = Adt(ety, 0, tuple(fs))
                        want.append(item)
                        for _, s1 in j.rets(s, j.ms[names["push"]], [r, item]):
                            o = ex.deref(s1, r)
                            if not valid(T, [p]):
                                for a, l, s2 in seen(s1.copy(), o):
                                    j.verdict(s2, l is not None and len(l) == len(pats), "push|accepts",
                                              "pushing blue without green is accepted")
                                continue
                            holds(s1, o, want, "push", "%s pushed to %s" % (show([p]), show(pats)))
                        continue
                    if part != "set":
                        continue
                    for idx in list(range(n + 2)) + [(1 << 64) - 1]:
                        s = s0.copy()
                        r = MutRef(s.alloc(val))
                        np = list(pats)
                        if idx < n:
                            np[idx] = p
                        good = idx < n and valid(T, np)
                        for v, s1 in j.rets(s, j.ms[names["set"]], [r, idx, item]):
                            for _, (acc, e), s2 in ex.split(s1, lambda q: [(None, j.outcome(q, v), q)]):
                                txt = "%s set at %d of %s" % (show([p]), idx, show(pats))
                                o = ex.deref(s2, r)
                                j.verdict(s2, acc == good, "set|" + ("accepts" if acc else "rejects"), "%s: %s" % (txt, "accepted" if acc else "rejected"))
                                if acc != good:
                                    continue
                                want = list(items)
                                if good:
                                    want[idx] = item
                                elif idx < n:
                                    j.verdict(s2, e != "IndexOutOfBounds", "set|error", "%s: reported as %s" % (txt, e))
                                elif all(p):
                                    j.verdict(s2, e == "IndexOutOfBounds", "set|error", "%s: reported as %s" % (txt, e))
                                holds(s2, o, want, "set" if good else "rejected set", txt)
    return j.result()


# ------------------------------------------------------------------ decimals
def decimal(F, _):
    j = Job(F, DE, lazy=False)
    ex = j.ex
    ety = ex.T[j.ty]["variants"][0]["f"][0][1]

    def isdec(s, t):
        t = s.norm(t)
        for c in s.cons:
            if c[0] == "parse" and c[2][0] == "dec" and s.norm(c[1]) == t:
                return c[3]
        if all(isinstance(x, str) for x in t):
            return sys.modules["dom"].parse_dec_text("".join(t)) is not None
        return None

    def is_text(s, v, t):
        v = ex.deref(s, v)
        return isinstance(v, Str) and s.norm(v.s) == s.norm(t)

    def is_num(s, v, t):
        v = s.simp(ex.deref(s, v)) if not isinstance(v, (Adt, Str)) else v
        return isinstance(v, Sym) and v.k == ("dec", s.norm(t))

    def look(s, v, t, what):
        for g, s1 in j.rets(s, j.ms["get"], [RefV(v)]):
            for _, x, s2 in ex.split(s1, lambda q: [(None, ex.resolve(q, ex.deref(q, g)), q)]):
                d = isdec(s2, t)
                if d is None:
                    j.und[what + ": number or not"] += 1
                elif all(isinstance(y, str) for y in s2.norm(t)):
                    j.verdict(s2, (x.v == 0) == d, what + "|kind", "%s: %s" % (what, s2.norm(t)))
                elif d:
                    j.verdict(s2, x.v == 0 and is_num(s2, x.f[0], t), what + "|number", "%s: a text that is a number gives %s" % (what, x))
                else:
                    j.verdict(s2, x.v == 1 and is_text(s2, x.f[0], t), what + "|text", "%s: a text that is no number gives %s" % (what, x))
    t = (Atom("in:text"),)
    if j.need(j.ms, "get"):
        for (ty, tr, me), l in F.bymethod.items():
            if ty != DE or me not in ("from", "from_str"):
                continue
            for _, fid in l:
                b = F.fns[fid]["body"]
                if b["argc"] != 1 or F.types[b["locals"][1]].get("k") != "ref":
                    continue
                for v, s in j.rets(St(), fid, [Str(t)]):
                    for _, o, s2 in ex.split(s, lambda q: [(None, unwrap(ex, q, v), q)]):
                        if o is None:
                            j.verdict(s2, False, me + "|rejects", "a text is rejected")
                        else:
                            look(s2, o, t, me)
        if j.need(j.mk, "new", "new_from_str"):
            d = Sym("in:d", F.fns[j.mk["new"]]["body"]["locals"][1])
            for v, s in j.rets(St(), j.mk["new"], [d]):
                for g, s1 in j.rets(s, j.ms["get"], [RefV(v)]):
                    x = ex.resolve(s1, ex.deref(s1, g))
                    j.verdict(s1, x.v == 0 and ex.deref(s1, x.f[0]) == d, "new", "new gives %s" % x)
            for v, s in j.rets(St(), j.mk["new_from_str"], [Str(t)]):
                for g, s1 in j.rets(s, j.ms["get"], [RefV(v)]):
                    x = ex.resolve(s1, ex.deref(s1, g))
                    j.verdict(s1, x.v == 1 and is_text(s1, x.f[0], t) or isdec(s1, t) is True and x.v == 0 and is_num(s1, x.f[0], t),
                              "new_from_str", "new_from_str gives %s" % x)
        if j.need(j.ms, "try_make_decimal"):
            for k in (0, 1):
                st = St()
                inner = Str(t) if k else Sym("in:d", ex.T[ety]["variants"][0]["f"][0][1])
                obj = Adt(j.ty, 0, (Adt(ety, k, (inner,)),))
                r = MutRef(st.alloc(obj))
                for v, s in j.rets(st, j.ms["try_make_decimal"], [r]):
                    for _, w, s2 in ex.split(s, lambda q: [(None, ex.resolve(q, v).v, q)]):
                        o = ex.deref(s2, r)
                        if not k:
                            j.verdict(s2, w == 0 and eqv(ex, s2, o, obj) is True, "try_make_decimal|number",
                                      "try_make_decimal on a number changes or rejects it")
                            continue
                        d = isdec(s2, t)
                        if d is None:
                            j.und["try_make_decimal: number or not"] += 1
                            continue
                        j.verdict(s2, (w == 0) == d, "try_make_decimal|result", "try_make_decimal %s a text that is %s number" % (
                            "accepts" if w == 0 else "rejects", "a" if d else "no"))
                        if not d:
                            j.verdict(s2, eqv(ex, s2, o, obj), "try_make_decimal|changes", "a failed try_make_decimal changes the text")
                        else:
                            look(s2, o, t, "try_make_decimal")
        # printing
        for k in (0, 1):
            inner = Str(t) if k else Sym("in:d", ex.T[ety]["variants"][0]["f"][0][1])
            obj = Adt(j.ty, 0, (Adt(ety, k, (inner,)),))
            for kind, r, s in ex.split(St(), lambda q: models.disp(ex, q, j.ty, obj)):
                j.c["paths"] += 1
                if kind != "ret":
                    j.und["printing: %s" % kind] += 1
                    continue
                want = s.norm(t) if k else s.norm((Atom(("disp", "dec", inner)),))
                j.verdict(s, s.norm(r) == want, "printed", "the printed %s is %s" % ("text" if k else "number", r))
        # whole numbers
        for (ty, tr, me), l in F.bymethod.items():
            if ty == DE and me == "from":
                for _, fid in l:
                    b = F.fns[fid]["body"]
                    if b["argc"] == 1 and F.types[b["locals"][1]]["k"] == "int" or b["argc"] == 1 and F.types[b["locals"][1]].get("name") == "rust_decimal::Decimal":
                        n = Sym("in:n", b["locals"][1])
                        for v, s in j.rets(St(), fid, [n]):
                            for g, s1 in j.rets(s, j.ms["get"], [RefV(v)]):
                                x = ex.resolve(s1, ex.deref(s1, g))
                                y = s1.simp(ex.deref(s1, x.f[0])) if x.v == 0 else None
                                j.verdict(s1, True if y == n or isinstance(y, Sym) and n in (y.k if isinstance(y.k, tuple) else ()) else None if x.v == 0 else False,
                                          "from number", "from a whole number gives %s" % x)
    return j.result()


def writes(b, t):
    def built(x):
        if isinstance(x, list):
            if len(x) > 1 and x[0] == "agg" and isinstance(x[1], list) and x[1][:1] == ["adt"]:
                if any(y == t for y in x[1:3]):
                    return True
            return any(built(y) for y in x)
        return False
    return any(built(k["s"]) for k in b["blocks"])


def job(F, a):
    return {"scalar": scalar, "list": lists, "decimal": decimal}[a[0]](F, a[1])


def run(F, rep):
    rep.rule = ("abstract interpretation of the constructors, parsers, setters and getters of the validated types on all numbers, "
                "on all patterns of optional values and on all texts")
    jobs = [("scalar", T) for T in RANGE] + [("list", (T, p)) for T in (CF, CC) for p in ("new", "set", "push")] + [("decimal", None)]
    fns = set()
    for a in jobs:
        T = a[1] if isinstance(a[1], str) else a[1][0] if a[1] else DE
        if ty_id(F, T) is None:
            rep.errors.append("anchor type %s not found" % T)
            return
    for a, status, r in an.run_jobs(F, job, jobs, limit=300):
        nm = str(a)
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (nm, str(r)[-300:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("jobs")
        rep.count("paths", c.get("paths", 0))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (nm, c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (nm, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation(k, d)
        for k, x in und.items():
            rep.undec("%s: %s (%d)" % (nm, k, x))
    # whoever else builds or writes into one of the single-number types
    for T in RANGE:
        t = ty_id(F, T)
        for f in F.fns:
            if f.get("local") and f.get("body") and f["name"] not in fns and not f.get("derived") and writes(f["body"], t):
                rep.undec("%s builds or writes %s and was not analysed here" % (F.short(f["name"]), T))
    rep.analysed["functions"] = len(fns)
    rep.floor("facts", rep.discharged, 40)
