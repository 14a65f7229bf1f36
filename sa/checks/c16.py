"""C16: bit flags (hit sounds, timing point effects, hit object types).  Values are built, read,
written and edited through the public functions only, on symbolic numbers and switches; each
flag must be the documented bit on every path."""
import collections
import an, lines
from an import *

# type -> (bits of the flag getters, bits the text must keep, setters, constructor flags)
FLAGS = {
    "hitobjects::types::HitSound": {
        "get": {"whistle": 1, "finish": 2, "clap": 3}, "normal": 0, "keep": (0, 1, 2, 3), "width": 8,
        "set": {"set_normal": 0, "set_whistle": 1, "set_finish": 2, "set_clap": 3},
        "new": (0, 1, 2, 3), "clear": None},
    "timingpoints::types::Effects": {
        "get": {"kiai_time_enabled": 0, "no_first_barline_in_taiko_mania": 3}, "normal": None, "keep": tuple(range(32)),
        "width": 32, "set": {"set_kiai_time_enabled": 0, "set_no_first_barline_in_taiko_mania": 3},
        "new": (0, 3), "clear": "clear_unused_bits"},
}
HO = "osu_file::hitobjects::HitObject"
KINDS = {"HitCircle": 0, "Slider": 1, "Spinner": 3, "OsuManiaHold": 7}
# the other columns do not matter here (C04 varies them)
HOFORMS = {"HitCircle": "0,0,0,{type},0", "Slider": "0,0,0,{type},0,B,1,1",
           "Spinner": "0,0,0,{type},0,0", "OsuManiaHold": "0,0,0,{type},0,0:0:0:0:0:"}


def inherent(F, T, name):
    """the inherent function of a type, by name"""
    for f in F.fns:
        if F.short(f["name"]) in ("%s::%s" % (T, name), "<%s>::%s" % (T, name)):
            return f["id"]
    return None


class Job:
    def __init__(self, F, T):
        self.F, self.T = F, T
        self.ex = make_engine(F, [], max_outs=20000)
        self.out = []
        self.paths = 0
        self.uses = 0

    # ---- helpers
    def call(self, st, fid, args):
        """(value, state) of the returning paths; other outcomes are recorded"""
        self.uses += 1
        r = []
        for k, v, s in self.ex.split(st, lambda q: self.ex.run(fid, args, q)):
            self.paths += 1
            if k == "ret":
                r.append((v, s))
            elif k == "cut":
                self.und("cut in %s" % self.F.fns[fid]["name"])
        return r

    def und(self, d):
        self.out.append((None, "", d))

    def verdict(self, st, ok, key, detail):
        if ok:
            self.out.append((True, "", ""))
        elif st.notes:
            self.und("%s (approximated: %s)" % (detail, ",".join(map(str, st.notes))[:80]))
        else:
            self.out.append((False, "%s|%s" % (self.T, key), detail))

    def bit(self, st, v, i):
        """bit i of a value as a canonical expression: 0, 1, (key, index), or None"""
        ex = self.ex
        if isinstance(v, bool):
            v = int(v)
        v = st.simp(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return v >> i & 1
        if isinstance(v, Sym) and ex.T[v.ty]["k"] == "bool":
            return (v.k, 0) if i == 0 else 0
        if isinstance(v, Sym):
            r = st.simp(Bits([(v.k, i, v), 0], False))
            return r if isinstance(r, int) else (v.k, i)
        if isinstance(v, Bits):
            if i >= len(v.b):
                return 0
            b = v.b[i]
            return b if isinstance(b, int) else (b[0], b[1])
        return None

    def decide(self, st, pairs):
        """states in which every listed bit (sym, index) is known"""
        ex = self.ex

        def go(s):
            for v, i in pairs:
                if isinstance(v, int):
                    continue
                if ex.T[v.ty]["k"] == "bool":
                    ex.truth(s, v)
                else:
                    ex.cmp(s, "Eq", Bits([(v.k, i, v), 0], False), 1)
            return [(None, None, s)]
        return [s for _, _, s in ex.split(st, go)]

    def number(self, st, segs):
        """the integer value written in a printed text"""
        segs = st.norm(segs)
        if all(isinstance(x, str) for x in segs):
            try:
                return int("".join(segs))
            except ValueError:
                return None
        if len(segs) == 1:
            k = segs[0].k
            if isinstance(k, tuple) and k[0] == "disp" and k[1] == "int":
                return k[2]
            return Sym(("num", segs), self.i64)
        return None

    # ---- sources of a value: (description, value, state, expected bit function)
    def sources(self, full):
        F, T, ex = self.F, self.T, self.ex
        spec = FLAGS[T[len("osu_file::"):]]
        self.i64 = ty_id(F, "i64") or ty_id(F, "i32") or ty_id(F, "u32") or ty_id(F, "u8")
        src = []
        st = St()
        ver = ver_sym(F, st)
        a = (Atom("text"),)
        for k, v, s in parse_outcomes(ex, T, a, ver, st):
            if k == "some":
                segs = s.norm(a)
                lit = "".join(segs) if all(isinstance(x, str) for x in segs) else None
                n = int(lit) if lit is not None else Sym(("num", segs), self.i64)
                src.append(("from_str", v, s, lambda i, n=n: (n, i)))
        for st_, tr, me, fid in [(m[0], m[1], m[2], f["id"]) for f in F.fns for m in [F.split_method(f["name"])] if m]:
            if st_ == T and "VersionedFrom<" in tr and me == "from":
                b = F.fns[fid]["body"]
                ty = b["locals"][1]
                st = St()
                ver = ver_sym(F, st)
                n = Sym("number", ty)
                for v, s in self.call(st, fid, [n, ver]):
                    v = ex.resolve(s, v) if isinstance(v, (Adt, Sym)) else v
                    src.append((F.short(tr).split("::")[-1] + "::from", v.f[0], s, lambda i, n=n: (n, i)))
        fid = inherent(F, T, "new")
        if fid is not None and F.fns[fid]["body"]["argc"] == len(spec["new"]):
            st = St()
            bools = [Sym("flag%d" % i, ty_id(F, "bool")) for i in spec["new"]]
            for v, s in self.call(st, fid, list(bools)):
                src.append(("new", v, s, lambda i: (bools[spec["new"].index(i)], 0) if i in spec["new"] else (0, 0)))
        else:
            self.und("%s::new not found" % T)
        return spec, src

    def expect(self, st, e):
        return self.bit(st, *e)

    def observe(self, st, v, spec, want, what):
        """all getters and the printed bits of a value against the wanted bits"""
        ex, F, T = self.ex, self.F, self.T
        gets = dict(spec["get"])
        if spec["normal"] is not None:
            gets["normal"] = spec["normal"]
        for g, i in gets.items():
            fid = inherent(F, T, g)
            if fid is None:
                self.und("%s::%s not found" % (T, g))
                continue
            need = [want(j) for j in (spec["keep"] if g == "normal" else (i,))]
            for s in self.decide(st, need):
                for r, s2 in self.call(s, fid, [RefV(v)]):
                    for s3 in self.decide(s2, [(r, 0)] if isinstance(r, (Sym,)) else []):
                        got = self.bit(s3, r, 0)
                        exp = self.expect(s3, want(i))
                        if g == "normal" and not any(self.expect(s3, want(j)) for j in spec["keep"]):
                            exp = 1
                        self.verdict(s3, got == exp, "%s|%s" % (what, g),
                                     "%s: after %s, %s() is %s where bit %d is %s" % (T, what, g, got, i, exp))
        self.printed(st, v, spec, want, what)
        # into an integer
        for f in F.fns:
            m = F.split_method(f["name"])
            if m and "VersionedFrom<%s>" % T in m[1] and m[2] == "from":
                ver = Sym("version2", ty_id(F, "u8"))
                st2 = st.copy()
                st2.set_iv(ver, 3, 14, frozenset())
                for r, s in self.call(st2, f["id"], [v, ver]):
                    r = ex.resolve(s, r)
                    if r.v == 1:
                        self.bits_ok(s, r.f[0], spec, want, what + "|" + m[0], "the number converted to")

    def printed(self, st, v, spec, want, what):
        ver = ver_sym(self.F, st)
        for k, t, s in print_outcomes(self.ex, self.T, v, ver, st):
            if k != "some":
                continue
            n = self.number(s, t)
            if n is None:
                self.und("%s: printed text unknown after %s" % (self.T, what))
                continue
            self.bits_ok(s, n, spec, want, what + "|to_string", "the number written")

    def bits_ok(self, st, n, spec, want, key, what):
        for i in range(spec["width"]):
            exp = self.expect(st, want(i))
            got = self.bit(st, n, i)
            if i not in spec["keep"]:
                ok = got == 0 or got == exp
            else:
                ok = got == exp
                if not ok and got is not None:
                    # undecided on one side: look at both values
                    ok = True
                    for s in self.decide(st, [want(i)]):
                        if self.bit(s, n, i) != self.expect(s, want(i)):
                            ok = False
                            break
            if got is None:
                self.und("%s: bit %d of %s unknown" % (self.T, i, what))
            else:
                self.verdict(st, ok, "%s|bit %d" % (key, i),
                             "%s: %s has bit %d = %s instead of %s" % (self.T, what, i, got, exp))

    def run_flags(self):
        F, ex, T = self.F, self.ex, self.T
        spec, src = self.sources(True)
        for what, v, s, want in src:
            self.observe(s, v, spec, want, what)
            for m, i in spec["set"].items():
                fid = inherent(F, T, m)
                if fid is None:
                    self.und("%s::%s not found" % (T, m))
                    continue
                st = s.copy()
                r = MutRef(st.alloc(v))
                b = Sym("switch", ty_id(F, "bool"))
                for _, s2 in self.call(st, fid, [r, b]):
                    v2 = ex.deref(s2, r)
                    self.observe(s2, v2, spec, lambda j, i=i, b=b: (b, 0) if j == i else want(j), what + "+" + m)
            if spec["clear"]:
                fid = inherent(F, T, spec["clear"])
                if fid is None:
                    self.und("%s::%s not found" % (T, spec["clear"]))
                    continue
                st = s.copy()
                r = MutRef(st.alloc(v))
                flags = set(spec["get"].values())
                for _, s2 in self.call(st, fid, [r]):
                    self.observe(s2, ex.deref(s2, r), spec, lambda j: want(j) if j in flags else (0, 0),
                                 what + "+" + spec["clear"])
        return self.out


def field(ex, st, v, name):
    v = ex.resolve(st, ex.deref(st, v))
    for k, f in enumerate(ex.T[v.ty]["variants"][v.v]["f"]):
        if f[0] == name:
            return v.f[k]
    return None


def scalar_in(ex, st, v):
    """the one number inside nested single-field structs"""
    v = ex.deref(st, v)
    while isinstance(v, Adt):
        if len(v.f) != 1:
            return None
        v = ex.deref(st, v.f[0])
    return v


def obj_parse(F, kind):
    j = Job(F, HO)
    j.i64 = ty_id(F, "i64") or ty_id(F, "i32")
    ex = j.ex = make_engine(F, [], max_outs=20000, max_steps=40000000)
    st = St()
    ver = ver_sym(F, st)
    segs = lines.tmpl(st, HOFORMS[kind])
    at = lines.tmpl(St(), "{type}")
    get = inherent(F, "osu_file::hitobjects::types::ComboSkipCount", "get")
    accepted = set()
    for k, v, s in parse_outcomes(ex, HO, segs, ver, st):
        j.paths += 1
        if k == "cut":
            j.und("cut: %s" % str(v)[:80])
        if k not in ("some", "err"):
            continue
        t = s.norm(at)
        if all(isinstance(x, str) for x in t):
            try:
                n = int("".join(t))
            except ValueError:
                continue
        else:
            n = Sym(("num", t), j.i64)
            if k == "err" and not any(c[0] == "parse" and s.norm(c[1]) == t and c[3] for c in s.cons):
                continue
        for s2 in j.decide(s, [(n, i) for i in KINDS.values()]):
            on = [x for x, i in KINDS.items() if j.bit(s2, n, i) == 1]
            if k == "err":
                e = an_err(ex, s2, v)
                if e == "UnknownObjType" and len(on) == 1:
                    j.verdict(s2, False, "type|%s is unknown" % on[0], "a line with the type bit of %s is rejected as unknown type" % on[0])
                continue
            o = field(ex, s2, v, "obj_params")
            o = ex.resolve(s2, o)
            got = ex.T[o.ty]["variants"][o.v]["n"]
            if not on:
                j.verdict(s2, False, "type|%s without its bit" % got, "a line without any kind bit is read as %s" % got)
            elif len(on) == 1:
                accepted.add(got)
                j.verdict(s2, got == on[0], "type|%s read as %s" % (on[0], got),
                          "a line with the type bit of %s is read as %s" % (on[0], got))
            for s3 in j.decide(s2, [(n, 2)]):
                c = field(ex, s3, v, "new_combo")
                for s4 in j.decide(s3, [(c, 0)] if isinstance(c, Sym) else []):
                    j.verdict(s4, j.bit(s4, c, 0) == j.bit(s4, n, 2), "type|new combo",
                              "new_combo is %s where bit 2 is %s" % (j.bit(s4, c, 0), j.bit(s4, n, 2)))
            c = field(ex, s2, v, "combo_skip_count")
            for r, s3 in ([(scalar_in(ex, s2, c), s2)] if get is None else j.call(s2, get, [RefV(c)])):
                for b in range(8):
                    for s4 in j.decide(s3, [(n, 4 + b)] if b < 3 else []):
                        want = j.bit(s4, n, 4 + b) if b < 3 else 0
                        x = j.bit(s4, r, b)
                        if x is None:
                            j.und("combo skip count unknown")
                        else:
                            j.verdict(s4, x == want, "type|skip bit %d" % b,
                                      "combo skip bit %d is %s where type bit %d is %s" % (b, x, 4 + b, want))
    if kind not in accepted:
        j.und("no accepted line of kind %s" % kind)
    return j


def an_err(ex, st, v):
    import rt
    return rt.err_name(ex, st, v)


def columns(segs):
    cols = [[]]
    for x in segs:
        if isinstance(x, str):
            p = x.split(",")
            if p[0]:
                cols[-1].append(p[0])
            for q in p[1:]:
                cols.append([q] if q else [])
        else:
            cols[-1].append(x)
    return cols


def obj_print(F, kind):
    j = Job(F, HO)
    j.i64 = ty_id(F, "i64") or ty_id(F, "i32")
    ex = j.ex = make_engine(F, [], max_outs=20000, max_steps=40000000, K=1)
    ty = ty_id(F, HO)
    names = [f[0] for f in ex.T[ty]["variants"][0]["f"]]
    new = Sym("newcombo", ty_id(F, "bool"))
    cs = Sym("skip", ty_id(F, "u8"))
    skt = ex.T[ty]["variants"][0]["f"][names.index("combo_skip_count")][1]
    if not isinstance(ex.T[skt]["variants"][0]["f"], list) or len(ex.T[skt]["variants"][0]["f"]) != 1:
        j.und("representation of the combo skip count changed")
        return j
    st = St()
    ver = ver_sym(F, st)
    # an object of the kind, read from a plain line, with an arbitrary combo and combo skip
    objs = []
    for k, v, s in parse_outcomes(ex, HO, (HOFORMS[kind].replace("{type}", str(1 << KINDS[kind])),), ver, st):
        if k == "some":
            v = ex.resolve(s, v)
            s.set_iv(cs, 0, 7, frozenset())
            fs = list(v.f)
            fs[names.index("new_combo")] = new
            fs[names.index("combo_skip_count")] = Adt(skt, 0, (cs,))
            objs.append((Adt(ty, 0, tuple(fs)), s))
    if not objs:
        j.und("no object of kind %s" % kind)
    n = 0
    for k, t, s in [o for v, st in objs for o in print_outcomes(ex, HO, v, ver, st)]:
        j.paths += 1
        if k == "cut":
            j.und("cut: %s" % str(t)[:80])
        if k != "some":
            continue
        cols = columns(s.norm(t))
        if len(cols) < 5:
            j.und("fewer than five columns printed")
            continue
        m = j.number(s, tuple(cols[3]))
        if m is None:
            j.und("type column %r" % (cols[3],))
            continue
        n += 1
        for i in range(8):
            want = (new, 0) if i == 2 else (cs, i - 4) if 4 <= i <= 6 else (int(KINDS[kind] == i), 0)
            for s2 in j.decide(s, [want]):
                got, exp = j.bit(s2, m, i), j.expect(s2, want)
                if got is None or isinstance(got, tuple):
                    j.und("printed type bit %d unknown" % i)
                else:
                    j.verdict(s2, got == exp, "print %s|bit %d" % (kind, i),
                              "a %s is written with type bit %d = %s instead of %s" % (kind, i, got, exp))
    if not n:
        j.und("%s is never written" % kind)
    return j


def job(F, t):
    if t[0] == "flags":
        j = Job(F, t[1])
        j.run_flags()
    elif t[0] == "parse":
        j = obj_parse(F, t[1])
    else:
        j = obj_print(F, t[1])
    return j.out, j.paths, j.uses, {i for i in j.ex.visited if F.fns[i].get("local")}, dict(j.ex.unmodelled)


def run(F, rep):
    rep.rule = ("hit sounds, timing point effects and hit object types are built (text, number, constructor), edited by each "
                "setter, read by each getter and written by the printers on symbolic numbers and switches; on every path "
                "each flag must be its documented bit, each setter must change its own bit only, and no kept bit may change")
    jobs = [("flags", "osu_file::" + t) for t in FLAGS if ty_id(F, "osu_file::" + t) is not None]
    for t in FLAGS:
        if ty_id(F, "osu_file::" + t) is None:
            rep.undec("type %s not found" % t)
    if ty_id(F, HO) is not None:
        jobs += [("parse", k) for k in KINDS] + [("print", k) for k in KINDS]
    else:
        rep.undec("HitObject not found")
    fns = set()
    for t, status, r in run_jobs(F, job, jobs, limit=300):
        rep.count("analyses")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (t, str(r)[-300:]))
            continue
        out, paths, uses, f, unm = r
        fns |= f
        rep.count("paths", paths)
        rep.count("API calls analysed", uses)
        for u in unm:
            rep.undec("%s: unmodelled %s" % (t, u))
        c = collections.Counter()
        for ok, key, d in out:
            c[ok] += 1
            if ok is True:
                rep.ok()
            elif ok is False:
                rep.violation(key, d)
            else:
                rep.undec("%s: %s" % ("/".join(t), d))
        rep.samples.append("%s: %s" % ("/".join(t), {str(k): v for k, v in c.items()}))
    rep.analysed["functions"] = len(fns)
    rep.floor("analyses", rep.analysed.get("analyses", 0), 4)
