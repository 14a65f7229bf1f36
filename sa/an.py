"""Analysis jobs on top of the abstract interpreter: entry states, per-type summaries of
the small parsers / printers (computed from the current source), their use as stubs when
larger parsers are analysed, the parallel driver, and structural comparison of values."""
import multiprocessing as mp
import os, sys, threading, time, traceback
import eng, models
from eng import Engine, Outs, Stop
from dom import *

FROM = "osu_file::types::VersionedFromStr"
TO = "osu_file::types::VersionedToString"
VERS = tuple(range(3, 15))


def ty_id(F, text):
    m = F.__dict__.setdefault("_tyid", {})
    if not m:
        for i, t in enumerate(F.types):
            if t.get("t") is not None:
                m.setdefault(t["t"], i)
    return m.get(text)


def method_id(F, T, trait, m, variant=None):
    c = F.bymethod.get((T, trait, m), [])
    if variant is not None:
        c = [x for x in c if variant in x[0]]
    return c[0][1] if c else None


def fallible(F, T):
    """can <T as VersionedFromStr>::from_str fail at all (error type not empty)?"""
    fid = method_id(F, T, FROM, "from_str")
    e = F.types[F.types[F.fns[fid]["body"]["locals"][0]]["variants"][1]["f"][0][1]]
    return not (e["k"] == "never" or e["t"] == "()" or e["k"] == "adt" and e["kind"] == "enum" and not e["variants"])


def ver_sym(F, st, lo=3, hi=14):
    v = Sym("ver", ty_id(F, "u8"))
    st.set_iv(v, lo, hi, frozenset())
    return v


def ver_set(st, v):
    """versions of [3, 14] this state stands for"""
    v = st.simp(v)
    if isinstance(v, int):
        return frozenset((v,))
    lo, hi = st.interval(v)
    ex = st.excl(v)
    return frozenset(x for x in VERS if lo <= x <= hi and x not in ex)


def restrict_ver(st, v, allowed):
    cur = ver_set(st, v)
    new = cur & allowed
    if not new:
        raise Infeasible()
    v = st.simp(v)
    if isinstance(v, int) or new == cur:
        return
    lo, hi = min(new), max(new)
    st.set_iv(v, lo, hi, frozenset(x for x in range(lo, hi + 1) if x not in new))


# ------------------------------------------------------------------ text classes
def text_af(st, segs):
    """charset / first / last / nonempty of a text"""
    m = f = l = 0
    nonempty = False
    for s in segs:
        if isinstance(s, str):
            mm = mask(s)
            ff, ll, mn = 1 << cls(s[0]), 1 << cls(s[-1]), 1
        else:
            a = st.af(s)
            mm, ff, ll, mn = a.m, a.f, a.l, a.min
        m |= mm
        if not nonempty:
            f |= ff
        if mn:
            l = ll
            nonempty = True
        else:
            l |= ll
    return m, f, l, int(nonempty)


def join_af(a, b):
    if a is None:
        return b
    if not b[0]:
        return (a[0], a[1], a[2], 0)
    if not a[0]:
        return (b[0], b[1], b[2], 0)
    return (a[0] | b[0], a[1] | b[1], a[2] | b[2], a[3] & b[3])


class Summary:
    """what the outcomes of a parser (and of printing what it accepts) look like"""

    def __init__(self, T):
        self.T = T
        self.kinds = {}         # 'some' / 'none' / 'err' -> versions
        self.acc = None         # charset of accepted text
        self.pr = None          # charset of the text printed for an accepted value
        self.pr_none = frozenset()
        self.pr_some = frozenset()
        self.variants = set()
        self.errvariants = set()
        self.ctx = []           # (charset of the input, charset of what is printed then)
        self.exact = True
        self.verfree = True     # no outcome depends on the version
        self.outs = 0
        self.fns = set()


def okval(ex, st, v):
    """('some', x) / ('none',) / ('err', e) of a Result<Option<T>, E> value"""
    v = ex.resolve(st, v)
    if v.v == 1:
        return ("err", v.f[0])
    o = ex.resolve(st, v.f[0])
    if o.v == 0:
        return ("none",)
    return ("some", o.f[0])


def optval(ex, st, v):
    v = ex.resolve(st, v)
    return None if v.v == 0 else v.f[0]


def parse_outcomes(ex, T, segs, ver, st, fid=None):
    """outcomes (kind, value, st) of <T as VersionedFromStr>::from_str on a text, kinds
    some / none / err / panic / cut"""
    if fid is None:
        fid = method_id(ex.F, T, FROM, "from_str")
    res = []

    def go(s):
        return ex.run(fid, [RefV(Str(segs)), ver], s)
    for k, v, s in ex.split(st, go):
        if k != "ret":
            res.append((k, v, s))
            continue

        def fin(s2, v=v):
            r = okval(ex, s2, v)
            return [(r[0], r[1] if len(r) > 1 else None, s2)]
        res += ex.split(s, fin)
    return res


def print_outcomes(ex, T, val, ver, st, fid=None):
    """outcomes (kind, segments, st) of <T as VersionedToString>::to_string, kinds
    some / none / panic / cut"""
    if fid is None:
        fid = method_id(ex.F, T, TO, "to_string")
    res = []
    if val_ty(ex, val) is None:
        pass

    def go(s):
        return ex.call(s, fid, [RefV(val), ver])
    for k, v, s in ex.split(st, go):
        if k != "ret":
            res.append((k, v, s))
            continue

        def fin(s2, v=v):
            x = optval(ex, s2, v)
            if x is None:
                return [("none", None, s2)]
            x = ex.deref(s2, x)
            return [("some", s2.norm(x.s), s2)]
        res += ex.split(s, fin)
    return res


def val_ty(ex, v):
    return getattr(v, "ty", None)


CTX = tuple(ALL & ~mask(c) for c in (",\n\r", ",|\n\r", ":\n\r", ",:|\n\r", ", \t\n\r"))


def summarise(F, T, stubs=(), ctx=None, **kw):
    ex = make_engine(F, stubs, **kw)
    S = Summary(T)
    st = St()
    ver = ver_sym(F, st)
    atom = Atom("text")
    if ctx is not None:
        st.set_af(atom, AF(ctx))
    try:
        outs = parse_outcomes(ex, T, (atom,), ver, st)
    except Stop:
        S.exact = S.verfree = False
        S.kinds = {"some": frozenset(VERS), "none": frozenset(VERS), "err": frozenset(VERS)}
        return S
    S.outs = len(outs)
    for k, v, s in outs:
        if ver_set(s, ver) != frozenset(VERS):
            S.verfree = False
        if k in ("cut", "panic"):
            S.exact = S.exact and k != "cut"
            continue
        if s.notes:
            S.exact = False
        S.kinds[k] = S.kinds.get(k, frozenset()) | ver_set(s, ver)
        if k == "err":
            if isinstance(v, Adt):
                S.errvariants.add(v.v)
            elif isinstance(v, Sym) and ex.kind[v.ty] == "enum":
                S.errvariants |= set(ex.allowed(s, v))
        if k == "some":
            S.acc = join_af(S.acc, text_af(s, s.norm((atom,))))
            if isinstance(v, Adt):
                S.variants.add(v.v)
            elif isinstance(v, Sym) and ex.kind[v.ty] == "enum":
                S.variants |= set(ex.allowed(s, v))
            if method_id(F, T, TO, "to_string") is not None:
                for k2, t, s2 in print_outcomes(ex, T, v, ver, s):
                    if k2 == "some":
                        S.pr = join_af(S.pr, text_af(s2, t))
                        S.pr_some |= ver_set(s2, ver)
                        if s2.notes:
                            S.exact = False
                    elif k2 == "none":
                        S.pr_none |= ver_set(s2, ver)
                    elif k2 == "cut":
                        S.exact = False
    S.fns = {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}
    if ctx is None and S.pr is not None:
        for c in CTX:
            if S.pr[0] & ~c:
                r = summarise(F, T, stubs, c, **kw)
                if r.pr is not None:
                    S.ctx.append((c, r.pr))
    return S


# ------------------------------------------------------------------ stubs
def trim_ws(st, s):
    """without the literal white space at both ends"""
    s = list(s)
    if s and isinstance(s[0], str):
        s[0] = s[0].lstrip()
    if s and isinstance(s[-1], str):
        s[-1] = s[-1].rstrip()
    return st.norm(tuple(x for x in s if x != ""))


class Black:
    """a parser / printer taken as an unknown function of text and version: every text may be
    accepted or rejected (the container's behaviour has to be right whatever it does)"""

    def __init__(self, T, kinds=("some", "err"), pid=None, tid=None, pr=None, trim=False):
        self.trim = trim
        self.clean = None
        self.T, self.kinds_, self.pid, self.tid = T, kinds, pid, tid
        self.kinds = {k: frozenset(VERS) for k in kinds}
        self.acc = None
        self.pr = pr or (ALL & ~mask("\n\r"), ALL & ~mask("\n\r\t "), ALL & ~mask("\n\r\t "), 1)
        self.pr_none = frozenset()
        self.pr_some = frozenset(VERS)
        self.variants = ()
        self.errvariants = ()
        self.ctx = ()
        self.exact = True
        self.verfree = False


def install_stub(ex, T, S):
    F = ex.F
    black = isinstance(S, Black)
    pid = black and S.pid or method_id(F, T, FROM, "from_str")
    tid = black and S.tid or method_id(F, T, TO, "to_string")
    vty = ty_id(F, T)
    ex.leafs[vty] = S
    body = F.fns[pid]["body"]
    rty = body["locals"][0]
    optty = ex.T[rty]["variants"][0]["f"][0][1]
    errty = ex.T[rty]["variants"][1]["f"][0][1]

    def errval(st, segs):
        if ex.kind[errty] == "enum":
            e = Sym(("le", T, segs), errty)
            if S.errvariants:
                st.d["var", e.k] = frozenset(S.errvariants)
            return e
        v = ex.fresh(errty, ("le", T, segs), st)
        if isinstance(v, Adt):
            for x in v.f:
                if isinstance(x, Sym) and ex.T[x.ty]["k"] == "int":
                    st.set_iv(x, 0, 1 << 40, frozenset())
        return v

    def result(st, kind, segs):
        if kind == "some":
            v = Sym(("lv", T, segs), vty)
            if ex.kind[vty] == "enum" and S.variants and ("var", v.k) not in st.d:
                st.d["var", v.k] = frozenset(S.variants)
            return Adt(rty, 0, (Adt(optty, 1, (v,)),))
        if kind == "none":
            return Adt(rty, 0, (Adt(optty, 0, ()),))
        return Adt(rty, 1, (errval(st, segs),))

    def parse(e, st, a, f, dty):
        s = st.norm(e.deref(st, a[0]).s)
        if black and S.trim:
            s = trim_ws(st, s)
        if black and S.clean:
            s = S.clean(st, s)
        ver = st.simp(a[1])
        k = st.whole(s)
        if k is not None:
            if isinstance(k, tuple) and k[0] == "pr" and k[1] == T and st.simp(k[3]) == ver:
                return Adt(rty, 0, (Adt(optty, 1, (k[2],)),))
        if not s:
            for k, sub in st.d.items():
                if k[0] == "sub" and isinstance(k[1], tuple) and k[1][:2] == ("pr", T) and st.simp(k[1][3]) == ver and not st.norm(sub):
                    return Adt(rty, 0, (Adt(optty, 1, (k[1][2],)),))
        other = False
        for kind, segs, arg, orig in st.cons:
            if kind == "leaf" and arg[0] == T and segs == s:
                if st.simp(arg[1]) == ver or S.verfree:
                    return result(st, arg[2], orig)
                other = True
        if other:
            st.note("%s read at two versions" % T)
        if black:
            alts = []
            for kind in S.kinds_:
                y = st.copy()
                y.cons = y.cons + (("leaf", s, (T, ver, kind), s),)
                alts.append(y)
            if len(alts) == 1:
                st.cons = alts[0].cons
                return result(st, S.kinds_[0], s)
            raise Fork(alts, "leaf")
        if len(s) != 1 or isinstance(s[0], str):
            return NotImplemented       # known text: read it with the real parser
        alts = []
        for kind in ("some", "none", "err"):
            vs = S.kinds.get(kind)
            if not vs:
                continue
            y = st.copy()
            try:
                restrict_ver(y, ver, vs)
                if kind == "some" and S.acc is not None:
                    m, fi, la, mn = S.acc
                    texts = [x for x in s]
                    if mn and not texts:
                        raise Infeasible()
                    for i, x in enumerate(texts):
                        if isinstance(x, str):
                            if mask(x) & ~m:
                                raise Infeasible()
                            continue
                        g = y.af(x)
                        y.set_af(x, AF(g.m & m, g.f & m & (fi if i == 0 else ALL),
                                       g.l & m & (la if i == len(texts) - 1 else ALL),
                                       max(g.min, mn if len(texts) == 1 else 0), g.one))
                if not isinstance(s[0], Atom) or not S.exact:
                    y.note("summary of %s" % T)
                y.cons = y.cons + (("leaf", y.norm(s), (T, ver, kind), s),)
                if y.consistent():
                    alts.append(y)
            except Infeasible:
                continue
        raise Fork(alts, "leaf")

    def show(e, st, a, f, dty):
        v = e.deref(st, a[0])
        if not isinstance(v, Sym):
            return NotImplemented
        ver = st.simp(a[1])
        known = isinstance(v.k, tuple) and v.k and v.k[0] == "lv"
        if S.pr_none:
            vs = ver_set(st, ver)
            if not vs & S.pr_some:
                return Adt(dty, 0, ())
            if vs & S.pr_none:
                alts = []
                for g in (S.pr_none, S.pr_some):
                    y = st.copy()
                    restrict_ver(y, ver, g)
                    if S.pr_none & S.pr_some:
                        y.note("printing of %s" % T)
                    alts.append(y)
                raise Fork(alts, "leaf print")
        at = Atom(("pr", T, v, ver))
        if known and S.pr is not None and ("at", at.k) not in st.d:
            pr = S.pr
            sm = text_af(st, st.norm(v.k[2]))[0]
            for c, r in S.ctx:
                if not sm & ~c and bin(r[0]).count("1") < bin(pr[0]).count("1"):
                    pr = r
            m, fi, la, mn = pr
            st.d["at", at.k] = AF(m, fi, la, mn)
        return Adt(dty, 1, (Str((at,)),))
    ex.stubs[pid] = parse
    if tid is not None:
        ex.stubs[tid] = show


def install_decimal(ex):
    """Decimal::from(&str) with the choice between number and kept text made only where the
    code looks at it; printing it gives a text that reads back as the same value"""
    F = ex.F
    T = "osu_file::types::Decimal"
    dty = ty_id(F, T)
    if dty is None or ex.T[dty].get("k") != "adt" or len(ex.T[dty]["variants"][0]["f"]) != 1:
        return
    ety = ex.T[dty]["variants"][0]["f"][0][1]
    if ex.T[ety].get("name") != "either::Either":
        return
    vs = ex.T[ety]["variants"]
    rty = vs[0]["f"][0][1]
    fid = None
    for tr in ("std::convert::From",):
        for name, i in F.bymethod.get((T, tr, "from"), []):
            b = F.fns[i].get("body")
            if b and b["argc"] == 1 and ex.T[b["locals"][1]].get("k") == "ref":
                fid = i
    shid = method_id(F, T, "std::fmt::Display", "fmt")
    if fid is None:
        return

    def mk(sym):
        return Adt(dty, 0, (sym,))

    def frm(e, st, a, f, d):
        v = e.deref(st, a[0])
        if not isinstance(v, Str):
            return NotImplemented
        s = st.norm(v.s)
        if not s or all(isinstance(x, str) for x in s):
            return NotImplemented
        k = st.whole(s)
        if k is not None and k[0] == "disp":
            if k[1] == "ld":
                return mk(k[2])
            if k[1] in ("int", "dec"):
                return NotImplemented
        return mk(Sym(("ld", s), ety))

    ex.stubs[fid] = frm


SUMS = {}       # filled in the parent before workers fork


def install_easing(ex):
    """Easing is a relabelling of the integers (proved by the table check): kept symbolic"""
    F = ex.F
    T = "osu_file::events::storyboard::types::Easing"
    vty = ty_id(F, T)
    fr = method_id(F, T, "osu_file::types::VersionedFrom", "from")
    tid = method_id(F, T, TO, "to_string")
    if None in (vty, fr, tid):
        return

    def frm(e, st, a, f, dty):
        v = st.simp(a[0])
        if not isinstance(v, Sym):
            return NotImplemented
        return Adt(dty, 1, (Sym(("cv", v), vty),))

    def show(e, st, a, f, dty):
        v = e.deref(st, a[0])
        if isinstance(v, Sym) and isinstance(v.k, tuple) and v.k[0] == "cv":
            return Adt(dty, 1, (Str(st.norm((Atom(("disp", "int", v.k[1])),))),))
        return NotImplemented
    ex.stubs[fr] = frm
    ex.stubs[tid] = show


ENGINES = []        # engines of the current job


def make_engine(F, stubs=(), **kw):
    lazy = kw.pop("lazy", bool(stubs))
    ex = Engine(F, **kw)
    ENGINES.append(ex)
    ex.leafs = {}
    if lazy:
        install_decimal(ex)
        install_easing(ex)
    for T in stubs:
        if isinstance(T, Black):
            install_stub(ex, T.T, T)
        else:
            install_stub(ex, T, summary(F, T))
    return ex


def summary(F, T):
    S = SUMS.get(T)
    if S is None:
        S = SUMS[T] = summarise(F, T)
    return S


# ------------------------------------------------------------------ comparison
def same(ex, st, a, b):
    """structural equality of two values under st: True / False (definitely different) /
    None (not decided)"""
    a, b = ex.deref(st, a), ex.deref(st, b)
    if isinstance(a, (int, Sym, Lin, Bits)) and not isinstance(a, bool):
        a = st.simp(a)
    if isinstance(b, (int, Sym, Lin, Bits)) and not isinstance(b, bool):
        b = st.simp(b)
    if isinstance(a, bool) or isinstance(b, bool):
        if isinstance(a, bool) and isinstance(b, bool):
            return a == b
        return None
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    if isinstance(a, Str) and isinstance(b, Str):
        x, y = st.norm(a.s), st.norm(b.s)
        if x == y:
            return True
        if all(isinstance(p, str) for p in x + y):
            return False
        return text_differs(st, x, y)
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.v != b.v:
            return False
        if isinstance(a.ty, int) and a.ty >= 0 and ex.T[a.ty].get("t") == "osu_file::types::FilePath":
            x, y = ex.deref(st, a.f[0]), ex.deref(st, b.f[0])
            if isinstance(x, Str) and isinstance(y, Str):
                # printing puts quotes around a path with a space; reading keeps them
                x, y = st.norm(x.s), st.norm(y.s)
                if st.norm(('"',) + x + ('"',)) == y:
                    return True
        r = True
        for p, q in zip(a.f, b.f):
            z = same(ex, st, p, q)
            if z is False:
                return False
            if z is None:
                r = None
        return r
    if isinstance(a, Seq) and isinstance(b, Seq):
        a, b = ex.norm_seq(st, a), ex.norm_seq(st, b)
        if a.tail is None and b.tail is None and len(a.it) != len(b.it):
            return False
        if (a.tail is None) != (b.tail is None) or len(a.it) != len(b.it):
            return None
        r = True
        for p, q in zip(a.it, b.it):
            z = same(ex, st, p, q)
            if z is False:
                return False
            if z is None:
                r = None
        if a.tail is not None and a.tail.key() != b.tail.key():
            return None
        return r
    if a == b:
        return True
    if isinstance(a, Sym) and isinstance(b, Adt):
        a, b = b, a
    if isinstance(a, Adt) and isinstance(b, Sym) and isinstance(b.k, tuple) and b.k and b.k[0] == "lv" \
            and ("var", b.k) not in st.d:
        return False            # every accepted text against one fixed value
    if isinstance(a, Adt) and isinstance(b, Sym) and ex.kind[b.ty] == "enum":
        al = ex.allowed(st, b)
        if a.v not in al:
            return False
        return None
    if isinstance(a, Sym) and isinstance(b, Sym) and ex.kind[a.ty] == "enum" and a.ty == b.ty:
        if not (ex.allowed(st, a) & ex.allowed(st, b)):
            return False
        return None
    if num_like(a) and num_like(b):
        d = lsub(a, b)
        if d is not None:
            lo, hi = st.interval(st.simp(d))
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
        # two independent inputs: different for some concrete choice
        if isinstance(a, Sym) and isinstance(b, Sym) and independent(st, a, b):
            return False
        if isinstance(a, Sym) and isinstance(b, int) or isinstance(b, Sym) and isinstance(a, int):
            x, c = (a, b) if isinstance(a, Sym) else (b, a)
            lo, hi = st.interval(x)
            if lo is None or hi is None or lo < hi:
                return False        # the partition contains other values as well
        if isinstance(a, (Sym, int, Lin)) and isinstance(b, (Sym, int, Lin)) and d is not None and not isinstance(d, Sym):
            pa = linparts(d)
            if pa and len(pa[1]) == 1:
                x = pa[1][0][0]
                lo, hi = st.interval(x)
                if lo is None or hi is None or lo < hi:
                    return False
        return None
    return None


def num_like(v):
    return isinstance(v, (int, Sym, Lin, Bits))


def independent(st, a, b):
    """both numbers are read from different pieces of input text (or are different
    arguments): some member of the partition has them different"""
    if a.k == b.k:
        return False
    la, lb = st.interval(a), st.interval(b)
    if la == lb and la[0] is not None and la[0] == la[1]:
        return False
    return leaf_input(a) and leaf_input(b)


def leaf_input(s):
    k = s.k
    return isinstance(k, tuple) and k and k[0] in ("num", "dec", "a", "lv") or isinstance(k, str)


def text_differs(st, x, y):
    """definitely different texts for some member of the partition? (False) or unknown"""
    # strip common ends
    x, y = list(x), list(y)
    while x and y and x[0] == y[0]:
        x.pop(0)
        y.pop(0)
    while x and y and x[-1] == y[-1]:
        x.pop()
        y.pop()
    if not x and not y:
        return True
    if not x or not y:
        z = x or y
        for s in z:
            if isinstance(s, str) or st.af(s).min:
                return False
        return False if any(isinstance(s, Atom) for s in z) else None
    if len(x) == 1 and len(y) == 1 and isinstance(x[0], str) and isinstance(y[0], str):
        p, q = x[0], y[0]
        n = min(len(p), len(q))
        if p[:n] != q[:n]:
            return False
    return None


# ------------------------------------------------------------------ parallel jobs
F_ = None
_FN = None


class Timeout(Exception):
    pass


def _job(ij):
    i, job = ij
    t0 = time.time()
    box = []

    def go():
        try:
            box.append(("ok", _FN(F_, job)))
        except Stop as e:
            box.append(("limit", str(e)[:200]))
        except RecursionError:
            box.append(("limit", "recursion"))
        except BaseException:
            box.append(("error", traceback.format_exc()[-3000:]))
    th = threading.Thread(target=go, daemon=True)
    th.start()
    th.join(LIMIT[0])
    if os.environ.get("OSU_TRACE"):
        print("job %d %.1fs %s" % (i, time.time() - t0, box[0][0] if box else "time"), file=sys.stderr, flush=True)
    return i, (box[0] if box else ("limit", "time"))


LIMIT = [200]


def run_jobs(F, fn, jobs, limit=200, procs=8):
    """fn(F, job) for every job, in forked workers; list of (job, status, result), in job
    order"""
    global F_, _FN
    F_, _FN = F, fn
    LIMIT[0] = limit
    sys.setrecursionlimit(200000)
    threading.stack_size(1 << 30)
    res = {}
    ctx = mp.get_context("fork")
    with ctx.Pool(procs, maxtasksperchild=1) as p:
        for i, (status, r) in p.imap_unordered(_job, list(enumerate(jobs)), chunksize=1):
            res[i] = (status, r)
    return [(j,) + res[i] for i, j in enumerate(jobs)]
