"""Models of the library primitives the crate's code bottoms out in. Everything else (nom
combinators, Option/Result methods, closures, trait glue) is interpreted from its MIR."""
import itertools, re
from dom import *
import dom
from eng import Outs, Unsupported, Cell
import eng

NONE = object()


# ---------------------------------------------------------------- helpers
def segs(ex, st, v):
    v = ex.deref(st, v)
    if isinstance(v, Str):
        return st.norm(v.s)
    if isinstance(v, (str, Atom)):
        return st.norm((v,))
    if isinstance(v, Sym):
        return None
    raise Unsupported("not a string: %r" % (v,))


def mkstr(s):
    return Str(tuple(s))


def refstr(s):
    return RefV(Str(tuple(s)))


def opt(dty, v=NONE):
    return Adt(dty, 0, ()) if v is NONE else Adt(dty, 1, (v,))


def payload(ex, dty, variant=1):
    return ex.T[dty]["variants"][variant]["f"][0][1]


def each(ex, st, fn):
    """fn(st) -> list of outcomes, refined on demand"""
    return ex.split(st, fn)


def chain(ex, outs, fn):
    """continue every 'ret' outcome with fn(value, st) -> outcomes"""
    res = []
    for k, v, s in outs:
        if k != "ret":
            res.append((k, v, s))
        else:
            res += ex.split(s, lambda x, v=v: fn(v, x))
    return res


def rets(l):
    return Outs(l)


def callf(ex, st, f, args, dty=None):
    return ex.split(st, lambda s: ex.call_value(s, f, args, dty))


def is_pure_closure(v):
    return True


def pred_mask(ex, st, f, byref=False):
    """character classes for which the predicate f holds, or None"""
    v = f
    while isinstance(v, (RefV, MutRef)):
        v = v.v if isinstance(v, RefV) else ex.read_cell(st, v)
    key = None
    try:
        key = (v, byref)
        if key in ex.cache_cls:
            return ex.cache_cls[key]
    except TypeError:
        key = None
    t = f_param(ex, v)
    byref = t is not None and ex.T[t]["k"] == "ref"
    a = Atom(("pc", next(ex.ctr)))
    s0 = st.copy()
    s0.d["at", a.k] = AF(one=True)
    yes = no = 0
    exact = True
    ndty = None
    for i, ty in enumerate(ex.T):
        if ty["k"] == "bool":
            ndty = i
            break

    def go(s):
        return chain(ex, ex.call_value(s, f, [RefV(a) if byref else a], ndty),
                     lambda r, x: [("ret", ex.truth(x, r), x)])
    for k, r, s in ex.split(s0, go):
        if k != "ret" or s.notes - st.notes:
            exact = False
            break
        m = ex.one_mask(s, a)
        if r:
            yes |= m
        else:
            no |= m
    res = yes if exact and not yes & no and yes | no == ALL else None
    if key is not None:
        ex.cache_cls[key] = res
    return res


def f_param(ex, v):
    """type of the first plain parameter of a function value"""
    if isinstance(v, FnV):
        inst = ex.T[v.ty].get("inst")
        if inst is None or not ex.F.fns[inst].get("body"):
            return None
        return ex.F.fns[inst]["body"]["locals"][1]
    if isinstance(v, Adt) and ex.T[v.ty]["k"] == "closure":
        b = ex.F.fns[ex.T[v.ty]["inst"]]["body"]
        return b["locals"][2] if b["argc"] > 1 else None
    return None


def pattern(ex, st, p):
    """('cls', mask) or ('str', literal) or ('segs', segments)"""
    v = ex.deref(st, p)
    if isinstance(v, (str, Atom)):
        v = ex.char_norm(st, v)
        if isinstance(v, str):
            if cls(v) >= 128 and v != "\ufeff":
                return ("str", v)
            return ("cls", 1 << cls(v))
        raise Unsupported("unknown character pattern")
    if isinstance(v, Str):
        s = st.norm(v.s)
        if all(isinstance(x, str) for x in s):
            lit = "".join(s)
            if len(lit) == 1 and (ord(lit) < 128):
                return ("cls", 1 << cls(lit))
            return ("str", lit)
        return ("segs", s)
    if isinstance(v, Seq):
        m = 0
        for c in v.it:
            c = ex.char_norm(st, ex.deref(st, c))
            if not isinstance(c, str) or cls(c) >= 128:
                raise Unsupported("pattern set")
            m |= 1 << cls(c)
        return ("cls", m)
    m = pred_mask(ex, st, p)
    if m is None:
        raise Unsupported("character predicate not expressible over classes")
    return ("cls", m)


def find_lit(ex, st, s, lit):
    """first occurrence of a literal of 2+ characters: (before, after) or None (forks; the
    'before' part only records that it does not contain the literal)"""
    s = st.norm(s)
    # find inside known literal text when everything before is known
    if ("contains", s, lit, False) in st.cons:
        return None
    acc = []
    for i, x in enumerate(s):
        if isinstance(x, str):
            # a literal segment preceded by segments that cannot contain the beginning
            j = x.find(lit)
            pre_ok = all(isinstance(y, str) or ("nolit", y.k, lit) in st.d or
                         not st.af(y).m & mask(lit[0]) for y in s[:i])
            if j >= 0 and pre_ok:
                head = tuple(acc) + ((x[:j],) if j else ())
                return head, (x[j:],) + s[i + 1:]
        acc.append(x)
    if all(isinstance(x, str) for x in s):
        return None
    if all(isinstance(x, str) or not st.af(x).m & mask(lit[0]) and not st.af(x).m & mask(lit[-1]) for x in s):
        if "".join(x if isinstance(x, str) else "\0" for x in s).find(lit) < 0:
            return None
    alts = []
    no = st.copy()
    no.require("contains", s, lit, False)
    for a in s:
        if not isinstance(a, str):
            no.d["nolit", a.k, lit] = True
    alts.append(no)
    for i, a in enumerate(s):
        if isinstance(a, str):
            continue
        f = st.af(a)
        if f.one or any(not f.m >> cls(c) & 1 for c in lit):
            continue
        if ("nolit", a.k, lit) in st.d:
            continue
        y = st.copy()
        try:
            b = Atom(sub_key(a, "?" + lit + "<"))
            c = Atom(sub_key(a, "?" + lit + ">"))
            y.subst(a, (b, lit, c))
            y.set_af(b, AF(f.m, f.f | (1 << cls(lit[0])), ALL))
            y.set_af(c, AF(f.m, f.m, f.l, 0))
            y.d["nolit", b.k, lit] = True
            for p in s[:i]:
                if not isinstance(p, str):
                    y.d["nolit", p.k, lit] = True
            alts.append(y)
        except Infeasible:
            pass
    raise Fork(alts, "contains")


def find(ex, st, s, pat):
    if pat[0] == "cls":
        return find_class(st, s, pat[1])
    if pat[0] == "str":
        if pat[1] == "":
            return (), s
        return find_lit(ex, st, s, pat[1])
    raise Unsupported("search for unknown text")


def starts(ex, st, s, pat):
    if pat[0] == "str":
        return ask_prefix(st, s, pat[1])
    if pat[0] == "cls":
        c = single(pat[1])
        if c is not None:
            return ask_prefix(st, s, c)
        if ask_empty(st, s):
            return False
        x = next_char(ex, st, s)
        return ex.in_class(st, x[0], pat[1])
    return starts_segs(st, s, pat[1])


def lacks_part(st, s, p):
    """whether a text cannot hold another one because it lacks one of its characters"""
    m = 0
    for x in st.norm(s):
        m |= mask(x) if isinstance(x, str) else st.af(x).m
    return any(isinstance(y, str) and mask(y) & ~m for y in p)


def starts_segs(st, s, p):
    if len(s) >= len(p) and tuple(s[:len(p)]) == tuple(p):
        return True
    if lacks_part(st, s, p):
        return False
    raise Unsupported("prefix test with unknown text")


def ends(ex, st, s, pat):
    if pat[0] == "str":
        return ask_suffix(st, s, pat[1])
    if pat[0] == "cls":
        c = single(pat[1])
        if c is not None:
            return ask_suffix(st, s, c)
        r = rfind_edge(st, s, pat[1])
        return st.norm(r) != st.norm(s)
    if len(s) >= len(pat[1]) and tuple(s[len(s) - len(pat[1]):]) == tuple(pat[1]):
        return True
    if lacks_part(st, s, pat[1]):
        return False
    raise Unsupported("suffix test with unknown text")


def next_char(ex, st, s):
    """(first char, rest) or None; forks"""
    s = st.norm(s)
    while s:
        x = s[0]
        if isinstance(x, str):
            return x[0], ((x[1:],) if len(x) > 1 else ()) + s[1:]
        f = st.af(x)
        if f.one:
            return x, s[1:]
        if not f.min:
            alts = []
            for e in (0, 1):
                y = st.copy()
                try:
                    if e:
                        y.subst(x, ())
                    else:
                        y.set_af(x, AF(f.m, f.f, f.l, 1))
                    alts.append(y)
                except Infeasible:
                    pass
            raise Fork(alts, "chars")
        k = x.k
        depth = k[2].count("^") if isinstance(k, tuple) and len(k) == 3 and k[0] == "a" else 0
        if depth >= 2 * ex.K:
            ex.cut("text examined character by character beyond %d" % (2 * ex.K))
            raise Infeasible()
        a = Atom(sub_key(x, "^1"))
        b = Atom(sub_key(x, "^>"))
        y = st.copy()
        y.subst(x, (a, b))
        alts = []
        try:
            y.set_af(a, AF(f.f, one=True))
            y.set_af(b, AF(f.m, f.m, f.l, 0 if f.l & f.f else 1))
            alts.append(y)
        except Infeasible:
            pass
        raise Fork(alts, "chars")
    return None


def last_char(ex, st, s):
    s = st.norm(s)
    while s:
        x = s[-1]
        if isinstance(x, str):
            return x[-1], s[:-1] + ((x[:-1],) if len(x) > 1 else ())
        f = st.af(x)
        if f.one:
            return x, s[:-1]
        alts = []
        if not f.min:
            for e in (0, 1):
                y = st.copy()
                try:
                    if e:
                        y.subst(x, ())
                    else:
                        y.set_af(x, AF(f.m, f.f, f.l, 1))
                    alts.append(y)
                except Infeasible:
                    pass
            raise Fork(alts, "chars")
        a = Atom(sub_key(x, "$1"))
        b = Atom(sub_key(x, "$<"))
        y = st.copy()
        y.subst(x, (b, a))
        try:
            y.set_af(a, AF(f.l, one=True))
            y.set_af(b, AF(f.m, f.f, f.m, 0 if f.f & f.l else 1))
            alts.append(y)
        except Infeasible:
            pass
        raise Fork(alts, "chars")
    return None


def next_line(ex, st, s):
    s = st.norm(s)
    if not s:
        return None
    r = empty(st, s)
    if r is None:
        if ask_empty(st, s):
            return None
    elif r:
        return None
    r = find_class(st, s, NL)
    if r is None:
        line, rest = s, ()
    else:
        line, rest = r
        x = rest[0]
        rest = ((x[1:],) if len(x) > 1 else ()) + tuple(rest[1:])
        # a line ending in \r\n loses both; a lone final line keeps a trailing \r
        if line and ask_suffix(st, line, "\r"):
            line = drop_last(st, line)
    return st.norm(line), st.norm(rest)


def drop_last(st, s):
    s = list(st.norm(s))
    x = s.pop()
    if not isinstance(x, str):
        return tuple(s)
    if len(x) > 1:
        s.append(x[:-1])
    return tuple(s)


def slice_from(ex, st, s, n, site=None):
    r = take_prefix(st, s, n)
    return r


# ---------------------------------------------------------------- string equality
def eq_str(ex, st, a, b):
    a, b = list(st.norm(a)), list(st.norm(b))
    while a and b:
        if a[0] == b[0]:
            a.pop(0)
            b.pop(0)
        elif isinstance(a[0], str) and isinstance(b[0], str):
            n = 0
            while n < len(a[0]) and n < len(b[0]) and a[0][n] == b[0][n]:
                n += 1
            if n == 0:
                return False
            x, y = a.pop(0)[n:], b.pop(0)[n:]
            if x:
                a.insert(0, x)
            if y:
                b.insert(0, y)
        else:
            break
    while a and b:
        if a[-1] == b[-1]:
            a.pop()
            b.pop()
        elif isinstance(a[-1], str) and isinstance(b[-1], str):
            x, y = a[-1], b[-1]
            n = 0
            while n < len(x) and n < len(y) and x[-1 - n] == y[-1 - n]:
                n += 1
            if n == 0:
                return False
            a.pop()
            b.pop()
            if x[:-n]:
                a.append(x[:-n])
            if y[:-n]:
                b.append(y[:-n])
        else:
            break
    a, b = tuple(a), tuple(b)
    if not a and not b:
        return True
    if all(isinstance(x, str) for x in b):
        return ask_eq(st, a, "".join(b))
    if all(isinstance(x, str) for x in a):
        return ask_eq(st, b, "".join(a))
    for p, q in ((a, b), (b, a)):
        w = st.d.get(("same", p, q))
        if w is not None:
            return w
    if not_equal(st, a, b):
        return False
    if len(a) == 1 and isinstance(a[0], Atom) and len(b) == 1 and isinstance(b[0], Atom):
        y, n = st.copy(), st.copy()
        y.d["same", a, b] = True
        n.d["same", a, b] = False
        alts = [n]
        fa, fb = st.af(a[0]), st.af(b[0])
        ka, kb = a[0].k, b[0].k
        if not (isinstance(ka, tuple) and ka and ka[0] == "disp") or not (isinstance(kb, tuple) and kb and
                                                                         kb[0] == "disp"):
            # unify: the plain atom becomes the other
            src, dst, f = (a[0], b[0], fb) if not (isinstance(ka, tuple) and ka and ka[0] == "disp") else \
                (b[0], a[0], fa)
            try:
                g = AF(fa.m & fb.m, fa.f & fb.f, fa.l & fb.l, max(fa.min, fb.min), fa.one or fb.one)
                y.subst(src, (dst,))
                y.set_af(dst, g)
                alts.append(y)
            except Infeasible:
                pass
        else:
            y.note("equality of two printed numbers")
            alts.append(y)
        raise Fork(alts, "same")
    y, n = st.copy(), st.copy()
    y.d["same", a, b] = True
    n.d["same", a, b] = False
    y.note("undecided string equality")
    n.note("undecided string equality")
    raise Fork([n, y], "same")


def not_equal(st, a, b):
    """certainly different: first/last characters or lengths disagree"""
    def first(s):
        m = 0
        for x in s:
            if isinstance(x, str):
                return m | 1 << cls(x[0])
            f = st.af(x)
            m |= f.f
            if f.min:
                return m
        return m | "end" if False else (m, True)
    fa, fb = first(a), first(b)
    ma, ea = fa if isinstance(fa, tuple) else (fa, False)
    mb, eb = fb if isinstance(fb, tuple) else (fb, False)
    return not (ma & mb) and not (ea and eb)


# ---------------------------------------------------------------- numbers
def parse_num(ex, st, s, ty, kind):
    """Ok value or None; kind ('int', lo, hi) or ('dec',)"""
    s = st.norm(s)
    if all(isinstance(x, str) for x in s):
        t = "".join(s)
        if kind[0] == "int":
            return parse_int_text(t, kind[1], kind[2])
        r = parse_dec_text(t)
        if r == "?":
            raise Unsupported("decimal literal %r" % t)
        if r is None:
            return None
        return dec_const(ex, t, ty)
    w = st.whole(s)
    if w is not None:
        k = w
        if isinstance(k, tuple) and k and k[0] == "disp" and k[1] in ("int", "dec"):
            if k[1] == "int" and kind[0] == "int":
                v = st.simp(k[2])
                return v if ex.in_range(st, v, kind[1], kind[2]) else None
            if kind[0] == "dec":
                return k[2]
    r = num_decided(st, s, kind)
    key = ("num", s) if kind[0] == "int" else ("dec", s)
    if r is None:
        alts = []
        for want in (True, False):
            y = st.copy()
            try:
                assume_num(ex, y, s, ty, kind, want)
                alts.append(y)
            except Infeasible:
                pass
        raise Fork(alts, "parse")
    if not r:
        return None
    return Sym(key, ty)


def num_decided(st, s, kind):
    """does the text parse as a number of this kind, as far as the state knows"""
    r = parse_decide(st, s, kind)
    if r is None:
        for (kk, ss, arg, want) in st.cons:
            if kk == "parse" and ss == s and arg[0] == kind[0]:
                if kind[0] == "dec":
                    r = want
                elif want and arg[1] >= kind[1] and arg[2] <= kind[2]:
                    r = True
                elif not want and arg[1] <= kind[1] and arg[2] >= kind[2]:
                    r = False
    return r


def first_mask(st, s):
    m = 0
    for x in st.norm(s):
        if isinstance(x, str):
            return m | 1 << cls(x[0])
        f = st.af(x)
        m |= f.f
        if f.min:
            return m
    return m


def assume_num(ex, y, s, ty, kind, want):
    key = ("num", s) if kind[0] == "int" else ("dec", s)
    if not want:
        y.require("parse", s, kind, False)
        return
    m = INTCH if kind[0] == "int" else DECIN
    lastm = DIGIT if kind[0] == "int" else DIGIT | mask("._")
    y.require("parse", s, kind, True)
    for i, x in enumerate(s):
        if isinstance(x, str):
            if any(not m >> cls(c) & 1 for c in x):
                raise Infeasible()
            continue
        f = y.af(x)
        y.set_af(x, AF(f.m & m, f.f & m, f.l & (lastm if i == len(s) - 1 else m),
                       max(f.min, 1 if len(s) == 1 else 0), f.one))
    if kind[0] == "int":
        sym = Sym(key, ty)
        lo, hi = y.interval(sym) if ("iv", key) in y.d else (kind[1], kind[2])
        if not first_mask(y, s) >> cls("-") & 1:
            lo = max(lo, 0)
        y.set_iv(sym, max(lo, kind[1]), min(hi, kind[2]), y.excl(sym))


def dec_const(ex, t, ty):
    x = t.replace("_", "").lstrip("+")
    neg = x.startswith("-")
    x = x.lstrip("-")
    if "." not in x:
        v = int(x)
        return -v if neg else v
    a, b = x.split(".")
    b2 = b.rstrip("0")
    if not b2 and not b:
        v = int(a or "0")
        return -v if neg else v
    return Sym(("decc", ("-" if neg else "") + (a.lstrip("0") or "0") + "." + b), ty)


# ---------------------------------------------------------------- display
def disp(ex, st, ty, v):
    """text of a Display implementation: outcomes whose value is a segment tuple"""
    t = ex.T[ty]
    while t["k"] == "ref" or ex.kind[ty] == "box":
        v = ex.deref1(st, v)
        ty = t["e"] if t["k"] == "ref" else t["args"][0]
        t = ex.T[ty]
    k = ex.kind[ty]
    v = ex.deref(st, v)
    if k == "str":
        return [("ret", st.norm(v.s) if isinstance(v, Str) else (Atom(("disp", "leaf", v, ty)),), st)]
    if k == "char":
        return [("ret", st.norm((v,)), st)]
    if k == "bool":
        return [("ret", ("true" if ex.truth(st, v) else "false",), st)]
    if k in ("int", "nonzero"):
        v = st.simp(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return [("ret", (str(v),), st)]
        return [("ret", (Atom(("disp", "int", v)),), st)]
    if t.get("name") == "rust_decimal::Decimal":
        v = st.simp(v)
        if isinstance(v, int):
            return [("ret", (str(v),), st)]
        if isinstance(v, Sym) and isinstance(v.k, tuple) and v.k[0] == "decc":
            return [("ret", (v.k[1],), st)]
        if isinstance(v, Sym) and isinstance(v.k, tuple) and v.k[0] == "decs" and isinstance(v.k[1], int) and isinstance(v.k[2], int) and 0 < v.k[2] < 29:
            d = str(abs(v.k[1])).rjust(v.k[2] + 1, "0")
            return [("ret", (("-" if v.k[1] < 0 else "") + d[:-v.k[2]] + "." + d[-v.k[2]:],), st)]
        if isinstance(v, Sym) and ex.T[v.ty]["k"] == "int":
            return [("ret", (Atom(("disp", "int", v)),), st)]
        return [("ret", (Atom(("disp", "dec", v)),), st)]
    if t.get("name") == "either::Either":
        if isinstance(v, Sym) and isinstance(v.k, tuple) and v.k[0] == "ld":
            return [("ret", st.norm((printed_ld(st, v),)), st)]
        a = ex.resolve(st, v)
        return disp(ex, st, ex.T[ty]["variants"][a.v]["f"][0][1], a.f[0])
    m = ex.method("std::fmt::Display", "fmt", ty)
    if m is not None and m in ex.opaque_disp:
        return [("ret", (Atom(("disp", "leaf", v, ty)),), st)]
    if m is not None and ex.F.fns[m].get("body"):
        c = st.alloc(Str(()))
        outs = []
        fm = ex.F.fns[m]
        for kk, r, s in ex.call(st, m, [RefV(v), MutRef(c)], fm["body"]["locals"][0]):
            if kk == "ret":
                buf = s.d.pop(("h", c))
                outs.append(("ret", s.norm(buf.s), s))
            else:
                outs.append((kk, r, s))
        return outs
    if k == "dyn":
        if isinstance(v, (Adt, Sym)) and v.ty != ty and ex.kind[v.ty] != "dyn":
            return disp(ex, st, v.ty, v)
        if not isinstance(v, (Adt, Sym)):
            st.note("text behind dyn")
    a = Atom(("disp", "leaf", v, ty))
    if k not in ("opaque", "dyn"):
        st.note("text of " + ex.tname(ty))
    return [("ret", (a,), st)]


def printed_ld(st, v):
    """text of a decimal that may be a number or kept text"""
    return Atom(("disp", "ld", v)) if st.norm(v.k[1]) else ""


def render(ex, st, fmt):
    """concatenate the pieces of format arguments"""
    outs = [("ret", (), st)]
    for p in fmt.p:
        if isinstance(p, str):
            outs = [(k, v + (p,) if k == "ret" else v, s) for k, v, s in outs]
        else:
            ty, val = p
            outs = chain(ex, outs, lambda acc, s: [(k, acc + tuple(x) if k == "ret" else x, s2)
                                                   for k, x, s2 in disp(ex, s, ty, val)])
    return [(k, s.norm(v) if k == "ret" else v, s) for k, v, s in outs]


# ---------------------------------------------------------------- iterators
END = object()


def iter_of(ex, st, v):
    """iterator over a value passed to IntoIterator"""
    w = v
    byref = False
    while isinstance(w, (RefV, MutRef)):
        if isinstance(w, MutRef):
            x = ex.read_cell(st, w)
            if isinstance(x, It) or isinstance(x, Adt) and is_range(ex, x):
                return w
            if isinstance(x, (RefV, MutRef)):
                w = x
                continue
            if isinstance(x, Seq):
                return It("mutseq", w, 0)
            w = x
            byref = True
        else:
            w = w.v
            byref = True
    if isinstance(w, It):
        return w
    if isinstance(w, Seq):
        return It("seq", w, byref)
    if isinstance(w, Adt):
        if is_range(ex, w):
            return w
        t = ex.T[w.ty]
        if t.get("name") == "std::option::Option":
            return It("seq", Seq((w.f[0],) if w.v == 1 else ()), byref)
        if t.get("name") == "std::result::Result":
            return It("seq", Seq((w.f[0],) if w.v == 0 else ()), byref)
    if isinstance(w, Sym) and ex.T[w.ty].get("name") in ("std::option::Option", "std::result::Result"):
        return iter_of(ex, st, RefV(ex.expand(st, w)) if byref else ex.expand(st, w))
    raise Unsupported("iteration over %r" % (w,))


def is_range(ex, w):
    return ex.T[w.ty].get("name") in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom")


def nxt(ex, st, it):
    """outcomes ('ret', (item or END, iterator afterwards), st) or other kinds"""
    if isinstance(it, MutRef):
        cur = ex.read_cell(st, it)
        outs = []
        for k, v, s in nxt(ex, st, cur):
            if k == "ret":
                ex.write_cell(s, it, v[1])
                outs.append((k, (v[0], it), s))
            else:
                outs.append((k, v, s))
        return outs
    if isinstance(it, RefV):
        return nxt(ex, st, it.v)
    if isinstance(it, Adt) and is_range(ex, it):
        a, b = st.simp(it.f[0]), st.simp(it.f[1]) if len(it.f) > 1 else None
        nm = ex.T[it.ty]["name"]
        if nm == "std::ops::RangeInclusive" and it.f[2] is True:
            return [("ret", (END, it), st)]
        if b is not None:
            ex.sized_by(st, b, "loop over a range")
            more = ex.cmp(st, "Lt" if nm == "std::ops::Range" else "Le", a, b)
            if not more:
                return [("ret", (END, it), st)]
        f = (ladd(a, 1),) + tuple(it.f[1:])
        if nm == "std::ops::RangeInclusive" and a == b:
            f = (a, b, True)
        return [("ret", (a, Adt(it.ty, it.v, f)), st)]
    if not isinstance(it, It):
        raise Unsupported("next of %r" % (it,))
    k, a = it.kind, it.a
    if k == "seq":
        q = ex.norm_seq(st, a[0])
        if not q.it:
            if q.tail is None:
                return [("ret", (END, it), st)]
            ex.need_item(st, q)
        x = q.it[0]
        return [("ret", (RefV(x) if a[1] else x, It("seq", Seq(q.it[1:], q.tail), a[1])), st)]
    if k == "mutseq":
        q = ex.norm_seq(st, ex.read_cell(st, a[0]))
        if a[1] >= len(q.it):
            if q.tail is None:
                return [("ret", (END, it), st)]
            ex.need_item(st, q)
        return [("ret", (MutRef(a[0].c, a[0].p + (("i", a[1]),)), It("mutseq", a[0], a[1] + 1)), st)]
    if k == "chars":
        r = next_char(ex, st, a[0])
        if r is None:
            return [("ret", (END, It("chars", ())), st)]
        return [("ret", (r[0], It("chars", r[1])), st)]
    if k == "char_indices":
        r = next_char(ex, st, a[0])
        if r is None:
            return [("ret", (END, it), st)]
        ln = st.blen((r[0],))
        return [("ret", (Adt(a[2], 0, (a[1], r[0])), It("char_indices", r[1], st.simp(ladd(a[1], ln)), a[2])), st)]
    if k == "lines":
        if a[1] > 2 * ex.K:
            ex.cut("more than %d lines" % (2 * ex.K))
            return []
        r = next_line(ex, st, a[0])
        if r is None:
            return [("ret", (END, It("lines", (), 0)), st)]
        known = all(isinstance(x, str) for x in st.norm(r[0]))
        return [("ret", (refstr(r[0]), It("lines", r[1], a[1] + (0 if known else 1))), st)]
    if k == "split":
        s, pat, done, n, limit = a
        if done:
            return [("ret", (END, it), st)]
        if n > 4 * ex.K:
            ex.cut("more than %d split pieces" % (4 * ex.K))
            return []
        if limit is not None and n + 1 >= limit:
            return [("ret", (refstr(s), It("split", (), pat, True, n + 1, limit)), st)]
        r = find(ex, st, s, pat)
        if r is None:
            return [("ret", (refstr(st.norm(s)), It("split", (), pat, True, n + 1, limit)), st)]
        pre, rest = r
        rest = drop_pat(ex, st, rest, pat)
        return [("ret", (refstr(pre), It("split", rest, pat, False, n + 1, limit)), st)]
    if k in ("split_incl", "split_term"):
        s, pat, n = a
        if ask_empty(st, s):
            return [("ret", (END, It(k, (), pat, n)), st)]
        if n > 4 * ex.K:
            ex.cut("more than %d split pieces" % (4 * ex.K))
            return []
        r = find(ex, st, s, pat)
        if r is None:
            return [("ret", (refstr(st.norm(s)), It(k, (), pat, n + 1)), st)]
        rest = drop_pat(ex, st, r[1], pat)
        pre = r[0] if k == "split_term" else r[0] + pat_text(ex, st, r[1], pat)
        return [("ret", (refstr(st.norm(pre)), It(k, rest, pat, n + 1)), st)]
    if k == "rsplit":
        s, pat, done, n, limit = a
        if done:
            return [("ret", (END, it), st)]
        if n > 4 * ex.K:
            ex.cut("more than %d split pieces" % (4 * ex.K))
            return []
        r = None if limit is not None and n + 1 >= limit else find_last(ex, st, s, pat)
        if r is None:
            return [("ret", (refstr(st.norm(s)), It(k, (), pat, True, n + 1, limit)), st)]
        return [("ret", (refstr(drop_pat(ex, st, r[1], pat)), It(k, r[0], pat, False, n + 1, limit)), st)]
    if k == "step_by":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], a[1], a[2])), s)]
            return [("ret", (v[0], It(k, It("skip", v[1], a[1] - 1), a[1], a[2])), s)]
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "inspect":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], a[1], a[2])), s)]
            return chain(ex, ex.call_value(s, a[1], [RefV(v[0])], a[2]),
                         lambda _, s2: [("ret", (v[0], It(k, v[1], a[1], a[2])), s2)])
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "from_fn":
        def m(r, s):
            r = ex.resolve(s, r)
            return [("ret", (r.f[0] if r.v == 1 else END, it), s)]
        return chain(ex, ex.call_value(st, a[0], [], a[1]), m)
    if k == "successors":
        r = ex.resolve(st, a[0])
        if r.v == 0:
            return [("ret", (END, it), st)]
        return chain(ex, ex.call_value(st, a[1], [RefV(r.f[0])], a[2]),
                     lambda n, s: [("ret", (r.f[0], It(k, n, a[1], a[2])), s)])
    if k == "repeat":
        return [("ret", (a[0], it), st)]
    if k == "scan":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], *a[1:])), s)]

            def after(r, s2):
                r = ex.resolve(s2, r)
                return [("ret", (r.f[0] if r.v == 1 else END, It(k, v[1], *a[1:])), s2)]
            return chain(ex, ex.call_value(s, a[2], [a[1], v[0]], a[3]), after)
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "matches":
        s, pat, n, dty = a
        if n > 4 * ex.K and not all(isinstance(x, str) for x in st.norm(s)):
            ex.cut("more than %d matches" % (4 * ex.K))
            return []
        r = find(ex, st, s, pat)
        if r is None:
            return [("ret", (END, It("matches", (), pat, 0, dty)), st)]
        pre, rest = r
        after = drop_pat(ex, st, rest, pat)
        if pat[0] == "cls":
            m = refstr((next_char(ex, st, rest)[0],))
        else:
            m = refstr((pat[1],))
        if dty is not None:
            raise Unsupported("match_indices")
        return [("ret", (m, It("matches", after, pat, n + 1, dty)), st)]
    if k == "split_ws":
        r = find_class(st, a[0], ALL & ~WS)
        if r is None:
            return [("ret", (END, It("split_ws", (), a[1])), st)]
        if a[1] > 4 * ex.K:
            ex.cut("more than %d words" % (4 * ex.K))
            return []
        rest = r[1]
        e = find_class(st, rest, WS)
        if e is None:
            return [("ret", (refstr(rest), It("split_ws", (), a[1] + 1)), st)]
        return [("ret", (refstr(e[0]), It("split_ws", e[1], a[1] + 1)), st)]
    if k == "map":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It("map", v[1], a[1], a[2])), s)]
            return [(kk, (x, It("map", v[1], a[1], a[2])) if kk == "ret" else x, s2)
                    for kk, x, s2 in ex.call_value(s, a[1], [v[0]], a[2])]
        return chain(ex, nxt(ex, st, a[0]), m)
    if k in ("filter", "filter_map", "take_while", "skip_while", "map_while"):
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], *a[1:])), s)]
            arg = v[0] if k in ("filter_map", "map_while") else RefV(v[0])

            def after(r, s2):
                if k in ("filter_map", "map_while"):
                    r = ex.resolve(s2, r)
                    if r.v == 1:
                        return [("ret", (r.f[0], It(k, v[1], *a[1:])), s2)]
                    if k == "map_while":
                        return [("ret", (END, It("seq", Seq(()), False)), s2)]
                    return nxt(ex, s2, It(k, v[1], *a[1:]))
                t = ex.truth(s2, r)
                if k == "filter":
                    return [("ret", (v[0], It(k, v[1], *a[1:])), s2)] if t else nxt(ex, s2, It(k, v[1], *a[1:]))
                if k == "take_while":
                    return [("ret", (v[0], It(k, v[1], *a[1:])), s2)] if t else \
                        [("ret", (END, It("seq", Seq(()), False)), s2)]
                if t:
                    return nxt(ex, s2, It(k, v[1], *a[1:]))
                return [("ret", (v[0], v[1]), s2)]
            return chain(ex, ex.call_value(s, a[1], [arg], a[2]), after)
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "enumerate":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], a[1], a[2])), s)]
            return [("ret", (Adt(a[2], 0, (a[1], v[0])), It(k, v[1], ladd(a[1], 1), a[2])), s)]
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "take":
        n = st.simp(a[1])
        if not isinstance(n, int):
            if ex.cmp(st, "Le", n, 0):
                return [("ret", (END, it), st)]
        elif n <= 0:
            return [("ret", (END, it), st)]
        return chain(ex, nxt(ex, st, a[0]), lambda v, s: [("ret", (v[0], It(k, v[1], lsub(n, 1))), s)])
    if k == "skip":
        n = st.simp(a[1])
        if isinstance(n, int) and n <= 0:
            return chain(ex, nxt(ex, st, a[0]), lambda v, s: [("ret", (v[0], It(k, v[1], 0)), s)])
        if not isinstance(n, int) and ex.cmp(st, "Le", n, 0):
            return chain(ex, nxt(ex, st, a[0]), lambda v, s: [("ret", (v[0], It(k, v[1], 0)), s)])

        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], 0)), s)]
            return nxt(ex, s, It(k, v[1], lsub(n, 1)))
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "rev":
        return chain(ex, nxt_back(ex, st, a[0]), lambda v, s: [("ret", (v[0], It("rev", v[1])), s)])
    if k == "cloned":
        return chain(ex, nxt(ex, st, a[0]), lambda v, s: [("ret", (v[0] if v[0] is END else ex.deref1(s, v[0]),
                                                                  It(k, v[1])), s)])
    if k == "zip":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], a[1], a[2])), s)]

            def m2(w, s2):
                if w[0] is END:
                    return [("ret", (END, It(k, v[1], w[1], a[2])), s2)]
                return [("ret", (Adt(a[2], 0, (v[0], w[0])), It(k, v[1], w[1], a[2])), s2)]
            return chain(ex, nxt(ex, s, a[1]), m2)
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "chain":
        if a[0] is None:
            return chain(ex, nxt(ex, st, a[1]), lambda v, s: [("ret", (v[0], It(k, None, v[1])), s)])

        def m(v, s):
            if v[0] is END:
                return chain(ex, nxt(ex, s, a[1]), lambda w, s2: [("ret", (w[0], It(k, None, w[1])), s2)])
            return [("ret", (v[0], It(k, v[1], a[1])), s)]
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "flatten":
        if a[1] is not None:
            def m(v, s):
                if v[0] is END:
                    return nxt(ex, s, It(k, a[0], None))
                return [("ret", (v[0], It(k, a[0], v[1])), s)]
            return chain(ex, nxt(ex, st, a[1]), m)

        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It(k, v[1], None)), s)]
            return nxt(ex, s, It(k, v[1], iter_of(ex, s, v[0])))
        return chain(ex, nxt(ex, st, a[0]), m)
    if k == "peek":
        if a[1] is not None:
            return [("ret", (a[1].a[0] if a[1].kind == "some" else END, It(k, a[0], None)), st)]
        return chain(ex, nxt(ex, st, a[0]), lambda v, s: [("ret", (v[0], It(k, v[1], None)), s)])
    raise Unsupported("iterator " + k)


def drop_pat(ex, st, rest, pat):
    """the text after the pattern occurrence at the start of rest"""
    if pat[0] == "cls":
        r = next_char(ex, st, rest)
        return r[1]
    x = rest[0]
    n = len(pat[1])
    return ((x[n:],) if len(x) > n else ()) + tuple(rest[1:])


def pat_text(ex, st, rest, pat):
    """the pattern occurrence at the start of rest"""
    return (next_char(ex, st, rest)[0],) if pat[0] == "cls" else (pat[1],)


def behind(st, s, head):
    """what follows the front part head of the text s"""
    s, head = list(st.norm(s)), list(st.norm(head))
    while head:
        x, y = s[0], head.pop(0)
        if x == y:
            s.pop(0)
        elif isinstance(x, str) and isinstance(y, str) and x.startswith(y):
            s[0] = x[len(y):]
        else:
            raise Unsupported("text behind a front part")
    return tuple(s)


def find_last(ex, st, s, pat):
    """(before, from the last occurrence on) or None"""
    s = st.norm(s)
    if pat[0] == "str":
        if all(isinstance(x, str) for x in s):
            t = "".join(s)
            i = t.rfind(pat[1])
            return None if i < 0 else (((t[:i],) if i else ()), (t[i:],) if t[i:] else ())
        raise Unsupported("last occurrence of a literal")
    if pat[0] != "cls":
        raise Unsupported("search for unknown text")
    h = rfind_edge(st, s, ALL & ~pat[1])
    if ask_empty(st, h):
        return None
    h = st.norm(h)
    c, pre = last_char(ex, st, h)
    return pre, st.norm((c,) + behind(st, s, h))


def nxt_back(ex, st, it):
    if isinstance(it, MutRef):
        outs = []
        for k, v, s in nxt_back(ex, st, ex.read_cell(st, it)):
            if k == "ret":
                ex.write_cell(s, it, v[1])
                outs.append((k, (v[0], it), s))
            else:
                outs.append((k, v, s))
        return outs
    if isinstance(it, It) and it.kind == "seq":
        q = ex.whole_seq(st, it.a[0])
        if not q.it:
            return [("ret", (END, it), st)]
        x = q.it[-1]
        return [("ret", (RefV(x) if it.a[1] else x, It("seq", Seq(q.it[:-1]), it.a[1])), st)]
    if isinstance(it, It) and it.kind == "chars":
        r = last_char(ex, st, it.a[0])
        if r is None:
            return [("ret", (END, it), st)]
        return [("ret", (r[0], It("chars", r[1])), st)]
    if isinstance(it, Adt) and is_range(ex, it):
        a, b = st.simp(it.f[0]), st.simp(it.f[1])
        if isinstance(a, int) and isinstance(b, int):
            if ex.T[it.ty]["name"] == "std::ops::Range":
                if a >= b:
                    return [("ret", (END, it), st)]
                return [("ret", (b - 1, Adt(it.ty, it.v, (a, b - 1))), st)]
            if it.f[2] is True or a > b:
                return [("ret", (END, it), st)]
            f = (a, b, True) if a == b else (a, b - 1, False)
            return [("ret", (b, Adt(it.ty, it.v, f)), st)]
    if isinstance(it, It) and it.kind == "map":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It("map", v[1], it.a[1], it.a[2])), s)]
            return [(kk, (x, It("map", v[1], it.a[1], it.a[2])) if kk == "ret" else x, s2)
                    for kk, x, s2 in ex.call_value(s, it.a[1], [v[0]], it.a[2])]
        return chain(ex, nxt_back(ex, st, it.a[0]), m)
    if isinstance(it, It) and it.kind == "enumerate":
        items_outs = drain(ex, st, it, lambda acc, x, s: [("ret", acc + (x,), s)], ())
        return chain(ex, items_outs, lambda acc, s: [("ret", (END, It("seq", Seq(()), False)), s)] if not acc else
                     [("ret", (acc[-1], It("seq", Seq(acc[:-1]), False)), s)])
    if isinstance(it, It) and it.kind == "rev":
        return chain(ex, nxt(ex, st, it.a[0]), lambda v, s: [("ret", (v[0], It("rev", v[1])), s)])
    if isinstance(it, It) and it.kind == "split" and it.a[4] is None:
        t, pat, done, n, _ = it.a
        if done:
            return [("ret", (END, it), st)]
        if n > 4 * ex.K:
            ex.cut("more than %d split pieces" % (4 * ex.K))
            return []
        r = find_last(ex, st, t, pat)
        if r is None:
            return [("ret", (refstr(st.norm(t)), It("split", (), pat, True, n + 1, None)), st)]
        return [("ret", (refstr(drop_pat(ex, st, r[1], pat)), It("split", r[0], pat, False, n + 1, None)), st)]
    if isinstance(it, It) and it.kind == "cloned":
        return chain(ex, nxt_back(ex, st, it.a[0]), lambda v, s: [("ret", (v[0] if v[0] is END else ex.deref1(s, v[0]),
                                                                           It("cloned", v[1])), s)])
    if isinstance(it, It) and it.kind == "filter":
        def m(v, s):
            if v[0] is END:
                return [("ret", (END, It("filter", v[1], *it.a[1:])), s)]
            return chain(ex, ex.call_value(s, it.a[1], [RefV(v[0])], it.a[2]),
                         lambda r, z: [("ret", (v[0], It("filter", v[1], *it.a[1:])), z)] if ex.truth(z, r)
                         else nxt_back(ex, z, It("filter", v[1], *it.a[1:])))
        return chain(ex, nxt_back(ex, st, it.a[0]), m)
    if isinstance(it, It) and it.kind == "chain":
        def m(v, s):
            if v[0] is END and it.a[0] is not None:
                return chain(ex, nxt_back(ex, s, it.a[0]), lambda w, z: [("ret", (w[0], It("chain", w[1], v[1])), z)])
            return [("ret", (v[0], It("chain", it.a[0], v[1])), s)]
        return chain(ex, nxt_back(ex, st, it.a[1]), m)
    if isinstance(it, It) and it.kind in ("lines", "zip", "split_incl", "split_term", "split_ws", "skip", "take"):
        items_outs = drain(ex, st, it, lambda acc, x, s: [("ret", acc + (x,), s)], ())
        return chain(ex, items_outs, lambda acc, s: [("ret", (END, It("seq", Seq(()), False)), s)] if not acc else
                     [("ret", (acc[-1], It("seq", Seq(acc[:-1]), False)), s)])
    raise Unsupported("next_back of %r" % (it,))


class Brk:
    """early exit value of a drained loop"""

    def __init__(self, v):
        self.v = v


def drain(ex, st, it, step, acc):
    """fold an iterator: step(acc, item, st) -> outcomes with a new acc (Brk(v) stops);
    outcomes of the final acc"""
    res = []
    work = [(acc, it, st)]
    n = 0
    while work:
        a, i, s = work.pop()
        n += 1
        if n > ex.max_outs:
            raise eng.Stop("iteration limit")
        for k, v, s2 in ex.split(s, lambda x: nxt(ex, x, i)):
            if k != "ret":
                res.append((k, v, s2))
                continue
            item, i2 = v
            if item is END:
                res.append(("ret", a, s2))
                continue
            for kk, a2, s3 in ex.split(s2, lambda x: step(a, item, x)):
                if kk != "ret":
                    res.append((kk, a2, s3))
                elif isinstance(a2, Brk):
                    res.append(("ret", BrkAt(a2.v, i2), s3))
                else:
                    work.append((a2, i2, s3))
    return res


class BrkAt:
    def __init__(self, v, it):
        self.v, self.it = v, it


def ret_ty_of(ex, st, f):
    """result type of calling a function value"""
    v = f
    while isinstance(v, (RefV, MutRef)):
        v = v.v if isinstance(v, RefV) else ex.read_cell(st, v)
    inst = None
    if isinstance(v, FnV) or isinstance(v, Adt):
        inst = ex.T[v.ty].get("inst")
    if inst is None or not ex.F.fns[inst].get("body"):
        return None
    return ex.F.fns[inst]["body"]["locals"][0]


def tuple_item_ty(ex, dty, pred):
    """a tuple type id for (usize, X) items; the id only labels the value"""
    return dty


# ---------------------------------------------------------------- installation
def install(ex):
    M = ex.models
    F = ex.F
    T = ex.T
    rx = []

    def model(*paths):
        def d(fn):
            for p in paths:
                if p.startswith("re:"):
                    rx.append((re.compile(p[3:]), fn))
                else:
                    M[p] = fn
            return fn
        return d

    STR = r"re:^(core|std|alloc)::str::<impl str>::%s$"
    VEC = r"re:^(std|alloc)::vec::Vec::<T(, A)?>::%s$"
    SL = r"re:^(core|std|alloc)::slice::<impl \[T\]>::%s$"
    STRING = r"re:^(std|alloc)::string::String::%s$"

    def out(l):
        return Outs(l)

    # ---- strings: conversions
    def conv(ex, st, a, f, dty):
        v = ex.deref(st, a[0])
        if isinstance(v, (str, Atom)):
            v = Str((v,))
        if not isinstance(v, Str):
            return NotImplemented
        return RefV(v) if T[dty]["k"] == "ref" else v
    for p in ("<std::string::String as std::clone::Clone>::clone", "<std::path::PathBuf as std::clone::Clone>::clone",
              "<T as std::borrow::ToOwned>::to_owned", "std::str::<impl std::borrow::ToOwned for str>::to_owned",
              "<std::path::Path as std::borrow::ToOwned>::to_owned", "std::path::Path::to_path_buf",
              "<std::path::PathBuf as std::convert::From<&T>>::from",
              "<std::path::PathBuf as std::convert::From<std::string::String>>::from",
              "<std::string::String as std::ops::Deref>::deref", "<std::path::PathBuf as std::ops::Deref>::deref",
              "<std::borrow::Cow<'_, B> as std::ops::Deref>::deref", "std::path::Path::display",
              "std::path::Path::to_string_lossy", "std::ffi::OsStr::to_string_lossy",
              "<std::path::Path as std::convert::AsRef<std::path::Path>>::as_ref",
              "std::path::<impl std::convert::AsRef<std::path::Path> for str>::as_ref",
              "std::ffi::os_str::<impl std::convert::AsRef<std::ffi::OsStr> for str>::as_ref",
              "std::str::<impl std::borrow::Borrow<str> for std::string::String>::borrow",
              "std::path::Path::as_os_str", "std::path::Path::new", "std::string::String::as_str",
              "std::string::String::into_boxed_str"):
        M[p] = conv
    model(r"re:^<std::string::String as std::convert::(From|AsRef)<", r"re:^<std::(path::PathBuf|path::Path|string::String|ffi::OsStr|ffi::OsString) as "
          r"std::(convert::(From|AsRef|Into)|borrow::(Borrow|ToOwned)|ops::Deref|clone::Clone)\b.*>::\w+$",
          r"re:<impl std::convert::AsRef<.*> for (str|std::string::String|std::path::PathBuf|std::borrow::Cow.*)>::as_ref$",
          r"re:^<std::borrow::Cow<.*> as std::(convert::(From|AsRef)|ops::Deref|clone::Clone)\b", r"re:^std::borrow::Cow::<.*>::into_owned$",
          r"re:^(core|std)::str::<impl str>::(to_owned|into_string|as_str)$", STR % "to_string",
          r"re:^<str as .*ToOwned>::to_owned$", r"re:<impl std::convert::From<.*> for std::borrow::Cow.*>::from$")(conv)

    @model("std::path::Path::to_str", "std::ffi::OsStr::to_str")
    def to_str(ex, st, a, f, dty):
        st.note("path assumed to be UTF-8")
        return opt(dty, RefV(ex.deref(st, a[0])))

    @model(STR % "as_bytes", STRING % "as_bytes", "<&'a str as nom::AsBytes>::as_bytes", STRING % "into_bytes")
    def as_bytes(ex, st, a, f, dty):
        return RefV(ex.deref(st, a[0]))

    @model(r"re:^<T as std::string::(ToString|SpecToString)>::(to_string|spec_to_string)$",
           r"re:^<.* as std::string::ToString>::to_string$", r"re:^std::string::ToString::to_string$")
    def to_string(ex, st, a, f, dty):
        ty = f["args"][0]
        return out([(k, mkstr(v) if k == "ret" else v, s) for k, v, s in disp(ex, st, ty, a[0])])

    # ---- strings: queries
    @model(STR % "is_empty", STRING % "is_empty")
    def s_empty(ex, st, a, f, dty):
        return ask_empty(st, segs(ex, st, a[0]))

    @model(STR % "len", STRING % "len", "<&'a str as nom::InputLength>::input_len")
    def s_len(ex, st, a, f, dty):
        return st.blen(segs(ex, st, a[0]))

    @model(STR % "trim", STR % "trim_start", STR % "trim_end", STR % "trim_left", STR % "trim_right")
    def trim(ex, st, a, f, dty):
        s = segs(ex, st, a[0])
        n = f["path"]
        if not n.endswith(("trim_end", "trim_right")):
            s = trim_front(st, s, WS)
        if not n.endswith(("trim_start", "trim_left")):
            s = rfind_edge(st, s, WS)
        return refstr(s)

    @model(STR % "(trim_matches|trim_start_matches|trim_end_matches)")
    def trimm(ex, st, a, f, dty):
        s = segs(ex, st, a[0])
        p = pattern(ex, st, a[1])
        n = f["path"]
        if p[0] != "cls":
            if n.endswith("trim_matches"):
                raise Unsupported("trim_matches with a string")
            if p[0] == "segs" and len(p[1]) == 0 or p[0] == "str" and not p[1]:
                return refstr(s)
            for _ in range(4 * ex.K):
                s = st.norm(s)
                if n.endswith("trim_start_matches"):
                    if not starts(ex, st, s, p):
                        return refstr(s)
                    if p[0] == "segs":
                        s = s[len(p[1]):]
                    else:
                        s = take_prefix(st, s, len(p[1].encode()))[1]
                else:
                    if not ends(ex, st, s, p):
                        return refstr(s)
                    if p[0] == "segs":
                        s = s[:len(s) - len(p[1])]
                    else:
                        for _ in p[1]:
                            s = last_char(ex, st, s)[1]
            ex.cut("text trimmed many times")
            raise Infeasible()
        if not n.endswith("trim_end_matches"):
            s = trim_front(st, s, p[1])
        if not n.endswith("trim_start_matches"):
            s = rfind_edge(st, s, p[1])
        return refstr(s)

    @model(STR % "starts_with")
    def starts_with(ex, st, a, f, dty):
        return starts(ex, st, segs(ex, st, a[0]), pattern(ex, st, a[1]))

    @model(STR % "ends_with")
    def ends_with(ex, st, a, f, dty):
        return ends(ex, st, segs(ex, st, a[0]), pattern(ex, st, a[1]))

    @model(STR % "strip_prefix")
    def strip_prefix(ex, st, a, f, dty):
        s = segs(ex, st, a[0])
        p = pattern(ex, st, a[1])
        if not starts(ex, st, s, p):
            return opt(dty)
        s = st.norm(s)
        if p[0] == "segs":
            return opt(dty, refstr(s[len(p[1]):]))
        n = 1 if p[0] == "cls" else len(p[1])
        if isinstance(s[0], str) and len(s[0]) >= n:
            return opt(dty, refstr(((s[0][n:],) if len(s[0]) > n else ()) + s[1:]))
        if p[0] == "cls":
            return opt(dty, refstr(next_char(ex, st, s)[1]))
        if n == 0:
            return opt(dty, refstr(s))
        r = take_prefix(st, s, len(p[1].encode()))
        return opt(dty, refstr(r[1]))

    @model(STR % "strip_suffix", "<&'b str as std::str::pattern::Pattern>::strip_suffix_of")
    def strip_suffix(ex, st, a, f, dty):
        if f["path"].endswith("strip_suffix_of"):
            a = [a[1], a[0]]
        s = segs(ex, st, a[0])
        p = pattern(ex, st, a[1])
        if not ends(ex, st, s, p):
            return opt(dty)
        if p[0] == "segs":
            return opt(dty, refstr(st.norm(s)[:len(st.norm(s)) - len(p[1])]))
        n = 1 if p[0] == "cls" else len(p[1])
        for _ in range(n):
            s = last_char(ex, st, s)[1]
        return opt(dty, refstr(s))

    @model(STR % "contains")
    def contains(ex, st, a, f, dty):
        s, p = segs(ex, st, a[0]), pattern(ex, st, a[1])
        if p[0] == "segs":
            if s == p[1]:
                return True
            k = ("in text", s, p[1])
            r = st.d.get(k)
            if r is None:
                x, y = st.copy(), st.copy()
                x.d[k], y.d[k] = True, False
                for z in (x, y):
                    z.note("search for unknown text")
                raise Fork([x, y], "search for unknown text")
            return r
        return find(ex, st, s, p) is not None

    @model(STR % "find", "<&'a str as nom::FindSubstring<&'b str>>::find_substring")
    def s_find(ex, st, a, f, dty):
        r = find(ex, st, segs(ex, st, a[0]), pattern(ex, st, a[1]))
        return opt(dty) if r is None else opt(dty, st.blen(r[0]))

    @model(STR % "rfind")
    def s_rfind(ex, st, a, f, dty):
        r = find_last(ex, st, segs(ex, st, a[0]), pattern(ex, st, a[1]))
        return opt(dty) if r is None else opt(dty, st.blen(r[0]))

    @model(STR % "rsplit_once")
    def rsplit_once(ex, st, a, f, dty):
        p = pattern(ex, st, a[1])
        r = find_last(ex, st, segs(ex, st, a[0]), p)
        if r is None:
            return opt(dty)
        return opt(dty, Adt(payload(ex, dty), 0, (refstr(r[0]), refstr(drop_pat(ex, st, r[1], p)))))

    @model(STR % "rsplit")
    def rsplit(ex, st, a, f, dty):
        return It("rsplit", segs(ex, st, a[0]), pattern(ex, st, a[1]), False, 0, None)

    @model(STR % "rsplitn")
    def rsplitn(ex, st, a, f, dty):
        n = st.simp(a[1])
        return It("rsplit", segs(ex, st, a[0]), pattern(ex, st, a[2]), n == 0, 0, n)

    @model(STR % "(split_inclusive|split_terminator)")
    def split_incl(ex, st, a, f, dty):
        return It("split_incl" if f["path"].endswith("inclusive") else "split_term", segs(ex, st, a[0]), pattern(ex, st, a[1]), 0)

    @model(r"re:^(core|std|alloc)::str::(iter::)?Chars::<'a>::as_str$")
    def chars_as_str(ex, st, a, f, dty):
        v = ex.deref(st, a[0])
        if not isinstance(v, It) or v.kind != "chars":
            return NotImplemented
        return refstr(st.norm(v.a[0]))

    @model(STR % "split_once")
    def split_once(ex, st, a, f, dty):
        p = pattern(ex, st, a[1])
        r = find(ex, st, segs(ex, st, a[0]), p)
        if r is None:
            return opt(dty)
        return opt(dty, Adt(payload(ex, dty), 0, (refstr(r[0]), refstr(drop_pat(ex, st, r[1], p)))))

    @model(STR % "chars", "<&'a str as nom::InputIter>::iter_elements")
    def chars(ex, st, a, f, dty):
        return It("chars", segs(ex, st, a[0]))

    @model(STR % "char_indices", "<&'a str as nom::InputIter>::iter_indices")
    def char_indices(ex, st, a, f, dty):
        return It("char_indices", segs(ex, st, a[0]), 0, ex.tuple_label)

    @model(STR % "lines")
    def lines(ex, st, a, f, dty):
        return It("lines", segs(ex, st, a[0]), 0)

    @model(STR % "split")
    def split(ex, st, a, f, dty):
        return It("split", segs(ex, st, a[0]), pattern(ex, st, a[1]), False, 0, None)

    @model(STR % "matches")
    def matches(ex, st, a, f, dty):
        return It("matches", segs(ex, st, a[0]), pattern(ex, st, a[1]), 0, None)

    @model(STR % "splitn")
    def splitn(ex, st, a, f, dty):
        n = st.simp(a[1])
        return It("split", segs(ex, st, a[0]), pattern(ex, st, a[2]), n == 0, 0, n)

    @model(STR % "split_whitespace")
    def split_ws(ex, st, a, f, dty):
        return It("split_ws", segs(ex, st, a[0]), 0)

    @model(STR % "split_at")
    def split_at(ex, st, a, f, dty):
        return cutpoint(ex, st, segs(ex, st, a[0]), a[1], f,
                        lambda r, s: Adt(dty, 0, (refstr(r[0]), refstr(r[1]))))

    def cutpoint(ex, st, s, n, f, fn):
        r = take_prefix(st, s, n)
        if isinstance(r, tuple):
            return fn(r, st)
        if r is not None:
            return out([("panic", "byte index %s is %s in %s" % (
                st.simp(n), "not a char boundary" if r == "boundary" else "out of range", f["path"]), st)])
        k = st.simp(n)
        if not isinstance(k, int) or k > 16:
            return wild_cut(ex, st, st.norm(s), k, f, fn)
        r = walk_cut(ex, st, s, n)
        if r is None:
            return out([("panic", "byte index not a char boundary or out of range in %s" % f["path"], st)])
        return fn(r, st)

    def wild_cut(ex, st, s, n, f, fn):
        """cut at an offset that is not a known boundary: counted from the end, or somewhere
        inside an arbitrary text"""
        k = st.simp(lsub(st.blen(s), n)) if linparts(n) is not None else None
        if isinstance(k, int) and 0 < k <= 16:
            after, acc = [], 0
            while acc < k:
                r = last_char(ex, st, s)
                if r is None:
                    return out([("panic", "byte index out of range in %s" % f["path"], st)])
                c, s = r
                if isinstance(c, str):
                    acc += len(c.encode())
                elif ex.in_class(st, c, (1 << 128) - 1):
                    acc += 1
                elif k - acc < 2:
                    acc = k + 1
                else:
                    raise Unsupported("string cut before a non-ASCII character")
                after.insert(0, c)
            if acc > k:
                return out([("panic", "byte index not a char boundary in %s" % f["path"], st)])
            return fn((s, tuple(after)), st)
        if not isinstance(n, int):
            raise Unsupported("string cut at an unknown offset")
        i = acc = 0
        while i < len(s) and isinstance(s[i], str):
            acc += len(s[i].encode())
            i += 1
        if i == len(s) or acc >= n or st.af(s[i]).one:
            raise Unsupported("string cut at an unknown offset")
        x = s[i]
        g = st.af(x)
        l = []
        if g.m & g.f & g.l & ~((1 << 128) - 1) and g.min <= 1:
            l.append(("panic", "byte index %d may lie inside a character in %s" % (n, f["path"]), st.copy()))
        b, a = Atom(sub_key(x, "$b%d" % (n - acc))), Atom(sub_key(x, "$a%d" % (n - acc)))
        y = st.copy()
        y.subst(x, (b, a))
        y.set_af(b, AF(g.m, g.f, g.m, 1))
        y.set_af(a, AF(g.m, g.m, g.l))
        y.note("string cut at an unknown offset")
        r = fn((tuple(s[:i]) + (b,), (a,) + tuple(s[i + 1:])), y)
        l += r.l if isinstance(r, Outs) else [("ret", r, y)]
        return out(l)

    def walk_cut(ex, st, s, n):
        """cut at a known small byte offset by examining characters (forks)"""
        n = st.simp(n)
        if not isinstance(n, int) or n > 16:
            raise Unsupported("string cut at an unknown offset")
        before = []
        acc = 0
        s = st.norm(s)
        while acc < n:
            r = next_char(ex, st, s)
            if r is None:
                return None
            c, s = r
            if isinstance(c, str):
                acc += len(c.encode())
            else:
                if not ex.in_class(st, c, (1 << 128) - 1):
                    # 2..4 bytes: falls inside, at, or before the cut
                    if n - acc < 2:
                        return None
                    raise Unsupported("string cut behind a non-ASCII character")
                acc += 1
            before.append(c)
        return tuple(before), s

    def get_range(ex, st, s, r, f, fn):
        r = ex.deref(st, r)
        nm = T[r.ty].get("name")
        if nm == "std::ops::RangeFull":
            return fn(((), s, ()), st)
        if nm == "std::ops::RangeFrom":
            return cutpoint(ex, st, s, r.f[0], f, lambda q, x: fn((q[0], q[1], ()), x))
        if nm == "std::ops::RangeTo":
            return cutpoint(ex, st, s, r.f[0], f, lambda q, x: fn(((), q[0], q[1]), x))
        if nm == "std::ops::Range":
            def inner(q, x):
                return cutpoint(ex, x, q[1], x.simp(lsub(r.f[1], r.f[0])), f, lambda p, y: fn((q[0], p[0], p[1]), y))
            return cutpoint(ex, st, s, r.f[0], f, inner)
        raise Unsupported("string range " + str(nm))

    @model(STR % "(get_unchecked|index)", "core::str::traits::<impl std::ops::Index<I> for str>::index",
           r"re:^<std::string::String as std::ops::Index<.*>>::index$",
           r"re:^<&'a str as nom::Slice<.*>>::slice$")
    def s_index(ex, st, a, f, dty):
        v = ex.deref(st, a[0])
        if not isinstance(v, Str):
            return NotImplemented
        return get_range(ex, st, st.norm(v.s), a[1], f, lambda q, s: refstr(q[1]))

    @model(STR % "get")
    def s_get(ex, st, a, f, dty):
        r = get_range(ex, st, segs(ex, st, a[0]), a[1], f, lambda q, s: opt(dty, refstr(q[1])))
        if isinstance(r, Outs):
            return out([("ret", opt(dty), s) if k == "panic" else (k, v, s) for k, v, s in r.l])
        return r

    @model("<&'a str as nom::InputTake>::take_split", "<&'a str as nom::InputTake>::take")
    def take_split(ex, st, a, f, dty):
        if f["path"].endswith("take"):
            return cutpoint(ex, st, segs(ex, st, a[0]), a[1], f, lambda r, s: refstr(r[0]))
        return cutpoint(ex, st, segs(ex, st, a[0]), a[1], f, lambda r, s: Adt(dty, 0, (refstr(r[1]), refstr(r[0]))))

    @model("<&'a str as nom::Compare<&'b str>>::compare")
    def compare(ex, st, a, f, dty):
        p = segs(ex, st, a[1])
        if not all(isinstance(x, str) for x in p):
            raise Unsupported("compare with unknown text")
        return Adt(dty, 0 if ask_prefix(st, segs(ex, st, a[0]), "".join(p)) else 2, ())

    @model(STR % "repeat")
    def repeat(ex, st, a, f, dty):
        s = segs(ex, st, a[0])
        n = st.simp(a[1])
        if not isinstance(n, int):
            lo, hi = st.interval(n)
            if all(isinstance(x, str) for x in s) and len(set("".join(s))) == 1:
                # a run of one character, of unknown length
                at = Atom(("rep", s, n))
                st.set_af(at, AF(mask("".join(s)), min=1 if lo and lo > 0 else 0))
                return mkstr((at,))
            raise Unsupported("repeat an unknown number of times")
        return mkstr(st.norm(s * n))

    @model(STR % "replace", STR % "replacen")
    def replace(ex, st, a, f, dty):
        most = None
        if f["path"].endswith("replacen"):
            most = st.simp(a[3])
            if not isinstance(most, int):
                raise Unsupported("replace an unknown number of times")
        s = segs(ex, st, a[0])
        p = pattern(ex, st, a[1])
        to = segs(ex, st, a[2])
        if most == 0:
            return mkstr(s)
        if p[0] == "segs" or p[0] == "str" and not p[1]:
            st.note("replacement of unknown text")
            return mkstr((Atom(ex.key("replace")),))
        outl = ()
        n = 0
        while True:
            r = None if n == most else find(ex, st, s, p)
            if r is None:
                return mkstr(st.norm(outl + s))
            n += 1
            if n > 2 * ex.K + 2:
                ex.cut("many replacements")
                raise Infeasible()
            outl += r[0] + to
            s = st.norm(drop_pat(ex, st, r[1], p))

    @model(STR % "(to_lowercase|to_uppercase|to_ascii_lowercase|to_ascii_uppercase)")
    def recase(ex, st, a, f, dty):
        s = segs(ex, st, a[0])
        if all(isinstance(x, str) for x in s):
            t = "".join(s)
            return mkstr((t.lower() if "lower" in f["path"] else t.upper(),))
        st.note("case conversion")
        return mkstr((Atom(ex.key("case")),))

    @model(STR % "eq_ignore_ascii_case")
    def eqic(ex, st, a, f, dty):
        x, y = segs(ex, st, a[0]), segs(ex, st, a[1])
        if all(isinstance(z, str) for z in x + y):
            low = str.maketrans("ABCDEFGHIJKLMNOPQRSTUVWXYZ", "abcdefghijklmnopqrstuvwxyz")
            return "".join(x).translate(low) == "".join(y).translate(low)
        raise Unsupported("case-insensitive comparison")

    @model(STR % "parse")
    def parse(ex, st, a, f, dty):
        ty = f["args"][0]
        k = ex.kind[ty]
        s = segs(ex, st, a[0])
        if k == "int":
            v = parse_num(ex, st, s, ty, ("int",) + ex.intrange_ty(ty))
        elif k == "nonzero":
            v = parse_num(ex, st, s, ty, ("int",) + ex.intrange_ty(ty))
        elif T[ty].get("name") == "rust_decimal::Decimal":
            v = parse_num(ex, st, s, ty, ("dec",))
        elif k == "str":
            v = mkstr(s)
        elif k == "char":
            r = next_char(ex, st, s)
            v = None
            if r is not None and ask_empty(st, r[1]):
                v = r[0]
        elif k == "bool":
            v = True if ask_eq(st, s, "true") else False if ask_eq(st, s, "false") else None
        else:
            m = ex.method("std::str::FromStr", "from_str", ty)
            if m is None:
                raise Unsupported("FromStr of " + ex.tname(ty))
            return out(ex.call(st, m, [refstr(s)], dty))
        if v is None:
            return Adt(dty, 1, (Sym(ex.key("err"), payload(ex, dty, 1)),))
        return Adt(dty, 0, (v,))

    @model("<rust_decimal::Decimal as std::str::FromStr>::from_str",
           r"re:^core::num::<impl std::str::FromStr for [iu]\w+>::from_str$")
    def dec_from_str(ex, st, a, f, dty):
        ty = payload(ex, dty, 0)
        kind = ("int",) + ex.intrange_ty(ty) if ex.kind[ty] == "int" else ("dec",)
        v = parse_num(ex, st, segs(ex, st, a[0]), ty, kind)
        if v is None:
            return Adt(dty, 1, (Sym(ex.key("err"), payload(ex, dty, 1)),))
        return Adt(dty, 0, (v,))

    @model("core::str::traits::<impl std::cmp::PartialEq for str>::eq",
           r"re:^<std::(string::String|path::PathBuf|path::Path|ffi::OsStr|ffi::OsString|borrow::Cow<.*>) as std::cmp::PartialEq(<.*>)?>::(eq|ne)$",
           r"re:^std::(string|path|borrow)::.*<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$",
           r"re:^core::str::traits::<impl std::cmp::PartialEq.* for str>::(eq|ne)$")
    def s_eq(ex, st, a, f, dty):
        x, y = ex.deref(st, a[0]), ex.deref(st, a[1])
        if not isinstance(x, Str) or not isinstance(y, Str):
            return NotImplemented
        r = eq_str(ex, st, st.norm(x.s), st.norm(y.s))
        return (not r) if f["path"].endswith("ne") else r

    # ---- String building
    @model(STRING % "new", STRING % "with_capacity", "<std::string::String as std::default::Default>::default",
           "core::str::<impl std::default::Default for &str>::default")
    def s_new(ex, st, a, f, dty):
        return RefV(Str(())) if T[dty]["k"] == "ref" else Str(())

    @model(STRING % "push", STRING % "push_str")
    def s_push(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        ex.write_cell(st, r, mkstr(st.norm(segs(ex, st, r) + segs(ex, st, a[1]))))
        return unit(dty)

    @model(STRING % "insert", STRING % "insert_str")
    def s_insert(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        new = segs(ex, st, a[2])

        def fin(q, s):
            ex.write_cell(s, r, mkstr(s.norm(q[0] + new + q[1])))
            return unit(dty)
        return cutpoint(ex, st, segs(ex, st, r), a[1], f, fin)

    @model(STRING % "pop")
    def s_pop(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        x = last_char(ex, st, segs(ex, st, r))
        if x is None:
            return opt(dty)
        ex.write_cell(st, r, mkstr(x[1]))
        return opt(dty, x[0])

    @model(STRING % "remove")
    def s_remove(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])

        def fin(q, s):
            x = next_char(ex, s, q[1])
            if x is None:
                return out([("panic", "cannot remove a char from the end of a string", s)])
            ex.write_cell(s, r, mkstr(s.norm(q[0] + x[1])))
            return x[0]
        return cutpoint(ex, st, segs(ex, st, r), a[1], f, fin)

    @model(STRING % "truncate")
    def s_trunc(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        t = segs(ex, st, r)
        if ex.cmp(st, "Ge", a[1], st.blen(t)):
            return unit(dty)

        def fin(q, s):
            ex.write_cell(s, r, mkstr(q[0]))
            return unit(dty)
        return cutpoint(ex, st, t, a[1], f, fin)

    @model(STRING % "split_off")
    def s_split_off(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])

        def fin(q, s):
            ex.write_cell(s, r, mkstr(q[0]))
            return mkstr(q[1])
        return cutpoint(ex, st, segs(ex, st, r), a[1], f, fin)

    @model(STRING % "drain")
    def s_drain(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])

        def fin(q, s):
            ex.write_cell(s, r, mkstr(s.norm(q[0] + q[2])))
            return It("chars", q[1])
        return get_range(ex, st, segs(ex, st, r), a[1], f, fin)

    @model(STRING % "retain")
    def s_retain(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])

        def step(acc, x, s):
            return chain(ex, ex.call_value(s, a[1], [x], ex.boolty), lambda b, z: [("ret", acc + ((x,) if ex.truth(z, b) else ()), z)])

        def fin(acc, s):
            ex.write_cell(s, r, mkstr(s.norm(acc)))
            return [("ret", unit(dty), s)]
        return out(chain(ex, drain(ex, st, It("chars", segs(ex, st, r)), step, ()), fin))

    @model(STRING % "(clear)")
    def s_clear(ex, st, a, f, dty):
        ex.write_cell(st, mutref(ex, st, a[0]), Str(()))
        return unit(dty)

    @model(r"re:^<std::string::String as std::ops::(Add|AddAssign)<.*>>::\w+$")
    def s_add(ex, st, a, f, dty):
        if f["path"].endswith("add_assign"):
            r = mutref(ex, st, a[0])
            ex.write_cell(st, r, mkstr(st.norm(segs(ex, st, r) + segs(ex, st, a[1]))))
            return unit(dty)
        return mkstr(st.norm(segs(ex, st, a[0]) + segs(ex, st, a[1])))

    def unit(dty):
        return Adt(dty, 0, ())

    def mutref(ex, st, r):
        while True:
            if isinstance(r, MutRef):
                v = ex.read_cell(st, r)
                if isinstance(v, MutRef):
                    r = v
                    continue
                return r
            raise Unsupported("mutation through %r" % (r,))

    # ---- chars
    CH = {"is_whitespace": WS, "is_ascii_digit": DIGIT, "is_ascii_whitespace": mask("\t\n\x0c\r "),
          "is_ascii_alphabetic": mask("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
          "is_ascii_uppercase": mask("ABCDEFGHIJKLMNOPQRSTUVWXYZ"),
          "is_ascii_lowercase": mask("abcdefghijklmnopqrstuvwxyz"),
          "is_ascii": (1 << 128) - 1,
          "is_numeric": DIGIT | 1 << C_NUM, "is_uppercase": mask("ABCDEFGHIJKLMNOPQRSTUVWXYZ") | 1 << C_UP,
          "is_ascii_alphanumeric": DIGIT | mask("abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ"),
          "is_ascii_punctuation": mask("".join(chr(i) for i in range(33, 127) if not chr(i).isalnum())),
          "is_control": mask("".join(chr(i) for i in list(range(32)) + [127]))}
    for n, mk in CH.items():
        def chm(ex, st, a, f, dty, mk=mk):
            return ex.in_class(st, ex.char_norm(st, ex.deref(st, a[0])), mk)
        model(r"re:^(core|std)::char::methods::<impl char>::%s$" % n)(chm)

    @model("<char as nom::AsChar>::is_dec_digit", "<&'a char as nom::AsChar>::is_dec_digit")
    def decdig(ex, st, a, f, dty):
        return ex.in_class(st, ex.char_norm(st, ex.deref(st, a[0])), DIGIT)

    @model("<char as nom::AsChar>::as_char", "<&'a char as nom::AsChar>::as_char")
    def as_char(ex, st, a, f, dty):
        return ex.deref(st, a[0])

    @model("<char as nom::AsChar>::len", "<&'a char as nom::AsChar>::len",
           r"re:^(core|std)::char::methods::<impl char>::len_utf8$")
    def ch_len(ex, st, a, f, dty):
        c = ex.char_norm(st, ex.deref(st, a[0]))
        return len(c.encode()) if isinstance(c, str) else st.simp(Lin(0, ((c, 1),)))

    @model(r"re:^(core|std)::char::methods::<impl char>::to_digit$")
    def to_digit(ex, st, a, f, dty):
        c = ex.char_norm(st, a[0])
        if not ex.in_class(st, c, DIGIT):
            if a[1] != 10:
                raise Unsupported("to_digit radix")
            return opt(dty)
        c = ex.char_norm(st, c)
        if isinstance(c, str):
            return opt(dty, int(c))
        return opt(dty, Sym(("num", (c,)), payload(ex, dty)))

    # ---- numbers
    def checked(op):
        def fn(ex, st, a, f, dty):
            ty = payload(ex, dty)
            v = ex.arith(st, op, a[0], a[1], ty)
            lo, hi = ex.intrange_ty(ty)
            if ex.in_range(st, v, lo, hi):
                return opt(dty, v)
            return opt(dty)
        return fn
    for n, op in (("add", "Add"), ("sub", "Sub"), ("mul", "Mul")):
        model(r"re:^core::num::<impl [iu]\w+>::checked_%s$" % n)(checked(op))

        def sat(ex, st, a, f, dty, op=op):
            v = ex.arith(st, op, a[0], a[1], dty)
            lo, hi = ex.intrange_ty(dty)
            if not ex.cmp(st, "Ge", v, lo):
                return lo
            if not ex.cmp(st, "Le", v, hi):
                return hi
            return v
        model(r"re:^core::num::<impl [iu]\w+>::saturating_%s$" % n)(sat)

        def wrap(ex, st, a, f, dty, op=op):
            return ex.binop(st, op, a[0], a[1], dty, dty)
        model(r"re:^core::num::<impl [iu]\w+>::wrapping_%s$" % n)(wrap)

    @model(r"re:^std::num::NonZero::<T>::get$")
    def nz_get(ex, st, a, f, dty):
        v = ex.deref(st, a[0])
        return v

    @model(r"re:^std::num::NonZero::<T>::new$")
    def nz_new(ex, st, a, f, dty):
        if ex.cmp(st, "Eq", a[0], 0):
            return opt(dty)
        return opt(dty, a[0])

    @model("<std::num::NonZero<T> as std::cmp::PartialEq>::eq")
    def nz_eq(ex, st, a, f, dty):
        return ex.cmp(st, "Eq", ex.deref(st, a[0]), ex.deref(st, a[1]))

    @model(r"re:^std::cmp::Ord::(min|max|clamp)$", r"re:^std::cmp::(min|max)$",
           r"re:^<.* as std::cmp::Ord>::(min|max|clamp)$", r"re:<impl std::cmp::Ord for [iu]\w+>::(min|max|clamp)$")
    def minmax(ex, st, a, f, dty):
        if ex.kind[dty] != "int":
            return NotImplemented
        n = f["path"].rsplit("::", 1)[1]
        if n == "clamp":
            if ex.cmp(st, "Lt", a[0], a[1]):
                return a[1]
            return a[2] if ex.cmp(st, "Gt", a[0], a[2]) else a[0]
        le = ex.cmp(st, "Le", a[0], a[1])
        return (a[0] if le else a[1]) if n == "min" else (a[1] if le else a[0])

    @model(r"re:^std::clone::impls::<impl std::clone::Clone for .*>::clone$",
           "<rust_decimal::Decimal as std::clone::Clone>::clone",
           r"re:^<std::(vec::Vec<.*>|num::NonZero<T>) as std::clone::Clone>::clone$",
           "<T as std::slice::<impl [T]>::to_vec_in::ConvertVec>::to_vec", SL % "to_vec", SL % "into_vec")
    def clone1(ex, st, a, f, dty):
        if T[dty]["k"] == "ref":
            return ex.deref1(st, a[0])
        return ex.deref1(st, a[0]) if not isinstance(ex.deref1(st, a[0]), (RefV, MutRef)) else ex.deref(st, a[0])

    DEC = "rust_decimal::Decimal"

    @model("<rust_decimal::Decimal as std::convert::From<i32>>::from",
           r"re:^<rust_decimal::Decimal as std::convert::From<[iu]\w+>>::from$")
    def dec_from(ex, st, a, f, dty):
        return a[0]

    @model("<rust_decimal::Decimal as std::default::Default>::default")
    def dec_def(ex, st, a, f, dty):
        return 0

    @model("rust_decimal::Decimal::from_parts", "rust_decimal::Decimal::new")
    def dec_parts(ex, st, a, f, dty):
        a = [st.simp(x) for x in a]
        if f["path"].endswith("new"):
            n, scale, neg = a[0], a[1], False
        else:
            if not all(isinstance(x, (int, bool)) for x in a):
                raise Unsupported("decimal parts")
            n, scale, neg = a[0] | a[1] << 32 | a[2] << 64, a[4], a[3]
        if not isinstance(n, int):
            raise Unsupported("decimal parts")
        if neg:
            n = -n
        if scale == 0:
            return n
        return Sym(("decs", n, scale), dty)

    @model("<rust_decimal::Decimal as std::cmp::PartialEq>::eq")
    def dec_eq(ex, st, a, f, dty):
        x, y = st.simp(ex.deref(st, a[0])), st.simp(ex.deref(st, a[1]))
        if x == y:
            return True
        d = lsub(x, y)
        if isinstance(d, int):
            return d == 0
        for p, q in ((x, y), (y, x)):
            w = st.d.get(("deceq", p, q))
            if w is not None:
                return w
        p, q = st.copy(), st.copy()
        p.d["deceq", x, y] = True
        q.d["deceq", x, y] = False
        raise Fork([p, q], "deceq")

    DA = r"re:^rust_decimal::arithmetic_impls::<impl rust_decimal::Decimal>::%s$"

    @model(DA % "checked_(add|sub|mul|div|rem)")
    def dec_checked(ex, st, a, f, dty):
        op = f["path"].rsplit("_", 1)[1]
        v = dec_arith(ex, st, op, ex.deref(st, a[0]), ex.deref(st, a[1]), payload(ex, dty))
        y = st.simp(ex.deref(st, a[1]))
        if op in ("div", "rem") and y == 0:
            return opt(dty)
        if isinstance(v, int):
            return opt(dty, v)
        k = ("dovf", op, v)
        w = st.d.get(k)
        if w is None:
            p, q = st.copy(), st.copy()
            p.d[k] = False
            q.d[k] = True
            raise Fork([p, q], "dovf")
        return opt(dty) if w else opt(dty, v)

    def dec_arith(ex, st, op, x, y, ty):
        x, y = st.simp(x), st.simp(y)
        if op in ("add", "sub"):
            d = ladd(x, y, 1 if op == "add" else -1)
            if d is not None:
                return d
        if isinstance(x, int) and isinstance(y, int) and op == "mul":
            return x * y
        return Sym(("dop", op, x, y), ty)

    @model(DA % "saturating_(add|sub|mul)")
    def dec_sat(ex, st, a, f, dty):
        return dec_arith(ex, st, f["path"].rsplit("_", 1)[1], ex.deref(st, a[0]), ex.deref(st, a[1]), dty)

    @model(r"re:^rust_decimal::arithmetic_impls::<impl std::ops::(Add|Sub|Mul|Div|Rem)(<.*>)? for &?('a )?rust_decimal::Decimal>::\w+$",
           r"re:^<rust_decimal::Decimal as std::ops::(Add|Sub|Mul|Div|Rem)\w*(<.*>)?>::\w+$")
    def dec_op(ex, st, a, f, dty):
        op = f["path"].rsplit("::", 1)[1]
        x, y = ex.deref(st, a[0]), ex.deref(st, a[1])
        if op.endswith("_assign"):
            op = op[:-7]
            r = mutref(ex, st, a[0])
            v = dec_arith(ex, st, op, x, y, x.ty if isinstance(x, Sym) else dty)
            ex.write_cell(st, r, v)
            res = unit(dty)
        else:
            v = dec_arith(ex, st, op, x, y, dty)
            res = v
        if isinstance(v, int):
            return res
        l = [("ret", res, st)]
        ys = st.simp(y)
        safe = isinstance(ys, int) and abs(ys) >= 1 and op in ("div", "rem")
        if not safe:
            l.append(("panic", "decimal %s overflows or divides by zero" % op, st.copy()))
        return out(l)

    @model(r"re:^rust_decimal::Decimal::(normalize|round|round_dp|round_dp_with_strategy|trunc|trunc_with_scale|floor|ceil|fract|abs)$")
    def dec_round(ex, st, a, f, dty):
        v = st.simp(ex.deref(st, a[0]))
        n = f["path"].rsplit("::", 1)[1]
        if n == "normalize":
            return v
        if isinstance(v, int):
            return abs(v) if n == "abs" else 0 if n == "fract" else v
        return Sym(("dop", n, v, tuple(repr(x) for x in a[1:])), dty)

    @model(r"re:^rust_decimal::Decimal::(is_zero|is_sign_negative|is_sign_positive|is_integer)$")
    def dec_q(ex, st, a, f, dty):
        v = st.simp(ex.deref(st, a[0]))
        if isinstance(v, int):
            n = f["path"].rsplit("::", 1)[1]
            return {"is_zero": v == 0, "is_sign_negative": v < 0, "is_sign_positive": v >= 0,
                    "is_integer": True}[n]
        k = ("decq", f["path"], v)
        w = st.d.get(k)
        if w is None:
            p, q = st.copy(), st.copy()
            p.d[k] = True
            q.d[k] = False
            raise Fork([p, q], "decq")
        return w

    # ---- formatting
    @model("core::fmt::rt::Argument::<'_>::new_display")
    def new_display(ex, st, a, f, dty):
        return It("arg", f["args"][0] if isinstance(f["args"][0], int) else f["args"][1], ex.deref1(st, a[0]))

    @model("core::fmt::rt::Argument::<'_>::new_debug")
    def new_debug(ex, st, a, f, dty):
        return It("dbg", 0, a[0])

    @model("std::fmt::Arguments::<'a>::new")
    def fmt_new(ex, st, a, f, dty):
        tpl = ex.deref(st, a[0])
        args = list(ex.deref(st, a[1]).it)
        b = tpl.it if isinstance(tpl, Seq) else None
        if b is None or not all(isinstance(x, int) for x in b):
            raise Unsupported("format template")
        b = bytes(b)
        pieces = []
        i = 0
        nxta = 0

        def arg(j):
            x = args[j]
            if x.kind == "dbg":
                st.note("debug formatting")
                return str_piece(Atom(ex.key("dbg")))
            return (x.a[0], x.a[1])

        def str_piece(at):
            return (ex.strty, Str((at,)))
        while i < len(b):
            c = b[i]
            i += 1
            if c == 0:
                break
            if c < 0x80:
                pieces.append(b[i:i + c].decode())
                i += c
            elif c == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
                pieces.append(b[i:i + n].decode())
                i += n
            elif c & 0xC0 == 0xC0:
                plain = True
                if c & 1:
                    i += 4
                    plain = False
                if c & 2:
                    i += 2
                    plain = False
                if c & 4:
                    i += 2
                    plain = False
                j = nxta
                if c & 8:
                    j = b[i] | b[i + 1] << 8
                    i += 2
                nxta = j + 1
                if not plain:
                    st.note("format options")
                pieces.append(arg(j))
            else:
                raise Unsupported("format template byte %x" % c)
        return Fmt(pieces)

    @model("std::fmt::Arguments::<'a>::from_str_nonconst", "std::fmt::Arguments::<'a>::from_str",
           "std::fmt::Arguments::<'a>::new_const")
    def fmt_const(ex, st, a, f, dty):
        s = segs(ex, st, a[0])
        return Fmt(((ex.strty, Str(s)),))

    @model("std::fmt::format")
    def fmt_format(ex, st, a, f, dty):
        return out([(k, mkstr(v) if k == "ret" else v, s) for k, v, s in render(ex, st, a[0])])

    def fmt_append(ex, st, fm, text, dty):
        r = mutref(ex, st, fm)
        cur = ex.read_cell(st, r)
        if not isinstance(cur, Str):
            raise Unsupported("formatter")
        ex.write_cell(st, r, mkstr(st.norm(cur.s + tuple(text))))
        return Adt(dty, 0, (Adt(payload(ex, dty, 0), 0, ()),))
    globals()["fmt_append"] = fmt_append

    @model("std::fmt::Formatter::<'a>::write_fmt", r"re:^std::fmt::Write::write_fmt$",
           r"re:^<std::string::String as std::fmt::Write>::write_fmt$")
    def write_fmt(ex, st, a, f, dty):
        return out([(k, fmt_append(ex, s, a[0], v, dty) if k == "ret" else v, s) for k, v, s in render(ex, st, a[1])])

    @model("std::fmt::Formatter::<'a>::write_str", r"re:^<std::fmt::Formatter<.*> as std::fmt::Write>::write_str$",
           r"re:^<std::string::String as std::fmt::Write>::write_str$", "std::fmt::Formatter::<'a>::pad")
    def write_str(ex, st, a, f, dty):
        return fmt_append(ex, st, a[0], segs(ex, st, a[1]), dty)

    @model(r"re:^<.* as std::fmt::Display>::fmt$", r"re:^std::fmt::.*<impl std::fmt::Display for .*>::fmt$")
    def display_fmt(ex, st, a, f, dty):
        if f.get("local") or f.get("body"):
            return NotImplemented
        b = f.get("args") or []
        m = f["name"]
        v = ex.deref(st, a[0])
        ty = None
        if isinstance(v, Str):
            ty = ex.strty
        elif isinstance(v, Sym):
            ty = v.ty
        if ty is None:
            raise Unsupported("Display of " + f["name"])
        return out([(k, fmt_append(ex, s, a[1], t, dty) if k == "ret" else t, s) for k, t, s in disp(ex, st, ty, v)])

    @model("std::hint::must_use", "std::hint::black_box", r"re:^std::convert::identity$")
    def ident(ex, st, a, f, dty):
        return a[0]

    @model("std::num::ParseIntError::kind")
    def pie_kind(ex, st, a, f, dty):
        v = ex.deref(st, a[0])
        return RefV(ex.fresh(T[dty]["e"], (v.k if isinstance(v, Sym) else ex.key("pk"), "kind"), st))

    # ---- panics
    def panics(ex, st, a, f, dty):
        return out([("panic", f["path"].replace("core::panicking::", ""), st)])
    for p in ("core::panicking::panic", "core::panicking::panic_fmt", "core::panicking::unreachable_display",
              "std::rt::begin_panic", "std::option::unwrap_failed", "std::option::expect_failed",
              "std::result::unwrap_failed", "std::result::unwrap_failed::unwrap_failed_inner",
              "core::str::slice_error_fail", "core::panicking::panic_explicit", "core::panicking::panic_nounwind",
              "core::panicking::panic_const::panic_const_div_by_zero", "core::panicking::panic_bounds_check"):
        M[p] = panics
    model(r"re:^core::panicking::panic", r"re:^core::slice::index::slice_\w+_fail")(panics)

    @model("core::panicking::unreachable_default_msg")
    def udm(ex, st, a, f, dty):
        return Fmt(("internal error: entered unreachable code",))

    # ---- vec and slices
    @model(VEC % "new", VEC % "with_capacity", "<std::vec::Vec<T> as std::default::Default>::default")
    def v_new(ex, st, a, f, dty):
        return Seq(())

    def seqcell(ex, st, r, whole=True):
        r = mutref(ex, st, r)
        q = ex.read_cell(st, r)
        if not isinstance(q, Seq):
            raise Unsupported("vector operation on %r" % (q,))
        return r, (ex.whole_seq(st, q) if whole else ex.norm_seq(st, q))

    @model(VEC % "push")
    def v_push(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        ex.write_cell(st, r, Seq(q.it + (a[1],)))
        return unit(dty)

    @model(VEC % "pop")
    def v_pop(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        if not q.it:
            return opt(dty)
        ex.write_cell(st, r, Seq(q.it[:-1]))
        return opt(dty, q.it[-1])

    @model(VEC % "insert")
    def v_insert(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        n = st.simp(a[1])
        if not isinstance(n, int):
            raise Unsupported("insert at an unknown index")
        if n > len(q.it):
            return out([("panic", "insertion index out of bounds", st)])
        ex.write_cell(st, r, Seq(q.it[:n] + (a[2],) + q.it[n:]))
        return unit(dty)

    @model(VEC % "remove", VEC % "swap_remove")
    def v_remove(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        n = st.simp(a[1])
        if not isinstance(n, int):
            raise Unsupported("remove at an unknown index")
        if n >= len(q.it):
            return out([("panic", "removal index out of bounds", st)])
        if f["path"].endswith("swap_remove"):
            it = list(q.it)
            it[n] = it[-1]
            it.pop()
        else:
            it = q.it[:n] + q.it[n + 1:]
        ex.write_cell(st, r, Seq(it))
        return q.it[n]

    @model(VEC % "append")
    def v_append(ex, st, a, f, dty):
        r2, q2 = seqcell(ex, st, a[1])
        r, q = seqcell(ex, st, a[0])
        ex.write_cell(st, r, Seq(q.it + q2.it))
        ex.write_cell(st, r2, Seq(()))
        return unit(dty)

    @model(VEC % "extend_from_slice")
    def v_extsl(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        q2 = ex.whole_seq(st, ex.deref(st, a[1]))
        ex.write_cell(st, r, Seq(q.it + q2.it))
        return unit(dty)

    @model(VEC % "clear")
    def v_clear(ex, st, a, f, dty):
        ex.write_cell(st, mutref(ex, st, a[0]), Seq(()))
        return unit(dty)

    def bounds(ex, st, r, n):
        """the index range a range argument means for a sequence of n items, or None"""
        r = ex.deref(st, r)
        nm = T[r.ty].get("name") if isinstance(r, Adt) else None
        lo, hi = 0, n
        if nm == "std::ops::Range":
            lo, hi = r.f[0], r.f[1]
        elif nm == "std::ops::RangeFrom":
            lo = r.f[0]
        elif nm == "std::ops::RangeTo":
            hi = r.f[0]
        elif nm in ("std::ops::RangeInclusive", "std::ops::RangeToInclusive"):
            lo, hi = (r.f[0], r.f[1]) if nm.endswith("RangeInclusive") else (0, r.f[0])
            hi = ladd(hi, 1)
        elif nm != "std::ops::RangeFull":
            raise Unsupported("range of items")
        lo, hi = st.simp(lo), st.simp(hi)
        if not isinstance(lo, int) or not isinstance(hi, int):
            raise Unsupported("range of items")
        return (lo, hi) if lo <= hi <= n else None

    @model(VEC % "drain")
    def v_drain(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        b = bounds(ex, st, a[1], len(q.it))
        if b is None:
            return out([("panic", "drain range out of bounds", st)])
        ex.write_cell(st, r, Seq(q.it[:b[0]] + q.it[b[1]:]))
        return It("seq", Seq(q.it[b[0]:b[1]]), False)

    @model(VEC % "split_off")
    def v_split_off(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        n = st.simp(a[1])
        if not isinstance(n, int):
            raise Unsupported("split_off at an unknown index")
        if n > len(q.it):
            return out([("panic", "split_off index out of bounds", st)])
        ex.write_cell(st, r, Seq(q.it[:n]))
        return Seq(q.it[n:])

    @model(VEC % "(retain|retain_mut)")
    def v_retain(ex, st, a, f, dty):
        if f["path"].endswith("mut"):
            raise Unsupported("retain_mut")
        r, q = seqcell(ex, st, a[0])

        def step(acc, x, s):
            return chain(ex, ex.call_value(s, a[1], [RefV(x)], ex.boolty), lambda b, z: [("ret", acc + ((x,) if ex.truth(z, b) else ()), z)])

        def fin(acc, s):
            ex.write_cell(s, r, Seq(acc))
            return [("ret", unit(dty), s)]
        return out(chain(ex, drain(ex, st, It("seq", q, False), step, ()), fin))

    @model(VEC % "dedup")
    def v_dedup(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        ety = f["args"][0]

        def step(acc, x, s):
            if not acc:
                return [("ret", (x,), s)]
            return chain(ex, eq_val(ex, s, acc[-1], x, ety), lambda b, z: [("ret", acc if ex.truth(z, b) else acc + (x,), z)])

        def fin(acc, s):
            ex.write_cell(s, r, Seq(acc))
            return [("ret", unit(dty), s)]
        return out(chain(ex, drain(ex, st, It("seq", q, False), step, ()), fin))

    @model(VEC % "push_mut")
    def v_push_mut(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        ex.write_cell(st, r, Seq(q.it + (a[1],)))
        return MutRef(r.c, r.p + (("i", len(q.it)),))

    @model(SL % "swap")
    def v_swap(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        i, j = st.simp(a[1]), st.simp(a[2])
        if not isinstance(i, int) or not isinstance(j, int):
            raise Unsupported("swap at an unknown index")
        if max(i, j) >= len(q.it):
            return out([("panic", "index out of bounds", st)])
        l = list(q.it)
        l[i], l[j] = l[j], l[i]
        ex.write_cell(st, r, Seq(tuple(l)))
        return unit(dty)

    @model(SL % "(split_first|split_last)")
    def v_split_first(ex, st, a, f, dty):
        q = ex.whole_seq(st, ex.deref(st, a[0]))
        if not q.it:
            return opt(dty)
        x, r = (q.it[0], q.it[1:]) if f["path"].endswith("first") else (q.it[-1], q.it[:-1])
        return opt(dty, Adt(payload(ex, dty), 0, (RefV(x), RefV(Seq(r)))))

    @model(SL % "(chunks|windows)")
    def v_chunks(ex, st, a, f, dty):
        q = ex.whole_seq(st, ex.deref(st, a[0]))
        n = st.simp(a[1])
        if not isinstance(n, int):
            raise Unsupported("pieces of unknown size")
        if n == 0:
            return out([("panic", "pieces of size zero", st)])
        if f["path"].endswith("chunks"):
            l = [q.it[i:i + n] for i in range(0, len(q.it), n)]
        else:
            l = [q.it[i:i + n] for i in range(0, len(q.it) - n + 1)]
        return It("seq", Seq(tuple(RefV(Seq(x)) for x in l)), False)

    @model(VEC % "truncate")
    def v_trunc(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        n = st.simp(a[1])
        ex.write_cell(st, r, Seq(q.it[:n]))
        return unit(dty)

    @model(r"re:^<std::vec::Vec<.*> as std::iter::Extend<.*>>::extend$",
           r"re:^<std::string::String as std::iter::Extend<.*>>::extend$")
    def v_extend(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        it = iter_of(ex, st, a[1])

        def done(acc, s):
            cur = ex.read_cell(s, r)
            if isinstance(cur, Str):
                t = ()
                for x in acc:
                    t += segs(ex, s, x)
                ex.write_cell(s, r, mkstr(s.norm(cur.s + t)))
            else:
                q = ex.whole_seq(s, cur)
                ex.write_cell(s, r, Seq(q.it + acc))
            return [("ret", unit(dty), s)]
        return out(chain(ex, drain(ex, st, it, lambda acc, x, s: [("ret", acc + (x,), s)], ()), done))

    @model(VEC % "len", SL % "len")
    def v_len(ex, st, a, f, dty):
        v = ex.deref(st, a[0])
        if isinstance(v, Str):
            return st.blen(v.s)
        return len(ex.whole_seq(st, v).it)

    @model(VEC % "is_empty", SL % "is_empty")
    def v_empty(ex, st, a, f, dty):
        v = ex.deref(st, a[0])
        if isinstance(v, Str):
            return ask_empty(st, v.s)
        q = ex.norm_seq(st, v)
        if not q.it and q.tail is not None:
            ex.need_item(st, q)
        return not q.it

    @model(SL % "(first|last)", VEC % "(first|last)")
    def v_first(ex, st, a, f, dty):
        q = ex.norm_seq(st, ex.deref(st, a[0]))
        if f["path"].endswith("first"):
            if not q.it and q.tail is not None:
                ex.need_item(st, q)
            return opt(dty, RefV(q.it[0])) if q.it else opt(dty)
        q = ex.whole_seq(st, q)
        return opt(dty, RefV(q.it[-1])) if q.it else opt(dty)

    @model(SL % "(first_mut|last_mut)")
    def v_lastm(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        if not q.it:
            return opt(dty)
        ex.write_cell(st, r, q)
        i = 0 if f["path"].endswith("first_mut") else len(q.it) - 1
        return opt(dty, MutRef(r.c, r.p + (("i", i),)))

    def index_arg(ex, st, v):
        v = ex.deref(st, v)
        if isinstance(v, Adt):
            return v
        v = st.simp(v)
        return v

    @model(SL % "get", VEC % "get")
    def v_get(ex, st, a, f, dty):
        q = ex.deref(st, a[0])
        if not isinstance(q, Seq):
            return NotImplemented
        n = index_arg(ex, st, a[1])
        q = ex.norm_seq(st, q)
        if isinstance(n, Adt):
            raise Unsupported("slice of a slice")
        if not isinstance(n, int):
            q = ex.whole_seq(st, q)
            for i in range(len(q.it)):
                if ex.cmp(st, "Eq", n, i):
                    return opt(dty, RefV(q.it[i]))
            return opt(dty)
        if n >= len(q.it):
            if q.tail is not None:
                ex.need_item(st, q)
            return opt(dty)
        return opt(dty, RefV(q.it[n]))

    @model(SL % "get_mut")
    def v_getm(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        ex.write_cell(st, r, q)
        n = index_arg(ex, st, a[1])
        if isinstance(n, Adt):
            raise Unsupported("slice of a slice")
        if not isinstance(n, int):
            for i in range(len(q.it)):
                if ex.cmp(st, "Eq", n, i):
                    return opt(dty, MutRef(r.c, r.p + (("i", i),)))
            return opt(dty)
        return opt(dty, MutRef(r.c, r.p + (("i", n),))) if n < len(q.it) else opt(dty)

    @model("<std::vec::Vec<T, A> as std::ops::Index<I>>::index", "<usize as std::slice::SliceIndex<[T]>>::index",
           "<std::vec::Vec<T, A> as std::ops::IndexMut<I>>::index_mut",
           r"re:^core::slice::index::<impl std::ops::Index(Mut)?<I> for \[T\]>::index(_mut)?$",
           r"re:^core::array::<impl std::ops::Index<I> for \[T; N\]>::index$")
    def v_index(ex, st, a, f, dty):
        if f["path"].startswith("<usize"):
            a = [a[1], a[0]]
        n = index_arg(ex, st, a[1])
        if f["path"].endswith("_mut"):
            r, q = seqcell(ex, st, a[0])
            if isinstance(n, int):
                if n < len(q.it):
                    ex.write_cell(st, r, q)
                    return MutRef(r.c, r.p + (("i", n),))
                return out([("panic", "index out of bounds", st)])
            raise Unsupported("unknown index")
        q = ex.norm_seq(st, ex.deref(st, a[0]))
        if isinstance(n, Adt):
            nm = T[n.ty]["name"]
            q = ex.whole_seq(st, q)
            lo, hi = 0, len(q.it)
            if nm == "std::ops::Range":
                lo, hi = n.f[0], n.f[1]
            elif nm == "std::ops::RangeFrom":
                lo = n.f[0]
            elif nm == "std::ops::RangeTo":
                hi = n.f[0]
            elif nm != "std::ops::RangeFull":
                raise Unsupported("slice range")
            if not isinstance(lo, int) or not isinstance(hi, int):
                raise Unsupported("slice range")
            if lo > hi or hi > len(q.it):
                return out([("panic", "slice index out of range", st)])
            return RefV(Seq(q.it[lo:hi]))
        if not isinstance(n, int):
            raise Unsupported("unknown index")
        if n >= len(q.it):
            if q.tail is not None:
                ex.need_item(st, q)
            return out([("panic", "index out of bounds", st)])
        return RefV(q.it[n])

    @model("<std::vec::Vec<T, A> as std::ops::Deref>::deref", "<std::vec::Vec<T, A> as std::ops::DerefMut>::deref_mut",
           r"re:^(std|alloc)::vec::Vec::<T, A>::as_(mut_)?slice$", r"re:^<std::vec::Vec<T, A> as std::convert::AsRef<\[T\]>>::as_ref$",
           r"re:^<std::vec::Vec<T, A> as std::borrow::Borrow<\[T\]>>::borrow$", r"re:^<std::string::String as std::ops::DerefMut>::deref_mut$")
    def v_deref(ex, st, a, f, dty):
        return a[0]

    @model(SL % "contains")
    def v_contains(ex, st, a, f, dty):
        q = ex.whole_seq(st, ex.deref(st, a[0]))
        x = ex.deref(st, a[1])
        ety = f["args"][0]
        return out(any_eq(ex, st, q.it, x, ety))

    def any_eq(ex, st, items, x, ety):
        if not items:
            return [("ret", False, st)]
        if ex.kind[ety] == "char":
            m = 0
            ok = True
            for c in items:
                if isinstance(c, str) and (cls(c) < 128):
                    m |= 1 << cls(c)
                else:
                    ok = False
            if ok:
                return [("ret", ex.in_class(st, ex.char_norm(st, x), m), st)]
        return chain(ex, eq_val(ex, st, items[0], x, ety),
                     lambda r, s: [("ret", True, s)] if ex.truth(s, r) else any_eq(ex, s, items[1:], x, ety))

    def eq_val(ex, st, x, y, ty):
        """PartialEq::eq on two values of a type: outcomes"""
        k = ex.kind[ty]
        x, y = ex.deref(st, x), ex.deref(st, y)
        while ex.T[ty]["k"] == "ref":
            ty = ex.T[ty]["e"]
            k = ex.kind[ty]
        if k == "str":
            return [("ret", eq_str(ex, st, st.norm(x.s), st.norm(y.s)), st)]
        if k == "char":
            return [("ret", ex.char_cmp(st, ex.char_norm(st, x), ex.char_norm(st, y), "Eq"), st)]
        if k == "bool":
            return [("ret", ex.truth(st, x) == ex.truth(st, y), st)]
        if k in ("int", "nonzero"):
            return [("ret", ex.cmp(st, "Eq", x, y), st)]
        if k == "tuple":
            def go(i, s):
                if i == len(x.f):
                    return [("ret", True, s)]
                return chain(ex, eq_val(ex, s, x.f[i], y.f[i], ex.T[ty]["e"][i]),
                             lambda r, z: go(i + 1, z) if ex.truth(z, r) else [("ret", False, z)])
            return go(0, st)
        if k == "seq":
            ety = ex.T[ty]["e"] if "e" in ex.T[ty] else ex.T[ty]["args"][0]
            return eq_items(ex, st, ex.whole_seq(st, x), ex.whole_seq(st, y), ety)
        m = ex.method("std::cmp::PartialEq", "eq", ty)
        if m is None:
            if ex.T[ty].get("name") == DEC:
                return [("ret", dec_eq(ex, st, [x, y], None, None), st)]
            if x == y:
                return [("ret", True, st)]
            raise Unsupported("equality of " + ex.tname(ty))
        return ex.call(st, m, [RefV(x), RefV(y)], None)
    ex.eq_val = eq_val

    def eq_items(ex, st, p, q, ety):
        if len(p.it) != len(q.it):
            return [("ret", False, st)]

        def go(i, s):
            if i == len(p.it):
                return [("ret", True, s)]
            return chain(ex, eq_val(ex, s, p.it[i], q.it[i], ety),
                         lambda r, z: go(i + 1, z) if ex.truth(z, r) else [("ret", False, z)])
        return go(0, st)

    @model("<A as core::slice::cmp::SlicePartialEq<B>>::equal_same_length",
           r"re:^std::vec::partial_eq::<impl std::cmp::PartialEq<.*> for .*>::(eq|ne)$",
           r"re:^core::slice::cmp::<impl std::cmp::PartialEq<\[U\]> for \[T\]>::(eq|ne)$",
           r"re:^<T as (std|core)::array::equality::SpecArrayEq<U, N>>::spec_(eq|ne)$",
           r"re:^core::array::equality::<impl std::cmp::PartialEq.*>::(eq|ne)$")
    def v_eq(ex, st, a, f, dty):
        p, q = ex.deref(st, a[0]), ex.deref(st, a[1])
        if not isinstance(p, Seq) or not isinstance(q, Seq):
            return NotImplemented
        ety = next(x for x in f["args"] if isinstance(x, int))
        neg = f["path"].endswith("ne")
        return out([(k, (not v if neg else v) if k == "ret" else v, s) for k, v, s in
                    eq_items(ex, st, ex.whole_seq(st, p), ex.whole_seq(st, q), ety)])

    @model(r"re:^(std|alloc|core)::slice::<impl \[T\]>::(join|concat)$", r"re:^(std|alloc)::slice::<impl \[V\]>::(join|concat)$")
    def join(ex, st, a, f, dty):
        q = ex.whole_seq(st, ex.deref(st, a[0]))
        if ex.kind[dty] == "seq":
            if len(a) > 1:
                raise Unsupported("join of sequences")
            r = ()
            for x in q.it:
                r += ex.whole_seq(st, ex.deref(st, x)).it
            return Seq(r)
        sep = segs(ex, st, a[1]) if len(a) > 1 else ()
        res = ()
        for i, x in enumerate(q.it):
            if i:
                res += sep
            res += segs(ex, st, x)
        return mkstr(st.norm(res))

    def inputs_of(ex, st, v, depth=6):
        """what a value depends on; None if that is not known"""
        v = ex.deref(st, v) if isinstance(v, (RefV, MutRef)) else v
        if isinstance(v, (Sym, Lin, Bits)):
            v = st.simp(v)
        if isinstance(v, Sym):
            return frozenset((v,))
        if isinstance(v, Str):
            r = frozenset(x for x in st.norm(v.s) if isinstance(x, Atom))
            return r
        if isinstance(v, Adt) and depth:
            r = [inputs_of(ex, st, x, depth - 1) for x in v.f]
            return None if None in r else frozenset().union(*r)
        if isinstance(v, (int, str, bool)):
            return frozenset()
        return None

    def put_sorted(ex, st, r, q, keys, dty):
        items = q.it
        keys = [ex.deref(st, k) if isinstance(k, (RefV, MutRef)) else k for k in keys]
        keys = [st.simp(k) if isinstance(k, (Sym, Lin, int)) else k for k in keys]
        if all(isinstance(k, int) or isinstance(k, Lin) or isinstance(k, Sym) and ex.kind[k.ty] == "int" for k in keys):
            def ins(i, order, s):
                if i == len(items):
                    ex.write_cell(s, r, Seq(tuple(items[j] for j in order)))
                    return [("ret", unit(dty), s)]

                def place(n, s2):
                    if n == 0 or ex.cmp(s2, "Le", keys[order[n - 1]], keys[i]):
                        return ins(i + 1, order[:n] + (i,) + order[n:], s2)
                    return ex.split(s2, lambda s3: place(n - 1, s3))
                return ex.split(s, lambda s2: place(len(order), s2))
            return ins(0, (), st)
        if len(items) > 3:
            st.note("sorting")
            return [("ret", unit(dty), st)]
        deps = [inputs_of(ex, st, k) for k in keys]
        free = all(deps) and sum(map(len, deps)) == len(frozenset().union(*deps))
        res = []
        for p in itertools.permutations(range(len(items))):
            s = st.copy()
            if not free:
                s.note("sorting")
            ex.write_cell(s, r, Seq(tuple(items[j] for j in p)))
            res.append(("ret", unit(dty), s))
        return res

    @model(SL % r"(sort|sort_unstable|sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key|reverse)")
    def v_sort(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0])
        name = f["path"].rsplit("::", 1)[1]
        if name == "reverse":
            ex.write_cell(st, r, Seq(q.it[::-1]))
            return unit(dty)
        if len(q.it) < 2:
            return unit(dty)
        if name.endswith("key"):
            rty = ret_ty_of(ex, st, a[1])
            if rty is None or len(q.it) > 12:
                st.note("sorting")
                return unit(dty)

            def keys(i, ks, s):
                if i == len(q.it):
                    return put_sorted(ex, s, r, q, ks, dty)
                return chain(ex, ex.call_value(s, a[1], [RefV(q.it[i])], rty), lambda k, s2: keys(i + 1, ks + (k,), s2))
            return out(keys(0, (), st))
        if name in ("sort", "sort_unstable"):
            if getattr(ex, "sort_texts", False) and all(isinstance(ex.deref(st, x), Str) for x in q.it):
                # some order that depends on the texts only
                ex.write_cell(st, r, Seq(sorted(q.it, key=lambda x: str(st.norm(ex.deref(st, x).s)))))
                return unit(dty)
        return out(put_sorted(ex, st, r, q, q.it, dty))

    @model(r"re:^(std|core)::array::<impl \[T; N\]>::map$")
    def arr_map(ex, st, a, f, dty):
        rty = ret_ty_of(ex, st, a[1])
        q = ex.whole_seq(st, ex.deref(st, a[0]))
        return out(chain(ex, drain(ex, st, It("seq", q, False), lambda acc, x, s: [
            (k, acc + (v,) if k == "ret" else v, z) for k, v, z in ex.call_value(s, a[1], [x], rty)], ()),
            lambda acc, s: [("ret", Seq(acc), s)]))

    @model(r"re:^(std|core)::char::methods::<impl char>::to_ascii_(upper|lower)case$")
    def ch_case(ex, st, a, f, dty):
        c = ex.char_norm(st, ex.deref(st, a[0]))
        if not isinstance(c, str):
            return NotImplemented
        return (c.upper() if "upper" in f["path"] else c.lower()) if ord(c) < 128 else c

    @model(r"re:^(core|std)::num::<impl [iu]\w+>::(abs|signum|is_power_of_two|count_ones|rem_euclid|pow)$")
    def num_fn(ex, st, a, f, dty):
        v = [st.simp(x) for x in a]
        if not all(isinstance(x, int) and not isinstance(x, bool) for x in v):
            return NotImplemented
        n = f["path"].rsplit("::", 1)[1]
        if n == "rem_euclid" and v[1] <= 0 or n in ("count_ones", "is_power_of_two") and v[0] < 0:
            return NotImplemented
        x = {"abs": lambda: abs(v[0]), "signum": lambda: (v[0] > 0) - (v[0] < 0), "is_power_of_two": lambda: v[0] > 0 and not v[0] & v[0] - 1,
             "count_ones": lambda: bin(v[0]).count("1"), "rem_euclid": lambda: v[0] % v[1], "pow": lambda: v[0] ** v[1] if v[1] < 200 else None}[n]()
        if x is None:
            return NotImplemented
        if not isinstance(x, bool):
            lo, hi = ex.intrange_ty(dty)
            if not lo <= x <= hi:
                return out([("panic", "attempt to %s with overflow" % n, st)])
        return x

    # ---- vec![..]
    @model("std::boxed::Box::<T>::new_uninit")
    def new_uninit(ex, st, a, f, dty):
        c = st.alloc(Adt(-1, 0, (None, Adt(-1, 0, (None,)))))
        return MutRef(c)

    @model("std::boxed::box_assume_init_into_vec_unsafe")
    def assume_init(ex, st, a, f, dty):
        v = ex.read_cell(st, a[0])
        st.d.pop(("h", a[0].c), None)
        while isinstance(v, Adt) and v.ty == -1:
            v = v.f[-1]
        return v

    @model("std::boxed::Box::<T>::new")
    def box_new(ex, st, a, f, dty):
        return RefV(a[0])

    # ---- memory
    @model("std::mem::take")
    def mem_take(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        v = ex.read_cell(st, r)
        k = ex.kind[dty]
        if k == "str":
            ex.write_cell(st, r, Str(()))
        elif k == "seq":
            ex.write_cell(st, r, Seq(()))
        elif T[dty].get("name") == "std::option::Option":
            ex.write_cell(st, r, opt(dty))
        else:
            raise Unsupported("mem::take")
        return v

    @model("std::mem::replace", "std::option::Option::<T>::replace")
    def mem_replace(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        v = ex.read_cell(st, r)
        ex.write_cell(st, r, opt(dty, a[1]) if "Option" in f["path"] else a[1])
        return v

    @model("std::option::Option::<T>::take")
    def opt_take(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        v = ex.read_cell(st, r)
        ex.write_cell(st, r, opt(dty))
        return v

    @model("std::mem::swap")
    def mem_swap(ex, st, a, f, dty):
        r, q = mutref(ex, st, a[0]), mutref(ex, st, a[1])
        x, y = ex.read_cell(st, r), ex.read_cell(st, q)
        ex.write_cell(st, r, y)
        ex.write_cell(st, q, x)
        return unit(dty)

    @model("std::mem::drop", "std::mem::forget", r"re:^std::ptr::drop_in_place$")
    def mem_drop(ex, st, a, f, dty):
        return unit(dty)

    # ---- paths
    @model("std::path::Path::is_absolute", "std::path::Path::is_relative", "std::path::Path::has_root")
    def is_abs(ex, st, a, f, dty):
        r = ask_prefix(st, segs(ex, st, a[0]), "/")
        return (not r) if f["path"].endswith("relative") else r

    def path_name(ex, st, s):
        """the last component of a path if it is a name (None otherwise); NotImplemented where that is not known"""
        s = st.norm(rfind_edge(st, s, mask("/")))
        if ask_empty(st, s):
            return None
        r = find_last(ex, st, s, ("cls", mask("/")))
        name = s if r is None else drop_pat(ex, st, r[1], ("cls", mask("/")))
        if not eq_str(ex, st, st.norm(name), (".",)):
            return None if eq_str(ex, st, st.norm(name), ("..",)) else st.norm(name)
        return None if r is None else NotImplemented

    @model("std::path::Path::extension", "std::path::Path::file_name", "std::path::Path::file_stem",
           "std::path::Path::parent")
    def p_part(ex, st, a, f, dty):
        s = segs(ex, st, a[0])
        n = f["path"].rsplit("::", 1)[1]
        if n != "parent":
            name = path_name(ex, st, s)
            if name is None:
                return opt(dty)
            if name is not NotImplemented:
                if n == "file_name":
                    return opt(dty, refstr(name))
                d = find_last(ex, st, name, ("cls", mask(".")))
                bare = d is None or ask_empty(st, d[0])
                if n == "file_stem":
                    return opt(dty, refstr(name if bare else d[0]))
                return opt(dty) if bare else opt(dty, refstr(drop_pat(ex, st, d[1], ("cls", mask(".")))))
        k = ("ppart", f["path"], s)
        w = st.d.get(k)
        if w is None:
            p, q = st.copy(), st.copy()
            p.d[k] = True
            q.d[k] = False
            raise Fork([p, q], "path part")
        if not w:
            return opt(dty)
        at = Atom(k)
        st.note("part of an unknown path")
        return opt(dty, RefV(Str((at,))))

    @model("std::path::Path::components")
    def p_comp(ex, st, a, f, dty):
        return It("components", segs(ex, st, a[0]))

    # ---- functions as values
    @model(r"re:^std::ops::(Fn|FnMut|FnOnce)::call(_mut|_once)?$")
    def fn_call(ex, st, a, f, dty):
        if f.get("body") is not None and f.get("kind") == "item" and f.get("id", -1) >= 0 and False:
            return NotImplemented
        t = ex.deref(st, a[1]) if isinstance(a[1], (RefV, MutRef)) else a[1]
        if not isinstance(t, Adt):
            return NotImplemented
        return out(ex.call_value(st, a[0], list(t.f), dty))

    # ---- iterators
    def mk(kind, extra=None):
        def fn(ex, st, a, f, dty):
            it = iter_of(ex, st, a[0])
            return extra(ex, st, it, a, f, dty)
        return fn

    IT = r"re:^(std::iter::Iterator|<.* as std::iter::Iterator>|.*<impl std::iter::Iterator for .*>)::%s$"
    BOOL = next(i for i, t in enumerate(T) if t["k"] == "bool")
    ex.boolty = BOOL
    ex.tuple_label = next((i for i, t in enumerate(T) if t["k"] == "tuple" and len(t["e"]) == 2), 0)

    def adapter(name, build):
        def fn(ex, st, a, f, dty):
            return build(ex, st, iter_of(ex, st, a[0]), a, f, dty)
        model(IT % name)(fn)

    def need_fty(ex, st, g):
        t = ret_ty_of(ex, st, g)
        return t
    adapter("map", lambda ex, st, it, a, f, dty: It("map", it, a[1], need_fty(ex, st, a[1])))
    adapter("filter", lambda ex, st, it, a, f, dty: It("filter", it, a[1], BOOL))
    adapter("take_while", lambda ex, st, it, a, f, dty: It("take_while", it, a[1], BOOL))
    adapter("skip_while", lambda ex, st, it, a, f, dty: It("skip_while", it, a[1], BOOL))
    adapter("filter_map", lambda ex, st, it, a, f, dty: It("filter_map", it, a[1], need_fty(ex, st, a[1])))
    adapter("map_while", lambda ex, st, it, a, f, dty: It("map_while", it, a[1], need_fty(ex, st, a[1])))
    adapter("enumerate", lambda ex, st, it, a, f, dty: It("enumerate", it, 0, ex.tuple_label))
    adapter("take", lambda ex, st, it, a, f, dty: It("take", it, a[1]))
    adapter("skip", lambda ex, st, it, a, f, dty: It("skip", it, a[1]))
    adapter("rev", lambda ex, st, it, a, f, dty: It("rev", it))
    adapter("(cloned|copied)", lambda ex, st, it, a, f, dty: It("cloned", it))
    adapter("zip", lambda ex, st, it, a, f, dty: It("zip", it, iter_of(ex, st, a[1]), ex.tuple_label))
    adapter("chain", lambda ex, st, it, a, f, dty: It("chain", it, iter_of(ex, st, a[1])))
    adapter("flatten", lambda ex, st, it, a, f, dty: It("flatten", it, None))
    adapter("flat_map", lambda ex, st, it, a, f, dty: It("flatten", It("map", it, a[1], need_fty(ex, st, a[1])), None))
    adapter("step_by", lambda ex, st, it, a, f, dty: It("step_by", it, stepn(ex, st, a[1]), None))
    adapter("inspect", lambda ex, st, it, a, f, dty: It("inspect", it, a[1], need_fty(ex, st, a[1])))
    adapter("scan", lambda ex, st, it, a, f, dty: It("scan", it, MutRef(st.alloc(a[1])), a[2], need_fty(ex, st, a[2])))

    def stepn(ex, st, n):
        n = st.simp(n)
        if not isinstance(n, int) or n < 1:
            raise Unsupported("step of unknown size")
        return n

    @model("re:^(std|core)::iter::from_fn$")
    def i_from_fn(ex, st, a, f, dty):
        return It("from_fn", a[0], need_fty(ex, st, a[0]))

    @model("re:^(std|core)::iter::successors$")
    def i_successors(ex, st, a, f, dty):
        return It("successors", a[0], a[1], need_fty(ex, st, a[1]))

    @model("re:^(std|core)::iter::(repeat|repeat_n)$")
    def i_repeat(ex, st, a, f, dty):
        return It("repeat", a[0]) if len(a) == 1 else It("take", It("repeat", a[0]), a[1])

    @model(IT % "partition")
    def i_partition(ex, st, a, f, dty):
        def step(acc, x, s):
            return chain(ex, ex.call_value(s, a[1], [RefV(x)], ex.boolty), lambda b, z: [
                ("ret", (acc[0] + (x,), acc[1]) if ex.truth(z, b) else (acc[0], acc[1] + (x,)), z)])
        if any(ex.kind[e] != "seq" for e in T[dty]["e"]):
            raise Unsupported("partition")
        return out(chain(ex, drain(ex, st, iter_of(ex, st, a[0]), step, ((), ())),
                         lambda acc, s: [("ret", Adt(dty, 0, (Seq(acc[0]), Seq(acc[1]))), s)]))

    @model(IT % "unzip")
    def i_unzip(ex, st, a, f, dty):
        if any(ex.kind[e] != "seq" for e in T[dty]["e"]):
            raise Unsupported("unzip")

        def step(acc, x, s):
            x = ex.resolve(s, x)
            return [("ret", (acc[0] + (x.f[0],), acc[1] + (x.f[1],)), s)]
        return out(chain(ex, drain(ex, st, iter_of(ex, st, a[0]), step, ((), ())),
                         lambda acc, s: [("ret", Adt(dty, 0, (Seq(acc[0]), Seq(acc[1]))), s)]))

    @model(r"re:^.* as std::iter::DoubleEndedIterator>::(rfind|rfold)$", r"re:^.*Iterator>::rposition$",
           r"re:^std::iter::(DoubleEndedIterator|Iterator)::(rfind|rfold|rposition)$")
    def i_rfind(ex, st, a, f, dty):
        n = f["path"].rsplit("::", 1)[1]
        if n == "rfold":
            return out(drain(ex, st, It("rev", iter_of(ex, st, a[0])), lambda acc, x, s: ex.call_value(s, a[2], [acc, x], dty), a[1]))
        it = ex.read_cell(st, a[0]) if isinstance(a[0], MutRef) else a[0]
        if n == "rposition":
            if not isinstance(it, It) or it.kind != "seq":
                raise Unsupported("rposition")
            total = len(ex.whole_seq(st, it.a[0]).it)

        def step(acc, x, s):
            return chain(ex, ex.call_value(s, a[1], [RefV(x) if n == "rfind" else x], ex.boolty),
                         lambda r, z: [("ret", Brk(total - 1 - acc if n == "rposition" else x) if ex.truth(z, r) else acc + 1, z)])
        res = []
        for k, v, s in drain(ex, st, It("rev", it), step, 0):
            if k == "ret" and isinstance(v, BrkAt):
                back(ex, st, a[0], s, v.it.a[0] if isinstance(v.it, It) and v.it.kind == "rev" else v.it)
                res.append((k, opt(dty, v.v), s))
            else:
                res.append((k, opt(dty), s) if k == "ret" else (k, v, s))
        return out(res)

    @model(r"re:^std::iter::Peekable::<I>::(next_if|next_if_eq)$")
    def i_next_if(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        if f["path"].endswith("_eq"):
            raise Unsupported("next_if_eq")

        def m(v, s):
            if v[0] is END:
                ex.write_cell(s, r, v[1])
                return [("ret", opt(dty), s)]

            def fin(b, z):
                if ex.truth(z, b):
                    ex.write_cell(z, r, v[1])
                    return [("ret", opt(dty, v[0]), z)]
                ex.write_cell(z, r, It("peek", v[1].a[0], It("some", v[0])))
                return [("ret", opt(dty), z)]
            return chain(ex, ex.call_value(s, a[1], [RefV(v[0])], ex.boolty), fin)
        return out(chain(ex, nxt(ex, st, ex.read_cell(st, r)), m))

    adapter("peekable", lambda ex, st, it, a, f, dty: It("peek", it, None))
    adapter("(fuse|by_ref)", lambda ex, st, it, a, f, dty: it)

    @model("re:^(std|core)::iter::once$")
    def once(ex, st, a, f, dty):
        return It("seq", Seq((a[0],)), False)

    @model("re:^(std|core)::iter::empty$")
    def iempty(ex, st, a, f, dty):
        return It("seq", Seq(()), False)

    @model(SL % "iter", r"re:^.* as std::iter::IntoIterator>::into_iter$",
           r"re:^.*<impl std::iter::IntoIterator for .*>::into_iter$",
           r"re:^std::option::Option::<T>::iter$")
    def into_iter(ex, st, a, f, dty):
        return iter_of(ex, st, a[0])

    @model(SL % "iter_mut")
    def iter_mut(ex, st, a, f, dty):
        r, q = seqcell(ex, st, a[0], False)
        return It("mutseq", r, 0)

    @model("std::path::Components::<'a>::as_path")
    def as_path(ex, st, a, f, dty):
        raise Unsupported("path components")

    @model(IT % "next")
    def i_next(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        cur = ex.read_cell(st, r)
        if not isinstance(cur, (It, Adt)):
            return NotImplemented
        if isinstance(cur, Adt) and not is_range(ex, cur):
            return NotImplemented

        def fin(v, s):
            ex.write_cell(s, r, v[1])
            return [("ret", opt(dty) if v[0] is END else opt(dty, v[0]), s)]
        return out(chain(ex, nxt(ex, st, cur), fin))

    @model(r"re:^.* as std::iter::DoubleEndedIterator>::next_back$")
    def i_next_back(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        cur = ex.read_cell(st, r)

        def fin(v, s):
            ex.write_cell(s, r, v[1])
            return [("ret", opt(dty) if v[0] is END else opt(dty, v[0]), s)]
        return out(chain(ex, nxt_back(ex, st, cur), fin))

    @model(IT % "peek", r"re:^std::iter::Peekable::<I>::peek$")
    def i_peek(ex, st, a, f, dty):
        r = mutref(ex, st, a[0])
        cur = ex.read_cell(st, r)
        if cur.a[1] is not None:
            return opt(dty, RefV(cur.a[1].a[0])) if cur.a[1].kind == "some" else opt(dty)

        def fin(v, s):
            ex.write_cell(s, r, It("peek", v[1], It("none") if v[0] is END else It("some", v[0])))
            return [("ret", opt(dty) if v[0] is END else opt(dty, RefV(v[0])), s)]
        return out(chain(ex, nxt(ex, st, cur.a[0]), fin))

    def back(ex, st, a, s, i2):
        """store the advanced iterator for methods taking &mut self"""
        if isinstance(a, MutRef):
            cur = ex.read_cell(s, a)
            if not isinstance(cur, MutRef):
                ex.write_cell(s, a, i2)

    @model(IT % "nth")
    def i_nth(ex, st, a, f, dty):
        n = st.simp(a[1])
        if not isinstance(n, int):
            lo, hi = st.interval(n)
            for i in range(0, 64):
                if ex.cmp(st, "Eq", n, i):
                    n = i
                    break
            else:
                n = 64
                st.note("nth of an unknown index")
        r = mutref(ex, st, a[0])

        def go(i, it, s):
            def fin(v, z):
                if v[0] is END or i == 0:
                    ex.write_cell(z, r, v[1])
                    return [("ret", opt(dty) if v[0] is END else opt(dty, v[0]), z)]
                return go(i - 1, v[1], z)
            return chain(ex, nxt(ex, s, it), fin)
        return out(go(n, ex.read_cell(st, r), st))

    @model(IT % "last")
    def i_last(ex, st, a, f, dty):
        return out(chain(ex, drain(ex, st, iter_of(ex, st, a[0]), lambda acc, x, s: [("ret", (x,), s)], ()),
                         lambda acc, s: [("ret", opt(dty, acc[0]) if acc else opt(dty), s)]))

    @model(IT % "count")
    def i_count(ex, st, a, f, dty):
        it = iter_of(ex, st, a[0])
        return out(drain(ex, st, it, lambda acc, x, s: [("ret", acc + 1, s)], 0))

    @model(IT % "sum")
    def i_sum(ex, st, a, f, dty):
        it = iter_of(ex, st, a[0])
        lo, hi = ex.intrange_ty(dty)

        def step(acc, x, s):
            v = ex.arith(s, "Add", acc, ex.deref(s, x), dty)
            if not ex.in_range(s, v, lo, hi):
                return [("panic", ("attempt to add with overflow in sum", f["id"], 0), s)]
            return [("ret", v, s)]
        return out(drain(ex, st, it, step, 0))

    @model(IT % "(any|all)")
    def i_any(ex, st, a, f, dty):
        want = f["path"].endswith("any")
        it0 = ex.read_cell(st, a[0]) if isinstance(a[0], MutRef) else a[0]
        if isinstance(it0, It) and it0.kind == "chars":
            m = pred_mask(ex, st, a[1])
            if m is not None:
                r = find_class(st, it0.a[0], m if want else ALL & ~m)
                return (r is not None) == want
        it = iter_of(ex, st, a[0])

        def step(acc, x, s):
            return chain(ex, ex.call_value(s, a[1], [x], BOOL),
                         lambda r, z: [("ret", Brk(want) if ex.truth(z, r) == want else None, z)])
        return out([(k, (v.v if isinstance(v, BrkAt) else not want) if k == "ret" else v, s)
                    for k, v, s in drain(ex, st, it, step, None)])

    @model(IT % "(find|find_map|position)")
    def i_find(ex, st, a, f, dty):
        n = f["path"].rsplit("::", 1)[1]
        it0 = ex.read_cell(st, a[0]) if isinstance(a[0], MutRef) else a[0]
        it = it0
        r0 = a[0]

        def step(acc, x, s):
            if n == "find_map":
                def fin(r, z):
                    r = ex.resolve(z, r)
                    return [("ret", Brk(r.f[0]) if r.v == 1 else acc + 1, z)]
                return chain(ex, ex.call_value(s, a[1], [x], dty), fin)
            arg = RefV(x) if n == "find" else x
            return chain(ex, ex.call_value(s, a[1], [arg], BOOL),
                         lambda r, z: [("ret", Brk(acc if n == "position" else x) if ex.truth(z, r) else acc + 1, z)])
        res = []
        for k, v, s in drain(ex, st, it, step, 0):
            if k != "ret":
                res.append((k, v, s))
            elif isinstance(v, BrkAt):
                back(ex, st, r0, s, v.it)
                res.append(("ret", opt(dty, v.v), s))
            else:
                res.append(("ret", opt(dty), s))
        return out(res)

    @model(IT % "fold")
    def i_fold(ex, st, a, f, dty):
        it = iter_of(ex, st, a[0])
        return out(drain(ex, st, it, lambda acc, x, s: ex.call_value(s, a[2], [acc, x], dty), a[1]))

    @model(IT % "for_each")
    def i_foreach(ex, st, a, f, dty):
        it = iter_of(ex, st, a[0])
        return out(chain(ex, drain(ex, st, it, lambda acc, x, s: ex.call_value(s, a[1], [x], dty), None),
                         lambda v, s: [("ret", unit(dty), s)]))

    @model(IT % "(try_fold|try_for_each)")
    def i_tryfold(ex, st, a, f, dty):
        it = a[0]
        name = T[dty].get("name")
        if name not in ("std::option::Option", "std::result::Result"):
            raise Unsupported("try_fold")
        good = 1 if name == "std::option::Option" else 0
        tf = f["path"].endswith("try_fold")

        def step(acc, x, s):
            def fin(r, z):
                r = ex.resolve(z, r)
                return [("ret", r.f[0] if r.v == good else Brk(r), z)]
            return chain(ex, ex.call_value(s, a[2] if tf else a[1], [acc, x] if tf else [x], dty), fin)
        res = []
        init = a[1] if tf else Adt(payload(ex, dty, good), 0, ())
        for k, v, s in drain(ex, st, it, step, init):
            if k != "ret":
                res.append((k, v, s))
            elif isinstance(v, BrkAt):
                res.append(("ret", v.v, s))
            else:
                res.append(("ret", Adt(dty, good, (v,)), s))
        return out(res)

    @model(IT % "(max|min)")
    def i_max(ex, st, a, f, dty):
        it = iter_of(ex, st, a[0])
        mx = f["path"].endswith("max")

        def step(acc, x, s):
            if acc is None:
                return [("ret", x, s)]
            ge = ex.cmp(s, "Ge", ex.deref(s, x), ex.deref(s, acc))
            return [("ret", (x if ge else acc) if mx else (acc if ge and x != acc else x), s)]
        return out(chain(ex, drain(ex, st, it, step, None), lambda v, s: [("ret", opt(dty) if v is None else opt(dty, v), s)]))

    def collect_into(ex, st, it, dty):
        k = ex.kind[dty]
        name = T[dty].get("name")
        if name in ("std::result::Result", "std::option::Option"):
            good = 0 if name == "std::result::Result" else 1
            inner = payload(ex, dty, good)

            def step(acc, x, s):
                x = ex.resolve(s, x)
                if x.v != good:
                    return [("ret", Brk(Adt(dty, x.v, x.f)), s)]
                return [("ret", acc + (x.f[0],), s)]
            res = []
            for kk, v, s in drain(ex, st, it, step, ()):
                if kk != "ret":
                    res.append((kk, v, s))
                elif isinstance(v, BrkAt):
                    res.append(("ret", v.v, s))
                else:
                    res += [(k2, Adt(dty, good, (w,)) if k2 == "ret" else w, s2)
                            for k2, w, s2 in collect_into(ex, s, It("seq", Seq(v), False), inner)]
            return res
        if k == "seq":
            return chain(ex, drain(ex, st, it, lambda acc, x, s: [("ret", acc + (x,), s)], ()),
                         lambda acc, s: [("ret", Seq(acc), s)])
        if k == "str":
            base = it
            if isinstance(base, It) and base.kind == "chars":
                return [("ret", mkstr(st.norm(base.a[0])), st)]
            return chain(ex, drain(ex, st, it, lambda acc, x, s: [("ret", acc + segs(ex, s, x), s)], ()),
                         lambda acc, s: [("ret", mkstr(s.norm(acc)), s)])
        raise Unsupported("collect into " + ex.tname(dty))

    @model(IT % "collect", r"re:^<.* as std::iter::FromIterator<.*>>::from_iter$",
           r"re:^<std::vec::Vec<T> as std::vec::spec_from_iter::SpecFromIter<T, I>>::from_iter$",
           r"re:^std::vec::in_place_collect::.*::from_iter$")
    def collect(ex, st, a, f, dty):
        return out(collect_into(ex, st, iter_of(ex, st, a[0]), dty))

    @model(IT % "(eq|ne)")
    def i_eq(ex, st, a, f, dty):
        def items(it, s):
            return drain(ex, s, it, lambda acc, x, z: [("ret", acc + (x,), z)], ())

        def same(p, q, s):
            if len(p) != len(q):
                return [("ret", False, s)]
            for x, y in zip(p, q):
                x, y = ex.deref(s, x), ex.deref(s, y)
                if isinstance(x, Str) and isinstance(y, Str):
                    r = eq_str(ex, s, s.norm(x.s), s.norm(y.s))
                elif isinstance(x, (str, Atom)) and isinstance(y, (str, Atom)):
                    r = ex.char_cmp(s, ex.char_norm(s, x), ex.char_norm(s, y), "Eq")
                elif all(isinstance(s.simp(z), int) for z in (x, y)):
                    r = s.simp(x) == s.simp(y)
                else:
                    raise Unsupported("iterator comparison")
                if not r:
                    return [("ret", False, s)]
            return [("ret", True, s)]
        neg = f["path"].endswith("ne")
        r = chain(ex, items(iter_of(ex, st, a[0]), st), lambda p, s: chain(ex, items(iter_of(ex, s, a[1]), s), lambda q, z: same(p, q, z)))
        return out([(k, v != neg if k == "ret" else v, s) for k, v, s in r])

    @model("std::ops::RangeInclusive::<Idx>::new")
    def ri_new(ex, st, a, f, dty):
        return Adt(dty, 0, (a[0], a[1], False))

    @model("std::ops::RangeInclusive::<Idx>::start", "std::ops::RangeInclusive::<Idx>::end")
    def ri_start(ex, st, a, f, dty):
        return RefV(ex.deref(st, a[0]).f[0 if f["path"].endswith("start") else 1])

    @model(r"re:^std::ops::Range(Inclusive|From|To|ToInclusive)?::<Idx>::contains$")
    def r_contains(ex, st, a, f, dty):
        r = ex.deref(st, a[0])
        x = ex.deref(st, a[1])
        nm = T[r.ty]["name"]
        if isinstance(x, (str, Atom)):
            if nm != "std::ops::RangeInclusive":
                raise Unsupported("char range")
            return ex.char_cmp(st, r.f[0], ex.char_norm(st, x), "Le") and \
                ex.char_cmp(st, ex.char_norm(st, x), r.f[1], "Le")
        lo = r.f[0] if nm in ("std::ops::Range", "std::ops::RangeInclusive", "std::ops::RangeFrom") else None
        hi = r.f[1] if nm in ("std::ops::Range", "std::ops::RangeInclusive") else None
        if nm in ("std::ops::RangeTo", "std::ops::RangeToInclusive"):
            hi = r.f[0]
        if lo is not None and not ex.cmp(st, "Le", ex.deref(st, lo), x):
            return False
        if hi is None:
            return True
        return ex.cmp(st, "Le" if "Inclusive" in nm else "Lt", x, ex.deref(st, hi))

    @model(r"re:^<.* as thiserror::__private::As(Display|DynError)<.*>>::\w+$",
           r"re:^<T as thiserror::")
    def asdisp(ex, st, a, f, dty):
        return a[0]

    # ---- resolve the regular expressions against the functions present
    for f in F.fns:
        p = f["path"]
        if p in M or f["local"]:
            continue
        for r, fn in rx:
            if r.search(p):
                M[p] = fn
                break
    for t in T:
        if t["k"] == "fndef" and t.get("inst") is None and t["name"] not in M:
            for r, fn in rx:
                if r.search(t["name"]):
                    M[t["name"]] = fn
                    break
