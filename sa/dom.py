"""Abstract domains: values, strings over character-class atoms, integer intervals and
bit vectors, and the trace-partitioned state that refines them."""

# ---------------------------------------------------------------- character classes
NCLS = 133
C_WS, C_NUM, C_UP, C_BOM, C_OTHER = 128, 129, 130, 131, 132
ALL = (1 << NCLS) - 1


def cls(c):
    o = ord(c)
    if o < 128:
        return o
    if c == "\ufeff":
        return C_BOM
    if c.isspace() and c not in "\x1c\x1d\x1e\x1f":
        return C_WS
    if c.isnumeric():
        return C_NUM
    if c.isupper():
        return C_UP
    return C_OTHER


def mask(chars):
    m = 0
    for c in chars:
        m |= 1 << cls(c)
    return m


WS = mask("\t\n\x0b\x0c\r ") | 1 << C_WS
DIGIT = mask("0123456789")
INTCH = DIGIT | mask("+-")
DECIN = DIGIT | mask("+-._")
DECOUT = DIGIT | mask("-.")
NL = mask("\n")
CR = mask("\r")


def single(m):
    """the only ASCII character of a mask, if there is exactly one"""
    if m and m & (m - 1) == 0 and m < 1 << 128:
        return chr(m.bit_length() - 1)
    return None


def maskstr(m):
    if m == ALL:
        return "any"
    inv = ALL & ~m
    def lst(x):
        out = []
        for i in range(128):
            if x >> i & 1:
                out.append(repr(chr(i))[1:-1])
        for i, n in ((C_WS, "<ws>"), (C_NUM, "<num>"), (C_UP, "<upper>"), (C_BOM, "<bom>"), (C_OTHER, "<other>")):
            if x >> i & 1:
                out.append(n)
        return "".join(out)
    if bin(inv).count("1") < bin(m).count("1"):
        return "not[" + lst(inv) + "]"
    return "[" + lst(m) + "]"


# ---------------------------------------------------------------- values
class V:
    __slots__ = ("_h",)

    def key(self):
        raise NotImplementedError

    def __hash__(self):
        h = getattr(self, "_h", None)
        if h is None:
            h = self._h = hash((type(self).__name__, self.key()))
        return h

    def __eq__(self, o):
        return self is o or (type(self) is type(o) and hash(self) == hash(o) and self.key() == o.key())

    def __ne__(self, o):
        return not self == o


class Sym(V):
    """an unknown value; key identifies it (two equal keys denote the same value)"""
    __slots__ = ("k", "ty")

    def __init__(self, k, ty):
        self.k, self.ty = k, ty

    def key(self):
        return self.k

    def __repr__(self):
        return "$%s" % (kstr(self.k),)


class Adt(V):
    __slots__ = ("ty", "v", "f")

    def __init__(self, ty, v, f):
        self.ty, self.v, self.f = ty, v, tuple(f)

    def key(self):
        return (self.ty, self.v, self.f)

    def __repr__(self):
        return "%s#%d(%s)" % (self.ty, self.v, ", ".join(map(repr, self.f)))


class Atom(V):
    __slots__ = ("k",)

    def __init__(self, k):
        self.k = k

    def key(self):
        return self.k

    def __repr__(self):
        return "<%s>" % (kstr(self.k),)


class Str(V):
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = tuple(s)

    def key(self):
        return self.s

    def __repr__(self):
        return "S" + repr(list(self.s))


class Tail(V):
    __slots__ = ("k", "ety", "i")

    def __init__(self, k, ety, i=0):
        self.k, self.ety, self.i = k, ety, i

    def key(self):
        return (self.k, self.i)

    def __repr__(self):
        return "..%s+%d" % (kstr(self.k), self.i)


class Seq(V):
    """Vec / slice / array: known items, then possibly an unknown tail"""
    __slots__ = ("it", "tail")

    def __init__(self, it, tail=None):
        self.it, self.tail = tuple(it), tail

    def key(self):
        return (self.it, self.tail)

    def __repr__(self):
        return "[%s%s]" % (", ".join(map(repr, self.it)), "" if self.tail is None else repr(self.tail))


class RefV(V):
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = v

    def key(self):
        return self.v

    def __repr__(self):
        return "&%r" % (self.v,)


class MutRef(V):
    __slots__ = ("c", "p")

    def __init__(self, c, p=()):
        self.c, self.p = c, tuple(p)

    def key(self):
        return (self.c, self.p)

    def __repr__(self):
        return "&mut %s%s" % (self.c, self.p)


class FnV(V):
    __slots__ = ("ty",)

    def __init__(self, ty):
        self.ty = ty

    def key(self):
        return self.ty

    def __repr__(self):
        return "fn#%s" % self.ty


class It(V):
    __slots__ = ("kind", "a")

    def __init__(self, kind, *a):
        self.kind, self.a = kind, a

    def key(self):
        return (self.kind, self.a)

    def __repr__(self):
        return "It.%s%r" % (self.kind, self.a)


class Lin(V):
    """c + sum(coef * leaf); leaf: Sym (integer or decimal) or Atom (its byte length)"""
    __slots__ = ("c", "t")

    def __init__(self, c, t):
        self.c, self.t = c, t

    def key(self):
        return (self.c, self.t)

    def __repr__(self):
        return "(%s%s)" % (self.c, "".join(" + %d*%r" % (k, l) for l, k in self.t))


class Bits(V):
    """little endian bits of an integer; entry 0, 1 or (sym key, index, sym)"""
    __slots__ = ("b", "signed")

    def __init__(self, b, signed):
        self.b, self.signed = tuple(b), signed

    def key(self):
        return (self.b, self.signed)

    def __repr__(self):
        return "bits[%s]" % ",".join(str(x) if isinstance(x, int) else "%s.%d" % (kstr(x[0]), x[1])
                                     for x in self.b)


class Discr(V):
    """discriminant of an enum value whose variant is not known yet"""
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def key(self):
        return self.s

    def __repr__(self):
        return "discr(%r)" % self.s


class Fmt(V):
    """format arguments: pieces (str or (type, value))"""
    __slots__ = ("p",)

    def __init__(self, p):
        self.p = tuple(p)

    def key(self):
        return self.p

    def __repr__(self):
        return "fmt%r" % (self.p,)


def kstr(k):
    if isinstance(k, tuple):
        return ".".join(kstr(x) for x in k)
    return str(k) if not isinstance(k, V) else repr(k)


def lin(c, terms):
    """normalised linear expression: an int if constant, the leaf if it is exactly one"""
    d = {}
    for l, k in terms:
        d[l] = d.get(l, 0) + k
    t = tuple(sorted(((l, k) for l, k in d.items() if k), key=lambda x: repr(x[0])))
    if not t:
        return c
    if c == 0 and len(t) == 1 and t[0][1] == 1 and isinstance(t[0][0], Sym):
        return t[0][0]
    return Lin(c, t)


def linparts(v):
    """(const, terms) of an int / Sym / Lin, None for other shapes"""
    if isinstance(v, bool):
        return None
    if isinstance(v, int):
        return v, ()
    if isinstance(v, Sym):
        return 0, ((v, 1),)
    if isinstance(v, Lin):
        return v.c, v.t
    return None


# ---------------------------------------------------------------- state
class Fork(Exception):
    """the pending question has these refinements of the state as answers"""

    def __init__(self, sts, why=""):
        self.sts = sts
        self.why = why


class Infeasible(Exception):
    pass


class Cut(Exception):
    """exploration bound reached (recorded, never reported)"""


class AF:
    """facts about an atom: charset, first-char and last-char sets (if nonempty), minimum
    length, exactly-one-char"""
    __slots__ = ("m", "f", "l", "min", "one")

    def __init__(self, m=ALL, f=None, l=None, min=0, one=False):
        self.m = m
        self.f = m if f is None else f & m
        self.l = m if l is None else l & m
        self.min = 1 if one else min
        self.one = one
        if one:
            self.m = self.f = self.l = self.m & self.f & self.l

    def __repr__(self):
        return "AF(%s%s%s%s%s)" % (maskstr(self.m), "" if self.f == self.m else " first " + maskstr(self.f),
                                   "" if self.l == self.m else " last " + maskstr(self.l),
                                   " nonempty" if self.min else "", " one" if self.one else "")


class St:
    __slots__ = ("d", "cons", "notes", "forks", "nh", "trace")

    def __init__(self):
        self.d = {}
        self.cons = ()
        self.notes = frozenset()
        self.forks = 0
        self.nh = 0
        self.trace = None

    def copy(self):
        s = St.__new__(St)
        s.d = self.d.copy()
        s.cons = self.cons
        s.notes = self.notes
        s.forks = self.forks
        s.nh = self.nh
        s.trace = self.trace
        return s

    def note(self, n):
        self.notes = self.notes | {n}

    # heap
    def alloc(self, v):
        c = self.nh
        self.nh += 1
        self.d["h", c] = v
        return c

    # ---- atoms
    def af(self, a):
        return self.d.get(("at", a.k)) or self.default_af(a)

    def default_af(self, a):
        k = a.k
        if isinstance(k, tuple) and k and k[0] == "disp":
            if k[1] == "ld":
                return self.ld_af(k[2])
            m = self.disp_mask(k)
            return AF(m, min=1)
        return AF()

    def ld_af(self, v):
        """printed Decimal that was read from a text: that text, or a canonical number"""
        m = f = l = mn = 0
        s = self.norm(v.k[1])
        for kk, ss, arg, want in self.cons:
            if kk == "parse" and arg[0] == "dec" and ss == s and want:
                return AF(DECOUT, min=1)
        for x in s:
            if isinstance(x, str):
                m |= mask(x)
                if not mn:
                    f |= 1 << cls(x[0])
                l = 1 << cls(x[-1])
                mn = 1
            else:
                g = self.af(x)
                m |= g.m
                if not mn:
                    f |= g.f
                l = g.l if g.min else l | g.l
                mn |= g.min
        return AF(m | DECOUT, f | DECOUT, l | DECOUT, int(bool(mn)))

    DISP = {}

    def disp_mask(self, k):
        kind = k[1]
        if kind == "int":
            lo = self.interval(k[2])[0]
            return DIGIT if lo is not None and lo >= 0 else DIGIT | mask("-")
        if kind == "dec":
            return DECOUT
        if kind == "leaf":
            return St.DISP.get(k[3], ALL)
        return ALL

    def set_af(self, a, f):
        """record facts about an atom; an impossible one makes the state infeasible"""
        if f.one and not f.m:
            raise Infeasible()
        if f.min and not (f.f and f.l):
            raise Infeasible()
        if not f.min and not (f.m and f.f and f.l):
            self.subst(a, ())
            return
        if f.one:
            c = single(f.m)
            if c is not None:
                self.subst(a, (c,))
                return
        self.d["at", a.k] = f

    def subst(self, a, segs):
        self.d["sub", a.k] = tuple(segs)

    def norm(self, segs):
        out = []
        self._norm(segs, out)
        return tuple(out)

    def whole(self, s):
        """key of the printed-value atom (kinds disp / pr) this text is all of, if any"""
        if len(s) == 1 and isinstance(s[0], Atom) and isinstance(s[0].k, tuple) and s[0].k and \
                s[0].k[0] in ("disp", "pr"):
            return s[0].k
        if len(s) >= 1:
            for k, sub in self.d.items():
                if k[0] == "sub" and isinstance(k[1], tuple) and k[1] and k[1][0] in ("disp", "pr") \
                        and self.norm(sub) == s:
                    return k[1]
        return None

    def _norm(self, segs, out):
        for s in segs:
            if isinstance(s, str):
                if s:
                    if out and isinstance(out[-1], str):
                        out[-1] += s
                    else:
                        out.append(s)
            else:
                sub = self.d.get(("sub", s.k))
                if sub is not None:
                    self._norm(sub, out)
                else:
                    k = s.k
                    if isinstance(k, tuple) and k and k[0] == "disp" and k[1] == "int":
                        v = self.simp(k[2])
                        if isinstance(v, int):
                            self._norm((str(v),), out)
                            continue
                        if v is not k[2] and v != k[2]:
                            s = Atom(("disp", "int", v))
                    out.append(s)

    # ---- integers
    INTRANGE = None     # set by the engine: type id -> (lo, hi)

    def interval(self, v):
        """(lo, hi); None for unbounded"""
        if isinstance(v, bool):
            return (int(v), int(v))
        if isinstance(v, int):
            return (v, v)
        if isinstance(v, Sym):
            r = self.d.get(("iv", v.k))
            if r is not None:
                return r[0], r[1]
            return St.INTRANGE(v)
        if isinstance(v, Atom):
            f = self.af(v)
            if f.one:
                return (1, 4) if f.m >> 128 else (1, 1)
            return (f.min, 1 << 62)
        if isinstance(v, Lin):
            lo = hi = v.c
            for l, k in v.t:
                a, b = self.interval(l)
                if k < 0:
                    a, b = b, a
                lo = None if lo is None or a is None else lo + k * a
                hi = None if hi is None or b is None else hi + k * b
            return lo, hi
        if isinstance(v, Bits):
            v = self.simp(v)
            if isinstance(v, int):
                return v, v
            n = len(v.b)
            lo = hi = 0
            for i, b in enumerate(v.b):
                w = 1 << i
                if v.signed and i == n - 1:
                    w = -w
                if b == 1 and isinstance(b, int):
                    lo += w
                    hi += w
                elif not isinstance(b, int):
                    if w > 0:
                        hi += w
                    else:
                        lo += w
            return lo, hi
        return None, None

    def excl(self, v):
        r = self.d.get(("iv", v.k))
        return r[2] if r is not None else frozenset()

    def set_iv(self, v, lo, hi, ex):
        while lo is not None and lo in ex:
            lo += 1
        while hi is not None and hi in ex:
            hi -= 1
        if lo is not None and hi is not None and lo > hi:
            raise Infeasible()
        self.d["iv", v.k] = (lo, hi, ex)

    def simp(self, v):
        """value with the state's knowledge applied"""
        if isinstance(v, Sym):
            r = self.d.get(("iv", v.k))
            if r is not None and r[0] is not None and r[0] == r[1]:
                return r[0]
            r = self.d.get(("b", v.k))
            if r is not None:
                return r
            return v
        if isinstance(v, Bits):
            ch = False
            out = []
            for b in v.b:
                if not isinstance(b, int):
                    r = self.d.get(("bit", b[0], b[1]))
                    if r is None:
                        iv = self.interval(b[2])
                        if iv[0] is not None and iv[0] == iv[1]:
                            r = iv[0] >> b[1] & 1
                        elif iv[0] is not None and iv[0] >= 0 and iv[1] < 1 << b[1]:
                            r = 0
                    if r is not None:
                        b = r
                        ch = True
                out.append(b)
            if all(isinstance(b, int) for b in out):
                n = sum(b << i for i, b in enumerate(out))
                if v.signed and out and out[-1]:
                    n -= 1 << len(out)
                return n
            return Bits(out, v.signed) if ch else v
        if isinstance(v, Lin):
            c, t = v.c, []
            ch = False
            for l, k in v.t:
                if isinstance(l, Atom):
                    n = self.norm((l,))
                    if n != (l,):
                        ch = True
                        for s in n:
                            if isinstance(s, str):
                                c += k * len(s.encode())
                            else:
                                t.append((s, k))
                        continue
                    f = self.af(l)
                    if f.one and not f.m >> 128:
                        c += k
                        ch = True
                        continue
                    t.append((l, k))
                else:
                    x = self.simp(l)
                    if x is not l:
                        p = linparts(x)
                        if p:
                            ch = True
                            c += k * p[0]
                            t += [(a, k * b) for a, b in p[1]]
                            continue
                    t.append((l, k))
            return lin(c, t) if ch else v
        return v

    def blen(self, segs):
        """byte length as a linear expression"""
        c, t = 0, []
        for s in self.norm(segs):
            if isinstance(s, str):
                c += len(s.encode())
            else:
                t.append((s, 1))
        return self.simp(lin(c, t)) if t else c

    # ---- feasibility of recorded negative facts
    def consistent(self):
        """re-decide the recorded facts under the refined atoms"""
        keep = []
        for kind, segs, arg, want in self.cons:
            n = self.norm(segs)
            if kind == "eq":
                r = eq_lit(self, n, arg)
            elif kind == "prefix":
                r = prefix_lit(self, n, arg)
            elif kind == "suffix":
                r = suffix_lit(self, n, arg)
            elif kind == "empty":
                r = empty(self, n)
            elif kind == "parse":
                r = parse_decide(self, n, arg)
            else:
                r = None
            if r is None:
                keep.append((kind, n, arg, want))
            elif r != want:
                return False
        self.cons = tuple(keep)
        return True

    def require(self, kind, segs, arg, want):
        self.cons = self.cons + ((kind, segs, arg, want),)


# ---------------------------------------------------------------- string decisions
def empty(st, segs):
    """True / False / None"""
    unk = False
    for s in segs:
        if isinstance(s, str):
            if s:
                return False
        elif st.af(s).min:
            return False
        else:
            unk = True
    return None if unk else True


def nfa(st, segs, lit, prefix=False):
    """set of positions of lit reachable after segs (prefix: len(lit) absorbs)"""
    n = len(lit)
    pos = {0}
    done = False
    for s in segs:
        new = set()
        if prefix and n in pos:
            return {n}
        if isinstance(s, str):
            for p in pos:
                k = min(len(s), n - p) if prefix else len(s)
                if lit[p:p + k] == s[:k] and p + k <= n:
                    new.add(p + k)
        else:
            f = st.af(s)
            for p in pos:
                if not f.min:
                    new.add(p)
                q = p
                while q < n:
                    c = 1 << cls(lit[q])
                    if not (f.f if q == p else f.m) & c:
                        break
                    q += 1
                    if f.l & c or prefix and q == n and not f.one:
                        new.add(q)
                    if f.one:
                        break
        pos = new
        if not pos:
            return pos
    return pos


def eq_lit(st, segs, lit):
    if all(isinstance(s, str) for s in segs):
        return "".join(segs) == lit
    return None if len(lit) in nfa(st, segs, lit) else False


def prefix_lit(st, segs, lit):
    if not lit:
        return True
    if segs and isinstance(segs[0], str) and len(segs[0]) >= len(lit):
        return segs[0].startswith(lit)
    if all(isinstance(s, str) for s in segs):
        return "".join(segs).startswith(lit)
    return None if len(lit) in nfa(st, segs, lit, True) else False


def suffix_lit(st, segs, lit):
    """decided only from literal tails and last-character sets"""
    rest = lit
    for s in reversed(segs):
        if not rest:
            return True
        if isinstance(s, str):
            k = min(len(s), len(rest))
            if s[-k:] != rest[-k:]:
                return False
            rest = rest[:-k]
        else:
            f = st.af(s)
            if f.min and not f.l >> cls(rest[-1]) & 1:
                return False
            if not f.min and not f.l >> cls(rest[-1]) & 1:
                # must be empty; look further left
                r = suffix_lit(st, segs[:segs.index(s)], rest)
                return False if r is False else None
            return None
    return not rest


def match_ways(st, segs, lit, prefix):
    """all ways segs can equal (or start with) lit: list of ([(atom, literal-or-(lit, 'rest'))])"""
    n = len(lit)
    out = []

    def go(i, p, acc):
        if prefix and p == n:
            out.append(list(acc))
            return
        if i == len(segs):
            if p == n:
                out.append(list(acc))
            return
        s = segs[i]
        if isinstance(s, str):
            k = min(len(s), n - p) if prefix else len(s)
            if p + k <= n and lit[p:p + k] == s[:k]:
                go(i + 1, p + k, acc)
            return
        f = st.af(s)
        if not f.min:
            go(i + 1, p, acc + [(s, "", False)])
        q = p
        while q < n:
            c = 1 << cls(lit[q])
            if not (f.f if q == p else f.m) & c:
                break
            q += 1
            if prefix and q == n:
                if f.one:
                    go(i + 1, q, acc + [(s, lit[p:q], False)])
                else:
                    go(i + 1, q, acc + [(s, lit[p:q], True)])
            elif f.l & c:
                go(i + 1, q, acc + [(s, lit[p:q], False)])
            if f.one:
                break
    go(0, 0, [])
    return out


def assign(st, a, lit, rest):
    """atom a becomes lit (rest: lit followed by an unknown remainder)"""
    if not rest:
        st.subst(a, (lit,) if lit else ())
        return
    f = st.af(a)
    b = Atom(sub_key(a, "/" + lit))
    st.subst(a, (lit, b))
    lastc = 1 << cls(lit[-1])
    st.set_af(b, AF(f.m, f.m, f.l, 0 if f.l & lastc else 1))


def sub_key(a, tag):
    k = a.k
    if isinstance(k, tuple) and k and k[0] == "a":
        return ("a", k[1], k[2] + tag)
    return ("a", k, tag)


def refine_true(st, segs, lit, prefix):
    alts = []
    for way in match_ways(st, segs, lit, prefix):
        s2 = st.copy()
        try:
            for a, l, r in way:
                assign(s2, a, l, r)
        except Infeasible:
            continue
        alts.append(s2)
    return alts


def ask_eq(st, segs, lit):
    segs = st.norm(segs)
    r = eq_lit(st, segs, lit)
    if r is not None:
        return r
    if ("eq", segs, lit, False) in st.cons:
        return False
    if lit == "":
        return ask_empty(st, segs)
    no = st.copy()
    no.require("eq", segs, lit, False)
    raise Fork(refine_true(st, segs, lit, False) + [no], "eq")


def ask_prefix(st, segs, lit):
    segs = st.norm(segs)
    r = prefix_lit(st, segs, lit)
    if r is not None:
        return r
    if ("prefix", segs, lit, False) in st.cons:
        return False
    no = st.copy()
    a = segs[0]
    if len(lit) == 1 and not isinstance(a, str) and st.af(a).min:
        f = st.af(a)
        m = ALL & ~(1 << cls(lit))
        no.set_af(a, AF(f.m, f.f & m, f.l, f.min, f.one))
    else:
        no.require("prefix", segs, lit, False)
    raise Fork(refine_true(st, segs, lit, True) + [no], "prefix")


def ask_suffix(st, segs, lit):
    segs = st.norm(segs)
    r = suffix_lit(st, segs, lit)
    if r is not None:
        return r
    if ("suffix", segs, lit, False) in st.cons:
        return False
    alts = []
    # one character at a time on the last segment
    a = segs[-1]
    rest = lit
    i = len(segs) - 1
    while isinstance(segs[i], str):
        rest = rest[:-min(len(segs[i]), len(rest))]
        i -= 1
    a = segs[i]
    f = st.af(a)
    c = 1 << cls(rest[-1])
    try:
        e = st.copy()
        if f.min:
            raise Infeasible()
        e.subst(a, ())
        alts.append(e)
    except Infeasible:
        pass
    try:
        y = st.copy()
        if f.one:
            y.set_af(a, AF(f.m & c, one=True))
        else:
            b = Atom(sub_key(a, "\\" + rest[-1]))
            y.subst(a, (b, rest[-1]))
            y.set_af(b, AF(f.m, f.f, f.m, 0 if f.f & c else 1))
        alts.append(y)
    except Infeasible:
        pass
    try:
        n = st.copy()
        n.set_af(a, AF(f.m, f.f, f.l & ~c, 1, f.one))
        alts.append(n)
    except Infeasible:
        pass
    raise Fork(alts, "suffix")


def ask_empty(st, segs):
    segs = st.norm(segs)
    r = empty(st, segs)
    if r is not None:
        return r
    if ("empty", segs, None, False) in st.cons:
        return False
    yes = st.copy()
    no = st.copy()
    ats = [s for s in segs if not isinstance(s, str)]
    alts = []
    try:
        for a in ats:
            yes.subst(a, ())
        alts.append(yes)
    except Infeasible:
        pass
    try:
        if len(ats) == 1:
            f = st.af(ats[0])
            no.set_af(ats[0], AF(f.m, f.f, f.l, 1, f.one))
        else:
            no.require("empty", segs, None, False)
        alts.append(no)
    except Infeasible:
        pass
    raise Fork(alts, "empty")


def find_class(st, segs, P, lead=None):
    """first char in class P: returns (before, after) segments or None; forks as needed"""
    segs = st.norm(segs)
    before = []
    for i, s in enumerate(segs):
        if isinstance(s, str):
            for j, c in enumerate(s):
                if P >> cls(c) & 1:
                    return tuple(before) + ((s[:j],) if j else ()), (s[j:],) + segs[i + 1:]
            before.append(s)
            continue
        f = st.af(s)
        if not f.m & P:
            before.append(s)
            continue
        if f.min and f.f & ~P == 0:
            return tuple(before), segs[i:]
        # fork: no char of s in P / some char
        alts = []
        try:
            no = st.copy()
            no.set_af(s, AF(f.m & ~P, f.f & ~P, f.l & ~P, f.min, f.one))
            alts.append(no)
        except Infeasible:
            pass
        try:
            yes = st.copy()
            if f.one:
                yes.set_af(s, AF(f.m & P, one=True))
            else:
                M = f.m & P
                # at position 0
                if f.f & P:
                    y0 = st.copy()
                    split_front(y0, s, f, None, P)
                    alts.append(y0)
                if f.f & ~P:
                    y1 = st.copy()
                    split_front(y1, s, f, f.m & ~P, P)
                    alts.append(y1)
                yes = None
            if yes is not None:
                alts.append(yes)
        except Infeasible:
            pass
        raise Fork(alts, "find")
    return None


def split_front(st, s, f, m1, P):
    """s = A1 . A2 with A1 over m1 (nonempty; absent if m1 is None) and A2 starting in P"""
    parts = []
    tag = ":%x" % (P & f.m)
    if m1 is not None:
        a1 = Atom(sub_key(s, tag + "<"))
        parts.append(a1)
    c = single(f.m & P) if m1 is not None else single(f.f & P)
    if c is not None:
        parts.append(c)
        a2 = Atom(sub_key(s, tag + ">"))
        parts.append(a2)
        st.subst(s, parts)
        lc = 1 << cls(c)
        st.set_af(a2, AF(f.m, f.m, f.l, 0 if f.l & lc else 1))
    else:
        if m1 is None:
            st.set_af(s, AF(f.m, f.f & P, f.l, 1, f.one))
            return
        a2 = Atom(sub_key(s, tag + ">"))
        parts.append(a2)
        st.subst(s, parts)
        st.set_af(a2, AF(f.m, f.m & P, f.l, 1))
    if m1 is not None:
        st.set_af(a1, AF(m1, f.f & m1, m1, 1))


def rfind_edge(st, segs, P):
    """strip trailing characters in class P; returns the kept segments (forks as needed)"""
    segs = list(st.norm(segs))
    while segs:
        s = segs[-1]
        if isinstance(s, str):
            t = s
            while t and P >> cls(t[-1]) & 1:
                t = t[:-1]
            segs.pop()
            if t:
                segs.append(t)
                return tuple(segs)
            continue
        f = st.af(s)
        if not f.l & P:
            if f.min:
                return tuple(segs)
            if len(segs) == 1:
                return tuple(segs)
            alts = []
            for e in (0, 1):
                x = st.copy()
                try:
                    if e:
                        x.subst(s, ())
                    else:
                        x.set_af(s, AF(f.m, f.f, f.l, 1, f.one))
                    alts.append(x)
                except Infeasible:
                    pass
            raise Fork(alts, "trim")
        if not f.m & ~P:
            segs.pop()
            continue
        if f.one:
            alts = []
            for m in (f.m & P, f.m & ~P):
                if m:
                    x = st.copy()
                    x.set_af(s, AF(m, one=True))
                    alts.append(x)
            raise Fork(alts, "trim")
        # s = A . W
        alts = []
        try:
            x = st.copy()          # everything is in P
            x.set_af(s, AF(f.m & P, f.f & P, f.l & P, f.min))
            alts.append(x)
        except Infeasible:
            pass
        try:
            x = st.copy()          # nothing to strip
            x.set_af(s, AF(f.m, f.f, f.l & ~P, 1))
            alts.append(x)
        except Infeasible:
            pass
        try:
            x = st.copy()
            a = Atom(sub_key(s, "|t"))
            w = Atom(sub_key(s, "|w"))
            x.subst(s, (a, w))
            x.set_af(w, AF(f.m & P, f.m & P, f.l & P, 1))
            x.set_af(a, AF(f.m, f.f, f.m & ~P, 1))
            alts.append(x)
        except Infeasible:
            pass
        raise Fork(alts, "trim")
    return ()


def trim_front(st, segs, P):
    r = find_class(st, segs, ALL & ~P)
    return () if r is None else r[1]


def take_prefix(st, segs, n):
    """split at byte position n (int or Lin); returns (before, after) or None if n is not a
    known boundary"""
    segs = st.norm(segs)
    n = st.simp(n)
    acc = 0
    before = []
    for i, s in enumerate(segs):
        if acc == n:
            return tuple(before), segs[i:]
        if isinstance(s, str):
            L = len(s.encode())
            d = st.simp(lsub(n, acc))
            if isinstance(d, int) and 0 <= d < L:
                b = s.encode()
                try:
                    x, y = b[:d].decode(), b[d:].decode()
                except UnicodeDecodeError:
                    return "boundary"
                return tuple(before) + ((x,) if x else ()), (y,) + segs[i + 1:]
            acc = ladd(acc, L)
        else:
            acc = st.simp(ladd(acc, Lin(0, ((s, 1),))))
        before.append(s)
    if acc == n:
        return tuple(before), ()
    d = st.simp(lsub(n, acc))
    if isinstance(d, int) and d > 0:
        return "range"
    return None


def ladd(a, b, k=1):
    p, q = linparts(a), linparts(b)
    if p is None or q is None:
        return None
    return lin(p[0] + k * q[0], list(p[1]) + [(l, k * c) for l, c in q[1]])


def lsub(a, b):
    return ladd(a, b, -1)


# ---------------------------------------------------------------- number syntax
def parse_int_text(s, lo, hi):
    t = s
    if not t:
        return None
    neg = False
    if t[0] in "+-":
        neg = t[0] == "-"
        t = t[1:]
        if neg and lo == 0:
            return None     # unsigned types reject '-'
    if not t or any(c not in "0123456789" for c in t):
        return None
    v = int(t)
    if neg:
        v = -v
    return v if lo <= v <= hi else None


def parse_dec_text(s):
    """value of a rust_decimal literal as a string, None when rejected, "?" when undecided"""
    t = s
    if not t:
        return None
    if t[0] in "+-":
        t = t[1:]
    if not t:
        return None
    d = t.replace("_", "")
    if d.count(".") > 1 or not all(c in "0123456789." for c in d):
        return None
    if "_" in t or not d.replace(".", ""):
        return "?"
    if len(d) > 28:
        return "?"
    return s


def parse_decide(st, segs, arg):
    """does this text parse as arg = ('int', lo, hi) or ('dec',): True/False/None"""
    if all(isinstance(s, str) for s in segs):
        t = "".join(segs)
        if arg[0] == "int":
            return parse_int_text(t, arg[1], arg[2]) is not None
        r = parse_dec_text(t)
        return None if r == "?" else r is not None
    ok = INTCH if arg[0] == "int" else DECIN
    for s in segs:
        if isinstance(s, str):
            if any(not ok >> cls(c) & 1 for c in s):
                return False
        else:
            f = st.af(s)
            if f.min and not (f.f & ok and f.l & ok):
                return False
    k = st.whole(segs)
    if k is not None:
        if isinstance(k, tuple) and k and k[0] == "disp":
            if k[1] == "int":
                lo, hi = st.interval(k[2])
                if arg[0] == "dec":
                    return True
                if lo is not None and lo >= arg[1] and hi <= arg[2]:
                    return True
                if lo is not None and (lo > arg[2] or hi < arg[1]):
                    return False
            if k[1] == "dec" and arg[0] == "dec":
                return True
    return None
