"""Abstract interpreter over the monomorphised MIR: trace-partitioned states, values from
dom.py, library primitives from models.py. Nothing is executed: every statement is
interpreted over abstract values; a question the abstract state cannot answer splits the
partition (Fork), a construct outside the modelled fragment yields an unconstrained value
and marks the partition as approximate (st.note)."""
import itertools, sys
from dom import *
import dom, loops

STRLIKE = {"std::string::String", "std::path::PathBuf", "std::path::Path", "std::ffi::OsStr",
           "std::ffi::OsString", "std::path::Display", "std::ffi::os_str::Display"}
# functions whose work or memory grows with a number -> index of that argument
SIZED = {"with_capacity": 0, "reserve": 1, "reserve_exact": 1, "repeat": 1, "resize": 1, "from_elem": 1, "repeat_n": 1}
OPAQUE = {"rust_decimal::Decimal", "std::num::ParseIntError", "rust_decimal::Error", "std::num::TryFromIntError",
          "std::path::Components", "std::path::PrefixComponent", "std::path::Prefix"}


class Cell:
    __slots__ = ("c",)

    def __init__(self, c):
        self.c = c


class Down:
    """an unknown enum value viewed as one of its variants"""
    __slots__ = ("s", "v")

    def __init__(self, s, v):
        self.s, self.v = s, v


class Stop(Exception):
    """work limit of this analysis reached"""


class Engine:
    def __init__(self, F, K=2, max_steps=4000000, max_outs=4000):
        self.F = F
        self.T = F.types
        self.K = K
        self.opaque_disp = set()    # Display functions whose text is left unknown
        self.loops = K
        self.steps = 0
        self.max_steps = max_steps
        self.hangs = {}
        self.sized = {}
        self._loops = {}
        self.max_outs = max_outs
        self.ctr = itertools.count()
        self.models = {}
        self.stubs = {}
        self.fnstack = []
        self.visited = set()
        self.unmodelled = {}
        self.cuts = {}
        self.cache_cls = {}
        self.strty = None
        for i, t in enumerate(self.T):
            if t["k"] == "str":
                self.strty = i
        self.kind = [self._kind(t) for t in self.T]
        St.INTRANGE = staticmethod(self.intrange)
        self.display = {}
        self.impl_cache = {}
        import models
        models.install(self)

    # ------------------------------------------------------------ types
    def _kind(self, t):
        k = t["k"]
        if k == "adt":
            n = t["name"]
            if n in STRLIKE:
                return "str"
            if n == "std::borrow::Cow":
                return "str"
            if n in ("std::vec::Vec",):
                return "seq"
            if n == "std::num::NonZero":
                return "nonzero"
            if n in OPAQUE:
                return "opaque"
            if n == "std::boxed::Box":
                return "box"
            return t["kind"]      # enum / struct / union
        if k in ("array", "slice"):
            return "seq"
        return k

    def tname(self, ty):
        return self.T[ty].get("t", "?")

    def intrange_ty(self, ty):
        t = self.T[ty]
        if t["k"] == "int":
            b = t["bits"]
            if t["signed"]:
                return -(1 << b - 1), (1 << b - 1) - 1
            return 0, (1 << b) - 1
        if t["k"] == "bool":
            return 0, 1
        if self.kind[ty] == "nonzero":
            lo, hi = self.intrange_ty(t["args"][0])
            return 1, hi
        return None, None

    def intrange(self, v):
        ty = v.ty
        if not isinstance(ty, int):
            return None, None
        return self.intrange_ty(ty)

    def key(self, tag):
        return (tag, next(self.ctr))

    def fresh(self, ty, key, st):
        k = self.kind[ty]
        t = self.T[ty]
        if k == "str":
            return Str((Atom(key),))
        if k == "char":
            a = Atom(key)
            if ("at", key) not in st.d:
                st.d["at", key] = AF(one=True)
            return a
        if k == "seq":
            e = t["e"] if t["k"] in ("array", "slice") else t["args"][0]
            if t["k"] == "array" and t.get("n") is not None:
                try:
                    n = int(t["n"])
                    return Seq(tuple(self.fresh(e, (key, i), st) for i in range(n)))
                except (TypeError, ValueError):
                    pass
            return Seq((), Tail(key, e))
        if k == "struct":
            return Adt(ty, 0, tuple(self.fresh(f[1], (key, f[0]), st) for f in t["variants"][0]["f"]))
        if k == "tuple":
            return Adt(ty, 0, tuple(self.fresh(e, (key, i), st) for i, e in enumerate(t["e"])))
        if k in ("ref", "ptr"):
            v = self.fresh(t["e"], (key, "*"), st)
            if t.get("mut"):
                return MutRef(st.alloc(v))
            return RefV(v)
        if k == "box":
            return RefV(self.fresh(t["args"][0], (key, "*"), st))
        if k in ("fndef",):
            return FnV(ty)
        return Sym(key, ty)

    def havoc(self, ty, st, why):
        self.unmodelled[why] = self.unmodelled.get(why, 0) + 1
        st.note(why)
        return self.fresh(ty, self.key("u"), st)

    # ------------------------------------------------------------ enum variants
    def allowed(self, st, s):
        if isinstance(s.k, tuple) and s.k and s.k[0] == "ld":
            r = sys.modules["models"].num_decided(st, st.norm(s.k[1]), ("dec",))
            return frozenset((0, 1)) if r is None else frozenset((0 if r else 1,))
        r = st.d.get(("var", s.k))
        if r is None:
            r = frozenset(range(len(self.T[s.ty]["variants"])))
        return r

    def restrict(self, st, s, vs):
        if isinstance(s.k, tuple) and s.k and s.k[0] == "ld":
            al = self.allowed(st, s) & frozenset(vs)
            if not al:
                raise Infeasible()
            if len(al) == 1 and len(self.allowed(st, s)) == 2:
                sys.modules["models"].assume_num(self, st, st.norm(s.k[1]), None, ("dec",), 0 in al)
            return
        st.d["var", s.k] = frozenset(vs)

    def variant_field(self, st, s, v, i):
        if isinstance(s.k, tuple) and s.k and s.k[0] == "ld":
            if v == 1:
                return Str(s.k[1])
            return sys.modules["models"].parse_num(self, st, s.k[1], self.T[s.ty]["variants"][0]["f"][0][1], ("dec",))
        f = self.T[s.ty]["variants"][v]["f"][i]
        return self.fresh(f[1], (s.k, v, f[0]), st)

    def expand(self, st, s):
        """Sym of enum type -> Adt with a known variant (forks)"""
        vs = self.allowed(st, s)
        if len(vs) == 1:
            v = next(iter(vs))
            n = len(self.T[s.ty]["variants"][v]["f"])
            return Adt(s.ty, v, tuple(self.variant_field(st, s, v, i) for i in range(n)))
        alts = []
        for v in sorted(vs):
            x = st.copy()
            self.restrict(x, s, (v,))
            alts.append(x)
        raise Fork(alts, "variant")

    def resolve(self, st, v):
        """known variant of an enum value"""
        if isinstance(v, Sym) and self.kind[v.ty] == "enum":
            return self.expand(st, v)
        return v

    # ------------------------------------------------------------ sequences
    def norm_seq(self, st, q):
        while q.tail is not None:
            f = st.d.get(("tail", q.tail.k, q.tail.i))
            if f == "end":
                return Seq(q.it)
            if f == "more":
                t = q.tail
                q = Seq(q.it + (self.fresh(t.ety, (t.k, t.i), st),), Tail(t.k, t.ety, t.i + 1))
            else:
                break
        return q

    def need_item(self, st, q):
        """decide whether a sequence with no known items has one more (forks)"""
        t = q.tail
        a = st.copy()
        a.d["tail", t.k, t.i] = "end"
        alts = [a]
        if t.i < self.K:
            b = st.copy()
            b.d["tail", t.k, t.i] = "more"
            alts.append(b)
        else:
            self.cut("unknown sequence longer than %d" % self.K)
        raise Fork(alts, "tail")

    def whole_seq(self, st, q):
        q = self.norm_seq(st, q)
        if q.tail is not None:
            self.need_item(st, q)
        return q

    def cut(self, why):
        self.cuts[why] = self.cuts.get(why, 0) + 1

    # ------------------------------------------------------------ memory
    def deref(self, st, v):
        while True:
            if isinstance(v, RefV):
                v = v.v
            elif isinstance(v, MutRef):
                v = self.read_cell(st, v)
            else:
                return v

    def read_cell(self, st, r):
        v = st.d["h", r.c]
        for e in r.p:
            v = self.step(st, v, e)
        return v

    def step(self, st, v, e):
        k, i = e
        if k == "f":
            if isinstance(v, Adt):
                return v.f[i]
            if isinstance(v, Down):
                return self.variant_field(st, v.s, v.v, i)
            if isinstance(v, Sym) and self.kind[v.ty] in ("struct", "tuple", "opaque"):
                t = self.T[v.ty]
                fty = t["e"][i] if t["k"] == "tuple" else t["variants"][0]["f"][i][1]
                if not (isinstance(v.k, tuple) and v.k and v.k[0] == "a"):
                    st.note("field of opaque value")
                return self.fresh(fty, (v.k, i), st)
            if isinstance(v, (RefV, MutRef)):
                return v
            if isinstance(v, Seq):      # MaybeUninit / array wrapper idioms
                return v
            raise Unsupported("field %s of %r" % (i, v))
        if k == "d":
            if isinstance(v, Sym):
                return Down(v, i)
            return v
        if k == "i":
            if not isinstance(v, Seq):
                raise Unsupported("index into %r" % (v,))
            v = self.norm_seq(st, v)
            if i < len(v.it):
                return v.it[i]
            raise Unsupported("index")
        raise Unsupported("step")

    def set_path(self, st, v, path, new):
        if not path:
            return new
        k, i = path[0]
        if k == "d":
            if isinstance(v, Sym):
                n = len(self.T[v.ty]["variants"][i]["f"])
                v = Adt(v.ty, i, tuple(self.variant_field(st, v, i, j) for j in range(n)))
            return self.set_path(st, v, path[1:], new)
        if k == "f":
            if isinstance(v, Sym) and self.kind[v.ty] == "struct" and self.T[v.ty]["k"] == "adt":
                n = len(self.T[v.ty]["variants"][0]["f"])
                v = Adt(v.ty, 0, tuple(self.step(st, v, ("f", j)) for j in range(n)))
            if isinstance(v, Adt):
                fs = list(v.f)
                while len(fs) <= i:
                    fs.append(None)
                fs[i] = self.set_path(st, fs[i], path[1:], new)
                return Adt(v.ty, v.v, fs)
            raise Unsupported("store field of %r" % (v,))
        if k == "i":
            v = self.norm_seq(st, v)
            its = list(v.it)
            its[i] = self.set_path(st, its[i], path[1:], new)
            return Seq(its, v.tail)
        raise Unsupported("store")

    def write_cell(self, st, r, new):
        st.d["h", r.c] = self.set_path(st, st.d["h", r.c], r.p, new) if r.p else new

    def const_index(self, st, env, e, base):
        """index projections -> concrete item index"""
        if e[0] == "i":
            x = st.simp(self.local(st, env, e[1]))
            if isinstance(x, int):
                return x
            raise Unsupported("symbolic index")
        if e[0] == "ci":
            if e[3]:
                q = self.whole_seq(st, base)
                return len(q.it) - e[1]
            return e[1]
        raise Unsupported("subslice")

    def local(self, st, env, i):
        v = env[i]
        if type(v) is Cell:
            return st.d["h", v.c]
        return v

    def read(self, st, env, place):
        v = env[place[0]]
        if type(v) is Cell:
            v = st.d["h", v.c]
        for e in place[1:]:
            if e == "*":
                if isinstance(v, RefV):
                    v = v.v
                elif isinstance(v, MutRef):
                    v = self.read_cell(st, v)
                elif isinstance(v, Sym):
                    raise Unsupported("deref of %r" % (v,))
                # transparent boxes: identity
            else:
                k = e[0]
                if k == "f":
                    if type(v) is Adt:
                        v = v.f[e[1]]
                    else:
                        v = self.step(st, v, ("f", e[1]))
                elif k == "d":
                    if type(v) is Sym:
                        v = Down(v, e[1])
                elif k == "ss":
                    q = self.whole_seq(st, v)
                    hi = len(q.it) - e[2] if e[3] else e[2]
                    v = Seq(q.it[e[1]:hi])
                else:
                    v = self.step(st, v, ("i", self.const_index(st, env, e, v)))
        if type(v) is Down:
            v = v.s
        return v

    def addr(self, st, env, place):
        """MutRef to a place (moving the local to the heap if needed)"""
        base = place[0]
        v = env[base]
        if len(place) > 1 and place[1] == "*":
            cur = self.local(st, env, base)
            if isinstance(cur, MutRef):
                ref = cur
                rest = place[2:]
            elif isinstance(cur, RefV):
                return RefV(self.read(st, env, place))
            else:
                ref, rest = None, None
        else:
            ref, rest = None, None
        if ref is None:
            if type(v) is not Cell:
                c = st.alloc(v)
                env[base] = Cell(c)
            else:
                c = v.c
            ref = MutRef(c)
            rest = place[1:]
        for e in rest:
            if e == "*":
                cur = self.read_cell(st, ref)
                if isinstance(cur, MutRef):
                    ref = cur
                elif isinstance(cur, RefV):
                    # mutable reborrow through an owning box: treat its content as the cell
                    raise Unsupported("mutable borrow through a shared reference")
                continue
            if e[0] in ("f", "d"):
                ref = MutRef(ref.c, ref.p + ((e[0], e[1]),))
            else:
                ref = MutRef(ref.c, ref.p + (("i", self.const_index(st, env, e, self.read_cell(st, ref))),))
        return ref

    def write(self, st, env, place, val):
        if len(place) == 1:
            v = env[place[0]]
            if type(v) is Cell:
                st.d["h", v.c] = val
            else:
                env[place[0]] = val
            return
        v = env[place[0]]
        if type(v) is not Cell and "*" not in place:
            path = []
            base = v
            for e in place[1:]:
                if e[0] in ("f", "d"):
                    path.append((e[0], e[1]))
                else:
                    path.append(("i", self.const_index(st, env, e, self.step_path(st, base, path))))
            env[place[0]] = self.set_path(st, v, path, val)
            return
        r = self.addr(st, env, place)
        if isinstance(r, RefV):
            raise Unsupported("store through a shared reference")
        self.write_cell(st, r, val)

    def step_path(self, st, v, path):
        for e in path:
            v = self.step(st, v, e)
        return v

    # ------------------------------------------------------------ operands / rvalues
    def const(self, ty, v, st):
        if "i" in v:
            return int(v["i"])
        if "b" in v:
            return v["b"]
        if "c" in v:
            return chr(v["c"])
        if "s" in v:
            return RefV(Str((v["s"],) if v["s"] else ()))
        if "r" in v:
            return RefV(self.const(self.T[ty]["e"], v["r"], st))
        if "a" in v:
            if self.T[ty]["k"] not in ("array", "slice"):
                ft = self.T[ty]["e"] if self.T[ty]["k"] == "tuple" else [x[1] for x in self.T[ty]["variants"][0]["f"]]
                return Adt(ty, 0, tuple(self.const(e, x, st) for e, x in zip(ft, v["a"])))
            e = self.T[ty]["e"]
            return Seq(tuple(self.const(e, x, st) for x in v["a"]))
        if "v" in v:
            t = self.T[ty]
            k = self.kind[ty]
            if k == "opaque":
                if t.get("name") == "rust_decimal::Decimal" and [f[0] for f in t["variants"][0]["f"]] == ["flags", "hi", "lo", "mid"] \
                        and all("i" in x for x in v["f"]):
                    flags, hi, lo, mid = (int(x["i"]) & 0xffffffff for x in v["f"])
                    n = (lo | mid << 32 | hi << 64) * (-1 if flags >> 31 else 1)
                    return Sym(("decs", n, flags >> 16 & 255), ty) if flags >> 16 & 255 else n
                return Sym(("const", repr(v)), ty)
            if k == "seq":
                return Seq(())
            if k == "str":
                return Str(())
            fts = t["e"] if t["k"] == "tuple" else [f[1] for f in t["variants"][int(v["v"])]["f"]]
            fs = tuple(self.const(fty, x, st) for fty, x in zip(fts, v["f"]))
            if k == "nonzero":
                x = fs[0]
                while isinstance(x, Adt):
                    x = x.f[0]
                return x
            return Adt(ty, int(v["v"]), fs)
        if "z" in v:
            k = self.kind[ty]
            if k == "fndef":
                return FnV(ty)
            if k == "seq":
                return Seq(())
            return Adt(ty, 0, self.zst_fields(ty, st))
        if "fn" in v:
            return FnV(v["fn"])
        if self.kind[ty] == "opaque":
            return Sym(("const", repr(v)), ty)
        return self.havoc(ty, st, "constant %s" % self.tname(ty))

    def zst_fields(self, ty, st):
        t = self.T[ty]
        if t["k"] == "tuple":
            return tuple(self.const(e, {"z": 1}, st) for e in t["e"])
        if t["k"] == "closure":
            return tuple(self.const(e, {"z": 1}, st) for e in self.T[t["up"]]["e"]) if t.get("up") is not None else ()
        if t["k"] == "adt" and t["variants"]:
            return tuple(self.const(f[1], {"z": 1}, st) for f in t["variants"][0]["f"])
        return ()

    def operand(self, st, env, o):
        k = o[0]
        if k == "c" or k == "m":
            p = o[1]
            if len(p) == 1:
                v = env[p[0]]
                return st.d["h", v.c] if type(v) is Cell else v
            return self.read(st, env, p)
        if k == "k":
            return self.const(o[1], o[2], st)
        if k == "rc":
            return False
        raise Unsupported("operand " + k)

    def rvalue(self, st, env, r, dty):
        k = r[0]
        if k == "use":
            return self.operand(st, env, r[1])
        if k == "ref" or k == "addr":
            if r[1]:
                return self.addr(st, env, r[2])
            return RefV(self.read(st, env, r[2]))
        if k == "agg":
            kind, ty, ops = r[1], r[2], r[3]
            vals = [self.operand(st, env, o) for o in ops]
            kk = kind[0]
            if kk == "adt":
                K = self.kind[ty]
                if K == "str":
                    return self.havoc(ty, st, "string built from parts")
                if kind[2] is not None and self.kind[ty] == "union":
                    return vals[0]
                return Adt(ty, kind[1], vals)
            if kk == "array":
                return Seq(vals)
            if kk == "rawptr":
                return vals[0]
            return Adt(ty, 0, vals)
        if k == "discr":
            v = self.read(st, env, r[1])
            if isinstance(v, Adt):
                return self.discr_of(v.ty, v.v)
            if isinstance(v, Sym) and self.kind[v.ty] == "enum":
                vs = self.allowed(st, v)
                if len(vs) == 1:
                    return self.discr_of(v.ty, next(iter(vs)))
                return Discr(v)
            return self.havoc(dty, st, "discriminant of %r" % type(v).__name__)
        if k == "bin":
            return self.binop(st, r[1], self.operand(st, env, r[2]), self.operand(st, env, r[3]), dty, r[4])
        if k == "cbin":
            a, b = self.operand(st, env, r[2]), self.operand(st, env, r[3])
            ety = self.T[dty]["e"][0]
            v = self.arith(st, r[1], a, b, ety)
            lo, hi = self.intrange_ty(ety)
            inr = self.in_range(st, v, lo, hi)
            return Adt(dty, 0, (v, not inr))
        if k == "un":
            v = st.simp(self.operand(st, env, r[2]))
            if r[1] == "Not":
                if isinstance(v, bool):
                    return not v
                if self.T[dty]["k"] == "bool":
                    return not self.truth(st, v)
                t = self.T[dty]
                if isinstance(v, int) and t["k"] == "int":
                    return ~v if t["signed"] else v ^ ((1 << t["bits"]) - 1)
                x = self.bits(st, v, dty)
                if x is not None and all(isinstance(b, int) for b in x.b):
                    return st.simp_bits(Bits([1 - b for b in x.b], x.signed))
                return self.havoc(dty, st, "bitwise not")
            if r[1] == "Neg":
                p = linparts(v)
                if p:
                    return lin(-p[0], [(l, -c) for l, c in p[1]])
                return self.havoc(dty, st, "negation")
            if r[1] == "PtrMetadata":
                x = self.deref(st, v)
                if isinstance(x, Seq):
                    return self.seq_len(st, x)
                if isinstance(x, Str):
                    return st.blen(x.s)
            return self.havoc(dty, st, "unary " + r[1])
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, env, r[2]), dty)
        if k == "len":
            return self.seq_len(st, self.read(st, env, r[1]))
        if k == "repeat":
            v = self.operand(st, env, r[1])
            n = r[2]
            try:
                return Seq((v,) * int(n))
            except (TypeError, ValueError):
                raise Unsupported("repeat")
        raise Unsupported("rvalue " + k)

    def discr_of(self, ty, v):
        d = int(self.T[ty]["variants"][v]["d"])
        return d

    def seq_len(self, st, q):
        return len(self.whole_seq(st, q).it)

    # ------------------------------------------------------------ numbers and booleans
    def truth(self, st, v):
        v = st.simp(v)
        if isinstance(v, bool):
            return v
        if isinstance(v, int):
            return bool(v)
        if isinstance(v, Sym):
            a, b = st.copy(), st.copy()
            a.d["iv", v.k] = (1, 1, frozenset())
            b.d["iv", v.k] = (0, 0, frozenset())
            raise Fork([a, b], "bool")
        raise Unsupported("condition %r" % (v,))

    def arith(self, st, op, a, b, ty):
        a, b = st.simp(a), st.simp(b)
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        op = op.replace("Unchecked", "")
        if isinstance(a, int) and isinstance(b, int):
            if op == "Add":
                return a + b
            if op == "Sub":
                return a - b
            if op == "Mul":
                return a * b
            if op == "Div" and b:
                q = abs(a) // abs(b)
                return q if (a < 0) == (b < 0) else -q
            if op == "Rem" and b:
                return a - b * (abs(a) // abs(b) if (a < 0) == (b < 0) else -(abs(a) // abs(b)))
        if isinstance(a, Bits) or isinstance(b, Bits):
            if op in ("Add",):
                x, y = self.bits(st, a, ty), self.bits(st, b, ty)
                if x and y and all(p == 0 or q == 0 for p, q in zip(x.b, y.b)
                                   if True) and all(isinstance(p, int) and p == 0 or isinstance(q, int) and q == 0
                                                    for p, q in zip(x.b, y.b)):
                    return Bits([q if isinstance(p, int) and p == 0 else p for p, q in zip(x.b, y.b)], x.signed)
        if op in ("Rem", "Div", "Mul") and isinstance(b, int) and b > 0 and b & b - 1 == 0 and self.T[ty]["k"] == "int" and not self.T[ty]["signed"]:
            x, n = self.bits(st, a, ty), b.bit_length() - 1
            if x and op == "Rem":
                return st.simp_bits(Bits(list(x.b[:n]) + [0] * (len(x.b) - n), x.signed))
            if x and op == "Div":
                return st.simp_bits(Bits(list(x.b[n:]) + [0] * n, x.signed))
            if x and isinstance(a, Bits) and all(isinstance(q, int) and q == 0 for q in x.b[len(x.b) - n:]):
                return st.simp_bits(Bits([0] * n + list(x.b[:len(x.b) - n]), x.signed))
        if op == "Rem" and isinstance(b, int) and b > 0 and b & b - 1 == 0 and self.T[ty]["k"] == "int" and self.T[ty]["signed"]:
            x, n = self.bits(st, a, ty), b.bit_length() - 1
            if x:
                neg = self.cmp(st, "Lt", a, 0)
                if not neg:
                    return st.simp_bits(Bits(list(x.b[:n]) + [0] * (len(x.b) - n), x.signed))
                if n == 1:
                    return st.simp_bits(Bits([x.b[0]] * len(x.b), x.signed))
        pa, pb = linparts(a), linparts(b)
        if pa and pb:
            if op == "Add":
                return ladd(a, b)
            if op == "Sub":
                return lsub(a, b)
            if op == "Mul" and (not pa[1] or not pb[1]):
                if pa[1]:
                    pa, pb = pb, pa
                return lin(pa[0] * pb[0], [(l, pa[0] * c) for l, c in pb[1]])
        return self.havoc(ty, st, "arithmetic " + op)

    def in_range(self, st, v, lo, hi):
        """decide lo <= v <= hi (forks; records refinements)"""
        return self.cmp(st, "Ge", v, lo) and self.cmp(st, "Le", v, hi)

    def cmp(self, st, op, a, b):
        """decide an integer comparison"""
        if op == "Ne":
            return not self.cmp(st, "Eq", a, b)
        if op == "Gt":
            return self.cmp(st, "Lt", b, a)
        if op == "Ge":
            return self.cmp(st, "Le", b, a)
        a, b = st.simp(a), st.simp(b)
        a = int(a) if isinstance(a, bool) else a
        b = int(b) if isinstance(b, bool) else b
        if isinstance(a, (Bits,)) or isinstance(b, Bits):
            return self.cmp_bits(st, op, a, b)
        d = lsub(a, b)
        if d is None:
            raise Unsupported("compare %r %r" % (a, b))
        d = st.simp(d)
        lo, hi = st.interval(d)
        if op == "Eq":
            if lo is not None and lo > 0 or hi is not None and hi < 0:
                return False
            if lo == 0 and hi == 0:
                return True
            pc, pt = linparts(d)
            if len(pt) == 1 and isinstance(pt[0][0], Sym):
                if pc % pt[0][1] or -pc // pt[0][1] in st.excl(pt[0][0]):
                    return False
        elif op == "Le":
            if hi is not None and hi <= 0:
                return True
            if lo is not None and lo > 0:
                return False
        elif op == "Lt":
            if hi is not None and hi < 0:
                return True
            if lo is not None and lo >= 0:
                return False
        p = linparts(d)
        c, ts = p
        if op == "Lt":      # integers: a < b  <=>  a - b + 1 <= 0
            c += 1
        for (k, cc, tt, w) in st.d.get("lincons", ()):
            if tt == ts and k == ("Eq" if op == "Eq" else "Le"):
                if k == "Eq" and cc == c:
                    return w
                if k == "Le":
                    # known: cc + x <= 0 is w
                    if w and c <= cc:
                        return True
                    if not w and c >= cc:
                        return False
        alts = []
        for want in (True, False):
            x = st.copy()
            try:
                self.assume_lin(x, "Eq" if op == "Eq" else "Le", c, ts, want)
                alts.append(x)
            except Infeasible:
                pass
        raise Fork(alts, "cmp")

    def assume_lin(self, st, op, c, ts, want):
        if len(ts) == 1:
            (l, k), = ts
            if isinstance(l, Sym):
                lo, hi = st.interval(l)
                ex = st.excl(l)
                if op == "Eq":
                    if (-c) % k:
                        if want:
                            raise Infeasible()
                        return
                    v = -c // k
                    if want:
                        if v in ex:
                            raise Infeasible()
                        st.set_iv(l, v, v, ex)
                    else:
                        st.set_iv(l, lo, hi, ex | {v})
                    return
                # c + k*x <= 0
                if not want:      # c + k*x >= 1  <=>  (1-c) - k*x <= 0
                    c, k = 1 - c, -k
                if k > 0:
                    b = (-c) // k
                    hi = b if hi is None else min(hi, b)
                else:
                    b = -((-c) // -k) if False else -(-c // -k) if False else None
                    # x >= c / -k  (ceiling)
                    m = -k
                    b = -((-c) // m)
                    lo = b if lo is None else max(lo, b)
                if lo is not None and hi is not None and lo > hi:
                    raise Infeasible()
                st.set_iv(l, lo, hi, ex)
                return
            if isinstance(l, Atom):
                # length of an atom
                f = st.af(l)
                if op == "Eq" and abs(k) == 1:
                    n = -c * k
                    if want:
                        if n < f.min or n < 0:
                            raise Infeasible()
                        if n == 0:
                            st.subst(l, ())
                            return
                        if n == 1 and not f.m >> 128:
                            st.set_af(l, AF(f.m & f.f & f.l, one=True))
                            return
                    elif n == 0:
                        st.set_af(l, AF(f.m, f.f, f.l, 1, f.one))
                        return
                if op == "Le" and abs(k) == 1:
                    if not want:
                        c, k = 1 - c, -k
                    if k == 1:         # len <= -c
                        n = -c
                        if n < f.min or n < 0:
                            raise Infeasible()
                        if n == 0:
                            st.subst(l, ())
                            return
                    else:              # len >= c
                        if c <= 0:
                            return
                        if c == 1:
                            st.set_af(l, AF(f.m, f.f, f.l, 1, f.one))
                            return
                    if not want:
                        c, k = 1 - c, -k
        st.d["lincons"] = st.d.get("lincons", ()) + ((op, c, ts, want),)

    def cmp_bits(self, st, op, a, b):
        if isinstance(a, int) and not isinstance(b, int):
            a, b = b, a
            if op != "Eq":
                op = {"Le": "NLt", "Lt": "NLe"}[op]
        if isinstance(b, int):
            lo, hi = st.interval(a)
            if op == "Eq":
                if b < lo or b > hi:
                    return False
                unk = [(i, x) for i, x in enumerate(a.b) if not isinstance(x, int)]
                for i, x in enumerate(a.b):
                    if isinstance(x, int) and x != (b >> i & 1):
                        return False
                if not unk:
                    return True
                seen = {}
                for i, x in unk:
                    if seen.setdefault((x[0], x[1]), (i, x, b >> i & 1))[2] != b >> i & 1:
                        return False
                unk = [(i, x) for i, x, _ in seen.values()]
                y = st.copy()
                for i, x in unk:
                    y.d["bit", x[0], x[1]] = b >> i & 1
                alts = [y]
                # the complement: first differing bit
                pre = st
                for i, x in unk:
                    n = pre.copy()
                    n.d["bit", x[0], x[1]] = 1 - (b >> i & 1)
                    alts.append(n)
                    pre = pre.copy()
                    pre.d["bit", x[0], x[1]] = b >> i & 1
                    if len(unk) > 8:
                        raise Unsupported("wide bit comparison")
                raise Fork(alts, "bits")
        elif a == b and op == "Eq":
            return True
        # decide by interval, otherwise split on the highest unknown bit
        for x in (a, b):
            if isinstance(x, Bits):
                unk = [y for y in x.b if not isinstance(y, int)]
                if unk:
                    lo, hi = st.interval(a)
                    if op in ("Le", "Lt", "NLt", "NLe") and isinstance(b, int):
                        if op == "Le":
                            r = True if hi <= b else False if lo > b else None
                        elif op == "Lt":
                            r = True if hi < b else False if lo >= b else None
                        elif op == "NLt":      # b <= a
                            r = True if b <= lo else False if b > hi else None
                        else:                  # b < a
                            r = True if b < lo else False if b >= hi else None
                        if r is not None:
                            return r
                    if len(unk) > 10:
                        raise Unsupported("wide bit comparison")
                    y = unk[-1]
                    p, q = st.copy(), st.copy()
                    p.d["bit", y[0], y[1]] = 0
                    q.d["bit", y[0], y[1]] = 1
                    raise Fork([p, q], "bits")
        raise Unsupported("bit comparison")

    def bits(self, st, v, ty):
        v = st.simp(v)
        t = self.T[ty]
        n = t["bits"] if t["k"] == "int" else 8
        signed = bool(t.get("signed"))
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            return Bits([v >> i & 1 for i in range(n)], signed)
        if isinstance(v, Bits):
            if len(v.b) == n:
                return v
            ext = v.b[-1] if v.signed else 0
            return Bits(list(v.b[:n]) + [ext] * (n - len(v.b)), signed)
        if isinstance(v, Sym):
            sn = self.T[v.ty]
            if sn["k"] == "bool":
                return Bits([(v.k, 0, v)] + [0] * (n - 1), signed)
            if sn["k"] != "int":
                return None
            m = sn["bits"]
            b = [(v.k, i, v) for i in range(m)]
            if m < n:
                ext = (v.k, m - 1, v) if sn["signed"] else 0
                b += [ext] * (n - m)
            return st.simp_bits(Bits(b[:n], signed))
        return None

    def binop(self, st, op, a, b, dty, ety):
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            a, b = self.scalar(st, a), self.scalar(st, b)
            if isinstance(a, (str, Atom)) or isinstance(b, (str, Atom)):
                if op == "Ge":
                    op, a, b = "Le", b, a
                if op == "Gt":
                    op, a, b = "Lt", b, a
                r = self.char_cmp(st, a, b, op)
                return r
            if isinstance(a, bool) and isinstance(b, bool):
                return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
            if isinstance(a, (Adt, RefV, MutRef, FnV)) or isinstance(b, (Adt, RefV, MutRef, FnV)):
                return self.truth(st, self.havoc(dty, st, "pointer comparison"))
            return self.cmp(st, op, a, b)
        if op == "Cmp":
            a, b = self.scalar(st, a), self.scalar(st, b)
            v = 0 if self.cmp(st, "Lt", a, b) else 1 if self.cmp(st, "Eq", a, b) else 2
            return Adt(dty, v, ())
        if op in ("BitAnd", "BitOr", "BitXor"):
            if self.T[dty]["k"] == "bool":
                x, y = self.truth(st, a), self.truth(st, b)
                return x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y
            a, b = st.simp(a), st.simp(b)
            if isinstance(a, int) and isinstance(b, int):
                return a & b if op == "BitAnd" else a | b if op == "BitOr" else a ^ b
            x, y = self.bits(st, a, dty), self.bits(st, b, dty)
            if x is None or y is None:
                return self.havoc(dty, st, "bit operation")
            out = []
            for p, q in zip(x.b, y.b):
                pi, qi = isinstance(p, int), isinstance(q, int)
                if op == "BitAnd":
                    r = 0 if pi and p == 0 or qi and q == 0 else q if pi else p if qi or p == q else None
                elif op == "BitOr":
                    r = 1 if pi and p == 1 or qi and q == 1 else q if pi else p if qi or p == q else None
                else:
                    r = (p ^ q) if pi and qi else q if pi and p == 0 else p if qi and q == 0 else 0 if p == q else None
                if r is None:
                    u = (self.key("bit"), 0, Sym(self.key("u"), dty))
                    st.note("bitwise combination of unknown bits")
                    r = u
                out.append(r)
            return st.simp_bits(Bits(out, x.signed))
        if op in ("Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            n = st.simp(b)
            a = st.simp(a)
            if isinstance(n, int) and isinstance(a, int):
                t = self.T[dty]
                if op.startswith("Shr"):
                    return a >> n
                r = a << n
                w = t["bits"]
                r &= (1 << w) - 1
                if t["signed"] and r >> w - 1:
                    r -= 1 << w
                return r
            x = self.bits(st, a, dty)
            if x is None or not isinstance(n, int):
                return self.havoc(dty, st, "shift")
            w = len(x.b)
            if op.startswith("Shl"):
                return st.simp_bits(Bits(([0] * n + list(x.b))[:w], x.signed))
            ext = x.b[-1] if x.signed else 0
            return st.simp_bits(Bits((list(x.b[n:]) + [ext] * n)[:w], x.signed))
        if op in ("Offset",):
            return self.havoc(dty, st, "pointer arithmetic")
        v = self.arith(st, op, a, b, dty)
        lo, hi = self.intrange_ty(dty)
        if lo is not None:
            l2, h2 = st.interval(st.simp(v))
            if l2 is None or l2 < lo or h2 > hi:
                if isinstance(v, int):
                    w = self.T[dty]["bits"]
                    v &= (1 << w) - 1
                    if self.T[dty]["signed"] and v >> w - 1:
                        v -= 1 << w
                    return v
                return self.havoc(dty, st, "wrapping arithmetic")
        return v

    def scalar(self, st, v):
        if isinstance(v, Discr):
            a = self.expand(st, v.s)
            return self.discr_of(a.ty, a.v)
        return st.simp(v)

    def char_cmp(self, st, a, b, op):
        """Eq / Ne / Lt / Le on characters"""
        if isinstance(a, str) and isinstance(b, str):
            return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b}[op]
        if a == b:
            return op in ("Eq", "Le")
        if isinstance(b, str):
            x, lit, swap = a, b, False
        elif isinstance(a, str):
            x, lit, swap = b, a, True
        else:
            raise Unsupported("comparison of two unknown characters")
        o = ord(lit)
        c = cls(lit)
        if op in ("Eq", "Ne"):
            if c >= 128 and c != C_BOM:
                m = 1 << c
                # the class holds other characters too: true splits off exactly this character
                if not self.one_mask(st, x) & m:
                    r = False
                else:
                    raise Unsupported("comparison with a non-ASCII character")
            else:
                r = self.in_class(st, x, 1 << c)
            return r if op == "Eq" else not r
        if o >= 128:
            if o > 0x10FFFF - 1:
                return True
            raise Unsupported("ordering against a non-ASCII character")
        below = (1 << o) - 1           # x < lit
        if not swap:
            m = below if op == "Lt" else below | 1 << o
            return self.in_class(st, x, m)
        m = below | 1 << o if op == "Lt" else below        # lit < x  <=> not x <= lit
        return not self.in_class(st, x, m)

    def one_mask(self, st, a):
        n = st.norm((a,))
        if len(n) == 1 and isinstance(n[0], str):
            return 1 << cls(n[0])
        return st.af(n[0]).m

    def in_class(self, st, a, m):
        """is the character a (str or one-char atom) in the class set m (forks)"""
        if isinstance(a, str):
            return bool(m >> cls(a) & 1)
        n = st.norm((a,))
        if len(n) == 1 and isinstance(n[0], str):
            return bool(m >> cls(n[0]) & 1)
        a = n[0]
        f = st.af(a)
        if not f.m & m:
            return False
        if not f.m & ~m:
            return True
        alts = []
        for mm in (f.m & m, f.m & ~m):
            x = st.copy()
            x.set_af(a, AF(mm, one=True))
            alts.append(x)
        raise Fork(alts, "char")

    def char_norm(self, st, a):
        if isinstance(a, Atom):
            n = st.norm((a,))
            if len(n) == 1:
                return n[0]
        return a

    def cast(self, st, kind, v, dty):
        if kind == "IntToInt":
            v = self.scalar(st, v)
            t = self.T[dty]
            if isinstance(v, bool):
                return int(v)
            if isinstance(v, str):
                return ord(v)
            if isinstance(v, Atom):
                return self.havoc(dty, st, "char to int")
            if t["k"] == "char":
                return chr(v) if isinstance(v, int) else self.havoc(dty, st, "int to char")
            lo, hi = self.intrange_ty(dty)
            l2, h2 = st.interval(v)
            if l2 is not None and h2 is not None and l2 >= lo and h2 <= hi:
                return v
            if isinstance(v, int):
                w = t["bits"]
                v &= (1 << w) - 1
                if t["signed"] and v >> w - 1:
                    v -= 1 << w
                return v
            if not isinstance(v, Bits):
                # in range: the same value; otherwise wrapped
                if isinstance(v, (Sym, Lin)) and self.in_range(st, v, lo, hi):
                    return v
            x = self.bits(st, v, dty)
            if x is None:
                return self.havoc(dty, st, "narrowing cast")
            return st.simp_bits(x)
        if kind == "Transmute":
            t = self.T[dty]
            if t.get("name") == "std::option::Option" and self.kind[t["args"][0]] == "nonzero":
                v = self.scalar(st, v)
                if self.cmp(st, "Eq", v, 0):
                    return Adt(dty, 0, ())
                return Adt(dty, 1, (v,))
        return v

    # ------------------------------------------------------------ execution
    def split(self, st, fn):
        """run fn under st, refining on demand: list of results of fn (each a list)"""
        work = [st]
        out = []
        while work:
            s = work.pop()
            try:
                out += fn(s)
            except Fork as e:
                for x in reversed(e.sts):
                    if x.consistent():
                        x.forks += 1
                        work.append(x)
            except Infeasible:
                pass
        return out

    def run(self, fid, args, st):
        """outcomes of calling function fid: list of (kind, value, state), kind in
        ret / panic / cut"""
        f = self.F.fns[fid]
        body = f.get("body")
        if body is None:
            return [("ret", self.havoc(self.ret_ty(f), st, "no body: " + f["path"]), st)]
        if len(self.fnstack) > 400:
            return [("cut", "call depth", st)]
        self.visited.add(fid)
        self.fnstack.append(fid)
        try:
            return self.run_body(f, body, args, st)
        finally:
            self.fnstack.pop()

    def ret_ty(self, f):
        return None

    def run_body(self, f, body, args, st):
        nl = len(body["locals"])
        env = [None] * nl
        argc = body["argc"]
        if len(args) != argc:
            args = self.untuple(args, argc, body)
        for i, a in enumerate(args):
            env[i + 1] = a
        blocks = body["blocks"]
        lt = body["locals"]
        work = [(0, 0, env, st, {})]
        outs = []
        while work:
            bb, i, env, st, vis = work.pop()
            try:
                while True:
                    blk = blocks[bb]
                    stm = blk["s"]
                    n = len(stm)
                    while i < n:
                        s = stm[i]
                        place, r = s[0], s[1]
                        self.steps += 1
                        if r[0] == "setdiscr":
                            raise Unsupported("set discriminant")
                        v = self.rvalue(st, env, r, lt[place[0]] if len(place) == 1 else self.place_ty(lt, place))
                        self.write(st, env, place, v)
                        i += 1
                    t = blk["t"]
                    k = t[0]
                    self.steps += 1
                    if self.steps > self.max_steps:
                        raise Stop("work limit")
                    if k == "goto":
                        nb = t[1]
                    elif k == "return":
                        rv = self.local(st, env, 0)
                        self.free(st, env)
                        if rv is None:
                            rv = Adt(lt[0], 0, ())
                        outs.append(("ret", rv, st))
                        break
                    elif k == "switch":
                        nb = self.switch(st, self.operand(st, env, t[1]), t[2], t[3], t[4])
                    elif k == "call":
                        res = self.call_term(st, env, t, lt, f, bb)
                        dest, target = t[3], t[4]
                        live = []
                        for (kd, v, s2) in res:
                            if kd == "ret":
                                if target is not None:
                                    live.append((v, s2))
                            else:
                                outs.append((kd, v, s2))
                        if not live:
                            break
                        if len(live) == 1:
                            v, st = live[0]
                            self.write(st, env, dest, v)
                            nb = target
                        else:
                            for v, s2 in reversed(live):
                                e2 = env[:]
                                self.write(s2, e2, dest, v)
                                work.append((target, 0, e2, s2, dict(vis)))
                            if len(work) + len(outs) > self.max_outs:
                                raise Stop("partition limit in " + f["name"])
                            break
                    elif k == "assert":
                        c = self.truth(st, self.operand(st, env, t[1]))
                        if c == t[2]:
                            nb = t[5]
                        else:
                            outs.append(("panic", (str(t[3]), f["id"], bb), st))
                            break
                    elif k == "unreachable":
                        outs.append(("panic", ("reached code the compiler assumes unreachable", f["id"], bb), st)
                                    if not st.notes else ("cut", "unreachable", st))
                        break
                    elif k == "resume":
                        break
                    else:
                        raise Unsupported("terminator " + k)
                    if nb <= bb:
                        c, nd, fk, snap = vis.get(nb, (0, 0, None, None))
                        if fk is not None and st.forks != fk:
                            nd += 1         # the iteration depended on the input
                        if snap == "any count":
                            # a round with an arbitrary count came back without a decision
                            if st.forks == fk and st.notes == {"any count"}:
                                self.hangs.setdefault(self.loop_name(f, nb), st)
                            outs.append(("cut", "endless loop in " + f["path"], st))
                            break
                        if c > 1 and st.forks == fk and not st.notes:
                            last, snap = snap, self.snapshot(st, env, f, nb)
                            if snap is not None and last == snap:
                                self.hangs.setdefault(self.loop_name(f, nb), st)
                                outs.append(("cut", "endless loop in " + f["path"], st))
                                break
                            if c == 200 and last is not None and self.any_count(st, env, lt, last, snap):
                                snap = "any count"
                        else:
                            snap = None
                        vis[nb] = (c + 1, nd, st.forks, snap)
                        if c > 400 or nd > self.loops:
                            self.cut("loop bound in " + f["path"])
                            outs.append(("cut", "loop bound", st))
                            break
                    bb, i = nb, 0
            except Fork as e:
                for x in reversed(e.sts):
                    if x.consistent():
                        x.forks += 1
                        if x.forks > 3000:
                            raise Stop("fork limit")
                        work.append((bb, i, env[:], x, dict(vis)))
                if len(work) + len(outs) > self.max_outs:
                    raise Stop("partition limit in " + f["name"])
            except Infeasible:
                pass
            except Unsupported as e:
                self.unmodelled[str(e)[:100]] = self.unmodelled.get(str(e)[:100], 0) + 1
                outs.append(("cut", "unsupported: %s in %s" % (e, f["path"]), st))
            except RecursionError:
                raise
            except Stop:
                raise
            except Exception as e:
                if not hasattr(e, "_where"):
                    e._where = True
                    import traceback
                    traceback.print_exc()
                    print("   in", f["name"], "bb", bb, "stmt", i,
                          blocks[bb]["s"][i] if i < len(blocks[bb]["s"]) else blocks[bb]["t"])
                raise
        return outs

    def sized_by(self, st, n, what):
        """record an amount of work or memory that is an unbounded number (not a length)"""
        if st.notes:
            return
        n = st.simp(n)
        t = linparts(n) if isinstance(n, (Sym, Lin)) else None
        if t is None or not t[1] or any(isinstance(l, Atom) for l, _ in t[1]):
            return
        if any(k > 0 and (st.interval(l)[1] or 1 << 64) > 65535 for l, k in t[1]):
            f = next((self.F.fns[i] for i in reversed(self.fnstack) if self.F.fns[i].get("local")), None)
            if f is not None:
                self.sized.setdefault((what, self.F.short(f["name"])), st)

    # ------------------------------------------------------------ endless loops
    def loop_name(self, f, head):
        return self.F.short(f["name"])

    def loop_locals(self, f, head):
        """locals that decide how often the loop with this header runs (over-approximation)"""
        key = f["id"], head
        r = self._loops.get(key)
        if r is None:
            r = self._loops[key] = loops.deciding(self.T, f["body"], head)
        return r

    def snapshot(self, st, env, f, head):
        """everything the next iteration of a loop can depend on"""
        vals = []
        cells = {}

        def walk(v):
            if isinstance(v, MutRef):
                if v.c not in cells:
                    cells[v.c] = x = st.d.get(("h", v.c))
                    walk(x)
            elif isinstance(v, V):
                walk(v.key())
            elif isinstance(v, tuple):
                for x in v:
                    walk(x)
        for i in sorted(self.loop_locals(f, head)):
            v = env[i]
            if type(v) is Cell:
                v = (v.c, st.d.get(("h", v.c)))
            walk(v)
            vals.append((i, v))
        rest = {k: tuple(getattr(v, x, None) for x in AF.__slots__) if isinstance(v, AF) else v
                for k, v in st.d.items() if not (isinstance(k, tuple) and k and k[0] == "h")}
        return vals, cells, rest, st.cons

    def any_count(self, st, env, lt, last, snap):
        """the rounds of a loop differ in counters only: make these counters arbitrary"""
        if last[1:] != snap[1:]:
            return False
        diff = []
        for (i, a), (j, b) in zip(last[0], snap[0]):
            if a == b:
                continue
            if isinstance(a, tuple) and len(a) == 2 and a[0] == b[0]:
                a, b = a[1], b[1]
            if type(a) is not int or type(b) is not int or self.T[lt[i]]["k"] != "int":
                return False
            diff.append((i, b - a, b))
        if not diff:
            return False
        for i, step, cur in diff:
            lo, hi = self.intrange_ty(lt[i])
            y = self.fresh(lt[i], self.key("count"), st)
            st.d["iv", y.k] = (cur, hi - step, frozenset()) if step > 0 else (lo - step, cur, frozenset())
            v = env[i]
            if type(v) is Cell:
                st.d["h", v.c] = y
            else:
                env[i] = y
        st.note("any count")
        return True

    def place_ty(self, lt, place):
        ty = lt[place[0]]
        for e in place[1:]:
            if e == "*":
                t = self.T[ty]
                ty = t["e"] if "e" in t else t["args"][0]
            elif e[0] == "f":
                ty = e[2]
            elif e[0] in ("i", "ci"):
                ty = self.T[ty]["e"]
        return ty

    def free(self, st, env):
        for v in env:
            if type(v) is Cell:
                st.d.pop(("h", v.c), None)

    def untuple(self, args, argc, body):
        if len(args) == 2 and isinstance(args[1], Adt) and 1 + len(args[1].f) == argc:
            return [args[0]] + list(args[1].f)
        raise Unsupported("argument count %d for %d" % (len(args), argc))

    def switch(self, st, v, arms, otherwise, ty):
        if isinstance(v, Discr):
            s = v.s
            vs = self.allowed(st, s)
            table = {int(a): b for a, b in arms}
            groups = {}
            for x in vs:
                d = self.discr_of(s.ty, x)
                tgt = table.get(d)
                if tgt is None:
                    bits = self.T[ty].get("bits", 64)
                    tgt = table.get(d & (1 << bits) - 1, otherwise)
                groups.setdefault(tgt, set()).add(x)
            if len(groups) == 1:
                return next(iter(groups))
            alts = []
            for g, xs in sorted(groups.items()):
                y = st.copy()
                self.restrict(y, s, xs)
                alts.append(y)
            raise Fork(alts, "variant")
        v = st.simp(v)
        if isinstance(v, bool):
            v = int(v)
        if isinstance(v, int):
            for a, b in arms:
                if int(a) == v:
                    return b
            bits = self.T[ty].get("bits")
            if bits:
                for a, b in arms:
                    if int(a) == v & (1 << bits) - 1:
                        return b
            return otherwise
        if isinstance(v, (str, Atom)):
            for a, b in arms:
                if self.char_cmp(st, v, chr(int(a)), "Eq"):
                    return b
            return otherwise
        for a, b in arms:
            a = int(a)
            t = self.T[ty]
            if t["k"] == "int" and t["signed"] and a >> t["bits"] - 1:
                a -= 1 << t["bits"]
            if self.cmp(st, "Eq", v, a):
                return b
        return otherwise

    # ------------------------------------------------------------ calls
    def call_term(self, st, env, t, lt, f, bb):
        c = t[1]
        args = [self.operand(st, env, o) for o in t[2]]
        dest = t[3]
        dty = lt[dest[0]] if len(dest) == 1 else self.place_ty(lt, dest)
        if c[0] == "fn":
            return self.call_fndef(st, c[1], args, dty, (f["id"], bb))
        fv = self.operand(st, env, c[1])
        return self.call_value(st, fv, args, dty, (f["id"], bb))

    def call_fndef(self, st, fty, args, dty, site=None):
        inst = self.T[fty].get("inst")
        if inst is None:
            m = self.models.get(self.T[fty].get("name"))
            if m:
                return self.outcomes(m(self, st, args, {"path": self.T[fty]["name"], "args": self.T[fty]["args"],
                                                        "name": self.T[fty]["t"], "id": -1}, dty), st, site)
            return [("ret", self.havoc(dty, st, "unresolved " + str(self.T[fty].get("name"))), st)]
        if len(args) == 2 and isinstance(args[1], Adt) and self.T[fty]["name"] in FN_TRAIT_METHODS:
            body = self.F.fns[inst].get("body")
            if body is not None and body["spread"] is None and inst not in self.stubs:
                args = [args[0]] + list(args[1].f)
        return self.call(st, inst, args, dty, site)

    def outcomes(self, r, st, site):
        if isinstance(r, Outs):
            return [(k, (v + (site,) if False else v), s) if k != "panic" or not isinstance(v, str)
                    else (k, (v,) + (site or (None, None)), s) for k, v, s in r.l]
        return [("ret", r, st)]

    def call(self, st, fid, args, dty=None, site=None):
        f = self.F.fns[fid]
        stub = self.stubs.get(fid)
        if stub is not None:
            r = stub(self, st, args, f, dty)
            if r is not NotImplemented:
                return self.outcomes(r, st, site)
        m = self.models.get(f["path"])
        if m is not None:
            last = f["path"].rsplit("::", 1)[-1]
            if last in SIZED:
                self.sized_by(st, args[SIZED[last]] if len(args) > SIZED[last] else 0, last)
            r = m(self, st, args, f, dty)
            if r is not NotImplemented:
                return self.outcomes(r, st, site)
        if f["kind"].startswith("intrinsic"):
            m = self.models.get(f["kind"])
            if m is not None:
                return self.outcomes(m(self, st, args, f, dty), st, site)
        if f.get("body") is None:
            if dty is None:
                return [("cut", "no body: " + f["path"], st)]
            t = self.T[dty]
            if t["k"] == "adt":
                last = f["path"].split("::")[-1]
                for i, vr in enumerate(t["variants"]):
                    if vr["n"] == last and len(vr["f"]) == len(args):
                        return [("ret", Adt(dty, i, tuple(args)), st)]
            if self.T[dty]["k"] == "never":
                return [("panic", (f["path"],) + (site or (None, None)), st)]
            return [("ret", self.havoc(dty, st, "no model: " + f["path"]), st)]
        return self.run(fid, args, st)

    def call_value(self, st, fv, args, dty=None, site=None):
        """call a function value (fn item, closure, reference to one) with plain args"""
        orig = fv
        v = fv
        while isinstance(v, (RefV, MutRef)):
            v = v.v if isinstance(v, RefV) else self.read_cell(st, v)
        if isinstance(v, FnV):
            t = self.T[v.ty]
            if t["k"] == "fndef" and t.get("ctor") is not None:
                pass
            return self.call_fndef(st, v.ty, list(args), dty, site)
        if isinstance(v, Adt) and self.T[v.ty]["k"] == "closure":
            inst = self.T[v.ty].get("inst")
            f = self.F.fns[inst]
            body = f["body"]
            p0 = self.T[body["locals"][1]]
            if p0["k"] == "ref":
                if p0.get("mut"):
                    if isinstance(orig, MutRef):
                        while isinstance(self.read_cell(st, orig), MutRef):
                            orig = self.read_cell(st, orig)
                        a0 = orig
                        tmp = None
                    else:
                        tmp = st.alloc(v)
                        a0 = MutRef(tmp)
                else:
                    a0, tmp = RefV(v), None
            else:
                a0, tmp = v, None
            outs = self.call(st, inst, [a0] + list(args), dty, site)
            if tmp is not None:
                for k, x, s in outs:
                    s.d.pop(("h", tmp), None)
            return outs
        if dty is None:
            return [("cut", "unknown callee", st)]
        return [("ret", self.havoc(dty, st, "unknown callee"), st)]

    # ------------------------------------------------------------ trait lookup
    def method(self, trait, m, self_ty, trait_args=None):
        """instance id of <self_ty as trait>::m, None if the program contains none"""
        key = (trait, m, self_ty, trait_args)
        if key in self.impl_cache:
            return self.impl_cache[key]
        c = self.F.bymethod.get((self.tname(self_ty), trait, m), [])
        if trait_args is not None:
            c = [x for x in c if x[0] == trait + "<" + trait_args + ">"] or c
        r = c[0][1] if c else None
        self.impl_cache[key] = r
        return r


FN_TRAIT_METHODS = {"std::ops::Fn::call", "std::ops::FnMut::call_mut", "std::ops::FnOnce::call_once",
                    "core::ops::Fn::call", "core::ops::FnMut::call_mut", "core::ops::FnOnce::call_once"}


class Unsupported(Exception):
    pass


class Outs:
    """several outcomes of a model"""
    __slots__ = ("l",)

    def __init__(self, l):
        self.l = l


def simp_bits(self, v):
    return self.simp(v)


St.simp_bits = simp_bits


def deref1(self, st, v):
    """one level"""
    if isinstance(v, RefV):
        return v.v
    if isinstance(v, MutRef):
        return self.read_cell(st, v)
    return v


Engine.deref1 = deref1
