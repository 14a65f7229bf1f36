"""Shared by the checks of the programming interface: symbolic objects, equality of symbolic
values, methods of a type."""
import re
from an import *


def arg_names(f):
    """argument local -> source name"""
    n = f["body"]["argc"]
    out = {}
    for l, name in f["body"]["dbg"]:
        if isinstance(l, int) and 1 <= l <= n:
            out.setdefault(l, name)
    return out


def eqv(ex, st, a, b):
    """True / False (some input has them different) / None"""
    a, b = one_variant(ex, st, a), one_variant(ex, st, b)
    r = same(ex, st, a, b)
    if r is not None:
        return r
    if isinstance(a, Adt) and isinstance(b, Adt):
        if a.v != b.v or len(a.f) != len(b.f):
            return False
        rs = [eqv(ex, st, x, y) for x, y in zip(a.f, b.f)]
        return False if False in rs else None if None in rs else True
    if isinstance(a, Sym) or isinstance(b, Sym):
        if isinstance(b, Sym) and not isinstance(a, Sym):
            a, b = b, a
        x = st.simp(a) if ex.kind[a.ty] in ("bool", "int") else a
        y = st.simp(b) if isinstance(b, Sym) and ex.kind[b.ty] in ("bool", "int") else b
        if isinstance(x, Sym) and ex.T[x.ty]["k"] == "bool" and isinstance(y, (bool, Sym)):
            return x == y
        if isinstance(x, Sym) and isinstance(y, Sym) and ex.kind[x.ty] == "enum" and x.ty == y.ty and free(x) and free(y):
            p, q = ex.allowed(st, x), ex.allowed(st, y)
            return None if len(p) == 1 and p == q else False
        if isinstance(x, Sym) and free(x) and isinstance(y, Adt) and len(ex.allowed(st, x)) > 1:
            return False
        if isinstance(x, Sym) and isinstance(y, Sym) and x.ty == y.ty and free(x) and free(y) and x.k != y.k \
                and ex.kind[x.ty] not in ("int", "bool", "enum"):
            return False
        if isinstance(x, Sym) and isinstance(y, Adt) and isinstance(x.k, str) and x.k.startswith("in:") \
                and ex.kind[x.ty] != "enum":
            return False
    if isinstance(a, Seq) and isinstance(b, Seq):
        a, b = ex.norm_seq(st, a), ex.norm_seq(st, b)
        if a.tail is not None and b.tail is not None and a.tail.key() != b.tail.key():
            return False
        if (a.tail is None) != (b.tail is None):
            return False
    return None


def one_variant(ex, st, a):
    a = ex.deref(st, a)
    if isinstance(a, Sym) and ex.kind[a.ty] == "enum" and len(ex.allowed(st, a)) == 1:
        return ex.resolve(st, a)
    return a


def free(x):
    k = x.k
    while isinstance(k, tuple) and k:
        k = k[0]
    return isinstance(k, str) and (k.startswith("in:") or k.startswith("self"))


def base(name):
    """the name of a function without the arguments of its own type parameters"""
    if name.endswith(">"):
        d = 0
        for i in range(len(name) - 1, -1, -1):
            d += (name[i] == ">" and name[i - 1:i] != "-") - (name[i] == "<")
            if d == 0:
                return name[:i].removesuffix("::") if name[:i].endswith("::") else name
    return name


def methods(F):
    """type id -> {method name: fn id} of the inherent methods of the local types"""
    out = {}
    for f in F.fns:
        if not f.get("local") or not f.get("body") or f["name"].startswith("<") or "{closure" in f["name"]:
            continue
        b = f["body"]
        name = base(f["name"]).rsplit("::", 1)[-1]
        if b["argc"]:
            t = F.types[b["locals"][1]]
            if t["k"] == "ref" and F.types[t["e"]]["k"] == "adt" and F.types[t["e"]].get("local"):
                s = F.types[t["e"]]["t"]
                if re.sub(r"<.*", "", s).rsplit("::", 1)[-1] in F.short(f["name"]):
                    out.setdefault(t["e"], {}).setdefault(name, f["id"])
    return out


def makers(F):
    """type id -> [fn id]: inherent functions without self that give a value of their own type"""
    out = {}
    for f in F.fns:
        if not f.get("local") or not f.get("body") or f["name"].startswith("<") or "{closure" in f["name"]:
            continue
        b = f["body"]
        r = b["locals"][0]
        own = r
        while F.types[own].get("name") in ("std::option::Option", "std::result::Result"):
            own = F.types[own]["args"][0]
        t = F.types[own]
        if t["k"] != "adt" or not t.get("local"):
            continue
        path = base(F.short(f["name"])).rsplit("::", 1)[0]
        if path.replace("::<", "<") != t["t"]:
            continue
        if b["argc"] and own in (b["locals"][1], F.types[b["locals"][1]].get("e")):
            continue
        out.setdefault(own, []).append(f["id"])
    return out


def unwrap(ex, st, v):
    """the value inside Ok / Some; None: rejected"""
    while True:
        v = ex.resolve(st, v) if isinstance(v, (Adt, Sym)) else v
        if not isinstance(v, Adt) or not isinstance(v.ty, int) or v.ty < 0:
            return v
        n = ex.T[v.ty].get("name")
        if n == "std::option::Option":
            if v.v == 0:
                return None
        elif n == "std::result::Result":
            if v.v == 1:
                return None
        else:
            return v
        v = v.f[0]
