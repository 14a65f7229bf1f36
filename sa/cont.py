"""Helpers of the container analyses: what lines of a template a value stands for."""
import an, lines, rt
from an import *


def strip(st, segs):
    """segments without the white space at both ends"""
    s = list(st.norm(tuple(segs)))

    def ws(x):
        return (not x.strip()) if isinstance(x, str) else not (st.af(x).m & ~WS)
    while s and ws(s[0]):
        s.pop(0)
    while s and ws(s[-1]):
        s.pop()
    if s and isinstance(s[0], str):
        s[0] = s[0].lstrip()
    if s and isinstance(s[-1], str):
        s[-1] = s[-1].rstrip()
    return tuple(s)


def blank(st, segs):
    """True / False / None: does the text consist of white space only?"""
    r = True
    for x in st.norm(tuple(segs)):
        if isinstance(x, str):
            if x.strip():
                return False
            continue
        g = st.af(x)
        if not g.m & ~WS:
            continue
        if g.min and (not g.f & WS or not g.l & WS):
            return False
        r = None
    return r


def items(ex, st, v):
    v = ex.deref(st, v)
    if isinstance(v, Seq):
        v = ex.norm_seq(st, v)
        if v.tail is None:
            return list(v.it)
    return None


def find_seq(ex, st, v, depth=4):
    """the first list inside a value"""
    v = ex.deref(st, v)
    if isinstance(v, Seq):
        return items(ex, st, v)
    if isinstance(v, Adt) and depth:
        for x in v.f:
            r = find_seq(ex, st, x, depth - 1)
            if r is not None:
                return r
    return None


def leafs(ex, st, v, tag=("lv", "le"), depth=8, out=None):
    """leaf values / errors inside a value, in order"""
    out = [] if out is None else out
    v = ex.deref(st, v)
    if isinstance(v, Sym) and isinstance(v.k, tuple) and v.k and v.k[0] in tag:
        out.append(v)
    elif isinstance(v, Adt):
        for x in v.f:
            leafs(ex, st, x, tag, depth, out)
    elif isinstance(v, Seq):
        for x in v.it:
            leafs(ex, st, x, tag, depth, out)
    return out


def err_parts(ex, st, e):
    """(line index, error) of an Error<ParseError> value"""
    e = ex.resolve(st, e) if not isinstance(e, Adt) else e
    t = ex.T[e.ty]
    idx = err = None
    for (n, ty, _), x in zip(t["variants"][e.v]["f"], e.f):
        if ex.T[ty]["k"] == "int":
            idx = st.simp(ex.deref(st, x))
        else:
            err = ex.deref(st, x)
    return idx, err


def inherent(F, T, m):
    """id of an inherent (or only) function T::m"""
    r = [i for i, f in enumerate(F.fns) if f.get("local") and f.get("body")
         and f["name"] == "osu_file_parser::" + T + "::" + m]
    return r[0] if len(r) == 1 else None


def split_lines(segs):
    """segments cut at the literal line breaks"""
    out = [[]]
    for x in segs:
        if isinstance(x, str):
            ps = x.split("\n")
            if ps[0]:
                out[-1].append(ps[0])
            for p in ps[1:]:
                out.append([p] if p else [])
        else:
            out[-1].append(x)
    return out
