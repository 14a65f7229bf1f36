"""print-then-parse analysis of one type: every accepted text partition is printed, the
printed text is parsed again, and the two values are compared structurally."""
import an
from an import *


def roundtrip(F, T, stubs=(), entry=None, ver=None, vers=(3, 14), **kw):
    """obligations of T: list of (status, key, detail, state description, versions); status
    ok / bad / undec / unwritten"""
    ex = make_engine(F, stubs, **kw)
    st = St()
    v = ver_sym(F, st, *vers) if ver is None else ver
    segs = (Atom("text"),)
    if entry is not None:
        segs = entry(ex, st)
    out = []
    for k, val, s in parse_outcomes(ex, T, segs, v, st):
        if k == "cut":
            out.append(("cut", "parse", str(val), None, None))
        if k != "some":
            continue
        for k2, text, s2 in print_outcomes(ex, T, val, v, s):
            if k2 == "none":
                out.append(("unwritten", "none", "", describe(ex, s2, segs, v), ver_set(s2, v)))
                continue
            if k2 == "cut":
                out.append(("cut", "print", str(text), None, None))
                continue
            if k2 == "panic":
                out.append(("bad" if not s2.notes else "undec", "print panics", str(text), describe(ex, s2, segs, v), ver_set(s2, v)))
                continue
            n0 = s2.notes
            for k3, val3, s3 in parse_outcomes(ex, T, text, v, s2):
                d = describe(ex, s3, segs, v) + " printed as %s" % show(s3, text)
                if k3 == "cut":
                    out.append(("cut", "reparse", str(val3), None, None))
                elif k3 != "some":
                    e = ""
                    if k3 == "err":
                        e = err_name(ex, s3, val3)
                    out.append(("bad" if not s3.notes else "undec", "reparse:" + k3 + (":" + e if e else ""),
                                "the printed text is not accepted", d, ver_set(s3, v)))
                else:
                    r = same(ex, s3, val, val3)
                    if r is True:
                        out.append(("ok", "", "", "", None))
                    elif r is False and not s3.notes:
                        out.append(("bad", "differs:" + diff_path(ex, s3, val, val3), "reads back as a different value", d, ver_set(s3, v)))
                    else:
                        out.append(("undec", "compare", diff_path(ex, s3, val, val3) + " " + ",".join(map(str, s3.notes)), d, ver_set(s3, v)))
    return out, ex


def err_name(ex, st, e):
    if isinstance(e, Adt) and ex.T[e.ty]["k"] == "adt":
        return ex.T[e.ty]["variants"][e.v]["n"]
    return ""


def show(st, segs):
    segs = st.norm(segs)
    return "".join(repr(x)[1:-1] if isinstance(x, str) else "<%s>" % maskstr(st.af(x).m) for x in segs) or "(empty)"


def describe(ex, st, segs, ver):
    vs = sorted(ver_set(st, ver))
    return "%s (versions %s)" % (show(st, segs), vs[0] if len(vs) == 1 else "%d-%d" % (vs[0], vs[-1]))


def diff_path(ex, st, a, b, path=""):
    a, b = ex.deref(st, a), ex.deref(st, b)
    if isinstance(a, Adt) and isinstance(b, Adt):
        t = ex.T[a.ty] if isinstance(a.ty, int) and a.ty >= 0 else {"k": "?"}
        if a.v != b.v:
            return path + "/variant"
        names = None
        if t["k"] == "adt" and t["variants"]:
            names = [f[0] for f in t["variants"][a.v]["f"]]
        for i, (x, y) in enumerate(zip(a.f, b.f)):
            if same(ex, st, x, y) is not True:
                return diff_path(ex, st, x, y, path + "/" + (names[i] if names else str(i)))
        return path
    if isinstance(a, Seq) and isinstance(b, Seq):
        if len(a.it) != len(b.it):
            return path + "/len"
        for i, (x, y) in enumerate(zip(a.it, b.it)):
            if same(ex, st, x, y) is not True:
                return diff_path(ex, st, x, y, path + "/[]")
    return path
