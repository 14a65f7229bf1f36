"""C15: values are plain data: shareable between threads, and equality/hash/order agree
and cover every field."""

UNSHARE = ("std::rc::Rc<", "std::rc::Weak<", "std::cell::Cell<", "std::cell::RefCell<", "std::cell::UnsafeCell<",
           "std::cell::OnceCell<", "std::cell::LazyCell<", "std::sync::MutexGuard", "alloc::rc::Rc<",
           "core::cell::")


def walk(F, t, path, seen, out):
    if t in seen:
        return
    seen.add(t)
    d = F.types[t]
    k = d["k"]
    if k == "adt":
        if d["t"].startswith(UNSHARE) or d["name"].startswith(("std::rc::", "std::cell::")):
            out.append((path, d["t"]))
            return
        if d.get("local"):
            for v in d["variants"]:
                for fn, ft, _ in v["f"]:
                    walk(F, ft, path + [v["n"] + "." + fn], seen, out)
        for a in d.get("args", []):
            if isinstance(a, int):
                walk(F, a, path + ["<" + F.types[a]["t"] + ">"], seen, out)
    elif k in ("ptr", "dyn", "fnptr", "ref"):
        if k == "ptr" or k == "dyn" and "Send" not in d["t"]:
            out.append((path, d["t"]))
        elif k == "ref":
            walk(F, d["e"], path, seen, out)
    elif k in ("array", "slice"):
        walk(F, d["e"], path, seen, out)
    elif k == "tuple":
        for e in d["e"]:
            walk(F, e, path, seen, out)


def field_reads(F, f, ty):
    """fields of the type the function reads, in itself, in its closures and in the functions of the crate it uses"""
    out = set()

    def visit(x, loc):
        if isinstance(x, list):
            if len(x) >= 2 and isinstance(x[0], int) and not isinstance(x[0], bool) and x[0] < len(loc) \
                    and all(p == "*" or isinstance(p, list) and p and isinstance(p[0], str) for p in x[1:]):
                t = loc[x[0]]
                for p in x[1:]:
                    if p == "*":
                        t = F.types[t].get("e", t) if t is not None else None
                    elif p[0] == "f":
                        if t == ty:
                            out.add(p[1])
                        t = p[2] if len(p) > 2 else None
                    else:
                        t = t if p[0] in ("v", "as", "downcast") else None
                return
            for y in x:
                visit(y, loc)
        elif isinstance(x, dict):
            for y in x.values():
                visit(y, loc)
    seen, todo = set(), [f["id"]]
    while todo:
        i = todo.pop()
        g = F.fns[i]
        if i in seen or not g.get("local"):
            continue
        seen.add(i)
        todo += F.fn_refs(g)
        b = g.get("body")
        for bb in b["blocks"] if b else ():
            visit(bb["s"], b["locals"])
            visit(bb["t"], b["locals"])
    return out


def semantic(F, ty, eq):
    """a hand-written equality against the equality of all fields, on two arbitrary values:
    [(key, text)], number of decided paths, reasons for what is left open"""
    import an
    from an import Sym, Adt, RefV, St
    ex = an.make_engine(F, (), max_outs=4000, max_steps=2000000, K=3)
    bad, ok, und = {}, 0, []
    name = F.short(F.types[ty]["t"])

    def fields(pairs, s):
        """all pairs (x, y, type) equal: outcomes"""
        if not pairs:
            return [("ret", True, s)]
        out = []
        for k, r, w in ex.split(s, lambda q: shape(*pairs[0], q)):
            if k != "ret":
                out.append((k, r, w))
                continue
            out += ex.split(w, lambda q, r=r: fields(pairs[1:], q) if ex.truth(q, r) else [("ret", False, q)])
        return out

    def shape(x, y, t, s):
        """equality of all parts: outcomes"""
        x, y = ex.deref(s, x), ex.deref(s, y)
        while F.types[t]["k"] == "ref":
            t = F.types[t]["e"]
        k = ex.kind[t]
        if k == "enum":
            x, y = ex.resolve(s, x), ex.resolve(s, y)
            if x.v != y.v:
                return [("ret", False, s)]
        if k in ("enum", "struct"):
            fs = F.types[t]["variants"][x.v]["f"]
            return fields([(x.f[i], y.f[i], f[1]) for i, f in enumerate(fs)], s)
        if k == "tuple":
            return fields([(x.f[i], y.f[i], e) for i, e in enumerate(F.types[t]["e"])], s)
        if k == "seq":
            e = F.types[t]["e"] if "e" in F.types[t] else F.types[t]["args"][0]
            x, y = ex.whole_seq(s, x), ex.whole_seq(s, y)
            if len(x.it) != len(y.it):
                return [("ret", False, s)]
            return fields([(p, q, e) for p, q in zip(x.it, y.it)], s)
        if k == "bool":
            return [("ret", ex.cmp(s, "Eq", x, y), s)]
        return ex.eq_val(ex, s, x, y, t)

    for label, ka, kb in (("two values", "in:a", "in:b"), ("a value with itself", "in:a", "in:a")):
        try:
            st = St()
            a, b = ex.fresh(ty, ka, st), ex.fresh(ty, kb, st)
            for k, v, s in ex.split(st, lambda q: ex.run(eq, [RefV(a), RefV(b)], q)):
                if k != "ret":
                    und.append("%s: %s" % (label, k))
                    continue
                for k2, v2, s2 in ex.split(s, lambda q: [("ret", ex.truth(q, v), q)]):
                    for k3, v3, s3 in ex.split(s2, lambda q: shape(a, b, ty, q)) if label == "two values" else [("ret", True, s2)]:
                        if k3 != "ret" or s3.notes:
                            und.append("%s: approximated (%s)" % (label, ", ".join(sorted(map(str, s3.notes)))[:80]))
                        elif bool(v3) != bool(v2):
                            bad["equality|%s|%s" % (name, "differs" if v2 else "same")] = \
                                "%s: %s" % (F.where(F.fns[eq]), "two values with different fields compare equal" if v2
                                            else "a value is not equal to one with the same fields")
                        else:
                            ok += 1
        except Exception as e:
            und.append("%s: %s %s" % (label, type(e).__name__, str(e)[:80]))
    return bad, ok, und


def run(F, rep):
    rep.rule = ("type walk: no public type contains a non-Send/non-Sync component; equality, ordering and hashing of "
                "every public data type are all compiler-derived (field-wise, hence coherent), and a hand-written "
                "one reads every field")
    # positive example for the type rule
    if not any(("std::rc::Rc<T>").startswith(u) for u in UNSHARE):
        rep.errors.append("type rule cannot match")
    n = 0
    for t, d in enumerate(F.types):
        if d["k"] == "adt" and d.get("local") and d.get("pub") and d["kind"] in ("Struct", "Enum", "struct", "enum"):
            n += 1
            out = []
            walk(F, t, [], set(), out)
            for path, what in out:
                rep.violation("share|%s|%s" % (F.short(d["t"]), what),
                              "%s holds %s at %s: not Send + Sync" % (F.short(d["t"]), what, "/".join(path)))
            if not out:
                rep.ok("Send+Sync " + F.short(d["t"]))
    rep.count("types", n)
    by = {}
    for tr, ty, der in F.impls:
        by.setdefault(ty, {})[tr.split("::")[-1]] = der
    m = 0
    for ty in sorted(by):
        d = by[ty]
        if "PartialEq" not in d:
            continue
        m += 1
        bad = False
        for tr in ("PartialEq", "Hash", "PartialOrd", "Ord"):
            if d.get(tr) is False:
                meth = {"PartialEq": "eq", "Hash": "hash", "PartialOrd": "partial_cmp", "Ord": "cmp"}[tr]
                fs = [f for f in F.fns if f["local"] and f["name"].endswith("::%s>::%s" % (tr, meth))
                      and (F.impl_self(f) or "").endswith(ty)]
                if fs and tr == "PartialEq":
                    tid = next((i for i, x in enumerate(F.types) if x["k"] == "adt" and x["t"].endswith(ty) and x.get("local") and not x.get("args")), None)
                    if tid is not None:
                        b2, ok, und = semantic(F, tid, fs[0]["id"])
                        for k, t in b2.items():
                            bad = True
                            rep.violation(k, t)
                        rep.count("paths_of_handwritten_equalities", ok)
                        for u in sorted(set(und)):
                            rep.undec("equality of %s: %s" % (ty, u))
                td = [x for x in F.types if x["k"] == "adt" and x["t"].endswith(ty) and x.get("local")]
                if fs and td and len(td[0]["variants"]) == 1:
                    rd = field_reads(F, fs[0], F.types.index(td[0]))
                    allf = range(len(td[0]["variants"][0]["f"]))
                    # delegating to another trait method of the same type reads the value as a whole
                    delegates = any(c is not None and c["local"] and F.impl_self(c) == F.impl_self(fs[0])
                                    for _, c, _ in F.calls(fs[0]))
                    miss = [] if delegates else [td[0]["variants"][0]["f"][i][0] for i in allf if i not in rd]
                    for x in miss:
                        bad = True
                        rep.violation("coverage|%s|%s|%s" % (ty, tr, x),
                                      "%s ignores field %s" % (F.where(fs[0]), x))
                else:
                    rep.count("handwritten_not_analysed")
        if not bad:
            rep.ok("eq/hash/ord of " + ty)
    rep.count("types_with_equality", m)
    rep.floor("types", n, 100)
    rep.floor("types with equality", m, 60)
    rep.assumptions = ["the standard library's and rust_decimal's own types are Send, Sync and coherent",
                       "compiler-derived implementations are field-wise"]
