"""C02: no function of the public API panics (printing, accessors, mutators, constructors,
conversions), whatever public values it is given."""
import collections, itertools, os, re
import lines, rt, an, models
from an import *
from checks.c01 import site

SKIP = ("std::clone::Clone", "std::cmp::", "std::hash::", "std::fmt::Debug", "std::marker", "core::marker",
        "strum::",
        "assert_eq_osu_str")      # panics where the texts differ: that is what it is for
DEPS = {}
GUARD = {}


def strip_ty(F, t):
    while F.types[t]["k"] in ("ref", "ptr"):
        t = F.types[t]["e"]
    return t


def guarded(F):
    """struct types whose fields cannot be chosen freely: some field is private and no
    infallible public constructor takes all of them"""
    free = set()
    for i in F.roots:
        f = F.fns[i]
        b = f.get("body")
        if not b:
            continue
        r = b["locals"][0]
        t = F.types[r]
        if t["k"] == "adt" and t.get("local") and t["kind"] == "struct":
            args = sorted(b["locals"][1:b["argc"] + 1])
            if args == sorted(x[1] for x in t["variants"][0]["f"]):
                free.add(r)
    out = set()
    for i, t in enumerate(F.types):
        if t["k"] == "adt" and t.get("local") and t["kind"] == "struct" and "error" not in t["t"].lower():
            if any(not x[2] for x in t["variants"][0]["f"]) and i not in free:
                out.add(i)
    return out


def unwrap_ty(F, t):
    """T of T / Option<T> / Result<T, _> / Result<Option<T>, _>"""
    d = 0
    while F.types[t]["k"] == "adt" and F.types[t]["name"] in ("std::option::Option", "std::result::Result"):
        t = F.types[t]["args"][0]
        d += 1
        if not isinstance(t, int):
            return None
    return t


def producers(F, T):
    out = []
    for i in F.roots:
        f = F.fns[i]
        b = f.get("body")
        if not b or not f.get("local") or any(s in f["name"] for s in SKIP):
            continue
        if unwrap_ty(F, b["locals"][0]) != T:
            continue
        if any(strip_ty(F, a) == T for a in b["locals"][1:b["argc"] + 1]):
            continue
        out.append(i)
    return out


def mutators(F, T):
    out = []
    for i in F.roots:
        f = F.fns[i]
        b = f.get("body")
        if b and f.get("local") and b["argc"] >= 1:
            t = F.types[b["locals"][1]]
            if t["k"] == "ref" and t.get("mut") and t["e"] == T and not any(s in f["name"] for s in SKIP):
                out.append(i)
    return out


def argnames(f):
    d = {}
    for x in f["body"].get("dbg") or []:
        d.setdefault(x[0], x[1])
    return d


def version_arg(F, f, k, ty):
    if F.types[ty]["t"] != "u8":
        return False
    n = argnames(f).get(k + 1, "")
    return "version" in n or n == "_" or (not n and "Versioned" in f["name"])


class Gen:
    def __init__(self, ex, ver, hist):
        self.ex, self.ver, self.hist, self.pairs = ex, ver, hist, False
        self.n = 0

    def values(self, st, ty, key, depth=0):
        """(value, state) choices for an argument of this type"""
        ex, F = self.ex, self.ex.F
        t = F.types[ty]
        if t["k"] in ("ref", "ptr"):
            out = []
            for v, s in self.values(st, t["e"], key, depth):
                if t.get("mut"):
                    out.append((MutRef(s.alloc(v)), s))
                else:
                    out.append((RefV(v), s))
            return out
        if t.get("name", "").endswith("osu_file::types::Error"):
            v = ex.fresh(ty, "error%d" % self.n, st)
            self.n += 1
            for x in v.f:
                if isinstance(x, Sym) and ex.T[x.ty]["k"] == "int":
                    st.set_iv(x, 0, 1 << 40, frozenset())
            return [(v, st)]
        if ty in GUARD and depth < 2:
            return self.made(st, ty, key, depth)
        self.n += 1
        if self.pairs and t["k"] == "str":
            a, b = "x%d" % self.n, "y%d" % self.n
            return [(Str(lines.tmpl(s, x)), s) for x, s in (("{%s*}" % a, st.copy()), ("{%s*}\n{%s*}" % (a, b), st.copy()))]
        v = ex.fresh(ty, "arg%d" % self.n, st)
        of = opt_fields(F, ty)
        if self.pairs and len(of) > 5:
            out = []
            for a, b in itertools.combinations(of, 2):
                out.append((Adt(ty, 0, tuple(Adt(F.types[ty]["variants"][0]["f"][k][1], 0, ())
                                             if k in of and k not in (a, b) else x
                                             for k, x in enumerate(v.f))), st.copy()))
            return out
        return [(v, st)]

    def made(self, st, ty, key, depth):
        ex, F = self.ex, self.ex.F
        out = []
        for p in GUARD[ty]:
            for k, v, s in self.apply(st.copy(), p, (key, p), depth + 1):
                if k != "ret":
                    continue
                # strip Option / Result
                def strip(s2, v=v):
                    x = v
                    while True:
                        x = ex.resolve(s2, x)
                        t = ex.T[x.ty] if isinstance(x, Adt) and isinstance(x.ty, int) else {}
                        if t.get("name") == "std::option::Option":
                            if x.v == 0:
                                return []
                        elif t.get("name") == "std::result::Result":
                            if x.v == 1:
                                return []
                        else:
                            return [(x, s2)]
                        x = x.f[0]
                out += ex.split(s, strip)
        if self.hist and depth == 0:
            extra = []
            for v, s in out:
                for m in mutators(F, ty)[:12]:
                    b = F.fns[m]["body"]
                    s2 = s.copy()
                    r = MutRef(s2.alloc(v))
                    for args, s3 in self.args(s2, m, (key, "m", m), depth + 1, first=r):
                        for k, _, s4 in ex.split(s3, lambda q, args=args: ex.run(m, args, q)):
                            if k == "ret":
                                extra.append((ex.deref(s4, r), s4))
            out += extra
        return out

    def args(self, st, fid, key, depth=0, first=None):
        F = self.ex.F
        f = F.fns[fid]
        b = f["body"]
        sets = [([], st)]
        for k, ty in enumerate(b["locals"][1:b["argc"] + 1]):
            new = []
            for args, s in sets:
                if k == 0 and first is not None:
                    new.append((args + [first], s))
                elif version_arg(F, f, k, ty):
                    new.append((args + [self.ver], s))
                else:
                    new += [(args + [v], s2) for v, s2 in self.values(s, ty, ("a", key, k), depth)]
            sets = new
        return sets

    def apply(self, st, fid, key, depth=0):
        ex = self.ex
        out = []
        for args, s in self.args(st, fid, key, depth):
            s = s.copy()
            out += ex.split(s, lambda q, args=args: ex.run(fid, args, q))
        return out


NEVERNONE = {}      # printer -> True when it was seen to give a text for every value
PRINTERS = []
DISPS = []


def assume_printers(ex, own):
    """printers of other types, each checked on its own for every value, give some text or
    (when they were not seen to always give a text) nothing"""
    def stub(i):
        def show(e, st, a, f, dty):
            vs = e.T[dty]
            some = Adt(dty, 1, (Str((Atom(e.key("printed")),)),))
            if NEVERNONE.get(i):
                return some
            v = e.deref(st, a[0])
            k = ("printed?", i, v, a[1] if len(a) > 1 else None)
            r = st.d.get(k)
            if r is None:
                x, y = st.copy(), st.copy()
                x.d[k], y.d[k] = True, False
                y.note("nothing printed for a " + F_NAME(e.F, i))
                raise Fork([x, y], "printed")
            return some if r else Adt(dty, 0, ())
        return show
    for i in PRINTERS:
        if i != own:
            ex.stubs[i] = stub(i)
    ex.opaque_disp |= {i for i in DISPS if i != own}


def F_NAME(F, i):
    return F.fns[i]["name"].replace("osu_file_parser::", "").replace("osu_file::", "")


def opt_fields(F, ty):
    t = F.types[ty]
    if t["k"] != "adt" or t["kind"] != "struct":
        return []
    return [k for k, x in enumerate(t["variants"][0]["f"]) if F.types[x[1]].get("name") == "std::option::Option"]


def job(F, j):
    kind, fid, deps, hist = j[:4]
    K = j[4] if len(j) > 4 else 2
    if K != 2:
        deps = [an.Black("osu_file::osb::Osb", ("some", "none", "err"))] if "append_osb" in F.fns[fid]["name"] else []
    f = F.fns[fid]
    ex = an.make_engine(F, deps, K=K, max_outs=30000, max_steps=20000000, lazy=True)
    if K != 2:
        assume_printers(ex, fid)
    st = St()
    ver = ver_sym(F, st)
    g = Gen(ex, ver, hist)
    g.pairs = K != 2
    c, bad, und = collections.Counter(), {}, collections.Counter()
    if kind == "disp":
        outs = []
        ty = kind_ty(F, fid)
        for v, s in g.values(st, ty, ("a", "d")):
            outs += ex.split(s, lambda q, v=v: models.disp(ex, q, ty, v))
    else:
        outs = g.apply(st, fid, "f")
    none = False
    for k, v, s in outs:
        c[k] += 1
        if k == "ret" and isinstance(v, Adt) and isinstance(v.ty, int) and F.types[v.ty].get("name") == "std::option::Option" and v.v == 0:
            none = True
        if k == "panic":
            m, fn = site(F, v)
            if s.notes:
                und["panic? %s in %s (approximated: %s)" % (m, fn, ",".join(map(str, s.notes))[:80])] += 1
            else:
                vs = sorted(ver_set(s, ver))
                bad.setdefault("%s in %s" % (m, fn), "versions %s-%s" % (vs[0], vs[-1]))
        elif k == "cut":
            und["cut: %s" % str(v)[:80]] += 1
    fns = {i for i in ex.visited if F.fns[i].get("local")}
    return dict(c), bad, dict(und), fns, ex.steps, dict(ex.unmodelled), none


def kind_ty(F, fid):
    return F.types[F.fns[fid]["body"]["locals"][1]]["e"]


def closure_deps(F, types):
    """parsers used below the given producers"""
    return sorted({d for t in types for d in DEPS.get(t, ())})


def run(F, rep):
    rep.rule = ("abstract interpretation of every public function of the crate that is not a parser (printing, "
                "accessors, mutators, constructors, conversions, Display, Default) on arbitrary arguments: structs "
                "with public fields take any field values, structs with private fields every value that a "
                "constructor or parser makes, optionally changed by one mutator; no path may reach a panic")
    rep.assumptions = ["lists are followed up to 2 items", "a line index is less than 2^40", "functions of the standard library behave as modelled"]
    ls, deps, missing, badsum = lines.plan(F)
    DEPS.update(deps)
    G = guarded(F)
    P = {v: k for k, v in lines.from_impls(F).items()}
    for t in sorted(G):
        pr = producers(F, t)
        if not pr and any("for %s>::" % F.types[t]["t"] in F.short(g) or F.short(g).startswith("<%s as std::convert::From" % F.types[t]["t"]) for g in F.generic):
            continue        # made from any value by a generic constructor
        GUARD[t] = pr
    jobs = []
    leaf = sorted({d for ds in deps.values() for d in ds if d in an.SUMS})
    # provided methods of the traits of the crate are seen through their instances
    prov = {f["id"] for f in F.fns if f["name"].startswith("<") and " as osu_file_parser::" in f["name"]}
    for i in sorted(set(F.roots) | prov):
        f = F.fns[i]
        b = f.get("body")
        if not b or not f.get("local") or not f.get("reach") or i in P or f["name"].rsplit("::", 1)[-1] in ("from_str", "from_str_variables") or "{closure" in f["name"]:
            continue
        if any(s in f["name"] for s in SKIP) or "::error::" in f["name"] and "Display" not in f["name"] \
                or "std::error::Error" in f["name"]:
            continue
        tys = [F.types[t]["t"] for t in b["locals"][1:b["argc"] + 1]]
        if any("Hasher" in t or "VerboseError" in t or "__H" in t for t in tys):
            continue
        kind = "fn"
        if any("Formatter" in t for t in tys):
            if "Display" not in f["name"]:
                continue
            kind = "disp"
        if "Formatter" in str(tys) and kind != "disp":
            continue
        used = {strip_ty(F, t) for t in b["locals"][1:b["argc"] + 1]} & G
        own = {F.types[strip_ty(F, t)]["t"] for t in b["locals"][1:b["argc"] + 1]}
        own.add(F.types[unwrap_ty(F, b["locals"][0]) or 0]["t"])
        d = [x for x in leaf if x not in own]
        jobs.append((kind, i, d, bool(used) and len(b["locals"]) > 0))
    only = os.environ.get("ONLY")
    if only:
        jobs = [j for j in jobs if any(o in F.fns[j[1]]["name"] for o in only.split(","))]
    fns = set()
    res = an.run_jobs(F, job, jobs, limit=90)
    for j, status, r in res:
        if status == "ok" and not r[6] and not any("cut: unsupp" in u for u in r[2]):
            NEVERNONE[j[1]] = True
    PRINTERS[:] = sorted(j[1] for j in jobs if F.fns[j[1]]["name"].rsplit("::", 1)[-1] in ("to_string", "to_string_variables")
                         and F.types[F.fns[j[1]]["body"]["locals"][0]].get("name") == "std::option::Option")
    DISPS[:] = sorted(j[1] for j in jobs if j[0] == "disp" and "rror" in F.fns[j[1]]["name"].split(" as ")[0])
    for rnd in range(5):
        again = [j[:4] + (1,) for j, status, r in res if status != "ok" and rnd == 0
                 or status == "ok" and any("nothing printed" in u for u in r[2])]
        if not again:
            break
        done = {(j[0], j[1]) for j in again}
        new = an.run_jobs(F, job, again, limit=120)
        res = [x for x in res if (x[0][0], x[0][1]) not in done] + new
        grew = False
        for j, status, r in new:
            if status == "ok" and not r[6] and not NEVERNONE.get(j[1]) and not any("cut: unsupp" in u for u in r[2]):
                NEVERNONE[j[1]] = grew = True
        if not grew:
            break
    for j, status, r in res:
        name = F.fns[j[1]]["name"].replace("osu_file_parser::", "").replace("osu_file::", "")
        rep.count("public functions")
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (name, str(r)[-200:]))
            continue
        c, bad, und, fs, steps, unm, none = r
        fns |= fs
        rep.count("partitions", sum(c.values()))
        rep.count("abstract_steps", steps)
        if not sum(c.values()):
            rep.undec("%s: no argument values" % name)
        for _ in range(sum(c.values()) - c.get("panic", 0) - c.get("cut", 0)):
            rep.ok()
        rep.samples.append("%s: %s" % (name, c))
        for k, d in bad.items():
            rep.violation("%s: %s" % (name, k), "%s panics (%s): %s" % (name, d, k))
        for k in und:
            rep.undec("%s: %s" % (name, k))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (name, u))
    rep.analysed["functions"] = len(fns)
    rep.analysed["types built through their constructors"] = len(G)
    rep.samples = rep.samples[:150]
    rep.floor("public functions", rep.analysed.get("public functions", 0), 1 if only else 200)
