"""C18: stack use of parsing and printing does not grow with the nesting or the length of
the input: the call graph reachable from them is acyclic."""
import re

HIDDEN = [("std::string::ToString>::to_string", "std::fmt::Display", "fmt"),
          ("core::fmt::rt::Argument::<'_>::new_display", "std::fmt::Display", "fmt"),
          ("core::str::<impl str>::parse", "std::str::FromStr", "from_str")]


def edges(F):
    impl = {}
    for f in F.fns:
        if f["local"] and f.get("trait") in ("std::fmt::Display", "std::str::FromStr"):
            impl[(f["trait"], F.impl_self(f))] = f["id"]
    out = {}
    for f in F.fns:
        s = set(F.fn_refs(f))
        for _, c, t in F.calls(f):
            if c is None:
                continue
            if c["id"] == f["id"]:
                s.add(c["id"])
            for pat, tr, m in HIDDEN:
                if c["path"].endswith(pat):
                    args = [a for a in c["args"] if isinstance(a, int)]
                    for a in args:
                        n = F.types[a]["t"]
                        while n.startswith("&"):
                            n = re.sub(r"^&('\w+ )?(mut )?", "", n)
                        k = impl.get((tr, n))
                        if k is not None:
                            s.add(k)
        out[f["id"]] = s
    return out


def sccs(nodes, E):
    """iterative Tarjan"""
    idx, low, onst, st, out, n = {}, {}, set(), [], [], [0]
    for r in nodes:
        if r in idx:
            continue
        work = [(r, iter(sorted(E.get(r, ()))))]
        idx[r] = low[r] = n[0]; n[0] += 1
        st.append(r); onst.add(r)
        while work:
            v, it = work[-1]
            adv = False
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); onst.add(w)
                    work.append((w, iter(sorted(E.get(w, ())))))
                    adv = True
                    break
                if w in onst:
                    low[v] = min(low[v], idx[w])
            if adv:
                continue
            work.pop()
            if work:
                low[work[-1][0]] = min(low[work[-1][0]], low[v])
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop(); onst.discard(w); c.append(w)
                    if w == v:
                        break
                out.append(c)
    return out


def run(F, rep):
    rep.rule = ("call-graph acyclicity: strongly connected components of the resolved call graph (including "
                "Display/FromStr dispatch through to_string, format arguments and str::parse) reachable from "
                "every parsing and printing function")
    # the component search itself must work
    if sorted(map(len, sccs([0, 1, 2], {0: {1}, 1: {0}, 2: {2}}))) != [1, 2]:
        rep.errors.append("component search broken")
    E = edges(F)
    start = []
    for f in F.fns:
        if not f["local"] or f.get("derived"):
            continue
        m = f["name"].rsplit("::", 1)[-1]
        if re.match(r"(from_str|to_string\w*|from_repr|fmt|append_osb|osb_to_string|try_push_cmd|"
                    r"display_error_with_line)$", m):
            start.append(f["id"])
    rep.count("entry_points", len(start))
    seen, work = set(start), list(start)
    while work:
        x = work.pop()
        for y in E.get(x, ()):
            if y not in seen:
                seen.add(y)
                work.append(y)
    rep.count("functions", len(seen))
    rep.count("edges", sum(len(E[x]) for x in seen))
    for c in sccs(sorted(seen), E):
        if len(c) == 1 and c[0] not in E.get(c[0], ()):
            rep.ok()
            continue
        loc = [x for x in c if F.fns[x]["local"]]
        if not loc:
            rep.ok()    # recursion inside a library, independent of this crate's nesting
            continue
        names = sorted(F.short(F.fns[x]["name"]) for x in loc)
        rep.violation("cycle|" + names[0], "recursive cycle: " + " -> ".join(
            "%s (%s)" % (F.short(F.fns[x]["name"]), F.fns[x].get("span")) for x in sorted(loc)))
    rep.samples = [F.short(F.fns[x]["name"]) for x in start[:40]]
    rep.floor("entry points", len(start), 150)
    rep.floor("functions", len(seen), 1000)
    rep.assumptions = ["drop, clone, comparison, hashing and Debug of a value are not parsing or printing",
                       "library functions do not recurse per input element"]
