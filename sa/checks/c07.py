"""C07: the file's format version reaches every nested parser, printer and default.
Value-flow (copy-origin) analysis of version arguments over the whole crate."""

import re

SEED = {"osu_file::types::VersionedFromStr": ("from_str", 1), "osu_file::types::VersionedToString": ("to_string", 1),
        "osu_file::types::VersionedFromRepr": ("from_repr", 1), "osu_file::types::VersionedDefault": ("default", 0),
        "osu_file::types::VersionedFrom": ("from", 1), "osu_file::types::VersionedTryFrom": ("try_from", 1),
        "osu_file::types::VersionedInto": ("into", 1)}


ARITH = re.compile(r"(min|max|clamp|pow|abs_diff|isqrt|rem_euclid|next_.*|(saturating|wrapping|unchecked|strict)_.*)$")


class Flow:
    """origins of locals of one body: param i / upvar i / const / computed / other"""

    def __init__(self, F, f):
        self.F, self.f = F, f
        b = f["body"]
        self.argc = b["argc"]
        self.defs = {}
        self.aggs = []
        for bi, bb in enumerate(b["blocks"]):
            for pl, rv in bb["s"]:
                if len(pl) == 1:
                    self.defs.setdefault(pl[0], []).append(rv)
                else:
                    self.defs.setdefault(pl[0], []).append(("partial",))
            t = bb["t"]
            if t[0] == "call":
                self.defs.setdefault(t[3][0], []).append(("call", t))

    def place(self, pl, depth=0):
        l = pl[0]
        if depth > 40:
            return {("other",)}
        if 1 <= l <= self.argc and l not in self.defs:
            path = tuple(tuple(p[:2]) if isinstance(p, list) else p for p in pl[1:])
            path = tuple(p for p in path if p != "*")
            return {("param", l - 1, path)}
        ds = self.defs.get(l)
        if not ds:
            return {("other",)}
        rest = [p for p in pl[1:] if p != "*"]
        out = set()
        for rv in ds:
            out |= self.rv(rv, rest, depth + 1)
        return out

    def rv(self, rv, rest, depth):
        k = rv[0]
        if k == "use":
            return self.op(rv[1], rest, depth)
        if k in ("ref", "addr"):
            return self.place(list(rv[1] if isinstance(rv[1], list) else rv[2]) + rest, depth)
        if k == "cast":
            return self.op(rv[2], rest, depth)
        if k == "agg" and rest and isinstance(rest[0], list) and rest[0][0] == "f":
            i = rest[0][1]
            if i < len(rv[-1]):
                return self.op(rv[-1][i], rest[1:], depth)
        if k in ("bin", "cbin", "un"):
            return {("computed", k)}
        if k == "call" and rv[1][1][0] == "fn" and not rest:
            i = self.F.types[rv[1][1][1]].get("inst")
            nm = self.F.fns[i]["name"] if i is not None else ""
            last = nm.rsplit("::", 1)[-1]
            if nm and not self.F.fns[i]["local"] and ARITH.match(last) and ("cmp::" in nm or "num::" in nm or "u8" in nm):
                return {("computed", last)}
            if nm and not self.F.fns[i]["local"] and last == "clone" and rv[1][2]:
                return self.op(rv[1][2][0], (), depth)
        return {("other",)}

    def op(self, o, rest=(), depth=0):
        if o[0] in ("c", "m"):
            return self.place(list(o[1]) + list(rest), depth)
        if o[0] == "k":
            v = o[2]
            if isinstance(v, dict) and "i" in v:
                return {("const", v["i"])}
            return {("other",)}
        return {("other",)}


def is_u8(F, t):
    d = F.types[t]
    while d["k"] == "ref":
        d = F.types[d["e"]]
    return d["k"] == "int" and not d["signed"] and d["bits"] == 8


def run(F, rep):
    rep.rule = ("copy-origin analysis: at every call (through closures and helpers) that passes a format version, the "
                "version argument is the caller's own version, never a constant or a computed value, unless the callee "
                "provably ignores it")
    local = [f for f in F.fns if f["local"] and f.get("body")]
    flows = {f["id"]: Flow(F, f) for f in local}
    vp = set()          # (fn, param index) that are versions
    for f in local:
        for tr, (m, i) in SEED.items():
            if f.get("trait", "") .endswith(tr) and f["name"].endswith("::" + m):
                vp.add((f["id"], i))
    rep.count("versioned_impls", len(vp))
    # closures capture versions: (closure fn, upvar index)
    up = set()
    # call sites: (caller, callee, args)
    sites = []
    aggs = []
    for f in local:
        for bi, c, t in F.calls(f):
            if c is not None and c["local"]:
                sites.append((f, bi, c, t))
        for bi, bb in enumerate(f["body"]["blocks"]):
            for pl, rv in bb["s"]:
                if rv[0] == "agg" and rv[1][0] == "closure":
                    ct = F.types[rv[2]]
                    if ct.get("inst") is not None:
                        aggs.append((f, F.fns[ct["inst"]], rv[3]))
    # backwards inference of version parameters
    ch = True
    while ch:
        ch = False
        for f, bi, c, t in sites:
            for i, a in enumerate(t[2]):
                if (c["id"], i) in vp:
                    for o in flows[f["id"]].op(a):
                        if o[0] == "param":
                            key = (f["id"], o[1])
                            isclos = "{closure#" in f["name"].rsplit("::", 1)[-1]
                            if isclos and o[1] == 0:
                                if o[2] and o[2][0][0] == "f":
                                    k2 = (f["id"], o[2][0][1])
                                    if k2 not in up:
                                        up.add(k2)
                                        ch = True
                            elif not o[2] and key not in vp and is_u8(F, f["body"]["locals"][o[1] + 1]):
                                vp.add(key)
                                ch = True
        for f, c, ops in aggs:
            for i, a in enumerate(ops):
                if (c["id"], i) in up:
                    for o in flows[f["id"]].op(a):
                        if o[0] == "param":
                            if "{closure#" in f["name"].rsplit("::", 1)[-1] and o[1] == 0:
                                if o[2] and (f["id"], o[2][0][1]) not in up:
                                    up.add((f["id"], o[2][0][1]))
                                    ch = True
                            elif not o[2] and (f["id"], o[1]) not in vp and is_u8(F, f["body"]["locals"][o[1] + 1]):
                                vp.add((f["id"], o[1]))
                                ch = True
    rep.count("version_parameters", len(vp))
    rep.count("version_captures", len(up))

    # which version parameters can influence anything
    uses = set()
    def mentions(x, hit):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("c", "m") and isinstance(x[1], list) and x[1] and isinstance(x[1][0], int):
                hit(x[1])
                return
            for y in x:
                mentions(y, hit)
    direct, passes = set(), {}
    for f in local:
        fl = flows[f["id"]]
        isclos = "{closure#" in f["name"].rsplit("::", 1)[-1]
        def keyof(o):
            if o[0] != "param":
                return None
            if isclos and o[1] == 0:
                return ("up", f["id"], o[2][0][1]) if o[2] and o[2][0][0] == "f" else None
            return ("vp", f["id"], o[1]) if not o[2] else None
        for bb in f["body"]["blocks"]:
            for pl, rv in bb["s"]:
                if rv[0] in ("use", "ref", "addr", "cast"):
                    continue
                if rv[0] == "agg":
                    callee = None
                    if rv[1][0] == "closure":
                        callee = F.types[rv[2]].get("inst")
                    for i, a in enumerate(rv[-1]):
                        for o in fl.op(a):
                            k = keyof(o)
                            if k:
                                if callee is not None:
                                    passes.setdefault(k, set()).add(("up", callee, i))
                                else:
                                    direct.add(k)
                    continue
                def hit(p):
                    for o in fl.place(p):
                        k = keyof(o)
                        if k:
                            direct.add(k)
                mentions(rv, hit)
            t = bb["t"]
            if t[0] == "call":
                c = F.types[t[1][1]].get("inst") if t[1][0] == "fn" else None
                for i, a in enumerate(t[2]):
                    for o in fl.op(a):
                        k = keyof(o)
                        if k:
                            if c is not None and F.fns[c]["local"]:
                                passes.setdefault(k, set()).add(("vp", c, i))
                            else:
                                direct.add(k)
            elif t[0] == "switch":
                def hit(p):
                    for o in fl.place(p):
                        k = keyof(o)
                        if k:
                            direct.add(k)
                mentions(t[1], hit)
    ch = True
    while ch:
        ch = False
        for k, s in passes.items():
            if k not in direct and any(x in direct for x in s):
                direct.add(k)
                ch = True
    rep.count("parameters_that_matter", sum(1 for f, i in vp if ("vp", f, i) in direct))

    def judge(f, c, kind, i, a):
        rep.count("version_arguments")
        matters = (kind, c["id"], i) in direct
        for o in flows[f["id"]].op(a):
            if o[0] in ("const", "computed"):
                if not matters:
                    rep.count("constant_to_version_independent_callee")
                    continue
                rep.violation("const|%s|%s" % (F.short(f["name"]), F.short(c["name"])),
                              "%s passes %s as the version of %s, which depends on it" % (
                                  F.where(f), "the constant %s" % o[1] if o[0] == "const" else "a computed value",
                                  F.short(c["name"])))
                return
        rep.ok("%s -> %s" % (F.short(f["name"]), F.short(c["name"])))

    for f, bi, c, t in sites:
        for i, a in enumerate(t[2]):
            if (c["id"], i) in vp:
                judge(f, c, "vp", i, a)
    for f, c, ops in aggs:
        for i, a in enumerate(ops):
            if (c["id"], i) in up:
                judge(f, c, "up", i, a)
    rep.floor("versioned implementations", rep.analysed["versioned_impls"], 120)
    rep.floor("version arguments", rep.analysed.get("version_arguments", 0), 200)
    rep.assumptions = ["function items passed by value keep their version argument (the crate passes versions only "
                       "through parameters and captures)"]
