"""Typed, monomorphised MIR facts of the crate under analysis and the queries shared by
the checks (call graph, instances by trait, def-use of locals)."""
import json
import build


class Ty:
    __slots__ = ("id", "d", "t", "k")

    def __init__(self, i, d):
        self.id, self.d, self.t, self.k = i, d, d.get("t"), d.get("k")


class Facts:
    def __init__(self, path=None):
        self.path = path or build.facts_path()
        with open(self.path) as f:
            d = json.load(f)
        self.types = d["types"]
        self.fns = d["fns"]
        self.roots = d["roots"]
        self.generic = d["generic"]
        self.impls = d["impls"]
        self.statics = d["statics"]
        self.byname = {}
        for f in self.fns:
            self.byname.setdefault(f["name"], f["id"])
        self._edges = {}
        self.crate = d["crate"]
        self.bymethod = {}      # (self type text, trait path, method) -> [(trait text, id)]
        for f in self.fns:
            m = self.split_method(f["name"])
            if m:
                st, tr, me = m
                self.bymethod.setdefault((st, tr.split("<")[0], me), []).append((tr, f["id"]))

    def split_method(self, name):
        """(<Self, Trait, method) of a trait method instance name, crate prefix removed"""
        if not name.startswith("<"):
            return None
        d = 0
        cut = None
        for i, c in enumerate(name):
            if c in "<([{":
                d += 1
            elif c in ")]}" or c == ">" and name[i - 1] != "-":
                d -= 1
                if d == 0:
                    break
            elif c == " " and d == 1 and cut is None and name.startswith(" as ", i):
                cut = i
        if cut is None:
            return None
        me = name[i + 1:].lstrip(":")
        return self.short(name[1:cut]), self.short(name[cut + 4:i]), me

    def fn(self, i):
        return self.fns[i]

    def ty(self, i):
        return self.types[i]

    def short(self, name):
        """a name without crate/module noise (used in report keys)"""
        return name.replace("osu_file_parser::", "")

    def where(self, f):
        return "%s (%s)" % (self.short(f["name"]), f.get("span", "library"))

    # --- call graph -----------------------------------------------------------
    def fn_refs(self, f):
        """instances referenced by a body: direct calls, fn items and closures used as values"""
        fid = f["id"]
        r = self._edges.get(fid)
        if r is not None:
            return r
        out = set()
        b = f.get("body")
        if b:
            def ty_refs(t, depth=0):
                d = self.types[t]
                k = d["k"]
                if k in ("fndef", "closure") and d.get("inst") is not None:
                    out.add(d["inst"])
            for t in b["locals"]:
                ty_refs(t)

            def walk(x):
                if isinstance(x, list):
                    if len(x) == 3 and x[0] == "k" and isinstance(x[1], int):
                        ty_refs(x[1])
                        walk(x[2])
                        return
                    if len(x) == 2 and x[0] == "fn" and isinstance(x[1], int):
                        ty_refs(x[1])
                        return
                    for y in x:
                        walk(y)
                elif isinstance(x, dict):
                    if isinstance(x.get("fn"), int):
                        ty_refs(x["fn"])
                    for y in x.values():
                        walk(y)
            for bb in b["blocks"]:
                walk(bb["s"])
                walk(bb["t"])
        out.discard(fid)
        selfcall = fid in out
        self._edges[fid] = out
        return out

    def calls(self, f):
        """(block index, callee fn record or None, terminator) of every call terminator"""
        b = f.get("body")
        if not b:
            return
        for i, bb in enumerate(b["blocks"]):
            t = bb["t"]
            if t[0] == "call":
                c = t[1]
                callee = None
                if c[0] == "fn":
                    inst = self.types[c[1]].get("inst")
                    if inst is not None:
                        callee = self.fns[inst]
                yield i, callee, t

    def reach(self, starts):
        seen = set(starts)
        work = list(starts)
        parent = {s: None for s in starts}
        while work:
            x = work.pop()
            for y in self.fn_refs(self.fns[x]):
                if y not in seen:
                    seen.add(y)
                    parent[y] = x
                    work.append(y)
        return seen, parent

    def chain(self, parent, x):
        out = []
        while x is not None:
            out.append(self.short(self.fns[x]["name"]))
            x = parent[x]
        return out[::-1]

    def local_roots(self):
        return [self.fns[i] for i in self.roots]

    def impl_self(self, f):
        """self type text of a trait impl method named <T as Trait>::m"""
        n = f["name"]
        if n.startswith("<") and " as " in n:
            return n[1:n.index(" as ")]
        return None
