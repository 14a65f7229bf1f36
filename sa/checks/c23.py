"""C23: the command tree of an event.  A pushed command goes to the end of the list its indentation
names, along the last command of every level; writing gives every command once, in order, indented
by its depth.  Commands and events are opaque: only the shape of the tree is known."""
import collections, itertools
import an, lines, cont
from an import *
from cont import *

CMD = "osu_file::events::storyboard::cmds::Command"
PROPS = "osu_file::events::storyboard::cmds::CommandProperties"
TRAIT = "osu_file::events::EventWithCommands"
NEST = ("Loop", "Trigger")


def forests(n):
    """all ordered forests of n nodes: a tuple of trees, a tree is the tuple of its children"""
    if n == 0:
        return [()]
    out = []
    for k in range(n):
        for sub in forests(k):
            for rest in forests(n - 1 - k):
                out.append(((sub,) + rest))
    return out


def label(f, mode, c=None):
    """nodes become (number, kind, children); kind of a leaf: by mode"""
    c = c if c is not None else itertools.count()
    out = []
    for t in f:
        i = next(c)
        if t:
            kind = NEST[(i + mode) % 2]
        else:
            kind = ("other", "Loop", "Trigger")[(i * (mode + 1) + mode) % 3] if mode else "other"
        out.append((i, kind, label(t, mode, c)))
    return tuple(out)


def preorder(f, d=1):
    for i, kind, sub in f:
        yield i, d
        yield from preorder(sub, d + 1)


def pushed(f, node, d):
    """the forest after the push, or None: no list there"""
    if d == 0:
        return None
    if d == 1:
        return f + (node,)
    if not f or f[-1][1] not in NEST:
        return None
    sub = pushed(f[-1][2], node, d - 1)
    return None if sub is None else f[:-1] + ((f[-1][0], f[-1][1], sub),)


class World:
    def __init__(self, F):
        self.F = F
        self.cty, self.pty = ty_id(F, CMD), ty_id(F, PROPS)
        T = F.types
        self.names = [v["n"] for v in T[self.pty]["variants"]]
        self.others = frozenset(i for i, n in enumerate(self.names) if n not in NEST)

    def cmd(self, st, node):
        T = self.F.types
        i, kind, sub = node
        if kind == "other":
            p = Sym(("prop", i), self.pty)
            st.d["var", p.k] = self.others
        else:
            v = self.names.index(kind)
            fs = []
            for n, ty, _ in T[self.pty]["variants"][v]["f"]:
                fs.append(self.seq(st, sub) if n == "commands" else Sym(("field", n, i), ty))
            p = Adt(self.pty, v, tuple(fs))
        fs = []
        for n, ty, _ in T[self.cty]["variants"][0]["f"]:
            fs.append(p if ty == self.pty else Sym(("cmd", i, n), ty))
        return Adt(self.cty, 0, tuple(fs))

    def seq(self, st, f):
        return Seq(tuple(self.cmd(st, n) for n in f))

    def event(self, st, ety, f):
        fs = []
        for n, ty, _ in self.F.types[ety]["variants"][0]["f"]:
            fs.append(self.seq(st, f) if n == "commands" else Sym(("event", n), ty))
        return Adt(ety, 0, tuple(fs))

    def read(self, ex, st, v):
        """the labelled forest of a list of commands; None: unknown"""
        xs = items(ex, st, v)
        if xs is None:
            return None
        out = []
        for c in xs:
            c = ex.deref(st, c)
            if not isinstance(c, Adt):
                return None
            i = p = None
            for (n, ty, _), x in zip(self.F.types[self.cty]["variants"][0]["f"], c.f):
                x = ex.deref(st, x)
                if ty == self.pty:
                    p = x
                elif isinstance(x, Sym) and isinstance(x.k, tuple) and x.k[0] == "cmd":
                    if i not in (None, x.k[1]) or x.k[2] != n:
                        return "mixed"
                    i = x.k[1]
                else:
                    return "changed"
            if isinstance(p, Sym):
                if p.k != ("prop", i):
                    return "mixed"
                out.append((i, "other", ()))
                continue
            sub = ()
            kind = self.names[p.v]
            for (n, ty, _), x in zip(self.F.types[self.pty]["variants"][p.v]["f"], p.f):
                if n == "commands":
                    sub = self.read(ex, st, x)
                    if not isinstance(sub, tuple):
                        return sub
                elif ex.deref(st, x) != Sym(("field", n, i), ty):
                    if kind in NEST:
                        return "changed"
            if kind in NEST:
                out.append((i, kind, sub))
            else:
                out.append((i, "other", ()))
        return tuple(out)


def job(F, j):
    what, impl, ids, batch = j
    W = World(F)
    ex = an.make_engine(F, [], K=64, max_outs=20000, max_steps=3 * 10 ** 7)
    c = collections.Counter()
    bad, und = {}, collections.Counter()
    name = impl.split("::")[-1]
    ety = ty_id(F, impl)
    fnames = [f[0] for f in F.types[ety]["variants"][0]["f"]]

    def verdict(st, key, text):
        if st.notes:
            und[key + " (approximated)"] += 1
        else:
            bad.setdefault(name + "|" + key, text)

    def stub_cmd(e, st, a, f, dty):
        v = e.deref(st, a[0])
        i = [x.k[1] for x in map(lambda x: e.deref(st, x), v.f) if isinstance(x, Sym) and isinstance(x.k, tuple) and x.k[0] == "cmd"]
        if len(i) != 1:
            return NotImplemented
        at = Atom(("cmdtext", i[0]))
        st.d["at", at.k] = AF(ALL & ~mask("\n\r"), ALL & ~mask("\n\r\t _"), ALL & ~mask("\n\r\t "), 1)
        vs = items(e, st, e.deref(st, a[2]))
        st.d["cmdvars", i[0]] = None if vs is None else tuple(getattr(e.deref(st, x), "k", None) for x in vs)
        st.d["cmdver", i[0]] = st.simp(a[1])
        return Adt(dty, 1, (Str((at,)),))

    def stub_head(e, st, a, f, dty):
        at = Atom(("head", 0))
        st.d["at", at.k] = AF(ALL & ~mask("\n\r"), ALL & ~mask("\n\r\t _"), ALL & ~mask("\n\r\t "), 1)
        return Adt(dty, 1, (Str((at,)),))
    if what == "print":
        ex.stubs[ids["cmd"]] = stub_cmd
        ex.stubs[ids["to_string_cmd"]] = stub_head
    for f, d in batch:
        c["trees"] += 1
        st = St()
        ev = W.event(st, ety, f)
        if what == "push":
            node = ("new", "other", ())
            want = pushed(f, node, d)
            cell = MutRef(st.alloc(ev))
            cmd = W.cmd(st, node)
            for k, v, s in ex.split(st, lambda q: ex.run(ids["try_push_cmd"], [cell, cmd, d], q)):
                c["paths"] += 1
                if k != "ret":
                    und["%s: %s" % (k, str(v)[:80])] += 1
                    continue
                v = ex.resolve(s, v)
                e2 = ex.resolve(s, ex.deref(s, cell))
                got = W.read(ex, s, e2.f[fnames.index("commands")])
                if got is None:
                    und["tree unknown"] += 1
                    continue
                t = "a command of indentation %d pushed to %s" % (d, draw(f))
                if any(ex.deref(s, x) != Sym(("event", n), y) for (n, y, _), x in zip(F.types[ety]["variants"][0]["f"], e2.f) if n != "commands"):
                    verdict(s, "push|other field", t + ": another field of the event changes")
                elif v.v == 0 and want is None:
                    verdict(s, "push|accepted", t + ": accepted although there is no list of that depth")
                elif v.v == 1 and want is not None:
                    verdict(s, "push|rejected", t + ": rejected")
                elif got != (f if want is None else want):
                    verdict(s, "push|tree", "%s: gives %s instead of %s" % (t, draw(got), draw(f if want is None else want)))
                else:
                    c["ok"] += 1
        else:
            ver = ver_sym(F, st)
            vs = RefV(Seq((Sym("var1", ids["variable"]), Sym("var2", ids["variable"]))))
            for k, v, s in ex.split(st, lambda q: ex.run(ids["to_string_variables"], [RefV(ev), ver, vs], q)):
                c["paths"] += 1
                if k != "ret":
                    und["%s: %s" % (k, str(v)[:80])] += 1
                    continue
                v = ex.resolve(s, v)
                t = "writing %s" % draw(f)
                if v.v == 0:
                    verdict(s, "print|nothing", t + ": nothing is written")
                    continue
                x = ex.deref(s, v.f[0])
                if not isinstance(x, Str):
                    und["text unknown"] += 1
                    continue
                ls = split_lines(s.norm(x.s))
                got = []
                for l in ls:
                    l = list(l)
                    ind = l.pop(0) if len(l) == 2 and isinstance(l[0], str) else ""
                    if len(l) != 1 or not isinstance(l[0], Atom) or ind.strip(" _"):
                        got.append(("?", l))
                    else:
                        got.append((l[0].k, len(ind)))
                exp = [(("head", 0), 0)] + [(("cmdtext", i), n) for i, n in preorder(f)]
                if got != exp:
                    verdict(s, "print|lines", "%s: lines (command, indentation) %s instead of %s" % (t, got[1:], exp[1:]))
                elif any(s.d.get(("cmdvars", i)) != ("var1", "var2") for i, _ in preorder(f)):
                    verdict(s, "print|variables", t + ": a command is not written with the variables given")
                elif any(s.d.get(("cmdver", i)) != s.simp(ver) for i, _ in preorder(f)):
                    verdict(s, "print|version", t + ": a command is not written at the version given")
                else:
                    c["ok"] += 1
    return dict(c), bad, dict(und), {F.fns[i]["name"] for i in ex.visited if F.fns[i].get("local")}, ex.steps, dict(ex.unmodelled)


def draw(f):
    if not isinstance(f, tuple):
        return str(f)
    return "[%s]" % " ".join(("%s%s" % ({"other": "c", "Loop": "L", "Trigger": "T"}[k], i)) + (draw(s) if s or k != "other" else "")
                             for i, k, s in f)


def depth(f):
    return 1 + max([depth(s) for _, k, s in f if k != "other"] or [0])


def shapes(n):
    out = []
    for k in range(n + 1):
        for f in forests(k):
            for mode in (0, 1, 2):
                x = label(f, mode)
                if x not in out:
                    out.append(x)
    return out


def deep(n):
    f = ()
    for _ in range(n):
        f = (f,)
    return f


def run(F, rep):
    rep.rule = ("abstract interpretation of try_push_cmd and to_string_variables of every event with commands, on every tree shape "
                "up to the bound with opaque commands")
    for t in (CMD, PROPS):
        if ty_id(F, t) is None:
            rep.errors.append("anchor type %s not found" % t)
            return
    meth = collections.defaultdict(dict)
    for (st, tr, me), v in F.bymethod.items():
        if tr == TRAIT:
            meth[st][me] = v[0][1]
    cmd = inherent(F, CMD, "to_string_variables")
    var = ty_id(F, "osu_file::osb::types::Variable")
    if cmd is None or var is None:
        rep.errors.append("anchor Command::to_string_variables not found")
        return
    pr = [(f, None) for f in shapes(7)] + [(label(x, m), None) for m in (0, 2) for x in (
        deep(9), deep(6) + ((), ), ((), deep(4), (), deep(3), ()), (((((), ()), ()), ()), ()), ((), ((), ((), ((), ())))),
        (tuple(() for _ in range(8)),), (deep(3), deep(3), deep(3)))]
    pu = []
    for f in shapes(6) + [label(x, m) for m in (0, 2) for x in (deep(8), ((), deep(5)), (deep(2), ((), deep(3))))]:
        pu += [(f, d) for d in range(0, depth(f) + 3)]
    jobs = []
    n = 0
    for t, m in sorted(meth.items()):
        if not {"try_push_cmd", "to_string_variables", "to_string_cmd"} <= set(m):
            rep.undec("%s: methods not found" % t)
            continue
        n += 1
        m = dict(m, cmd=cmd, variable=var)
        jobs += [("print", t, m, pr[i::3]) for i in range(3)] + [("push", t, m, pu[i::3]) for i in range(3)]
    rep.floor("events with commands", n, 1)
    fns = set()
    for j, status, r in an.run_jobs(F, job, jobs, limit=300):
        nm = "%s %s" % (j[0], j[1].split("::")[-1])
        if status != "ok":
            rep.undec("%s: not analysed (%s)" % (nm, str(r)[-300:]))
            continue
        c, bad, und, fs, steps, unm = r
        fns |= fs
        rep.count("trees", c.get("trees", 0))
        rep.count("paths", c.get("paths", 0))
        rep.count("abstract_steps", steps)
        rep.samples.append("%s: %s" % (nm, c))
        for u in unm:
            rep.undec("%s: unmodelled %s" % (nm, u))
        for _ in range(c.get("ok", 0)):
            rep.ok()
        for k, d in bad.items():
            rep.violation(k, d)
        for k, x in und.items():
            rep.undec("%s: %s (%d paths)" % (nm, k, x))
    rep.analysed["functions"] = len(fns)
    rep.floor("discharged cases", rep.discharged, 100)
