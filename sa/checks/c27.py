"""C27: reading and writing always end, and reading never works longer than its text is long."""
import an, loops, report
from checks import c01, c02, c10, c12, c19, c20, c21, c23

NEXT = {"next", "next_back", "nth"}
POP = {"pop", "pop_front", "pop_back"}
ENDLESS = ("Repeat<", "Cycle<", "RepeatWith<", "RangeFrom<", "FromFn<", "Successors<")
ENDED = ("Take<", "Zip<", "TakeWhile<", "MapWhile<", "Enumerate<")


def cyclic(g, blocks, without):
    """do the blocks of a loop still hold a cycle without some of them?"""
    state = {}
    for b0 in blocks:
        if b0 in without or b0 in state:
            continue
        stack = [(b0, iter(g[b0]))]
        state[b0] = 1
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in blocks or s in without:
                    continue
                if state.get(s) == 1:
                    return True
                if s not in state:
                    state[s] = 1
                    stack.append((s, iter(g[s])))
                    break
            else:
                state[b] = 2
                stack.pop()
    return False


def witness(F, f, blocks):
    """why a loop ends: every round takes an item from a finite iterator or from a list that
    does not grow in the loop, or moves a counter"""
    body = f["body"]
    g = loops.graph(body)
    lt = body["locals"]
    takes, counts = set(), set()
    for b in blocks:
        t = body["blocks"][b]["t"]
        if t[0] == "call" and t[1][0] == "fn":
            T = F.types[t[1][1]]
            n = T.get("name", "").rsplit("::", 1)[-1]
            full = T["t"]
            if n in NEXT and not any(e in full for e in ENDLESS):
                takes.add(b)
            if n in POP:
                takes.add(b)
        for s in body["blocks"][b]["s"]:
            r = s[1]
            if r[0] in ("cbin", "bin") and r[1] in ("Add", "Sub", "AddWithOverflow", "SubWithOverflow", "AddUnchecked") \
                    and any(o[0] == "k" for o in (r[2], r[3])):
                counts.add(b)
    if takes and not cyclic(g, blocks, takes):
        return "takes an item every round"
    if counts and not cyclic(g, blocks, takes | counts):
        return "moves a counter every round"
    return None


class Harvest:
    """runs other analyses and keeps what their engines noticed about loops and sizes"""

    def __init__(self):
        self.rows = []
        self.orig = an.run_jobs

    def run_jobs(self, F, fn, jobs, limit=200, procs=8):
        def wrapped(F, j):
            del an.ENGINES[:]
            try:
                r = True, fn(F, j)
            except Exception as e:
                r = False, repr(e)
            return r, sorted({k for ex in an.ENGINES for k in ex.hangs}), sorted({k for ex in an.ENGINES for k in ex.sized}), \
                {i for ex in an.ENGINES for i in ex.visited if F.fns[i].get("local")}, sum(ex.steps for ex in an.ENGINES)
        out = []
        for j, status, r in self.orig(F, wrapped, jobs, limit, procs):
            if status != "ok":
                self.rows.append((self.what, j, None))
                out.append((j, status, r))
                continue
            (good, res), hangs, sized, fns, steps = r
            self.rows.append((self.what, j, (hangs, sized, fns, steps, good)))
            out.append((j, "ok" if good else "error", res))
        return out

    def of(self, F, mod):
        self.what = mod.__name__.rsplit("c", 1)[-1]
        an.run_jobs = self.run_jobs
        try:
            mod.run(F, report.Report("C27"))
        finally:
            an.run_jobs = self.orig


def label(F, what, j):
    x = [F.short(F.fns[y]["name"]) if what == "02" and isinstance(y, int) and not isinstance(y, bool) and y > 99 else str(y)[:60] for y in j]
    return "C%s %s" % (what, ", ".join(x)[:160].replace("\n", "/"))


def run(F, rep):
    rep.rule = ("abstract interpretation of every parser and every public function as in C01 and C02: no loop may come "
                "back to the same state (everything that decides whether it goes on) without an input decision in "
                "between; in parsers no number that a text may hold freely may size a loop, a repetition or a "
                "reservation; every loop of the crate is listed with the reason why it ends, if there is a syntactic one")
    rep.assumptions = ["iterators, collections and combinators of the libraries end on finite inputs",
                       "recursion is ruled out by C18"]
    n = 0
    for f in F.fns:
        if not f.get("local") or not f.get("reach") or not f.get("body"):
            continue
        for h, blocks in loops.heads(f["body"]).items():
            n += 1
            w = witness(F, f, blocks)
            rep.count("loops")
            if w:
                rep.count("loops that end: " + w)
            else:
                rep.count("loops left to the interpretation")
                rep.samples.append("no syntactic reason: %s" % F.short(f["name"]))
    h = Harvest()
    for mod in (c01, c02, c10, c12, c19, c20, c21, c23):
        h.of(F, mod)
    fns = set()
    for what, j, r in h.rows:
        rep.count("analyses")
        if r is None:
            rep.undec("%s: not analysed" % label(F, what, j))
            continue
        hangs, sized, fs, steps, good = r
        fns |= fs
        rep.count("abstract_steps", steps)
        for k in hangs:
            rep.violation("%s never ends" % k, "a loop in %s comes back to the same state for ever (%s)" % (k, label(F, what, j)))
        # an accessor may be asked for as many items as the caller says, a text may not ask for them
        sized = sized if what != "02" else []
        for k, fn in sized:
            rep.violation("%s sized by a number in %s" % (k, fn),
                          "a number read from a text decides the size of `%s` in %s (%s)" % (k, fn, label(F, what, j)))
        if not hangs and not sized:
            if good:
                rep.ok()
            else:
                rep.undec("%s: not analysed to the end" % label(F, what, j))
    rep.analysed["functions"] = len(fns)
    rep.samples = rep.samples[:100]
    rep.floor("analyses", rep.analysed.get("analyses", 0), 200)
