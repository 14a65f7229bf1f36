"""Loops of function bodies: natural loops, the locals that decide how often they run, and
syntactic reasons why they end."""


def succs(t):
    k = t[0]
    if k == "goto":
        return [t[1]]
    if k == "switch":
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == "call":
        return [t[4]] if t[4] is not None else []
    if k == "assert":
        return [t[5]]
    if k == "drop":
        return [x for x in t[1:] if isinstance(x, int) and not isinstance(x, bool)]
    return []


def graph(body):
    return [succs(b["t"]) for b in body["blocks"]]


def heads(body):
    """headers of the natural loops -> blocks of the loop"""
    g = graph(body)
    n = len(g)
    pre = [[] for _ in range(n)]
    state = [0] * n
    back = []
    stack = [(0, iter(g[0]))] if n else []
    if n:
        state[0] = 1
    while stack:
        b, it = stack[-1]
        for s in it:
            if state[s] == 0:
                state[s] = 1
                stack.append((s, iter(g[s])))
                break
            if state[s] == 1:
                back.append((b, s))
        else:
            state[b] = 2
            stack.pop()
    for b in range(n):
        if state[b]:
            for s in g[b]:
                pre[s].append(b)
    out = {}
    for b, h in back:
        loop = out.setdefault(h, {h})
        todo = [b]
        while todo:
            x = todo.pop()
            if x not in loop:
                loop.add(x)
                todo += pre[x]
    return out


def op_local(o):
    return [o[1][0]] + [e[1] for e in o[1][1:] if isinstance(e, (list, tuple)) and e[0] == "i"] if o[0] in ("c", "m") else []


def rv_locals(r):
    k = r[0]
    if k == "use":
        return op_local(r[1])
    if k in ("ref", "addr"):
        return [r[2][0]] + [e[1] for e in r[2][1:] if isinstance(e, (list, tuple)) and e[0] == "i"]
    if k == "agg":
        return [x for o in r[3] for x in op_local(o)]
    if k in ("discr", "len"):
        return [r[1][0]]
    if k in ("bin", "cbin"):
        return op_local(r[2]) + op_local(r[3])
    if k in ("un", "cast"):
        return op_local(r[2])
    if k == "repeat":
        return op_local(r[1])
    return []


def deciding(T, body, head):
    loops = heads(body)
    blocks = loops.get(head)
    lt = body["locals"]
    if blocks is None:
        return set(range(len(lt)))
    refs = {i for i, t in enumerate(lt) if T[t]["k"] in ("ref", "ptr", "closure") or "&" in T[t]["t"] or "'" in T[t]["t"]}
    deps = {}          # local -> locals that flow into it

    def flow(d, s):
        deps.setdefault(d, set()).add(s)
    todo = []
    # references taken anywhere in the body link their target
    for blk in body["blocks"]:
        for s in blk["s"]:
            place, r = s[0], s[1]
            if r[0] in ("ref", "addr") or place[0] in refs:
                for x in rv_locals(r):
                    flow(place[0], x)
                    flow(x, place[0])
    for b in blocks:
        blk = body["blocks"][b]
        for s in blk["s"]:
            place, r = s[0], s[1]
            for x in rv_locals(r):
                flow(place[0], x)
            for e in place[1:]:
                if isinstance(e, (list, tuple)) and e[0] == "i":
                    flow(place[0], e[1])
        t = blk["t"]
        if t[0] == "switch":
            todo += op_local(t[1])
        elif t[0] == "call":
            args = [x for o in t[2] for x in op_local(o)]
            if t[1][0] != "fn":
                args += op_local(t[1][1])
                todo += op_local(t[1][1])
            for x in args:
                flow(t[3][0], x)
                if t[3][0] in refs:
                    flow(x, t[3][0])
                for y in args:
                    if x != y:
                        flow(x, y)
    out = set()
    while todo:
        x = todo.pop()
        if x not in out:
            out.add(x)
            todo += deps.get(x, ())
    return out
