"""Small helpers over the extracted MIR."""


def operands_of_rvalue(r):
    k = r[0]
    if k in ("use", "repeat"):
        yield r[1]
    elif k == "cast":
        yield r[2]
    elif k == "bin":
        yield r[2]; yield r[3]
    elif k == "un":
        yield r[2]
    elif k == "agg":
        for o in r[2]:
            yield o


def places_of_rvalue(r):
    if r[0] in ("ref", "raw", "reborrow"):
        yield r[2]
    elif r[0] == "discr":
        yield r[1]
    for o in operands_of_rvalue(r):
        if o[0] in "cm":
            yield o[1]


def walk_fn_consts(x):
    """every function item mentioned anywhere (calls, function values)"""
    if isinstance(x, dict):
        if isinstance(x.get("fn"), dict):
            yield x["fn"]
        for v in x.values():
            yield from walk_fn_consts(v)
    elif isinstance(x, list):
        for v in x:
            yield from walk_fn_consts(v)


def succs(term, unwind=False):
    k = term[0]
    out = []
    if k == "goto":
        out = [term[1]]
    elif k == "switch":
        out = [b for _, b in term[2]] + ([term[3]] if term[3] is not None else [])
    elif k == "drop":
        out = [term[2]]
        if unwind and isinstance(term[3], int):
            out.append(term[3])
    elif k == "call":
        if term[4] is not None:
            out = [term[4]]
        if unwind and isinstance(term[5], int):
            out.append(term[5])
    elif k == "assert":
        out = [term[4]]
        if unwind and isinstance(term[5], int):
            out.append(term[5])
    elif k == "other":
        pass
    return out


def name_of(fn):
    """(path without impl numbers and generics, last segment)"""
    p = fn.get("rk") or fn["d"]
    p = p.split("<")[0].split("!")[0]
    return p, p.rsplit("::", 1)[-1]


def dominators(body):
    bl = body["blocks"]
    n = len(bl)
    pred = [[] for _ in range(n)]
    for i in range(n):
        for s in succs(bl[i][1]):
            pred[s].append(i)
    order, seen = [], set()

    def dfs(b):
        st = [(b, iter(succs(bl[b][1])))]
        seen.add(b)
        while st:
            x, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succs(bl[s][1]))))
                    break
            else:
                order.append(x)
                st.pop()
    dfs(0)
    rpo = order[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    idom = {0: 0}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            new = None
            for p in pred[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        a, c = p, new
                        while a != c:
                            while num[a] > num[c]:
                                a = idom[a]
                            while num[c] > num[a]:
                                c = idom[c]
                        new = a
            if new is not None and idom.get(b) != new:
                idom[b] = new
                ch = True
    return rpo, num, idom, pred


def dominates(idom, a, b):
    while True:
        if a == b:
            return True
        if b == 0 or b not in idom:
            return False
        b = idom[b]


def natural_loops(body):
    """{head: set(blocks)} of the (reducible) control flow graph without unwind edges"""
    rpo, num, idom, pred = dominators(body)
    loops = {}
    for b in rpo:
        for s in succs(body["blocks"][b][1]):
            if s in num and dominates(idom, s, b):
                body_set = loops.setdefault(s, {s})
                st = [b]
                while st:
                    x = st.pop()
                    if x not in body_set:
                        body_set.add(x)
                        st.extend(p for p in pred[x] if p in num)
    return loops, rpo, num, idom
