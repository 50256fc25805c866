"""Steps an abstract iterator value to its end (or to any point before it) as one loop, with a counter j and a ghost position L,
and hands every item to a check.  What it takes to make an item is the analysed body of `next`, whatever adaptors it is made of."""
from vlib.terms import *
from vlib.models import pcall, L as LC, D
from vlib.engine import Unsup


def steps(r, st, v, nxt, emit, done, partial=None, l0=ZERO, effort=3):
    """r: the Run that made iterator v in state st; emit(e, st, j, L, item) -> the new L; done(e, st, j, L) at the end;
    partial(e, st, j, L, it): at any point (before the end included), with `it` a pointer to the iterator"""
    e = r.e
    u = e.usize
    item = ["c", [6, [["v", 1], ["f", 0, -1]]]]
    blocks = [
        [[["=", D(2), ["use", LC(9)], ""], ["=", D(3), ["use", LC(10)], ""]], ["goto", 1], False],
        [[], pcall("!any", [], D(11), 2), False],
        [[], ["switch", LC(11), [["0", 3]], 9, "", ""], False],
        [[["=", D(5), ["ref", True, D(1)], ""]], pcall("", [LC(5)], D(6), 4, nxt), False],
        [[], pcall("!isnone", [LC(6)], D(7), 5), False],
        [[], ["switch", LC(7), [["0", 6]], 8, "", ""], False],
        [[], pcall("!emit", [LC(2), LC(3), item], D(8), 7), False],
        [[["=", D(3), ["use", LC(8)], ""]], pcall("!count", [LC(2), LC(2)], D(2), 1), False],
        [[], pcall("!done", [LC(2), LC(3)], D(0), 10), False],
        [[["=", D(5), ["ref", True, D(1)], ""]], pcall("!partial", [LC(2), LC(3), LC(5)], D(0), 10), False],
        [[], ["ret"], False],
    ]
    key = "!steps %s" % (nxt.get("rk") or nxt["d"])
    loc = [[-1, None]] * 12
    for i in (2, 3, 8, 9, 10):
        loc[i] = [u, None]
    if v.ty is not None:
        loc[1] = [v.ty, "it"]
    body = {"key": key, "path": key, "local": False, "root": "", "span": r.where, "argc": 1, "spread": None, "locals": loc, "upvars": [], "blocks": blocks}
    hits = {"emit": 0, "done": 0, "partial": 0}

    def hook(eng, fr, b, cal, path, args, atys, st, span, rty):
        if path == "!any":
            if partial is None:
                return [("ret", st, FALSE)]
            return [("ret", st.copy(), FALSE), ("ret", st, TRUE)]
        if path == "!emit":
            d = eng.lg.DEPTH
            if eng.quiet:
                return [("ret", st, emit(None, st, *args))]
            hits["emit"] += 1
            eng.lg.DEPTH = 6
            try:
                return [("ret", st, emit(eng, st, *args))]
            finally:
                eng.lg.DEPTH = d
        if path in ("!done", "!partial"):
            if eng.quiet:
                return [("ret", st, UNIT)]
            n = path[1:]
            hits[n] += 1
            d = eng.lg.DEPTH
            if n == "done":
                eng.lg.DEPTH = 6
            try:
                (done if n == "done" else partial)(eng, st, *args)
            finally:
                eng.lg.DEPTH = d
            return [("ret", st, UNIT)]
        return None
    e.hooks.insert(0, hook)
    depth, e.lg.DEPTH = e.lg.DEPTH, effort
    # constants are passed in as locals, so that the loop sees plain copies
    blocks[0][0] = []
    body["argc"] = 3
    try:
        out = e.run(body, [v, ZERO, l0], st)
        err = None
    except Unsup as x:
        out, err = [], str(x)
    except RecursionError:
        out, err = [], "recursion limit"
    finally:
        e.hooks.remove(hook)
        e.lg.DEPTH = depth
    return out, err, hits
