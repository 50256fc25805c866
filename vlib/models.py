"""Abstract semantics of the library operations the code uses."""
import re
from vlib.terms import *
from vlib.engine import some, none, OPT, Unsup, INT_BITS, narrow

ORD = "core::cmp::Ordering"


def it(kind, src, cur, end, ety=None):
    return agg("it", 0, mk("cst", kind, ety), src, cur, end)


def is_it(v):
    return v.op == "agg" and v.args[0] == "it"


def ordv(i):
    return agg(ORD, i)


def ret(st, v):
    return [("ret", st, v)]


def fork(e, st, c, fthen, felse):
    """split on a condition unless decided"""
    d = e.decide(st, c)
    out = []
    if d is not False:
        s = st if d is True else st.copy()
        if d is None:
            s.note(c)
        out += fthen(s)
    if d is not True:
        if d is None:
            st.note(bnot(c))
        out += felse(st)
    return out


def dv(e, st, a, t=None):
    r, p = e.deref(st, a, t)
    if e.uses is not None:
        e.uses(e, st, r, p)
    v = e.read(st, r, p)
    if v.ty is None and t is not None and v.op in ("fld", "sel", "deref", "sym"):
        v.ty = e.pointee(t)
    return v


def dvall(e, st, a, t):
    """dereference through nested references"""
    while t is not None and e.ti(t)["k"] == "ref":
        a = dv(e, st, a, t)
        t = e.pointee(t)
    return a, t


def wr(e, st, a, v, t=None):
    r, p = e.deref(st, a, t)
    e.write(st, r, p, v)


def lt(a, b, isint):
    return gt0(psub(b, a), isint)


def bounds(e, fr, st, c, span, then, kind="bounds"):
    d = e.decide(st, c)
    e.ob(kind, span, d is True, show(c)[:160])
    out = []
    if d is not True:
        s2 = st.copy()
        s2.note(bnot(c))
        if e.panics:
            e.panic(fr, s2, span, kind)
        if e.unwind:
            out.append(("unwind", s2, None))
    if d is False:
        return out
    st.note(c)
    return then(st) + out


def rng(e, st, r, ln, t):
    """a range value -> (start, end)"""
    if r.op == "agg":
        k = r.args[0].rsplit("::", 1)[-1]
        if k == "Range":
            return r.args[2], r.args[3]
        if k == "RangeTo":
            return ZERO, r.args[2]
        if k == "RangeFrom":
            return r.args[2], ln
        if k == "RangeFull":
            return ZERO, ln
        if k == "RangeInclusive":
            return r.args[2], padd(r.args[3], ONE)
        if k == "RangeToInclusive":
            return ZERO, padd(r.args[2], ONE)
    s = e.ti(t)["s"] if t is not None else ""
    if s.startswith("core::ops::range::RangeFull"):
        return ZERO, ln
    if s.startswith("core::ops::range::Range<"):
        return fld(r, 0, 0, e.usize), fld(r, 0, 1, e.usize)
    if s.startswith("core::ops::range::RangeTo<"):
        return ZERO, fld(r, 0, 0, e.usize)
    if s.startswith("core::ops::range::RangeFrom<"):
        return fld(r, 0, 0, e.usize), ln
    raise Unsup("range value %s" % s)


def is_range(e, r, t):
    return (r.op == "agg" and "Range" in str(r.args[0])) or (t is not None and "::Range" in e.ti(t)["s"])


def index(e, fr, st, base, i, ity, ety, span, sty):
    """v[i] for Vec, array and slice; base is a pointer"""
    if base.op != "slc" and base.op != "ptr":
        e.typed(base, sty)
    p, s0, ln = e.as_slice(st, base)
    if is_range(e, i, ity):
        a, b = rng(e, st, i, ln, ity)
        c = band(ge0(psub(b, a), True), ge0(psub(ln, b), True))
        return bounds(e, fr, st, c, span, lambda s: ret(s, e.slc(p, padd(s0, a), psub(b, a))))
    c = band(ge0(i, True), lt(i, ln, True))
    return bounds(e, fr, st, c, span, lambda s: ret(s, mk("ptr", p.args[0], p.args[1] + (("ix", padd(s0, i), ety),))))


def cmp3(e, st, a, b, isint):
    out = []
    for i, c in ((0, lt(a, b, isint)), (1, eq0(psub(a, b))), (2, lt(b, a, isint))):
        d = e.decide(st, c)
        if d is False:
            continue
        s = st.copy()
        if d is None:
            s.note(c)
        out.append((s, ordv(i)))
        if d is True:
            return [(s, ordv(i))]
    return out


def isint_t(e, t):
    return e.kind(t) in ("int", "bool") if t is not None else True


def it_item(e, st, v, i):
    k, ety = v.args[2].args
    src = v.args[3]
    if k == "slice":
        return mk("ptr", src.args[0], src.args[1] + (("ix", i, ety),))
    if k in ("vec", "bits"):
        return e.sel(st, src, i, ety)
    if k == "win":
        return mk("slc", src.args[2], padd(src.args[3], i), src.args[4])
    if k == "chunk":
        raise Unsup("chunks")
    if k == "user":
        return mk("item", src, i, ty=ety)
    if k == "chars":
        return agg("tuple", 0, mk("app", "choff", src, i, ty=e.usize), mk("app", "ch", src, i, ty=e.chart()))
    if k == "charsonly":
        return mk("app", "ch", src, i, ty=e.chart())
    raise Unsup("iterator kind " + k)


def next_it(e, fr, st, p, back=False, optty=None):
    """Iterator::next on a base iterator behind pointer p"""
    r, pr = e.deref(st, p)
    v = e.read(st, r, pr)
    if v.op == "agg" and str(v.args[0]).endswith("::Range"):
        a, b = v.args[2], v.args[3]
        fields = lambda x, y: agg(v.args[0], 0, x, y, ty=v.ty)
        item = lambda s, i: i
    elif is_it(v):
        a, b = v.args[4], v.args[5]
        fields = lambda x, y: agg("it", 0, v.args[2], v.args[3], x, y)
        item = lambda s, i: it_item(e, s, v, i)
    elif e.cursor is not None and e.cursor.known(e, st, v):
        # an iterator kept in a place that changes: it is known which array it runs over
        kind, src = e.cursor.over
        a, b = e.cursor.pos(v), e.cursor.end(v)
        fields = lambda x, y: agg("it", 0, kind, src, x, y)
        item = lambda s, i: it_item(e, s, agg("it", 0, kind, src, a, b), i)
    else:
        return None
    c = lt(a, b, True)

    def yes(s):
        if back:
            i = psub(b, ONE)
            e.write(s, r, pr, fields(a, i))
        else:
            i = a
            e.write(s, r, pr, fields(padd(a, ONE), b))
        return ret(s, some(item(s, i), ty=optty))
    return fork(e, st, c, yes, lambda s: ret(s, none(ty=optty)))


class Cursor:
    """slice iterators over one given array that are stored and read back: numbers pos(v), end(v), and over(v) = 1 for those that
    are known to run over that array (shown, not assumed: only an iterator made over it has that number)"""

    def __init__(self, e, over):
        self.e, self.over = e, over
        self.tag = mk("sym", "cursor", ("ghost", e.usize), ty=e.usize)
        e.lg.axioms.append(self.axiom)
        e.cursor = self

    def pos(self, v):
        return v.args[4] if self.own(v) else mk("app", "itpos", self.tag, v, ty=self.e.usize)

    def end(self, v):
        return v.args[5] if self.own(v) else mk("app", "itend", self.tag, v, ty=self.e.usize)

    def base(self, v):
        return ONE if self.own(v) else mk("app", "itbase", self.tag, v, ty=self.e.usize)

    def own(self, v):
        return is_it(v) and v.args[2].args[0] == "slice" and v.args[3] == self.over[1]

    def axiom(self, a):
        if a.op == "app" and a.args[1] is self.tag and self.own(a.args[2]):
            v = a.args[2]
            return [eq0(psub(a, {"itpos": v.args[4], "itend": v.args[5], "itbase": ONE}[a.args[0]]))]
        return []

    def known(self, e, st, v):
        return v.op in ("phi", "fld", "sel") and e.prove(st, eq0(psub(self.base(v), ONE)))


def iter_of(e, st, a, t, ety):
    p, s0, ln = e.as_slice(st, e.typed(a, t) if a.op not in ("slc", "ptr") else a)
    return it("slice", p, s0, padd(s0, ln), ety)


def user_iter(e, st, v, ety=None):
    return it("user", v, ZERO, mk("ulen", v, ty=e.usize), ety)


# ---------------------------------------------------------------- consumers as small loops

def vfn(e, key, nlocals, blocks, argc):
    b = e._bykey.get(key)
    if b is None:
        b = {"key": key, "path": key, "local": False, "root": "", "span": "", "argc": argc, "spread": None,
             "locals": [[-1, None]] * nlocals, "upvars": [], "blocks": blocks}
        e._bykey[key] = b
    return b


def pcall(name, args, dst, tgt, extra=None):
    cal = {"d": name, "rk": name}
    if extra:
        cal = extra
    return ["call", ["k", {"t": -1, "fn": cal}], args, dst, tgt, None, ""]


L = lambda n: ["c", [n, []]]
D = lambda n: [n, []]


def consumer(e, kind, nextcal):
    """_1 = iterator (by value), _2 = function / initial value, _3 = function of fold; MIR of the consuming loop"""
    key = "!loop_%s %s" % (kind, nextcal.get("rk") or nextcal["d"])
    if kind == "byref":
        raise Unsup("byref")
    init = {"collect": "!vecnew", "sum": "!zero", "count": "!zero", "max": "!none", "min": "!none", "last": "!none", "position": "!zero"}.get(kind)
    b0 = [[], pcall(init, [], D(4), 1), False] if init else [[["=", D(4), ["use", L(2)], ""]], ["goto", 1], False]
    if kind in ("all", "any", "find", "for_each", "find_map"):
        b0 = [[["=", D(4), ["agg", ["tuple"], []], ""]], ["goto", 1], False]
    if kind == "extend":
        b0 = [[["=", D(4), ["agg", ["tuple"], []], ""]], ["goto", 1], False]
    blocks = [
        b0,
        [[["=", D(5), ["ref", True, D(1)], ""]], pcall("", [L(5)], D(6), 2, nextcal), False],
        [[], pcall("!isnone", [L(6)], D(7), 3), False],
        [[], ["switch", L(7), [["0", 4]], 7, -1, ""], False],
    ]
    item = ["c", [6, [["v", 1], ["f", 0, -1]]]]
    B = lambda n: ["=", D(0), ["use", L(n)], ""]
    if kind == "collect":
        blocks += [[[], pcall("!push", [L(4), item], D(4), 1), False], [[], ["unreachable"], False], [[], ["unreachable"], False],
                   [[B(4)], ["ret"], False]]
    elif kind == "extend":
        # _2 = &mut Vec
        blocks += [[[], pcall("!pushref", [L(2), item], D(8), 1), False], [[], ["unreachable"], False], [[], ["unreachable"], False],
                   [[B(4)], ["ret"], False]]
    elif kind in ("sum", "count", "max", "min", "last"):
        blocks += [[[], pcall("!" + kind, [L(4), item], D(4), 1), False], [[], ["unreachable"], False], [[], ["unreachable"], False],
                   [[B(4)], ["ret"], False]]
    elif kind == "fold":
        blocks += [[[], pcall("!fncall2", [L(3), L(4), item], D(4), 1), False], [[], ["unreachable"], False], [[], ["unreachable"], False],
                   [[B(4)], ["ret"], False]]
    elif kind == "for_each":
        blocks += [[[], pcall("!fncall", [L(2), item], D(8), 1), False], [[], ["unreachable"], False], [[], ["unreachable"], False],
                   [[B(4)], ["ret"], False]]
    elif kind in ("all", "any"):
        hit = "0" if kind == "all" else "1"
        blocks += [[[], pcall("!fncall", [L(2), item], D(8), 5), False],
                   [[], ["switch", L(8), [["0", 6 if kind == "all" else 1]], 1 if kind == "all" else 6, -1, ""], False],
                   [[], pcall("!false" if kind == "all" else "!true", [], D(0), 8), False],
                   [[], pcall("!true" if kind == "all" else "!false", [], D(0), 8), False],
                   [[], ["ret"], False]]
    elif kind in ("position",):
        blocks += [[[], pcall("!fncall", [L(2), item], D(8), 5), False],
                   [[], ["switch", L(8), [["0", 9]], 6, -1, ""], False],
                   [[], pcall("!some", [L(4)], D(0), 8), False],
                   [[], pcall("!none", [], D(0), 8), False],
                   [[], ["ret"], False],
                   [[], pcall("!count", [L(4), item], D(4), 1), False]]
    elif kind == "find":
        blocks += [[[["=", D(9), ["use", item], ""], ["=", D(10), ["ref", False, D(9)], ""]], pcall("!fncall", [L(2), L(10)], D(8), 5), False],
                   [[], ["switch", L(8), [["0", 1]], 6, -1, ""], False],
                   [[], pcall("!some", [L(9)], D(0), 8), False],
                   [[], pcall("!none", [], D(0), 8), False],
                   [[], ["ret"], False]]
    else:
        raise Unsup("consumer " + kind)
    for i, b in enumerate(blocks):
        if b[1][0] == "switch":
            b[1] = ["switch", b[1][1], b[1][2], b[1][3], "", ""]
    return vfn(e, key, 11, blocks, 3)


def fused(e, nextcal):
    """Fuse::next over an iterator that stays at its end (every modelled one does): _1 = &mut Fuse"""
    inner = [1, ["d", ["f", 0, -1]]]
    blocks = [
        [[], pcall("!isnone", [["c", inner]], D(2), 1), False],
        [[], ["switch", L(2), [["0", 2]], 3, "", ""], False],
        [[["=", D(3), ["ref", True, [1, ["d", ["f", 0, -1], ["v", 1], ["f", 0, -1]]]], ""]], pcall("", [L(3)], D(0), 4, nextcal), False],
        [[], pcall("!none", [], D(0), 4), False],
        [[], ["ret"], False],
    ]
    return vfn(e, "!fused %s" % (nextcal.get("rk") or nextcal["d"]), 4, blocks, 1)


def flattened(e, cal):
    """FlattenCompat::next: _1 = &mut FlattenCompat { iter: Fuse<I>, frontiter: Option<U>, backiter: Option<U> }"""
    F = lambda i: [1, ["d", ["f", i, -1]]]
    FI = lambda i: [1, ["d", ["f", i, -1], ["v", 1], ["f", 0, -1]]]
    item = ["c", [6, [["v", 1], ["f", 0, -1]]]]

    def tryinner(i, at, have, gone):
        """step field i; at: first block"""
        return [
            [[], pcall("!isnone", [["c", F(i)]], D(2), at + 1), False],
            [[], ["switch", L(2), [["0", at + 2]], gone, "", ""], False],
            [[["=", D(3), ["ref", True, FI(i)], ""]], pcall("", [L(3)], D(4), at + 3, cal["inner"]), False],
            [[], pcall("!isnone", [L(4)], D(5), at + 4), False],
            [[], ["switch", L(5), [["0", have]], at + 5, "", ""], False],
            [[], pcall("!none", [], D(7), at + 6), False],
            [[["=", F(i), ["use", L(7)], ""]], ["goto", gone], False],
        ]
    blocks = tryinner(1, 0, 19, 7)
    into = pcall("", [item], D(8), 11, cal["into"]) if cal.get("into") else ["goto", 11]
    blocks += [
        [[["=", D(3), ["ref", True, F(0)], ""]], pcall("", [L(3)], D(6), 8, cal["outer"]), False],     # 7
        [[], pcall("!isnone", [L(6)], D(2), 9), False],
        [[], ["switch", L(2), [["0", 10]], 13, "", ""], False],
        [[] if cal.get("into") else [["=", D(8), ["use", item], ""]], into, False],
        [[], pcall("!some", [L(8)], D(7), 12), False],
        [[["=", F(1), ["use", L(7)], ""]], ["goto", 0], False],
    ]
    blocks += [[[], ["goto", 14], False]]       # 13
    blocks += [
        [[], pcall("!isnone", [["c", F(2)]], D(2), 15), False],      # 14
        [[], ["switch", L(2), [["0", 16]], 18, "", ""], False],
        [[["=", D(3), ["ref", True, FI(2)], ""]], pcall("", [L(3)], D(0), 17, cal["inner"]), False],
        [[], ["ret"], False],
        [[], pcall("!none", [], D(0), 17), False],
        [[["=", D(0), ["use", L(4)], ""]], ["ret"], False],      # 19
    ]
    return vfn(e, "!flat %s %s" % (cal["outer"].get("rk") or cal["outer"].get("d"), cal["inner"].get("rk") or cal["a"][0]), 9, blocks, 1)


def pseudo(e, fr, b, path, args, st, span, rty):
    n = path[1:]
    if n == "vecnew":
        return ret(st, vec(UNDEF, ZERO))
    if n == "zero":
        return ret(st, ZERO)
    if n == "none":
        return ret(st, none())
    if n == "some":
        return ret(st, some(args[0]))
    if n in ("true", "false"):
        return ret(st, boolc(n == "true"))
    if n == "isnone":
        v = args[0]
        if v.op == "agg":
            return ret(st, boolc(v.args[1] == 0))
        return ret(st, eq0(dcr(v)))
    if n == "push":
        v = args[0]
        return ret(st, vec(e.store(st, arrof(v), length(v), args[1]), padd(length(v), ONE), ty=v.ty))
    if n == "pushref":
        v = dv(e, st, args[0])
        x = args[1]
        if x.op == "ptr" and e.extend_by_ref:
            x = dv(e, st, x)
        wr(e, st, args[0], vec(e.store(st, arrof(v), length(v), x), padd(length(v), ONE), ty=v.ty))
        return ret(st, UNIT)
    if n == "sum":
        x = args[1]
        if x.op == "ptr":
            x = dv(e, st, x)
        return ret(st, padd(args[0], x))
    if n == "count":
        return ret(st, padd(args[0], ONE))
    if n == "last":
        return ret(st, some(args[1]))
    if n in ("max", "min"):
        acc, x = args
        xv = x
        while xv.op == "ptr":
            xv = dv(e, st, xv)

        def have(s, cur):
            cv = cur
            while cv.op == "ptr":
                cv = dv(e, s, cv)
            c = ge0(psub(xv, cv), True) if n == "max" else lt(xv, cv, True)
            return fork(e, s, c, lambda t: ret(t, some(x)), lambda t: ret(t, some(cur)))
        if acc.op == "agg":
            if acc.args[1] == 0:
                return ret(st, some(x))
            return have(st, acc.args[2])
        return fork(e, st, eq0(dcr(acc)), lambda s: ret(s, some(x)), lambda s: have(s, fld(acc, 1, 0, x.ty)))
    if n == "fncall":
        return e.call_value(fr, b, args[0], args[1:], st, span, e.boolt)
    if n == "fncall2":
        return e.call_value(fr, b, args[0], args[1:], st, span, None)
    raise Unsup("pseudo " + path)


CONS = {"collect": 1, "sum": 1, "count": 1, "max": 1, "min": 1, "last": 1, "fold": 3, "for_each": 2, "all": 2, "any": 2,
        "position": 2, "find": 2}

ASCII = {"is_ascii_digit": [(48, 57)], "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)],
         "is_ascii_uppercase": [(65, 90)], "is_ascii_lowercase": [(97, 122)]}


def model(e, fr, b, cal, path, args, atys, st, span, rty, term):
    if path[0] == "!":
        if path == "!intrinsic":
            return None
        return pseudo(e, fr, b, path, args, st, span, rty)
    last = path.rsplit("::", 1)[-1]
    mod = path[:-len(last) - 2]
    d = cal["d"]
    dlast = d.rsplit("::", 1)[-1]
    ga = cal.get("a") or []
    ety = ga[0] if ga else None

    # ---- formatting and logging: no effect on the values
    if path == "log::max_level":
        return ret(st, agg("log::LevelFilter", 0))
    if path.startswith("log::"):
        return ret(st, UNIT)
    if last == "le" and "log::Level" in (cal.get("rk") or ""):
        return ret(st, FALSE)
    if path.startswith("core::fmt::") or path.startswith("alloc::fmt"):
        st.event("fmt", path, tuple(args))
        return ret(st, e.fresh(fr, b, "fmt", rty))
    if path == "core::hint::must_use" or path == "core::convert::identity":
        return ret(st, args[0])

    # ---- Vec, String, BitVec
    if mod in ("alloc::vec", "bit_vec", "alloc::string", "alloc::vec::spec_from_elem"):
        if last in ("new", "with_capacity", "default") and (not args or last == "with_capacity"):
            return ret(st, vec(UNDEF, ZERO, ty=rty))
        if last == "from_elem":
            if mod == "bit_vec":
                return ret(st, vec(mk("fill", args[1]), args[0], ty=rty))
            return ret(st, vec(mk("fill", args[0]), args[1], ty=rty))
        if args and last in ("len", "is_empty", "push", "pop", "clear", "set_len", "truncate", "reserve", "shrink_to_fit", "reserve_exact",
                             "index", "index_mut", "deref", "deref_mut", "as_ptr", "as_mut_ptr", "as_slice", "as_mut_slice", "clone", "iter",
                             "swap_remove", "remove", "insert", "extend_from_slice", "resize", "set", "capacity", "get", "append", "as_str",
                             "set_all", "negate", "none", "any", "all", "grow", "clear_all", "extend"):
            vt = e.pointee(atys[0])
            if last not in ("index", "index_mut", "deref", "deref_mut", "as_ptr", "as_mut_ptr", "extend"):
                v = dv(e, st, args[0], atys[0])
            else:
                v = None
            if last == "len":
                return ret(st, length(v))
            if last == "capacity":
                return ret(st, mk("app", "cap", v, ty=e.usize))
            if last == "is_empty":
                return ret(st, eq0(length(v)))
            if e.own is not None and last in ("push", "pop", "clear", "truncate") and mod != "bit_vec":
                e.own(last, e, st, args[0], length(v), *args[1:])
            if last == "push":
                wr(e, st, args[0], vec(e.store(st, arrof(v), length(v), args[1]), padd(length(v), ONE), ty=v.ty), atys[0])
                st.event("push", args[0], args[1], span)
                return ret(st, UNIT)
            if last == "pop":
                n = length(v)

                def yes(s):
                    x = e.sel(s, arrof(v), psub(n, ONE), e.boolt if mod == "bit_vec" else ety)
                    wr(e, s, args[0], vec(arrof(v), psub(n, ONE), ty=v.ty), atys[0])
                    return ret(s, some(x, ty=rty))
                return fork(e, st, gt0(n, True), yes, lambda s: ret(s, none(ty=rty)))
            if last == "clear" and mod != "bit_vec":
                wr(e, st, args[0], vec(arrof(v), ZERO, ty=v.ty), atys[0])
                return ret(st, UNIT)
            if last in ("set_all",) or (last in ("clear", "clear_all") and mod == "bit_vec"):
                wr(e, st, args[0], vec(mk("fill", boolc(last == "set_all")), length(v), ty=v.ty), atys[0])
                return ret(st, UNIT)
            if last == "set_len":
                wr(e, st, args[0], vec(arrof(v), args[1], ty=v.ty), atys[0])
                return ret(st, UNIT)
            if last == "truncate":
                n = length(v)
                return fork(e, st, lt(args[1], n, True), lambda s: (wr(e, s, args[0], vec(arrof(v), args[1], ty=v.ty), atys[0]), ret(s, UNIT))[1],
                            lambda s: ret(s, UNIT))
            if last in ("reserve", "shrink_to_fit", "reserve_exact"):
                return ret(st, UNIT)
            if last in ("index", "index_mut") and len(args) == 2:
                if mod == "bit_vec":
                    v = dv(e, st, args[0], atys[0])
                    c = lt(args[1], length(v), True)
                    return bounds(e, fr, st, c, span, lambda s: ret(s, mk("ptr", ("C", e.sel(s, arrof(v), args[1], e.boolt)), ())))
                return index(e, fr, st, args[0], args[1], atys[1], ety, span, atys[0])
            if last == "set" and mod == "bit_vec":
                c = lt(args[1], length(v), True)

                def doset(s):
                    wr(e, s, args[0], vec(e.store(s, arrof(v), args[1], args[2]), length(v), ty=v.ty), atys[0])
                    return ret(s, UNIT)
                return bounds(e, fr, st, c, span, doset)
            if last == "get" and mod == "bit_vec":
                return fork(e, st, lt(args[1], length(v), True), lambda s: ret(s, some(e.sel(s, arrof(v), args[1], e.boolt), ty=rty)),
                            lambda s: ret(s, none(ty=rty)))
            if last == "grow" and mod == "bit_vec":
                wr(e, st, args[0], vec(mk("cat", arrof(v), length(v), mk("fill", args[2])), padd(length(v), args[1]), ty=v.ty), atys[0])
                return ret(st, UNIT)
            if last in ("deref", "deref_mut", "as_slice", "as_mut_slice", "as_str"):
                p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
                return ret(st, e.slc(p, s0, n))
            if last in ("as_ptr", "as_mut_ptr"):
                p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
                return ret(st, mk("ptr", p.args[0], p.args[1] + (("ix", s0, ety),)))
            if last == "clone":
                return ret(st, v)
            if last == "iter":
                return ret(st, it("bits", arrof(v), ZERO, length(v), e.boolt))
            if last in ("swap_remove", "remove"):
                n = length(v)

                def dorm(s):
                    x = e.sel(s, arrof(v), args[1], ety)
                    if last == "swap_remove":
                        a = e.store(s, arrof(v), args[1], e.sel(s, arrof(v), psub(n, ONE), ety))
                    else:
                        a = mk("acopy", arrof(v), args[1], arrof(v), padd(args[1], ONE), psub(psub(n, args[1]), ONE))
                    wr(e, s, args[0], vec(a, psub(n, ONE), ty=v.ty), atys[0])
                    return ret(s, x)
                return bounds(e, fr, st, lt(args[1], n, True), span, dorm)
            if last == "insert" and mod == "alloc::vec":
                n = length(v)

                def doin(s):
                    a = mk("acopy", arrof(v), padd(args[1], ONE), arrof(v), args[1], psub(n, args[1]))
                    wr(e, s, args[0], vec(e.store(s, a, args[1], args[2]), padd(n, ONE), ty=v.ty), atys[0])
                    return ret(s, UNIT)
                return bounds(e, fr, st, ge0(psub(n, args[1]), True), span, doin)
            if last == "extend_from_slice":
                p, s0, n = e.as_slice(st, e.typed(args[1], atys[1]) if args[1].op not in ("ptr", "slc") else args[1])
                src = e.read(st, p.args[0], p.args[1])
                a = mk("acopy", arrof(v), length(v), src, s0, n)
                wr(e, st, args[0], vec(a, padd(length(v), n), ty=v.ty), atys[0])
                return ret(st, UNIT)
            if last == "resize":
                n = length(v)
                return fork(e, st, ge0(psub(args[1], n), True),
                            lambda s: (wr(e, s, args[0], vec(mk("cat", arrof(v), n, mk("fill", args[2])) if n is not ZERO else mk("fill", args[2]), args[1], ty=v.ty), atys[0]), ret(s, UNIT))[1],
                            lambda s: (wr(e, s, args[0], vec(arrof(v), args[1], ty=v.ty), atys[0]), ret(s, UNIT))[1])
            if last == "append" and mod == "alloc::vec":
                w = dv(e, st, args[1], atys[1])
                a = mk("acopy", arrof(v), length(v), arrof(w), ZERO, length(w))
                wr(e, st, args[0], vec(a, padd(length(v), length(w)), ty=v.ty), atys[0])
                wr(e, st, args[1], vec(arrof(w), ZERO, ty=w.ty), atys[1])
                return ret(st, UNIT)
            if last == "extend" and cal.get("next"):
                return extend(e, fr, b, cal, args, atys, st, span)
        if last == "into_iter" and mod == "alloc::vec":
            if e.ti(atys[0])["k"] == "ref":
                return ret(st, iter_of(e, st, args[0], atys[0], ety))
            v = args[0]
            return ret(st, it("vec", arrof(v), ZERO, length(v), ety))
        if last == "into_boxed_slice":
            return None
        if last == "from_iter" and cal.get("next"):
            return run_consumer(e, fr, b, "collect", cal["next"], args, st)
    if mod == "alloc::vec::partial_eq" and last == "eq":
        x, y = dv(e, st, args[0], atys[0]), dv(e, st, args[1], atys[1])
        return ret(st, e.eqterm(st, x, y))
    if path == "alloc::boxed::box_assume_init_into_vec_unsafe":
        r, p = e.deref(st, args[0])
        v = e.read(st, r, p)
        while v.op == "agg":
            c = [x for x in v.args[2:] if x is not UNDEF]
            if len(c) != 1:
                raise Unsup("vec! contents")
            v = c[0]
        n = len(v.args) if v.op == "alit" else e.ti(v.ty)["len"] if v.ty is not None and e.ti(v.ty)["k"] == "array" else None
        if n is None:
            raise Unsup("vec! length")
        return ret(st, vec(v, num(n), ty=rty))
    if path == "alloc::boxed::new_uninit":
        r = ("H", fr.fid, b)
        st.mem[r] = UNDEF
        return ret(st, mk("ptr", r, ()))
    if path == "alloc::boxed::new":
        r = ("H", fr.fid, b)
        st.mem[r] = args[0]
        return ret(st, mk("ptr", r, ()))

    # ---- slices and arrays
    if mod in ("core::slice", "core::array", "core::slice::index", "core::str", "alloc::slice", "core::str::traits", "core::slice::raw", "alloc::str"):
        if last == "len":
            return ret(st, e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])[2])
        if last == "is_empty":
            return ret(st, eq0(e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])[2]))
        if last in ("iter", "iter_mut"):
            return ret(st, iter_of(e, st, args[0], atys[0], ety))
        if last in ("index", "index_mut") and len(args) == 2:
            a0, a1, t0, t1 = args[0], args[1], atys[0], atys[1]
            if is_range(e, a0, t0) and not is_range(e, a1, t1):
                a0, a1, t0, t1 = a1, a0, t1, t0
            return index(e, fr, st, a0, a1, t1, ety, span, t0)
        if last == "as_slice" or last == "as_mut_slice":
            p, s0, n = e.as_slice(st, args[0])
            return ret(st, e.slc(p, s0, n))
        if last in ("as_ptr", "as_mut_ptr"):
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            return ret(st, mk("ptr", p.args[0], p.args[1] + (("ix", s0, ety),)))
        if last in ("from_raw_parts", "from_raw_parts_mut"):
            v = args[0]
            if v.op == "ptr" and v.args[1] and v.args[1][-1][0] == "ix":
                return ret(st, e.slc(mk("ptr", v.args[0], v.args[1][:-1]), v.args[1][-1][1], args[1]))
            return ret(st, e.slc(mk("ptr", ("P", v), ()), ZERO, args[1]))
        if last in ("first", "last", "last_mut", "first_mut"):
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            i = s0 if last.startswith("first") else psub(padd(s0, n), ONE)
            return fork(e, st, gt0(n, True), lambda s: ret(s, some(mk("ptr", p.args[0], p.args[1] + (("ix", i, ety),)), ty=rty)),
                        lambda s: ret(s, none(ty=rty)))
        if last in ("get", "get_mut") and mod == "core::slice":
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            if not is_range(e, args[1], atys[1]):
                return fork(e, st, lt(args[1], n, True), lambda s: ret(s, some(mk("ptr", p.args[0], p.args[1] + (("ix", padd(s0, args[1]), ety),)), ty=rty)),
                            lambda s: ret(s, none(ty=rty)))
        if last in ("get_unchecked", "get_unchecked_mut"):
            return index(e, fr, st, args[0], args[1], atys[1], ety, span, atys[0])
        if last == "swap" and mod == "core::slice":
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])

            def sw(s):
                a = e.read(s, p.args[0], p.args[1])
                i, j = padd(s0, args[1]), padd(s0, args[2])
                x, y = e.sel(s, a, i, ety), e.sel(s, a, j, ety)
                e.write(s, p.args[0], p.args[1], e.store(s, e.store(s, a, i, y), j, x))
                s.event("swap", p, i, j, span)
                return ret(s, UNIT)
            return bounds(e, fr, st, band(lt(args[1], n, True), lt(args[2], n, True)), span, sw)
        if last in ("split_at", "split_at_mut"):
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            return bounds(e, fr, st, ge0(psub(n, args[1]), True), span,
                          lambda s: ret(s, agg("tuple", 0, e.slc(p, s0, args[1]), e.slc(p, padd(s0, args[1]), psub(n, args[1])))))
        if last == "windows":
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            src = agg("w", 0, p, s0, args[1])
            return fork(e, st, ge0(psub(n, args[1]), True),
                        lambda s: ret(s, it("win", src, ZERO, padd(psub(n, args[1]), ONE), ety)),
                        lambda s: ret(s, it("win", src, ZERO, ZERO, ety)))
        if last == "reverse":
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            a = e.read(st, p.args[0], p.args[1])
            if s0 is ZERO:
                e.write(st, p.args[0], p.args[1], mk("rev", a, n, ty=a.ty))
            else:
                e.write(st, p.args[0], p.args[1], mk("app", "revpart", a, s0, n))
            st.event("reverse", p, s0, n, span)
            return ret(st, UNIT)
        if last in ("to_vec", "to_owned", "into_vec") and mod in ("alloc::slice",):
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            a = e.read(st, p.args[0], p.args[1])
            return ret(st, vec(a if s0 is ZERO else mk("acopy", UNDEF, ZERO, a, s0, n), n, ty=rty))
        if last == "fill" and mod == "core::slice":
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            a = e.read(st, p.args[0], p.args[1])
            e.write(st, p.args[0], p.args[1], mk("acopy", a, s0, mk("fill", args[1]), s0, n))
            return ret(st, UNIT)
        if last == "contains" and mod == "core::slice":
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            a = e.read(st, p.args[0], p.args[1])
            return ret(st, mk("app", "contains", a, s0, n, dv(e, st, args[1], atys[1]), ty=e.boolt))
        if last in ("sort_by_key", "sort", "sort_by", "sort_unstable", "sort_unstable_by_key", "sort_unstable_by"):
            p, s0, n = e.as_slice(st, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            a = e.read(st, p.args[0], p.args[1])
            v = mk("app", last, a, s0, n, *args[1:])
            e.write(st, p.args[0], p.args[1], mk("arr", v))
            st.event("sort", last, p, a, s0, n, tuple(args[1:]), span)
            return ret(st, UNIT)
        if last == "clone" and mod == "core::array":
            return ret(st, dv(e, st, args[0], atys[0]))
        if last == "default" and mod == "core::array":
            x = e.ti(rty)
            z = default(e, x["t"])
            if z is not None:
                return ret(st, mk("alit", *([z] * x["len"]), ty=rty) if x["len"] <= 16 else mk("fill", z, ty=rty))
        if last == "contains" and mod == "core::str":
            return ret(st, mk("app", "strcontains", strid(e, st, args[0]), args[1], ty=e.boolt))
        if last in ("char_indices", "chars") and mod == "core::str":
            src = strid(e, st, args[0])
            return ret(st, it("chars" if last == "char_indices" else "charsonly", src, ZERO, mk("app", "nchars", src, ty=e.usize)))
        if last == "parse":
            return ret(st, mk("app", "parse", e.ti(rty)["s"], strid(e, st, args[0]), ty=rty))
        if last in ("index", "get"):
            pass
    # ---- iterators
    if path == "core::iter::traits::iterator::Iterator::peekable" and is_it(args[0]):
        return ret(st, args[0])
    if mod.startswith("core::iter::adapters::peekable") and args:
        v = dv(e, st, args[0], atys[0])
        if is_it(v):
            if last == "next":
                return next_it(e, fr, st, args[0], False, rty)
            if last in ("peek", "next_if", "next_if_eq"):
                c = lt(v.args[4], v.args[5], True)

                def have(s):
                    x = it_item(e, s, v, v.args[4])
                    ity = e.fields(rty, 1)[0] if e.fields(rty, 1) else None
                    if last == "peek":
                        r = ("H", fr.fid, b)
                        s.mem[r] = x
                        return ret(s, some(mk("ptr", r, ()), ty=rty))
                    adv = agg("it", 0, v.args[2], v.args[3], padd(v.args[4], ONE), v.args[5])
                    r = ("H", fr.fid, b)
                    s.mem[r] = x
                    if last == "next_if":
                        outs = e.call_value(fr, b, args[1], [mk("ptr", r, ())], s, span, e.boolt)
                    else:
                        y, t = dvall(e, s, args[1], atys[1])
                        outs = ret(s, e.eqterm(s, x, y))
                    res = []
                    for k, s2, w in outs:
                        if k != "ret":
                            res.append((k, s2, w))
                            continue
                        res += fork(e, s2, w, lambda s3: (wr(e, s3, args[0], adv), ret(s3, some(x, ty=rty)))[1], lambda s3: ret(s3, none(ty=rty)))
                    return res
                return fork(e, st, c, have, lambda s: ret(s, none(ty=rty)))
    if path == "core::iter::adapters::fuse::FuseImpl::next" and cal.get("next"):
        return e.run(fused(e, cal["next"]), [args[0]], st, fr.fid, b, fr.depth + 1)
    if last == "next" and cal.get("outer") and cal.get("inner") and not cal.get("body"):
        return e.run(flattened(e, cal), [args[0]], st, fr.fid, b, fr.depth + 1)
    if last in ("next", "next_back") and args and (dlast in ("next", "next_back")):
        v = dv(e, st, args[0], atys[0])
        if is_it(v) or (v.op == "agg" and str(v.args[0]).endswith("::Range")) or e.cursor is not None and e.cursor.known(e, st, v):
            return next_it(e, fr, st, args[0], last == "next_back", rty)
        if v.op == "agg" and str(v.args[0]).endswith("::Zip"):
            return zip_next(e, fr, b, st, args[0], v, span, rty)
        if not cal.get("body"):
            # an iterator supplied by the caller
            st2 = user_iter(e, st, v, e.fields(rty, 1)[0] if rty is not None and e.fields(rty, 1) else None)
            wr(e, st, args[0], st2)
            return next_it(e, fr, st, args[0], False, rty)
    if dlast == "into_iter":
        v = args[0]
        if e.ti(atys[0])["k"] == "ref" and last == "into_iter" and mod in ("core::slice", "core::slice::iter", "core::array", "alloc::vec"):
            return ret(st, iter_of(e, st, args[0], atys[0], ety))
        if mod == "core::iter::traits::collect":
            if v.op in ("sym", "app", "fld", "fresh", "item") and e.kind(atys[0]) in ("param", "alias"):
                return ret(st, user_iter(e, st, v))
            return ret(st, v)
        if mod == "core::array::iter" or mod == "core::array":
            if v.op == "alit":
                return ret(st, it("vec", v, ZERO, num(len(v.args)), ety))
    if d.startswith("core::iter::traits::iterator::Iterator::") or mod == "core::slice::iter":
        if dlast in CONS and cal.get("next") and not (dlast == "collect" and not vec_result(e, rty)):
            a = list(args)
            # adaptors taking the iterator by reference
            return run_consumer(e, fr, b, dlast, cal["next"], a, st, byref=e.ti(atys[0])["k"] == "ref" and dlast in ("all", "any", "position", "find"))
        if dlast == "size_hint":
            n = e.fresh(fr, b, "lower", e.usize)
            return ret(st, agg("tuple", 0, n, e.fresh(fr, b, "upper", None)))
    if dlast == "extend" and cal.get("next") and args and e.is_vec(e.pointee(atys[0]) if e.pointee(atys[0]) is not None else -1):
        return extend(e, fr, b, cal, args, atys, st, span)
    # ---- comparisons and arithmetic on caller types and primitives
    if dlast in ("lt", "le", "gt", "ge", "eq", "ne", "cmp", "partial_cmp", "max", "min") and (d.startswith("core::cmp::") or mod == "core::cmp"):
        local = cal.get("body") and cal.get("local")
        if not local and len(args) == 2:
            x, tx = dvall(e, st, args[0], atys[0])
            y, ty_ = dvall(e, st, args[1], atys[1])
            k = e.kind(tx)
            if k in ("int", "float", "param", "bool", "alias") or (tx is not None and tx < 0):
                if dlast in ("eq", "ne"):
                    c = e.eqterm(st, x, y)
                    return ret(st, c if dlast == "eq" else bnot(c))
                if k == "bool":
                    x, y = e.b2i(st, x), e.b2i(st, y)
                ii = k in ("int", "bool")
                if dlast in ("lt", "le", "gt", "ge"):
                    c = {"lt": lt(x, y, ii), "le": ge0(psub(y, x), ii), "gt": lt(y, x, ii), "ge": ge0(psub(x, y), ii)}[dlast]
                    return ret(st, c)
                if dlast == "cmp":
                    return [("ret", s, v) for s, v in cmp3(e, st, x, y, ii)]
                if dlast == "partial_cmp":
                    return [("ret", s, some(v)) for s, v in cmp3(e, st, x, y, ii)]
                if dlast == "max":
                    return fork(e, st, ge0(psub(y, x), ii), lambda s: ret(s, args[1]), lambda s: ret(s, args[0]))
                if dlast == "min":
                    return fork(e, st, ge0(psub(y, x), ii), lambda s: ret(s, args[0]), lambda s: ret(s, args[1]))
            if k == "adt" and dlast in ("eq", "ne") and not cal.get("body"):
                c = e.eqterm(st, x, y)
                return ret(st, c if dlast == "eq" else bnot(c))
    if d.startswith("core::cmp::Ordering") or mod == "core::cmp" and last in ("is_lt", "is_le", "is_gt", "is_ge", "is_eq", "is_ne", "reverse", "then"):
        v = args[0]
        x = dcr(v)
        m = {"is_lt": eq0(x), "is_eq": eq0(psub(x, ONE)), "is_gt": eq0(psub(x, num(2))), "is_le": ge0(psub(ONE, x), True),
             "is_ge": ge0(psub(x, ONE), True), "is_ne": bnot(eq0(psub(x, ONE)))}.get(last)
        if m is not None:
            return ret(st, m)
        if last == "reverse" and v.op == "agg":
            return ret(st, ordv(2 - v.args[1]))
    if dlast in ("add", "sub", "mul", "div", "neg") and d.startswith("core::ops::arith::") and not (cal.get("local") and cal.get("body")):
        x = args
        if all(e.kind(t) in ("float", "int", "param", "alias") for t in atys):
            r = {"add": lambda: padd(x[0], x[1]), "sub": lambda: psub(x[0], x[1]), "mul": lambda: pmul(x[0], x[1]),
                 "div": lambda: pdiv(x[0], x[1]), "neg": lambda: pneg(x[0])}[dlast]()
            return ret(st, r)
    if dlast in ("add_assign", "sub_assign", "mul_assign", "div_assign") and d.startswith("core::ops::arith::") and not (cal.get("local") and cal.get("body")):
        x = dv(e, st, args[0], atys[0])
        r = {"a": padd, "s": psub, "m": pmul, "d": pdiv}[dlast[0]](x, args[1])
        wr(e, st, args[0], r, atys[0])
        return ret(st, UNIT)
    if dlast == "clone" and d == "core::clone::Clone::clone" and not (cal.get("local") and cal.get("body")):
        v = dv(e, st, args[0], atys[0])
        st.event("clone", args[0], span)
        return ret(st, v) + ([("unwind", st.copy(), None)] if e.unwind and e.kind(e.pointee(atys[0])) == "param" else [])
    if dlast == "default" and d == "core::default::Default::default" and not (cal.get("local") and cal.get("body")):
        z = default(e, rty)
        if z is not None:
            return ret(st, z)
    # ---- floats and integers
    if path in ("core::f64::abs", "std::f64::abs"):
        x = args[0]
        return fork(e, st, ge0(x, False), lambda s: ret(s, x), lambda s: ret(s, pneg(x)))
    if mod in ("std::f64", "core::f64"):
        x = args[0]
        if last == "sqrt":
            return ret(st, sqrt(x, rty))
        if last == "sin_cos":
            return ret(st, agg("tuple", 0, mk("app", "sin", x, ty=rty), mk("app", "cos", x, ty=rty)))
        if last in ("max", "min"):
            y = args[1]
            return fork(e, st, ge0(psub(y, x), False), lambda s: ret(s, y if last == "max" else x), lambda s: ret(s, x if last == "max" else y))
        if last == "mul_add":
            return ret(st, padd(pmul(x, args[1]), args[2]))
        if last == "powi" and args[1].op == "n" and 0 <= args[1].args[0] <= 6:
            r = ONE
            for _ in range(args[1].args[0]):
                r = pmul(r, x)
            return ret(st, r)
        if last == "hypot":
            return ret(st, sqrt(padd(pmul(x, x), pmul(args[1], args[1])), rty))
        return ret(st, mk("app", last, *args, ty=rty))
    if mod == "core::num" and last in ("abs",):
        x = args[0]
        return fork(e, st, ge0(x, True), lambda s: ret(s, x), lambda s: ret(s, pneg(x)))
    if mod == "core::num":
        if last in ("checked_sub", "saturating_sub", "wrapping_sub", "abs_diff", "checked_add", "saturating_add", "wrapping_add", "wrapping_mul",
                    "overflowing_add", "pow", "signum", "checked_mul", "min", "max", "is_positive", "is_negative", "unsigned_abs"):
            x = args[0]
            y = args[1] if len(args) > 1 else None
            uns = e.ti(atys[0])["s"][0] == "u"
            ts = e.ti(atys[0])["s"]
            if ts in INT_BITS and INT_BITS[ts] <= 16 and last in ("saturating_add", "wrapping_add", "checked_add", "overflowing_add",
                                                                  "checked_mul", "wrapping_mul", "saturating_mul", "overflowing_mul"):
                v = pmul(x, y) if last.endswith("mul") else padd(x, y)
                lo, hi = narrow(ts)
                fit = band(ge0(psub(num(hi), v), True), ge0(psub(v, num(lo)), True))
                w = mk("app", "wrap_" + ts, v, ty=atys[0])
                how = last.split("_")[0]
                if how == "saturating":
                    if not uns:
                        return ret(st, mk("app", last, *args, ty=rty))
                    return fork(e, st, fit, lambda s: ret(s, v), lambda s: ret(s, num(hi)))
                if how == "wrapping":
                    return fork(e, st, fit, lambda s: ret(s, v), lambda s: ret(s, w))
                if how == "checked":
                    return fork(e, st, fit, lambda s: ret(s, some(v, ty=rty)), lambda s: ret(s, none(ty=rty)))
                return fork(e, st, fit, lambda s: ret(s, agg("tuple", 0, v, FALSE)), lambda s: ret(s, agg("tuple", 0, w, TRUE)))
            if last == "saturating_sub" and uns:
                return fork(e, st, ge0(psub(x, y), True), lambda s: ret(s, psub(x, y)), lambda s: ret(s, ZERO))
            if last == "checked_sub" and uns:
                return fork(e, st, ge0(psub(x, y), True), lambda s: ret(s, some(psub(x, y), ty=rty)), lambda s: ret(s, none(ty=rty)))
            if last == "wrapping_sub" and uns:
                return fork(e, st, ge0(psub(x, y), True), lambda s: ret(s, psub(x, y)),
                            lambda s: ret(s, mk("app", "wrapping_sub", x, y, ty=rty)))
            if last == "abs_diff":
                return fork(e, st, ge0(psub(x, y), True), lambda s: ret(s, psub(x, y)), lambda s: ret(s, psub(y, x)))
            if last in ("saturating_add", "wrapping_add"):
                return ret(st, padd(x, y))
            if last == "checked_add":
                return ret(st, some(padd(x, y), ty=rty))
            if last == "overflowing_add":
                # no wrap (integers are taken as unbounded); the flag is a caller-visible impossibility for the offsets used here
                return ret(st, agg("tuple", 0, padd(x, y), FALSE))
            if last == "is_positive":
                return ret(st, gt0(x, True))
            if last == "is_negative":
                return ret(st, gt0(pneg(x), True))
            return ret(st, mk("app", last, *args, ty=rty))
    # ---- memory
    if mod in ("core::mem", "core::mem::manually_drop", "core::mem::maybe_uninit"):
        if last == "replace":
            v = dv(e, st, args[0], atys[0])
            wr(e, st, args[0], args[1], atys[0])
            return ret(st, v)
        if last == "take":
            v = dv(e, st, args[0], atys[0])
            z = default(e, e.pointee(atys[0]))
            if z is not None:
                wr(e, st, args[0], z, atys[0])
                return ret(st, v)
        if last == "swap":
            x, y = dv(e, st, args[0], atys[0]), dv(e, st, args[1], atys[1])
            wr(e, st, args[0], y, atys[0])
            wr(e, st, args[1], x, atys[1])
            return ret(st, UNIT)
        if last == "needs_drop":
            return ret(st, mk("sym", "needs_drop", ty=e.boolt))
        if last in ("forget", "drop"):
            st.event(last, args[0], span)
            return ret(st, UNIT)
    if mod == "core::ptr":
        if last == "read":
            v = dv(e, st, args[0], atys[0])
            if e.own is not None:
                e.own("move", e, st, args[0])
            return ret(st, v)
        if last == "write":
            if e.own is not None:
                e.own("put", e, st, args[0])
            wr(e, st, args[0], args[1], atys[0])
            return ret(st, UNIT)
        if last in ("copy_nonoverlapping", "copy"):
            if e.own is not None:
                e.own("copy", e, st, args[0], args[1], args[2])
            e.copy_no(st, args[0], args[1], args[2], fr, span)
            return ret(st, UNIT)
        if last == "drop_in_place":
            st.event("drop_in_place", args[0], span)
            if e.drops is not None:
                rr, pp = e.deref(st, args[0], atys[0])
                if e.uses is not None:
                    e.uses(e, st, rr, pp)
                e.drops(e, st, fr, rr, pp, e.pointee(atys[0]), None)
            if e.own is not None:
                e.own("move", e, st, args[0])
            return ret(st, UNIT) + ([("unwind", st.copy(), None)] if e.unwind else [])
        if last in ("null", "null_mut"):
            return ret(st, mk("cst", "null", ty=rty))
    if mod in ("core::ptr::const_ptr", "core::ptr::mut_ptr"):
        pe = e.pointee(atys[0])
        if last in ("add", "offset", "wrapping_add"):
            return ret(st, e.ptr_off(st, args[0], args[1], pe))
        if last in ("sub", "wrapping_sub"):
            return ret(st, e.ptr_off(st, args[0], pneg(args[1]), pe))
        if last == "read":
            v = dv(e, st, args[0], atys[0])
            if e.own is not None:
                e.own("move", e, st, args[0])
            return ret(st, v)
        if last == "write":
            if e.own is not None:
                e.own("put", e, st, args[0])
            wr(e, st, args[0], args[1], atys[0])
            return ret(st, UNIT)
        if last in ("cast", "cast_mut", "cast_const"):
            return ret(st, args[0])
    if last == "from_ref" or last == "from_mut":
        return ret(st, args[0])
    # ---- function values
    if d in ("core::ops::function::Fn::call", "core::ops::function::FnMut::call_mut", "core::ops::function::FnOnce::call_once"):
        tup = args[1]
        if tup.op == "agg":
            a = list(tup.args[2:])
        else:
            ts = e.fields(atys[1], 0) or []
            a = [fld(tup, 0, i, t) for i, t in enumerate(ts)]
        fv = args[0]
        if fv.op not in ("ptr", "agg", "fn"):
            t = atys[0]
            while t is not None and e.ti(t)["k"] == "ref":
                t = e.pointee(t)
        x = fv
        while x.op == "ptr":
            x = e.read(st, x.args[0], x.args[1])
        if x.op == "agg" and isinstance(x.args[0], tuple) or x.op == "fn":
            return e.call_value(fr, b, fv, a, st, span, rty)
        if x.op == "deref" or x.op in ("sym", "fld", "app", "sel"):
            return e.call_value(fr, b, x, a, st, span, rty)
    # ---- characters
    if mod == "core::char::methods" or mod == "core::num" and last in ASCII:
        x = args[0]
        if e.ti(atys[0])["k"] == "ref":
            x = dv(e, st, x, atys[0])
        if last in ASCII:
            c = FALSE
            for lo, hi in ASCII[last]:
                c = bor(c, band(ge0(psub(x, num(lo)), True), ge0(psub(num(hi), x), True)))
            return ret(st, c)
        if last in ("is_whitespace", "is_ascii_whitespace", "is_alphabetic", "is_alphanumeric", "is_numeric"):
            if x.op == "n":
                ch = chr(x.args[0])
                r = {"is_whitespace": ch.isspace() and x.args[0] not in range(0x1c, 0x20), "is_ascii_whitespace": ch in " \t\n\r\x0c", "is_alphabetic": ch.isalpha(),
                     "is_alphanumeric": ch.isalnum(), "is_numeric": ch.isnumeric()}[last]
                return ret(st, boolc(r))
            return ret(st, mk("app", last, x, ty=e.boolt))
    # ---- ranges of the caller
    if last in ("start_bound", "end_bound") and not cal.get("body"):
        v = dv(e, st, args[0], atys[0])
        return ret(st, mk("app", last, v, ty=rty))
    if d.startswith("core::hash::"):
        st.event("hash", path, tuple(args), tuple(dvs(e, st, a, t) for a, t in zip(args, atys)), span)
        return ret(st, UNIT)
    # ---- termination by panic
    if path.startswith("core::panicking") or path.startswith("std::panicking") or path.startswith("core::option::unwrap_failed") \
            or path.startswith("core::option::expect_failed") or path.startswith("core::result::unwrap_failed") or path.startswith("alloc::alloc::handle") \
            or path.startswith("core::slice::index::slice"):
        if path.endswith("unimplemented_default_msg"):
            return None
        e.ob("panic", span, False, path)
        e.panic(fr, st, span, path)
        return [("unwind", st, None)]
    return None


def dvs(e, st, a, t):
    try:
        while t is not None and e.ti(t)["k"] == "ref":
            a = dv(e, st, a, t)
            t = e.pointee(t)
    except Unsup:
        pass
    return a


def sqrt(x, ty):
    if x.op == "n" and x.args[0] >= 0:
        from math import isqrt
        from fractions import Fraction
        f = Fraction(x.args[0])
        a, b = isqrt(f.numerator), isqrt(f.denominator)
        if a * a == f.numerator and b * b == f.denominator:
            return num(Fraction(a, b))
    return mk("sqrt", x, ty=ty)


def strid(e, st, s):
    """a string by its contents"""
    if s.op == "slc":
        a = e.read(st, *s.args[0].args)
        if a.op == "arr" and s.args[1] is ZERO and s.args[2].op == "len" and s.args[2].args[0] is a.args[0]:
            return a.args[0]
        return mk("app", "strv", a, s.args[1], s.args[2])
    if s.op == "ptr":
        return e.read(st, s.args[0], s.args[1])
    return s


def vec_result(e, t):
    return t is not None and (t < 0 or e.ti(t)["k"] == "adt" and e.ti(t)["d"] == "alloc::vec::Vec")


def default(e, t):
    k = e.kind(t)
    if k in ("int", "float"):
        return ZERO
    if k == "bool":
        return FALSE
    x = e.ti(t)
    if k == "adt":
        if x["d"] in ("alloc::vec::Vec", "alloc::string::String", "bit_vec::BitVec"):
            return vec(UNDEF, ZERO, ty=t)
        if x["d"] == OPT:
            return none(ty=t)
    if k == "tuple":
        fs = [default(e, a) for a in x["a"]]
        if None not in fs:
            return agg("tuple", 0, *fs, ty=t)
    if k in ("param", "alias"):
        return mk("app", "default", ty=t)
    return None


def run_consumer(e, fr, b, kind, nextcal, args, st, byref=False):
    body = consumer(e, kind, nextcal)
    a = list(args) + [UNIT] * (3 - len(args))
    src = None
    if byref or args[0].op == "ptr" and kind in ("all", "any", "position", "find"):
        src = args[0]
        a[0] = dv(e, st, src)
    out = e.run(body, a[:3], st, fr.fid, b, fr.depth + 1)
    return out


def extend(e, fr, b, cal, args, atys, st, span):
    v, t = args[1], atys[1]
    nx = cal["next"]
    outs = [("ret", st, v)]
    if cal.get("into"):
        outs = e.call(fr, (b, "into"), cal["into"], [v], [t], st, span, None)
    res = []
    byref = "Copy" in str(cal.get("rk")) or (cal.get("rk") or cal["d"]).startswith("alloc::vec::{impl#23}")
    for k, s, itv in outs:
        if k != "ret":
            res.append((k, s, itv))
            continue
        body = consumer(e, "extend", nx)
        old = e.extend_by_ref
        e.extend_by_ref = byref
        try:
            res += e.run(body, [itv, args[0], UNIT], s, fr.fid, b, fr.depth + 1)
        finally:
            e.extend_by_ref = old
    return res


def zip_next(e, fr, b, st, p, v, span, rty):
    """Zip: advance the first, then the second"""
    r, pr = e.deref(st, p)
    pa = mk("ptr", r, pr + (("f", 0, 0, None),))
    pb = mk("ptr", r, pr + (("f", 0, 1, None),))
    out = []
    for k, s, x in any_next(e, fr, (b, "za"), s0(st), pa, span, v, 0):
        if k != "ret":
            out.append((k, s, x))
            continue
        if x.op != "agg":
            raise Unsup("zip")
        if x.args[1] == 0:
            out.append(("ret", s, none(ty=rty)))
            continue
        for k2, s2, y in any_next(e, fr, (b, "zb"), s, pb, span, v, 1):
            if k2 != "ret":
                out.append((k2, s2, y))
                continue
            if y.args[1] == 0:
                out.append(("ret", s2, none(ty=rty)))
            else:
                out.append(("ret", s2, some(agg("tuple", 0, x.args[2], y.args[2]), ty=rty)))
    return out


def s0(st):
    return st


def any_next(e, fr, b, st, p, span, zipv, which):
    v = e.read(st, *e.deref(st, p))
    if is_it(v) or (v.op == "agg" and str(v.args[0]).endswith("::Range")):
        return next_it(e, fr, st, p)
    if v.op == "agg":
        # an adaptor: find its instance of next by the type of the value
        key = adaptor_next(e, v)
        if key:
            return e.run(e._bykey[key], [p], st, fr.fid, b, fr.depth + 1)
    raise Unsup("zip over %s" % show(v)[:60])


def adaptor_next(e, v):
    t = e.ti(v.ty)["s"] if v.ty is not None else None
    mod = str(v.args[0]).rsplit("::", 1)[0]
    c = []
    for k, b in e._bykey.items():
        if k.startswith(mod + "::{impl") and "::next<" in k and b["argc"] == 1:
            pt = e.pointee(b["locals"][1][0])
            if pt == v.ty:
                c.append(k)
    return c[0] if c else None
