"""R01 to R03: the ramp table against a list of lists.  Entry k is values[index[k] .. index[k+1]]."""
from vlib.core import check, Anchor
from vlib.spec import *
from vlib.checks.vecoption import facts_of, k_
from vlib.iterate import steps

RT = "trellis::ramp_table::RampTable"


class Table:
    """the two arrays of a ramp table value"""

    def __init__(self, e, st, v):
        if v.ty is None or e.ti(v.ty).get("d") != RT:
            raise Anchor("the type of a ramp table")
        self.e, self.st, self.v = e, st, v
        self.index, self.values = get(e, v, "index"), get(e, v, "values")
        self.ni, self.nv = length(self.index), length(self.values)
        self.u32 = e.ti(self.index.ty)["a"][0] if self.index.ty is not None else e.ti(e.ti(v.ty)["vf"][0][0])["a"][0]
        self.item = e.ti(e.ti(v.ty)["vf"][0][1])["a"][0]

    def i(self, k, st=None):
        return self.e.sel(st or self.st, arrof(self.index), k, self.u32)

    def x(self, k, st=None):
        return self.e.sel(st or self.st, arrof(self.values), k, self.item)


def ramp(e, st, v, both=False):
    """assume v is well formed: index starts with 0, never decreases, and stays within the values.
    both: the order of two neighbours is used at a read of either"""
    t = Table(e, st, v)
    st.note(gt0(t.ni, True))
    st.note(eqt(t.i(ZERO), ZERO))
    K = e.bv(0)
    ik = mk("sel", arrof(t.index), K, ty=t.u32)
    up = mk("sel", arrof(t.index), padd(K, ONE), ty=t.u32)
    st.fa = st.fa + ((ik, K, band(ge0(K, True), gt0(psub(psub(t.ni, ONE), K), True)), band(le(ik, up, True), le(up, t.nv, True))),
                     (ik, K, band(ge0(K, True), gt0(psub(t.ni, K), True)), band(ge0(ik, True), le(ik, t.nv, True))))
    if both:
        st.fa = st.fa + ((up, K, band(ge0(K, True), gt0(psub(psub(t.ni, ONE), K), True)), le(ik, up, True)),
                         (ik, K, band(ge0(K, True), gt0(psub(t.ni, K), True)), le(ik, t.i(psub(t.ni, ONE)), True)))
    return t


def wellformed(e, s, t):
    """the same, to be shown"""
    if not e.prove(s, gt0(t.ni, True)) or not e.eq(s, t.i(ZERO, s), ZERO):
        return False
    k = k_(e)
    s2 = s.copy()
    if e.assume(s2, band(ge0(k, True), lt(k, psub(t.ni, ONE), True))):
        a, b = t.i(k, s2), t.i(padd(k, ONE), s2)
        saturate(e, s2, [a, b])
        if not (e.prove(s2, le(a, b, True)) and e.prove(s2, le(b, t.nv, True))):
            return False
    return True


def list_is(e, s, v, n, item, ty=None):
    """v is a list of n items, item(k) at k"""
    if not e.eq(s, length(v), n):
        return False
    k = k_(e)
    s2 = s.copy()
    if not e.assume(s2, band(ge0(k, True), lt(k, n, True))):
        return True
    for c, want in item(k):
        s3 = s2.copy()
        if e.assume(s3, c):
            got = e.sel(s3, arrof(v), k, ty)
            saturate(e, s3, [got, want])
            if not e.eq(s3, e.sel(s3, arrof(v), k, ty), want):
                return False
    return True


def slice_is(e, s, v, root, projs, a, b):
    """v is the slice of the list at (root, projs) from a to b"""
    sl = e.as_slice(s, v) if v.op != "slc" else (v.args[0], v.args[1], v.args[2])
    if sl is None:
        return False
    p, start, n = sl
    if p.op != "ptr" or p.args[0] != root or p.args[1][:len(projs)] != projs:
        return False
    rest = p.args[1][len(projs):]
    if rest and rest[0] != ("el",):
        return False
    if len(rest) > 1:
        return False
    return e.eq(s, start, a) and e.eq(s, n, psub(b, a))


class Op:
    def __init__(self, f, rep, name, trait=None, adt=RT, both=False, **kw):
        self.rep, self.name = rep, name
        m = method(f, adt, name, trait)

        def pre(e, st, a):
            self.old = ramp(e, st, at(e, st, a[0]), both)
        self.r = r = run(f, m, pre=pre, name="RampTable::" + name, **kw)
        self.ok = usable(rep, r)
        self.e = r.e

    def new(self, s):
        return Table(self.e, s, at(self.e, s, self.r.args[0]))

    def ob(self, rule, what, ok, s, text):
        self.rep.ob(rule, "%s %s" % (self.name, what), ok, self.r.where, "%s when %s" % (text, facts_of(s)))

    def same(self, s, t, which):
        return getattr(t, which) is getattr(self.old, which)


def fits(e, st, *xs):
    """offsets are stored in 32 bits: the table holds fewer values than that"""
    for x in xs:
        st.note(lt(x, num(2 ** 32), True))


@check("R01", floors={"functions": 14}, technique="abstract interpretation of every operation, compared with the operation on a list of lists",
       rule="each operation returns and leaves exactly what the same operation on a list of lists does, and keeps the index well formed")
def r01(facts, rep):
    f = facts["trellis"]
    rule = "as a list of lists"
    # empty tables
    for name, trait in (("new", None), ("default", "Default"), ("with_capacity", None)):
        r = run(f, method(f, RT, name, trait), name="RampTable::" + name)
        if usable(rep, r):
            for s, v in r.rets:
                if v.ty is None:
                    v.ty = r.body["locals"][0][0]
                t = Table(r.e, s, v)
                rep.ob(rule, name + " has no keys and no values", r.e.eq(s, t.ni, ONE) and r.e.eq(s, t.i(ZERO, s), ZERO) and r.e.eq(s, t.nv, ZERO), r.where, show(v)[:200])
    # operations: (name, values after as list of (count, item) parts, index grows)
    for name in ("push_value", "finish_key", "clear", "push_entry_copy", "push_entry_clone", "push_entry_extend"):
        o = Op(f, rep, name)
        if not o.ok:
            continue
        e, old = o.e, o.old
        for s, v in o.r.rets:
            t = o.new(s)
            if name == "clear":
                ok = e.eq(s, t.ni, ONE) and e.eq(s, t.i(ZERO, s), ZERO) and e.eq(s, t.nv, ZERO)
                o.ob(rule, "empties the table", ok, s, show(t.v)[:200])
                continue
            if name == "push_value":
                more, src = ONE, lambda j: o.r.args[1]
            elif name == "finish_key":
                more, src = ZERO, lambda j: ZERO
            elif name == "push_entry_extend":
                it = o.r.args[1]
                more, src = mk("ulen", it, ty=e.usize), lambda j: mk("item", it, j, ty=old.item)
            else:
                a = o.r.args[1]
                _, _, more = e.as_slice(s, a)
                src = lambda j: e.read(s, *e.deref(s, e.elem_ptr(s, a, j, old.item)))
            s = s.copy()
            fits(e, s, t.nv)
            ok = list_is(e, s, t.values, padd(old.nv, more), lambda k: ((lt(k, old.nv, True), old.x(k)), (le(old.nv, k, True), src(psub(k, old.nv)))), old.item)
            o.ob(rule, "leaves the values it should", ok, s, "%s of length %s" % (show(t.values)[:200], show(t.nv)))
            grow = ZERO if name == "push_value" else ONE
            ok = list_is(e, s, t.index, padd(old.ni, grow), lambda k: ((lt(k, old.ni, True), old.i(k)), (le(old.ni, k, True), t.nv)), old.u32)
            o.ob(rule, "leaves the keys it should", ok, s, "%s of length %s" % (show(t.index)[:200], show(t.ni)))
            o.ob("well formed", "keeps the index well formed", wellformed(e, s, t), s, "index %s, %s values" % (show(t.index)[:200], show(t.nv)))
            if name == "finish_key":
                o.ob(rule, "returns the key", e.eq(s, v, psub(old.ni, ONE)), s, show(v))
        no_panic(rep, o.r, "no panic")
    for name, what in (("len", 0), ("num_keys", 0), ("is_empty", 1), ("num_values", 2), ("all_values", 3), ("all_values_mut", 3)):
        o = Op(f, rep, name)
        if not o.ok:
            continue
        e, old = o.e, o.old
        for s, v in o.r.rets:
            if what == 3:
                ok = slice_is(e, s, v, ("P", o.r.args[0]), values_place(e, old), ZERO, old.nv)
            else:
                ok = e.eq(s, v, [psub(old.ni, ONE), eqt(old.ni, ONE), old.nv][what])
            t = o.new(s)
            o.ob(rule, "reports what the table holds", ok and t.v is old.v, s, show(v)[:200])
        no_panic(rep, o.r, "no panic")


def along(t):
    """candidate invariants for stepping loops: a counter is an offset read from the index; counters add up"""
    def h(e, fr, head, st0, backs, W, phis, entry, repl):
        ps = [phis[w] for w in W]
        nums = [p for p in ps if p not in repl and not e.isbool(p) and entry[p].op not in ("agg", "vec", "ptr", "slc", "alit", "fill", "store", "undef", "fn", "str", "b", "arr")
                and (p.ty is None or e.kind(p.ty) == "int")]
        keys = list(nums)
        # the loop's own counters and those of the loops around it
        keys = keys + [x for x in e.known(st0) if x.op == "phi" and x not in ps and (x.ty is not None and e.kind(x.ty) == "int")][:4]
        out = []

        def add(c):
            if c not in out and e.prove(st0, subst(c, entry), 0):
                out.append(c)
        far = [x for x in keys if x not in nums]
        for a in nums:
            for q in keys:
                d = psub(entry[a], entry.get(q, q))
                if a is not q and d.op == "n" and (q not in nums or nums.index(q) < nums.index(a)):
                    add(eqt(psub(a, q), d))
        for a in nums:
            for q in keys:
                if a is not q:
                    add(eqt(a, t.i(q, st0)))
                    add(eqt(a, t.i(psub(q, ONE), st0)))
        for i, b in enumerate(nums):
            for d in nums[:i]:
                for a in nums:
                    if a is not b and a is not d:
                        add(eqt(a, padd(b, d)))
        for a in nums + far:
            for q in nums if a in far else keys:
                if a is not q:
                    add(bor(le(q, ONE, True), le(t.i(padd(q, num(-2)), st0), a, True)))
                    add(le(t.i(psub(q, ONE), st0), a, True))
        return out[:40]
    return h


def values_place(e, t):
    i = [q["n"] for q in e.f.adts[RT]["variants"][0]["f"]].index("values")
    return (("f", 0, i, e.ti(t.v.ty)["vf"][0][i]),)


def parts(v):
    return v.args[2:] if v.op == "agg" else ()


@check("R02", floors={"functions": 9, "items": 4}, technique="abstract interpretation of every view and of every iterator's stepping loop",
       rule="every way of looking at a ramp table shows entry k as the values from index[k] to index[k + 1], for every key once and in order")
def r02(facts, rep):
    f = facts["trellis"]
    rule = "entries"
    for name, trait in (("entry_values_range", None), ("entry_values", None), ("entry_values_mut", None), ("index", "Index"), ("index_mut", "IndexMut")):
        o = Op(f, rep, name, trait)
        if not o.ok:
            continue
        e, old, i = o.e, o.old, o.r.args[1]
        for s, v in o.r.rets:
            a, b = old.i(i), old.i(padd(i, ONE))
            if name == "entry_values_range":
                ok = e.eq(s, fld(v, 0, 0), a) and e.eq(s, fld(v, 0, 1), b)
            else:
                ok = slice_is(e, s, v, ("P", o.r.args[0]), values_place(e, old), a, b)
            o.ob(rule, "gives the key's values", ok, s, show(v)[:250])
            o.ob(rule, "changes nothing", o.new(s).v is old.v, s, show(o.new(s).v)[:200])
            o.ob("out of range", "panics for a key beyond the last", e.prove(s, lt(padd(i, ONE), old.ni, True)), s, "returns")
        for kind, st, where, what in o.r.e.out:
            s = st.copy()
            bad = e.assume(s, band(ge0(i, True), lt(padd(i, ONE), old.ni, True)))
            if bad:
                saturate(e, s, [old.i(i), old.i(padd(i, ONE))])
                bad = e.prove(s, FALSE) is not True
            rep.ob("in range", name + " succeeds for every key", not bad, where, "%s when %s" % (what, facts_of(st)))
    for name in ("iter", "iter_mut", "iter_pairs", "iter_pairs_manual"):
        o = Op(f, rep, name, both=True)
        if not o.ok:
            continue
        e, old, r = o.e, o.old, o.r
        e.cands.append(along(old))
        tally = {"emit": 0, "done": 0}
        nxt = r.body.get("retnext")
        if nxt is None:
            raise Anchor("an iterator from RampTable::" + name)
        pairs = name.startswith("iter_pairs")
        root, place = ("P", r.args[0]), values_place(e, old)
        for s, v in r.rets:
            if v.ty is None:
                v.ty = r.body["locals"][0][0]

            def emit(e, st, j, L, x):
                if e is None:
                    return padd(L, ONE)
                rep.count("items")
                if not pairs:
                    s = st.copy()
                    saturate(e, s, [old.i(j), old.i(padd(j, ONE))])
                    ok = slice_is(e, s, x, root, place, old.i(j), old.i(padd(j, ONE)))
                    o.ob(rule, "item j is entry j", ok, st, "item %s at %s" % (show(x)[:200], show(j)))
                    return padd(L, ONE)
                k, p = fld(x, 0, 0), fld(x, 0, 1)
                s = st.copy()
                a, b = old.i(k), old.i(padd(k, ONE))
                saturate(e, s, [a, b])
                ok = p.op == "ptr" and p.args[0] == root and p.args[1][:-1] == place + (("el",),) and p.args[1][-1][0] == "ix" and e.eq(s, p.args[1][-1][1], L)
                o.ob(rule, "pair j is value j", ok, st, "pair %s at %s" % (show(x)[:200], show(L)))
                ok = e.prove(s, allof(le(ZERO, k, True), lt(padd(k, ONE), old.ni, True), le(a, L, True), lt(L, b, True)))
                o.ob(rule, "pair j has the key that value j belongs to", ok, st, "key %s at %s" % (show(k)[:200], show(L)))
                return padd(L, ONE)

            def done(e, st, j, L):
                rep.count("ends")
                if not pairs:
                    o.ob(rule, "ends after the last entry", e.eq(st, j, psub(old.ni, ONE)), st, "after %s" % show(j))
                else:
                    s = st.copy()
                    z = old.i(psub(old.ni, ONE))
                    saturate(e, s, [z])
                    o.ob(rule, "ends after the last value of a key", e.eq(s, L, z), st, "after %s" % show(L))
            out, err, hits = steps(r, s, v, nxt, emit, done, effort=1)
            rep.ob("analysed", name + " stepping", err is None and hits["done"], r.where, err or "no end")
            for q in tally:
                tally[q] += hits[q]
            for k2, st, where, what in [x for x in e.out if x[0] == "panic"]:
                rep.bad("no panic", name + " reaches a panic", where, "%s when %s" % (what, facts_of(st)))
        rep.ob("analysed", name + " yields items", tally["emit"] > 0, r.where, "no item")


SORTS = ("sort_by_key", "sort_by", "sort_by_cached_key", "sort", "sort_unstable", "sort_unstable_by", "sort_unstable_by_key")


def sorts_by(e, st, last, clo, et, key):
    """does sorting by this closure put items in the order of key(item)"""
    def ref(n):
        x = mk("sym", n, (e.f.crate, et), ty=et)
        r = ("H", "sort " + n)
        st.mem[r] = x
        return x, mk("ptr", r, ())
    st = st.copy()
    a, pa = ref("a")
    b, pb = ref("b")
    fr = FrameLike()
    if "key" in last:
        out = e.call_value(fr, 0, clo, [pa], st, "", None)
        return bool(out) and all(o[0] == "ret" and e.eq(o[1], o[2], key(a)) for o in out)
    if not last.endswith("_by"):
        return False
    for want, c in ((0, lt(key(a), key(b), True)), (1, eqt(key(a), key(b))), (2, lt(key(b), key(a), True))):
        s = st.copy()
        if not e.assume(s, c):
            continue
        out = e.call_value(fr, 0, clo, [pa, pb], s, "", None)
        if not out or not all(o[0] == "ret" and e.prove(o[1], eqt(dcr(o[2]), num(want))) for o in out):
            return False
    return True


class FrameLike:
    fid, depth = 0, 0


@check("R03", floors={"functions": 5, "sorts": 1}, technique="abstract interpretation of the builder, for an arbitrary reported value, with loop invariants found and proved inductive",
       rule="finish files every reported value under its key, in the order reported, and leaves no other values and no keys beyond the largest")
def r03(facts, rep):
    f = facts["trellis"]
    B = "trellis::ramp_table::RampTableBuilder"
    rule = "as a list of pairs"
    for name, trait in (("new", None), ("with_capacity", None), ("default", "Default")):
        if not methods(f, B, name, trait):
            continue
        r = run(f, method(f, B, name, trait), name="RampTableBuilder::" + name)
        if usable(rep, r):
            for s, v in r.rets:
                if v.ty is None:
                    v.ty = r.body["locals"][0][0]
                rep.ob(rule, name + " has no pairs", r.e.eq(s, length(get(r.e, v, "items")), ZERO), r.where, show(v)[:200])
            no_panic(rep, r, "no panic")
    for name in ("push", "extend"):
        r = run(f, method(f, B, name), name="RampTableBuilder::" + name)
        if not usable(rep, r):
            continue
        e = r.e
        for s, v in r.rets:
            old = get(e, at(e, St(), r.args[0]), "items")
            new = get(e, at(e, s, r.args[0]), "items")
            n = length(old)
            et = e.ti(old.ty)["a"][0]
            it = r.args[1]
            if name == "push":
                more, src = ONE, lambda j: None
            else:
                more, src = mk("ulen", it, ty=e.usize), lambda j: mk("item", it, j, ty=et)
            ok = e.eq(s, length(new), padd(n, more))
            k = k_(e)
            s2 = s.copy()
            if ok and e.assume(s2, band(ge0(k, True), lt(k, n, True))):
                ok = e.eq(s2, e.sel(s2, arrof(new), k, et), e.sel(s2, arrof(old), k, et))
            s2 = s.copy()
            if ok and e.assume(s2, band(le(n, k, True), lt(k, padd(n, more), True))):
                x = e.sel(s2, arrof(new), k, et)
                if name == "push":
                    ok = e.eq(s2, fld(x, 0, 0), r.args[1]) and e.eq(s2, fld(x, 0, 1), r.args[2])
                else:
                    ok = e.eq(s2, x, src(psub(k, n)))
            rep.ob(rule, name + " appends to the pairs", ok, r.where, "%s when %s" % (show(new)[:200], facts_of(s)))
        no_panic(rep, r, "no panic")
    finish(f, rep, B, rule)


def finish(f, rep, B, rule):
    from vlib.engine import Eng
    from vlib import models
    e = Eng(f, panics=True)
    box = {}
    J = mk("sym", "J#", (f.crate, e.usize), ty=e.usize)

    def hook(eng, fr, b, cal, path, args, atys, st, span, rty):
        last = path.split("::")[-1]
        if last not in SORTS or not path.startswith(("core::slice", "alloc::slice")):
            return None
        out = models.model(eng, fr, b, cal, path, args, atys, st, span, rty, None)
        for o in out or []:
            s = o[1]
            ev = None
            p, s0, n = eng.as_slice(s, eng.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            S = eng.read(s, p.args[0], p.args[1])
            et = eng.elem(eng.pointee(atys[0])) if eng.pointee(atys[0]) is not None else None
            box.setdefault("sorts", []).append((last, s, s0, n, args[1] if len(args) > 1 else None, et, span))
            key = lambda k: fld(eng.sel(s, S, k, et), 0, 0, box["u32"])
            box.update(S=S, n=n, key=key, val=lambda k: fld(eng.sel(s, S, k, et), 0, 1, box["item"]))
            K = eng.bv(0)
            inside = band(ge0(K, True), lt(K, n, True))
            some = allof(ge0(J, True), lt(J, n, True))
            s.fa = s.fa + ((key(K), K, band(inside, some), bor(lt(J, K, True), le(key(K), key(J), True))),
                           (key(K), K, band(inside, some), bor(lt(K, J, True), le(key(J), key(K), True))),
                           (key(K), K, inside, band(ge0(key(K), True), le(key(K), key(psub(n, ONE)), True))))
            # neighbours, at a read of either
            two = band(ge0(K, True), lt(padd(K, ONE), n, True))
            s.fa = s.fa + ((key(K), K, two, le(key(K), key(padd(K, ONE)), True)), (key(padd(K, ONE)), K, two, le(key(K), key(padd(K, ONE)), True)))
            s.note(bor(eqt(n, ZERO), some))
            s.note(bor(eqt(n, ZERO), lt(key(psub(n, ONE)), num(2 ** 32), True)))
        return out
    e.hooks.append(hook)

    def nums(phis, entry, repl):
        return [p for p in phis.values() if p not in repl and not e.isbool(p) and (p.ty is not None and e.kind(p.ty) == "int")]

    def cand(e, fr, head, st0, backs, W, phis, entry, repl):
        if "S" not in box:
            return []
        out = []
        far = [x for x in e.known(st0) if x.op == "phi" and x.ty is not None and e.kind(x.ty) == "int" and x not in phis.values()][:6]
        ps = nums(phis, entry, repl)

        def add(c):
            if c not in out and e.prove(st0, subst(c, entry), 1):
                out.append(c)
        for t in ps + far:
            k = box["key"](psub(t, ONE))
            add(bor(le(t, J, True), le(box["key"](J), k, True)))
            for q in ps:
                if t is q:
                    continue
                for d in (0, 1):
                    add(bor(le(t, ZERO, True), eqt(psub(q, num(d)), k)))
                    add(bor(le(t, ZERO, True), le(k, psub(q, num(d)), True)))
                    add(bor(lt(ZERO, t, True), eqt(q, num(d))))
                    for lim in (box["key"](psub(box["n"], ONE)), box["key"](t)):
                        add(le(psub(q, num(d)), lim, True))
        return out[:40]

    def quant(e, fr, head, st0, backs, W, phis, entry, repl):
        if "S" not in box:
            return []
        K = e.bv(0)
        out = []
        far = [x for x in e.known(st0) if x.op == "phi" and x.ty is not None and e.kind(x.ty) == "int" and x not in phis.values()][:6]
        lens = [(w, p) for w, p in phis.items() if w[1] and w[1][-1] == ("len",)]
        arrs = [(w, p) for w, p in phis.items() if w[1] and w[1][-1] == ("el",)]
        for w, a in arrs:
            n = next((repl.get(p, p) for w2, p in lens if w2[0] == w[0] and w2[1][:-1] == w[1][:-1]), None)
            if n is None:
                continue
            E = lambda k: mk("sel", a, k, ty=box["u32"])
            inn = allof(ge0(K, True), lt(K, n, True))
            kj = box["key"](J)
            for t in sorted(set(repl.get(x, x) for x in nums(phis, entry, {}) + far), key=lambda x: x.id):
                if t is n:
                    continue
                out.append((E(K), K, inn, le(E(K), t, True)))
                # filed so far: entry K starts at or before J exactly when K is at most J's key
                out.append((E(K), K, allof(inn, lt(J, t, True), le(K, kj, True)), le(E(K), J, True)))
                out.append((E(K), K, allof(inn, lt(J, t, True), lt(kj, K, True)), lt(J, E(K), True)))
            two = allof(ge0(K, True), lt(padd(K, ONE), n, True))
            up = le(E(K), E(padd(K, ONE)), True)
            out.append((E(K), K, two, up))
            out.append((E(K), K, eqt(K, ZERO), eqt(E(K), ZERO)))
            out.append((E(K), K, inn, ge0(E(K), True)))
        return out
    e.cands.append(cand)
    e.qcands.append(quant)

    def pre(e, st, a):
        v = a[0]
        items = get(e, v, "items")
        et = e.ti(items.ty)["a"][0]
        box["n0"], box["items"] = length(items), arrof(items)
        box["u32"], box["item"] = e.ti(et)["a"]
        st.note(lt(length(items), num(2 ** 32), True))
    r = run(f, method(f, B, "finish"), pre=pre, eng=e, name="RampTableBuilder::finish")
    if not usable(rep, r):
        return
    for last, st, s0, n, clo, et, span in box.get("sorts", []):
        rep.count("sorts")
        rep.ob("the pairs are sorted", "finish sorts all pairs", e.eq(st, s0, ZERO) and e.eq(st, n, box["n0"]), span, "%s pairs from %s" % (show(n), show(s0)))
        rep.ob("the order reported", "finish keeps the order of a key's values", "unstable" not in last, span, last)
        rep.ob("the pairs are sorted", "finish sorts by key", clo is not None and sorts_by(e, st, last, clo, et, lambda x: fld(x, 0, 0, box["u32"])), span, last)
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        t = Table(e, s, v)
        when = "%s, index %s; when %s" % (show(t.values)[:120], show(t.index)[:120], facts_of(s))
        n = box["n0"]
        s = s.copy()
        if e.prove(s, eqt(n, ZERO)):
            rep.ob(rule, "finish without pairs makes an empty table", e.eq(s, t.ni, ONE) and e.eq(s, t.nv, ZERO) and e.eq(s, t.i(ZERO), ZERO), r.where, when)
            continue
        if "S" not in box:
            rep.bad("analysed", "finish sorts", r.where, "no sort found")
            continue
        ok = list_is(e, s, t.values, n, lambda k: ((TRUE, box["val"](k)),), t.item)
        rep.ob(rule, "finish keeps every value", ok, r.where, when)
        top = box["key"](psub(n, ONE))
        rep.ob(rule, "finish has the keys up to the largest", e.eq(s, t.ni, padd(top, num(2))), r.where, when)
        rep.ob("well formed", "finish makes a well formed index", wellformed(e, s, t), r.where, when)
        kj = box["key"](J)
        a, b = t.i(kj, s), t.i(padd(kj, ONE), s)
        saturate(e, s, [a, b, kj])
        rep.ob(rule, "finish files a value under its key", e.prove(s, allof(le(a, J, True), lt(J, b, True))), r.where, when)
    no_panic(rep, r, "no panic")
