"""V01 to V08: the optional-item vector against Vec<Option<T>>. Its view at k is Some(vec[k]) where present[k], else None."""
from vlib.core import check, Anchor
from vlib.spec import *

VO = "trellis::vec_option::VecOption"
TECH = "abstract interpretation of every operation, compared slot by slot with the operation on Vec<Option<T>>"


class View:
    """the abstract value of an optional-item vector"""

    def __init__(self, e, st, v):
        t = v.ty
        x = e.ti(t) if t is not None else {}
        d = x.get("d") or (v.args[0] if v.op == "agg" else None)
        a = e.f.adts.get(d)
        if a is None or d != VO:
            raise Anchor("the type of an optional-item vector")
        fs = x["vf"][0] if x.get("vf") else None
        if fs is None or len(fs) != 2:
            raise Anchor("two fields in the optional-item vector")
        iv = [i for i, ft in enumerate(fs) if (e.ti(ft).get("d") or "").endswith("::Vec")]
        ib = [i for i, ft in enumerate(fs) if (e.ti(ft).get("d") or "").endswith("BitVec")]
        if len(iv) != 1 or len(ib) != 1:
            raise Anchor("a vector and a bit vector in the optional-item vector")
        self.e, self.st, self.v = e, st, v
        self.iv, self.ib = iv[0], ib[0]
        self.vec, self.bits = fld(v, 0, iv[0], fs[iv[0]]), fld(v, 0, ib[0], fs[ib[0]])
        for q, ft in ((self.vec, fs[iv[0]]), (self.bits, fs[ib[0]])):
            if q.ty is None and q.op not in ("n", "poly", "b"):
                q.ty = ft
        self.n, self.nb = length(self.vec), length(self.bits)
        self.item = e.ti(fs[iv[0]])["a"][0]

    def p(self, k, st=None):
        return self.e.sel(st or self.st, arrof(self.bits), k, self.e.boolt)

    def x(self, k, st=None):
        return self.e.sel(st or self.st, arrof(self.vec), k, self.item)


def tied(e, st, v):
    """the value with one length for both arrays"""
    w = View(e, st, v)
    fs = [None, None]
    fs[w.iv], fs[w.ib] = w.vec, vec(arrof(w.bits), w.n, ty=w.bits.ty)
    return mk("agg", VO, 0, *fs, ty=v.ty)


def holding(e, v):
    """the optional-item vector inside a value (itself, or the field or pointee of an iterator over one)"""
    x = e.ti(v.ty) if v.ty is not None else {}
    return x.get("d") == VO


def selfpre(byval=False, more=None):
    def pre(e, st, a):
        if byval:
            a[0] = tied(e, st, a[0])
        else:
            e.write(st, ("P", a[0]), (), tied(e, st, at(e, st, a[0])))
        if more:
            more(e, st, a)
    return pre


def k_(e, n="k"):
    return mk("sym", n + "#", (e.f.crate, e.usize), ty=e.usize)


def same_slots(rep, rule, key, r, s, new, n2, exp):
    """the new view has n2 slots and slot k is exp(k) = (present, value)"""
    e = r.e
    rep.ob(rule, key + ": length", e.eq(s, new.n, n2) and e.eq(s, new.nb, n2), r.where,
           "lengths %s and %s where %s is required, when %s" % (show(new.n), show(new.nb), show(n2), facts_of(s)))
    k = k_(e)
    s2 = s.copy()
    if not e.assume(s2, band(ge0(k, True), lt(k, n2, True))):
        return
    p, x = exp(k)
    saturate(e, s2, [p, x, new.p(k), new.x(k)])
    okp = e.eq(s2, new.p(k, s2), p)
    s3 = s2.copy()
    okx = True
    if e.assume(s3, p):
        okx = e.eq(s3, new.x(k, s3), x)
    rep.ob(rule, key + ": items", okp and okx, r.where,
           "slot k holds (%s, %s) where (%s, %s) is required, when %s" % (show(new.p(k))[:120], show(new.x(k))[:120], show(p)[:120], show(x)[:120], facts_of(s)))


def facts_of(s):
    return " & ".join(show(x) for x in s.facts)[:400] or "always"


def is_some(e, s, v):
    return eqt(dcr(v), ONE) if v.op != "agg" else boolc(v.args[1] == 1)


def payload(v, t=None):
    return v.args[2] if v.op == "agg" and len(v.args) > 2 else fld(v, 1, 0, t)


def opt_is(e, s, v, p, x):
    """v is the optional value (p ? Some(x) : None)"""
    for c, want in ((p, 1), (bnot(p), 0)):
        s2 = s.copy()
        if not e.assume(s2, c):
            continue
        if want == 0:
            if not e.prove(s2, bnot(is_some(e, s2, v))):
                return False
        else:
            if not e.prove(s2, is_some(e, s2, v)):
                return False
            y = payload(v)
            if y is not x and not e.eq(s2, y, x):
                return False
    return True


def ptr_is(e, s, y, me, k):
    """y points to slot k of the items of the vector behind `me` (root, projections to the vector value)"""
    if y.op != "ptr":
        return False
    root, projs = y.args
    if root != me.root or projs[:len(me.projs)] != me.projs:
        return False
    rest = projs[len(me.projs):]
    return (len(rest) == 3 and rest[0][:3] == ("f", 0, me.iv) and rest[1] == ("el",) and rest[2][0] == "ix" and e.eq(s, rest[2][1], k))


class Op:
    """one analysed operation"""

    def __init__(self, f, rep, name, trait=None, adt=VO, byval=False, more=None, **kw):
        m = method(f, adt, name, trait)
        self.r = r = run(f, m, pre=selfpre(byval, more), name="VecOption::" + name, **kw)
        self.ok = usable(rep, r)
        e = r.e
        me = r.args[0]
        self.old = View(e, r.pre, me if byval else at(e, r.pre, me))
        self.me = me
        self.root, self.projs, self.iv = ("P", me), (), self.old.iv

    def new(self, s):
        return View(self.r.e, s, at(self.r.e, s, self.r.args[0]))


def unchanged(e, s, old, new):
    return new.v is old.v or (new.vec is old.vec and new.bits is old.bits)


def access(f, rep):
    out = []

    def op(name, idx=(1,), **kw):
        o = Op(f, rep, name, **kw)
        o.idx = idx
        out.append((name, o))
        return o if o.ok else None
    rule = "as Vec<Option<T>>"
    # reads
    for name in ("get_ref", "get_mut", "get_copy", "get_clone"):
        o = op(name)
        if not o:
            continue
        e, i = o.r.e, o.r.args[1]
        for s, v in o.r.rets:
            ok = opt_is(e, s, v, o.old.p(i), payload(v) if name in ("get_ref", "get_mut") else o.old.x(i))
            if name in ("get_ref", "get_mut") and not e.prove(s, bnot(is_some(e, s, v))):
                ok = ok and ptr_is(e, s, payload(v), o, i)
            rep.ob(rule, name + " gives the item at the index", ok, o.r.where, "returns %s when %s" % (show(v)[:200], facts_of(s)))
            rep.ob(rule, name + " changes nothing", unchanged(e, s, o.old, o.new(s)), o.r.where, show(o.new(s).v)[:300])
    # writes
    for name, kind in (("replace", "opt"), ("replace_some", "some"), ("replace_none", "none"), ("set", "opt"), ("set_some", "some"), ("set_none", "none")):
        o = op(name)
        if not o:
            continue
        e, i = o.r.e, o.r.args[1]
        for s, v in o.r.rets:
            if name.startswith("replace"):
                rep.ob(rule, name + " returns the old item", opt_is(e, s, v, o.old.p(i), o.old.x(i)), o.r.where, "returns %s when %s" % (show(v)[:200], facts_of(s)))

            def exp(k, o=o, i=i, s=s):
                val = o.r.args[2] if len(o.r.args) > 2 else None
                at_ = eqt(k, i)
                np = {"none": FALSE, "some": TRUE, "opt": None}[kind]
                if np is None:
                    np = is_some(e, s, val)
                    val = payload(val, o.old.item)
                p = bor(band(at_, np), band(bnot(at_), o.old.p(k)))
                x = val if val is not None else o.old.x(k)
                return p, at_, x
            # decide the slot at the index and the others separately
            new = o.new(s)
            rep.ob(rule, name + " keeps the length", e.eq(s, new.n, o.old.n) and e.eq(s, new.nb, o.old.n), o.r.where, show(new.n))
            k = k_(e)
            s2 = s.copy()
            if e.assume(s2, allof(ge0(k, True), lt(k, o.old.n, True), bnot(eqt(k, i)))):
                okp = e.eq(s2, new.p(k, s2), o.old.p(k, s2))
                s3 = s2.copy()
                okx = not e.assume(s3, o.old.p(k, s3)) or e.eq(s3, new.x(k, s3), o.old.x(k, s3))
                rep.ob(rule, name + " keeps the other items", okp and okx, o.r.where, "slot k becomes (%s, %s)" % (show(new.p(k))[:150], show(new.x(k))[:150]))
            _, _, val = exp(i)
            np = {"none": FALSE, "some": TRUE}.get(kind)
            if np is None:
                np = is_some(e, s, o.r.args[2])
            okp = e.eq(s, new.p(i, s), np)
            s3 = s.copy()
            okx = not e.assume(s3, np) or e.eq(s3, new.x(i, s3), val)
            rep.ob(rule, name + " stores the new item", okp and okx, o.r.where, "slot index becomes (%s, %s) when %s" % (show(new.p(i))[:150], show(new.x(i))[:150], facts_of(s)))
    o = op("swap", (1, 2))
    if o:
        e, a, b = o.r.e, o.r.args[1], o.r.args[2]
        for s, v in o.r.rets:
            new = o.new(s)
            rep.ob(rule, "swap keeps the length", e.eq(s, new.n, o.old.n) and e.eq(s, new.nb, o.old.n), o.r.where, show(new.n))
            k = k_(e)
            for c, src in ((eqt(k, a), b), (band(bnot(eqt(k, a)), eqt(k, b)), a), (band(bnot(eqt(k, a)), bnot(eqt(k, b))), k)):
                s2 = s.copy()
                if not e.assume(s2, allof(ge0(k, True), lt(k, o.old.n, True), c)):
                    continue
                okp = e.eq(s2, new.p(k, s2), o.old.p(src, s2))
                s3 = s2.copy()
                okx = not e.assume(s3, o.old.p(src, s3)) or e.eq(s3, new.x(k, s3), o.old.x(src, s3))
                rep.ob(rule, "swap exchanges the two items and keeps the others", okp and okx, o.r.where, "slot k becomes (%s, %s) when %s" % (show(new.p(k))[:150], show(new.x(k))[:150], facts_of(s2)))
    for name in ("len", "is_empty"):
        o = op(name, ())
        if o:
            e = o.r.e
            for s, v in o.r.rets:
                want = o.old.n if name == "len" else eqt(o.old.n, ZERO)
                rep.ob(rule, name + " counts every slot", e.eq(s, v, want) and unchanged(e, s, o.old, o.new(s)), o.r.where, show(v))
    return out


@check("V01", floors={"functions": 13}, technique=TECH,
       rule="for every index in range each access operation returns and leaves exactly what the same operation on Vec<Option<T>> does")
def v01(facts, rep):
    f = facts["trellis"]
    for name, o in access(f, rep):
        if o.ok:
            # in range: no panic
            for kind, st, where, what in o.r.e.out:
                s = st.copy()
                ok = not all_in_range(o, s)
                rep.ob("in range", "%s succeeds" % name, ok, where, "%s when %s" % (what, facts_of(st)))


def all_in_range(o, s):
    for i in o.idx:
        if not o.r.e.assume(s, lt(o.r.args[i], o.old.n, True)):
            return False
    return True


@check("V05", floors={"functions": 13}, technique="abstract interpretation of every operation's panicking paths",
       rule="an index out of range panics, and the vector is unchanged at that point")
def v05(facts, rep):
    f = facts["trellis"]
    from vlib.core import Report
    quiet = Report("V05", {})
    for name, o in access(f, quiet):
        rep.count("functions")
        rep.ob("analysed", name, o.ok, o.r.where, o.r.err or "")
        if not o.ok:
            continue
        e = o.r.e
        for i in o.idx:
            for s, v in o.r.rets:
                rep.ob("out of range", "%s returns only for an index in range" % name, e.prove(s, lt(o.r.args[i], o.old.n, True)), o.r.where,
                       "returns %s when %s" % (show(v)[:100], facts_of(s)))
        for kind, st, where, what in e.out:
            new = o.new(st)
            rep.ob("out of range", "%s panics before any change" % name, unchanged(e, st, o.old, new), where, "the vector is %s" % show(new.v)[:300])
            rep.count("panicking paths")


def iterated(eng, fr, b, cal, path, args, atys, st, span, rty):
    """into_iter of a caller's type: the sequence it stands for"""
    if path.endswith("IntoIterator::into_iter") and eng.ti(atys[0])["k"] == "param":
        return [("ret", st, args[0])]
    return None


def built(f, rep, name, trait=None, **kw):
    """a constructor: analysed, and the vectors it returns"""
    r = run(f, method(f, VO, name, trait), name="VecOption::" + name, hooks=[iterated], **kw)
    if not usable(rep, r):
        return r, []
    out = []
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        out.append((s, View(r.e, s, v)))
    return r, out


@check("V02", floors={"functions": 11}, technique=TECH,
       rule="constructors and every growing or shrinking operation leave exactly what the same operation on Vec<Option<T>> leaves, and pop returns the same")
def v02(facts, rep):
    f = facts["trellis"]
    rule = "as Vec<Option<T>>"
    r, vs = built(f, rep, "new")
    for s, w in vs:
        same_slots(rep, rule, "new", r, s, w, ZERO, lambda k: (FALSE, k))
    r, vs = built(f, rep, "with_capacity")
    for s, w in vs:
        same_slots(rep, rule, "with_capacity", r, s, w, ZERO, lambda k: (FALSE, k))
    r, vs = built(f, rep, "new_repeat_none")
    for s, w in vs:
        same_slots(rep, rule, "new_repeat_none", r, s, w, r.args[0], lambda k: (FALSE, k))
    r, vs = built(f, rep, "from_vec")
    for s, w in vs:
        same_slots(rep, rule, "from_vec", r, s, w, length(r.args[0]), lambda k: (TRUE, r.e.sel(s, arrof(r.args[0]), k, w.item)))
    r, vs = built(f, rep, "from_iter", "FromIterator")
    for s, w in vs:
        it = r.args[0]
        same_slots(rep, rule, "from_iter", r, s, w, mk("ulen", it, ty=r.e.usize), lambda k: some_item(r.e, it, k))
    for name in ("push", "push_some", "push_none", "reserve"):
        o = Op(f, rep, name)
        if not o.ok:
            continue
        e, a = o.r.e, o.r.args[1] if len(o.r.args) > 1 else None
        if not o.r.rets:
            rep.bad("returns", name, o.r.where, "never returns")
        for s, v in o.r.rets:
            new = o.new(s)
            if name == "reserve":
                same_slots(rep, rule, name, o.r, s, new, o.old.n, lambda k: (o.old.p(k), o.old.x(k)))
                continue
            n = o.old.n
            rep.ob(rule, name + " adds one slot", e.eq(s, new.n, padd(n, ONE)) and e.eq(s, new.nb, padd(n, ONE)), o.r.where, show(new.v)[:200])
            old_slots(rep, rule, name, o, s, new, n)
            p = {"push": is_some(e, s, a) if a is not None else None, "push_some": TRUE, "push_none": FALSE}[name]
            x = payload(a, o.old.item) if name == "push" else a
            okp = e.eq(s, new.p(n, s), p)
            s3 = s.copy()
            okx = not e.assume(s3, p) or e.eq(s3, new.x(n, s3), x)
            rep.ob(rule, name + " stores the new item last", okp and okx, o.r.where, "the last slot holds (%s, %s) when %s" % (show(new.p(n))[:150], show(new.x(n))[:150], facts_of(s)))
        no_panic(rep, o.r, "no panic")
    o = Op(f, rep, "pop")
    if o.ok:
        e = o.r.e
        for s, v in o.r.rets:
            new = o.new(s)
            n = o.old.n
            for c, some in ((eqt(n, ZERO), False), (gt0(n, True), True)):
                s2 = s.copy()
                if not e.assume(s2, c):
                    continue
                if not some:
                    rep.ob(rule, "pop gives None when empty", e.prove(s2, bnot(is_some(e, s2, v))), o.r.where, show(v)[:200])
                    same_slots(rep, rule, "pop", o.r, s2, new, ZERO, lambda k: (FALSE, k))
                    continue
                last = psub(n, ONE)
                ok = e.prove(s2, is_some(e, s2, v)) and opt_is(e, s2, payload(v), o.old.p(last), o.old.x(last))
                rep.ob(rule, "pop gives the last slot", ok, o.r.where, "returns %s when %s" % (show(v)[:200], facts_of(s2)))
                same_slots(rep, rule, "pop", o.r, s2, new, last, lambda k: (o.old.p(k), o.old.x(k)))
        no_panic(rep, o.r, "no panic")
    o = Op(f, rep, "extend", hooks=[iterated])
    if o.ok:
        e = o.r.e
        it = o.r.args[1]
        m = mk("ulen", it, ty=e.usize)
        n = o.old.n
        for s, v in o.r.rets:
            new = o.new(s)
            rep.ob(rule, "extend adds one slot per item", e.eq(s, new.n, padd(n, m)) and e.eq(s, new.nb, padd(n, m)), o.r.where, "length %s when %s" % (show(new.n), facts_of(s)))
            old_slots(rep, rule, "extend", o, s, new, n)
            s2 = s.copy()
            k = k_(e)
            if e.assume(s2, band(le(n, k, True), lt(k, padd(n, m), True))):
                p, x = some_item(e, it, psub(k, n))
                slot(rep, rule, "extend stores the items in order", o.r, s2, new, k, p, x)
        no_panic(rep, o.r, "no panic")


def some_item(e, it, j):
    x = mk("item", it, j)
    if x.ty is None:
        # an item of a caller's iterator is an option
        x.ty = next((i for i, t in enumerate(e.f.types) if t["k"] == "adt" and t.get("d", "").endswith("option::Option") and e.f.types[t["a"][0]]["k"] == "param"), None)
    return eqt(dcr(x), ONE), fld(x, 1, 0)


def slot(rep, rule, key, r, s, new, k, p, x):
    """slot k of the new view is (p, x)"""
    e = r.e
    saturate(e, s, [p, new.p(k), new.x(k)])
    okp = e.eq(s, new.p(k, s), p)
    s3 = s.copy()
    okx = not e.assume(s3, p) or e.eq(s3, new.x(k, s3), x)
    rep.ob(rule, key, okp and okx, r.where, "slot k holds (%s, %s) where (%s, %s) is required, when %s" % (show(new.p(k))[:120], show(new.x(k))[:120], show(p)[:120], show(x)[:120], facts_of(s)))


def old_slots(rep, rule, name, o, s, new, n):
    e = o.r.e
    k = k_(e)
    s2 = s.copy()
    if e.assume(s2, band(ge0(k, True), lt(k, n, True))):
        slot(rep, rule, name + " keeps the slots before", o.r, s2, new, k, o.old.p(k), o.old.x(k))


class Rank:
    """C(i): the number of occupied slots before slot i, as a recursive definition"""

    def __init__(self, e, old, st):
        self.e, self.old = e, old
        K = e.bv(0)
        c = self.C
        up = bor(band(old.p(K), eqt(c(padd(K, ONE)), padd(c(K), ONE))), band(bnot(old.p(K)), eqt(c(padd(K, ONE)), c(K))))
        st.note(eqt(c(ZERO), ZERO))
        st.fa = st.fa + ((c(padd(K, ONE)), K, band(ge0(K, True), lt(K, old.n, True)), up),
                         (c(K), K, band(ge0(K, True), le(K, old.n, True)), band(ge0(c(K), True), le(c(K), K, True))))

    def C(self, i):
        return mk("app", "C", self.old.bits, i, ty=self.e.usize)


def ranked(e):
    """loop facts over C: a counter that counts the occupied slots before a position; items moved down to their rank"""
    box = {}

    def ints(e, phis, entry):
        return [p for w, p in phis.items() if p.ty is not None and e.kind(p.ty) == "int" and entry[p].op in ("n", "poly", "len", "phi", "app", "sym")]

    def cand(e, fr, head, st0, backs, W, phis, entry, repl):
        if "c" not in box:
            return []
        c = box["c"]
        rp = lambda t: repl.get(t, t)
        xs = ints(e, phis, entry)
        return [eqt(rp(a), c.C(rp(b))) for a in xs for b in xs if a is not b]

    def q(e, fr, head, st0, backs, W, phis, entry, repl):
        if "c" not in box:
            return []
        c, K = box["c"], e.bv(0)
        old = c.old
        rp = lambda t: repl.get(t, t)
        out = []
        xs = sorted(set(rp(x) for x in ints(e, phis, entry)), key=lambda t: t.id)
        for i in xs:
            inn = allof(ge0(K, True), lt(K, i, True), lt(K, old.n, True))
            out.append((c.C(K), K, band(inn, old.p(K)), lt(c.C(K), c.C(i), True)))
            out.append((old.p(K), K, band(inn, ge0(psub(c.C(i), i), True)), old.p(K)))
            for w, a in phis.items():
                if not w[1] or w[1][-1][0] != "el":
                    continue
                sel = mk("sel", a, c.C(K), ty=old.item)
                out.append((c.C(K), K, band(inn, old.p(K)), eqt(sel, old.x(K))))
        return out
    e.cands.append(cand)
    e.qcands.append(q)
    return box


def compacting(f, rep, name, byval):
    from vlib.engine import Eng
    e = Eng(f, panics=True)
    box = ranked(e)

    def more(e, st, a):
        old = View(e, st, a[0] if byval else at(e, st, a[0]))
        box["c"] = Rank(e, old, st)
        e.always.append(box["c"].C(old.n))
    o = Op(f, rep, name, byval=byval, more=more, eng=e)
    return o, box.get("c")


@check("V09", floors={"functions": 3}, technique="abstract interpretation with a rank function as ghost state and quantified loop invariants",
       rule="compacting keeps exactly the occupied items in order; pop_some removes the last occupied slot and the empty ones after it")
def v09(facts, rep):
    f = facts["trellis"]
    rule = "keeps the occupied items in order"
    for name, byval in (("compact", False), ("some_into_vec", True)):
        o, c = compacting(f, rep, name, byval)
        if not o.ok:
            continue
        e, old = o.r.e, o.old
        if not o.r.rets:
            rep.bad("returns", name, o.r.where, "never returns")
        for s, v in o.r.rets:
            if byval:
                n, P, X = length(v), None, lambda j, s: e.sel(s, arrof(v), j, old.item)
            else:
                new = o.new(s)
                n, P, X = new.n, new.p, lambda j, s: new.x(j, s)
                rep.ob(rule, name + ": both arrays have one length", e.eq(s, new.nb, n), o.r.where, "%s and %s" % (show(new.nb), show(n)))
                ok = v.op == "slc" and e.eq(s, v.args[1], ZERO) and e.eq(s, v.args[2], n) and v.args[0].op == "ptr" and v.args[0].args[0] == o.root and \
                    v.args[0].args[1][:1] and v.args[0].args[1][0][:3] == ("f", 0, old.iv) and v.args[0].args[1][1:] in ((), (("el",),))
                rep.ob(rule, name + " returns the items", ok, o.r.where, show(v)[:200])
            saturate(e, s, [c.C(old.n), n])
            rep.ob(rule, name + ": as many slots as there were items", e.eq(s, n, c.C(old.n)), o.r.where, "length %s when %s" % (show(n), facts_of(s)))
            k = k_(e)
            s2 = s.copy()
            if e.assume(s2, allof(ge0(k, True), lt(k, old.n, True), old.p(k))):
                x = X(c.C(k), s2)
                saturate(e, s2, [c.C(k), c.C(old.n), x, old.p(k)])
                rep.ob(rule, name + ": item at its rank", e.eq(s2, x, old.x(k)), o.r.where, "the slot at the rank of k holds %s when %s" % (show(x)[:150], facts_of(s)))
                rep.ob(rule, name + ": ranks are slots", e.prove(s2, band(ge0(c.C(k), True), lt(c.C(k), n, True))), o.r.where, "when %s" % facts_of(s2))
            if P is not None:
                s3 = s.copy()
                if e.assume(s3, band(ge0(k, True), lt(k, n, True))):
                    saturate(e, s3, [P(k), old.p(k), c.C(k), c.C(old.n)])
                    rep.ob(rule, name + ": no empty slot is left", e.prove(s3, P(k, s3)), o.r.where, "slot k is occupied when %s, and %s" % (show(P(k))[:120], facts_of(s)))
        no_panic(rep, o.r, "no panic")
    o = Op(f, rep, "pop_some")
    rule = "removes the last occupied slot"
    if o.ok:
        e, old, n = o.r.e, o.old, o.old.n
        k = k_(e)
        for s, v in o.r.rets:
            new = o.new(s)
            m = new.n
            rep.ob(rule, "pop_some shortens", e.prove(s, band(ge0(m, True), le(m, n, True))) and e.eq(s, new.nb, m), o.r.where, "length %s when %s" % (show(m), facts_of(s)))
            s2 = s.copy()
            if e.assume(s2, band(ge0(k, True), lt(k, m, True))):
                slot(rep, rule, "pop_some keeps the slots before", o.r, s2, new, k, old.p(k), old.x(k))
            for some in (True, False):
                s2 = s.copy()
                if not e.assume(s2, is_some(e, s2, v) if some else bnot(is_some(e, s2, v))):
                    continue
                if some:
                    rep.ob(rule, "pop_some gives the item", e.prove(s2, lt(m, n, True)) and e.prove(s2, old.p(m)) and e.eq(s2, payload(v), old.x(m)), o.r.where, "returns %s when %s" % (show(v)[:200], facts_of(s2)))
                else:
                    rep.ob(rule, "pop_some gives None on an empty vector only", e.eq(s2, m, ZERO), o.r.where, "length %s when %s" % (show(m), facts_of(s2)))
                lo = padd(m, ONE) if some else m
                if e.assume(s2, band(le(lo, k, True), lt(k, n, True))):
                    p = old.p(k)
                    saturate(e, s2, [p])
                    rep.ob(rule, "pop_some drops empty slots only", e.prove(s2, bnot(p)), o.r.where, "slot k was occupied when %s" % facts_of(s2))
        no_panic(rep, o.r, "no panic")


def none_between(e, st, old, lo, hi):
    k = k_(e, "m")
    s = st.copy()
    if not e.assume(s, band(le(lo, k, True), lt(k, hi, True))):
        return True
    p = old.p(k)
    saturate(e, s, [p])
    return e.prove(s, bnot(p))


def all_between(e, st, old, lo, hi):
    k = k_(e, "m")
    s = st.copy()
    if not e.assume(s, band(le(lo, k, True), lt(k, hi, True))):
        return True
    p = old.p(k)
    saturate(e, s, [p])
    return e.prove(s, p)


@check("V06", floors={"functions": 8}, technique="abstract interpretation of every iterator's stepping loop with a ghost position and quantified invariants",
       rule="iterators yield the slots (or the occupied ones, or the maximal occupied runs) exactly once, in order, up to the end")
def v06(facts, rep):
    from vlib.iterate import steps
    f = facts["trellis"]

    def go(name, kind, byval=False, trait=None):
        o = Op(f, rep, name, trait, byval=byval)
        if not o.ok:
            return
        r, e, old = o.r, o.r.e, o.old
        nxt = r.body.get("retnext")
        rep.ob("is an iterator", name, bool(nxt), r.where, "the returned value's next cannot be resolved")
        if not nxt:
            return
        n = old.n

        def ref(e, st, y, i):
            return ptr_is(e, st, y, o, i) if not byval else e.eq(st, y, old.x(i))

        def ob(key, ok, st, what=""):
            rep.ob("yields " + kind, "%s: %s" % (name, key), ok, r.where, "%s when %s" % (what, facts_of(st)))

        def emit(e, st, j, L, x):
            if e is not None:
                saturate(e, st, [])
            if kind == "every slot":
                if e is not None:
                    ok = e.prove(st, lt(j, n, True)) and opt_is(e, st, x, old.p(j), payload(x) if not byval else old.x(j))
                    if not byval and not e.prove(st, bnot(is_some(e, st, x))):
                        ok = ok and ref(e, st, payload(x), j)
                    ob("item j is slot j", ok, st, show(x)[:200])
                return L
            if kind == "every run":
                ln = ONE
                at_ = None
                if x.op == "slc" and x.args[0].op == "ptr":
                    ptr, a, ln = x.args
                    pj = ptr.args[1]
                    base = ZERO
                    if pj and pj[-1][0] == "ix":
                        base = padd(pj[-1][1], num(pj[-1][2])) if pj[-1][2] else pj[-1][1]
                        pj = pj[:-1]
                    if ptr.args[0] == o.root and pj[:1] and pj[0][:3] == ("f", 0, old.iv) and pj[1:] in ((), (("el",),)):
                        at_ = padd(base, a)
                if at_ is None:
                    if e is not None:
                        ob("a slice of the items", False, st, show(x)[:200])
                    return L
                if e is not None:
                    end = padd(at_, ln)
                    saturate(e, st, [old.p(end), old.p(at_)])
                    ob("nothing occupied is skipped", e.prove(st, le(L, at_, True)) and none_between(e, st, old, L, at_), st, show(x)[:200])
                    ob("a run is occupied and not empty", e.prove(st, gt0(ln, True)) and e.prove(st, le(end, n, True)) and all_between(e, st, old, at_, end), st, show(x)[:200])
                    ob("a run is maximal", e.prove(st, bor(eqt(end, n), bnot(old.p(end)))), st, show(x)[:200])
                return padd(at_, ln)
            # occupied slots
            if kind == "every occupied slot with its index":
                i, y = fld(x, 0, 0, e.usize if e else None), fld(x, 0, 1)
                if i.ty is None and i.op not in ("n", "poly"):
                    i.ty = r.e.usize
            else:
                y = x
                i = x.args[1] if x.op == "sel" else None
                if i is None:
                    if e is not None:
                        ob("an item of the vector", False, st, show(x)[:200])
                    return L
            if e is not None:
                ob("nothing occupied is skipped", e.prove(st, le(L, i, True)) and none_between(e, st, old, L, i), st, show(x)[:200])
                ob("the item is that slot's", e.prove(st, lt(i, n, True)) and e.prove(st, old.p(i)) and ref(e, st, y, i), st, show(x)[:200])
            return padd(i, ONE)

        def done(e, st, j, L):
            saturate(e, st, [])
            if kind == "every slot":
                ob("stops after the last slot", e.eq(st, j, n), st, "stops at %s" % show(j))
            else:
                ob("stops after the last occupied slot", none_between(e, st, old, L, n), st, "stops at %s" % show(L))
        for s, v in r.rets:
            if v.ty is None:
                v.ty = r.body["locals"][0][0]
            out, err, hits = steps(r, s, v, nxt, emit, done)
            rep.ob("analysed", name + " stepping", err is None and hits["emit"] and hits["done"], r.where, err or "no item or no end: %s" % hits)
            rep.count("outcomes", hits["emit"] + hits["done"])
        no_panic(rep, r, "no panic")
    go("iter", "every slot")
    go("iter_mut", "every slot")
    go("into_iter", "every slot", True, "IntoIterator")
    go("iter_some_index", "every occupied slot with its index")
    go("iter_some_index_mut", "every occupied slot with its index")
    go("into_some_iter", "every occupied slot", True)
    go("iter_runs", "every run")
    go("iter_runs_mut", "every run")


def bound_start(e, d, x):
    return {0: x, 1: padd(x, ONE), 2: ZERO}[d]


def bound_end(e, d, x, n):
    return {0: padd(x, ONE), 1: x, 2: n}[d]


def drain_limits(r, old):
    """the range drained, from the bounds the argument gives: state -> (start, end)"""
    e, rng = r.e, r.args[1]

    def side(st, b):
        for d in (0, 1, 2):
            if e.prove(st, eqt(dcr(b), num(d))) or d == 2:
                if d == 2:
                    return d, ZERO
                v = e.read(st, *e.deref(st, fld(b, d, 0)))
                if v.op == "deref" and v.ty is None:
                    v.ty = e.usize
                return d, v

    def limits(st):
        (ds, xs), (de, xe) = (side(st, mk("app", nm, rng)) for nm in ("start_bound", "end_bound"))
        return bound_start(e, ds, xs), bound_end(e, de, xe, old.n)
    return limits


@check("V07", floors={"functions": 1, "outcomes": 20}, technique="abstract interpretation of draining with a ghost position, dropped at every point, and quantified loop invariants",
       rule="draining yields the slots of the range in order and, wherever the iterator is dropped, removes exactly the range")
def v07(facts, rep):
    from vlib.iterate import steps
    from vlib.engine import Unsup
    f = facts["trellis"]
    o = Op(f, rep, "drain")
    if not o.ok:
        return
    r, e, old = o.r, o.r.e, o.old
    nxt = r.body.get("retnext")
    rep.ob("is an iterator", "drain", bool(nxt), r.where, "the returned value's next cannot be resolved")
    if not nxt:
        return
    n = old.n
    limits = drain_limits(r, old)
    rule = "drains the range"

    def ob(key, ok, st, what=""):
        rep.ob(rule, "drain: " + key, ok, r.where, "%s when %s" % (what, facts_of(st)))

    # it panics only when the range is not inside the vector, and then nothing has changed
    for _, st, where, what in [x for x in e.out if x[0] == "panic"]:
        S, E_ = limits(st)
        ob("panics only when the range is not in the vector", e.prove(st, bor(gt0(psub(S, E_), True), gt0(psub(E_, n), True))), st, what)
        ob("changes nothing before it panics", unchanged(e, st, old, o.new(st)), st, what)
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        S, E_ = limits(s)
        ob("returns only when the range is in the vector", e.prove(s, le(S, E_, True)) and e.prove(s, le(E_, n, True)), s, "")
        d = f.adts.get(v.args[0]) if v.op == "agg" else None
        dr = method(f, v.args[0], "drop", "Drop") if d and d.get("drop") else None
        ob("has a destructor", dr is not None, s, show(v)[:100])
        if dr is None:
            continue
        w = psub(E_, S)

        def emit(e, st, j, L, x):
            if e is not None:
                saturate(e, st, [old.p(padd(S, j))])
                ob("gives slot j of the range", e.prove(st, lt(j, w, True)) and opt_is(e, st, x, old.p(padd(S, j)), old.x(padd(S, j))), st, show(x)[:200])
            return padd(j, ONE)

        def done(e, st, j, L):
            ob("ends after the last slot of the range", e.eq(st, j, w), st, "after %s items" % show(j))
            dropped(e, st, j, L, None)

        def dropped(e, st, j, L, it):
            if it is None:
                return
            try:
                outs = e.run(body(f, dr), [it], st.copy())
            except Unsup as x:
                rep.ob("analysed", "drain: dropping", False, r.where, str(x))
                return
            m = psub(n, w)
            e.lg.DEPTH = 6
            for k, s2, _ in outs:
                if k != "ret":
                    ob("dropping does not panic", False, s2, k)
                    continue
                new = o.new(s2)
                for c in (le(w, ZERO, True), gt0(w, True)):
                    s3 = s2.copy()
                    if not e.assume(s3, c):
                        continue
                    rep.count("outcomes")
                    ob("the vector is shorter by the range", e.eq(s3, new.n, m) and e.eq(s3, new.nb, m), s3, "lengths %s and %s" % (show(new.n), show(new.nb)))
                    k = k_(e)
                    for c2, src, key in ((lt(k, S, True), k, "the slots before the range stay"), (le(S, k, True), padd(k, w), "the slots after the range close up")):
                        s4 = s3.copy()
                        if not e.assume(s4, allof(le(ZERO, k, True), lt(k, m, True), c2)):
                            continue
                        p, x = old.p(src), old.x(src)
                        saturate(e, s4, [p, x, new.p(k), new.x(k)])
                        okp = e.eq(s4, new.p(k, s4), p)
                        s5 = s4.copy()
                        okx = not e.assume(s5, p) or e.eq(s5, new.x(k, s5), x)
                        ob(key, okp and okx, s4, "slot k holds (%s, %s)" % (show(new.p(k))[:150], show(new.x(k))[:150]))
        n0 = len(e.out)
        out, err, hits = steps(r, s, v, nxt, emit, done, dropped)
        rep.ob("analysed", "drain stepping", err is None and hits["emit"] and hits["done"] and hits["partial"], r.where, err or "no item or no end: %s" % hits)
        for x in e.out[n0:]:
            if x[0] == "panic":
                ob("stepping and dropping do not panic", False, x[1], x[3])
        rep.count("outcomes", hits["emit"] + hits["done"] + hits["partial"])
