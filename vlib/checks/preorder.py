"""G07: depth-first traversal.  One step of the iterator from any state: the next entry of the deepest list that is not finished."""
from vlib.core import check, Anchor
from vlib.engine import Eng
from vlib import models
from vlib.spec import *
from vlib.checks.vecoption import facts_of, k_
from vlib.checks.tables import Table, ramp


def stack_of(e, v):
    """fields of the iterator: the table, the stack of slice iterators"""
    fs = e.ti(v.ty)["vf"][0]
    fs = [x[0] if isinstance(x, (list, tuple)) else x for x in fs]
    g = [i for i, t in enumerate(fs) if e.ti(t)["k"] == "ref"]
    s = [i for i, t in enumerate(fs) if e.is_vec(t) and "Iter" in str(e.ti(e.elem(t)))]
    if len(g) != 1 or len(s) != 1:
        raise Anchor("the traversal's state: a table and a stack of slice iterators")
    return g[0], fs[g[0]], s[0], fs[s[0]]


def over(e, ptr):
    i, t = fieldno(e, e.pointee(ptr.ty), "values")
    return (mk("cst", "slice", e.elem(t)), mk("ptr", ("P", ptr), (("f", 0, i, t), ("el",))))


def table(e, st, g):
    t = ramp(e, st, at(e, st, g), both=True)
    nv = psub(t.ni, ONE)
    K = e.bv(0)
    st.note(eqt(t.i(nv), t.nv))
    x = t.x(K)
    st.fa = st.fa + ((x, K, allof(ge0(K, True), lt(K, t.nv, True)), allof(ge0(x, True), lt(x, nv, True))),)
    return t, nv


@check("G07", floors={"functions": 2}, technique="abstract interpretation of one step of the traversal from an arbitrary stack of stored iterators, with an inductive loop invariant",
       rule="the traversal starts with the start's list; a step yields the next entry of the deepest unfinished list and then goes into that entry's list")
def g07(fs, rep):
    f = fs["trellis"]
    rule = "start"
    e = Eng(f, panics=True)
    box = {}

    def pre(e, st, a):
        box["t"], box["nv"] = table(e, st, a[0])
        box["c"] = models.Cursor(e, over(e, a[0]))
        for c in (ge0(a[1], True), lt(a[1], box["nv"], True)):
            st.note(c)
    r = run(f, fn(f, "trellis::traverse_depth_first_preorder"), pre=pre, eng=e, name="traverse_depth_first_preorder")
    if not usable(rep, r):
        return
    t, nv, c, start = box["t"], box["nv"], box["c"], r.args[1]
    no_panic(rep, r, rule)
    name = None
    for s, v in r.rets:
        if v.op != "agg":
            rep.ob(rule, "the traversal's state is built", False, r.where, show(v))
            return
        name = v.args[0]
        gi, gt, si, stt = stack_of(e, v)
        S = fld(v, 0, si)
        rep.ob(rule, "there is one list", e.eq(s, length(S), ONE), r.where, show(S))
        i = e.sel(s, arrof(S), ZERO, e.elem(stt))
        rep.ob(rule, "it is that of the start", c.own(i) and e.eq(s, c.pos(i), t.i(start, s)) and e.eq(s, c.end(i), t.i(padd(start, ONE), s)), r.where, show(i))
        rep.ob(rule, "the table is the one given", e.deref(s, fld(v, 0, gi)) == e.deref(s, r.args[0]), r.where, show(v))
    m = [x for x in f.fns if x["name"] == "next" and x.get("self") is not None and (x.get("trait") or "").endswith("Iterator") and selfname(f, x).split("::")[-1] == str(name).split("::")[-1]]
    if len(m) != 1:
        raise Anchor("next of %s (found %d)" % (name, len(m)))
    for case in ("some left", "none left"):
        step(f, rep, m[0], case)


def step(f, rep, m, case):
    rule = "step: " + case
    e = Eng(f, panics=True)
    box = {}
    J = mk("sym", "deepest#", ("ghost", e.usize), ty=e.usize)

    def pre(e, st, a):
        v = at(e, st, a[0])
        gi, gt, si, stt = stack_of(e, v)
        g = fld(v, 0, gi, ty=gt)
        t, nv = table(e, st, g)
        c = models.Cursor(e, over(e, g))
        S = fld(v, 0, si, ty=stt)
        n, A, et = length(S), arrof(S), e.elem(stt)
        K = e.bv(0)
        i = mk("sel", A, K, ty=et)
        inn = allof(ge0(K, True), lt(K, n, True))
        for pat, q in ((c.base(i), eqt(c.base(i), ONE)), (c.pos(i), allof(ge0(c.pos(i), True), le(c.pos(i), c.end(i), True), le(c.end(i), t.nv, True)))):
            st.fa = st.fa + ((pat, K, inn, q),)
        done = eqt(c.pos(i), c.end(i))
        if case == "some left":
            j = mk("sel", A, J, ty=et)
            for x in (ge0(J, True), lt(J, n, True), lt(c.pos(j), c.end(j), True), le(c.end(j), t.nv, True), eqt(c.base(j), ONE), ge0(c.pos(j), True)):
                st.note(x)
            st.fa = st.fa + ((c.pos(i), K, eqt(K, J), allof(eqt(c.pos(i), c.pos(j)), eqt(c.end(i), c.end(j)))),)
            inn = band(inn, lt(J, K, True))
        st.fa = st.fa + ((c.pos(i), K, inn, done), (c.end(i), K, inn, done))
        box.update(t=t, nv=nv, c=c, n=n, A=A, et=et, si=si, stt=stt, gi=gi, g=g, arg=a[0])

    def cand(e, fr, head, st0, backs, W, phis, entry, repl):
        out = []
        for w, p in phis.items():
            if w[1] and w[1][-1] == ("len",) or p.ty is not None and p.ty >= 0 and e.kind(p.ty) == "int":
                p = repl.get(p, p)
                out += [lt(J, p, True), le(J, p, True), le(p, box["n"], True)]
        return [x for x in out if e.prove(st0, subst(x, entry), 1)]
    e.cands.append(cand)
    inst = e.inst

    def recent(st, b, *x, **k):
        """what was read last counts as well"""
        e.always = [y for y in list(st.facts)[-8:]]
        return inst(st, b, *x, **k)
    e.inst = recent
    r = run(f, m, pre=pre, eng=e, name="next")
    if not usable(rep, r):
        return
    t, nv, c, n, A, et, si = (box[k] for k in ("t", "nv", "c", "n", "A", "et", "si"))
    no_panic(rep, r, rule)
    seen = 0
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        none = e.decide(s, eqt(dcr(v), ZERO))
        if case == "none left":
            rep.ob(rule, "the traversal ends", none is True, r.where, show(v))
            continue
        seen += 1
        if none is not False:
            rep.ob(rule, "the traversal goes on", False, r.where, facts_of(s))
            continue
        j = mk("sel", A, J, ty=et)
        x = t.x(c.pos(j), s)
        saturate(e, s, [x])
        got = fld(v, 1, 0)
        rep.ob(rule, "it yields the next entry of the deepest unfinished list", e.eq(s, got, x), r.where, "%s when %s" % (show(got), facts_of(s)))
        now = at(e, s, box["arg"])
        S = fld(now, 0, si, ty=box["stt"])
        B = arrof(S)
        if e.eq(s, length(S), padd(J, ONE)):
            rep.ob(rule, "only an empty list is left out", e.eq(s, t.i(x, s), t.i(padd(x, ONE), s)), r.where, facts_of(s))
            cur = e.sel(s, B, J, et)
            rep.ob(rule, "the entry is gone from its list", c.own(cur) and e.eq(s, c.pos(cur), padd(c.pos(j), ONE)) and e.eq(s, c.end(cur), c.end(j)), r.where, show(cur))
            continue
        rep.ob(rule, "the lists below are the same, and one is added", e.eq(s, length(S), padd(J, num(2))), r.where, show(length(S)))
        top, cur = e.sel(s, B, padd(J, ONE), et), e.sel(s, B, J, et)
        rep.ob(rule, "the list added is that of the entry", c.own(top) and e.eq(s, c.pos(top), t.i(x, s)) and e.eq(s, c.end(top), t.i(padd(x, ONE), s)), r.where, show(top))
        rep.ob(rule, "the entry is gone from its list", c.own(cur) and e.eq(s, c.pos(cur), padd(c.pos(j), ONE)) and e.eq(s, c.end(cur), c.end(j)), r.where, show(cur))
        k = k_(e)
        s2 = s.copy()
        if e.assume(s2, allof(ge0(k, True), lt(k, J, True))):
            rep.ob(rule, "the lists below are not changed", e.eq(s2, e.sel(s2, B, k, et), e.sel(s2, A, k, et)), r.where, show(e.sel(s2, B, k, et)))
        rep.ob(rule, "the table is not changed", e.deref(s, fld(now, 0, box["gi"])) == e.deref(s, box["g"]), r.where, "")
    if case == "some left":
        rep.ob(rule, "outcomes were seen", seen > 0, r.where, "")
