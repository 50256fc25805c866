"""H01, H02: counting and marking vertices.  C(v, j): how often v is among the first j items, as a recursive definition."""
from vlib.core import check, Anchor
from vlib.engine import Eng
from vlib.spec import *
from vlib.checks.vecoption import facts_of, k_
from vlib.checks.tables import Table, ramp, wellformed, list_is


class Count:
    """C(v, j): the number of places i < j with item(i) = v, among n items"""

    def __init__(self, e, name, item, n):
        self.e, self.name, self.item, self.n = e, name, item, n
        self.tag = mk("sym", name, ("ghost", e.usize), ty=e.usize)
        e.lg.axioms.append(self.axiom)

    def C(self, v, j):
        return mk("app", "count", self.tag, v, j, ty=self.e.usize)

    def axiom(self, a):
        if a.op != "app" or a.args[0] != "count" or a.args[1] is not self.tag:
            return []
        v, j = a.args[2], a.args[3]
        out = [ge0(a, True), bor(lt(self.n, j, True), bor(lt(j, ZERO, True), le(a, j, True)))]
        if j is ZERO:
            out.append(eqt(a, ZERO))
        elif j.op != "n":
            out.append(bor(bnot(eqt(j, ZERO)), eqt(a, ZERO)))
        inside = allof(ge0(j, True), le(j, self.n, True))
        if j is not self.n:
            # the rest of the items can only add
            t = self.C(v, self.n)
            out.append(bor(bnot(inside), le(a, t, True)))
            out.append(bor(bnot(inside), le(psub(t, a), psub(self.n, j), True)))
            here = allof(ge0(j, True), lt(j, self.n, True), eqt(self.item(j), v))
            out.append(bor(bnot(here), lt(a, t, True)))
        if j.op == "poly" and toP(j).get((), 0) >= 1:
            i = psub(j, ONE)
            x = self.item(i)
            c = self.C(v, i)
            ok = allof(ge0(i, True), le(j, self.n, True))
            out.append(bor(bnot(ok), bor(bnot(eqt(x, v)), eqt(a, padd(c, ONE)))))
            out.append(bor(bnot(ok), bor(eqt(x, v), eqt(a, c))))
            out.append(bor(bnot(ok), bor(bnot(eqt(x, v)), lt(c, self.C(v, self.n), True))))
        return out


def ints(e, phis, entry, repl):
    """the counters of a loop"""
    r = []
    for w, p in phis.items():
        if p.ty is not None and p.ty >= 0 and e.kind(p.ty) == "int" or (p.ty is None or p.ty < 0) and p in entry and entry[p].op in ("n", "poly"):
            t = repl.get(p, p)
            if t not in r:
                r.append(t)
    return r


def arrays(e, phis, entry):
    """the arrays a loop changes"""
    out = []
    for w, a in phis.items():
        if w[1] and w[1][-1] == ("el",):
            out.append(a)
        elif a.op == "phi" and not e.isbool(a) and entry[a].op in ("arr", "fill", "alit", "store", "acopy", "cat"):
            out.append(a)
        elif a.ty is not None and e.ti(a.ty)["k"] in ("slice", "array"):
            out.append(a)
    return out


def bools(e, phis, repl):
    return [p for p in phis.values() if p not in repl and e.isbool(p)]


MAXD = num(65535)


@check("H01", floors={"functions": 2}, technique="abstract interpretation with a count function as ghost state: every degree is compared with the number of times its vertex occurs, for an arbitrary vertex",
       rule="every degree ends as its old value plus the number of times the vertex occurs, held at the largest value the type has; the report of saturation is exact")
def h01(fs, rep):
    f = fs["trellis"]
    rule = "degrees"
    for name in ("add_degree", "find_degree"):
        e = Eng(f, panics=True)
        X = mk("sym", "X#", (f.crate, e.usize), ty=e.usize)
        box = {}

        def pre(e, st, a):
            es = e.as_slice(st, a[0])
            p, s0, n = es
            arr = e.read(st, p.args[0], p.args[1])
            vt = e.elem(e.pointee(a[0].ty))
            item = lambda k: e.sel(st, arr, padd(s0, k), vt)
            box.update(n=n, item=item, c=Count(e, "C", item, n))
            K = e.bv(0)
            inn = allof(ge0(K, True), lt(K, n, True))
            if name == "add_degree":
                p, d0, m = e.as_slice(st, a[1])
                dt = e.elem(e.pointee(a[1].ty))
                darr = e.read(st, p.args[0], p.args[1])
                box.update(m=m, deg=lambda k: e.sel(st, darr, padd(d0, k), dt), dp=(p, d0, dt))
                x = box["deg"](K)
                st.fa = st.fa + ((x, K, TRUE, allof(ge0(x, True), le(x, MAXD, True))),)
            else:
                box.update(m=a[1], deg=lambda k: ZERO)
                dt = e.ti(box_ret(f, name))["a"][0]
            box["dt"] = dt
            x = item(K)
            st.fa = st.fa + ((x, K, inn, allof(ge0(x, True), lt(x, box["m"], True))),)
            st.note(ge0(X, True))
            st.note(lt(X, box["m"], True))

        def cand(e, fr, head, st0, backs, W, phis, entry, repl):
            out = []
            c, d = box["c"], box["deg"](X)
            for a in arrays(e, phis, entry):
                s = mk("sel", a, X, ty=box["dt"])
                for j in ints(e, phis, entry, repl):
                    t = padd(d, c.C(X, j))
                    out.append(bor(eqt(s, t), eqt(s, MAXD)))
                    out.append(le(s, t, True))
                    for b in bools(e, phis, repl):
                        out.append(bor(b, eqt(s, t)))
            if box.get("few"):
                out += [bnot(b) for b in bools(e, phis, repl)]
            return [x for x in out if e.prove(st0, subst(x, entry), 1)]

        def quant(e, fr, head, st0, backs, W, phis, entry, repl):
            K = e.bv(0)
            out = []
            c, d = box["c"], box["deg"]
            inn = allof(ge0(K, True), lt(K, box["m"], True))
            for a in arrays(e, phis, entry):
                s = mk("sel", a, K, ty=box["dt"])
                out.append((s, K, inn, allof(ge0(s, True), le(s, MAXD, True))))
                if box.get("few"):
                    for j in ints(e, phis, entry, repl):
                        out.append((s, K, inn, le(padd(s, psub(c.C(K, box["n"]), c.C(K, j))), MAXD, True)))
            return out
        e.cands.append(cand)
        e.qcands.append(quant)
        r = run(f, fn(f, "trellis::" + name), pre=pre, eng=e, name=name)
        if not usable(rep, r):
            continue
        no_panic(rep, r, "no panic")
        for s, v in r.rets:
            c = box["c"]
            t = padd(box["deg"](X), c.C(X, box["n"]))
            s2 = s.copy()
            e.assume(s2, lt(X, box["m"], True))
            if name == "add_degree":
                p, d0, dt = box["dp"]
                got = e.sel(s2, e.read(s2, p.args[0], p.args[1]), padd(d0, X), dt)
            else:
                if not e.eq(s2, length(v), box["m"]):
                    rep.bad(rule, "find_degree gives one degree for every vertex", r.where, show(v)[:200])
                got = e.sel(s2, arrof(v), X, box["dt"])
            saturate(e, s2, [got, t])
            for cond, want, what in ((le(t, MAXD, True), t, "counts"), (lt(MAXD, t, True), MAXD, "saturates")):
                s3 = s2.copy()
                if e.assume(s3, cond):
                    rep.ob(rule, "%s %s" % (name, what), e.eq(s3, got, want), r.where, "%s for %s when %s" % (show(got)[:200], show(want)[:100], facts_of(s3)))
            if name == "add_degree":
                s3 = s2.copy()
                if e.assume(s3, bnot(v)):
                    rep.ob("the report", "add_degree reports saturation", e.prove(s3, le(t, MAXD, True)), r.where, "when %s" % facts_of(s3))
        if name != "add_degree":
            continue
        # nothing saturates: not reported
        e2 = Eng(f, panics=True)
        e2.cands.append(cand)
        e2.qcands.append(quant)
        box["few"] = True

        def pre2(e, st, a):
            pre(e, st, a)
            K = e.bv(0)
            x = box["deg"](K)
            tot = box["c"].C(K, box["n"])
            inn = allof(ge0(K, True), lt(K, box["m"], True))
            st.fa = st.fa + ((x, K, inn, le(padd(x, tot), MAXD, True)), (tot, K, inn, le(padd(x, tot), MAXD, True)))
        r = run(f, fn(f, "trellis::" + name), pre=pre2, eng=e2, name=name + " without saturation")
        if usable(rep, r):
            for s, v in r.rets:
                rep.ob("the report", "add_degree reports no saturation that is not there", e2.prove(s, bnot(v)), r.where, "%s when %s" % (show(v), facts_of(s)))


def box_ret(f, name):
    return body(f, fn(f, "trellis::" + name))["locals"][0][0]


@check("H02", floors={"functions": 3}, technique="abstract interpretation with a count function as ghost state: every mark is compared with whether its vertex occurs, for an arbitrary vertex",
       rule="find_referenced_edges marks exactly the vertices that occur, find_sources those no edge leads to, find_sinks those with no edge out")
def h02(fs, rep):
    f = fs["trellis"]
    rule = "marks"
    for name in ("find_referenced_edges", "find_sources", "find_sinks"):
        e = Eng(f, panics=True)
        X = mk("sym", "X#", ("ghost", e.usize), ty=e.usize)
        box = {}

        def pre(e, st, a):
            if name == "find_referenced_edges":
                p, s0, n = e.as_slice(st, a[0])
                arr = e.read(st, p.args[0], p.args[1])
                vt = e.elem(e.pointee(a[0].ty))
                item = lambda k: e.sel(st, arr, padd(s0, k), vt)
                box["m"] = a[1]
            else:
                t = ramp(e, st, at(e, st, a[0]))
                n, item = t.nv, t.x
                box["t"] = t
                box["m"] = psub(t.ni, ONE)
            box["n"] = n
            K = e.bv(0)
            if name != "find_sinks":
                box["c"] = Count(e, "C", item, n)
                x = item(K)
                st.fa = st.fa + ((x, K, allof(ge0(K, True), lt(K, n, True)), allof(ge0(x, True), lt(x, box["m"], True))),)
            st.note(ge0(X, True))
            st.note(lt(X, box["m"], True))

        def cand(e, fr, head, st0, backs, W, phis, entry, repl):
            out = []
            for a in arrays(e, phis, entry):
                for j in ints(e, phis, entry, repl):
                    if "c" not in box:
                        continue
                    s = mk("sel", a, X, ty=e.boolt)
                    c = gt0(box["c"].C(X, j), True)
                    for c in (c, bnot(c)):
                        out += [bor(bnot(s), c), bor(s, bnot(c))]
            return [x for x in out if e.prove(st0, subst(x, entry), 1)]

        def quant(e, fr, head, st0, backs, W, phis, entry, repl):
            K = e.bv(0)
            out = []
            if "t" in box and name == "find_sinks":
                for a in arrays(e, phis, entry):
                    for j in ints(e, phis, entry, repl):
                        s = mk("sel", a, K, ty=e.boolt)
                        d = eqt(box["t"].i(K), box["t"].i(padd(K, ONE)))
                        inn = allof(ge0(K, True), lt(K, j, True))
                        out += [(s, K, inn, bor(bnot(s), d)), (s, K, inn, bor(bnot(d), s))]
            return out
        e.cands.append(cand)
        e.qcands.append(quant)
        r = run(f, fn(f, "trellis::" + name), pre=pre, eng=e, name=name)
        if not usable(rep, r):
            continue
        no_panic(rep, r, "no panic")
        for s, v in r.rets:
            rep.ob(rule, name + " gives one mark for every vertex", e.eq(s, length(v), box["m"]), r.where, show(v)[:200])
            got = e.sel(s, arrof(v), X, e.boolt)
            if name == "find_sinks":
                t = box["t"]
                want = eqt(t.i(X), t.i(padd(X, ONE)))
            else:
                want = gt0(box["c"].C(X, box["n"]), True)
                if name == "find_sources":
                    want = bnot(want)
            saturate(e, s, [got, want])
            rep.ob(rule, name + " marks", e.eq(s, got, want), r.where, "%s for %s when %s" % (show(got)[:200], show(want)[:100], facts_of(s)))


class Prefix:
    """S(v): how many items are less than v, as a recursive definition over a Count"""

    def __init__(self, e, cnt, nv):
        self.e, self.cnt, self.nv = e, cnt, nv
        e.lg.axioms.append(self.axiom)

    def S(self, v):
        return mk("app", "prefix", self.cnt.tag, v, ty=self.e.usize)

    def axiom(self, a):
        if a.op != "app" or a.args[1] is not self.cnt.tag or a.args[0] != "prefix":
            return []
        nv, n, S, C = self.nv, self.cnt.n, self.S, self.cnt.C
        v = a.args[2]
        out = [ge0(a, True), le(a, n, True)]
        out.append(bor(bnot(eqt(v, ZERO)), eqt(a, ZERO)))
        out.append(bor(bnot(eqt(v, nv)), eqt(a, n)))
        out.append(bor(bnot(allof(ge0(v, True), lt(v, nv, True))), le(padd(a, C(v, n)), n, True)))
        if v.op == "poly" and toP(v).get((), 0) >= 1:
            u = psub(v, ONE)
            out.append(bor(bnot(allof(ge0(u, True), lt(u, nv, True))), eqt(a, padd(S(u), C(u, n)))))
        elif v.op == "n" and v.args[0] >= 1:
            u = psub(v, ONE)
            out.append(bor(bnot(lt(u, nv, True)), eqt(a, padd(S(u), C(u, n)))))
        if v.op == "poly" and toP(v).get((), 0) < 0:
            out.append(bor(bnot(allof(ge0(v, True), lt(v, nv, True))), eqt(S(padd(v, ONE)), padd(a, C(v, n)))))
        return out


@check("G05", floors={"functions": 1}, technique="abstract interpretation with count and prefix-sum functions as ghost state: the index table of the result is compared with the in-degrees",
       rule="transpose keeps the vertices and the number of edges, and gives every vertex as many places as edges lead to it")
def g05(fs, rep):
    f = fs["trellis"]
    rule = "the room of a vertex"
    e = Eng(f, panics=True)
    X = mk("sym", "vertex#", ("ghost", e.usize), ty=e.usize)
    box = {}

    def pre(e, st, a):
        g = at(e, st, a[0])
        t = ramp(e, st, get(e, g, "edges"), both=True)
        nv = psub(t.ni, ONE)
        n = t.nv
        K = e.bv(0)
        st.note(eqt(t.i(nv), n))
        st.note(lt(n, num(2 ** 32 - 1), True))
        st.note(lt(nv, num(2 ** 32 - 1), True))
        st.note(ge0(X, True))
        st.note(lt(X, nv, True))
        x = t.x(K)
        st.fa = st.fa + ((x, K, allof(ge0(K, True), lt(K, n, True)), allof(ge0(x, True), lt(x, nv, True))),)
        cnt = Count(e, "C", t.x, n)
        box.update(t=t, nv=nv, n=n, C=cnt.C, S=Prefix(e, cnt, nv).S)

    first = {}

    def filled(a, entry):
        """what an array was filled with at first"""
        if a in entry:
            first[a] = entry[a]
        for _ in range(8):
            if a not in first:
                break
            a = first[a]
        return a.args[0] if a.op == "fill" else None

    def tables(e, phis, entry):
        return [a for a in arrays(e, phis, entry) if filled(a, entry) in (None, ZERO)]

    def cand(e, fr, head, st0, backs, W, phis, entry, repl):
        out = []
        S = box["S"]
        js = ints(e, phis, entry, repl)
        for a in tables(e, phis, entry):
            out += [eqt(mk("sel", a, j, ty=box["t"].u32), S(j)) for j in js]
        for p in js:
            for q in js:
                if p is not q:
                    out += [eqt(p, S(q)), bor(lt(ZERO, q, True), eqt(p, ZERO)), bor(le(q, ZERO, True), eqt(p, S(psub(q, ONE))))]
        return [x for x in out if e.prove(st0, subst(x, entry), 1)]

    def quant(e, fr, head, st0, backs, W, phis, entry, repl):
        K = e.bv(0)
        out = []
        C, S, nv, n = (box[k] for k in ("C", "S", "nv", "n"))
        for a in tables(e, phis, entry):
            x = mk("sel", a, K, ty=box["t"].u32)
            for j in ints(e, phis, entry, repl):
                # counted so far, summed so far
                out.append((x, K, allof(ge0(K, True), lt(K, j, True)), eqt(x, S(K))))
                for m in (j, box["t"].i(j)):
                    out.append((x, K, allof(lt(ZERO, K, True), le(K, nv, True)), eqt(x, C(psub(K, ONE), m))))
                    out.append((x, K, allof(ge0(K, True), lt(K, nv, True)), eqt(x, C(K, m))))
                for m in (j, padd(j, ONE)):
                    out.append((x, K, allof(le(m, K, True), lt(ZERO, K, True), le(K, nv, True)), eqt(x, C(psub(K, ONE), n))))
            out.append((x, K, eqt(K, ZERO), eqt(x, ZERO)))
        return out

    e.cands.append(cand)
    e.qcands.append(quant)
    r = run(f, method(f, "trellis::graph::Graph", "transpose"), pre=pre, eng=e, name="Graph::transpose")
    if not usable(rep, r):
        return
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        t2 = Table(e, s, get(e, v, "edges"))
        C, S, nv, n = (box[k] for k in ("C", "S", "nv", "n"))
        rep.ob("well formed", "transpose keeps the number of vertices", e.eq(s, t2.ni, padd(nv, ONE)), r.where, show(t2.ni))
        rep.ob("well formed", "transpose keeps the number of edges", e.eq(s, t2.nv, n), r.where, show(t2.nv))
        rep.ob("well formed", "transpose files every edge", e.eq(s, t2.i(nv, s), n), r.where, show(t2.i(nv, s)))
        rep.ob("well formed", "transpose gives a well formed table", wellformed(e, s, t2), r.where, facts_of(s))
        s2 = s.copy()
        a, b = t2.i(X, s2), t2.i(padd(X, ONE), s2)
        saturate(e, s2, [a, b])
        rep.ob(rule, "a vertex has a place for every edge that leads to it", e.prove(s2, eqt(psub(b, a), C(X, n))), r.where, "%s .. %s when %s" % (show(a), show(b), facts_of(s2)))
