"""Q01, Q02: the priority queue is a heap and loses nothing.  The place each item came from is kept as ghost state: it changes
only together with a swap, so it stays a rearrangement of the places."""
from vlib.core import check, Anchor
from vlib.engine import Eng
from vlib import models
from vlib.spec import *
from vlib.checks.vecoption import facts_of, k_
from vlib.checks.graphs import ints, arrays

PQ = "trellis::priority_queue::PQ"
G = ("G", "from")


def par(e, k):
    return mk("idiv", psub(k, ONE), num(2), ty=e.usize)


def parent_facts(e, k):
    """the parent of place k is before it"""
    p = par(e, k)
    return allof(le(pscale(p, 2), psub(k, ONE), True), le(psub(k, num(2)), pscale(p, 2), True))


def heap(e, S, K, n, but=None, cond=None):
    """(pattern, K, condition, body): no item is greater than its parent"""
    x, y = S(K), S(par(e, K))
    c = allof(lt(ZERO, K, True), lt(K, n, True))
    if cond is not None:
        c = band(c, cond)
    return (x, K, c, allof(le(x, y), parent_facts(e, K)))


class Q:
    def __init__(self, f, rep, name, what):
        self.f, self.rep, self.what = f, rep, what
        self.e = e = Eng(f, panics=True)
        e.hooks.append(self.hook)
        e.cands.append(self.cand)
        e.qcands.append(self.quant)
        e.by_writes = True
        self.r = r = run(f, method(f, PQ, name), pre=self.pre, eng=e, name="PQ::" + name)
        self.ok = usable(rep, r)

    def pre(self, e, st, a):
        if not a:
            return
        self.arg = a[0]
        v = at(e, st, a[0])
        pq = get(e, v, "pq")
        self.n, self.item = length(pq), e.ti(e.ti(v.ty)["vf"][0][0])["a"][0]
        self.A = arrof(pq)
        K = e.bv(0)
        st.fa = st.fa + (heap(e, self.at(st, self.A), K, self.n),)
        # every item is where it came from
        P = mk("sym", "from", ("ghost", e.usize), ty=e.usize)
        P = arrof(P)
        x = mk("sel", P, K, ty=e.usize)
        st.fa = st.fa + ((x, K, TRUE, eqt(x, K)),)
        st.mem[G] = P
        # the items there are, with the one to be inserted at the end
        self.B = arrof(mk("sym", "items", ("ghost", e.usize), ty=e.usize))
        y, z = mk("sel", self.B, K, ty=self.item), mk("sel", self.A, K, ty=self.item)
        c = allof(ge0(K, True), lt(K, self.n, True))
        st.fa = st.fa + ((y, K, c, eqt(y, z)), (z, K, c, eqt(y, z)))
        if len(a) > 1:
            st.note(eqt(mk("sel", self.B, self.n, ty=self.item), a[1]))

    def at(self, st, arr):
        return lambda k: self.e.sel(st, arr, k, self.item) if st is not None else mk("sel", arr, k, ty=self.item)

    def hook(self, e, fr, b, cal, path, args, atys, st, span, rty):
        last = path.split("::")[-1]
        if last != "swap" or not path.startswith("core::slice"):
            return None
        out = models.model(e, fr, b, cal, path, args, atys, st, span, rty, None)
        for o in out or []:
            s = o[1]
            p, s0, n = e.as_slice(s, e.typed(args[0], atys[0]) if args[0].op not in ("ptr", "slc") else args[0])
            if o[0] != "ret" or not p.args[0] or p.args[0][0] != "P":
                continue
            i, j = padd(s0, args[1]), padd(s0, args[2])
            g = s.mem[G]
            x, y = e.sel(s, g, i, e.usize), e.sel(s, g, j, e.usize)
            s.mem[G] = e.store(s, e.store(s, g, i, y), j, x)
        return out

    def cand(self, e, fr, head, st0, backs, W, phis, entry, repl):
        return []

    def quant(self, e, fr, head, st0, backs, W, phis, entry, repl):
        K = e.bv(0)
        out = []
        heaps = [a for w, a in phis.items() if w[0] != G and a in arrays(e, phis, entry)]
        froms = [a for w, a in phis.items() if w[0] == G]
        js = ints(e, phis, entry, repl)
        lens = [self.n, padd(self.n, ONE), psub(self.n, ONE)]
        if not heaps:
            # a loop that only looks: the heap it looks at
            if self.what != "heap":
                return []
            q = heap(e, self.at(None, arrof(get(e, at(e, st0, self.arg), "pq"))), K, length(get(e, at(e, st0, self.arg), "pq")))
            e.deepq.add(q[3])
            return [q]
        for a in heaps:
            S = self.at(None, a)
            for n in lens:
                if self.what != "heap" or not e.prove(st0, gt0(n, True), 0):
                    continue
                out.append(heap(e, S, K, n))
                for i in js:
                    # the item at i may be greater than its parent; its children are not greater than that
                    out.append(heap(e, S, K, n, cond=bnot(eqt(K, i))))
                    # or smaller than its children
                    out.append(heap(e, S, K, n, cond=bnot(eqt(par(e, K), i))))
                    top = S(par(e, i))
                    c = allof(lt(ZERO, K, True), lt(K, n, True), eqt(par(e, K), i), lt(ZERO, i, True))
                    out.append((S(K), K, c, le(S(K), top)))
            for g in froms if self.what == "items" else ():
                for n in lens:
                    x, y = mk("sel", g, K, ty=e.usize), mk("sel", entry[g], K, ty=e.usize)
                    out.append((x, K, le(n, K, True), eqt(x, y)))
                x = mk("sel", g, K, ty=e.usize)
                b = eqt(S(K), mk("sel", self.B, x, ty=self.item))
                out += [(S(K), K, allof(ge0(K, True), lt(K, n, True)), b) for n in lens]
        return out


@check("Q01", floors={"functions": 2}, technique="abstract interpretation with quantified loop invariants: the heap with one place out of order while an item moves up or down; induction step for the greatest item",
       rule="insert and remove keep the heap order, never panic, and remove hands out an item that is not smaller than any other")
def q01(fs, rep):
    f = fs["trellis"]
    for name in ("insert", "remove"):
        q = Q(f, rep, name, "heap")
        r, e = q.r, q.e
        if not q.ok:
            continue
        no_panic(rep, r, "no panic")
        for s, v in r.rets:
            pq = get(e, at(e, s, r.args[0]), "pq")
            S = q.at(s, arrof(pq))
            k = k_(e)
            s2 = s.copy()
            if e.assume(s2, allof(lt(ZERO, k, True), lt(k, length(pq), True))):
                s2.note(parent_facts(e, k))
                x, y = S(k), S(par(e, k))
                saturate(e, s2, [x, y])
                rep.ob("heap order", name + " leaves a heap", e.prove(s2, le(x, y)), r.where, "%s when %s" % (show(psub(y, x))[:200], facts_of(s2)))
            if name == "remove":
                s2 = s.copy()
                rep.ob("the greatest item", "remove from an empty queue gives nothing, from another something",
                       e.eqterm(s2, q.n, ZERO) is not None and (e.prove(s2, eqt(q.n, ZERO)) if v.op == "agg" and v.args[1] == 0 else e.prove(s2, gt0(q.n, True)) and v.op == "agg" and v.args[1] == 1),
                       r.where, "%s when %s" % (show(v)[:100], facts_of(s2)))
                if v.op == "agg" and v.args[1] == 1:
                    x0 = e.sel(s2, q.A, ZERO, q.item)
                    rep.ob("the greatest item", "remove gives the item at the root", e.eq(s2, v.args[2], x0), r.where, show(v)[:200])
    # the root of a heap is its greatest item, by induction over the places
    e = Eng(f, panics=True)
    from vlib.engine import St
    st = St()
    k = k_(e)
    A = arrof(mk("sym", "heap", ("ghost", e.usize), ty=e.usize))
    S = lambda i: mk("sel", A, i)
    K = e.bv(0)
    st.note(lt(ZERO, k, True))
    st.note(parent_facts(e, k))
    st.note(le(S(k), S(par(e, k))))
    st.fa = st.fa + ((S(K), K, allof(ge0(K, True), lt(K, k, True)), le(S(K), S(ZERO))),)
    saturate(e, st, [S(k), S(par(e, k))])
    rep.ob("the greatest item", "the root of a heap is its greatest item", e.prove(st, le(S(k), S(ZERO))), "", "induction step")


@check("Q02", floors={"functions": 2}, technique="abstract interpretation with the origin of every item as ghost state that only changes together with a swap",
       rule="insert adds exactly the item given and remove takes out exactly the item handed out: the other items are only rearranged")
def q02(fs, rep):
    f = fs["trellis"]
    rule = "items"
    for name in ("insert", "remove"):
        q = Q(f, rep, name, "items")
        r, e = q.r, q.e
        if not q.ok:
            continue
        for s, v in r.rets:
            pq = get(e, at(e, s, r.args[0]), "pq")
            gone = v.op == "agg" and v.args[1] == 1
            if name == "remove" and not gone:
                want = q.n
            else:
                want = psub(q.n, ONE) if name == "remove" else padd(q.n, ONE)
            rep.ob(rule, name + " changes the number of items", e.eq(s, length(pq), want), r.where, "%s when %s" % (show(length(pq)), facts_of(s)))
            g = s.mem.get(G)
            ks = [(k_(e), arrof(pq))]
            s2 = s.copy()
            k = k_(e)
            if e.assume(s2, allof(ge0(k, True), lt(k, length(pq), True))):
                x = e.sel(s2, arrof(pq), k, q.item)
                src = e.sel(s2, g, k, e.usize)
                y = e.sel(s2, q.B, src, q.item)
                saturate(e, s2, [x, src, y])
                rep.ob(rule, name + " only rearranges the items", e.eq(s2, e.sel(s2, arrof(pq), k, q.item), e.sel(s2, q.B, e.sel(s2, g, k, e.usize), q.item)), r.where, "%s for %s when %s" % (show(x)[:150], show(y)[:150], facts_of(s2)))
            if gone:
                s2 = s.copy()
                src = e.sel(s2, g, psub(q.n, ONE), e.usize)
                y = e.sel(s2, q.B, src, q.item)
                saturate(e, s2, [src, y])
                rep.ob(rule, "remove hands out the item it takes out", e.eq(s2, v.args[2], e.sel(s2, q.B, e.sel(s2, g, psub(q.n, ONE), e.usize), q.item)), r.where, "%s for %s" % (show(v)[:150], show(y)[:150]))
    for name in ("new", "with_capacity", "clear"):
        r = run(f, method(f, PQ, name), name="PQ::" + name)
        if usable(rep, r):
            for s, v in r.rets:
                x = at(r.e, s, r.args[0]) if name == "clear" else v
                if x.ty is None:
                    x.ty = r.body["locals"][0][0]
                rep.ob(rule, name + " leaves no items", r.e.eq(s, length(get(r.e, x, "pq")), ZERO), r.where, show(x)[:100])
