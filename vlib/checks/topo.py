"""G01: topological order.  An arbitrary edge Y -> X is followed through the traversal; the place where X was put first is ghost state."""
from vlib.core import check, Anchor
from vlib.engine import Eng, reads
from vlib import models
from vlib.spec import *
from vlib.checks.vecoption import facts_of, k_
from vlib.checks.tables import Table, ramp, wellformed, list_is
from vlib.checks.graphs import ints, arrays


class AnyEdge:
    """a well formed graph, and any edge of it: from Y to X, number E"""

    def __init__(self, e, st, g):
        self.e = e
        E, Y = (mk("sym", n, ("ghost", e.usize), ty=e.usize) for n in ("edge#", "from#"))
        t = ramp(e, st, get(e, g, "edges"), both=True)
        nv = psub(t.ni, ONE)
        n = t.nv
        K = e.bv(0)
        st.note(eqt(t.i(nv), n))
        st.note(lt(nv, num(2 ** 32 - 1), True))
        x = t.x(K)
        st.fa = st.fa + ((x, K, allof(ge0(K, True), lt(K, n, True)), allof(ge0(x, True), lt(x, nv, True))),)
        X = t.x(E)
        for c in (ge0(E, True), lt(E, n, True), ge0(Y, True), lt(Y, nv, True), le(t.i(Y), E, True), lt(E, t.i(padd(Y, ONE)), True), ge0(X, True), lt(X, nv, True)):
            st.note(c)
        self.t, self.nv, self.n, self.E, self.Y, self.X = t, nv, n, E, Y, X


def isint(e, t):
    return t is not None and t >= 0 and e.kind(t) == "int"


class Places:
    """ghost state: for every list of numbers in a function, 1 + the place where a number was put last, 0 if it was not"""

    def __init__(self, e):
        self.e = e
        e.hooks.insert(0, self.hook)

    @staticmethod
    def of(root):
        return ("G", "place", root)

    def hook(self, e, fr, b, cal, path, args, atys, st, span, rty):
        mark = ("G", "places", fr.fid)
        if mark not in st.mem and fr.depth == 0:
            st.mem[mark] = ONE
            for n, (t, name) in enumerate(fr.body["locals"]):
                if t >= 0 and e.is_vec(t) and isint(e, e.elem(t)):
                    st.mem[self.of(("L", fr.fid, n))] = mk("fill", ZERO)
        if path.split("::")[-1] == "push" and path.startswith("alloc::vec") and len(args) == 2:
            r, pr = e.deref(st, args[0])
            g = self.of(r)
            if not pr and g in st.mem:
                st.mem[g] = e.store(st, st.mem[g], args[1], padd(length(e.read(st, r, pr)), ONE))
        return None


class Search:
    """what may hold at the loops of a depth-first search"""

    def __init__(self, e, box):
        self.e, self.box = e, box
        self.busy = set()
        e.cands.append(self.cand)
        e.qcands.append(self.quant)
        e.by_writes = e.plain = True
        e.same = False

    def parts(self, st0, fr, phis, entry, repl):
        """current values by kind"""
        e = self.e
        P = type("P", (), {})()
        # lists of marks that are set for the vertex at hand are not those of the finished ones
        P.ints, P.its, P.flags, P.stacks, P.orders = [], [], [], [], []
        for w, p in phis.items():
            if w[0][0] == "G":
                continue
            if w[1] and w[1][-1] == ("el",):
                et = p.ty if False else None
                lt_ = e.root_ty(fr, w[0])
                et = e.elem(lt_) if len(w[1]) == 1 and lt_ is not None and e.is_vec(lt_) else None
                if et is None:
                    continue
                lw = [q for u, q in phis.items() if u[0] == w[0] and u[1] == (("len",),)]
                ln = repl.get(lw[0], lw[0]) if lw else None
                if e.kind(et) == "bool":
                    if w[0] not in self.busy:
                        P.flags.append((w[0], lambda k, a=p, t=et: mk("sel", a, k, ty=t)))
                elif e.kind(et) == "int":
                    if ln is not None:
                        g = phis.get((("G", "place", w[0]), ()))
                        P.orders.append((lambda k, a=p, t=et: mk("sel", a, k, ty=t), ln, g))
                elif e.ti(et)["k"] == "tuple" and ln is not None:
                    fs = e.ti(et)["a"]
                    iv = [i for i, t in enumerate(fs) if isint(e, t)]
                    ii = [i for i, t in enumerate(fs) if e.ti(t).get("p", e.ti(t).get("n", "")).endswith("slice::iter::Iter") or "Iter" in str(e.ti(t))]
                    if len(iv) == 1 and len(ii) == 1:
                        P.stacks.append((lambda k, a=p, t=et, i=iv[0], fs=fs: fld(mk("sel", a, k, ty=t), 0, i, ty=fs[i]),
                                         lambda k, a=p, t=et, i=ii[0], fs=fs: fld(mk("sel", a, k, ty=t), 0, i, ty=fs[i]), ln))
            elif w[1] and w[1][-1] == ("len",):
                continue
            elif p.ty is not None and isint(e, p.ty):
                x = repl.get(p, p)
                if x not in P.ints:
                    P.ints.append(x)
            elif p.op == "phi" and p.ty is not None and p.ty >= 0 and "Iter" in str(e.ti(p.ty)):
                P.its.append(p)
        for root, m in P.flags:
            if P.its and any(e.prove(st0, subst(m(v), entry), 1) for v in P.ints):
                self.busy.add(root)
        P.flags = [m for root, m in P.flags if root not in self.busy]
        return P

    def far(self, st0, P):
        e = self.e
        return [x for x in e.known(st0) if x.op == "phi" and isint(e, x.ty) and x not in P.ints][:4]

    def cand(self, e, fr, head, st0, backs, W, phis, entry, repl):
        b = self.box
        t, nv, E, X, Y = b.t, b.nv, b.E, b.X, b.Y
        c = e.cursor
        P = self.parts(st0, fr, phis, entry, repl)
        out = []
        flags = P.flags
        for f in flags:
            out.append(bor(bnot(f(Y)), f(X)))
            for v in P.ints:
                if P.its:
                    out.append(bnot(f(v)))
                else:
                    out.append(bor(le(v, Y, True), f(Y)))
            if P.its:
                out += [bor(le(v, Y, True), f(Y)) for v in self.far(st0, P)]
        for i in P.its:
            out += [eqt(c.base(i), ONE), le(c.pos(i), c.end(i), True), ge0(c.pos(i), True), le(c.end(i), b.n, True)]
            for v in P.ints:
                out += [eqt(c.end(i), t.i(padd(v, ONE))), le(t.i(v), c.pos(i), True)]
                for f in flags:
                    out.append(bor(bnot(allof(eqt(v, Y), lt(E, c.pos(i), True))), f(X)))
        for v in P.ints:
            out += [ge0(v, True), lt(v, nv, True)]
        for sv, si, ln in P.stacks:
            for s in self.far(st0, P) + P.ints:
                if s in P.ints or s.op == "phi" and s.args[0][-1] and s.args[0][-1][-1] == ("len",):
                    continue
                out.append(bor(le(ln, ZERO, True), eqt(sv(ZERO), s)))
                for v in P.ints:
                    if v is not s:
                        out.append(bor(bnot(eqt(ln, ZERO)), eqt(v, s)))
        for o, m, g in P.orders:
            if g is None:
                continue
            for f in flags:
                for V in (X, Y):
                    p = mk("sel", g, V, ty=e.usize)
                    out.append(bor(bnot(f(V)), allof(gt0(p, True), le(p, m, True), eqt(o(psub(p, ONE)), V))))
                p = mk("sel", g, X, ty=e.usize)
                out.append(bor(bnot(gt0(p, True)), f(X)))
                out.append(bor(bnot(f(Y)), lt(p, mk("sel", g, Y, ty=e.usize), True)))
        return [x for x in out if e.prove(st0, subst(x, entry), 1)]

    def quant(self, e, fr, head, st0, backs, W, phis, entry, repl):
        b = self.box
        t, nv, E, X, Y = b.t, b.nv, b.E, b.X, b.Y
        c = e.cursor
        K = e.bv(0)
        K1 = padd(K, ONE)
        P = self.parts(st0, fr, phis, entry, repl)
        out = []
        for sv, si, ln in P.stacks:
            inn = allof(ge0(K, True), lt(K, ln, True))
            v, i = sv(K), si(K)
            for pat, q in ((c.base(i), eqt(c.base(i), ONE)), (v, allof(ge0(v, True), lt(v, nv, True))),
                           (c.pos(i), allof(ge0(c.pos(i), True), le(c.pos(i), c.end(i), True), le(c.end(i), b.n, True))),
                           (c.end(i), eqt(c.end(i), t.i(padd(v, ONE)))), (c.pos(i), le(t.i(v), c.pos(i), True))):
                out.append((pat, K, inn, q))
            for f in P.flags:
                done = allof(eqt(v, Y), lt(E, c.pos(i), True))
                out.append((v, K, allof(ge0(K, True), lt(K1, ln, True), done), bor(f(X), eqt(sv(K1), X))))
                for u in P.ints:
                    out.append((v, K, allof(ge0(K, True), eqt(K1, ln), done), bor(f(X), eqt(u, X))))
        for o, m, g in P.orders:
            x = o(K)
            inn = allof(ge0(K, True), lt(K, m, True))
            for f in P.flags:
                out.append((x, K, inn, f(x)))
            out.append((x, K, inn, allof(ge0(x, True), lt(x, nv, True))))
            if g is not None:
                out.append((x, K, inn, eqt(mk("sel", g, x, ty=e.usize), K1)))
        return out


def over(e, st, a):
    """the values of the graph behind a"""
    ty, pr = e.pointee(a.ty), []
    for name in ("edges", "values"):
        i, t = fieldno(e, ty, name)
        pr.append(("f", 0, i, t))
        ty = t
    return (mk("cst", "slice", e.elem(ty)), mk("ptr", ("P", a), tuple(pr) + (("el",),)))


@check("G01", floors={"functions": 1}, technique="abstract interpretation of the depth-first search with an arbitrary edge and the place of its target as ghost state: invariants of the work stack, the marks and the order",
       rule="an order that is returned has the target of every edge before its source, no vertex twice, and every vertex that has an edge")
def g01(fs, rep):
    f = fs["trellis"]
    e = Eng(f, panics=True)
    box = {}

    def pre(e, st, a):
        g = at(e, st, a[0])
        b = box["b"] = AnyEdge(e, st, g)
        Search(e, b)
        box["g"] = a[0]
    Places(e)

    def pre2(e, st, a):
        pre(e, st, a)
        models.Cursor(e, over(e, st, a[0]))

    r = run(f, fn(f, "trellis::topo_sort::topo_sort_reverse"), pre=pre2, eng=e, name="topo_sort_reverse")
    if not usable(rep, r):
        return
    b = box["b"]
    oks = 0
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        if e.decide(s, eqt(dcr(v), ONE)) is True:
            continue
        oks += 1
        gs = [x for w, x in s.mem.items() if w[:2] == ("G", "place")]
        ordered(rep, r, b, s, fld(v, 0, 0), [lambda st, V, m, g=g: psub(e.sel(st, g, V, e.usize), ONE) for g in gs])
    rep.ob("topological order", "an order is returned", oks > 0, r.where, "")
    topo_sort(f, rep)


class Ranked:
    """a graph with no cycle: every edge leads to a vertex of lower rank.  For an arbitrary vertex N: while it is being examined, it is the
    current vertex or on the stack, and nothing above it has a greater rank"""

    def __init__(self, e, box):
        self.e, self.box = e, box
        e.hooks.insert(0, self.hook)
        self.N = mk("sym", "vertex#", ("ghost", e.usize), ty=e.usize)

    def R(self, V):
        return mk("sel", arrof(mk("sym", "rank", ("ghost", self.e.usize), ty=self.e.usize)), V, ty=self.e.usize)

    def pair(self, e, t):
        """fields of a stack entry: the vertex, the edges left"""
        fs = e.ti(t)["a"] if e.ti(t)["k"] == "tuple" else []
        iv = [i for i, x in enumerate(fs) if isint(e, x)]
        ii = [i for i, x in enumerate(fs) if "Iter" in str(e.ti(x))]
        return (iv[0], ii[0], fs) if len(iv) == 1 and len(ii) == 1 else None

    def hook(self, e, fr, b, cal, path, args, atys, st, span, rty):
        mark = ("G", "slots", fr.fid)
        last = path.split("::")[-1]
        if mark not in st.mem and fr.depth == 0:
            st.mem[mark] = ONE
            for n, (t, name) in enumerate(fr.body["locals"]):
                if t >= 0 and e.is_vec(t) and self.pair(e, e.elem(t)):
                    st.mem[("G", "slot", ("L", fr.fid, n))] = mk("fill", ZERO)
        if last == "push" and path.startswith("alloc::vec") and len(args) == 2:
            r, pr = e.deref(st, args[0])
            g = ("G", "slot", r)
            if not pr and g in st.mem:
                t = e.elem(e.root_ty(fr, r))
                iv, ii, fs = self.pair(e, t)
                st.mem[g] = e.store(st, st.mem[g], fld(args[1], 0, iv, ty=fs[iv]), length(e.read(st, r, pr)))
        if last == "next" and path.startswith("core::slice::iter"):
            out = models.model(e, fr, b, cal, path, args, atys, st, span, rty, None)
            for o in out or []:
                if o[0] == "ret" and e.decide(o[1], eqt(dcr(o[2]), ONE)) is True:
                    self.edge(e, o[1], fld(o[2], 1, 0))
            return out
        return None

    def edge(self, e, st, v):
        """the edge that was taken: it leads from one of the vertices at hand to one of lower rank"""
        if v.op != "ptr":
            return
        x = e.read(st, v.args[0], v.args[1])
        t = self.box.t
        if x.op != "sel" or x.args[0] is not t.x(ZERO).args[0]:
            return
        p = x.args[1]
        for u in [a for a in e.known(st) if isint(e, a.ty) and a.op == "phi"]:
            if e.prove(st, allof(le(t.i(u), p, True), lt(p, t.i(padd(u, ONE)), True), ge0(u, True), lt(u, self.box.nv, True)), 1):
                st.note(lt(self.R(x), self.R(u), True))


class RankSearch(Search):
    def __init__(self, e, box, rk):
        Search.__init__(self, e, box)
        self.rk = rk

    def cand(self, e, fr, head, st0, backs, W, phis, entry, repl):
        b, rk = self.box, self.rk
        t, nv = b.t, b.nv
        N, R, c = rk.N, rk.R, e.cursor
        P = self.parts(st0, fr, phis, entry, repl)
        out = []
        for v in P.ints:
            out += [ge0(v, True), lt(v, nv, True)]
        for i in P.its:
            out += [eqt(c.base(i), ONE), le(c.pos(i), c.end(i), True), ge0(c.pos(i), True), le(c.end(i), b.n, True)]
            for v in P.ints:
                out += [eqt(c.end(i), t.i(padd(v, ONE))), le(t.i(v), c.pos(i), True)]
        for B in P.busyf + P.flags:
            if not P.its:
                out.append(bnot(B(N)))
            for v in P.ints:
                if not P.its:
                    continue
                out.append(B(v))
                out.append(bor(bnot(B(N)), le(R(v), R(N), True)))
                for sv, si, ln, g in P.slots:
                    s = mk("sel", g, N, ty=e.usize)
                    out.append(anyof(bnot(B(N)), eqt(N, v), allof(ge0(s, True), lt(s, ln, True), eqt(sv(s), N))))
        for sv, si, ln in P.stacks:
            if not P.its:
                out.append(eqt(ln, ZERO))
        return [x for x in out if e.prove(st0, subst(x, entry), 1)]

    def parts(self, st0, fr, phis, entry, repl):
        self.busy = set()
        e = self.e
        P = Search.parts(self, st0, fr, phis, entry, repl)
        P.busyf, P.slots = [], []
        for w, p in phis.items():
            if w[0] in self.busy and w[1] and w[1][-1] == ("el",):
                et = e.elem(e.root_ty(fr, w[0]))
                P.busyf.append(lambda k, a=p, t=et: mk("sel", a, k, ty=t))
            if w[0][:2] == ("G", "slot"):
                root = w[0][2]
                el = [q for u, q in phis.items() if u[0] == root and u[1] and u[1][-1] == ("el",)]
                lw = [q for u, q in phis.items() if u[0] == root and u[1] == (("len",),)]
                if el and lw:
                    et = e.elem(e.root_ty(fr, root))
                    iv, ii, fs = self.rk.pair(e, et)
                    P.slots.append((lambda k, a=el[0], t=et, i=iv, fs=fs: fld(mk("sel", a, k, ty=t), 0, i, ty=fs[i]),
                                    lambda k, a=el[0], t=et, i=ii, fs=fs: fld(mk("sel", a, k, ty=t), 0, i, ty=fs[i]), repl.get(lw[0], lw[0]), p))
        return P

    def quant(self, e, fr, head, st0, backs, W, phis, entry, repl):
        b, rk = self.box, self.rk
        t, nv = b.t, b.nv
        N, R, c = rk.N, rk.R, e.cursor
        K = e.bv(0)
        P = self.parts(st0, fr, phis, entry, repl)
        out = []
        for sv, si, ln in P.stacks:
            inn = allof(ge0(K, True), lt(K, ln, True))
            v, i = sv(K), si(K)
            for pat, q in ((c.base(i), eqt(c.base(i), ONE)), (v, allof(ge0(v, True), lt(v, nv, True))),
                           (c.pos(i), allof(ge0(c.pos(i), True), le(c.pos(i), c.end(i), True), le(c.end(i), b.n, True))),
                           (c.end(i), eqt(c.end(i), t.i(padd(v, ONE)))), (c.pos(i), le(t.i(v), c.pos(i), True))):
                out.append((pat, K, inn, q))
        for sv, si, ln, g in P.slots:
            for B in P.busyf + P.flags:
                for u in P.ints:
                    out.append((sv(K), K, allof(le(mk("sel", g, N, ty=e.usize), K, True), ge0(K, True), lt(K, ln, True), B(N), bnot(eqt(u, N))), le(R(sv(K)), R(N), True)))
        return out


@check("G11", floors={"functions": 1}, technique="abstract interpretation of the depth-first search on a graph with a rank function that falls along every edge: the outcome that reports a cycle is contradictory",
       rule="topo_sort_reverse reports a cycle only for a graph that has one")
def g11(fs, rep):
    f = fs["trellis"]
    e = Eng(f, panics=True)
    box = {}

    def pre(e, st, a):
        b = box["b"] = AnyEdge(e, st, at(e, st, a[0]))
        rk = box["r"] = Ranked(e, b)
        st.note(ge0(rk.N, True))
        st.note(lt(rk.N, b.nv, True))
        RankSearch(e, b, rk)
        models.Cursor(e, over(e, st, a[0]))

    r = run(f, fn(f, "trellis::topo_sort::topo_sort_reverse"), pre=pre, eng=e, name="topo_sort_reverse")
    if not usable(rep, r):
        return
    b, rk = box["b"], box["r"]
    oks = 0
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        if e.decide(s, eqt(dcr(v), ZERO)) is True:
            oks += 1
            continue
        X = b.t.x(ZERO).args[0]
        ends = []
        for x in s.facts:
            for a in atoms(x):
                for y in reads(a):
                    if y.op == "sel" and y.args[0] is X and y not in ends:
                        ends.append(y)
        no = not e.assume(s.copy(), TRUE)
        for y in ends:
            s2 = s.copy()
            no = no or not e.assume(s2, eqt(rk.N, y)) or not e.assume(s2, bnot(lt(rk.R(y), ZERO, True)))
        rep.ob("refused", "a cycle is reported only when there is one", no, r.where, facts_of(s))
    rep.ob("refused", "an order is returned", oks > 0, r.where, "")


def ordered(rep, r, b, s, o, places, first="target", second="source", name=""):
    """o has both ends of the edge, first before second, no vertex twice; places: what may give the place of a vertex"""
    e = r.e
    t, nv = b.t, b.nv
    V1, V2 = (b.X, b.Y) if first == "target" else (b.Y, b.X)
    K, L = (mk("sym", n, ("ghost", e.usize), ty=e.usize) for n in ("place#", "other#"))
    A, m = arrof(o), length(o)
    el = lambda st, k: e.sel(st, A, k, t.u32)
    at_ = lambda st, k: band(ge0(k, True), lt(k, m, True))
    ok = {}
    for g in places:
        for w, V in (("first", V1), ("second", V2)):
            s2 = s.copy()
            p = g(s2, V, m)
            saturate(e, s2, [p, el(s2, p)])
            ok[w] = ok.get(w) or e.prove(s2, allof(at_(s2, p), eqt(el(s2, p), V)))
        s2 = s.copy()
        if e.assume(s2, allof(at_(s2, K), eqt(el(s2, K), V2), at_(s2, L), eqt(el(s2, L), V1))):
            saturate(e, s2, [el(s2, K), el(s2, L), g(s2, V1, m), g(s2, V2, m)])
            ok["before"] = ok.get("before") or e.prove(s2, lt(L, K, True))
        s2 = s.copy()
        if e.assume(s2, allof(at_(s2, K), at_(s2, L), eqt(el(s2, K), el(s2, L)))):
            saturate(e, s2, [el(s2, K), el(s2, L), g(s2, el(s2, K), m), g(s2, el(s2, L), m)])
            ok["once"] = ok.get("once") or e.prove(s2, eqt(K, L))
    s2 = s.copy()
    e.assume(s2, at_(s2, K))
    x = el(s2, K)
    saturate(e, s2, [x])
    ok["range"] = e.prove(s2, allof(ge0(x, True), lt(x, nv, True)))
    for k, what in (("first", "the %s of an edge is in the order" % first), ("second", "the %s of an edge is in the order" % second),
                    ("before", "the %s of an edge comes before its %s" % (first, second)),
                    ("once", "no vertex is in the order twice"), ("range", "the order has vertices of the graph only")):
        rep.ob("topological order", name + what, bool(ok.get(k)), r.where, facts_of(s))


class Ordered:
    """what G01 shows about topo_sort_reverse, in place of its body"""

    def __init__(self, e, box, garg):
        self.e, self.box, self.garg = e, box, garg
        e.hooks.insert(0, self.hook)

    def P(self, V):
        return mk("sel", arrof(mk("sym", "place", ("ghost", self.e.usize), ty=self.e.usize)), V, ty=self.e.usize)

    def hook(self, e, fr, b, cal, path, args, atys, st, span, rty):
        if path != "trellis::topo_sort::topo_sort_reverse":
            return None
        g = self.garg()
        if e.deref(st, args[0]) != e.deref(st, g):
            return None
        bx = self.box()
        t, nv, X, Y = bx.t, bx.nv, bx.X, bx.Y
        rt = e.ti(rty)["a"]
        bad = st.copy()
        bad.event("refused", span)
        o = mk("sym", "order", ("ghost", rt[0]), ty=rt[0])
        K = e.bv(0)
        m, el = length(o), lambda k: mk("sel", arrof(o), k, ty=t.u32)
        for c in (ge0(m, True), le(ONE, self.P(X), True), lt(self.P(X), self.P(Y), True), le(self.P(Y), m, True), eqt(el(psub(self.P(X), ONE)), X), eqt(el(psub(self.P(Y), ONE)), Y)):
            st.note(c)
        x = el(K)
        st.fa = st.fa + ((x, K, allof(ge0(K, True), lt(K, m, True)), allof(ge0(x, True), lt(x, nv, True), eqt(self.P(x), padd(K, ONE)))),)
        st.event("ordered", span)
        return [("ret", st, agg("core::result::Result", 0, o, ty=rty)), ("ret", bad, agg("core::result::Result", 1, mk("sym", "refused", ("ghost", rt[1]), ty=rt[1]), ty=rty))]


def topo_sort(f, rep):
    e = Eng(f, panics=True)
    box = {}

    def pre(e, st, a):
        box.update(b=AnyEdge(e, st, at(e, st, a[0])), g=a[0])
    ct = Ordered(e, lambda: box["b"], lambda: box["g"])
    r = run(f, fn(f, "trellis::topo_sort::topo_sort"), pre=pre, eng=e, name="topo_sort")
    if not usable(rep, r):
        return
    oks = bad = 0
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        refused = any(x[0] == "refused" for x in s.events())
        if e.decide(s, eqt(dcr(v), ONE)) is True:
            bad += 1
            rep.ob("refused", "topo_sort: an error only when there is no order", refused, r.where, facts_of(s))
            continue
        oks += 1
        rep.ob("topological order", "topo_sort: there is an order", not refused, r.where, facts_of(s))
        ordered(rep, r, box["b"], s, fld(v, 0, 0), [lambda st, V, m: psub(m, ct.P(V)), lambda st, V, m: psub(ct.P(V), ONE)], "source", "target", "topo_sort: ")
    rep.ob("refused", "topo_sort: both outcomes were seen", oks > 0 and bad > 0, r.where, "")


def lists(e, st):
    """the contents of the local lists of numbers that are not being changed"""
    out = []
    for w, x in st.mem.items():
        if w[0] == "L" and x.op == "vec" and x.ty is not None and e.is_vec(x.ty) and isint(e, e.elem(x.ty)):
            out.append(x.args[0])
    return out


@check("G02", floors={"functions": 1}, technique="abstract interpretation with the order's contract (G01) and an arbitrary edge: invariants of the layers assigned so far and of the maximum over a vertex's targets",
       rule="every edge points to a lower layer, a vertex with no edge is in layer 0, every layer is below the number of layers")
def g02(fs, rep):
    f = fs["trellis"]
    e = Eng(f, panics=True)
    box = {}
    Z = mk("sym", "vertex#", ("ghost", e.usize), ty=e.usize)

    def pre(e, st, a):
        b = AnyEdge(e, st, at(e, st, a[0]))
        box.update(b=b, g=a[0])
        for c in (ge0(Z, True), lt(Z, b.nv, True)):
            st.note(c)
    ct = Ordered(e, lambda: box["b"], lambda: box["g"])

    def cand(e, fr, head, st0, backs, W, phis, entry, repl):
        b = box["b"]
        X, Y, E = b.X, b.Y, b.E
        out = []
        js = ints(e, phis, entry, repl)
        changed = arrays(e, phis, entry)
        for a in changed:
            L = lambda v: mk("sel", a, v, ty=b.t.u32)
            for p in js:
                out.append(bor(lt(p, ct.P(Y), True), lt(L(X), L(Y), True)))
            out.append(bor(bnot(eqt(b.t.i(Z), b.t.i(padd(Z, ONE)))), eqt(L(Z), ZERO)))
        # a maximum: of all so far, or of those an edge has led to
        for a in changed + lists(e, st0):
            L = lambda v: mk("sel", a, v, ty=b.t.u32)
            for m in js:
                for one in (ZERO, ONE):
                    out.append(le(padd(L(Z), one), m, True))
                    for p in js:
                        if p is not m:
                            x = entry.get(p, subst(p, entry))
                            y = entry.get(m, subst(m, entry))
                            out.append(bor(eqt(m, y), lt(x, p, True)))
                            out.append(bor(le(p, Z, True), le(padd(L(Z), one), m, True)))
                            for low in (x, psub(x, ONE)):
                                out.append(anyof(lt(E, low, True), le(p, E, True), le(padd(L(X), one), m, True)))
        return [x for x in out if e.prove(st0, subst(x, entry), 1)]
    e.cands.append(cand)
    r = run(f, fn(f, "trellis::layering::create_layer_map"), pre=pre, eng=e, name="create_layer_map")
    if not usable(rep, r):
        return
    b = box["b"]
    oks = bad = 0
    for s, v in r.rets:
        if v.ty is None:
            v.ty = r.body["locals"][0][0]
        refused = any(x[0] == "refused" for x in s.events())
        if e.decide(s, eqt(dcr(v), ONE)) is True:
            bad += 1
            rep.ob("refused", "no layers only when there is no order", refused, r.where, facts_of(s))
            continue
        oks += 1
        m = fld(v, 0, 0, e.ti(v.ty)["a"][0])
        n, L = get(e, m, "num_layers"), get(e, m, "v_layer")
        l = lambda st, k: e.sel(st, arrof(L), k, b.t.u32)
        rep.ob("layers", "there is an order", not refused, r.where, facts_of(s))
        rep.ob("layers", "every vertex has a layer", e.eq(s, length(L), b.nv), r.where, show(length(L)))
        rep.ob("layers", "an edge points to a lower layer", e.prove(s, lt(l(s, b.X), l(s, b.Y), True)), r.where, facts_of(s))
        rep.ob("layers", "every layer is below the number of layers", e.prove(s, lt(l(s, Z), n, True)), r.where, facts_of(s))
        s2 = s.copy()
        if e.assume(s2, eqt(b.t.i(Z), b.t.i(padd(Z, ONE)))):
            rep.ob("layers", "a vertex with no edge out is in layer 0", e.prove(s2, eqt(l(s2, Z), ZERO)), r.where, facts_of(s2))
    rep.ob("layers", "both outcomes were seen", oks > 0 and bad > 0, r.where, "")
