"""V03, V08: who drops, moves and reads the items of an optional-item vector."""
from vlib.core import check, Anchor
from vlib.spec import *
from vlib.checks.vecoption import *
from vlib.engine import Unsup

GL = ("G", "dropped up to")


class Disposal:
    """watches drops in an operation.  Items dropped out of slots must go in slot order: the ghost position L is one past the last
    one, and every occupied slot of [lo, hi) that L leaps over is a leak.  `only`: no slot at all may be dropped."""

    def __init__(self, rep, rule, o, key):
        self.rep, self.rule, self.o, self.key = rep, rule, o, key
        self.lo = self.hi = None
        self.e = o.r.e if hasattr(o, "r") else None
        self.n = 0
        self.empty_first = False

    def ob(self, what, ok, st, text=""):
        self.rep.ob(self.rule, "%s: %s" % (self.key, what), ok, self.where, "%s when %s" % (text, facts_of(st)))

    def set(self, st, v):
        st.mem[GL] = v

    def L(self, e, st):
        v = st.mem.get(GL)
        if v is not None and v.ty is None and v.op not in ("n", "poly"):
            v.ty = e.usize
        return v

    def slot_of(self, v):
        """the slot a value came out of"""
        while v.op == "sel":
            if v.args[0] is self.arr or v.args[0] in self.arrs:
                return v.args[1]
            break
        return None

    def __call__(self, e, st, fr, root, projs, ty, t):
        v = e.read(st, root, projs)
        x = e.ti(ty)
        d = x.get("d") or ""
        if self.is_item(e, ty):
            self.item_dropped(e, st, v, TRUE)
        elif d == "core::option::Option" and self.is_item(e, (x.get("a") or [None])[0]):
            c = is_some(e, st, v)
            if c is not FALSE:
                self.item_dropped(e, st, payload(v, self.item), c)
        elif d == VO:
            if not e.quiet:
                if v.ty is None:
                    v.ty = ty
                w = View(e, st, v)
                self.ob("a vector dropped on the way holds nothing", none_in(e, st, w), st, show(v)[:200])
        elif d.endswith("::Vec") and self.is_item(e, (x.get("a") or [None])[0]):
            if not e.quiet:
                self.ob("item storage dropped on the way has no items", e.prove(st, eqt(length(v), ZERO)), st, show(v)[:200])
        return None

    def is_item(self, e, t):
        """the item type, as each impl names its parameter"""
        if t is None or t == self.item:
            return t is not None
        a, b = e.ti(t), e.ti(self.item)
        return a["k"] == "param" and b["k"] == "param" and a["s"].split("/")[0] == b["s"].split("/")[0]

    def item_dropped(self, e, st, v, c):
        k = self.slot_of(v)
        if not e.quiet:
            self.n += 1
        if k is None:
            if not e.quiet and e.prove(st, bnot(c)) is not True:
                self.ob("drops only what it took out of a slot", False, st, show(v)[:200])
            return
        if self.lo is None:
            if not e.quiet:
                self.ob("drops no item that it keeps or gives back", e.prove(st, bnot(c)), st, show(v)[:200])
            return
        L = self.L(e, st)
        if not e.quiet:
            s = st.copy()
            if e.assume(s, c):
                saturate(e, s, [self.old.p(k)])
                self.ob("drops occupied slots only, each once", e.prove(s, allof(le(L, k, True), le(self.lo, k, True), lt(k, self.hi, True), self.old.p(k))), s,
                        "slot %s with those before %s done" % (show(k), show(L)))
                self.ob("skips no occupied slot", none_between(e, s, self.old, L, k), s, "slot %s with those before %s done" % (show(k), show(L)))
                if self.empty_first:
                    w = View(e, s, at(e, s, self.o.me))
                    self.ob("a panic in an item's drop drops nothing twice", e.prove(s, eqt(w.n, ZERO)), s, "the item storage still has length %s" % show(w.n))
        if c is TRUE or e.prove(st, c):
            self.set(st, padd(k, ONE))
        elif e.prove(st, bnot(c)):
            pass
        else:
            # this slot is dealt with either way: an empty one has nothing to drop
            if e.prove(st, bor(c, bnot(self.old.p(k)))):
                self.set(st, padd(k, ONE))

    def skipped(self, e, fr, head, st0, backs, W, phis, entry, repl):
        """no occupied slot between the ghost position and a loop's own position"""
        L = next((phis[w] for w in W if w[0] == GL), st0.mem.get(GL))
        K = e.bv(0)
        p = self.old.p(K)
        out = []
        for w, a in phis.items():
            if w[1] and w[1][-1] == ("el",) and w[1][-2][:3] == ("f", 0, self.old.ib):
                # the slots given out are empty
                x = mk("sel", a, K, ty=e.boolt)
                for w2, c in phis.items():
                    if c.ty is not None and e.kind(c.ty) == "int" and c not in repl and w2[0] != GL:
                        out.append((x, K, band(ge0(K, True), gt0(psub(c, K), True)), bnot(x)))
        if L is None:
            return out
        for w, c in phis.items():
            if w[0] != GL and c.ty is not None and e.kind(c.ty) == "int" and c not in repl:
                out.append((p, K, band(ge0(psub(K, L), True), gt0(psub(c, K), True)), bnot(p)))
        return out

    def finish(self, e, st):
        if self.lo is not None:
            self.ob("every occupied slot is dropped", none_between(e, st, self.old, self.L(e, st), self.hi), st, "those before %s are" % show(self.L(e, st)))


def none_in(e, st, w):
    k = k_(e, "m")
    s = st.copy()
    if not e.assume(s, band(ge0(k, True), lt(k, w.nb, True))):
        return True
    p = w.p(k, s)
    saturate(e, s, [p])
    return e.prove(s, bnot(p))


def watched(f, rep, rule, name, trait=None, byval=False, rangeof=None, empty_first=False, hooks=None):
    """one operation analysed with its drops watched; rangeof(op args, old view) -> (lo, hi) of the slots to drop, None: none"""
    m = method(f, VO, name, trait)
    box = Disposal(rep, rule, None, name)
    box.where = body(f, m)["span"]

    def more(e, st, a):
        me = a[0]
        old = View(e, st, me if byval else at(e, st, me))
        box.old, box.arr, box.arrs, box.item = old, arrof(old.vec), set(), old.item
        box.e = e
        e.drops = box
        e.related = True
        e.qcands.append(box.skipped)
        st.note(mk("sym", "needs_drop", ty=e.boolt))
        if rangeof:
            box.lo, box.hi = rangeof(e, a, old)
            st.mem[GL] = box.lo
    o = Op.__new__(Op)
    box.o = o
    box.empty_first = empty_first

    def pre(e, st, a):
        o.me = a[0]
        selfpre(byval, more)(e, st, a)
    o.r = r = run(f, m, pre=pre, name="VecOption::" + name, hooks=hooks)
    o.ok = usable(rep, r)
    o.old, o.me = box.old, r.args[0]
    o.root, o.projs, o.iv = ("P", o.me), (), o.old.iv
    return o, box


@check("V03", floors={"functions": 15}, technique="abstract interpretation with every drop watched against a ghost position",
       rule="dropping the vector, or what an operation replaces, drops every such occupied slot's item once and nothing else")
def v03(facts, rep):
    f = facts["trellis"]
    rule = "items are dropped once"
    # the destructor
    o, box = watched(f, rep, rule, "drop", "Drop", rangeof=lambda e, a, old: (ZERO, old.n), empty_first=True)
    if o.ok:
        e = o.r.e
        for s, v in o.r.rets:
            box.finish(e, s)
            w = o.new(s)
            box.ob("leaves nothing for the item storage to drop", e.prove(s, eqt(w.n, ZERO)), s, "length %s" % show(w.n))
        no_panic(rep, o.r, "no panic")
    # storing
    for name in ("set", "set_some", "set_none"):
        o, box = watched(f, rep, rule, name, rangeof=lambda e, a, old: (a[1], padd(a[1], ONE)))
        if o.ok:
            for s, v in o.r.rets:
                box.finish(o.r.e, s)
    # operations that drop nothing
    for name, trait, byval in (("replace", None, False), ("replace_some", None, False), ("replace_none", None, False), ("swap", None, False), ("push", None, False),
                               ("push_some", None, False), ("push_none", None, False), ("reserve", None, False), ("pop", None, False), ("pop_some", None, False),
                               ("compact", None, False), ("some_into_vec", None, True), ("drain", None, False), ("into_some_iter", None, True), ("into_iter", "IntoIterator", True)):
        o, box = watched(f, rep, rule, name, trait, byval)
        rep.ob(rule, name + ": analysed to its end", o.ok and bool(o.r.rets), o.r.where, "no outcome")
    # iterators that own or empty the slots: dropped anywhere, they drop the rest
    from vlib.iterate import steps
    for name, trait, byval in (("into_iter", "IntoIterator", True), ("into_some_iter", None, True), ("drain", None, False)):
        o, box = watched(f, rep, rule, name, trait, byval)
        if not o.ok:
            continue
        r, e, old = o.r, o.r.e, o.old
        for s, v in r.rets:
            if v.ty is None:
                v.ty = r.body["locals"][0][0]
            d = f.adts.get(v.args[0]) if v.op == "agg" else None
            dr = method(f, v.args[0], "drop", "Drop") if d and d.get("drop") else None

            def emit(e, st, j, L, x):
                if byval and name != "into_iter":
                    return padd(x.args[1], ONE) if x.op == "sel" else L
                return padd(j, ONE)

            def left(e, st, j, L, it):
                if dr is None:
                    x = e.read(st, *e.deref(st, it))
                    # the vector inside, dropped with the iterator
                    w = [y for y in (x.args[2:] if x.op == "agg" else ()) if y.op == "agg" and y.args[0] == VO]
                    box.ob("the iterator holds the vector", len(w) == 1, st, show(x)[:100])
                    if len(w) != 1:
                        return
                    if w[0].ty is None:
                        w[0].ty = o.old.v.ty
                    w = View(e, st, w[0])
                    k = k_(e, "m")
                    for c, given in ((lt(k, L, True), True), (le(L, k, True), False)):
                        s2 = st.copy()
                        if not e.assume(s2, allof(ge0(k, True), lt(k, old.n, True), c)):
                            continue
                        saturate(e, s2, [w.p(k, s2), old.p(k)])
                        if given:
                            box.ob("what was given out is no longer in the vector", e.prove(s2, bnot(w.p(k, s2))), s2, "slot k of those before %s" % show(L))
                        else:
                            s3 = s2.copy()
                            ok = e.eq(s2, w.p(k, s2), old.p(k)) and (not e.assume(s3, old.p(k)) or e.eq(s3, w.x(k, s3), old.x(k)))
                            box.ob("the rest is still in the vector", ok and e.eq(s2, w.nb, old.n), s2, "slot k from %s on" % show(L))
                    return
                # its own destructor drops the rest of the range
                s2 = st.copy()
                box.lo, box.hi = padd(v_start, j), v_end
                box.set(s2, box.lo)
                try:
                    outs = e.run(body(f, dr), [it], s2)
                except Unsup as u:
                    rep.ob("analysed", name + ": dropping", False, r.where, str(u))
                    outs = []
                q, e.lg.DEPTH = e.lg.DEPTH, 6
                for k, s3, _ in outs:
                    if k == "ret":
                        box.finish(e, s3)
                e.lg.DEPTH = q
                box.lo = box.hi = None
            if dr is not None:
                v_start, v_end = drain_limits(r, old)(s)
            out, err, hits = steps(r, s, v, r.body["retnext"], emit, lambda *a: None, left)
            rep.ob("analysed", name + " stepping", err is None and hits["partial"], r.where, err or "no state between items: %s" % hits)
            rep.count("outcomes", hits["partial"])


GO = ("G", "owned")


class Owned:
    """O[k]: slot k's memory holds an item nobody else has.  Starts as the presence bits; an item moved out leaves, one written
    arrives, and a copy of memory takes ownership along.  Reading needs O, overwriting needs not O."""

    def __init__(self, rep, where, key):
        self.rep, self.where, self.key, self.n = rep, where, key, 0
        self.moved_blocks = False

    def start(self, e, st, v):
        w = View(e, st, v)
        self.ty, self.iv, self.ib, self.n0, self.bits0 = v.ty, w.iv, w.ib, w.n, arrof(w.bits)
        st.mem[GO] = self.bits0
        K = e.bv(0)
        o = mk("sel", self.bits0, K, ty=e.boolt)
        st.fa = st.fa + ((o, K, ge0(psub(K, self.n0), True), bnot(o)),)
        e.uses, e.own = self.use, self.own
        e.qcands.append(self.facts)
        e.related = True

    def O(self, e, st, k):
        return e.sel(st, st.mem[GO], k, e.boolt)

    def slot(self, e, st, root, projs, whole=False):
        """the slot a place is, None when it is none"""
        for i in range(len(projs)):
            if projs[i][0] == "f" and projs[i][2] == self.iv:
                if whole and i == len(projs) - 1 or not whole and i < len(projs) - 2 and projs[i + 1] == ("el",) and projs[i + 2][0] == "ix":
                    v = e.read(st, root, projs[:i])
                    if not (v.ty is not None and e.ti(v.ty).get("d") == VO or v.op == "agg" and v.args[0] == VO):
                        continue
                    if whole:
                        return ZERO
                    return projs[i + 2][1]
        return None

    def need(self, e, st, k, what, want=True, given=TRUE):
        if e.quiet:
            return
        self.n += 1
        s = st.copy()
        if not e.assume(s, given):
            return
        d, e.lg.DEPTH = e.lg.DEPTH, 6
        p = self.O(e, s, k)
        saturate(e, s, [p])
        ok = e.prove(s, p if want else bnot(p)) and e.prove(s, le(ZERO, k, True))
        e.lg.DEPTH = d
        self.rep.ob("items stay accounted for", "%s: %s" % (self.key, what), ok, self.where, "slot %s when %s" % (show(k), facts_of(s)))

    def put(self, e, st, k, v):
        st.mem[GO] = e.store(st, st.mem[GO], k, v)

    def use(self, e, st, root, projs):
        k = self.slot(e, st, root, projs)
        if k is not None:
            self.need(e, st, k, "an item is read only where one is stored")

    def own(self, kind, e, st, p, *a):
        if p.op != "ptr":
            return
        root, projs = p.args
        if kind in ("push", "pop", "clear", "truncate"):
            if self.slot(e, st, root, projs, True) is None:
                return
            n = a[0]
            if kind == "push":
                self.put(e, st, n, TRUE)
            elif kind == "pop":
                self.need(e, st, psub(n, ONE), "an item is popped only where one is stored", given=gt0(n, True))
                self.put(e, st, psub(n, ONE), FALSE)
            elif not e.quiet:
                self.rep.ob("items stay accounted for", "%s: the item storage is cut only when it is empty" % self.key, e.prove(st, eqt(n, ZERO)), self.where, kind)
            return
        k = self.slot(e, st, root, projs)
        if kind == "copy":
            k2 = self.slot(e, st, *a[0].args) if a[0].op == "ptr" else None
            if k is None and k2 is None:
                return
            if k is None or k2 is None:
                self.need(e, st, ZERO, "items are copied between slots of one vector", given=FALSE)
                if not e.quiet:
                    self.rep.ob("items stay accounted for", "%s: memory is copied between slots only" % self.key, False, self.where, show(p)[:100])
                return
            if a[1] is ONE:
                o = self.O(e, st, k)
                self.put(e, st, k, FALSE)
                self.put(e, st, k2, o)
            else:
                A = st.mem[GO]
                self.moved_blocks = True
                st.mem[GO] = mk("acopy", A, k2, A, k, a[1], ty=A.ty)
            return
        if k is None:
            return
        if kind == "move":
            self.put(e, st, k, FALSE)
        elif kind == "drop":
            self.need(e, st, k, "an item is dropped only where one is stored")
            self.put(e, st, k, FALSE)
        elif kind == "put":
            self.need(e, st, k, "an item is stored only where none is", want=False)
            self.put(e, st, k, TRUE)

    def facts(self, e, fr, head, st0, backs, W, phis, entry, repl):
        K = e.bv(0)
        out = []
        O = next((phis[w] for w in W if w[0] == GO), None)
        B = [phis[w] for w in W if len(w[1]) > 1 and w[1][-1] == ("el",) and w[1][-2][0] == "f" and w[1][-2][2] == self.ib]
        if O is None and not B:
            return []
        O = O if O is not None else st0.mem.get(GO)
        o = e.sel(st0, O, K, e.boolt)
        for b in B or [self.bits0]:
            x = e.sel(st0, b, K, e.boolt)
            out.append((o, K, TRUE, bnot(bxor(o, x))))
            out.append((o, K, band(ge0(K, True), gt0(psub(self.n0, K), True)), bnot(bxor(o, x))))
        ints = [phis[w] for w in W if phis[w].ty is not None and e.kind(phis[w].ty) == "int" and phis[w] not in repl and w[0] != GL]
        for b in ints:
            out.append((o, K, band(ge0(K, True), gt0(psub(b, K), True)), o))
            out.append((o, K, ge0(psub(K, b), True), bnot(bxor(o, e.sel(st0, self.bits0, K, e.boolt)))))
            out.append((o, K, band(ge0(K, True), gt0(psub(b, K), True)), bnot(o)))
            for a in ints:
                if a is not b:
                    x = e.sel(st0, self.bits0, K, e.boolt)
                    out.append((x, K, allof(ge0(K, True), gt0(psub(b, K), True), eqt(a, b)), x))
                    out.append((o, K, band(ge0(psub(K, a), True), gt0(psub(b, K), True)), bnot(o)))
        return out[:24]

    def agree(self, e, st, v, what):
        """occupied slots are owned, and nothing else is"""
        if v.ty is None:
            v.ty = self.ty
        w = View(e, st, v)
        k = k_(e, "m")
        for c, inside in ((lt(k, w.n, True), True), (band(le(w.n, k, True), lt(k, self.n0, True)), False)):
            if not inside and self.moved_blocks:
                continue
            s = st.copy()
            if not e.assume(s, band(ge0(k, True), c)):
                continue
            o, p = self.O(e, s, k), w.p(k, s)
            ok = True
            for s2, x in settled(e, s, bnot(bxor(o, p)) if inside else bnot(o)):
                saturate(e, s2, [x])
                ok = ok and e.prove(s2, x)
            self.rep.ob("items stay accounted for", "%s: %s" % (self.key, what if inside else "no item is left behind past the end"), ok, self.where,
                        "slot m %s, presence %s when %s" % (show(o)[:150], show(p)[:150], facts_of(s)))


@check("V08", floors={"functions": 25, "item moves and reads": 30}, technique="abstract interpretation with slot ownership as ghost typestate",
       rule="an item is read, moved or dropped only where one is stored, overwritten nowhere, and afterwards exactly the occupied slots hold one")
def v08(facts, rep):
    from vlib.iterate import steps
    f = facts["trellis"]
    for name, trait, byval in (
            ("get_ref", None, False), ("get_mut", None, False), ("get_copy", None, False), ("get_clone", None, False),
            ("replace", None, False), ("replace_some", None, False), ("replace_none", None, False), ("set", None, False), ("set_some", None, False), ("set_none", None, False),
            ("swap", None, False), ("push", None, False), ("push_some", None, False), ("push_none", None, False), ("reserve", None, False), ("pop", None, False),
            ("pop_some", None, False), ("compact", None, False), ("some_into_vec", None, True), ("drop", "Drop", False), ("clone", "Clone", False),
            ("drain", None, False), ("into_iter", "IntoIterator", True), ("into_some_iter", None, True), ("iter", None, False), ("iter_mut", None, False),
            ("iter_some_index", None, False), ("iter_some_index_mut", None, False), ("iter_runs", None, False), ("iter_runs_mut", None, False)):
        m = method(f, VO, name, trait)
        u = Owned(rep, body(f, m)["span"], name)

        def more(e, st, a):
            st.note(mk("sym", "needs_drop", ty=e.boolt))
            u.start(e, st, a[0] if byval else at(e, st, a[0]))
        r = run(f, m, pre=selfpre(byval, more), name="VecOption::" + name)
        if not usable(rep, r):
            continue
        e = r.e
        nxt = r.body.get("retnext")
        for s, v in r.rets:
            if v.ty is None:
                v.ty = r.body["locals"][0][0]
            if not nxt:
                if byval:
                    # the vector is given away as a Vec of as many items
                    k = k_(e, "m")
                    s2 = s.copy()
                    if e.assume(s2, band(ge0(k, True), lt(k, length(v), True))):
                        o = u.O(e, s2, k)
                        saturate(e, s2, [o])
                        rep.ob("items stay accounted for", name + ": every slot given away holds an item", e.prove(s2, o), r.where, "slot m %s when %s" % (show(o)[:150], facts_of(s2)))
                else:
                    u.agree(e, s, at(e, s, r.args[0]), "exactly the occupied slots hold an item afterwards")
                continue
            dr = None
            if v.op == "agg" and (f.adts.get(v.args[0]) or {}).get("drop"):
                dr = method(f, v.args[0], "drop", "Drop")

            def part(e, st, j, L, it):
                d, e.lg.DEPTH = e.lg.DEPTH, 6
                x = e.read(st, *e.deref(st, it))
                if not byval:
                    u.agree(e, st, at(e, st, r.args[0]), "exactly the occupied slots hold an item between steps")
                else:
                    w = [y for y in (x.args[2:] if x.op == "agg" else ()) if y.op == "agg" and y.args[0] == VO]
                    if w:
                        u.agree(e, st, w[0], "exactly the occupied slots hold an item between steps")
                e.lg.DEPTH = d
                if dr is not None:
                    try:
                        outs = e.run(body(f, dr), [it], st.copy())
                    except Unsup as x:
                        rep.ob("analysed", name + ": dropping", False, r.where, str(x))
                        return
                    e.lg.DEPTH = 6
                    for k, s2, _ in outs:
                        if k == "ret":
                            u.agree(e, s2, at(e, s2, r.args[0]), "exactly the occupied slots hold an item afterwards")
                    e.lg.DEPTH = d
            out, err, hits = steps(r, s, v, nxt, lambda e, st, j, L, x: ZERO, lambda *a: None, part)
            rep.ob("analysed", name + " stepping", err is None and hits["emit"], r.where, err or "no item")
        rep.count("item moves and reads", u.n)
