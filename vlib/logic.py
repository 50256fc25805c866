"""The numeric/boolean part of the abstract domain: conjunctions of facts and an entailment test (linear elimination, case splits)."""
from vlib.terms import *
from vlib import lin


class Logic:
    """facts are boolean terms; `unsat` answers whether a conjunction is contradictory (True = certainly)"""
    DEPTH = 3

    def __init__(self, types, adts):
        self.types = types
        self.adts = adts
        self._fa = {}
        self._imp = {}
        self._con = {}
        self._cl = {}
        self._memo = {}
        self._cache = {}
        self.queries = 0
        self.axioms = []        # functions atom -> list of facts

    # ---- kinds
    def prim(self, t):
        if t is None or t < 0:
            return None
        x = self.types[t]
        return x["s"] if x["k"] == "prim" else None

    def unsigned(self, a):
        o = a.op
        if o in ("len", "dcr", "b2i", "sqrt", "irem", "abs"):
            return True
        if o == "idiv":
            return True
        p = self.prim(a.ty)
        return p is not None and (p[0] == "u" or p == "char")

    def plain(self, x):
        """a sum of numbers that cannot be negative"""
        return all(c >= 0 and all(self.unsigned(a) for a in m) for m, c in toP(x).items())

    def implied(self, a):
        r = self._imp.get(a)
        if r is None:
            r = []
            if self.unsigned(a):
                r.append(mk("ge0", a, True))
            o = a.op
            if o in ("idiv", "irem"):
                # of numbers that are not negative; anything else has no meaning and counts as zero
                x, b = a.args
                ok = band(ge0(x, True), gt0(b, True))
                if self.plain(x):
                    ok = gt0(b, True)
                if o == "idiv" and b.op == "n" and b.args[0] > 0:
                    fs = [ge0(psub(x, pscale(a, b.args[0])), True), ge0(psub(padd(pscale(a, b.args[0]), num(b.args[0] - 1)), x), True)]
                elif o == "idiv":
                    fs = [ge0(psub(x, a), True)]
                else:
                    fs = [ge0(psub(psub(b, a), ONE), True), ge0(psub(x, a), True)]
                r.extend(bor(bnot(ok), f) for f in fs)
            elif o == "b2i":
                r.append(ge0(psub(ONE, a), True))
            elif o == "dcr" and a.args[0].ty is not None:
                t = self.types[a.args[0].ty]
                vf = t.get("vf")
                if vf:
                    r.append(ge0(psub(num(len(vf) - 1), a), True))
            elif o == "abs":
                r.append(ge0(psub(a, a.args[0]), False))
                r.append(ge0(padd(a, a.args[0]), False))
            for f in self.axioms:
                r.extend(f(a))
            r = [x for x in r if x is not TRUE]
            self._imp[a] = r
        return r

    def fatoms(self, b):
        """the numeric atoms (and boolean leaves) a fact talks about"""
        r = self._fa.get(b)
        if r is None:
            s = set()
            o = b.op
            if o in ("ge0", "gt0", "eq0"):
                for m in toP(b.args[0]):
                    s.update(m)
                for a in list(s):
                    s |= self.iatoms(a)
            elif o in ("not", "and", "xor"):
                for x in b.args:
                    s |= self.fatoms(x)
            elif o != "b":
                s.add(b)
                s |= self.iatoms(b)
            r = self._fa[b] = frozenset(s)
        return r

    def iatoms(self, a):
        """the numbers an array read or call depends on"""
        s = set()
        while a.op in ("dcr", "fld", "len") and isinstance(a.args[0], T):
            a = a.args[0]
        if a.op in ("sel", "app", "item"):
            for x in a.args:
                if isinstance(x, T) and x.op in ("poly", "phi", "sym", "sel", "app", "fld", "bv", "len"):
                    for m in toP(x):
                        s.update(m)
        return s

    # ---- satisfiability
    def unsat(self, facts, goal, depth=None):
        """facts: iterable of terms known; goal: list of terms added"""
        if depth is None:
            depth = self.DEPTH
        self.queries += 1
        goal2 = []
        st = list(goal)
        while st:
            g = st.pop()
            if g is FALSE:
                return True
            if g is TRUE:
                continue
            if g.op == "and":
                st.extend(g.args)
            else:
                goal2.append(g)
        if not goal2:
            return False
        goal = goal2
        seen = set()
        for g in goal:
            seen |= self.fatoms(g)
        rel, rest = list(goal), [f for f in facts]
        extra = set()
        todo = set(seen)
        index = {}
        for f in rest:
            for a in self.fatoms(f):
                index.setdefault(a, []).append(f)
        chosen = set(goal)
        # a read at a known place may be the same as a read of the array elsewhere
        known = {}
        for a in index:
            if a.op == "sel" and a.args[1].op == "n":
                known.setdefault(a.args[0], []).append(a)
        while todo:
            a = todo.pop()
            if a.op == "sel":
                for b in known.get(a.args[0], ()):
                    if b not in seen:
                        seen.add(b)
                        todo.add(b)
            for f in index.get(a, ()):
                if f not in chosen:
                    chosen.add(f)
                    rel.append(f)
                    for b in self.fatoms(f):
                        if b not in seen:
                            seen.add(b)
                            todo.add(b)
            for f in self.implied(a):
                if f not in chosen:
                    chosen.add(f)
                    rel.append(f)
                    for b in self.fatoms(f):
                        if b not in seen:
                            seen.add(b)
                            todo.add(b)
        return self._unsat(rel, depth)

    def flat(self, fs):
        out, st = [], list(fs)[::-1]
        seen = set()
        while st:
            f = st.pop()
            if f is TRUE or f in seen:
                continue
            seen.add(f)
            if f is FALSE:
                return None
            if f.op == "and":
                st.extend(f.args)
            elif f.op == "xor":
                a, b = f.args
                st.append(bor(a, b))
                st.append(bnot(band(a, b)))
            elif f.op == "not" and f.args[0].op == "xor":
                a, b = f.args[0].args
                st.append(bor(bnot(a), b))
                st.append(bor(a, bnot(b)))
            else:
                out.append(f)
        return out

    def _unsat(self, fs, depth):
        fs = self.flat(fs)
        if fs is None:
            return True
        lits = frozenset(fs)
        r = self._memo.get(lits)
        if r is not None and (r[1] or r[0] >= depth):
            return r[1]
        r = self.decide_(fs, lits, depth)
        self._memo[lits] = (depth, r)
        return r

    def decide_(self, fs, lits, depth):
        ids, eqs, disj, diseq, mon = [], [], [], [], set()
        for f in fs:
            o = f.op
            if o in ("ge0", "gt0", "eq0"):
                i = self.con(f)
                if i is False:
                    return True
                ids.append(i)
                mon.update(toP(f.args[0]))
                if o == "eq0":
                    eqs.append(toP(f.args[0]))
            elif o == "not":
                g = f.args[0]
                if g in lits:
                    return True
                if g.op == "eq0":
                    diseq.append(g.args[0])
                elif g.op == "and":
                    disj.append(f)
        for m in mon:
            if len(m) > 1:
                if all(self.unsigned(a) for a in m):
                    ids.append(lin.con({m: 1}, False, True))
                elif len(m) % 2 == 0 and all(m[i] is m[i + 1] for i in range(0, len(m), 2)):
                    ids.append(lin.con({m: 1}, False, False))
        sy = lin.Sys(ids)
        if sy.bad:
            return True
        # known constants inside products
        nl = set(a for m in mon if len(m) > 1 for a in m)
        if nl:
            for p in eqs:
                ms = [m for m in p if m != ()]
                if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0] in nl:
                    a = ms[0][0]
                    v = num(Fraction(-p.get((), 0)) / Fraction(p[ms[0]]))
                    keep = eq0(psub(a, v))
                    fs2 = [subst(f, {a: v}) for f in fs if f is not keep and f != keep]
                    return self._unsat(fs2, depth)
        # disequalities
        for p in diseq:
            isint = self.intp(p)
            a = sy.with_([lin.con(toP(p), True, isint)])
            b = sy.with_([lin.con(toP(pneg(p)), True, isint)])
            if a and b:
                return True
            g = mk("not", eq0(p))
            if a or b:
                fs2 = [f for f in fs if f is not g] + [gt0(pneg(p) if a else p, isint)]
                return self._unsat(fs2, depth)
        # clauses: alternatives that fail outright are dropped, one that is left over holds
        best = None
        gone, units = None, []
        for d in disj:
            alts, skip = [], False
            for g in self.clause(d):
                if g in lits:
                    skip = True
                    break
                if not self.dead(g, sy, lits):
                    alts.append(g)
            if skip:
                (gone := gone or set()).add(d)
                continue
            if not alts:
                return True
            if len(alts) == 1:
                (gone := gone or set()).add(d)
                units.append(alts[0])
                continue
            if best is None or len(alts) < len(best[0]):
                best = (alts, d)
        if gone:
            fs = [f for f in fs if f not in gone]
        if units:
            return self._unsat(fs + units, depth)
        # array reads over writes, equal indices
        r = self.split_term(fs, sy)
        if r is not None and (len(r) == 1 or depth > 0):
            return self.split(r, depth)
        if depth <= 0:
            return False
        if best is not None:
            alts, d = best
            rest = [f for f in fs if f is not d]
            cases, neg = [], []
            for g in alts:
                cases.append(rest + neg + [g])
                neg = neg + [bnot(g)]
            return self.split(cases, depth)
        for p in diseq:
            isint = self.intp(p)
            g = mk("not", eq0(p))
            rest = [f for f in fs if f is not g]
            return self.split([rest + [gt0(p, isint)], rest + [gt0(pneg(p), isint)]], depth)
        return False

    def split(self, alts, depth):
        """a case split; one that leaves a single case does not use up depth"""
        if len(alts) == 1:
            return self._unsat(alts[0], depth)
        left = [a for a in alts if not self._unsat(a, 0)]
        if len(left) == 1:
            return self._unsat(left[0], depth)
        return all(self._unsat(a, depth - 1) for a in left)

    def con(self, f):
        """the linear constraint a literal states"""
        r = self._con.get(f, -1)
        if r == -1:
            o, p = f.op, toP(f.args[0])
            if o == "ge0":
                r = lin.con(p, False, f.args[1])
            elif o == "gt0":
                r = lin.con(p, True, False)
            else:
                r = lin.con(p, False, self.intp(f.args[0]), True)
            self._con[f] = r
        return r

    def holds(self, x, lits):
        return x in lits or (x.op == "and" and all(self.holds(y, lits) for y in x.args))

    def clause(self, d):
        """the alternatives of a disjunction"""
        r = self._cl.get(d)
        if r is None:
            r = []
            st = list(d.args[0].args)
            while st:
                x = st.pop()
                if x.op == "and":
                    st.extend(x.args)
                else:
                    r.append(bnot(x))
            r = self._cl[d] = tuple(r[::-1])
        return r

    def dead(self, g, sy, lits):
        """a literal or conjunction contradicted outright"""
        ex = []
        st = [g]
        while st:
            x = st.pop()
            if x is FALSE or bnot(x) in lits:
                return True
            if x.op == "and":
                st.extend(x.args)
            elif x.op == "not" and x.args[0].op == "and" and all(self.holds(y, lits) for y in x.args[0].args):
                return True
            elif x.op in ("ge0", "gt0", "eq0"):
                ex.append(self.con(x))
        return bool(ex) and sy.with_(ex)

    def intp(self, p):
        for m, c in toP(p).items():
            if isinstance(c, Fraction):
                return False
            for a in m:
                if not self.inta(a):
                    return False
        return True

    def inta(self, a):
        if a.op in ("len", "dcr", "b2i", "irem", "idiv", "trunc"):
            return True
        p = self.prim(a.ty)
        return p is not None and p[0] in "uic" and p != "f64"

    def split_term(self, fs, sy):
        """a store/select or congruence case to split on"""
        ats = set()
        for f in fs:
            for a in self.fatoms(f):
                atoms(a, ats)
        for a in sorted(ats, key=lambda x: x.id):
            if a.op == "sel" and a.args[0].op == "store":
                arr, j, v = a.args[0].args[:3]
                i = a.args[1]
                e = eq0(psub(i, j))
                return [[subst(f, {a: v}) for f in fs] + [e],
                        [subst(f, {a: sel_raw(arr, i, a.ty)}) for f in fs] + [bnot(e)]]
            if a.op == "sel" and a.args[0].op == "acopy":
                dst, di, src, si, n = a.args[0].args
                i = a.args[1]
                lo, hi = ge0(psub(i, di), True), gt0(psub(padd(di, n), i), True)
                d = subst_all(fs, {a: sel_raw(dst, i, a.ty)})
                return [subst_all(fs, {a: sel_raw(src, padd(psub(i, di), si), a.ty)}) + [lo, hi], d + [bnot(lo)], d + [bnot(hi)]]
            if a.op == "sel" and a.args[0].op == "cat":
                x, n, y = a.args[0].args
                i = a.args[1]
                c = ge0(psub(i, n), True)
                return [subst_all(fs, {a: sel_raw(y, psub(i, n), a.ty)}) + [c], subst_all(fs, {a: sel_raw(x, i, a.ty)}) + [bnot(c)]]
        # congruence: same operator, arguments equal except one numeric argument
        groups = {}
        for a in ats:
            if a.op in ("sel", "app", "fld", "item"):
                groups.setdefault((a.op, len(a.args)), []).append(a)
        for g in groups.values():
            g.sort(key=lambda x: x.id)
            for x in range(len(g)):
                for y in range(x + 1, len(g)):
                    a, b = g[x], g[y]
                    d = self.differ(a, b)
                    if d is None:
                        continue
                    p = psub(d[0], d[1])
                    if p.op == "n":
                        continue
                    e = eq0(p)
                    if e in fs or bnot(e) in fs:
                        if e in fs:
                            return [[subst(f, {b: a}) for f in fs if f is not e] + [e]] if any(b in atoms(f) for f in fs if f is not e) else None
                        continue
                    isint = self.intp(p)
                    if sy.with_([lin.con(toP(p), True, isint)]) and sy.with_([lin.con(toP(pneg(p)), True, isint)]):
                        return [[subst(f, {b: a}) for f in fs] + [e]]
        return None

    @staticmethod
    def differ(a, b):
        """the single pair of numeric terms in which two terms differ"""
        if a.op != b.op or len(a.args) != len(b.args):
            return None
        d = None
        for x, y in zip(a.args, b.args):
            if x is y or x == y:
                continue
            if not isinstance(x, T) or not isinstance(y, T):
                return None
            if x.op == y.op and x.op in ("fld", "sel", "app", "item") and a.op != "sel":
                r = Logic.differ(x, y)
            elif a.op in ("sel", "item") and x is a.args[1]:
                r = (x, y)
            elif a.op == "sel" and x is a.args[0]:
                r = Logic.differ(x, y)
            elif a.op == "app":
                r = (x, y)
            else:
                return None
            if r is None or d is not None:
                return None
            d = r
        return d


def subst_all(fs, mp):
    return [subst(f, mp) for f in fs]
