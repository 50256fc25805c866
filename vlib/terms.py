"""Hash-consed value terms, polynomial normal forms and a linear-arithmetic entailment test.

Terms are the abstract values of the analysis: value numbers. Two places hold the same value whenever they hold the same term.
Numbers are kept as polynomials over atomic terms (exact rational arithmetic), so algebraically equal values are equal terms.
"""
from fractions import Fraction
from math import gcd


class T:
    __slots__ = ("op", "args", "ty", "id", "bits", "__weakref__")

    def __hash__(self):
        return self.id

    def __repr__(self):
        return show(self)


_tab = {}
_n = [0]


def _bits(args):
    """which terms may occur inside: a term is inside another only if its own bit is set there"""
    r = 0
    for x in args:
        if x.__class__ is T:
            r |= x.bits
        elif x.__class__ is tuple:
            r |= _bits(x)
    return r


def own(t):
    return 1 << (t.id * 2654435761 >> 7) % 509


def mk(op, *args, ty=None):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op, t.args, t.ty = op, args, ty
        _n[0] += 1
        t.id = _n[0]
        t.bits = _bits(args) | 1 << (t.id * 2654435761 >> 7) % 509
        _tab[k] = t
    elif t.ty is None and ty is not None:
        t.ty = ty
    return t


TRUE = mk("b", True)
FALSE = mk("b", False)
UNIT = mk("agg", "tuple", 0)
UNDEF = mk("undef")


def boolc(v):
    return TRUE if v else FALSE


def isagg(t):
    return t.op == "agg"


# ---------------------------------------------------------------- numbers

def norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return int(c)
    return c


def num(c):
    return mk("n", norm(c))


ZERO = num(0)
ONE = num(1)


def toP(t):
    """term -> {monomial (tuple of atom ids): coefficient}"""
    if t.op == "n":
        return {(): t.args[0]} if t.args[0] != 0 else {}
    if t.op == "poly":
        return dict(t.args[0])
    return {(t,): 1}


def mono_key(m):
    return tuple(a.id for a in m)


def fromP(d):
    items = [(m, norm(c)) for m, c in d.items() if c != 0]
    if not items:
        return ZERO
    if len(items) == 1:
        m, c = items[0]
        if m == ():
            return num(c)
        if c == 1 and len(m) == 1:
            return m[0]
    items.sort(key=lambda x: mono_key(x[0]))
    return mk("poly", tuple(items))


def padd(a, b, k=1):
    d = toP(a)
    for m, c in toP(b).items():
        d[m] = d.get(m, 0) + k * c
        if d[m] == 0:
            del d[m]
    return fromP(d)


def psub(a, b):
    return padd(a, b, -1)


def pmul(a, b):
    if a.op == "n" and a.args[0] == 1:
        return b
    if b.op == "n" and b.args[0] == 1:
        return a
    d = {}
    pb = toP(b)
    for m1, c1 in toP(a).items():
        for m2, c2 in pb.items():
            m = tuple(sorted(m1 + m2, key=lambda x: x.id))
            m = cancel(m)
            d[m] = d.get(m, 0) + c1 * c2
    return fromP(d)


def cancel(m):
    """x * inv(x) = 1, sqrt(x)*sqrt(x) stays"""
    invs = [a for a in m if a.op == "inv"]
    if not invs:
        return m
    m = list(m)
    for iv in invs:
        if iv.args[0] in m and iv in m:
            m.remove(iv)
            m.remove(iv.args[0])
    return tuple(m)


def pscale(a, c):
    return fromP({m: x * c for m, x in toP(a).items()})


def pneg(a):
    return pscale(a, -1)


def pdiv(a, b):
    """real division"""
    if b.op == "n" and b.args[0] != 0:
        return pscale(a, Fraction(1) / Fraction(b.args[0]))
    # divide by the leading coefficient so that 1/(2x) and 1/x agree
    p = toP(b)
    if not p:
        return mk("inv0", a)
    lead = sorted(p.items(), key=lambda x: mono_key(x[0]))[-1][1]
    bb = pscale(b, Fraction(1) / Fraction(lead))
    pb = toP(bb)
    if len(pb) == 1:
        (m, c), = pb.items()
        r = pscale(a, Fraction(1) / Fraction(lead))
        for at in m:
            if at.op == "inv":
                r = pmul(r, at.args[0])
            else:
                r = pmul(r, mk("inv", at))
        return r
    return pmul(pscale(a, Fraction(1) / Fraction(lead)), mk("inv", bb))


def is_const(t):
    return t.op == "n"


def subst(t, mp, memo=None):
    """replace terms (atoms) by terms, renormalising"""
    if memo is None:
        b = 0
        for x in mp:
            b |= 1 << (x.id * 2654435761 >> 7) % 509
        memo = {None: b}
    if t in mp:
        return mp[t]
    if not t.bits & memo[None]:
        return t
    if t in memo:
        return memo[t]
    if t.op == "poly":
        r = ZERO
        for m, c in t.args[0]:
            x = num(c)
            for a in m:
                x = pmul(x, subst(a, mp, memo))
            r = padd(r, x)
    elif t.op in ("ge0", "gt0", "eq0", "not", "and", "or"):
        a = [subst(x, mp, memo) if isinstance(x, T) else x for x in t.args]
        r = rebuild_bool(t.op, a)
    elif t.op == "inv":
        r = pdiv(ONE, subst(t.args[0], mp, memo))
    else:
        a = tuple(subst_any(x, mp, memo) for x in t.args)
        r = t if a == t.args else remake(t.op, a, t.ty)
    memo[t] = r
    return r


def subst_any(x, mp, memo):
    if isinstance(x, T):
        return subst(x, mp, memo)
    if isinstance(x, tuple):
        return tuple(subst_any(y, mp, memo) for y in x)
    return x


def remake(op, a, ty):
    if op == "sel":
        return sel_raw(a[0], a[1], ty)
    if op == "fld":
        return fld(a[0], a[1], a[2], ty)
    if op == "dcr":
        return dcr(a[0])
    if op == "agg":
        return agg(a[0], a[1], *a[2:], ty=ty)
    if op == "len":
        return length(a[0])
    if op == "arr":
        return arrof(a[0])
    return mk(op, *a, ty=ty)


def atoms(t, acc=None):
    """all subterms"""
    if acc is None:
        acc = set()
    if t in acc:
        return acc
    acc.add(t)
    if t.op == "poly":
        for m, c in t.args[0]:
            for a in m:
                atoms(a, acc)
    else:
        for x in t.args:
            _atoms_any(x, acc)
    return acc


def _atoms_any(x, acc):
    if isinstance(x, T):
        atoms(x, acc)
    elif isinstance(x, tuple):
        for y in x:
            _atoms_any(y, acc)


# ---------------------------------------------------------------- booleans

def lead_sign(p):
    items = sorted(toP(p).items(), key=lambda x: mono_key(x[0]))
    for m, c in items[::-1]:
        if m != ():
            return c
    return 0


def ge0(p, isint):
    if p.op == "n":
        return boolc(p.args[0] >= 0)
    if isint:
        p = int_tighten(p)
    return mk("ge0", p, isint)


def gt0(p, isint):
    if p.op == "n":
        return boolc(p.args[0] > 0)
    if isint:
        return ge0(psub(p, ONE), True)
    return mk("gt0", p, False)


def int_tighten(p):
    return p


def eq0(p, isint=True):
    if p.op == "n":
        return boolc(p.args[0] == 0)
    d = toP(p)
    s = lead_sign(p)
    # canonical scaling: leading coefficient 1
    p = pscale(p, Fraction(1) / Fraction(s)) if s not in (0, 1) else p
    return mk("eq0", p)


_neg = {}


def bnot(b):
    r = _neg.get(b)
    if r is None:
        r = _neg[b] = bnot_(b)
        _neg[r] = b if bnot_(r) is b else bnot_(r)
    return r


def bnot_(b):
    if b.op == "b":
        return boolc(not b.args[0])
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        if b.args[1]:
            return ge0(psub(pneg(b.args[0]), ONE), True)
        return mk("gt0", pneg(b.args[0]), False)
    if b.op == "gt0":
        return mk("ge0", pneg(b.args[0]), False)
    return mk("not", b)


def band(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    if a is b:
        return a
    if bnot(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("and", a, b)


def bor(a, b):
    return bnot(band(bnot(a), bnot(b)))


def bxor(a, b):
    if a.op == "b":
        return bnot(b) if a.args[0] else b
    if b.op == "b":
        return bnot(a) if b.args[0] else a
    if a is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("xor", a, b)


def rebuild_bool(op, a):
    if op == "ge0":
        return ge0(a[0], a[1])
    if op == "gt0":
        return gt0(a[0], a[1])
    if op == "eq0":
        return eq0(a[0])
    if op == "not":
        return bnot(a[0])
    if op == "and":
        return band(a[0], a[1])
    return bor(a[0], a[1])


# ---------------------------------------------------------------- aggregates

def agg(kind, variant, *fields, ty=None):
    if fields:
        f0 = fields[0]
        if isinstance(f0, T) and f0.op == "fld" and f0.args[1] == variant and f0.args[2] == 0:
            x = f0.args[0]
            if x.ty == ty and ty is not None and all(isinstance(f, T) and f.op == "fld" and f.args[0] is x and f.args[1] == variant and f.args[2] == i
                                                     for i, f in enumerate(fields)) and kind[0:6] != "option":
                return x
    return mk("agg", kind, variant, *fields, ty=ty)


def fld(x, v, i, ty=None):
    if x.op == "agg":
        if len(x.args) > 2 + i:
            return x.args[2 + i]
        return mk("fld", x, v, i, ty=ty)
    if x.op in ("ptr", "slc"):      # the pointer wrappers (Box, Unique, NonNull) around it
        return x
    return mk("fld", x, v, i, ty=ty)


def dcr(x):
    """variant index"""
    if x.op == "agg":
        return num(x.args[1])
    return mk("dcr", x)


def vec(arr, ln, ty=None):
    if arr.op == "arr" and ln.op == "len" and arr.args[0] is ln.args[0]:
        return arr.args[0]
    return mk("vec", arr, ln, ty=ty)


def length(x):
    if x.op == "vec":
        return x.args[1]
    return mk("len", x)


def arrof(x):
    if x.op == "vec":
        return x.args[0]
    return mk("arr", x)


def sel_raw(a, i, ty=None):
    """array read without context"""
    while True:
        if a.op == "store":
            if a.args[1] is i:
                return a.args[2]
            d = psub(a.args[1], i)
            if d.op == "n":
                a = a.args[0]
                continue
            return mk("sel", a, i, ty=ty)
        if a.op == "fill":
            return a.args[0]
        if a.op == "alit" and i.op == "n" and 0 <= i.args[0] < len(a.args):
            return a.args[i.args[0]]
        return mk("sel", a, i, ty=ty)


# ---------------------------------------------------------------- printing

def show(t, depth=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, depth + 1) for x in t) + ")"
        return str(t)
    if depth > 9:
        return "…"
    o, a = t.op, t.args
    d = depth + 1
    if o == "n" or o == "b":
        return str(a[0])
    if o == "poly":
        s = []
        for m, c in a[0]:
            ms = "*".join(show(x, d) for x in m)
            s.append((str(c) if c != 1 or not ms else "") + ("*" if c != 1 and ms else "") + ms)
        return "(" + " + ".join(s) + ")"
    if o == "ge0":
        return show(a[0], d) + ">=0"
    if o == "gt0":
        return show(a[0], d) + ">0"
    if o == "eq0":
        return show(a[0], d) + "==0"
    if o == "not":
        return "!" + show(a[0], d)
    if o == "agg":
        return "%s#%s{%s}" % (str(a[0]).rsplit("::", 1)[-1], a[1], ", ".join(show(x, d) for x in a[2:]))
    if o == "fld":
        return "%s.%s%d" % (show(a[0], d), "" if not a[1] else "v%s." % a[1], a[2])
    if o == "sel":
        return "%s[%s]" % (show(a[0], d), show(a[1], d))
    if o == "sym":
        return str(a[0])
    if o == "phi":
        return "φ%s" % (a[1] if len(a) > 1 else "")
    return "%s(%s)" % (o, ", ".join(show(x, d) for x in a))


# ---------------------------------------------------------------- linear arithmetic

class Lin:
    """a conjunction of linear constraints over monomials; decides infeasibility by elimination"""
    LIMIT = 400

    @staticmethod
    def norm(p, s, isint):
        """integer coefficients, gcd 1, integer tightening; None if trivially true, False if trivially false"""
        vs = [c for m, c in p.items() if m != () and c != 0]
        if not vs:
            c = p.get((), 0)
            if c < 0 or (s and c == 0):
                return False
            return None
        den = 1
        for c in p.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // gcd(den, c.denominator)
        if den != 1:
            p = {m: int(c * den) for m, c in p.items()}
        g = 0
        for m, c in p.items():
            if m != ():
                g = gcd(g, c)
        c0 = p.get((), 0)
        if isint and den == 1:
            if s:
                c0 -= 1
                s = False
            q = {m: c // g for m, c in p.items() if m != () and c != 0}
            c0 = c0 // g
        else:
            g = gcd(g, c0) or 1
            q = {m: c // g for m, c in p.items() if m != () and c != 0}
            c0 = c0 // g
            isint = isint and den == 1
        if c0:
            q[()] = c0
        return q, s, isint

    @staticmethod
    def infeasible(cons, eqs):
        """cons: list of (poly dict, strict, isint) meaning p>=0 / p>0; eqs: list of poly dicts = 0"""
        eqs = [dict(e) for e in eqs]
        cons = [(dict(p), s, i) for p, s, i in cons]
        while eqs:
            e = eqs.pop()
            e = {m: c for m, c in e.items() if c != 0}
            vs = [m for m in e if m != ()]
            if not vs:
                if e.get((), 0) != 0:
                    return True
                continue
            v = min(vs, key=lambda m: (0 if abs(e[m]) == 1 else 1, len(m), tuple(-x for x in mono_key(m))))
            k = e.pop(v)
            rep = {m: -Fraction(c) / k for m, c in e.items()}

            def app(p):
                c = p.pop(v, 0)
                if c:
                    for m, x in rep.items():
                        y = norm(p.get(m, 0) + c * x)
                        if y == 0:
                            p.pop(m, None)
                        else:
                            p[m] = y
                return p
            eqs = [app(x) for x in eqs]
            cons = [(app(p), s, i) for p, s, i in cons]
        return Lin.fm(cons)

    @staticmethod
    def fm(cons):
        while True:
            best = {}
            for p, s, i in cons:
                r = Lin.norm(p, s, i)
                if r is None:
                    continue
                if r is False:
                    return True
                p, s, i = r
                k = frozenset((m, c) for m, c in p.items() if m != ())
                c = p.get((), 0)
                o = best.get(k)
                if o is None or c < o[1] or (c == o[1] and s and not o[2]):
                    best[k] = (p, c, s, i)
            cons = [(p, s, i) for p, c, s, i in best.values()]
            if not cons:
                return False
            occ = {}
            for p, s, i in cons:
                for m, c in p.items():
                    if m != ():
                        a = occ.setdefault(m, [0, 0])
                        a[0 if c > 0 else 1] += 1
            v, (a, b) = min(occ.items(), key=lambda x: (x[1][0] * x[1][1] - x[1][0] - x[1][1], mono_key(x[0])))
            pos, neg, rest = [], [], []
            for x in cons:
                c = x[0].get(v, 0)
                (pos if c > 0 else neg if c < 0 else rest).append(x)
            if len(pos) * len(neg) + len(rest) > Lin.LIMIT:
                return False
            for p, s, i in pos:
                for q, r, j in neg:
                    a, b = p[v], -q[v]
                    n = {m: c * b for m, c in p.items() if m != v}
                    for m, c in q.items():
                        if m != v:
                            y = n.get(m, 0) + c * a
                            if y == 0:
                                n.pop(m, None)
                            else:
                                n[m] = y
                    rest.append((n, s or r, i and j))
            cons = rest
