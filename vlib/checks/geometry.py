"""B01 B02 B03 P07 P08: loop-free geometric functions compared with their definitions (exact real arithmetic)."""
from fractions import Fraction
from vlib.core import check
from vlib.spec import *

REALS = "floating-point values are treated as real numbers: rounding, overflow and NaN are outside the rule"
T = TRUE


def pt(e, v):
    return get(e, v, "x"), get(e, v, "y")


def box(e, v):
    return (get(e, v, "LL", "x"), get(e, v, "LL", "y"), get(e, v, "UR", "x"), get(e, v, "UR", "y"))


def pure(f, rep, path, key, cs, trait=None, name=None):
    r = run(f, path if isinstance(path, dict) else fn(f, path), name=name)
    cases(rep, r, "definition", key, cs)
    no_panic(rep, r, "completes")
    return r


def iff(cond):
    """result <=> cond"""
    def go(e, st, v, a):
        return [(T, cond(e, st, a))]
    return go


G = "trellis::common::geom::"
A = "trellis::common::arith::"
M = "trellis::math::"


@check("B01", floors={"functions": 6}, technique="abstract interpretation with affine/polynomial value numbering, compared with the set definitions",
       rule="every outcome of the box predicates equals the set relation they name, and every outcome of the box updates leaves exactly the smallest enclosing (largest common) box")
def b01(facts, rep):
    f = facts["trellis"]
    rep.assumptions.append(REALS)
    between = lambda a, b, c: band(le(a, b), le(b, c))

    def inside(e, st, a):
        x, y = pt(e, a[0])
        l = box(e, at(e, st, a[1]))
        return allof(between(l[0], x, l[2]), between(l[1], y, l[3]))
    pure(f, rep, G + "INSIDE", "true exactly for points within the closed box", iff(inside))

    def overlap(e, st, a):
        p, q = box(e, at(e, st, a[0])), box(e, at(e, st, a[1]))
        return allof(le(q[0], p[2]), le(p[0], q[2]), le(q[1], p[3]), le(p[1], q[3]))
    pure(f, rep, G + "OVERLAP", "true exactly when the closed boxes share a point", iff(overlap))

    def contains(e, st, a):
        p, q = box(e, at(e, st, a[0])), box(e, at(e, st, a[1]))
        return allof(le(p[0], q[0]), le(p[1], q[1]), le(q[2], p[2]), le(q[3], p[3]))
    pure(f, rep, G + "CONTAINS", "true exactly when the second box lies within the first", iff(contains))

    def update(path, lo, hi, other):
        r = run(f, fn(f, G + path))
        if not usable(rep, r):
            return
        no_panic(rep, r, "completes")
        e = r.e
        b0 = box(e, mk("deref", r.args[0], ty=e.pointee(r.args[0].ty)))
        for s, v in r.rets:
            o = other(e, s, r.args)
            b1 = box(e, at(e, s, r.args[0]))
            for i, (was, oth, now) in enumerate(zip(b0, o, b1)):
                op = lo if i < 2 else hi
                side = ("left", "bottom", "right", "top")[i]
                # now is one of the two, and bounds both
                for c, want in ((op(was, oth), was), (bnot(op(was, oth)), oth)):
                    s2 = s.copy()
                    if not e.assume(s2, c):
                        continue
                    rep.ob("definition", "%s: %s edge" % (r.name, side), e.eq(s2, now, want), r.where,
                           "is %s where %s is required under %s" % (show(now), show(want), " & ".join(show(x) for x in s2.facts)))
            if len(r.args) > 1 and e.kind(r.args[1].ty) == "ref":
                rep.ob("definition", "%s: leaves the other box alone" % r.name,
                       e.eq(s, at(e, s, r.args[1]), mk("deref", r.args[1])), r.where)
    mn = lambda a, b: le(a, b)
    mx = lambda a, b: le(b, a)
    update("EXPANDBP", mn, mx, lambda e, s, a: pt(e, a[1]) * 2)
    update("EXPANDBB", mn, mx, lambda e, s, a: box(e, at(e, s, a[1])))
    update("CLIPBB", mx, mn, lambda e, s, a: box(e, at(e, s, a[1])))


@check("B02", floors={"functions": 14}, technique="abstract interpretation with affine value numbering, compared with the definitions case by case",
       rule="under every ordering of the arguments, every outcome of the comparison, selection, rounding and unit helpers is the defined value")
def b02(facts, rep):
    f = facts["trellis"]
    rep.assumptions.append(REALS)

    def sel(less):
        def go(e, st, v, a):
            c = le(a[0], a[1])
            return [(c, a[0] if less else a[1]), (bnot(c), a[1] if less else a[0])]
        return go
    # T: PartialOrd is opaque in MIN/MAX: the comparison itself is the caller's
    for n, less in (("MIN", True), ("MAX", False)):
        r = run(f, fn(f, A + n))
        if usable(rep, r):
            no_panic(rep, r, "completes")
            for s, v in r.rets:
                c = lt(r.args[0], r.args[1]) if less else lt(r.args[1], r.args[0])
                for cond, want in ((c, r.args[0]), (bnot(c), r.args[1])):
                    s2 = s.copy()
                    if r.e.assume(s2, cond):
                        rep.ob("definition", "%s returns the %s argument" % (r.name, "smaller" if less else "greater"), r.e.eq(s2, v, want), r.where,
                               show(v))
    pure(f, rep, M + "fmin", "the smaller", sel(True))
    pure(f, rep, M + "fmax", "the greater", sel(False))
    pure(f, rep, M + "sqr", "the square", lambda e, st, v, a: [(T, pmul(a[0], a[0]))])
    pure(f, rep, A + "SQR", "the square", lambda e, st, v, a: [(T, pmul(a[0], a[0]))])
    pure(f, rep, A + "AVG", "the mean", lambda e, st, v, a: [(T, pscale(padd(a[0], a[1]), Fraction(1, 2)))])
    pure(f, rep, A + "SGN", "-1 below zero, else 1", lambda e, st, v, a: [(lt(a[0], ZERO), num(-1)), (le(ZERO, a[0]), ONE)])
    pure(f, rep, A + "CMP", "three-way comparison",
         lambda e, st, v, a: [(lt(a[0], a[1]), num(-1)), (lt(a[1], a[0]), ONE), (eqt(a[0], a[1]), ZERO)])
    pure(f, rep, A + "BETWEEN", "a <= b <= c", iff(lambda e, st, a: band(le(a[0], a[1]), le(a[1], a[2]))))
    half = num(Fraction(1, 2))

    def rnd(e, st, v, x):
        t = lambda y: mk("app", "trunc", y)
        return [(le(ZERO, x), t(padd(x, half))), (lt(x, ZERO), t(psub(x, half)))]
    pure(f, rep, A + "ROUND", "nearest integer, halves away from zero", lambda e, st, v, a: rnd(e, st, v, a[0]))
    pure(f, rep, G + "POINTS", "72 points per inch, rounded", lambda e, st, v, a: rnd(e, st, v, pscale(a[0], 72)))
    pure(f, rep, G + "INCH2PS", "72 points per inch", lambda e, st, v, a: [(T, pscale(a[0], 72))])
    pure(f, rep, G + "PS2INCH", "72 points per inch", lambda e, st, v, a: [(T, pscale(a[0], Fraction(1, 72)))])
    # degrees and radians are inverse and half a turn is pi
    pi = None
    r1, r2 = run(f, fn(f, A + "RADIANS")), run(f, fn(f, A + "DEGREES"))
    if usable(rep, r1) and usable(rep, r2):
        e = r1.e
        for s, v in r1.rets:
            k = pdiv(v, r1.args[0])
            # linear in the argument, with a constant factor
            m = toP(v)
            c = m.get((r1.args[0],)) if len(m) == 1 else None
            okc = c is not None and abs(float(c) * 180 - 3.141592653589793) < 1e-12
            rep.ob("definition", "RADIANS: 180 degrees are pi", okc, r1.where, show(v))
            for s2, w in r2.rets:
                m2 = toP(w)
                c2 = m2.get((r2.args[0],)) if len(m2) == 1 else None
                rep.ob("definition", "DEGREES inverts RADIANS", okc and c2 is not None and abs(float(c) * float(c2) - 1) < 1e-12, r2.where, show(w))


@check("B03", floors={"functions": 12}, technique="abstract interpretation with polynomial value numbering, compared with the algebraic definitions",
       rule="every vector operation, conversion and distance function equals its componentwise definition as a polynomial identity")
def b03(facts, rep):
    f = facts["trellis"]
    rep.assumptions.append(REALS)
    V2 = "trellis::vec2::Vec2"
    for tr, name, op in (("Add", "add", padd), ("Sub", "sub", psub)):
        for x in methods(f, V2, name, tr):
            r = run(f, x, name="Vec2::" + name)
            cases(rep, r, "definition", "componentwise",
                  lambda e, st, v, a: [(band(T, T), lambda e, s, v: pairwise(e, s, v, [op(p, q) for p, q in zip(pt(e, a[0]), pt(e, a[1]))]))])
            no_panic(rep, r, "completes")
    for tr, name, op in (("Mul", "mul", pmul), ("Div", "div", pdiv)):
        for x in methods(f, V2, name, tr):
            r = run(f, x, name="Vec2::" + name)
            cases(rep, r, "definition", "componentwise",
                  lambda e, st, v, a: [(T, lambda e, s, v: pairwise(e, s, v, [op(p, a[1]) for p in pt(e, a[0])]))])
            no_panic(rep, r, "completes")
    for x in [x for x in f.fns if x["name"] == "mul" and x.get("self") is not None and selfname(f, x) == "f64" and x.get("key") in f.bodies]:
        r = run(f, x, name="f64 * Vec2")
        cases(rep, r, "definition", "componentwise",
              lambda e, st, v, a: [(T, lambda e, s, v: pairwise(e, s, v, [pmul(a[0], p) for p in pt(e, a[1])]))])
    r = run(f, method(f, V2, "from", "From"), name="Vec2::from")
    cases(rep, r, "definition", "(x, y)", lambda e, st, v, a: [(T, lambda e, s, v: pairwise(e, s, v, [get(e, a[0], 0), get(e, a[0], 1)]))])
    r = run(f, method(f, V2, "into", "Into"), name="Vec2::into")
    cases(rep, r, "definition", "(x, y)", lambda e, st, v, a: [(T, lambda e, s, v: all(e.eq(s, p, q) for p, q in zip((fld(v, 0, 0), fld(v, 0, 1)), pt(e, a[0]))))])
    r = run(f, method(f, V2, "eq", "PartialEq"), name="Vec2::eq")

    def veq(e, st, v, a):
        p, q = pt(e, at(e, st, a[0])), pt(e, at(e, st, a[1]))
        return [(T, band(eqt(p[0], q[0]), eqt(p[1], q[1])))]
    cases(rep, r, "definition", "equal exactly when both components are", veq)
    sq = lambda x: pmul(x, x)

    def d2(e, a):
        p, q = pt(e, a[0]), pt(e, a[1])
        return padd(sq(psub(p[0], q[0])), sq(psub(p[1], q[1])))

    def sqrt_of(want):
        def go(e, st, v, a):
            w = want(e, a)
            return [(T, lambda e, s, v: v.op == "sqrt" and e.eq(s, v.args[0], w))]
        return go
    len2 = lambda e, a: padd(sq(a[0]), sq(a[1]))
    pure(f, rep, G + "LEN2", "x^2 + y^2", lambda e, st, v, a: [(T, len2(e, a))])
    pure(f, rep, G + "LEN", "square root of x^2 + y^2", sqrt_of(len2))
    pure(f, rep, G + "DIST2", "squared distance", lambda e, st, v, a: [(T, d2(e, a))])
    pure(f, rep, G + "DIST", "distance", sqrt_of(d2))
    pure(f, rep, G + "APPROXEQPT", "distance below the tolerance", iff(lambda e, st, a: lt(d2(e, a), sq(a[2]))))

    def approx(e, st, v, a):
        d = psub(a[0], a[1])
        return [(T, band(lt(d, a[2]), lt(pneg(d), a[2])))]
    pure(f, rep, G + "APPROXEQ", "difference below the tolerance", approx)
    pure(f, rep, G + "P2PF", "same coordinates", lambda e, st, v, a: [(T, lambda e, s, v: pairwise(e, s, v, pt(e, a[0])))])
    pure(f, rep, G + "B2BF", "same corners", lambda e, st, v, a: [(T, lambda e, s, v: all(e.eq(s, p, q) for p, q in zip(box(e, v), box(e, at(e, s, a[0])))))])
    half = num(Fraction(1, 2))

    def rounded(e, s, got, x):
        t = lambda y: mk("app", "trunc", y)
        for c, w in ((le(ZERO, x), t(padd(x, half))), (lt(x, ZERO), t(psub(x, half)))):
            s2 = s.copy()
            if e.assume(s2, c) and not e.eq(s2, got, w):
                return False
        return True
    pure(f, rep, G + "PF2P", "coordinates rounded", lambda e, st, v, a: [(T, lambda e, s, v: all(rounded(e, s, p, q) for p, q in zip(pt(e, v), pt(e, a[0]))))])
    pure(f, rep, G + "BF2B", "corners rounded", lambda e, st, v, a: [(T, lambda e, s, v: all(rounded(e, s, p, q) for p, q in zip(box(e, v), box(e, at(e, s, a[0])))))])


def pairwise(e, s, v, want):
    return all(e.eq(s, p, q) for p, q in zip(pt(e, v), want))


VIS = "trellis::pathplan::visibility::"
EPS = num(Fraction("0.0001"))


def area(e, a, b, c):
    """twice the signed area of a, b, c, positive when they turn counterclockwise"""
    (ax, ay), (bx, by), (cx, cy) = pt(e, a), pt(e, b), pt(e, c)
    return psub(pmul(psub(ay, by), psub(cx, bx)), pmul(psub(cy, by), psub(ax, bx)))


def left(e, a, b, c):
    return gt0(psub(area(e, a, b, c), EPS), False)


def right(e, a, b, c):
    return gt0(psub(pneg(area(e, a, b, c)), EPS), False)


def straight(e, a, b, c):
    return band(bnot(left(e, a, b, c)), bnot(right(e, a, b, c)))


def between_open(e, a, b, c):
    """c strictly between a and b along the axis that separates them"""
    (ax, ay), (bx, by), (cx, cy) = pt(e, a), pt(e, b), pt(e, c)
    x = bor(band(lt(ax, cx), lt(cx, bx)), band(lt(bx, cx), lt(cx, ax)))
    y = bor(band(lt(ay, cy), lt(cy, by)), band(lt(by, cy), lt(cy, ay)))
    v = eqt(ax, bx)
    return bor(band(bnot(v), x), band(v, y))


@check("P07", floors={"functions": 5}, technique="abstract interpretation with polynomial value numbering over the geometric predicates, case split on orientation signs",
       rule="area2 is the polynomial twice the signed area; wind is its sign with a 0.0001 dead zone; inBetween, intersect and in_cone equal their definitions under every combination of orientation signs")
def p07(facts, rep):
    f = facts["trellis"]
    rep.assumptions.append(REALS)
    pure(f, rep, VIS + "area2", "twice the signed area", lambda e, st, v, a: [(T, area(e, *a))])
    pure(f, rep, VIS + "wind", "sign of the area outside the dead zone",
         lambda e, st, v, a: [(left(e, *a), ONE), (right(e, *a), num(-1)), (straight(e, *a), ZERO)])
    pure(f, rep, VIS + "inBetween", "strictly inside the open segment", iff(lambda e, st, a: between_open(e, *a)))
    # the predicates built on orientation see it as an opaque sign per triple
    wind_path = VIS + "wind"
    bet_path = VIS + "inBetween"
    signs = {}

    def hook(e, fr, b, cal, path, args, atys, st, span, rty):
        if path == wind_path:
            v = mk("app", "wind", *args, ty=rty)
            st.note(ge0(padd(v, ONE), True))
            st.note(ge0(psub(ONE, v), True))
            return [("ret", st, v)]
        if path == bet_path:
            return [("ret", st, mk("app", "inBetween", *args, ty=rty))]
    def w(e, *a):
        return mk("app", "wind", *a, ty=next((i for i, t in enumerate(e.types) if t["s"] == "i32"), None))

    def bt(e, *a):
        return mk("app", "inBetween", *a, ty=e.boolt)

    def sub(path, key, arity, cond):
        r = run(f, fn(f, VIS + path), hooks=[hook])
        if not usable(rep, r):
            return
        no_panic(rep, r, "completes")
        e = r.e
        for s, v in r.rets:
            triples = set()
            c = cond(e, r.args)
            for t in atoms(c):
                if t.op == "app" and t.args[0] == "wind":
                    triples.add(t)
            states = [s]
            for t in sorted(triples, key=lambda t: t.id):
                nxt = []
                for q in states:
                    for val in (-1, 0, 1):
                        q2 = q.copy()
                        if e.assume(q2, eqt(t, num(val))):
                            nxt.append(q2)
                states = nxt
            n = 0
            for q in states:
                n += 1
                okk = e.eq(q, v, c)
                if not okk:
                    rep.bad("definition", "%s: %s" % (r.name, key), r.where, "returns %s under %s" % (show(v)[:200], " & ".join(show(x) for x in q.facts)[:500]))
                    break
            rep.count("sign combinations", n)
            rep.ob("definition", "%s: %s" % (r.name, key), True, r.where)

    def opp(p, q):
        return bor(band(gt0(p, True), gt0(pneg(q), True)), band(gt0(pneg(p), True), gt0(q, True)))

    def intersect(e, a):
        p, q, c, d = a[:4]
        return anyof(band(eqt(w(e, p, q, c), ZERO), bt(e, p, q, c)), band(eqt(w(e, p, q, d), ZERO), bt(e, p, q, d)),
                     band(opp(w(e, p, q, c), w(e, p, q, d)), opp(w(e, c, d, p), w(e, c, d, q))))
    sub("intersect", "an endpoint in the open segment, or a proper crossing", 4, intersect)
    sub("INTERSECT", "the same as intersect", 5, intersect)

    def cone(e, a):
        a0, a1, a2, b = a
        m, p = ge0(w(e, b, a0, a1), True), ge0(w(e, b, a1, a2), True)
        conv = gt0(w(e, a0, a1, a2), True)
        return bor(band(conv, band(m, p)), band(bnot(conv), bor(m, p)))
    sub("in_cone", "inside both edges of a convex corner, or either edge of a reflex one", 4, cone)
    sq = lambda x: pmul(x, x)

    def d2(e, a):
        p, q = pt(e, a[0]), pt(e, a[1])
        return padd(sq(psub(p[0], q[0])), sq(psub(p[1], q[1])))
    pure(f, rep, VIS + "dist2", "squared distance", lambda e, st, v, a: [(T, d2(e, a))])
    pure(f, rep, VIS + "dist", "distance", lambda e, st, v, a: [(T, lambda e, s, v: v.op == "sqrt" and e.eq(s, v.args[0], d2(e, a)))])


ROUTE = "trellis::pathplan::route::"


@check("P08", floors={"functions": 9}, technique="abstract interpretation with polynomial value numbering: coefficients compared as polynomial identities",
       rule="the Bernstein basis functions, the power-basis conversion and the route vector helpers equal their defining polynomials")
def p08(facts, rep):
    f = facts["trellis"]
    rep.assumptions.append(REALS)
    mono = lambda t, k: ONE if k == 0 else pmul(t, mono(t, k - 1))
    u = lambda t: psub(ONE, t)
    bern = [lambda t, i=i: pscale(pmul(mono(t, i), mono(u(t), 3 - i)), (1, 3, 3, 1)[i]) for i in range(4)]
    for n, g in (("B0", bern[0]), ("B1", bern[1]), ("B2", bern[2]), ("B3", bern[3]),
                 ("B01", lambda t: padd(bern[0](t), bern[1](t))), ("B23", lambda t: padd(bern[2](t), bern[3](t)))):
        pure(f, rep, ROUTE + n, "Bernstein polynomial", lambda e, st, v, a, g=g: [(T, g(a[0]))])
    # points2coeff: sum_k c_k t^k is the Bezier polynomial
    r = run(f, fn(f, ROUTE + "points2coeff"))
    if usable(rep, r):
        no_panic(rep, r, "completes")
        t = r.e.sym("t", r.body["locals"][1][0])
        want = ZERO
        for i in range(4):
            want = padd(want, pmul(r.args[i], bern[i](t)))
        for s, v in r.rets:
            got = ZERO
            for k in range(4):
                got = padd(got, pmul(r.e.sel(s, v, num(k)), mono(t, k)))
            rep.ob("definition", "points2coeff gives the power-basis coefficients of the Bezier polynomial", r.e.eq(s, got, want), r.where, show(got))
    for n, op in (("add", padd), ("sub", psub)):
        pure(f, rep, ROUTE + n, "componentwise", lambda e, st, v, a, op=op: [(T, lambda e, s, v: pairwise(e, s, v, [op(p, q) for p, q in zip(pt(e, a[0]), pt(e, a[1]))]))])
    pure(f, rep, ROUTE + "scale", "componentwise", lambda e, st, v, a: [(T, lambda e, s, v: pairwise(e, s, v, [pmul(p, a[1]) for p in pt(e, a[0])]))])
    pure(f, rep, ROUTE + "dot", "dot product", lambda e, st, v, a: [(T, padd(*[pmul(p, q) for p, q in zip(pt(e, a[0]), pt(e, a[1]))]))])
    sq = lambda x: pmul(x, x)

    def d2(e, a):
        p, q = pt(e, a[0]), pt(e, a[1])
        return padd(sq(psub(p[0], q[0])), sq(psub(p[1], q[1])))
    pure(f, rep, ROUTE + "DISTSQ", "squared distance", lambda e, st, v, a: [(T, d2(e, a))])
    pure(f, rep, ROUTE + "dist", "distance", lambda e, st, v, a: [(T, lambda e, s, v: v.op == "sqrt" and e.eq(s, v.args[0], d2(e, a)))])

    def normv(e, st, v, a):
        x, y = pt(e, a[0])
        l2 = padd(sq(x), sq(y))
        tiny = le(l2, num(Fraction("1e-6")))
        inv = pdiv(ONE, mk("sqrt", l2, ty=x.ty))
        return [(tiny, lambda e, s, v: pairwise(e, s, v, (x, y))),
                (bnot(tiny), lambda e, s, v: pairwise(e, s, v, (pmul(x, inv), pmul(y, inv))))]
    pure(f, rep, ROUTE + "normv", "unit length unless tiny", normv)
