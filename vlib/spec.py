"""Comparing what the abstract interpreter derives for a function with what a property says about it."""
import re
from vlib.core import Anchor
from vlib.engine import Eng, St, Unsup, OPT
from vlib.terms import *


def fn(f, path):
    """a free function by path"""
    r = [x for x in f.fns if x["path"] == path and x["kind"] == "fn"]
    if len(r) != 1:
        raise Anchor("function %s (found %d)" % (path, len(r)))
    return r[0]


def strip_g(s):
    out, d = "", 0
    for i, c in enumerate(s):
        if c == "<":
            d += 1
        elif c == ">" and s[i - 1] != "-":
            d -= 1
        elif d == 0:
            out += c
    return out


def selfname(f, x):
    if x.get("self") is None:
        return None
    t = f.types[x["self"]]
    return t["d"] if t["k"] == "adt" else t["s"]


def methods(f, adt, name, trait=None):
    return [x for x in f.fns if x["name"] == name and x.get("self") is not None and selfname(f, x) == adt
            and (trait is None or (x.get("trait") or "").endswith(trait)) and (trait is not None or not x.get("trait"))]


def method(f, adt, name, trait=None, pick=None):
    r = methods(f, adt, name, trait)
    if pick is not None:
        r = [x for x in r if pick(x)]
    if len(r) != 1:
        raise Anchor("method %s::%s%s (found %d)" % (adt, name, " of " + trait if trait else "", len(r)))
    return r[0]


def body(f, x):
    k = x.get("key")
    if k not in f.bodies:
        raise Anchor("body of %s" % x["path"])
    return f.bodies[k]


class Run:
    pass


def run(f, x, args=None, pre=None, st=None, name=None, eng=None, b=None, **kw):
    """analyse function record x; args: terms by position (None: a fresh symbol)"""
    b = b or body(f, x)
    hooks = kw.pop("hooks", None)
    e = eng or Eng(f, hooks=hooks, unwind=kw.pop("unwind", False), panics=kw.pop("panics", True))
    for k, v in kw.items():
        setattr(e, k, v)
    st = st or St()
    a = []
    for i in range(b["argc"]):
        t, n = b["locals"][i + 1]
        v = args[i] if args is not None and i < len(args) else None
        if v is None:
            v = e.sym(n or "arg%d" % i, t)
        a.append(v)
    r = Run()
    r.e, r.args, r.body, r.fn = e, a, b, x
    r.name = name or (x["path"] if x else b["path"])
    r.where = b["span"]
    if pre:
        pre(e, st, a)
    r.pre = st.copy()
    r.err = None
    try:
        r.outs = e.run(b, a, st)
    except Unsup as u:
        r.err = str(u)
        r.outs = []
    except RecursionError:
        r.err = "recursion limit"
        r.outs = []
    e.lg.DEPTH = 6          # the final comparisons may split more cases than the analysis
    r.rets = [(s, v) for k, s, v in r.outs if k == "ret"]
    return r


def usable(rep, r, rule="analysed"):
    """the body could be analysed; otherwise fail closed"""
    rep.count("functions")
    rep.count("outcomes", len(r.outs))
    rep.count("blocks", r.e.steps)
    rep.ob(rule, r.name, r.err is None and bool(r.rets or r.e.out or r.outs), r.where, r.err or "no outcome derived")
    return r.err is None


def no_panic(rep, r, rule, allow=None):
    """no reachable panic other than the allowed ones"""
    seen = {}
    for kind, where, ok, text in r.e.obl:
        seen.setdefault((kind, text), [where, True])
        if not ok:
            seen[(kind, text)] = [where, False]
    n = 0
    for (kind, text), (where, ok) in sorted(seen.items()):
        if not ok and allow and allow(kind, where, text):
            continue
        n += 1
        if not ok:
            rep.bad(rule, "%s: %s" % (r.name, kind), where, "cannot be shown: %s" % text)
    bad = [o for o in r.e.out if not (allow and allow("panic", o[2], o[3]))]
    for o in bad:
        rep.bad(rule, "%s: reaches a panic" % r.name, o[2], o[3])
    rep.count("run-time checks", n)
    rep.ob(rule, r.name, not bad and True, r.where, "%d run-time checks shown to hold" % n)


def cases(rep, r, rule, key, cs, pure=True):
    """cs(e, st, v, args) -> [(condition, expected term or predicate)].  In every outcome, under every feasible condition, the value is as expected"""
    if not usable(rep, r):
        return
    hit = {}
    for s, v in r.rets:
        for i, (c, exp) in enumerate(cs(r.e, s, v, r.args)):
            s2 = s.copy()
            if not r.e.assume(s2, c):
                continue
            hit[i] = 1
            if callable(exp):
                ok = exp(r.e, s2, v)
                want = getattr(exp, "__doc__", None) or "the required relation"
            else:
                ok = r.e.eq(s2, v, exp)
                want = show(exp)
            rep.ob(rule, "%s: %s" % (r.name, key), ok, r.where,
                   "" if ok else "returns %s where %s is required, when %s" % (show(v)[:300], want[:300], " & ".join(show(x) for x in s2.facts)[:600]))
    if not hit:
        rep.bad(rule, "%s: %s" % (r.name, key), r.where, "no outcome of the function was covered")


def derefd(a, t=None):
    """value a reference argument points to"""
    return mk("deref", a, ty=t)


def final(r, s, a, projs=()):
    """value behind reference argument a in an end state"""
    return r.e.read(s, ("P", a), projs)


def F(x, *path):
    """nested field of variant 0"""
    for i in path:
        x = fld(x, 0, i)
    return x


def lt(a, b, isint=False):
    return gt0(psub(b, a), isint)


def le(a, b, isint=False):
    return ge0(psub(b, a), isint)


def eqt(a, b):
    return eq0(psub(a, b))


def allof(*xs):
    r = TRUE
    for x in xs:
        r = band(r, x)
    return r


def anyof(*xs):
    r = FALSE
    for x in xs:
        r = bor(r, x)
    return r


def fieldno(e, ty, name):
    """number and type of a struct's field by its name"""
    v = get(e, mk("sym", "field?", ("field", ty), ty=ty), name)
    return v.args[2], v.ty


def get(e, v, *names, ty=None):
    """nested struct field by name"""
    if ty is not None and v.ty is None:
        v.ty = ty
    for n in names:
        t = v.ty
        x = e.ti(t)
        if x["k"] == "tuple":
            v = fld(v, 0, n, x["a"][n])
            continue
        a = e.f.adts.get(x.get("d"))
        if a is None and v.op == "agg":
            a = e.f.adts.get(v.args[0])
        if a is None:
            raise Anchor("type of %s" % show(v)[:60])
        fs = [q["n"] for q in a["variants"][0]["f"]]
        if n not in fs:
            raise Anchor("field %s of %s" % (n, x.get("d")))
        i = fs.index(n)
        ft = x["vf"][0][i] if x.get("vf") else None
        v = fld(v, 0, i, ft)
        if v.ty is None and v.op not in ("n", "poly", "b"):
            v.ty = ft
    return v


def at(e, st, a):
    """value behind a reference argument, typed"""
    p = e.pointee(a.ty)
    v = e.read(st, ("P", a), ())
    if v.ty is None:
        v.ty = p
    return v


def saturate(e, st, extra=(), rounds=2, pats=None):
    """adds the instances of the quantified facts for every read the state's facts (and `extra`) mention"""
    from vlib.engine import reads, match, related
    done = set()
    for _ in range(rounds):
        rs = set()
        for x in list(st.facts) + list(extra):
            for a in atoms(x):
                rs.update(reads(a))
        new = []
        for a in sorted(rs - done, key=lambda t: t.id):
            done.add(a)
            if any(t.op == "bv" for t in atoms(a)):
                continue
            for (pat, k, cond, body) in st.fa:
                if pats is not None and pat.args[0] not in pats:
                    continue
                i = match(pat, a, k)
                if i is None:
                    i = related(body, pat, a, k)
                if i is not None:
                    f = bor(bnot(subst(cond, {k: i})), subst(body, {k: i}))
                    if f is not TRUE:
                        new.append(f)
        if not new:
            return
        for f in new:
            st.note(f)


def forall(e, st, name, rng, body, extra=()):
    """is body(k) provable for a fresh integer k under rng(k)"""
    k = mk("sym", name + "#", (e.f.crate, e.usize), ty=e.usize)
    s = st.copy()
    if not e.assume(s, rng(k)):
        return True
    b = body(k)
    saturate(e, s, [b] + list(extra))
    return e.prove(s, b)


def settled(e, st, t, n=4):
    """(state, t as read there) by cases on which of the writes t reads from"""
    rd = next((a for a in sorted(atoms(t), key=lambda x: x.id) if a.op == "sel" and a.args[0].op in ("store", "acopy")), None) if n else None
    if rd is None:
        return [(st, t)]
    a, i = rd.args
    c = eqt(a.args[1], i) if a.op == "store" else band(ge0(psub(i, a.args[1]), True), gt0(psub(padd(a.args[1], a.args[4]), i), True))
    out = []
    for c in (c, bnot(c)):
        s = st.copy()
        if e.assume(s, c):
            mp = {x: e.sel(s, x.args[0], x.args[1], x.ty) for x in atoms(t) if x.op == "sel" and x.args[0].op in ("store", "acopy")}
            out.extend(settled(e, s, subst(t, mp), n - 1))
    return out


def samereads(e, st, out, *more):
    """notes in out which array reads of its facts are the same because their places are, as st knows"""
    by = {}
    for x in list(out.facts) + list(more):
        for a in atoms(x):
            if a.op == "sel" and not any(t.op == "bv" for t in atoms(a)):
                by.setdefault(a.args[0], set()).add(a)
    for arr in by:
        rs = sorted(by[arr], key=lambda a: a.id)[:12]
        for i, a in enumerate(rs):
            for b in rs[:i]:
                d = psub(a.args[1], b.args[1])
                if d.op != "n" and e.prove(st, eq0(d), 2):
                    out.note(eqt(a, b))


def byreads(e, st, goal, most=5):
    """is goal provable by cases on which known array reads the goal's reads are"""
    known = {}
    for x in st.facts:
        for a in atoms(x):
            if a.op == "sel":
                known.setdefault(a.args[0], set()).add(a)
    pairs = []
    for g in sorted((a for a in atoms(goal) if a.op == "sel"), key=lambda a: a.id):
        for a in sorted(known.get(g.args[0], ()), key=lambda a: a.id):
            d = psub(g.args[1], a.args[1])
            if d.op != "n":
                pairs.append((g, a, eq0(d)))

    def go(s, ps, n):
        if n:
            while ps and e.decide(s, ps[0][2]) is not None:
                if e.prove(s, ps[0][2]):
                    s.note(eqt(ps[0][0], ps[0][1]))
                ps = ps[1:]
        if not ps or not n:
            s2 = s.copy()
            saturate(e, s2, [goal])
            samereads(e, s, s2, goal)
            return e.prove(s2, goal)
        g, a, c = ps[0]
        for y in (c, bnot(c)):
            s2 = s.copy()
            if e.assume(s2, y):
                if y is c:
                    s2.note(eqt(g, a))
                    if e.prove(s2, goal):
                        continue
                if not go(s2, ps[1:], n - 1):
                    return False
        return True
    return go(st.copy(), pairs, most)
