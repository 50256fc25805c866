"""L01 to L06: the DOT lexer compared with its token grammar. The text is an uninterpreted sequence of characters with byte offsets."""
import copy
from vlib.core import check, Anchor
from vlib.spec import *
from vlib.models import it

LX = "dot_parser::lexer::Lexer"
TOK = "dot_parser::lexer::Token"
PUNCT = {"LCurly": "{", "RCurly": "}", "LSquare": "[", "RSquare": "]", "Equals": "=", "Comma": ",", "Semicolon": ";"}


def isv(x, *cs):
    return anyof(*[eqt(x, num(ord(c))) for c in cs])


def inr(x, lo, hi):
    return band(ge0(psub(x, num(ord(lo))), True), ge0(psub(num(ord(hi)), x), True))


def DIGIT(x):
    return inr(x, "0", "9")


def ALPHA(x):
    return bor(inr(x, "a", "z"), inr(x, "A", "Z"))


def IDCH(x):
    return anyof(ALPHA(x), DIGIT(x), isv(x, "_"))


def INUM(x):
    return bor(DIGIT(x), isv(x, "."))


class Ctx:
    """the symbols of one analysis of a lexer function"""

    def __init__(self, e, text, pos):
        self.e, self.text, self.pos = e, text, pos
        self.n = mk("app", "nchars", text, ty=e.usize)
        self.size = mk("len", text)
        self.W = mk("app", "W", text, pos, ty=e.usize)

    def ch(self, i):
        return mk("app", "ch", self.text, i, ty=self.e.chart())

    def off(self, i):
        return mk("app", "choff", self.text, i, ty=self.e.usize)

    def ws(self, x):
        return mk("app", "is_whitespace", x, ty=self.e.boolt)

    # the string item grammar: B(i) item boundary, L(i) characters produced before it, O(k) k-th character produced
    def B(self, i):
        return mk("app", "B", self.text, i, ty=self.e.boolt)

    def Ln(self, i):
        return mk("app", "L", self.text, i, ty=self.e.usize)

    def O(self, k):
        return mk("app", "O", self.text, k, ty=self.e.chart())

    def escape(self, p1):
        """what the escape at p1 (the backslash) produces, as a fact about L and O"""
        c, l = self.ch(padd(p1, ONE)), self.Ln(p1)
        nxt = self.Ln(padd(p1, num(2)))
        one = lambda v: band(eqt(nxt, padd(l, ONE)), eqt(self.O(l), num(v)))
        two = allof(eqt(nxt, padd(l, num(2))), eqt(self.O(l), num(92)), eqt(self.O(padd(l, ONE)), c))
        r = bor(isv(c, "n", "t", "r"), two)
        for k, v in (("n", 10), ("t", 9), ("r", 13)):
            r = band(r, bor(bnot(isv(c, k)), one(v)))
        return r


def wsaxioms(e):
    """what char::is_whitespace says about ASCII"""
    def ax(a):
        if a.op == "app" and a.args[0] == "is_whitespace" and len(a.args) == 2:
            x = a.args[1]
            r = [bor(bnot(eqt(x, num(v))), a) for v in (9, 10, 11, 12, 13, 32)]
            r.append(bor(bnot(a), anyof(le(x, num(13), True), eqt(x, num(32)), allof(le(num(133), x, True), bnot(eqt(x, num(0xfeff)))))))
            return r
        return []
    e.lg.axioms.append(ax)


def analyse(f, rep, name="next", trait=None, want=()):
    m = method(f, LX, name, trait)
    strings = "string" in want
    from vlib.engine import Eng
    e = Eng(f, panics=True)
    wsaxioms(e)
    box = {}

    def pre(e, st, a):
        v = at(e, st, a[0])
        text = get(e, v, "text")
        pos = e.sym("pos", e.usize)
        c = box["c"] = Ctx(e, text, pos)
        st.note(ge0(psub(c.n, pos), True))
        fs = fields_of(e, v)
        val = []
        for nme, ft in fs:
            if nme == "chars":
                val.append(it("chars", text, pos, c.n))
            else:
                val.append(get(e, v, nme))
        if "chars" not in [x[0] for x in fs] or "errors" not in [x[0] for x in fs]:
            raise Anchor("fields of the lexer")
        box["e0"] = get(e, v, "errors")
        st.mem[("P", a[0])] = agg(e.ti(v.ty)["d"], 0, *val, ty=v.ty)
        K = e.bv(0)
        W = c.W
        e.always.append(c.ch(W))
        # the first position from pos on that is not white space
        st.note(allof(le(pos, W, True), le(W, c.n, True)))
        st.note(bor(eqt(W, c.n), bnot(c.ws(c.ch(W)))))
        st.fa = st.fa + ((c.ch(K), K, band(le(pos, K, True), lt(K, W, True)), c.ws(c.ch(K))),)
        if strings:
            # items of a quoted string that opens at W
            s = padd(W, ONE)
            st.note(c.B(s))
            st.note(eqt(c.Ln(s), ZERO))
            p1, p2 = psub(K, ONE), psub(K, num(2))
            plain = allof(le(padd(s, ONE), K, True), c.B(p1), le(K, c.n, True), bnot(isv(c.ch(p1), '"', "\\")))
            esc = allof(le(padd(s, num(2)), K, True), c.B(p2), le(K, c.n, True), isv(c.ch(p2), "\\"))
            bodyf = band(bor(bnot(plain), allof(c.B(K), eqt(c.Ln(K), padd(c.Ln(p1), ONE)), eqt(c.O(c.Ln(p1)), c.ch(p1)))),
                         bor(bnot(esc), band(c.B(K), c.escape(p2))))
            st.fa = st.fa + ((c.B(K), K, TRUE, bodyf),)

    def poss(phis):
        return [(w, p) for w, p in phis.items() if len(w[1]) >= 1 and w[1][-1][0] == "f" and w[1][-1][2] == 2 and p.ty == e.usize]

    def q(e, fr, head, st0, backs, W, phis, entry, repl):
        c = box["c"]
        K = e.bv(0)
        out = []
        rp = lambda t: repl.get(t, t)
        for w, p in poss(phis):
            src = e.getp(st0, w[0], w[1][:-1])
            if not (src.op == "agg" and src.args[0] == "it"):
                continue
            p2, p0 = rp(p), entry[p]
            cur = band(le(p0, K, True), lt(K, p2, True))
            preds = [c.ws]
            if "ident" in want:
                preds.append(IDCH)
            if "number" in want:
                preds += [DIGIT, INUM]
            for pred in preds:
                out.append((c.ch(K), K, cur, pred(c.ch(K))))
            if not want:
                continue
            # every point is followed by a digit
            if "number" in want:
                nx = band(lt(padd(K, ONE), c.n, True), DIGIT(c.ch(padd(K, ONE))))
                out.append((c.ch(K), K, band(le(c.W, K, True), lt(K, p2, True)), band(INUM(c.ch(K)), bor(bnot(isv(c.ch(K), ".")), nx))))
            for w2, a in phis.items():
                if w2[1] and w2[1][-1][0] == "el":
                    ln = next((x for y, x in phis.items() if y[0] == w2[0] and y[1] == w2[1][:-1] + (("len",),)), None)
                    n = rp(ln) if ln is not None else length(e.getp(st0, w2[0], w2[1][:-1]))
                    n0 = entry[ln] if ln is not None else n
                    ak = mk("sel", a, K, ty=e.chart())
                    inl = band(ge0(K, True), lt(K, n, True))
                    if not strings:
                        out.append((ak, K, inl, eqt(ak, c.ch(padd(K, psub(p0, n0))))))
                    if strings:
                        out.append((ak, K, inl, band(eqt(ak, c.O(K)), band(c.B(p2), eqt(n, c.Ln(p2))))))
        return out

    def cand(e, fr, head, st0, backs, W, phis, entry, repl):
        c = box["c"]
        out = []
        rp = lambda t: repl.get(t, t)
        for w, p in poss(phis):
            p2 = rp(p)
            if "number" in want:
                out.append(DIGIT(c.ch(psub(p2, ONE))))
                out.append(bor(eqt(p2, entry[p]), DIGIT(c.ch(psub(p2, ONE)))))
            if strings:
                out.append(c.B(p2))
                e.always[:] = [c.ch(c.W), c.ch(p2), c.ch(psub(entry[p], ONE)), c.B(padd(p2, ONE)), c.B(padd(p2, num(2)))]
            for w2, a in phis.items():
                if w2[1] and w2[1][-1][0] == "len":
                    if strings:
                        out.append(eqt(rp(a), c.Ln(p2)))
                    elif want:
                        out.append(eqt(rp(a), psub(padd(p2, entry[a]), entry[p])))
        return out
    e.qcands.append(q)
    e.cands.append(cand)
    r = run(f, m, pre=pre, eng=e, name="Lexer::" + name)
    if "c" in box:
        e.always[:] = [box["c"].ch(box["c"].W)]
    r.c = box.get("c")
    r.e0 = box.get("e0")
    return r


def fields_of(e, v):
    x = e.ti(v.ty)
    a = e.f.adts.get(x.get("d"))
    if a is None:
        raise Anchor("type of the lexer")
    return [(q["n"], t) for q, t in zip(a["variants"][0]["f"], x["vf"][0])]


class Out:
    """one outcome of a lexer step"""

    def __init__(self, r, s, v):
        e, c = r.e, r.c
        self.st = s
        me = at(e, s, r.args[0])
        ch = get(e, me, "chars")
        if not (ch.op == "agg" and ch.args[0] == "it" and ch.args[3] is c.text):
            raise Anchor("character stream of the lexer")
        self.cur = ch.args[4]
        self.err = get(e, me, "errors")
        self.same_text = e.eq(s, get(e, me, "text"), c.text)
        # where the white space ends
        ph = set()
        for x in list(s.facts) + [self.cur]:
            ph.update(a for a in atoms(x) if a.op == "phi" and a.ty == e.usize)
        ph = sorted(ph, key=lambda t: t.id)
        saturate(e, s, [c.ws(c.ch(c.W))] + [c.ch(p) for p in ph] + [c.ch(self.cur)], pats=("ch",))
        self.start = None
        for p in ph:
            if e.prove(s, eqt(p, c.W)):
                mp = {p: c.W}
                s.facts = {subst(x, mp): None for x in s.facts}
                s.fa = tuple((subst(x, mp), k, subst(y, mp), subst(z, mp)) for x, k, y, z in s.fa)
                s.note(TRUE)
                self.start = p
                self.cur, self.err, v = subst(self.cur, mp), subst(self.err, mp), subst(v, mp)
                break
        self.v = v
        self.none = v.op == "agg" and v.args[1] == 0
        tok = v.args[2] if v.op == "agg" and v.args[1] == 1 else None
        self.tok = None
        if tok is not None and tok.op == "agg":
            vs = [x["n"] for x in e.f.adts[TOK]["variants"]]
            self.tok = vs[tok.args[1]]
            self.payload = tok.args[2:]

    def clean(self, e, r):
        return e.eq(self.st, self.err, r.e0)


def outcomes(r, cond=None):
    """outcomes (optionally restricted by a condition on the next character)"""
    if not hasattr(r, "outcomes"):
        r.outcomes = [Out(r, s.copy(), v) for s, v in r.rets]
    for o in r.outcomes:
        o2 = copy.copy(o)
        o2.st = o.st.copy()
        if cond is not None and not r.e.assume(o2.st, cond(r.c)):
            continue
        yield o2


def why(o):
    return "returns %s with the stream at %s when %s" % (show(o.v)[:120], show(o.cur), " & ".join(show(x) for x in o.st.facts)[:500])


def at_start(c, cond):
    return band(lt(c.W, c.n, True), cond(c.ch(c.W)))


@check("L01", floors={"outcomes": 15}, technique="abstract interpretation of the lexer over an uninterpreted character sequence, case split on the next character",
       rule="for every text and position: white space is skipped, then punctuation gives its token and advances one character (two for the arrow), a character that starts no token "
            "gives an error and no token, and the end of the text gives no token and no error")
def l01(facts, rep):
    f = facts["dot_parser"]
    r = analyse(f, rep)
    if not usable(rep, r):
        return
    no_panic(rep, r, "completes")
    e, c = r.e, r.c

    def ob(key, o, ok):
        rep.ob("token", key, ok and o.same_text, r.where, why(o))
    hit = set()
    for o in outcomes(r, lambda c: eqt(c.W, c.n)):
        hit.add("end")
        ob("at the end: no token, no error", o, o.none and e.eq(o.st, o.cur, c.n) and o.clean(e, r))
    for name, p in PUNCT.items():
        for o in outcomes(r, lambda c: at_start(c, lambda x: isv(x, p))):
            hit.add(name)
            ob("%s is %s" % (p, name), o, o.tok == name and e.eq(o.st, o.cur, padd(c.W, ONE)) and o.clean(e, r))
    two = lambda c: band(lt(padd(c.W, ONE), c.n, True), isv(c.ch(padd(c.W, ONE)), ">"))
    for o in outcomes(r, lambda c: band(at_start(c, lambda x: isv(x, "-")), two(c))):
        hit.add("Arrow")
        ob("-> is Arrow", o, o.tok == "Arrow" and e.eq(o.st, o.cur, padd(c.W, num(2))) and o.clean(e, r))
    other = lambda x: allof(*[bnot(isv(x, p)) for p in list(PUNCT.values()) + ["-", '"', "_"]], bnot(ALPHA(x)), bnot(DIGIT(x)))
    for nm, cond in (("a lone -", lambda c: band(at_start(c, lambda x: isv(x, "-")), bnot(two(c)))), ("any other character", lambda c: at_start(c, other))):
        for o in outcomes(r, cond):
            hit.add(nm)
            ob("%s is an error" % nm, o, o.none and e.eq(o.st, o.cur, padd(c.W, ONE)) and e.eq(o.st, length(o.err), padd(length(r.e0), ONE)))
    for want in ["end", "Arrow", "a lone -", "any other character"] + list(PUNCT):
        rep.ob("covered", want, want in hit, r.where, "no outcome covers this case")
    # through the Iterator interface as well
    for m in methods(f, LX, "next", "Iterator"):
        same = [x for x in methods(f, LX, "next") if x.get("key") in f.bodies]
        rr = analyse(f, rep, "next", "Iterator")
        if usable(rep, rr):
            for name, p in PUNCT.items():
                for o in outcomes(rr, lambda c: at_start(c, lambda x: isv(x, p))):
                    rep.ob("token", "as an iterator: %s is %s" % (p, name), o.tok == name, rr.where, why(o))
    rr = run(f, method(f, LX, "new"))
    if usable(rep, rr):
        for s, v in rr.rets:
            ch = get(rr.e, v, "chars")
            t = rr.args[0]
            rep.ob("token", "new starts at the first character with no errors",
                   ch.op == "agg" and ch.args[0] == "it" and ch.args[3] is t and ch.args[4] is ZERO and rr.e.eq(s, length(get(rr.e, v, "errors")), ZERO)
                   and rr.e.eq(s, get(rr.e, v, "text"), t), rr.where, show(v))


def text_is(e, o, arr, ln, c, start, end):
    """arr[0..ln] is the text from start to end"""
    return e.eq(o.st, ln, psub(end, start)) and forall(
        e, o.st, "k", lambda k: band(ge0(k, True), lt(k, ln, True)), lambda k: eqt(e.sel(o.st, arr, k, e.chart()), c.ch(padd(start, k))))


@check("L02", floors={"outcomes": 15}, technique="abstract interpretation with quantified loop invariants over the character sequence",
       rule="an identifier token's text is the characters from the first letter or underscore to the end of the longest run of letters, digits and underscores; the stream ends there")
def l02(facts, rep):
    f = facts["dot_parser"]
    r = analyse(f, rep, want=("ident",))
    if not usable(rep, r):
        return
    e, c = r.e, r.c
    n = 0
    for o in outcomes(r, lambda c: at_start(c, lambda x: bor(ALPHA(x), isv(x, "_")))):
        n += 1
        ok = o.tok == "Ident" and o.clean(e, r)
        rep.ob("identifier", "a letter or underscore starts an identifier", ok, r.where, why(o))
        if not ok:
            continue
        a, ln = arrof(o.payload[0]), length(o.payload[0])
        rep.ob("identifier", "the text is the characters consumed", text_is(e, o, a, ln, c, c.W, o.cur), r.where, why(o))
        rep.ob("identifier", "only identifier characters are consumed",
               forall(e, o.st, "k", lambda k: band(le(c.W, k, True), lt(k, o.cur, True)), lambda k: IDCH(c.ch(k)), [c.ch(c.W)]), r.where, why(o))
        rep.ob("identifier", "the run is the longest", e.prove(o.st, bor(eqt(o.cur, c.n), bnot(IDCH(c.ch(o.cur))))) and e.prove(o.st, le(o.cur, c.n, True)), r.where, why(o))
    rep.ob("covered", "identifiers", n > 0, r.where)
    for o in outcomes(r):
        if o.tok == "Ident":
            rep.ob("identifier", "only a letter or underscore starts one", e.prove(o.st, at_start(c, lambda x: bor(ALPHA(x), isv(x, "_")))), r.where, why(o))


@check("L03", floors={"outcomes": 15}, technique="abstract interpretation with quantified loop invariants against a recursive definition of string items",
       rule="a quoted string's text is the item-by-item decoding of the characters between the quotes; without a closing quote it is an error and no token")
def l03(facts, rep):
    f = facts["dot_parser"]
    r = analyse(f, rep, want=("string",))
    if not usable(rep, r):
        return
    e, c = r.e, r.c
    good = bad = 0
    for o in outcomes(r, lambda c: at_start(c, lambda x: isv(x, '"'))):
        last = psub(o.cur, ONE)
        if o.tok == "String":
            good += 1
            a, ln = arrof(o.payload[0]), length(o.payload[0])
            saturate(e, o.st, [c.B(last)])
            rep.ob("string", "ends at the first quote that is not part of an escape",
                   e.prove(o.st, allof(lt(c.W, last, True), c.B(last), isv(c.ch(last), '"'), le(o.cur, c.n, True))), r.where, why(o))
            rep.ob("string", "the text is the decoded items",
                   e.prove(o.st, eqt(ln, c.Ln(last))) and
                   forall(e, o.st, "k", lambda k: band(ge0(k, True), lt(k, ln, True)), lambda k: eqt(e.sel(o.st, a, k, e.chart()), c.O(k))), r.where, why(o))
            rep.ob("string", "no error", o.clean(e, r), r.where, why(o))
        else:
            bad += 1
            rep.ob("string", "unterminated: an error and no token", o.none and e.eq(o.st, length(o.err), padd(length(r.e0), ONE)), r.where, why(o))
            end = eqt(o.cur, c.n)
            cut = band(c.B(psub(c.n, ONE)), isv(c.ch(psub(c.n, ONE)), "\\"))
            rep.ob("string", "unterminated only when the text ends first", e.prove(o.st, end) and e.prove(o.st, bor(c.B(c.n), cut)), r.where, why(o))
    rep.ob("covered", "closed and unterminated strings", good and bad, r.where)
    for o in outcomes(r):
        if o.tok == "String":
            rep.ob("string", "only a quote starts one", e.prove(o.st, at_start(c, lambda x: isv(x, '"'))), r.where, why(o))


@check("L04", floors={"outcomes": 15}, technique="abstract interpretation with quantified loop invariants over the character sequence",
       rule="a number token covers the longest run of digits with points that are directly followed by a digit; it is the float or integer that text parses to, a float exactly when it "
            "has a point; text that does not parse is an error and no token")
def l04(facts, rep):
    f = facts["dot_parser"]
    r = analyse(f, rep, want=("number",))
    if not usable(rep, r):
        return
    e, c = r.e, r.c
    kinds = set()
    for o in outcomes(r, lambda c: at_start(c, DIGIT)):
        inside = lambda k: band(le(c.W, k, True), lt(k, o.cur, True))
        nx = lambda k: band(lt(padd(k, ONE), c.n, True), DIGIT(c.ch(padd(k, ONE))))
        rep.ob("number", "every character consumed is a digit, or a point followed by a digit",
               forall(e, o.st, "k", inside, lambda k: band(INUM(c.ch(k)), bor(bnot(isv(c.ch(k), ".")), nx(k))), [c.ch(c.W)]), r.where, why(o))
        last = c.ch(psub(o.cur, ONE))
        s = o.st.copy()
        saturate(e, s, [last])
        rep.ob("number", "the last character consumed is a digit", e.prove(s, DIGIT(last)), r.where, why(o))
        s = o.st.copy()
        more = bor(DIGIT(c.ch(o.cur)), band(isv(c.ch(o.cur), "."), nx(o.cur)))
        rep.ob("number", "the run is the longest", e.prove(s, bor(eqt(o.cur, c.n), bnot(more))) and e.prove(s, le(o.cur, c.n, True)), r.where, why(o))
        ps = parses(o.st, o.v)
        if len(ps) != 1:
            rep.bad("number", "the value is one parse of the text", r.where, why(o))
            continue
        p = ps[0]
        ty, sv = p.args[1], p.args[2]
        fl = "f64" in ty
        okt = sv.op == "app" and sv.args[0] == "strv" and sv.args[2] is ZERO and text_is(e, o, sv.args[1], sv.args[3], c, c.W, o.cur)
        rep.ob("number", "the parsed text is the characters consumed", okt, r.where, why(o))
        has = mk("app", "strcontains", sv, num(46), ty=e.boolt)
        rep.ob("number", "a float exactly when there is a point", e.prove(o.st, has if fl else bnot(has)), r.where, why(o))
        if o.tok in ("Float", "Integer"):
            kinds.add(o.tok)
            rep.ob("number", "the token is the parsed value", (o.tok == "Float") == fl and o.payload[0] is fld(p, 0, 0) and e.prove(o.st, eqt(dcr(p), ZERO)) and o.clean(e, r), r.where, why(o))
        else:
            kinds.add("error")
            rep.ob("number", "text that does not parse is an error", o.none and e.prove(o.st, bnot(eqt(dcr(p), ZERO))) and
                   e.eq(o.st, length(o.err), padd(length(r.e0), ONE)), r.where, why(o))
    rep.ob("covered", "integers, floats and errors", kinds >= {"Float", "Integer", "error"}, r.where, str(kinds))
    for o in outcomes(r):
        if o.tok in ("Float", "Integer", "Number"):
            rep.ob("number", "only a digit starts one", e.prove(o.st, at_start(c, DIGIT)), r.where, why(o))


def parses(st, v):
    s = set()
    for x in list(st.facts) + [v]:
        for a in atoms(x):
            if a.op == "app" and a.args[0] == "parse":
                s.add(a)
    return sorted(s, key=lambda t: t.id)


@check("L05", floors={"outcomes": 15}, technique="abstract interpretation of every lexer outcome",
       rule="an outcome without a token either is at the end of the text or appends exactly one error; that error's range starts at the offending token and ends at the stream; "
            "earlier errors are kept; every step consumes at least one character unless at the end")
def l05(facts, rep):
    f = facts["dot_parser"]
    r = analyse(f, rep)
    if not usable(rep, r):
        return
    e, c = r.e, r.c
    nerr = 0
    for o in outcomes(r):
        rep.ob("progress", "consumes a character or is at the end", e.prove(o.st, bor(lt(c.W, o.cur, True), eqt(o.cur, c.n))) and e.prove(o.st, le(o.cur, c.n, True)), r.where, why(o))
        if not o.none:
            rep.ob("errors", "a token comes without an error", o.clean(e, r) and o.tok is not None, r.where, why(o))
            continue
        s = o.st.copy()
        if not e.assume(s, lt(c.W, c.n, True)):
            rep.ob("errors", "the end of the text is not an error", o.clean(e, r), r.where, why(o))
            continue
        nerr += 1
        n0 = length(r.e0)
        ok = e.eq(s, length(o.err), padd(n0, ONE))
        rep.ob("errors", "no token before the end means one more error", ok, r.where, why(o))
        if not ok:
            continue
        x = e.sel(s, arrof(o.err), n0)
        try:
            if x.ty is None:
                x.ty = next(i for i, t in enumerate(f.types) if t["k"] == "adt" and t["d"] == "dot_parser::lexer::LexerError")
            rg = get(e, x, "location", "range")
            a, b = fld(rg, 0, 0), fld(rg, 0, 1)
        except (Anchor, StopIteration):
            rep.bad("errors", "the error has a range", r.where, show(x))
            continue
        rep.ob("errors", "the range starts at the token", e.eq(s, a, c.off(c.W)), r.where, "%s when %s" % (show(a), why(o)))
        for cond, want in ((lt(o.cur, c.n, True), c.off(o.cur)), (eqt(o.cur, c.n), c.size)):
            s2 = s.copy()
            if e.assume(s2, cond):
                rep.ob("errors", "the range ends where the stream stands", e.eq(s2, b, want), r.where, "%s when %s" % (show(b), why(o)))
        rep.ob("errors", "earlier errors are kept",
               forall(e, s, "k", lambda k: band(ge0(k, True), lt(k, n0, True)), lambda k: e.eqterm(s, e.sel(s, arrof(o.err), k), e.sel(s, arrof(r.e0), k))), r.where, why(o))
    rep.ob("covered", "error outcomes", nerr > 0, r.where)
    for g, want in (("has_errors", "len"), ("errors", "slice")):
        rr = run(f, method(f, LX, g))
        if not usable(rep, rr):
            continue
        for s, v in rr.rets:
            er = get(rr.e, at(rr.e, s, rr.args[0]), "errors")
            if want == "len":
                rep.ob("errors", "has_errors is whether there are any", rr.e.eq(s, v, bnot(eqt(length(er), ZERO))), rr.where, show(v))
            else:
                p, a, n = rr.e.as_slice(s, v)
                rep.ob("errors", "errors lists all of them", a is ZERO and rr.e.eq(s, n, length(er)) and rr.e.eq(s, rr.e.read(s, *p.args), arrof(er)), rr.where, show(v))
