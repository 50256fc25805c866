"""Abstract interpreter over MIR.

A state maps memory places to value terms (value numbering) and carries a conjunction of facts (linear inequalities, literals).
Loops are brought to a fixpoint by widening: every place a loop changes becomes a φ term, related to the others by affine
equalities and by inductive inequalities kept while they are preserved. Nothing is executed.
"""
import os
import re
from fractions import Fraction
from vlib.terms import *
from vlib.logic import Logic
from vlib.mir import succs, natural_loops


DBG = os.environ.get("VDBG")
WHY = os.environ.get("VWHY", "~~")
WHYN = int(os.environ.get("VWHYN", "3000"))


def narrow(s):
    """the range of a narrow integer type"""
    b = INT_BITS[s]
    return (0, (1 << b) - 1) if s[0] == "u" else (-(1 << b - 1), (1 << b - 1) - 1)


class Unsup(Exception):
    """a construct outside the domain; the checks fail closed on it"""


class St:
    __slots__ = ("mem", "facts", "ev", "ver", "fa")
    _ver = [0]

    def __init__(self):
        self.mem = {}
        self.facts = {}
        self.ev = None
        self.fa = ()
        self.ver = 0

    def copy(self):
        s = St()
        s.mem = dict(self.mem)
        s.facts = dict(self.facts)
        s.ev = self.ev
        s.fa = self.fa
        s.ver = self.ver
        return s

    def event(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out, x = [], self.ev
        while x is not None:
            out.append(x[1])
            x = x[0]
        return out[::-1]

    def note(self, b):
        """add a fact without checking it"""
        st = [b]
        while st:
            x = st.pop()
            if x is TRUE:
                continue
            if x.op == "and":
                st.extend(x.args)
            elif x not in self.facts:
                self.facts[x] = None
        St._ver[0] += 1
        self.ver = St._ver[0]


def bare(w):
    """a place without the types along its path"""
    return w[0], tuple(p[:-1] if p[0] in ("f", "ix") else p for p in w[1])


class LoopInfo:
    """what the fixpoint says about one loop"""

    def __init__(self):
        self.fid = self.head = self.body = None
        self.entry = None       # state on entry
        self.start = None       # generic state at the head
        self.phis = {}          # place -> (phi term, entry value)
        self.backs = []         # states at the back edges
        self.exits = []         # (target, state)
        self.span = ""


class Frame:
    __slots__ = ("fid", "body", "depth", "span", "live", "loops", "rpo", "num", "keys", "parent")


INT_BITS = {"u8": 8, "i8": 8, "u16": 16, "i16": 16, "u32": 32, "i32": 32, "u64": 64, "i64": 64, "usize": 64, "isize": 64,
            "u128": 128, "i128": 128, "char": 32}

OPT = "core::option::Option"


def some(x, ty=None):
    return agg(OPT, 1, x, ty=ty)


def none(ty=None):
    return agg(OPT, 0, ty=ty)


def cpath(cal):
    """callee path without impl numbers and generics"""
    p = re.split("[<@]", cal.get("rk") or cal["d"])[0]
    return re.sub(r"::\{impl#\d+\}", "", p)


class Eng:
    MAXSTATES = 600
    FID = 0
    MAXDEPTH = 40

    def __init__(self, facts, hooks=None, unwind=False, panics=False):
        self.f = facts
        self.types = facts.types
        self.lg = Logic(facts.types, facts.adts)
        self.hooks = list(hooks or [])
        self.unwind = unwind
        self.panics = panics
        self.quiet = 0
        self.obl = []           # (kind, where, ok, text)
        self.loops = []         # LoopInfo of the final passes
        self.out = []           # abnormal outcomes: (kind, state, where, what)
        self._fid = {}
        self._bodyinfo = {}
        self._bykey = facts.bodies
        self._wcache = {}
        self.stack = []
        self.usize = next((i for i, t in enumerate(self.types) if t["s"] == "usize"), None)
        self.boolt = next((i for i, t in enumerate(self.types) if t["s"] == "bool"), None)
        self._pc = {}
        self.steps = 0
        self.maxsteps = 400000
        self.fncov = set()
        self.related = False    # use a fact that relates two reads at either of them
        self.uses = None        # function(eng, st, root, projs) called when a value is read through a place
        self.own = None         # function(kind, eng, st, pointer...) called when memory is moved out of, filled, copied, or a Vec grows or shrinks
        self.drops = None       # function(eng, st, fr, root, projs, ty) called on drops
        self.inline = None      # optional predicate: may this body be entered
        self.extend_by_ref = False
        self.qcands = []
        self.deepq = set()      # bodies of candidates worth the cases on which reads are the same
        self.by_writes = False  # whether quantified candidates are also shown by cases on the writes
        self._split = 0
        self._inline = set()
        self.bounds = {}
        self.always = []        # terms every proof instantiates the quantified facts for
        self.cursor = None
        self.plain = False
        self.same = True
        self.cands = []         # functions(eng, fr, head, phis, st) -> candidate invariants

    # ------------------------------------------------------------ types
    def ti(self, t):
        return self.types[t] if t is not None and t >= 0 else {"k": "other", "s": "?"}

    def kind(self, t):
        x = self.ti(t)
        if x["k"] == "prim":
            s = x["s"]
            if s in INT_BITS:
                return "int"
            if s in ("f64", "f32"):
                return "float"
            return s
        return x["k"]

    def pointee(self, t):
        x = self.ti(t)
        if x["k"] in ("ref", "ptr"):
            return x["t"]
        if x["k"] == "adt" and x["d"] == "alloc::boxed::Box":
            return x["a"][0]
        return None

    def elem(self, t):
        x = self.ti(t)
        if x["k"] in ("slice", "array"):
            return x["t"]
        if x["k"] == "adt" and x["d"].startswith("alloc::vec::Vec"):
            return x["a"][0]
        if x["k"] == "adt" and x["d"] == "bit_vec::BitVec":
            return self.boolt
        return None

    def is_vec(self, t):
        x = self.ti(t)
        return x["k"] == "adt" and x["d"] in ("alloc::vec::Vec", "bit_vec::BitVec", "alloc::string::String")

    def fields(self, t, variant):
        x = self.ti(t)
        if x["k"] == "adt" and x.get("vf") is not None:
            v = x["vf"]
            return v[variant] if variant < len(v) else []
        if x["k"] == "tuple":
            return x["a"]
        return None

    # ------------------------------------------------------------ values
    def sym(self, name, t=None):
        return mk("sym", name, (self.f.crate, t), ty=t)

    def isbool(self, v):
        return v.op in ("b", "ge0", "gt0", "eq0", "not", "and", "xor") or (v.ty is not None and self.kind(v.ty) == "bool")

    def const(self, c):
        if isinstance(c, str):      # runtime checks of the standard library: off
            return FALSE
        v = c.get("v")
        if v is None:
            if "fn" in c:
                i = "%s" % (c["fn"].get("rk") or c["fn"]["d"])
                self._pc[i] = c["fn"]
                return mk("fn", i, ty=c.get("t"))
            if c.get("t") is not None and self.ti(c["t"])["k"] == "fndef":
                return mk("fn", self.ti(c["t"])["d"], ty=c["t"])
            return mk("cst", str(c.get("u") or c.get("def") or "?"), ty=c.get("t"))
        return self.cval(v, c.get("t"))

    def cval(self, v, t=None):
        t = v.get("t", t)
        if "i" in v:
            n = int(v["i"])
            s = self.ti(t)["s"]
            if s in INT_BITS and s[0] == "i" and n >= 1 << (INT_BITS[s] - 1):
                n -= 1 << INT_BITS[s]
            return num(n)
        if "b" in v:
            return boolc(v["b"])
        if "f" in v:
            try:
                return num(Fraction(v["f"]))
            except ValueError:
                return mk("cst", v["f"], ty=t)
        if "str" in v:
            r = mk("str", v["str"])
            return mk("slc", mk("ptr", ("C", r), ()), ZERO, num(len(v["str"].encode())), ty=t)
        if "ref" in v:
            p = self.pointee(t)
            if p is not None and self.ti(p)["k"] in ("slice", "str"):
                x = self.cval(v["ref"])
                return mk("slc", mk("ptr", ("C", x), ()), ZERO, num(len(x.args)) if x.op == "alit" else mk("len", x), ty=t)
            return mk("ptr", ("C", self.cval(v["ref"])), (), ty=t)
        if "static" in v:
            return mk("ptr", ("S", v["static"]), (), ty=t)
        if "agg" in v:
            x = self.ti(t)
            fs = [self.cval(y) for y in v["agg"]]
            if x["k"] in ("array", "slice"):
                return mk("alit", *fs, ty=t)
            if x["k"] == "tuple":
                return agg("tuple", 0, *fs, ty=t)
            if x["k"] == "closure":
                return agg(("closure", x["d"]), 0, *fs, ty=t)
            return agg(x.get("d", "?"), v.get("var") or 0, *fs, ty=t)
        if "fn" in v:
            self._pc[v["fn"]["rk"]] = v["fn"]
            return mk("fn", v["fn"]["rk"])
        if "zst" in v or not v:
            x = self.ti(t)
            if x["k"] == "closure":
                return agg(("closure", x["d"]), 0, ty=t)
            if x["k"] == "fndef":
                return mk("fn", x["d"], ty=t)
            if x["k"] == "tuple":
                return agg("tuple", 0, ty=t)
            return agg(x.get("d", "?"), 0, ty=t)
        return mk("cst", repr(sorted(v.items(), key=str)), ty=t)

    def chart(self):
        if not hasattr(self, "_chart"):
            self._chart = next((i for i, t in enumerate(self.types) if t["s"] == "char"), None)
        return self._chart

    # ------------------------------------------------------------ logic
    def prove(self, st, b, depth=None):
        if b.op == "b":
            return b.args[0]
        if b in st.facts:
            return True
        nb = bnot(b)
        if nb in st.facts:
            return False
        k = (st.ver, b, depth if depth is not None else self.lg.DEPTH)
        c = self.lg._cache
        if k in c:
            return c[k]
        if b.op == "and":
            r = self.prove(st, b.args[0], depth) and self.prove(st, b.args[1], depth)
        elif b.op == "eq0":
            # both inequalities are cheaper than a disequality split
            p = b.args[0]
            isint = self.lg.intp(p)
            goals = self.inst(st, b)
            r = self.lg.unsat(st.facts, [gt0(p, isint)] + goals, depth) and self.lg.unsat(st.facts, [gt0(pneg(p), isint)] + goals, depth)
        else:
            r = self.lg.unsat(st.facts, [nb] + self.inst(st, nb, 1), depth)
            if not r and st.fa and self.related:
                r = self.lg.unsat(st.facts, [nb] + self.inst(st, nb, 1, False), depth)
            if not r and st.fa:
                r = self.lg.unsat(st.facts, [nb] + self.inst(st, nb), depth)
                if not r and self.related:
                    r = self.bywrite(st, b, depth)
        c[k] = r
        return r

    def bywrite(self, st, b, depth):
        """proof by cases on whether what is read is what was written last"""
        if self._split >= 3:
            return False
        rd = next((a for a in sorted(atoms(b), key=lambda x: x.id) if a.op == "sel" and a.args[0].op in ("store", "acopy") and not any(x.op == "bv" for x in atoms(a.args[1]))), None)
        if rd is None:
            return False
        a, i = rd.args
        if a.op == "store":
            c = eq0(psub(a.args[1], i))
        else:
            c = band(ge0(psub(i, a.args[1]), True), gt0(psub(padd(a.args[1], a.args[4]), i), True))
        self._split += 1
        try:
            for c in (c, bnot(c)):
                s = st.copy()
                if not self.assume(s, c):
                    continue
                mp = {x: self.sel(s, x.args[0], x.args[1], x.ty) for x in atoms(b) if x.op == "sel" and x.args[0].op in ("store", "acopy")}
                if not self.prove(s, subst(b, mp), depth):
                    return False
            return True
        finally:
            self._split -= 1

    def inst(self, st, b, most=3, rel=None):
        """instances of the quantified facts for the reads in b"""
        if not st.fa:
            return []
        out = []
        seen = set()
        work = [b] + self.always
        rounds = 0
        while work and rounds < most:
            rounds += 1
            nxt = []
            for x in work:
                for a in atoms(x):
                    for a2 in reads(a):
                        if a2 in seen:
                            continue
                        seen.add(a2)
                        for (pat, k, cond, body) in st.fa:
                            i = match(pat, a2, k)
                            if i is None and (self.related if rel is None else rel):
                                i = related(body, pat, a2, k)
                            if i is not None:
                                f = bor(bnot(subst(cond, {k: i})), subst(body, {k: i}))
                                if f is not TRUE:
                                    out.append(f)
                                    nxt.append(f)
            work = nxt
        return out

    def decide(self, st, b):
        if b.op == "b":
            return b.args[0]
        if self.prove(st, b):
            return True
        if self.prove(st, bnot(b)):
            return False
        return None

    def assume(self, st, b):
        """False if the fact contradicts the state"""
        if b is TRUE:
            return True
        if b is FALSE or self.prove(st, bnot(b)):
            return False
        st.note(b)
        return True

    def eq(self, st, a, b):
        """are two terms provably the same value"""
        if a is b:
            return True
        if self.isbool(a) and self.isbool(b):
            d = self.decide(st, a)
            if d is not None:
                return self.prove(st, b if d else bnot(b))
            return self.prove(st, bnot(bxor(a, b))) or (self.prove(self.with_(st, a), b) and self.prove(self.with_(st, bnot(a)), bnot(b)))
        if a.op == "agg" or b.op == "agg":
            if a.op == "agg" and b.op == "agg":
                if a.args[0] != b.args[0] or a.args[1] != b.args[1] or len(a.args) != len(b.args):
                    return False
                return all(self.eq(st, x, y) for x, y in zip(a.args[2:], b.args[2:]))
            if b.op == "agg":
                a, b = b, a
            nv = self.nvariants(a, b)
            if nv != 1 and not self.prove(st, eq0(psub(dcr(b), num(a.args[1])))):
                return False
            return all(self.eq(st, x, fld(b, a.args[1], i, x.ty)) for i, x in enumerate(a.args[2:]))
        if a.op in ("vec",) or b.op in ("vec",):
            return self.eq(st, length(a), length(b)) and self.eq(st, arrof(a), arrof(b))
        if a.op in ("alit", "fill", "str", "ptr", "slc", "fn", "undef") and b.op == a.op:
            if a.op == "alit" and len(a.args) == len(b.args):
                return all(self.eq(st, x, y) for x, y in zip(a.args, b.args))
            if a.op in ("ptr",):
                return self.ptr_eq(st, a, b)
            if a.op == "slc":
                return all(self.eq(st, x, y) for x, y in zip(a.args, b.args))
            return False
        if a.op == "store" or b.op == "store":
            if a.op == "store" and b.op == "store" and self.eq(st, a.args[1], b.args[1]) and self.eq(st, a.args[2], b.args[2]) and self.eq(st, a.args[0], b.args[0]):
                return True
            return False
        if a.op in ("ptr", "slc", "alit", "fill", "vec") or b.op in ("ptr", "slc", "alit", "fill"):
            return False
        return self.prove(st, eq0(psub(a, b)))

    def nvariants(self, a, b):
        for x in (a, b):
            if x.ty is not None:
                v = self.ti(x.ty).get("vf")
                if v is not None:
                    return len(v)
        return 1 if a.args[0] == "tuple" or isinstance(a.args[0], tuple) else 2

    def ptr_eq(self, st, a, b):
        if a.args[0] != b.args[0] or len(a.args[1]) != len(b.args[1]):
            return False
        for x, y in zip(a.args[1], b.args[1]):
            if x[0] != y[0]:
                return False
            if x[0] == "ix":
                if not self.eq(st, x[1], y[1]):
                    return False
            elif x[:3] != y[:3]:
                return False
        return True

    def with_(self, st, b):
        s = st.copy()
        s.note(b)
        return s

    # ------------------------------------------------------------ memory
    def root_val(self, st, root):
        v = st.mem.get(root)
        if v is not None:
            return v
        if root[0] == "P":
            t = root[1]
            p = self.pointee(t.ty) if t.ty is not None else None
            v = mk("arr", t, ty=p) if p is not None and self.ti(p)["k"] in ("slice", "str") else mk("deref", t, ty=p)
            st.mem[root] = v
            return v
        if root[0] == "C":
            return root[1]
        if root[0] == "S":
            v = self.f.statics.get(root[1])
            return self.cval(v) if v else mk("static", root[1])
        return UNDEF

    def read(self, st, root, projs):
        v = self.root_val(st, root)
        for p in projs:
            v = self.get(st, v, p)
        return v

    def get(self, st, v, p):
        if v is UNDEF:
            return UNDEF
        if p[0] == "f":
            return fld(v, p[1], p[2], p[3])
        if p[0] == "el":
            return arrof(v) if v.op != "alit" else v
        return self.sel(st, v, p[1], p[2])

    def sel(self, st, a, i, ety=None):
        while True:
            if a.op == "store":
                j = a.args[1]
                if j is i:
                    return a.args[2]
                d = psub(j, i)
                if d.op == "n":
                    a = a.args[0]
                    continue
                e = self.decide(st, eq0(d))
                if e is True:
                    return a.args[2]
                if e is False:
                    a = a.args[0]
                    continue
                return mk("sel", a, i, ty=ety)
            if a.op == "acopy":
                # acopy(dst, di, src, si, n)
                dst, di, src, si, n = a.args
                ins = self.decide(st, band(ge0(psub(i, di), True), gt0(psub(padd(di, n), i), True)))
                if ins is True:
                    a, i = src, padd(psub(i, di), si)
                    continue
                if ins is False:
                    a = dst
                    continue
                return mk("sel", a, i, ty=ety)
            if a.op == "fill":
                return a.args[0]
            if a.op == "cat":
                # cat(a, alen, b)
                ins = self.decide(st, ge0(psub(i, a.args[1]), True))
                if ins is True:
                    i = psub(i, a.args[1])
                    a = a.args[2]
                    continue
                if ins is False:
                    a = a.args[0]
                    continue
                return mk("sel", a, i, ty=ety)
            if a.op == "rev":
                i = psub(psub(a.args[1], i), ONE)
                a = a.args[0]
                continue
            if a.op == "mapa":
                # mapa(bound variable, element)
                return subst(a.args[1], {a.args[0]: i})
            if a.op == "alit":
                if i.op == "n" and 0 <= i.args[0] < len(a.args):
                    return a.args[i.args[0]]
                if a.args and all(x is a.args[0] for x in a.args):
                    return a.args[0]
                for k in range(len(a.args)):
                    if self.prove(st, eq0(psub(i, num(k)))):
                        return a.args[k]
                return mk("sel", a, i, ty=ety)
            if a is UNDEF:
                return UNDEF
            return mk("sel", a, i, ty=ety)

    def put(self, st, v, projs, new):
        if not projs:
            return new
        p, rest = projs[0], projs[1:]
        if p[0] == "f":
            if v is UNDEF:
                n = p[2] + 1
                fs = [UNDEF] * n
                kind = "?"
            elif v.op == "agg" and v.args[1] == p[1]:
                fs = list(v.args[2:])
                kind = v.args[0]
                while len(fs) <= p[2]:
                    fs.append(UNDEF)
            else:
                ft = self.fields(v.ty, p[1]) if v.ty is not None else None
                if ft is None:
                    raise Unsup("write to a field of an opaque value %s" % show(v)[:80])
                x = self.ti(v.ty)
                kind = x.get("d", "tuple") if x["k"] == "adt" else "tuple"
                fs = [fld(v, p[1], i, t) for i, t in enumerate(ft)]
            fs[p[2]] = self.put(st, fs[p[2]], rest, new)
            return agg(kind, p[1], *fs, ty=v.ty)
        if p[0] == "el":
            if v.op == "alit" or v is UNDEF:
                return self.put(st, v, rest, new)
            return vec(self.put(st, arrof(v), rest, new), length(v), ty=v.ty)
        i = p[1]
        if v.op == "alit" and i.op == "n" and 0 <= i.args[0] < len(v.args):
            fs = list(v.args)
            fs[i.args[0]] = self.put(st, fs[i.args[0]], rest, new)
            return mk("alit", *fs, ty=v.ty)
        x = self.put(st, self.sel(st, v, i, p[2]), rest, new) if rest else new
        return self.store(st, v, i, x)

    def store(self, st, a, i, x):
        if x.op == "sel" and x.args[0] is a and x.args[1] is i:
            return a
        if a.op == "store" and a.args[1] is i:
            return self.store(st, a.args[0], i, x)
        return mk("store", a, i, x, ty=a.ty)

    def write(self, st, root, projs, new):
        if root[0] in ("C", "S"):
            raise Unsup("write to a constant")
        if not projs:
            st.mem[root] = new
            return
        st.mem[root] = self.put(st, self.root_val(st, root), projs, new)

    # pointers
    def deref(self, st, v, ty=None):
        """pointer value -> (root, projs) or ('slc', ..)"""
        if v.op == "ptr":
            return v.args[0], v.args[1]
        if v.op == "slc":
            return v.args[0].args[0], v.args[0].args[1]
        if v.op == "agg" and len(v.args) == 3 and isinstance(v.args[2], T):      # NonNull, Unique, Box wrappers
            return self.deref(st, v.args[2], ty)
        if v.op in ("agg", "n", "undef", "b", "poly"):
            raise Unsup("dereference of %s" % show(v)[:60])
        if v.ty is None and ty is not None:
            v.ty = ty
        return ("P", v), ()

    def as_slice(self, st, v):
        """any slice-like pointer as (ptr, start, len)"""
        if v.op == "slc":
            return v.args[0], v.args[1], v.args[2]
        if v.op == "ptr":
            x = self.read(st, v.args[0], v.args[1])
            if x.op == "alit":
                return v, ZERO, num(len(x.args))
            if x.ty is not None and self.ti(x.ty)["k"] == "array":
                return v, ZERO, num(self.ti(x.ty)["len"])
            # pointer to a Vec
            return mk("ptr", v.args[0], v.args[1] + (("el",),)), ZERO, length(x)
        p = self.pointee(v.ty) if v.ty is not None else None
        if p is not None and self.ti(p)["k"] == "array":
            return mk("ptr", ("P", v), ()), ZERO, num(self.ti(p)["len"])
        if p is not None and self.is_vec(p):
            return mk("ptr", ("P", v), (("el",),)), ZERO, mk("len", mk("deref", v, ty=p))
        return mk("ptr", ("P", v), ()), ZERO, mk("len", v)

    def slc(self, ptr, start, ln, ty=None):
        return mk("slc", ptr, start, ln, ty=ty)

    def elem_ptr(self, st, s, i, ety):
        p, start, ln = self.as_slice(st, s)
        return mk("ptr", p.args[0], p.args[1] + (("ix", padd(start, i), ety),))

    def ptr_off(self, st, v, n, ety=None):
        """pointer to an element moved by n elements"""
        if v.op == "slc":
            return mk("slc", v.args[0], padd(v.args[1], n), v.args[2], ty=v.ty)
        if v.op == "ptr" and v.args[1] and v.args[1][-1][0] == "ix":
            e = v.args[1][-1]
            return mk("ptr", v.args[0], v.args[1][:-1] + (("ix", padd(e[1], n), e[2]),))
        if v.op == "agg" and len(v.args) == 3:
            return agg(v.args[0], 0, self.ptr_off(st, v.args[2], n, ety), ty=v.ty)
        if n is ZERO:
            return v
        if v.op == "ptr":
            raise Unsup("pointer arithmetic on %s" % show(v)[:60])
        return mk("ptr", ("P", v), (("ix", n, ety),))

    # ------------------------------------------------------------ places
    def place(self, st, fr, pl):
        root, projs = ("L", fr.fid, pl[0]), ()
        t = fr.body["locals"][pl[0]][0]
        var = 0
        base = None        # (ptr, start, len) when the current place is an unsized slice
        for e in pl[1]:
            k = e[0]
            if k == "d":
                v = self.read(st, root, projs)
                v2 = v
                pt = self.pointee(t)
                if v2.op == "slc":
                    base = v2.args
                    root, projs = v2.args[0].args
                elif pt is not None and self.ti(pt)["k"] in ("slice", "str"):
                    base = self.as_slice(st, self.strip(v2) if v2.op == "agg" else self.typed(v2, t))
                    root, projs = base[0].args
                else:
                    root, projs = self.deref(st, v2, t)
                    base = None
                t = pt
                var = 0
            elif k == "f":
                projs = projs + (("f", var, e[1], e[2]),)
                t = e[2]
                var = 0
            elif k == "v":
                var = e[1]
            elif k in ("i", "ci"):
                if k == "i":
                    i = self.read(st, ("L", fr.fid, e[1]), ())
                else:
                    if e[3]:
                        ln = base[2] if base else num(self.ti(t)["len"])
                        i = psub(ln, num(e[1]))
                    else:
                        i = num(e[1])
                if base:
                    i = padd(base[1], i)
                t = self.elem(t)
                projs = projs + (("ix", i, t),)
                base = None
            elif k == "sub":
                if not base:
                    ln = num(self.ti(t)["len"])
                    base = (mk("ptr", root, projs), ZERO, ln)
                a, b, fe = e[1], e[2], e[3]
                end = psub(base[2], num(b)) if fe else num(b)
                base = (base[0], padd(base[1], num(a)), psub(end, num(a)))
            elif k == "oc":
                pass
            else:
                raise Unsup("projection " + k)
        return root, projs, t, base

    def typed(self, v, t):
        if v.ty is None:
            v.ty = t
        return v

    def strip(self, v):
        while v.op == "agg" and len(v.args) == 3:
            v = v.args[2]
        return v

    def load(self, st, fr, pl):
        r = ("L", fr.fid, pl[0])
        if not pl[1]:
            return self.root_val(st, r)
        root, projs, t, base = self.place(st, fr, pl)
        if self.uses is not None:
            self.uses(self, st, root, projs)
        v = self.read(st, root, projs)
        if v.ty is None and v.op not in ("n", "poly", "b", "agg", "vec", "store"):
            v.ty = t
        return v

    def operand(self, st, fr, o):
        if o[0] in "cm":
            return self.load(st, fr, o[1])
        return self.const(o[1])

    def otype(self, fr, o):
        if o[0] in "cm":
            return self.ptype(fr, o[1])
        return o[1].get("t") if not isinstance(o[1], str) else self.boolt

    def ptype(self, fr, pl):
        t = fr.body["locals"][pl[0]][0]
        for e in pl[1]:
            k = e[0]
            if k == "d":
                t = self.pointee(t)
            elif k == "f":
                t = e[2]
            elif k in ("i", "ci"):
                t = self.elem(t)
        return t

    # ------------------------------------------------------------ statements
    def stmt(self, st, fr, s):
        k = s[0]
        if k == "=":
            v = self.rvalue(st, fr, s[2], s[1], s[3])
            if not s[1][1]:
                st.mem[("L", fr.fid, s[1][0])] = v
            else:
                root, projs, t, base = self.place(st, fr, s[1])
                self.hook_write(st, fr, root, projs, v, s[3])
                self.write(st, root, projs, v)
        elif k == "dead":
            st.mem.pop(("L", fr.fid, s[1]), None)
        elif k == "sd":
            root, projs, t, base = self.place(st, fr, s[1])
            self.write(st, root, projs, agg(self.ti(t).get("d", "?"), s[2], ty=t))
        elif k == "assume":
            st.note(self.operand(st, fr, s[1]))
        elif k == "cno":
            a = [self.operand(st, fr, x) for x in s[1:4]]
            if self.own is not None:
                self.own("copy", self, st, *a)
            self.copy_no(st, *a, fr, s[-1])
        else:
            raise Unsup("statement " + k)

    def hook_write(self, st, fr, root, projs, v, span):
        if self.own is not None:
            self.own("put", self, st, mk("ptr", root, projs))

    def copy_no(self, st, src, dst, n, fr, span):
        if n is ONE:
            r, p = self.deref(st, src)
            v = self.read(st, r, p)
            r, p = self.deref(st, dst)
            self.write(st, r, p, v)
            return
        sr, sp = self.deref(st, src)
        dr, dp = self.deref(st, dst)
        if sp[-1][0] != "ix" or dp[-1][0] != "ix":
            raise Unsup("bulk copy of non-elements")
        sa = self.read(st, sr, sp[:-1])
        da = self.read(st, dr, dp[:-1])
        self.write(st, dr, dp[:-1], mk("acopy", da, dp[-1][1], sa, sp[-1][1], n, ty=da.ty))

    def rvalue(self, st, fr, r, dst, span):
        k = r[0]
        if k == "use":
            return self.operand(st, fr, r[1])
        if k in ("ref", "raw"):
            root, projs, t, base = self.place(st, fr, r[2])
            if base is not None:
                return mk("slc", base[0], base[1], base[2], ty=self.ptype(fr, dst))
            if len(r[2][1]) and r[2][1][-1][0] == "d" and root[0] == "P" and not projs and root not in st.mem:
                return root[1]
            return mk("ptr", root, projs, ty=None)
        if k == "bin":
            return self.binop(st, fr, r[1], self.operand(st, fr, r[2]), self.operand(st, fr, r[3]), self.otype(fr, r[2]), span)
        if k == "un":
            v = self.operand(st, fr, r[2])
            if r[1] == "Not":
                if self.isbool(v):
                    return bnot(v)
                t = self.otype(fr, r[2])
                p = self.ti(t)["s"]
                if p in INT_BITS and p[0] == "u":
                    return psub(num((1 << INT_BITS[p]) - 1), v)
                if p in INT_BITS:
                    return psub(num(-1), v)
                return mk("app", "not", v, ty=t)
            if r[1] == "Neg":
                return pneg(v)
            if r[1] == "PtrMetadata":
                v = self.strip(v)
                return self.as_slice(st, self.typed(v, self.otype(fr, r[2])))[2]
            raise Unsup("unary " + r[1])
        if k == "cast":
            return self.cast(st, fr, r[1], self.operand(st, fr, r[2]), self.otype(fr, r[2]), r[3])
        if k == "discr":
            v = self.load(st, fr, r[1])
            return self.dval(v, self.ptype(fr, r[1]))
        if k == "repeat":
            v = self.operand(st, fr, r[1])
            n = r[2]
            t = self.ptype(fr, dst)
            if isinstance(n, int) and n <= 16:
                return mk("alit", *([v] * n), ty=t)
            return mk("fill", v, ty=t)
        if k == "agg":
            fs = [self.operand(st, fr, o) for o in r[2]]
            a = r[1]
            t = self.ptype(fr, dst)
            if a[0] == "array":
                return mk("alit", *fs, ty=t)
            if a[0] == "tuple":
                return agg("tuple", 0, *fs, ty=t)
            if a[0] == "adt":
                return agg(a[1], a[2], *fs, ty=t)
            if a[0] == "closure":
                return agg(("closure", a[2]), 0, *fs, ty=t)
            if a[0] == "rawptr":
                if len(fs) == 2 and fs[1].op == "agg":
                    return fs[0]
                p = self.pointee(t)
                e = self.elem(p)
                v = self.strip(fs[0])
                if v.op == "ptr" and v.args[1] and v.args[1][-1][0] == "ix":
                    return mk("slc", mk("ptr", v.args[0], v.args[1][:-1]), v.args[1][-1][1], fs[1], ty=t)
                return mk("slc", mk("ptr", ("P", v), ()), ZERO, fs[1], ty=t)
        raise Unsup("rvalue " + k)

    def dval(self, v, t):
        """discriminant value"""
        x = self.ti(t)
        if x["k"] == "adt" and x["d"] == "core::cmp::Ordering":
            return psub(dcr(v), ONE)
        if x["k"] == "adt":
            a = self.f.adts.get(x["d"])
            if a:
                ds = [str(y.get("discr")) for y in a["variants"]]
                if ds != [str(i) for i in range(len(ds))]:
                    if v.op == "agg":
                        return num(int(ds[v.args[1]]))
                    if None not in ds and "None" not in ds:
                        return mk("dval", v, tuple(ds), ty=None)
        return dcr(v)

    def binop(self, st, fr, op, a, b, t, span):
        kd = self.kind(t)
        isf = kd == "float"
        isint = kd == "int" or kd in ("ptr",)
        if op.endswith("Unchecked"):
            op = op[:-9]
        ovf = None
        if op.endswith("WithOverflow"):
            op = op[:-12]
            ovf = True
        if op in ("Add", "Sub", "Mul"):
            v = padd(a, b) if op == "Add" else psub(a, b) if op == "Sub" else pmul(a, b)
            if ovf:
                s = self.ti(t)["s"]
                o = gt0(psub(b, a), True) if op == "Sub" and (s[0] == "u" or s == "char") else FALSE
                if INT_BITS.get(s, 64) <= 16:
                    # only counters this narrow are taken to be able to overflow
                    lo, hi = narrow(s)
                    o = bor(gt0(psub(v, num(hi)), True), gt0(psub(num(lo), v), True))
                return agg("tuple", 0, v, o)
            return v
        if op == "Div":
            if isf:
                return pdiv(a, b)
            return self.idiv(st, a, b)
        if op == "Rem":
            if isf:
                return mk("app", "frem", a, b, ty=t)
            return self.irem(st, a, b, t)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if a.op in ("ptr", "slc") or b.op in ("ptr", "slc"):
                return mk("app", op, a, b, ty=self.boolt)
            if kd == "bool":
                a, b = self.b2i(st, a), self.b2i(st, b)
                isint = True
            if op == "Lt":
                return gt0(psub(b, a), isint)
            if op == "Le":
                return ge0(psub(b, a), isint)
            if op == "Gt":
                return gt0(psub(a, b), isint)
            return ge0(psub(a, b), isint)
        if op in ("Eq", "Ne"):
            e = self.eqterm(st, a, b, t)
            return e if op == "Eq" else bnot(e)
        if op in ("BitAnd", "BitOr", "BitXor"):
            if kd == "bool" or self.isbool(a):
                return band(a, b) if op == "BitAnd" else bor(a, b) if op == "BitOr" else bxor(a, b)
            if a.op == "n" and b.op == "n":
                x, y = a.args[0], b.args[0]
                return num(x & y if op == "BitAnd" else x | y if op == "BitOr" else x ^ y)
            if a.id > b.id:
                a, b = b, a
            return mk("app", op, a, b, ty=t)
        if op == "Shl" and b.op == "n" and b.args[0] >= 0:
            return pscale(a, 2 ** b.args[0])
        if op == "Shr" and b.op == "n" and b.args[0] >= 0:
            return self.idiv(st, a, num(2 ** b.args[0]))
        if op == "Cmp":
            return mk("app", "cmp", a, b)
        if op == "Offset":
            return self.ptr_off(st, a, b)
        return mk("app", op, a, b, ty=t)

    def eqterm(self, st, a, b, t=None):
        if a is b:
            return TRUE
        if self.isbool(a) or self.isbool(b):
            return bnot(bxor(a, b))
        if a.op in ("ptr", "slc") or b.op in ("ptr", "slc"):
            return mk("app", "ptreq", a, b, ty=self.boolt)
        if a.op == "agg" and b.op == "agg":
            if a.args[1] != b.args[1]:
                return FALSE
            r = TRUE
            for x, y in zip(a.args[2:], b.args[2:]):
                r = band(r, self.eqterm(st, x, y))
            return r
        if a.op == "agg" or b.op == "agg":
            if b.op == "agg":
                a, b = b, a
            r = eq0(psub(dcr(b), num(a.args[1]))) if self.nvariants(a, b) != 1 else TRUE
            for i, x in enumerate(a.args[2:]):
                r = band(r, self.eqterm(st, x, fld(b, a.args[1], i, x.ty)))
            return r
        if a.op in ("vec", "alit") or b.op in ("vec", "alit") or (a.ty is not None and self.is_vec(a.ty)):
            return mk("app", "aeq", a, b, ty=self.boolt)
        return eq0(psub(a, b))

    def b2i(self, st, b):
        if b.op == "b":
            return ONE if b.args[0] else ZERO
        d = self.decide(st, b)
        if d is not None:
            return ONE if d else ZERO
        return mk("b2i", b)

    def idiv(self, st, a, b):
        if b.op == "n" and b.args[0] == 1:
            return a
        if a.op == "n" and b.op == "n" and b.args[0] != 0:
            q = abs(a.args[0]) // abs(b.args[0])
            return num(q if (a.args[0] >= 0) == (b.args[0] > 0) else -q)
        if self.prove(st, ge0(a, True)) and (self.prove(st, gt0(b, True))):
            if b.op == "n":
                # exact parts: (b*x + r)/b
                k = b.args[0]
                p = toP(a)
                if all(isinstance(c, int) and c % k == 0 for m, c in p.items()):
                    return pscale(a, Fraction(1, k))
                ex = {m: c for m, c in p.items() if m != () and isinstance(c, int) and c % k == 0}
                if ex:
                    rest = {m: c for m, c in p.items() if m not in ex}
                    c0 = rest.get((), 0)
                    q = c0 // k
                    rest[()] = c0 - q * k
                    r = fromP(rest)
                    if self.prove(st, ge0(r, True)) and self.prove(st, gt0(psub(b, r), True)):
                        return padd(pscale(fromP(ex), Fraction(1, k)), num(q))
            return mk("idiv", a, b)
        return mk("app", "tdiv", a, b)

    def irem(self, st, a, b, t):
        if a.op == "n" and b.op == "n" and b.args[0] != 0:
            r = abs(a.args[0]) % abs(b.args[0])
            return num(r if a.args[0] >= 0 else -r)
        if self.prove(st, ge0(a, True)) and self.prove(st, gt0(b, True)):
            if self.prove(st, gt0(psub(b, a), True)):
                return a
            if b.op == "n":
                return psub(a, pmul(b, self.idiv(st, a, b)))
            return mk("irem", a, b)
        if self.prove(st, gt0(b, True)):
            return mk("app", "trem", a, b, ty=t)
        return mk("app", "trem", a, b, ty=t)

    def cast(self, st, fr, k, v, ft, tt):
        if k == "IntToInt":
            fk = self.kind(ft)
            if fk == "bool":
                return self.b2i(st, v)
            fs, ts = self.ti(ft)["s"], self.ti(tt)["s"]
            if self.kind(ft) == "adt" or fk == "other":
                return v
            if v.op == "n":
                n = v.args[0]
                bits = INT_BITS.get(ts, 64)
                lo, hi = (0, (1 << bits) - 1) if ts[0] in "uc" else (-(1 << bits - 1), (1 << bits - 1) - 1)
                if lo <= n <= hi:
                    return v
                n &= (1 << bits) - 1
                if n > hi:
                    n -= 1 << bits
                return num(n)
            tb = INT_BITS.get(ts, 64)
            fb = INT_BITS.get(fs, 64)
            if tb >= 32:
                if ts[0] == "u" and fs[0] == "i" and not self.prove(st, ge0(v, True)):
                    return mk("app", "as_" + ts, v, ty=tt)
                return v
            if tb >= fb and (fs[0] == "u" or ts[0] == fs[0]):
                return v
            hi = (1 << tb) - 1 if ts[0] == "u" else (1 << (tb - 1)) - 1
            if self.prove(st, ge0(v, True)) and self.prove(st, ge0(psub(num(hi), v), True)):
                return v
            return mk("app", "as_" + ts, v, ty=tt)
        if k == "IntToFloat":
            return v
        if k == "FloatToInt":
            if v.op == "n":
                n = v.args[0]
                return num(int(n))
            if self.lg.intp(v):
                return v
            return mk("app", "trunc", v, ty=tt)
        if k.startswith("PointerCoercion"):
            if "Unsize" in k:
                p = self.pointee(tt)
                if p is not None and self.ti(p)["k"] == "slice":
                    a = self.as_slice(st, self.typed(v, ft))
                    return mk("slc", a[0], a[1], a[2], ty=tt)
                return v
            return v
        if k in ("PtrToPtr", "BoxDerefTransmute", "Transmute", "Subtype"):
            if k == "Transmute" and self.kind(tt) == "int" and v.op in ("ptr", "slc"):
                return mk("app", "addr", v, ty=tt)
            if k == "PtrToPtr" and v.op == "slc" and self.ti(self.pointee(tt) if self.pointee(tt) is not None else -1)["k"] not in ("slice", "str"):
                return mk("ptr", v.args[0].args[0], v.args[0].args[1] + (("ix", v.args[1], self.pointee(tt)),))
            return v
        return mk("app", "cast_" + k, v, ty=tt)

    # ------------------------------------------------------------ bodies
    def info(self, body):
        r = self._bodyinfo.get(body["key"])
        if r is None:
            loops, rpo, nm, idom = natural_loops(body)
            r = self._bodyinfo[body["key"]] = (loops, rpo, nm, self.liveness(body))
        return r

    def liveness(self, body):
        """locals live at the start of each block (address-taken locals are always live)"""
        bl = body["blocks"]
        n = len(bl)
        taken = set()
        use, dfn = [set() for _ in range(n)], [set() for _ in range(n)]

        def up(pl, u, d):
            if pl[0] not in d:
                u.add(pl[0])
            for e in pl[1]:
                if e[0] == "i" and e[1] not in d:
                    u.add(e[1])

        def uop(o, u, d):
            if o[0] in "cm":
                up(o[1], u, d)
        from vlib.mir import operands_of_rvalue
        for i, (ss, t, c) in enumerate(bl):
            u, d = use[i], dfn[i]
            for s in ss:
                if s[0] == "=":
                    r = s[2]
                    if r[0] in ("ref", "raw"):
                        up(r[2], u, d)
                        if not any(e[0] == "d" for e in r[2][1]):
                            taken.add(r[2][0])
                    elif r[0] == "discr":
                        up(r[1], u, d)
                    for o in operands_of_rvalue(r):
                        uop(o, u, d)
                    if s[1][1]:
                        up(s[1], u, d)
                    else:
                        d.add(s[1][0])
                elif s[0] == "sd":
                    up(s[1], u, d)
                elif s[0] == "assume":
                    uop(s[1], u, d)
                elif s[0] == "cno":
                    for o in s[1:4]:
                        uop(o, u, d)
            k = t[0]
            if k == "switch":
                uop(t[1], u, d)
            elif k == "call":
                uop(t[1], u, d)
                for o in t[2]:
                    uop(o, u, d)
                if t[3][1]:
                    up(t[3], u, d)
                else:
                    d.add(t[3][0])
            elif k == "assert":
                uop(t[1], u, d)
                for o in t[3][1:]:
                    if isinstance(o, list):
                        uop(o, u, d)
            elif k == "drop":
                up(t[1], u, d)
            elif k == "ret":
                if 0 not in d:
                    u.add(0)
        live = [set(u) for u in use]
        ch = True
        while ch:
            ch = False
            for i in range(n - 1, -1, -1):
                o = set()
                for s in succs(bl[i][1], True):
                    o |= live[s]
                x = use[i] | (o - dfn[i])
                if x != live[i]:
                    live[i] = x
                    ch = True
        return live, taken

    def fid(self, parent, site, key):
        k = (parent, site, key)
        r = self._fid.get(k)
        if r is None:
            Eng.FID += 1
            r = self._fid[k] = Eng.FID
            self._fid[r] = k
        return r

    def run(self, body, args, st=None, parent=0, site=0, depth=0):
        """analyse a body with the given argument values; list of (kind, state, value), kind 'ret' or 'unwind'"""
        if st is None:
            st = St()
        fr = Frame()
        fr.fid = self.fid(parent, site, body["key"])
        fr.body = body
        fr.depth = depth
        fr.parent = parent
        fr.loops, fr.rpo, fr.num, fr.live = self.info(body)
        if depth > self.MAXDEPTH:
            raise Unsup("call depth")
        if len(args) != body["argc"]:
            raise Unsup("argument count of %s: %d vs %d" % (body["key"], len(args), body["argc"]))
        for i, a in enumerate(args):
            st.mem[("L", fr.fid, i + 1)] = a
        if body["local"]:
            self.fncov.add(body["path"])
        self.stack.append(body["key"])
        try:
            outs = self.region(fr, [(0, st)], None, None)
        finally:
            self.stack.pop()
        res = []
        for tgt, s in outs:
            if tgt == "ret":
                v = s.mem.get(("L", fr.fid, 0), UNIT)
            else:
                v = None
            for k in [k for k in s.mem if k[0] == "L" and k[1] == fr.fid]:
                del s.mem[k]
            res.append((tgt, s, v))
        if len(res) > 1:
            merged = {}
            for tgt, s, v in res:
                k = (tgt, v, s.ev, tuple(sorted(((repr(a) if not isinstance(a, tuple) else repr(tuple(x.id if isinstance(x, T) else x for x in a))), b.id) for a, b in s.mem.items())))
                if k in merged:
                    self.join_facts(merged[k][1], s)
                else:
                    merged[k] = (tgt, s, v)
            res = list(merged.values())
        return res

    def join_facts(self, a, b):
        keep = {f: None for f in a.facts if f in b.facts}
        xa = [f for f in a.facts if f not in keep]
        xb = [f for f in b.facts if f not in keep]
        ka = [f for f in xa if self.prove(b, f, 0)]
        kb = [f for f in xb if self.prove(a, f, 0)]
        for f in ka + kb:
            keep[f] = None
        xa = [f for f in xa if f not in keep]
        xb = [f for f in xb if f not in keep]
        if len(xa) == 1:
            xb = [f for f in xb if f is not bnot(xa[0])]
        if len(xb) == 1:
            xa = [f for f in xa if f is not bnot(xb[0])]
        xa, xb = self.fewer(xa), self.fewer(xb)
        if xa and xb and len(xa) <= 8 and len(xb) <= 8:
            ca, cb = TRUE, TRUE
            for f in xa:
                ca = band(ca, f)
            for f in xb:
                cb = band(cb, f)
            keep[bor(ca, cb)] = None
        a.facts = keep
        a.fa = tuple(x for x in a.fa if x in b.fa)
        a.note(TRUE)

    @staticmethod
    def fewer(fs):
        """without the disequalities of a default case, if there are many facts"""
        return fs if len(fs) <= 8 else [f for f in fs if not (f.op == "not" and f.args[0].op == "eq0")]

    def memkey(self, s):
        return (s.ev, frozenset((k, v) for k, v in s.mem.items()))

    def region(self, fr, entries, head, members):
        """analyse blocks from the entries; within a loop (head, members) stop at back edges and exits.
        Returns [(target, state)], target a block outside, 'back', 'ret' or 'unwind'"""
        pend = {}
        outs = []

        def add(b, s):
            if head is not None and b == head:
                outs.append(("back", s))
                return
            if members is not None and b not in members:
                outs.append((b, s))
                return
            l = pend.setdefault(b, {})
            # locals that are dead here carry nothing
            lv, taken = fr.live
            live = lv[b]
            for k in [k for k in s.mem if k[0] == "L" and k[1] == fr.fid and k[2] not in live and k[2] not in taken and k[2] != 0]:
                del s.mem[k]
            k = self.memkey(s)
            if k in l:
                self.join_facts(l[k], s)
            else:
                l[k] = s
                if len(l) > self.MAXSTATES:
                    raise Unsup("too many partitions in %s" % fr.body["key"])
        first = True
        for b, s in entries:
            if head is not None and b == head and first:
                pend.setdefault(b, {})[self.memkey(s)] = s
            else:
                add(b, s)
        started = False
        num_ = dict(fr.num)
        while pend:
            b = min(pend, key=lambda x: num_.get(x, 1 << 30))
            sts = list(pend.pop(b).values())
            if b in fr.loops and not (b == head and not started):
                for s in sts:
                    for tgt, s2 in self.do_loop(fr, b, s):
                        if tgt in ("ret", "unwind"):
                            outs.append((tgt, s2))
                        else:
                            add(tgt, s2)
                continue
            started = True
            for s in sts:
                for tgt, s2 in self.block(fr, b, s):
                    if tgt in ("ret", "unwind"):
                        outs.append((tgt, s2))
                    else:
                        add(tgt, s2)
        return outs

    def block(self, fr, b, st):
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsup("analysis budget")
        ss, t, cl = fr.body["blocks"][b]
        for s in ss:
            self.stmt(st, fr, s)
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "ret":
            return [("ret", st)]
        if k == "resume":
            return [("unwind", st)]
        if k == "unreachable":
            return []
        if k == "switch":
            return self.switch(fr, t, st)
        if k == "assert":
            return self.do_assert(fr, t, st)
        if k == "drop":
            return self.do_drop(fr, b, t, st)
        if k == "call":
            return self.do_call(fr, b, t, st)
        if k in ("terminate", "abort", "other"):
            return []
        raise Unsup("terminator " + k)

    def switch(self, fr, t, st):
        v = self.operand(st, fr, t[1])
        ty = self.otype(fr, t[1])
        arms = t[2]
        out = []
        s = self.ti(ty)["s"]
        if self.isbool(v) or s == "bool" and v.op not in ("n", "poly", "dval"):
            tgt = {False: t[3], True: t[3]}
            for x, b in arms:
                tgt[x != "0"] = b
            d = self.decide(st, v)
            if d is not None:
                return [(tgt[d], st)]
            s2 = st.copy()
            st.note(v)
            s2.note(bnot(v))
            return [(tgt[True], st), (tgt[False], s2)]

        def val(x):
            n = int(x)
            if s in INT_BITS and s[0] == "i" and n >= 1 << (INT_BITS[s] - 1):
                n -= 1 << INT_BITS[s]
            return n
        if v.op == "dval":
            ds = v.args[1]
            v2 = dcr(v.args[0])
            conv = {int(d): i for i, d in enumerate(ds)}
            arms = [(str(conv[val(x)]), b) for x, b in arms if val(x) in conv]
            v = v2
            s = "usize"
        if v.op == "n":
            for x, b in arms:
                if val(x) == v.args[0]:
                    return [(b, st)]
            return [(t[3], st)] if t[3] is not None else []
        rest = st
        for x, b in arms:
            c = eq0(psub(v, num(val(x))))
            d = self.decide(rest, c)
            if d is True:
                out.append((b, rest))
                return out
            if d is False:
                continue
            s2 = rest.copy()
            s2.note(c)
            out.append((b, s2))
            rest = rest.copy()
            rest.note(bnot(c))
        if t[3] is not None and fr.body["blocks"][t[3]][1][0] != "unreachable":
            if not (v.op == "dcr" and self.lg.unsat(rest.facts, [ge0(v, True), mk("not", eq0(psub(v, num(-1))))])):
                out.append((t[3], rest))
        return out

    def where(self, fr, span):
        return span

    def ob(self, kind, where, ok, text=""):
        if not self.quiet:
            self.obl.append((kind, where, ok, text))

    def do_assert(self, fr, t, st):
        c = self.operand(st, fr, t[1])
        if not t[2]:
            c = bnot(c)
        kind = t[3][0]
        if kind == "other":
            return [(t[4], st)]
        if kind in ("null", "misaligned", "nullptr", "invalidenum"):
            return [(t[4], st)]
        d = self.decide(st, c) if not (c.op == "app" and c.args[0] in ("ptreq",)) else True
        self.ob(kind, t[6] if len(t) > 6 else "", d is True, show(c)[:120])
        res = []
        if d is not True and self.panics:
            s2 = st.copy()
            s2.note(bnot(c))
            self.panic(fr, s2, t[6] if len(t) > 6 else "", kind)
        if d is not True and self.unwind and isinstance(t[5], int):
            s2 = st.copy()
            s2.note(bnot(c))
            res.append((t[5], s2))
        elif d is not True and self.unwind:
            s2 = st.copy()
            s2.note(bnot(c))
            res.append(("unwind", s2))
        if d is False:
            return res
        st.note(c)
        return [(t[4], st)] + res

    def panic(self, fr, st, where, what):
        if not self.quiet:
            self.out.append(("panic", st, where, what))

    def do_drop(self, fr, b, t, st):
        needs = t[5] if len(t) > 5 else True
        res = [(t[2], st)]
        root, projs, ty, base = self.place(st, fr, t[1])
        if self.own is not None and needs:
            self.own("drop", self, st, mk("ptr", root, projs), ty)
        if self.drops is not None and needs:
            r = self.drops(self, st, fr, root, projs, ty, t)
            if r is not None:
                return r
        return res

    # ------------------------------------------------------------ loops
    def leafdiff(self, st, root, path, a, b, t, out):
        """places in which two values differ: out[(root, path)] = type"""
        if a is b:
            return
        if a.op == "agg" and b.op == "agg" and a.args[0] == b.args[0] and a.args[1] == b.args[1] and len(a.args) == len(b.args):
            ft = self.fields(a.ty if a.ty is not None else (t if t is not None else -1), a.args[1])
            kind = a.args[0]
            for i, (x, y) in enumerate(zip(a.args[2:], b.args[2:])):
                if kind == "it":
                    tt = self.usize if i >= 2 else None
                else:
                    tt = ft[i] if ft and i < len(ft) else (x.ty if x.ty is not None else y.ty)
                self.leafdiff(st, root, path + (("f", a.args[1], i, tt),), x, y, tt, out)
            return
        if (a.op == "vec" or b.op == "vec") and t is not None and self.is_vec(t) or (a.op == "vec" and b.op == "vec"):
            self.leafdiff(st, root, path + (("el",),), arrof(a), arrof(b), None, out)
            self.leafdiff(st, root, path + (("len",),), length(a), length(b), self.usize, out)
            return
        # struct values written field by field against an opaque one
        if (a.op == "agg") != (b.op == "agg"):
            g, o = (a, b) if a.op == "agg" else (b, a)
            if g.args[0] != "it" and o.op not in ("undef",) and self.nvariants(g, o) == 1 and t is not None and self.fields(t, 0):
                ft = self.fields(t, 0)
                for i, tt in enumerate(ft):
                    self.leafdiff(st, root, path + (("f", 0, i, tt),), fld(a, 0, i, tt), fld(b, 0, i, tt), tt, out)
                return
        if a.op == "alit" and b.op == "alit" and len(a.args) == len(b.args):
            et = self.elem(t) if t is not None else None
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                self.leafdiff(st, root, path + (("ix", num(i), et),), x, y, et, out)
            return
        if a.op == "slc" and b.op == "slc" and a.args[0] is b.args[0]:
            self.leafdiff(st, root, path + (("sa", 1),), a.args[1], b.args[1], self.usize, out)
            self.leafdiff(st, root, path + (("sa", 2),), a.args[2], b.args[2], self.usize, out)
            return
        out[(root, path)] = t if t is not None else (a.ty if a.ty is not None else b.ty)

    def getp(self, st, root, path):
        v = self.root_val(st, root)
        for p in path:
            if p[0] == "len":
                v = length(v)
            elif p[0] == "sa":
                v = v.args[p[1]] if v.op == "slc" else UNDEF
            else:
                v = self.get(st, v, p)
        return v

    def fits(self, v, path):
        """does the path exist in a value of this shape"""
        for p in path:
            if v is None or v.op != "agg" or p[0] != "f":
                return True
            if v.args[0] != "it" and v.args[1] != p[1] or p[2] + 2 >= len(v.args):
                return False
            v = v.args[p[2] + 2]
        return True

    def putp(self, st, v, path, new):
        if not path:
            return new
        p, rest = path[0], path[1:]
        if p[0] == "len":
            return vec(arrof(v), new, ty=v.ty)
        if p[0] == "sa":
            if v.op != "slc":
                return v
            a = list(v.args)
            a[p[1]] = new
            return mk("slc", *a, ty=v.ty)
        if p[0] == "f" and v.op == "agg" and v.args[0] == "it":
            fs = list(v.args[2:])
            fs[p[2]] = self.putp(st, fs[p[2]], rest, new)
            return agg("it", v.args[1], *fs, ty=v.ty)
        sub = self.putp(st, self.get(st, v, p), rest, new)
        return self.put(st, v, (p,), sub)

    def root_ty(self, fr, root):
        if root[0] == "L":
            k = self._fid.get(root[1])
            if k:
                b = self._bykey.get(k[2])
                if b:
                    return b["locals"][root[2]][0]
        if root[0] == "P" and root[1].ty is not None:
            return self.pointee(root[1].ty)
        return None

    def with_phis(self, fr, head, st0, W, phis, repl):
        s = st0.copy()
        for (root, path), t in W.items():
            v = phis[(root, path)]
            v = repl.get(v, v)
            s.mem[root] = self.putp(s, self.root_val(s, root), path, v)
        return s

    def phi(self, fr, head, root, path, t, entry):
        p = tuple(x[:3] if x[0] == "f" else x for x in path)
        if t is None:
            t = entry.ty
        if t is None and self.isbool(entry):
            t = self.boolt
        return mk("phi", (fr.fid, head, root, p), self.phiname(fr, root, path), ty=t)

    def phiname(self, fr, root, path):
        n = "?"
        if root[0] == "L" and root[1] == fr.fid:
            n = fr.body["locals"][root[2]][1] or "_%d" % root[2]
        elif root[0] == "L":
            n = "f%d._%d" % (root[1], root[2])
        elif root[0] == "P":
            n = "*" + show(root[1])
        for p in path:
            n += "." + ("%d" % p[2] if p[0] == "f" else p[0])
        return n

    def reshaped(self, a, b):
        """do two states at one loop head hold different enum variants in some place"""
        for root, x in a.mem.items():
            y = b.mem.get(root)
            if y is not None and y is not x and self.variants(x, y):
                return True
        return False

    def variants(self, x, y):
        if x is y or x.op != "agg" or y.op != "agg" or x.args[0] != y.args[0]:
            return False
        if x.args[1] != y.args[1]:
            return True
        return any(self.variants(p, q) for p, q in zip(x.args[2:], y.args[2:]) if isinstance(p, T) and isinstance(q, T))

    def peeled(self, fr, head, st0, members, peel):
        """the first iteration on its own, then the loop from the states it leaves"""
        self.quiet -= 1
        try:
            res = []
            for tgt, s2 in self.region(fr, [(head, st0.copy())], head, members):
                if tgt == "back":
                    res.extend(self.do_loop(fr, head, s2, peel + 1))
                else:
                    res.append((tgt, s2))
            return res
        finally:
            self.quiet += 1

    def do_loop(self, fr, head, st0, peel=0):
        members = fr.loops[head]
        lv, taken = fr.live
        live = lv[head]
        for k in [k for k in st0.mem if k[0] == "L" and k[1] == fr.fid and k[2] not in live and k[2] not in taken and k[2] != 0]:
            del st0.mem[k]
        ckey = (fr.fid, head)
        W = dict(self._wcache.get(ckey, {}))
        for w in list(W):
            if w[0] not in st0.mem and w[0][0] != "P" or not self.fits(st0.mem.get(w[0]), w[1]):
                del W[w]
        inline = ckey in self._inline
        self.quiet += 1
        try:
            # 1. which places change
            for _ in range(30):
                phis = {w: self.phi(fr, head, w[0], w[1], t, self.getp(st0, w[0], w[1])) for w, t in W.items()}
                s = self.with_phis(fr, head, st0, W, phis, {})
                ref = self.with_phis(fr, head, st0, W, phis, {})
                backs = self.backs(fr, head, members, s, ref if inline else None)
                if not inline and any(self.reshaped(ref, x) for x in backs):
                    # the enum variants of the state differ from iteration to iteration
                    if all(self.reshaped(ref, x) for x in backs):
                        if peel < 3:
                            return self.peeled(fr, head, st0, members, peel)
                    else:
                        inline = True
                        self._inline.add(ckey)
                        continue
                new = {}
                for bs in backs:
                    for root, v in bs.mem.items():
                        if root[0] == "L" and root[1] == fr.fid and root[2] not in live and root[2] not in taken:
                            continue
                        if root not in ref.mem:
                            if root[0] == "P":
                                init = self.root_val(St(), root)
                                if v is not init:
                                    if not self.grounded(root, fr, head):
                                        raise Unsup("a write through a pointer made inside the loop")
                                    self.leafdiff(bs, root, (), init, v, self.root_ty(fr, root), new)
                            continue
                        self.leafdiff(bs, root, (), ref.mem[root], v, self.root_ty(fr, root), new)
                have = set(bare(w) for w in W)
                for w in list(new):
                    if bare(w) in have or any(x[0] == w[0] and w[1][:len(x[1])] == x[1] for x in W):
                        del new[w]
                    else:
                        have.add(bare(w))
                if not new:
                    break
                for w, t in new.items():
                    # a prefix subsumes longer paths
                    for w2 in [x for x in W if x[0] == w[0] and x[1][:len(w[1])] == w[1]]:
                        del W[w2]
                    if not any(x[0] == w[0] and w[1][:len(x[1])] == x[1] for x in W):
                        W[w] = t
            else:
                raise Unsup("loop does not stabilise")
            self._wcache[ckey] = dict(W)
            phis = {w: self.phi(fr, head, w[0], w[1], t, self.getp(st0, w[0], w[1])) for w, t in W.items()}
            entry = {phis[w]: self.getp(st0, w[0], w[1]) for w in W}
            # 2. affine relations
            repl, eqs = self.affine(st0, backs, W, phis, entry)
            # 3. inductive facts
            cands = self.candidates(fr, head, st0, backs, W, phis, entry, repl)
            known, own = self.known(st0), set(phis.values())
            cands = [c for c in cands if c not in (TRUE, FALSE) and not self.stale(c, known, own) and self.prove(st0, subst(c, entry))]
            qc = self.qcandidates(fr, head, st0, backs, W, phis, entry, repl)
            qc = [q for q in qc if self.q_holds(st0, q, entry)]
            for _ in range(12):
                s = self.with_phis(fr, head, st0, W, phis, repl)
                for e in eqs + cands:
                    s.note(e)
                s.fa = s.fa + tuple(qc)
                s.note(TRUE)
                backs = self.backs(fr, head, members, s, s.copy() if inline else None)
                bad, badq = set(), set()
                for bs in backs:
                    mp = {phis[w]: self.getp(bs, w[0], w[1]) for w in W}
                    for c in cands:
                        if c not in bad and not self.prove(bs, subst(c, mp)):
                            bad.add(c)
                            if DBG and WHY in show(c):
                                print("WHY", head, [show(mp[p])[:60] for p in phis.values()], show(subst(c, mp))[:600], "|||", " & ".join(show(x) for x in bs.facts)[-WHYN:], flush=True)
                    for q in qc:
                        if q not in badq and not self.q_holds(bs, q, mp):
                            badq.add(q)
                if DBG and (bad or badq):
                    print("ROUND", head, len(cands), len(qc), flush=True)
                if DBG:
                    for c in bad:
                        print("DROP", show(c)[:300], flush=True)
                    for q in badq:
                        print("DROPQ", show(q[0])[:40], "|", show(q[2])[:160], "|", show(q[3])[:200], flush=True)
                if not bad and not badq:
                    break
                cands = [c for c in cands if c not in bad]
                qc = [q for q in qc if q not in badq]
            else:
                cands, qc = [], []
                s = self.with_phis(fr, head, st0, W, phis, repl)
                for e in eqs:
                    s.note(e)
            qc = self.strongest(qc)
        finally:
            self.quiet -= 1
        # 4. final pass
        info = LoopInfo()
        info.fid, info.head, info.body = fr.fid, head, fr.body
        info.entry = st0
        info.span = self.block_span(fr, head)
        s = self.with_phis(fr, head, st0, W, phis, repl)
        for e in eqs + cands:
            s.note(e)
        s.fa = s.fa + tuple(qc)
        s.note(TRUE)
        info.start = s.copy()
        info.phis = {w: (repl.get(phis[w], phis[w]), entry[phis[w]]) for w in W}
        info.rawphis = phis
        info.repl = repl
        info.cands = cands
        info.quant = qc
        if not self.quiet:
            self.loops.append(info)
        s.event("loop", info)
        outs = self.rounds(fr, head, members, s, s.copy() if inline else None)
        res = []
        for tgt, s2 in outs:
            if tgt == "back":
                info.backs.append(s2)
            else:
                info.exits.append((tgt, s2.copy()))
                res.append((tgt, s2))
        return res

    def block_span(self, fr, b):
        ss, t, c = fr.body["blocks"][b]
        for s in ss:
            if s[0] == "=":
                return s[3]
        return t[-1] if isinstance(t[-1], str) else ""

    def grounded(self, root, fr, head):
        """a pointer root that does not depend on values made inside the loop"""
        return not any(a.op in ("phi", "fresh") for a in atoms(root[1]))

    def backs(self, fr, head, members, s, ref=None):
        return [x for t, x in self.rounds(fr, head, members, s, ref) if t == "back"]

    def rounds(self, fr, head, members, s, ref):
        """one iteration; with ref, an iteration that leaves other enum variants than ref's goes on with the next one"""
        work, outs = [(0, s)], []
        while work:
            n, x = work.pop()
            for t, y in self.region(fr, [(head, x)], head, members):
                if t == "back" and ref is not None and n < 2 and self.reshaped(ref, y):
                    work.append((n + 1, y))
                else:
                    outs.append((t, y))
        return outs

    def affine(self, st0, backs, W, phis, entry):
        nums = []
        for w in W:
            p = phis[w]
            if self.isbool(p) or entry[p].op in ("agg", "vec", "ptr", "slc", "alit", "fill", "store", "undef", "fn", "str", "b", "arr") or (p.ty is not None and self.kind(p.ty) not in ("int", "float")):
                continue
            nums.append((w, p))
        deltas = {}
        for w, p in nums:
            ds = []
            for b in backs:
                d = psub(self.getp(b, w[0], w[1]), p)
                ds.append(d)
            deltas[p] = ds
        repl, eqs = {}, []
        cons = [(w, p) for w, p in nums if all(d.op == "n" for d in deltas[p])]
        # proportional constant steps
        reps = []
        for w, p in cons:
            v = [d.args[0] for d in deltas[p]]
            if not any(v):
                continue
            for q, u in reps:
                i = next(i for i, x in enumerate(u) if x)
                c = Fraction(v[i]) / Fraction(u[i])
                if all(v[j] == c * u[j] for j in range(len(v))):
                    repl[p] = padd(entry[p], pscale(psub(q, entry[q]), c))
                    break
            else:
                reps.append((p, v))
        # one relation among three or more counters with constant steps
        if len(reps) >= 2 and backs:
            for vecn in nullspace([v for p, v in reps]):
                t = ZERO
                for c, (p, v) in zip(vecn, reps):
                    t = padd(t, pscale(psub(p, entry[p]), c))
                if t is not ZERO:
                    eqs.append(eq0(t))
        # steps that are equal or opposite, but for a constant that another counter also makes
        others = [(w, p) for w, p in nums if p not in repl and not all(d.op == "n" for d in deltas[p])]
        for i, (w, p) in enumerate(others):
            for w2, q in others[:i]:
                if q in repl or p in repl:
                    continue
                for c in (1, -1):
                    ds = [psub(x, pscale(y, c)) for x, y in zip(deltas[p], deltas[q])]
                    ds = [d if d.op == "n" or not self.prove(b, eq0(d)) else ZERO for d, b in zip(ds, backs)]
                    if not all(d.op == "n" for d in ds):
                        continue
                    v = [d.args[0] for d in ds]
                    r = padd(entry[p], pscale(psub(q, entry[q]), c))
                    if not any(v):
                        repl[p] = r
                        break
                    m = next(((o, u) for o, u in reps if self.multiple(v, u) is not None), None)
                    if m:
                        repl[p] = padd(r, pscale(psub(m[0], entry[m[0]]), self.multiple(v, m[1])))
                        break
        return repl, eqs

    def multiple(self, v, u):
        i = next(i for i, x in enumerate(u) if x)
        c = Fraction(v[i]) / Fraction(u[i])
        return c if all(a == c * b for a, b in zip(v, u)) else None

    def candidates(self, fr, head, st0, backs, W, phis, entry, repl):
        out = []
        isint = {}
        nums = []
        rs = (lambda x: subst(x, repl)) if repl else (lambda x: x)
        back = {phis[w]: [rs(self.getp(b, w[0], w[1])) for b in backs] for w in W}
        for w, t in W.items():
            p = phis[w]
            if p in repl:
                continue
            e = entry[p]
            if self.isbool(p) or e.op == "b":
                if e.op == "b":
                    out.append(p if e.args[0] else bnot(p))
                continue
            k = self.kind(p.ty) if p.ty is not None else None
            if k == "adt" or e.op == "agg":
                if e.op == "agg":
                    out.append(eq0(psub(dcr(p), num(e.args[1]))))
                continue
            if k in ("int", "float") or (k is None and e.op in ("n", "poly")):
                nums.append((p, e, k != "float"))
        for p, e, ii in nums:
            out.append(ge0(psub(p, e), ii))
            out.append(ge0(psub(e, p), ii))
            # facts on the back edges that bound the new value
            for bs, nv in zip(backs, back[p]):
                d = psub(nv, p)
                for f in bs.facts:
                    if f in st0.facts:
                        continue
                    if f.op == "not" and f.args[0].op == "eq0":
                        # a counter that stops when it meets a bound
                        m = toP(f.args[0].args[0])
                        if (p,) in m and m[(p,)] in (1, -1):
                            d = psub(nv, p)
                            if d.op == "n" and d.args[0] in (1, -1):
                                x = f.args[0].args[0]
                                x = x if m[(p,)] * d.args[0] < 0 else pneg(x)
                                out.append(ge0(rs(x), True))
                                self.bound(ge0(psub(rs(x), ONE), True))
                        continue
                    if f.op not in ("ge0", "gt0"):
                        continue
                    f = rs(f)
                    if f.op not in ("ge0", "gt0"):
                        continue
                    self.bound(f)
                    m = toP(f.args[0])
                    if (p,) in m and m[(p,)] in (1, -1):
                        # f: ±p + r >= 0.  rewrite in terms of the new value and relax
                        g = subst(f, {p: psub(p, d)}) if d.op == "n" else None
                        if g is not None:
                            out.append(g)
                            if f.op == "ge0":
                                c = num(1)
                                out.append(ge0(padd(g.args[0], c), f.args[1]) if g.op == "ge0" else g)
                        out.append(f)
                    elif nv.op not in ("n",) and d.op != "n":
                        mm = toP(nv)
                        # facts about the new value itself
                        if len(mm) == 1 and list(mm.values()) == [1]:
                            a = list(mm)[0]
                            if len(a) == 1 and (a[0],) in m:
                                out.append(subst(f, {a[0]: p}))
        # entry facts generalised over the φs
        inv = {}
        for p, e, ii in nums:
            if e.op not in ("n",):
                inv.setdefault(e, p)
        for p in repl:
            pass
        if inv:
            for f in list(st0.facts):
                if f.op in ("ge0", "gt0", "eq0", "not"):
                    g = subst(f, inv)
                    if g is not f:
                        out.append(g)
        if self.plain:
            # only what is said of single places; the check brings its own
            out = [c for c in out if sum(x.op == "phi" for x in atoms(c)) <= 1]
        for c in self.cands:
            out.extend(c(self, fr, head, st0, backs, W, phis, entry, repl) or [])
        # pairs of counters
        for i, (p, e, ii) in enumerate(nums if not self.plain else ()):
            for q, e2, jj in nums[:i]:
                if ii and jj and len(nums) <= 6:
                    out.append(ge0(psub(p, q), True))
                    out.append(ge0(psub(q, p), True))
        for p, e, ii in nums:
            if ii:
                for t in list(self.bounds)[:6]:
                    out.append(ge0(psub(t, p), True))
        seen, res = set(), []
        for c in out:
            if repl:
                c = subst(c, repl)
            if c.op in ("ge0", "gt0", "eq0", "not", "phi", "and") or True:
                if c not in seen:
                    seen.add(c)
                    res.append(c)
        return res[:80]

    def bound(self, f):
        """remembers what limits some counter: t where t - 1 - counter >= 0"""
        t, n = ONE, 0
        for m, c in toP(f.args[0]).items():
            if len(m) == 1 and m[0].op == "phi" and c == -1:
                n += 1
            elif any(a.op in ("phi", "fresh") for y in m for a in atoms(y)):
                return
            else:
                t = padd(t, fromP({m: c}))
        if n == 1 and t.op != "n":
            self.bounds.setdefault(t, True)

    def known(self, st0):
        """the loop-made terms a state already talks about"""
        acc = set()
        for v in st0.mem.values():
            atoms(v, acc)
        for f in st0.facts:
            atoms(f, acc)
        for q in st0.fa:
            for x in q:
                if isinstance(x, T):
                    atoms(x, acc)
        return acc

    def stale(self, c, known, own):
        """does a candidate mention a value of an earlier iteration"""
        return any(a.op in ("phi", "fresh") and a not in own and a not in known for a in atoms(c))

    def bv(self, n):
        return mk("bv", n, ty=self.usize)

    def qcandidates(self, fr, head, st0, backs, W, phis, entry, repl):
        """quantified facts: ∀k. cond(k) -> body(k), used at every read matching the pattern"""
        out = []
        if not backs:
            return out
        K = self.bv(0)
        own = set(phis.values())
        known = self.known(st0)
        rs = lambda x: subst(x, repl) if repl else x
        bvals = [{w: rs(self.getp(b, w[0], w[1])) for w in W} for b in backs]
        bfacts = [[rs(f) for f in b.facts if f not in st0.facts] for b in backs]
        counters = []
        for w in W:
            c = phis[w]
            if c in repl or entry[c].op in ("agg", "vec", "alit", "store", "ptr", "slc", "b", "undef"):
                continue
            if not (c.ty is not None and self.kind(c.ty) == "int"):
                continue
            ds = [psub(v[w], c) for v in bvals]
            if all(d.op == "n" for d in ds):
                vs = set(d.args[0] for d in ds)
                if vs == {1} or vs == {-1} or vs == {0, 1}:
                    counters.append((c, entry[c], 1 if 1 in vs else -1, vs))

        def clean(x, c):
            """a term that depends on the iteration through c only"""
            for t in atoms(x):
                if t.op in ("phi", "fresh") and t is not c and (t in own or t not in known):
                    return False
            return True

        def rng(c, e, step, d):
            # the positions written so far
            return band(ge0(psub(K, padd(e, d)), True), gt0(psub(padd(c, d), K), True)) if step > 0 else \
                band(ge0(psub(padd(e, d), K), True), gt0(psub(K, padd(c, d)), True))

        def add(pat, cond, body):
            if body is TRUE or cond is FALSE:
                return
            q = (pat, K, cond, body)
            if q not in out:
                out.append(q)
        for w in W:
            if not w[1] or w[1][-1][0] != "el":
                continue
            A = phis[w]
            a0 = entry[A]
            sty = None
            per = []
            for v in bvals:
                x, ch = v[w], []
                while x.op == "store":
                    ch.append((x.args[1], x.args[2]))
                    x = x.args[0]
                per.append(ch if x is A else None)
            if any(p is None for p in per):
                continue
            ety = next((v.ty for p in per for j, v in p if v.ty is not None), self.boolt if any(self.isbool(v) for p in per for j, v in p) else None)
            aK, oK = mk("sel", A, K, ty=ety), sel_raw(a0, K, ety)
            for c, e, step, vs in counters:
                offs = set()
                for ch in per:
                    for j, v in ch:
                        d = psub(rs(j), c)
                        if d.op == "n" or c not in atoms(d) and clean(d, c):
                            offs.add(d)
                for d in sorted(offs, key=lambda d: (0, d.args[0]) if d.op == "n" else (1, d.id)):
                    # frame
                    below, above = gt0(psub(padd(e, d), K), True), ge0(psub(K, padd(c, d)), True)
                    if step < 0:
                        below, above = ge0(psub(padd(c, d), K), True), gt0(psub(K, padd(e, d)), True)
                    same = self.eqterm(st0, aK, oK)
                    add(aK, below, same)
                    add(aK, above, same)
                    add(aK, bor(below, above), same)
                    if vs == {0, 1}:
                        pass
                    # content
                    r = rng(c, e, step, d)
                    sub = {c: psub(K, d)}
                    for bi, ch in enumerate(per):
                        g = TRUE
                        for f in bfacts[bi]:
                            if c in atoms(f) and clean(f, c):
                                g = band(g, subst(f, sub))
                        st_here = [v for j, v in ch if psub(rs(j), c) is d]
                        if not st_here:
                            add(aK, band(r, g), same)
                            continue
                        v = rs(st_here[0])
                        if A in atoms(v):
                            # read from the part not yet written
                            v = subst(v, {A: a0})
                        if clean(v, c):
                            body = self.eqterm(st0, aK, subst(v, sub))
                            add(aK, r, body)
                            if len(per) > 1:
                                add(aK, band(r, g), body)
            # written at positions a variable leaps over: what it has not reached is as before
            idx = [rs(j) for p in per for j, v in p]
            for u in W:
                c = phis[u]
                if idx and c not in repl and c.ty is not None and self.kind(c.ty) == "int" and not any(c is x[0] for x in counters) \
                        and all(any(psub(v[u], j).op == "n" for j in idx) for v in bvals if v[u] is not c):
                    add(aK, ge0(psub(K, c), True), self.eqterm(st0, aK, oK))
                    add(aK, gt0(psub(entry[c], K), True), self.eqterm(st0, aK, oK))
        # what every iteration established about its own position
        for c, e, step, vs in counters:
            if vs not in ({1}, {-1}):
                continue
            common = None
            for fs in bfacts:
                x = set(f for f in fs if c in atoms(f) and clean(f, c))
                common = x if common is None else common & x
            for f in sorted(common or (), key=lambda x: x.id):
                pats = [t for t in atoms(f) if t.op in ("sel", "app", "item") and c in atoms(t)]
                # the outermost readable patterns
                pats = [t for t in pats if not any(t is not u and t in atoms(u) for u in pats)] or pats
                r = band(ge0(psub(K, e), True), gt0(psub(c, K), True)) if step > 0 else band(ge0(psub(e, K), True), gt0(psub(K, c), True))
                for p in pats[:2]:
                    add(subst(p, {c: K}), r, subst(f, {c: K}))
        if self.plain:
            out = []
        for h in self.qcands:
            for q in h(self, fr, head, st0, backs, W, phis, entry, repl) or []:
                add(q[0], q[2], q[3])
        return out[:60]

    def strongest(self, qc):
        """without the facts that another one with the same conclusion covers"""
        out = []
        for i, q in enumerate(qc):
            if not any(p is not q and p[0] is q[0] and p[3] is q[3] and self.lg.unsat([], [q[2], bnot(p[2])])
                       and not (j > i and self.lg.unsat([], [p[2], bnot(q[2])])) for j, p in enumerate(qc)):
                out.append(q)
        return out

    def q_holds(self, bs, q, mp):
        pat, k, cond, body = q
        k0 = mk("sym", "k#", (self.f.crate, self.usize), ty=self.usize)
        mp = dict(mp)
        mp[k] = k0
        s = bs.copy()
        c = subst(cond, mp)
        if c is FALSE:
            return True
        if not self.assume(s, c):
            return True
        b = subst(body, mp)
        if self.prove(s, b):
            return True
        if not self.by_writes:
            return False
        # by cases on which of the writes every read comes down to
        from vlib.spec import settled, saturate, samereads, byreads
        if any(a.op == "sel" and a.args[0].op in ("store", "acopy", "cat") for a in atoms(c)) and not any(a.op == "sel" and a.args[0].op in ("store", "acopy", "cat") for a in atoms(b)):
            s, b = bs.copy(), bor(bnot(c), b)
        for s2, b2 in settled(self, s, b, 6):
            if not self.prove(s2, b2):
                s3 = s2.copy()
                saturate(self, s3, [b2])
                if self.same:
                    samereads(self, s2, s3, b2)
                if not self.prove(s3, b2) and not (body in self.deepq and byreads(self, s2, b2)):
                    return False
        return True

    # ------------------------------------------------------------ calls
    def do_call(self, fr, b, t, st):
        cal = None
        f = t[1]
        span = t[6] if len(t) > 6 else ""
        args = [self.operand(st, fr, o) for o in t[2]]
        atys = [self.otype(fr, o) for o in t[2]]
        if f[0] == "k" and "fn" in f[1]:
            cal = f[1]["fn"]
        else:
            fv = self.operand(st, fr, f)
            if fv.op == "fn" and fv.args[0] in self._pc:
                cal = self._pc[fv.args[0]]
            else:
                raise Unsup("indirect call at %s" % span)
        outs = self.call(fr, b, cal, args, atys, st, span, self.ptype(fr, t[3]), t)
        res = []
        for kind, s, v in outs:
            if kind == "ret":
                if t[4] is None:
                    continue
                if not t[3][1]:
                    s.mem[("L", fr.fid, t[3][0])] = v
                else:
                    root, projs, ty, base = self.place(s, fr, t[3])
                    self.write(s, root, projs, v)
                res.append((t[4], s))
            elif kind == "unwind":
                if self.unwind:
                    res.append((t[5], s) if isinstance(t[5], int) else ("unwind", s))
        return res

    def call(self, fr, b, cal, args, atys, st, span, rty, term=None):
        from vlib import models
        path = cpath(cal)
        for h in self.hooks:
            r = h(self, fr, b, cal, path, args, atys, st, span, rty)
            if r is not None:
                return r
        # closures
        r = models.model(self, fr, b, cal, path, args, atys, st, span, rty, term)
        if r is not None:
            return r
        key = cal.get("rk") or cal["d"]
        body = self._bykey.get(key) if cal.get("body") else None
        if body is None:
            body = self._bykey.get(key)
        if body is not None and (self.inline is None or self.inline(body)):
            if self.stack.count(key) >= 1 and body["local"]:
                return self.opaque(fr, b, cal, path, args, atys, st, span, rty, "recursive ")
            return self.run(body, args, st, fr.fid, b, fr.depth + 1)
        return self.opaque(fr, b, cal, path, args, atys, st, span, rty)

    def opaque(self, fr, b, cal, path, args, atys, st, span, rty, why=""):
        """a call the analysis does not look into: everything reachable through &mut arguments is unknown afterwards"""
        if self.f.types and rty is not None and self.ti(rty)["k"] == "other" and self.ti(rty)["s"] == "!":
            self.panic(fr, st, span, path)
            return [("unwind", st, None)]
        st.event("opaque", path, tuple(args), span)
        for i, (a, t) in enumerate(zip(args, atys)):
            x = self.ti(t)
            if x["k"] in ("ref", "ptr") and x.get("m"):
                r, p = self.deref(st, a, t)
                self.write(st, r, p, self.fresh(fr, b, "arg%d" % i, self.pointee(t)))
        return [("ret", st, self.fresh(fr, b, path.rsplit("::", 1)[-1], rty))] + ([("unwind", st.copy(), None)] if self.unwind else [])

    def fresh(self, fr, b, name, t):
        return mk("fresh", (fr.fid, b, name), ty=t)

    # closures and function values
    def call_value(self, fr, b, fv, args, st, span, rty):
        """call a function-like value with untupled arguments"""
        v = fv
        selfv = fv
        if v.op == "ptr":
            v = self.read(st, v.args[0], v.args[1])
        while v.op == "ptr":
            selfv = v
            v = self.read(st, v.args[0], v.args[1])
        if v.op == "agg" and isinstance(v.args[0], tuple):
            key = v.args[0][1]
            body = self._bykey.get(key)
            if body is None:
                c = [k for k in self._bykey if k == key or k.startswith(key + "<")]
                if len(c) != 1:
                    raise Unsup("closure body " + key)
                body = self._bykey[c[0]]
            t1 = body["locals"][1][0]
            if self.ti(t1)["k"] in ("ref", "ptr"):
                if selfv.op != "ptr" or selfv is v or self.read(st, selfv.args[0], selfv.args[1]) is not v:
                    r = ("H", fr.fid, b)
                    st.mem[r] = v
                    selfv = mk("ptr", r, ())
            else:
                selfv = v
            return self.run(body, [selfv] + list(args), st, fr.fid, b, fr.depth + 1)
        if v.op == "fn":
            cal = self._pc.get(v.args[0])
            if cal is None:
                cal = {"d": v.args[0], "rk": v.args[0], "body": v.args[0] in self._bykey}
            return self.call(fr, b, cal, list(args), [a.ty if a.ty is not None else -1 for a in args], st, span, rty)
        # an unknown function value of the caller: pure
        st.event("callv", v, tuple(args), span)
        r = mk("app", ("call", v.id), *args, ty=rty)
        return [("ret", st, r)]


def nullspace(rows):
    """integer relations c with sum c_i * rows[i] = 0"""
    n = len(rows)
    m = len(rows[0]) if rows else 0
    mat = [[Fraction(x) for x in rows[i]] + [Fraction(int(i == j)) for j in range(n)] for i in range(n)]
    r = 0
    for c in range(m):
        p = next((i for i in range(r, n) if mat[i][c]), None)
        if p is None:
            continue
        mat[r], mat[p] = mat[p], mat[r]
        for i in range(n):
            if i != r and mat[i][c]:
                k = mat[i][c] / mat[r][c]
                mat[i] = [x - k * y for x, y in zip(mat[i], mat[r])]
        r += 1
    return [mat[i][m:] for i in range(r, n)]


def reads(a):
    """the array reads a read over writes may come down to"""
    if a.op != "sel":
        return [a] if a.op in ("app", "item", "fld") else []
    out, work = [], [(a.args[0], a.args[1])]
    while work and len(out) < 12:
        arr, i = work.pop()
        out.append(mk("sel", arr, i, ty=a.ty))
        if arr.op == "store":
            work.append((arr.args[0], i))
        elif arr.op == "acopy":
            dst, di, src, si, n = arr.args
            work.append((dst, i))
            work.append((src, padd(psub(i, di), si)))
        elif arr.op == "cat":
            work.append((arr.args[0], i))
            work.append((arr.args[2], psub(i, arr.args[1])))
    return out


def related(body, pat, t, k):
    """a fact that relates two reads says something of either"""
    for x in atoms(body):
        if x.op == "sel" and x is not pat and x.args[1] is k:
            i = match(x, t, k)
            if i is not None:
                return i


def match(pat, t, k):
    """value of k for which the pattern is t"""
    if pat.op != t.op or len(pat.args) != len(t.args):
        return None
    r = None
    for x, y in zip(pat.args, t.args):
        if x is y or x == y:
            continue
        m = match_any(x, y, k)
        if m is None or (r is not None and m is not r):
            return None
        r = m
    return r


def match_any(x, y, k):
    if isinstance(x, T) and isinstance(y, T):
        if x is k:
            return y
        if x.op == "poly":
            d = toP(x)
            if d.get((k,)) == 1 and not any(k in atoms(a) for m in d for a in m if a is not k):
                return psub(y, psub(x, k))
            return None
        if k not in atoms(x):
            return None
        return match(x, y, k)
    if isinstance(x, tuple) and isinstance(y, tuple) and len(x) == len(y):
        r = None
        for a, b in zip(x, y):
            if a is b or a == b:
                continue
            m = match_any(a, b, k)
            if m is None or (r is not None and m is not r):
                return None
            r = m
        return r
    return None
