"""Systems of linear constraints: split into independent parts, each decided once (lin.c does the elimination)."""
import ctypes, os, subprocess, tempfile
from vlib.terms import Fraction, gcd

HERE = os.path.dirname(os.path.abspath(__file__))
_lib = None


def lib():
    global _lib
    if _lib is None:
        src = os.path.join(HERE, "lin.c")
        with tempfile.TemporaryDirectory(prefix="vlin") as d:
            so = os.path.join(d, "lin.so")
            subprocess.run(["gcc", "-O2", "-w", "-shared", "-fPIC", "-o", so, src], check=True)
            _lib = ctypes.CDLL(so)
        _lib.lin_add.restype = _lib.lin_solve.restype = ctypes.c_int
    return _lib


_con = {}
_var = {}
_list = []
_res = {}
BIG = 1 << 60


def con(p, strict, isint, eq=False):
    """the number of a constraint (poly dict >= 0, > 0 or = 0); None if trivially true, False if contradictory"""
    den = 1
    for c in p.values():
        if isinstance(c, Fraction):
            den = den * c.denominator // gcd(den, c.denominator)
    it = frozenset((m, int(c * den)) for m, c in p.items() if c != 0)
    k = (it, strict, isint, eq)
    r = _con.get(k, -1)
    if r == -1:
        vs = [m for m, c in it if m != ()]
        if not vs:
            c = p.get((), 0)
            ok = c == 0 if eq else (c > 0 if strict else c >= 0)
            r = None if ok else False
        elif any(abs(c) > BIG for m, c in it):
            r = None
        else:
            r = len(_list)
            fl = (1 if strict else 0) | (2 if isint else 0) | (4 if eq else 0)
            t = sorted((-1, c) if m == () else (_var.setdefault(m, len(_var)), c) for m, c in it)
            _list.append((t, fl, tuple(vs)))
            n = len(t)
            if not lib().lin_add(r, fl, n, (ctypes.c_int * n)(*[v for v, c in t]), (ctypes.c_int64 * n)(*[c for v, c in t])):
                raise MemoryError
        _con[k] = r
    return r


def solve(ids):
    """is the conjunction contradictory"""
    k = frozenset(ids)
    r = _res.get(k)
    if r is None:
        n = len(k)
        r = _res[k] = bool(lib().lin_solve(n, (ctypes.c_int * n)(*sorted(k)), 400))
    return r


class Sys:
    """a system; `bad` if contradictory, `with_` asks about additional constraints"""

    def __init__(self, ids):
        self.bad = False
        self.comp = {}
        comps = {}
        parent = {}

        def find(x):
            while parent[x] != x:
                parent[x] = parent[parent[x]]
                x = parent[x]
            return x
        good = []
        for i in ids:
            if i is None:
                continue
            if i is False:
                self.bad = True
                return
            good.append(i)
            vs = _list[i][2]
            a = vs[0]
            if a not in parent:
                parent[a] = a
            ra = find(a)
            for b in vs[1:]:
                if b not in parent:
                    parent[b] = ra
                else:
                    rb = find(b)
                    if rb != ra:
                        parent[rb] = ra
        for i in good:
            comps.setdefault(find(_list[i][2][0]), set()).add(i)
        for m in parent:
            self.comp[m] = comps[find(m)]
        for c in comps.values():
            if solve(c):
                self.bad = True
                return

    def with_(self, ids):
        ex = set()
        for i in ids:
            if i is False:
                return True
            if i is not None:
                ex.add(i)
        if not ex:
            return False
        # the constraints connected to the new ones
        s = set(ex)
        seen = set()
        for i in ex:
            for m in _list[i][2]:
                c = self.comp.get(m)
                if c is not None and id(c) not in seen:
                    seen.add(id(c))
                    s |= c
        return solve(s)
