"""A01: the two-dimensional array keeps its cells apart"""
from vlib.core import check, Anchor
from vlib.engine import Eng
from vlib.spec import *
from vlib.checks.vecoption import facts_of, k_

A2 = "trellis::pathplan::array2::Array2"


def dims(e, v):
    return {n: get(e, v, n) for n in ("rows", "cols", "extra", "row_size")}


def products(st, d, pairs):
    """the product of two numbers that are not negative is not negative"""
    for x, y in pairs:
        st.note(bor(bnot(allof(ge0(x, True), ge0(y, True))), ge0(pmul(x, y), True)))


def place(e, f, rep, name, trait, tag):
    """(run, [(state, index term)]) of cell (r, c) in the array's storage"""
    box = {}

    def pre(e, st, a):
        v = at(e, st, a[0])
        d = dims(e, v)
        vec = get(e, v, "vec")
        for x in d.values():
            st.note(ge0(x, True))
        st.note(eqt(d["row_size"], padd(d["cols"], d["extra"])))
        st.note(eqt(length(vec), pmul(d["rows"], d["row_size"])))
        row, col = fld(a[1], 0, 0, e.usize), fld(a[1], 0, 1, e.usize)
        for x in (row, col):
            st.note(ge0(x, True))
        st.note(lt(row, d["rows"], True))
        st.note(lt(col, d["row_size"], True))
        rr, cc = psub(psub(d["rows"], ONE), row), psub(psub(d["row_size"], ONE), col)
        products(st, d, [(rr, d["row_size"]), (cc, d["rows"]), (rr, cc), (row, d["row_size"]), (col, d["rows"]), (row, col), (row, cc), (rr, col)])
        box.update(d=d, row=row, col=col, n=length(vec))
    r = run(f, method(f, A2, name, trait), pre=pre, name="Array2::" + name, eng=Eng(f, panics=True))
    box["r"] = r
    box["at"] = []
    if not usable(rep, r):
        return None
    no_panic(rep, r, "no panic")
    for s, v in r.rets:
        ok = v.op == "ptr" and v.args[1] and v.args[1][-1][0] == "ix"
        rep.ob("cells", name + " gives a cell of the storage", ok, r.where, show(v)[:200])
        if ok:
            box["at"].append((s, v.args[1][-1][1], v.args[1][:-1]))
    return box


@check("A01", floors={"functions": 4}, technique="abstract interpretation: the place of a cell as a symbolic term over row, column and size; two cells are shown to be apart for arbitrary positions",
       rule="every position inside the array has a storage cell of its own, the same for reading and writing; a new array holds the default everywhere")
def a01(fs, rep):
    f = fs["trellis"]
    R = place(None, f, rep, "index", "Index", "r")
    W = place(None, f, rep, "index_mut", "IndexMut", "w")
    for name, B in (("index", R), ("index_mut", W)):
        if B is None:
            continue
        for s, i, pr in B["at"]:
            e = B["r"].e
            rep.ob("cells", name + " stays inside the storage", e.prove(s, allof(ge0(i, True), lt(i, B["n"], True))), B["r"].where, "%s when %s" % (show(i), facts_of(s)))
            # another position
            d = B["d"]
            r2, c2 = mk("sym", "row2", ("ghost", e.usize), ty=e.usize), mk("sym", "col2", ("ghost", e.usize), ty=e.usize)
            i2 = subst(i, {B["row"]: r2, B["col"]: c2})
            s2 = s.copy()
            for x, m in ((r2, d["rows"]), (c2, d["row_size"])):
                s2.note(ge0(x, True))
                s2.note(lt(x, m, True))
            row, col = B["row"], B["col"]
            far = [(psub(psub(a, b), ONE), m) for a, b, m in ((r2, row, d["row_size"]), (row, r2, d["row_size"]), (c2, col, d["rows"]), (col, c2, d["rows"]))]
            products(s2, d, far)
            for what, c in (("row above", lt(row, r2, True)), ("row below", lt(r2, row, True)), ("column", allof(eqt(row, r2), bnot(eqt(col, c2))))):
                s3 = s2.copy()
                j = subst(i2, {r2: row}) if what == "column" else i2
                if e.assume(s3, c):
                    rep.ob("cells apart", "%s: another %s is another cell" % (name, what), e.prove(s3, bnot(eqt(i, j))), B["r"].where, "%s and %s" % (show(i), show(i2)))
    if R and W:
        # the same place for reading and writing
        for s, i, p in R["at"]:
            for t, j, q in W["at"]:
                m = {W["d"][k]: R["d"][k] for k in R["d"]}
                m.update({W["row"]: R["row"], W["col"]: R["col"]})
                e = R["r"].e
                rep.ob("cells", "reading and writing use the same cell", p == q and e.eq(s, i, subst(j, m)), R["r"].where, "%s, %s" % (show(i), show(j)))
    for name, x in (("new", method(f, A2, "new")), ("allocArray", fn(f, "trellis::pathplan::array2::allocArray"))):
        box = {}

        def pre(e, st, a):
            for v in a:
                st.note(ge0(v, True))
        r = run(f, x, pre=pre, name=name, eng=Eng(f, panics=True))
        if not usable(rep, r):
            continue
        no_panic(rep, r, "no panic")
        for s, v in r.rets:
            e = r.e
            if v.ty is None:
                v.ty = r.body["locals"][0][0]
            rows, cols, extra = (r.args[0], r.args[1], r.args[2]) if name == "new" else (r.args[0], r.args[0], r.args[1])
            d = dims(e, v)
            vec = get(e, v, "vec")
            ok = e.eq(s, d["rows"], rows) and e.eq(s, d["cols"], cols) and e.eq(s, d["extra"], extra) and e.eq(s, d["row_size"], padd(cols, extra))
            rep.ob("new arrays", name + " has the size asked for", ok and e.eq(s, length(vec), pmul(rows, padd(cols, extra))), r.where, show(v)[:300])
            k = k_(e)
            s2 = s.copy()
            if e.assume(s2, allof(ge0(k, True), lt(k, length(vec), True))):
                a, b = e.sel(s2, arrof(vec), k), e.sel(s2, arrof(vec), ZERO)
                rep.ob("new arrays", name + " holds the default everywhere", arrof(vec).op == "fill" and "default" in show(a).lower(), r.where, show(vec)[:200])
