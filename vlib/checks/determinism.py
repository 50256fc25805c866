"""D02: nothing observable depends on hash order, addresses, time or randomness."""
from vlib.core import check
from vlib import mir
from vlib.checks.effects import base_key, mentioned

HASH_ITERS = ("std::collections::hash::map::Iter", "std::collections::hash::map::IterMut", "std::collections::hash::map::IntoIter",
              "std::collections::hash::map::Keys", "std::collections::hash::map::Values", "std::collections::hash::map::ValuesMut",
              "std::collections::hash::map::Drain", "std::collections::hash::map::IntoKeys", "std::collections::hash::map::IntoValues",
              "std::collections::hash::map::ExtractIf", "std::collections::hash::set::", "hashbrown::")
HASH_TYPES = ("std::collections::hash::map::HashMap", "std::collections::hash::set::HashSet")
KEYED = ("new", "with_capacity", "entry", "get", "get_mut", "insert", "contains_key", "contains", "remove", "len", "is_empty", "clear",
         "or_default", "or_insert", "or_insert_with", "index", "capacity", "reserve", "iter", "iter_mut", "keys", "values", "values_mut",
         "into_iter", "into_keys", "into_values", "drain", "default", "get_or_insert_with", "key", "and_modify", "remove_entry", "eq",
         "from_iter", "extend", "clone", "take", "get_key_value", "shrink_to_fit", "drop_in_place")
ADAPT = ("map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "into_iter", "by_ref", "inspect", "chain", "iter", "fuse", "size_hint", "len", "clone")
CONSUME = ("max", "min", "count", "any", "all", "sum", "product", "len", "size_hint")
KEYCONSUME = ("max_by_key", "min_by_key")


def has_type(f, t, names, seen=None):
    seen = seen if seen is not None else set()
    if t in seen:
        return False
    seen.add(t)
    ty = f.types[t]
    if ty["k"] == "adt" and ty["d"].startswith(names):
        return True
    kids = []
    if ty["k"] in ("adt", "tuple"):
        kids = ty.get("a", [])
    elif ty["k"] in ("ref", "ptr", "slice", "array"):
        kids = [ty["t"]]
    return any(has_type(f, x, names, seen) for x in kids if isinstance(x, int))


def is_float(f, t):
    return f.types[t]["s"] in ("f32", "f64")


def first_use_is_sort(f, b, blk, local):
    """on every path from blk, the first use of `local` (other than borrowing and deref to a slice) is a sort by the map key"""
    alias = {local}
    seen = set()
    st = [(blk, frozenset(alias))]
    while st:
        x, al = st.pop()
        if (x, al) in seen:
            continue
        seen.add((x, al))
        al = set(al)
        stm, term, cl = b["blocks"][x]
        for s in stm:
            if s[0] == "=":
                used = [p for p in mir.places_of_rvalue(s[2]) if p[0] in al]
                if used:
                    if s[2][0] in ("ref", "use", "reborrow", "raw") and not s[1][1]:
                        al.add(s[1][0])
                    else:
                        return False, s[3]
        if term[0] == "call":
            used = any(o[0] in "cm" and o[1][0] in al for o in term[2])
            if used:
                cal = f.callee(term)
                p, last = mir.name_of(cal) if cal else ("?", "?")
                if last in ("deref_mut", "deref", "as_mut_slice", "as_mut", "borrow_mut", "len", "is_empty"):
                    if last not in ("len", "is_empty"):
                        al.add(term[3][0])
                elif last in ("sort", "sort_unstable"):
                    continue
                elif last in ("sort_by_key", "sort_unstable_by_key", "sort_by_cached_key", "sort_by", "sort_unstable_by"):
                    if key_closure(f, b, term):
                        continue
                    return False, term[-1]
                else:
                    return False, term[-1]
        elif term[0] == "drop" and term[1][0] in al:
            continue
        elif term[0] == "ret":
            if 0 in al:
                return False, b["span"]
        for s in mir.succs(term):
            st.append((s, frozenset(al)))
    return True, ""


def only_asserted(b, local):
    """a compiler-inserted null/alignment check: the value only ever reaches assert conditions"""
    der = {local}
    ch = True
    while ch:
        ch = False
        for st, term, cl in b["blocks"]:
            for s in st:
                if s[0] == "=" and any(p[0] in der for p in mir.places_of_rvalue(s[2])):
                    if s[2][0] not in ("bin", "un", "use") or s[1][1] or s[1][0] == 0:
                        return False
                    if s[1][0] not in der:
                        der.add(s[1][0])
                        ch = True
            if term[0] in ("call",) and any(o[0] in "cm" and o[1][0] in der for o in term[2]):
                return False
            if term[0] == "switch" and term[1][0] in "cm" and term[1][1][0] in der:
                return False
    return True


def key_closure(f, b, term):
    """two entries the ordering closure does not tell apart have the same key (field 0 of the entry pair)"""
    from vlib.engine import Eng, St, Unsup
    from vlib.terms import psub, eq0, num, dcr, fld
    for o in term[2]:
        if o[0] in "cm":
            ty = f.types[b["locals"][o[1][0]][0]]
            if ty["k"] == "closure":
                bodies = [x for k, x in f.bodies.items() if k.split("<")[0] == ty["d"] and x["local"]]
                for cb in bodies:
                    try:
                        if injective(f, cb):
                            return True
                    except Unsup:
                        pass
    return False


def injective(f, cb):
    from vlib.engine import Eng, St
    from vlib.terms import psub, eq0, num, dcr, fld
    e = Eng(f)

    def key_of(st, x):
        t = x.ty
        while e.kind(t) == "ref":
            x, t = e.read(st, *e.deref(st, x, t)), e.pointee(t)
            x.ty = x.ty if x.ty is not None else t
        ts = e.fields(t, 0)
        x, t = fld(x, 0, 0, ts[0]), ts[0]
        while e.kind(t) == "ref":
            x, t = e.read(st, *e.deref(st, x, t)), e.pointee(t)
        return x

    def value(st, v, t):
        while v.op == "ptr" or t is not None and e.kind(t) == "ref":
            r, p = e.deref(st, v, t)
            v, t = e.read(st, r, p), e.pointee(t) if t is not None else None
        return v
    lt = [t for t, _ in cb["locals"]]
    cl = e.sym("closure", lt[1])
    if cb["argc"] == 2:
        x, y = e.sym("x", lt[2]), e.sym("y", lt[2])
        for k, s, v in e.run(cb, [cl, x], St()):
            if k != "ret":
                continue
            for k2, s2, w in Eng.run(e, cb, [cl, y], s.copy()):
                if k2 != "ret":
                    continue
                if not e.assume(s2, e.eqterm(s2, value(s2, v, lt[0]), value(s2, w, lt[0]))):
                    continue
                if not e.eq(s2, key_of(s2, x), key_of(s2, y)):
                    return False
        return True
    if cb["argc"] == 3:
        x, y = e.sym("x", lt[2]), e.sym("y", lt[3])
        for k, s, v in e.run(cb, [cl, x, y], St()):
            if k == "ret" and e.assume(s, eq0(dcr(v) if v.op != "agg" else num(v.args[1] - 1)) if v.op == "agg" else eq0(psub(dcr(v), num(1)))):
                if not e.eq(s, key_of(s, x), key_of(s, y)):
                    return False
        return True
    return False


def commutative_loop(f, b, head_blk, loops):
    """the loop that consumes a hash iterator only accumulates with order-insensitive operations"""
    body = None
    for h, s in loops.items():
        if head_blk in s and (body is None or len(s) < len(body)):
            body = s
    if body is None:
        return False, "single step of an unordered iterator"
    # locals assigned in the loop and used outside it
    outside_used = set()
    for i, (st, t, cl) in enumerate(b["blocks"]):
        if i in body or cl:
            continue
        for s in st:
            if s[0] == "=":
                for p in mir.places_of_rvalue(s[2]):
                    outside_used.add(p[0])
        if t[0] == "call":
            for o in t[2]:
                if o[0] in "cm":
                    outside_used.add(o[1][0])
        if t[0] == "switch" and t[1][0] in "cm":
            outside_used.add(t[1][1][0])
        if t[0] == "ret":
            outside_used.add(0)
    defined_in = {}
    for i in body:
        st, t, cl = b["blocks"][i]
        for s in st:
            if s[0] == "=":
                defined_in.setdefault(s[1][0], []).append(("s", i, s))
        if t[0] == "call":
            defined_in.setdefault(t[3][0], []).append(("c", i, t))
            cal = f.callee(t)
            p, last = mir.name_of(cal) if cal else ("?", "?")
            for o in t[2]:
                if o[0] in "cm":
                    ty = f.types[b["locals"][o[1][0]][0]]
                    if ty["k"] == "ref" and ty["m"] and not has_type(f, o[1][0] and b["locals"][o[1][0]][0], HASH_ITERS) \
                            and last not in ("next",):
                        return False, "%s mutates something in hash order" % last
    for l, defs in defined_in.items():
        if l not in outside_used or f.ts(b["locals"][l][0]) == "()":
            continue
        if has_type(f, b["locals"][l][0], HASH_ITERS):
            continue
        for kind, i, d in defs:
            if kind == "c":
                cal = f.callee(d)
                p, last = mir.name_of(cal) if cal else ("?", "?")
                if last in ("max", "min", "wrapping_add", "saturating_add"):
                    continue
                return False, "order-dependent assignment from " + last
            rv = d[2]
            if rv[0] == "use" and rv[1][0] in "cm":
                src = rv[1][1]
                ok = False
                for k2, i2, d2 in defined_in.get(src[0], []):
                    if k2 == "c":
                        cal = f.callee(d2)
                        p, last = mir.name_of(cal) if cal else ("?", "?")
                        ok = last in ("max", "min")
                    else:
                        ok = d2[2][0] == "bin" and d2[2][1].startswith(("Add", "BitOr", "BitAnd", "BitXor")) and not is_float(f, b["locals"][l][0])
                if ok:
                    continue
                # guarded assignment `if x > best { best = x }` keeps a maximum
                return False, "order-dependent assignment"
            if rv[0] == "bin" and rv[1] in ("BitOr", "BitAnd", "Add") and not is_float(f, b["locals"][l][0]):
                continue
            return False, "order-dependent assignment"
    return True, ""


@check("D02", floors={"functions": 280, "hash-order uses": 4}, technique="taint/dataflow analysis of unordered iteration and other nondeterminism sources",
       rule="every iterator whose type derives from a hash container flows only through element-wise adaptors into an order-insensitive fold, a keyed "
            "container, or a vector that is sorted by key before any other use; no clock, random, thread, environment, address or allocation-capacity value is read")
def d02(facts, r):
    for c, f in facts.items():
        r.count("functions", len(set(base_key(b) for b in f.local_bodies())))
        for b in f.local_bodies():
            lt = [t for t, _ in b["locals"]]
            loops = None
            for i, (st, term, cl) in enumerate(b["blocks"]):
                for s in st:
                    if s[0] == "=" and s[2][0] == "cast":
                        k = s[2][1]
                        if "ExposeProvenance" in k or "Expose" in k:
                            r.bad("address", base_key(b), s[3], "turns an address into an integer")
                        if k == "Transmute":
                            tt = f.types[s[2][3]]
                            o = s[2][2]
                            if tt["k"] == "prim" and o[0] in "cm" and f.types[lt[o[1][0]]]["k"] in ("ptr", "ref") and not o[1][1] \
                                    and not only_asserted(b, s[1][0]):
                                r.bad("address", base_key(b), s[3], "turns an address into an integer")
                    if s[0] == "=" and s[2][0] == "bin" and s[2][1] in ("Lt", "Le", "Gt", "Ge", "Cmp"):
                        for o in s[2][2:4]:
                            if o[0] in "cm" and not o[1][1] and f.types[lt[o[1][0]]]["k"] == "ptr":
                                r.bad("address", base_key(b), s[3], "orders by address")
                if term[0] != "call":
                    continue
                cal = f.callee(term)
                p, last = mir.name_of(cal) if cal else ("?", "?")
                where = term[-1]
                args = [o for o in term[2]]
                atys = [lt[o[1][0]] for o in args if o[0] in "cm" and not o[1][1]]
                it = any(has_type(f, t, HASH_ITERS) for t in atys)
                hm = any(has_type(f, t, HASH_TYPES) for t in atys)
                key = "%s: %s" % (base_key(b), last)
                if it:
                    r.count("hash-order uses")
                    dty = lt[term[3][0]]
                    if last in ADAPT and (has_type(f, dty, HASH_ITERS) or last in ("size_hint", "len")):
                        ok, why = True, ""
                        for t in atys:
                            ty = f.types[t]
                            if ty["k"] == "closure":
                                for k, cb in f.bodies.items():
                                    if k.split("<")[0] == ty["d"]:
                                        if any(f.types[u]["k"] == "ref" and f.types[u]["m"] for u in (cb.get("upvars") or []) if isinstance(u, int)):
                                            ok, why = False, "the closure mutates captured state in hash order"
                    elif last in CONSUME:
                        ok = not (last in ("sum", "product") and is_float(f, dty))
                        why = "float accumulation depends on the order"
                    elif last in ("collect", "from_iter"):
                        dt = f.types[dty]
                        if dt["k"] == "adt" and dt["d"].startswith(HASH_TYPES + ("alloc::collections::btree",)):
                            ok, why = True, ""
                        else:
                            if not term[3][1] and term[4] is not None:
                                ok, w = first_use_is_sort(f, b, term[4], term[3][0])
                                why = "collected in hash order and used before being sorted by key (%s)" % w
                            else:
                                ok, why = False, "collected in hash order"
                    elif last == "next":
                        if loops is None:
                            loops = mir.natural_loops(b)[0]
                        ok, why = commutative_loop(f, b, i, loops)
                    elif last in ("drop_in_place",):
                        ok, why = True, ""
                    elif cal and cal.get("local"):
                        ok, why = False, "hands an unordered iterator to other code"
                    else:
                        ok, why = False, "order-dependent consumer of a hash iterator"
                    r.ob("hash-order", key, ok, where, why)
                elif hm and not (cal and cal.get("local")):
                    ok = last in KEYED and p.startswith(("std::collections::", "core::", "hashbrown", "alloc::"))
                    r.count("hash-order uses")
                    r.ob("hash-order", key, ok, where, "this use of a hash container is not known to be independent of its order")
                if last in ("hash_one", "build_hasher") or "RandomState" in p and last in ("new",):
                    r.bad("random", key, where, "randomly seeded hash value")
    n = 0
    for c, f, b, sp, fn in mentioned(facts):
        n += 1
        p, last = mir.name_of(fn)
        if fn.get("local"):
            continue
        if p.startswith(("std::time", "std::env", "std::thread", "std::process", "rand", "getrandom", "std::sys", "std::hash::random")) \
                or last in ("addr", "expose_provenance", "type_name", "caller", "align_offset", "new_pointer") and p.startswith(("core::", "std::")) and last != "caller":
            if last == "align_offset":
                continue
            r.bad("nondeterminism-source", "%s -> %s" % (base_key(b), p), sp, "clock, environment, thread, randomness or address")
        if last == "capacity" and p.startswith(("alloc::", "std::")):
            r.bad("nondeterminism-source", "%s -> %s" % (base_key(b), p), sp, "observes the allocation strategy")
    r.counts["mentioned callees"] = n
    for c, f in facts.items():
        for b in f.local_bodies():
            r.obl.append(("no-source", base_key(b), True, b["span"], ""))
