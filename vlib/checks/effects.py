"""Who-may-call, effect and sharing rules over every function of both crates."""
from vlib.core import check
from vlib import mir

# ------------------------------------------------------------------ helpers

PURE_STD = ("std::collections::", "std::hash::", "std::f64::", "std::f32::", "std::num::", "std::panicking::",
            "std::rt::", "std::error::", "std::ascii::", "std::macros::", "std::sync::", "std::keyword")
OTHER_CRATES = ("core::", "alloc::", "bit_vec::", "hashbrown::")
LOG_OK = ("log::max_level", "log::__private_api::", "log::Level", "log::LevelFilter", "log::Metadata", "log::Record",
          "log::STATIC_MAX_LEVEL", "log::logger", "log::{impl")


def mentioned(facts):
    """(crate, function key, span, callee record) for every function item mentioned by local code"""
    for c, f in facts.items():
        for b in f.local_bodies():
            for st, term, cl in b["blocks"]:
                for s in st:
                    for fn in mir.walk_fn_consts(s):
                        yield c, f, b, (s[3] if s[0] == "=" and len(s) > 3 else b["span"]), fn
                sp = term[-1] if isinstance(term[-1], str) else b["span"]
                for fn in mir.walk_fn_consts(term):
                    yield c, f, b, sp, fn


def local_crate(f, p):
    return p.startswith(f.crate + "::") or p.split("::")[0] in ("trellis", "dot_parser")


def base_key(b):
    return b["key"].split("<")[0].split("@")[0]


# ------------------------------------------------------------------ D01

@check("D01", floors={"functions": 280, "mentioned callees": 1500, "foreign callees": 40}, technique="who-may-call effect analysis over resolved callees",
       rule="every function item mentioned in any body of both crates resolves to the crates themselves, core, alloc, the pure "
            "modules of std, bit_vec or the log facade; no foreign items, no inline assembly")
def d01(facts, r):
    seen = {}
    fns = set()
    for c, f, b, sp, fn in mentioned(facts):
        p, last = mir.name_of(fn)
        fns.add((c, base_key(b)))
        r.count("mentioned callees")
        if fn.get("local") or local_crate(f, p):
            continue
        d = fn["d"]
        ok = None
        for q in (p, d):
            if q.startswith("std::"):
                ok = q.startswith(PURE_STD) and not q.startswith(("std::rt::lang_start", "std::panicking::set_hook", "std::sync::mpsc"))
            elif q.startswith("log::"):
                ok = q.startswith(LOG_OK) and not any(x in q for x in ("set_logger", "set_boxed_logger", "set_max_level"))
            elif q.startswith(("core::arch::", "core::core_arch::")):
                ok = False
            else:
                ok = q.startswith(OTHER_CRATES)
            if not ok:
                break
        k = (base_key(b), p)
        if k not in seen:
            seen[k] = ok
            if ok:
                r.obl.append(("who-may-call", "%s -> %s" % k, True, sp, ""))
            else:
                r.bad("who-may-call", "%s -> %s" % k, sp, "reaches an input/output, environment, process, thread, clock or foreign facility")
    r.counts["functions"] = len(set(base_key(b) for f in facts.values() for b in f.local_bodies()))
    r.counts["foreign callees"] = len(set(k[1] for k in seen))
    for c, f in facts.items():
        for i in f.items:
            if i["kind"] in ("foreign", "asm"):
                r.bad("no-foreign", "%s %s" % (i["kind"], i["path"]), i.get("span", ""), "foreign code or assembly can do anything")
        for b in f.local_bodies():
            for st, term, cl in b["blocks"]:
                if term[0] == "other" and "Asm" in str(term):
                    r.bad("no-foreign", "asm in " + base_key(b), b["span"], "inline assembly")
    r.assumptions += ["core, alloc, bit_vec and the listed std modules perform no input or output themselves",
                      "the log facade writes only where the embedding program's logger does"]


# ------------------------------------------------------------------ D03

CELLS = ("core::cell::", "core::sync::atomic::", "std::sync::", "alloc::rc::", "std::cell::", "core::pin::unsafe_pinned")
SHARED = ("alloc::sync::",)


def type_walk(f, t, seen, path=()):
    """yields (type index, path) for everything reachable through owned and borrowed fields"""
    if t in seen:
        return
    seen.add(t)
    ty = f.types[t]
    yield t, path
    k = ty["k"]
    kids = []
    if k == "adt":
        if ty["d"].startswith(("alloc::vec::Vec", "std::collections::hash", "alloc::string::String", "bit_vec::", "core::slice::iter::",
                               "alloc::boxed::Box", "core::option", "core::iter::", "core::str::", "hashbrown")):
            kids = list(ty["a"])
        else:
            kids = [x for v in (ty.get("vf") or []) for x in v]
            kids += list(ty["a"]) if not kids else []
    elif k in ("ref", "slice", "array"):
        kids = [ty["t"]]
    elif k == "tuple":
        kids = ty["a"]
    for x in kids:
        if isinstance(x, int):
            yield from type_walk(f, x, seen, path + (ty["s"],))


def cell_in(f, t, raw=False):
    for x, path in type_walk(f, t, set()):
        ty = f.types[x]
        if ty["k"] == "adt" and ty["d"].startswith(CELLS):
            return ty["s"]
        if raw and ty["k"] == "ptr":
            return ty["s"]
        if raw and ty["k"] == "dyn" and "Send" not in ty["s"]:
            # a borrowed trait object (an output sink the caller lends) is not owned state
            return ty["s"]
    return None


SETTERS = ("set_logger", "set_boxed_logger", "set_max_level", "set_hook", "take_hook", "set_var", "remove_var", "set_alloc_error_hook")


@check("D03", floors={"statics": 6, "functions": 280, "mentioned callees": 1500}, technique="global-state effect analysis (statics, interior mutability, process-wide setters)",
       rule="no static is mutable, thread-local or interior-mutable; no function calls a process-wide setter (logger, panic hook, environment), "
            "leaks memory to make it static, or mentions a lazily initialised cell; no foreign statics")
def d03(facts, r):
    for c, f in facts.items():
        for i in f.items:
            if i["kind"] == "static":
                r.count("statics")
                bad = i.get("mut") or i.get("tls") or not i.get("freeze") or cell_in(f, i["ty"])
                r.ob("immutable-static", i["path"], not bad, i["span"], "static with mutable, thread-local or interior-mutable contents: %s" % bad)
            if i["kind"] == "foreign":
                r.bad("immutable-static", "foreign " + i["path"], i.get("span", ""), "foreign item")
        r.count("functions", len(set(base_key(b) for b in f.local_bodies())))
        for b in f.local_bodies():
            for st, term, cl in b["blocks"]:
                for s in st:
                    if s[0] == "=" and s[2][0] == "tls":
                        r.bad("thread-local", base_key(b), s[3], "reads a thread-local")
    n = 0
    for c, f, b, sp, fn in mentioned(facts):
        p, last = mir.name_of(fn)
        n += 1
        if last in SETTERS and not fn.get("local"):
            r.bad("process-wide-setter", "%s -> %s" % (base_key(b), p), sp, "changes state shared by the whole process")
        if "thread::local" in p or "OnceLock" in p or "LazyLock" in p or "once_lock" in p or "lazy_lock" in p:
            r.bad("process-wide-setter", "%s -> %s" % (base_key(b), p), sp, "global lazily initialised state")
        if last == "leak" and p.startswith(("alloc::", "std::")):
            r.bad("leak", "%s -> %s" % (base_key(b), p), sp, "leaks an allocation on every call")
    r.counts["mentioned callees"] = n
    for c, f in facts.items():
        for b in f.local_bodies():
            ok = not any(s[0] == "=" and s[2][0] == "tls" for st, t, cl in b["blocks"] for s in st)
            r.obl.append(("thread-local", base_key(b), ok, b["span"], ""))


# ------------------------------------------------------------------ G09

@check("G09", floors={"types": 45, "functions taking shared data": 60}, technique="type-structure analysis (auto-trait and interior-mutability walk)",
       rule="no type of the crates contains a cell, reference-counted pointer, raw pointer or non-Send trait object, none has a hand-written or "
            "negative Send/Sync, no body casts a shared reference to a mutable pointer, so reading through shared references mutates nothing and every type is Send and Sync when its parameters are")
def g09(facts, r):
    for c, f in facts.items():
        used = set()
        for t in set(t for b in f.local_bodies() for t, _ in b["locals"]) | set(t for x in f.fns for t in (x.get("in") or []) + [x.get("out")] if isinstance(t, int)):
            for x, _ in type_walk(f, t, set()):
                if f.types[x]["k"] == "adt":
                    used.add(f.types[x]["d"])
        for i in f.items:
            if i["kind"] == "adt":
                if i["path"] not in used:
                    continue  # no function of the crate takes, returns or holds such a value
                r.count("types")
                bad = cell_in(f, i["ty"], raw=True)
                r.ob("no-hidden-mutability", i["path"], not bad, i["span"], "contains %s" % bad)
            if i["kind"] == "impl" and i.get("trait", "") and i["trait"].rsplit("::", 1)[-1] in ("Send", "Sync"):
                r.bad("auto-trait", i["path"], i["span"], "hand-written %s" % i["trait"])
        for fn in f.fns:
            ins = fn.get("in") or []
            if any(f.types[t]["k"] == "ref" and not f.types[t]["m"] for t in ins):
                r.count("functions taking shared data")
        for b in f.local_bodies():
            # a raw mutable pointer made from a place behind a shared reference
            lt = [t for t, _ in b["locals"]]
            for st, term, cl in b["blocks"]:
                for s in st:
                    if s[0] != "=":
                        continue
                    rv = s[2]
                    if rv[0] == "cast" and rv[1] == "PtrToPtr":
                        src = rv[2]
                        tt = f.types[rv[3]]
                        st_ = None
                        if src[0] in "cm" and not src[1][1]:
                            st_ = f.types[lt[src[1][0]]]
                        elif src[0] in "cm":
                            continue
                        if st_ and tt["k"] == "ptr" and tt["m"] and st_["k"] in ("ptr", "ref") and not st_["m"]:
                            r.bad("const-to-mut", base_key(b), s[3], "casts %s to %s" % (st_["s"], tt["s"]))
    for c, f, b, sp, fn in mentioned(facts):
        p, last = mir.name_of(fn)
        if last in ("cast_mut", "from_ref") and "ptr" in p:
            r.bad("const-to-mut", "%s -> %s" % (base_key(b), p), sp, "turns shared access into mutable access")
        if p.startswith(CELLS) and not p.startswith("std::sync::poison"):
            r.bad("no-hidden-mutability", "%s -> %s" % (base_key(b), p), sp, "interior mutability")


# ------------------------------------------------------------------ D04

@check("D04", floors={"functions": 280, "unsafe functions or blocks": 10}, technique="unsafe-capability confinement over HIR and MIR",
       rule="unsafe blocks, unsafe functions, unsafe impls, dereferences of raw pointers and calls of unsafe functions occur only in the module of the "
            "optional-item vector; the crates expose no unsafe function and no union")
def d04(facts, r):
    ok_mod = "trellis::vec_option::"
    for c, f in facts.items():
        for fn in f.fns:
            if fn.get("derived"):
                continue
            u = fn["unsafe_blocks"] or fn.get("unsafe")
            if u:
                r.count("unsafe functions or blocks")
                r.ob("confined", fn["path"], fn["path"].startswith(ok_mod) and not (fn.get("unsafe") and fn.get("pub")),
                     fn["span"], "unsafe code outside the optional-item vector, or an unsafe public function")
            else:
                r.obl.append(("confined", fn["path"], True, fn["span"], ""))
        for i in f.items:
            if i["kind"] == "impl" and i.get("unsafe") and not i.get("trait", "").endswith("TrivialClone"):
                r.bad("unsafe-impl", i["path"], i["span"], "unsafe impl of %s" % i.get("trait"))
            if i["kind"] == "static" and i.get("mut"):
                r.bad("confined", i["path"], i["span"], "static mut")
        for b in f.local_bodies():
            lt = [t for t, _ in b["locals"]]
            r.count("bodies")
            if base_key(b).startswith(ok_mod):
                continue
            # the expansion of vec! and box patterns uses boxed pointers; those are compiler generated
            for st, term, cl in b["blocks"]:
                for fn in mir.walk_fn_consts([x for x in st if x[0] == "="]) if False else ():
                    pass
                if term[0] == "call":
                    cal = f.callee(term)
                    if cal and cal.get("unsafe"):
                        p, last = mir.name_of(cal)
                        if last in ("box_assume_init_into_vec_unsafe", "new_unchecked") and p.startswith(("alloc::", "core::")):
                            if last == "box_assume_init_into_vec_unsafe":
                                continue
                        fnrec = f.fn_by_path.get(base_key(b))
                        if fnrec and not fnrec["unsafe_blocks"] and not fnrec.get("unsafe"):
                            continue  # expanded by a std macro that carries its own justification
                        r.bad("unsafe-call", "%s -> %s" % (base_key(b), p), term[-1], "calls an unsafe function")
        r.count("functions", len(set(base_key(b) for b in f.local_bodies())))


# ------------------------------------------------------------------ U01

def can_return(f, assume=None):
    """greatest-fixpoint-free reachability: bodies from whose entry a return is reachable, where a call returns only if some
    body it may run returns"""
    keys = list(f.bodies)
    ok = set()
    ch = True
    while ch:
        ch = False
        for k in keys:
            if k in ok:
                continue
            b = f.bodies[k]
            seen, st = {0}, [0]
            good = False
            while st and not good:
                x = st.pop()
                term = b["blocks"][x][1]
                if term[0] == "ret":
                    good = True
                    break
                if term[0] == "call":
                    cal = f.callee(term)
                    bk = cal.get("body") if cal else None
                    if cal and cal.get("local") and bk in f.bodies and bk not in ok:
                        continue
                for s in mir.succs(term):
                    if s not in seen:
                        seen.add(s)
                        st.append(s)
            if good:
                ok.add(k)
                ch = True
    return ok


@check("U01", floors={"public functions": 150}, technique="interprocedural reachability of the normal return",
       rule="for every non-test public function (trait methods included) the normal return is reachable in its control-flow graph, where a call "
            "of a local function only continues if that function's own return is reachable")
def u01(facts, r):
    for c, f in facts.items():
        ok = can_return(f)
        for fn in f.fns:
            if fn.get("closure") or fn.get("derived"):
                continue
            b = f.bodies.get(fn.get("key"))
            if b is None:
                continue
            if fn.get("pub") or fn.get("trait"):
                r.count("public functions")
            r.ob("returns", fn["path"], fn["key"] in ok or f.ts(fn["out"]) == "!", fn["span"], "no input lets this function return normally")
