"""Properties decided on the crate as a whole: effects (C21), auto traits (C23), unsafe code (C24)."""
import os, sys, time
import dump, ck, roots, terms
from terms import *
from ck import Col

# ---------------------------------------------------------------- C21
DENY_CALL = ("std::io::stdio::", "std::fs::", "std::env::", "std::process::", "std::thread::", "std::time::", "std::net::",
             "std::os::", "std::sys::", "std::panic::set_hook", "std::panic::take_hook", "log::set_", "std::backtrace::",
             "core::arch::", "libc::")
DENY_TYPE = ("std::io::stdio::", "std::fs::", "std::process::", "std::thread::", "std::time::", "std::net::", "std::os::",
             "std::env::")
# process::abort and friends end the process; Duration is arithmetic only
OK_CALL = ("std::time::Duration", "core::time::", "std::thread::local_impl::NEVER")
KNOWN_ROOT = ("core", "alloc", "std", "byteorder", "log", "lazy_static", "regex", "thiserror", "yule_log", "hashbrown")
MUTCELL = ("core::cell::", "core::sync::atomic::", "std::sync::", "std::cell::", "std::thread::local::")
ONCE = ("lazy_static::lazy::Lazy", "std::sync::lazy_lock::LazyLock", "std::sync::once_lock::OnceLock")

def refs(f):
    """(fact, line) for every function item f mentions, and every static"""
    out = []
    def walk(x, line):
        if isinstance(x, dict):
            if x.get("c") == "fn" and isinstance(x.get("f"), dict):
                out.append(("fn", x["f"], line))
            elif x.get("c") == "static":
                out.append(("static", x, line))
            for v in x.values():
                walk(v, line)
        elif isinstance(x, list):
            for v in x:
                walk(v, line)
    for b in f.j["blocks"]:
        for s in b["s"]:
            ln = s[-1] if isinstance(s[-1], str) else None
            walk(s, ln)
        t = b["t"]
        ln = next((x for x in t if isinstance(x, str) and ".rs:" in x), None)
        walk(t, ln)
    return out

def root_of(path):
    p = path.lstrip("<&* ")
    for q in ("dyn ", "mut "):
        if p.startswith(q):
            p = p[len(q):]
    return p.split("::")[0].split(" ")[0].split("<")[0]

def type_paths(P, tid, seen=None, depth=6):
    """adt paths inside a type (its arguments and fields)"""
    seen = set() if seen is None else seen
    if tid in seen or depth < 0:
        return set()
    seen.add(tid)
    ty = P.types[tid]
    r = set()
    if ty["k"] == "adt":
        r.add(ty["path"])
        for a in ty.get("args") or []:
            r |= type_paths(P, a, seen, depth - 1)
        for v in ty.get("variants") or []:
            for f in v["fields"]:
                r |= type_paths(P, f[1], seen, depth - 1)
    else:
        for k in ("elem", "to", "ty", "args", "elems", "upvars", "fields"):
            x = ty.get(k)
            if isinstance(x, int) and not isinstance(x, bool):
                r |= type_paths(P, x, seen, depth - 1)
            elif isinstance(x, list):
                for y in x:
                    if isinstance(y, int):
                        r |= type_paths(P, y, seen, depth - 1)
    return r

def adt_args(P, ty):
    return [a for a in (ty.get("args") or []) if isinstance(a, int)]

def entries(P, crate):
    """public API of the crate: public functions and every trait implementation"""
    out = []
    for f in P.fns.values():
        if f.j.get("crate") != crate or f.j.get("closure"):
            continue
        if f.j.get("pub") or f.j.get("impl_trait"):
            out.append(f)
    return out

def c21_effects(P, c, crate, where=""):
    ents = entries(P, crate)
    rs = roots.reach(P, ents)
    fns = [P.fns[k] for k in rs if P.fns[k].j.get("crate") in ("yule_log", crate)]
    c.count("entry points", len(ents))
    c.count("functions reachable", len(fns))
    for f in fns:
        nm = f.j["path"]
        for kind, x, line in refs(f):
            if kind != "fn":
                continue
            for path in {x["path"], x.get("rpath") or x["path"]}:
                bad = any(path.startswith(d) or ("<" + d) in path[:len(d) + 2] for d in DENY_CALL) and not any(path.startswith(o) for o in OK_CALL)
                root = root_of(path)
                if root == crate:
                    continue
                c.count("call sites")
                if bad:
                    c.ob(False, "%s %s" % (where + nm, path), "%s at %s refers to %s, an effect outside the reader, the writer and the logger; reachable from the public API" % (nm, line, path))
                elif root not in KNOWN_ROOT and not path.startswith("<"):
                    c.ob(None, "crate " + root, "%s refers to %s of a crate whose effects are not modelled" % (nm, path))
                else:
                    c.ob(True, "")
            st = x.get("self")
        for t in set(f.j["locals"]):
            ty = P.types[t]
            for p in type_paths(P, t, depth=2):
                if any(p.startswith(d) for d in DENY_TYPE) and not any(p.startswith(o) for o in OK_CALL):
                    c.ob(False, "%s type %s" % (where + nm, p), "%s handles a value of type %s: an effect outside the reader, the writer and the logger" % (nm, P.tystr(t)))
    # global state
    for it in P.items:
        if it["kind"] != "static":
            continue
        c.count("statics")
        ty = P.types[it["ty"]]
        ps = type_paths(P, it["ty"], depth=8)
        name = it["path"]
        if it["mut"]:
            c.ob(False, "static " + name, "%s is mutable global state (%s)" % (name, it["span"]))
            continue
        if ty["k"] == "adt" and ty["path"] in ONCE:
            inner = set()
            for a in adt_args(P, ty):
                if P.types[a]["k"] not in ("fnptr", "fndef"):
                    inner.add(P.types[a].get("path", ""))
            bad = [p for p in inner if p.startswith(MUTCELL)]
            c.ob(not bad, "static " + name, "%s holds a value that can change after it was set up: %s" % (name, bad), sample="%s: set up once, then read only" % name)
            continue
        bad = [p for p in ps if p.startswith(MUTCELL) and not p.startswith("core::sync::atomic::Ordering")]
        c.ob(not bad, "static " + name, "%s (%s) is mutable global state: its type contains %s" % (name, it["span"], ", ".join(bad)), sample="%s: no interior mutability" % name)

def c21(P, pid, tier, t0):
    c = Col()
    c21_effects(P, c, "yule_log")
    c.floor("functions reachable", 250, "the public API of the crate")
    try:
        import fixtures
        F = fixtures.derive_prog()
    except (ImportError, dump.AnalysisError) as e:
        F = None
        c.notes["derive"] = "the derived code could not be analysed: %s" % str(e)[:200]
    if F is not None:
        c21_effects(F, c, "yule_fixture", where="derived: ")
    return ck.report(pid, c, tier, t0, C21_RULE)

C21_RULE = ("Effect analysis over the resolved call graph: every function reachable from a public function or a trait implementation of the library, "
            "and of a crate with derived structs and streams, is inspected; no reference to standard streams, files, environment, processes, threads, clocks or the network, "
            "no value of such a type, and no static that can change after its one-time set-up.")

# ---------------------------------------------------------------- C39
C39_RULE = ("Every call site of every function reachable from the public API (and of derived code) is inspected for what a run could see of anything but its bytes and options: "
            "the order of a hash table (by the type of each iterator that is consumed, and what consumes it), hash seeds, addresses, and the byte order of the machine; statics are C21's")
HASHIT = ("std::collections::hash::set::", "std::collections::hash::map::", "hashbrown::")
HASHCOLL = ("HashMap", "HashSet")
ADAPT = {"map", "filter", "filter_map", "flat_map", "flatten", "cloned", "copied", "inspect", "by_ref", "into_iter", "iter", "chain", "iter_mut", "fuse", "map_while", "as_ref", "size_hint", "len"}
UNORDERED = {"any", "all", "count", "sum", "product", "min", "max", "is_empty", "is_subset", "is_superset", "is_disjoint", "contains"}
ORDERED = {"enumerate", "take", "skip", "nth", "last", "position", "reduce", "zip", "step_by", "rev", "scan", "skip_while", "take_while", "partition"}
GROW = ("alloc::vec::Vec::<T>::push", "alloc::string::String::push", "alloc::string::String::push_str", "alloc::vec::Vec::<T, A>::push", "std::io::Write::write", "core::fmt::Write::write")

def calls(f):
    """(block, callee fact, argument types, destination type, line)"""
    for i, b in enumerate(f.j["blocks"]):
        t = b["t"]
        if t[0] == "call" and isinstance(t[1], list) and t[1][0] == "k" and isinstance(t[1][1], dict) and t[1][1].get("c") == "fn":
            yield i, t[1][1]["f"], t[7] if len(t) > 7 else [], t[6] if len(t) > 6 else None, t[5]

def hash_iter(P, tid):
    """is this the type of an iterator over a hash table, or of one built on it"""
    return any(p.startswith(HASHIT) and not p.endswith(HASHCOLL) and not p.split("::")[-1] in ("Entry", "OccupiedEntry", "VacantEntry", "RandomState") for p in type_paths(P, tid, depth=5)) if isinstance(tid, int) else False

def is_coll(P, tid):
    while isinstance(tid, int) and P.types[tid]["k"] == "ref":
        tid = P.types[tid]["to"]
    return isinstance(tid, int) and P.types[tid].get("path", "").split("::")[-1] in HASHCOLL

def base_path(P, tid):
    while isinstance(tid, int) and P.types[tid]["k"] == "ref":
        tid = P.types[tid]["to"]
    return P.types[tid].get("path", "") if isinstance(tid, int) else ""

def loop_blocks(f, i):
    """blocks on a cycle through block i"""
    bl = f.j["blocks"]
    n = len(bl)
    fw, todo = set(), [i]
    while todo:
        x = todo.pop()
        for y in f.succs(x):
            if y < n and y not in fw:
                fw.add(y)
                todo.append(y)
    if i not in fw:
        return set()
    pred = {}
    for x in range(n):
        for y in f.succs(x):
            pred.setdefault(y, set()).add(x)
    bw, todo = set(), [i]
    while todo:
        x = todo.pop()
        for y in pred.get(x, ()):
            if y not in bw:
                bw.add(y)
                todo.append(y)
    return fw & bw

def c39_order(P, c, fns, where):
    for f in fns:
        nm = where + f.j["path"]
        cs = list(calls(f))
        names = {x["name"] for _, x, _, _, _ in cs}
        paths = {x.get("rpath") or x["path"] for _, x, _, _, _ in cs}
        sorts = any(n.startswith("sort") for n in names) or any("BTree" in p or "BinaryHeap" in p for p in paths)
        logs = any(p.startswith("log::") for p in paths)
        for kind, x, line in refs(f):
            if kind != "fn":
                continue
            full = (x.get("rpath") or "") + " " + x["path"]
            if x["name"] in ("from_ne_bytes", "to_ne_bytes") or "NativeEndian" in full or any("NativeEndian" in p for a in x.get("args", []) + [x.get("self")] if isinstance(a, int) for p in type_paths(P, a, depth=1)):
                wide = not any(k in full for k in ("<impl u8>", "<impl i8>"))
                swaps = bool({"from_le", "to_le", "from_be", "to_be", "swap_bytes"} & names)
                c.ob(True if not wide else (None if swaps else False), nm + " byte order", "%s at %s uses the machine's own byte order (%s): the same bytes mean other values elsewhere" % (nm, line, x["path"]))
        for i, x, tys, dt, line in cs:
            c.count("call sites")
            n = x["name"]
            path = x.get("rpath") or x["path"]
            full = path + " " + x["path"]
            if "RandomState::new" in full or "hash::random" in full:
                c.ob(False, nm + " seed", "%s at %s draws a random hash seed (%s): what it computes with it differs from run to run" % (nm, line, path))
            if "fmt::Pointer" in full or n == "new_pointer":
                c.ob(None if logs else False, nm + " address", "%s at %s shows an address" % (nm, line))
            if n in ("new_debug", "new_display") and any(is_coll(P, a) for a in x.get("args", [])):
                c.ob(None if logs else False, nm + " hash text", "%s at %s shows a hash table as text, in an order that differs from run to run" % (nm, line))
            recv = tys[0] if tys else None
            src = recv is not None and hash_iter(P, recv)
            arg = any(hash_iter(P, a) or is_coll(P, a) for a in tys[1:])
            if not src and not (arg and n in ("extend", "chain", "zip")) and not (n in ("collect", "from_iter") and any(hash_iter(P, a) for a in tys)):
                if is_coll(P, recv) and n in ("iter", "keys", "values", "into_iter", "drain", "into_keys", "into_values", "values_mut", "iter_mut", "retain", "union", "intersection", "difference", "symmetric_difference"):
                    c.count("hash tables walked")
                continue
            if n in ADAPT:
                continue
            key = "%s %s" % (nm, n)
            if n in UNORDERED:
                c.ob(True, key, sample="%s: %s does not depend on the order" % (nm, n))
            elif n in ("collect", "from_iter", "extend"):
                to = base_path(P, dt if n != "extend" else recv)
                ps = [to] if n == "extend" else type_paths(P, dt, depth=2)
                if any(p.split("::")[-1] in ("HashMap", "HashSet", "BTreeMap", "BTreeSet", "BinaryHeap") for p in ps):
                    c.ob(True, key, sample="%s: gathered into a table or a sorted collection" % nm)
                elif any(p in ("alloc::vec::Vec", "alloc::string::String", "alloc::boxed::Box") or p.endswith("VecDeque") for p in ps):
                    c.ob(None if sorts else False, key, "%s at %s gathers the entries of a hash table in their own order, which differs from run to run, into a %s" % (nm, line, to.split("::")[-1]))
                else:
                    c.ob(None, key, "%s at %s gathers the entries of a hash table into %s" % (nm, line, to))
            elif n in ORDERED:
                c.ob(False, key, "%s at %s applies %s to the entries of a hash table, whose order differs from run to run" % (nm, line, n))
            elif n == "next":
                lp = loop_blocks(f, i)
                if not lp:
                    c.ob(None if "len" in names else False, key, "%s at %s takes the first entry of a hash table, which differs from run to run" % (nm, line))
                    continue
                inside = [y for k, y, _, _, _ in cs if k in lp and k != i]
                grow = [y for y in inside if (y.get("rpath") or y["path"]).startswith(GROW) or y["name"] in ("push", "push_str", "write_all", "write_fmt", "push_back")]
                if grow and not sorts:
                    c.ob(False, key, "%s at %s walks a hash table, whose order differs from run to run, and appends what it meets (%s)" % (nm, line, grow[0]["name"]))
                else:
                    keeps = all(y["name"] in ("insert", "contains", "contains_key", "remove", "clone", "deref", "as_str", "as_ref", "drop", "borrow", "to_string", "into", "from", "entry", "or_insert", "is_some", "is_none", "get", "eq", "ne") for y in inside)
                    c.ob(True if keeps else None, key, "%s at %s walks a hash table; whether the order matters is not known" % (nm, line), sample="%s: the walk only fills another table" % nm)
            else:
                c.ob(None, key, "%s at %s uses %s on the entries of a hash table" % (nm, line, n))
        for b in f.j["blocks"]:
            for st in b["s"]:
                if "Expose" in str(st[2] if len(st) > 2 else ""):
                    c.ob(None if logs else False, nm + " address", "%s at %s turns an address into a number" % (nm, st[-1]))

def c39(P, pid, tier, t0):
    c = Col()
    def one(P, crate, where):
        rs = roots.reach(P, entries(P, crate))
        fns = [P.fns[k] for k in rs if P.fns[k].j.get("crate") in ("yule_log", crate)]
        c.count("functions reachable", len(fns))
        c39_order(P, c, fns, where)
    one(P, "yule_log", "")
    c.floor("functions reachable", 250, "the public API of the crate")
    try:
        import fixtures
        F = fixtures.derive_prog()
    except (ImportError, dump.AnalysisError) as e:
        F = None
        c.notes["derive"] = "the derived code could not be analysed: %s" % str(e)[:200]
    if F is not None:
        one(F, "yule_fixture", "derived: ")
    # an alias that the compiler resolves to the byte order of the machine it runs on
    import re
    src = os.path.join(dump.REPO, "core", "src")
    for name in sorted(os.listdir(src)):
        if not name.endswith(".rs") or "test" in name:
            continue
        text = re.sub(r'//[^\n]*|"(?:[^"\\\n]|\\.)*"', "", open(os.path.join(src, name), encoding="utf-8").read())
        text = re.sub(r"/\*.*?\*/", lambda m: "\n" * m.group(0).count("\n"), text, flags=re.S)
        c.count("source files")
        for m in re.finditer(r"\bNativeEndian\s*(::|>)", text):
            c.ob(False, name + " byte order", "core/src/%s:%d uses NativeEndian, the machine's own byte order: the same bytes mean other values elsewhere" % (name, text.count("\n", 0, m.start()) + 1))
    c.ob(True, "looked", sample="no use of the machine's byte order, of addresses, or of the order of a hash table")
    return ck.report(pid, c, tier, t0, C39_RULE)

# ---------------------------------------------------------------- C23
def c23(P0, pid, tier, t0):
    c = Col()
    try:
        P = dump.core_prog("macros,thread_safe", "core-ts")
    except dump.AnalysisError as e:
        # the default build succeeded (P0), so it is the feature that does not compile
        c.ob(False, "thread_safe does not compile", "the crate does not compile with the thread_safe feature:\n" + str(e)[-1500:])
        return ck.report(pid, c, tier, t0, C23_RULE)
    for it in P.items:
        if it["kind"] != "adt" or not it["exported"]:
            continue
        name = it["path"]
        model = name.startswith("yule_log::model::") or name.startswith("yule_log::errors::") or name.startswith("yule_log::message_buf::")
        c.count("exported types")
        ty = P.types[it["ty"]]
        if name.startswith("yule_log::model::") or name.startswith("yule_log::errors::"):
            for tr, k in (("Send", "send"), ("Sync", "sync")):
                c.ob(it[k] is not False, "%s %s" % (name, tr), "with the thread_safe feature %s (%s) is not %s: %s" % (name, it["span"], tr, why(P, it["ty"], k)),
                     sample="%s: %s" % (name, tr))
        elif it["generics"] or name in ("yule_log::parser::ULogParser",):
            # the parser and its parts over a Send reader
            c.ob(it["send"] is not False, "%s Send" % name, "with the thread_safe feature %s over a Send reader (%s) is not Send: %s" % (name, it["span"], why(P, it["ty"], "send")),
                 sample="%s<R: Send>: Send" % name)
    c.floor("exported types", 25, "the public data types")
    try:
        import fixtures
        F = fixtures.derive_prog("thread_safe")
        n = 0
        for it in F.items:
            if it["kind"] == "adt" and it["path"].startswith("yule_fixture::") and "__yule_log_derive_" in it["path"] and it["generics"]:
                n += 1
                c.ob(it["send"] is not False, "derived %s Send" % it["path"].split("::")[-1], "the derived type %s over a Send reader is not Send: %s" % (it["path"], why(F, it["ty"], "send")),
                     sample="%s<R: Send>: Send" % it["path"])
        c.count("derived types", n)
        c.floor("derived types", 2, "derived streams and builders")
    except ImportError:
        c.notes["derive"] = "derived streams not analysed"
    except dump.AnalysisError as e:
        c.notes["derive"] = "the crate with derived streams does not compile with thread_safe: " + str(e)[-300:]
    return ck.report(pid, c, tier, t0, C23_RULE)

def why(P, tid, k):
    """the members whose types are known not to be thread-safe"""
    bad = sorted(p for p in type_paths(P, tid, depth=8) if p.startswith(("alloc::rc::", "core::cell::", "std::sync::mpsc", "std::sync::poison::mutex::MutexGuard")))
    return "it contains " + ", ".join(bad) if bad else "see its members"

C23_RULE = ("Auto-trait facts from the compiler: the crate and a crate with derived streams are type-checked with the thread_safe feature, and every exported type of the message model "
            "and the error type must implement Send and Sync, every exported generic type (the parser, its stream and builder, derived streams) Send when its parameters are Send; both feature settings must type-check.")

# ---------------------------------------------------------------- C24
OK_MACRO_UNSAFE = ("core::fmt::", "alloc::boxed::box_assume_init_into_vec_unsafe", "core::hint::", "core::fmt::rt::")

def one_byte_transparent(P, tid):
    ty = P.types[tid]
    if ty["k"] != "adt" or not ty.get("transparent"):
        return False
    fs = ty["variants"][0]["fields"]
    real = [f for f in fs if P.types[f[1]]["k"] != "tuple" or P.tystr(f[1]) != "()"]
    return len(real) == 1 and P.tystr(real[0][1]) in ("u8", "i8", "bool")

def elem_of_ref(P, tid):
    """element type of &[T] / &Vec<T>, following references"""
    for _ in range(4):
        ty = P.types[tid]
        if ty["k"] in ("ref", "ptr"):
            tid = ty.get("to") if ty.get("to") is not None else ty.get("ty")
        elif ty["k"] == "slice":
            return ty.get("elem") if ty.get("elem") is not None else ty.get("ty")
        elif ty["k"] == "adt" and ty["path"] == "alloc::vec::Vec":
            return adt_args(P, ty)[0]
        else:
            return None
    return None

def c24(P, pid, tier, t0):
    c = Col()
    for im in P.impls:
        if im["unsafe"]:
            ok = im["trait"] == "core::clone::TrivialClone"
            c.ob(ok, "unsafe impl " + im["full"], "unsafe implementation %s (%s)" % (im["full"], im["span"]))
    owners = {}
    for u in P.unsafes:
        if u["macro"] and u["macro"] not in ("yule_log", "yule_log_macros"):
            c.count("unsafe blocks of std macros")
            continue
        owners.setdefault(u["fn"], []).append(u["span"])
        c.count("unsafe blocks")
    for f in P.fns.values():
        if f.j.get("crate") == "yule_log" and f.j.get("unsafe"):
            owners.setdefault(f.j["path"], []).append(f.j["span"])
            c.ob(False, "unsafe fn " + f.j["path"], "%s (%s) is an unsafe function: callers can break its contract" % (f.j["path"], f.j["span"])) if f.j.get("pub") else None
    views = []
    for own, spans in sorted(owners.items()):
        fs = [f for f in P.fns.values() if f.j.get("crate") == "yule_log" and (f.j["path"] == own or f.j.get("parent", "").startswith(own))]
        if not fs:
            c.ob(None, "unsafe " + own, "no MIR for the function with the unsafe block at %s" % spans)
            continue
        for f in fs:
            c24_fn(P, c, f, spans, views)
    c.count("byte views", len(views))
    for f, line in views:
        c24_view(P, c, f, line)
    return ck.report(pid, c, tier, t0, C24_RULE)

def c24_fn(P, c, f, spans, views):
    nm = f.j["path"]
    for bi, b in enumerate(f.j["blocks"]):
        for s in b["s"]:
            if s[0] != "=":
                continue
            rv = s[2]
            ln = s[-1]
            # raw pointer dereferences, union fields, statics
            for pl in places(rv) + [s[1]]:
                t = f.j["locals"][pl[0]]
                if len(pl) > 1 and pl[1] and P.types[t]["k"] == "ptr" and deref_first(pl):
                    if raw_view(P, f, pl[0]):
                        c.ob(True, "", sample="%s: slice view by pointer cast (%s)" % (nm, ln))
                    elif P.types[t].get("path") is None and owned_box(P, f, pl[0]):
                        pass
                    else:
                        c.ob(False, "%s raw deref" % nm, "%s dereferences a raw pointer of type %s at %s" % (nm, P.tystr(t), ln))
            if rv[0] == "cast" and rv[1] == "Transmute":
                c.ob(transmute_ok(P, rv), "%s transmute" % nm, "%s transmutes %s to %s at %s" % (nm, P.tystr(rv[4]), P.tystr(rv[3]), ln))
        t = b["t"]
        if t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "fn":
            fc = t[1][1]["f"]
            if not fc.get("unsafe"):
                continue
            path = fc["path"]
            ln = next((x for x in t if isinstance(x, str) and ".rs:" in x), "?")
            if path.startswith(OK_MACRO_UNSAFE):
                continue
            if path == "core::slice::raw::from_raw_parts":
                views.append((f, ln))
                el = sorted({P.tystr(x[0]) for x in cast_elems(P, f) if not (x[1] or P.tystr(x[0]) == "u8")})
                c.ob(not el, "%s element" % nm, "%s views elements of type %s as bytes at %s: not a transparent one-byte wrapper" % (nm, el, ln))
            else:
                c.ob(False, "%s %s" % (nm, path), "%s calls the unsafe function %s at %s, which is not a byte view of a character slice" % (nm, path, ln))
        elif t[0] == "call" and t[1][0] == "k" and t[1][1].get("c") == "static":
            pass

def cast_elems(P, f):
    """element types whose pointers the function casts to byte pointers"""
    for b in f.j["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[2][0] == "cast":
                to, fr = P.types[s[2][3]], P.types[s[2][4]]
                if to["k"] == "ptr" and fr["k"] in ("ptr", "ref") and P.tystr(to["to"]) == "u8":
                    e = fr["to"]
                    if P.types[e]["k"] == "slice":
                        e = P.types[e]["elem"]
                    yield e, one_byte_transparent(P, e)

def places(rv):
    out = []
    def walk(x):
        if isinstance(x, list):
            if len(x) == 2 and x[0] in ("cp", "mv") and isinstance(x[1], list):
                out.append(x[1])
                return
            for y in x:
                walk(y)
    walk(rv)
    if rv[0] in ("ref", "addr", "discr"):
        for x in rv[1:]:
            if isinstance(x, list) and x and isinstance(x[0], int):
                out.append(x)
    return out

def deref_first(pl):
    p = pl[1]
    return p == ["*"] or p == "*" or (isinstance(p, list) and p and p[0] == "*")

def defs_of(f, l):
    r = []
    for b in f.j["blocks"]:
        for s in b["s"]:
            if s[0] == "=" and s[1] == [l]:
                r.append(s[2])
        t = b["t"]
        if t[0] == "call" and t[3] == [l]:
            r.append(["call", t])
    return r

def trace(f, l, n=8):
    """follow single-definition copies and casts back to the value they come from"""
    kinds = []
    for _ in range(n):
        d = defs_of(f, l)
        if len(d) != 1:
            return l, kinds
        rv = d[0]
        if rv[0] == "call":
            return l, kinds + [rv]
        pl = places(rv)
        if rv[0] in ("use", "cast", "addr", "ref") and len(pl) == 1:
            kinds.append(rv)
            p = pl[0]
            if len(p) > 1 and not (len(p) == 2 and deref_first(p)):
                return l, kinds
            l = p[0]
        else:
            return l, kinds
    return l, kinds

def raw_view(P, f, l):
    """*const [u8] obtained by casting a reference to a character slice"""
    src, kinds = trace(f, l)
    t = f.j["locals"][src]
    e = elem_of_ref(P, t)
    dst = elem_of_ref(P, f.j["locals"][l])
    return e is not None and dst is not None and one_byte_transparent(P, e) and P.tystr(dst) == "u8" and P.types[t]["k"] == "ref" and all(k[0] in ("use", "cast", "addr", "ref") for k in kinds)

def owned_box(P, f, l):
    src, kinds = trace(f, l)
    return any("Box" in P.tystr(f.j["locals"][x]) for x in (src, l))

def transmute_ok(P, rv):
    a, b = elem_of_ref(P, rv[4]), elem_of_ref(P, rv[3])
    return a is not None and b is not None and one_byte_transparent(P, a) and P.tystr(b) == "u8"

def c24_view(P, c, f, line):
    """from_raw_parts(p, n): p and n must be the start and the length of one and the same character slice"""
    nm = f.j["path"]
    sig = f.j.get("sig") or ""
    out = sig.split("->")[-1] if "->" in sig else ""
    c.ob("static" not in out.split("bound_vars")[0], "%s lifetime" % nm, "%s returns the view with an unbounded lifetime (%s)" % (nm, line))
    root = f
    if f.j.get("closure"):
        root = next((g for g in P.fns.values() if g.j["path"] == f.j.get("parent") and not g.j.get("closure")), f)
    try:
        I = roots.run_method(P, root)[0]
        evs = [e for e in I.events if e.kind == "rawparts"]
    except ck.Inconclusive as ex:
        c.ob(None, "%s view" % nm, str(ex))
        return
    n = 0
    for e in evs:
        n += 1
        ptr, ln = e.data
        st = e.st
        r = view_ok(I, st, ptr, ln)
        c.ob(r, "%s view" % nm, "the byte view at %s has pointer %s and length %s, which are not those of one character slice" % (line, ck.short(ptr), ck.short(ln)),
             sample="%s: view(%s, %s)" % (nm, ck.short(ptr, 60), ck.short(ln, 60)))
    if not n:
        c.ob(None, "%s view" % nm, "the byte view at %s was not reached by the analysis" % line)

def view_ok(I, st, ptr, ln):
    import models
    v = models.dr(I, st, ptr)
    print(ck.short(ptr), ck.short(v), ck.short(ln)) if os.environ.get('CK_DEBUG') else None
    if tainted_any(v) or tainted_any(ln):
        return None
    r = st.facts.ev(models.le_(ln, models.slen(v)))
    if r is not True and opaque_len(ln, v):
        return None
    return True if r is True else False

def opaque_len(ln, v):
    """the length is a number whose relation to the slice the analysis may have lost in a loop"""
    import q_fields
    return any(y.op in ("lv", "lvx", "lvat") for y in q_fields.walk(ln))

def tainted_any(t):
    import nextq
    try:
        return bool(nextq.tainted(t))
    except Exception:
        return False

C24_RULE = ("Every unsafe block written in the crate (from the compiler's syntax tree) is located in the MIR; its unsafe operations must be slice::from_raw_parts (or a pointer cast of a slice) "
            "whose pointer and length are, as terms, the start and length of the same slice of a transparent one-byte type; any other unsafe call, raw dereference, transmute, unsafe fn or unsafe impl is reported.")
