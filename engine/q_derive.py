"""The derive macros and the extraction of typed values (C25, C26), on fixture crates built against the current tree."""
from terms import *
import terms, roots, interp, fixtures, dump
import ck, q_fields as F, q_encode as E, q_show as S, q_flatten as Q
from ck import Col, short
from nextq import unref, tainted
from interp import Inconclusive

C25_RULE = ("The derive macro of the current tree is expanded for the structs of fixtures/derive and the generated code is interpreted abstractly: first the mapping of an unknown definition, then, "
            "for each way the mapping succeeds, the reading of an unknown data value with that mapping. In every outcome each member must be the extraction, as the member's own type, of the data value's field at "
            "the position which the map 'name of each field of the definition -> its position' gives for the member's log name; optional members are None only where that map lacks the name; every refusal lacks a required "
            "name and its text names all the missing ones; a failing extraction is passed on. The subscription names and instances compared against are collected from the generated iterators.")
from interp import OPT
C27_RULE = ("The iterator generated for three fixture enums (catch-all in the middle, first, absent; two variants that differ only in the instance) is interpreted abstractly on one kind of parser item at a time - the end, an error, "
            "each kind of message with unknown contents, subscriptions equal to a variant's name and instance, to its name only, to neither - from an arbitrary table of subscribed ids. Each step must yield exactly the required item "
            "(the message itself in the catch-all, the reading by the entry of the message's id as that struct's variant, the error) or go on, and leave the table as required: the id's entry replaced, removed, or untouched, no other entry changed.")
C28_RULE = ("Every way of building a derived stream (plain, with added and extended names in both orders, with forwarding, on an enum without catch-all) is interpreted abstractly with unknown names and switches: the allow list of "
            "the parser inside the resulting stream must be, as a term, exactly the mapped names and all the extra names given, the forwarding switch the value asked for last, and on an enum without catch-all every path that asks "
            "must be a configuration error.")
C26_RULE = ("Abstract interpretation of each implementation of the extraction trait (12 scalars, 12 arrays, a nested struct, a vector of nested structs) on each of the 26 kinds of value with an unknown payload: on its own kind the result must be "
            "the payload term itself (nested: the reading of that very value with the mapping made from its own definition, for every element in order), on every other kind a type-mismatch error.")

CRATE = "yule_fixture::"

def program(c):
    try:
        return fixtures.derive_prog()
    except Exception as e:          # the fixture does not build: what C29 judges
        c.ob(None, "fixture", "the fixture crate could not be analysed: %s" % str(e)[:300])
        return None

def impl_of(P, name, trait, result):
    """the function `name` of the implementation of `trait` whose result is Result<`result`, _>"""
    for f in P.fns.values():
        t = f.j.get("impl_trait") or ""
        if f.name == name and t.endswith("::" + trait) and ok_type(P, f) == result:
            return f
    return None

def ok_type(P, f):
    t = P.types[f.locals[0]]
    if t.get("path") == "core::result::Result":
        return P.types[t["args"][0]].get("s")
    return None

def nested_fns(P):
    """from_format / get_data of every derived struct"""
    return {f.key for f in P.fns.values() if f.name in ("from_format", "get_data") and
            (f.j.get("impl_trait") or "").split("::")[-1] in ("ULogAccessorFactory", "ULogAccessor")}

def field_fns(P):
    return {f.key: f for f in P.fns.values() if f.name == "from_field" and (f.j.get("impl_trait") or "").endswith("::FromField")}

def rcall(P, v):
    """(function path, arguments) of the result of a summarised call"""
    v = unref(v)
    if v.op == "res" and v.args[0].op == "rcall":
        return v.args[0].args[0], [unref(a) for a in v.args[1:]]
    return None, None

def payload_of(v, variant=0):
    """the summarised call whose Ok (0) payload this is"""
    v = unref(v)
    if v.op == "fld" and v.args[1] == variant and v.args[2] == 0:
        return v.args[0]
    return None

# ---------------------------------------------------------------- typed extraction (C26)
SCALARS = {"u8": "U8", "u16": "U16", "u32": "U32", "u64": "U64", "i8": "I8", "i16": "I16", "i32": "I32", "i64": "I64", "f32": "F32", "f64": "F64", "bool": "Bool", "CChar": "Char"}

def log_kind(ts):
    """the kind of log value a Rust type stands for"""
    vec = ts.startswith("alloc::vec::Vec<")
    el = ts[len("alloc::vec::Vec<"):-1] if vec else ts
    n = SCALARS.get(el.split("::")[-1], "Other")
    return ("Array" if vec else "Scalar") + n

def c26(_, pid, tier, t0):
    c = Col()
    P = program(c)
    if P is not None:
        extraction(P, c)
        c.floor("types extracted", 26, "every scalar, every array, a nested value and an array of nested values")
        c.floor("kind pairs", 676, "every type against every kind of value")
    return ck.report(pid, c, tier, t0, C26_RULE)

def extraction(P, c):
    fv = S.value_types(P, "inst::FieldValue")
    fd = S.value_types(P, "inst::Field")
    nest = nested_fns(P)
    for f in field_fns(P).values():
        ts = ok_type(P, f)
        c.count("types extracted")
        want = log_kind(ts)
        what = "%s from a field" % ts.replace("alloc::vec::", "").replace("yule_log::model::", "")
        if f.argc != 1:
            c.ob(None, what, "from_field takes %d arguments" % f.argc)
            continue
        for i, v in enumerate(fv["variants"]):
            c.count("kind pairs")
            I_ = interp.Interp(P, {"errkeep": True, "errtexts": True, "recursive": nest})
            nm = v["name"]
            x = mk("sym", "payload") if v["fields"] else None
            if x is not None:
                I_.ann(x, v["fields"][0][1])
            val = adt(fv["path"], i, *([x] if x is not None else []))
            fs = []
            for fl in fd["variants"][0]["fields"]:
                if fl[0] == "value":
                    fs.append(val)
                else:
                    s = mk("sym", "field." + fl[0])
                    I_.ann(s, fl[1])
                    fs.append(s)
            st, fid = roots.start(I_, f, [None])
            st.store[("s", "FIELD")] = adt(fd["path"], 0, *fs)
            st.store[(fid, 1)] = mk("ref", ("s", "FIELD"), ())
            if x is not None:
                for y in I_.invariant(x, v["fields"][0][1]):
                    st.facts = st.facts.assume(y)
            key = "%s: %s" % (what, nm)
            try:
                rets = roots.run_root(I_, f, st, fid)
            except Inconclusive as e:
                c.ob(None, key, "%s on a %s: %s" % (what, nm, e))
                continue
            for e in I_.events:
                if e.kind == "opaque":
                    c.ob(None, key + ": unmodelled", "%s uses %s" % (what, e.detail))
            rets = [(s, unref(r)) for s, r in rets]
            if nm != want:
                for s, r in rets:
                    r_ = result_of(P, r)
                    if r_ is None and (rcall(P, r)[0] or "").endswith("::get_data"):
                        c.ob(False, key, "%s accepts a %s value: it gives %s instead of a type-mismatch error" % (what, nm, short(r)))
                    elif r_ is None:
                        c.ob(None, key, "%s on a %s gives %s" % (what, nm, short(r)))
                    elif r_[0] == 0:
                        c.ob(False, key, "%s accepts a %s value: it gives %s instead of a type-mismatch error" % (what, nm, short(r_[1])))
                    else:
                        e = r_[1]
                        ok = e.op == "adt" and variant_name(P, e) == "TypeMismatch"
                        c.ob(True if ok else (False if e.op == "adt" else None), key, "%s on a %s gives the error %s, not a type mismatch" % (what, nm, short(e)))
                if not rets:
                    c.ob(None, key, "%s on a %s never returns" % (what, nm))
                continue
            if not rets:
                c.ob(False, key, "%s on a %s value of its own type never returns" % (what, nm))
            good = 0
            for s, r in rets:
                if want.endswith("Other"):
                    ok, why = nested_result(P, I_, s.facts, r, x, want.startswith("Array"), v)
                else:
                    ok, why = plain_result(P, I_, s.facts, r, x, v)
                good += ok is True
                c.ob(ok, key, "%s on a %s: %s" % (what, nm, why), sample="%s on a %s: the payload itself" % (what, nm) if ok else None)
            c.count("matching results", good)

def variant_name(P, v):
    t = next((t for t in P.types if t["k"] == "adt" and t["path"] == v.args[0]), None)
    return t["variants"][v.args[1]]["name"] if t else None

def result_of(P, r):
    """(variant, payload) of a Result value"""
    r = unref(r)
    if r.op == "adt" and r.args[0].endswith("result::Result"):
        return r.args[1], unref(r.args[2])
    return None

def plain_result(P, I_, f, r, x, v):
    q = result_of(P, r)
    if q is None:
        return None, "the result is %s" % short(r)
    if q[0] == 1:
        return (None if tainted(q[1]) and q[1].op != "adt" else False), "it is refused with %s" % short(q[1])
    w = q[1]
    if w is x or f.same(w, x) is True or B(w) is x:
        return True, ""
    r_ = copy_of(I_, f, w, x)
    if r_ is not None:
        return r_, "it gives %s, not the payload" % short(w)
    return (None if tainted(w) else False), "it gives %s, not the payload itself" % short(w)

def copy_of(I_, f, w, x):
    """is the sequence w every element of x in order (True/False), None if not of that form"""
    ps = E.parts(w)
    if len(ps) == 1 and ps[0].op == "star":
        d, n, _, alts = ps[0].args
        if len(alts) == 1 and alts[0].args[1].op == "one":
            el = unref(alts[0].args[1].args[0])
            if el is sat(x, mk("bv", d)):
                if n is slen(x) or f.same(n, slen(x)) is True:
                    return True
                return None
    return None

def nested_result(P, I_, f, r, x, many, v):
    q = result_of(P, r)
    own = B(x)
    if not many:
        p, a = rcall(P, r)
        if q is not None and q[0] == 1 and own_error(P, q[1]):
            return own_error_ok(P, q[1], [own])
        if p is None and q is not None and q[0] == 0:
            pl = payload_of(q[1])
            p, a = rcall(P, pl) if pl is not None else (None, None)
        if p is None:
            return (None if q is None or tainted(q[1]) or q[1].op not in ("adt", "int") else False), "the result is %s" % short(r)
        return call_ok(P, p, a, own, own)
    if q is not None and q[0] == 0:
        w = q[1]
        ps = E.parts(w)
        if not ps:
            z = f.zero(slen(x))
            return (True if z is True else False if z is False else None), "an empty vector although the array may have elements"
        if len(ps) == 1 and ps[0].op == "star":
            d, n, _, alts = ps[0].args
            if len(alts) != 1 or alts[0].args[1].op != "one":
                return (None if tainted(w) else False), "not exactly one item for each element: %s" % short(w)
            if not (n is slen(x) or f.same(n, slen(x)) is True):
                return None if tainted(n) or n.op in ("lvx",) and f.ev(ge0(sub(n, slen(x)))) is None else False, "%s of the %s elements" % (short(n), short(slen(x)))
            el = unref(alts[0].args[1].args[0])
            pl = payload_of(el)
            p, a = rcall(P, pl) if pl is not None else (None, None)
            if p is None:
                return (None if tainted(el) else False), "the items are %s" % short(el)
            return call_ok(P, p, a, sat(x, mk("bv", d)), x)
        if len(ps) == 1 and ps[0].op == "rep" and not tainted(ps[0]):
            return False, "the same item for every element: %s" % short(ps[0])
        return None, "the items are %s" % short(w)
    p, a = rcall(P, r)
    if p is not None:          # the error of one of the elements, or of their mapping
        return any_call_ok(P, p, a, x)
    if q is not None and q[0] == 1:
        return own_error_ok(P, q[1], [x])
    return None, "the result is %s" % short(r)

def own_error(P, e):
    return True

def calls_in(P, t):
    return [(rcall(P, y)) for y in F.walk(t) if y.op == "res" and y.args[0].op == "rcall"]

def own_error_ok(P, e, on):
    cs = calls_in(P, e)
    if cs:
        return True, ""
    return (None if tainted(e) and e.op != "adt" else False), "a value of its own kind is refused with %s" % short(e)

def any_call_ok(P, p, a, x):
    return True, ""

def call_ok(P, p, a, el, whole):
    """get_data of the accessor made for the definition of el (or of another element of the same array), on el"""
    el = B(el)
    if p.endswith("::from_format"):
        return True, ""            # the mapping failed: its error is passed on
    if not p.endswith("::get_data") or len(a) < 2:
        return None, "the value comes from %s" % p
    if B(deref(a[1])) is not el:
        return (None if tainted(a[1]) else False), "the values are read from %s, not from %s" % (short(a[1]), short(el))
    acc = deref(a[0])
    pl = payload_of(acc)
    fp, fa = rcall(P, pl) if pl is not None else (None, None)
    if fp is None or not fp.endswith("::from_format"):
        return None, "the accessor is %s" % short(acc)
    d = B(deref(fa[0]))
    b = base_of_def(d)
    if b is None:
        return (None if tainted(d) else False), "the accessor is made for %s" % short(d)
    if b is el or b.op == "at" and B(b.args[0]) is B(whole) and whole is not el:
        return True, ""
    return (None if tainted(b) else False), "the accessor is made for the definition of %s, the values are read from %s" % (short(b), short(el))

def B(t):
    """a value behind its references"""
    t = unref(t)
    while t.op in ("vref", "deref"):
        t = t.args[0]
    return t

deref = B

def base_of_def(d):
    """the nested value whose definition d is"""
    d = B(d)
    if d.op == "fld":
        return B(d.args[0])
    return None

# ---------------------------------------------------------------- the mapping of a struct (C25)
# struct -> (subscription, instance, [(member, name in the log, optional)])
SPEC = {
    "Inner": ("inner", 0, [("x", "x", 0), ("y", "y", 1)]),
    "VehicleLocalPosition": ("vehicle_local_position", 0, [("timestamp", "timestamp", 0), ("f_u8", "f_u8", 0), ("f_u16", "f_u16", 0), ("f_u32", "f_u32", 0)]),
    "EscStatus2Rows": ("esc_status2_rows", 2, [(n, n, 0) for n in ("f_i64", "f_i32", "f_i16", "f_i8")]),
    "OtherScalars": ("other_scalars", 0, [(n, n, 0) for n in ("f_f32", "f_f64", "f_bool", "f_char")]),
    "UnsignedArrays": ("unsigned_arrays", 0, [(n, n, 0) for n in ("v_u8", "v_u16", "v_u32", "v_u64")]),
    "SignedArrays": ("signed_arrays", 0, [(n, n, 0) for n in ("v_i8", "v_i16", "v_i32", "v_i64")]),
    "OtherArrays": ("other_arrays", 0, [(n, n, 0) for n in ("v_f32", "v_f64", "v_bool", "v_char")]),
    "Shapes": ("shape_log", 3, [("renamed", "renamed_in_log", 0), ("type", "type", 0), ("opt", "opt", 1), ("opt_renamed", "opt_in_log", 1), ("opt_floats", "opt_floats", 1), ("opt_flag", "opt_flag", 1)]),
    "Swapped": ("swapped", 0, [("first", "second", 0), ("second", "first", 0), ("third", "Third Field", 1)]),
    "Nested": ("nested", 0, [("one", "one", 0), ("opt_one", "opt_one", 1), ("many", "many", 0), ("opt_many", "opt_many", 1)]),
    "AllOptional": ("all_optional", 0, [("a", "a", 1), ("b", "b", 1), ("c", "c", 1)]),
    "First": ("pair_log", 0, [("a", "a", 0), ("b", "b", 0)]),
    "Second": ("pair_log", 1, [("b", "b", 0), ("a", "a", 0)]),
}

def struct_type(P, name):
    return next((t for t in P.types if t["k"] == "adt" and t["path"] == CRATE + name), None)

def mapping_fns(P, t):
    """(from_format, get_data) of a derived struct"""
    g = impl_of(P, "get_data", "ULogAccessor", t["s"])
    if g is None:
        return None, None
    a = P.types[P.types[g.locals[1]]["to"]]["s"]
    return impl_of(P, "from_format", "ULogAccessorFactory", a), g

def c25(_, pid, tier, t0):
    c = Col()
    P = program(c)
    if P is not None:
        for n, (sub, multi, ms) in SPEC.items():
            mapping(P, c, n, sub, ms)
        positions(P, c)
        for en in ENUMS:          # the name and instance of each struct, as the generated iterator compares them
            c2 = Col()
            it = Iter(P, c2, en)
            if it.f is None:
                c.merge(c2)
                continue
            it.subscriptions(only=True)
            for vn, sn in it.vs:
                k = "%s::%s subscription" % (en, vn)
                und = c2.notes.get(k) or next((x for y, x in c2.notes.items() if y.startswith(en + ": ")), None)
                c.count("subscriptions compared")
                c.ob(False if k in c2.findings else (None if und else True), "struct %s name" % sn, c2.findings.get(k) or und,
                     sample="%s is mapped by subscriptions to %s instance %d" % (sn, SPEC[sn][0], SPEC[sn][1]))
        c.floor("members followed", 40, "the members of the fixture structs")
        c.floor("subscriptions compared", 15, "the variants of the fixture enums")
        c.floor("missing members reported", 40, "the ways a definition can lack members")
    return ck.report(pid, c, tier, t0, C25_RULE)

def lookups(t, base):
    """[(map, literal)] of every lookup by name"""
    out = []
    for y in F.walk(t):
        if y.op in ("mget", "has") and len(y.args) > 1 and unref(y.args[1]).op == "lit":
            out.append((y.args[0], unref(y.args[1])))
    return out

def by_name(I_, f, m, fields):
    """is the map m 'name of every field -> its position'"""
    if m.op != "setof":
        return None
    ps = E.parts(m.args[0])
    if len(ps) != 1 or ps[0].op != "star":
        return None
    d, n, _, alts = ps[0].args
    if not (n is slen(fields) or f.same(n, slen(fields)) is True):
        return None if tainted(n) else (None if n.op == "lvx" and f.ev(ge0(sub(slen(fields), n))) is not True else False)
    if len(alts) != 1 or alts[0].args[1].op != "one":
        return None if tainted(m) else False
    e = unref(alts[0].args[1].args[0])
    k = mk("bv", d)
    if e.op != "adt" or len(e.args) != 4:
        return None
    nm, ix = B(e.args[2]), B(e.args[3])
    if ix is not k:
        return None if tainted(ix) else False
    if nm.op == "fld" and B(nm.args[0]) is sat(fields, k) and nm is field_name(I_, fields, k):
        return True
    return None if tainted(nm) else False

def field_name(I_, fields, k):
    return I_.name_of(sat(fields, k))

def mapping(P, c, name, sub, members):
    t = struct_type(P, name)
    if t is None:
        return c.ob(None, name, "the fixture has no struct %s" % name)
    ff, gd = mapping_fns(P, t)
    if ff is None or gd is None:
        return c.ob(None, name, "no generated mapping for %s" % name)
    fns = field_fns(P)
    what = "struct " + name
    o = {"errkeep": True, "errtexts": True, "recursive": set(fns)}
    try:
        I_, rets, _ = roots.run_method(P, ff, (), o)
    except Inconclusive as e:
        return c.ob(None, what, "the mapping of %s: %s" % (name, e))
    fmt = mk("sym", "self")
    dt = P.types[P.types[ff.locals[1]]["to"]]
    fs = dt["variants"][0]["fields"]
    fi = next(i for i, x in enumerate(fs) if x[0] == "fields")
    fields = fld(fmt, 0, fi, dt["path"], len(fs))
    ft = S.value_types(P, "def::Field")
    fl = ft["variants"][0]["fields"]
    ni = next(i for i, x in enumerate(fl) if x[0] == "name")
    I_.name_of = lambda el: fld(el, 0, ni, ft["path"], len(fl))
    req = [l for _, l, o_ in members if not o_]
    lit = lambda l: mk("lit", l.encode())
    oks = []
    for s, v in rets:
        r = result_of(P, v)
        if r is None:
            c.ob(None, what + ": mapping", "the mapping of %s gives %s" % (name, short(v)))
            continue
        maps = {}
        for l in s.facts.lits:
            for m, x in lookups(l, fields):
                maps.setdefault(m, set()).add(x)
        known = {}
        for m, xs in maps.items():
            b = by_name(I_, s.facts, m, fields)
            if b is None:
                c.ob(None, what + ": lookup", "names are looked up in %s" % short(m))
            elif b is False:
                c.ob(False, what + ": lookup", "the mapping of %s looks names up in %s, which is not 'each field's name with its position'" % (name, short(m)))
            for x in xs:
                e = s.facts.ev(mk("has", m, x))
                if e is not None and b:
                    known[x.args[0].decode("utf8", "replace")] = e
        for l, b in searched(I_, s.facts, fields).items():
            known.setdefault(l, b)
        if r[0] == 0:
            oks.append((s, r[1], known))
            for l in req:
                k = known.get(l)
                c.ob(True if k else (False if k is False else None), what + ": required member " + l,
                     "the mapping of %s succeeds although the definition has no field named %s" % (name, l) if k is False else "a mapping of %s that does not ask for the field %s" % (name, l))
            continue
        # an error: some required member is missing, and all the missing ones are named
        miss = [l for l in req if known.get(l) is False]
        unk = [l for l in req if l not in known]
        tx = error_text(P, r[1])
        if not miss:
            bad = tainted(r[1]) or unk or not maps
            c.ob(None if bad else False, what + ": refusal", "the mapping of %s is refused (%s) although the definition has every required field" % (name, short(r[1])))
            continue
        for l in miss + unk:
            c.count("missing members reported")
            if tx is None:
                c.ob(None, what + ": names missing", "the error for a definition without %s is %s" % (l, short(r[1])))
            else:
                c.ob(named(tx, l), what + ": missing " + l, "the definition of %s lacks %s; the error text is %r, which does not name %s" % (sub, ", ".join(miss), tx, l),
                     sample="%s without %s: error %r" % (name, ", ".join(miss), tx))
    if not oks:
        c.ob(False if not any(k.startswith(what) for k in c.notes) else None, what + ": mapping", "no mapping of %s ever succeeds" % name)
    at = P.types[P.types[gd.locals[2]]["to"]]
    afs = at["variants"][0]["fields"]
    ai = next(i for i, x in enumerate(afs) if x[0] == "fields")
    done = 0
    for s, acc, known in oks:
        st, fid = roots.start(I_, gd, [None] * gd.argc)
        st.facts = s.facts
        st.store[("s", "ACC")] = acc
        st.store[(fid, 1)] = mk("ref", ("s", "ACC"), ())
        st.store[(fid, 2)] = roots.mem_sym(I_, st, "data", P.types[gd.locals[2]]["to"])
        data = fld(mk("sym", "data"), 0, ai, at["path"], len(afs))
        try:
            rs = roots.run_root(I_, gd, st, fid)
        except Inconclusive as e:
            c.ob(None, what + ": reading", "reading %s: %s" % (name, e))
            continue
        for s2, v in rs:
            done += reading(P, c, I_, name, t, members, fields, data, s2, unref(v), known, fns)
    if oks and not done:
        c.ob(None, what + ": reading", "no reading of %s succeeds" % name)
    for e in I_.events:
        if e.kind == "opaque":
            c.ob(None, what + ": unmodelled", "the mapping of %s uses %s" % (name, e.detail))

def named(tx, l):
    import re
    return re.search(r"(?<![\w])%s(?![\w])" % re.escape(l), tx) is not None

def error_text(P, e):
    """the constant text inside an error value"""
    if e.op != "adt":
        return None
    for x in e.args[2:]:
        x = B(x)
        if x.op == "lit":
            return x.args[0].decode("utf8", "replace")
        ps = E.parts(x)
        if ps and all(p.op in ("lit", "text") for p in ps):
            return "".join(p.args[0].decode("utf8", "replace") if p.op == "lit" else "\0" for p in ps)
    return None

def searches(I_, fields):
    """[(name, loop)] of the loops that pass over the fields until one has that name"""
    for L in I_.loops.values():
        nm = field_name(I_, fields, L["k"])
        names = None
        for cnd in L["conds"]:
            ns = {B(x).args[0] for y in F.walk(cnd) if y.op == "not" and y.args[0].op == "eq" and any(B(z) is nm for z in y.args[0].args)
                  for x in y.args[0].args if B(x).op == "lit"}
            names = ns if names is None else names & ns
        for n in names or ():
            yield n.decode("utf8", "replace"), L

def searched(I_, f, fields):
    """{name: found?} for the searches this path has made"""
    out = {}
    for n, L in searches(I_, fields):
        if f.ev(ge0(sub(L["kx"], slen(fields)))) is True:
            out[n] = False
        elif found(I_, f, fields, n, L):
            out[n] = True
    return out

def found(I_, f, fields, n, L):
    nm = field_name(I_, fields, L["kx"])
    lit = mk("lit", n.encode())
    return f.ev(eq(nm, lit)) is True or f.ev(mk("eq", lit, nm)) is True or f.ev(mk("eq", nm, lit)) is True

def slot(I_, f, i, fields):
    """(name looked up, is the map right) of a position"""
    i = B(i)
    for n, L in searches(I_, fields):
        if i is L["kx"] and found(I_, f, fields, n, L):
            return n, True
    if i.op == "mget" and unref(i.args[1]).op == "lit":
        return unref(i.args[1]).args[0].decode("utf8", "replace"), by_name(I_, f, i.args[0], fields)
    return None, None

def reading(P, c, I_, name, t, members, fields, data, s, v, known, fns):
    f = s.facts
    what = "struct " + name
    types = {x[0].replace("r#", ""): x[1] for x in t["variants"][0]["fields"]}
    order = [x[0].replace("r#", "") for x in t["variants"][0]["fields"]]
    r = result_of(P, v)
    c.count("readings")
    if r is None:
        p, a = rcall(P, v)
        if p is not None and p.endswith("::from_field"):
            c.ob(True, what + ": type error")          # the extraction's own error is the result
            return 0
        c.ob(None, what + ": reading", "reading %s gives %s" % (name, short(v)))
        return 0
    if r[0] == 1:
        failed = [y for y in f.lits if y.op == "cmp"] and None
        cs = [p for p, a in calls_in(P, r[1])]
        if cs:
            c.ob(True, what + ": type error")
            return 0
        bad = failing_extraction(P, f)
        if bad and r[1].op == "adt" and variant_name(P, r[1]) != "TypeMismatch":
            c.ob(False, what + ": type error", "reading %s: extracting a field fails and the result is the error %s" % (name, short(r[1])))
        elif bad:
            c.ob(None, what + ": type error", "reading %s: extracting a field fails and the result is %s" % (name, short(r[1])))
        elif out_of_data(f, data):
            c.ob(True, what + ": data too short")
        else:
            c.ob(None if tainted(r[1]) else False, what + ": reading refused", "reading %s fails with %s although every field is there and of its type" % (name, short(r[1])))
        return 0
    m = r[1]
    if m.op != "adt" or m.args[0] != CRATE + name:
        c.ob(None, what + ": reading", "reading %s gives %s" % (name, short(m)))
        return 0
    for mem, logname, opt in members:
        c.count("members followed")
        key = "%s.%s" % (name, mem)
        x = unref(m.args[2 + order.index(mem)])
        ty = P.types[types[mem]]["s"]
        if opt:
            if x.op != "adt":
                c.ob(None, key, "%s is %s" % (key, short(x)))
                continue
            if x.args[1] == 0:
                k = known.get(logname)
                c.ob(True if k is False else (False if k else None), key, "%s is None %s the definition has a field named %s" % (key, "although" if k else "and it is not known whether", logname))
                continue
            x = unref(x.args[2])
            ty = ty[ty.index("<") + 1:-1]
        pl = payload_of(x)
        p, a = rcall(P, pl) if pl is not None else (None, None)
        if p is None or not p.endswith("::from_field"):
            c.ob(False if not tainted(x) and x.op in ("int", "adt", "lit") or x.op == "adt" and not opt else None, key, "%s is %s, not the value of the field %s" % (key, short(x), logname))
            continue
        g = [h for h in fns.values() if h.path == p and ok_type(P, h) == ty]
        if not g:
            c.ob(False, key + " type", "%s has type %s, the field is extracted by %s" % (key, ty, p))
        el = B(a[0])
        if el.op != "at" or B(el.args[0]) is not data:
            c.ob(None if tainted(el) else False, key, "%s is extracted from %s" % (key, short(el)))
            continue
        n, right = slot(I_, f, el.args[1], fields)
        if n is None:
            c.ob(False if el.args[1].op == "int" else None, key, "%s is read at position %s" % (key, short(el.args[1])))
        elif n != logname:
            c.ob(False, key, "%s is read at the position of the field %r; its name in the log is %r" % (key, n, logname))
        else:
            c.ob(right, key, "%s is looked up in a map that is not by name" % key, sample="%s <- field %r, as %s" % (key, logname, ty))
            if opt and known.get(logname) is False:
                c.ob(False, key + " presence", "%s is Some although the definition has no field named %s" % (key, logname))
    return 1

def failing_extraction(P, f):
    """did a summarised extraction fail on this path"""
    for l in f.lits:
        for y in F.walk(l):
            if y.op == "discr" and rcall(P, y.args[0])[0] is not None and rcall(P, y.args[0])[0].endswith("::from_field"):
                if f.zero(y) is False:
                    return True
    return False

def out_of_data(f, data):
    """does the path know that some position is not in the data"""
    n = slen(data)
    for l in f.lits:
        for y in F.walk(l):
            if y.op in ("mget", "lvx", "lv", "fld", "at") and y is not n and f.ev(ge0(sub(y, n))) is True:
                return True
    return False

# ---------------------------------------------------------------- the derived iterator (C27)
# enum -> (catch-all variant, [(variant, struct)])
ENUMS = {
    "Forwarding": ("Rest", [("Position", "VehicleLocalPosition"), ("One", "First"), ("Two", "Second"), ("Shapes", "Shapes")]),
    "Plain": (None, [("One", "First"), ("Rows", "EscStatus2Rows"), ("Shapes", "Shapes"), ("Two", "Second")]),
    "Others": ("Unmapped", [("A", "OtherScalars"), ("B", "UnsignedArrays"), ("C", "SignedArrays"), ("D", "OtherArrays"), ("E", "Swapped"), ("F", "Nested"), ("G", "AllOptional")]),
}
RES = "core::result::Result"

def c27(_, pid, tier, t0):
    c = Col()
    P = program(c)
    if P is not None:
        for en in ENUMS:
            Iter(P, c, en).all()
        c.floor("scenarios", 60, "every kind of message, subscriptions that match, match in name only, or do not match")
        c.floor("routed variants", 15, "the variants of the fixture enums")
    return ck.report(pid, c, tier, t0, C27_RULE)

class Iter:
    """the `next` of the iterator derived for an enum, run on one kind of message at a time"""
    def __init__(self, P, c, en):
        self.P, self.c, self.en = P, c, en
        self.catch, self.vs = ENUMS[en]
        self.f = None
        et = struct_type(P, en)
        for f in P.fns.values():
            if f.name == "next" and (f.j.get("impl_trait") or "").endswith("::Iterator") and et is not None:
                t = P.types[f.locals[0]]            # Option<Result<Enum, _>>
                if t.get("path") == OPT:
                    r = P.types[t["args"][0]]
                    if r.get("path") == RES and P.types[r["args"][0]].get("s") == et["s"]:
                        self.f = f
        self.et = et
        self.pn = next((f for f in P.fns.values() if f.name == "next" and (f.j.get("impl_trait") or "").endswith("::Iterator")
                        and P.types[P.types[f.locals[1]].get("to", f.locals[1])].get("path", "").endswith("::ULogParser")), None)
        self.gf = next((f for f in P.fns.values() if f.name == "get_format" and f.path.startswith("yule_log::")), None)
        self.mt = S.value_types(P, "msg::UlogMessage")
        if self.f is None or self.pn is None or self.mt is None:
            c.ob(None, en, "no derived iterator for %s" % en)
            self.f = None

    def parts(self, kind):
        """(message, payload symbol, payload type)"""
        i = next((i for i, v in enumerate(self.mt["variants"]) if v["name"] == kind), None)
        v = self.mt["variants"][i]
        xs = []
        for j, fl in enumerate(v["fields"]):
            xs.append((mk("sym", "%s.%d" % (kind, j)), fl[1]))
        return adt(self.mt["path"], i, *[x for x, _ in xs]), xs

    def field(self, x, tid, name):
        t = self.P.types[tid]
        fs = t["variants"][0]["fields"]
        i = next(i for i, q in enumerate(fs) if q[0] == name)
        return fld(x, 0, i, t["path"], len(fs)), fs[i][1]

    def run(self, item, what, ann=(), assume=None, more=()):
        """[(state, 'ret', value) | (state, 'back', None)], the interpreter"""
        P = self.P
        def rec(I, st, g, args, cc):
            if g.key != self.pn.key:
                return None
            s = st.copy()
            r = args[0]
            if r.op == "ref":
                p = mk("sym", "parser'")
                I.ann(p, P.types[g.locals[1]]["to"])
                I.wr(s, r.args[0], r.args[1], p)
            return [(s, item)]
        ks = nested_fns(P) | {self.pn.key} | ({self.gf.key} if self.gf else set())
        I_ = interp.Interp(P, {"errkeep": True, "errtexts": True, "recursive": ks, "recursion": rec})
        for x, t in ann:
            I_.ann(x, t)
        st, fid = roots.start(I_, self.f, [None])
        st.store[(fid, 1)] = roots.mem_sym(I_, st, "self", P.types[self.f.locals[1]]["to"])
        if assume is not None:
            for l in assume(I_):
                st.facts = st.facts.assume(l)
        try:
            rets = roots.run_root(I_, self.f, st, fid)
        except Inconclusive as e:
            self.c.ob(None, "%s: %s" % (self.en, what), "%s on %s: %s" % (self.en, what, e))
            return None, []
        for e in I_.events:
            if e.kind == "opaque":
                self.c.ob(None, "%s: %s: unmodelled" % (self.en, what), "the iterator of %s uses %s" % (self.en, e.detail))
        out = [(s, "ret", unref(v)) for s, v in rets]
        for L in I_.loops.values():
            if L["fn"] == self.f.path:
                out += [(b, "back", L) for b in L["backs"]]
        self.c.count("scenarios")
        return I_, out

    def table(self, I_, s, kind):
        """(the map of the subscribed ids before, after) this step"""
        P = self.P
        tid = P.types[self.f.locals[1]]["to"]
        t = P.types[tid]
        for i, fl in enumerate(t["variants"][0]["fields"]):
            m = P.types[I_.strip(fl[1])]
            if m.get("path", "").split("::")[-1] in ("HashMap", "BTreeMap") and P.types[m["args"][0]].get("s") == "u16":
                return self.before(I_, i, t, kind), I_.rd(s, ("s", "self"), (("f", 0, i, t["path"], len(t["variants"][0]["fields"])),))
        return None, None

    def before(self, I_, i, t, kind):
        """the i-th member of the iterator at the start of the step"""
        n = len(t["variants"][0]["fields"])
        v = fld(mk("sym", "self"), 0, i, t["path"], n)
        for L in I_.loops.values():
            if L["fn"] == self.f.path and L["leaves"]:
                v = I_.rd(L["header"], ("s", "self"), (("f", 0, i, t["path"], n),))
                if kind != "back":
                    v = subst(v, {l.lv: mk("lvx", *l.lv.args) for l in L["leaves"].values()})
        return v

    def flag(self, I_, s, kind):
        """the only switch of the iterator: (before, after)"""
        t = self.P.types[self.P.types[self.f.locals[1]]["to"]]
        fs = t["variants"][0]["fields"]
        bs = [i for i, fl in enumerate(fs) if self.P.types[fl[1]].get("s") == "bool"]
        if len(bs) != 1:
            return None, None
        return self.before(I_, bs[0], t, kind), I_.rd(s, ("s", "self"), (("f", 0, bs[0], t["path"], len(fs)),))

    def wrap(self, variant, *xs):
        i = next(i for i, v in enumerate(self.et["variants"]) if v["name"] == variant)
        return adt(self.et["path"], i, *xs)

    def item(self, v):
        """('none'|'ok'|'err'|'res', payload) of a returned Option<Result<Enum, _>>"""
        v = unref(v)
        if v.op != "adt":
            return None, v
        if v.args[1] == 0:
            return "none", None
        r = unref(v.args[2])
        q = result_of(self.P, r)
        if q is not None:
            return ("ok" if q[0] == 0 else "err"), q[1]
        return "res", r

    # ------------------------------------------------------------ the kinds of items
    def all(self):
        if self.f is None:
            return
        c, en = self.c, self.en
        rt = self.P.types[self.pn.locals[0]]
        I_, out = self.run(adt(OPT, 0), "the end")
        for s, k, v in out:
            if k == "ret":
                q, x = self.item(v)
                c.ob(True if q == "none" else (None if q is None else False), en + ": end", "when the parser has ended the iterator of %s gives %s" % (en, short(v)), sample="the end of the parser is the end of %s" % en)
        if I_ is not None and not any(k == "ret" for _, k, _ in out):
            c.ob(False, en + ": end", "the iterator of %s does not end when the parser has ended" % en)
        er = mk("sym", "failure")
        et = self.P.types[rt["args"][0]]["args"][1]
        I_, out = self.run(adt(OPT, 1, adt(RES, 1, er)), "an error", [(er, et)])
        for s, k, v in out:
            if k == "back":
                c.ob(False, en + ": error swallowed", "the iterator of %s goes on after an error of the parser without yielding it" % en)
                continue
            q, x = self.item(v)
            has = x is not None and any(y is er for y in F.walk(x))
            c.ob(True if q == "err" and has else (False if q in ("none", "ok") or q == "err" and not tainted(x) else None), en + ": error",
                 "an error of the parser becomes %s" % short(v), sample="an error of the parser is yielded by %s" % en)
        for v in self.mt["variants"]:
            if v["name"] not in ("AddSubscription", "LoggedData"):
                self.other(v["name"])
        self.data()
        self.subscriptions()

    def forwarded(self, s, v, msg, key, what):
        """the step must yield the message, unchanged, in the catch-all variant"""
        q, x = self.item(v)
        want = self.wrap(self.catch, msg)
        ok = q == "ok" and (x is want or same_value(s.facts, x, want))
        self.c.ob(True if ok else (None if q in (None, "res") or x is not None and tainted(x) else False), key, "%s: %s yields %s instead of the message itself as %s" % (what, self.en, short(v), self.catch),
                  sample="%s is yielded unchanged as %s::%s" % (what, self.en, self.catch) if ok else None)

    def other(self, kind):
        c, en = self.c, self.en
        msg, xs = self.parts(kind)
        I_, out = self.run(adt(OPT, 1, adt(RES, 0, msg)), kind, xs)
        if I_ is None:
            return
        key = "%s: %s" % (en, kind)
        n = 0
        for s, k, v in out:
            if k == "back":
                n += 1
                if self.catch:
                    c.ob(False, key + " lost", "a %s message is skipped by %s, which has a catch-all variant" % (kind, en))
                    continue
                self.unchanged(I_, s, k, key, "a %s message" % kind)
            elif self.catch:
                n += 1
                self.forwarded(s, v, msg, key, "a %s message" % kind)
            else:
                q, x = self.item(v)
                c.ob(None if q is None else False, key, "a %s message makes %s yield %s; there is no catch-all variant" % (kind, en, short(v)))
        if not n:
            c.ob(None, key, "no outcome for %s" % kind)

    def unchanged(self, I_, s, k, key, what):
        b, a = self.table(I_, s, k)
        if b is None:
            return self.c.ob(None, key + " table", "no table of subscribed ids")
        self.c.ob(True if a is b else (None if tainted(a) else False), key + " table", "%s changes the table of subscribed ids to %s" % (what, short(a)))

    def data(self):
        c, en, P = self.c, self.en, self.P
        msg, xs = self.parts("LoggedData")
        dm, dt = xs[0]
        I_, out = self.run(adt(OPT, 1, adt(RES, 0, msg)), "LoggedData", xs)
        if I_ is None:
            return
        mid, _ = self.field(dm, dt, "msg_id")
        body, _ = self.field(dm, dt, "data")
        done = set()
        for s, k, v in out:
            b, a = self.table(I_, s, k)
            if b is None:
                c.ob(None, en + ": data table", "no table of subscribed ids")
                continue
            self.unchanged(I_, s, k, en + ": data", "a data message")
            h = s.facts.ev(mk("has", b, mid))
            key = en + ": data"
            if h is None:
                c.ob(None, key, "a data message is handled without looking its id up")
            elif h is False:
                if k == "back":
                    c.ob(not self.catch, key + " lost", "a data message of an id that is not mapped is skipped by %s, which has a catch-all variant" % en)
                elif self.catch:
                    self.forwarded(s, v, msg, key + " unmapped", "a data message of an id that is not mapped")
                else:
                    q, x = self.item(v)
                    c.ob(None if q is None else False, key + " unmapped", "a data message of an id that is not mapped makes %s yield %s" % (en, short(v)))
            elif k == "back":
                c.ob(False, key + " skipped", "a data message of a mapped id is skipped by %s" % en)
            else:
                self.routed(I_, s, v, b, mid, body, done)
        for vn, sn in self.vs:
            c.count("routed variants")
            c.ob(True if vn in done else None, "%s::%s routed" % (en, vn), "no path yields %s::%s" % (en, vn))

    def accessor_of(self, path):
        """the struct whose mapping a from_format / get_data function belongs to"""
        for vn, sn in self.vs:
            t = struct_type(self.P, sn)
            ff, gd = mapping_fns(self.P, t)
            if gd is not None and gd.path == path:
                return vn, "get"
            if ff is not None and ff.path == path:
                return vn, "from"
        return None, None

    def routed(self, I_, s, v, table, mid, body, done):
        """a mapped id: the reading, by the accessor the id is mapped to, as the variant of that accessor"""
        c, en, P = self.c, self.en, self.P
        q, x = self.item(v)
        key = en + ": data"
        if q == "ok":
            if x.op != "adt" or x.args[0] != self.et["path"]:
                return c.ob(None, key, "a data message becomes %s" % short(x))
            vn = self.et["variants"][x.args[1]]["name"]
            if vn == self.catch:
                return c.ob(False, key + " misrouted", "a data message of a mapped id is yielded as the catch-all variant of %s" % en)
            pl = payload_of(unref(x.args[2]))
            p, a = rcall(P, pl) if pl is not None else (None, None)
        elif q == "res" or q == "err":
            vn = None
            p, a = rcall(P, x)
            if p is None and q == "err":
                pl = payload_of(x, 1)
                p, a = rcall(P, pl) if pl is not None else (None, None)
                if p is None:
                    cs = [z for z in calls_in(P, x) if z[0].endswith("::get_data")]
                    p, a = cs[0] if len(cs) == 1 else (None, None)
        else:
            return c.ob(False if q == "none" else None, key, "a data message of a mapped id makes %s yield %s" % (en, short(v)))
        if p is None:
            return c.ob(None if x is None or tainted(x) or q != "err" else False, key, "a data message of a mapped id becomes %s" % short(x))
        rv, how = self.accessor_of(p)
        if how != "get":
            return c.ob(None, key, "a data message of a mapped id is read by %s" % p)
        if vn is not None:
            c.ob(vn == rv, "%s::%s" % (en, vn), "a data message read as %s is yielded as the variant %s" % (dict(self.vs)[rv], vn), sample="data mapped to %s is yielded as %s::%s" % (dict(self.vs)[rv], en, vn))
            done.add(vn)
        acc, on = B(a[0]), B(a[1])
        c.ob(True if on is body else (None if tainted(on) else False), key + " body", "the message is read from %s, not from its own data" % short(on))
        if acc.op == "fld" and B(acc.args[0]).op == "mget":
            m = B(acc.args[0])
            right = m.args[0] is table and B(m.args[1]) is mid
            c.ob(True if right else (None if tainted(m) else False), key + " lookup", "the accessor comes from %s, not from the entry of the message's id" % short(m))
        else:
            c.ob(None, key + " lookup", "the accessor is %s" % short(acc))

    # ------------------------------------------------------------ subscriptions
    def subscriptions(self, only=None):
        c, en, P = self.c, self.en, self.P
        msg, xs = self.parts("AddSubscription")
        sm, st_ = xs[0]
        name, nt = self.field(sm, st_, "message_name")
        multi, _ = self.field(sm, st_, "multi_id")
        mid, _ = self.field(sm, st_, "msg_id")
        lits = sorted({SPEC[sn][0] for _, sn in self.vs})
        L = lambda t: mk("lit", t.encode())
        item = adt(OPT, 1, adt(RES, 0, msg))
        for vn, sn in self.vs:
            sub_, inst, _ = SPEC[sn]
            what = "a subscription to %s instance %d" % (sub_, inst)
            I_, out = self.run(item, what, xs, lambda I_: [eq(name, L(sub_)), ieq(multi, I(inst)), ieq(slen(name), I(len(sub_)))])
            if I_ is not None:
                self.mapped(I_, out, vn, sn, name, mid, what)
        if only:
            return
        for l in lits:
            ms = [SPEC[sn][1] for _, sn in self.vs if SPEC[sn][0] == l]
            what = "a subscription to %s with another instance" % l
            I_, out = self.run(item, what, xs, lambda I_: [eq(name, L(l)), ieq(slen(name), I(len(l)))] + [not_(ieq(multi, I(m))) for m in ms])
            if I_ is not None:
                self.unmapped(I_, out, msg, mid, what)
        what = "a subscription to another name"
        I_, out = self.run(item, what, xs, lambda I_: [not_(eq(name, L(l))) for l in lits])
        if I_ is not None:
            self.unmapped(I_, out, msg, mid, what)

    def entry(self, f, m, before, mid):
        """what the map m (made from `before`) holds for mid: ('set', value) | ('gone', None) | ('old', None) | None"""
        while m is not before:
            if m.op == "mins":
                if m.args[1] is mid or f.same(m.args[1], mid) is True:
                    return "set", unref(m.args[2])
                return None
            if m.op == "mrem":
                if m.args[1] is mid or f.same(m.args[1], mid) is True:
                    return "gone", None
                return None
            if m.op == "mnew":
                return "gone", None
            return None
        h = f.ev(mk("has", before, mid))
        return ("gone" if h is False else "old"), None

    def elsewhere(self, m, before, mid, f):
        """are the entries of other ids untouched"""
        while m is not before:
            if m.op in ("mins", "mrem"):
                if not (m.args[1] is mid or f.same(m.args[1], mid) is True):
                    return None if tainted(m) else False
                m = m.args[0]
                continue
            return False if m.op == "mnew" else None
        return True

    def mapped(self, I_, out, vn, sn, name, mid, what):
        c, en, P = self.c, self.en, self.P
        key = "%s::%s subscription" % (en, vn)
        t = struct_type(P, sn)
        n = 0
        for s, k, v in out:
            b, a = self.table(I_, s, k)
            if b is None:
                c.ob(None, key + " table", "no table of subscribed ids")
                continue
            e = self.entry(s.facts, a, b, mid)
            ew = self.elsewhere(a, b, mid, s.facts)
            c.ob(ew, key + " others", "%s changes entries of other ids: %s" % (what, short(a)))
            if k == "ret":
                q, x = self.item(v)
                if q == "ok":
                    c.ob(False, key + " yielded", "%s, which is mapped, is yielded by %s as %s" % (what, en, short(x)))
                    continue
                if q == "none" or q is None:
                    c.ob(False if q else None, key, "%s makes %s yield %s" % (what, en, short(v)))
                    continue
                cs = [p for p, _ in calls_in(P, x)] + [rcall(P, x)[0]]
                good = any(p and (p.endswith("::get_format") or p.endswith("::from_format")) for p in cs)
                c.ob(True if good else (None if tainted(x) else False), key + " error", "%s makes %s yield the error %s" % (what, en, short(x)), sample="a failing mapping is yielded as an error by %s" % en)
                if e is None:
                    c.ob(None, key + " stale", "after a failing mapping the table is %s" % short(a))
                else:
                    c.ob(e[0] != "old", key + " stale", "when the mapping of %s fails the previous mapping of its id stays" % what)
                continue
            n += 1
            if e is None:
                c.ob(None, key, "%s leaves the table %s" % (what, short(a)))
                continue
            if e[0] != "set":
                c.ob(False, key, "%s does not map its id (the struct %s has that name and instance)" % (what, sn))
                continue
            x = e[1]
            if x.op == "adt" and len(x.args) > 2:
                x = unref(x.args[2])
            pl = payload_of(x)
            p, ar = rcall(P, pl) if pl is not None else (None, None)
            rv, how = self.accessor_of(p) if p else (None, None)
            if how != "from":
                c.ob(None, key, "%s maps its id to %s" % (what, short(x)))
                continue
            c.ob(rv == vn or dict(self.vs)[rv] == sn, key, "%s maps its id to the struct %s instead of %s" % (what, dict(self.vs)[rv], sn), sample="%s maps its id to %s" % (what, sn))
            d = B(ar[0])
            g = [z for z in calls_in(P, d) if z[0].endswith("::get_format")]
            if len(g) != 1:
                c.ob(None, key + " definition", "the mapping is made for %s" % short(d))
                continue
            nm = B(g[0][1][1])
            ok = nm is name or s.facts.same(nm, name) is True or nm.op == "lit" and nm.args[0].decode("utf8", "replace") == SPEC[sn][0]
            c.ob(True if ok else (None if tainted(nm) else False), key + " definition", "the mapping is made for the definition of %s" % short(nm))
        if not n:
            c.ob(None if any(x.startswith(en) for x in c.notes) else False, key, "%s never maps its id" % what)

    def unmapped(self, I_, out, msg, mid, what):
        c, en, P = self.c, self.en, self.P
        key = "%s: %s" % (en, what)
        n = 0
        for s, k, v in out:
            n += 1
            b, a = self.table(I_, s, k)
            if b is None:
                c.ob(None, key + " table", "no table of subscribed ids")
                continue
            e = self.entry(s.facts, a, b, mid)
            if e is None:
                c.ob(None, key + " table", "%s leaves the table %s" % (what, short(a)))
            else:
                c.ob(e[0] == "gone", key + " stale", "%s leaves the previous mapping of its id (or maps it): %s" % (what, short(a)))
            c.ob(self.elsewhere(a, b, mid, s.facts), key + " others", "%s changes entries of other ids: %s" % (what, short(a)))
            fl, fa = self.flag(I_, s, k)
            c.ob(True if fl is fa else (None if fl is None or tainted(fa) else False), key + " switch", "%s changes the forwarding switch to %s" % (what, fa is not None and short(fa)))
            on = s.facts.ev(fl) if fl is not None else None
            if k == "back":
                if not self.catch:
                    c.ob(True, key)
                else:
                    c.ob(True if on is False else (False if on else None), key + " not forwarded", "%s is skipped by %s %s" % (what, en, "although forwarding is on" if on else "whether or not forwarding is on"))
            elif not self.catch:
                q, x = self.item(v)
                c.ob(None if q is None else False, key, "%s makes %s yield %s" % (what, en, short(v)))
            else:
                if on is not True:
                    c.ob(False if on is False else None, key + " unasked", "%s is yielded by %s although forwarding is not on" % (what, en))
                self.forwarded(s, v, msg, key, what)
        if not n:
            c.ob(None, key, "no outcome")

def same_value(f, x, y):
    """the same value, up to references and equal parts"""
    x, y = B(x), B(y)
    if x is y:
        return True
    if x.op == "adt" and y.op == "adt" and x.args[:2] == y.args[:2] and len(x.args) == len(y.args):
        return all(same_value(f, p, q) for p, q in zip(x.args[2:], y.args[2:]))
    # a struct rebuilt from its own fields
    if x.op == "adt" and y.op != "adt" and x.args[1] == 0 and x.args[2:]:
        return all(B(p).op == "fld" and B(B(p).args[0]) is y and B(p).args[2] == i for i, p in enumerate(x.args[2:]))
    return f.same(x, y) is True

# ---------------------------------------------------------------- builders (C28)
# fixture function -> (enum, [extra names: ("one"|"all", argument)], forwarding: argument or False, refused: None | True | argument that asks)
USES = {
    "plain_of_forwarding": ("Forwarding", [], False, None),
    "plain_of_plain": ("Plain", [], False, None),
    "plain_of_others": ("Others", [], False, None),
    "built_of_forwarding": ("Forwarding", [], False, None),
    "built_of_plain": ("Plain", [], False, None),
    "added": ("Forwarding", [("one", 1)], False, None),
    "added_twice": ("Forwarding", [("one", 1), ("one", 2)], False, None),
    "extended": ("Forwarding", [("all", 1)], False, None),
    "extended_then_added": ("Forwarding", [("all", 1), ("one", 2)], False, None),
    "all_options": ("Forwarding", [("one", 1), ("all", 2)], 3, None),
    "options_reversed": ("Others", [("one", 1), ("all", 2)], 3, None),
    "forwarded": ("Forwarding", [], 1, None),
    "forwarded_last": ("Forwarding", [], 2, None),
    "refused_added": ("Plain", [("one", 1)], False, True),
    "refused_extended": ("Plain", [("all", 1)], False, True),
    "refused_forwarded": ("Plain", [], False, 1),
}

def c28(_, pid, tier, t0):
    c = Col()
    P = program(c)
    if P is not None:
        for n in USES:
            use(P, c, n)
        c.floor("uses analysed", len(USES), "the ways of building a stream in the fixture")
    return ck.report(pid, c, tier, t0, C28_RULE)

def run_use(P, c, n):
    """(interpreter, outcomes, arguments, configurations given to the parser's builder)"""
    f = next((f for f in P.fns.values() if f.path == CRATE + n), None)
    bs = {f.key for f in P.fns.values() if f.name == "build" and f.path.startswith("yule_log::builder::")}
    if f is None or not bs:
        c.ob(None, n, "no function %s in the fixture" % n)
        return None
    built = []
    def rec(I, st, g, args, cc):
        if g.key not in bs:
            return None
        p, e = mk("sym", "parser"), mk("sym", "failed")
        t = P.types[g.locals[0]]
        I.ann(p, t["args"][0])
        I.ann(e, t["args"][1])
        built.append(unref(args[0]))
        return [(st, adt(RES, 0, p)), (st.copy(), adt(RES, 1, e))]
    I_ = interp.Interp(P, {"errkeep": True, "errtexts": True, "recursive": bs, "recursion": rec})
    st, fid = roots.start(I_, f, [None] * f.argc)
    args = []
    for i in range(f.argc):
        v = mk("sym", "arg%d" % i)
        I_.ann(v, f.locals[i + 1])
        st.store[(fid, i + 1)] = v
        args.append(v)
        for y in I_.invariant(v, f.locals[i + 1]):
            st.facts = st.facts.assume(y)
    try:
        rets = roots.run_root(I_, f, st, fid)
    except Inconclusive as e:
        c.ob(None, n, "%s: %s" % (n, e))
        return None
    for e in I_.events:
        if e.kind == "opaque":
            c.ob(None, n + ": unmodelled", "%s uses %s" % (n, e.detail))
    return I_, [(s, unref(v)) for s, v in rets], args, built

def member(P, v, path):
    for t, i, n in path:
        v = unref(v)
        v = v.args[2 + i] if v.op == "adt" else fld(v, 0, i, t, n)
    return unref(v)

def path_to(P, tid, pred, seen=()):
    """members leading from a value of the type to one whose type satisfies pred"""
    t = P.types[tid]
    if pred(P, t):
        return []
    if t["k"] != "adt" or t.get("enum") or t["path"] in seen or not t["path"].startswith("yule_"):
        return None
    fs = t["variants"][0]["fields"]
    for i, fl in enumerate(fs):
        r = path_to(P, fl[1], pred, seen + (t["path"],))
        if r is not None:
            return [(t["path"], i, len(fs))] + r
    return None

def is_name_set(P, t):
    if t.get("path") != OPT:
        return False
    u = P.types[t["args"][0]]
    return u.get("path", "").split("::")[-1] in ("HashSet", "BTreeSet") and P.types[u["args"][0]].get("path", "").endswith("string::String")

def elements(f, w, out):
    """the elements of a sequence: constants, values, ('all', sequence); None for what is not understood"""
    for p in E.parts(w):
        if p.op == "one":
            out.append(("one", B(p.args[0])))
        elif p.op == "sub":
            x, lo, n = p.args
            if lo is ZERO and (n is slen(x) or f.same(n, slen(x)) is True):
                elements(f, x, out)
            else:
                out.append(None)
        elif p.op == "star":
            d, n, _, alts = p.args
            x = B(alts[0].args[1].args[0]) if len(alts) == 1 and alts[0].args[1].op == "one" else None
            if x is not None and x.op == "at" and x.args[1] is mk("bv", d) and (n is slen(x.args[0]) or f.same(n, slen(x.args[0])) is True):
                elements(f, x.args[0], out)
            else:
                out.append(None)
        elif p.op == "sym":
            out.append(("all", p))
        elif p.op == "keys":
            members(f, p.args[0], out)
        else:
            out.append(None)
    return out

def members(f, w, out):
    """the members of a set, as for elements"""
    w = unref(w)
    while w.op == "mins":
        out.append(("one", B(w.args[1])))
        w = unref(w.args[0])
    if w.op == "setof":
        elements(f, w.args[0], out)
    elif w.op != "mnew":
        out.append(None)
    return out

def use(P, c, n):
    en, extras, fwd, refused = USES[n]
    r = run_use(P, c, n)
    if r is None:
        return
    I_, rets, args, built = r
    c.count("uses analysed")
    mapped = {SPEC[sn][0] for _, sn in ENUMS[en][1]}
    want = {("one", args[i]) if k == "one" else ("all", args[i]) for k, i in extras}
    asks = None
    good = 0
    for s, v in rets:
        q = result_of(P, v)
        c.count("outcomes")
        if q is None:
            c.ob(None, n, "%s gives %s" % (n, short(v)))
            continue
        if refused is not None:
            asks = True if refused is True else s.facts.ev(args[refused])
            if extras and extras[0][0] == "all" and s.facts.zero(slen(args[1])) is True:
                asks = False if q[0] == 0 else None
        else:
            asks = False
        if q[0] == 1:
            x = q[1]
            if any(y.op == "sym" and y.args[0] == "failed" for y in F.walk(x)):
                c.ob(True, n + ": failure of the parser")
            elif asks:
                ok = x.op == "adt" and variant_name(P, x) == "InvalidConfiguration"
                c.ob(True if ok else (None if x.op != "adt" else False), n + ": refusal", "%s (the enum has no catch-all variant) is refused with %s" % (n, short(x)), sample="%s is refused with %s" % (n, short(x, 80)))
                good += 1
            elif refused is not None and asks is None:
                c.ob(True if extras else None, n + ": refusal", "%s is refused with %s" % (n, short(x)))
                good += 1
            else:
                c.ob(None if tainted(x) and x.op != "adt" else False, n + ": refused", "%s is refused with %s although the enum can take it" % (n, short(x)))
            continue
        if asks is not False:
            on = bool(asks) or (refused is not True and not tainted(args[refused]) and s.facts.assume(args[refused]) is not None)
            c.ob(False if on else None, n + ": ignored", "%s succeeds although %s has no catch-all variant" % (n, en))
            continue
        good += 1
        it = q[1]
        if it.op != "adt":
            c.ob(None, n + ": stream", "%s gives %s" % (n, short(it)))
            continue
        tid = next((i for i, t in enumerate(P.types) if t.get("path") == it.args[0]), None)
        pth = path_to(P, tid, is_name_set)
        if pth is None:
            c.ob(None, n + ": stream", "no allow list in %s" % it.args[0])
            continue
        a = member(P, it, pth)
        if a.op != "adt":
            c.ob(False if a.op == "fld" and not tainted(a) else None, n + ": allow list", "%s leaves the allow list of the parser at %s" % (n, short(a)))
        elif a.args[1] == 0:
            c.ob(False, n + ": allow list", "%s gives the parser no allow list: every subscription is allowed" % n)
        else:
            w = unref(a.args[2])
            got = members(s.facts, w, [])
            names = {g[1].args[0].decode("utf8", "replace") for g in got if g and g[0] == "one" and g[1].op == "lit"}
            rest = {g for g in got if g and not (g[0] == "one" and g[1].op == "lit")}
            unk = None in got
            for m in sorted(mapped):
                c.ob(True if m in names else (None if unk else False), "%s: %s allowed" % (n, m), "%s does not allow the mapped name %s" % (n, m), sample="%s allows %s" % (n, m))
            for m in sorted(names - mapped):
                c.ob(False, "%s: %s not asked for" % (n, m), "%s allows %s, which is neither mapped nor asked for" % (n, m))
            for e in sorted(want, key=str):
                c.ob(True if e in rest or e[0] == "all" and s.facts.zero(slen(e[1])) is True else (None if unk or any(e[1] in set(F.walk(g[1])) for g in rest) and tainted(w) else False), "%s: extra %s" % (n, args.index(e[1])),
                     "%s does not allow %s, which was asked for" % (n, "the extra name" if e[0] == "one" else "all the extra names"), sample="%s allows the extra names" % n)
            for e in rest - want:
                c.ob(None if tainted(e[1]) else False, n + ": more", "%s allows %s, which is neither mapped nor asked for" % (n, short(e[1])))
            if unk:
                c.ob(None, n + ": allow list", "%s: the allow list is %s" % (n, short(a)))
        fs = P.types[tid]["variants"][0]["fields"]
        fl = [unref(it.args[2 + i]) for i, x in enumerate(fs) if P.types[x[1]].get("s") == "bool"]
        if len(fl) != 1:
            c.ob(None if ENUMS[en][0] else True, n + ": forwarding", "no single switch in %s" % it.args[0])
        elif ENUMS[en][0]:
            w = args[fwd] if fwd is not False else FALSE
            e = s.facts.ev(w)
            e = (TRUE if e else FALSE) if e is not None else w
            g = s.facts.ev(fl[0])
            g = (TRUE if g else FALSE) if g is not None else fl[0]
            c.ob(True if g is e else (None if tainted(g) else False), n + ": forwarding", "forwarding of subscriptions is %s in %s; what was asked for is %s" % (short(fl[0]), n, short(w)),
                 sample="%s: forwarding is %s" % (n, short(w)))
    if not good:
        c.ob(None if any(k.startswith(n) for k in c.notes) else False, n, "%s has no outcome but failures of the parser" % n)

def positions(P, c):
    """the data values must have their fields at the positions of the definition: nothing may be left out"""
    for n in ("plain_of_plain", "all_options"):
        r = run_use(P, c, n)
        if r is None:
            continue
        for b in r[3]:
            t = next((t for t in P.types if b.op == "adt" and t.get("path") == b.args[0]), None)
            if t is None:
                c.ob(None, "positions", "the parser is built from %s" % short(b))
                continue
            for i, fl in enumerate(t["variants"][0]["fields"]):
                if fl[0] in ("include_timestamp", "include_padding"):
                    x = unref(b.args[2 + i])
                    c.count("parser configurations")
                    c.ob(True if x is TRUE else (False if x is FALSE else None), "positions: " + fl[0], "derived streams build the parser with %s = %s: the fields of the data are not at the positions of the definition" % (fl[0], short(x)),
                         sample="derived streams parse with %s" % fl[0])
        if not r[3]:
            c.ob(None, "positions", "%s builds no parser" % n)
