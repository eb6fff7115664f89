"""Array values into scalars, and nested values flattened into named scalars (C32)."""
from terms import *
import terms, roots, interp
import ck, q_fields as F, q_encode as E, q_text as X, q_show as S
from ck import Col, short
from nextq import unref, tainted
from interp import Inconclusive, OPT

C32_RULE = ("Abstract interpretation: splitting is run on each of the twenty-six value kinds with an unknown payload, and its result must be the term 'for every index of the payload, in order, the scalar kind of the same name holding that element' "
            "(None for a scalar). Flattening is run on an unknown value: its result must be a sequence built by one pass over all fields which, on each path, adds exactly one thing for a field - the value under the path, all of a nested value's own flattening under the path, "
            "or one such thing per element of the split array in order - where the path term is the enclosing path, constants and that field's name (and the element's index); recursive calls are checked as one inductive step.")

def c32(P, pid, tier, t0):
    c = Col()
    fv = S.value_types(P, "inst::FieldValue")
    split = method_of(P, "to_scalars", fv)
    if split is None or fv is None:
        c.ob(None, "splitting", "no method named to_scalars")
    else:
        splitting(P, c, split, fv)
    fm = S.value_types(P, "inst::Format")
    fl = method_of(P, "flatten", fm)
    if fl is None:
        c.ob(None, "flattening", "no method named flatten")
    else:
        flattening(P, c, fl, split, fv, fm)
    c.floor("value kinds", 26, "the kinds of values")
    c.floor("flattened cases", 6, "the cases of flattening")
    return ck.report(pid, c, tier, t0, C32_RULE)

def method_of(P, name, t):
    for f in P.fns.values():
        if f.name == name and f.argc and t is not None:
            k = P.types[f.locals[1]]
            if k["k"] == "ref" and P.types[k["to"]].get("path") == t["path"]:
                return f
    return None

# ---------------------------------------------------------------- splitting
def splitting(P, c, f, fv):
    I_ = interp.Interp(P, {"errkeep": True})
    vi = {v["name"]: i for i, v in enumerate(fv["variants"])}
    for nm, val, fs, tids in S.sample_values(P, I_, fv):
        c.count("value kinds")
        st, fid = roots.start(I_, f, [None] * f.argc)
        st.store[("s", "V")] = val
        st.store[(fid, 1)] = mk("ref", ("s", "V"), ())
        n = len(I_.events)
        try:
            rets = roots.run_root(I_, f, st, fid)
        except Inconclusive as e:
            c.ob(None, "split " + nm, "splitting a %s: %s" % (nm, e))
            continue
        for e in I_.events[n:]:
            if e.kind in ("opaque", "rcall"):
                c.ob(None, "split %s: unmodelled" % nm, "splitting uses %s" % (e.detail,))
        for s, v in rets:
            c.count("split results")
            v = unref(v)
            if not nm.startswith("Array"):
                ok = v.op == "adt" and v.args[0] == OPT and v.args[1] == 0
                c.ob(True if ok else (None if tainted(v) or v.op != "adt" else False), "split " + nm, "splitting a %s gives %s" % (nm, short(v)), sample="a scalar is not split")
                continue
            want = vi.get("Scalar" + nm[5:])
            if v.op != "adt":
                c.ob(None if tainted(v) else False, "split " + nm, "splitting a %s gives %s" % (nm, short(v)))
                continue
            if v.args[1] == 0:
                c.ob(None if any(tainted(l) for l in s.facts.lits) else False, "split " + nm, "an array value of kind %s is not split%s" % (nm, S.where(s)))
                continue
            c.ob(all_elements(P, I_, s.facts, unref(v.args[2]), fs[0], tids[0], fv, want), "split " + nm,
                 "splitting a %s gives %s, which is not the scalar of the same type for every element in order" % (nm, short(v)), sample="%s splits into its elements in order" % nm)

def all_elements(P, I_, f, w, x, tid, fv, want):
    """is w the sequence of variant `want` of every element of payload x, in order"""
    ps = E.parts(w)
    if not ps:
        z = f.zero(slen(x))
        return True if z is True else (False if z is False else None)
    i = 0
    for p in ps:
        if p.op == "one" and p is not ps[-1] or p.op == "one" and len(ps) > 1:
            r = element_ok(p.args[0], sat(x, I(i)), want, fv)
            if r is not True:
                return r
            i += 1
            continue
        if p.op != "star" or p is not ps[-1]:
            return None if tainted(p) or p.op in ("res", "sub", "lvx") else False
        d, n, _, alts = p.args
        rest = sub(slen(x), I(i))
        if not (n is rest or f.same(n, rest) is True):
            return None if tainted(n) or not any(y is x for y in F.walk(n)) and n.op in ("lvx",) and not knows(f, n) else False
        for a in alts:
            if f.assume(a.args[0]) is None if not S.has_bv(a.args[0]) else False:
                continue
            q = a.args[1]
            if q.op != "one":
                return None if tainted(q) else False
            r = element_ok(q.args[0], sat(x, add(bv(d), I(i))), want, fv)
            if r is not True:
                return r
    return True

def knows(f, n):
    return any(any(y is n for y in F.walk(l)) for l in f.lits)

def element_ok(v, e, want, fv):
    v = unref(v)
    if v.op != "adt" or v.args[0] != fv["path"]:
        return None if tainted(v) or v.op != "adt" else False
    if v.args[1] != want:
        return False
    y = unref(v.args[2])
    if y is e or y is deref(e):
        return True
    return None if tainted(y) else False

# ---------------------------------------------------------------- flattening
def flattening(P, c, f, split, fv, fm):
    so = next(i for i, v in enumerate(fv["variants"]) if v["name"] == "ScalarOther")
    done, todo = set(), [f]
    while todo:
        g = todo.pop()
        if g.key in done:
            continue
        done.add(g.key)
        try:
            I_, rets, _ = roots.run_method(P, g, (), {"errkeep": True, "recursive": [split.key] if split is not None else [], "argname": g.name + ".arg%d"})
        except Inconclusive as e:
            c.ob(None, "flattening", "%s: %s" % (g.name, e))
            continue
        c.count("functions")
        rec = {}
        for e in I_.events:
            if e.kind == "opaque":
                c.ob(None, "flattening: unmodelled", "%s uses %s" % (g.name, e.detail))
            elif e.kind == "rcall" and e.data[0].key != (split.key if split else None):
                rec[e.data[0].path] = e.data[0]
        todo += rec.values()
        self0, prefix = args_of(P, I_, g, rets, fm)
        for s, v in rets:
            v = unref(v)
            J = Flat(P, I_, c, g, s, self0, prefix, split, rec, so, fv, fm)
            J.result(v)

def base(P, I_, tid):
    t = P.types[I_.strip(tid)]
    while t["k"] in ("ref", "ptr"):
        t = P.types[I_.strip(t["to"])]
    return t

def args_of(P, I_, g, rets, fm):
    """(the value, the enclosing path or None) of a flattening function run on unknown arguments"""
    val = path = None
    for i in range(g.argc):
        t = base(P, I_, g.locals[i + 1])
        nm = "self" if i == 0 else (g.name + ".arg%d") % i
        if t.get("path") == fm["path"]:
            val = mk("sym", nm)
        elif t["k"] == "str" or t.get("path", "").endswith("string::String"):
            path = mk("sym", nm)
    return val, path

class Flat:
    def __init__(J, P, I_, c, g, s, self0, prefix, split, rec, so, fv, fm):
        J.P, J.I, J.c, J.g, J.f, J.self0, J.prefix, J.split, J.rec, J.so, J.fv, J.fm = P, I_, c, g, s.facts, self0, prefix, split, rec, so, fv, fm
        J.fields = F.fproj(I_, P, self0, "inst::Format", "fields") if self0 is not None else None

    def result(J, v):
        c = J.c
        if J.fields is None:
            return c.ob(None, "flattening", "%s takes no value" % J.g.name)
        # the whole result of another flattening function on the same value
        r = J.delegated(v)
        if r is not None:
            return
        ps = E.parts(v)
        if not ps:
            z = J.f.zero(slen(J.fields))
            return c.ob(True if z is True else (False if z is False else None), "flattening: all fields", "%s gives nothing although the value has fields" % J.g.name)
        if len(ps) != 1 or ps[0].op != "star":
            return c.ob(None if len(ps) == 1 and ps[0].op != "one" or any(tainted(p) for p in ps) else None, "flattening: all fields", "the result of %s is not recognised: %s" % (J.g.name, short(v)))
        d, n, _, alts = ps[0].args
        k = n is slen(J.fields) or J.f.same(n, slen(J.fields)) is True
        c.ob(True if k else (None if tainted(n) or not knows(J.f, n) else False), "flattening: all fields", "%s does not visit every field: %s of %s" % (J.g.name, short(n), short(slen(J.fields))),
             sample="every field is visited")
        if not k:
            return
        b = bv(d)
        for a in alts:
            f = J.f.assume(a.args[0])
            c.count("flattened cases")
            if f is None:
                continue
            fld_ = sat(J.fields, b)
            name = F.fproj(J.I, J.P, fld_, "inst::Field", "name")
            value = F.fproj(J.I, J.P, fld_, "inst::Field", "value")
            J.piece(f, a.args[1], value, [("name", name)], False, a.args[0])

    def delegated(J, v):
        """flatten = one call of a recursive function on the same value: its own analysis decides the rest"""
        if v.op == "res" and v.args[0].op == "rcall" and v.args[0].args[0] in J.rec:
            val, path = J.rec_args(v)
            ok = val is J.self0
            J.c.ob(True if ok else None, "flattening: start", "flattening starts at another value")
            return True
        return None

    def rec_args(J, r):
        g = J.rec[r.args[0].args[0]]
        val = path = None
        for i, x in enumerate(r.args[1:]):
            t = base(J.P, J.I, g.locals[i + 1])
            if t.get("path") == J.fm["path"]:
                val = unref(x)
            elif t["k"] == "str" or t.get("path", "").endswith("string::String"):
                path = unref(x)
        return val, path

    def nested_known(J, f, value):
        dv = J.discr(value)
        return f.zero(sub(dv, I(J.so))) if dv is not None else None

    def discr(J, value):
        value = unref(value)
        if value.op == "adt":
            return I(value.args[1])
        return J.I.discr(value, F.ftid(J.P, "inst::Field", "value"))

    def array_known(J, f, value):
        """is the field's value an array: by its kind, by the type of the field, or by the result of splitting"""
        dv = J.discr(value)
        ar = [i for i, v in enumerate(J.fv["variants"]) if v["name"].startswith("Array")]
        zs = {i: f.zero(sub(dv, I(i))) for i in range(len(J.fv["variants"]))}
        if any(z is True for i, z in zs.items() if i in ar) or all(z is False for i, z in zs.items() if i not in ar):
            return True
        if any(z is True for i, z in zs.items() if i not in ar) or all(z is False for i, z in zs.items() if i in ar):
            return False
        if value.op == "fld":
            fl = value.args[0]
            try:
                te = F.fproj(J.I, J.P, fl, "inst::Field", "type")
                sz = F.fproj(J.I, J.P, te, "def::TypeExpr", "array_size")
                z = f.zero(J.I.discr(sz, F.ftid(J.P, "def::TypeExpr", "array_size")))
                if z is not None:
                    return z is False
            except Exception:
                return None
        return None

    def piece(J, f, w, value, names, element, cond):
        """exactly one thing for this value: the value under its path, a nested value's whole flattening, or one thing per element"""
        c, g = J.c, J.g
        what = "an array element" if element else "a field"
        odd = tainted(w) or any(tainted(l) for l in f.lits)
        nk = J.nested_known(f, value)
        if w.op == "one":
            t = unref(w.args[0])
            if t.op != "adt" or t.args[0] != "()" or len(t.args) != 4:
                return c.ob(None, "flattening: entries", "%s adds %s" % (g.name, short(t)))
            path, v = unref(t.args[2]), unref(t.args[3])
            same = v is value or v is deref(value) or v is unref(value)
            c.ob(True if same else (None if odd else False), "flattening: value", "%s adds %s for %s instead of its value" % (g.name, short(v), what), sample="the entry holds the value itself")
            c.ob(True if nk is False else (False if nk is True or not odd else None), "flattening: nested", "%s adds %s as it is even when it is a nested value" % (g.name, what), sample="nested values are flattened")
            if not element:
                ak = J.array_known(f, value)
                c.ob(True if ak is False else (False if ak is True else None), "flattening: arrays", "%s adds an array %s without splitting it" % (g.name, what), sample="arrays are split")
            J.path(f, path, names)
            return
        if w is EMPTY:
            if nk is True or not odd:
                c.ob(None if J.empty_case(f, cond, value) else False, "flattening: every value", "%s adds nothing for %s%s" % (g.name, what, lits(f)))
            else:
                c.ob(None, "flattening: every value", "%s adds nothing for %s%s" % (g.name, what, lits(f)))
            return
        r = w
        if r.op == "sub" and f.zero(r.args[1]) is True:
            full = J.f.same(r.args[2], slen(r.args[0])) is True or f.same(r.args[2], slen(r.args[0])) is True
            if r.args[0].op == "res":
                c.ob(True if full else (None if not knows(f, r.args[2]) else False), "flattening: nested", "%s keeps %s entries of a nested value" % (g.name, short(r.args[2])), sample="all of a nested value is kept")
                r = r.args[0]
        if r.op == "res" and r.args[0].op == "rcall" and r.args[0].args[0] in J.rec:
            val, path = J.rec_args(r)
            x = unref(J.I.proj1(value, ("f", J.so, 0, J.fv["path"], 1, J.fv["variants"][J.so]["fields"][0][1])))
            same = val is x or val is deref(x)
            c.ob(True if same else (None if odd else False), "flattening: nested", "%s flattens %s in place of the nested value" % (g.name, short(val) if val is not None else "?"), sample="the nested value of the field is flattened")
            if path is not None:
                J.path(f, path, names)
            else:
                c.ob(None, "flattening: path", "%s passes no path on" % g.name)
            return
        if r.op == "star" and not element:
            d, n, _, alts = r.args
            els = J.elements(n, f, value, alts)
            if els is None:
                return c.ob(None if odd or not knows(f, n) else None, "flattening: elements", "%s: which elements are visited is not known: %s" % (g.name, short(w)))
            arr, full = els
            c.ob(full, "flattening: elements", "%s does not visit every element: %s" % (g.name, short(n)), sample="every element is visited")
            for a in alts:
                h = f.assume(a.args[0])
                c.count("flattened cases")
                if h is not None:
                    J.piece(h, a.args[1], sat(arr, bv(d)), names + [("index", bv(d))], True, a.args[0])
            return
        ps = E.parts(w)
        if len(ps) > 1 and all(p.op in ("one", "res") or p.op == "sub" and p.args[0].op == "res" for p in ps) and not odd:
            return c.ob(False, "flattening: once", "%s adds %d things for %s" % (g.name, len(ps), what))
        c.ob(None, "flattening: entries", "%s adds %s for %s" % (g.name, short(w), what))

    def empty_case(J, f, cond, value):
        """could the nothing be right: the array is empty or the value not split"""
        rs = [x for x in E.subterms(cond) if x.op == "res" and x.args[0].op == "rcall"]
        xs = [x for x in rs if J.split is not None and x.args[0].args[0] == J.split.path and unref(x.args[1]) in (value, deref(value), unref(value))]
        if not xs:
            xs = [mk("res", mk("rcall", J.split.path), q) for q in (vref(value), value)] if J.split is not None else []
        if not xs:
            return bool(rs)
        # an array of one or more elements for which the condition holds all the same
        try:
            te = F.fproj(J.I, J.P, value.args[0], "inst::Field", "type") if value.op == "fld" else None
            sz = J.I.discr(F.fproj(J.I, J.P, te, "def::TypeExpr", "array_size"), F.ftid(J.P, "def::TypeExpr", "array_size")) if te is not None else None
        except Exception:
            sz = None
        dv = J.discr(value)
        for i, v in enumerate(J.fv["variants"]):
            if not v["name"].startswith("Array"):
                continue
            for k in (1, 2):
                g = J.f.assume(ieq(dv, I(i)))
                for x in xs:
                    p = J.I.proj1(x, ("f", 1, 0, E.OPT, 1))
                    for l in (ieq(mk("discr", x), ONE), ieq(slen(p), I(k))):
                        g = g and g.assume(l)
                if g is not None and sz is not None:
                    g = g.assume(ieq(sz, ONE))
                if g is None:
                    continue
                for y in E.subterms(cond):         # any place among the fields
                    if y.op == "bv" and g is not None:
                        for l in (ge0(y), ge0(sub(sub(slen(J.fields), y), ONE))):
                            g = g and g.assume(l)
                for y in E.subterms(cond):         # a loop over the elements sees them all
                    if y.op == "lvx" and g is not None and any(f.same(y, slen(J.I.proj1(x, ("f", 1, 0, E.OPT, 1)))) is True for x in xs):
                        g = g.assume(ieq(y, I(k)))
                if g is not None and g.ev(cond) is True:
                    return False
        return True

    def elements(J, n, f, value, alts):
        """(the split array, all of it visited) for a loop over the elements of a field"""
        for x in E.subterms(mk("tup", *[a for a in alts])):
            if x.op == "res" and x.args[0].op == "rcall" and J.split is not None and x.args[0].args[0] == J.split.path and unref(x.args[1]) in (value, deref(value), unref(value)):
                for y in E.subterms(mk("tup", *[a for a in alts])):
                    if y.op == "sat" or y.op == "at":
                        z = y.args[0]
                        if any(q is x for q in E.subterms(z)):
                            k = f.same(n, slen(z)) is True or n is slen(z)
                            return z, (True if k else (None if tainted(n) or not knows(f, n) else False))
        return None

    def path(J, f, path, names):
        """the enclosing path, then constants and each name in order"""
        ps = [unref(p) for p in E.parts(path)]
        odd = tainted(path)
        if J.prefix is not None:
            pre = [unref(p) for p in E.parts(J.prefix)]
            if ps[:len(pre)] != pre and [deref(p) for p in ps[:len(pre)]] != pre:
                return J.c.ob(None if odd else False, "flattening: path", "the path %s does not start with the enclosing one" % short(path))
            rest = ps[len(pre):]
        else:
            own = F.fproj(J.I, J.P, J.self0, "inst::Format", "name")
            at = [i for i, p in enumerate(ps) if p is own or p is deref(own)]
            if not at:
                return J.c.ob(None if odd else False, "flattening: path", "the path %s does not start with the value's name" % short(path))
            i = next((i for i, p in enumerate(ps) if any(p is n or p is deref(n) for k, n in names)), len(ps))
            j = i
            while j > 0 and ps[j - 1].op == "lit":
                j -= 1
            rest = ps[j:]
        got, sep = [], False
        for p in rest:
            if p.op == "lit":
                sep = sep or bool(p.args[0])
                continue
            if not sep:
                return J.c.ob(None if odd else False, "flattening: path", "names in the path %s run into each other" % short(path))
            sep = False
            got.append(p)
        good = len(got) == len(names)
        for p, (k, n) in zip(got, names):
            good = good and (p is n or p is deref(n) or k == "index" and p.op == "text" and p.args[0] in ("dec", "fmt") and unref(p.args[1 if p.args[0] == "dec" else 2]) is n)
        J.c.ob(True if good else (None if odd else False), "flattening: path", "the path %s does not name the field%s" % (short(path), " and the element's index" if len(names) > 1 else ""),
               sample="paths name field and element")

def lits(f):
    ls = [short(l) for l in f.lits][:3]
    return " (when %s)" % ls if ls else ""
