"""Texts and elements of values: what Display writes for each kind (C33), what splitting and flattening produce (C32)."""
from terms import *
import terms, roots, interp
import ck, q_fields as F, q_encode as E, q_text as X
from ck import Col, short
from nextq import unref, tainted, summarised
from facts import Facts
from interp import Inconclusive

C33_RULE = ("Abstract interpretation of each Display implementation on each of the twenty-six value kinds with an unknown payload: the text written, as a term, must consist of constants and of that payload's own content (for arrays: of every element, in order, once); "
            "the info and multi-info texts must be equal terms for the same key and value; the default kinds named must be decided by their own bit on every path; type names equal the names the parser accepts.")

def value_types(P, suffix):
    return next((t for t in P.types if t["k"] == "adt" and t["path"].endswith("::" + suffix)), None)

def sample_values(P, I_, t):
    """one value per variant, with an unknown payload: [(variant name, value, payload, payload type)]"""
    out = []
    for i, v in enumerate(t["variants"]):
        fs = []
        for j, fl in enumerate(v["fields"]):
            s = mk("sym", "%s.%s.%s" % (t["path"].split("::")[-1], v["name"], fl[0]))
            I_.ann(s, fl[1])
            fs.append(s)
        out.append((v["name"], adt(t["path"], i, *fs), fs, [fl[1] for fl in v["fields"]]))
    return out

def runs(P, f, val, col, what, I_=None, facts=None):
    I_ = I_ or interp.Interp(P, {"errkeep": True})
    n = len(I_.events)
    try:
        rs = X.show_of(P, f, val, facts, I_)
    except Inconclusive as e:
        col.ob(None, what, "%s: %s" % (what, e))
        return I_, []
    for e in I_.events[n:]:
        if e.kind in ("opaque", "rcall"):
            col.ob(None, what + ": unmodelled", "%s uses %s" % (what, e.detail))
    return I_, rs

def pieces(f, w, I_=None):
    """(constant, piece) of a text: constants dropped"""
    return [p for p in E.parts(w) if p.op != "lit" and not (I_ is not None and constant_leaf(I_, p))]

def constant_leaf(I_, p):
    """a separator kept in a variable: constants only, in every round of the loop"""
    q = unref(p)
    while q.op == "deref":
        q = q.args[0]
    if q.op not in ("lvat", "lvx", "lv") or q.args[0] not in I_.loops:
        return False
    L = I_.loops[q.args[0]]
    for l in L["leaves"].values():
        if l.name == q.args[1]:
            vs = [l.init] + list(L["nexts"].get(l.loc, []))
            return all(v is not None and (const_text(v) or v is l.lv) for v in vs)
    return False

def const_text(v):
    v = unref(v)
    return v.op == "lit" or v is EMPTY

def exact(f, n):
    """does the path know the number"""
    a, b = f.interval(n)
    return a is not None and a == b

def counted(f, n, x):
    return n is slen(x) or f.same(n, slen(x)) is True

def precise(opt):
    """a format specification that cuts content off"""
    try:
        o = eval(opt.args[0].decode())
    except Exception:
        return True
    return o is not None and o != "" and o[2] is not None

def shows(P, f, p, x, kind):
    """does a text piece show the value x of a primitive kind: True / False / None"""
    if p.op == "text" and p.args[0] in ("dec", "float", "bool"):
        y = unref(p.args[1])
        if y is x or y is deref(x) or f.same(y, x) is True:
            return True
        return None if tainted(y) else False
    if p.op == "text" and p.args[0] == "fmt":
        if len(p.args) > 3 and p.args[3].op == "lit" and p.args[3].args[0] and precise(p.args[3]) and kind not in ("int", "bool"):
            return False
        y = unref(p.args[2])
        if y is x or y is deref(x) or f.same(y, x) is True:
            return True
        return None if tainted(y) else False
    if kind == "char" and p.op == "one":
        y = p.args[0]
        while y.op == "chars" or y.op == "char":
            y = y.args[0]
        return True if y is x or f.same(y, x) is True else (None if tainted(y) else False)
    return None if tainted(p) or p.op not in ("text", "one", "sub", "lossy", "sym", "fld") else False

def scalar_kind(P, tid):
    ty = P.types[tid]
    if ty["k"] == "adt" and len(ty["variants"]) == 1 and len(ty["variants"][0]["fields"]) == 1:
        return "char"
    return ty["k"]

def payload_byte(P, I_, x, tid):
    ty = P.types[tid]
    fl = ty["variants"][0]["fields"]
    return unref(I_.proj1(x, ("f", 0, 0, ty["path"], 1, fl[0][1])))

def nested(P, I_, f, ps, x, tid, col, what):
    """a nested value shows its name, and its instance when it has one"""
    nm = F.fproj(I_, P, x, "inst::Format", "name")
    mi = F.fproj(I_, P, x, "inst::Format", "multi_id_index")
    want = {id(nm)}
    bad = []
    got_name = got_mi = False
    for p in ps:
        q = unref(p)
        if q is nm or q is deref(nm) or f.same(q, nm) is True:
            got_name = True
            continue
        y = unref(p.args[2] if p.op == "text" and p.args[0] == "fmt" else p.args[1]) if p.op == "text" and len(p.args) > 1 and isinstance(p.args[1], T) else None
        if y is not None and any(z is mi for z in F.walk(y)):
            got_mi = True
            continue
        if any(z is x for z in F.walk(p)):
            continue            # more of the nested value's own content
        bad.append(p)
    if bad:
        return None if any(tainted(b) for b in bad) else False
    return got_name

def own(P, I_, f, w, x, tid, vname):
    """does the text w consist of constants and of the content of payload x"""
    ty = P.types[tid]
    ps = pieces(f, w, I_)
    inner_t = I_.strip(tid)
    ity = P.types[inner_t]
    if ity["k"] == "adt" and ity["path"].endswith("inst::Format"):
        return nested(P, I_, f, ps, x, inner_t, None, vname)
    if ity["k"] == "adt" and ity["path"].split("::")[-1] == "Vec":
        et = I_.strip(ity["args"][0])
        ety = P.types[et]
        if scalar_kind(P, et) == "char" and ety["k"] == "adt":
            if len(ps) != 1:
                return None if any(tainted(p) for p in ps) else False
            p = unref(ps[0])
            if p.op == "lossy" and (unref(p.args[0]) is x or f.same(unref(p.args[0]), x) is True):
                return True
            if p is x:
                return True
            return None if any(z.op in ("opq", "nd", "hv") for z in F.walk(p)) or not any(z is x for z in F.walk(p)) and tainted(p) else False
        return array(P, I_, f, ps, x, et, vname)
    if scalar_kind(P, inner_t) == "char" and ity["k"] == "adt":
        b = payload_byte(P, I_, x, inner_t)
        if len(ps) != 1:
            return None if any(tainted(p) for p in ps) else False
        return shows(P, f, ps[0], b, "char")
    if len(ps) != 1:
        return None if any(tainted(p) for p in ps) or not ps and w.op != "lit" else False
    return shows(P, f, ps[0], x, ity["k"])

def array(P, I_, f, ps, x, et, vname):
    """every element, in order, exactly once"""
    ps = [p for p in ps]
    st = None
    for p in ps:
        q = p
        if q.op == "text" and q.args[0] == "join":
            q = q.args[1]
        if q.op != "star" or st is not None:
            # the first element written before the loop
            return peeled(P, I_, f, ps, x, et, vname)
        st = q
    if st is None:
        # no elements on this path
        z = f.zero(slen(x))
        return True if z is True else (False if z is False else None)
    d, n, _, alts = st.args
    if not counted(f, n, x):
        return False if exact(f, n) else (None if tainted(n) or n.op not in ("int", "lin", "len") else False)
    e = sat(x, bv(d))
    return alts_show(P, I_, f, alts, e, et, vname)

def alts_show(P, I_, f, alts, e, et, vname):
    res = True
    ety = P.types[et]
    for a in alts:
        g = f.assume(a.args[0]) if not has_bv(a.args[0]) else f
        g = g if g is not None else f
        w = a.args[1]
        if w.op == "one" and isinstance(w.args[0], T) and (is_seq(w.args[0]) or w.args[0].op in ("text", "sym", "fld")):
            w = w.args[0]
        ps = pieces(g, w, I_)
        if ety["k"] == "adt" and ety["path"].endswith("inst::Format"):
            r = nested(P, I_, g, ps, e, et, None, vname)
        elif len(ps) == 1:
            y = e if ety["k"] != "adt" else payload_byte(P, I_, e, et)
            r = shows(P, g, ps[0], y, scalar_kind(P, et))
        else:
            r = None if any(tainted(p) for p in ps) else False
        if r is not True:
            res = r if res is True or r is False else res
    return res

def has_bv(t):
    return any(z.op == "bv" for z in F.walk(t))

def peeled(P, I_, f, ps, x, et, vname):
    """some elements one by one, the rest by a loop"""
    i = 0
    ety = P.types[et]
    for p in ps:
        if p.op == "star":
            d, n, _, alts = p.args
            rest = sub(slen(x), I(i))
            if not (n is rest or f.same(n, rest) is True):
                return None
            r = alts_show(P, I_, f, alts, sat(x, add(bv(d), I(i))), et, vname)
            return r if p is ps[-1] else None
        y = sat(x, I(i))
        r = shows(P, f, p, y if ety["k"] != "adt" else payload_byte(P, I_, y, et), scalar_kind(P, et))
        if r is not True:
            return None
        i += 1
    z = f.zero(sub(slen(x), I(i)))
    return True if z is True else None

def settle_counts(f, w):
    """loop counts that the path knows, replaced: two renderings of one array are then the same term"""
    m = {}
    for x in E.subterms(w):
        if x.op == "star" and x.args[1].op in ("lvx",):
            for y in lens_in(w):
                if f.same(x.args[1], y) is True:
                    m[x.args[1]] = y
                    break
    return subst(w, m) if m else w

def lens_in(w):
    out = []
    for x in E.subterms(w):
        if x.op == "sat" or x.op == "at":
            y = x.args[0]
            if is_seq(y) or y.op in ("sym", "fld"):
                out.append(slen(y))
    return out

def c33(P, pid, tier, t0):
    c = Col()
    fv = value_types(P, "inst::FieldValue")
    show = {s: (X.trait_fns(P, "fmt", "Display", s) or [None])[0] for s in ("inst::FieldValue", "msg::Info", "msg::MultiInfo", "msg::Parameter", "msg::DefaultParameter", "inst::ParameterValue", "def::BaseType", "def::TypeExpr", "def::Field", "inst::Format")}
    I0 = interp.Interp(P, {"errkeep": True})
    # values
    for nm, val, fs, tids in sample_values(P, I0, fv):
        f = show["inst::FieldValue"]
        if f is not None:
            I_, rs = runs(P, f, val, c, nm)
            c.count("value kinds")
            for s, w in rs:
                c.count("texts")
                r = own(P, I_, s.facts, w, fs[0], tids[0], nm)
                c.ob(r, nm + ": content", "the text of a %s is %s, which does not show its own content%s" % (nm, short(w), where(s)), sample="%s shows its own content" % nm)
        # inside info messages, of either kind
        texts = []
        for s in ("msg::Info", "msg::MultiInfo"):
            f = show[s]
            if f is None:
                continue
            t = value_types(P, s)
            I_ = interp.Interp(P, {"errkeep": True})
            vs = []
            for fl in t["variants"][0]["fields"]:
                if P.types[I_.strip(fl[1])].get("path", "").endswith("inst::FieldValue"):
                    vs.append(val)
                else:
                    y = mk("sym", "info." + fl[0])
                    I_.ann(y, fl[1])
                    vs.append(y)
            key = vs[[fl[0] for fl in t["variants"][0]["fields"]].index("key")]
            I_, rs = runs(P, f, adt(t["path"], 0, *vs), c, "%s of %s" % (s.split("::")[-1], nm), I_)
            out = []
            for st, w in rs:
                c.count("texts")
                ps = E.parts(w)
                k0 = [i for i, p in enumerate(ps) if unref(p) is key or p is deref(key)]
                c.ob(True if k0 == [0] else (None if any(tainted(p) for p in ps) else False), "%s: key" % s.split("::")[-1], "the text of an info message is %s, which does not start with its key" % short(w), sample="%s starts with its key" % s.split("::")[-1])
                if k0 == [0]:
                    r = own(P, I_, st.facts, cat(*ps[1:]) if len(ps) > 1 else EMPTY, fs[0], tids[0], nm)
                    c.ob(r, "%s: %s" % (s.split("::")[-1], nm), "the text of an info message with a %s is %s, which does not show the value's own content%s" % (nm, short(w), where(st)), sample="info text of a %s shows it" % nm)
                out.append((st.facts, settle_counts(st.facts, w)))
            texts.append(out)
        if len(texts) == 2:
            c.count("info and multi-info pairs")
            for fa, a in texts[0]:
                for fb, b in texts[1]:
                    g = both(fa, fb)
                    if g is None:
                        continue
                    c.count("text comparisons")
                    same = a is b or g.ev(eq(a, b)) is True
                    c.ob(True if same else (None if tainted(a) or tainted(b) or loopy(a) or loopy(b) else False), "info and multi-info: " + nm, "for the same key and %s an info message reads %s and a multi-info message %s" % (nm, short(a), short(b)), sample="%s reads the same in info and multi-info" % nm)
    parameters(P, c, show)
    names(P, c, show)
    c.floor("value kinds", 26, "the kinds of values")
    c.floor("info and multi-info pairs", 26, "the info message texts")
    c.floor("default bit paths", 4, "the default parameter text")
    c.floor("type names", 12, "the built-in type names")
    return ck.report(pid, c, tier, t0, C33_RULE)

def loopy(t):
    return any(x.op in ("lvx", "lvat", "lv") for x in F.walk(t))

def both(fa, fb):
    g = fa
    for l in fb.lits:
        if any(x.op in ("lvx", "lv") for x in F.walk(l)):
            continue
        g = g.assume(l)
        if g is None:
            return None
    return g

def where(s):
    ls = [short(l) for l in s.facts.lits if not any(x.op == "lvx" for x in F.walk(l))][:4]
    return " (when %s)" % ls if ls else ""

def parameters(P, c, show):
    I0 = interp.Interp(P, {"errkeep": True})
    pv = value_types(P, "inst::ParameterValue")
    for nm, val, fs, tids in sample_values(P, I0, pv):
        f = show["inst::ParameterValue"]
        if f is not None:
            I_, rs = runs(P, f, val, c, "parameter " + nm)
            for s, w in rs:
                c.count("texts")
                c.ob(own(P, I_, s.facts, w, fs[0], tids[0], nm), "parameter value %s: content" % nm, "the text of a parameter value %s is %s" % (nm, short(w)), sample="parameter %s shows its value" % nm)
        for m in ("msg::Parameter", "msg::DefaultParameter"):
            f, t = show[m], value_types(P, m)
            if f is None:
                continue
            I_ = interp.Interp(P, {"errkeep": True})
            vs, key, bits = [], None, None
            for fl in t["variants"][0]["fields"]:
                if P.types[I_.strip(fl[1])].get("path", "").endswith("inst::ParameterValue"):
                    vs.append(val)
                    continue
                y = mk("sym", "param." + fl[0])
                I_.ann(y, fl[1])
                vs.append(y)
                if fl[0] == "key":
                    key = y
                elif P.tystr(fl[1]) == "u8":
                    bits = y
            I_, rs = runs(P, f, adt(t["path"], 0, *vs), c, m, I_)
            lists = {}
            for s, w in rs:
                c.count("texts")
                ps = pieces(s.facts, w, I_)
                k0 = [i for i, p in enumerate(ps) if unref(p) is key or p is deref(key)]
                rest = [p for i, p in enumerate(ps) if i not in k0]
                ok = len(k0) == 1 and len(rest) == 1 and shows(P, s.facts, rest[0], fs[0], P.types[tids[0]]["k"])
                c.ob(True if ok is True else (None if any(tainted(p) for p in ps) else False), "%s: content" % m.split("::")[-1], "the text of a parameter is %s, which is not its key and its value once each" % short(w), sample="%s shows its key and value" % m.split("::")[-1])
                if bits is None:
                    continue
                txt = b" ".join(p.args[0] for p in E.parts(w) if p.op == "lit").decode("latin1").lower()
                c.count("default bit paths")
                raw = b"".join(p.args[0] for p in E.parts(w) if p.op == "lit").decode("latin1")
                lists.setdefault(tuple(s.facts.zero(band(bits, I(b))) is False for b in (1, 2)), set()).add(raw)
                for b, word in ((1, "system"), (2, "config")):
                    z = s.facts.zero(band(bits, I(b)))
                    named = word in txt
                    ok = z is not None and named == (z is False)
                    c.ob(True if ok else (None if any(tainted(l) for l in s.facts.lits) else False), "default kinds: " + word, "a default parameter whose %s bit is %s reads %r%s" % (word, "not looked at" if z is None else ("clear" if z else "set"), txt, where(s)), sample="%s named exactly when its bit is set" % word)
            if bits is not None:
                r = told_apart(lists)
                c.ob(r, "default kinds: list", "the default kinds are listed as %s, where each is not its own name, apart from the other" % {k: sorted(v) for k, v in sorted(lists.items())}, sample="each default kind is listed under its own name, apart from the other")

def told_apart(lists):
    """do the texts for no kind, either one, and both read as lists of the same two names"""
    if len(lists) != 4 or any(len(v) != 1 for v in lists.values()):
        return None
    none, a, b, both = (next(iter(lists[k])) for k in ((False, False), (True, False), (False, True), (True, True)))
    import os.path
    pre = len(os.path.commonprefix([none, a, b, both]))
    ends = [x[::-1] for x in (a, b, both)]
    if pre < len(none):
        ends.append(none[pre:][::-1])
    suf = len(os.path.commonprefix(ends))
    na, nb, m = (x[pre:len(x) - suf] for x in (a, b, both))
    if not na or not nb:
        return None
    for x, y in ((na, nb), (nb, na)):
        if m.startswith(x) and m.endswith(y) and len(m) > len(x) + len(y) and not any(q.isalnum() for q in m[len(x):len(m) - len(y)]) and x[0].isalnum() and y[0].isalnum():
            return True
    return False

def names(P, c, show):
    bt, te, fd = (value_types(P, s) for s in ("def::BaseType", "def::TypeExpr", "def::Field"))
    I0 = interp.Interp(P, {"errkeep": True})
    for nm, val, fs, tids in sample_values(P, I0, bt):
        want = lit(E.NAMES[nm].encode()) if nm in E.NAMES else fs[0]
        c.count("type names")
        if show["def::BaseType"] is not None:
            I_, rs = runs(P, show["def::BaseType"], val, c, "type " + nm)
            for s, w in rs:
                c.count("texts")
                c.ob(same_txt(s.facts, w, want), "name of " + nm, "the type %s is shown as %s, which the parser does not read as that type" % (nm, short(w)), sample="%s shown as its own name" % nm)
        if show["def::TypeExpr"] is None or te is None:
            continue
        for size in (None, 1):
            I_ = interp.Interp(P, {"errkeep": True})
            vs, n = [], None
            for fl in te["variants"][0]["fields"]:
                ty = P.types[fl[1]]
                if ty.get("path") == bt["path"]:
                    vs.append(val)
                elif ty["k"] == "adt" and ty["path"].endswith("option::Option"):
                    n = mk("sym", "array.size")
                    I_.ann(n, ty["args"][0])
                    vs.append(adt(ty["path"], 0) if size is None else adt(ty["path"], 1, n))
                else:
                    return
            tx = mk("text", "dec", n)
            LENRANGE.setdefault(tx, (1, 400))
            full = want if size is None else cat(want, lit(b"["), tx, lit(b"]"))
            tv = adt(te["path"], 0, *vs)
            I_, rs = runs(P, show["def::TypeExpr"], tv, c, "type expression", I_)
            for s, w in rs:
                c.count("texts")
                c.ob(same_txt(s.facts, w, full), "type text of " + nm, "the type %s%s is shown as %s" % (nm, "" if size is None else "[n]", short(w)), sample="type and size shown as the parser reads them")
            if show["def::Field"] is None or fd is None:
                continue
            I_ = interp.Interp(P, {"errkeep": True})
            vs, name = [], None
            for fl in fd["variants"][0]["fields"]:
                if P.types[fl[1]].get("path") == te["path"]:
                    vs.append(tv)
                else:
                    name = mk("sym", "field.name")
                    I_.ann(name, fl[1])
                    vs.append(name)
            I_, rs = runs(P, show["def::Field"], adt(fd["path"], 0, *vs), c, "field", I_)
            for s, w in rs:
                c.count("texts")
                c.ob(same_txt(s.facts, w, cat(full, lit(b" "), name)), "field text of " + nm, "a field of type %s%s is shown as %s" % (nm, "" if size is None else "[n]", short(w)), sample="fields shown as the parser reads them")

def same_txt(f, w, want):
    w = unref(w)
    if w is want or w is deref(want):
        return True
    a, b = [unref(p) for p in E.parts(w)], [unref(p) for p in E.parts(want)]
    if len(a) == len(b) and all(x is y or x is deref(y) or y is deref(x) for x, y in zip(a, b)):
        return True
    return True if f.ev(eq(w, want)) is True else (None if tainted(w) else False)

# ------------------------------------------------------------------------- C36
C36_RULE = ("Abstract interpretation of the Display implementations of the messages on a value of unknown fields, once per level and per present or absent optional part: "
            "apart from fixed text, the text term must consist of exactly the parts listed for that message, each complete and once, in order; for a format definition, one arbitrary round of the loop over its fields")
PARTS = {"msg::Subscription": ["message_name", "msg_id"], "msg::LoggedString": ["level", "tag", "timestamp", "msg"], "msg::Dropout": ["duration"],
         "inst::Format": ["name", "multi_id_index"], "def::Format": ["fields"]}

def c36(P, pid, tier, t0):
    c = Col()
    lt = value_types(P, "msg::LogLevel")
    lf = (X.trait_fns(P, "fmt", "Display", "msg::LogLevel") or [None])[0]
    levels = {}
    if lt is not None and lf is not None:
        for i, v in enumerate(lt["variants"]):
            I_, rs = runs(P, lf, adt(lt["path"], i), c, "level " + v["name"])
            if len(rs) == 1 and rs[0][1].op == "lit":
                levels[i] = rs[0][1].args[0]
        c.ob(True if len(set(levels.values())) == len(lt["variants"]) else (None if len(levels) < len(lt["variants"]) else False), "levels", "the names of the levels are %s" % levels)
    for m, want in PARTS.items():
        f, t = (X.trait_fns(P, "fmt", "Display", m) or [None])[0], value_types(P, m)
        if f is None or t is None:
            c.ob(None, m, "%s has no text form" % m)
            continue
        for vs, parts in settings(P, t, m, want, levels):
            I_ = interp.Interp(P, {"errkeep": True})
            for n, y, tid in vs:
                for z in F.walk(y):
                    if z.op == "sym" and z is y:
                        I_.ann(z, tid)
                    elif z.op == "sym":
                        I_.ann(z, P.types[I_.strip(tid)]["args"][0])
            I_, rs = runs(P, f, adt(t["path"], 0, *[y for _, y, _ in vs]), c, m, I_)
            c.count("settings")
            for s, w in rs:
                c.count("texts")
                ps = pieces(s.facts, w, I_)
                if m == "def::Format":
                    r = fields_shown(P, I_, s.facts, w, ps, parts[0][1])
                else:
                    r = listed(P, s.facts, w, ps, parts, levels)
                c.ob(r, "%s: parts" % m.split("::")[-1], "the text of a %s is %s, which does not show exactly %s%s" % (m.split("::")[-1], short(w), ", ".join(n for n, _, _ in parts), where(s)),
                     sample="%s shows %s" % (m.split("::")[-1], ", ".join(n for n, _, _ in parts)))
    c.floor("settings", 16 + 1 + 1 + 2 + 1, "levels with and without a tag, a subscription, a dropout, an instance with and without an index, a definition")
    import ck
    return ck.report(pid, c, tier, t0, C36_RULE)

def settings(P, t, m, want, levels):
    """[(fields with values, parts to show)]"""
    out = [([], [])]
    for fn, tid in ((fl[0], fl[1]) for fl in t["variants"][0]["fields"]):
        ty = P.types[tid]
        new = []
        for vs, ps in out:
            y = mk("sym", "%s.%s" % (m, fn))
            if fn == "level" and levels:
                for i in levels:
                    new.append((vs + [(fn, adt(ty["path"], i), tid)], ps + [(fn, i, tid)]))
            elif fn in want and ty.get("path", "").endswith("option::Option"):
                new.append((vs + [(fn, adt(ty["path"], 0), tid)], ps))
                new.append((vs + [(fn, adt(ty["path"], 1, y), tid)], ps + [(fn, y, ty["args"][0])]))
            else:
                new.append((vs + [(fn, y, tid)], ps + ([(fn, y, tid)] if fn in want else [])))
        out = new
    return [(vs, sorted(ps, key=lambda x: want.index(x[0]))) for vs, ps in out]

def listed(P, f, w, ps, parts, levels):
    unknown = any(tainted(p) for p in ps)
    parts = list(parts)
    txt = b"".join(p.args[0] if p.op == "lit" else b"\0" for p in E.parts(w))
    if parts and parts[0][0] == "level":
        if not txt.startswith(levels[parts[0][1]]) or any(len(n) > len(levels[parts[0][1]]) and txt.startswith(n) for n in levels.values()):
            return None if unknown else False
        parts = parts[1:]
    if len(ps) != len(parts):
        return None if unknown else False
    for p, (n, x, tid) in zip(ps, parts):
        k = P.types[tid]["k"]
        q = unref(p)
        if q is x or q is deref(x) or f.same(q, x) is True:
            continue
        if p.op == "text":
            r = shows(P, f, p, x, k)
            if r is not True:
                return r
            continue
        return None if unknown or p.op in ("lvx", "lvat", "res", "rcall") else False
    # adjacent parts must not run into each other
    if b"\0\0" in txt:
        return False
    return True

def marked(w, t):
    """is the text t in w, with nothing but fixed text around it"""
    ws, ts = [unref(p) for p in E.parts(w)], [unref(p) for p in E.parts(t)]
    wn, tn = [p for p in ws if p.op != "lit"], [p for p in ts if p.op != "lit"]
    if len(wn) != len(tn) or any(x is not y and x is not deref(y) for x, y in zip(wn, tn)):
        return False
    flat = lambda ps: b"".join(p.args[0] if p.op == "lit" else b"\0" for p in ps)
    a, b = flat(ws), flat(ts)
    i = a.find(b)
    while i >= 0:
        l, r = a[i - 1:i] if i else b"", a[i + len(b):i + len(b) + 1]
        if not l.isalnum() and l != b"_" and (not r or r.isspace() or not r.isalnum() and r not in (b"_", b"[")):
            return True
        i = a.find(b, i + 1)
    return False

def B2(v):
    v = unref(v)
    while v.op == "deref":
        v = unref(v.args[0])
    return v

def fields_shown(P, I_, f, w, ps, fields):
    """every field in order: its type, its array size when it has one, its name"""
    unknown = any(tainted(p) for p in ps)
    if not ps:
        return True if f.zero(slen(fields)) is True else (None if unknown or tainted(w) else False)
    got = [unref(p.args[1]) if p.op == "text" and p.args[0] == "join" and len(p.args) > 1 else p for p in ps]
    if len(got) != 1 or got[0].op != "star":
        return None
    d, n, _, alts = got[0].args
    if not counted(f, n, fields):
        return None if tainted(n) or loopy(n) and f.same(n, slen(fields)) is None else False
    b = mk("bv", d)
    el = mk("at", fields, b)
    each = [field_alt(P, I_, f, a, el, b, fields, tainted(a)) for a in alts]
    verdicts = [r for r, _, _ in each]
    # neighbours are apart when every field but the first starts with a mark, or every field but the last ends with one
    lead, trail = [verdict(*[e[i] for e in each]) for i in (1, 2)]
    verdicts.append(True if True in (lead, trail) else None if None in (lead, trail) else False)
    return verdict(*verdicts)

def verdict(*rs):
    return False if False in rs else None if None in rs else True

def field_alt(P, I_, f, a, el, b, fields, odd):
    """one way a round shows a field: (is it the field's text, does it start apart from the field before, does it end apart from the next)"""
    w = a.args[1]
    if w.op == "one":
        w = B2(w.args[0])
    ps = E.parts(w)
    qs = [p for p in ps if p.op != "lit" and not constant_leaf(I_, p)]
    ends = lambda p, i: p.op == "lit" and p.args[0][i:][:1] and not p.args[0][i:][:1].isalnum()
    lead, trail = bool(ends(ps[0], 0)), bool(ends(ps[-1], -1))
    while ps and ps[-1].op == "lit" and trail:
        ps = ps[:-1]
    if len(qs) == 0 or len(ps) < 2 or qs[-1] is not ps[-1]:
        return None if odd else False, lead, trail
    ty = F.fproj(I_, P, el, "def::Field", "type")
    bd = I_.discr(F.fproj(I_, P, ty, "def::TypeExpr", "base_type"), F.ftid(P, "def::TypeExpr", "base_type"))
    asz = F.fproj(I_, P, ty, "def::TypeExpr", "array_size")
    ad, av = I_.discr(asz, F.ftid(P, "def::TypeExpr", "array_size")), fld(asz, 1, 0, E.OPT, 1)
    before = cat(*[lit(b" ") if p.op != "lit" and constant_leaf(I_, p) else p for p in ps[:-1]])
    odd = odd or any(p.op not in ("lit", "text", "fld") for p in E.parts(before))
    r = True
    apart = [True, True]
    for k in range(len(F.ltype(P, "def::BaseType")["variants"])):
        for arr in (ieq(ad, ZERO), and_(ieq(ad, ONE), ieq(av, ONE)), and_(ieq(ad, ONE), ieq(av, I(2))), ieq(ad, ONE)):
            for place in (ieq(b, ZERO), ieq(b, ONE), ge0(sub(b, I(2)))):
                pin = and_(ieq(bd, I(k)), and_(arr, and_(place, ge0(sub(sub(slen(fields), b), ONE)))))
                f0 = f.assume(pin)
                f1 = f0 and f0.assume(a.args[0])
                if f1 is None:
                    continue
                wants = E.type_text(P, I_, f1, ty)
                if any(marked(before, t) for t in wants) and len(wants) == 1:
                    pass
                elif odd or f0.ev(a.args[0]) is not True or len(wants) != 1:
                    r = None if r else r
                else:
                    r = False
                for i, (ok, edge) in enumerate(((lead, b), (trail, sub(sub(slen(fields), b), ONE)))):
                    if not ok and apart[i] is not False and f1.assume(ge0(sub(edge, ONE))) is not None:
                        apart[i] = False if f0.ev(a.args[0]) is True else None
    return r, apart[0], apart[1]
