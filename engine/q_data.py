"""Queries about the parser's tables and data messages: C13, C14, C15, C16, C17, C09."""
from terms import *
import terms, roots, models
from ck import Col, short
from nextq import *
from models import STREAM

SETS = ("HashSet", "BTreeSet")
MAPS = ("HashMap", "BTreeMap")

def stripname(path):
    return path.split("::")[-1]

def vtype(P, tid):
    """name of the adt behind shared pointers"""
    for _ in range(4):
        t = P.types[tid]
        if t["k"] == "ref":
            tid = t["to"]
        elif t["k"] == "adt" and stripname(t["path"]) in ("Rc", "Arc", "Box"):
            tid = t["args"][0]
        else:
            break
    return stripname(t["path"]) if t["k"] == "adt" else t["s"]

def tables(n):
    """every table of the parser: (name, kind, key type, value type, projector(parser value) -> term, optional)"""
    r = getattr(n, "_tables", None)
    if r is not None:
        return r
    P, I_ = n.P, n.I
    out = []
    def go(tid, proj, name, d, opt):
        t = P.types[tid]
        if t["k"] != "adt":
            return
        last = stripname(t["path"])
        if last in SETS or last in MAPS:
            ks = P.types[t["args"][0]]
            kn = ks["s"] if ks["k"] != "adt" else vtype(P, t["args"][0])
            vn = vtype(P, t["args"][1]) if last in MAPS else None
            out.append((name, "set" if last in SETS else "map", kn, vn, proj, opt))
        elif t["path"] == OPT:
            def p2(v, proj=proj):
                x = proj(v)
                if x.op == "adt" and x.args[0] == OPT:
                    return x.args[2] if x.args[1] == 1 else None
                return fld(x, 1, 0, OPT, 1)
            go(t["args"][0], p2, name, d, (proj, tid))
        elif t.get("crate") == "yule_log" and not t.get("enum") and d < 3:
            fs = t["variants"][0]["fields"]
            for i, f in enumerate(fs):
                def p3(v, proj=proj, i=i, fs=fs, f=f, t=t):
                    return I_.proj1(proj(v), ("f", 0, i, t["path"], len(fs), f[1]))
                go(f[1], p3, name + "." + f[0], d + 1, None)
    go(n.selft, lambda v: v, "self", 0, None)
    n._tables = out
    return out

def ops(n, o, tb):
    """what this pull did to a table: [(ins|rem, key, value)], oldest first; None when unknown"""
    name, kind, kn, vn, proj, opt = tb
    a = proj(n.self0)
    b = proj(o.self1)
    if opt is not None:
        oa, ob = opt[0](n.self0), opt[0](o.self1)
        if oa is ob:
            return []
        if b is None:
            return [("none", None, None)]
    if a is b:
        return []
    r = []
    x = b
    while x is not a and x.op in ("mins", "mrem"):
        r.append(("ins", x.args[1], x.args[2]) if x.op == "mins" else ("rem", x.args[1], None))
        x = x.args[0]
    if x is not a:
        return None if tainted(b) else [("replaced", x, None)]
    return r[::-1]

def the(n, kind, kn=None, vn=None):
    return [t for t in tables(n) if t[1] == kind and (kn is None or t[2] == kn) and (vn is None or t[3] == vn)]

def subs_table(n):
    r = the(n, "map", None, "Subscription")
    return r[0] if len(r) == 1 else None

def formats_table(n):
    r = the(n, "map", None, "Format")
    return r[0] if len(r) == 1 else None

def has(o, tb, n, key):
    """is key known to be in the table before the call"""
    m = tb[4](n.self0)
    return o.facts.ev(mk("has", m, key))

def walked(o, tb, n):
    """did the path look through the table entry by entry (what it found there is not known)"""
    m = tb[4](n.self0)
    return any(x.op == "walk" and x.args[1] is m for t in o.facts.lits for x in subterms(t))

def msgid(n):
    return le("u16", STREAM, n.body)

def subscription(n):
    """the subscription a data message refers to"""
    st = subs_table(n)
    return None if st is None else mk("mget", st[4](n.self0), msgid(n))

def field_by_name(n, v, tname_, field):
    """field of a symbolic struct by declared name"""
    P = n.P
    for t in P.types:
        if t["k"] == "adt" and stripname(t["path"]) == tname_ and t.get("crate") == "yule_log" and not t.get("enum"):
            fs = t["variants"][0]["fields"]
            for i, f in enumerate(fs):
                if f[0] == field:
                    return n.I.proj1(v, ("f", 0, i, t["path"], len(fs), f[1]))
    return None

def sub_field(n, v, field):
    return field_by_name(n, v, "Subscription", field)

def no_tables(n, col, what):
    col.ob(None, "tables", "the parser's %s could not be identified by its type" % what)

def same(o, a, b):
    if a is None or b is None:
        return None
    if a is b or o.facts.same(unref(a), unref(b)) is True:
        return True
    return None if tainted(a) or tainted(b) else False

# ---------------------------------------------------------------- C13
def c13(n, col):
    st, ft = subs_table(n), formats_table(n)
    if st is None or ft is None:
        return no_tables(n, col, "subscription and format tables")
    for o in n.outs:
        if o.self1 is None or o.kind == "unknown":
            continue
        lab = where(n, o)
        so, fo = ops(n, o, st), ops(n, o, ft)
        if so is None or fo is None:
            col.ob(None, "table update", "unknown update of a table: " + lab)
            continue
        col.count("table updates analysed")
        tb = sat_u8(STREAM, add(n.m, I(2)))
        isty = lambda ch: o.facts.zero(sub(tb, I(ord(ch)))) is True
        # a subscription is recorded exactly when it is yielded
        if o.kind == "ok" and o.mv == "AddSubscription":
            p = unref(o.msg.args[2])
            ok = len(so) == 1 and so[0][0] == "ins"
            col.ob(True if ok else False, "subscription recorded", "a yielded subscription is not recorded exactly once: %s (%s)" % ([(x[0], short(x[1], 60)) for x in so], lab),
                   sample="AddSubscription: subscriptions[msg_id] := the yielded subscription (%s)" % n.label())
            if ok:
                col.ob(same(o, so[0][1], get(n.P, p, "msg_id")), "subscription key", "the subscription is recorded under %s (%s)" % (short(so[0][1]), lab))
                v = unref(so[0][2])
                for f in ("msg_id", "multi_id", "message_name"):
                    a, b = (get(n.P, v, f) if v.op == "adt" else sub_field(n, v, f)), get(n.P, p, f)
                    col.ob(same(o, a, b), "recorded %s" % f, "the recorded subscription's %s is %s, the yielded one's is %s (%s)" % (f, short(a), short(b), n.label()))
            nm = get(n.P, p, "message_name")
            h = has(o, ft, n, nm)
            col.ob(True if h is True else (None if tainted(nm) else False), "undefined format accepted", "a subscription is accepted without its format being known: " + lab,
                   sample="AddSubscription only under has(formats, its name)")
            col.put("after", (n.state, n.discr_after(o)))
        elif so and not (isty("R") and len(so) == 1 and so[0][0] == "rem"):
            col.ob(False, "subscriptions changed", "the known subscriptions are changed (%s) by a pull that does not yield a subscription: %s" % ([(x[0], short(x[1], 60)) for x in so], lab))
        else:
            col.ob(True, "")
        # removal forgets exactly the id it names
        if n.cls == "R" and o.kind == "ok" and o.mv == "Unhandled" and n.state not in (0, 1) and n.state != n.initdiscr:
            ok = len(so) == 1 and so[0][0] == "rem" and same(o, so[0][1], msgid(n))
            col.ob(True if ok else (None if so and tainted(so[0][1]) else False), "removal", "a removal message leaves its subscription known: %s" % lab, sample="RemoveSubscription: subscriptions.remove(u16 at body)")
        # formats are recorded exactly when yielded
        if o.kind == "ok" and o.mv == "FormatDefinition":
            p = unref(o.msg.args[2])
            ok = len(fo) == 1 and fo[0][0] == "ins" and same(o, fo[0][1], get(n.P, p, "name"))
            if ok:
                ok = same(o, unref(fo[0][2]), p)
            col.ob(True if ok else (None if ok is None else False), "format recorded", "a yielded format definition is not the one recorded under its name: " + lab, sample="FormatDefinition: formats[name] := the yielded definition")
        elif fo:
            col.ob(False, "formats changed", "the known formats are changed (%s) by a pull that does not yield a definition: %s" % ([(x[0], short(x[1], 60)) for x in fo], lab))
        # decoding
        if o.kind == "ok" and o.mv in ("LoggedData", "Ignored") and n.cls == "D":
            h = has(o, st, n, msgid(n))
            col.ob(True if h is True else False, "data without subscription", "a data message is answered with %s although its id need not have a current subscription: %s" % (o.mv, lab), sample="%s only under has(subscriptions, msg_id)" % o.mv)
        if o.kind == "ok" and o.mv == "LoggedData":
            col.count("decoded data items")
            d = get(n.P, unref(o.msg.args[2]), "data")
            s = subscription(n)
            want = mk("mget", ft[4](n.self0), sub_field(n, s, "message_name"))
            df = get(n.P, d, "def_format") if d is not None else None
            r = same(o, df, want)
            col.ob(r, "decoded with another format", "the data is decoded with %s instead of the format of its id's current subscription %s" % (short(df), short(want)), sample="def_format = %s" % short(want))
            nm = get(n.P, d, "name") if d is not None else None
            wn = field_by_name(n, want, "Format", "name") if False else None
            if n.state is not None:
                col.put("decodes", n.state)

def c13_end(col, init):
    dec = set(col.data.get("decodes", []))
    for st, af in set(col.data.get("after", [])):
        if af is None:
            continue
        col.ob(af in dec or not dec, "state after subscription", "after a subscription in state %s the parser is in state %s, where data messages are not decoded" % (st, af), sample="a subscription leads to a state that decodes data")
    col.floor("decoded data items", 1, "decoded data messages")

# ---------------------------------------------------------------- C14
def filt(n):
    """(listed names, listed ids): the optional set of names and the optional set of ids"""
    names = [t for t in tables(n) if t[1] == "set" and t[5] is not None and t[2] in ("String", "str")]
    ids = [t for t in tables(n) if t[1] == "set" and t[5] is not None and t[2] == "u16"]
    if len(names) == 1 and len(ids) == 1:
        return names[0], ids[0]
    return None

def some_of(n, o, opt):
    """is the option known to be Some (True), None (False) or neither (None) before the call"""
    z = o.facts.zero(n.I.discr(opt[0](n.self0), opt[1]))
    return None if z is None else (not z)

def c14(n, col):
    f = filt(n)
    if f is None:
        return no_tables(n, col, "allow list")
    names, ids = f
    for o in n.outs:
        if o.self1 is None or o.kind == "unknown":
            continue
        lab = where(n, o)
        io, no = ops(n, o, ids), ops(n, o, names)
        col.count("filter updates analysed")
        if no:
            col.ob(False, "listed names changed", "the list of names is changed by a message: " + lab)
        if o.kind == "ok" and o.mv == "Ignored":
            tb = sat_u8(STREAM, add(n.m, I(2)))
            col.ob(True if o.facts.zero(sub(tb, I(ord("D")))) is True else False, "ignored kind", "a message that is not data is ignored: " + lab, sample="Ignored only for type byte 'D'")
            if o.msg.op == "adt" and len(o.msg.args) > 2:
                col.ob(same(o, o.msg.args[2], tb), "ignored type byte", "the ignored item carries type byte %s" % short(o.msg.args[2]))
            col.ob(*listed(n, o, names, ids, False, lab))
        if o.kind == "ok" and o.mv == "LoggedData":
            col.count("decoded data items")
            col.ob(*listed(n, o, names, ids, True, lab))
        if o.kind == "ok" and o.mv == "AddSubscription":
            p = unref(o.msg.args[2])
            nm, mid = get(n.P, p, "message_name"), get(n.P, p, "msg_id")
            has_list = some_of(n, o, names[5])
            on = has(o, names, n, nm) if has_list is not False else None
            if io is None:
                col.ob(None, "listed ids", "unknown update of the listed ids: " + lab)
                continue
            after = member(n, o, ids, io, mid)
            stray = [x for x in io if x[0] not in ("ins", "rem") or same(o, x[1], mid) is not True]
            col.ob(not stray, "other ids changed", "a subscription changes the selection of other ids: %s (%s)" % ([(x[0], short(x[1], 60)) for x in stray], lab))
            if has_list is False:
                col.ob(True, "")
                continue
            if on is True:
                col.ob(True if after is True else False, "listed name not selected", "a subscription under a listed name is not selected afterwards: " + lab, sample="listed name => id selected (%s)" % n.label())
            elif on is False:
                col.ob(True if after is False else False, "unlisted name selected", "a subscription under an unlisted name may be selected afterwards: " + lab, sample="unlisted name => id not selected (%s)" % n.label())
            else:
                # the path did not ask whether the name is listed
                col.ob(None if tainted(nm) or walked(o, names, n) else False, "list not consulted", "a subscription is accepted without asking whether its name is listed: " + lab)
        elif io:
            rm = [x for x in io if x[0] == "rem"]
            only_removed = n.cls == "R" and len(rm) == len(io) and all(same(o, x[1], msgid(n)) for x in rm)
            col.ob(True if only_removed else False, "listed ids changed", "the selected ids are changed by a pull that yields no subscription: " + lab)
        elif io is None:
            col.ob(None, "listed ids", "unknown update of the selected ids: " + lab)

def member(n, o, tb, opsl, key):
    for op, k, v in reversed(opsl):
        if same(o, k, key):
            return op == "ins"
    return has(o, tb, n, key)

def listed(n, o, names, ids, want, lab):
    """a decoded item needs 'no list or selected', an ignored one 'list and not selected'"""
    l = some_of(n, o, ids[5])
    if l is None:
        l = some_of(n, o, names[5])
    s = subscription(n)
    key = [msgid(n)] + ([sub_field(n, s, "msg_id")] if s is not None else [])
    sel = None
    for k in key:
        r = has(o, ids, n, k)
        if r is not None:
            sel = r
    if sel is None and s is not None:
        nm = sub_field(n, s, "message_name")
        r = has(o, names, n, nm)
        if r is not None:
            sel = r
    if sel is None and l is not False and (walked(o, ids, n) or walked(o, names, n)):
        return None, "selection", "the list is looked through entry by entry: " + lab
    if want:
        ok = l is False or sel is True
        return (True if ok else False, "decoded although not selected", "a data message is decoded without it being established that there is no list or that its id is selected: " + lab, "decoded only when there is no list or the id is selected")
    ok = l is True and sel is False
    return (True if ok else False, "ignored although selected", "a data message is ignored without it being established that a list is given and its id is not selected: " + lab, "ignored only when a list is given and the id is not selected")

def c14_end(col, init):
    col.floor("decoded data items", 1, "decoded data messages")

# ---------------------------------------------------------------- C15
def c15(n, col):
    for o in n.outs:
        if o.self1 is None or o.kind != "ok":
            continue
        lab = where(n, o)
        if o.mv == "LoggedData":
            d = get(n.P, unref(o.msg.args[2]), "data")
            x = get(n.P, d, "multi_id_index") if d is not None else None
            s = subscription(n)
            if x is None or s is None:
                col.ob(None, "index", "index not visible: " + lab)
                continue
            nm = sub_field(n, s, "message_name")
            sets = [(t, has(o, t, n, nm)) for t in the(n, "set") if t[5] is None]
            known = [(t, h) for t, h in sets if h is not None]
            col.count("decoded data items")
            if x.op == "adt" and x.args[1] == 1:
                want = sub_field(n, s, "multi_id")
                col.ob(same(o, x.args[2], want), "index value", "the instance index is %s instead of %s (%s)" % (short(x.args[2]), short(want), n.label()), sample="multi_id_index = Some(%s)" % short(want))
                yes = [t for t, h in known if h is True]
                col.ob(True if yes else (None if not tracked(n) else False), "index without instances", "data carries an index although its name is not known to have several instances: " + lab, sample="Some only under has(%s, name)" % (yes[0][0] if yes else "?"))
                for t in yes:
                    col.put("tracks", t[0])
            elif x.op == "adt" and x.args[1] == 0:
                nos = [t for t, h in known if h is False]
                col.ob(True if nos else (None if not tracked(n) else False), "index missing", "data carries no index although its name may have several instances: " + lab, sample="None only under not has(%s, name)" % (nos[0][0] if nos else "?"))
                for t in nos:
                    col.put("tracks", t[0])
            else:
                col.ob(None if tainted(x) else False, "index value", "the instance index is %s (%s)" % (short(x), lab))
        for t in the(n, "set"):
            if t[5] is not None or t[2] not in ("String", "str"):
                continue
            p = ops(n, o, t)
            if o.mv == "AddSubscription":
                pl = unref(o.msg.args[2])
                nm, mi = get(n.P, pl, "message_name"), get(n.P, pl, "multi_id")
                pos = o.facts.ge(sub(mi, ONE)) is True
                zero = o.facts.zero(mi) is True
                ins = None if p is None else any(q[0] == "ins" and same(o, q[1], nm) for q in p)
                # already there is as good as inserted
                inn = ins or (p == [] and has(o, t, n, nm) is True)
                odd = p is not None and any(q[0] != "ins" or not same(o, q[1], nm) for q in p)
                col.put("adds", (t[0], "unknown" if p is None else "odd" if odd else "in" if inn else "out", "pos" if pos else "zero" if zero else "?", lab, n.state))
            elif p:
                col.put("adds", (t[0], "other", "?", lab, n.state))
            elif p is None:
                col.put("adds", (t[0], "unknown", "?", lab, n.state))

def tracked(n):
    return [t for t in the(n, "set") if t[5] is None and t[2] in ("String", "str")]

def c15_end(col, init):
    tr = set(col.data.get("tracks", []))
    if len(tr) != 1:
        col.ob(None if not tr else False, "tracking set", "the names with several instances are not kept in one place: %s" % sorted(tr))
        return
    t0 = tr.pop()
    for t, what, mi, lab, st in set(col.data.get("adds", [])):
        if t != t0:
            continue
        col.count("subscription paths")
        if what == "unknown":
            col.ob(None, "instances", "unknown update of %s: %s" % (t, lab))
        elif what in ("odd", "other"):
            col.ob(False, "instances changed", "%s is changed other than by a subscription's own name: %s" % (t, lab))
        elif what == "in":
            col.ob(mi == "pos", "name recorded", "a name is recorded as having several instances by a subscription whose index may be zero: " + lab, sample="recorded only when multi_id > 0")
        else:
            col.ob(mi == "zero", "name not recorded", "a subscription whose index may be non-zero does not record its name as having several instances: " + lab, sample="not recorded only when multi_id == 0")
    col.floor("decoded data items", 1, "decoded data messages")
    col.floor("subscription paths", 2, "subscriptions")

# ---------------------------------------------------------------- the allow list's way in
def method(P, owner, name):
    fs = P.fns.values() if isinstance(P.fns, dict) else P.fns
    return [f for f in fs if f.path.split("::")[-1] == name and owner in f.path and f.path.startswith("yule_log::")]

def listed_names(facts, v, src):
    """is v the set of all elements of src, each as a string? True / False / None"""
    if v.op == "adt" and v.args[0] == OPT:
        if v.args[1] == 0:
            return False
        v = v.args[2]
    if v is src:
        return True
    if v.op == "mnew":
        return False
    if v.op == "setof":
        x = v.args[0]
        if x in (mk("items", src), mk("keys", src)):
            return True
        if x.op == "star" and len(x.args[3]) == 1:
            c, p = x.args[3][0].args
            n = x.args[1]
            el = None
            for kind in ("items", "keys"):
                it = mk(kind, src)
                if facts.same(n, slen(it)) is True:
                    el = it
            if el is None:
                return None
            if p.op == "one":
                e = p.args[0]
                while e.op in ("into", "tostr", "ref", "sub") and e.op != "sub":
                    e = e.args[0]
                if c is TRUE and e is sat(el, bv(x.args[0])):
                    return True
                return False if not tainted(e) and e.op == "rcall" else None
        if x.op in ("sub", "lit"):
            return False
    return None

def allow_list_setup(P, col, tier):
    pairs = roots.invariants(P)
    done = 0
    for owner in ("ULogParserBuilder", "ULogParser<", "ULogParser::<"):
        for f in method(P, owner, "set_subscription_allow_list"):
            I_, rets, s0 = roots.run_method(P, f, pairs if "Builder" not in f.path else ())
            for s, v in rets:
                v1 = s.store.get(("s", "self"), v)
                t = adt_type(P, v1.args[0]) if v1.op == "adt" else None
                if t is None:
                    col.ob(None, "setup", "result of %s not visible" % f.path)
                    continue
                col.count("set-up paths")
                src = mk("sym", "arg1")
                r = filter_of(P, v1, t)
                if r is None:
                    col.ob(None, "setup", "the allow list is not visible in the result of %s" % f.path)
                    continue
                nm, ids = r
                col.ob(listed_names(s.facts, nm, src), "list given", "%s does not keep the given names: %s" % (f.path, short(nm)), sample="%s: names := %s" % (f.path.split("::")[-2], short(nm, 80)))
                if ids is not None:
                    col.ob(ids.op == "adt" and ids.args[1] == 1 and ids.args[2].op == "mnew" or (False if ids.op == "adt" else None), "ids given", "%s does not start with an empty selection: %s" % (f.path, short(ids)))
                done += 1
    for f in method(P, "ULogParserBuilder", "build"):
        I_, rets, s0 = roots.run_method(P, f)
        bt = P.types[f.locals[1]]
        bi = [i for i, x in enumerate(bt["variants"][0]["fields"]) if optset(P, x[1])]
        if len(bi) != 1:
            col.ob(None, "setup", "the builder's list is not identified")
            continue
        bf = I_.proj1(s0, ("f", 0, bi[0], bt["path"], len(bt["variants"][0]["fields"]), bt["variants"][0]["fields"][bi[0]][1]))
        z = I_.discr(bf, bt["variants"][0]["fields"][bi[0]][1])
        for s, v in rets:
            if v.op != "adt" or v.args[1] != 0:
                continue
            p = v.args[2]
            t = adt_type(P, p.args[0]) if p.op == "adt" else None
            r = filter_of(P, p, t) if t else None
            if r is None:
                col.ob(None, "setup", "the parser built is not visible")
                continue
            col.count("set-up paths")
            nm, ids = r
            zz = s.facts.zero(z)
            if nm is bf:
                ok = True
            elif zz is True:
                ok = nm.op == "adt" and nm.args[1] == 0
            elif zz is False:
                ok = listed_names(s.facts, nm, fld(bf, 1, 0, OPT, 1))
            else:
                ok = False if nm.op == "adt" and nm.args[1] == 0 else None
            col.ob(ok, "list passed on", "the parser built from a builder %s list carries %s" % ("without a" if zz else "with a", short(nm)), sample="build: %s" % short(nm, 80))
            if ids is not None and nm.op == "adt" and nm.args[1] == 1:
                col.ob(ids.op == "adt" and ids.args[1] == 1 and ids.args[2].op == "mnew" or (False if ids.op == "adt" else None), "ids given", "the parser is built without an empty selection: %s" % short(ids))
    col.floor("set-up paths", 4, "ways to give the list")

def adt_type(P, path):
    for t in P.types:
        if t["k"] == "adt" and t["path"] == path and t.get("crate") == "yule_log":
            return t
    return None

def optset(P, tid):
    t = P.types[tid]
    if t["k"] != "adt" or t["path"] != OPT:
        return None
    u = P.types[t["args"][0]]
    if u["k"] == "adt" and stripname(u["path"]) in SETS:
        return P.types[u["args"][0]]["s"].split("::")[-1]
    return None

def filter_of(P, v, t, d=0):
    """(names, ids) options inside a value"""
    nm = ids = None
    if v.op != "adt":
        return None
    fs = t["variants"][0]["fields"]
    for i, f in enumerate(fs):
        k = optset(P, f[1])
        x = v.args[2 + i]
        if k == "String":
            nm = x
        elif k == "u16":
            ids = x
        elif k is None and d < 2 and P.types[f[1]]["k"] == "adt" and P.types[f[1]].get("crate") == "yule_log" and not P.types[f[1]].get("enum"):
            r = filter_of(P, x, P.types[f[1]], d + 1)
            if r:
                return r
    return None if nm is None else (nm, ids)

def same_f(f, a, b):
    """are two values the same under the facts f? True / False / None"""
    if a is None or b is None:
        return None
    a, b = unref(a), unref(b)
    if a is b or f.same(a, b) is True:
        return True
    for x, y in ((a, b), (b, a)):
        if x in (TRUE, FALSE) and f.ev(y) is (x is TRUE):
            return True         # a constant on a path whose facts fix the other to it
    if boolnorm(a) is boolnorm(b):
        return True
    return None if tainted(a) or tainted(b) else False
