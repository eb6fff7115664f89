"""The encoder: what every Encode implementation writes, as a term over its value (C10, C11, and the writing half of C12, C19, C20)."""
from terms import *
import terms, roots, interp, q_data as D
import ck, q_fields as F
from ck import Col, short
from nextq import *
from models import STREAM
from facts import Facts

OK, ERR = 0, 1
CUT = ("inst::FieldValue", "inst::ParameterValue")

def impls(P):
    """{type path: [Encode::encode functions]} of the crate's own types"""
    out = {}
    for f in P.fns.values():
        t = f.j.get("impl_trait") or ""
        if f.name == "encode" and t.endswith("::Encode") and f.local:
            k = P.types[f.j["impl_self"]]
            if k["k"] == "adt":
                out.setdefault(k["path"], []).append(f)
    return out

def short_path(p):
    return "::".join(p.split("::")[-2:])

def cut(I, st, g, args, c):
    """an Encode call on a value of one of the branching types: write `emit(type, value)`, or fail"""
    if g.name != "encode" or not (g.j.get("impl_trait") or "").endswith("::Encode"):
        return None
    k = I.P.types[g.j["impl_self"]]
    if k["k"] != "adt" or short_path(k["path"]) not in CUT:
        return None
    w = args[1]
    while w.op == "vref" or (w.op == "ref" and isinstance(I.rd(st, w.args[0], w.args[1]), T) and I.rd(st, w.args[0], w.args[1]).op == "ref"):
        w = w.args[0] if w.op == "vref" else I.rd(st, w.args[0], w.args[1])
    if w.op != "ref":
        return None
    v = I.rd(st, w.args[0], w.args[1])
    if not is_seq(v):
        return None
    x = I.freeze(st, args[0])
    while x.op == "vref":
        x = x.args[0]
    if I.opts.get("cut_known") is False and x.op == "adt":
        return None         # a known shape: encode it here
    e = mk("emit", short_path(k["path"]), x)
    LENRANGE.setdefault(e, (0, 1 << 40))
    s = st.copy()
    I.wr(s, w.args[0], w.args[1], cat(v, e))
    s2 = st.copy()
    s2.store[("g", "wfail")] = TRUE
    p = mk("partial", v, e)
    LENRANGE.setdefault(p, (0, 1 << 40))
    I.wr(s2, w.args[0], w.args[1], p)
    return [(s, adt(interp.RES, 0, UNIT)), (s2, adt(interp.RES, 1, adt("io.err", 0, mk("sym", "wkind"))))]

class Run:
    """one Encode implementation run on an arbitrary value (of one variant)"""
    def __init__(self, P, f, variant=None):
        self.P, self.f = P, f
        self.I = I_ = interp.Interp(P, {"errkeep": True, "cut": cut, "maxfacts": 400})
        st, fid = roots.start(I_, f, [None] * f.argc)
        self.tid = P.types[f.locals[1]]["to"]
        nm = "the " + short_path(P.types[self.tid]["path"]) if P.types[self.tid]["k"] == "adt" else "self"
        st.store[(fid, 1)] = roots.mem_sym(I_, st, nm, self.tid)
        self.self0 = st.store[("s", nm)]
        st.store[("s", "W")] = EMPTY
        st.store[(fid, 2)] = mk("ref", ("s", "W"), ())
        self.variant = variant
        if variant is not None:
            st.facts = st.facts.assume(ieq(I_.discr(self.self0, self.tid), I(variant)))
        self.rets = roots.run_root(I_, f, st, fid)

    def oks(self):
        return [(s, s.store[("s", "W")]) for s, v in self.rets if v.op == "adt" and v.args[1] == 0]

    def errs(self):
        return [(s, s.store[("s", "W")], v) for s, v in self.rets if v.op == "adt" and v.args[1] == 1]

    def other(self):
        return [(s, v) for s, v in self.rets if v.op != "adt"]

    def name(self):
        r = short_path(self.P.types[self.tid]["path"])
        if self.variant is not None:
            r += "::" + self.P.types[self.tid]["variants"][self.variant]["name"]
        return r

def the(P, suffix, variant=None):
    """the run of the generic Encode implementation of one type"""
    for p, fs in impls(P).items():
        if short_path(p) == suffix:
            for f in fs:
                if P.tystr(f.locals[2]) == "&mut W":
                    return Run(P, f, variant)
            return Run(P, fs[0], variant)
    return None

def variants(P, suffix):
    t = F.ltype(P, suffix)
    return [(i, v) for i, v in enumerate(t["variants"])] if t else []

def parts(w):
    return list(w.args) if w.op == "cat" else ([] if w is EMPTY else [w])

def skip(w, n):
    """(the first n bytes, the rest), n constant"""
    return ssub(w, ZERO, I(n)), ssub(w, I(n), sub(slen(w), I(n)))

def odd(t):
    return tainted(t) or "partial" in {x.op for x in subterms(t)}

def problem(r):
    """what keeps a run from being judged"""
    for e in r.I.events:
        if e.kind == "opaque":
            return "%s at %s" % (short(e.detail, 80), e.line)
        if e.kind == "rcall":
            return "a recursive call at %s" % e.line
    return None

# ------------------------------------------------------------------------- C11
KEYED = {"Info": 0, "MultiInfo": 1, "Parameter": 0, "DefaultParameter": 1}

def c11(P, pid, tier, t0):
    c = Col()
    for i, v in variants(P, "msg::UlogMessage"):
        r = the(P, "msg::UlogMessage", i)
        if r is None:
            c.notes["encode"] = "no Encode implementation of UlogMessage"
            break
        nm = v["name"]
        pb = problem(r)
        if pb:
            c.ob(None, nm + ": unmodelled", "encoding a %s: %s" % (nm, pb))
        c.count("message kinds")
        for s, x in r.other():
            c.ob(None, nm + ": result", "encoding a %s returns %s" % (nm, short(x)))
        for s, w in r.oks():
            c.count("successful encodings")
            lost = ("g", "wfail") in s.store
            c.ob(not lost, nm + ": writer error", "encoding a %s returns Ok although the writer failed (path: %s)" % (nm, path(s)), sample="%s: no Ok after a failed write" % nm)
            if lost:
                continue
            if nm == "Header":
                continue
            if nm == "Ignored":
                c.ob(True if w is EMPTY else (None if odd(w) else False), "Ignored: frame", "encoding an ignored-message placeholder writes %s" % short(w), sample="Ignored: writes nothing")
                continue
            frame(P, c, s.facts, nm, w)
            if nm in KEYED:
                keyed(P, c, s.facts, nm, w)
        for s, w, x in r.errs():
            c.count("failing encodings")
            if ("g", "wfail") in s.store:
                continue
            # refused without a writer error: only for a length beyond its prefix
            why = [b for b in limits(r, nm) if s.facts.ev(b) is True]
            c.ob(True if why else (None if odd(x) or any(l_odd(l) for l in s.facts.lits) else False), nm + ": refusal",
                 "encoding a %s fails without a writer error and without a length that does not fit (path: %s)" % (nm, path(s)), sample="%s: refused only when a length does not fit its prefix" % nm)
        if nm not in ("Header", "Ignored"):
            c.ob(bool(r.oks()) or None, nm + ": encodable", "no path encodes a %s" % nm)
    # the types whose encoding is one piece above: they report a failed write, and fail for nothing else
    for suf in CUT:
        t = F.ltype(P, suf)
        if t is None:
            continue
        for i in (range(len(t["variants"])) if t.get("enum") else [None]):
            r = the(P, suf, i)
            if r is None:
                continue
            c.count("value encodings")
            pb = problem(r)
            if pb:
                c.ob(None, r.name() + ": unmodelled", "encoding a %s: %s" % (r.name(), pb))
            for s, w in r.oks():
                lost = ("g", "wfail") in s.store
                c.ob(not lost, r.name() + ": writer error", "encoding a %s returns Ok although the writer failed" % r.name())
            for s, w, x in r.errs():
                c.ob(True if ("g", "wfail") in s.store else (None if odd(x) else False), r.name() + ": refusal", "encoding a %s fails without a writer error (path: %s)" % (r.name(), path(s)))
    # every other encoding is callable on its own: it reports a failed write
    done = set(CUT) | {"msg::UlogMessage"}
    for tp in sorted(impls(P)):
        suf = short_path(tp)
        if suf in done:
            continue
        r = the(P, suf)
        c.count("encodings of parts")
        pb = problem(r)
        if pb:
            c.ob(None, suf + ": unmodelled", "encoding a %s: %s" % (suf, pb))
        for s, w in r.oks():
            c.ob(("g", "wfail") not in s.store, suf + ": writer error", "encoding a %s returns Ok although the writer failed" % suf, sample="%s: no Ok after a failed write" % suf)
    c.floor("message kinds", 14, "the variants of UlogMessage")
    c.floor("successful encodings", 12, "every kind of message")
    c.floor("encodings of parts", 15, "the Encode implementations below a message")
    c.floor("keys", 4, "info, multi info, parameter and default parameter")
    return ck.report(pid, c, tier, t0, C11_RULE)

C11_RULE = ("Every Encode implementation reachable from UlogMessage's is run on an arbitrary value of each variant, path by path, against a writer that may fail at any write; the written bytes are one term. "
            "On every path that returns Ok no write failed, the first two bytes encode exactly the length of the term after the type byte, at most 65535 by the path's facts; the key's length byte is the length of the "
            "key's bytes, at most 255; a placeholder writes nothing; an error without a failed write needs a path fact that a length exceeds its prefix.")

def l_odd(l):
    return isinstance(l, T) and tainted(l)

def path(s):
    return ", ".join(short(l, 70) for l in sorted(s.facts.lits, key=lambda x: x.id)[:4])

def limits(r, nm):
    """`length > limit` conditions under which a kind may be refused: those of its successful encodings"""
    out = []
    for s, w in r.oks():
        if s.facts.ge(sub(slen(w), I(3))) is not True:
            continue
        out.append(ge0(sub(sub(slen(w), I(3)), I(65536))))
        if nm in KEYED:
            _, body = skip(w, 4 + KEYED[nm])
            ps = parts(body)
            if ps and ps[-1].op == "emit":
                out.append(ge0(sub(slen(cat(*ps[:-1])), I(256))))
    return out

def fits(f, x):
    """a narrowed number that the path knows to fit is that number"""
    while x is not None and x.op == "wrap":
        lo, hi = irange(x.args[0], x.args[1])
        if f.ge(sub(x.args[2], I(lo))) is not True or f.ge(sub(I(hi), x.args[2])) is not True:
            break
        x = x.args[2]
    return x

def num16(f, two):
    """the number whose little-endian encoding two bytes are"""
    ps = parts(two)
    if len(ps) == 1 and ps[0].op == "enc" and ps[0].args[0] == "u16":
        return ps[0].args[1]
    if two.op == "lit":
        return I(int.from_bytes(bytes(two.args[0]) if not isinstance(two.args[0], str) else two.args[0].encode("latin1"), "little"))
    if len(ps) == 1:
        return decode("u16", two)
    return None

def frame(P, c, f, nm, w):
    c.count("frames")
    n = slen(w)
    if f.ge(sub(n, I(3))) is not True:
        return c.ob(None if odd(w) else False, nm + ": frame", "encoding a %s writes %s, which is not a frame" % (nm, short(w)))
    two, rest = skip(w, 2)
    ty, body = skip(rest, 1)
    x = fits(f, num16(f, two))
    ok = x is not None and f.same(x, slen(body)) is True and f.ge(sub(I(65535), slen(body))) is True
    c.ob(True if ok else (None if x is None or odd(w) else False), nm + ": size prefix",
         "the size prefix of an encoded %s is %s, its body is %s bytes long (%s)" % (nm, short(two), short(slen(body)), short(w, 120)), sample="%s: size %s" % (nm, short(x) if x is not None else "?"))

def keyed(P, c, f, nm, w):
    """one(k) key-bytes: k is the length of what precedes the value"""
    c.count("keys")
    _, body = skip(w, 3 + KEYED[nm])
    kb, rest = skip(body, 1)
    k = fits(f, sat(body, ZERO))
    val = None
    ps = parts(rest)
    if ps and ps[-1].op == "emit" and ps[-1].args[0].endswith(("FieldValue", "ParameterValue")):
        val = ps[-1]
        key = cat(*ps[:-1])
        ok = f.same(k, slen(key)) is True and f.ge(sub(I(255), slen(key))) is True
        c.ob(True if ok else (None if odd(w) else False), nm + ": key length", "the key length byte of an encoded %s is %s, the key is %s bytes long" % (nm, short(k), short(slen(key))), sample="%s: key length %s" % (nm, short(k)))
    else:
        c.ob(None, nm + ": key", "the value of an encoded %s was not found in %s" % (nm, short(w)))

# ------------------------------------------------------------------------- C10
def run_on(I_, f, v, facts, known=True):
    """run an Encode implementation on a given value: [(state, written)] of its Ok results, or None"""
    ev0, cut0 = len(I_.events), (I_.opts.get("cut"), I_.opts.get("cut_known"))
    I_.opts["cut"], I_.opts["cut_known"] = cut, not known
    try:
        s, fid = roots.start(I_, f, [None] * f.argc)
        s.store[("s", "V")] = v
        s.store[(fid, 1)] = mk("ref", ("s", "V"), ())
        s.store[("s", "W")] = EMPTY
        s.store[(fid, 2)] = mk("ref", ("s", "W"), ())
        s.facts = facts
        rets = roots.run_root(I_, f, s, fid)
        bad = [e for e in I_.events[ev0:] if e.kind in ("opaque", "rcall")]
    finally:
        I_.opts["cut"], I_.opts["cut_known"] = cut0
        del I_.events[ev0:]
    return [(s, s.store[("s", "W")]) for s, x in rets if x.op == "adt" and x.args[1] == 0], bad

def generic(P, suffix):
    for p, fs in impls(P).items():
        if short_path(p) == suffix:
            for f in fs:
                if P.tystr(f.locals[2]) == "&mut W":
                    return f
            return fs[0]
    return None

def canon(w):
    """booleans in the log are 0 or 1: the byte a boolean was read from is the byte it is written as"""
    m = {}
    for x in subterms(w):
        if x.op == "b2i":
            b = boolnorm(x.args[0])
            for y in subterms(b):
                if y.op == "at" and not_(ieq(y, ZERO)) is b:
                    m[x] = y
    for _ in range(2):
        if m:
            w = subst(w, m)
    return merge(w)

def merge(w):
    """runs of equal-width pieces of one sequence are that stretch of it"""
    out = []
    for p in parts(w):
        if p.op == "star":
            d, n, k, alts = p.args
            if len(alts) == 1 and alts[0].args[0] is TRUE:
                q_ = alts[0].args[1]
                e = bv(d)
                if q_.op == "one":
                    x = q_.args[0]
                    while x.op == "adt" and len(x.args) == 3:      # the crate's one-byte character
                        x = x.args[2]
                    q_ = ssub(x.args[0], x.args[1], ONE) if x.op == "at" else q_
                if q_.op == "sub" and not mentions(q_.args[0], e):
                    wd = q_.args[2]
                    p0 = subst(q_.args[1], {e: ZERO})
                    if wd.op == "int" and sub(q_.args[1], p0) is scale(e, wd.args[0]):
                        p = ssub(q_.args[0], p0, scale(n, wd.args[0]))
        out.append(p)
    return cat(*out)

def byte_is(f, src, off, v, boolean=False):
    b = sat(src, off)
    if boolean and v is ONE and f.ev(ieq(b, ZERO)) is False:
        return True             # a boolean's byte (0 or 1) that is not 0
    return f.ev(ieq(b, v))

def same_bytes(f, w, src, start, n, boolean=False):
    """is w, piece by piece, src[start..start+n]? True / None (cannot tell) / text"""
    off = start
    ps = parts(canon(w))
    for p in ps:
        ln = slen(p)
        if p.op == "lit":
            bs = p.args[0] if not isinstance(p.args[0], str) else p.args[0].encode("latin1")
            if f.ev(eq(ssub(src, off, ln), p)) is not True:
                for i, b in enumerate(bs):
                    if byte_is(f, src, add(off, I(i)), I(b), boolean) is not True:
                        if i < 2 and p is ps[0] and f.same(I(int.from_bytes(bytes(bs[:2]), "little")), le("u16", src, start)) is True:
                            continue
                        return "%s is written where byte %s stood" % (short(p), short(add(off, I(i))))
        elif p.op == "sub":
            if p.args[0] is not src or f.same(p.args[1], off) is not True:
                return "%s is written at the place of the bytes at %s" % (short(p), short(off))
        elif p.op == "enc":
            if f.same(p.args[1], le(p.args[0], src, off)) is not True:
                return "%s is written where %s stood" % (short(p), short(le(p.args[0], src, off)))
        elif p.op == "one":
            if byte_is(f, src, off, p.args[0], boolean) is not True:
                if any(x.op == "at" and x.args[0].op == "cat" for x in subterms(p)):
                    return None         # picked from a table by position
                return "%s is written where byte %s stood" % (short(p), short(off))
        else:
            return "%s is written at the place of the bytes at %s" % (short(p), short(off))
        off = add(off, ln)
    if f.same(sub(off, start), n) is not True:
        return "%s bytes are written for %s" % (short(sub(off, start)), short(n))
    return True

FIXED = ("FlagBits", "AddSubscription", "LoggedString", "TaggedLoggedString", "DropoutMark", "Unhandled", "Header")

def c10(n, col):
    P, I_ = n.P, n.I
    f = generic(P, "msg::UlogMessage")
    if f is None:
        return
    seen = set()
    for o in n.outs:
        if o.kind != "ok" or o.mv is None:
            continue
        if o.mv in FIXED:
            rets, bad = run_on(I_, f, o.msg, o.facts)
            for s, w in rets:
                if ("g", "wfail") in s.store:
                    continue
                col.count("yielded messages re-encoded")
                if bad or odd(w):
                    col.ob(None, o.mv + ": unmodelled", "re-encoding: %s" % (short(bad[0].detail) if bad else short(w)))
                    continue
                if o.mv == "Header":
                    fs, start, ln = s.facts, POS0, I(16)
                else:
                    start = n.m
                    ln = add(n.size, I(3))
                    # a message of exactly its fields: nothing after the last one
                    fs = s.facts.assume(ieq(slen(w), ln))
                if dead(fs):
                    col.ob(False, o.mv + ": length", "%s bytes are written for a %s message of %s bytes, which cannot be equal on that path (%s)" % (short(slen(w)), o.mv, short(ln), n.label()))
                    continue
                r = same_bytes(fs, w, STREAM, start, ln)
                col.ob(r if r in (True, None) else False, o.mv + ": bytes", "a %s message is re-encoded as %s: %s (%s)" % (o.mv, short(w), r, n.label()), sample="%s (%s): written bytes are the message's own" % (o.mv, n.label()))
                col.put("kinds", o.mv)
        elif o.mv in KEYED:
            v = get(P, unref(o.msg.args[2]), "value")
            value(P, I_, n, o, v, col)
            if o.mv in ("MultiInfo", "DefaultParameter"):
                col.put("flags", o.mv)

def dead(f):
    return f is None

def value(P, I_, n, o, v, col):
    """an embedded value: its encoding is the bytes of the message after the key"""
    nm = o.mv
    if v is None or v.op != "adt":
        return col.ob(None, nm + ": value", "the value of a %s is %s" % (nm, short(v)))
    suf = short_path(v.args[0])
    f = generic(P, suf)
    if f is None:
        return col.ob(None, nm + ": value", "no Encode for %s" % suf)
    if any(x.op in ("res", "hv", "rcall") for x in subterms(v)):
        return col.ob(None, nm + ": value", "a nested value") if False else None
    kl = sat(STREAM, add(n.body, I(KEYED[nm])))
    p0 = add(add(n.body, I(KEYED[nm] + 1)), kl)
    ln = sub(add(n.body, n.size), p0)
    rets, bad = run_on(I_, f, v, o.facts)
    for s, w in rets:
        if ("g", "wfail") in s.store:
            continue
        col.count("embedded values re-encoded")
        if bad or odd(w):
            col.ob(None, nm + ": value", "re-encoding: %s" % (short(bad[0].detail) if bad else short(w)))
            continue
        fs = s.facts.assume(ieq(slen(w), ln))
        if dead(fs):
            col.ob(None if summarised(w) else False, nm + ": value length", "%s value bytes are written for %s" % (short(slen(w)), short(ln)))
            continue
        r = same_bytes(fs, w, STREAM, p0, ln, vname(v.args[0], v.args[1]) == "ScalarBool")
        col.ob(r if r in (True, None) else False, "%s: value (%s)" % (nm, vname(v.args[0], v.args[1])), "the value of a %s is re-encoded as %s: %s" % (nm, short(w), r), sample="%s: value %s" % (nm, short(v, 60)))
        col.put("values", vname(v.args[0], v.args[1]))

# ---- what each kind is written as, on an arbitrary value
NAMES = {"UINT8": "uint8_t", "UINT16": "uint16_t", "UINT32": "uint32_t", "UINT64": "uint64_t", "INT8": "int8_t", "INT16": "int16_t", "INT32": "int32_t", "INT64": "int64_t",
         "FLOAT": "float", "DOUBLE": "double", "BOOL": "bool", "CHAR": "char"}

def type_text(P, I_, f, ty):
    """the texts a type expression may have on a path: name, or name[size]; exactly one when the path determines it"""
    base = F.fproj(I_, P, ty, "def::TypeExpr", "base_type")
    asz = F.fproj(I_, P, ty, "def::TypeExpr", "array_size")
    bt = F.ltype(P, "def::BaseType")
    bd = I_.discr(base, F.ftid(P, "def::TypeExpr", "base_type"))
    ad = I_.discr(asz, F.ftid(P, "def::TypeExpr", "array_size"))
    z = f.zero(ad)
    out = []
    for i, v in enumerate(bt["variants"]):
        if f.zero(sub(bd, I(int(v["discr"])))) is False:
            continue
        if v["name"] in NAMES:
            t = lit(NAMES[v["name"]].encode())
        else:
            t = I_.proj1(base, ("f", i, 0, bt["path"], len(v["fields"]), v["fields"][0][1]))
        if z is not False:
            out.append(t)
        if z is not True:
            out.append(cat(t, lit(b"["), mk("text", "dec", fld(asz, 1, 0, OPT, 1)), lit(b"]")))
    return out

def star_is(P, I_, f, p, seq, piece):
    """p writes piece(facts, element) for every element of seq, in order: True / None / False"""
    if p.op != "star":
        return False
    d, n, k, alts = p.args
    if f.same(n, slen(seq)) is not True:
        return False
    e = mk("sym", "k*")
    f0 = f.assume(ge0(e)).assume(ge0(sub(sub(slen(seq), e), ONE)))
    r = True
    for a in alts:
        c = subst(a.args[0], {bv(d): e})
        got = subst(a.args[1], {bv(d): e})
        f1 = f0.assume(c)
        if f1 is None:
            continue
        want = piece(f1, sat(seq, e))
        if got not in want:
            return False
        if len(want) > 1:
            r = None            # right for one of the types the path allows: cannot tell
    return r

def template(P, r, s, nm):
    """[literal term | (sequence, piece)] the body of a kind must be, on this path"""
    I_, f = r.I, s.facts
    vt = P.types[r.tid]["variants"][r.variant]
    x = I_.proj1(r.self0, ("f", r.variant, 0, P.types[r.tid]["path"], len(vt["fields"]), vt["fields"][0][1]))
    if nm == "FormatDefinition":
        g = lambda name: F.fproj(I_, P, x, "def::Format", name)
        def fieldtext(f1, e):
            t = type_text(P, I_, f1, F.fproj(I_, P, e, "def::Field", "type"))
            return [cat(x, lit(b" "), F.fproj(I_, P, e, "def::Field", "name"), lit(b";")) for x in t]
        return [[g("name"), lit(b":"), (g("fields"), fieldtext)]]
    if nm == "LoggedData":
        g = lambda name: F.fproj(I_, P, x, "msg::LoggedData", name)
        data = g("data")
        fs = F.fproj(I_, P, data, "inst::Format", "fields")
        return [[mk("enc", "u16", g("msg_id")), (fs, lambda f1, e: emit1(F.fproj(I_, P, e, "inst::Field", "value")))]]
    if nm in KEYED:
        g = lambda name: F.fproj(I_, P, x, "msg::" + nm, name)
        fl = []
        if nm == "MultiInfo":
            fl = [one(b2i(g("is_continued")))]
        if nm == "DefaultParameter":
            fl = [one(g("default_types"))]
        out = []
        for t in type_text(P, I_, f, g("type")):
            key = cat(t, lit(b" "), g("key"))
            out.append(fl + [one(slen(key)), key, emitted(g("value"), "inst::FieldValue" if nm in ("Info", "MultiInfo") else "inst::ParameterValue")])
        return out
    return None

def emit1(v):
    return [emitted(v)]

def emitted(v, ty="inst::FieldValue"):
    while v.op == "vref":
        v = v.args[0]
    return mk("emit", ty, v)

def settle(f, w):
    """narrowings that the path knows to lose nothing, removed"""
    m = {}
    for x in subterms(w):
        if x.op == "wrap":
            y = fits(f, x)
            if y is not x:
                m[x] = y
        elif x.op == "sub" and x.args[1] is ZERO and x.args[2].op != "int" and f.same(x.args[2], slen(x.args[0])) is True:
            m[x.args[2]] = slen(x.args[0])          # all of it, counted by a loop
        elif x.op == "b2i" and f.ev(x.args[0]) is not None:
            m[x] = b2i(B(f.ev(x.args[0])))          # a flag the path has decided
    return subst(w, m) if m else w

def matches(P, I_, f, w, tmpl):
    """does w write the template? (True/None/False, where)"""
    ps = parts(w)
    flat = []
    for t in tmpl:
        if not isinstance(t, tuple):
            t = settle(f, t)
        if isinstance(t, tuple):
            flat.append(t)
        elif flat and not isinstance(flat[-1], tuple):
            flat[-1] = cat(flat[-1], t)
        else:
            flat.append(t)
    for t in flat:
        if isinstance(t, tuple):
            if not ps:
                return False, "the elements of %s are not written" % short(t[0])
            r = star_is(P, I_, f, ps[0], t[0], t[1])
            if r is not True:
                return r, "%s is written for the elements of %s" % (short(ps[0]), short(t[0]))
            ps = ps[1:]
        else:
            n = len(parts(t))
            got = cat(*ps[:n])
            # a literal of what follows may have been joined to this one's end: compare what is there
            if got is not t:
                return False, "%s is written instead of %s" % (short(cat(*ps)), short(t))
            ps = ps[n:]
    if ps:
        return False, "%s is written besides" % short(cat(*ps))
    return True, ""

TEMPL = ("FormatDefinition", "LoggedData", "Info", "MultiInfo", "Parameter", "DefaultParameter")
CLSBYTE = {"FormatDefinition": "F", "LoggedData": "D", "Info": "I", "MultiInfo": "M", "Parameter": "P", "DefaultParameter": "Q"}

def c10_also(P, col, tier):
    for i, v in variants(P, "msg::UlogMessage"):
        nm = v["name"]
        if nm not in TEMPL:
            continue
        r = the(P, "msg::UlogMessage", i)
        if r is None:
            col.notes["encode"] = "no Encode implementation of UlogMessage"
            return
        pb = problem(r)
        if pb:
            col.ob(None, nm + ": unmodelled", "encoding a %s: %s" % (nm, pb))
            continue
        for s, w in r.oks():
            if ("g", "wfail") in s.store:
                continue
            col.count("symbolic encodings")
            if s.facts.ge(sub(slen(w), I(3))) is not True:
                col.ob(None if odd(w) else False, nm + ": frame", "a %s is written as %s" % (nm, short(w)))
                continue
            _, rest = skip(w, 2)
            ty, body = skip(rest, 1)
            ok = ty is lit(CLSBYTE[nm].encode())
            col.ob(True if ok else (None if odd(ty) else False), nm + ": type byte", "a %s is written with type byte %s" % (nm, short(ty)), sample="%s: type byte %s" % (nm, short(ty)))
            t = template(P, r, s, nm)
            body = settle(s.facts, body)
            res = [matches(P, r.I, s.facts, body, x) for x in t]
            ok, why = res[0]
            if len(t) > 1:
                # what is written is the same for types that are spelled differently
                hit = [x for x in res if x[0] is not False]
                ok, why = (None, why) if any(x[0] is None for x in hit) else (False, "%s is written whatever its type is (path: %s)" % (short(body), path(s)))
            col.ob(True if ok else (None if ok is None or odd(body) else False), nm + ": fields", "a %s: %s" % (nm, why), sample="%s: body is %s" % (nm, short(body, 120)))
            col.put("kinds", nm)
    values(P, col)

def make_value(P, I_, vt, kind, arr):
    """the value C09 has the decoder build from the bytes at POS0: one element, or n of them"""
    ty = vt["fields"][0][1]
    n = mk("sym", "n*")
    w = F.width(kind)
    if not arr:
        x = F.dec(kind, STREAM, POS0)
        if kind == "char":
            x = wrapc(P, ty, x)
        return x, I(w)
    et = P.types[ty]
    elem = None
    for a in et.get("args", []) or []:
        if a is not None and P.types[a]["k"] in ("adt", "int", "uint", "float", "bool"):
            elem = a
            break
    b = mk("sym", "b*")
    x = F.dec(kind, STREAM, add(POS0, scale(b, w)))
    if kind == "char":
        x = wrapc(P, elem, x)
    return star(n, [(TRUE, one(x))], b), scale(n, w)

def wrapc(P, ty, x):
    t = P.types[ty]
    if t["k"] == "adt" and not t.get("enum") and len(t["variants"][0]["fields"]) == 1:
        return adt(t["path"], 0, x)
    return x

def values(P, col):
    """every kind of value: decoded as C09 requires, it is written back as the bytes it came from"""
    f = generic(P, "inst::FieldValue")
    t = F.ltype(P, "inst::FieldValue")
    if f is None or t is None:
        return
    for i, v in enumerate(t["variants"]):
        nm = v["name"]
        arr = nm.startswith("Array")
        kind = {x: k for k, x in F.BUILTIN.values()}.get(nm[len("Array"):] if arr else nm[len("Scalar"):])
        r = the(P, "inst::FieldValue", i)
        if kind is None:
            for s, w in r.oks():
                if ("g", "wfail") in s.store:
                    continue
                col.count("nested value encodings")
                x = r.I.proj1(r.self0, ("f", i, 0, t["path"], 1, v["fields"][0][1]))
                piece = lambda f1, e: emit1(F.fproj(r.I, P, e, "inst::Field", "value"))
                if arr:
                    ok = outer_star(P, r.I, s.facts, w, x, piece)
                else:
                    ok = star_is(P, r.I, s.facts, w, F.fproj(r.I, P, x, "inst::Format", "fields"), piece)
                col.ob(True if ok else (None if ok is None or odd(w) or problem(r) else False), nm + ": nested", "a nested value is written as %s" % short(w), sample="%s: every field of every element, in order" % nm)
                col.put("values", nm)
            continue
        I_ = interp.Interp(P, {"errkeep": True})
        x, ln = make_value(P, I_, v, kind, arr)
        rets, bad = run_on(I_, f, adt(t["path"], i, x), Facts().assume(ge0(mk("sym", "n*"))))
        for s, w in rets:
            if ("g", "wfail") in s.store:
                continue
            col.count("value encodings")
            if bad or odd(w):
                col.ob(None, nm + ": unmodelled", "encoding: %s" % (short(bad[0].detail) if bad else short(w)))
                continue
            q_ = same_bytes(s.facts, w, STREAM, POS0, ln, kind == "bool" and not arr)
            col.ob(q_ if q_ in (True, None) else False, nm + ": bytes", "%s decoded from its bytes is written as %s: %s" % (nm, short(w), q_), sample="%s is written as the bytes it was read from" % nm)
            col.put("values", nm)

def outer_star(P, I_, f, w, seq, piece):
    if w.op != "star":
        return False
    d, n, k, alts = w.args
    if f.same(n, slen(seq)) is not True or len(alts) != 1:
        return False
    e = mk("sym", "j*")
    inner = subst(alts[0].args[1], {bv(d): e})
    f1 = f.assume(subst(alts[0].args[0], {bv(d): e}))
    if f1 is not None and n.op == "lvx":
        # what holds at the end of every round of the outer loop (the inner loop ran to its end)
        l = I_.loops.get(n.args[0])
        if l is not None and len(l["conds"]) == 1:
            f1 = f1.assume(subst(l["conds"][0], {l["k"]: e}))
    return True if f1 is None else star_is(P, I_, f1.assume(ge0(e)), inner, F.fproj(I_, P, sat(seq, e), "inst::Format", "fields"), piece)

def c10_end(col, init):
    kinds = set(col.data.get("kinds", []))
    for k in FIXED:
        if k not in kinds:
            col.notes["kind:" + k] = "no %s message was re-encoded" % k

def c10_all(P, col, tier):
    c10_also(P, col, tier)
    kinds, vals = set(col.data.get("kinds", [])), set(col.data.get("values", []))
    for k in TEMPL:
        if k not in kinds and not any(x.startswith(k) for x in list(col.notes) + list(col.findings)):
            col.notes["kind:" + k] = "no %s message was encoded" % k
    for v in F.ltype(P, "inst::FieldValue")["variants"]:
        if v["name"] not in vals and not any(x.startswith(v["name"]) for x in list(col.notes) + list(col.findings)):
            col.notes["value:" + v["name"]] = "no %s was encoded" % v["name"]

C10_RULE = ("Composition of the decoder's and the encoder's terms: every message item a pull can yield is handed to the Encode implementation, and the written bytes, as one term, must be exactly the stretch of the stream the message occupied "
            "(type byte included). Kinds that carry text or decoded fields are encoded from an arbitrary value: the body must be their fields, each once, in wire order, and every kind of field value, built from its bytes as C09 requires, must be written back as those bytes.")
