"""What the accessors of messages, of character data and of the parser report (C37)."""
from terms import *
import terms, roots, interp
import ck, q_fields as F, q_encode as E, q_show as S
from ck import Col, short
from nextq import unref, tainted
from interp import Inconclusive

C37_RULE = ("Abstract interpretation of each accessor on an unknown receiver and argument: every return's value term must be the part of the receiver it names on that path "
            "(the table entry under the very key asked for exactly when it has one; the bit in its place; the byte; the whole byte sequence; its longest prefix without NULs at the end, judged over one arbitrary round of the loop)")

def of_type(P, name, suffix):
    """methods of that name whose receiver is (a reference to) the named type"""
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        if f.name == name and f.local and f.argc:
            k = P.types[f.locals[1]]
            while k["k"] == "ref":
                k = P.types[k["to"]]
            if k.get("path", "").endswith(suffix):
                out.append(f)
    return out

def of_chars(P, name):
    out = []
    for f in sorted(P.fns.values(), key=lambda f: f.path):
        if f.name == name and f.local and (f.j.get("impl_trait") or "").endswith("CCharSlice"):
            out.append(f)
    return out

def go(P, c, f, what):
    try:
        I_, rets, s0 = roots.run_method(P, f)
    except Inconclusive as e:
        c.ob(None, what, "%s: %s" % (what, e))
        return None
    odd = sorted({str(e.detail) for e in I_.events if e.kind in ("opaque", "rcall")})
    if odd:
        c.ob(None, what + ": unmodelled", "%s uses %s" % (what, odd[0]))
    c.count("accessors")
    L = stuck(I_)
    c.ob(L is None or (None if odd else False), what + ": ends", "%s has a round of its loop that changes nothing, and so never ends" % what, sample="every round of a loop changes what its condition looks at")
    out = [(r[0], r[1]) for r in rets if r[1] is not None]
    if not out:
        c.ob(None, what, "%s has no return" % what)
        return None
    return I_, out, s0, bool(odd)

def say(c, r, key, why, v, f, sample, odd):
    """r: True / False / None; unknown pieces are no evidence"""
    if r is False and (odd or blind(v) or any(blind(l) for l in f.lits)):
        r = None
    c.ob(r, key, why, sample=sample)

def c37(P, pid, tier, t0):
    c = Col()
    for name, kind in (("get_format", "UndefinedFormat"), ("get_subscription", "UndefinedSubscription")):
        fs = of_type(P, name, "::ULogParser")
        if not fs:
            c.ob(None, name, "no method %s" % name)
        for f in fs:
            lookup(P, c, f, name)
    for name, suffix, field, i, bit in (("has_default_parameters", "msg::FlagBits", "compat_flags", 0, 1), ("has_data_appended", "msg::FlagBits", "incompat_flags", 0, 1)):
        fs = of_type(P, name, suffix)
        if not fs:
            c.ob(None, name, "no method %s" % name)
        for f in fs:
            flag(P, c, f, name, suffix, field, i, bit)
    kinds(P, c)
    chars(P, c)
    c.floor("accessors", 14, "two lookups, two flags, the default kinds, two of a character, four of character sequences and of vectors of them")
    return ck.report(pid, c, tier, t0, C37_RULE)

def lookup(P, c, f, name):
    x = go(P, c, f, name)
    if x is None:
        return
    I_, rets, s0, odd = x
    an = mk("sym", "arg1")
    for s, v in rets:
        c.count("returns")
        if v.op != "adt":
            c.ob(None, name + ": result", "%s returns %s" % (name, short(v)))
            continue
        if v.args[1] == 0:
            e = unref(v.args[2])
            r = False
            if e.op == "mget" and unref(e.args[0]) is not None:
                k = unref(e.args[1])
                mine = any(y is s0 for y in F.walk(e.args[0]))
                r = mine and (k is an or k is deref(an) or s.facts.same(k, an) is True) and s.facts.ev(mk("has", *e.args)) is True
            say(c, bool(r), name + ": entry", "%s returns %s, which is not the entry for the key asked for" % (name, short(e)), e, s.facts, "%s returns the entry under the key asked for" % name, odd)
        else:
            miss = any(l.op == "not" and l.args[0].op == "has" and (unref(l.args[0].args[1]) is an or unref(l.args[0].args[1]) is deref(an)) and any(y is s0 for y in F.walk(l.args[0].args[0])) for l in s.facts.lits)
            say(c, miss, name + ": missing", "%s refuses a key although it was not found to be missing%s" % (name, S.where(s)), v, s.facts, "%s refuses only what is not there" % name, odd)

def bit_of(f, v, bits, b):
    """is the boolean the given bit of the byte, on this path: True / False"""
    z = f.zero(band(bits, I(b)))
    e = f.ev(v)
    if e is not None:
        return z is not None and e == (z is False)
    want = not_(eq(band(bits, I(b)), ZERO))
    return v is want or (f.assume(v) or f).zero(band(bits, I(b))) is False and (f.assume(not_(v)) or f).zero(band(bits, I(b))) is True

def flag(P, c, f, name, suffix, field, i, bit):
    x = go(P, c, f, name)
    if x is None:
        return
    I_, rets, s0, odd = x
    arr = F.fproj(I_, P, s0, suffix, field)
    for s, v in rets:
        c.count("returns")
        r = bit_of(s.facts, v, sat(unref(arr), I(i)), bit)
        say(c, bool(r), name, "%s returns %s, which is not bit %d of byte %d of %s" % (name, short(v), bit.bit_length() - 1, i, field), v, s.facts, "%s is its own bit" % name, odd)

def kinds(P, c):
    for f in of_type(P, "get_default_type", "msg::DefaultParameter"):
        x = go(P, c, f, "get_default_type")
        if x is None:
            continue
        I_, rets, s0, odd = x
        bits = None
        t = F.ltype(P, "msg::DefaultParameter")
        for fl in t["variants"][0]["fields"]:
            if P.tystr(fl[1]) == "u8":
                bits = unref(F.fproj(I_, P, s0, "msg::DefaultParameter", fl[0]))
        d = F.ltype(P, "msg::DefaultType")
        for s, v in rets:
            c.count("returns")
            if v.op != "adt" or bits is None or d is None:
                c.ob(None, "get_default_type", "get_default_type returns %s" % short(v))
                continue
            for j, fl in enumerate(d["variants"][0]["fields"]):
                b = {"system_wide": 1, "configuration": 2}.get(fl[0])
                if b is None:
                    c.ob(None, "get_default_type: " + fl[0], "no rule for the kind %s" % fl[0])
                    continue
                r = bit_of(s.facts, v.args[2 + j], bits, b)
                say(c, bool(r), "get_default_type: " + fl[0], "get_default_type reports %s as %s" % (fl[0], short(v.args[2 + j])), v, s.facts, "%s is its own bit" % fl[0], odd)

def same_bytes(f, v, x):
    v = unref(v)
    return v is x or v is deref(x) or f.same(v, x) is True

def chars(P, c):
    for f in of_type(P, "as_u8", "CChar") + of_type(P, "as_char", "CChar"):
        x = go(P, c, f, f.name)
        if x is None:
            continue
        I_, rets, s0, odd = x
        b = S.payload_byte(P, I_, s0, I_.strip(f.locals[1]) if P.types[f.locals[1]]["k"] != "ref" else P.types[f.locals[1]]["to"])
        for s, v in rets:
            c.count("returns")
            if f.name == "as_u8":
                r = same_bytes(s.facts, v, b)
            else:
                while unref(v).op in ("char", "chars"):
                    v = unref(v).args[0]
                ascii_ = s.facts.ev(ge0(sub(I(127), b)))
                r = same_bytes(s.facts, v, b) if ascii_ is True else (v is I(0xFFFD) if ascii_ is False else False)
            say(c, bool(r), f.name, "%s of a character returns %s%s" % (f.name, short(v), S.where(s)), v, s.facts, "%s is the byte" % f.name if f.name == "as_u8" else "as_char is the ASCII character or the replacement character", odd)
    for name, judge in (("as_bytes", lambda P, I_, s, v, x: same_bytes(s.facts, v, x)), ("to_string_lossy", lambda P, I_, s, v, x: lossy_of(s.facts, v, x)),
                        ("trim_end_nul", trimmed), ("to_string_lossy_trimmed", trimmed_text)):
        fs = of_chars(P, name)
        if not fs:
            c.ob(None, name, "no method %s of character sequences" % name)
        for f in fs:
            w = "%s of %s" % (name, P.tystr(f.j["impl_self"]).split("::")[-1].strip("]>"))
            r = go(P, c, f, w)
            if r is None:
                continue
            I_, rets, s0, odd = r
            for s, v in rets:
                c.count("returns")
                q = judge(P, I_, s, v, s0)
                say(c, q, name, "%s returns %s%s" % (name, short(v), S.where(s)), v, s.facts, "%s is right for every sequence" % name, odd)

def lossy_of(f, v, x):
    v = unref(v)
    return v.op == "lossy" and same_bytes(f, v.args[0], x)

NULS = lambda p: p.op in ("int", "lit") and p in (I(0), lit(b"\0")) or p.op == "char" and p.args[0] is I(0)

def trimmed_text(P, I_, s, v, x):
    v = unref(v)
    if v.op == "sub" and v.args[1] is ZERO:
        # cut to the length of what is left after trimming the same text
        for y in subterms(v.args[2]):
            if y.op == "text" and y.args[0] == "str::trim_end_matches" and unref(y.args[1]) is unref(v.args[0]) and s.facts.same(v.args[2], slen(y)) is True:
                v = y
                break
    if v.op == "text" and v.args[0] in ("str::trim_end_matches",):
        if len(v.args) == 3 and NULS(unref(v.args[2])):
            return lossy_of(s.facts, v.args[1], x)
        p = unref(v.args[2])
        if p.op == "pred":
            ch = mk("sym", "ch*")
            f0, f1 = s.facts.assume(ieq(ch, ZERO)), s.facts.assume(ge0(sub(ch, ONE))).assume(ge0(sub(I(0x10FFFF), ch)))
            if f0.ev(p.args[0]) is True and (f1.ev(p.args[0]) is False or f1.assume(p.args[0]) is None):
                return lossy_of(s.facts, v.args[1], x)
            # one character for which it says otherwise
            for k in range(128):
                if s.facts.assume(ieq(ch, I(k))).ev(p.args[0]) is (k != 0):
                    return False
            return None
        return None if blind(v.args[2]) or p.op not in ("int", "lit", "char") else False
    if v.op == "text" and v.args[0].startswith("str::trim"):
        return False
    if v.op == "lossy":
        return trimmed(P, I_, s, unref(v.args[0]), x)
    return None

def trimmed(P, I_, s, v, x):
    """the longest prefix that does not end in NUL: the removed part is all NUL, what is left does not end in one"""
    f = s.facts
    v = unref(v)
    tid = char_tid(P)
    def byte(q, i):
        return S.payload_byte(P, I_, sat(q, i), tid)
    if v.op == "lvx":
        # the slice itself shrinks round by round
        if not (f.zero(slen(v)) is True or f.zero(byte(v, sub(slen(v), ONE))) is False):
            return False
        L, lf = leaf(I_, v)
        if lf is None:
            return None
        i0 = lf.init
        if not (same_bytes(f, i0, x) or i0.op == "ref" and i0.args[0] == ("s", "self") and i0.args[1] == ()):
            return None
        for b, nx in zip(L["backs"], L["nexts"][lf.loc]):
            nx, lv = unref(nx), unref(lf.lv)
            if nx is lv:
                continue
            if nx.op != "sub" or nx.args[0] is not lv or b.facts.zero(nx.args[1]) is not True:
                return None
            if b.facts.same(nx.args[2], sub(slen(lv), ONE)) is not True or b.facts.zero(byte(lv, sub(slen(lv), ONE))) is not True:
                return None if any(blind(l) for l in b.facts.lits) else False
        return True
    if same_bytes(f, v, x):
        end = slen(x)
    elif v.op == "sub" and same_bytes(f, v.args[0], x):
        if f.zero(v.args[1]) is not True:
            return False if v.args[1].op == "int" else None
        end = v.args[2]
    elif v is EMPTY:
        end = ZERO
    else:
        return None
    if not (f.zero(end) is True or f.zero(byte(x, sub(end, ONE))) is False):
        # a prefix that may still end in NUL
        return False
    if f.same(end, slen(x)) is True:
        return True
    exits = {y for y in F.walk(end) if y.op == "lvx"}
    if not exits and v is EMPTY:
        exits = {y for l in f.lits for y in F.walk(l) if y.op == "lvx"}
    if len(exits) != 1:
        return None
    y = next(iter(exits))
    L, lf = leaf(I_, y)
    if L is None:
        return None
    if lf is not None:
        # the end of the prefix as a variable of the loop
        if end is not y or f.same(lf.init, slen(x)) is not True:
            return None
        for b, nx in zip(L["backs"], L["nexts"][lf.loc]):
            if nx is lf.lv:
                continue
            if b.facts.same(nx, sub(lf.lv, ONE)) is not True or b.facts.zero(byte(x, sub(lf.lv, ONE))) is not True:
                return None if blind(nx) or any(blind(l) for l in b.facts.lits) else False
        return True
    e = lambda t: subst(end, {y: t}) if end is not ZERO else sub(slen(x), t)
    k = mk("sym", "round*")
    if e(ZERO) is not slen(x) or e(add(k, ONE)) is not sub(e(k), ONE):
        return None
    if end is ZERO and f.same(y, slen(x)) is not True:
        return None
    for b in L["backs"]:
        if b.facts.zero(byte(x, sub(e(L["k"]), ONE))) is not True:
            return None if any(blind(l) for l in b.facts.lits) else False
    return True

def leaf(I_, y):
    L = I_.loops.get(y.args[0])
    if L is None:
        return None, None
    if y is L["kx"]:
        return L, None
    return L, next((l for l in L["leaves"].values() if l.name == y.args[1]), None)

def blind(t):
    """is there something in it that the analysis has no model of (the lossy reading of text is known here)"""
    return any(y.op in ("opq", "res", "rcall", "nd", "undef", "hv") for y in F.walk(t))

def stuck(I_):
    """a loop with a round that changes nothing"""
    for L in I_.loops.values():
        for i, b in enumerate(L["backs"]):
            if all(len(L["nexts"].get(lf.loc, [])) > i and L["nexts"][lf.loc][i] is lf.lv for lf in L["leaves"].values()):
                return L
    return None

def char_tid(P):
    return next(i for i, t in enumerate(P.types) if t["k"] == "adt" and t["path"].endswith("::CChar"))
