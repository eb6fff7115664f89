"""Text: log levels (C19), and the grammar of formats and keys (C20)."""
import re, re._parser as sp
from terms import *
import terms, roots, interp, q_fields as F, q_encode as E, q_data as D
from ck import Col, short
from nextq import *
from models import STREAM
from facts import Facts
from interp import OPT, RES

# ------------------------------------------------------------------------- C19
LEVELS = ["emergency", "alert", "critical", "error", "warning", "notice", "info", "debug"]
ABBR = {"emerg": 0, "emergency": 0, "alert": 1, "crit": 2, "critical": 2, "err": 3, "error": 3, "warn": 4, "warning": 4, "notice": 5, "info": 6, "informational": 6, "debug": 7}

def level_type(P):
    return F.ltype(P, "msg::LogLevel")

def level_no(P, t, i):
    """which of the eight levels a variant is, by its name"""
    return ABBR.get(t["variants"][i]["name"].lower())

def c19(n, col):
    """every yielded log message: its level is the one its own level byte stands for"""
    P = n.P
    t = level_type(P)
    if t is None:
        return
    for o in n.outs:
        if o.kind != "ok" or o.mv not in ("LoggedString", "TaggedLoggedString"):
            continue
        col.count("log messages")
        lv = get(P, unref(o.msg.args[2]), "level")
        b = sat(STREAM, n.body)
        if lv is None:
            col.ob(None, "level field", "a log message has no level")
            continue
        if lv.op == "adt":
            k = level_no(P, t, lv.args[1])
            ok = None if k is None else o.facts.ev(ieq(b, I(48 + k)))
            col.ob(True if ok is True else (None if k is None or tainted(lv) else False), "level %s" % t["variants"][lv.args[1]]["name"],
                   "a log message with level byte %s is yielded as %s (%s)" % (short(b), t["variants"][lv.args[1]]["name"], n.label()), sample="%s only for byte %s" % (t["variants"][lv.args[1]]["name"], None if k is None else repr(chr(48 + k))))
            col.put("seen", (o.mv, k))
        else:
            for k in range(8):
                f1 = o.facts.assume(ieq(b, I(48 + k)))
                if f1 is None:
                    continue
                x = subst(lv, {b: I(48 + k)})
                j = level_no(P, t, x.args[1]) if x.op == "adt" else None
                col.ob(True if j == k else (None if j is None else False), "level byte %d" % k, "level byte %r is yielded as %s (%s)" % (chr(48 + k), short(x), n.label()))
                col.put("seen", (o.mv, k))
            f1 = o.facts.assume(not_(and_(ge0(sub(b, I(48))), ge0(sub(I(55), b)))))
            col.ob(True if f1 is None else None, "level value", "a level other than the eight is yielded as %s" % short(lv))

def c19_end(col, init):
    for mv in ("LoggedString", "TaggedLoggedString"):
        got = {k for v, k in col.data.get("seen", []) if v == mv}
        for k in range(8):
            if k not in got:
                # each level byte must be accepted
                nm = mv + " " + LEVELS[k]
                if col.findings or col.notes:
                    continue
                col.ob(False, "level never decoded", "no %s is ever yielded with level %s" % (mv, LEVELS[k]))

def trait_fns(P, name, trait, selfpath):
    out = []
    for f in P.fns.values():
        if f.name == name and (f.j.get("impl_trait") or "").split("::")[-1] == trait and f.local:
            k = P.types[f.j["impl_self"]]
            if k["k"] == "adt" and k["path"].endswith("::" + selfpath):
                out.append(f)
    return out

def c19_also(P, col, tier):
    t = level_type(P)
    if t is None:
        return
    col.put("x", 1)
    # byte -> level, for all 256 bytes at once
    for f in trait_fns(P, "try_from", "TryFrom", "msg::LogLevel"):
        if P.types[f.locals[1]]["k"] not in ("uint", "int") and P.tystr(f.locals[1]) != "u8":
            continue
        I_ = interp.Interp(P, {"errkeep": True})
        st, fid = roots.start(I_, f, [None] * f.argc)
        x = mk("sym", "byte")
        terms.RANGE.setdefault(x, (0, 255))
        terms.BITS.setdefault(x, (8, False))
        st.store[(fid, 1)] = x
        rets = roots.run_root(I_, f, st, fid)
        if any(v.op != "adt" or v.args[1] == 0 and v.args[2].op != "adt" for s, v in rets):
            # a table or arithmetic: byte by byte
            rets = []
            for b in range(256):
                I_ = interp.Interp(P, {"errkeep": True})
                st, fid = roots.start(I_, f, [None] * f.argc)
                st.store[(fid, 1)] = I(b)
                st.facts = st.facts.assume(ieq(x, I(b)))
                rets += roots.run_root(I_, f, st, fid)
        for s, v in rets:
            col.count("level conversions")
            if v.op != "adt":
                col.ob(None, "try_from", "returns %s" % short(v))
            elif v.args[1] == 0:
                lv = v.args[2]
                k = level_no(P, t, lv.args[1]) if lv.op == "adt" else None
                ok = None if k is None else s.facts.ev(ieq(x, I(48 + k)))
                col.ob(True if ok is True else (None if k is None or tainted(lv) else False), "try_from: level", "%s is decoded from %s" % (short(lv), [short(l) for l in s.facts.lits][:6]), sample="byte %s -> %s" % (k, short(lv)))
            else:
                for k in range(8):
                    if s.facts.assume(ieq(x, I(48 + k))) is not None:
                        col.ob(None if any(tainted(l) for l in s.facts.lits) else False, "try_from: refused", "level byte %r can be refused (path: %s)" % (chr(48 + k), [short(l) for l in s.facts.lits][:6]))
                col.ob(True, "try_from: refusal", sample="an error only outside '0'..'7'")
    # level -> byte, level -> text
    enc = E.generic(P, "msg::LogLevel")
    disp = trait_fns(P, "fmt", "Display", "msg::LogLevel")
    for i, v in enumerate(t["variants"]):
        k = level_no(P, t, i)
        if k is None:
            col.ob(None, "level name", "level %s is not one of the eight" % v["name"])
            continue
        val = adt(t["path"], i)
        if enc is not None:
            I_ = interp.Interp(P, {"errkeep": True})
            rets, bad = E.run_on(I_, enc, val, Facts())
            for s, w in rets:
                if ("g", "wfail") in s.store:
                    continue
                col.count("level encodings")
                col.ob(True if w is lit([48 + k]) else (None if bad or E.odd(w) else False), "byte of " + v["name"], "level %s is written as %s" % (v["name"], short(w)), sample="%s written as %r" % (v["name"], chr(48 + k)))
        for f in disp:
            for s, w in show_of(P, f, val):
                col.count("level texts")
                txt = w.args[0].decode("latin1").lower() if w.op == "lit" else None
                ok = txt is not None and ABBR.get(txt) == k
                col.ob(True if ok else (None if txt is None else False), "text of " + v["name"], "level %s is shown as %s" % (v["name"], short(w)), sample="%s shown as %s" % (v["name"], short(w)))
    col.floor("level conversions", 9, "TryFrom<u8> for LogLevel")
    col.floor("level encodings", 8, "Encode for LogLevel")
    col.floor("level texts", 8, "Display for LogLevel")
    col.floor("log messages", 16, "the log message arms")

def show_of(P, f, val, facts=None, I_=None):
    """run a Display implementation on a value: [(state, text written)] of its Ok results"""
    I_ = I_ or interp.Interp(P, {"errkeep": True})
    st, fid = roots.start(I_, f, [None] * f.argc)
    st.store[("s", "V")] = val
    st.store[(fid, 1)] = mk("ref", ("s", "V"), ())
    st.store[("s", "fmt")] = EMPTY
    st.store[(fid, 2)] = mk("ref", ("s", "fmt"), ())
    if facts is not None:
        st.facts = facts
    return [(s, s.store[("s", "fmt")]) for s, v in roots.run_root(I_, f, st, fid) if v.op == "adt" and v.args[1] == 0 and ("g", "wfail") not in s.store]

C19_RULE = ("Value provenance: each conversion is run on one symbolic byte (all 256 at once) or on each of the eight levels; every path yielding a level must have fixed the byte to that level's own, every refusing path must exclude all eight, "
            "the encoder must write, and the text must name, the same level; the levels of yielded log messages are tied to their own level byte the same way.")

# ------------------------------------------------------------------------- C20
PUNCT = {":": ":", ";": ";", "[": "[", "]": "]"}

def classes(pattern):
    """the alternatives of a token pattern: [(group, first-character set, later-character set, min, max)]; characters 0..127 and 'other'"""
    p = sp.parse(pattern)
    if len(p) == 1 and str(p[0][0]) == "BRANCH":
        alts = p[0][1][1]
    else:
        alts = [list(p)]
    inv = {v: k for k, v in p.state.groupdict.items()}
    out = []
    for a in alts:
        a = list(a)
        if len(a) != 1 or str(a[0][0]) != "SUBPATTERN":
            return None
        g = inv.get(a[0][1][0])
        items = [(charset([x]), 1, 1) if str(x[0]) not in ("MAX_REPEAT", "MIN_REPEAT") else (charset(list(x[1][2])), x[1][0], 10**6 if str(x[1][1]) == "MAXREPEAT" else int(x[1][1])) for x in a[0][1][3]]
        if any(c is None for c, _, _ in items):
            return None
        out.append((g, items))
    return out

ALL = frozenset(range(128)) | {"other"}

def charset(x):
    if len(x) != 1:
        return None
    op, av = x[0]
    op = str(op)
    if op == "LITERAL":
        return frozenset([av if av < 128 else "other"])
    if op == "ANY":
        return ALL - {10}
    if op == "IN":
        r = set()
        neg = False
        for o, v in av:
            o = str(o)
            if o == "NEGATE":
                neg = True
            elif o == "LITERAL":
                r.add(v if v < 128 else "other")
            elif o == "RANGE":
                r |= {c if c < 128 else "other" for c in range(v[0], min(v[1], 300) + 1)}
            elif o == "CATEGORY":
                v = str(v)
                if v.endswith("NOT_SPACE"):
                    r |= ALL - {9, 10, 11, 12, 13, 32}
                elif v.endswith("SPACE"):
                    r |= {9, 10, 11, 12, 13, 32}
                elif v.endswith("NOT_DIGIT"):
                    r |= ALL - set(range(48, 58))
                elif v.endswith("DIGIT"):
                    r |= set(range(48, 58)) | {"other"}
                elif v.endswith("NOT_WORD"):
                    return None
                elif v.endswith("WORD"):
                    r |= {c for c in range(128) if chr(c).isalnum() or c == 95} | {"other"}
                else:
                    return None
        return frozenset(ALL - r if neg else r)
    return None

class Tokens:
    """what the tokens of a text are: the pieces of a star over the captures of one pattern"""
    def __init__(self, P, I_, star_):
        self.P, self.I, self.T = P, I_, star_
        self.pattern = self.seq = None
        self.tid = None
        self.kinds = {}          # variant -> kind
        self.why = []
        for x in subterms(star_):
            if x.op == "caps":
                self.pattern, self.seq = x.args[0], x.args[1]
                break

    def groups(self):
        rx = self.pattern.args[0] if self.pattern is not None and self.pattern.args else None
        if rx is None or rx.op != "lit":
            return None
        try:
            return classes(rx.args[0].decode())
        except Exception:
            return None

def token_stars(*ts):
    out = []
    seen = set()
    for t in ts:
        for x in subterms(t):
            if x.op == "star" and x not in seen:
                seen.add(x)
                if any(y.op == "caps" for y in subterms(x)):
                    out.append(x)
    return [x for x in out if not any(x is not y and mentions(y, x) for y in out)] or out

def group_kind(groups, g):
    """what a group of the pattern matches: 'ident', 'number', a punctuation character, 'space', or 'bad'"""
    for nm, items in groups:
        if nm == g:
            if len(items) == 1 and len(items[0][0]) == 1 and items[0][1:] == (1, 1):
                c = list(items[0][0])[0]
                return chr(c) if c != "other" and chr(c) in ":;[]" else "bad"
            allc = frozenset().union(*[i[0] for i in items])
            if items[0][0] <= set(range(48, 58)) and allc <= set(range(48, 58)):
                return "number"
            if allc <= {9, 10, 11, 12, 13, 32, "other"}:
                return "space"
            if len(items) == 1 and items[0][1:] == (1, 1):
                return "bad"
            return "ident"
    return None

def judge_tokens(P, I_, T, col):
    """the tokenizer: every character belongs to exactly one kind of token, and a token carries its own text"""
    tk = Tokens(P, I_, T)
    gr = tk.groups()
    if gr is None:
        col.ob(None, "token pattern", "the token pattern is %s" % short(tk.pattern) if tk.pattern is not None else "none")
        return None
    firsts = [(g, it[0][0]) for g, it in gr if it[0][1] >= 1]
    cover = frozenset().union(*[f for _, f in firsts])
    col.ob(ALL <= cover, "token pattern: coverage", "no token starts with %s: such a character is skipped without a trace" % sorted([chr(c) if isinstance(c, int) else c for c in ALL - cover])[:8], sample="every character starts some token")
    for ch in ":;[]":
        gs = [g for g, f in firsts if ord(ch) in f]
        col.ob(bool(gs) and group_kind(gr, gs[0]) == ch, "token pattern: " + ch, "the character %r is read by %s" % (ch, gs[:1]))
    gs = [g for g, f in firsts if ord("7") in f]
    col.ob(bool(gs) and group_kind(gr, gs[0]) == "number", "token pattern: digit", "a digit starts a %s" % gs[:1])
    for ch in "a_Z":
        gs = [g for g, f in firsts if ord(ch) in f]
        col.ob(bool(gs) and group_kind(gr, gs[0]) == "ident", "token pattern: letter", "a letter starts a %s" % gs[:1])
    for ch in "?.-#%":
        gs = [g for g, f in firsts if ord(ch) in f]
        col.ob(bool(gs) and group_kind(gr, gs[0]) in ("bad",), "token pattern: other", "the character %r starts a %s" % (ch, gs[:1]))
    for g, items in gr:
        if group_kind(gr, g) == "ident":
            later = items[-1]
            col.ob(later[2] > 100 and all(ord(c) in later[0] for c in "azAZ09_") and not any(ord(c) in later[0] for c in ":;[] "), "token pattern: name", "a name may go on with other characters than letters, digits and _")
        if group_kind(gr, g) == "number":
            col.ob(items[-1][2] > 100 and sum(i[1] for i in items) == 1, "token pattern: number", "a number is read as pieces or needs more than one digit")
    # what each alternative produces
    d, n, _, alts = T.args
    k = mk("sym", "tok*")
    for a in alts:
        f = Facts().assume(subst(a.args[0], {bv(d): k}))
        piece = subst(a.args[1], {bv(d): k})
        if f is None:
            continue
        gs = []
        for g, _ in gr:                    # exactly one group takes part in a match
            fg = f
            for h, _ in gr:
                if fg is not None:
                    w = matched(tk, k, h)
                    fg = fg.assume(w if h == g else not_(w))
            if fg is not None:
                gs.append(g)
        if not gs:
            continue
        col.count("token kinds")
        if len(gs) > 1 and piece is EMPTY and not any(tainted(l) for l in f.lits):
            gs = [g for g in gs if group_kind(gr, g) != "space"][:1]
        if len(gs) != 1:
            col.ob(None, "token", "which group makes %s is not known: %s" % (short(piece), gs))
            continue
        kind = group_kind(gr, gs[0])
        if piece is EMPTY:
            col.ob(kind == "space", "token: skipped", "text matched as %r is skipped without a token" % gs[0], sample="only white space is skipped")
            continue
        if piece.op != "one" or piece.args[0].op != "adt":
            col.ob(None, "token: shape", "a token is %s" % short(piece))
            continue
        t = piece.args[0]
        tk.tid = next((i for i, ty in enumerate(P.types) if ty["k"] == "adt" and ty["path"] == t.args[0]), None)
        v = t.args[1]
        txt = mk("mstr", grp(tk, k, gs[0]))
        if kind in ("ident",):
            col.ob(unref(t.args[2]) is txt if len(t.args) > 2 else False, "token: name text", "a name's token carries %s instead of the matched text" % short(t), sample="a name carries its own text")
        if kind == "number":
            x = unref(t.args[2]) if len(t.args) > 2 else None
            if x is not None and x.op == "parsed":
                col.ob(unref(x.args[0]) is txt, "token: number", "a number's token carries %s" % short(t), sample="a number carries the value of its own text")
            else:
                kind = "bad"        # a number that does not fit: must be no number for the grammar
        if kind == "bad" or kind == "space":
            kind = "bad"
        if v in tk.kinds and tk.kinds[v] != kind:
            col.ob(False, "token: kinds mixed", "%s stands for both %s and %s" % (vname(t.args[0], v), tk.kinds[v], kind))
        tk.kinds[v] = kind
    return tk

def grp(tk, k, g):
    return mk("grp", mk("caps", tk.pattern, tk.seq, k), lit(g.encode()))

def matched(tk, k, g):
    return mk("matched", grp(tk, k, g))

class Cursor:
    """tokens from some place on: tok(i) and how many are left"""
    def __init__(self, tk, seq, off=ZERO):
        self.tk, self.seq, self.off = tk, seq, off

    def tok(self, i):
        return sat(self.seq, add(self.off, I(i)))

    def left(self):
        return sub(slen(self.seq), self.off)

    def kind(self, f, i):
        d = self.tk.I.discr(self.tok(i), self.tk.tid)
        vs = self.tk.P.types[self.tk.tid]["variants"]
        ks = {self.tk.kinds.get(j, "bad") for j, v in enumerate(vs) if f.zero(sub(d, I(int(v["discr"])))) is not False}
        return list(ks)[0] if len(ks) == 1 else None

    def is_kind(self, i, kind):
        """condition: token i is of a kind"""
        d = self.tk.I.discr(self.tok(i), self.tk.tid)
        vs = self.tk.P.types[self.tk.tid]["variants"]
        js = [int(v["discr"]) for j, v in enumerate(vs) if self.tk.kinds.get(j, "bad") == kind]
        c = FALSE
        for j in js:
            c = or_(c, ieq(d, I(j)))
        return c

    def payload(self, i, kind):
        t = self.tok(i)
        ty = self.tk.P.types[self.tk.tid]
        for j, v in enumerate(ty["variants"]):
            if self.tk.kinds.get(j) == kind and v["fields"]:
                return unref(self.tk.I.proj1(t, ("f", j, 0, ty["path"], len(v["fields"]), v["fields"][0][1])))
        return None

SHORT, ARRAY = ["ident", "ident"], ["ident", "[", "number", "]", "ident"]

def shape(cu, f):
    if cu.kind(f, 0) != "ident":
        return None
    k = cu.kind(f, 1)
    if k == "ident":
        return SHORT
    if k == "[" and cu.kind(f, 2) == "number" and cu.kind(f, 3) == "]" and cu.kind(f, 4) == "ident":
        return ARRAY
    return None

def same_text(f, a, b):
    a, b = unref(a), unref(b)
    return a is b or a is deref(b) or b is deref(a) or f.ev(eq(a, b)) is True

def field_ok(P, I_, f, fv_type, fv_name, cu, sh, col, what):
    """a field or key is its own tokens: type name, size, name"""
    n = len(sh)
    nm = cu.payload(n - 1, "ident")
    ok = nm is not None and fv_name is not None and same_text(f, fv_name, nm)
    col.ob(True if ok else (None if fv_name is None or tainted(fv_name) else False), what + ": name", "the name of a %s is %s instead of its last token" % (what, short(fv_name)), sample="%s: name is its own token" % what)
    asz = F.fproj(I_, P, fv_type, "def::TypeExpr", "array_size")
    if asz.op != "adt":
        col.ob(None, what + ": size", "the size is %s" % short(asz))
    elif sh is SHORT:
        col.ob(asz.args[1] == 0, what + ": size", "a %s without brackets has size %s" % (what, short(asz)))
    else:
        nb = cu.payload(2, "number")
        col.ob(True if asz.args[1] == 1 and f.same(unref(asz.args[2]), nb) is True else (None if asz.args[1] == 1 and tainted(asz) else False), what + ": size", "the size of a %s is %s instead of the bracketed number" % (what, short(asz)), sample="%s: size is the bracketed number" % what)
    base = F.fproj(I_, P, fv_type, "def::TypeExpr", "base_type")
    txt = cu.payload(0, "ident")
    base_ok(P, f, base, txt, col, what)

def is_lit(f, txt, s):
    """is the text this constant: a text is the same seen by value and by reference"""
    for t in (txt, deref(txt)):
        r = f.ev(eq(lit(s.encode()), t))
        if r is not None:
            return r
    return None

def base_ok(P, f, base, txt, col, what):
    if base.op != "adt":
        return col.ob(None, what + ": type", "the type is %s" % short(base))
    v = vname(base.args[0], base.args[1]).split("::")[-1]
    if v in E.NAMES:
        ok = is_lit(f, txt, E.NAMES[v])
        col.ob(True if ok is True else (None if ok is None and tainted(txt) else False), "%s: type %s" % (what, v), "type %s is read from a name that is not %s" % (v, E.NAMES[v]), sample="%s only from %r" % (v, E.NAMES[v]))
        col.put("types", v)
    else:
        bad = [s for s in E.NAMES.values() if is_lit(f, txt, s) is not False]
        col.ob(not bad, "%s: type reference" % what, "the built-in name %s is read as a reference to a defined type" % bad[:3], sample="a reference only when it is none of the twelve names")
        ok = len(base.args) > 2 and same_text(f, base.args[2], txt)
        col.ob(True if ok else (None if tainted(base) else False), "%s: type reference name" % what, "a reference to %s is read as %s" % (short(txt), short(base)))
        col.put("types", v)

def wellformed(cu, sh, extra=()):
    c = ge0(sub(cu.left(), I(len(sh) + len(extra))))
    for i, k in enumerate(list(sh) + list(extra)):
        c = and_(c, cu.is_kind(i, k))
    return c

KEYS = {"Info": 0, "MultiInfo": 1, "Parameter": 0, "DefaultParameter": 1}

def c20(n, col):
    P, I_ = n.P, n.I
    for o in n.outs:
        if o.kind != "ok" or o.mv is None:
            continue
        if o.mv in KEYS:
            one_key(P, I_, n, o, col)
        elif o.mv == "FormatDefinition":
            one_format(P, I_, o.facts, unref(o.msg.args[2]), ssub(STREAM, n.body, n.size), n.label(), col)
            col.count("format definitions")

def judged(P, I_, T, col):
    c = I_.__dict__.setdefault("_tokens", {})
    key = (T, id(col))
    if key not in c:
        c[key] = judge_tokens(P, I_, T, col)
    tk = c[key]
    return tk if tk is not None and tk.tid is not None else None

def one_key(P, I_, n, o, col):
    col.count("keys")
    m = unref(o.msg.args[2])
    key, ty = get(P, m, "key"), get(P, m, "type")
    if key is None or ty is None:
        return col.ob(None, "key", "a %s without key or type" % o.mv)
    ts = token_stars(key)
    if len(ts) != 1:
        return col.ob(None, "key tokens", "the key of a %s is %s" % (o.mv, short(key)))
    tk = judged(P, I_, ts[0], col)
    if tk is None:
        return
    kl = sat(STREAM, add(n.body, I(KEYS[o.mv])))
    want = ssub(STREAM, add(n.body, I(KEYS[o.mv] + 1)), kl)
    col.ob(True if tk.seq is want else (None if tainted(tk.seq) else False), o.mv + ": key bytes", "the key of a %s is read from %s instead of its own bytes" % (o.mv, short(tk.seq)), sample="%s: key is the length-prefixed bytes" % o.mv)
    cu = Cursor(tk, ts[0])
    sh = shape(cu, o.facts)
    if sh is None:
        return col.ob(False, o.mv + ": key grammar", "a %s is yielded for a key that need not be a type, an optional bracketed size and a name (path: %s)" % (o.mv, E.path(o.s)))
    col.ob(o.facts.same(cu.left(), I(len(sh))) is True, o.mv + ": key leftover", "a %s is yielded although its key may go on after the name" % o.mv, sample="%s: nothing is left over after the name" % o.mv)
    field_ok(P, I_, o.facts, ty, key, cu, sh, col, "key")

def one_format(P, I_, facts, fm, src, lab, col):
    name = F.fproj(I_, P, fm, "def::Format", "name")
    fields = F.fproj(I_, P, fm, "def::Format", "fields")
    ts = token_stars(name)
    if len(ts) != 1:
        return col.ob(None, "format tokens", "the name of a format is %s" % short(name))
    T = ts[0]
    tk = judged(P, I_, T, col)
    if tk is None:
        return
    if src is not None:
        col.ob(True if tk.seq is src else (None if tainted(tk.seq) and tk.seq.op != "lossy" else False), "format text", "a format is read from %s instead of its own message (%s)" % (short(tk.seq), lab), sample="the format's text is the whole body")
    cu = Cursor(tk, T)
    col.ob(cu.kind(facts, 0) == "ident" and cu.kind(facts, 1) == ":", "format head", "a format is yielded that need not start with a name and a colon (%s)" % lab, sample="name, colon")
    nm = cu.payload(0, "ident")
    ok = same_text(facts, name, nm)
    col.ob(True if ok else (None if tainted(name) else False), "format name", "the format is called %s instead of its first token" % short(name), sample="the name is the first token")
    # the fields
    ids = [i for i in F.loop_ids(I_, fields)]
    found = False
    for lid in ids:
        l = I_.loops[lid]
        acc = next((loc for loc, lf in l["leaves"].items() if lf.kind == "acc" and any(v.op == "cat" and v.args[0] is lf.lv and any(p.op == "one" and p.args[0].op == "adt" and p.args[0].args[0].endswith("::Field") for p in v.args[1:]) for v in l["nexts"].get(loc, []))), None)
        if acc is None:
            continue
        found = True
        format_loop(P, I_, l, lid, acc, tk, T, facts, lab, col)
    if not found:
        col.ob(None, "format fields", "the loop that reads the fields was not found (%s)" % short(fields))

def tail_of(l, tk, T):
    """the loop variable that says where in the tokens an iteration starts: (location, cursor from a value, consumed(next))"""
    for loc, lf in l["leaves"].items():
        if lf.kind != "lv":
            continue
        if is_seq(lf.lv) and token_stars(lf.init) == [T] or lf.init.op == "sub" and lf.init.args[0] is T or lf.init is T:
            def adv(v, lv=lf.lv):
                if v is lv:
                    return ZERO
                if v.op == "sub" and v.args[0] is lv and add(v.args[1], v.args[2]) is slen(lv):
                    return v.args[1]
                return None
            return loc, (lambda v: Cursor(tk, v)), adv
        if is_int(lf.lv) and any(mentions(c, sat(T, lf.lv)) for c in l["conds"]):
            return loc, (lambda v: Cursor(tk, T, v)), (lambda v, lv=lf.lv: sub(v, lv))
    for loc in l["closed"]:
        lf = l["leaves"][loc]
        if is_int(lf.init):
            return None
    return None

def format_loop(P, I_, l, lid, acc, tk, T, facts, lab, col):
    tl = tail_of(l, tk, T)
    if tl is None:
        return col.ob(None, "format cursor", "the loop's place in the tokens is not visible")
    loc, mkc, adv = tl
    lf, al = l["leaves"][loc], l["leaves"][acc]
    start = mkc(lf.init)
    full = Cursor(tk, T)
    ok = facts.same(start.left(), sub(full.left(), I(2)))
    col.ob(True if ok is True and start.tok(0) is full.tok(2) else False, "format fields start", "the fields are read from %s instead of right after the colon" % short(lf.init), sample="fields start after the colon")
    cu = mkc(lf.lv)
    for i, s in enumerate(l["backs"]):
        f = s.facts
        col.count("field rounds")
        v = l["nexts"][acc][i]
        fs = [p.args[0] for p in v.args[1:]] if v.op == "cat" and v.args[0] is al.lv and all(p.op == "one" for p in v.args[1:]) else ([] if v is al.lv else None)
        if fs is None or len(fs) != 1:
            col.ob(None if fs is None else False, "format field", "a round of the field loop adds %s" % short(v))
            continue
        sh = shape(cu, f)
        if sh is None:
            col.ob(False, "format field grammar", "a field is read that need not be a type, an optional bracketed size and a name (path: %s)" % E.path(s))
            continue
        col.ob(cu.kind(f, len(sh)) == ";", "format field end", "a field is accepted that need not end in a semicolon (path: %s)" % E.path(s), sample="type [size] name ;")
        c = adv(l["nexts"][loc][i])
        col.ob(None if c is None else f.same(c, I(len(sh) + 1)) is True, "format field tokens", "a field of %d tokens moves the cursor by %s" % (len(sh) + 1, "?" if c is None else short(c)), sample="every token of a field is consumed once")
        x = fs[0]
        field_ok(P, I_, f, F.fproj(I_, P, x, "def::Field", "type"), F.fproj(I_, P, x, "def::Field", "name"), cu, sh, col, "field")
    # the format is only yielded with nothing left over
    lx = mk("lvx", lid, lf.lv.args[1]) if lf.lv.op == "lv" else None
    cx = mkc(lx) if lx is not None else None
    done = cx is not None and facts.same(cx.left(), ZERO) is True
    col.ob(True if done else (None if cx is None else False), "format leftover", "a format is yielded although tokens may be left over (%s)" % lab, sample="nothing is left over after the last semicolon")
    return tl

def c20_end(col, init):
    pass

def grammar_fns(P):
    """functions that read one key, and one format: by their types"""
    keys, fmts = [], []
    for f in P.fns.values():
        if not f.local or f.j.get("kind") == "closure" or f.argc != 1:
            continue
        r, a = P.tystr(f.locals[0]), P.tystr(f.locals[1])
        if r.startswith("core::result::Result<") and "::def::Field," in r and a == "&str":
            keys.append(f)
        if r.startswith("core::result::Result<") and "::def::Format," in r and ("MessageBuf" in a or a == "&str" or "Vec<u8>" in a):
            fmts.append(f)
    return keys, fmts

def c20_also(P, col, tier):
    keys, fmts = grammar_fns(P)
    for f in keys:
        I_, rets, _ = roots.run_method(P, f, opts={"errkeep": "all", "maxfacts": 200})
        stars = token_stars(*[t for s, v in rets for t in [v] + list(s.facts.lits)])
        if len(stars) != 1:
            col.ob(None, "key reader", "%s: %d token lists" % (f.path, len(stars)))
            continue
        tk = judged(P, I_, stars[0], col)
        if tk is None:
            continue
        cu = Cursor(tk, stars[0])
        for s, v in rets:
            if v.op == "adt" and v.args[1] == 1:
                col.count("refused keys")
                for sh in (SHORT, ARRAY):
                    g = s.facts.assume(and_(wellformed(cu, sh), ieq(cu.left(), I(len(sh)))))
                    col.ob(True if g is None else (None if any(tainted(x) for x in s.facts.lits) else False), "key refused", "a key of the form %s can be refused (%s, path: %s)" % (" ".join(sh), short(v), E.path(s)), sample="refused keys are no %s" % " ".join(sh))
    for f in fmts:
        I_, rets, _ = roots.run_method(P, f, opts={"errkeep": "all", "maxfacts": 200})
        stars = token_stars(*[t for s, v in rets for t in [v] + list(s.facts.lits)])
        if len(stars) != 1:
            col.ob(None, "format reader", "%s: %d token lists" % (f.path, len(stars)))
            continue
        T = stars[0]
        tk = judged(P, I_, T, col)
        if tk is None:
            continue
        full = Cursor(tk, T)
        loops_ = []
        for lid, l in I_.loops.items():
            tl = tail_of(l, tk, T)
            if tl is not None and l["backs"]:
                loops_.append((lid, l, tl))
        live = [x for x in loops_ if any(("lvx", x[0]) == (y.op, y.args[0]) for s, v in rets for t in [v] + list(s.facts.lits) for y in subterms(t) if y.op == "lvx")]
        for s, v in rets:
            if v.op == "adt" and v.args[1] == 1 and not utf8err(v):
                col.count("refused formats")
                lids = {y.args[0] for t in s.facts.lits for y in subterms(t) if y.op in ("lvx", "lv")}
                inl = [x for x in live if x[0] in lids]
                c = and_(wellformed(full, ["ident", ":"]), TRUE)
                if not inl:
                    g = s.facts.assume(c)
                    col.ob(True if g is None else (None if any(tainted(x) for x in s.facts.lits) else False), "format refused", "a format that starts with a name and a colon can be refused before its fields (%s, path: %s)" % (short(v), E.path(s)), sample="refused heads are no name and colon")
                    continue
                lid, l, (loc, mkc, adv) = inl[0]
                lx = mk("lvx", lid, l["leaves"][loc].lv.args[1])
                cx = mkc(lx)
                for sh in (SHORT, ARRAY):
                    g = s.facts.assume(wellformed(cx, sh, (";",)))
                    col.ob(True if g is None else (None if any(tainted(x) for x in s.facts.lits) else False), "field refused", "a format whose next field is %s ; can be refused (%s, path: %s)" % (" ".join(sh), short(v), E.path(s)), sample="refused fields are no %s ;" % " ".join(sh))
                g = s.facts.assume(ieq(cx.left(), ZERO))
                col.ob(True if g is None else (None if any(tainted(x) for x in s.facts.lits) else False), "format end refused", "a format with nothing left to read can be refused (%s)" % short(v), sample="the end of the text ends the format")
    # names of built-in types, both ways
    back = E.generic(P, "def::BaseType")
    bt = F.ltype(P, "def::BaseType")
    if back is not None and bt is not None:
        for i, v in enumerate(bt["variants"]):
            if v["name"] in E.NAMES:
                I_ = interp.Interp(P, {"errkeep": True})
                rets, bad = E.run_on(I_, back, adt(bt["path"], i), Facts())
                for s, w in rets:
                    if ("g", "wfail") not in s.store:
                        col.count("type names written")
                        col.ob(True if w is lit(E.NAMES[v["name"]].encode()) else (None if bad or E.odd(w) else False), "name of " + v["name"], "type %s is written as %s" % (v["name"], short(w)), sample="%s written as %r" % (v["name"], E.NAMES[v["name"]]))
    if not keys:
        col.notes["key reader"] = "no function of type &str -> Result<Field> was found: what keys are refused is not judged"
    if not fmts:
        col.notes["format reader"] = "no function reading a Format was found: what formats are refused is not judged"
    ty = set(col.data.get("types", []))
    for v in E.NAMES:
        if v not in ty and not col.findings and not col.notes:
            col.ob(False, "type never read: " + v, "no field or key is ever read as %s" % v)
    col.floor("keys", 20, "info and parameter arms")
    col.floor("format definitions", 1, "the format arm")

def utf8err(v):
    return "Utf8" in short(v) or "utf8" in short(v)

C20_RULE = ("Grammar as path facts over the token list: every yielded key and every round of the format's field loop must have fixed its tokens to type, optional [ number ], name (and semicolon), consumed exactly those, and left nothing over; "
            "every refusing path of the readers must contradict every well-formed continuation. The token pattern is analysed as character classes (each character in exactly one kind, none skipped but white space), tokens carry their own text, "
            "and the twelve type names are tied to their types in both directions.")
