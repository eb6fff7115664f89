"""Questions about one pull of the parser (see nextq)."""
from terms import *
import terms, roots
from facts import Facts
from nextq import *

STREAMLEN = slen(STREAM)

def site(e):
    return "%s (%s)" % (e.fn.path.split("<")[0] if False else e.fn.path, e.line)

def chain(e):
    return " <- ".join("%s:%s" % (f.path.split("::")[-1], l) for f, l in reversed(e.stack[-4:]))

def detail_key(d):
    """a key for an obligation that does not depend on line numbers"""
    if isinstance(d, tuple):
        return d[0] + ("/" + str(d[1]) if len(d) > 1 and isinstance(d[1], str) else "")
    return str(d)

# ------------------------------------------------------------------------- C01
def hidden_guard(facts, d):
    """does the path test something d depends on in a way the analysis has no model of"""
    leaves = lambda t: {x for x in subterms(t) if x.op in ("at", "le", "fld", "sub", "mget", "lvx", "lv") and not (x.op == "fld" and x.args[0].op in ("int", "lit"))}
    ls = None
    for t in facts.lits:
        if tainted(t):
            if ls is None:
                ls = leaves(d)
            if ls & leaves(t):
                return True
    return False

def panics(I_, col, label):
    for e in I_.events:
        if e.kind not in ("panic", "invariant"):
            continue
        col.count("panic sites reached")
        k = "%s in %s" % (detail_key(e.detail), e.fn.path)
        if e.status is True:
            col.ob(True, k, sample="%s at %s holds on every path reaching it (%s)" % (short(e.detail, 80), e.line, label))
        elif e.status is not False and ((e.data is not None and tainted(e.data)) or not e.stack and False):
            col.ob(None, k, "depends on an unmodelled value at %s" % e.line)
        elif e.status is not False and e.data is not None and e.st is not None and hidden_guard(e.st.facts, e.data):
            col.ob(None, k, "guarded by an unmodelled test of the same value at %s" % e.line)
        else:
            fs = ""
            if e.st is not None:
                fs = "; path: " + ", ".join(short(l, 90) for l in sorted(e.st.facts.lits, key=lambda x: x.id)[:8])
            col.ob(False, k, "%s may fail: %s at %s, reached by %s (%s)%s" % (e.kind, short(e.detail, 160), e.line, chain(e), label, fs))

def c01(n, col):
    panics(n.I, col, n.label())
    col.count("pulls analysed")
    pairs = n.I.opts.get("pairs", ())
    for o in n.outs:
        if o.self1 is None:
            continue
        for p in pairs:
            r = o.facts.ev(roots.pair_cond(n.I, n.P, o.self1, n.selft, p))
            col.ob(True if r is True else (None if tainted(o.self1) else False), "parser invariant", "an invariant of the parser's parts is broken by %s" % where(n, o))

def c01_also(P, col, tier):
    """the recursive decoders with arbitrary arguments: any nesting depth, any position in any message"""
    for f in roots.heads(P):
        I_, rets, s0 = roots.root_run(P, f)
        panics(I_, col, "entered recursively: " + f.path)
        col.count("recursive decoders analysed")

# ------------------------------------------------------------------------- C03
def stream_uses(t):
    """(position, width, term) of every read of the delivered stream inside a term"""
    out = []
    seen = set()
    st = [t]
    xs = []
    while st:
        x = st.pop()
        if x in seen or (x.op == "adt" and x.args[0].endswith("::ULogParser")):
            continue
        seen.add(x)
        xs.append(x)
        st.extend(children(x))
    for x in xs:
        if x.op == "sub" and x.args[0] is STREAM:
            out.append((x.args[1], x.args[2], x))
        elif x.op == "le" and x.args[1] is STREAM:
            out.append((x.args[2], I(ENCW[x.args[0]]), x))
        elif x.op == "at" and x.args[0] is STREAM:
            out.append((x.args[1], ONE, x))
    return out

def c03(n, col):
    for o in n.outs:
        lab = where(n, o)
        if o.kind == "ok":
            col.count("items analysed")
            col.ob(not o.eof, "item after end of file: %s" % o.mv, "an item is yielded although a read met the end of the stream: " + lab)
            col.ob(not o.ioerr, "item after a failed read: %s" % o.mv, "an item is yielded although a read failed: " + lab)
            col.ob(not has_undel(o.msg), "undelivered bytes: %s" % o.mv, "an item is built from a buffer the reader did not fill: " + lab)
            for p, w, x in stream_uses(o.msg):
                if summarised(p) or summarised(w):
                    col.count("loop-indexed byte uses (bounded by their buffer)")
                    continue
                r = o.facts.ge(sub(sub(o.pos, p), w))
                col.ob(True if r is True else (False if r is False else None), "bytes beyond the position: %s" % o.mv,
                       "%s uses stream bytes at %s (+%s), beyond what was read (%s)" % (lab, short(p, 60), short(w, 60), short(o.pos, 60)),
                       sample="%s lies within the bytes read (%s)" % (short(x, 60), n.label()))
        elif o.eof:
            col.count("truncations analysed")
            if o.kind == "none":
                ok = o.eofpos is not None and o.facts.same(o.eofpos, n.m) and (o.eofn is None or o.facts.ge(sub(I(2), o.eofn)) is True)
                col.ob(True if ok else False, "truncation ends the stream silently",
                       "the end of the stream met by the read at %s (+%s), inside %s, ends the iteration without an error: %s"
                       % (short(o.eofpos, 60), short(o.eofn, 40), "the file header or a message", lab))
            else:
                col.ob(o.kind == "err", "truncation not reported", "end of stream is not reported: " + lab, sample="end of stream at %s -> error item (%s)" % (short(o.eofpos, 40), n.label()))

# ------------------------------------------------------------------------- C04
def neg_decodes(facts):
    """checks of stream text that failed on this path"""
    out = []
    for l in facts.lits:
        if l.op == "not" and l.args[0].op == "utf8":
            if mentions(l.args[0], STREAM):
                out.append(l)
    return out

def c04(n, col):
    for o in n.outs:
        lab = where(n, o)
        if o.ioerr:
            col.count("reader failures analysed")
            col.ob(o.kind == "err", "reader failure swallowed", "the reader failed but the pull does not return an error: " + lab,
                   sample="reader failure -> error item (%s)" % n.label())
        if o.kind in ("ok", "none"):
            bad = neg_decodes(o.facts)
            col.ob(not bad, "text failure swallowed: %s" % o.mv, "text that is not valid UTF-8 (%s) does not make the pull return an error: %s" % (short(bad[0], 80) if bad else "", lab))
        if o.kind == "ok":
            col.count("items analysed")
            ls = [x for x in subterms(o.v) if x.op in ("lossy",)]
            col.ob(not ls, "lossy text: %s" % o.mv, "text is decoded lossily: " + lab)
            # a message that is dropped leaves the stream after a later message
            if o.mv != "Header":
                r = o.facts.same(o.pos, add(add(n.m, I(3)), n.size))
                col.ob(True if r else (None if o.tainted or summarised(o.pos) else False), "message dropped", "an item is yielded at stream position %s, after the message at %s was skipped: %s" % (short(o.pos, 60), short(n.m, 30), lab))
        if o.kind == "err" and o.errv is not None:
            col.count("error items analysed")
    if n.init:
        for o in n.outs:
            if o.kind == "none" and o.eof and o.eofpos is not None and not o.facts.same(o.eofpos, n.m):
                col.ob(False, "header failure swallowed", "a header that cannot be read ends the stream without an error: " + where(n, o))

# ------------------------------------------------------------------------- C05
def c05(n, col):
    import interp
    reads = [e for e in n.I.events if e.kind == "read"]
    always_none = bool(n.outs) and all(o.kind == "none" for o in n.outs) and not reads
    col.put("states", (n.state, always_none))
    for o in n.outs:
        # a flag that is raised only when the reader reported the end
        b0 = dict(n.bools(n.self0))
        for name, b in n.bools(o.self1):
            if b is not b0.get(name) and o.facts.ev(b) is not False and b0.get(name) is not None and o.facts.ev(b0[name]) is not True:
                col.put("raised", (name, bool(o.eof)))
        if o.kind != "none":
            continue
        lab = where(n, o)
        reason = None
        flag = None
        if always_none:
            reason = "already ended"
        elif o.ioerr:
            reason = None
        elif o.eof and o.eofpos is not None and o.facts.same(o.eofpos, n.m):
            reason = "end of file at a message boundary"
        elif not o.eof:
            taken = sub(n.m, POS0)
            c0 = n.counter(n.self0)
            for i, L, t in n.opt_usize():
                d = n.I.discr(L, t)
                if c0 is None or o.facts.zero(sub(d, ONE)) is not True:
                    # a limit set by this very call cannot be reached before its message is read
                    continue
                lim = n.I.ann(fld(L, 1, 0, OPT, 1), n.P.types[t]["args"][0])
                if o.facts.ge(sub(add(c0, taken), lim)) is True:
                    reason = "data limit reached"
            if reason is None:
                for name, b in n.bools(n.self0):
                    if o.facts.ev(b) is True:
                        flag = name
                        reason = "reader was at its end before (%s)" % name
        col.count("end-of-stream returns analysed")
        col.put("reasons", reason)
        col.ob(True if reason else (None if tainted(o.self1) else False), "unjustified end of stream",
               "None is returned although the reader is not at its end at a message boundary, no limit is reached and the stream had not ended: %s; path: %s"
               % (lab, ", ".join(short(l, 90) for l in sorted(o.facts.lits, key=lambda x: x.id)[:8])),
               sample="None because: %s (%s)" % (reason, n.label()))
        if flag:
            col.put("flagreason", (flag, lab))
        # finality: pull again from the state left behind
        f = roots.one_fn(n.P, "next", "Iterator", "ULogParser")
        I2 = interp.Interp(n.P, dict(n.I.opts))
        st, fid = roots.start(I2, f, [None])
        S = roots.mem_sym(I2, st, "self", n.selft)
        st.store[(fid, 1)] = S
        st.store[("s", "self")] = o.self1
        st.store[("g", "pos")] = o.pos
        st.facts = o.facts
        rets = roots.run_root(I2, f, st, fid)
        r2 = [e for e in I2.events if e.kind == "read"]
        bad = [v for s, v in rets if v is not NONE]
        col.count("repeated pulls analysed")
        t = tainted(o.self1)
        col.ob(True if rets and not bad else (None if t else False), "end is not final", "after returning None, a later pull can return %s (%s)" % (short(bad[0], 80) if bad else "nothing", lab))
        col.ob(True if not r2 else (None if t else False), "reads after the end", "after returning None, a later pull reads from the reader again at %s (%s)" % (r2[0].line if r2 else "", lab))

def c05_end(col):
    raised = {}
    for name, eof in col.data.get("raised", []):
        raised.setdefault(name, []).append(eof)
    for name, lab in col.data.get("flagreason", []):
        ok = all(raised.get(name, [True]))
        col.ob(ok, "end flag without end of file", "the flag %s ends the stream (%s) but is also raised when the reader did not report its end" % (name, lab))
    col.floor("end-of-stream returns analysed", 3, "the parser's returns")

# ------------------------------------------------------------------------- C06
MAGIC = [0x55, 0x4C, 0x6F, 0x67, 0x01, 0x12, 0x35]
def header_ok(o):
    f = o.facts
    for i, b in enumerate(MAGIC):
        x = sat_u8(STREAM, add(POS0, I(i)))
        if f.zero(sub(x, I(b))) is not True:
            e = eq(ssub(STREAM, POS0, I(7)), lit(MAGIC))
            if f.ev(e) is not True:
                return False
    return f.ge(sub(sub(STREAMLEN, POS0), I(16))) is True

def c06(n, col):
    anyok = any(o.kind in ("ok", "unknown") for o in n.outs)
    for o in n.outs:
        d1 = n.discr_after(o)
        good = (not n.init) or header_ok(o)
        if o.self1 is not None:
            col.put("edges", (n.state, d1 if d1 is not None else n.state if o.self1 is n.self0 else "?", good, o.kind == "ok"))
        if not n.init:
            continue
        lab = where(n, o)
        if o.kind == "ok":
            col.count("first items analysed")
            col.ob(True if good else (None if o.tainted else False), "item without a header: %s" % o.mv,
                   "an item is yielded by the first pull although the sixteen header bytes were not all read or the seven magic bytes not all compared: " + lab,
                   sample="%s only after magic bytes and length were established" % o.mv)
        if not good:
            col.count("bad headers analysed")
            if o.kind == "err" and not o.eof and not o.ioerr:
                col.ob(o.errv == "InvalidHeader", "bad header not reported", "a bad header is reported as %s instead of an invalid header: %s" % (o.errv, lab))
            elif o.kind == "none":
                col.ob(False, "bad header ends the stream", "a bad or missing header is not reported: " + lab)

def c06_end(col, init):
    edges = set(col.data.get("edges", []))
    # states that can be entered with a bad header must never lead to an item
    bad = {t for s, t, good, ok in edges if not good}
    work = list(bad)
    while work:
        s = work.pop()
        for a, b, good, ok in edges:
            if a == s:
                if ok:
                    col.ob(False, "items after a bad header", "state %s can be entered after a bad header, and a later pull from it yields an item" % s)
                if b not in bad:
                    bad.add(b)
                    work.append(b)
    unk = "?" in bad
    col.ob(None if unk else True, "states after a bad header", "the state after a bad header is not known")
    col.ob(True if init is not None else None, "initial state", "the state of a new parser is not known")
    col.floor("bad headers analysed", 1, "returns of the first pull")
    col.floor("first items analysed", 1, "returns of the first pull")
    col.counts["states reachable after a bad header"] = len(bad)

# ------------------------------------------------------------------------- C07
def c07(n, col):
    for o in n.outs:
        if o.kind == "none" or o.eof or o.ioerr:
            continue
        lab = where(n, o)
        if o.mv == "Header":
            col.ob(o.facts.same(o.pos, add(POS0, I(16))), "header width", "the header item leaves the reader at %s instead of 16 bytes on: %s" % (short(o.pos, 60), lab))
            continue
        if n.init and not header_ok(o) and o.kind == "err":
            continue
        exp = add(add(n.m, I(3)), n.size)
        r = o.facts.same(o.pos, exp)
        col.count("messages analysed")
        col.ob(True if r else (None if tainted(o.pos) or (summarised(o.pos)) else False), "framing: %s" % (o.mv or o.errv),
               "a pull leaves the reader at %s instead of the end of the message, %s: %s" % (short(o.pos, 80), short(exp, 80), lab),
               sample="%s: reader left at message start + 3 + size" % (o.mv or o.errv))

# ------------------------------------------------------------------------- C08 / C12 / C19
TYPEBYTE = {"FlagBits": "B", "FormatDefinition": "F", "Parameter": "P", "DefaultParameter": "Q", "Info": "I", "MultiInfo": "M",
            "AddSubscription": "A", "LoggedData": "D", "LoggedString": "L", "TaggedLoggedString": "C", "DropoutMark": "O"}
PAYLOAD = {"FlagBits": ("FlagBits", {"compat_flags": ("bytes", 0, 8), "incompat_flags": ("bytes", 8, 8), "appended_data_offsets": ("u64s", 16, 3)}),
           "AddSubscription": ("Subscription", {"multi_id": ("u8", 0), "msg_id": ("u16", 1), "message_name": ("text", 3)}),
           "LoggedString": ("LoggedString", {"tag": ("none",), "timestamp": ("u64", 1), "msg": ("text", 9)}),
           "TaggedLoggedString": ("LoggedString", {"tag": ("someu16", 1), "timestamp": ("u64", 3), "msg": ("text", 11)}),
           "DropoutMark": ("Dropout", {"duration": ("u16", 0)}),
           "LoggedData": ("LoggedData", {"msg_id": ("msgid", 0)}),
           "MultiInfo": ("MultiInfo", {"is_continued": ("bool", 0)}),
           "DefaultParameter": ("DefaultParameter", {"default_types": ("u8", 0)}),
           "Info": ("Info", {}), "Parameter": ("Parameter", {})}
KEYOFF = {"Info": 0, "MultiInfo": 1, "Parameter": 0, "DefaultParameter": 1}

def field_ok(n, o, x, spec):
    b = n.body
    k = spec[0]
    f = o.facts
    if x is None:
        return None, None
    x = unref(x)
    if k == "u8":
        e = sat_u8(STREAM, add(b, I(spec[1])))
    elif k in ("u16", "u64"):
        e = le(k, STREAM, add(b, I(spec[1])))
    elif k == "bytes":
        e = ssub(STREAM, add(b, I(spec[1])), I(spec[2]))
    elif k == "u64s":
        e = cat(*[one(le("u64", STREAM, add(b, I(spec[1] + 8 * i)))) for i in range(spec[2])])
    elif k == "text":
        e = ssub(STREAM, add(b, I(spec[1])), sub(n.size, I(spec[1])))
    elif k == "none":
        e = NONE
    elif k == "someu16":
        e = some(le("u16", STREAM, add(b, I(spec[1]))))
    elif k == "bool":
        e = not_(ieq(sat_u8(STREAM, add(b, I(spec[1]))), ZERO))
    elif k == "msgid":
        e = le("u16", STREAM, add(b, I(spec[1])))
        if x.op == "fld" and x.args[0].op == "mget" and x.args[0].args[1] is e:
            # the id stored with a subscription is the id it is stored under (checked on every insert)
            return True, e
    else:
        return None, None
    if f.same(x, e):
        return True, e
    if k == "u64s" and x.op != "cat" and not tainted(x):
        ok = all(f.same(sat(x, I(i)), le("u64", STREAM, add(b, I(spec[1] + 8 * i)))) for i in range(spec[2]))
        if ok:
            return True, e
        if summarised(x):
            return None, e
    if tainted(x) or x.op in ("ite",):
        return None, e
    if k == "bool":
        # equal truth values, everywhere or under the facts
        if boolnorm(x) is boolnorm(e):
            return True, e
        a = f.ev(x)
        c = f.ev(e)
        if a is not None and a == c:
            return True, e
    return False, e

def key_text(n, mv):
    """the text of an info or parameter key: length byte, then that many bytes"""
    off = KEYOFF[mv]
    kl = sat_u8(STREAM, add(n.body, I(off)))
    return ssub(STREAM, add(n.body, I(off + 1)), kl), add(add(n.body, I(off + 1)), kl)

def value_first_uses(t):
    return [(p, w, x) for p, w, x in stream_uses(t)]

def c08(n, col):
    P = n.P
    for o in n.outs:
        if o.kind != "ok":
            continue
        lab = where(n, o)
        if o.mv is None:
            col.ob(None, "kind of item", "the kind of item is not known: " + lab)
            continue
        col.count("items analysed")
        tb = sat_u8(STREAM, add(n.m, I(2)))
        if o.mv == "Header":
            h = o.msg.args[2]
            for nm, e in (("version", sat_u8(STREAM, add(POS0, I(7)))), ("timestamp", le("u64", STREAM, add(POS0, I(8))))):
                x = get(P, h, nm)
                r = x is not None and o.facts.same(x, e)
                col.ob(True if r else (None if x is None or tainted(x) else False), "header.%s" % nm, "the header's %s is %s instead of %s" % (nm, short(x), short(e)), sample="Header.%s = %s" % (nm, short(e)))
            continue
        if o.mv in TYPEBYTE:
            col.count("%s items" % o.mv)
            want = ord(TYPEBYTE[o.mv])
            z = o.facts.zero(sub(tb, I(want)))
            col.ob(True if z is True else (None if o.tainted else False), "kind %s" % o.mv, "a message yields kind %s without its type byte being established as '%s': %s" % (o.mv, chr(want), lab),
                   sample="%s only for type byte '%s'" % (o.mv, chr(want)))
        if o.mv in PAYLOAD and len(o.msg.args) > 2:
            tn, spec = PAYLOAD[o.mv]
            p = unref(o.msg.args[2])
            if p.op != "adt" or p.args[0].split("::")[-1] != tn:
                col.ob(None, "payload %s" % o.mv, "payload not constructed visibly: " + lab)
                continue
            for nm, sp in spec.items():
                x = get(P, p, nm)
                r, e = field_ok(n, o, x, sp)
                col.ob(r, "%s.%s" % (o.mv, nm), "%s.%s is %s instead of %s (%s)" % (o.mv, nm, short(x), short(e), n.label()),
                       sample="%s.%s = %s" % (o.mv, nm, short(e)))
            if o.mv in KEYOFF:
                kt, vpos = key_text(n, o.mv)
                x = get(P, p, "key")
                us = [(a, w, y) for a, w, y in stream_uses(x)] if x is not None else []
                texts = [y for a, w, y in us if y.op == "sub" and not summarised(y)]
                bad = [y for y in texts if not o.facts.same(y, kt)]
                # the key length byte itself appears inside the text's extent
                col.ob(True if texts and not bad else (None if not texts or tainted(x) else False), "%s.key" % o.mv,
                       "the key is taken from %s instead of %s (%s)" % (short(bad[0]) if bad else "?", short(kt), n.label()), sample="%s.key from %s" % (o.mv, short(kt)))
                v = get(P, p, "value")
                if v is not None:
                    value_from(n, o, col, v, kt, vpos)
    want = {"D": "LoggedData", "I": "Info", "M": "MultiInfo", "P": "Parameter", "Q": "DefaultParameter", "F": "FormatDefinition", "A": "AddSubscription", "B": "FlagBits"}
    if n.state in (None,):
        return
    col.put("kinds", (n.state, n.cls, tuple(sorted({o.mv or "?" for o in n.outs if o.kind == "ok"}))))

def value_from(n, o, col, v, kt, vpos):
    """an info or parameter value takes its bytes from right behind the key to the end of the message"""
    uses = []
    for a, w, y in stream_uses(v):
        if o.facts.same(y, kt):
            continue
        uses.append((a, w, y))
    klen = kt.args[2] if kt.op == "sub" else None
    bad = None
    n_ = 0
    for a, w, y in uses:
        if y is klen or y is n.size:
            continue
        if summarised(a):
            continue
        n_ += 1
        if o.facts.ge(sub(a, vpos)) is False:
            bad = y
        elif o.facts.ge(sub(a, vpos)) is not True and not summarised(y):
            bad = y
        if o.facts.ge(sub(sub(add(n.body, n.size), a), w)) is False:
            bad = y
    col.ob(True if bad is None else (None if tainted(v) else False), "%s.value" % o.mv, "the value uses bytes %s outside its place behind the key (%s)" % (short(bad) if bad is not None else "", n.label()))
    if n_:
        col.count("values behind keys")
    # a scalar starts exactly behind the key
    tn, vn = tname(unref(v))

def c08_end(col, init):
    by = {}
    for st, cls, kinds in col.data.get("kinds", []):
        by.setdefault(st, {})[cls] = set(kinds)
    for k in TYPEBYTE:
        if k != "FormatDefinition":
            col.floor("%s items" % k, 1, "item kinds")

def subscription_inserts(n, o):
    """(table field index, key, value) of every insertion into a map of the parser made by this pull"""
    out = []
    for i, f in enumerate(n.fields()):
        a = n.field_of(n.self0, i)
        b = n.field_of(o.self1, i)
        st = [b]
        x = b
        while x is not a and x.op in ("mins", "mrem"):
            if x.op == "mins":
                out.append((i, x.args[1], x.args[2]))
            x = x.args[0]
    return out

def c08_inserts(n, col):
    for o in n.outs:
        for i, k, v in subscription_inserts(n, o):
            v = unref(v)
            tn, _ = tname(v)
            if tn == "Subscription":
                x = get(n.P, v, "msg_id")
                col.count("subscription inserts")
                col.ob(True if o.facts.same(x, k) else (None if tainted(v) else False), "subscription stored under another id", "a subscription with id %s is stored under %s (%s)" % (short(x), short(k), n.label()))

# ------------------------------------------------------------------------- C12
def c12(n, col):
    known = {"D", "I", "M", "P", "Q", "F", "A", "B"}
    anyd = any(o.kind == "ok" for o in n.outs)
    for o in n.outs:
        if o.kind != "ok":
            continue
        lab = where(n, o)
        if o.mv == "Unhandled":
            col.count("unhandled items")
            fs = o.msg.args[2:]
            t = get(n.P, o.msg, "msg_type") if len(fs) == 2 else None
            c = get(n.P, o.msg, "message_contents") if len(fs) == 2 else None
            if t is None or c is None:
                ints = [x for x in fs if is_int(x)]
                seqs = [x for x in fs if not is_int(x)]
                t = ints[0] if ints else None
                c = seqs[0] if seqs else None
            tb = sat_u8(STREAM, add(n.m, I(2)))
            col.ob(True if t is not None and o.facts.same(t, tb) else (None if t is None or tainted(t) else False), "type byte of an unhandled message",
                   "an unhandled message carries type %s instead of its type byte (%s)" % (short(t), n.label()), sample="Unhandled type byte = %s" % short(tb))
            col.ob(True if c is not None and o.facts.same(unref(c), n.bodys) else (None if c is None or tainted(c) else False), "body of an unhandled message",
                   "an unhandled message carries %s instead of its complete body %s (%s)" % (short(c), short(n.bodys), n.label()), sample="Unhandled body = %s" % short(n.bodys))
    col.put("unh", (n.state, n.cls, any(o.mv == "Unhandled" for o in n.outs), anyd, sorted({o.mv or "?" for o in n.outs if o.kind == "ok"}), sorted({o.errv or "?" for o in n.outs if o.kind == "err" and not o.eof and not o.ioerr})))
    # a type the parser does not know is passed through in both sections
    if n.cls == "other" and anyd:
        tb = sat_u8(STREAM, add(n.m, I(2)))
        for o in n.outs:
            if o.kind == "err" and not o.eof and not o.ioerr:
                if n.init and not header_ok(o):
                    continue
                col.ob(None if o.tainted else False, "uninterpreted message rejected", "a message whose type byte is not interpreted is reported as an error: " + where(n, o))

def c12_end(col, init):
    col.floor("unhandled items", 2, "pass-through items")
    for st, cls, unh, anyd, kinds, errs in col.data.get("unh", []):
        if cls == "other" and anyd:
            col.ob(unh, "unknown types are not passed through", "in state %s no message of an unknown type is yielded as unhandled" % st)

# ------------------------------------------------------------------------- C18
def c18(n, col):
    # (a) a message read at or past the limit is never yielded
    c0 = n.counter(n.self0)
    taken = sub(n.m, POS0)
    for o in n.outs:
        lab = where(n, o)
        if o.kind == "ok" and o.mv != "Header" and c0 is not None:
            c1 = n.counter(o.self1)
            r = o.facts.same(sub(c1, c0), sub(o.pos, POS0))
            col.ob(True if r else (None if tainted(c1) else False), "byte count", "the byte count advances by %s while %s bytes are taken (%s)" % (short(sub(c1, c0), 60), short(sub(o.pos, POS0), 60), lab))
        if o.kind == "ok" and not n.init and c0 is not None:
            for i, L, t in n.opt_usize():
                col.put("limits", i)
                d = n.I.discr(L, t)
                lim = n.I.ann(fld(L, 1, 0, OPT, 1), n.P.types[t]["args"][0])
                isn = o.facts.zero(d) is True
                below = o.facts.ge(sub(sub(lim, c0), ONE)) is True
                col.put("limited", (i, bool(isn or below), lab, bool(tainted(o.v))))
        if o.mv == "FlagBits":
            col.count("flag bits items")
            flagbits(n, o, col, lab)
    if not n.init and c0 is not None:
        for e in n.I.events:
            if e.kind != "read" or e.st is None:
                continue
            for i, L, t in n.opt_usize():
                d = n.I.discr(L, t)
                lim = n.I.ann(fld(L, 1, 0, OPT, 1), n.P.types[t]["args"][0])
                f = e.st.facts
                isn = f.zero(d) is True
                below = f.ge(sub(sub(lim, c0), ONE)) is True
                col.count("message reads analysed")
                col.put("limited", (i, bool(isn or below), "the read at %s (%s)" % (e.line, n.label()), False))
    if n.cls == "B":
        for o in n.outs:
            if o.errv == "UnknownIncompatBits":
                col.count("refusals")

def flagbits(n, o, col, lab):
    inc = add(n.body, I(8))
    b0 = sat_u8(STREAM, inc)
    f = o.facts
    # every bit other than bit 0 of the first byte, and the seven other bytes, are zero
    def zero_bits(t, mask, what):
        x = band(t, I(mask))
        r = f.zero(x)
        if r is not True and mask == 255:
            r = f.zero(t)
        if r is not True:
            r2 = f.ge(sub(I(1), t)) if mask == 254 else None
            if r2 is True:
                r = True
        if r is not True and mask == 254:
            # t in {0, 1} established by other comparisons
            q = f.norm(t)
            if q.op == "int" and q.args[0] in (0, 1):
                r = True
        return r
    for i in range(8):
        t = sat_u8(STREAM, add(inc, I(i)))
        m = 254 if i == 0 else 255
        r = zero_bits(t, m, i)
        if r is not True:
            r = loop_zero(n, o, t, inc, i, m)
        col.ob(True if r is True else (None if r == "?" else False), "incompatible byte %d" % i,
               "a flag-bits message is accepted without establishing that incompatible-flag byte %d has no unknown bit (%s): %s" % (i, lab, ", ".join(short(l, 70) for l in sorted(f.lits, key=lambda x: x.id)[-6:])),
               sample="incompatible flags byte %d is zero outside the known bit" % i)

def loop_zero(n, o, t, inc, i, m):
    """the byte is covered by a fact about all bytes of a range"""
    for l in o.facts.lits:
        if l.op in ("all", "any") or (l.op == "not" and l.args[0].op in ("any", "all")):
            if mentions(l, STREAM):
                return "?"
    for l in o.facts.lits:
        if summarised(l) and mentions(l, STREAM):
            return "?"
    return None

def c18_end(col, init):
    col.floor("flag bits items", 1, "flag-bits items")
    col.floor("refusals", 1, "refused logs")
    lim = {}
    for i, ok, lab, t in col.data.get("limited", []):
        lim.setdefault(i, []).append((ok, lab, t))
    good = [i for i, xs in lim.items() if all(ok for ok, _, _ in xs)]
    some_ = [i for i, xs in lim.items() if any(ok for ok, _, _ in xs)]
    if lim:
        best = max(lim.items(), key=lambda kv: sum(1 for x in kv[1] if x[0]))
        bad = [x for x in best[1] if not x[0]]
        col.ob(not bad, "message past the data limit", "a message that starts at or past the data limit is read: %s" % (bad[0][1] if bad else ""))
    else:
        col.ob(None, "data limit", "no data limit found in the parser")

def c18_limit(n, col):
    """what a flag-bits message sets the limit to"""
    for o in n.outs:
        if o.mv != "FlagBits":
            # nothing else sets it
            if o.kind in ("ok", "err") and o.self1 is not None:
                for i, L, t in n.opt_usize():
                    L1 = n.field_of(o.self1, i)
                    if L1 is not L:
                        col.ob(None if o.kind == "ok" and o.tainted else (True if o.kind == "err" and n.cls == "B" else False), "limit changed", "%s changes the data limit: %s" % (o.mv or o.errv, where(n, o)))
            continue
        f = o.facts
        b0 = sat_u8(STREAM, add(n.body, I(8)))
        offs = [le("u64", STREAM, add(n.body, I(16 + 8 * i))) for i in range(3)]
        bit = f.zero(band(b0, ONE))
        if bit is None:
            q = f.norm(b0)
            if q.op == "int":
                bit = q.args[0] % 2 == 0
        for i, L, t in n.opt_usize():
            L1 = n.field_of(o.self1, i)
            d1 = f.norm(n.I.discr(L1, t))
            lab = where(n, o)
            if bit is True:
                # clear: ignored
                same = L1 is L or (d1 is ZERO)
                col.ob(True if same else (None if tainted(L1) else False), "offsets used without the bit", "the data limit becomes %s although the data-appended bit is clear (%s)" % (short(L1), n.label()),
                       sample="data-appended bit clear: limit unchanged")
                col.count("flag-bits cases")
            elif bit is False:
                col.count("flag-bits cases")
                first_offset(n, o, col, L1, d1, offs, f, t)
            else:
                col.ob(None, "data-appended bit", "whether the data-appended bit was tested is not known on a path: " + lab)

def first_offset(n, o, col, L1, d1, offs, f, t):
    if any(L1 is L for i, L, tt in n.opt_usize()) and all(f.zero(x) is True for x in offs):
        # no offset is set: nothing to limit
        col.ob(True, "limit", "")
        return
    lim = n.I.ann(fld(L1, 1, 0, OPT, 1), n.P.types[t]["args"][0]) if L1.op != "adt" else (L1.args[2] if L1.args[1] == 1 else None)
    if d1 is ZERO:
        # only when all three are zero
        r = all(f.zero(x) is True for x in offs)
        col.ob(True if r else (None if any(summarised(l) for l in f.lits) else False), "no limit set", "the data-appended bit is set but no limit is recorded on a path where an offset may be non-zero (%s): %s" % (n.label(), ", ".join(short(l, 60) for l in sorted(f.lits, key=lambda x: x.id)[-6:])))
        return
    if lim is None:
        col.ob(None, "limit", "limit not known")
        return
    for j, x in enumerate(offs):
        if f.same(lim, x):
            before = all(f.zero(y) is True for y in offs[:j])
            nz = f.zero(x) is False or f.ge(sub(x, ONE)) is True
            col.ob(True if before and nz else False, "limit is not the first offset", "the limit is appended offset %d although an earlier one may be non-zero, or it may be zero (%s)" % (j, n.label()), sample="limit = offset %d" % j)
            return
    if tainted(lim) or summarised(lim):
        # an element chosen by a search over the offsets
        at = [x for x in subterms(lim) if x.op in ("at",)]
        ok = bool(at) and all(mentions(lim, x) for x in offs)
        col.ob(True if ok else None, "limit by search", "limit %s" % short(lim), sample="limit found by a search over the three offsets, %s" % short(lim, 100))
        return
    col.ob(False, "limit", "the data limit becomes %s, which is none of the appended offsets (%s)" % (short(lim), n.label()))

# ------------------------------------------------------------------------- C22
def c22(n, col):
    ok_change = {"F": {"formats"}, "A": {"subs"}}
    P = n.P
    for o in n.outs:
        if o.self1 is None or o.kind == "unknown":
            continue
        lab = where(n, o)
        col.count("state changes analysed")
        fs = n.fields()
        for i, f in enumerate(fs):
            a, b = n.field_of(n.self0, i), n.field_of(o.self1, i)
            if a is b:
                continue
            growth(n, o, col, f[0], f[1], a, b, lab)
    for e in n.I.events:
        if e.kind == "alloc":
            col.count("allocations analysed")

def growth(n, o, col, name, tid, a, b, lab, d=0):
    """may this change make the retained state bigger"""
    P = n.P
    t = P.types[tid]
    if t["k"] in ("int", "bool", "char", "float"):
        col.ob(True, "", sample="%s: scalar, constant size" % name)
        return
    if b.op == "mins" or b.op == "mrem" or b.op == "mnew" or a.op == "mins":
        x = b
        ins = 0
        while x is not a and x.op in ("mins", "mrem"):
            ins += x.op == "mins"
            x = x.args[0]
        if x.op == "mnew":
            col.ob(True, "")
            return
        if x is not a:
            col.ob(None if tainted(b) else False, "table %s" % name, "the parser's table %s is replaced by %s (%s)" % (name, short(b), lab))
            return
        if ins == 0:
            col.ob(True, "")
            return
        tb = sat_u8(STREAM, add(n.m, I(2)))
        allowed = o.facts.zero(sub(tb, I(ord("F")))) is True or o.facts.zero(sub(tb, I(ord("A")))) is True
        col.count("table inserts")
        col.ob(True if allowed else (None if tainted(b) else False), "table %s grows" % name, "a message that is neither a format definition nor a subscription adds to the parser's table %s (%s)" % (name, lab),
               sample="%s grows only for definitions and subscriptions" % name)
        return
    if t["k"] == "adt" and t.get("crate") == "yule_log" and not t.get("enum") and d < 3:
        fs = t["variants"][0]["fields"]
        for i, f in enumerate(fs):
            x = n.I.proj1(a, ("f", 0, i, t["path"], len(fs), f[1]))
            y = n.I.proj1(b, ("f", 0, i, t["path"], len(fs), f[1]))
            if x is not y:
                growth(n, o, col, name + "." + f[0], f[1], x, y, lab, d + 1)
        return
    if t["k"] == "adt" and t["path"] == OPT:
        at = t["args"][0]
        if b is NONE:
            col.ob(True, "")
            return
        x = fld(a, 1, 0, OPT, 1) if a.op != "adt" else (a.args[2] if a.args[1] == 1 else None)
        y = fld(b, 1, 0, OPT, 1) if b.op != "adt" else b.args[2]
        if constsize(P, at):
            col.ob(True, "", sample="%s: constant size" % name)
            return
        if x is not None:
            growth(n, o, col, name, at, x, y, lab, d + 1)
            return
    if constsize(P, tid):
        col.ob(True, "", sample="%s: constant size" % name)
        return
    if tainted(b):
        col.ob(None, "field %s" % name, "changed in an unknown way (%s)" % lab)
        return
    if is_seq(b):
        r = o.facts.ge(sub(slen(a), slen(b)))
        if b.op == "cat" and b.args and b.args[0] is a and r is not True:
            col.ob(False, "%s grows" % name, "the parser's %s grows with a message: %s (%s)" % (name, short(b), lab))
            return
        # replaced by something made from one message
        col.ob(True if not mentions(b, a) else None, "%s" % name, "changed to %s" % short(b))
        return
    col.ob(True if not mentions(b, a) else False, "%s grows" % name, "the parser's %s is extended by a message: %s (%s)" % (name, short(b), lab))

def constsize(P, tid, d=0):
    t = P.types[tid]
    if t["k"] in ("int", "bool", "char", "float", "never"):
        return True
    if t["k"] == "tuple":
        return all(constsize(P, x, d + 1) for x in t["fields"])
    if t["k"] == "array":
        return constsize(P, t["elem"], d + 1) if "elem" in t else False
    if t["k"] == "adt" and d < 4 and t.get("variants") is not None:
        if t["path"].split("::")[0] in ("alloc", "std") or t["path"] in ("alloc::vec::Vec", "alloc::string::String"):
            return False
        return all(constsize(P, f[1], d + 1) for v in t["variants"] for f in v["fields"])
    return False
