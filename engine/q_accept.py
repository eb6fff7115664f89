"""Well-formed messages are not refused (C38)."""
from terms import *
import terms, roots, interp
import ck, q_fields as F, q_encode as E, q_text as X
from ck import Col, short
from nextq import unref, tainted, where
from models import STREAM

C38_RULE = ("Path feasibility: every path of a pull that returns an error without a reader failure or an end of file is joined with the conditions for a well-formed message of its type "
            "(sizes, bits, text validity and grammar as terms over the message's own bytes; per type and size form for keyed messages); a path that stays feasible refuses a well-formed message")

WIDTH = {"INT8": 1, "UINT8": 1, "BOOL": 1, "CHAR": 1, "INT16": 2, "UINT16": 2, "INT32": 4, "UINT32": 4, "FLOAT": 4, "INT64": 8, "UINT64": 8, "DOUBLE": 8}

def ob(n, col, ok, key, text="", sample=None):
    """one obligation, of one state of the parser: a state that accepts nothing at all is where errors end, and is dropped later"""
    col.put("judged", (n.state, ok, key, "" if ok else text, sample if ok else None))

def byte(n, i):
    return sat(STREAM, add(n.body, i if isinstance(i, T) else I(i)))

def text(n, i):
    """the rest of the message from place i on is valid text"""
    s = ssub(STREAM, add(n.body, I(i)), sub(n.size, I(i)))
    return mk("utf8", s)

def al(*cs):
    r = TRUE
    for c in cs:
        r = and_(r, c)
    return r

def digit(b):
    return and_(ge0(sub(b, I(0x30))), ge0(sub(I(0x37), b)))

def simple(n):
    """conditions of well-formedness for the fixed layouts: [(name, condition)]"""
    sz = n.size
    least = lambda k: ge0(sub(sz, I(k)))
    c = n.cls
    if c == "B":
        return [("flag bits", al(ieq(sz, I(40)), ieq(band(byte(n, 8), I(254)), ZERO), *[ieq(byte(n, i), ZERO) for i in range(9, 16)]))]
    if c == "A":
        return [("subscription", al(least(3), text(n, 3)))]
    if c == "L":
        return [("logged string", al(least(9), digit(byte(n, 0)), text(n, 9)))]
    if c == "C":
        return [("tagged logged string", al(least(11), digit(byte(n, 0)), text(n, 11)))]
    if c == "O":
        return [("dropout", ieq(sz, I(2)))]
    if c == "R":
        return [("removal", least(2))]
    if c == "other":
        return [("other message", TRUE)]
    return None

def undefined(n, o, key):
    """is a missing table entry for this key what the path met"""
    for l in o.facts.lits:
        if l.op == "not" and l.args[0].op == "has":
            k = unref(l.args[0].args[1])
            if k is key or k is deref(key) or any(y is key for y in F.walk(k)):
                return True
    return False

def missing(o):
    return [l for l in o.facts.lits if l.op == "not" and l.args[0].op == "has"]

def judge(n, col, o, what, cond, key):
    col.count("paths joined")
    g = o.facts.assume(cond) if cond is not TRUE else o.facts
    if g is None:
        ob(n, col, True, key, "", sample="no error path of a %s is feasible for a well-formed one" % what.split(" of type")[0])
        return
    odd = any(tainted(l) for l in g.lits) or o.tainted
    for x in o.facts.lits:
        if x.op == "not" and x.args[0].op == "utf8":
            odd = odd or g.ev(x.args[0]) is None and g.ev(x) is not True
    ob(n, col, None if odd else False, key, "a well-formed %s can be refused with %s (%s; path: %s)" % (what, o.errv or short(o.v), n.label(), E.path(o.s)))

def c38(n, col):
    if n.init:
        return
    col.put("classes", n.cls)
    for o in n.outs:
        if o.kind == "ok":
            col.put("live", n.state)
            accepted(n, col, o)
        if o.kind != "err" or o.eof or o.ioerr:
            continue
        col.count("refusals")
        cs = simple(n)
        if cs is not None:
            name, cond = cs[0]
            if n.cls == "A":
                # a subscription to a format that is not defined
                nm = ssub(STREAM, add(n.body, I(3)), sub(n.size, I(3)))
                if undefined(n, o, nm):
                    col.count("undefined formats")
                    continue
            judge(n, col, o, name, cond, name + " refused")
        elif n.cls in KEYED:
            keyed(n, col, o)

TOKENS = Col()
KEYED = {"I": ("info", 0), "M": ("multi info", 1), "P": ("parameter", 0), "Q": ("default parameter", 1)}

def head(n, o):
    """(facts with the key's bytes there and valid, tokens, forms) of a keyed message's path"""
    name, pre = KEYED[n.cls]
    kl = byte(n, pre)
    hd = add(I(pre + 1), kl)
    g0 = o.facts.assume(al(ge0(sub(n.size, hd)), ge0(sub(n.size, I(pre + 1))), mk("utf8", ssub(STREAM, add(n.body, I(pre + 1)), kl))))
    return name, hd, g0

def tokens_of(n, col, o, name):
    every = {x for t in o.facts.lits for x in subterms(t) if x.op == "star"}
    every = {x for x in every if any(y.op == "caps" for y in subterms(x))}
    ts = [x for x in every if not any(y is not x and X.mentions(x, y) for y in every)]
    if len(ts) != 1:
        return None, ts
    tk = X.judged(n.P, n.I, ts[0], TOKENS)     # what the tokens are is C20's
    if tk is None or not {"ident", "[", "number", "]"} <= set(tk.kinds.values()):
        ob(n, col, None, name + ": tokens", "the kinds of tokens of a key are not known")
        return None, ts
    return tk, ts

def keyed(n, col, o):
    name, hd, g0 = head(n, o)
    if g0 is None:
        col.count("paths joined")
        ob(n, col, True, name + " refused", "", sample="no error path of a %s is feasible for a well-formed one" % name)
        return
    tk, ts = tokens_of(n, col, o, name)
    if len(ts) != 1:
        return ob(n, col, None if ts or any(tainted(l) for l in g0.lits) else False, name + " refused: key", "a %s with a key that fits can be refused with %s before its key is read (path: %s)" % (name, o.errv, E.path(o.s)))
    if tk is not None:
        for what, key, cond in forms(n, tk, ts[0], name, sub(n.size, hd)):
            judge2(n, col, o, g0, cond, what, key)

def forms(n, tk, toks, name, rest):
    """(what, key, condition) of every well-formed key with enough bytes after it"""
    cu = X.Cursor(tk, toks)
    txt = cu.payload(0, "ident")
    for sh in (X.SHORT, X.ARRAY):
        if n.cls in "PQ" and sh is X.ARRAY:
            continue
        c0 = and_(X.wellformed(cu, sh), ieq(cu.left(), I(len(sh))))
        num = cu.payload(2, "number") if sh is X.ARRAY else None
        for v, w in WIDTH.items():
            if n.cls in "PQ" and v not in ("INT32", "FLOAT"):
                continue
            need = I(w) if num is None else mulc(num, w)
            yield ("%s of type %s%s" % (name, E.NAMES[v], "" if num is None else "[n]"), name + " refused: " + v + ("" if num is None else " array"),
                   al(c0, is_text(txt, E.NAMES[v]), ge0(sub(rest, need))))

def is_text(txt, s):
    l = lit(s.encode())
    return and_(eq(l, txt), eq(l, deref(txt)))

def mulc(x, k):
    r = ZERO
    for _ in range(k):
        r = add(r, x)
    return r

def accepted(n, col, o):
    """the conditions are not contradictory: some path that yields an item meets them"""
    cs = simple(n)
    if cs is not None:
        if o.facts.assume(cs[0][1]) is not None:
            col.put("accepted", cs[0][0])
    elif n.cls in KEYED:
        name, hd, g0 = head(n, o)
        tk, ts = tokens_of(n, col, o, name)
        if tk is not None and g0 is not None:
            for what, key, cond in forms(n, tk, ts[0], name, sub(n.size, hd)):
                if what not in col.data.get("accepted", ()) and g0.assume(cond) is not None:
                    col.put("accepted", what)

def judge2(n, col, o, g1, cond, what, key):
    col.count("paths joined")
    g = g1.assume(cond)
    if g is None:
        ob(n, col, True, key, "", sample="no error path of a %s is feasible for a well-formed one" % what.split(" of type")[0])
        return
    odd = any(tainted(l) for l in g.lits) or o.tainted
    ob(n, col, None if odd else False, key, "a well-formed %s can be refused with %s (%s; path: %s)" % (what, o.errv or short(o.v), n.label(), E.path(o.s)))

WANT = ["flag bits", "subscription", "logged string", "tagged logged string", "dropout", "removal", "other message"]

def run(P, pid, tier, t0):
    import nextq
    pairs = roots.invariants(P)
    roots.recpost(P)
    cols, stats = nextq.run(P, {pid: c38}, opts={"pairs": pairs, "errkeep": "all", "maxfacts": 300}, parts=lambda j, init: j[2] != init and j[3] in KEYED or j[3] in "BALCOR" or j[3] == "other")
    c = cols[pid]
    live = set(c.data.get("live", []))
    for st, *x in c.data.pop("judged", []):
        if st in live:
            c.ob(*x)
    got = set(c.data.get("accepted", []))
    for w in WANT:
        if w not in got:
            c.ob(None, "accepted: " + w, "no path accepts a well-formed %s: the conditions may contradict the paths for another reason" % w)
    for cls, (name, _) in KEYED.items():
        for v in WIDTH:
            for arr in ("", "[n]"):
                if cls in "PQ" and (arr or v not in ("INT32", "FLOAT")):
                    continue
                w = "%s of type %s%s" % (name, E.NAMES[v], arr)
                if w not in got:
                    c.ob(None, "accepted: " + w, "no path accepts a well-formed %s" % w)
    c.floor("refusals", 60, "the error paths of the interpreted messages")
    c.floor("paths joined", 100, "error paths joined with well-formedness")
    return ck.report(pid, c, tier, t0, C38_RULE, extra={"blocks_analysed": stats["blocks"], "returns_analysed": stats["returns"], "functions_entered": stats["functions"], "partitions": stats["partitions"]})
