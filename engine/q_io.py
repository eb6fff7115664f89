"""The message buffer and the byte source: every public method on an arbitrary object (C30, C31)."""
from terms import *
import terms, roots, interp, q_data as D
import ck, q_fields as F, q_encode as E
from ck import Col, short
from nextq import unref, tainted, summarised
from interp import Inconclusive
from models import STREAM

C30_RULE = "Abstract interpretation of every method of the message buffer on an arbitrary buffer and position and for every requested size: a read returns the little-endian value of exactly the next bytes and moves the position by its width, with the bounds proved on the path; an error leaves the buffer untouched and is reached only when too few bytes remain; observers describe the untaken bytes."
C31_RULE = "Abstract interpretation of every method of the byte source against a reader that delivers, ends or fails at every call: bytes taken, value decoded, byte count, end flag and returned error on every path; the skip loop by an inferred relation between its counter and the reader's position."

PRIMS = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "f32": 4, "f64": 8, "bool": 1, "char": 1}
NEVENT = ("opaque", "rcall")

def methods(P, adt):
    """inherent methods of a type"""
    out = []
    for f in P.fns.values():
        if not f.local or f.j.get("impl_trait") or "{" in f.path or f.argc < 0:
            continue
        k = f.j.get("impl_self")
        if k is None:
            continue
        t = P.types[k]
        if t["k"] == "adt" and t["path"] == adt:
            out.append(f)
    return sorted(out, key=lambda f: f.path)

def find_adt(P, name):
    for t in P.types:
        if t["k"] == "adt" and t["path"].split("::")[-1] == name and t.get("crate") == "yule_log":
            return t["path"]

def result_of(P, f):
    """('ok type', text) of a Result-returning function"""
    t = P.types[f.locals[0]]
    if t["k"] == "adt" and t["path"].endswith("result::Result"):
        return t["args"][0], P.tystr(t["args"][0])
    return None, None

def elem(P, t):
    """the primitive behind a scalar result: a transparent wrapper counts as its content"""
    s = P.tystr(t)
    if s in PRIMS:
        return s
    ty = P.types[t]
    if ty["k"] == "adt" and len(ty["variants"]) == 1 and len(ty["variants"][0]["fields"]) == 1:
        return P.tystr(ty["variants"][0]["fields"][0][1])
    return None

def inner(v):
    v = unref(v)
    while v.op == "adt" and len(v.args) == 3:
        v = unref(v.args[2])
    return v

def scalar(kind, buf, pos):
    if kind in ("u8", "char"):
        return sat_(buf, pos)
    if kind == "i8":
        return wrap(sat_(buf, pos), 8, True)
    if kind == "bool":
        return not_(ieq(sat_(buf, pos), ZERO))
    return le(kind, buf, pos)

def sat_(buf, pos):
    x = sat(buf, pos)
    RANGE.setdefault(x, (0, 255))
    BITS.setdefault(x, (8, False))
    return x

def match(f, v, want):
    """True / False / None: the value is the wanted one"""
    v = unref(v)
    if v is want or f.same(v, want) is True or f.ev(eq(v, want)) is True:
        return True
    return None if v.op != "lossy" and (tainted(v) or summarised(v)) else False

class Root:
    """one method run on an arbitrary object"""
    def __init__(self, P, f, opts=None):
        self.P, self.f = P, f
        o = {"pairs": (), "errkeep": True}
        o["argname"] = f.path.split("::")[-2] + "." + f.name + ".arg%d"
        o.update(opts or {})
        self.argname = o["argname"]
        self.I, self.rets, self.self0 = roots.run_method(P, f, (), o)
        self.odd = [e for e in self.I.events if e.kind in NEVENT]
        self.pan = [e for e in self.I.events if e.kind == "panic"]

    def self1(self, s):
        return s.store.get(("s", "self"))

    def split(self):
        for s, v in self.rets:
            yield s, v, (v.args[1] if v.op == "adt" and v.args[0] == interp.RES else None)

def fieldmap(P, adt, want):
    """{role: field index} of a struct whose fields have exactly these roles by type; None when it is built differently"""
    t = next(t for t in P.types if t["k"] == "adt" and t["path"] == adt)
    out = {}
    for i, fl in enumerate(t["variants"][0]["fields"]):
        s = P.tystr(fl[1])
        r = want(s, fl[0])
        if r is None or r in out:
            return None
        out[r] = i
    return t, out

def proj(I_, t, i, v):
    v = unref(v)
    fl = t["variants"][0]["fields"]
    return unref(I_.proj1(v, ("f", 0, i, t["path"], len(fl), fl[i][1])))

# ---------------------------------------------------------------------------------- message buffer
def c30(P, pid, tier, t0):
    c = Col()
    adt_ = find_adt(P, "MessageBuf")
    fm = fieldmap(P, adt_, lambda s, n: "buf" if "Vec<u8" in s else ("at" if s == "usize" else None)) if adt_ else None
    if not fm or set(fm[1]) != {"buf", "at"}:
        c.notes["representation"] = "the message buffer is not a byte vector and a position"
        return ck.report(pid, c, tier, t0, C30_RULE)
    ty, fm = fm
    seen = set()
    for f in methods(P, adt_):
        try:
            buffer_method(P, c, f, ty, fm, seen)
        except Inconclusive as e:
            c.ob(None, f.name, "%s: %s" % (f.name, e))
    c.floor("methods", 15, "methods of the message buffer")
    return ck.report(pid, c, tier, t0, C30_RULE, ["The position of a buffer never exceeds its length: shown for its constructor and kept by every method (same analysis)."])

def buffer_method(P, c, f, ty, fm, seen):
    r = Root(P, f)
    n = f.name
    arg0 = P.types[f.locals[1]] if f.argc else None
    own = f.argc and (P.tystr(f.locals[1]).replace("&mut ", "").replace("&", "") == P.tystr(f.j["impl_self"]))
    mut = bool(own) and arg0["k"] == "ref" and P.tystr(f.locals[1]).startswith("&mut")
    I_ = r.I
    c.count("methods")
    for e in r.odd:
        c.ob(None, n + ": unmodelled", "%s: %s" % (n, e.detail))
    for e in r.pan:
        if "tests" in e.fn.path:
            continue
        c.count("bounds and overflow sites")
        if mut and e.status is not True:
            c.ob(False if e.status is False or not any(tainted(x) for x in e.detail if isinstance(x, T)) else None, n + ": panic", "%s can panic for some requested size or position instead of returning an error: %s" % (n, short_detail(e.detail)))
    if not own:
        if f.argc == 1 and P.tystr(f.locals[1]).endswith("Vec<u8>") or f.argc == 1 and "u8" in P.tystr(f.locals[1]):
            for s, v in r.rets:
                if v.op == "adt" and v.args[0] == ty["path"]:
                    b, a = proj(I_, ty, fm["buf"], v), proj(I_, ty, fm["at"], v)
                    okk = rest(s.facts, b, a, unref(r.self0), ZERO)
                    c.ob(okk, n + ": new", "%s makes a buffer that holds %s from %s" % (n, short(b), short(a)), sample="%s: all bytes, at the start" % n)
        return
    s0 = r.self0
    b0, a0 = proj(I_, ty, fm["buf"], s0), proj(I_, ty, fm["at"], s0)
    left = sub(slen(b0), a0)
    rt, rs = result_of(P, f)
    for s, v, k in r.split():
        fa = s.facts
        if not mut:
            rs2 = P.tystr(f.locals[0])
            if rs2 == "usize":
                c.ob(match(fa, v, left), n + ": length", "%s returns %s instead of the number of bytes not yet taken" % (n, short(v)), sample="%s = bytes not yet taken" % n)
            elif rs2 == "bool":
                w = ieq(left, ZERO)
                okk = v is w
                if not okk:
                    y, z = fa.assume(v), fa.assume(not_(v))
                    okk = (y is None or y.ev(w) is True) and (z is None or z.ev(w) is False)
                c.ob(True if okk else (None if tainted(v) else False), n + ": empty", "%s returns %s instead of whether no byte is left" % (n, short(v)), sample="%s = nothing left" % n)
            elif "u8" in rs2 and ("Vec" in rs2 or "[" in rs2):
                want = ssub(b0, a0, left)
                okk = match(fa, v, want)
                c.ob(okk, n + ": remaining", "%s returns %s instead of the bytes not yet taken" % (n, short(v)), sample="%s = exactly the bytes not yet taken" % n)
            continue
        s1 = r.self1(s)
        b1, a1 = proj(I_, ty, fm["buf"], s1), proj(I_, ty, fm["at"], s1)
        if k is None:
            c.ob(None, n + ": result", "%s returns %s" % (n, short(v)))
            continue
        if f.argc == 1:
            el = elem(P, rt)
            if el not in PRIMS:
                c.ob(None, n + ": kind", "%s returns a %s" % (n, rs))
                continue
            w = I(PRIMS[el])
        elif f.argc == 2 and P.tystr(f.locals[2]) == "usize":
            w = s_arg(r, 2)
            el = None
        else:
            c.ob(None, n + ": kind", "%s takes %d arguments" % (n, f.argc))
            continue
        c.count("paths")
        if k == 0:
            x = v.args[2]
            if el:
                c.ob(match(fa, inner(x), scalar(el, b0, a0)), n + ": value", "%s returns %s instead of the next %s of the buffer, little-endian" % (n, short(x), el), sample="%s = %s at the position" % (n, el))
                seen.add(el)
            elif P.tystr(rt) != "()":
                c.ob(match(fa, x, ssub(b0, a0, w)), n + ": value", "%s(n) returns %s instead of the next n bytes" % (n, short(x)), sample="%s(n) = the next n bytes" % n)
            c.ob(rest(fa, b1, a1, b0, add(a0, w)), n + ": position", "after %s the buffer holds %s from %s instead of moving by %s" % (n, short(b1), short(a1), short(w)), sample="%s moves the position by %s" % (n, short(w)))
            g = fa.ge(sub(left, w))
            c.ob(True if g is True else False, n + ": bound", "%s succeeds although fewer than %s bytes may remain (path: %s)" % (n, short(w), [short(l) for l in list(fa.lits)[:6]]), sample="%s succeeds only when enough remains" % n)
        else:
            c.ob(rest(fa, b1, a1, b0, a0), n + ": error position", "a failed %s leaves the buffer with %s from %s" % (n, short(b1), short(a1)), sample="a failed %s leaves the position" % n)
            g = fa.ge(sub(sub(w, left), ONE))
            c.ob(True if g is True else False, n + ": refusal", "%s fails although %s bytes remain (path: %s)" % (n, short(w), [short(l) for l in list(fa.lits)[:6]]), sample="%s fails only when too little remains" % n)

def s_arg(r, i):
    return mk("sym", r.argname % (i - 1))

def rest(fa, b1, a1, b0, a0):
    """the buffer (b1 from a1) holds the same untaken bytes as b0 from a0"""
    if b1 is b0 and fa.same(a1, a0) is True:
        return True
    x, y = ssub(b1, a1, sub(slen(b1), a1)), ssub(b0, a0, sub(slen(b0), a0))
    if x is y or fa.same(x, y) is True:
        return True
    return None if tainted(b1) or tainted(a1) else False

def short_detail(d):
    return " ".join(short(x) if isinstance(x, T) else str(x) for x in d) if isinstance(d, tuple) else str(d)

# ---------------------------------------------------------------------------------- byte source
def pos_of(s):
    return s.store.get(("g", "pos"), ZERO)

def relate(r, fa):
    """counters that move together in a loop keep their distance: exit facts from the loop's own steps"""
    for lid, l in r.I.loops.items():
        ls = [lf for lf in l["leaves"].values() if lf.lv.op == "lv" and all(is_num(v) for v in l["nexts"].get(lf.loc, [])) and l["nexts"].get(lf.loc)]
        for i, x in enumerate(ls):
            for y in ls[i + 1:]:
                nx, ny = l["nexts"][x.loc], l["nexts"][y.loc]
                if len(nx) != len(ny) or not (is_num(x.init) and is_num(y.init)):
                    continue
                for op in (sub, add):
                    if all(op(sub(p, x.lv), sub(q, y.lv)) is ZERO for p, q in zip(nx, ny)):
                        for ex, ey in ((mk("lvx", *x.lv.args), mk("lvx", *y.lv.args)), (x.lv, y.lv)):
                            g = fa.assume(ieq(op(ex, ey), op(x.init, y.init)))
                            fa = g if g is not None else fa
        # a bound kept by every step: counter <= limit
        for x in ls:
            for lim in limits(r):
                g0 = ge0(sub(lim, x.lv))
                okk = fa.ge(sub(lim, x.init)) is True
                for st, nx in zip(l.get("backs", []), l["nexts"][x.loc]):
                    h = settled(st.facts.assume(g0))
                    if h is not None and h.ge(sub(lim, nx)) is not True:
                        okk = False
                if okk and l.get("backs"):
                    g = fa.assume(ge0(sub(lim, mk("lvx", *x.lv.args))))
                    fa = g if g is not None else fa
    return fa

def settled(f):
    """narrowings in the facts that the other facts know to lose nothing, removed"""
    if f is None:
        return None
    for l in list(f.lits):
        y = E.settle(f, l)
        if y is not l:
            g = f.assume(y)
            if g is None:
                return None
            f = g
    return f

def limits(r):
    return [s_arg(r, i) for i in range(2, r.f.argc + 1) if r.P.tystr(r.f.locals[i]) in ("usize", "u64")]

def is_num(v):
    return isinstance(v, T) and is_int(v) or isinstance(v, T) and v.op in ("lv", "sym", "lvx", "at", "proj", "fld") and v in BITS

def c31(P, pid, tier, t0):
    c = Col()
    adt_ = find_adt(P, "DataStream")
    fm = fieldmap(P, adt_, lambda s, n: "count" if s == "usize" or s == "u64" else ("eof" if s == "bool" else ("reader" if s == "R" else None))) if adt_ else None
    if not fm or set(fm[1]) != {"reader", "count", "eof"}:
        c.notes["representation"] = "the byte source is not a reader, a count and an end flag"
        return ck.report(pid, c, tier, t0, C31_RULE)
    ty, fm = fm
    for f in methods(P, adt_):
        try:
            source_method(P, c, f, ty, fm)
        except Inconclusive as e:
            c.ob(None, f.name, "%s: %s" % (f.name, e))
    c.floor("methods", 12, "methods of the byte source")
    return ck.report(pid, c, tier, t0, C31_RULE, ["A reader delivers the next bytes of one fixed sequence, reports its end once there are too few, or fails with another kind of error at any call."])

def source_method(P, c, f, ty, fm):
    n = f.name
    r = Root(P, f)
    I_ = r.I
    c.count("methods")
    for e in r.odd:
        c.ob(None, n + ": unmodelled", "%s: %s" % (n, e.detail))
    if P.types[f.locals[1]]["k"] != "ref":
        for s, v in r.rets:
            if v.op == "adt" and v.args[0] == ty["path"]:
                c.ob(match(s.facts, proj(I_, ty, fm["count"], v), ZERO), n + ": count", "a new byte source starts with count %s" % short(proj(I_, ty, fm["count"], v)), sample="starts at 0")
                c.ob(match(s.facts, proj(I_, ty, fm["eof"], v), FALSE), n + ": end flag", "a new byte source starts with end flag %s" % short(proj(I_, ty, fm["eof"], v)), sample="starts before the end")
        return
    if not P.tystr(f.locals[1]).startswith("&mut"):
        return
    s0 = r.self0
    n0, e0 = proj(I_, ty, fm["count"], s0), proj(I_, ty, fm["eof"], s0)
    p0 = mk("sym", "pos0")
    rt, rs = result_of(P, f)
    if rt is None:
        return c.ob(None, n + ": result", "%s does not return a Result" % n)
    el = elem(P, rt)
    a1 = P.tystr(f.locals[2]) if f.argc > 1 else None
    text = False
    if f.argc == 1 and el in PRIMS:
        mode, w = "typed", I(PRIMS[el])
    elif f.argc == 2 and "u8]" in a1 and a1.startswith("&mut"):
        mode, w = "exact", None
    elif f.argc == 2 and a1 in ("usize", "u64") and "String" in rs:
        mode, w, text = "typed", s_arg(r, 2), True
    elif f.argc == 2 and a1 in ("usize", "u64") and rs in ("usize", "u64"):
        return skip_method(P, c, r, n, ty, fm, n0, e0, p0)
    elif f.argc == 2 and a1 in ("usize", "u64") and "u8" in rs:
        mode, w = "typed", s_arg(r, 2)
    else:
        return c.ob(None, n + ": kind", "%s(%s) -> %s is not a read of a known kind" % (n, a1, rs))
    reads = [e for e in I_.events if e.kind == "read"]
    for s, v, k in r.split():
        fa = s.facts
        c.count("paths")
        if mode == "exact":
            w = slen(arg_mem0(r, 1))
        s1 = r.self1(s)
        n1, e1 = proj(I_, ty, fm["count"], s1), proj(I_, ty, fm["eof"], s1)
        eof, io = ("g", "eof") in s.store, ("g", "ioerr") in s.store
        if k is None:
            c.ob(None, n + ": result", "%s returns %s" % (n, short(v)))
            continue
        if io:
            okk = k == 1 and any(x.op == "adt" and x.args[0] == "io.err" for x in F.walk(v))
            c.ob(okk, n + ": reader error", "%s returns %s although the reader failed" % (n, short(v)), sample="%s: a reader error is returned" % n)
            c.ob(match(fa, e1, e0), n + ": end flag on error", "a reader error that is not the end of file changes the end flag in %s" % n)
            continue
        c.ob(match(fa, n1, add(n0, w)), n + ": count", "%s advances the byte count to %s instead of by %s (path: %s)" % (n, short(n1), short(w), "end of file" if eof else "bytes delivered"), sample="%s: count + %s" % (n, short(w)))
        if eof:
            c.ob(match(fa, e1, TRUE), n + ": end of file", "%s meets the end of file and leaves the end flag %s" % (n, short(e1)), sample="%s: end of file sets the flag" % n)
            rn = s.store.get(("g", "eofn"))
            c.ob(match(fa, rn, w) if rn is not None else None, n + ": requested", "%s asks the reader for %s bytes instead of %s" % (n, short(rn) if rn is not None else "?", short(w)))
            continue
        c.ob(match(fa, e1, e0), n + ": end flag", "%s sets the end flag to %s although the bytes were delivered" % (n, short(e1)), sample="%s: flag unchanged when delivered" % n)
        c.ob(match(fa, pos_of(s), add(p0, w)), n + ": taken", "%s takes the bytes up to %s instead of exactly %s" % (n, short(pos_of(s)), short(w)), sample="%s takes exactly %s" % (n, short(w)))
        if k == 1:
            bad = any(x.op == "adt" and "Utf8" in str(x.args[0]) or x.op == "adt" and x.args[0].endswith("FromUtf8Error") for x in F.walk(v)) or text and utf8_refused(fa)
            c.ob(True if text and bad else (None if text else False), n + ": refusal", "%s returns the error %s although its bytes were delivered" % (n, short(v)))
            continue
        x = v.args[2]
        if mode == "exact":
            m = s.store.get(arg_root(r, 1))
            c.ob(match(fa, m, ssub(STREAM, p0, w)), n + ": bytes", "%s fills the caller's buffer with %s" % (n, short(m)), sample="%s: the next bytes" % n)
            c.ob(match(fa, x, w), n + ": reported", "%s reports %s bytes" % (n, short(x)))
        elif text or el not in PRIMS:
            c.ob(match(fa, x, ssub(STREAM, p0, w)), n + ": value", "%s returns %s instead of the next bytes" % (n, short(x)), sample="%s = the next bytes" % n)
        else:
            c.ob(match(fa, inner(x), scalar(el, STREAM, p0)), n + ": value", "%s returns %s instead of the next %s, little-endian" % (n, short(x), el), sample="%s = %s at the position" % (n, el))

def utf8_refused(fa):
    return any("utf8" in x.op for l in fa.lits for x in F.walk(l))

def arg_root(r, i):
    return ("s", r.argname % i)

def arg_mem0(r, i):
    return mk("sym", r.argname % i)

def skip_method(P, c, r, n, ty, fm, n0, e0, p0):
    want = s_arg(r, 2)
    for e in r.I.events:
        if e.kind == "readup":
            pos, lim = e.data
            fa = settled(relate(r, e.st.facts))
            lim = E.settle(fa, lim)
            room = sub(sub(want, sub(pos, p0)), lim)
            g = fa.ge(room)
            if g is None and not tainted(lim) and fa.assume(ge0(sub(I(-1), room))) is None:
                g = True
            if g is None and (tainted(lim) or tainted(pos)):
                c.ob(None, n + ": asked", "%s(n) asks the reader for up to %s bytes after taking %s" % (n, short(lim), short(sub(pos, p0))))
            else:
                c.ob(g is True, n + ": asked", "%s(n) asks the reader for up to %s bytes after taking %s, which can be more than n in all" % (n, short(lim), short(sub(pos, p0))), sample="%s(n) never asks for more than n in all" % n)
    for s, v, k in r.split():
        c.count("paths")
        fa = relate(r, s.facts)
        s1 = r.self1(s)
        n1 = proj(r.I, ty, fm["count"], s1)
        io = ("g", "ioerr") in s.store
        if io:
            c.ob(k == 1, n + ": reader error", "%s returns %s although the reader failed" % (n, short(v)), sample="%s: a reader error is returned" % n)
            continue
        if k != 0:
            c.ob(None if k is None else False, n + ": refusal", "%s returns %s although the reader did not fail" % (n, short(v)))
            continue
        got = sub(pos_of(s), p0)
        x = unref(v.args[2])
        c.ob(match3(fa, x, got), n + ": reported", "%s reports %s bytes although it took %s" % (n, short(x), short(got)), sample="%s reports what it consumed" % n)
        g = fa.ge(sub(want, got))
        g = g if g is not None else fa.ge(sub(want, x)) if match3(fa, x, got) is True else None
        c.ob(g, n + ": at most", "%s(n) can consume more than n bytes: %s" % (n, short(got)), sample="%s(n) consumes at most n" % n)
        c.ob(match3(fa, n1, add(n0, got)), n + ": count", "%s advances the byte count to %s after taking %s" % (n, short(n1), short(got)), sample="%s: count + consumed" % n)

def match3(fa, a, b):
    if a is b or fa.same(a, b) is True:
        return True
    z = fa.zero(sub(a, b))
    return z if z is not None else (None if summarised(a) or summarised(b) else False)
