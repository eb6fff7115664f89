"""Term domain: hash-consed Herbrand terms with canonical forms for integers (linear), booleans and
byte/element sequences.  Equal terms denote equal run-time values; the converse need not hold."""

class T:
    __slots__ = ("op", "args", "id", "free")
    def __repr__(self):
        return show(self)

_tab = {}
_n = [0]

def mk(op, *args):
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.id = _n[0]
        t.free = None
        _n[0] += 1
        _tab[k] = t
    return t

# side tables -------------------------------------------------------------------------------
RANGE = {}      # int term -> (lo, hi)
BITS = {}       # int term -> (bits, signed)
ELEMW = {}
NOTE = {}       # term -> free-form note (site of an opaque value)
LENRANGE = {}   # opaque seq term -> (lo, hi)
FIXLEN = {}     # symbolic array -> its length

def I(n):
    return mk("int", n)

TRUE = mk("bool", True)
FALSE = mk("bool", False)
UNIT = mk("adt", "()", 0)
ZERO = I(0)
ONE = I(1)

def B(b):
    return TRUE if b else FALSE

def lit(bs):
    return mk("lit", bytes(bs))

EMPTY = lit(b"")

def adt(path, variant, *fields):
    # eta: rebuild of a value from all of its own fields
    if fields:
        f0 = fields[0]
        if f0.op == "fld" and f0.args[2] == 0 and f0.args[1] == variant:
            b = f0.args[0]
            if f0.args[3] == path and f0.args[4] == len(fields):
                for i, f in enumerate(fields):
                    if not (f.op == "fld" and f.args[0] is b and f.args[1] == variant and f.args[2] == i):
                        break
                else:
                    return b
    return mk("adt", path, variant, *fields)

def tup(*fs):
    return mk("adt", "()", 0, *fs)

def fld(base, variant, i, path, n):
    """field i of `base` seen as variant `variant` of ADT `path` that has n fields"""
    if base.op == "adt":
        if base.args[1] == variant and len(base.args) > 2 + i:
            return base.args[2 + i]
    if base.op == "ite":
        pass
    return mk("fld", base, variant, i, path, n)

OPT = "core::option::Option"
RES = "core::result::Result"
NONE = mk("adt", OPT, 0)
def some(x):
    return adt(OPT, 1, x)
def ok(x):
    return adt(RES, 0, x)
def err(x):
    return adt(RES, 1, x)

def vref(t):
    if t.op == "deref":
        return t.args[0]
    return mk("vref", t)

def deref(t):
    if t.op == "vref":
        return t.args[0]
    return mk("deref", t)

# ------------------------------------------------------------------------------- integers
def _lin(t):
    """-> (const, dict atom->coef)"""
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}

def _mklin(c, d):
    d = {a: k for a, k in d.items() if k}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (a, k), = d.items()
        if k == 1:
            return a
    items = tuple(sorted(d.items(), key=lambda x: x[0].id))
    # recognise little-endian byte combinations  b0 + 256*b1 + ..., pairwise and aligned, so that the order of the additions does not matter
    if len(items) > 1:
        byk = {}
        for x, k in items:
            if k > 0 and k & (k - 1) == 0 and (x.op == "le" or (x.op == "at" and RANGE.get(x) == (0, 255))):
                w = 1 if x.op == "at" else {"u16": 2, "u32": 4}.get(x.args[0])
                j = (k.bit_length() - 1) // 8
                if w and k == 256 ** j:
                    byk[(j, w, x.args[0] if w == 1 else x.args[1])] = (x, k)
        for (j, w, sq), (x, k) in byk.items():
            if j % (2 * w) == 0:
                y = byk.get((j + w, w, sq))
                if y is not None and y[0].args[-1] is add(x.args[-1], I(w)):
                    d2 = dict(d)
                    del d2[x], d2[y[0]]
                    u = le("u%d" % (16 * w), sq, x.args[-1])
                    d2[u] = d2.get(u, 0) + k
                    return _mklin(c, d2)
    return mk("lin", c, items)

def add(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] + b.args[0])
    ca, da = _lin(a)
    cb, db = _lin(b)
    for x, k in db.items():
        da[x] = da.get(x, 0) + k
    return _mklin(ca + cb, da)

def scale(a, k):
    c, d = _lin(a)
    return _mklin(c * k, {x: v * k for x, v in d.items()})

def sub(a, b):
    return add(a, scale(b, -1))

def mul(a, b):
    if a.op == "int":
        return scale(b, a.args[0])
    if b.op == "int":
        return scale(a, b.args[0])
    if a.id > b.id:
        a, b = b, a
    return mk("mul", a, b)

INTW = {"u8": 8, "u16": 16, "u32": 32, "u64": 64, "u128": 128, "usize": 64,
        "i8": 8, "i16": 16, "i32": 32, "i64": 64, "i128": 128, "isize": 64}

def irange(bits, signed):
    if signed:
        return -(1 << (bits - 1)), (1 << (bits - 1)) - 1
    return 0, (1 << bits) - 1

def trange(t):
    """interval of an integer term (lo, hi), None for unbounded"""
    o = t.op
    if o == "int":
        return t.args[0], t.args[0]
    if o == "lin":
        lo = hi = t.args[0]
        for a, k in t.args[1]:
            l, h = trange(a)
            if k < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + k * l
            hi = None if hi is None or h is None else hi + k * h
        return lo, hi
    r = RANGE.get(t)
    if r:
        return r
    if o == "len":
        lr = LENRANGE.get(t.args[0])
        return lr or (0, (1 << 63) - 1)
    if o == "b2i":
        return 0, 1
    if o == "le":
        k = t.args[0]
        if k[0] in "ui":
            return irange(int(k[1:]), k[0] == "i")
    if o == "wrap":
        return irange(t.args[0], t.args[1])
    if o == "band":
        rs = [trange(x) for x in t.args]
        his = [h for l, h in rs if l is not None and l >= 0 and h is not None]
        if his:
            return 0, min(his)
    if o in ("shr", "div"):
        l, h = trange(t.args[0])
        if l is not None and l >= 0:
            return 0, h
    if o == "rem":
        l, h = trange(t.args[1])
        l0, h0 = trange(t.args[0])
        if l0 is not None and l0 >= 0 and h is not None and h > 0:
            return 0, h - 1
    if o in ("min", "satsub"):
        ls = [trange(x) for x in t.args]
        if o == "satsub":
            return 0, ls[0][1]
        lo = None if any(l is None for l, h in ls) else min(l for l, h in ls)
        his = [h for l, h in ls if h is not None]
        return lo, (min(his) if his else None)
    if o == "max":
        ls = [trange(x) for x in t.args]
        los = [l for l, h in ls if l is not None]
        return (max(los) if los else None), (None if any(h is None for l, h in ls) else max(h for l, h in ls))
    return None, None

def wrap(t, bits, signed):
    """value of t reduced to the given integer type"""
    lo, hi = irange(bits, signed)
    l, h = trange(t)
    if l is not None and h is not None and lo <= l and h <= hi:
        return t
    if t.op == "int":
        v = t.args[0] & ((1 << bits) - 1)
        if signed and v >= 1 << (bits - 1):
            v -= 1 << bits
        return I(v)
    if t.op == "le" and t.args[0] in ("u%d" % bits, "i%d" % bits):
        return le(("i" if signed else "u") + str(bits), t.args[1], t.args[2])
    if t.op == "at" and bits == 8 and BITS.get(t, (8, False))[0] == 8 and trange(t) == (0, 255):
        if signed:
            return mk("wrap", 8, True, t)
        return t
    if t.op == "wrap" and t.args[0] >= bits:
        return wrap(t.args[2], bits, signed)
    if t.op == "wrap" and t.args[0] == bits:
        return wrap(t.args[2], bits, signed)
    return mk("wrap", bits, signed, t)

def band(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] & b.args[0])
    if a.op == "int":
        a, b = b, a
    if b.op == "int":
        m = b.args[0]
        if m == 0:
            return ZERO
        l, h = trange(a)
        if l is not None and l >= 0 and h is not None and m > 0:
            full = (1 << h.bit_length()) - 1
            if m & full == full:
                return a
            if m & ~full and m & full:
                return band(a, I(m & full))
        if a.op == "band" and a.args[1].op == "int":
            return band(a.args[0], I(a.args[1].args[0] & m))
        return mk("band", a, b)
    if a is b:
        return a
    if a.id > b.id:
        a, b = b, a
    return mk("band", a, b)

def bor(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] | b.args[0])
    if a is ZERO:
        return b
    if b is ZERO or a is b:
        return a
    for x, y in ((a, b), (b, a)):
        l, h = trange(x)
        if l is not None and l >= 0 and h is not None:
            n = h.bit_length()
            c, d = _lin(y)
            yl, _ = trange(y)
            if yl is not None and yl >= 0 and c % (1 << n) == 0 and all(k % (1 << n) == 0 for k in d.values()):
                return add(x, y)
    if a.id > b.id:
        a, b = b, a
    return mk("bor", a, b)

def bxor(a, b):
    if a.op == "int" and b.op == "int":
        return I(a.args[0] ^ b.args[0])
    if a is b:
        return ZERO
    if a.id > b.id:
        a, b = b, a
    return mk("bxor", a, b)

def b2i(b):
    if b.op == "bool":
        return ONE if b.args[0] else ZERO
    return mk("b2i", b)

# ------------------------------------------------------------------------------- booleans
def ge0(t):
    if t.op == "int":
        return B(t.args[0] >= 0)
    l, h = trange(t)
    if l is not None and l >= 0:
        return TRUE
    if h is not None and h < 0:
        return FALSE
    r = ring(t)
    if r is not None:
        k, c, x, e, M = r
        if k < 0:                   # c >= wrapped: the complement of wrapped >= c + 1
            return not_(ge0(sub(mk("wrap", M.bit_length() - 1, False, add(x, I(e))), I(c + 1)))) if c + 1 < M else TRUE
        v = -c
        if v >= e:
            return and_(ge0(sub(x, I(v - e))), ge0(sub(I(M - 1 - e), x)))
        return not_(and_(ge0(sub(x, I(M - e))), ge0(sub(I(M - e + v - 1), x))))
    c, d = _lin(t)
    from math import gcd
    g = 0
    for k in d.values():
        g = gcd(g, abs(k))
    if g > 1:
        t = _mklin(c // g, {a: k // g for a, k in d.items()})
    return mk("ge0", t)

def not_(b):
    if b.op == "bool":
        return B(not b.args[0])
    if b.op == "not":
        return b.args[0]
    if b.op == "ge0":
        return ge0(sub(I(-1), b.args[0]))
    return mk("not", b)

def ring(d):
    """c + k*wrap(n, unsigned, x + e) with one byte-like x that spans at most the ring: (k, c, x, e mod 2^n, 2^n)"""
    c, dd = _lin(d)
    if len(dd) != 1:
        return None
    (w, k), = dd.items()
    if w.op != "wrap" or w.args[1] or k not in (1, -1):
        return None
    e, xx = _lin(w.args[2])
    if len(xx) != 1:
        return None
    (x, kx), = xx.items()
    M = 1 << w.args[0]
    l, h = trange(x)
    if kx != 1 or l is None or h is None or l < 0 or h >= M:
        return None
    return k, c, x, e % M, M

def ieq(a, b):
    d = sub(a, b)
    r = ring(d)
    if r is not None:
        k, c, x, e, M = r
        v = -c * k
        return ieq(x, I((v - e) % M)) if 0 <= v < M else FALSE
    if d.op == "int":
        return B(d.args[0] == 0)
    l, h = trange(d)
    if (l is not None and l > 0) or (h is not None and h < 0):
        return FALSE
    c, dd = _lin(d)
    if len(dd) == 1 and c == 0:
        (a0, k), = dd.items()
        if a0.op == "b2i":
            return not_(a0.args[0])
    if len(dd) == 1:
        (a0, k), = dd.items()
        if a0.op == "b2i" and abs(k) == 1:
            if -c * k == 1:
                return a0.args[0]
            if -c * k == 0:
                return not_(a0.args[0])
            return FALSE
    # sign normalise
    first = min(dd, key=lambda x: x.id)
    if dd[first] < 0:
        d = scale(d, -1)
    return mk("eq0", d)

def lt(a, b):
    return ge0(sub(sub(b, a), ONE))
def le_(a, b):
    return ge0(sub(b, a))

INTOPS = {"int", "lin", "len", "le", "wrap", "band", "bor", "bxor", "shl", "shr", "mul", "div", "rem",
          "b2i", "min", "max", "satsub", "satadd", "discr"}

def eq(a, b):
    if a is b:
        return TRUE
    if a.op == "float" or b.op == "float":
        return mk("eq", a, b) if a.id < b.id else mk("eq", b, a)
    if a.op == "bool":
        return b if a.args[0] else not_(b)
    if b.op == "bool":
        return a if b.args[0] else not_(a)
    if is_int(a) or is_int(b):
        return ieq(a, b)
    if is_seq(a) and is_seq(b):
        if a.op == "lit" and b.op == "lit":
            return B(a.args[0] == b.args[0])
        la, lb = slen(a), slen(b)
        d = sub(la, lb)
        if d.op == "int" and d.args[0] != 0:
            return FALSE
        # element-wise for short concrete sequences
        if la.op == "int" and lb is la and la.args[0] <= 16 and (elemwise(a) or elemwise(b)):
            r = TRUE
            for i in range(la.args[0]):
                e = eq(sat(a, I(i)), sat(b, I(i)))
                r = and_(r, e)
                if r is FALSE:
                    return FALSE
            return r
        if a.op == "lit" and not a.args[0]:
            return ieq(lb, ZERO)
        if b.op == "lit" and not b.args[0]:
            return ieq(la, ZERO)
    if a.op == "vref" and b.op == "vref":
        return eq(a.args[0], b.args[0])
    if a.op == "adt" and b.op == "adt" and a.args[0] == b.args[0]:
        if a.args[1] != b.args[1]:
            return FALSE
        r = TRUE
        for x, y in zip(a.args[2:], b.args[2:]):
            r = and_(r, eq(x, y))
        return r
    if a.id > b.id:
        a, b = b, a
    return mk("eq", a, b)

def boolnorm(c):
    """a bound at the end of a range is an equality: x - 1 >= 0 of a byte x is x != 0"""
    if c.op == "ge0":
        lo, hi = trange(c.args[0])
        if lo == -1:
            return not_(ieq(add(c.args[0], ONE), ZERO))
        if hi == 0:
            return ieq(c.args[0], ZERO)
    return c

def conjuncts(c):
    if c.op == "and":
        return conjuncts(c.args[0]) + conjuncts(c.args[1])
    return [c]

def and_(a, b):
    if a.op == "bool":
        return b if a.args[0] else FALSE
    if b.op == "bool":
        return a if b.args[0] else FALSE
    if a is b:
        return a
    if not_(a) is b:
        return FALSE
    if a.id > b.id:
        a, b = b, a
    return mk("and", a, b)

def or_(a, b):
    return not_(and_(not_(a), not_(b)))

def is_int(t):
    return t.op in INTOPS or t in BITS

# ------------------------------------------------------------------------------- sequences
SEQOPS = {"lit", "one", "rep", "sub", "cat", "star", "enc", "text", "lossy", "sqz"}
def is_seq(t):
    return t.op in SEQOPS or t in LENRANGE or t.op == "seqsym"

def elemwise(t):
    return t.op == "lit" or t.op == "one" or (t.op == "cat" and all(elemwise(p) for p in t.args)) or (t.op == "rep")

ENCW = {"u8": 1, "i8": 1, "u16": 2, "i16": 2, "u32": 4, "i32": 4, "u64": 8, "i64": 8, "u128": 16, "i128": 16,
        "f32": 4, "f64": 8, "usize": 8, "isize": 8}

def slen(s):
    o = s.op
    if s in FIXLEN:
        return I(FIXLEN[s])
    if o == "lit":
        return I(len(s.args[0]))
    if o == "one":
        return ONE
    if o == "rep":
        return s.args[1]
    if o == "sub":
        return s.args[2]
    if o == "enc":
        return I(ENCW[s.args[0]])
    if o == "cat":
        r = ZERO
        for p in s.args:
            r = add(r, slen(p))
        return r
    if o == "star":
        # constant number of elements per iteration
        n = None
        for a in s.args[3]:
            x = slen(a.args[1])
            if x.op != "int" or (n is not None and n is not x):
                n = None
                break
            n = x
        if n is not None and s.args[1] is not None:
            return mul(n, s.args[1])
    return mk("len", s)

def cat(*parts):
    out = []
    def push(p):
        if p.op == "cat":
            for q in p.args:
                push(q)
            return
        if p.op == "lit" and not p.args[0]:
            return
        if p.op in ("sub", "rep") and slen(p) is ZERO:
            return
        if p.op == "one":
            x = p.args[0]
            if x.op == "int" and 0 <= x.args[0] < 256:
                p = lit([x.args[0]])
            elif x.op == "at":
                p = ssub(x.args[0], x.args[1], ONE)
        if out:
            q = out[-1]
            if q.op == "lit" and p.op == "lit":
                out[-1] = lit(q.args[0] + p.args[0])
                return
            if q.op == "sub" and p.op == "sub" and q.args[0] is p.args[0] and add(q.args[1], q.args[2]) is p.args[1]:
                out[-1] = ssub(q.args[0], q.args[1], add(q.args[2], p.args[2]))
                return
            if q.op == "rep" and p.op == "rep" and q.args[0] is p.args[0]:
                out[-1] = rep(q.args[0], add(q.args[1], p.args[1]))
                return
            if (p.op == "one" or p.op == "enc") and p.op == q.op:
                m = word_pair(q, p)
                if m is not None:
                    out.pop()
                    push(m)
                    return
        out.append(p)
    for p in parts:
        push(p)
    if not out:
        return EMPTY
    if len(out) == 1:
        return out[0]
    return mk("cat", *out)

def word_pair(q, p):
    """the two halves of a little-endian word, written one after the other"""
    w = 8 if p.op == "one" else 8 * ENCW[p.args[0]]
    if w > 32 or p.op == "enc" and (p.args[0][0] != "u" or q.args[0] != p.args[0]):
        return None
    def split(t):
        x = t.args[-1]
        if x.op == "wrap" and x.args[0] == w and not x.args[1]:
            x = x.args[2]
        if x.op == "shr" and x.args[1].op == "int":
            return x.args[0], x.args[1].args[0]
        return x, 0
    b, t = split(p)
    if t == 0:
        return None
    a, s = split(q)
    if a is not b or t != s + w or s % (2 * w):
        return None
    return enc("u%d" % (2 * w), wrap(mk("shr", a, I(s)) if s else a, 2 * w, False))

def one(x):
    if x.op == "int" and 0 <= x.args[0] < 256:
        return lit([x.args[0]])
    if x.op == "at":
        return ssub(x.args[0], x.args[1], ONE)
    return mk("one", x)

def rep(x, n):
    if n is ZERO:
        return EMPTY
    if x.op == "int" and 0 <= x.args[0] < 256 and n.op == "int" and n.args[0] <= 4096:
        return lit([x.args[0]] * n.args[0])
    return mk("rep", x, n)

def ssub(s, p, n):
    """s[p .. p+n] (assumed in bounds)"""
    if n is ZERO:
        return EMPTY
    if p is ZERO and slen(s) is n:
        return s
    if s.op == "sub":
        return ssub(s.args[0], add(s.args[1], p), n)
    if s.op == "lit" and p.op == "int" and n.op == "int":
        return lit(s.args[0][p.args[0]:p.args[0] + n.args[0]])
    if s.op == "rep":
        return rep(s.args[0], n)
    if s.op == "cat":
        # walk parts while offsets are decidable
        off = p
        parts = list(s.args)
        i = 0
        while i < len(parts):
            l = slen(parts[i])
            d = sub(off, l)
            if trange(d)[0] is not None and trange(d)[0] >= 0:
                off = d
                i += 1
                continue
            break
        if i < len(parts):
            if i > 0:
                rest = cat(*parts[i:])
                return ssub(rest, off, n)
            if off is ZERO:
                out = []
                rem = n
                j = 0
                while j < len(parts):
                    l = slen(parts[j])
                    if rem is ZERO:
                        return cat(*out)
                    d = sub(rem, l)
                    if trange(d)[0] is not None and trange(d)[0] >= 0:
                        out.append(parts[j])
                        rem = d
                        j += 1
                        continue
                    dl = trange(sub(l, rem))[0]
                    if dl is not None and dl >= 0:
                        out.append(ssub(parts[j], ZERO, rem))
                        return cat(*out)
                    break
                else:
                    if rem is ZERO:
                        return cat(*out)
            else:
                l = slen(parts[0])
                endin = trange(sub(sub(l, off), n))[0]
                if endin is not None and endin >= 0:
                    return ssub(parts[0], off, n)
                if off.op == "int" and l.op == "int":
                    first = ssub(parts[0], off, sub(l, off))
                    return cat(first, ssub(cat(*parts[1:]), ZERO, sub(n, sub(l, off))))
    return mk("sub", s, p, n)

def sat(s, i):
    """element s[i]"""
    if s.op == "sub":
        return sat(s.args[0], add(s.args[1], i))
    if s.op == "lit" and i.op == "int" and 0 <= i.args[0] < len(s.args[0]):
        return I(s.args[0][i.args[0]])
    if s.op == "rep":
        return s.args[0]
    if s.op == "one":
        return s.args[0]
    if s.op == "cat":
        off = i
        for p in s.args:
            l = slen(p)
            d = sub(off, l)
            lo, hi = trange(d)
            if lo is not None and lo >= 0:
                off = d
                continue
            if hi is not None and hi < 0:
                return sat(p, off)
            break
    if s.op == "star" and len(s.args[3]) == 1:
        p = s.args[3][0].args[1]
        if slen(p) is ONE:
            return subst(sat(p, ZERO), {bv(s.args[0]): i})
    if s.op == "enc" and i.op == "int":
        v = s.args[1]
        return wrap(mk("shr", v, I(8 * i.args[0])) if i.args[0] else v, 8, False)
    t = mk("at", s, i)
    return t

def le(kind, s, p):
    """little-endian decode of ENCW[kind] bytes of s at p"""
    w = ENCW[kind]
    if kind == "u8":
        return sat_u8(s, p)
    if kind == "i8":
        return wrap(sat_u8(s, p), 8, True)
    if s.op == "sub":
        return le(kind, s.args[0], add(s.args[1], p))
    if kind == "usize":
        kind = "u64"
    if kind == "isize":
        kind = "i64"
    return mk("le", kind, s, p)

def sat_u8(s, p):
    t = sat(s, p)
    if t.op == "at":
        RANGE.setdefault(t, (0, 255))
        BITS.setdefault(t, (8, False))
    return t

def decode(kind, bs):
    """from_le_bytes of a byte sequence known to have the right length"""
    w = ENCW[kind]
    if bs.op == "lit" and len(bs.args[0]) == w:
        if kind[0] in "ui":
            return I(int.from_bytes(bs.args[0], "little", signed=kind[0] == "i"))
        return mk("float", str(int.from_bytes(bs.args[0], "little")))
    if bs.op == "enc" and bs.args[0] == kind:
        return bs.args[1]
    if bs.op == "enc" and ENCW[bs.args[0]] == w and kind[0] in "ui" and bs.args[0][0] in "ui":
        return wrap(bs.args[1], 8 * w, kind[0] == "i")
    if w == 1:
        v = sat_u8(bs, ZERO)
        return wrap(v, 8, True) if kind == "i8" else v
    if bs.op == "sub":
        return le(kind, bs.args[0], bs.args[1])
    return mk("le", kind, bs, ZERO)

def enc(kind, v):
    w = ENCW[kind]
    if kind == "usize":
        kind = "u64"
    if kind == "isize":
        kind = "i64"
    if v.op == "int" and kind[0] in "ui":
        return lit(v.args[0].to_bytes(w, "little", signed=kind[0] == "i")) if irange(8 * w, kind[0] == "i")[0] <= v.args[0] <= irange(8 * w, kind[0] == "i")[1] else mk("enc", kind, v)
    if w == 1:
        if kind == "i8":
            v = wrap(v, 8, False)
        return one(v)
    if v.op == "le" and v.args[0] == kind:
        return ssub(v.args[1], v.args[2], I(w))
    if v.op == "le" and ENCW[v.args[0]] == w and kind[0] in "ui" and v.args[0][0] in "ui":
        return ssub(v.args[1], v.args[2], I(w))
    return mk("enc", kind, v)

# ------------------------------------------------------------------------------- repetition
def bv(d):
    t = mk("bv", d)
    RANGE.setdefault(t, (0, 1 << 62))
    BITS.setdefault(t, (64, False))
    return t

_bvd = {}
def bvdepth(t):
    """1 + the largest bound-variable depth inside t (0 when there is none)"""
    r = _bvd.get(t)
    if r is None:
        r = t.args[0] + 1 if t.op == "bv" else 0
        for c in children(t):
            r = max(r, bvdepth(c))
        if t.op == "star":
            r = max(r, t.args[0] + 1)
        _bvd[t] = r
    return r

def mentions(t, x):
    st = [t]
    seen = set()
    while st:
        y = st.pop()
        if y is x:
            return True
        if y in seen:
            continue
        seen.add(y)
        st.extend(children(y))
    return False

def alt(cond, piece):
    return mk("alt", cond, piece)

def star(n, alts, k=None):
    """pieces concatenated for k = 0..n-1; `alts` = [(cond, piece)] over the loop counter term k"""
    d = 0
    for c, p in alts:
        d = max(d, bvdepth(c), bvdepth(p))
    b = bv(d)
    if k is not None:
        m = {k: b}
        alts = [(subst(c, m), subst(p, m)) for c, p in alts]
    return _star(d, n, tuple(alt(c, p) for c, p in alts))

def _star(d, n, alts):
    if n is ZERO:
        return EMPTY
    b = bv(d)
    if alts and all(a.args[1] is EMPTY for a in alts):
        return EMPTY
    ps = {a.args[1] for a in alts}
    if len(ps) == 1:
        alts = (alt(TRUE, alts[0].args[1]),)
    for yes, no, of in ((one(TRUE), one(FALSE), one), (one(ONE), one(ZERO), lambda c: one(b2i(c)))):
        if len(alts) != 2 or ps != {yes, no}:
            continue
        # a boolean picked by branching is the condition of the branch
        ct, cf = [set(map(boolnorm, conjuncts(a.args[0]))) for a in sorted(alts, key=lambda a: a.args[1] is not yes)]
        t_, f_ = ct - cf, cf - ct
        for g, h, neg in ((t_, f_, False), (f_, t_, True)):
            if len(g) == 1 and not_(next(iter(g))) in h:
                c = next(iter(g))
                alts = (alt(TRUE, of(not_(c) if neg else c)),)
                break
    if len(alts) == 1:
        p = alts[0].args[1]
        if n.op == "int" and n.args[0] <= 8:
            return cat(*[subst(p, {b: I(i)}) for i in range(n.args[0])])
        if p.op == "sub" and not mentions(p.args[0], b) and not mentions(p.args[2], b):
            w = p.args[2]
            base = subst(p.args[1], {b: ZERO})
            if not mentions(base, b) and p.args[1] is add(base, mul(w, b)):
                return ssub(p.args[0], base, mul(w, n))
        if slen(p) is ONE and p.op in ("one", "lit") and not mentions(p, b):
            return rep(sat(p, ZERO), n)
    return mk("star", d, n, None, alts)

# ------------------------------------------------------------------------------- traversal
def children(t):
    o = t.op
    if o == "lin":
        return [a for a, _ in t.args[1]]
    out = []
    for a in t.args:
        if isinstance(a, T):
            out.append(a)
        elif isinstance(a, tuple):
            for b in a:
                if isinstance(b, T):
                    out.append(b)
                elif isinstance(b, tuple):
                    out.extend(c for c in b if isinstance(c, T))
    return out

def subterms(t, seen=None):
    """all distinct subterms"""
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(children(x))
    return seen

def rebuild(t, args):
    """re-run the smart constructor of t on new arguments"""
    o = t.op
    if o == "adt":
        return adt(*args)
    if o == "fld":
        r = fld(*args)
        _copy(t, r)
        return r
    if o == "vref":
        return vref(*args)
    if o == "deref":
        r = deref(*args)
        _copy(t, r)
        return r
    if o == "cat":
        return cat(*args)
    if o == "one":
        return one(*args)
    if o == "rep":
        return rep(*args)
    if o == "sub":
        return ssub(*args)
    if o == "at":
        r = sat(*args)
        _copy(t, r)
        return r
    if o == "le":
        return le(*args)
    if o == "enc":
        return enc(*args)
    if o == "len":
        return slen(args[0])
    if o == "ge0":
        return ge0(*args)
    if o == "eq0":
        return ieq(args[0], ZERO)
    if o == "eq":
        return eq(*args)
    if o == "not":
        return not_(*args)
    if o == "and":
        return and_(*args)
    if o == "band":
        return band(*args)
    if o == "bor":
        return bor(*args)
    if o == "b2i":
        return b2i(*args)
    if o == "wrap":
        return wrap(args[2], args[0], args[1])
    if o == "mul":
        return mul(*args)
    if o == "star":
        return _star(args[0], args[1], args[3])
    if o == "discr":
        r = mk("discr", *args)
        _copy(t, r)
        return r
    r = mk(o, *args)
    _copy(t, r)
    return r

def _copy(a, b):
    if a is b:
        return
    for d in (RANGE, BITS, LENRANGE, TYPE, FIXLEN):
        if a in d and b not in d and b.op not in ("int", "lit"):
            d[b] = d[a]

TYPE = {}

def has_free(t, pred_cache, pred):
    """does t contain a subterm satisfying pred (memoised in pred_cache)"""
    r = pred_cache.get(t)
    if r is not None:
        return r
    if pred(t):
        pred_cache[t] = True
        return True
    r = any(has_free(c, pred_cache, pred) for c in children(t))
    pred_cache[t] = r
    return r

def subst(t, m, memo=None, stop=()):
    """simultaneous substitution of subterms"""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op in stop:
        memo[t] = t
        return t
    if t.op == "lin":
        r = I(t.args[0])
        ch = False
        for a, k in t.args[1]:
            b = subst(a, m, memo, stop)
            ch = ch or b is not a
            r = add(r, scale(b, k))
        if not ch:
            r = t
    else:
        ch = False
        na = []
        for a in t.args:
            if isinstance(a, T):
                b = subst(a, m, memo, stop)
                ch = ch or b is not a
                na.append(b)
            elif isinstance(a, tuple) and a and any(isinstance(x, (T, tuple)) for x in a):
                b = tuple(subst(x, m, memo, stop) if isinstance(x, T) else
                          (tuple(subst(y, m, memo, stop) if isinstance(y, T) else y for y in x) if isinstance(x, tuple) else x)
                          for x in a)
                ch = ch or b != a
                na.append(b)
            else:
                na.append(a)
        r = rebuild(t, na) if ch else t
    memo[t] = r
    return r

# ------------------------------------------------------------------------------- printing
def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ", ".join(show(x, d + 1) for x in t) + ")"
        return repr(t)
    if d > 14:
        return "…"
    o, a = t.op, t.args
    s = lambda x: show(x, d + 1)
    if o == "int":
        return str(a[0])
    if o == "bool":
        return str(a[0]).lower()
    if o == "lit":
        try:
            return repr(a[0].decode("ascii"))
        except Exception:
            return repr(a[0])
    if o == "adt":
        p = a[0].split("::")[-1]
        v = vname(a[0], a[1])
        return (p + ("::" + v if v else "")) + ("(" + ", ".join(map(s, a[2:])) + ")" if len(a) > 2 else "")
    if o == "fld":
        return "%s.%s" % (s(a[0]), fname(a[3], a[1], a[2]))
    if o == "vref":
        return "&" + s(a[0])
    if o == "deref":
        return "*" + s(a[0])
    if o == "sym":
        return str(a[0])
    if o == "lin":
        out = []
        for x, k in a[1]:
            out.append(("+" if k > 0 else "-") + ("" if abs(k) == 1 else str(abs(k)) + "*") + s(x))
        if a[0]:
            out.append("%+d" % a[0])
        return "(" + "".join(out) + ")"
    if o == "sub":
        return "%s[%s..+%s]" % (s(a[0]), s(a[1]), s(a[2]))
    if o == "at":
        return "%s[%s]" % (s(a[0]), s(a[1]))
    if o == "le":
        return "%s@%s[%s]" % (a[0], s(a[1]), s(a[2]))
    if o == "cat":
        return "⟨" + " ".join(map(s, a)) + "⟩"
    if o == "ge0":
        return s(a[0]) + ">=0"
    if o == "eq0":
        return s(a[0]) + "==0"
    if o == "star":
        return "star{b%s<%s: %s}" % (a[0], s(a[1]), " | ".join(s(x.args[1]) for x in a[3]))
    if o == "bv":
        return "b%d" % a[0]
    if o == "lv":
        return "lv%s" % (lvname(a),)
    if o == "lvx":
        return "lvx%s" % (lvname(a),)
    return o + "(" + ", ".join(map(s, a)) + ")"

def lvname(a):
    return "<%s:%s>" % (a[0], str(a[1])[-24:])

VNAMES = {}
FNAMES = {}
def vname(path, v):
    return VNAMES.get((path, v), "" if path in ("()",) else str(v) if path in (OPT, RES) else "")
def fname(path, v, i):
    return FNAMES.get((path, v, i), "%s%s" % ("%d." % v if v else "", i))
