"""Abstract interpretation of MIR over the term domain: a forward dataflow analysis whose elements
are (store, facts) pairs, joined at control-flow merges, with loop summaries in place of iteration.
Nothing is executed and no solver is called."""
import sys
from terms import *
import terms
from facts import Facts, DISCRS
from dump import AnalysisError, Prog, Fn

sys.setrecursionlimit(100000)

RCS = ("alloc::rcs::rc::Rc", "alloc::rc::Rc", "alloc::sync::Arc", "alloc::arcs::arc::Arc", "alloc::rcs::arc::Arc", "alloc::boxed::Box", "alloc::borrow::Cow",
       "alloc::rcs::sync::Arc")
BIG = 1 << 62
LBIG = 1 << 40     # no sequence in memory has more elements
UNDEF = mk("undef")

class St:
    __slots__ = ("store", "facts")
    def __init__(self, store, facts):
        self.store = store
        self.facts = facts
    def copy(self):
        return St(dict(self.store), self.facts)
    def set(self, k, v):
        s = St(dict(self.store), self.facts)
        s.store[k] = v
        return s
    def assume(self, b):
        f = self.facts.assume(b)
        if f is None:
            return None
        if f is self.facts:
            return self
        return St(self.store, f)

class Event:
    __slots__ = ("kind", "where", "fn", "line", "detail", "status", "st", "data", "stack")
    def __init__(self, kind, fn, line, detail, status, st, data=None, stack=()):
        self.kind = kind
        self.fn = fn
        self.line = line
        self.detail = detail
        self.status = status
        self.st = st
        self.data = data
        self.stack = stack

_fids = {}
_fidinfo = []
def fid_of(*k):
    r = _fids.get(k)
    if r is None:
        r = len(_fidinfo)
        _fids[k] = r
        _fidinfo.append(k)
    return r

_refs = {}
def refs_of(t):
    """store roots mentioned by ref terms inside t"""
    r = _refs.get(t)
    if r is None:
        # iterative post-order
        stack = [t]
        while stack:
            x = stack[-1]
            if x in _refs:
                stack.pop()
                continue
            ch = [c for c in children(x) if c not in _refs]
            if ch:
                stack.extend(ch)
                continue
            s = frozenset()
            for c in children(x):
                s = s | _refs[c]
            if x.op == "ref":
                s = s | {x.args[0]}
            _refs[x] = s
            stack.pop()
        r = _refs[t]
    return r

class Call:
    __slots__ = ("f", "args", "tids", "dtid", "fid", "fn", "bb", "line", "name", "I")

class Inconclusive(Exception):
    pass

class Interp:
    def __init__(self, prog, opts=None):
        self.P = prog
        self.opts = opts or {}
        self.events = []
        self.stack = []          # keys of functions being analysed
        self.sites = []          # (fn, line) call chain
        self.frames = []
        self.leafguess = {}
        self.tinv = {}
        self.uctx = ()
        self.kstack = ()
        self.pinned = set()
        self.stypes = {}
        self.loops = {}
        self.unmod = {}
        self.nblocks = 0
        self.fresh = {}
        self.placecache = {}
        self.sinks = {}
        import models
        self.models = models
        self.analysed = set()
        self.loopdepth = 0
        self.rkeys = set(self.opts.get("recursive", ()))
        self.hooks = self.opts.get("hooks", {})

    # ------------------------------------------------------------------ types
    def strip(self, tid):
        while True:
            t = self.P.types[tid]
            if t["k"] == "adt" and t["path"] in RCS and t["args"]:
                tid = t["args"][0]
                continue
            return tid

    def kind(self, tid):
        return self.P.types[self.strip(tid)]

    def ann(self, t, tid):
        """record type-derived facts about a symbolic term"""
        o = t.op
        if o in ("int", "bool", "lit", "adt", "vref", "ref", "cat", "rep", "one", "lin"):
            return t
        if t in terms.TYPE:
            return t
        tid = self.strip(tid)
        ty = self.P.types[tid]
        k = ty["k"]
        terms.TYPE[t] = tid
        if k == "int":
            if t not in BITS:
                BITS[t] = (ty["bits"], ty["signed"])
            if t not in RANGE and o not in ("le", "wrap", "len", "b2i", "band"):
                lo, hi = irange(ty["bits"], ty["signed"])
                if o == "fld" and self.is_counter(t, ty):
                    hi = BIG
                RANGE[t] = (lo, hi)
        elif k == "char":
            BITS.setdefault(t, (32, False))
            RANGE.setdefault(t, (0, 0x10FFFF))
        elif k in ("slice", "str") or (k == "adt" and ty["path"] in SEQTYPES):
            LENRANGE.setdefault(t, (0, LBIG))
        elif k == "array":
            n = self.arrlen(ty)
            LENRANGE.setdefault(t, (n, n) if n is not None else (0, LBIG))
            if n is not None:
                terms.FIXLEN[t] = n
        return t

    def is_counter(self, t, ty):
        """usize fields of the struct that owns the reader count bytes already delivered (assumed
        below 2^62)"""
        if ty["bits"] != 64 or ty["signed"]:
            return False
        bt = terms.TYPE.get(t.args[0])
        if bt is None:
            return False
        b = self.P.types[bt]
        return b["k"] == "adt" and b.get("variants") and any(self.P.types[f[1]]["k"] == "param" for f in b["variants"][0]["fields"])

    def arrlen(self, ty):
        l = ty.get("len")
        try:
            return int(l)
        except (TypeError, ValueError):
            return None

    def ann_deep(self, v, tid, d=0):
        """annotate a value built by a model from the static type of its destination"""
        if d > 6:
            return v
        tid = self.strip(tid)
        ty = self.P.types[tid]
        if v.op == "vref":
            if ty["k"] in ("ref", "ptr"):
                self.ann_deep(v.args[0], ty["to"], d + 1)
            return v
        if v.op == "adt":
            if ty["k"] == "adt" and ty["path"] == v.args[0]:
                fs = ty["variants"][v.args[1]]["fields"]
                for x, f in zip(v.args[2:], fs):
                    self.ann_deep(x, f[1], d + 1)
            elif ty["k"] == "tuple":
                for x, f in zip(v.args[2:], ty["fields"]):
                    self.ann_deep(x, f, d + 1)
            return v
        if v.op == "one":
            return v
        return self.ann(v, tid)

    def elem_tid(self, tid):
        """element type of a sequence type (through references)"""
        for _ in range(6):
            tid = self.strip(tid)
            ty = self.P.types[tid]
            k = ty["k"]
            if k in ("ref", "ptr"):
                tid = ty["to"]
                continue
            if k in ("array", "slice"):
                return ty["elem"]
            if k == "adt" and ty["path"] in SEQTYPES:
                if ty["path"].endswith("String"):
                    return None
                return ty["args"][0] if ty["args"] else None
            return None
        return None

    def variant_of(self, v, tid):
        return None

    def discr(self, v, tid):
        """integer discriminant term of an enum value"""
        tid = self.strip(tid)
        ty = self.P.types[tid]
        if v.op == "adt":
            if ty["k"] == "adt" and ty["variants"]:
                return I(int(ty["variants"][v.args[1]]["discr"]))
            return I(v.args[1])
        t = mk("discr", v)
        if t not in DISCRS and ty["k"] == "adt":
            vals = [int(x["discr"]) for x in ty["variants"]]
            DISCRS[t] = vals
            if vals:
                RANGE[t] = (min(vals), max(vals))
        return t

    def variants(self, path):
        for ty in self.P.types:
            if ty["k"] == "adt" and ty["path"] == path:
                return ty["variants"]
        return None

    # ------------------------------------------------------------------ places
    def place_info(self, fn, place):
        """static projection list: (kind, ...) with type ids resolved"""
        key = (fn.key, id(place))
        r = self.placecache.get(key)
        if r is not None:
            return r
        out = []
        tid = fn.locals[place[0]]
        var = None
        for e in place[1:]:
            k = e[0]
            ty = self.P.types[tid] if tid is not None else {"k": "other"}
            if k == "*":
                if ty["k"] in ("ref", "ptr"):
                    out.append(("*", ty["to"]))
                    tid = ty["to"]
                else:
                    st = self.strip(tid)
                    out.append(("box", st))
                    tid = st
            elif k == ".":
                if ty["k"] == "adt":
                    v = 0 if var is None else var
                    n = len(ty["variants"][v]["fields"]) if ty["variants"] else 0
                    if ty["path"] in RCS:
                        out.append(("box", e[2]))
                    else:
                        out.append(("f", v, e[1], ty["path"], n, e[2]))
                elif ty["k"] == "tuple":
                    out.append(("f", 0, e[1], "()", len(ty["fields"]), e[2]))
                elif ty["k"] == "closure":
                    out.append(("f", 0, e[1], "closure:" + ty["key"], len(ty["upvars"]), e[2]))
                else:
                    out.append(("?",))
                tid = e[2]
                var = None
            elif k == "v":
                var = e[1]
            elif k == "i":
                et = self.elem_tid(tid)
                out.append(("i", e[1], et))
                tid = et
            elif k == "c":
                et = self.elem_tid(tid)
                out.append(("c", e[1], e[3], et))
                tid = et
            elif k == "s":
                out.append(("s", e[1], e[2], e[3]))
            else:
                out.append(("?",))
                tid = None
        r = (out, tid)
        self.placecache[key] = r
        return r

    def loc(self, st, fn, fid, place):
        """-> (root, path, tid)"""
        proj, tid = self.place_info(fn, place)
        root = (fid, place[0])
        path = ()
        cur = fn.locals[place[0]]
        for e in proj:
            k = e[0]
            if k == "*":
                v = self.rd(st, root, path)
                root, path = self.deref_loc(v, e[1])
            elif k == "box":
                pass
            elif k == "f":
                path = path + (e[:5] + (e[5],),)
            elif k == "i":
                path = path + (("i", st.store[(fid, e[1])], e[2]),)
            elif k == "c":
                idx = I(e[1])
                if e[2]:
                    idx = sub(slen(self.rd(st, root, path)), I(e[1]))
                path = path + (("i", idx, e[3]),)
            elif k == "s":
                n = slen(self.rd(st, root, path))
                fr = I(e[1])
                to = sub(n, I(e[2])) if e[3] else I(e[2])
                path = path + (("r", fr, sub(to, fr)),)
            else:
                raise Inconclusive("unsupported place projection in " + fn.path)
        return root, path, tid

    def deref_loc(self, v, tid):
        if v.op == "ref":
            return v.args[0], v.args[1]
        if v.op == "vref":
            return ("v", v.args[0]), ()
        if tid is not None:
            d = deref(v)
            self.ann(d, tid)
            return ("v", d), ()
        return ("v", deref(v)), ()

    def base(self, st, root):
        if root[0] == "v":
            return root[1]
        v = st.store.get(root)
        if v is None:
            return UNDEF
        return v

    def proj1(self, v, e):
        if e[0] == "f":
            r = fld(v, e[1], e[2], e[3], e[4])
            if r.op not in ("adt", "int"):
                if len(e) > 5 and e[5] is not None:
                    self.ann(r, e[5])
            return r
        if e[0] == "i":
            r = sat(v, e[1])
            if r.op == "at" and len(e) > 2 and e[2] is not None:
                self.ann(r, e[2])
            return r
        if e[0] == "r":
            return ssub(v, e[1], e[2])
        raise Inconclusive("projection")

    def rd(self, st, root, path):
        v = self.base(st, root)
        for e in path:
            v = self.proj1(v, e)
        return v

    def upd(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == "f":
            n = e[4]
            if v.op == "adt" and v.args[1] == e[1] and len(v.args) == 2 + n:
                fs = list(v.args[2:])
            elif v is UNDEF or v.op == "adt":
                fs = [UNDEF] * n
            else:
                fs = [self.proj1(v, ("f", e[1], i, e[3], n, self.field_tid(v, e, i))) for i in range(n)]
            fs[e[2]] = self.upd(fs[e[2]], path[1:], new)
            return adt(e[3], e[1], *fs)
        if e[0] == "i":
            x = new if len(path) == 1 else self.upd(self.proj1(v, e), path[1:], new)
            return self.seq_set(v, e[1], x)
        if e[0] == "r":
            n = slen(v)
            x = new if len(path) == 1 else self.upd(self.proj1(v, e), path[1:], new)
            return cat(ssub(v, ZERO, e[1]), x, ssub(v, add(e[1], e[2]), sub(sub(n, e[1]), e[2])))
        if e[0] == "m":
            return mk("mins", v, e[1], new if len(path) == 1 else self.upd(self.proj1(v, e), path[1:], new))
        raise Inconclusive("update")

    def field_tid(self, v, e, i):
        tid = terms.TYPE.get(v)
        if tid is not None:
            ty = self.P.types[tid]
            if ty["k"] == "adt" and ty["variants"]:
                return ty["variants"][e[1]]["fields"][i][1]
            if ty["k"] == "tuple":
                return ty["fields"][i]
        return None

    def seq_set(self, v, i, x):
        n = slen(v)
        return cat(ssub(v, ZERO, i), one(x), ssub(v, add(i, ONE), sub(sub(n, i), ONE)))

    def wr(self, st, root, path, val):
        """destructive write into st.store (st must be private)"""
        if root[0] == "v":
            raise Inconclusive("write through a read-only value")
        if not path:
            st.store[root] = val
        else:
            st.store[root] = self.upd(self.base(st, root), path, val)

    # ------------------------------------------------------------------ operands
    def const(self, c):
        k = c["c"]
        if k == "int":
            return I(int(c["v"]))
        if k == "bool":
            return B(bool(c["v"]))
        if k == "char":
            return I(int(c["v"]))
        if k == "str":
            v = c["v"]
            return vref(lit(v.encode("utf-8") if isinstance(v, str) else bytes(v)))
        if k == "bytes":
            return vref(lit(bytes(c["v"])))
        if k == "ref":
            return vref(self.const(c["v"]))
        if k == "float":
            return mk("float", str(c["v"]))
        if k == "zst":
            ty = self.P.types[c["ty"]]
            if ty["k"] == "tuple":
                return UNIT
            if ty["k"] == "adt":
                return adt(ty["path"], 0)
            if ty["k"] == "array":
                return EMPTY
            if ty["k"] == "closure":
                return adt("closure:" + ty["key"], 0)
            if ty["k"] == "fndef":
                return mk("fndef", ty.get("s", ""))
            return UNIT
        if k == "agg":
            ty = self.P.types[c["ty"]]
            fs = [self.const(x) for x in c["fields"]]
            if ty["k"] in ("array", "slice"):
                return cat(*[one(x) for x in fs]) if fs else EMPTY
            if ty["k"] == "str":
                return cat(*[one(x) for x in fs]) if fs else EMPTY
            if ty["k"] == "tuple":
                return tup(*fs)
            if ty["k"] == "adt":
                if ty["path"] in RCS:
                    return fs[0]
                return adt(ty["path"], c.get("variant") or 0, *fs)
            return mk("cagg", ty["s"], *fs)
        if k == "static":
            return mk("static", c["path"])
        if k == "fn":
            return fnval(c["f"])
        if k == "promoted":
            return self.promoted(c)
        t = mk("opq", "const", c.get("s", "") + "|" + self.P.tystr(c["ty"]))
        self.ann(t, c["ty"])
        return t

    def promoted(self, c):
        v = c.get("_val")
        if v is None:
            f = Fn(self.P, {"key": "promoted%d" % id(c), "path": "promoted", "name": "promoted", "locals": c["locals"], "argc": 0,
                            "blocks": c["blocks"], "local": True, "span": "", "crate": ""})
            st = St({}, Facts())
            fid = fid_of("promoted", id(c))
            n = len(self.events)
            rets = self.exec_fn_blocks(f, fid, st)
            del self.events[n:]
            if len(rets) != 1:
                return mk("opq", "promoted", id(c))
            s, v = rets[0]
            v = self.freeze(s, v)
            c["_val"] = v
        return v

    def freeze(self, st, v):
        """turn refs into snapshots"""
        if v.op == "ref":
            return vref(self.freeze(st, self.rd(st, v.args[0], v.args[1])))
        if refs_of(v):
            m = {}
            for x in subterms(v):
                if x.op == "ref":
                    m[x] = vref(self.freeze(st, self.rd(st, x.args[0], x.args[1])))
            return subst(v, m)
        return v

    def operand(self, st, fn, fid, o):
        k = o[0]
        if k in ("cp", "mv"):
            p = o[1]
            if len(p) == 1:
                v = st.store.get((fid, p[0]))
                return UNDEF if v is None else v
            root, path, tid = self.loc(st, fn, fid, p)
            v = self.rd(st, root, path)
            return v
        if k == "k":
            c = o[1]
            v = c.get("_t")
            if v is None:
                v = self.const(c)
                c["_t"] = v
            return v
        if k == "rc":
            return FALSE
        raise Inconclusive("operand")

    def optid(self, fn, o):
        if o[0] in ("cp", "mv"):
            return self.place_info(fn, o[1])[1]
        if o[0] == "k":
            return o[1]["ty"]
        return None

    # ------------------------------------------------------------------ rvalues
    def rvalue(self, st, fn, fid, r, dplace):
        k = r[0]
        if k == "use":
            return self.operand(st, fn, fid, r[1])
        if k == "ref":
            root, path, tid = self.loc(st, fn, fid, r[2])
            if r[1]:
                if root[0] == "v":
                    return vref(self.rd(st, root, path))
                return mk("ref", root, path)
            v = self.rd(st, root, path)
            return vref(v)
        if k == "addr":
            root, path, tid = self.loc(st, fn, fid, r[1])
            if root[0] == "v":
                return vref(self.rd(st, root, path))
            return mk("ref", root, path)
        if k == "repeat":
            x = self.operand(st, fn, fid, r[1])
            n = r[2]
            try:
                n = int(n)
            except (TypeError, ValueError):
                raise Inconclusive("array length")
            if n <= 64 and x.op != "int":
                return cat(*[one(x)] * n) if n else EMPTY
            return rep(x, I(n))
        if k == "cast":
            return self.cast(st, r[1], self.operand(st, fn, fid, r[2]), r[3], r[4])
        if k == "bin":
            a = self.operand(st, fn, fid, r[2])
            b = self.operand(st, fn, fid, r[3])
            return self.binop(st, r[1], a, b, r[4])
        if k == "un":
            a = self.operand(st, fn, fid, r[2])
            return self.unop(st, r[1], a, r[3])
        if k == "discr":
            root, path, tid = self.loc(st, fn, fid, r[1])
            v = self.rd(st, root, path)
            return self.discr(v, r[2])
        if k == "agg":
            fs = [self.operand(st, fn, fid, o) for o in r[4]]
            w = r[1]
            if w == "array":
                return cat(*[one(x) for x in fs]) if fs else EMPTY
            if w == "tuple":
                return tup(*fs)
            ty = self.P.types[r[2]]
            if w == "adt":
                if ty["path"] in RCS:
                    return fs[0] if len(fs) == 1 else fs[-1]
                return adt(ty["path"], r[3], *fs)
            if w == "closure":
                return adt("closure:" + ty["key"], 0, *fs)
            if w == "rawptr":
                return fs[0]
            return mk("agg?", str(w), *fs)
        if k == "tls":
            return mk("static", "tls")
        raise Inconclusive("rvalue " + k)

    def ity(self, tid):
        ty = self.P.types[tid]
        if ty["k"] == "int":
            return ty["bits"], ty["signed"]
        if ty["k"] == "char":
            return 32, False
        if ty["k"] == "bool":
            return 1, False
        return None

    def cast(self, st, kind, v, tid, ftid):
        if kind in ("IntToInt",):
            fr = self.P.types[ftid]
            it = self.ity(tid)
            if fr["k"] == "bool":
                return b2i(v)
            if fr["k"] == "adt":
                v = self.discr(v, ftid)
            if it is None:
                return v
            return wrap(v, *it)
        if kind.startswith("ptr:Unsize") or kind in ("PtrToPtr", "BoxDerefTransmute") or kind.startswith("ptr:"):
            return v
        if kind == "Transmute":
            return self.transmute(v, tid, ftid)
        if kind in ("IntToFloat", "FloatToInt", "FloatToFloat"):
            t = mk("fcast", kind, self.P.tystr(ftid), self.P.tystr(tid), v)
            self.ann(t, tid)
            return t
        t = mk("cast", kind, self.P.tystr(tid), v)
        self.ann(t, tid)
        return t

    def transmute(self, v, tid, ftid):
        a, b = self.P.types[ftid], self.P.types[tid]
        ka, kb = a["k"], b["k"]
        if self.P.types[self.strip(tid)] is self.P.types[self.strip(ftid)]:
            return v
        if ka == "int" and kb == "int":
            return wrap(v, b["bits"], b["signed"])
        if ka == "array" and kb in ("int", "float"):
            n = a["len"]
            return decode(self.P.tystr(tid), v)
        if kb == "array" and ka in ("int", "float"):
            return enc(self.P.tystr(ftid), v)
        if ka == "float" and kb == "int":
            return decode(self.P.tystr(tid), enc(self.P.tystr(ftid), v))
        if ka == "int" and kb == "float":
            return decode(self.P.tystr(tid), enc(self.P.tystr(ftid), v))
        if ka in ("ref", "ptr", "adt") and kb in ("ref", "ptr", "adt"):
            return v
        t = mk("transmute", self.P.tystr(ftid), self.P.tystr(tid), v)
        self.ann(t, tid)
        return t

    def binop(self, st, op, a, b, tid):
        ty = self.P.types[tid]
        k = ty["k"]
        if op in ("Eq", "Ne"):
            if k == "float":
                e = mk("feq", *sorted((a, b), key=lambda x: x.id))
            elif k in ("ref", "ptr"):
                e = TRUE if a is b else mk("ptreq", a, b)
            else:
                e = eq(a, b)
            return e if op == "Eq" else not_(e)
        if op in ("Lt", "Le", "Gt", "Ge"):
            if k == "float":
                return mk("fcmp", op, a, b)
            if k == "bool":
                a, b = b2i(a), b2i(b)
            if op == "Lt":
                return lt(a, b)
            if op == "Le":
                return le_(a, b)
            if op == "Gt":
                return lt(b, a)
            return le_(b, a)
        if k == "float":
            return self.annt(mk("fop", op, a, b), tid)
        if k == "bool":
            if op == "BitAnd":
                return and_(a, b)
            if op == "BitOr":
                return or_(a, b)
            if op == "BitXor":
                return not_(eq(a, b))
        it = self.ity(tid)
        if it is None:
            return self.annt(mk("bin", op, a, b), tid)
        bits, signed = it
        if op.endswith("WithOverflow"):
            f = {"A": add, "S": sub, "M": mul}[op[0]]
            v = f(a, b)
            lo, hi = irange(bits, signed)
            # the pair's second component; the exact value is used once the assert has passed
            inr = and_(le_(I(lo), v), le_(v, I(hi)))
            if v.op not in ("int", "lin") and v not in BITS:
                BITS[v] = (bits, signed)
            return tup(v, not_(inr))
        if op in ("Add", "AddUnchecked"):
            return wrap(add(a, b), bits, signed)
        if op in ("Sub", "SubUnchecked"):
            return wrap(sub(a, b), bits, signed)
        if op in ("Mul", "MulUnchecked"):
            return wrap(mul(a, b), bits, signed)
        if op == "BitAnd":
            if a.op == "int":
                a, b = b, a
            if b.op == "int" and b.args[0] < 0:
                b = I(b.args[0] & ((1 << bits) - 1)) if not signed else b
            return self.annt(band(a, b), tid)
        if op == "BitOr":
            return self.annt(bor(a, b), tid)
        if op == "BitXor":
            return self.annt(bxor(a, b), tid)
        if op in ("Shl", "ShlUnchecked"):
            if b.op == "int":
                s = b.args[0] % bits
                return wrap(scale(a, 1 << s), bits, signed)
            return self.annt(mk("shl", a, b), tid)
        if op in ("Shr", "ShrUnchecked"):
            if a.op == "int" and b.op == "int":
                return I(a.args[0] >> (b.args[0] % bits))
            if b.op == "int" and b.args[0] % bits == 0:
                return a
            return self.annt(mk("shr", a, b), tid)
        if op in ("Div", "Rem"):
            if a.op == "int" and b.op == "int" and b.args[0] != 0:
                q = abs(a.args[0]) // abs(b.args[0])
                if (a.args[0] < 0) != (b.args[0] < 0):
                    q = -q
                return I(q) if op == "Div" else I(a.args[0] - q * b.args[0])
            if op == "Div" and b is ONE:
                return a
            return self.annt(mk(op.lower(), a, b), tid)
        if op == "Cmp":
            # Ordering: Less -1, Equal 0, Greater 1
            f = st.facts
            for cond, var in ((lt(a, b), 0), (eq(a, b), 1), (lt(b, a), 2)):
                if f.ev(cond):
                    return adt("core::cmp::Ordering", var)
            return mk("ordering", a, b)
        return self.annt(mk("bin", op, a, b), tid)

    def annt(self, t, tid):
        self.ann(t, tid)
        return t

    def unop(self, st, op, a, tid):
        if op == "Not":
            if self.P.types[tid]["k"] == "bool":
                return not_(a)
            bits, signed = self.ity(tid)
            if a.op == "int":
                return I(~a.args[0]) if signed else I(~a.args[0] & ((1 << bits) - 1))
            return sub(I(-1), a) if signed else sub(I((1 << bits) - 1), a)
        if op == "Neg":
            if self.P.types[tid]["k"] == "float":
                return self.annt(mk("fneg", a), tid)
            return wrap(scale(a, -1), *self.ity(tid))
        if op == "PtrMetadata":
            v = a
            if v.op == "vref":
                return slen(v.args[0])
            if v.op == "ref":
                return slen(self.rd(st, v.args[0], v.args[1]))
            d = deref(v)
            LENRANGE.setdefault(d, (0, LBIG))
            return slen(d)
        return self.annt(mk("un", op, a), tid)

    # ------------------------------------------------------------------ events
    def event(self, kind, fn, line, detail, status, st, data=None):
        self.events.append(Event(kind, fn, line, detail, status, st, data, tuple(self.sites)))

    def oblige(self, st, kind, fn, line, cond, detail):
        """record a proof obligation and continue with it assumed"""
        r = st.facts.ev(cond)
        if r is True:
            self.event(kind, fn, line, detail, True, None)
            return st
        self.event(kind, fn, line, detail, r, st, cond)
        return st.assume(cond)

    def nd(self, key):
        return mk("nd", key)

    # ------------------------------------------------------------------ execution
    def fork(self, st, cond):
        """-> (state where cond holds | None, state where it does not | None)"""
        if cond.op == "bool":
            return (st, None) if cond.args[0] else (None, st)
        if has_nd(cond):
            return st.copy(), st.copy()
        r = st.facts.ev(cond)
        if r is True:
            return st, None
        if r is False:
            return None, st
        f1 = st.facts.assume(cond)
        f2 = st.facts.assume(not_(cond))
        return (St(dict(st.store), f1) if f1 is not None else None), (St(dict(st.store), f2) if f2 is not None else None)

    def exec_fn_blocks(self, fn, fid, st):
        """run the body of fn; -> [(state, return value)]"""
        self.frames.append((fn.key, fid))
        try:
            exits, backs = self.exec_region(fn, fid, 0, None, [st])
        finally:
            self.frames.pop()
        out = []
        for tgt, s in exits:
            if tgt != "ret":
                continue
            v = s.store.get((fid, 0), UNDEF if fn.P_unit(self) is None else UNIT)
            out.append((s, v))
        return out

    def gc(self, st, fid, live):
        """drop the locals of frame `fid` that are dead, keeping what is referenced"""
        store = st.store
        keep = {}
        work = []
        for r, v in store.items():
            if r[0] == "r" and r not in self.pinned or (r[0] == fid and r[1] not in live):
                continue
            keep[r] = v
            if refs_of(v):
                work.append(v)
        if len(keep) == len(store):
            return st
        while work:
            v = work.pop()
            for r in refs_of(v):
                if r not in keep and r in store:
                    keep[r] = store[r]
                    if refs_of(store[r]):
                        work.append(store[r])
        return St(keep, st.facts)

    def merge(self, states):
        if len(states) <= 1:
            return states
        groups = {}
        for s in states:
            groups.setdefault(frozenset(s.store.items()), []).append(s)
        out = []
        for g in groups.values():
            if len(g) == 1:
                out.append(g[0])
                continue
            fs = []
            for s in g:
                self.add_facts(fs, s.facts)
            while len(fs) > self.opts.get("maxfacts", 12):
                a = fs.pop()
                b = fs.pop()
                m = a.meet(b)
                fs.append(m)
                n = []
                for f in fs:
                    self.add_facts(n, f)
                fs = n
            out.extend(St(g[0].store, f) for f in fs)
        return out

    def add_facts(self, fs, f):
        while True:
            for i, g in enumerate(fs):
                if g.lits <= f.lits:
                    return
                if f.lits <= g.lits:
                    fs[i] = f
                    return
                d1 = f.lits - g.lits
                d2 = g.lits - f.lits
                if len(d1) <= 3 and len(d2) <= 3:
                    l = next((x for x in d1 if not_(x) in d2), None)
                    if l is not None:
                        m = f.meet(g)
                        a, b = m.assume(l), m.assume(not_(l))
                        if a is not None and b is not None and a.implies_all(f) and b.implies_all(g):
                            fs.pop(i)
                            f = m
                            break
            else:
                fs.append(f)
                return

    def exec_region(self, fn, fid, start, region, states, skip_loop=None):
        """forward pass over the blocks of a region in reverse post-order.
        -> exits [(target block outside the region or 'ret', state)], back [states at skip_loop]"""
        cfg = fn.cfg()
        pend = {start: list(states)}
        exits = []
        backs = []
        import heapq
        heap = [(cfg.pos[start], start)]
        inheap = {start}
        def flow(tgt, s, cur):
            if tgt == skip_loop:
                backs.append(s)
                return
            if region is not None and tgt not in region:
                exits.append((tgt, s))
                return
            pend.setdefault(tgt, []).append(s)
            if tgt not in inheap:
                inheap.add(tgt)
                heapq.heappush(heap, (cfg.pos[tgt], tgt))
        while heap:
            _, b = heapq.heappop(heap)
            inheap.discard(b)
            ss = pend.pop(b, [])
            if not ss:
                continue
            if len(cfg.pred[b]) > 1 or b == start:
                live = cfg.live[b]
                ss = [self.gc(s, fid, live) for s in ss]
                ss = self.merge(ss)
            if len(ss) > self.opts.get("maxstates", 3000):
                raise Inconclusive("too many abstract states in %s bb%d: %d" % (fn.path, b, len(ss)))
            if b in cfg.loops and b != skip_loop:
                for s in ss:
                    for tgt, s2 in self.do_loop(fn, fid, b, cfg.loops[b], s):
                        if tgt == "ret":
                            exits.append((tgt, s2))
                        else:
                            flow(tgt, s2, b)
                continue
            for s in ss:
                for tgt, s2 in self.block(fn, fid, b, s):
                    if tgt == "ret":
                        exits.append(("ret", s2))
                    else:
                        flow(tgt, s2, b)
        return exits, backs

    def block(self, fn, fid, b, st):
        """-> [(target, state)]"""
        self.nblocks += 1
        if self.nblocks > self.opts.get("maxblocks", 4000000):
            raise Inconclusive("analysis budget exceeded")
        blk = fn.blocks[b]
        st = st.copy()
        for s in blk["s"]:
            k = s[0]
            if k == "=":
                v = self.rvalue(st, fn, fid, s[2], s[1])
                p = s[1]
                if len(p) == 1:
                    st.store[(fid, p[0])] = v
                else:
                    root, path, tid = self.loc(st, fn, fid, p)
                    self.wr(st, root, path, v)
            elif k == "sd":
                root, path, tid = self.loc(st, fn, fid, s[1])
                ty = self.P.types[self.strip(tid)]
                n = len(ty["variants"][s[2]]["fields"])
                cur = self.rd(st, root, path)
                if not (cur.op == "adt" and cur.args[1] == s[2]):
                    self.wr(st, root, path, adt(ty["path"], s[2], *[UNDEF] * n))
        t = blk["t"]
        k = t[0]
        if k == "goto":
            return [(t[1], st)]
        if k == "drop":
            return [(t[2], st)]
        if k == "ret":
            return [("ret", st)]
        if k in ("unreachable", "unwind"):
            return []
        if k == "switch":
            return self.switch(st, fn, fid, t)
        if k == "assert":
            c = self.operand(st, fn, fid, t[1])
            if not t[2]:
                c = not_(c)
            d = t[3]
            if d[0] == "bounds":
                ln = self.operand(st, fn, fid, d[1])
                ix = self.operand(st, fn, fid, d[2])
                det = ("bounds", ix, ln)
            elif d[0] == "overflow":
                det = ("overflow", d[1], self.operand(st, fn, fid, d[2]), self.operand(st, fn, fid, d[3]))
            else:
                det = ("other", str(d[1]))
            s2 = self.oblige(st, "panic", fn, t[5], c, det)
            return [] if s2 is None else [(t[4], s2)]
        if k == "call":
            return self.do_call(st, fn, fid, b, t)
        raise Inconclusive("terminator %s in %s" % (k, fn.path))

    def switch(self, st, fn, fid, t):
        v = self.operand(st, fn, fid, t[1])
        ty = self.P.types[t[2]]
        out = []
        isbool = ty["k"] == "bool"
        bits = ty.get("bits", 64)
        signed = ty.get("signed", False)
        if v.op == "int" or v.op == "bool":
            n = v.args[0] if v.op == "int" else int(v.args[0])
            for val, tgt in t[3]:
                x = int(val)
                if signed and x >= 1 << (bits - 1):
                    x -= 1 << bits
                if x == n:
                    return [(tgt, st)]
            return [(t[4], st)]
        cur = st
        for val, tgt in t[3]:
            x = int(val)
            if isbool:
                c = v if x else not_(v)
            else:
                if signed and x >= 1 << (bits - 1):
                    x -= 1 << bits
                if v.op == "discr" and DISCRS.get(v) and x not in DISCRS[v]:
                    # discriminants are stored as declared
                    alt = [y for y in DISCRS[v] if (y & ((1 << bits) - 1)) == x]
                    if alt:
                        x = alt[0]
                c = ieq(v, I(x))
            y, n = self.fork(cur, c)
            if y is not None:
                out.append((tgt, y))
            if n is None:
                return out
            cur = n
        blk = fn.blocks[t[4]]
        if blk["t"][0] == "unreachable" and not blk["s"]:
            return out
        out.append((t[4], cur))
        return out

    # ------------------------------------------------------------------ calls
    def do_call(self, st, fn, fid, b, t):
        f = self.operand(st, fn, fid, t[1])
        args = [self.operand(st, fn, fid, a) for a in t[2]]
        tgt = t[4]
        dest = t[3]
        line = t[5]
        # frame garbage collection across the call
        if tgt is not None:
            live = set(fn.cfg().live[tgt])
            if len(dest) > 1:
                live.add(dest[0])
                for e in dest[1:]:
                    if e[0] == "i":
                        live.add(e[1])
            else:
                live.discard(dest[0])
        else:
            live = set()
        st2 = self.gc_call(st, fid, live, args)
        self.sites.append((fn, line))
        try:
            res = self.call(st2, f, args, t[7], t[6], fn, fid, b, line)
        finally:
            self.sites.pop()
        if tgt is None:
            return []
        out = []
        for s, v in res:
            s = s.copy()
            if len(dest) == 1:
                s.store[(fid, dest[0])] = v
            else:
                root, path, tid = self.loc(s, fn, fid, dest)
                self.wr(s, root, path, v)
            out.append((tgt, s))
        return out

    def gc_call(self, st, fid, live, args):
        store = st.store
        keep = {}
        work = list(args)
        for r, v in store.items():
            if r[0] == "r" and r not in self.pinned or (r[0] == fid and r[1] not in live):
                continue
            keep[r] = v
            if refs_of(v):
                work.append(v)
        while work:
            v = work.pop()
            for r in refs_of(v):
                if r not in keep and r in store:
                    keep[r] = store[r]
                    if refs_of(store[r]):
                        work.append(store[r])
        return St(keep, st.facts)

    def call(self, st, f, args, tids, dtid, fn, fid, bb, line):
        """-> [(state, value)]"""
        c = Call()
        c.args, c.tids, c.dtid, c.fid, c.fn, c.bb, c.line, c.I = args, tids, dtid, fid, fn, bb, line, self
        if f.op == "vref":
            f = f.args[0]
        if f.op == "adt" and f.args[0].startswith("closure:"):
            return self.call_closure(st, f, args, c)
        fv = fnof(f)
        if fv is None:
            return self.opaque(st, c, "indirect")
        c.f = fv
        if "ctor" in fv and fv["ctor"] is not None:
            ty = self.P.types[fv["ctor_ty"]] if fv.get("ctor_ty") is not None else None
            if ty is not None:
                return [(st, adt(ty["path"], fv["ctor"], *args))]
        c.name = callname(fv)
        h = self.hooks.get(c.name) or self.hooks.get(fv.get("path"))
        if h:
            r = h(self, st, c)
            if r is not None:
                return r
        m = self.models.lookup(c)
        if m is not None:
            r = m(self, st, c)
            if r is not None:
                return r
        key = fv.get("key")
        if key in self.P.fns:
            return self.inline(st, self.P.fns[key], args, c)
        return self.opaque(st, c, "unmodelled")

    def inline(self, st, g, args, c):
        h = self.opts.get("cut")
        if h and self.stack:
            r = h(self, st, g, args, c)
            if r is not None:
                return r
        if g.key in self.stack or (g.key in self.rkeys and self.stack):
            return self.recursive(st, g, args, c)
        if len(self.stack) > 80:
            raise Inconclusive("call depth")
        self.analysed.add(g.key)
        fid = fid_of(c.fid, c.bb, g.key, self.uctx)
        s = st.copy()
        if g.spread:
            raise Inconclusive("spread argument")
        args = list(args)
        if len(args) < g.argc and args and args[-1].op == "adt" and args[-1].args[0] == "()":
            last = args.pop()
            args.extend(last.args[2:])
        if len(args) != g.argc:
            raise Inconclusive("arity of " + g.path)
        for i, a in enumerate(args):
            s.store[(fid, i + 1)] = a
        self.stack.append(g.key)
        try:
            rets = self.exec_fn_blocks(g, fid, s)
        finally:
            self.stack.pop()
        out = []
        errs = {}
        for s, v in rets:
            keep = {r: x for r, x in s.store.items() if r[0] != fid}
            if v.op == "adt" and v.args[0] == RES and v.args[1] == 1 and g.local:
                v = v if self.opts.get("errtexts") else self.plain_error(v)
                keep[("g", "$ret")] = v
                k = frozenset(keep.items())
                if self.opts.get("errkeep") and (not self.loopdepth or self.opts["errkeep"] == "all"):
                    k = (k, s.facts.lits)
                o = errs.get(k)
                errs[k] = St(keep, s.facts if o is None else o.facts.meet(s.facts))
                continue
            keep[("g", "$ret")] = v
            out.append(St(keep, s.facts))
        merged = self.merge(out) + list(errs.values())
        out = []
        for s in merged:
            s = s.copy()
            v = s.store.pop(("g", "$ret"))
            out.append((s, v))
        return out

    def plain_error(self, v):
        """texts inside error values are not tracked"""
        e = v.args[2]
        if e.op != "adt" or not e.args[2:]:
            return v
        fs = [mk("errtext") if is_seq(x) else x for x in e.args[2:]]
        return adt(RES, 1, adt(e.args[0], e.args[1], *fs))

    def call_closure(self, st, f, args, c):
        key = f.args[0][len("closure:"):]
        g = self.P.fns.get(key)
        if g is None:
            return self.opaque(st, c, "closure without a body")
        return self.inline(st, g, args, c)

    def invoke(self, st, f, args, c, tag):
        """call a function value (closure or fn item) with plain arguments, from a model.
        `f` is the callable by value, vref or ref; -> [(state, value)]"""
        loc = None
        v = f
        for _ in range(4):
            if v.op == "vref":
                v = v.args[0]
            elif v.op == "ref":
                loc = v
                v = self.rd(st, v.args[0], v.args[1])
            else:
                break
        c2 = Call()
        c2.args, c2.tids, c2.dtid, c2.fid, c2.fn, c2.line, c2.I = args, [None] * len(args), None, c.fid, c.fn, c.line, self
        c2.bb = (c.bb, tag)
        if v.op == "adt" and v.args[0].startswith("closure:"):
            key = v.args[0][len("closure:"):]
            g = self.P.fns.get(key)
            if g is None:
                return self.opaque(st, c2, "closure without a body")
            t1 = self.P.types[g.locals[1]]
            if t1["k"] == "ref":
                if loc is None:
                    if t1["mut"]:
                        root = ("r", fid_of("cl", c.fid, c.bb, tag, self.uctx), "self")
                        st = st.set(root, v)
                        loc = mk("ref", root, ())
                    else:
                        loc = vref(v)
                elif not t1["mut"]:
                    loc = vref(v)
                return self.inline(st, g, [loc] + list(args), c2)
            return self.inline(st, g, [v] + list(args), c2)
        fv = fnof(v)
        if fv is None:
            r = self.models.call_opaque_fn(self, st, v, args, c2)
            if r is not None:
                return r
            return self.opaque(st, c2, "indirect")
        return self.call(st, v, list(args), c2.tids, self.fn_ret_tid(fv), c.fn, c.fid, c2.bb, c.line)

    def fn_ret_tid(self, fv):
        g = self.P.fns.get(fv.get("key"))
        return g.locals[0] if g else None

    def opaque(self, st, c, why):
        f = getattr(c, "f", None)
        name = (c.name if f else "indirect call")
        self.unmod[name] = self.unmod.get(name, 0) + 1
        self.event("opaque", c.fn, c.line, name, None, st)
        return self.havoc_call(st, c, mk("opq", name, self.uniq(c)), c.args)

    def uniq(self, c):
        return mk("site", c.fid, str(c.bb), self.uctx, *self.kstack)

    def invariant(self, v, tid):
        """conditions every value of a type satisfies outside the module that owns it.  A byte cursor
        (a vector of bytes and a position, both private) stays within its vector; the cursor checks
        prove that each of its public methods keeps this."""
        tid = self.strip(tid)
        ty = self.P.types[tid]
        if ty["k"] != "adt" or ty.get("enum") or not ty.get("variants") or ty.get("crate") != "yule_log":
            return []
        r = ty.get("_inv")
        if r is None:
            fs = ty["variants"][0]["fields"]
            r = ()
            if len(fs) == 2 and not fs[0][2] and not fs[1][2]:
                q = None
                n = None
                for i, f in enumerate(fs):
                    ft = self.P.types[f[1]]
                    if ft["k"] == "adt" and ft["path"] in SEQTYPES:
                        q = i
                    if ft["k"] == "int" and ft["bits"] == 64 and not ft["signed"]:
                        n = i
                if q is not None and n is not None:
                    r = (q, n, len(fs), fs[q][1], fs[n][1])
            ty["_inv"] = r
        if not r:
            return []
        q, n, k, qt, nt = r
        a = self.proj1(v, ("f", 0, q, ty["path"], k, qt))
        b = self.proj1(v, ("f", 0, n, ty["path"], k, nt))
        return [ge0(b), le_(b, slen(a))]

    def cursor_post(self, new, old, tid):
        """what a recursive decoder leaves of the byte cursor it is given: as many bytes, and a position that only moves forward
        (assumed of inner calls, shown of every return of the decoder itself: roots.recpost)"""
        if not self.invariant(new, tid):
            return [TRUE]
        ty = self.P.types[self.strip(tid)]
        q, n, k, qt, nt = ty["_inv"]
        p = lambda v, i, t: self.proj1(v, ("f", 0, i, ty["path"], k, t))
        return [ge0(sub(p(new, n, nt), p(old, n, nt))), ieq(slen(p(new, q, qt)), slen(p(old, q, qt)))]

    def havoc_call(self, st, c, tag, args):
        """result and everything reachable through &mut arguments becomes unknown"""
        st = st.copy()
        v = mk("res", tag, *[self.freeze(st, a) for a in args])
        n = 0
        refs, seen = [(a, c.tids[i] if c.tids and i < len(c.tids) else None) for i, a in enumerate(args) if a.op == "ref"], set()
        def inner(x):
            if isinstance(x, T) and x.op in ("adt", "closure", "tuple", "vref") and x not in seen:
                seen.add(x)
                for y in x.args:
                    if isinstance(y, T) and y.op == "ref":
                        refs.append((y, None))
                    else:
                        inner(y)
        for a in args:
            inner(a)
        for a, atid in refs:
            if a.op == "ref":
                old = self.rd(st, a.args[0], a.args[1])
                nv = mk("hv", tag, n, old)
                tid = self.tid_of(old, atid)
                if tid is not None:
                    self.ann(nv, tid)
                    f = st.facts
                    for x in self.invariant(nv, tid):
                        st = self.oblige(st, "invariant", c.fn, c.line, subst(x, {nv: old}) if old.op != "adt" else and_(*self.invariant(old, tid)), ("inv", self.P.tystr(tid)))
                        if st is None:
                            return []
                        f2 = st.facts.assume(x)
                        if f2 is None:
                            return []
                        st = St(st.store, f2)
                    if tag.op == "rcall" and tag.args[0] in getattr(self.P, "_recpost", ()):
                        for x in self.cursor_post(nv, old, tid):
                            f2 = st.facts.assume(x)
                            if f2 is None:
                                return []
                            st = St(st.store, f2)
                    st = st.copy()
                elif is_seq(old):
                    LENRANGE.setdefault(nv, (0, LBIG))
                self.wr(st, a.args[0], a.args[1], nv)
                n += 1
        if c.dtid is not None:
            v = self.ann_res(v, c.dtid)
        return [(st, v)]

    def tid_of(self, v, tid):
        """type of the value `v` passed as a `&mut` argument of static type tid"""
        t = terms.TYPE.get(v)
        if t is not None:
            return t
        if v.op == "adt":
            for i, ty in enumerate(self.P.types):
                if ty["k"] == "adt" and ty["path"] == v.args[0] and ty.get("crate") == "yule_log" and not ty.get("args"):
                    return i
        if tid is not None:
            ty = self.P.types[tid]
            if ty["k"] in ("ref", "ptr"):
                return ty["to"]
        return None

    def ann_res(self, v, tid):
        ty = self.P.types[self.strip(tid)]
        if ty["k"] == "ref" or ty["k"] == "ptr":
            v = vref(v)
            self.ann(v.args[0], ty["to"])
            return v
        if ty["k"] == "tuple" and not ty["fields"]:
            return UNIT
        self.ann(v, tid)
        return v

    def recursive(self, st, g, args, c):
        h = self.opts.get("recursion")
        if h:
            r = h(self, st, g, args, c)
            if r is not None:
                return r
        self.event("rcall", c.fn, c.line, g.path, None, st, (g, tuple(args)))
        c.dtid = g.locals[0]
        out = []
        ty = self.P.types[self.strip(c.dtid)]
        for s, v in self.havoc_call(st, c, mk("rcall", g.path), args):
            if ty["k"] == "adt" and ty["path"] == RES and v.op != "adt":
                f0 = ty["variants"][0]["fields"][0][1]
                f1 = ty["variants"][1]["fields"][0][1]
                y, n = self.fork(s, ieq(self.discr(v, c.dtid), ZERO))
                if y is not None:
                    out.append((y, adt(RES, 0, self.ann(fld(v, 0, 0, RES, 1), f0))))
                if n is not None:
                    et = self.P.types[f1]
                    out.append((n, adt(RES, 1, self.ann(fld(v, 1, 0, RES, 1), f1))))
            else:
                out.append((s, v))
        return out

    # ------------------------------------------------------------------ loops
    def do_loop(self, fn, fid, header, body, st):
        cfg = fn.cfg()
        live = cfg.live[header]
        st = self.gc(st, fid, live)
        def step(s):
            exits, backs = self.exec_region(fn, fid, header, body, [s], skip_loop=header)
            backs = self.merge([self.gc(x, fid, live) for x in backs])
            return exits, backs
        return self.abstract_loop(st, (fid, header), step, fn)

    def abstract_loop(self, st, key, step, fn):
        import loops
        return loops.abstract_loop(self, st, key, step, fn)

def _unit(self, I):
    ty = I.P.types[self.locals[0]]
    return UNIT if ty["k"] == "tuple" and not ty["fields"] else None
Fn.P_unit = _unit

_ndc = {}
def has_nd(t):
    return has_free(t, _ndc, lambda x: x.op == "nd")

SEQTYPES = {"alloc::vec::Vec", "alloc::string::String", "alloc::collections::vec_deque::VecDeque", "std::collections::vec_deque::VecDeque"}

# ---------------------------------------------------------------------------- function values
_fnv = {}
_fnt = {}
def fnval(f):
    import json
    k = (f.get("key") or "") + "|" + f["path"] + "|" + str(f.get("args")) + "|" + str(f.get("ctor")) + "|" + f.get("kind", "")
    t = mk("fnv", k)
    _fnt[t] = f
    return t

def fnof(t):
    return _fnt.get(t)

import re
_namecache = {}
def callname(f):
    p = f.get("rpath") or f["path"]
    if f.get("trait"):
        return f["trait"].split("::")[-1] + "::" + f["name"]
    r = _namecache.get(p)
    if r is None:
        r = _normname(p)
        _namecache[p] = r
    return r

def _split(p):
    """split a path on :: outside angle brackets"""
    out = []
    d = 0
    cur = ""
    i = 0
    while i < len(p):
        ch = p[i]
        if ch == "<":
            d += 1
        elif ch == ">" and p[i - 1:i] != "-":
            d -= 1
        if d == 0 and p.startswith("::", i):
            out.append(cur)
            cur = ""
            i += 2
            continue
        cur += ch
        i += 1
    out.append(cur)
    return [x for x in out if x]

def _normname(p):
    parts = _split(p)
    name = parts[-1]
    owner = None
    for x in reversed(parts[:-1]):
        if x.startswith("<impl "):
            x = x[6:-1]
            if " for " in x:
                x = x.split(" for ")[0]
                x = re.sub(r"<.*", "", x)
                owner = x.split("::")[-1]
            else:
                if x.startswith("["):
                    owner = "slice"
                elif x.startswith("*"):
                    owner = "ptr"
                else:
                    owner = re.sub(r"<.*", "", x).split("::")[-1]
            break
        if x.startswith("<") and " as " in x:
            x = x[1:-1].split(" as ")[1]
            owner = re.sub(r"<.*", "", x).split("::")[-1]
            break
        if x.startswith("<"):
            continue
        owner = x
        break
    return (owner + "::" if owner else "") + name
