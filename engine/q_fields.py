"""The field loop of a data message: C09 (types, widths, order), C16 (timestamp), C17 (options, padding), C02 (bounds).

The loop is found by what it does (it builds the yielded item's list of fields), and judged one iteration at a time:
for the k-th field of the format the data is decoded with, what is appended, and how far the cursor moves."""
from terms import *
import terms, roots, models
from ck import Col, short
from nextq import *
import interp
from models import STREAM
import q_data as D

BUILTIN = {"UINT8": ("u8", "U8"), "UINT16": ("u16", "U16"), "UINT32": ("u32", "U32"), "UINT64": ("u64", "U64"),
           "INT8": ("i8", "I8"), "INT16": ("i16", "I16"), "INT32": ("i32", "I32"), "INT64": ("i64", "I64"),
           "FLOAT": ("f32", "F32"), "DOUBLE": ("f64", "F64"), "BOOL": ("bool", "Bool"), "CHAR": ("char", "Char")}

def width(k):
    return 1 if k in ("bool", "char") else ENCW[k]

def ltype(P, suffix):
    r = [t for t in P.types if t["k"] == "adt" and t.get("crate") == "yule_log" and t["path"].endswith("::" + suffix)]
    return r[0] if r else None

def fproj(I_, P, v, suffix, field):
    t = ltype(P, suffix)
    fs = t["variants"][0]["fields"]
    for i, f in enumerate(fs):
        if f[0] == field:
            if v.op == "vref":
                v = v.args[0]
            return I_.proj1(v, ("f", 0, i, t["path"], len(fs), f[1]))
    return None

def ftid(P, suffix, field):
    t = ltype(P, suffix)
    for f in t["variants"][0]["fields"]:
        if f[0] == field:
            return f[1]

def uncchar(P, v):
    """byte behind a value of the crate's char type"""
    v = unref(v)
    while v.op == "adt" and len(v.args) == 3 and P_struct(P, v.args[0]):
        v = unref(v.args[2])
    return v

def P_struct(P, path):
    t = D.adt_type(P, path)
    return t is not None and not t.get("enum")

def dec(kind, buf, pos):
    if kind == "bool":
        return not_(ieq(sat_u8(buf, pos), ZERO))
    if kind == "char":
        return sat_u8(buf, pos)
    return le(kind, buf, pos)

class FieldLoop:
    """one loop that appends decoded fields"""
    def __init__(self, P, I_, lid, ft):
        self.P, self.I, self.lid, self.ft = P, I_, lid, ft
        l = self.l = I_.loops[lid]
        self.k = l["k"]
        self.acc = None
        for loc, lf in l["leaves"].items():
            if lf.kind == "acc" and any(self.pushed(lf, v) for v in l["nexts"].get(loc, [])):
                self.acc = loc
        self.fields = fproj(I_, P, ft, "def::Format", "fields")
        self.fe = sat(self.fields, self.k)
        self.name = fproj(I_, P, self.fe, "def::Field", "name")
        self.ty = fproj(I_, P, self.fe, "def::Field", "type")
        self.base = fproj(I_, P, self.ty, "def::TypeExpr", "base_type")
        self.asz = fproj(I_, P, self.ty, "def::TypeExpr", "array_size")
        self.bt = ltype(P, "def::BaseType")
        self.bd = I_.discr(self.base, ftid(P, "def::TypeExpr", "base_type"))
        self.ad = I_.discr(self.asz, ftid(P, "def::TypeExpr", "array_size"))
        self.n = fld(self.asz, 1, 0, OPT, 1)
        self.ident_buf()

    def pushed(self, lf, v):
        """the elements an iteration appends: [] / [Field, ...] / None when not of that form"""
        if v is lf.lv:
            return []
        if v.op == "cat" and v.args[0] is lf.lv:
            r = []
            for p in v.args[1:]:
                if p.op != "one" or p.args[0].op != "adt" or not p.args[0].args[0].endswith("::Field"):
                    return None
                r.append(p.args[0])
            return r
        return None

    def ident_buf(self):
        """buffer and cursor: the loop variables the decoded values are read from and at"""
        self.buf = self.cur = None
        l = self.l
        lvs = {lf.lv: loc for loc, lf in l["leaves"].items() if lf.kind == "lv"}
        votes = {}
        alf = l["leaves"].get(self.acc) if self.acc else None
        for v in l["nexts"].get(self.acc, []):
            for x in walk(v):
                b = p = None
                if x.op == "le":
                    b, p = x.args[1], x.args[2]
                elif x.op == "at":
                    b, p = x.args[0], x.args[1]
                if b in lvs and p in lvs:
                    votes[(b, p)] = votes.get((b, p), 0) + 1
        if votes:
            b, p = max(votes, key=lambda z: votes[z])
            self.buf, self.cur = b, p
            self.bufloc, self.curloc = lvs[b], lvs[p]

    def base_of(self, f):
        """the built-in (or OTHER) this path is about: name, or None"""
        for v in self.bt["variants"]:
            if f.zero(sub(self.bd, I(int(v["discr"])))) is True:
                return v["name"]
        left = [v["name"] for v in self.bt["variants"] if f.zero(sub(self.bd, I(int(v["discr"])))) is not False]
        return left[0] if len(left) == 1 else (left or None)

def mentions_opt(l, x):
    """does a fact depend on x, other than by handing the whole parser to a call?"""
    st, seen = [l], set()
    while st:
        y = st.pop()
        if y is x:
            return True
        if not isinstance(y, T) or y in seen or y.op in ("res", "hv", "rcall"):
            continue
        seen.add(y)
        st.extend(tup(y.args))
    return False

def tup(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from tup(y)

def walk(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(tup(x.args))

def loop_ids(I_, term):
    r = []
    for x in walk(term):
        if x.op == "lvx" and x.args[1] == "k" and x.args[0] in I_.loops and x.args[0] not in r:
            r.append(x.args[0])
    return r

def field_loops(P, I_, fields_term, ft):
    out = []
    for i in loop_ids(I_, fields_term):
        try:
            fl = FieldLoop(P, I_, i, ft)
        except Exception as e:
            continue
        if fl.acc is not None and any(p for v in fl.l["nexts"][fl.acc] for p in [fl.pushed(fl.l["leaves"][fl.acc], v)] if p):
            out.append(fl)
    return out

# ------------------------------------------------------------------ one iteration
def rcall_of(v):
    """(recursive call, its arguments, projected?) behind a decoded nested value"""
    v = unref(v)
    while v.op == "fld":
        v = v.args[0]
    if v.op == "res" and v.args[0].op == "rcall":
        return v
    return None

def decode_value(fl, s, base, arr, value, nxtbuf, nxtcur, formats, col, lab):
    """is `value` the decode of one `base` value (or `arr`) at the cursor, and has the cursor moved past it?"""
    f = s.facts
    P, I_ = fl.P, fl.I
    vt = value.op == "adt" and D.adt_type(P, value.args[0])
    if not vt:
        col.ob(None, "value", "value not visible: %s (%s)" % (short(value), lab))
        return
    vn = vt["variants"][value.args[1]]["name"]
    if base in BUILTIN:
        kind, suf = BUILTIN[base]
        want = ("Array" if arr else "Scalar") + suf
        col.ob(vn == want, "%s variant" % base, "a field of type %s%s is returned as %s (%s)" % (base, "[n]" if arr else "", vn, lab), sample="%s%s -> %s" % (base, "[n]" if arr else "", want))
        if vn != want:
            return
        w = width(kind)
        x = value.args[2]
        if not arr:
            x = uncchar(P, x) if kind == "char" else x
            e = dec(kind, fl.buf, fl.cur)
            col.ob(D.same_f(f, x, e), "%s decode" % base, "a field of type %s is decoded as %s instead of %s" % (base, short(x), short(e)), sample="%s = %s" % (want, short(e, 60)))
            adv = I(w)
        else:
            el, cnt = elements(P, x, kind)
            if el is None:
                col.ob(None if tainted(x) or x.op not in ("rep", "lit") else False, "%s[] decode" % base, "elements of the array not visible: %s (%s)" % (short(x), lab))
                return
            e = dec(kind, fl.buf, add(fl.cur, mul(I(w), bv(9))))
            col.ob(D.same_f(f, el, e), "%s[] decode" % base, "element i of a %s array is %s instead of %s" % (base, short(el), short(e)), sample="%s[i] = %s" % (want, short(e, 70)))
            col.ob(True if f.same(cnt, fl.n) is True else (None if tainted(cnt) else False), "%s[] count" % base, "a %s array gets %s elements instead of the declared number (%s)" % (base, short(cnt), lab))
            adv = mul(I(w), fl.n)
        d = sub(nxtcur, add(fl.cur, adv))
        col.ob(True if f.zero(d) is True else (None if tainted(nxtcur) else False), "%s%s width" % (base, "[]" if arr else ""), "after a %s%s field the cursor is at %s instead of %s (%s)" % (base, "[n]" if arr else "", short(nxtcur), short(add(fl.cur, adv)), lab),
               sample="%s%s advances by %s" % (base, "[n]" if arr else "", "%d*n" % w if arr else w))
        col.ob(True if nxtbuf is fl.buf else (None if tainted(nxtbuf) else False), "%s buffer" % base, "the buffer changes under a %s field (%s)" % (base, lab))
        return
    # a nested format
    want = "ArrayOther" if arr else "ScalarOther"
    col.ob(vn == want, "OTHER variant", "a field of a defined type%s is returned as %s (%s)" % (" [n]" if arr else "", vn, lab), sample="defined type -> " + want)
    if vn != want:
        return
    x = value.args[2]
    fmt = mk("mget", formats, fld_other(fl))
    if not arr:
        r = rcall_of(x)
        if r is None:
            col.ob(None if tainted(x) else False, "nested value", "the nested value is not the result of decoding its format: %s" % short(x))
            return
        nested_call(fl, s, r, fmt, (fl.buf, fl.cur), col, lab)
        col.ob(after_call(r, nxtbuf, nxtcur), "nested cursor", "after a nested value the cursor is at %s" % short(nxtcur), sample="nested value: cursor := where decoding it stopped")
        return
    if x.op != "star" or len(x.args[3]) != 1 or x.args[3][0].args[1].op != "one":
        col.ob(None, "nested array", "elements of the array not visible: %s" % short(x))
        return
    cnt = x.args[1]
    col.ob(True if f.same(cnt, fl.n) is True else (None if tainted(cnt) else False), "nested array count", "an array of a defined type gets %s elements instead of the declared number (%s)" % (short(cnt), lab), sample="ArrayOther has array_size elements")
    ids = [y.args[0] for y in walk(cnt) if y.op == "lvx" and y.args[1] == "k"] or [y.args[0] for y in walk(x.args[3][0].args[1]) if y.op == "lvat"]
    if not ids or ids[0] not in I_.loops:
        col.ob(None, "nested array", "the loop over the elements is not visible")
        return
    l2 = I_.loops[ids[0]]
    el = x.args[3][0].args[1].args[0]
    r = rcall_of(el)
    if r is None:
        col.ob(None if tainted(el) else False, "nested value", "an element of a nested array is not the result of decoding its format: %s" % short(el))
        return
    # the same, inside the inner loop: buffer and cursor start here and follow the calls
    lb = [lf for lf in l2["leaves"].values() if lf.kind == "lv" and lf.init is fl.buf]
    lc = [lf for lf in l2["leaves"].values() if lf.kind == "lv" and lf.init is fl.cur]
    if len(lb) != 1 or len(lc) != 1:
        col.ob(None, "nested array", "the cursor of the loop over the elements is not visible")
        return
    lb, lc = lb[0], lc[0]
    ok = nxtbuf.op == "lvx" and nxtbuf.args[0] == ids[0] and nxtbuf.args[1] == lb.name and nxtcur.op == "lvx" and nxtcur.args[0] == ids[0] and nxtcur.args[1] == lc.name
    col.ob(True if ok else (None if tainted(nxtcur) else False), "nested cursor", "after a nested array the cursor is at %s" % short(nxtcur))
    at_b = [y for y in walk(r) if y.op == "lvat" and y.args[0] == ids[0] and y.args[1] == lb.name]
    at_c = [y for y in walk(r) if y.op == "lvat" and y.args[0] == ids[0] and y.args[1] == lc.name]
    if len(at_b) != 1 or len(at_c) != 1:
        col.ob(None if tainted(r) else False, "nested element", "an element of a nested array is not decoded at the cursor: %s" % short(r))
        return
    nested_call(fl, s, r, fmt, (at_b[0], at_c[0]), col, lab)
    m = {at_b[0]: lb.lv, at_c[0]: lc.lv}
    for j, s2 in enumerate(l2["backs"]):
        nb, nc = l2["nexts"][lb.loc][j], l2["nexts"][lc.loc][j]
        call = [y.args[0] for y in walk(nc) if y.op == "hv"]
        m2 = dict(m)
        m2[bv(x.args[0])] = l2["k"]
        r2 = subst(r, m2)
        col.ob(after_call(r2, nb, nc), "nested element cursor", "between the elements of a nested array the cursor moves to %s" % short(nc), sample="element i+1 starts where element i ended")

def fld_other(fl):
    """name of the defined type"""
    for i, v in enumerate(fl.bt["variants"]):
        if len(v["fields"]) == 1:
            x = fld(fl.base, i, 0, fl.bt["path"], 1)
            TYPE.setdefault(x, v["fields"][0][1])
            return fl.I.proj1(fl.base, ("f", i, 0, fl.bt["path"], 1, v["fields"][0][1]))
    return None

def bufargs(r):
    """[(value of the buffer argument)] of a recursive call"""
    return [unref(a) for a in r.args[1:] if isinstance(a, T) and unref(a).op == "adt" and unref(a).args[0].endswith("MessageBuf")]

def nested_call(fl, s, r, fmt, at, col, lab):
    args = [unref(a) for a in r.args[1:] if isinstance(a, T)]
    b = bufargs(r)
    ok = len(b) == 1 and b[0].args[2] is at[0] and b[0].args[3] is at[1]
    col.ob(True if ok else (None if tainted(r) else False), "nested start", "a nested value is decoded from %s instead of the cursor (%s)" % (short(b[0]) if b else "?", lab), sample="nested value decoded at the cursor")
    fm = [a for a in args if a.op == "mget"]
    col.ob(True if any(a is fmt for a in args) else (False if fm and not tainted(fm[0]) else None), "nested format", "a nested value is decoded with %s instead of the format its type names (%s)" % (short(fm[0]) if fm else "?", short(fmt)), sample="nested format = %s" % short(fmt, 90))

def after_call(r, nb, nc):
    """are buffer and cursor what the recursive call left behind?"""
    b = bufargs(r)
    if len(b) != 1:
        return None
    def ok(x, i):
        return x.op == "fld" and x.args[0].op == "hv" and x.args[0].args[-1] is b[0] and x.args[2] == i
    if ok(nb, 0) and ok(nc, 1):
        return True
    return None if tainted(nc) else False

def elements(P, x, kind):
    """(term of element bv9, count) of a sequence"""
    if x.op == "star" and len(x.args[3]) == 1 and x.args[3][0].args[0] is TRUE and x.args[3][0].args[1].op == "one":
        e = subst(x.args[3][0].args[1].args[0], {bv(x.args[0]): bv(9)})
        return (uncchar(P, e) if kind == "char" else e), x.args[1]
    if x.op == "sub" and kind in ("u8",):
        return sat_u8(x.args[0], add(x.args[1], bv(9))), x.args[2]
    return None, None

def run_loop(fl, formats, inc_pad, col, want=("C09", "C17")):
    """every iteration of a field loop"""
    l = fl.l
    if fl.buf is None:
        col.ob(None, "cursor", "the loop's buffer and cursor are not visible")
        return
    kx = l.get("kx")
    for i, s in enumerate(l["backs"]):
        f = s.facts
        lf = l["leaves"][fl.acc]
        p = fl.pushed(lf, l["nexts"][fl.acc][i])
        nb, nc = l["nexts"][fl.bufloc][i], l["nexts"][fl.curloc][i]
        pad = f.ev(mk("starts", fl.name, lit(b"_padding")))
        base = fl.base_of(f)
        az = f.zero(fl.ad)
        arr = None if az is None else not az
        inc = f.ev(inc_pad) if inc_pad is not None else None
        lab = "%s field of type %s%s%s" % ("padding" if pad else "named" if pad is False else "any", base, "[n]" if arr else "" if arr is False else "(?)", "" if inc is None else ", padding %sincluded" % ("" if inc else "not "))
        col.count("iterations analysed")
        if p is None:
            v = l["nexts"][fl.acc][i]
            col.ob(None if tainted(v) or True else False, "appended", "what is appended is not visible: %s (%s)" % (short(v), lab))
            continue
        if len(p) > 1:
            col.ob(False, "appended twice", "one field of the format appends %d fields (%s)" % (len(p), lab))
            continue
        if p:
            q = p[0]
            vt = D.adt_type(fl.P, q.args[0])
            names = [x[0] for x in vt["variants"][0]["fields"]]
            val = {nm: q.args[2 + j] for j, nm in enumerate(names)}
            if "C09" in want:
                col.ob(D.same_f(f, val["name"], fl.name), "field name", "the k-th field is named %s instead of %s (%s)" % (short(val["name"]), short(fl.name), lab), sample="k-th field: name, type of format.fields[k]")
                col.ob(D.same_f(f, val["type"], fl.ty), "field type", "the k-th field has type %s instead of %s (%s)" % (short(val["type"]), short(fl.ty), lab))
        # which bytes it takes
        byte_pad = pad and base == "UINT8" and arr
        if not byte_pad and p:
            if isinstance(base, list) or base is None or arr is None:
                col.ob(None if pad is None else False, "type not consulted", "a field is decoded without its type being determined (%s)" % lab)
            elif "C09" in want:
                col.count("decoders analysed")
                decode_value(fl, s, base, arr, val["value"], nb, nc, formats, col, lab)
                col.put("decoded", (base, arr))
        if pad is False:
            col.ob(len(p) == 1, "field dropped", "a field that is no padding is dropped (%s)" % lab, sample="every named field is appended")
        elif pad is True:
            if "C17" not in want:
                continue
            rest = sub(slen(fl.buf), fl.cur)
            col.count("padding paths")
            empty = f.zero(sub(nc, slen(fl.buf))) is True and not p
            if byte_pad:
                fits = f.ge(sub(rest, fl.n))
                if fits is True:
                    okadv = f.zero(sub(nc, add(fl.cur, fl.n)))
                    col.ob(True if okadv else (None if tainted(nc) else False), "padding consumed", "a padding array moves the cursor to %s instead of past its bytes (%s)" % (short(nc), lab), sample="uint8_t[n] padding advances by n")
                    if inc is None:
                        col.ob(False, "padding option ignored", "padding is %s without the option being consulted (%s)" % ("returned" if p else "dropped", lab))
                    else:
                        col.ob(bool(p) == inc, "padding returned", "padding is %s (%s)" % ("returned" if p else "dropped", lab), sample="padding returned iff the option is on")
                    if p:
                        v = val["value"]
                        vt = v.op == "adt" and D.adt_type(fl.P, v.args[0])
                        ok = vt and vt["variants"][v.args[1]]["name"] == "ArrayU8"
                        el, cnt = elements(fl.P, v.args[2], "u8") if ok else (None, None)
                        if el is None:
                            col.ob(False if vt and not ok else None, "padding bytes", "padding bytes not visible: %s" % short(v))
                        else:
                            col.ob(D.same_f(f, el, dec("u8", fl.buf, add(fl.cur, bv(9)))), "padding bytes", "byte i of the padding is %s" % short(el), sample="padding byte i = BUF[cursor+i]")
                            col.ob(True if f.same(cnt, fl.n) is True else (None if tainted(cnt) else False), "padding count", "the padding has %s bytes" % short(cnt))
                elif fits is False:
                    col.ob(True if empty else (None if tainted(nc) else False), "truncated padding", "padding that is cut off leaves the cursor at %s%s (%s)" % (short(nc), " and is returned" if p else "", lab), sample="cut-off padding uses up the rest")
                else:
                    # neither known: right for both only if it is an error, which is no iteration
                    col.ob(None, "padding size", "padding is skipped without its size being compared (%s)" % lab)
            elif not p:
                if f.zero(rest) is True:
                    col.ob(True if f.zero(sub(nc, fl.cur)) is True else (None if tainted(nc) else False), "padding at the end", "the cursor moves to %s at the end of the data (%s)" % (short(nc), lab))
                    continue
                if inc is True:
                    col.ob(False, "padding dropped", "padding is dropped although the option is on (%s)" % lab)
                if inc is None:
                    col.ob(False, "padding option ignored", "padding is dropped without the option being consulted (%s)" % lab)
                if isinstance(base, str) and base in BUILTIN and arr is not None:
                    adv = mul(I(width(BUILTIN[base][0])), fl.n if arr else ONE)
                    col.ob(True if f.zero(sub(nc, add(fl.cur, adv))) is True else (None if tainted(nc) else False), "padding consumed", "padding moves the cursor to %s instead of past its bytes (%s)" % (short(nc), lab), sample="other padding advances by its width")
                elif base == "OTHER":
                    col.ob(True if not f.same(nc, fl.cur) else False, "padding consumed", "padding of a defined type does not move the cursor")
                else:
                    col.ob(None, "padding consumed", "padding of unknown type (%s)" % lab)
            else:
                col.ob(True if inc else False, "padding returned", "padding is returned (%s)" % lab)
        else:
            col.ob(None, "padding not told", "a field is handled without asking whether it is padding (%s)" % lab)
    # every field of the format, from the start
    e = l.get("exits") or []
    return

class Ctx:
    """what tables() needs, for a function analysed on its own"""
    def __init__(self, P, I_, selft, self0):
        self.P, self.I, self.selft, self.self0 = P, I_, selft, self0

def options(P):
    """builder option name -> (field path projector on the parser, its name), followed through the builder"""
    r = {}
    b = [f for f in D.method(P, "ULogParserBuilder", "build")]
    if len(b) != 1:
        return r
    I_, rets, s0 = roots.run_method(P, b[0])
    for opt in ("include_header", "include_timestamp", "include_padding"):
        ms = D.method(P, "ULogParserBuilder", opt)
        if len(ms) != 1:
            continue
        I2, rr, q0 = roots.run_method(P, ms[0])
        bt = P.types[ms[0].locals[1]]
        if len(rr) != 1 or rr[0][1].op != "adt":
            continue
        v = rr[0][1]
        fs = bt["variants"][0]["fields"]
        ch = [i for i in range(len(fs)) if v.args[2 + i] is not I2.proj1(q0, ("f", 0, i, bt["path"], len(fs), fs[i][1]))]
        good = len(ch) == 1 and v.args[2 + ch[0]] is mk("sym", "arg1")
        r[opt] = {"builder": fs[ch[0]][0] if good else None, "changed": [fs[i][0] for i in ch], "to": [short(v.args[2 + i]) for i in ch], "parser": None, "passed": []}
        if not good:
            continue
        bf = I_.proj1(s0, ("f", 0, ch[0], bt["path"], len(fs), fs[ch[0]][1]))
        for s, v in rets:
            if v.op == "adt" and v.args[1] == 0 and v.args[2].op == "adt":
                p = v.args[2]
                t = D.adt_type(P, p.args[0])
                hit = [x[0] for i, x in enumerate(t["variants"][0]["fields"]) if p.args[2 + i] is bf]
                r[opt]["passed"].append(tuple(hit))
                r[opt]["ptype"] = t
        ps = set(r[opt]["passed"])
        if len(ps) == 1 and len(list(ps)[0]) == 1:
            r[opt]["parser"] = list(ps)[0][0]
    return r

def pfield(I_, P, tid, v, name):
    t = P.types[tid]
    fs = t["variants"][0]["fields"]
    for i, f in enumerate(fs):
        if f[0] == name:
            return I_.proj1(v, ("f", 0, i, t["path"], len(fs), f[1]))
    return None

_opts = {}
def opts_of(P):
    if id(P) not in _opts:
        _opts[id(P)] = options(P)
    return _opts[id(P)]

def opt_term(P, I_, tid, self0, opt):
    o = opts_of(P).get(opt)
    if not o:
        return None
    return pfield(I_, P, tid, self0, o["parser"] or opt)

def nested_fn(I_):
    """the functions that call themselves while decoding"""
    r = {}
    for e in I_.events:
        if e.kind == "rcall":
            r[e.data[0].key] = e.data[0]
    return r

def data_out(n):
    return [o for o in n.outs if o.kind == "ok" and o.mv == "LoggedData"]

def whole(fl, s, col, what):
    """the loop runs over every field of the format, starting at the first"""
    l = fl.l
    r = s.facts.same(l["kx"], slen(fl.fields))
    col.ob(True if r else (None if tainted(l["kx"]) and False else False), "all fields", "%s: the loop over the fields need not reach the last field" % what, sample="%s: k = len(fields) at the end" % what)
    a = l["leaves"][fl.acc].init
    col.ob(a is EMPTY, "nothing before", "%s: the fields start with %s" % (what, short(a)))

def c09(n, col):
    if n.cls != "D":
        return
    P, I_ = n.P, n.I
    st, ft = D.subs_table(n), D.formats_table(n)
    if st is None or ft is None:
        return
    sub_ = D.subscription(n)
    fmt = mk("mget", ft[4](n.self0), D.sub_field(n, sub_, "message_name"))
    inc = opt_term(P, I_, n.selft, n.self0, "include_padding")
    done = set()
    for o in data_out(n):
        col.count("decoded data items")
        d = get(P, unref(o.msg.args[2]), "data")
        fs = get(P, d, "fields")
        fls = field_loops(P, I_, fs, fmt)
        if len(fls) != 1:
            col.ob(None, "field loop", "%d loops build the fields (%s)" % (len(fls), n.label()))
            continue
        fl = fls[0]
        whole(fl, o, col, "a data message")
        if fl.lid not in done:
            done.add(fl.lid)
            if fl.buf is not None:
                b0, c0 = fl.l["leaves"][fl.bufloc].init, fl.l["leaves"][fl.curloc].init
                got = ssub(b0, c0, sub(slen(b0), c0)) if is_seq(b0) else None
                e = add(n.body, I(2))
                ok = got is not None and (sat(got, ZERO) is sat(STREAM, e)) and o.facts.same(slen(got), sub(n.size, I(2))) is True
                col.ob(True if ok else (None if tainted(b0) or tainted(c0) else False), "first field", "the first field is decoded from %s at %s instead of the byte after the id" % (short(b0), short(c0)), sample="first field at body+2")
            run_loop(fl, ft[4](n.self0), inc, col, ("C09",))
        # what happens to the list afterwards (only filtering; judged under C17)
        # the nested decoders
    for k, g in nested_fn(I_).items():
        col.put("nested", g.key)

def run_nested(P, key):
    g = P.fns[key]
    I_, rets, s0 = roots.root_run(P, g)
    t = P.types[g.locals[1]]
    selft = t["to"] if t["k"] == "ref" else g.locals[1]
    fa = None
    for i in range(g.argc):
        tid = g.locals[i + 1]
        for _ in range(3):
            u = P.types[tid]
            if u["k"] == "ref":
                tid = u["to"]
            elif u["k"] == "adt" and D.stripname(u["path"]) in ("Rc", "Arc"):
                tid = u["args"][0]
        u = P.types[tid]
        if u["k"] == "adt" and u["path"].endswith("def::Format"):
            fa = i
    return g, I_, rets, s0, selft, fa

_nested = {}
def nested_run(P, key):
    if key not in _nested:
        _nested[key] = run_nested(P, key)
    return _nested[key]

def nested_all(P, col):
    """[(function, interpreter, ok results [(state, inst::Format value)], format term, formats table, padding option)]"""
    out = []
    for key in sorted(set(col.data.get("nested", []))):
        g, I_, rets, s0, selft, fa = nested_run(P, key)
        if fa is None or s0 is None:
            col.ob(None, "nested decoder", "%s takes no format" % g.path)
            continue
        c = Ctx(P, I_, selft, s0)
        ft = D.formats_table(c)
        if ft is None:
            col.ob(None, "nested decoder", "the format table is not visible in %s" % g.path)
            continue
        ok = [(s, v.args[2]) for s, v in rets if v.op == "adt" and v.args[0] == RES and v.args[1] == 0]
        out.append((g, I_, ok, mk("sym", "arg%d" % fa), ft[4](s0), opt_term(P, I_, selft, s0, "include_padding"), s0, selft))
    return out

def c09_end(col, init):
    col.floor("decoded data items", 1, "decoded data messages")
    col.floor("decoders analysed", 25, "field decoders")
    got = set(col.data.get("decoded", []))
    for b in list(BUILTIN) + ["OTHER"]:
        for arr in (False, True):
            col.ob((b, arr) in got or None, "missing:%s%s" % (b, "[]" if arr else ""), "no path decodes %s%s" % (b, "[n]" if arr else ""))

def c09_nested(P, col, tier):
    for g, I_, ok, ft, formats, inc, s0, selft in nested_all(P, col):
        col.count("nested decoders analysed")
        col.ob(bool(ok) or None, "nested result", "%s never succeeds" % g.path)
        done = set()
        for s, v in ok:
            fs = get(P, v, "fields")
            if fs is None:
                col.ob(None, "nested result", "result of %s not visible: %s" % (g.path, short(v)))
                continue
            fls = field_loops(P, I_, fs, ft)
            if len(fls) != 1:
                col.ob(None, "field loop", "%d loops build the fields (%s)" % (len(fls), g.path))
                continue
            fl = fls[0]
            whole(fl, s, col, "a nested value")
            df = get(P, v, "def_format")
            col.ob(D.same_f(s.facts, df, ft), "nested definition", "a nested value carries the definition %s" % short(df), sample="nested value carries the format it was decoded with")
            nm = get(P, v, "name")
            col.ob(D.same_f(s.facts, nm, fproj(I_, P, ft, "def::Format", "name")), "nested name", "a nested value is named %s" % short(nm))
            if fl.lid in done:
                continue
            done.add(fl.lid)
            if fl.buf is not None:
                b0, c0 = fl.l["leaves"][fl.bufloc].init, fl.l["leaves"][fl.curloc].init
                okb = b0.op == "fld" and c0.op == "fld" and b0.args[0] is c0.args[0] and b0.args[0].op == "sym"
                col.ob(True if okb else (None if tainted(b0) or tainted(c0) else False), "nested first field", "the first field of a nested value is decoded from %s at %s instead of where it starts" % (short(b0), short(c0)))
                # what the caller's cursor becomes
                root = [r for r in s.store if r[0] == "s" and r[1] == (b0.args[0].args[0] if okb else None)]
                if root:
                    v1 = s.store[root[0]]
                    if v1.op == "adt":
                        okc = v1.args[2].op == "lvx" and v1.args[3].op == "lvx" and v1.args[3].args[0] == fl.lid and v1.args[3].args[1] == fl.l["leaves"][fl.curloc].name
                        col.ob(True if okc else (None if tainted(v1) else False), "nested end", "after a nested value the cursor is left at %s" % short(v1.args[3]), sample="the caller continues where the last field ended")
            run_loop(fl, formats, inc, col, ("C09",))

# ------------------------------------------------------------------ C16
def c16(n, col):
    if n.cls != "D":
        return
    P, I_ = n.P, n.I
    ft = D.formats_table(n)
    if ft is None or D.subs_table(n) is None:
        return
    fmt = mk("mget", ft[4](n.self0), D.sub_field(n, D.subscription(n), "message_name"))
    seen = set()
    X = None
    for o in data_out(n):
        col.count("decoded data items")
        p = unref(o.msg.args[2])
        fls = field_loops(P, I_, get(P, get(P, p, "data"), "fields"), fmt)
        if len(fls) != 1:
            col.ob(None, "field loop", "%d loops build the fields (%s)" % (len(fls), n.label()))
            continue
        fl = fls[0]
        t = get(P, p, "timestamp")
        x = t.args[0] if t.op == "fld" and t.args[1] == 1 else None
        lf = None
        if x is not None and x.op == "lvx" and x.args[0] == fl.lid:
            lf = [l for l in fl.l["leaves"].values() if l.name == x.args[1]]
        if not lf:
            bad = t.op == "int" or (t.op == "le") or (t.op == "fld" and t.args[0].op in ("res", "opq"))
            col.ob(False if bad and not summarised(t) else None, "timestamp source", "the timestamp is %s, not what the decoding of the top-level fields found" % short(t))
            continue
        lf = lf[0]
        X = x
        col.ob(lf.init.op == "adt" and lf.init.args[0] == OPT and lf.init.args[1] == 0 or (None if tainted(lf.init) else False), "timestamp start", "before the first field the timestamp is %s" % short(lf.init), sample="timestamp = None before the first field")
        z = o.facts.zero(I_.discr(x, TYPE.get(x))) if TYPE.get(x) is not None else o.facts.zero(mk("discr", x))
        col.ob(True if z is False else (None if z is None else False), "timestamp present", "data is returned although no timestamp need have been found", sample="data only when a timestamp was found")
        if fl.lid in seen:
            continue
        seen.add(fl.lid)
        eqt = eq(lit(b"timestamp"), fl.name)
        for i, s in enumerate(fl.l["backs"]):
            f = s.facts
            v = fl.l["nexts"][lf.loc][i]
            pad = f.ev(mk("starts", fl.name, lit(b"_padding")))
            base, az, named = fl.base_of(f), f.zero(fl.ad), f.ev(eqt)
            col.count("iterations analysed")
            lab = "%s%s named %s" % (base, "" if az else "[n]" if az is False else "(?)", "timestamp" if named else "otherwise" if named is False else "?")
            if v is lf.lv:
                if base == "UINT64" and az is True and pad is False:
                    if f.zero(I_.discr(lf.lv, TYPE[lf.lv]) if TYPE.get(lf.lv) is not None else mk("discr", lf.lv)) is False:
                        col.ob(True, "")
                        continue
                    asks = any(fl.name in set(walk(l)) and l.op != "starts" and not (l.op == "not" and l.args[0].op == "starts") for l in f.lits)
                    col.ob(True if named is False else (None if named is None and asks else False), "timestamp missed", "a top-level uint64_t field that may be named timestamp is not taken as the timestamp (%s)" % lab, sample="not set only when the name is another")
                else:
                    col.ob(True, "")
            elif v.op == "adt" and v.args[0] == OPT and v.args[1] == 1:
                e = dec("u64", fl.buf, fl.cur)
                col.ob(D.same_f(f, v.args[2], e), "timestamp value", "the timestamp is %s instead of the field's value %s (%s)" % (short(v.args[2]), short(e), lab), sample="timestamp = Some(%s)" % short(e))
                ok = base == "UINT64" and az is True
                col.ob(ok, "timestamp type", "a field of type %s is taken as the timestamp" % lab, sample="set only by a scalar uint64_t")
                col.ob(True if named is True else (None if named is None and any(fl.name in set(walk(l)) and l.op not in ("starts", "not") for l in f.lits) else False), "timestamp name", "a field that need not be named timestamp is taken as the timestamp (%s)" % lab, sample="set only under name == \"timestamp\"")
            else:
                bad = v.op == "adt" or v.op == "fld" or any(y.op == "rcall" for y in walk(v))
                col.ob(False if bad else None, "timestamp changed", "a %s field changes the timestamp to %s" % (lab, short(v)))
    for o in n.outs:
        if o.kind != "err" or o.eof or o.ioerr:
            continue
        none = X is not None and o.facts.zero(I_.discr(X, TYPE[X]) if TYPE.get(X) is not None else mk("discr", X)) is True
        if not none:
            fields = fproj(I_, P, fmt, "def::Format", "fields")
            for lid, l in I_.loops.items():
                nm = fproj(I_, P, sat(fields, l["k"]), "def::Field", "name")
                if l["backs"] and all(b.facts.ev(eq(lit(b"timestamp"), nm)) is False for b in l["backs"]) and o.facts.same(l["kx"], slen(fields)) is True:
                    none = True
        if none:
            col.count("missing timestamp errors")
            col.ob(o.errv == "MissingTimestamp" or (None if o.errv is None else False), "missing timestamp error", "a format without a timestamp is reported as %s" % o.errv, sample="no timestamp field -> MissingTimestamp")

def c16_end(col, init):
    col.floor("decoded data items", 1, "decoded data messages")
    col.floor("iterations analysed", 10, "iterations of the field loop")
    col.floor("missing timestamp errors", 1, "missing-timestamp errors")

# ------------------------------------------------------------------ C17
def c17(n, col):
    P, I_ = n.P, n.I
    oo = {k: opt_term(P, I_, n.selft, n.self0, k) for k in ("include_header", "include_timestamp", "include_padding")}
    if any(v is None for v in oo.values()):
        return col.ob(None, "options", "the parser's options are not identified")
    for o in n.outs:
        if o.kind == "unknown" or o.self1 is None:
            continue
        lab = where(n, o)
        for k in oo:
            v1 = opt_term(P, I_, n.selft, o.self1, k)
            col.ob(True if v1 is oo[k] or o.facts.ev(oo[k]) is not None and v1.op == "bool" and v1.args[0] == o.facts.ev(oo[k]) else (None if tainted(v1) else False), "option changed", "%s is changed to %s by a pull: %s" % (k, short(v1), lab))
        # each option has no other effect than its own
        if n.cls != "D":
            # nested values in information and parameter messages have padding too
            for k in ("include_timestamp",) if n.cls in ("I", "M", "P", "Q") else ("include_timestamp", "include_padding"):
                col.ob(not any(mentions_opt(l, oo[k]) for l in o.facts.lits), "option %s elsewhere" % k, "%s has an effect on something else: %s" % (k, lab))
        if o.kind == "ok":
            inc = o.facts.ev(oo["include_header"])
            if o.mv == "Header":
                col.count("header items")
                col.ob(True if inc is True else False, "header returned", "the header is returned although the option need not be on: " + lab, sample="Header only under include_header")
            elif n.init:
                col.ob(True if inc is False else False, "header left out", "the header is left out although the option may be on: " + lab, sample="no Header only under not include_header")
            else:
                col.ob(not any(mentions_opt(l, oo["include_header"]) for l in o.facts.lits), "option include_header elsewhere", "include_header has an effect on something else: %s" % lab)
    if n.cls != "D":
        return
    for k, g in nested_fn(I_).items():
        col.put("nested", g.key)
    ft = D.formats_table(n)
    if ft is None or D.subs_table(n) is None:
        return
    fmt = mk("mget", ft[4](n.self0), D.sub_field(n, D.subscription(n), "message_name"))
    done = set()
    for o in data_out(n):
        col.count("decoded data items")
        fs = get(P, get(P, unref(o.msg.args[2]), "data"), "fields")
        fls = field_loops(P, I_, fs, fmt)
        if len(fls) != 1:
            col.ob(None, "field loop", "%d loops build the fields (%s)" % (len(fls), n.label()))
            continue
        fl = fls[0]
        if fl.lid not in done:
            done.add(fl.lid)
            run_loop(fl, ft[4](n.self0), oo["include_padding"], col, ("C17",))
        filtered(P, I_, fl, o.facts, fs, oo, col, True)

def filtered(P, I_, fl, facts, fs, oo, col, top):
    S = fl.l.get("acc", {}).get(fl.acc)
    if S is None:
        return col.ob(None, "filter", "the list of decoded fields is not visible")
    for it in (False, True):
        for ip in (False, True):
            f = facts.assume(oo["include_timestamp"] if it else not_(oo["include_timestamp"]))
            f = f and f.assume(oo["include_padding"] if ip else not_(oo["include_padding"]))
            if f is None:
                continue
            for cls in ("timestamp", "padding", "other"):
                want = (it or cls != "timestamp" or not top) and (ip or cls != "padding")
                got = keeps(P, I_, fs, S, f, cls)
                col.count("filter cases")
                lab = "a %s field, timestamp %s, padding %s" % (cls, "on" if it else "off", "on" if ip else "off")
                if got is None or isinstance(got, str):
                    col.ob(None, "filter", "what happens to %s is not visible: %s" % (lab, got or short(fs)))
                    continue
                # padding already left out while decoding: keeping it here keeps nothing
                if cls == "padding" and not ip and got:
                    want = True
                if isinstance(got, dict):
                    bad = sorted(w.decode() for w, r in got.items() if r != want)
                    col.ob(False, "filter %s %s %s" % (cls, it, ip), "%s: those named %s are %s" % (lab, ", ".join(bad), "left out" if want else "returned"))
                    continue
                col.ob(got == want, "filter %s %s %s" % (cls, it, ip), "%s: %s" % (lab, "returned" if got else "left out"), sample="%s: %s" % (lab, "returned" if got else "left out"))

def keeps(P, I_, t, S, f, cls):
    """is an element of S of class `cls` still there in t?"""
    if t is S:
        return True
    if t.op == "cat" and len(t.args) == 1:
        return keeps(P, I_, t.args[0], S, f, cls)
    if t.op != "star":
        return None
    def elem(p):
        if p.op == "one":
            return p.args[0]
        if p.op == "sub" and p.args[2] is ONE:
            return sat(p.args[0], p.args[1])
        return None
    es = [x for x in (elem(a.args[1]) for a in t.args[3]) if x is not None]
    if not es:
        return None
    e = es[0]
    if e.op != "at" or e.args[1] is not bv(t.args[0]):
        return "elements are changed: %s" % short(e)
    inner = e.args[0]
    r = keeps(P, I_, inner, S, f, cls)
    if r is not True:
        return r
    if f.same(t.args[1], slen(inner)) is not True:
        return None
    nm = fproj(I_, P, e, "inst::Field", "name")
    b = bv(t.args[0])
    f2 = f.assume(ge0(b))
    f2 = f2 and f2.assume(ge0(sub(sub(slen(inner), b), ONE)))
    if f2 is None:
        return None
    out = []
    for w in NAMES[cls]:
        res = None
        for a in t.args[3]:
            c = ev_named(a.args[0], nm, w, f2)
            k = a.args[1] is not EMPTY
            if k and elem(a.args[1]) is not e:
                return "elements are changed: %s" % short(a.args[1])
            if c is True:
                res = k
            elif c is None:
                return "condition %s" % short(a.args[0])
        if res is None:
            return None
        out.append((w, res))
    rs = set(r for w, r in out)
    if len(rs) == 1:
        return rs.pop()
    return dict(out)

NAMES = {"timestamp": [b"timestamp"], "padding": [b"_padding0", b"_padding", b"_padding_timestamp", b"_padding10"],
         "other": [b"x", b"timestamp_sample", b"my_timestamp", b"Timestamp", b"_pad", b"padding", b"timestam", b"_timestamp", b"timestamp0", b"a_padding0", b"_Padding0", b"timestamps_and_padding"]}

def ev_named(c, nm, w, f):
    """truth of a condition for a field named w"""
    if c.op == "not":
        r = ev_named(c.args[0], nm, w, f)
        return None if r is None else not r
    if c.op == "and":
        r = [ev_named(x, nm, w, f) for x in c.args]
        return False if False in r else None if None in r else True
    if c.op in ("starts", "ends", "contains") and c.args[0] is nm and c.args[1].op == "lit":
        x = c.args[1].args[0]
        return w.startswith(x) if c.op == "starts" else w.endswith(x) if c.op == "ends" else x in w
    if c.op == "eq" and nm in c.args:
        o = c.args[1] if c.args[0] is nm else c.args[0]
        if o.op == "lit":
            return o.args[0] == w
    if nm in set(walk(c)):
        c = subst(c, {nm: lit(w)})
    return f.ev(c)

def c17_end(col, init):
    col.floor("decoded data items", 1, "decoded data messages")
    col.floor("header items", 1, "header items")
    col.floor("padding paths", 10, "padding paths")
    col.floor("filter cases", 12, "filter cases")

def c17_also(P, col, tier):
    # the way in: builder option -> builder field -> parser field, all off to begin with
    oo = opts_of(P)
    for k in ("include_header", "include_timestamp", "include_padding"):
        o = oo.get(k)
        if not o:
            col.ob(None, "option " + k, "the builder's %s is not visible" % k)
            continue
        if o["builder"] is None:
            col.ob(False if len(o["changed"]) != 1 or not any(x.startswith("arg") for x in o["to"]) else None, "option " + k, "%s(include) sets %s to %s" % (k, o["changed"], o["to"]))
            continue
        ps = set(o["passed"])
        if o["parser"] is None:
            col.ob(False if all(len(p) != 1 for p in ps) else None, "option " + k, "the builder's %s reaches the parser's fields %s" % (k, sorted(ps)))
        else:
            col.ob(True, "", sample="%s -> builder.%s -> parser.%s" % (k, o["builder"], o["parser"]))
    ps = [oo[k]["parser"] for k in oo if oo[k]["parser"]]
    col.ob(len(set(ps)) == len(ps), "options share a field", "two options reach the same field of the parser: %s" % ps)
    for owner, which in (("ULogParserBuilder", "builder"), ("ULogParser", "parser")):
        for f in D.method(P, owner, "new"):
            if ("Builder" in f.path) != (which == "builder"):
                continue
            I_, rets, s0 = roots.run_method(P, f)
            for s, v in rets:
                if v.op == "adt" and v.args[0] == RES:
                    if v.args[1] == 1:
                        continue
                    v = v.args[2]
                t = v.op == "adt" and D.adt_type(P, v.args[0])
                if not t:
                    col.ob(None, "default", "result of %s not visible" % f.path)
                    continue
                for k in oo:
                    fn = oo[k][which]
                    for i, x in enumerate(t["variants"][0]["fields"]):
                        if x[0] == fn:
                            w = v.args[2 + i]
                            col.count("defaults checked")
                            col.ob(True if w is FALSE else (False if w is TRUE else None), "default of %s" % k, "%s is %s unless set (%s)" % (k, short(w), f.path), sample="%s off in %s" % (k, f.path))
    col.floor("defaults checked", 6, "option defaults")
    for g, I_, ok, ft, formats, inc, s0, selft in nested_all(P, col):
        done = set()
        o3 = {k: opt_term(P, I_, selft, s0, k) for k in ("include_timestamp", "include_padding")}
        for s, v in ok:
            fs = get(P, v, "fields")
            fls = field_loops(P, I_, fs, ft) if fs is not None else []
            if len(fls) != 1:
                col.ob(None, "field loop", "%d loops build the fields (%s)" % (len(fls), g.path))
                continue
            fl = fls[0]
            filtered(P, I_, fl, s.facts, fs, o3, col, False)
            if fl.lid not in done:
                done.add(fl.lid)
                run_loop(fl, formats, inc, col, ("C17",))
