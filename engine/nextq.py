"""Facts about one pull of the parser: every way `ULogParser::next` can return, from every state and
for every message type, as terms over the stream and the parser state before the call."""
import sys
from terms import *
import terms, roots, models
from ck import Col, short
from roots import POS0
from models import STREAM

ULM = "UlogMessage"

def pathof(P, name, mod=None):
    for i, t in enumerate(P.types):
        if t["k"] == "adt" and t["path"].split("::")[-1] == name and t.get("crate") == "yule_log" and (mod is None or ("::" + mod + "::") in t["path"]):
            return t["path"]
    return None

def tname(v):
    """(type name, variant name) of a constructed value"""
    if v.op != "adt":
        return None, None
    return v.args[0].split("::")[-1], vname(v.args[0], v.args[1])

_fi = {}
def get(P, v, field):
    """field of a constructed (or symbolic) struct by its declared name"""
    if v.op in ("vref",):
        v = v.args[0]
    if v.op != "adt":
        return None
    path, var = v.args[0], v.args[1]
    k = (id(P), path, var)
    m = _fi.get(k)
    if m is None:
        tid = P.find_adt(path)
        m = {}
        if tid is not None:
            vs = P.types[tid]["variants"]
            if var < len(vs):
                for i, f in enumerate(vs[var]["fields"]):
                    m[f[0]] = i
        _fi[k] = m
    i = m.get(field)
    if i is None or 2 + i >= len(v.args):
        return None
    x = v.args[2 + i]
    return x

def unref(v):
    while v is not None and v.op == "vref":
        v = v.args[0]
    return v

BAD = {"opq", "nd", "undef", "hv", "lossy"}
_tc = {}
def tainted(t):
    """does the value depend on something the analysis has no model of"""
    return has_free(t, _tc, lambda x: x.op in BAD)

_uc = {}
def has_undel(t):
    return has_free(t, _uc, lambda x: x.op == "undel")
_bc = {}
def summarised(t):
    return has_free(t, _bc, lambda x: x.op in ("bv", "lv", "lvx", "lvat", "star"))

class Out:
    pass

class Next:
    """one partition, analysed"""
    def __init__(self, P, part, init, opts=None):
        self.P = P
        self.part = part
        self.state = part[2]
        self.cls = part[3]
        I_, rets, self0 = roots.run_next(P, part, opts, init)
        self.I = I_
        self.self0 = self0
        self.init = part[2] == init
        self.initdiscr = init
        self.hdr = 16 if self.init else 0
        self.m = add(POS0, I(self.hdr))
        self.size = le("u16", STREAM, self.m)
        self.body = add(self.m, I(3))
        self.bodys = ssub(STREAM, self.body, self.size)
        self.opaque = [e for e in I_.events if e.kind == "opaque"]
        f = roots.one_fn(P, "next", "Iterator", "ULogParser")
        self.selft = P.types[f.locals[1]]["to"]
        self.rett = f.locals[0]
        self.outs = []
        for s, v in rets:
            self.outs.append(self.classify(s, v))

    def label(self):
        t = self.P.types
        st = "?"
        if self.part[1] is not None:
            for v in t[self.part[1]]["variants"]:
                if int(v["discr"]) == self.state:
                    st = v["name"]
        return "state %s, message type %s" % (st, self.cls)

    def classify(self, s, v):
        o = Out()
        o.s, o.v = s, v
        o.facts = s.facts
        o.kind = "unknown"
        o.msg = o.mv = o.err = o.errv = None
        o.pos = s.store.get(("g", "pos"))
        o.eof = s.store.get(("g", "eof")) is TRUE
        o.ioerr = s.store.get(("g", "ioerr")) is TRUE
        o.eofpos = s.store.get(("g", "eofpos"))
        o.eofn = s.store.get(("g", "eofn"))
        o.self1 = s.store.get(("s", "self"))
        o.tainted = tainted(v)
        if v.op == "adt" and v.args[0] == OPT:
            if v.args[1] == 0:
                o.kind = "none"
            else:
                r = v.args[2]
                if r.op == "adt" and r.args[0] == RES:
                    if r.args[1] == 0:
                        o.kind = "ok"
                        o.msg = r.args[2]
                        if o.msg.op == "adt":
                            o.mv = vname(o.msg.args[0], o.msg.args[1])
                    else:
                        o.kind = "err"
                        o.err = r.args[2]
                        if o.err.op == "adt":
                            o.errv = vname(o.err.args[0], o.err.args[1])
                else:
                    rt = self.P.types[self.rett]["args"][0]
                    d = self.I.discr(r, rt)
                    z = s.facts.zero(d)
                    if z is True:
                        o.kind = "ok"
                        o.msg = fld(r, 0, 0, RES, 1)
                    elif s.facts.zero(sub(d, ONE)) is True:
                        o.kind = "err"
        return o

    def field_of(self, v, i):
        ty = self.P.types[self.selft]
        fs = ty["variants"][0]["fields"]
        return self.I.proj1(v, ("f", 0, i, ty["path"], len(fs), fs[i][1]))

    def fields(self):
        return self.P.types[self.selft]["variants"][0]["fields"]

    def discr_after(self, o):
        """numeric state after the call, when it is a constant"""
        if self.part[0] is None or o.self1 is None:
            return None
        e = self.field_of(o.self1, self.part[0])
        d = self.I.discr(e, self.part[1])
        d = o.facts.norm(d)
        return d.args[0] if d.op == "int" else None

    def opt_usize(self):
        """(index, term, type) of every Option<usize> field of the parser: candidates for a data limit"""
        out = []
        for i, f in enumerate(self.fields()):
            t = self.P.types[f[1]]
            if t["k"] == "adt" and t["path"] == OPT and t["args"]:
                a = self.P.types[t["args"][0]]
                if a["k"] == "int" and a["bits"] == 64:
                    out.append((i, self.field_of(self.self0, i), f[1]))
        return out

    def counter(self, v):
        """number of stream bytes the parser thinks it took, from its state v"""
        for i, f in enumerate(self.fields()):
            t = self.P.types[f[1]]
            if t["k"] == "adt" and t.get("crate") == "yule_log" and not t.get("enum"):
                d = self.field_of(v, i)
                fs = t["variants"][0]["fields"]
                if any(self.P.types[x[1]]["k"] == "param" for x in fs):
                    for j, x in enumerate(fs):
                        xt = self.P.types[x[1]]
                        if xt["k"] == "int" and xt["bits"] == 64:
                            return self.I.proj1(d, ("f", 0, j, t["path"], len(fs), x[1]))
        return None

    def bools(self, v):
        """every boolean of the parser and of its parts"""
        out = []
        def go(v, tid, d, name):
            t = self.P.types[tid]
            if t["k"] == "bool":
                out.append((name, v))
            elif d < 2 and t["k"] == "adt" and t.get("crate") == "yule_log" and not t.get("enum"):
                fs = t["variants"][0]["fields"]
                for i, f in enumerate(fs):
                    go(self.I.proj1(v, ("f", 0, i, t["path"], len(fs), f[1])), f[1], d + 1, name + "." + f[0])
        go(v, self.selft, 0, "self")
        return out

def where(n, o):
    return "%s -> %s" % (n.label(), short(o.v, 160))

def init_state(P):
    """the state a new parser starts in, from the constructor"""
    f = roots.one_fn(P, "new", None, "ULogParser")
    from interp import Interp
    I_ = Interp(P)
    st, fid = roots.start(I_, f, [None])
    r = mk("sym", "reader")
    I_.ann(r, f.locals[1])
    st.store[(fid, 1)] = r
    rets = roots.run_root(I_, f, st, fid)
    return I_, f, rets

def parser_init(P):
    """-> (discriminant of the initial state or None, initial parser value, interp, rets)"""
    I_, f, rets = init_state(P)
    parts = roots.next_parts(P)
    idx, tid = parts[0][0], parts[0][1]
    val = None
    for s, v in rets:
        if v.op == "adt" and v.args[0] == RES and v.args[1] == 0:
            val = v.args[2]
        elif v.op == "adt" and v.args[0].endswith("ULogParser"):
            val = v
    d = None
    if val is not None and idx is not None and val.op == "adt":
        e = val.args[2 + idx]
        dd = I_.discr(e, tid)
        if dd.op == "int":
            d = dd.args[0]
    return d, val, I_, rets

def run(P, queries, parts=None, opts=None):
    """analyse every partition and apply every query {id: fn(N, col)}; -> {id: Col}, stats"""
    init, val, I0, rets0 = parser_init(P)
    jobs = roots.next_parts(P)
    if parts is not None:
        jobs = [j for j in jobs if parts(j, init)]
    def job(p):
        n = Next(P, p, init, opts)
        res = {}
        for q, fn in queries.items():
            c = Col()
            fn(n, c)
            res[q] = c
        return res, n.I.nblocks, len(n.outs), len(n.I.analysed), {e.detail: 1 for e in n.opaque}
    w = lambda p: roots.WEIGHT.get(p[3], 1) * (1 if p[2] in (0, 1, 2, None) else .1)
    R = roots.parallel(jobs, job, w)
    cols = {q: Col() for q in queries}
    stats = {"blocks": 0, "returns": 0, "functions": 0, "partitions": len(jobs), "opaque": set(), "failed": []}
    for p, st, r, dt in R:
        if st != "ok":
            stats["failed"].append((p, st, r))
            for c in cols.values():
                c.notes["partition %s" % (p,)] = "%s: %s" % (st, str(r)[-600:])
            continue
        res, nb, no, nf, opq = r
        for q, c in res.items():
            cols[q].merge(c)
        stats["blocks"] += nb
        stats["returns"] += no
        stats["functions"] = max(stats["functions"], nf)
        stats["opaque"] |= set(opq)
    for c in cols.values():
        c.data["init"] = [init]
        for o in sorted(stats["opaque"]):
            c.notes["unmodelled call " + o] = "the result of this call is not known to the analysis"
    return cols, stats
