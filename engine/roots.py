"""Entry points of the analysis: the public API the properties quantify over, analysed in parallel
partitions of the abstract input."""
import gc, os, sys, time, json, traceback
import multiprocessing as mp
from terms import *
import terms, interp
from interp import *
from facts import Facts, DISCRS
import dump

def find(P, name, trait=None, self_=None, inst=None):
    """functions of the core crate by public name"""
    out = []
    for f in P.fns.values():
        if f.name != name or not f.local:
            continue
        if inst is False and f.j.get("iargs_concrete"):
            continue
        t = f.j.get("impl_trait")
        if trait is not None and not (t or "").split("::")[-1].split("<")[0] == trait:
            continue
        if trait is None and t:
            continue
        if self_ is not None:
            if "impl_self" not in f.j or f.j["impl_self"] is None:
                continue
            ty = P.types[f.j["impl_self"]]
            if ty.get("path", ty.get("s", "")).split("::")[-1] != self_:
                continue
        out.append(f)
    return out

def one_fn(P, name, trait=None, self_=None):
    fs = find(P, name, trait, self_)
    if not fs:
        raise dump.AnalysisError("anchor not found: %s%s::%s" % ((trait + " for ") if trait else "", self_, name))
    # the generic (identity) body is the one without concrete instance arguments
    fs.sort(key=lambda f: (f.key.count("<"), len(f.key)))
    return fs[0]

POS0 = mk("sym", "pos0")
RANGE[POS0] = (0, 1 << 60)
BITS[POS0] = (64, False)

def start(I, f, args):
    """run function f as a root; args are terms"""
    st = St({("g", "pos"): POS0}, Facts())
    fid = fid_of("root", f.key)
    for i, a in enumerate(args):
        st.store[(fid, i + 1)] = a
    I.stack.append(f.key)
    I.analysed.add(f.key)
    return st, fid

def run_root(I, f, st, fid):
    try:
        rets = I.exec_fn_blocks(f, fid, st)
    finally:
        I.stack.pop()
    return [(s, v) for s, v in rets]

def mem_sym(I, st, name, tid):
    """symbolic memory of a type; -> reference term"""
    r = ("s", name)
    v = mk("sym", name)
    I.ann(v, tid)
    st.store[r] = v
    I.stypes[r] = tid
    for x in I.invariant(v, tid):
        st.facts = st.facts.assume(x)
    return mk("ref", r, ())

# ---------------------------------------------------------------------------- ULogParser::next
TYPES = [("D", "D"), ("I", "I"), ("M", "M"), ("P", "P"), ("Q", "Q"), ("F", "F"), ("A", "A"), ("B", "B"), ("L", "L"), ("C", "C"), ("O", "O"), ("R", "R"), ("other", None)]

def next_parts(P):
    """complete partition of the inputs of `next`: parser state x message type byte"""
    f = one_fn(P, "next", "Iterator", "ULogParser")
    selft = P.types[f.locals[1]]["to"]
    ty = P.types[selft]
    enums = []
    for i, fl in enumerate(ty["variants"][0]["fields"]):
        t = P.types[fl[1]]
        if t["k"] == "adt" and t.get("enum") and t.get("crate") == "yule_log":
            enums.append((i, fl[1]))
    parts = []
    if len(enums) == 1:
        i, t = enums[0]
        vals = [int(v["discr"]) for v in P.types[t]["variants"]]
    else:
        i, t, vals = None, None, [None]
    for v in vals:
        for n, ch in TYPES:
            parts.append((i, t, v, n))
    return parts

WEIGHT = {"D": 9, "I": 5, "M": 5, "P": 5, "Q": 5, "other": 4}

def run_next(P, part, opts=None, init=0):
    i, t, v, n = part
    f = one_fn(P, "next", "Iterator", "ULogParser")
    I_ = Interp(P, opts)
    selft = P.types[f.locals[1]]["to"]
    st, fid = start(I_, f, [None])
    S = mem_sym(I_, st, "self", selft)
    st.store[(fid, 1)] = S
    self0 = st.store[("s", "self")]
    ty = P.types[selft]
    fs = ty["variants"][0]["fields"]
    cond = []
    off = 2
    if i is not None:
        e = I_.proj1(self0, ("f", 0, i, ty["path"], len(fs), t))
        cond.append(ieq(I_.discr(e, t), I(v)))
        if v == init:
            off = 18
    b = sat(terms_STREAM(), add(POS0, I(off)))
    I_.ann(b, u8tid(P))
    if n == "other":
        for m, ch in TYPES:
            if ch:
                cond.append(not_(ieq(b, I(ord(ch)))))
    else:
        cond.append(ieq(b, I(ord(n))))
    for p in (opts or {}).get("pairs", ()):
        cond.append(pair_cond(I_, P, self0, selft, p))
    for c in cond:
        st.facts = st.facts.assume(c)
        if st.facts is None:
            return I_, [], self0
    rets = run_root(I_, f, st, fid)
    return I_, rets, self0

def terms_STREAM():
    import models
    return models.STREAM

def u8tid(P):
    r = getattr(P, "_u8", None)
    if r is None:
        for i, t in enumerate(P.types):
            if t["k"] == "int" and t["bits"] == 8 and not t["signed"]:
                P._u8 = r = i
    return r

# ---------------------------------------------------------------------------- parallel driver
def _work(a):
    job, fn = a
    gc.disable()
    t = time.time()
    try:
        r = fn(job)
        return (job, "ok", r, time.time() - t)
    except Inconclusive as e:
        return (job, "inconclusive", str(e), time.time() - t)
    except Exception as e:
        return (job, "error", traceback.format_exc()[-1500:], time.time() - t)

_FN = None
def _work2(job):
    return _work((job, _FN))

def parallel(jobs, fn, weight=None, n=None):
    """run fn(job) for every job in forked workers; -> list of (job, status, result, seconds)"""
    global _FN
    jobs = sorted(jobs, key=lambda j: -(weight(j) if weight else 0))
    n = n or min(8, os.cpu_count() or 1, len(jobs))
    if n <= 1 or os.environ.get("VERIF_SERIAL"):
        return [_work((j, fn)) for j in jobs]
    _FN = fn
    sys.stdout.flush()
    ctx = mp.get_context("fork")
    with ctx.Pool(n, maxtasksperchild=3) as pool:
        return list(pool.imap_unordered(_work2, jobs, chunksize=1))

# ---------------------------------------------------------------------------- invariants of the parser's parts
def option_pairs(P, selft):
    """ordered pairs of Option fields of one private part of the parser: (part, part type, i, j)"""
    ty = P.types[selft]
    out = []
    for p, f in enumerate(ty["variants"][0]["fields"]):
        t = P.types[f[1]]
        if t["k"] != "adt" or t.get("crate") != "yule_log" or t.get("enum"):
            continue
        fs = t["variants"][0]["fields"]
        os_ = [i for i, x in enumerate(fs) if P.types[x[1]]["k"] == "adt" and P.types[x[1]]["path"] == OPT]
        for i in os_:
            for j in os_:
                if i != j:
                    out.append((p, f[1], i, j))
    return out

def pair_cond(I_, P, v, selft, pair):
    """'part.i is Some implies part.j is Some' as a condition on the parser value v"""
    p, pt, i, j = pair
    ty = P.types[selft]
    fs = ty["variants"][0]["fields"]
    part = I_.proj1(v, ("f", 0, p, ty["path"], len(fs), fs[p][1]))
    t = P.types[pt]
    gs = t["variants"][0]["fields"]
    def is_some(k):
        x = I_.proj1(part, ("f", 0, k, t["path"], len(gs), gs[k][1]))
        return ieq(I_.discr(x, gs[k][1]), ONE)
    return or_(not_(is_some(i)), is_some(j))

def mut_methods(P):
    """public methods that can change a parser, other than next"""
    out = []
    for f in P.fns.values():
        if not f.local or not f.j.get("pub") or f.argc < 1 or f.closure:
            continue
        if f.j.get("impl_trait"):
            continue
        t = P.types[f.locals[1]]
        if t["k"] == "ref" and t["mut"] and P.types[t["to"]].get("path", "").split("::")[-1] == "ULogParser":
            out.append(f)
    out.sort(key=lambda f: (f.name, f.key.count("<"), len(f.key)))
    seen = {}
    for f in out:
        seen.setdefault(f.name, f)
    return list(seen.values())

def run_method(P, f, pairs=(), opts=None, extra=None):
    """public method with an arbitrary parser and arbitrary arguments -> (I, rets, self0)"""
    I_ = Interp(P, opts)
    st, fid = start(I_, f, [None] * f.argc)
    an = lambda i: "self" if i == 0 else (opts or {}).get("argname", "arg%d") % i
    for i in range(f.argc):
        tid = f.locals[i + 1]
        t = P.types[tid]
        if t["k"] == "ref":
            st.store[(fid, i + 1)] = mem_sym(I_, st, an(i), t["to"])
        else:
            v = mk("sym", an(i))
            I_.ann(v, tid)
            st.store[(fid, i + 1)] = v
            for y in I_.invariant(v, tid):
                st.facts = st.facts.assume(y)
    if ("s", "self") in st.store:
        self0 = st.store[("s", "self")]
        for p in pairs:
            st.facts = st.facts.assume(pair_cond(I_, P, self0, P.types[f.locals[1]]["to"], p))
    else:
        self0 = st.store[(fid, 1)] if f.argc else None
    rets = run_root(I_, f, st, fid)
    return I_, rets, self0

def invariants(P):
    """greatest set of option pairs kept by the constructor and every public method but next"""
    if hasattr(P, "_invariants"):
        return P._invariants
    P._invariants = _inv(P)
    return P._invariants

def _inv(P):
    f = one_fn(P, "next", "Iterator", "ULogParser")
    selft = P.types[f.locals[1]]["to"]
    pairs = option_pairs(P, selft)
    import nextq
    d, val, I0, rets = nextq.parser_init(P)
    pairs = [p for p in pairs if val is not None and val.op == "adt" and Facts().ev(pair_cond(I0, P, val, selft, p)) is True]
    inner = reach(P, [f])
    ms = [m for m in mut_methods(P) if m.key not in inner]
    while pairs:
        bad = set()
        for m in ms:
            try:
                I_, rets, s0 = run_method(P, m, pairs)
            except Inconclusive:
                return []
            for s, v in rets:
                v1 = s.store[("s", "self")]
                for p in pairs:
                    if s.facts.ev(pair_cond(I_, P, v1, P.types[m.locals[1]]["to"], p)) is not True:
                        bad.add(p)
        if not bad:
            break
        pairs = [p for p in pairs if p not in bad]
    return pairs

def heads(P):
    """the recursive functions that are entered from outside their cycle of calls"""
    import q_bounds
    inner = [k for k in reach(P, [one_fn(P, "next", "Iterator", "ULogParser")]) if P.fns[k].crate == "yule_log"]
    out = []
    for c in q_bounds.cycles(P, inner):
        for k in sorted(c):
            if "{closure" not in P.fns[k].path.split("::")[-1] and any(k in callees(P.fns[j]) for j in inner if j not in c):
                out.append(P.fns[k])
    return out

def root_run(P, f):
    """run_method, once per function"""
    c = P.__dict__.setdefault("_rootruns", {})
    if f.key not in c:
        c[f.key] = run_method(P, f, invariants(P))
    return c[f.key]

def recpost(P):
    """the recursive decoders that keep a byte cursor's length and only move it forward, by induction over their calls"""
    if hasattr(P, "_recpost"):
        return P._recpost
    P._recpost = set()
    fs = []
    for f in heads(P):
        a = [i for i in range(f.argc) if P.types[f.locals[i + 1]]["k"] == "ref" and P.types[f.locals[i + 1]]["mut"]
             and P.types[P.types[f.locals[i + 1]]["to"]]["k"] == "adt"]
        fs.append((f, a))
    cur = set(f.path for f, a in fs)
    while cur:
        P._recpost = cur
        P.__dict__["_rootruns"] = {}
        bad = set()
        for f, a in fs:
            if f.path not in cur:
                continue
            try:
                I_, rets, s0 = root_run(P, f)
                for i in a:
                    tid = P.types[f.locals[i + 1]]["to"]
                    n = ("s", "self" if i == 0 else "arg%d" % i)
                    old = s0 if i == 0 else mk("sym", n[1])
                    for s, v in rets:
                        for x in I_.cursor_post(s.store[n], old, tid):
                            if s.facts.ev(x) is not True:
                                bad.add(f.path)
            except Exception:
                bad.add(f.path)
        if not bad:
            break
        cur = cur - bad
    else:
        P._rootruns = {}
    P._recpost = cur
    return cur

def callees(f):
    """keys of the functions f refers to: called, or taken as values"""
    r = getattr(f, "_callees", None)
    if r is None:
        r = set()
        st = [f.j["blocks"]]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get("c") == "fn" and isinstance(x.get("f"), dict) and x["f"].get("key"):
                    r.add(x["f"]["key"])
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        for t in f.locals:
            ty = f.prog.types[t] if hasattr(f, "prog") else {}
            if ty.get("k") == "closure" and ty.get("key"):
                r.add(ty["key"])
        f._callees = r
    return r

def reach(P, fs):
    seen = set()
    st = [f.key for f in fs]
    while st:
        k = st.pop()
        if k in seen or k not in P.fns:
            continue
        seen.add(k)
        st.extend(callees(P.fns[k]))
    return seen
