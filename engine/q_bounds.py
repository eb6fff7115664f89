"""C02: recursion, allocation and iteration are bounded by the message's own bytes."""
from terms import *
import terms, roots
from ck import Col, short
from nextq import *
import q_data as D, q_fields as F

MAXDEPTH = 1024
MAXCONST = 1 << 16

def lens(f):
    """lengths the facts speak about"""
    out = set()
    for l in f.lits:
        for x in F.walk(l):
            if x.op in ("len", "capn"):
                out.add(x)
            elif x.op == "le" and x.args[0] == "u16":
                out.add(x)
            elif x.op == "at":
                out.add(x)
    return out

def is_input(I_, P, x):
    """a length fixed before the loop or call in question: of a sequence that exists, or a stored byte or u16"""
    if x.op in ("le", "at"):
        return x in BITS and BITS[x][0] <= 16 or x.op == "le" and x.args[0] in ("u8", "u16")
    return x.op == "capn" or x.args[0].op not in ("rep", "enc")

def bounded(f, n, I_, P, extra=(), no=()):
    """an upper bound of n among the lengths of what already exists: term, or None"""
    lo, hi = f.interval(n)
    if hi is not None and hi <= MAXCONST:
        return I(hi)
    if n.op == "len" and is_input(I_, P, n) and not any(y in no for y in F.walk(n)):
        return n
    for u in list(extra) + sorted(lens(f), key=lambda x: x.id):
        if u in no or not (u in extra or is_input(I_, P, u)):
            continue
        if any(y in no for y in F.walk(u)):
            continue
        if f.ge(sub(u, n)) is True:
            return u
    return None

def declared(n):
    """does a number depend on an array size written in a definition?"""
    return any(x.op == "fld" and x.args[0].op == "fld" and str(x.args[3]) == OPT and "TypeExpr" in str(x.args[0].args) for x in F.walk(n))

def judge_allocs(P, I_, col, size, what):
    for e in I_.events:
        if e.kind != "alloc":
            continue
        col.count("allocations analysed")
        n = e.data
        f = e.st.facts
        if not isinstance(n, T):
            col.ob(None, "allocation", "amount not visible: %s" % e.detail)
            continue
        u = bounded(f, n, I_, P, (size,) if size is not None else ())
        fn = e.fn.path if e.fn else "?"
        col.ob(True if u is not None else (False if declared(n) else None), "allocation in %s" % fn, "%s allocates for %s elements, which nothing bounds by the bytes of the message (%s, %s)" % (fn, short(n), e.line, what),
               sample="%s: %s <= %s" % (fn.split("::")[-1], short(n, 60), short(u, 60) if u is not None else "?"))

def judge_loops(P, I_, col, size, what, used=None):
    for lid, l in I_.loops.items():
        if not l["backs"]:
            continue
        r = shrinks(l)
        if r is not None:
            col.count("loop iterations analysed", len(l["backs"]))
            col.ob(True, "", sample="%s: every iteration shortens %s" % (str(l["fn"]).split("::")[-1], r))
            continue
        accs = [lf.lv for lf in l["leaves"].values() if lf.kind == "acc"]
        for s in l["backs"]:
            f = s.facts
            col.count("loop iterations analysed")
            k1 = add(l["k"], ONE)
            u = bounded(f, k1, I_, P, (size,) if size is not None else (), accs)
            if u is None:
                # number of elements of an input list: k < len(list)
                u = bounded(f, l["k"], I_, P, (size,) if size is not None else (), accs)
            ok = True if u is not None else None
            if u is None:
                # bound by a number from a definition only?
                big = [x for x in F.walk(conj_terms(f)) if False]
                ok = False if any(declared(t) for t in ge_terms(f) if l["k"] in set(F.walk(t))) else None
            col.ob(ok, "loop in %s" % l["fn"], "a loop in %s runs without a bound by the bytes of the message (%s)" % (l["fn"], what), sample="%s: k <= %s" % (str(l["fn"]).split("::")[-1], short(u, 60) if u is not None else "?"))

def shrinks(l):
    """a sequence that every iteration makes shorter"""
    for loc, lf in l["leaves"].items():
        if lf.kind == "lv" and is_seq(lf.lv):
            if all(is_seq(v) and s.facts.ge(sub(sub(slen(lf.lv), slen(v)), ONE)) is True for s, v in zip(l["backs"], l["nexts"][loc])):
                return short(lf.init, 60)
    return None

def conj_terms(f):
    return TRUE

def ge_terms(f):
    return [l.args[0] for l in f.lits if l.op == "ge0"]

def c02(n, col):
    P, I_ = n.P, n.I
    judge_allocs(P, I_, col, n.size, n.label())
    judge_loops(P, I_, col, n.size, n.label())
    for k, g in F.nested_fn(I_).items():
        col.put("nested", g.key)
    if n.cls == "D":
        ft = D.formats_table(n)
        if ft is None or D.subs_table(n) is None:
            return
        fmt = mk("mget", ft[4](n.self0), D.sub_field(n, D.subscription(n), "message_name"))
        done = set()
        for o in F.data_out(n):
            col.count("decoded data items")
            for fl in F.field_loops(P, I_, get(P, get(P, unref(o.msg.args[2]), "data"), "fields"), fmt):
                if fl.lid not in done:
                    done.add(fl.lid)
                    progress(fl, col, "a data message")

def progress(fl, col, what):
    """a nested value uses up at least one byte, or elements without end fit in nothing"""
    l = fl.l
    if fl.buf is None:
        return col.ob(None, "progress", "cursor not visible")
    for i, s in enumerate(l["backs"]):
        f = s.facts
        if fl.base_of(f) != "OTHER":
            continue
        col.count("nested values analysed")
        nb, nc = l["nexts"][fl.bufloc][i], l["nexts"][fl.curloc][i]
        if f.zero(fl.ad) is True:
            before, after = sub(slen(fl.buf), fl.cur), sub(slen(nb), nc)
            ok = f.ge(sub(sub(before, after), ONE))
            if f.zero(before) is True and nc is fl.cur:
                ok = True
            col.ob(True if ok else (False if ok is False or not asks(f, nb, nc) else None), "nested progress", "a nested value may use up no bytes (%s)" % what, sample="nested value: remaining bytes decrease")
            continue
        ids = [y.args[0] for y in F.walk(nc) if y.op == "lvx" and y.args[1] != "k"]
        l2 = fl.I.loops.get(ids[0]) if ids else None
        if l2 is None:
            if nc is not fl.cur:
                col.ob(None, "nested progress", "the loop over the elements is not visible (%s)" % what)
            continue
        lb = [lf for lf in l2["leaves"].values() if lf.kind == "lv" and lf.init is fl.buf]
        lc = [lf for lf in l2["leaves"].values() if lf.kind == "lv" and lf.init is fl.cur]
        if len(lb) != 1 or len(lc) != 1:
            col.ob(None, "nested progress", "the cursor of the loop over the elements is not visible (%s)" % what)
            continue
        for j, s2 in enumerate(l2["backs"]):
            nb2, nc2 = l2["nexts"][lb[0].loc][j], l2["nexts"][lc[0].loc][j]
            before, after = sub(slen(lb[0].lv), lc[0].lv), sub(slen(nb2), nc2)
            ok = s2.facts.ge(sub(sub(before, after), ONE))
            col.ob(True if ok else (False if ok is False or not asks(s2.facts, nb2, nc2) else None), "nested element progress", "an element of a nested array may use up no bytes (%s)" % what, sample="nested element: remaining bytes decrease")

def asks(f, nb, nc):
    """do the facts speak about the cursor after the call at all?"""
    return any(nc in set(F.walk(l)) for l in f.lits)

def c02_end(col, init):
    col.floor("decoded data items", 1, "decoded data messages")
    col.floor("allocations analysed", 3, "allocations")
    col.floor("loop iterations analysed", 20, "loop iterations")
    col.floor("nested values analysed", 2, "nested values")

def c02_also(P, col, tier):
    f = roots.one_fn(P, "next", "Iterator", "ULogParser")
    inner = roots.reach(P, [f])
    loc = [k for k in inner if P.fns[k].crate == "yule_log"]
    heads = set(col.data.get("nested", []))
    sccs = cycles(P, loc)
    for c in sccs:
        col.count("call cycles")
        names = sorted(P.fns[k].path for k in c)
        # every way round the cycle passes a judged function: without them no cycle is left
        left = cycles(P, [k for k in c if k not in heads])
        col.ob(True if not left else None, "cycle " + names[0], "a cycle of calls was not met by the analysis: %s" % ", ".join(sorted(P.fns[k].path for k in (left[0] if left else []))), sample="call cycle: " + ", ".join(x.split("::")[-1] for x in names))
    for key in sorted(heads):
        g, I_, rets, s0, selft, fa = F.nested_run(P, key)
        judge_allocs(P, I_, col, None, g.path)
        judge_loops(P, I_, col, None, g.path)
        depth(P, g, I_, col)
        if fa is not None and s0 is not None:
            for g2, I2, ok, ft, formats, inc, s02, st2 in F.nested_all(P, one(col, key)):
                done = set()
                for s, v in ok:
                    fs = get(P, v, "fields")
                    for fl in (F.field_loops(P, I2, fs, ft) if fs is not None else []):
                        if fl.lid not in done:
                            done.add(fl.lid)
                            progress(fl, col, "a nested value")

def one(col, key):
    c = Col()
    c.data["nested"] = [key]
    return c

def depth(P, g, I_, col):
    """an integer argument that every recursive call moves towards a constant limit"""
    calls = [e for e in I_.events if e.kind == "rcall" and e.data[0].key == g.key]
    col.count("recursive calls analysed", len(calls))
    ints = [i for i in range(g.argc) if P.types[g.locals[i + 1]]["k"] == "int"]
    best = None
    why = []
    for i in ints:
        a = mk("sym", "arg%d" % i)
        limit = 0
        ok = bool(calls)
        for e in calls:
            x = e.data[1][i]
            f = e.st.facts
            lo, hi = f.interval(a)
            if f.ge(sub(x, add(a, ONE))) is True and hi is not None and hi < (1 << 31):
                limit = max(limit, hi + 1)
            elif f.ge(sub(sub(a, ONE), x)) is True and lo is not None and lo >= 1:
                limit = None     # falls towards zero: bounded by where it starts
            else:
                ok = False
                why.append("argument %d becomes %s with %s <= it <= %s" % (i, short(x, 60), lo, hi))
                break
            if limit is None:
                break
        if ok:
            best = (i, limit)
    if not calls:
        return
    if best is None:
        col.ob(False, "recursion of %s" % g.path, "%s calls itself (through %s) without an argument that is bounded: %s" % (g.path, calls[0].fn.path if calls[0].fn else "?", "; ".join(why[:3]) or "it has no depth"))
    elif best[1] is None:
        col.ob(None, "recursion of %s" % g.path, "the depth of %s falls towards zero from a start that was not examined" % g.path)
    else:
        col.ob(best[1] <= MAXDEPTH, "recursion of %s" % g.path, "%s calls itself up to %d deep" % (g.path, best[1]), sample="%s: argument %d rises with every level, at most %d levels" % (g.path.split("::")[-1], best[0], best[1]))
        # where it starts
def cycles(P, keys):
    keys = set(keys)
    idx, low, on, st, out = {}, {}, set(), [], []
    n = [0]
    def go(v):
        work = [(v, iter(sorted(x for x in roots.callees(P.fns[v]) if x in keys)))]
        idx[v] = low[v] = n[0]; n[0] += 1
        st.append(v); on.add(v)
        while work:
            v, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]; n[0] += 1
                    st.append(w); on.add(w)
                    work.append((w, iter(sorted(x for x in roots.callees(P.fns[w]) if x in keys))))
                    break
                elif w in on:
                    low[v] = min(low[v], idx[w])
            else:
                work.pop()
                if work:
                    u = work[-1][0]
                    low[u] = min(low[u], low[v])
                if low[v] == idx[v]:
                    c = set()
                    while True:
                        w = st.pop(); on.discard(w); c.add(w)
                        if w == v:
                            break
                    if len(c) > 1 or not P.fns[v].closure and v in set(roots.callees(P.fns[v])):
                        out.append(c)
    for k in sorted(keys):
        if k not in idx:
            go(k)
    return out
