"""Loop summaries: concrete unrolling where the trip count is a constant of the source, otherwise a
fixpoint over the loop-carried leaves with closed forms, accumulators and inferred bounds."""
from terms import *
import terms
from facts import Facts
import interp as ip
from interp import St, Inconclusive, BIG, LBIG

_lkeys = {}
def lkey(*k):
    r = _lkeys.get(k)
    if r is None:
        r = len(_lkeys) + 1
        _lkeys[k] = r
    return r

def remaining(v, d=0):
    """concrete number of items left in an iterator value, or None"""
    if v.op != "adt" or d > 6:
        return None
    p = v.args[0]
    a = v.args[2:]
    if p in ("it.slice", "it.own"):
        n = sub(a[2], a[1])
        return n.args[0] if n.op == "int" else None
    if p == "it.mut":
        n = sub(a[2], a[1])
        return n.args[0] if n.op == "int" else None
    if p == "core::ops::range::Range" and len(a) == 2:
        n = sub(a[1], a[0])
        return n.args[0] if n.op == "int" else None
    if p in ("it.map", "it.enum", "it.rev", "it.cloned", "it.filter", "it.fmap", "it.skip", "it.take", "it.peek", "it.takew", "it.skipw"):
        return remaining(a[0], d + 1)
    if p in ("it.zip",):
        x, y = remaining(a[0], d + 1), remaining(a[1], d + 1)
        if x is None:
            return y
        return x if y is None else min(x, y)
    if p == "it.chain":
        x, y = remaining(a[0], d + 1), remaining(a[1], d + 1)
        return None if x is None or y is None else x + y
    return None

def concrete_iter(I, st, key):
    fid = key[0]
    best = None
    for r, v in st.store.items():
        if r[0] in ("r",) or r[0] == fid:
            if v.op == "ref" and len(v.args) == 2:
                try:
                    v = I.rd(st, v.args[0], v.args[1])
                except Exception:
                    continue
            if v.op == "adt":
                n = remaining(v)
                if n is not None and 0 <= n <= 40:
                    best = n if best is None else max(best, n)
    return best

def unroll(I, st0, key, step, limit, strict):
    """iterate while every decision to stay or leave is concrete; None when it does not terminate"""
    mark = len(I.events)
    saved = I.uctx
    out = []
    cur = [st0]
    n = 0
    try:
        while cur:
            if n > limit:
                del I.events[mark:]
                return None
            I.uctx = saved + ((key, n),)
            nxt = []
            for s in cur:
                exits, backs = step(s)
                if strict and exits and backs:
                    del I.events[mark:]
                    return None
                out.extend(exits)
                nxt.extend(backs)
            cur = I.merge(nxt)
            if len(cur) > 400:
                del I.events[mark:]
                return None
            n += 1
    finally:
        I.uctx = saved
    return out

def abstract_loop(I, st0, key, step, fn):
    n = concrete_iter(I, st0, key)
    if n is not None:
        r = unroll(I, st0, key, step, n + 1, False)
        if r is not None:
            return r
    return fixpoint(I, st0, key, step, fn)

class Leaf:
    __slots__ = ("loc", "name", "init", "lv", "kind", "inc", "pieces", "tid")

def locname(loc):
    root, path = loc
    s = str(root[1]) if root[0] not in ("g", "s", "r") else str(root)
    for e in path:
        s += "." + (str(e[2]) if e[0] == "f" else e[0])
    return s

def type_of_loc(I, loc):
    root, path = loc
    tid = None
    if isinstance(root[0], int):
        info = ip._fidinfo[root[0]]
        f = I.P.fns.get(info[2]) if len(info) > 2 else None
        if f is not None:
            tid = f.locals[root[1]]
    elif root in I.stypes:
        tid = I.stypes[root]
    for e in path:
        if e[0] == "f" and len(e) > 5 and e[5] is not None:
            tid = e[5]
        else:
            tid = None
    return tid

def fixpoint(I, st0, key, step, fn):
    lk = lkey(key, I.uctx, I.kstack, frozenset(st0.store.items()))
    k = mk("lv", lk, "k", *I.kstack)
    RANGE[k] = (0, BIG)
    BITS[k] = (64, False)
    mark = len(I.events)
    leaves = {}
    closed = {}       # loc -> (init, inc)
    demoted = set()
    cands = None      # list of boolean terms over lvs
    rounds = 0
    phase = 0
    saved = I.kstack
    I.kstack = saved + (k,)
    I.loopdepth += 1
    # locations found to vary in an earlier visit of the same loop: only a starting point, every
    # classification below is verified
    gk = (fn.key if fn else None, key[1])
    guessed = {}
    for rel, g in list(I.leafguess.get(gk, {}).items()):
        loc = unrel(I, st0, rel)
        if loc is not None:
            add_leaf(I, st0, leaves, loc, lk, [])
            guessed[loc] = g
    def apply_guess():
        for loc, g in guessed.items():
            if loc not in leaves or g is None:
                return False
        if set(guessed) != set(leaves):
            return False
        for loc, g in guessed.items():
            L = leaves[loc]
            if g[0] == "closed":
                closed[loc] = (L.init, g[1])
                L.kind = "closed"
            elif g[0] == "acc":
                L.kind = "acc"
                L.pieces = None
                LENRANGE.setdefault(L.lv, (0, LBIG))
            else:
                L.kind = "lv"
        return True
    if leaves and apply_guess():
        phase = 1
    try:
        while True:
            rounds += 1
            if rounds > 40:
                raise Inconclusive("loop summary did not stabilise in " + (fn.path if fn else "?"))
            H = header(I, st0, leaves, closed, k)
            f = H.facts
            for c in (cands or []):
                f = f.assume(c)
                if f is None:
                    raise Inconclusive("inconsistent loop invariant")
            for L in leaves.values():
                if L.kind == "acc":
                    w = acc_width(L)
                    if w is not None:
                        f2 = f.assume(ieq(slen(L.lv), add(slen(L.init), mul(w, k))))
                        f = f2 or f
            H.facts = f
            del I.events[mark:]
            exits, backs = step(H)
            if not backs:
                if not leaves:
                    return exits
                break
            # --- leaves
            new = {}
            for b in backs:
                diff(I, H, b, leaves, closed, new)
            if new:
                for loc in new:
                    for l2 in list(leaves):
                        if l2[0] == loc[0] and l2[1][:len(loc[1])] == loc[1]:
                            del leaves[l2]
                            closed.pop(l2, None)
                    add_leaf(I, st0, leaves, loc, lk, backs)
                cands = None
                phase = 0
                closed.clear()
                for L in leaves.values():
                    L.kind = "lv"
                    L.pieces = None
                continue
            nexts = {loc: [I.rd(b, loc[0], loc[1]) for b in backs] for loc in leaves}
            if phase == 0:
                classify(I, leaves, closed, nexts, backs, demoted, H, k)
                phase = 1
                if closed or any(L.kind == "acc" for L in leaves.values()):
                    continue
            # --- verify closed forms and accumulators
            bad = [loc for loc, (ini, inc) in closed.items()
                   if not all(same(b, nx, ini if inc is None or inc is ZERO else add(ini, mul(inc, add(k, ONE)))) for nx, b in zip(nexts[loc], backs))]
            for loc, L in leaves.items():
                if L.kind == "acc":
                    ps = [acc_piece(nx, L.lv) for nx in nexts[loc]]
                    if any(p is None for p in ps):
                        bad.append(loc)
                    else:
                        first = L.pieces is None
                        L.pieces = ps
                        if first and acc_width(L) is not None:
                            phase = 1.5
            if bad:
                for loc in bad:
                    if not guessed:
                        demoted.add(loc)
                guessed.clear()
                closed.clear()
                for L in leaves.values():
                    L.kind = "lv"
                    L.pieces = None
                cands = None
                phase = 0
                continue
            if phase == 1.5:
                # the length of the accumulator is now known
                phase = 1
                if rounds < 3:
                    continue
            # --- inferred bounds: greatest subset of the candidates that is inductive
            if cands is None:
                cands = candidates(I, st0, H, leaves, closed, nexts, backs, k)
                cands = [c for c in cands if holds_init(I, st0, leaves, closed, k, c)]
                cands = houdini(I, cands, backs, leaves, closed, nexts, k)
                if cands:
                    continue
                break
            keep = houdini(I, cands, backs, leaves, closed, nexts, k)
            if len(keep) != len(cands):
                cands = keep
                continue
            break
    finally:
        I.kstack = saved
        I.loopdepth -= 1
    if backs:
        g = {}
        for loc, L in leaves.items():
            r = rel_loc(I, loc)
            if r is not None:
                g[r] = ("closed", closed[loc][1]) if loc in closed else (L.kind,)
        I.leafguess.setdefault(gk, {}).update(g)
    # ------------------------------------------------------------------ summary
    kx = mk("lvx", lk, "k", *saved)
    RANGE[kx] = (0, BIG)
    BITS[kx] = (64, False)
    nexts = {loc: [I.rd(b, loc[0], loc[1]) for b in backs] for loc in leaves} if backs else {}
    conds = [conj(b.facts.lits - H.facts.lits) for b in backs]
    I.loops[lk] = {"fn": fn.path if fn else None, "key": key, "leaves": leaves, "closed": dict(closed), "nexts": nexts, "conds": conds,
                   "backs": backs, "init": st0, "header": H, "k": k, "kx": kx}
    m = {k: kx}
    inner = {}
    for loc, L in leaves.items():
        if L.kind == "lv":
            if L.init.op in ("mnew", "setof"):
                ps = [set_piece(v, L.lv) for v in nexts[loc]]
                if ps and all(p is not None for p in ps):
                    # a set that only grows: one element per iteration
                    L.pieces = ps
                    inner[L.lv] = mk("lvat", lk, L.name, k, *saved)
                    terms._copy(L.lv, inner[L.lv])
                    continue
            x = mk("lvx", lk, L.name, *saved)
            terms._copy(L.lv, x)
            m[L.lv] = x
            inner[L.lv] = mk("lvat", lk, L.name, k, *saved)
            terms._copy(L.lv, inner[L.lv])
    for loc, L in leaves.items():
        if L.kind == "acc":
            inner[L.lv] = mk("lvat", lk, L.name, k, *saved)
            terms._copy(L.lv, inner[L.lv])
    for loc, L in leaves.items():
        if L.kind == "acc" or (L.kind == "lv" and L.init.op in ("mnew", "setof") and L.lv not in m):
            ps = L.pieces or []
            alts = []
            seen = {}
            for c, p in zip(conds, ps):
                p2, c2 = subst(p, inner), subst(c, inner)
                if p2 in seen:
                    seen[p2] = or_(seen[p2], c2)
                else:
                    seen[p2] = c2
            alts = [(c, p) for p, c in seen.items()]
            if L.kind == "acc":
                m[L.lv] = cat(L.init, star(kx, alts, k))
            else:
                m[L.lv] = mk("setof", cat(L.init.args[0] if L.init.op == "setof" else EMPTY, star(kx, alts, k)))
            I.loops[lk].setdefault("acc", {})[loc] = m[L.lv]
    out = []
    for tgt, s in exits:
        memo = {}
        store = {r: subst(v, m, memo) for r, v in s.store.items()}
        f = s.facts.rename(m)
        if f is None:
            continue
        # a counter fixed by the exit condition
        out.append((tgt, St(store, f)))
    return merge_exits(I, out)

def merge_exits(I, out):
    by = {}
    order = []
    for t, s in out:
        if t not in by:
            by[t] = []
            order.append(t)
        by[t].append(s)
    r = []
    for t in order:
        for s in I.merge(by[t]):
            r.append((t, s))
    return r

def conj(ls):
    r = TRUE
    for l in sorted(ls, key=lambda x: x.id):
        r = and_(r, l)
    return r

def same(b, x, y):
    return x is y or b.facts.same(x, y)

def set_piece(v, lv):
    """the elements (or entries) an iteration adds to the set (map) lv, None if it does anything else to it"""
    ks = []
    while v.op == "mins":
        ks.append(one(v.args[1] if v.args[2] is terms.UNIT else terms.tup(v.args[1], v.args[2])))
        v = v.args[0]
    return cat(*reversed(ks)) if v is lv else None

def acc_width(L):
    if L.pieces is None:
        return None
    w = None
    for p in L.pieces:
        n = slen(p)
        if n.op != "int" or (w is not None and n is not w):
            return None
        w = n
    return w

def header(I, st0, leaves, closed, k):
    s = st0.copy()
    for loc, L in leaves.items():
        if loc in closed:
            ini, inc = closed[loc]
            v = ini if inc is None or inc is ZERO else add(ini, mul(inc, k))
        else:
            v = L.lv
        I.wr(s, loc[0], loc[1], v)
    return s

def add_leaf(I, st0, leaves, loc, lk, backs):
    L = Leaf()
    L.loc = loc
    L.name = locname(loc)
    L.init = I.rd(st0, loc[0], loc[1])
    L.kind = "lv"
    L.inc = None
    L.pieces = None
    L.lv = mk("lv", lk, L.name, *I.kstack[:-1])
    tid = type_of_loc(I, loc)
    L.tid = tid
    nx = [I.rd(b, loc[0], loc[1]) for b in backs]
    if tid is not None:
        I.ann(L.lv, tid)
    vals = [L.init] + nx
    if tid is None:
        if all(is_seq(v) for v in vals):
            LENRANGE.setdefault(L.lv, (0, LBIG))
        elif all(is_int(v) for v in vals):
            BITS.setdefault(L.lv, (64, False))
            lo = min((trange(v)[0] if trange(v)[0] is not None else -BIG) for v in vals)
            RANGE.setdefault(L.lv, (0 if lo >= 0 else -BIG * 2, BIG * 4))
        elif all(v.op == "adt" or v in terms.TYPE for v in vals):
            for v in vals:
                if v in terms.TYPE:
                    terms.TYPE[L.lv] = terms.TYPE[v]
    leaves[loc] = L

def rel_loc(I, loc):
    """a store location named by the function owning the frame"""
    root, path = loc
    for e in path:
        if e[0] != "f":
            return None
    if isinstance(root[0], int):
        info = ip._fidinfo[root[0]]
        return ("l", info[2], root[1], path) if len(info) > 2 else None
    if root[0] in ("g", "s"):
        return ("x", root, None, path)
    return None

def unrel(I, st0, rel):
    if rel[0] == "x":
        root = rel[1]
    else:
        root = next(((fid, rel[2]) for g, fid in I.frames if g == rel[1]), None)
    if root is None or root not in st0.store:
        return None
    v = st0.store[root]
    for e in rel[3]:
        if v is ip.UNDEF:
            return None
        if v.op == "adt":
            if v.args[0] != e[3] or v.args[1] != e[1] or len(v.args) - 2 != e[4]:
                return None
            v = v.args[2 + e[2]]
        elif v.op in ("ref", "vref", "int", "lin", "bool"):
            return None
        else:
            t = terms.TYPE.get(v)
            if t is None or I.P.types[t].get("path") != e[3] or I.P.types[t].get("enum"):
                return None
            v = I.proj1(v, e)
    if v is ip.UNDEF or v.op in ("ref",):
        return None
    return (root, rel[3])

def diff(I, H, b, leaves, closed, new):
    for root, h in H.store.items():
        v = b.store.get(root)
        if v is None:
            if root[0] == "r":
                continue
            v = ip.UNDEF
        if v is h:
            continue
        diffv(I, b, (root, ()), h, v, leaves, new)

def diffv(I, b, loc, h, v, leaves, new):
    if h is v or loc in leaves or loc in new:
        return
    if h.op == "adt" and v.op == "adt" and h.args[0] == v.args[0] and h.args[1] == v.args[1] and len(h.args) == len(v.args):
        p = h.args[0]
        n = len(h.args) - 2
        tids = ftids(I, loc, h, n)
        for i in range(n):
            diffv(I, b, (loc[0], loc[1] + (("f", h.args[1], i, p, n, tids[i]),)), h.args[2 + i], v.args[2 + i], leaves, new)
        return
    t = h if h.op != "adt" and h.op != "lv" and h in terms.TYPE else (v if h.op == "adt" and v.op != "adt" and v in terms.TYPE else None)
    if t is not None and (h.op == "adt" or v.op == "adt" or v in terms.TYPE):
        ty = I.P.types[terms.TYPE[t]]
        o = v if t is h else h
        if ty["k"] == "adt" and not ty["enum"] and len(ty["variants"]) == 1 and ty["path"] not in ip.SEQTYPES and ty["variants"][0]["fields"] and \
                not ty["path"].startswith(("std::", "hashbrown::")) and (o.op != "adt" or ty["path"] == o.args[0]) and (o.op == "adt" or terms.TYPE[o] == terms.TYPE[t]):
            fs = ty["variants"][0]["fields"]
            n = len(fs)
            for i in range(n):
                e = ("f", 0, i, ty["path"], n, fs[i][1])
                diffv(I, b, (loc[0], loc[1] + (e,)), I.proj1(h, e), I.proj1(v, e), leaves, new)
            return
    if b.facts.same(h, v):
        return
    new[loc] = True

def ftids(I, loc, h, n):
    tid = type_of_loc(I, loc)
    if tid is not None:
        ty = I.P.types[I.strip(tid)]
        if ty["k"] == "adt" and ty["path"] == h.args[0] and ty["variants"]:
            return [f[1] for f in ty["variants"][h.args[1]]["fields"]]
        if ty["k"] == "tuple" and len(ty["fields"]) == n:
            return list(ty["fields"])
        if ty["k"] == "closure" and len(ty["upvars"]) == n:
            return list(ty["upvars"])
    return [None] * n

def acc_piece(nx, lv):
    if nx is lv:
        return EMPTY
    if nx.op == "cat" and nx.args[0] is lv:
        rest = cat(*nx.args[1:])
        if not mentions_direct(rest, lv):
            return rest
    return None

def mentions_direct(t, x):
    return mentions(t, x) and False

def classify(I, leaves, closed, nexts, backs, demoted, H, k):
    for loc, L in leaves.items():
        nx = nexts[loc]
        if loc in demoted:
            L.kind = "lv"
            continue
        if all(v is L.lv or b.facts.same(v, L.lv) for v, b in zip(nx, backs)):
            closed[loc] = (L.init, None)
            L.kind = "closed"
            continue
        if is_int(L.lv):
            inc = None
            okk = True
            for v, b in zip(nx, backs):
                d = b.facts.red(sub(v, L.lv)) if v is not L.lv else ZERO
                if d.op != "int":
                    d = sub(v, L.lv)
                if d.op != "int" or (inc is not None and d is not inc):
                    okk = False
                    break
                inc = d
            if okk and inc is not None:
                closed[loc] = (L.init, inc)
                L.kind = "closed"
                continue
        if is_seq(L.lv) or all(acc_piece(v, L.lv) is not None for v in nx):
            ps = [acc_piece(v, L.lv) for v in nx]
            if all(p is not None for p in ps):
                L.kind = "acc"
                L.pieces = ps
                LENRANGE.setdefault(L.lv, (0, LBIG))
                continue
        L.kind = "lv"

def candidates(I, st0, H, leaves, closed, nexts, backs, k):
    out = []
    seen = set()
    def push(c):
        if c.op != "bool" and c not in seen:
            seen.add(c)
            out.append(c)
    ints = [(k, ZERO, [add(k, ONE)] * len(backs))]
    for loc, L in leaves.items():
        if L.kind == "closed":
            continue
        if is_int(L.lv):
            ints.append((L.lv, L.init, nexts[loc]))
            push(ge0(sub(L.lv, L.init)))
            push(ge0(sub(L.init, L.lv)))
            if L.init.op not in ("int",):
                for l in st0.facts.lits:
                    if mentions(l, L.init):
                        push(subst(l, {L.init: L.lv}))
        elif is_seq(L.lv):
            ints.append((slen(L.lv), slen(L.init), [slen(x) for x in nexts[loc]]))
            push(ge0(sub(slen(L.lv), slen(L.init))))
            push(ge0(sub(slen(L.init), slen(L.lv))))
            for l in st0.facts.lits:
                if mentions(l, slen(L.init)) and slen(L.init).op != "int":
                    push(subst(l, {slen(L.init): slen(L.lv)}))
        elif L.lv in terms.TYPE and I.P.types[terms.TYPE[L.lv]]["k"] == "bool":
            if L.init.op == "bool":
                push(eq(L.lv, L.init))
        elif L.lv in terms.TYPE and I.P.types[terms.TYPE[L.lv]]["k"] == "adt":
            if I.invariant(L.lv, terms.TYPE[L.lv]):
                for x in I.cursor_post(L.lv, L.init, terms.TYPE[L.lv]):
                    push(x)
                continue
            d = I.discr(L.lv, terms.TYPE[L.lv])
            di = I.discr(L.init, terms.TYPE[L.lv])
            push(ieq(d, di))
    seenp = set()
    for loc in leaves:
        root, path = loc
        for n in range(len(path), -1, -1):
            pl = (root, path[:n])
            if pl in seenp:
                continue
            seenp.add(pl)
            v = I.rd(H, root, path[:n])
            if v.op != "adt" or not v.args[0].startswith("yule_log"):
                continue
            tid = I.tid_of(v, None)
            if tid is not None:
                for c in I.invariant(v, tid):
                    push(c)
    for lv, init, nx in ints:
        for v, b in zip(nx, backs):
            d = sub(v, lv)
            for q in b.facts.ineqs:
                c, dd = _parts(q)
                a = dd.get(lv)
                if not a:
                    continue
                C = sub(q, scale(d, a))
                push(ge0(C))
    # pairs of leaves that move together
    for i in range(len(ints)):
        for j in range(i + 1, len(ints)):
            a, ai, an = ints[i]
            b_, bi, bn = ints[j]
            if a.op == "int" or b_.op == "int":
                continue
            da = [sub(x, a) for x in an]
            db = [sub(x, b_) for x in bn]
            if all(x.op == "int" for x in da + db):
                if all(sub(x, y) is ZERO for x, y in zip(da, db)):
                    push(ieq(sub(a, ai), sub(b_, bi)))
                elif all(add(x, y) is ZERO for x, y in zip(da, db)):
                    push(ieq(add(a, b_), add(ai, bi)))
                elif all(sub(x, y).args[0] >= 0 for x, y in zip(da, db)):
                    push(ge0(sub(sub(a, ai), sub(b_, bi))))
                elif all(sub(y, x).args[0] >= 0 for x, y in zip(da, db)):
                    push(ge0(sub(sub(b_, bi), sub(a, ai))))
    return out

def _parts(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}

def houdini(I, cands, backs, leaves, closed, nexts, k):
    """drop candidates until the rest is preserved by every pass through the body"""
    cands = list(cands)
    while cands:
        drop = set()
        for j, b in enumerate(backs):
            f = b.facts
            for c in cands:
                f = f.assume(c)
                if f is None:
                    break
            if f is None:
                continue
            s = St(b.store, f)
            for c in cands:
                if c not in drop and not holds_next(s, leaves, closed, nexts, j, k, c):
                    drop.add(c)
        if not drop:
            return cands
        cands = [c for c in cands if c not in drop]
    return cands

def inst(leaves, closed, k, vals, kv, c):
    m = {k: kv}
    for loc, L in leaves.items():
        if loc not in closed:
            m[L.lv] = vals[loc]
    return subst(c, m)

def holds_init(I, st0, leaves, closed, k, c):
    try:
        x = inst(leaves, closed, k, {loc: L.init for loc, L in leaves.items()}, ZERO, c)
    except Exception:
        return False
    return st0.facts.ev(x) is True

def holds_next(b, leaves, closed, nexts, j, k, c):
    x = inst(leaves, closed, k, {loc: nexts[loc][j] for loc in leaves}, add(k, ONE), c)
    return b.facts.ev(x) is True
