"""Facts: a conjunction of boolean terms with a small decision procedure (equalities solved for an
atom, integer intervals, capped Fourier-Motzkin elimination).  Immutable; `assume` returns a new
object, or None when the conjunction is recognised as contradictory."""
from math import gcd
from terms import *

class Facts:
    __slots__ = ("lits", "eqs", "ineqs", "neqs", "pos", "neg", "clauses", "_memo", "par", "depth")

    def __init__(self, lits=frozenset(), eqs=None, ineqs=(), neqs=frozenset(), pos=frozenset(), neg=frozenset(), clauses=()):
        self.lits = lits
        self.eqs = eqs or {}
        self.ineqs = ineqs
        self.neqs = neqs
        self.pos = pos
        self.neg = neg
        self.clauses = clauses
        self._memo = {}
        self.par = None
        self.depth = 0

    # --------------------------------------------------------------- arithmetic
    def red(self, t):
        """reduce the atoms of an integer term by the solved equalities"""
        if not self.eqs:
            return t
        c, d = lin_parts(t)
        if not any(a in self.eqs for a in d):
            return t
        r = I(c)
        for a, k in d.items():
            r = add(r, scale(self.eqs.get(a, a), k))
        return r

    def interval(self, t):
        t = self.red(t)
        lo, hi = trange(t)
        for q in self.ineqs:
            d = sub(t, q)
            if d.op == "int":          # t = q + c, q >= 0
                c = d.args[0]
                if lo is None or c > lo:
                    lo = c
            d = add(t, q)
            if d.op == "int":          # t = c - q
                c = d.args[0]
                if hi is None or c < hi:
                    hi = c
        return lo, hi

    def ge(self, t):
        """True / False / None for t >= 0"""
        t = self.red(t)
        lo, hi = trange(t)
        if lo is not None and lo >= 0:
            return True
        if hi is not None and hi < 0:
            return False
        key = ("ge", t)
        r = self._memo.get(key, 0)
        if r != 0:
            return r
        r = None
        if self._entails(t):
            r = True
        elif self._entails(sub(I(-1), t)):
            r = False
        self._memo[key] = r
        return r

    def _entails(self, t):
        """do the inequalities entail t >= 0 (t already reduced)"""
        neg = sub(I(-1), t)           # -t-1 >= 0
        return _infeasible(neg, self.ineqs, self)

    def zero(self, t):
        t = self.red(t)
        if t.op == "int":
            return t.args[0] == 0
        lo, hi = trange(t)
        if (lo is not None and lo > 0) or (hi is not None and hi < 0):
            return False
        e = ieq(t, ZERO)
        if e.op == "bool":
            return e.args[0]
        if e.op == "eq0":
            if e.args[0] in self.neqs:
                return False
        elif e in self.pos:
            return True
        elif e in self.neg:
            return False
        elif e.op == "not" and e.args[0] in self.pos:
            return False
        elif e.op == "not" and e.args[0] in self.neg:
            return True
        key = ("z", t)
        r = self._memo.get(key, 0)
        if r != 0:
            return r
        a = self.ge(t)
        b = self.ge(scale(t, -1))
        r = None
        if a is False or b is False:
            r = False
        elif a and b:
            r = True
        self._memo[key] = r
        return r

    # --------------------------------------------------------------- queries
    def ev(self, b):
        o = b.op
        if o == "bool":
            return b.args[0]
        if o == "ge0":
            return self.ge(b.args[0])
        if o == "eq0":
            return self.zero(b.args[0])
        if o == "not":
            r = self.ev(b.args[0])
            return None if r is None else not r
        if o == "and":
            x = self.ev(b.args[0])
            if x is False:
                return False
            y = self.ev(b.args[1])
            if y is False:
                return False
            if x and y:
                return True
            if b in self.pos:
                return True
            if b in self.neg:
                return False
            return None
        if b in self.pos:
            return True
        if b in self.neg:
            return False
        if o == "eq":
            x, y = b.args
            if y.op == "lit" or x.op == "lit":
                if x.op == "lit":
                    x, y = y, x
                for p in self.pos:
                    if p.op == "eq" and x in p.args:
                        z = p.args[0] if p.args[1] is x else p.args[1]
                        if z.op == "lit":
                            return z is y
            if is_seq(x) or is_seq(y):
                if self.zero(sub(slen(x), slen(y))) is False:
                    return False
            x2, y2 = self.norm(x), self.norm(y)
            if x2 is not x or y2 is not y:
                e = eq(x2, y2)
                if e is not b:
                    return self.ev(e)
        return None

    def norm(self, t):
        """rewrite integer atoms by the solved equalities everywhere inside t"""
        if not self.eqs:
            return t
        m = {a: v for a, v in self.eqs.items()}
        k = ("n", t)
        r = self._memo.get(k)
        if r is None:
            r = subst(t, m)
            for _ in range(3):
                r2 = subst(r, m)
                if r2 is r:
                    break
                r = r2
            self._memo[k] = r
        return r

    def same(self, a, b):
        if a is b:
            return True
        if self.norm(a) is self.norm(b):
            return True
        if is_int(a) or is_int(b):
            return self.zero(sub(a, b)) is True
        return False

    # --------------------------------------------------------------- assume
    def assume(self, b):
        key = ("as", b)
        f = self._memo.get(key, 0)
        if f != 0:
            return f
        f = self._assume(b)
        if f is not None and f is not self:
            f.par = self
            f.depth = self.depth + 1
        self._memo[key] = f
        return f

    def _assume(self, b):
        r = self.ev(b)
        if r is True:
            return self
        if r is False:
            return None
        f = self._add(b)
        if f is None:
            return None
        # unit propagation over clauses
        ch = True
        n = 0
        while ch and f.clauses and n < 8:
            ch = False
            n += 1
            keep = []
            units = []
            for c in f.clauses:
                live = []
                sat_ = False
                for x in c:
                    v = f.ev(x)
                    if v is True:
                        sat_ = True
                        break
                    if v is None:
                        live.append(x)
                if sat_:
                    continue
                if not live:
                    return None
                if len(live) == 1:
                    units.append(live[0])
                else:
                    keep.append(tuple(live))
            if units:
                ch = True
                g = f._copy()
                g.clauses = tuple(keep)
                f = g
                for u in units:
                    v = f.ev(u)
                    if v is True:
                        continue
                    if v is False:
                        return None
                    f = f._add(u)
                    if f is None:
                        return None
        return f

    def _copy(self):
        return Facts(self.lits, self.eqs, self.ineqs, self.neqs, self.pos, self.neg, self.clauses)

    def _add(self, b):
        o = b.op
        if o == "and":
            f = self._copy()
            f.pos = self.pos | {b}
            for x in b.args:
                f = f.assume(x)
                if f is None:
                    return None
            return f
        f = self._copy()
        f.lits = self.lits | {b}
        if o == "ge0":
            t = self.red(b.args[0])
            f.ineqs = self.ineqs + (t,)
            # t >= 0 and -t >= 0  ->  equality
            if self.ge(scale(t, -1)):
                return f._solve(t)
            # tighten with disequality
            for c in (t,):
                e = ieq(c, ZERO)
                if e.op == "eq0" and e.args[0] in self.neqs:
                    g = f.assume(ge0(sub(c, ONE)))
                    return g
            return f
        if o == "eq0":
            return f._solve(self.red(b.args[0]))
        if o == "not":
            x = b.args[0]
            if x.op == "eq0":
                t = self.red(x.args[0])
                e = ieq(t, ZERO)
                if e.op == "bool":
                    return None if e.args[0] else f
                if e.op != "eq0":
                    return f.assume(not_(e))
                f.neqs = self.neqs | {e.args[0]}
                # finite-range reasoning: bounds that touch the excluded value
                lo, hi = f.interval(e.args[0])
                if lo == 0:
                    return f.assume(ge0(sub(e.args[0], ONE)))
                if hi == 0:
                    return f.assume(ge0(sub(I(-1), e.args[0])))
                return f._last(e.args[0])
            if x.op == "and":
                f.neg = self.neg | {x}
                f.clauses = self.clauses + (tuple(not_(y) for y in _conj(x)),)
                return f
            f.neg = self.neg | {x}
            return f
        f.pos = self.pos | {b}
        if o == "eq":
            x, y = b.args
            if is_seq(x) or is_seq(y):
                return f.assume(ieq(slen(x), slen(y)))
        return f

    def _last(self, t):
        """all but one value of a small-range atom excluded -> equality"""
        c, d = lin_parts(t)
        if len(d) != 1:
            return self
        (a, k), = d.items()
        if a.op != "discr":
            return self
        vals = DISCRS.get(a)
        if not vals:
            return self
        left = []
        for v in vals:
            if self.zero(sub(a, I(v))) is not False:
                left.append(v)
                if len(left) > 1:
                    return self
        if not left:
            return None
        return self.assume(ieq(a, I(left[0])))

    def _solve(self, t):
        """add t == 0"""
        if t.op == "int":
            return self if t.args[0] == 0 else None
        c, d = lin_parts(t)
        # pick an atom with a unit coefficient; prefer the one created last
        cand = [a for a, k in d.items() if abs(k) == 1]
        if not cand:
            e = ge0(t), ge0(scale(t, -1))
            self.ineqs = self.ineqs + (t, scale(t, -1))
            return self
        a = max(cand, key=lambda x: (_weight(x), x.id))
        k = d[a]
        rest = add(t, scale(a, -k))          # k*a + rest = 0
        val = scale(rest, -1 if k == 1 else 1)
        lo, hi = trange(a)
        vlo, vhi = trange(val)
        if (lo is not None and vhi is not None and vhi < lo) or (hi is not None and vlo is not None and vlo > hi):
            return None
        one_ = {a: val}
        ne = {}
        for x, v in self.eqs.items():
            ne[x] = _rw(v, one_)
        ne[a] = val
        self.eqs = ne
        self._memo = {}
        nin = []
        for q in self.ineqs:
            q2 = _rw(q, one_)
            if q2.op == "int":
                if q2.args[0] < 0:
                    return None
                continue
            nin.append(q2)
        # keep the range of the eliminated atom
        if val.op != "int":
            if lo is not None and (vlo is None or vlo < lo):
                nin.append(sub(val, I(lo)))
            if hi is not None and (vhi is None or vhi > hi):
                nin.append(sub(I(hi), val))
        self.ineqs = tuple(nin)
        nn = set()
        for q in self.neqs:
            q2 = _rw(q, one_)
            e = ieq(q2, ZERO)
            if e.op == "bool":
                if e.args[0]:
                    return None
                continue
            if e.op == "eq0":
                nn.add(e.args[0])
        self.neqs = frozenset(nn)
        for q in self.ineqs:
            if self.ge(q) is False:
                return None
        # substitute into non-arithmetic atoms lazily through norm()
        return self

    def rename(self, m):
        """facts under a substitution (rebuilt from the literals that change)"""
        memo = {}
        aff = {l for l in self.lits if subst(l, m, memo) is not l}
        if not aff:
            # derived equalities may still mention renamed atoms, but the literals decide
            return self
        f = self
        while f is not None and not aff.isdisjoint(f.lits):
            f = f.par
        if f is None:
            f = Facts()
        for l in sorted(self.lits - f.lits, key=lambda x: x.id):
            f = f.assume(subst(l, m, memo))
            if f is None:
                return None
        return f

    @staticmethod
    def of(lits):
        f = Facts()
        for l in lits:
            f = f.assume(l)
            if f is None:
                return None
        return f

    def meet(self, other):
        """join of two states: keep what both know"""
        if self is other:
            return self
        key = ("meet", id(other))
        r = self._memo.get(key)
        if r is not None and r[0] is other:
            return r[1]
        a, b = self, other
        while a is not b:
            if a is None or b is None:
                a = Facts()
                break
            if a.depth >= b.depth:
                a = a.par
            else:
                b = b.par
        f = a
        keep = set()
        for l in self.lits - f.lits:
            if l in other.lits or other.ev(l) is True:
                keep.add(l)
        for l in other.lits - f.lits:
            if l not in keep and self.ev(l) is True:
                keep.add(l)
        for l in sorted(keep, key=lambda x: x.id):
            f = f.assume(l)
            if f is None:
                break
        self._memo[key] = (other, f)
        return f

    def implies_all(self, other):
        """does self entail every literal of other"""
        for l in other.lits:
            if l not in self.lits and self.ev(l) is not True:
                return False
        return True

DISCRS = {}

def _conj(x):
    out = []
    st = [x]
    while st:
        y = st.pop()
        if y.op == "and":
            st.extend(y.args)
        else:
            out.append(y)
    return out

def _andall(xs):
    r = TRUE
    for x in xs:
        r = and_(r, x)
    return r

def _weight(a):
    # prefer eliminating derived quantities over stream bytes / loop counters
    return {"len": 3, "discr": 3, "lv": 1, "lvx": 2, "at": 4, "le": 4}.get(a.op, 2)

def lin_parts(t):
    if t.op == "int":
        return t.args[0], {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    return 0, {t: 1}

def _rw(t, m):
    c, d = lin_parts(t)
    if not any(a in m for a in d):
        return t
    r = I(c)
    for a, k in d.items():
        r = add(r, scale(m.get(a, a), k))
    return r

_fmcache = {}
_atomsof = {}
def _atoms(t):
    r = _atomsof.get(t)
    if r is None:
        r = frozenset(lin_parts(t)[1])
        _atomsof[t] = r
    return r

def _infeasible(goal, ineqs, facts):
    """is {goal >= 0} with ineqs and atom ranges infeasible?  capped Fourier-Motzkin"""
    # relevant inequalities: connected through shared atoms
    atoms = set(_atoms(goal))
    rel = [goal]
    pool = ineqs
    rounds = 0
    while pool and rounds < 4:
        rounds += 1
        rest = []
        hit = []
        for q in pool:
            a = _atoms(q)
            if a.isdisjoint(atoms):
                rest.append(q)
            else:
                hit.append(q)
        if not hit:
            break
        for q in hit:
            atoms |= _atoms(q)
        rel.extend(hit)
        pool = rest
    if len(rel) > 40:
        rel = rel[:40]
    key = frozenset(rel)
    r = _fmcache.get((goal, key))
    if r is None:
        r = _fm(rel)
        _fmcache[(goal, key)] = r
    return r

def _fm(rel):
    rows = {}
    num = {}
    def put(c, d):
        if not d:
            return c < 0
        k = frozenset(d.items())
        o = rows.get(k)
        if o is None or c < o:
            rows[k] = c
        return False
    for q in rel:
        c, d = lin_parts(q)
        for a in d:
            num.setdefault(a, len(num))
        if put(c, {num[a]: k for a, k in d.items()}):
            return True
    for a, i in num.items():
        lo, hi = trange(a)
        if lo is not None:
            put(-lo, {i: 1})
        if hi is not None:
            put(hi, {i: -1})
    for k, c in rows.items():
        o = rows.get(frozenset((a, -v) for a, v in k))
        if o is not None and c + o < 0:
            return True
    left = set(num.values())
    while left:
        P = {}
        N = {}
        for k in rows:
            for a, v in k:
                if v > 0:
                    P[a] = P.get(a, 0) + 1
                else:
                    N[a] = N.get(a, 0) + 1
        best = None
        one = [a for a in left if a not in P or a not in N]
        if one:
            s = set(one)
            left -= s
            rows = {k: c for k, c in rows.items() if not any(a in s for a, v in k)}
            continue
        for a in left:
            sc = P[a] * N[a] - P[a] - N[a]
            if best is None or sc < best[0] or (sc == best[0] and a < best[1]):
                best = (sc, a)
        a = best[1]
        if P[a] * N[a] > 400:
            return False
        left.discard(a)
        ps, ns, rest = [], [], {}
        for k, c in rows.items():
            for x, v in k:
                if x == a:
                    (ps if v > 0 else ns).append((abs(v), c, k))
                    break
            else:
                rest[k] = c
        rows = rest
        for kp, cp, dp in ps:
            for kn, cn, dn in ns:
                c = cp * kn + cn * kp
                d = {}
                for x, v in dp:
                    if x != a:
                        d[x] = v * kn
                for x, v in dn:
                    if x != a:
                        d[x] = d.get(x, 0) + v * kp
                d = {x: v for x, v in d.items() if v}
                if not d:
                    if c < 0:
                        return True
                    continue
                g = 0
                for v in d.values():
                    g = gcd(g, v)
                if g > 1:
                    c = c // g
                    d = {x: v // g for x, v in d.items()}
                put(c, d)
        if len(rows) > 600:
            return False
    return False
