"""Abstract semantics of the library functions the analysed crate calls."""
from terms import *
import terms, loops
import interp as ip
from interp import St, Inconclusive, BIG, LBIG, UNDEF, SEQTYPES
from facts import DISCRS

MODELS = {}
def M(*names):
    def d(f):
        for n in names:
            MODELS[n] = f
        return f
    return d

LOCALCRATES = {"yule_log", "fixtures", "yl_fixtures"}
IDENT_DERIVES = {"Clone::clone"}

def lookup(c):
    f = c.f
    key = f.get("key")
    g = c.I.P.fns.get(key)
    n = c.name
    if n in ("Fn::call", "FnMut::call_mut", "FnOnce::call_once"):
        return fncall
    if g is not None and g.local:
        if n == "Clone::clone" and g.j.get("expanded"):
            return clone
        return None
    m = MODELS.get(n)
    if m is not None:
        return m
    parts = n.split("::")
    if len(parts) == 2:
        if parts[0] in INTW:
            m = INTM.get(parts[1])
            if m is not None:
                return lambda I, st, c: m(I, st, c, parts[0])
    return None

def call_opaque_fn(I, st, f, args, c):
    """call of an unknown function value: a pure uninterpreted result"""
    return None

def dr(I, st, v):
    """value behind a reference (through any number of references)"""
    for _ in range(6):
        if v.op == "vref":
            v = v.args[0]
        elif v.op == "ref":
            v = I.rd(st, v.args[0], v.args[1])
        else:
            break
    return v

def d1(I, st, v):
    if v.op == "vref":
        return v.args[0]
    if v.op == "ref":
        return I.rd(st, v.args[0], v.args[1])
    d = deref(v)
    t = terms.TYPE.get(v)
    if t is not None and I.P.types[t]["k"] in ("ref", "ptr"):
        I.ann(d, I.P.types[t]["to"])
    return d

def rloc(I, st, v):
    """innermost &mut location"""
    while True:
        if v.op != "ref":
            return None
        x = I.rd(st, v.args[0], v.args[1])
        if x.op == "ref":
            v = x
            continue
        return v

def ret(st, v):
    return [(st, v)]

def setloc(I, st, ref, val):
    s = st.copy()
    I.wr(s, ref.args[0], ref.args[1], val)
    return s

# --------------------------------------------------------------------------- identity-like
@M("Rc::new", "Arc::new", "Box::new", "Rc::from", "Cow::into_owned", "hint::must_use", "must_use", "ToOwned::to_owned",
   "String::into_boxed_str", "Vec::into_boxed_slice", "String::into_bytes", "Vec::into_vec", "slice::into_vec", "identity", "convert::identity",
   "Rc::unwrap_or_clone", "Vec::into", "str::into_string")
def ident(I, st, c):
    v = c.args[0]
    if c.name == "ToOwned::to_owned":
        v = d1(I, st, v)
    return ret(st, v)

@M("Clone::clone", "Option::cloned", "Option::copied")
def clone(I, st, c):
    v = c.args[0]
    if c.name.startswith("Option"):
        return None
    x = d1(I, st, v)
    if x.op == "ref":
        x = vref(I.rd(st, x.args[0], x.args[1]))
    return ret(st, x)

@M("Deref::deref", "AsRef::as_ref", "Borrow::borrow", "String::as_str", "Vec::as_slice", "String::as_bytes", "str::as_bytes",
   "str::as_str", "Vec::as_ptr", "slice::as_ptr", "str::as_ptr", "Rc::as_ref", "Option::as_slice", "slice::as_slice", "array::as_slice", "str::as_ref",
   "Iter::as_slice", "VecDeque::make_contiguous", "Cow::as_ref", "String::borrow", "slice::borrow", "array::as_ref")
def derefm(I, st, c):
    v = c.args[0]
    if v.op == "ref":
        return ret(st, vref(dr(I, st, v)))
    if v.op == "vref":
        x = v.args[0]
        # a smart pointer to a reference stays a reference
        return ret(st, v if x.op not in ("vref", "ref") else (x if x.op == "vref" else vref(dr(I, st, x))))
    return ret(st, v)

@M("DerefMut::deref_mut", "Vec::as_mut_slice", "AsMut::as_mut", "slice::as_mut_ptr", "Vec::as_mut_ptr", "BorrowMut::borrow_mut", "Read::by_ref", "Write::by_ref",
   "Iterator::by_ref")
def derefmut(I, st, c):
    v = c.args[0]
    x = rloc(I, st, v)
    return ret(st, x if x is not None else v)

@M("slice::to_vec", "str::to_owned", "str::to_string", "slice::to_owned", "String::clone", "str::to_vec", "slice::into_vec")
def tovec(I, st, c):
    return ret(st, dr(I, st, c.args[0]))

@M("mem::size_of", "size_of")
def size_of(I, st, c):
    t = c.f["args"][0]
    ty = I.P.types[t]
    if ty["k"] == "int":
        return ret(st, I_(ty["bits"] // 8))
    if ty["k"] == "float":
        return ret(st, I_(int(ty["s"][1:]) // 8))
    if ty["k"] == "bool":
        return ret(st, ONE)
    return None

I_ = terms.I

# --------------------------------------------------------------------------- panics
@M("option::unwrap_failed", "option::expect_failed", "panicking::panic_fmt", "panicking::panic", "result::unwrap_failed", "unwrap_failed::unwrap_failed_inner",
   "panicking::panic_display", "panicking::unreachable_display", "panicking::panic_explicit", "panicking::assert_failed", "rt::begin_panic",
   "panicking::begin_panic", "slice_index_fail::fail", "panicking::panic_bounds_check", "panicking::panic_nounwind", "process::exit", "process::abort", "panicking::panic_str_2015", "unwrap_failed_inner", "panicking::panic_const", "panicking::unreachable_default_msg", "panicking::unreachable_500", "panicking::assert_failed_inner", "panicking::panic_str")
def panics(I, st, c):
    I.event("panic", c.fn, c.line, ("call", c.name), None, st)
    return []

# --------------------------------------------------------------------------- log
@M("log::max_level", "max_level")
def maxlevel(I, st, c):
    return ret(st, mk("nd", "log-level"))

@M("PartialOrd::le", "PartialOrd::lt", "PartialOrd::ge", "PartialOrd::gt")
def pord(I, st, c):
    a, b = dr(I, st, c.args[0]), dr(I, st, c.args[1])
    if any(x.op in ("nd",) or (x.op == "adt" and x.args[0].startswith("log::")) for x in (a, b)):
        if a.op == "adt" and b.op == "adt":
            # Level <= STATIC_MAX_LEVEL: both constants (all levels are compiled in)
            return ret(st, TRUE)
        return ret(st, mk("nd", "log"))
    if is_int(a) and is_int(b):
        n = c.name[-2:]
        r = {"le": le_(a, b), "lt": lt(a, b), "ge": le_(b, a), "gt": lt(b, a)}[n]
        return ret(st, r)
    return None

@M("__private_api::log", "__private_api::loc", "__private_api::enabled", "io::_print", "_print", "_eprint")
def logcall(I, st, c):
    if c.name == "__private_api::enabled":
        return ret(st, mk("nd", "log"))
    if c.name.endswith("loc"):
        return ret(st, UNIT)
    if "print" in c.name:
        I.event("print", c.fn, c.line, c.name, None, None)
    return ret(st, UNIT)

# --------------------------------------------------------------------------- sequences
def seqw(I, st, c, i=0):
    """(location, current sequence value) of a &mut sequence argument"""
    l = rloc(I, st, c.args[i])
    if l is None:
        raise Inconclusive("mutation through an unknown reference in " + c.name)
    return l, I.rd(st, l.args[0], l.args[1])

def held(n):
    """a small multiple of the lengths of sequences that exist in memory: it cannot reach the largest capacity"""
    if n.op == "int":
        return n.args[0] <= 1 << 40
    if n.op in ("len", "capn"):
        return True
    if n.op == "lin":
        return abs(n.args[0]) <= 1 << 40 and all(abs(k) <= 256 and held(a) for a, k in n.args[1])
    if n.op == "div":
        return held(n.args[0]) and n.args[1].op == "int" and n.args[1].args[0] > 0
    if n.op == "min":
        return any(held(a) for a in n.args)
    if n.op in ("max", "satsub"):
        return all(held(a) for a in n.args)
    return False

@M("Vec::new", "String::new", "VecDeque::new", "Vec::with_capacity", "String::with_capacity", "VecDeque::with_capacity")
def vnew(I, st, c):
    if c.name.endswith("with_capacity"):
        I.event("alloc", c.fn, c.line, c.name, None, st, c.args[0])
        if not I.opts.get("noalloc"):
            st2 = I.oblige(st, "panic", c.fn, c.line, TRUE if held(c.args[0]) else le_(c.args[0], I_(1 << 40)), ("capacity", c.args[0]))
            if st2 is None:
                return []
            st = st2
    return ret(st, EMPTY)

@M("Vec::reserve", "Vec::reserve_exact", "String::reserve", "Vec::shrink_to_fit", "VecDeque::reserve", "HashMap::reserve")
def reserve(I, st, c):
    if len(c.args) > 1:
        I.event("alloc", c.fn, c.line, c.name, None, st, c.args[1])
    return ret(st, UNIT)

@M("Vec::push", "VecDeque::push_back")
def push(I, st, c):
    l, v = seqw(I, st, c)
    return ret(setloc(I, st, l, cat(v, one(c.args[1]))), UNIT)

@M("VecDeque::push_front")
def push_front(I, st, c):
    l, v = seqw(I, st, c)
    return ret(setloc(I, st, l, cat(one(c.args[1]), v)), UNIT)

@M("String::push")
def spush(I, st, c):
    l, v = seqw(I, st, c)
    x = c.args[1]
    return ret(setloc(I, st, l, cat(v, char_utf8(st, x))), UNIT)

def char_utf8(st, x):
    if x.op == "int":
        return lit(chr(x.args[0]).encode("utf-8"))
    lo, hi = st.facts.interval(x)
    if hi is not None and hi < 128:
        return one(x)
    t = mk("text", "char", x)
    LENRANGE.setdefault(t, (1, 4))
    return t

@M("Vec::capacity", "String::capacity", "VecDeque::capacity", "PathBuf::capacity", "OsString::capacity")
def capacity(I, st, c):
    """how much memory the sequence has: at least its length, and not a value of it"""
    v = dr(I, st, c.args[0])
    t = mk("cap", v)
    I.ann(t, c.dtid)
    s2 = st.copy()
    s2.facts = st.facts.assume(le_(slen(v), t)) or st.facts
    return ret(s2, t)

def is_string(I, c):
    t = I.P.types[c.f["self"]] if isinstance(c.f.get("self"), int) else None
    return t is not None and t["k"] == "adt" and t["path"].endswith("string::String")

@M("AddAssign::add_assign")
def add_assign(I, st, c):
    return push_str(I, st, c) if is_string(I, c) else None

@M("Add::add", "Sub::sub", "Mul::mul", "Div::div", "Rem::rem", "BitAnd::bitand", "BitOr::bitor", "BitXor::bitxor")
def ref_op(I, st, c):
    """operators on references to integers; those that can panic only where the path rules it out"""
    if is_string(I, c):
        return ret(st, cat(dr(I, st, c.args[0]), dr(I, st, c.args[1]))) if c.name == "Add::add" else None
    tid = c.f.get("self") if isinstance(c.f.get("self"), int) else None
    if tid is None:
        return None
    if I.P.types[tid]["k"] == "ref":
        tid = I.P.types[tid]["to"]
    if I.P.types[tid]["k"] != "int":
        return None
    a, b = dr(I, st, c.args[0]), dr(I, st, c.args[1])
    op = c.name.split(":")[0]
    if op in ("Add", "Sub", "Mul"):
        lo, hi = ip.irange(*I.ity(tid))
        v = {"Add": add, "Sub": sub, "Mul": mul}[op](a, b)
        return ret(st, v) if st.facts.ev(and_(le_(I_(lo), v), le_(v, I_(hi)))) is True else None
    if op in ("Div", "Rem") and st.facts.ev(eq(b, ZERO)) is not False:
        return None
    return ret(st, I.binop(st, op, a, b, tid))

@M("String::push_str", "Vec::extend_from_slice", "Vec::append")
def push_str(I, st, c):
    l, v = seqw(I, st, c)
    if c.name == "Vec::append":
        l2, v2 = seqw(I, st, c, 1)
        st = setloc(I, st, l, cat(v, v2))
        return ret(setloc(I, st, l2, EMPTY), UNIT)
    return ret(setloc(I, st, l, cat(v, dr(I, st, c.args[1]))), UNIT)

@M("Vec::len", "String::len", "VecDeque::len", "slice::len", "str::len", "array::len", "ExactSizeIterator::len")
def vlen(I, st, c):
    v = dr(I, st, c.args[0])
    if c.name == "ExactSizeIterator::len":
        if v.op == "adt" and v.args[0] in ("it.slice", "it.own", "it.mut"):
            return ret(st, sub(v.args[4], v.args[3]))
        return None
    ensure_seq(v)
    return ret(st, slen(v))

def ensure_seq(v):
    if not is_seq(v) and v.op not in ("adt",):
        LENRANGE.setdefault(v, (0, LBIG))

@M("Vec::is_empty", "String::is_empty", "VecDeque::is_empty", "slice::is_empty", "str::is_empty")
def is_empty(I, st, c):
    v = dr(I, st, c.args[0])
    ensure_seq(v)
    return ret(st, ieq(slen(v), ZERO))

def etid(I, st, c, i=0):
    if c.tids and c.tids[i] is not None:
        return I.elem_tid(c.tids[i])
    return None

def elem(I, s, i, tid):
    x = sat(s, i)
    if tid is not None and x.op not in ("adt", "int", "vref"):
        I.ann(x, tid)
    return x

@M("VecDeque::pop_front", "Vec::pop", "VecDeque::pop_back")
def pop(I, st, c):
    l, v = seqw(I, st, c)
    ensure_seq(v)
    n = slen(v)
    y, e = I.fork(st, ge0(sub(n, ONE)))
    out = []
    if y is not None:
        t = etid(I, st, c)
        if c.name.endswith("front"):
            x = elem(I, v, ZERO, t)
            out.append((setloc(I, y, l, ssub(v, ONE, sub(n, ONE))), some(x)))
        else:
            x = elem(I, v, sub(n, ONE), t)
            out.append((setloc(I, y, l, ssub(v, ZERO, sub(n, ONE))), some(x)))
    if e is not None:
        out.append((e, NONE))
    return out

@M("VecDeque::front", "slice::first", "VecDeque::back", "slice::last", "Vec::first", "Vec::last")
def front(I, st, c):
    v = dr(I, st, c.args[0])
    ensure_seq(v)
    n = slen(v)
    y, e = I.fork(st, ge0(sub(n, ONE)))
    out = []
    i = ZERO if c.name.endswith(("front", "first")) else sub(n, ONE)
    if y is not None:
        out.append((y, some(vref(elem(I, v, i, etid(I, st, c))))))
    if e is not None:
        out.append((e, NONE))
    return out

@M("slice::get", "Vec::get", "VecDeque::get", "str::get", "slice::get_mut", "Vec::get_mut")
def get(I, st, c):
    mut = c.name.endswith("mut")
    v = dr(I, st, c.args[0])
    ensure_seq(v)
    n = slen(v)
    ix = c.args[1]
    out = []
    if is_int(ix):
        y, e = I.fork(st, lt(ix, n))
        if y is not None:
            if mut:
                l = rloc(I, st, c.args[0])
                if l is None:
                    return None
                out.append((y, some(mk("ref", l.args[0], l.args[1] + (("i", ix, etid(I, st, c)),)))))
            else:
                out.append((y, some(vref(elem(I, v, ix, etid(I, st, c))))))
        if e is not None:
            out.append((e, NONE))
        return out
    r = rng(ix, n)
    if r is None or mut:
        return None
    a, b = r
    y, e = I.fork(st, and_(le_(a, b), le_(b, n)))
    if y is not None:
        out.append((y, some(vref(ssub(v, a, sub(b, a))))))
    if e is not None:
        out.append((e, NONE))
    return out

def rng(ix, n):
    """(start, end) of a range value"""
    if ix.op != "adt":
        return None
    p = ix.args[0].split("::")[-1]
    a = ix.args[2:]
    if p == "Range":
        return a[0], a[1]
    if p == "RangeFrom":
        return a[0], n
    if p == "RangeTo":
        return ZERO, a[0]
    if p == "RangeFull":
        return ZERO, n
    if p == "RangeInclusive":
        return a[0], add(a[1], ONE)
    if p == "RangeToInclusive":
        return ZERO, add(a[0], ONE)
    return None

@M("Index::index", "IndexMut::index_mut")
def index(I, st, c):
    mut = c.name.endswith("mut")
    v = dr(I, st, c.args[0])
    mv = mapval_tid(I, c.tids[0]) if c.tids[0] is not None else None
    if mv is not None and not mut:
        # map[key]: the entry, or a panic
        out = []
        for s, p, x in mlookup(I, st, v, dr(I, st, c.args[1]), mv, c):
            if p:
                out.append((s, vref(x)))
            else:
                I.event("panic", c.fn, c.line, ("call", c.name), None, s)
        return out
    if v.op in MAPOPS or v in MAPS:
        return None
    ensure_seq(v)
    n = slen(v)
    ix = c.args[1]
    if is_int(ix):
        st = I.oblige(st, "panic", c.fn, c.line, lt(ix, n), ("index", ix, n))
        if st is None:
            return []
        if mut:
            l = rloc(I, st, c.args[0])
            return ret(st, mk("ref", l.args[0], l.args[1] + (("i", ix, etid(I, st, c)),)))
        return ret(st, vref(elem(I, v, ix, etid(I, st, c))))
    r = rng(ix, n)
    if r is None:
        return None
    a, b = r
    st = I.oblige(st, "panic", c.fn, c.line, and_(le_(a, b), le_(b, n)), ("slice", a, b, n))
    if st is None:
        return []
    if mut:
        l = rloc(I, st, c.args[0])
        return ret(st, mk("ref", l.args[0], l.args[1] + (("r", a, sub(b, a)),)))
    return ret(st, vref(ssub(v, a, sub(b, a))))

@M("slice::split_at", "slice::split_at_checked", "slice::split_first", "slice::split_last")
def split_at(I, st, c):
    v = dr(I, st, c.args[0])
    ensure_seq(v)
    n = slen(v)
    if c.name == "slice::split_at":
        k = c.args[1]
        st = I.oblige(st, "panic", c.fn, c.line, le_(k, n), ("split_at", k, n))
        if st is None:
            return []
        return ret(st, tup(vref(ssub(v, ZERO, k)), vref(ssub(v, k, sub(n, k)))))
    if c.name == "slice::split_at_checked":
        k = c.args[1]
        y, e = I.fork(st, le_(k, n))
        val = lambda: tup(vref(ssub(v, ZERO, k)), vref(ssub(v, k, sub(n, k))))
    else:
        y, e = I.fork(st, le_(ONE, n))
        if c.name.endswith("first"):
            val = lambda: tup(vref(elem(I, v, ZERO, etid(I, st, c))), vref(ssub(v, ONE, sub(n, ONE))))
        else:
            val = lambda: tup(vref(elem(I, v, sub(n, ONE), etid(I, st, c))), vref(ssub(v, ZERO, sub(n, ONE))))
    out = []
    if y is not None:
        out.append((y, some(val())))
    if e is not None:
        out.append((e, NONE))
    return out

@M("slice::copy_from_slice", "slice::clone_from_slice")
def copy_from(I, st, c):
    l, v = seqw(I, st, c)
    w = dr(I, st, c.args[1])
    st = I.oblige(st, "panic", c.fn, c.line, ieq(slen(v), slen(w)), ("copy_from_slice", slen(v), slen(w)))
    if st is None:
        return []
    return ret(setloc(I, st, l, w), UNIT)

@M("slice::fill")
def fill(I, st, c):
    l, v = seqw(I, st, c)
    return ret(setloc(I, st, l, rep(c.args[1], slen(v))), UNIT)

@M("Vec::clear", "String::clear", "VecDeque::clear")
def clear(I, st, c):
    l, v = seqw(I, st, c)
    return ret(setloc(I, st, l, EMPTY), UNIT)

@M("Vec::truncate", "String::truncate")
def truncate(I, st, c):
    l, v = seqw(I, st, c)
    n = c.args[1]
    y, e = I.fork(st, le_(n, slen(v)))
    out = []
    if y is not None:
        out.append((setloc(I, y, l, ssub(v, ZERO, n)), UNIT))
    if e is not None:
        out.append((e, UNIT))
    return out

@M("Vec::resize")
def resize(I, st, c):
    l, v = seqw(I, st, c)
    n = c.args[1]
    I.event("alloc", c.fn, c.line, c.name, None, st, n)
    y, e = I.fork(st, le_(n, slen(v)))
    out = []
    if y is not None:
        out.append((setloc(I, y, l, ssub(v, ZERO, n)), UNIT))
    if e is not None:
        out.append((setloc(I, e, l, cat(v, rep(c.args[2], sub(n, slen(v))))), UNIT))
    return out

@M("Vec::insert")
def vinsert(I, st, c):
    l, v = seqw(I, st, c)
    i = c.args[1]
    st = I.oblige(st, "panic", c.fn, c.line, le_(i, slen(v)), ("insert", i, slen(v)))
    if st is None:
        return []
    return ret(setloc(I, st, l, cat(ssub(v, ZERO, i), one(c.args[2]), ssub(v, i, sub(slen(v), i)))), UNIT)

@M("Vec::remove", "Vec::swap_remove")
def vremove(I, st, c):
    if c.name.endswith("swap_remove"):
        return None
    l, v = seqw(I, st, c)
    i = c.args[1]
    n = slen(v)
    st = I.oblige(st, "panic", c.fn, c.line, lt(i, n), ("remove", i, n))
    if st is None:
        return []
    return ret(setloc(I, st, l, cat(ssub(v, ZERO, i), ssub(v, add(i, ONE), sub(sub(n, i), ONE)))), elem(I, v, i, etid(I, st, c)))

@M("Vec::split_off")
def split_off(I, st, c):
    l, v = seqw(I, st, c)
    i = c.args[1]
    n = slen(v)
    st = I.oblige(st, "panic", c.fn, c.line, le_(i, n), ("split_off", i, n))
    if st is None:
        return []
    return ret(setloc(I, st, l, ssub(v, ZERO, i)), ssub(v, i, sub(n, i)))

@M("Vec::drain", "Vec::splice", "Vec::dedup")
def vdrain(I, st, c):
    if not c.name.endswith("drain"):
        return None
    l, v = seqw(I, st, c)
    n = slen(v)
    r = rng(c.args[1], n)
    if r is None:
        return None
    a, b = r
    st = I.oblige(st, "panic", c.fn, c.line, and_(le_(a, b), le_(b, n)), ("drain", a, b, n))
    if st is None:
        return []
    part = ssub(v, a, sub(b, a))
    return ret(setloc(I, st, l, cat(ssub(v, ZERO, a), ssub(v, b, sub(n, b)))), adt("it.own", 0, part, ZERO, slen(part), tidt(etid(I, st, c))))

@M("vec::from_elem", "slice::repeat")
def from_elem(I, st, c):
    I.event("alloc", c.fn, c.line, c.name, None, st, c.args[1])
    return ret(st, rep(c.args[0], c.args[1]))

@M("raw::from_raw_parts", "slice::from_raw_parts")
def from_raw(I, st, c):
    v = dr(I, st, c.args[0])
    I.event("rawparts", c.fn, c.line, c.name, None, st, (c.args[0], c.args[1]))
    r = st.facts.ev(le_(c.args[1], slen(v)))
    if r is True:
        return ret(st, vref(ssub(v, ZERO, c.args[1])))
    return None

@M("boxed::box_assume_init_into_vec_unsafe", "slice::into_vec")
def box_into_vec(I, st, c):
    v = c.args[0]
    return ret(st, v)

@M("Box::new_uninit")
def new_uninit(I, st, c):
    return ret(st, UNDEF)

@M("slice::concat", "slice::join")
def join(I, st, c):
    v = dr(I, st, c.args[0])
    sepv = dr(I, st, c.args[1]) if len(c.args) > 1 else EMPTY
    n = slen(v)
    if n.op == "int" and n.args[0] <= 16:
        out = []
        for i in range(n.args[0]):
            if i:
                out.append(sepv)
            out.append(dr(I, st, sat(v, terms.I(i))))
        return ret(st, cat(*out))
    t = mk("text", "join", v, sepv)
    LENRANGE.setdefault(t, (0, LBIG))
    return ret(st, t)

@M("slice::reverse", "slice::sort", "slice::sort_unstable", "slice::sort_by", "slice::sort_by_key", "slice::swap", "slice::rotate_left", "slice::rotate_right")
def permute(I, st, c):
    l, v = seqw(I, st, c)
    t = mk("text", "perm", I.uniq(c), v)
    FIXED = slen(v)
    LENRANGE.setdefault(t, (0, LBIG))
    st = setloc(I, st, l, t)
    st = st.assume(ieq(slen(t), FIXED)) or st
    I.event("permute", c.fn, c.line, c.name, None, st, v)
    return ret(st, UNIT)

@M("Vec::retain", "Vec::retain_mut")
def retain(I, st, c):
    l, v = seqw(I, st, c)
    f = c.args[1]
    t = etid(I, st, c)
    def body(s, item, acc):
        out = []
        arg = vref(item)
        for s2, b in I.invoke(s, f, [arg], c, "retain"):
            y, n = I.fork(s2, b)
            if y is not None:
                out.append((setr(y, acc, cat(y.store[acc], one(item))), None))
            if n is not None:
                out.append((n, None))
        return out
    it = adt("it.own", 0, v, ZERO, slen(v), tidt(t))
    out = []
    for tag, s, acc in consume(I, st, it, c, EMPTY, body):
        out.append((setloc(I, s, l, acc), UNIT))
    return out

# --------------------------------------------------------------------------- strings
@M("String::from_utf8", "str::from_utf8", "converts::from_utf8")
def from_utf8(I, st, c):
    own = c.name == "String::from_utf8"
    v = c.args[0] if own else dr(I, st, c.args[0])
    u = TRUE if v.op == "lit" and _isutf8(v.args[0]) else mk("utf8", v)
    y, n = I.fork(st, u)
    out = []
    if y is not None:
        out.append((y, ok(v if own else vref(v))))
    if n is not None:
        out.append((n, err(mk("utf8err", v))))
    return out

def _isutf8(b):
    try:
        b.decode("utf-8")
        return True
    except Exception:
        return False

@M("String::from_utf8_lossy", "String::from_utf8_lossy_owned")
def lossy(I, st, c):
    v = dr(I, st, c.args[0])
    t = mk("lossy", v)
    LENRANGE.setdefault(t, (0, LBIG))
    return ret(st, t)

@M("String::from_utf8_unchecked", "str::from_utf8_unchecked", "converts::from_utf8_unchecked")
def utf8_unchecked(I, st, c):
    return ret(st, c.args[0])

@M("str::starts_with", "str::ends_with", "slice::starts_with", "slice::ends_with", "str::contains")
def starts(I, st, c):
    s = dr(I, st, c.args[0])
    p = dr(I, st, c.args[1])
    k = {"starts_with": "starts", "ends_with": "ends", "contains": "contains"}[c.name.split("::")[1]]
    if is_int(p):
        if p.op != "int":
            return None
        p = lit(chr(p.args[0]).encode())
    if p.op != "lit":
        return None
    if s.op == "lit":
        a, b = s.args[0], p.args[0]
        return ret(st, B(a.startswith(b) if k == "starts" else a.endswith(b) if k == "ends" else b in a))
    n = slen(s)
    if c.name.startswith("slice") and n.op == "int" and k != "contains":
        b = len(p.args[0])
        if n.args[0] < b:
            return ret(st, B(False))
        return ret(st, eq(ssub(s, ZERO if k == "starts" else I_(n.args[0] - b), I_(b)), p))
    return ret(st, mk(k, s, p))

@M("str::strip_prefix", "str::strip_suffix")
def strip_prefix(I, st, c):
    s = dr(I, st, c.args[0])
    p = dr(I, st, c.args[1])
    if is_int(p) and p.op == "int":
        p = lit(chr(p.args[0]).encode())
    if p.op != "lit":
        return None
    pre = c.name.endswith("prefix")
    cond = mk("starts" if pre else "ends", s, p)
    y, n = I.fork(st, cond)
    out = []
    k = slen(p)
    if y is not None:
        y = y.assume(ge0(sub(slen(s), k)))
        out.append((y, some(vref(ssub(s, k, sub(slen(s), k)) if pre else ssub(s, ZERO, sub(slen(s), k))))))
    if n is not None:
        out.append((n, NONE))
    return out

@M("str::parse", "FromStr::from_str")
def parse(I, st, c):
    s = dr(I, st, c.args[0])
    ty = I.P.types[c.dtid]
    okt = ty["args"][0] if ty["k"] == "adt" else None
    cond = mk("parses", s, mk("tid", okt))
    y, n = I.fork(st, cond)
    v = mk("parsed", s)
    if okt is not None:
        I.ann(v, okt)
    out = []
    if y is not None:
        out.append((y, ok(v)))
    if n is not None:
        out.append((n, err(mk("parseerr", s))))
    return out

@M("str::trim", "str::trim_matches", "str::trim_end_matches", "str::trim_start_matches", "str::trim_end", "str::trim_start", "str::to_lowercase", "str::to_uppercase",
   "str::to_ascii_lowercase", "str::to_ascii_uppercase", "str::replace")
def strop(I, st, c):
    s = dr(I, st, c.args[0])
    rest = [dr(I, st, a) for a in c.args[1:]]
    if "trim" in c.name and len(rest) == 1 and rest[0].op == "adt" and rest[0].args[0].startswith("closure:"):
        # a test on characters: the condition under which it holds of an arbitrary one
        ch = mk("sym", "ch*")
        st2 = st.assume(ge0(ch)).assume(ge0(sub(I_(0x10FFFF), ch)))
        cond = FALSE
        for s2, b in I.invoke(st2, c.args[1], [ch], c, "trim"):
            if any(s2.store.get(k) is not v for k, v in st2.store.items()):
                return None
            w = b
            old = set(st2.facts.lits)
            for l in s2.facts.lits:
                if l not in old:
                    w = and_(l, w)
            cond = or_(cond, w)
        rest = [mk("pred", cond)]
    t = mk("text", c.name, s, *rest)
    LENRANGE.setdefault(t, (0, LBIG))
    if "trim" in c.name:
        st = st.assume(le_(slen(t), slen(s))) or st
    owned = I.P.types[I.strip(c.dtid)]["k"] == "adt" if c.dtid is not None else False
    return ret(st, t if owned else vref(t))

@M("str::chars", "str::bytes", "str::char_indices")
def chars(I, st, c):
    s = dr(I, st, c.args[0])
    if c.name == "str::bytes":
        return ret(st, adt("it.own", 0, s, ZERO, slen(s), tidt(None)))
    if c.name != "str::chars":
        return None
    q = mk("chars", s)
    LENRANGE.setdefault(q, (0, LBIG))
    if s.op == "lit" and all(b < 128 for b in s.args[0]):
        q = s
    else:
        # an empty string has no chars and a non-empty one has at least one
        st = st.assume(le_(slen(q), slen(s))) or st
        r = st.facts.ev(ge0(sub(slen(s), ONE)))
        if r:
            st = st.assume(ge0(sub(slen(q), ONE))) or st
    return ret(st, adt("it.own", 0, q, ZERO, slen(q), mk("chartid")))

@M("ToString::to_string")
def to_string(I, st, c):
    v = dr(I, st, c.args[0])
    tid = c.tids[0]
    if tid is None:
        tid = c.f.get("self")
    if tid is None or I.P.types[I.strip(tid)]["k"] == "param":
        tid = TYPE.get(v, tid)
    if tid is None:
        return None
    for _ in range(5):
        ty = I.P.types[I.strip(tid)]
        if ty["k"] == "ref":
            tid = ty["to"]
        else:
            break
    root = ("r", ip.fid_of("tostr", c.fid, c.bb, I.uctx), "fmt")
    I.pinned.add(root)
    s = st.set(root, EMPTY)
    out = []
    for s2, r in fmt_value(I, s, mk("ref", root, ()), "display", v, I.strip(tid), c, True):
        t = s2.store[root]
        s3 = s2.copy()
        del s3.store[root]
        out.append((s3, t))
    return out

# --------------------------------------------------------------------------- equality
@M("PartialEq::eq", "PartialEq::ne", "Ord::cmp", "str::eq_ignore_ascii_case")
def peq(I, st, c):
    if c.name in ("Ord::cmp", "str::eq_ignore_ascii_case"):
        a, b = dr(I, st, c.args[0]), dr(I, st, c.args[1])
        return ret(st, mk("cmp", c.name, a, b))
    neg = c.name.endswith("ne")
    ta = c.tids[0]
    out = []
    for s, b in eq_values(I, st, c.args[0], c.args[1], ta, c.tids[1], c):
        out.append((s, not_(b) if neg else b))
    return out

def peel(I, st, v, tid):
    for _ in range(6):
        if tid is None:
            return dr(I, st, v), None
        ty = I.P.types[I.strip(tid)]
        if ty["k"] == "ref":
            v = d1(I, st, v)
            tid = ty["to"]
        else:
            return v, I.strip(tid)
    return v, tid

def eq_values(I, st, a, b, ta, tb, c):
    a, ta = peel(I, st, a, ta)
    b, tb = peel(I, st, b, tb)
    if a is b and not (ta is not None and I.P.types[ta]["k"] == "float"):
        return ret(st, TRUE)
    if ta is not None:
        ty = I.P.types[ta]
        if ty["k"] == "float":
            return ret(st, mk("feq", *sorted((a, b), key=lambda x: x.id)))
        if ty["k"] == "adt" and ty["path"] not in SEQTYPES:
            f = local_impl(I, "core::cmp::PartialEq", ta, "eq")
            if f is not None:
                c2 = ip.Call()
                c2.f = f.j
                c2.args, c2.tids, c2.dtid, c2.fid, c2.fn, c2.bb, c2.line, c2.I = [vref(a), vref(b)], [None, None], f.locals[0], c.fid, c.fn, (c.bb, "eq"), c.line, I
                c2.name = "PartialEq::eq"
                return I.inline(st, f, [vref(a), vref(b)], c2)
            if ty["path"] == OPT:
                return eq_option(I, st, a, b, ty, c)
            vs = ty.get("variants") or []
            if ty.get("enum") and any(x.op == "adt" and len(x.args) == 2 for x in (a, b)) or (len(vs) > 1 and all(not v["fields"] for v in vs)):
                return ret(st, ieq(I.discr(a, ta), I.discr(b, ta)))
        if ty["k"] in ("slice", "array", "str") or (ty["k"] == "adt" and ty["path"] in SEQTYPES):
            ensure_seq(a)
            ensure_seq(b)
    return ret(st, eq(a, b))

def eq_option(I, st, a, b, ty, c):
    t = ty["args"][0]
    tid = terms.TYPE.get(a) or terms.TYPE.get(b)
    out = []
    def cases(s, x):
        r = []
        if x.op == "adt":
            return [(s, x.args[1], x.args[2] if x.args[1] == 1 else None)]
        d = mk("discr", x)
        DISCRS.setdefault(d, [0, 1])
        RANGE.setdefault(d, (0, 1))
        y, n = I.fork(s, ieq(d, ONE))
        if y is not None:
            p = fld(x, 1, 0, OPT, 1)
            I.ann(p, t)
            r.append((y, 1, p))
        if n is not None:
            r.append((n, 0, None))
        return r
    for s, va, pa in cases(st, a):
        for s2, vb, pb in cases(s, b):
            if va != vb:
                out.append((s2, FALSE))
            elif va == 0:
                out.append((s2, TRUE))
            else:
                out.extend(eq_values(I, s2, pa, pb, t, t, c))
    return out

def local_impl(I, trait, tid, name):
    """local (hand-written or derived) implementation of trait::name for a type"""
    ix = getattr(I.P, "_impls", None)
    if ix is None:
        ix = {}
        for f in I.P.fns.values():
            t = f.j.get("impl_trait")
            if t and f.local:
                s = I.P.types[I.strip(f.j["impl_self"])]
                ix.setdefault((t, s.get("path") or s["s"], f.name), []).append(f)
        I.P._impls = ix
    ty = I.P.types[I.strip(tid)]
    l = ix.get((trait, ty.get("path") or ty["s"], name))
    return l[0] if l else None

# --------------------------------------------------------------------------- iterators
def tidt(t):
    return mk("tid", t)

def tido(x):
    return x.args[0] if x.op == "tid" else None

@M("slice::iter", "Vec::iter", "VecDeque::iter", "array::iter")
def slice_iter(I, st, c):
    v = dr(I, st, c.args[0])
    ensure_seq(v)
    return ret(st, adt("it.slice", 0, v, ZERO, slen(v), tidt(etid(I, st, c))))

@M("slice::iter_mut", "Vec::iter_mut", "VecDeque::iter_mut")
def slice_iter_mut(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    v = I.rd(st, l.args[0], l.args[1])
    ensure_seq(v)
    return ret(st, adt("it.mut", 0, l, ZERO, slen(v), tidt(etid(I, st, c))))

@M("IntoIterator::into_iter")
def into_iter(I, st, c):
    v = c.args[0]
    tid = c.tids[0]
    if v.op == "adt" and (v.args[0].startswith("it.") or v.args[0].endswith(("::Range", "RangeInclusive"))):
        return ret(st, v)
    if tid is None:
        return None
    ty = I.P.types[I.strip(tid)]
    if ty["k"] == "ref":
        et = I.elem_tid(ty["to"])
        if ty["mut"]:
            l = rloc(I, st, v)
            if l is not None:
                x = I.rd(st, l.args[0], l.args[1])
                if is_seq(x):
                    return ret(st, adt("it.mut", 0, l, ZERO, slen(x), tidt(et)))
            if v.op == "ref":
                return ret(st, v)
            return None
        x = dr(I, st, v)
        k2 = I.P.types[I.strip(ty["to"])]
        if k2["k"] in ("array", "slice") or (k2["k"] == "adt" and k2["path"] in SEQTYPES):
            ensure_seq(x)
            return ret(st, adt("it.slice", 0, x, ZERO, slen(x), tidt(et)))
        if ismap(I, ty["to"]):
            q = keysof(x)
            return ret(st, adt("it.slice" if isset(I, ty["to"]) else "it.entries", 0, q, ZERO, slen(q), tidt(k2["args"][0])))
        return None
    if ty["k"] == "array" or (ty["k"] == "adt" and ty["path"] in SEQTYPES):
        ensure_seq(v)
        return ret(st, adt("it.own", 0, v, ZERO, slen(v), tidt(I.elem_tid(tid))))
    if ty["k"] == "adt" and ismap(I, tid):
        q = keysof(v)
        return ret(st, adt("it.own" if isset(I, tid) else "it.entries", 0, q, ZERO, slen(q), tidt(ty["args"][0])))
    if ty["k"] == "adt" and ty["path"] == OPT:
        et = tidt(ty["args"][0])
        own = lambda q: adt("it.own", 0, q, ZERO, slen(q), et)
        if v.op == "adt":
            return ret(st, own(one(v.args[2]) if v.args[1] == 1 else EMPTY))
        y, n = I.fork(st, ieq(I.discr(v, I.strip(tid)), ONE))
        out = []
        if y is not None:
            x = fld(v, 1, 0, OPT, 1)
            I.ann(x, ty["args"][0])
            out.append((y, own(one(x))))
        if n is not None:
            out.append((n, own(EMPTY)))
        return out
    if ty["k"] == "param":
        q = mk("items", v)
        LENRANGE.setdefault(q, (0, LBIG))
        return ret(st, adt("it.own", 0, q, ZERO, slen(q), tidt(None)))
    return ret(st, v)

def keysof(m):
    if m.op == "setof":
        return m.args[0]
    q = mk("keys", m)
    LENRANGE.setdefault(q, (0, LBIG))
    return q

def ismap(I, tid):
    ty = I.P.types[I.strip(tid)]
    return ty["k"] == "adt" and ty["path"].split("::")[-1] in ("HashMap", "HashSet", "BTreeMap", "BTreeSet")

def isset(I, tid):
    ty = I.P.types[I.strip(tid)]
    return ty["path"].split("::")[-1] in ("HashSet", "BTreeSet")

# MIR-level adapters
@M("Iterator::map")
def it_map(I, st, c):
    return ret(st, adt("it.map", 0, c.args[0], c.args[1]))
@M("Iterator::enumerate")
def it_enum(I, st, c):
    return ret(st, adt("it.enum", 0, c.args[0], ZERO))
@M("Iterator::skip")
def it_skip(I, st, c):
    v = c.args[0]
    n = c.args[1]
    if v.op == "adt" and v.args[0] in ("it.slice", "it.own", "it.mut"):
        s, i, e, t = v.args[2:]
        y, f = I.fork(st, le_(add(i, n), e))
        out = []
        if y is not None:
            out.append((y, adt(v.args[0], 0, s, add(i, n), e, t)))
        if f is not None:
            out.append((f, adt(v.args[0], 0, s, e, e, t)))
        return out
    return ret(st, adt("it.skip", 0, v, n))
@M("Iterator::take")
def it_take(I, st, c):
    v = c.args[0]
    n = c.args[1]
    if v.op == "adt" and v.args[0] in ("it.slice", "it.own", "it.mut"):
        s, i, e, t = v.args[2:]
        y, f = I.fork(st, le_(add(i, n), e))
        out = []
        if y is not None:
            out.append((y, adt(v.args[0], 0, s, i, add(i, n), t)))
        if f is not None:
            out.append((f, v))
        return out
    return ret(st, adt("it.take", 0, v, n))
@M("Iterator::filter")
def it_filter(I, st, c):
    return ret(st, adt("it.filter", 0, c.args[0], c.args[1]))
@M("Iterator::filter_map")
def it_fmap(I, st, c):
    return ret(st, adt("it.fmap", 0, c.args[0], c.args[1]))
@M("Iterator::take_while")
def it_takew(I, st, c):
    return ret(st, adt("it.takew", 0, c.args[0], c.args[1]))
@M("Iterator::cloned", "Iterator::copied")
def it_cloned(I, st, c):
    v = c.args[0]
    if v.op == "adt" and v.args[0] == "it.slice":
        return ret(st, adt("it.own", 0, *v.args[2:]))
    return ret(st, adt("it.cloned", 0, v))
@M("Iterator::rev")
def it_rev(I, st, c):
    return ret(st, adt("it.rev", 0, c.args[0]))
def second(I, st, c):
    """the second argument as an iterator"""
    b = c.args[1]
    if not (b.op == "adt" and (b.args[0].startswith("it.") or b.args[0].endswith("::Range"))):
        c2 = ip.Call()
        c2.args, c2.tids, c2.dtid, c2.fid, c2.fn, c2.bb, c2.line, c2.I, c2.name, c2.f = [b], [c.tids[1]], None, c.fid, c.fn, c.bb, c.line, I, "IntoIterator::into_iter", {}
        r = into_iter(I, st, c2)
        if not r or len(r) != 1:
            return None
        b = r[0][1]
    return b
@M("Iterator::chain")
def it_chain(I, st, c):
    b = second(I, st, c)
    return ret(st, adt("it.chain", 0, c.args[0], b)) if b is not None else None
@M("Iterator::zip")
def it_zip(I, st, c):
    b = second(I, st, c)
    return ret(st, adt("it.zip", 0, c.args[0], b)) if b is not None else None
@M("Iterator::peekable")
def it_peekable(I, st, c):
    return ret(st, adt("it.peek", 0, c.args[0], NONE))
@M("Iterator::inspect")
def it_inspect(I, st, c):
    return None
@M("slice::chunks_exact", "slice::chunks")
def chunks(I, st, c):
    v = dr(I, st, c.args[0])
    n = c.args[1]
    if n.op != "int" or n.args[0] <= 0:
        return None
    q = mk("chunkcount", v, n)
    RANGE.setdefault(q, (0, BIG))
    BITS.setdefault(q, (64, False))
    w = n.args[0]
    st = st.assume(ge0(sub(slen(v), scale(q, w)))) or st
    if c.name.endswith("exact"):
        st = st.assume(ge0(sub(add(scale(q, w), terms.I(w - 1)), slen(v)))) or st
        return ret(st, adt("it.chunks", 0, v, ZERO, q, n))
    return None

def inext(I, st, it, c):
    """-> [(state, iterator', kind, item)] with kind in item / skip / end"""
    if it.op == "ref":
        out = []
        loc = it
        inner = inext(I, st, I.rd(st, it.args[0], it.args[1]), c)
        if inner is None:
            return None
        for s, it2, k, x in inner:
            s = setloc(I, s, loc, it2)
            out.append((s, loc, k, x))
        return out
    if it.op != "adt":
        return None
    p = it.args[0]
    a = it.args[2:]
    if p in ("it.slice", "it.own", "it.mut", "it.chunks"):
        s, i, n, t = a
        y, e = I.fork(st, lt(i, n))
        out = []
        if y is not None:
            if p == "it.slice":
                x = vref(elem(I, s, i, tido(t)))
            elif p == "it.own":
                x = elem(I, s, i, tido(t))
                if t.op == "chartid":
                    RANGE.setdefault(x, (0, 0x10FFFF)) if x.op != "int" else None
                    BITS.setdefault(x, (32, False)) if x.op != "int" else None
            elif p == "it.chunks":
                x = vref(ssub(s, mul(t, i), t))
            else:
                x = mk("ref", s.args[0], s.args[1] + (("i", i, tido(t)),))
            out.append((y, adt(p, 0, s, add(i, ONE), n, t), "item", x))
        if e is not None:
            out.append((e, it, "end", None))
        return out
    if p.endswith("ops::range::Range") or p.endswith("::Range"):
        lo, hi = a
        y, e = I.fork(st, lt(lo, hi))
        out = []
        if y is not None:
            out.append((y, adt(p, 0, add(lo, ONE), hi), "item", lo))
        if e is not None:
            out.append((e, it, "end", None))
        return out
    if p.endswith("RangeInclusive"):
        lo, hi = a[0], a[1]
        y, e = I.fork(st, le_(lo, hi))
        out = []
        if y is not None:
            out.append((y, adt(p, 0, add(lo, ONE), hi, *a[2:]), "item", lo))
        if e is not None:
            out.append((e, it, "end", None))
        return out
    if p.endswith("RangeFrom"):
        return [(st, adt(p, 0, add(a[0], ONE)), "item", a[0])]
    if p == "it.map":
        out = []
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        for s, i2, k, x in r:
            if k != "item":
                out.append((s, adt(p, 0, i2, a[1]), k, x))
                continue
            for s2, y in I.invoke(s, a[1], [x], c, "map"):
                out.append((s2, adt(p, 0, i2, a[1]), "item", y))
        return out
    if p in ("it.filter", "it.takew"):
        out = []
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        for s, i2, k, x in r:
            it2 = adt(p, 0, i2, a[1])
            if k != "item":
                out.append((s, it2, k, x))
                continue
            for s2, b in I.invoke(s, a[1], [vref(x)], c, "filter"):
                y, n = I.fork(s2, b)
                if y is not None:
                    out.append((y, it2, "item", x))
                if n is not None:
                    out.append((n, it2, "skip" if p == "it.filter" else "end", None))
        return out
    if p == "it.fmap":
        out = []
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        for s, i2, k, x in r:
            it2 = adt(p, 0, i2, a[1])
            if k != "item":
                out.append((s, it2, k, x))
                continue
            for s2, o in I.invoke(s, a[1], [x], c, "fmap"):
                for s3, var, pay in opt_cases(I, s2, o):
                    out.append((s3, it2, "item" if var else "skip", pay))
        return out
    if p == "it.enum":
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        out = []
        for s, i2, k, x in r:
            if k == "item":
                out.append((s, adt(p, 0, i2, add(a[1], ONE)), k, tup(a[1], x)))
            else:
                out.append((s, adt(p, 0, i2, a[1]), k, x))
        return out
    if p == "it.cloned":
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        return [(s, adt(p, 0, i2), k, d1(I, s, x) if k == "item" else x) for s, i2, k, x in r]
    if p == "it.rev":
        v = a[0]
        if v.op == "adt" and v.args[0] in ("it.slice", "it.own", "it.mut"):
            s, i, n, t = v.args[2:]
            y, e = I.fork(st, lt(i, n))
            out = []
            if y is not None:
                j = sub(n, ONE)
                if v.args[0] == "it.mut":
                    x = mk("ref", s.args[0], s.args[1] + (("i", j, tido(t)),))
                else:
                    x = elem(I, s, j, tido(t))
                    if v.args[0] == "it.slice":
                        x = vref(x)
                out.append((y, adt(p, 0, adt(v.args[0], 0, s, i, j, t)), "item", x))
            if e is not None:
                out.append((e, it, "end", None))
            return out
        if v.op == "adt" and v.args[0].endswith("::Range"):
            lo, hi = v.args[2:]
            y, e = I.fork(st, lt(lo, hi))
            out = []
            if y is not None:
                out.append((y, adt(p, 0, adt(v.args[0], 0, lo, sub(hi, ONE))), "item", sub(hi, ONE)))
            if e is not None:
                out.append((e, it, "end", None))
            return out
        if v.op == "adt" and v.args[0] == "it.map":
            return inext_via(I, st, adt("it.map", 0, adt(p, 0, v.args[2]), v.args[3]), c, lambda j: adt(p, 0, adt("it.map", 0, j.args[2].args[2], j.args[3])))
        return None
    if p == "it.chain":
        out = []
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        for s, i2, k, x in r:
            if k != "end":
                out.append((s, adt(p, 0, i2, a[1]), k, x))
            else:
                r2 = inext(I, s, a[1], c)
                if r2 is None:
                    return None
                for s2, j2, k2, x2 in r2:
                    out.append((s2, adt(p, 0, i2, j2), k2, x2))
        return out
    if p == "it.zip":
        out = []
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        for s, i2, k, x in r:
            if k != "item":
                out.append((s, adt(p, 0, i2, a[1]), k, x))
                continue
            r2 = inext(I, s, a[1], c)
            if r2 is None:
                return None
            for s2, j2, k2, x2 in r2:
                if k2 == "skip":
                    return None
                out.append((s2, adt(p, 0, i2, j2), k2, tup(x, x2) if k2 == "item" else None))
        return out
    if p == "it.take":
        y, e = I.fork(st, ge0(sub(a[1], ONE)))
        out = []
        if y is not None:
            r = inext(I, y, a[0], c)
            if r is None:
                return None
            for s, i2, k, x in r:
                out.append((s, adt(p, 0, i2, sub(a[1], ONE) if k == "item" else a[1]), k, x))
        if e is not None:
            out.append((e, it, "end", None))
        return out
    if p == "it.skip":
        r = inext(I, st, a[0], c)
        if r is None:
            return None
        out = []
        for s, i2, k, x in r:
            if k != "item":
                out.append((s, adt(p, 0, i2, a[1]), k, x))
                continue
            y, e = I.fork(s, ge0(sub(a[1], ONE)))
            if y is not None:
                out.append((y, adt(p, 0, i2, sub(a[1], ONE)), "skip", None))
            if e is not None:
                out.append((e, adt(p, 0, i2, a[1]), "item", x))
        return out
    if p == "it.peek":
        inner, pk = a
        if pk.op == "adt" and pk.args[1] == 1:
            o = pk.args[2]
            if o.op == "adt":
                return [(st, adt(p, 0, inner, NONE), "item" if o.args[1] else "end", o.args[2] if o.args[1] else None)]
            return None
        r = inext(I, st, inner, c)
        if r is None:
            return None
        return [(s, adt(p, 0, i2, NONE), k, x) for s, i2, k, x in r]
    if p == "it.entries":
        return None
    if p == OPT:
        return None
    return None

def inext_via(I, st, it, c, back):
    r = inext(I, st, it, c)
    if r is None:
        return None
    return [(s, back(j), k, x) for s, j, k, x in r]

def opt_cases(I, st, x, tid=None):
    if x.op == "adt":
        return [(st, x.args[1], x.args[2] if x.args[1] == 1 else None)]
    d = mk("discr", x)
    DISCRS.setdefault(d, [0, 1])
    RANGE.setdefault(d, (0, 1))
    r = []
    y, n = I.fork(st, ieq(d, ONE))
    if y is not None:
        p = fld(x, 1, 0, OPT, 1)
        if tid is not None:
            I.ann(p, tid)
        r.append((y, 1, p))
    if n is not None:
        r.append((n, 0, None))
    return r

@M("Iterator::next", "DoubleEndedIterator::next_back")
def it_next(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    it = I.rd(st, l.args[0], l.args[1])
    back = c.name.endswith("back")
    if it.op == "adt" and it.args[0] == "it.caps":
        return cap_next(I, st, l, it, c)
    if it.op != "adt":
        return generic_next(I, st, l, it, c)
    if back:
        r = inext(I, st, adt("it.rev", 0, it), c)
        if r is None:
            return None
        r = [(s, j.args[2], k, x) for s, j, k, x in r]
    else:
        if skips(it):
            out = []
            for tag, s, acc in consume(I, st, mk("ref", l.args[0], l.args[1]), c, UNIT, lambda s, item, acc: [(s, ("brk", item))]):
                out.append((s, some(tag[1]) if tag != "done" else NONE))
            return out
        r = inext(I, st, it, c)
    if r is None:
        return None
    out = []
    for s, it2, k, x in r:
        s = setloc(I, s, l, it2)
        out.append((s, some(x) if k == "item" else NONE))
    return out

def generic_next(I, st, l, it, c):
    return None

def skips(it):
    if it.op != "adt":
        return False
    if it.args[0] in ("it.filter", "it.fmap", "it.skip"):
        return True
    return any(x.op == "adt" and x.args[0].startswith("it.") and skips(x) for x in it.args[2:])

@M("Peekable::peek")
def peek(I, st, c):
    l = rloc(I, st, c.args[0])
    it = I.rd(st, l.args[0], l.args[1])
    if it.op != "adt" or it.args[0] != "it.peek":
        return None
    inner, pk = it.args[2:]
    if pk.op == "adt" and pk.args[1] == 1:
        o = pk.args[2]
        return ret(st, some(vref(o.args[2])) if o.args[1] else NONE)
    r = inext(I, st, inner, c)
    if r is None:
        return None
    out = []
    for s, i2, k, x in r:
        if k == "skip":
            return None
        o = some(x) if k == "item" else NONE
        out.append((setloc(I, s, l, adt("it.peek", 0, i2, some(o))), some(vref(x)) if k == "item" else NONE))
    return out

def setr(st, root, v):
    s = st.copy()
    s.store[root] = v
    return s

def consume(I, st, it, c, init, body, tag="cons"):
    """drive an iterator to its end with an accumulator register.
    body(state, item, accroot) -> [(state, None | ('brk', value))]
    -> [('done' | ('brk', value), state, accumulator)]"""
    if it.op == "adt" and it.args[0] == "it.chain":
        out = []
        for t, s, acc in consume(I, st, it.args[2], c, init, body, tag + "1"):
            if t == "done":
                out.extend(consume(I, s, it.args[3], c, acc, body, tag + "2"))
            else:
                out.append((t, s, acc))
        return out
    fid = ip.fid_of(tag, c.fid, c.bb, c.name, I.uctx)
    rit = ("r", fid, "it")
    racc = ("r", fid, "acc")
    I.pinned.add(rit)
    I.pinned.add(racc)
    probe = inext(I, st, it, c) if False else True
    s0 = st.copy()
    s0.store[rit] = it
    s0.store[racc] = init
    failed = []
    rbrk = ("r", fid, "brk")
    I.pinned.add(rbrk)
    def step(s):
        exits, backs = [], []
        r = inext(I, s, s.store[rit], c)
        if r is None:
            raise Inconclusive("unsupported iterator in %s: %s" % (c.name, show(s.store[rit])[:80]))
        for s2, it2, k, x in r:
            s2 = s2.copy()
            s2.store[rit] = it2
            if k == "end":
                exits.append(("done", s2))
            elif k == "skip":
                backs.append(s2)
            else:
                for s3, b in body(s2, x, racc):
                    if b is None:
                        backs.append(s3)
                    else:
                        s3 = s3.copy()
                        s3.store[rbrk] = b[1]
                        exits.append(("brk", s3))
        return exits, I.merge(backs)
    out = []
    for t, s in loops.abstract_loop(I, s0, (fid, "it"), step, c.fn):
        s = s.copy()
        acc = s.store.pop(racc)
        s.store.pop(rit, None)
        b = s.store.pop(rbrk, None)
        out.append(("done" if t == "done" else ("brk", b), s, acc))
    return out

def desttype(I, c):
    return I.P.types[I.strip(c.dtid)] if c.dtid is not None else None

@M("Iterator::collect", "FromIterator::from_iter")
def collect(I, st, c):
    ty = desttype(I, c)
    it = c.args[0]
    if c.name == "FromIterator::from_iter":
        r = into_iter(I, st, c)
        if r is None:
            return None
        st, it = r[0]
    if ty is None or ty["k"] != "adt":
        return None
    p = ty["path"].split("::")[-1]
    if p in ("Result", "Option"):
        inner = I.P.types[I.strip(ty["args"][0])]
        def body(s, item, acc):
            out = []
            if p == "Result":
                d = mk("discr", item) if item.op != "adt" else None
                if item.op == "adt":
                    cs = [(s, item.args[1], item.args[2])]
                else:
                    DISCRS.setdefault(d, [0, 1])
                    RANGE.setdefault(d, (0, 1))
                    y, n = I.fork(s, ieq(d, ZERO))
                    cs = []
                    if y is not None:
                        cs.append((y, 0, fld(item, 0, 0, RES, 1)))
                    if n is not None:
                        cs.append((n, 1, fld(item, 1, 0, RES, 1)))
                for s2, v, x in cs:
                    if v == 0:
                        out.append((setr(s2, acc, cat(s2.store[acc], one(x))), None))
                    else:
                        out.append((s2, ("brk", err(x))))
            else:
                for s2, v, x in opt_cases(I, s, item):
                    if v:
                        out.append((setr(s2, acc, cat(s2.store[acc], one(x))), None))
                    else:
                        out.append((s2, ("brk", NONE)))
            return out
        out = []
        for t, s, acc in consume(I, st, it, c, EMPTY, body):
            if t == "done":
                v = acc if inner.get("path", "").split("::")[-1] not in ("HashMap", "HashSet") else mk("setof", acc)
                out.append((s, ok(v) if p == "Result" else some(v)))
            else:
                out.append((s, t[1]))
        return out
    if p in ("Vec", "VecDeque", "HashSet", "BTreeSet", "HashMap", "BTreeMap", "String"):
        direct = it.op == "adt" and it.args[0] == "it.own" and is_seq(it.args[2]) and slen(it.args[2]) is it.args[4] and (p != "String" or it.args[3] is ZERO)
        out = []
        if direct:
            res = [("done", st, it.args[2] if it.args[3] is ZERO else ssub(it.args[2], it.args[3], sub(it.args[4], it.args[3])))]
        else:
            def body(s, item, acc):
                if p == "String":
                    x = dr(I, s, item)
                    x = x if is_seq(x) else char_utf8(s, x)
                    return [(setr(s, acc, cat(s.store[acc], x)), None)]
                return [(setr(s, acc, cat(s.store[acc], one(item))), None)]
            res = consume(I, st, it, c, EMPTY, body)
        for t, s, acc in res:
            if p in ("HashSet", "BTreeSet", "HashMap", "BTreeMap"):
                acc = mk("setof", acc)
            out.append((s, acc))
        return out
    return None

@M("Extend::extend")
def extend(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    v = I.rd(st, l.args[0], l.args[1])
    it = c.args[1]
    if not (it.op == "adt" and (it.args[0].startswith("it.") or it.args[0].endswith("::Range"))):
        c2 = ip.Call()
        c2.args, c2.tids, c2.dtid, c2.fid, c2.fn, c2.bb, c2.line, c2.I, c2.name, c2.f = [it], [c.tids[1]], None, c.fid, c.fn, c.bb, c.line, I, "IntoIterator::into_iter", {}
        r = into_iter(I, st, c2)
        if r is None:
            return None
        if len(r) > 1:
            out = []
            for s, x in r:
                c3 = ip.Call()
                for a in ip.Call.__slots__:
                    setattr(c3, a, getattr(c, a, None))
                c3.args = [c.args[0], x] + list(c.args[2:])
                out.extend(extend(I, s, c3) or [])
            return out
        it = r[0][1]
    isset = v.op in ("mnew", "setof")
    if not isset and not is_seq(v):
        return None
    isstr = I.P.types[I.strip(c.tids[0])].get("to") is not None and I.P.tystr(I.strip(I.P.types[I.strip(c.tids[0])]["to"])).endswith("String")
    def body(s, item, acc):
        if isstr:
            x = dr(I, s, item)
            x = x if is_seq(x) else char_utf8(s, x)
        else:
            x = one(dr(I, s, item) if item.op == "vref" and c.f["args"] and I.P.types[c.f["args"][-1]]["k"] == "ref" else item)
        return [(setr(s, acc, cat(s.store[acc], x)), None)]
    out = []
    for t, s, acc in consume(I, st, it, c, EMPTY, body):
        if isset:
            w = v if acc is EMPTY else mk("setof", cat(v.args[0] if v.op == "setof" else EMPTY, acc))
        else:
            w = cat(v, acc)
        out.append((setloc(I, s, l, w), UNIT))
    return out

@M("Iterator::any", "Iterator::all")
def it_any(I, st, c):
    anyp = c.name.endswith("any")
    f = c.args[1]
    def body(s, item, acc):
        out = []
        for s2, b in I.invoke(s, f, [item], c, "any"):
            y, n = I.fork(s2, b)
            hit, miss = (y, n) if anyp else (n, y)
            if hit is not None:
                out.append((hit, ("brk", UNIT)))
            if miss is not None:
                out.append((miss, None))
        return out
    return [(s, B(anyp) if t != "done" else B(not anyp)) for t, s, acc in consume(I, st, c.args[0], c, UNIT, body)]

@M("Iterator::find", "Iterator::find_map", "Iterator::position")
def it_find(I, st, c):
    f = c.args[1]
    k = c.name.split("::")[1]
    def body(s, item, acc):
        out = []
        arg = vref(item) if k == "find" else item
        for s2, b in I.invoke(s, f, [arg], c, k):
            if k == "find_map":
                for s3, v, x in opt_cases(I, s2, b):
                    out.append((s3, ("brk", x)) if v else (s3, None))
                continue
            y, n = I.fork(s2, b)
            if y is not None:
                out.append((y, ("brk", item if k == "find" else y.store[acc])))
            if n is not None:
                out.append((setr(n, acc, add(n.store[acc], ONE)) if k == "position" else n, None))
        return out
    return [(s, NONE if t == "done" else some(t[1])) for t, s, acc in consume(I, st, c.args[0], c, ZERO if k == "position" else UNIT, body)]

@M("Iterator::rposition", "DoubleEndedIterator::rfind")
def it_rfind(I, st, c):
    k = c.name.split("::")[1]
    it = c.args[0]
    if it.op != "adt":
        l = rloc(I, st, it)
        it = I.rd(st, l.args[0], l.args[1]) if l is not None else it
    if it.op != "adt" or it.args[0] not in ("it.slice", "it.own"):
        return None
    n = sub(it.args[4], it.args[3])
    f = c.args[1]
    def body(s, item, acc):
        out = []
        for s2, b in I.invoke(s, f, [vref(item) if k == "rfind" else item], c, k):
            y, m = I.fork(s2, b)
            if y is not None:
                out.append((y, ("brk", item if k == "rfind" else sub(sub(n, ONE), y.store[acc]))))
            if m is not None:
                out.append((setr(m, acc, add(m.store[acc], ONE)), None))
        return out
    # what is left of the iterator afterwards is not followed: only for one that is not used again
    return [(s, NONE if t == "done" else some(t[1])) for t, s, acc in consume(I, st, adt("it.rev", 0, it), c, ZERO, body)]

@M("Iterator::fold", "Iterator::for_each", "Iterator::count", "Iterator::last", "Iterator::sum", "Iterator::try_for_each", "Iterator::try_fold",
   "Iterator::max", "Iterator::min")
def it_fold(I, st, c):
    k = c.name.split("::")[1]
    if k == "fold":
        f = c.args[2]
        def body(s, item, acc):
            return [(setr(s2, acc, v), None) for s2, v in I.invoke(s, f, [s.store[acc], item], c, k)]
        return [(s, acc) for t, s, acc in consume(I, st, c.args[0], c, c.args[1], body)]
    if k == "for_each":
        f = c.args[1]
        def body(s, item, acc):
            return [(s2, None) for s2, v in I.invoke(s, f, [item], c, k)]
        return [(s, UNIT) for t, s, acc in consume(I, st, c.args[0], c, UNIT, body)]
    if k == "try_for_each":
        f = c.args[1]
        ty = desttype(I, c)
        if ty is None or ty.get("path") not in (RES, OPT):
            return None
        def body(s, item, acc):
            out = []
            for s2, v in I.invoke(s, f, [item], c, k):
                if v.op == "adt":
                    good = v.args[1] == (0 if ty["path"] == RES else 1)
                    out.append((s2, None if good else ("brk", v)))
                    continue
                d = mk("discr", v)
                DISCRS.setdefault(d, [0, 1])
                RANGE.setdefault(d, (0, 1))
                y, n = I.fork(s2, ieq(d, ZERO if ty["path"] == RES else ONE))
                if y is not None:
                    out.append((y, None))
                if n is not None:
                    out.append((n, ("brk", v)))
            return out
        return [(s, (ok(UNIT) if ty["path"] == RES else some(UNIT)) if t == "done" else t[1]) for t, s, acc in consume(I, st, c.args[0], c, UNIT, body)]
    if k == "count":
        def body(s, item, acc):
            return [(setr(s, acc, add(s.store[acc], ONE)), None)]
        return [(s, acc) for t, s, acc in consume(I, st, c.args[0], c, ZERO, body)]
    return None

# --------------------------------------------------------------------------- the ? operator
CF = "core::ops::control_flow::ControlFlow"

@M("Try::branch")
def try_branch(I, st, c):
    v = c.args[0]
    ty = desttype(I, c)
    if v.op != "adt" or v.args[0] not in (RES, OPT) or ty is None or ty.get("path") != CF:
        return None
    if v.args[0] == RES:
        if v.args[1] == 0:
            return ret(st, adt(CF, 0, v.args[2]))
        return ret(st, adt(CF, 1, v))
    if v.args[1] == 1:
        return ret(st, adt(CF, 0, v.args[2]))
    return ret(st, adt(CF, 1, v))

# --------------------------------------------------------------------------- calls through Fn traits
@M("FnMut::call_mut", "FnOnce::call_once", "Fn::call")
def fncall(I, st, c):
    a = c.args[1]
    args = list(a.args[2:]) if a.op == "adt" and a.args[0] == "()" else [a]
    f = c.args[0]
    v = dr(I, st, f)
    if v.op == "mk" or (v.op not in ("adt", "fnv")):
        # zero-sized function item passed by type
        ty = I.P.types[I.strip(c.tids[0])] if c.tids and c.tids[0] is not None else None
        for _ in range(3):
            if ty is not None and ty["k"] == "ref":
                ty = I.P.types[I.strip(ty["to"])]
        return None
    return I.invoke(st, f, args, c, "call")

# --------------------------------------------------------------------------- maps and sets
MAPOPS = {"mnew", "mins", "mrem", "setof"}
MAPS = {}

@M("HashMap::new", "HashSet::new", "BTreeMap::new", "BTreeSet::new", "HashMap::with_capacity", "HashSet::with_capacity")
def mnew(I, st, c):
    return ret(st, mk("mnew"))

@M("Default::default")
def default(I, st, c):
    ty = desttype(I, c)
    if ty is None:
        return None
    k = ty["k"]
    if k == "int":
        return ret(st, ZERO)
    if k == "bool":
        return ret(st, FALSE)
    if k == "tuple" and not ty.get("args", ty.get("elems", [])):
        return ret(st, UNIT)
    if k == "adt":
        if ty["path"] in SEQTYPES:
            return ret(st, EMPTY)
        if ty["path"] == OPT:
            return ret(st, NONE)
        if ty["path"].split("::")[-1] in ("HashMap", "HashSet"):
            return ret(st, mk("mnew"))
    return None

def mlookup(I, st, m, key, vt, c):
    """-> [(state, present?, value)]"""
    out = []
    cur = st
    while True:
        if cur is None:
            return out
        if m.op == "mins":
            k2 = m.args[1]
            e = eq(k2, key)
            y, n = I.fork(cur, e)
            if y is not None:
                out.append((y, True, m.args[2]))
            cur = n
            m = m.args[0]
            continue
        if m.op == "mrem":
            e = eq(m.args[1], key)
            y, n = I.fork(cur, e)
            if y is not None:
                out.append((y, False, None))
            cur = n
            m = m.args[0]
            continue
        if m.op == "mnew":
            out.append((cur, False, None))
            return out
        h = mk("has", m, key)
        y, n = I.fork(cur, h)
        if y is not None:
            v = mk("mget", m, key)
            if vt is not None:
                I.ann(v, vt)
            out.append((y, True, v))
        if n is not None:
            out.append((n, False, None))
        return out

def mapval_tid(I, tid):
    for _ in range(5):
        ty = I.P.types[I.strip(tid)]
        if ty["k"] == "ref":
            tid = ty["to"]
            continue
        break
    if ty["k"] == "adt" and ty["path"].split("::")[-1] in ("HashMap", "BTreeMap"):
        return ty["args"][1]
    return None

@M("HashMap::values", "HashMap::keys", "HashSet::iter")
def mapwalk(I, st, c):
    """the entries of a table, in an order nothing is known about"""
    m = dr(I, st, c.args[0])
    t = c.tids[0]
    while isinstance(t, int) and I.P.types[I.strip(t)]["k"] == "ref":
        t = I.P.types[I.strip(t)]["to"]
    ty = I.P.types[I.strip(t)] if isinstance(t, int) else None
    if ty is None or ty["k"] != "adt":
        return None
    args = [a for a in ty.get("args") or [] if isinstance(a, int)]
    i = 1 if c.name == "HashMap::values" else 0
    if len(args) <= i:
        return None
    q = mk("walk", c.name, m)
    ensure_seq(q)
    LENRANGE.setdefault(q, (0, LBIG))
    return ret(st, adt("it.slice", 0, q, ZERO, slen(q), tidt(args[i])))

@M("HashMap::get", "BTreeMap::get", "HashSet::get")
def mget(I, st, c):
    m = dr(I, st, c.args[0])
    key = dr(I, st, c.args[1])
    out = []
    for s, p, v in mlookup(I, st, m, key, mapval_tid(I, c.tids[0]), c):
        out.append((s, some(vref(v if v is not UNIT else key)) if p else NONE))
    return out

@M("RangeInclusive::contains", "Range::contains", "RangeFrom::contains", "RangeTo::contains", "RangeToInclusive::contains")
def rcontains(I, st, c):
    r = dr(I, st, c.args[0])
    x = dr(I, st, c.args[1])
    if r.op != "adt" or not is_int(x):
        return None
    a, kind = r.args[2:], c.name.split("::")[0]
    lo = a[0] if kind in ("RangeInclusive", "Range", "RangeFrom") else None
    hi = {"RangeInclusive": 1, "Range": 1, "RangeTo": 0, "RangeToInclusive": 0}.get(kind)
    hi = None if hi is None else a[hi]
    if kind == "RangeInclusive" and (len(a) < 3 or a[2] is not FALSE) or any(y is not None and not is_int(y) for y in (lo, hi)):
        return None
    out, cur = [], st
    for cond in ([le_(lo, x)] if lo is not None else []) + ([] if hi is None else [le_(x, hi) if "Inclusive" in kind else le_(add(x, ONE), hi)]):
        if cur is None:
            break
        y, e = I.fork(cur, cond)
        if e is not None:
            out.append((e, FALSE))
        cur = y
    if cur is not None:
        out.append((cur, TRUE))
    return out

@M("HashMap::contains_key", "HashSet::contains", "BTreeMap::contains_key", "BTreeSet::contains")
def mcontains(I, st, c):
    m = dr(I, st, c.args[0])
    key = dr(I, st, c.args[1])
    return [(s, B(p)) for s, p, v in mlookup(I, st, m, key, None, c)]

@M("HashMap::insert", "HashSet::insert", "BTreeMap::insert", "BTreeSet::insert")
def minsert(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    m = I.rd(st, l.args[0], l.args[1])
    key = c.args[1]
    isset_ = c.name.split("::")[0].endswith("Set")
    val = UNIT if isset_ else c.args[2]
    key = dr(I, st, key)
    I.event("mapins", c.fn, c.line, c.name, None, None, (l, key, val))
    s = setloc(I, st, l, mk("mins", m, key, val))
    r = mk("mold", m, key)
    if isset_:
        return ret(s, not_(mk("has", m, key)))
    if c.dtid is not None:
        I.ann(r, c.dtid)
    return ret(s, r)

@M("HashMap::remove", "HashSet::remove", "BTreeMap::remove", "BTreeSet::remove")
def mremove(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    m = I.rd(st, l.args[0], l.args[1])
    key = dr(I, st, c.args[1])
    I.event("maprem", c.fn, c.line, c.name, None, None, (l, key))
    s = setloc(I, st, l, mk("mrem", m, key))
    if c.name.split("::")[0].endswith("Set"):
        return ret(s, mk("has", m, key))
    r = mk("mold", m, key)
    if c.dtid is not None:
        I.ann(r, c.dtid)
    return ret(s, r)

@M("HashMap::get_mut", "BTreeMap::get_mut")
def mget_mut(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    m = I.rd(st, l.args[0], l.args[1])
    key = dr(I, st, c.args[1])
    vt = mapval_tid(I, c.tids[0])
    out = []
    for s, p, v in mlookup(I, st, m, key, vt, c):
        out.append((s, some(mk("ref", l.args[0], l.args[1] + (("m", key, vt),))) if p else NONE))
    return out

@M("HashMap::entry", "BTreeMap::entry")
def mentry(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    return ret(st, adt("map.entry", 0, l, dr(I, st, c.args[1]), tidt(mapval_tid(I, c.tids[0]))))

@M("Entry::and_modify")
def and_modify(I, st, c):
    e = c.args[0]
    if e.op != "adt" or e.args[0] != "map.entry":
        return None
    l, key, vt = e.args[2:]
    out = []
    for s, p, v in mlookup(I, st, I.rd(st, l.args[0], l.args[1]), key, tido(vt), c):
        if p:
            out.extend((s2, e) for s2, x in I.invoke(s, c.args[1], [mk("ref", l.args[0], l.args[1] + (("m", key, tido(vt)),))], c, "am"))
        else:
            out.append((s, e))
    return out

@M("Entry::or_insert", "Entry::or_insert_with", "Entry::or_default")
def or_insert(I, st, c):
    e = c.args[0]
    if e.op != "adt" or e.args[0] != "map.entry":
        return None
    l, key, vt = e.args[2:]
    m = I.rd(st, l.args[0], l.args[1])
    out = []
    for s, p, v in mlookup(I, st, m, key, tido(vt), c):
        r = mk("ref", l.args[0], l.args[1] + (("m", key, tido(vt)),))
        if p:
            out.append((s, r))
            continue
        if c.name.endswith("or_insert"):
            vals = [(s, c.args[1])]
        elif c.name.endswith("or_insert_with"):
            vals = I.invoke(s, c.args[1], [], c, "oiw")
        else:
            return None
        for s2, x in vals:
            out.append((setloc(I, s2, l, mk("mins", m, key, x)), r))
    return out

@M("HashMap::len", "HashSet::len", "HashMap::is_empty", "HashSet::is_empty")
def maplen(I, st, c):
    m = dr(I, st, c.args[0])
    if c.name.endswith("is_empty"):
        if m.op == "mnew":
            return ret(st, TRUE)
        if m.op == "mins":
            return ret(st, FALSE)
        return ret(st, mk("mempty", m))
    t = mk("maplen", m)
    I.ann(t, c.dtid)
    return ret(st, t)

@M("HashMap::clear", "HashSet::clear")
def mclear(I, st, c):
    l = rloc(I, st, c.args[0])
    return ret(setloc(I, st, l, mk("mnew")), UNIT)

# --------------------------------------------------------------------------- mem
@M("mem::take", "mem::replace", "mem::swap", "Option::take", "Option::replace", "Option::insert")
def memtake(I, st, c):
    l = rloc(I, st, c.args[0]) if c.args[0].op == "ref" else None
    if l is None:
        return None
    l = c.args[0]
    v = I.rd(st, l.args[0], l.args[1])
    if c.name == "mem::swap":
        m = c.args[1]
        w = I.rd(st, m.args[0], m.args[1])
        return ret(setloc(I, setloc(I, st, l, w), m, v), UNIT)
    if c.name == "mem::replace":
        return ret(setloc(I, st, l, c.args[1]), v)
    if c.name == "mem::take":
        r = default(I, st, c)
        if r is None:
            return None
        return ret(setloc(I, st, l, r[0][1]), v)
    return None

@M("mem::drop", "drop", "mem::forget")
def memdrop(I, st, c):
    return ret(st, UNIT)

# --------------------------------------------------------------------------- numbers
INTM = {}
def IM(*names):
    def d(f):
        for n in names:
            INTM[n] = f
        return f
    return d

def tyinfo(t):
    return INTW[t], t[0] == "i"

@IM("to_le_bytes", "to_ne_bytes")
def to_le(I, st, c, t):
    return ret(st, enc(t, c.args[0]))
@IM("to_be_bytes")
def to_be(I, st, c, t):
    e = enc(t, c.args[0])
    n = INTW[t] // 8
    return ret(st, cat(*[one(sat(e, I_(i))) for i in reversed(range(n))]))
@IM("from_le_bytes", "from_ne_bytes")
def from_le(I, st, c, t):
    v = decode(t, c.args[0])
    if v.op == "le":
        BITS.setdefault(v, tyinfo(t))
    return ret(st, v)
@IM("from_be_bytes")
def from_be(I, st, c, t):
    v = c.args[0]
    n = INTW[t] // 8
    return ret(st, decode(t, cat(*[one(sat(v, I_(i))) for i in reversed(range(n))])))
@IM("checked_add", "checked_sub", "checked_mul")
def checked(I, st, c, t):
    f = {"add": add, "sub": sub, "mul": mul}[c.name.split("_")[1]]
    v = f(c.args[0], c.args[1])
    lo, hi = irange(*tyinfo(t))
    y, n = I.fork(st, and_(le_(I_(lo), v), le_(v, I_(hi))))
    out = []
    if y is not None:
        if v.op not in ("int", "lin"):
            BITS.setdefault(v, tyinfo(t))
        out.append((y, some(v)))
    if n is not None:
        out.append((n, NONE))
    return out
@IM("wrapping_add", "wrapping_sub", "wrapping_mul")
def wrapping(I, st, c, t):
    f = {"add": add, "sub": sub, "mul": mul}[c.name.split("_")[1]]
    return ret(st, wrap(f(c.args[0], c.args[1]), *tyinfo(t)))
@IM("saturating_sub")
def satsub_(I, st, c, t):
    a, b = c.args
    y, n = I.fork(st, le_(b, a))
    if t[0] != "u":
        return None
    out = []
    if y is not None:
        out.append((y, sub(a, b)))
    if n is not None:
        out.append((n, ZERO))
    return out
@IM("saturating_add")
def satadd_(I, st, c, t):
    a, b = c.args
    lo, hi = irange(*tyinfo(t))
    v = add(a, b)
    y, n = I.fork(st, le_(v, I_(hi)))
    if t[0] != "u":
        return None
    out = []
    if y is not None:
        out.append((y, v))
    if n is not None:
        out.append((n, I_(hi)))
    return out
@IM("is_ascii")
def is_ascii(I, st, c, t):
    v = dr(I, st, c.args[0])
    return ret(st, le_(v, I_(127)))
@IM("is_ascii_digit", "is_ascii_alphabetic", "is_ascii_alphanumeric", "is_ascii_control", "is_ascii_graphic", "is_ascii_whitespace")
def asciicls(I, st, c, t):
    v = dr(I, st, c.args[0])
    k = CHARCLS.get(c.name.split("::")[1])
    if k:
        return ret(st, anyof(v, k))
    return ret(st, mk("cls", c.name.split("::")[1], v))
CHARCLS = {"is_ascii_digit": [(48, 57)], "is_ascii_alphabetic": [(65, 90), (97, 122)], "is_ascii_alphanumeric": [(48, 57), (65, 90), (97, 122)],
           "is_ascii_control": [(0, 31), (127, 127)], "is_ascii_graphic": [(33, 126)], "is_ascii_whitespace": [(9, 10), (12, 13), (32, 32)]}
def anyof(v, ranges):
    r = FALSE
    for a, b in ranges:
        r = or_(r, and_(le_(I_(a), v), le_(v, I_(b))))
    return r
@IM("abs_diff")
def abs_diff(I, st, c, t):
    a, b = c.args
    y, n = I.fork(st, le_(b, a))
    out = []
    if y is not None:
        out.append((y, sub(a, b)))
    if n is not None:
        out.append((n, sub(b, a)))
    return out

@M("Ord::min", "cmp::min", "Ord::max", "cmp::max")
def minmax(I, st, c):
    a, b = c.args
    if not (is_int(a) and is_int(b)):
        return None
    mn = c.name.endswith("min")
    y, n = I.fork(st, le_(a, b))
    out = []
    if y is not None:
        out.append((y, a if mn else b))
    if n is not None:
        out.append((n, b if mn else a))
    return out

@M("f32::to_le_bytes", "f64::to_le_bytes")
def f_to_le(I, st, c):
    return ret(st, enc(c.name[:3], c.args[0]))
@M("f32::from_le_bytes", "f64::from_le_bytes")
def f_from_le(I, st, c):
    return ret(st, decode(c.name[:3], c.args[0]))
@M("f32::from_bits", "f64::from_bits")
def f_from_bits(I, st, c):
    return ret(st, decode(c.name[:3], enc("u" + c.name[1:3], c.args[0])))
@M("f32::to_bits", "f64::to_bits")
def f_to_bits(I, st, c):
    return ret(st, decode("u" + c.name[1:3], enc(c.name[:3], c.args[0])))

BOM = {"read_u16": "u16", "read_u32": "u32", "read_u64": "u64", "read_i16": "i16", "read_i32": "i32", "read_i64": "i64", "read_f32": "f32", "read_f64": "f64"}
def bo_read(I, st, c):
    k = BOM[c.name.split("::")[1]]
    s = dr(I, st, c.args[0])
    self_ = I.P.tystr(c.f["self"]) if c.f.get("self") is not None else (c.f.get("rpath") or "")
    w = ENCW[k]
    st = I.oblige(st, "panic", c.fn, c.line, le_(I_(w), slen(s)), ("byteorder", c.name, slen(s)))
    if st is None:
        return []
    b = ssub(s, ZERO, I_(w))
    if "BigEndian" in self_ or "NetworkEndian" in self_:
        b = cat(*[one(sat(b, I_(i))) for i in reversed(range(w))])
    elif "LittleEndian" not in self_:
        return None
    return ret(st, decode(k, b))
for n in BOM:
    MODELS["ByteOrder::" + n] = bo_read

@M("TryFrom::try_from", "TryInto::try_into")
def try_from(I, st, c):
    v = c.args[0]
    ty = desttype(I, c)
    if ty is None or ty.get("path") != RES:
        return None
    t = I.P.types[I.strip(ty["args"][0])]
    if t["k"] == "int" and is_int(v):
        lo, hi = irange(t["bits"], t["signed"])
        y, n = I.fork(st, and_(le_(I_(lo), v), le_(v, I_(hi))))
        out = []
        if y is not None:
            out.append((y, ok(v)))
        if n is not None:
            out.append((n, err(mk("convfail"))))
        return out
    if t["k"] == "array":
        s = dr(I, st, v)
        n_ = I.arrlen(t)
        if n_ is None:
            return None
        y, n = I.fork(st, ieq(slen(s), I_(n_)))
        out = []
        if y is not None:
            out.append((y, ok(s)))
        if n is not None:
            out.append((n, err(mk("convfail"))))
        return out
    if t["k"] == "ref" and I.P.types[I.strip(t["to"])]["k"] == "array":
        s = dr(I, st, v)
        n_ = I.arrlen(I.P.types[I.strip(t["to"])])
        if n_ is None:
            return None
        y, n = I.fork(st, ieq(slen(s), I_(n_)))
        out = []
        if y is not None:
            out.append((y, ok(vref(s))))
        if n is not None:
            out.append((n, err(mk("convfail"))))
        return out
    return None

@M("From::from", "Into::into", "CloneToUninit::clone_to_uninit")
def from_(I, st, c):
    v = c.args[0]
    if c.dtid is None:
        return None
    d = I.P.types[I.strip(c.dtid)]
    s = I.P.types[I.strip(c.tids[0])] if c.tids[0] is not None else {"k": "?"}
    if d["k"] == "int" and s["k"] in ("int", "char"):
        return ret(st, v)
    if d["k"] == "int" and s["k"] == "bool":
        return ret(st, b2i(v))
    if d["k"] == "char" and s["k"] == "int":
        return ret(st, v)
    if d["k"] == "float" and s["k"] in ("float", "int"):
        return ret(st, mk("fcast", "from", s["s"], d["s"], v))
    if d["k"] in ("str", "slice") or (d["k"] == "adt" and d["path"] in SEQTYPES):
        x = dr(I, st, v)
        if s["k"] == "param":
            t = mk("into", x)
            LENRANGE.setdefault(t, (0, LBIG))
            I.ann(t, c.dtid)
            return ret(st, t)
        if s["k"] == "char":
            return ret(st, char_utf8(st, x))
        if s["k"] in ("ref", "str", "slice", "array") or (s["k"] == "adt" and s["path"] in SEQTYPES):
            return ret(st, x)
    if d["k"] == "adt" and s is d:
        return ret(st, v)
    if d["k"] == "adt" and d["path"].split("::")[-1] in ("HashSet", "HashMap") and is_seq(v):
        return ret(st, mk("setof", v))
    if d["k"] == "adt" and d["path"] == OPT and v.op != "adt":
        return ret(st, some(v))
    return None

# --------------------------------------------------------------------------- io
IOERR = "io.err"

def errkind(I, name):
    for t in I.P.types:
        if t["k"] == "adt" and t["path"].endswith("::ErrorKind") and t["variants"]:
            for i, v in enumerate(t["variants"]):
                if v["name"] == name:
                    return adt(t["path"], i)
    return None

STREAM = mk("sym", "STREAM")
LENRANGE[STREAM] = (0, BIG)

def stream_pos(st):
    p = st.store.get(("g", "pos"))
    return p if p is not None else ZERO

@M("Read::read_exact")
def read_exact(I, st, c):
    if I.opts.get("noread"):
        return None
    l, v = seqw(I, st, c, 1)
    n = slen(v)
    pos = stream_pos(st)
    av = ge0(sub(sub(slen(STREAM), pos), n))
    out = []
    k = st.store.get(("g", "nreads"), ZERO)
    I.event("read", c.fn, c.line, "read_exact", None, st, (pos, n))
    # nothing is ever delivered after the end was reported
    if st.store.get(("g", "eof")) is TRUE:
        y, e = None, st
    else:
        y, e = I.fork(st, av)
    if y is not None:
        s = setloc(I, y, l, ssub(STREAM, pos, n))
        s.store[("g", "pos")] = add(pos, n)
        out.append((s, ok(UNIT)))
    if e is not None:
        s = e.copy()
        u = mk("undel", I.uniq(c))
        if n.op == "int":
            FIXLEN.setdefault(u, n.args[0])
        LENRANGE.setdefault(u, (0, LBIG))
        s = setloc(I, s, l, u)
        if n.op != "int":
            s2 = s.assume(ieq(slen(u), n))
            s = s2 if s2 is not None else s
            s = s.copy()
        s.store[("g", "eof")] = TRUE
        if ("g", "eofpos") not in s.store:
            s.store[("g", "eofpos")] = pos
            s.store[("g", "eofn")] = n
        if ("g", "eofreads") in s.store:
            s.store[("g", "eofreads")] = add(s.store[("g", "eofreads")], ONE)
        out.append((s, err(adt(IOERR, 0, errkind(I, "UnexpectedEof")))))
    # any other failure
    s = st.copy()
    u = mk("undel", I.uniq(c), "io")
    if n.op == "int":
        FIXLEN.setdefault(u, n.args[0])
    LENRANGE.setdefault(u, (0, LBIG))
    s = setloc(I, s, l, u)
    kd = mk("sym", "iokind", I.uniq(c))
    ek = errkind(I, "UnexpectedEof")
    if ek is not None:
        tid = I.P.find_adt(ek.args[0])
        I.ann(kd, tid)
        d = I.discr(kd, tid)
        s2 = s.assume(not_(ieq(d, I.discr(ek, tid))))
        s = s2 if s2 is not None else s
        s = s.copy()
    s.store[("g", "ioerr")] = TRUE
    out.append((s, err(adt(IOERR, 0, kd))))
    return out

@M("Read::read")
def read_(I, st, c):
    if I.opts.get("noread"):
        return None
    l, v = seqw(I, st, c, 1)
    n = slen(v)
    pos = stream_pos(st)
    r = mk("sym", "nread", I.uniq(c))
    RANGE.setdefault(r, (0, BIG))
    BITS.setdefault(r, (64, False))
    I.event("read", c.fn, c.line, "read", None, st, (pos, n))
    out = []
    s = st.assume(le_(r, n))
    if s is not None:
        s = s.assume(ge0(sub(sub(slen(STREAM), pos), r))) or s
        s = setloc(I, s, l, cat(ssub(STREAM, pos, r), ssub(v, r, sub(n, r))))
        s.store[("g", "pos")] = add(pos, r)
        out.append((s, ok(r)))
    s = st.copy()
    s.store[("g", "ioerr")] = TRUE
    out.append((s, err(adt(IOERR, 0, mk("sym", "iokind", I.uniq(c))))))
    return out

@M("Read::take")
def read_take(I, st, c):
    return ret(st, adt("read.take", 0, c.args[0], c.args[1]))

@M("Read::read_to_end")
def read_to_end(I, st, c):
    l, v = seqw(I, st, c, 1)
    t = dr(I, st, c.args[0])
    if t.op != "adt" or t.args[0] != "read.take":
        return None
    lim = t.args[3]
    pos = stream_pos(st)
    return read_up(I, st, c, lim, lambda s, r: setloc(I, s, l, cat(v, ssub(STREAM, pos, r))))

def read_up(I, st, c, lim, put):
    """take up to `lim` bytes: a count that is delivered, or a failure"""
    pos = stream_pos(st)
    r = mk("sym", "nread", I.uniq(c))
    RANGE.setdefault(r, (0, BIG))
    BITS.setdefault(r, (64, False))
    I.event("readup", c.fn, c.line, c.name, None, st, (pos, lim))
    out = []
    s = st.assume(le_(r, lim))
    if s is not None:
        s = s.assume(ge0(sub(sub(slen(STREAM), pos), r))) or s
        s = put(s, r)
        s = s.copy()
        s.store[("g", "pos")] = add(pos, r)
        out.append((s, ok(r)))
    s = st.copy()
    s.store[("g", "ioerr")] = TRUE
    out.append((s, err(adt(IOERR, 0, mk("sym", "iokind", I.uniq(c))))))
    return out

@M("util::sink", "io::sink", "sink")
def io_sink(I, st, c):
    return ret(st, adt("io.sink", 0))

@M("copy::copy", "io::copy")
def io_copy(I, st, c):
    t, w = dr(I, st, c.args[0]), dr(I, st, c.args[1])
    if t.op != "adt" or t.args[0] != "read.take" or w.op != "adt" or w.args[0] != "io.sink":
        return None
    return read_up(I, st, c, t.args[3], lambda s, r: s)

@M("Error::kind")
def ekind(I, st, c):
    v = dr(I, st, c.args[0])
    if v.op == "adt" and v.args[0] == IOERR:
        return ret(st, v.args[2])
    return None

@M("Error::new", "Error::other")
def enew(I, st, c):
    ty = desttype(I, c)
    if ty is not None and ty.get("path", "").endswith("io::error::Error"):
        return ret(st, adt(IOERR, 0, c.args[0] if c.name == "Error::new" else mk("sym", "other")))
    return None

@M("Write::write_all", "Write::write")
def write_all(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    v = I.rd(st, l.args[0], l.args[1])
    b = dr(I, st, c.args[1])
    if v.op == "sym" or not is_seq(v):
        return None
    full = setloc(I, st, l, cat(v, b))
    if c.name == "Write::write":
        isvec = True
    else:
        isvec = True
    if l.args[0] == ("s", "W"):
        if c.name == "Write::write":
            r = mk("sym", "nwritten", I.uniq(c))
            RANGE.setdefault(r, (0, BIG))
            BITS.setdefault(r, (64, False))
            s = st.assume(le_(r, slen(b)))
            out = []
            if s is not None:
                out.append((setloc(I, s, l, cat(v, ssub(b, ZERO, r))), ok(r)))
        else:
            out = [(full, ok(UNIT))]
        s = st.copy()
        s.store[("g", "wfail")] = TRUE
        I.wr(s, l.args[0], l.args[1], mk("partial", v, b))
        LENRANGE.setdefault(s.store[("s", "W")], (0, LBIG))
        out.append((s, err(adt(IOERR, 0, mk("sym", "wkind")))))
        return out
    if c.name == "Write::write":
        return ret(full, ok(slen(b)))
    return ret(full, ok(UNIT))

@M("Write::flush")
def wflush(I, st, c):
    l = rloc(I, st, c.args[0])
    out = [(st, ok(UNIT))]
    if l is not None and l.args[0] == ("s", "W"):
        s = st.copy()
        s.store[("g", "wfail")] = TRUE
        out.append((s, err(adt(IOERR, 0, mk("sym", "wkind")))))
    return out

# --------------------------------------------------------------------------- formatting
@M("Argument::new_display", "Argument::new_debug", "Argument::new_upper_hex", "Argument::new_lower_hex", "Argument::from_usize",
   "Argument::new_lower_exp", "Argument::new_octal", "Argument::new_binary")
def fmtarg(I, st, c):
    k = c.name.split("::")[1]
    tid = c.f["args"][0] if c.f.get("args") else None
    if k == "from_usize":
        return ret(st, adt("fmt.arg", 0, lit(b"usize"), dr(I, st, c.args[0]), mk("tid", None)))
    x = c.args[0]
    v = d1(I, st, x)
    # through references of references
    while tid is not None and I.P.types[I.strip(tid)]["k"] == "ref":
        v = d1(I, st, v)
        tid = I.P.types[I.strip(tid)]["to"]
    if v.op == "ref":
        v = dr(I, st, v)
    v = I.freeze(st, v)
    return ret(st, adt("fmt.arg", 0, lit(k[4:].encode()), v, mk("tid", I.strip(tid) if tid is not None else None)))

@M("Arguments::new", "Arguments::from_str", "Arguments::from_str_nonconst", "Arguments::new_v1", "Arguments::new_const")
def fmtargs(I, st, c):
    if c.name.startswith("Arguments::from_str"):
        return ret(st, adt("fmt.args", 0, mk("tmpl", (("lit", dr(I, st, c.args[0])),))))
    if c.name != "Arguments::new":
        return None
    t = dr(I, st, c.args[0])
    av = dr(I, st, c.args[1])
    n = slen(av)
    if t.op != "lit" or n.op != "int":
        return ret(st, adt("fmt.args", 0, mk("tmpl?", t, av)))
    args = [sat(av, I_(i)) for i in range(n.args[0])]
    pieces = parse_template(t.args[0], args)
    return ret(st, adt("fmt.args", 0, mk("tmpl", tuple(pieces))))

def parse_template(b, args):
    out = []
    i = 0
    na = 0
    while i < len(b):
        x = b[i]
        i += 1
        if x == 0:
            break
        if x < 0x80:
            out.append(("lit", lit(b[i:i + x])))
            i += x
        elif x == 0x80:
            n = b[i] | b[i + 1] << 8
            i += 2
            out.append(("lit", lit(b[i:i + n])))
            i += n
        else:
            fl = None
            w = pr = None
            idx = na
            if x & 1:
                fl = int.from_bytes(b[i:i + 4], "little")
                i += 4
            if x & 2:
                w = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if x & 4:
                pr = int.from_bytes(b[i:i + 2], "little")
                i += 2
            if x & 8:
                idx = int.from_bytes(b[i:i + 2], "little")
                i += 2
            na = idx + 1
            opt = (fl, w, pr, x & 0x30)
            a = args[idx] if idx < len(args) else mk("opq", "fmtarg")
            out.append(("arg", a, opt if x != 0xC0 and (fl is not None or w is not None or pr is not None or x & 0x30) else None))
    return out

def fmt_text(st, kind, v, ty, opt):
    """text of a primitive"""
    k = ty["k"] if ty else None
    if opt is not None and kind in ("upper_hex", "lower_hex") and opt[0] == 0x60800020 and opt[1] is None and opt[2] is None and not opt[3]:
        t = mk("text", "fmt", lit(kind.encode()), v, lit(b""))          # {:#x} without a width: 0x and the digits
        LENRANGE.setdefault(t, (0, LBIG))
        return cat(lit(b"0x"), t)
    if opt is not None:
        t = mk("text", "fmt", lit(kind.encode()), v, lit(repr(opt).encode()))
        LENRANGE.setdefault(t, (0, LBIG))
        return t
    if kind == "display":
        if k in ("str",) or (k == "adt" and ty["path"].endswith("string::String")):
            return v
        if k == "char":
            return char_utf8(st, v)
        if k in ("int", "bool", "float"):
            if v.op == "int":
                return lit(str(v.args[0]).encode())
            if v.op == "bool":
                return lit(b"true" if v.args[0] else b"false")
            t = mk("text", "dec" if k == "int" else k, v)
            LENRANGE.setdefault(t, (1, 400))
            return t
    t = mk("text", "fmt", lit(kind.encode()), v, lit(b""))
    LENRANGE.setdefault(t, (0, LBIG))
    return t

def fmt_value(I, st, sink, kind, v, tid, c, expand, opt=None):
    """append the text of v to the sink; -> [(state, Result)]"""
    if tid is None or I.P.types[tid]["k"] == "param":
        tid = TYPE.get(v, tid)
    ty = I.P.types[tid] if tid is not None else None
    if expand and kind == "display" and ty is not None and ty["k"] == "adt" and opt is None:
        f = local_impl(I, "core::fmt::Display", tid, "fmt")
        if f is not None:
            if f.key in I.stack:
                t = mk("disp", v)
                LENRANGE.setdefault(t, (0, LBIG))
                cur = I.rd(st, sink.args[0], sink.args[1])
                return [(setloc(I, st, sink, cat(cur, t)), ok(UNIT))]
            c2 = ip.Call()
            c2.f = f.j
            c2.args, c2.tids, c2.dtid, c2.fid, c2.fn, c2.bb, c2.line, c2.I = [vref(v), sink], [None, None], f.locals[0], c.fid, c.fn, (c.bb, "fmt", v.id), c.line, I
            c2.name = "Display::fmt"
            return I.inline(st, f, [vref(v), sink], c2)
    t = fmt_text(st, kind, v, ty, opt)
    cur = I.rd(st, sink.args[0], sink.args[1])
    return [(setloc(I, st, sink, cat(cur, t)), ok(UNIT))]

def fmt_render(I, st, sink, a, c, expand):
    """append formatted arguments to the sink"""
    if a.op != "adt" or a.args[2].op != "tmpl":
        cur = I.rd(st, sink.args[0], sink.args[1])
        t = mk("text", "opaque", a)
        LENRANGE.setdefault(t, (0, LBIG))
        return [(setloc(I, st, sink, cat(cur, t)), ok(UNIT))]
    states = [st]
    done = []
    for p in a.args[2].args[0]:
        nxt = []
        for s in states:
            if p[0] == "lit":
                cur = I.rd(s, sink.args[0], sink.args[1])
                nxt.append(setloc(I, s, sink, cat(cur, p[1])))
                continue
            x = p[1]
            if x.op != "adt" or x.args[0] != "fmt.arg":
                cur = I.rd(s, sink.args[0], sink.args[1])
                t = mk("text", "opaque", x)
                LENRANGE.setdefault(t, (0, LBIG))
                nxt.append(setloc(I, s, sink, cat(cur, t)))
                continue
            kind = x.args[2].args[0].decode()
            for s2, r in fmt_value(I, s, sink, kind, x.args[3], x.args[4].args[0], c, expand, p[2]):
                if r.op == "adt" and r.args[1] == 1:
                    done.append((s2, r))
                else:
                    nxt.append(s2)
        states = I.merge(nxt)
    return [(s, ok(UNIT)) for s in states] + done

@M("fmt::format", "format", "fmt::format_inner")
def fmtformat(I, st, c):
    root = ("r", ip.fid_of("format", c.fid, c.bb, I.uctx), "fmt")
    I.pinned.add(root)
    s = st.set(root, EMPTY)
    out = []
    for s2, r in fmt_render(I, s, mk("ref", root, ()), c.args[0], c, True):
        s3 = s2.copy()
        t = s3.store.pop(root)
        out.append((s3, t))
    return out

@M("Formatter::write_fmt", "Write::write_fmt")
def write_fmt(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    v = I.rd(st, l.args[0], l.args[1])
    if not is_seq(v):
        return None
    out = fmt_render(I, st, l, c.args[1], c, True)
    if l.args[0] == ("s", "W"):
        s = st.copy()
        s.store[("g", "wfail")] = TRUE
        out.append((s, err(adt(IOERR, 0, mk("sym", "wkind")))))
    return out

@M("Formatter::write_str", "Formatter::write_char", "Formatter::pad", "Write::write_str", "Write::write_char")
def write_str(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    v = I.rd(st, l.args[0], l.args[1])
    x = dr(I, st, c.args[1])
    if c.name.endswith("char"):
        x = char_utf8(st, x)
    return ret(setloc(I, st, l, cat(v, x)), ok(UNIT))

@M("Display::fmt", "Debug::fmt", "UpperHex::fmt", "LowerHex::fmt")
def disp_fmt(I, st, c):
    l = rloc(I, st, c.args[1])
    if l is None:
        return None
    v = c.args[0]
    tid = c.tids[0]
    v, tid = peel(I, st, v, tid)
    kind = c.name.split("::")[0].lower()
    return fmt_value(I, st, l, kind, I.freeze(st, v), tid, c, True)

@M("AsDisplay::as_display", "AsDynError::as_dyn_error", "var::AsDisplay")
def as_display(I, st, c):
    return ret(st, c.args[0])

def dbg_finish(I, st, c):
    l = rloc(I, st, c.args[0])
    if l is None:
        return None
    v = I.rd(st, l.args[0], l.args[1])
    t = mk("text", "dbg", lit(c.name.encode()), *[I.freeze(st, dr(I, st, a)) for a in c.args[1:]])
    LENRANGE.setdefault(t, (0, LBIG))
    return ret(setloc(I, st, l, cat(v, t)), ok(UNIT))
for _n in ("debug_tuple_field1_finish", "debug_tuple_field2_finish", "debug_tuple_field3_finish", "debug_struct_field1_finish",
           "debug_struct_field2_finish", "debug_struct_field3_finish", "debug_struct_field4_finish", "debug_struct_field5_finish",
           "debug_struct_fields_finish", "debug_tuple_fields_finish", "debug_c_like_enum_write_str"):
    MODELS["Formatter::" + _n] = dbg_finish

# --------------------------------------------------------------------------- regex
@M("Regex::new")
def regex_new(I, st, c):
    p = dr(I, st, c.args[0])
    return ret(st, ok(mk("regex", p)))

@M("Lazy::get", "LazyLock::force", "LazyCell::force", "OnceLock::get_or_init")
def lazy_get(I, st, c):
    r = I.invoke(st, c.args[1], [], c, "lazy") if len(c.args) > 1 else None
    if not r:
        return None
    return [(s, vref(v)) for s, v in r]

@M("Regex::captures_iter", "Regex::find_iter", "Regex::is_match", "Regex::captures", "Regex::find")
def captures_iter(I, st, c):
    if c.name != "Regex::captures_iter":
        return None
    re_ = dr(I, st, c.args[0])
    s = dr(I, st, c.args[1])
    return ret(st, adt("it.caps", 0, re_, s, ZERO))

def cap_next(I, st, l, it, c):
    re_, s, i = it.args[2:]
    m = mk("capn", re_, s)
    RANGE.setdefault(m, (0, BIG))
    BITS.setdefault(m, (64, False))
    y, e = I.fork(st, lt(i, m))
    out = []
    if y is not None:
        out.append((setloc(I, y, l, adt("it.caps", 0, re_, s, add(i, ONE))), some(mk("caps", re_, s, i))))
    if e is not None:
        out.append((e, NONE))
    return out

@M("Captures::name", "Captures::get")
def cap_name(I, st, c):
    cp = dr(I, st, c.args[0])
    n = dr(I, st, c.args[1])
    g = mk("grp", cp, n)
    y, e = I.fork(st, mk("matched", g))
    out = []
    if y is not None:
        out.append((y, some(g)))
    if e is not None:
        out.append((e, NONE))
    return out

@M("Match::as_str", "Match::range", "Match::start", "Match::end")
def match_str(I, st, c):
    if c.name != "Match::as_str":
        return None
    g = dr(I, st, c.args[0])
    s = mk("mstr", g)
    lo = group_minlen(g)
    LENRANGE.setdefault(s, (lo, LBIG))
    return ret(st, vref(s))

def group_minlen(g):
    """shortest text a named group of the literal pattern can match"""
    try:
        cp, n = g.args
        rx = cp.args[0].args[0]
        if rx.op != "lit" or n.op != "lit":
            return 0
        import re, re._parser as sp
        p = sp.parse(rx.args[0].decode())
        gi = p.state.groupdict.get(n.args[0].decode())
        def walk(x):
            for op, av in x:
                if str(op) == "SUBPATTERN":
                    if av[0] == gi:
                        return av[3].getwidth()[0]
                    r = walk(av[3])
                    if r is not None:
                        return r
                elif str(op) == "BRANCH":
                    for b in av[1]:
                        r = walk(b)
                        if r is not None:
                            return r
                elif str(op) in ("MAX_REPEAT", "MIN_REPEAT"):
                    r = walk(av[2])
                    if r is not None:
                        return r
            return None
        return walk(p) or 0
    except Exception:
        return 0

# --------------------------------------------------------------------------- intrinsics
@M("intrinsics::discriminant_value", "mem::discriminant", "discriminant_value")
def discr_val(I, st, c):
    v = dr(I, st, c.args[0])
    t = c.f["args"][0]
    return ret(st, I.discr(v, t))

@M("intrinsics::three_way_compare")
def threeway(I, st, c):
    return None

@M("Hash::hash")
def hashm(I, st, c):
    return ret(st, UNIT)

@M(*["char::" + k for k in CHARCLS])
def charcls(I, st, c):
    return ret(st, anyof(dr(I, st, c.args[0]), CHARCLS[c.name.split("::")[1]]))

@M("f32::is_nan", "f64::is_nan", "f32::is_finite", "f64::is_finite", "f32::is_infinite", "f64::is_infinite", "f32::is_normal", "f64::is_normal", "f32::is_sign_negative", "f64::is_sign_negative", "f32::is_subnormal", "f64::is_subnormal")
def floatcls(I, st, c):
    t = mk("cls", c.name, dr(I, st, c.args[0]))
    if c.dtid is not None:
        I.ann(t, c.dtid)
    return ret(st, t)

@M("char::from", "char::from_u32", "char::is_ascii", "char::is_alphabetic", "char::len_utf8", "char::is_whitespace", "char::is_numeric")
def charm(I, st, c):
    if c.name == "char::from":
        return ret(st, c.args[0])
    if c.name == "char::is_ascii":
        return ret(st, le_(dr(I, st, c.args[0]), I_(127)))
    if c.name == "char::from_u32":
        return None
    t = mk("cls", c.name, dr(I, st, c.args[0]))
    if c.dtid is not None:
        I.ann(t, c.dtid)
    return ret(st, t)

@M("bool::then_some", "bool::then")
def then_some(I, st, c):
    y, n = I.fork(st, c.args[0])
    out = []
    if y is not None:
        if c.name.endswith("then_some"):
            out.append((y, some(c.args[1])))
        else:
            out.extend((s, some(v)) for s, v in I.invoke(y, c.args[1], [], c, "then"))
    if n is not None:
        out.append((n, NONE))
    return out

@M("Vec::as_mut", "Option::as_mut", "Option::as_deref", "Option::as_deref_mut")
def optasmut(I, st, c):
    return None

@M("ptr::cast", "NonNull::as_ptr", "ptr::as_ref", "NonNull::cast", "ptr::add")
def ptrcast(I, st, c):
    if c.name == "ptr::cast":
        return ret(st, c.args[0])
    return None
