"""Builds the rustc driver, dumps the resolved MIR of the crates under analysis from /repo's
current working tree, and loads it."""
import fcntl, glob, json, os, shutil, subprocess, sys, hashlib
from terms import *
import terms, facts

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YULE_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")

class AnalysisError(Exception):
    pass

def run(cmd, env=None, cwd=None, timeout=800):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "RUSTC_WRAPPER", "RUSTC_WORKSPACE_WRAPPER", "CARGO_BUILD_TARGET_DIR"):
        e.pop(k, None)
    e.update(env or {})
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, text=True)
    return p.returncode, p.stdout

_lock = None
def lock():
    global _lock
    if _lock is None:
        os.makedirs(BUILD, exist_ok=True)
        _lock = open(os.path.join(BUILD, ".lock"), "w")
        fcntl.flock(_lock, fcntl.LOCK_EX)

def unlock():
    global _lock
    if _lock is not None:
        _lock.close()
        _lock = None

def driver():
    d = os.path.join(VERIF, "driver")
    t = os.path.join(BUILD, "driver-target")
    rc, out = run(["cargo", "+nightly", "build", "--release", "--offline", "--quiet"], {"CARGO_TARGET_DIR": t}, d)
    if rc != 0:
        raise AnalysisError("driver build failed:\n" + out[-3000:])
    return os.path.join(t, "release", "mirdump")

def sysroot():
    rc, out = run(["rustc", "+nightly", "--print", "sysroot"])
    return out.strip().splitlines()[-1]

def tree_hash():
    """content hash of everything the dump depends on"""
    h = hashlib.sha256()
    fs = []
    for root in (REPO,):
        for dp, dn, fn in os.walk(root):
            dn[:] = [x for x in dn if x not in ("target", ".git", "data", "test_data")]
            fs += [os.path.join(dp, f) for f in fn if f.endswith((".rs", ".toml"))]
    fs += glob.glob(os.path.join(VERIF, "driver", "src", "*.rs"))
    fs += glob.glob(os.path.join(VERIF, "fixtures", "**", "*.rs"), recursive=True)
    for f in sorted(fs):
        if os.path.isfile(f):
            h.update(f.encode())
            h.update(open(f, "rb").read())
    return h.hexdigest()[:16]

def dump(crate, pkgdir, args, tag, inline="yule_log,byteorder", env=None):
    """dump `crate` with `cargo check args` run in pkgdir; returns the parsed JSON.  The result is
    kept under build/ keyed by a hash of every source file, so the checks of one run share it."""
    lock()
    try:
        outdir = os.path.join(BUILD, "dumps")
        os.makedirs(outdir, exist_ok=True)
        h = tree_hash()
        final = os.path.join(outdir, "%s-%s-%s.json" % (crate, tag, h))
        if not os.path.exists(final):
            for old in glob.glob(os.path.join(outdir, "%s-%s-*.json" % (crate, tag))):
                os.remove(old)
            drv = driver()
            if callable(pkgdir):
                pkgdir = pkgdir()
            tgt = os.path.join(BUILD, "target-" + tag)
            for base in (".fingerprint", "build"):
                for pat in ("yule_log*", crate.replace("_", "[-_]") + "*"):
                    for fp in glob.glob(os.path.join(tgt, "debug", base, pat)):
                        shutil.rmtree(fp, ignore_errors=True)
            tmp = os.path.join(outdir, "tmp-%d" % os.getpid())
            os.makedirs(tmp, exist_ok=True)
            env0 = env
            env = {"LD_LIBRARY_PATH": sysroot() + "/lib", "RUSTC_WORKSPACE_WRAPPER": drv, "MIRDUMP_CRATES": crate,
                   "MIRDUMP_OUT": tmp, "MIRDUMP_INLINE": inline, "CARGO_TARGET_DIR": tgt, "CARGO_INCREMENTAL": "0"}
            env.update(env0 or {})
            lockf = os.path.join(REPO, "Cargo.lock")
            had = os.path.exists(lockf)
            rc, out = run(["cargo", "+nightly", "check", "--offline"] + args, env, pkgdir)
            if not had and os.path.exists(lockf):
                os.remove(lockf)
            p = os.path.join(tmp, crate + ".json")
            if rc != 0 or not os.path.exists(p):
                shutil.rmtree(tmp, ignore_errors=True)
                raise AnalysisError("analysis build of %s failed (rc %d):\n%s" % (crate, rc, out[-3000:]))
            os.rename(p, final)
            shutil.rmtree(tmp, ignore_errors=True)
        with open(final) as f:
            return json.load(f)
    finally:
        unlock()

class Prog:
    def __init__(self, *dumps):
        """merge dumps of several crates: later dumps' types are re-indexed"""
        self.types = []
        self.fns = {}
        self.items = []
        self.impls = []
        self.unsafes = []
        self.byname = {}
        self._tcache = {}
        for d in dumps:
            self._load(d)
        for t in range(len(self.types)):
            self._reg(t)

    def _load(self, d):
        base = len(self.types)
        off = (lambda j: j) if base == 0 else None
        if base:
            d = _shift_dump(d, base)
        self.types.extend(d["types"])
        for f in d["fns"]:
            if f["key"] not in self.fns:
                self.fns[f["key"]] = Fn(self, f)
        self.items.extend(d["items"])
        self.impls.extend(d["impls"])
        self.unsafes.extend(d.get("unsafes", []))

    def _reg(self, t):
        ty = self.types[t]
        if ty["k"] == "adt":
            for vi, v in enumerate(ty["variants"]):
                terms.VNAMES.setdefault((ty["path"], vi), v["name"] if ty.get("enum") else "")
                for fi, f in enumerate(v["fields"]):
                    terms.FNAMES.setdefault((ty["path"], vi, fi), f[0])

    def ty(self, t):
        return self.types[t]

    def tystr(self, t):
        return self.types[t]["s"]

    def find_adt(self, path):
        for i, t in enumerate(self.types):
            if t["k"] == "adt" and t["path"] == path:
                return i
        return None

    def discrs(self, tid):
        ty = self.types[tid]
        return [int(v["discr"]) for v in ty["variants"]]

def unbox(b):
    """vec![..] writes its elements through a raw pointer into an uninitialised box: as a plain assignment to the box"""
    ps = {}
    for st in b["s"]:
        if st[0] == "=" and st[2][0] == "cast" and st[2][1] == "BoxDerefTransmute" and len(st[1]) == 1 and st[2][2][0] == "cp":
            ps[st[1][0]] = st[2][2][1][0]
    for st in b["s"]:
        if st[0] == "=" and len(st[1]) > 1 and st[1][0] in ps and st[1][1][0] == "*" and all(e != "*" and e[0] == "." for e in st[1][1][1:]):
            st[1] = [ps[st[1][0]]]

class Fn:
    def __init__(self, prog, j):
        self.prog = prog
        self.j = j
        self.key = j["key"]
        self.path = j["path"]
        self.name = j["name"]
        self.locals = j["locals"]
        self.argc = j["argc"]
        self.spread = j.get("spread")
        self.blocks = j["blocks"]
        self.closure = j.get("closure")
        self.local = j["local"]
        self.span = j["span"]
        self.crate = j["crate"]
        self._cfg = None
        for b in self.blocks:
            unbox(b)

    def succs(self, b):
        t = self.blocks[b]["t"]
        k = t[0]
        if k == "goto":
            return [t[1]]
        if k == "switch":
            return [x[1] for x in t[3]] + [t[4]]
        if k == "drop":
            return [t[2]]
        if k == "call":
            return [] if t[4] is None else [t[4]]
        if k == "assert":
            return [t[4]]
        return []

    def cfg(self):
        if self._cfg is None:
            self._cfg = Cfg(self)
        return self._cfg

def term_target(t):
    return None

class Cfg:
    def __init__(self, fn):
        n = len(fn.blocks)
        succ = [fn.succs(b) if not fn.blocks[b]["cleanup"] else [] for b in range(n)]
        self.succ = succ
        # reachable, RPO
        seen = set()
        post = []
        st = [(0, iter(succ[0]))]
        seen.add(0)
        while st:
            b, it = st[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    st.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                st.pop()
        self.rpo = list(reversed(post))
        self.pos = {b: i for i, b in enumerate(self.rpo)}
        pred = {b: [] for b in self.rpo}
        for b in self.rpo:
            for s in succ[b]:
                pred[s].append(b)
        self.pred = pred
        # dominators
        idom = {0: 0}
        ch = True
        while ch:
            ch = False
            for b in self.rpo[1:]:
                ps = [p for p in pred[b] if p in idom]
                if not ps:
                    continue
                d = ps[0]
                for p in ps[1:]:
                    x, y = p, d
                    while x != y:
                        while self.pos[x] > self.pos[y]:
                            x = idom[x]
                        while self.pos[y] > self.pos[x]:
                            y = idom[y]
                    d = x
                if idom.get(b) != d:
                    idom[b] = d
                    ch = True
        self.idom = idom
        def dom(a, b):
            while True:
                if a == b:
                    return True
                if b == 0:
                    return False
                b = idom[b]
        self.dominates = dom
        # natural loops
        self.loops = {}
        for b in self.rpo:
            for s in succ[b]:
                if s in self.pos and dom(s, b):
                    body = self.loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
                elif s in self.pos and self.pos[s] <= self.pos[b]:
                    raise AnalysisError("irreducible control flow in " + fn.key)
        # RPO in which every loop body is contiguous w.r.t. exits: exits of a loop come after it
        self._live(fn)

    def _live(self, fn):
        n = len(fn.blocks)
        use = {}
        de = {}
        for b in self.rpo:
            u, d = set(), set()
            def useop(o):
                if o[0] in ("cp", "mv"):
                    usepl(o[1])
            def usepl(p, wr=False):
                if not (wr and len(p) == 1):
                    if p[0] not in d:
                        u.add(p[0])
                for e in p[1:]:
                    if e[0] == "i" and e[1] not in d:
                        u.add(e[1])
            def rv(r):
                k = r[0]
                if k in ("use", "repeat"):
                    useop(r[1])
                elif k in ("ref",):
                    usepl(r[2])
                elif k == "addr":
                    usepl(r[1])
                elif k == "cast":
                    useop(r[2])
                elif k == "bin":
                    useop(r[2]); useop(r[3])
                elif k == "un":
                    useop(r[2])
                elif k == "discr":
                    usepl(r[1])
                elif k == "agg":
                    for o in r[4]:
                        useop(o)
            for s in fn.blocks[b]["s"]:
                if s[0] == "=":
                    rv(s[2])
                    usepl(s[1], True)
                    if len(s[1]) == 1:
                        d.add(s[1][0])
                elif s[0] == "sd":
                    usepl(s[1])
            t = fn.blocks[b]["t"]
            if t[0] == "switch":
                useop(t[1])
            elif t[0] == "call":
                useop(t[1])
                for a in t[2]:
                    useop(a)
                usepl(t[3], True)
                if len(t[3]) == 1:
                    d.add(t[3][0])
            elif t[0] == "assert":
                useop(t[1])
                if t[3][0] == "bounds":
                    useop(t[3][1]); useop(t[3][2])
                elif t[3][0] == "overflow":
                    useop(t[3][2]); useop(t[3][3])
            elif t[0] == "ret":
                if 0 not in d:
                    u.add(0)
            use[b], de[b] = u, d
        live = {b: set() for b in self.rpo}
        ch = True
        while ch:
            ch = False
            for b in reversed(self.rpo):
                o = set()
                for s in self.succ[b]:
                    o |= live.get(s, set())
                i = use[b] | (o - de[b])
                if i != live[b]:
                    live[b] = i
                    ch = True
        self.live = live

def _shift_dump(d, base):
    """re-index type ids of a second dump (types are referenced by integer in known positions)"""
    raise AnalysisError("merging dumps is not supported")

def core_prog(features="macros", tag="core"):
    d = dump("yule_log", os.path.join(REPO, "core"), ["-p", "yule_log", "--lib"] + (["--features", features] if features else []), tag)
    return Prog(d)
