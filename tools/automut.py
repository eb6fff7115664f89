#!/usr/bin/env python3
"""automut.py WORKER WORKERS OUT [seed]: line-level mutants of the library and the macros that build and pass the tests, and what the checks say.
Works on copies under /tmp; one line per mutant in OUT (JSON)."""
import os, sys, re, json, random, subprocess, shutil
W, NW, OUT = int(sys.argv[1]), int(sys.argv[2]), sys.argv[3]
SEED = int(sys.argv[4]) if len(sys.argv) > 4 else 1
FILES = ["core/src/%s.rs" % f for f in ("parser", "encode", "datastream", "message_buf", "field_helpers", "formats", "tokenizer", "display", "model", "macro_utils", "builder")] + ["macros/src/lib.rs"]
R = "/tmp/am%d/repo" % W
V = "/tmp/am%d/verif" % W
if os.path.exists("/tmp/am%d" % W):
    shutil.rmtree("/tmp/am%d" % W)
os.makedirs("/tmp/am%d" % W)
subprocess.run(["cp", "-a", "/repo", R], check=True)
B = "/tmp/am%d/base" % W   # what the mutants are made of: /repo may be changed meanwhile
shutil.copytree("/repo", B, ignore=shutil.ignore_patterns("target", ".git"))
subprocess.run(["cp", "-a", "/verif", V], check=True)
OPS = [
 (r"(?<![<=>!-])<(?![<=a-zA-Z#&\[(_])(?= )", "<="), (r"(?<= )<=(?= )", "<"), (r"(?<= )>(?= )", ">="), (r"(?<= )>=(?= )", ">"),
 (r"(?<= )==(?= )", "!="), (r"(?<= )!=(?= )", "=="), (r"&&", "||"), (r"(?<!\|)\|\|(?= )(?=.*[a-z(])", "&&"),
 (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"(?<= )\+(?= )", "-"), (r"(?<= )-(?= )", "+"), (r"(?<= )\+=(?= )", "-="), (r"(?<= )\*(?= )", "+"),
 (r"(?<![\w.#\"\[])(\d+)(?![\w.\"])", lambda m: str(int(m.group(1)) + 1)), (r"(?<![\w.#\"\[])([1-9]\d*)(?![\w.\"])", lambda m: str(int(m.group(1)) - 1)),
 (r"\.iter\(\)(?!\.rev)", ".iter().skip(1)"), (r"\.iter\(\)(?!\.rev)", ".iter().rev()"), (r"\.enumerate\(\)", ".skip(1).enumerate()"),
 (r"to_le_bytes", "to_be_bytes"), (r"LittleEndian::", "byteorder::BigEndian::"), (r"from_le_bytes", "from_be_bytes"),
 (r"\bif (?!let)(.*) \{$", r"if !(\1) {"), (r"\bif (?!let)(.*) \{$", r"if false && (\1) {"), (r"\bif (?!let)(.*) \{$", r"if true || (\1) {"),
 (r"\?;$", ".ok();"), (r"\?;$", ".unwrap_or_default();"), (r"\bu16\b", "u8"), (r"\bu32\b", "u16"), (r"\bi(\d+)\b", r"u\1"), (r"as usize", "as u8 as usize"), (r"as u16", "as u8 as u16"),
 (r"Some\((\w+)\)(?=[;,)]|$)", "None"), (r"\.unwrap_or\(.*?\)", ".unwrap_or_default()"), (r"\.clone\(\)", ".clone().into()"),
 (r"from_utf8\(", "from_utf8_lossy("), (r"_ => \(\)", "_ => return Ok(None)"), (r"\.find\(", ".rfind("), (r"\.last\(\)", ".first()"), (r"\.first\(\)", ".last()"),
 (r"saturating_sub", "wrapping_sub"), (r"checked_add", "checked_sub"), (r"push_back", "push_front"), (r"pop_front", "pop_back"), (r"\bmin\(", "max("), (r"(?<=\.)extend_from_slice\((.*)\);", r"extend_from_slice(&(\1)[1..]);"),
]
def mutants():
    out = []
    for f in FILES:
        L = open(os.path.join(B, f)).read().split("\n")
        intest = False
        for i, l in enumerate(L):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                intest = True
            if intest or not s or s.startswith(("//", "#[", "#![", "use ", "pub use", "pub struct", "pub enum", "pub mod", "mod ", "///")):
                continue
            for k, (a, b) in enumerate(OPS):
                for m in re.finditer(a, l):
                    if "//" in l[:m.start()]:
                        continue
                    new = l[:m.start()] + (m.expand(b) if isinstance(b, str) else b(m)) + l[m.end():]
                    if new != l:
                        out.append((f, i, l, new))
            if s.endswith(";") and not s.startswith(("let ", "return", "}", "type ", "const ", "pub const", "static")) and "=" != s[:1]:
                out.append((f, i, l, ""))
            if s.endswith(",") and re.match(r"^[A-Za-z_:(].* => .*,$", s):
                out.append((f, i, l, ""))
            n = L[i + 1] if i + 1 < len(L) else ""
            if s.endswith(";") and n.strip().endswith(";") and not n.strip().startswith("}"):
                out.append((f, i, l + "\n" + n, n + "\n" + l))
    return out
M = mutants()
random.Random(SEED).shuffle(M)
done = set()
if os.path.exists(OUT):
    done = {json.loads(x)["n"] for x in open(OUT)}
env = dict(os.environ, CARGO_TARGET_DIR="/tmp/am%d/target" % W, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1")
cenv = dict(os.environ, YULE_REPO=R, YULE_EVIDENCE="/tmp/am%d/ev" % W, RAYON_NUM_THREADS="2")
if W == 0:
    print(len(M), "mutants", flush=True)
for n, (f, i, a, b) in enumerate(M):
    if n % NW != W or n in done:
        continue
    p = os.path.join(R, f)
    src = open(os.path.join(B, f)).read()
    L = src.split("\n")
    k = a.count("\n") + 1
    if "\n".join(L[i:i + k]) != a:
        continue
    open(p, "w").write("\n".join(L[:i] + b.split("\n") + L[i + k:]))
    r = dict(n=n, file=f, line=i + 1, old=a.strip(), new=b.strip())
    try:
        q = subprocess.run(["cargo", "check", "-q", "--workspace", "--features", "yule_log/macros"], cwd=R, env=env, capture_output=True, timeout=300)
        if q.returncode:
            r["st"] = "build"
        else:
            try:
                q = subprocess.run(["cargo", "test", "-q", "--workspace", "--features", "yule_log/macros", "--", "--test-threads", "4"], cwd=R, env=env, capture_output=True, timeout=240)
                bad = q.returncode != 0
            except subprocess.TimeoutExpired:
                bad = True
            if bad:
                r["st"] = "tests"
            else:
                q = subprocess.run([sys.executable, "check.py"], cwd=V, env=cenv, capture_output=True, text=True, timeout=1800)
                r["st"] = "checked"
                r["rc"] = q.returncode
                r["viol"] = sorted(set(re.findall(r"VIOLATION property=(C\d+)", q.stdout)))
                r["und"] = [x.strip()[:200] for x in q.stdout.split("\n") if x.strip().startswith("undecided")][:6]
                r["nund"] = sum(int(x) for x in re.findall(r", (\d+) undecided", q.stdout))
                if q.returncode not in (0, 1):
                    r["out"] = (q.stdout + q.stderr)[-400:]
    except subprocess.TimeoutExpired:
        r["st"] = "timeout"
    finally:
        open(p, "w").write(src)
    with open(OUT, "a") as o:
        o.write(json.dumps(r) + "\n")
