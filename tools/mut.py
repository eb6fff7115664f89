#!/usr/bin/env python3
"""mut.py SPEC.py [-t] [ids...]: applies each edit set to a scratch copy of /repo and runs checks there.
SPEC: MUTS = [dict(id, edits=[(file, old, new)], checks="C01 C02" (default all), want="alarm"|"quiet")]; -t also runs the crate's tests."""
import os, sys, subprocess, shutil, tempfile, time
V = "/verif"
def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    tests = "-t" in sys.argv
    only = [a for a in sys.argv[2:] if a != "-t"]
    allc = subprocess.run([sys.executable, "-c", "import sys;sys.path.insert(0,'%s/engine');import registry;print(' '.join(sorted(registry.CHECKS)))" % V], capture_output=True, text=True).stdout.split()
    for m in g["MUTS"]:
        if only and m["id"] not in only:
            continue
        t = tempfile.mkdtemp(prefix="mut", dir="/tmp")
        try:
            r = t + "/r"
            subprocess.run(["cp", "-a", "/repo", r], check=True)
            subprocess.run(["git", "-C", r, "checkout", "-q", "--", "."], check=True)
            bad = None
            for f, a, b in m["edits"]:
                p = r + "/" + f
                s = open(p).read()
                if s.count(a) < 1:
                    bad = "no match in %s: %s" % (f, a[:60])
                    break
                open(p, "w").write(s.replace(a, b, 1) if not m.get("all") else s.replace(a, b))
            if bad:
                print(m["id"], "BAD SPEC", bad)
                continue
            if tests:
                x = subprocess.run(["cargo", "test", "--offline", "-q", "--workspace", "--tests"], cwd=r, capture_output=True, text=True, env=dict(os.environ, CARGO_TARGET_DIR="/tmp/muttgt"))
                if x.returncode:
                    print(m["id"], "TESTS FAIL", (x.stdout + x.stderr)[-600:])
                    if m.get("want") == "quiet":
                        continue
            c = (os.environ.get("CHECKS") or m.get("checks", " ".join(allc))).split()
            t0 = time.time()
            x = subprocess.run([sys.executable, V + "/check.py"] + c, capture_output=True, text=True, env=dict(os.environ, YULE_REPO=r, YULE_EVIDENCE=t), cwd=V)
            out = x.stdout.splitlines()
            viol = [l for l in out if l.startswith("VIOLATION")]
            und = [l for l in out if "undecided:" in l]
            ok = (bool(viol) == (m.get("want", "alarm") == "alarm"))
            print("%s %s rc=%d violations=%s undecided=%d (%.0f s)" % ("ok  " if ok and not (und and m.get("want") == "quiet") else "LOOK", m["id"], x.returncode, [l.split("property=")[1].split()[0] for l in viol], len(und), time.time() - t0))
            if x.returncode not in (0, 1):
                print(x.stdout[-500:], x.stderr[-500:])
            if not ok or und:
                for l in out:
                    if l.startswith("  ") :
                        print("     ", l[:330])
        finally:
            shutil.rmtree(t, ignore_errors=True)
        sys.stdout.flush()
main()
