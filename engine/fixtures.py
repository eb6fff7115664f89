"""Analysis builds of the fixture crates against the current tree."""
import os, shutil, json
import dump

FX = os.path.join(dump.VERIF, "fixtures")

def prepare(name, features, tag, bins=()):
    """a copy of the fixture under build/ whose manifest points at the tree under analysis"""
    d = os.path.join(dump.BUILD, "fx-" + tag)
    os.makedirs(os.path.join(d, "src"), exist_ok=True)
    feats = ", ".join('"%s"' % f for f in features)
    m = '[package]\nname = "yule_fixture"\nversion = "0.0.0"\nedition = "2021"\npublish = false\n\n[dependencies]\nyule_log = { path = "%s", features = [%s] }\n\n[workspace]\n' % (
        os.path.join(dump.REPO, "core"), feats)
    if bins:
        m += "".join('\n[[bin]]\nname = "%s"\npath = "src/%s.rs"\n' % (b, b) for b in bins)
    write(os.path.join(d, "Cargo.toml"), m)
    for f in os.listdir(os.path.join(FX, name)):
        if f.endswith(".rs"):
            write(os.path.join(d, "src", f), open(os.path.join(FX, name, f)).read())
    lk = os.path.join(d, "Cargo.lock")
    src = os.path.join(dump.REPO, "Cargo.lock")
    if not os.path.exists(lk) and os.path.exists(src):
        shutil.copy(src, lk)
    return d

def write(p, s):
    if not os.path.exists(p) or open(p).read() != s:
        with open(p, "w") as f:
            f.write(s)

_cache = {}
def derive_prog(extra=""):
    """the crate with derived structs and streams, together with the library code it reaches"""
    if extra in _cache:
        return _cache[extra]
    feats = ["macros"] + ([extra] if extra else [])
    tag = "fx" + ("-ts" if extra else "")
    j = dump.dump("yule_fixture", lambda: prepare("derive", feats, tag), ["--lib"], tag, inline="yule_fixture,yule_log,byteorder",
                  env={"RUSTFLAGS": "-Zalways-encode-mir -Zmir-opt-level=0 -Coverflow-checks=on -Cdebug-assertions=off"})
    _cache[extra] = dump.Prog(j)
    return _cache[extra]
