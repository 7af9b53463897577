#!/usr/bin/env python3
"""Forget cargo's fingerprints of every crate whose real sources differ (by content) from those last built."""
import hashlib, json, os, re, shutil, glob
V = os.environ["VERIF_DIR"]
T = V + "/sim/target"
os.makedirs(T, exist_ok=True)
stamp = T + "/stamps.json"
try:
    old = json.load(open(stamp))
except Exception:
    old = {}
def tree(d):
    h = hashlib.sha256()
    for base, dirs, files in os.walk(d):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(base, f)
            h.update(p.encode() + b"\0")
            try:
                h.update(open(p, "rb").read())
            except OSError:
                pass
    return h.hexdigest()
new = {}
for c in sorted(glob.glob(V + "/sim/wrap/*/Cargo.toml") + glob.glob(V + "/sim/sims/*/Cargo.toml")):
    s = open(c).read()
    name = re.search(r'^name = "(.*)"', s, re.M).group(1)
    dirs = set(re.findall(r'path = "(/repo/[^"]*/src)/[a-z_]*\.rs"', s))
    d = os.path.dirname(c)
    for f in glob.glob(d + "/build.rs") + glob.glob(d + "/src/*.rs"):
        for m in re.findall(r'"(/repo/[^"]+)"', open(f).read()):
            while not os.path.isdir(m):
                m = os.path.dirname(m)
            if len(m) > 6:
                dirs.add(m)
    if dirs:
        new[name] = [tree(x) for x in sorted(dirs)]
for n, h in new.items():
    if old.get(n) != h:
        for p in glob.glob(T + "/debug/.fingerprint/" + n + "-*"):
            shutil.rmtree(p, ignore_errors=True)
tmp = stamp + ".new"
json.dump(new, open(tmp, "w"))
os.replace(tmp, stamp)
