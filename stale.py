#!/usr/bin/env python3
"""Cargo decides by modification time what to rebuild; in a copied sandbox those are not to be
trusted. This compares the contents of /repo's crates with those of the last build and drops
cargo's fingerprint of each crate that differs, so that it is rebuilt.  `stale.py save` records
the contents after a successful build."""
import hashlib, json, os, re, shutil, subprocess, sys
REPO, TARGET = "/repo", os.environ.get("STALE_TARGET", "/verif/target")
STATE = os.path.join(TARGET, ".repo-hashes.json")

def crates():
    files = subprocess.run(["find", REPO, "-name", "Cargo.toml", "-not", "-path", "*/target/*"],
                           capture_output=True, text=True).stdout.split()
    out = {}
    for f in files:
        m = re.search(r'^\[package\]\s*(?:.*\n)*?name\s*=\s*"([^"]+)"', open(f).read(), re.M)
        if m:
            out[m.group(1)] = os.path.dirname(f)
    return out

def digest(d, root):
    h = hashlib.sha256(root)
    for base, dirs, names in sorted(os.walk(d)):
        dirs[:] = sorted(x for x in dirs if x not in ("target", ".git", "__pycache__"))
        for n in sorted(names):
            p = os.path.join(base, n)
            try:
                data = open(p, "rb").read()
            except OSError:
                continue
            h.update(os.path.relpath(p, d).encode() + b"\0" + str(len(data)).encode() + b"\0" + data)
    return h.hexdigest()

def state():
    root = hashlib.sha256(open(REPO + "/Cargo.toml", "rb").read()).digest()
    return {k: digest(d, root) for k, d in crates().items()}

def main():
    now = state()
    if sys.argv[1:] == ["save"]:
        json.dump(now, open(STATE, "w"))
        return
    try:
        old = json.load(open(STATE))
    except (OSError, ValueError):
        old = {}
    fp = os.path.join(TARGET, "debug", ".fingerprint")
    if not os.path.isdir(fp):
        return
    for name in [k for k in now if old.get(k) != now[k]]:
        for e in os.listdir(fp):
            if re.fullmatch(re.escape(name) + r"-[0-9a-f]{16}", e):
                shutil.rmtree(os.path.join(fp, e), ignore_errors=True)
        if os.path.exists(STATE):
            os.remove(STATE)

main()
