#!/usr/bin/env python3
"""Makes /verif/.build/ws: a Cargo workspace whose members are symlinks into /repo/src/rust.

/repo/src/rust/Cargo.toml cannot be loaded by cargo as it is (its root package has no
target), and fcb_core's manifest inherits versions from it, so the manifest is copied
without the root package and with only the members that build here. Sources are the
symlinked working tree itself: nothing is copied."""
import os, re, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src/rust"
WS = f"{V}/.build/ws"
text = open(f"{SRC}/Cargo.toml").read()
for table in ("package", "dependencies"):
    text = re.sub(rf"(?ms)^\[{table}\].*?(?=^\[|\Z)", "", text)
text, n = re.subn(r"(?ms)^members\s*=\s*\[.*?\]", 'members = ["cli", "fcb_core"]', text)
assert n == 1, "no members line in /repo/src/rust/Cargo.toml"
text += """
[profile.dev]
opt-level = 1
debug = "line-tables-only"
debug-assertions = true
overflow-checks = true
"""
os.makedirs(WS, exist_ok=True)
def put(path, content):
    if not os.path.exists(path) or open(path).read() != content:
        with open(path, "w") as f:
            f.write(content)
for name in ("cli", "fcb_core", "wasm"):  # wasm is no member: see browser/
    link = f"{WS}/{name}"
    if os.path.islink(link) and os.readlink(link) != f"{SRC}/{name}":
        os.unlink(link)
    if not os.path.islink(link):
        os.symlink(f"{SRC}/{name}", link)
put(f"{WS}/Cargo.toml", text)
if not os.path.exists(f"{WS}/Cargo.lock"):
    shutil.copy(f"{V}/overlay.Cargo.lock", f"{WS}/Cargo.lock")

# fcb_core as the browser gets it: the same sources with what is written for wasm32 in place of what is written for
# the host. A package of its own name, since fcb_core itself is linked into the harness as well.
BR = f"{V}/.build/ws-browser"
wanted = {f"{BR}/Cargo.toml"}
for d, dn, fs in os.walk(f"{SRC}/fcb_core"):
    dn[:] = [x for x in dn if x != "target"]
    for f in fs:
        if not f.endswith((".rs", ".toml")):
            continue
        t = open(f"{d}/{f}").read()
        if f.endswith(".rs"):
            t = t.replace('target_arch = "wasm32"', "all()")
        elif d == f"{SRC}/fcb_core" and f == "Cargo.toml":
            t, n = re.subn(r'(?m)\A(\[package\]\nname = )"fcb_core"$', r'\1"fcb_core_browser"', t)
            assert n == 1, "no package name in fcb_core/Cargo.toml"
        to = f"{BR}/fcb_core{d[len(SRC) + len('/fcb_core'):]}/{f}"
        os.makedirs(os.path.dirname(to), exist_ok=True)
        put(to, t)
        wanted.add(to)
put(f"{BR}/Cargo.toml", text.replace('["cli", "fcb_core"]', '["fcb_core"]'))
for d, dn, fs in os.walk(BR):
    for f in fs:
        if f"{d}/{f}" not in wanted:
            os.unlink(f"{d}/{f}")
