"""Builds the harness (and the CLI) from /repo's working tree."""
import fcntl, glob, hashlib, os, shutil, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = f"{V}/.build"
NIGHTLY = "nightly-x86_64-unknown-linux-gnu"
STABLE = "stable-x86_64-unknown-linux-gnu"
TRIPLE = "x86_64-unknown-linux-gnu"

class BuildError(Exception):
    pass

def extra_env():
    return {"VERIF_BUILD": B, "FCB_BIN": f"{B}/target-cli/debug/fcb", "FCBMON_CORPUS": f"{B}/corpus"}

def base_env(toolchain, target):
    e = dict(os.environ)
    e.update(PATH="/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", RUSTUP_TOOLCHAIN=toolchain,
             CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="0", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=f"{B}/{target}")
    e.pop("RUSTFLAGS", None)
    if target == "target-miri":
        e["MIRIFLAGS"] = "-Zmiri-disable-isolation -Zmiri-permissive-provenance -Zmiri-ignore-leaks"
    return e

# kind -> (toolchain, target dir, cwd, cargo args, RUSTFLAGS, executable)
KINDS = {
    "dev": (STABLE, "target", f"{V}/harness", ["build"], "", f"{B}/target/debug/fcbmon"),
    "cli": (STABLE, "target-cli", f"{B}/ws", ["build", "-p", "fcb_cli"], "", f"{B}/target-cli/debug/fcb"),
    "stats": (STABLE, "target-cli", f"{B}/ws", ["build", "-p", "fcb_core", "--bin", "stats"], "", f"{B}/target-cli/debug/stats"),
    # the browser reader, with stand-ins for the browser
    "browser": (STABLE, "target-browser", f"{V}/harness", ["build", "--features", "browser"], "", f"{B}/target-browser/debug/fcbmon"),
    "asan": (NIGHTLY, "target-asan", f"{V}/harness", ["build", "--target", TRIPLE],
             "-Zsanitizer=address -Cforce-frame-pointers=yes", f"{B}/target-asan/{TRIPLE}/debug/fcbmon"),
    "tsan": (NIGHTLY, "target-tsan", f"{V}/harness", ["build", "--target", TRIPLE, "-Zbuild-std"],
             "-Zsanitizer=thread", f"{B}/target-tsan/{TRIPLE}/debug/fcbmon"),
    "miri": (NIGHTLY, "target-miri", f"{V}/harness", ["miri", "run", "--offline", "--", "noop"], "", f"{V}/tools/miri.py"),
}

def src_hash(kind):
    h = hashlib.sha256()
    files = []
    for top in ("/repo/src/rust/fcb_core", "/repo/src/rust/wasm" if kind == "browser" else "/repo/src/rust/cli"):
        for d, dn, fs in os.walk(top):
            dn[:] = sorted(x for x in dn if x != "target")
            files += [f"{d}/{f}" for f in fs if f.endswith((".rs", ".toml"))]
    for f in sorted(files):
        h.update(f.encode() + b"\0" + open(f, "rb").read() + b"\0")
    return h.hexdigest()

def build(kinds):
    os.makedirs(f"{B}/corpus", exist_ok=True)
    with open(f"{B}/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        r = subprocess.run(["python3", f"{V}/tools/overlay.py"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr[-2000:])
        for k in sorted(kinds):
            h = src_hash(k)
            tc, tgt, cwd, args, flags, exe = KINDS[k]
            stamp = f"{B}/{tgt}/src.{k}.stamp"
            old = open(stamp).read() if os.path.exists(stamp) else ""
            if old != h:
                # cargo goes by mtimes; a copied tree may carry old ones, so forget what was built from other sources
                for p in ("fcb_core", "fcb_core_browser", "fcb_cli", "fcb-cli", "fcb_wasm", "fcbmon"):
                    for d in glob.glob(f"{B}/{tgt}/**/.fingerprint/{p}-*", recursive=True):
                        shutil.rmtree(d, ignore_errors=True)
            env = base_env(tc, tgt)
            if flags:
                env["RUSTFLAGS"] = flags
            r = subprocess.run(["cargo", *args] if "--" in args else ["cargo", *args, "--offline"], cwd=cwd, env=env, capture_output=True, text=True)
            if r.returncode:
                raise BuildError(f"{k}: {r.stderr[-3000:]}")
            if old != h:
                with open(stamp, "w") as f:
                    f.write(h)

def binary(kind):
    tc, tgt, cwd, args, flags, exe = KINDS[kind]
    env = base_env(tc, tgt)
    return exe, env
