#!/usr/bin/env python3
"""Builds the canisters of /repo's current working tree to wasm.

    python3 build.py [REPO] [BUILD_DIR]      prints the directory with the *.wasm

The workspace cannot be resolved offline because of one git dependency
(ic-canisters-http-types), so a derived copy is built: BUILD_DIR/ws holds the
members' files (rewritten only when their content differs, so cargo's mtime
test is also a content test), with that one dependency pointing at
mc/http-types. The profile is the repository's release profile without LTO
(same code, same overflow semantics, faster build). The result is kept in
BUILD_DIR/out/<hash of every input file>.
"""
import fcntl
import hashlib
import os
import re
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
STUB = os.path.join(HERE, "http-types")
BINS = ("cycles-ledger", "depositor", "fake-cmc")
SKIP_DIRS = {"target", ".git", "tests"}
PROFILE = """
[profile.mc]
inherits = "release"
lto = false
opt-level = 2
codegen-units = 16
debug = false
incremental = true
strip = false
"""


# the simulator calls the callbacks through the function table and puts the
# stack pointer back when it rolls a trapped message back
RUSTFLAGS = "-C link-arg=--export-table -C link-arg=--export=__stack_pointer"


def read(p):
    with open(p, "rb") as f:
        return f.read()


def collect(repo):
    """path relative to the workspace -> bytes"""
    files = {}
    members = sorted(
        d for d in os.listdir(repo)
        if d not in SKIP_DIRS and os.path.isfile(f"{repo}/{d}/Cargo.toml")
    )
    for m in members:
        for base, dirs, names in os.walk(f"{repo}/{m}"):
            dirs[:] = sorted(d for d in dirs if d not in SKIP_DIRS)
            for n in sorted(names):
                p = os.path.join(base, n)
                if os.path.isfile(p):
                    files[os.path.relpath(p, repo)] = read(p)
    for n in sorted(os.listdir(repo)):
        if os.path.isfile(f"{repo}/{n}") and n not in ("Cargo.lock",):
            files[n] = read(f"{repo}/{n}")
    for base, _, names in os.walk(f"{repo}/assets"):
        for n in sorted(names):
            p = os.path.join(base, n)
            files[os.path.relpath(p, repo)] = read(p)
    # the unreachable git dependency becomes a path dependency
    key = "cycles-ledger/Cargo.toml"
    text = files[key].decode()
    text = re.sub(
        r"(?m)^ic-canisters-http-types\s*=.*$",
        f'ic-canisters-http-types = {{ path = "{STUB}" }}',
        text,
    )
    # test targets are not copied: drop what only they need
    files[key] = text.encode()
    files["Cargo.toml"] = files["Cargo.toml"] + PROFILE.encode()
    lock = read(f"{repo}/Cargo.lock").decode()
    lock = re.sub(r'(?m)^source = "git\+https://github.com/dfinity/ic\?[^"]*"\n', "", lock)
    files["Cargo.lock"] = lock.encode()
    return files


def main(repo="/repo", build=os.path.join(os.path.dirname(HERE), "build")):
    files = collect(repo)
    h = hashlib.sha256()
    for p in sorted(files):
        h.update(p.encode() + b"\0" + hashlib.sha256(files[p]).digest())
    for base, _, names in sorted(os.walk(STUB)):
        if "target" in base:
            continue
        for n in sorted(names):
            h.update(n.encode() + read(os.path.join(base, n)))
    h.update((PROFILE + RUSTFLAGS).encode())
    tag = h.hexdigest()[:24]
    os.makedirs(build, exist_ok=True)
    out = os.path.join(build, "out", tag)
    with open(os.path.join(build, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        done = os.path.join(out, "done")
        if not os.path.isfile(done):
            ws = os.path.join(build, "ws")
            os.makedirs(ws, exist_ok=True)
            for base, dirs, names in os.walk(ws):
                for n in names:
                    p = os.path.join(base, n)
                    if os.path.relpath(p, ws) not in files:
                        os.unlink(p)
            for rel, data in files.items():
                p = os.path.join(ws, rel)
                os.makedirs(os.path.dirname(p), exist_ok=True)
                if not os.path.isfile(p) or read(p) != data:
                    with open(p, "wb") as f:
                        f.write(data)
            env = dict(os.environ)
            for k in list(env):
                if k.startswith(("CARGO_PROFILE", "RUSTFLAGS", "CARGO_ENCODED", "CARGO_BUILD")):
                    del env[k]
            env.update(
                HOME="/root",
                PATH="/root/.cargo/bin:" + env.get("PATH", "/usr/bin:/bin"),
                RUSTUP_TOOLCHAIN="1.91.1",
                CARGO_NET_OFFLINE="true",
                CARGO_TARGET_DIR=os.path.join(build, "target"),
                CARGO_TERM_COLOR="never",
                RUSTC_WRAPPER="",
                RUSTFLAGS=RUSTFLAGS,
            )
            cmd = ["cargo", "build", "--offline", "--profile", "mc",
                   "--target", "wasm32-unknown-unknown", "--bins"]
            for b in BINS:
                cmd += ["-p", b]
            p = subprocess.run(cmd, cwd=ws, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.STDOUT, text=True)
            if p.returncode:
                sys.stderr.write(p.stdout[-6000:])
                sys.exit("build of the canisters failed")
            tmp = out + ".tmp"
            shutil.rmtree(tmp, ignore_errors=True)
            os.makedirs(tmp)
            for b in BINS:
                shutil.copy(f"{build}/target/wasm32-unknown-unknown/mc/{b}.wasm", tmp)
            open(os.path.join(tmp, "done"), "w").close()
            shutil.rmtree(out, ignore_errors=True)
            os.rename(tmp, out)
            # keep only the few most recent results
            root = os.path.join(build, "out")
            kept = sorted((os.path.join(root, d) for d in os.listdir(root)),
                          key=os.path.getmtime)
            for d in kept[:-4]:
                shutil.rmtree(d, ignore_errors=True)
    print(out)


if __name__ == "__main__":
    main(*sys.argv[1:])
