#!/usr/bin/env python3
"""plant.py SPEC.py [ID...]: write seeded/<ID>/ from a list of bugs and confirm each in a scratch copy
of /repo (builds, stable tests pass, demo 0 without and nonzero with the patch)."""
import json, os, runpy, shutil, subprocess, sys
S = "/tmp/seedrepo"
ENV = dict(os.environ, HOME="/root", PATH="/root/.cargo/bin:" + os.environ["PATH"], RUSTUP_TOOLCHAIN="stable",
           CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only", CARGO_TERM_COLOR="never")
ENV.pop("RUSTFLAGS", None); ENV.pop("CARGO_TARGET_DIR", None)
DEMO = r'''#!/bin/bash
# Exit 0 when the property holds for the demonstrated case. Run in the repository.
set -eu
here=$(cd "$(dirname "$0")" && pwd)
export HOME=/root PATH=/root/.cargo/bin:$PATH RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true
unset RUSTFLAGS RUSTC_WRAPPER CARGO_TARGET_DIR
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
mkdir "$d/src"
cp "$here/main.rs" "$d/src/main.rs"
cat > "$d/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[dependencies]
bytes = "~1.1.0"
dbus-message-parser = { path = "$PWD" }
[workspace]
T
cd "$d"
timeout 250 cargo run --quiet --offline
'''
HEAD = '''#![allow(unused)]
use bytes::Bytes;
use dbus_message_parser::{decode::*, encode::*, match_rule::*, message::*, value::*};
use std::convert::{TryFrom, TryInto};
fn call() -> Message {
    Message::method_call("a.b".try_into().unwrap(), "/p".try_into().unwrap(), "a.b".try_into().unwrap(), "m".try_into().unwrap())
}
'''
def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, env=ENV, shell=True, capture_output=True, text=True, **kw)
def stable():
    return set(json.load(open("/opt/vp/BASELINE.json")).get("stable", json.load(open("/opt/vp/BASELINE.json")).get("passed", [])))
def main():
    bugs = runpy.run_path(sys.argv[1])["BUGS"]
    want = sys.argv[2:]
    if not os.path.isdir(S):
        subprocess.run(["cp", "-a", "/repo", S], check=True)
    for b in bugs:
        if want and b["id"] not in want:
            continue
        sh("git checkout -q -- .", S)
        head = sh("git rev-parse HEAD", S).stdout.strip()
        assert head == sh("git rev-parse HEAD", "/repo").stdout.strip()
        d = "/verif/seeded/" + b["id"]
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(DEMO.replace("timeout 250 cargo run --quiet --offline", "timeout 280 " + b.get("run", "cargo run --quiet --offline"))); os.chmod(d + "/demo.sh", 0o755)
        open(d + "/main.rs", "w").write(HEAD + b["demo"])
        json.dump({"property": b["property"], "needs": b["needs"], "what_it_breaks": b["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        r = sh("bash %s/demo.sh" % d, S)
        ok = True
        if r.returncode != 0:
            print(b["id"], "DEMO FAILS ON CLEAN", (r.stdout + r.stderr)[-1500:]); ok = False
        for f, a, n in b["edits"]:
            p = S + "/" + f
            s = open(p).read()
            assert s.count(a) >= 1, (b["id"], f, a)
            if b.get("once", True): assert s.count(a) == 1, (b["id"], s.count(a), a)
            s = s.replace(a, n)
            open(p, "w").write(s)
        open(d + "/patch.diff", "w").write(sh("git diff", S).stdout)
        if ok:
            r = sh("cargo test --workspace --no-fail-fast --offline -- --test-threads 8 > /tmp/seed.log 2>&1; python3 /opt/vp/results.py /tmp/seed.json cargo:/tmp/seed.log", S)
            res = json.load(open("/tmp/seed.json"))
            bad = [t for t in STABLE if t not in set(res["passed"])]
            if bad:
                log = open("/tmp/seed.log").read()
                err = log.find("error")
                print(b["id"], "TESTS BREAK", len(bad), bad[:4], log[err:err+1500] if len(bad) > 100 else ""); ok = False
        if ok:
            r = sh("bash %s/demo.sh" % d, S)
            if r.returncode == 0:
                print(b["id"], "DEMO PASSES WITH PATCH"); ok = False
            else:
                last = [l for l in r.stderr.splitlines() if l.strip()][:3]
                print(b["id"], "ok:", " | ".join(last)[:300])
        sh("git checkout -q -- .", S)
        if not ok:
            shutil.rmtree(d)
STABLE = None
def load():
    global STABLE
    j = json.load(open("/opt/vp/BASELINE.json"))
    for k in ("stable", "passed", "tests", "stable_passed"):
        if k in j:
            STABLE = list(j[k]); return
    STABLE = j if isinstance(j, list) else list(j)
load()
main()
