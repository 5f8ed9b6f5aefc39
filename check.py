#!/usr/bin/env python3
"""check.py <ID>: build the monitors against /repo's working tree and run the one for <ID>.

Exit 0: the property held on everything explored.  Exit 1 and a VIOLATION line: it is broken.
Anything else: the check could not give an answer.  VERIF_SEED and VERIF_TIER are read from the
environment (1 and quick by default).
"""
import glob, json, os, shutil, signal, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
H = os.path.join(V, "harness")
B = os.path.join(V, ".build")
R = os.path.join(V, "replays")
EV = os.path.join(V, "evidence")
TARGET = "x86_64-unknown-linux-gnu"
SEED = int(os.environ.get("VERIF_SEED") or 1)
TIER = os.environ.get("VERIF_TIER") or "quick"
if TIER not in ("quick", "thorough"):
    TIER = "quick"
QUICK = TIER == "quick"
T0 = time.time()
SAN_OPTS = {
    # leaks are counted by the harness' own allocator and by Miri: no tracing privilege needed
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=86:abort_on_error=0:allocator_may_return_null=0:detect_stack_use_after_return=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=86:abort_on_error=0:report_signal_unsafe=0",
    "MSAN_OPTIONS": "halt_on_error=1:exitcode=86:abort_on_error=0",
}

def env(**kw):
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_TARGET_DIR", "CARGO_INCREMENTAL", "CARGO_PROFILE_DEV_DEBUG", "RUSTC_WRAPPER",
              "CARGO_BUILD_TARGET", "CARGO_ENCODED_RUSTFLAGS", "MIRIFLAGS"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "stable"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_TERM_COLOR"] = "never"
    e["RUST_BACKTRACE"] = "0"
    e.update(kw)
    return e

def fail(msg):
    print("cannot decide:", msg, flush=True)
    sys.exit(2)

def run(cmd, e, timeout, cwd=H):
    """Run in a process group of its own; (code, stdout, stderr), code None after a time-out."""
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                         stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True)
    try:
        o, r = p.communicate(timeout=timeout)
        return p.returncode, o, r
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        o, r = p.communicate()
        return None, o, r

def build(kind, timeout=600):
    """Build the monitors; returns the binary."""
    if kind == "cov":
        e = env(CARGO_TARGET_DIR=os.path.join(B, "cov"), RUSTC_WRAPPER=os.path.join(H, "rustc-wrap.sh"))
        cmd, out = ["cargo", "build", "--offline", "--features", "guard"], "cov/debug/vmon"
    else:
        e = env(CARGO_TARGET_DIR=os.path.join(B, kind), RUSTUP_TOOLCHAIN="nightly",
                RUSTC_WRAPPER=os.path.join(H, "rustc-wrap.sh"),
                RUSTFLAGS={"asan": "-Zsanitizer=address", "tsan": "-Zsanitizer=thread",
                           "msan": "-Zsanitizer=memory -Zsanitizer-memory-track-origins"}[kind])
        cmd = ["cargo", "build", "--offline", "--target", TARGET]
        if kind != "asan":
            cmd.append("-Zbuild-std")
        out = f"{kind}/{TARGET}/debug/vmon"
    c, o, r = run(cmd, e, timeout)
    if c != 0:
        print(r[-6000:])
        fail(f"the {kind} build of the monitors failed")
    return os.path.join(B, out)

def build_platforms():
    """C29: the operations built without optimisation, without checks, and for wasm32; the last one's
    error when the library does not compile for it."""
    src = os.path.join(B, "xsrc")
    shutil.rmtree(src, ignore_errors=True)
    # cargo notes the patch of std below in the lock file: in a copy
    shutil.copytree(os.path.join(V, "xplat"), os.path.join(src, "xplat"))
    shutil.copytree(os.path.join(H, "src"), os.path.join(src, "harness", "src"))
    x = os.path.join(src, "xplat")
    shutil.copytree(x, os.path.join(src, "xplat-wasm"))
    w = os.path.join(src, "xplat-wasm")
    kinds = [
        ("unoptimised", ["cargo", "build", "--offline", "--bin", "xplat"], x, {}, "debug/xplat", "debug/xplat"),
        ("optimised", ["cargo", "build", "--offline", "--bin", "xplat", "--release"], x, {}, "release/xplat", "release/xplat"),
        # std for it is compiled here from its sources; its allocator is a crate which is not there
        ("wasm", ["cargo", "build", "--offline", "--lib", "--profile", "wasm", "--target", "wasm32-unknown-unknown",
                  "-Zbuild-std=std,panic_abort", "--config", f'patch.crates-io.dlmalloc.path="{w}/dlmalloc"'], w,
         {"RUSTC_BOOTSTRAP": "1", "RUSTFLAGS": "-Clink-arg=-zstack-size=67108864"},
         "wasm32-unknown-unknown/wasm/xplat_wasm.wasm", "xplat.wasm"),
    ]
    procs = [(k, subprocess.Popen(k[1], cwd=k[2], env=env(CARGO_TARGET_DIR=os.path.join(B, "x-" + k[0]), **k[3]),
                                  stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE,
                                  text=True, errors="replace", start_new_session=True)) for k in kinds]
    broken = None
    for k, p in procs:
        try:
            _, r = p.communicate(timeout=600)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            fail(f"the {k[0]} build takes too long")
        if p.returncode != 0:
            if k[0] == "wasm" and "could not compile `dbus-message-parser`" in r:
                broken = r
                continue
            print(r[-6000:])
            fail(f"the {k[0]} build failed")
        out = os.path.join(B, "xplat", k[5])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        shutil.copy(os.path.join(B, "x-" + k[0], k[4]), out)
    shutil.copy(os.path.join(x, "serve.js"), os.path.join(B, "xplat", "serve.js"))
    return broken

def big_endian(vmon, pid, secs, corpus, seed):
    """Recorded operations on an interpreted big-endian platform; (code, summary)."""
    target = "s390x-unknown-linux-gnu"
    ops = os.path.join(B, "ops.bin")
    c, o, r = run([vmon, "record", ops, "--corpus", corpus, "--seed", str(seed), "--max-cases", "20000"], env(), 300)
    if c != 0:
        print(r[-3000:])
        fail("the operations could not be recorded")
    x = os.path.join(B, "xsrc", "xplat")
    e = env(CARGO_TARGET_DIR=os.path.join(B, "x-miri"), RUSTUP_TOOLCHAIN="nightly", XPLAT_OPS=ops,
            MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-disable-stacked-borrows -Zmiri-disable-validation")
    cmd = ["cargo", "miri", "run", "--offline", "--bin", "xplat", "--target", target, "--", "list"]
    c, o, r = run(cmd + ["0", "1", "0"], e, 600, cwd=x)
    if c != 0:
        print(r[-6000:])
        fail("the build for the big-endian platform failed")
    procs = [subprocess.Popen(cmd + [str(i), "8", str(secs)], cwd=x, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE,
                              stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True) for i in range(8)]
    total, code, end = {"target": target}, 0, time.time() + secs + 200
    for i, p in enumerate(procs):
        try:
            o, r = p.communicate(timeout=max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.communicate()
            total["cut off"] = total.get("cut off", 0) + 1
            continue
        for l in o.splitlines():
            if l.startswith("COMPARED "):
                w = l.split()[1:]
                for k, n in zip(w[::2], w[1::2]):
                    total[k] = total.get(k, 0) + int(n)
        if p.returncode == 0:
            continue
        k = next((l.split()[1] for l in o.splitlines() if l.startswith("DIFFERS ")), None)
        if k is None:
            print(o[-2000:], r[-3000:])
            fail(f"the interpreter ended with {p.returncode}")
        _, here, _ = run([vmon, "explain", ops, "--idx", k], env(), 60)
        there = "\n".join(l[4:] for l in o.splitlines() if l.startswith("LOG "))
        path = os.path.join(R, f"{pid}-{target}-s{i}.log")
        with open(path, "w") as f:
            f.write(f"{here}\n==== on {target}:\n{there}\n")
        h = here.splitlines()
        d = next((f"here {a[:300]} there {b[:300]}" for a, b in zip(h[1:], there.splitlines()) if a != b), "")
        print(f"what: {target} gives something else: {d}: {h[0][:600] if h else k}")
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        code = 1
    return code, total

def monitor(binary, pid, secs, kind, evidence=None, seed=SEED, workers=8, keep=None):
    cmd = [binary, "check", pid, "--seed", str(seed), "--tier", TIER, "--secs", str(secs), "--build", kind,
           "--workers", str(workers), "--replays", R]
    if evidence:
        cmd += ["--evidence", evidence]
    if keep:
        cmd += ["--keep", keep]
    c, o, r = run(cmd, env(**SAN_OPTS), secs * 2 + 900)
    sys.stdout.write(o)
    sys.stderr.write(r[-4000:])
    sys.stdout.flush()
    if c not in (0, 1):
        fail(f"the {kind} run ended with {c}")
    return c

def miri(pid, secs, corpus, seed):
    """One single-threaded interpreter per core; returns (code, summary)."""
    d = os.path.join(B, "miri-run")
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    os.makedirs(R, exist_ok=True)
    e = env(CARGO_TARGET_DIR=os.path.join(B, "miri"), RUSTUP_TOOLCHAIN="nightly",
            MIRIFLAGS=f"-Zmiri-disable-isolation -Zmiri-tree-borrows -Zmiri-permissive-provenance -Zmiri-seed={seed}")
    # build once
    c, o, r = run(["cargo", "miri", "run", "--offline", "--", "list"], e, 600)
    if c != 0:
        print(r[-6000:])
        fail("the Miri build of the monitors failed")
    procs = []
    for i in range(8):
        log = open(os.path.join(d, f"m{i}.err"), "w")
        out = open(os.path.join(d, f"m{i}.out"), "w")
        procs.append(subprocess.Popen(
            ["cargo", "miri", "run", "--offline", "--", "inproc", pid, "--corpus", corpus, "--idx", str(i), "--workers", "8",
             "--seed", str(seed), "--secs", str(secs), "--dir", d, "--replays", R, "--build", "miri"],
            cwd=H, env=e, stdin=subprocess.DEVNULL, stdout=out, stderr=log, start_new_session=True))
    end = time.time() + secs + 240
    total, code, cut = {}, 0, 0
    for i, p in enumerate(procs):
        try:
            c = p.wait(max(1, end - time.time()))
        except subprocess.TimeoutExpired:
            # one long case: what ran was watched, and the driver's own run judges the time it takes
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            cut += 1
            continue
        out = open(os.path.join(d, f"m{i}.out")).read()
        err = open(os.path.join(d, f"m{i}.err")).read()
        for l in out.splitlines():
            if l.startswith("INPROC "):
                w = l.split()[1:]
                for k, n in zip(w[::2], w[1::2]):
                    total[k] = total.get(k, 0) + int(n)
        if c == 0:
            continue
        found = [l for l in out.splitlines() if l.startswith("FOUND ")]
        if found:
            path, what = found[0][6:].split(" ", 1)
        elif "Undefined Behavior" in err or "memory leaked" in err or "Data race" in err:
            at = os.path.join(d, f"s{i}.at")
            path = os.path.join(R, f"{pid}-miri-s{i}.log")
            with open(path, "w") as f:
                f.write(err)
                if os.path.exists(at):
                    f.write("\nprogress (cases, tape of the case at that point): " + open(at).read())
            what = "Miri: " + next((l for l in err.splitlines() if l.startswith("error")), "")
        else:
            print(err[-3000:])
            fail(f"Miri shard {i} ended with {c}")
        print("what:", what[:1500])
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        code = 1
    total["shards"] = 8
    total["shards cut off in a long case"] = cut
    return code, total

def known(pid):
    """Findings listed in the committed file (fixed ones are not reported)."""
    try:
        for l in open(os.path.join(V, "KNOWN_FINDINGS.txt")):
            if l.startswith(f"finding: property={pid} "):
                print("KNOWN-FINDING: " + l[len("finding: "):].strip())
    except FileNotFoundError:
        pass

def merge(path, extra):
    try:
        e = json.load(open(path))
    except (OSError, ValueError):
        return
    e["coverage"].update(extra)
    e["wall_s"] = round(time.time() - T0, 2)
    e["violations"] = e.get("violations", 0) + extra.get("violations_elsewhere", 0)
    with open(path + ".tmp", "w") as f:
        json.dump(e, f, indent=1)
        f.write("\n")
    os.replace(path + ".tmp", path)

def sub(pid, kind, secs, seed):
    """The same monitor in a sanitizer build; (code, coverage)."""
    b = build(kind)
    ev = os.path.join(B, f"{pid}-{kind}.json")
    if os.path.exists(ev):
        os.unlink(ev)
    c = monitor(b, pid, secs, kind, ev, seed)
    cov = {}
    try:
        j = json.load(open(ev))
        cov = {k: j["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "enumerated_cases", "edges_reached", "monitor")}
        cov["seed"] = seed
    except (OSError, ValueError, KeyError):
        pass
    return c, cov

def main():
    if len(sys.argv) != 2:
        fail("usage: check.py <ID>")
    pid = sys.argv[1]
    if pid == "setup":
        build("cov")
        return
    broken = build_platforms() if pid == "C29" else None
    os.makedirs(EV, exist_ok=True)
    os.makedirs(R, exist_ok=True)
    for f in glob.glob(os.path.join(R, pid + "-*")):
        os.unlink(f)
    known(pid)
    ev = os.path.join(EV, pid + ".json")
    secs = SECS_QUICK.get(pid, 20) if QUICK else 240
    if broken:
        path = os.path.join(R, "C29-wasm32-build.log")
        with open(path, "w") as f:
            f.write(broken)
        print("what: the library does not compile for wasm32-unknown-unknown:", next((l for l in broken.splitlines() if l.startswith("error")), ""))
        print(f"VIOLATION property={pid} replay={path}", flush=True)
        sys.exit(1)
    keep = os.path.join(B, "keep-" + pid) if pid in ("C22", "C29") else None
    if keep:
        shutil.rmtree(keep, ignore_errors=True)
        os.makedirs(keep)
    code = monitor(build("cov"), pid, secs, "cov", ev, keep=keep)
    extra = {}
    if pid == "C21" and code == 0:
        c, extra["thread_sanitizer"] = sub(pid, "tsan", 8 if QUICK else 180, SEED + 1000)
        code = code or c
    if pid == "C22" and code == 0:
        c, extra["address_sanitizer"] = sub(pid, "asan", 8 if QUICK else 180, SEED + 1000)
        code = code or c
        if code == 0:
            c, extra["memory_sanitizer"] = sub(pid, "msan", 8 if QUICK else 180, SEED + 2000)
            code = code or c
        if code == 0:
            c, extra["miri"] = miri(pid, 40 if QUICK else 300, keep, SEED)
            code = code or c
    if pid == "C29" and code == 0:
        code, extra["big_endian"] = big_endian(build("cov"), pid, 60 if QUICK else 240, keep, SEED)
    if not QUICK and code == 0 and pid not in ("C21", "C22", "C29"):
        # a second, independent run, so that one unlucky early corpus does not decide
        b = build("cov")
        e2 = os.path.join(B, f"{pid}-second.json")
        code = monitor(b, pid, secs, "cov", e2, SEED + 7919)
        try:
            j = json.load(open(e2))
            extra["second_run"] = {k: j["coverage"][k] for k in ("evaluations", "distinct_nontrivial", "edges_reached")}
        except (OSError, ValueError, KeyError):
            pass
    if extra:
        if code == 1:
            extra["violations_elsewhere"] = 1
        merge(ev, extra)
    else:
        merge(ev, {})
    if keep:
        shutil.rmtree(keep, ignore_errors=True)
    sys.exit(code)

SECS_QUICK = {}
if __name__ == "__main__":
    main()
