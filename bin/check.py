#!/usr/bin/env python3
"""check.py <property id>: rebuilds the monitor of one property from /repo's working tree, runs it.

Exit 0: held on everything explored. Exit 1 + VIOLATION line: broken. Exit 2: no verdict."""
import os, re, resource, shutil, signal, subprocess, sys, tempfile

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
# The engine needs stand-ins for dependencies that are not installed, so it has a workspace of its own.
WORKSPACES = [f"{ROOT}/harness", f"{ROOT}/engine"]

def env():
    e = dict(os.environ)
    for k in ("RUSTFLAGS", "CARGO_BUILD_RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WORKSPACE_WRAPPER"):
        e.pop(k, None)
    e.update(
        HOME="/root",
        PATH="/root/.cargo/bin:" + e.get("PATH", "/usr/local/bin:/usr/bin:/bin"),
        RUSTUP_TOOLCHAIN="1.90.0", RUSTUP_AUTO_INSTALL="0", RUSTC_WRAPPER="",
        CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{ROOT}/target", CARGO_TERM_COLOR="never",
        CARGO_INCREMENTAL="0", INSTA_UPDATE="no", NO_COLOR="1", TZ="UTC", VERIF_ROOT=ROOT, RUST_BACKTRACE="0",
    )
    e.setdefault("VERIF_SEED", "1")
    e.setdefault("VERIF_TIER", "quick")
    return e

def binaries():
    """property id -> (workspace, package, bin)"""
    out = {}
    for ws in WORKSPACES:
        for pkg in sorted(os.listdir(ws)):
            d = f"{ws}/{pkg}/src/bin"
            if os.path.isdir(d):
                for f in sorted(os.listdir(d)):
                    m = re.fullmatch(r"([a-z]\d{2,3})(?:_\w+)?\.rs", f)
                    if m:
                        out[m.group(1).upper()] = (ws, pkg, f[:-3])
    return out

def build(ws, args, e):
    p = subprocess.run(["cargo", "build", "--offline", "--locked", *args], cwd=ws, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        print(p.stdout[-6000:])
        print("NO VERDICT: the monitor does not build against the current tree")
        sys.exit(2)

def limits():
    cap = 24 << 30
    resource.setrlimit(resource.RLIMIT_AS, (cap, cap))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

def main():
    pid = sys.argv[1]
    e = env()
    tier = e["VERIF_TIER"]
    ws, pkg, name = binaries()[pid]
    build(ws, ["-p", pkg, "--bin", name], e)
    exe = f"{ROOT}/target/debug/{name}"
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        e["VERIF_SCRATCH"] = scratch
        limit = 700 if tier == "quick" else 5 * 3600
        try:
            p = subprocess.run([exe, *sys.argv[2:]], cwd=scratch, env=e, timeout=limit, preexec_fn=limits)
        except subprocess.TimeoutExpired:
            print("NO VERDICT: the monitor did not finish in time")
            return 2
        rc = p.returncode
        if rc in (-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE):
            # The process died inside the code under test (stack overflow, abort): find the case.
            tr = tempfile.mkdtemp(prefix="trace-", dir=scratch)
            q = subprocess.run([exe, *sys.argv[2:]], cwd=scratch, env={**e, "VERIF_TRACE": tr},
                               timeout=limit, preexec_fn=limits, stdout=subprocess.DEVNULL)
            os.makedirs(f"{ROOT}/evidence/replays", exist_ok=True)
            path = f"{ROOT}/evidence/replays/{pid}-crash.txt"
            cases = [open(f"{tr}/{f}").read().strip() for f in sorted(os.listdir(tr))]
            found = []
            for c in cases:
                r = subprocess.run([exe, *sys.argv[2:]], cwd=scratch, env={**e, "VERIF_REPLAY": c},
                                   timeout=limit, preexec_fn=limits, stdout=subprocess.DEVNULL)
                if r.returncode < 0:
                    found.append(c)
            with open(path, "w") as f:
                f.write(f"property: {pid}\nthe process died with signal {-rc} (again: {q.returncode})\n")
                for c in found or cases:
                    f.write(f"replay: VERIF_REPLAY='{c}' python3 {ROOT}/bin/check.py {pid}\n")
            if found:
                print(f"the code under test killed the process (signal {-rc}) in case {found[0]}")
                print(f"VIOLATION property={pid} replay={path}")
                return 1
            print(f"NO VERDICT: the monitor died with signal {-rc}, not reproduced on one case")
            return 2
        if rc not in (0, 1):
            return 2
        return rc
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == "__main__":
    if sys.argv[1:] == ["--setup"]:
        for ws in WORKSPACES:
            build(ws, ["--bins"], env())
        sys.exit(0)
    sys.exit(main())
