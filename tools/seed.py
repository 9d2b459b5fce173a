#!/usr/bin/env python3
"""Development aid: validates a planted bug in a scratch copy of /repo and runs
its property's check against it.   seed.py validate|run|all [ID...]"""
import json, os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = "/tmp/vkseed"
ENV = dict(os.environ, CARGO_NET_OFFLINE="true", CARGO_INCREMENTAL="1", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           PATH="/root/.cargo/bin:" + os.environ["PATH"], CARGO_TERM_COLOR="never")
ENV.pop("CARGO_TARGET_DIR", None)

def sh(cmd, cwd, **k):
    return subprocess.run(cmd, cwd=cwd, shell=True, env=ENV, capture_output=True, text=True, **k)

def copy():
    os.makedirs(S, exist_ok=True)
    subprocess.run(["rsync", "-a", "--delete", "--exclude", "target", "/repo/", S + "/repo/"], check=True) if shutil.which("rsync") else \
        subprocess.run(f"mkdir -p {S}/repo && cd {S}/repo && git -C /repo archive HEAD | tar x && (test -d .git || git init -q)", shell=True, check=True)

    # cargo goes by times: what an earlier patch changed must be built again
    subprocess.run(f"find {S}/repo/koopa {S}/repo/libkoopa -name '*.rs' | xargs touch", shell=True, check=True)

def tests():
    r = sh("cargo build --workspace --offline && cargo test --workspace --no-fail-fast --offline -- --test-threads 8", S + "/repo")
    ok = r.returncode == 0
    return ok, r.stdout[-1500:] + r.stderr[-1500:]

def demo(i):
    d = f"{S}/demo"
    shutil.rmtree(d, ignore_errors=True)
    shutil.copytree(f"{V}/seeded/{i}", d, ignore=shutil.ignore_patterns("*.diff", "meta.json"))
    r = sh(f"bash {d}/demo.sh", S + "/repo", timeout=300)
    return r.returncode, (r.stdout + r.stderr)[-1500:]

def validate(i):
    copy()
    sh("cargo build --workspace --offline", S + "/repo")
    rc, o = demo(i)
    if rc != 0: return f"{i}: DEMO FAILS ON CLEAN TREE\n{o}"
    r = sh(f"git apply --check {V}/seeded/{i}/patch.diff && git apply {V}/seeded/{i}/patch.diff", S + "/repo")
    if r.returncode: return f"{i}: PATCH DOES NOT APPLY {r.stderr}"
    try:
        ok, o = tests()
        if not ok: return f"{i}: TESTS FAIL\n{o}"
        rc, o = demo(i)
        if rc == 0: return f"{i}: DEMO PASSES WITH PATCH\n{o}"
    finally:
        sh(f"git apply -R {V}/seeded/{i}/patch.diff", S + "/repo")
    return f"{i}: valid ({o.strip().splitlines()[-1][:150] if o.strip() else rc})"

def run(i, pids=None):
    meta = json.load(open(f"{V}/seeded/{i}/meta.json"))
    out = []
    copy()
    env = dict(os.environ, VK_REPO=S + "/repo", VK_WORK=S + "/work")
    r = sh(f"git apply {V}/seeded/{i}/patch.diff", S + "/repo")
    if r.returncode: return f"{i}: PATCH DOES NOT APPLY {r.stderr}"
    try:
        for p in pids or [meta["property"]]:
            r = subprocess.run([f"{V}/bin/check", p], cwd=V, capture_output=True, text=True, env=env)
            v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
            w = [l for l in r.stdout.splitlines() if l.startswith("  ")]
            t = r.stdout.strip().splitlines()[-1] if r.stdout.strip() else ""
            out.append(f"{i}: {p} {'CAUGHT' if r.returncode == 1 and v else 'MISSED' if r.returncode == 0 else 'ERROR'} {(w or [''])[0].strip()[:160]} | {t[-300:]}")
    finally:
        sh(f"git apply -R {V}/seeded/{i}/patch.diff", S + "/repo")
    return "\n".join(out)

if __name__ == "__main__":
    m, ids = sys.argv[1], sys.argv[2:]
    ids = ids or sorted(os.listdir(V + "/seeded"))
    for i in ids:
        if m in ("validate", "all"): print(validate(i), flush=True)
        if m in ("run", "all"): print(run(i), flush=True)
