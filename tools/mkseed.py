#!/usr/bin/env python3
"""mkseed.py ID : confirms a planted bug in a scratch copy of /repo. /verif/seeded/ID must hold meta.json, main.rs and
edit.py (sed-like: list of (file, old, new)) or patch.diff; writes patch.diff and demo.sh, runs demo on both trees and
the stable tests on the patched tree. edit lives in tools/seededits/ID.py."""
import json, os, shutil, subprocess, sys, tempfile
H = "/verif"
i = sys.argv[1]
d = f"{H}/seeded/{i}"
W = f"/tmp/seed-{i}"
shutil.rmtree(W, ignore_errors=True)
def run(c, **k): return subprocess.run(c, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
os.makedirs(W)
print(run(["git", "-C", "/repo", "worktree", "prune"]).stdout, end="")
run(["cp", "-a", "/repo", W + "/repo"])
R = W + "/repo"
src = open(f"{d}/main.rs").read()
dom = "async_ui_web" in src or "web_sys" in src
shutil.copy(f"{H}/tools/seedlib/demo-{'css' if 'css!' in src else 'dom' if dom else 'plain'}.sh", f"{d}/demo.sh")
os.chmod(f"{d}/demo.sh", 0o755)
if dom and 'css!' not in src:
    shutil.rmtree(f"{d}/fakedom", ignore_errors=True)
    shutil.copytree(f"{H}/fakedom", f"{d}/fakedom", ignore=shutil.ignore_patterns("target", "Cargo.lock"))
    shutil.copy(f"{H}/harness/Cargo.lock", f"{d}/demo.lock")
ed = f"{d}/edit.py"
def demo():
    r = run(["bash", f"{d}/demo.sh"], cwd=R)
    return r.returncode, r.stdout[-1500:]
a = demo()
ns = {}
if os.path.exists(ed):
    exec(open(ed).read(), ns)
    for f, old, new in ns["EDITS"]:
        t = open(f"{R}/{f}").read()
        assert t.count(old) == 1, (f, old, t.count(old))
        open(f"{R}/{f}", "w").write(t.replace(old, new))
    p = run(["git", "-C", R, "diff"]).stdout
    open(f"{d}/patch.diff", "w").write(p)
    json.dump(ns["META"], open(f"{d}/meta.json", "w"), indent=1)
    os.unlink(ed)
else:
    r = run(["git", "-C", R, "apply", f"{d}/patch.diff"]); assert r.returncode == 0, r.stdout
b = demo()
print("unpatched demo:", a)
print("patched demo:", b)
# the repository's own tests, in the scratch copy
env = dict(os.environ, RUSTUP_TOOLCHAIN="1.99.0-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true")
t1 = run(["cargo", "build", "--workspace", "--offline"], cwd=R, env=env)
t2 = run(["cargo", "test", "--workspace", "--target", "x86_64-unknown-linux-gnu", "--no-fail-fast", "--offline"], cwd=R, env=env)
bad = [l for l in t2.stdout.splitlines() if "FAILED" in l or "error" in l.lower() or "failures:" in l]
print("build", t1.returncode, "test", t2.returncode, bad[:5])
ok = a[0] == 0 and b[0] not in (0, 3, 4) and t1.returncode == 0 and t2.returncode == 0
print("OK" if ok else "NOT OK", i)
shutil.rmtree(W)
sys.exit(0 if ok else 1)
