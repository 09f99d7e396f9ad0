#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] : decide one property on /repo's working tree.
check.py --setup                              : prebuild what the checks share.

1. the proof units registered for the property (proof/units.py) are re-extracted from /repo and
   discharged by Verus;
2. the bounded harness (harness/, real crates over an in-memory DOM) runs beside them: it covers, with a
   stated bound, what the contracts trust, and it looks for the failing input of a failed obligation.
Exit 0 / 1 (with a VIOLATION line) / 2 (no answer)."""
import argparse, fcntl, hashlib, json, os, shutil, signal, struct, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = "/repo"
BUILD = os.path.join(HERE, "build")
TOOLCHAIN = "1.99.0-x86_64-unknown-linux-gnu"
sys.path.insert(0, os.path.join(HERE, "proof"))
NPROC = max(2, min(8, os.cpu_count() or 2))

TIERS = {  # random seconds per shard, exhaustive seconds (shard 0), extra search after a failed obligation
    "quick": dict(secs=25.0, exh=15.0, search=60.0),
    "thorough": dict(secs=400.0, exh=200.0, search=120.0),
}


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


# the harnesses: crate, what of /repo and /verif they are built from, and the properties that use them. The
# macros' have their own, so that a macro that breaks what it expands to does not take the others along.
KINDS = {
    "main": dict(crate="harness", trees=[REPO, "harness", "fakedom"]),
    "css": dict(crate="harness-macros", trees=[REPO + "/async_ui_web_macros", "harness/src", "harness-macros"]),
    "select": dict(crate="harness-select", trees=[REPO, "harness/src", "harness-select", "fakedom"]),
}
KIND_OF = {"M01": "css", "M02": "select"}


def source_files(kind):
    out = []
    for base in KINDS[kind]["trees"]:
        for d, ds, fs in os.walk(os.path.join(HERE, base)):
            ds[:] = sorted(x for x in ds if x not in (".git", "target", "node_modules"))
            for f in sorted(fs):
                if f.endswith((".rs", ".toml")) or (f == "Cargo.lock" and not base.startswith(REPO)):
                    out.append(os.path.join(d, f))
    return out


def content_hash(kind):
    h = hashlib.sha256()
    for f in source_files(kind):
        h.update(f.encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:20]


def cargo_env(kind):
    e = dict(os.environ)
    for k in ("CARGO_BUILD_TARGET", "RUSTFLAGS", "RUSTC_WRAPPER"):
        e.pop(k, None)
    e.update(HOME=os.environ.get("HOME", "/root"), CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN=TOOLCHAIN,
             CARGO_TARGET_DIR=os.path.join(BUILD, "ht-" + kind), CARGO_TERM_COLOR="never", CARGO_INCREMENTAL="0",
             RUSTC_WRAPPER="")
    if "/root/.cargo/bin" not in e.get("PATH", ""):
        e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "")
    return e


def build_harness(kind="main"):
    """returns (binary, None) or (None, error text). Keyed by the content of every source file, never by mtime."""
    os.makedirs(BUILD, exist_ok=True)
    with open(os.path.join(BUILD, "lock-" + kind), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        key = content_hash(kind)
        bin_ = os.path.join(BUILD, "hbin-%s-%s" % (kind, key))
        if os.path.exists(bin_):
            return bin_, None
        env = cargo_env(kind)
        out = os.path.join(env["CARGO_TARGET_DIR"], "debug")
        fp = os.path.join(out, ".fingerprint")
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if d.startswith(("async_ui", "x-bow", "x_bow", "harness", "web-sys", "js-sys", "wasm-bindgen")):
                    shutil.rmtree(os.path.join(fp, d), ignore_errors=True)
        crate = KINDS[kind]["crate"]
        r = sh(["cargo", "build", "--offline"], cwd=os.path.join(HERE, crate), env=env)
        if r.returncode != 0:
            return None, r.stdout
        for f in os.listdir(BUILD):
            if f.startswith(("hbin-" + kind, "hlib-" + kind)):
                p = os.path.join(BUILD, f)
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)
        tmp = bin_ + ".tmp"
        if kind == "css":
            # the harness runs within the compiler, which alone can call a procedural macro
            lib = os.path.join(BUILD, "hlib-%s-%s" % (kind, key))
            os.makedirs(lib)
            shutil.copy(os.path.join(out, "libharness_macros.so"), lib)
            open(os.path.join(lib, "stub.rs"), "w").write("harness_macros::vx_harness!();\n")
            rustc = sh(["rustc", "--print", "sysroot"], env=env).stdout.strip() + "/bin/rustc"
            open(tmp, "w").write("#!/bin/bash\nVX_ARGS=\"$(printf '%%s\\n' \"$@\")\" exec %s --edition 2021 --crate-type lib "
                                 "--emit=metadata -o /dev/null --extern harness_macros=%s/libharness_macros.so %s/stub.rs\n"
                                 % (rustc, lib, lib))
            os.chmod(tmp, 0o755)
        else:
            shutil.copy(os.path.join(out, crate), tmp)
        os.rename(tmp, bin_)
        return bin_, None


def read_progress(path):
    try:
        b = open(path, "rb").read()
        cnt, kind, x = struct.unpack("<QQQ", b[:24])
        if kind == 0:
            return cnt, dict(size=0, choices=list(struct.unpack("<%dI" % x, b[24:24 + 4 * x])))
        return cnt, dict(size=kind, rng=x)
    except Exception:
        return 0, None


def replay_fails(binary, path, timeout=90):
    """True/False, text"""
    try:
        r = sh([binary, "replay", path], timeout=timeout)
    except subprocess.TimeoutExpired:
        return True, "hang: no end within %d s" % timeout
    return r.returncode != 0, r.stdout


def run_shards(binary, prop, seed, secs, exh, nshards, tag):
    """runs the bounded harness; returns (merged stats, failure or None)"""
    wd = tempfile.mkdtemp(prefix="vchk-")
    procs = []
    try:
        for i in range(nshards):
            pf, of = os.path.join(wd, "p%d" % i), os.path.join(wd, "o%d" % i)
            # the shard count of a run never changes what shard i does
            p = subprocess.Popen([binary, "work", prop, str(seed), str(i), str(secs), str(exh if i == 0 else 0), pf, of],
                                 stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, cwd=wd)
            procs.append(dict(p=p, pf=pf, of=of, last=-1, at=time.time(), state="run"))
        fail = None
        deadline = time.time() + max(secs, exh) + 240
        while any(x["state"] == "run" for x in procs):
            time.sleep(0.2)
            for x in procs:
                if x["state"] != "run":
                    continue
                rc = x["p"].poll()
                if rc is not None:
                    x["state"] = "done" if rc == 0 else "crash"
                    continue
                cnt, _ = read_progress(x["pf"])
                if cnt != x["last"]:
                    x["last"], x["at"] = cnt, time.time()
                elif os.path.exists(x["of"] + ".raw"):
                    # shrinking a failure: bounded by 20 s of its own
                    if time.time() - x["at"] > 60:
                        x["p"].kill(); x["p"].wait(); x["state"] = "crash"
                elif time.time() - x["at"] > 30 or time.time() > deadline:
                    x["p"].kill(); x["p"].wait(); x["state"] = "hang"
            bad = [x for x in procs if x["state"] == "crash" or x["state"] == "hang" or
                   (x["state"] == "done" and os.path.exists(x["of"] + ".raw"))]
            if bad and fail is None:
                fail = True
                for x in procs:
                    if x["state"] == "run" and not os.path.exists(x["of"] + ".raw"):
                        x["p"].kill(); x["p"].wait(); x["state"] = "stopped"
        m = dict(evaluations=0, nontrivial=0, distinct=0, exhaustive_cases=0, exhausted=False, cover={}, samples=[])
        failure = None
        for i, x in enumerate(procs):
            d = None
            for f in (x["of"], x["of"] + ".raw"):
                try:
                    d = json.load(open(f))
                    break
                except Exception:
                    pass
            if d:
                for k in ("evaluations", "nontrivial", "distinct", "exhaustive_cases"):
                    m[k] += d[k]
                m["exhausted"] |= d["exhausted"]
                for k, v in d["cover"].items():
                    m["cover"][k] = m["cover"].get(k, 0) + v
                m["samples"] += d["samples"][:2]
                if "failure" in d and failure is None:
                    failure = dict(d["failure"])
            elif x["state"] in ("crash", "hang") and failure is None:
                _, case = read_progress(x["pf"])
                if case:
                    failure = dict(property=prop, message="the process %s in this case" %
                                   ("aborted (exit %s)" % x["p"].returncode if x["state"] == "crash" else "did not finish"), **case)
        if failure:
            rd = os.path.join(BUILD, "replay")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, "%s-%s.json" % (prop, tag))
            json.dump(failure, open(path, "w"), indent=1)
            confirmed, text = False, ""
            for _ in range(3):
                confirmed, text = replay_fails(binary, path)
                if confirmed:
                    break
            if not confirmed and "the process" in failure["message"]:
                # an end of the process that the same case does not repeat: killed from outside (memory, load)
                m["unrepeated"] = failure["message"]
                failure = None
            else:
                failure["replay"] = path
                failure["confirmed"] = confirmed
                failure["output"] = text[-4000:]
        return m, failure
    finally:
        for x in procs:
            if x["p"].poll() is None:
                x["p"].kill(); x["p"].wait()
        shutil.rmtree(wd, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("finding: property=%s " % prop):
                out.append(l.split(" ", 2)[2])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--setup", action="store_true")
    ap.add_argument("--no-proof", action="store_true")
    ap.add_argument("--no-harness", action="store_true")
    ap.add_argument("--secs", type=float)
    a = ap.parse_args()
    import prove
    if a.setup:
        ok = True
        for kind in KINDS:
            b, err = build_harness(kind)
            if b is None:
                print(err[-6000:])
                ok = False
        sys.exit(0 if prove.setup() and ok else 1)
    t0 = time.time()
    tier = a.tier if a.tier in TIERS else "quick"
    T = dict(TIERS[tier])
    if a.prop == "M01":
        T["secs"] = min(T["secs"], 150.0)  # the compiler keeps every token it was given: some 10 MB per second and process
    if a.secs:
        T.update(secs=a.secs, exh=a.secs)
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    prop = a.prop
    for f in os.listdir(os.path.join(BUILD, "replay")) if os.path.isdir(os.path.join(BUILD, "replay")) else []:
        if f.startswith(prop + "-"):
            os.unlink(os.path.join(BUILD, "replay", f))

    proof = dict(units=[])
    th = None
    if not a.no_proof:
        def go():
            try:
                proof.update(prove.run_property(prop, tier))
            except Exception as e:
                import traceback
                proof.update(error=traceback.format_exc())
        th = threading.Thread(target=go); th.start()
    binary, err = (None, "skipped") if a.no_harness else build_harness(KIND_OF.get(prop, "main"))
    stats, failure = None, None
    nsh = NPROC - 1 if th else NPROC
    if binary:
        stats, failure = run_shards(binary, prop, seed, T["secs"], T["exh"], nsh, "witness")
    if th:
        th.join()
    failed = [f for u in proof["units"] for f in u.get("failures", [])]
    undecided = [u for u in proof["units"] if u["status"] == "undecided"]
    searched = 0
    if failed and binary and not failure:
        # look for the failing input on the real code, from seeds the first run did not use
        s2, failure = run_shards(binary, prop, seed + 7919, T["search"], 0, NPROC, "witness")
        searched = s2["evaluations"]
    violations = 0
    line = None
    known = known_findings(prop)
    if failure and any(k and k in failure["message"] for k in known):
        print("KNOWN-FINDING: property=%s %s" % (prop, failure["message"]))
        failure = None
    elif failure:
        violations = 1
        if failed:
            d = json.load(open(failure["replay"])); d["failed_obligations"] = failed
            json.dump(d, open(failure["replay"], "w"), indent=1)
        print("failing case:", failure["message"])
        for t in failure.get("trace", [])[:60]:
            print("   ", t)
        line = "VIOLATION property=%s replay=%s" % (prop, failure["replay"])
    elif failed:
        violations = 1
        rd = os.path.join(BUILD, "replay"); os.makedirs(rd, exist_ok=True)
        path = os.path.join(rd, "%s-obligation.json" % prop)
        json.dump(dict(property=prop, failed_obligations=failed, witness_search_evaluations=searched), open(path, "w"), indent=1)
        for f in failed[:10]:
            print("failed obligation:", f["name"], "--", f["message"])
        line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)

    # ---- evidence
    ob = sum(u.get("obligations", 0) for u in proof["units"])
    dis = sum(u.get("discharged", 0) for u in proof["units"])
    level = "proof" if ob and prove.level(prop) == "proof" else ("other" if ob else "exploration")
    cov = {}
    if ob:
        cov.update(obligations=ob, discharged=dis,
                   checker_cmd="verus (one run per unit; see units[].cmd)",
                   trusted_base=prove.trusted(prop, proof["units"]),
                   units=proof["units"], solver_s=round(sum(u.get("solver_s", 0) for u in proof["units"]), 2))
    if proof.get("error"):
        cov["proof_error"] = proof["error"][-3000:]
    if stats:
        b = dict(evaluations=stats["evaluations"], distinct_nontrivial=stats["distinct"], nontrivial=stats["nontrivial"],
                 rule=prove.bounded_rule(prop), samples=stats["samples"][:6], cover=stats["cover"],
                 exhaustive_cases=stats["exhaustive_cases"], exhaustive_part_completed=stats["exhausted"],
                 seconds=T["secs"], shards=nsh, searched_after_failed_obligation=searched)
        if stats.get("unrepeated"):
            b["unrepeated"] = stats["unrepeated"]
        cov.update({k: b[k] for k in ("evaluations", "distinct_nontrivial", "rule", "samples")})
        cov["bounded_stand_in"] = b
    elif err:
        cov["bounded_stand_in"] = dict(not_run=err[-3000:])
    cov["explanation"] = prove.explanation(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=prove.assumptions(prop), wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(HERE, "evidence", prop + ".json"), "w"), indent=1)

    if proof.get("error"):
        print("proof stage error:", proof["error"][-2000:])
    for u in undecided:
        print("undecided: unit %s: %s" % (u["unit"], u.get("why", "")[:600]))
    if line:
        print(line)
        sys.exit(1)
    if stats is None and (undecided or not ob):
        print("no answer: the harness does not build and no proof stands\n" + (err or "")[-3000:])
        sys.exit(2)
    print("%s holds: %d of %d obligations discharged%s, %d bounded cases" %
          (prop, dis, ob, " (%d units undecided)" % len(undecided) if undecided else "", stats["evaluations"] if stats else 0))
    sys.exit(0)


if __name__ == "__main__":
    main()
