"""Runs the Verus units of a property on /repo's current source."""
import hashlib, json, os, re, subprocess, sys, threading, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
BUILD = os.path.join(ROOT, "build")
OUT = os.path.join(BUILD, "proof")
VX = os.path.join(BUILD, "vx", "debug", "vx")
sys.path.insert(0, HERE)
import units as U


def env(**kw):
    e = dict(os.environ)
    e.pop("RUSTUP_TOOLCHAIN", None)
    e.update(kw)
    return e


def vx_src():
    return [os.path.join(HERE, "vx", f) for f in ("Cargo.toml", "Cargo.lock", "src/main.rs", "src/lower.rs", "src/print.rs", "src/mac.rs", "src/guard.rs")]


def setup():
    if os.path.exists(VX) and all(os.path.getmtime(f) <= os.path.getmtime(VX) for f in vx_src()):
        return True
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "vx", "Cargo.toml")],
                       env=env(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=os.path.join(BUILD, "vx")),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
    if r.returncode != 0:
        print(r.stdout[-4000:])
        return False
    os.utime(VX)
    return expand_select() == "" and expand_derive() == ""


GEN = os.path.join(OUT, "gen")


LOCK, EXPANDED = threading.Lock(), {}


def expand_select():
    """What /repo's select! makes of the uses listed in selx, as functions. Says why not if it cannot."""
    src = os.path.join(os.environ.get("VX_REPO", "/repo"), "async_ui_web_macros/src/select.rs")
    os.makedirs(GEN, exist_ok=True)
    out = os.path.join(GEN, "select_expanded.rs")
    if os.path.exists(out):
        os.unlink(out)
    try:
        text = open(src).read()
    except OSError as e:
        return str(e)
    copy = os.path.join(GEN, "select-%s.rs" % hashlib.sha256(text.encode()).hexdigest()[:16])
    if not os.path.exists(copy):
        with open(copy, "w") as f:
            f.write(text)
    d = os.path.join(BUILD, "selx")
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(HERE, "selx", "Cargo.toml")],
                       env=env(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d, SELX_SRC=copy), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
    if r.returncode == 0:
        r = subprocess.run([os.path.join(d, "debug", "selx"), out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return "" if r.returncode == 0 and os.path.exists(out) else "select! as a program: " + r.stdout[-1200:]


def expand_derive():
    """What /repo's derive(Trackable) makes of the types listed in derx. Says why not if it cannot."""
    src = os.path.join(os.environ.get("VX_REPO", "/repo"), "x-bow-macros/src")
    crate = os.path.join(GEN, "derx")
    outs = [os.path.join(GEN, "derive_expanded.rs")] + [os.path.join(GEN, "derive_tuple_%d.rs" % n) for n in range(1, 13)] + [os.path.join(GEN, "derive_numbers.inc")]
    for o in outs:
        if os.path.exists(o):
            os.unlink(o)
    try:
        files = {os.path.join("src", n): open(os.path.join(src, n)).read() for n in os.listdir(src) if n.endswith(".rs")}
        own = {n: open(os.path.join(HERE, "derx", n)).read() for n in ("Cargo.toml", "Cargo.lock", "samples.rs", "main_tail.rs")}
        lib = files.pop(os.path.join("src", "lib.rs"))
    except (OSError, KeyError) as e:
        return str(e)
    lib = re.sub(r"(?m)^\s*(#!|//!).*$", "", re.sub(r"(?m)^#\[proc_macro_derive\(.*?\)\]\s*$", "", lib))
    files["src/main.rs"] = "#![allow(dead_code, unused)]\nextern crate proc_macro;\n" + lib + own.pop("main_tail.rs")
    files["src/samples.rs"] = own.pop("samples.rs")
    files["src/mac.rs"] = open(os.path.join(HERE, "vx", "src", "mac.rs")).read()
    files.update(own)
    for n, text in files.items():
        p = os.path.join(crate, n)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if not os.path.exists(p) or open(p).read() != text:
            with open(p, "w") as f:
                f.write(text)
    d = os.path.join(BUILD, "selx")
    r = subprocess.run(["cargo", "build", "--offline", "--manifest-path", os.path.join(crate, "Cargo.toml")],
                       env=env(CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=d), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd="/tmp")
    if r.returncode == 0:
        r = subprocess.run([os.path.join(d, "debug", "derx"), GEN, os.path.join(os.path.dirname(os.path.dirname(src)), "x-bow/src/impls/stdlib/tuple.rs")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    return "" if r.returncode == 0 and all(map(os.path.exists, outs)) else "derive(Trackable) as a program: " + r.stdout[-1200:]


REAL = re.compile(r"^(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied.*|"
                  r"possible arithmetic underflow/overflow|decreases not satisfied.*|loop ensures not satisfied.*|"
                  r"possible division by zero|possible bit shift underflow/overflow|.*not satisfied.*|"
                  r"recommendation not met|unable to prove.*|assertion failure.*|requires not satisfied|"
                  r"could not prove termination)$")
RLIM = re.compile(r"[Rr]esource limit|rlimit|timed? ?out")


def verus(path, extra, limit):
    cmd = ["verus", os.path.basename(path), "--output-json", "--time-expanded", "--triggers-mode", "silent",
           "--multiple-errors", "8", "--no-auto-recommends-check", "--no-report-long-running", "--error-format=json"] + extra
    t0 = time.time()
    try:
        r = subprocess.run(cmd, cwd=os.path.dirname(path), env=env(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit)
    except subprocess.TimeoutExpired:
        return dict(cmd=" ".join(cmd), timeout=True, wall=time.time() - t0)
    diags = []
    for l in r.stderr.splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get("level") == "error" or RLIM.search(d.get("message", "")):
            diags.append(d)
    try:
        j = json.loads(r.stdout)
    except ValueError:
        j = {}
    return dict(cmd=" ".join(cmd), rc=r.returncode, diags=diags, json=j, wall=time.time() - t0, stderr=r.stderr)


def functions(j):
    out = {}
    for m in j.get("times-ms", {}).get("smt", {}).get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []):
            n = f["function"].split("::", 1)[-1]
            o = out.setdefault(n, dict(ok=True, us=0))
            o["ok"] = o["ok"] and f.get("success", False)
            o["us"] += f.get("time-micros", 0)
    return out


TAG = re.compile(r"//\s*\[([A-Z]\d\d(?:\s*,\s*[A-Z]\d\d)*)\]")


def classify(res, src, items):
    """-> (real failures, undecided reasons)"""
    lines = src.splitlines()
    fails, und = [], []
    for d in res["diags"]:
        msg = d["message"]
        if d["level"] != "error" or msg.startswith("aborting due to"):
            if RLIM.search(msg):
                und.append(msg)
            continue
        if RLIM.search(msg):
            und.append(msg + where(d, items))
            continue
        if d.get("code") or not REAL.match(msg):
            und.append("not accepted by the verifier's front end: " + (d.get("rendered") or msg)[:500])
            continue
        tags = set()
        spans = d.get("spans", [])
        for s in spans:
            for k in range(s["line_start"], min(s["line_end"], s["line_start"] + 3) + 1):
                if k - 1 < len(lines):
                    m = TAG.search(lines[k - 1])
                    if m:
                        tags |= {x.strip() for x in m.group(1).split(",")}
        clause = " | ".join(" ".join(t["text"].strip() for t in s.get("text", [])[:3]) for s in spans if s.get("is_primary"))
        fails.append(dict(name=fn_at(d, items, lines), message="%s: %s" % (msg, clause[:300]), clause=clause[:300],
                          tags=sorted(tags), verifier_output=(d.get("rendered") or "")[:3000]))
    return fails, und


def where(d, items):
    return ""


def fn_at(d, items, lines):
    """the function whose body the failing span is in: an extracted one, or one written in the unit"""
    spans = d.get("spans", [])
    for s in spans:
        for i in items:
            if i["start"] <= s["line_start"] <= i["end"] and i["kind"] == "fn":
                return "%s (%s)" % (i["path"], i["file"])
    for s in sorted(spans, key=lambda s: not s.get("is_primary")):
        for k in range(min(s["line_start"], len(lines)) - 1, -1, -1):
            m = re.match(r"\s*(?:pub )?(?:proof |exec )?fn (\w+)", lines[k])
            if m:
                return "%s (proof over the contracts)" % m.group(1)
    return "?"


TRUST = re.compile(r"external_body|assume_specification|uninterp|\badmit\(|\bassume\(|external_type_specification|axiom fn")


def trust_scan(src, items):
    """what the verifier takes on trust in a unit; contracts of extracted functions proved in another unit are not in it"""
    out = []
    lines = src.splitlines()
    contract = [(i["start"], i["end"]) for i in items if i["kind"] == "contract"]
    for k, l in enumerate(lines, 1):
        if l.strip().startswith("//") or not TRUST.search(l):
            continue
        if any(a <= k <= b for a, b in contract):
            continue
        t = l.strip()
        if "external_body" in t and k < len(lines):
            for q in range(k, min(k + 3, len(lines))):
                if re.search(r"\b(fn|struct|enum)\b", lines[q]):
                    t = lines[q].strip()
                    break
        out.append(t[:160])
    return sorted(set(out))


def gen(unit, probe=False):
    os.makedirs(OUT, exist_ok=True)
    d = os.path.join(OUT, unit + ("-probe" if probe else ""))
    rs, js = d + ".rs", d + ".json"
    for f in (rs, js):
        if os.path.exists(f):
            os.unlink(f)
    e = env(VX_PROBE="1") if probe else env()
    e.setdefault("VX_REPO", "/repo")
    e["VX_GEN"] = GEN
    expand = {"select": expand_select, "derive": expand_derive}.get(U.UNITS.get(unit, {}).get("expand"))
    if expand:
        with LOCK:
            if expand not in EXPANDED:
                EXPANDED[expand] = expand()
            why = EXPANDED[expand]
        if why:
            return None, None, None, why
    r = subprocess.run([VX, os.path.join(HERE, "units", unit + ".rs"), rs, js], env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0 or not os.path.exists(js):
        return None, None, None, r.stdout[-1500:]
    return rs, open(rs).read(), json.load(open(js)), ""


def run_unit(unit, tier):
    t0 = time.time()
    rs, src, items, err = gen(unit)
    base = dict(unit=unit, obligations=0, discharged=0, failures=[], backend="Verus (Z3)", solver_s=0.0)
    if rs is None:
        return dict(base, status="undecided", why="extraction: " + err)
    fns = [i for i in items if i["kind"] == "fn"]
    base.update(functions=["%s (%s)" % (i["path"], i["file"]) for i in fns],
                contracts_from_other_units=["%s (%s)" % (i["path"], i["file"]) for i in items if i["kind"] == "contract"],
                extraction_rewrites=sorted({l for i in items for l in i["lowerings"]}),
                trusted=trust_scan(src, items))
    lost = [(i["path"], x) for i in items for x in i["lost"]]
    limit = 240 if tier == "quick" else 700
    opts = U.UNITS.get(unit, {})
    rl = opts.get("rlimit", 30)
    res = verus(rs, ["--rlimit", str(rl)], limit)
    base["cmd"] = "vx units/%s.rs; %s" % (unit, res["cmd"])
    if res.get("timeout"):
        return dict(base, status="undecided", why="no answer within %d s" % limit)
    fails, und = classify(res, src, items)
    if (fails or und) and not any("front end" in u for u in und) and not lost:
        # a proof that fails is tried again with other solver settings before it counts as failed
        res2 = verus(rs, ["--rlimit", str(rl * 4), "-V", "spinoff-all", "--smt-option", "smt.random_seed=7"], limit)
        if not res2.get("timeout"):
            f2, u2 = classify(res2, src, items)
            if not f2 and not u2:
                res, fails, und = res2, f2, u2
            else:
                keys = {(f["name"], f["clause"]) for f in f2}
                names = {f["name"] for f in f2}
                # failed both times, under either setting
                fails = [f for f in fails if (f["name"], f["clause"]) in keys] or [f for f in fails if f["name"] in names]
                if not fails and f2 and und:
                    fails = f2
                und = u2 if u2 else ([] if fails else ["unstable: " + f["name"] for f in f2])
    fs = functions(res["json"])
    vr = res["json"].get("verification-results", {})
    base["obligations"] = vr.get("verified", 0) + vr.get("errors", 0)
    base["discharged"] = vr.get("verified", 0)
    base["solver_s"] = round(sum(f["us"] for f in fs.values()) / 1e6, 2)
    base["wall_s"] = round(time.time() - t0, 2)
    base["slowest"] = [(n, round(f["us"] / 1e6, 2)) for n, f in sorted(fs.items(), key=lambda x: -x[1]["us"])[:3]]
    if lost:
        return dict(base, status="undecided", why="the code no longer has the shape the ghost annotations attach to: %s" % lost)
    if any("front end" in u for u in und):
        return dict(base, status="undecided", why=und[0])
    if fails:
        return dict(base, status="failed", failures=fails, why="; ".join(und)[:500])
    if und:
        return dict(base, status="undecided", why="; ".join(und)[:800])
    if not res["json"] or not vr.get("success") or base["discharged"] == 0:
        return dict(base, status="undecided", why="the verifier gave no result: " + res.get("stderr", "")[-600:])
    if tier == "thorough":
        base["vacuity"] = probe(unit, limit)
    return dict(base, status="verified")


def probe(unit, limit):
    """assert(false) at the end of every extracted body must fail everywhere: no precondition or trusted contract is contradictory"""
    rs, src, items, err = gen(unit, True)
    if rs is None:
        return dict(error=err)
    res = verus(rs, ["--rlimit", "10"], limit)
    if res.get("timeout"):
        return dict(error="timeout")
    hit = set()
    for d in res["diags"]:
        for s in d.get("spans", []):
            for i in items:
                if i["start"] <= s["line_start"] <= i["end"]:
                    hit.add((i["path"], i["start"]))
    want = [(i["path"], i["start"]) for i in items if i["kind"] == "fn"]
    return dict(probed=len(want), reachable=sum(w in hit for w in want), vacuous=[w[0] for w in want if w not in hit])


def run_property(prop, tier):
    names = U.PROPS[prop]["units"]
    if not names:
        return dict(units=[])
    if not setup():
        return dict(units=[dict(unit=n, status="undecided", why="the extractor does not build", obligations=0, discharged=0, failures=[]) for n in names])
    with ThreadPoolExecutor(4) as ex:
        us = list(ex.map(lambda n: run_unit(n.rstrip("!"), tier), names))
    for u, n in zip(us, names):
        # "unit!": a unit written for other properties; only what is marked for this one can break it
        mine = [f for f in u["failures"] if prop in f["tags"] or not f["tags"] and not n.endswith("!")]
        if n.endswith("!") and not mine and any(not f["tags"] for f in u["failures"]):
            u["note"] = "obligations of other properties fail here: " + "; ".join(f["name"] for f in u["failures"])
            u["status"] = "undecided"
            u["why"] = u.get("why") or u["note"]
        elif u["failures"] and not mine:
            u["note"] = "obligations of other properties fail here: " + "; ".join(f["name"] for f in u["failures"])
            u["status"] = "verified" if not u.get("why") else "undecided"
        u["failures"] = mine
    return dict(units=us)


def level(prop):
    return U.PROPS[prop]["level"]


def trusted(prop, units):
    return sorted({t for u in units for t in u.get("trusted", [])})


def bounded_rule(prop):
    return "a case counts when the random or enumerated history it runs makes the property's observed quantity change at least once"


def explanation(prop):
    return U.PROPS[prop]["note"]


def assumptions(prop):
    return U.COMMON + U.PROPS[prop].get("assume", [])


if __name__ == "__main__":
    setup()
    for u in sys.argv[2:] or sorted(f[:-3] for f in os.listdir(os.path.join(HERE, "units")) if f.endswith(".rs")):
        r = run_unit(u, sys.argv[1] if len(sys.argv) > 1 else "quick")
        print(u, r["status"], "%d/%d" % (r["discharged"], r["obligations"]), r.get("wall_s"), r.get("why", "")[:1500], r.get("vacuity", ""))
        for f in r["failures"]:
            print("   ", f["name"], f["message"], f["tags"])
