#!/usr/bin/env python3
"""check runner:  tools/vf.py check <property> [--thorough] | tools/vf.py setup

Deciding layer: the deductive layer (tools/deduce.py) extracts the functions the property depends on from
/repo's current source, adds the contracts of /verif/contracts and has Verus discharge every obligation.
Replay layer: the executable form of the same contracts (native/) runs against the real crates; it supplies
the failing input for a broken property, and stands in, labelled bounded, where the extraction cannot follow
the current source."""
import contextlib, json, os, re, shutil, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import shadow

VERIF = shadow.VERIF
REPO = shadow.REPO
BUILD = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
HOST = {"C24", "C25", "C26", "C27", "C28", "C30"}  # built from the part of the host crate that builds offline
MP = {"C01", "C02", "C03", "C04", "C05"}

def env():
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.88", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{BUILD}/target", CARGO_TERM_COLOR="never",
             RUSTC_WRAPPER="", RUSTFLAGS="--cfg signal_verif", CARGO_INCREMENTAL="0", HOME="/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("CARGO_PROFILE_DEV_DEBUG",): e.pop(k, None)
    return e

def build_native(prop):
    """Returns (path, note) or (None, reason)."""
    host = prop in HOST
    ws = shadow.generate(f"{BUILD}/wsh" if host else f"{BUILD}/ws", host=host)
    log = ""
    if host: variants = [(["--features", "host"], "host")]
    elif prop in MP: variants = [(["--no-default-features"], "multiproof crate only")]
    else: variants = [(["--features", "hooks"], "hooks"), ([], "no hooks")]
    for flags, note in variants:
        e = env()
        if "hooks" not in flags and not host: e["RUSTFLAGS"] = ""
        try:
            r = subprocess.run(["cargo", "build", "--offline", "-p", "native"] + flags, cwd=ws, env=e, capture_output=True, text=True, timeout=500)
        except subprocess.TimeoutExpired:
            log += "\nbuild timed out"
            continue
        if r.returncode == 0:
            return f"{BUILD}/target/debug/native", note
        log += r.stderr[-3000:]
    return None, log

def run_native(binary, prop, seed, ms, jobs=8, start=0):
    """Explore on several cores. Returns dict(status=quiet|fail|error, ...)."""
    if prop == "C30":
        with contained(binary) as (b, kw): return run_processes(b, prop, seed, ms, jobs, start, kw)
    return run_processes(binary, prop, seed, ms, jobs, start, {})

@contextlib.contextmanager
def contained(binary):
    """The store deletes files: an unprivileged user with a directory of its own."""
    d = tempfile.mkdtemp(prefix="signal-store-")
    try:
        shutil.copy(binary, f"{d}/native"); os.chmod(f"{d}/native", 0o755)
        os.mkdir(f"{d}/s")
        kw = dict(env={"PATH": "/usr/bin:/bin", "VERIF_SCRATCH": f"{d}/s"}, cwd=f"{d}/s")
        if os.getuid() == 0:
            os.chown(d, 65534, 65534); os.chown(f"{d}/s", 65534, 65534)
            kw.update(user=65534, group=65534, extra_groups=[])
        yield f"{d}/native", kw
    finally:
        shutil.rmtree(d, ignore_errors=True)

def run_processes(binary, prop, seed, ms, jobs, start, kw):
    ps = [subprocess.Popen([binary, prop, "--seed", str(seed), "--ms", str(ms), "--from", str(start + i), "--step", str(jobs)],
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw) for i in range(jobs)]
    out = {"status": "quiet", "evaluations": 0, "nontrivial": 0, "tags": {}, "errors": [], "next": start}
    fails = []
    for i, p in enumerate(ps):
        try:
            so, se = p.communicate(timeout=ms / 1000 + 90)
        except subprocess.TimeoutExpired:
            p.kill(); so, se = p.communicate()
            out["errors"].append(f"process {i} did not end")
            continue
        line = so.strip().splitlines()[-1] if so.strip() else ""
        if p.returncode == 0 and line.startswith("{"):
            j = json.loads(line)
            out["evaluations"] += j["evaluations"]; out["nontrivial"] += j["nontrivial"]
            out["next"] = max(out["next"], j["next"])
            for k, v in j["tags"].items(): out["tags"][k] = out["tags"].get(k, 0) + v
        elif p.returncode == 1 and line.startswith("FAIL"):
            m = re.match(r"FAIL seed=(\d+) case=(\d+) (.*)", line, re.S)
            fails.append((int(m.group(2)), m.group(3)))
        else:
            out["errors"].append(f"process {i} ended with {p.returncode}: {se[-400:]}")
    if fails:
        fails.sort()
        out.update(status="fail", case=fails[0][0], message=fails[0][1], failing=len(fails))
    elif len(out["errors"]) == jobs or (out["errors"] and out["evaluations"] == 0):
        out["status"] = "error"
    return out

def findings():
    """known_findings.txt: lines `finding: property=<id> match=<regex> <what fails>` and `fixed: ...`."""
    res = []
    p = f"{VERIF}/known_findings.txt"
    for l in open(p) if os.path.exists(p) else []:
        m = re.match(r"finding: property=(\S+) match=/(.*)/ (.*)", l.strip())
        if m: res.append(m.groups())
    return res

def check(prop, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    thorough = tier == "thorough"
    os.makedirs(f"{VERIF}/evidence", exist_ok=True)
    os.makedirs(f"{BUILD}/replay", exist_ok=True)
    import deduce
    ded = deduce.run(prop, BUILD, thorough)
    binary, note = build_native(prop)
    ms = int(os.environ.get("VERIF_MS", 240_000 if thorough else 15_000))  # VERIF_MS: for the developer tools
    nat = run_native(binary, prop, seed, ms) if binary else {"status": "error", "evaluations": 0, "nontrivial": 0, "tags": {}, "errors": [f"build failed: {note}"], "next": 0}
    violation = None
    known = [f for f in findings() if f[0] == prop]
    if ded["status"] == "failed" and nat["status"] == "quiet" and not thorough:
        # an obligation failed: look harder for a concrete input before reporting
        more = run_native(binary, prop, seed, 6 * ms, start=nat["next"])
        for k in ("evaluations", "nontrivial"): more[k] += nat[k]
        nat = more if more["status"] != "error" else nat
    printed = []
    if nat["status"] == "fail":
        hit = next((f for f in known if re.search(f[1], nat["message"])), None)
        if hit:
            printed.append(f"KNOWN-FINDING: property={prop} {hit[2]}")
        else:
            violation = dict(kind="input", text=nat["message"], case=nat["case"], seed=seed)
    if violation is None and ded["status"] == "failed":
        violation = dict(kind="obligation", text="; ".join(ded["failed"]))
    level = "proof" if ded["status"] == "accepted" or ded["status"] == "failed" else "exploration"
    cov = {
        "evaluations": nat["evaluations"], "distinct_nontrivial": nat["nontrivial"],
        "rule": "executable contract against the real crates; case k of seed s is generated from sha256(s, property, k); non-trivial cases are those with a non-empty tag; tags count what was exercised",
        "samples": [{"case": k, "count": v} for k, v in sorted(nat["tags"].items())] or [{"case": "none", "count": 0}],
        "native_status": nat["status"], "native_build": note if binary else "failed", "native_errors": nat["errors"][:3],
        "deductive_status": ded["status"],
    }
    cov.update(ded["coverage"])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": ded["assumptions"], "violations": 1 if violation else 0, "wall_s": round(time.time() - t0, 2)}
    ed = os.environ.get("VERIF_EVIDENCE", f"{VERIF}/evidence")
    os.makedirs(ed, exist_ok=True)
    with open(f"{ed}/{prop}.json", "w") as f: json.dump(ev, f, indent=1)
    for l in printed: print(l)
    for u in ded.get("undecided", []): print(f"note: {u}")
    if violation:
        path = f"{BUILD}/replay/{prop}.json"
        if violation["kind"] == "input":
            violation["replay"] = f"cd {VERIF} && python3 tools/vf.py replay {prop} {seed} {violation['case']}"
        violation["failed_obligations"] = ded["failed"]; violation["verifier_output"] = ded.get("log", "")
        with open(path, "w") as f: json.dump(violation, f, indent=1)
        print(violation["text"][:1500])
        print(f"VIOLATION property={prop} replay={path}" + (" no-failing-input-found" if violation["kind"] == "obligation" else ""))
        return 1
    if ded["status"] != "accepted" and nat["status"] not in ("quiet", "fail"):
        print(f"error: neither layer could run: {nat['errors'][:2]}")
        return 2
    print(f"{prop}: deductive {ded['status']} ({ded['coverage'].get('discharged', 0)}/{ded['coverage'].get('obligations', 0)} obligations), native {nat['status']} ({nat['evaluations']} cases), {time.time()-t0:.0f} s")
    return 0

def main():
    a = sys.argv[1:]
    if a[0] == "check":
        tier = "thorough" if "--thorough" in a or os.environ.get("VERIF_TIER") == "thorough" else "quick"
        sys.exit(check(a[1], tier))
    if a[0] == "setup":
        import deduce
        for p in ("C24", "C06"):
            b, note = build_native(p)
            print("native:", note if b else note[-2000:])
        print("deductive:", deduce.setup(BUILD))
        sys.exit(0)
    if a[0] == "replay":
        b, note = build_native(a[1])
        args = [a[1], "--seed", a[2], "--case", a[3]]
        if a[1] == "C30":
            with contained(b) as (c, kw): sys.exit(subprocess.run([c, *args], **kw).returncode)
        sys.exit(subprocess.run([b, *args]).returncode)

if __name__ == "__main__": main()
