"""Deductive layer: contracts/<unit>.rs is a Verus file with directives; every function and type under
contract is spliced in from /repo's current source by vx (see vx/src/main.rs for the rewriting rules), and
Verus must discharge every obligation of the result.

Directives (each at the start of a line):
  //@config {json}                     tables for vx (paths, methods, macros, ghost_methods) and the unit
  //@item FILE | KIND | PATH | derives   a type, constant or alias, spliced in
  //@fn FILE | PATH | {json}             a function; sections follow until //@end:
  //@ret NAME   //@reject EXPR [k]   //@requires   //@ensures   //@decreases   //@loop k   //@loop-begin k ...
  //@props C01: f; g                   the functions a property is decided by
  //@include NAME                      splices contracts/_NAME.rs
  //@use NAME                          the same, but every function in it is emitted with its contract only, without its
                                       body: it is proved in the unit that includes NAME
"""
import hashlib, json, os, re, subprocess, time
import shadow

VERIF = shadow.VERIF
REPO = shadow.REPO
CONTRACTS = f"{VERIF}/contracts"
BASELINE = f"{CONTRACTS}/baseline.json"

def units():
    return sorted(f[:-3] for f in os.listdir(CONTRACTS) if f.endswith(".rs") and not f.startswith("_"))

def props_of(unit):
    """property -> list of function names (as in the template) it is decided by; from //@props lines"""
    out = {}
    for l in open(f"{CONTRACTS}/{unit}.rs"):
        m = re.match(r"//@props (\S+): (.*)", l)
        if m: out.setdefault(m.group(1), []).extend(x.strip() for x in m.group(2).split(";") if x.strip())
    return out

def vx_binary(build):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN="1.88", CARGO_NET_OFFLINE="true", CARGO_TARGET_DIR=f"{build}/target-vx", RUSTFLAGS="", RUSTC_WRAPPER="", CARGO_INCREMENTAL="0", HOME="/root")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    r = subprocess.run(["cargo", "build", "--offline", "--locked"], cwd=f"{VERIF}/vx", env=e, capture_output=True, text=True, timeout=400)
    if r.returncode != 0: raise RuntimeError("vx does not build: " + r.stderr[-1500:])
    return f"{build}/target-vx/debug/vx"

def include(text):
    """//@include NAME -> contracts/_NAME.rs (shared models and lemmas)"""
    def sub(m): return open(f"{CONTRACTS}/_{m.group(1)}.rs").read()
    for _ in range(4): text = re.sub(r"^//@include (\w+)[ \t]*$", sub, text, flags=re.M)
    def use(m): return f"//@assume {m.group(1)}\n" + open(f"{CONTRACTS}/_{m.group(1)}.rs").read() + "//@assume\n"
    return re.sub(r"^//@use (\w+)[ \t]*$", use, text, flags=re.M)

def parse(unit):
    """Split a template into chunks: text, item dicts, function dicts."""
    cfg, chunks, cur, text, sec, assumed = {}, [], None, [], None, ""
    def flush():
        if text: chunks.append(("text", "".join(text))); text.clear()
    for line in include(open(f"{CONTRACTS}/{unit}.rs").read()).splitlines(keepends=True):
        m = re.match(r"//@(\S+)\s*(.*)$", line.rstrip("\n"))
        if cur is None:
            if not m: text.append(line); continue
            d, rest = m.groups()
            if d == "config": cfg.update({k: ({**cfg.get(k, {}), **v} if isinstance(v, dict) else v) for k, v in json.loads(rest).items()})
            elif d == "item":
                p = [x.strip() for x in rest.split("|")] + ["", ""]
                flush(); chunks.append(("item", dict(file=p[0], kind=p[1], path=p[2], derive=p[3])))
            elif d == "fn":
                flush()
                p = [x.strip() for x in rest.split("|", 2)]
                cur = dict(file=p[0], kind="fn", path=p[1], sections={}, opts=json.loads(p[2]) if len(p) > 2 else {}, assumed=assumed)
                sec = None
            elif d == "props": pass
            elif d == "assume": assumed = rest
            else: raise RuntimeError(f"{unit}: unknown directive {d}")
        else:
            if m:
                d, rest = m.groups()
                if d == "end": chunks.append(("fn", cur)); cur = None
                elif d == "ret": cur["opts"]["ret"] = rest
                elif d == "reject":
                    k = re.match(r"(\d+): (.*)", rest)
                    if k: cur["sections"][f"reject {k.group(1)}"] = k.group(2)
                    else: cur["opts"]["reject"] = rest
                else:
                    sec = (d + " " + rest).strip(); cur["sections"][sec] = ""
            elif sec: cur["sections"][sec] += line
    flush()
    return cfg, chunks

def rename(text, table):
    if not table: return text
    return re.sub(r"(?<![\w.$])(" + "|".join(map(re.escape, table)) + r")\b(?!\s*::)", lambda m: table[m.group(1)], text)

def request(unit, cfg, chunks, base, renames, build):
    items = []
    for i, (kind, c) in enumerate(chunks):
        if kind == "text": continue
        it = {"cfg_on": ['#[cfg(feature="builder")]'], **cfg}
        it.update(id=str(i), file=c["file"], kind=c["kind"], path=c["path"], assume=bool(c.get("assumed")))
        if kind == "fn":
            for k, v in c["opts"].items():
                it[k] = {**it.get(k, {}), **v} if isinstance(v, dict) else v
            secs = {k: rename(v, renames.get(i)) for k, v in c["sections"].items()}
            spec = ""
            for k in ("requires", "ensures", "decreases"):
                if k in secs: spec += f"    {k}\n{secs[k]}"
            secs["spec"] = spec
            it["sections"] = secs
            if "reject" in it: it["reject"] = rename(it["reject"], renames.get(i))
        items.append(it)
    if "expanded" in cfg:
        rel = os.path.relpath(f"{build}/expanded", REPO)
        for it in items: it["file"] = it["file"].replace("@expanded", rel)
    return {"root": REPO, "items": items, "list": sorted({c["file"] for k, c in chunks if k != "text" and "@" not in c["file"]})}

def vx(binary, req):
    r = subprocess.run([binary], input=json.dumps(req), capture_output=True, text=True, timeout=60)
    if r.returncode != 0: raise RuntimeError("vx failed: " + r.stderr[-500:])
    return json.loads(r.stdout)

def key(unit, c): return f"{unit}:{c['file']}:{c['kind']}:{c['path']}"

def derived(cfg, build):
    """fields of the types with derived code, in the order of their declaration"""
    if "expanded" in cfg:
        import expand, vf
        return {t: o for n in cfg["expanded"] for t, o in expand.expand(build, vf.env(), n).items()}

def ordered(text, orders):
    """the lines between the marks, in the order of the fields of the type they name"""
    def sub(m):
        order = orders.get(m.group(1), [])
        ls = [l for l in m.group(2).splitlines() if l.strip()]
        names = [re.search(r"/\*(\w+)\*/", l).group(1) for l in ls]
        if sorted(names) != sorted(order): return m.group(0)
        return "/*order*/\n" + "\n".join(ls[names.index(n)] for n in order) + "\n    /*order*/"
    return re.sub(r"/\*order (\w+)\*/(.*?)/\*order\*/", sub, text, flags=re.S) if orders else text

def assemble(unit, build, binary, base):
    """Returns dict(text, regions, functions, notes, error)."""
    cfg, chunks = parse(unit)
    order = derived(cfg, build)
    chunks = [(k, ordered(c, order)) if k == "text" else (k, c) for k, c in chunks]
    out = vx(binary, request(unit, cfg, chunks, base, {}, build))
    # locals renamed in the source: carry the renaming into the ghost text
    renames = {}
    for i, (kind, c) in enumerate(chunks):
        if kind != "fn" or c["assumed"]: continue
        r, b = out["items"][str(i)], base.get(key(unit, c))
        if b and "locals" in r and r["locals"] != b["locals"] and len(r["locals"]) == len(b["locals"]):
            t = {}
            ok = all(t.setdefault(o, n) == n for o, n in zip(b["locals"], r["locals"]))
            if ok: renames[i] = {o: n for o, n in t.items() if o != n}
    if renames: out = vx(binary, request(unit, cfg, chunks, base, renames, build))
    text, regions, fns, notes, errors, proved_elsewhere = "", [], [], [], [], []
    for i, (kind, c) in enumerate(chunks):
        if kind == "text":
            text += c; continue
        r = out["items"][str(i)]
        if "error" in r:
            errors.append(r["error"]); continue
        b = base.get(key(unit, c))
        if kind == "item":
            if c["kind"] == "static" or c["kind"] == "macro":
                text += r["text"]
            else:
                d = c["derive"]
                text += (f"#[derive({d})]\n" if d else "") + r["text"] + "\n"
        else:
            if c["assumed"]:
                text += "#[verifier::external_body]\n" + r["text"] + "\n"
                proved_elsewhere.append(f"{c['path']} ({c['file']})")
                continue
            start = text.count("\n") + 1
            attr = c["opts"].get("attr", "")
            text += attr + r["text"] + "\n"
            changed = b is not None and b["tokens"] != hashlib.sha256(r["tokens"].encode()).hexdigest()
            skeleton = [r["loops"], r["closures"]]
            lost = b is not None and b["skeleton"] != skeleton
            # locals renamed together with other edits: what the ghost text now speaks about is a guess
            back = {n: o for o, n in renames.get(i, {}).items()}
            rebound = bool(back) and b["tokens"] != hashlib.sha256(re.sub(r"\w+", lambda m: back.get(m.group(0), m.group(0)), r["tokens"]).encode()).hexdigest()
            regions.append((start, text.count("\n") + 1, len(fns)))
            fns.append(dict(name=c["path"], file=c["file"], line=r["line"], changed=changed, lost=lost, edits=r["edits"], aborts=r["aborts"],
                            clauses=sum(count_clauses(v) for k, v in c["sections"].items() if k.split()[0] in ("requires", "ensures", "loop")), renamed=renames.get(i, {})))
            if rebound and not lost:
                fns[-1]["lost"] = True
                notes.append(f"{c['path']}: locals renamed together with other edits: the invariants may speak about other values")
            elif lost: notes.append(f"{c['path']}: loop or closure structure differs from the one the proof was written for")
    # macros whose expansion is built into vx
    return dict(text=text, regions=regions, fns=fns, notes=notes, errors=errors, out=out, chunks=chunks, proved_elsewhere=proved_elsewhere)

def count_clauses(t):
    t = re.sub(r"//.*", "", t)
    depth = n = 0
    last = ""
    for ch in t:
        if ch in "([{": depth += 1
        elif ch in ")]}": depth -= 1
        elif ch == "," and depth == 0: n += 1
        if not ch.isspace(): last = ch
    return n + (1 if last not in (",", "") else 0)

def verus(path, extra=(), timeout=600, multi="8"):
    t0 = time.time()
    cmd = ["verus", path, "--edition=2024", "--output-json", "--time-expanded", "--triggers-mode", "silent", "--error-format=json", "--num-threads", "8", "--multiple-errors", multi, *extra]
    try:
        r = subprocess.run(cmd, capture_output=True, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(ok=False, fatal="verus timed out", errors=[], verified=0, failed=0, functions=[], cmd=" ".join(cmd), wall=time.time() - t0)
    errs, fatal = [], None
    for l in r.stderr.splitlines():
        try: j = json.loads(l)
        except ValueError: continue
        if j.get("level") != "error" or j["message"].startswith("aborting"): continue
        errs.append(dict(message=j["message"], code=(j.get("code") or {}).get("code"), spans=[(s["line_start"], s["line_end"], s["label"], s["is_primary"], (s["text"][0]["text"].strip() if s["text"] else "")) for s in j["spans"]], rendered=j.get("rendered", "")))
    try: j = json.loads(r.stdout)
    except ValueError: return dict(ok=False, fatal="no result: " + r.stderr[-800:], errors=errs, verified=0, failed=0, functions=[], cmd=" ".join(cmd), wall=time.time() - t0)
    v = j["verification-results"]
    funcs = []
    smt = j.get("times-ms", {}).get("smt", {})
    for m in smt.get("smt-run-module-times", []):
        for f in m.get("function-breakdown", []): funcs.append(dict(name=f["function"], mode=f.get("mode:"), ms=f["time-micros"] / 1000, success=f["success"]))
    if v.get("encountered-vir-error") or (v.get("encountered-error") and not v.get("errors")):
        fatal = "; ".join(e["message"] for e in errs[:4]) or "error"
    return dict(ok=v.get("success", False), fatal=fatal, errors=errs, verified=v.get("verified", 0), failed=v.get("errors", 0), functions=funcs, smt_ms=smt.get("smt-run", 0), cmd=" ".join(cmd), wall=time.time() - t0)

TRUSTED = [r"external_body", r"\bassume\s*\(", r"\badmit\s*\(", r"assume_specification", r"external_fn_specification", r"external_type_specification", r"\baxiom\b", r"uninterp spec fn"]
def trusted_scan(text):
    """names of everything assumed in an assembled unit"""
    res = []
    lines = text.splitlines()
    for i, l in enumerate(lines):
        if l.lstrip().startswith("//"): continue
        for t in TRUSTED[:6]:
            if re.search(t, l):
                ctx = " ".join(lines[i:i + 3])
                m = re.search(r"(?:fn|struct|enum)\s+(\w+)", ctx)
                res.append(f"{t.strip(chr(92)+'b(s*')}: {m.group(1) if m else l.strip()[:80]}")
                break
        else:
            m = re.search(r"uninterp spec fn (\w+)", l)
            if m: res.append(f"uninterpreted: {m.group(1)}")
    return sorted(set(res))

CACHE = {}
def run_unit(unit, build, thorough=False):
    if unit in CACHE: return CACHE[unit]
    os.makedirs(f"{build}/verus", exist_ok=True)
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    res = dict(unit=unit, status="undecided", notes=[], failed=[], fns=[], log="")
    try:
        a = assemble(unit, build, vx_binary(build), base)
    except Exception as e:
        res["notes"].append(f"{unit}: {e}")
        CACHE[unit] = res
        return res
    res["fns"] = a["fns"]; res["notes"] += a["notes"]
    elsewhere = {re.sub(r"^.*[: ]", "", x.split(" (")[0]) for x in a["proved_elsewhere"]}
    res["trusted"] = [t for t in trusted_scan(a["text"]) if t.split(": ")[-1] not in elsewhere]
    res["proved_elsewhere"] = a["proved_elsewhere"]
    if a["errors"]:
        res["notes"] += [f"{unit}: {e}" for e in a["errors"]]
        CACHE[unit] = res
        return res
    path = f"{build}/verus/{unit}.rs"
    with open(path, "w") as f: f.write(a["text"])
    v = verus(path, ["--rlimit", "60" if thorough else "30"])
    res.update(verus=v, path=path)
    res["log"] = "\n".join(e["rendered"] for e in v["errors"])[:20000]
    if v["fatal"]:
        res["notes"].append(f"{unit}: not accepted as input by the verifier: {v['fatal'][:600]}")
        CACHE[unit] = res
        return res
    if v["ok"]:
        if v["verified"] == 0: res["notes"].append(f"{unit}: no obligations")
        else: res["status"] = "accepted"
    else:
        res["status"] = "failed"
        src = a["text"].splitlines()
        for e in v["errors"]:
            m = e["message"]
            kind = "resource" if "rlimit" in m.lower() or "resource limit" in m.lower() else "obligation"
            if e["code"]: kind = "compile"
            where = None
            lines = [s for s in e["spans"] if s[3]] + [s for s in e["spans"] if not s[3]]
            for s in lines:
                for lo, hi, k in a["regions"]:
                    if lo <= s[0] < hi: where = k; break
                if where is not None: break
            fn = a["fns"][where] if where is not None else None
            snip = next((s[4] for s in lines), "")
            # a clause tagged //[C16 C18] concerns those properties only
            tags = set()
            for s in e["spans"]:
                for l in src[s[0] - 1 : s[1]]:
                    t = re.search(r"//\[((?:C\d+ ?)+)\]\s*$", l)
                    if t: tags |= set(t.group(1).split())
            res["failed"].append(dict(tags=sorted(tags), kind=kind, message=m, fn=fn["name"] if fn else None, lost=bool(fn and fn["lost"]), changed=bool(fn and fn["changed"]), clause=snip, line=lines[0][0] if lines else 0))
    CACHE[unit] = res
    return res

def probe(unit, build, binary=None):
    """Must-fail twins: every function under contract is copied with `ensures false`; each copy must be refused."""
    binary = binary or vx_binary(build)
    base = json.load(open(BASELINE)) if os.path.exists(BASELINE) else {}
    cfg, chunks = parse(unit)
    order = derived(cfg, build)
    chunks = [(k, ordered(c, order)) if k == "text" else (k, c) for k, c in chunks]
    twins, skipped = [], []
    new = []
    for kind, c in chunks:
        new.append((kind, c))
        if kind == "fn" and not c["assumed"]:
            if c["opts"].get("noprobe") or " for " in c["path"]: skipped.append(c["path"]); continue
            t = json.loads(json.dumps(c))
            t["twin"] = True
            t["sections"]["ensures"] = "false,\n"
            new.append((kind, t))
    out = vx(binary, request(unit, cfg, new, base, {}, build))
    text = ""
    for i, (kind, c) in enumerate(new):
        if kind == "text": text += c; continue
        r = out["items"][str(i)]
        if "error" in r: return None, [r["error"]], []
        if kind == "item":
            d = c["derive"]
            text += r["text"] if c["kind"] in ("static", "macro") else (f"#[derive({d})]\n" if d else "") + r["text"] + "\n"
        else:
            t = ("#[verifier::external_body]\n" if c["assumed"] else c["opts"].get("attr", "")) + r["text"] + "\n"
            if c.get("twin"):
                name = c["opts"].get("rename") or c["path"].split("::")[-1].split()[-1]
                if c["path"].startswith("static "): name = name.lower()
                t = re.sub(r"\bfn " + name + r"\b", f"fn vfprobe_{name}", t, count=1)
                twins.append(f"vfprobe_{name}")
            text += t
    path = f"{build}/verus/{unit}_probe.rs"
    os.makedirs(f"{build}/verus", exist_ok=True)
    with open(path, "w") as f: f.write(text)
    v = verus(path, ["--rlimit", "20"], multi="0")
    if v["fatal"]: return None, [v["fatal"]], skipped
    ok = {f["name"].split("::")[-1] for f in v["functions"] if f["success"]}
    bad = [f["name"] for f in v["functions"] if f["name"].split("::")[-1].startswith("vfprobe_") and f["success"]]
    refused = {f["name"] for f in v["functions"] if "vfprobe_" in f["name"] and not f["success"]}
    return len(refused), bad, skipped

def run(prop, build, thorough):
    us = [u for u in units() if prop in props_of(u)]
    if not us:
        return {"status": "undecided", "failed": [], "undecided": ["no contracts for this property"], "coverage": {}, "assumptions": []}
    failed, undecided, log, cov = [], [], "", dict(functions=[], obligations=0, discharged=0, checker_cmd="", trusted_base=[], solver_ms=0, units=us)
    assumptions = []
    accepted = True
    for u in us:
        r = run_unit(u, build, thorough)
        names = props_of(u)[prop]
        mine = lambda n: n is None or "*" in names or n in names
        if r["status"] == "undecided":
            accepted = False; undecided += r["notes"]
        elif r["status"] == "failed":
            for f in r["failed"]:
                if f["tags"]:
                    if prop not in f["tags"]: continue
                elif not mine(f["fn"]): continue
                accepted = False
                d = f"{u}: {f['message']} in {f['fn'] or 'lemma'} ({f['clause'][:160]})"
                if f["kind"] != "obligation" or f["lost"] or f["fn"] is None: undecided.append("not decided by the proof: " + d)
                else: failed.append(d)
            log += r["log"]
        v = r.get("verus")
        fs = [f for f in r["fns"] if mine(f["name"])]
        cov["functions"] += [f"{f['name']} ({f['file']}:{f['line']}, {f['clauses']} contract clauses)" for f in fs]
        if v:
            cov["obligations"] += v["verified"] + v["failed"]; cov["discharged"] += v["verified"]
            cov["checker_cmd"] += (" && " if cov["checker_cmd"] else "") + v["cmd"]
            cov["solver_ms"] += v["smt_ms"]
            cov["contract_clauses"] = cov.get("contract_clauses", 0) + sum(f["clauses"] for f in fs)
        for t in r.get("proved_elsewhere", []):
            if t not in cov.setdefault("contracts_used_here_and_proved_in_another_unit", []): cov["contracts_used_here_and_proved_in_another_unit"].append(t)
        for t in r.get("trusted", []):
            if t not in cov["trusted_base"]: cov["trusted_base"].append(t)
        if thorough and r["status"] == "accepted":
            n, bad, skipped = probe(u, build)
            if bad: accepted = False; undecided.append(f"{u}: vacuity probe: {bad[:3]}")
            cov["must_fail_probes_refused"] = cov.get("must_fail_probes_refused", 0) + (n or 0)
    cov["backend"] = "Verus 0.2026.09.13 with its bundled Z3"
    status = "accepted" if accepted else ("failed" if failed else "undecided")
    if status != "accepted": cov["failed_obligations"] = failed[:20]
    if undecided: cov["undecided"] = undecided[:20]
    return {"status": status, "failed": failed, "undecided": undecided, "coverage": cov, "assumptions": ["see trusted_base; the models of dependencies in contracts/_*.rs are assumed"], "log": log}

def setup(build):
    b = vx_binary(build)
    try: derived({"expanded": ["ssz-multiproofs", "z-core"]}, build)
    except Exception as e: return f"extractor built: {b}; {e}"
    return f"extractor built: {b}"

def baseline(build):
    """Record locals, structure and token hash of every function under contract (developer command)."""
    binary = vx_binary(build)
    base = {}
    for u in units():
        cfg, chunks = parse(u)
        derived(cfg, build)
        out = vx(binary, request(u, cfg, chunks, {}, {}, build))
        for i, (kind, c) in enumerate(chunks):
            if kind == "text": continue
            r = out["items"][str(i)]
            if "error" in r: print(u, r["error"]); continue
            if c.get("assumed"): continue
            base[key(u, c)] = dict(locals=r["locals"], skeleton=[r["loops"], r["closures"]], tokens=hashlib.sha256(r["tokens"].encode()).hexdigest())
    with open(BASELINE, "w") as f: json.dump(base, f, indent=0, sort_keys=True); f.write("\n")

if __name__ == "__main__":
    import sys
    build = os.environ.get("VERIF_BUILD", f"{VERIF}/build")
    if sys.argv[1] == "baseline": baseline(build)
    elif sys.argv[1] == "probe": print(probe(sys.argv[2], build))
    elif sys.argv[1] == "unit":
        r = run_unit(sys.argv[2], build)
        for n in r["notes"]: print("NOTE", n)
        v = r.get("verus")
        if v:
            for e in v["errors"][: int(os.environ.get("N", "12"))]: print(e["rendered"][:2500])
            print(f"{r['status']}: {v['verified']} verified, {v['failed']} failed, {v['wall']:.1f} s")
            slow = sorted(v["functions"], key=lambda f: -f["ms"])[:5]
            print("slowest:", [(f["name"].split("::", 1)[-1], round(f["ms"])) for f in slow])
