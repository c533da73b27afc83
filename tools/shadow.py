"""Write a cargo workspace that builds the real sources of /repo offline.

It is derived on every run from /repo's Cargo.toml, Cargo.lock and the members' manifests. Sources
are copied byte for byte: everything beside a member's Cargo.toml equals what is in /repo. Dependencies that
are not in the offline cache (git dependencies and a few crates) are redirected to the stand-ins in
/verif/shims; nothing else changes. The overflow behaviour is that of the release profile, which is
what the guest is built with."""
import json, os, shutil, sys, tomllib

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SHIMS = f"{VERIF}/shims"
MEMBERS = {"ssz-multiproofs": "ssz-multiproofs", "core": "core", "methods/guest": "guest"}
# dependency name in a manifest -> shim directory
SHIM = {"beacon_types": "beacon_types", "bls": "bls", "swap_or_not_shuffle": "swap_or_not_shuffle",
        "safe_arith": "safe_arith", "ethereum_ssz": "ethereum_ssz", "tree_hash": "tree_hash",
        "serde_with": "serde_with", "serde_arrays": "serde_arrays", "alloy-sol-types": "alloy-sol-types",
        "ssz_rs": "ssz_rs", "ethereum-consensus": "ethereum-consensus", "risc0-zkvm": "risc0-zkvm"}
SHIM_FEATURES = {"beacon_types": ["legacy-arith"], "ethereum-consensus": ["serde"]}
DROP = {"blst", "chainspec", "serde_cbor"}  # guest only: accelerated BLS, chain specs for the bins
# sources of /repo/host that the stand-ins of /verif/hostpart replace (network client, fork-specific states, command line)
HOST_OUT = {"lib.rs", "beacon_client.rs", "beacon_state.rs", "test_utils.rs", "bin", "input_reader/test_harness_readers.rs"}
KINDS = ("dependencies", "dev-dependencies", "build-dependencies")

def value(v):
    if isinstance(v, dict):
        return "{ " + ", ".join(f"{json.dumps(k)} = {value(x)}" for k, x in v.items()) + " }"
    if isinstance(v, list):
        return "[" + ", ".join(value(x) for x in v) + "]"
    return json.dumps(v)

def toml(m):
    out = []
    for name, table in m.items():
        if isinstance(table, list):
            for t in table:
                out += [f"[[{name}]]"] + [f"{json.dumps(k)} = {value(v)}" for k, v in t.items()]
        else:
            out += [f"[{name}]"] + [f"{json.dumps(k)} = {value(v)}" for k, v in table.items()]
        out.append("")
    return "\n".join(out)

def load(p):
    with open(p, "rb") as f:
        return tomllib.load(f)

def write(p, text):
    os.makedirs(os.path.dirname(p), exist_ok=True)
    if not os.path.exists(p) or open(p).read() != text:
        with open(p, "w") as f:
            f.write(text)

def link(dst, src):
    """Make dst a byte-identical copy of src. Only changed files are written, so that modification times
    follow content and a build cannot miss a change."""
    if os.path.isdir(src):
        os.makedirs(dst, exist_ok=True)
        names = [e for e in os.listdir(src) if e != "target"]
        for e in os.listdir(dst):
            if e not in names: remove(f"{dst}/{e}")
        for e in names: link(f"{dst}/{e}", f"{src}/{e}")
        return
    if os.path.isdir(dst): remove(dst)
    with open(src, "rb") as f: new = f.read()
    if os.path.exists(dst):
        with open(dst, "rb") as f:
            if f.read() == new: return
    with open(dst, "wb") as f: f.write(new)

def remove(p):
    if os.path.isdir(p) and not os.path.islink(p): shutil.rmtree(p)
    else: os.unlink(p)

def files(d, base=""):
    for e in sorted(os.listdir(d)):
        if os.path.isdir(f"{d}/{e}"): yield from files(f"{d}/{e}", f"{base}{e}/")
        else: yield base + e

def host_part(ws):
    """The host's sources byte for byte, except HOST_OUT."""
    dst, src, own = f"{ws}/hostpart/src", f"{REPO}/host/src", f"{VERIF}/hostpart/src"
    out = lambda f: f in HOST_OUT or f.split("/")[0] in HOST_OUT
    want = {f: f"{src}/{f}" for f in files(src) if not out(f)}
    want.update({f: f"{own}/{f}" for f in files(own)})
    os.makedirs(dst, exist_ok=True)
    for f in list(files(dst)):
        if f not in want: remove(f"{dst}/{f}")
    for f, s in want.items():
        os.makedirs(os.path.dirname(f"{dst}/{f}"), exist_ok=True)
        link(f"{dst}/{f}", s)

def generate(ws, extra=("native",), dev=False, host=False):
    """extra: harness crates of /verif to add as members; host: with the part of the host crate that builds offline."""
    root = load(f"{REPO}/Cargo.toml")
    shared = root["workspace"].get("dependencies", {})
    pkg = root["workspace"].get("package", {})
    members = list(MEMBERS.values()) + list(extra) + (["hostpart"] if host else [])
    write(f"{ws}/Cargo.toml", toml({"workspace": {"resolver": "2", "members": members, "package": pkg},
        "profile.dev": {"opt-level": 1, "debug": False, "overflow-checks": False, "debug-assertions": False, "incremental": False}}))
    with open(f"{VERIF}/tools/Cargo.lock.base") as f:
        lock = f.read()
    if not os.path.exists(f"{ws}/Cargo.lock"):
        write(f"{ws}/Cargo.lock", lock)
    for src, name in MEMBERS.items():
        m = load(f"{REPO}/{src}/Cargo.toml")
        m.pop("workspace", None); m.pop("patch", None); m.pop("profile", None)
        for kind in KINDS:
            if kind != "dependencies" and not dev:
                m.pop(kind, None)
                continue
            for dep, d in list(m.get(kind, {}).items()):
                feats, opt = [], False
                if isinstance(d, dict):
                    feats, opt = d.get("features", []), d.get("optional", False)
                if dep in DROP:
                    del m[kind][dep]
                elif dep in SHIM:
                    nd = {"path": f"{SHIMS}/{SHIM[dep]}"}
                    sm = load(f"{SHIMS}/{SHIM[dep]}/Cargo.toml")
                    if sm["package"]["name"] != dep: nd["package"] = sm["package"]["name"]
                    if opt: nd["optional"] = True
                    m[kind][dep] = nd
                elif isinstance(d, dict) and d.get("workspace"):
                    b = shared[dep]
                    nd = dict(b) if isinstance(b, dict) else {"version": b}
                    if feats: nd["features"] = sorted(set(nd.get("features", [])) | set(feats))
                    if opt: nd["optional"] = True
                    if "default-features" in d: nd["default-features"] = d["default-features"]
                    m[kind][dep] = nd
                elif isinstance(d, dict) and "path" in d:
                    p = os.path.normpath(os.path.join(src, d["path"]))
                    nd = dict(d); nd["path"] = f"../{MEMBERS[p]}"
                    m[kind][dep] = nd
        pk = m["package"]
        for k, v in list(pk.items()):
            if isinstance(v, dict) and v.get("workspace"):
                pk[k] = pkg[k]
        pk["autobins"] = False; pk["autotests"] = False; pk["autobenches"] = False; pk["autoexamples"] = False
        pk.pop("build", None)
        m.setdefault("lints", {}).setdefault("rust", {})["unexpected_cfgs"] = "allow"
        m.pop("bin", None)
        write(f"{ws}/{name}/Cargo.toml", toml(m))
        entries = {e for e in os.listdir(f"{REPO}/{src}") if e not in ("Cargo.toml", "Cargo.lock", "target")}
        for e in os.listdir(f"{ws}/{name}"):
            if e not in entries and e not in ("Cargo.toml",):
                remove(f"{ws}/{name}/{e}")
        for e in entries:
            link(f"{ws}/{name}/{e}", f"{REPO}/{src}/{e}")
    if host: host_part(ws)
    for e in list(extra) + (["hostpart"] if host else []):
        with open(f"{VERIF}/{e}/Cargo.toml.in") as f:
            t = f.read().replace("@WS@", ws).replace("@SHIMS@", SHIMS)
        t = "".join(l.replace("#host ", "") if host else "" if l.startswith("#host ") else l for l in t.splitlines(keepends=True))
        write(f"{ws}/{e}/Cargo.toml", t)
        if e == "hostpart": continue
        os.makedirs(f"{ws}/{e}", exist_ok=True)
        link(f"{ws}/{e}/src", f"{VERIF}/{e}/src")
    return ws

if __name__ == "__main__":
    generate(sys.argv[1] if len(sys.argv) > 1 else f"{VERIF}/build/ws", host="host" in sys.argv[2:])
