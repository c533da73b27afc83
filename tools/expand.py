"""Source text of derived code: rustc expands the multiproof crate, and the functions serde and std derive for a type
are written, one per impl block, to a file the extractor can address. Items nested in a function
body (the helper types of serde) are cut out of it and stand beside it;
the (de)serializer's type parameter of a hand-written impl takes serde's name for it (the verifier wants it to be the
trait's). Nothing else is rewritten."""
import os, re, subprocess
import shadow

def blank(t):
    """the text with strings, characters and comments blanked, same length"""
    out, i = list(t), 0
    pat = re.compile(r'//[^\n]*|b?r(#*)".*?"\1|b?"(?:\\.|[^"\\])*"|b?\'(?:\\.|[^\'\\])\'', re.S)
    for m in pat.finditer(t):
        for k in range(m.start(), m.end()):
            if out[k] != "\n": out[k] = " "
    return "".join(out)

def close(b, i):
    """index after the brace that closes the one at i"""
    d = 0
    while True:
        if b[i] == "{": d += 1
        elif b[i] == "}":
            d -= 1
            if d == 0: return i + 1
        i += 1

def impls(t, b):
    """(header, start of body, end) of every impl block, nested ones included"""
    for m in re.finditer(r"\bimpl\b[^{};]*\{", b):
        yield " ".join(t[m.start():m.end() - 1].split()), m.end() - 1, close(b, m.end() - 1)

def fn_in(t, b, s, e, name):
    m = re.compile(r"\bfn " + name + r"\b").search(b, s, e)
    if not m: return None
    o = b.index("{", m.end())
    return m.start(), o, close(b, o)

def without_items(t):
    """cut nested items; returns (text, the items)"""
    items = []
    while True:
        b = blank(t)
        o = b.index("{")
        m = re.compile(r"(?:#\[[^\]]*\]\s*)*\b(?:(?:struct|enum|impl)\b[^;{}]*[;{]|const _: \(\) =\s*\{)").search(b, o + 1)
        if not m: return t, items
        e = close(b, m.end() - 1) if b[m.end() - 1] == "{" else m.end()
        if "const _" in b[m.start():m.end()]: e = b.index(";", e) + 1
        items.append(re.sub(r"^(?:#\[[^\]]*\]\s*)+", "", t[m.start():e]))
        t = t[:m.start()] + t[e:]

def lift(t, ty):
    b = blank(t)
    out = []
    def take(head, s, e, name):
        f = fn_in(t, b, s, e, name)
        if f is None: raise RuntimeError(f"lost anchor: derived {name} of {ty}")
        text, helpers = apart(t[f[0]:f[2]])
        text, items = without_items(text)
        g = re.match(r"fn (serialize|deserialize)<(\w+)\b", text)
        if g and not g.group(2).startswith("__"): text = re.sub(r"(?<![\w:'])" + g.group(2) + r"\b", "__S" if g.group(1) == "serialize" else "__D", text)
        out.append(f"{head} {{\n{text}\n}}\n")
        return helpers, [i for i in items if i.startswith("struct ")]
    for head, s, e in impls(t, b):
        if re.search(r"\bSerialize for " + ty + r"\b", head): out += sum(take(head, s, e, "serialize"), [])
        elif ty == "Multiproof" and re.search(r"\bPartialEq for " + ty + r"\b", head): take(head, s, e, "eq")
        elif re.search(r"\bDeserialize<'de> for " + ty + r"\b", head): out += [i for i in take(head, s, e, "deserialize")[1] if not re.match(r"struct __FieldVisitor\b", i)]
        elif re.search(r"\bVisitor<'de> for __Visitor<", head) and re.search(r"type Value = " + ty + r"\b", t[s:e]): out += take(head, s, e, "visit_seq")[0]
    return re.sub(r"(?<![\w:])::serde_with::", "serde_with::", "\n".join(out))

def apart(t):
    """cut the helper types of fields with a conversion of their own, each from the block it stands in, and drop the braces;
    the helpers all have one name: the type they hold is appended to it. Returns (text, the helpers)"""
    out, helpers = "", []
    while True:
        b = blank(t)
        m = re.search(r"\bstruct (__(?:Des|S)erializeWith)\b", b)
        if not m: return out + t, helpers
        d, i = 1, m.start()
        while d:
            i -= 1
            if b[i] == "}": d += 1
            elif b[i] == "{": d -= 1
        e = close(b, i)
        held = re.search(r"\b(?:value: |values: \(&'__a )(.*?),?\s*phantom:", t[m.start():e], re.S).group(1)
        blk = re.sub(r"\b" + m.group(1) + r"\b", m.group(1) + "_" + re.sub(r"\W+", "", held), t[i:e])
        rest, items = without_items(blk)
        helpers += items
        out += t[:i] + rest.strip()[1:-1].strip()
        t = t[e:]

def crate(name, build, e, ws):
    r = subprocess.run(["cargo", "rustc", "-p", name, *(["--no-default-features"] if name == "ssz-multiproofs" else []), "--offline", "--lib", "--profile", "check", "--", "-Zunpretty=expanded"], cwd=ws, env=e, capture_output=True, text=True, timeout=400)
    if r.returncode != 0: raise RuntimeError(f"{name} does not expand: " + r.stderr[-800:])
    return r.stdout

TYPES = {"ssz-multiproofs": [("Multiproof", "multiproof")],
         "z-core": [("Checkpoint", "checkpoint"), ("EncCheckpoint", "enc_checkpoint"), ("DecCheckpoint", "dec_checkpoint"), ("ConsensusState", "consensus_state"), ("StatePatch", "state_patch"), ("GuestInput", "guest_input")]}
DONE = {}
def expand(build, env, name="ssz-multiproofs"):
    """writes build/expanded/*.rs; returns for each type the names of its fields in the order of their declaration"""
    if (build, name) in DONE: return DONE[build, name]
    e = dict(env, RUSTC_BOOTSTRAP="1", CARGO_TARGET_DIR=f"{build}/target-x", RUSTFLAGS="")
    src = crate(name, build, e, shadow.generate(f"{build}/ws"))
    os.makedirs(f"{build}/expanded", exist_ok=True)
    orders = {}
    for ty, file in TYPES[name]:
        with open(f"{build}/expanded/{file}.rs", "w") as f: f.write(lift(src, ty))
        m = re.search(r"\bstruct " + ty + r"\b[^{;(]*\{(.*?)\n\s*\}\n", src, re.S)
        orders[ty] = re.findall(r"^\s*(?:pub(?:\(\w+\))? )?(\w+): ", re.sub(r"//[^\n]*|#\[[^\]]*\]", "", m.group(1)), re.M) if m else []
    DONE[build, name] = orders
    return orders

if __name__ == "__main__":
    import vf
    for n in TYPES:
        print(expand(vf.BUILD, vf.env(), n))
        for _, f in TYPES[n]: print(f"// {f}\n" + open(f"{vf.BUILD}/expanded/{f}.rs").read())
