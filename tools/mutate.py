#!/usr/bin/env python3
"""Writes one-line mutants of /repo's non-test Rust sources as diffs.

mutate.py OUTDIR [max-per-file]
"""
import difflib, glob, os, random, re, sys
out = sys.argv[1]; cap = int(sys.argv[2]) if len(sys.argv) > 2 else 10**6
os.makedirs(out, exist_ok=True)
random.seed(7)
REPL = [
    (r"(?<![\w.])(\d+)(?![\w.]|\s*\.\.)", lambda m: [str(int(m[1]) + 1)] + ([str(int(m[1]) - 1)] if int(m[1]) else [])),
    (r"0x([0-9a-fA-F]+)\b", lambda m: [hex(int(m[1], 16) ^ 1)]),
    (r" == ", lambda m: [" != "]), (r" != ", lambda m: [" == "]),
    (r" <= ", lambda m: [" < "]), (r" >= ", lambda m: [" > "]), (r" < ", lambda m: [" <= "]), (r" > ", lambda m: [" >= "]),
    (r" && ", lambda m: [" || "]), (r" \|\| ", lambda m: [" && "]),
    (r" \+ ", lambda m: [" - "]), (r" - ", lambda m: [" + "]), (r" \+= ", lambda m: [" -= "]), (r" \* ", lambda m: [" + "]),
    (r"\.\.=", lambda m: [".."]),
    (r" << ", lambda m: [" >> "]), (r" >> ", lambda m: [" << "]), (r" \| ", lambda m: [" ^ "]), (r" & ", lambda m: [" | "]),
    (r"_be_bytes", lambda m: ["_le_bytes"]),
    (r"\btrue\b", lambda m: ["false"]), (r"\bfalse\b", lambda m: ["true"]),
    (r"\.rev\(\)", lambda m: [""]), (r"\bif (?!let)(.*) \{$", lambda m: [f"if !({m[1]}) {{", f"if false && ({m[1]}) {{"]),
    (r"\.is_some\(\)", lambda m: [".is_none()"]), (r"\.is_none\(\)", lambda m: [".is_some()"]),
    (r"\.is_empty\(\)", lambda m: [".is_empty() == false"]),
    (r"\.is_ok\(\)", lambda m: [".is_err()"]), (r"\.is_err\(\)", lambda m: [".is_ok()"]),
    (r"\bMainnet", lambda m: ["Testnet"]), (r"\bTestnet", lambda m: ["Mainnet"]),
    (r"P2PKH\b", lambda m: ["P2SH"]), (r"P2SH\b", lambda m: ["P2PKH"]),
    (r"\bAllow\b", lambda m: ["Deny"]), (r"\bDeny\b", lambda m: ["Allow"]),
    (r"\bnonce\b", lambda m: ["fee"]), (r"\bfee\b", lambda m: ["nonce"]),
    (r"\bResponseOk\b", lambda m: ["ResponseErr"]), (r"\bInt\b", lambda m: ["UInt"]), (r"\bUInt\b", lambda m: ["Int"]),
    (r"/v2/", lambda m: ["/v1/"]), (r"\bpost\(", lambda m: ["get("]), (r"\bget\(", lambda m: ["post("]),
    (r"\.to_string\(\)", lambda m: [".to_string().to_lowercase()"]),
    (r"origin\b", lambda m: ["sponsor"]), (r"sponsor\b", lambda m: ["origin"]),
    (r"\"([a-z_ -]{2,})\"", lambda m: [f'"{m[1]}x"']),
]
DEL = re.compile(r"^\s*[\w.*&\[\]]+(\.(push|extend|extend_from_slice|insert|append|sort\w*|reverse|retain|truncate|resize|fill|update|clear|set_\w+)\(.*\)|\s(=|\+=|\|=)\s.*);$")
n = 0
for f in sorted(glob.glob("/repo/stacks/src/**/*.rs", recursive=True) + glob.glob("/repo/stacks_derive/src/*.rs")):
    lines = open(f).read().split("\n")
    end = next((i for i, l in enumerate(lines) if l.strip().startswith("#[cfg(test)]")), len(lines))
    muts = []
    for i in range(end):
        l = lines[i]; s = l.strip()
        if not s or s.startswith(("//", "#", "use ", "pub use", "mod ", "pub mod", "impl", "pub fn", "fn ", "pub(crate) fn", "pub struct", "pub trait", "where")): continue
        for pat, fn in REPL:
            for m in re.finditer(pat, l):
                for r in fn(m):
                    muts.append((i, l[:m.start()] + r + l[m.end():]))
        if DEL.match(l): muts.append((i, None))
        if s.endswith("?;") and "let" not in s and "=" not in s: muts.append((i, None))
    if len(muts) > cap: muts = [muts[k] for k in sorted(random.sample(range(len(muts)), cap))]
    rel = os.path.relpath(f, "/repo")
    for k, (i, new) in enumerate(muts):
        m = lines[:i] + ([] if new is None else [new]) + lines[i + 1:]
        d = "\n".join(difflib.unified_diff(lines, m, "a/" + rel, "b/" + rel, lineterm="")) + "\n"
        open(f"{out}/{rel.replace('/', '_').replace('.rs', '')}-{k:03}.diff", "w").write("diff --git a/%s b/%s\n" % (rel, rel) + d)
        n += 1
    print(rel, len(muts))
print(n)
