#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl and the notes below."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 "C01": ("property-based testing: generated value trees against a reference SIP-005 encoder", "the reference encoder in harness/src/model.rs and the address tables in refc.rs are trusted"),
 "C02": ("property-based testing: round trip with structural comparison by a reference walker", "contents are read back through the public accessors of each type"),
 "C03": ("property-based fuzzing of the decoders: mutated, truncated, nested and random bytes against a reference decoder, with panic, abort and allocation monitors", "duplicate tuple keys and nesting over 32 are left open; the allocation bound is 64 KiB + 256 bytes per input byte"),
 "C04": ("property-based testing: valid values and transactions with one unrepresentable part injected; must be refused", "addresses given as raw hash and version bytes are trusted input; the injected parts are those listed in the property"),
 "C05": ("property-based testing: pairs of near-miss values, equality against equality of reference encodings; clone histories", "the reference encoder is trusted"),
 "C06": ("property-based testing: displayed text against a reference printer", "the reference printer is trusted"),
 "C07": ("property-based testing: (value, target type) pairs against the model's type", "casts are exercised for every target type the crate implements"),
 "C08": ("stateful property-based testing: tuple histories against an insertion-ordered map model", "inserting an existing key is taken to keep its position"),
 "C09": ("property-based testing against a big-number reference codec; text fuzzing", "the reference codec is trusted"),
 "C10": ("property-based testing: hashes and versions against a reference c32check; corrupted address texts must agree with the reference decoder", "own SHA-256 (self-tested on start) and bignum codec are trusted"),
 "C11": ("property-based testing against a big-number reference codec; corrupted text fuzzing", "own SHA-256 and bignum codec are trusted"),
 "C12": ("property-based testing: round trip and reference parser on generated texts", "the reference parser is trusted"),
 "C13": ("property-based testing against own SHA-2, RIPEMD-160 and script construction", "the own digests are self-tested on published vectors at every start"),
 "C14": ("property-based testing: full transaction descriptions against a reference serializer", "the reference transaction model in harness/src/txmodel.rs is trusted"),
 "C15": ("property-based testing: post-condition lists by constructor and by macro against a reference serializer", "macro forms are those the crate documents, with generated runtime arguments"),
 "C16": ("property-based fuzzing of payload decoders: round trip, mutated bytes against a reference decoder, with panic, abort and allocation monitors", "contract calls with an unknown address version byte are left open"),
 "C17": ("property-based testing: reference signature hash and public-key recovery", "libsecp256k1 (the same library the crate uses) recovers the public key; the hash chain is the harness's own"),
 "C18": ("property-based testing: signed transactions with one generated alteration; must not verify", "more signatures than required in a multi-sig is left open; high-S malleation is not generated"),
 "C19": ("stateful property-based testing: signing histories over sessions against a model of the signing state", "steps by keys that are not next in order may be applied or refused; at most 5 keys per party"),
 "C20": ("property-based testing: phrases and indices against own PBKDF2, HMAC-SHA-512 and BIP-32", "libsecp256k1 point arithmetic is shared with the crate; the bip39 word list is shared"),
 "C21": ("stateful property-based testing: wallet histories against a map model", "derivation itself is decided by C20's reference"),
 "C22": ("property-based testing over generated programs: struct definitions generated at build time, tuples at run time, against a field model", "keys of one struct are distinct; optional fields with a missing or mistyped value may give none or an error"),
 "C23": ("property-based testing: every call against a recording loopback HTTP server", "request paths are compared after percent-decoding"),
 "C24": ("property-based fault injection: scripted loopback server replies and faults against the scripted outcome", "one known finding (a chunked reply cut inside its data); empty bodies are left open"),
 "C25": ("property-based testing: sign/verify inverse, reference chain rule, fuzzed signature bytes", "libsecp256k1 is shared with the crate"),
 "C26": ("property-based testing: native contents through every constructor, conversion and macro form, identity oracle", "macro forms are fixed program text with generated contents"),
}
checks = []
for line in open(os.path.join(here, "properties.jsonl")):
    i = json.loads(line)["id"]
    tech, note = T[i]
    checks.append({
        "property": i,
        "quick_cmd": f"bash /verif/check.sh {i} quick",
        "thorough_cmd": f"bash /verif/check.sh {i} thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": tech, "level": "exploration",
        "level_note": f"No counterexample among the generated cases counted in the evidence (deterministic per VERIF_SEED); {note}.",
    })
m = {"version": 1, "setup_cmd": "bash /verif/check.sh build", "checks": checks, "not_applicable": [],
     "notes": "No hooks: the harness uses the public API only. Changes to /repo are fix: commits, listed in known_findings.txt."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
