#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
                     mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe, hook_needed=None)))
CL = ["stacks/src/clarity/impl.rs", "stacks/src/clarity/mod.rs", "stacks/src/clarity/macro.rs"]

p("C01", "Clarity values encode to the exact SIP-005 consensus bytes",
  "Every Clarity value built from valid parts, whatever its type, contents and nesting, encodes to exactly the bytes the Stacks consensus format (SIP-005) prescribes: type byte, 16-byte big-endian integers, 4-byte big-endian lengths and counts, version byte plus 20-byte hash for principals, one-byte-length names. Tuple fields are written in ascending key order whatever order they were added in. The reported length, hex and 0x-prefixed hex of a value always describe exactly those bytes.",
  ["inputs"], "all Clarity values: every type, any integer, any buffer/string content and length, any nesting up to the Clarity depth limit of 32, any field insertion order",
  "The unit tests compare a dozen fixed values (integers +-1/3/-4, one buffer, 2-field tuples already in key order); the byte layout for other magnitudes, lengths, nestings and insertion orders is never looked at.",
  CL, [("Codec::encode for each type", "stacks/src/clarity/impl.rs"), ("Codec::len/hex/hex_prefixed", "stacks/src/clarity/mod.rs")],
  ["Codec::encode", "Codec::len", "Codec::hex", "Codec::hex_prefixed"])

p("C02", "Every encoded Clarity value decodes back to the same value",
  "Decoding the encoding of any valid Clarity value gives back a value of the same type with the same contents at every level, through the type-directed decoder and through the decoder of that type. This also holds for function-argument lists and length-prefixed names, and no matter what bytes follow the encoding. Re-encoding the decoded value reproduces the original bytes.",
  ["inputs"], "all valid Clarity values, argument lists and names; any trailing bytes",
  "Round-trip tests exist for one value per type plus one 15-element list; they compare with ==, which itself goes through the library, and never with trailing data, empty/boundary lengths or deep nesting.",
  CL, [("Codec::decode for each type", "stacks/src/clarity/impl.rs"), ("decode_clarity_type dispatch", "stacks/src/clarity/mod.rs")],
  ["decode_clarity_type", "<T as Codec>::decode"])

p("C03", "Clarity decoding is total and exact on arbitrary bytes",
  "For any byte string, however truncated, corrupted, oversized or deeply nested, every Clarity decoder returns a value or an error: it never panics, never aborts the process and never allocates memory out of proportion to its input. It accepts exactly the byte strings that begin with a well-formed encoding of the requested type (right type byte, complete contents, ASCII in ASCII strings, valid UTF-8, known address version, names of at most 128 bytes), and the value it returns is the one those bytes denote.",
  ["inputs"], "all byte strings, including truncations, bit flips, wrong lengths, wrong type bytes and nesting of any depth",
  "No test decodes a malformed input at all; the input space is unbounded and the failures sit at length and offset boundaries.",
  CL, [("identifier and bounds checks in decode", "stacks/src/clarity/impl.rs"), ("decode_clarity_type dispatch", "stacks/src/clarity/mod.rs")],
  ["decode_clarity_type", "<T as Codec>::decode"])

p("C04", "Values with no valid encoding are rejected, never mis-encoded",
  "A value that the wire format cannot represent - non-ASCII text in an ASCII string, a name over 128 bytes, an address text that is malformed, mis-checksummed, of unknown version or not 20 bytes long, a memo over 34 bytes, a transfer recipient or post-condition principal that is not a principal - makes every encode, hash, build or sign operation on anything containing it return an error, at whatever depth it sits, and nothing panics. Values exactly at a limit are accepted.",
  ["inputs"], "all values, payloads, post-conditions and transactions with one or more unrepresentable parts at any position, and all values exactly at a limit",
  "Only two non-ASCII strings are tested, both at top level; over-long names and memos, bad addresses and nested occurrences are not.",
  CL + ["stacks/src/transaction/payload.rs", "stacks/src/transaction/condition.rs", "stacks/src/transaction/builder.rs", "stacks/src/crypto/c32.rs"],
  [("is_ascii / length checks", "stacks/src/clarity/impl.rs"), ("c32_address_decode validation", "stacks/src/crypto/c32.rs"), ("memo and principal checks", "stacks/src/transaction/payload.rs, condition.rs")],
  ["Codec::encode", "Transaction::hash", "Transaction::sign", "STXContractCall::transaction"])

p("C05", "Values compare equal exactly when they are the same Clarity value",
  "Two Clarity values (or argument lists, names, post-condition lists) of the same type compare equal if and only if they denote the same value, that is have the same consensus encoding, whatever characters their strings and keys contain. A clone equals its original, encodes identically, and later changes to one do not show in the other.",
  ["inputs"], "all pairs of valid values, in particular near-misses: same text layout with different structure, quotes, spaces and parentheses inside strings and keys, one leaf changed",
  "Tests only assert equality of a value with its own round-trip; no test ever asserts that two different values are unequal.",
  CL + ["stacks/src/transaction/condition.rs"], [("PartialEq in impl_clarity_primitive", "stacks/src/clarity/macro.rs"), ("Clone impls", "stacks/src/clarity/impl.rs")],
  ["PartialEq::eq", "Clone::clone"])

p("C06", "The text form of a value is its Clarity literal, compositionally",
  "For every value the displayed text is the Clarity form of that value: decimal integers (u-prefixed when unsigned), 0x lowercase hex buffers, true/false/none, addresses as written with contracts as address.name, quoted strings (u-prefixed for UTF-8) with their contents verbatim, and (ok x), (err x), (some x), (list a b ...), (tuple (k v) ...) built from the text of the parts in stored order.",
  ["inputs"], "all Clarity values and nestings",
  "Display tests cover single-digit integers, short buffers and one fixed tuple.",
  CL, [("Display impls", "stacks/src/clarity/impl.rs")], ["Display::fmt / to_string"])

p("C07", "Casts succeed only for the actual type and keep the contents",
  "Casting a dynamically typed Clarity value to a concrete type, by value or by reference, succeeds if and only if the value is of that type, and then yields its exact contents; otherwise it returns an error. Casting a response or optional wrapper applies the same rule to the wrapped value.",
  ["inputs"], "all pairs of (value, target type) including nested wrappers",
  "One test casts 15 fixed values to their own type; no test checks that a cast to a wrong type fails or that contents survive.",
  CL, [("Cast impls", "stacks/src/clarity/macro.rs")], ["Cast::cast", "Cast::cast_as"])

p("C08", "A tuple behaves as a map under any sequence of operations",
  "Under any sequence of insert, remove, get and in-place update, a tuple behaves as an insertion-ordered map: get returns the value most recently inserted or written for that key or nothing, remove returns that value and makes the key absent, other keys keep their values, and keys and values iterate in matching order with each key once. Its encoding always is that of the resulting set of fields.",
  ["histories"], "all operation sequences over small and large key sets, including repeated keys, prefixes of keys and the empty key",
  "One test performs a fixed six-call sequence with distinct keys.",
  CL, [("Tuple::get/get_mut/insert/remove/keys/values", "stacks/src/clarity/impl.rs")], ["Tuple methods", "Codec::encode"],
  [dict(name="Tuple fields", meaning="ordered list of (key, value)", where="stacks/src/clarity/impl.rs")])

p("C09", "C32 text encoding is an exact bijection",
  "C32-encoding any byte string gives the Crockford base-32 digits of its big-endian number preceded by one '0' per leading zero byte, and decoding that text gives back exactly the same bytes. Decoding ignores letter case and reads O as 0 and I and L as 1; any text containing another character is rejected with an error, and no text makes it panic.",
  ["inputs"], "all byte strings (any length, any number of leading zeros) and all Unicode strings",
  "Random tests draw long random byte strings, so short inputs, leading zeros, aliases, lowercase and invalid text are practically never sampled.",
  ["stacks/src/crypto/c32.rs"], [("c32_encode / c32_decode and the byte map", "stacks/src/crypto/c32.rs")], ["c32_encode", "c32_decode"])

p("C10", "Addresses round-trip exactly and any corruption is rejected",
  "Every 20-byte hash with one of the four Stacks versions (22, 20, 26, 21) maps to exactly one address text as defined by c32check, and decoding it returns that hash and version. Decoding succeeds only for text starting with S whose checksum matches its version and contents, whose version is one of the four and whose hash has 20 bytes; every other text - changed, dropped, added or swapped characters, wrong prefix, empty, non-ASCII - gives an error and never a panic. Encoding with any other version byte is refused with an error.",
  ["inputs"], "all hashes, version bytes 0..255, and all strings, in particular mutations of valid addresses",
  "Tests decode only addresses the library itself just produced from random hashes; no test decodes a corrupted, truncated or foreign string.",
  ["stacks/src/crypto/c32.rs"], [("c32check_encode/decode, c32_address/_decode, Address::from_str", "stacks/src/crypto/c32.rs")],
  ["c32_address", "c32_address_decode", "c32check_encode", "c32check_decode", "Address::from_str"])

p("C11", "Base58 and Base58Check are exact, lossless and checksum-protected",
  "Base58-encoding any byte string, including all-zero and empty ones, gives the standard Bitcoin text, and decoding that text gives back exactly the same bytes. Base58Check additionally binds the version byte and payload to a double-SHA-256 checksum: decoding returns the original version and payload, and any text with a bad character, a bad checksum or too few bytes is rejected with an error, never a panic.",
  ["inputs"], "all byte strings and version bytes; all Unicode strings",
  "Random tests draw long random byte strings; all-zero strings, texts with characters beyond Latin-1, too-short texts and corrupted checksums are not sampled.",
  ["stacks/src/crypto/b58.rs"], [("b58_encode/b58_decode/base58check_*", "stacks/src/crypto/b58.rs")], ["b58_encode", "b58_decode", "base58check_encode", "base58check_decode"])

p("C12", "Hex conversion is exact both ways and rejects everything else",
  "Bytes convert to two lowercase hex digits each, and hex text of either letter case converts back to exactly those bytes. Text of odd byte length or containing any character other than a hex digit is rejected with an error wherever it occurs; nothing panics.",
  ["inputs"], "all byte strings and all Unicode strings",
  "The error test has four fixed strings with the bad character near the start; mixed case and every single position/character are not enumerated.",
  ["stacks/src/crypto/hex.rs"], [("HexIterator, hex_to_bytes, bytes_to_hex", "stacks/src/crypto/hex.rs")], ["hex_to_bytes", "bytes_to_hex"])

p("C13", "Digests and address hashes match their published definitions",
  "For every input the SHA-256, double SHA-256, SHA-512/256 and Hash160 digests equal their standard definitions and the 4-byte checksum is the digest's first four bytes. The four address hashes (P2PKH, P2WPKH, and m-of-n P2SH and P2WSH over any ordered list of 1 to 16 public keys) are Hash160 of the corresponding Bitcoin key or script. Digest containers convert to and from bytes and hex without loss.",
  ["inputs"], "all byte strings around block boundaries and beyond, all public key lists with 1..16 keys and 1..n required signatures",
  "Four fixed vectors, the multi-sig ones with the same key twice (order and count mix-ups invisible).",
  ["stacks/src/crypto/hash.rs", "stacks/src/crypto/c32.rs"], [("from_slice constructors", "stacks/src/crypto/hash.rs"), ("hash_p2pkh/p2wpkh/p2sh/p2wsh", "stacks/src/crypto/c32.rs")],
  ["*Hash::from_slice", "checksum", "hash_p2*"])

p("C14", "Transactions serialize to the exact SIP-005 wire format",
  "For every combination of network, sender, fee, nonce, anchor mode, post-condition mode, post-conditions, payload and authorization (single-sig, multi-sig, sponsored), the serialized transaction is exactly the SIP-005 byte layout of those choices, unspecified builder options take their documented defaults, and the transaction id is SHA-512/256 of those bytes. Changing fee or nonce afterwards changes exactly the corresponding bytes.",
  ["inputs", "configurations"], "all builder inputs (u64 extremes, any memo/name/argument), all enum choices, single- and multi-sig conditions in all hash modes",
  "Eight fixed transactions with one key, one memo, fee 0/100000 and nonce 0/55, always P2PKH.",
  ["stacks/src/transaction/base.rs", "stacks/src/transaction/builder.rs", "stacks/src/transaction/auth.rs", "stacks/src/transaction/payload.rs", "stacks/src/transaction/network.rs"],
  [("Codec::encode for Transaction, Auth, SpendingCondition*, payloads", "stacks/src/transaction/"), ("builders and their defaults", "stacks/src/transaction/builder.rs")],
  ["Transaction::encode", "Transaction::hash", "set_fee", "set_nonce"])

p("C15", "Post-conditions serialize exactly, in order, with nothing lost",
  "Every list of post-conditions serializes as a 4-byte count followed by each condition in the given order, and each STX, fungible and non-fungible condition carries exactly its own principal kind, address and contract name, asset identity, comparison code, and amount or token value in the SIP-005 layout, whether built with constructors or with the post_condition macro.",
  ["inputs"], "all lists of conditions over standard/contract principals, all codes, u64 amounts, any asset names and any Clarity value as token id",
  "Fixed vectors with one address, one amount (1000000) and four of the seven codes.",
  ["stacks/src/transaction/condition.rs"], [("Codec::encode for PostConditions and the three conditions, AssetInfo", "stacks/src/transaction/condition.rs"), ("post_condition! macro", "stacks/src/transaction/condition.rs")],
  ["PostConditions::encode", "*PostCondition::encode"])

p("C16", "Payload decoding inverts encoding and is total on any bytes",
  "Decoding an encoded transfer or contract-call payload gives back the same recipient, amount, memo (up to zero padding), contract address, contract name, function name and arguments, and re-encodes to the same bytes. For any other bytes the payload decoders return an error or the payload those bytes denote; they never panic, abort or allocate out of proportion.",
  ["inputs"], "all payloads, and all byte strings",
  "Five fixed payloads; malformed payload bytes are never decoded.",
  ["stacks/src/transaction/payload.rs"], [("Codec::decode for TokenTransferPayload, ContractCallPayload, Box<dyn Payload>", "stacks/src/transaction/payload.rs")],
  ["<Box<dyn Payload> as Codec>::decode", "TokenTransferPayload::decode", "ContractCallPayload::decode"])

p("C17", "Signing yields the sender's valid signature over the whole transaction",
  "Signing any transaction with its sender's key fills in a deterministic, low-S, recoverable signature that, under the Stacks signature-hash rules (auth cleared, then fee and nonce mixed in), recovers to exactly the sender's public key, and verification accepts it. Apart from the signature field the signed transaction serializes to the same bytes as before. A transaction that already carries its signature is refused a second one.",
  ["inputs"], "all transactions (any builder input), all secret keys, both single-sig hash modes",
  "Eight fixed transactions under one key; no test verifies a signature at all.",
  ["stacks/src/transaction/base.rs", "stacks/src/transaction/signer.rs", "stacks/src/transaction/auth.rs", "stacks/src/crypto/hash.rs"],
  [("Transaction::sign, initial_hash, sign_and_append", "stacks/src/transaction/base.rs"), ("SignatureHash::next_signature", "stacks/src/crypto/hash.rs")],
  ["Transaction::sign", "Auth::verify", "Auth::verify_origin", "Transaction::encode"])

p("C18", "Verification rejects every forged or altered transaction",
  "Verification of an authorization succeeds only if every required signature was made by the stated signer(s) over exactly this transaction. Altering any field after signing - network, fee, nonce, anchor mode, post-condition mode, any post-condition, any part of the payload, signer, any bit of any signature - or signing with another key makes verification fail with an error, for standard and sponsored, single- and multi-sig authorizations alike.",
  ["inputs"], "all signed transactions and all single- and multi-field alterations, all wrong keys, all signature bit flips",
  "Nothing in the tests calls verification.",
  ["stacks/src/transaction/auth.rs", "stacks/src/crypto/hash.rs"], [("Auth::verify / verify_origin, SpendingCondition::verify", "stacks/src/transaction/auth.rs"), ("SignatureHash::next_verify", "stacks/src/crypto/hash.rs")],
  ["Auth::verify", "Auth::verify_origin"])

p("C19", "Any signing history ends in a verifiable or honestly refused transaction",
  "Over any sequence of origin signatures, public-key appends and sponsor signatures by any keys, in one signer session or several, each step is either applied or refused with an error that leaves the transaction unchanged; never more than the required number of signatures is accepted, and origin steps are refused once a sponsor has signed. Whenever the keys of an m-of-n multi-sig origin (and, if sponsored, of the sponsor) have each been signed or appended in order with m signatures, the result verifies, and its signature fields appear in that order on the wire; a sponsor session can only start from a verified origin.",
  ["histories"], "all operation sequences over 1..n keys, thresholds 1..n, all four hash modes, standard and sponsored, split over any number of sessions",
  "No test uses multi-sig signing, sponsorship or the signer object directly.",
  ["stacks/src/transaction/signer.rs", "stacks/src/transaction/auth.rs", "stacks/src/transaction/base.rs"],
  [("TransactionSigner", "stacks/src/transaction/signer.rs"), ("SpendingConditionMultiSig::modify/verify", "stacks/src/transaction/auth.rs")],
  ["TransactionSigner::sign_origin/append_origin/sign_sponsor/new/new_sponser", "Auth::verify", "Transaction::encode"],
  [dict(name="running signature hash, origin-signed flag, auth fields", meaning="signing progress", where="stacks/src/transaction/signer.rs, auth.rs")])

p("C20", "Wallet keys and addresses follow BIP-39/BIP-32 for every phrase",
  "For every valid English BIP-39 phrase of 12 to 24 words and every account index, the wallet key is the BIP-32 key at m/44'/5757'/0'/0 of the empty-passphrase seed and account i is its i-th child, and the account's secret key, public key and address in each of the four versions all belong to that same key. Phrases with an unknown word, a wrong word count or a wrong checksum are refused with an error.",
  ["inputs"], "all entropies of 128..256 bits, all u32 account indices, all corrupted phrases",
  "One phrase, indices 0 and 1.",
  ["stacks/src/wallet.rs"], [("StacksWallet::from_secret_key, StacksAccount::derive/get_address", "stacks/src/wallet.rs")],
  ["StacksWallet::*", "StacksAccount::*"])

p("C21", "Account lookups are stable under any sequence of wallet calls",
  "Over any sequence of account lookups and explicit account assignments, a lookup returns the account last assigned to that index, or else the one derived for it, independent of the order and number of earlier lookups and of other indices. Looking up accounts never changes the wallet's own key, and a cloned wallet evolves independently.",
  ["histories"], "all interleavings of get/set over arbitrary u32 indices",
  "Each test performs a single lookup on a fresh wallet.",
  ["stacks/src/wallet.rs"], [("StacksWallet::get_account/set_account cache", "stacks/src/wallet.rs")], ["StacksWallet::get_account", "StacksWallet::set_account"],
  [dict(name="accounts", meaning="index -> account cache", where="stacks/src/wallet.rs")])

p("C22", "Derived tuple conversions are faithful for every struct and tuple",
  "For every struct with the derived tuple conversion (any mix and order of the supported field types, keys and nested structs), converting a tuple that holds a matching value under every key succeeds and each field receives exactly the value stored under its own key. If a required key is missing or its value is of another type - including an error response where a response value is expected, at any nesting - the conversion returns an error and never a wrong value or panic; an optional field is filled only from a matching (some x).",
  ["programs", "inputs"], "generated struct definitions over all supported field types, times generated tuples: matching, with missing, extra, reordered or mistyped fields",
  "Two structs with fixed values; no failing conversion is tested.",
  ["stacks_derive/src/from_tuple.rs", "stacks_derive/src/lib.rs", "stacks/src/derive.rs"], [("__impl code generation", "stacks_derive/src/from_tuple.rs")], ["TryFrom<Tuple>"])

p("C23", "RPC requests carry exactly the data they were given",
  "Every RPC call sends one HTTP request with the documented method and path under the configured base URL, and the body carries exactly the given data: broadcast sends the serialized transaction bytes as octet-stream, fee estimation the hex payload and the serialized transaction length, and read-only calls the sender and each argument's hex encoding in order. If any of the data cannot be encoded the call returns an error and sends nothing.",
  ["inputs"], "all transactions, addresses, contract and function names, argument lists",
  "The RPC module has no tests.",
  ["stacks/src/rpc.rs"], [("StacksRPC methods", "stacks/src/rpc.rs")], ["HTTP request seen by a local server"])

p("C24", "RPC responses are reported faithfully under any server behaviour",
  "A well-formed success response is returned with exactly the values the server sent; an error status is reported as the error outcome with the server's own reason for broadcast and fee estimation and as an error for the other calls. Malformed, incomplete, truncated or missing responses always give an error - never a panic and never a success value the server did not send.",
  ["fault_sequences", "inputs"], "all response contents and status codes, and server faults: wrong JSON shape, invalid JSON, truncated body, dropped connection",
  "The RPC module has no tests.",
  ["stacks/src/rpc.rs"], [("response mapping in StacksRPC methods, serde definitions", "stacks/src/rpc.rs")], ["return value of the StacksRPC methods"])

p("C25", "Signature steps invert each other and reject malformed signatures",
  "For any hash, auth type, fee, nonce and key, making the next signature and then verifying it with the same data recovers that key's public key and both sides reach the same next hash, which equals the published chain rule; changing any of the data recovers a different key or fails. Converting between recoverable signatures and their 65-byte form loses nothing, and any other length, recovery id or malformed bytes gives an error, never a panic.",
  ["inputs"], "all hashes, type bytes, u64 fees/nonces, keys, and all byte strings as signatures",
  "Only exercised indirectly through eight fixed signed transactions; verification never.",
  ["stacks/src/crypto/hash.rs"], [("SignatureHash::next_signature/next_verify/make_*_hash, MessageSignature conversions", "stacks/src/crypto/hash.rs")],
  ["SignatureHash::*", "MessageSignature::*"])

p("C26", "Building and unpacking Clarity values never changes their contents",
  "However a value is built - constructor, conversion from native types, or the clarity macro in any of its forms, including the empty ones - it holds exactly the given content, and reading, consuming, iterating or converting it back to native types returns exactly that content in order.",
  ["inputs", "programs"], "all contents for every type, constructor, conversion and macro form",
  "Tests use the macros with a handful of literals; several conversions and one empty form are never used.",
  CL, [("new/value/into_value, clarity! macro", "stacks/src/clarity/macro.rs"), ("From / IntoIterator impls", "stacks/src/clarity/impl.rs")],
  ["constructors, From impls, clarity!, value/into_value/into_iter"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for x in P: f.write(json.dumps(x, ensure_ascii=False) + "\n")
