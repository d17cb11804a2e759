//! C09 c32, C10 addresses, C11 base58, C12 hex, C13 digests.
use std::str::FromStr;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use secp256k1::PublicKey;
use serde::{Deserialize, Serialize};
use stacks_rs::crypto::c32::{hash_p2pkh, hash_p2sh, hash_p2wpkh, hash_p2wsh, Address, Version};
use stacks_rs::crypto::hex::HexIterator;
use stacks_rs::crypto::{
    b58_decode, b58_encode, base58check_decode, base58check_encode, bytes_to_hex, c32_address, c32_address_decode,
    c32_decode, c32_encode, c32check_decode, c32check_encode, hex_to_bytes, DSha256Hash, Hash160, MessageSignature,
    Sha256Hash, Sha512_256Hash, SignatureHash,
};

use crate::checks::clarity::short;
use crate::ensure;
use crate::model::{self, as_hex, Addr};
use crate::refc;
use crate::refhash;
use crate::runner::{class, Class, Property, SubCheck, Verdict};
use crate::txmodel::{self, Key};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Bytes(#[serde(with = "as_hex")] pub Vec<u8>);

fn patterned(max: usize) -> BoxedStrategy<Vec<u8>> {
    let run = move || {
        let n = prop_oneof![2 => 0usize..6, 1 => 0usize..=max];
        (n, prop_oneof![3 => Just(0u8), 2 => Just(0xff), 1 => select(vec![1u8, 0x80]), 1 => any::<u8>()])
    };
    (run(), model::bytes(max), run())
        .prop_map(move |((a, x), mid, (b, y))| {
            let mut v = vec![x; a];
            v.extend(mid);
            v.truncate(max - b);
            v.extend(vec![y; b]);
            v
        })
        .boxed()
}

fn bytes_cases(max: usize) -> BoxedStrategy<Bytes> {
    prop_oneof![
        4 => model::bytes(max.min(40)),
        1 => model::bytes(max),
        1 => (model::edge_sizes(max), any::<u64>()).prop_map(|(n, s)| model::stretch(n, s)),
        1 => (0usize..8).prop_map(|n| vec![0; n]),
        2 => vec(any::<u8>(), 0..4),
        1 => (0usize..6, any::<u8>(), 0usize..6).prop_map(|(a, x, b)| { let mut v = vec![0; a]; v.push(x); v.extend(vec![0; b]); v }),
        1 => (0usize..5, 0usize..30).prop_map(|(z, n)| { let mut v = vec![0; z]; v.extend(vec![0xff; n]); v }),
        // any length, with runs of one byte at either end
        1 => patterned(max),
    ]
    .prop_map(Bytes)
    .boxed()
}

fn classify_bytes(b: &Bytes) -> Class {
    let z = b.0.iter().take_while(|x| **x == 0).count();
    let l = if b.0.is_empty() {
        "empty"
    } else if z == b.0.len() {
        "all-zero"
    } else if z > 0 {
        "leading-zeros"
    } else {
        "plain"
    };
    class(b.0.len() > 1, vec![l])
}

/// Byte strings that resemble each other, treated one after another: no result
/// may depend on what was converted before.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Related {
    #[serde(with = "as_hex")]
    base: Vec<u8>,
    steps: Vec<(u8, u16, u8)>,
}

fn related(max: usize) -> BoxedStrategy<Related> {
    let base = prop_oneof![2 => vec(any::<u8>(), 20), 2 => model::bytes(max), 1 => vec(any::<u8>(), 0..max)];
    (base, vec((0u8..12, any::<u16>(), any::<u8>()), 2..8)).prop_map(|(base, steps)| Related { base, steps }).boxed()
}

fn classify_related(r: &Related) -> Class {
    class(r.base.len() > 1, vec![if r.base.len() == 20 { "20-bytes" } else { "other-length" }])
}

impl Related {
    fn item(&self, (kind, at, x): (u8, u16, u8)) -> Vec<u8> {
        let mut b = self.base.clone();
        let n = b.len();
        let i = usize::from(at) % n.max(1);
        match kind {
            0 | 1 => {}
            2 if n > 0 => b[i] ^= x.max(1),
            3 => b.truncate(i),
            4 => b.push(x),
            5 => b.insert(0, 0),
            6 => b.reverse(),
            7 if n > 0 => b.rotate_left(i),
            8 if n > 0 => b[n - 1] ^= x.max(1),
            9 if n > 0 => b[0] ^= x.max(1),
            10 => b[n / 2..].iter_mut().for_each(|v| *v ^= x),
            11 => b[..n / 2].iter_mut().for_each(|v| *v ^= x),
            _ => {}
        }
        b
    }

    fn each(&self, mut f: impl FnMut(Vec<u8>, u16, u8) -> Verdict) -> Verdict {
        for (i, s) in self.steps.iter().enumerate() {
            f(self.item(*s), s.1, s.2).map_err(|e| format!("step {i}: {e}"))?;
        }
        f(self.base.clone(), 0, 0).map_err(|e| format!("at the end: {e}"))
    }
}

/// The text with one character replaced, most often near its end.
fn edited(t: &str, at: u16, c: char) -> Text {
    let mut v: Vec<char> = t.chars().collect();
    let n = v.len();
    if n > 0 {
        let i = if at & 1 == 0 { n - 1 - usize::from(at / 2) % n.min(6) } else { usize::from(at) % n };
        v[i] = c;
    }
    Text(v.into_iter().collect())
}

// ---------------------------------------------------------------------------
// C09

fn c09_bytes(b: &Bytes) -> Verdict {
    let want = refc::c32_encode(&b.0);
    let got = c32_encode(&b.0).map_err(|e| format!("c32_encode({}) failed: {e}", short(&b.0)))?;
    ensure!(got == want, "c32_encode({}) is {got:?}, expected {want:?}", short(&b.0));
    let back = c32_decode(got.clone()).map_err(|e| format!("c32_decode({got:?}) failed: {e}"))?;
    ensure!(back == b.0, "c32_decode({got:?}) is {}, expected {}", short(&back), short(&b.0));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Text(pub String);

/// Text over an alphabet with aliases, other case and, sometimes, strangers.
fn c32_text() -> BoxedStrategy<Text> {
    let good = select("0123456789ABCDEFGHJKMNPQRSTVWXYZabcdefghjkmnpqrstvwxyzOoIiLl".chars().collect::<Vec<_>>());
    let bad = prop_oneof![
        3 => select("Uu-_ .+=/\u{0}\u{7f}@[`{:;".chars().collect::<Vec<_>>()),
        2 => select(vec!['é', 'ß', 'İ', 'ı', 'K', '\u{212a}', '０', '🌾', '\u{130}', '\u{80}', '\u{ff}', '\u{100}', '\u{d7ff}']),
        1 => any::<char>(),
    ];
    prop_oneof![
        5 => vec(good.clone(), 0..40).prop_map(|v| v.into_iter().collect::<String>()),
        1 => model::dressed(vec(good.clone(), 0..40).prop_map(|v| v.into_iter().collect::<String>()).boxed()),
        1 => (model::edge_sizes(1500), any::<u64>(), prop_oneof![2 => Just(None), 1 => (any::<Index>(), select(vec!['U', ' ', 'é', '0', '-'])).prop_map(Some)]).prop_map(|(n, s, bad)| {
            let set: Vec<char> = "0123456789ABCDEFGHJKMNPQRSTVWXYZabcdefghjkmnpqrstvwxyzOoIiLl".chars().collect();
            let mut t: Vec<char> = model::stretch(n, s).into_iter().map(|b| set[usize::from(b) % set.len()]).collect();
            if let Some((i, c)) = bad {
                t.insert(i.index(n + 1), c);
            }
            t.into_iter().collect()
        }),
        1 => (0usize..6, vec(good.clone(), 0..8)).prop_map(|(z, v)| "0".repeat(z) + &v.into_iter().collect::<String>()),
        3 => (vec(good, 0..20), bad, any::<Index>()).prop_map(|(mut v, c, i)| { let k = i.index(v.len() + 1); v.insert(k, c); v.into_iter().collect() }),
        1 => model::utf8(12),
    ]
    .prop_map(Text)
    .boxed()
}

fn c09_text(t: &Text) -> Verdict {
    let want = refc::c32_decode(&t.0);
    let got = c32_decode(t.0.clone()).ok();
    ensure!(got == want, "c32_decode({:?}) is {:?}, expected {:?}", t.0, got.map(|b| refhash::hex(&b)), want.map(|b| refhash::hex(&b)));
    Ok(())
}

pub fn c09() -> Property {
    Property {
        id: "C09",
        subs: vec![
            Box::new(SubCheck {
                name: "long",
                rule: "byte strings of up to 2100 bytes, sizes around the powers of two, some with leading zeros; non-trivial: longer than one byte.",
                quick: 3_000,
                thorough: 60_000,
                strategy: || {
                    (model::edge_sizes(2100), any::<u64>(), prop_oneof![2 => Just(0usize), 1 => 0usize..200])
                        .prop_map(|(n, s, z)| {
                            let mut b = model::stretch(n, s);
                            let z = z.min(n);
                            b[..z].fill(0);
                            Bytes(b)
                        })
                        .boxed()
                },
                classify: classify_bytes,
                run: c09_bytes,
            }),
            Box::new(SubCheck {
                name: "bytes",
                rule: "byte strings of 0-300 bytes with leading zeros and extreme values, encoded and decoded back; non-trivial: longer than one byte.",
                quick: 900_000,
                thorough: 8_000_000,
                strategy: || bytes_cases(300),
                classify: classify_bytes,
                run: c09_bytes,
            }),
            Box::new(SubCheck {
                name: "text",
                rule: "text over the alphabet in both cases with aliases, and text with one stranger or arbitrary characters; non-trivial: not empty.",
                quick: 600_000,
                thorough: 5_000_000,
                strategy: c32_text,
                classify: |t| class(!t.0.is_empty(), vec![if refc::c32_decode(&t.0).is_some() { "valid" } else { "invalid" }]),
                run: c09_text,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "series of byte strings that differ in little (and now and then not at all), each encoded, decoded and decoded with one character changed; non-trivial: longer than one byte.",
                quick: 60000,
                thorough: 1000000,
                strategy: || related(60),
                classify: classify_related,
                run: |r| r.each(|b, at, x| {
                    c09_bytes(&Bytes(b.clone()))?;
                    c09_text(&edited(&refc::c32_encode(&b), at, refc::C32[usize::from(x) % 32] as char))?;
                    c09_text(&Text(refc::c32_encode(&b).to_lowercase()))
                }),
            }),
        ],
        assumptions: &["the big-number reference in harness/src/refc.rs is the C32 definition"],
    }
}

// ---------------------------------------------------------------------------
// C10

fn version(v: u8) -> Version {
    match v {
        22 => Version::MainnetP2PKH,
        20 => Version::MainnetP2SH,
        26 => Version::TestnetP2PKH,
        _ => Version::TestnetP2SH,
    }
}

fn check_address_text(t: &str) -> Verdict {
    let want = refc::address_decode(t);
    let got = c32_address_decode(t.to_string()).ok();
    let w = want.map(|(h, v)| (h.to_vec(), v));
    ensure!(
        got == w,
        "c32_address_decode({t:?}) is {:?}, expected {:?}",
        got.map(|(h, v)| (refhash::hex(&h), v)),
        w.map(|(h, v)| (refhash::hex(&h), v))
    );
    let got = Address::from_str(t).ok().map(|a| (*a.hash.as_bytes(), a.version));
    ensure!(got == want, "Address::from_str({t:?}) is {got:?}, expected {want:?}");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AddrCase {
    a: Addr,
    /// Bit i changes the case of character i; bit 64+ picks aliases.
    case: u64,
}

fn c10_address(c: &AddrCase) -> Verdict {
    let want = c.a.text();
    let got = c32_address(c.a.hash, c.a.ver).map_err(|e| format!("c32_address({:?}) failed: {e}", c.a))?;
    ensure!(got == want, "c32_address({}, {}) is {got}, expected {want}", refhash::hex(&c.a.hash), c.a.ver);
    let got = c32_address(c.a.hash.to_vec(), version(c.a.ver) as u8).map_err(|e| format!("c32_address failed: {e}"))?;
    ensure!(got == want, "c32_address with Version::{:?} is {got}, expected {want}", version(c.a.ver));
    check_address_text(&want)?;
    // other spellings of the same address
    let other: String = want
        .chars()
        .enumerate()
        .map(|(i, ch)| {
            if i == 0 || c.case >> (i % 64) & 1 == 0 {
                return ch;
            }
            match ch {
                '0' => 'o',
                '1' => ['i', 'L', 'l', 'I'][i % 4],
                x => x.to_ascii_lowercase(),
            }
        })
        .collect();
    check_address_text(&other)
}

/// Text that is close to an address: one or two edits, a wrong version, a
/// hash of another length, or something else altogether.
pub fn near_address() -> BoxedStrategy<String> {
    let alphabet: Vec<char> = "0123456789ABCDEFGHJKMNPQRSTVWXYZabcdefghjkmnpqrstvwxyzOoIiLlUu- é🌾\u{212a}".chars().collect();
    let edit = (model::addr(), vec((0u8..6, any::<Index>(), any::<Index>(), select(alphabet)), 1..3)).prop_map(|(a, es)| {
        let mut v: Vec<char> = a.text().chars().collect();
        for (k, i, j, c) in es {
            if v.is_empty() {
                break;
            }
            let (x, y) = (i.index(v.len()), j.index(v.len()));
            match k {
                0 | 1 => v[x] = c,
                2 => {
                    v.remove(x);
                }
                3 => v.insert(i.index(v.len() + 1), c),
                4 => v.swap(x, y),
                _ => v.truncate(x),
            }
        }
        v.into_iter().collect::<String>()
    });
    // correct checksum, but a version outside the four or another hash length
    let wrong_version = (0u8..32, any::<[u8; 20]>()).prop_map(|(v, h)| refc::address(&h, v));
    let wrong_len = (select(vec![22u8, 26, 20, 21]), prop_oneof![vec(any::<u8>(), 0..45), vec(any::<u8>(), 18..23)]).prop_map(|(v, h)| refc::address(&h, v));
    let prefix = (model::addr(), select(vec!["", "s", "T", "SS", " S", "\u{17f}", "P"])).prop_map(|(a, p)| format!("{p}{}", &a.text()[1..]));
    // leading zeros of the body added or dropped
    let zeros = (model::addr(), 0usize..4, any::<bool>()).prop_map(|(a, n, add)| {
        let t = a.text();
        if add {
            format!("{}{}{}", &t[..2], "0".repeat(n), &t[2..])
        } else {
            let mut body = &t[2..];
            for _ in 0..n {
                body = body.strip_prefix('0').unwrap_or(body);
            }
            format!("{}{body}", &t[..2])
        }
    });
    let other_checksum = (model::addr(), select(vec![22u8, 26, 20, 21])).prop_map(|(a, v)| {
        // the version letter of another network over this one's checksum
        let t = a.text();
        format!("S{}{}", refc::C32[v as usize] as char, &t[2..])
    });
    let odd = prop_oneof![
        Just(String::new()),
        "S[0-9A-Z]{0,6}",
        "S[0-9A-HJKMNP-TV-Z]{35,45}",
        model::utf8(10),
        model::utf8(10).prop_map(|s| format!("S{s}")),
        model::utf8(10).prop_map(|s| format!("SP{s}")),
    ];
    let dressed = model::dressed(model::addr().prop_map(|a| a.text()).boxed());
    prop_oneof![6 => edit, 1 => dressed, 2 => wrong_version, 3 => wrong_len, 1 => prefix, 2 => zeros, 2 => other_checksum, 2 => odd].boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CheckCase {
    #[serde(with = "as_hex")]
    data: Vec<u8>,
    ver: u8,
}

/// c32check with every version byte and data length.
fn c10_check(c: &CheckCase) -> Verdict {
    let got = c32check_encode(&c.data, c.ver).ok();
    if c.ver >= 32 {
        ensure!(got.is_none(), "c32check_encode accepted version {}: {got:?}", c.ver);
    } else {
        let want = refc::c32check_encode(&c.data, c.ver);
        ensure!(got.as_ref() == Some(&want), "c32check_encode({}, {}) is {got:?}, expected {want:?}", refhash::hex(&c.data), c.ver);
        let back = c32check_decode(want.clone()).ok();
        ensure!(back == Some((c.data.clone(), c.ver)), "c32check_decode({want:?}) is {back:?}");
    }
    if !refc::VERSIONS.contains(&c.ver) {
        let got = c32_address(&c.data, c.ver).ok();
        ensure!(got.is_none(), "c32_address accepted version {}: {got:?}", c.ver);
    }
    Ok(())
}

fn c10_check_text(t: &Text) -> Verdict {
    let want = if t.0.is_ascii() { refc::c32check_decode(&t.0) } else { None };
    let got = c32check_decode(t.0.clone()).ok();
    ensure!(got == want, "c32check_decode({:?}) is {got:?}, expected {want:?}", t.0);
    Ok(())
}

pub fn c10() -> Property {
    Property {
        id: "C10",
        subs: vec![
            Box::new(SubCheck {
                name: "addresses",
                rule: "hashes with leading zeros and extreme bytes in the four versions, encoded, decoded and respelled in other letter cases and aliases; non-trivial: hash not all zero.",
                quick: 480_000,
                thorough: 4_000_000,
                strategy: || (model::addr(), any::<u64>()).prop_map(|(a, case)| AddrCase { a, case }).boxed(),
                classify: |c| class(c.a.hash != [0; 20], vec![if c.a.hash[0] == 0 { "leading-zero" } else { "plain" }]),
                run: c10_address,
            }),
            Box::new(SubCheck {
                name: "near-addresses",
                rule: "address text with one or two edits, other versions, other hash lengths, other prefixes, odd text; non-trivial: at least 6 characters.",
                quick: 720_000,
                thorough: 6_000_000,
                strategy: || near_address().prop_map(Text).boxed(),
                classify: |t| class(t.0.chars().count() > 5, vec![if refc::address_decode(&t.0).is_some() { "valid" } else { "invalid" }]),
                run: |t| check_address_text(&t.0),
            }),
            Box::new(SubCheck {
                name: "c32check",
                rule: "any data of 0-60 bytes under any version byte; non-trivial: version below 32.",
                quick: 360_000,
                thorough: 3_000_000,
                strategy: || {
                    (model::bytes(60), prop_oneof![4 => 0u8..32, 2 => any::<u8>(), 1 => 30u8..36])
                        .prop_map(|(data, ver)| CheckCase { data, ver })
                        .boxed()
                },
                classify: |c| class(c.ver < 32, vec![if c.ver < 32 { "version<32" } else { "version>=32" }]),
                run: c10_check,
            }),
            Box::new(SubCheck {
                name: "c32check-text",
                rule: "near-address text without its first letter, and c32 text; non-trivial: not empty.",
                quick: 360_000,
                thorough: 3_000_000,
                strategy: || {
                    prop_oneof![
                        near_address().prop_map(|s| Text(s.chars().skip(1).collect())),
                        c32_text(),
                        Just(Text(String::new())),
                    ]
                    .boxed()
                },
                classify: |t| class(!t.0.is_empty(), vec![]),
                run: c10_check_text,
            }),
            Box::new(SubCheck {
                name: "corrupt",
                rule: "c32check text whose bytes (any of payload and checksum, singly or together) were changed before writing as text, or whose checksum is of another kind (reversed, last bytes, single hash, zero, without version); non-trivial: all.",
                quick: 360_000,
                thorough: 3_000_000,
                strategy: corrupt,
                classify: classify_corrupt,
                run: c10_corrupt,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "series of byte strings that differ in little (and now and then not at all), each written as an address, decoded, and decoded with another version or one character changed; non-trivial: longer than one byte.",
                quick: 40000,
                thorough: 800000,
                strategy: || related(40),
                classify: classify_related,
                run: |r| r.each(|b, at, x| {
                    let mut hash = [0u8; 20];
                    let n = b.len().min(20);
                    hash[20 - n..].copy_from_slice(&b[..n]);
                    let a = Addr { ver: refc::VERSIONS[usize::from(x) % 4], hash };
                    c10_address(&AddrCase { a, case: u64::from(at) })?;
                    check_address_text(&edited(&a.text(), at, refc::C32[usize::from(x) % 32] as char).0)?;
                    c10_check(&CheckCase { data: b, ver: x % 34 })
                }),
            }),
        ],
        assumptions: &["the address prefix is the capital letter S; the other characters may be in either case"],
    }
}

// ---------------------------------------------------------------------------
// C11

fn c11_bytes(b: &Bytes) -> Verdict {
    let want = refc::b58_encode(&b.0);
    let got = b58_encode(&b.0);
    ensure!(got == want, "b58_encode({}) is {got:?}, expected {want:?}", short(&b.0));
    let back = b58_decode(want.clone()).map_err(|e| format!("b58_decode({want:?}) failed: {e}"))?;
    ensure!(back == b.0, "b58_decode({want:?}) is {}, expected {}", short(&back), short(&b.0));
    Ok(())
}

fn c11_check(c: &CheckCase) -> Verdict {
    let want = refc::b58check_encode(&c.data, c.ver);
    let got = base58check_encode(&c.data, c.ver);
    ensure!(got == want, "base58check_encode({}, {}) is {got:?}, expected {want:?}", refhash::hex(&c.data), c.ver);
    let back = base58check_decode(want.clone()).map_err(|e| format!("base58check_decode({want:?}) failed: {e}"))?;
    ensure!(back == (c.data.clone(), c.ver), "base58check_decode({want:?}) is {back:?}");
    Ok(())
}

/// Checked bytes with some of them changed, in text form.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Corrupt {
    #[serde(with = "as_hex")]
    data: Vec<u8>,
    ver: u8,
    /// Byte to change, counted from the end (0-3 are the checksum), and the difference.
    flips: Vec<(usize, u8)>,
    how: u8,
}

fn corrupt() -> BoxedStrategy<Corrupt> {
    let delta = || prop_oneof![3 => (0u8..8).prop_map(|b| 1 << b), 1 => 1u8..=255];
    let at = || prop_oneof![2 => 0usize..4, 1 => 0usize..64];
    (
        prop_oneof![4 => vec(any::<u8>(), 20), 2 => model::bytes(60), 1 => vec(any::<u8>(), 0..6)],
        prop_oneof![2 => select(vec![0u8, 5, 111, 196, 22, 20, 26, 21]), 1 => any::<u8>()],
        prop_oneof![
            4 => vec((at(), delta()), 1..=1),
            2 => vec((at(), delta()), 2..=3),
            // every checksum byte
            1 => delta().prop_map(|d| (0..4).map(|i| (i, d)).collect::<Vec<_>>()),
            // all but one
            1 => (0usize..4, delta()).prop_map(|(k, d)| (0..4).filter(|i| *i != k).map(|i| (i, d)).collect::<Vec<_>>()),
        ],
        0u8..8,
    )
        .prop_map(|(data, ver, flips, how)| Corrupt { data, ver, flips, how })
        .boxed()
}

/// The checksum bytes a wrong implementation might use instead.
fn wrong_sum(how: u8, full: &[u8], right: &[u8; 32]) -> Option<[u8; 4]> {
    let one = refhash::sha256(full);
    Some(match how {
        1 => [right[3], right[2], right[1], right[0]],
        2 => right[28..32].try_into().unwrap(),
        3 => one[..4].try_into().unwrap(),
        4 => [0; 4],
        5 => refhash::dsha256(&full[1..])[..4].try_into().unwrap(),
        _ => return None,
    })
}

fn broken_bytes(c: &Corrupt, prefix: &[u8], sum_of: &[u8]) -> Vec<u8> {
    let right = refhash::dsha256(sum_of);
    let mut b = prefix.to_vec();
    match wrong_sum(c.how, sum_of, &right) {
        Some(s) => b.extend_from_slice(&s),
        None => {
            b.extend_from_slice(&right[..4]);
            for (at, d) in &c.flips {
                let n = b.len();
                b[n - 1 - at % n] ^= d;
            }
        }
    }
    b
}

fn c11_corrupt(c: &Corrupt) -> Verdict {
    let mut full = vec![c.ver];
    full.extend_from_slice(&c.data);
    let bad = broken_bytes(c, &full, &full);
    c11_text(&Text(refc::b58_encode(&bad)))
}

fn c10_corrupt(c: &Corrupt) -> Verdict {
    // c32check: the checksum covers version and data, the text holds data and checksum
    let ver = c.ver % 32;
    let mut full = vec![ver];
    full.extend_from_slice(&c.data);
    let bad = broken_bytes(c, &c.data, &full);
    let t = format!("{}{}", refc::C32[ver as usize] as char, refc::c32_encode(&bad));
    c10_check_text(&Text(t.clone()))?;
    check_address_text(&format!("S{t}"))
}

fn classify_corrupt(c: &Corrupt) -> Class {
    class(true, vec![if matches!(c.how, 1..=5) { "wrong-kind-of-checksum" } else { "bytes-changed" }, if c.data.len() == 20 { "20-bytes" } else { "other-length" }])
}

fn b58_text() -> BoxedStrategy<Text> {
    let good = select(refc::B58.iter().map(|b| *b as char).collect::<Vec<_>>());
    let bad = prop_oneof![
        3 => select("0OIl-_ +/\u{0}\u{7f}@[`{:".chars().collect::<Vec<_>>()),
        3 => select(vec!['\u{80}', 'é', '\u{ff}', '\u{100}', '\u{131}', '\u{139}', '０', '🌾', '\u{10ffff}']),
        1 => any::<char>(),
    ];
    let near = (vec(any::<u8>(), 0..30), any::<u8>(), vec((0u8..4, any::<Index>(), good.clone()), 0..3)).prop_map(|(d, v, es)| {
        let mut t: Vec<char> = refc::b58check_encode(&d, v).chars().collect();
        for (k, i, c) in es {
            if t.is_empty() {
                break;
            }
            let x = i.index(t.len());
            match k {
                0 => t[x] = c,
                1 => {
                    t.remove(x);
                }
                2 => t.insert(x, c),
                _ => t.truncate(x),
            }
        }
        t.into_iter().collect::<String>()
    });
    // valid checksums over fewer bytes than a version needs
    let short = vec(any::<u8>(), 0..6).prop_map(|b| refc::b58_encode(&b));
    let no_version = Just({
        let c = refhash::dsha256(&[]);
        refc::b58_encode(&c[..4])
    });
    prop_oneof![
        3 => vec(good.clone(), 0..40).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (model::edge_sizes(1500), any::<u64>(), prop_oneof![2 => Just(None), 1 => (any::<Index>(), select(vec!['U', ' ', 'é', '0', '-'])).prop_map(Some)]).prop_map(|(n, s, bad)| {
            let set: Vec<char> = "123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz".chars().collect();
            let mut t: Vec<char> = model::stretch(n, s).into_iter().map(|b| set[usize::from(b) % set.len()]).collect();
            if let Some((i, c)) = bad {
                t.insert(i.index(n + 1), c);
            }
            t.into_iter().collect()
        }),
        2 => (0usize..9, vec(good.clone(), 0..6)).prop_map(|(z, v)| "1".repeat(z) + &v.into_iter().collect::<String>()),
        3 => (vec(good, 0..20), bad, any::<Index>()).prop_map(|(mut v, c, i)| { let k = i.index(v.len() + 1); v.insert(k, c); v.into_iter().collect() }),
        4 => near.clone(),
        1 => model::dressed(near.boxed()),
        1 => model::dressed(vec(any::<u8>(), 0..30).prop_map(|b| refc::b58check_encode(&b, 0)).boxed()),
        2 => short,
        1 => no_version,
        1 => model::utf8(12),
    ]
    .prop_map(Text)
    .boxed()
}

fn c11_text(t: &Text) -> Verdict {
    let want = refc::b58_decode(&t.0);
    let got = b58_decode(t.0.clone()).ok();
    ensure!(got == want, "b58_decode({:?}) is {:?}, expected {:?}", t.0, got.map(|b| refhash::hex(&b)), want.map(|b| refhash::hex(&b)));
    let want = refc::b58check_decode(&t.0);
    let got = base58check_decode(t.0.clone()).ok();
    ensure!(got == want, "base58check_decode({:?}) is {got:?}, expected {want:?}", t.0);
    Ok(())
}

pub fn c11() -> Property {
    Property {
        id: "C11",
        subs: vec![
            Box::new(SubCheck {
                name: "long",
                rule: "byte strings of up to 2100 bytes, sizes around the powers of two, some with leading zeros; non-trivial: longer than one byte.",
                quick: 3_000,
                thorough: 60_000,
                strategy: || {
                    (model::edge_sizes(2100), any::<u64>(), prop_oneof![2 => Just(0usize), 1 => 0usize..200])
                        .prop_map(|(n, s, z)| {
                            let mut b = model::stretch(n, s);
                            let z = z.min(n);
                            b[..z].fill(0);
                            Bytes(b)
                        })
                        .boxed()
                },
                classify: classify_bytes,
                run: c11_bytes,
            }),
            Box::new(SubCheck {
                name: "bytes",
                rule: "byte strings of 0-120 bytes (one in eight up to 400), with all-zero, leading-zero, patterned and extreme ones; non-trivial: longer than one byte.",
                quick: 480_000,
                thorough: 4_000_000,
                strategy: || prop_oneof![14 => bytes_cases(120), 1 => patterned(400).prop_map(Bytes), 1 => bytes_cases(300)].boxed(),
                classify: classify_bytes,
                run: c11_bytes,
            }),
            Box::new(SubCheck {
                name: "check",
                rule: "payloads of 0-60 bytes under any version byte; non-trivial: payload not empty.",
                quick: 300_000,
                thorough: 2_500_000,
                strategy: || (model::bytes(60), prop_oneof![select(vec![0u8, 5, 111, 196]), any::<u8>()]).prop_map(|(data, ver)| CheckCase { data, ver }).boxed(),
                classify: |c| class(!c.data.is_empty(), vec![if c.ver == 0 { "version-0" } else { "version>0" }]),
                run: c11_check,
            }),
            Box::new(SubCheck {
                name: "text",
                rule: "alphabet text, edited Base58Check text, too-short text and text with strangers; non-trivial: not empty.",
                quick: 600_000,
                thorough: 5_000_000,
                strategy: b58_text,
                classify: |t| {
                    class(
                        !t.0.is_empty(),
                        vec![
                            if refc::b58_decode(&t.0).is_some() { "b58-valid" } else { "b58-invalid" },
                            if refc::b58check_decode(&t.0).is_some() { "check-valid" } else { "check-invalid" },
                        ],
                    )
                },
                run: c11_text,
            }),
            Box::new(SubCheck {
                name: "corrupt",
                rule: "Base58Check text whose bytes (any of payload and checksum, singly or together) were changed before writing as text, or whose checksum is of another kind (reversed, last bytes, single hash, zero, without version); non-trivial: all.",
                quick: 360_000,
                thorough: 3_000_000,
                strategy: corrupt,
                classify: classify_corrupt,
                run: c11_corrupt,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "series of byte strings that differ in little (and now and then not at all), each encoded and decoded with and without checksum, and with one character changed; non-trivial: longer than one byte.",
                quick: 40000,
                thorough: 800000,
                strategy: || related(60),
                classify: classify_related,
                run: |r| r.each(|b, at, x| {
                    c11_bytes(&Bytes(b.clone()))?;
                    c11_check(&CheckCase { data: b.clone(), ver: [0u8, 5, 111, 196][usize::from(x) % 4] })?;
                    let c = refc::B58[usize::from(x) % 58] as char;
                    c11_text(&edited(&refc::b58check_encode(&b, x), at, c))?;
                    c11_text(&edited(&refc::b58_encode(&b), at, c))
                }),
            }),
        ],
        assumptions: &["the big-number reference in harness/src/refc.rs is the Bitcoin Base58 definition"],
    }
}

// ---------------------------------------------------------------------------
// C12

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HexCase {
    #[serde(with = "as_hex")]
    b: Vec<u8>,
    case: u64,
}

fn c12_bytes(c: &HexCase) -> Verdict {
    let want = refhash::hex(&c.b);
    let got = bytes_to_hex(&c.b);
    ensure!(got == want, "bytes_to_hex gave {got}, expected {want}");
    let mixed: String =
        want.chars().enumerate().map(|(i, x)| if c.case >> (i % 64) & 1 == 1 { x.to_ascii_uppercase() } else { x }).collect();
    for t in [&want, &mixed, &want.to_uppercase()] {
        let back = hex_to_bytes(t.clone()).map_err(|e| format!("hex_to_bytes({t:?}) failed: {e}"))?;
        ensure!(back == c.b, "hex_to_bytes({t:?}) is {}, expected {want}", refhash::hex(&back));
        let it: Vec<u8> = HexIterator::new(t)
            .and_then(Iterator::collect)
            .map_err(|e| format!("HexIterator({t:?}) failed: {e}"))?;
        ensure!(it == c.b, "HexIterator({t:?}) gave {}, expected {want}", refhash::hex(&it));
    }
    Ok(())
}

fn hex_text() -> BoxedStrategy<Text> {
    let digit = select("0123456789abcdefABCDEF".chars().collect::<Vec<_>>());
    let bad = prop_oneof![
        4 => select("gG/:@`xX -+\u{0}\n".chars().collect::<Vec<_>>()),
        2 => select(vec!['é', 'ａ', '０', '\u{100}', '🌾', '\u{ff}', '\u{660}']),
        1 => any::<char>(),
    ];
    prop_oneof![
        3 => vec(digit.clone(), 0..40).prop_map(|v| v.into_iter().collect::<String>()),
        1 => (model::edge_sizes(1500), any::<u64>(), prop_oneof![2 => Just(None), 1 => (any::<Index>(), select(vec!['U', ' ', 'é', '0', '-'])).prop_map(Some)]).prop_map(|(n, s, bad)| {
            let set: Vec<char> = "0123456789abcdefABCDEF".chars().collect();
            let mut t: Vec<char> = model::stretch(n, s).into_iter().map(|b| set[usize::from(b) % set.len()]).collect();
            if let Some((i, c)) = bad {
                t.insert(i.index(n + 1), c);
            }
            t.into_iter().collect()
        }),
        4 => (vec(digit.clone(), 0..20), bad.clone(), any::<Index>()).prop_map(|(mut v, c, i)| { let k = i.index(v.len() + 1); v.insert(k, c); v.into_iter().collect() }),
        1 => (vec(digit.clone(), 0..20), bad.clone(), bad).prop_map(|(mut v, c, d)| { v.push(c); v.push(d); v.into_iter().collect() }),
        1 => model::dressed("([0-9a-fA-F]{2}){0,12}".boxed()),
        1 => vec(digit, 0..10).prop_map(|v| "0x".to_string() + &v.into_iter().collect::<String>()),
        1 => model::utf8(8),
    ]
    .prop_map(Text)
    .boxed()
}

fn c12_text(t: &Text) -> Verdict {
    let want = refhash::unhex(&t.0);
    let got = hex_to_bytes(t.0.clone()).ok();
    ensure!(got == want, "hex_to_bytes({:?}) is {got:?}, expected {want:?}", t.0);
    let it: Option<Vec<u8>> = HexIterator::new(&t.0).and_then(Iterator::collect).ok();
    ensure!(it == want, "HexIterator({:?}) gave {it:?}, expected {want:?}", t.0);
    Ok(())
}

pub fn c12() -> Property {
    Property {
        id: "C12",
        subs: vec![
            Box::new(SubCheck {
                name: "bytes",
                rule: "byte strings of 0-9000 bytes, converted both ways in mixed letter case; non-trivial: not empty.",
                quick: 480_000,
                thorough: 4_000_000,
                strategy: || (prop_oneof![20 => model::bytes(200), 1 => (model::edge_sizes(9000), any::<u64>()).prop_map(|(n, s)| model::stretch(n, s))], any::<u64>()).prop_map(|(b, case)| HexCase { b, case }).boxed(),
                classify: |c| class(!c.b.is_empty(), vec![]),
                run: c12_bytes,
            }),
            Box::new(SubCheck {
                name: "every-pair",
                rule: "every two-character text over the first 256 code points in generated order; non-trivial: all.",
                quick: 480_000,
                thorough: 1_000_000,
                strategy: || any::<(u8, u8)>().prop_map(|(a, b)| Text([a as char, b as char].iter().collect())).boxed(),
                classify: |t| class(true, vec![if refhash::unhex(&t.0).is_some() { "valid" } else { "invalid" }]),
                run: c12_text,
            }),
            Box::new(SubCheck {
                name: "text",
                rule: "hex text of any length, with strangers at any place, prefixes and arbitrary text; non-trivial: not empty.",
                quick: 600_000,
                thorough: 5_000_000,
                strategy: hex_text,
                classify: |t| class(!t.0.is_empty(), vec![if refhash::unhex(&t.0).is_some() { "valid" } else { "invalid" }]),
                run: c12_text,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "series of byte strings that differ in little (and now and then not at all), each converted both ways, and back with one character changed; non-trivial: longer than one byte.",
                quick: 60000,
                thorough: 1000000,
                strategy: || related(60),
                classify: classify_related,
                run: |r| r.each(|b, at, x| {
                    c12_text(&edited(&refhash::hex(&b), at, b"0123456789abcdefABCDEFgx "[usize::from(x) % 25] as char))?;
                    c12_bytes(&HexCase { b, case: u64::from(at) << 20 | u64::from(x) })
                }),
            }),
        ],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------
// C13

macro_rules! container {
    ($t:ty, $bytes:expr) => {{
        let b = $bytes;
        let h = <$t>::from(b);
        ensure!(h.as_bytes() == &b, "{}::as_bytes differs", stringify!($t));
        ensure!(h.into_bytes() == b, "{}::into_bytes differs", stringify!($t));
        ensure!(h.hex() == refhash::hex(&b), "{}::hex is {}, expected {}", stringify!($t), h.hex(), refhash::hex(&b));
        let v: Vec<u8> = h.into();
        ensure!(v == b, "{} into Vec differs", stringify!($t));
        let r: &[u8] = h.as_ref();
        ensure!(r == b, "{} as_ref differs", stringify!($t));
        let r: &[u8; std::mem::size_of::<$t>()] = h.as_ref();
        ensure!(r == &b, "{} as_ref to an array differs", stringify!($t));
        let mut m = h;
        let s: &mut [u8; std::mem::size_of::<$t>()] = m.as_mut();
        ensure!(s == &b, "{} as_mut to an array differs", stringify!($t));
        ensure!(<$t>::default().as_bytes().iter().all(|b| *b == 0), "{} default is not zero", stringify!($t));
        let s: &mut [u8] = m.as_mut();
        s[0] ^= 1;
        ensure!(m != h && m.as_bytes()[0] == b[0] ^ 1 && h.as_bytes() == &b, "{} as_mut differs", stringify!($t));
    }};
}

fn c13_digest(b: &Bytes) -> Verdict {
    let m = &b.0;
    let s = refhash::sha256(m);
    let d = refhash::dsha256(m);
    let x = refhash::sha512_256(m);
    let r = refhash::hash160(m);
    ensure!(*Sha256Hash::from_slice(m).as_bytes() == s, "SHA-256 of {} differs", short(m));
    ensure!(*DSha256Hash::from_slice(m).as_bytes() == d, "double SHA-256 of {} differs", short(m));
    ensure!(*Sha512_256Hash::from_slice(m).as_bytes() == x, "SHA-512/256 of {} differs", short(m));
    ensure!(*SignatureHash::from_slice(m).as_bytes() == x, "signature hash of {} is not SHA-512/256", short(m));
    ensure!(*Hash160::from_slice(m).as_bytes() == r, "Hash160 of {} differs", short(m));
    ensure!(Sha256Hash::from_slice(m).checksum() == s[..4], "SHA-256 checksum differs");
    ensure!(DSha256Hash::from_slice(m).checksum() == d[..4], "double SHA-256 checksum differs");
    ensure!(Sha512_256Hash::from_slice(m).checksum() == x[..4], "SHA-512/256 checksum differs");
    ensure!(Hash160::from_slice(m).checksum() == r[..4], "Hash160 checksum differs");
    ensure!(*hash_p2pkh(m).as_bytes() == txmodel::ref_p2pkh(m), "P2PKH hash of {} differs", short(m));
    ensure!(*hash_p2wpkh(m).as_bytes() == txmodel::ref_p2wpkh(m), "P2WPKH hash of {} differs", short(m));
    container!(Sha256Hash, s);
    container!(DSha256Hash, d);
    container!(Sha512_256Hash, x);
    container!(SignatureHash, x);
    container!(Hash160, r);
    ensure!(*Hash160::new(r).as_bytes() == r, "Hash160::new differs");
    ensure!(*Hash160::new(r.to_vec()).as_bytes() == r, "Hash160::new differs");
    let mut sig = [0u8; 65];
    sig[..32].copy_from_slice(&s);
    sig[32..64].copy_from_slice(&x);
    sig[64] = r[0];
    container!(MessageSignature, sig);
    // contents of one byte, or with runs at either end, in place of a digest
    for fill in [0u8, 0xff, r[0]] {
        let keep = usize::from(r[1]) % 33;
        let mut head = [fill; 32];
        head[..keep].copy_from_slice(&s[..keep]);
        let mut tail = [fill; 32];
        tail[keep..].copy_from_slice(&s[keep..]);
        for e in [[fill; 32], head, tail] {
            container!(Sha256Hash, e);
            container!(DSha256Hash, e);
            container!(Sha512_256Hash, e);
            container!(SignatureHash, e);
            let mut h = [fill; 20];
            h.copy_from_slice(&e[6..26]);
            container!(Hash160, h);
            ensure!(*Hash160::new(h).as_bytes() == h, "Hash160::new differs");
            let mut g = [fill; 65];
            g[..32].copy_from_slice(&e);
            container!(MessageSignature, g);
            g.reverse();
            container!(MessageSignature, g);
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Scripts {
    keys: Vec<Key>,
    required: u8,
}

fn c13_scripts(c: &Scripts) -> Verdict {
    let pks: Vec<PublicKey> = c.keys.iter().map(Key::public).collect();
    let (m, n) = (c.required, pks.len());
    let got = hash_p2sh(m, &pks);
    ensure!(*got.as_bytes() == txmodel::ref_p2sh(m, &pks), "P2SH {m}-of-{n} hash is {}", got.hex());
    let got = hash_p2wsh(m, &pks);
    ensure!(*got.as_bytes() == txmodel::ref_p2wsh(m, &pks), "P2WSH {m}-of-{n} hash is {}", got.hex());
    let one = pks[0].serialize();
    ensure!(*hash_p2pkh(&one).as_bytes() == txmodel::ref_p2pkh(&one), "P2PKH hash differs");
    ensure!(*hash_p2wpkh(&one).as_bytes() == txmodel::ref_p2wpkh(&one), "P2WPKH hash differs");
    Ok(())
}

pub fn c13() -> Property {
    Property {
        id: "C13",
        subs: vec![
            Box::new(SubCheck {
                name: "digests",
                rule: "messages of 0-9000 bytes, with the lengths around the 64- and 128-byte blocks over-represented; non-trivial: longer than one byte.",
                quick: 160_000,
                thorough: 2_000_000,
                strategy: || {
                    prop_oneof![
                        3 => model::bytes(80),
                        1 => model::bytes(400),
                        1 => (model::edge_sizes(9000), any::<u64>()).prop_map(|(n, s)| model::stretch(n, s)),
                        2 => (select(vec![33usize, 54, 55, 56, 57, 63, 64, 65, 110, 111, 112, 113, 119, 120, 127, 128, 129, 191, 192, 239, 240, 255, 256, 257]), any::<u8>(), any::<u64>())
                            .prop_map(|(n, a, s)| (0..n).map(|i| a.wrapping_add((i as u8).wrapping_mul(s as u8)) ^ (s >> (i % 57)) as u8).collect()),
                    ]
                    .prop_map(Bytes)
                    .boxed()
                },
                classify: classify_bytes,
                run: c13_digest,
            }),
            Box::new(SubCheck {
                name: "scripts",
                rule: "1 to 16 public keys with 1 <= m <= n, repeated keys included; non-trivial: more than one key.",
                quick: 48_000,
                thorough: 500_000,
                strategy: || {
                    (prop_oneof![6 => vec(txmodel::key(), 1..=16), 1 => vec(txmodel::key(), 16..=16)], any::<u8>(), any::<bool>())
                        .prop_map(|(mut keys, r, dup)| {
                            if dup && keys.len() > 1 {
                                keys[0] = keys[keys.len() - 1];
                            }
                            let required = r % keys.len() as u8 + 1;
                            Scripts { keys, required }
                        })
                        .boxed()
                },
                classify: |c| class(c.keys.len() > 1, vec![if c.required as usize == c.keys.len() { "m=n" } else { "m<n" }]),
                run: c13_scripts,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "series of byte strings that differ in little (and now and then not at all), each hashed in every way; non-trivial: longer than one byte.",
                quick: 10000,
                thorough: 200000,
                strategy: || related(140),
                classify: classify_related,
                run: |r| r.each(|b, _, _| c13_digest(&Bytes(b))),
            }),
        ],
        assumptions: &[
            "the reference digests in harness/src/refhash.rs (self-tested on published vectors at every start) are the standard ones",
            "public keys are serialized by the secp256k1 crate",
        ],
    }
}
