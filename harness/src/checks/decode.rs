//! C03: decoders are total and exact on arbitrary bytes.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::{decode_clarity_type, Codec, FnArguments, LengthPrefixedStr};

use crate::alloc::measured;
use crate::checks::clarity::{enc_args, short, typed_decode};
use crate::ensure;
use crate::model::{self, as_hex, Reader, V};
use crate::runner::{class, no_panic, Class, Property, SubCheck, Verdict};

/// Decoders: 0..=14 by type byte, then the generic one, names, arguments.
const GENERIC: u8 = 15;
const NAME: u8 = 16;
const ARGS: u8 = 17;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wire {
    /// 255 lets the first byte choose the typed decoder.
    pub decoder: u8,
    #[serde(with = "as_hex")]
    pub bytes: Vec<u8>,
}

/// One change to a byte string.
#[derive(Clone, Debug)]
pub enum Mutation {
    Truncate(Index),
    Flip(Index, u8),
    Set(Index, u8),
    Insert(Index, u8),
    Delete(Index),
    /// Overwrite four bytes with a big-endian number.
    Len(Index, u32),
    Dup(Index, Index),
    Append(Vec<u8>),
}

pub fn mutation() -> BoxedStrategy<Mutation> {
    let special = select(vec![0u8, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 13, 14, 15, 20, 21, 22, 26, 127, 128, 129, 200, 254, 255]);
    let lens = prop_oneof![
        select(vec![0u32, 1, 2, 3, 127, 128, 129, 255, 256, 65535, 65536, 0x00ff_ffff, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff]),
        any::<u32>(),
        0u32..40,
    ];
    prop_oneof![
        3 => any::<Index>().prop_map(Mutation::Truncate),
        2 => (any::<Index>(), 0u8..8).prop_map(|(i, b)| Mutation::Flip(i, 1 << b)),
        3 => (any::<Index>(), special).prop_map(|(i, b)| Mutation::Set(i, b)),
        1 => (any::<Index>(), any::<u8>()).prop_map(|(i, b)| Mutation::Insert(i, b)),
        1 => any::<Index>().prop_map(Mutation::Delete),
        3 => (any::<Index>(), lens).prop_map(|(i, n)| Mutation::Len(i, n)),
        1 => (any::<Index>(), any::<Index>()).prop_map(|(a, b)| Mutation::Dup(a, b)),
        1 => vec(any::<u8>(), 1..12).prop_map(Mutation::Append),
    ]
    .boxed()
}

pub fn mutate(mut b: Vec<u8>, ms: &[Mutation]) -> Vec<u8> {
    for m in ms {
        match m {
            Mutation::Append(t) => b.extend_from_slice(t),
            Mutation::Insert(i, x) => {
                let k = i.index(b.len() + 1);
                b.insert(k, *x);
            }
            _ if b.is_empty() => {}
            Mutation::Truncate(i) => b.truncate(i.index(b.len())),
            Mutation::Flip(i, m) => {
                let k = i.index(b.len());
                b[k] ^= m;
            }
            Mutation::Set(i, x) => {
                let k = i.index(b.len());
                b[k] = *x;
            }
            Mutation::Delete(i) => {
                let k = i.index(b.len());
                b.remove(k);
            }
            Mutation::Len(i, n) => {
                let k = i.index(b.len());
                for (j, x) in n.to_be_bytes().iter().enumerate() {
                    if k + j < b.len() {
                        b[k + j] = *x;
                    }
                }
            }
            Mutation::Dup(i, j) => {
                let (a, c) = (i.index(b.len()), j.index(b.len()));
                let (a, c) = (a.min(c), a.max(c));
                let part = b[a..=c].to_vec();
                b.splice(a..a, part);
            }
        }
    }
    b
}

fn decoder() -> BoxedStrategy<u8> {
    prop_oneof![4 => Just(GENERIC), 4 => Just(255u8), 2 => 0u8..15, 1 => Just(NAME), 1 => Just(ARGS)].boxed()
}

fn mutated() -> BoxedStrategy<Wire> {
    let base = prop_oneof![
        4 => model::value().prop_map(|v| v.enc().unwrap()),
        2 => model::leaf().prop_map(|v| v.enc().unwrap()),
        1 => model::value().prop_map(|v| v.enc_unsorted().unwrap()),
        1 => model::args(3).prop_map(|a| enc_args(&a).unwrap()),
    ];
    (decoder(), base, vec(mutation(), 0..3))
        .prop_map(|(decoder, b, ms)| Wire { decoder, bytes: mutate(b, &ms) })
        .boxed()
}

fn names_and_args() -> BoxedStrategy<Wire> {
    let name = (any::<u8>(), prop_oneof![vec(any::<u8>(), 0..140), model::utf8(60).prop_map(String::into_bytes)], any::<bool>())
        .prop_map(|(n, body, honest)| {
            let mut b = vec![if honest { body.len().min(255) as u8 } else { n }];
            b.extend(body);
            Wire { decoder: NAME, bytes: b }
        });
    let args = (model::args(3), vec(mutation(), 0..3))
        .prop_map(|(a, ms)| Wire { decoder: ARGS, bytes: mutate(enc_args(&a).unwrap(), &ms) });
    prop_oneof![2 => name, 3 => args].boxed()
}

/// Concatenations of plausible fragments.
fn fragments() -> BoxedStrategy<Wire> {
    let frag = prop_oneof![
        4 => (0u8..16).prop_map(|b| vec![b]),
        3 => (0u32..5).prop_map(|n| n.to_be_bytes().to_vec()),
        1 => any::<u32>().prop_map(|n| n.to_be_bytes().to_vec()),
        2 => (select(vec![22u8, 26, 20, 21, 0, 31, 255]), any::<[u8; 20]>()).prop_map(|(v, h)| { let mut b = vec![v]; b.extend(h); b }),
        2 => model::name().prop_map(|n| model::enc_name(&n).unwrap()),
        2 => model::leaf().prop_map(|v| v.enc().unwrap()),
        1 => vec(any::<u8>(), 0..20),
    ];
    (decoder(), vec(frag, 0..10)).prop_map(|(decoder, f)| Wire { decoder, bytes: f.concat() }).boxed()
}

/// A name field whose length byte tells the truth, though the name may be too long or not text.
pub fn raw_name() -> BoxedStrategy<Vec<u8>> {
    let body = prop_oneof![
        8 => model::name().prop_map(String::into_bytes),
        2 => (select(vec![1usize, 126, 127, 128, 129, 130, 160, 192, 254, 255]), any::<u64>())
            .prop_map(|(n, s)| model::stretch(n, s).into_iter().map(|b| b'a' + b % 26).collect()),
        1 => (120usize..256, any::<u64>()).prop_map(|(n, s)| model::stretch(n, s).into_iter().map(|b| b & 0x7f).collect()),
        1 => (30usize..85).prop_map(|n| "\u{20ac}".repeat(n).into_bytes()),
        1 => raw_utf8(40),
    ];
    body.prop_map(|mut b| {
        b.truncate(255);
        b.insert(0, b.len() as u8);
        b
    })
    .boxed()
}

/// Text bytes that may or may not be valid UTF-8.
fn raw_utf8(max: usize) -> BoxedStrategy<Vec<u8>> {
    let odd = select(vec![
        vec![0xc0u8, 0x80], vec![0xc1, 0xbf], vec![0xe0, 0x80, 0x80], vec![0xe0, 0x9f, 0xbf], vec![0xed, 0xa0, 0x80], vec![0xed, 0xbf, 0xbf],
        vec![0xf0, 0x80, 0x80, 0x80], vec![0xf4, 0x90, 0x80, 0x80], vec![0xf5, 0x80, 0x80, 0x80], vec![0xff], vec![0xfe], vec![0x80], vec![0xbf],
        vec![0xe2, 0x82], vec![0xf0, 0x9f, 0x98], vec![0xc3], vec![0xef, 0xbb, 0xbf], vec![0xef, 0xbf, 0xbf], vec![0xf4, 0x8f, 0xbf, 0xbf], vec![0],
    ]);
    prop_oneof![
        3 => model::utf8(max).prop_map(String::into_bytes),
        2 => (model::utf8(max), odd, any::<Index>(), any::<bool>()).prop_map(|(s, odd, i, end)| {
            // on a character boundary, so that only the inserted bytes are in question
            let mut at = i.index(s.len() + 1);
            while !s.is_char_boundary(at) {
                at -= 1;
            }
            let mut b = s.into_bytes();
            let at = if end { b.len() } else { at };
            b.splice(at..at, odd);
            b
        }),
        1 => vec(any::<u8>(), 0..max),
    ]
    .boxed()
}

/// Complete encodings (every length and count is honest) with contents that may be ill-formed.
pub fn raw_value() -> BoxedStrategy<Vec<u8>> {
    let sized = |t: u8, b: Vec<u8>| {
        let mut out = vec![t];
        out.extend_from_slice(&(b.len() as u32).to_be_bytes());
        out.extend(b);
        out
    };
    let addr = || {
        (prop_oneof![12 => select(vec![22u8, 20, 26, 21]), 1 => any::<u8>(), 1 => select(vec![54u8, 58, 52, 53, 148, 150, 0, 23, 31])], any::<[u8; 20]>())
            .prop_map(|(v, h)| [vec![v], h.to_vec()].concat())
    };
    let ascii = prop_oneof![
        3 => model::ascii(30).prop_map(String::into_bytes),
        1 => (model::ascii(30), any::<Index>(), 0x80u8..).prop_map(|(s, i, x)| { let mut b = s.into_bytes(); let at = i.index(b.len() + 1); b.insert(at, x); b }),
        1 => raw_utf8(20),
    ];
    let leaf = prop_oneof![
        3 => model::leaf().prop_map(|v| v.enc().unwrap()),
        1 => addr().prop_map(|a| [vec![5], a].concat()),
        2 => (addr(), raw_name()).prop_map(|(a, n)| [vec![6], a, n].concat()),
        1 => ascii.prop_map(move |b| sized(13, b)),
        1 => raw_utf8(30).prop_map(move |b| sized(14, b)),
        1 => (15u8..).prop_map(|t| vec![t]),
    ];
    leaf.prop_recursive(5, 24, 4, |inner| {
        let count = |t: u8, n: usize| [vec![t], (n as u32).to_be_bytes().to_vec()].concat();
        prop_oneof![
            3 => (select(vec![7u8, 8, 10]), inner.clone()).prop_map(|(t, v)| [vec![t], v].concat()),
            2 => vec(inner.clone(), 0..5).prop_map(move |v| [count(11, v.len()), v.concat()].concat()),
            3 => vec((raw_name(), inner), 0..5).prop_map(move |v| {
                let n = v.len();
                [count(12, n), v.into_iter().flat_map(|(k, x)| [k, x]).collect::<Vec<_>>().concat()].concat()
            }),
        ]
    })
    .boxed()
}

fn ill_formed() -> BoxedStrategy<Wire> {
    prop_oneof![
        8 => (select(vec![GENERIC, 255]), raw_value()).prop_map(|(decoder, bytes)| Wire { decoder, bytes }),
        1 => raw_name().prop_map(|bytes| Wire { decoder: NAME, bytes }),
        1 => vec(raw_value(), 0..4).prop_map(|v| Wire { decoder: ARGS, bytes: [(v.len() as u32).to_be_bytes().to_vec(), v.concat()].concat() }),
    ]
    .boxed()
}

fn random() -> BoxedStrategy<Wire> {
    (decoder(), prop_oneof![Just(None), (0u8..17).prop_map(Some)], vec(any::<u8>(), 0..64))
        .prop_map(|(decoder, t, mut b)| {
            if let (Some(t), false) = (t, b.is_empty()) {
                b[0] = t;
            }
            Wire { decoder, bytes: b }
        })
        .boxed()
}

/// Many levels of nesting; `levels` far beyond any real value.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deep {
    decoder: u8,
    /// Wrapper pattern, repeated.
    pattern: Vec<u8>,
    levels: usize,
    #[serde(with = "as_hex")]
    end: Vec<u8>,
}

pub fn deep_bytes(pattern: &[u8], levels: usize, end: &[u8]) -> Vec<u8> {
    let mut b = vec![];
    for i in 0..levels {
        match pattern[i % pattern.len()] {
            0 => b.push(7),
            1 => b.push(8),
            2 => b.push(10),
            3 => b.extend_from_slice(&[11, 0, 0, 0, 1]),
            _ => b.extend_from_slice(&[12, 0, 0, 0, 1, 1, b'a']),
        }
    }
    b.extend_from_slice(end);
    b
}

fn deeps() -> BoxedStrategy<Deep> {
    let levels = prop_oneof![4 => 1usize..60, 2 => 60usize..400, 2 => 400usize..20_000, 1 => Just(100_000usize), 1 => Just(400_000usize)];
    let dec = prop_oneof![3 => Just(GENERIC), 2 => Just(255u8), 1 => Just(ARGS)];
    let end = prop_oneof![3 => model::leaf().prop_map(|v| v.enc().unwrap()), 1 => Just(vec![]), 1 => vec(any::<u8>(), 0..4)];
    (dec, vec(0u8..5, 1..4), levels, end)
        .prop_map(|(decoder, pattern, levels, end)| Deep { decoder, pattern, levels, end })
        .boxed()
}

enum Got {
    Value(Box<dyn stacks_rs::clarity::Clarity>),
    Name(String),
    Args(FnArguments),
}

pub fn alloc_limit(n: usize) -> usize {
    (64 << 10) + 256 * n
}

fn check(w: &Wire) -> Verdict {
    let b = &w.bytes;
    let dec = match w.decoder {
        255 => b.first().copied().filter(|t| *t < 15).unwrap_or(GENERIC),
        d => d,
    };
    let what = match dec {
        GENERIC => "decode_clarity_type".to_string(),
        NAME => "LengthPrefixedStr::decode".to_string(),
        ARGS => "FnArguments::decode".to_string(),
        t => format!("decoder of type {t:#04x}"),
    };
    let (got, max) = measured(|| {
        no_panic(&what, || match dec {
            GENERIC => decode_clarity_type(b).ok().map(Got::Value),
            NAME => LengthPrefixedStr::decode(b).ok().map(|n| Got::Name(n.value().clone())),
            ARGS => FnArguments::decode(b).ok().map(Got::Args),
            t => typed_decode(t, b).ok().map(Got::Value),
        })
    });
    let got = got?;
    ensure!(
        max <= alloc_limit(b.len()),
        "{what} requested {max} bytes of memory at once for {} bytes of input {}",
        b.len(),
        short(b)
    );
    let mut r = Reader::new(b);
    let want = match dec {
        NAME => r.name().map(|n| vec![V::Utf8(n)]),
        ARGS => r.args(),
        GENERIC => r.value().map(|v| vec![v]),
        t => {
            if b.first() == Some(&t) {
                r.value().map(|v| vec![v])
            } else {
                None
            }
        }
    };
    if r.dup || r.deep {
        return Ok(());
    }
    match (want, got) {
        (None, None) => Ok(()),
        (None, Some(_)) => Err(format!("{what} accepted malformed bytes {}", short(b))),
        (Some(_), None) => Err(format!("{what} rejected well-formed bytes {}", short(b))),
        (Some(w), Some(Got::Value(c))) => w[0].same_as(c.as_ref()).map_err(|e| format!("{what} on {}: {e}", short(b))),
        (Some(w), Some(Got::Name(n))) => {
            ensure!(w[0] == V::Utf8(n.clone()), "{what} on {}: got {n:?}", short(b));
            Ok(())
        }
        (Some(w), Some(Got::Args(a))) => {
            ensure!(w.len() == a.value().len(), "{what} on {}: {} arguments, expected {}", short(b), a.value().len(), w.len());
            for (i, (v, c)) in w.iter().zip(a.value()).enumerate() {
                v.same_as(c.as_ref()).map_err(|e| format!("{what} on {}: argument {i}: {e}", short(b)))?;
            }
            Ok(())
        }
    }
}

fn classify(w: &Wire) -> Class {
    let mut r = Reader::new(&w.bytes);
    let ok = match w.decoder {
        NAME => r.name().is_some(),
        ARGS => r.args().is_some(),
        _ => r.value().is_some(),
    };
    let mut l = vec![if r.deep || r.dup { "open" } else if ok { "well-formed" } else { "malformed" }];
    if w.bytes.is_empty() {
        l.push("empty");
    }
    if ok && r.pos < w.bytes.len() {
        l.push("trailing");
    }
    // A case says something if decoding gets past the first byte.
    class(r.pos > 1 || ok, l)
}

pub fn c03() -> Property {
    Property {
        id: "C03",
        subs: vec![
            Box::new(SubCheck {
                name: "mutated",
                rule: "encodings of valid values with 0-2 mutations (truncate, flip, insert, delete, oversize length, duplicate, append), every decoder; non-trivial: the reference decoder gets past the first byte.",
                quick: 400_000,
                thorough: 8_000_000,
                strategy: mutated,
                classify,
                run: check,
            }),
            Box::new(SubCheck {
                name: "ill-formed",
                rule: "complete encodings with honest lengths whose names may exceed 128 bytes and whose texts and versions may be invalid, at any depth; non-trivial: as above.",
                quick: 240_000,
                thorough: 4_000_000,
                strategy: ill_formed,
                classify,
                run: check,
            }),
            Box::new(SubCheck {
                name: "fragments",
                rule: "concatenations of type bytes, lengths, addresses, names and encoded leaves; non-trivial: as above.",
                quick: 240_000,
                thorough: 5_000_000,
                strategy: fragments,
                classify,
                run: check,
            }),
            Box::new(SubCheck {
                name: "random",
                rule: "random bytes, half of them starting with a type byte; non-trivial: as above.",
                quick: 120_000,
                thorough: 3_000_000,
                strategy: random,
                classify,
                run: check,
            }),
            Box::new(SubCheck {
                name: "names-args",
                rule: "length-prefixed names with honest and lying lengths, mutated argument lists; non-trivial: as above.",
                quick: 120_000,
                thorough: 2_000_000,
                strategy: names_and_args,
                classify,
                run: check,
            }),
            Box::new(SubCheck {
                name: "deep",
                rule: "1 to 400000 nested wrappers; non-trivial: more than 32 levels.",
                quick: 1_200,
                thorough: 12_000,
                strategy: deeps,
                classify: |d| class(d.levels > 32, vec![match d.levels { 0..=32 => "levels<=32", 33..=400 => "levels<=400", _ => "levels>400" }]),
                run: |d| {
                    let mut bytes = deep_bytes(&d.pattern, d.levels, &d.end);
                    if d.decoder == ARGS {
                        bytes.splice(0..0, [0, 0, 0, 1]);
                    }
                    check(&Wire { decoder: d.decoder, bytes })
                },
            }),
        ],
        assumptions: &[
            "tuples with repeated keys and nesting beyond 32 levels may be accepted or rejected, but never crash",
            "tuple fields are accepted in any order",
            "memory is in proportion if no single request exceeds 64 KiB + 256 bytes per input byte",
        ],
    }
}


