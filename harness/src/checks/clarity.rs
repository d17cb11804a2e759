//! C01 exact encoding, C02 round trip, C06 text form.
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::{
    decode_clarity_type, Buffer, Clarity, Codec, Error, False, FnArguments, Int, LengthPrefixedStr, List,
    OptionalNone, OptionalSome, PrincipalContract, PrincipalStandard, ResponseErr, ResponseOk, StringAscii,
    StringUtf8, True, Tuple, UInt,
};

use crate::ensure;
use crate::model::{self, as_hex, V};
use crate::refhash::hex;
use crate::runner::{class, Class, Property, SubCheck, Verdict};

pub fn short(b: &[u8]) -> String {
    if b.len() <= 96 {
        hex(b)
    } else {
        format!("{}..({} bytes)", hex(&b[..96]), b.len())
    }
}

pub fn classify_value(v: &V) -> Class {
    let mut labels = vec![v.kind()];
    if v.unsorted_tuple() {
        labels.push("unsorted-tuple");
    }
    match v.depth() {
        0..=1 => labels.push("depth-1"),
        2..=4 => labels.push("depth-2-4"),
        5..=12 => labels.push("depth-5-12"),
        _ => labels.push("depth-13+"),
    }
    class(v.depth() > 1, labels)
}

/// Checks every view of an encoding against the expected bytes.
pub fn check_views(c: &(impl Codec + ?Sized), want: &[u8]) -> Verdict {
    let got = c.encode().map_err(|e| format!("encode failed: {e}"))?;
    ensure!(got == want, "encoded as {}, expected {}", short(&got), short(want));
    let n = c.len().map_err(|e| format!("len failed: {e}"))?;
    ensure!(n == want.len(), "len() is {n}, encoding has {} bytes", want.len());
    let e = c.is_empty().map_err(|e| format!("is_empty failed: {e}"))?;
    ensure!(e == want.is_empty(), "is_empty() is {e} for {} bytes", want.len());
    if want.len() <= 4096 {
        let h = c.hex().map_err(|e| format!("hex failed: {e}"))?;
        ensure!(h == hex(want), "hex() is {h}, expected {}", hex(want));
        let p = c.hex_prefixed().map_err(|e| format!("hex_prefixed failed: {e}"))?;
        ensure!(p == format!("0x{}", hex(want)), "hex_prefixed() is {p}, expected 0x{}", hex(want));
    }
    Ok(())
}

fn c01_value(v: &V) -> Verdict {
    check_views(v.build().as_ref(), &v.enc().expect("valid value"))
}

pub fn enc_args(a: &[V]) -> Option<Vec<u8>> {
    let mut b = u32::try_from(a.len()).unwrap().to_be_bytes().to_vec();
    for v in a {
        b.extend(v.enc()?);
    }
    Some(b)
}

pub fn build_args(a: &[V]) -> FnArguments {
    FnArguments::new(a.iter().map(V::build).collect())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Extra {
    Args(Vec<V>),
    Name(String),
    /// That many arguments.
    Long(usize, u8),
}

/// Long argument lists, up to the third byte of the count.
fn long_args(n: usize, fill: u8) -> Vec<V> {
    (0..n)
        .map(|i| match (i + fill as usize) % 5 {
            0 => V::True,
            1 => V::None,
            2 => V::UInt(i as u128),
            3 => V::Buf(vec![fill; (i % 3) + usize::from(i == n - 1)]),
            _ => V::False,
        })
        .collect()
}

fn extras() -> BoxedStrategy<Extra> {
    prop_oneof![
        4 => model::args(4).prop_map(Extra::Args),
        1 => model::name().prop_map(Extra::Name),
    ]
    .boxed()
}

fn classify_extra(e: &Extra) -> Class {
    match e {
        Extra::Args(a) => class(!a.is_empty(), vec!["fn-arguments"]),
        Extra::Name(n) => class(!n.is_empty(), vec!["name"]),
        Extra::Long(n, _) => class(*n > 0, vec!["long-arguments"]),
    }
}

fn c01_extra(e: &Extra) -> Verdict {
    match e {
        Extra::Args(a) => check_views(&build_args(a), &enc_args(a).expect("valid")),
        Extra::Long(n, f) => c01_extra(&Extra::Args(long_args(*n, *f))),
        Extra::Name(n) => check_views(&LengthPrefixedStr::new(n.clone()), &model::enc_name(n).expect("valid")),
    }
}

/// Sizes whose length prefix uses its second, third and fourth byte.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Large {
    kind: u8,
    len: usize,
    fill: u8,
}

fn large_sizes(limit: usize) -> BoxedStrategy<usize> {
    prop_oneof![
        4 => select(vec![127usize, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4095, 4096]),
        3 => 250usize..5000,
        2 => select(vec![32767usize, 32768, 65535, 65536, 65537, 70001]),
        1 => Just(limit),
    ]
    .boxed()
}

fn larges() -> BoxedStrategy<Large> {
    prop_oneof![
        5 => (0u8..3, large_sizes((1 << 24) + 3), any::<u8>()),
        2 => (3u8..5, large_sizes(131_075), any::<u8>()),
    ]
    .prop_map(|(kind, len, fill)| Large { kind, len, fill })
    .boxed()
}

fn large_value(l: &Large) -> V {
    match l.kind {
        0 => V::Buf(vec![l.fill; l.len]),
        1 => V::Ascii(((l.fill & 0x7f) as char).to_string().repeat(l.len)),
        2 => {
            let c = ['a', 'é', 'ሴ', '🌾'][(l.fill & 3) as usize];
            let mut s = c.to_string().repeat(l.len / c.len_utf8());
            while s.len() < l.len {
                s.push('z');
            }
            V::Utf8(s)
        }
        3 => V::List((0..l.len).map(|i| if (i + l.fill as usize) % 3 == 0 { V::True } else { V::False }).collect()),
        // tuples of that many fields, inserted in a scrambled order
        _ => {
            let n = l.len.min(5000);
            V::Tuple((0..n).map(|i| (format!("k{:05}", (i * 7919 + l.fill as usize) % n.max(1)), V::None)).collect::<std::collections::BTreeMap<_, _>>().into_iter().rev().collect())
        }
    }
}

fn classify_large(l: &Large) -> Class {
    let k = ["large-buffer", "large-ascii", "large-utf8", "large-list", "large-tuple"][l.kind as usize];
    let s = match l.len {
        0..=255 => "len<256",
        256..=65535 => "len<65536",
        65536..=16777215 => "len<2^24",
        _ => "len>=2^24",
    };
    class(l.len > 255, vec![k, s])
}

/// A value, a value that differs from it in little, and the first again: no
/// result may depend on what was treated before.
pub fn in_turn() -> BoxedStrategy<Vec<V>> {
    let value = prop_oneof![2 => model::leaf(), 3 => model::value()];
    (value, proptest::collection::vec((any::<proptest::sample::Index>(), any::<u8>()), 1..4))
        .prop_map(|(v, nudges)| {
            let mut all = vec![v];
            for (at, d) in nudges {
                let last = all.last().unwrap();
                all.push(crate::checks::equality::nudge(last, &at, d));
            }
            all.retain(|v| v.enc().is_some());
            all
        })
        .boxed()
}

fn each_in_turn(all: &[V], f: impl Fn(&V) -> Verdict) -> Verdict {
    for (i, v) in all.iter().chain(all.first()).enumerate() {
        f(v).map_err(|e| format!("step {i}: {e}"))?;
    }
    Ok(())
}

fn c01_large(l: &Large) -> Verdict {
    c01_value(&large_value(l))
}

pub fn c01() -> Property {
    Property {
        id: "C01",
        subs: vec![
            Box::new(SubCheck {
                name: "values",
                rule: "Clarity value trees of every type (edge integers, leading-zero hashes, names up to 128 bytes, tuples in any key order, chains to depth 32); non-trivial: nested at least once.",
                quick: 60_000,
                thorough: 3_000_000,
                strategy: model::value,
                classify: classify_value,
                run: c01_value,
            }),
            Box::new(SubCheck {
                name: "leaves",
                rule: "single leaf values of every type; non-trivial: all.",
                quick: 60_000,
                thorough: 2_000_000,
                strategy: model::leaf,
                classify: |v| class(true, vec![v.kind()]),
                run: c01_value,
            }),
            Box::new(SubCheck {
                name: "tuples",
                rule: "tuples of up to 10 distinct keys in arbitrary order; non-trivial: the keys are not already sorted.",
                quick: 40_000,
                thorough: 1_500_000,
                strategy: || model::tuple_fields().prop_map(V::Tuple).boxed(),
                classify: |v| class(v.unsorted_tuple(), vec![if v.unsorted_tuple() { "unsorted" } else { "sorted" }]),
                run: c01_value,
            }),
            Box::new(SubCheck {
                name: "args-names",
                rule: "function-argument lists and length-prefixed names; non-trivial: not empty.",
                quick: 20_000,
                thorough: 800_000,
                strategy: extras,
                classify: classify_extra,
                run: c01_extra,
            }),
            Box::new(SubCheck {
                name: "large",
                rule: "buffers, strings, lists and tuples with lengths around 2^7, 2^8, 2^16 and 2^24; non-trivial: length above 255.",
                quick: 320,
                thorough: 6_000,
                strategy: larges,
                classify: classify_large,
                run: c01_large,
            }),
            Box::new(SubCheck {
                name: "long-arguments",
                rule: "function-argument lists of sizes around the powers of two up to 65537 and anywhere below; non-trivial: not empty.",
                quick: 600,
                thorough: 20000,
                strategy: || (model::edge_sizes(66_000), any::<u8>()).prop_map(|(n, f)| Extra::Long(n, f)).boxed(),
                classify: |e| classify_extra(e),
                run: c01_extra,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "a value and up to three that differ from it in little, one after another and the first again; non-trivial: at least two values.",
                quick: 20000,
                thorough: 800000,
                strategy: in_turn,
                classify: |a| class(a.len() > 1, vec![]),
                run: |a| each_in_turn(a, c01_value),
            }),
        ],
        assumptions: &[
            "the reference encoder in harness/src/model.rs is the SIP-005 format",
            "tuples given to the encoder have distinct keys",
        ],
    }
}

// ---------------------------------------------------------------------------

pub const TYPES: usize = 15;

/// Decodes with the decoder of the type whose byte is `t`.
pub fn typed_decode(t: u8, b: &[u8]) -> Result<Box<dyn Clarity>, Error> {
    fn bx<T: Clarity>(r: Result<T, Error>) -> Result<Box<dyn Clarity>, Error> {
        r.map(|v| Box::new(v) as Box<dyn Clarity>)
    }
    match t {
        0 => bx(Int::decode(b)),
        1 => bx(UInt::decode(b)),
        2 => bx(Buffer::decode(b)),
        3 => bx(True::decode(b)),
        4 => bx(False::decode(b)),
        5 => bx(PrincipalStandard::decode(b)),
        6 => bx(PrincipalContract::decode(b)),
        7 => bx(ResponseOk::decode(b)),
        8 => bx(ResponseErr::decode(b)),
        9 => bx(OptionalNone::decode(b)),
        10 => bx(OptionalSome::decode(b)),
        11 => bx(List::decode(b)),
        12 => bx(Tuple::decode(b)),
        13 => bx(StringAscii::decode(b)),
        14 => bx(StringUtf8::decode(b)),
        _ => unreachable!("type byte"),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trip {
    v: V,
    #[serde(with = "as_hex")]
    tail: Vec<u8>,
}

fn check_decoded(v: &V, c: &dyn Clarity, enc: &[u8], how: &str) -> Verdict {
    v.same_as(c).map_err(|e| format!("{how}: {e}"))?;
    let again = c.encode().map_err(|e| format!("{how}: re-encoding failed: {e}"))?;
    ensure!(again == enc, "{how}: re-encodes as {}, expected {}", short(&again), short(enc));
    Ok(())
}

fn c02_trip(t: &Trip) -> Verdict {
    let enc = t.v.build().encode().map_err(|e| format!("encode failed: {e}"))?;
    let mut wire = enc.clone();
    wire.extend_from_slice(&t.tail);
    let d = decode_clarity_type(&wire).map_err(|e| format!("decode_clarity_type failed on {}: {e}", short(&wire)))?;
    check_decoded(&t.v, d.as_ref(), &enc, "decode_clarity_type")?;
    ensure!(!enc.is_empty() && (enc[0] as usize) < TYPES, "encoding starts with a bad type byte: {}", short(&enc));
    let d = typed_decode(enc[0], &wire).map_err(|e| format!("typed decode failed on {}: {e}", short(&wire)))?;
    check_decoded(&t.v, d.as_ref(), &enc, "typed decode")
}

fn tail() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![2 => Just(vec![]), 2 => model::bytes(24), 1 => model::leaf().prop_map(|v| v.enc().unwrap())].boxed()
}

fn trips() -> BoxedStrategy<Trip> {
    (model::value(), tail()).prop_map(|(v, tail)| Trip { v, tail }).boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ExtraTrip {
    e: Extra,
    #[serde(with = "as_hex")]
    tail: Vec<u8>,
}

fn c02_extra(t: &ExtraTrip) -> Verdict {
    match &t.e {
        Extra::Long(n, f) => {
            return c02_extra(&ExtraTrip { e: Extra::Args(long_args(*n, *f)), tail: t.tail.clone() });
        }
        Extra::Args(a) => {
            let enc = build_args(a).encode().map_err(|e| format!("encode failed: {e}"))?;
            let mut wire = enc.clone();
            wire.extend_from_slice(&t.tail);
            let d = FnArguments::decode(&wire).map_err(|e| format!("FnArguments::decode failed: {e}"))?;
            ensure!(d.value().len() == a.len(), "{} arguments decoded, {} encoded", d.value().len(), a.len());
            for (i, (v, c)) in a.iter().zip(d.value()).enumerate() {
                v.same_as(c.as_ref()).map_err(|e| format!("argument {i}: {e}"))?;
            }
            let again = d.encode().map_err(|e| format!("re-encoding failed: {e}"))?;
            ensure!(again == enc, "arguments re-encode as {}, expected {}", short(&again), short(&enc));
        }
        Extra::Name(n) => {
            let enc = LengthPrefixedStr::new(n.clone()).encode().map_err(|e| format!("encode failed: {e}"))?;
            let mut wire = enc.clone();
            wire.extend_from_slice(&t.tail);
            let d = LengthPrefixedStr::decode(&wire).map_err(|e| format!("LengthPrefixedStr::decode failed: {e}"))?;
            ensure!(d.value() == n, "decoded name {:?}, expected {n:?}", d.value());
            let again = d.encode().map_err(|e| format!("re-encoding failed: {e}"))?;
            ensure!(again == enc, "name re-encodes as {}, expected {}", short(&again), short(&enc));
        }
    }
    Ok(())
}

pub fn c02() -> Property {
    Property {
        id: "C02",
        subs: vec![
            Box::new(SubCheck {
                name: "round-trip",
                rule: "value trees of every type followed by arbitrary trailing bytes, decoded generically and by type; non-trivial: nested, or followed by trailing bytes.",
                quick: 180_000,
                thorough: 2_500_000,
                strategy: trips,
                classify: |t| {
                    let mut c = classify_value(&t.v);
                    c.labels.push(if t.tail.is_empty() { "no-tail" } else { "tail" });
                    c.nontrivial |= !t.tail.is_empty();
                    c
                },
                run: c02_trip,
            }),
            Box::new(SubCheck {
                name: "chains",
                rule: "chains of wrappers to depth 32; non-trivial: deeper than 4.",
                quick: 60_000,
                thorough: 800_000,
                strategy: || (model::chain(), tail()).prop_map(|(v, tail)| Trip { v, tail }).boxed(),
                classify: |t| class(t.v.depth() > 4, vec![if t.v.depth() >= 28 { "depth-28-32" } else { "shallower" }]),
                run: c02_trip,
            }),
            Box::new(SubCheck {
                name: "args-names",
                rule: "function-argument lists and names followed by arbitrary bytes; non-trivial: not empty.",
                quick: 60_000,
                thorough: 800_000,
                strategy: || (extras(), tail()).prop_map(|(e, tail)| ExtraTrip { e, tail }).boxed(),
                classify: |t| classify_extra(&t.e),
                run: c02_extra,
            }),
            Box::new(SubCheck {
                name: "large",
                rule: "values with lengths around 2^7, 2^8, 2^16 and 2^24; non-trivial: length above 255.",
                quick: 720,
                thorough: 4_000,
                strategy: larges,
                classify: classify_large,
                run: |l| c02_trip(&Trip { v: large_value(l), tail: vec![l.fill; (l.fill & 3) as usize] }),
            }),
            Box::new(SubCheck {
                name: "long-arguments",
                rule: "function-argument lists of sizes around the powers of two up to 65537 and anywhere below; non-trivial: not empty.",
                quick: 1_200,
                thorough: 12000,
                strategy: || (model::edge_sizes(66_000), any::<u8>()).prop_map(|(n, f)| ExtraTrip { e: Extra::Long(n, f), tail: vec![f; (f & 3) as usize] }).boxed(),
                classify: |t| classify_extra(&t.e),
                run: c02_extra,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "a value and up to three that differ from it in little, one after another and the first again; non-trivial: at least two values.",
                quick: 20000,
                thorough: 800000,
                strategy: in_turn,
                classify: |a| class(a.len() > 1, vec![]),
                run: |a| each_in_turn(a, |v| c02_trip(&Trip { v: v.clone(), tail: vec![] })),
            }),
        ],
        assumptions: &[
            "valid values nest at most 32 deep (the Clarity type-depth limit) and tuples have distinct keys",
            "a tuple's fields may come back in another order",
        ],
    }
}

// ---------------------------------------------------------------------------

fn c06_value(v: &V) -> Verdict {
    let c = v.build();
    let got = c.to_string();
    let want = v.display();
    ensure!(got == want, "displayed as {got:?}, expected {want:?}");
    Ok(())
}

/// Argument lists and names as shown in messages and logs.
fn c06_extra(e: &Extra) -> Verdict {
    match e {
        Extra::Long(n, f) => return c06_extra(&Extra::Args(long_args(*n, *f))),
        Extra::Args(a) => {
            let got = build_args(a).to_string();
            let parts: Vec<String> = a.iter().map(V::display).collect();
            let want = format!("(fn-args {})", parts.join(" "));
            ensure!(got == want || (a.is_empty() && got == "(fn-args)"), "arguments displayed as {got:?}, expected {want:?}");
        }
        Extra::Name(n) => {
            let got = LengthPrefixedStr::new(n.clone()).to_string();
            ensure!(&got == n, "name displayed as {got:?}, expected {n:?}");
        }
    }
    Ok(())
}

pub fn c06() -> Property {
    Property {
        id: "C06",
        subs: vec![
            Box::new(SubCheck {
                name: "trees",
                rule: "value trees of every type; non-trivial: nested at least once.",
                quick: 240_000,
                thorough: 4_000_000,
                strategy: model::value,
                classify: classify_value,
                run: c06_value,
            }),
            Box::new(SubCheck {
                name: "wide",
                rule: "lists and tuples of up to 1100 parts, sizes around the powers of two; non-trivial: all.",
                quick: 6_000,
                thorough: 100_000,
                strategy: || model::wide(1100),
                classify: |v| class(true, vec![v.kind()]),
                run: c06_value,
            }),
            Box::new(SubCheck {
                name: "leaves",
                rule: "leaf values of every type, strings with quotes, controls and any Unicode; non-trivial: all.",
                quick: 240_000,
                thorough: 3_000_000,
                strategy: model::leaf,
                classify: |v| class(true, vec![v.kind()]),
                run: c06_value,
            }),
            Box::new(SubCheck {
                name: "arguments",
                rule: "argument lists and names; non-trivial: not empty.",
                quick: 20_000,
                thorough: 300_000,
                strategy: extras,
                classify: classify_extra,
                run: c06_extra,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "a value and up to three that differ from it in little, one after another and the first again; non-trivial: at least two values.",
                quick: 20000,
                thorough: 800000,
                strategy: in_turn,
                classify: |a| class(a.len() > 1, vec![]),
                run: |a| each_in_turn(a, c06_value),
            }),
        ],
        assumptions: &["string contents are shown verbatim, without escaping"],
    }
}
