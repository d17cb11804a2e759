//! C07 casts, C08 tuple histories, and the non-macro part of C26.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::{
    Any as _, Buffer, Cast, Clarity, Codec, False, FnArguments, Int, LengthPrefixedStr, List, OptionalNone,
    OptionalSome, PrincipalContract, PrincipalStandard, ResponseErr, ResponseOk, StringAscii, StringUtf8, True, Tuple,
    UInt,
};

use crate::checks::clarity::{build_args, classify_value};
use crate::checks::equality::insert;
use crate::ensure;
use crate::model::{self, V};
use crate::runner::{class, Class, Property, Sub, SubCheck, Verdict};

fn type_name(v: &V) -> &'static str {
    match v {
        V::Int(_) => "Int",
        V::UInt(_) => "UInt",
        V::Buf(_) => "Buffer",
        V::True => "True",
        V::False => "False",
        V::Std(_) | V::RawStd(_) => "PrincipalStandard",
        V::Con(..) | V::RawCon(..) => "PrincipalContract",
        V::Ok(_) => "ResponseOk",
        V::Err(_) => "ResponseErr",
        V::None => "OptionalNone",
        V::Some(_) => "OptionalSome",
        V::List(_) => "List",
        V::Tuple(_) => "Tuple",
        V::Ascii(_) => "StringAscii",
        V::Utf8(_) => "StringUtf8",
    }
}

fn cast_all(v: &V) -> Verdict {
    macro_rules! go {
        ($($t:ident),*) => {{$({
            let want = type_name(v) == stringify!($t);
            // by value and by reference, from a trait object
            cast_one::<$t>(v, want, stringify!($t), || v.build().cast::<$t>().ok(), |b| v.build_ref(b))?;
            // through each wrapper, by value and by reference
            let w = ResponseOk::new(v.build());
            cast_ref::<$t>(v, want, concat!("ok ", stringify!($t)), w.cast_as::<$t>().ok())?;
            cast_val::<$t>(v, want, concat!("ok ", stringify!($t)), w.cast::<$t>().ok())?;
            let w = ResponseErr::new(v.build());
            cast_ref::<$t>(v, want, concat!("err ", stringify!($t)), w.cast_as::<$t>().ok())?;
            cast_val::<$t>(v, want, concat!("err ", stringify!($t)), w.cast::<$t>().ok())?;
            let w = OptionalSome::new(v.build());
            cast_ref::<$t>(v, want, concat!("some ", stringify!($t)), w.cast_as::<$t>().ok())?;
            cast_val::<$t>(v, want, concat!("some ", stringify!($t)), w.cast::<$t>().ok())?;
        })*}};
    }
    go!(
        Int, UInt, Buffer, True, False, PrincipalStandard, PrincipalContract, ResponseOk, ResponseErr, OptionalNone,
        OptionalSome, List, Tuple, StringAscii, StringUtf8, LengthPrefixedStr, FnArguments
    );
    Ok(())
}

fn cast_val<T: Clarity>(v: &V, want: bool, what: &str, got: Option<T>) -> Verdict {
    ensure!(got.is_some() == want, "cast of {} to {what}: {}", v.display(), if want { "refused" } else { "accepted" });
    if let Some(c) = got {
        v.same_as(&c).map_err(|e| format!("cast of {} to {what}: {e}", v.display()))?;
    }
    Ok(())
}

fn cast_ref<T: Clarity>(v: &V, want: bool, what: &str, got: Option<&T>) -> Verdict {
    ensure!(got.is_some() == want, "cast_as of {} to {what}: {}", v.display(), if want { "refused" } else { "accepted" });
    if let Some(c) = got {
        v.same_as(c).map_err(|e| format!("cast_as of {} to {what}: {e}", v.display()))?;
    }
    Ok(())
}

impl V {
    fn build_ref<'a>(&self, b: &'a Box<dyn Clarity>) -> &'a Box<dyn Clarity> {
        b
    }
}

fn cast_one<T: Clarity>(
    v: &V,
    want: bool,
    what: &str,
    by_value: impl Fn() -> Option<T>,
    by_ref: impl Fn(&Box<dyn Clarity>) -> &Box<dyn Clarity>,
) -> Verdict {
    cast_val::<T>(v, want, what, by_value())?;
    let b = v.build();
    cast_ref::<T>(v, want, what, by_ref(&b).cast_as::<T>().ok())?;
    // the boxed std Any agrees with the type
    ensure!(b.as_any().is::<T>() == want, "as_any of {} claims {what}: {}", v.display(), !want);
    ensure!(b.into_any().downcast::<T>().is_ok() == want, "into_any of {} as {what}", v.display());
    Ok(())
}

/// Names and argument lists are Clarity trait objects as well.
fn cast_nonstd(v: &V) -> Verdict {
    let name = v.display();
    let b: Box<dyn Clarity> = Box::new(LengthPrefixedStr::new(name.clone()));
    ensure!(b.cast_as::<StringAscii>().is_err() && b.cast_as::<StringUtf8>().is_err(), "a name casts to a string");
    ensure!(b.cast_as::<LengthPrefixedStr>().ok().map(|n| n.value().clone()) == Some(name.clone()), "cast_as of a name loses its text");
    ensure!(b.cast::<LengthPrefixedStr>().ok().map(|n| n.into_value()) == Some(name), "cast of a name loses its text");
    let b: Box<dyn Clarity> = Box::new(build_args(std::slice::from_ref(v)));
    ensure!(b.cast_as::<List>().is_err(), "an argument list casts to a list");
    let a = b.cast::<FnArguments>().map_err(|e| format!("cast of an argument list to its type: {e}"))?;
    ensure!(a.value().len() == 1, "cast of an argument list loses arguments");
    v.same_as(a.value()[0].as_ref())
}

pub fn c07() -> Property {
    Property {
        id: "C07",
        subs: vec![
            Box::new(SubCheck {
                name: "casts",
                rule: "every value against every one of 17 target types, directly and below each of the three wrappers, by value and by reference; non-trivial: a composite value.",
                quick: 48_000,
                thorough: 500_000,
                strategy: model::value,
                classify: classify_value,
                run: |v| {
                    cast_all(v)?;
                    cast_nonstd(v)
                },
            }),
            Box::new(SubCheck {
                name: "leaf-casts",
                rule: "as above for leaf values; non-trivial: all.",
                quick: 48_000,
                thorough: 400_000,
                strategy: model::leaf,
                classify: |v| class(true, vec![v.kind()]),
                run: cast_all,
            }),
        ],
        assumptions: &[],
    }
}

// ---------------------------------------------------------------------------

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert(String, V),
    Remove(String),
    Get(String),
    Update(String, V),
    Clone,
    Recode,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    init: Vec<(String, V)>,
    ops: Vec<Op>,
}

fn histories(max: usize) -> BoxedStrategy<History> {
    let key = || prop_oneof![8 => "[a-d]", 2 => "[a-b]{2}", 1 => model::name()];
    let val = || prop_oneof![4 => model::leaf(), 1 => model::value()];
    let op = prop_oneof![
        5 => (key(), val()).prop_map(|(k, v)| Op::Insert(k, v)),
        3 => key().prop_map(Op::Remove),
        2 => key().prop_map(Op::Get),
        2 => (key(), val()).prop_map(|(k, v)| Op::Update(k, v)),
        1 => Just(Op::Clone),
        1 => Just(Op::Recode),
    ];
    let init = (model::keys(4), vec(val(), 4)).prop_map(|(k, v)| k.into_iter().zip(v).collect::<Vec<_>>());
    (init, vec(op, 0..max)).prop_map(|(init, ops)| History { init, ops }).boxed()
}

/// Few operations on a tuple with many fields.
fn wide_histories() -> BoxedStrategy<History> {
    (model::edge_sizes(300), any::<u64>(), vec((0u8..5, any::<proptest::sample::Index>(), model::short_leaf()), 1..25))
        .prop_map(|(n, seed, steps)| {
            let mut keys: Vec<String> = (0..n).map(|i| format!("k{i}")).collect();
            let mut s = seed;
            for i in (1..keys.len()).rev() {
                s = s.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1);
                keys.swap(i, (s >> 33) as usize % (i + 1));
            }
            let init = keys.iter().enumerate().map(|(i, k)| (k.clone(), V::UInt(i as u128))).collect();
            let ops = steps
                .into_iter()
                .map(|(what, at, v)| {
                    let k = format!("k{}", at.index(n + 3));
                    match what {
                        0 | 1 => Op::Insert(k, v),
                        2 => Op::Remove(k),
                        3 => Op::Update(k, v),
                        _ => Op::Recode,
                    }
                })
                .collect();
            History { init, ops }
        })
        .boxed()
}

fn check_state(t: &Tuple, m: &[(String, V)]) -> Verdict {
    let keys: Vec<&String> = t.keys().collect();
    let want: Vec<&String> = m.iter().map(|(k, _)| k).collect();
    ensure!(keys == want, "keys are {keys:?}, expected {want:?}");
    let values: Vec<&Box<dyn Clarity>> = t.values().collect();
    ensure!(values.len() == m.len(), "{} values for {} keys", values.len(), m.len());
    for ((k, v), got) in m.iter().zip(values) {
        v.same_as(got.as_ref()).map_err(|e| format!("value iterated for {k:?}: {e}"))?;
        let got = t.get(k).ok_or_else(|| format!("get({k:?}) finds nothing"))?;
        v.same_as(got.as_ref()).map_err(|e| format!("get({k:?}): {e}"))?;
    }
    let want = V::Tuple(m.to_vec()).enc().unwrap();
    let got = t.encode().map_err(|e| format!("encode failed: {e}"))?;
    ensure!(got == want, "encodes as {}, expected {}", crate::checks::clarity::short(&got), crate::checks::clarity::short(&want));
    Ok(())
}

fn run_history(h: &History) -> Verdict {
    let mut m = h.init.clone();
    let mut t = model::build_tuple(&m);
    check_state(&t, &m)?;
    for (i, op) in h.ops.iter().enumerate() {
        let r: Verdict = (|| {
            match op {
                Op::Insert(k, v) => {
                    insert(&mut t, k, v);
                    match m.iter_mut().find(|(n, _)| n == k) {
                        Some(slot) => slot.1 = v.clone(),
                        None => m.push((k.clone(), v.clone())),
                    }
                }
                Op::Remove(k) => {
                    let got = t.remove(k);
                    let at = m.iter().position(|(n, _)| n == k);
                    match (got, at) {
                        (None, None) => {}
                        (Some(g), Some(p)) => {
                            let (_, v) = m.remove(p);
                            v.same_as(g.as_ref()).map_err(|e| format!("removed value: {e}"))?;
                        }
                        (g, p) => return Err(format!("remove({k:?}) returned {g:?}, field present: {}", p.is_some())),
                    }
                    ensure!(t.get(k).is_none(), "{k:?} is still there after remove");
                }
                Op::Get(k) => {
                    let got = t.get(k.as_str());
                    match (got, m.iter().find(|(n, _)| n == k)) {
                        (None, None) => {}
                        (Some(g), Some((_, v))) => v.same_as(g.as_ref()).map_err(|e| format!("get: {e}"))?,
                        (g, w) => return Err(format!("get({k:?}) returned {g:?}, field present: {}", w.is_some())),
                    }
                }
                Op::Update(k, v) => {
                    let there = m.iter_mut().find(|(n, _)| n == k);
                    match (t.get_mut(k), there) {
                        (None, None) => {}
                        (Some(g), Some(slot)) => {
                            slot.1.same_as(g.as_ref()).map_err(|e| format!("get_mut: {e}"))?;
                            *g = v.build();
                            slot.1 = v.clone();
                        }
                        (g, w) => return Err(format!("get_mut({k:?}) returned {g:?}, field present: {}", w.is_some())),
                    }
                }
                Op::Clone => t = t.clone(),
                Op::Recode => {
                    let b = t.encode().map_err(|e| format!("encode: {e}"))?;
                    let d = Tuple::decode(&b).map_err(|e| format!("decode: {e}"))?;
                    V::Tuple(m.clone()).same_as(&d).map_err(|e| format!("decoded tuple: {e}"))?;
                }
            }
            check_state(&t, &m)
        })();
        r.map_err(|e| format!("after step {} ({op:?}): {e}", i + 1))?;
    }
    Ok(())
}

fn classify_history(h: &History) -> Class {
    let mut seen: std::collections::HashSet<&str> = h.init.iter().map(|(k, _)| k.as_str()).collect();
    let mut l = vec![];
    for op in &h.ops {
        match op {
            Op::Insert(k, _) => {
                if !seen.insert(k) && !l.contains(&"overwrite") {
                    l.push("overwrite");
                }
            }
            Op::Remove(k) => {
                if seen.remove(k.as_str()) && !l.contains(&"remove-present") {
                    l.push("remove-present");
                }
            }
            Op::Update(k, _) if seen.contains(k.as_str()) && !l.contains(&"update-present") => l.push("update-present"),
            _ => {}
        }
    }
    class(!l.is_empty(), l)
}

pub fn c08() -> Property {
    Property {
        id: "C08",
        subs: vec![
            Box::new(SubCheck {
                name: "histories",
                rule: "up to 12 operations over few keys on a tuple, model compared after every step; non-trivial: overwrites, removes or updates a present key.",
                quick: 40_000,
                thorough: 1_500_000,
                strategy: || histories(12),
                classify: classify_history,
                run: run_history,
            }),
            Box::new(SubCheck {
                name: "long-histories",
                rule: "up to 60 operations; non-trivial: as above.",
                quick: 4_000,
                thorough: 150_000,
                strategy: || histories(60),
                classify: classify_history,
                run: run_history,
            }),
            Box::new(SubCheck {
                name: "wide-histories",
                rule: "up to 24 operations on tuples of up to 300 fields; non-trivial: as above.",
                quick: 1_000,
                thorough: 40_000,
                strategy: wide_histories,
                classify: classify_history,
                run: run_history,
            }),
        ],
        assumptions: &["tuples start with distinct keys; inserting an existing key keeps its position"],
    }
}

// ---------------------------------------------------------------------------
// C26 without macros (the macro forms are in src/bin/vp26.rs)

fn unpack(v: &V) -> Verdict {
    match v {
        V::Int(i) => {
            ensure!(*Int::new(*i).value() == *i && Int::new(*i).into_value() == *i, "Int::new({i}) holds another value");
            ensure!(i128::from(Int::from(*i)) == *i, "Int from/into {i}");
            let x = Int::new(*i);
            let y = x;
            ensure!(*x.value() == *i && *y.value() == *i, "copying Int({i})");
        }
        V::UInt(i) => {
            ensure!(*UInt::new(*i).value() == *i && UInt::new(*i).into_value() == *i, "UInt::new({i}) holds another value");
            ensure!(u128::from(UInt::from(*i)) == *i, "UInt from/into {i}");
        }
        V::Buf(b) => {
            ensure!(Buffer::new(b.clone()).value() == b, "Buffer::new");
            ensure!(&Buffer::new(b.clone()).into_value() == b, "Buffer::into_value");
            ensure!(&Vec::<u8>::from(Buffer::from(b.clone())) == b, "Buffer from/into Vec");
            ensure!(Buffer::from(b.as_slice()).value() == b, "Buffer from slice");
            ensure!(&Buffer::new(b.clone()).into_iter().collect::<Vec<u8>>() == b, "Buffer::into_iter");
        }
        V::True => ensure!(*True::new().value() && True::new().into_value() && *True::default().value(), "True holds false"),
        V::False => {
            ensure!(!*False::new().value() && !False::new().into_value() && !*False::default().value(), "False holds true");
        }
        V::Std(_) | V::RawStd(_) => {
            let t = v.display();
            for p in [PrincipalStandard::new(t.clone()), PrincipalStandard::from(t.as_str()), PrincipalStandard::from(t.clone())] {
                ensure!(p.value() == &t, "PrincipalStandard holds {:?}, given {t:?}", p.value());
                ensure!(String::from(p.clone()) == t && p.into_value() == t, "PrincipalStandard unpacks differently");
            }
        }
        V::Con(..) | V::RawCon(..) => {
            let (t, n) = match v {
                V::Con(a, n) => (a.text(), n.clone()),
                V::RawCon(t, n) => (t.clone(), n.clone()),
                _ => unreachable!(),
            };
            for p in [
                PrincipalContract::new((t.clone(), n.clone())),
                PrincipalContract::from((t.as_str(), n.as_str())),
                PrincipalContract::from((t.clone(), n.clone())),
            ] {
                ensure!(p.value() == &(t.clone(), n.clone()), "PrincipalContract holds {:?}", p.value());
                ensure!(p.into_value() == (t.clone(), n.clone()), "PrincipalContract unpacks differently");
            }
        }
        V::Ok(x) => x.same_as(ResponseOk::new(x.build()).into_value().as_ref())?,
        V::Err(x) => x.same_as(ResponseErr::new(x.build()).into_value().as_ref())?,
        V::Some(x) => x.same_as(OptionalSome::new(x.build()).into_value().as_ref())?,
        V::None => {
            ensure!(OptionalNone::new().value().is_none() && OptionalNone::new().into_value().is_none(), "OptionalNone holds a value");
            ensure!(OptionalNone::default().value().is_none(), "OptionalNone::default holds a value");
        }
        V::List(l) => {
            let mk = || List::new(l.iter().map(V::build).collect());
            same_all(l, mk().into_value(), "List::into_value")?;
            same_all(l, mk().into_iter().collect(), "List::into_iter")?;
            same_all(l, build_args(l).into_value(), "FnArguments::into_value")?;
            same_all(l, build_args(l).into_iter().collect(), "FnArguments::into_iter")?;
            same_all(l, build_args(l).clone().into_iter().collect(), "FnArguments::clone")?;
        }
        V::Tuple(f) => {
            let vals: Vec<V> = f.iter().map(|(_, v)| v.clone()).collect();
            for (how, got) in [
                ("into_value", model::build_tuple(f).into_value()),
                ("into_iter", model::build_tuple(f).into_iter().collect()),
                ("clone", model::build_tuple(f).clone().into_value()),
            ] {
                let (k, v): (Vec<_>, Vec<_>) = got.into_iter().unzip();
                ensure!(k.iter().eq(f.iter().map(|(k, _)| k)), "Tuple::{how} gives keys {k:?}");
                same_all(&vals, v, &format!("Tuple::{how}"))?;
            }
        }
        V::Ascii(s) => {
            let p = StringAscii::new(s.clone());
            ensure!(p.value() == s && &p.clone().into_value() == s, "StringAscii holds {:?}, given {s:?}", p.value());
        }
        V::Utf8(s) => {
            let p = StringUtf8::new(s.clone());
            ensure!(p.value() == s && &p.clone().into_value() == s, "StringUtf8 holds {:?}, given {s:?}", p.value());
            for p in [LengthPrefixedStr::new(s.clone()), LengthPrefixedStr::from(s.clone()), LengthPrefixedStr::from(s.as_str())] {
                ensure!(p.value() == s && &p.clone().into_value() == s, "LengthPrefixedStr holds {:?}, given {s:?}", p.value());
            }
        }
    }
    // whatever the type: the boxed value and its clone hold exactly the contents
    v.same_as(v.build().as_ref())?;
    v.same_as(v.build().clone().as_ref()).map_err(|e| format!("clone: {e}"))
}

fn same_all(want: &[V], got: Vec<Box<dyn Clarity>>, how: &str) -> Verdict {
    ensure!(want.len() == got.len(), "{how} gives {} items, expected {}", got.len(), want.len());
    for (i, (v, c)) in want.iter().zip(&got).enumerate() {
        v.same_as(c.as_ref()).map_err(|e| format!("{how}, item {i}: {e}"))?;
    }
    Ok(())
}

pub fn c26_subs() -> Vec<Box<dyn Sub>> {
    vec![
        Box::new(SubCheck {
            name: "unpack",
            rule: "value trees built by constructors and conversions and read back by value(), into_value(), into_iter() and From; non-trivial: nested.",
            quick: 60_000,
            thorough: 2_500_000,
            strategy: model::value,
            classify: classify_value,
            run: unpack,
        }),
        Box::new(SubCheck {
            name: "unpack-leaves",
            rule: "leaf values of every type; non-trivial: all.",
            quick: 60_000,
            thorough: 2_000_000,
            strategy: model::leaf,
            classify: |v| class(true, vec![v.kind()]),
            run: unpack,
        }),
        Box::new(SubCheck {
            name: "unpack-text",
            rule: "principals of any two texts, valid or not, built every way; non-trivial: all.",
            quick: 20_000,
            thorough: 1_000_000,
            strategy: raw_principal,
            classify: |v| class(true, vec![v.kind()]),
            run: unpack,
        }),
        Box::new(SubCheck {
            name: "unpack-large",
            rule: "lists of 65,533 to 70,000 items, built and read back every way; non-trivial: all.",
            quick: 12,
            thorough: 200,
            strategy: || {
                (prop_oneof![65_533usize..=65_538, 65_539usize..70_000], any::<u64>())
                    .prop_map(|(n, seed)| Large { n, seed })
                    .boxed()
            },
            classify: |_| class(true, vec!["large"]),
            run: unpack_large,
        }),
    ]
}

/// A list of `n` integers derived from `seed`.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Large {
    n: usize,
    seed: u64,
}

fn unpack_large(l: &Large) -> Verdict {
    let bytes = model::stretch(l.n, l.seed);
    let items: Vec<V> = bytes.iter().enumerate().map(|(i, b)| V::Int(i as i128 * 256 + *b as i128)).collect();
    unpack(&V::List(items))?;
    unpack(&V::Utf8(bytes.iter().map(|b| (b'a' + b % 26) as char).collect()))?;
    unpack(&V::Ascii(bytes.iter().map(|b| (b'a' + b % 26) as char).collect()))?;
    unpack(&V::Buf(bytes))
}

/// Principals made of texts that need not be addresses or names.
pub fn raw_principal() -> BoxedStrategy<V> {
    let text = || {
        prop_oneof![
            2 => model::addr().prop_map(|a| a.text()),
            2 => model::dressed(model::addr().prop_map(|a| a.text()).boxed()),
            2 => (model::addr(), model::name()).prop_map(|(a, n)| format!("{}.{n}", a.text())),
            1 => (model::addr(), model::name()).prop_map(|(a, n)| format!("{n}.{}", a.text())),
            1 => model::addr().prop_map(|a| a.text().to_lowercase()),
            1 => model::utf8(40),
            2 => model::tempting(),
            1 => Just(String::new()),
            1 => Just(".".to_string()),
        ]
        .boxed()
    };
    let second = prop_oneof![3 => model::name(), 2 => text(), 1 => Just(String::new())];
    prop_oneof![
        2 => text().prop_map(V::RawStd),
        3 => (text(), second).prop_map(|(t, n)| V::RawCon(t, n)),
    ]
    .boxed()
}
