//! C05: equality is equality of the consensus encoding.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::{
    Any as _, Buffer, Clarity, Codec, False, Int, LengthPrefixedStr, List, OptionalNone, OptionalSome, PrincipalContract,
    PrincipalStandard, ResponseErr, ResponseOk, StringAscii, StringUtf8, True, Tuple, UInt,
};
use stacks_rs::transaction::PostConditions;

use crate::checks::clarity::{build_args, enc_args};
use crate::ensure;
use crate::model::{self, Addr, V};
use crate::refc;
use crate::runner::{class, Class, Property, SubCheck, Verdict};
use crate::txmodel::{self, Pc};

/// `==` at the concrete type, when both have the same one.
pub fn typed_eq(a: &dyn Clarity, b: &dyn Clarity) -> Option<(bool, bool)> {
    macro_rules! go {
        ($($t:ty),*) => {{
            $(if let (Some(x), Some(y)) = (a.as_any().downcast_ref::<$t>(), b.as_any().downcast_ref::<$t>()) {
                #[allow(clippy::nonminimal_bool)]
                return Some((x == y, !(x != y)));
            })*
            None
        }};
    }
    go!(
        Int, UInt, Buffer, True, False, PrincipalStandard, PrincipalContract, ResponseOk, ResponseErr, OptionalNone,
        OptionalSome, List, Tuple, StringAscii, StringUtf8
    )
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pair {
    a: V,
    b: V,
}

fn check_eq(a: &dyn Clarity, b: &dyn Clarity, same: bool) -> Verdict {
    for (x, y) in [(a, b), (b, a)] {
        if let Some((eq, ne)) = typed_eq(x, y) {
            ensure!(eq == same, "{x} == {y} is {eq}, but their encodings are {}", if same { "equal" } else { "different" });
            ensure!(ne == eq, "== and != disagree on {x} and {y}");
        }
    }
    Ok(())
}

fn c05_pair(p: &Pair) -> Verdict {
    let (a, b) = (p.a.build(), p.b.build());
    let (x, y) = (p.a.enc(), p.b.enc());
    if x.is_none() && y.is_none() {
        return Ok(());
    }
    // a value with an encoding never is one without
    let same = x == y;
    check_eq(a.as_ref(), b.as_ref(), same)?;
    for (v, e) in [(&a, x), (&b, y)] {
        if e.is_some() {
            check_eq(v.as_ref(), v.as_ref(), true)?;
        }
    }
    // the same question below a wrapper
    check_eq(&ResponseOk::new(p.a.build()), &ResponseOk::new(p.b.build()), same)?;
    check_eq(
        &List::new(vec![V::Int(1).build(), p.a.build()]),
        &List::new(vec![V::Int(1).build(), p.b.build()]),
        same,
    )?;
    let (x, y) = (build_args(std::slice::from_ref(&p.a)), build_args(std::slice::from_ref(&p.b)));
    ensure!((x == y) == same, "argument lists of {} and {}: == is {}", p.a.display(), p.b.display(), x == y);
    Ok(())
}

/// Shuffles tuple fields at every level.
fn reorder(v: &V, k: usize) -> V {
    match v {
        V::Tuple(t) => {
            let mut t: Vec<_> = t.iter().map(|(n, v)| (n.clone(), reorder(v, k))).collect();
            if !t.is_empty() {
                let n = t.len();
                t.rotate_left(k % n);
                if k % 2 == 1 {
                    t.reverse();
                }
            }
            V::Tuple(t)
        }
        V::List(l) => V::List(l.iter().map(|v| reorder(v, k)).collect()),
        V::Ok(v) => V::Ok(Box::new(reorder(v, k))),
        V::Err(v) => V::Err(Box::new(reorder(v, k))),
        V::Some(v) => V::Some(Box::new(reorder(v, k))),
        x => x.clone(),
    }
}

/// Changes one part of the value, chosen by `at`, by a small amount.
pub fn nudge(v: &V, at: &Index, d: u8) -> V {
    nudge_at(v, at.index(usize::MAX), d)
}

pub fn nudge_at(v: &V, at: usize, d: u8) -> V {
    fn count(v: &V) -> usize {
        match v {
            V::Ok(v) | V::Err(v) | V::Some(v) => 1 + count(v),
            V::List(l) => 1 + l.iter().map(count).sum::<usize>(),
            V::Tuple(t) => 1 + t.iter().map(|(_, v)| count(v)).sum::<usize>(),
            _ => 1,
        }
    }
    fn tweak_str(s: &str, d: u8, at: usize) -> String {
        let mut c: Vec<char> = s.chars().collect();
        let n = c.len();
        match d % 8 {
            0 => c.push('a'),
            1 => c.insert(0, ' '),
            2 if n > 0 => {
                c.remove(0);
            }
            3 => {
                c.reverse();
                c.push('z');
            }
            // the letter case of one character
            4 if n > 0 => {
                let i = (0..n).map(|i| (i + at) % n).find(|i| c[*i].is_ascii_alphabetic()).unwrap_or(0);
                c[i] = if c[i].is_ascii_lowercase() { c[i].to_ascii_uppercase() } else if c[i].is_ascii_uppercase() { c[i].to_ascii_lowercase() } else { 'q' };
            }
            5 if n > 0 => c[at % n] = if c[at % n] == '.' { ',' } else { '.' },
            6 if n > 0 => {
                c.pop();
            }
            7 => c.push('\u{0}'),
            _ => c.push(' '),
        }
        c.into_iter().collect()
    }
    fn tweak_addr(a: &Addr, d: u8) -> Addr {
        let mut a = *a;
        if d % 4 == 3 {
            let at = refc::VERSIONS.iter().position(|v| *v == a.ver).unwrap_or(0);
            a.ver = refc::VERSIONS[(at + 1 + usize::from(d / 4) % 3) % 4];
        } else {
            a.hash[usize::from(d) % 20] ^= 1 << (d / 32);
        }
        a
    }
    fn go(v: &V, k: &mut usize, d: u8, at: usize) -> V {
        let here = *k == 0;
        *k = k.wrapping_sub(1);
        if here {
            return match v {
                // a nearby number, or one bit anywhere
                V::Int(i) if at % 2 == 0 => V::Int(i ^ (1 << (d % 128))),
                V::UInt(i) if at % 2 == 0 => V::UInt(i ^ (1 << (d % 128))),
                V::Int(i) => V::Int(i.wrapping_add(1 + i128::from(d))),
                V::UInt(i) => V::UInt(i.wrapping_add(1 + u128::from(d))),
                V::Buf(b) => {
                    let mut b = b.clone();
                    if b.is_empty() || d % 3 == 0 {
                        b.push(d);
                    } else {
                        let n = at % b.len();
                        b[n] ^= 1 << (d % 8);
                    }
                    V::Buf(b)
                }
                V::True => V::False,
                V::False => V::True,
                V::Std(a) => V::Std(tweak_addr(a, d)),
                V::Con(a, n) if at % 2 == 0 => V::Con(tweak_addr(a, d), n.clone()),
                V::Con(a, n) => {
                    let n2 = tweak_str(n, d, at);
                    V::Con(*a, if n2.len() <= 128 { n2 } else { "q".into() })
                }
                V::Ascii(s) => V::Ascii(tweak_str(s, d, at)),
                V::Utf8(s) => V::Utf8(tweak_str(s, d, at)),
                V::None => V::Some(Box::new(V::None)),
                V::Ok(x) => V::Err(x.clone()),
                V::Err(x) => V::Ok(x.clone()),
                V::Some(x) => {
                    if d % 2 == 0 {
                        V::None
                    } else {
                        V::Ok(x.clone())
                    }
                }
                V::List(l) => {
                    let mut l = l.clone();
                    match d % 3 {
                        0 if l.len() > 1 => l.reverse(),
                        1 if !l.is_empty() => {
                            l.pop();
                        }
                        _ => l.push(V::Int(0)),
                    }
                    V::List(l)
                }
                V::Tuple(t) => {
                    let mut t = t.clone();
                    match d % 4 {
                        3 if !t.is_empty() => {
                            // another spelling of one key
                            let i = at % t.len();
                            let k = tweak_str(&t[i].0, d / 4, at);
                            if k.len() <= 128 && !t.iter().any(|(x, _)| *x == k) {
                                t[i].0 = k;
                            }
                        }
                        0 if t.len() > 1 => {
                            // swap the values of two keys
                            let n = t.len() - 1;
                            let tmp = t[0].1.clone();
                            t[0].1 = t[n].1.clone();
                            t[n].1 = tmp;
                        }
                        1 if !t.is_empty() => {
                            t.pop();
                        }
                        _ => t.push((format!("zz-{d}-{}", t.len()), V::Int(0))),
                    }
                    V::Tuple(t)
                }
                x => x.clone(),
            };
        }
        match v {
            V::Ok(x) => V::Ok(Box::new(go(x, k, d, at))),
            V::Err(x) => V::Err(Box::new(go(x, k, d, at))),
            V::Some(x) => V::Some(Box::new(go(x, k, d, at))),
            V::List(l) => V::List(l.iter().map(|v| go(v, k, d, at)).collect()),
            V::Tuple(t) => V::Tuple(t.iter().map(|(n, v)| (n.clone(), go(v, k, d, at))).collect()),
            x => x.clone(),
        }
    }
    let mut k = at % count(v);
    go(v, &mut k, d, at / 7)
}

fn pairs() -> BoxedStrategy<Pair> {
    prop_oneof![
        2 => (model::value(), any::<usize>()).prop_map(|(a, k)| Pair { b: reorder(&a, k % 97), a }),
        4 => (model::value(), any::<Index>(), any::<u8>()).prop_map(|(a, i, d)| Pair { b: nudge(&a, &i, d), a }),
        1 => (model::value(), model::value()).prop_map(|(a, b)| Pair { a, b }),
        1 => (model::leaf(), model::leaf()).prop_map(|(a, b)| Pair { a, b }),
    ]
    .boxed()
}

/// Pairs of different values that print alike (or nearly so).
fn confusable() -> BoxedStrategy<Pair> {
    let tiny = vec(select("\"a b()u\\".chars().collect::<Vec<_>>()), 0..4).prop_map(|c| c.into_iter().collect::<String>());
    let strings = (vec(tiny.clone(), 2..5), any::<Index>(), any::<bool>()).prop_map(|(s, i, uni)| {
        // [.., "x", "y", ..] against [.., "x\" \"y", ..]
        let mk = |s: &[String]| V::List(s.iter().map(|x| if uni { V::Utf8(x.clone()) } else { V::Ascii(x.clone()) }).collect());
        let k = i.index(s.len() - 1);
        let mut m = s.clone();
        let tail = m.remove(k + 1);
        m[k] = if uni { format!("{}\" u\"{}", m[k], tail) } else { format!("{}\" \"{}", m[k], tail) };
        Pair { a: mk(&s), b: mk(&m) }
    });
    let keys = (tiny.clone(), "[a-c]{1,2}", "[d-f]{1,2}", model::i128s()).prop_map(|(s, k1, k2, n)| {
        // (k1 "s") (k2 n)  against  one field whose key swallows the other
        let a = V::Tuple(vec![(k1.clone(), V::Ascii(s.clone())), (k2.clone(), V::Int(n))]);
        let b = V::Tuple(vec![(format!("{k1} \"{s}\") ({k2}"), V::Int(n))]);
        Pair { a, b }
    });
    let values = ("[a-c]{1,2}", "[d-f]{1,2}", tiny.clone(), tiny.clone()).prop_map(|(k1, k2, s, t)| {
        let a = V::Tuple(vec![(k1.clone(), V::Ascii(s.clone())), (k2.clone(), V::Ascii(t.clone()))]);
        let b = V::Tuple(vec![(k1, V::Ascii(format!("{s}\") ({k2} \"{t}")))]);
        Pair { a, b }
    });
    let nested = (tiny, model::i128s()).prop_map(|(s, n)| {
        let a = V::List(vec![V::Ascii(s.clone()), V::Int(n), V::Ascii(String::new())]);
        let b = V::List(vec![V::Ascii(format!("{s}\" {n} \""))]);
        Pair { a, b }
    });
    // a dotted contract name against a dotted address, which has no encoding
    let dotted = (model::addr(), "[a-c]{1,3}", "[a-c]{0,3}", 0u8..4).prop_map(|(a, m, n, how)| {
        let t = a.text();
        let (x, y) = (V::Con(a, format!("{m}.{n}")), V::RawCon(format!("{t}.{m}"), n));
        let wrap = |v| match how {
            0 => v,
            1 => V::List(vec![v]),
            2 => V::Tuple(vec![("k".into(), v)]),
            _ => V::Some(Box::new(v)),
        };
        Pair { a: wrap(x), b: wrap(y) }
    });
    prop_oneof![3 => strings, 2 => keys, 2 => values, 1 => nested, 1 => dotted].boxed()
}

fn classify_pair(p: &Pair) -> Class {
    let same = p.a.enc() == p.b.enc();
    let kind = p.a.kind() == p.b.kind();
    let mut l = vec![if same { "equal" } else { "different" }];
    if p.a.display() == p.b.display() && !same {
        l.push("prints-alike");
    }
    class(kind && p.a != p.b, l)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Names {
    a: String,
    b: String,
}

fn c05_names(n: &Names) -> Verdict {
    let (a, b) = (LengthPrefixedStr::new(n.a.clone()), LengthPrefixedStr::new(n.b.clone()));
    ensure!((a == b) == (n.a == n.b), "names {:?} and {:?}: == is {}", n.a, n.b, a == b);
    let (a, b) = (StringAscii::new(n.a.clone()), StringAscii::new(n.b.clone()));
    if n.a.is_ascii() && n.b.is_ascii() {
        ensure!((a == b) == (n.a == n.b), "strings {:?} and {:?}: == is {}", n.a, n.b, a == b);
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PcPair {
    a: Vec<Pc>,
    b: Vec<Pc>,
}

fn c05_conditions(p: &PcPair) -> Verdict {
    let (a, b): (PostConditions, PostConditions) = (txmodel::build_pcs(&p.a), txmodel::build_pcs(&p.b));
    let same = txmodel::enc_pcs(&p.a).unwrap() == txmodel::enc_pcs(&p.b).unwrap();
    ensure!((a == b) == same, "post-condition lists {:?} and {:?}: == is {}", p.a, p.b, a == b);
    ensure!((b == a) == same, "post-condition equality is not symmetric");
    let c = a.clone();
    ensure!(c == a, "a cloned post-condition list differs from its original");
    ensure!(c.encode().ok() == a.encode().ok(), "a cloned post-condition list encodes differently");
    Ok(())
}

fn pc_pairs() -> BoxedStrategy<PcPair> {
    let base = txmodel::pcs(3);
    prop_oneof![
        1 => base.clone().prop_map(|a| PcPair { b: a.clone(), a }),
        4 => (txmodel::pcs(3), any::<Index>(), any::<u8>()).prop_map(|(a, i, d)| {
            let mut b = a.clone();
            if !b.is_empty() {
                let k = i.index(b.len());
                b[k] = b[k].nudge(d);
            }
            PcPair { a, b }
        }),
        1 => vec(txmodel::pc(), 2..4).prop_map(|a| { let mut b = a.clone(); b.reverse(); PcPair { a, b } }),
        1 => (base.clone(), base).prop_map(|(a, b)| PcPair { a, b }),
        // token strings that print like two fields
        1 => (txmodel::pc(), "[a-b\"]{0,2}").prop_map(|(p, s)| {
            let a = vec![p.with_token(V::List(vec![V::Ascii(s.clone()), V::Ascii("b".into())]))];
            let b = vec![p.with_token(V::List(vec![V::Ascii(format!("{s}), StringAsciiCV(b"))]))];
            PcPair { a, b }
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CloneCase {
    t: Vec<(String, V)>,
    key: String,
    v: V,
    at: usize,
}

/// A clone is equal, encodes the same, and changes to one do not show in the other.
fn c05_clone(c: &CloneCase) -> Verdict {
    let orig = model::build_tuple(&c.t);
    let before = orig.encode().map_err(|e| e.to_string())?;
    let mut copy = orig.clone();
    ensure!(copy == orig, "clone of {orig} differs from it");
    ensure!(copy.encode().ok().as_ref() == Some(&before), "clone of {orig} encodes differently");
    // nested clone through the trait object
    let boxed: Box<dyn Clarity> = V::Tuple(c.t.clone()).build();
    let again = boxed.clone();
    V::Tuple(c.t.clone()).same_as(again.as_ref()).map_err(|e| format!("clone of a boxed value: {e}"))?;
    if let Some((k, _)) = c.t.get(c.at % c.t.len().max(1)) {
        if let Some(slot) = copy.get_mut(k) {
            *slot = c.v.build();
        }
    }
    copy.remove(&c.key);
    insert(&mut copy, &c.key, &c.v);
    ensure!(orig.encode().ok().as_ref() == Some(&before), "changing a clone changed the original {orig}");
    // and the other way round
    let snap = copy.encode().map_err(|e| e.to_string())?;
    let mut orig2 = copy.clone();
    let keys: Vec<String> = orig2.keys().cloned().collect();
    for k in keys {
        orig2.remove(k);
    }
    ensure!(copy.encode().ok().as_ref() == Some(&snap), "changing a value changed its earlier clone source");
    Ok(())
}

/// Clones of every type, argument lists and names: same contents, equal, same encoding.
fn c05_copy(a: &Vec<V>) -> Verdict {
    for v in a {
        let c = v.build();
        let d = c.clone();
        v.same_as(d.as_ref()).map_err(|e| format!("clone of {}: {e}", clip(&v.display())))?;
        check_eq(c.as_ref(), d.as_ref(), true)?;
        ensure!(d.encode().ok() == v.enc(), "clone of {} encodes differently", clip(&v.display()));
        ensure!(d.to_string() == c.to_string(), "clone of {} prints differently", clip(&v.display()));
        macro_rules! typed {
            ($($t:ty),*) => {$(
                if let Some(x) = c.as_any().downcast_ref::<$t>() {
                    let y = x.clone();
                    ensure!(y == *x, "typed clone of {} is not equal to it", clip(&v.display()));
                    v.same_as(&y).map_err(|e| format!("typed clone of {}: {e}", clip(&v.display())))?;
                    let mut z = x.clone();
                    z.clone_from(&y);
                    v.same_as(&z).map_err(|e| format!("clone_from of {}: {e}", clip(&v.display())))?;
                }
            )*};
        }
        typed!(
            Int, UInt, Buffer, True, False, PrincipalStandard, PrincipalContract, ResponseOk, ResponseErr, OptionalNone,
            OptionalSome, List, Tuple, StringAscii, StringUtf8
        );
    }
    let x = build_args(a);
    let y = x.clone();
    ensure!(x == y, "clone of an argument list is not equal to it");
    ensure!(y.value().len() == a.len(), "clone of {} arguments holds {}", a.len(), y.value().len());
    for (i, (v, c)) in a.iter().zip(y.value()).enumerate() {
        v.same_as(c.as_ref()).map_err(|e| format!("argument {i} of a clone: {e}"))?;
    }
    ensure!(y.encode().ok() == enc_args(a), "clone of an argument list encodes differently");
    Ok(())
}

fn clip(s: &str) -> String {
    s.chars().take(200).collect()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArgsPair {
    a: Vec<V>,
    b: Vec<V>,
}

fn c05_args(p: &ArgsPair) -> Verdict {
    let (x, y) = (build_args(&p.a), build_args(&p.b));
    let same = enc_args(&p.a) == enc_args(&p.b);
    ensure!((x == y) == same, "argument lists of {} and {} items: == is {}, encodings are {}", p.a.len(), p.b.len(), x == y, if same { "equal" } else { "different" });
    ensure!((y == x) == same, "argument list equality is not symmetric");
    let (a, b) = (V::List(p.a.clone()), V::List(p.b.clone()));
    check_eq(a.build().as_ref(), b.build().as_ref(), same)
}

fn args_pairs() -> BoxedStrategy<ArgsPair> {
    (model::args(5), any::<Index>(), any::<Index>(), any::<u8>(), 0u8..6)
        .prop_map(|(a, i, j, d, how)| {
            let mut b = a.clone();
            if !b.is_empty() {
                let k = i.index(b.len());
                match how {
                    0 => {}
                    1 => {
                        b.remove(k);
                    }
                    2 => b.swap(k, j.index(a.len())),
                    3 => b.push(a[k].clone()),
                    4 => b.truncate(k),
                    _ => b[k] = nudge(&b[k], &j, d),
                }
            }
            ArgsPair { a, b }
        })
        .boxed()
}

/// `Tuple::insert` takes a concrete type; dispatch on the model.
pub fn insert(t: &mut Tuple, key: &str, v: &V) {
    let k = key.to_string();
    match v {
        V::Int(i) => t.insert(k, Int::new(*i)),
        V::UInt(i) => t.insert(k, UInt::new(*i)),
        V::Buf(b) => t.insert(k, Buffer::new(b.clone())),
        V::True => t.insert(k, True::new()),
        V::False => t.insert(k, False::new()),
        V::Std(a) => t.insert(k, PrincipalStandard::new(a.text())),
        V::Con(a, n) => t.insert(k, PrincipalContract::new((a.text(), n.clone()))),
        V::Ok(v) => t.insert(k, ResponseOk::new(v.build())),
        V::Err(v) => t.insert(k, ResponseErr::new(v.build())),
        V::None => t.insert(k, OptionalNone::new()),
        V::Some(v) => t.insert(k, OptionalSome::new(v.build())),
        V::List(l) => t.insert(k, List::new(l.iter().map(V::build).collect())),
        V::Tuple(f) => t.insert(k, model::build_tuple(f)),
        V::Ascii(s) => t.insert(k, StringAscii::new(s.clone())),
        V::Utf8(s) => t.insert(k, StringUtf8::new(s.clone())),
        V::RawStd(s) => t.insert(k, PrincipalStandard::new(s.clone())),
        V::RawCon(s, n) => t.insert(k, PrincipalContract::new((s.clone(), n.clone()))),
    }
}

pub fn c05() -> Property {
    Property {
        id: "C05",
        subs: vec![
            Box::new(SubCheck {
                name: "pairs",
                rule: "pairs of value trees: same fields reordered, one part changed, or independent; non-trivial: same type and not identical.",
                quick: 60_000,
                thorough: 2_500_000,
                strategy: pairs,
                classify: classify_pair,
                run: c05_pair,
            }),
            Box::new(SubCheck {
                name: "print-alike",
                rule: "different values constructed to have the same text form; non-trivial: same type and not identical.",
                quick: 30_000,
                thorough: 1_000_000,
                strategy: confusable,
                classify: classify_pair,
                run: c05_pair,
            }),
            Box::new(SubCheck {
                name: "names",
                rule: "pairs of names over a small alphabet; non-trivial: not both empty.",
                quick: 20_000,
                thorough: 500_000,
                strategy: || {
                    prop_oneof![
                        ("[ab\" ]{0,3}", "[ab\" ]{0,3}"),
                        (model::name(), model::name()),
                    ]
                    .prop_map(|(a, b)| Names { a, b })
                    .boxed()
                },
                classify: |n| class(!(n.a.is_empty() && n.b.is_empty()), vec![if n.a == n.b { "equal" } else { "different" }]),
                run: c05_names,
            }),
            Box::new(SubCheck {
                name: "post-conditions",
                rule: "pairs of post-condition lists: identical, one field changed, reordered, independent or printing alike; non-trivial: not both empty.",
                quick: 20_000,
                thorough: 800_000,
                strategy: pc_pairs,
                classify: |p| {
                    let same = txmodel::enc_pcs(&p.a) == txmodel::enc_pcs(&p.b);
                    class(!(p.a.is_empty() && p.b.is_empty()), vec![if same { "equal" } else { "different" }])
                },
                run: c05_conditions,
            }),
            Box::new(SubCheck {
                name: "copies",
                rule: "lists of 0-4 (now and then up to 1100) values of every type: boxed, typed and argument-list clones; non-trivial: not empty.",
                quick: 15_000,
                thorough: 600_000,
                strategy: || model::args(4),
                classify: |a| class(!a.is_empty(), vec![if a.len() > 8 { "long" } else { "short" }]),
                run: c05_copy,
            }),
            Box::new(SubCheck {
                name: "arguments",
                rule: "argument lists and lists with one item changed, removed, added, swapped, or cut, or unchanged; non-trivial: not empty.",
                quick: 15_000,
                thorough: 600_000,
                strategy: args_pairs,
                classify: |p| class(!p.a.is_empty(), vec![if enc_args(&p.a) == enc_args(&p.b) { "equal" } else { "different" }, if p.a.len() > 8 { "long" } else { "short" }]),
                run: c05_args,
            }),
            Box::new(SubCheck {
                name: "clones",
                rule: "tuples cloned and then changed on one side by update, remove and insert; non-trivial: the tuple has fields.",
                quick: 20_000,
                thorough: 800_000,
                strategy: || {
                    (model::tuple_fields(), model::name(), model::value(), any::<usize>())
                        .prop_map(|(t, key, v, at)| CloneCase { t, key, v, at: at % 1000 })
                        .boxed()
                },
                classify: |c| class(!c.t.is_empty(), vec![]),
                run: c05_clone,
            }),
        ],
        assumptions: &["equality of values that have no encoding is left open"],
    }
}
