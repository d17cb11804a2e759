//! C22: derived tuple conversions, over structs generated at build time.
use std::sync::OnceLock;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::Index;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::Tuple;
use vp_harness::model::{self, V};
use vp_harness::runner::{class, Class, Property, SubCheck, Verdict};
use vp_harness::ensure;

mod shapes {
    #![allow(dead_code, non_snake_case)]
    use super::Out;
    use stacks_rs::clarity::{Any as _, Tuple};
    use stacks_rs::derive::FromTuple;

    pub type Conv = fn(Tuple) -> Result<Out, stacks_rs::derive::Error>;

    include!(concat!(env!("OUT_DIR"), "/shapes.rs"));

    /// A struct that is generic over a nested one.
    #[derive(FromTuple)]
    pub struct Wrap<T>
    where
        T: TryFrom<Tuple, Error = stacks_rs::derive::Error>,
    {
        #[stacks(key = "id")]
        pub id: u128,
        #[stacks(key = "inner")]
        pub inner: T,
    }

    #[derive(FromTuple)]
    pub struct Leaf {
        #[stacks(key = "inner")]
        pub a: Option<String>,
        #[stacks(key = "id", response)]
        pub b: i128,
    }

    pub fn generic(t: Tuple) -> Result<Out, stacks_rs::derive::Error> {
        Wrap::<Leaf>::try_from(t).map(|w| {
            Out::Struct(vec![
                Out::UInt(w.id),
                Out::Struct(vec![Out::OptStr(w.inner.a), Out::Int(w.inner.b)]),
            ])
        })
    }
}

/// The type of a field.
#[derive(Clone, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Ty {
    Int,
    UInt,
    Bool,
    Bytes,
    Str,
    StrVec,
    OptInt,
    OptUInt,
    OptStr,
    RespInt,
    RespUInt,
    Struct(Shape),
}

type Shape = Vec<(String, Ty)>;

/// What a conversion put into the fields, in declaration order.
#[derive(Clone, Debug, PartialEq)]
pub enum Out {
    Int(i128),
    UInt(u128),
    Bool(bool),
    Bytes(Vec<u8>),
    Str(String),
    StrVec(Vec<String>),
    OptInt(Option<i128>),
    OptUInt(Option<u128>),
    OptStr(Option<String>),
    Struct(Vec<Out>),
}

fn table() -> &'static [(Shape, shapes::Conv)] {
    static T: OnceLock<Vec<(Shape, shapes::Conv)>> = OnceLock::new();
    T.get_or_init(|| {
        let mut all: Vec<(Shape, shapes::Conv)> = shapes::table()
            .into_iter()
            .map(|(s, f)| (serde_json::from_str(s).expect("shape"), f))
            .collect();
        all.push((
            serde_json::from_str(r#"[["id","UInt"],["inner",{"Struct":[["inner","OptStr"],["id","RespInt"]]}]]"#)
                .expect("shape"),
            shapes::generic,
        ));
        all
    })
}

/// The oracle's view of one field.
enum Exp {
    Is(Out),
    /// An optional field that is absent or holds something else: never filled.
    Unfilled(Out),
    Struct(Vec<Exp>),
    Fail(String),
}

fn expect(key: &str, ty: &Ty, v: Option<&V>) -> Exp {
    let fail = |why: &str| Exp::Fail(format!("key {key:?} {why}"));
    let unfilled = |o: Out| Exp::Unfilled(o);
    match (ty, v) {
        (Ty::OptInt, Some(V::Some(x))) if matches!(**x, V::Int(_)) => {
            let V::Int(i) = **x else { unreachable!() };
            Exp::Is(Out::OptInt(Some(i)))
        }
        (Ty::OptUInt, Some(V::Some(x))) if matches!(**x, V::UInt(_)) => {
            let V::UInt(i) = **x else { unreachable!() };
            Exp::Is(Out::OptUInt(Some(i)))
        }
        (Ty::OptStr, Some(V::Some(x))) => Exp::Is(Out::OptStr(Some(x.display()))),
        (Ty::OptInt, Some(V::None)) => Exp::Is(Out::OptInt(None)),
        (Ty::OptUInt, Some(V::None)) => Exp::Is(Out::OptUInt(None)),
        (Ty::OptStr, Some(V::None)) => Exp::Is(Out::OptStr(None)),
        (Ty::OptInt, _) => unfilled(Out::OptInt(None)),
        (Ty::OptUInt, _) => unfilled(Out::OptUInt(None)),
        (Ty::OptStr, _) => unfilled(Out::OptStr(None)),
        (_, None) => fail("is missing"),
        (Ty::Int, Some(V::Int(i))) => Exp::Is(Out::Int(*i)),
        (Ty::UInt, Some(V::UInt(i))) => Exp::Is(Out::UInt(*i)),
        (Ty::Bool, Some(V::True)) => Exp::Is(Out::Bool(true)),
        (Ty::Bool, Some(V::False)) => Exp::Is(Out::Bool(false)),
        (Ty::Bytes, Some(V::Buf(b))) => Exp::Is(Out::Bytes(b.clone())),
        (Ty::Str, Some(v)) => Exp::Is(Out::Str(v.display())),
        (Ty::StrVec, Some(V::List(l))) => Exp::Is(Out::StrVec(l.iter().map(V::display).collect())),
        (Ty::RespInt, Some(V::Ok(x))) if matches!(**x, V::Int(_)) => {
            let V::Int(i) = **x else { unreachable!() };
            Exp::Is(Out::Int(i))
        }
        (Ty::RespUInt, Some(V::Ok(x))) if matches!(**x, V::UInt(_)) => {
            let V::UInt(i) = **x else { unreachable!() };
            Exp::Is(Out::UInt(i))
        }
        (Ty::Struct(s), Some(V::Tuple(f))) => Exp::Struct(expect_all(s, f)),
        (_, Some(_)) => fail("holds another type"),
    }
}

fn expect_all(s: &Shape, f: &[(String, V)]) -> Vec<Exp> {
    s.iter()
        .map(|(k, ty)| expect(k, ty, f.iter().find(|(x, _)| x == k).map(|(_, v)| v)))
        .collect()
}

fn must_fail(e: &[Exp]) -> Option<&str> {
    e.iter().find_map(|x| match x {
        Exp::Fail(s) => Some(s.as_str()),
        Exp::Struct(e) => must_fail(e),
        _ => None,
    })
}

fn may_fail(e: &[Exp]) -> bool {
    e.iter().any(|x| match x {
        Exp::Unfilled(_) => true,
        Exp::Struct(e) => may_fail(e),
        _ => false,
    })
}

fn agree(shape: &Shape, e: &[Exp], got: &Out) -> Verdict {
    let Out::Struct(got) = got else { return Err("not a struct".into()) };
    ensure!(got.len() == e.len(), "field count");
    for (((key, ty), e), g) in shape.iter().zip(e).zip(got) {
        match e {
            Exp::Is(o) | Exp::Unfilled(o) => ensure!(o == g, "field of key {key:?} holds {g:?}, expected {o:?}"),
            Exp::Struct(e) => {
                let Ty::Struct(s) = ty else { return Err("shape".into()) };
                agree(s, e, g).map_err(|m| format!("in {key:?}: {m}"))?;
            }
            Exp::Fail(_) => {}
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    shape: Shape,
    tuple: Vec<(String, V)>,
}

fn run(c: &Case) -> Verdict {
    let Some((_, conv)) = table().iter().find(|(s, _)| *s == c.shape) else {
        return Err("no such struct in this build; set VERIF_SEED and VERIF_TIER as in the run that found it".into());
    };
    let t: Tuple = model::build_tuple(&c.tuple);
    let e = expect_all(&c.shape, &c.tuple);
    match conv(t) {
        Ok(out) => {
            if let Some(why) = must_fail(&e) {
                return Err(format!("{why}, but the conversion gave {out:?}"));
            }
            agree(&c.shape, &e, &out)
        }
        Err(err) => {
            ensure!(
                must_fail(&e).is_some() || may_fail(&e),
                "every key holds a matching value, but the conversion failed: {err}"
            );
            Ok(())
        }
    }
}

/// A value that matches the field type.
fn matching(ty: &Ty) -> BoxedStrategy<V> {
    fn some(s: impl Strategy<Value = V> + 'static) -> BoxedStrategy<V> {
        prop_oneof![2 => s.prop_map(|v| V::Some(Box::new(v))), 1 => Just(V::None)].boxed()
    }
    let any_v = || prop_oneof![3 => model::leaf(), 1 => model::value()].boxed();
    match ty {
        Ty::Int => model::i128s().prop_map(V::Int).boxed(),
        Ty::UInt => model::u128s().prop_map(V::UInt).boxed(),
        Ty::Bool => prop_oneof![Just(V::True), Just(V::False)].boxed(),
        Ty::Bytes => model::bytes_tail(40).prop_map(V::Buf).boxed(),
        Ty::Str => any_v(),
        Ty::StrVec => prop_oneof![40 => vec(any_v(), 0..4), 1 => model::many(300)].prop_map(V::List).boxed(),
        Ty::OptInt => some(model::i128s().prop_map(V::Int)),
        Ty::OptUInt => some(model::u128s().prop_map(V::UInt)),
        Ty::OptStr => some(any_v()),
        Ty::RespInt => model::i128s().prop_map(|i| V::Ok(Box::new(V::Int(i)))).boxed(),
        Ty::RespUInt => model::u128s().prop_map(|i| V::Ok(Box::new(V::UInt(i)))).boxed(),
        Ty::Struct(s) => tuple_for(s).prop_map(V::Tuple).boxed(),
    }
}

fn tuple_for(s: &Shape) -> BoxedStrategy<Vec<(String, V)>> {
    let keys: Vec<String> = s.iter().map(|(k, _)| k.clone()).collect();
    let vals: Vec<BoxedStrategy<V>> = s.iter().map(|(_, ty)| matching(ty)).collect();
    (vals, vec(any::<Index>(), s.len()))
        .prop_map(move |(vals, order)| {
            let mut left: Vec<(String, V)> = keys.iter().cloned().zip(vals).collect();
            let mut out = vec![];
            for i in order {
                let k = i.index(left.len());
                out.push(left.remove(k));
            }
            out
        })
        .boxed()
}

#[derive(Clone, Debug)]
enum Edit {
    Drop,
    Replace(V),
    Wrap(u8),
    Unwrap,
    Rename(u8),
    Extra(u8, V),
    SwapWith(Index),
}

fn edit() -> BoxedStrategy<Edit> {
    prop_oneof![
        2 => Just(Edit::Drop),
        3 => prop_oneof![3 => model::leaf(), 1 => model::value()].prop_map(Edit::Replace),
        3 => (0u8..14).prop_map(Edit::Wrap),
        2 => Just(Edit::Unwrap),
        4 => (0u8..21).prop_map(Edit::Rename),
        3 => ((0u8..21), model::leaf()).prop_map(|(k, v)| Edit::Extra(k, v)),
        2 => any::<Index>().prop_map(Edit::SwapWith),
    ]
    .boxed()
}

/// Another key that a lenient lookup could take for `k`.
fn similar(k: &str, how: u8) -> String {
    if k.is_empty() {
        return "x".into();
    }
    let other = match how {
        0 => format!("{k}x"),
        1 => k.chars().take(k.chars().count() - 1).collect(),
        2 => k.to_uppercase(),
        3 => k.to_lowercase(),
        4 => k.replace('-', "_"),
        5 => k.replace('_', "-"),
        6 => k.replace(['-', '_', '?', '!'], ""),
        7 => k.chars().skip(1).collect(),
        8 => format!(" {k}"),
        9 => format!("{k} "),
        10 => format!("_{k}"),
        11 => k.trim_end_matches(['?', '!', '-', '_']).to_string(),
        // like a field name
        12..=16 => format!("f{}", how - 12),
        17 => "value".to_string(),
        18 => k.chars().take(1).flat_map(char::to_uppercase).chain(k.chars().skip(1)).collect(),
        19 => format!("{k}\0"),
        _ => k.chars().rev().chain("-".chars()).collect(),
    };
    if other == k || other.len() > 128 {
        // Stays a key that can be encoded.
        let tail = k.chars().skip(usize::from(k.len() > 120));
        tail.chain("-".chars()).collect()
    } else {
        other
    }
}

/// Applies an edit at some place of the tuple tree.
fn apply(f: &mut Vec<(String, V)>, e: &Edit, path: &[Index]) {
    if f.is_empty() {
        return;
    }
    let i = path[0].index(f.len());
    if path.len() > 1 {
        if let V::Tuple(inner) = &mut f[i].1 {
            if !inner.is_empty() {
                return apply(inner, e, &path[1..]);
            }
        }
    }
    let has = |f: &Vec<(String, V)>, k: &str| f.iter().any(|(x, _)| x == k);
    match e {
        Edit::Drop => {
            f.remove(i);
        }
        Edit::Replace(v) => f[i].1 = v.clone(),
        Edit::Wrap(h) => {
            let b = Box::new(f[i].1.clone());
            f[i].1 = match h {
                0 => V::Ok(b),
                1 => V::Err(b),
                2 => V::Some(b),
                3 => V::List(vec![*b]),
                4 => V::Tuple(vec![(f[i].0.clone(), *b)]),
                // something between the optional or response and its content
                6..=13 => {
                    let deeper = |x: Box<V>| {
                        Box::new(match h / 2 {
                            3 => V::Ok(x),
                            4 => V::Err(x),
                            5 => V::Some(x),
                            _ => V::List(vec![*x]),
                        })
                    };
                    match *b {
                        V::Some(x) => V::Some(deeper(x)),
                        V::Ok(x) => V::Ok(deeper(x)),
                        V::Err(x) => V::Err(deeper(x)),
                        V::List(l) => V::List(l.into_iter().map(|x| *deeper(Box::new(x))).collect()),
                        x => V::Some(deeper(Box::new(x))),
                    }
                }
                // the error form of a response, or the other sign of an integer
                _ => match *b {
                    V::Ok(x) => V::Err(x),
                    V::Int(x) => V::UInt(x.unsigned_abs()),
                    V::UInt(x) => V::Int((x >> 1) as i128),
                    V::Buf(x) => V::Ascii(x.iter().map(|b| char::from(b & 0x7f)).collect()),
                    V::Some(x) => V::Some(Box::new(V::Some(x))),
                    x => V::Ok(Box::new(x)),
                },
            };
        }
        Edit::Unwrap => {
            f[i].1 = match f[i].1.clone() {
                V::Ok(x) | V::Err(x) | V::Some(x) => *x,
                V::List(mut l) if !l.is_empty() => l.remove(0),
                V::Tuple(mut t) if !t.is_empty() => t.remove(0).1,
                x => x,
            };
        }
        Edit::Rename(h) => {
            let k = similar(&f[i].0, *h);
            if !has(f, &k) {
                f[i].0 = k;
            }
        }
        Edit::Extra(h, v) => {
            let k = similar(&f[i].0, *h);
            if !has(f, &k) {
                f.insert(i, (k, v.clone()));
            }
        }
        Edit::SwapWith(j) => {
            let j = j.index(f.len());
            let t = f[i].1.clone();
            f[i].1 = f[j].1.clone();
            f[j].1 = t;
        }
    }
}

fn case() -> BoxedStrategy<Case> {
    (0..table().len())
        .prop_flat_map(|i| {
            let shape = table()[i].0.clone();
            let edits = prop_oneof![
                2 => Just(vec![]),
                3 => vec((edit(), vec(any::<Index>(), 1..4)), 1..2),
                1 => vec((edit(), vec(any::<Index>(), 1..4)), 2..4),
            ];
            (tuple_for(&shape), edits).prop_map(move |(mut tuple, edits)| {
                for (e, p) in &edits {
                    apply(&mut tuple, e, p);
                }
                Case { shape: shape.clone(), tuple }
            })
        })
        .boxed()
}

fn classify(c: &Case) -> Class {
    let e = expect_all(&c.shape, &c.tuple);
    let mut l = vec![if must_fail(&e).is_some() {
        "must-fail"
    } else if may_fail(&e) {
        "optional-unfilled"
    } else {
        "must-convert"
    }];
    if c.shape.iter().any(|(_, t)| matches!(t, Ty::Struct(_))) {
        l.push("nested");
    }
    if c.tuple.iter().any(|(k, _)| !c.shape.iter().any(|(s, _)| s == k)) {
        l.push("extra-keys");
    }
    class(!c.tuple.is_empty(), l)
}

fn props() -> Vec<Property> {
    vec![Property {
        id: "C22",
        subs: vec![Box::new(SubCheck {
            name: "convert",
            rule: "structs generated at build time (11 leaf field types, nesting to 4 levels, random keys and field order, one generic struct) x tuples that match, then with 0-3 edits (key dropped, renamed or added, value replaced, wrapped, unwrapped or swapped) at any depth; non-trivial: tuple not empty.",
            quick: 60_000,
            thorough: 3_000_000,
            strategy: case,
            classify,
            run,
        })],
        assumptions: &[
            "an optional field whose key is missing or holds another type may become None or fail the conversion",
            "a String field holds the text form of whatever value is stored (as documented by the tests)",
            "tuples have distinct keys; field keys of one struct are distinct",
        ],
    }]
}

fn main() {
    vp_harness::runner::main_with(props)
}
