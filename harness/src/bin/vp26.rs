//! C26: building and unpacking values, including every form of `clarity!`.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity;
use stacks_rs::clarity::Clarity;
use vp_harness::checks::values;
use vp_harness::model::{self, V};
use vp_harness::runner::{class, Property, SubCheck, Verdict};
use vp_harness::{ensure, with_cv};

fn same(v: &V, c: &dyn Clarity, how: &str) -> Verdict {
    v.same_as(c).map_err(|e| format!("{how}: {e}"))
}

fn same_list(want: &[&V], got: &[Box<dyn Clarity>], how: &str) -> Verdict {
    ensure!(want.len() == got.len(), "{how} holds {} items, expected {}", got.len(), want.len());
    for (i, (v, c)) in want.iter().zip(got).enumerate() {
        same(v, c.as_ref(), &format!("{how}, item {i}"))?;
    }
    Ok(())
}

/// `clarity!` for the outermost constructor of a value with at most one part.
fn run_single(v: &V) -> Verdict {
    match v {
        V::Int(i) => same(v, &clarity!(Int, *i), "clarity!(Int)"),
        V::UInt(i) => same(v, &clarity!(UInt, *i), "clarity!(UInt)"),
        V::Buf(b) => {
            same(v, &clarity!(Buffer, b), "clarity!(Buffer, &Vec)")?;
            same(v, &clarity!(Buffer, b.clone()), "clarity!(Buffer, Vec)")?;
            same(v, &clarity!(Buffer, b.as_slice()), "clarity!(Buffer, slice)")?;
            if b.is_empty() {
                same(v, &clarity!(Buffer), "clarity!(Buffer)")?;
            }
            Ok(())
        }
        V::True => same(v, &clarity!(True), "clarity!(True)"),
        V::False => same(v, &clarity!(False), "clarity!(False)"),
        V::Std(a) => {
            same(v, &clarity!(PrincipalStandard, a.text()), "clarity!(PrincipalStandard, String)")?;
            same(v, &clarity!(PrincipalStandard, a.text().as_str()), "clarity!(PrincipalStandard, &str)")
        }
        V::Con(a, n) => {
            same(v, &clarity!(PrincipalContract, a.text(), n), "clarity!(PrincipalContract, String, &String)")?;
            same(v, &clarity!(PrincipalContract, a.text().as_str(), n.as_str()), "clarity!(PrincipalContract, &str, &str)")
        }
        V::Ok(x) => with_cv!(&**x, c => same(v, &clarity!(ResponseOk, c), "clarity!(ResponseOk)")),
        V::Err(x) => with_cv!(&**x, c => same(v, &clarity!(ResponseErr, c), "clarity!(ResponseErr)")),
        V::Some(x) => with_cv!(&**x, c => same(v, &clarity!(OptionalSome, c), "clarity!(OptionalSome)")),
        V::None => same(v, &clarity!(OptionalNone), "clarity!(OptionalNone)"),
        V::List(l) if l.is_empty() => {
            same(v, &clarity!(List), "clarity!(List)")?;
            same_list(&[], clarity!(FnArguments).value(), "clarity!(FnArguments)")
        }
        V::List(l) => with_cv!(&l[0], c => {
            same(&V::List(vec![l[0].clone()]), &clarity!(List, c.clone()), "clarity!(List, 1)")?;
            same_list(&[&l[0]], clarity!(FnArguments, c).value(), "clarity!(FnArguments, 1)")
        }),
        V::Tuple(f) if f.is_empty() => same(v, &clarity!(Tuple), "clarity!(Tuple)"),
        V::Tuple(f) => with_cv!(&f[0].1, c => {
            let one = V::Tuple(vec![f[0].clone()]);
            same(&one, &clarity!(Tuple, (f[0].0.as_str(), c.clone())), "clarity!(Tuple, (&str, _))")?;
            same(&one, &clarity!(Tuple, (f[0].0.clone(), c)), "clarity!(Tuple, (String, _))")
        }),
        V::Ascii(s) => {
            same(v, &clarity!(StringAscii, s), "clarity!(StringAscii, &String)")?;
            same(v, &clarity!(StringAscii, s.as_str()), "clarity!(StringAscii, &str)")
        }
        V::Utf8(s) => {
            same(v, &clarity!(StringUtf8, s), "clarity!(StringUtf8, &String)")?;
            same(v, &clarity!(StringUtf8, s.as_str()), "clarity!(StringUtf8, &str)")?;
            let p = clarity!(LengthPrefixedStr, s);
            ensure!(p.value() == s, "clarity!(LengthPrefixedStr) holds {:?}, given {s:?}", p.value());
            Ok(())
        }
        V::RawStd(t) => {
            same(v, &clarity!(PrincipalStandard, t), "clarity!(PrincipalStandard, &String)")?;
            same(v, &clarity!(PrincipalStandard, t.as_str()), "clarity!(PrincipalStandard, &str)")
        }
        V::RawCon(t, n) => {
            same(v, &clarity!(PrincipalContract, t, n), "clarity!(PrincipalContract, &String, &String)")?;
            same(v, &clarity!(PrincipalContract, t.as_str(), n.as_str()), "clarity!(PrincipalContract, &str, &str)")
        }
    }
}

/// A value of one of five types, so that lists of several have a bounded number of forms.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Parts(Vec<(String, V)>);

macro_rules! five {
    ($v:expr, $c:ident => $e:expr) => {{
        use stacks_rs::clarity as cl;
        match $v {
            V::Int(i) => { let $c = cl::Int::new(*i); $e }
            V::Buf(b) => { let $c = cl::Buffer::new(b.clone()); $e }
            V::Some(v) => { let $c = cl::OptionalSome::new(v.build()); $e }
            V::Tuple(f) => { let $c = model::build_tuple(f); $e }
            V::Ascii(s) => { let $c = cl::StringAscii::new(s.clone()); $e }
            _ => Err("generator made another type".to_string()),
        }
    }};
}

fn run_several(p: &Parts) -> Verdict {
    let vals: Vec<&V> = p.0.iter().map(|(_, v)| v).collect();
    let list = V::List(vals.iter().map(|v| (*v).clone()).collect());
    let tuple = V::Tuple(p.0.clone());
    match p.0.as_slice() {
        [(ka, a), (kb, b)] => five!(a, x => five!(b, y => {
            same(&list, &clarity!(List, x.clone(), y.clone()), "clarity!(List, 2)")?;
            same(&tuple, &clarity!(Tuple, (ka, x.clone()), (kb.as_str(), y.clone())), "clarity!(Tuple, 2)")?;
            same_list(&vals, clarity!(FnArguments, x, y).value(), "clarity!(FnArguments, 2)")
        })),
        [(ka, a), (kb, b), (kc, c)] => five!(a, x => five!(b, y => five!(c, z => {
            same(&list, &clarity!(List, x.clone(), y.clone(), z.clone()), "clarity!(List, 3)")?;
            same(&tuple, &clarity!(Tuple, (ka, x.clone()), (kb.as_str(), y.clone()), (kc, z.clone())), "clarity!(Tuple, 3)")?;
            same_list(&vals, clarity!(FnArguments, x, y, z).value(), "clarity!(FnArguments, 3)")
        }))),
        _ => Err("generator made another length".into()),
    }
}

/// Buffers and texts of up to some MiB through `clarity!` and the constructors.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Huge {
    n: usize,
    seed: u64,
}

fn run_huge(h: &Huge) -> Verdict {
    let b = model::stretch(h.n, h.seed);
    let t: String = b.iter().map(|x| char::from(b'a' + x % 26)).collect();
    // compared whole, without a rendering of the content in the message
    ensure!(clarity!(Buffer, b).value() == &b, "clarity!(Buffer) of {} bytes differs", h.n);
    ensure!(clarity!(Buffer, b.as_slice()).value() == &b, "clarity!(Buffer, slice) of {} bytes differs", h.n);
    ensure!(clarity::Buffer::new(b.clone()).into_value() == b, "Buffer of {} bytes differs", h.n);
    ensure!(clarity!(StringAscii, t.as_str()).value() == &t, "clarity!(StringAscii) of {} bytes differs", h.n);
    ensure!(clarity!(StringUtf8, t.as_str()).value() == &t, "clarity!(StringUtf8) of {} bytes differs", h.n);
    Ok(())
}

fn parts() -> BoxedStrategy<Parts> {
    let part = || {
        prop_oneof![
            model::i128s().prop_map(V::Int),
            model::bytes_tail(30).prop_map(V::Buf),
            model::leaf().prop_map(|v| V::Some(Box::new(v))),
            model::tuple_fields().prop_map(V::Tuple),
            model::ascii_tail(30).prop_map(V::Ascii),
        ]
    };
    (model::keys(6), vec(part(), 2..=3))
        .prop_map(|(mut keys, vals)| {
            let mut i = 0;
            while keys.len() < vals.len() {
                let k = format!("k{i}");
                i += 1;
                if !keys.contains(&k) {
                    keys.push(k);
                }
            }
            Parts(keys.into_iter().zip(vals).collect())
        })
        .boxed()
}

fn props() -> Vec<Property> {
    let mut subs = values::c26_subs();
    subs.push(Box::new(SubCheck {
        name: "macro-single",
        rule: "values of every type built with clarity!, from owned and borrowed input and in the empty forms; non-trivial: all.",
        quick: 60_000,
        thorough: 2_500_000,
        strategy: || {
            prop_oneof![
                4 => model::leaf(),
                4 => model::value(),
                1 => values::raw_principal(),
                1 => proptest::sample::select(vec![V::List(vec![]), V::Tuple(vec![]), V::Buf(vec![])]),
            ]
            .boxed()
        },
        classify: |v: &V| class(true, vec![v.kind()]),
        run: run_single,
    }));
    subs.push(Box::new(SubCheck {
        name: "macro-several",
        rule: "clarity! lists, tuples and function arguments of two and three parts; non-trivial: all.",
        quick: 40_000,
        thorough: 2_000_000,
        strategy: parts,
        classify: |p: &Parts| class(true, vec![if p.0.len() == 2 { "two" } else { "three" }]),
        run: run_several,
    }));
    subs.push(Box::new(SubCheck {
        name: "macro-large",
        rule: "buffers and texts of up to 3 MiB, sizes around powers of two over-represented; non-trivial: over 64 KiB.",
        quick: 80,
        thorough: 2_000,
        strategy: || {
            let n = prop_oneof![
                2 => (12u32..=21, 0usize..5).prop_map(|(p, d)| (1usize << p) + d - 2),
                1 => 1usize..3 << 20,
                1 => (1usize << 20) + 1..3 << 20,
            ];
            (n, any::<u64>()).prop_map(|(n, seed)| Huge { n, seed }).boxed()
        },
        classify: |h: &Huge| class(h.n > 65536, vec![]),
        run: run_huge,
    }));
    vec![Property {
        id: "C26",
        subs,
        assumptions: &["the macro is used with clarity in scope, as in the documentation"],
    }]
}

fn main() {
    vp_harness::runner::main_with(props)
}
