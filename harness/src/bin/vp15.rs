//! C15: post-conditions, built with constructors and with `post_condition!`.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::{Codec, PrincipalContract, PrincipalStandard, StringAscii, UInt};
use stacks_rs::post_condition;
use stacks_rs::transaction::{Condition, PostConditions};
use vp_harness::ensure;
use vp_harness::model::{self, V};
use vp_harness::runner::{class, Class, Property, SubCheck, Verdict};
use vp_harness::txmodel::{self, code, Pc};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

/// The list encodes, reports its length and hands out its parts as the model says.
fn agrees(p: &[Pc], built: &PostConditions, how: &str) -> Verdict {
    let want = txmodel::enc_pcs(p).ok_or("model has no encoding")?;
    let got = built.encode().map_err(|e| format!("{how}: encode failed: {e}"))?;
    ensure!(got == want, "{how}: encodes to {}, expected {}", hex(&got), hex(&want));
    ensure!(built.len().map_err(|e| e.to_string())? == want.len(), "{how}: len");
    ensure!(built.hex().map_err(|e| e.to_string())? == hex(&want), "{how}: hex");
    ensure!(built.value().len() == p.len(), "{how}: holds {} conditions", built.value().len());
    for (i, (m, c)) in p.iter().zip(built.value()).enumerate() {
        agrees_one(m, c.as_ref()).map_err(|e| format!("{how}: condition {i}: {e}"))?;
    }
    let again: Vec<Box<dyn Condition>> = built.clone().into_iter().collect();
    ensure!(again.len() == p.len(), "{how}: iterates over {} conditions", again.len());
    for (i, (m, c)) in p.iter().zip(&again).enumerate() {
        agrees_one(m, c.as_ref()).map_err(|e| format!("{how}: iterated condition {i}: {e}"))?;
    }
    let got = PostConditions::new(again).encode().map_err(|e| format!("{how}: encode of clone failed: {e}"))?;
    ensure!(got == want, "{how}: the clone encodes differently");
    Ok(())
}

fn agrees_one(m: &Pc, c: &dyn Condition) -> Verdict {
    let want = m.enc().ok_or("model has no encoding")?;
    let got = c.encode().map_err(|e| format!("encode failed: {e}"))?;
    ensure!(got == want, "encodes to {}, expected {}", hex(&got), hex(&want));
    ensure!(c.len().map_err(|e| e.to_string())? == want.len(), "len");
    Ok(())
}

fn run_list(p: &Vec<Pc>) -> Verdict {
    agrees(p, &txmodel::build_pcs(p), "constructors")?;
    if p.is_empty() {
        agrees(p, &PostConditions::default(), "default")?;
    }
    // Only the count and the parts decide: joining two lists joins their bodies.
    let cut = p.len() / 2;
    let (a, b) = p.split_at(cut);
    let (ea, eb, e) = (txmodel::build_pcs(a), txmodel::build_pcs(b), txmodel::build_pcs(p));
    let mut joined = ea.encode().map_err(|e| e.to_string())?[4..].to_vec();
    joined.extend_from_slice(&eb.encode().map_err(|e| e.to_string())?[4..]);
    ensure!(e.encode().map_err(|e| e.to_string())?[4..] == joined, "a joined list is not the join of its parts");
    Ok(())
}

fn run_large(n: &(Pc, Pc, u16)) -> Verdict {
    let list: Vec<Pc> = (0..n.2).map(|i| if i % 3 == 0 { n.1.clone() } else { n.0.clone() }).collect();
    let want = txmodel::enc_pcs(&list).ok_or("model has no encoding")?;
    let got = txmodel::build_pcs(&list).encode().map_err(|e| format!("encode failed: {e}"))?;
    ensure!(got == want, "a list of {} conditions encodes differently", n.2);
    Ok(())
}

// ---------------------------------------------------------------------------
// Macro forms

/// The macro takes concrete types, so tokens are limited to two of them here.
fn fit(p: Pc) -> Pc {
    match p {
        Pc::Nft { who, token, code, asset } => {
            let token = match (&who, token) {
                (V::Std(_), V::UInt(i)) => V::UInt(i),
                (V::Std(_), t) => V::UInt(t.enc().map_or(0, |e| e.len() as u128)),
                (_, V::Ascii(s)) => V::Ascii(s),
                (_, _) => V::Ascii("t".into()),
            };
            Pc::Nft { who, token, code, asset }
        }
        p => p,
    }
}

macro_rules! all_pcs {
    // Everything is bound: the list form (always with a trailing comma here).
    (@go [] [$($done:tt)*]) => (Some(post_condition!($($done)*)));
    (@go [$p:ident $($more:ident)*] [$($done:tt)*]) => {
        match $p {
            Pc::Stx { who: V::Std(a), amount, code: c } => all_pcs!(@go [$($more)*] [$($done)*
                (STXCondition, PrincipalStandard::new(a.text()), *amount, code(*c)),]),
            Pc::Stx { who: V::Con(a, n), amount, code: c } => all_pcs!(@go [$($more)*] [$($done)*
                (STXCondition, PrincipalContract::new((a.text(), n.clone())), *amount, code(*c)),]),
            Pc::Ft { who: V::Std(a), amount, code: c, asset } => all_pcs!(@go [$($more)*] [$($done)*
                (FungibleCondition, PrincipalStandard::new(a.text()), *amount, code(*c), asset.build()),]),
            Pc::Ft { who: V::Con(a, n), amount, code: c, asset } => all_pcs!(@go [$($more)*] [$($done)*
                (FungibleCondition, PrincipalContract::new((a.text(), n.clone())), *amount, code(*c), asset.build()),]),
            Pc::Nft { who: V::Std(a), token: V::UInt(t), code: c, asset } => all_pcs!(@go [$($more)*] [$($done)*
                (NonFungibleCondition, PrincipalStandard::new(a.text()), UInt::new(*t), code(*c), asset.build()),]),
            Pc::Nft { who: V::Con(a, n), token: V::Ascii(t), code: c, asset } => all_pcs!(@go [$($more)*] [$($done)*
                (NonFungibleCondition, PrincipalContract::new((a.text(), n.clone())), StringAscii::new(t.clone()), code(*c), asset.build()),]),
            _ => None,
        }
    };
    // Kinds only, standard principals.
    (@std [] [$($done:tt)*]) => (Some(post_condition!($($done)*)));
    (@std [$p:ident $($more:ident)*] [$($done:tt)*]) => {
        match $p {
            Pc::Stx { who: V::Std(a), amount, code: c } => all_pcs!(@std [$($more)*] [$($done)*
                (STXCondition, PrincipalStandard::new(a.text()), *amount, code(*c)),]),
            Pc::Ft { who: V::Std(a), amount, code: c, asset } => all_pcs!(@std [$($more)*] [$($done)*
                (FungibleCondition, PrincipalStandard::new(a.text()), *amount, code(*c), asset.build()),]),
            Pc::Nft { who: V::Std(a), token: V::UInt(t), code: c, asset } => all_pcs!(@std [$($more)*] [$($done)*
                (NonFungibleCondition, PrincipalStandard::new(a.text()), UInt::new(*t), code(*c), asset.build()),]),
            _ => None,
        }
    };
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Form {
    Empty,
    /// The form without a list: one boxed condition.
    Bare(Pc),
    /// A list without a trailing comma.
    Plain(Pc, Pc),
    List(Vec<Pc>),
}

fn bare(p: &Pc) -> Option<Box<dyn Condition>> {
    Some(match p {
        Pc::Stx { who: V::Std(a), amount, code: c } => {
            post_condition!(STXCondition, PrincipalStandard::new(a.text()), *amount, code(*c))
        }
        Pc::Stx { who: V::Con(a, n), amount, code: c } => {
            post_condition!(STXCondition, PrincipalContract::new((a.text(), n.clone())), *amount, code(*c))
        }
        Pc::Ft { who: V::Std(a), amount, code: c, asset } => {
            post_condition!(FungibleCondition, PrincipalStandard::new(a.text()), *amount, code(*c), asset.build())
        }
        Pc::Ft { who: V::Con(a, n), amount, code: c, asset } => {
            post_condition!(FungibleCondition, PrincipalContract::new((a.text(), n.clone())), *amount, code(*c), asset.build())
        }
        Pc::Nft { who: V::Std(a), token: V::UInt(t), code: c, asset } => {
            post_condition!(NonFungibleCondition, PrincipalStandard::new(a.text()), UInt::new(*t), code(*c), asset.build())
        }
        Pc::Nft { who: V::Con(a, n), token: V::Ascii(t), code: c, asset } => post_condition!(
            NonFungibleCondition,
            PrincipalContract::new((a.text(), n.clone())),
            StringAscii::new(t.clone()),
            code(*c),
            asset.build()
        ),
        _ => return None,
    })
}

fn run_macro(f: &Form) -> Verdict {
    const BAD: &str = "generator made a condition without a macro form";
    match f {
        Form::Empty => agrees(&[], &post_condition!(), "post_condition!()"),
        Form::Bare(p) => {
            agrees_one(p, bare(p).ok_or(BAD)?.as_ref()).map_err(|e| format!("post_condition!(single): {e}"))
        }
        Form::Plain(p, q) => {
            let (Pc::Stx { who: V::Std(a), amount, code: c }, Pc::Ft { who: V::Std(b), amount: n, code: d, asset }) = (p, q)
            else {
                return Err(BAD.into());
            };
            let l = post_condition!(
                (STXCondition, PrincipalStandard::new(a.text()), *amount, code(*c)),
                (FungibleCondition, PrincipalStandard::new(b.text()), *n, code(*d), asset.build())
            );
            agrees(&[p.clone(), q.clone()], &l, "post_condition!((..), (..))")
        }
        Form::List(l) => {
            let built = match l.as_slice() {
                [a] => all_pcs!(@go [a] []),
                [a, b] => all_pcs!(@go [a b] []),
                [a, b, c] => all_pcs!(@std [a b c] []),
                [a, b, c, d] => all_pcs!(@std [a b c d] []),
                _ => None,
            };
            agrees(l, &built.ok_or(BAD)?, "post_condition!(list)")
        }
    }
}

fn std_only(p: Pc) -> Pc {
    let mut p = p;
    let w = p.who_mut();
    if let V::Con(a, _) = w.clone() {
        *w = V::Std(a);
    }
    fit(p)
}

fn forms() -> BoxedStrategy<Form> {
    let any_pc = || txmodel::pc().prop_map(fit);
    let std_pc = || txmodel::pc().prop_map(std_only);
    let plain = (model::addr(), model::u64s(), 1u8..=5, model::addr(), model::u64s(), 1u8..=5, txmodel::asset()).prop_map(
        |(a, n, c, b, m, d, asset)| {
            Form::Plain(
                Pc::Stx { who: V::Std(a), amount: n, code: c },
                Pc::Ft { who: V::Std(b), amount: m, code: d, asset },
            )
        },
    );
    prop_oneof![
        1 => Just(Form::Empty),
        4 => any_pc().prop_map(Form::Bare),
        2 => plain,
        8 => vec(any_pc(), 1..=2).prop_map(Form::List),
        5 => vec(std_pc(), 3..=4).prop_map(Form::List),
    ]
    .boxed()
}

fn labels(p: &[Pc]) -> Vec<&'static str> {
    let mut l: Vec<&'static str> = p.iter().map(Pc::kind).collect();
    if p.iter().any(|p| matches!(p.who(), V::Con(..))) {
        l.push("contract-principal");
    }
    l.sort_unstable();
    l.dedup();
    l
}

/// A code of the other kind of condition: refused, or written as it is, never as another.
fn run_odd(p: &Pc) -> Verdict {
    use stacks_rs::clarity::Codec as _;
    let want = p.enc().expect("valid parts");
    let list = [p.clone(), p.clone()];
    let want_list = txmodel::enc_pcs(&list).expect("valid parts");
    if let Ok(b) = vp_harness::runner::no_panic("encode", || p.build().encode())? {
        ensure!(b == want, "condition with a code of another kind encodes as {}, expected {}", hex(&b), hex(&want));
    }
    if let Ok(b) = vp_harness::runner::no_panic("encode", || txmodel::build_pcs(&list).encode())? {
        ensure!(b == want_list, "conditions with a code of another kind encode as {}, expected {}", hex(&b), hex(&want_list));
    }
    Ok(())
}

fn odd() -> BoxedStrategy<Pc> {
    (txmodel::pc(), any::<bool>(), 1u8..=5)
        .prop_map(|(mut p, has, c)| {
            match &mut p {
                Pc::Stx { code, .. } | Pc::Ft { code, .. } => *code = if has { 0x11 } else { 0x10 },
                Pc::Nft { code, .. } => *code = c,
            }
            p
        })
        .boxed()
}

fn props() -> Vec<Property> {
    vec![Property {
        id: "C15",
        subs: vec![
            Box::new(SubCheck {
                name: "lists",
                rule: "lists of 0-8 conditions of all kinds, codes, principals, assets and token values, built with constructors; non-trivial: two or more conditions.",
                quick: 40_000,
                thorough: 2_500_000,
                strategy: || txmodel::pcs(8),
                classify: |p: &Vec<Pc>| -> Class { class(p.len() > 1, labels(p)) },
                run: run_list,
            }),
            Box::new(SubCheck {
                name: "single",
                rule: "one condition; non-trivial: all.",
                quick: 40_000,
                thorough: 2_000_000,
                strategy: || vec(txmodel::pc(), 1..=1).boxed(),
                classify: |p| class(true, labels(p)),
                run: run_list,
            }),
            Box::new(SubCheck {
                name: "large",
                rule: "lists of up to 700 conditions (counts over one byte); non-trivial: more than 255.",
                quick: 400,
                thorough: 8_000,
                strategy: || (txmodel::pc(), txmodel::pc(), 200u16..700).boxed(),
                classify: |c| class(c.2 > 255, vec![]),
                run: run_large,
            }),
            Box::new(SubCheck {
                name: "macro",
                rule: "post_condition! with no, one, and one to four listed conditions, with and without list parentheses and trailing comma; non-trivial: not empty.",
                quick: 50_000,
                thorough: 2_000_000,
                strategy: forms,
                classify: |f| match f {
                    Form::Empty => class(false, vec!["empty"]),
                    Form::Bare(p) => class(true, [vec!["bare"], labels(std::slice::from_ref(p))].concat()),
                    Form::Plain(..) => class(true, vec!["plain"]),
                    Form::List(l) => class(true, [vec!["list"], labels(l)].concat()),
                },
                run: run_macro,
            }),
            Box::new(SubCheck {
                name: "odd-codes",
                rule: "conditions given a code that belongs to another kind: an error, or the bytes of exactly what was given; non-trivial: all.",
                quick: 10_000,
                thorough: 400_000,
                strategy: odd,
                classify: |p| class(true, labels(std::slice::from_ref(p))),
                run: run_odd,
            }),
        ],
        assumptions: &[
            "fungible codes are 1-5 and non-fungible codes 0x10 and 0x11, as SIP-005 allows",
            "macro forms use uint and ASCII string tokens; other token types are covered through the constructors",
        ],
    }]
}

fn main() {
    vp_harness::runner::main_with(props)
}
