//! C04 rejection of values with no encoding, C14 transaction wire format.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::{Codec, LengthPrefixedStr};
use stacks_rs::transaction::{
    Network, STXContractCall, STXTokenTransfer, StacksMainnet, StacksMocknet, StacksTestnet, Transaction,
    TransactionSigner,
};

use crate::checks::clarity::{build_args, check_views, enc_args, short};
use crate::checks::codecs::near_address;
use crate::ensure;
use crate::model::{self, as_str, V};
use crate::refhash::{hex, sha512_256};
use crate::runner::{class, no_panic, Class, Property, SubCheck, Verdict};
use crate::txmodel::{self, anchor, pc_mode, AuthM, Cond, Key, Pc, Pl, Tx};
use crate::with_cv;

// ---------------------------------------------------------------------------
// C04

/// Names and keys at and beyond the 128-byte limit.
fn edge_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => (select(vec![126usize, 127, 128, 129, 130, 200, 255, 256, 257, 300, 384, 512, 65535, 65536, 65540]), proptest::char::range('a', 'z')).prop_map(|(n, c)| c.to_string().repeat(n)),
        // multi-byte characters: few characters, many bytes
        2 => (40usize..70, select(vec!['é', 'ሴ', '🌾'])).prop_map(|(n, c)| c.to_string().repeat(n)),
    ]
    .boxed()
}

fn edge_ascii() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (model::ascii(10), select(vec!['\u{7e}', '\u{7f}', '\u{80}', '\u{81}', 'é', '\u{ff}', '\u{100}', 'ሴ', '🌾', '\u{a0}']), model::ascii(10)).prop_map(|(a, c, b)| format!("{a}{c}{b}")),
        1 => model::utf8(8),
        // one character somewhere in a long string
        1 => (model::edge_sizes(1100), any::<u64>(), any::<Index>(), select(vec!['\u{7f}', '\u{80}', 'é', '🌾'])).prop_map(|(n, s, i, c)| {
            let mut t: Vec<char> = model::stretch(n, s).into_iter().map(|b| char::from(b & 0x7f)).collect();
            t.insert(i.index(n + 1), c);
            t.into_iter().collect()
        }),
    ]
    .boxed()
}

fn edge_principal() -> BoxedStrategy<V> {
    prop_oneof![
        3 => near_address().prop_map(V::RawStd),
        2 => (near_address(), model::name()).prop_map(|(t, n)| V::RawCon(t, n)),
        2 => (model::addr(), edge_name()).prop_map(|(a, n)| V::Con(a, n)),
    ]
    .boxed()
}

/// A leaf that mostly has no encoding, sometimes just barely has one.
fn edge_leaf() -> BoxedStrategy<V> {
    prop_oneof![
        3 => edge_ascii().prop_map(V::Ascii),
        3 => edge_principal(),
        2 => (edge_name(), model::leaf()).prop_map(|(k, v)| V::Tuple(vec![(k, v)])),
    ]
    .boxed()
}

/// The edge leaf somewhere inside an otherwise valid value.
fn edge_value() -> BoxedStrategy<V> {
    let layer = (0u8..5, vec(model::leaf(), 0..3), any::<Index>(), "[a-f]{1,3}");
    let wide = prop_oneof![30 => Just(0usize), 1 => model::edge_sizes(300)];
    (edge_leaf(), prop_oneof![12 => vec(layer.clone(), 0..6), 1 => vec(layer, 6..30)], wide, any::<Index>())
        .prop_map(|(v, layers, wide, at)| {
            // now and then behind many siblings
            let v = if wide == 0 {
                v
            } else {
                let mut l = vec![V::None; wide];
                l.insert(at.index(wide + 1), v);
                V::List(l)
            };
            layers.into_iter().fold(v, |v, (w, sib, at, key)| match w {
                0 => V::Ok(Box::new(v)),
                1 => V::Err(Box::new(v)),
                2 => V::Some(Box::new(v)),
                3 => {
                    let mut l = sib;
                    l.insert(at.index(l.len() + 1), v);
                    V::List(l)
                }
                _ => {
                    let mut t: Vec<(String, V)> = sib.into_iter().enumerate().map(|(i, v)| (format!("s{i}"), v)).collect();
                    t.insert(at.index(t.len() + 1), (key, v));
                    V::Tuple(t)
                }
            })
        })
        .boxed()
}

fn edge_pc() -> BoxedStrategy<Pc> {
    prop_oneof![
        3 => (txmodel::pc(), prop_oneof![edge_principal(), model::leaf(), model::value()]).prop_map(|(mut p, w)| { *p.who_mut() = w; p }),
        2 => (txmodel::pc(), edge_value()).prop_map(|(p, v)| p.with_token(v)),
        2 => (txmodel::pc(), near_address()).prop_map(|(p, t)| {
            let mut p = p.with_token(V::True);
            p.asset_mut().unwrap().addr = V::RawStd(t);
            p
        }),
        2 => (txmodel::pc(), edge_name(), any::<bool>(), any::<bool>(), model::u64s()).prop_map(|(p, n, which, ft, amount)| {
            let mut p = p.with_token(V::False);
            if ft {
                if let Pc::Nft { who, asset, .. } = p {
                    p = Pc::Ft { who, amount, code: 3, asset };
                }
            }
            let a = p.asset_mut().unwrap();
            if which { a.contract = n } else { a.name = n }
            p
        }),
    ]
    .boxed()
}

fn edge_payload() -> BoxedStrategy<Pl> {
    let memo = edge_memo();
    prop_oneof![
        2 => (prop_oneof![edge_principal(), model::leaf(), model::value()], model::u64s(), txmodel::memo()).prop_map(|(to, amount, memo)| Pl::Transfer { to, amount, memo }),
        1 => (txmodel::principal(), model::u64s(), memo).prop_map(|(to, amount, memo)| Pl::Transfer { to, amount, memo }),
        2 => (txmodel::call(), edge_value(), any::<Index>()).prop_map(|(p, v, i)| match p {
            Pl::Call { addr, contract, func, mut args } => {
                args.insert(i.index(args.len() + 1), v);
                Pl::Call { addr, contract, func, args }
            }
            p => p,
        }),
        2 => (txmodel::call(), edge_name(), any::<bool>()).prop_map(|(p, n, which)| match p {
            Pl::Call { addr, contract, func, args } => if which {
                Pl::Call { addr, contract: n, func, args }
            } else {
                Pl::Call { addr, contract, func: n, args }
            },
            p => p,
        }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Edge {
    Value(V),
    Args(Vec<V>),
    Name(String),
    Conditions(Vec<Pc>),
    Payload(Pl),
    Tx(Tx),
}

fn edges() -> BoxedStrategy<Edge> {
    let pcs = (txmodel::pcs(2), edge_pc(), any::<Index>()).prop_map(|(mut v, p, i)| {
        v.insert(i.index(v.len() + 1), p);
        v
    });
    let auth = || {
        prop_oneof![
            3 => txmodel::single().prop_map(AuthM::Std),
            1 => txmodel::multi(3).prop_map(AuthM::Std),
            1 => txmodel::single().prop_map(|c| AuthM::Spo(c, None)),
        ]
        .boxed()
    };
    let tx_pc = (txmodel::tx_with(auth(), 1), pcs.clone()).prop_map(|(mut t, p)| {
        t.pcs = p;
        t
    });
    let tx_pl = (txmodel::tx_with(auth(), 2), edge_payload()).prop_map(|(mut t, p)| {
        t.payload = p;
        t
    });
    prop_oneof![
        5 => edge_value().prop_map(Edge::Value),
        2 => (model::args(2), edge_value(), any::<Index>()).prop_map(|(mut a, v, i)| { a.insert(i.index(a.len() + 1), v); Edge::Args(a) }),
        1 => edge_name().prop_map(Edge::Name),
        3 => pcs.prop_map(Edge::Conditions),
        3 => edge_payload().prop_map(Edge::Payload),
        2 => tx_pc.prop_map(Edge::Tx),
        2 => tx_pl.prop_map(Edge::Tx),
    ]
    .boxed()
}

/// Every way of getting bytes out must fail.
fn check_rejects(what: &str, c: &(impl Codec + ?Sized)) -> Verdict {
    let e = no_panic(&format!("{what}: encode"), || c.encode())?;
    if let Ok(b) = e {
        return Err(format!("{what} has no encoding but encodes as {}", short(&b)));
    }
    ensure!(no_panic(&format!("{what}: len"), || c.len())?.is_err(), "{what} has no encoding but len() succeeds");
    ensure!(no_panic(&format!("{what}: hex"), || c.hex())?.is_err(), "{what} has no encoding but hex() succeeds");
    ensure!(
        no_panic(&format!("{what}: hex_prefixed"), || c.hex_prefixed())?.is_err(),
        "{what} has no encoding but hex_prefixed() succeeds"
    );
    Ok(())
}

fn judge(what: &str, c: &(impl Codec + ?Sized), want: Option<Vec<u8>>) -> Verdict {
    match want {
        None => check_rejects(what, c),
        Some(w) => check_views(c, &w).map_err(|e| format!("{what}: {e}")),
    }
}

fn edge_enc(e: &Edge) -> Option<Vec<u8>> {
    match e {
        Edge::Value(v) => v.enc(),
        Edge::Args(a) => enc_args(a),
        Edge::Name(n) => model::enc_name(n),
        Edge::Conditions(p) => txmodel::enc_pcs(p),
        Edge::Payload(p) => p.enc(),
        Edge::Tx(t) => t.enc(),
    }
}

fn c04(e: &Edge) -> Verdict {
    let want = edge_enc(e);
    match e {
        Edge::Value(v) => judge("value", v.build().as_ref(), want),
        Edge::Args(a) => judge("argument list", &build_args(a), want),
        Edge::Name(n) => judge("name", &LengthPrefixedStr::new(n.clone()), want),
        Edge::Conditions(p) => judge("post-condition list", &txmodel::build_pcs(p), want),
        Edge::Payload(p) => judge("payload", p.build().as_ref(), want),
        Edge::Tx(t) => {
            let tx = t.build();
            let valid = want.is_some();
            judge("transaction", &tx, want)?;
            let key = match t.auth.origin() {
                Cond::Single { key, .. } => *key,
                Cond::Multi { keys, .. } => keys[0],
            };
            let h = no_panic("hash", || tx.hash())?;
            ensure!(h.is_ok() == valid, "hash() of a transaction {} is {h:?}", if valid { "at the limits" } else { "with no encoding" });
            let s = no_panic("signer", || TransactionSigner::new(tx.clone()).map(|_| ()))?;
            ensure!(s.is_ok() == valid, "a signer for a transaction {} gives {s:?}", if valid { "at the limits" } else { "with no encoding" });
            let s = no_panic("sign", || tx.clone().sign(key.secret()).map(|_| ()))?;
            ensure!(s.is_ok() == valid, "signing a transaction {} gives {s:?}", if valid { "at the limits" } else { "with no encoding" });
            Ok(())
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EdgeCall {
    text: String,
    contract: String,
    func: String,
    args: Vec<V>,
    key: Key,
}

/// The contract-call builder takes the address as text.
fn c04_builder(c: &EdgeCall) -> Verdict {
    let want = crate::refc::address_decode(&c.text).and_then(|(hash, ver)| {
        Pl::Call { addr: model::Addr { ver, hash }, contract: c.contract.clone(), func: c.func.clone(), args: c.args.clone() }.enc()
    });
    let built = no_panic("STXContractCall::transaction", || {
        STXContractCall::builder()
            .address(c.text.clone())
            .contract(c.contract.clone())
            .fn_name(c.func.clone())
            .fn_args(build_args(&c.args))
            .sender(c.key.secret())
            .network(StacksTestnet::new())
            .build()
            .transaction()
    })?;
    let address_ok = crate::refc::address_decode(&c.text).is_some();
    match built {
        Err(e) => {
            ensure!(want.is_none(), "contract call to {:?} refused: {e}", c.text);
            Ok(())
        }
        Ok(tx) => {
            ensure!(address_ok, "contract call to the malformed address {:?} was built", c.text);
            match want {
                None => check_rejects("contract call", &tx),
                Some(w) => {
                    let b = tx.encode().map_err(|e| format!("contract call at the limits does not encode: {e}"))?;
                    ensure!(b.ends_with(&w), "contract call encodes as {}", short(&b));
                    Ok(())
                }
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EdgeTransfer {
    to: V,
    memo: String,
    #[serde(with = "as_str")]
    amount: u64,
    key: Key,
}

/// The transfer builder takes the recipient as a value and the memo as text.
fn c04_transfer(c: &EdgeTransfer) -> Verdict {
    let want = Pl::Transfer { to: c.to.clone(), amount: c.amount, memo: c.memo.clone() }.enc();
    let tx = no_panic("STXTokenTransfer::transaction", || {
        with_cv!(&c.to, to => STXTokenTransfer::builder()
            .recipient(to)
            .amount(c.amount)
            .memo(c.memo.clone())
            .sender(c.key.secret())
            .network(StacksMainnet::new())
            .build()
            .transaction())
    })?;
    let signed = no_panic("sign", || tx.clone().sign(c.key.secret()).map(|_| ()))?;
    match want {
        None => {
            ensure!(signed.is_err(), "a transfer with no encoding was signed");
            check_rejects("transfer", &tx)
        }
        Some(w) => {
            let b = tx.encode().map_err(|e| format!("transfer at the limits does not encode: {e}"))?;
            ensure!(b.ends_with(&w), "transfer encodes as {}", short(&b));
            ensure!(signed.is_ok(), "a transfer at the limits cannot be signed: {signed:?}");
            Ok(())
        }
    }
}

fn edge_memo() -> BoxedStrategy<String> {
    prop_oneof![
        2 => (select(vec![33usize, 34, 35, 36, 64, 68, 255, 256, 290, 65536 + 10]), proptest::char::range('!', '~')).prop_map(|(n, c)| c.to_string().repeat(n)),
        1 => (8usize..20, select(vec!['é', 'ሴ', '🌾'])).prop_map(|(n, c)| c.to_string().repeat(n)),
        // text that is short in characters of one byte and too long with the rest
        1 => (0usize..36, vec(select(vec!['é', 'ሴ', '🌾', 'm', '\u{0}']), 1..24)).prop_map(|(n, t)| "m".repeat(n) + &t.into_iter().collect::<String>()),
        // padding characters around the limit
        1 => (20usize..40, 0usize..20, select(vec!['\u{0}', ' ', '\n'])).prop_map(|(n, z, c)| "m".repeat(n) + &c.to_string().repeat(z)),
    ]
    .boxed()
}

/// A valid address and texts that resemble it, one after another: what was
/// encoded before must not make a malformed text pass.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct AddressSession {
    good: model::Addr,
    name: String,
    /// (kind of change, position, character); kind 0: the valid text itself.
    steps: Vec<(u8, u16, u8)>,
}

fn resembling(text: &str, (kind, at, c): (u8, u16, u8)) -> String {
    const C32: &[u8] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
    let mut t: Vec<u8> = text.bytes().collect();
    let n = t.len();
    let c = C32[usize::from(c) % 32];
    match kind {
        0 => {}
        // the version, any one character, the checksum, the two ends
        1 => t[1] = c,
        2 => t[usize::from(at) % n] = c,
        3 => t[n - 1 - usize::from(at) % 7] = c,
        4 => drop(t.pop()),
        5 => t.push(c),
        6 => t.swap(usize::from(at) % n, usize::from(at) % (n - 1) + 1),
        _ => t.insert(2, b'0'),
    }
    String::from_utf8(t).expect("ASCII")
}

fn c04_session(s: &AddressSession) -> Verdict {
    for (k, step) in s.steps.iter().enumerate() {
        let t = resembling(&s.good.text(), *step);
        for v in [V::RawStd(t.clone()), V::RawCon(t.clone(), s.name.clone())] {
            let want = v.enc();
            judge("principal", v.build().as_ref(), want).map_err(|e| format!("step {k}, {t:?}: {e}"))?;
        }
        let p = Pl::Transfer { to: V::RawStd(t.clone()), amount: 1, memo: String::new() };
        judge("transfer", p.build().as_ref(), p.enc()).map_err(|e| format!("step {k}, {t:?}: {e}"))?;
        let p = vec![Pc::Stx { who: V::RawStd(t.clone()), amount: 1, code: 1 }];
        judge("post-condition", &txmodel::build_pcs(&p), txmodel::enc_pcs(&p)).map_err(|e| format!("step {k}, {t:?}: {e}"))?;
    }
    Ok(())
}

pub fn c04_property() -> Property {
    Property {
        id: "C04",
        subs: vec![
            Box::new(SubCheck {
                name: "edges",
                rule: "values, argument lists, names, post-conditions, payloads and whole transactions in which one part sits at or beyond a limit of the format, at any depth; non-trivial: the whole has no encoding.",
                quick: 100_000,
                thorough: 4_000_000,
                strategy: edges,
                classify: |e| {
                    let bad = edge_enc(e).is_none();
                    let k = match e {
                        Edge::Value(_) => "value",
                        Edge::Args(_) => "args",
                        Edge::Name(_) => "name",
                        Edge::Conditions(_) => "conditions",
                        Edge::Payload(_) => "payload",
                        Edge::Tx(_) => "transaction",
                    };
                    class(bad, vec![k, if bad { "no-encoding" } else { "at-limit" }])
                },
                run: c04,
            }),
            Box::new(SubCheck {
                name: "call-builder",
                rule: "contract calls built from address text, names and arguments at or beyond the limits; non-trivial: the call has no encoding.",
                quick: 30_000,
                thorough: 1_000_000,
                strategy: || {
                    let name = || prop_oneof![3 => model::name(), 1 => edge_name()];
                    (
                        prop_oneof![2 => near_address(), 2 => model::addr().prop_map(|a| a.text())],
                        name(),
                        name(),
                        prop_oneof![3 => vec(model::leaf(), 0..3), 1 => vec(edge_value(), 0..2)],
                        txmodel::key(),
                    )
                        .prop_map(|(text, contract, func, args, key)| EdgeCall { text, contract, func, args, key })
                        .boxed()
                },
                classify: |c| {
                    let bad = crate::refc::address_decode(&c.text).is_none() || c.contract.len() > 128 || c.func.len() > 128 || enc_args(&c.args).is_none();
                    class(bad, vec![if bad { "no-encoding" } else { "at-limit" }])
                },
                run: c04_builder,
            }),
            Box::new(SubCheck {
                name: "transfer-builder",
                rule: "transfers built from recipients and memos at or beyond the limits; non-trivial: the transfer has no encoding.",
                quick: 20_000,
                thorough: 800_000,
                strategy: || {
                    (
                        prop_oneof![2 => txmodel::principal(), 2 => edge_principal(), 1 => model::leaf()],
                        prop_oneof![1 => txmodel::memo(), 1 => edge_memo()],
                        model::u64s(),
                        txmodel::key(),
                    )
                        .prop_map(|(to, memo, amount, key)| EdgeTransfer { to, memo, amount, key })
                        .boxed()
                },
                classify: |c| {
                    let bad = Pl::Transfer { to: c.to.clone(), amount: c.amount, memo: c.memo.clone() }.enc().is_none();
                    class(bad, vec![if bad { "no-encoding" } else { "at-limit" }])
                },
                run: c04_transfer,
            }),
            Box::new(SubCheck {
                name: "session",
                rule: "a valid address and texts that differ from it in little, used one after another in principals, transfers and post-conditions; non-trivial: a malformed text after the valid one.",
                quick: 6_000,
                thorough: 200_000,
                strategy: || {
                    let step = (prop_oneof![2 => Just(0u8), 2 => Just(1u8), 3 => 2u8..8], any::<u16>(), any::<u8>());
                    (model::addr(), model::name(), vec(step, 2..8)).prop_map(|(good, name, steps)| AddressSession { good, name, steps }).boxed()
                },
                classify: |s| {
                    let first = s.steps.iter().position(|x| x.0 == 0).unwrap_or(s.steps.len());
                    class(s.steps[first..].iter().any(|x| crate::refc::address_decode(&resembling(&s.good.text(), *x)).is_none()), vec![])
                },
                run: c04_session,
            }),
        ],
        assumptions: &["address text is judged; a binary address given with Address::new is trusted"],
    }
}

// ---------------------------------------------------------------------------
// C14

fn classify_tx(t: &Tx) -> Class {
    let mut l = vec![t.auth.kind(), t.payload.kind()];
    if !t.pcs.is_empty() {
        l.push("post-conditions");
    }
    class(!t.pcs.is_empty() || matches!(&t.payload, Pl::Call { args, .. } if !args.is_empty()), l)
}

fn check_tx(tx: &Transaction, want: &[u8]) -> Verdict {
    check_views(tx, want)?;
    let h = tx.hash().map_err(|e| format!("hash failed: {e}"))?;
    ensure!(*h.as_bytes() == sha512_256(want), "transaction id is {}, expected {}", h.hex(), hex(&sha512_256(want)));
    Ok(())
}

fn c14_tx(t: &Tx) -> Verdict {
    let tx = t.build();
    let want = t.enc().expect("valid transaction");
    check_tx(&tx, &want)?;
    let c = tx.clone();
    check_tx(&c, &want).map_err(|e| format!("clone: {e}"))?;
    let a = tx.auth.encode().map_err(|e| format!("auth encode failed: {e}"))?;
    ensure!(a == t.auth.enc(false), "auth encodes as {}, expected {}", short(&a), short(&t.auth.enc(false)));
    ensure!(tx.auth.is_standard() == matches!(t.auth, AuthM::Std(_)), "is_standard is wrong");
    ensure!(tx.auth.is_sponsored() == matches!(t.auth, AuthM::Spo(..)), "is_sponsored is wrong");
    let (fee, nonce) = t.auth.origin().fee_nonce();
    let o = tx.auth.origin();
    ensure!(o.fee() == fee && o.nonce() == nonce, "origin fee/nonce {}/{}, expected {fee}/{nonce}", o.fee(), o.nonce());
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Change {
    tx: Tx,
    /// (what, value): 0 fee, 1 nonce, 2 sponsor fee, 3 sponsor nonce, 4 replace sponsor
    ops: Vec<(u8, StrU64)>,
    other: Cond,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct StrU64(#[serde(with = "as_str")] u64);

fn c14_change(c: &Change) -> Verdict {
    let mut tx = c.tx.build();
    let mut m = c.tx.clone();
    let before = tx.clone();
    for (what, StrU64(v)) in &c.ops {
        match what {
            0 => {
                tx.set_fee(*v);
                *m.auth.origin_mut().fee_nonce_mut().0 = *v;
            }
            1 => {
                tx.set_nonce(*v);
                *m.auth.origin_mut().fee_nonce_mut().1 = *v;
            }
            2 | 3 => {
                let r = tx.auth.sponsor_mut();
                match &mut m.auth {
                    AuthM::Std(_) => ensure!(r.is_err(), "a standard authorization has a sponsor"),
                    AuthM::Spo(_, Some(s)) => {
                        let r = r.map_err(|e| format!("no sponsor: {e}"))?;
                        let (f, n) = s.fee_nonce_mut();
                        if *what == 2 {
                            r.set_fee(*v);
                            *f = *v;
                        } else {
                            r.set_nonce(*v);
                            *n = *v;
                        }
                    }
                    AuthM::Spo(_, None) => {}
                }
            }
            _ => {
                let r = tx.auth.set_sponsor(c.other.build());
                match &mut m.auth {
                    AuthM::Std(_) => ensure!(r.is_err(), "a standard authorization took a sponsor"),
                    AuthM::Spo(_, s) => {
                        r.map_err(|e| format!("set_sponsor failed: {e}"))?;
                        *s = Some(c.other.clone());
                    }
                }
            }
        }
        check_tx(&tx, &m.enc().unwrap()).map_err(|e| format!("after change {what} to {v}: {e}"))?;
    }
    check_tx(&before, &c.tx.enc().unwrap()).map_err(|e| format!("an earlier clone changed: {e}"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Built {
    /// 0 mainnet, 1 testnet, 2 mocknet
    net: u8,
    /// Which optional setters are used: 0 none, 1 all, 2.. one each.
    form: u8,
    key: Key,
    #[serde(with = "as_str")]
    fee: u64,
    #[serde(with = "as_str")]
    nonce: u64,
    anchor: u8,
    pc_mode: u8,
    pcs: Vec<Pc>,
    payload: Pl,
}

fn builds() -> BoxedStrategy<Built> {
    (
        0u8..3,
        prop_oneof![1 => Just(0u8), 3 => Just(1u8), 3 => 2u8..8],
        txmodel::key(),
        model::u64s(),
        model::u64s(),
        1u8..=3,
        1u8..=2,
        txmodel::pcs(2),
        txmodel::payload(),
    )
        .prop_map(|(net, form, key, fee, nonce, anchor, pc_mode, pcs, payload)| Built { net, form, key, fee, nonce, anchor, pc_mode, pcs, payload })
        .boxed()
}

fn c14_built(b: &Built) -> Verdict {
    match b.net {
        0 => c14_net(b, StacksMainnet::new(), true),
        1 => c14_net(b, StacksTestnet::new(), false),
        _ => c14_net(b, StacksMocknet::new(), false),
    }
}

fn c14_net<N: Network + Clone>(b: &Built, net: N, main: bool) -> Verdict {
    // Expected choices: defaults unless the form sets them.
    let on = |k: u8| b.form == 1 || b.form == k;
    let mut memo = None;
    let payload = match &b.payload {
        Pl::Transfer { to, amount, memo: m } => {
            memo = Some(m.clone());
            Pl::Transfer { to: to.clone(), amount: *amount, memo: if on(7) { m.clone() } else { String::new() } }
        }
        p => p.clone(),
    };
    let model = Tx {
        main_version: main,
        main_chain: main,
        auth: AuthM::Std(Cond::Single {
            key: b.key,
            segwit: false,
            fee: if on(2) { b.fee } else { 0 },
            nonce: if on(3) { b.nonce } else { 0 },
            sig: vec![],
        }),
        anchor: if on(4) { b.anchor } else { 3 },
        pc_mode: if on(5) { b.pc_mode } else { 1 },
        pcs: if on(6) { b.pcs.clone() } else { vec![] },
        payload: payload.clone(),
    };
    let pcs = txmodel::build_pcs(&b.pcs);
    let tx = match &b.payload {
        Pl::Transfer { to, amount, .. } => {
            let memo = memo.unwrap();
            with_cv!(to, to => {
                let base = STXTokenTransfer::builder().recipient(to).amount(*amount).sender(b.key.secret()).network(net);
                match b.form {
                    0 => base.build(),
                    1 => base
                        .fee(b.fee)
                        .nonce(b.nonce)
                        .anchor_mode(anchor(b.anchor))
                        .memo(memo)
                        .post_condition_mode(pc_mode(b.pc_mode))
                        .post_conditions(pcs)
                        .sponsored(false)
                        .build(),
                    2 => base.fee(b.fee).build(),
                    3 => base.nonce(b.nonce).build(),
                    4 => base.anchor_mode(anchor(b.anchor)).build(),
                    5 => base.post_condition_mode(pc_mode(b.pc_mode)).build(),
                    6 => base.post_conditions(pcs).build(),
                    _ => base.memo(memo).build(),
                }
                .transaction()
            })
        }
        Pl::Call { addr, contract, func, args } => {
            let base = STXContractCall::builder()
                .address(addr.text())
                .contract(contract.clone())
                .fn_name(func.clone())
                .fn_args(build_args(args))
                .sender(b.key.secret())
                .network(net);
            match b.form {
                1 => base
                    .fee(b.fee)
                    .nonce(b.nonce)
                    .anchor_mode(anchor(b.anchor))
                    .post_condition_mode(pc_mode(b.pc_mode))
                    .post_conditions(pcs)
                    .sponsored(false)
                    .build(),
                2 => base.fee(b.fee).build(),
                3 => base.nonce(b.nonce).build(),
                4 => base.anchor_mode(anchor(b.anchor)).build(),
                5 => base.post_condition_mode(pc_mode(b.pc_mode)).build(),
                6 => base.post_conditions(pcs).build(),
                _ => base.build(),
            }
            .transaction()
            .map_err(|e| format!("building a contract call failed: {e}"))?
        }
    };
    check_tx(&tx, &model.enc().unwrap())
}

pub fn c14() -> Property {
    Property {
        id: "C14",
        subs: vec![
            Box::new(SubCheck {
                name: "transactions",
                rule: "transactions over every network, anchor and post-condition mode, 0-4 post-conditions, both payloads and single-, multi-sig and sponsored authorizations with arbitrary signature fields; non-trivial: has post-conditions or call arguments.",
                quick: 25_000,
                thorough: 1_000_000,
                strategy: txmodel::any_tx,
                classify: classify_tx,
                run: c14_tx,
            }),
            Box::new(SubCheck {
                name: "changes",
                rule: "the same transactions under sequences of fee, nonce and sponsor changes; non-trivial: at least one change.",
                quick: 12_000,
                thorough: 500_000,
                strategy: || {
                    (txmodel::any_tx(), vec((0u8..5, model::u64s().prop_map(StrU64)), 0..4), txmodel::cond_with_fields())
                        .prop_map(|(tx, ops, other)| Change { tx, ops, other })
                        .boxed()
                },
                classify: |c| class(!c.ops.is_empty(), vec![c.tx.auth.kind()]),
                run: c14_change,
            }),
            Box::new(SubCheck {
                name: "builders",
                rule: "transfer and contract-call builders on the three networks with no, all, or exactly one optional setting used; non-trivial: some setting used.",
                quick: 25_000,
                thorough: 1_000_000,
                strategy: builds,
                classify: |b| class(b.form > 0, vec![b.payload.kind(), if b.form == 0 { "defaults" } else if b.form == 1 { "all-set" } else { "one-set" }]),
                run: c14_built,
            }),
        ],
        assumptions: &[
            "the reference serializer in harness/src/txmodel.rs is the SIP-005 layout",
            "multi-sig authorizations have at most 16 keys",
        ],
    }
}
