//! C16: payload decoding inverts encoding and is total.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::Codec;
use stacks_rs::transaction::{ContractCallPayload, Payload, TokenTransferPayload};

use crate::alloc::measured;
use crate::checks::clarity::short;
use crate::checks::decode::{alloc_limit, deep_bytes, mutate, mutation, raw_name, raw_value};
use crate::ensure;
use crate::model::{self, as_hex, Addr, Reader, V};
use crate::runner::{class, no_panic, Class, Property, SubCheck, Verdict};
use crate::txmodel::{self, Pl};

/// What the bytes denote; a contract-call address may have any version byte.
struct Read {
    pl: Option<Pl>,
    used: usize,
    open: bool,
}

fn read(b: &[u8]) -> Read {
    let mut r = Reader::new(b);
    let pl = (|| {
        Some(match r.u8()? {
            0 => {
                let to = r.value()?;
                if !matches!(to, V::Std(_) | V::Con(..)) {
                    return None;
                }
                let amount = r.u64()?;
                let memo = String::from_utf8(r.take(34)?.to_vec()).ok()?;
                Pl::Transfer { to, amount, memo }
            }
            2 => {
                let ver = r.u8()?;
                let hash = r.take(20)?.try_into().unwrap();
                let contract = r.name()?;
                let func = r.name()?;
                let args = r.args()?;
                Pl::Call { addr: Addr { ver, hash }, contract, func, args }
            }
            _ => return None,
        })
    })();
    Read { pl, used: r.pos, open: r.dup || r.deep }
}

fn unpad(s: &str) -> &str {
    s.trim_end_matches('\0')
}

fn same_transfer(p: &TokenTransferPayload, want: &Pl) -> Verdict {
    let Pl::Transfer { to, amount, memo } = want else {
        return Err(format!("decoded as a transfer, expected {}", want.kind()));
    };
    to.same_as(p.address.as_ref()).map_err(|e| format!("recipient: {e}"))?;
    ensure!(p.amount == *amount, "amount is {}, expected {amount}", p.amount);
    ensure!(unpad(&p.memo) == unpad(memo), "memo is {:?}, expected {memo:?}", p.memo);
    Ok(())
}

fn same_call(p: &ContractCallPayload, want: &Pl) -> Verdict {
    let Pl::Call { addr, contract, func, args } = want else {
        return Err(format!("decoded as a contract call, expected {}", want.kind()));
    };
    ensure!(p.address.version == addr.ver && *p.address.hash.as_bytes() == addr.hash, "address is {:?}, expected {addr:?}", p.address);
    ensure!(p.contract.value() == contract, "contract name is {:?}, expected {contract:?}", p.contract.value());
    ensure!(p.name.value() == func, "function name is {:?}, expected {func:?}", p.name.value());
    ensure!(p.args.value().len() == args.len(), "{} arguments, expected {}", p.args.value().len(), args.len());
    for (i, (v, c)) in args.iter().zip(p.args.value()).enumerate() {
        v.same_as(c.as_ref()).map_err(|e| format!("argument {i}: {e}"))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Trip {
    pl: Pl,
    #[serde(with = "as_hex")]
    tail: Vec<u8>,
}

fn c16_trip(t: &Trip) -> Verdict {
    let enc = t.pl.build().encode().map_err(|e| format!("encode failed: {e}"))?;
    let mut wire = enc.clone();
    wire.extend_from_slice(&t.tail);
    let again = match &t.pl {
        Pl::Transfer { .. } => {
            let p = TokenTransferPayload::decode(&wire).map_err(|e| format!("decode failed on {}: {e}", short(&wire)))?;
            same_transfer(&p, &t.pl)?;
            ensure!(ContractCallPayload::decode(&wire).is_err(), "a transfer decodes as a contract call");
            p.encode()
        }
        Pl::Call { .. } => {
            let p = ContractCallPayload::decode(&wire).map_err(|e| format!("decode failed on {}: {e}", short(&wire)))?;
            same_call(&p, &t.pl)?;
            ensure!(TokenTransferPayload::decode(&wire).is_err(), "a contract call decodes as a transfer");
            p.encode()
        }
    }
    .map_err(|e| format!("re-encoding failed: {e}"))?;
    ensure!(again == enc, "re-encodes as {}, expected {}", short(&again), short(&enc));
    let boxed = <Box<dyn Payload> as Codec>::decode(&wire).map_err(|e| format!("boxed decode failed: {e}"))?;
    let again = boxed.encode().map_err(|e| format!("re-encoding failed: {e}"))?;
    ensure!(again == enc, "boxed payload re-encodes as {}, expected {}", short(&again), short(&enc));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wire(#[serde(with = "as_hex")] Vec<u8>);

enum Got {
    T(TokenTransferPayload),
    C(ContractCallPayload),
    B(Box<dyn Payload>),
}

fn c16_wire(w: &Wire) -> Verdict {
    let b = &w.0;
    let want = read(b);
    for which in 0..3 {
        let what = ["TokenTransferPayload::decode", "ContractCallPayload::decode", "Box<dyn Payload>::decode"][which];
        let (got, max) = measured(|| {
            no_panic(what, || match which {
                0 => TokenTransferPayload::decode(b).ok().map(Got::T),
                1 => ContractCallPayload::decode(b).ok().map(Got::C),
                _ => <Box<dyn Payload> as Codec>::decode(b).ok().map(Got::B),
            })
        });
        let got = got?;
        ensure!(max <= alloc_limit(b.len()), "{what} requested {max} bytes of memory at once for {} bytes of input", b.len());
        if want.open {
            continue;
        }
        let mine = match (which, &want.pl) {
            (0, Some(Pl::Transfer { .. })) | (1, Some(Pl::Call { .. })) | (2, Some(_)) => want.pl.as_ref(),
            _ => None,
        };
        let Some(got) = got else {
            // Rejecting is wrong only for what the encoder itself produces.
            if let Some(pl) = mine {
                let known = match pl {
                    Pl::Call { addr, .. } => crate::refc::VERSIONS.contains(&addr.ver),
                    Pl::Transfer { .. } => true,
                };
                ensure!(
                    !(known && pl.enc().as_deref() == Some(&b[..want.used])),
                    "{what} rejected a well-formed payload {}",
                    short(b)
                );
            }
            continue;
        };
        let Some(pl) = mine else {
            return Err(format!("{what} accepted malformed bytes {}", short(b)));
        };
        match &got {
            Got::T(p) => same_transfer(p, pl),
            Got::C(p) => same_call(p, pl),
            Got::B(p) => {
                let e = p.encode().map_err(|e| format!("{what}: re-encoding failed: {e}"))?;
                ensure!(Some(&e) == pl.enc().as_ref(), "{what} on {}: re-encodes as {}", short(b), short(&e));
                Ok(())
            }
        }
        .map_err(|e| format!("{what} on {}: {e}", short(b)))?;
    }
    Ok(())
}

fn wires() -> BoxedStrategy<Wire> {
    let base = prop_oneof![
        4 => txmodel::payload().prop_map(|p| p.enc().unwrap()),
        1 => (model::leaf(), model::u64s()).prop_map(|(v, n)| {
            let mut b = vec![0];
            b.extend(v.enc().unwrap());
            b.extend_from_slice(&n.to_be_bytes());
            b.extend_from_slice(&[0; 34]);
            b
        }),
        1 => (any::<u8>(), any::<[u8; 20]>(), model::name(), model::name()).prop_map(|(v, h, c, f)| {
            let mut b = vec![2, v];
            b.extend_from_slice(&h);
            b.extend(model::enc_name(&c).unwrap());
            b.extend(model::enc_name(&f).unwrap());
            b.extend_from_slice(&[0; 4]);
            b
        }),
    ];
    // honest lengths, possibly ill-formed contents
    let memo = prop_oneof![
        2 => vec(any::<u8>(), 34),
        2 => (model::utf8(34), any::<u8>()).prop_map(|(s, fill)| { let mut b = s.into_bytes(); b.resize(34, if fill < 200 { 0 } else { fill }); b }),
    ];
    let ill = prop_oneof![
        (raw_value(), model::u64s(), memo).prop_map(|(v, n, m)| [vec![0], v, n.to_be_bytes().to_vec(), m].concat()),
        (proptest::sample::select(vec![22u8, 20, 26, 21]), any::<[u8; 20]>(), raw_name(), raw_name(), vec(raw_value(), 0..3)).prop_map(|(v, h, c, f, a)| {
            [vec![2, v], h.to_vec(), c, f, (a.len() as u32).to_be_bytes().to_vec(), a.concat()].concat()
        }),
    ];
    prop_oneof![
        3 => ill,
        6 => (base, vec(mutation(), 0..3)).prop_map(|(b, ms)| mutate(b, &ms)),
        1 => (0u8..4, vec(any::<u8>(), 0..90)).prop_map(|(t, mut b)| { b.insert(0, t); b }),
        1 => vec(any::<u8>(), 0..40),
    ]
    .prop_map(Wire)
    .boxed()
}

fn classify_wire(w: &Wire) -> Class {
    let r = read(&w.0);
    class(r.used > 1, vec![if r.open { "open" } else if r.pl.is_some() { "well-formed" } else { "malformed" }])
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deep {
    call: bool,
    pattern: Vec<u8>,
    levels: usize,
}

pub fn c16() -> Property {
    Property {
        id: "C16",
        subs: vec![
            Box::new(SubCheck {
                name: "round-trip",
                rule: "transfer and contract-call payloads with every argument type, names to 128 bytes, memos to 34 bytes, trailing bytes; non-trivial: contract call with arguments, or transfer with a memo.",
                quick: 150_000,
                thorough: 2_000_000,
                strategy: || {
                    (txmodel::payload(), prop_oneof![Just(vec![]), model::bytes(20)]).prop_map(|(pl, tail)| Trip { pl, tail }).boxed()
                },
                classify: |t| match &t.pl {
                    Pl::Transfer { memo, .. } => class(!memo.is_empty(), vec!["transfer"]),
                    Pl::Call { args, .. } => class(!args.is_empty(), vec!["contract-call"]),
                },
                run: c16_trip,
            }),
            Box::new(SubCheck {
                name: "bytes",
                rule: "encoded payloads with 0-2 mutations, payloads with foreign recipients and versions, random bytes, through all three decoders; non-trivial: the reference reader gets past the first byte.",
                quick: 450_000,
                thorough: 6_000_000,
                strategy: wires,
                classify: classify_wire,
                run: c16_wire,
            }),
            Box::new(SubCheck {
                name: "deep",
                rule: "payloads whose recipient or argument nests 1 to 200000 levels; non-trivial: more than 32 levels.",
                quick: 900,
                thorough: 6_000,
                strategy: || {
                    (any::<bool>(), vec(0u8..5, 1..4), prop_oneof![3 => 1usize..400, 2 => 400usize..20_000, 1 => Just(200_000usize)])
                        .prop_map(|(call, pattern, levels)| Deep { call, pattern, levels })
                        .boxed()
                },
                classify: |d| class(d.levels > 32, vec![if d.call { "argument" } else { "recipient" }]),
                run: |d| {
                    let mut b = if d.call { vec![2, 22] } else { vec![0] };
                    if d.call {
                        b.extend_from_slice(&[9; 20]);
                        b.extend_from_slice(&[1, b'a', 1, b'b', 0, 0, 0, 1]);
                    }
                    b.extend(deep_bytes(&d.pattern, d.levels, &[3]));
                    b.extend_from_slice(&[0; 42]);
                    c16_wire(&Wire(b))
                },
            }),
        ],
        assumptions: &[
            "a contract-call payload with an address version outside the four, tuples with repeated keys and nesting beyond 32 levels may be accepted or rejected",
            "memos compare up to trailing zero bytes",
        ],
    }
}
