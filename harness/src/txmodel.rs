//! Reference model of post-conditions, payloads, authorizations and
//! transactions: SIP-005 serializer, signature-hash rules and construction of
//! the real objects.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use secp256k1::{PublicKey, SecretKey};
use serde::{Deserialize, Serialize};
use stacks_rs::crypto::c32::{Address, Mode};
use stacks_rs::crypto::{Hash160, MessageSignature};
use stacks_rs::transaction::{
    AnchorMode, AssetInfo, Auth, ChainID, Condition, ConditionCode, ContractCallPayload, FungiblePostCondition,
    Modification, NonFungiblePostCondition, Payload, PostConditionMode, PostConditions, STXPostCondition,
    SpendingCondition, SpendingConditionMultiSig, SpendingConditionStandard, TokenTransferPayload, Transaction,
    TransactionVersion,
};

use crate::checks::clarity::{build_args, enc_args};
use crate::model::{self, as_hex, as_str, Addr, V};
use crate::refhash::{hash160, sha256, sha512_256};

/// Binds a concrete Clarity value built from a model value.
#[macro_export]
macro_rules! with_cv {
    ($v:expr, $c:ident => $e:expr) => {{
        use stacks_rs::clarity as cl;
        match $v {
            V::Int(i) => { let $c = cl::Int::new(*i); $e }
            V::UInt(i) => { let $c = cl::UInt::new(*i); $e }
            V::Buf(b) => { let $c = cl::Buffer::new(b.clone()); $e }
            V::True => { let $c = cl::True::new(); $e }
            V::False => { let $c = cl::False::new(); $e }
            V::Std(a) => { let $c = cl::PrincipalStandard::new(a.text()); $e }
            V::Con(a, n) => { let $c = cl::PrincipalContract::new((a.text(), n.clone())); $e }
            V::Ok(v) => { let $c = cl::ResponseOk::new(v.build()); $e }
            V::Err(v) => { let $c = cl::ResponseErr::new(v.build()); $e }
            V::None => { let $c = cl::OptionalNone::new(); $e }
            V::Some(v) => { let $c = cl::OptionalSome::new(v.build()); $e }
            V::List(l) => { let $c = cl::List::new(l.iter().map(V::build).collect()); $e }
            V::Tuple(f) => { let $c = $crate::model::build_tuple(f); $e }
            V::Ascii(s) => { let $c = cl::StringAscii::new(s.clone()); $e }
            V::Utf8(s) => { let $c = cl::StringUtf8::new(s.clone()); $e }
            V::RawStd(s) => { let $c = cl::PrincipalStandard::new(s.clone()); $e }
            V::RawCon(s, n) => { let $c = cl::PrincipalContract::new((s.clone(), n.clone())); $e }
        }
    }};
}

/// The address text of a principal model.
pub fn text_of(v: &V) -> String {
    match v {
        V::Std(a) | V::Con(a, _) => a.text(),
        V::RawStd(s) | V::RawCon(s, _) => s.clone(),
        _ => String::new(),
    }
}

// ---------------------------------------------------------------------------
// Post-conditions

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Asset {
    /// A standard principal (possibly raw text).
    pub addr: V,
    pub contract: String,
    pub name: String,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pc {
    Stx { who: V, #[serde(with = "as_str")] amount: u64, code: u8 },
    Ft { who: V, #[serde(with = "as_str")] amount: u64, code: u8, asset: Asset },
    Nft { who: V, token: V, code: u8, asset: Asset },
}

pub fn code(c: u8) -> ConditionCode {
    match c {
        1 => ConditionCode::EQ,
        2 => ConditionCode::GT,
        3 => ConditionCode::GTE,
        4 => ConditionCode::LT,
        5 => ConditionCode::LTE,
        0x10 => ConditionCode::HasNot,
        0x11 => ConditionCode::Has,
        _ => unreachable!("condition code"),
    }
}

impl Asset {
    pub fn enc(&self) -> Option<Vec<u8>> {
        let mut b = principal_wire(&self.addr)?;
        if b.remove(0) != 2 {
            return None;
        }
        b.extend(model::enc_name(&self.contract)?);
        b.extend(model::enc_name(&self.name)?);
        Some(b)
    }
    pub fn build(&self) -> AssetInfo {
        AssetInfo::new(text_of(&self.addr), self.contract.clone(), self.name.clone())
    }
}

/// Principal in a post-condition: 02 for standard, 03 for contract.
fn principal_wire(v: &V) -> Option<Vec<u8>> {
    let e = match v {
        V::Std(_) | V::RawStd(_) | V::Con(..) | V::RawCon(..) => v.enc()?,
        _ => return None,
    };
    let mut b = vec![if e[0] == 5 { 2 } else { 3 }];
    b.extend_from_slice(&e[1..]);
    Some(b)
}

impl Pc {
    pub fn enc(&self) -> Option<Vec<u8>> {
        let mut b;
        match self {
            Pc::Stx { who, amount, code } => {
                b = vec![0];
                b.extend(principal_wire(who)?);
                b.push(*code);
                b.extend_from_slice(&amount.to_be_bytes());
            }
            Pc::Ft { who, amount, code, asset } => {
                b = vec![1];
                b.extend(principal_wire(who)?);
                b.extend(asset.enc()?);
                b.push(*code);
                b.extend_from_slice(&amount.to_be_bytes());
            }
            Pc::Nft { who, token, code, asset } => {
                b = vec![2];
                b.extend(principal_wire(who)?);
                b.extend(asset.enc()?);
                b.extend(token.enc()?);
                b.push(*code);
            }
        }
        Some(b)
    }

    pub fn build(&self) -> Box<dyn Condition> {
        match self {
            Pc::Stx { who, amount, code: c } => {
                with_cv!(who, w => Box::new(STXPostCondition::new(w, *amount, code(*c))))
            }
            Pc::Ft { who, amount, code: c, asset } => {
                with_cv!(who, w => Box::new(FungiblePostCondition::new(w, *amount, code(*c), asset.build())))
            }
            Pc::Nft { who, token, code: c, asset } => {
                with_cv!(who, w => nft(w, token, code(*c), asset.build()))
            }
        }
    }

    pub fn who(&self) -> &V {
        match self {
            Pc::Stx { who, .. } | Pc::Ft { who, .. } | Pc::Nft { who, .. } => who,
        }
    }
    pub fn who_mut(&mut self) -> &mut V {
        match self {
            Pc::Stx { who, .. } | Pc::Ft { who, .. } | Pc::Nft { who, .. } => who,
        }
    }
    pub fn asset_mut(&mut self) -> Option<&mut Asset> {
        match self {
            Pc::Stx { .. } => None,
            Pc::Ft { asset, .. } | Pc::Nft { asset, .. } => Some(asset),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            Pc::Stx { .. } => "stx",
            Pc::Ft { .. } => "ft",
            Pc::Nft { .. } => "nft",
        }
    }

    /// The same condition with one part changed.
    pub fn nudge(&self, d: u8) -> Pc {
        let mut p = self.clone();
        match d % 6 {
            0 => {
                let w = p.who_mut();
                *w = match w.clone() {
                    V::Std(mut a) => {
                        a.hash[(d / 6 % 20) as usize] ^= 1 << (d % 8);
                        V::Std(a)
                    }
                    V::Con(a, n) if n.len() < 128 => V::Con(a, format!("{n}x")),
                    V::Con(a, _) => V::Con(a, "x".into()),
                    x => x,
                };
            }
            1 => {
                let w = p.who_mut();
                *w = match w.clone() {
                    V::Std(a) => V::Con(a, "c".into()),
                    V::Con(a, _) => V::Std(a),
                    x => x,
                };
            }
            2 => match &mut p {
                Pc::Stx { code, .. } | Pc::Ft { code, .. } => *code = *code % 5 + 1,
                Pc::Nft { code, .. } => *code ^= 1,
            },
            3 => match &mut p {
                Pc::Stx { amount, .. } | Pc::Ft { amount, .. } => *amount ^= 1 << (d % 64),
                Pc::Nft { token, .. } => *token = V::Some(Box::new(token.clone())),
            },
            4 => match p.asset_mut() {
                Some(a) => a.name = if a.name == "q" { "r".into() } else { "q".into() },
                None => return p.nudge(2),
            },
            _ => match p.asset_mut() {
                Some(a) => {
                    if d / 6 % 2 == 0 {
                        a.contract = if a.contract == "q" { "r".into() } else { "q".into() };
                    } else if let V::Std(x) = &mut a.addr {
                        x.hash[19] ^= 1;
                    }
                }
                None => return p.nudge(3),
            },
        }
        p
    }

    pub fn with_token(&self, token: V) -> Pc {
        let asset = match self {
            Pc::Ft { asset, .. } | Pc::Nft { asset, .. } => asset.clone(),
            Pc::Stx { .. } => Asset { addr: V::Std(Addr { ver: 22, hash: [7; 20] }), contract: "c".into(), name: "n".into() },
        };
        Pc::Nft { who: self.who().clone(), token, code: 0x10, asset }
    }
}

fn nft<T: stacks_rs::clarity::Clarity>(who: T, token: &V, c: ConditionCode, info: AssetInfo) -> Box<dyn Condition> {
    with_cv!(token, t => Box::new(NonFungiblePostCondition::new(who, t, c, info)))
}

pub fn build_pcs(p: &[Pc]) -> PostConditions {
    PostConditions::new(p.iter().map(Pc::build).collect())
}

pub fn enc_pcs(p: &[Pc]) -> Option<Vec<u8>> {
    let mut b = u32::try_from(p.len()).unwrap().to_be_bytes().to_vec();
    for x in p {
        b.extend(x.enc()?);
    }
    Some(b)
}

pub fn principal() -> BoxedStrategy<V> {
    prop_oneof![
        model::addr().prop_map(V::Std),
        (model::addr(), model::name()).prop_map(|(a, n)| V::Con(a, n)),
    ]
    .boxed()
}

pub fn asset() -> BoxedStrategy<Asset> {
    (model::addr(), model::name(), model::name())
        .prop_map(|(a, contract, name)| Asset { addr: V::Std(a), contract, name })
        .boxed()
}

pub fn pc() -> BoxedStrategy<Pc> {
    prop_oneof![
        (principal(), model::u64s(), 1u8..=5).prop_map(|(who, amount, code)| Pc::Stx { who, amount, code }),
        (principal(), model::u64s(), 1u8..=5, asset())
            .prop_map(|(who, amount, code, asset)| Pc::Ft { who, amount, code, asset }),
        (principal(), prop_oneof![2 => model::leaf(), 1 => model::value()], select(vec![0x10u8, 0x11]), asset())
            .prop_map(|(who, token, code, asset)| Pc::Nft { who, token, code, asset }),
    ]
    .boxed()
}

/// Post-condition lists: mostly a few, now and then many.
pub fn pcs(max: usize) -> BoxedStrategy<Vec<Pc>> {
    prop_oneof![
        60 => vec(pc(), 0..=max),
        1 => (model::edge_sizes(600), vec(pc(), 1..3)).prop_map(|(n, base)| (0..n).map(|i| base[i % base.len()].nudge((i % 251) as u8)).collect()),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------
// Payloads

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Pl {
    Transfer { to: V, #[serde(with = "as_str")] amount: u64, memo: String },
    Call { addr: Addr, contract: String, func: String, args: Vec<V> },
}

pub fn real_address(a: &Addr) -> Address {
    Address::new(Hash160::new(a.hash), a.ver)
}

impl Pl {
    pub fn enc(&self) -> Option<Vec<u8>> {
        match self {
            Pl::Transfer { to, amount, memo } => {
                if memo.len() > 34 || !matches!(to, V::Std(_) | V::Con(..) | V::RawStd(_) | V::RawCon(..)) {
                    return None;
                }
                let mut b = vec![0];
                b.extend(to.enc()?);
                b.extend_from_slice(&amount.to_be_bytes());
                let mut m = memo.as_bytes().to_vec();
                m.resize(34, 0);
                b.extend(m);
                Some(b)
            }
            Pl::Call { addr, contract, func, args } => {
                let mut b = vec![2];
                b.extend(addr.wire());
                b.extend(model::enc_name(contract)?);
                b.extend(model::enc_name(func)?);
                b.extend(enc_args(args)?);
                Some(b)
            }
        }
    }

    pub fn build(&self) -> Box<dyn Payload> {
        match self {
            Pl::Transfer { to, amount, memo } => {
                with_cv!(to, t => Box::new(TokenTransferPayload::new(t, *amount, memo.clone())))
            }
            Pl::Call { addr, contract, func, args } => Box::new(ContractCallPayload::new(
                real_address(addr),
                contract.clone(),
                func.clone(),
                build_args(args),
            )),
        }
    }

    pub fn kind(&self) -> &'static str {
        match self {
            Pl::Transfer { .. } => "transfer",
            Pl::Call { .. } => "contract-call",
        }
    }
}

/// Memos of at most 34 bytes, with the limit over-represented.
pub fn memo() -> BoxedStrategy<String> {
    let fit = |s: String| {
        let mut n = s.len().min(34);
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s[..n].to_string()
    };
    prop_oneof![
        1 => Just(String::new()),
        3 => model::ascii(34),
        2 => model::utf8(20).prop_map(fit),
        1 => (select(vec![32usize, 33, 34]), proptest::char::range('!', '~')).prop_map(|(n, c)| c.to_string().repeat(n)),
    ]
    .boxed()
}

pub fn payload() -> BoxedStrategy<Pl> {
    prop_oneof![
        2 => (principal(), model::u64s(), memo()).prop_map(|(to, amount, memo)| Pl::Transfer { to, amount, memo }),
        3 => call(),
    ]
    .boxed()
}

pub fn call() -> BoxedStrategy<Pl> {
    (model::addr(), model::name(), model::name(), model::args(3))
        .prop_map(|(addr, contract, func, args)| Pl::Call { addr, contract, func, args })
        .boxed()
}

// ---------------------------------------------------------------------------
// Keys and authorizations

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Key(#[serde(with = "as_hex")] pub [u8; 32]);

impl Key {
    pub fn secret(&self) -> SecretKey {
        SecretKey::from_slice(&self.0).expect("valid scalar")
    }
    pub fn public(&self) -> PublicKey {
        PublicKey::from_secret_key(&secp256k1::Secp256k1::signing_only(), &self.secret())
    }
}

pub fn key() -> BoxedStrategy<Key> {
    fn fix(b: [u8; 32]) -> Key {
        if SecretKey::from_slice(&b).is_ok() {
            Key(b)
        } else {
            Key(sha256(&b))
        }
    }
    let small = (1u64..50).prop_map(|n| {
        let mut b = [0u8; 32];
        b[24..].copy_from_slice(&n.to_be_bytes());
        b
    });
    // close to the group order from below
    let top = (0u8..60).prop_map(|d| {
        let mut b = [0u8; 32];
        b.copy_from_slice(&model::parse_hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364100"));
        b[31] = 0x40 - d;
        b
    });
    prop_oneof![6 => any::<[u8; 32]>(), 2 => small, 1 => top].prop_map(fix).boxed()
}

/// `n` distinct keys.
pub fn distinct_keys(n: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<Key>> {
    let lo = *n.start();
    vec(key(), n)
        .prop_map(move |ks| {
            let mut out: Vec<Key> = vec![];
            for k in ks {
                let mut k = k;
                while out.contains(&k) {
                    k = Key(sha256(&k.0));
                }
                out.push(k);
            }
            debug_assert!(out.len() >= lo);
            out
        })
        .boxed()
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Field {
    Pk(Key),
    Sig(#[serde(with = "as_hex")] [u8; 65]),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Cond {
    Single {
        key: Key,
        segwit: bool,
        #[serde(with = "as_str")]
        fee: u64,
        #[serde(with = "as_str")]
        nonce: u64,
        /// The signature already present, if any.
        #[serde(with = "as_hex")]
        sig: Vec<u8>,
    },
    Multi {
        keys: Vec<Key>,
        required: u8,
        segwit: bool,
        #[serde(with = "as_str")]
        fee: u64,
        #[serde(with = "as_str")]
        nonce: u64,
        fields: Vec<Field>,
    },
}

/// The m-of-n script.
pub fn multisig_script(required: u8, keys: &[PublicKey]) -> Vec<u8> {
    let mut s = vec![0x50u8.wrapping_add(required)];
    for k in keys {
        s.push(33);
        s.extend_from_slice(&k.serialize());
    }
    s.push(0x50u8.wrapping_add(keys.len() as u8));
    s.push(0xae);
    s
}

pub fn ref_p2pkh(pk: &[u8]) -> [u8; 20] {
    hash160(pk)
}
pub fn ref_p2wpkh(pk: &[u8]) -> [u8; 20] {
    let mut b = vec![0, 20];
    b.extend_from_slice(&hash160(pk));
    hash160(&b)
}
pub fn ref_p2sh(m: u8, keys: &[PublicKey]) -> [u8; 20] {
    hash160(&multisig_script(m, keys))
}
pub fn ref_p2wsh(m: u8, keys: &[PublicKey]) -> [u8; 20] {
    let mut b = vec![0, 32];
    b.extend_from_slice(&sha256(&multisig_script(m, keys)));
    hash160(&b)
}

pub const DEFAULT_SPONSOR: [u8; 103] = [0; 103];

impl Cond {
    pub fn mode(&self) -> Mode {
        match self {
            Cond::Single { segwit: false, .. } => Mode::P2PKH,
            Cond::Multi { segwit: false, .. } => Mode::P2SH,
            Cond::Single { segwit: true, .. } => Mode::P2WPKH,
            Cond::Multi { segwit: true, .. } => Mode::P2WSH,
        }
    }
    pub fn fee_nonce(&self) -> (u64, u64) {
        match self {
            Cond::Single { fee, nonce, .. } | Cond::Multi { fee, nonce, .. } => (*fee, *nonce),
        }
    }
    pub fn fee_nonce_mut(&mut self) -> (&mut u64, &mut u64) {
        match self {
            Cond::Single { fee, nonce, .. } | Cond::Multi { fee, nonce, .. } => (fee, nonce),
        }
    }
    pub fn required(&self) -> usize {
        match self {
            Cond::Single { .. } => 1,
            Cond::Multi { required, .. } => *required as usize,
        }
    }
    pub fn signer(&self) -> [u8; 20] {
        match self {
            Cond::Single { key, segwit, .. } => {
                let pk = key.public().serialize();
                if *segwit {
                    ref_p2wpkh(&pk)
                } else {
                    ref_p2pkh(&pk)
                }
            }
            Cond::Multi { keys, required, segwit, .. } => {
                let pks: Vec<PublicKey> = keys.iter().map(Key::public).collect();
                if *segwit {
                    ref_p2wsh(*required, &pks)
                } else {
                    ref_p2sh(*required, &pks)
                }
            }
        }
    }

    /// Wire form; `cleared` zeroes fee, nonce and signatures.
    pub fn enc(&self, cleared: bool) -> Vec<u8> {
        let (fee, nonce) = if cleared { (0, 0) } else { self.fee_nonce() };
        let mode = match (matches!(self, Cond::Multi { .. }), self.segwit()) {
            (false, false) => 0u8,
            (true, false) => 1,
            (false, true) => 2,
            (true, true) => 3,
        };
        let mut b = vec![mode];
        b.extend_from_slice(&self.signer());
        b.extend_from_slice(&nonce.to_be_bytes());
        b.extend_from_slice(&fee.to_be_bytes());
        match self {
            Cond::Single { sig, .. } => {
                b.push(0);
                if cleared || sig.is_empty() {
                    b.extend_from_slice(&[0; 65]);
                } else {
                    b.extend_from_slice(sig);
                }
            }
            Cond::Multi { required, fields, .. } => {
                let fields: &[Field] = if cleared { &[] } else { fields };
                b.extend_from_slice(&(fields.len() as u32).to_be_bytes());
                for f in fields {
                    match f {
                        Field::Pk(k) => {
                            b.push(0);
                            b.extend_from_slice(&k.public().serialize());
                        }
                        Field::Sig(s) => {
                            b.push(2);
                            b.extend_from_slice(s);
                        }
                    }
                }
                b.extend_from_slice(&u16::from(*required).to_be_bytes());
            }
        }
        b
    }

    pub fn segwit(&self) -> bool {
        match self {
            Cond::Single { segwit, .. } | Cond::Multi { segwit, .. } => *segwit,
        }
    }

    pub fn build(&self) -> Box<dyn SpendingCondition> {
        match self {
            Cond::Single { key, fee, nonce, sig, .. } => {
                let mut c = SpendingConditionStandard::new(key.public(), *fee, *nonce, self.mode());
                if !sig.is_empty() {
                    c.modify(Modification::SetSignature(MessageSignature::new(sig))).expect("set signature");
                }
                Box::new(c)
            }
            Cond::Multi { keys, required, fee, nonce, fields, .. } => {
                let pks: Vec<PublicKey> = keys.iter().map(Key::public).collect();
                let mut c = SpendingConditionMultiSig::new(pks, *fee, *nonce, *required, self.mode());
                for f in fields {
                    c.modify(match f {
                        Field::Pk(k) => Modification::AddPublicKey(k.public()),
                        Field::Sig(s) => Modification::AddSignature(MessageSignature::new(s)),
                    })
                    .expect("add field");
                }
                Box::new(c)
            }
        }
    }

    /// Offset of the nonce within the condition's bytes; the fee follows it.
    pub const NONCE_AT: usize = 21;
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum AuthM {
    Std(Cond),
    Spo(Cond, Option<Cond>),
}

impl AuthM {
    pub fn origin(&self) -> &Cond {
        match self {
            AuthM::Std(c) | AuthM::Spo(c, _) => c,
        }
    }
    pub fn origin_mut(&mut self) -> &mut Cond {
        match self {
            AuthM::Std(c) | AuthM::Spo(c, _) => c,
        }
    }
    pub fn sponsor(&self) -> Option<&Cond> {
        match self {
            AuthM::Std(_) => None,
            AuthM::Spo(_, s) => s.as_ref(),
        }
    }
    pub fn enc(&self, cleared: bool) -> Vec<u8> {
        let mut b;
        match self {
            AuthM::Std(c) => {
                b = vec![4];
                b.extend(c.enc(cleared));
            }
            AuthM::Spo(o, s) => {
                b = vec![5];
                b.extend(o.enc(cleared));
                match s {
                    Some(s) if !cleared => b.extend(s.enc(false)),
                    _ => b.extend(DEFAULT_SPONSOR),
                }
            }
        }
        b
    }
    pub fn build(&self) -> Auth {
        match self {
            AuthM::Std(c) => Auth::Standard(c.build()),
            AuthM::Spo(o, s) => Auth::Sponsored(
                o.build(),
                s.as_ref().map_or_else(|| Box::new(SpendingConditionStandard::default()) as Box<dyn SpendingCondition>, Cond::build),
            ),
        }
    }
    pub fn kind(&self) -> &'static str {
        match self {
            AuthM::Std(Cond::Single { .. }) => "standard-single",
            AuthM::Std(Cond::Multi { .. }) => "standard-multi",
            AuthM::Spo(Cond::Single { .. }, _) => "sponsored-single",
            AuthM::Spo(Cond::Multi { .. }, _) => "sponsored-multi",
        }
    }
}

/// Unsigned single-sig condition.
pub fn single() -> BoxedStrategy<Cond> {
    (key(), any::<bool>(), model::u64s(), model::u64s())
        .prop_map(|(key, segwit, fee, nonce)| Cond::Single { key, segwit, fee, nonce, sig: vec![] })
        .boxed()
}

/// Unsigned m-of-n condition with 1 <= m <= n <= max distinct keys, now and then up to 16.
pub fn multi(max: usize) -> BoxedStrategy<Cond> {
    (prop_oneof![25 => distinct_keys(1..=max), 1 => distinct_keys(1..=16), 1 => distinct_keys(16..=16)], any::<u8>(), any::<bool>(), model::u64s(), model::u64s())
        .prop_map(|(keys, r, segwit, fee, nonce)| {
            let required = r % keys.len() as u8 + 1;
            Cond::Multi { keys, required, segwit, fee, nonce, fields: vec![] }
        })
        .boxed()
}

/// Conditions holding arbitrary (not necessarily valid) signature material.
pub fn cond_with_fields() -> BoxedStrategy<Cond> {
    fn sig() -> BoxedStrategy<[u8; 65]> {
        (0u8..4, any::<[u8; 32]>(), any::<[u8; 32]>())
            .prop_map(|(r, a, b)| {
                let mut s = [0u8; 65];
                s[0] = r;
                s[1..33].copy_from_slice(&a);
                s[33..].copy_from_slice(&b);
                s
            })
            .boxed()
    }
    prop_oneof![
        2 => (single(), proptest::option::of(sig())).prop_map(|(c, s)| match c {
            Cond::Single { key, segwit, fee, nonce, .. } =>
                Cond::Single { key, segwit, fee, nonce, sig: s.map(|s| s.to_vec()).unwrap_or_default() },
            c => c,
        }),
        2 => (multi(5), vec(prop_oneof![key().prop_map(Field::Pk), sig().prop_map(Field::Sig)], 0..5), prop_oneof![40 => Just(0), 1 => model::edge_sizes(300)]).prop_map(|(c, f, n)| match c {
            Cond::Multi { keys, required, segwit, fee, nonce, .. } => {
                let long = (0..n).filter_map(|i| f.get(i % f.len().max(1)).cloned()).collect();
                Cond::Multi { keys, required, segwit, fee, nonce, fields: if n == 0 { f } else { long } }
            }
            c => c,
        }),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------
// Transactions

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Tx {
    pub main_version: bool,
    pub main_chain: bool,
    pub auth: AuthM,
    pub anchor: u8,
    pub pc_mode: u8,
    pub pcs: Vec<Pc>,
    pub payload: Pl,
}

pub fn anchor(a: u8) -> AnchorMode {
    match a {
        1 => AnchorMode::Strict,
        2 => AnchorMode::Micro,
        _ => AnchorMode::Any,
    }
}

pub fn pc_mode(m: u8) -> PostConditionMode {
    if m == 1 {
        PostConditionMode::Allow
    } else {
        PostConditionMode::Deny
    }
}

impl Tx {
    pub fn enc_with(&self, cleared: bool) -> Option<Vec<u8>> {
        let mut b = vec![if self.main_version { 0 } else { 0x80 }];
        b.extend_from_slice(&if self.main_chain { 1u32 } else { 0x8000_0000 }.to_be_bytes());
        b.extend(self.auth.enc(cleared));
        b.push(self.anchor);
        b.push(self.pc_mode);
        b.extend(enc_pcs(&self.pcs)?);
        b.extend(self.payload.enc()?);
        Some(b)
    }
    pub fn enc(&self) -> Option<Vec<u8>> {
        self.enc_with(false)
    }
    /// The hash signing starts from: the transaction with its auth cleared.
    pub fn initial_hash(&self) -> Option<[u8; 32]> {
        Some(sha512_256(&self.enc_with(true)?))
    }
    pub fn build(&self) -> Transaction {
        Transaction::new(
            if self.main_version { TransactionVersion::Mainnet } else { TransactionVersion::Testnet },
            if self.main_chain { ChainID::Mainnet } else { ChainID::Testnet },
            self.auth.build(),
            anchor(self.anchor),
            pc_mode(self.pc_mode),
            build_pcs(&self.pcs),
            self.payload.build(),
        )
    }
}

pub fn presign(hash: &[u8; 32], typ: u8, fee: u64, nonce: u64) -> [u8; 32] {
    let mut b = hash.to_vec();
    b.push(typ);
    b.extend_from_slice(&fee.to_be_bytes());
    b.extend_from_slice(&nonce.to_be_bytes());
    sha512_256(&b)
}

pub fn postsign(pre: &[u8; 32], sig: &[u8]) -> [u8; 32] {
    let mut b = pre.to_vec();
    b.push(0);
    b.extend_from_slice(sig);
    sha512_256(&b)
}

/// Recovers the signer of `digest` from the 65-byte form.
pub fn recover(digest: &[u8; 32], sig: &[u8]) -> Option<PublicKey> {
    use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
    let id = RecoveryId::from_i32(i32::from(sig[0])).ok()?;
    let rs = RecoverableSignature::from_compact(&sig[1..], id).ok()?;
    let msg = secp256k1::Message::from_digest_slice(digest).ok()?;
    secp256k1::Secp256k1::new().recover_ecdsa(&msg, &rs).ok()
}

/// The deterministic recoverable signature of `digest`.
pub fn ref_sign(digest: &[u8; 32], key: &Key) -> [u8; 65] {
    let msg = secp256k1::Message::from_digest_slice(digest).unwrap();
    let (id, rs) = secp256k1::Secp256k1::new().sign_ecdsa_recoverable(&msg, &key.secret()).serialize_compact();
    let mut b = [0u8; 65];
    b[0] = id.to_i32() as u8;
    b[1..].copy_from_slice(&rs);
    b
}

/// Whether s is in the lower half of the group order.
pub fn low_s(sig: &[u8]) -> bool {
    let half = model::parse_hex("7fffffffffffffffffffffffffffffff5d576e7357a4501ddfe92f46681b20a0");
    sig[33..65] <= half[..]
}

/// Transactions whose authorization is given by `auth`.
pub fn tx_with(auth: BoxedStrategy<AuthM>, max_pcs: usize) -> BoxedStrategy<Tx> {
    let chain = prop_oneof![4 => any::<bool>().prop_map(|b| (b, b)), 1 => any::<(bool, bool)>()];
    (chain, auth, 1u8..=3, 1u8..=2, pcs(max_pcs), payload())
        .prop_map(|((main_version, main_chain), auth, anchor, pc_mode, pcs, payload)| Tx {
            main_version,
            main_chain,
            auth,
            anchor,
            pc_mode,
            pcs,
            payload,
        })
        .boxed()
}

/// Any transaction, including ones carrying arbitrary signature material.
pub fn any_tx() -> BoxedStrategy<Tx> {
    let auth = prop_oneof![
        2 => cond_with_fields().prop_map(AuthM::Std),
        1 => (cond_with_fields(), proptest::option::of(cond_with_fields())).prop_map(|(o, s)| AuthM::Spo(o, s)),
    ];
    tx_with(auth.boxed(), 4)
}
