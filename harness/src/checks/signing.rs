//! C17 signing, C18 verification, C19 signing histories, C25 signature steps.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::{select, Index};
use secp256k1::PublicKey;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::Codec;
use stacks_rs::crypto::{MessageSignature, SignatureHash};
use stacks_rs::transaction::{Auth, Modification, Transaction, TransactionSigner};

use crate::ensure;
use crate::model::{self, as_hex, as_str};
use crate::refhash::hex;
use crate::runner::{class, no_panic, Class, Property, SubCheck, Verdict};
use crate::txmodel::{
    self, key, low_s, multi, postsign, presign, recover, ref_sign, single, tx_with, AuthM, Cond, Field, Key, Pc, Pl,
    Tx,
};

const ORIGIN: u8 = 4;
const SPONSOR: u8 = 5;
/// Offset of the origin condition in a transaction.
const AUTH_AT: usize = 6;
/// Offset of the signature in a single-sig condition, of the fields in a multi-sig one.
const SIG_AT: usize = 38;
const FIELDS_AT: usize = 41;

fn encode(tx: &Transaction) -> Result<Vec<u8>, String> {
    no_panic("encode", || tx.encode())?.map_err(|e| format!("encode failed: {e}"))
}

/// The hash a signer or verifier of `tx` starts from, by the public route.
fn start_hash(tx: &Transaction) -> Result<SignatureHash, String> {
    no_panic("reset and hash", || {
        let mut t = tx.clone();
        t.auth = t.auth.reset();
        t.hash()
    })?
    .map_err(|e| format!("hash failed: {e}"))
}

// ---------------------------------------------------------------------------
// Reference verification

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ref {
    Accept,
    Reject,
    /// More signatures than required: accepting and refusing are both fine.
    Open,
}

fn and(a: Ref, b: Ref) -> Ref {
    match (a, b) {
        (Ref::Reject, _) | (_, Ref::Reject) => Ref::Reject,
        (Ref::Accept, Ref::Accept) => Ref::Accept,
        _ => Ref::Open,
    }
}

fn cond_verify(c: &Cond, hash: &[u8; 32], typ: u8) -> (Ref, [u8; 32]) {
    let (fee, nonce) = c.fee_nonce();
    let mut h = *hash;
    match c {
        Cond::Single { segwit, sig, .. } => {
            if sig.is_empty() {
                return (Ref::Reject, h);
            }
            let pre = presign(&h, typ, fee, nonce);
            let Some(pk) = recover(&pre, sig) else { return (Ref::Reject, h) };
            let got = if *segwit { txmodel::ref_p2wpkh(&pk.serialize()) } else { txmodel::ref_p2pkh(&pk.serialize()) };
            h = postsign(&pre, sig);
            (if got == c.signer() { Ref::Accept } else { Ref::Reject }, h)
        }
        Cond::Multi { required, segwit, fields, .. } => {
            let mut pks: Vec<PublicKey> = vec![];
            let mut n = 0;
            for f in fields {
                match f {
                    Field::Pk(k) => pks.push(k.public()),
                    Field::Sig(s) => {
                        let pre = presign(&h, typ, fee, nonce);
                        let Some(pk) = recover(&pre, s) else { return (Ref::Reject, h) };
                        pks.push(pk);
                        h = postsign(&pre, s);
                        n += 1;
                    }
                }
            }
            if n < usize::from(*required) {
                return (Ref::Reject, h);
            }
            let got = if *segwit { txmodel::ref_p2wsh(*required, &pks) } else { txmodel::ref_p2sh(*required, &pks) };
            let r = if got != c.signer() {
                Ref::Reject
            } else if n > usize::from(*required) {
                Ref::Open
            } else {
                Ref::Accept
            };
            (r, h)
        }
    }
}

fn origin_verify(m: &Tx) -> (Ref, [u8; 32]) {
    cond_verify(m.auth.origin(), &m.initial_hash().expect("encodable"), ORIGIN)
}

fn ref_verify(m: &Tx) -> Ref {
    let (o, h) = origin_verify(m);
    match &m.auth {
        AuthM::Std(_) => o,
        AuthM::Spo(_, None) => Ref::Reject,
        AuthM::Spo(_, Some(s)) => and(o, cond_verify(s, &h, SPONSOR).0),
    }
}

fn check_verify(m: &Tx, tx: &Transaction, what: &str) -> Verdict {
    let hash = start_hash(tx)?;
    let want_hash = m.initial_hash().expect("encodable");
    ensure!(
        *hash.as_bytes() == want_hash,
        "{what}: signing starts from {} instead of {}",
        hash.hex(),
        hex(&want_hash)
    );
    let got = no_panic("verify", || tx.auth.verify(hash))?;
    match ref_verify(m) {
        Ref::Accept => ensure!(got.is_ok(), "{what}: verification refuses a correctly signed transaction: {:?}", got.err()),
        Ref::Reject => ensure!(got.is_err(), "{what}: verification accepts a transaction that is not correctly signed"),
        Ref::Open => {}
    }
    let (o, next) = origin_verify(m);
    let got = no_panic("verify_origin", || tx.auth.verify_origin(hash))?;
    match o {
        Ref::Accept => match got {
            Ok(n) => ensure!(*n.as_bytes() == next, "{what}: verify_origin ends at the wrong hash"),
            Err(e) => return Err(format!("{what}: verify_origin refuses a correctly signed origin: {e}")),
        },
        Ref::Reject => ensure!(got.is_err(), "{what}: verify_origin accepts an origin that is not correctly signed"),
        Ref::Open => {}
    }
    Ok(())
}

/// Signs one condition of the model by reference; `mask` picks who signs.
fn fill(c: &mut Cond, hash: &[u8; 32], typ: u8, pick: u32) -> [u8; 32] {
    let (fee, nonce) = c.fee_nonce();
    let mut h = *hash;
    match c {
        Cond::Single { key, sig, .. } => {
            let pre = presign(&h, typ, fee, nonce);
            *sig = ref_sign(&pre, key).to_vec();
            postsign(&pre, sig)
        }
        Cond::Multi { keys, required, fields, .. } => {
            let who = signing_set(keys.len(), usize::from(*required), pick);
            fields.clear();
            for (i, k) in keys.iter().enumerate() {
                if who[i] {
                    let pre = presign(&h, typ, fee, nonce);
                    let s = ref_sign(&pre, k);
                    h = postsign(&pre, &s);
                    fields.push(Field::Sig(s));
                } else {
                    fields.push(Field::Pk(*k));
                }
            }
            h
        }
    }
}

/// As `fill` for a multi-sig condition, with the arrangement of its fields edited first:
/// keys sign twice, out of turn or in each other's place, but each signature is genuine.
fn rechain(c: &mut Cond, hash: &[u8; 32], typ: u8, pick: u32, edits: &[(u8, Index32, Index32)]) -> [u8; 32] {
    let (fee, nonce) = c.fee_nonce();
    let mut h = *hash;
    if let Cond::Multi { keys, required, fields, .. } = c {
        let mut plan: Vec<(usize, bool)> =
            signing_set(keys.len(), usize::from(*required), pick).into_iter().enumerate().collect();
        for (what, a, b) in edits {
            let (n, k) = (plan.len(), keys.len());
            match what {
                // signs once more, right after or anywhere
                0 if n > 0 => {
                    let i = a.of(n);
                    plan.insert(i + 1, (plan[i].0, true));
                }
                1 => plan.insert(a.of(n + 1), (b.of(k), b.0 % 3 != 0)),
                2 if n > 0 => {
                    let i = a.of(n);
                    plan[i].1 = !plan[i].1;
                }
                3 if n > 0 => plan.swap(a.of(n), b.of(n)),
                4 if n > 0 => plan[a.of(n)].0 = b.of(k),
                _ => {}
            }
        }
        fields.clear();
        for (i, sign) in plan {
            if sign {
                let pre = presign(&h, typ, fee, nonce);
                let s = ref_sign(&pre, &keys[i]);
                h = postsign(&pre, &s);
                fields.push(Field::Sig(s));
            } else {
                fields.push(Field::Pk(keys[i]));
            }
        }
    }
    h
}

/// Exactly `m` of `n` positions, or all if `m` is larger, chosen by `pick`.
fn signing_set(n: usize, m: usize, pick: u32) -> Vec<bool> {
    let mut left = m;
    let mut p = pick;
    (0..n)
        .map(|i| {
            let rest = n - i;
            let take = left > 0 && (left >= rest || p & 1 == 1);
            p = p.rotate_right(1);
            left -= usize::from(take);
            take
        })
        .collect()
}

fn sign_all(m: &mut Tx, pick: u32) {
    let h = m.initial_hash().expect("encodable");
    let h = fill(m.auth.origin_mut(), &h, ORIGIN, pick);
    if let AuthM::Spo(_, Some(s)) = &mut m.auth {
        fill(s, &h, SPONSOR, pick.rotate_left(7));
    }
}

// ---------------------------------------------------------------------------
// C17

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SignCase {
    pub tx: Tx,
    pub sponsor: Option<Cond>,
    pub other: Key,
}

fn sign_case() -> BoxedStrategy<SignCase> {
    let auth = prop_oneof![
        3 => single().prop_map(AuthM::Std),
        2 => single().prop_map(|c| AuthM::Spo(c, None)),
    ];
    (tx_with(auth.boxed(), 3), single(), key())
        .prop_map(|(tx, s, other)| {
            let sponsor = matches!(tx.auth, AuthM::Spo(..)).then_some(s);
            SignCase { tx, sponsor, other }
        })
        .boxed()
}

/// One recoverable signature over `pre` by `key`.
fn check_sig(sig: &[u8], pre: &[u8; 32], key: &Key, what: &str) -> Verdict {
    ensure!(sig[0] < 4, "{what}: recovery id {}", sig[0]);
    ensure!(low_s(sig), "{what}: signature has a high s");
    let pk = recover(pre, sig);
    ensure!(
        pk == Some(key.public()),
        "{what}: signature {} recovers to {:?} instead of the signer's key",
        hex(sig),
        pk.map(|p| hex(&p.serialize()))
    );
    Ok(())
}

fn run_sign(c: &SignCase) -> Verdict {
    let tx = c.tx.build();
    let before = encode(&tx)?;
    ensure!(Some(&before) == c.tx.enc().as_ref(), "unsigned transaction encodes wrongly");
    let Cond::Single { key, .. } = c.tx.auth.origin() else { unreachable!() };
    let (fee, nonce) = c.tx.auth.origin().fee_nonce();
    let sk = key.secret();
    let signed = no_panic("sign", || tx.clone().sign(sk))?.map_err(|e| format!("sign failed: {e}"))?;
    let after = encode(&signed)?;
    let at = AUTH_AT + SIG_AT;
    ensure!(after.len() == before.len(), "signing changed the length from {} to {}", before.len(), after.len());
    let sig = after[at..at + 65].to_vec();
    let mut masked = after.clone();
    masked[at..at + 65].fill(0);
    ensure!(masked == before, "signing changed bytes other than the signature");
    let pre = presign(&c.tx.initial_hash().unwrap(), ORIGIN, fee, nonce);
    check_sig(&sig, &pre, key, "origin")?;

    // deterministic, through either entry point, and the input is untouched
    let again = no_panic("sign", || tx.clone().sign(sk))?.map_err(|e| format!("second sign failed: {e}"))?;
    ensure!(encode(&again)? == after, "signing twice gives two different signatures");
    let mut s = no_panic("signer", || TransactionSigner::new(tx.clone()))?.map_err(|e| format!("signer: {e}"))?;
    no_panic("sign_origin", || s.sign_origin(sk))?.map_err(|e| format!("sign_origin: {e}"))?;
    ensure!(*s.hash.as_bytes() == postsign(&pre, &sig), "the signer continues from the wrong hash");
    ensure!(encode(&s.transaction())? == after, "TransactionSigner and sign disagree");
    ensure!(encode(&tx)? == before, "signing a clone changed the original");

    let mut m = c.tx.clone();
    if let Cond::Single { sig: f, .. } = m.auth.origin_mut() {
        *f = sig.clone();
    }
    check_verify(&m, &signed, "signed")?;

    // transaction id covers the signature; clearing restores the cleared form
    let id = no_panic("hash", || signed.hash())?.map_err(|e| format!("hash: {e}"))?;
    ensure!(*id.as_bytes() == crate::refhash::sha512_256(&after), "transaction id is not the digest of the bytes");
    let reset = no_panic("reset", || signed.auth.clone().reset().encode())?.map_err(|e| format!("reset: {e}"))?;
    ensure!(reset == c.tx.auth.enc(true), "a reset authorization is not the cleared one");

    // no second signature
    for k in [key, &c.other] {
        let r = no_panic("sign again", || signed.clone().sign(k.secret()))?;
        ensure!(r.is_err(), "a signed transaction was signed again");
    }

    if let Some(sp) = &c.sponsor {
        let Cond::Single { key: skey, .. } = sp else { unreachable!() };
        let (sfee, snonce) = sp.fee_nonce();
        let mut s = no_panic("new_sponser", || TransactionSigner::new_sponser(&signed, sp.build()))?
            .map_err(|e| format!("sponsor session refused a signed origin: {e}"))?;
        no_panic("sign_sponsor", || s.sign_sponsor(skey.secret()))?.map_err(|e| format!("sign_sponsor: {e}"))?;
        ensure!(s.sign_sponsor(skey.secret()).is_err(), "a second sponsor signature was accepted");
        ensure!(s.sign_origin(sk).is_err(), "origin signed after the sponsor");
        let done = s.transaction();
        let bytes = encode(&done)?;
        let sat = AUTH_AT + 103 + SIG_AT;
        let ssig = bytes[sat..sat + 65].to_vec();
        let mut m2 = m.clone();
        let mut sp2 = sp.clone();
        if let Cond::Single { sig: f, .. } = &mut sp2 {
            *f = ssig.clone();
        }
        if let AuthM::Spo(_, s) = &mut m2.auth {
            *s = Some(sp2);
        }
        ensure!(Some(&bytes) == m2.enc().as_ref(), "sponsoring changed bytes other than the sponsor's");
        let spre = presign(&postsign(&pre, &sig), SPONSOR, sfee, snonce);
        check_sig(&ssig, &spre, skey, "sponsor")?;
        check_verify(&m2, &done, "sponsored")?;
    }
    Ok(())
}

pub fn c17() -> Property {
    Property {
        id: "C17",
        subs: vec![Box::new(SubCheck {
            name: "sign",
            rule: "random single-sig transactions (standard and sponsored, both hash modes) signed with the sender's key; \
                   non-trivial: sponsored, or with post-conditions, or a non-zero fee and nonce",
            quick: 24_000,
            thorough: 700_000,
            strategy: sign_case,
            classify: |c| {
                let (f, n) = c.tx.auth.origin().fee_nonce();
                class(
                    c.sponsor.is_some() || !c.tx.pcs.is_empty() || (f > 0 && n > 0),
                    vec![c.tx.auth.kind(), c.tx.payload.kind(), if c.tx.auth.origin().segwit() { "p2wpkh" } else { "p2pkh" }],
                )
            },
            run: run_sign,
        })],
        assumptions: &["libsecp256k1 (through the secp256k1 crate) is trusted for recovery and signing"],
    }
}

// ---------------------------------------------------------------------------
// C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Tamper {
    None,
    Version,
    Chain,
    Anchor(u8),
    PcMode,
    PcNudge(Index32, u8),
    PcAdd(Index32, Pc),
    PcRemove(Index32),
    PcSwap(Index32, Index32),
    Amount(u8),
    Memo(String),
    Recipient(u8),
    Func(String),
    Contract(String),
    CallAddr(u8),
    ArgAdd(Index32, crate::model::V),
    ArgRemove(Index32),
    ArgSwap(Index32, Index32),
    ArgNudge(Index32, Index32, u8),
    CallVersion(u8),
    Payload(Pl),
    Fee(u8),
    Nonce(u8),
    SponsorFee(u8),
    SponsorNonce(u8),
    SigBit(Index32, u16),
    FieldSwap(Index32, Index32),
    FieldDrop(Index32),
    FieldDup(Index32),
    /// That many more fields of the kind found at the index.
    FieldFlood(Index32, u16),
    FieldPk(Index32, Key),
    FieldResign(Index32, Key),
    /// Signatures cleared.
    Unsign { sponsor: bool },
    Required(u8),
    Segwit,
    SwapKeys(Index32, Index32),
    OriginKey(Key),
    SponsorKey(Key),
    NoSponsor,
    DropSponsorKind,
    AddSponsorKind,
    /// The sponsor's first signature made for the origin's role, and so on.
    WrongRole { sponsor: bool },
    /// Multi-sig signatures made over the starting hash, not chained.
    Unchained,
    /// The fee and nonce exchanged before signing.
    SwapFeeNonce,
    /// Origin and sponsor conditions exchanged after signing.
    SwapParties,
    SponsorOverStart,
    /// `n - required` extra key fields replaced so that fewer sign.
    SigToPk(Index32),
    /// Signed by a key whose signer hash starts or ends like the stated one.
    NearSigner { pair: u8, swap: bool, sponsor: bool },
    /// A condition asking for more signatures than it has keys, signed by every key.
    MoreThanKeys(u8),
    /// The fields made anew in another arrangement, every signature valid and in chain.
    Rechained { sponsor: bool, edits: Vec<(u8, Index32, Index32)> },
}

/// Secret scalars whose signer hashes agree in the first or last five or six bytes,
/// found by a birthday search: (kind, a, b), kinds P2PKH, P2WPKH, P2SH and P2WSH 1-of-1.
const NEAR: [(u8, u32, u32); 18] = [
    (0, 27777603, 14521545), // first
    (0, 23743304, 24042223),
    (0, 10372337, 1511514), // last
    (0, 3391417, 19225691),
    (1, 29545696, 1114999),
    (1, 9716921, 17829398),
    (1, 6463434, 23133068),
    (1, 11251014, 11629587),
    (1, 5568940, 8526534),
    (2, 30783505, 4899982),
    (2, 17203157, 24372800),
    (2, 2327139, 22655497),
    (2, 13207632, 20734978),
    (2, 33436705, 6057752),
    (3, 26616272, 15706789),
    (3, 5351489, 28811794),
    (3, 33450606, 2955271),
    (3, 33396382, 26791208),
];

fn scalar(n: u32) -> Key {
    let mut b = [0; 32];
    b[28..].copy_from_slice(&n.to_be_bytes());
    Key(b)
}

fn near_cond(kind: u8, k: u32, (fee, nonce): (u64, u64)) -> Cond {
    let key = scalar(k);
    match kind {
        0 | 1 => Cond::Single { key, segwit: kind == 1, fee, nonce, sig: vec![] },
        _ => Cond::Multi { keys: vec![key], required: 1, segwit: kind == 3, fee, nonce, fields: vec![] },
    }
}

/// A serializable index: position modulo the length in use.
#[derive(Clone, Copy, Debug, Serialize, Deserialize)]
pub struct Index32(u32);

impl Index32 {
    fn of(self, n: usize) -> usize {
        self.0 as usize % n.max(1)
    }
}

fn idx() -> BoxedStrategy<Index32> {
    any::<u32>().prop_map(|n| Index32(n % 5040)).boxed()
}

fn tamper() -> BoxedStrategy<Tamper> {
    use Tamper as T;
    let tx_part = prop_oneof![
        Just(T::Version),
        Just(T::Chain),
        (1u8..=2).prop_map(T::Anchor),
        Just(T::PcMode),
        (idx(), any::<u8>()).prop_map(|(i, d)| T::PcNudge(i, d)),
        (idx(), txmodel::pc()).prop_map(|(i, p)| T::PcAdd(i, p)),
        idx().prop_map(T::PcRemove),
        (idx(), idx()).prop_map(|(a, b)| T::PcSwap(a, b)),
        (0u8..64).prop_map(T::Amount),
        txmodel::memo().prop_map(T::Memo),
        any::<u8>().prop_map(T::Recipient),
        model::name().prop_map(T::Func),
        model::name().prop_map(T::Contract),
        any::<u8>().prop_map(T::CallAddr),
        (idx(), model::leaf()).prop_map(|(i, v)| T::ArgAdd(i, v)),
        idx().prop_map(T::ArgRemove),
        (idx(), idx()).prop_map(|(a, b)| T::ArgSwap(a, b)),
        (idx(), idx(), any::<u8>()).prop_map(|(a, b, d)| T::ArgNudge(a, b, d)),
        (1u8..4).prop_map(T::CallVersion),
        txmodel::payload().prop_map(T::Payload),
    ];
    let auth_part = prop_oneof![
        (0u8..64).prop_map(T::Fee),
        (0u8..64).prop_map(T::Nonce),
        (0u8..64).prop_map(T::SponsorFee),
        (0u8..64).prop_map(T::SponsorNonce),
        (idx(), idx()).prop_map(|(a, b)| T::FieldSwap(a, b)),
        idx().prop_map(T::FieldDrop),
        idx().prop_map(T::FieldDup),
        (idx(), prop_oneof![3 => 1u16..20, 1 => 150u16..300]).prop_map(|(i, n)| T::FieldFlood(i, n)),
        (idx(), key()).prop_map(|(i, k)| T::FieldPk(i, k)),
        (idx(), key()).prop_map(|(i, k)| T::FieldResign(i, k)),
        any::<bool>().prop_map(|sponsor| T::Unsign { sponsor }),
        (1u8..5).prop_map(T::Required),
        Just(T::Segwit),
        (idx(), idx()).prop_map(|(a, b)| T::SwapKeys(a, b)),
        key().prop_map(T::OriginKey),
        key().prop_map(T::SponsorKey),
        Just(T::NoSponsor),
        Just(T::DropSponsorKind),
        Just(T::AddSponsorKind),
        any::<bool>().prop_map(|sponsor| T::WrongRole { sponsor }),
        Just(T::Unchained),
        Just(T::SwapFeeNonce),
        Just(T::SwapParties),
        Just(T::SponsorOverStart),
        idx().prop_map(T::SigToPk),
    ];
    let bits = (idx(), prop_oneof![3 => 0u16..520, 1 => 0u16..8, 1 => 512u16..520]);
    prop_oneof![
        1 => Just(T::None),
        5 => tx_part,
        6 => auth_part,
        3 => bits.prop_map(|(i, b)| T::SigBit(i, b)),
        1 => (1u8..12).prop_map(T::MoreThanKeys),
        2 => (any::<bool>(), vec((0u8..5, idx(), idx()), 1..4)).prop_map(|(sponsor, edits)| T::Rechained { sponsor, edits }),
        1 => (any::<u8>(), any::<bool>(), any::<bool>()).prop_map(|(pair, swap, sponsor)| T::NearSigner { pair, swap, sponsor }),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Forgery {
    pub tx: Tx,
    pub pick: u32,
    pub tamper: Tamper,
}

fn parties(max: usize) -> BoxedStrategy<AuthM> {
    let c = move || prop_oneof![1 => single(), 1 => multi(max)];
    prop_oneof![
        c().prop_map(AuthM::Std),
        (c(), c()).prop_map(|(o, s)| AuthM::Spo(o, Some(s))),
    ]
    .boxed()
}

fn forgery() -> BoxedStrategy<Forgery> {
    (tx_with(parties(4), 2), any::<u32>(), tamper()).prop_map(|(tx, pick, tamper)| Forgery { tx, pick, tamper }).boxed()
}

/// Every signature in the authorization, origin first.
fn sigs_mut(m: &mut Tx) -> Vec<&mut [u8]> {
    fn of(c: &mut Cond) -> Vec<&mut [u8]> {
        match c {
            Cond::Single { sig, .. } if sig.is_empty() => vec![],
            Cond::Single { sig, .. } => vec![sig.as_mut_slice()],
            Cond::Multi { fields, .. } => fields
                .iter_mut()
                .filter_map(|f| match f {
                    Field::Sig(s) => Some(s.as_mut_slice()),
                    Field::Pk(_) => None,
                })
                .collect(),
        }
    }
    match &mut m.auth {
        AuthM::Std(c) => of(c),
        AuthM::Spo(o, s) => {
            let mut v = of(o);
            if let Some(s) = s {
                v.extend(of(s));
            }
            v
        }
    }
}

/// The multi-sig condition to work on, if there is one.
fn some_multi(m: &mut Tx) -> Option<&mut Cond> {
    match &mut m.auth {
        AuthM::Std(c @ Cond::Multi { .. }) | AuthM::Spo(c @ Cond::Multi { .. }, _) => Some(c),
        AuthM::Spo(_, Some(c @ Cond::Multi { .. })) => Some(c),
        _ => None,
    }
}

fn set_key(c: &mut Cond, k: Key) {
    match c {
        Cond::Single { key, .. } => *key = k,
        Cond::Multi { keys, .. } => keys[0] = k,
    }
}

fn unsign(c: &mut Cond) {
    match c {
        Cond::Single { sig, .. } => sig.clear(),
        Cond::Multi { fields, .. } => fields.clear(),
    }
}

/// The signed transaction with the alteration applied.
fn apply(f: &Forgery) -> Tx {
    use Tamper as T;
    let mut m = f.tx.clone();
    // alterations of how it is signed
    match &f.tamper {
        T::NearSigner { pair, swap, sponsor } => {
            let (kind, a, b) = NEAR[usize::from(*pair) % NEAR.len()];
            let (a, b) = if *swap { (b, a) } else { (a, b) };
            let stated = |c: &Cond| near_cond(kind, a, c.fee_nonce());
            let signed = |c: &mut Cond, h: &[u8; 32], typ| {
                let mut other = near_cond(kind, b, c.fee_nonce());
                let h = fill(&mut other, h, typ, 0);
                set_key(&mut other, scalar(a));
                *c = other;
                h
            };
            let sponsor = *sponsor && matches!(m.auth, AuthM::Spo(_, Some(_)));
            if !sponsor {
                let c = stated(m.auth.origin());
                *m.auth.origin_mut() = c;
            }
            let h = m.initial_hash().unwrap();
            let h = if sponsor { fill(m.auth.origin_mut(), &h, ORIGIN, f.pick) } else { signed(m.auth.origin_mut(), &h, ORIGIN) };
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                if sponsor {
                    signed(s, &h, SPONSOR);
                } else {
                    fill(s, &h, SPONSOR, f.pick.rotate_left(7));
                }
            }
            return m;
        }
        T::MoreThanKeys(extra) => {
            if let Some(Cond::Multi { keys, required, .. }) = some_multi(&mut m) {
                *required = (keys.len() as u8 + extra).min(16);
            }
            sign_all(&mut m, f.pick);
            return m;
        }
        T::Rechained { sponsor, edits } => {
            let h = m.initial_hash().unwrap();
            let on_sponsor = match (m.auth.origin(), &m.auth) {
                (Cond::Single { .. }, _) => true,
                (_, AuthM::Spo(_, Some(Cond::Multi { .. }))) => *sponsor,
                _ => false,
            };
            let all = |c: &mut Cond, h: &[u8; 32], typ, pick: u32, edit: bool| {
                if edit && matches!(c, Cond::Multi { .. }) {
                    rechain(c, h, typ, pick, edits)
                } else {
                    fill(c, h, typ, pick)
                }
            };
            let h = all(m.auth.origin_mut(), &h, ORIGIN, f.pick, !on_sponsor);
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                all(s, &h, SPONSOR, f.pick.rotate_left(7), on_sponsor);
            }
            return m;
        }
        T::WrongRole { sponsor } => {
            let h = m.initial_hash().unwrap();
            let h = fill(m.auth.origin_mut(), &h, if *sponsor { ORIGIN } else { SPONSOR }, f.pick);
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                fill(s, &h, if *sponsor { ORIGIN } else { SPONSOR }, f.pick.rotate_left(7));
            }
            return m;
        }
        T::SponsorOverStart => {
            let h = m.initial_hash().unwrap();
            fill(m.auth.origin_mut(), &h, ORIGIN, f.pick);
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                fill(s, &h, SPONSOR, f.pick.rotate_left(7));
            }
            return m;
        }
        T::SwapFeeNonce => {
            let swap = |m: &mut Tx| {
                let (a, b) = m.auth.origin_mut().fee_nonce_mut();
                std::mem::swap(a, b);
            };
            swap(&mut m);
            sign_all(&mut m, f.pick);
            swap(&mut m);
            return m;
        }
        T::Unchained => {
            let h = m.initial_hash().unwrap();
            sign_all(&mut m, f.pick);
            if let Cond::Multi { keys, fields, fee, nonce, .. } = m.auth.origin_mut() {
                for (k, fl) in keys.iter().zip(fields.iter_mut()) {
                    if let Field::Sig(s) = fl {
                        *s = ref_sign(&presign(&h, ORIGIN, *fee, *nonce), k);
                    }
                }
            }
            return m;
        }
        _ => sign_all(&mut m, f.pick),
    }
    match f.tamper.clone() {
        T::Version => m.main_version = !m.main_version,
        T::Chain => m.main_chain = !m.main_chain,
        T::Anchor(d) => m.anchor = (m.anchor - 1 + d) % 3 + 1,
        T::PcMode => m.pc_mode = 3 - m.pc_mode,
        T::PcNudge(i, d) => {
            let n = m.pcs.len();
            if n > 0 {
                m.pcs[i.of(n)] = m.pcs[i.of(n)].nudge(d);
            }
        }
        T::PcAdd(i, p) => m.pcs.insert(i.of(m.pcs.len() + 1), p),
        T::PcRemove(i) => {
            if !m.pcs.is_empty() {
                let n = m.pcs.len();
                m.pcs.remove(i.of(n));
            }
        }
        T::PcSwap(a, b) => {
            let n = m.pcs.len();
            if n > 0 {
                m.pcs.swap(a.of(n), b.of(n));
            }
        }
        T::Amount(b) => {
            if let Pl::Transfer { amount, .. } = &mut m.payload {
                *amount ^= 1 << b;
            }
        }
        T::Memo(s) => {
            if let Pl::Transfer { memo, .. } = &mut m.payload {
                *memo = s;
            }
        }
        T::Recipient(d) => {
            if let Pl::Transfer { to, .. } = &mut m.payload {
                *to = match to.clone() {
                    model::V::Std(mut a) if d % 2 == 0 => {
                        a.hash[usize::from(d / 2) % 20] ^= 1;
                        model::V::Std(a)
                    }
                    model::V::Std(a) => model::V::Con(a, "x".into()),
                    model::V::Con(a, n) if d % 2 == 0 && n.len() < 128 => model::V::Con(a, format!("{n}y")),
                    model::V::Con(a, _) => model::V::Std(a),
                    v => v,
                };
            }
        }
        T::Func(s) => {
            if let Pl::Call { func, .. } = &mut m.payload {
                *func = s;
            }
        }
        T::Contract(s) => {
            if let Pl::Call { contract, .. } = &mut m.payload {
                *contract = s;
            }
        }
        T::CallAddr(d) => {
            if let Pl::Call { addr, .. } = &mut m.payload {
                addr.hash[usize::from(d) % 20] ^= 1 << (d / 32);
            }
        }
        T::ArgAdd(i, v) => {
            if let Pl::Call { args, .. } = &mut m.payload {
                args.insert(i.of(args.len() + 1), v);
            }
        }
        T::ArgRemove(i) => {
            if let Pl::Call { args, .. } = &mut m.payload {
                if !args.is_empty() {
                    let n = args.len();
                    args.remove(i.of(n));
                }
            }
        }
        T::ArgSwap(a, b) => {
            if let Pl::Call { args, .. } = &mut m.payload {
                let n = args.len();
                if n > 0 {
                    args.swap(a.of(n), b.of(n));
                }
            }
        }
        T::ArgNudge(i, j, d) => {
            if let Pl::Call { args, .. } = &mut m.payload {
                let n = args.len();
                if n > 0 {
                    args[i.of(n)] = crate::checks::equality::nudge_at(&args[i.of(n)], j.0 as usize, d);
                }
            }
        }
        T::CallVersion(d) => {
            if let Pl::Call { addr, .. } = &mut m.payload {
                let at = crate::refc::VERSIONS.iter().position(|v| *v == addr.ver).unwrap_or(0);
                addr.ver = crate::refc::VERSIONS[(at + usize::from(d)) % 4];
            }
        }
        T::Payload(p) => m.payload = p,
        T::Fee(b) => *m.auth.origin_mut().fee_nonce_mut().0 ^= 1 << b,
        T::Nonce(b) => *m.auth.origin_mut().fee_nonce_mut().1 ^= 1 << b,
        T::SponsorFee(b) => {
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                *s.fee_nonce_mut().0 ^= 1 << b;
            }
        }
        T::SponsorNonce(b) => {
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                *s.fee_nonce_mut().1 ^= 1 << b;
            }
        }
        T::SigBit(i, b) => {
            let mut s = sigs_mut(&mut m);
            let n = s.len();
            s[i.of(n)][usize::from(b) / 8] ^= 1 << (b % 8);
        }
        T::FieldSwap(a, b) => {
            if let Some(Cond::Multi { fields, .. }) = some_multi(&mut m) {
                let n = fields.len();
                fields.swap(a.of(n), b.of(n));
            }
        }
        T::FieldDrop(i) => {
            if let Some(Cond::Multi { fields, .. }) = some_multi(&mut m) {
                let n = fields.len();
                fields.remove(i.of(n));
            }
        }
        T::FieldDup(i) => {
            if let Some(Cond::Multi { fields, .. }) = some_multi(&mut m) {
                let f = fields[i.of(fields.len())].clone();
                fields.push(f);
            }
        }
        T::FieldFlood(i, n) => {
            if let Some(Cond::Multi { fields, .. }) = some_multi(&mut m) {
                let at = i.of(fields.len());
                let f = fields[at].clone();
                for _ in 0..n {
                    fields.insert(at, f.clone());
                }
            }
        }
        T::FieldPk(i, k) => {
            if let Some(Cond::Multi { fields, .. }) = some_multi(&mut m) {
                let n = fields.len();
                fields[i.of(n)] = Field::Pk(k);
            }
        }
        T::SigToPk(i) => {
            if let Some(Cond::Multi { fields, keys, .. }) = some_multi(&mut m) {
                let n = fields.len();
                fields[i.of(n)] = Field::Pk(keys[i.of(n)]);
            }
        }
        T::FieldResign(i, k) => {
            // an outsider signs correctly in one signer's place
            let h = m.initial_hash().unwrap();
            let (fee, nonce) = m.auth.origin().fee_nonce();
            match m.auth.origin_mut() {
                Cond::Single { sig, .. } => *sig = ref_sign(&presign(&h, ORIGIN, fee, nonce), &k).to_vec(),
                Cond::Multi { fields, keys, .. } => {
                    let at = i.of(fields.len());
                    let mut h = h;
                    for (j, f) in fields.iter_mut().enumerate() {
                        if let Field::Sig(s) = f {
                            let pre = presign(&h, ORIGIN, fee, nonce);
                            *s = ref_sign(&pre, if j == at { &k } else { &keys[j] });
                            h = postsign(&pre, s);
                        }
                    }
                }
            }
            let (_, h) = origin_verify(&m);
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                fill(s, &h, SPONSOR, f.pick.rotate_left(7));
            }
        }
        T::Unsign { sponsor } => match &mut m.auth {
            AuthM::Spo(_, Some(s)) if sponsor => unsign(s),
            a => unsign(a.origin_mut()),
        },
        T::Required(d) => {
            if let Some(Cond::Multi { required, keys, .. }) = some_multi(&mut m) {
                *required = (*required - 1 + d) % keys.len() as u8 + 1;
            }
        }
        T::Segwit => match m.auth.origin_mut() {
            Cond::Single { segwit, .. } | Cond::Multi { segwit, .. } => *segwit = !*segwit,
        },
        T::SwapKeys(a, b) => {
            if let Some(Cond::Multi { keys, .. }) = some_multi(&mut m) {
                let n = keys.len();
                keys.swap(a.of(n), b.of(n));
            }
        }
        T::OriginKey(k) => set_key(m.auth.origin_mut(), k),
        T::SponsorKey(k) => {
            if let AuthM::Spo(_, Some(s)) = &mut m.auth {
                set_key(s, k);
            }
        }
        T::NoSponsor => {
            if let AuthM::Spo(_, s) = &mut m.auth {
                *s = None;
            }
        }
        T::DropSponsorKind => {
            if let AuthM::Spo(o, _) = m.auth.clone() {
                m.auth = AuthM::Std(o);
            }
        }
        T::AddSponsorKind => {
            if let AuthM::Std(o) = m.auth.clone() {
                m.auth = AuthM::Spo(o.clone(), Some(o));
            }
        }
        T::SwapParties => {
            if let AuthM::Spo(o, Some(s)) = m.auth.clone() {
                m.auth = AuthM::Spo(s, Some(o));
            }
        }
        _ => {}
    }
    m
}

fn run_forgery(f: &Forgery) -> Verdict {
    let mut good = f.tx.clone();
    sign_all(&mut good, f.pick);
    if ref_verify(&good) != Ref::Accept {
        return Err("harness: the reference refuses its own signatures".into());
    }
    let real = good.build();
    check_verify(&good, &real, "untouched")?;
    let m = apply(f);
    let altered = m.build();
    check_verify(&m, &altered, "altered")?;
    // the altered transaction's authorization does not pass for the original, nor the reverse
    if m.initial_hash() != good.initial_hash() && matches!(good.auth, AuthM::Std(_)) {
        let h = start_hash(&altered)?;
        let r = no_panic("verify", || real.auth.verify(h))?;
        ensure!(r.is_err(), "a signature is accepted for another transaction");
    }
    Ok(())
}

fn tamper_name(t: &Tamper) -> &'static str {
    use Tamper as T;
    match t {
        T::None => "untouched",
        T::Version | T::Chain | T::Anchor(_) | T::PcMode => "header",
        T::PcNudge(..) | T::PcAdd(..) | T::PcRemove(_) | T::PcSwap(..) => "post-conditions",
        T::Amount(_) | T::Memo(_) | T::Recipient(_) | T::Func(_) | T::Contract(_) | T::CallAddr(_) | T::ArgAdd(..)
        | T::ArgRemove(_) | T::ArgSwap(..) | T::ArgNudge(..) | T::CallVersion(_) | T::Payload(_) => "payload",
        T::Fee(_) | T::Nonce(_) | T::SponsorFee(_) | T::SponsorNonce(_) => "fee-nonce",
        T::SigBit(..) => "signature-bit",
        T::FieldSwap(..) | T::FieldDrop(_) | T::FieldDup(_) | T::FieldFlood(..) | T::FieldPk(..) | T::SigToPk(_) => "fields",
        T::FieldResign(..) | T::WrongRole { .. } | T::Unchained | T::SwapFeeNonce | T::SponsorOverStart => "wrong-signing",
        T::NearSigner { .. } => "near-signer",
        T::MoreThanKeys(_) => "more-than-keys",
        T::Rechained { .. } => "rechained",
        _ => "parties",
    }
}

pub fn c18() -> Property {
    Property {
        id: "C18",
        subs: vec![Box::new(SubCheck {
            name: "forgery",
            rule: "a correctly signed transaction (standard or sponsored, single- or multi-sig) with one generated alteration; \
                   non-trivial: the altered bytes differ from the signed ones",
            quick: 30_000,
            thorough: 900_000,
            strategy: forgery,
            classify: |f| {
                let mut good = f.tx.clone();
                sign_all(&mut good, f.pick);
                let m = apply(f);
                let verdict = match ref_verify(&m) {
                    Ref::Accept => "valid",
                    Ref::Reject => "invalid",
                    Ref::Open => "open",
                };
                class(m.enc() != good.enc(), vec![f.tx.auth.kind(), tamper_name(&f.tamper), verdict])
            },
            run: run_forgery,
        })],
        assumptions: &[
            "multi-sig authorizations carrying more signatures than required may be accepted or refused",
            "high-s variants of a valid signature are not generated",
            "libsecp256k1 is trusted for recovery",
        ],
    }
}

// ---------------------------------------------------------------------------
// C19

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    /// The next key in order signs / is appended.
    SignNext,
    AppendNext,
    SignOrigin(u8),
    AppendOrigin(u8),
    /// The sponsor's next key in order.
    SponsorNext,
    SponsorAppendNext,
    SignSponsor(u8),
    /// A new session over the transaction so far.
    Resume,
    /// A sponsor session with one of the two offered sponsor conditions.
    Sponsor(u8),
    /// A sponsor session keeping the sponsor condition the transaction has.
    SponsorResume,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    pub tx: Tx,
    pub sponsors: [Cond; 2],
    pub outsiders: Vec<Key>,
    pub ops: Vec<Op>,
}

fn op() -> BoxedStrategy<Op> {
    prop_oneof![
        6 => Just(Op::SignNext),
        3 => Just(Op::AppendNext),
        1 => (0u8..8).prop_map(Op::SignOrigin),
        1 => (0u8..8).prop_map(Op::AppendOrigin),
        4 => Just(Op::SponsorNext),
        2 => Just(Op::SponsorAppendNext),
        1 => (0u8..8).prop_map(Op::SignSponsor),
        3 => Just(Op::Resume),
        2 => (0u8..2).prop_map(Op::Sponsor),
        1 => Just(Op::SponsorResume),
    ]
    .boxed()
}

/// The steps that sign one condition with the first `pick`-chosen signers.
fn plan(c: &Cond, pick: u32, sponsor: bool) -> Vec<Op> {
    let (s, a) = if sponsor { (Op::SponsorNext, Op::SponsorAppendNext) } else { (Op::SignNext, Op::AppendNext) };
    match c {
        Cond::Single { .. } => vec![s],
        Cond::Multi { keys, required, .. } => signing_set(keys.len(), usize::from(*required), pick)
            .into_iter()
            .map(|x| if x { s.clone() } else { a.clone() })
            .collect(),
    }
}

fn history() -> BoxedStrategy<History> {
    let cond = || prop_oneof![1 => single(), 3 => multi(5)].boxed();
    let auth = prop_oneof![
        2 => cond().prop_map(AuthM::Std),
        3 => (cond(), proptest::option::weighted(0.4, cond())).prop_map(|(o, s)| AuthM::Spo(o, s)),
    ];
    let extra = vec((any::<Index>(), op()), 0..5);
    // session breaks are common so that histories span several sessions
    let breaks = vec(any::<Index>(), 0..3);
    (tx_with(auth.boxed(), 1), cond(), cond(), vec(key(), 2), any::<u32>(), any::<bool>(), extra, breaks, vec(op(), 0..14), 0u8..4)
        .prop_map(|(tx, s0, s1, outsiders, pick, finish, extra, breaks, free, kind)| {
            let sponsors = [s0, s1];
            let ops = if kind == 0 {
                free
            } else {
                let mut ops = plan(tx.auth.origin(), pick, false);
                if let AuthM::Spo(_, s) = &tx.auth {
                    match s {
                        Some(s) if finish => ops.extend(plan(s, pick.rotate_left(9), true)),
                        _ => {
                            ops.push(Op::Sponsor((pick % 2) as u8));
                            let tail = plan(&sponsors[(pick % 2) as usize], pick.rotate_left(9), true);
                            let cut = tail.len() / 2;
                            ops.extend_from_slice(&tail[..cut]);
                            if pick & 4 == 4 {
                                ops.push(if pick & 8 == 8 { Op::Resume } else { Op::SponsorResume });
                            }
                            ops.extend_from_slice(&tail[cut..]);
                        }
                    }
                }
                for b in breaks {
                    ops.insert(b.index(ops.len() + 1), Op::Resume);
                }
                if kind > 1 {
                    for (i, o) in extra {
                        ops.insert(i.index(ops.len() + 1), o);
                    }
                }
                ops
            };
            History { tx, sponsors, outsiders, ops }
        })
        .boxed()
}

struct Run<'a> {
    h: &'a History,
    m: Tx,
    s: TransactionSigner,
    hash: [u8; 32],
    locked: bool,
}

fn fold(c: &Cond, hash: [u8; 32], typ: u8) -> [u8; 32] {
    let (fee, nonce) = c.fee_nonce();
    let mut h = hash;
    let step = |h: &[u8; 32], s: &[u8]| postsign(&presign(h, typ, fee, nonce), s);
    match c {
        Cond::Single { sig, .. } if sig.is_empty() => {}
        Cond::Single { sig, .. } => h = step(&h, sig),
        Cond::Multi { fields, .. } => {
            for f in fields {
                if let Field::Sig(s) = f {
                    h = step(&h, s);
                }
            }
        }
    }
    h
}

fn count(c: &Cond) -> usize {
    match c {
        Cond::Single { sig, .. } => usize::from(!sig.is_empty()),
        Cond::Multi { fields, .. } => fields.iter().filter(|f| matches!(f, Field::Sig(_))).count(),
    }
}

fn filled(c: &Cond) -> usize {
    match c {
        Cond::Single { sig, .. } => usize::from(!sig.is_empty()),
        Cond::Multi { fields, .. } => fields.len(),
    }
}

fn key_at(c: &Cond, i: usize) -> Option<Key> {
    match c {
        Cond::Single { key, .. } => (i == 0).then_some(*key),
        Cond::Multi { keys, .. } => keys.get(i).copied(),
    }
}

/// Whether every field so far belongs to the key at its position.
fn in_order(c: &Cond, hash: [u8; 32], typ: u8) -> bool {
    let (fee, nonce) = c.fee_nonce();
    let mut h = hash;
    match c {
        Cond::Single { .. } => true,
        Cond::Multi { keys, fields, .. } => fields.len() <= keys.len() && fields.iter().zip(keys).all(|(f, k)| match f {
            Field::Pk(p) => p == k,
            Field::Sig(s) => {
                let pre = presign(&h, typ, fee, nonce);
                h = postsign(&pre, s);
                recover(&pre, s) == Some(k.public())
            }
        }),
    }
}

impl Run<'_> {
    fn pool(&self, c: &Cond, i: u8) -> Key {
        let mut keys = match c {
            Cond::Single { key, .. } => vec![*key],
            Cond::Multi { keys, .. } => keys.clone(),
        };
        keys.extend(&self.h.outsiders);
        keys[usize::from(i) % keys.len()]
    }

    fn snapshot(&self) -> Result<(Vec<u8>, SignatureHash, bool), String> {
        Ok((encode(&self.s.tx)?, self.s.hash, self.s.origin_signed))
    }

    fn unchanged(&self, before: &(Vec<u8>, SignatureHash, bool), what: &str) -> Verdict {
        let now = self.snapshot()?;
        ensure!(now.0 == before.0, "{what} was refused but changed the transaction");
        ensure!(now.1 == before.1, "{what} was refused but changed the signing hash");
        ensure!(now.2 == before.2, "{what} was refused but changed the session");
        Ok(())
    }

    /// Reads the newest signature of the origin or sponsor off the wire.
    fn take_sig(&mut self, sponsor: bool, key: &Key) -> Verdict {
        let wire = encode(&self.s.tx)?;
        let base = AUTH_AT + if sponsor { self.m.auth.origin().enc(false).len() } else { 0 };
        let cond = if sponsor {
            match &mut self.m.auth {
                AuthM::Spo(_, Some(s)) => s,
                _ => unreachable!(),
            }
        } else {
            self.m.auth.origin_mut()
        };
        let (fee, nonce) = cond.fee_nonce();
        let at = match &*cond {
            Cond::Single { .. } => base + SIG_AT,
            Cond::Multi { fields, .. } => {
                let end = base + FIELDS_AT + fields.iter().map(|f| if matches!(f, Field::Pk(_)) { 34 } else { 66 }).sum::<usize>();
                ensure!(wire.get(end) == Some(&2), "no signature field where the next field belongs");
                end + 1
            }
        };
        ensure!(wire.len() >= at + 65, "the signature is missing from the wire");
        let sig = &wire[at..at + 65];
        let pre = presign(&self.hash, if sponsor { SPONSOR } else { ORIGIN }, fee, nonce);
        check_sig(sig, &pre, key, if sponsor { "sponsor step" } else { "origin step" })?;
        self.hash = postsign(&pre, sig);
        let sig: [u8; 65] = sig.try_into().unwrap();
        match cond {
            Cond::Single { sig: s, .. } => *s = sig.to_vec(),
            Cond::Multi { fields, .. } => fields.push(Field::Sig(sig)),
        }
        Ok(())
    }

    fn sign_origin(&mut self, key: Key, what: &str) -> Verdict {
        let before = self.snapshot()?;
        let o = self.m.auth.origin();
        let full = count(o) >= o.required();
        let proper = key_at(o, filled(o)) == Some(key) && in_order(o, self.m.initial_hash().unwrap(), ORIGIN);
        let r = no_panic(what, || self.s.sign_origin(key.secret()))?;
        match r {
            Err(e) => {
                ensure!(self.locked || full || !proper, "{what}: a proper origin signature was refused: {e}");
                self.unchanged(&before, what)
            }
            Ok(()) => {
                ensure!(!self.locked, "{what}: the origin signed after the sponsor");
                ensure!(!full, "{what}: more origin signatures than required");
                self.take_sig(false, &key)
            }
        }
    }

    fn append_origin(&mut self, key: Key, what: &str) -> Verdict {
        let before = self.snapshot()?;
        let o = self.m.auth.origin();
        let is_multi = matches!(o, Cond::Multi { .. });
        let total = match o {
            Cond::Multi { keys, .. } => keys.len(),
            Cond::Single { .. } => 1,
        };
        // an append that still leaves room for the missing signatures
        let proper = is_multi
            && key_at(o, filled(o)) == Some(key)
            && in_order(o, self.m.initial_hash().unwrap(), ORIGIN)
            && total - filled(o) > o.required() - count(o).min(o.required());
        let r = no_panic(what, || self.s.append_origin(key.public()))?;
        match r {
            Err(e) => {
                ensure!(self.locked || !proper, "{what}: a proper public key was refused: {e}");
                self.unchanged(&before, what)
            }
            Ok(()) => {
                ensure!(!self.locked, "{what}: a key was appended to the origin after the sponsor signed");
                ensure!(is_multi, "{what}: a key was appended to a single-sig origin");
                ensure!(self.s.hash == before.1, "{what}: appending a key changed the signing hash");
                if let Cond::Multi { fields, .. } = self.m.auth.origin_mut() {
                    fields.push(Field::Pk(key));
                }
                Ok(())
            }
        }
    }

    fn sign_sponsor(&mut self, key: Option<Key>, what: &str) -> Verdict {
        let before = self.snapshot()?;
        let Some(key) = key else { return Ok(()) };
        let Some(c) = self.m.auth.sponsor() else {
            // no sponsor condition: only a standard authorization must refuse
            if matches!(self.m.auth, AuthM::Std(_)) {
                let r = no_panic(what, || self.s.sign_sponsor(key.secret()))?;
                ensure!(r.is_err(), "{what}: a standard transaction took a sponsor signature");
                return self.unchanged(&before, what);
            }
            return Ok(());
        };
        let full = count(c) >= c.required();
        let (origin, oh) = origin_verify(&self.m);
        let proper = origin == Ref::Accept && key_at(c, filled(c)) == Some(key) && in_order(c, oh, SPONSOR);
        let r = no_panic(what, || self.s.sign_sponsor(key.secret()))?;
        match r {
            Err(e) => {
                ensure!(full || !proper, "{what}: a proper sponsor signature was refused: {e}");
                self.unchanged(&before, what)
            }
            Ok(()) => {
                ensure!(!full, "{what}: more sponsor signatures than required");
                self.locked = true;
                self.take_sig(true, &key)
            }
        }
    }

    fn append_sponsor(&mut self, what: &str) -> Verdict {
        let before = self.snapshot()?;
        let Some(c) = self.m.auth.sponsor().cloned() else { return Ok(()) };
        let Some(key) = key_at(&c, filled(&c)) else { return Ok(()) };
        let r = no_panic(what, || {
            self.s.tx.auth.sponsor_mut().and_then(|s| s.modify(Modification::AddPublicKey(key.public())))
        })?;
        match (&c, r) {
            (Cond::Single { .. }, Ok(())) => Err(format!("{what}: a key was appended to a single-sig sponsor")),
            (Cond::Single { .. }, Err(_)) => self.unchanged(&before, what),
            (Cond::Multi { .. }, Err(e)) => Err(format!("{what}: {e}")),
            (Cond::Multi { .. }, Ok(())) => {
                if let AuthM::Spo(_, Some(Cond::Multi { fields, .. })) = &mut self.m.auth {
                    fields.push(Field::Pk(key));
                }
                Ok(())
            }
        }
    }

    fn resume(&mut self, what: &str) -> Verdict {
        let tx = self.s.tx.clone();
        self.s = no_panic(what, || TransactionSigner::new(tx))?.map_err(|e| format!("{what}: new session refused: {e}"))?;
        let start = self.m.initial_hash().unwrap();
        self.hash = fold(self.m.auth.origin(), start, ORIGIN);
        self.locked = false;
        if let Some(s) = self.m.auth.sponsor() {
            self.locked = count(s) > 0;
            self.hash = fold(s, self.hash, SPONSOR);
        }
        Ok(())
    }

    fn sponsor_session(&mut self, cond: Option<Cond>, what: &str) -> Verdict {
        let before = self.snapshot()?;
        let (o, oh) = origin_verify(&self.m);
        let boxed = match (&cond, &self.s.tx.auth) {
            (Some(c), _) => c.build(),
            (None, Auth::Sponsored(_, s)) => s.clone(),
            (None, Auth::Standard(o)) => o.clone(),
        };
        let r = no_panic(what, || TransactionSigner::new_sponser(&self.s.tx, boxed))?;
        self.unchanged(&before, what)?;
        let sponsored = matches!(self.m.auth, AuthM::Spo(..));
        match r {
            Err(e) => {
                ensure!(!sponsored || o != Ref::Accept, "{what}: a sponsor session was refused for a verified origin: {e}");
                Ok(())
            }
            Ok(s) => {
                ensure!(sponsored, "{what}: a sponsor session started for a standard transaction");
                ensure!(o != Ref::Reject, "{what}: a sponsor session started from an unverified origin");
                self.s = s;
                if let AuthM::Spo(_, c) = &mut self.m.auth {
                    if let Some(n) = cond {
                        *c = Some(n);
                    }
                    self.hash = c.as_ref().map_or(oh, |c| fold(c, oh, SPONSOR));
                }
                self.locked = true;
                Ok(())
            }
        }
    }

    fn check(&self, what: &str) -> Verdict {
        let wire = encode(&self.s.tx)?;
        let want = self.m.enc().unwrap();
        ensure!(wire == want, "after {what} the transaction is {} instead of {}", hex(&wire), hex(&want));
        check_verify(&self.m, &self.s.tx, &format!("after {what}"))
    }
}

fn run_history(h: &History) -> Verdict {
    let tx = h.tx.build();
    let s = no_panic("new session", || TransactionSigner::new(tx))?.map_err(|e| format!("new session: {e}"))?;
    let mut r = Run { h, m: h.tx.clone(), s, hash: h.tx.initial_hash().unwrap(), locked: false };
    r.check("start")?;
    for (i, op) in h.ops.iter().enumerate() {
        let what = format!("step {i} ({op:?})");
        let o = r.m.auth.origin().clone();
        let sp = r.m.auth.sponsor().cloned();
        match op {
            Op::SignNext => match key_at(&o, filled(&o)) {
                Some(k) => r.sign_origin(k, &what)?,
                None => r.sign_origin(r.pool(&o, 0), &what)?,
            },
            Op::AppendNext => match key_at(&o, filled(&o)) {
                Some(k) => r.append_origin(k, &what)?,
                None => r.append_origin(r.pool(&o, 0), &what)?,
            },
            Op::SignOrigin(k) => r.sign_origin(r.pool(&o, *k), &what)?,
            Op::AppendOrigin(k) => r.append_origin(r.pool(&o, *k), &what)?,
            Op::SponsorNext => {
                let k = match &sp {
                    Some(s) => Some(key_at(s, filled(s)).unwrap_or_else(|| r.pool(s, 0))),
                    None => Some(h.outsiders[0]),
                };
                r.sign_sponsor(k, &what)?;
            }
            Op::SignSponsor(k) => {
                let k = sp.as_ref().map_or(h.outsiders[0], |s| r.pool(s, *k));
                r.sign_sponsor(Some(k), &what)?;
            }
            Op::SponsorAppendNext => r.append_sponsor(&what)?,
            Op::Resume => r.resume(&what)?,
            Op::Sponsor(i) => r.sponsor_session(Some(h.sponsors[usize::from(*i)].clone()), &what)?,
            Op::SponsorResume => r.sponsor_session(None, &what)?,
        }
        r.check(&what)?;
    }
    Ok(())
}

pub fn c19() -> Property {
    Property {
        id: "C19",
        subs: vec![Box::new(SubCheck {
            name: "history",
            rule: "random signing histories (planned completions with session breaks and intruding steps, and free histories) over \
                   1-5 keys per party; non-trivial: at least three steps on a multi-sig or sponsored transaction",
            quick: 12_000,
            thorough: 350_000,
            strategy: history,
            classify: |h| {
                let mut l = vec![h.tx.auth.kind()];
                if h.ops.iter().any(|o| matches!(o, Op::Resume)) {
                    l.push("several-sessions");
                }
                if h.ops.iter().any(|o| matches!(o, Op::Sponsor(_) | Op::SponsorResume)) {
                    l.push("sponsor-session");
                }
                let big = matches!(h.tx.auth, AuthM::Spo(..) | AuthM::Std(Cond::Multi { .. }));
                class(big && h.ops.len() >= 3, l)
            },
            run: run_history,
        })],
        assumptions: &[
            "the oversign and overlap checks of TransactionSigner stay enabled (their default)",
            "signatures by keys that are not next in order may be applied or refused",
            "at most 5 keys per party",
        ],
    }
}

// ---------------------------------------------------------------------------
// C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    #[serde(with = "as_hex")]
    hash: [u8; 32],
    typ: u8,
    #[serde(with = "as_str")]
    fee: u64,
    #[serde(with = "as_str")]
    nonce: u64,
    key: Key,
    /// Which part is changed, and which bit of it.
    part: u8,
    bit: u16,
}

fn step() -> BoxedStrategy<Step> {
    (any::<[u8; 32]>(), prop_oneof![Just(4u8), Just(5u8), any::<u8>()], model::u64s(), model::u64s(), key(), 0u8..6, any::<u16>())
        .prop_map(|(hash, typ, fee, nonce, key, part, bit)| Step { hash, typ, fee, nonce, key, part, bit })
        .boxed()
}

fn run_step(s: &Step) -> Verdict {
    let h = SignatureHash::from(s.hash);
    let pre = presign(&s.hash, s.typ, s.fee, s.nonce);
    let got = no_panic("make_presign_hash", || SignatureHash::make_presign_hash(h, s.typ, s.fee, s.nonce))?;
    ensure!(*got.as_bytes() == pre, "presign hash is {} instead of {}", got.hex(), hex(&pre));
    let (sig, next) = no_panic("next_signature", || SignatureHash::next_signature(h, s.typ, s.fee, s.nonce, s.key.secret()))?
        .map_err(|e| format!("next_signature: {e}"))?;
    check_sig(sig.as_bytes(), &pre, &s.key, "next_signature")?;
    let want = postsign(&pre, sig.as_bytes());
    ensure!(*next.as_bytes() == want, "next hash is {} instead of {}", next.hex(), hex(&want));
    let post = no_panic("make_postsign_hash", || SignatureHash::make_postsign_hash(got, sig))?;
    ensure!(*post.as_bytes() == want, "postsign hash is wrong");
    // the hash after a signature covers its bytes, whatever they are
    let mut any = [0u8; 65];
    for (i, b) in any.iter_mut().enumerate() {
        *b = s.hash[i % 32].wrapping_mul(i as u8 | 1) ^ s.bit as u8;
    }
    for last in [any[0], s.part, (s.bit >> 8) as u8] {
        any[0] = last;
        let post = no_panic("make_postsign_hash", || SignatureHash::make_postsign_hash(got, MessageSignature::from(any)))?;
        ensure!(*post.as_bytes() == postsign(&pre, &any), "postsign hash of the signature {} is wrong", hex(&any));
    }
    let (pk, vnext) = no_panic("next_verify", || SignatureHash::next_verify(h, s.typ, s.fee, s.nonce, sig))?
        .map_err(|e| format!("next_verify refuses the signature just made: {e}"))?;
    ensure!(pk == s.key.public(), "verification recovers another key");
    ensure!(vnext == next, "signing and verifying reach different hashes");
    // one bit changed in one part
    let mut hash = s.hash;
    let mut fee = s.fee;
    let mut nonce = s.nonce;
    let mut typ = s.typ;
    let mut bytes = *sig.as_bytes();
    let b = usize::from(s.bit);
    match s.part {
        0 => hash[b / 8 % 32] ^= 1 << (b % 8),
        1 => fee ^= 1 << (b % 64),
        2 => nonce ^= 1 << (b % 64),
        3 => typ ^= 1 << (b % 8),
        4 => bytes[1 + b / 8 % 64] ^= 1 << (b % 8),
        _ => bytes[0] ^= 1 << (b % 8),
    }
    let r = no_panic("next_verify", || SignatureHash::next_verify(SignatureHash::from(hash), typ, fee, nonce, MessageSignature::from(bytes)))?;
    let pre2 = presign(&hash, typ, fee, nonce);
    let want = recover(&pre2, &bytes);
    match (r, want) {
        (Err(_), None) => {}
        (Ok((pk, next)), Some(w)) => {
            ensure!(pk == w, "verification recovers {pk} instead of {w}");
            ensure!(pk != s.key.public(), "changed data still verifies");
            ensure!(*next.as_bytes() == postsign(&pre2, &bytes), "next hash after changed data is wrong");
        }
        (Ok(_), None) => return Err(format!("malformed signature {} verifies", hex(&bytes))),
        (Err(e), Some(_)) => return Err(format!("well-formed signature {} refused: {e}", hex(&bytes))),
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SigBytes(#[serde(with = "as_hex")] Vec<u8>);

fn sig_bytes() -> BoxedStrategy<SigBytes> {
    let order = model::parse_hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141");
    let scalar = move || {
        let order = order.clone();
        prop_oneof![
            5 => any::<[u8; 32]>().prop_map(|b| b.to_vec()),
            1 => Just(vec![0u8; 32]),
            1 => Just(vec![0xffu8; 32]),
            2 => (0u8..5).prop_map(move |d| { let mut o = order.clone(); o[31] = 0x3f + d; o }),
        ]
    };
    let id = prop_oneof![4 => 0u8..4, 2 => 4u8..8, 1 => select(vec![27u8, 28, 31, 127, 128, 131, 255]), 1 => any::<u8>()];
    let whole = (id, scalar(), scalar()).prop_map(|(i, r, s)| [vec![i], r, s].concat());
    let other = prop_oneof![
        vec(any::<u8>(), 0..200),
        (select(vec![0usize, 1, 63, 64, 66, 67, 130]), any::<u8>()).prop_map(|(n, b)| vec![b; n]),
    ];
    prop_oneof![4 => whole, 1 => other].prop_map(SigBytes).boxed()
}

fn run_sig_bytes(s: &SigBytes) -> Verdict {
    use secp256k1::ecdsa::{RecoverableSignature, RecoveryId};
    let b = &s.0;
    let m = no_panic("MessageSignature::from_slice", || MessageSignature::from_slice(b))?;
    if b.len() != 65 {
        ensure!(m.is_err(), "a signature of {} bytes is accepted", b.len());
        return Ok(());
    }
    let m = m.map_err(|e| format!("65 bytes refused: {e}"))?;
    ensure!(m.as_bytes()[..] == b[..], "from_slice changed the bytes");
    ensure!(MessageSignature::new(b) == m, "new and from_slice disagree");
    let want = RecoveryId::from_i32(i32::from(b[0])).and_then(|id| RecoverableSignature::from_compact(&b[1..], id)).ok();
    let got = no_panic("into_recov", || m.into_recov())?;
    match (got, want) {
        (Ok(g), Some(w)) => {
            ensure!(g == w, "into_recov gives another signature");
            let back = no_panic("from_recov", || MessageSignature::from_recov(g))?.map_err(|e| format!("from_recov: {e}"))?;
            ensure!(back == m, "recoverable round trip gives {} for {}", back.hex(), m.hex());
        }
        (Err(_), None) => {}
        (Ok(_), None) => return Err(format!("malformed signature {} accepted", m.hex())),
        (Err(e), Some(_)) => return Err(format!("signature {} refused: {e}", m.hex())),
    }
    Ok(())
}

pub fn c25() -> Property {
    let nontrivial_sig = |s: &SigBytes| -> Class {
        let ok = s.0.len() == 65;
        class(ok && s.0[1..].iter().any(|b| *b != 0), vec![if !ok { "other-length" } else if s.0[0] < 4 { "id-in-range" } else { "id-out-of-range" }])
    };
    Property {
        id: "C25",
        subs: vec![
            Box::new(SubCheck {
                name: "step",
                rule: "random hash, auth type, fee, nonce and key, then one changed bit in one of them or the signature; \
                       non-trivial: fee or nonce not zero",
                quick: 40_000,
                thorough: 1_500_000,
                strategy: step,
                classify: |s| {
                    let part = ["hash", "fee", "nonce", "type", "signature", "recovery-id"][usize::from(s.part % 6)];
                    class(s.fee > 0 || s.nonce > 0, vec![part])
                },
                run: run_step,
            }),
            Box::new(SubCheck {
                name: "signature-bytes",
                rule: "65-byte strings with recovery ids and scalars in and out of range, and other lengths; \
                       non-trivial: 65 bytes that are not all zero",
                quick: 60_000,
                thorough: 3_000_000,
                strategy: sig_bytes,
                classify: nontrivial_sig,
                run: run_sig_bytes,
            }),
        ],
        assumptions: &["libsecp256k1 is trusted for parsing, signing and recovery"],
    }
}
