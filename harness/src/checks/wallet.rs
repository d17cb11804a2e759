//! C20 key derivation, C21 account lookups.
use std::collections::BTreeMap;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use secp256k1::{PublicKey, Scalar, Secp256k1, SecretKey};
use serde::{Deserialize, Serialize};
use stacks_rs::crypto::c32::Version;
use stacks_rs::wallet::{StacksAccount, StacksWallet};

use crate::ensure;
use crate::model::as_hex;
use crate::refc;
use crate::refhash::{hash160, hex, hmac_sha512, pbkdf2_sha512, sha256};
use crate::runner::{class, no_panic, Property, SubCheck, Verdict};

// ---------------------------------------------------------------------------
// Reference BIP-39 / BIP-32

fn words() -> &'static [&'static str] {
    bip39::Language::English.word_list()
}

pub fn phrase(entropy: &[u8]) -> Vec<String> {
    let mut bits: Vec<bool> = entropy.iter().flat_map(|b| (0..8).rev().map(move |i| b >> i & 1 == 1)).collect();
    let sum = sha256(entropy);
    for i in 0..entropy.len() / 4 {
        bits.push(sum[i / 8] >> (7 - i % 8) & 1 == 1);
    }
    bits.chunks(11)
        .map(|c| words()[c.iter().fold(0usize, |n, b| n * 2 + usize::from(*b))].to_string())
        .collect()
}

/// Whether the words are a valid phrase.
pub fn valid(ws: &[String]) -> bool {
    if ![12, 15, 18, 21, 24].contains(&ws.len()) {
        return false;
    }
    let mut bits = vec![];
    for w in ws {
        let Ok(i) = words().binary_search(&w.as_str()) else { return false };
        bits.extend((0..11).rev().map(|b| i >> b & 1 == 1));
    }
    let n = ws.len() * 11 * 32 / 33;
    let entropy: Vec<u8> = bits[..n].chunks(8).map(|c| c.iter().fold(0u8, |a, b| a << 1 | u8::from(*b))).collect();
    phrase(&entropy) == ws
}

#[derive(Clone, Copy)]
pub struct Node {
    key: SecretKey,
    chain: [u8; 32],
}

impl Node {
    fn child(&self, i: u32) -> Node {
        let mut data = vec![];
        if i >= 1 << 31 {
            data.push(0);
            data.extend_from_slice(&self.key.secret_bytes());
        } else {
            data.extend_from_slice(&public(&self.key).serialize());
        }
        data.extend_from_slice(&i.to_be_bytes());
        let h = hmac_sha512(&self.chain, &data);
        let tweak = Scalar::from_be_bytes(h[..32].try_into().unwrap()).expect("valid child");
        Node { key: self.key.add_tweak(&tweak).expect("valid child"), chain: h[32..].try_into().unwrap() }
    }
}

fn public(k: &SecretKey) -> PublicKey {
    PublicKey::from_secret_key(&Secp256k1::signing_only(), k)
}

/// The node at m/44'/5757'/0'/0 of the phrase with an empty passphrase.
pub fn wallet_node(phrase: &str) -> Node {
    let seed = pbkdf2_sha512(phrase.as_bytes(), b"mnemonic", 2048);
    let h = hmac_sha512(b"Bitcoin seed", &seed);
    let mut n = Node { key: SecretKey::from_slice(&h[..32]).expect("valid master"), chain: h[32..].try_into().unwrap() };
    for i in [44 | 1 << 31, 5757 | 1 << 31, 1 << 31, 0] {
        n = n.child(i);
    }
    n
}

fn check_account(a: &StacksAccount, want: &SecretKey, what: &str) -> Verdict {
    let sk = no_panic("private_key", || a.private_key())?.map_err(|e| format!("{what}: private_key: {e}"))?;
    ensure!(sk == *want, "{what}: private key is {} instead of {}", hex(&sk.secret_bytes()), hex(&want.secret_bytes()));
    let pk = no_panic("public_key", || a.public_key())?.map_err(|e| format!("{what}: public_key: {e}"))?;
    ensure!(pk == public(want), "{what}: public key does not belong to the private key");
    let hash = hash160(&pk.serialize());
    for (v, n) in [
        (Version::MainnetP2PKH, 22u8),
        (Version::MainnetP2SH, 20),
        (Version::TestnetP2PKH, 26),
        (Version::TestnetP2SH, 21),
    ] {
        let text = no_panic("get_address", || a.get_address(v))?.map_err(|e| format!("{what}: get_address: {e}"))?;
        let want = refc::address(&hash, n);
        ensure!(text == want, "{what}: address for version {n} is {text} instead of {want}");
    }
    Ok(())
}

fn check_wallet(w: &StacksWallet, node: &Node, what: &str) -> Verdict {
    let sk = no_panic("private_key", || w.private_key())?.map_err(|e| format!("{what}: private_key: {e}"))?;
    ensure!(sk == node.key, "{what}: wallet key is {} instead of {}", hex(&sk.secret_bytes()), hex(&node.key.secret_bytes()));
    let pk = no_panic("public_key", || w.public_key())?.map_err(|e| format!("{what}: public_key: {e}"))?;
    ensure!(pk == public(&node.key), "{what}: wallet public key does not belong to its private key");
    Ok(())
}

fn entropy() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => select(vec![16usize, 20, 24, 28, 32]).prop_flat_map(|n| vec(any::<u8>(), n)),
        1 => (select(vec![16usize, 20, 24, 28, 32]), select(vec![0u8, 0x7f, 0x80, 0xff])).prop_map(|(n, b)| vec![b; n]),
    ]
    .boxed()
}

fn index() -> BoxedStrategy<u32> {
    prop_oneof![
        3 => 0u32..20,
        2 => any::<u32>(),
        1 => select(vec![0u32, 1, 255, 256, 65535, 65536, (1 << 31) - 1, 1 << 31, (1 << 31) + 1, u32::MAX]),
    ]
    .boxed()
}

// ---------------------------------------------------------------------------
// C20

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Derive {
    #[serde(with = "as_hex")]
    entropy: Vec<u8>,
    index: Vec<u32>,
    /// A second wallet, alive beside the first, whose entropy differs in this byte.
    #[serde(default)]
    twin: Option<(u8, u8)>,
}

fn run_derive(d: &Derive) -> Verdict {
    let text = phrase(&d.entropy).join(" ");
    let node = wallet_node(&text);
    let mut w = no_panic("from_secret_key", || StacksWallet::from_secret_key(text.clone()))?
        .map_err(|e| format!("valid phrase refused: {e}"))?;
    check_wallet(&w, &node, "new wallet")?;
    for i in &d.index {
        let a = no_panic("get_account", || w.get_account(*i))?.map_err(|e| format!("account {i} refused: {e}"))?;
        check_account(&a, &node.child(*i).key, &format!("account {i}"))?;
    }
    check_wallet(&w, &node, "wallet after lookups")?;
    if let Some((at, x)) = d.twin {
        let mut other = d.entropy.clone();
        let n = other.len();
        other[n - 1 - usize::from(at) % n] ^= x.max(1);
        run_derive(&Derive { entropy: other, index: d.index.clone(), twin: None }).map_err(|e| format!("second wallet: {e}"))?;
        check_wallet(&w, &node, "first wallet after the second")?;
        let i = d.index[0];
        let a = no_panic("get_account", || w.get_account(i))?.map_err(|e| format!("account {i} refused: {e}"))?;
        check_account(&a, &node.child(i).key, &format!("account {i} after the second wallet"))?;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Damage {
    Replace(u8, u16),
    Unknown(u8, String),
    Drop(u8),
    Insert(u8, u16),
    Swap(u8, u8),
    Truncate(u8),
    Repeat(u8),
    /// Words chosen freely.
    Words(Vec<u16>),
    Text(String),
    Joined,
    Letter(u8, u8),
    /// Something that is no space stuck to the front or the end of a word.
    Stuck(u8, char, bool),
    /// Words separated by something that is no space.
    Separator(u8, char),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BadPhrase {
    #[serde(with = "as_hex")]
    entropy: Vec<u8>,
    damage: Damage,
}

/// A character that is neither a space nor a letter, and stays so when normalized.
fn mark() -> BoxedStrategy<char> {
    select("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~0123456789\u{200b}\u{feff}\u{0}\u{7f}".chars().collect::<Vec<_>>()).boxed()
}

fn bad_phrase() -> BoxedStrategy<BadPhrase> {
    use Damage as D;
    let d = prop_oneof![
        4 => (any::<u8>(), any::<u16>()).prop_map(|(i, w)| D::Replace(i, w)),
        2 => (any::<u8>(), "[a-z]{1,9}").prop_map(|(i, w)| D::Unknown(i, w)),
        1 => any::<u8>().prop_map(D::Drop),
        1 => (any::<u8>(), any::<u16>()).prop_map(|(i, w)| D::Insert(i, w)),
        2 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| D::Swap(a, b)),
        2 => any::<u8>().prop_map(D::Truncate),
        1 => any::<u8>().prop_map(D::Repeat),
        2 => vec(any::<u16>(), 0..30).prop_map(D::Words),
        1 => prop_oneof![Just(String::new()), "\\PC{0,40}", "[a-z ]{0,80}"].prop_map(D::Text),
        1 => Just(D::Joined),
        1 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| D::Letter(a, b)),
        2 => (prop_oneof![Just(0u8), Just(255), any::<u8>()], mark(), any::<bool>()).prop_map(|(i, c, e)| D::Stuck(i, c, e)),
        1 => (any::<u8>(), mark()).prop_map(|(i, c)| D::Separator(i, c)),
    ];
    (entropy(), d).prop_map(|(entropy, damage)| BadPhrase { entropy, damage }).boxed()
}

/// The damaged text, and whether it is a valid phrase all the same.
fn damaged(b: &BadPhrase) -> (String, Option<bool>) {
    use Damage as D;
    let mut ws = phrase(&b.entropy);
    let n = ws.len();
    let word = |i: u16| words()[usize::from(i) % 2048].to_string();
    match &b.damage {
        D::Replace(i, w) => ws[usize::from(*i) % n] = word(*w),
        D::Unknown(i, w) => ws[usize::from(*i) % n] = w.clone(),
        D::Drop(i) => drop(ws.remove(usize::from(*i) % n)),
        D::Insert(i, w) => ws.insert(usize::from(*i) % (n + 1), word(*w)),
        D::Swap(a, b) => ws.swap(usize::from(*a) % n, usize::from(*b) % n),
        D::Truncate(i) => ws.truncate(usize::from(*i) % n),
        D::Repeat(i) => {
            let w = ws.clone();
            ws.extend_from_slice(&w[..usize::from(*i) % n]);
        }
        D::Words(v) => ws = v.iter().map(|i| word(*i)).collect(),
        D::Text(t) => {
            // free text: only text whose words make a valid phrase is undecided
            let ws: Vec<String> = t.split_whitespace().map(str::to_lowercase).collect();
            return (t.clone(), if valid(&ws) { None } else { Some(false) });
        }
        D::Joined => return (ws.join(""), Some(false)),
        D::Letter(i, l) => {
            let w = &mut ws[usize::from(*i) % n];
            let mut c: Vec<char> = w.chars().collect();
            let at = usize::from(*l) % c.len();
            c[at] = if c[at] == 'z' { 'a' } else { (c[at] as u8 + 1) as char };
            *w = c.into_iter().collect();
        }
        D::Stuck(i, c, end) => {
            // 255: the last word
            let w = &mut ws[if *i == 255 { n - 1 } else { usize::from(*i) % n }];
            w.insert(if *end { w.len() } else { 0 }, *c);
        }
        D::Separator(i, c) => {
            // between two words, or between all of them
            let text = if i % 2 == 0 {
                ws.join(&c.to_string())
            } else {
                let at = usize::from(i / 2) % (n - 1) + 1;
                format!("{}{c}{}", ws[..at].join(" "), ws[at..].join(" "))
            };
            return (text, Some(false));
        }
    }
    let ok = valid(&ws);
    (ws.join(" "), Some(ok))
}

fn run_bad(b: &BadPhrase) -> Verdict {
    let (text, ok) = damaged(b);
    let r = no_panic("from_secret_key", || StacksWallet::from_secret_key(text.clone()))?;
    match ok {
        None => Ok(()),
        Some(true) => match r {
            Ok(w) => check_wallet(&w, &wallet_node(&text), "wallet"),
            Err(e) => Err(format!("valid phrase refused: {e}")),
        },
        Some(false) => {
            ensure!(r.is_err(), "invalid phrase accepted: {text:?}");
            Ok(())
        }
    }
}

pub fn c20() -> Property {
    Property {
        id: "C20",
        subs: vec![
            Box::new(SubCheck {
                name: "derive",
                rule: "random entropy of each of the five phrase lengths and account indices over the whole range; \
                       non-trivial: entropy is not one repeated byte",
                quick: 4_000,
                thorough: 60_000,
                strategy: || {
                    let twin = proptest::option::weighted(0.3, (prop_oneof![Just(0u8), 0u8..4, any::<u8>()], any::<u8>()));
                    (entropy(), vec(index(), 1..4), twin).prop_map(|(entropy, index, twin)| Derive { entropy, index, twin }).boxed()
                },
                classify: |d| {
                    let n = match d.entropy.len() {
                        16 => "12-words",
                        20 => "15-words",
                        24 => "18-words",
                        28 => "21-words",
                        _ => "24-words",
                    };
                    let mut l = vec![n];
                    if d.index.iter().any(|i| *i >= 1 << 31) {
                        l.push("hardened-index");
                    }
                    if d.twin.is_some() {
                        l.push("two-wallets");
                    }
                    class(d.entropy.iter().any(|b| *b != d.entropy[0]), l)
                },
                run: run_derive,
            }),
            Box::new(SubCheck {
                name: "bad-phrase",
                rule: "valid phrases with one damage (word replaced, unknown, dropped, added, swapped, letter changed), random word \
                       lists and free text; non-trivial: the result is not a valid phrase",
                quick: 40_000,
                thorough: 500_000,
                strategy: bad_phrase,
                classify: |b| {
                    let (_, ok) = damaged(b);
                    class(ok == Some(false), vec![if ok == Some(false) { "invalid" } else { "valid" }])
                },
                run: run_bad,
            }),
        ],
        assumptions: &[
            "the English word list is taken from the bip39 crate",
            "curve arithmetic of the oracle is libsecp256k1; HMAC, PBKDF2 and BIP-32 are the harness's own",
            "words are separated by single spaces",
        ],
    }
}

// ---------------------------------------------------------------------------
// C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum WOp {
    Get { w: u8, i: u8 },
    /// Assigns to index `i` the account that wallet `from` holds at `j`.
    Set { w: u8, i: u8, from: u8, j: u8 },
    Clone { w: u8 },
    Own { w: u8 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wallets {
    #[serde(with = "as_hex")]
    a: [u8; 16],
    #[serde(with = "as_hex")]
    b: [u8; 16],
    indices: Vec<u32>,
    ops: Vec<WOp>,
}

fn wallets() -> BoxedStrategy<Wallets> {
    let op = prop_oneof![
        6 => (0u8..4, 0u8..6).prop_map(|(w, i)| WOp::Get { w, i }),
        4 => (0u8..4, 0u8..6, 0u8..4, 0u8..6).prop_map(|(w, i, from, j)| WOp::Set { w, i, from, j }),
        1 => (0u8..4).prop_map(|w| WOp::Clone { w }),
        1 => (0u8..4).prop_map(|w| WOp::Own { w }),
    ];
    let indices = prop_oneof![
        2 => Just(vec![0u32, 1, 2, 3, 1 << 31, u32::MAX]),
        1 => vec(index(), 6),
    ];
    (any::<[u8; 16]>(), any::<[u8; 16]>(), indices, vec(op, 1..25))
        .prop_map(|(a, b, indices, ops)| Wallets { a, b, indices, ops })
        .boxed()
}

struct Live {
    real: StacksWallet,
    node: Node,
    set: BTreeMap<u32, (SecretKey, StacksAccount)>,
}

impl Live {
    fn expect(&self, i: u32) -> SecretKey {
        self.set.get(&i).map_or_else(|| self.node.child(i).key, |s| s.0)
    }
    fn get(&mut self, i: u32, what: &str) -> Result<StacksAccount, String> {
        let a = no_panic("get_account", || self.real.get_account(i))?.map_err(|e| format!("{what}: get_account({i}): {e}"))?;
        check_account(&a, &self.expect(i), &format!("{what}: account {i}"))?;
        if let Some((_, given)) = self.set.get(&i) {
            ensure!(a == *given, "{what}: account {i} is not the one assigned");
        }
        Ok(a)
    }
}

fn run_wallets(c: &Wallets) -> Verdict {
    let mut live: Vec<Live> = vec![];
    for e in [&c.a, &c.b] {
        let text = phrase(e).join(" ");
        let real = no_panic("from_secret_key", || StacksWallet::from_secret_key(text.clone()))?.map_err(|e| format!("phrase refused: {e}"))?;
        live.push(Live { real, node: wallet_node(&text), set: BTreeMap::new() });
    }
    for (k, op) in c.ops.iter().enumerate() {
        let what = format!("step {k} ({op:?})");
        let n = live.len();
        let at = |w: u8| usize::from(w) % n;
        let ix = |i: u8| c.indices[usize::from(i) % c.indices.len()];
        match op {
            WOp::Get { w, i } => {
                let first = live[at(*w)].get(ix(*i), &what)?;
                let again = live[at(*w)].get(ix(*i), &what)?;
                ensure!(first == again, "{what}: two lookups in a row differ");
            }
            WOp::Set { w, i, from, j } => {
                let a = live[at(*from)].get(ix(*j), &what)?;
                let key = live[at(*from)].expect(ix(*j));
                let t = &mut live[at(*w)];
                no_panic("set_account", || t.real.set_account(ix(*i), a.clone()))?;
                t.set.insert(ix(*i), (key, a));
            }
            WOp::Clone { w } => {
                if n < 4 {
                    let l = &live[at(*w)];
                    let copy = Live { real: l.real.clone(), node: l.node, set: l.set.clone() };
                    ensure!(copy.real == l.real, "{what}: a clone differs from its original");
                    live.push(copy);
                }
            }
            WOp::Own { w } => check_wallet(&live[at(*w)].real, &live[at(*w)].node, &what)?,
        }
    }
    for (k, l) in live.iter_mut().enumerate() {
        check_wallet(&l.real, &l.node, &format!("wallet {k} at the end"))?;
        for i in &c.indices {
            l.get(*i, &format!("wallet {k} at the end"))?;
        }
    }
    Ok(())
}

/// A few assignments, then very many lookups, then the assigned indices again.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Many {
    #[serde(with = "as_hex")]
    a: [u8; 16],
    /// Index assigned to, and index of the account assigned.
    sets: Vec<(u32, u32)>,
    start: u32,
    stride: u32,
    count: u16,
}

fn many() -> BoxedStrategy<Many> {
    let stride = prop_oneof![3 => Just(1u32), 1 => select(vec![2u32, 256, 65536, 1 << 20, 0x0100_0001])];
    (any::<[u8; 16]>(), vec((0u32..40, 0u32..40), 1..6), prop_oneof![2 => 0u32..40, 1 => any::<u32>()], stride, prop_oneof![1 => 1u16..30, 3 => 30u16..300])
        .prop_map(|(a, sets, start, stride, count)| Many { a, sets, start, stride, count })
        .boxed()
}

fn run_many(c: &Many) -> Verdict {
    let text = phrase(&c.a).join(" ");
    let real = no_panic("from_secret_key", || StacksWallet::from_secret_key(text.clone()))?.map_err(|e| format!("phrase refused: {e}"))?;
    let mut l = Live { real, node: wallet_node(&text), set: BTreeMap::new() };
    for (i, j) in &c.sets {
        let a = l.get(*j, "before")?;
        let key = l.expect(*j);
        no_panic("set_account", || l.real.set_account(*i, a.clone()))?;
        l.set.insert(*i, (key, a));
    }
    let mut firsts = vec![];
    for k in 0..u32::from(c.count) {
        let i = c.start.wrapping_add(k.wrapping_mul(c.stride));
        let a = no_panic("get_account", || l.real.get_account(i))?.map_err(|e| format!("lookup {k}: get_account({i}): {e}"))?;
        let sk = a.private_key().map_err(|e| format!("lookup {k}: {e}"))?;
        ensure!(sk == l.expect(i), "lookup {k}: account {i} has private key {}", hex(&sk.secret_bytes()));
        if k < 4 {
            firsts.push(i);
        }
    }
    for i in c.sets.iter().map(|s| s.0).chain(firsts) {
        l.get(i, &format!("after {} lookups", c.count))?;
    }
    check_wallet(&l.real, &l.node, "at the end")
}

pub fn c21() -> Property {
    Property {
        id: "C21",
        subs: vec![Box::new(SubCheck {
            name: "many-lookups",
            rule: "a few assignments, then up to 300 lookups of different indices, then the assigned and first indices again; \
                   non-trivial: 30 lookups or more",
            quick: 240,
            thorough: 8_000,
            strategy: many,
            classify: |c| class(c.count >= 30, vec![if c.stride == 1 { "consecutive" } else { "scattered" }]),
            run: run_many,
        }), Box::new(SubCheck {
            name: "accounts",
            rule: "random sequences of lookups, assignments (within and across wallets) and clones over six indices; \
                   non-trivial: at least one assignment and four steps",
            quick: 1_800,
            thorough: 20_000,
            strategy: wallets,
            classify: |c| {
                let sets = c.ops.iter().filter(|o| matches!(o, WOp::Set { .. })).count();
                let clones = c.ops.iter().any(|o| matches!(o, WOp::Clone { .. }));
                class(sets > 0 && c.ops.len() >= 4, vec![if clones { "with-clone" } else { "no-clone" }])
            },
            run: run_wallets,
        })],
        assumptions: &["key derivation is compared with the harness's own BIP-39/BIP-32 implementation"],
    }
}
