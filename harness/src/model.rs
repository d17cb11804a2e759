//! Reference model of Clarity values: encoder, decoder, printer, construction
//! of the real values and deep comparison against them.
use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use stacks_rs::clarity::{
    Any as _, Buffer, Clarity, False, Int, List, OptionalNone, OptionalSome, PrincipalContract,
    PrincipalStandard, ResponseErr, ResponseOk, StringAscii, StringUtf8, True, Tuple, UInt,
};

use crate::refc;
use crate::refhash::{hex, unhex};

pub mod as_hex {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer, T: AsRef<[u8]>>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&crate::refhash::hex(v.as_ref()))
    }
    pub fn deserialize<'de, D: Deserializer<'de>, T: TryFrom<Vec<u8>>>(d: D) -> Result<T, D::Error> {
        let s = String::deserialize(d)?;
        crate::refhash::unhex(&s)
            .and_then(|b| T::try_from(b).ok())
            .ok_or_else(|| serde::de::Error::custom("bad hex"))
    }
}

pub mod as_str {
    use serde::{Deserialize, Deserializer, Serializer};
    pub fn serialize<S: Serializer, T: ToString>(v: &T, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&v.to_string())
    }
    pub fn deserialize<'de, D: Deserializer<'de>, T: std::str::FromStr>(d: D) -> Result<T, D::Error> {
        String::deserialize(d)?.parse().map_err(|_| serde::de::Error::custom("bad number"))
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub struct Addr {
    pub ver: u8,
    #[serde(with = "as_hex")]
    pub hash: [u8; 20],
}

impl Addr {
    pub fn text(&self) -> String {
        refc::address(&self.hash, self.ver)
    }
    pub fn wire(&self) -> Vec<u8> {
        let mut b = vec![self.ver];
        b.extend_from_slice(&self.hash);
        b
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum V {
    Int(#[serde(with = "as_str")] i128),
    UInt(#[serde(with = "as_str")] u128),
    Buf(#[serde(with = "as_hex")] Vec<u8>),
    True,
    False,
    Std(Addr),
    Con(Addr, String),
    Ok(Box<V>),
    Err(Box<V>),
    None,
    Some(Box<V>),
    List(Vec<V>),
    Tuple(Vec<(String, V)>),
    Ascii(String),
    Utf8(String),
    /// Principals given as raw text (possibly malformed).
    RawStd(String),
    RawCon(String, String),
}

/// `n` bytes of length-prefixed name, or nothing if it has no encoding.
pub fn enc_name(s: &str) -> Option<Vec<u8>> {
    if s.len() > 128 {
        return None;
    }
    let mut b = vec![s.len() as u8];
    b.extend_from_slice(s.as_bytes());
    Some(b)
}

fn len4(n: usize) -> [u8; 4] {
    u32::try_from(n).expect("generated sizes fit u32").to_be_bytes()
}

impl V {
    /// The SIP-005 bytes, or `None` if the value has no encoding.
    pub fn enc(&self) -> Option<Vec<u8>> {
        let mut o = vec![];
        self.put(&mut o)?;
        Some(o)
    }

    fn put(&self, o: &mut Vec<u8>) -> Option<()> {
        match self {
            V::Int(i) => {
                o.push(0);
                o.extend_from_slice(&i.to_be_bytes());
            }
            V::UInt(i) => {
                o.push(1);
                o.extend_from_slice(&i.to_be_bytes());
            }
            V::Buf(b) => {
                o.push(2);
                o.extend_from_slice(&len4(b.len()));
                o.extend_from_slice(b);
            }
            V::True => o.push(3),
            V::False => o.push(4),
            V::Std(a) => {
                o.push(5);
                o.extend(a.wire());
            }
            V::Con(a, n) => {
                o.push(6);
                o.extend(a.wire());
                o.extend(enc_name(n)?);
            }
            V::Ok(v) => {
                o.push(7);
                v.put(o)?;
            }
            V::Err(v) => {
                o.push(8);
                v.put(o)?;
            }
            V::None => o.push(9),
            V::Some(v) => {
                o.push(10);
                v.put(o)?;
            }
            V::List(l) => {
                o.push(11);
                o.extend_from_slice(&len4(l.len()));
                for v in l {
                    v.put(o)?;
                }
            }
            V::Tuple(t) => {
                o.push(12);
                o.extend_from_slice(&len4(t.len()));
                let mut refs: Vec<&(String, V)> = t.iter().collect();
                refs.sort_by(|a, b| a.0.as_bytes().cmp(b.0.as_bytes()));
                for (k, v) in refs {
                    o.extend(enc_name(k)?);
                    v.put(o)?;
                }
            }
            V::Ascii(s) => {
                if !s.bytes().all(|b| b < 128) {
                    return None;
                }
                o.push(13);
                o.extend_from_slice(&len4(s.len()));
                o.extend_from_slice(s.as_bytes());
            }
            V::Utf8(s) => {
                o.push(14);
                o.extend_from_slice(&len4(s.len()));
                o.extend_from_slice(s.as_bytes());
            }
            V::RawStd(t) => {
                let (h, v) = refc::address_decode(t)?;
                o.push(5);
                o.push(v);
                o.extend_from_slice(&h);
            }
            V::RawCon(t, n) => {
                let (h, v) = refc::address_decode(t)?;
                o.push(6);
                o.push(v);
                o.extend_from_slice(&h);
                o.extend(enc_name(n)?);
            }
        }
        Some(())
    }

    /// Like `enc`, with tuple fields in stored order (what a careless writer sends).
    pub fn enc_unsorted(&self) -> Option<Vec<u8>> {
        let mut o = vec![];
        match self {
            V::Tuple(t) => {
                o.push(12);
                o.extend_from_slice(&len4(t.len()));
                for (k, v) in t {
                    o.extend(enc_name(k)?);
                    o.extend(v.enc_unsorted()?);
                }
            }
            V::List(l) => {
                o.push(11);
                o.extend_from_slice(&len4(l.len()));
                for v in l {
                    o.extend(v.enc_unsorted()?);
                }
            }
            V::Ok(v) | V::Err(v) | V::Some(v) => {
                o.push(match self {
                    V::Ok(_) => 7,
                    V::Err(_) => 8,
                    _ => 10,
                });
                o.extend(v.enc_unsorted()?);
            }
            other => o = other.enc()?,
        }
        Some(o)
    }

    pub fn display(&self) -> String {
        match self {
            V::Int(i) => i.to_string(),
            V::UInt(i) => format!("u{i}"),
            V::Buf(b) => format!("0x{}", hex(b)),
            V::True => "true".into(),
            V::False => "false".into(),
            V::Std(a) => a.text(),
            V::Con(a, n) => format!("{}.{}", a.text(), n),
            V::Ok(v) => format!("(ok {})", v.display()),
            V::Err(v) => format!("(err {})", v.display()),
            V::None => "none".into(),
            V::Some(v) => format!("(some {})", v.display()),
            V::List(l) => format!("(list {})", l.iter().map(V::display).collect::<Vec<_>>().join(" ")),
            V::Tuple(t) => format!(
                "(tuple {})",
                t.iter().map(|(k, v)| format!("({k} {})", v.display())).collect::<Vec<_>>().join(" ")
            ),
            V::Ascii(s) => format!("\"{s}\""),
            V::Utf8(s) => format!("u\"{s}\""),
            V::RawStd(t) => t.clone(),
            V::RawCon(t, n) => format!("{t}.{n}"),
        }
    }

    pub fn build(&self) -> Box<dyn Clarity> {
        match self {
            V::Int(i) => Box::new(Int::new(*i)),
            V::UInt(i) => Box::new(UInt::new(*i)),
            V::Buf(b) => Box::new(Buffer::new(b.clone())),
            V::True => Box::new(True::new()),
            V::False => Box::new(False::new()),
            V::Std(a) => Box::new(PrincipalStandard::new(a.text())),
            V::Con(a, n) => Box::new(PrincipalContract::new((a.text(), n.clone()))),
            V::Ok(v) => Box::new(ResponseOk::new(v.build())),
            V::Err(v) => Box::new(ResponseErr::new(v.build())),
            V::None => Box::new(OptionalNone::new()),
            V::Some(v) => Box::new(OptionalSome::new(v.build())),
            V::List(l) => Box::new(List::new(l.iter().map(V::build).collect())),
            V::Tuple(t) => Box::new(build_tuple(t)),
            V::Ascii(s) => Box::new(StringAscii::new(s.clone())),
            V::Utf8(s) => Box::new(StringUtf8::new(s.clone())),
            V::RawStd(t) => Box::new(PrincipalStandard::new(t.clone())),
            V::RawCon(t, n) => Box::new(PrincipalContract::new((t.clone(), n.clone()))),
        }
    }

    /// Checks that the real value has this type and these contents at every level.
    pub fn same_as(&self, c: &dyn Clarity) -> Result<(), String> {
        self.diff(c).map_or(Ok(()), |d| Err(d))
    }

    fn diff(&self, c: &dyn Clarity) -> Option<String> {
        fn get<'a, T: 'static>(c: &'a dyn Clarity, want: &str) -> Result<&'a T, String> {
            c.as_any().downcast_ref::<T>().ok_or_else(|| format!("expected a value of type {want}, got {c:?}"))
        }
        fn inner(v: &V, c: &dyn Clarity, at: &str) -> Option<String> {
            v.diff(c).map(|d| format!("in {at}: {d}"))
        }
        let r = (|| -> Result<Option<String>, String> {
            Ok(match self {
                V::Int(i) => ne("int", i, get::<Int>(c, "Int")?.value()),
                V::UInt(i) => ne("uint", i, get::<UInt>(c, "UInt")?.value()),
                V::Buf(b) => ne("buffer", b, get::<Buffer>(c, "Buffer")?.value()),
                V::True => {
                    get::<True>(c, "True")?;
                    None
                }
                V::False => {
                    get::<False>(c, "False")?;
                    None
                }
                V::Std(a) => ne("address", &a.text(), get::<PrincipalStandard>(c, "PrincipalStandard")?.value()),
                V::Con(a, n) => {
                    ne("principal", &(a.text(), n.clone()), get::<PrincipalContract>(c, "PrincipalContract")?.value())
                }
                V::Ok(v) => inner(v, get::<ResponseOk>(c, "ResponseOk")?.value().as_ref(), "ok"),
                V::Err(v) => inner(v, get::<ResponseErr>(c, "ResponseErr")?.value().as_ref(), "err"),
                V::None => {
                    get::<OptionalNone>(c, "OptionalNone")?;
                    None
                }
                V::Some(v) => inner(v, get::<OptionalSome>(c, "OptionalSome")?.value().as_ref(), "some"),
                V::List(l) => {
                    let got = get::<List>(c, "List")?.value();
                    if got.len() != l.len() {
                        return Ok(Some(format!("list of {} items, expected {}", got.len(), l.len())));
                    }
                    l.iter().zip(got).enumerate().find_map(|(i, (v, g))| inner(v, g.as_ref(), &format!("item {i}")))
                }
                V::Tuple(t) => {
                    let got = get::<Tuple>(c, "Tuple")?.value();
                    if got.len() != t.len() {
                        return Ok(Some(format!("tuple of {} fields, expected {}", got.len(), t.len())));
                    }
                    t.iter().find_map(|(k, v)| match got.iter().find(|(g, _)| g == k) {
                        Some((_, g)) => inner(v, g.as_ref(), &format!("field {k:?}")),
                        None => Some(format!("no field {k:?}")),
                    })
                }
                V::Ascii(s) => ne("ascii string", s, get::<StringAscii>(c, "StringAscii")?.value()),
                V::Utf8(s) => ne("utf8 string", s, get::<StringUtf8>(c, "StringUtf8")?.value()),
                V::RawStd(t) => ne("address", t, get::<PrincipalStandard>(c, "PrincipalStandard")?.value()),
                V::RawCon(t, n) => {
                    ne("principal", &(t.clone(), n.clone()), get::<PrincipalContract>(c, "PrincipalContract")?.value())
                }
            })
        })();
        match r {
            Ok(x) => x,
            Err(e) => Some(e),
        }
    }

    pub fn depth(&self) -> usize {
        match self {
            V::Ok(v) | V::Err(v) | V::Some(v) => 1 + v.depth(),
            V::List(l) => 1 + l.iter().map(V::depth).max().unwrap_or(0),
            V::Tuple(t) => 1 + t.iter().map(|(_, v)| v.depth()).max().unwrap_or(0),
            _ => 1,
        }
    }

    pub fn is_composite(&self) -> bool {
        matches!(self, V::Ok(_) | V::Err(_) | V::Some(_) | V::List(_) | V::Tuple(_))
    }

    pub fn kind(&self) -> &'static str {
        match self {
            V::Int(_) => "int",
            V::UInt(_) => "uint",
            V::Buf(_) => "buffer",
            V::True => "true",
            V::False => "false",
            V::Std(_) | V::RawStd(_) => "std-principal",
            V::Con(..) | V::RawCon(..) => "contract-principal",
            V::Ok(_) => "ok",
            V::Err(_) => "err",
            V::None => "none",
            V::Some(_) => "some",
            V::List(_) => "list",
            V::Tuple(_) => "tuple",
            V::Ascii(_) => "ascii",
            V::Utf8(_) => "utf8",
        }
    }

    pub fn any(&self, f: &mut dyn FnMut(&V) -> bool) -> bool {
        if f(self) {
            return true;
        }
        match self {
            V::Ok(v) | V::Err(v) | V::Some(v) => v.any(f),
            V::List(l) => l.iter().any(|v| v.any(f)),
            V::Tuple(t) => t.iter().any(|(_, v)| v.any(f)),
            _ => false,
        }
    }

    pub fn unsorted_tuple(&self) -> bool {
        self.any(&mut |v| match v {
            V::Tuple(t) => t.windows(2).any(|w| w[0].0.as_bytes() > w[1].0.as_bytes()),
            _ => false,
        })
    }
}

pub fn build_tuple(t: &[(String, V)]) -> Tuple {
    Tuple::new(t.iter().map(|(k, v)| (k.clone(), v.build())).collect())
}

fn ne<T: PartialEq + std::fmt::Debug>(what: &str, want: &T, got: &T) -> Option<String> {
    (want != got).then(|| {
        let cut = |s: String| if s.len() > 200 { format!("{}...", s.chars().take(200).collect::<String>()) } else { s };
        format!("{what} is {}, expected {}", cut(format!("{got:?}")), cut(format!("{want:?}")))
    })
}

// ---------------------------------------------------------------------------
// Reference decoder

#[derive(Clone, Debug)]
pub struct Dec {
    pub v: V,
    pub used: usize,
    /// Some tuple repeats a key: accepting or rejecting is left open.
    pub dup: bool,
    pub depth: usize,
}

pub struct Reader<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub dup: bool,
    /// Nested deeper than any Clarity value: accepting or rejecting is left open.
    pub deep: bool,
}

pub const MAX_DEPTH: usize = 32;

impl<'a> Reader<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Reader { b, pos: 0, dup: false, deep: false }
    }
    pub fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let end = self.pos.checked_add(n)?;
        let s = self.b.get(self.pos..end)?;
        self.pos = end;
        Some(s)
    }
    pub fn u8(&mut self) -> Option<u8> {
        Some(self.take(1)?[0])
    }
    pub fn u32(&mut self) -> Option<usize> {
        Some(u32::from_be_bytes(self.take(4)?.try_into().unwrap()) as usize)
    }
    pub fn u64(&mut self) -> Option<u64> {
        Some(u64::from_be_bytes(self.take(8)?.try_into().unwrap()))
    }
    pub fn name(&mut self) -> Option<String> {
        let n = self.u8()? as usize;
        if n > 128 {
            return None;
        }
        String::from_utf8(self.take(n)?.to_vec()).ok()
    }
    pub fn addr(&mut self) -> Option<Addr> {
        let ver = self.u8()?;
        let hash = self.take(20)?.try_into().unwrap();
        refc::VERSIONS.contains(&ver).then_some(Addr { ver, hash })
    }
    pub fn value(&mut self) -> Option<V> {
        self.value_at(1)
    }
    fn value_at(&mut self, depth: usize) -> Option<V> {
        if depth > MAX_DEPTH {
            // Beyond the deepest Clarity value; the caller treats the case as open.
            self.deep = true;
            return None;
        }
        Some(match self.u8()? {
            0 => V::Int(i128::from_be_bytes(self.take(16)?.try_into().unwrap())),
            1 => V::UInt(u128::from_be_bytes(self.take(16)?.try_into().unwrap())),
            2 => {
                let n = self.u32()?;
                V::Buf(self.take(n)?.to_vec())
            }
            3 => V::True,
            4 => V::False,
            5 => V::Std(self.addr()?),
            6 => {
                let a = self.addr()?;
                V::Con(a, self.name()?)
            }
            7 => V::Ok(Box::new(self.value_at(depth + 1)?)),
            8 => V::Err(Box::new(self.value_at(depth + 1)?)),
            9 => V::None,
            10 => V::Some(Box::new(self.value_at(depth + 1)?)),
            11 => {
                let n = self.u32()?;
                let mut l = vec![];
                for _ in 0..n {
                    l.push(self.value_at(depth + 1)?);
                }
                V::List(l)
            }
            12 => {
                let n = self.u32()?;
                let mut t: Vec<(String, V)> = vec![];
                let mut seen = std::collections::HashSet::new();
                for _ in 0..n {
                    let k = self.name()?;
                    let v = self.value_at(depth + 1)?;
                    if !seen.insert(k.clone()) {
                        self.dup = true;
                    }
                    t.push((k, v));
                }
                V::Tuple(t)
            }
            13 => {
                let n = self.u32()?;
                let s = self.take(n)?;
                if s.iter().any(|b| *b >= 128) {
                    return None;
                }
                V::Ascii(String::from_utf8(s.to_vec()).ok()?)
            }
            14 => {
                let n = self.u32()?;
                V::Utf8(String::from_utf8(self.take(n)?.to_vec()).ok()?)
            }
            _ => return None,
        })
    }
    pub fn args(&mut self) -> Option<Vec<V>> {
        let n = self.u32()?;
        let mut l = vec![];
        for _ in 0..n {
            l.push(self.value()?);
        }
        Some(l)
    }
}

// ---------------------------------------------------------------------------
// Strategies

pub fn i128s() -> BoxedStrategy<i128> {
    prop_oneof![
        3 => -300i128..300,
        3 => any::<i128>(),
        2 => select(vec![i128::MIN, i128::MAX, i128::MIN + 1, i128::MAX - 1, -1, 0, 1, i128::from(i64::MIN), i128::from(i64::MAX), i128::from(u64::MAX), i128::from(u64::MAX) + 1]),
        3 => (0u32..127, -2i128..3, any::<bool>()).prop_map(|(s, d, n)| {
            let x = (1i128 << s).wrapping_add(d);
            if n { x.wrapping_neg() } else { x }
        }),
    ]
    .boxed()
}

pub fn u128s() -> BoxedStrategy<u128> {
    prop_oneof![
        3 => 0u128..300,
        3 => any::<u128>(),
        2 => select(vec![0, 1, u128::MAX, u128::MAX - 1, u128::from(u64::MAX), u128::from(u64::MAX) + 1, i128::MAX as u128, i128::MAX as u128 + 1]),
        3 => (0u32..128, 0u128..5).prop_map(|(s, d)| (1u128 << s).wrapping_add(d).wrapping_sub(2)),
    ]
    .boxed()
}

pub fn u64s() -> BoxedStrategy<u64> {
    prop_oneof![
        2 => 0u64..300,
        3 => any::<u64>(),
        2 => select(vec![0, 1, u64::MAX, u64::MAX - 1, u64::from(u32::MAX), u64::from(u32::MAX) + 1, i64::MAX as u64, i64::MAX as u64 + 1]),
        3 => (0u32..64, 0u64..5).prop_map(|(s, d)| (1u64 << s).wrapping_add(d).wrapping_sub(2)),
    ]
    .boxed()
}

/// Marks that a reader or writer may be tempted to interpret, strip or add.
const MARKS: [&str; 30] = [
    "0x", "0X", "u", "u\"", "\"", "'", " ", "  ", "\n", "\r\n", "\t", "\0", "\0\0", "=", "==", "#", "\\", "\\n", "\\x", "\\u{1}", "(", ")", "-", "+", ".", "/", "%20", "&", ",", ":",
];

/// Text that looks like something else.
const GUISES: [&str; 16] = [
    "true", "false", "none", "0", "u0", "-1", "0x00", "0xff", "\"\"", "(list)", "(some 1)", "null", "SP000000000000000000002Q6VF78", "{}", "[]", "NaN",
];

/// `s` with a mark before and/or after it.
pub fn dressed(s: BoxedStrategy<String>) -> BoxedStrategy<String> {
    (s, select(MARKS.to_vec()), 0u8..5)
        .prop_map(|(s, m, how)| match how {
            0 | 1 => format!("{m}{s}"),
            2 | 3 => format!("{s}{m}"),
            _ => format!("{m}{s}{m}"),
        })
        .boxed()
}

/// Short ASCII text with a mark, or in a guise.
pub fn tempting() -> BoxedStrategy<String> {
    prop_oneof![
        3 => dressed("[a-f0-9]{0,8}".boxed()),
        1 => dressed("[ -~]{0,6}".boxed()),
        1 => select(GUISES.to_vec()).prop_map(str::to_string),
    ]
    .boxed()
}

/// At most `max` characters of tempting ASCII text.
fn tempting_ascii(max: usize) -> BoxedStrategy<String> {
    tempting().prop_map(move |s| s.chars().take(max).collect()).boxed()
}

pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        1 => tempting_ascii(max).prop_map(String::into_bytes),
        6 => vec(any::<u8>(), 0..=max),
        1 => vec(select(vec![0u8, 0xff]), 0..=max),
        1 => (any::<u8>(), 0..=max).prop_map(|(b, n)| vec![b; n]),
        // leading zeros then anything
        2 => (0..=max / 2, vec(any::<u8>(), 0..=max / 2)).prop_map(|(z, t)| { let mut v = vec![0; z]; v.extend(t); v }),
    ]
    .boxed()
}

/// Sizes around the powers of two, up to `limit`: where a count, a buffer or a
/// shortcut changes width.
pub fn edge_sizes(limit: usize) -> BoxedStrategy<usize> {
    let mut near: Vec<usize> = vec![10, 12, 20, 24, 40, 48, 50, 96, 100, 101, 200, 500, 1000, 10_000];
    for p in 3..17 {
        near.extend([(1usize << p) - 1, 1 << p, (1 << p) + 1]);
    }
    near.retain(|n| *n <= limit);
    near.sort_unstable();
    prop_oneof![3 => select(near), 1 => 0..=limit].boxed()
}

/// `n` bytes that look random, from a seed.
pub fn stretch(n: usize, mut seed: u64) -> Vec<u8> {
    (0..n)
        .map(|_| {
            seed = seed.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
            (seed >> 56) as u8
        })
        .collect()
}

/// Mostly short byte strings, now and then a long one.
pub fn bytes_tail(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        40 => bytes(max),
        1 => (edge_sizes(4200), any::<u64>()).prop_map(|(n, s)| stretch(n, s)),
    ]
    .boxed()
}

pub fn ascii_tail(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        40 => ascii(max),
        1 => (edge_sizes(4200), any::<u64>()).prop_map(|(n, s)| stretch(n, s).into_iter().map(|b| char::from(b & 0x7f)).collect()),
    ]
    .boxed()
}

pub fn utf8_tail(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        40 => utf8(max),
        1 => (edge_sizes(4200), any::<u64>()).prop_map(|(n, s)| {
            let mut t = String::new();
            for b in stretch(n, s) {
                let c = ['a', '"', 'é', 'ሴ', '🌾', ' ', '\u{10ffff}', 'Z'][usize::from(b & 7)];
                if t.len() + c.len_utf8() <= n {
                    t.push(c);
                }
            }
            t
        }),
    ]
    .boxed()
}

/// Wide values: lists and tuples with many parts, sometimes under a wrapper.
pub fn wide(limit: usize) -> BoxedStrategy<V> {
    (many(limit), 0u8..8, any::<u64>())
        .prop_map(|(l, kind, seed)| match kind {
            0..=2 => V::List(l),
            3 => V::Some(Box::new(V::List(l))),
            4 => V::Tuple(vec![("l".into(), V::List(l)), ("k".into(), V::True)]),
            _ => {
                let n = l.len();
                let mut t: Vec<(String, V)> =
                    l.into_iter().enumerate().map(|(i, v)| (format!("k{}", (i * 7919 + 13) % (n * 8).max(1) + n * i), v)).collect();
                // an order that is neither the sorted nor the reversed one
                let mut s = seed;
                for i in (1..t.len()).rev() {
                    s = s.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1);
                    t.swap(i, (s >> 33) as usize % (i + 1));
                }
                let mut seen = std::collections::HashSet::new();
                t.retain(|(k, _)| seen.insert(k.clone()));
                V::Tuple(t)
            }
        })
        .boxed()
}

/// Many values: a few generated ones repeated, each copy told apart by an integer.
pub fn many(limit: usize) -> BoxedStrategy<Vec<V>> {
    (edge_sizes(limit), vec(short_leaf(), 1..4), any::<bool>())
        .prop_map(|(n, base, mark)| {
            (0..n).map(|i| if mark && i % 2 == 1 { V::Int(i as i128) } else { base[i % base.len()].clone() }).collect()
        })
        .boxed()
}

/// Function arguments: mostly a few, now and then many.
pub fn args(max: usize) -> BoxedStrategy<Vec<V>> {
    prop_oneof![
        60 => vec(prop_oneof![2 => leaf(), 1 => value()], 0..=max),
        1 => many(1100),
    ]
    .boxed()
}

pub fn addr() -> BoxedStrategy<Addr> {
    let hash = prop_oneof![
        6 => any::<[u8; 20]>(),
        // leading zero bytes change the shape of the text
        3 => (0usize..=20, any::<[u8; 20]>()).prop_map(|(z, mut h)| { h[..z].fill(0); h }),
        // small first bytes: partial digits
        2 => (0u8..32, any::<[u8; 20]>()).prop_map(|(z, mut h)| { h[0] = z; h }),
        1 => any::<u8>().prop_map(|b| [b; 20]),
    ];
    (select(refc::VERSIONS.to_vec()), hash).prop_map(|(ver, hash)| Addr { ver, hash }).boxed()
}

/// Characters that matter to printers and parsers of the text form.
fn spicy_char() -> BoxedStrategy<char> {
    prop_oneof![
        4 => select("\"\\() .u0x-:,'\n\t{}[]abAB19".chars().collect::<Vec<_>>()),
        2 => proptest::char::range(' ', '~'),
        1 => proptest::char::range('\u{0}', '\u{7f}'),
    ]
    .boxed()
}

pub fn ascii(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        1 => tempting_ascii(max).prop_map(|s| s.chars().collect::<Vec<char>>()),
        3 => vec(proptest::char::range(' ', '~'), 0..=max),
        2 => vec(spicy_char(), 0..=max),
        1 => vec(proptest::char::range('\u{0}', '\u{7f}'), 0..=max),
    ]
    .prop_map(|v| v.into_iter().collect())
    .boxed()
}

pub fn utf8(max: usize) -> BoxedStrategy<String> {
    prop_oneof![
        1 => (tempting_ascii(max), select(vec!["", "", "\u{feff}", "\u{200b}", "e\u{301}", "\u{a0}"]), any::<bool>())
            .prop_map(move |(s, m, front)| if front { format!("{m}{s}") } else { format!("{s}{m}") }.chars().take(max).collect::<Vec<char>>()),
        2 => vec(any::<char>(), 0..=max),
        2 => vec(prop_oneof![spicy_char(), any::<char>()], 0..=max),
        1 => vec(select(vec!['\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{ffff}', '\u{10000}', '\u{10ffff}', 'é', '🌾', 'ሴ', '\u{d7ff}', '\u{e000}']), 0..=max),
        1 => vec(proptest::char::range('\u{0}', '\u{7f}'), 0..=max),
    ]
    .prop_map(|v: Vec<char>| v.into_iter().collect::<String>())
    .boxed()
}


fn clip_bytes(s: String, max: usize) -> String {
    let mut n = s.len().min(max);
    while !s.is_char_boundary(n) {
        n -= 1;
    }
    s[..n].to_string()
}

/// Names: at most 128 bytes, any text, with the limits over-represented.
pub fn name() -> BoxedStrategy<String> {
    prop_oneof![
        6 => "[a-zA-Z][a-zA-Z0-9_?!-]{0,20}",
        2 => utf8(40).prop_map(|s| clip_bytes(s, 128)),
        1 => Just(String::new()),
        1 => (select(vec![63usize, 64, 65, 127, 128]), proptest::char::range('a', 'z')).prop_map(|(n, c)| c.to_string().repeat(n)),
    ]
    .boxed()
}

/// Distinct keys in arbitrary order; short and prefix-related keys are common
/// so that ordering is exercised.
pub fn keys(max: usize) -> BoxedStrategy<Vec<String>> {
    let key = prop_oneof![
        5 => "[abAB_-]{1,4}",
        2 => "[a-z][a-z0-9-]{0,12}",
        2 => name(),
    ];
    vec(key, 0..=max)
        .prop_map(|ks| {
            let mut seen = std::collections::HashSet::new();
            ks.into_iter().filter(|k| seen.insert(k.clone())).collect()
        })
        .boxed()
}

/// Leaves without the long tail.
pub fn short_leaf() -> BoxedStrategy<V> {
    leaf_of(bytes(12), ascii(8), utf8(6))
}

pub fn leaf() -> BoxedStrategy<V> {
    leaf_of(bytes_tail(40), ascii_tail(24), utf8_tail(16))
}

fn leaf_of(b: BoxedStrategy<Vec<u8>>, a: BoxedStrategy<String>, u: BoxedStrategy<String>) -> BoxedStrategy<V> {
    prop_oneof![
        2 => i128s().prop_map(V::Int),
        2 => u128s().prop_map(V::UInt),
        2 => b.prop_map(V::Buf),
        1 => Just(V::True),
        1 => Just(V::False),
        2 => addr().prop_map(V::Std),
        2 => (addr(), name()).prop_map(|(a, n)| V::Con(a, n)),
        1 => Just(V::None),
        2 => a.prop_map(V::Ascii),
        2 => u.prop_map(V::Utf8),
    ]
    .boxed()
}

pub fn wrap(inner: BoxedStrategy<V>) -> BoxedStrategy<V> {
    prop_oneof![
        1 => inner.clone().prop_map(|v| V::Ok(Box::new(v))),
        1 => inner.clone().prop_map(|v| V::Err(Box::new(v))),
        1 => inner.clone().prop_map(|v| V::Some(Box::new(v))),
        3 => vec(inner.clone(), 0..6).prop_map(V::List),
        4 => (keys(6), vec(inner, 6)).prop_map(|(ks, vs)| V::Tuple(ks.into_iter().zip(vs).collect())),
    ]
    .boxed()
}

/// Value trees: leaves, bushy trees and chains down to the Clarity depth limit.
pub fn value() -> BoxedStrategy<V> {
    let bushy = leaf().prop_recursive(5, 40, 6, wrap);
    prop_oneof![
        20 => leaf(),
        80 => bushy,
        10 => chain(),
        1 => wide(1100),
    ]
    .boxed()
}

/// A chain of wrappers of total depth up to 32.
pub fn chain() -> BoxedStrategy<V> {
    (leaf(), vec((0u8..5, "[a-c]{0,2}"), 0..MAX_DEPTH))
        .prop_map(|(v, ws)| {
            ws.into_iter().fold(v, |v, (w, k)| match w {
                0 => V::Ok(Box::new(v)),
                1 => V::Err(Box::new(v)),
                2 => V::Some(Box::new(v)),
                3 => V::List(vec![v]),
                _ => V::Tuple(vec![(k, v)]),
            })
        })
        .boxed()
}

pub fn tuple_fields() -> BoxedStrategy<Vec<(String, V)>> {
    prop_oneof![
        60 => (keys(10), vec(value(), 10)).prop_map(|(ks, vs)| ks.into_iter().zip(vs).collect::<Vec<_>>()),
        1 => wide(1100).prop_map(|v| match v { V::Tuple(t) => t, v => vec![("wide".to_string(), v)] }),
    ]
    .boxed()
}

pub fn parse_hex(s: &str) -> Vec<u8> {
    unhex(s).expect("hex literal")
}
