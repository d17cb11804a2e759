//! Independent big-number reference for c32, base58 and the checksummed forms.
use crate::refhash::dsha256;

pub const C32: &[u8; 32] = b"0123456789ABCDEFGHJKMNPQRSTVWXYZ";
pub const B58: &[u8; 58] = b"123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz";
pub const VERSIONS: [u8; 4] = [22, 26, 20, 21];

/// Base-`base` digits (most significant first, no leading zeros) of the
/// big-endian number `n`.
pub fn to_digits(n: &[u8], base: u32) -> Vec<u8> {
    let mut num: Vec<u8> = n.iter().copied().skip_while(|b| *b == 0).collect();
    let mut out = vec![];
    while !num.is_empty() {
        let mut rem = 0u32;
        let mut q = Vec::with_capacity(num.len());
        for b in &num {
            let cur = rem * 256 + u32::from(*b);
            let d = (cur / base) as u8;
            rem = cur % base;
            if !(q.is_empty() && d == 0) {
                q.push(d);
            }
        }
        out.push(rem as u8);
        num = q;
    }
    out.reverse();
    out
}

/// Big-endian bytes (no leading zeros) of the number with the given digits.
pub fn from_digits(d: &[u8], base: u32) -> Vec<u8> {
    let mut le: Vec<u8> = vec![];
    for x in d {
        let mut carry = u32::from(*x);
        for b in &mut le {
            let cur = u32::from(*b) * base + carry;
            *b = cur as u8;
            carry = cur >> 8;
        }
        while carry > 0 {
            le.push(carry as u8);
            carry >>= 8;
        }
    }
    le.reverse();
    le
}

fn enc(data: &[u8], alpha: &[u8]) -> String {
    let zeros = data.iter().take_while(|b| **b == 0).count();
    let mut s: String = std::iter::repeat_n(alpha[0] as char, zeros).collect();
    for d in to_digits(data, alpha.len() as u32) {
        s.push(alpha[d as usize] as char);
    }
    s
}

fn dec(s: &str, base: u32, digit: impl Fn(char) -> Option<u8>) -> Option<Vec<u8>> {
    let digits: Vec<u8> = s.chars().map(digit).collect::<Option<_>>()?;
    let zeros = digits.iter().take_while(|d| **d == 0).count();
    let mut out = vec![0u8; zeros];
    out.extend(from_digits(&digits, base));
    Some(out)
}

pub fn c32_digit(c: char) -> Option<u8> {
    let u = c.to_ascii_uppercase();
    let u = match u {
        'O' => '0',
        'I' | 'L' => '1',
        x => x,
    };
    C32.iter().position(|a| *a as char == u).map(|p| p as u8)
}

pub fn c32_encode(data: &[u8]) -> String {
    enc(data, C32)
}
pub fn c32_decode(s: &str) -> Option<Vec<u8>> {
    dec(s, 32, c32_digit)
}
pub fn b58_encode(data: &[u8]) -> String {
    enc(data, B58)
}
pub fn b58_decode(s: &str) -> Option<Vec<u8>> {
    dec(s, 58, |c| B58.iter().position(|a| *a as char == c).map(|p| p as u8))
}

pub fn c32check_encode(hash: &[u8], ver: u8) -> String {
    let mut chk = vec![ver];
    chk.extend_from_slice(hash);
    let mut body = hash.to_vec();
    body.extend_from_slice(&dsha256(&chk)[..4]);
    format!("{}{}", C32[ver as usize] as char, c32_encode(&body))
}

pub fn c32check_decode(s: &str) -> Option<(Vec<u8>, u8)> {
    let ver = c32_digit(s.chars().next()?)?;
    let body = c32_decode(&s[1..])?;
    if body.len() < 4 {
        return None;
    }
    let (h, c) = body.split_at(body.len() - 4);
    let mut chk = vec![ver];
    chk.extend_from_slice(h);
    (dsha256(&chk)[..4] == *c).then(|| (h.to_vec(), ver))
}

pub fn address(hash: &[u8], ver: u8) -> String {
    format!("S{}", c32check_encode(hash, ver))
}

/// The contract of C10: prefix S, checksum, known version, 20-byte hash.
pub fn address_decode(s: &str) -> Option<([u8; 20], u8)> {
    if !s.is_ascii() || !s.starts_with('S') {
        return None;
    }
    let (h, v) = c32check_decode(&s[1..])?;
    let h: [u8; 20] = h.try_into().ok()?;
    VERSIONS.contains(&v).then_some((h, v))
}

pub fn b58check_encode(data: &[u8], ver: u8) -> String {
    let mut b = vec![ver];
    b.extend_from_slice(data);
    let c = dsha256(&b);
    b.extend_from_slice(&c[..4]);
    b58_encode(&b)
}

pub fn b58check_decode(s: &str) -> Option<(Vec<u8>, u8)> {
    let b = b58_decode(s)?;
    if b.len() < 5 {
        return None;
    }
    let (d, c) = b.split_at(b.len() - 4);
    (dsha256(d)[..4] == *c).then(|| (d[1..].to_vec(), d[0]))
}

pub fn self_test() -> Result<(), String> {
    // Published examples: SIP-005 burn addresses and Bitcoin's genesis address.
    let burn = address(&[0u8; 20], 22);
    if burn != "SP000000000000000000002Q6VF78" || address(&[0u8; 20], 26) != "ST000000000000000000002AMW42H" {
        return Err(format!("reference address self-test failed: {burn}"));
    }
    if address_decode(&burn) != Some(([0u8; 20], 22)) {
        return Err("reference address decode self-test failed".into());
    }
    let (d, v) = b58check_decode("1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa").ok_or("b58check self-test")?;
    if v != 0 || d.len() != 20 || b58check_encode(&d, v) != "1A1zP1eP5QGefi2DMPTfTL5SLmv7DivfNa" {
        return Err("reference b58check self-test failed".into());
    }
    Ok(())
}
