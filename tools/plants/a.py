CL = "stacks/src/clarity/impl.rs"
PRE = "#![allow(unused)]\nuse stacks_rs::clarity;\nuse stacks_rs::clarity::*;\nuse stacks_rs::crypto::*;\nuse stacks_rs::transaction::*;\n"
PLANTS = [
dict(id="C01-big-buffer-length", property="C01",
  edits=[(CL, "buff.extend_from_slice(&(u32::try_from(self.__value.len())?).to_be_bytes());\n        buff.extend_from_slice(&self.__value);",
              "let len = self.__value.len();\n        let len = if len < 0xffff { u32::try_from(len)? } else { u32::from(u16::try_from(len & 0xffff)?) };\n        buff.extend_from_slice(&len.to_be_bytes());\n        buff.extend_from_slice(&self.__value);")],
  needs="a buffer of 65536 bytes or more",
  breaks="the length prefix of a long buffer is cut to 16 bits, so the encoding is not the SIP-005 encoding",
  demo=PRE + '''fn main() {
    let b = Buffer::new(vec![7u8; 70_000]).encode().unwrap();
    assert_eq!(&b[..5], &[2, 0, 1, 0x11, 0x70]);
}'''),
dict(id="C02-many-arguments", property="C02",
  edits=[(CL, "let num = u32::from_be_bytes(len.try_into()?) as usize;",
              "let num = usize::from(u16::from_be_bytes([len[2] & 0x01, len[3]]));")],
  needs="an argument list of 512 or more arguments",
  breaks="decoding a long function-argument list silently drops arguments",
  demo=PRE + '''fn main() {
    let mut v: Vec<Box<dyn Clarity>> = vec![];
    for i in 0..600u128 { v.push(Box::new(UInt::new(i))); }
    let b = FnArguments::new(v).encode().unwrap();
    assert_eq!(FnArguments::decode(&b).unwrap().value().len(), 600);
}'''),
dict(id="C03-lossy-utf8", property="C03",
  edits=[(CL, "        let str = String::from_utf8(bytes[5..(5 + len as usize)].to_vec())?;\n        Ok(Self::new(str))",
              "        let str = String::from_utf8_lossy(&bytes[5..(5 + len as usize)]);\n        Ok(Self::new(str.into_owned()))")],
  needs="UTF-8 string bytes that are not valid UTF-8",
  breaks="malformed UTF-8 is accepted and replaced instead of refused",
  demo=PRE + '''fn main() {
    assert!(StringUtf8::decode(&[0x0e, 0, 0, 0, 2, 0xc3, 0x28]).is_err());
}'''),
dict(id="C04-name-length-in-chars", property="C04",
  edits=[(CL, "        if bytes.len() > 128 {\n            return Err(Error::BadStringLength(bytes.len(), 128));\n        }",
              "        if self.__value.chars().count() > 128 {\n            return Err(Error::BadStringLength(bytes.len(), 128));\n        }")],
  needs="a name with multi-byte characters, over 128 bytes but at most 128 characters",
  breaks="an over-long name is encoded instead of refused",
  demo=PRE + '''fn main() {
    assert!(LengthPrefixedStr::new("\\u{e9}".repeat(65)).encode().is_err());
}'''),
dict(id="C05-clone-drops-empty", property="C05",
  edits=[(CL, "impl Clone for FnArguments {\n    fn clone(&self) -> Self {\n        Self::new(self.__value.clone())",
              "impl Clone for FnArguments {\n    fn clone(&self) -> Self {\n        let mut args = Vec::with_capacity(self.__value.len());\n        for (i, arg) in self.__value.iter().enumerate() {\n            if i < 64 || i + 1 < self.__value.len() {\n                args.push(arg.clone());\n            }\n        }\n        Self::new(args)")],
  needs="cloning an argument list of more than 64 arguments",
  breaks="the clone of a long argument list lacks the last argument",
  demo=PRE + '''fn main() {
    let mut v: Vec<Box<dyn Clarity>> = vec![];
    for i in 0..65u128 { v.push(Box::new(UInt::new(i))); }
    let a = FnArguments::new(v);
    assert!(a.clone() == a);
}'''),
dict(id="C06-escaped-display", property="C06",
  edits=[(CL, 'write!(f, "u\\"{}\\"", self.__value)', 'write!(f, "u{:?}", self.__value)')],
  needs="a UTF-8 string with a quote, backslash or control character",
  breaks="the displayed text of such strings is escaped instead of verbatim",
  demo=PRE + '''fn main() {
    assert_eq!(StringUtf8::new("a\\"b".to_string()).to_string(), "u\\"a\\"b\\"");
}'''),
dict(id="C08-remove-reorders", property="C08",
  edits=[(CL, "Some(self.__value.remove(index).1)", "Some(self.__value.swap_remove(index).1)")],
  needs="removing a key followed by at least two others",
  breaks="after a removal the remaining keys iterate in another order",
  demo=PRE + '''fn main() {
    let mut t = clarity!(Tuple, ("a", clarity!(UInt, 1)), ("b", clarity!(UInt, 2)), ("c", clarity!(UInt, 3)));
    t.remove("a");
    let k: Vec<&String> = t.keys().collect();
    assert_eq!(k, ["b", "c"]);
}'''),
dict(id="C09-lowercase-alias", property="C09",
  edits=[("stacks/src/crypto/c32.rs", "    11, 12, 13, 14, 15, 16, 17, 1, 18, 19, 1, 20, 21, 0, 22, 23, 24, 25, 26, -1, 27, 28, 29, 30,\n    31, -1, -1, -1, -1, -1,",
          "    11, 12, 13, 14, 15, 16, 17, 1, 18, 19, 1, 20, 21, 0, 22, 23, 24, 25, 26, 27, 27, 28, 29, 30,\n    31, -1, -1, -1, -1, -1,")],
  needs="C32 text containing a lowercase u",
  breaks="an invalid character is accepted",
  demo=PRE + '''fn main() {
    assert!(c32_decode("1u2").is_err());
    assert_eq!(c32_decode("1v2").unwrap(), c32_decode("1V2").unwrap());
}'''),
dict(id="C10-short-checksum", property="C10",
  edits=[("stacks/src/crypto/c32.rs", "    if comp_checksum != exp_checksum {", "    if !exp_checksum.starts_with(&comp_checksum[..3]) {")],
  needs="an address whose last checksum byte was altered",
  breaks="a corrupted address is accepted",
  demo=PRE + '''fn main() {
    let a = c32_address([9u8; 20], 22).unwrap();
    let last = a.chars().last().unwrap();
    let bad = format!("{}{}", &a[..a.len() - 1], if last == '0' { '1' } else { '0' });
    assert!(c32_address_decode(a).is_ok());
    assert!(c32_address_decode(bad).is_err());
}'''),
dict(id="C11-checksum-first-byte", property="C11",
  edits=[("stacks/src/crypto/b58.rs", "    for i in 0..4 {\n        if checksum[i] != bytes[i] {", "    for i in 1..4 {\n        if checksum[i] != bytes[i] {")],
  needs="Base58Check text whose first checksum byte was altered and nothing else",
  breaks="a corrupted text is accepted",
  demo=PRE + '''use stacks_rs::crypto::b58::*;
fn main() {
    let mut raw = b58_decode(base58check_encode([3u8; 20], 5)).unwrap();
    raw[21] ^= 0x40;
    assert!(base58check_decode(b58_encode(raw)).is_err());
}'''),
dict(id="C12-second-digit-range", property="C12",
  edits=[("stacks/src/crypto/hex.rs", "        let lo = match self.iter.next()? {\n            b @ b'0'..=b'9' => b - b'0',\n            b @ b'a'..=b'f' => b - b'a' + 10,\n            b @ b'A'..=b'F' => b - b'A' + 10,",
          "        let lo = match self.iter.next()? {\n            b @ b'0'..=b'9' => b - b'0',\n            b @ b'a'..=b'f' => b - b'a' + 10,\n            b @ b'A'..=b'G' => b - b'A' + 10,")],
  needs="an uppercase G as the second digit of a byte",
  breaks="text that is not hex is accepted",
  demo=PRE + '''fn main() {
    assert!(hex_to_bytes("0G").is_err());
}'''),
dict(id="C13-p2wsh-script-limit", property="C13",
  edits=[("stacks/src/crypto/c32.rs", "        script.push(bytes.len() as u8);\n        script.extend_from_slice(&bytes);", "        if script.len() >= 500 {\n            continue;\n        }\n        script.push(bytes.len() as u8);\n        script.extend_from_slice(&bytes);")],
  needs="a P2WSH script over 16 keys",
  breaks="the last key is left out of a 16-key witness script",
  demo=PRE + '''use stacks_rs::crypto::c32::*;
use secp256k1::*;
fn main() {
    let s = Secp256k1::new();
    let keys: Vec<PublicKey> = (1..=16u8).map(|i| SecretKey::from_slice(&[i; 32]).unwrap().public_key(&s)).collect();
    let mut script = vec![81u8];
    for k in &keys { script.push(33); script.extend_from_slice(&k.serialize()); }
    script.extend_from_slice(&[96, 174]);
    let d = Sha256Hash::from_slice(&script);
    let mut b = vec![0u8, 32];
    b.extend_from_slice(d.as_bytes());
    assert_eq!(hash_p2wsh(1, &keys), Hash160::from_slice(&b));
}'''),
]
