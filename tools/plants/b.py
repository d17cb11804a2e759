A = "stacks/src/transaction/auth.rs"
PRE = "#![allow(unused)]\nuse stacks_rs::clarity;\nuse stacks_rs::clarity::*;\nuse stacks_rs::crypto::*;\nuse stacks_rs::crypto::c32::*;\nuse stacks_rs::transaction::*;\nuse secp256k1::{Secp256k1, SecretKey, PublicKey};\n" + '''
fn sk(i: u8) -> SecretKey { SecretKey::from_slice(&[i; 32]).unwrap() }
fn pk(i: u8) -> PublicKey { sk(i).public_key(&Secp256k1::new()) }
fn addr(i: u8) -> String { c32_address([i; 20], 22).unwrap() }
fn tx(auth: Auth) -> Transaction {
    let p = TokenTransferPayload::new(PrincipalStandard::new(addr(1)), 5, "x");
    Transaction::new(TransactionVersion::Mainnet, ChainID::Mainnet, auth, AnchorMode::Any, PostConditionMode::Deny, PostConditions::default(), Box::new(p))
}
/// The hash the signatures start from: auth fields cleared.
fn initial(t: &Transaction) -> SignatureHash {
    let mut c = t.clone();
    c.auth = c.auth.reset();
    c.hash().unwrap()
}
'''
RPC = PRE + '''
use std::io::{Read, Write};
/// Serves one reply and returns the request it got.
fn serve(reply: String) -> (String, std::thread::JoinHandle<String>) {
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let url = format!("http://{}", l.local_addr().unwrap());
    let h = std::thread::spawn(move || {
        let (mut s, _) = l.accept().unwrap();
        let mut got = Vec::new();
        let mut b = [0u8; 4096];
        loop {
            let n = s.read(&mut b).unwrap();
            got.extend_from_slice(&b[..n]);
            let t = String::from_utf8_lossy(&got).to_string();
            if let Some(i) = t.find("\\r\\n\\r\\n") {
                let want = t.lines().find_map(|l| l.to_lowercase().strip_prefix("content-length:").map(|v| v.trim().parse::<usize>().unwrap())).unwrap_or(0);
                if got.len() >= i + 4 + want || n == 0 { break; }
            }
        }
        s.write_all(reply.as_bytes()).unwrap();
        String::from_utf8_lossy(&got).to_string()
    });
    (url, h)
}
fn http(code: &str, body: &str) -> String {
    format!("HTTP/1.1 {code}\\r\\ncontent-type: application/json\\r\\ncontent-length: {}\\r\\nconnection: close\\r\\n\\r\\n{body}", body.len())
}
'''
PLANTS = [
dict(id="C14-sponsored-nonce", property="C14",
  edits=[(A, "    pub fn set_nonce(&mut self, nonce: u64) {\n        match self {\n            Self::Standard(origin) | Self::Sponsored(origin, _) => origin.set_nonce(nonce),\n        }\n    }",
             "    pub fn set_nonce(&mut self, nonce: u64) {\n        match self {\n            Self::Standard(origin) => origin.set_nonce(nonce),\n            Self::Sponsored(origin, sponsor) => {\n                sponsor.set_nonce(nonce);\n                origin.set_nonce(nonce);\n            }\n        }\n    }")],
  needs="changing the nonce of a sponsored transaction whose sponsor is already set",
  breaks="changing the origin nonce also rewrites the sponsor's nonce bytes",
  demo=PRE + '''fn main() {
    let o = SpendingConditionStandard::new(pk(1), 10, 1, Mode::P2PKH);
    let s = SpendingConditionStandard::new(pk(2), 20, 7, Mode::P2PKH);
    let mut t = tx(Auth::Sponsored(Box::new(o), Box::new(s)));
    t.set_nonce(99);
    assert_eq!(t.auth.origin().nonce(), 99);
    assert_eq!(t.auth.sponsor().unwrap().nonce(), 7);
}'''),
dict(id="C15-nft-contract-principal", property="C15",
  edits=[("stacks/src/transaction/condition.rs", "        buff.extend_from_slice(&self.info.encode()?);\n        buff.extend_from_slice(&self.name.encode()?);\n        buff.push(self.code as u8);",
          "        buff.extend_from_slice(&self.info.encode()?);\n        let token = self.name.encode()?;\n        buff.extend_from_slice(&token[..token.len().min(255)]);\n        buff.push(self.code as u8);")],
  needs="a non-fungible condition whose token value encodes to more than 255 bytes",
  breaks="the token value of a non-fungible condition is cut off",
  demo=PRE + '''fn main() {
    let v = Buffer::new(vec![1u8; 300]);
    let n = v.encode().unwrap().len();
    let p = PrincipalStandard::new(addr(1));
    let a = NonFungiblePostCondition::new(p.clone(), v, ConditionCode::Has, AssetInfo::new(addr(2), "c".to_string(), "a".to_string())).encode().unwrap();
    let b = NonFungiblePostCondition::new(p, True::new(), ConditionCode::Has, AssetInfo::new(addr(2), "c".to_string(), "a".to_string())).encode().unwrap();
    assert_eq!(a.len() - b.len(), n - 1);
}'''),
dict(id="C16-memo-cut-at-nul", property="C16",
  edits=[("stacks/src/transaction/payload.rs", "        let memo = String::from_utf8(memo_bytes.to_vec())?;",
          "        let end = memo_bytes.iter().position(|b| *b == 0).unwrap_or(34);\n        let memo = String::from_utf8(memo_bytes[..end].to_vec())?;")],
  needs="a memo with a NUL byte before its last character",
  breaks="the decoded memo loses everything after the first NUL",
  demo=PRE + '''fn main() {
    let b = TokenTransferPayload::new(PrincipalStandard::new(addr(1)), 5, "a\\0b").encode().unwrap();
    let p = TokenTransferPayload::decode(&b).unwrap();
    assert_eq!(p.encode().unwrap(), b);
    let b = TokenTransferPayload::new(PrincipalStandard::new(addr(1)), 5, "hello").encode().unwrap();
    assert_eq!(TokenTransferPayload::decode(&b).unwrap().encode().unwrap(), b);
}'''),
dict(id="C17-nonce-not-mixed", property="C17",
  edits=[("stacks/src/crypto/hash.rs", "        buff.extend_from_slice(&nonce.to_be_bytes());\n\n        Self::from_slice(&buff)",
          "        buff.extend_from_slice(&u64::from(nonce as u32).to_be_bytes());\n\n        Self::from_slice(&buff)")],
  needs="a nonce above 2^32",
  breaks="the signature does not cover the high half of the nonce, so it is not the one the network expects",
  demo=PRE + '''fn main() {
    let n = (1u64 << 32) + 3;
    let t = tx(Auth::Standard(Box::new(SpendingConditionStandard::new(pk(1), 10, n, Mode::P2PKH))));
    let h = initial(&t);
    let b = t.sign(sk(1)).unwrap().encode().unwrap();
    let mut pre = h.as_bytes().to_vec();
    pre.push(4);
    pre.extend_from_slice(&10u64.to_be_bytes());
    pre.extend_from_slice(&n.to_be_bytes());
    let d = Sha512_256Hash::from_slice(&pre);
    let m = secp256k1::Message::from_digest_slice(d.as_bytes()).unwrap();
    // version, chain, auth type, mode, signer, nonce, fee, key encoding
    let sig = MessageSignature::from_slice(&b[44..109]).unwrap().into_recov().unwrap();
    assert_eq!(Secp256k1::new().recover_ecdsa(&m, &sig).unwrap(), pk(1));
}'''),
dict(id="C18-signature-count", property="C18",
  edits=[(A, "        if count < self.required {", "        if count < self.required.min(2) {")],
  needs="a multi-sig transaction requiring three or more signatures that has only two",
  breaks="verification accepts a transaction with too few signatures",
  demo=PRE + '''fn main() {
    let keys = [pk(1), pk(2), pk(3)];
    let t = tx(Auth::Standard(Box::new(SpendingConditionMultiSig::new(keys, 1, 2, 3, Mode::P2SH))));
    let h = initial(&t);
    let mut s = TransactionSigner::new(t).unwrap();
    s.sign_origin(sk(1)).unwrap();
    s.sign_origin(sk(2)).unwrap();
    s.append_origin(pk(3)).unwrap();
    assert!(s.transaction().auth.verify(h).is_err());
}'''),
dict(id="C19-append-after-sponsor", property="C19",
  edits=[("stacks/src/transaction/signer.rs", "            let next = self.tx.sign_next_sponsor(self.hash, key)?;\n            self.origin_signed = true;\n            self.hash = next;",
          "            let next = self.tx.sign_next_sponsor(self.hash, key)?;\n            self.hash = next;")],
  needs="signing the sponsor of a transaction in a normal session and then an origin step in the same session",
  breaks="origin steps are accepted after a sponsor has signed",
  demo=PRE + '''fn main() {
    let o = SpendingConditionMultiSig::new([pk(1), pk(2)], 10, 1, 1, Mode::P2SH);
    let s = SpendingConditionStandard::new(pk(3), 20, 7, Mode::P2PKH);
    let mut g = TransactionSigner::new(tx(Auth::Sponsored(Box::new(o), Box::new(s)))).unwrap();
    g.sign_origin(sk(1)).unwrap();
    g.sign_sponsor(sk(3)).unwrap();
    assert!(g.append_origin(pk(2)).is_err());
}'''),
dict(id="C20-hardened-index", property="C20",
  edits=[("stacks/src/wallet.rs", "        let child = ext.derive_child(index.into())?;", "        let child = ext.derive_child((index & 0x7fff_ffff).into())?;")],
  needs="an account index of 2^31 or more",
  breaks="hardened account indices give the key of a non-hardened account",
  demo=PRE + '''use stacks_rs::wallet::StacksWallet;
fn main() {
    let mut w = StacksWallet::from_secret_key("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about").unwrap();
    let a = w.get_account(3).unwrap().private_key().unwrap();
    let b = w.get_account(0x8000_0003).unwrap().private_key().unwrap();
    assert!(a != b);
}'''),
dict(id="C21-assign-by-own-index", property="C21",
  edits=[("stacks/src/wallet.rs", "        self.accounts.insert(index, account);", "        let slot = if self.accounts.contains_key(&index) { index } else { account.index };\n        self.accounts.insert(slot, account);")],
  needs="assigning an account to an index that was never looked up and is not its own",
  breaks="the assigned account is not found under its index, and replaces another",
  demo=PRE + '''use stacks_rs::wallet::StacksWallet;
fn main() {
    let mut w = StacksWallet::from_secret_key("abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about").unwrap();
    let a = w.get_account(0).unwrap();
    w.set_account(9, a.clone());
    assert!(w.get_account(9).unwrap() == a);
}'''),
dict(id="C22-response-err-accepted", property="C22",
  edits=[("stacks_derive/src/from_tuple.rs", "                    __internal_type_cast(&mut stream, &quote!(ResponseOk), &key, &ty_name);\n                    __internal_err_unwrap(&mut stream);\n                    stream.extend(quote!(.into_value()));\n                    __internal_type_cast(&mut stream, &quote!(UInt), &key, &ty_name);",
          "                    stream.extend(quote! {\n                        .cast::<::stacks_rs::clarity::ResponseOk>()\n                        .map(::stacks_rs::clarity::ResponseOk::into_value)\n                        .or_else(|_| tuple.get(#key).ok_or(::stacks_rs::clarity::Error::BadDowncast)\n                            .and_then(|v| v.cast::<::stacks_rs::clarity::ResponseErr>())\n                            .map(::stacks_rs::clarity::ResponseErr::into_value))\n                        .map_err(|_| ::stacks_rs::derive::Error::Extract(#key.to_string(), stringify!(#ty_name).to_string()))\n                    });\n                    __internal_err_unwrap(&mut stream);\n                    __internal_type_cast(&mut stream, &quote!(UInt), &key, &ty_name);")],
  needs="an unsigned response field filled with an error response",
  breaks="an (err u1) is taken for a success value",
  demo=PRE + '''use stacks_rs::derive::FromTuple;
#[derive(FromTuple, Debug)]
struct S { #[stacks(key = "a", response = true)] a: u128 }
fn main() {
    assert_eq!(S::try_from(clarity!(Tuple, ("a", clarity!(ResponseOk, clarity!(UInt, 4))))).unwrap().a, 4);
    assert!(S::try_from(clarity!(Tuple, ("a", clarity!(ResponseErr, clarity!(UInt, 4))))).is_err());
}'''),
dict(id="C23-estimated-length", property="C23",
  edits=[("stacks/src/rpc.rs", '"estimated_len": transaction.len()?', '"estimated_len": transaction.len()?.max(180)')],
  needs="estimating the fee of a transaction of fewer than 180 serialized bytes (a transfer is 180; a call with short names is shorter)",
  breaks="the request reports another length than that of the transaction",
  demo=RPC + '''fn main() {
    let p = ContractCallPayload::new(Address::new(Hash160::new([1u8; 20]), 22), "c", "f", FnArguments::new(vec![]));
    let t = Transaction::new(TransactionVersion::Mainnet, ChainID::Mainnet, Auth::Standard(Box::new(SpendingConditionStandard::new(pk(1), 1, 1, Mode::P2PKH))), AnchorMode::Any, PostConditionMode::Deny, PostConditions::default(), Box::new(p));
    let n = t.len().unwrap();
    let (url, h) = serve(http("200 OK", r#"{"estimations":[]}"#));
    stacks_rs::rpc::StacksRPC::new(url).estimate_fee(&t).unwrap();
    let req = h.join().unwrap();
    assert!(req.contains(&format!("\\"estimated_len\\":{n}")), "{req}");
}'''),
dict(id="C24-malformed-fee-reply", property="C24",
  edits=[("stacks/src/rpc.rs", "            Ok(res) => Ok(EstimateFeeResponse::Ok(res.into_json::<FeeOk>()?)),",
          "            Ok(res) => Ok(EstimateFeeResponse::Ok(\n                res.into_json::<FeeOk>().unwrap_or(FeeOk { estimations: vec![] }),\n            )),")],
  needs="a success reply to a fee estimation that is not the expected JSON",
  breaks="a malformed reply is reported as success with no estimations",
  demo=RPC + '''fn main() {
    let t = tx(Auth::Standard(Box::new(SpendingConditionStandard::new(pk(1), 1, 1, Mode::P2PKH))));
    let (url, h) = serve(http("200 OK", r#"{"estimations":[{"fee":-1}]}"#));
    assert!(stacks_rs::rpc::StacksRPC::new(url).estimate_fee(&t).is_err());
    h.join().unwrap();
}'''),
dict(id="C25-recovery-id-masked", property="C25",
  edits=[("stacks/src/crypto/hash.rs", "RecoveryId::from_i32(i32::from(bytes[0]))?", "RecoveryId::from_i32(i32::from(bytes[0] & 0x03))?")],
  needs="signature bytes whose first byte is above 3",
  breaks="a signature with an invalid recovery id is accepted",
  demo=PRE + '''fn main() {
    let (s, _) = SignatureHash::next_signature(SignatureHash::from_slice([1u8]), 4, 1, 2, sk(1)).unwrap();
    let mut b = s.into_bytes();
    b[0] |= 4;
    assert!(MessageSignature::from_slice(b).unwrap().into_recov().is_err());
}'''),
dict(id="C26-contract-from-text", property="C26",
  edits=[("stacks/src/clarity/impl.rs", "impl From<&[u8]> for Buffer {\n    fn from(bytes: &[u8]) -> Self {\n        Self::new(bytes.to_vec())",
          "impl From<&[u8]> for Buffer {\n    fn from(bytes: &[u8]) -> Self {\n        let mut buff = vec![0u8; bytes.len().min(1 << 10)];\n        let end = buff.len();\n        buff.copy_from_slice(&bytes[..end]);\n        Self::new(buff)")],
  needs="a buffer made from a slice of more than 1024 bytes",
  breaks="the buffer holds only the first 1024 bytes",
  demo=PRE + '''fn main() {
    let v = vec![5u8; 1100];
    assert_eq!(Buffer::from(&v[..]).into_value(), v);
}'''),
]
