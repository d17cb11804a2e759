ns = {}
exec(open(__file__.replace("c.py", "b.py") if "__file__" in globals() else "/verif/tools/plants/b.py").read(), ns)
PRE, RPC = ns["PRE"], ns["RPC"]
L = "stacks/src/clarity/"; T = "stacks/src/transaction/"; S = "stacks/src/"
PLANTS = [
dict(id="C07-nested-optional-peeled", property="C07",
  edits=[(L + "macro.rs", "                if let Ok(value) = self.into_value().into_any().downcast::<T>() {\n                    Ok(*value)\n                } else {\n                    Err(Error::BadDowncast)\n                }",
    "                let mut inner = self.into_value();\n                while inner.as_any().is::<OptionalSome>() && !inner.as_any().is::<T>() {\n                    inner = inner.into_any().downcast::<OptionalSome>().map_err(|_| Error::BadDowncast)?.into_value();\n                }\n                if let Ok(value) = inner.into_any().downcast::<T>() {\n                    Ok(*value)\n                } else {\n                    Err(Error::BadDowncast)\n                }")],
  needs="casting by value a wrapper whose content is another (some x) to the type of x",
  breaks="(some (some 1)) casts to Int although the wrapped value is an optional",
  demo=PRE + '''fn main() {
    let two = clarity!(OptionalSome, clarity!(OptionalSome, clarity!(Int, 1)));
    assert!(two.cast::<Int>().is_err());
    let ok = clarity!(ResponseOk, clarity!(OptionalSome, clarity!(UInt, 1)));
    assert!(ok.cast::<UInt>().is_err());
}'''),
dict(id="C08-lookup-in-long-tuples", property="C08",
  edits=[(L + "impl.rs", "        self.__value\n            .iter()\n            .find(|(k, _)| k == key.as_ref())\n            .map(|(_, v)| v.clone())",
    "        let fields = &self.__value;\n        if fields.len() > 24 && fields[0].0 < fields[fields.len() - 1].0 {\n            return fields\n                .binary_search_by(|(k, _)| k.as_str().cmp(key.as_ref()))\n                .ok()\n                .map(|i| fields[i].1.clone());\n        }\n\n        fields\n            .iter()\n            .find(|(k, _)| k == key.as_ref())\n            .map(|(_, v)| v.clone())")],
  needs="a tuple of more than 24 fields, not in key order, whose first key is below its last",
  breaks="get finds fields of long tuples by binary search although fields are in insertion order",
  demo=PRE + '''fn main() {
    let mut t = clarity!(Tuple);
    for k in 0..29 {
        t.insert(format!("k{:02}", k * 7 % 29), Int::new(k * 7 % 29));
    }
    for k in 0..29 {
        assert_eq!(t.get(format!("k{k:02}")).expect("present").to_string(), k.to_string());
    }
}'''),
dict(id="C19-refused-signature-locks", property="C19",
  edits=[(T + "signer.rs", "            Err(Error::OriginOversign)", "            self.origin_signed = true;\n            Err(Error::OriginOversign)")],
  needs="m signatures of an m-of-n origin, one more signature attempt (refused), then appending the remaining public key",
  breaks="a refused extra signature changes the session: later appends are refused as if a sponsor had signed",
  demo=PRE + '''fn main() {
    let c = SpendingConditionMultiSig::new([pk(1), pk(2), pk(3)], 1, 0, 2, Mode::P2SH);
    let mut s = TransactionSigner::new(tx(Auth::Standard(Box::new(c)))).unwrap();
    s.sign_origin(sk(1)).unwrap();
    s.sign_origin(sk(2)).unwrap();
    assert!(s.sign_origin(sk(3)).is_err());
    s.append_origin(pk(3)).unwrap();
    let t = s.transaction();
    t.auth.verify(initial(&t)).unwrap();
}'''),
dict(id="C21-account-cache-limit", property="C21",
  edits=[(S + "wallet.rs", "        self.accounts.insert(index, account);", "        if self.accounts.len() >= 64 {\n            self.accounts.clear();\n        }\n\n        self.accounts.insert(index, account);")],
  needs="an assigned account, then lookups of more than 64 other indices",
  breaks="assigned accounts are forgotten once many accounts are held",
  demo='''use stacks_rs::wallet::StacksWallet;
fn main() {
    let p = "sound idle panel often situate develop unit text design antenna vendor screen opinion balcony share trigger accuse scatter visa uniform brass update opinion media";
    let mut w = StacksWallet::from_secret_key(p).unwrap();
    let a = w.get_account(7).unwrap();
    w.set_account(3, a.clone());
    for i in 100..180 { w.get_account(i).unwrap(); }
    assert!(w.get_account(3).unwrap() == a);
}'''),
dict(id="C24-estimates-reordered", property="C24",
  edits=[(S + "rpc.rs", "            Ok(res) => Ok(EstimateFeeResponse::Ok(res.into_json::<FeeOk>()?)),", "            Ok(res) => {\n                let mut fees = res.into_json::<FeeOk>()?;\n                fees.estimations.sort_by_key(|estimate| estimate.fee);\n                Ok(EstimateFeeResponse::Ok(fees))\n            }")],
  needs="a fee estimation reply whose estimates are not in ascending order of fee",
  breaks="estimates are returned in another order than the server sent",
  demo=RPC + '''fn main() {
    let (url, h) = serve(http("200 OK", r#"{"estimations":[{"fee":30,"fee_rate":1.5},{"fee":10,"fee_rate":0.5}]}"#));
    let t = tx(Auth::Standard(Box::new(SpendingConditionStandard::new(pk(1), 1, 1, Mode::P2PKH))));
    let r = stacks_rs::rpc::StacksRPC::new(url).estimate_fee(&t).unwrap();
    h.join().unwrap();
    let stacks_rs::rpc::EstimateFeeResponse::Ok(f) = r else { panic!() };
    assert_eq!(f.estimations.iter().map(|e| e.fee).collect::<Vec<_>>(), [30, 10]);
}'''),
dict(id="C17-partial-signature-test", property="C17",
  edits=[(T + "auth.rs", "        u16::from(self.signature != MessageSignature::default())", "        u16::from(self.signature.as_bytes()[0] != 0)")],
  needs="a transaction signed with a signature of recovery id 0, signed a second time",
  breaks="a signature with recovery id 0 is taken for no signature, so a second one is accepted",
  demo=PRE + '''fn main() {
    for nonce in 0..24 {
        let c = SpendingConditionStandard::new(pk(1), 1, nonce, Mode::P2PKH);
        let t = tx(Auth::Standard(Box::new(c))).sign(sk(1)).unwrap();
        assert!(t.sign(sk(1)).is_err(), "nonce {nonce}");
    }
}'''),
]
