ns = {}
exec(open(__file__.replace("d.py", "b.py") if "__file__" in globals() else "/verif/tools/plants/b.py").read(), ns)
PRE, RPC = ns["PRE"], ns["RPC"]
L = "stacks/src/clarity/"; T = "stacks/src/transaction/"; S = "stacks/src/"
PLANTS = [
dict(id="C18-one-key-signs-twice", property="C18",
  edits=[(T + "auth.rs", "                    public_keys.push(pk);\n                    next = hash;", "                    if !public_keys.contains(&pk) {\n                        public_keys.push(pk);\n                    }\n                    next = hash;")],
  needs="an m-of-n condition in which one key signs twice, the second time over the hash its first signature leads to",
  breaks="one holder's key counts for two signatures of an m-of-n condition",
  demo=PRE + '''fn main() {
    let c = SpendingConditionMultiSig::new([pk(1), pk(2)], 1, 0, 2, Mode::P2SH);
    let mut s = TransactionSigner::new(tx(Auth::Standard(Box::new(c)))).unwrap();
    s.sign_origin(sk(1)).unwrap();
    let twice = s.sign_origin(sk(1)).is_ok() && s.append_origin(pk(2)).is_ok();
    let t = s.transaction();
    assert!(!(twice && t.auth.verify(initial(&t)).is_ok()));
}'''),
dict(id="C18-threshold-above-keys", property="C18",
  edits=[(T + "auth.rs", "        if count < self.required {", "        if count < self.required.min(public_keys.len() as u8) {")],
  needs="a multi-sig condition asking for more signatures than it has keys, signed by all of them",
  breaks="a condition asking for three signatures verifies with one",
  demo=PRE + '''fn main() {
    let c = SpendingConditionMultiSig::new([pk(1)], 1, 0, 3, Mode::P2WSH);
    let mut s = TransactionSigner::new(tx(Auth::Standard(Box::new(c)))).unwrap();
    s.sign_origin(sk(1)).unwrap();
    let t = s.transaction();
    assert!(t.auth.verify(initial(&t)).is_err());
}'''),
]
