//! Generates random structs deriving `FromTuple` (the macro under test) plus,
//! for each, its shape as data and a function that converts a tuple with the
//! derived impl and reports every field. Seeded by VERIF_SEED; VERIF_TIER
//! selects the number of structs.
use std::fmt::Write;

struct Rng(u64);
impl Rng {
    fn next(&mut self) -> u64 {
        // splitmix64
        self.0 = self.0.wrapping_add(0x9e37_79b9_7f4a_7c15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
        z ^ (z >> 31)
    }
    fn below(&mut self, n: usize) -> usize {
        (self.next() % n as u64) as usize
    }
}

const LEAVES: &[(&str, &[&str])] = &[
    ("Int", &["i128"]),
    ("UInt", &["u128"]),
    ("Bool", &["bool"]),
    ("Bytes", &["Vec<u8>", "std::vec::Vec<u8>"]),
    ("Str", &["String"]),
    ("StrVec", &["Vec<String>", "std::vec::Vec<String>"]),
    ("OptInt", &["Option<i128>", "std::option::Option<i128>"]),
    ("OptUInt", &["Option<u128>", "std::option::Option<u128>"]),
    ("OptStr", &["Option<String>"]),
    ("RespInt", &["i128"]),
    ("RespUInt", &["u128"]),
];

struct Gen {
    rng: Rng,
    code: String,
    n: usize,
}

impl Gen {
    fn key(&mut self, used: &[String]) -> String {
        let pool = [
            "a", "b", "aa", "ab", "A", "key", "Key", "KEY", "key-1", "key-2", "token-id", "token_id", "is-ok?", "set!",
            "f0", "f1", "f2", "f3", "f4", "amount", "amounts", "value", "tuple", "data", "ok", "err", "some", "x", "+",
            "<=", "a/b", "type", "self", "k.e.y", "owner", "ab-", "z9",
        ];
        loop {
            let k = if self.rng.below(24) == 0 {
                // As long as a key can be, or of other letters.
                match self.rng.below(3) {
                    0 => "k".repeat(127) + if self.rng.below(2) == 0 { "" } else { "2" },
                    1 => format!("cl\u{e9}-{}", self.rng.below(9)),
                    _ => format!("\u{30ad}\u{30fc} \"{}\\", self.rng.below(9)),
                }
            } else if self.rng.below(8) == 0 {
                let len = 1 + self.rng.below(20);
                let cs = b"abcdefghijklmnopqrstuvwxyzABCXYZ0123456789-_?!";
                (0..len).map(|_| cs[self.rng.below(cs.len())] as char).collect()
            } else {
                pool[self.rng.below(pool.len())].to_string()
            };
            if !used.contains(&k) {
                return k;
            }
        }
    }

    /// Emits one struct; returns its name and its shape as JSON.
    fn strukt(&mut self, depth: usize, only: Option<usize>) -> (String, String) {
        let name = format!("S{}", self.n);
        self.n += 1;
        let count = match only {
            Some(_) => 1,
            None if depth == 0 && self.rng.below(10) == 0 => 9 + self.rng.below(16),
            None => 1 + self.rng.below(if depth == 0 { 8 } else { 4 }),
        };
        let mut used = vec![];
        let mut names: Vec<String> = (0..count).map(|i| format!("f{i}")).collect();
        // Field names in any order, some of them like the keys.
        for i in (1..count).rev() {
            let j = self.rng.below(i + 1);
            names.swap(i, j);
        }
        if self.rng.below(3) == 0 {
            names[0] = "value".into();
        }
        if self.rng.below(8) == 0 {
            // Names that clash with what generated code might use.
            let it = ["r#type", "tuple", "list", "any", "x", "e", "r#match"];
            names[count - 1] = it[self.rng.below(it.len())].into();
        }
        let (mut fields, mut outs, mut shape) = (String::new(), String::new(), String::new());
        for f in &names {
            let key = self.key(&used);
            used.push(key.clone());
            let lit = format!("{key:?}");
            let pick = only.unwrap_or_else(|| self.rng.below(LEAVES.len() + if depth < 3 { 3 } else { 0 }));
            let (ty, kind, out, resp);
            if let Some((k, tys)) = LEAVES.get(pick) {
                ty = tys[self.rng.below(tys.len())].to_string();
                kind = format!("\"{k}\"");
                out = match *k {
                    "RespInt" => format!("Out::Int(v.{f})"),
                    "RespUInt" => format!("Out::UInt(v.{f})"),
                    k => format!("Out::{k}(v.{f})"),
                };
                resp = k.starts_with("Resp");
            } else {
                let (n, s) = self.strukt(depth + 1, None);
                out = format!("out_{n}(v.{f})");
                kind = format!("{{\"Struct\":{s}}}");
                ty = n;
                resp = false;
            }
            let attr = match (resp, self.rng.below(3)) {
                (true, 0) => ", response = true",
                (true, _) => ", response",
                (_, 0) if self.rng.below(4) == 0 => ", response = false",
                _ => "",
            };
            let _ = writeln!(fields, "    #[stacks(key = {lit}{attr})]\n    pub {f}: {ty},");
            let _ = write!(outs, "{out}, ");
            if !shape.is_empty() {
                shape.push(',');
            }
            let _ = write!(shape, "[{key:?},{kind}]");
        }
        let _ = writeln!(
            self.code,
            "#[derive(FromTuple)]\npub struct {name} {{\n{fields}}}\nfn out_{name}(v: {name}) -> Out {{ Out::Struct(vec![{outs}]) }}\n"
        );
        (name, format!("[{shape}]"))
    }
}

fn main() {
    println!("cargo:rerun-if-changed=build.rs");
    println!("cargo:rerun-if-env-changed=VERIF_SEED");
    println!("cargo:rerun-if-env-changed=VERIF_TIER");
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut g = Gen { rng: Rng(seed.wrapping_mul(0x1234_5678_9abc_def1)), code: String::new(), n: 0 };
    let mut table = String::new();
    let mut emit = |g: &mut Gen, only| {
        let (n, s) = g.strukt(0, only);
        let _ = writeln!(table, "        ({s:?}, |t| {n}::try_from(t).map(out_{n})),");
    };
    // Every leaf type on its own, then random mixes.
    for i in 0..LEAVES.len() {
        emit(&mut g, Some(i));
    }
    for _ in 0..if thorough { 300 } else { 50 } {
        emit(&mut g, None);
    }
    let code = format!(
        "{}pub fn table() -> Vec<(&'static str, Conv)> {{\n    vec![\n{table}    ]\n}}\n",
        g.code
    );
    let out = std::path::Path::new(&std::env::var("OUT_DIR").unwrap()).join("shapes.rs");
    std::fs::write(out, code).unwrap();
}
