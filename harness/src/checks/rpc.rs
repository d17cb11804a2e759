//! C23 requests, C24 responses, against a scripted server on the loopback.
use std::io::{Read, Write};
use std::net::{Shutdown, TcpListener, TcpStream};
use std::time::Duration;

use proptest::collection::vec;
use proptest::prelude::*;
use proptest::sample::select;
use serde::{Deserialize, Serialize};
use serde_json::{json, Map, Value};
use stacks_rs::rpc::{BroadcastResponse, EstimateFeeResponse, ReadOnlyResponse, StacksRPC};

use crate::checks::clarity::build_args;
use crate::ensure;
use crate::model::{self, Addr, V};
use crate::refhash::hex;
use crate::runner::{class, no_panic, Property, SubCheck, Verdict};
use crate::txmodel::{self, single, tx_with, AuthM, Pl, Tx};

// ---------------------------------------------------------------------------
// The server

#[derive(Debug, Default)]
pub struct Request {
    line: String,
    headers: Vec<(String, String)>,
    body: Vec<u8>,
    complete: bool,
}

impl Request {
    fn header(&self, k: &str) -> Option<&str> {
        self.headers.iter().find(|(n, _)| n.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_str())
    }
}

/// What the server does with each connection.
enum Script<'a> {
    /// Read the request, send these bytes, close.
    Send(&'a [u8]),
    /// Close at once.
    Drop,
}

fn read_request(s: &mut TcpStream) -> Request {
    let mut buf = vec![];
    let mut r = Request::default();
    let mut chunk = [0u8; 4096];
    let head = loop {
        if let Some(p) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
            break p;
        }
        match s.read(&mut chunk) {
            Ok(n) if n > 0 => buf.extend_from_slice(&chunk[..n]),
            _ => return r,
        }
    };
    let text = String::from_utf8_lossy(&buf[..head]).to_string();
    let mut lines = text.split("\r\n");
    r.line = lines.next().unwrap_or_default().to_string();
    r.headers = lines.filter_map(|l| l.split_once(':')).map(|(a, b)| (a.trim().to_string(), b.trim().to_string())).collect();
    let mut rest = buf[head + 4..].to_vec();
    if let Some(n) = r.header("content-length").and_then(|n| n.parse::<usize>().ok()) {
        while rest.len() < n {
            match s.read(&mut chunk) {
                Ok(k) if k > 0 => rest.extend_from_slice(&chunk[..k]),
                _ => return r,
            }
        }
        r.body = rest;
    } else if r.header("transfer-encoding").is_some_and(|t| t.eq_ignore_ascii_case("chunked")) {
        loop {
            if let Some(b) = unchunk(&rest) {
                r.body = b;
                break;
            }
            match s.read(&mut chunk) {
                Ok(k) if k > 0 => rest.extend_from_slice(&chunk[..k]),
                _ => return r,
            }
        }
    } else {
        r.body = rest;
    }
    r.complete = true;
    r
}

fn unchunk(mut b: &[u8]) -> Option<Vec<u8>> {
    let mut out = vec![];
    loop {
        let eol = b.windows(2).position(|w| w == b"\r\n")?;
        let n = usize::from_str_radix(std::str::from_utf8(&b[..eol]).ok()?.trim(), 16).ok()?;
        b = &b[eol + 2..];
        if n == 0 {
            return Some(out);
        }
        if b.len() < n + 2 {
            return None;
        }
        out.extend_from_slice(&b[..n]);
        b = &b[n + 2..];
    }
}

thread_local! {
    static LISTENER: TcpListener = TcpListener::bind("127.0.0.1:0").expect("loopback");
}

const END: &str = "VP-END";

/// Runs `call` with the base address of a server following `script`; returns
/// its result and every request the server got meanwhile.
fn with_server<T>(script: &Script, call: impl FnOnce(&str) -> T) -> Result<(Result<T, String>, Vec<Request>), String> {
    LISTENER.with(|l| {
        let port = l.local_addr().map_err(|e| e.to_string())?.port();
        std::thread::scope(|sc| {
            let server = sc.spawn(move || serve(l, script));
            let out = no_panic("rpc call", || call(&format!("http://127.0.0.1:{port}")));
            // Connections are served in order, so this one ends the wait.
            let end = TcpStream::connect(("127.0.0.1", port)).and_then(|mut s| s.write_all(format!("{END}\r\n\r\n").as_bytes()));
            if let Err(e) = end {
                // cannot happen while the listener is alive
                eprintln!("ERROR cannot reach the loopback server: {e}");
                std::process::exit(2);
            }
            let reqs = server.join().map_err(|_| "harness: server thread failed".to_string())?;
            Ok((out, reqs))
        })
    })
}

fn serve(l: &TcpListener, script: &Script) -> Vec<Request> {
    let mut got = vec![];
    loop {
        let Ok((mut s, _)) = l.accept() else { return got };
        let _ = s.set_nodelay(true);
        let _ = s.set_read_timeout(Some(Duration::from_secs(20)));
        let mut head = [0u8; END.len()];
        let mut seen = s.peek(&mut head).unwrap_or(0);
        while seen > 0 && seen < END.len() && head[..seen] == END.as_bytes()[..seen] {
            std::thread::yield_now();
            seen = s.peek(&mut head).unwrap_or(0);
        }
        if head[..seen] == *END.as_bytes() {
            return got;
        }
        match script {
            Script::Drop => {
                got.push(Request::default());
                let _ = s.shutdown(Shutdown::Both);
            }
            Script::Send(b) => {
                got.push(read_request(&mut s));
                let _ = s.write_all(b);
                let _ = s.shutdown(Shutdown::Write);
                // let the client finish reading before the socket goes
                let mut sink = [0u8; 256];
                while matches!(s.read(&mut sink), Ok(n) if n > 0) {}
            }
        }
    }
}

// ---------------------------------------------------------------------------
// Calls

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Call {
    Info,
    Address(String),
    Fee(Tx),
    Broadcast(Tx),
    ReadOnly { addr: Addr, contract: String, func: String, args: Vec<V>, sender: String },
}

impl Call {
    fn kind(&self) -> &'static str {
        match self {
            Call::Info => "info",
            Call::Address(_) => "address",
            Call::Fee(_) => "fee",
            Call::Broadcast(_) => "broadcast",
            Call::ReadOnly { .. } => "read-only",
        }
    }
    fn encodable(&self) -> bool {
        match self {
            Call::Info | Call::Address(_) => true,
            Call::Fee(t) | Call::Broadcast(t) => t.enc().is_some(),
            Call::ReadOnly { args, .. } => args.iter().all(|a| a.enc().is_some()),
        }
    }
}

/// The outcome of a call, reduced to plain data.
#[derive(Clone, Debug, PartialEq)]
enum Out {
    /// A success value as JSON.
    Ok(Value),
    /// A reported refusal by the server, with its contents.
    Refused(Value),
    Err(String),
}

fn perform(call: &Call, base: &str) -> Out {
    perform_on(&StacksRPC::new(base), call)
}

fn perform_on(rpc: &StacksRPC, call: &Call) -> Out {
    fn js<T: Serialize>(t: &T) -> Value {
        serde_json::to_value(t).unwrap()
    }
    match call {
        Call::Info => match rpc.info() {
            Ok(v) => Out::Ok(js(&v)),
            Err(e) => Out::Err(e.to_string()),
        },
        Call::Address(a) => match rpc.address(a.clone()) {
            Ok(v) => Out::Ok(js(&v)),
            Err(e) => Out::Err(e.to_string()),
        },
        Call::Fee(t) => match rpc.estimate_fee(&t.build()) {
            Ok(EstimateFeeResponse::Ok(v)) => Out::Ok(js(&v)),
            Ok(EstimateFeeResponse::Err(s)) => Out::Refused(json!(s)),
            Err(e) => Out::Err(e.to_string()),
        },
        Call::Broadcast(t) => match rpc.broadcast(&t.build()) {
            // the displayed response tells the same
            Ok(r @ BroadcastResponse::Ok(_)) => match (r.to_string(), r) {
                (shown, BroadcastResponse::Ok(s)) if shown.contains(&s) => Out::Ok(json!(s)),
                (shown, r) => Out::Ok(json!({"shown": shown, "of": js(&r)})),
            },
            Ok(r @ BroadcastResponse::Err(_)) => match (r.to_string(), r) {
                (shown, BroadcastResponse::Err(e)) if shown.contains(&e.reason) && e.to_string().contains(&e.reason) => Out::Refused(js(&e)),
                (shown, r) => Out::Refused(json!({"shown": shown, "of": js(&r)})),
            },
            Err(e) => Out::Err(e.to_string()),
        },
        Call::ReadOnly { addr, contract, func, args, sender } => {
            match rpc.read_only(&addr.text(), contract, func, build_args(args), sender) {
                Ok(ReadOnlyResponse::Ok(v)) => Out::Ok(js(&v)),
                Ok(ReadOnlyResponse::Err(v)) => Out::Refused(js(&v)),
                Err(e) => Out::Err(e.to_string()),
            }
        }
    }
}

fn contract_name() -> BoxedStrategy<String> {
    prop_oneof![3 => "[a-zA-Z][a-zA-Z0-9_-]{0,20}", 1 => "[a-zA-Z][a-zA-Z0-9_-]{39}"].boxed()
}

/// Every form of Clarity function name.
fn function_name() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "[a-zA-Z][a-zA-Z0-9_!?+<>=/*-]{0,20}",
        2 => "[a-zA-Z][a-zA-Z0-9-]{0,20}",
        1 => "[a-z]{1,6}[?!]",
        1 => select(vec!["-", "+", "=", "*", "/", "<", ">", "<=", ">=", "a%b"]).prop_map(|s| s.replace('%', "-")),
    ]
    .boxed()
}

fn principal_text() -> BoxedStrategy<String> {
    prop_oneof![
        model::addr().prop_map(|a| a.text()),
        (model::addr(), contract_name()).prop_map(|(a, n)| format!("{}.{n}", a.text())),
    ]
    .boxed()
}

fn tx() -> BoxedStrategy<Tx> {
    prop_oneof![
        2 => tx_with(single().prop_map(AuthM::Std).boxed(), 2),
        1 => txmodel::any_tx(),
    ]
    .boxed()
}

/// A transaction with one part that has no encoding.
fn bad_tx() -> BoxedStrategy<Tx> {
    (tx_with(single().prop_map(AuthM::Std).boxed(), 1), txmodel::pc(), 0u8..4)
        .prop_map(|(mut t, p, k)| {
            match k {
                0 => t.pcs.push(p.with_token(V::Ascii("é".into()))),
                1 => {
                    let mut p = p;
                    *p.who_mut() = V::RawStd("SP000".into());
                    t.pcs.insert(0, p);
                }
                2 => {
                    if let Pl::Call { args, .. } = &mut t.payload {
                        args.push(V::List(vec![V::Ascii("\u{80}".into())]));
                    } else {
                        t.payload = Pl::Transfer { to: V::RawStd("ST1".into()), amount: 1, memo: String::new() };
                    }
                }
                _ => t.payload = Pl::Transfer { to: p.who().clone(), amount: 7, memo: "x".repeat(35) },
            }
            t
        })
        .boxed()
}

fn read_only(args: BoxedStrategy<Vec<V>>) -> BoxedStrategy<Call> {
    (model::addr(), contract_name(), function_name(), args, principal_text())
        .prop_map(|(addr, contract, func, args, sender)| Call::ReadOnly { addr, contract, func, args, sender })
        .boxed()
}

fn good_call() -> BoxedStrategy<Call> {
    let args = || model::args(4);
    prop_oneof![
        1 => Just(Call::Info),
        2 => principal_text().prop_map(Call::Address),
        3 => tx().prop_map(Call::Fee),
        3 => tx().prop_map(Call::Broadcast),
        5 => read_only(args()),
    ]
    .boxed()
}

fn bad_call() -> BoxedStrategy<Call> {
    let args = (vec(model::leaf(), 0..3), vec(model::leaf(), 0..3), 0u8..3)
        .prop_map(|(mut a, b, k)| {
            a.push(match k {
                0 => V::Ascii("ÿ".into()),
                1 => V::Some(Box::new(V::RawStd("SQ".into()))),
                _ => V::Tuple(vec![("k".repeat(129), V::True)]),
            });
            a.extend(b);
            a
        })
        .boxed();
    prop_oneof![bad_tx().prop_map(Call::Fee), bad_tx().prop_map(Call::Broadcast), read_only(args)].boxed()
}

// ---------------------------------------------------------------------------
// C23

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Sent {
    call: Call,
    prefix: String,
    /// What the server answers; the request must not depend on it.
    #[serde(default = "ok_status")]
    status: u16,
}

fn ok_status() -> u16 {
    200
}

/// Paths a node may be mounted under.
fn prefix() -> BoxedStrategy<String> {
    prop_oneof![
        4 => Just(String::new()),
        2 => select(vec!["/api", "/x/y-z", "/v2", "/api/v2", "/v2/info", "/stacks.node", "/a_b~c", "/API"]).prop_map(str::to_string),
        1 => "(/[a-zA-Z0-9][a-zA-Z0-9._~-]{0,9}){1,3}",
    ]
    .boxed()
}

fn statuses() -> BoxedStrategy<u16> {
    prop_oneof![3 => Just(200u16), 1 => select(vec![201u16, 202]), 2 => select(vec![400u16, 401, 403, 404, 408, 409, 413, 425, 429, 500, 501, 502, 503, 504])].boxed()
}

fn sent() -> BoxedStrategy<Sent> {
    (prop_oneof![6 => good_call(), 1 => bad_call()], prefix(), statuses())
        .prop_map(|(call, prefix, status)| Sent { call, prefix, status })
        .boxed()
}

fn percent_decode(s: &str) -> Option<String> {
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        if b[i] == b'%' {
            out.push(u8::from_str_radix(s.get(i + 1..i + 3)?, 16).ok()?);
            i += 3;
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    String::from_utf8(out).ok()
}

fn run_sent(s: &Sent) -> Verdict {
    let reply = frame(s.status, b"{}", &Framing::Length);
    let (out, reqs) = with_server(&Script::Send(&reply), |base| perform(&s.call, &format!("{base}{}", s.prefix)))?;
    check_request(s, out?, &reqs)
}

fn check_request(s: &Sent, out: Out, reqs: &[Request]) -> Verdict {
    if !s.call.encodable() {
        ensure!(matches!(out, Out::Err(_)), "data with no encoding did not give an error: {out:?}");
        ensure!(reqs.is_empty(), "a request was sent although its data has no encoding");
        return Ok(());
    }
    ensure!(reqs.len() == 1, "{} requests instead of one ({out:?})", reqs.len());
    let r = &reqs[0];
    ensure!(r.complete, "incomplete request: {:?}", r.line);
    let parts: Vec<&str> = r.line.split(' ').collect();
    ensure!(parts.len() == 3 && parts[2].starts_with("HTTP/1."), "request line {:?}", r.line);
    let (method, path): (&str, Vec<String>) = match &s.call {
        Call::Info => ("GET", vec!["info".into()]),
        Call::Address(a) => ("GET", vec!["accounts".into(), a.clone()]),
        Call::Fee(_) => ("POST", vec!["fees".into(), "transaction".into()]),
        Call::Broadcast(_) => ("POST", vec!["transactions".into()]),
        Call::ReadOnly { addr, contract, func, .. } => {
            ("POST", vec!["contracts".into(), "call-read".into(), addr.text(), contract.clone(), func.clone()])
        }
    };
    ensure!(parts[0] == method, "method {} instead of {method}", parts[0]);
    let mut want: Vec<String> = s.prefix.split('/').map(str::to_string).collect();
    want.push("v2".into());
    want.extend(path);
    ensure!(!parts[1].contains('?'), "the path {want:?} was sent as path and query {:?}", parts[1]);
    // a server tells the segments apart before it decodes them
    let got: Option<Vec<String>> = parts[1].split('/').map(percent_decode).collect();
    ensure!(got.as_ref() == Some(&want), "path {:?} instead of segments {want:?}", parts[1]);
    let body_json = || -> Result<Value, String> {
        ensure!(
            r.header("content-type").is_some_and(|c| c.to_ascii_lowercase().starts_with("application/json")),
            "content type {:?} for a JSON body",
            r.header("content-type")
        );
        serde_json::from_slice(&r.body).map_err(|e| format!("body is not JSON: {e}"))
    };
    match &s.call {
        Call::Info | Call::Address(_) => ensure!(r.body.is_empty(), "a GET request carries a body"),
        Call::Broadcast(t) => {
            ensure!(r.header("content-type") == Some("application/octet-stream"), "content type {:?}", r.header("content-type"));
            ensure!(Some(&r.body) == t.enc().as_ref(), "broadcast body {} is not the transaction", hex(&r.body));
        }
        Call::Fee(t) => {
            let want = json!({"transaction_payload": hex(&t.payload.enc().unwrap()), "estimated_len": t.enc().unwrap().len()});
            let got = body_json()?;
            ensure!(got == want, "fee body {got} instead of {want}");
        }
        Call::ReadOnly { args, sender, .. } => {
            let hexes: Vec<String> = args.iter().map(|a| hex(&a.enc().unwrap())).collect();
            let want = json!({"sender": sender, "arguments": hexes});
            let got = body_json()?;
            ensure!(got == want, "read-only body {got} instead of {want}");
        }
    }
    Ok(())
}

/// Several calls through one client: each sends its own request and reports its own reply.
fn run_session(calls: &Vec<Received>) -> Verdict {
    let port = LISTENER.with(|l| l.local_addr().map_err(|e| e.to_string()))?.port();
    let rpc = StacksRPC::new(format!("http://127.0.0.1:{port}"));
    for (i, r) in calls.iter().enumerate() {
        let step = |e: String| if e.starts_with("KNOWN:") { e } else { format!("call {i}: {e}") };
        let (out, reqs) = exchange(r, |_| perform_on(&rpc, &r.call)).map_err(step)?;
        if !matches!(r.reply, Reply::Broken(Broken::Dropped | Broken::Refused | Broken::Garbage(_) | Broken::CutHead(_))) {
            check_request(&Sent { call: r.call.clone(), prefix: String::new(), status: r.status }, out, &reqs).map_err(step)?;
        }
    }
    Ok(())
}

/// Mostly repeated calls of few kinds, so that anything kept from one shows in the next.
fn session() -> BoxedStrategy<Vec<Received>> {
    (vec(received(), 2..6), any::<bool>())
        .prop_map(|(mut v, same)| {
            if same {
                let calls: Vec<Call> = v.iter().map(|r| r.call.clone()).collect();
                for r in &mut v {
                    if let Some(c) = calls.iter().find(|c| c.kind() == r.call.kind()) {
                        r.call = c.clone();
                    }
                }
            }
            v
        })
        .boxed()
}

pub fn c23() -> Property {
    Property {
        id: "C23",
        subs: vec![Box::new(SubCheck {
            name: "request",
            rule: "random calls of all five methods under several base URLs, captured by a loopback server; \
                   non-trivial: the call carries a transaction, an address or arguments",
            quick: 24_000,
            thorough: 120_000,
            strategy: sent,
            classify: |s| {
                let trivial = matches!(&s.call, Call::Info) || matches!(&s.call, Call::ReadOnly { args, .. } if args.is_empty());
                class(!trivial, vec![s.call.kind(), if s.call.encodable() { "encodable" } else { "unencodable" }])
            },
            run: run_sent,
        })],
        assumptions: &[
            "the server decodes percent-escapes in the path, as a Stacks node does",
            "base URLs are http on the loopback without a trailing slash",
        ],
    }
}

// ---------------------------------------------------------------------------
// C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Framing {
    Length,
    Chunked(u8),
    UntilClose,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Broken {
    /// Required field removed / given a value of another type.
    Missing(u8),
    WrongType(u8, u8),
    /// Body cut short, framed as if complete.
    CutText(u16),
    NotJson(String),
    Trailing,
    /// Frame promises more than is sent.
    ShortBody(u16),
    ShortChunk(u16),
    CutHead(u8),
    Garbage(#[serde(with = "model::as_hex")] Vec<u8>),
    Dropped,
    Refused,
    WrongShape(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Reply {
    Good,
    Broken(Broken),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Received {
    call: Call,
    status: u16,
    /// The response body: an object for JSON replies, a string for text ones.
    body: Value,
    framing: Framing,
    pretty: bool,
    reply: Reply,
}

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        2 => "[a-zA-Z0-9 .:_-]{0,30}",
        2 => "0x[0-9a-f]{0,64}",
        1 => model::utf8(12),
        1 => "[\"\\\\/{}\\[\\],:\n\t]{0,8}",
    ]
    .boxed()
}

fn num() -> BoxedStrategy<Value> {
    model::u64s().prop_map(|n| json!(n)).boxed()
}
fn num32() -> BoxedStrategy<Value> {
    any::<u32>().prop_map(|n| json!(n)).boxed()
}
fn st() -> BoxedStrategy<Value> {
    text().prop_map(|s| json!(s)).boxed()
}

fn object(fields: Vec<(&'static str, BoxedStrategy<Value>)>) -> BoxedStrategy<Value> {
    let (names, vals): (Vec<_>, Vec<_>) = fields.into_iter().unzip();
    vals.prop_map(move |v| Value::Object(names.iter().map(|n| n.to_string()).zip(v).collect())).boxed()
}

fn info_body() -> BoxedStrategy<Value> {
    object(vec![
        ("peer_version", num()),
        ("pox_consensus", st()),
        ("burn_block_height", num()),
        ("stable_pox_consensus", st()),
        ("stable_burn_block_height", num()),
        ("server_version", st()),
        ("network_id", num32()),
        ("parent_network_id", num32()),
        ("stacks_tip_height", num()),
        ("stacks_tip", st()),
        ("stacks_tip_consensus_hash", st()),
        ("genesis_chainstate_hash", st()),
    ])
}

fn address_body() -> BoxedStrategy<Value> {
    object(vec![
        ("balance", st()),
        ("locked", st()),
        ("unlock_height", num()),
        ("nonce", num()),
        ("balance_proof", st()),
        ("nonce_proof", st()),
    ])
}

fn fee_body() -> BoxedStrategy<Value> {
    let rate = prop_oneof![(0u32..1_000_000).prop_map(|q| json!(f64::from(q) / 4.0)), (0u32..1000).prop_map(|n| json!(f64::from(n))),
        // up to 15 digits: every correct reader agrees on these
        (0u64..1_000_000_000_000_000, 0i32..10).prop_map(|(n, k)| json!(n as f64 / 10f64.powi(k)))];
    let one = object(vec![("fee", num()), ("fee_rate", rate.boxed())]);
    prop_oneof![4 => vec(one.clone(), 0..5), 1 => vec(one, 5..60)].prop_map(|v| json!({"estimations": v})).boxed()
}

fn ro_body() -> BoxedStrategy<Value> {
    prop_oneof![
        st().prop_map(|s| json!({"okay": true, "result": s})),
        st().prop_map(|s| json!({"okay": false, "cause": s})),
    ]
    .boxed()
}

fn err_body() -> BoxedStrategy<Value> {
    object(vec![("error", st()), ("reason", st()), ("txid", st())])
}

fn framing() -> BoxedStrategy<Framing> {
    prop_oneof![
        3 => Just(Framing::Length),
        1 => any::<u8>().prop_map(Framing::Chunked),
        1 => Just(Framing::UntilClose),
    ]
    .boxed()
}

fn broken() -> BoxedStrategy<Broken> {
    use Broken as B;
    prop_oneof![
        4 => any::<u8>().prop_map(B::Missing),
        5 => (any::<u8>(), any::<u8>()).prop_map(|(a, b)| B::WrongType(a, b)),
        3 => any::<u16>().prop_map(B::CutText),
        1 => prop_oneof![Just(String::new()), Just("null".to_string()), "[a-z<>]{1,12}", Just("[]".into()), Just("\"x\"".into())].prop_map(B::NotJson),
        1 => Just(B::Trailing),
        3 => any::<u16>().prop_map(B::ShortBody),
        2 => any::<u16>().prop_map(B::ShortChunk),
        1 => any::<u8>().prop_map(B::CutHead),
        1 => vec(any::<u8>(), 0..60).prop_map(B::Garbage),
        1 => Just(B::Dropped),
        1 => Just(B::Refused),
        2 => any::<u8>().prop_map(B::WrongShape),
    ]
    .boxed()
}

fn received() -> BoxedStrategy<Received> {
    let small = || tx_with(single().prop_map(AuthM::Std).boxed(), 0);
    let call = prop_oneof![
        Just(Call::Info).boxed(),
        model::addr().prop_map(|a| Call::Address(a.text())).boxed(),
        small().prop_map(Call::Fee).boxed(),
        small().prop_map(Call::Broadcast).boxed(),
        read_only(Just(vec![V::UInt(1)]).boxed()),
    ];
    let status = prop_oneof![
        6 => Just(200u16),
        1 => select(vec![201u16, 202, 203]),
        3 => select(vec![400u16, 401, 403, 404, 409, 413, 429, 499, 500, 501, 502, 503, 504, 599]),
        1 => 400u16..600,
    ];
    let reply = prop_oneof![1 => Just(Reply::Good), 1 => broken().prop_map(Reply::Broken)];
    (call, status, framing(), any::<bool>(), reply, proptest::option::weighted(0.3, ("x_[a-z]{1,5}", prop_oneof![st(), num(), Just(Value::Null), Just(json!({"a": [1]}))])))
        .prop_flat_map(|(call, status, framing, pretty, reply, extra)| {
            let body = match (&call, status) {
                (Call::Broadcast(_), 400..) => err_body(),
                (Call::Broadcast(_), _) => prop_oneof!["[0-9a-f]{64}", text()].prop_map(|s| json!(s)).boxed(),
                (Call::Fee(_), 400..) => prop_oneof![st(), err_body()].boxed(),
                (_, 400..) => prop_oneof![st(), err_body(), info_body(), ro_body(), address_body()].boxed(),
                (Call::Info, _) => info_body(),
                (Call::Address(_), _) => address_body(),
                (Call::Fee(_), _) => fee_body(),
                (Call::ReadOnly { .. }, _) => ro_body(),
            };
            let keep = matches!(call, Call::Broadcast(_)) && status < 400;
            body.prop_map(move |mut body| {
                if let (Value::Object(o), Some((k, v)), false) = (&mut body, &extra, keep) {
                    o.insert(k.clone(), v.clone());
                }
                Received { call: call.clone(), status, body, framing: framing.clone(), pretty, reply: reply.clone() }
            })
        })
        .boxed()
}

/// Known fields of each JSON reply.
fn known(call: &Call, status: u16) -> &'static [&'static str] {
    match (call, status) {
        (Call::Broadcast(_), _) => &["error", "reason", "txid"],
        (Call::Info, _) => &[
            "peer_version", "pox_consensus", "burn_block_height", "stable_pox_consensus", "stable_burn_block_height",
            "server_version", "network_id", "parent_network_id", "stacks_tip_height", "stacks_tip",
            "stacks_tip_consensus_hash", "genesis_chainstate_hash",
        ],
        (Call::Address(_), _) => &["balance", "locked", "unlock_height", "nonce", "balance_proof", "nonce_proof"],
        (Call::Fee(_), _) => &["estimations"],
        (Call::ReadOnly { .. }, _) => &["okay", "result", "cause"],
    }
}

/// Body with unknown fields removed: what a success value must equal.
fn strip(v: &Value, keys: &[&str]) -> Value {
    match v {
        Value::Object(o) => Value::Object(o.iter().filter(|(k, _)| keys.contains(&k.as_str())).map(|(k, v)| (k.clone(), v.clone())).collect::<Map<_, _>>()),
        v => v.clone(),
    }
}

fn body_text(r: &Received, body: &Value) -> String {
    // text replies go out as they are, JSON ones serialized
    match (&r.call, r.status, body) {
        (Call::Broadcast(_), ..=399, Value::String(s)) => {
            if r.pretty {
                json!(s).to_string()
            } else {
                s.clone()
            }
        }
        (_, 400.., Value::String(s)) => s.clone(),
        (_, _, v) if r.pretty => serde_json::to_string_pretty(v).unwrap(),
        (_, _, v) => v.to_string(),
    }
}

fn head(status: u16) -> String {
    format!("HTTP/1.1 {status} Status\r\nContent-Type: application/json; charset=utf-8\r\nConnection: close\r\n")
}

fn frame(status: u16, body: &[u8], f: &Framing) -> Vec<u8> {
    let mut out = head(status).into_bytes();
    match f {
        Framing::Length => {
            out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", body.len()).as_bytes());
            out.extend_from_slice(body);
        }
        Framing::UntilClose => {
            out.extend_from_slice(b"\r\n");
            out.extend_from_slice(body);
        }
        Framing::Chunked(n) => {
            out.extend_from_slice(b"Transfer-Encoding: chunked\r\n\r\n");
            for c in body.chunks(usize::from(*n) + 1) {
                out.extend_from_slice(format!("{:x}\r\n", c.len()).as_bytes());
                out.extend_from_slice(c);
                out.extend_from_slice(b"\r\n");
            }
            out.extend_from_slice(b"0\r\n\r\n");
        }
    }
    out
}

/// What the call must give.
#[derive(Debug)]
enum Want {
    /// One of these values.
    Ok(Vec<Value>),
    Refused(Value),
    Err,
    /// Not decided by the property.
    Any,
    /// An error, or this complete value.
    ErrOr(Box<Want>),
    /// An error; this cut-off text as a value is the listed finding.
    ErrOrCut(String),
}

fn wrong_value(old: &Value, k: u8) -> Value {
    match old {
        Value::String(_) => [json!(5), Value::Null, json!(true), json!(["x"]), json!({"a": "b"})][usize::from(k) % 5].clone(),
        Value::Number(_) => {
            [json!("5"), Value::Null, json!(true), json!([1]), json!({}), json!(-1), json!(1.5), json!(1.8446744073709552e19)][usize::from(k) % 8].clone()
        }
        Value::Bool(_) => [json!("true"), Value::Null, json!(1), json!([true])][usize::from(k) % 4].clone(),
        _ => [json!("x"), Value::Null, json!(3), json!({"fee": 1}), json!([{"fee": 1}]), json!([{"fee_rate": 1.0}]), json!([{"fee": "1", "fee_rate": 1.0}]), json!([{"fee": 1, "fee_rate": "1"}])][usize::from(k) % 8].clone(),
    }
}

/// The bytes to send (or `None` to drop the connection) and what must come of them.
fn plan(r: &Received) -> (Option<Vec<u8>>, Want) {
    use Broken as B;
    let error = r.status >= 400;
    let broadcast_ok = matches!(r.call, Call::Broadcast(_)) && !error;
    // replies whose body is taken as text, so that any complete text is well-formed
    let as_text = broadcast_ok || (matches!(r.call, Call::Fee(_)) && error);
    // replies that are an error whatever the body says
    let always_err = error && !matches!(r.call, Call::Fee(_) | Call::Broadcast(_));
    let text = body_text(r, &r.body);
    let full = |t: &str| {
        if always_err {
            Want::Err
        } else if broadcast_ok {
            let mut v = vec![json!(t)];
            if let Ok(Value::String(s)) = serde_json::from_str::<Value>(t) {
                v.push(json!(s));
            }
            if t.trim().is_empty() {
                Want::Any
            } else {
                Want::Ok(v)
            }
        } else if as_text {
            Want::Refused(json!(t))
        } else {
            Want::Err
        }
    };
    let send = |t: &str, w: Want| (Some(frame(r.status, t.as_bytes(), &r.framing)), w);
    let Reply::Broken(b) = &r.reply else {
        let w = if as_text || always_err {
            full(&text)
        } else {
            let v = strip(&r.body, known(&r.call, r.status));
            if error || (matches!(r.call, Call::ReadOnly { .. }) && v["okay"] == json!(false)) {
                Want::Refused(v)
            } else {
                Want::Ok(vec![v])
            }
        };
        return send(&text, w);
    };
    let fields = known(&r.call, r.status);
    match b {
        B::Missing(_) | B::WrongType(..) if as_text || always_err => send(&text, full(&text)),
        B::Missing(i) => {
            let mut v = r.body.clone();
            let o = v.as_object_mut().unwrap();
            let present: Vec<&&str> = fields.iter().filter(|f| o.contains_key(**f)).collect();
            o.remove(*present[usize::from(*i) % present.len()]);
            send(&body_text(r, &v), Want::Err)
        }
        B::WrongType(i, k) => {
            let mut v = r.body.clone();
            let o = v.as_object_mut().unwrap();
            let present: Vec<String> = fields.iter().filter(|f| o.contains_key(**f)).map(|f| f.to_string()).collect();
            let f = &present[usize::from(*i) % present.len()];
            let mut w = wrong_value(&o[f], *k);
            if f.ends_with("network_id") && k % 2 == 0 {
                w = json!(1u64 << 32);
            }
            o.insert(f.clone(), w);
            send(&body_text(r, &v), Want::Err)
        }
        B::CutText(n) => {
            let mut at = usize::from(*n) % text.len().max(1);
            while !text.is_char_boundary(at) {
                at -= 1;
            }
            send(&text[..at], full(&text[..at]))
        }
        B::NotJson(t) => send(t, full(t)),
        B::WrongShape(k) => {
            let t = match k % 4 {
                0 => format!("[{text}]"),
                1 => "{}".to_string(),
                2 => json!({"result": r.body}).to_string(),
                _ => json!(text).to_string(),
            };
            send(&t, full(&t))
        }
        B::Trailing => {
            let t = format!("{text} x");
            send(&t, full(&t))
        }
        B::ShortBody(n) => {
            let bytes = text.as_bytes();
            let keep = usize::from(*n) % (bytes.len() + 1);
            let mut out = head(r.status).into_bytes();
            // promise at least one byte more than is sent
            out.extend_from_slice(format!("Content-Length: {}\r\n\r\n", bytes.len().max(keep) + 1).as_bytes());
            out.extend_from_slice(&bytes[..keep]);
            (Some(out), Want::Err)
        }
        B::ShortChunk(n) => {
            let mut out = frame(r.status, text.as_bytes(), &Framing::Chunked(7));
            // cut inside the chunks: before the final "0\r\n\r\n"
            let body_at = out.windows(4).position(|w| w == b"\r\n\r\n").unwrap() + 4;
            let cut = body_at + usize::from(*n) % (out.len() - 5 - body_at + 1);
            out.truncate(cut);
            // what a decoder has in hand when the connection ends
            let mut got = vec![];
            let mut rest = &out[body_at..];
            let mut inside = false;
            while let Some(eol) = rest.windows(2).position(|w| w == b"\r\n") {
                let n = usize::from_str_radix(std::str::from_utf8(&rest[..eol]).unwrap(), 16).unwrap();
                rest = &rest[eol + 2..];
                let take = n.min(rest.len());
                got.extend_from_slice(&rest[..take]);
                inside = take < n;
                rest = &rest[(take + 2).min(rest.len())..];
            }
            let text_got = String::from_utf8_lossy(&got).to_string();
            let want = if as_text && inside {
                Want::ErrOrCut(text_got)
            } else if !as_text && !always_err && got == text.as_bytes() {
                let whole = Received { reply: Reply::Good, ..r.clone() };
                Want::ErrOr(Box::new(plan(&whole).1))
            } else {
                Want::Err
            };
            (Some(out), want)
        }
        B::CutHead(n) => {
            let h = head(r.status);
            let first = h.find("\r\n").unwrap();
            (Some(h.as_bytes()[..usize::from(*n) % first].to_vec()), Want::Err)
        }
        B::Garbage(g) => {
            let mut g = g.clone();
            g.insert(0, b'#');
            (Some(g), Want::Err)
        }
        B::Dropped | B::Refused => (None, Want::Err),
    }
}

fn run_received(r: &Received) -> Verdict {
    if matches!(r.reply, Reply::Broken(Broken::Refused)) {
        // nothing listens on port 1
        let out = no_panic("rpc call", || perform(&r.call, "http://127.0.0.1:1"))?;
        return check_outcome(None, plan(r).1, out);
    }
    exchange(r, |base| perform(&r.call, base)).map(|_| ())
}

/// One call answered by `r`; gives back what the server saw.
fn exchange(r: &Received, call: impl FnOnce(&str) -> Out) -> Result<(Out, Vec<Request>), String> {
    let (bytes, want) = plan(r);
    let script = match &bytes {
        Some(b) => Script::Send(b),
        None => Script::Drop,
    };
    let (out, reqs) = with_server(&script, call)?;
    let out = out?;
    check_outcome(bytes, want, out.clone())?;
    Ok((out, reqs))
}

fn check_outcome(bytes: Option<Vec<u8>>, want: Want, out: Out) -> Verdict {
    let sent = bytes.as_deref().map(|b| String::from_utf8_lossy(b).to_string()).unwrap_or_else(|| "nothing".into());
    let want = match want {
        Want::ErrOr(w) if matches!(out, Out::Err(_)) => {
            let _ = w;
            Want::Err
        }
        Want::ErrOr(w) => *w,
        w => w,
    };
    match (&want, &out) {
        (Want::Any, _) => {}
        (Want::ErrOrCut(_), Out::Err(_)) => {}
        (Want::ErrOrCut(t), Out::Ok(g) | Out::Refused(g)) if *g == json!(t) => {
            return Err(format!("KNOWN:chunked-cut: server sent {sent:?}, call gave {out:?}"));
        }
        (Want::Err, Out::Err(_)) => {}
        (Want::Ok(v), Out::Ok(g)) => ensure!(v.contains(g), "server sent {sent:?}, call returned {g}"),
        (Want::Refused(v), Out::Refused(g)) => ensure!(v == g, "server sent {sent:?}, call reported {g}"),
        _ => return Err(format!("server sent {sent:?}: call gave {out:?}, expected {want:?}")),
    }
    Ok(())
}

pub fn c24() -> Property {
    Property {
        id: "C24",
        subs: vec![Box::new(SubCheck {
            name: "response",
            rule: "random well-formed replies (all value ranges, extra fields, three framings, success and error statuses) and broken ones \
                   (missing or wrong-typed fields, cut text, short bodies, dropped connections); non-trivial: a success reply or a broken one",
            quick: 24_000,
            thorough: 120_000,
            strategy: received,
            classify: |r| {
                let kind = match &r.reply {
                    Reply::Good if r.status < 400 => "success",
                    Reply::Good => "error-status",
                    Reply::Broken(_) => "broken",
                };
                class(kind != "error-status", vec![r.call.kind(), kind])
            },
            run: run_received,
        }),
        Box::new(SubCheck {
            name: "session",
            rule: "two to five calls through one client, each answered by its own reply as above; every call must send its own request and \
                   report its own reply; non-trivial: two calls of one kind",
            quick: 10_000,
            thorough: 40_000,
            strategy: session,
            classify: |v| {
                let repeated = v.iter().enumerate().any(|(i, a)| v[..i].iter().any(|b| b.call.kind() == a.call.kind()));
                class(repeated, v.iter().map(|r| r.call.kind()).collect())
            },
            run: run_session,
        })],
        assumptions: &[
            "redirects and timeouts are not generated; bodies are UTF-8",
            "fee rates are multiples of 0.25, so that their decimal text is exact",
        ],
    }
}
