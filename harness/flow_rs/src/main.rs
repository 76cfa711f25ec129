//! Drives generated Rust producers through scenarios; one JSON scenario per line in, one recorded trace per line out.
#![allow(clippy::all, dead_code)]
mod fake;
mod rec;
include!("mods.rs");
use clibri::server::Events;
use fake::{FakeError, FakeServer};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};

type Map = HashMap<String, String>;
pub struct Prod { enc: fn(&str, &Map, u32) -> Vec<u8>, dec: fn(&[u8]) -> Result<Vec<(String, u32, Map)>, String>, hash: fn() -> (&'static str, &'static str), run: RunFn, event: EventFn, shutdown: ShutFn, disconnect: DiscFn, ident: fn(&str, &str, &Vec<String>, bool) -> bool }
type Fut<T> = std::pin::Pin<Box<dyn std::future::Future<Output = T>>>;
type RunFn = fn(FakeServer, String, String) -> Fut<bool>;
type EventFn = fn(String, String, String) -> Fut<bool>;
type ShutFn = fn(bool) -> Fut<bool>;
type DiscFn = fn(String) -> Fut<bool>;

fn map(v: &Value) -> Map { v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default() }
fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("") }

/// A fingerprint that differs from the right one in a certain way.
fn spoil(own: &str, other: &str, how: &str) -> String {
    let flip = |c: &str| if c == "0" { "1" } else { "0" };
    let n = own.len();
    match how {
        "" => own.to_string(),
        "lower" => own.to_lowercase(),
        "half" => own[..n / 2].to_string(),
        "empty" => String::new(),
        "twice" => format!("{}{}", own, own),
        "tail" => format!("{}0", own),
        "cut" => own[1..].to_string(),
        "swap" => other.to_string(),
        "last" => format!("{}{}", &own[..n - 1], flip(&own[n - 1..])),
        "first" => format!("{}{}", flip(&own[..1]), &own[1..]),
        "pad" => format!("{} ", own),
        _ => "bad".to_string(),
    }
}
fn message(p: &Prod, t: &Value) -> Vec<u8> {
    let mut f = map(&t["f"]);
    let h = (p.hash)();
    for v in f.values_mut() {
        if let Some(n) = v.strip_prefix('@') {
            let (n, how) = n.split_once('!').unwrap_or((n, ""));
            let (own, other) = if n == "protocol" { h } else { (h.1, h.0) };
            *v = spoil(own, other, how);
        }
    }
    (p.enc)(s(t, "m"), &f, t["q"].as_u64().unwrap_or(1) as u32)
}
fn bytes(p: &Prod, tokens: &Value) -> Vec<u8> {
    let mut out = vec![];
    for t in tokens.as_array().unwrap() {
        let mut b = message(p, t);
        match s(t, "t") {
            "A" => { let n = b.len() / 2; out.extend_from_slice(&b[..n]) }
            "B" => { let n = b.len() / 2; out.extend_from_slice(&b[n..]) }
            "sig" => { b[4] ^= 0x5a; out.append(&mut b) }
            "id" => { b[0] = 0xfe; b[1] = 0xff; b[2] = 0xff; b[3] = 0x7f; out.append(&mut b) }
            "body" => { let n = b.len(); b[n - 1] ^= 0; let l = (n - 26) as u64; for x in b[26..].iter_mut() { *x = 0xff } b[18..26].copy_from_slice(&l.to_le_bytes()); out.append(&mut b) }
            _ => out.append(&mut b),
        }
    }
    out
}
async fn settle() {
    let mut quiet = 0;
    let mut n = rec::len();
    while quiet < 16 {
        tokio::task::yield_now().await;
        let m = rec::len();
        if m == n { quiet += 1 } else { quiet = 0; n = m }
    }
}
fn begin(v: &Value) -> (Prod, FakeServer) {
    let p = producer(s(v, "flow"));
    rec::with(|st| {
        *st = rec::State::default();
        st.dec = Some(p.dec);
        st.live = v["live"].as_bool().unwrap_or(false);
        for (k, c) in v["cfg"].as_object().into_iter().flatten() { st.cfg.insert(k.clone(), (s(c, "tag").to_string(), s(c, "script").to_string())); }
    });
    (p, FakeServer::new())
}
async fn stimulus(p: &Prod, ctl: &fake::FakeControl, st: &Value) {
    let u = s(st, "u");
    match s(st, "t") {
        "ready" => { let _ = ctl.events.send(Events::Ready); }
        "connect" => { let _ = ctl.events.send(Events::Connected(rec::uuid(u))); }
        "disconnect" => { let _ = ctl.events.send(Events::Disconnected(rec::uuid(u))); }
        "recv" => { let _ = ctl.events.send(Events::Received(rec::uuid(u), bytes(p, &st["c"]))); }
        "raw" => { let _ = ctl.events.send(Events::Received(rec::uuid(u), rec::unhex(s(st, "hex")))); }
        "srverr" => { let _ = ctl.events.send(match s(st, "k") {
            "Error" => Events::Error(Some(rec::uuid(u)), "error".into()),
            "ConnectionError" => Events::ConnectionError(Some(rec::uuid(u)), FakeError("error".into())),
            _ => Events::ServerError(FakeError("error".into())) }); }
        "srvdown" => { let _ = ctl.events.send(Events::Shutdown); }
        "listen" => { let _ = ctl.end.send(if s(st, "k") == "ok" { Ok(()) } else { Err(FakeError("listen".into())) }); }
        "event" => { let _ = (p.event)(s(st, "e").into(), s(st, "tag").into(), s(st, "script").into()).await; }
        "ident" => { let k: Vec<String> = st["key"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                     (p.ident)(u, s(st, "k"), &k, st["ow"].as_bool().unwrap()); }
        "fault" => rec::with(|x| { x.fault = st["l"].as_array().unwrap().iter().map(|x| rec::uuid(x.as_str().unwrap())).collect() }),
        "shutdown" => {
            let (n, wait, f) = (st["n"].clone(), st["wait"].as_bool().unwrap(), p.shutdown);
            tokio::task::spawn_local(async move { f(wait).await; if wait { rec::push(json!({"op": "released", "n": n})); } });
            tokio::task::yield_now().await;
        }
        "go" => rec::gate().notify_waiters(),
        x => panic!("no stimulus {}", x),
    }
}
fn start(v: &Value, p: &Prod, server: FakeServer) -> tokio::task::JoinHandle<()> {
    let (ids, errs, run) = (s(v, "ids").to_string(), s(v, "errs").to_string(), p.run);
    tokio::task::spawn_local(async move { let ok = run(server, ids, errs).await; rec::push(json!({"op": "end", "ok": ok})); })
}
async fn scenario(v: &Value) -> Value {
    let (p, server) = begin(v);
    let ctl = server.control.clone();
    let job = start(v, &p, server);
    settle().await;
    for burst in v["steps"].as_array().unwrap() {
        for st in burst.as_array().unwrap() {
            rec::push(json!({"op": "stim", "s": st["n"]}));
            stimulus(&p, &ctl, st).await;
        }
        settle().await;
        rec::push(json!({"op": "settled"}));
    }
    job.abort();
    rec::with(|st| json!({"id": v["id"], "trace": std::mem::take(&mut st.log)}))
}
/// Stimuli one by one, each answered by what came of it, until a line "end".
async fn live(v: &Value, next: &mut dyn FnMut() -> Option<Value>) {
    let (p, server) = begin(v);
    let ctl = server.control.clone();
    let job = start(v, &p, server);
    settle().await;
    rec::answer();
    while let Some(st) = next() {
        if s(&st, "t") == "end" { break; }
        stimulus(&p, &ctl, &st).await;
        settle().await;
        rec::answer();
    }
    job.abort();
}
fn main() {
    std::panic::set_hook(Box::new(|i| rec::push(json!({"op": "panic", "at": i.to_string()}))));
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    while let Some(line) = lines.next() {
        let v: Value = serde_json::from_str(&line.unwrap()).expect("scenario");
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().unwrap();
        let local = tokio::task::LocalSet::new();
        if v["live"].as_bool().unwrap_or(false) {
            local.block_on(&rt, live(&v, &mut || lines.next().map(|l| serde_json::from_str(&l.unwrap()).expect("stimulus"))));
            continue;
        }
        let r = local.block_on(&rt, scenario(&v));
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}
