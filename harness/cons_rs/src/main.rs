//! Drives generated Rust consumers through scenarios; one JSON scenario per line in, one recorded trace per line out.
#![allow(clippy::all, dead_code)]
mod fake;
mod rec;
include!("mods.rs");
use clibri::client::{Event, Message};
use fake::{FakeClient, FakeControl, FakeError};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::io::{BufRead, Write};
use tokio::time::Duration;

type Map = HashMap<String, String>;
type Fut<T> = std::pin::Pin<Box<dyn std::future::Future<Output = T>>>;
pub struct Cons { enc: fn(&str, &Map, u32) -> Vec<u8>, dec: rec::Dec, start: fn(FakeClient, u64, u64, Vec<String>) -> Fut<()>, call: fn(String, String, String, bool) -> Fut<Value>, keep: fn() -> Fut<bool>, shutdown: fn(bool) -> Fut<bool>, key: &'static str }

fn map(v: &Value) -> Map { v.as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default() }
fn s<'a>(v: &'a Value, k: &str) -> &'a str { v[k].as_str().unwrap_or("") }
const NOBODY: u32 = 0xf000_0000;
/// The number a token refers to, and whose it is now.
fn refer(r: &str) -> (u32, String) {
    if r == "0" { return (0, "0".into()); }
    rec::with(|s| {
        let q = s.sent.get(r).cloned().unwrap_or(NOBODY);
        match s.owner.get(&q) { Some(o) => (q, o.clone()), None => (NOBODY, "none".into()) }
    })
}
fn bytes(p: &Cons, tokens: &Value) -> (Vec<u8>, Vec<String>) {
    let (mut out, mut refs) = (vec![], vec![]);
    for t in tokens.as_array().unwrap() {
        let (mut q, mut who) = refer(s(t, "ref"));
        if s(t, "t") == "A" { rec::with(|x| x.half = q) }
        if s(t, "t") == "B" { rec::with(|x| { q = x.half; if q != 0 { who = x.owner.get(&q).cloned().unwrap_or_else(|| "none".into()) } else { who = "0".into() } }) }
        refs.push(who);
        let mut b = (p.enc)(s(t, "m"), &map(&t["f"]), q);
        match s(t, "t") {
            "A" => { let n = b.len() / 2; out.extend_from_slice(&b[..n]) }
            "B" => { let n = b.len() / 2; out.extend_from_slice(&b[n..]) }
            "sig" => { b[4] ^= 0x5a; out.append(&mut b) }
            "id" => { b[0] = 0xfe; b[1] = 0xff; b[2] = 0xff; b[3] = 0x7f; out.append(&mut b) }
            "body" => { for x in b[26..].iter_mut() { *x = 0xff } out.append(&mut b) }
            _ => out.append(&mut b),
        }
    }
    (out, refs)
}
async fn settle() {
    let mut quiet = 0;
    let mut n = rec::len();
    while quiet < 24 {
        tokio::task::yield_now().await;
        let m = rec::len();
        if m == n { quiet += 1 } else { quiet = 0; n = m }
    }
}
/// Many calls, one after the other, each answered at once: those that got their own answer are counted, the first other one stays in the log.
async fn mass(p: &Cons, ctl: &FakeControl, st: &Value) {
    let (m, ans, k, n) = (s(st, "m").to_string(), s(st, "ans").to_string(), s(st, "k").to_string(), st["count"].as_u64().unwrap());
    let mut ok = 0u64;
    for i in 0..n {
        let (call, back, at) = (format!("m{}", i), format!("r{}", i), rec::len());
        let f = (p.call)(m.clone(), call.clone(), String::new(), false);
        let got = std::rc::Rc::new(std::cell::RefCell::new(None));
        let put = got.clone();
        let job = tokio::task::spawn_local(async move { let r = f.await; *put.borrow_mut() = Some(r); });
        for _ in 0..200 { if rec::len() > at { break } tokio::task::yield_now().await; }
        let who = format!("call:{}", call);
        let (q, _) = refer(&who);
        ctl.event(Event::Message(Message::Binary((p.enc)(&ans, &[("tag".to_string(), back.clone())].into_iter().collect(), q))));
        for _ in 0..400 { if got.borrow().is_some() { break } tokio::task::yield_now().await; }
        let r = match got.borrow_mut().take() { Some(r) => r, None => { job.abort(); rec::push(json!({"op": "mass unanswered", "at": i})); break; } };
        let own = rec::with(|x| {
            let one = x.log.len() == at + 1 && x.log[at]["op"] == "send" && x.log[at]["who"] == who.as_str() && x.log[at]["m"] == m.as_str() && x.log[at]["q"] == "own";
            let res = r["k"] == k.as_str() && r["m"] == ans.as_str() && r["tag"] == back.as_str();
            if one && res { x.log.truncate(at); x.owner.remove(&q); x.sent.remove(&who); }
            one && res
        });
        if !own { rec::push(json!({"op": "mass not its own answer", "at": i})); break; }
        ok += 1;
    }
    settle().await;
    rec::push(json!({"op": "mass", "n": st["n"], "ok": ok}));
}
type Jobs = HashMap<String, tokio::task::JoinHandle<()>>;
async fn begin(v: &Value) -> (Cons, FakeControl) {
    let p = consumer(s(v, "flow"));
    rec::with(|st| {
        *st = rec::State::default();
        st.dec = Some(p.dec);
        st.key = p.key.to_string();
        st.again = v["again"].as_bool().unwrap();
        st.live = v["live"].as_bool().unwrap_or(false);
    });
    let ctl = FakeControl::default();
    let keyv: Vec<String> = v["key"].as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
    (p.start)(FakeClient(ctl.clone()), v["reconnect"].as_u64().unwrap(), v["timeout"].as_u64().unwrap(), keyv).await;
    settle().await;
    (p, ctl)
}
async fn stimulus(p: &Cons, ctl: &FakeControl, jobs: &mut Jobs, st: &Value, data: Vec<u8>) {
    match s(st, "t") {
        "cli" => ctl.event(match s(st, "k") {
            "connected" => Event::Connected("127.0.0.1:1".parse().unwrap()),
            "disconnected" => Event::Disconnected,
            "error" => Event::Error(FakeError("client".into())),
            "text" => Event::Message(Message::Text("text".into())),
            _ => Event::Message(Message::Ping(vec![1])) }),
        "msg" => ctl.event(Event::Message(Message::Binary(data))),
        "raw" => ctl.event(Event::Message(Message::Binary(rec::unhex(s(st, "hex"))))),
        "close" => ctl.end(if s(st, "k") == "ok" { Ok(()) } else { Err(FakeError("connect".into())) }),
        "call" => {
            let f = (p.call)(s(st, "m").into(), s(st, "tag").into(), s(st, "script").into(), s(st, "h") == "kept");
            let n = st["n"].clone();
            jobs.insert(s(st, "tag").into(), tokio::task::spawn_local(async move { let mut r = f.await; r["op"] = json!("res"); r["n"] = n; rec::push(r); }));
        }
        "mass" => mass(p, ctl, st).await,
        "abandon" => if let Some(j) = jobs.remove(s(st, "of")) { j.abort(); },
        "keep" => { let f = (p.keep)(); tokio::task::spawn_local(async move { f.await; }); }
        "shutdown" => {
            let (f, n) = ((p.shutdown)(s(st, "h") == "kept"), st["n"].clone());
            tokio::task::spawn_local(async move { let ok = f.await; rec::push(json!({"op": "released", "n": n, "ok": ok})); });
        }
        "plan" => rec::with(|x| { let mut a = st["a"].clone(); a["n"] = st["n"].clone(); x.plan.push(a) }),
        "go" => rec::gate().notify_waiters(),
        "tick" => tokio::time::advance(Duration::from_millis(st["ms"].as_u64().unwrap())).await,
        "fault" => rec::with(|x| x.fault = st["on"].as_bool().unwrap()),
        x => panic!("no stimulus {}", x),
    }
}
async fn scenario(v: &Value) -> Value {
    let (p, ctl) = begin(v).await;
    let mut jobs = Jobs::new();
    rec::push(json!({"op": "settled"}));
    for burst in v["steps"].as_array().unwrap() {
        for st in burst.as_array().unwrap() {
            let mut refs = vec![];
            let mut data = vec![];
            if s(st, "t") == "msg" { let (d, r) = bytes(&p, &st["c"]); data = d; refs = r; }
            rec::push(json!({"op": "stim", "s": st["n"], "refs": refs}));
            stimulus(&p, &ctl, &mut jobs, st, data).await;
        }
        settle().await;
        rec::push(json!({"op": "settled"}));
    }
    rec::with(|st| json!({"id": v["id"], "trace": std::mem::take(&mut st.log)}))
}
/// Bursts of stimuli one by one, each answered by what came of it, until a line "end".
async fn live(v: &Value, next: &mut dyn FnMut() -> Option<Value>) {
    let (p, ctl) = begin(v).await;
    let mut jobs = Jobs::new();
    rec::answer();
    while let Some(l) = next() {
        let mut end = false;
        for st in l.as_array().into_iter().flatten() {
            if s(st, "t") == "end" { end = true; break; }
            stimulus(&p, &ctl, &mut jobs, st, vec![]).await;
        }
        if end { break; }
        settle().await;
        rec::answer();
    }
}
fn main() {
    std::panic::set_hook(Box::new(|i| rec::push(json!({"op": "panic", "at": i.to_string()}))));
    let stdin = std::io::stdin();
    let mut lines = stdin.lock().lines();
    let mut out = std::io::BufWriter::new(std::io::stdout());
    while let Some(line) = lines.next() {
        let v: Value = serde_json::from_str(&line.unwrap()).expect("scenario");
        let rt = tokio::runtime::Builder::new_current_thread().enable_time().start_paused(true).build().unwrap();
        let local = tokio::task::LocalSet::new();
        if v["live"].as_bool().unwrap_or(false) {
            local.block_on(&rt, live(&v, &mut || lines.next().map(|l| serde_json::from_str(&l.unwrap()).expect("stimulus"))));
            rec::with(|s| *s = rec::State::default());
            continue;
        }
        let r = local.block_on(&rt, scenario(&v));
        rec::with(|s| *s = rec::State::default());
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}
