//! What the user handlers and the stand-in transport saw, in order.
use serde_json::{json, Value};
use std::{any::Any, cell::RefCell, collections::HashMap};
use uuid::Uuid;

#[derive(Default)]
pub struct State {
    pub log: Vec<Value>,
    pub cfg: HashMap<String, (String, String)>,
    pub control: Option<Box<dyn Any>>,
    pub kept: HashMap<Uuid, Box<dyn Any>>,
    pub fault: Vec<Uuid>,
    pub live: bool,
    pub gate: std::sync::Arc<tokio::sync::Notify>,
    pub ctx: u64,                             // how often user code has seen its context
    pub dec: Option<fn(&[u8]) -> Result<Vec<(String, u32, HashMap<String, String>)>, String>>,
}
thread_local! { static S: RefCell<State> = RefCell::new(State::default()); }
pub fn with<T>(f: impl FnOnce(&mut State) -> T) -> T { S.with(|s| f(&mut s.borrow_mut())) }
pub fn push(v: Value) { with(|s| s.log.push(v)) }
pub fn len() -> usize { with(|s| s.log.len()) }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect() }
/// What has happened since the last answer.
pub fn answer() {
    use std::io::Write;
    let out = with(|s| json!({"out": std::mem::take(&mut s.log)}));
    let mut o = std::io::stdout();
    writeln!(o, "{}", out).unwrap();
    o.flush().unwrap();
}

/// "c7" <-> a uuid
pub fn uuid(n: &str) -> Uuid { Uuid::from_u128(0x1000 + n[1..].parse::<u128>().expect("connection name")) }
pub fn name(u: &Uuid) -> String { let v = u.as_u128(); if (0x1000..0x2000).contains(&v) { format!("c{}", v - 0x1000) } else { format!("?{}", u) } }
fn names(l: Vec<Uuid>) -> Vec<String> { let mut v: Vec<String> = l.iter().map(name).collect(); v.sort(); v }

#[allow(clippy::too_many_arguments)]
pub fn call(kind: &str, h: &str, u: Option<Uuid>, tag: &str, key: Option<Vec<String>>, asg: Option<Vec<String>>,
            all: Vec<Uuid>, exc: Vec<Uuid>, ecl: Vec<Uuid>, byk: Vec<Uuid>, bya: Vec<Uuid>, any: Vec<Uuid>, ecm: Vec<Uuid>) {
    push(json!({"op": "call", "k": kind, "h": h, "u": u.map(|u| name(&u)).unwrap_or_default(), "tag": tag,
        "key": key.unwrap_or_default(), "asg": asg.unwrap_or_default(), "all": names(all), "exc": names(exc), "ecl": names(ecl), "byk": names(byk), "bya": names(bya), "any": names(any), "ecm": names(ecm)}));
}
/// The context of the user is the same one all the time.
pub fn ctx(n: &mut u64) { *n += 1; let own = with(|s| { s.ctx += 1; s.ctx }); if *n != own { plain("another context") } }
pub fn plain(h: &str) { push(json!({"op": "call", "k": "plain", "h": h, "u": "", "tag": "", "key": [], "asg": [], "all": [], "exc": [], "ecl": [], "byk": [], "bya": [], "any": [], "ecm": []})) }
pub fn defer(h: &str, tag: &str) { push(json!({"op": "defer", "h": h, "tag": tag})) }
pub fn error(dbg: &str, u: Option<Uuid>, idu: Option<Uuid>, key: Option<Vec<String>>, asg: Option<Vec<String>>) {
    let kind: String = dbg.chars().take_while(|c| c.is_alphanumeric()).collect();
    push(json!({"op": "error", "k": kind, "u": u.map(|u| name(&u)).unwrap_or_default(), "idu": idu.map(|u| name(&u)).unwrap_or_default(),
        "key": key.unwrap_or_default(), "asg": asg.unwrap_or_default()}));
}
pub fn cfg(e: &str) -> (String, String) { with(|s| s.cfg.get(e).cloned().unwrap_or((e.to_string(), String::new()))) }
pub fn gate() -> std::sync::Arc<tokio::sync::Notify> { with(|s| s.gate.clone()) }
pub fn set_control(c: Box<dyn Any>) { with(|s| s.control = Some(c)) }
pub fn with_control<T>(f: impl FnOnce(&Box<dyn Any>) -> T) -> Option<T> { with(|s| s.control.as_ref().map(f)) }
pub fn keep<T: 'static>(u: Uuid, i: T) { with(|s| { s.kept.insert(u, Box::new(i)); }) }
pub fn kept<T>(u: Uuid, f: impl FnOnce(&Box<dyn Any>) -> T) -> Option<T> { with(|s| s.kept.get(&u).map(f)) }

/// What a handler was told to decide.
#[derive(Default)]
pub struct Script { pub o: String, pub c: String, b: Vec<(String, Vec<String>)>, pub k: Option<(Vec<String>, bool)>, pub a: Option<(Vec<String>, bool)>, pub x: Option<String>, pub d: bool, pub w: bool }
fn strs(v: &Value) -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap_or("").to_string()).collect()).unwrap_or_default() }
impl Script {
    pub fn parse(s: &str) -> Script {
        if s.is_empty() { return Script { o: "ok".into(), ..Default::default() } }
        let v: Value = serde_json::from_str(s).expect("script");
        let key = |n: &str| v.get(n).filter(|x| x.as_array().map(|a| a.len() == 2).unwrap_or(false)).map(|x| (strs(&x[0]), x[1].as_bool().unwrap_or(false)));
        Script { o: v["o"].as_str().unwrap_or("ok").into(), c: v["c"].as_str().unwrap_or("").into(),
            b: v["b"].as_array().map(|a| a.iter().map(|x| (x["t"].as_str().unwrap_or("none").to_string(), strs(&x["l"]))).collect()).unwrap_or_default(),
            k: key("k"), a: key("a"), x: v["x"].as_str().filter(|x| !x.is_empty()).map(|x| x.to_string()), d: v["d"].as_bool().unwrap_or(false), w: v["w"].as_bool().unwrap_or(false) }
    }
    pub fn sub(&self, t: &str, i: usize) -> String { format!("{}#{}", t, i) }
    pub fn sub2(&self, t: &str, c: &str) -> String { format!("{}:{}", t, c) }
    #[allow(clippy::too_many_arguments)]
    pub fn to(&self, i: usize, all: impl Fn() -> Vec<Uuid>, except: impl Fn(&Uuid) -> Vec<Uuid>, exclude: impl Fn(Vec<Uuid>) -> Vec<Uuid>,
              byk: &impl Fn(&str) -> Vec<Uuid>, bya: &impl Fn() -> Vec<Uuid>, me: Option<Uuid>) -> Option<Vec<Uuid>> {
        let (t, l) = self.b.get(i)?;
        let l0 = || l.first().cloned().unwrap_or_default();
        match t.as_str() {
            "none" => None,
            "all" => Some(all()),
            "except" => Some(except(&me.unwrap_or_else(|| uuid(&l0())))),
            "exclude" => Some(exclude(l.iter().map(|x| uuid(x)).collect())),
            "keyed" => Some(byk(&l0())),
            "asgd" => Some(bya()),
            _ => Some(l.iter().map(|x| uuid(x)).collect()),
        }
    }
}
