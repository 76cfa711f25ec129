//! What the user handlers, the callers and the stand-in transport saw, in order.
use serde_json::{json, Value};
use std::{any::Any, cell::RefCell, collections::HashMap};

pub type Dec = fn(&[u8]) -> Result<Vec<(String, u32, HashMap<String, String>)>, String>;
#[derive(Default)]
pub struct State {
    pub log: Vec<Value>,
    pub again: bool,
    pub fault: bool,
    pub live: bool,
    pub ctx: u64,                             // how often user code has seen its context
    pub dec: Option<Dec>,
    pub key: String,
    pub sent: HashMap<String, u32>,           // who was given which sequence number last
    pub half: u32,                            // the number the last first half carried
    pub owner: HashMap<u32, String>,          // whose number it is in this session
    pub plan: Vec<Value>,                     // what handlers are going to do
    pub gate: std::sync::Arc<tokio::sync::Notify>,
    pub getter: Option<std::rc::Rc<dyn Any>>,
    pub kept: Option<std::rc::Rc<dyn Any>>,
}
thread_local! { static S: RefCell<State> = RefCell::new(State::default()); }
pub fn with<T>(f: impl FnOnce(&mut State) -> T) -> T { S.with(|s| f(&mut s.borrow_mut())) }
pub fn push(v: Value) { with(|s| s.log.push(v)) }
pub fn len() -> usize { with(|s| s.log.len()) }
pub fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{:02x}", x)).collect() }
pub fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect() }
/// What has happened since the last answer.
pub fn answer() {
    use std::io::Write;
    let out = with(|s| json!({"out": std::mem::take(&mut s.log)}));
    let mut o = std::io::stdout();
    writeln!(o, "{}", out).unwrap();
    o.flush().unwrap();
}
pub fn kind(dbg: &str) -> String { dbg.chars().take_while(|c| c.is_alphanumeric()).collect() }
/// The context of the user is the same one all the time.
pub fn ctx(n: &mut u64) { *n += 1; let own = with(|s| { s.ctx += 1; s.ctx }); if *n != own { ev("another context", "") } }
pub fn ev(k: &str, x: &str) { push(json!({"op": "ev", "k": k, "x": x})) }
pub fn bcast(m: &str, tag: &str) { push(json!({"op": "bcast", "m": m, "tag": tag})) }
pub fn plan(on: &str) -> Option<Value> { with(|s| s.plan.iter().position(|p| p["on"] == on).map(|i| s.plan.remove(i))) }
pub fn gate() -> std::sync::Arc<tokio::sync::Notify> { with(|s| s.gate.clone()) }
pub fn again() -> bool { with(|s| s.again) }
pub fn open() { with(|s| { s.owner.clear(); s.log.push(json!({"op": "open"})); }) }
pub fn sent(bytes: &[u8]) {
    let dec = with(|s| s.dec).expect("decoder");
    match dec(bytes) {
        Ok(l) if l.len() == 1 => {
            let (m, q, f) = l[0].clone();
            with(|s| {
                let who = if m == s.key { "key".to_string() } else if m.ends_with(".HashRequest") { "hash".to_string() } else { format!("call:{}", f.get("tag").cloned().unwrap_or_default()) };
                let own = q != 0 && !s.owner.contains_key(&q);
                s.owner.insert(q, who.clone());
                s.sent.insert(who.clone(), q);
                let mut r = json!({"op": "send", "m": m, "who": who, "q": if own { "own" } else { "used" }, "f": f});
                if s.live { r["hex"] = json!(hex(bytes)); r["seq"] = json!(q); }
                s.log.push(r);
            });
        }
        r => push(json!({"op": "send", "m": "?", "who": "?", "q": "?", "f": {"bytes": format!("{:?} {:?}", bytes, r)}})),
    }
}
