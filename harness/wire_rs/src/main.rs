#![allow(non_snake_case, non_camel_case_types, dead_code, unused_imports, unused_macros)]
use serde_json::{json, Value};
use std::io::{BufRead, Write};
mod val;
pub struct Got { pub t: &'static str, pub v: Value, pub id: u32, pub sig: u16, pub seq: u32, pub len: u64 }
pub trait Reader { fn chunk(&mut self, b: &[u8]) -> Result<(), String>; fn drain(&mut self) -> Vec<Got>; fn left(&self) -> usize; }
macro_rules! harness_reader { () => {
    struct R(p::Buffer<p::AvailableMessages>);
    impl crate::Reader for R {
        fn chunk(&mut self, b: &[u8]) -> Result<(), String> {
            self.0.chunk(&b.to_vec(), None).map_err(|e| match e {
                p::ReadError::Header(_) => "header".to_string(),
                p::ReadError::Parsing(_) => "parsing".to_string(),
                p::ReadError::Signature(_) => "signature".to_string() })
        }
        fn drain(&mut self) -> Vec<crate::Got> {
            let mut o = vec![];
            while let Some(m) = self.0.next() {
                let (t, v) = rd(&m.msg);
                o.push(crate::Got { t, v, id: m.header.id, sig: m.header.signature, seq: m.header.sequence, len: m.header.len });
            }
            o
        }
        fn left(&self) -> usize { self.0.len() }
    }
    pub fn reader() -> Box<dyn crate::Reader> { Box::new(R(p::Buffer::new())) }
    pub fn hash() -> String { p::hash() }
} }
pub struct Mod { pub pack: fn(&str, &Value, u32) -> Result<Vec<u8>, String>, pub reader: fn() -> Box<dyn Reader>, pub hash: fn() -> String }
include!("mods.rs");

fn run(c: &Value) -> Value {
    let m = module(c["m"].as_str().unwrap());
    match c["o"].as_str().unwrap() {
        "p" => match (m.pack)(c["t"].as_str().unwrap(), &c["v"], c["s"].as_u64().unwrap() as u32) {
            Ok(b) => json!({ "b": val::hex(&b) }), Err(e) => json!({ "e": e }) },
        "h" => json!({ "h": (m.hash)() }),
        "r" => {
            let mut r = (m.reader)();
            let mut out = vec![];
            for ch in c["c"].as_array().unwrap() {
                let s = match r.chunk(&val::unhex(ch.as_str().unwrap())) { Ok(()) => "ok".to_string(), Err(e) => e };
                let ms: Vec<Value> = r.drain().into_iter().map(|g| json!([g.t, g.v, g.id, g.sig, g.seq, g.len])).collect();
                out.push(json!([s, ms, r.left()]));
            }
            json!({ "r": out })
        }
        _ => panic!("bad op"),
    }
}

fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    let stdin = std::io::stdin();
    let out = std::io::stdout();
    let mut out = std::io::BufWriter::new(out.lock());
    for line in stdin.lock().lines() {
        let line = line.unwrap();
        let c: Value = serde_json::from_str(&line).unwrap();
        if c["o"] == "x" { out.flush().unwrap(); continue; }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run(&c))).unwrap_or_else(|e| {
            let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            json!({ "panic": m })
        });
        writeln!(out, "{}", r).unwrap();
        out.flush().unwrap();
    }
}
