"""Workflows as data: their protocol and workflow sources, and the user handlers of the generated code."""
import json, os, re, shutil
from . import core

LOCKED = ["--locked"]
SERVICE = {"InternalServiceGroup.SelfKeyResponse": [("uuid", False)],
           "InternalServiceGroup.HashRequest": [("protocol", False), ("workflow", False)],
           "InternalServiceGroup.HashResponse": [("error", True)],
           "InternalServiceGroup.BeaconConfirmation": [("error", True)],
           "InternalServiceGroup.ConnectConfirmationBeacon": []}

class Flow:
    """requests: [{ref, err, actions: [{conc, resp, bc: [(ref, optional)]}]}]; events: [{ref, bc}]; beacons: [ref]
    fields of every message are strings: msgs: {path: [(field, optional)]}"""
    def __init__(self, name, selfkey, assigned, msgs, requests, beacons, events, order=None):
        self.name, self.selfkey, self.assigned, self.msgs = name, selfkey, assigned, msgs
        self.requests, self.beacons, self.events = requests, beacons, events

    # ---- sources ----
    def protocol(self):
        tree = {}
        for path in self.msgs:
            t = tree
            *g, n = path.split(".")
            for x in g:
                t = t.setdefault(x, {})
            t[n] = self.msgs[path]
        def emit(t, ind):
            out = []
            for n, v in t.items():
                if isinstance(v, dict):
                    out += [ind + "group %s {" % n] + emit(v, ind + "    ") + [ind + "}"]
                else:
                    out += [ind + "struct %s {" % n] + [ind + "    str %s%s;" % (f, "?" if o else "") for f, o in v] + [ind + "}"]
            return out
        return "\n".join(emit(tree, "")) + "\n"

    def workflow(self, producer=("rust",), consumer=("rust",)):
        out = ["&config {"]
        if self.selfkey: out.append("    SelfKey: %s;" % self.selfkey)
        if self.assigned: out.append("    AssignedKey: %s;" % self.assigned)
        if producer: out.append("    Producer: %s;" % " ".join(producer))
        if consumer: out.append("    Consumer: %s;" % " ".join(consumer))
        out.append("}")
        b = lambda bc: "".join("\n        > %s%s;" % (r, "?" if o else "") for r, o in bc)
        for r in self.requests:
            out.append("%s%s {" % (r["ref"], " !" + r["err"] if r["err"] else ""))
            for a in r["actions"]:
                if plain(r):
                    out.append("    (%s);" % a["resp"])
                else:
                    h = "    (%s > %s)" % (a["conc"], a["resp"])
                    out.append(h + (b(a["bc"]).replace("\n        ", " ", 1) if a["bc"] else ";"))
            out.append("}")
        for e in self.events:
            out.append("@%s {%s\n}" % (e["ref"], b(e["bc"])))
        if self.beacons:
            out.append("@beacons {%s\n}" % b([(x, False) for x in self.beacons]))
        return "\n".join(out) + "\n"

    def all_msgs(self):
        m = dict(self.msgs)
        m.update(SERVICE)
        return m

    def broadcasts(self):
        out = []
        for src in [a["bc"] for r in self.requests for a in r["actions"]] + [e["bc"] for e in self.events]:
            for r, _ in src:
                if r not in out: out.append(r)
        return out

    def json(self):
        """What the specifications are told about the workflow (sequences and records of strings only)."""
        bc = lambda l: [{"m": r, "opt": bool(o)} for r, o in l]
        return {"name": self.name,
                "requests": {r["ref"]: {"err": r["err"], "acts": {(a["conc"] or "_"): {"resp": a["resp"], "bc": bc(a["bc"])} for a in r["actions"]}} for r in self.requests},
                "beacons": list(self.beacons), "selfkey": self.selfkey, "broadcasts": self.broadcasts(),
                "list": {r["ref"]: [{"c": ("Response" if plain(r) else a["conc"]), "m": a["resp"]} for a in r["actions"]] + [{"c": "Err", "m": r["err"]}] for r in self.requests},
                "events": {e["ref"]: bc(e["bc"]) for e in self.events},
                "selfopt": [bool(o) for _, o in self.msgs[self.selfkey]] if self.selfkey else [],
                "asgopt": [bool(o) for _, o in self.msgs[self.assigned]] if self.assigned else []}

def plain(r):
    """A request with nothing to conclude."""
    return len(r["actions"]) == 1 and not r["actions"][0]["bc"]
def rs(path): return path.replace(".", "::")
def mod(path): return path.replace(".", "_").lower()

# ------------------------------------------------------------------ Rust glue ----
def rust_codec(flow):
    """enc(name, fields, sequence) and dec(bytes) over the generated protocol module of one flow."""
    enc, dec = [], []
    def val(f, o):
        return "s.get(\"%s\")%s" % (f, ".cloned()" if o else ".cloned().unwrap_or_default()")
    def chain(path, var):
        parts = path.split(".")
        out = ""
        for i, p in enumerate(parts):
            out += "protocol::" + "".join(x + "::" for x in parts[:i]) + "AvailableMessages::" + p + "("
        return out + var + ")" * len(parts)
    for path, fields in flow.all_msgs().items():
        body = ", ".join("%s: %s" % (f, val(f, o)) for f, o in fields)
        enc.append("        \"%s\" => protocol::%s { %s }.pack(seq, None)," % (path, rs(path), body))
        ins = " ".join(("if let Some(v) = &m.%s { o.insert(\"%s\".to_string(), v.clone()); }" if o else "o.insert(\"%s\".to_string(), m.%s.clone());")
                       % ((f, f) if o else (f, f)) for f, o in fields)
        dec.append("        %s => { let mut o = Map::new(); let _ = m; %s (\"%s\", o) }" % (chain(path, "m"), ins, path))
    return """use std::collections::HashMap;
pub type Map = HashMap<String, String>;
#[allow(unused_imports)]
use protocol::PackingStruct;
#[allow(unused_variables, unreachable_patterns)]
pub fn enc(name: &str, s: &Map, seq: u32) -> Vec<u8> {
    let r = match name {
%s
        x => panic!("no message {}", x),
    };
    r.expect("packing")
}
#[allow(unreachable_patterns)]
pub fn dec(bytes: &[u8]) -> Result<Vec<(String, u32, Map)>, String> {
    let mut b: protocol::Buffer<protocol::AvailableMessages> = protocol::Buffer::new();
    b.chunk(&bytes.to_vec(), None).map_err(|e| format!("{:?}", e))?;
    let mut out = vec![];
    while let Some(p) = b.next() {
        let (n, m) = match &p.msg {
%s
            _ => ("?", Map::new()),
        };
        out.push((n.to_string(), p.header.sequence, m));
    }
    Ok(out)
}
""" % ("\n".join(enc), "\n".join(dec))

def keystrs(fields, var):
    return "vec![%s]" % ", ".join("%s.%s.clone()%s" % (var, f, ".unwrap_or_else(|| \"-\".to_string())" if o else "") for f, o in fields)

def keybuild(path, fields, var):
    return "protocol::%s { %s }" % (rs(path), ", ".join(
        ("%s: if %s[%d] == \"-\" { None } else { Some(%s[%d].clone()) }" % (f, var, i, var, i)) if o else "%s: %s[%d].clone()" % (f, var, i)
        for i, (f, o) in enumerate(fields)))

class RustProducer:
    """The user half of a generated Rust producer, recording into crate::rec."""
    def __init__(self, flow, base, selfkey, assigned):
        self.flow, self.base = flow, base
        self.sk, self.ak = selfkey, assigned       # (path, fields)

    def prologue(self, scope, kind, name, tag, script, ident=True):
        f = self.flow
        idn = "Some(%s.identification)" % scope if ident else "None::<&identification::Identification>"
        return """
    crate::rec::ctx(&mut %s.context.n);
    let d = crate::rec::Script::parse(%s);
    let ident = %s;
    let filter = %s.filter;
    let ks = |k: &protocol::%s| -> Vec<String> { %s };
    let ka = |k: &protocol::%s| -> Vec<String> { %s };
    let by_key = |v: &str| { let v = v.to_string(); filter.filter(move |i| i.key.as_ref().map(|k| { let x: Vec<String> = { %s }; x[0] == v }).unwrap_or(false)) };
    let by_asg = || filter.filter(|i| i.assigned.is_some());
    crate::rec::call("%s", "%s", ident.map(|i| i.uuid()), %s,
        ident.and_then(|i| i.key.as_ref().map(|k| ks(k))), ident.and_then(|i| i.assigned.as_ref().map(|k| ka(k))),
        filter.all(), filter.except(&crate::rec::uuid("c1")), filter.exclude(vec![crate::rec::uuid("c1"), crate::rec::uuid("c2")]), by_key("n1"), by_asg(), filter.filter(|_| true),
        filter.exclude(["c7", "c4", "c2", "c5", "c3"].iter().map(|c| crate::rec::uuid(c)).collect()));
    if let Some(i) = ident { crate::rec::keep(i.uuid(), i.clone()); }
    if let (Some(k), Some(i)) = (d.k.as_ref(), ident) { let kk = &k.0; let _ = i.set_key(%s, k.1); }
    if let (Some(k), Some(i)) = (d.a.as_ref(), ident) { let kk = &k.0; let _ = i.set_assign(%s, k.1); }
    if let Some(x) = d.x.as_ref() { let _ = %s.control.disconnect(crate::rec::uuid(x)).await; }
    if d.d { let (h, t): (String, String) = ("%s".to_string(), (%s).to_string()); %s.deferred(Box::pin(async move { crate::rec::defer(&h, &t); })); }
    if d.w { let g = crate::rec::gate(); g.notified().await; }
    let to = |i: usize| -> Option<Vec<uuid::Uuid>> { d.to(i, || filter.all(), |u| filter.except(u), |l| filter.exclude(l), &by_key, &by_asg, ident.map(|i| i.uuid())) };
    let _ = &to;
""" % (scope, script, idn, scope, rs(self.sk[0]), keystrs(self.sk[1], "k"), rs(self.ak[0]), keystrs(self.ak[1], "k"), keystrs(self.sk[1], "k"),
       kind, name, tag, keybuild(*self.sk, "kk"), keybuild(*self.ak, "kk"), scope, name, tag, scope)

    def bc(self, l, first):
        out = []
        for i, (r, o) in enumerate(l):
            m = "protocol::%s { tag: d.sub(%s, %d) }" % (rs(r), first, i)
            out.append("to(%d).map(|t| (t, %s))" % (i, m) if o else "(to(%d).unwrap_or_default(), %s)" % (i, m))
        return out

    def body_request(self, r):
        p = self.prologue("scope", "request", r["ref"], "&request.tag", "&request.script")
        if r["err"]:
            p += "    if d.o == \"err\" { return Err(protocol::%s { tag: d.sub2(&request.tag, \"err\") }); }\n" % rs(r["err"])
        if plain(r):
            return p + "    Ok(protocol::%s { tag: d.sub2(&request.tag, \"_\") })\n" % rs(r["actions"][0]["resp"])
        arms = []
        for a in r["actions"]:
            v = "protocol::%s { tag: d.sub2(&request.tag, \"%s\") }" % (rs(a["resp"]), a["conc"])
            if a["bc"]:
                v = "(" + ", ".join([v] + self.bc(a["bc"], "&request.tag")) + ",)"
            arms.append("        \"%s\" => Response::%s(%s)," % (a["conc"], a["conc"], v))
        return p + "    Ok(match d.c.as_str() {\n%s\n        x => panic!(\"no conclusion {}\", x),\n    })\n" % "\n".join(arms)

    def event_result(self, bc, tag):
        if not bc: return "    Ok(())\n"
        l = self.bc(bc, tag)
        return "    Ok(%s)\n" % (l[0] if len(l) == 1 else "(" + ", ".join(l) + ")")

    def patch(self, rel, pattern, body):
        p = os.path.join(self.base, rel)
        if not os.path.exists(p): raise core.Broken("stub", "no user file " + rel)
        s = open(p).read()
        n = len(re.findall(pattern, s))
        if n != 1:
            raise core.Broken("stub", "stub %s has an unexpected shape (%d)" % (rel, n))
        s = re.sub(pattern, lambda m: body, s)
        open(p, "w").write(s)

    def install(self):
        f = self.flow
        self.patch("context.rs", r"pub struct Context \{\}", "pub struct Context { pub n: u64 }")
        self.patch("context.rs", r"Self \{\}", "Self { n: 0 }")
        PANIC = r"    panic!\(\"[^\n]*\n"
        for r in f.requests:
            self.patch("responses/%s.rs" % mod(r["ref"]), PANIC, self.body_request(r))
        for b in f.beacons:
            self.patch("beacons/%s.rs" % mod(b), r"    println!\([^\n]*\n    Ok\(\(\)\)\n",
                       self.prologue("scope", "beacon", b, "&beacon.tag", "&beacon.script") + "    if d.o == \"fail\" { return Err(\"beacon handler failed\".to_string()); }\n    Ok(())\n")
        defaults = {"connected", "disconnected"}
        for e in f.events:
            if e["ref"] in defaults:
                defaults.discard(e["ref"])
                self.patch("events/%s.rs" % mod(e["ref"]), PANIC,
                           "    let (etag, escript) = crate::rec::cfg(\"%s\");\n" % e["ref"] + self.prologue("scope", "default", e["ref"], "&etag", "&escript")
                           + "    if d.o == \"fail\" { return Err(\"handler failed\".to_string()); }\n" + self.event_result(e["bc"], "&etag"))
            else:
                self.patch("events/%s.rs" % mod(e["ref"]), PANIC,
                           self.prologue("scope", "event", e["ref"], "&event.tag", "&event.script", ident=False)
                           + "    if d.o == \"fail\" { return Err(\"handler failed\".to_string()); }\n" + self.event_result(e["bc"], "&event.tag"))
        for e in sorted(defaults):
            # the stubs of the default events do not import everything the body needs
            self.patch("events/%s.rs" % e, r"    Ok\(\(\)\)\n",
                       "    use super::protocol;\n    let (etag, escript) = crate::rec::cfg(\"%s\");\n" % e + self.prologue("scope", "default", e, "&etag", "&escript")
                       + "    if d.o == \"fail\" { return Err(\"handler failed\".to_string()); }\n    Ok(())\n")
        self.patch("events/ready.rs", r"    Ok\(\(\)\)\n", "    crate::rec::ctx(&mut context.n); crate::rec::plain(\"ready\"); crate::rec::set_control(Box::new(control.clone()));\n    Ok(())\n")
        self.patch("events/shutdown.rs", r"    Ok\(\(\)\)\n", "    crate::rec::ctx(&mut context.n); crate::rec::plain(\"shutdown\");\n    Ok(())\n")
        self.patch("events/error.rs", r"    Ok\(\(\)\)\n",
                   "    crate::rec::ctx(&mut context.n);\n    use super::protocol;\n    let ks = |k: &protocol::%s| -> Vec<String> { %s };\n    let ka = |k: &protocol::%s| -> Vec<String> { %s };\n"
                   % (rs(self.sk[0]), keystrs(self.sk[1], "k"), rs(self.ak[0]), keystrs(self.ak[1], "k")) +
                   "    crate::rec::error(&format!(\"{:?}\", error), uuid, identification.map(|i| i.uuid()), identification.and_then(|i| i.key.as_ref().map(|k| ks(k))), identification.and_then(|i| i.assigned.as_ref().map(|k| ka(k))));\n    Ok(())\n")

    def glue(self):
        f = self.flow
        ev = "\n".join("        \"%s\" => c.events.%s(protocol::%s { tag: tag.to_string(), script: script.to_string() }).await," % (e["ref"], mod(e["ref"]), rs(e["ref"]))
                       for e in f.events if e["ref"] not in ("connected", "disconnected"))
        return """#![allow(dead_code, unused_imports, unused_variables)]
use crate::gen_%(n)s as gen;
use gen::implementation::{protocol, producer};
use gen::implementation::consumer::identification;
use crate::fake::{FakeServer, FakeControl, FakeError};
%(codec)s
pub fn hash() -> (&'static str, &'static str) { (gen::implementation::hash::PROTOCOL, gen::implementation::hash::WORKFLOW) }
type Ctl = producer::Control<FakeError, FakeControl>;
pub async fn run(server: FakeServer, ids: &str, errs: &str) -> bool {
    let mut o = producer::Options::new();
    // the value that is not the default first, then the wanted one
    o.producer_indentification_strategy(if ids == "EmitErrorAndDisconnect" { producer::ProducerIdentificationStrategy::Ignore } else { producer::ProducerIdentificationStrategy::EmitErrorAndDisconnect });
    o.consumer_error_handeling_strategy(if errs == "Log" { producer::ConsumerErrorHandelingStrategy::Disconnect } else { producer::ConsumerErrorHandelingStrategy::Log });
    o.producer_indentification_strategy(match ids {
        "Log" => producer::ProducerIdentificationStrategy::Log,
        "EmitError" => producer::ProducerIdentificationStrategy::EmitError,
        "Disconnect" => producer::ProducerIdentificationStrategy::Disconnect,
        "EmitErrorAndDisconnect" => producer::ProducerIdentificationStrategy::EmitErrorAndDisconnect,
        _ => producer::ProducerIdentificationStrategy::Ignore,
    });
    o.consumer_error_handeling_strategy(match errs {
        "Log" => producer::ConsumerErrorHandelingStrategy::Log,
        "EmitError" => producer::ConsumerErrorHandelingStrategy::EmitError,
        "Disconnect" => producer::ConsumerErrorHandelingStrategy::Disconnect,
        _ => producer::ConsumerErrorHandelingStrategy::EmitErrorAndDisconnect,
    });
    let options = o.clone();
    producer::run(server, options, gen::Context::new()).await.is_ok()
}
fn control() -> Option<Ctl> { crate::rec::with_control(|b| b.downcast_ref::<Ctl>().expect("control").clone()) }
pub async fn event(name: &str, tag: &str, script: &str) -> bool {
    let c = match control() { Some(c) => c, None => return false };
    let r: Result<(), String> = match name {
%(ev)s
        x => panic!("no event {}", x),
    };
    r.is_ok()
}
pub async fn shutdown(wait: bool) -> bool { match control() { Some(c) => c.shutdown(wait).await.is_ok(), None => false } }
pub async fn disconnect(u: &str) -> bool { match control() { Some(c) => c.disconnect(crate::rec::uuid(u)).await.is_ok(), None => false } }
pub fn ident(u: &str, what: &str, kk: &Vec<String>, ow: bool) -> bool {
    crate::rec::kept(crate::rec::uuid(u), |b| {
        let i = b.downcast_ref::<identification::Identification>().expect("identification");
        if what == "key" { i.set_key(%(kb)s, ow).is_ok() } else { i.set_assign(%(ab)s, ow).is_ok() }
    }).unwrap_or(false)
}
""" % {"n": f.name, "codec": rust_codec(f), "ev": ev, "kb": keybuild(*self.sk, "kk"), "ab": keybuild(*self.ak, "kk")}

# ------------------------------------------------------------------ building ----
PKG = '{"name": "x", "version": "1.0.0", "dependencies": {}}'
CARGO_STUB = "[package]\nname = \"x\"\nversion = \"0.1.0\"\nedition = \"2021\"\n\n[dependencies]\n"

def generate(flow, work, producer=None, consumer=None, targets=("rust",)):
    """Runs the generator on the flow; returns the Gen."""
    os.makedirs(work, exist_ok=True)
    prot, wf = os.path.join(work, flow.name + ".prot"), os.path.join(work, flow.name + ".workflow")
    open(prot, "w").write(flow.protocol())
    targets = getattr(flow, "targets", targets)
    open(wf, "w").write(flow.workflow(targets, targets))
    producer = producer or os.path.join(work, "unused_p", "out")       # the generator wants both destinations
    consumer = consumer or os.path.join(work, "unused_c", "out")
    args = ["-s", prot, "-wf", wf]
    for opt, d in (("-pd", producer), ("-cd", consumer)):
        if d:
            os.makedirs(d)
            c = os.path.join(os.path.dirname(d), "Cargo.toml")
            if not os.path.exists(c):
                open(c, "w").write(CARGO_STUB)
            if "typescript" in targets: open(os.path.join(os.path.dirname(d), "package.json"), "w").write(PKG)
            args += [opt, d]
    g = core.gen(args, work)
    if g.ok and len(targets) > 1:
        for d in (producer, consumer): lift(d, "rust")
    return g

def lift(d, target):
    """Of the halves for two languages, one stays."""
    for x in os.listdir(d):
        if x != target: shutil.rmtree(os.path.join(d, x)) if os.path.isdir(os.path.join(d, x)) else os.remove(os.path.join(d, x))
    for x in os.listdir(os.path.join(d, target)): shutil.move(os.path.join(d, target, x), d)
    os.rmdir(os.path.join(d, target))

def default_key(flow, which):
    path = getattr(flow, which)
    return path, flow.msgs[path]

def build_producers(flows, work, log=print):
    """A crate holding one generated producer per flow; returns the path of the driver."""
    d = os.path.join(work, "producers")
    src = os.path.join(d, "src")
    os.makedirs(src)
    h = os.path.join(core.HARNESS, "flow_rs")
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(h, f)): shutil.copy(os.path.join(h, f), d)
    for f in ("main.rs", "rec.rs", "fake.rs"):
        shutil.copy(os.path.join(h, "src", f), src)
    lines = []
    for fl in flows:
        base = os.path.join(src, "gen_" + fl.name)
        g = generate(fl, os.path.join(work, "src_" + fl.name), producer=base)
        if not g.ok:
            raise core.Broken("refused:" + fl.name, "the generator refuses flow %s: %s %s" % (fl.name, g.last, g.err[-500:]))
        rp = RustProducer(fl, base, default_key(fl, "selfkey"), default_key(fl, "assigned"))
        rp.install()
        open(os.path.join(src, "g_%s.rs" % fl.name), "w").write(rp.glue())
        lines.append("#[allow(warnings)] mod gen_%s; mod g_%s;" % (fl.name, fl.name))
    if os.path.exists(os.path.join(src, "Cargo.toml")): os.remove(os.path.join(src, "Cargo.toml"))
    lines.append("fn producer(m: &str) -> Prod { match m {\n%s\n_ => panic!(\"no flow\") } }" % "\n".join(
        "\"%(n)s\" => Prod { enc: g_%(n)s::enc, dec: g_%(n)s::dec, hash: g_%(n)s::hash, ident: g_%(n)s::ident, "
        "run: |s, i, e| Box::pin(async move { g_%(n)s::run(s, &i, &e).await }), event: |a, b, c| Box::pin(async move { g_%(n)s::event(&a, &b, &c).await }), "
        "shutdown: |w| Box::pin(g_%(n)s::shutdown(w)), disconnect: |u| Box::pin(async move { g_%(n)s::disconnect(&u).await }) }," % {"n": fl.name} for fl in flows))
    open(os.path.join(src, "mods.rs"), "w").write("\n".join(lines) + "\n")
    target = os.path.join(core.BUILD, "flow-target")
    r = core.sh(["cargo", "build", "--offline"] + LOCKED,
                cwd=d, env=core.rust_env({"CARGO_TARGET_DIR": target}), timeout=600)
    if r.returncode != 0:
        e = core.rust_broken(r.stderr)
        if e: raise core.Broken("build", "the generated producers do not build with the user's part: " + e[:1500], {"errors": e})
        raise core.CheckError("the generated producers do not build:\n" + r.stderr[-4000:])
    b = os.path.join(work, "flow_rs")
    shutil.copy(os.path.join(target, "debug", "flow_rs"), b)
    return b

class RustConsumer:
    """The user half of a generated Rust consumer, recording into crate::rec."""
    def __init__(self, flow, base, selfkey):
        self.flow, self.base, self.sk = flow, base, selfkey

    def patch(self, rel, body):
        p = os.path.join(self.base, rel)
        if not os.path.exists(p): raise core.Broken("stub", "no user file " + rel)
        s = open(p).read()
        s, n = re.subn(r"    println!\([^\n]*\n", lambda m: "    crate::rec::ctx(&mut context.n);\n" + body, s)
        if n != 1:
            raise core.Broken("stub", "stub %s has an unexpected shape (%d)" % (rel, n))
        open(p, "w").write(s)

    def acts(self, on):
        return "    if let Some(a) = crate::rec::plan(\"%s\") { crate::g_%s::act(a, consumer.clone()).await; }\n" % (on, self.flow.name)

    def install(self):
        f = self.flow
        p = os.path.join(self.base, "context.rs")
        s = open(p).read()
        if s.count("Context {}") != 1: raise core.Broken("stub", "stub context.rs has an unexpected shape")
        open(p, "w").write(s.replace("Context {}", "Context { pub n: u64 }"))
        self.patch("events/connected.rs", "    crate::rec::ev(\"connected\", \"\");\n" + self.acts("connected"))
        self.patch("events/disconnected.rs", "    crate::rec::ev(\"disconnected\", \"\");\n" + self.acts("disconnected"))
        self.patch("events/error.rs", "    crate::rec::ev(\"error\", &crate::rec::kind(&format!(\"{:?}\", error)));\n" + self.acts("error"))
        self.patch("events/shutdown.rs", "    crate::rec::ev(\"shutdown\", &error.map(|e| crate::rec::kind(&format!(\"{:?}\", e))).unwrap_or_default());\n" + self.acts("shutdown"))
        p = os.path.join(self.base, "events/reconnect.rs")
        s = open(p).read()
        s, n = re.subn(r"    println!\([^\n]*\n(.*\n)*?    true\n", "    crate::rec::ctx(&mut context.n);\n    crate::rec::ev(\"reconnect\", &timeout.to_string());\n    crate::rec::again()\n", s)
        if n != 1: raise core.Broken("stub", "stub events/reconnect.rs has an unexpected shape")
        open(p, "w").write(s)
        for r in f.broadcasts():
            self.patch("broadcasts/%s.rs" % mod(r), "    crate::rec::bcast(\"%s\", &event.tag);\n" % r + self.acts(r))

    def glue(self):
        f = self.flow
        arms = []
        for r in f.requests:
            name = r["ref"].replace(".", "") + "Response"
            cs = [("Response" if plain(r) else a["conc"], a["resp"]) for a in r["actions"]] + [("Err", r["err"])]
            arms.append("        \"%s\" => match c.%s(protocol::%s { tag: tag.to_string(), script: script.to_string() }).await {\n%s\n            Err(e) => err(&format!(\"{:?}\", e)),\n        }," % (
                r["ref"], mod(r["ref"]), rs(r["ref"]), "\n".join("            Ok(controller::%s::%s(m)) => res(\"%s\", \"%s\", &m.tag)," % (name, c, c, t) for c, t in cs)))
        for b in f.beacons:
            arms.append("        \"%s\" => match c.beacon_%s(protocol::%s { tag: tag.to_string(), script: script.to_string() }).await { Ok(()) => res(\"ok\", \"\", \"\"), Err(e) => err(&format!(\"{:?}\", e)) }," % (b, mod(b), rs(b)))
        return """#![allow(dead_code, unused_imports, unused_variables)]
use crate::gen_%(n)s as gen;
use gen::implementation::{protocol, consumer, controller};
use crate::fake::{FakeClient, FakeControl, FakeError};
use serde_json::{json, Value};
use std::rc::Rc;
%(codec)s
pub const KEY: &str = "%(key)s";
type Getter = consumer::ConsumerGetter<FakeError>;
type Handle = controller::Consumer<FakeError>;
pub async fn start(client: FakeClient, reconnect: u64, timeout: u64, kk: Vec<String>) {
    let mut o = consumer::options::Options::defualt(%(kb)s);
    o.request_timeout = timeout;
    o.reconnection = if reconnect == 0 { consumer::options::ReconnectionStrategy::DoNotReconnect } else { consumer::options::ReconnectionStrategy::Reconnect(reconnect) };
    if let Ok(g) = consumer::connect(client, gen::Context { n: 0 }, o).await { crate::rec::with(|s| s.getter = Some(Rc::new(g))); }
}
async fn handle(kept: bool) -> Option<Handle> {
    if kept { return crate::rec::with(|s| s.kept.clone()).and_then(|k| k.downcast::<Handle>().ok().map(|h| (*h).clone())); }
    let g = crate::rec::with(|s| s.getter.clone())?.downcast::<Getter>().ok()?;
    g.get().await.ok()
}
pub async fn keep() -> bool { match handle(false).await { Some(h) => { crate::rec::with(|s| s.kept = Some(Rc::new(h))); true } None => false } }
fn res(k: &str, m: &str, tag: &str) -> Value { json!({"k": k, "m": m, "tag": tag}) }
fn err(dbg: &str) -> Value { json!({"k": format!("!{}", crate::rec::kind(dbg)), "m": "", "tag": ""}) }
pub async fn call(name: String, tag: String, script: String, kept: bool) -> Value {
    match handle(kept).await { Some(c) => call_on(c, name, tag, script).await, None => err("NoClient") }
}
async fn call_on<E: clibri::client::Error>(mut c: controller::Consumer<E>, name: String, tag: String, script: String) -> Value {
    match name.as_str() {
%(arms)s
        x => panic!("no call {}", x),
    }
}
/// What a handler has been told to do.
pub async fn act<E: clibri::client::Error>(a: Value, c: controller::Consumer<E>) {
    match a["act"].as_str().unwrap() {
        "call" => {
            let mut r = call_on(c, a["m"].as_str().unwrap().into(), a["tag"].as_str().unwrap().into(), String::new()).await;
            r["op"] = json!("res"); r["n"] = a["n"].clone();
            crate::rec::push(r);
        }
        "shutdown" => { let ok = c.shutdown().await.is_ok(); crate::rec::push(json!({"op": "released", "n": a["n"], "ok": ok})); }
        _ => { let g = crate::rec::gate(); g.notified().await; }
    }
}
pub async fn shutdown(kept: bool) -> bool { match handle(kept).await { Some(c) => c.shutdown().await.is_ok(), None => false } }
""" % {"n": f.name, "codec": rust_codec(f), "key": self.sk[0], "kb": keybuild(*self.sk, "kk"), "arms": "\n".join(arms)}

def build_crate(name, d, work):
    """Builds the harness crate name that was put together in d."""
    h = os.path.join(core.HARNESS, name)
    for f in ("Cargo.toml", "Cargo.lock"):
        if os.path.exists(os.path.join(h, f)): shutil.copy(os.path.join(h, f), d)
    for f in os.listdir(os.path.join(h, "src")):
        shutil.copy(os.path.join(h, "src", f), os.path.join(d, "src"))
    if os.path.exists(os.path.join(d, "src", "Cargo.toml")): os.remove(os.path.join(d, "src", "Cargo.toml"))
    target = os.path.join(core.BUILD, "flow-target")
    r = core.sh(["cargo", "build", "--offline"] + LOCKED, cwd=d, env=core.rust_env({"CARGO_TARGET_DIR": target}), timeout=600)
    if r.returncode != 0:
        e = core.rust_broken(r.stderr)
        if e: raise core.Broken("build", "the generated code does not build with the user's part: " + e[:1500], {"errors": e})
        raise core.CheckError("the generated code does not build:\n" + r.stderr[-4000:])
    b = os.path.join(work, name)
    shutil.copy(os.path.join(target, "debug", name), b)
    return b

def build_consumers(flows, work, log=print):
    d = os.path.join(work, "consumers")
    src = os.path.join(d, "src")
    os.makedirs(src)
    lines = []
    for fl in flows:
        base = os.path.join(src, "gen_" + fl.name)
        g = generate(fl, os.path.join(work, "csrc_" + fl.name), consumer=base)
        if not g.ok:
            raise core.Broken("refused:" + fl.name, "the generator refuses flow %s: %s %s" % (fl.name, g.last, g.err[-500:]))
        rc = RustConsumer(fl, base, default_key(fl, "selfkey"))
        rc.install()
        open(os.path.join(src, "g_%s.rs" % fl.name), "w").write(rc.glue())
        lines.append("#[allow(warnings)] mod gen_%s; mod g_%s;" % (fl.name, fl.name))
    lines.append("fn consumer(m: &str) -> Cons { match m {\n%s\n_ => panic!(\"no flow\") } }" % "\n".join(
        "\"%(n)s\" => Cons { enc: g_%(n)s::enc, dec: g_%(n)s::dec, key: g_%(n)s::KEY, start: |c, r, t, k| Box::pin(g_%(n)s::start(c, r, t, k)), "
        "call: |m, t, x, k| Box::pin(g_%(n)s::call(m, t, x, k)), keep: || Box::pin(g_%(n)s::keep()), shutdown: |k| Box::pin(g_%(n)s::shutdown(k)) }," % {"n": fl.name} for fl in flows))
    open(os.path.join(src, "mods.rs"), "w").write("\n".join(lines) + "\n")
    return build_crate("cons_rs", d, work)

def prints(fl, work):
    """The fingerprints of the sources the consumer was generated from."""
    import hashlib
    h = lambda x: hashlib.sha256(open(os.path.join(work, "csrc_" + fl.name, fl.name + x), "rb").read()).hexdigest().upper()
    return {"protocol": h(".prot"), "workflow": h(".workflow")}

# ------------------------------------------------------------------ fixtures ----
def msgs_of(*l):
    return {p: [(f.rstrip("?"), f.endswith("?")) for f in fs.split()] for p, fs in l}

def w1():
    """Requests, events and beacons at top level and in nested groups; every number of broadcasts; optional ones."""
    I, O = "tag script", "tag"
    return Flow("w1", "SelfKey", "Keys.Asg", msgs_of(
        ("SelfKey", "name note? mark?"), ("Keys.Asg", "role? grade"),
        ("Top", I), ("TopA", O), ("TopB", O), ("TopErr", O), ("One", I), ("OneRes", O), ("OneErr", O),
        ("Ga.Req", I), ("Ga.Res", O), ("Ga.ResB", O), ("Ga.Err", O), ("Ga.Sub.Req", I), ("Ga.Sub.Res", O), ("Ga.Sub.Err", O), ("Solo", I), ("SoloRes", O), ("SoloErr", O),
        ("Ba", O), ("Bb", O), ("Bc.B", O), ("Bc.Sub.B", O), ("Bd", O),
        ("Beac", I), ("Gb.Beac", I), ("Gb.Sub.Beac", I), ("Ev", I), ("Ge.Ev", I), ("Ge.Sub.Ev", I), ("Extra", I), ("Ga.Extra", I)),
        [{"ref": "Top", "err": "TopErr", "actions": [
            {"conc": "First", "resp": "TopA", "bc": [("Ba", False), ("Bc.B", True), ("Bb", False)]},
            {"conc": "Second", "resp": "TopB", "bc": []},
            {"conc": "Third", "resp": "TopA", "bc": [("Bc.Sub.B", True)]}]},
         {"ref": "Solo", "err": "SoloErr", "actions": [{"conc": "Only", "resp": "SoloRes", "bc": [("Bd", False), ("Bc.B", True), ("Ba", True), ("Bc.Sub.B", False), ("Bb", True)]}]},
         {"ref": "One", "err": "OneErr", "actions": [{"conc": None, "resp": "OneRes", "bc": []}]},
         {"ref": "Ga.Req", "err": "Ga.Err", "actions": [
            {"conc": "Left", "resp": "Ga.Res", "bc": [("Bb", False)]},
            {"conc": "Right", "resp": "Ga.ResB", "bc": [("Bc.B", True), ("Ba", True), ("Bb", True)]}]},
         {"ref": "Ga.Sub.Req", "err": "Ga.Sub.Err", "actions": [{"conc": None, "resp": "Ga.Sub.Res", "bc": []}]}],
        ["Beac", "Gb.Beac", "Gb.Sub.Beac"],
        [{"ref": "Ev", "bc": [("Ba", False), ("Bb", True)]}, {"ref": "Ge.Ev", "bc": [("Bc.B", False)]}, {"ref": "Ge.Sub.Ev", "bc": [("Bc.Sub.B", True), ("Bd", False), ("Ba", True), ("Bb", False)]},
         {"ref": "connected", "bc": [("Bb", False)]}, {"ref": "disconnected", "bc": [("Ba", False), ("Bc.B", True)]}])

def w2():
    """Self and assigned key swapped in shape, no beacon, default events without broadcasts."""
    I, O = "tag script", "tag"
    return Flow("w2", "Key.Deep.Own", "Asg", msgs_of(
        ("Key.Deep.Own", "name"), ("Asg", "role grade?"), ("Req", I), ("Res", O), ("Err", O), ("Gx.Req", I), ("Gx.Res", O), ("Ev", I), ("Bx.B", O)),
        [{"ref": "Gx.Req", "err": "Err", "actions": [{"conc": "A", "resp": "Res", "bc": []}, {"conc": "B", "resp": "Gx.Res", "bc": [("Bx.B", True)]}]},
         {"ref": "Req", "err": "Err", "actions": [{"conc": None, "resp": "Res", "bc": []}]}],
        [], [{"ref": "Ev", "bc": [("Bx.B", False)]}])
