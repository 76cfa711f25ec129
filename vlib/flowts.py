"""The user half of generated TypeScript producers and consumers, and the bundles the driver loads."""
import hashlib, json, os, re, shutil
from . import core, flow
from .wire import ESBUILD

PKG = '{"name": "x", "version": "1.0.0", "dependencies": {}}'

def P(path): return "Protocol." + path
def lower(path):
    """Name of the subject of an event."""
    l = path.split(".")
    return "".join([l[0][:1].lower() + l[0][1:]] + l[1:])
def flat(path): return path.replace(".", "")
def file(path): return path.lower()

def glue_common(f):
    enc = "\n".join("        case %s: return new %s(f).pack(q);" % (json.dumps(p), P(p)) for p in f.all_msgs())
    names = {p: [n for n, _ in fs] for p, fs in f.all_msgs().items()}
    return """
export const names: any = %s;
export const keyFields = %s;
export const asgFields = %s;
export function reader(): any { return new Protocol.BufferReaderMessages(); }
export function mkKey(o: any): any { return new %s(o); }
export function mkAsg(o: any): any { return new %s(o); }
export function enc(m: string, f: any, q: number): any {
    switch (m) {
%s
        default: throw new Error("no message " + m);
    }
}
""" % (json.dumps(names), json.dumps([n for n, _ in f.msgs[f.selfkey]]), json.dumps([n for n, _ in f.msgs[f.assigned]]), P(f.selfkey), P(f.assigned), enc)

class TsProducer:
    def __init__(self, fl, base): self.flow, self.base = fl, base

    def write(self, rel, s):
        p = os.path.join(self.base, rel)
        if not os.path.exists(p): raise core.Broken("stub", "no user file " + rel)
        open(p, "w").write(s)

    def bcs(self, var, l, tag):
        out = []
        for i, (r, o) in enumerate(l):
            e = "%s.broadcast(to[%d]).%s(new %s({ tag: %s + \"#%d\" }));" % (var, i, flat(r), P(r), tag, i)
            out.append("        if (to[%d] !== undefined%s) %s" % (i, " && d.b[%d].t !== \"none\"" % i if o else "", e))
        return "\n".join(out)

    def install(self):
        f = self.flow
        for r in f.requests:
            arms = []
            for a in r["actions"]:
                conc = a["conc"] or "_"
                arms.append("        %s{\n        const r = new Response(new %s({ tag: request.tag + \":%s\" }));\n%s\n        return r;\n        }" % (
                    "" if len(r["actions"]) == 1 else "if (d.c === \"%s\") " % a["conc"], P(a["resp"]), conc, self.bcs("r", a["bc"], "request.tag")))
            err = "        if (d.o === \"err\") return new Response(new %s({ tag: request.tag + \":err\" }));\n" % P(r["err"]) if r["err"] else ""
            self.write("responses/%s.ts" % file(r["ref"]), """import { Response } from "../implementation/responses/%s";
import { Protocol } from "../implementation/responses";
import { Scope } from "../implementation/scope";
export function response(request: %s, scope: Scope): Promise<Response> {
    return (globalThis as any).REC.handle("request", "%s", request.tag, request.script, scope, (d: any, to: any) => {
%s%s
        throw new Error("no conclusion " + d.c);
    });
}
""" % (file(r["ref"]), P(r["ref"]), r["ref"], err, "\n".join(arms)))
        for b in f.beacons:
            self.write("beacons/%s.ts" % file(b), """import { Protocol } from "../implementation/beacons";
import { Scope } from "../implementation/scope";
export function emit(beacon: %s, scope: Scope): Promise<void> {
    return (globalThis as any).REC.handle("beacon", "%s", beacon.tag, beacon.script, scope, () => undefined);
}
""" % (P(b), b))
        defaults = {"connected", "disconnected"}
        for ref, bc in [(e["ref"], e["bc"]) for e in f.events] + [(x, []) for x in sorted(defaults - {e["ref"] for e in f.events})]:
            own = ref in defaults
            first = "consumer: Identification" if own else "event: %s" % P(ref)
            tag = "tag" if own else "event.tag"
            self.write("events/%s.ts" % file(ref), """import { Identification, Filter, Producer, Context, Protocol } from "../implementation/events";
%sexport function emit(%s, filter: Filter, context: Context, producer: Producer): Promise<any> {
    const REC = (globalThis as any).REC;
%s
    return REC.handle("%s", "%s", %s, %s, { %sfilter, producer, context }, (d: any, to: any) => {
%s
    });
}
""" % ("import { Output } from \"../implementation/events/%s\";\n" % file(ref) if bc else "", first,
       "    const [tag, script] = REC.cfg(\"%s\");" % ref if own else "", "default" if own else "event", ref, tag, "script" if own else "event.script", "consumer, " if own else "",
       "        const r = new Output();\n%s\n        return r;" % self.bcs("r", bc, tag) if bc else "        return undefined;"))
        self.write("events/ready.ts", "export function emit(context: any, producer: any): Promise<void> { (globalThis as any).REC.ctx(context); (globalThis as any).REC.plain(\"ready\"); return Promise.resolve(); }\n")
        self.write("events/shutdown.ts", "export function emit(context: any, producer: any): Promise<void> { (globalThis as any).REC.ctx(context); (globalThis as any).REC.plain(\"shutdown\"); return Promise.resolve(); }\n")
        self.write("events/error.ts", "export function emit(error: any, context: any, producer: any, consumer: any, filter: any): Promise<void> { (globalThis as any).REC.ctx(context); (globalThis as any).REC.error(error, consumer); return Promise.resolve(); }\n")

    def glue(self, rel):
        f = self.flow
        ev = "\n".join("        case \"%s\": p.events.%s.emit(new %s({ tag, script })); return;" % (e["ref"], lower(e["ref"]), P(e["ref"]))
                       for e in f.events if e["ref"] not in ("connected", "disconnected"))
        return """import { Producer } from "%(d)s/implementation";
import * as Protocol from "%(d)s/implementation/protocol";
import { Context } from "%(d)s/context";
import { Server, Subject, Options, ConsumerErrorHandelingStrategy, ProducerIdentificationStrategy, IServerReceivedEvent, IServerError } from "clibri";
%(common)s
export function hash(): any { return Producer.hash; }
class Fake extends Server {
    private _e = { ready: new Subject<void>("ready"), shutdown: new Subject<void>("shutdown"), error: new Subject<IServerError>("error"),
        connected: new Subject<string>("connected"), disconnected: new Subject<string>("disconnected"), received: new Subject<IServerReceivedEvent>("received") };
    constructor(private _t: any) { super(); }
    listen() { return this._t.listen(); }
    shutdown() { return this._t.shutdown(); }
    send(b: any, u?: string) { return this._t.send(b, u); }
    disconnect(u: string) { return this._t.disconnect(u); }
    getEvents() { return this._e; }
}
export function server(t: any): any { return new Fake(t); }
export function producer(s: any, ids: string, errs: string): any {
    const own = new Context();
    (globalThis as any).REC.own(own);
    const p = new Producer(s, own, new Options({
        consumerErrorHandelingStrategy: (ConsumerErrorHandelingStrategy as any)[errs], producerIndentificationStrategy: (ProducerIdentificationStrategy as any)[ids] }));
    p.listen();
    return p;
}
export function event(p: any, name: string, tag: string, script: string): void {
    switch (name) {
%(ev)s
        default: throw new Error("no event " + name);
    }
}
""" % {"d": rel, "common": glue_common(f), "ev": ev}

def consumer_glue(f, rel):
    """What the driver needs of a generated consumer."""
    subs = "\n".join("    c.broadcast.%s.subscribe((x: any) => on.broadcast(\"%s\", x));" % (flat(b), b) for b in f.broadcasts())
    cls = ", ".join("%s: %s" % (json.dumps(p), P(p)) for p in f.all_msgs())
    calls = []
    for r in f.requests:
        hs = [a["conc"].lower() if len(r["actions"]) > 1 else "response" for a in r["actions"]] + (["err"] if r["err"] else [])
        calls.append("        case \"%s\": return new Api.%s({ tag, script }, c)%s;" % (r["ref"], flat(r["ref"]), "".join(".%s(() => h(\"%s\"))" % (x, x) for x in hs)))
    for b in f.beacons:
        calls.append("        case \"%s\": return new Api.Beacon%s({ tag, script }, c).response(() => h(\"response\")).err(() => h(\"err\"));" % (b, flat(b)))
    return """import * as Api from "%(d)s";
import * as Protocol from "%(d)s/protocol/protocol";
import { Client, Subject } from "clibri";
%(common)s
export const keyName = "%(key)s";
export const classes: any = { %(cls)s };
export function nameOf(x: any): string { const n = Object.keys(classes).filter((p) => x instanceof classes[p]); return n.length === 1 ? n[0] : "?"; }
export function hash(): any { return { PROTOCOL: Api.Consumer.PROTOCOL_HASH, WORKFLOW: Api.Consumer.WORKFLOW_HASH }; }
class Fake extends Client {
    private _e = { connected: new Subject<void>("connected"), disconnected: new Subject<void>("disconnected"), error: new Subject<Error>("error"), data: new Subject<ArrayBufferLike>("data") };
    constructor(private _t: any) { super(); }
    send(b: any) { return this._t.send(b); }
    destroy() { return this._t.destroy(); }
    getEvents() { return this._e; }
}
export function client(t: any): any { return new Fake(t); }
export function consumer(client: any, key: any, on: any): any {
    const c = new Api.Consumer(client, key, { global: false });
    c.connected.subscribe(on.connected);
    c.ready.subscribe(on.ready);
    c.disconnected.subscribe(on.disconnected);
    c.error.subscribe(on.error);
%(subs)s
    return c;
}
export function call(c: any, m: string, tag: string, script: string, h: (k: string) => void): any {
    switch (m) {
%(calls)s
        default: throw new Error("no request " + m);
    }
}
""" % {"d": rel, "common": glue_common(f), "key": f.selfkey, "cls": cls, "subs": subs, "calls": "\n".join(calls)}

def generate(fl, work, sides="pc"):
    """Generates the TypeScript halves of a flow."""
    os.makedirs(work, exist_ok=True)
    prot, wf = os.path.join(work, fl.name + ".prot"), os.path.join(work, fl.name + ".workflow")
    open(prot, "w").write(fl.protocol())
    targets = getattr(fl, "targets", ("typescript",))
    open(wf, "w").write(fl.workflow(targets, targets))
    args = ["-s", prot, "-wf", wf]
    for x, opt in (("p", "-pd"), ("c", "-cd")):
        d = os.path.join(work, x, "out")
        os.makedirs(d)
        open(os.path.join(work, x, "package.json"), "w").write(PKG)
        if len(targets) > 1: open(os.path.join(work, x, "Cargo.toml"), "w").write(flow.CARGO_STUB)
        args += [opt, d]
    g = core.gen(args, work)
    if not g.ok:
        raise core.Broken("refused:" + fl.name, "the generator refuses flow %s: %s %s" % (fl.name, g.last, g.err[-500:]))
    if len(targets) > 1:
        for x in "pc": flow.lift(os.path.join(work, x, "out"), "typescript")

def bundle(work, names):
    """Bundles the glue modules; returns the driver."""
    h = os.path.join(core.HARNESS, "flow_ts")
    r = core.sh([ESBUILD, "--bundle", "--platform=node", "--format=cjs", "--outdir=" + os.path.join(work, "dist"), "--log-level=error", "--target=es2020",
                 "--alias:clibri=" + os.path.join(core.HARNESS, "clibri_ts", "index.ts")] + names, cwd=work)
    if r.returncode != 0:
        if "[ERROR]" in r.stderr: raise core.Broken("build", "the generated TypeScript does not build with the user's part: " + r.stderr[:1500], {"errors": r.stderr[:4000]})
        raise core.CheckError("esbuild: " + r.stderr[-3000:])
    for f in os.listdir(h): shutil.copy(os.path.join(h, f), os.path.join(work, "dist", f))
    return ["node", os.path.join(work, "dist", "main.js")]

def build_producers(flows, work, log=print):
    names = []
    for fl in flows:
        generate(fl, os.path.join(work, fl.name))
        tp = TsProducer(fl, os.path.join(work, fl.name, "p", "out"))
        tp.install()
        n = "g_%s.ts" % fl.name
        open(os.path.join(work, n), "w").write(tp.glue("./%s/p/out" % fl.name))
        names.append(n)
    return bundle(work, names)

def build_consumers(flows, work, log=print):
    """Bundles the consumers; returns the driver and the fingerprints they present."""
    names = []
    for fl in flows:
        generate(fl, os.path.join(work, fl.name))
        n = "g_c_%s.ts" % fl.name
        open(os.path.join(work, n), "w").write(consumer_glue(fl, "./%s/c/out" % fl.name))
        names.append(n)
    return bundle(work, names)

def prints(fl, work):
    """The fingerprints of the sources the consumer was generated from."""
    h = lambda x: hashlib.sha256(open(os.path.join(work, fl.name, fl.name + x), "rb").read()).hexdigest().upper()
    return {"protocol": h(".prot"), "workflow": h(".workflow")}

def consumer_json(fl):
    """TypeScript names the handlers of a request's answers in lower case, and the only answer "response"."""
    j = fl.json()
    for r in fl.requests:
        for a in j["list"][r["ref"]]: a["c"] = "response" if len(r["actions"]) == 1 and a["c"] != "Err" else a["c"].lower()
    return j

# ------------------------------------------------------------------ fixtures ----
def distinct(fl):
    """TypeScript recognises a conclusion by the type of its answer: every conclusion gets a type of its own."""
    for r in fl.requests:
        have = set()
        for k, a in enumerate(r["actions"]):
            if a["resp"] in have:
                n = a["resp"] + "Other%d" % k
                fl.msgs[n] = list(fl.msgs[a["resp"]])
                a["resp"] = n
            have.add(a["resp"])
    return fl
def t1(): return distinct(flow.w1())
def t2(): return distinct(flow.w2())
