"""W01..W05: the wire format (spec/Wire.tla)."""
import json, math, os, random, struct, subprocess
from concurrent.futures import ThreadPoolExecutor
from vlib import core, wire, proto, tlc

RUST_ONLY = {"enumenum"}      # enums nested in enums are refused by the TypeScript renderer ("Nested enums aren't supported")

def proto_large():
    S, E, F = proto.S, proto.E, proto.F
    return proto.Protocol("large", S("Texts", F("str", "s"), F("u8", "x"), F("str", "o", opt=True)),
        S("Lists", F("str", "a", rep=True), F("u8", "b", rep=True), F("u16", "n")),
        S("Words", F("u64", "w", rep=True), F("f32", "f", rep=True, opt=True), F("bool", "k", rep=True), F("i16", "i", rep=True)),
        S("Inner", F("u16", "q"), F("str", "t")), E("En", F("u8", "u"), F("str", "v"), F("u32", "r", rep=True), F("str", "z", rep=True)),
        S("Holder", F("Inner", "i"), F("Inner", "l", rep=True), F("En", "e"), F("u8", "end")),
        S("Maybe", F("Inner", "m", opt=True), F("Inner", "ml", rep=True, opt=True), F("En", "me", opt=True)))
SIZES = {"sizes": [240, 247, 256, 32767, 65520, 65527, 65540, 140000], "counts": [255, 257, 1100], "widths": [255, 256, 65535, 65536, 66000]}
def setup(ck, extra_random=0, rust=True, ts=True, large=False):
    rng = random.Random(core.SEED * 1000 + 17)
    ps = proto.catalogue() + ([proto_large()] if large else []) + [proto.random_protocol(rng, "rnd%d" % i) for i in range(extra_random)]
    w = wire.Wire(core.fresh(ck.prop, "wire"), ps, rust=rust, ts=ts, log=ck.log, rust_only=RUST_ONLY)
    return w, ps

def canon(p, full, v):
    """NaNs compare equal whatever their payload."""
    _, d, path = p.byname[full]
    def bare(t, x):
        if t == "f32" and isinstance(x, list) and len(x) == 4 and math.isnan(struct.unpack("<f", bytes(x))[0]): return [0, 0, 192, 127]
        if t == "f64" and isinstance(x, list) and len(x) == 8 and math.isnan(struct.unpack("<d", bytes(x))[0]): return [0, 0, 0, 0, 0, 0, 248, 127]
        if t in proto.PRIMS: return x
        return canon(p, p.resolve(t, path), x)
    def fld(f, x):
        t = f.t or "str"
        if not isinstance(x, list): return x
        if f.opt:
            if len(x) == 0: return []
            x = x[0]
            y = [bare(t, e) for e in x] if f.rep and isinstance(x, list) else bare(t, x)
            return [y]
        return [bare(t, e) for e in x] if f.rep else bare(t, x)
    if not isinstance(v, list): return v
    if d.k == "struct":
        if len(v) != len(d.f): return v
        return [fld(f, x) for f, x in zip(d.f, v)]
    return [v[0], fld(d.f[v[0]], v[1])] if len(v) == 2 and isinstance(v[0], int) and v[0] < len(d.f) else v

def models(ck, w, ps, depth, every, mutmax):
    out = {}
    def one(p):
        return p, w.model(p, 2, depth=depth, every=every, mutmax=mutmax)
    with ThreadPoolExecutor(4) as ex:
        for p, r in ex.map(one, ps):
            ck.tlc(r)
            out[p.name] = r.records
            if len(r.records) != r.states:
                raise core.CheckError("TLC emitted %d of %d cases for %s" % (len(r.records), r.states, p.name))
    return out

def masked(b):
    return b[:10] + bytes(8) + b[18:]

def report_generation(ck, w, lang):
    for n, why in w.bad.items():
        if lang == "rust" or n not in RUST_ONLY:
            ck.violation("gen:%s" % n, "the generator does not render protocol %s: %s" % (n, why), {"protocol": [p.text() for p in w.protocols if p.name == n]})
    for n, why in (w.rust_bad if lang == "rust" else w.ts_bad).items():
        ck.violation("%s-unusable:%s" % (lang, n), "generated %s code for protocol %s is unusable: %s" % (lang, n, why), None)

class Fam:
    """Everything the five W checks share: harnesses, ids, and the model's cases."""
    def __init__(self, ck, depth=1, every=0, mutmax=200, nrandom=2, large=False):
        self.ck = ck
        self.w, self.ps = setup(ck, nrandom, large=large)
        w = self.w
        w.learn()
        for k, why in w.learn_bad.items():
            ck.violation("pack:" + k, "generated Rust code cannot write a simple value of %s: %s" % (k, why), None)
        self.byname = {p.name: p for p in self.ps}
        self.model_ps = [p for p in w.rust_mods if len(w.ids.get(p.name, {})) == len(p.types)]
        for p in self.model_ps:
            ids = w.ids[p.name]
            for n, (mid, props) in ids.items():
                if len(set(props)) != len(props):
                    ck.violation("props:%s/%s" % (p.name, n), "properties of %s share an id: %s" % (n, props), None)
        ck.log("harnesses ready: rust %d modules, ts %d modules" % (len(w.rust_mods), len(w.ts_mods)))
        if not self.model_ps: report_generation(ck, w, "rust"); raise core.CheckError("no protocol is usable from Rust")
        if not w.ts_mods: report_generation(ck, w, "ts"); raise core.CheckError("no protocol is usable from TypeScript")
        self.cases = models(ck, w, self.model_ps, depth, every, mutmax)
        for p in self.model_ps:
            if p.name != "large": continue
            t = w.large(p, 8, SIZES)
            ck.tlc(t)
            if len(t.records) != t.states - len(p.types): raise core.CheckError("TLC emitted %d of %d large cases" % (len(t.records), t.states - len(p.types)))
            self.cases[p.name] += t.records
            ck.notes["large_values"] = len(t.records)
        self.n = sum(len(c) for c in self.cases.values())
        ck.log("model: %d cases" % self.n)
    def each(self, mods):
        for p in self.model_ps:
            if p in mods:
                for c in self.cases[p.name]:
                    yield p, c

def ident(p, c, lang):
    return "%s:%s/%s#%d" % (lang, p.name, c["t"], c["c"])

def enum_array(p, t): return p.uses_enum_array(t)

def roundtrip(ck, lang):
    fam = Fam(ck, depth=2 if ck.tier == "thorough" else 1, nrandom=6 if ck.tier == "thorough" else 2, large=True)
    w = fam.w
    report_generation(ck, w, lang)
    run, mods = (w.rust, w.rust_mods) if lang == "rust" else (w.ts, w.ts_mods)
    todo = list(fam.each(mods))
    packs = run([{"o": "p", "m": p.name, "t": c["t"], "v": c["v"], "s": c["seq"]} for p, c in todo])
    reads_in, idx = [], []
    for (p, c), r in zip(todo, packs):
        if "b" not in r:
            ck.violation(ident(p, c, lang), "packing failed: %s" % json.dumps(r)[:300], {"type": c["t"], "value": c["v"]})
            continue
        reads_in.append({"o": "r", "m": p.name, "c": [r["b"]]})
        idx.append((p, c, r["b"]))
    reads = run(reads_in)
    for (p, c, b), r in zip(idx, reads):
        ck.validated += 1
        data = {"protocol": p.text(), "type": c["t"], "value": c["v"], "package": b, "read": r}
        if "r" not in r:
            ck.violation(ident(p, c, lang), "reading its own package failed: %s" % json.dumps(r)[:300], data); continue
        st, ms, left = r["r"][0][:3]
        if st != "ok" or len(ms) != 1:
            ck.violation(ident(p, c, lang), "%s value %s: read gives %s, %d messages" % (c["t"], json.dumps(c["v"])[:200], st, len(ms)), data); continue
        t, v, _, _, seq = ms[0][:5]
        if t != c["t"] or seq != c["seq"] or canon(p, c["t"], v) != canon(p, c["t"], c["v"]) or left != 0:
            ck.violation(ident(p, c, lang), "%s value %s came back as %s %s (seq %s/%s, left %s)" % (
                c["t"], json.dumps(c["v"])[:200], t, json.dumps(v)[:200], c["seq"], seq, left), data)
    if todo:
        ck.sample({"protocol": todo[0][0].name, "type": todo[0][1]["t"], "value": todo[0][1]["v"], "package": todo[0][1]["b"]})
        ck.sample({"protocol": todo[-1][0].name, "type": todo[-1][1]["t"], "value": todo[-1][1]["v"]})
    ck.notes["values"] = len(todo)

def W01(ck):
    ck.assumptions += ["value domains: boundary patterns per scalar, nesting depth bounded; each-field-varied struct values",
                       "the JSON glue between specification values and Rust values is trusted"]
    roundtrip(ck, "rust")

def W02(ck):
    ck.assumptions += ["value domains: boundary patterns per scalar, nesting depth bounded; each-field-varied struct values",
                       "TypeScript run through esbuild (no type check) on node"]
    roundtrip(ck, "ts")

def W03(ck):
    fam = Fam(ck, depth=2 if ck.tier == "thorough" else 1, nrandom=6 if ck.tier == "thorough" else 2, large=True)
    w = fam.w
    report_generation(ck, w, "rust")
    report_generation(ck, w, "ts")
    todo = [x for x in fam.each(w.rust_mods)]
    tsok = set(p.name for p in w.ts_mods)
    cmds = [{"o": "p", "m": p.name, "t": c["t"], "v": c["v"], "s": c["seq"]} for p, c in todo]
    rb = w.rust(cmds)
    tsi = [i for i, (p, c) in enumerate(todo) if p.name in tsok]
    tb = dict(zip(tsi, w.ts([cmds[i] for i in tsi])))
    cross_rs, cross_ts = [], []
    for i, (p, c) in enumerate(todo):
        want = bytes(c["h"]) + bytes(c["b"])
        for lang, r in (("rust", rb[i]), ("ts", tb.get(i))):
            if r is None: continue
            ck.validated += 1
            if "b" not in r:
                ck.violation(ident(p, c, lang), "packing failed: %s" % json.dumps(r)[:300], {"type": c["t"], "value": c["v"]}); continue
            got = bytes.fromhex(r["b"])
            if len(got) < 26 or masked(got) != masked(want):
                ck.violation(ident(p, c, lang), "%s value %s: package differs from the documented layout\n got  %s\n want %s" % (
                    c["t"], json.dumps(c["v"])[:200], masked(got).hex(), masked(want).hex()),
                    {"protocol": p.text(), "type": c["t"], "value": c["v"], "got": got.hex(), "want": want.hex()})
            else:
                (cross_ts if lang == "rust" else cross_rs).append((p, c, r["b"]))
    for lang, lst, run in (("rust", cross_rs, w.rust), ("ts", [x for x in cross_ts if x[0].name in tsok], w.ts)):
        rs = run([{"o": "r", "m": p.name, "c": [b]} for p, c, b in lst])
        for (p, c, b), r in zip(lst, rs):
            ck.validated += 1
            ok = "r" in r and r["r"][0][0] == "ok" and len(r["r"][0][1]) == 1 and r["r"][0][1][0][0] == c["t"] and \
                canon(p, c["t"], r["r"][0][1][0][1]) == canon(p, c["t"], c["v"]) and r["r"][0][1][0][4] == c["seq"]
            if not ok:
                ck.violation(ident(p, c, lang + "-reads"), "%s does not read what the other side wrote: %s value %s -> %s" % (
                    lang, c["t"], json.dumps(c["v"])[:200], json.dumps(r)[:300]), {"package": b})
    ck.sample({"type": todo[0][1]["t"], "value": todo[0][1]["v"], "header": todo[0][1]["h"], "body": todo[0][1]["b"]})
    ck.sample({"type": todo[-1][1]["t"], "value": todo[-1][1]["v"]})

def judge(ck, lang, p, c, what, data, exp_s, exp_v, r, mid):
    """Compares one read with the specification's verdict on the body."""
    key = "%s:%s/%s#%d:%s" % (lang, p.name, c["t"], c["c"], what)
    if "skipped" in r: return
    if "r" not in r:
        ck.violation(key, "reading %s of %s: %s" % (what, c["t"], json.dumps(r)[:300]), data); return
    st = "ok" if all(x[0] == "ok" for x in r["r"]) else "err"
    ms = [m for x in r["r"] for m in x[1]]
    if exp_s == "ok":
        if st != "ok" or len(ms) != 1 or ms[0][0] != c["t"] or canon(p, c["t"], ms[0][1]) != canon(p, c["t"], exp_v):
            ck.violation(key, "%s of %s: expected the value %s, got %s" % (what, c["t"], json.dumps(exp_v)[:200], json.dumps(r)[:300]), data)
    elif exp_s == "err":
        if st == "ok" or ms:
            ck.violation(key, "%s of %s has to be rejected, got %s" % (what, c["t"], json.dumps(r)[:300]), data)
    else:
        if st == "ok" and len(ms) != 1 or st != "ok" and ms:
            ck.violation(key, "%s of %s: neither delivered nor rejected: %s" % (what, c["t"], json.dumps(r)[:300]), data)
    left = r["r"][-1][2]
    if left != 0:
        ck.violation(key + ":left", "%s of %s leaves %d bytes" % (what, c["t"], left), data)

def W04(ck):
    fam = Fam(ck, depth=1, nrandom=6 if ck.tier == "thorough" else 2)
    w = fam.w
    for lang, run, mods in (("rust", w.rust, w.rust_mods), ("ts", w.ts, w.ts_mods)):
        todo = []
        for p, c in fam.each(mods):
            # the plain body first: order variants are judged against the value itself
            for m, b, s, v in [["plain", c["b"], "ok", c["v"]]] + c["sh"]:
                todo.append((p, c, m, b, s, v))
        rs = run([{"o": "r", "m": p.name, "c": [wire.package(c["h"], b).hex()]} for p, c, m, b, s, v in todo])
        for (p, c, m, b, s, v), r in zip(todo, rs):
            ck.validated += 1
            judge(ck, lang, p, c, m, {"protocol": p.text(), "body": bytes(b).hex()}, s, v, r, None)
        if todo:
            ck.sample({"lang": lang, "type": todo[-1][1]["t"], "variant": todo[-1][2], "body": todo[-1][3], "verdict": todo[-1][4]})
    # a property of a mandatory field that is too short for its type: the damaged bodies of small cases
    fam2 = fam
    ck.notes["bodies"] = ck.validated

# enum arrays are not usable in the generated TypeScript code (known findings); streams over them are left to Rust
TS_ARRAYS = {"enumarr", "enumoptarr", "enumstructarr"}

def W05(ck):
    th = ck.tier == "thorough"
    fam = Fam(ck, depth=1, every=11 if not th else 2, mutmax=120 if not th else 400, nrandom=2)
    w = fam.w
    rng = random.Random(core.SEED * 77 + 5)
    for lang, run, mods in (("rust", w.rust, w.rust_mods), ("ts", w.ts, w.ts_mods)):
        todo = []
        for p, c in fam.each(mods):
            for m, i, s, v in c["dm"]:
                todo.append((p, c, "%s%d" % (m, i), wire.apply(c["b"], m, i), s, v))
            for i, (m, b, s, v) in enumerate(c["rs"]):
                todo.append((p, c, "%s%d" % (m, i + 1), b, s, v))
        rs = run([{"o": "r", "m": p.name, "c": [wire.package(c["h"], b).hex()]} for p, c, m, b, s, v in todo])
        for (p, c, m, b, s, v), r in zip(todo, rs):
            ck.validated += 1
            judge(ck, lang, p, c, m, {"protocol": p.text(), "body": bytes(b).hex()}, s, v, r, None)
        ck.log("%s: %d damaged bodies" % (lang, len(todo)))
        ck.notes["damaged_" + lang] = len(todo)
        if todo:
            x = todo[len(todo) // 2]
            ck.sample({"lang": lang, "type": x[1]["t"], "damage": x[2], "verdict": x[4]})
    # random streams: several packages, damaged at random places (headers included), judged by TLC afterwards
    recs = {}
    per = 400 if th else 60
    for p in fam.model_ps:
        cs = [c for c in fam.cases[p.name] if len(c["b"]) <= 160]
        if not cs: continue
        for n in range(per):
            b = bytearray()
            for c in rng.sample(cs, min(len(cs), rng.randint(1, 3))):
                b += bytes(c["h"]) + bytes(c["b"])
            for _ in range(rng.choice([0, 1, 1, 2, 3, 6])):
                k = rng.random()
                pos = rng.randrange(len(b)) if len(b) else 0
                if k < 0.3: b[pos] = rng.choice([0, 1, 255, 128, 64, b[pos] ^ (1 << rng.randrange(8))])
                elif k < 0.45: del b[pos:pos + rng.randint(1, 8)]
                elif k < 0.6: b[pos:pos] = bytes(rng.randrange(256) for _ in range(rng.randint(1, 6)))
                elif k < 0.7: b = b[:pos]
                elif k < 0.85 and len(b) >= 26: b[18 + rng.randrange(8)] = rng.choice([0, 1, 255, 127])
                elif len(b) >= 6: b[rng.randrange(6)] = rng.randrange(256)
                if not b: b = bytearray(b"\0")
            if rng.random() < 0.1: b = bytearray(rng.randrange(256) for _ in range(rng.randint(0, 90)))
            recs.setdefault(p.name, []).append(bytes(b))
    nrec = 0
    for lang, run, mods in (("rust", w.rust, w.rust_mods), ("ts", w.ts, w.ts_mods)):
        names = set(p.name for p in mods) - (TS_ARRAYS if lang == "ts" else set())
        todo = [(p, b) for p in fam.model_ps if p.name in names for b in recs.get(p.name, [])]
        rs = run([{"o": "r", "m": p.name, "c": [b.hex()] + [""] * 8} for p, b in todo])
        bym = {}
        for (p, b), r in zip(todo, rs):
            key = "%s:%s:stream:%s" % (lang, p.name, b.hex())
            if "skipped" in r: continue
            if "r" not in r:
                ck.violation(key, "reading a damaged stream: %s" % json.dumps(r)[:300], {"protocol": p.text(), "stream": b.hex()}); continue
            got, bad = [], None
            for x in r["r"]:
                for m in x[1]:
                    if m[0].startswith("!") or m[0] == "?" or m[1] is None: bad = m[0]
                    got.append({"t": m[0], "v": canon(p, m[0], m[1]) if m[0] in p.byname else m[1], "seq": list(m[4].to_bytes(4, "little"))})
            if bad is not None:
                ck.violation("%s:%s/%s" % (lang, p.name, "stream:" + b.hex()), "a damaged stream is read as %s" % json.dumps(r)[:300], {"protocol": p.text(), "stream": b.hex()}); continue
            errs = sum((x[3] if len(x) > 3 else (0 if x[0] == "ok" else 1)) for x in r["r"])
            bym.setdefault(p.name, []).append(({"b": list(b), "got": got, "errs": errs, "left": r["r"][-1][2]}, key, r))
        def validate(item):
            # judged by the specification
            name, lst = item
            p = fam.byname[name]
            d = os.path.join(w.work, "judge_%s_%s" % (lang, name)); os.makedirs(d)
            json.dump(p.schema(w.ids[name], w.sig[name]), open(os.path.join(d, "schema.json"), "w"))
            json.dump([x[0] for x in lst], open(os.path.join(d, "records.json"), "w"))
            cfg = "CONSTANTS\n Depth = 1\n MutEvery = 0\n MutMax = 0\nSPECIFICATION JSpec\nINVARIANT JEmit\nCHECK_DEADLOCK FALSE\n"
            return lst, p, tlc.run("Wire", cfg, d, env={"WIRE_SCHEMA": os.path.join(d, "schema.json"), "WIRE_RECORDS": os.path.join(d, "records.json")}, workers=1)
        with ThreadPoolExecutor(6) as ex:
            for lst, p, t in ex.map(validate, sorted(bym.items())):
                ck.tlc(t)
                nrec += len(lst)
                if t.states != len(lst): raise core.CheckError("TLC judged %d of %d streams" % (t.states, len(lst)))
                for rec in t.records:
                    x, key, r = lst[rec["rec"] - 1]
                    # the only leeway taken outside the specification: NaN payloads
                    items = [dict(i, v=canon(p, i["t"], i["v"])) if i["k"] == "ok" else i for i in rec["items"]]
                    if explains(items, x["got"]) and ok_errs(items, x["errs"]) and x["left"] == rec["left"]: continue
                    ck.violation(key, "a damaged stream is read as %s; the specification allows %s, left %d" % (
                        json.dumps(x)[-400:], json.dumps(items)[:400], rec["left"]), {"protocol": p.text(), "read": r, "items": rec})
    ck.validated += nrec
    ck.notes["random_streams"] = nrec
    ck.log("random streams judged: %d" % nrec)
    # memory and stack: big streams of tiny packages, and huge declared lengths
    p = fam.byname.get("structs")
    if p in w.rust_mods:
        c = [x for x in fam.cases["structs"] if x["t"] == "Empty"][0]
        one = bytes(c["h"]) + bytes(c["b"])
        for lang, run, mods in (("rust", w.rust, w.rust_mods), ("ts", w.ts, w.ts_mods)):
            if p not in mods: continue
            for n in (100, 3000, 20000):
                r = run([{"o": "r", "m": "structs", "c": [(one * n).hex()]}], line_timeout=60)[0]
                ck.validated += 1
                if "r" not in r or len(r["r"][0][1]) != n:
                    ck.violation("%s:structs:many" % lang, "%d small packages in one chunk: %s" % (n, json.dumps(r)[:200]), None)
                    break

def explains(items, got):
    if not items: return not got
    it = items[0]
    if it["k"] == "ok":
        return bool(got) and got[0]["t"] == it["t"] and got[0]["v"] == it["v"] and got[0]["seq"] == it["seq"] and explains(items[1:], got[1:])
    if it["k"] == "err": return explains(items[1:], got)
    return explains(items[1:], got) or (bool(got) and got[0]["t"] == it["t"] and explains(items[1:], got[1:]))

def ok_errs(items, n):
    e = sum(1 for i in items if i["k"] == "err"); a = sum(1 for i in items if i["k"] == "any")
    return e <= n <= e + a

def proto_accept():
    S, E, F = proto.S, proto.E, proto.F
    pr = ["u8", "u16", "u32", "u64", "i8", "i16", "i32", "i64", "f32", "f64", "bool", "str"]
    return proto.Protocol("accept", S("Empty"), S("Plain", *[F(t, "f_" + t) for t in pr]), S("Opts", *[F(t, "o_" + t, opt=True) for t in pr]),
        S("Arrs", *[F(t, "a_" + t, rep=True) for t in pr]), S("OptArrs", *[F(t, "p_" + t, rep=True, opt=True) for t in pr]),
        S("In", F("u16", "q"), F("str", "t", opt=True)), E("En", *[F(t, "v_" + t) for t in pr]), E("EnS", F("In", "s"), F("u8", "b", rep=True), F("str", "c", rep=True)),
        S("Refs", F("In", "r"), F("In", "ro", opt=True), F("In", "ra", rep=True), F("In", "rao", rep=True, opt=True)),
        S("Enums", F("En", "e"), F("EnS", "s"), F("u8", "last")), S("OptEnums", F("En", "e", opt=True), F("EnS", "s", opt=True), F("u8", "last")),
        proto.G("Gr", S("Deep", F("u32", "n"), F("In", "i")), proto.G("Er", S("Deeper", F("Gr.Deep", "d", opt=True), F("i64", "m", rep=True)))))

def W06(ck):
    th = ck.tier == "thorough"
    rng = random.Random(core.SEED * 1000 + 29)
    ps = [proto_accept()] + [x for x in proto.catalogue() if x.name not in RUST_ONLY and x.name not in TS_ARRAYS and (th or max(len(d.f) for _, d, _ in x.types) <= 24)] + [proto.random_protocol(rng, "rnd%d" % i) for i in range(6 if th else 1)]
    w = wire.Wire(core.fresh(ck.prop, "wire"), ps, log=ck.log)
    w.learn()
    for n, why in list(w.bad.items()) + list(w.ts_bad.items()):
        ck.violation("ts-unusable:%s" % n, "generated typescript code for protocol %s is unusable: %s" % (n, why), None)
    names = set(p.name for p in w.ts_mods)
    use = [p for p in w.rust_mods if p.name in names and len(w.ids.get(p.name, {})) == len(p.types)]
    if not use: raise core.CheckError("no protocol is usable")
    def one(p):
        d = os.path.join(w.work, "accept_" + p.name); os.makedirs(d)
        json.dump(p.schema(w.ids[p.name], w.sig[p.name]), open(d + "/schema.json", "w"))
        cfg = "CONSTANTS\n Depth = 0\n MutEvery = 0\n MutMax = 0\nSPECIFICATION ASpec\nINVARIANTS Sound AEmit\nCHECK_DEADLOCK FALSE\n"
        return p, tlc.run("Accept", cfg, d, env={"WIRE_SCHEMA": d + "/schema.json"}, workers=2), w.model(p, 2, depth=1 if th or p.name == "accept" else 0, every=3 if th else 40, mutmax=200 if th else 60)
    todo, bodies, picks = [], [], []
    with ThreadPoolExecutor(4) as ex:
        for p, t, t2 in ex.map(one, use):
            ck.tlc(t); ck.tlc(t2)
            todo += [(p, r) for r in t.records]
            for c in t2.records:
                bodies += [(p, c, "plain", c["b"], "ok", c["v"])] + [(p, c, m, b, s, v) for m, b, s, v in c["sh"]]
                bodies += [(p, c, "%s%d" % (m, i), wire.apply(c["b"], m, i), s, v) for m, i, s, v in c["dm"]] + [(p, c, m, b, s, v) for m, b, s, v in c["rs"]]
            for n, d, _ in p.types:
                if d.k == "enum":
                    own = [c["v"] for c in t2.records if c["t"] == n]
                    for j, v in enumerate(own):
                        w2 = [x for x in own[j:] + own[:j] if x[0] != v[0]][:1]
                        picks += [(p, n, v, None)] + [(p, n, v, x) for x in w2]
    ck.log("%d objects, %d bodies" % (len(todo), len(bodies)))
    rs = w.ts([{"o": "f", "m": p.name, "t": c["t"], "v": c["base"], "p": c["p"], "x": c["x"], "a": c["alts"], "s": c["seq"]} for p, c in todo])
    for (p, c), r in zip(todo, rs):
        if "skipped" in r: continue
        ck.validated += 1
        key = "from:%s/%s:%s=%s" % (p.name, c["t"], "".join(c["p"]), c["x"])
        place = "/".join(([p.byname[c["t"]][1].f[int(c["p"][0][1:])].name] + c["p"][1:]) if c["p"] else ["the object"])
        what = "%s.from with %s = %s" % (c["t"], place, c["x"])
        data = {"protocol": p.text(), "type": c["t"], "base": c["base"], "place": c["p"], "holds": c["x"], "verdict": c["a"], "answer": r}
        if c["a"] == "yes":
            if "b" not in r: ck.violation(key, "%s is refused: %s" % (what, json.dumps(r)[:200]), data)
            elif masked(bytes.fromhex(r["b"])) != masked(bytes(c["h"]) + bytes(c["b"])):
                ck.violation(key, "%s is another message than the object says: %s" % (what, r["b"]), data)
        elif c["a"] == "no":
            if "no" not in r: ck.violation(key, "%s has to be refused with an error, got %s" % (what, json.dumps(r)[:200]), data)
        elif "no" not in r and "b" not in r and "panic" not in r: ck.violation(key, "%s: %s" % (what, json.dumps(r)[:200]), data)
    rs = w.ts([{"o": "y", "m": p.name, "t": c["t"], "b": bytes(b).hex(), "k": i % 3} for i, (p, c, m, b, s, v) in enumerate(bodies)])
    for (p, c, m, b, s, v), r in zip(bodies, rs):
        if "skipped" in r: continue
        ck.validated += 1
        key = "bytes:%s/%s#%d:%s" % (p.name, c["t"], c["c"], m)
        ok = s == "any" or (s == "ok" and "v" in r and canon(p, c["t"], r["v"]) == canon(p, c["t"], v)) or (s == "err" and "no" in r)
        if not ok: ck.violation(key, "%s.from of the %s body: expected %s %s, got %s" % (c["t"], m, s, json.dumps(v)[:200], json.dumps(r)[:200]), {"protocol": p.text(), "body": bytes(b).hex(), "answer": r})
    # enums by themselves: one variant is the value, two are refused
    rs = w.ts([{"o": "e", "m": p.name, "t": n, "v": v, "w": x} for p, n, v, x in picks])
    for (p, n, v, x), r in zip(picks, rs):
        if "skipped" in r: continue
        ck.validated += 1
        if x is None: ok = "v" in r and canon(p, n, r["v"]) == canon(p, n, v)
        else: ok = "no" in r
        if not ok: ck.violation("enum:%s/%s:%s" % (p.name, n, json.dumps([v, x])[:60]), "%s.from of an object with variant %d%s: got %s" % (n, v[0], "" if x is None else " and variant %d, which has to be refused" % x[0], json.dumps(r)[:200]), {"protocol": p.text(), "value": v, "and": x, "answer": r})
    ck.notes["objects"] = len(todo); ck.notes["enums"] = len(picks); ck.notes["bodies"] = len(bodies)
    if todo: ck.sample({"type": todo[0][1]["t"], "place": todo[-1][1]["p"], "holds": todo[-1][1]["x"], "verdict": todo[-1][1]["a"]})
    if bodies: ck.sample({"type": bodies[-1][1]["t"], "variant": bodies[-1][2], "body": bodies[-1][3], "verdict": bodies[-1][4]})

CHECKS = {"W06": W06, "W01": W01, "W02": W02, "W03": W03, "W04": W04, "W05": W05}
