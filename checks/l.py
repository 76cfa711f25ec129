"""L01..L03: the protocol language (spec/ProtoGrammar.tla, spec/ProtoScope.tla, spec/Ids.tla)."""
import json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import core, wire, proto, tlc
from checks import w as W

PRELUDE = ["struct", "P", "{", "u8", "N", ";", "}", "group", "Q", "{", "struct", "R", "{", "u16", "N", ";", "}", "}"]
WORDS = ("group", "struct", "enum", "u8", "u16", "str", "P", "Q", "R", "N")
BROKEN = {"0N": "1abc", "#": "#", "N-N": "ab-cd", "N#": "ab#", "~": "\u00e9"}

def spell(toks):
    """Names become distinct identifiers; everything else stands for itself."""
    out, n = [], 0
    for t in toks:
        if t == "N":
            n += 1
            out.append(["Na%d" % n, "_x%d" % n, "n_%d_z" % n, "_%d" % n, "N%dA__" % n, "__%d_" % n, "x%d" % n][n % 7])
        else:
            out.append(BROKEN.get(t, t))
    return out

def word(t): return t[0].isalnum() or t[0] == "_" or t[0] == "\u00e9"

def layout(toks, kind, rng=None):
    if kind == "tight":
        o = ""
        for t in toks:
            if o and word(o[-1]) and word(t): o += " "
            o += t
        return o
    if kind == "lines": return "\n".join(toks) + "\n"
    if kind == "crlf": return "\r\n".join(toks) + "\r\n"
    if kind == "tabs": return "\t \n\t " + "\t  ".join(toks) + "  \n\n"
    if kind == "pretty":
        o, ind = "", 0
        for t in toks:
            if t == "}": ind = max(0, ind - 1); o = o.rstrip(" ") + "    " * ind + "}\n" + "    " * ind
            elif t == "{": ind += 1; o += " {\n" + "    " * ind
            elif t == ";": o += ";\n" + "    " * ind
            else: o += (" " if o and word(o[-1]) and word(t) else "") + t
        return o
    raise KeyError(kind)
LAYOUTS = ("tight", "lines", "pretty", "tabs", "crlf")

class Runner:
    """Feeds sources to the generator; every run in a directory of its own."""
    def __init__(self, work):
        self.work, self.n = work, 0
        core.build_cli()
    def many(self, texts, ts=True):
        def one(ix):
            i, text = ix
            d = os.path.join(self.work, "r%d" % i)
            os.makedirs(d)
            with open(os.path.join(d, "a.prot"), "w", newline="") as f: f.write(text)
            g = core.gen(["-s", "a.prot", "-rs", "a.rs"] + (["-ts", "a.ts"] if ts else []) + ["-e"], d, timeout=20)
            files = sorted(x for x in os.listdir(d) if x != "a.prot")
            rs = open(os.path.join(d, "a.rs"), encoding="utf-8").read() if "a.rs" in files else None
            tsx = open(os.path.join(d, "a.ts"), encoding="utf-8").read() if "a.ts" in files else None
            shutil.rmtree(d)
            return g, files, rs, tsx
        out = []
        with ThreadPoolExecutor(8) as ex:
            base = self.n
            self.n += len(texts)
            return list(ex.map(one, [(base + i, t) for i, t in enumerate(texts)]))

def accepted(r, ts=True): return r[0].ok and r[1] == (["a.rs", "a.ts"] if ts else ["a.rs"])
def refused(r): return (not r[0].ok) and r[1] == [] and not r[0].timed_out and not r[0].panicked and (r[0].out + r[0].err).strip() != ""
def told(r): return "exit %s, files %s, hang %s, said %r" % (r[0].rc, r[1], r[0].timed_out, (r[0].out.strip() + " " + r[0].err.strip())[-200:])

def unhash(s): return re.sub(r"[0-9A-F]{64}", "HASH", s) if s is not None else None

def L01(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["names: one fresh identifier class, two primitive types, one top level struct, one struct in a group",
                       "duplicate names and keywords used as names are left open by the language and not judged"]
    work = core.fresh(ck.prop, "run")
    cfgs = [(3, 3, 24)] if th else [(1, 2, 16)]
    seen = {}
    for h, d, m in cfgs:
        t = tlc.run("ProtoGrammar", "CONSTANTS\n MaxDepth = %d\n MaxToks = %d\n Hist = %d\nSPECIFICATION Spec\nVIEW View\n"
                    "INVARIANTS TypeOK Viable Replay Broken2 Emit\nCHECK_DEADLOCK FALSE\n" % (d, m, h), os.path.join(work, "tlc"), workers=1)
        ck.tlc(t)
        for r in t.records:
            if r["v"] == "open": continue
            seen[tuple(r["t"])] = r["v"]
            for c in r["c"]: seen[tuple(r["t"] + c)] = "accept"
            for x in r["x"]: seen[tuple(r["t"] + x)] = "reject"
    run = Runner(work)
    cases = sorted(seen.items())
    ck.log("%d token sequences (%d accepted)" % (len(cases), sum(1 for _, v in cases if v == "accept")))
    # rejected sequences: one layout each (rotating), accepted ones: all layouts
    todo = []
    for i, (toks, v) in enumerate(cases):
        full = spell(PRELUDE + list(toks))
        for k, l in enumerate(LAYOUTS):
            if v == "accept" or i % len(LAYOUTS) == k: todo.append((toks, v, l, layout(full, l)))
    res = run.many([x[3] for x in todo])
    base = {}
    for (toks, v, l, text), r in zip(todo, res):
        ck.validated += 1
        key = "%s:%s" % (l, " ".join(toks))
        if v == "accept":
            if not accepted(r): ck.violation(key, "a well formed source is not accepted (%s): %s -- %s" % (l, " ".join(toks), told(r)), {"source": text}); continue
            if toks not in base: base[toks] = (unhash(r[2]), unhash(r[3]))
            elif base[toks] != (unhash(r[2]), unhash(r[3])):
                ck.violation(key, "the layout changes the outcome of %s" % " ".join(toks), {"source": text})
        elif not refused(r):
            ck.violation(key, "a malformed source is not refused (%s): %s -- %s" % (l, " ".join(toks), told(r)), {"source": text})
    ck.sample({"tokens": cases[0][0], "verdict": cases[0][1]}); ck.sample({"tokens": cases[len(cases) // 2][0], "verdict": cases[len(cases) // 2][1]})
    # longer sources with random edits, judged by the same automaton
    rng = random.Random(core.SEED * 13 + 1)
    seqs = []
    def src(depth, n):
        o = []
        for _ in range(n):
            k = rng.random()
            if depth < 3 and k < 0.3: o += ["group", "N", "{"] + src(depth + 1, rng.randint(0, 3)) + ["}"]
            else:
                e = k > 0.7
                o += ["enum" if e else "struct", "N", "{"]
                for _ in range(rng.randint(0, 4)):
                    ty = rng.choice([["u8"], ["str"], ["P"], ["Q", ".", "R"]])
                    if e and rng.random() < 0.5: o += ["N", ";"]; continue
                    o += ty + (["[", "]"] if rng.random() < 0.3 else []) + ["N"] + (["?"] if not e and rng.random() < 0.3 else []) + [";"]
                o += ["}"]
        return o
    alpha = ["u8", "str", "P", "Q", "R", "N", "group", "struct", "enum", "{", "}", ";", "?", "[", "]", ".", "0N", "#", "N-N", "N#", "~"]
    for _ in range(6000 if th else 1200):
        s = src(0, rng.randint(1, 4))
        for _ in range(rng.choice([0, 1, 1, 1, 2, 3])):
            if not s: break
            i = rng.randrange(len(s)); k = rng.random()
            if k < 0.2: j = min(len(s), i + rng.randint(1, 4)); h = rng.choice([j, j, rng.randrange(len(s) + 1)]); s[h:h] = s[i:j]
            elif k < 0.4: del s[i]
            elif k < 0.6: s.insert(i, rng.choice(alpha))
            elif k < 0.8: s[i] = rng.choice(alpha)
            elif k < 0.9: j = rng.randrange(len(s)); s[i], s[j] = s[j], s[i]
            else: s = s[:i]
        seqs.append(s)
    rp = os.path.join(work, "records.json")
    json.dump(seqs, open(rp, "w"))
    t = tlc.run("ProtoGrammar", "CONSTANTS\n MaxDepth = 9\n MaxToks = 99\n Hist = 1\nSPECIFICATION JSpec\nINVARIANT JEmit\nCHECK_DEADLOCK FALSE\n",
                os.path.join(work, "tlcj"), env={"PROTO_RECORDS": rp}, workers=4)
    ck.tlc(t)
    if len(t.records) != len(seqs): raise core.CheckError("TLC judged %d of %d sources" % (len(t.records), len(seqs)))
    verd = {r["rec"] - 1: r["v"] for r in t.records}
    todo = [(s, verd[i], LAYOUTS[i % len(LAYOUTS)]) for i, s in enumerate(seqs) if verd[i] != "open"]
    texts = [layout(spell(PRELUDE + s), l) for s, v, l in todo]
    for (s, v, l), text, r in zip(todo, texts, run.many(texts)):
        ck.validated += 1
        key = "%s:%s" % (l, " ".join(s))
        if v == "accept" and not accepted(r): ck.violation(key, "a well formed source is not accepted (%s): %s -- %s" % (l, " ".join(s), told(r)), {"source": text})
        if v == "reject" and not refused(r): ck.violation(key, "a malformed source is not refused (%s): %s -- %s" % (l, " ".join(s), told(r)), {"source": text})
    ck.notes["random_sources"] = len(todo)
    ck.notes["random_accepted"] = sum(1 for x in todo if x[1] == "accept")

# ---------------------------------------------------------------------------------------------------------------- L02
# what T is, by the group that holds it: all distinguishable on the wire
def tdef(site):
    F, S, E = proto.F, proto.S, proto.E
    return {(): S("T", F("u8", "r1")), ("G",): S("T", F("u16", "g1"), F("u8", "g2")), ("G", "H"): E("T", F("u32", "gh1"), F("u8", "gh2")),
            ("G", "G"): S("T", F("u64", "gg1")), ("H",): E("T", F("u16", "h1"), F("str", "h2")), ("H", "G"): S("T", F("str", "hg1"), F("i16", "hg2")),
            ("H", "H"): S("T", F("i32", "hh1"), F("i32", "hh2", opt=True)),
            ("G", "H", "I"): S("T", F("u8", "i1"), F("str", "i2"), F("u8", "i3")), ("G", "H", "I", "K"): E("T", F("i64", "k1"), F("u8", "k2"), F("str", "k3")),
            ("G", "H", "I", "K", "L"): S("T", F("u16", "l1", rep=True), F("i8", "l2")),
            ("G", "H", "I", "G"): S("T", F("i8", "m1"), F("i8", "m2"), F("i8", "m3")), ("G", "H", "I", "G", "L"): E("T", F("f64", "n1"), F("bool", "n2"))}[site]

def build(doc, here, x):
    """The document as protocol items; x: the items to place at the reference."""
    root = []
    stackv, path = [root], ()
    for d in doc:
        if d[0] == "open":
            g = proto.G(d[1]); stackv[-1].append(g); stackv.append(g.items); path += (d[1],)
        elif d[0] == "close": stackv.pop(); path = path[:-1]
        elif d[0] == "T": stackv[-1].append(tdef(path))
        else: stackv[-1].extend(x)
    return root

class Scoped(proto.Protocol):
    def __init__(self, name, items, here, means):
        self.here, self.means = tuple(here), means
        super().__init__(name, *items)
    def resolve(self, ref, path):
        if path == self.here and ref in self.means: return self.means[ref]
        return super().resolve(ref, path)

def L02(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["one type name, two group names, two levels of groups; up to %d items in front of the reference; five levels of groups where each level has one name (the fourth two, one of them that of the first), up to %d items" % (6 if th else 5, 9 if th else 7)]
    work = core.fresh(ck.prop, "run")
    cf = 'CONSTANTS\n Names = {"G", "H"}\n Depth = %d\n Deep = %s\n Steps = %d\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Sane FullPath Emit\nCHECK_DEADLOCK FALSE\n'
    t = tlc.run("ProtoScope", cf % (2, "FALSE", 6 if th else 5), os.path.join(work, "tlc"), workers=1)
    ck.tlc(t)
    # groups within groups, further down
    deep = tlc.run("ProtoScope", cf % (5, "TRUE", 9 if th else 7), os.path.join(work, "deep"), workers=1)
    ck.tlc(deep)
    wide, ladders = t.records, deep.records
    F, S, E = proto.F, proto.S, proto.E
    run = Runner(work)
    # 1. accepted or not, one reference per source, as a field and as an enum item
    todo = []
    rng = random.Random(core.SEED)
    some = [r for r in ladders if len(r["here"]) > 2]
    for i, r in enumerate(wide + (some if th else rng.sample(some, 160))):
        if not th and i < len(wide) and sum(1 for d in r["doc"] if d[0] in ("open", "T")) > 4: continue
        for x in r["refs"]:
            ref = ".".join(x["f"] + ["T"])
            for n, it in enumerate((S("X", F(ref, "f")), E("X", F(ref, "f")), S("X", F(ref, "f", opt=True)), S("X", F(ref, "f", rep=True)))):
                if n >= 2 and (i + n) % 4: continue
                if not x["d"] and (i + n) % (1 if th else 3): continue       # refusals: a third of them
                text = proto.Protocol("x", *build(r["doc"], r["here"], [it])).text()
                todo.append((r, x, ref, n, text))
    res = run.many([x[4] for x in todo], ts=False)
    for (r, x, ref, n, text), o in zip(todo, res):
        ck.validated += 1
        key = "accept:%s@%s:%d:%s" % (ref, ".".join(r["here"]), n, json.dumps(r["doc"]))
        if x["d"] and not accepted(o, ts=False): ck.violation(key, "the reference %s in group %r denotes %s, but is refused: %s" % (ref, ".".join(r["here"]), x["d"], told(o)), {"source": text})
        if not x["d"] and not refused(o): ck.violation(key, "the reference %s in group %r denotes nothing, but is not refused: %s" % (ref, ".".join(r["here"]), told(o)), {"source": text})
    ck.log("%d references accepted or refused" % len(todo))
    # 2. the layout of what is chosen: one protocol per document, a struct per reference
    protos, classes = [], {}
    def choose(records, limit):
        """greedy cover of (place, reference, meaning, shadowed) combinations"""
        cand, got = [], 0
        for i, r in enumerate(records):
            ok = [x for x in r["refs"] if x["d"]]
            if not ok: continue
            here = tuple(r["here"])
            cl = set()
            for x in ok:
                d = tuple(x["d"][0]); f = tuple(x["f"])
                others = sum(1 for q in r["doc"] if q[0] == "T") > 1
                cl.add((here, f, d, x["sh"], others))
            cand.append((i, r, ok, cl))
        uncovered = set().union(*[c[3] for c in cand])
        total = len(uncovered)
        rng.shuffle(cand)
        while uncovered and got < limit:
            i, r, ok, cl = max(cand, key=lambda c: sum(1 if x[3] else 3 for x in c[3] & uncovered))
            if not cl & uncovered: break
            uncovered -= cl
            got += 1
            means, xs = {}, []
            for k, x in enumerate(ok):
                ref = ".".join(x["f"] + ["T"])
                means[ref] = ".".join(x["d"][0] + ["T"])
                arr = tdef(tuple(x["d"][0])).k == "struct"
                nm = "Sh" if x["sh"] else "X"
                xs.append(S("%s%d" % (nm, k), F("u8", "a"), F(ref, "t"), F(ref, "o", opt=True), *([F(ref, "v", rep=True)] if arr else [])))
                if arr: xs.append(E("%sE%d" % (nm, k), F("u8", "n"), F(ref, "t")))
            protos.append(Scoped("s%d" % len(protos), build(r["doc"], r["here"], xs), r["here"], means))
        return total, total - len(uncovered)
    total, done = choose(wide, 150 if th else 36)
    more, also = choose(some, 80 if th else 12)
    total, done = total + more, done + also
    more, also = choose([r for r in some if len(r["here"]) == 5 and r["here"][3] == "G"], 20 if th else 4)
    total, done = total + more, done + also
    ck.notes["combinations"], ck.notes["combinations_covered"] = total, done
    ck.log("%d documents, %d of %d combinations of place, reference and meaning" % (len(protos), done, total))
    w = wire.Wire(core.fresh(ck.prop, "wire"), protos, log=ck.log)
    for lang, bad in (("rust", dict(w.bad, **w.rust_bad)), ("ts", dict(w.bad, **w.ts_bad))):
        for n, why in bad.items():
            p = [q for q in protos if q.name == n][0]
            sh = any(full.split(".")[-1].startswith("Sh") for full, _, _ in p.types)
            ck.violation("%s:%s:%s" % (lang, "shadowed" if sh and lang == "ts" else "plain", json.dumps([x[0] for x in p.types])),
                         "generated %s code is unusable: %s" % (lang, why), {"source": p.text()})
    w.learn()
    for k, why in w.learn_bad.items():
        ck.violation("pack:" + k, "generated Rust code cannot write a simple value of %s: %s" % (k, why), None)
    ps = [p for p in w.rust_mods if len(w.ids.get(p.name, {})) == len(p.types)]
    cases = {}
    def one(p): return p, w.model(p, 1)
    with ThreadPoolExecutor(8) as ex:
        for p, m in ex.map(one, ps):
            ck.tlc(m); cases[p.name] = m.records
    ck.log("model: %d cases" % sum(map(len, cases.values())))
    for lang, runl, mods in (("rust", w.rust, w.rust_mods), ("ts", w.ts, w.ts_mods)):
        todo = [(p, c) for p in ps if p in mods for c in cases[p.name] if c["t"].split(".")[-1][0] in "XS"]
        rs = runl([{"o": "p", "m": p.name, "t": c["t"], "v": c["v"], "s": c["seq"]} for p, c in todo])
        rd = runl([{"o": "r", "m": p.name, "c": [wire.package(c["h"], c["b"]).hex()]} for p, c in todo])
        for (p, c), a, b in zip(todo, rs, rd):
            ck.validated += 1
            sh = lang == "ts" and c["t"].split(".")[-1].startswith("Sh")
            key = "%s:%s:%s:%s" % (lang, "shadowed" if sh else "plain", c["t"], json.dumps([x[0] for x in p.types]))
            want = bytes(c["h"]) + bytes(c["b"])
            if "b" not in a or W.masked(bytes.fromhex(a["b"])) != W.masked(want):
                ck.violation(key, "%s %s is not written with the layout of what it refers to: %s" % (c["t"], json.dumps(c["v"])[:200], json.dumps(a)[:300]),
                             {"source": p.text(), "want": want.hex(), "got": a, "value": c["v"]})
            ok = "r" in b and b["r"][0][0] == "ok" and len(b["r"][0][1]) == 1 and b["r"][0][1][0][0] == c["t"] and W.canon(p, c["t"], b["r"][0][1][0][1]) == W.canon(p, c["t"], c["v"])
            if not ok:
                ck.violation(key, "%s %s is not read with the layout of what it refers to: %s" % (c["t"], json.dumps(c["v"])[:200], json.dumps(b)[:300]),
                             {"source": p.text(), "package": want.hex(), "read": b, "value": c["v"]})
    ck.sample({"source": ps[0].text(), "means": ps[0].means})
    ck.notes["layouts"] = len(protos)

# ---------------------------------------------------------------------------------------------------------------- L03
def shaped(name, doc, rng):
    """A protocol of the given shape (s, e, g, /)."""
    F, S, E, G = proto.F, proto.S, proto.E, proto.G
    stack, n = [[]], [0]
    groups = []
    for k in doc:
        n[0] += 1
        if k == "s": stack[-1].append(S("S%d" % n[0], *[F(rng.choice(["u8", "str", "u32"]), "f%d" % j, opt=rng.random() < 0.3) for j in range(rng.choice([0, 1, 3]))]))
        elif k == "e": stack[-1].append(E("E%d" % n[0], *[F("u8", "v%d" % j) for j in range(rng.choice([1, 2]))]))
        elif k == "g": stack.append([]); groups.append("G%d" % n[0])
        else: items = stack.pop(); stack[-1].append(G(groups.pop(), *items))
    return proto.Protocol(name, *stack[0])

def in_workflow(p, rng, work):
    """Generates producer and consumer of a small workflow over p in both languages; returns (protocol with the service messages, their files)."""
    F, S, G = proto.F, proto.S, proto.G
    structs = [n for n, d, _ in p.types if d.k == "struct"]
    conf, service = [], []
    own = rng.random() < 0.5 and structs
    if own: conf.append("SelfKey: %s;" % rng.choice(structs))
    else: service.append(S("SelfKeyRequest", F("str", "uuid", opt=True)))
    service.append(S("SelfKeyResponse", F("str", "uuid")))
    if rng.random() < 0.5 and structs: conf.append("AssignedKey: %s;" % rng.choice(structs))
    else: service.append(S("AssignedKey"))
    service += [S("HashRequest", F("str", "protocol"), F("str", "workflow")), S("HashResponse", F("str", "error", opt=True)),
                S("BeaconConfirmation", F("str", "error", opt=True)), S("ConnectConfirmationBeacon")]
    conf += ["Producer: rust typescript;", "Consumer: rust typescript;"]
    rng.shuffle(conf)
    wf = "&config {\n%s\n}\n" % "\n".join(conf)
    if structs: wf += "%s !%s {\n (%s);\n}\n" % tuple(rng.choice(structs) for _ in range(3))
    d = os.path.join(work, p.name)
    for x in "PC":
        os.makedirs(os.path.join(d, x, "out"))
        with open(os.path.join(d, x, "Cargo.toml"), "w") as f: f.write('[package]\nname = "x"\nversion = "0.1.0"\n\n[dependencies]\n')
        with open(os.path.join(d, x, "package.json"), "w") as f: f.write('{"name": "x", "version": "1.0.0"}\n')
    with open(os.path.join(d, "a.prot"), "w") as f: f.write(p.text())
    with open(os.path.join(d, "a.workflow"), "w") as f: f.write(wf)
    g = core.gen(["-s", "a.prot", "-wf", "a.workflow", "-pd", "P/out", "-cd", "C/out"], d)
    if not g.ok: raise core.Broken("refused:" + p.text(), "a plain workflow is refused: %s %s\n%s\n%s" % (g.last, g.err, p.text(), wf))
    def find(x, ext):
        """The rendering of the protocol in generated code: the file that defines the reader."""
        mark = "class BufferReaderMessages" if ext == ".ts" else "for Buffer<AvailableMessages>"
        hits = []
        for b, _, fs in os.walk(os.path.join(d, x, "out")):
            for f in fs:
                if f.endswith(ext) and mark in open(os.path.join(b, f), encoding="utf-8").read(): hits.append(os.path.join(b, f))
        if len(hits) != 1: raise core.Broken("renderings:" + x, "%d renderings of the protocol in %s" % (len(hits), x))
        return hits[0]
    full = proto.Protocol(p.name, *(p.items + [G("InternalServiceGroup", *service)]))
    return full, (find("P", ".rs"), find("P", ".ts")), (find("C", ".rs"), find("C", ".ts"))

def L03(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["documents of up to %d definitions and group brackets; 0 to 3 fields, 1 or 2 variants; groups nested twice" % (6 if th else 5),
                       "packages of simple values (the values themselves are W01..W03)"]
    work = core.fresh(ck.prop, "run")
    open(os.path.join(work, "none.json"), "w").write("[]")
    t = tlc.run("Ids", "SPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n", os.path.join(work, "tlc"),
                env={"IDS_MAX": "6" if th else "5", "IDS_RECORDS": os.path.join(work, "none.json")}, workers=1)
    ck.tlc(t)
    docs = sorted({tuple(r["doc"]) for r in t.records}, key=lambda d: (len(d), d))
    rng = random.Random(core.SEED * 7 + 3)
    plain = [d for d in docs if any(k in "se" for k in d)]
    pick = rng.sample([d for d in plain if len(d) >= 4], 60 if th else 20) + ([d for d in plain if len(d) < 4] if th else rng.sample([d for d in plain if len(d) < 4], 6))
    # longer documents: several of them one behind the other, every kind of definition behind every number of others
    for n in range(24 if th else 8):
        pick.append(sum((rng.choice(plain) for _ in range(2 + n % 5)), ()))
    for k in ("gs/", "e", "s", "ggs//"):
        pick.append(tuple("se" if k != "e" else "es") * 2 + tuple(k) + ("s",) + tuple(k) + ("s", "s") + tuple(k) + ("e",))
    for n in (1, 2, 3, 4, 6): pick.append(("s",) * n + tuple("gges/se/sge/g") + tuple("se"[n % 2]) + ("/",))
    ps = [shaped("d%d" % i, d, rng) for i, d in enumerate(pick)]
    big = proto.Protocol("big", *[proto.S("B%d" % i, *[proto.F("u8", "f%d" % j) for j in range(i * 13 % 41)]) for i in range(28)],
                         proto.G("G", *[proto.E("X%d" % i, proto.F("u8", "a"), proto.F("str", "b")) for i in range(6)]))
    ps += [big] + [proto.random_protocol(rng, "r%d" % i) for i in range(8 if th else 2)]
    # renderings: (group, protocol object); identical files are one rendering
    variants, files, todo = {}, {}, []
    embed = ps[::2] if not th else ps
    with ThreadPoolExecutor(8) as ex:
        embedded = dict(zip([p.name for p in embed], ex.map(lambda p: in_workflow(p, random.Random(p.name), work), embed)))
    for p in ps:
        variants[p.name] = [p]
        todo.append(p)
        if p.name not in embedded: continue
        full, fp, fc = embedded[p.name]
        same = all(open(a).read() == open(b).read() for a, b in zip(fp, fc))
        for tag, fs in ((("w", fp),) if same else (("wp", fp), ("wc", fc))):
            q = proto.Protocol(p.name + tag, *full.items)
            files[q.name] = fs; todo.append(q); variants[p.name].append(q)
    w = wire.Wire(core.fresh(ck.prop, "wire"), todo, log=ck.log, files=files)
    # generated code that does not compile at all is the business of W01..W03 and L02
    for n, why in {**w.bad, **w.rust_bad, **w.ts_bad}.items():
        if not n.startswith("r"): ck.violation("unusable:" + n, "the rendering of %s is unusable: %s" % (n, why), {"source": [q.text() for q in todo if q.name == n][0]})
    ck.log("%d protocols, %d renderings in each language" % (len(ps), len(todo)))
    rends = []                                  # (source, language, module)
    for p in ps:
        for q in variants[p.name]:
            if q.name in w.bad: continue
            if q in w.rust_mods: rends.append((p, "rs", q))
            if q in w.ts_mods: rends.append((p, "ts", q))
    run = {"rs": w.rust, "ts": w.ts}
    pk = {}
    for lang in run:
        cmds = [(p, q, n) for p, l, q in rends if l == lang for n, _, _ in q.types]
        for (p, q, n), r in zip(cmds, run[lang]([{"o": "p", "m": q.name, "t": n, "v": q.base_value(n), "s": 7} for p, q, n in cmds])):
            if "b" not in r: ck.violation("write:%s:%s" % (lang, p.text()), "%s of %s cannot be written (%s): %s" % (n, q.name, lang, json.dumps(r)[:300]), {"source": p.text()}); continue
            pk[lang, q.name, n] = bytes.fromhex(r["b"])
    events = {p.name: [] for p in ps}
    for p, lang, q in rends:
        for n, _, _ in q.types:
            b = pk.get((lang, q.name, n))
            if b: events[p.name].append({"e": "write", "r": lang + ":" + q.name, "m": n, "id": int.from_bytes(b[:4], "little"), "sig": int.from_bytes(b[4:6], "little")})
    for lang in run:
        jobs = []
        for p, l, q in rends:
            if l != lang: continue
            # what any rendering wrote for a message that this one has, and every id no message has
            chunks = sorted({(pk[k], k[2]) for k in pk if k[2] in q.byname and k[1] in [x.name for x in variants[p.name]]})
            for b, n in {(b[:6] + bytes(20) + b[26:], n): (b, n) for b, n in chunks}.values(): jobs.append((p, q, n, b))
            used = {e["id"] for e in events[p.name] if e["e"] == "write" and e["r"] == lang + ":" + q.name}
            some = next((b for (l2, m2, n2), b in pk.items() if l2 == lang and m2 == q.name), None)
            if some:
                for i in [x for x in range(max(used) + 3) if x not in used][:60]:
                    for body in (b"", some[26:]):
                        jobs.append((p, q, None, i.to_bytes(4, "little") + some[4:18] + len(body).to_bytes(8, "little") + body))
        for (p, q, n, b), r in zip(jobs, run[lang]([{"o": "r", "m": q.name, "c": [b.hex()]} for p, q, n, b in jobs])):
            i = int.from_bytes(b[:4], "little")
            ck.validated += 1
            got = r["r"][0][1] if "r" in r else []
            if len(got) == 1 and r["r"][0][0] == "ok": events[p.name].append({"e": "read", "r": lang + ":" + q.name, "m": got[0][0], "id": i, "sig": 0})
            elif not got and "r" in r and r["r"][0][0] != "ok": events[p.name].append({"e": "refuse", "r": lang + ":" + q.name, "m": n or "-", "id": i, "sig": 0})
            else: ck.violation("read:%s:%s" % (lang, p.text()), "a package with id %d is read as %s" % (i, json.dumps(r)[:300]), {"source": p.text(), "package": b.hex()})
    recs = [{"id": p.name, "events": events[p.name]} for p in ps if events[p.name]]
    rp = os.path.join(work, "records.json")
    json.dump(recs, open(rp, "w"))
    t = tlc.run("Ids", "SPECIFICATION JSpec\nINVARIANTS Injective OneSignature JEmit\nVIEW JShape\nCHECK_DEADLOCK FALSE\n",
                os.path.join(work, "tlcj"), env={"IDS_MAX": "1", "IDS_RECORDS": rp}, workers=4)
    ck.tlc(t)
    ok = {r["ok"] for r in t.records if "ok" in r}
    for r in t.records:
        if "ok" not in r:
            p = [q for q in ps if q.name == r["id"]][0]
            ck.violation("ids:" + p.text(), "%s of %s contradicts the ids seen before: %s" % (r["event"]["r"], r["id"], json.dumps(r["event"])), {"source": p.text(), "events": events[p.name][:r["at"]]})
    left = {r["id"] for r in recs} - ok - {r.get("id") for r in t.records}
    if left: raise core.CheckError("TLC did not judge %s" % sorted(left))
    ck.notes["renderings"] = len(rends)
    ck.notes["events"] = sum(len(e) for e in events.values())
    ck.sample({"source": ps[0].text(), "events": events[ps[0].name][:6]})

CHECKS = {"L01": L01, "L02": L02, "L03": L03}
