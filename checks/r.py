"""Projects that are generated again and again: what the user owns, what the generator owns, fingerprints, destinations."""
import json, os, random, re, shutil, tomllib
from concurrent.futures import ThreadPoolExecutor
from vlib import core, tlc
from checks import k as K

CHECKS = {}
CFG = "CONSTANTS Walks = %d Steps = %d Small = %s\nSPECIFICATION Spec\nINVARIANT Complete\nPROPERTY OwnStays Nothing\nCHECK_DEADLOCK FALSE\n"
CARGO = """[package]
name = "app"
version = "1.2.3"
edition = "2018"

[features]
default = ["mine"]
mine = []

[dependencies]
left-pad = "0.1"
own = { path = "../own", features = ["a", "b"] }

[profile.release]
lto = true
"""
PACKAGE = """{"name": "app", "version": "1.2.3", "scripts": {"build": "tsc", "x": "y"}, "dependencies": {"left-pad": "^1.0.0"}, "devDependencies": {"mocha": "*"}}"""

def manifests(base):
    """What the manifests say, without the dependencies that the generator needs."""
    c = tomllib.load(open(os.path.join(base, "Cargo.toml"), "rb"))
    p = json.load(open(os.path.join(base, "package.json")))
    return c, p

def kept(base):
    c, p = manifests(base)
    oc, op = tomllib.loads(CARGO), json.loads(PACKAGE)
    bad = []
    for what, o, n in (("Cargo.toml", oc, c), ("package.json", op, p)):
        for key in set(o) | set(n):
            if key == "dependencies":
                bad += ["%s: dependency %s" % (what, d) for d in o[key] if n.get(key, {}).get(d) != o[key][d]]
                if len(n.get(key, {})) <= len(o[key]): bad.append(what + ": needed dependencies are missing")
            elif o.get(key) != n.get(key): bad.append("%s: %s" % (what, key))
    return bad

def read(p):
    with open(p, "rb") as f: return f.read()

def files(base):
    """{path relative to base: bytes} of the generated sides (manifests excluded)"""
    o = {}
    for side in "pc":
        for l in ("rust", "typescript"):
            for r, _, fs in os.walk(os.path.join(base, side, l)):
                for f in fs: o[os.path.relpath(os.path.join(r, f), base)] = read(os.path.join(r, f))
    return o

def project(base):
    for s in "pc":
        os.makedirs(os.path.join(base, s))
        open(os.path.join(base, s, "Cargo.toml"), "w").write(CARGO); open(os.path.join(base, s, "package.json"), "w").write(PACKAGE)
    open(os.path.join(base, "a.prot"), "w").write(K.PROT)

def run(base, doc, style=0):
    open(os.path.join(base, "a.workflow"), "w").write(K.source(doc, style))
    return core.gen(["-s", "a.prot", "-wf", "a.workflow", "-pd", "p", "-cd", "c"], base, timeout=60)

def own(f, n, rng):
    """The text of the user: also nothing at all, bytes that are no text, something longer than any stub."""
    return [b"", b"// mine %d\n" % n, b"\xff\xfe\x00 %d" % n, b"// %d\n" % n + b"x" * 9000, ("// caf\u00e9 %d" % n).encode()][rng.randrange(5)]

def put(base, f, data):
    p = os.path.join(base, f)
    os.makedirs(os.path.dirname(p), exist_ok=True)
    with open(p, "wb") as h: h.write(data)

def docs_of(work):
    """The workflows of the spec."""
    t = tlc.run("Regen", CFG % (1, 0, "FALSE") + "INVARIANT EmitDocs\n", os.path.join(work, "docs"), workers=1)
    return t.records[0]["docs"]

def K03(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["five workflows over a fixed protocol, each with Rust and TypeScript targets; random histories of edits, removals, damage and runs"]
    work = core.fresh(ck.prop, "run")
    core.build_cli()
    t = tlc.run("Regen", CFG % (1, 0, "TRUE"), os.path.join(work, "small"))
    ck.states += t.states; ck.transitions += t.generated
    docs = docs_of(work)
    fresh = []
    for i, d in enumerate(docs):
        base = os.path.join(work, "fresh%d" % i)
        project(base)
        g = run(base, d)
        if not g.ok: ck.violation("fresh:%d" % i, "nothing generated for a sound workflow: %s" % (g.out + g.err)[-300:], {"workflow": K.source(d)}); return
        fresh.append(files(base))
    t = tlc.run("Regen", CFG % (400 if th else 64, 24 if th else 12, "FALSE"), os.path.join(work, "wide"), workers=1, extra=["-seed", str(core.SEED), "-fp", "1"])
    ck.states += t.states; ck.transitions += t.generated
    ck.exhaustive = False
    walks = {}
    for r in t.records: walks.setdefault(r["walk"], []).append(r)
    allusers = set(t.records[0]["user"])

    def walk(item):
        w, rs = item
        rng = random.Random(core.SEED * 1000 + w)
        base = os.path.join(work, "w%d" % w)
        project(base)
        mine, log, out, n = {}, [], [], 0        # mine: bytes of the files of the user
        prev = {f: "absent" for f in allusers}
        for r in sorted(rs, key=lambda r: r["step"]):
            op, now = r["op"], r["user"]
            if op["o"] in ("edit", "delete"):
                changed = []
                for f in sorted(now):
                    if op["o"] == "edit" and now[f] == "own" and (prev[f] != "own" or rng.random() < .3):
                        n += 1; mine[f] = own(f, n, rng); put(base, f, mine[f]); changed.append(f)
                    elif now[f] == "absent" and prev[f] != "absent":
                        os.remove(os.path.join(base, f)); mine.pop(f, None); changed.append(f)
                log.append([op["o"]] + changed)
            elif op["o"] == "spoil":
                impl = sorted(f for f in files(base) if f not in allusers)
                did = []
                for f in impl:
                    p, x = os.path.join(base, f), rng.randrange(8)
                    if x == 0: os.remove(p)
                    elif x == 1: put(base, f, b"")
                    elif x == 2: put(base, f, read(p) + b"\n// leftover\n" * 400)
                    elif x == 3: put(base, f, b"\xff" + read(p)[: len(read(p)) // 2])
                    elif x == 4 and f in fresh[rng.randrange(len(fresh))]: put(base, f, next(fr[f] for fr in rng.sample(fresh, len(fresh)) if f in fr))
                    else: continue
                    did.append("%s %s" % (["remove", "empty", "append to", "garble", "replace"][x], f))
                log.append(["spoil"] + did)
            else:
                g = run(base, docs[op["k"] - 1])
                log.append(["gen", op["k"]])
                if not g.ok:
                    out.append(("refused", "the generator fails over an existing project: %s" % (g.out + g.err)[-300:], list(log))); break
                have = files(base)
                bad = []
                for f, v in sorted(now.items()):
                    want = None if v == "absent" else mine.get(f) if v == "own" else fresh[int(v.split()[1]) - 1].get(f)
                    got = have.get(f)
                    if v.startswith("stub"): mine.pop(f, None)
                    if got == want: continue
                    if v == "own": bad.append(("own:" + f, "the user's %s %s" % (f, "is gone" if got is None else "was changed")))
                    elif v == "absent": bad.append(("absent:" + f, "%s appears although the workflow does not need it" % f))
                    elif want is None or got is None: bad.append(("stub:" + f, "no stub %s for workflow %d" % (f, op["k"])))
                    else: bad.append(("stub:" + f, "the stub %s differs from the one that was generated before (workflow %s)" % (f, v)))
                for f in sorted(fresh[op["k"] - 1]):
                    if f not in allusers and have.get(f) != fresh[op["k"] - 1][f]:
                        bad.append(("impl:" + f, "implementation file %s is not what a first generation of workflow %d writes" % (f, op["k"])))
                for s in "pc":
                    for b in kept(os.path.join(base, s)): bad.append(("manifest:" + b, "%s/%s of the user is not kept" % (s, b)))
                if bad:
                    out += [(kk, m, list(log)) for kk, m in bad]; break
            prev = now
        shutil.rmtree(base)
        return sum(1 for r in rs if r["op"]["o"] == "gen"), out
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(walk, sorted(walks.items())))
    seen = set()
    for (gens, out) in res:
        ck.validated += gens
        for key, msg, log in out:
            if key in seen: continue
            seen.add(key)
            ck.violation(key, msg, {"history": log, "workflows": [K.source(d) for d in docs]})
    w = walks[min(walks)]
    ck.sample({"history": [r["op"] for r in w], "files of the user at the end": {f: v for f, v in w[-1]["user"].items() if v != "absent"}})
    ck.notes["files_of_the_user"], ck.notes["histories"] = len(allusers), len(walks)
CHECKS["K03"] = K03

# ---- fingerprints
PSLOTS, WSLOTS = 9, 8
TAIL = [None, 0, 1, 40]    # how many bytes stand beyond a multiple of 1024
def ptext(s):
    """The protocol with the given values of its slots (values 0..3)."""
    eol = ["\n", "\r\n", "\n", "\n\n"][s[0]]
    t = "struct " + ["Note", "Nose", "NOTE", "Notes"][s[1]] + " {" + ["", " ", "\t", "\n"][s[2]] + "}\n" + K.PROT.replace("\n", eol)
    t += "struct Far {" + ["", " ", "  ", "\n"][s[3]] + ["u8", "i8", "u16", "u8[]"][s[4]] + " x;}" + "\n"
    t += " \n" * [0, 300, 20000, 20001][s[5]]
    end = "struct End {str " + ["a", "b", "A", "aa"][s[6]] + ";}" + ["\n", "", " \n", "\n\n"][s[7]]
    return upto(t, " ", end, TAIL[s[8]])
def upto(t, pad, end, tail):
    return t + (pad * ((tail - len((t + end).encode())) % 1024) if tail is not None else "") + end
def wtext(s, lang, first):
    t = "# " + ["w", "v", "W", "\u00fc"][s[0]] + "\n" + ["", " ", "\t", "\n"][s[1]] + "&config {\n    Producer: rust typescript;\n    Consumer: rust typescript;\n}\n"
    t += "A !B {%s(%s > C)%s;\n (No > D);\n}\n" % (["", " ", "\n", "  "][s[2]], ["Yes", "Yep", "yes", "Y"][s[3]], ["", " > E", " > E?", " > F"][s[4]])
    t = t.replace("\n", ["\n", "\r\n", "\n", "\n\n"][s[5]]) + "# " + "pad " * [0, 300, 20000, 20001][s[6]]
    return upto(t, "_", ["z", "y", "Z", "zz"][s[0]], TAIL[s[7]])

def prints(base):
    """The fingerprints in generated code: {("protocol" | "workflow"): set of values}"""
    o = {"protocol": set(), "workflow": set()}
    for r, _, fs in os.walk(base):
        for f in sorted(fs):
            if not f.endswith((".rs", ".ts")): continue
            t = read(os.path.join(r, f)).decode("utf-8", "replace")
            for m in re.finditer(r"(?<![0-9A-Za-z])[0-9A-Fa-f]{32,}(?![0-9A-Za-z])", t):
                near = t[max(0, m.start() - 160):m.start()].lower()
                i, j = near.rfind("protocol"), near.rfind("workflow")
                if re.search(r"fn hash\(|function hash\(", near[-80:]): o["protocol"].add(m.group(0))
                elif i != j: o["protocol" if i > j else "workflow"].add(m.group(0))
    return o

def K04(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["sources of one shape with slots that differ: spaces, line ends, letters of comments, names, lengths up to some 80 kB",
                       "fingerprints are taken from the text of the generated code; that the running code compares them is decided by P01 and C01"]
    work = core.fresh(ck.prop, "run")
    core.build_cli()
    cfg = "CONSTANTS PSlots = %d WSlots = %d Vals = %d Walks = %d Steps = %d Full = %s\nSPECIFICATION Spec\nINVARIANT Equivalence\nPROPERTY EditEnds\nCHECK_DEADLOCK FALSE\n"
    t = tlc.run("Fingerprint", cfg % (2, 2, 2, 1, 0, "TRUE"), os.path.join(work, "full"))
    ck.states += t.states; ck.transitions += t.generated
    t = tlc.run("Fingerprint", cfg % (PSLOTS, WSLOTS, 4, 300 if th else 40, 18, "FALSE"), os.path.join(work, "wide"), workers=1, extra=["-seed", str(core.SEED), "-fp", "1"])
    ck.states += t.states; ck.transitions += t.generated
    ck.exhaustive = False
    todo = [(r["walk"], i, x) for r in t.records for i, x in enumerate(r["projects"])]
    def one(item):
        wk, i, x = item
        base = os.path.join(work, "w%d_%d" % (wk, i))
        src = os.path.join(base, ["", "deep/er", "s p", "", "\u00fc", "x"][x["place"]])
        os.makedirs(src, exist_ok=True)
        pn, wn = ["a.prot", "b.prot", "a.prot", "protocol.txt", "a.prot", "hash.prot"][x["place"]], ["a.workflow", "b.wf", "a.workflow", "w", "a.workflow", "w.workflow"][x["place"]]
        pt, wt = ptext(x["p"]), wtext(x["w"], x["lang"], i)
        put(src, pn, pt.encode()); put(src, wn, wt.encode())
        if x["place"] in (1, 3): os.utime(os.path.join(src, pn), (1e9, 1e9)); os.utime(os.path.join(src, wn), (2e9, 2e9))
        for s in "pc":
            os.makedirs(os.path.join(base, "o", s))
            for f, st in K.STUB.items(): open(os.path.join(base, "o", s, f), "w").write(st)
        rel = x["place"] % 2 == 0
        a = [os.path.join(src, pn), os.path.join(src, wn), os.path.join(base, "o", "p"), os.path.join(base, "o", "c")]
        if rel: a = [os.path.relpath(y, src) for y in a]
        g = core.gen((["-s", a[0], "-wf", a[1], "-pd", a[2], "-cd", a[3]] if x["place"] < 3 else ["-cd", a[3], "-pd", a[2], "-wf", a[1], "-s", a[0]]), src, timeout=60)
        o = {(s, l): prints(os.path.join(base, "o", s, l)) for s in "pc" for l in ("rust", "typescript")} if g.ok else None
        shutil.rmtree(base)
        return x, pt, wt, g, o
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, todo))
    by = {"protocol": ({}, {}), "workflow": ({}, {})}       # source -> fingerprint, fingerprint -> source
    for x, pt, wt, g, o in res:
        ck.validated += 4
        if o is None: ck.violation("gen", "nothing generated: %s" % (g.out + g.err)[-300:], {"protocol": pt[:3000], "workflow": wt[:3000]}); continue
        for (s, l), fp in o.items():
            name = "%s/%s" % (s, l)
            for what, src in (("protocol", pt), ("workflow", wt)):
                vs = fp[what]
                if len(vs) != 1: ck.violation("one:%s:%s" % (name, what), "%d %s fingerprints in one generated project (%s)" % (len(vs), what, name), {"slots": x, "values": sorted(vs)}); continue
                v = next(iter(vs))
                fw, bw = by[what]
                a, b = fw.setdefault(src, (v, name, x)), bw.setdefault(v, (src, name, x))
                if a[0] != v: ck.violation("same:" + what, "equal %s sources have different fingerprints (%s, %s)" % (what, a[1], name), {"first": a[2], "second": x, "fingerprints": [a[0], v]})
                if b[0] != src: ck.violation("other:" + what, "different %s sources have the same fingerprint (%s, %s)" % (what, b[1], name), {"first": b[2], "second": x, "fingerprint": v, "sources": [b[0][-3000:], src[-3000:]]})
    ck.notes["sources"] = {k: len(v[0]) for k, v in by.items()}
    ck.sample({"projects": t.records[0]["projects"][:4]})
CHECKS["K04"] = K04

# ---- targets
TG_CFG = "CONSTANTS Walks = %d Steps = %d Full = %s\nSPECIFICATION Spec\nINVARIANTS Named Own\nPROPERTIES Only Apart\nCHECK_DEADLOCK FALSE\n"
def K07(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["the workflows of spec/Regen.tla and sound ones of spec/Workflow.tla with every choice of targets; the code of a target is compared with what a run with that target alone writes, fingerprints of the workflow aside (its text names the targets)"]
    work = core.fresh(ck.prop, "run")
    core.build_cli()
    t = tlc.run("Targets", TG_CFG % (1, 0, "TRUE"), os.path.join(work, "full"))
    ck.states += t.states; ck.transitions += t.generated
    docs = docs_of(work)
    docs += [r["doc"] for r in K.diverse([r for r in K.documents(ck, work) if not r["bad"]], 24 if th else 7, random.Random(core.SEED))]
    t = tlc.run("Targets", TG_CFG % (200 if th else 32, 12 if th else 6, "FALSE"), os.path.join(work, "wide"), workers=1, extra=["-seed", str(core.SEED), "-fp", "1"])
    ck.states += t.states; ck.transitions += t.generated
    ck.exhaustive = False
    def text(doc, last, style):
        return K.source([dict(d, items=[dict(i, val=last["p"] if i["key"] == "Producer" else last["c"]) if i["key"] in ("Producer", "Consumer") else i for i in d["items"]]) if d["k"] == "cfg" else d for d in doc], style)
    def tree(base):
        return {os.path.relpath(os.path.join(r, f), base): read(os.path.join(r, f)) for s in "pc" for r, _, fs in os.walk(os.path.join(base, s)) for f in fs}
    HEX = re.compile(rb"(?<![0-9A-Za-z])[0-9A-Fa-f]{32,}(?![0-9A-Za-z])")
    def masked(b, wf): return HEX.sub(b"#", b)
    def start(base):
        for s in "pc":
            put(base, s + "/Cargo.toml", CARGO.encode()); put(base, s + "/package.json", PACKAGE.encode())
        put(base, "a.prot", K.PROT.encode())
    def go(base, wf, rng=None):
        put(base, "a.workflow", wf.encode())
        a = [["-s", "a.prot"], ["-wf", "a.workflow"], ["-pd", "p/out"], ["-cd", "c/out"]]
        if rng: rng.shuffle(a)
        return core.gen([x for y in a for x in y], base, timeout=60)
    def alone(item):
        """The code of every side and target on its own: {(side, lang): {file: bytes}}"""
        i, doc = item
        o = {}
        for l in ("rust", "typescript"):
            base = os.path.join(work, "alone%d%s" % (i, l)); start(base)
            wf = text(doc, {"p": [l], "c": [l]}, 0)
            g = go(base, wf)
            if not g.ok: return i, (g, wf)
            for s in "pc":
                d = os.path.join(base, s, "out")
                o[s, l] = {os.path.relpath(os.path.join(r, f), d): masked(read(os.path.join(r, f)), wf) for r, _, fs in os.walk(d) for f in fs}
            shutil.rmtree(base)
        return i, o
    with ThreadPoolExecutor(8) as ex: ref = dict(ex.map(alone, enumerate(docs)))
    for i, o in ref.items():
        if isinstance(o, tuple): ck.violation("alone", "nothing generated for a single target: %s" % (o[0].out + o[0].err)[-300:], {"workflow": o[1]}); return
        for (s, l), fs in o.items():
            ext = (".rs", ".ts") if l == "rust" else (".ts", ".rs")
            if not any(f.endswith(ext[0]) for f in fs) or any(f.endswith(ext[1]) for f in fs):
                ck.violation("lang:%s:%s" % (s, l), "with the target %s, the %s is not %s code" % (l, s, l), {"files": sorted(fs)}); return
    walks = {}
    for r in t.records: walks.setdefault(r["walk"], []).append(r)
    def walk(item):
        w, rs = item
        rng = random.Random(core.SEED * 1000 + w)
        k = (w - 1) % len(docs) if w > len(docs) else w - 1
        base = os.path.join(work, "w%d" % w); start(base)
        log, n = [], 0
        for r in sorted(rs, key=lambda r: r["step"]):
            last = r["last"]
            if not last["p"]:
                shutil.rmtree(base); start(base); log.append("wipe"); continue
            wf = text(docs[k], last, rng.randrange(3))
            before = tree(base)
            g = go(base, wf, rng)
            n += 1
            log.append("producer: %s; consumer: %s" % (" ".join(last["p"]), " ".join(last["c"])))
            rep = {"history": list(log), "workflow": wf}
            if not g.ok: return n, ("gen", "nothing generated: %s" % (g.out + g.err)[-300:], rep), log
            after = tree(base)
            want = {}
            for s in "pc":
                for l in last[s]:
                    root = "%s/out/" % s + ("" if len(last[s]) == 1 else l + "/")
                    for f, b in ref[k][s, l].items(): want[root + f] = (b, s, l)
            for f in sorted(set(want) | set(after) | set(before)):
                if f in want:
                    b, s, l = want[f]
                    if f not in after: return n, ("none:%s:%s" % (s, l), "%s of the %s code is missing" % (f, l), rep), log
                    if masked(after[f], wf) != b: return n, ("differs:%s:%s" % (s, l), "%s is not what a run with the target %s alone writes" % (f, l), rep), log
                elif f.endswith(("out/Cargo.toml", "out/package.json")) or not f.endswith(("Cargo.toml", "package.json")):
                    if after.get(f) != before.get(f): return n, ("other:" + f.split("/")[0], "%s was %s although no target of the run stands there" % (f, "created" if f not in before else "removed" if f not in after else "changed"), rep), log
            for s in "pc":
                miss = kept_of(os.path.join(base, s), r["man"][s])
                if miss: return n, ("manifest:" + s, "%s/%s" % (s, miss[0]), rep), log
        shutil.rmtree(base, ignore_errors=True)
        return n, None, log
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(walk, sorted(walks.items())))
    for n, bad, log in res:
        ck.validated += n
        if bad: ck.violation(*bad)
    ck.sample({"history": res[0][2]})
    ck.notes["workflows"], ck.notes["runs"] = len(docs), sum(r[0] for r in res)
CHECKS["K07"] = K07

def kept_of(base, touched):
    """What is wrong with the manifests when those of `touched` have got the needed dependencies and the others have not."""
    bad = []
    for f, text in (("Cargo.toml", CARGO), ("package.json", PACKAGE)):
        if f not in touched:
            if read(os.path.join(base, f)) != text.encode(): bad.append(f + " was changed although no target needs it")
    return bad + [b for b in kept(base) if any(b.startswith(f) for f in touched)]

# ---- manifests
MF_CFG = "CONSTANTS Walks = %d Steps = %d Full = %s Wide = %s\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Found Again\nPROPERTIES Kept Only\nCHECK_DEADLOCK FALSE\n"
MF_FILE = {"rust": "Cargo.toml", "typescript": "package.json"}
OWN_RS = ['own = "1"', 'own = { path = "../own", features = ["a", "b"], default-features = false }', 'own = { version = "0.3", optional = true }\nserde_json = "1.0"', 'own-dep = { git = "https://x/y", branch = "b" }\nlog4rs = "1"']
REST_RS = ["", "edition = \"2021\"\nauthors = [\"A\u00f6 <a@b>\", \"B\"]\nlicense-file = \"L \\\"x\\\"\"\n", "build = \"build.rs\"\n[package.metadata.x]\nn = 1\nf = 0.5\nd = 2021-01-01T00:00:00Z\nl = [1, 2]\n"]
TAIL_RS = ["", "\n[profile.release]\nlto = true\n\n[features]\ndefault = [\"own\"]\n", "\n[dev-dependencies]\ntokio = \"1\"\n\n[target.'cfg(unix)'.dependencies]\nlog = \"0.3\"\n\n[[bin]]\nname = \"a\"\npath = \"a.rs\"\n\n[[bin]]\nname = \"b\"\n", "\n[build-dependencies]\nbytes = \"0.1\"\n\n[workspace]\nmembers = [\"x\"]\n"]
OWN_TS = [{"left-pad": "^1.0.0"}, {"own": "file:../own", "@s/x": "1.x", "clibri-x": "*"}, {"Own": "git+ssh://x/y"}]
REST_TS = [{}, {"version": "1.2.3", "scripts": {"build": "tsc -p .", "x": "\"y\""}}, {"private": True, "workspaces": ["a", "b"], "config": {"n": 1, "f": 0.25, "z": None, "u": "\u00fc\n"}, "devDependencies": {"clibri": "9.9.9", "mocha": "*"}, "peerDependencies": {"clibri": "0.0.1"}}]
BAD_RS = ["[package\nname = 1\n", "name == 2", "[dependencies]\nx = \n"]
BAD_TS = ["{", "", "{\"name\": \"x\",}", "name: x"]
ALSO_RS = ["[dependencies.own]\nversion = \"2\"\nfeatures = []\n"]

def mf_text(l, kind, both, rng):
    """A manifest of the kind; both: names of the dependencies that the code of either side needs"""
    if kind == "bad": return rng.choice(BAD_RS if l == "rust" else BAD_TS)
    old = [n for n in sorted(both) if rng.random() < .6] or sorted(both)[:1]
    if l == "rust":
        head = rng.choice(["", "# mine\n"]) + "[package]\nname = \"app\"\nversion = \"0.1.0\"\n" + rng.choice(REST_RS)
        if kind == "nodeps": return head + rng.choice(TAIL_RS)
        if kind == "plain" and rng.random() < .2: return head + "\n" + rng.choice(ALSO_RS) + rng.choice(TAIL_RS)
        deps = rng.choice(OWN_RS) + "\n"
        if kind == "old": deps = "".join(rng.choice(["%s = \"0.0.1\"\n", "%s = { version = \"9\", features = [\"z\"] }\n", "%s = { path = \"../%s\" }\n"]).replace("%s", n) for n in old) + deps
        t = "\n[dependencies]\n" + deps
        return (head + t + rng.choice(TAIL_RS)) if rng.random() < .7 else head + rng.choice(TAIL_RS) + t
    d = {"name": "app"}
    d.update(rng.choice(REST_TS))
    if kind != "nodeps": d["dependencies"] = dict(rng.choice(OWN_TS), **({n: rng.choice(["0.0.1", "file:../x"]) for n in old} if kind == "old" else {}))
    items = list(d.items()); rng.shuffle(items)
    return json.dumps(dict(items), indent=rng.choice([None, 2, "\t"]), ensure_ascii=rng.random() < .5)

def mf_read(l, b): return tomllib.loads(b.decode()) if l == "rust" else json.loads(b.decode())

def outside(d, l):
    """Names of the packages that the code below d imports."""
    names, own = set(), set()
    for r, _, fs in os.walk(d):
        for f in fs:
            t = read(os.path.join(r, f)).decode()
            if l == "rust" and f.endswith(".rs"):
                own |= set(re.findall(r"\b(?:mod|enum|struct|trait|type)\s+(\w+)", t))
                names |= set(re.findall(r"^\s*(?:pub )?use ([a-z]\w*)(?:::|;| as)", t, re.M)) | set(re.findall(r"\bextern crate (\w+)", t))
            if l == "typescript" and f.endswith(".ts"):
                names |= set("/".join(n.split("/")[:2 if n[0] == "@" else 1]) for n in re.findall(r"""^(?:import|export)\b(?:[^;'"]*?\bfrom)?\s*['"]([^'".][^'"]*)['"]""", t, re.M))
    return names - own - {"std", "core", "alloc", "super", "self", "crate"}

def K08(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["what the code of a side needs is what a run over a manifest without dependencies adds, and this has to contain every package which the generated code imports; which of the two sides' versions a manifest gets that serves both is left open",
                       "after a run that fails the user restores the manifests, apart from the missing or damaged one, which has to be as it was"]
    work = core.fresh(ck.prop, "run")
    core.build_cli()
    t = tlc.run("Manifest", MF_CFG % (1, 4 if th else 3, "TRUE", "FALSE"), os.path.join(work, "full"))
    ck.states += t.states; ck.transitions += t.generated
    t = tlc.run("Manifest", MF_CFG % (400 if th else 60, 24 if th else 16, "FALSE", "TRUE"), os.path.join(work, "wide"), workers=1, extra=["-seed", str(core.SEED), "-fp", "1"])
    ck.states += t.states; ck.transitions += t.generated
    ck.exhaustive = False
    doc = docs_of(work)[0]
    def text(ran): return K.source([dict(d, items=[dict(i, val=ran[0] if i["key"] == "Producer" else ran[1]) if i["key"] in ("Producer", "Consumer") else i for i in d["items"]]) if d["k"] == "cfg" else d for d in doc], 0)
    # what the code of each side needs
    need = {}
    for l in ("rust", "typescript"):
        base = os.path.join(work, "need_" + l)
        for s in "pc":
            put(base, s + "/" + MF_FILE[l], b"[package]\nname = \"x\"\nversion = \"0.1.0\"\n" if l == "rust" else b"{\"name\": \"x\"}")
        put(base, "a.prot", K.PROT.encode()); put(base, "a.workflow", text(([l], [l])).encode())
        g = core.gen(["-s", "a.prot", "-wf", "a.workflow", "-pd", "p/out", "-cd", "c/out"], base, timeout=60)
        if not g.ok: ck.violation("need", "nothing generated into a project without dependencies: %s" % (g.out + g.err)[-300:], {"language": l}); return
        for s in "pc":
            need[s, l] = mf_read(l, read(os.path.join(base, s, MF_FILE[l]))).get("dependencies", {})
            miss = {n for n in outside(os.path.join(base, s, "out"), l)} - {n.replace("-", "_") if l == "rust" else n for n in need[s, l]}
            if miss: ck.violation("needs:%s:%s" % (s, l), "the generated code imports %s, which the manifest has not got" % ", ".join(sorted(miss)), {"side": s, "language": l, "dependencies": need[s, l]}); return
    walks = {}
    for r in t.records: walks.setdefault(r["walk"], []).append(r)
    places = sorted(t.records[0]["m"])
    def walk(item):
        w, rs = item
        rng = random.Random(core.SEED * 1000 + w)
        base = os.path.join(work, "w%d" % w)
        top = os.path.join(base, ["root", "ro ot", "r\u00f6t"][w % 3])
        pos = {d: os.path.join(top, *([] if d == "root" else ["app"] if d == "app" else ["app"] + d.split("/"))) for d in places}
        os.makedirs(os.path.join(pos["app"], "src"))
        for s in "pc": os.makedirs(pos[s])
        put(pos["app"], "src/a.prot", K.PROT.encode())
        cont = {}                       # (place, language): bytes that are expected
        log, n, prev = [], 0, None
        def bad(key, msg, **k): return n, (key, msg, dict(k, history=list(log))), log
        for r in sorted(rs, key=lambda r: r["step"]):
            ran = r["ran"]
            if not ran:
                for d in places:
                    for l in MF_FILE:
                        c = r["m"][d][l]
                        if prev is None or prev["m"][d][l] != c:
                            f = os.path.join(pos[d], MF_FILE[l])
                            if c["kind"] == "none": cont.pop((d, l), None); os.path.exists(f) and os.remove(f)
                            else:
                                cont[d, l] = mf_text(l, c["kind"], set(need["p", l]) & set(need["c", l]), rng).encode()
                                os.makedirs(pos[d], exist_ok=True)
                                with open(f, "wb") as h: h.write(cont[d, l])
                            log.append("%s/%s: %s" % (d, MF_FILE[l], c["kind"]))
                prev = r; continue
            put(pos["app"], "src/a.workflow", text(ran).encode())
            cwd = rng.choice([base, top, pos["app"], os.path.join(pos["app"], "src"), pos["p"]])
            def arg(p, x):
                if x == 3:          # through the directory of the other side
                    o = pos["c" if p == pos["p/out"] else "p"]
                    return o + "/" + os.path.relpath(p, o)
                return p if x == 0 else os.path.relpath(p, cwd) if x == 1 else "./" + os.path.relpath(p, cwd)
            a = [["-s", os.path.join(pos["app"], "src/a.prot")], ["-wf", os.path.join(pos["app"], "src/a.workflow")], ["-pd", pos["p/out"]], ["-cd", pos["c/out"]]]
            g = core.gen([y for x in a for y in (x[0], arg(x[1], rng.randrange(4)))], cwd, timeout=60)
            n += 1
            log.append("producer: %s; consumer: %s (from %s): %s" % (" ".join(ran[0]), " ".join(ran[1]), os.path.relpath(cwd, base), ran[2]))
            if ran[2] == "ok" and not g.ok: return bad("refused", "nothing generated although every target has a manifest: %s" % (g.out + g.err)[-300:])
            if ran[2] != "ok" and g.ok: return bad("accepted", "the run succeeded although a target has no manifest, or a damaged one")
            # every manifest below the top
            seen = {}
            for q, _, fs in os.walk(base):
                for f in fs:
                    if f in MF_FILE.values(): seen[os.path.join(q, f)] = read(os.path.join(q, f))
            names = {os.path.join(pos[d], MF_FILE[l]): (d, l) for d in places for l in MF_FILE}
            for f in sorted(set(seen) | {os.path.join(pos[d], MF_FILE[l]) for d, l in cont}):
                d, l = names.get(f, ("?", "?"))
                name = os.path.relpath(f, base)
                if f not in seen: return bad("lost", "%s is gone" % name)
                if (d, l) not in cont: return bad("made", "%s was made" % name)
                kind, deps = r["m"][d][l]["kind"], r["m"][d][l]["deps"]
                old = cont[d, l]
                near = [s for s in "pc" if r["near"][s][l] == d]
                if ran[2] != "ok":
                    if seen[f] != old and (not near or kind == "bad"): return bad("touched", "%s was changed by a run that failed" % name, before=old.decode(), after=seen[f].decode(errors="replace"))
                    continue
                if not near:
                    if seen[f] != old: return bad("other", "%s was changed although it is not the nearest manifest of any target" % name, before=old.decode(), after=seen[f].decode(errors="replace"))
                    continue
                try: got = mf_read(l, seen[f])
                except ValueError as e: return bad("damaged", "%s cannot be read after the run: %s" % (name, e), before=old.decode(), after=seen[f].decode(errors="replace"))
                was = mf_read(l, old)
                k = dict(before=old.decode(), after=seen[f].decode())
                for x in sorted(set(got) | set(was)):
                    if x != "dependencies" and json.dumps(got.get(x), sort_keys=True, default=str) != json.dumps(was.get(x), sort_keys=True, default=str): return bad("kept", "%s: %s is not what the user wrote" % (name, x), **k)
                gd, wd = got.get("dependencies", {}), was.get("dependencies", {})
                want = {x: [v] for x, v in wd.items()}
                for x in set(need["p", l]) | set(need["c", l]):
                    ss = [s for s in near if x in need[s, l]]
                    if ss: want[x] = [need[s, l][x] for s in ss]
                for x in sorted(set(want) | set(gd)):
                    if x not in gd: return bad("dep", "%s: dependency %s is missing" % (name, x), **k)
                    if x not in want: return bad("more", "%s: dependency %s was added" % (name, x), **k)
                    if gd[x] not in want[x]: return bad("value", "%s: dependency %s is %s" % (name, x, gd[x]), **k)
                both = [x for x in need["p", l] if x in need["c", l]]
                # and what the specification says of them
                if set(deps["both"]) != set(near): return bad("spec", "the check and the specification disagree about %s" % name)
                if prev and prev["ran"] == ran and seen[f] != old: return bad("again", "%s: the same run again changes it" % name, **k)
            if ran[2] == "ok": cont = {names[f]: b for f, b in seen.items()}
            else:
                for f, b in seen.items():
                    with open(f, "wb") as h: h.write(cont[names[f]])
            prev = r
        shutil.rmtree(base, ignore_errors=True)
        return n, None, log
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(walk, sorted(walks.items())))
    for n, b, log in res:
        ck.validated += n
        if b: ck.violation(*b)
    ck.sample({"history": res[0][2]})
    ck.notes["runs"] = sum(r[0] for r in res)
    ck.notes["needed"] = {"%s/%s" % k: sorted(v) for k, v in need.items()}
CHECKS["K08"] = K08

# ---- the command line
CLI_CFG = "CONSTANTS Walks = %d Steps = %d Sound = %s Full = %s\nSPECIFICATION Spec\nVIEW View\nPROPERTY NoConsent AllOrNothing Functional Others\nCHECK_DEADLOCK FALSE\n"
SPELL = {"s": ("-s", "--src", "--source"), "wf": ("-wf", "--workflow"), "rs": ("-rs", "--dest-rs", "--destination-rs"), "ts": ("-ts", "--dest-ts", "--destination-ts"),
         "puml": ("-d", "--puml"), "cd": ("-cd", "--consumer-dest"), "pd": ("-pd", "--producer-dest"), "o": ("-o", "--ow", "--overwrite"), "e": ("-e", "--em", "--embedded")}
SHORT = "struct A { u8 a; }\nstruct B {}\nstruct C { str s?; }\nstruct D {}\nstruct E {}\nstruct F { A[] l; }\nstruct I {}\nstruct J {}\nstruct K {}\nstruct L {}\nstruct M {}\nstruct N {}\ngroup G { struct A { u8 a; } struct B {} struct C {} group H { struct A {} struct B {} } }\n"
BADP = ["struct A { u8 a; } }", "struct A { u8 }", "struct A { Unknown b; }", "!", "enum E { }", "struct", "group G { struct A { u8 a; }", "\xff\xfe", None]
BADW = ["A !B { (C); }", "&config {\n Producer: rust typescript;\n Consumer: rust typescript;\n}\nA !B { (U); }", "&config {\n Producer: rust typescript;\n Consumer: rust typescript;\n}\nA !B { (C) }", "&config { Producer: rust; }", "}", "\xff\xfe", None]
NOISE = {"unknown": ["--foo", "-x", "--Source", "-S", "--overwite", "-rS", "--"], "word": ["foo", "a.prot", "true"]}

class Session:
    """One walk of Cli.tla against the real command line, in a directory of its own."""
    def __init__(self, base, rng, prots, wfs):
        self.base, self.rng, self.prots, self.wfs = base, rng, prots, wfs
        self.dir = os.path.join(base, "d i\u00e9") if rng.random() < .3 else os.path.join(base, "d")
        os.makedirs(os.path.join(self.dir, "x", "y")); os.makedirs(os.path.join(self.dir, "src"))
        self.text = {}
        for i in (1, 2):
            put(self.dir, "src/v%d.prot" % i, prots[i - 1].encode()); put(self.dir, "src/v%d.workflow" % i, wfs[i - 1].encode())
        self.dest = {"rs": "x/out.rs", "ts": "x/out.ts", "puml": "x/out.puml"}
        self.n = self.c = 0
        self.cd = self.pd = self.made = None
        self.clear()
    def clear(self):
        """The next run that generates code does it somewhere else, sometimes."""
        if self.cd and self.rng.random() < .5: self.wipe(); return
        self.c += 1
        for s in "cp":
            os.makedirs(os.path.join(self.dir, "app%d" % self.c, s))
            put(self.dir, "app%d/%s/Cargo.toml" % (self.c, s), CARGO.encode()); put(self.dir, "app%d/%s/package.json" % (self.c, s), PACKAGE.encode())
        self.cd, self.pd = "app%d/c/out" % self.c, "app%d/p/out" % self.c
    def wipe(self):
        for x in (self.cd, self.pd): shutil.rmtree(os.path.join(self.dir, x), ignore_errors=True)
    def state(self):
        """Bytes at the destinations, in the code directories, and of everything else."""
        d = {k: read(os.path.join(self.dir, f)) if os.path.exists(os.path.join(self.dir, f)) else None for k, f in self.dest.items()}
        code, rest = {}, {}
        for r, _, fs in os.walk(self.dir):
            for f in fs:
                p = os.path.join(r, f); q = os.path.relpath(p, self.dir)
                if q in self.dest.values(): continue
                if q.startswith(self.cd + "/") or q.startswith(self.pd + "/"): code[q[len(os.path.dirname(os.path.dirname(self.cd))) + 1:]] = read(p)
                else: rest[q] = read(p)
        return d, code, rest
    def arg(self, path, cwd):
        p = os.path.join(self.dir, path)
        x = self.rng.randrange(3)
        return p if x == 0 else os.path.relpath(p, cwd) if x == 1 else "./" + os.path.relpath(p, cwd)
    def command(self, c):
        rng = self.rng
        cwd = os.path.join(self.dir, rng.choice(["", "x", "x/y", "src"])).rstrip("/")
        parts = []
        for o in ("s", "wf", "rs", "ts", "puml", "cd", "pd"):
            v = c[o]
            if v == "none": continue
            name = rng.choice(SPELL[o])
            if v == "bare": parts.append(("bare", [name])); continue
            if o in ("s", "wf"):
                ext = ".prot" if o == "s" else ".workflow"
                if v == "missing": f = rng.choice(["src/none" + ext, "src/v3" + ext, "nodir/v1" + ext])
                elif v == "bad":
                    b = rng.choice(BADP if o == "s" else BADW[1:] if c["puml"] != "none" else BADW)      # a diagram needs no configuration
                    if b is None: f = "src"
                    else: f = "src/bad" + ext; put(self.dir, f, b.encode("latin1"))
                else: f = "src/" + v + ext
            else: f = {"cd": self.cd, "pd": self.pd}.get(o) or self.dest[o]
            parts.append((o, [name, self.arg(f, cwd)]))
        if c["o"]: parts.append(("o", [rng.choice(SPELL["o"])]))
        if c["e"]: parts.append(("e", [rng.choice(SPELL["e"])]))
        if c["extra"] != "none": parts.append(("extra", [rng.choice(NOISE[c["extra"]])]))
        rng.shuffle(parts)
        # what follows an option without a value is no value: another option, or the end
        ok = []
        for p in parts:
            if ok and ok[-1][0] == "bare" and not p[1][0].startswith("-"): ok.insert(0, p)
            else: ok.append(p)
        args = [a for p in ok for a in p[1]]
        return args, cwd, core.gen(args, cwd, timeout=60)

def cli_walks(ck, work, sound, walks, steps):
    t = tlc.run("Cli", CLI_CFG % (walks, steps, "TRUE" if sound else "FALSE", "FALSE"), os.path.join(work, "wide"), workers=1, extra=["-seed", str(core.SEED), "-fp", "1"])
    ck.states += t.states; ck.transitions += t.generated
    ck.exhaustive = False
    out = {}
    for r in t.records: out.setdefault(r["walk"], []).append(r)
    return sorted(out.items())

def cli_check(ck, sound, walks, steps, pool, seen):
    """Runs the walks; `seen` maps (destination, protocol, workflow, embedded) to the bytes it had first."""
    work = core.fresh(ck.prop, "run")
    core.build_cli()
    t = tlc.run("Cli", CLI_CFG % (1, 0, "FALSE", "TRUE"), os.path.join(work, "full"))
    ck.states += t.states; ck.transitions += t.generated
    todo = cli_walks(ck, work, sound, walks, steps)
    cmp = [0]
    def again(key, v):
        if key in seen: cmp[0] += 1
        return seen.setdefault(key, v) != v
    def one(item):
        w, rs = item
        rng = random.Random(core.SEED * 7919 + w + (500000 if sound else 0))
        prots, wfs = pool(rng)
        s = Session(os.path.join(work, "w%d" % w), rng, prots, wfs)
        log, bad, cmds = [], [], 0
        for r in sorted(rs, key=lambda r: r["step"]):
            l = r["last"]; o = l["o"].split()
            if o[0] == "place":
                s.n += 1
                data = [b"", b"mine %d" % s.n, b"// mine %d\n" % s.n * 20000][rng.randrange(3)]
                put(s.dir, s.dest[o[1]], data); log.append(l["o"]); continue
            if o[0] == "remove": os.remove(os.path.join(s.dir, s.dest[o[1]])); log.append(l["o"]); continue
            if o[0] == "clear": s.clear(); log.append("clear"); continue
            c = l["c"]
            before = s.state()
            args, cwd, g = s.command(c)
            after = s.state()
            for x in (before[2], after[2]):
                for q in [q for q in x if q.startswith("src/bad")]: del x[q]
            cmds += 1
            log.append("(in %s) clibri %s -> exit %s" % (os.path.relpath(cwd, s.dir), " ".join(args), g.rc))
            said = ": %s\n" % (g.out.strip() + " " + g.err.strip())[-200:] + log[-1]
            def no(key, msg): bad.append((key, msg + said, {"history": list(log[-12:]), "protocols": prots, "workflows": wfs}))
            if g.timed_out or g.panicked: no("crash", "the command crashes or hangs"); break
            if (g.rc == 0) != l["ok"]: no("status:%s" % l["ok"], "the command %s, it has to %s" % ("succeeds" if g.rc == 0 else "fails", "succeed" if l["ok"] else "fail"))
            for d in s.dest:
                exp = r["file"][d]
                if exp["k"] == "out" and l["ok"] and c[d] == "given":
                    i, j = int(exp["p"][1]), int(exp["w"][1]) if exp["w"] else 0
                    key = (d, prots[i - 1], wfs[j - 1] if j else "", exp["e"])
                    if after[0][d] is None: no("none:" + d, "nothing was written to the destination of %s" % SPELL[d][0])
                    elif again(key, after[0][d]): no("differs:" + d, "the %s output differs from the one of an earlier run on the same input" % d)
                elif after[0][d] != before[0][d]:
                    no("touched:" + d + (":consent" if c["o"] else ":noconsent"), "the file at %s was %s" % (s.dest[d], "removed" if after[0][d] is None else "created" if before[0][d] is None else "changed"))
            wrote = l["ok"] and c["wf"] in ("v1", "v2") and c["puml"] != "given"
            if wrote:
                i, j = int(c["s"][1]), int(c["wf"][1])
                key = ("code", prots[i - 1], wfs[j - 1], False)
                # the first run into empty directories; the files of the user stay, so a run over another workflow does not compare
                clean = not before[1] or s.made == key
                if not after[1]: no("nocode", "no code was generated")
                elif clean and again(key, after[1]):
                    a, b = seen[key], after[1]
                    no("code", "generated code differs from that of an earlier run on the same input: %s" % sorted(f for f in set(a) | set(b) if a.get(f) != b.get(f))[:8])
                s.made = key if clean else None
            elif after[1] != before[1]: no("code touched", "generated code changed: %s" % sorted(f for f in set(before[1]) | set(after[1]) if after[1].get(f) != before[1].get(f))[:8])
            man = lambda x: {f: v for f, v in x.items() if not (wrote and f.endswith(("Cargo.toml", "package.json")))}
            if man(before[2]) != man(after[2]): no("other", "other files changed: %s" % sorted(f for f in set(before[2]) | set(after[2]) if man(after[2]).get(f) != man(before[2]).get(f))[:8])
            if bad: break
        shutil.rmtree(s.base)
        return cmds, bad, log
    with ThreadPoolExecutor(8) as ex: res = list(ex.map(one, todo))
    keys = set()
    for cmds, bad, log in res:
        ck.validated += cmds
        for key, msg, rep in bad:
            if key not in keys: keys.add(key); ck.violation(key, msg, rep)
    ck.sample({"history": res[0][2]})
    ck.notes["outputs_compared"] = cmp[0]
    ck.notes["walks"], ck.notes["commands"] = len(res), sum(r[0] for r in res)

def fixed_pool(rng):
    a = "&config {\n Producer: rust typescript;\n Consumer: rust typescript;\n}\nA !B {\n (Yes > C) > D;\n (No > E);\n}\n@F {\n > M;\n > G.B;\n}\n@beacons {\n > J;\n}\n"
    b = "&config {\n Producer: rust typescript;\n Consumer: rust typescript;\n}\nG.A !B {\n (C);\n}\n"
    return [K.PROT, SHORT], [a, b]

def G01(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["two sound protocols and workflows, several refused ones; histories of commands whose options, spellings, order, paths and working directories are drawn at random",
                       "directories named by -cd and -pd and dependencies in the manifests there are not outputs in the sense of the property"]
    cli_check(ck, False, 400 if th else 60, 40 if th else 24, fixed_pool, {})
CHECKS["G01"] = G01

def L04(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["protocols and workflows: those of spec/Regen.tla with variations, random sound workflows, and the samples of the repository; every output is compared with the first one made from the same sources and options",
                       "files of the user that exist already are left out of the comparison of code made over another workflow (K03 decides those)"]
    work = core.fresh(ck.prop, "docs")
    docs = docs_of(work)
    rng0 = random.Random(core.SEED)
    wfs = [K.source(d, i % 3) for i, d in enumerate(docs)]
    wfs += [K.source(K.both(r["doc"], ["rust", "typescript"])) for r in K.diverse([r for r in K.documents(ck, work) if not r["bad"]], 24 if th else 8, rng0)]
    prots = [K.PROT] + [ptext([rng0.randrange(4) for _ in range(PSLOTS)]) for _ in range(6 if th else 3)]
    sp = os.path.join(core.REPO, "tests", "workflow", "prot")
    sample = open(os.path.join(sp, "protocol.prot")).read()
    swf = re.sub(r"(Producer|Consumer): \w+;", r"\1: rust typescript;", open(os.path.join(sp, "protocol-rs-rs.workflow")).read())
    cut = swf[:swf.rindex("@")]      # without its last declaration
    def pool(rng):
        if rng.random() < .15: return [sample, sample + "\nstruct Another { str[] many; }\n"], [swf, cut]
        return rng.sample(prots, 2), rng.sample(wfs, 2)
    cli_check(ck, True, 300 if th else 48, 30 if th else 16, pool, {})
CHECKS["L04"] = L04
