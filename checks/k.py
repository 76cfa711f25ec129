"""K01..K06: the workflow language (spec/WorkflowGrammar.tla, spec/Workflow.tla)."""
import hashlib, json, os, random, re, shutil
from concurrent.futures import ThreadPoolExecutor
from vlib import core, tlc
from checks import l as L

BROKEN = {"0N": "1abc", "$": "$", "N-N": "ab-cd", "[": "[", "~": "\u00e9", "@": "@", "&": "&", "N@": "ab@cd"}

def spell(toks):
    """Fresh names become distinct identifiers; returns the words and the protocol that defines them."""
    out, n, u = [], 0, 0
    for t in toks:
        if t in ("W", "@W"):
            n += 1
            out.append(t[:-1] + ["M%d", "Ms_%d", "m%dX"][n % 3] % n)
        elif t in ("U", "@U"):
            u += 1; out.append(t[:-1] + ["Un%d", "Un_%d"][u % 2] % u)
        elif t == "@Gr": out.append("@Gr")
        else: out.append(BROKEN.get(t, t))
    names = [["M%d", "Ms_%d", "m%dX"][i % 3] % i for i in range(1, n + 1)]
    body = lambda ind: "".join("%sstruct %s {%s}\n" % (ind, x, " u8 a; " if i % 4 else "") for i, x in enumerate(names))
    return out, body("") + "group Gr {\n" + body("    ") + "}\n"

def word(t): return t[0].isalnum() or t[0] in "_\u00e9@&"

def layout(toks, kind):
    if kind == "tight":
        o = ""
        for t in toks:
            if o and word(o[-1]) and word(t): o += " "
            o += t
        return o
    if kind == "lines": return "\n".join(toks) + "\n"
    if kind == "crlf": return "\r\n".join(toks) + "\r\n"
    if kind == "tabs": return "\t \n\t " + "\t  ".join(toks) + "  \n\n"
    if kind == "comments": return "# first > {\n" + "".join("%s%s# it's %d: caf\u00e9 ; } @x &y\n%s" % (t, " " * (i % 2), i, " " * (i % 3)) for i, t in enumerate(toks)) + "# last"
    if kind == "wide":      # much space and long comments with characters of every width between the tokens
        gap = [" " * 7, "\n" * 5, " # \u20ac\U0001f600\u00e9 ; } ) > ! ? { " + ":;.,()<>{}[]!?@&#'\"\\" * 25 + "\n", "\t\t \r\n ", "#\n", "# \u20ac\n\n# \U0001f600\n      "]
        return "".join(t + gap[(i * 5 + len(toks)) % len(gap)] for i, t in enumerate(toks))
    raise KeyError(kind)
LAYOUTS = ("lines", "tight", "comments", "tabs", "crlf", "wide")

STUB = {"Cargo.toml": "[package]\nname = \"x\"\nversion = \"0.1.0\"\n\n[dependencies]\n", "package.json": "{\n  \"name\": \"x\",\n  \"dependencies\": {}\n}\n"}

def tree(d):
    return {os.path.relpath(os.path.join(r, f), d): open(os.path.join(r, f), encoding="utf-8", errors="replace").read() for r, _, fs in os.walk(d) for f in fs}

class Res: pass
class Runner:
    """Feeds (protocol, workflow) sources to the generator: producer and consumer, or the diagram; each run in its own directory."""
    def __init__(self, work):
        self.work, self.n = work, 0
        core.build_cli()
    def one(self, i, prot, wf, diagram=False, keep=False, code=True):
        d = os.path.join(self.work, "r%d" % i)
        for side in ("P", "C"):
            os.makedirs(os.path.join(d, side, "o"))
            for f, t in STUB.items(): open(os.path.join(d, side, f), "w").write(t)
        for f, t in (("a.prot", prot), ("a.workflow", wf)):
            with open(os.path.join(d, f), "w", newline="", encoding="utf-8") as h: h.write(t)
        r = Res()
        r.puml, r.files = None, {}
        if code:
            r.g = core.gen(["-s", "a.prot", "-wf", "a.workflow", "-pd", "P/o", "-cd", "C/o"], d, timeout=20)
            r.files = {s: tree(os.path.join(d, s, "o")) for s in ("P", "C")}
        if diagram:
            r.dg = core.gen(["-s", "a.prot", "-wf", "a.workflow", "-d", "x.puml"], d, timeout=20)
            if not code: r.g = r.dg
            if os.path.exists(os.path.join(d, "x.puml")): r.puml = open(os.path.join(d, "x.puml"), encoding="utf-8").read()
        if not keep: shutil.rmtree(d)
        return r
    def many(self, srcs, **kw):
        base = self.n
        self.n += len(srcs)
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(lambda x: self.one(base + x[0], x[1][0], x[1][1], **kw), enumerate(srcs)))

def accepted(r): return r.g.ok and all(r.files[s] for s in "PC")
def refused(r): return r.g.rc != 0 and not any(r.files.values()) and not r.g.timed_out and not r.g.panicked and (r.g.out + r.g.err).strip() != ""
def told(r): return "exit %s, %s files, hang %s, panic %s, said %r" % (r.g.rc, {s: len(f) for s, f in r.files.items()}, r.g.timed_out, r.g.panicked, (r.g.out.strip() + " " + r.g.err.strip())[-200:])
def digest(r): return hashlib.sha256(L.unhash(json.dumps(r.files, sort_keys=True)).encode()).hexdigest()

def rand_source(rng):
    p = lambda: ["Gr", ".", "W"] if rng.random() < 0.3 else ["W"]
    opt = lambda: ["?"] if rng.random() < 0.4 else []
    def casts(o=True):
        out = []
        for _ in range(rng.randint(1, 3)): out += [">"] + p() + (opt() if o else []) + [";"]
        return out
    def decl():
        k = rng.random()
        if k < 0.55:
            o = p() + ["!"] + p() + ["{"]
            n = rng.choice([1, 1, 2, 3])
            for _ in range(n):
                if n == 1 and rng.random() < 0.5: o += ["("] + p() + [")", ";"]
                else: o += ["(", rng.choice(["U", "W"]), ">"] + p() + [")"] + (casts() if rng.random() < 0.5 else [";"])
            return o + ["}"]
        if k < 0.8:
            w = rng.choice(["@W", "@Gr", "@W", "@connected", "@disconnected"])
            return [w] + ([".", "W"] if w == "@Gr" else []) + ["{"] + casts() + ["}"]
        return ["@beacons", "{"] + casts(False) + ["}"]
    def config():
        o = [["Producer", ":"] + rng.choice([["rust"], ["typescript"], ["rust", "typescript"]]) + [";"],
             ["Consumer", ":"] + rng.choice([["rust"], ["typescript"]]) + [";"]]
        if rng.random() < 0.5: o.append(["SelfKey", ":"] + p() + [";"])
        if rng.random() < 0.5: o.append(["AssignedKey", ":"] + p() + [";"])
        rng.shuffle(o)
        return ["&config", "{"] + sum(o, []) + ["}"]
    ds = [decl() for _ in range(rng.randint(0, 4))]
    ds.insert(rng.randint(0, len(ds)), config())
    return sum(ds, [])

ALPHA = ["W", "Gr", "U", "SelfKey", "AssignedKey", "Producer", "Consumer", "rust", "typescript", "@W", "@Gr", "@U", "@connected", "@disconnected", "@beacons", "&config",
         "{", "}", "(", ")", ";", ":", "?", ".", ">", "!", "0N", "$", "N-N", "[", "~", "@", "&", "N@"]

def K01(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["names: fresh messages at the top level and in one group, fresh undefined names, the words of the configuration",
                       "a broadcast after a response without a conclusion, lists with commas and references to the service group are left open and not judged"]
    work = core.fresh(ck.prop, "run")
    t = tlc.run("WorkflowGrammar", "CONSTANTS\n MaxToks = 60\n Hist = %d\nSPECIFICATION Spec\nVIEW View\nINVARIANTS Viable Replay Broken2 OneConfig Dead Emit\nCHECK_DEADLOCK FALSE\n" % (1 if th else 0),
                os.path.join(work, "tlc"), workers=1)
    ck.tlc(t)
    seen = {}
    for r in t.records:
        if r["v"] == "open": continue
        if r["v"] == "accept" or not r["x"]: seen[tuple(r["t"])] = r["v"]
        for c in r["c"]: seen[tuple(r["t"] + c)] = "accept"
        for x in r["x"]: seen[tuple(r["t"] + x)] = "reject"
    cases = sorted(seen.items())
    ck.log("%d token sequences (%d accepted)" % (len(cases), sum(1 for _, v in cases if v == "accept")))
    cap = 60000 if th else 5000
    rej = [c for c in cases if c[1] != "accept"]
    if len(rej) > cap:
        rej = random.Random(core.SEED * 31 + 7).sample(rej, cap)
        cases = sorted([c for c in cases if c[1] == "accept"] + rej)
        ck.exhaustive = False
    todo = []
    for i, (toks, v) in enumerate(cases):
        words, prot = spell(toks)
        for k, l in enumerate(LAYOUTS):
            if i % len(LAYOUTS) == k or (v == "accept" and (th or k < 3)) or (l == "wide" and set(BROKEN) & set(toks)): todo.append((toks, v, l, prot, layout(words, l)))
    run = Runner(work)
    base = {}
    def judge(todo, tag):
        for (toks, v, l, prot, text), r in zip(todo, run.many([(x[3], x[4]) for x in todo])):
            ck.validated += 1
            key = "%s:%s" % (l, " ".join(toks))
            data = {"protocol": prot, "workflow": text}
            if v == "accept":
                if not accepted(r): ck.violation(key, "a well formed workflow is not accepted (%s): %s -- %s" % (l, " ".join(toks), told(r)), data); continue
                dg = digest(r)
                if base.setdefault(toks, dg) != dg: ck.violation(key, "the layout changes the outcome of %s (%s)" % (" ".join(toks), l), data)
            elif not refused(r):
                ck.violation(key, "a malformed workflow is not refused (%s): %s -- %s" % (l, " ".join(toks), told(r)), data)
    judge(todo, "spec")
    ck.sample({"tokens": cases[0][0], "verdict": cases[0][1]}); ck.sample({"tokens": cases[len(cases) // 2][0], "verdict": cases[len(cases) // 2][1]})
    rng = random.Random(core.SEED * 29 + 5)
    seqs = []
    for _ in range(6000 if th else 1000):
        s = rand_source(rng)
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            if not s: break
            i = rng.randrange(len(s)); k = rng.random()
            if k < 0.35: del s[i]
            elif k < 0.6: s.insert(i, rng.choice(ALPHA))
            elif k < 0.8: s[i] = rng.choice(ALPHA)
            elif k < 0.9: j = rng.randrange(len(s)); s[i], s[j] = s[j], s[i]
            else: s = s[:i]
        seqs.append(s)
    rp = os.path.join(work, "records.json")
    json.dump(seqs, open(rp, "w"))
    t = tlc.run("WorkflowGrammar", "CONSTANTS\n MaxToks = 60\n Hist = 0\nSPECIFICATION JSpec\nINVARIANT JEmit\nCHECK_DEADLOCK FALSE\n", os.path.join(work, "tlcj"), env={"FLOW_RECORDS": rp}, workers=4)
    ck.tlc(t)
    if len(t.records) != len(seqs): raise core.CheckError("TLC judged %d of %d sources" % (len(t.records), len(seqs)))
    verd = {r["rec"] - 1: r["v"] for r in t.records}
    todo = []
    for i, s in enumerate(seqs):
        if verd[i] == "open": continue
        words, prot = spell(s)
        l = LAYOUTS[i % len(LAYOUTS)]
        todo.append((tuple(s), verd[i], l, prot, layout(words, l)))
    judge(todo, "random")
    ck.notes["random_sources"] = len(todo)
    ck.notes["random_accepted"] = sum(1 for x in todo if x[1] == "accept")

# ------------------------------------------------------------------------------------------------------- K02, K05
STRUCTS = ["A", "B", "C", "D", "E", "F", "I", "J", "K", "L", "M", "N"]
PROT = "".join("struct %s {\n    str f%d;\n    u8 n?;\n}\n" % (x, i) for i, x in enumerate(STRUCTS)) + \
    "enum V {\n    u8 A;\n    str B;\n}\ngroup G {\n    struct A {\n        str a;\n        str b?;\n    }\n    struct B {}\n    struct C {\n        u16 c;\n    }\n" \
    "    enum V {\n        C X;\n        u8 Y;\n    }\n    group H {\n        struct A {\n            str a;\n        }\n        struct B {\n            A[] l;\n        }\n    }\n}\n"

def source(doc, style=0):
    cast = lambda b: "> %s%s;" % (b["ref"], "?" if b["opt"] else "")
    out = []
    for d in doc:
        if d["k"] == "cfg": out.append("&config {\n%s}" % "".join("    %s: %s;\n" % (i["key"], " ".join(i["val"])) for i in d["items"]))
        elif d["k"] == "bcn": out.append("@beacons {\n%s}" % "".join("    > %s;\n" % r for r in d["refs"]))
        elif d["k"] == "evt": out.append("@%s {\n%s}" % (d["ref"], "".join("    %s\n" % cast(b) for b in d["bcs"])))
        else:
            acts = ""
            for a in d["acts"]:
                acts += "    (%s%s)" % (a["conc"] + " > " if a["conc"] else "", a["resp"])
                acts += ";\n" if not a["bcs"] else " " + "\n        ".join(cast(b) for b in a["bcs"]) + "\n"
            out.append("%s !%s {\n%s}" % (d["ref"], d["err"], acts))
    t = "\n\n".join(out) + "\n"
    return t if style == 0 else re.sub(r"\s+", " ", t) if style == 1 else "# head\n" + t.replace("\n", " # n\u00f6te\n\t")

def documents(ck, work):
    th = ck.tier == "thorough"
    recs, seen = [], set()
    for e, nr, sh, cap in ((1, "FALSE", 0, None),) + (((2, "FALSE", 6, 6000), (4, "TRUE", 3, 6000)) if th else ((3, "TRUE", 3, 1200),)):
        t = tlc.run("Workflow", "CONSTANTS\n Edits = %d\n Narrow = %s\n Share = %d\nSPECIFICATION Spec\nVIEW View\nINVARIANTS BasesSound OrderFree Shown Emit\nCHECK_DEADLOCK FALSE\n" % (e, nr, sh),
                    os.path.join(work, "tlc"), workers=1, extra=["-seed", str(core.SEED * 101 + e)])
        ck.tlc(t)
        new = []
        for r in t.records:
            k = json.dumps(r["doc"], sort_keys=True)
            if k not in seen and not r["open"]: seen.add(k); new.append(r)
        if cap and len(new) > cap:       # keep a share of each verdict
            rng = random.Random(core.SEED)
            ok, ko = [r for r in new if not r["bad"]], [r for r in new if r["bad"]]
            one = [r for r in ko if len(r["bad"]) == 1]
            new = rng.sample(ok, min(len(ok), cap // 3)) + rng.sample(one, min(len(one), cap // 2))
            new += rng.sample([r for r in ko if len(r["bad"]) > 1], min(cap - len(new), len(ko) - len(one)))
        recs += new
    return recs

def K02(ck):
    ck.assumptions += ["four sound workflows (one of them with long lists, of whose single edits a share is taken) and everything reached from them by up to %d edits (all single edits, a random share of the longer ones)" % (4 if ck.tier == "thorough" else 3),
                       "a key that is also a request or a beacon is left open and not judged"]
    work = core.fresh(ck.prop, "run")
    recs = documents(ck, work)
    ck.log("%d documents (%d sound)" % (len(recs), sum(not r["bad"] for r in recs)))
    run = Runner(work)
    for (i, r), x in zip(enumerate(recs), run.many([(PROT, source(r["doc"], i % 3)) for i, r in enumerate(recs)])):
        ck.validated += 1
        text = source(r["doc"], i % 3)
        key = hashlib.sha256(text.encode()).hexdigest()[:12]
        if r["bad"] and not refused(x): ck.violation("refuse:%s:%s" % ("+".join(sorted(r["bad"])), key), "an unsound workflow (%s) is not refused -- %s\n%s" % (", ".join(r["bad"]), told(x), text), {"workflow": text, "protocol": PROT})
        if not r["bad"] and not accepted(x): ck.violation("accept:%s" % key, "a sound workflow is refused -- %s\n%s" % (told(x), text), {"workflow": text, "protocol": PROT})
    for r in recs[5:len(recs):max(1, len(recs) // 5)]: ck.sample({"workflow": source(r["doc"]), "problems": r["bad"]})

LINE = re.compile(r"^(\w+)\s*(-+)>(x?)\s*(\w+)\s*:\s*(.*)$")
def diagram(text):
    """Groups of lines of a PlantUML sequence diagram, by what they hold."""
    lines = [l.strip() for l in text.splitlines() if l.strip()]
    if not lines or lines[0] != "@startuml" or lines[-1] != "@enduml": return None
    out, cur, title = {"requests": [], "events": [], "beacons": []}, None, None
    for l in lines[1:-1]:
        if l.startswith("collections "): continue
        if l.startswith("group "):
            if cur is not None: return None
            cur, title = [], l[6:].strip()
        elif l == "end":
            if not cur: return None
            k = "beacons" if title == "Beacons" and cur[0]["t"] == "Connected Event" else "events" if cur[0]["a"] == cur[0]["b"] else "requests"
            if k == "beacons":
                if out[k]: return None
                out[k] = cur
            else: out[k].append(cur)
            cur = None
        elif cur is None: return None
        elif l.startswith("==") and l.endswith("=="): cur.append({"a": "", "b": "", "dash": False, "t": l.strip("= ")})
        else:
            m = LINE.match(l)
            if not m: return None
            t = m.group(5)
            if m.group(3): t = "error " + re.sub(r"<[^>]*>", "", t).strip()
            cur.append({"a": m.group(1), "b": m.group(4), "dash": len(m.group(2)) > 1, "t": t})
    return out if cur is None else None

def K05(ck):
    ck.assumptions += ["the documents of K02; lines, arrows, order and titles are compared, decoration is not", "whether a workflow without a configuration has a diagram is left open"]
    work = core.fresh(ck.prop, "run")
    recs = [r for r in documents(ck, work)]
    ck.log("%d documents (%d sound)" % (len(recs), sum(not r["bad"] for r in recs)))
    run = Runner(work)
    fmt = lambda ls: "; ".join("%s%s%s: %s" % (l["a"], "-->" if l["dash"] else "->", l["b"], l["t"]) for l in ls)
    for (i, r), x in zip(enumerate(recs), run.many([(PROT, source(r["doc"], i % 3)) for i, r in enumerate(recs)], diagram=True, code=False)):
        ck.validated += 1
        text = source(r["doc"], i % 3)
        data = {"workflow": text, "protocol": PROT, "diagram": x.puml}
        key = hashlib.sha256(text.encode()).hexdigest()[:12]
        if r["bad"]:
            if r["bad"] == ["no config"]: continue        # the diagram needs no configuration
            if x.puml is not None or x.dg.rc == 0: ck.violation("refuse:" + key, "a diagram is made of an unsound workflow (%s)\n%s" % (", ".join(r["bad"]), text), data)
            continue
        if x.puml is None or not x.dg.ok: ck.violation("none:" + key, "no diagram of a sound workflow -- exit %s %s\n%s" % (x.dg.rc, (x.dg.out + x.dg.err)[-200:], text), data); continue
        got, want = diagram(x.puml), r["dg"][0]
        if got is None: ck.violation("shape:" + key, "not a diagram of groups and lines:\n" + x.puml, data); continue
        for k in ("requests", "events", "beacons"):
            g, w = (got[k], want[k]) if k != "beacons" else ([got[k]], [want[k]])
            if g != w:
                j = next((j for j in range(max(len(g), len(w))) if j >= len(g) or j >= len(w) or g[j] != w[j]), 0)
                ck.violation("%s:%s" % (k, key), "the diagram of %s differs: shows [%s], the workflow declares [%s]" % (k, fmt(g[j]) if j < len(g) else "nothing", fmt(w[j]) if j < len(w) else "nothing"), data)
    for r in [r for r in recs if not r["bad"]][:3]: ck.sample({"workflow": source(r["doc"]), "diagram": r["dg"][0]})

CHECKS = {"K01": K01, "K02": K02, "K05": K05}

# ------------------------------------------------------------------------------------------------------------- K06
def both(doc, targets):
    """The document with the targets replaced."""
    return [dict(d, items=[dict(i, val=targets) if i["key"] in ("Producer", "Consumer") else i for i in d["items"]]) if d["k"] == "cfg" else d for d in doc]

def has_enum(doc):
    s = json.dumps(doc)
    return '"V"' in s or '"G.V"' in s

def roles(doc):
    """What the messages of a document are used for: {role: refs}"""
    o = {}
    for d in doc:
        if d["k"] == "req":
            o.setdefault("request", []).append(d["ref"]); o.setdefault("error", []).append(d["err"])
            for a in d["acts"]:
                o.setdefault("response", []).append(a["resp"])
                for b in a["bcs"]: o.setdefault("broadcast", []).append(b["ref"])
        elif d["k"] == "evt":
            o.setdefault("event", []).append(d["ref"])
            for b in d["bcs"]: o.setdefault("event broadcast", []).append(b["ref"])
        elif d["k"] == "bcn": o.setdefault("beacon", []).extend(d["refs"])
    return o

TSCONF = {"compilerOptions": {"baseUrl": "./", "noEmit": True, "module": "CommonJS", "target": "ESNEXT", "moduleResolution": "node", "strict": True, "types": [],
                              "lib": ["ESNEXT.BigInt", "ESNEXT", "DOM"], "paths": {"clibri": [os.path.join(core.HARNESS, "clibri_ts", "index.ts")]}, "skipLibCheck": True}}

def tsc(d, files):
    """Type errors, by directory; what the newer compiler here says about array buffers is left out."""
    open(os.path.join(d, "amb.d.ts"), "w").write("declare const Buffer: any;\ndeclare type Buffer = any;\n")
    json.dump(dict(TSCONF, files=["amb.d.ts"] + files), open(os.path.join(d, "tsconfig.json"), "w"))
    r = core.sh(["/opt/veriftools/node/node_modules/.bin/tsc", "-p", "tsconfig.json"], cwd=d, timeout=600)
    out = [l for l in r.stdout.splitlines() if re.match(r"^\S.*error TS", l) and "ArrayBuffer" not in l]
    if r.returncode != 0 and not re.search(r"error TS", r.stdout): raise core.CheckError("tsc: " + r.stdout[-500:] + r.stderr[-500:])
    return out

def diverse(recs, n, rng):
    """Documents that differ in the roles and shapes they use."""
    def feats(doc):
        o = set()
        for d in doc:
            if d["k"] == "req":
                o.add(("acts", len(d["acts"]), tuple(bool(a["bcs"]) for a in d["acts"]), tuple(bool(a["conc"]) for a in d["acts"]), tuple(b["opt"] for a in d["acts"] for b in a["bcs"])))
                if len({a["resp"] for a in d["acts"]}) < len(d["acts"]): o.add("same response")
                if d["err"] in [a["resp"] for a in d["acts"]]: o.add("error is response")
                if d["ref"] in [a["resp"] for a in d["acts"]]: o.add("request is response")
                bc = [b["ref"] for a in d["acts"] for b in a["bcs"]]
                if len(set(bc)) < len(bc): o.add(("shared broadcast", tuple(sorted((b["ref"], b["opt"]) for a in d["acts"] for b in a["bcs"]))))
            elif d["k"] == "evt": o.add(("evt", d["ref"] if d["ref"] in ("connected", "disconnected") else "x", tuple(b["opt"] for b in d["bcs"])))
            elif d["k"] == "cfg": o.add(("cfg", tuple(sorted(i["key"] for i in d["items"]))))
            else: o.add(("bcn", len(d["refs"])))
        for k, v in roles(doc).items():
            for x in v:
                o.add((k, x in ("V", "G.V"), x.count(".")))
        rl = roles(doc)
        for a in rl:
            for b in rl:
                if a < b and set(rl[a]) & set(rl[b]): o.add(("shared", a, b))
        o.add(("kinds", tuple(sorted({d["k"] for d in doc}))))
        return o
    pool = [(r, feats(r["doc"])) for r in recs if not r["bad"]]
    rng.shuffle(pool)
    out, got = [], set()
    while pool and len(out) < n:
        i = max(range(len(pool)), key=lambda j: len(pool[j][1] - got))
        r, f = pool.pop(i)
        out.append(r); got |= f
    return out

def K06(ck):
    th = ck.tier == "thorough"
    ck.assumptions += ["sound documents of spec/Workflow.tla, chosen for different shapes and roles; a fixed protocol of structs, enums and groups",
                       "rustc 1.75 for Rust; tsc with a stand-in for the clibri package for TypeScript (differences of newer array buffer types are left out)"]
    work = core.fresh(ck.prop, "run")
    PROT = globals()["PROT"].replace("u8 n?;", "u8 type?;").replace("str a;", "str match;").replace("str b?;", "str buffer?;")     # names that mean something to the languages
    recs = [r for r in documents(ck, work) if not r["bad"]]
    rng = random.Random(core.SEED * 3 + 1)
    chosen = diverse(recs, 60 if th else 14, rng)
    # Rust: all of them as modules of one crate
    d = os.path.join(work, "crate")
    os.makedirs(os.path.join(d, "src"))
    h = os.path.join(core.HARNESS, "flow_rs")
    for f in ("Cargo.toml", "Cargo.lock"): shutil.copy(os.path.join(h, f), d)
    mods = []
    def make(i, doc, dest, pd, cd, name):
        s = os.path.join(work, name)
        os.makedirs(s)
        open(os.path.join(s, "a.prot"), "w").write(PROT); open(os.path.join(s, "a.workflow"), "w").write(source(doc))
        for x in (pd, cd):
            os.makedirs(x)
            for f, t in STUB.items(): open(os.path.join(os.path.dirname(x), f), "w").write(t)
        return core.gen(["-s", "a.prot", "-wf", "a.workflow", "-pd", pd, "-cd", cd], s)
    texts = {}
    for i, r in enumerate(chosen):
        doc = both(r["doc"], ["rust"])
        texts["m%d" % i] = source(doc)
        g = make(i, doc, d, os.path.join(d, "src", "m%d" % i, "p"), os.path.join(d, "src", "m%d" % i, "c"), "rs%d" % i)
        ck.validated += 1
        if not g.ok: ck.violation("gen:rust:" + hashlib.sha256(source(doc).encode()).hexdigest()[:12], "no Rust code for a sound workflow: %s\n%s" % ((g.out + g.err)[-200:], source(doc)), {"workflow": source(doc)}); continue
        mods.append("#[allow(warnings)] mod m%d { pub mod p; pub mod c; }" % i)
    open(os.path.join(d, "src", "main.rs"), "w").write("\n".join(mods) + "\nfn main() {}\n")
    r = core.sh(["cargo", "check", "--offline", "--locked", "--message-format", "short"], cwd=d, env=core.rust_env({"CARGO_TARGET_DIR": os.path.join(core.BUILD, "flow-target")}), timeout=800)
    errs = [l for l in r.stderr.splitlines() if re.match(r"^src/m\d+/.*error", l)]
    if r.returncode != 0 and not errs: raise core.CheckError("cargo check: " + r.stderr[-2000:])
    seen = set()
    for l in errs:
        m = re.match(r"^src/(m\d+)/([pc])/", l)
        k = (m.group(1), m.group(2))
        if k in seen: continue
        seen.add(k)
        ck.violation("rust:%s:%s" % (m.group(2), hashlib.sha256(texts[m.group(1)].encode()).hexdigest()[:12]), "the Rust %s of a sound workflow does not compile: %s\n%s" % ({"p": "producer", "c": "consumer"}[m.group(2)], l, texts[m.group(1)]),
                     {"workflow": texts[m.group(1)], "protocol": PROT, "errors": [e for e in errs if e.startswith("src/%s/%s/" % k)][:20]})
    # TypeScript
    t = os.path.join(work, "ts")
    os.makedirs(t)
    files, what = [], {}
    tdocs = [("m%d" % i, both(r["doc"], ["typescript"])) for i, r in enumerate(diverse(recs, 120 if th else 30, rng))]
    for name, doc in tdocs:
        g = make(0, doc, t, os.path.join(t, name, "p"), os.path.join(t, name, "c"), "ts" + name)
        what[name] = doc
        ck.validated += 1
        if not g.ok: ck.violation("gen:ts:" + hashlib.sha256(source(doc).encode()).hexdigest()[:12], "no TypeScript code for a sound workflow: %s\n%s" % ((g.out + g.err)[-200:], source(doc)), {"workflow": source(doc)}); continue
        files += ["%s/%s/index.ts" % (name, s) for s in "pc"]
    seen = set()
    for l in tsc(t, files):
        m = re.match(r"^(m\d+)/([pc])/(\S*?)\(", l)
        if not m: raise core.CheckError("tsc: " + l)
        doc = what[m.group(1)]
        enums = sorted(k for k, v in roles(doc).items() if set(v) & {"V", "G.V"})
        key = "ts:%s:%s:%s" % (m.group(2), re.search(r"error (TS\d+)", l).group(1), m.group(3))
        if key in seen: continue
        seen.add(key)
        ck.violation(key, "the TypeScript %s of a sound workflow does not type-check: %s\n%s" % ({"p": "producer", "c": "consumer"}[m.group(2)], l, source(doc)), {"workflow": source(doc), "protocol": PROT, "enum roles": enums})
    ck.notes["rust_workflows"], ck.notes["typescript_workflows"] = len(mods), len(files) // 2
    for r in chosen[:2]: ck.sample({"workflow": source(r["doc"])})
CHECKS["K06"] = K06
