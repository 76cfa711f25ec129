"""P01..P08: generated Rust producers (spec/ProducerCore.tla, ProducerGen.tla, ProducerTrace.tla)."""
import copy, json, os, random
from vlib import core, flow, proc, tlc

SVC = "InternalServiceGroup."
NOSCRIPT = {"o": "ok", "c": "", "b": [], "k": [], "a": [], "x": "", "d": False, "w": False}

# ------------------------------------------------------------------ stimuli ----
def sc(**k):
    s = copy.deepcopy(NOSCRIPT)
    s.update(k)
    s["b"] = [({"t": x, "l": []} if isinstance(x, str) else {"t": x[0], "l": list(x[1])}) for x in s["b"]]
    return s
def tok(kind, m, q, t="M", key=(), h="", s=None, tag="t"):
    return {"t": t, "kind": kind, "m": m, "q": q, "tag": tag, "key": list(key), "h": h, "s": s or sc()}
class U:
    """Stimuli for one workflow."""
    def __init__(self, fl):
        self.fl = fl
        self.nkey = len(fl.msgs[fl.selfkey])
        self.nasg = len(fl.msgs[fl.assigned])
    def pad(self, k, n): return (list(k) + ["-"] * n)[:n]
    def key(self, *k, q=1, t="M"): return tok("key", self.fl.selfkey, q, key=self.pad(k or ("n1",), self.nkey), t=t)
    def hash(self, h="ok", q=2, t="M"): return tok("hash", SVC + "HashRequest", q, h=h, t=t)
    def app(self, m, q=7, t="M", **s): return tok("app", m, q, s=sc(**s), t=t)
    def setkey(self, k, ow): return [self.pad(k, self.nkey), ow]
    def setasg(self, k, ow): return [self.pad(k, self.nasg), ow]
    def ident(self, u, k, key, ow): return {"t": "ident", "u": u, "k": k, "key": self.pad(key, self.nkey if k == "key" else self.nasg), "ow": ow}
def connect(u): return {"t": "connect", "u": u}
def disconnect(u): return {"t": "disconnect", "u": u}
def recv(u, *toks): return {"t": "recv", "u": u, "c": list(toks)}
def event(e, **s): return {"t": "event", "e": e, "tag": "t", "s": sc(**s)}
def fault(*l): return {"t": "fault", "l": list(l)}
def srverr(k, u="c1"): return {"t": "srverr", "k": k, "u": u}
def shutdown(wait): return {"t": "shutdown", "wait": wait}
def listen(k): return {"t": "listen", "k": k}
READY, SRVDOWN, GO = {"t": "ready"}, {"t": "srvdown"}, {"t": "go"}
def shake(U_, u, *k, asg=None):
    """Connection, then both halves of the handshake; user code may assign the consumer on the way."""
    r = [[connect(u)], [recv(u, U_.key(*(k or ("n1",))))], [recv(u, U_.hash())]]
    if asg: r.append([U_.ident(u, "asg", asg, True)])
    return r
def crowd(U_, n, asg=()):
    """n consumers, each with its handshake done."""
    return [[connect("c%d" % i)] for i in range(1, n + 1)] + [[recv("c%d" % i, U_.key("n%d" % (1 + i % 3)), U_.hash()) for i in range(1, n + 1)]] \
        + [[U_.ident("c%d" % i, "asg", ["r%d" % i, "g"], True)] for i in asg]
def wide(n, who=None):
    """Addressees among n consumers (who: excepted where there is no caller)."""
    c = ["c%d" % i for i in range(1, n + 1)]
    return ["all", ("except", [who]) if who else "except", ("exclude", c[1::2]), ("exclude", c[:0:-1]), ("exclude", c[:3] + c[-1:]), ("list", c), ("list", c[::-1]), ("list", c[1:-1]), ("keyed", ["n1"]), ("keyed", ["n2"]), "asgd"]
CFG = {"connected": {"tag": "C", "s": sc()}, "disconnected": {"tag": "D", "s": sc()}}
def cfg(c=None, d=None): return {"connected": {"tag": "C", "s": sc(**(c or {}))}, "disconnected": {"tag": "D", "s": sc(**(d or {}))}}

def case(fl, prefix, alpha, depth, ids="Ignore", errs="EmitErrorAndDisconnect", c=None):
    one = lambda l: [x if isinstance(x, list) else [x] for x in l]
    return {"flow": fl.name, "ids": ids, "errs": errs, "cfg": c or CFG, "prefix": one(prefix), "alpha": one(alpha), "depth": depth}

# ------------------------------------------------------------------ scenarios ----
def number(bursts):
    """Positions and unique tags."""
    out, nt, halves = [], 0, {}
    for i, b in enumerate(bursts):
        nb = []
        for j, x in enumerate(b):
            x = copy.deepcopy(x)
            x["n"] = (i + 1) * 10 + j
            if x["t"] == "event":
                nt += 1; x["tag"] = "t%d" % nt
            if x["t"] == "disconnect": halves.pop(x["u"], None)
            for k, m in enumerate(x.get("c", [])):
                if m["t"] == "B" and x["u"] in halves:
                    m["tag"] = halves.pop(x["u"])
                else:
                    nt += 1; m["tag"] = "t%d" % nt
                if m["t"] == "A": halves[x["u"]] = m["tag"]
            nb.append(x)
        out.append(nb)
    return out

HOW = ["bad", "lower", "half", "empty", "twice", "tail", "cut", "swap", "last", "pad", "first"]      # fingerprints that are not the expected one
def driver(fl, sid, case, bursts):
    """The scenario as the driver wants it."""
    def wrong(name, m): return "@%s!%s" % (name, HOW[(7 * (sid if isinstance(sid, int) else 0) + int(m["tag"][1:] or 0)) % len(HOW)])
    def token(m):
        if m["kind"] == "key":
            f = {n: v for (n, o), v in zip(fl.msgs[fl.selfkey], m["key"]) if v != "-"}
        elif m["kind"] == "hash":
            f = {"protocol": wrong("protocol", m) if m["h"] in ("p", "both") else "@protocol", "workflow": wrong("workflow", m) if m["h"] in ("w", "both") else "@workflow"}
        else:
            f = {"tag": m["tag"], "script": json.dumps(m["s"])}
            if m["m"].startswith(SVC): f = {"uuid": "x"}
        return {"t": m["t"], "m": m["m"], "q": m["q"], "f": f}
    def stim(x):
        y = {k: v for k, v in x.items() if k not in ("s", "c")}
        if "s" in x: y["script"] = json.dumps(x["s"])
        if "c" in x: y["c"] = [token(m) for m in x["c"]]
        return y
    return {"id": sid, "flow": fl.name, "ids": case["ids"], "errs": case["errs"],
            "cfg": {k: {"tag": v["tag"], "script": json.dumps(v["s"])} for k, v in case["cfg"].items()},
            "steps": [[stim(x) for x in b] for b in bursts]}

def canon(trace, bursts):
    """Recorded outputs in the vocabulary of the specification."""
    stims = {x["n"]: x for b in bursts for x in b}
    out, rel = [], []
    for r in trace:
        op = r["op"]
        if op == "stim": out.append({"op": "stim", "x": stims[r["s"]]})
        elif op == "settled":
            if rel: out.append({"op": "released", "n": rel}); rel = []
            out.append(r)
        elif op == "released": rel.append(r["n"])
        elif op == "send":
            m, f = r["m"], r["f"]
            if m.startswith(SVC):
                n = m[len(SVC):]
                u = f.get("uuid", "")
                tag = {"HashResponse": "err" if "error" in f else "ok", "BeaconConfirmation": "err" if "error" in f else "ok",
                       "SelfKeyResponse": uname(u)}.get(n, "")
                out.append({"op": "send", "u": r["u"], "m": m, "q": r["q"], "tag": tag})
            elif r["q"] == 0 and "#" in f.get("tag", ""):      # the answer to a request numbered 0 has no #
                last = out[-1] if out else {}
                if last.get("op") == "bcast" and last["m"] == m and last["tag"] == f["tag"]:
                    last["to"].append(r["u"] if r["u"] not in last["to"] else r["u"] + "#again")
                else:
                    out.append({"op": "bcast", "m": m, "tag": f["tag"], "to": [r["u"]]})
            else:
                out.append({"op": "send", "u": r["u"], "m": m, "q": r["q"], "tag": f.get("tag", json.dumps(f))})
        elif op == "call":
            r = dict(r)
            for k in ("all", "exc", "ecl", "byk", "bya", "any", "ecm"):
                l = []
                for x in r[k]: l.append(x + "#again" if x in l else x)
                r[k] = l
            out.append(r)
        else: out.append(r)
    if rel: out.append({"op": "released", "n": rel})
    return out
def strq(x):
    """Sequence numbers exceed the integers of TLC."""
    if isinstance(x, dict): return {k: (str(v) if k == "q" else strq(v)) for k, v in x.items()}
    if isinstance(x, list): return [strq(v) for v in x]
    return x
def uname(u):
    try:
        v = int(u.replace("-", ""), 16)
        return "c%d" % (v - 0x1000) if 0x1000 <= v < 0x2000 else "?" + u
    except ValueError:
        return "?" + u

# ------------------------------------------------------------------ running ----
def generate(ck, fls, cases, timeout=500):
    d = core.fresh(ck.prop, "gen")
    json.dump({f.name: f.json() for f in fls}, open(d + "/flows.json", "w"))
    json.dump(strq(cases), open(d + "/cases.json", "w"))
    c = "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANT Monitors\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    t = tlc.run("ProducerGen", c, d, env={"PG_FLOWS": d + "/flows.json", "PG_CASES": d + "/cases.json"}, timeout=timeout, **tlc.same(ck))
    ck.tlc(t)
    hs = {(r["c"] - 1, tuple(r["h"])) for r in t.records}
    pre = {(c, h[:-1]) for c, h in hs}
    return sorted(h for h in hs if h not in pre)

def histories(cases, hs):
    for c, h in hs:
        k = cases[c]
        yield k, [k["prefix"][i] if x == 0 else k["alpha"][x - 1] for i, x in enumerate(h)]

def judge(ck, fls, runs, what="runs", timeout=700, prop=None):
    """runs: [(id, case, bursts, trace)].  Returns the ids the specification does not accept."""
    d = core.fresh(ck.prop, "judge")
    json.dump({f.name: f.json() for f in fls}, open(d + "/flows.json", "w"))
    rec = [{"id": i, "flow": c["flow"], "ids": c["ids"], "errs": c["errs"], "cfg": c["cfg"], "obs": canon(t, b)} for i, c, b, t in runs]
    json.dump(strq(rec), open(d + "/traces.json", "w"))
    cf = "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANT Emit\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    env = {"PT_FLOWS": d + "/flows.json", "PT_TRACES": d + "/traces.json", "PT_PROP": prop or ck.prop, "PT_VERBOSE": "0"}
    t = tlc.run("ProducerTrace", cf, d, env=env, timeout=timeout)
    ck.tlc(t)
    ok = {r["ok"] for r in t.records}
    bad = [r for r in rec if r["id"] not in ok]
    why = {}
    if bad:
        json.dump(strq(bad[:20]), open(d + "/bad.json", "w"))
        v = tlc.run("ProducerTrace", cf, d, env=dict(env, PT_TRACES=d + "/bad.json", PT_VERBOSE="1"), timeout=timeout)
        for r in v.records:
            if "at" in r:
                w = why.setdefault(r["id"], {"at": 0, "next": None, "possible": []})
                if r["at"] > w["at"]: w.update(at=r["at"], next=r["next"], possible=[])
                if r["at"] == w["at"]: w["possible"] += [x for x in r["want"] if x not in w["possible"]][:6]
    return {r["id"]: why.get(r["id"], {}) for r in bad}

def drive(ck, binary, fls, scen):
    """scen: [(case, bursts)] -> [(id, case, bursts, trace)]"""
    by = {f.name: f for f in fls}
    cmds, kept = [], []
    for i, (c, b) in enumerate(scen):
        b = number(b)
        kept.append((i, c, b))
        cmds.append(driver(by[c["flow"]], i, c, b))
    rs = proc.drive([binary], cmds)
    out = []
    for (i, c, b), cmd, r in zip(kept, cmds, rs):
        if "trace" not in r:
            if "skipped" in r: continue
            ck.violation("crash:" + sig(c, b), "the producer crashes or hangs", {"scenario": cmd, "result": r})
            continue
        if any(x["op"] == "panic" for x in r["trace"]):
            ck.violation("panic:" + sig(c, b), "the producer panics: %s" % [x["at"] for x in r["trace"] if x["op"] == "panic"][0], {"scenario": cmd, "result": r})
            continue
        out.append((i, c, b, r["trace"]))
    return out

def sig(c, b):
    """Identifies a scenario."""
    import hashlib
    return hashlib.sha1(json.dumps([c["flow"], c["ids"], c["errs"], c["cfg"], b], sort_keys=True).encode()).hexdigest()[:12]

def randoms(rng, cases, n, lo=6, hi=22):
    """Longer histories over the alphabets of the cases, in random bursts.  Connections come and go only at rest."""
    out = []
    for _ in range(n):
        k = rng.choice(cases)
        alpha = [x for x in k["alpha"]]
        b, half = list(k["prefix"]), {}
        burst = []
        solo = {"connect", "disconnect", "fault", "ready"}
        for _ in range(rng.randint(lo, hi)):
            x = rng.choice(alpha)
            ts = {y["t"] for y in x}
            if not fits(half, x): continue
            if ts & {"shutdown", "listen", "srvdown"} and rng.random() < 0.7: continue
            if ts & solo or rng.random() < 0.35:
                if burst: b.append(burst); burst = []
                b.append(x)
            else:
                burst = burst + x
                if len(burst) > 5: b.append(burst); burst = []
        if burst: b.append(burst)
        if sum(1 for x in b for y in x if y["t"] == "ready") > 1 or sum(1 for x in b for y in x if y["t"] == "listen") > 1: continue
        out.append((k, b))
    return out
def fits(half, burst):
    """A second half only after its first half, and nothing else in between."""
    h = dict(half)
    for x in burst:
        if x["t"] == "connect" and x["u"] in h: return False
        if x["t"] == "disconnect": h.pop(x["u"], None)
        for m in x.get("c", []):
            p = h.get(x["u"])
            me = json.dumps([m["m"], m["q"], m["key"], m["s"]])
            if (m["t"] == "B") != (p is not None) or (p is not None and p != me): return False
            h.pop(x["u"], None)
            if m["t"] == "A": h[x["u"]] = me
    half.clear(); half.update(h)
    return True

def longs(fl, th):
    """Long histories: hundreds of requests, many consumers that come and go, long chunks."""
    rng = random.Random(13)
    u = U(fl)
    rqs = requests(fl)
    evs = [e for e in fl.events if e["ref"] not in ("connected", "disconnected")]
    k0 = cfg({"b": ["all", "all"], "d": True}, {"b": ["all", "all"], "d": True})
    def ask(i):
        q = [i + 1, 4294967295 - i, 256 * i][i % 3]
        if fl.beacons and rng.random() < 0.2: return u.app(rng.choice(fl.beacons), q=q, d=i % 5 == 0)
        m, c, n = rng.choice(rqs)
        if rng.random() < 0.15: return u.app(m, q=q, o="err", c=c, b=["all"] * n)
        return u.app(m, q=q, c=c, b=[rng.choice(["all", "except", ("exclude", ["c2"]), ("keyed", ["n1"]), "asgd", "none"]) for _ in range(n)], d=i % 7 == 0)
    def hello(i): return [[connect("c%d" % i)], [recv("c%d" % i, u.key("n%d" % (i % 3)), u.hash())]]
    out = []
    b = [x for i in (1, 2, 3) for x in hello(i)]                         # hundreds of requests
    for i in range(1200 if th else 300): b.append([recv("c%d" % (1 + i % 3), ask(i))])
    out.append((case(fl, [], [], 0, errs="Log"), [[READY]] + b))
    b, live = [], []                                                     # consumers come and go
    for i in range(1, 150 if th else 50):
        b += hello(i); live.append(i)
        if i % 4 == 0: b.append([u.ident("c%d" % i, "asg", ["r%d" % i, "g"], True)])
        if len(live) > 9: b.append([disconnect("c%d" % live.pop(rng.randrange(len(live))))])
        b.append([recv("c%d" % rng.choice(live), ask(i))])
        if evs and i % 6 == 0: b.append([event(evs[0]["ref"], b=["all"] * len(evs[0]["bc"]), d=True)])
    out.append((case(fl, [], [], 0, errs="EmitError", c=k0), [[READY]] + b))
    b = hello(1) + hello(2)                                              # many in one chunk
    for n in (3, 12, 40, 270) if not th else (3, 12, 40, 150, 600): b.append([recv("c1", *[ask(i) for i in range(n)])]); b.append([recv("c2", *[ask(i) for i in range(n)])])
    out.append((case(fl, [], [], 0, errs="Log", c=k0), [[READY]] + b))
    return out

def run(ck, fls, cases, nrandom, cap, more=False):
    work = core.fresh(ck.prop, "run")
    binary = flow.build_producers(fls, work, log=ck.log)
    ck.log("producers built")
    hs = generate(ck, fls, cases)
    ck.log("%d histories" % len(hs))
    rng = random.Random(core.SEED * 7919 + int(ck.prop[1:]))
    if len(hs) > cap: ck.exhaustive = False
    scen = list(histories(cases, core.choose(rng, hs, cap)))
    scen += randoms(rng, cases, nrandom)
    if more: scen += [x for fl in fls for x in longs(fl, ck.tier == "thorough")]
    runs = drive(ck, binary, fls, scen)
    ck.log("%d runs recorded" % len(runs))
    bad = judge(ck, fls, runs)
    by = {i: (c, b, t) for i, c, b, t in runs}
    for i, why in sorted(bad.items(), key=lambda x: len(by[x[0]][1]))[:40]:
        c, b, t = by[i]
        ck.violation(sig(c, b), "a run no behaviour of the specification explains: %s" % json.dumps(why.get("next"))[:200],
                     {"flow": c["flow"], "ids": c["ids"], "errs": c["errs"], "cfg": c["cfg"], "scenario": b, "stuck": why, "recorded": t})
    ck.validated += len(runs) - len(bad)
    for i, c, b, t in runs[:: max(1, len(runs) // 5)]:
        ck.sample({"flow": c["flow"], "ids": c["ids"], "errs": c["errs"], "scenario": b})
    return runs

# ------------------------------------------------------------------ the alphabets ----
def slow(fl, rq, c0, n, th, more=(), conf=None, **k):
    """Handlers that take their time: what comes meanwhile is served afterwards, nothing twice, nothing lost."""
    u = U(fl)
    ev = [e for e in fl.events if e["ref"] not in ("connected", "disconnected")][0]
    m = len(ev["bc"])
    alpha = [GO, recv("c1", u.app(rq, q=3, c=c0, b=["all"] * n, w=True)), recv("c1", u.app(rq, q=4, c=c0, w=True, d=True), u.app(rq, q=5, c=c0, b=["except"] * n)), recv("c2", u.app(rq, q=6, c=c0, b=["all"] * n)),
             event(ev["ref"], b=["all"] * m, w=True), event(ev["ref"], b=["all"] * m, d=True), connect("c3"), disconnect("c1"), recv("c2", u.app(rq, q=8, c=c0, w=True), u.app(rq, q=9, c=c0, w=True)),
             [recv("c1", u.app(rq, q=10, c=c0, w=True, o="err")), event(ev["ref"], b=["all"] * m), recv("c2", u.app(rq, q=11, c=c0))], recv("c3", u.key("n3"), u.hash())] + list(more)
    return case(fl, [READY] + shake(u, "c1", "n1") + shake(u, "c2", "n2"), alpha, 5 if th else 4, c=conf, **k)

def many(fl_cases): return [c for l in fl_cases for c in l]

def p01(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, rq, extra in ((w1, "Top", "Beac"), (w2, "Gx.Req", "Req")):
        u = U(fl)
        c0 = {"Top": "First", "Gx.Req": "A"}[rq]
        one = [connect("c1"), disconnect("c1"), recv("c1", u.key("n1")), recv("c1", u.hash()), recv("c1", u.hash("p")), recv("c1", u.hash("w")),
               recv("c1", u.app(rq, c=c0)), recv("c1", u.app(extra, q=0)),
               recv("c1", u.key("n2"), u.hash()), recv("c1", u.hash(), u.key("n3", "x"), u.app(rq, c=c0)), recv("c1", u.key("n4"), u.app(rq, c=c0), u.hash(), u.app(rq, c=c0)),
               recv("c1", u.hash("both"), u.app(rq, c=c0), u.app(extra)), recv("c1", u.key(t="A")), recv("c1", u.key(t="B"), u.hash()), recv("c1", tok("app", SVC + "SelfKeyResponse", 3)),
               [connect("c1"), recv("c1", u.key("n1"), u.hash(), u.app(rq, c=c0))]]
        cases.append(case(fl, [READY], one, 6 if th else 5, errs="Disconnect"))
        # user code may identify a consumer itself; the hash is still required
        two = [connect("c1"), connect("c2"), disconnect("c2"), recv("c1", u.key("n1")), recv("c2", u.key("n2", q=0)), recv("c1", u.hash()), recv("c2", u.hash(q=0)), recv("c2", u.hash("p")),
               recv("c1", u.app(rq, c=c0)), recv("c2", u.app(rq, c=c0, q=0)), u.ident("c2", "key", ["own"], True)]
        cases.append(case(fl, [READY], two, 8 if th else 6, errs="EmitError"))
    run(ck, [w1, w2], cases, 1500 if th else 150, 8000 if th else 3000, True)


def requests(fl):
    """Every request with every conclusion, with every kind of addressing of its broadcasts."""
    out = []
    for r in fl.requests:
        for a in r["actions"]:
            out.append((r["ref"], a["conc"] or "", len(a["bc"])))
    return out
ADDR = ["all", "except", ("exclude", ["c2"]), ("keyed", ["n1"]), "asgd", "none", ("list", ["c1"]), ("list", ["c2", "c3"]), ("list", [])]

def p02(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl in (w1, w2):
        u = U(fl)
        pre = [READY] + shake(u, "c1", "n1", asg=["r1", "g1"]) + shake(u, "c2", "n2") + shake(u, "c3", "n1")
        alpha = []
        for i, (m, c, n) in enumerate(requests(fl)):
            q = [1, 7, 11, 4294967295][i % 4]
            for a in (ADDR if n else ["all"]):
                alpha.append(recv("c1", u.app(m, q=q, c=c, b=[a] * n)))
            if n > 1:
                alpha.append(recv("c2", u.app(m, q=q, c=c, b=["none"] + [("list", ["c1", "c3"])] + ["except"] * (n - 2))))
                alpha.append(recv("c2", u.app(m, q=q, c=c, b=["all", "none", "except"][:n], d=True)))
            alpha.append(recv("c2", u.app(m, q=q, c=c, d=True, b=["all"] * n)))
            alpha.append(recv("c3", u.app(m, q=q, o="err", d=True)))
            alpha.append(recv("c1", u.app(m, q=q, o="err", c=c, b=["all"] * n)))
            alpha += [recv("c1", u.app(m, q=0, c=c, b=["all"] * n), u.app(m, q=0, o="err")), recv("c3", u.app(m, q=0, c=c, b=["except"] * n))]
            alpha.append(recv("c1", u.app(m, q=q, c=c, t="A")))
            alpha.append(recv("c1", u.app(m, q=q, c=c, t="B"), u.app(m, q=12, c=c, b=["all"] * n)))
        for r in fl.requests:      # replies and broadcasts are no requests
            for x in (r["actions"][0]["resp"], r["err"]):
                alpha.append(recv("c1", tok("app", x, 5)))
        m, c, n = requests(fl)[0]
        alpha += [[recv("c1", u.app(m, q=3, c=c, b=["all"] * n)), recv("c2", u.app(m, q=3, c=c, b=["except"] * n))],
                  recv("c1", u.app(m, q=3, c=c), u.app(m, q=3, o="err"), u.app(m, q=4, c=c, b=["all"] * n)), fault("c1"), fault("c2"), fault()]
        for x in [e["ref"] for e in fl.events if e["ref"] not in ("connected", "disconnected")]:
            k = len([e for e in fl.events if e["ref"] == x][0]["bc"])
            for a in ADDR: alpha.append(event(x, b=[(a if a != "except" else ("except", ["c2"]))] * k, d=True))
            alpha.append(event(x, o="fail", b=["all"] * k))
        cases.append(case(fl, pre, alpha, 2, errs="Log"))
        # many consumers
        m, c, n = max(requests(fl), key=lambda x: x[2])
        al = [recv(w, u.app(m, q=2 + i, c=c, b=[a] + [wide(7)[(i + 4 * j) % 11] for j in range(1, n)], d=True)) for i, a in enumerate(wide(7)) for w in ("c1", "c6")]
        al += [fault("c2"), fault("c1", "c5"), fault("c7"), disconnect("c4")]
        cases.append(case(fl, [READY] + crowd(u, 7, (2, 6, 7)), al, 2, errs="Log"))
        cases.append(case(fl, pre, alpha, 1, ids="EmitErrorAndDisconnect"))
        cases.append(case(fl, pre, alpha, 1, errs="EmitErrorAndDisconnect"))
    cases += [slow(w1, "Top", "First", 3, th, errs="Log"), slow(w2, "Gx.Req", "B", 1, th, errs="EmitErrorAndDisconnect")]
    run(ck, [w1, w2], cases, 2500 if th else 250, 20000 if th else 6000, True)

def p03(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, rq, c0, n in ((w1, "Top", "First", 3), (w2, "Gx.Req", "B", 1)):
        u = U(fl)
        pre = [READY] + shake(u, "c1", "n1")
        ev = fl.events[0]["ref"]
        together = [[connect("c2"), recv("c1", u.app(rq, c=c0, b=["all"] * n))], [connect("c3"), connect("c2"), event(ev, b=["all", "all"][:len(fl.events[0]["bc"])])], [connect("c3"), recv("c1", u.app(rq, c=c0)), disconnect("c3")]]
        look = [event(ev, b=["all", ("keyed", ["n1"])][:len(fl.events[0]["bc"])]), recv("c1", u.app(rq, c=c0, b=["except", ("exclude", ["c1", "c3"]), "asgd"][:n]))]
        alpha = look + together + [connect("c2"), connect("c3"), disconnect("c2"), disconnect("c3"), disconnect("c1"), recv("c2", u.key("n1"), u.hash()), recv("c3", u.key("n2"), u.hash()),
                        u.ident("c2", "asg", ["r", "g"], True), u.ident("c3", "key", ["n1"], True), u.ident("c2", "key", ["n9"], True), u.ident("c1", "asg", ["-", "g2"], False),
                        recv("c2", u.hash("p")), event(ev, b=[("exclude", ["c1", "c2"]), ("except", ["c3"])][:len(fl.events[0]["bc"])])]
        kb = {"c1": ["all"] * 3}
        conf = cfg({"b": ["all", "all"]}, {"b": ["all", ("keyed", ["n1"])]})
        cases.append(case(fl, pre, alpha, 6 if th else 4, errs="Log", c=conf))
        # many consumers
        al = [event(ev, b=[a, wide(8, "c5")[(3 * i + 5) % 11]][:len(fl.events[0]["bc"])]) for i, a in enumerate(wide(8, "c7"))]
        al += [recv("c%d" % (1 + i % 8), u.app(rq, c=c0, b=[a, "except", wide(8)[-i]][:n])) for i, a in enumerate(wide(8))]
        al += [disconnect("c1"), disconnect("c5"), disconnect("c8"), connect("c9"), u.ident("c4", "key", ["n2"], True), u.ident("c8", "asg", ["r", "g"], True)]
        cases.append(case(fl, [READY] + crowd(u, 8, (1, 3, 6)), al, 2, errs="Log", c=conf))
        cases.append(case(fl, [READY], [connect("c1"), connect("c2"), connect("c3"), disconnect("c1"), disconnect("c2"), disconnect("c3")] + look[:1], 8 if th else 6, errs="Log", c=conf))
    cases += [slow(fl, rq, c0, n, th, [U(fl).ident("c2", "asg", ["r", "g"], True), disconnect("c2")], cfg({"b": ["all", "all"], "w": True}, {"b": ["all", "asgd"]}), errs="Log") for fl, rq, c0, n in ((w1, "Top", "First", 3), (w2, "Gx.Req", "B", 1))]
    run(ck, [w1, w2], cases, 2500 if th else 250, 12000 if th else 5500, True)

def p04(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, rq, c0, n in ((w1, "Top", "First", 3), (w2, "Gx.Req", "B", 1)):
        u = U(fl)
        alpha = [connect("c1"), connect("c2"), disconnect("c1"), disconnect("c2"), recv("c1", u.key(), u.hash()), recv("c2", u.key(), u.hash("w")),
                 recv("c1", u.app(rq, c=c0, b=["all"] * n)), event(fl.events[0]["ref"], b=["all", "all"]),
                 fault("c1"), fault(), srverr("ConnectionError", "c1"), recv("c1", u.app(rq, t="sig")), [connect("c1"), connect("c1")], [disconnect("c1"), disconnect("c1")], [connect("c3"), disconnect("c3")],
                 [connect("c3"), recv("c3", u.key(), u.hash()), disconnect("c3")], [connect("c%d" % i) for i in range(1, 7)], [disconnect("c%d" % i) for i in (2, 6, 4, 1)]]
        for errs, conf in (("EmitErrorAndDisconnect", cfg({"b": ["all"], "d": True}, {"b": ["all", "all"], "d": True})), ("Log", cfg({"o": "fail", "d": True}, {"o": "fail", "d": True})), ("Disconnect", cfg({"b": ["none"], "d": True}, {"b": ["none", "all"], "d": True}))):
            cases.append(case(fl, [READY], alpha, 5 if th else 4, errs=errs, c=conf))
        cases.append(case(fl, [READY], alpha, 5 if th else 4, errs="EmitError", ids="EmitError", c=cfg({"b": ["all"], "a": u.setasg(["r", "g"], True)}, {"b": ["except", "except"]})))
    cases += [slow(w1, "Top", "First", 3, th, [disconnect("c2"), [disconnect("c1"), connect("c5")]], cfg({"b": ["all", "all"]}, {"b": ["all", "all"], "w": True}), errs="Log"),
              slow(w2, "Gx.Req", "B", 1, th, [disconnect("c2"), [connect("c4"), disconnect("c4")]], cfg({"b": ["all", "all"], "w": True}, {"b": ["all", "all"], "w": True}), errs="Log")]
    run(ck, [w1, w2], cases, 2000 if th else 250, 12000 if th else 5500, True)

IDS = ["Ignore", "Log", "EmitError", "Disconnect", "EmitErrorAndDisconnect"]
ERRS = ["Log", "EmitError", "Disconnect", "EmitErrorAndDisconnect"]
def p05(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, rq, c0, n, extra in ((w1, "Top", "First", 3, "Gb.Beac"), (w2, "Gx.Req", "B", 1, "Req")):
        u = U(fl)
        alpha = []
        for b in ("sig", "id", "body"):
            alpha.append(recv("c1", u.app(rq, c=c0, t=b)))
            alpha.append(recv("c1", u.app(rq, c=c0), u.app(rq, c=c0, t=b), u.app(rq, c=c0)))
        alpha += [recv("c1", u.app(rq, c=c0)), recv("c1", u.app(extra), u.app(rq, o="err")), recv("c2", u.app(rq, c=c0)), recv("c2", u.app(rq, c=c0, q=0)), recv("c1", u.app(extra, q=0)), recv("c3", u.app(rq, c=c0)), recv("c3", u.app(rq, t="sig")),
                  u.ident("c1", "asg", ["r", "g"], True), fault("c1"), fault(), disconnect("c1"), recv("c1", u.app(rq, t="A", c=c0)), recv("c1", u.app(rq, t="B", c=c0), u.app(rq, t="id"), u.app(rq, t="sig")),
                  [recv("c1", u.app(rq, t="id")), recv("c1", u.app(rq, c=c0)), recv("c2", u.app(extra))]]
        for i, ids in enumerate(IDS):
            for j, errs in enumerate(ERRS):
                if fl is w2 and (i + j) % 2 and not th: continue
                pre = [READY] + shake(u, "c1", "n1", asg=(["r", "g"] if j % 2 else None)) + shake(u, "c2", "n2", asg=["r2"])
                cases.append(case(fl, pre, alpha, 3 if th else 2, ids=ids, errs=errs))
    run(ck, [w1, w2], cases, 3000 if th else 250, 30000 if th else 4500)

def p06(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, rq, c0, n, extra in ((w1, "Top", "First", 3, "Gb.Beac"), (w2, "Gx.Req", "B", 1, "Req")):
        u = U(fl)
        ks = [["n1"], ["n2", "x"], ["n3", "-", "m"], ["n2", ""], ["", "-", ""]] if u.nkey > 1 else [["n1"], ["n2"], [""]]
        gs = [["r1", "g1"], ["-", "g2"], ["", "g2"], ["r3", "-"]] if fl is w1 else [["r1", "g1"], ["r2", "-"], ["", ""]]
        gs = [g for g in gs if not (fl is w1 and g[1] == "-")]     # grade is mandatory in w1
        alpha = [recv("c1", u.app(rq, c=c0)), recv("c1", u.app(extra)), recv("c1", u.key("n7")), disconnect("c1"), connect("c1"), recv("c1", u.key("n8", "y"), u.hash()), srverr("Error", "c1")]
        alpha += [u.ident(x, "key", k, ow) for k in ks for ow in (True, False) for x in (("c1",) if ow else ("c1", "c2"))]
        alpha += [u.ident(x, "asg", g, ow) for g in gs for ow in (True, False) for x in (("c1", "c2") if ow else ("c1",))]
        alpha += [recv("c1", u.app(rq, c=c0, k=u.setkey(k, i % 2 == 0), a=u.setasg(gs[i % len(gs)], i % 2 == 1))) for i, k in enumerate(ks)]
        alpha += [recv("c1", u.app(rq, c=c0, k=u.setkey(["n5"], True)), u.app(rq, c=c0)), recv("c1", u.app(extra, a=u.setasg(gs[0], False), k=u.setkey(ks[1], False)))]
        alpha += [[u.ident("c1", "key", ["n6"], True), recv("c1", u.app(rq, c=c0)), u.ident("c1", "asg", gs[-1], True)], [u.ident("c1", "key", ks[0], True), disconnect("c1"), u.ident("c1", "key", ks[1], False)]]
        for conf in (CFG, cfg({"k": u.setkey(["h1", "hn"], True), "a": u.setasg(gs[0], True)}, {"k": u.setkey(["late"], True)}), cfg({"a": u.setasg(gs[1], False)}, {})):
            cases.append(case(fl, [READY, connect("c2")] + shake(u, "c1", "n1"), alpha, 4 if th else 3, errs="Log", c=conf))
    # keys assigned before the consumer has shown its own, and while it shows it
    for fl, rq, c0, gs in ((w1, "Top", "First", [["r1", "g1"], ["-", "g2"], ["r3", "g3"]]), (w2, "Gx.Req", "B", [["r1", "g1"], ["r2", "-"], ["-", "-"]])):
        u = U(fl)
        alpha = [u.ident("c1", "asg", g, ow) for g in gs for ow in (True, False)] + [u.ident("c1", "key", ["k"], ow) for ow in (True, False)]
        alpha += [recv("c1", u.key("n1")), recv("c1", u.hash()), recv("c1", u.key("n2", "x"), u.hash()), recv("c1", u.app(rq, c=c0)), srverr("Error", "c1")]
        for conf in (CFG, cfg({"a": u.setasg(gs[0], True)}, {})): cases.append(case(fl, [READY, connect("c1")], alpha, 6 if th else 5, errs="Log", c=conf))
    cases += [slow(fl, rq, c0, n, th, [U(fl).ident("c1", "key", ["n9"], True), U(fl).ident("c2", "asg", ["r", "g"], True), recv("c1", U(fl).app(rq, c=c0, w=True, k=U(fl).setkey(["n8"], True)), U(fl).app(rq, c=c0))], errs="Log") for fl, rq, c0, n in ((w1, "Top", "First", 3), (w2, "Gx.Req", "B", 1))]
    run(ck, [w1, w2], cases, 2500 if th else 250, 20000 if th else 6500)

def p07(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, rq, c0, n in ((w1, "Top", "First", 3), (w2, "Gx.Req", "B", 1)):
        u = U(fl)
        ev = [e for e in fl.events if e["ref"] not in ("connected", "disconnected")]
        alpha = [shutdown(True), shutdown(False), listen("ok"), listen("err"), SRVDOWN, connect("c2"), disconnect("c1"), recv("c1", u.app(rq, c=c0, b=["all"] * n)),
                 [shutdown(True), shutdown(True)], [shutdown(False), recv("c1", u.app(rq, c=c0)), event(ev[0]["ref"], b=["all", "all"])], [recv("c1", u.app(rq, c=c0)), shutdown(True), disconnect("c1")],
                 [SRVDOWN, shutdown(True)], [listen("err"), shutdown(True), connect("c3")], [listen("ok"), SRVDOWN]]
        alpha += [srverr(k, x) for k, x in (("Error", "c1"), ("Error", "c9"), ("ConnectionError", "c1"), ("ConnectionError", "c9"), ("ServerError", ""))]
        for e in ev:
            alpha += [event(e["ref"], b=[("list", ["c1"])] * len(e["bc"])), event(e["ref"], o="fail", d=True), event(e["ref"], b=["none"] * len(e["bc"]), d=True), event(e["ref"], b=["all"] * len(e["bc"]), d=True)]
        alpha.append([event(e["ref"], b=["all"] * len(e["bc"])) for e in ev])
        cases.append(case(fl, [READY] + shake(u, "c1", "n1"), alpha, 4 if th else 3))
        cases.append(case(fl, [connect("c1")], alpha + [READY], 3 if th else 2))
        big = [event(e["ref"], b=(wide(7, "c3")[i:] + ["all"] * 5)[:len(e["bc"])], d=True) for e in ev for i in (0, 2, 4, 5, 7)]
        cases.append(case(fl, [READY] + crowd(u, 7, (5, 6)), big + [[big[0], big[-1]], shutdown(True), fault("c3")], 2))
        cases.append(case(fl, [], alpha + [READY], 3 if th else 2))
    cases += [slow(w1, "Top", "First", 3, th, [shutdown(True), shutdown(False), listen("err"), SRVDOWN, [shutdown(True), event([e["ref"] for e in w1.events if e["ref"] not in ("connected", "disconnected")][0], b=["all", "all"])]], errs="Log"),
              slow(w2, "Gx.Req", "B", 1, th, [shutdown(True), [shutdown(True), shutdown(True)], listen("ok"), disconnect("c2")], cfg({"b": ["all"]}, {"b": ["all", "all"], "w": True}), errs="Log")]
    run(ck, [w1, w2], cases, 2500 if th else 300, 20000 if th else 6500)

def p08(ck):
    th = ck.tier == "thorough"
    w1 = flow.w1()
    u = U(w1)
    alpha = []
    for i, b in enumerate(w1.beacons):
        q = [1, 9, 4000000000][i]
        for x in ("c1", "c2"):
            alpha += [recv(x, u.app(b, q=q)), recv(x, u.app(b, q=q, d=True)), recv(x, u.app(b, q=q, o="fail", d=True)), recv(x, u.app(b, q=q, k=u.setkey(["n4"], False), x=("c2" if i == 1 else "")))]
        alpha += [recv("c1", u.app(b, q=0)), recv("c2", u.app(b, q=0, o="fail"), u.app(b, q=0, d=True)), recv("c1", u.app(b, q=q, t="A", d=True)), recv("c1", u.app(b, q=q, t="B", d=True), u.app(b, q=q + 1)), recv("c1", u.app(b, q=q, t="body")), recv("c1", u.app(b, q=q, o="fail"), u.app(b, q=q))]
    alpha += [recv("c1", u.app("Top", c="First", d=True, b=["all"] * 3)), recv("c1", u.app("Top", q=6, c="Third"), u.app("Beac", q=6, d=True), u.app("Ga.Sub.Req", q=8, d=True)),
              recv("c1", tok("app", SVC + "BeaconConfirmation", 3)) if False else recv("c1", tok("app", "Extra", 3)), fault("c1"), fault(), disconnect("c2"), recv("c3", u.app("Beac")), [connect("c3"), recv("c3", u.app("Beac"))],
              [recv("c1", u.app("Beac", q=5)), recv("c2", u.app("Gb.Beac", q=5, o="fail")), recv("c1", u.app("Gb.Sub.Beac", q=6, d=True))]]
    pre = [READY] + shake(u, "c1", "n1", asg=["r", "g"]) + shake(u, "c2", "n2")
    cases = [case(w1, pre, alpha, 3 if th else 2, ids=i, errs=e) for i, e in (("Ignore", "Log"), ("EmitErrorAndDisconnect", "EmitErrorAndDisconnect"), ("EmitError", "Disconnect"), ("Log", "EmitError"))]
    cases += [slow(w1, "Top", "First", 3, th, [recv("c1", u.app(b, q=20 + i, w=True, d=True), u.app(b, q=30 + i)) for i, b in enumerate(w1.beacons)] + [recv("c2", u.app("Beac", q=40, w=True, o="fail"), u.app("Beac", q=41))], errs="Log")]
    run(ck, [w1], cases, 2500 if th else 250, 20000 if th else 6000)

CHECKS = {"P01": p01, "P02": p02, "P03": p03, "P04": p04, "P05": p05, "P06": p06, "P07": p07, "P08": p08}
