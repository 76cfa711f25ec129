"""T01, T02: generated TypeScript producers and consumers (spec/TsProducer*.tla, TsConsumer*.tla)."""
import copy, hashlib, json, os, random
from vlib import core, flow, flowts, proc, tlc
from checks import p as P
from checks import c as C
from checks.p import U, tok, connect, disconnect, recv, event, fault, shake, cfg, number, strq, sig, SVC, ADDR, requests, IDS, ERRS

def gated(x):
    """Scripts say whether their handler waits."""
    if isinstance(x, dict):
        if "o" in x and "d" in x and "b" in x: x.setdefault("g", False)
        for v in x.values(): gated(v)
    elif isinstance(x, list):
        for v in x: gated(v)
    return x
def hold(u): return {"t": "hold", "u": u}
def release(u): return {"t": "release", "u": u}
def go(u, h): return {"t": "go", "u": u, "h": h}

def case(fl, prefix, alpha, depth, ids="Ignore", errs="EmitErrorAndDisconnect", c=None):
    return gated(P.case(fl, prefix, alpha, depth, ids, errs, copy.deepcopy(c) if c else copy.deepcopy(P.CFG)))

def canon(trace, bursts):
    stims = {x["n"]: x for b in bursts for x in b}
    out = []
    for r in trace:
        if r["op"] == "stim": out.append({"op": "stim", "x": stims[r["s"]]})
        elif r["op"] == "send":
            m, f = r["m"], r["f"]
            tag = f.get("tag", json.dumps(f) if f else "")
            if m.startswith(SVC):
                n = m[len(SVC):]
                tag = {"HashResponse": "err" if "error" in f else "ok", "BeaconConfirmation": "err" if "error" in f else "ok", "SelfKeyResponse": f.get("uuid", "")}.get(n, "")
            out.append({"op": "send", "u": r["u"], "m": m, "q": r["q"], "tag": tag})
        else: out.append(r)
    return out

def generate(ck, fls, cases, timeout=600):
    d = core.fresh(ck.prop, "gen")
    json.dump({f.name: f.json() for f in fls}, open(d + "/flows.json", "w"))
    json.dump(strq(cases), open(d + "/cases.json", "w"))
    c = "CONSTANTS\n FLOW <- FlowDef\n AnyOrder = FALSE\nSPECIFICATION Spec\nINVARIANTS Monitors JobsOk NothingStuck\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    t = tlc.run("TsProducerGen", c, d, env={"PG_FLOWS": d + "/flows.json", "PG_CASES": d + "/cases.json"}, timeout=timeout, **tlc.same(ck))
    ck.tlc(t)
    hs = {(r["c"] - 1, tuple(r["h"])) for r in t.records}
    pre = {(c, h[:-1]) for c, h in hs}
    return sorted(h for h in hs if h not in pre)

def judge(ck, fls, runs, timeout=700):
    d = core.fresh(ck.prop, "judge")
    json.dump({f.name: f.json() for f in fls}, open(d + "/flows.json", "w"))
    rec = [{"id": i, "flow": c["flow"], "ids": c["ids"], "errs": c["errs"], "cfg": c["cfg"], "obs": canon(t, b)} for i, c, b, t in runs]
    json.dump(strq(rec), open(d + "/traces.json", "w"))
    cf = "CONSTANTS\n FLOW <- FlowDef\n AnyOrder = TRUE\nSPECIFICATION Spec\nINVARIANT Emit\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    env = {"PT_FLOWS": d + "/flows.json", "PT_TRACES": d + "/traces.json", "PT_VERBOSE": "0"}
    t = tlc.run("TsProducerTrace", cf, d, env=env, timeout=timeout)
    ck.tlc(t)
    ok = {r["ok"] for r in t.records}
    bad = [r for r in rec if r["id"] not in ok]
    why = {}
    if bad:
        json.dump(strq(bad[:20]), open(d + "/bad.json", "w"))
        v = tlc.run("TsProducerTrace", cf, d, env=dict(env, PT_TRACES=d + "/bad.json", PT_VERBOSE="1"), timeout=timeout)
        for r in v.records:
            if "at" in r:
                w = why.setdefault(r["id"], {"at": 0, "next": None, "possible": []})
                if r["at"] > w["at"]: w.update(at=r["at"], next=r["next"], possible=[])
                if r["at"] == w["at"]: w["possible"] += [x for x in r["want"] if x not in w["possible"]][:6]
    return {r["id"]: why.get(r["id"], {}) for r in bad}

def drive(ck, binary, fls, scen):
    by = {f.name: f for f in fls}
    cmds, kept = [], []
    for i, (c, b) in enumerate(scen):
        b = number(b)
        kept.append((i, c, b))
        cmds.append(dict(P.driver(by[c["flow"]], i, c, b), what="producer"))
    out = []
    for (i, c, b), cmd, r in zip(kept, cmds, proc.drive(binary, cmds)):
        if "trace" not in r:
            if "skipped" in r: continue
            ck.violation("crash:" + sig(c, b), "the producer crashes or hangs", {"scenario": cmd, "result": r})
            continue
        if any(x["op"] == "panic" for x in r["trace"]):
            ck.violation("panic:" + sig(c, b), "the producer throws: %s" % [x["at"] for x in r["trace"] if x["op"] == "panic"][0], {"scenario": cmd, "result": r})
            continue
        out.append((i, c, b, r["trace"]))
    return out

def randoms(rng, cases, n, lo=6, hi=20):
    """Longer histories over the alphabets, in bursts that the transport hands over without a pause."""
    out = []
    while len(out) < n:
        k = rng.choice(cases)
        b, half, burst, used, held = list(k["prefix"]), {}, [], set(), set()
        used |= {y["u"] for x in k["prefix"] for y in x if y["t"] == "connect"}
        for _ in range(rng.randint(lo, hi)):
            x = rng.choice(k["alpha"])
            cs = {y["u"] for y in x if y["t"] == "connect"}
            if cs & used: continue                     # uuids are not used again
            if any(y["t"] == "ident" and y["u"] not in used for y in x): continue
            if any(y["t"] == "hold" and y["u"] in held or y["t"] == "release" and y["u"] not in held for y in x): continue
            if not P.fits(half, x): continue
            for y in x:
                if y["t"] == "hold": held.add(y["u"])
                if y["t"] == "release": held.discard(y["u"])
            used |= cs
            burst = burst + x
            if rng.random() < 0.5 or len(burst) > 4: b.append(burst); burst = []
        if burst: b.append(burst)
        out.append((k, b))
    return out

def t01_cases(th):
    t1, t2 = flowts.t1(), flowts.t2()
    cases = []
    for fl, rq, c0, n, beac in ((t1, "Top", "First", 3, "Gb.Beac"), (t2, "Gx.Req", "B", 1, "Req")):
        u = U(fl)
        nb = ["all"] * n
        top = lambda **k: u.app(rq, c=c0, **dict({"b": nb}, **k))
        # the handshake and what is refused before it is over
        one = [disconnect("c1"), recv("c1", u.key("n1")), recv("c1", u.hash()), recv("c1", u.hash("p")), recv("c1", u.hash("w")), recv("c1", top()), recv("c1", u.app(beac, q=0)),
               recv("c1", u.key("n2"), u.hash()), recv("c1", u.hash(), u.key("n3"), top()), recv("c1", u.key("n4"), top(), u.hash(), top()),
               recv("c1", u.hash("both"), u.key(), u.hash(), top(), u.app(beac)), recv("c1", u.key(t="A")), recv("c1", u.key(t="B"), u.hash()), recv("c1", tok("app", SVC + "SelfKeyResponse", 3)),
               u.ident("c1", "key", ["own"], True), recv("c1", u.key("n5"), u.hash("w"), u.hash(), top())]
        for errs in ("Disconnect", "EmitError"):
            cases.append(case(fl, [connect("c1"), connect("c2")], one, 4 if th else 3, errs=errs))
        # every answer, its broadcasts, however handlers and transport delay them
        pre = [[connect("c1"), recv("c1", u.key("n1"), u.hash())], [connect("c2"), recv("c2", u.key("n2"), u.hash())], connect("c3"), recv("c3", u.key("n1"), u.hash()), u.ident("c1", "asg", ["r", "g"], True)]
        alpha = []
        for i, (m, c, k) in enumerate(requests(fl)):
            q = [1, 0, 11, 4294967295][i % 4]
            for a in (ADDR + [("list", ["c2", "c2"]), "miss"] if k else ["all"]):
                alpha.append(recv("c1", u.app(m, q=q, c=c, b=[a] * k, d=True)))
            if k > 1:
                alpha.append(recv("c2", u.app(m, q=q, c=c, b=["all", "none", "except"][:k], d=True)))
                alpha += [recv("c2", u.app(m, q=q, c=c, b=["miss" if i == j else "except" for i in range(k)], d=True)) for j in range(k)]
                alpha.append(recv("c2", u.app(m, q=q, c=c, b=["none"] + [("list", ["c1", "c3"])] * (k - 1), d=True)))
            alpha += [recv("c3", u.app(m, q=q, o="err", d=True)), recv("c2", u.app(m, q=q, c=c, o="fail", b=["all"] * k, d=True)), recv("c2", u.app(m, q=q, c=c, o="throw", b=["all"] * k))]
        for b in fl.beacons:
            alpha += [recv("c1", u.app(b, q=0)), recv("c1", u.app(b, q=9, d=True)), recv("c2", u.app(b, q=9, o="fail", d=True)), recv("c2", u.app(b, q=3, a=u.setasg(["r2", "g2"], True), d=True))]
        for r in fl.requests: alpha.append(recv("c1", tok("app", r["actions"][0]["resp"], 5), u.app(rq, q=6, o="err")))
        for e in [e for e in fl.events if e["ref"] not in ("connected", "disconnected")]:
            for a in ADDR + ["miss"]: alpha.append(event(e["ref"], b=[(a if a != "except" else ("except", ["c2"]))] * len(e["bc"])))
            if len(e["bc"]) > 1:
                for j in range(len(e["bc"])): alpha.append(event(e["ref"], b=["miss" if i == j else "all" for i in range(len(e["bc"]))]))
            alpha.append(event(e["ref"], o="fail", b=["all"] * len(e["bc"])))
        alpha += [fault("c1"), fault("c2", "c3"), disconnect("c1"), recv("c1", top(q=3), u.app(rq, q=3, o="err"), top(q=4, d=True)), [recv("c1", top(q=3, b=["except"] * n)), recv("c2", top(q=3))]]
        cases.append(case(fl, pre, alpha, 2 if th else 1, errs="Log"))
        cases.append(case(fl, pre, alpha, 1, errs="EmitErrorAndDisconnect"))
        cases.append(case(fl, pre, alpha, 1, errs="EmitError", ids="Log"))
        # jobs side by side
        ev = fl.events[0]
        nbc = len(ev["bc"])
        slow = [recv("c1", top(q=11, d=True, g=True)), recv("c2", top(q=12, d=True, b=["except"] * n, g=True)), recv("c1", u.app(rq, q=13, o="err", g=True, d=True)), go("c1", rq), go("c2", rq),
                hold("c1"), release("c1"), hold("c3"), release("c3"), recv("c2", top(q=14, d=True, b=[("list", ["c1", "c3"])] * n)), disconnect("c1"), event(ev["ref"], b=["all"] * nbc, g=True), go("", ev["ref"]),
                recv("c1", u.app(beac, q=15, d=True, g=True, **({} if fl is t1 else {"c": ""}))), go("c1", beac), recv("c1", u.hash("w")), recv("c1", top(t="sig"), top(q=16)), fault("c1"), fault()]
        cases.append(case(fl, pre, slow, 4 if th else 3, errs="Disconnect"))
        cases.append(case(fl, pre, slow, 4 if th else 2, errs="EmitError", ids="EmitError"))
        # who is treated how
        for i, ids in enumerate(IDS):
            for j, errs in enumerate(ERRS):
                if (i + j) % 2 and not th: continue
                al = [recv("c1", top()), recv("c2", top(q=8), u.app(beac), top()), recv("c1", top(), top(t="sig"), top(q=5)), recv("c3", top(t="id"), top()), recv("c1", top(t="body")), recv("c2", top(k=u.setkey(["n7"], False), a=u.setasg(["r3", "g3"], True)), top(q=9)),
                      u.ident("c2", "asg", ["r", "g"], False), recv("c1", tok("app", fl.requests[0]["err"], 4), top(q=6)), recv("c9", top()), recv("c1", u.app(rq, c=c0, x="c1", b=nb), top()), recv("c3", top(x="c1"))]
                cases.append(case(fl, pre, al, 3 if th else 2, ids=ids, errs=errs))
        # who is there
        conf = cfg({"b": ["all", "all"], "k": u.setkey(["h1"], True)}, {"b": ["all", ("keyed", ["n1"])]})
        al = [connect("c1"), connect("c2"), connect("c3"), disconnect("c1"), disconnect("c2"), recv("c1", u.key("n1"), u.hash(), top()), recv("c2", u.key("n1"), u.hash()), event(ev["ref"], b=["all"] * nbc),
              event(ev["ref"], b=[("exclude", ["c1", "c2"])] * nbc), [connect("c4"), disconnect("c4")], fault("c1"), u.ident("c1", "asg", ["r", "g"], True), u.ident("c1", "asg", ["", "g"], False), u.ident("c2", "key", ["n1", "note"], False), u.ident("c2", "key", ["n1", ""], False), recv("c1", u.hash("w"))]
        cases.append(case(fl, [], al, 5 if th else 4, errs="Log", c=conf))
        cases.append(case(fl, [], al, 4 if th else 3, errs="EmitError", c=cfg({"o": "fail", "b": nb}, {"o": "throw" if False else "fail", "b": nb})))
    return [t1, t2], cases

def plongs(fl, th):
    """Long histories of a producer: hundreds of requests, many consumers that come and go, long chunks."""
    rng = random.Random(11)
    u = U(fl)
    rqs = requests(fl)
    evs = [e for e in fl.events if e["ref"] not in ("connected", "disconnected")]
    def ask(i):
        if fl.beacons and rng.random() < 0.2: return u.app(rng.choice(fl.beacons), q=i % 4000 + 1, d=i % 5 == 0)
        m, c, n = rng.choice(rqs)
        if rng.random() < 0.15: return u.app(m, q=i % 4000 + 1, o="err", c=c, b=["all"] * n)
        return u.app(m, q=i % 4000 + 1, c=c, b=[rng.choice(["all", "except", ("exclude", ["c2"]), ("keyed", ["n1"]), "none"]) for _ in range(n)], d=i % 7 == 0)
    def hello(i): return [[connect("c%d" % i)], [recv("c%d" % i, u.key("n%d" % (i % 3)), u.hash())]]
    out = []
    b = [x for i in (1, 2, 3) for x in hello(i)]                         # hundreds of requests
    for i in range(900 if th else 280): b.append([recv("c%d" % (1 + i % 3), ask(i))])
    out.append((case(fl, [], [], 0, errs="Log"), b))
    b, live = [], []                                                     # consumers come and go
    for i in range(1, 120 if th else 45):
        b += hello(i); live.append(i)
        if len(live) > 9: b.append([disconnect("c%d" % live.pop(rng.randrange(len(live))))])
        b.append([recv("c%d" % rng.choice(live), ask(i))])
        if evs and i % 6 == 0: b.append([event(evs[0]["ref"], b=["all"] * len(evs[0]["bc"]))])
    out.append((case(fl, [], [], 0, errs="EmitError"), b))
    b = hello(1) + hello(2)                                              # several in one chunk
    for n in (2, 3, 4): b.append([recv("c1", *[ask(i) for i in range(n)])]); b.append([recv("c2", *[ask(i) for i in range(n)])])
    for n in (30, 140, 300) if not th else (30, 300, 1200):              # very many, most of which nobody handles
        b.append([recv("c1", *([ask(n)] + [P.tok("app", "Ev", 3, s=P.sc())] * n + [ask(n + 1)]))])
    out.append((case(fl, [], [], 0, errs="EmitErrorAndDisconnect"), b))
    return [(c, gated(b)) for c, b in out]

def t01(ck):
    th = ck.tier == "thorough"
    fls, cases = t01_cases(th)
    work = core.fresh(ck.prop, "run")
    binary = flowts.build_producers(fls, work, log=ck.log)
    ck.log("producers bundled")
    hs = generate(ck, fls, cases)
    ck.log("%d histories" % len(hs))
    rng = random.Random(core.SEED * 7919 + 101)
    cap = 12000 if th else 3500
    if len(hs) > cap: ck.exhaustive = False
    scen = list(P.histories(cases, core.choose(rng, hs, cap))) + [x for fl in fls for x in plongs(fl, th)]
    scen += randoms(rng, cases, 2500 if th else 300)
    runs = drive(ck, binary, fls, scen)
    ck.log("%d runs recorded" % len(runs))
    bad = judge(ck, fls, runs)
    by = {i: (c, b, t) for i, c, b, t in runs}
    for i, why in sorted(bad.items(), key=lambda x: len(by[x[0]][1]))[:40]:
        c, b, t = by[i]
        ck.violation(sig(c, b), "a run no behaviour of the specification explains: %s" % json.dumps(why.get("next"))[:200],
                     {"flow": c["flow"], "ids": c["ids"], "errs": c["errs"], "cfg": c["cfg"], "scenario": b, "stuck": why, "recorded": t})
    ck.validated += len(runs) - len(bad)
    for i, c, b, t in runs[:: max(1, len(runs) // 5)]:
        ck.sample({"flow": c["flow"], "ids": c["ids"], "errs": c["errs"], "scenario": b})

# ------------------------------------------------------------------ consumers ----
KEYS = {"w1": ["n1", "-", "m1"], "w2": ["n1"]}
def ctok(m, ref="0", t="M", err=False): return {"t": t, "m": m, "ref": ref, "tag": "t", "err": err}
def msg(*toks): return {"t": "msg", "c": list(toks)}
def call(m, tag, again=False): return {"t": "call", "id": tag + ("+" if again else ""), "m": m, "tag": tag, "again": again}
def drop(of): return {"t": "drop", "of": of}
UP, DOWN, CERR, DESTROY = {"t": "connect"}, {"t": "disconnect"}, {"t": "error"}, {"t": "destroy"}
def on(k, m=None): return {"t": "on", "k": k, "a": "call", "m": m, "tag": "z" + k, "id": "z" + k, "again": False} if m else {"t": "on", "k": k, "a": "destroy"}
def cfault(on): return {"t": "fault", "on": on}
CONFIRM, KEYOK, HASHOK, HASHBAD = ctok(SVC + "ConnectConfirmationBeacon"), ctok(SVC + "SelfKeyResponse", "key"), ctok(SVC + "HashResponse", "hash"), ctok(SVC + "HashResponse", "hash", err=True)
SHAKE = [msg(CONFIRM), msg(KEYOK), msg(HASHOK)]
def conf(ref, **k): return ctok(SVC + "BeaconConfirmation", ref, **k)
def halves(t): return dict(t, t="A"), dict(t, t="B")

fjson = flowts.consumer_json

def ccase(fl, prefix, alpha, depth):
    one = lambda l: [x if isinstance(x, list) else [x] for x in l]
    return {"flow": fl.name, "prefix": one(prefix), "alpha": one(alpha), "depth": depth}

def cnumber(bursts):
    """Positions, and unique names for calls, request objects and messages."""
    out, nt, last, cnt, tag, calls = [], 0, {}, {}, None, 0
    for i, b in enumerate(bursts):
        nb = []
        for j, x in enumerate(b):
            x = copy.deepcopy(x)
            x["n"] = (i + 1) * 10 + j
            if x["t"] == "call" or x.get("a") == "call":
                if not x["again"] or x["tag"] not in last:
                    cnt[x["tag"]] = cnt.get(x["tag"], 0) + 1
                    last[x["tag"]] = (x["tag"] + str(cnt[x["tag"]]), x["m"])
                x["tag"], x["m"] = last[x["tag"]]
                calls += 1
                x["id"] = "r%d" % calls
            if x["t"] == "drop": x["of"] = last.get(x["of"], ("nobody",))[0]
            for m in x.get("c", []):
                if m["t"] == "B" and tag: m["tag"] = tag
                else:
                    nt += 1; m["tag"] = "b%d" % nt
                if m["t"] == "A": tag = m["tag"]
                if m["ref"].startswith("call:"): m["ref"] = "call:" + last.get(m["ref"][5:], ("nobody",))[0]
            nb.append(x)
        out.append(nb)
    return out

def cdriver(c, bursts):
    def token(m):
        n = m["m"][len(SVC):] if m["m"].startswith(SVC) else ""
        f = {"SelfKeyResponse": {"uuid": m["tag"]}, "ConnectConfirmationBeacon": {}}.get(n, {"error": C.refusal(m["tag"])} if m["err"] else {}) if n else {"tag": m["tag"]}
        return {"t": m["t"], "m": m["m"], "ref": m["ref"], "f": f}
    def stim(x): return dict(x, c=[token(m) for m in x["c"]]) if "c" in x else x
    return {"what": "consumer", "flow": c["flow"], "key": KEYS[c["flow"]], "steps": [[stim(x) for x in b] for b in bursts]}

def ccanon(trace, bursts, fl, prints):
    stims = {x["n"]: x for b in bursts for x in b}
    keyf = {n: v for (n, o), v in zip(fl.msgs[fl.selfkey], KEYS[fl.name]) if v != "-"}
    segs, cur = [], {"stims": [], "out": {}}
    def put(k, o): cur["out"].setdefault(k, []).append(o)
    for r in trace:
        op = r["op"]
        if op == "settled": segs.append(cur); cur = {"stims": [], "out": {}}
        elif op == "stim":
            x = {k: v for k, v in stims[r["s"]].items() if k != "n"}
            if x["t"] == "msg": x["c"] = [dict(m, ref=ref) for m, ref in zip(x["c"], r["refs"])]
            cur["stims"].append(x)
        elif op == "ev": put("ev", {"op": "ev", "k": r["k"], "x": r["x"], "m": "", "tag": ""})
        elif op == "bcast": put("ev", {"op": "bcast", "k": "", "x": "", "m": r["m"], "tag": r["tag"]})
        elif op == "send":
            who, m, x = r["who"], r["m"], ""
            if who == "key": m, x = "key", "own" if r["f"] == keyf else json.dumps(r["f"])
            elif who == "hash": x = "own" if r["f"] == prints else json.dumps(r["f"])
            if r["q"] != "own": who += " with a number in use"
            put("send", {"op": "send", "m": m, "who": who, "x": x})
        elif op == "res":
            x = stims[r["n"]]
            put("res" + x["id"], {"op": "res", "id": x["id"], "k": r["k"], "m": r["m"], "tag": r["tag"]})
        elif op == "mass": put("life", {"op": "mass", "id": stims[r["n"]]["id"], "ok": r["ok"]})
        else: put("life", {"op": op})
    return segs

def cgenerate(ck, fls, cases, timeout=500):
    d = core.fresh(ck.prop, "gen")
    json.dump({f.name: fjson(f) for f in fls}, open(d + "/flows.json", "w"))
    json.dump(cases, open(d + "/cases.json", "w"))
    c = "CONSTANTS\n FLOW <- FlowDef\n AnyOrder = FALSE\nSPECIFICATION Spec\nINVARIANTS Monitors NothingStuck OneEach\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    t = tlc.run("TsConsumerGen", c, d, env={"CG_FLOWS": d + "/flows.json", "CG_CASES": d + "/cases.json"}, timeout=timeout, **tlc.same(ck))
    ck.tlc(t)
    for r in t.records:
        if "stuck" in r: raise core.CheckError("the prefix of case %d makes no sense at %d" % (r["stuck"] - 1, r["at"]))
    hs = {(r["c"] - 1, tuple(r["h"])) for r in t.records}
    pre = {(c, h[:-1]) for c, h in hs}
    return sorted(h for h in hs if h not in pre)

def cjudge(ck, fls, runs, prints, timeout=700):
    d = core.fresh(ck.prop, "judge")
    by = {f.name: f for f in fls}
    json.dump({f.name: fjson(f) for f in fls}, open(d + "/flows.json", "w"))
    rec = [{"id": i, "flow": c["flow"], "segs": ccanon(t, b, by[c["flow"]], prints[c["flow"]])} for i, c, b, t in runs]
    json.dump(rec, open(d + "/traces.json", "w"))
    cf = "CONSTANTS\n FLOW <- FlowDef\n AnyOrder = TRUE\nSPECIFICATION Spec\nINVARIANT Emit\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    env = {"CT_FLOWS": d + "/flows.json", "CT_TRACES": d + "/traces.json", "CT_VERBOSE": "0"}
    t = tlc.run("TsConsumerTrace", cf, d, env=env, timeout=timeout)
    ck.tlc(t)
    ok = {r["ok"] for r in t.records}
    bad = [r for r in rec if r["id"] not in ok]
    why = {}
    if bad:
        json.dump(bad[:20], open(d + "/bad.json", "w"))
        v = tlc.run("TsConsumerTrace", cf, d, env=dict(env, CT_TRACES=d + "/bad.json", CT_VERBOSE="1"), timeout=timeout)
        for r in v.records:
            if "at" in r:
                w = why.setdefault(r["id"], {"at": [0, 0, 0], "next": None, "possible": []})
                at = [r["at"], r["done"], r["stim"]]
                if at > w["at"]: w.update(at=at, next=r["next"], possible=[])
                if at == w["at"]: w["possible"] += [x for x in r["want"] if x not in w["possible"]][:6]
    return {r["id"]: why.get(r["id"], {}) for r in bad}

def csig(c, b): return hashlib.sha1(json.dumps([c["flow"], b], sort_keys=True).encode()).hexdigest()[:12]

def cdrive(ck, binary, scen):
    kept = [(i, c, cnumber(b)) for i, (c, b) in enumerate(scen)]
    slow = {i for i, _, b in kept if any(x["t"] == "mass" for y in b for x in y)}
    out, todo = [], []
    for ks, wait in (([k for k in kept if k[0] not in slow], 10), ([k for k in kept if k[0] in slow], 300)):
        cmds = [cdriver(c, b) for _, c, b in ks]
        todo += zip(ks, cmds, proc.drive(binary, cmds, line_timeout=wait))
    for (i, c, b), cmd, r in todo:
        if "trace" not in r:
            if "skipped" in r: continue
            ck.violation("crash:" + csig(c, b), "the consumer crashes or hangs", {"scenario": cmd, "result": r})
        elif any(x["op"] == "panic" for x in r["trace"]):
            ck.violation("panic:" + csig(c, b), "the consumer throws: %s" % [x["at"] for x in r["trace"] if x["op"] == "panic"][0], {"scenario": cmd, "result": r})
        else: out.append((i, c, b, r["trace"]))
    return out

def crandoms(rng, cases, n, lo=6, hi=24):
    """Longer histories over the alphabets: connections come and go, calls are made at any time."""
    out = []
    while len(out) < n:
        k = rng.choice(cases)
        b, burst, up, confirmed, half = list(k["prefix"]), [], False, False, None
        for x in [y for z in k["prefix"] for y in z]:
            if x["t"] == "connect": up, confirmed = True, False
            if x["t"] == "disconnect": up = False
            if x["t"] == "msg" and any(m["m"] == CONFIRM["m"] for m in x["c"]): confirmed = True
        for _ in range(rng.randint(lo, hi)):
            x = rng.choice(k["alpha"])
            ok, u, cf, h = True, up, confirmed, half
            for y in x:
                if y["t"] in ("connect",):
                    ok &= not u; u, cf = True, False
                elif y["t"] in ("disconnect", "error"):
                    ok &= u
                    if y["t"] == "disconnect": u, h = False, None
                elif y["t"] == "msg":
                    ok &= u and (y["c"][0]["t"] == "B") == (h is not None) and (h is None or y["c"][0]["m"] == h)
                    for m in y["c"]:
                        if m["m"] == CONFIRM["m"]: ok &= not cf; cf = True
                    h = y["c"][-1]["m"] if y["c"][-1]["t"] == "A" else None
                elif y["t"] == "destroy" and rng.random() < 0.7: ok = False
            if not ok: continue
            up, confirmed, half = u, cf, h
            burst = burst + x
            if rng.random() < 0.5 or len(burst) > 5: b.append(burst); burst = []
            if any(y["t"] == "destroy" for y in x): break
        if burst: b.append(burst)
        if b: out.append((k, b))
    return out

def t02_cases(th):
    t1, t2 = flowts.t1(), flowts.t2()
    cases = []
    for fl, rq, an, bc in ((t1, "Top", "TopA", "Ba"), (t2, "Req", "Res", "Bx.B")):
        a1, b1 = halves(KEYOK)
        # the handshake
        alpha = [UP, DOWN, CERR, msg(CONFIRM), msg(KEYOK), msg(HASHOK), msg(HASHBAD), msg(ctok(bc)), msg(ctok(bc, "key")), msg(ctok(bc, "hash")), msg(ctok(SVC + "HashResponse", "key")), msg(ctok(SVC + "SelfKeyResponse", "hash")),
                 msg(ctok(SVC + "SelfKeyResponse")), msg(ctok(SVC + "HashResponse")), msg(ctok(SVC + "SelfKeyResponse", "none")), msg(CONFIRM, ctok(bc)), msg(ctok(bc), CONFIRM), msg(KEYOK, ctok(bc), KEYOK), msg(HASHOK, HASHOK, ctok(bc)),
                 msg(a1), msg(b1, ctok(bc)), msg(ctok(bc, t="sig")), msg(KEYOK, ctok(bc, t="body"), ctok(bc)), [DOWN, UP], cfault(True), cfault(False), call(rq, "a"), DESTROY]
        cases.append(ccase(fl, [], alpha, 5 if th else 4))
        cases.append(ccase(fl, [UP, msg(CONFIRM)], [UP, DOWN, msg(KEYOK), msg(HASHOK), msg(HASHBAD), msg(ctok(bc)), cfault(True), cfault(False), [DOWN, UP, msg(CONFIRM)], [call(rq, "a"), msg(KEYOK)], msg(ctok(an, "call:a"))], 7 if th else 5))
        # answers of every type to every request and beacon
        ls = fjson(fl)["list"]
        names = sorted(set(a["m"] for r in ls.values() for a in r))
        for q in list(ls) + fl.beacons:
            al = [call(q, "a"), call(q, "b"), call(q, "a", True), drop("a")]
            for m in names + [SVC + "BeaconConfirmation", SVC + "HashResponse", bc]: al.append(msg(ctok(m, "call:a")))
            own = ls[q][0]["m"] if q in ls else SVC + "BeaconConfirmation"
            al += [msg(conf("call:a", err=True)), msg(ctok(own, "call:b"), ctok(own, "call:a")), DOWN]
            cases.append(ccase(fl, [UP] + SHAKE, al, 3 if th else 2))
            cases.append(ccase(fl, [UP] + SHAKE, [call(q, "a"), call(q, "a", True), drop("a"), msg(ctok(own, "call:a")), cfault(True), cfault(False), DOWN, UP, [call(q, "a", True), DOWN], [msg(ctok(own, "call:a")), call(q, "a", True)], [call(q, "a"), drop("a")]], 6 if th else 4))
        # several in flight
        rqs = ["Top", "Ga.Req", "Beac"] if fl is t1 else ["Gx.Req", "Req"]
        ans = {q: (ls[q][0]["m"] if q in ls else SVC + "BeaconConfirmation") for q in rqs}
        al = [call(q, "abc"[i]) for i, q in enumerate(rqs)] + [msg(ctok(ans[q], "call:" + "abc"[i])) for i, q in enumerate(rqs)]
        al += [drop("a"), call(rqs[1], "b", True), msg(ctok(ans[rqs[0]], "call:a"), ctok(ans[rqs[1]], "call:b"), ctok(ans[rqs[0]], "call:a")), msg(ctok(ans[rqs[1]], "call:a")), msg(ctok(bc)), msg(ctok(ans[rqs[0]])), msg(ctok(ans[rqs[0]], "none")),
               [call(rqs[0], "a"), call(rqs[1], "b")], [call(q, "abc"[i]) for i, q in enumerate(rqs)][::-1], [call(rqs[0], "a"), drop("a")], cfault(True), DOWN, UP, msg(halves(ctok(ans[rqs[0]], "call:a"))[0]), msg(halves(ctok(ans[rqs[0]], "call:a"))[1]),
               [call(rqs[0], "a"), DOWN], [msg(ctok(ans[rqs[0]], "call:a")), DOWN], DESTROY, msg(ctok(bc), ctok(ans[rqs[0]], "call:a"), ctok(bc)), CERR]
        cases.append(ccase(fl, [UP] + SHAKE, al, 5 if th else 3))
        cases.append(ccase(fl, [UP], al + SHAKE, 4 if th else 3))
        cases.append(ccase(fl, [UP] + SHAKE + [call(rqs[0], "a"), DOWN, UP] + SHAKE, al, 4 if th else 2))
        # broadcasts
        bs = fl.broadcasts()
        x0, x1 = bs[0], bs[-1]
        a, b = halves(ctok(x0))
        al = [msg(ctok(x)) for x in bs] + [msg(*[ctok(x) for x in bs]), msg(ctok(x0), ctok(x0), ctok(x1)), msg(ctok(x1), ctok(x0), a), msg(b), msg(b, ctok(x1)), msg(a),
              msg(ctok(x0), ctok(x1, t="sig"), ctok(x0)), msg(ctok(x0, t="id"), ctok(x1)), msg(ctok(x1, t="body")), msg(ctok(x0, "none")), msg(ctok(x1, "call:a")), msg(ctok("Ev")), msg(ctok("Ev"), ctok(x0)), msg(conf("0"), ctok(x1)),
              call(rq, "a"), msg(ctok(an, "call:a"), ctok(x0)), [msg(ctok(x0)), msg(ctok(x1)), DOWN, UP], CERR, DOWN, UP]
        cases.append(ccase(fl, [UP], al, 4 if th else 3))
        cases.append(ccase(fl, [UP] + SHAKE, al, 4 if th else 3))
        # subscribers which call, or destroy the consumer, before they return
        acts = [on("ready", rq), on("bcast", rq), on("connected", rq), on("disconnected", rq), on("error", rq), on("bcast"), on("ready"), on("connected"), on("disconnected")]
        zs = [msg(ctok(an, "call:zready")), msg(ctok(an, "call:zbcast")), msg(ctok(bc), ctok(an, "call:zbcast"), ctok(bc)), msg(ctok(an, "call:zconnected"), CONFIRM)]
        cases.append(ccase(fl, [], acts + [UP, DOWN, CERR] + SHAKE + zs[:2] + zs[3:], 6 if th else 5))
        cases.append(ccase(fl, [UP] + SHAKE[:2], acts + zs + [msg(HASHOK), msg(HASHOK, ctok(bc)), msg(ctok(bc), ctok(bc)), DOWN, UP, CERR, DESTROY, [msg(ctok(bc)), DOWN], cfault(True), call(rq, "a"), msg(ctok(an, "call:a"), ctok(bc))], 4 if th else 3))
        cases.append(ccase(fl, [UP] + SHAKE, [on("bcast", rq), on("bcast"), on("disconnected", rq), on("disconnected"), on("error", rq)] + zs[1:3] + [msg(ctok(bc), ctok(bc)), msg(ctok(bc)), DOWN, UP, CERR, call(rq, "a"), msg(ctok(an, "call:a"), ctok(bc)), msg(ctok(bc), ctok(an, "call:a"), ctok(bc)), msg(halves(ctok(bc))[0]), msg(halves(ctok(bc))[1], ctok(bc))], 5 if th else 4))
    return [t1, t2], cases

def clongs(fl, th):
    """Long histories of a consumer: hundreds of calls, many of them unanswered, long chunks, many connections."""
    rng = random.Random(7)
    ls = fjson(fl)["list"]
    def answer(m, t, *more): return [msg(ctok(rng.choice(ls[m])["m"] if m in ls else SVC + "BeaconConfirmation", "call:" + t), *more)]
    ms, bs = list(ls) + fl.beacons, fl.broadcasts()
    up = [[x] for x in [UP] + SHAKE]
    out = []
    for n, hold in ((700, 2), (70, 45)) if not th else ((2500, 3), (300, 120)):
        b, open_ = list(up), []
        for i in range(n):
            t, m = "k%dx" % i, rng.choice(ms)
            b.append([call(m, t)]); open_.append((m, t))
            while len(open_) > hold or (open_ and rng.random() < 0.1):
                m, t = open_.pop(rng.randrange(len(open_)))
                b.append(answer(m, t, *([ctok(rng.choice(bs))] if rng.random() < 0.2 else [])))
        rng.shuffle(open_)
        b += [answer(m, t) for m, t in open_] + [answer(m, t) for m, t in open_[:3]]
        out.append((ccase(fl, [], [], 0), b))
    b = list(up)
    for n in (20, 70, 150) if not th else (20, 150, 600):
        h = halves(ctok(bs[0]))
        b += [[msg(*[ctok(rng.choice(bs)) for _ in range(n)])], [msg(*[ctok(rng.choice(bs)) for _ in range(n // 2)] + [h[0]])], [msg(*[h[1]] + [ctok(rng.choice(bs)) for _ in range(n // 2)])]]
    out.append((ccase(fl, [], [], 0), b))
    b = []
    for i in range(10 if not th else 40):
        t = "s%dx" % i
        b += up + [[msg(ctok(bs[i % len(bs)]))], [call(ms[0], t)]] + ([answer(ms[0], t)] if i % 3 else []) + [[call(ms[-1], t + "y")], [DOWN]] + ([[call(ms[0], t + "z")]] if i % 2 else [])
    out.append((ccase(fl, [], [], 0), b))
    return out

def cmasses(fl, th):
    """Calls left without an answer beside more answered ones than a short number can tell apart."""
    l = fjson(fl)["list"]
    rq = [m for m in l if l[m] and not m.startswith("G")][0]
    ms = list(l) + fl.beacons
    def answer(m, t): return [msg(ctok(l[m][0]["m"] if m in l else SVC + "BeaconConfirmation", "call:" + t))]
    def mass(i, n): return [{"t": "mass", "id": "y%d" % i, "m": rq, "ans": l[rq][0]["m"], "k": l[rq][0]["c"], "count": n}]
    b = [[x] for x in [UP] + SHAKE] + [[call(m, "o%dx" % i)] for i, m in enumerate(ms)] + [mass(0, 66000)]
    b += [answer(m, "o%dx" % i) for i, m in list(enumerate(ms))[1:]] + ([mass(1, 140000)] if th else []) + [answer(ms[0], "o0x"), [call(rq, "zx")], answer(rq, "zx")]
    return [(ccase(fl, [], [], 0), b)]

def t02(ck):
    th = ck.tier == "thorough"
    fls, cases = t02_cases(th)
    work = core.fresh(ck.prop, "run")
    binary = flowts.build_consumers(fls, work, log=ck.log)
    prints = {f.name: flowts.prints(f, work) for f in fls}
    ck.log("consumers bundled")
    hs = cgenerate(ck, fls, cases)
    ck.log("%d histories" % len(hs))
    rng = random.Random(core.SEED * 7919 + 102)
    cap = 25000 if th else 6000
    if len(hs) > cap: ck.exhaustive = False
    scen = [(cases[c], [cases[c]["prefix"][i] if x == 0 else cases[c]["alpha"][x - 1] for i, x in enumerate(h)]) for c, h in core.choose(rng, hs, cap)]
    scen += crandoms(rng, cases, 4000 if th else 500) + [x for fl in fls for x in clongs(fl, th)] + [x for fl in (fls if th else fls[1:]) for x in cmasses(fl, th)]
    runs = cdrive(ck, binary, scen)
    ck.log("%d runs recorded" % len(runs))
    bad = cjudge(ck, fls, runs, prints)
    by = {i: (c, b, t) for i, c, b, t in runs}
    for i, why in sorted(bad.items(), key=lambda x: len(by[x[0]][1]))[:40]:
        c, b, t = by[i]
        ck.violation(csig(c, b), "a run no behaviour of the specification explains: %s" % json.dumps(why.get("next"))[:200], {"flow": c["flow"], "scenario": b, "stuck": why, "recorded": t})
    ck.validated += len(runs) - len(bad)
    for i, c, b, t in runs[:: max(1, len(runs) // 5)]: ck.sample({"flow": c["flow"], "scenario": b})

CHECKS = {"T01": t01, "T02": t02}
