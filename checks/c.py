"""C01..C04: generated Rust consumers (spec/ConsumerCore.tla, ConsumerGen.tla, ConsumerTrace.tla)."""
import copy, hashlib, json, random
from vlib import core, flow, proc, tlc

SVC = "InternalServiceGroup."
UUID = "00000000-0000-0000-0000-000000001001"
GONE = {"!APIChannel", "!GettingResponse", "!NoClient"}
KEYS = {"w1": ["n1", "-", "m1"], "w2": ["n1"]}
TIMEOUT, RECONNECT, TICK = 1000, 1500, 700

# ------------------------------------------------------------------ stimuli ----
def tok(m, ref="0", t="M", err=False): return {"t": t, "m": m, "ref": ref, "tag": "t", "err": err}
def msg(*toks): return {"t": "msg", "c": list(toks)}
def call(m, tag, kept=False): return {"t": "call", "id": tag, "m": m, "tag": tag, "kept": kept}
def abandon(tag): return {"t": "abandon", "of": tag}
def shutdown(i=1, kept=False): return {"t": "shutdown", "id": "s%d" % i, "kept": kept}
def plan(on, act, i="p", m=""): return {"t": "plan", "a": {"on": on, "act": act, "id": i, "m": m, "tag": i if act == "call" else ""}}
GO = {"t": "go"}
def cli(k): return {"t": "cli", "k": k}
def close(k="ok"): return {"t": "close", "k": k}
def fault(on): return {"t": "fault", "on": on}
KEEP, TICK_ = {"t": "keep", "id": "k"}, {"t": "tick", "ms": TICK}
CONFIRM, KEYOK, HASHOK = tok(SVC + "ConnectConfirmationBeacon"), tok(SVC + "SelfKeyResponse", "key"), tok(SVC + "HashResponse", "hash")
HASHBAD = tok(SVC + "HashResponse", "hash", err=True)
def conf(ref, **k): return tok(SVC + "BeaconConfirmation", ref, **k)
SHAKE = [msg(CONFIRM), msg(KEYOK), msg(HASHOK)]
def half(t): return dict(t, t="A"), dict(t, t="B")

def case(fl, prefix, alpha, depth, reconnect=RECONNECT, again=True):
    one = lambda l: [x if isinstance(x, list) else [x] for x in l]
    return {"flow": fl.name, "reconnect": reconnect, "timeout": TIMEOUT, "again": again, "prefix": one(prefix), "alpha": one(alpha), "depth": depth}

# ------------------------------------------------------------------ scenarios ----
def number(bursts):
    """Positions, and unique names for calls and broadcasts."""
    out, nt, last, cnt, halves = [], 0, {}, {}, None
    for i, b in enumerate(bursts):
        nb = []
        for j, x in enumerate(b):
            x = copy.deepcopy(x)
            x["n"] = (i + 1) * 10 + j
            if x["t"] == "call":
                cnt[x["tag"]] = cnt.get(x["tag"], 0) + 1
                last[x["tag"]] = x["tag"] + str(cnt[x["tag"]])
                x["tag"] = x["id"] = last[x["tag"]]
            if x["t"] == "plan":
                a = x["a"]
                if a["act"] == "call":
                    cnt[a["tag"]] = cnt.get(a["tag"], 0) + 1
                    last[a["tag"]] = a["tag"] + str(cnt[a["tag"]])
                    a["tag"] = a["id"] = last[a["tag"]]
                else: a["id"] = "%s%d" % (a["id"], x["n"])
            if x["t"] == "abandon": x["of"] = last.get(x["of"], "nobody")
            if x["t"] in ("keep", "shutdown"): x["id"] = "%s%d" % (x["id"], x["n"])
            for m in x.get("c", []):
                if m["t"] == "B" and halves: m["tag"] = halves
                else:
                    nt += 1; m["tag"] = "b%d" % nt
                if m["t"] == "A": halves = m["tag"]
                if m["ref"].startswith("call:"): m["ref"] = "call:" + last.get(m["ref"][5:], "nobody")
            nb.append(x)
        out.append(nb)
    return out

def refusal(tag): return ["no", "", "refused: " + "x" * 300, "None"][(int(tag[1:]) if tag[1:].isdigit() else 0) % 4]
def driver(sid, c, bursts):
    def token(m):
        n = m["m"][len(SVC):] if m["m"].startswith(SVC) else ""
        f = {"SelfKeyResponse": {"uuid": UUID}, "ConnectConfirmationBeacon": {}}.get(n, {"error": refusal(m["tag"])} if m["err"] else {}) if n else {"tag": m["tag"]}
        return {"t": m["t"], "m": m["m"], "ref": m["ref"], "f": f}
    def stim(x):
        y = {k: v for k, v in x.items() if k not in ("kept", "id", "c")}
        if x.get("kept"): y["h"] = "kept"
        if "c" in x: y["c"] = [token(m) for m in x["c"]]
        return y
    return {"id": sid, "flow": c["flow"], "reconnect": c["reconnect"], "timeout": c["timeout"], "again": c["again"], "key": KEYS[c["flow"]],
            "steps": [[stim(x) for x in b] for b in bursts]}

def canon(trace, bursts, fl, prints):
    """Segments of stimuli and streams of outputs, in the vocabulary of the specification."""
    stims = {x["n"]: x for b in bursts for x in b}
    keyf = {n: v for (n, o), v in zip(fl.msgs[fl.selfkey], KEYS[fl.name]) if v != "-"}
    segs, cur = [], {"stims": [], "out": {}}
    def put(k, o): cur["out"].setdefault(k, []).append(o)
    for r in trace:
        op = r["op"]
        if op == "settled": segs.append(cur); cur = {"stims": [], "out": {}}
        elif op == "stim":
            x = {k: v for k, v in stims[r["s"]].items() if k != "n"}
            if x["t"] == "msg": x["c"] = [dict(m, ref=ref) for m, ref in zip(x["c"], r["refs"])]
            cur["stims"].append(x)
        elif op == "ev": put("ev", {"op": "ev", "k": r["k"], "x": r["x"], "m": "", "tag": ""})
        elif op == "bcast": put("ev", {"op": "bcast", "k": "", "x": "", "m": r["m"], "tag": r["tag"]})
        elif op == "send":
            who, m, x = r["who"], r["m"], ""
            if who == "key": m, x = "key", "own" if r["f"] == keyf else json.dumps(r["f"])
            elif who == "hash": x = "own" if r["f"] == prints else json.dumps(r["f"])
            if r["q"] != "own": who += " with a number in use"
            put("send", {"op": "send", "m": m, "who": who, "x": x})
        elif op == "res":
            x = stims[r["n"]].get("a", stims[r["n"]])
            k = "!gone" if r["k"] in GONE else r["k"]
            put("res" + x["id"], {"op": "res", "id": x["id"], "k": k, "m": r["m"], "tag": r["tag"]})
        elif op == "released":
            x = stims[r["n"]].get("a", stims[r["n"]])
            put("rel" + x["id"], {"op": "released", "id": x["id"], "ok": r["ok"]})
        elif op == "mass": put("life", {"op": "mass", "id": stims[r["n"]]["id"], "ok": r["ok"]})
        else: put("life", {"op": op})
    return segs

# ------------------------------------------------------------------ running ----
def generate(ck, fls, cases, timeout=500):
    d = core.fresh(ck.prop, "gen")
    json.dump({f.name: f.json() for f in fls}, open(d + "/flows.json", "w"))
    json.dump(cases, open(d + "/cases.json", "w"))
    c = "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANT Monitors\nINVARIANT Rest\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    t = tlc.run("ConsumerGen", c, d, env={"CG_FLOWS": d + "/flows.json", "CG_CASES": d + "/cases.json"}, timeout=timeout, **tlc.same(ck))
    ck.tlc(t)
    for r in t.records:
        if "stuck" in r: raise core.CheckError("the prefix of case %d makes no sense at %d" % (r["stuck"] - 1, r["at"]))
    hs = {(r["c"] - 1, tuple(r["h"])) for r in t.records}
    pre = {(c, h[:-1]) for c, h in hs}
    return sorted(h for h in hs if h not in pre)

def judge(ck, fls, runs, prints, timeout=700):
    d = core.fresh(ck.prop, "judge")
    by = {f.name: f for f in fls}
    json.dump({f.name: f.json() for f in fls}, open(d + "/flows.json", "w"))
    rec = [{"id": i, "flow": c["flow"], "reconnect": c["reconnect"], "timeout": c["timeout"], "again": c["again"], "segs": canon(t, b, by[c["flow"]], prints[c["flow"]])} for i, c, b, t in runs]
    json.dump(rec, open(d + "/traces.json", "w"))
    cf = "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANT Emit\nVIEW Shape\nCHECK_DEADLOCK FALSE\n"
    env = {"CT_FLOWS": d + "/flows.json", "CT_TRACES": d + "/traces.json", "CT_PROP": ck.prop, "CT_VERBOSE": "0"}
    t = tlc.run("ConsumerTrace", cf, d, env=env, timeout=timeout)
    ck.tlc(t)
    ok = {r["ok"] for r in t.records}
    bad = [r for r in rec if r["id"] not in ok]
    why = {}
    if bad:
        json.dump(bad[:20], open(d + "/bad.json", "w"))
        v = tlc.run("ConsumerTrace", cf, d, env=dict(env, CT_TRACES=d + "/bad.json", CT_VERBOSE="1"), timeout=timeout)
        for r in v.records:
            if "at" in r:
                w = why.setdefault(r["id"], {"at": [0, 0, 0], "next": None, "possible": []})
                at = [r["at"], r["done"], r["stim"]]
                if at > w["at"]: w.update(at=at, next=r["next"], possible=[])
                if at == w["at"]: w["possible"] += [x for x in r["want"] if x not in w["possible"]][:6]
    return {r["id"]: why.get(r["id"], {}) for r in bad}

def twice_confirmed(segs_trace, bursts):
    """A second confirmation within a connection is nothing a producer does."""
    stims = {x["n"]: x for b in bursts for x in b}
    n = 0
    for r in segs_trace:
        if r["op"] == "open": n = 0
        if r["op"] == "stim":
            n += sum(1 for m in stims[r["s"]].get("c", []) if m["m"].endswith("ConnectConfirmationBeacon"))
            if n > 1: return True
    return False

def answers(binary, kept):
    slow = {k[0] for k in kept if any(x["t"] == "mass" for y in k[2] for x in y)}
    for ks, wait in (([k for k in kept if k[0] not in slow], 10), ([k for k in kept if k[0] in slow], 300)):
        cmds = [driver(i, c, b) for i, c, b in ks]
        yield from ((cmd, r) + k for cmd, r, k in zip(cmds, proc.drive([binary], cmds, line_timeout=wait), ks))

def drive(ck, binary, scen):
    kept = [(i, c, number(b)) for i, (c, b) in enumerate(scen)]
    out = []
    for cmd, r, i, c, b in answers(binary, kept):
        if "trace" not in r:
            if "skipped" in r: continue
            ck.violation("crash:" + sig(c, b), "the consumer crashes or hangs", {"scenario": cmd, "result": r})
        elif any(x["op"] == "panic" for x in r["trace"]):
            ck.violation("panic:" + sig(c, b), "the consumer panics: %s" % [x["at"] for x in r["trace"] if x["op"] == "panic"][0], {"scenario": cmd, "result": r})
        elif not twice_confirmed(r["trace"], b): out.append((i, c, b, r["trace"]))
    return out

def sig(c, b): return hashlib.sha1(json.dumps([c["flow"], c["reconnect"], c["again"], b], sort_keys=True).encode()).hexdigest()[:12]

def randoms(rng, cases, n, lo=5, hi=18):
    """Longer histories over the alphabets of the cases, in random bursts."""
    out = []
    for _ in range(n):
        k = rng.choice(cases)
        b, burst = list(k["prefix"]), []
        for _ in range(rng.randint(lo, hi)):
            x = rng.choice(k["alpha"])
            ts = {y["t"] for y in x}
            if ts & {"close", "shutdown", "fault"} and rng.random() < 0.6: continue
            if any(m["t"] == "B" for y in x for m in y.get("c", [])): continue
            a = [m for y in x for m in y.get("c", []) if m["t"] == "A"]
            if a:                                        # both halves, one after the other
                if burst: b.append(burst); burst = []
                b += [x, [msg(dict(a[0], t="B"))]]
                continue
            if "tick" in ts or "keep" in ts:
                if burst: b.append(burst); burst = []
                b.append(x)
                if "tick" in ts and rng.random() < 0.4: b += [x, x] + SHAKEB
                continue
            burst = burst + x
            if rng.random() < 0.4 or len(burst) > 5: b.append(burst); burst = []
        if burst: b.append(burst)
        if sum(1 for x in b for y in x if y["t"] == "shutdown") > 2: continue
        out.append((k, b))
    return out
SHAKEB = [[x] for x in SHAKE]

def longs(fl, th):
    """Long histories: hundreds of calls with many unanswered ones, long chunks, many sessions.  One stimulus at a time, so that judging stays cheap."""
    rng = random.Random(7)
    def answer(m, tag, more=()): return msg(tok(fl.json()["list"][m][rng.randrange(len(fl.json()["list"][m]))]["m"] if m in fl.json()["list"] else SVC + "BeaconConfirmation", "call:" + tag), *more)
    ms = [r["ref"] for r in fl.requests] + fl.beacons
    bs = fl.broadcasts()
    out = []
    # calls, few or many of them unanswered at a time
    for n, hold in ((320, 3), (60, 24), (40, 40)) if not th else ((900, 3), (300, 70), (140, 140)):
        b, open_ = list(SHAKEB), []
        for i in range(n):
            t, m = "k%dx" % i, rng.choice(ms)
            b.append([call(m, t)]); open_.append((m, t))
            while len(open_) > hold or (open_ and rng.random() < 0.1):
                m, t = open_.pop(rng.randrange(len(open_)))
                b.append([answer(m, t, [tok(rng.choice(bs))] if rng.random() < 0.2 else [])])
        rng.shuffle(open_)
        b += [[answer(m, t)] for m, t in open_]
        b += [[answer(m, t)] for m, t in open_[:3]]          # once more: nobody waits
        out.append((case(fl, [], [], 0), b))
    # long chunks
    b = list(SHAKEB)
    for n in (20, 70, 150) if not th else (20, 150, 600):
        b.append([msg(*[tok(rng.choice(bs)) for _ in range(n)])])
        h = half(tok(bs[0]))
        b += [[msg(*[tok(rng.choice(bs)) for _ in range(n // 2)] + [h[0]])], [msg(*[h[1]] + [tok(rng.choice(bs)) for _ in range(n // 2)])]]
    out.append((case(fl, [], [], 0), b))
    # sessions
    b = []
    for i in range(8 if not th else 25):
        t = "s%dx" % i
        b += SHAKEB + [[msg(tok(bs[i % len(bs)]))], [call(ms[0], t)]] + ([[answer(ms[0], t)]] if i % 3 else []) + [[call(ms[-1], t + "y")]] + ([[cli("error")]] if i % 4 == 1 else [])
        b += [[close("ok")], [TICK_], [msg(tok(bs[0]))] if i % 2 else [TICK_], [TICK_], [TICK_]]
    out.append((case(fl, [], [], 0), b))
    return out

def masses(fl, th):
    """Calls left without an answer beside more answered ones than a short number can tell apart."""
    l = fl.json()["list"]
    rq = [m for m in l if len(l[m]) and not m.startswith("G")][0]
    ms = list(l) + fl.beacons
    def answer(m, t): return [msg(tok(l[m][0]["m"] if m in l else SVC + "BeaconConfirmation", "call:" + t))]
    def mass(i, n): return [{"t": "mass", "id": "y%d" % i, "m": rq, "ans": l[rq][0]["m"], "k": l[rq][0]["c"], "count": n}]
    b = list(SHAKEB) + [[call(m, "o%dx" % i)] for i, m in enumerate(ms)] + [mass(0, 66000)]
    b += [answer(m, "o%dx" % i) for i, m in list(enumerate(ms))[1:]] + ([mass(1, 140000)] if th else []) + [answer(ms[0], "o0x"), [call(rq, "zx")], answer(rq, "zx")]
    return [(case(fl, [], [], 0), b)]

def run(ck, fls, cases, nrandom, cap, extra=()):
    work = core.fresh(ck.prop, "run")
    binary = flow.build_consumers(fls, work, log=ck.log)
    prints = {f.name: flow.prints(f, work) for f in fls}
    ck.log("consumers built")
    hs = generate(ck, fls, cases)
    ck.log("%d histories" % len(hs))
    rng = random.Random(core.SEED * 7907 + int(ck.prop[1:]))
    if len(hs) > cap: ck.exhaustive = False
    scen = [(cases[c], [cases[c]["prefix"][i] if x == 0 else cases[c]["alpha"][x - 1] for i, x in enumerate(h)]) for c, h in core.choose(rng, hs, cap)]
    scen += randoms(rng, cases, nrandom) + list(extra)
    runs = drive(ck, binary, scen)
    ck.log("%d runs recorded" % len(runs))
    bad = judge(ck, fls, runs, prints)
    by = {i: (c, b, t) for i, c, b, t in runs}
    for i, why in sorted(bad.items(), key=lambda x: len(by[x[0]][1]))[:40]:
        c, b, t = by[i]
        ck.violation(sig(c, b), "a run no behaviour of the specification explains: %s" % json.dumps(why.get("next"))[:200],
                     {"flow": c["flow"], "reconnect": c["reconnect"], "again": c["again"], "scenario": b, "stuck": why, "recorded": t})
    ck.validated += len(runs) - len(bad)
    for i, c, b, t in runs[:: max(1, len(runs) // 5)]:
        ck.sample({"flow": c["flow"], "reconnect": c["reconnect"], "scenario": b})
    return runs

# ------------------------------------------------------------------ the alphabets ----
def c01(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, b, rq in ((w1, "Ba", "Top"), (w2, "Bx.B", "Req")):
        a1, b1 = half(KEYOK)
        alpha = [msg(CONFIRM), msg(KEYOK), msg(HASHOK), msg(HASHBAD), msg(tok(b)), msg(tok(b, "key")), msg(tok(b, "hash")), msg(tok(SVC + "HashResponse", "key")), msg(tok(SVC + "SelfKeyResponse", "hash")),
                 msg(tok(SVC + "SelfKeyResponse", "0")), msg(tok(SVC + "HashResponse", "0")), msg(tok(SVC + "SelfKeyResponse", "none")), msg(CONFIRM, tok(b)), msg(tok(b), CONFIRM),
                 msg(KEYOK, tok(b), KEYOK), [msg(HASHOK), msg(tok(b)), close()], [msg(KEYOK), close()], msg(HASHOK, HASHOK, tok(b)), msg(a1), msg(b1, tok(b)), cli("connected"), cli("disconnected"), cli("error"),
                 close("ok"), close("err"), call(rq, "a"), msg(tok(b, t="sig")), msg(KEYOK, tok(b, t="body"), tok(b)), TICK_]
        cases.append(case(fl, [], alpha, 5 if th else 4))
        cases.append(case(fl, [msg(CONFIRM)], [msg(KEYOK), msg(HASHOK), msg(HASHBAD), msg(tok(b)), fault(True), fault(False), close(), TICK_, msg(CONFIRM), [msg(KEYOK), msg(tok(b)), msg(tok(b)), close()], shutdown()], 7 if th else 6))
    run(ck, [w1, w2], cases, 3000 if th else 300, 12000 if th else 4000)

def c02(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    names = {f.name: sorted(set(a["m"] for r in f.json()["list"].values() for a in r)) for f in (w1, w2)}
    for fl, rqs, bc in ((w1, ["Top", "Ga.Req", "Beac"], "Ba"), (w2, ["Gx.Req", "Req"], "Bx.B")):
        # answers of every type to every request and beacon
        for group in [[r] for r in fl.json()["list"]] + [[b] for b in fl.beacons]:
            m = group[0]
            alpha = [call(m, "a"), call(m, "b")]
            for a in names[fl.name] + [SVC + "BeaconConfirmation", bc]:
                alpha += [msg(tok(a, "call:a"))] + ([msg(tok(a, "call:b"), tok(a, "call:a"))] if th or a in (names[fl.name][0], SVC + "BeaconConfirmation") else [])
            alpha += [msg(conf("call:a", err=True))]
            cases.append(case(fl, SHAKE, alpha, 3 if th else 2))
        # several in flight
        ans = {q: (fl.json()["list"][q][0]["m"] if q in fl.json()["list"] else SVC + "BeaconConfirmation") for q in rqs}
        alpha = [call(q, "abc"[i]) for i, q in enumerate(rqs)] + [msg(tok(ans[q], "call:" + "abc"[i])) for i, q in enumerate(rqs)]
        alpha += [abandon("a"), abandon("b"), TICK_, msg(tok(ans[rqs[0]], "call:a"), tok(ans[rqs[1]], "call:b"), tok(ans[rqs[0]], "call:a")), msg(tok(ans[rqs[1]], "call:a")), msg(tok(bc)), msg(tok(ans[rqs[0]], "0")), msg(tok(ans[rqs[0]], "none")),
                  [call(rqs[0], "a"), call(rqs[1], "b")], [call(rqs[0], "a"), abandon("a")], [msg(tok(ans[rqs[0]], "call:a")), abandon("a")], fault(True), close(), msg(*half(tok(ans[rqs[0]], "call:a"))[:1]), msg(half(tok(ans[rqs[0]], "call:a"))[1]),
                  [call(rqs[0], "a"), close()], [msg(tok(ans[rqs[0]], "call:a")), close()]]
        cases.append(case(fl, SHAKE, alpha, 5 if th else 4))
        cases.append(case(fl, [], alpha + [SHAKE[0], SHAKE[1], SHAKE[2]], 4 if th else 3))       # calls before the handshake is over
        cases.append(case(fl, SHAKE + [KEEP, close(), TICK_, TICK_, TICK_] + SHAKE, [call(rqs[0], "a", True), call(rqs[0], "a"), call(rqs[1], "b"), msg(tok(ans[rqs[0]], "call:a")), KEEP, close(), TICK_], 5 if th else 4))
        # calls made by handlers, beside others
        first = "connected"
        alpha = [plan(bc, "call", "pc", rqs[0]), plan(bc, "call", "pd", rqs[1]), plan("error", "call", "pe", rqs[0]), plan(bc, "hold", "ph"), GO, call(rqs[0], "a"), msg(tok(bc)), msg(tok(bc), tok(bc)), msg(tok(ans[rqs[0]], "call:pc")), msg(tok(ans[rqs[1]], "call:pd")), msg(tok(ans[rqs[0]], "call:pe")), msg(tok(ans[rqs[0]], "call:a")),
                 msg(tok(ans[rqs[0]], "call:a"), tok(ans[rqs[0]], "call:pc"), tok(ans[rqs[1]], "call:pd")), cli("error"), [cli("error"), close()], close(), TICK_, fault(True)]
        cases.append(case(fl, SHAKE, alpha, 5 if th else 4))
        cases.append(case(fl, SHAKE[:2] + [plan("connected", "call", "pc", rqs[0])], [msg(HASHOK), msg(HASHOK, tok(bc)), msg(tok(bc)), plan("shutdown", "call", "ps", rqs[0]), plan("disconnected", "call", "pt", rqs[1]), msg(tok(ans[rqs[0]], "call:pc")), close(), TICK_, shutdown()], 6 if th else 5))
    run(ck, [w1, w2], cases, 4000 if th else 400, 20000 if th else 7000, [x for fl in (w1, w2) for x in longs(fl, th)] + [x for fl in ((w1, w2) if th else (w2,)) for x in masses(fl, th)])

def c03(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl in (w1, w2):
        bs = fl.broadcasts()
        b0, b1 = bs[0], bs[-1]
        a, b = half(tok(b0))
        alpha = [msg(tok(x)) for x in bs] + [msg(*[tok(x) for x in bs]), msg(tok(b0), tok(b0), tok(b1)), msg(tok(b1), tok(b0), a), msg(b), msg(b, tok(b1)), msg(a),
                 msg(tok(b0), tok(b1, t="sig"), tok(b0)), msg(tok(b0, t="id"), tok(b1)), msg(tok(b1, t="body")), msg(tok(b0, "none")), msg(tok(b1, "call:a")), msg(tok("Ev")), msg(tok("Ev"), tok(b0)), msg(tok(SVC + "BeaconConfirmation"), tok(b1)),
                 cli("text"), cli("ping"), cli("error"), cli("disconnected"), call("Top" if fl is w1 else "Req", "a"), msg(tok("TopA" if fl is w1 else "Res", "call:a"), tok(b0)),
                 [msg(tok(b0)), msg(tok(b1)), cli("text"), msg(tok(b0))], [msg(tok(b0)), msg(tok(b1)), close()], TICK_]
        cases.append(case(fl, [], alpha, 4 if th else 3))
        cases.append(case(fl, SHAKE, alpha, 4 if th else 3))
        # handlers that take their time, or call
        rq, an = ("Top", "TopA") if fl is w1 else ("Req", "Res")
        alpha = [plan(b0, "hold", "ph"), plan(b1, "call", "pc", rq), plan(b0, "call", "pd", rq), plan("error", "hold", "pe"), GO, msg(tok(b0)), msg(tok(b1)), msg(tok(b0), tok(b1), tok(b0)), msg(tok(an, "call:pc"), tok(b1)), msg(tok(an, "call:pd")), msg(tok(b1), tok(an, "call:pc"), tok(b0)), cli("text"), close(), TICK_, [GO, msg(tok(b1))]]
        cases.append(case(fl, SHAKE, alpha, 5 if th else 4))
    run(ck, [w1, w2], cases, 3000 if th else 300, 16000 if th else 4500, [longs(fl, th)[3] for fl in (w1, w2)])

def c04(ck):
    th = ck.tier == "thorough"
    w1, w2 = flow.w1(), flow.w2()
    cases = []
    for fl, rq, an, bc in ((w1, "Top", "TopA", "Ba"), (w2, "Req", "Res", "Bx.B")):
        alpha = [close("ok"), close("err"), shutdown(1), shutdown(2, True), KEEP, call(rq, "a"), call(rq, "b", True), msg(tok(an, "call:a")), TICK_, msg(CONFIRM), msg(KEYOK), msg(HASHOK), cli("disconnected"),
                 [close("ok"), call(rq, "c")], [shutdown(1), close("err")], [close("ok"), shutdown(1)], [msg(tok(bc)), msg(tok(bc)), close()], [call(rq, "c"), shutdown(1)]]
        for rec, again in ((RECONNECT, True), (0, True), (RECONNECT, False)):
            cases.append(case(fl, SHAKE, alpha, (5 if th else 4) if (rec and again) else 3, rec, again))
        cases.append(case(fl, [], alpha, 4 if th else 3))
        cases.append(case(fl, [msg(CONFIRM)], alpha + [msg(HASHBAD), [msg(KEYOK), close()], [msg(tok(bc)), msg(tok(bc)), msg(tok(bc)), close()]], 4 if th else 3))
        cases.append(case(fl, SHAKE + [KEEP, call(rq, "a"), close(), TICK_, TICK_, TICK_], alpha, 4 if th else 3))
        # handlers that call, ask for the end or take their time
        acts = [plan("connected", "shutdown", "ps"), plan(bc, "shutdown", "pt"), plan("disconnected", "hold", "ph"), plan("shutdown", "call", "pc", rq), plan(bc, "hold", "pb"), plan("error", "shutdown", "pe"), plan("disconnected", "shutdown", "pd")]
        alpha = acts + [GO, msg(tok(bc)), msg(tok(bc), tok(bc)), close("ok"), shutdown(1), TICK_, msg(KEYOK), msg(HASHOK), cli("error"), [GO, close("ok")], [msg(tok(bc)), close("err")], [shutdown(1), msg(tok(bc))]]
        cases.append(case(fl, SHAKE[:2], alpha, 5 if th else 4))
        cases.append(case(fl, SHAKE, alpha + [KEEP, shutdown(2, True), call(rq, "b", True), msg(CONFIRM)], 4 if th else 3))
    run(ck, [w1, w2], cases, 4000 if th else 400, 16000 if th else 4500, [longs(fl, th)[4] for fl in (w1, w2)])

CHECKS = {"C01": c01, "C02": c02, "C03": c03, "C04": c04}
