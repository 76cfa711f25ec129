"""S01: producers and consumers together (spec/SystemCore.tla, System.tla, SystemTrace.tla)."""
import copy, json, os, queue, random, select, subprocess, threading, time
from vlib import core, flow, flowts, tlc
from checks import p as P

SVC = "InternalServiceGroup."
def sc(**k):
    s = P.sc(**k)
    s.setdefault("g", False)
    return s
UUID = lambda u: "00000000-0000-0000-0000-%012x" % (0x1000 + int(u[1:]))

def twin(fl):
    """The same workflow from a source with other bytes: another fingerprint."""
    t = copy.deepcopy(fl)
    t.name = fl.name + "x"
    t.protocol = lambda: type(fl).protocol(t) + "\n\n"
    return t

def flows_json(fls):
    out = {}
    for f in fls:
        out[f.name] = f.json()
        out[f.name + "!ts"] = flowts.consumer_json(f)
    return out

def key(fl, i): return {"w1": ["n%d" % i, "-", "m%d" % i], "w2": ["n%d" % i]}[fl.name]
def case(fl, prod, cons, ask, evs, calls, events, leaves, chunk, c=None, bad=()):
    """cons: kinds; bad: {consumer: which fingerprint differs}"""
    c = c or {}
    bad = dict(bad)
    return {"flow": fl.name, "prod": prod, "cons": {"c%d" % (i + 1): {"kind": k, "key": key(fl, i + 1), "h": bad.get("c%d" % (i + 1), "ok")} for i, k in enumerate(cons)},
            "cfg": {"connected": {"tag": "C", "s": sc(**c.get("connected", {}))}, "disconnected": {"tag": "D", "s": sc(**c.get("disconnected", {}))}},
            "ask": [{"m": m, "s": sc(**s)} for m, s in ask], "evs": [{"e": e, "s": sc(**s)} for e, s in evs], "calls": calls, "events": events, "leaves": leaves, "chunk": chunk}

C1 = {"connected": {"b": ["except"]}, "disconnected": {"b": ["all", "all"]}}
def asks(fl, n, ts=False):
    """Requests and beacons, with decisions of every kind and addressees of every kind."""
    me = ["c%d" % (i + 1) for i in range(n)]
    if fl.name == "w1":
        l = [("Top", dict(c="First", b=["all", "none", "except"])), ("Top", dict(c="First", b=["except", "all", ("list", [me[-1]])])), ("Top", dict(c="Second")), ("Top", dict(c="Third", b=[("exclude", me[:1])])),
             ("Top", dict(o="err", c="First")), ("Solo", dict(c="Only", b=["all", ("keyed", ["n2"]), "except", ("list", me[::-1]), "none"])), ("Solo", dict(c="Only", o="err")), ("One", dict()), ("One", dict(o="err")), ("Ga.Req", dict(c="Left", b=[("list", me[:2])])), ("Ga.Req", dict(c="Right", b=["all", ("keyed", ["n1"])])),
             ("Ga.Req", dict(o="err", c="Left")), ("Ga.Sub.Req", dict()), ("Beac", dict()), ("Gb.Beac", dict()), ("Gb.Sub.Beac", dict()), ("One", dict(x=me[-1])), ("Beac", dict(x=me[-1])), ("Top", dict(c="First", b=["all", "all", "all"], x=me[-1]))]
    else:
        l = [("Gx.Req", dict(c="A")), ("Gx.Req", dict(c="B", b=["all"])), ("Gx.Req", dict(c="B", b=["except"])), ("Gx.Req", dict(o="err", c="A")), ("Req", dict()), ("Req", dict(o="err")), ("Gx.Req", dict(c="B", b=[("list", [me[-1]])], x=me[-1]))]
    return l + ([(m, dict(s, g=True)) for m, s in l if m not in ("Beac", "Gb.Beac", "Gb.Sub.Beac") or True] if ts else [])
def evs(fl, n):
    if fl.name == "w1":
        return [("Ev", dict(b=["all", "none"])), ("Ev", dict(b=[("exclude", ["c1"]), ("except", ["c1"])])), ("Ge.Ev", dict(b=[("list", ["c1"])])), ("Ge.Sub.Ev", dict(b=["all", "none", ("list", ["c2", "c3"]), "all"])), ("Ge.Ev", dict(b=["all"], x="c%d" % n))]
    return [("Ev", dict(b=["all"])), ("Ev", dict(b=[("keyed", ["n1"])]))]

def small(th):
    """Instances checked exhaustively."""
    t1, t2 = flowts.t1(), flowts.t2()
    out = []
    for prod in ("rust", "ts"):
        for cons in (("rust", "ts"), ("ts", "rust")):
            out.append(case(t1, prod, cons, [("Top", dict(c="First", b=["all", "none", "except"])), ("One", dict(x="c2"))], [("Ev", dict(b=["all", "none"]))], 2 if th else 1, 1, 1, 2, C1))
            out.append(case(t2, prod, cons, [("Gx.Req", dict(c="B", b=["all"], g=prod == "ts"))], [], 2, 0, 1, 2, bad={"c2": "p"}))
            if not th: break
    return out

def walks(th):
    t1, t2 = flowts.t1(), flowts.t2()
    out = []
    for fl in (t1, t2):
        for prod in ("rust", "ts"):
            for cons in (("rust", "ts", "rust"), ("ts", "rust", "ts"), ("rust", "rust", "rust"), ("ts", "ts", "ts")):
                out.append(case(fl, prod, cons, asks(fl, 3, prod == "ts"), evs(fl, 3), 8, 3, 2, 3, C1 if fl is t1 else None))
                if fl is t2:
                    out.append(case(fl, prod, cons, asks(fl, 3, prod == "ts"), evs(fl, 3), 5, 2, 1, 3, bad={"c2": "p"}))
    return out

def check(ck, fls, cases, work, name, timeout=800):
    d = core.fresh(ck.prop, name)
    json.dump(flows_json(fls), open(d + "/flows.json", "w"))
    json.dump(cases, open(d + "/cases.json", "w"))
    return d, {"SY_FLOWS": d + "/flows.json", "SY_CASES": d + "/cases.json"}

def exhaust(ck, fls, cases, timeout=800):
    d, env = check(ck, fls, cases, None, "small")
    t = tlc.run("System", "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANT Holds\nVIEW Shape\nCHECK_DEADLOCK FALSE\n", d, env=dict(env, SY_WALK="0"), timeout=timeout)
    ck.tlc(t)

def walk(ck, fls, cases, n, timeout=300):
    d, env = check(ck, fls, cases, None, "walks")
    t = tlc.run("System", "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANTS Holds Emit\nCHECK_DEADLOCK FALSE\n", d, env=dict(env, SY_WALK="1"), timeout=timeout,
                simulate="num=%d" % n, workers="1", extra=["-depth", "120", "-seed", str(core.SEED * 7919 + 103), "-fp", "1"])
    ck.tlc(t)
    return [(r["c"] - 1, r["h"]) for r in t.records]

# ------------------------------------------------------------------ the real processes ----
class Broken(Exception): pass
class Proc:
    """A driver in live mode: one line in, one answer out."""
    def __init__(self, cmd, node):
        self.p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, bufsize=0, preexec_fn=os.setsid)
        self.node, self.buf, self.open = node, b"", False
    def ask(self, x, answer=True):
        try:
            self.p.stdin.write(json.dumps(x).encode() + b"\n")
        except OSError:
            raise Broken("the process is gone")
        if not answer: return []
        end = time.time() + 20
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0, end - time.time()))
            if not r: raise Broken("no answer")
            d = os.read(self.p.stdout.fileno(), 1 << 16)
            if not d: raise Broken("the process ends")
            self.buf += d
        l, self.buf = self.buf.split(b"\n", 1)
        o = json.loads(l)
        if "out" not in o: raise Broken(str(o)[:500])
        for r in o["out"]:
            if r["op"] == "panic": raise Broken(r["at"])
        return o["out"]
    def start(self, what, cmd):
        self.stop()
        self.open = True
        return self.ask(dict(cmd, live=True, what="live_" + what))
    def stop(self):
        if self.open and not self.node: self.ask([{"t": "end"}] if self.cons else {"t": "end"}, False)
        self.open = False
    def kill(self):
        try: os.killpg(self.p.pid, 9)
        except ProcessLookupError: pass
        self.p.wait()
class Producer(Proc):
    cons = False
    def give(self, x): return self.ask({"what": "stim", "x": x} if self.node else x)
class Consumer(Proc):
    cons = True
    def give(self, l): return self.ask({"what": "burst", "l": l} if self.node else l)

class Net:
    """Carries what they say, as the schedule wants it; a chunk may carry the beginning of the next package."""
    def __init__(self, pool, c, fls, prints, rng):
        self.c, self.rng, self.prints = c, rng, prints
        self.fl = {f.name: f for f in fls}[c["flow"]]
        self.us = sorted(c["cons"])
        self.p = pool.get("p", c["prod"])
        self.k = {u: pool.get(u, c["cons"][u]["kind"]) for u in self.us}
        self.link = {u: "no" for u in self.us}
        self.known = set()
        self.up = {u: [] for u in self.us}
        self.down = {u: [] for u in self.us}
        self.part = {}
        self.who = {u: {} for u in self.us}
        self.keyf = {u: {n: v for (n, o), v in zip(self.fl.msgs[self.fl.selfkey], c["cons"][u]["key"]) if v != "-"} for u in self.us}
        cmd = {"id": 0, "flow": c["flow"], "ids": "Ignore", "errs": "EmitErrorAndDisconnect", "uuids": True, "cfg": {k: {"tag": v["tag"], "script": json.dumps(v["s"])} for k, v in c["cfg"].items()}}
        self.p.start("producer", cmd)
        self.p.give({"t": "ready"})

    # -- what the producer has put out
    def pout(self, out):
        res = []
        for r in out:
            if r["op"] == "send":
                u, m, f = r["u"], r["m"], r["f"]
                tag = f.get("tag", "")
                if m.startswith(SVC):
                    tag = {"HashResponse": "err" if "error" in f else "ok", "BeaconConfirmation": "err" if "error" in f else "ok", "SelfKeyResponse": P.uname(f.get("uuid", ""))}.get(m[len(SVC):], "")
                q = "0" if r["q"] == 0 else self.who.get(u, {}).get(r["q"], "a number nobody has sent")
                if u not in self.link: res.append({"op": "?", "what": "send to " + u}); continue
                res.append({"op": "send", "u": u, "m": m, "q": q, "tag": tag})
                if self.link[u] == "up" and u in self.known: self.down[u].append(bytes.fromhex(r["hex"]))
            elif r["op"] == "disc":
                u = r["u"]
                res.append({"op": "disc", "u": u})
                if self.link.get(u) == "up" and u in self.known:
                    self.link[u] = "kicked"
                    self.down[u].append("disconnect")
                    self.up[u] = ["disconnect"]
                    self.part.pop(("up", u), None)
            elif r["op"] == "call": res.append({k: r[k] for k in ("op", "k", "h", "u", "tag") if k in r})
        return res
    # -- what a consumer has put out
    def cout(self, u, out):
        res = []
        for r in out:
            op = r["op"]
            if op == "send":
                who, m, x = r["who"], r["m"], ""
                if who == "key": m, x = "key", "own" if r["f"] == self.keyf[u] else json.dumps(r["f"])
                elif who == "hash": x = "own" if r["f"] == self.prints[self.c["cons"][u]["kind"], self.cflow(u)] else json.dumps(r["f"])
                self.who[u][r.get("seq")] = who
                if r["q"] != "own": who += " with a number in use"
                res.append({"op": "send", "m": m, "who": who, "x": x})
                if self.link[u] == "up": self.up[u].append(bytes.fromhex(r["hex"]))
            elif op == "ctl":
                res.append({"op": "ctl"})
                if self.link[u] == "up": self.up[u].append("disconnect")
                self.link[u], self.down[u] = "closed", []
                self.part.pop(("down", u), None)
            elif op == "ev": res.append({"op": "ev", "k": r["k"], "x": P.uname(r["x"]) if "-" in r["x"] else r["x"], "m": "", "tag": ""})
            elif op == "bcast": res.append({"op": "bcast", "k": "", "x": "", "m": r["m"], "tag": r["tag"]})
            elif op == "res":
                k = "!gone" if r["k"] in ("!APIChannel", "!GettingResponse", "!NoClient") else r["k"]
                res.append({"op": "res", "id": r["n"], "k": k, "m": r["m"], "tag": r["tag"]})
        return res
    def cflow(self, u): return self.c["flow"] + ("x" if self.c["cons"][u]["h"] != "ok" else "")

    def take(self, way, u, n):
        """The next n packages as bytes, or a marker; and how many packages it was."""
        q = getattr(self, way)[u]
        if isinstance(q[0], str): return q.pop(0), 1
        m = 0
        while m < n and m < len(q) and not isinstance(q[m], str): m += 1
        data = b"".join(q[:m])
        skip = self.part.pop((way, u), 0)
        del q[:m]
        data = data[skip:]
        if q and not isinstance(q[0], str) and self.rng.random() < 0.5:
            k = self.rng.randrange(1, len(q[0]))
            data += q[0][:k]
            self.part[way, u] = k
        return data, m
    def can(self, x):
        a, u = x["a"], x["u"]
        if a == "open": return self.link[u] == "no"
        if a in ("up", "down"): return bool(getattr(self, a)[u])
        if a in ("leave", "quit", "call"): return self.link[u] in ("up", "kicked")
        return True
    def do(self, x):
        """Returns the segment; None where the schedule cannot be followed."""
        if not self.can(x): return None
        a, u, x = x["a"], x["u"], dict(x)
        ts = u and self.c["cons"][u]["kind"] == "ts"
        leave = [{"t": "disconnect"}] if ts else [{"t": "cli", "k": "disconnected"}, {"t": "close", "k": "ok"}]
        if a == "open":
            self.link[u] = "up"
            self.up[u] = ["connect"]
            out = self.k[u].start("consumer", {"id": 0, "flow": self.cflow(u), "reconnect": 0, "timeout": 1000000, "again": False, "key": self.c["cons"][u]["key"]})
            out += self.k[u].give([{"t": "connect"}] if ts else [{"t": "cli", "k": "connected"}])
            return {"x": x, "out": self.cout(u, out)}
        if a == "up":
            d, x["n"] = self.take("up", u, x["n"])
            if d == "connect": self.known.add(u)
            if d == "disconnect": self.known.discard(u)
            return {"x": x, "out": self.pout(self.p.give({"t": d, "u": u} if isinstance(d, str) else {"t": "raw", "u": u, "hex": d.hex()}))}
        if a == "down":
            d, x["n"] = self.take("down", u, x["n"])
            if isinstance(d, str): self.link[u] = "closed"
            return {"x": x, "out": self.cout(u, self.k[u].give(leave if isinstance(d, str) else [{"t": "raw", "hex": d.hex()}]))}
        if a == "call":
            return {"x": x, "out": self.cout(u, self.k[u].give([{"t": "call", "n": x["tag"], "m": x["m"], "tag": x["tag"], "script": json.dumps(x["s"])}]))}
        if a == "leave":
            if self.link[u] == "up": self.up[u].append("disconnect")
            self.link[u], self.down[u] = "closed", []
            self.part.pop(("down", u), None)
            return {"x": x, "out": self.cout(u, self.k[u].give(leave))}
        if a == "quit": return {"x": x, "out": self.cout(u, self.k[u].give([{"t": "destroy"}] if ts else [{"t": "shutdown", "n": "quit"}]))}
        if a == "event": return {"x": x, "out": self.pout(self.p.give({"t": "event", "e": x["m"], "tag": x["tag"], "script": json.dumps(x["s"])}))}
        if a == "go": return {"x": x, "out": self.pout(self.p.give({"t": "go", "u": u, "h": x["m"]}))}
    def finish(self):
        """What is on its way arrives."""
        segs = []
        for _ in range(400):
            l = [(w, u) for u in self.us for w in ("up", "down") if getattr(self, w)[u]]
            if not l: break
            w, u = self.rng.choice(l)
            segs.append(self.do({"a": w, "u": u, "n": self.rng.randint(1, 3), "m": "", "tag": "", "s": sc()}))
        return segs

class Pool:
    def __init__(self, cmds): self.cmds, self.l = cmds, {}
    def get(self, who, kind):
        if (who, kind) not in self.l:
            self.l[who, kind] = (Producer if who == "p" else Consumer)(self.cmds["p" if who == "p" else "c", kind], kind == "ts")
        return self.l[who, kind]
    def drop(self):
        for p in self.l.values(): p.kill()
        self.l = {}

def run_all(ck, cmds, fls, prints, cases, ws, threads=6):
    todo, done, lock = queue.Queue(), [], threading.Lock()
    for i, w in enumerate(ws): todo.put((i, w))
    faults = [0]
    def work():
        pool = Pool(cmds)
        while faults[0] < 25:
            try: i, (ci, h) = todo.get_nowait()
            except queue.Empty: break
            segs, err, rng = [], None, random.Random(core.SEED * 7919 + i)
            try:
                net = Net(pool, cases[ci], fls, prints, rng)
                for x in h:
                    s = net.do(x)
                    if s is None: break
                    segs.append(s)
                else: segs += net.finish()
            except Broken as e:
                err = str(e)
                pool.drop()
            with lock:
                if err: faults[0] += 1
                done.append((i, ci, h, segs, err))
        pool.drop()
    ts = [threading.Thread(target=work) for _ in range(threads)]
    for t in ts: t.start()
    for t in ts: t.join()
    return sorted(done, key=lambda x: x[0])

def judge(ck, fls, cases, runs, timeout=700):
    d = core.fresh(ck.prop, "judge")
    json.dump(flows_json(fls), open(d + "/flows.json", "w"))
    json.dump(cases, open(d + "/cases.json", "w"))
    rec = [{"id": i, "c": ci + 1, "segs": segs} for i, ci, h, segs, err in runs if err is None]
    json.dump(rec, open(d + "/traces.json", "w"))
    cf = "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANT Emit\nCHECK_DEADLOCK FALSE\n"
    env = {"ST_FLOWS": d + "/flows.json", "ST_CASES": d + "/cases.json", "ST_TRACES": d + "/traces.json", "ST_VERBOSE": "0"}
    t = tlc.run("SystemTrace", cf, d, env=env, timeout=timeout)
    ck.tlc(t)
    ok = {r["ok"] for r in t.records}
    bad = [r for r in rec if r["id"] not in ok]
    why = {}
    if bad:
        json.dump(bad[:10], open(d + "/bad.json", "w"))
        v = tlc.run("SystemTrace", cf, d, env=dict(env, ST_TRACES=d + "/bad.json", ST_VERBOSE="1"), timeout=timeout)
        for r in v.records:
            if "at" in r and r["at"] >= why.get(r["id"], {"at": 0})["at"]: why[r["id"]] = r
    return {r["id"]: why.get(r["id"], {}) for r in bad}

# ------------------------------------------------------------------ crowds ----
# Many consumers and hundreds of calls: too much for the component specifications, judged against the contract alone (CrowdTrace.tla).
MIXES = {"rust": lambda i: "rust", "ts": lambda i: "ts", "both": lambda i: ("rust", "ts")[i % 2], "few": lambda i: "ts" if i % 3 else "rust"}
def crowd_cases(th):
    t1, t2 = flowts.t1(), flowts.t2()
    out = []
    for n, (fl, prod, mix, size, calls) in enumerate([(f, p, m, s, c) for f in (t1, t2) for p in ("rust", "ts") for m, s, c in (
            [("both", 9, 160), ("rust", 7, 160), ("ts", 6, 160), ("few", 2, 560)] + ([("both", 14, 500), ("few", 8, 300), ("rust", 3, 900), ("ts", 3, 900)] if th else []))]):
        cons = [MIXES[mix](i + n // 4) for i in range(size)]
        out.append(dict(case(fl, prod, cons, [], [], calls, calls // 12, 1 if size < 4 else size // 3, 0, C1 if fl is t1 else None), crowd=size))
    return out

def any_to(rng, us):
    """Somebody to tell"""
    x = rng.randrange(9)
    some = rng.sample(us, rng.randint(0, len(us)))
    return ["all", "except", ("list", us), ("list", us[::-1]), ("list", some), ("exclude", some), ("exclude", us[1::2]), ("keyed", ["n%d" % rng.randint(1, len(us))]), "none"][x]

def crowd_run(net, fl, c, rng):
    us = net.us
    ready, calls, evs, leaves = set(), c["calls"], c["events"], c["leaves"]
    segs, nt, mode, left = [], 0, "mix", 0
    reqs, beacons, events = fl.requests, fl.beacons, [e for e in fl.events if e["ref"] not in ("connected", "disconnected")]
    late = {u for u in us if rng.random() < .3}
    def X(a, u="", n=0, m="", tag="", s=None): return {"a": a, "u": u, "n": n, "m": m, "tag": tag, "s": s or sc()}
    for _ in range(40 * c["calls"] + 4000):
        if left == 0: mode, left = rng.choice(["mix", "mix", "talk", "carry", "up", "down", "one"]), rng.choice([5, 15, 30, 30, 60, 150])
        if len(segs) == 150 and net.c["calls"] > 300: mode, left = "one", 300        # more in flight than a byte can number
        left -= 1
        flows = [("up", u) for u in us if net.up[u]] + [("down", u) for u in us if net.down[u]]
        if mode in ("up", "down"): flows = [x for x in flows if x[0] == mode] or flows
        talk = [u for u in sorted(ready) if net.link[u] == "up"]
        fresh = [u for u in us if net.link[u] == "no" and (u not in late or calls < c["calls"] * .7)]
        if mode == "one": talk = talk[:1]
        opts = []
        if flows: opts += ["flow"] * (1 if mode == "talk" else 4 if left < 200 else 0)
        if talk and calls: opts += ["call"] * (6 if mode in ("talk", "one") else 0 if mode == "carry" else 3)
        if talk and evs and calls < c["calls"]: opts += ["event"] if rng.random() < .3 else []
        if fresh: opts += ["open"] if rng.random() < .5 or not ready else []
        if talk and leaves and calls < c["calls"] * .8 and rng.random() < .02: opts += ["leave"] * 5
        if not opts:
            if not flows and not fresh and not (calls and talk): break
            continue
        a = rng.choice(opts)
        if a == "flow":
            w, u = rng.choice(flows)
            x = X(w, u, rng.choice([1, 1, 2, 3, 5, 20, 200]))
        elif a == "open": x = X("open", rng.choice(fresh))
        elif a == "leave":
            leaves -= 1
            x = X(rng.choice(["leave", "quit"]), rng.choice(talk))
        elif a == "event":
            e = rng.choice(events); evs -= 1; nt += 1
            def ev_to():
                y = any_to(rng, us)
                return ("except", [rng.choice(us)]) if y == "except" else y
            x = X("event", m=e["ref"], tag="t%d" % nt, s=sc(b=[ev_to() for _ in e["bc"]]))
        else:
            u = rng.choice(talk); calls -= 1; nt += 1
            if beacons and rng.random() < .15: m, s = rng.choice(beacons), sc()
            else:
                r = rng.choice(reqs); m = r["ref"]; act = rng.choice(r["actions"])
                s = sc(o="err", c=act["conc"] or "") if r["err"] and rng.random() < .15 else sc(c=act["conc"] or "", b=[any_to(rng, us) for _ in act["bc"]])
            x = X("call", u, m=m, tag="t%d" % nt, s=s)
        seg = net.do(x)
        if seg is None: continue
        for o in seg["out"]:
            if o["op"] == "ev" and o["k"] == ("ready" if net.c["cons"][x["u"]]["kind"] == "ts" else "connected"): ready.add(x["u"])
        segs.append(seg)
    return segs

def crowds(ck, cmds, fls, prints, cases, threads=7):
    todo, done, lock = queue.Queue(), [], threading.Lock()
    for i, c in enumerate(cases): todo.put((i, c))
    by = {f.name: f for f in fls}
    def work():
        while True:
            try: i, c = todo.get_nowait()
            except queue.Empty: return
            pool, segs, err, rng = Each(cmds), [], None, random.Random(core.SEED * 104729 + i)
            try: segs = crowd_run(Net(pool, c, fls, prints, rng), by[c["flow"]], c, rng)
            except Broken as e: err = str(e)
            pool.drop()
            with lock: done.append((i, i, [], segs, err))
    ts = [threading.Thread(target=work) for _ in range(threads)]
    for t in ts: t.start()
    for t in ts: t.join()
    done.sort(key=lambda x: x[0])
    d = core.fresh(ck.prop, "crowds")
    json.dump(flows_json(fls), open(d + "/flows.json", "w"))
    json.dump(cases, open(d + "/cases.json", "w"))
    json.dump([{"id": i, "c": ci + 1, "segs": segs} for i, ci, h, segs, err in done if err is None], open(d + "/traces.json", "w"))
    t = tlc.run("CrowdTrace", "CONSTANT FLOW <- FlowDef\nSPECIFICATION Spec\nINVARIANT Emit\nVIEW Shape\nCHECK_DEADLOCK FALSE\n", d, env={"ST_FLOWS": d + "/flows.json", "ST_CASES": d + "/cases.json", "ST_TRACES": d + "/traces.json"}, timeout=700)
    ck.tlc(t)
    ok = {r["ok"]: r for r in t.records if "ok" in r}
    why = {r["id"]: r for r in t.records if "id" in r}
    for i, ci, h, segs, err in done:
        c = cases[ci]
        who = "%s:%s:%d" % (c["flow"], c["prod"], c["crowd"])
        if err: ck.violation("crowd-crash:" + who, "a process of a crowd crashes or hangs: " + err[:200], {"case": c, "segments": segs, "error": err})
        elif i not in ok:
            w = why.get(i, {})
            ck.violation("crowd:%s:%s" % (who, " ".join(w.get("broken", []))), "a crowd: %s; at step %d of %d, on %s" % (", ".join(w.get("broken", ["not judged"])), w.get("at", 0), len(segs), json.dumps(w.get("next"))[:200]),
                         {"case": c, "why": w, "segments": segs[:w.get("at", 0)]})
        else: ck.validated += 1
    ck.notes["crowds"] = [{"producer": c["prod"], "flow": c["flow"], "consumers": c["crowd"], "steps": len(r[3]), "answers": ok.get(r[0], {}).get("answered"), "broadcasts": sum(ok.get(r[0], {}).get("owed", {}).values())} for r, c in zip(done, cases)]
    return len(done)

class Each(Pool):
    """A process for every member of a crowd"""
    def get(self, who, kind):
        k = len(self.l)
        self.l[k] = (Producer if who == "p" else Consumer)(self.cmds["p" if who == "p" else "c", kind], kind == "ts")
        return self.l[k]

def brief(h): return ["%s %s%s" % (x["a"], x["u"], " " + x["m"] if x["m"] else " %d" % x["n"]) for x in h]

def s01(ck):
    th = ck.tier == "thorough"
    t1, t2 = flowts.t1(), flowts.t2()
    for f in (t1, t2): f.targets = ("rust", "typescript")          # the same sources for both languages
    t2x = twin(t2)
    fls = [t1, t2]
    exhaust(ck, fls, small(th))
    ck.log("small instances hold")
    cases = walks(th)
    ws = walk(ck, fls, cases, 4000 if th else 300)
    ck.log("%d walks" % len(ws))
    work = core.fresh(ck.prop, "run")
    w = lambda n: os.path.join(work, n)
    cmds = {("p", "rust"): [flow.build_producers(fls, w("rp"), log=ck.log)], ("c", "rust"): [flow.build_consumers(fls + [t2x], w("rc"), log=ck.log)],
            ("p", "ts"): flowts.build_producers(fls, w("tp"), log=ck.log), ("c", "ts"): flowts.build_consumers(fls + [t2x], w("tc"), log=ck.log)}
    prints = {}
    for f in fls + [t2x]:
        prints["rust", f.name] = flow.prints(f, w("rc"))
        prints["ts", f.name] = flowts.prints(f, w("tc"))
    ck.log("processes built")
    runs = run_all(ck, cmds, fls, prints, cases, ws)
    ck.log("%d runs, %d steps" % (len(runs), sum(len(r[3]) for r in runs)))
    for i, ci, h, segs, err in runs:
        if err:
            ck.violation("crash:%d:%s" % (ci, " ".join(brief(h))[:60]), "a process crashes or hangs: " + err[:200], {"case": cases[ci], "schedule": h, "segments": segs, "error": err})
    bad = judge(ck, fls, cases, runs)
    by = {r[0]: r for r in runs}
    for i, why in sorted(bad.items(), key=lambda x: len(by[x[0]][3]))[:20]:
        _, ci, h, segs, _ = by[i]
        ck.violation("%d:%s" % (ci, " ".join(brief([s["x"] for s in segs[:why.get("at", 0)]]))[-200:]), "a run no behaviour of the specification explains: %s" % json.dumps(why.get("next"))[:250],
                     {"case": cases[ci], "schedule": [s["x"] for s in segs], "stuck": why, "segments": segs})
    ck.validated += len(runs) - len(bad)
    n = crowds(ck, cmds, fls, prints, crowd_cases(th))
    ck.log("%d crowds" % n)
    for r in runs[:: max(1, len(runs) // 5)]: ck.sample({"producer": cases[r[1]]["prod"], "flow": cases[r[1]]["flow"], "consumers": [x["kind"] for x in cases[r[1]]["cons"].values()], "schedule": brief(r[2])})

CHECKS = {"S01": s01}
