"""F01..F03: the stream reader (spec/Framing.tla)."""
import json, os, random
from vlib import core, wire, proto, tlc

def proto_f():
    return proto.Protocol("framing", proto.S("Empty"), proto.S("One", proto.F("u8", "a")),
        proto.S("Text", proto.F("str", "s"), proto.F("u32", "n", opt=True)),
        proto.E("En", proto.F("u8", "a"), proto.F("str", "b")),
        proto.G("G", proto.S("Inner", proto.F("u64", "x"), proto.F("u16", "y", rep=True))))

GOOD = [("Empty", []), ("One", [[7]]), ("Text", [[104, 101, 108, 108, 111], [[1, 2, 3, 4]]]), ("En", [1, [97, 98]]), ("G.Inner", [[1, 2, 3, 4, 5, 6, 7, 8], [[1, 1], [2, 2]]])]

# packages larger than the buffers and number types along the way; they take part in the random streams only
BIG = [("Text", [[97 + i % 26 for i in range(n)], []]) for n in (300, 65535, 70000)]

# one beyond 20 bits, in a few streams
HUGE = ("Text", [[97 + i % 26 for i in range(1100000)], [[1, 2, 3, 4]]])

def kinds(w, p, bad, huge=False):
    """The packages: bytes as the generated Rust code writes them, damaged where they have to be refused."""
    out = []
    big = [] if bad else BIG + [HUGE] * huge
    rs = w.rust([{"o": "p", "m": p.name, "t": t, "v": v, "s": 0} for t, v in GOOD + big])
    for (t, v), r in zip(GOOD + big, rs):
        if "b" not in r: raise core.Broken("pack:" + t, "cannot pack %s: %s" % (t, r))
        out.append({"k": "good", "t": t, "v": v, "b": bytes.fromhex(r["b"])})
    if bad:
        out = [out[0], out[2], out[3]]
        txt = out[1]["b"]
        out.append({"k": "sig", "b": txt[:4] + bytes([txt[4] ^ 0x5a]) + txt[5:]})
        out.append({"k": "id", "b": b"\xff\xff\xff\x7f" + txt[4:]})
        b = bytearray(txt); b[29] = 200      # the declared size of the first property exceeds the body
        out.append({"k": "body", "b": bytes(b)})
        out.append({"k": "id", "b": b"\xfe\xff\xff\x7f" + txt[4:18] + bytes(8)})      # unknown id, no body
    for k in out: k["n"] = len(k["b"])
    return out

def run(ck, lang, bad):
    th = ck.tier == "thorough"
    p = proto_f()
    w = wire.Wire(core.fresh(ck.prop, "wire"), [p], log=ck.log, ts=(lang != "rust"))
    for why in list(w.bad.values()) + list(w.rust_bad.values()) + (list(w.ts_bad.values()) if lang != "rust" else []):
        raise core.Broken("unusable", "the protocol cannot be used: " + why)
    for ln in (("rust", "ts") if lang == "both" else (lang,)):
        one(ck, w, p, ln, bad, th)

def one(ck, w, p, lang, bad, th):
    ks = kinds(w, p, bad, not bad)
    every = len(ks) if bad else len(ks) - 1
    d = core.fresh(ck.prop, "tlc_" + lang)
    small = ks if bad else ks[:len(GOOD)]
    json.dump([{"n": k["n"], "k": k["k"]} for k in small], open(d + "/kinds.json", "w"))
    cases, seen = [], set()
    for maxp, maxc in (((3, 2), (2, 3), (1, 4)) if not th else ((4, 2), (3, 3), (2, 4), (1, 5))):
        cfg = "CONSTANTS\n MaxPackages = %d\n MaxChunks = %d\n Bad = %s\n rec = rec\n step = step\nSPECIFICATION Spec\nINVARIANTS ExactlyComplete OnlyGoodInOrder NothingLost Progress Emit\nCHECK_DEADLOCK FALSE\n" % (maxp, maxc, "TRUE" if bad else "FALSE")
        cfg = cfg.replace(" rec = rec\n step = step\n", "")
        t = tlc.run("FramingGen", cfg, d, env={"FR_KINDS": d + "/kinds.json"}, timeout=700)
        ck.tlc(t)
        for r in t.records:
            k = json.dumps(r)
            if k not in seen:
                seen.add(k); cases.append((r["p"], r["h"]))
    # chunkings beyond the enumerated ones: one byte at a time, all at once, and random cuts of longer streams
    rng = random.Random(core.SEED * 31 + 7)
    good = [i + 1 for i, k in enumerate(small) if k["k"] == "good"]
    for _ in range(3000 if th else 400):
        n = rng.randint(1, 9)
        pk = [rng.randint(1, every) if bad else rng.choice(good) for _ in range(n)]
        tot = sum(ks[i - 1]["n"] for i in pk)
        k = rng.random()
        cuts = list(range(1, tot)) if k < 0.1 else ([] if k < 0.2 else sorted(rng.choices(range(0, tot + 1), k=rng.randint(1, 12))))
        cuts = [0] + cuts + [tot]
        cases.append((pk, [b - a for a, b in zip(cuts, cuts[1:])]))
    for x in range(0 if bad else 400 if th else 60):
        pk = [rng.choice(good) for _ in range(rng.randint(0, 3))]
        for _ in range(rng.randint(1, 3)): pk.insert(rng.randint(0, len(pk)), rng.randint(len(small) + 1, every))
        ends = [sum(ks[i - 1]["n"] for i in pk[:j]) for j in range(len(pk) + 1)]
        step = rng.choice([0, 1000, 1024, 4096, 16384, 65536])
        cuts = list(range(step, ends[-1], step)) if step else [c for e in ends for c in (e - 1, e, e + 25, e + 26, e + 65535, e + 65536) if rng.random() < 0.4]
        cuts = [0] + sorted(c for c in set(cuts) if 0 < c < ends[-1]) + [ends[-1]]
        cases.append((pk, [b - a for a, b in zip(cuts, cuts[1:])]))
    # very many packages in one call
    for n in ([] if bad else [300, 1500]):
        pk = [rng.choice(good) for _ in range(n)]
        tot = sum(ks[i - 1]["n"] for i in pk)
        cases += [(pk, [tot]), (pk, [tot // 2, tot - tot // 2])]
    # many packages in one call, many of them refused
    for n in ([20, 40, 90] if bad else []):
        for share in (0.2, 0.6, 1):
            pk = [rng.choice([i + 1 for i, k in enumerate(ks) if k["k"] != "good"]) if rng.random() < share else rng.choice(good) for _ in range(n)] + [good[0]]
            tot = sum(ks[i - 1]["n"] for i in pk)
            cases += [(pk, [tot]), (pk, [tot // 2, tot - tot // 2])]
    if not bad:
        pk = [good[0], len(ks), good[1], good[2]]
        tot, step = sum(ks[i - 1]["n"] for i in pk), 65536
        cases += [(pk, [tot]), (pk, [step] * (tot // step) + [tot % step]), (pk, [tot - 60, 60])]
    json.dump([{"n": k["n"], "k": k["k"]} for k in ks], open(d + "/kinds.json", "w"))
    ck.log("%s: %d chunkings" % (lang, len(cases)))
    cmds = []
    for pk, h in cases:
        b = b"".join(stamp(ks[i - 1]["b"], 1000 + j) for j, i in enumerate(pk))
        cs, pos = [], 0
        for n in h:
            cs.append(b[pos:pos + n].hex()); pos += n
        # further calls without data, one per refused package, let the reader finish
        cs += [""] * sum(1 for i in pk if ks[i - 1]["k"] != "good")
        cmds.append({"o": "r", "m": p.name, "c": cs})
    rs = (w.rust if lang == "rust" else w.ts)(cmds)
    recs, back = [], []
    for (pk, h), c, r in zip(cases, cmds, rs):
        key = "%s:%s:%s" % (lang, "-".join("%d" % i for i in pk), "-".join(str(len(x) // 2) for x in c["c"]))
        what = {"lang": lang, "packages": [ks[i - 1]["k"] + ":" + ks[i - 1].get("t", "") for i in pk], "chunks": [len(x) // 2 for x in c["c"]], "bytes": c["c"], "read": r}
        if "skipped" in r: continue
        if "r" not in r:
            ck.violation(key, "the reader fails on %s: %s" % (json.dumps(what["packages"]), json.dumps(r)[:300]), what); continue
        o = []
        for x, ch in zip(r["r"], c["c"]):
            dl = []
            for m in x[1]:
                i = m[4] - 1000
                ok = 0 <= i < len(pk) and ks[pk[i] - 1]["k"] == "good" and ks[pk[i] - 1]["t"] == m[0] and ks[pk[i] - 1]["v"] == m[1] \
                    and m[2] == int.from_bytes(ks[pk[i] - 1]["b"][:4], "little") and (m[5] is None or m[5] == ks[pk[i] - 1]["n"] - 26)
                dl.append(i + 1 if ok else 0)
            o.append({"n": len(ch) // 2, "e": x[0] != "ok", "d": dl, "l": x[2]})
        recs.append({"p": pk, "c": o}); back.append((key, what))
    good_n = 0
    for lo in range(0, len(recs), 40000):
        part = recs[lo:lo + 40000]
        json.dump(part, open(d + "/records.json", "w"))
        cfg = "CONSTANTS\n MaxPackages = 0\n MaxChunks = 0\n Bad = %s\nSPECIFICATION JSpec\nINVARIANT JEmit OnlyGoodInOrder NothingLost\nCHECK_DEADLOCK FALSE\n" % ("TRUE" if bad else "FALSE")
        t = tlc.run("Framing", cfg, d, env={"FR_KINDS": d + "/kinds.json", "FR_RECORDS": d + "/records.json"}, timeout=700)
        ck.tlc(t)
        ok = set(r["ok"] for r in t.records)
        good_n += len(ok)
        for i in range(len(part)):
            if i + 1 not in ok:
                key, what = back[lo + i]
                ck.violation(key, "%s cut into %s: observed %s, which the specification does not allow" % (
                    json.dumps(what["packages"]), what["chunks"], json.dumps(part[i]["c"])[:400]), dict(what, observed=part[i]["c"]))
    ck.validated += len(recs)
    ck.notes["chunkings_" + lang] = len(recs)
    if recs: ck.sample(recs[len(recs) // 2]); ck.sample(recs[-1])

def stamp(b, seq): return b[:6] + seq.to_bytes(4, "little") + b[10:]

# ---- F04: the packing middleware ----
def mw(ck):
    th = ck.tier == "thorough"
    p = proto_f()
    w = wire.Wire(core.fresh(ck.prop, "wire"), [p], log=ck.log)
    for why in list(w.bad.values()) + list(w.rust_bad.values()) + list(w.ts_bad.values()):
        raise core.Broken("unusable", "the protocol cannot be used: " + why)
    ks = kinds(w, p, False)[:len(GOOD)]
    d = core.fresh(ck.prop, "tlc")
    json.dump([{"b": list(k["b"][26:]), "id": int.from_bytes(k["b"][:4], "little")} for k in ks], open(d + "/kinds.json", "w"))
    env = {"MW_KINDS": d + "/kinds.json"}
    cases, seen = [], set()
    def add(t):
        ck.tlc(t)
        for r in t.records:
            k = json.dumps(r)
            if k not in seen: seen.add(k); cases.append(r["h"])
    base = "CONSTANTS\n MaxSteps = %d\n MaxUnread = %d\nSPECIFICATION Spec\nINVARIANTS Within AllThrough NoMix %s\nCHECK_DEADLOCK FALSE\n"
    add(tlc.run("Middleware", base % ((6, 2, "Emit") if th else (4, 2, "Emit")) + "VIEW Shape\n", d, env=env, timeout=700, **tlc.same(ck)))
    n = 4000 if th else 600
    add(tlc.run("Middleware", base % (40, 4, "WalkEmit"), d, env=env, timeout=300, workers="1", simulate="num=%d" % n, extra=["-seed", str(core.SEED), "-depth", "41"]))
    cap = 60000 if th else 6000
    rng = random.Random(core.SEED)
    if len(cases) > cap: cases = rng.sample(cases, cap)
    cmds = [{"o": "w", "m": p.name, "h": [dict(e, t=ks[e["k"] - 1]["t"], v=ks[e["k"] - 1]["v"]) if e["a"] == "pack" else e for e in h]} for h in cases]
    ck.log("%d histories" % len(cmds))
    rs = w.ts(cmds)
    recs, back = [], []
    for h, c, r in zip(cases, cmds, rs):
        key = "mw:" + json.dumps(h)
        if "h" not in r:
            if "skipped" not in r: ck.violation(key, "the generated code fails under a packing middleware: %s" % json.dumps(r)[:300], {"history": h, "answer": r})
            continue
        rec, sent = [], []
        for e, o in zip(h, r["h"]):
            if e["a"] == "switch": rec.append(e); continue
            if e["a"] == "pack":
                b = bytes.fromhex(o["b"])
                x = dict(e, thrown=o["thrown"], calls=o["calls"])
                if not o["thrown"]:
                    # the header's words as integers the specification can hold
                    x.update(id=int.from_bytes(b[:4], "little"), rq=int.from_bytes(b[6:10], "little"), len=min(int.from_bytes(b[18:26], "little"), 1 << 30), body=list(b[26:]))
                if not e["no"]: sent.append((e["k"], e["q"]))
                rec.append(x); continue
            dl = []
            for m in o["d"]:
                i = [j for j, (k, q) in enumerate(sent) if q == m[3]]
                ok = len(i) == 1 and ks[sent[i[0]][0] - 1]["t"] == m[0] and ks[sent[i[0]][0] - 1]["v"] == m[1] and m[2] == int.from_bytes(ks[sent[i[0]][0] - 1]["b"][:4], "little")
                dl.append(i[0] + 1 if ok else 0)
            rec.append({"a": "feed", "n": o["n"], "u": e["u"], "e": o["e"], "d": dl, "l": o["l"], "calls": o["calls"]})
        recs.append(rec); back.append((key, {"history": h, "observed": rec, "kinds": [{"message": k["t"], "value": k["v"]} for k in ks]}))
    for lo in range(0, len(recs), 20000):
        part = recs[lo:lo + 20000]
        json.dump(part, open(d + "/records.json", "w"))
        cfg = "CONSTANTS\n MaxSteps = 0\n MaxUnread = 0\nSPECIFICATION JSpec\nINVARIANTS JEmit Within\nCHECK_DEADLOCK FALSE\n"
        t = tlc.run("MiddlewareTrace", cfg, d, env=dict(env, MW_RECORDS=d + "/records.json"), timeout=700)
        ck.tlc(t)
        ok = set(r["ok"] for r in t.records)
        bad = [i for i in range(len(part)) if i + 1 not in ok]
        if bad:
            i = min(bad, key=lambda i: len(part[i]))
            json.dump([part[i]], open(d + "/records.json", "w"))
            t = tlc.run("MiddlewareTrace", cfg.replace("JEmit", "JWhere"), d, env=dict(env, MW_RECORDS=d + "/records.json"))
            at = max(r["s"] for r in t.records)
            for i in [i] + [x for x in bad if x != i]:
                key, what = back[lo + i]
                ck.violation(key, "under a packing middleware: %s, which the specification does not allow" % json.dumps(part[i][at] if at < len(part[i]) else part[i])[:500], what)
                at = len(part[i])
    ck.validated += len(recs)
    ck.notes["histories"] = len(recs)
    if recs: ck.sample(recs[0]); ck.sample(recs[-1])

ASSUME = ["five message shapes (empty, one scalar, strings and optional, enum, grouped with array), up to 3 packages with enumerated cuts, up to 9 with random cuts, packages of up to 1.1 MB, calls of up to 1500 packages and of up to 90 refused ones",
          "TypeScript run through esbuild (no type check) on node"]
def F01(ck): ck.assumptions += ASSUME[:1]; run(ck, "rust", False)
def F02(ck): ck.assumptions += ASSUME; run(ck, "ts", False)
def F03(ck): ck.assumptions += ASSUME; run(ck, "both", True)
def F04(ck):
    ck.assumptions += [ASSUME[0].split(",")[0] + ", three middlewares (growing, shrinking and emptying the body), installed, exchanged and removed while packages lie between writer and reader", ASSUME[1]]
    mw(ck)
CHECKS = {"F01": F01, "F02": F02, "F03": F03, "F04": F04}
