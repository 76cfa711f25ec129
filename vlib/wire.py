"""Building and driving the wire harnesses."""
import json, os, re, shutil
from . import core, proc, tlc, proto

ESBUILD = "/opt/veriftools/node/node_modules/.bin/esbuild"

class Wire:
    def __init__(self, work, protocols, rust=True, ts=True, log=print, rust_only=(), files=None):
        """files: name -> (rust file, typescript file) of protocols that are rendered already."""
        self.rust_only = set(rust_only)
        self.files = files or {}
        self.work, self.protocols, self.log = work, protocols, log
        self.bad = {}                # name -> why it could not be used: generation
        self.rust_bad, self.ts_bad = {}, {}
        src = os.path.join(work, "src")
        os.makedirs(src)
        for p in protocols:
            if p.name in self.files:
                for x, ext in zip(self.files[p.name], (".rs", ".ts")): shutil.copy(x, os.path.join(src, p.name + ext))
                continue
            with open(os.path.join(src, p.name + ".prot"), "w") as f:
                f.write(p.text())
            g = core.gen(["-s", p.name + ".prot", "-rs", p.name + ".rs"] + ([] if p.name in self.rust_only else ["-ts", p.name + ".ts"]) + ["-o", "-e"], src)
            if not g.ok:
                self.bad[p.name] = (g.last or g.err)[-300:]
        self.usable = [p for p in protocols if p.name not in self.bad]
        if rust: self.build_rust(src)
        if ts: self.build_ts(src)

    # ---- Rust ----
    def rust_crate(self, mods, src, name):
        d = os.path.join(self.work, name)
        os.makedirs(os.path.join(d, "src"))
        h = os.path.join(core.HARNESS, "wire_rs")
        shutil.copy(os.path.join(h, "Cargo.toml"), d)
        shutil.copy(os.path.join(h, "Cargo.lock"), d)
        for f in ("main.rs", "val.rs"):
            shutil.copy(os.path.join(h, "src", f), os.path.join(d, "src"))
        lines = []
        for p in mods:
            shutil.copy(os.path.join(src, p.name + ".rs"), os.path.join(d, "src", "p_%s.rs" % p.name))
            with open(os.path.join(d, "src", "g_%s.rs" % p.name), "w") as f:
                f.write(p.rust_glue("crate::p_" + p.name))
            lines.append("mod p_%s; mod g_%s;" % (p.name, p.name))
        lines.append("fn module(m: &str) -> Mod { match m { %s _ => panic!(\"no module\") } }" % " ".join(
            "\"%s\" => Mod { pack: g_%s::pack, reader: g_%s::reader, hash: g_%s::hash }," % (p.name, p.name, p.name, p.name) for p in mods))
        with open(os.path.join(d, "src", "mods.rs"), "w") as f:
            f.write("\n".join(lines) + "\n")
        return d

    def cargo(self, d, cmd="build", fmt=()):
        target = os.path.join(core.BUILD, "wire-target")
        return core.sh(["cargo", cmd, "--offline", "--locked", *fmt], cwd=d, env=core.rust_env({"CARGO_TARGET_DIR": target}), timeout=500)

    def build_rust(self, src):
        mods = list(self.usable)
        target = os.path.join(core.BUILD, "wire-target")
        n = 0
        while True:
            n += 1
            d = self.rust_crate(mods, src, "crate%d" % n)
            r = self.cargo(d, "build", ["--message-format", "short"])
            if r.returncode == 0:
                break
            culprits = {}
            for l in (r.stderr + r.stdout).splitlines():
                m = re.match(r"src/([pg])_(\w+)\.rs:\d+:\d+: error(.*)", l)
                if m:
                    culprits.setdefault(m.group(2), []).append((m.group(1), l))
            if not culprits or n > 12:
                raise core.CheckError("the Rust harness does not build:\n" + r.stderr[-3000:])
            for c, ls in culprits.items():
                gen = [l for k, l in ls if k == "p"] or ["a message has not the fields it is defined with: " + ls[0][1]]
                self.rust_bad[c] = gen[0]
            mods = [p for p in mods if p.name not in self.rust_bad]
        self.rust_mods = mods
        self.rust_bin = os.path.join(self.work, "wire_rs")
        shutil.copy(os.path.join(target, "debug", "wire_rs"), self.rust_bin)

    def rust(self, commands, **kw):
        return proc.drive([self.rust_bin], commands, limit_as=kw.pop("limit_as", 1 << 30), **kw)

    # ---- TypeScript ----
    def build_ts(self, src):
        d = os.path.join(self.work, "ts")
        os.makedirs(d)
        h = os.path.join(core.HARNESS, "wire_ts")
        for f in ("val.ts", "main.js"):
            shutil.copy(os.path.join(h, f), d)
        mods = [p for p in self.usable if p.name not in self.rust_only]
        for p in mods:
            shutil.copy(os.path.join(src, p.name + ".ts"), os.path.join(d, "p_%s.ts" % p.name))
            with open(os.path.join(d, "g_%s.ts" % p.name), "w") as f:
                f.write(p.ts_glue("./p_" + p.name))
        while True:
            r = core.sh([ESBUILD, "--bundle", "--platform=node", "--format=cjs", "--outdir=" + os.path.join(d, "dist"), "--log-level=error", "--log-limit=0", "--target=es2020"]
                        + ["g_%s.ts" % p.name for p in mods], cwd=d)
            if r.returncode == 0: break
            names = {p.name for p in mods}
            hits = [(m.group(1), l) for l in r.stderr.splitlines() for m in [re.search(r"\b[pg]_(\w+)\.ts:\d+", l)] if m and m.group(1) in names]
            if not hits: raise core.CheckError("esbuild: " + r.stderr[-2000:])
            for c, l in hits: self.ts_bad.setdefault(c, l.strip() + " " + " ".join(x for x in r.stderr.splitlines() if "ERROR" in x)[:200])
            mods = [p for p in mods if p.name not in self.ts_bad]
        shutil.copy(os.path.join(d, "main.js"), os.path.join(d, "dist", "main.js"))
        self.ts_main = os.path.join(d, "dist", "main.js")
        rs = self.ts([{"o": "h", "m": p.name} for p in mods])
        for p, x in zip(mods, rs):
            if "h" not in x:
                self.ts_bad[p.name] = json.dumps(x)[:300]
        self.ts_mods = [p for p in mods if p.name not in self.ts_bad]

    def ts(self, commands, **kw):
        return proc.drive(["node", "--stack-size=2000", self.ts_main], commands, **kw)

    # ---- ids: learned from what the generated code writes ----
    def learn(self):
        """Message and property ids, read off the bytes the generated Rust code produces for a simple value."""
        cmds = [{"o": "p", "m": p.name, "t": n, "v": p.base_value(n), "s": 1} for p in self.rust_mods for n, _, _ in p.types]
        rs = self.rust(cmds)
        self.ids, self.sig, self.learn_bad = {}, {}, {}
        for c, r in zip(cmds, rs):
            if "b" not in r:
                self.learn_bad[c["m"] + "/" + c["t"]] = json.dumps(r)[:300]
                continue
            b = bytes.fromhex(r["b"])
            p = [q for q in self.protocols if q.name == c["m"]][0]
            d = p.byname[c["t"]][1]
            mid, sig = int.from_bytes(b[0:4], "little"), int.from_bytes(b[4:6], "little")
            props = []
            if d.k == "struct":
                body, pos = b[26:], 0
                try:
                    while pos < len(body):
                        rl = {8: 1, 16: 2, 32: 4, 64: 8}[body[pos + 2]]
                        props.append(int.from_bytes(body[pos:pos + 2], "little"))
                        pos += 3 + rl + int.from_bytes(body[pos + 3:pos + 3 + rl], "little")
                    if len(props) != len(d.f) or pos != len(body):
                        raise KeyError("property count")
                except (KeyError, IndexError) as e:
                    self.learn_bad[c["m"] + "/" + c["t"]] = "layout of %s: %r" % (r["b"], e)
                    continue
            self.ids.setdefault(p.name, {})[c["t"]] = (mid, props)
            self.sig[p.name] = sig

    def model(self, p, work, depth=1, every=0, mutmax=300):
        d = os.path.join(self.work, "tlc_" + p.name)
        os.makedirs(d, exist_ok=True)
        sp = os.path.join(d, "schema.json")
        with open(sp, "w") as f:
            json.dump(p.schema(self.ids[p.name], self.sig[p.name]), f)
        cfg = ("CONSTANTS\n Depth = %d\n MutEvery = %d\n MutMax = %d\nSPECIFICATION Spec\nINVARIANTS RoundTrip OrderFree Emit\nCHECK_DEADLOCK FALSE\n"
               % (depth, every, mutmax))
        return tlc.run("Wire", cfg, d, env={"WIRE_SCHEMA": sp}, workers=work)

    def large(self, p, work, sizes):
        d = os.path.join(self.work, "tlc_large_" + p.name)
        os.makedirs(d, exist_ok=True)
        for n, x in (("schema.json", p.schema(self.ids[p.name], self.sig[p.name])), ("large.json", sizes)):
            with open(os.path.join(d, n), "w") as f: json.dump(x, f)
        cfg = "CONSTANTS\n Depth = 0\n MutEvery = 0\n MutMax = 0\nSPECIFICATION LSpec\nINVARIANT LEmit\nCHECK_DEADLOCK FALSE\n"
        return tlc.run("WireLarge", cfg, d, env={"WIRE_SCHEMA": d + "/schema.json", "WIRE_LARGE": d + "/large.json"}, workers=work)

EXTS = [[0], [1, 2, 8], [255, 255, 64] + [255] * 8, [255, 255, 64, 0, 0, 0, 0, 0, 0, 0, 64], [255, 255, 64] + [255] * 7 + [127],
        [255, 255, 32, 255, 255, 255, 255], [255, 255, 33, 1, 1], [255, 255, 16, 1], [255], [255, 255], [255, 255, 8]]

def apply(b, m, i):
    """Mirror of Wire!Apply."""
    b = list(b)
    if m == "cut": return b[:i - 1]
    if m == "inc": b[i - 1] = (b[i - 1] + 1) % 256; return b
    if m == "dec": b[i - 1] = (b[i - 1] + 255) % 256; return b
    if m == "max": b[i - 1] = 255; return b
    if m == "hi": b[i - 1] = (b[i - 1] + 128) % 256; return b
    if m == "del": return b[:i - 1] + b[i:]
    if m == "ext": return b + EXTS[i - 1]
    raise KeyError(m)

def package(h, body):
    """The package with the given header template around another body."""
    return bytes(h[:18]) + len(body).to_bytes(8, "little") + bytes(body)
