"""Common machinery: building the CLI from /repo, running things, reporting."""
import hashlib, json, os, shutil, subprocess, sys, time, signal

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")          # the registered commands never set VERIF_REPO
BUILD = os.environ.get("VERIF_BUILD", os.path.join(ROOT, "build"))
SPEC = os.path.join(ROOT, "spec")
HARNESS = os.path.join(ROOT, "harness")
SEED = int(os.environ.get("VERIF_SEED", "1") or "1")
EVID = os.environ.get("VERIF_EVIDENCE", os.path.join(ROOT, "evidence"))

def rust_env(extra=None):
    e = dict(os.environ)
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:" + e.get("PATH", "")
    e.update(HOME="/root", RUSTUP_TOOLCHAIN="1.75.0", CARGO_NET_OFFLINE="true", RUSTC_WRAPPER="",
             CARGO_INCREMENTAL="1", CARGO_TERM_COLOR="never", NO_COLOR="1", TERM="dumb")
    e.pop("CARGO_TARGET_DIR", None)
    e.pop("RUSTFLAGS", None)
    if extra:
        e.update(extra)
    return e

class CheckError(Exception):
    """The machinery itself could not give an answer (exit 2)."""

class Broken(CheckError):
    """What the generator made of a fixture cannot be used at all: it is refused, or does not build with the user's part."""
    def __init__(self, key, msg, data=None):
        super().__init__(msg)
        self.key, self.msg, self.data = key, msg, data or {}

def rust_broken(err):
    """The errors of rustc in what cargo said, None when cargo failed for another reason."""
    import re
    m = re.findall(r"^error(?:\[E\d+\])?: (?!could not compile|failed to|linking)[^\n]*\n\s*--> src/[^\n]*", err, re.M)
    return "\n".join(m[:12]) if m else None

def sh(cmd, cwd=None, env=None, timeout=800, input=None, check=False, limit_as=None, merge=False):
    def pre():
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdin=subprocess.PIPE if input is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT if merge else subprocess.PIPE,
                         start_new_session=True, preexec_fn=pre if limit_as else None, text=True, errors="replace")
    try:
        out, err = p.communicate(input, timeout=timeout)
        to = False
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
        to = True
    r = subprocess.CompletedProcess(cmd, -1 if to else p.returncode, out, err or "")
    r.timed_out = to
    if check and r.returncode != 0:
        raise CheckError("command failed (%s): %s\n%s\n%s" % (r.returncode, cmd, out[-3000:], (err or "")[-3000:]))
    return r

def fresh(*parts):
    """A fresh, empty scratch directory under BUILD."""
    d = os.path.join(BUILD, *parts)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d

_cli = None
def build_cli():
    """Builds the clibri CLI from the working tree; returns the path of a private copy of the binary."""
    global _cli
    if _cli:
        return _cli
    target = os.path.join(BUILD, "cli")
    os.makedirs(target, exist_ok=True)
    # cargo goes by the times of the files, which say nothing when a file was replaced by an older one
    h = hashlib.sha256()
    for d, ds, fs in os.walk(REPO + "/cli"):
        if "target" in ds: ds.remove("target")
        ds.sort()
        for f in sorted(fs):
            p = os.path.join(d, f)
            h.update((os.path.relpath(p, REPO) + "\0").encode())
            with open(p, "rb") as fh: h.update(fh.read() + b"\0")
    mark = os.path.join(target, "sources")
    if not os.path.exists(mark) or open(mark).read() != h.hexdigest():
        import glob
        for d in glob.glob(target + "/debug/.fingerprint/clibri-*"): shutil.rmtree(d)
        if os.path.exists(mark): os.remove(mark)
    r = sh(["cargo", "build", "--offline", "--manifest-path", REPO + "/cli/Cargo.toml"],
           env=rust_env({"CARGO_TARGET_DIR": target, "CARGO_PROFILE_DEV_DEBUG": "0"}), timeout=600)
    if r.returncode != 0:
        raise CheckError("the CLI does not build:\n" + r.stderr[-3000:])
    with open(mark, "w") as fh: fh.write(h.hexdigest())
    _cli = os.path.join(target, "debug", "clibri")
    if not os.path.exists(_cli):
        raise CheckError("no CLI binary")
    return _cli

class Gen:
    def __init__(self, rc, out, err, timed_out):
        self.rc, self.out, self.err, self.timed_out = rc, out, err, timed_out
        lines = [l for l in out.splitlines() if l.strip()]
        self.last = lines[-1] if lines else ""
        self.ok = rc == 0 and self.last.startswith("[OK]")
        self.panicked = "panicked at" in err

def gen(args, cwd, timeout=60):
    r = sh([build_cli()] + args, cwd=cwd, timeout=timeout, env=rust_env())
    return Gen(r.returncode, r.stdout, r.stderr, r.timed_out)

def known_findings():
    p = os.path.join(ROOT, "known_findings.json")
    return json.load(open(p)) if os.path.exists(p) else []

def choose(rng, hs, cap):
    """At most cap of the histories (case, (stimulus, ...)); those that show the most stimuli in an order not seen before come first."""
    if len(hs) <= cap: return list(hs)
    hs = list(hs)
    rng.shuffle(hs)
    def shows(c, h):
        x = [v for v in h if v]                                    # 0: part of the prefix
        n = len(x)
        return {(c, x[i], x[j], x[k]) for i in range(n) for j in range(i + 1, n) for k in range(j + 1, n)} | {(c, x[i], x[j]) for i in range(n) for j in range(i + 1, n)} | {(c, v) for v in x}
    seen, out, rest = set(), [], [(h, shows(*h)) for h in hs]
    most = max(len(s) for _, s in rest)
    level = most
    while rest and len(out) < cap and level > 0:
        later = []
        for h, s in rest:
            new = len(s - seen) if len(out) < cap else 0
            if new >= level and len(out) < cap: out.append(h); seen |= s
            else: later.append((h, s))
        rest, level = later, (level * 2) // 3
    return out + [h for h, _ in rest][:cap - len(out)]

class Check:
    """Collects what a check explored and what it found."""
    MAXV = 5
    def __init__(self, prop, tier):
        self.prop, self.tier = prop, tier
        self.t0 = time.time()
        self.states = self.transitions = self.samples_n = self.validated = 0
        self.exhaustive = True
        self.samples = []
        self.assumptions = []
        self.violations = []
        self.known_hit = {}
        self.known = [k for k in known_findings() if k["property"] == prop and not k.get("fixed")]
        self.notes = {}

    def log(self, *a):
        print("[%s %6.1fs]" % (self.prop, time.time() - self.t0), *a, flush=True)

    def tlc(self, r):
        self.states += r.states
        self.transitions += r.generated

    def sample(self, s):
        if len(self.samples) < 6:
            self.samples.append(s if isinstance(s, str) else json.dumps(s)[:600])

    def violation(self, key, what, data=None):
        """key identifies the specific failing input / history; known findings match on it exactly."""
        for k in self.known:
            if key == k["key"] or (k.get("prefix") and key.startswith(k["key"])):
                self.known_hit.setdefault(k["key"], (k, []))[1].append(key)
                return
        for v in self.violations:
            if v["key"] == key:
                return
        self.violations.append({"key": key, "what": what, "data": data})
        if len(self.violations) <= self.MAXV:
            self.log("violation:", key, "--", what[:600])

    def finish(self):
        os.makedirs(EVID, exist_ok=True)
        ev = {"property": self.prop, "tier": self.tier, "seed": SEED, "level": self.level(),
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.validated,
                           "samples": self.samples or ["-"], "exhaustive": self.exhaustive},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.violations)}
        ev["coverage"].update(self.notes)
        with open(os.path.join(EVID, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for key, (k, hits) in sorted(self.known_hit.items()):
            print("KNOWN-FINDING: property=%s %s (%d cases)" % (self.prop, k["what"], len(hits)))
        if self.violations:
            d = os.path.join(BUILD, "replay")
            os.makedirs(d, exist_ok=True)
            p = os.path.join(d, "%s.json" % self.prop)
            with open(p, "w") as f:
                json.dump(self.violations[:50], f, indent=1, default=str)
            print("%d violations" % len(self.violations))
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            return 1
        self.log("held: states=%d transitions=%d validated=%d" % (self.states, self.transitions, self.validated))
        return 0

    def level(self):
        m = os.path.join(ROOT, "MANIFEST.json")
        try:
            for c in json.load(open(m))["checks"]:
                if c["property"] == self.prop:
                    return c["level"]
        except Exception:
            pass
        return "model_checking"
