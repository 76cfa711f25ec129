"""Running TLC."""
import json, os, re, shutil
from . import core

JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"

class TLC:
    pass

def run(module, cfg, workdir, env=None, workers="8", timeout=600, extra=(), expect_ok=True, simulate=None, heap="6g", jprops=()):
    """Runs TLC on spec/<module>.tla with the given cfg text.  Returns the emitted JSON records and the counts."""
    d = workdir
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(core.SPEC):
        if f.endswith(".tla"):
            shutil.copy(os.path.join(core.SPEC, f), d)
    cfgp = os.path.join(d, module + "_run.cfg")
    with open(cfgp, "w") as f:
        f.write(cfg)
    e = dict(os.environ)
    if env:
        e.update({k: str(v) for k, v in env.items()})
    cmd = ["java", "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", *jprops, "-cp", JAR, "tlc2.TLC", "-noGenerateSpecTE",
           "-config", cfgp, "-workers", str(workers), "-metadir", os.path.join(d, "states_" + module), "-nowarning"]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(d, module + ".tla")]
    r = core.sh(cmd, cwd=d, env=e, timeout=timeout)
    t = TLC()
    t.out = r.stdout
    t.rc = r.returncode
    t.records = []
    for line in r.stdout.splitlines():
        if line.startswith('"{') or line.startswith('"['):
            try:
                t.records.append(json.loads(json.loads(line)))
            except ValueError:
                raise core.CheckError("unreadable TLC record: " + line[:300])
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", r.stdout)
    t.generated, t.states = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r"The number of states generated: (\d+)", r.stdout)
        if m:
            t.generated = t.states = int(m[-1])
    t.ok = "Model checking completed. No error has been found." in r.stdout or (simulate and r.returncode == 0)
    shutil.rmtree(os.path.join(d, "states_" + module), ignore_errors=True)
    if expect_ok and not t.ok:
        tail = "\n".join(l for l in r.stdout.splitlines() if not l.startswith(('"', "Parsing ", "Semantic processing", "Linting", "Computed", "Progress(")))[-3500:]
        raise core.CheckError("TLC failed on %s (rc %s):\n%s\n%s" % (module, r.returncode, tail, r.stderr[-800:]))
    return t

def same(ck):
    """With one worker, the histories found first (one per state of a view) are the same in every quick run."""
    return {} if ck.tier == "thorough" else {"workers": "1", "extra": ["-fp", "1"]}
