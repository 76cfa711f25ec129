"""A line-oriented child process that may crash or hang on any command."""
import json, os, queue, resource, signal, subprocess, threading
from . import core

def drive(cmd, commands, env=None, cwd=None, line_timeout=10, limit_as=None, max_faults=40):
    """Feeds the commands (dicts) to the child, one JSON line each; returns one reply per command.
    A command that kills the child yields {"crash": ...}, one that does not return {"hang": true}."""
    out = []
    i = 0
    faults = 0
    while i < len(commands):
        def pre():
            os.setsid()
            if limit_as:
                resource.setrlimit(resource.RLIMIT_AS, (limit_as, limit_as))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        p = subprocess.Popen(cmd, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, cwd=cwd, preexec_fn=pre)
        q = queue.Queue()
        def rd():
            for l in p.stdout:
                q.put(l)
            q.put(None)
        errbuf = []
        def rde():
            for l in p.stderr:
                if len(errbuf) < 200: errbuf.append(l.decode(errors="replace"))
        def wr(start):
            try:
                for c in commands[start:]:
                    p.stdin.write(json.dumps(c, separators=(",", ":")).encode() + b"\n")
                p.stdin.close()
            except (BrokenPipeError, OSError, ValueError):
                pass
        ts = [threading.Thread(target=rd, daemon=True), threading.Thread(target=rde, daemon=True), threading.Thread(target=wr, args=(i,), daemon=True)]
        for t in ts: t.start()
        bad = None
        while i < len(commands):
            try:
                l = q.get(timeout=line_timeout)
            except queue.Empty:
                bad = {"hang": True}
                break
            if l is None:
                p.wait()
                ts[1].join(1)
                bad = {"crash": "exit %s: %s" % (p.returncode, "".join(errbuf)[-400:])}
                break
            out.append(json.loads(l))
            i += 1
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
        if bad is not None:
            out.append(bad)
            i += 1
            faults += 1
            if faults >= max_faults:
                out += [{"skipped": True}] * (len(commands) - i)
                break
    return out
