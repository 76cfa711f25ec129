"""Runs scenarios against what the CLI built in the current tree generates, in a scratch directory."""
import os, shutil, sys, tempfile, atexit
HERE = os.path.dirname(os.path.abspath(__file__))
W = tempfile.mkdtemp()
atexit.register(lambda: shutil.rmtree(W, ignore_errors=True))
os.environ.update(VERIF_REPO=os.getcwd(), VERIF_BUILD=os.path.join(W, "b"), VERIF_EVIDENCE=os.path.join(W, "e"), VERIF_SEED="1")
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from vlib import core, flow, flowts, proc
from checks import p, c, t
core._cli = os.path.join(os.getcwd(), "cli", "target", "release", "clibri")

def fail(why, *trace):
    print(why)
    for x in trace: print("   ", x)
    sys.exit(1)
def one(l): return [x if isinstance(x, list) else [x] for x in l]
class Ck:
    def violation(self, key, what, data=None): fail(what, data)
def rust_producer(fl, bursts, **k):
    b = flow.build_producers([fl], core.fresh("d"))
    (i, c_, bs, tr), = p.drive(Ck(), b, [fl], [(p.case(fl, [], [], 0, **k), one(bursts))])
    return p.canon(tr, bs)
def rust_consumer(fl, bursts, **k):
    w = core.fresh("d")
    b = flow.build_consumers([fl], w)
    (i, c_, bs, tr), = c.drive(Ck(), b, [(c.case(fl, [], [], 0, **k), one(bursts))])
    return c.canon(tr, bs, fl, flow.prints(fl, w))
def ts_producer(fl, bursts, **k):
    b = flowts.build_producers([fl], core.fresh("d"))
    (i, c_, bs, tr), = t.drive(Ck(), b, [fl], [(t.case(fl, [], [], 0, **k), one(bursts))])
    return t.canon(tr, bs)
def ts_consumer(fl, bursts):
    w = core.fresh("d")
    b = flowts.build_consumers([fl], w)
    (i, c_, bs, tr), = t.cdrive(Ck(), b, [(t.ccase(fl, [], [], 0), one(bursts))])
    return t.ccanon(tr, bs, fl, flowts.prints(fl, w))
