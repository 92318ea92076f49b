"""python -m symhdl.replay FILE: run a stored counterexample on the real code under pysim."""
import json
import sys


def main(path):
    from . import runner
    from .machine import SimMachine
    d = json.load(open(path))
    runner.load(d["property"])
    h = next(x for x in runner._REG[d["property"]] if x.name == d["harness"])
    s = SimMachine(d["inputs"])
    s.plan = h.plan
    print("%s %s" % (d["property"], d["harness"]))
    h.fn(s, **h.cfg)
    for k, v in s.used.items():
        print("  input %s = %d" % (k, v))
    for name, cyc in s.failures:
        print("FAILED at cycle %d: %s" % (cyc, name))
    unreached = [n for n, c in d["failing"] if n.startswith("for no input within the bounds: ")]
    for n in unreached:
        name = n.split(": ", 1)[1]
        print("reached %s" % name if name in s.covered else "NOT REACHED: %s" % name)
    return 1 if s.failures or unreached else 0
