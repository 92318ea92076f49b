"""Print, per property, its harnesses with their bounds and configurations (for DESIGN.md)."""
import sys, collections
sys.dont_write_bytecode = True
sys.path[:0] = ["/verif", "/repo"]
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings; warnings.simplefilter("ignore")
from symhdl import runner
R = runner.load()
for p in sorted(R):
    print("**%s**" % p)
    d = collections.OrderedDict()
    for h in R[p]:
        d.setdefault((h.fn.__name__, h.bounds), []).append(h)
    for (f, b), hs in d.items():
        q = sum(h.tier == "quick" for h in hs)
        print("- `%s` (%d configurations%s): %s" % (f, q, ", %d more in thorough" % (len(hs) - q) if len(hs) > q else "", b))
