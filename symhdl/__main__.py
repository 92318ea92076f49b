import sys, os
sys.dont_write_bytecode = True
_here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for p in (_here, os.environ.get("VERIF_REPO", "/repo")):
    if p in sys.path:
        sys.path.remove(p)
    sys.path.insert(0, p)
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import warnings
warnings.simplefilter("ignore")
from symhdl.runner import main
import symhdl.runner
import threading
sys.setrecursionlimit(1000000)
threading.stack_size(512 * 1024 * 1024)
out = []
def go():
    if sys.argv[1:2] == ["replay"]:
        from symhdl import replay
        out.append(replay.main(sys.argv[2]))
    elif sys.argv[1:2] == ["selftest"]:
        from symhdl import selftest
        out.append(selftest.main(*map(int, sys.argv[2:])))
    else:
        out.append(main(sys.argv[1:]))
th = threading.Thread(target=go)
th.start(); th.join()
sys.stdout.flush()
os._exit(out[0] if out else 2)
