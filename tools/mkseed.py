#!/usr/bin/env python3
"""Development aid: build and try planted bugs. usage: mkseed.py SPEC.py [id ...]
SPEC.py defines SEEDS = [dict(id, prop, file, edits=[(old, new), ...], needs, breaks, demo)]. Writes seeded/<id>/ and reports, in a scratch
copy of /repo: does the patch apply, do the stable tests pass, does the demonstration tell the two apart, does the check catch it."""
import sys, os, json, subprocess, shutil, tempfile, concurrent.futures as cf
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PRE = '''import warnings; warnings.simplefilter("ignore")
from amaranth import *
from amaranth.sim import Simulator
def run(dut, *procs, domain="sync"):
    sim = Simulator(dut); sim.add_clock(1e-6, domain=domain)
    for p in procs: sim.add_sync_process(p, domain=domain)
    sim.run()
def main():
'''
SH = '''#!/bin/bash
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD"
exec /opt/venv/bin/python -W ignore "$D/demo.py"
'''
stable = set(json.load(open("/opt/vp/BASELINE.json")).get("stable", []) or [])
def sh(c, cwd, t=600):
    return subprocess.run(c, shell=True, cwd=cwd, capture_output=True, text=True, timeout=t)
def one(s):
    out = []
    tmp = tempfile.mkdtemp(prefix="seed-", dir="/tmp")
    try:
        R = tmp + "/repo"
        shutil.copytree("/repo", R, ignore=shutil.ignore_patterns("__pycache__"))
        d = "%s/seeded/%s" % (V, s["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.sh", "w").write(SH)
        if s.get("soc"):
            shutil.copy(V + "/props/stubs.py", d + "/soc_stubs.py")
        body = s["demo"].strip("\n")
        open(d + "/demo.py", "w").write(body + "\n")
        r0 = sh("bash %s/demo.sh" % d, R)
        out.append("demo clean rc=%d %s" % (r0.returncode, "" if r0.returncode == 0 else (r0.stdout + r0.stderr)[-600:]))
        for f, old, new in s["edits"]:
            t = open(R + "/" + f).read()
            if t.count(old) != 1:
                return s["id"], ["EDIT %s matches %d times: %r" % (f, t.count(old), old[:60])]
            open(R + "/" + f, "w").write(t.replace(old, new))
        p = sh("git diff", R).stdout
        open(d + "/patch.diff", "w").write(p)
        json.dump(dict(property=s["prop"], needs=s["needs"], what_it_breaks=s["breaks"]), open(d + "/meta.json", "w"), indent=1)
        r1 = sh("bash %s/demo.sh" % d, R)
        out.append("demo patched rc=%d %s" % (r1.returncode, (r1.stdout + r1.stderr).strip()[-160:]))
        if s.get("tests", True):
            r = sh("PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 PYTHONPATH=%s /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 --continue-on-collection-errors "
                   "-o 'python_files=*.py' --ignore=amlib/soc --ignore=amlib/debug --ignore=amlib/stream/uart.py amlib test" % R, R)
            out.append("tests: " + r.stdout.strip().splitlines()[-1])
        c = sh("VERIF_REPO=%s bash %s/check.sh %s quick" % (R, V, s["prop"]), V, 1000)
        out.append("check rc=%d: %s" % (c.returncode, [l for l in c.stdout.splitlines() if "violated" in l or "ERROR" in l][:1] + c.stdout.splitlines()[-1:]))
        ok = r0.returncode == 0 and r1.returncode != 0
        out.append("%s %s" % ("GOOD" if ok else "BAD", "CAUGHT" if c.returncode == 1 else "MISSED"))
    except Exception as e:
        out.append("EXC %r" % e)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return s["id"], out
if __name__ == "__main__":
    g = {"PRE": PRE}
    exec(open(sys.argv[1]).read(), g)
    S = [s for s in g["SEEDS"] if len(sys.argv) < 3 or s["id"] in sys.argv[2:]]
    with cf.ThreadPoolExecutor(3) as ex:
        for i, o in ex.map(one, S):
            print("==", i)
            for l in o: print("  ", l[:400])
            sys.stdout.flush()
