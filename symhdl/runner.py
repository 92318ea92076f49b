"""Run the harnesses of one property; write evidence; print the verdict."""
import importlib
import inspect
import json
import multiprocessing as mp
import os
import random
import re
import sys
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")


class Harness:
    """One bounded verification problem: fn(m, **cfg) drives a machine."""
    plan = None

    def __init__(self, fn, cfg, name, bounds, tier="quick", timeout=400, chunk=None, kind="qfbv",
                 cosim=2, known=None, weight=1, lin=False):
        self.fn = fn; self.cfg = cfg; self.name = name; self.bounds = bounds; self.tier = tier
        self.timeout = timeout; self.chunk = chunk; self.kind = kind; self.cosim = cosim
        self.known = known; self.weight = weight; self.lin = lin


_REG = {}


def harness(prop, bounds, cfgs=({},), **kw):
    """Decorator: register fn for a property with a list of configurations.
    A configuration may carry _tier='thorough' to be left to the thorough tier, _bounds, _weight."""
    def deco(fn):
        for c in (cfgs if isinstance(cfgs, (list, tuple)) else [cfgs]):
            c = dict(c)
            k = dict(kw)
            for opt in ("tier", "timeout", "chunk", "kind", "weight", "cosim", "known", "lin"):
                if "_" + opt in c:
                    k[opt] = c.pop("_" + opt)
            label = c.pop("_label", None)
            plan = c.pop("_plan", None)
            name = fn.__name__ + ("[" + (label or ",".join("%s=%s" % (a, _short(b)) for a, b in c.items())) + "]" if c else "")
            if plan:
                name = "%s,%s]" % (name.rstrip("]"), plan_name(plan))
            hs = Harness(fn, c, name, bounds, **k)
            hs.plan = expand_plan(plan)
            _REG.setdefault(prop, []).append(hs)
        return fn
    return deco


def plan_name(plan):
    n = ",".join("%s:%s" % (a, b.replace(",", " ")) for a, b in plan.items())
    return n if len(n) < 120 else "%s... (%d schedules)" % (n[:100], len(plan))


def expand_plan(plan):
    """_plan of a configuration: the inputs called <prefix><number> follow the schedule plan[prefix], repeated: comma separated values
    with an optional number of repetitions ("1*40,0,s*3"); s is an arbitrary value; ~7:60:200 is a fixed irregular sequence (number 7) of 200
    bits, 60 percent of them ones."""
    out = {}
    for a, b in (plan or {}).items():
        out[a] = []
        for item in b.split(","):
            if item[0] == "~":
                seed, share, n = map(int, item[1:].split(":"))
                rng = random.Random(seed)
                out[a] += [int(rng.randrange(100) < share) for _ in range(n)]
                continue
            v, _, n = item.partition("*")
            out[a] += [None if v == "s" else int(v, 0)] * int(n or 1)
    return out


def _short(x):
    y = getattr(x, "__name__", str(x))
    return y if len(y) < 60 or not hasattr(x, "__len__") else "%d %s" % (len(x), "octets" if isinstance(x, bytes) else "items")


def load(prop=None):
    d = os.path.join(VERIF, "props")
    mods = sorted(f[:-3] for f in os.listdir(d) if f.endswith(".py") and f != "__init__.py")
    for f in mods:
        if prop is not None:
            src = open(os.path.join(d, f + ".py")).read()
            if '"%s"' % prop not in src:
                continue
        importlib.import_module("props." + f)
    return _REG


def _encoded(m):
    out = []
    seen = set()
    def visit(obj):
        cls = type(obj)
        if cls in seen:
            return
        seen.add(cls)
        try:
            f = inspect.getsourcefile(cls)
            line = inspect.getsourcelines(cls)[1]
            if f and f.startswith(REPO):
                out.append("%s.elaborate (%s:%d)" % (cls.__qualname__, os.path.relpath(f, REPO), line))
        except Exception:
            pass
    for o in m.encoded:
        visit(o)
        for v in list(getattr(o, "__dict__", {}).values()):
            if hasattr(v, "elaborate"):
                visit(v)
    for h in m.notes:
        out.append(h)
    return out


def run_one(args):
    prop, name, seed, budget = args
    h = next(x for x in _REG[prop] if x.name == name)
    return _run(prop, h, seed, budget)


def _run(prop, h, seed, budget):
    from . import terms as t
    from .machine import SymMachine, SimMachine
    from .solve import discharge
    t.reset_table()
    t.LIN = h.lin
    r = dict(harness=h.name, bounds=h.bounds, error=None, violation=None, known=h.known)
    t0 = time.time()
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = SymMachine()
            m.plan = h.plan
            h.fn(m, **h.cfg)
            r["encode_s"] = round(time.time() - t0, 3)
            r["encoded"] = _encoded(m)
            r["cycles"] = m.cycles
            r["inputs"] = len(m.inputs)
            r["input_bits"] = sum(m.inputs.values())
            r["obligations"] = len(m.obligations)
            r["designs"] = [x.stats() for x in m.handles]
            r["terms"] = len(t._table)
            # translation validation: the same harness on pysim, random inputs
            rng = random.Random("%s/%s/%s" % (seed, prop, h.name))
            r["validated"] = 0
            r["compared"] = 0
            if (m.handles or m.log) and not any(n.startswith("not encoded") for n in m.notes):
                for k in range(h.cosim):
                    asg = {n: _rand(rng, w, k) for n, w in m.inputs.items()}
                    s = SimMachine(asg)
                    s.plan = h.plan
                    h.fn(s, **h.cfg)
                    if len(s.log) != len(m.log):
                        raise AssertionError("translation: harness control differs between machines")
                    vals = t.evaluate(m.log, asg)
                    for i, (a, b) in enumerate(zip(vals, s.log)):
                        if a != b.v:
                            raise AssertionError("translation: reading %d of %s: encoding %d, pysim %d"
                                                 % (i, h.name, a, b.v))
                    r["validated"] += 1
                    r["compared"] += len(vals)
            o = discharge(m, timeout_s=min(h.timeout, budget), chunk=h.chunk, kind=h.kind)
            r.update(queries=o.queries, solver_s=round(o.solver_s, 3), folded=o.folded,
                     discharged=o.discharged, covers=o.cover_ok)
            if o.violation:
                asg, failing = o.violation
                s = SimMachine(asg)
                s.plan = h.plan
                h.fn(s, **h.cfg)
                if not s.failures:
                    r["error"] = "counterexample does not reproduce on pysim: %s" % (failing[:4],)
                else:
                    r["violation"] = dict(inputs=asg, failing=s.failures[:20], cycles=s.cycles)
                    r["validated"] += 1
            elif o.unknown:
                r["error"] = "solver gave no answer for %d obligations, first %s" % (len(o.unknown), o.unknown[:3])
            elif o.cover_bad:
                # the solver showed that an event the property promises cannot happen for any input
                if o.any_input is None:
                    r["error"] = "vacuity: the assumptions cannot be met (%s)" % o.cover_bad
                else:
                    s = SimMachine(o.any_input)
                    s.plan = h.plan
                    h.fn(s, **h.cfg)
                    if s.covered & set(o.cover_bad):
                        r["error"] = "unreachability of %s does not reproduce on pysim" % o.cover_bad
                    else:
                        r["violation"] = dict(inputs=o.any_input, cycles=s.cycles,
                                              failing=[("for no input within the bounds: " + n, s.cycles) for n in o.cover_bad])
                        r["validated"] += 1
            elif o.cover_unknown:
                r["error"] = "reachability undecided: %s" % o.cover_unknown
            else:
                for name, asg in o.witness.items():
                    s = SimMachine(asg)
                    s.plan = h.plan
                    h.fn(s, **h.cfg)
                    if name not in s.covered:
                        r["error"] = "reachability witness %s does not reproduce on pysim" % name
                    r["validated"] += 1
                # one witness as a sample
                if o.witness:
                    n, asg = next(iter(o.witness.items()))
                    r["sample"] = dict(witness=n, inputs={k: asg[k] for k in list(asg)[:24]})
            if r["violation"] is None and r["error"] is None and not m.obligations:
                r["error"] = "no obligations"
    except Exception as e:
        r["error"] = "%s: %s" % (type(e).__name__, e)
        r["trace"] = traceback.format_exc()
        if any(os.path.abspath(f.filename).startswith(REPO + "/") for f in traceback.extract_tb(e.__traceback__)):
            # the real code itself refuses a configuration in the property's range
            r["violation"] = dict(inputs={}, failing=[("the code raises " + r["error"], 0)], cycles=0)
            r["error"] = None
        elif isinstance(e, t.Width):
            # every harness fits the documented widths (it runs on the unchanged tree), so a port has changed; confirm on pysim
            try:
                s = SimMachine({})
                s.plan = h.plan
                h.fn(s, **h.cfg)
            except t.Width:
                r["violation"] = dict(inputs={}, failing=[("a port is not as wide as documented: " + str(e), 0)], cycles=0)
                r["error"] = None
            except Exception:
                pass
    r["wall_s"] = round(time.time() - t0, 3)
    return r


def _rand(rng, w, k):
    if w == 0:
        return 0
    if k % 2 and w == 1:
        return int(rng.random() < 0.8)
    if k % 2 and rng.random() < 0.3:
        return rng.choice([0, 1, (1 << w) - 1, 1 << (w - 1)]) & ((1 << w) - 1)
    return rng.getrandbits(w)


def known_findings():
    p = os.path.join(VERIF, "known_findings.jsonl")
    out = {}
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and line.startswith("{"):
                e = json.loads(line)
                if e.get("status") == "known":
                    out[e["id"]] = e
    return out


def is_known(kf, prop, r):
    """the committed known finding that r's violation is, if it is one"""
    k = kf.get(r.get("known"))
    if k and k["property"] == prop and ("failing" not in k or all(n in k["failing"] for n, _ in r["violation"]["failing"])):
        return k


def main(argv):
    prop = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(argv) > 1 and argv[1] in ("quick", "thorough"):
        tier = argv[1]
    only = argv[2] if len(argv) > 2 else None
    seed = int(os.environ.get("VERIF_SEED", "1"))
    limit = float(os.environ.get("VERIF_LIMIT", "800" if tier == "quick" else "5400"))
    t0 = time.time()
    try:
        load(prop)
    except Exception:
        traceback.print_exc()
        return 2
    hs = [h for h in _REG.get(prop, []) if (tier == "thorough" or h.tier == "quick")]
    if only:
        hs = [h for h in hs if only in h.name]
    if not hs:
        print("no harness for", prop)
        return 2
    hs.sort(key=lambda h: -h.weight)
    jobs = int(os.environ.get("VERIF_JOBS", "8"))
    results = []
    tasks = [(prop, h.name, seed, limit * 0.8) for h in hs]
    sys.stdout.flush()
    ctx = mp.get_context("fork")
    with ctx.Pool(min(jobs, len(tasks)), maxtasksperchild=1) as pool:
        asyncs = [(a, pool.apply_async(run_one, (a,))) for a in tasks]
        kf = known_findings()
        deadline = t0 + limit
        done = {}
        while len(done) < len(asyncs):
            for i, (a, x) in enumerate(asyncs):
                if i in done or not x.ready():
                    continue
                try:
                    done[i] = x.get()
                except Exception as e:
                    done[i] = dict(harness=a[1], error="worker: %r" % e, violation=None, known=None)
                if done[i]["violation"] and not is_known(kf, prop, done[i]):
                    # the verdict is in: do not wait long for the remaining harnesses
                    deadline = min(deadline, time.time() + 45)
            if time.time() > deadline:
                for i, (a, x) in enumerate(asyncs):
                    if i not in done:
                        done[i] = dict(harness=a[1], error="no answer within the time limit", violation=None, known=None)
                break
            time.sleep(0.02)
        results = [done[i] for i in range(len(asyncs))]
        pool.terminate()
    rc = 0
    violations = 0
    lines = []
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    for r in results:
        if r["violation"]:
            k = is_known(kf, prop, r)
            if k:
                lines.append("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
                continue
            violations += 1
            f = os.path.join(VERIF, "evidence", "replay-%s-%s.json" % (prop, re.sub(r"[^A-Za-z0-9_]+", "_", r["harness"])[:120]))
            json.dump(dict(property=prop, harness=r["harness"], **r["violation"]), open(f, "w"), indent=1)
            lines.append("violated: %s: %s" % (r["harness"], r["violation"]["failing"][:4]))
            lines.append("VIOLATION property=%s replay=%s" % (prop, f))
            rc = 1
    errs = [r for r in results if r["error"]]
    for r in errs:
        lines.append("ERROR %s: %s" % (r["harness"], r["error"]))
        if os.environ.get("VERIF_DEBUG") and r.get("trace"):
            lines.append(r["trace"])
    if errs and rc == 0:
        rc = 2
    write_evidence(prop, tier, seed, results, time.time() - t0, violations)
    for l in lines:
        print(l)
    ob = sum(r.get("obligations", 0) for r in results)
    print("%s %s: %d harnesses, %d obligations, %d queries, solver %.1f s, wall %.1f s, %s" % (
        prop, tier, len(results), ob, sum(r.get("queries", 0) for r in results),
        sum(r.get("solver_s", 0) for r in results), time.time() - t0,
        "held" if rc == 0 else "VIOLATED" if rc == 1 else "no verdict"))
    if os.environ.get("VERIF_VERBOSE"):
        for r in results:
            print("  %-60s enc %6.2f solve %6.2f wall %6.2f obl %d folded %d terms %d cover %s" % (
                r["harness"], r.get("encode_s", 0), r.get("solver_s", 0), r.get("wall_s", 0),
                r.get("obligations", 0), r.get("folded", 0), r.get("terms", 0), r.get("covers")))
    return rc


def write_evidence(prop, tier, seed, results, wall, violations):
    enc = sorted({e for r in results for e in r.get("encoded", [])})
    samples = []
    for r in results:
        if r.get("sample"):
            samples.append(dict(harness=r["harness"], **r["sample"]))
        if r.get("violation"):
            v = r["violation"]
            samples.append(dict(harness=r["harness"], failing=v["failing"][:3],
                                inputs={k: v["inputs"][k] for k in list(v["inputs"])[:24]}))
    if not samples:
        for r in results[:3]:
            samples.append(dict(harness=r["harness"], obligations=r.get("obligations", 0), bounds=r.get("bounds", "")))
    cov = dict(
        explanation="Each harness executes the real elaborate() output (or function) symbolically; every obligation "
                    "is decided by z3 for all values of the symbolic inputs within the stated bounds.",
        obligations=sum(r.get("obligations", 0) for r in results),
        discharged=sum(r.get("folded", 0) + r.get("discharged", 0) for r in results),
        discharged_by_simplifier=sum(r.get("folded", 0) for r in results),
        discharged_by_solver=sum(r.get("discharged", 0) for r in results),
        solver_queries=sum(r.get("queries", 0) for r in results),
        solver_s=round(sum(r.get("solver_s", 0) for r in results), 3),
        checker_cmd="bash /verif/check.sh %s %s" % (prop, tier),
        trusted_base=["z3", "amaranth 0.4.0 front end", "/verif/symhdl translator (validated against pysim on each run)",
                      "reference models in /verif/props"],
        states=sum(sum(d["register_bits"] for d in r.get("designs", [])) for r in results),
        transitions=sum(r.get("cycles", 0) for r in results),
        traces_validated_against_impl=sum(r.get("validated", 0) for r in results),
        readings_compared_with_pysim=sum(r.get("compared", 0) for r in results),
        symbolic_input_bits=sum(r.get("input_bits", 0) for r in results),
        functions_encoded=enc,
        samples=samples[:6],
        harnesses=[{k: r.get(k) for k in ("harness", "bounds", "cycles", "input_bits", "obligations", "folded",
                                          "discharged", "queries", "solver_s", "encode_s", "wall_s", "covers",
                                          "validated", "error", "known")} for r in results],
    )
    lv = level_of(prop)
    ev = dict(property=prop, tier=tier, seed=seed, level=lv, coverage=cov,
              assumptions=assumptions_of(prop), wall_s=round(wall, 3), violations=violations)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)


def level_of(prop):
    try:
        man = json.load(open(os.path.join(VERIF, "MANIFEST.json")))
        for c in man["checks"]:
            if c["property"] == prop:
                return c["level"]
    except Exception:
        pass
    return "model_checking"


def assumptions_of(prop):
    out = ["states = register bits of the encoded designs (symbolic state space); transitions = symbolic clock "
           "cycles unrolled; every one stands for all values of the symbolic inputs",
           "nothing is claimed beyond the stated bounds and configurations"]
    for h in _REG.get(prop, []):
        if h.bounds not in out:
            out.append(h.bounds)
    return out
