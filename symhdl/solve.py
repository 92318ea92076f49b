"""Discharge the obligations of a SymMachine with z3."""
import time
from . import terms as t


class Outcome:
    def __init__(self):
        self.queries = 0
        self.solver_s = 0.0
        self.folded = 0
        self.discharged = 0
        self.violation = None      # (assignment, [(name, cycle)...])
        self.unknown = []
        self.cover_ok = []
        self.cover_bad = []
        self.cover_unknown = []
        self.witness = {}
        self.any_input = None


def _solver(timeout_s, kind):
    import z3
    if kind == "smt":
        s = z3.Solver()
    elif kind == "sat":
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "elim-uncnstr", "simplify", "bit-blast", "sat").solver()
    else:
        s = z3.SolverFor("QF_BV")
    s.set("timeout", int(max(1, timeout_s) * 1000))
    return s


def _assignment(model, bridge, inputs):
    import z3
    out = {}
    for name, w in inputs.items():
        if w == 0:
            out[name] = 0
        elif w == 1:
            out[name] = int(z3.is_true(model.eval(z3.Bool(name), model_completion=True)))
        else:
            out[name] = model.eval(z3.BitVec(name, w), model_completion=True).as_long()
    return out


def discharge(m, timeout_s=300, chunk=None, kind="qfbv", cover_timeout_s=60):
    import z3
    o = Outcome()
    br = t.Z3Bridge()
    todo = []
    for name, cyc, pc, cond in m.obligations:
        bad = t.band(pc, t.bnot(cond))
        if bad.op == "k" and not bad.v:
            o.folded += 1
            continue
        todo.append((name, cyc, bad))
    deadline = time.time() + timeout_s
    if chunk is None or chunk <= 0:
        chunk = max(1, len(todo))
    i = 0

    def query(batch):
        s = _solver(deadline - time.time(), kind)
        conds = [br.cond(b) for _, _, b in batch]
        s.add(z3.Or(*conds) if len(conds) > 1 else conds[0])
        t0 = time.time()
        r = s.check()
        o.solver_s += time.time() - t0
        o.queries += 1
        return r, s

    while i < len(todo):
        batch = todo[i:i + chunk]
        if time.time() > deadline:
            o.unknown += [(n, c) for n, c, _ in todo[i:]]
            break
        r, s = query(batch)
        if r == z3.unsat:
            o.discharged += len(batch)
            i += len(batch)
        elif r == z3.sat:
            asg = _assignment(s.model(), br, m.inputs)
            vals = t.evaluate([b for _, _, b in todo], asg)
            failing = [(n, c) for (n, c, _), v in zip(todo, vals) if v]
            o.violation = (asg, failing)
            break
        elif len(batch) > 1 and time.time() < deadline:
            chunk = max(1, len(batch) // 4)
        else:
            o.unknown += [(n, c) for n, c, _ in batch]
            i += len(batch)
    if o.violation is None and not o.unknown:
        byname = {}
        for name, pc, cond in m.covers:
            byname.setdefault(name, []).append(t.band(pc, cond))
        for name, conds in byname.items():
            live = [c for c in conds if not (c.op == "k" and not c.v)]
            if not live:
                o.cover_bad.append(name)
                continue
            s = _solver(cover_timeout_s, kind)
            cs = [br.cond(c) for c in live]
            s.add(z3.Or(*cs) if len(cs) > 1 else cs[0])
            t0 = time.time()
            r = s.check()
            o.solver_s += time.time() - t0
            o.queries += 1
            if r == z3.sat:
                o.cover_ok.append(name)
                o.witness[name] = _assignment(s.model(), br, m.inputs)
            elif r == z3.unsat:
                o.cover_bad.append(name)
            else:
                o.cover_unknown.append(name)
        if o.cover_bad:
            s = _solver(cover_timeout_s, kind)
            s.add(br.cond(m.pc))
            if s.check() == z3.sat:
                o.any_input = _assignment(s.model(), br, m.inputs)
    return o
