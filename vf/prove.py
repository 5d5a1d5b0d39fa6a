"""Discharging obligations with z3 and collecting the results of a proof task."""
import time
import z3
from .sym import b_, simp


SAFETY_ONLY = False          # set for the tasks of C18: only the obligations below are decided
SAFE = ('memory:', 'arithmetic:', 'control flow:', 'termination:')



def relevant(name):
    return name.startswith(SAFE) or 'stays within its maximum' in name or ': stops ' in name


TASK_END = [float('inf')]    # time at which the running task stops proving


class Result:
    """results of one task (picklable)"""

    def __init__(self, task):
        self.task = task
        self.proved = 0
        self.trivial = 0
        self.refuted = []        # (obligation, hints, text)
        self.unknown = []        # obligation names
        self.unsupported = None  # reason the function is outside the verifier's reach
        self.functions = []
        self.contracts = []
        self.time = 0.0
        self.solver = 0.0
        self.names = []
        self.instances = 0


def hints_of(model):
    out = {}
    try:
        for d in model.decls():
            v = model[d]
            if isinstance(v, z3.FuncInterp):
                vals = []
                for i in range(v.num_entries()):
                    e = v.entry(i)
                    if z3.is_bv_value(e.value()):
                        vals.append(e.value().as_long())
                if vals:
                    out[d.name()] = vals[:40]
            elif z3.is_bv_value(v):
                out[d.name()] = v.as_long()
            elif z3.is_true(v) or z3.is_false(v):
                out[d.name()] = int(z3.is_true(v))
    except z3.Z3Exception:
        pass
    return out


class Prover:
    max_refuted = 6

    def __init__(self, ctx, res, timeout=60, budget=600):
        self.ctx, self.res, self.timeout, self.budget = ctx, res, timeout, budget
        self.t0 = time.time()

    def check(self, axioms, pc, goal, timeout, tactic=None):
        s = z3.Solver() if tactic is None else tactic.solver()
        s.set('timeout', int(timeout * 1000))
        for a in axioms:
            s.add(a)
        for p in pc:
            s.add(p)
        s.add(z3.Not(goal))
        t = time.time()
        r = s.check()
        self.res.solver += time.time() - t
        return r, (s.model() if r == z3.sat else None)

    def prove(self, name, pc, goal, need=False):
        """decide pc => goal"""
        if SAFETY_ONLY and not need and not relevant(name):
            return True
        g = z3.simplify(b_(goal))
        self.res.names.append(name)
        if z3.is_true(g):
            self.res.trivial += 1
            return True
        if len(self.res.refuted) >= self.max_refuted:
            self.res.unknown.append(name + ': not tried after other obligations failed')
            return None
        ax = self.ctx.ex.axioms
        left = min(self.budget - (time.time() - self.t0), TASK_END[0] - time.time())
        if left < 1:
            self.res.unknown.append(name + ': time budget')
            return None
        to = min(self.timeout, left)
        r, m = self.check(ax, pc, g, to)
        if r == z3.unsat:
            self.res.proved += 1
            return True
        defs = self.ctx.definitions(list(pc) + [g])
        if defs:
            r2, m2 = self.check(list(ax) + defs, pc, g, to)
            if r2 == z3.unsat:
                self.res.proved += 1
                return True
            r, m = r2, m2
        if r == z3.unknown:
            r, m = self.check(list(ax) + defs, pc, g, to, z3.Then('simplify', 'propagate-values', 'solve-eqs', 'smt'))
            if r == z3.unsat:
                self.res.proved += 1
                return True
        if r == z3.sat:
            h = hints_of(m)
            self.res.refuted.append((name, h, g.sexpr()[:1500]))
            return False
        self.res.unknown.append(name + ': solver gave no answer')
        return None

    def safety(self):
        """the obligations the executor raised on the way"""
        ob = self.ctx.ex.obls
        self.res.trivial += self.ctx.ex.n_trivial
        self.ctx.ex.n_trivial = 0
        todo = list(ob)
        ob.clear()
        for name, pc, c in todo:
            self.prove(name, pc, c)
