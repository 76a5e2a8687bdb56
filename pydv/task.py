"""A verification task: one function of the repository against its contract."""
import os
import time
import traceback
import z3
from . import univ as u
from .front import Repo, Ext
from .vals import *
from . import ex as X
from .ex import Ex, St, Obligation, isz, toz, tobool, toStr
from .solve import Prover, safe_check

REPO = os.environ.get('VERIF_REPO', '/repo')   # (the variable is for testing the engine on mutated copies)
_repo = {}


def repo():
    if 'r' not in _repo:
        _repo['r'] = Repo(REPO)
    return _repo['r']


class Task:
    """Collects obligations for one function and discharges them."""

    def __init__(self, name, prop, trace=False):
        self.name, self.prop, self.trace = name, prop, trace
        self.results = []           # (obligation name, status, backend, seconds, detail)
        self.trusted = []           # assumptions this task leaves unchecked
        self.functions = set()      # functions whose bodies were verified
        self.assumed = set()        # contracts used at call sites (proved by other tasks)
        self.error = None
        self.covers = 0
        self.budget = 1.0
        self.only = None

    def engine(self, axioms=(), **kw):
        ex = Ex(repo(), axioms=list(axioms), **kw)
        pr = Prover(axioms, self.trace)
        ex.trace = self.trace
        ex.solve_inv = lambda hyps, g: pr.quick(hyps, g)
        self.ex, self.prover = ex, pr
        return ex

    def trust(self, s):
        if s not in self.trusted:
            self.trusted.append(s)

    def prove(self, name, hyps, goal, where=''):
        if self.only and self.only not in name:
            return True
        t0 = time.time()
        self.bad = getattr(self, 'bad', 0)
        if self.bad >= 6 and not self.trace:
            # enough is known: the contract does not hold for this text
            self.results.append(dict(obligation=f'{self.name}: {name}', status='not tried', backend='', seconds=0, where=where, model=''))
            return False
        if self.bad >= 2:
            self.budget = min(self.budget, 0.2)
        st, be, dt, model = self.prover.solve(hyps, tobool(goal), self.budget)
        if st != 'proved':
            self.bad += 1
        self.results.append(dict(obligation=f'{self.name}: {name}', status=st, backend=be, seconds=round(dt, 3), where=where, model=model))
        if self.trace and (st != 'proved' or dt > 1):
            print(f'    {st:8} {be:8} {dt:6.2f}s {name} {where}')
        return st == 'proved'

    def cover(self, hyps):
        """At least one normal exit must not be refutable."""
        s = self.prover._solver(False, 2000000, 10000)
        s.add(*self.prover.all_axioms())
        s.add(*hyps)
        r, _ = safe_check(s)
        if r == 'crashed':
            s = self.prover._solver(False, 2000000, 10000, 5)
            s.add(*self.prover.all_axioms())
            s.add(*hyps)
            r, _ = safe_check(s)
        if r != 'unsat':
            self.covers += 1
            return True
        return False

    def discharge(self, ex):
        """Obligations the executor collected on the way (callee preconditions and the like)."""
        for o in ex.obligs:
            self.prove(o.name, o.hyps, o.goal, o.where)
        ex.obligs = []
        self.functions |= ex.functions

    def check_fn(self, ex, st, qual, args, ensures, raises=None, kwargs=None, fn=None, label=None):
        """Run a function and prove its contract.

        ensures(st, result) -> [(name, formula[, facts to leave out])] for every normal exit;
        raises(st, exc) -> None (not allowed) or [(name, formula)] for every exceptional exit.
        """
        fn = fn or repo().get(qual)
        label = label or qual.split(':')[1]
        outs = ex.call_entry(st, fn, args, kwargs or {})
        alive = False
        nexit = 0
        for s, r in outs:
            nexit += 1
            if isinstance(r, X.Exc):
                allowed = raises(s, r) if raises is not None else None
                if allowed is None:
                    self.prove(f'{label} never raises {clsname(r.cls)} here', s.pc, z3.BoolVal(False), f'line {getattr(r.node, "lineno", "?")}')
                else:
                    for nm, g in allowed:
                        self.prove(f'{label} {nm}', s.pc, g, f'raise at line {getattr(r.node, "lineno", "?")}')
                continue
            if not alive and self.cover(s.pc):
                alive = True
                if os.environ.get('PYDV_CONSISTENT'):       # (see consistent.py)
                    self.prove(f'{label} FALSE', s.pc, z3.BoolVal(False), f'exit {nexit}')
            for nm, g, *drop in ensures(s, r):
                # (facts that only distract may be left out)
                self.prove(f'{label} {nm}', [f for f in s.pc if not drop or not any(f.eq(x) for x in drop[0])], g, f'exit {nexit}')
        self.discharge(ex)
        if not alive and not self.only:
            self.results.append(dict(obligation=f'{self.name}: some normal exit is reachable', status='vacuous', backend='z3', seconds=0, where='', model=''))

    def check_all(self, goals, hyps=()):
        for nm, g in goals:
            self.prove(nm, list(hyps), g)


def run_task(mod, fname, prop, trace=False, only=None):
    """Run one task function of a contract module (in a worker process). Returns a plain dict."""
    import importlib
    t0 = time.time()
    u.reset_fresh()
    m = importlib.import_module(mod)
    f = getattr(m, fname)
    t = Task(fname, prop, trace)
    t.only = only
    try:
        f(t)
        if getattr(t, 'ex', None) is not None:
            t.functions |= t.ex.functions
    except Unsupported as e:
        t.error = f'outside the verifiable subset: {e}'
        if trace:
            print("".join(traceback.format_exc().splitlines(True)[-24:]))
    except RecursionError:
        t.error = 'recursion limit'
    except Exception as e:
        t.error = f'engine error: {type(e).__name__}: {e}'
        if trace:
            print("".join(traceback.format_exc().splitlines(True)[-24:]))
    if trace:
        print(t.prover.stats)
    return dict(task=fname, prop=prop, results=t.results, error=t.error, trusted=t.trusted, functions=sorted(t.functions),
                assumed=sorted(t.assumed), covers=t.covers, seconds=round(time.time() - t0, 2))


if __name__ == '__main__':
    import sys, json
    sys.setrecursionlimit(20000)
    mod, fname, prop, out = sys.argv[1:5]
    # the module was loaded as __main__; use the importable one
    from pydv.task import run_task as rt
    res = rt(mod, fname, prop)
    with open(out, 'w') as f:
        json.dump(res, f)
