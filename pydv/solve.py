"""Discharging obligations: z3 (E-matching, then MBQI), then cvc5."""
import os
import time
import z3
from . import univ as u


ALT = int(os.environ.get('PYDV_ALT', '0'))      # another run after a crash of the library


def safe_check(s, model=False, fresh=None):
    """s.check() in a child process: the library crashes on some problems, which then count as unknown."""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        out = b'unknown'
        try:
            os.close(r)
            if fresh:
                # the same problem in a context of its own, so that what came before does not steer the search
                s2 = z3.Solver(ctx=z3.Context())
                for k, v in fresh.items():
                    s2.set(k, v)
                s2.from_string(s.to_smt2())
                s = s2
            a = str(s.check())
            m = ''
            if a == 'sat' and model:
                try:
                    m = str(s.model())[:4000]
                except z3.Z3Exception:
                    pass
            out = (a + '\n' + m).encode()
        finally:
            os.write(w, out)
            os._exit(0)
    os.close(w)
    data = b''
    while True:
        b = os.read(r, 65536)
        if not b:
            break
        data += b
    os.close(r)
    os.waitpid(pid, 0)
    a, _, m = data.decode(errors='replace').partition('\n')
    return a or 'crashed', m


def light(seed, rlimit):
    """A search without extensionality, with one of two arithmetic solvers (the newer one sometimes does not come to an end)."""
    return {'rlimit': rlimit, 'smt.mbqi': False, 'smt.random_seed': seed, 'smt.array.extensional': False, 'smt.arith.solver': 6 if seed == 6 else 2, 'smt.solve_eqs': False}


class Prover:
    def __init__(self, axioms=(), trace=False):
        self.axioms = list(axioms)
        self.trace = trace
        self.stats = {}
        self.noext = False

    def all_axioms(self):
        return u.base_axioms() + self.axioms + u.literal_axioms()

    def _solver(self, mbqi, rlimit, timeout, seed=0):
        s = z3.SolverFor('ALL') if False else z3.Solver()
        if timeout:
            s.set('timeout', timeout)
        s.set('rlimit', rlimit)
        s.set('smt.mbqi', mbqi)
        seed = seed + 13 * ALT
        if seed:
            s.set('smt.random_seed', seed)
        return s

    def quick(self, hyps, goal, rlimit=1000000, timeout=0):
        """For loop invariants and definedness: True if proved."""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True
        t0 = time.time()
        r = False
        # (without extensionality there are fewer consequences: what follows still follows)
        for ext, seed in [(False, 0), (False, 5), (True, 0), (True, 5)] if self.noext else [(True, 0), (True, 5)]:
            if ext and seed and a != 'crashed':
                break
            s = self._solver(False, rlimit, timeout, seed)
            s.add(*self.all_axioms())
            s.add(*hyps)
            s.add(z3.Not(goal))
            a = safe_check(s, fresh=None if ext else light(seed, rlimit // 2))[0]
            self.stats['n' + a] = self.stats.get('n' + a, 0) + 1
            r = a == 'unsat'
            if r:
                break
        k = 'ok' if r else 'no'
        self.stats[k] = self.stats.get(k, 0) + time.time() - t0
        self.stats['n' + k] = self.stats.get('n' + k, 0) + 1
        self.stats['max' + k] = max(self.stats.get('max' + k, 0), time.time() - t0)
        return r

    def solve(self, hyps, goal, budget=1.0):
        """('proved'|'refuted'|'unknown', back end, seconds, model text)"""
        t0 = time.time()
        ax = self.all_axioms()
        first = self.first(ax, hyps, goal)
        if first is not None:
            return 'proved', first, time.time() - t0, ''
        steps = [('z3', False, int(40e6 * budget), int(60000 * budget), 0),
                 ('z3 seed', False, int(30e6 * budget), int(40000 * budget), 7),
                 ('z3+mbqi', True, int(20e6 * budget), int(30000 * budget), 0)]
        model = ''
        for nm, mbqi, rl, to, seed in steps:
            s = self._solver(mbqi, rl, to, seed)
            s.add(*ax)
            s.add(*hyps)
            s.add(z3.Not(goal))
            r, model = safe_check(s, True)
            if r == 'unsat':
                return 'proved', nm, time.time() - t0, ''
            if r == 'sat':
                return 'refuted', nm, time.time() - t0, model
        r = self.cvc5(ax + list(hyps) + [z3.Not(goal)], int(25000 * budget))
        if r == 'unsat':
            return 'proved', 'cvc5', time.time() - t0, ''
        return 'unknown', 'z3+cvc5', time.time() - t0, model

    def first(self, ax, hyps, goal, timeout=12):
        """A short run of the library, then the stand-alone provers next to each other."""
        s = self._solver(False, int(3e6), 0)
        s.add(*ax)
        s.add(*hyps)
        s.add(z3.Not(goal))
        r, _ = safe_check(s)
        if r == 'unsat':
            return 'z3'
        if r == 'sat':
            return None
        for seed in (0, 5, 6):
            if safe_check(s, fresh=light(seed, 1000000))[0] == 'unsat':
                return 'z3'
        import subprocess
        import tempfile
        f, path = tempfile.mkstemp(suffix='.smt2')
        ps = []
        try:
            with os.fdopen(f, 'w') as h:
                h.write('(set-logic ALL)\n' + s.to_smt2())
            for nm, cmd in (('z3 4.8', ['/usr/bin/z3', f'-T:{timeout}', 'smt.mbqi=false', path]),
                            ('cvc5', ['/usr/bin/cvc5', f'--tlimit={timeout * 1000}', path])):
                try:
                    ps.append((nm, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)))
                except OSError:
                    pass
            live, end = list(ps), time.time() + timeout + 3
            while live and time.time() < end:
                for x in list(live):
                    if x[1].poll() is not None:
                        live.remove(x)
                        o = x[1].stdout.read().split('\n')
                        if [w for w in o if w.strip()] == ['unsat']:     # nothing but the answer: no error, no warning
                            return x[0]
                time.sleep(0.01)
            return None
        finally:
            for _, p in ps:
                if p.poll() is None:
                    p.kill()
                p.wait()
            os.unlink(path)

    def cvc5(self, fs, timeout):
        try:
            import cvc5
            s = z3.Solver()
            s.add(*fs)
            txt = s.to_smt2()
            tm = cvc5.TermManager()
            slv = cvc5.Solver(tm)
            slv.setOption('tlimit-per', str(timeout))
            slv.setLogic('ALL')
            p = cvc5.InputParser(slv)
            p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt, 'o')
            sm = p.getSymbolManager()
            res = None
            while True:
                c = p.nextCommand()
                if c.isNull():
                    break
                o = c.invoke(slv, sm)
                if 'unsat' in str(o):
                    res = 'unsat'
            return res
        except Exception as e:      # a back end that cannot read the problem discharges nothing
            return None
