"""check.py PROPERTY quick|thorough

Decides one property on /repo's current tree: every proof task of contracts/<property>.py (deductive verification of the
functions' source, redone from scratch), next to a bounded search for a failing input on the real code. Exit 0 or 1."""
import sys, os, json, time, subprocess, tempfile, shutil, importlib, signal
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
REPO = os.environ.get('VERIF_REPO', '/repo')
PY = '/opt/venv/bin/python'
VT = sys.executable


def env(**kw):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', **kw)
    e.pop('UNSAFE_DESERIALIZE_PICKLE', None)
    return e


def start(cmd, cwd, **kw):
    return subprocess.Popen(cmd, cwd=cwd, env=env(**kw), stdout=subprocess.DEVNULL, stderr=open(os.path.join(cwd, 'err'), 'wb'),
                            start_new_session=True)


def stop(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        pass
    p.wait()


def load(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def known(prop):
    """{kind: text} of the findings recorded for this property (fixed ones suppress nothing)."""
    out = {}
    with open(os.path.join(HERE, 'known-findings.txt')) as f:
        for line in f:
            w = line.split(None, 3)
            if len(w) == 4 and w[0] == 'finding:' and w[1] == 'property=' + prop and w[2].startswith('kind='):
                out[w[2][5:]] = w[3].strip()
    return out


class Jobs:
    """Runs proof tasks and searches as processes, at most `width` at a time."""

    def __init__(self, work, width=8):
        self.work, self.width, self.n = work, width, 0
        self.queue, self.live, self.done = [], [], {}

    def add(self, key, cmd, timeout, **kw):
        d = os.path.join(self.work, 'j%d' % self.n)
        self.n += 1
        os.mkdir(d)
        self.queue.append((key, [c.replace('{OUT}', os.path.join(d, 'out.json')) for c in cmd], timeout, d, kw))

    def run(self, stop_when=None):
        while self.queue or self.live:
            while self.queue and len(self.live) < self.width:
                key, cmd, timeout, d, kw = self.queue.pop(0)
                self.live.append((key, start(cmd, d, **kw), time.time() + timeout, d))
            time.sleep(0.05)
            for x in list(self.live):
                key, p, end, d = x
                if p.poll() is not None or time.time() > end:
                    timed = p.poll() is None
                    stop(p)
                    self.live.remove(x)
                    r = load(os.path.join(d, 'out.json'))
                    if r is None:
                        with open(os.path.join(d, 'err'), 'rb') as f:
                            tail = f.read()[-2000:].decode('utf8', 'replace')
                        r = dict(timeout=timed, crash=None if timed else tail or 'no output')
                    self.done[key] = r
            if stop_when is not None and stop_when(self.done):
                for key, p, end, d in self.live:
                    stop(p)
                self.live, self.queue = [], []


def main():
    prop, tier = sys.argv[1], sys.argv[2]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    thorough = tier == 'thorough'
    work = tempfile.mkdtemp(prefix='verif-')
    try:
        return decide(prop, tier, seed, t0, thorough, work)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def search(jobs, prop, seconds, seeds, kn):
    for s in seeds:
        jobs.add(('search', s), [PY, os.path.join(HERE, 'falsify', 'run.py'), prop.lower(), '--seconds', str(seconds), '--seed', str(s),
                                 '--out', '{OUT}', '--known', ','.join(kn)], seconds + 60, PYTHONPATH=REPO)


def decide(prop, tier, seed, t0, thorough, work):
    kn = known(prop)
    try:
        mod = importlib.import_module('contracts.' + prop.lower())
        tasks, mod_error = list(mod.TASKS), None
    except ModuleNotFoundError:
        mod, tasks, mod_error = None, [], None
    jobs = Jobs(work)

    def found():
        for k, r in jobs.done.items():
            if k[0] == 'search' and r.get('violation'):
                return r['violation']
    quick_s = 90 if thorough else 14
    search(jobs, prop, quick_s, [seed * 1000 + i for i in range(4 if thorough else 3)], kn)
    for f in tasks:
        jobs.add(('task', f), [VT, '-m', 'pydv.task', 'contracts.' + prop.lower(), f, prop, '{OUT}'],
                 540 if thorough else 420, PYTHONPATH=HERE)
    jobs.run(stop_when=lambda done: found() is not None)

    def good(r):
        return 'results' in r and not r['error'] and r['results'] and all(x['status'] == 'proved' for x in r['results'])

    def again(r):
        """Worth another run of the provers, with other seeds: a crash of the library, or a few answers of 'unknown'."""
        if 'results' not in r:
            return not r.get('timeout')
        return not r['error'] and all(x['status'] in ('proved', 'unknown') for x in r['results']) and sum(x['status'] != 'proved' for x in r['results']) <= 5

    def collect():
        results, failed, errors = [], [], []
        trusted, functions, assumed = [], set(), set()
        for f in tasks:
            r = jobs.done.setdefault(('task', f), dict(timeout=True, stopped=found() is not None))
            if not good(r):
                for k in (1, 2):
                    if good(jobs.done.get(('again', f, k), {})):
                        r = jobs.done[('task', f)] = jobs.done[('again', f, k)]
                        break
            if 'results' not in r:
                errors.append(dict(obligation=f'{f}: finishes', status='not tried' if r.get('stopped') else 'timeout' if r.get('timeout') else 'crash', detail=r.get('crash')))
                continue
            if r['error']:
                errors.append(dict(obligation=f'{f}: is verified as a whole', status='not verified', detail=r['error']))
            elif not r['results']:
                errors.append(dict(obligation=f'{f}: has obligations', status='vacuous', detail=''))
            results += r['results']
            failed += [x for x in r['results'] if x['status'] != 'proved']
            trusted += [x for x in r['trusted'] if x not in trusted]
            functions |= set(r['functions'])
            assumed |= set(r['assumed'])
        return results, failed, errors, trusted, functions, assumed
    results, failed, errors, trusted, functions, assumed = collect()
    bad = failed + errors

    v = found()
    if bad and v is None:
        # no proof: look harder for an input that shows it
        retry = [f for f in tasks if not good(jobs.done[('task', f)])]
        if all(again(jobs.done[('task', f)]) for f in retry) and len(retry) <= 4:
            for f in retry:
                for k in (1, 2):
                    jobs.add(('again', f, k), [VT, '-m', 'pydv.task', 'contracts.' + prop.lower(), f, prop, '{OUT}'],
                             300, PYTHONPATH=HERE, PYDV_ALT=str(k))
        else:
            retry = None
        jobs.width = 16
        search(jobs, prop, 100, [seed * 1000 + 100 + i for i in range(8)], kn)
        jobs.run(stop_when=lambda done: found() is not None or retry is not None and all(
            any(good(done.get(('again', f, k), {})) for k in (1, 2)) for f in retry))
        v = found()
        results, failed, errors, trusted, functions, assumed = collect()
        bad = failed + errors

    searches = [r for k, r in jobs.done.items() if k[0] == 'search']
    broken = [r for r in searches if 'evaluations' not in r]
    ev = sum(r.get('evaluations', 0) for r in searches)
    seen_known = sorted({x for r in searches for x in r.get('known', [])})
    if v is None and (broken and len(broken) == len(searches)):
        # the code under test takes the whole process down (or cannot even be imported)
        v = dict(kind='no-run', message='the search cannot run the code: ' + str(broken[0].get('crash') or 'timeout'), case=repr(dict(kind='import')))

    violation = None
    os.makedirs(os.path.join(HERE, 'replays'), exist_ok=True)
    replay = os.path.join(HERE, 'replays', prop + '.json')
    if v is not None:
        violation = f'VIOLATION property={prop} replay={replay}'
        rep = dict(property=prop, kind=v['kind'], message=v['message'], case=v['case'], failed_obligations=bad[:20],
                   replay_with=f'cd /verif/falsify && PYTHONPATH=/repo {PY} run.py {prop.lower()} --replay {replay}')
    elif bad:
        violation = f'VIOLATION property={prop} replay={replay} no-failing-input-found'
        rep = dict(property=prop, failed_obligations=bad, note='the verifier does not accept these obligations for the current source; '
                   'a bounded search on the real code found no failing input', searched=ev)
    if violation:
        with open(replay, 'w') as f:
            json.dump(rep, f, indent=1)

    backends, secs = {}, 0.0
    for x in results:
        secs += x['seconds']
        if x['status'] == 'proved':
            backends[x['backend']] = backends.get(x['backend'], 0) + 1
    discharged = sum(x['status'] == 'proved' for x in results)
    level = getattr(mod, 'LEVEL', 'proof') if tasks else 'exploration'
    bounded = dict(evaluations=ev, distinct_nontrivial=sum(r.get('distinct_nontrivial', 0) for r in searches),
                   rule=next((r['rule'] for r in searches if 'rule' in r), ''), samples=[s for r in searches for s in r.get('samples', [])][:4])
    cov = dict(bounded)
    if tasks:
        cov.update(obligations=len(results) + len(errors), discharged=discharged,
                   checker_cmd=f'python3-vt check.py {prop} {tier}  (python3-vt -m pydv.task contracts.{prop.lower()} <task> {prop} out.json)',
                   trusted_base=BASE + trusted, functions_under_contract=sorted(functions), contracts_assumed_at_calls=sorted(assumed),
                   discharged_by=backends, solver_seconds=round(secs, 1), tasks={f: (jobs.done[('task', f)].get('seconds')) for f in tasks},
                   bounded_part=getattr(mod, 'BOUNDED', 'the search for failing inputs is bounded and decides nothing that is counted as proved'))
    elif level == 'exploration':
        cov['explanation'] = 'bounded: no function of this property is under a discharged contract'
    if cov.get('evaluations', 0) and not cov.get('samples'):
        cov['samples'] = ['(none kept)']
    evidence = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
                    assumptions=(BASE + trusted) if tasks else [], wall_s=round(time.time() - t0, 2), violations=1 if violation else 0)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)

    for k in seen_known:
        print(f'KNOWN-FINDING: property={prop} {kn[k]}')
    print(f'{prop}: {discharged}/{len(results) + len(errors)} obligations discharged in {len(tasks)} tasks, {len(functions)} functions; '
          f'bounded search of {ev} cases; {time.time() - t0:.0f} s')
    for x in bad[:10]:
        print('  not accepted:', x['obligation'], '-', x['status'], (x.get('where') or ''), (x.get('detail') or '')[:300])
    if v is not None:
        print('  failing input:', v['message'][:1500])
    if violation:
        print(violation)
        return 1
    return 0


BASE = ['the engine (pydv) translates the Python subset it accepts faithfully; everything else is rejected, not approximated',
        'z3 and cvc5 are sound', 'Python ints are mathematical integers; floats are treated as reals',
        'terminating executions: the proofs are of partial correctness, recursion depth and memory are unbounded']

if __name__ == '__main__':
    sys.exit(main())
