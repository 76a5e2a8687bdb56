"""consistent.py [module ...]: tries to prove FALSE at a normal exit of every function under contract (by hand; takes long).

A proof of it means that the assumptions of the task contradict each other, so that what it proves says nothing."""
import sys, os, importlib
sys.setrecursionlimit(20000)
os.environ['PYDV_CONSISTENT'] = '1'
from multiprocessing import Pool


def one(a):
    sys.setrecursionlimit(20000)
    from pydv.task import run_task
    return a, run_task('contracts.' + a[0], a[1], a[0], only=' FALSE')


if __name__ == '__main__':
    args, tasks, seen = sys.argv[1:] or [f'c{i:02}' for i in range(1, 18)], [], set()
    for m in args:
        mod = importlib.import_module('contracts.' + m)
        for t in mod.TASKS:
            if getattr(mod, t) not in seen:
                seen.add(getattr(mod, t))
                tasks.append((m, t))
    tasks.sort(key=lambda a: importlib.import_module('contracts.' + a[0]).TASKS.index(a[1]) % 5)
    rc = 0
    with Pool(int(os.environ.get('P', '6')), maxtasksperchild=1) as p:
        for a, r in p.imap_unordered(one, tasks, chunksize=1):
            bad = [x for x in r['results'] if x['status'] == 'proved' and x['obligation'].endswith(' FALSE')]
            n = len([x for x in r['results'] if x['obligation'].endswith(' FALSE')])
            print(*a, 'CONTRADICTION ' + bad[0]['backend'] if bad else 'ok' if n else 'none', n, r['error'] or '', r['seconds'], flush=True)
            rc |= bool(bad)
    sys.exit(rc)
