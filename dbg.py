import sys
sys.path.insert(0, __import__('os').path.dirname(__import__('os').path.abspath(__file__)))
sys.setrecursionlimit(20000)
from pydv.task import run_task
r = run_task('contracts.' + sys.argv[1], sys.argv[2], '', trace=True, only=sys.argv[3] if len(sys.argv) > 3 else None)
print('ERROR' if r['error'] else 'ok', r['error'], 'covers', r['covers'], r['seconds'], 's;', sum(x['status'] == 'proved' for x in r['results']), '/', len(r['results']), r['functions'])
for x in r['results']:
    if x['status'] != 'proved':
        print(x['status'], x['obligation'], x['where'], x['model'][:1500])
