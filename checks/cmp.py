"""developer tool: cmp.py [task...]: run comparisons and show what is not equal"""
import sys
import build
import engine
import tasks
d, h, err = build.ensure()
if err:
    print('SPEC:', err[-1500:])
print(build.ensure_bind(d) or '', end='')
engine.load(d)
import os
engine.equiv.DEBUG = bool(os.environ.get('DBG'))
names = sys.argv[1:] or list(tasks.TASKS)
res = engine.run_many([tasks.TASKS[n] for n in names])
for n in names:
    r = res[n]
    print('%-28s %-4s %6.1fs %s %s %s %s' % (n, r['status'], r['wall'], r['counts'], r.get('leaves', ''), r.get('why', ''), r.get('panic','')))
    if len(sys.argv) > 1 or r['status'] == 'neq':
        for x in r['diffs'][:4]:
            print('    %s %s' % (x['verdict'], x['why']))
            print('      I: %s -> %s' % (x['guard'], x['impl']))
            print('      S: %s -> %s' % (x.get('expected_guard'), x['expected']))
        if r.get('trace'):
            print(r['trace'])
