"""run.py <property>: decides one property on the current tree of /repo."""
import json
import os
import sys
import time
t0 = time.time()
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build
import engine
import tasks
import claims
VERIF = build.VERIF


def known():
    out = {}
    p = os.path.join(VERIF, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('finding:'):
                f = dict(x.split('=', 1) for x in l.split()[1:3])
                out[(f['property'], f['key'])] = l.split(None, 3)[3] if len(l.split(None, 3)) > 3 else ''
    return out


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in sys.argv:
        tier = 'thorough'
    claim = claims.CLAIMS[pid]
    try:
        dumps, h, specerr = build.ensure()
    except build.BuildError as e:
        print(e)
        sys.exit(2)
    hv = build.digest_py(h) + ('-t' if tier == 'thorough' else '')
    engine.dumps = dumps
    limit = 240 if tier == 'quick' else 1500
    engine.equiv.REFINE = 40 if tier == 'quick' else 240
    results = {}
    want = [n for n, _ in claim.get('tasks', ())]
    todo = []
    binderr = build.ensure_bind(dumps) if claim.get('bind') else None
    if not (binderr if claim.get('bind') else specerr):
        for n in want:
            p = os.path.join(build.B, 'results', hv, n + '.json')
            if os.path.exists(p) and not os.environ.get('VERIF_NOCACHE'):
                try:
                    results[n] = json.load(open(p))
                    continue
                except ValueError:
                    pass
            todo.append(n)
        if todo:
            engine.load(dumps)
            rs = engine.run_many([tasks.TASKS[n] for n in todo], limit=limit)
            os.makedirs(os.path.join(build.B, 'results', hv), exist_ok=True)
            for n, r in rs.items():
                results[n] = r
                if r.get('why') not in ('time limit', 'process ended'):
                    p = os.path.join(build.B, 'results', hv, n + '.json')
                    json.dump(r, open(p + '.%d' % os.getpid(), 'w'))
                    os.replace(p + '.%d' % os.getpid(), p)
    viol, samples, undecided = [], [], []
    pairs = eqs = 0
    analysed = set()
    blocks = 0
    for n, kinds in claim.get('tasks', ()):
        r = results.get(n)
        if r is None:
            undecided.append('%s: the reference crate does not build against this tree (public interface changed)' % n)
            continue
        analysed |= set(r.get('analysed', ()))
        blocks += r.get('blocks', 0)
        c = {}
        if 'value' in kinds or 'accepts' in kinds:
            c = r['counts']
            pairs += sum(c.values())
            eqs += c.get('eq', 0)
            if r['status'] == 'unk':
                undecided.append('%s: %s' % (n, r.get('why') or (r['diffs'][0]['why'] if r['diffs'] else '?')))
        pk = [k for k in kinds if k in ('panic', 'bound')]
        if pk:
            pr = r.get('panic') or {}
            if 'obligations' not in pr:
                undecided.append('%s: possible panics not computed: %s' % (n, pr.get('why') or r.get('why')))
            else:
                no = sum(pr['obligations'][k] for k in pk)
                left = sum(v for k in pk for q, v in pr.get(k, {}).items() if q != 'eq')
                pairs += no
                eqs += no - left
                c = dict(c, obligations=no, left=left)
                for k in pk:
                    if pr.get(k, {}).get('unk'):
                        u = [d for d in r['diffs'] if d['kind'] == k and d['verdict'] == 'unk']
                        undecided.append('%s: %d possible %s not excluded: %s' % (n, pr[k]['unk'], k, u[0]['impl'] if u else ''))
        bad = [d for d in r['diffs'] if d['verdict'] == 'neq' and (d['kind'] in kinds or d.get('accepts') and 'accepts' in kinds)]
        if bad:
            viol.append(dict(key='%s/%s' % (n, bad[0]['kind']), function=r['impl'], reference=r['spec'], differences=bad))
        samples.append(dict(function=r['impl'], reference=r['spec'], leaves=r.get('leaves'), pairs=c, status=r['status'],
                            seconds=r['wall']))
    if binderr:
        if 'could not compile `bind`' in binderr:
            i = binderr.find('error')
            viol.append(dict(key='bind/build', site='bindings generated for bind/contract.json', detail='rustc rejects the generated bindings or their use: ' +
                             binderr[max(i, 0):][:1500]))
        else:
            undecided.append('bindings not built: ' + binderr[-300:])
    scans = []
    for s in claim.get('scans', ()):
        import scans as S
        res = getattr(S, s)(dumps, tier)
        scans.append(dict(scan=s, rule=res['rule'], examined=res['examined']))
        for v in res['violations']:
            viol.append(v)
        undecided += res.get('undecided', [])
    kn = known()
    new = []
    for v in viol:
        if (pid, v['key']) in kn:
            print('KNOWN-FINDING: property=%s %s' % (pid, kn[(pid, v['key'])]))
        else:
            new.append(v)
    n_obl = pairs + sum(s['examined'] for s in scans)
    n_dis = eqs + sum(s['examined'] for s in scans) - len([v for v in viol if 'function' not in v])
    ev = dict(property=pid, tier=tier, seed=int(os.environ.get('VERIF_SEED') or 0), level='other',
              coverage=dict(explanation=claims.explain(pid), rule=claims.NOTE_T, obligations=n_obl, discharged=n_dis,
                            functions_compared=len(results), functions_analysed=len(analysed), analysed=sorted(analysed)[:80],
                            block_visits=blocks, undecided=undecided, scans=scans, samples=samples),
              wall_s=round(time.time() - t0, 2), violations=len(new),
              assumptions=['Reference functions in /verif/spec state the intended behaviour', 'Models of library functions (analysis/models.py, spec/src/m.rs) are faithful'])
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w'), indent=1)
    rp = os.path.join(VERIF, 'evidence', pid + '.violations.json')
    if new:
        json.dump(new, open(rp, 'w'), indent=1)
        for v in new:
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            print('  %s: %s' % (v['key'], v.get('function') or v.get('site')))
            for d in v.get('differences', [])[:3]:
                print('    when %s' % ' and '.join(d['guard'])[:600])
                print('    found    %s' % d['impl'][:300])
                print('    expected %s' % d['expected'][:300])
                print('    (%s)' % d['why'][:300])
            if v.get('detail'):
                print('    ' + v['detail'][:600])
        sys.exit(1)
    if os.path.exists(rp):
        os.unlink(rp)
    print('%s: %d of %d obligations discharged, %d undecided, %.1fs' % (pid, n_dis, n_obl, len(undecided), time.time() - t0))
    for u in undecided[:20]:
        print('  undecided: %s' % u[:300])
    sys.exit(0)


main()
