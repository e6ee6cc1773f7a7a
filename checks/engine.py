"""Runs one comparison of the table in a process of its own."""
import os
import sys
import itertools
import time
import traceback
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'analysis'))
sys.setrecursionlimit(20000)
import mir
import interp
import models
import equiv
import textfold
import tasks
from values import *
import term as T

equiv.DISTINCT.update(tasks.DISTINCT)
P = None
FORCE = bool(os.environ.get('FORCE_BOUNDED'))   # developer switch: also search where the comparison already succeeded


def load(d):
    global P
    P = mir.Program()
    for c in ('ethabi', 'ethabi_bin', 'spec', 'bind'):
        f = os.path.join(d, c + '.json')
        if os.path.exists(f):
            P.load(f)


def resolve(k):
    """the key of a function given by name or as (trait, type, method)"""
    if isinstance(k, str):
        return k if k in P.fns else P.byname.get(k, k)
    if len(k) == 4:     # the impl whose first argument has the given head
        for key, f in P.fns.items():
            if f.d.get('impl_trait') == k[0] and f.d.get('impl_self') == k[1] and f.d['name'].endswith('::' + k[2]) and \
                    f.argc and '::promoted' not in key and tuple(f.locals[1][:2])[:len(k[3])] == k[3]:
                return key
        return str(k)
    return P.impls.get(k, '<%s as %s>::%s' % (k[1], k[0], k[2]))


def summarise(key, opaque=(), rename={}, cuts=(), tag=None, panics=False, bound=False, byval=False, unroll=0, assume=(), consts={}):
    I = interp.Interp(P, models.Models(), cut=cuts, opaque=opaque, modeP=panics)
    I.unroll = unroll
    I.rename = rename
    I.byval = byval
    fn = P.fns[key]
    st = interp.State()
    for f in assume:
        if not st.add(f):
            return I, []
    args, refs = [], []
    for i in range(fn.argc):
        ty = fn.locals[i + 1]
        v = consts[i] if i in consts else interp.lift(('arg', tag or key, i), ty)
        if ty[0] == 'ref' and ty[1] and not byval:
            c = I.alloc(st, v, True)
            v = ('ref', c, ())
            refs.append(c)
        args.append(v)
    if bound:
        I.bound = 1024
        for i in range(fn.argc):
            ty = interp.peel(fn.locals[i + 1])
            if ty == ('slice', ('int', 8, False)):
                I.bound = add(I.bound, scale(slen(args[i]), 64))
    outs = I.run_fn(fn, args, st)
    res = []
    for s, v in outs:
        d = I.deep(s, v)
        if refs:
            d = ('tup', tuple([d] + [I.deep(s, s.mem[c]) for c in refs]))
        res.append((s, d))
    return I, res


def tymap(t):
    if isinstance(t, tuple):
        return tuple(tymap(x) for x in t)
    return tasks.TYMAP.get(t, t)


def anon(t):
    """type parameters by position only"""
    if isinstance(t, tuple) and t:
        if t[0] == 'param' or t[0] == 'other' and isinstance(t[1], str) and t[1].startswith('<'):
            return (t[0], '_')
        return tuple(anon(x) for x in t)
    return t


def layout_ok(a):
    d = P.adts.get(a)
    if d is None:
        return False
    kind, want = tasks.LAYOUT[a]
    if kind == 'variants':
        return [v['name'] for v in d['variants']] == want
    if kind == 'shape':
        return [(v['name'], [f['name'] for f in v['fields']]) for v in d['variants']] == want
    return len(d['variants']) == 1 and [f['ty'] for f in d['variants'][0]['fields']] == want


def is_variant(v, i):
    return isinstance(v, tuple) and v[0] == 'adt' and v[1].endswith('Result') and v[2] == i


def compare(t):
    """-> dict with status eq | neq | unk, counts and differences"""
    t0 = time.time()
    r = dict(task=t['name'], impl=t['impl'], spec=t['spec'], diffs=[], counts={})
    interp.TOTAL = t.get('total', ())
    try:
        ki, ks = resolve(t['impl']), resolve(t['spec'])
        r['impl'] = ki
        if ki not in P.fns:
            r.update(status='unk', why='%s not found' % ki)
            return r
        if ks not in P.fns:
            r.update(status='unk', why='%s not found' % ks)
            return r
        fi, fs = P.fns[ki], P.fns[ks]
        if fi.argc != fs.argc or any(anon(fi.locals[i + 1]) != anon(tymap(fs.locals[i + 1])) for i in range(fi.argc)):
            r.update(status='unk', why='signature of %s changed' % ki)
            return r
        for a in t.get('layout', ()):
            if not layout_ok(a):
                r.update(status='unk', why='layout of %s changed' % a)
                return r
        defs = {b: a for a, b in tasks.DEFS.items() if a in P.fns and b not in t.get('folded', ())}
        cuts = set(tasks.DEFS)

        def unfold(c, st):
            I = interp.Interp(P, models.Models(), cut=cuts, opaque=t['opaque'])
            I.rename = tasks.DEFS
            I.maxstates = 4000
            s = st.copy()
            s.mem = {}
            return I.run_fn(P.fns[defs[c[1]]], [a for a in c[2] if not (isinstance(a, tuple) and a and a[0] == 'ty')], s)
        shared = set()
        try:
            shared = compare_values(t, ki, ks, defs, unfold, r)
        except (interp.TooComplex, interp.Unsupported, RecursionError, TypeError, IndexError, KeyError, AttributeError, ValueError) as e:
            r.update(status='unk', why='%s: %s' % (type(e).__name__, str(e)[:300]), trace=traceback.format_exc(limit=-5)[-1500:])
        if FORCE or r['status'] == 'unk' and 'texts' not in r:
            at_texts(t, ki, ks, defs, unfold, r, shared)
        if r['status'] == 'unk' or FORCE:
            bounded(t, ki, ks, defs, unfold, r, shared)
        if t.get('panics'):
            try:
                compare_panics(t, ki, ks, defs, unfold, r)
            except (interp.TooComplex, interp.Unsupported, RecursionError, TypeError, IndexError, KeyError, AttributeError, ValueError) as e:
                r['panic'] = dict(why=repr(e)[:200])
            p = r['panic']
            if FORCE or 'why' in p or any(equiv.UNK in p.get(k, {}) and equiv.NEQ not in p.get(k, {}) for k in ('panic', 'bound')):
                bounded_panics(t, ki, ks, defs, unfold, r, shared)
                if FORCE or equiv.NEQ not in p.get('panic', {}) and 'texts' not in p:
                    panics_at_texts(t, ki, ks, defs, unfold, r, shared)
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, SystemExit)):
            raise
        r.update(status='unk', why='%s: %s' % (type(e).__name__, str(e)[:300]), trace=traceback.format_exc(limit=-5)[-1500:])
    finally:
        r['wall'] = round(time.time() - t0, 2)
    return r


def compare_values(t, ki, ks, defs, unfold, r):
    bv = t.get('byval', False)
    I1, o1 = summarise(ki, t['opaque'], {}, set(t['rename'].values()), byval=bv)
    I2, o2 = summarise(ks, t['opaque'], t['rename'], set(t['rename']), ki, byval=bv)
    shared = I1.calls_seen & I2.calls_seen
    r['analysed'] = sorted(I1.analysed)
    r['blocks'] = I1.nstates
    r['unmodelled'] = sorted(I1.unmodelled)
    res, o1, C, o2 = equiv.compare(P, o1, o2, shared, t.get('private', ()), defs=defs, unfold=unfold,
                                   early=lambda: at_texts(t, ki, ks, defs, unfold, r, shared))
    n = {}
    for x in res:
        n[x[0]] = n.get(x[0], 0) + 1
    if r.get('found'):
        n[equiv.NEQ] = 1
    r['counts'] = n
    r['leaves'] = [len(o1), len(o2)]
    seen = set()
    for v, why, i, j in res:
        if v == equiv.EQ:
            continue
        k = (v, i)
        if k in seen:
            continue
        seen.add(k)
        if len(r['diffs']) < 12 or v == equiv.NEQ and len(r['diffs']) < 60:
            acc = is_variant(o2[j][1], 1) and is_variant(o1[i][1], 0)
            r['diffs'].append(dict(verdict=v, why=str(why)[:600], kind='value', accepts=acc,
                                   guard=[show(f)[:300] for f in o1[i][0].log][:30], impl=show(o1[i][1])[:600],
                                   expected=show(o2[j][1])[:600], expected_guard=[show(f)[:300] for f in o2[j][0].log][:30]))
    r['diffs'].sort(key=lambda d: d['verdict'] != 'neq')
    r['status'] = 'neq' if n.get('neq') else 'unk' if n.get('unk') else 'eq' if n.get('eq') or not o1 else 'unk'
    return shared


def object_seeds(outs, size=4):
    """assumptions that fix the number of entries of a JSON object and which key each of them has"""
    keys, docs = set(), set()

    def see(x):
        if x[0] == 'eqs':
            for a, b in ((x[1], x[2]), (x[2], x[1])):
                if isinstance(a, tuple) and a[0] == 'fld' and isinstance(a[1], tuple) and a[1][:2] == ('call', 'dekey') and lit_of(b) is not None:
                    keys.add(b)
        elif x[0] == 'jmap' and isinstance(x[1], tuple) and x[1][0] == 'arg':
            docs.add(x)
        return False
    for st, v in outs:
        T.occurs((tuple(st.log), v), see)
    if len(docs) != 1 or not keys:
        return
    doc = docs.pop()
    keys = sorted(keys, key=hashkey)[:6]
    for combo in itertools.combinations_with_replacement(keys + [None], size):
        for order in (combo, combo[::-1]):
            fs = [('b', ('is', ('json', doc[1]), 0)), eq(slen(doc), size)]
            for i, k in enumerate(order):
                d = ('call', 'dekey', (('elem', doc, i),))
                n = ('fld', d, 0, 0)
                fs.append(('b', ('is', d, 0)))
                if k is None:
                    fs += [fnot(('b', ('eqs', n, x))) for x in keys]
                else:
                    fs.append(('b', ('eqs', n, k)))
            yield order, fs


def bounded(t, ki, ks, defs, unfold, r, shared):
    """looks for a definite difference with the loops written out up to a few iterations"""
    bv = t.get('byval', False)
    t0 = time.time()
    last = []

    def attempt(n, assume=(), note=''):
        """True: found; False: not found; None: too complex"""
        try:
            interp.DEADLINE = time.time() + 40
            I1, o1 = summarise(ki, t['opaque'], {}, set(t['rename'].values()), byval=bv, unroll=n, assume=assume)
            I2, o2 = summarise(ks, t['opaque'], t['rename'], set(t['rename']), ki, byval=bv, unroll=n, assume=assume)
            interp.DEADLINE = None
            if equiv.DEBUG:
                print('  bounded', n, len(o1), len(o2), round(time.time() - t0, 1), note)
            last[:] = o1 + o2
            d = equiv.search(P, o1, o2, shared | I1.calls_seen & I2.calls_seen, t.get('private', ()), 40, defs, unfold)
        except (interp.TooComplex, interp.Unsupported, RecursionError) as e:
            if equiv.DEBUG:
                print('  bounded', n, repr(e)[:200])
            return None
        finally:
            interp.DEADLINE = None
        if d is None:
            return False
        why, i, j = d
        acc = is_variant(o2[j][1], 1) and is_variant(o1[i][1], 0)
        r['diffs'].insert(0, dict(verdict=equiv.NEQ, why=('%s [loops written out to %d iterations%s]' % (why, n, note))[:600], kind='value', accepts=acc,
                                  guard=[show(f)[:300] for f in o1[i][0].log][:30], impl=show(o1[i][1])[:600],
                                  expected=show(o2[j][1])[:600], expected_guard=[show(f)[:300] for f in o2[j][0].log][:30]))
        r['status'] = 'neq'
        r['counts']['neq'] = r['counts'].get('neq', 0) + 1
        return True
    seeded = False
    for n in (1, 2, 3):
        if time.time() - t0 > 45:
            break
        x = attempt(n)
        if x:
            return
        if x is None:
            break
        if n == 2:
            for order, fs in object_seeds(last):
                seeded = True
                if time.time() - t0 > 80:
                    break
                if attempt(6, fs, ', keys ' + ','.join(bytes(lit_of(k)).decode('utf-8', 'replace') if k else '*' for k in order)):
                    return
            if seeded:
                return


KINDS = ['address', 'bytes', 'int8', 'uint256', 'bool', 'string', 'bytes1', 'bytes4', 'bytes31', 'bytes32', 'uint256[]', 'bool[1]', 'address[2]', 'bytes4[1]', '(bool)',
         '(uint256,uint256)', 'string[1]', '(bytes4)', '()', 'bool[0]']


def kind_const(k):
    """the parameter type with that name, as a constant"""
    pt = lambda v, *f: ('adt', 'ethabi::param_type::param_type::ParamType', v, f)
    if k.endswith(']'):
        i = k.rindex('[')
        n = k[i + 1:-1]
        return pt(8, kind_const(k[:i]), int(n)) if n else pt(6, kind_const(k[:i]))
    if k.startswith('('):
        return pt(9, mkseq(tuple(('one', kind_const(x)) for x in k[1:-1].split(',') if x)))
    if k in ('address', 'bytes', 'bool', 'string'):
        return pt({'address': 0, 'bytes': 1, 'bool': 4, 'string': 5}[k])
    for p, v in (('int', 2), ('uint', 3), ('bytes', 7)):
        if k.startswith(p):
            return pt(v, int(k[len(p):]))


def event_const(ps, anonymous):
    return ('adt', 'ethabi::event::Event', 0, (textfold.mk(b'E'), mkseq(tuple(
        ('one', ('adt', 'ethabi::event_param::EventParam', 0, (textfold.mk(n.encode()), kind_const(k), TT if ix else FF))) for n, k, ix in ps)), TT if anonymous else FF))


def events():
    out = [([('a', k, 1)], False) for k in KINDS] + [([('a', k, 0)], False) for k in KINDS]
    out += [([('a', 'bytes4', 1)], True), ([], False), ([], True), ([('a', 'uint8', 0), ('b', 'bool', 1), ('c', 'int8', 0), ('d', 'address', 1)], False),
            ([(n, 'uint8', 1) for n in 'abcd'], True), ([(n, 'uint8', 1) for n in 'abcd'], False), ([('a', 'uint8', 1), ('a', 'bool', 1), ('a', 'int8', 1)], False),
            ([('a', 'uint8', 1), ('b', 'bool', 1), ('c', 'int8', 1)], True), ([('', 'uint8', 1), ('', 'bool', 0), ('', 'int8', 1)], False)]
    return out[2 * len(KINDS):] + out[:2 * len(KINDS)]


def declarations(t, ki):
    """constant declarations for the receiver: list of (arguments, text to report, facts)"""
    out = []
    for ps, anon in events():
        label = 'the event (%s)%s' % (', '.join('%s%s %s' % (k, ' indexed' if ix else '', n) for n, k, ix in ps), ' anonymous' if anon else '')
        c = {0: event_const(ps, anon)}
        if t['declared'] == 'log':
            n = sum(ix for _, _, ix in ps) + (not anon)
            for m in (n, n + 1, n - 1) if len(ps) > 1 else (n,):
                if m >= 0:
                    hs = [interp.lift(('arg', ki, 'topic%d' % i), ('adt', 'primitive_types::H256', ())) for i in range(m)]
                    log = ('adt', 'ethabi::log::RawLog', 0, (mkseq(tuple(('one', h) for h in hs)), interp.lift(('arg', ki, 'data'), ('adt', 'alloc::vec::Vec', (('int', 8, False),)))))
                    out.append(({**c, 1: log}, '%s with %d topics' % (label, m), ()))
        else:
            tok = [interp.lift(('arg', ki, 'token%d' % i), ('adt', 'ethabi::token::token::Token', ())) for i in range(3)]
            top = lambda v, *f: ('adt', 'ethabi::filter::Topic', v, f)
            n = sum(ix for _, _, ix in ps)
            every = [top(2, x) for x in tok]
            one = [top(1, mkseq((('one', tok[0]), ('one', tok[1]))))]
            for raw, l in ((every[:n] + [top(0)] * 3, 'a value each'), (every, 'three values'), (one + [top(0)] * 2, 'one of two values'),
                           ([top(0)] * 3, 'nothing'), ([top(1, mkseq(()))] + [top(0)] * 2, 'one of no values')):
                out.append(({**c, 1: ('adt', 'ethabi::filter::RawTopicFilter', 0, tuple(raw[:3]))}, '%s with %s' % (label, l), ()))
    return out


def texts_of(t, ki):
    """constants for the only text argument, or for the encoded data: list of (arguments, text to report)"""
    fn = P.fns[ki]
    if t.get('declared'):
        return declarations(t, ki)
    if t.get('data') is not None:
        # types with members in place are left to the other stages: their number is not fixed here
        skip = tuple(fnot(('b', ('is', ('arg', ki, 0), v))) for v in (8, 9))
        return [({t['data']: textfold.mk(b), **t.get('start', {})}, 'data 0x%s' % b.hex(), skip) for b in textfold.data()]
    ix = [i for i in range(fn.argc) if interp.peel(fn.locals[i + 1]) == ('str',)]
    if len(ix) != 1:
        return []
    return [({ix[0]: textfold.mk(b)}, 'the text %r' % b.decode(), ()) for b in textfold.pool(t['name'])]


FAILURES = (interp.TooComplex, interp.Unsupported, RecursionError, TypeError, IndexError, KeyError, AttributeError, ValueError)


def at_texts(t, ki, ks, defs, unfold, r, shared):
    """looks for a definite difference with the text argument fixed"""
    texts = texts_of(t, ki)
    t0 = time.time()
    n = 0
    for k, label, given in texts:
        if time.time() - t0 > 40:
            break
        try:
            interp.FOLD = textfold.Fold()
            interp.DEADLINE = time.time() + 5
            I1, o1 = summarise(ki, t['opaque'] - t.get('inline', set()), {}, set(t['rename'].values()), unroll=40, consts=k, assume=given)
            I2, o2 = summarise(ks, t['opaque'] - t.get('inline', set()), t['rename'], set(t['rename']), ki, unroll=40, consts=k, assume=given)
            interp.DEADLINE = None
            n += 1
            d = equiv.search(P, o1, o2, shared | I1.calls_seen & I2.calls_seen, t.get('private', ()), 4, defs, unfold)
        except FAILURES as e:
            if equiv.DEBUG:
                print('  at', label, repr(e)[:200])
            continue
        finally:
            interp.DEADLINE = None
            interp.FOLD = None
        if d is not None:
            why, i, j = d
            acc = is_variant(o2[j][1], 1) and is_variant(o1[i][1], 0)
            r['diffs'].insert(0, dict(verdict=equiv.NEQ, why=('%s [at %s]' % (why, label))[:600], kind='value', accepts=acc,
                                      guard=[show(f)[:300] for f in o1[i][0].log][:30], impl=show(o1[i][1])[:600],
                                      expected=show(o2[j][1])[:600], expected_guard=[show(f)[:300] for f in o2[j][0].log][:30]))
            r['status'] = 'neq'
            r['found'] = True
            r['counts']['neq'] = r['counts'].get('neq', 0) + 1
            break
    r['texts'] = n
    return bool(r.get('found'))


def panics_at_texts(t, ki, ks, defs, unfold, r, shared):
    """looks for a definite panic with the text argument fixed"""
    texts = texts_of(t, ki)
    t0 = time.time()
    for k, label, given in texts:
        if time.time() - t0 > 30:
            break
        try:
            interp.FOLD = textfold.Fold()
            interp.DEADLINE = time.time() + 5
            I1, o1 = summarise(ki, t['opaque'] - t.get('inline', set()), {}, set(t['rename'].values()), unroll=40, consts=k, assume=given, panics=True)
            q = [x for x in I1.pan if not x[1][1].startswith('bound:')]
            if not q:
                continue
            I2, o2 = summarise(ks, t['opaque'] - t.get('inline', set()), t['rename'], set(t['rename']), ki, unroll=40, consts=k, assume=given, panics=True)
            if I2.pan:
                continue
            interp.DEADLINE = None
            d = equiv.search(P, q, o2, shared | I1.calls_seen & I2.calls_seen, (), 4, defs, unfold, kind='panic')
        except FAILURES as e:
            if equiv.DEBUG:
                print('  panics at', label, repr(e)[:200])
            continue
        finally:
            interp.DEADLINE = None
            interp.FOLD = None
        if d is not None:
            note_panics([(equiv.NEQ, d[0], q[d[1]])], 'panic', r, ' [at %s]' % label)
            r['panic'].setdefault('panic', {})[equiv.NEQ] = 1
            return True
    r['panic']['texts'] = len(texts)
    return False


def panic_leaves(t, ki, ks, unroll=0):
    I1, o1 = summarise(ki, t['opaque'], {}, set(t['rename'].values()), panics=True, bound=t.get('bound'), byval=t.get('byval', False), unroll=unroll)
    I2, o2 = summarise(ks, t['opaque'], t['rename'], set(t['rename']), ki, panics=True, bound=t.get('bound'), byval=t.get('byval', False),
                       unroll=unroll)
    p1, p2 = I1.pan, I2.pan
    if t.get('panics') == 'sizes':       # overflow of size computations is out of scope here
        p1 = [x for x in p1 if not x[1][1].lower().startswith(('overflow', 'capacity'))]
        p2 = [x for x in p2 if not x[1][1].lower().startswith(('overflow', 'capacity'))]
    return I1, I2, p1, p2, o2


def note_panics(pr, kind, r, note=''):
    pc = {}
    for v, why, (st, val) in pr:
        pc[v] = pc.get(v, 0) + 1
        if v == equiv.NEQ or (v == equiv.UNK and len(r['diffs']) < 70 and not note):
            r['diffs'].append(dict(verdict=v, why=str(why)[:600] + note, kind=kind, guard=[show(f)[:300] for f in st.log][:30],
                                   impl='%s in %s (%s): %s' % (val[1], val[2], val[4], show(val[3])[:300]), expected='excluded'))
    return pc


def compare_panics(t, ki, ks, defs, unfold, r):
    I1, I2, p1, p2, o2 = panic_leaves(t, ki, ks)
    shared = I1.calls_seen & I2.calls_seen
    r['panic'] = dict(obligations=dict(panic=I1.nobl, bound=I1.nbound), reference_leaves=len(p2))
    for kind, sel in (('panic', False), ('bound', True)):
        q1 = [x for x in p1 if x[1][1].startswith('bound:') == sel]
        pr = equiv.compare_panics(P, q1, o2, [x for x in p2 if x[1][1].startswith('bound:') == sel], shared, defs=defs, unfold=unfold,
                                  early=None if sel else lambda: panics_at_texts(t, ki, ks, defs, unfold, r, shared))
        pc = note_panics(pr, kind, r)
        if equiv.NEQ in r['panic'].get(kind, {}):
            pc[equiv.NEQ] = 1
        r['panic'][kind] = pc


def bounded_panics(t, ki, ks, defs, unfold, r, shared):
    """looks for a definite panic with the loops written out"""
    t0 = time.time()
    for n in (1, 2, 3):
        if time.time() - t0 > 40:
            return
        try:
            interp.DEADLINE = time.time() + 30
            I1, I2, p1, p2, o2 = panic_leaves(t, ki, ks, n)
            interp.DEADLINE = None
            for kind, sel in (('panic', False), ('bound', True)):
                if r['panic'].get(kind, {}).get(equiv.NEQ) or not ('why' in r['panic'] or FORCE or equiv.UNK in r['panic'].get(kind, {})):
                    continue
                q1 = [x for x in p1 if x[1][1].startswith('bound:') == sel]
                if not q1 or any(x[1][1].startswith('bound:') == sel for x in p2):
                    continue    # the reference fails in the same way for some inputs
                i = equiv.search(P, q1, o2, shared | I1.calls_seen & I2.calls_seen, (), 30, defs, unfold, kind='panic')
                if i is not None:
                    pc = note_panics([(equiv.NEQ, i[0], q1[i[1]])], kind, r, ' [loops written out to %d iterations]' % n)
                    r['panic'].setdefault(kind, {})[equiv.NEQ] = pc[equiv.NEQ]
        except (interp.TooComplex, interp.Unsupported, RecursionError, TypeError, IndexError, KeyError, AttributeError, ValueError) as e:
            if equiv.DEBUG:
                print('  bounded panics', n, repr(e)[:200])
            return
        finally:
            interp.DEADLINE = None


def _child(t, conn):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        conn.send(compare(t))
    except BaseException as e:
        conn.send(dict(task=t['name'], impl=t['impl'], spec=t['spec'], diffs=[], counts={}, status='unk', why=repr(e)[:200], wall=0))
    conn.close()


def run_many(ts, jobs=7, limit=200):
    """compares every task, each in a forked process with a time limit"""
    import multiprocessing as mp
    from multiprocessing.connection import wait
    ctx = mp.get_context('fork')
    todo = list(ts)
    live = {}
    out = {}
    while todo or live:
        while todo and len(live) < jobs:
            t = todo.pop(0)
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=_child, args=(t, b))
            p.start()
            b.close()
            live[a] = (t, p, time.time())
        for c in wait(list(live), timeout=1):
            t, p, t0 = live.pop(c)
            try:
                r = c.recv()
            except EOFError:
                r = dict(task=t['name'], impl=t['impl'], spec=t['spec'], diffs=[], counts={}, status='unk', why='process ended', wall=0)
            p.join()
            out[t['name']] = r
        for c in list(live):
            t, p, t0 = live[c]
            if time.time() - t0 > limit:
                p.kill()
                p.join()
                live.pop(c)
                out[t['name']] = dict(task=t['name'], impl=t['impl'], spec=t['spec'], diffs=[], counts={}, status='unk',
                                      why='time limit', wall=limit)
    return out
