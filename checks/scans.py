"""Whole-program scans over the dumped MIR: rules that hold or fail at a construct, not by comparison."""
import json
import os
import re

# library paths whose call makes a result depend on, or act on, something other than the arguments
EFFECT = re.compile(
    r'(^|[<\s])('
    r'std::(fs|net|env|process|thread|time|os|backtrace|random|hash::random)::'
    r'|std::io::(stdio|_print|_eprint|stdin|stdout|stderr|Stdin|Stdout|Stderr)|std::io::stdio|std::(_print|_eprint)'
    r'|std::panic::|std::panicking::(set_hook|take_hook|update_hook|panicking|panic_count|catch_unwind|try)'
    r'|core::sync::atomic::|std::sync::(mutex|poison|rwlock|condvar|mpsc|mpmc|barrier|reentrant_lock|Mutex|RwLock|Condvar|nonpoison)'
    r'|std::thread::local|core::ptr::(read_volatile|write_volatile|addr)|libc::|getrandom::|rand::|rand_core::|rand_chacha::'
    r'|core::panic::location::Location|core::intrinsics::caller_location'
    r')')
ONCE = re.compile(r'(std::sync::once_lock::OnceLock|once_cell::|std::sync::OnceLock|core::cell::once::OnceCell)')
LAZY = re.compile(r'(LazyLock|lazy_static::|once_cell::sync::Lazy)')
HASHKEY = re.compile(r'(RandomState as core::hash::BuildHasher|std::hash::random::RandomState::)')


def load(dumps, name):
    return json.load(open(os.path.join(dumps, name + '.json')))


def fn_of(d, op):
    if op[0] == 'k' and isinstance(op[1], dict) and 'ty' in op[1]:
        t = d['tys'][op[1]['ty']]
        if t['k'] == 'fndef':
            return t
    return None


def walk(x, out):
    """every constant operand and every type index mentioned in a body"""
    if isinstance(x, dict):
        if 'ty' in x and isinstance(x['ty'], int):
            out.append(x['ty'])
        for v in x.values():
            walk(v, out)
    elif isinstance(x, list):
        for v in x:
            walk(v, out)


def purity(dumps, tier):
    d = load(dumps, 'ethabi')
    T = d['tys']
    v, n = [], 0

    def bad(key, site, detail):
        v.append(dict(key=key, site=site, detail=detail))
    for s in d['statics']:
        n += 1
        if s.get('mut'):
            bad('static/' + s['path'], '%s (%s)' % (s['path'], s['span']), 'a mutable global: calls share state')
        elif s.get('thread_local'):
            bad('static/' + s['path'], '%s (%s)' % (s['path'], s['span']), 'thread-local state of type %s' % s['ty'])
        elif not s['freeze'] and not LAZY.search(s['ty']) and not ONCE.search(s['ty']):
            bad('static/' + s['path'], '%s (%s)' % (s['path'], s['span']), 'a global with interior mutability: %s' % s['ty'])
    for u in d['unsafe']:
        n += 1
        if u.get('user') and not u.get('expn'):
            bad('unsafe/' + u['in'], '%s (%s)' % (u['in'], u['span']), 'unsafe code')
    for i in d['impls']:
        n += 1
        if i.get('unsafe') and not i.get('derived'):
            bad('unsafe-impl/%s' % i['self'], '%s (%s)' % (i['self'], i['span']), 'unsafe implementation of %s' % i.get('trait'))
    for a in d['autos']:
        if not a['reach']:
            continue
        n += 1
        for k in ('send', 'sync', 'freeze'):
            if not a.get(k):
                bad('%s/%s' % (k, a['path']), a['path'],
                    {'send': 'values cannot be sent to another thread', 'sync': 'values cannot be shared between threads',
                     'freeze': 'values carry interior mutability: a shared value can change between calls'}[k])
    # effects of calls, with a path from an entry point that reaches them
    calls, sites = {}, []
    for fname, f in d['fns'].items():
        if f.get('unsafe') and not f.get('expn'):
            n += 1
        out = calls.setdefault(fname, set())
        for bi, b in enumerate(f['blocks']):
            if not b:
                continue
            span = f['span']
            t = b['t'] or ['?']
            if t[0] == 'call':
                n += 1
                span = next((x for x in reversed(t) if isinstance(x, str) and ':' in x), span)
            for s in b['s']:
                if isinstance(s, list) and len(s) > 2 and isinstance(s[2], list) and s[2] and s[2][0] == 'cast' \
                        and 'PointerExposeProvenance' in s[2][1]:
                    bad('address/' + fname, '%s (%s)' % (fname, s[-1]), 'the address of a value is used as a number')
            tys = []
            walk([b['s'], t], tys)
            for ti in set(tys):
                ty = T[ti]
                if ty['k'] == 'closure':
                    out.add(ty.get('key') or ty.get('s'))
                if ty['k'] != 'fndef':
                    continue
                fn = ty['fn']
                names = [fn.get('name') or '', fn.get('res') or '', fn.get('key') or '']
                for x in names:
                    out.add(x)
                # the function itself, not the types it is instantiated with
                heads = [re.sub(r'::<.*', '', x) if not x.startswith('<') else x for x in names]
                m = next((x for x in heads if EFFECT.search(x)), None) or next((x for x in heads if HASHKEY.search(x)), None)
                if m:
                    sites.append((fname, span, m))
                elif any(ONCE.search(x) and re.search(r'::(set|get_or_init|get_or_try_init)$', x) for x in heads):
                    caps = t[0] == 'call' and fn_of(d, t[1]) is ty and captures(d, f, t)
                    if caps or any(re.search(r'::set$', x) for x in heads):
                        sites.append((fname, span, heads[0] + ' (a value fixed by whichever call comes first)'))
                elif any('fmt' in x and 'pointer' in x.lower() for x in heads):
                    sites.append((fname, span, heads[0]))
    for fname, span, m in sites:
        bad('effect/%s/%s' % (fname, m), '%s (%s)' % (fname, span), 'calls %s; reached from %s' % (m, entry(d, calls, fname)))
    return dict(rule='No global mutable state, no unsafe code, no interior mutability in public types, all public types Send and Sync, and no '
                'call (direct, or function value mentioned) of an operation that reads or acts on anything but its arguments, in any function of the library',
                examined=n, violations=v, functions=len(d['fns']))


def captures(d, f, t):
    """does the closure given to a call capture anything?"""
    for a in t[2]:
        if a[0] in ('m', 'c'):
            ty = d['tys'][f['locals'][a[1][0]]['ty']]
            if ty['k'] == 'closure':
                return bool(ty.get('upvars'))
    return False


def entry(d, calls, target):
    """a public function from which `target` is reached"""
    rev = {}
    for a, bs in calls.items():
        for b in bs:
            rev.setdefault(b, set()).add(a)
    seen, todo = {target: None}, [target]
    while todo:
        x = todo.pop(0)
        if d['fns'].get(x, {}).get('reach'):
            p = [x]
            while seen[p[-1]] is not None:
                p.append(seen[p[-1]])
            return ' -> '.join(p)
        for y in sorted(rev.get(x, ())):
            if y not in seen:
                seen[y] = x
                todo.append(y)
        if '::{closure' in x:
            y = x[:x.rindex('::{closure')]
            if y in d['fns'] and y not in seen:
                seen[y] = x
                todo.append(y)
    return 'no public function found'
