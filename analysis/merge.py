"""Joining abstract states that agree on memory."""
from values import *
import interp as IN


def complement(a, b):
    return fnot(a) == b or fnot(b) == a


def simplify(sets):
    """sets: list of frozensets of literals (a disjunction of conjunctions)"""
    sets = list(dict.fromkeys(sets))
    changed = True
    while changed and len(sets) > 1:
        changed = False
        # absorption
        keep = []
        for i, a in enumerate(sets):
            if any((b < a) or (b == a and j < i) for j, b in enumerate(sets) if j != i):
                changed = True
            else:
                keep.append(a)
        sets = keep
        # resolution of complementary literals
        done = False
        for i in range(len(sets)):
            for j in range(i + 1, len(sets)):
                a, b = sets[i], sets[j]
                d1, d2 = a - b, b - a
                if len(d1) == 1 and len(d2) == 1 and complement(next(iter(d1)), next(iter(d2))):
                    sets = [s for k, s in enumerate(sets) if k not in (i, j)] + [a & b]
                    changed = done = True
                    break
                # a | (not a & x) = a | x
                if len(d1) == 1 and len(d2) > 1 and any(complement(next(iter(d1)), y) for y in d2):
                    y = next(y for y in d2 if complement(next(iter(d1)), y))
                    sets[j] = b - {y}
                    changed = done = True
                    break
                if len(d2) == 1 and len(d1) > 1 and any(complement(next(iter(d2)), y) for y in d1):
                    y = next(y for y in d1 if complement(next(iter(d2)), y))
                    sets[i] = a - {y}
                    changed = done = True
                    break
            if done:
                break
        if done:
            continue
        # complete variant splits
        groups = {}
        for s in sets:
            for l in s:
                if l[0] == 'b' and isinstance(l[1], tuple) and l[1] and l[1][0] == 'is':
                    groups.setdefault((l[1][1], s - {l}), set()).add(l[1][2])
        for (t, rest), vs in groups.items():
            n = IN.VARN.get(t)
            if n and len(vs) == n:
                sets = [s for s in sets if not any(
                    l[0] == 'b' and isinstance(l[1], tuple) and l[1] and l[1][0] == 'is' and l[1][1] == t and s - {l} == rest for l in s)]
                sets.append(rest)
                changed = True
                break
    return sets


def excl(s, t):
    v = s.var.get(t)
    if v is not None:
        n = IN.VARN.get(t)
        return frozenset(i for i in range(n) if i != v) if n else frozenset()
    return s.notvar.get(t, frozenset())


def join(states):
    """states agree on memory; returns one state over-approximating all"""
    a = states[0]
    n = min(len(s.log) for s in states)
    p = 0
    while p < n and all(s.log[p] == a.log[p] for s in states):
        p += 1
    rests = []
    for s in states:
        lits = set()
        for f in s.log[p:]:
            if f[0] == 'and':
                lits.update(f[1])
            else:
                lits.add(f)
        rests.append(frozenset(lits))
    sets = simplify(rests)
    r = IN.State()
    r.mem = a.mem
    r.sites = a.sites
    r.log = list(a.log[:p])
    common = frozenset.intersection(*sets) if sets else frozenset()
    f = for_(*[fand(*(s - common)) for s in sets])
    for g in sorted(common, key=hashkey):
        r.log.append(g)
    if f != TT:
        r.log.append(f)
    seen = set()
    for s in states:
        for l in s.lin:
            if l in seen:
                continue
            seen.add(l)
            if all(l in o.lin or o.prove(norm_le(l)) for o in states):
                r.lin.append(l)
    r.neqs = [x for x in a.neqs if all(x in o.neqs for o in states[1:])]
    r.bools = {k: v for k, v in a.bools.items() if all(k in o.bools and o.bools[k] == v for o in states[1:])}
    r.ors = [x for x in a.ors if all(x in o.ors for o in states[1:])]
    for t in set(a.var) | set(a.notvar):
        v = a.var.get(t)
        if v is not None and all(o.var.get(t) == v for o in states[1:]):
            r.var[t] = v
            continue
        e = excl(a, t)
        for o in states[1:]:
            e = e & excl(o, t)
        if e:
            r.notvar[t] = e
    if f[0] == 'or':
        r.ors.append(f)
    return r


def reach(st, roots, cells):
    todo = list(roots)
    seen = set()

    def walk(v):
        if isinstance(v, tuple) and v:
            if v[0] == 'ref':
                if v[1] not in cells:
                    cells.add(v[1])
                    todo.append(v[1])
                return
            if v[0] in ('sym', 'arg', 'seq', 'call', 'fld', 'elem'):
                if v[0] == 'seq' or v[0] == 'call':
                    if id(v) in seen:
                        return
                    seen.add(id(v))
                else:
                    return
            for x in v:
                if isinstance(x, tuple):
                    walk(x)
    while todo:
        c = todo.pop()
        walk(st.mem.get(c))


def merge_at(I, fr, blk, live, states):
    if len(states) < 2:
        return states
    groups = {}
    for s in states:
        cells = {c for c in s.mem if (c[0] == fr.id and c[1] in live) or (c[0] != fr.id and c[0] != 'h')}
        reach(s, list(cells), cells)
        sig = frozenset((c, s.mem[c]) for c in cells if c in s.mem)
        groups.setdefault(sig, []).append((s, cells))
    out = []
    for sig, ss in groups.items():
        if len(ss) == 1:
            out.append(ss[0][0])
            continue
        r = join([s for s, _ in ss])
        cells = ss[0][1]
        r.mem = {c: v for c, v in ss[0][0].mem.items() if c in cells}
        out.append(r)
    return out


def merge_rets(I, rets):
    """rets: list of (state, value)"""
    if len(rets) < 2:
        return rets
    groups = {}
    order = []
    for s, v in rets:
        cells = {c for c in s.mem if c[0] != 'h'}
        c0 = ('ret',)
        s.mem[c0] = v
        reach(s, list(cells) + [c0], cells)
        del s.mem[c0]
        sig = (v, frozenset((c, s.mem[c]) for c in cells if c in s.mem and c != c0))
        if sig not in groups:
            order.append(sig)
        groups.setdefault(sig, []).append(s)
    return [((join(groups[g]) if len(groups[g]) > 1 else groups[g][0]), g[0]) for g in order]
