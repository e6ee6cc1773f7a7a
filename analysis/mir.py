"""Loads the MIR dumps written by the driver into one program."""
import json


class Fn:
    __slots__ = ('key', 'd', 'P', 'tys', 'blocks', 'locals', 'argc', 'name', 'crate', 'loops', 'live', 'addr', 'rpo')

    def __init__(self, key, d, tys, crate):
        self.key, self.d, self.tys, self.crate = key, d, tys, crate
        self.blocks = d['blocks']
        self.locals = [tys(l['ty']) for l in d['locals']]
        self.argc = d['argc']
        self.name = d['name']
        self.loops = None
        self.live = None
        self.addr = None
        self.rpo = None


def place_locals(p):
    yield p[0]
    for e in p[1]:
        if isinstance(e, list) and e[0] == 'i':
            yield e[1]


def op_places(o):
    if o[0] in 'cm':
        yield o[1]


def rv_places(r):
    k = r[0]
    if k in ('use', 'repeat'):
        yield from op_places(r[1])
    elif k == 'ref':
        yield r[2]
    elif k == 'cast':
        yield from op_places(r[2])
    elif k == 'bin':
        yield from op_places(r[2])
        yield from op_places(r[3])
    elif k == 'un':
        yield from op_places(r[2])
    elif k == 'discr':
        yield r[1]
    elif k == 'agg':
        for o in r[2]:
            yield from op_places(o)


def rv_ops(r):
    k = r[0]
    if k in ('use', 'repeat'):
        yield r[1]
    elif k == 'cast':
        yield r[2]
    elif k == 'bin':
        yield r[2]
        yield r[3]
    elif k == 'un':
        yield r[2]
    elif k == 'agg':
        yield from r[2]


def term_ops(t):
    k = t[0]
    if k == 'switch':
        yield t[1]
    elif k == 'call':
        yield t[1]
        yield from t[2]
    elif k == 'tailcall':
        yield t[1]
        yield from t[2]
    elif k == 'assert':
        yield t[1]
        yield from t[4]


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + [t[3]]
    if k == 'drop':
        return [t[2]]
    if k == 'call':
        return [] if t[4] is None else [t[4]]
    if k == 'assert':
        return [t[5]]
    return []


class Program:
    def __init__(self):
        self.fns = {}
        self.adts = {}
        self.dumps = {}
        self.impls = {}
        self.fnrefs = []
        self.byname = {}

    def load(self, path):
        d = json.load(open(path))
        T = d['tys']
        memo = {}

        def ty(i):
            if i in memo:
                return memo[i]
            memo[i] = ('other', T[i]['s'])     # cycle guard
            t = T[i]
            k = t['k']
            if k in ('int', 'uint'):
                r = ('int', t['bits'], k == 'int')
            elif k in ('bool', 'char', 'str', 'never'):
                r = (k,)
            elif k == 'adt':
                r = ('adt', t['path'], tuple(ty(a) if isinstance(a, int) else a for a in t['args']))
            elif k == 'array':
                r = ('array', ty(t['elem']), t['len'])
            elif k == 'slice':
                r = ('slice', ty(t['elem']))
            elif k in ('ref', 'ptr'):
                r = (k, t['mut'], ty(t['to']))
            elif k == 'tuple':
                r = ('tuple', tuple(ty(a) for a in t['elems']))
            elif k == 'param':
                r = ('param', t['name'])
            elif k == 'closure':
                r = ('closure', t['key'], tuple(ty(a) for a in t['upvars']))
            elif k == 'fndef':
                f = dict(t['fn'])
                f['args'] = [ty(a) if isinstance(a, int) else a for a in f.get('args', [])]
                if 'self' in f:
                    f['self'] = ty(f['self'])
                self.fnrefs.append(f)
                r = ('fndef', len(self.fnrefs) - 1)
            else:
                r = ('other', t['s'])
            memo[i] = r
            return r

        for k, a in d['adts'].items():
            if k in self.adts and not a['local']:
                # keep the richer description
                if any('ty' in f for v in self.adts[k]['variants'] for f in v['fields']):
                    continue
            a = dict(a)
            a['crate'] = d['crate']
            for v in a['variants']:
                for f in v['fields']:
                    if 'ty' in f:
                        f['ty'] = ty(f['ty'])
            self.adts[k] = a
        for k, f in d['fns'].items():
            fn = Fn(k, f, ty, d['crate'])
            self.fns[k] = fn
            if '::promoted[' not in k:
                self.byname.setdefault(f['name'], k)
            im = f.get('impl_self')
            if im and f.get('impl_trait'):
                self.impls.setdefault((f['impl_trait'], im, f['name'].split('::')[-1]), k)
        self.dumps[d['crate'] + ('_bin' if path.endswith('_bin.json') else '')] = d
        return d

    def fields(self, path, variant, args):
        a = self.adts.get(path)
        if a is None:
            return None
        env = dict(zip(a['generics'], args))
        out = []
        for f in a['variants'][variant]['fields']:
            out.append(subst_ty(f['ty'], env) if 'ty' in f else ('other', '?'))
        return out

    def nvariants(self, path):
        a = self.adts.get(path)
        return None if a is None else len(a['variants'])

    # ------------------------------------------------------------ call graph
    def callees(self, fn):
        out = set()
        for b in fn.blocks:
            if b is None:
                continue
            ops = []
            for s in b['s']:
                if s[0] == '=':
                    ops += list(rv_ops(s[2]))
                    if s[2][0] == 'agg' and s[2][1][0] == 'closure':
                        t = fn.tys(s[2][1][1])
                        out.add(t[1])
            ops += list(term_ops(b['t']))
            for o in ops:
                if o[0] == 'k':
                    t = fn.tys(o[1]['ty'])
                    if t[0] == 'fndef':
                        f = self.fnrefs[t[1]]
                        if f.get('key') in self.fns:
                            out.add(f['key'])
                    elif t[0] == 'closure':
                        out.add(t[1])
                    if o[1].get('promoted') in self.fns:
                        out.add(o[1]['promoted'])
        return out

    def graph(self):
        return {k: self.callees(f) for k, f in self.fns.items()}

    def sccs(self):
        g = self.graph()
        index, low, on, st, res = {}, {}, set(), [], {}
        cnt = [0]
        import sys
        sys.setrecursionlimit(100000)

        def dfs(v):
            index[v] = low[v] = cnt[0]
            cnt[0] += 1
            st.append(v)
            on.add(v)
            for w in g[v]:
                if w not in g:
                    continue
                if w not in index:
                    dfs(w)
                    low[v] = min(low[v], low[w])
                elif w in on:
                    low[v] = min(low[v], index[w])
            if low[v] == index[v]:
                comp = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp.append(w)
                    if w == v:
                        break
                for w in comp:
                    res[w] = frozenset(comp)
        for v in g:
            if v not in index:
                dfs(v)
        return g, res

    def cut_set(self):
        """Entry points of recursive components: recursive functions (not closures) called from
        outside their component, or visible from outside."""
        g, scc = self.sccs()
        rec = {v for v in g if len(scc[v]) > 1 or v in g[v]}
        cut = set()
        for v in rec:
            fn = self.fns[v]
            if fn.d.get('closure'):
                continue
            outside = any(v in g[u] and scc[u] != scc[v] for u in g)
            if outside or fn.d.get('reach'):
                cut.add(v)
        # every cycle must be broken
        for v in rec:
            if not (scc[v] & cut):
                fs = sorted(w for w in scc[v] if not self.fns[w].d.get('closure'))
                cut.add(fs[0] if fs else sorted(scc[v])[0])
        return cut


def subst_ty(t, env):
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == 'param':
        return env.get(t[1], t)
    return tuple(subst_ty(x, env) for x in t) if any(isinstance(x, tuple) for x in t) else t


# ---------------------------------------------------------------- CFG facts

def loops_of(fn):
    """header -> set of blocks of the natural loop"""
    if fn.loops is not None:
        return fn.loops
    n = len(fn.blocks)
    sc = {i: ([] if fn.blocks[i] is None else [s for s in succs(fn.blocks[i]['t']) if fn.blocks[s] is not None])
          for i in range(n)}
    pred = {i: [] for i in range(n)}
    for i in sc:
        for s in sc[i]:
            pred[s].append(i)
    # dominators
    order, seen = [], set()
    stack = [(0, iter(sc[0]))]
    seen.add(0)
    while stack:
        v, it = stack[-1]
        for w in it:
            if w not in seen:
                seen.add(w)
                stack.append((w, iter(sc[w])))
                break
        else:
            order.append(v)
            stack.pop()
    order.reverse()
    dom = {0: {0}}
    ch = True
    while ch:
        ch = False
        for v in order:
            if v == 0:
                continue
            ps = [dom[p] for p in pred[v] if p in dom]
            d = set.intersection(*ps) | {v} if ps else {v}
            if dom.get(v) != d:
                dom[v] = d
                ch = True
    loops = {}
    for v in order:
        for w in sc[v]:
            if w in dom[v]:
                body = loops.setdefault(w, {w})
                st = [v]
                while st:
                    x = st.pop()
                    if x not in body:
                        body.add(x)
                        st.extend(p for p in pred[x] if p in dom)
    fn.loops = loops
    return loops


def rpo(fn):
    if fn.rpo is not None:
        return fn.rpo
    n = len(fn.blocks)
    sc = {i: ([] if fn.blocks[i] is None else [s for s in succs(fn.blocks[i]['t']) if fn.blocks[s] is not None])
          for i in range(n)}
    order, seen = [], {0}
    stack = [(0, iter(sc[0]))]
    while stack:
        v, it = stack[-1]
        for w in it:
            if w not in seen:
                seen.add(w)
                stack.append((w, iter(sc[w])))
                break
        else:
            order.append(v)
            stack.pop()
    order.reverse()
    fn.rpo = {b: i for i, b in enumerate(order)}
    return fn.rpo


def liveness(fn):
    """block -> set of locals live on entry (locals whose mutable address is taken count as live)."""
    if fn.live is not None:
        return fn.live
    n = len(fn.blocks)
    use, kill = {}, {}
    addr = set()
    for i, b in enumerate(fn.blocks):
        u, k = set(), set()
        if b is None:
            use[i], kill[i] = u, k
            continue

        def rd(p):
            for l in place_locals(p):
                if l not in k:
                    u.add(l)

        def wr(p):
            if p[1]:
                rd(p)
            else:
                k.add(p[0])
        for s in b['s']:
            if s[0] == '=':
                for p in rv_places(s[2]):
                    rd(p)
                if s[2][0] == 'ref' and s[2][1]:
                    addr.add(s[2][2][0])
                wr(s[1])
            else:
                rd(s[1])
        t = b['t']
        for o in term_ops(t):
            for p in op_places(o):
                rd(p)
        if t[0] == 'call':
            wr(t[3])
        if t[0] == 'ret':
            u.add(0)
        use[i], kill[i] = u, k
    live = {i: set() for i in range(n)}
    ch = True
    while ch:
        ch = False
        for i in range(n - 1, -1, -1):
            if fn.blocks[i] is None:
                continue
            out = set()
            for s in succs(fn.blocks[i]['t']):
                if fn.blocks[s] is not None:
                    out |= live[s]
            v = use[i] | (out - kill[i])
            if v != live[i]:
                live[i] = v
                ch = True
    fn.addr = addr
    for i in live:
        live[i] |= addr
    fn.live = live
    return live
