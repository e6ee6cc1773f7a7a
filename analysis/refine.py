"""Specialisation of summaries at small iteration counts.

When two leaves contain loop-valued terms the comparison cannot relate, both are specialised: the sizes
that bound the loops are fixed to small constants, loop-valued terms are then expanded to loop-free
terms, and the specialised leaves are compared.  A definite difference of the specialised leaves is a
definite difference of the functions (for inputs of that size); equality proves nothing and the pair
stays undecided."""
import itertools
import time
from values import *
import term as T
import interp as IN
from interp import State
import textfold

LIMIT = 12


def facts(st):
    """formulas of a state"""
    out = list(st.log)
    for l in st.lin:
        if isinstance(l, Lin):
            out.append(norm_le(l))
    for t, v in st.bools.items():
        if t[0] != 'eqlit':
            out.append(('b', t) if v else fnot(('b', t)))
    for t, v in st.var.items():
        out.append(('b', ('is', t, v)))
    for t, vs in st.notvar.items():
        for v in vs:
            out.append(fnot(('b', ('is', t, v))))
    for d in st.neqs:
        out.append(fnot(eq(d, 0)))
    out += st.ors
    return list(dict.fromkeys(out))


def bool_cases(cs):
    return for_(*[fand(g, v if is_formula(v) else ('b', v)) for g, v in cs])


def eval_acc(L, i, c, u):
    A = IN.LOOPS[L]
    Z = u.subst or (lambda t: t)
    vals = [u(Z(v)) for v in A['init']]
    for j in range(c):
        m = {A['k']: j}
        for x, v in zip(A['X'], vals):
            m[x] = v
        S = Subst(m)
        new = []
        steps = [(u(Z(S(g))), nv) for g, nv in A['steps']]
        for r in range(len(vals)):
            cs = [(g, u(Z(S(nv[r])))) for g, nv in steps if g != FF]
            if not cs:
                return None
            if len({v for _, v in cs}) == 1:
                new.append(cs[0][1])
            elif A['kinds'][r] == 'bool':
                new.append(bool_cases(cs))
            else:
                new.append(mk_cases(cs))
        vals = new
    return vals[i]


class Unroll:
    """expands loop-valued terms with constant iteration counts"""

    def __init__(self, subst=None):
        self.memo = {}
        self.n = 0
        self.subst = subst      # applied to the bodies of the loops expanded

    def __call__(self, t):
        if isinstance(t, (int, str, bytes)) or t is None:
            return t
        r = self.memo.get(t)
        if r is None:
            self.n += 1
            if self.n > 40000:
                raise IN.TooComplex('unroll')
            if IN.DEADLINE and self.n & 255 == 0 and time.time() > IN.DEADLINE:
                raise IN.TooComplex('time')
            r = self.go(t)
            self.memo[t] = r
        return r

    def go(self, t):
        if isinstance(t, Lin):
            r = t.c
            for a, k in t.t.items():
                x = self(a)
                r = add(r, scale(x if is_int(x) else as_int(x), k))
            return r
        if not t:
            return t
        if t[0] == 'lam':
            v = fresh('o')
            RANGE[v] = (0, None)
            b = app(t, v)
            b2 = self(b)
            return t if b2 == b else mk_lam(b2, v)
        n = tuple(self(x) for x in t)
        if n != t:
            if t in RANGE and n not in RANGE:
                RANGE[n] = RANGE[t]
            if t in IN.VARN and isinstance(n, tuple) and n not in IN.VARN:
                IN.VARN[n] = IN.VARN[t]
            r = self.special(n)
            if r is None:
                r = T.rebuild(n)
                if r != n and isinstance(r, (tuple, Lin)):
                    r = self(r)
            return r
        r = self.special(n)
        return n if r is None else r

    def special(self, n):
        h = n[0]
        if not isinstance(h, str):
            return None
        if h == 'acc' and isinstance(n[3], int) and 0 <= n[3] <= LIMIT:
            return eval_acc(n[1], n[2], n[3], self)
        if h == 'sum' and isinstance(n[1], int) and 0 <= n[1] <= LIMIT:
            r = 0
            for j in range(n[1]):
                x = self(app(n[2], j))
                r = add(r, x if is_int(x) else as_int(x))
            return r
        if h == 'b' and isinstance(n[1], tuple) and n[1]:
            x = n[1]
            if x[0] == 'all' and isinstance(x[1], int) and 0 <= x[1] <= LIMIT:
                return fand(*[self(app(x[2], j)) for j in range(x[1])])
            if x[0] == 'cases':
                return bool_cases(x[1])
            if x[0] == 'is' and isinstance(x[1], tuple) and x[1] and x[1][0] == 'cases':
                return for_(*[fand(g, self(('b', ('is', v, x[2])))) for g, v in x[1][1]])
        if h == 'first' and isinstance(n[1], int) and 0 < n[1] <= LIMIT:
            cs = []
            pre = TT
            for j in range(n[1]):
                c = self(app(n[2], j))
                cs.append((fand(pre, fnot(c)), j))
                pre = fand(pre, c)
            return mk_cases(cs)
        if h == 'fld' and isinstance(n[1], tuple) and n[1] and n[1][0] == 'cases':
            return self(self.lift_cases(n[1], lambda v: T.rebuild(('fld', v) + n[2:])))
        if h == 'len' and isinstance(n[1], tuple) and n[1] and n[1][0] == 'cases':
            return self(self.lift_cases(n[1], lambda v: slen(v)))
        if h == 'seq':
            out = []
            ch = False
            for s in n[1]:
                if s[0] in ('flat', 'comp') and isinstance(s[1], int) and 0 <= s[1] <= LIMIT:
                    ch = True
                    for j in range(s[1]):
                        x = self(app(s[2], j))
                        if s[0] == 'comp':
                            out.append(('one', x))
                        elif x[0] == 'cases':
                            out.append(('sub', x, 0, slen(x)))
                        else:
                            out += segs_of(x)
                else:
                    out.append(s)
            if ch:
                return mkseq(tuple(out))
        if h in ('min', 'max') and len(n) > 2 and all(isinstance(x, int) for x in n[1:]):
            return min(n[1:]) if h == 'min' else max(n[1:])
        if h == 'wrap' and isinstance(n[3], int):
            bits, signed = n[1], n[2]
            x = n[3] & ((1 << bits) - 1)
            return x - (1 << bits) if signed and x >> (bits - 1) else x
        if h == 'wrap' and not n[2] and isinstance(n[3], Lin) and n[1] >= 16 and 0 <= n[3].c < 1 << 15 and \
                all(0 < k < 1 << 10 and a[0] == 'len' for a, k in n[3].t.items()):
            return n[3]         # sizes are small here
        if h == 'mod' and isinstance(n[1], int) and isinstance(n[2], int) and n[2]:
            return n[1] % n[2]
        return None

    def lift_cases(self, c, f):
        cs = [(g, f(v)) for g, v in c[1]]
        if all(is_formula(v) for _, v in cs):
            return bool_cases(cs)
        return mk_cases(cs)


class UnrollAcc(Unroll):
    """expands the given accumulators with constant iteration counts only"""

    def __init__(self, loops):
        Unroll.__init__(self)
        self.loops = loops

    def special(self, n):
        if n[0] == 'acc' and n[1] in self.loops and isinstance(n[3], int) and 0 <= n[3] <= 8:
            return eval_acc(n[1], n[2], n[3], self)
        return None


def find_cases(t, memo):
    """an innermost case distinction outside binders, or None"""
    if isinstance(t, Lin):
        for a in t.t:
            r = find_cases(a, memo)
            if r is not None:
                return r
        return None
    if not isinstance(t, tuple) or not t:
        return None
    k = id(t)
    if k in memo:
        return None
    memo.add(k)
    if t[0] == 'lam':
        return None
    for x in t:
        if isinstance(x, (tuple, Lin)):
            r = find_cases(x, memo)
            if r is not None:
                return r
    return t if t[0] == 'cases' else None


def expand(fi, fs, vi, vs, limit=48):
    """case-free versions of (impl facts, spec facts, impl value, spec value)"""
    work = [(fi, fs, vi, vs)]
    out = []
    while work:
        if len(work) + len(out) > limit:
            raise IN.TooComplex('cases')
        fi, fs, vi, vs = work.pop()
        memo = set()
        c = find_cases((tuple(fi), tuple(fs), vi, vs), memo)
        if c is None:
            out.append((fi, fs, vi, vs))
            continue
        insp = find_cases(tuple(fs), set()) is not None and T.occurs(tuple(fs) + (vs,), lambda x: x == c)
        for g, v in c[1]:
            S = Subst({c: v})
            u = Unroll()
            f1 = [u(S(f)) for f in fi]
            f2 = [u(S(f)) for f in fs]
            if insp:
                f2.append(u(S(g)))
            else:
                f1.append(u(S(g)))
            if FF in f1 or FF in f2:
                continue
            work.append(([f for f in f1 if f != TT], [f for f in f2 if f != TT], u(S(vi)), u(S(vs))))
    return out


def counts(t, out, memo):
    """terms bounding loops"""
    if isinstance(t, Lin):
        for a in t.t:
            counts(a, out, memo)
        return
    if not isinstance(t, tuple) or not t or id(t) in memo:
        return
    memo.add(id(t))
    h = t[0]
    if h in ('sum', 'all', 'first', 'flat') and t[1] is not None and not isinstance(t[1], int):
        out.append(t[1])
    if h == 'acc' and not isinstance(t[3], int):
        out.append(t[3])
    for x in t:
        if isinstance(x, (tuple, Lin)):
            counts(x, out, memo)


def base_atoms(n, out):
    """input sizes a bound depends on"""
    if isinstance(n, Lin):
        for a in n.t:
            base_atoms(a, out)
        return
    if not isinstance(n, tuple) or not n:
        return
    if T.occurs(n, lambda x: x[0] == 'bv'):
        return
    if n[0] == 'sym' and isinstance(n[1], str) and n[1].startswith('j$'):
        if n not in out:
            out.append(n)
        return
    if n[0] in ('len', 'arg', 'fld', 'beint', 'nchars') and not T.occurs(n, lambda x: x[0] in ('acc', 'first', 'sum')):
        if n not in out:
            out.append(n)
        return
    if n[0] == 'wrap':
        base_atoms(n[3], out)
        return
    if n[0] in ('min', 'max', 'div', 'mod', 'cases', 'filter'):
        for x in n[1:]:
            if isinstance(x, (tuple, Lin)):
                base_atoms(x, out)


def small_consts(t, out, memo):
    if isinstance(t, Lin):
        if 2 < abs(t.c) <= 9:
            out.add(abs(t.c))
        for a in t.t:
            small_consts(a, out, memo)
    elif isinstance(t, tuple):
        if id(t) in memo:
            return
        memo.add(id(t))
        for x in t:
            small_consts(x, out, memo)


def assignments(fi, fs, vi, vs):
    ns = []
    counts((tuple(fi), tuple(fs), vi, vs), ns, set())
    atoms = []
    for n in ns:
        base_atoms(n, atoms)
    atoms = atoms[:4]
    if not atoms:
        return []
    cs = set()
    small_consts((tuple(fi), tuple(fs), vi, vs), cs, set())
    dom = [1, 2, 0]
    out = []
    doms = [dom + [3] if a[0] == 'nchars' and len(atoms) < 4 else dom for a in atoms]
    for a in itertools.product(*doms):
        d = dict(zip(atoms, a))
        if any(x[0] == 'sym' and d[x] >= max(list(d.values()) + [1]) and d[x] > 0 and any(y[0] == 'nchars' for y in atoms) for x in atoms):
            continue
        out.append(d)
    out.sort(key=lambda d: sum(d.values()))
    out = out[:60]
    for c in sorted(cs)[:3]:
        for x in (c, c + 1):
            out.append({a: x for a in atoms})
            for a in atoms[:2]:
                out.append({b: (x if b == a else 1) for b in atoms})
    ds = set()
    T.occurs((tuple(fi), tuple(fs), vi, vs), lambda x: x[0] in ('div', 'mod') and isinstance(x[2], int) and ds.add(x[2]) and False)
    for d in sorted(ds)[:2]:
        for x in (d + 1, d, d - 1, 2 * d):
            for a in atoms[:2]:
                out.append({b: (x if b == a else 1) for b in atoms})
    return out


def divided(fi, fs, vi, vs):
    """constants for the sizes that quotients and remainders are taken of"""
    t = (tuple(fi), tuple(fs), vi, vs)
    atoms, ds, cs = [], set(), set()

    def lens(x):
        if isinstance(x, Lin):
            for a in x.t:
                lens(a)
        elif isinstance(x, tuple) and x:
            if x[0] == 'len':
                if x not in atoms and not T.occurs(x, lambda y: y[0] in ('bv', 'acc', 'first', 'sum')):
                    atoms.append(x)
            elif x[0] in ('div', 'mod', 'wrap', 'mul'):
                for y in x[1:]:
                    lens(y)

    def see(x):
        if x[0] in ('div', 'mod') and isinstance(x[2], int) and 1 < x[2] <= 256:
            ds.add(x[2])
            lens(x[1])
        return False
    T.occurs(t, see)
    if not atoms or len(atoms) > 3:
        return []
    small_consts(t, cs, set())
    out = []
    for d in sorted(ds)[:2]:
        vals = [d, d + 1, d - 1, 0, 1, 2 * d] + [c + k for c in sorted(cs)[:3] for k in (0, d)]
        for v in vals:
            out.append({a: v for a in atoms})
            for a in atoms if len(atoms) > 1 else ():
                out.append({b: (v if b == a else d) for b in atoms})
    return out


def written(fi, fs, vi, vs):
    """constants for the numbers that are written in decimal"""
    atoms = []

    def see(x):
        if x[0] == 'dec' and isinstance(x[1], Lin) and len(x[1].t) == 1:
            a = next(iter(x[1].t))
            if a not in atoms and not T.occurs(a, lambda y: y[0] in ('bv', 'acc', 'first', 'sum')):
                atoms.append(a)
        return False
    t = (tuple(fi), tuple(fs), vi, vs)
    T.occurs(t, see)
    if not atoms or len(atoms) > 2:
        return []
    cs = set()

    def consts(x):
        if isinstance(x, Lin):
            if len(x.t) == 1 and next(iter(x.t)) in atoms:
                cs.update(c for c in (abs(x.c), abs(x.c) + 1, abs(x.c) - 1) if c >= 0)
            for a in x.t:
                consts(a)
        elif isinstance(x, tuple):
            for y in x:
                consts(y)
    consts(t)
    return [{a: v for a in atoms} for v in list(dict.fromkeys(sorted(cs)[:8] + [0, 1, 8, 256]))]


def text_facts(asg, fs):
    """what fixing the number of characters of a text says about its characters and their positions"""
    out = []
    for a, c in asg.items():
        if a[0] != 'nchars':
            continue
        S = a[1]
        n = slen(S)
        out += [le(c, n), le(n, 4 * c)]
        pos = [as_int(('cpos', S, i)) for i in range(c + 1)]
        ch = [as_int(('char', S, i)) for i in range(c)]
        for x in pos:
            set_range(next(iter(x.t)), 0, (1 << 63) - 1)
        for x in ch:
            set_range(next(iter(x.t)), 0, 0x10FFFF)
        out += [eq(pos[0], 0), eq(pos[c], n)]
        for i in range(c):
            out.append(le(add(pos[i], 1), pos[i + 1]))
            out.append(le(pos[i + 1], add(pos[i], 4)))
            out.append(for_(lt(127, ch[i]), eq(pos[i + 1], add(pos[i], 1))))
        if c and T.occurs(tuple(fs), lambda x: x == ('lastch', S)):
            out.append(eq(as_int(('lastch', S)), ch[c - 1]))
        for f in fs:
            neg_ = f[0] == 'not'
            g = f[1] if neg_ else f
            if g[0] != 'b' or not isinstance(g[1], tuple) or g[1][0] not in ('pre', 'suf', 'eqs'):
                continue
            x = IN.str_atom(g[1])
            if x is None or x[1] != S or any(b > 127 for b in x[2]):
                continue
            kind, _, l = x
            if neg_:
                if kind != 'eqs' and len(l) == 1 and c:
                    out.append(fnot(eq(ch[0 if kind == 'pre' else c - 1], l[0])))
                elif len(l) == c:
                    out.append(for_(*[fnot(eq(ch[i], l[i])) for i in range(c)]))
                continue
            if len(l) > c or (kind == 'eqs' and len(l) != c):
                out.append(FF)
                continue
            o = c - len(l) if kind == 'suf' else 0
            for i in range(len(l)):
                out.append(eq(ch[o + i], l[i]))
    return out


class Sized:
    """input sizes fixed to constants for the duration of a comparison"""

    def __init__(self, asg):
        self.asg = asg
        self.saved = {}

    def __enter__(self):
        self.m = {}
        for a, c in self.asg.items():
            self.m[a] = c
            if a[0] == 'len':
                self.saved[a[1]] = STATICLEN.get(a[1])
                STATICLEN[a[1]] = c
        return self

    def __exit__(self, *a):
        for t, c in self.saved.items():
            if c is None:
                STATICLEN.pop(t, None)
            else:
                STATICLEN[t] = c

    def leaves(self, fi, fs, vi, vs):
        """-> list of loop-free (impl facts, spec facts, impl value, spec value)"""
        S = Subst(self.m)
        u = Unroll(S if self.m else None)
        f1 = [u(S(f)) for f in fi]
        f2 = [u(S(f)) for f in fs]
        if FF in f1 or FF in f2:
            return []
        x1, x2 = u(S(vi)), u(S(vs))
        tf = [u(S(f)) for f in text_facts(self.asg, f1 + f2)]
        if FF in tf:
            return []
        f1 += tf
        f2 += tf
        return expand([f for f in f1 if f != TT], [f for f in f2 if f != TT], x1, x2)


def unfoldable(C, J, terms):
    """a call of a function with a reference definition whose argument has a known shape"""
    found = []
    memo = set()

    def go(t):
        if isinstance(t, Lin):
            for a in t.t:
                go(a)
        elif isinstance(t, tuple) and t:
            if id(t) in memo:
                return
            memo.add(id(t))
            if t[0] == 'lam':
                return
            for x in t:
                if isinstance(x, (tuple, Lin)):
                    go(x)
            if t[0] == 'call' and t[1] in C.defs and t not in found:
                for a in t[2]:
                    if isinstance(a, tuple) and a and (a[0] in ('adt', 'seq') or a in J.var or a in J.notvar or
                                                       (a in STATICLEN and a[0] != 'arg')):
                        found.append(t)
                        break
    for x in terms:
        go(x)
    return found


def text_axioms(fs):
    """what tests of a text against literals say about single bytes and characters of it"""
    tests, used = {}, set()

    def see(x):
        if x[0] in ('pre', 'suf', 'eqs'):
            a = IN.str_atom(x)
            if a is not None and lit_of(a[1]) is None:
                tests.setdefault(a[1], {})[x] = a
        elif x[0] in ('elem', 'char', 'nchars', 'len'):
            used.add((x[0], x[1]))
        return False
    T.occurs(tuple(fs), see)
    out = []
    for S, d in sorted(tests.items(), key=hashkey):
        n = slen(S)
        for x, (kind, _, l) in sorted(d.items(), key=hashkey):
            for y, (kind2, _, m) in sorted(d.items(), key=hashkey):
                if kind == 'pre' and kind2 == 'suf' and len(l) == len(m) == 1 and l != m and max(l + m) < 128:
                    # two different ASCII characters at the ends: two characters, two bytes and that literal are the same
                    ends = (fnot(('b', x)), fnot(('b', y)))
                    two = eq(n, 2)
                    if ('nchars', S) in used:
                        nc = eq(as_int(('nchars', S)), 2)
                        out += [for_(fnot(nc), two, *ends), for_(nc, fnot(two), *ends)]
                    for z, (kind3, _, o) in d.items():
                        if kind3 == 'eqs' and o == l + m:
                            out += [for_(fnot(('b', z)), two), for_(('b', z), fnot(two), *ends)]
        for x, (kind, _, l) in sorted(d.items(), key=hashkey):
            if len(l) > 8:
                continue
            A = ('b', x)
            lens = eq(n, len(l)) if kind == 'eqs' else le(len(l), n)
            if ('elem', S) in used:
                at = [i if kind != 'suf' else add(n, i - len(l)) for i in range(len(l))]
                E = []
                for i, c in zip(at, l):
                    e = ('elem', S, i)
                    set_range(e, 0, 255)
                    E.append(eq(as_int(e), c))
                B = fand(lens, *E)
                out += [for_(fnot(A), B), for_(A, fnot(B))]
            if ('char', S) in used and kind != 'suf' and len(l) == 1 and l[0] < 128:
                e = ('char', S, 0)
                set_range(e, 0, 0x10FFFF)
                B = fand(lens, eq(as_int(e), l[0]))
                out += [for_(fnot(A), B), for_(A, fnot(B))]
    return out


def json_axioms(fs):
    """a document that can be read as some type can be skipped"""
    d = {}
    T.occurs(tuple(fs), lambda x: x[0] == 'call' and x[1] == 'de' and d.setdefault(x[2][0], set()).add(x))
    out = []
    for x, cs in sorted(d.items(), key=hashkey):
        for c in cs:
            if 'IgnoredAny' in c[2][1][1]:
                out += [for_(fnot(('b', ('is', e, 0))), ('b', ('is', c, 0))) for e in sorted(cs, key=hashkey) if e != c]
    return out


MAPGET = ('mapget', 'mapgetor')


def map_chain(m):
    """([(key, value)] latest first, base)"""
    out = []
    while m[0] == 'mapset':
        out.append((m[2], m[3]))
        m = m[1]
    return out, m


def key_pair(J, terms):
    """two keys of one map whose equality is not known"""
    hit = []

    def see(x):
        if x[0] == 'mapset' or x[0] in MAPGET and x[1][0] == 'mapset':
            ks = [k for k, _ in map_chain(x if x[0] == 'mapset' else x[1])[0]] + ([x[2]] if x[0] in MAPGET else [])
            for a, b in itertools.combinations(ks, 2):
                e = eqseq(J, a, b)
                if e not in (TT, FF) and not J.prove(e) and not J.prove(fnot(e)):
                    hit.append(e)
                    return True
        return False
    T.occurs(tuple(terms), see)
    return hit[0] if hit else None


class MapNorm(Unroll):
    """maps with known keys: lookups resolved, overwritten entries dropped, entries in a fixed order"""

    def __init__(self, J):
        Unroll.__init__(self)
        self.J = J

    def same(self, a, b):
        e = eqseq(self.J, a, b)
        return True if e == TT or self.J.prove(e) else False if e == FF or self.J.prove(fnot(e)) else None

    def special(self, n):
        if n[0] in MAPGET and n[1][0] in ('mapset', 'mapempty'):
            ch, m = map_chain(n[1])
            for k, v in ch:
                q = self.same(k, n[2])
                if q is None:
                    return None
                if q:
                    return v if n[0] == 'mapgetor' else IN.some(v) if hasattr(IN, 'some') else ('adt', 'core::option::Option', 1, (v,))
            if m[0] == 'mapempty':
                return n[3] if n[0] == 'mapgetor' else ('adt', 'core::option::Option', 0, ())
            return (n[0], m) + n[2:]
        if n[0] == 'mapset':
            ch, m = map_chain(n)
            out = []
            for k, v in ch:
                qs = [self.same(k, o) for o, _ in out]
                if None in qs:
                    return None
                if True not in qs:
                    out.append((k, v))
            for k, v in sorted(out, key=lambda x: hashkey(x[0])):
                m = ('mapset', m, k, v)
            return m if m != n else None
        return None


def split_keys(C, J, fi, fs, vi, vs, depth, deadline):
    """the verdict with the equalities of map keys decided, or None"""
    import equiv
    terms = list(fi) + list(fs) + [vi, vs]
    if not T.occurs(tuple(terms), lambda x: x[0] == 'mapset'):
        return None
    e = key_pair(J, terms)
    if e is not None:
        rs = []
        for g in (e, fnot(e)):
            q = decide(C, list(fi) + [g], list(fs) + [g], vi, vs, depth, deadline)
            if q[0] == 'neq':
                return q
            rs.append(q)
        return equiv.worst(*rs)
    u = MapNorm(J)
    f1, f2, x1, x2 = [u(f) for f in fi], [u(f) for f in fs], u(vi), u(vs)
    if (f1, f2, x1, x2) == (list(fi), list(fs), vi, vs):
        return None
    if FF in f1 or FF in f2:
        return ('eq', None)
    return decide(C, [f for f in f1 if f != TT], [f for f in f2 if f != TT], x1, x2, depth + 1, deadline)


def equal_sizes(fi, fs, vi, vs):
    """the leaves with one of two sizes known to be equal replaced by the other; None if there are none"""
    m = {}
    keep = []
    for f in list(fi) + list(fs):
        if f[0] == 'eq' and isinstance(f[1], Lin) and f[1].c == 0 and len(f[1].t) == 2 and sorted(f[1].t.values()) == [-1, 1] and \
                all(a[0] == 'len' for a in f[1].t):
            a, b = sorted(f[1].t, key=lambda x: (len(show(x)), hashkey(x)), reverse=True)
            if a not in m and b not in m and a not in m.values() and not T.occurs(b, lambda x: x == a):
                m[a] = as_int(b)
                keep.append(f)
    if not m:
        return None
    S = Subst(m)
    g1, g2 = [f if f in keep else S(f) for f in fi], [f if f in keep else S(f) for f in fs]
    x1, x2 = S(vi), S(vs)
    if (g1, g2, x1, x2) == (list(fi), list(fs), vi, vs):
        return None
    return [f for f in g1 if f != TT], [f for f in g2 if f != TT], x1, x2


def fixed_loops(C, fi, fs, vi, vs, depth, deadline):
    """loops whose iteration count is a constant, written out"""
    import equiv
    u = Unroll()
    f1, f2 = [u(f) for f in fi], [u(f) for f in fs]
    x1, x2 = u(vi), u(vs)
    if (f1, f2, x1, x2) == (list(fi), list(fs), vi, vs):
        return None
    if FF in f1 or FF in f2:
        return ('eq', None)
    rs = []
    for a, b, v, w in expand([f for f in f1 if f != TT], [f for f in f2 if f != TT], x1, x2):
        q = decide(C, a, b, v, w, depth + 1, deadline)
        if q[0] == 'neq':
            return q
        rs.append(q)
    return equiv.worst(*rs) if rs else None


def decide(C, fi, fs, vi, vs, depth, deadline):
    """verdict for one pair of leaves; (NEQ, why) is certain"""
    import equiv
    import time
    if time.time() > deadline:
        return ('unk', 'time')
    J = State()
    for f in fs + fi + text_axioms(fs + fi) + json_axioms(fs + fi):
        if not J.add(f):
            return ('eq', None)
    C.steps = 0
    C.accpairs = {}
    if C.strict:
        q = split_keys(C, J, fi, fs, vi, vs, depth, deadline)
        if q is not None:
            return q
    hit = []

    def leaf(s):
        r = C.cmp(s, vi, vs)
        if r[0] == 'neq':
            hit.append(s)
        return r
    C.base = set(facts(J))
    C.certify = lambda s: equiv.blocked(C, s, fi, fs, vi, vs)
    r = C.split(J, leaf)
    C.base = C.certify = None
    if r[0] == 'eq':
        return r
    if r[0] == 'unk' and not C.texts and depth == 0:
        q = constant_texts(C, fi, fs, vi, vs, depth, deadline)
        if q is not None:
            return q
    if r[0] == 'neq':
        st = hit[-1]
    else:
        st = J
    if equiv.DEBUG:
        print('   ' + '  ' * depth, 'decide', r[0], str(r[1])[:300])
    if depth >= (9 if C.strict else 5):
        return r if r[0] == 'unk' else ('unk', 'depth: ' + str(r[1]))
    if r[0] == 'unk' and depth == 0:
        e = equal_sizes(fi, fs, vi, vs)
        if e is not None:
            if FF in e[0] or FF in e[1]:
                return ('eq', None)
            q = decide(C, *e, depth + 1, deadline)
            if q[0] != 'unk':
                return q
    calls = unfoldable(C, st, list(fi) + list(fs) + [vi, vs])
    if r[0] == 'neq' and not calls:
        return r
    if calls:
        c = calls[0]
        try:
            outs = C.unfold(c, st)
        except (IN.TooComplex, IN.Unsupported, RecursionError, KeyError):
            outs = None
        if outs is None:
            return ('unk', 'cannot unfold ' + c[1])
        rs = []
        base = set(facts(st))
        case = []
        if st is not J:         # the call is written out in one case of the disjunctions only
            known = set(facts(J))
            case = [f for f in facts(st) if f not in known and f not in J.ors]
            fi, fs = list(fi) + case, list(fs) + case
        for s2, v in outs:
            S = Subst({c: v})
            new = [f for f in facts(s2) if f not in base]
            u = Unroll(S)
            try:
                f1 = [u(S(f)) for f in list(fi) + new]
                f2 = [u(S(f)) for f in list(fs) + new]
                x1, x2 = u(S(vi)), u(S(vs))
            except IN.TooComplex:
                return ('unk', 'unroll')
            if FF in f1 or FF in f2:
                continue
            q = decide(C, [f for f in f1 if f != TT], [f for f in f2 if f != TT], x1, x2, depth + 1, deadline)
            if q[0] == 'neq':
                return q
            rs.append(q)
        if case:
            other = fnot(fand(*case))
            fi, fs = [f for f in fi if f not in case], [f for f in fs if f not in case]
            q = decide(C, fi + [other], fs + [other], vi, vs, depth + 1, deadline)
            if q[0] == 'neq':
                return q
            rs.append(q)
        return equiv.worst(*rs) if rs else ('eq', None)
    if r[0] == 'unk':
        try:
            q = fixed_loops(C, fi, fs, vi, vs, depth, deadline)
        except (IN.TooComplex, IN.Unsupported, RecursionError):
            q = None
        if q and q[0] != 'unk':
            return q
    for asg in assignments(fi, fs, vi, vs) + divided(fi, fs, vi, vs) + (written(fi, fs, vi, vs) if r[0] == 'unk' else []):
        try:
            with Sized(asg) as z:
                for f1, f2, v1, v2 in z.leaves(fi, fs, vi, vs):
                    q = decide(C, f1, f2, v1, v2, depth + 1, deadline)
                    if q[0] == 'neq':
                        return ('neq', '%s [at %s]' % (q[1], ', '.join('%s=%d' % (show(k)[:80], n) for k, n in asg.items())))
        except (IN.TooComplex, IN.Unsupported, RecursionError) as e:
            if equiv.DEBUG:
                print('   ' + '  ' * depth, type(e).__name__, e)
    if r[0] == 'unk' and not C.texts and depth:
        q = constant_texts(C, fi, fs, vi, vs, depth, deadline)
        if q is not None:
            return q
    return r


def constant_texts(C, fi, fs, vi, vs, depth, deadline):
    """a definite difference with the texts the conditions are about fixed to constants, or None"""
    import equiv
    if not any(equiv.stringy(f) or T.occurs(f, lambda x: x[0] in ('strop', 'prev', 'sufv', 'eqs')) for f in list(fi) + list(fs) + [vi, vs] if isinstance(f, (tuple, Lin))):
        return None
    stop = min(deadline, time.time() + 8)
    C.texts = True
    try:
        for m in textfold.candidates((tuple(fi), tuple(fs), vi, vs)):
            if time.time() > stop:
                break
            S = Subst(m)
            f1, f2 = [S(f) for f in fi], [S(f) for f in fs]
            if FF in f1 or FF in f2:
                continue
            u = Unroll()
            f1, f2 = [u(f) for f in f1], [u(f) for f in f2]
            if FF in f1 or FF in f2:
                continue
            q = decide(C, [f for f in f1 if f != TT], [f for f in f2 if f != TT], u(S(vi)), u(S(vs)), max(depth, 3), stop)
            if q[0] == 'neq':
                return ('neq', '%s [at %s]' % (q[1], ', '.join('%s=%r' % (show(k)[:80], bytes(lit_of(v)).decode()) for k, v in m.items())))
    except (IN.TooComplex, IN.Unsupported, RecursionError):
        return None
    finally:
        C.texts = False
    return None
