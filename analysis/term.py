"""Abstract values: linear integer terms, formulas, structured terms; linear-inequality domain.

Integers are python ints or Lin (affine forms over opaque atoms).  Formulas are tuples
('true',) ('false',) ('le', L) meaning L<=0, ('eq', L) meaning L==0, ('not', f), ('and', fs),
('or', fs), ('b', term) for an opaque boolean.  Everything is immutable and hashable, so
structural equality is semantic equality modulo the normalisations done by the constructors.
"""
from fractions import Fraction
from math import gcd

TT = ('true',)
FF = ('false',)
UNIT = ('tup', ())
ISIZE_MAX = (1 << 48) - 1      # no sequence in memory has more elements
USIZE_MAX = (1 << 64) - 1
INF = None

RANGE = {}          # atom -> (lo, hi), None = unbounded


def set_range(atom, lo, hi):
    if atom not in RANGE:
        RANGE[atom] = (lo, hi)
    return atom


class Lin:
    __slots__ = ('c', 't', '_h')

    def __init__(self, c, t):
        self.c = c
        self.t = t            # dict atom -> coeff (nonzero)
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((self.c, frozenset(self.t.items())))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __repr__(self):
        s = []
        for a, k in self.t.items():
            s.append(('%s' % show(a)) if k == 1 else '%d*%s' % (k, show(a)))
        if self.c or not s:
            s.append(str(self.c))
        return '(' + ' + '.join(s) + ')'


def lin(c, t):
    t = {a: k for a, k in t.items() if k != 0}
    if not t:
        return c
    return Lin(c, t)


def is_int(v):
    return isinstance(v, (int, Lin)) and not isinstance(v, bool)


def parts(v):
    if isinstance(v, int):
        return v, {}
    if isinstance(v, Lin):
        return v.c, v.t
    return 0, {v: 1}


def as_int(v):
    """Int term for an atom/int."""
    if isinstance(v, (int, Lin)):
        return v
    return Lin(0, {v: 1})


def add(a, b):
    ca, ta = parts(a)
    cb, tb = parts(b)
    t = dict(ta)
    for k, v in tb.items():
        t[k] = t.get(k, 0) + v
    return lin(ca + cb, t)


def scale(a, k):
    if k == 0:
        return 0
    c, t = parts(a)
    return lin(c * k, {x: v * k for x, v in t.items()})


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def rng(v):
    """Interval of an int term from atom ranges."""
    c, t = parts(v)
    lo = hi = c
    for a, k in t.items():
        l, h = RANGE.get(a, (None, None))
        if k < 0:
            l, h = h, l
        lo = None if lo is None or l is None else lo + k * l
        hi = None if hi is None or h is None else hi + k * h
    return lo, hi


def mul(a, b):
    if isinstance(a, int):
        return scale(b, a)
    if isinstance(b, int):
        return scale(a, b)
    if hashkey(b) < hashkey(a):
        a, b = b, a
    at = ('mul', a, b)
    la, ha = rng(a)
    lb, hb = rng(b)
    if la is not None and lb is not None and la >= 0 and lb >= 0:
        set_range(at, la * lb, None if ha is None or hb is None else ha * hb)
    return as_int(at)


def hashkey(x):
    return repr(x)


def div(a, c):
    """Floor division of a non-negative (or any, floor) a by a positive constant c."""
    if isinstance(a, int) and isinstance(c, int):
        return a // c
    if c == 1:
        return a
    if isinstance(c, int):
        ca, ta = parts(a)
        # pull out multiples of c
        q = {}
        r = {}
        for x, k in ta.items():
            if k % c == 0:
                q[x] = k // c
            else:
                r[x] = k
        qc, rc = divmod(ca, c)
        if not r:
            return lin(qc, q)
        rest = lin(rc, r)
        lo, hi = rng(rest)
        if lo is not None and hi is not None and lo >= 0 and hi < c:
            return lin(qc, q)
        # (div(x,a)) div b = div(x, a*b)
        if rc == 0 and len(r) == 1:
            (x, k), = r.items()
            if k == 1 and isinstance(x, tuple) and x[0] == 'div' and isinstance(x[2], int):
                return add(lin(qc, q), div(x[1], x[2] * c))
        at = ('div', rest, c)
        set_range(at, None if lo is None else lo // c, None if hi is None else hi // c)
        return add(lin(qc, q), as_int(at))
    at = ('div', a, c)
    lo, hi = rng(a)
    if lo is not None and lo >= 0:
        set_range(at, 0, hi)
    return as_int(at)


def mod(a, c):
    if isinstance(c, int) and c > 0:
        return sub(a, scale(div(a, c), c))
    at = ('mod', a, c)
    set_range(at, 0, None)
    return as_int(at)


# ---------------------------------------------------------------- formulas

def norm_le(l):
    """formula l <= 0"""
    if isinstance(l, int):
        return TT if l <= 0 else FF
    g = 0
    for k in l.t.values():
        g = gcd(g, abs(k))
    if g > 1:
        # sum g*x + c <= 0  ->  sum x + ceil(c/g) <= 0
        l = Lin(-((-l.c) // g), {a: k // g for a, k in l.t.items()})
    if len(l.t) == 1:
        (a, k), = l.t.items()
        if a[0] == 'nchars' and (k, l.c) in ((1, 0), (-1, 1)):      # a text without characters is empty
            from values import slen
            n = slen(a[1])
            return norm_le(n if k == 1 else sub(1, n))
    lo, hi = rng(l)
    if hi is not None and hi <= 0:
        return TT
    if lo is not None and lo > 0:
        return FF
    return ('le', l)


def le(a, b):
    return norm_le(sub(a, b))


def lt(a, b):
    return norm_le(add(sub(a, b), 1))


def eq(a, b):
    d = sub(a, b)
    if isinstance(d, int):
        return TT if d == 0 else FF
    if len(d.t) == 1:
        (a, k), = d.t.items()
        if isinstance(a, tuple) and a and a[0] == 'lastch' and d.c % k == 0:
            c = -d.c // k
            return ('b', ('suf', a[1], tuple(chr(c).encode('utf8')))) if 0 <= c < 0x110000 and not 0xd800 <= c < 0xe000 else FF
    g = 0
    for k in d.t.values():
        g = gcd(g, abs(k))
    if d.c % g:
        return FF
    # canonical sign: make the "smallest" atom positive
    first = min(d.t, key=hashkey)
    s = 1 if d.t[first] > 0 else -1
    d = Lin(s * d.c // g, {a: s * k // g for a, k in d.t.items()})
    lo, hi = rng(d)
    if (lo is not None and lo > 0) or (hi is not None and hi < 0):
        return FF
    if lo == 0:
        return norm_le(d)
    if hi == 0:
        return norm_le(neg(d))
    return ('eq', d)


def fnot(f):
    h = f[0]
    if h == 'true':
        return FF
    if h == 'false':
        return TT
    if h == 'not':
        return f[1]
    if h == 'le':
        return norm_le(add(neg(f[1]), 1))
    if h == 'and':
        return for_(*[fnot(x) for x in f[1]])
    if h == 'or':
        return fand(*[fnot(x) for x in f[1]])
    return ('not', f)


def fand(*fs):
    out = []
    for f in fs:
        if f[0] == 'and':
            out.extend(f[1])
        elif f == TT:
            continue
        elif f == FF:
            return FF
        else:
            out.append(f)
    u = list(dict.fromkeys(out))
    for f in u:
        if fnot_simple(f) in u:
            return FF
    if not u:
        return TT
    if len(u) == 1:
        return u[0]
    return ('and', tuple(sorted(u, key=hashkey)))


def fnot_simple(f):
    return f[1] if f[0] == 'not' else (norm_le(add(neg(f[1]), 1)) if f[0] == 'le' else ('not', f))


def for_(*fs):
    out = []
    for f in fs:
        if f[0] == 'or':
            out.extend(f[1])
        elif f == FF:
            continue
        elif f == TT:
            return TT
        else:
            out.append(f)
    u = list(dict.fromkeys(out))
    for f in u:
        if fnot_simple(f) in u:
            return TT
    if not u:
        return FF
    if len(u) == 1:
        return u[0]
    return ('or', tuple(sorted(u, key=hashkey)))


def feq(a, b):
    """boolean equality"""
    if a == TT:
        return b
    if b == TT:
        return a
    if a == FF:
        return fnot(b)
    if b == FF:
        return fnot(a)
    if a == b:
        return TT
    if a == fnot(b):
        return FF
    return for_(fand(a, b), fand(fnot(a), fnot(b)))


def batom(t):
    return ('b', t)


# ---------------------------------------------------------------- linear solver

def atoms_of(l):
    return l.t.keys() if isinstance(l, Lin) else ()


def unsat(cons, limit=2500):
    """cons: list of Lin/int meaning each <= 0.  True if certainly unsatisfiable over the integers."""
    cs = set()
    for l in cons:
        f = norm_raw(l)
        if f is True:
            continue
        if f is False:
            return True
        cs.add(f)
    while True:
        # pick the variable with fewest products
        cnt = {}
        for l in cs:
            for a, k in l.t.items():
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + 1, n) if k > 0 else (p, n + 1)
        if not cnt:
            return False
        a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1])
        pos = [l for l in cs if l.t.get(a, 0) > 0]
        ng = [l for l in cs if l.t.get(a, 0) < 0]
        rest = {l for l in cs if a not in l.t}
        if len(pos) * len(ng) + len(rest) > limit:
            return False
        for p in pos:
            kp = p.t[a]
            for n in ng:
                kn = -n.t[a]
                g = gcd(kp, kn)
                r = norm_raw(add(scale(p, kn // g), scale(n, kp // g)))
                if r is True:
                    continue
                if r is False:
                    return True
                rest.add(r)
        cs = rest


def norm_raw(l):
    if isinstance(l, int):
        return l <= 0
    g = 0
    for k in l.t.values():
        g = gcd(g, abs(k))
    if g > 1:
        return Lin(-((-l.c) // g), {a: k // g for a, k in l.t.items()})
    return l


def range_cons(atoms):
    out = []
    for a in atoms:
        lo, hi = RANGE.get(a, (None, None))
        if lo is not None:
            out.append(Lin(lo, {a: -1}))
        if hi is not None:
            out.append(Lin(-hi, {a: 1}))
    return out


def axioms_of(a):
    """Linear axioms of defined atoms (each <= 0)."""
    out = []
    if isinstance(a, tuple):
        if a[0] == 'div' and isinstance(a[2], int):
            x, c = a[1], a[2]
            d = as_int(a)
            out.append(sub(scale(d, c), x))
            out.append(sub(x, add(scale(d, c), c - 1)))
        elif a[0] == 'min':
            out.append(sub(as_int(a), a[1]))
            out.append(sub(as_int(a), a[2]))
        elif a[0] == 'max':
            out.append(sub(a[1], as_int(a)))
            out.append(sub(a[2], as_int(a)))
        elif a[0] == 'ite01':
            pass
    return out


# ---------------------------------------------------------------- generic traversal

def show(t, depth=0):
    if isinstance(t, tuple):
        if depth > 6:
            return '..'
        if len(t) == 0:
            return '()'
        if isinstance(t[0], str):
            h = t[0]
            if h == 'adt' and len(t) == 4:
                return '%s#%s(%s)' % (t[1].split('::')[-1], t[2], ','.join(show(x, depth + 1) for x in t[3]))
            return h + '(' + ','.join(show(x, depth + 1) for x in t[1:]) + ')'
        return '<' + ','.join(show(x, depth + 1) for x in t) + '>'
    if isinstance(t, str):
        return repr(t) if len(t) < 60 else repr(t[:57] + '...')
    return repr(t)


def maxbv(t, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, Lin):
        m = 0
        for a in t.t:
            m = max(m, maxbv(a, memo))
        return m
    if isinstance(t, tuple):
        if not t:
            return 0
        k = id(t)
        if k in memo:
            return memo[k]
        if t[0] == 'bv':
            m = t[1]
        else:
            m = 0
            for x in t:
                m = max(m, maxbv(x, memo))
        memo[k] = m
        return m
    return 0


def occurs(t, pred, memo=None):
    if memo is None:
        memo = {}
    if isinstance(t, Lin):
        return any(occurs(a, pred, memo) for a in t.t)
    if isinstance(t, tuple):
        k = id(t)
        if k in memo:
            return memo[k]
        r = bool(t) and pred(t)
        if not r:
            r = any(occurs(x, pred, memo) for x in t)
        memo[k] = r
        return r
    return False


class Subst:
    """Replace atoms by terms, renormalising."""

    def __init__(self, m):
        self.m = m
        self.memo = {}

    def __call__(self, t):
        m = self.m
        if isinstance(t, (int, str)) or t is None:
            return t
        if isinstance(t, Lin):
            r = self.memo.get(t)
            if r is None:
                r = t.c
                for a, k in t.t.items():
                    r = add(r, scale(as_int(self(a)), k))
                self.memo[t] = r
            return r
        if isinstance(t, tuple):
            if t in m:
                return m[t]
            r = self.memo.get(t)
            if r is not None:
                return r
            if t and t[0] == 'lam':
                r = self._lam(t)
                self.memo[t] = r
                return r
            n = tuple(self(x) for x in t)
            if n != t:
                if t in RANGE and n not in RANGE:
                    RANGE[n] = RANGE[t]
                r = rebuild(n)
            else:
                r = t
            self.memo[t] = r
            return r
        return t

    def _lam(self, t):
        h, body = t[1], t[2]
        if all(isinstance(k, tuple) and k and k[0] == 'bv' and k[1] > h for k in self.m):
            b = self(body)
            return t if b == body else ('lam', h, b)
        v = fresh('o')
        RANGE[v] = (0, None)
        b0 = Subst({('bv', h): v})(body)
        b = self(b0)
        if b == b0:
            return t
        return mk_lam(b, v)


REBUILD = {}


def rebuild(n):
    if n and isinstance(n[0], str):
        h = n[0]
        if h == 'le':
            return norm_le(n[1])
        if h == 'eq':
            return eq(n[1], 0)
        if h == 'not' :
            return fnot(n[1])
        if h == 'and':
            return fand(*n[1])
        if h == 'or':
            return for_(*n[1])
        f = REBUILD.get(h)
        if f:
            return f(n)
    return n


def _rb_div(n):
    r = div(n[1], n[2])
    return r


def _rb_mul(n):
    return mul(n[1], n[2])


REBUILD['div'] = _rb_div
REBUILD['mul'] = _rb_mul

_fresh = [0]


def fresh(tag='v'):
    _fresh[0] += 1
    return ('sym', '%s$%d' % (tag, _fresh[0]))


def mk_lam(body, var):
    """Abstract `var` in body: alpha-canonical (variable index = nesting height)."""
    h = maxbv(body) + 1
    bv = ('bv', h)
    if var in RANGE:
        RANGE[bv] = (0, None)
    else:
        RANGE.setdefault(bv, (0, None))
    return ('lam', h, Subst({var: as_atom(bv)})(body))


def as_atom(a):
    return a


def app(lam, arg):
    """Instantiate a lam with an int/term argument (never a bound variable)."""
    a = arg
    if isinstance(a, Lin) and a.c == 0 and len(a.t) == 1:
        (x, k), = a.t.items()
        if k == 1:
            a = x
    return Subst({('bv', lam[1]): a})(lam[2])


def open_lam(lam, tag='o'):
    v = fresh(tag)
    RANGE[v] = (0, None)
    return v, app(lam, v)
