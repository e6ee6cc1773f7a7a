"""Sequence values and projections (the value-flow part of the domain)."""
from term import *
import term as T

STATICLEN = {}
# functions whose successful result has the length of an argument (shown where they are compared)
RESLEN = {'ethabi::decoder::decode': 0}
FORMULA = {'true', 'false', 'le', 'eq', 'not', 'and', 'or', 'b'}


def is_formula(v):
    return isinstance(v, tuple) and len(v) > 0 and v[0] in FORMULA


class NoState:
    def prove(self, f):
        return f == TT

    def refuted(self, f):
        return f == FF


NS = NoState()


def slen(v):
    if v[0] == 'seq':
        n = 0
        for s in v[1]:
            n = add(n, seglen(s))
        return n
    if v[0] == 'strlit':
        return len(v[1])
    h = STATICLEN.get(v)
    if h is not None:
        return h
    if v[0] == 'be':
        return v[2]
    if v[0] == 'keccak':
        return 32
    if v[0] == 'fld' and v[1][0] == 'call' and v[1][1] in RESLEN and v[2] == 0 and v[3] == 0:
        return slen(v[1][2][RESLEN[v[1][1]]])
    if v[0] in ('mapvalues', 'mapkeys'):
        return slen(('mapitems', v[1]))
    a = ('len', v)
    set_range(a, *((1, 80) if v[0] == 'dec' else (0, ISIZE_MAX)))
    return as_int(a)


def seglen(s):
    h = s[0]
    if h == 'one':
        return 1
    if h == 'lit':
        return len(s[1])
    if h == 'sub':
        return s[3]
    if h in ('rep', 'comp'):
        return s[1] if h == 'comp' else s[2]
    if h == 'flat':
        v, b = open_lam(s[2])
        return mk_sum(s[1], mk_lam(len_of_cases(b), v))
    raise ValueError(h)


def len_of_cases(b):
    if b[0] == 'cases':
        return mk_cases([(g, slen(v)) for g, v in b[1]])
    return slen(b)


def mk_cases(cs):
    """cs: list of (guard formula, value)."""
    cs = [(g, v) for g, v in cs if g != FF]
    if not cs:
        return ('undef',)
    out = {}
    for g, v in cs:
        out.setdefault(v, []).append(g)
    if len(out) == 1:
        return next(iter(out))
    l = [(for_(*gs), v) for v, gs in out.items()]
    v = ('cases', tuple(sorted(l, key=hashkey)))
    if all(is_int(x) for _, x in l):
        los = [rng(x)[0] for _, x in l]
        his = [rng(x)[1] for _, x in l]
        set_range(v, None if None in los else min(los), None if None in his else max(his))
        return as_int(v)
    return v


def _rb_cases(n):
    cs = []
    for g, v in n[1]:
        if g == TT:
            return v
        cs.append((g, v))
    return mk_cases(cs)


REBUILD['cases'] = _rb_cases


def mk_sum(n, lam):
    """sum_{i<n} lam(i)"""
    if n == 0:
        return 0
    v, b = open_lam(lam)
    if not is_int(b):
        b = as_int(b)
    c, t = parts(b)
    inv, dep = c, {}
    for a, k in t.items():
        if a == v or occurs(a, lambda x: x == v):
            dep[a] = k
        else:
            inv = add(inv, scale(as_int(a), k))
    r = mul(n, inv) if inv != 0 else 0
    for a, k in dep.items():
        l = mk_lam(as_int(a), v)
        at = ('sum', n, l)
        lo, hi = RANGE.get(a, (None, None))
        if lo is not None and lo >= 0:
            set_range(at, 0, None)
        r = add(r, scale(as_int(at), k))
    return r


REBUILD['sum'] = lambda n: mk_sum(n[1], n[2])


def segs_of(v):
    if v[0] == 'seq':
        return v[1]
    if v[0] == 'strlit':
        return (('lit', v[1]),) if v[1] else ()
    return (('sub', v, 0, slen(v)),)


def mkseq(segs, st=NS):
    out = []
    work = list(segs)
    work.reverse()
    while work:
        s = work.pop()
        h = s[0]
        if h == 'one' and isinstance(s[1], int):
            s = ('lit', (s[1],))
        elif h == 'rep':
            if s[2] == 0:
                continue
            if isinstance(s[2], int) and isinstance(s[1], int) and s[2] <= 256:
                s = ('lit', (s[1],) * s[2])
            elif s[2] == 1:
                s = ('one', s[1])
        elif h == 'lit':
            if not s[1]:
                continue
        elif h == 'sub':
            if s[3] == 0:
                continue
            if s[1][0] in ('seq', 'strlit') and s[1] != ('seq', (s,)):
                r = cut2(st, s[1], s[2], s[3])
                if r is not None:
                    work.extend(reversed(r))
                    continue
            if s[3] == 1 and isinstance(s[2], int) and False:
                pass
        elif h == 'comp':
            if s[1] == 0:
                continue
            if s[1] == 1:
                s = ('one', app(s[2], 0))
                work.append(s)
                continue
            v, b = open_lam(s[2])
            e = eta(v, b)
            if e is not None:
                s = ('sub', e[0], e[1], s[1])
                work.append(s)
                continue
            if not occurs(b, lambda x: x == v) and not (isinstance(b, Lin) and v in b.t):
                s = ('rep', b, s[1])
            else:
                f = fuse(s[1], v, ('seq', (('one', b),)))
                if f is not None:
                    work.append(f)
                    continue
        elif h == 'flat':
            if s[1] == 0:
                continue
            if s[1] == 1:
                work.extend(reversed(segs_of(app(s[2], 0))))
                continue
            v, b = open_lam(s[2])
            f = fuse(s[1], v, b)
            if f is not None:
                work.append(f)
                continue
            if b[0] != 'cases':
                bs = segs_of(b)
                if len(bs) == 0:
                    continue
                if len(bs) == 1 and bs[0][0] == 'one':
                    work.append(('comp', s[1], mk_lam(bs[0][1], v)))
                    continue
                if len(bs) == 1 and bs[0][0] == 'lit' and len(bs[0][1]) == 1:
                    work.append(('rep', bs[0][1][0], s[1]))
                    continue
                if len(bs) == 1 and bs[0][0] == 'rep' and not occurs(bs[0], lambda x: x == v):
                    work.append(('rep', bs[0][1], mul(s[1], bs[0][2])))
                    continue
        if out:
            p = out[-1]
            if p[0] == 'lit' and s[0] == 'lit':
                out[-1] = ('lit', p[1] + s[1])
                continue
            if p[0] == 'sub' and s[0] == 'sub' and p[1] == s[1] and add(p[2], p[3]) == s[2]:
                out[-1] = ('sub', p[1], p[2], add(p[3], s[3]))
                continue
            if p[0] == 'rep' and s[0] == 'rep' and p[1] == s[1]:
                out[-1] = ('rep', p[1], add(p[2], s[2]))
                continue
            if p[0] == 'rep' and s[0] == 'lit' and all(x == p[1] for x in s[1]):
                out[-1] = ('rep', p[1], add(p[2], len(s[1])))
                continue
            if p[0] == 'lit' and s[0] == 'rep' and all(x == s[1] for x in p[1]):
                out[-1] = ('rep', s[1], add(s[2], len(p[1])))
                continue
        out.append(s)
    if len(out) == 1 and out[0][0] == 'sub' and out[0][2] == 0 and out[0][1][0] != 'seq' and out[0][3] == slen(out[0][1]):
        return out[0][1]
    return ('seq', tuple(out))


REBUILD['seq'] = lambda n: mkseq(n[1])
EMPTY = ('seq', ())


def eta(v, b):
    """b == elem(base, off+v) -> (base, off)"""
    t = b
    if isinstance(b, Lin) and b.c == 0 and len(b.t) == 1:
        (t, k), = b.t.items()
        if k != 1:
            return None
    elif isinstance(b, tuple) and b and b[0] == 'b':
        t = b[1]
    if isinstance(t, tuple) and t and t[0] == 'elem':
        off = sub(t[2], as_int(v))
        if not occurs(t[1], lambda x: x == v) and not (isinstance(off, Lin) and v in off.t) and not occurs(off, lambda x: x == v):
            return t[1], off
    # tuple of flds of an element: identified with the element
    if isinstance(b, tuple) and b and b[0] == 'tup' and b[1]:
        bases = set()
        for i, x in enumerate(b[1]):
            y = x
            if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1:
                (y, k), = x.t.items()
            if isinstance(y, tuple) and y and y[0] == 'fld' and y[2] == 0 and y[3] == i:
                bases.add(y[1])
            else:
                return None
        if len(bases) == 1:
            return eta(v, bases.pop())
    return None


def filter_core(n, lam):
    """flat(n, lam) as a filtered map: (v, guards, x, base) with x the kept value, a function of
    base = elem(S, v); None when it has another shape"""
    v, b = open_lam(lam)
    if b[0] != 'cases':
        return None
    x = None
    keep = []
    for g, y in b[1]:
        sg = segs_of(y)
        if len(sg) == 0:
            continue
        if len(sg) == 1 and sg[0][0] == 'lit' and len(sg[0][1]) == 1:
            sg = (('one', sg[0][1][0]),)
        if len(sg) != 1 or sg[0][0] != 'one' or x is not None:
            return None
        x = sg[0][1]
        keep.append(g)
    if x is None:
        return None
    bases = set()

    def scan(t, memo=set()):
        """True if every occurrence of v in t is inside some elem(S, v)"""
        if t == v:
            return False
        if isinstance(t, Lin):
            return all(scan(a) for a in t.t)
        if isinstance(t, tuple) and t:
            if t[0] == 'elem' and t[2] == as_int(v) and not occurs(t[1], lambda z: z == v):
                bases.add(t)
                return True
            return all(scan(z) for z in t if isinstance(z, (tuple, Lin)))
        return True
    if not scan(x) or len(bases) != 1:
        return None
    return v, b, x, next(iter(bases))


def fuse(n, v, b):
    """flat(n, lam v. b) where v ranges over a filtered sequence Q and b only looks at elem(Q, v): one flat over Q's source"""
    qs = set()

    def scan(t):
        if t == v:
            return False
        if isinstance(t, Lin):
            return all(scan(a) for a in t.t)
        if isinstance(t, tuple) and t:
            if t[0] == 'elem' and t[2] == as_int(v) and t[1][0] == 'seq' and len(t[1][1]) == 1 and t[1][1][0][0] == 'flat':
                qs.add(t)
                return True
            return all(scan(z) for z in t if isinstance(z, (tuple, Lin)))
        return True
    if not isinstance(n, Lin) or len(n.t) != 1 or not any(isinstance(a, tuple) and a[0] == 'sum' for a in n.t):
        return None
    if not scan(b) or len(qs) != 1:
        return None
    q = next(iter(qs))
    fl = q[1][1][0]
    if seglen(fl) != n:
        return None
    c = filter_core(fl[1], fl[2])
    if c is None or c[2] != c[3]:
        return None
    w, cs, x, base = c
    y = Subst({q: x})(b)
    ycs = y[1] if y[0] == 'cases' else ((TT, y),)
    out = []
    for g, z in cs[1]:
        if len(segs_of(z)) == 0:
            out.append((g, EMPTY))
        else:
            out += [(fand(g, h), u) for h, u in ycs]
    return ('flat', fl[1], mk_lam(mk_cases(out), w))


def split_seg(s, p):
    """split segment at offset p (0<=p<=len known)"""
    h = s[0]
    L = seglen(s)
    if p == 0:
        return [], [s]
    if p == L:
        return [s], []
    if h == 'lit':
        if isinstance(p, int):
            return [('lit', s[1][:p])], [('lit', s[1][p:])]
        if len(set(s[1])) == 1:
            return [('rep', s[1][0], p)], [('rep', s[1][0], sub(L, p))]
        return None
    if h == 'sub':
        return [('sub', s[1], s[2], p)], [('sub', s[1], add(s[2], p), sub(s[3], p))]
    if h == 'rep':
        return [('rep', s[1], p)], [('rep', s[1], sub(s[2], p))]
    if h == 'comp':
        v, b = open_lam(s[2])
        b2 = Subst({v: add(as_int(v), p)})(b)
        return [('comp', p, s[2])], [('comp', sub(s[1], p), mk_lam(b2, v))]
    if h == 'flat':
        v, b = open_lam(s[2])
        if b[0] == 'cases':
            return None
        n = slen(b)
        if isinstance(n, int) and n > 0:
            q = div(p, n)
            if mul(q, n) == p:
                b2 = Subst({v: add(as_int(v), q)})(b)
                return [('flat', q, s[2])], [('flat', sub(s[1], q), mk_lam(b2, v))]
        return None
    return None


def cut(st, segs, pos):
    """split a segment list at position pos; None if the state cannot decide where it falls"""
    left = []
    c = 0
    segs = list(segs)
    for i, s in enumerate(segs):
        if st.prove(eq(pos, c)):
            return left, segs[i:]
        L = seglen(s)
        if st.prove(le(add(c, L), pos)):
            left.append(s)
            c = add(c, L)
            continue
        if st.prove(le(c, pos)) and st.prove(le(pos, add(c, L))):
            r = split_seg(s, sub(pos, c))
            if r is None:
                return None
            return left + r[0], r[1] + segs[i + 1:]
        return None
    if st.prove(eq(pos, c)):
        return left, []
    return None


def cut2(st, v, off, n):
    r = cut(st, segs_of(v), off)
    if r is None:
        return None
    r2 = cut(st, r[1], n)
    if r2 is None:
        return None
    return r2[0]


def subseq(st, v, off, n):
    if off == 0 and n == slen(v):
        return v
    if v[0] not in ('seq', 'strlit'):
        return mkseq((('sub', v, off, n),), st)
    r = cut2(st, v, off, n)
    if r is None:
        return ('seq', (('sub', v, off, n),))
    return mkseq(r, st)


def concat(*vs):
    segs = []
    for v in vs:
        segs.extend(segs_of(v))
    return mkseq(segs)


def elem(st, v, i):
    """element i of v (raw term; the caller lifts it by type)"""
    if v[0] in ('seq', 'strlit'):
        c = 0
        for s in segs_of(v):
            L = seglen(s)
            if st.prove(le(add(c, L), i)):
                c = add(c, L)
                continue
            if st.prove(le(c, i)) and st.prove(lt(i, add(c, L))):
                p = sub(i, c)
                h = s[0]
                if h == 'one':
                    return s[1]
                if h == 'lit':
                    if isinstance(p, int):
                        return s[1][p]
                    if len(set(s[1])) == 1:
                        return s[1][0]
                    break
                if h == 'sub':
                    return elem(st, s[1], add(s[2], p))
                if h == 'rep':
                    return s[1]
                if h == 'comp':
                    return app(s[2], p)
                if h == 'flat':
                    vv, b = open_lam(s[2])
                    if b[0] != 'cases':
                        n = slen(b)
                        if isinstance(n, int) and n > 0:
                            q = div(p, n)
                            return elem(st, app(s[2], q), sub(p, mul(q, n)))
                    else:
                        r = core_elem(s, p)
                        if r is not None:
                            return r
                break
            break
        sg = segs_of(v)
        if len(sg) == 1 and sg[0][0] == 'flat':
            r = core_elem(sg[0], i)
            if r is not None:
                return r
    if v[0] in ('mapvalues', 'mapkeys'):
        return ('fld', ('elem', ('mapitems', v[1]), i), 0, 1 if v[0] == 'mapvalues' else 0)
    if v[0] == 'be' and v[2] == 1 and i == 0:
        return v[1]
    if v[0] == 'be' and isinstance(i, int) and 0 <= i < v[2] <= 8 and is_int(v[1]):
        lo, hi = rng(v[1])
        if lo is not None and lo >= 0:
            return mk_wrap(8, False, div(v[1], 1 << (8 * (v[2] - 1 - i))))
    return ('elem', v, i)


def core_elem(s, p):
    """elem p of a filtered map, as the map applied to the p-th kept element"""
    c = filter_core(s[1], s[2])
    if c is None:
        return None
    v, cs, x, base = c
    if x == base:
        return None
    k = mk_lam(mk_cases([(g, y if len(segs_of(y)) == 0 else ('seq', (('one', base),))) for g, y in cs[1]]), v)
    e = ('elem', ('seq', (('flat', s[1], k),)), p)
    if HOOK[0]:
        HOOK[0](base, e)
    return Subst({base: e})(x)


HOOK = [None]


def _rb_elem(n):
    return elem(NS, n[1], n[2])


REBUILD['elem'] = _rb_elem
REBUILD['len'] = lambda n: slen(n[1])


def fld(t, v, i):
    if isinstance(t, tuple):
        if t[0] in ('adt',):
            if t[2] == v and i < len(t[3]):
                return t[3][i]
        elif t[0] == 'tup':
            if i < len(t[1]):
                return t[1][i]
        elif t[0] == 'clo':
            return t[2][i]
    return ('fld', t, v, i)


REBUILD['fld'] = lambda n: fld(n[1], n[2], n[3])


def mk_be(x, n):
    """n big-endian bytes of int x"""
    if isinstance(x, int):
        return mkseq((('lit', tuple(((x % (1 << (8 * n))).to_bytes(n, 'big')))),))
    if isinstance(x, Lin) and x.c == 0 and len(x.t) == 1:
        (a, k), = x.t.items()
        if k == 1 and isinstance(a, tuple) and a[0] == 'beint' and slen(a[1]) == n:
            return a[1]
    return ('be', x, n)


REBUILD['be'] = lambda n: mk_be(n[1], n[2])


def mk_beint(s):
    """int from a big-endian byte sequence of constant length"""
    n = slen(s)
    if s[0] == 'be' and s[2] == n:
        return s[1]
    if isinstance(n, int):
        if s[0] == 'seq' and len(s[1]) == 1 and s[1][0][0] == 'lit':
            return int.from_bytes(bytes(s[1][0][1]), 'big')
        if n <= 8:
            r = 0
            for i in range(n):
                e = elem(NS, s, i)
                if not is_int(e):
                    set_range(e, 0, 255)
                    e = as_int(e)
                r = add(r, scale(e, 1 << (8 * (n - 1 - i))))
            return r
        a = ('beint', s)
        set_range(a, 0, (1 << (8 * n)) - 1)
        return as_int(a)
    return as_int(('beint', s))


REBUILD['beint'] = lambda n: mk_beint(n[1])


def eqseq(st, a, b):
    if a == b:
        return TT
    la, lb = slen(a), slen(b)
    e = eq(la, lb)
    if e == FF or st.prove(fnot(e)):
        return FF
    if la == 0 or lb == 0:
        return e
    if a[0] == 'seq' and b[0] == 'seq' and len(a[1]) == 1 == len(b[1]) and a[1][0][0] == 'lit' == b[1][0][0]:
        return TT if a[1] == b[1] else FF
    if hashkey(b) < hashkey(a):
        a, b = b, a
    return ('b', ('eqs', a, b))


def _rb_b(n):
    t = n[1]
    if is_formula(t):
        return t
    if isinstance(t, tuple) and t and t[0] == 'is' and t[1][0] == 'adt':
        return TT if t[1][2] == t[2] else FF
    if isinstance(t, tuple) and t and t[0] == 'eqs':
        return eqseq(NS, t[1], t[2])
    return n


REBUILD['b'] = _rb_b


def mk_all(n, lam):
    if n == 0:
        return TT
    if lam[2] == TT:
        return TT
    return ('b', ('all', n, lam))


def lit(s):
    b = s.encode('utf8', 'surrogateescape') if isinstance(s, str) else bytes(s)
    return mkseq((('lit', tuple(b)),))


def lit_of(v):
    """bytes of a fully literal sequence, else None"""
    if v[0] == 'seq':
        if not v[1]:
            return b''
        if len(v[1]) == 1 and v[1][0][0] == 'lit' and all(isinstance(x, int) and 0 <= x < 256 for x in v[1][0][1]):
            return bytes(v[1][0][1])
    return None


# ---------------------------------------------------------------- machine words
def trailing_zeros(t):
    """number of low bits known to be zero"""
    if isinstance(t, int):
        return 256 if t == 0 else (t & -t).bit_length() - 1
    if isinstance(t, Lin):
        n = trailing_zeros(t.c)
        for a, k in t.t.items():
            n = min(n, trailing_zeros(k) + trailing_zeros(a))
        return n
    if isinstance(t, tuple) and t and t[0] == 'wrap':
        return min(t[1], trailing_zeros(t[3]))
    return 0


def unwrap_in(bits, v):
    """v without inner truncations that a truncation to the given width makes superfluous"""
    if not isinstance(v, Lin):
        return v
    r = v.c
    for a, k in v.t.items():
        if a[0] == 'wrap' and a[1] >= bits:
            r = add(r, scale(unwrap_in(bits, a[3]), k))
        else:
            r = add(r, scale(as_int(a), k))
    return r


def mk_wrap(bits, signed, v):
    """v truncated to a machine integer"""
    v = unwrap_in(bits, v)
    lo, hi = (-(1 << bits - 1), (1 << bits - 1) - 1) if signed else (0, (1 << bits) - 1)
    if isinstance(v, int):
        x = v & ((1 << bits) - 1)
        return x - (1 << bits) if signed and x >> (bits - 1) else x
    l, h = rng(v)
    if l is not None and h is not None and l >= lo and h <= hi:
        return v
    at = ('wrap', bits, signed, v)
    set_range(at, lo, hi)
    return as_int(at)


def mk_bit(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[op]
    if op in ('BitOr', 'BitXor'):
        if a == 0:
            return b
        if b == 0:
            return a
        for x, y in ((a, b), (b, a)):
            l, h = rng(x)
            ly, _ = rng(y)
            if l is not None and l >= 0 and h is not None and ly is not None and ly >= 0 and h < 1 << min(trailing_zeros(y), 255):
                return add(x, y)
    if hashkey(b) < hashkey(a):
        a, b = b, a
    at = ('bit', op, a, b)
    la, ha = rng(a)
    lb, hb = rng(b)
    if la is not None and lb is not None and la >= 0 and lb >= 0 and ha is not None and hb is not None:
        set_range(at, 0, min(ha, hb) if op == 'BitAnd' else (1 << max(ha, hb).bit_length()) - 1)
    return as_int(at)


REBUILD['wrap'] = lambda n: mk_wrap(n[1], n[2], n[3])
REBUILD['bit'] = lambda n: mk_bit(n[1], n[2], n[3])
