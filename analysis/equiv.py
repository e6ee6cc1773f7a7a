"""Comparison of two function summaries (implementation against reference).

A summary is a list of (state, value) leaves.  Leaves are compared pairwise under the conjunction of
their guards.  Verdicts: EQ, NEQ (a definite difference, with the offending guards) or UNK (the domain
cannot tell; never reported as a violation).
"""
import itertools
import time
from values import *
import term as T
import interp as IN
from interp import State, RESULT

EQ, NEQ, UNK = 'eq', 'neq', 'unk'


def worst(*rs):
    k = EQ
    why = None
    for r in rs:
        if r[0] == NEQ:
            return r
        if r[0] == UNK and k == EQ:
            k, why = UNK, r[1]
    return (k, why)


# heads whose meaning the domain knows: terms over them differ generically when they differ structurally
KNOWN = {'arg', 'sym', 'adt', 'tup', 'seq', 'sub', 'one', 'lit', 'rep', 'comp', 'flat', 'elem', 'fld', 'len', 'beint', 'be',
         'keccak', 'strop', 'unhex', 'ishex', 'parses', 'parsed', 'lam', 'bv', 'char', 'cpos', 'nchars', 'find', 'rfind', 'contains',
         'pre', 'suf', 'lastch', 'sum', 'div', 'mod', 'mul', 'b', 'le', 'eq', 'not', 'and', 'or', 'true', 'false', 'is', 'eqs',
         'all', 'mapget', 'mapset', 'mapvalues', 'maphas', 'mapnew', 'display', 'cast', 'eqv', 'err', 'upd', 'ty',
         'min', 'max', 'bin', 'fn', 'clo', 'undef0', 'cases', 'acc', 'first', 'call', 'strlit', 'cb',
         'json', 'jmap', 'jseq', 'jstr', 'jval', 'untag', 'lensput', 'mapgetor', 'mapempty', 'mapitems', 'mapkeys'}


def unflatten(x):
    """a map over a concatenation, as the concatenation of the maps"""
    if x[0] != 'comp' or is_int(x[1]) and isinstance(x[1], int):
        return x
    v, b = open_lam(x[2])
    fs = []
    T.occurs(b, lambda y: y[0] == 'elem' and y[2] in (v, as_int(v)) and y[1][0] == 'seq' and len(y[1][1]) == 1 and y[1][1][0][0] == 'flat' and
             seglen(y[1][1][0]) == x[1] and fs.append(y))
    if not fs or any(f != fs[0] for f in fs):
        return x
    _, n, G = fs[0][1][1][0]
    i, j = fresh('o'), fresh('o')
    RANGE[i] = RANGE[j] = (0, None)
    e = app(G, i)
    if e[0] == 'cases':
        return x
    b2 = Subst({fs[0]: elem(State(), e, as_int(j))})(b)
    if T.occurs(b2, lambda y: y == v):
        return x
    return ('flat', n, mk_lam(mkseq((('comp', slen(e), mk_lam(b2, j)),)), i))


def untyped(args):
    return [x for x in args if not (isinstance(x, tuple) and x and x[0] == 'ty')]


DOCS = {'json::Null', 'json::Arr', 'json::Str', 'json::Bool', 'json::Obj', 'json::Map'}     # kinds of JSON values


class Comparer:
    def __init__(self, P, shared_calls, private=()):
        self.P = P
        self.shared = shared_calls      # call names both sides use
        self.private = private          # ADT paths that are not observable
        self.memo = {}
        self.accpairs = {}
        self.steps = 0
        self.budget = 60000
        self.deadline = None
        self.strict = False     # loop-valued terms are not understood either
        self.texts = False      # texts are being fixed to constants
        self.certify = None     # why a difference in a state is not certain
        self.base = None        # facts the definiteness of which is checked elsewhere

    # ------------------------------------------------------------ understanding
    def understood(self, t, memo=None):
        if memo is None:
            memo = {}
        if isinstance(t, (int, str, bytes)) or t is None:
            return True
        if isinstance(t, Lin):
            return all(self.understood(a, memo) for a in t.t)
        if isinstance(t, tuple):
            if not t:
                return True
            k = t
            if k in memo:
                return memo[k]
            memo[k] = True
            h = t[0]
            if h == 'undef':
                r = False
            elif h == 'call' and not (t[1] in self.shared):
                r = False
            elif h == 'upd' and not (t[1] in self.shared):
                r = False
            elif isinstance(h, str) and h in ('acc', 'first', 'cases', 'min', 'max', 'div', 'mod'):
                r = False
            elif self.strict and h in ('sum', 'all', 'flat') and not isinstance(t[1], int):
                r = False
            elif isinstance(h, str) and h not in KNOWN and h not in ('none',):
                r = False
            else:
                r = all(self.understood(x, memo) for x in (t[1:] if isinstance(h, str) else t) if not isinstance(x, str))
            memo[k] = r
            return r
        return True

    # ------------------------------------------------------------ values
    def cmp(self, J, a, b, depth=0):
        self.steps += 1
        if self.steps > self.budget:
            return (UNK, 'budget')
        if a == b:
            return (EQ, None)
        if depth > 40:
            return (UNK, 'depth')
        if is_int(a) or is_int(b):
            return self.cmp_int(J, a if is_int(a) else as_int(a), b if is_int(b) else as_int(b), depth)
        if is_formula(a) or is_formula(b):
            return self.cmp_formula(J, a if is_formula(a) else ('b', a), b if is_formula(b) else ('b', b), depth)
        if not (isinstance(a, tuple) and isinstance(b, tuple)):
            return (UNK, 'shape')
        if a[0] == 'panic' or b[0] == 'panic':
            return (NEQ, 'panics') if a[0] != b[0] else (EQ, None)
        if a[0] == 'cases' or b[0] == 'cases':
            ca = a[1] if a[0] == 'cases' else ((TT, a),)
            cb = b[1] if b[0] == 'cases' else ((TT, b),)
            rs = []
            for g, x in ca:
                for h, y in cb:
                    J2 = J.copy()
                    if not J2.add(g) or not J2.add(h):
                        continue
                    rs.append(self.split(J2, lambda s: self.cmp(s, x, y, depth + 1)))
                    if rs[-1][0] == NEQ:
                        return rs[-1]
            return worst(*rs)
        if a[0] in ('adt', 'tup') or b[0] in ('adt', 'tup'):
            return self.cmp_adt(J, a, b, depth)
        if a[0] == 'seq' or b[0] == 'seq' or (a[0] == 'be') != (b[0] == 'be'):
            return self.cmp_seq(J, a, b, depth)
        if a[0] == 'acc' and b[0] == 'acc':
            return self.cmp_acc(J, a, b, depth)
        if a[0] == 'err' or b[0] == 'err':
            return (EQ, None)
        if a[0] == b[0] and len(a) == len(b):
            h = a[0]
            if h == 'lam':
                return self.cmp_lam(J, a, b, depth)
            if h == 'call' and frozenset((a[1], b[1])) in DISTINCT:
                i, vs = DISTINCT[frozenset((a[1], b[1]))] or (None, ())
                if i is None:
                    return (NEQ, '%s / %s' % (show(a), show(b)))
                if untyped(a[2]) == untyped(b[2]) and any(J.isvar(a[2][i], v) is not False for v in vs):
                    return (NEQ, '%s / %s' % (show(a), show(b)))
            if h in ('call', 'upd') and a[1] != b[1]:
                return (UNK, 'calls %s / %s' % (a[1], b[1]))
            if h in ('sum', 'all', 'first') :
                r = self.cmp(J, a[1], b[1], depth + 1) if a[1] is not None and b[1] is not None else (UNK, 'unbounded')
                if r[0] != EQ:
                    return r if h != 'first' else (UNK, 'first')
                J2 = J.copy()
                v = fresh('q')
                RANGE[v] = (0, None)
                J2.add(lt(as_int(v), a[1]), False)
                x, y = app(a[2], v), app(b[2], v)
                r = self.split(J2, lambda s: self.cmp(s, x, y, depth + 1))
                return r if h != 'first' or r[0] == EQ else (UNK, 'first')
            rs = []
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, (str, bytes)) or x is None or isinstance(y, (str, bytes)):
                    rs.append((EQ, None) if x == y else (NEQ, '%r / %r' % (x, y)))
                elif isinstance(x, tuple) and x and not isinstance(x[0], str):
                    if isinstance(y, tuple) and len(x) == len(y):
                        rs += [self.cmp(J, p, q, depth + 1) for p, q in zip(x, y)]
                    else:
                        rs.append((UNK, 'arity'))
                else:
                    rs.append(self.cmp(J, x, y, depth + 1))
            r = worst(*rs)
            if r[0] == NEQ:
                if h == 'mapset':
                    import refine
                    if not self.strict or refine.key_pair(J, [a, b]) is not None:
                        return (UNK, 'map keys: ' + str(r[1]))
                if h in ('elem', 'char', 'cpos') and 'seq' in (a[1][0], b[1][0]):
                    return (UNK, 'an element of a compound sequence: ' + str(r[1]))
                if h in ('elem', 'fld', 'call', 'beint', 'be', 'keccak', 'strop', 'unhex', 'parsed', 'mapget', 'display', 'upd',
                         'mapset', 'char', 'cpos', 'clo') and self.understood(a) and self.understood(b):
                    return r
                return (UNK, r[1])
            return r
        if a[0] == 'undef' or b[0] == 'undef':
            return (UNK, 'undef')
        if self.understood(a) and self.understood(b):
            return (NEQ, '%s / %s' % (show(a), show(b)))
        return (UNK, 'heads %s %s' % (a[0], b[0]))

    def cmp_adt(self, J, a, b, depth):
        if b[0] in ('adt', 'tup') and a[0] not in ('adt', 'tup'):
            r = self.cmp_adt(J, b, a, depth)
            return r
        va = a[2] if a[0] == 'adt' else 0
        fa = a[3] if a[0] == 'adt' else a[1]
        path = a[1] if a[0] == 'adt' else None
        hidden = path in self.private
        if b[0] in ('adt', 'tup'):
            vb = b[2] if b[0] == 'adt' else 0
            fb = b[3] if b[0] == 'adt' else b[1]
            hidden = hidden or (b[0] == 'adt' and b[1] in self.private)
            if b[0] == 'adt' and path in DOCS and b[1] in DOCS and path != b[1]:
                return (NEQ, '%s / %s' % (path, b[1]))
            if va != vb:
                if hidden:
                    return (UNK, 'private variant')
                return (NEQ, 'variant %s / %s' % (self.vname(a), self.vname(b)))
            if path == RESULT and va == 1:
                return (EQ, None)
            if path == 'ethabi::errors::Error':
                return (EQ, None)
            if len(fa) != len(fb):
                return (UNK, 'fields')
            rs = []
            for i, (x, y) in enumerate(zip(fa, fb)):
                r = self.cmp(J, x, y, depth + 1)
                if r[0] == NEQ:
                    r = (UNK if hidden else NEQ, '%s.%d: %s' % (self.vname(a), i, r[1]))
                rs.append(r)
            return worst(*rs)
        # b opaque
        n = self.P.nvariants(path) if path else 1
        if n and n > 1:
            IN.VARN[b] = n
            r = J.isvar(b, va)
            if r is False or (r is None and self.understood(b)):
                return (UNK if hidden else NEQ, 'variant %s / %s' % (self.vname(a), show(b)))
            if r is None:
                return (UNK, 'variant of ' + show(b))
        if path == RESULT and va == 1:
            return (EQ, None)
        rs = []
        for i, x in enumerate(fa):
            y = fld(b, va, i)
            rs.append(self.cmp(J, x, y, depth + 1))
        return worst(*rs)

    def vname(self, a):
        if a[0] == 'tup':
            return '()'
        n = self.P.vname(a[1], a[2]) if hasattr(self.P, 'vname') else None
        return '%s::%s' % (a[1].split('::')[-1], n if n is not None else a[2])

    def cmp_int(self, J, a, b, depth):
        f = eq(a, b)
        if f == TT or J.prove(f):
            return (EQ, None)
        if f == FF:
            return (NEQ, '%s / %s' % (show(a), show(b)))
        d = sub(a, b)
        ok = self.understood(d)
        # pair up atoms of the two sides
        ca, ta = parts(a)
        cb, tb = parts(b)
        only_a = [(x, k) for x, k in ta.items() if tb.get(x) != k]
        only_b = [(x, k) for x, k in tb.items() if ta.get(x) != k]
        if len(only_a) == 1 and len(only_b) == 1 and only_a[0][1] == only_b[0][1] and ca == cb:
            x, y = only_a[0][0], only_b[0][0]
            if x[0] == y[0]:
                r = self.cmp(J, x, y, depth + 1) if x[0] not in ('len',) else self.cmp_len(J, x, y, depth)
                if r[0] != UNK or not ok:
                    if r[0] == NEQ and not (x[0] == 'acc' or ok):
                        return (UNK, r[1])
                    return r
        if J.refuted(f):
            return (NEQ, '%s / %s' % (show(a), show(b)))
        if ok:
            return (NEQ, '%s / %s' % (show(a), show(b)))
        return (UNK, 'int %s / %s' % (show(a), show(b)))

    def cmp_len(self, J, x, y, depth):
        r = self.cmp(J, x[1], y[1], depth + 1)
        return r if r[0] == EQ else (UNK, 'len')

    def atoms(self, f, out):
        if f[0] in ('and', 'or'):
            for x in f[1]:
                self.atoms(x, out)
        elif f[0] == 'not':
            self.atoms(f[1], out)
        elif f[0] in ('true', 'false'):
            pass
        else:
            out.add(f)
        return out

    def cmp_formula(self, J, a, b, depth):
        if a == b:
            return (EQ, None)
        bad = None
        # single opaque atoms of the same shape
        if a[0] == 'b' and b[0] == 'b' and isinstance(a[1], tuple) and isinstance(b[1], tuple) and a[1][0] == b[1][0] and \
                a[1][0] in ('all', 'call', 'acc', 'eqs', 'eqv', 'fld', 'is'):
            r = self.cmp(J, a[1], b[1], depth + 1)
            if r[0] == EQ or a[1][0] == 'all':
                return r
        m = self.match_atoms(J, self.atoms(a, set()), self.atoms(b, set()), depth)
        if m:
            a = Subst(m)(a)
        for x, y in ((a, fnot(b)), (fnot(a), b)):
            J2 = J.copy()
            if not J2.add(x) or not J2.add(y):
                continue

            def leaf(s):
                return (NEQ, '%s / %s' % (show(a), show(b)))
            r = self.split(J2, leaf)
            if r[0] == NEQ or (r[0] == UNK and bad is None):
                bad = r
        if bad is None:
            return (EQ, None)
        if bad[0] == UNK:
            return bad
        if self.understood(a) and self.understood(b):
            return bad
        return (UNK, 'formula ' + bad[1])

    def match_atoms(self, J, A, B, depth=0):
        """atoms of A equal to (differently written) atoms of B -> substitution"""
        m = {}
        for x in sorted(A - B, key=hashkey):
            if x[0] != 'b':
                continue
            h = x[1][0]
            if h not in ('all', 'call', 'acc', 'eqs', 'eqv', 'is', 'fld', 'ishex', 'parses', 'contains'):
                continue
            for y in sorted(B - A, key=hashkey):
                if y[0] == 'b' and y[1][0] == h:
                    if h == 'is' and x[1][2] != y[1][2]:
                        continue
                    r = self.cmp(J, x[1], y[1], depth + 1)
                    if r[0] == EQ:
                        m[x[1]] = y[1]
                        break
        return m

    def loop_terms(self, t, out):
        """maximal loop-valued subterms outside any binder"""
        if isinstance(t, Lin):
            for a in t.t:
                self.loop_terms(a, out)
        elif isinstance(t, tuple) and t:
            if t[0] == 'lam':
                return out
            if t[0] in ('first', 'acc', 'sum'):
                out.add(t)
                if t[0] != 'acc':
                    return out
            for x in t:
                if isinstance(x, (tuple, Lin)):
                    self.loop_terms(x, out)
        return out

    def match_terms(self, J, A, B):
        ta, tb = set(), set()
        for f in A:
            self.loop_terms(f, ta)
        for f in B:
            self.loop_terms(f, tb)
        m = {}
        for x in sorted(ta - tb, key=hashkey):
            for y in sorted(tb - ta, key=hashkey):
                if x[0] == y[0] and self.cmp(J, x, y)[0] == EQ:
                    m[x] = y
                    if x in RANGE and y not in RANGE:
                        RANGE[y] = RANGE[x]
                    break
        return m

    def cmp_lam(self, J, a, b, depth):
        v = fresh('q')
        RANGE[v] = (0, None)
        return self.cmp(J, app(a, v), app(b, v), depth + 1)

    # ------------------------------------------------------------ sequences
    def cmp_seq(self, J, a, b, depth):
        la, lb = slen(a), slen(b)
        sa, sb = [unflatten(x) for x in segs_of(a)], [unflatten(x) for x in segs_of(b)]
        rs = []
        while sa and sb:
            x, y = sa[0], sb[0]
            if x == y:
                sa.pop(0)
                sb.pop(0)
                continue
            nx, ny = seglen(x), seglen(y)
            if nx == ny or J.prove(eq(nx, ny)):
                r = self.cmp_seg(J, x, y, nx, depth)
                if r[0] != EQ:
                    rs.append(r)
                sa.pop(0)
                sb.pop(0)
                continue
            if J.prove(eq(nx, 0)):
                sa.pop(0)
                continue
            if J.prove(eq(ny, 0)):
                sb.pop(0)
                continue
            if x[0] == y[0] == 'sub' and x[1] != y[1] and x[1][0] == y[1][0] != 'seq' and \
                    self.cmp(J, x[1], y[1], depth + 1)[0] == EQ:
                x2 = Subst({x[1]: y[1]})(x)
                if x2 != x:
                    sa[0:1] = [x2]
                    continue
            if x[0] == y[0] == 'flat' or x[0] == y[0] == 'comp':
                if (len(sa) > 1 or len(sb) > 1) and self.cmp(J, x[1], y[1], depth + 1)[0] != EQ:
                    # a longer segment on one side may continue in the next one on the other
                    if not rs and self.cmp_int(J, la, lb, depth + 1)[0] == NEQ:
                        return (NEQ, 'lengths %s / %s' % (show(la), show(lb)))
                    return worst(*rs, (UNK, 'align %s / %s' % (show(x), show(y))))
                r = self.cmp_seg(J, x, y, None, depth)
                if r[0] != EQ:
                    rs.append(r)
                    if r[0] == UNK:
                        return worst(*rs)
                sa.pop(0)
                sb.pop(0)
                continue
            if J.prove(lt(nx, ny)):
                sp = split_seg(y, nx)
                if sp is None:
                    rs.append((UNK, 'split'))
                    return worst(*rs)
                sb[0:1] = sp[0] + sp[1]
                continue
            if J.prove(lt(ny, nx)):
                sp = split_seg(x, ny)
                if sp is None:
                    rs.append((UNK, 'split'))
                    return worst(*rs)
                sa[0:1] = sp[0] + sp[1]
                continue
            # cannot align: the lengths differ for some input
            if x[0] == y[0] == 'sub' and x[1][0] == y[1][0] == 'call' and x[1][1] == y[1][1] and x[2] == y[2] == 0 and \
                    x[3] == slen(x[1]) and y[3] == slen(y[1]) and not rs and self.cmp(J, x[1], y[1], depth + 1)[0] == NEQ:
                return (NEQ, 'segment %s / %s' % (show(x), show(y)))
            if self.understood(nx) and self.understood(ny) and x[0] == y[0] == 'sub' and x[1] == y[1]:
                return (NEQ, 'segment %s / %s' % (show(x), show(y)))
            return worst(*rs, (UNK, 'align %s / %s' % (show(x), show(y))))
        rest = sa or sb
        if rest:
            n = 0
            for s in rest:
                n = add(n, seglen(s))
            if not J.prove(eq(n, 0)):
                if rs and any(r[0] == UNK for r in rs):
                    return worst(*rs)
                if J.prove(lt(0, n)) or (self.understood(n)):
                    return (NEQ, 'length differs by %s' % show(n))
                return worst(*rs, (UNK, 'length'))
        return worst(*rs)

    def cmp_seg(self, J, x, y, n, depth):
        hx, hy = x[0], y[0]
        if hx == 'flat' and hy == 'flat':
            r = self.cmp(J, x[1], y[1], depth + 1)
            if r[0] != EQ:
                return r
            J2 = J.copy()
            v = fresh('q')
            RANGE[v] = (0, None)
            J2.add(lt(as_int(v), x[1]), False)
            p, q = app(x[2], v), app(y[2], v)
            return self.split(J2, lambda s: self.cmp(s, p, q, depth + 1))
        if hx == 'comp' and hy == 'comp' and n is None:
            r = self.cmp(J, x[1], y[1], depth + 1)
            if r[0] != EQ:
                return r
            n = x[1]
        if 'flat' in (hx, hy):
            return (UNK, 'flat')
        if hx == 'lit' and hy == 'lit':
            if x[1] == y[1]:
                return (EQ, None)
            if all(isinstance(e, int) for e in x[1] + y[1]):
                return (NEQ, 'bytes %s / %s' % (bytes(x[1])[:40], bytes(y[1])[:40]))
        v = fresh('q')
        RANGE[v] = (0, None)
        J2 = J.copy()
        if n == 1:
            vv = 0
        else:
            J2.add(lt(as_int(v), n), False)
            vv = as_int(v)
        ex, ey = elem(J2, ('seq', (x,)), vv), elem(J2, ('seq', (y,)), vv)
        if hx == 'sub' and hy == 'sub':
            if x[1] == y[1]:
                r = self.cmp(J, x[2], y[2], depth + 1)
                if r[0] == NEQ:
                    return (NEQ, 'position ' + str(r[1]))
                return r
            if x[2] == y[2] and not (x[1][0] == 'seq' and y[1][0] == 'seq'):
                r = self.cmp(J, x[1], y[1], depth + 1)
                if r[0] == EQ:
                    return r
        ty = IN.TY.get(ex) if isinstance(ex, tuple) else None
        ty2 = IN.TY.get(ey) if isinstance(ey, tuple) else None
        if ty and not ty2:
            ey = IN.coerce(ey, ty)
        if ty2 and not ty:
            ex = IN.coerce(ex, ty2)
        return self.split(J2, lambda s: self.cmp(s, ex, ey, depth + 1))

    # ------------------------------------------------------------ accumulators
    def cmp_acc(self, J, a, b, depth):
        r = self.cmp(J, a[3], b[3], depth + 1)
        if r[0] != EQ:
            return (UNK, 'iteration')
        if a[1] == b[1]:
            return (EQ, None) if a[2] == b[2] else (UNK, 'accumulator')
        A, B = IN.LOOPS[a[1]], IN.LOOPS[b[1]]
        r, perm = self.bisim(J, a[1], b[1], depth)
        if r[0] == EQ:
            return (EQ, None) if perm[a[2]] == b[2] else (UNK, 'accumulator')
        return r

    def bisim(self, J, la, lb, depth):
        key = (la, lb)
        if key in self.accpairs:
            return self.accpairs[key]
        A, B = IN.LOOPS[la], IN.LOOPS[lb]
        n = len(A['X'])
        if n != len(B['X']) or sorted(A['kinds']) != sorted(B['kinds']):
            return (UNK, 'loop state'), None
        best = (UNK, 'loop state'), None
        cands = []
        for perm in itertools.permutations(range(n)):
            if any(A['kinds'][i] != B['kinds'][perm[i]] for i in range(n)):
                continue
            if any(self.cmp(J, A['init'][i], B['init'][perm[i]], depth + 1)[0] != EQ for i in range(n)):
                continue
            cands.append(perm)
        res = None
        for perm in cands[:6]:
            m = {B['X'][perm[i]]: A['X'][i] for i in range(n)}
            m[B['k']] = A['k']
            for i in range(n):
                x = B['X'][perm[i]]
                if x in RANGE and A['X'][i] not in RANGE:
                    RANGE[A['X'][i]] = RANGE[x]
                if x in IN.VARN:
                    IN.VARN[A['X'][i]] = IN.VARN[x]
            S = Subst(m)
            rs = []
            inv = [i for i in range(n)]
            base = State()
            for g, nv in A['steps']:
                for g2, nv2 in B['steps']:
                    J2 = base.copy()
                    if not J2.add(g) or not J2.add(S(g2)):
                        continue
                    pairs = [(nv[i], S(nv2[perm[i]])) for i in range(n)]

                    def leaf(s, pairs=pairs):
                        out = []
                        for x, y in pairs:
                            out.append(self.cmp(s, x, y, depth + 2))
                        return worst(*out)
                    rs.append(self.split(J2, leaf))
            r = worst(*rs)
            if r[0] == EQ:
                res = ((EQ, None), perm)
                break
            if res is None or (res[0][0] == UNK and r[0] == NEQ):
                res = ((r[0], 'loop step: %s' % (r[1],)), perm)
        if res is None:
            res = best
        if len(cands) > 1 and res[0][0] == NEQ:
            res = ((UNK, res[0][1]), None)
        self.accpairs[key] = res
        return res

    # ------------------------------------------------------------ case splitting
    def split(self, J, leaf, depth=0):
        """leaf verdict over the satisfiable cases of J's disjunctions"""
        self.steps += 1
        if self.steps > self.budget or (self.deadline and time.time() > self.deadline):
            return (UNK, 'budget')
        r = leaf(J)
        if r[0] == EQ:
            return r
        # choose a disjunction still undecided
        for i, f in enumerate(J.ors):
            if any(J.prove(x) for x in f[1]):
                continue
            live = [x for x in f[1] if not J.refuted(x)]
            if not live:
                return (EQ, None)
            if depth > 14:
                return (UNK, 'case split depth')
            rs = []
            for x in live:
                J2 = J.copy()
                J2.ors = [g for k, g in enumerate(J.ors) if k != i]
                if not J2.add(x):
                    continue
                q = self.split(J2, leaf, depth + 1)
                if q[0] == NEQ:
                    return q
                rs.append(q)
            return worst(*rs)
        if r[0] == NEQ and self.base is not None:
            import refine
            for f in refine.facts(J):
                if f not in self.base and not self.understood(f):
                    return (UNK, 'under a condition not understood: ' + str(r[1]))
            b = self.certify(J) if self.certify else None
            if b:
                return (UNK, b + ': ' + str(r[1]))
        return r


def merge_states(a, b):
    """conjunction of two states' facts, or None"""
    J = a.copy()
    J.mem = {}
    for f in b.log:
        if not J.add(f):
            return None
    for l in b.lin:
        if not J.add(norm_le(l) if not isinstance(l, int) else TT, False):
            return None
    for t, v in b.bools.items():
        if t[0] == 'eqlit':
            if J.bools.get(t, v) != v:
                return None
            J.bools[t] = v
            continue
        f = ('b', t)
        if not J.add(f if v else fnot(f), False):
            return None
    for t, v in b.var.items():
        if not J.add(('b', ('is', t, v)), False):
            return None
    for t, vs in b.notvar.items():
        for v in vs:
            if not J.add(fnot(('b', ('is', t, v))), False):
                return None
    for d in b.neqs:
        if not J.add(fnot(eq(d, 0)), False):
            return None
    return J


STRINGY = {'strop', 'unhex', 'ishex', 'parses', 'parsed', 'char', 'cpos', 'nchars', 'find', 'rfind', 'contains', 'lastch', 'display'}
TEXTUAL = {'char', 'cpos', 'nchars', 'find', 'rfind', 'contains', 'ishex', 'unhex', 'parses', 'parsed', 'strop'}
GROUP = ('call', 'all', 'sum', 'eqs', 'eqv', 'upd', 'keccak', 'comp', 'flat')


def stringy(f):
    """conditions on text the domain cannot relate to one another"""
    if f[0] == 'b' and f[1][0] in ('pre', 'suf'):
        return T.occurs(f[1][1], lambda x: x[0] in STRINGY)
    return T.occurs(f, lambda x: x[0] in STRINGY)


def parts_of(fs, out):
    """uninterpreted subterms outside binders"""
    def go(t):
        if isinstance(t, Lin):
            for a in t.t:
                go(a)
        elif isinstance(t, tuple) and t:
            if t[0] == 'lam':
                return
            if t[0] in GROUP and not (t[0] == 'eqs' and (lit_of(t[1]) is not None or lit_of(t[2]) is not None)):
                out.add(t)
            for x in t:
                if isinstance(x, (tuple, Lin)):
                    go(x)
    for f in fs:
        go(f)
    return out


def chosen(J, fs):
    """the facts with disjunctions replaced by the alternative that holds in J"""
    out = []
    for f in fs:
        if f[0] == 'and':
            out += chosen(J, f[1])
        elif f[0] == 'or':
            for x in f[1]:
                if J.prove(x):
                    out += chosen(J, list(x[1]) if x[0] == 'and' else [x])
                    break
            else:
                out.append(f)
        else:
            out.append(f)
    return out


def blocked(C, J, fi, fs, vi, vs):
    """why a difference found between two leaves is not certain, or None"""
    fi, fs = chosen(J, fi), chosen(J, fs)
    ai, as_ = set(), set()
    for f in fi:
        C.atoms(f, ai)
    for f in fs:
        C.atoms(f, as_)
    oi, os_ = ai - as_, as_ - ai
    for f in oi | os_:
        if not C.understood(f):
            return 'condition not understood: ' + show(f)[:200]
    if any(stringy(f) for f in oi) and any(stringy(f) for f in os_):
        return 'unrelated text conditions'
    for one, two in ((oi, os_), (os_, oi)):
        texts = set()
        T.occurs(tuple(one), lambda x: x[0] in TEXTUAL and texts.add(x[1]))
        if texts and T.occurs(tuple(two), lambda x: x[0] == 'elem' and x[1] in texts):
            return 'unrelated conditions on text and bytes'
    docs = []
    for fs_, v in ((fi, vi), (fs, vs)):
        d = {}
        T.occurs((tuple(fs_), v), lambda x: x[0] == 'call' and x[1] == 'de' and d.setdefault(x[2][0], set()).add(x[2][1]))
        docs.append(d)
    for x in docs[0]:
        both = docs[0][x] | docs[1].get(x, set())
        if x in docs[1] and docs[0][x] != docs[1][x] and (len(both) > 2 or not any('IgnoredAny' in y[1] for y in both)):
            return 'the same document read as different types'
    ci, cs = parts_of(oi, set()), parts_of(os_, set())
    pi, ps = parts_of(ai, set()), parts_of(as_, set())
    for x in pi:
        for y in ps if x[0] == 'call' else ():
            if y[0] == 'call' and frozenset((x[1], y[1])) in DISTINCT and C.cmp(J, x, y, 20)[0] != NEQ:
                return 'related calls %s / %s' % (show(x)[:120], show(y)[:120])
    for x in sorted(ci - ps, key=hashkey):
        for y in sorted(cs - pi, key=hashkey):
            if x[0] != y[0] or (x[0] in ('call', 'upd') and x[1] != y[1]):
                continue
            if x[:2] == y[:2] == ('call', 'de') and x[2][0] == y[2][0]:
                continue        # related by json_axioms
            r = C.cmp(J, x, y, 20)
            if r[0] != NEQ:
                return 'unrelated conditions %s / %s' % (show(x)[:120], show(y)[:120])
            if x[0] in ('all', 'sum', 'comp', 'flat', 'eqs', 'eqv'):
                return 'unrelated conditions %s / %s' % (show(x)[:120], show(y)[:120])
    return None


class LoopRename:
    """replaces the accumulators of loops by those of equivalent loops"""

    def __init__(self, m):
        self.m = m          # loop -> (loop, index map)
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, (int, str, bytes)) or t is None:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if isinstance(t, Lin):
            r = t.c
            for a, k in t.t.items():
                x = self(a)
                r = add(r, scale(x if is_int(x) else as_int(x), k))
        elif not t:
            r = t
        elif t[0] == 'lam':
            v = fresh('o')
            RANGE[v] = (0, None)
            b = app(t, v)
            b2 = self(b)
            r = t if b2 == b else mk_lam(b2, v)
        else:
            n = tuple(self(x) for x in t)
            if n[0] == 'acc' and n[1] in self.m:
                l, perm = self.m[n[1]]
                n = ('acc', l, perm[n[2]], n[3])
            if n != t:
                if t in RANGE and n not in RANGE:
                    RANGE[n] = RANGE[t]
                if t in STATICLEN and n not in STATICLEN:
                    STATICLEN[n] = STATICLEN[t]
                if t in IN.VARN and n not in IN.VARN:
                    IN.VARN[n] = IN.VARN[t]
                r = T.rebuild(n)
            else:
                r = t
        self.memo[t] = r
        return r


def loops_in(outs):
    out = set()
    memo = set()

    def go(t):
        if isinstance(t, Lin):
            for a in t.t:
                go(a)
        elif isinstance(t, tuple) and t:
            if id(t) in memo:
                return
            memo.add(id(t))
            if t[0] == 'acc' and t[1] not in out:
                out.add(t[1])
                A = IN.LOOPS[t[1]]
                go(tuple(A['init']))
                go(tuple(A['steps']))
            for x in t:
                go(x)
    keep = []
    for s, v in outs:
        for f in s.log:
            go(f)
            keep.append(f)
        go(v)
    return out


def unify_loops(C, outsI, outsS, keep=False):
    """renames loops of the reference that are equivalent to loops of the implementation"""
    li, ls = loops_in(outsI), loops_in(outsS)
    m = {}
    for b in sorted(ls - li):
        B = IN.LOOPS[b]
        if m:
            R = LoopRename(m)
            IN.LOOPS[b] = dict(B, init=tuple(R(x) for x in B['init']), steps=[(R(g), tuple(R(x) for x in nv)) for g, nv in B['steps']])
        for a in sorted(li - ls):
            if IN.LOOPS[a]['kinds'] and sorted(IN.LOOPS[a]['kinds']) == sorted(B['kinds']):
                C.steps = 0
                r, perm = C.bisim(State(), a, b, 0)
                if r[0] == EQ and perm is not None:
                    inv = {perm[i]: i for i in range(len(perm))}
                    m[b] = (a, inv)
                    break
    C.steps = 0
    if not m:
        return outsS
    R = LoopRename(m)
    out = []
    for s, v in outsS:
        s2 = s.subst(R)
        if s2 is not None:
            out.append((s2, R(v)))
        elif keep:
            out.append(None)
    return out


def compare(P, outsI, outsS, shared, private=(), refine_limit=None, defs=None, unfold=None, early=None):
    """-> list of (verdict, why, index of impl leaf, index of reference leaf) for every jointly possible pair"""
    import refine
    C = Comparer(P, shared, private)
    C.defs = defs or {}
    C.unfold = unfold
    res = []
    outsS = unify_loops(C, outsI, outsS)
    atI, atS = set(), set()
    for s, v in outsI:
        for f in s.log:
            C.atoms(f, atI)
    for s, v in outsS:
        for f in s.log:
            C.atoms(f, atS)
    for match in (C.match_terms, C.match_atoms):
        m = match(State(), atI, atS)
        if m:
            Sb = Subst(m)
            o2 = []
            for s, v in outsI:
                s2 = s.subst(Sb)
                if s2 is not None:
                    o2.append((s2, Sb(v)))
            outsI = o2
            atI = set()
            for s, v in outsI:
                for f in s.log:
                    C.atoms(f, atI)
    unk = []
    for i, (si, vi) in enumerate(outsI):
        for j, (ss, vs) in enumerate(outsS):
            if vi == vs:
                res.append((EQ, None, i, j))
                continue
            J = merge_states(ss, si)
            if J is None:
                continue
            r = C.split(J, lambda s: C.cmp(s, vi, vs))
            res.append((r[0], r[1], i, j))
    # differences are confirmed, undecided pairs refined, until one definite difference is found
    refine_limit = refine_limit or REFINE
    done = early is not None and any(x[0] != EQ for x in res) and early()
    t0 = time.time()
    C.deadline = IN.DEADLINE = t0 + refine_limit
    C.budget = 20000
    todo = [x for x in sorted(enumerate(res), key=lambda x: x[1][0] != NEQ) if x[1][0] != EQ]
    share = refine_limit / 2 / max(len(todo), 1)
    for first in (True, False):     # every pair gets a share of half the time, what stays undecided the rest
        left = []
        for n, (v, why, i, j) in todo:
            if done or time.time() - t0 > refine_limit:
                res[n] = (UNK, res[n][1] or why, i, j)
                continue
            end = min(t0 + refine_limit, time.time() + max(share, 2)) if first and len(todo) > 1 else t0 + refine_limit
            C.deadline = IN.DEADLINE = end
            r = refine.decide(C, refine.facts(outsI[i][0]), refine.facts(outsS[j][0]), outsI[i][1], outsS[j][1], 0, end)
            res[n] = (r[0] if r[0] == NEQ or v != EQ and r[0] == EQ else UNK, r[1] or why, i, j)
            done = r[0] == NEQ
            if res[n][0] == UNK and len(todo) > 1 and time.time() > end:
                left.append((n, (v, why, i, j)))
        todo = left
    IN.DEADLINE = None
    return res, outsI, C, outsS


def conflict(a, b):
    """two sets of facts that contain a formula and its negation"""
    if len(a) > len(b):
        a, b = b, a
    return any(fnot(f) in b for f in a)


def search(P, outsI, outsS, shared, private=(), limit=60, defs=None, unfold=None, kind='value'):
    """the first definite difference of two sets of loop-free leaves, or None -> (why, i, j)"""
    import refine
    C = Comparer(P, shared, private)
    C.defs = defs or {}
    C.unfold = unfold
    C.strict = True
    t0 = time.time()
    C.deadline = IN.DEADLINE = t0 + limit
    C.budget = 20000
    fI = [frozenset(refine.facts(s)) for s, _ in outsI]
    fS = [frozenset(refine.facts(s)) for s, _ in outsS]
    tried = 0
    try:
        for i, (si, vi) in sorted(enumerate(outsI), key=lambda x: len(x[1][0].log)):
            for j, (ss, vs) in enumerate(outsS):
                if vi == vs or conflict(fI[i], fS[j]):
                    continue
                if time.time() - t0 > limit:
                    return None
                J = merge_states(ss, si)
                if J is None:
                    continue
                C.steps = 0
                if kind == 'value' and C.cmp(J, vi, vs)[0] == EQ:
                    continue
                tried += 1
                try:
                    r = refine.decide(C, refine.facts(si), refine.facts(ss), vi, vs, 1, t0 + limit)
                except (IN.TooComplex, IN.Unsupported, RecursionError):
                    continue
                if DEBUG:
                    print('   search', i, j, r[0], str(r[1])[:200])
                if r[0] == NEQ:
                    return r[1], i, j
    finally:
        IN.DEADLINE = None
        C.tried = tried
    return None


def implies(C, st, f):
    if st.prove(f):
        return True
    J = st.copy()
    if not J.add(fnot(f)):
        return True
    C.steps = 0
    return C.split(J, lambda s: (NEQ, 'x'))[0] == EQ


def jsyms(st, v):
    out = []

    def go(t):
        if isinstance(t, Lin):
            for a in t.t:
                go(a)
        elif isinstance(t, tuple) and t:
            if t[0] == 'sym' and isinstance(t[1], str) and t[1].startswith('j$'):
                if t not in out:
                    out.append(t)
                return
            for x in t:
                if isinstance(x, (tuple, Lin)):
                    go(x)
    for f in st.log:
        go(f)
    go(v[3])
    return out


def compare_panics(P, panI, outsS, panS, shared, refine_limit=None, defs=None, unfold=None, early=None):
    """possible panics of the implementation that are not possible panics of the reference
    -> list of (verdict, why, panic leaf)"""
    import refine
    C = Comparer(P, shared)
    C.defs = defs or {}
    C.unfold = unfold
    refine_limit = refine_limit or REFINE
    t0 = time.time()
    C.deadline = IN.DEADLINE = t0 + refine_limit
    seen = {}
    for s, v in panI:
        k = (v[1:4], frozenset(s.log))
        if k not in seen:
            seen[k] = (s, v)
    panI = list(seen.values())
    nS = len(outsS)
    both = unify_loops(C, panI, list(outsS) + list(panS), True)
    outsS, panS = [x for x in both[:nS] if x], [x for x in both[nS:] if x]
    atI, atS = set(), set()
    for s, v in panI:
        for f in s.log:
            C.atoms(f, atI)
    for s, v in outsS + panS:
        for f in s.log:
            C.atoms(f, atS)
    for match in (C.match_terms, C.match_atoms):
        m = match(State(), atI, atS)
        if m:
            Sb = Subst(m)
            o2 = []
            for s, v in panI:
                s2 = s.subst(Sb)
                if s2 is not None:
                    o2.append((s2, Sb(v)))
            panI = o2
            atI = set()
            for s, v in panI:
                for f in s.log:
                    C.atoms(f, atI)
    res = []
    found = False
    for p, v in panI:
        js = jsyms(p, v)
        ok = False
        for q, w in panS:
            qs = jsyms(q, w)
            if len(qs) > len(js):
                continue
            for perm in itertools.permutations(js, len(qs)) if len(js) <= 3 else [tuple(js[:len(qs)])]:
                R = Subst(dict(zip(qs, perm)))
                fs = [R(f) for f in q.log]
                ap, aq = set(), set()
                for f in p.log:
                    C.atoms(f, ap)
                for f in fs:
                    C.atoms(f, aq)
                C.steps = 0
                mm = C.match_atoms(p, aq, ap)
                if mm:
                    M = Subst(mm)
                    fs = [M(f) for f in fs]
                if all(implies(C, p, f) for f in reversed(fs)):
                    ok = True
                    break
            if ok:
                break
        if ok:
            res.append((EQ, 'panics of the reference', (p, v)))
            continue
        r = (EQ, None)
        for ss, vs in outsS:
            C.steps = 0
            J = merge_states(ss, p)
            if J is None:
                continue
            q = C.split(J, lambda s: (NEQ, 'x'))
            if q[0] == EQ:
                continue
            if early is not None:
                C.deadline = IN.DEADLINE = None
                found = found or early()
                early = None
                t0 = time.time()
                C.deadline = IN.DEADLINE = t0 + refine_limit
            if found or time.time() - t0 > refine_limit:
                r = (UNK, 'not refined')
                break
            q = refine.decide(C, refine.facts(p), refine.facts(ss), v, vs, 0, t0 + refine_limit)
            if q[0] == NEQ:
                r = q
                found = True
                break
            if q[0] == UNK:
                r = q
        res.append((r[0], r[1], (p, v)))
    IN.DEADLINE = None
    return res


DISTINCT = {}     # functions that differ whenever the given argument is one of the given variants
DEBUG = False
REFINE = 40       # seconds of refinement per comparison
