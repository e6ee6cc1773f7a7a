"""Abstract interpreter over dumped MIR.

Trace-partitioned abstract interpretation: a state maps memory cells to value-flow terms and carries
a conjunction of facts (linear inequalities, enum variants, opaque booleans).  Loops are summarised
from one generic iteration (induction variables, appended sequences, accumulators), recursive
functions are cut and become uninterpreted calls; nothing is executed and no bound is put on
iteration counts or sizes.
"""
from values import *
import time
import mir

MAXSTATES = 200000
OPTION = 'core::option::Option'
RESULT = 'core::result::Result'
CF = 'core::ops::control_flow::ControlFlow'


DEADLINE = None     # of the refinement in progress
TOTAL = ()          # opaque functions of which only successful calls are considered
FOLD = None         # folds text operations on constants, when texts are fixed


class TooComplex(Exception):
    pass


class Unsupported(Exception):
    pass


VARN = {}
TY = {}
LOOPS = {}
LOOPKEY = {}


def intern_loop(key, info):
    if key in LOOPKEY:
        return LOOPKEY[key]
    i = len(LOOPS) + 1
    LOOPKEY[key] = i
    LOOPS[i] = info
    return i


STRATOM = ('pre', 'suf', 'eqs')


def str_atom(t):
    """(kind, string, literal) of a test of a string against a literal"""
    if t[0] in ('pre', 'suf'):
        return t[0], t[1], bytes(t[2])
    if t[0] == 'eqs':
        for x, y in ((t[1], t[2]), (t[2], t[1])):
            l = lit_of(y)
            if l is not None:
                return 'eqs', x, l
    return None


def str_test(kind, s, l):
    return s == l if kind == 'eqs' else s.startswith(l) if kind == 'pre' else s.endswith(l)


def str_decide(st, t):
    """truth of a literal test implied by the other literal tests of the same string, else None"""
    a = str_atom(t)
    if a is None:
        return None
    kind, S, l = a
    e = st.bools.get(('eqlit', S))
    if e is not None:
        return str_test(kind, e, l)
    if lit_of(S) is not None:
        return str_test(kind, lit_of(S), l)
    n = slen(S)
    if kind == 'eqs':
        if n != len(l) and st.refuted(eq(n, len(l))):
            return False
    elif st.prove(lt(n, len(l))):
        return False
    for u, b in st.bools.items():
        if u[0] not in STRATOM:
            continue
        o = str_atom(u)
        if o is None or o[1] != S:
            continue
        k2, _, m = o
        if b:
            if k2 == 'pre':
                if kind == 'pre' and m.startswith(l):
                    return True
                if kind in ('pre', 'eqs') and not (m.startswith(l[:len(m)]) and (kind == 'pre' or len(l) >= len(m))):
                    return False
            if k2 == 'suf':
                if kind == 'suf' and m.endswith(l):
                    return True
                k = min(len(l), len(m))
                if kind in ('suf', 'eqs') and (m[len(m) - k:] != l[len(l) - k:] or (kind == 'eqs' and len(l) < len(m))):
                    return False
        else:
            if k2 in ('pre', 'suf') and kind in (k2, 'eqs') and str_test(k2, l, m):
                return False
    return None


class State:
    __slots__ = ('mem', 'log', 'lin', 'neqs', 'bools', 'var', 'notvar', 'ors', 'sites')

    def __init__(self):
        self.mem = {}
        self.log = []
        self.lin = []
        self.neqs = []
        self.bools = {}
        self.var = {}
        self.notvar = {}
        self.ors = []
        self.sites = ()

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.log = list(self.log)
        s.lin = list(self.lin)
        s.neqs = list(self.neqs)
        s.bools = dict(self.bools)
        s.var = dict(self.var)
        s.notvar = dict(self.notvar)
        s.ors = list(self.ors)
        s.sites = self.sites
        return s

    # ---- reasoning
    def lin_for(self, goal):
        atoms = set(atoms_of(goal))
        todo = list(atoms)
        cons = []
        pool = list(self.lin)
        done_ax = set()
        while True:
            new = set()
            while todo:
                a = todo.pop()
                if a in done_ax:
                    continue
                done_ax.add(a)
                for x in axioms_of(a):
                    if isinstance(x, Lin):
                        cons.append(x)
                        for b in x.t:
                            if b not in atoms:
                                atoms.add(b)
                                todo.append(b)
            rest = []
            for l in pool:
                if any(a in atoms for a in l.t):
                    cons.append(l)
                    for b in l.t:
                        if b not in atoms:
                            new.add(b)
                else:
                    rest.append(l)
            pool = rest
            if not new:
                break
            atoms |= new
            todo = list(new)
        cons += range_cons(atoms)
        return cons

    def prove(self, f):
        h = f[0]
        if h == 'true':
            return True
        if h == 'false':
            return False
        if h == 'le':
            g = add(neg(f[1]), 1)
            return unsat(self.lin_for(g) + [g])
        if h == 'eq':
            return self.prove(norm_le(f[1])) and self.prove(norm_le(neg(f[1])))
        if h == 'b':
            t = f[1]
            if isinstance(t, tuple) and t and t[0] == 'is':
                return self.isvar(t[1], t[2]) is True
            if self.bools.get(t) is True:
                return True
            if isinstance(t, tuple) and t and t[0] in STRATOM:
                return str_decide(self, t) is True
            return False
        if h == 'and':
            return all(self.prove(x) for x in f[1])
        if h == 'or':
            if any(self.prove(x) for x in f[1]):
                return True
            return f in self.ors
        if h == 'not':
            g = f[1]
            if g[0] == 'b':
                t = g[1]
                if isinstance(t, tuple) and t and t[0] == 'is':
                    return self.isvar(t[1], t[2]) is False
                r = self.bools.get(t)
                if r is None and isinstance(t, tuple) and t and t[0] in STRATOM:
                    d = str_decide(self, t)
                    if d is not None:
                        return d is False
                if r is None and isinstance(t, tuple) and t and t[0] == 'eqs':
                    for x, y in ((t[1], t[2]), (t[2], t[1])):
                        ly = lit_of(y) if isinstance(y, tuple) else None
                        if ly is not None:
                            o = self.bools.get(('eqlit', x))
                            if o is not None and o != ly:
                                return True
                    return self.prove(fnot(eq(slen(t[1]), slen(t[2]))))
                return r is False
            if g[0] == 'eq':
                d = g[1]
                if d in self.neqs:
                    return True
                return self.prove(norm_le(add(d, 1))) or self.prove(norm_le(add(neg(d), 1)))
        return False

    def prove_split(self, f, depth=3):
        """prove by cases over the disjunctions"""
        if self.prove(f):
            return True
        if depth == 0:
            return False
        for i, g in enumerate(self.ors):
            if len(g[1]) > 6 or any(self.prove(x) for x in g[1]):
                continue
            ok = True
            for x in g[1]:
                s = self.copy()
                s.ors = [h for j, h in enumerate(self.ors) if j != i]
                if s.add(x) and not s.prove_split(f, depth - 1):
                    ok = False
                    break
            if ok:
                return True
        return False

    def isvar(self, t, v):
        if t[0] == 'adt':
            return t[2] == v
        x = self.var.get(t)
        if x is not None:
            return x == v
        nv = self.notvar.get(t, frozenset())
        if v in nv:
            return False
        n = VARN.get(t)
        if n is not None and len(nv) == n - 1:
            return True
        return None

    def refuted(self, f):
        return self.prove(fnot(f))

    def add(self, f, guard=True):
        if FOLD is not None:
            f = FOLD(f)
        h = f[0]
        if h == 'true':
            return True
        if h == 'false':
            return False
        if h == 'and':
            for x in f[1]:
                if not self.add(x, guard):
                    return False
            return True
        if self.prove(f):
            return True
        if self.refuted(f):
            return False
        if h == 'or':
            live = [x for x in f[1] if not self.refuted(x)]
            if not live:
                return False
            if len(live) == 1:
                return self.add(live[0], guard)
            f = for_(*live)
        if guard:
            self.log.append(f)
        if h == 'le':
            self.lin.append(f[1])
            return self.sharpen(f[1])
        elif h == 'eq':
            self.lin.append(f[1])
            self.lin.append(neg(f[1]))
            return self.sharpen(f[1])
        elif h == 'b':
            t = f[1]
            if t[0] == 'is':
                self.var[t[1]] = t[2]
            else:
                self.bools[t] = True
                if t[0] in ('pre', 'suf'):
                    n = len(t[2])
                    for u, v in self.bools.items():
                        if v and u[0] in ('pre', 'suf') and u[0] != t[0] and u[1] == t[1]:
                            a, b = (t[2], u[2]) if t[0] == 'pre' else (u[2], t[2])
                            n = max(n, next(len(a) + len(b) - k for k in range(min(len(a), len(b)), -1, -1)
                                            if a[len(a) - k:] == b[:k]))
                    self.add(le(n, slen(t[1])), False)
                if t[0] == 'eqs':
                    self.add(eq(slen(t[1]), slen(t[2])), False)
                    for x, y in ((t[1], t[2]), (t[2], t[1])):
                        ly = lit_of(y)
                        if ly is not None:
                            self.bools[('eqlit', x)] = ly
        elif h == 'not':
            g = f[1]
            if g[0] == 'b':
                t = g[1]
                if t[0] == 'is':
                    self.notvar[t[1]] = self.notvar.get(t[1], frozenset()) | {t[2]}
                else:
                    self.bools[t] = False
            elif g[0] == 'eq':
                self.neqs.append(g[1])
                # sharpen against known bounds
                if self.prove(norm_le(g[1])):
                    self.lin.append(add(g[1], 1))
                elif self.prove(norm_le(neg(g[1]))):
                    self.lin.append(add(neg(g[1]), 1))
        elif h == 'or':
            self.ors.append(f)
        return True

    def sharpen(self, l):
        """excluded values next to a bound move the bound; False if nothing is left"""
        if not self.neqs or isinstance(l, int):
            return True
        at = set(l.t)
        for d in self.neqs:
            if isinstance(d, int) or len(d.t) > 2 or not any(a in at for a in d.t):
                continue
            up, dn = self.prove(norm_le(d)), self.prove(norm_le(neg(d)))
            if up and dn:
                return False
            if up and not self.prove(norm_le(add(d, 1))):
                self.lin.append(add(d, 1))
            elif dn and not self.prove(norm_le(add(neg(d), 1))):
                self.lin.append(add(neg(d), 1))
        return True

    def subst(self, S, keep_log=0):
        s = State()
        s.sites = self.sites
        s.mem = {c: S(v) for c, v in self.mem.items()}
        s.lin = []
        ok = True
        for l in self.lin:
            r = norm_raw(S(l))
            if r is True:
                continue
            if r is False:
                return None
            s.lin.append(r)
        for l in self.neqs:
            r = S(l)
            if r == 0:
                return None
            if not isinstance(r, int):
                s.neqs.append(r)
        for t, b in self.bools.items():
            if t[0] == 'eqlit':
                s.bools[('eqlit', S(t[1]))] = b
                continue
            f = S(('b', t))
            if f[0] == 'b':
                if f[1] in s.bools and s.bools[f[1]] != b:
                    return None
                s.bools[f[1]] = b
            else:
                if f == (FF if b else TT):
                    return None
        for t, v in self.var.items():
            t2 = S(t)
            if isinstance(t2, tuple) and t2[0] == 'adt':
                if t2[2] != v:
                    return None
                continue
            if s.var.get(t2, v) != v:
                return None
            s.var[t2] = v
        for t, v in self.notvar.items():
            t2 = S(t)
            if isinstance(t2, tuple) and t2[0] == 'adt':
                if t2[2] in v:
                    return None
                continue
            s.notvar[t2] = v
        for f in self.ors:
            f2 = S(f)
            if f2 == FF:
                return None
            if f2[0] == 'or':
                s.ors.append(f2)
        for i, f in enumerate(self.log):
            f2 = S(f)
            if f2 == FF:
                return None
            if f2 != TT:
                s.log.append(f2)
        return s


INTRANGE = {}


def int_range(ty):
    if ty[0] == 'char':
        return 0, 0x10FFFF
    b, s = ty[1], ty[2]
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if s else (0, (1 << b) - 1)


BOXES = ('alloc::boxed::Box', 'alloc::rc::Rc', 'alloc::sync::Arc')
SEQ_ADTS = {'alloc::vec::Vec', 'alloc::string::String', 'alloc::borrow::Cow', 'primitive_types::H160',
            'primitive_types::H256', 'generic_array::GenericArray'}
FIXLEN = {'primitive_types::H160': 20, 'primitive_types::H256': 32}


def peel(ty):
    while True:
        if ty[0] in ('ref', 'ptr'):
            ty = ty[2]
        elif ty[0] == 'adt' and ty[1] in BOXES and ty[2]:
            ty = ty[2][0]
        else:
            return ty


def is_int_ty(ty):
    return ty[0] in ('int', 'char') or (ty[0] == 'adt' and ty[1] == 'primitive_types::U256')


def is_seq_ty(ty):
    return ty[0] in ('str', 'slice', 'array') or (ty[0] == 'adt' and ty[1] in SEQ_ADTS)


def elem_ty(ty):
    ty = peel(ty)
    if ty[0] in ('slice', 'array'):
        return ty[1]
    if ty[0] == 'adt' and ty[1] == 'alloc::vec::Vec' and ty[2]:
        return ty[2][0]
    if ty[0] == 'str' or (ty[0] == 'adt' and ty[1] in SEQ_ADTS):
        return ('int', 8, False)
    return ('other', '?')


def fixed_ty(ty):
    """the first type a term was seen at fixes its length (a vector viewed as an array later does not)"""
    return ty is None or ty[0] == 'array' or (ty[0] == 'adt' and ty[1] in FIXLEN)


def lift(t, ty):
    """typed view of an opaque term"""
    if not isinstance(t, tuple) or is_formula(t) or isinstance(t, Lin):
        return t
    ty = peel(ty)
    k = ty[0]
    if k not in ('other', 'param'):
        TY.setdefault(t, ty)
    if k in ('int', 'char'):
        lo, hi = int_range(ty)
        set_range(t, lo, hi)
        return as_int(t)
    if k == 'adt' and ty[1] == 'primitive_types::U256':
        set_range(t, 0, (1 << 256) - 1)
        return as_int(t)
    if k == 'bool':
        return ('b', t)
    if k == 'tuple':
        if t[0] == 'tup':
            return t
        return ('tup', tuple(lift(('fld', t, 0, i), x) for i, x in enumerate(ty[1])))
    if k == 'array' and isinstance(ty[2], int):
        if t[0] not in ('seq',) and fixed_ty(TY.get(t)):
            STATICLEN.setdefault(t, ty[2])
        return t
    if k == 'adt' and ty[1] in FIXLEN and t[0] != 'seq' and fixed_ty(TY.get(t)):
        STATICLEN.setdefault(t, FIXLEN[ty[1]])
    return t


def coerce(v, ty):
    """values of generic code get their concrete view when they reach a typed place"""
    if isinstance(v, tuple) and v and v[0] in ('ref', 'fn', 'clo', 'adt', 'it', 'seq') :
        return v
    return lift(v, ty)


class Frame:
    __slots__ = ('id', 'fn')
    n = 0

    def __init__(self, fn):
        Frame.n += 1
        self.id = Frame.n
        self.fn = fn


class Interp:
    def __init__(self, P, models, cut=(), opaque=(), modeP=False):
        self.P = P
        self.models = models
        self.cut = set(cut)
        self.opaque = set(opaque)
        self.modeP = modeP           # keep possible panics as leaves
        self.pan = []
        self.nobl = self.nbound = 0
        self.unmodelled = {}
        self.stack = []
        self.envs = []
        self.byval = False           # mutable references followed as values (functions that only select a place)
        self.nstates = 0
        self.analysed = set()
        self.calls_seen = set()
        self.fnvals = {}
        self.heap = 0
        self.bound = None            # limit for loop counts and reservations that depend on the data
        self.opqseen = {}
        self.rename = {}
        self.onopaque = None

    # ------------------------------------------------------------ obligations
    def oblige(self, st, f, what, fr, span):
        """panic-freedom obligation f; afterwards f is assumed"""
        if FOLD is not None:
            f = FOLD(f)
        if self.modeP:
            self.nobl += 1
            if not st.prove(f) and not st.prove_split(f):
                s2 = st.copy()
                if s2.add(fnot(f)):
                    self.panicked(s2, what, fr, f, span)
        return st.add(f, guard=False)

    def panic(self, st, what, fr, span):
        if self.modeP:
            self.nobl += 1
            self.panicked(st.copy(), what, fr, None, span)

    def panicked(self, st, what, fr, f, span):
        """a reachable panic as far as the domain can tell: kept as a leaf of its own"""
        st.mem = {}
        self.pan.append((st, ('panic', what, self.fname(fr), fnot(f) if f is not None else TT, str(span))))
        if len(self.pan) > 4000:
            raise TooComplex('panics')

    def capacity(self, st, n, fr, span):
        """a reservation of n elements: capacity overflow panics; the bound applies"""
        self.check_bound(st, n, 'reservation', fr, span)
        if self.modeP and not isinstance(n, int):
            return self.oblige(st, le(n, (1 << 63) - 1), 'capacity overflow', fr, span)
        return True

    def bounded(self, st, n):
        return self.bound is None or isinstance(n, int) or st.prove(le(n, self.bound))

    def check_bound(self, st, n, what, fr, span):
        """a loop count or reservation taken from the data stays below the limit"""
        if not self.modeP or self.bound is None or isinstance(n, int):
            return
        if not occurs(n if not isinstance(n, Lin) else tuple(n.t), lambda x: x[0] in ('beint', 'wrap', 'elem')):
            return
        self.nbound += 1
        f = le(n, self.bound)
        if not st.prove(f) and not st.prove_split(f):
            s2 = st.copy()
            if s2.add(fnot(f)):
                self.panicked(s2, 'bound: ' + what, fr, f, span)

    def fname(self, fr):
        # attribute to the innermost function of the analysed crate
        for k in reversed(self.stack):
            if 'spec::m::' not in k:
                return k
        return fr.fn.key if fr else '?'

    def tyhint(self, v):
        return TY.get(v)

    # ------------------------------------------------------------ memory
    def alloc(self, st, v, pin=False):
        """a cell of its own; pinned: its contents are a result even where no variable of the program refers to it any more"""
        self.heap += 1
        c = ('pin' if pin else 'h', self.heap)
        st.mem[c] = v
        return c

    def proj_get(self, st, v, p):
        h = p[0]
        if h == 'f':
            if v[0] == 'ref':
                v = self.load_ref(st, v)
            return fld(v, p[2], p[1]) if p[3] is None else coerce(fld(v, p[2], p[1]), p[3])
        if h == 'i':
            e = elem(st, v, p[1])
            return e if p[2] is None else coerce(e, p[2])
        if h == 'rng':
            return subseq(st, v, p[1], p[2])
        if h == 'k':
            return self.models.map_get_or(self, st, v, p[1], p[2])
        if h == 'lens':
            r = ('call', p[1], (v,) + p[2])
            return coerce(fld(r, 1, 0) if p[3] else r, p[4])
        raise Unsupported('proj ' + str(p))

    def load(self, st, cell, proj):
        v = st.mem.get(cell, ('undef',))
        for p in proj:
            v = self.proj_get(st, v, p)
        return v

    def load_ref(self, st, r):
        return self.load(st, r[1], r[2])

    def V(self, st, a):
        """value behind a (possibly mutable) reference"""
        while isinstance(a, tuple) and a and a[0] == 'ref':
            a = self.load(st, a[1], a[2])
        return a

    def store(self, st, cell, proj, v):
        if not proj:
            st.mem[cell] = v
            return
        st.mem[cell] = self.upd(st, st.mem.get(cell, ('undef',)), proj, v)

    def upd(self, st, old, proj, v):
        if not proj:
            return v
        p = proj[0]
        h = p[0]
        if h == 'f':
            if old[0] == 'adt' and old[2] == p[2]:
                fs = list(old[3])
                while len(fs) <= p[1]:
                    fs.append(('undef',))
                fs[p[1]] = self.upd(st, fs[p[1]], proj[1:], v)
                return ('adt', old[1], old[2], tuple(fs))
            if old[0] == 'tup':
                fs = list(old[1])
                while len(fs) <= p[1]:
                    fs.append(('undef',))
                fs[p[1]] = self.upd(st, fs[p[1]], proj[1:], v)
                return ('tup', tuple(fs))
            if old[0] == 'clo':
                fs = list(old[2])
                fs[p[1]] = self.upd(st, fs[p[1]], proj[1:], v)
                return ('clo', old[1], tuple(fs))
            if len(p) > 4 and p[4] is not None:
                ex = self.expand(old, p[4], p[2])
                if ex is not None:
                    return self.upd(st, ex, proj, v)
            return ('fset', old, p[2], p[1], self.upd(st, fld(old, p[2], p[1]), proj[1:], v))
        if h == 'i':
            nv = v if len(proj) == 1 else self.upd(st, self.proj_get(st, old, p), proj[1:], v)
            n = slen(old)
            return mkseq(tuple(segs_of(subseq(st, old, 0, p[1]))) + (('one', nv),) +
                         tuple(segs_of(subseq(st, old, add(p[1], 1), sub(sub(n, p[1]), 1)))), st)
        if h == 'rng':
            inner = self.proj_get(st, old, p)
            nv = self.upd(st, inner, proj[1:], v)
            n = slen(old)
            return mkseq(tuple(segs_of(subseq(st, old, 0, p[1]))) + tuple(segs_of(nv)) +
                         tuple(segs_of(subseq(st, old, add(p[1], p[2]), sub(sub(n, p[1]), p[2])))), st)
        if h == 'k':
            inner = self.proj_get(st, old, p)
            return ('mapset', old, p[1], self.upd(st, inner, proj[1:], v))
        if h == 'lens':
            return ('lensput', p[1], (old,) + p[2], self.upd(st, self.proj_get(st, old, p), proj[1:], v))
        raise Unsupported('upd')

    def expand(self, t, ty, variant):
        """opaque struct -> explicit aggregate"""
        ty = peel(ty)
        if ty[0] == 'tuple':
            return ('tup', tuple(lift(('fld', t, 0, i), x) for i, x in enumerate(ty[1])))
        if ty[0] == 'adt':
            fs = self.P.fields(ty[1], variant, ty[2])
            if fs is None:
                return None
            return ('adt', ty[1], variant, tuple(lift(('fld', t, variant, i), x) for i, x in enumerate(fs)))
        return None

    def resolve(self, st, fr, place):
        cell = (fr.id, place[0])
        proj = ()
        ty = fr.fn.locals[place[0]]
        variant = 0
        for e in place[1]:
            if e == '*':
                if ty[0] == 'ptr' or (ty[0] == 'ref' and ty[1]) or ty[0] == 'adt':
                    v = self.load(st, cell, proj)
                    if isinstance(v, tuple) and v[0] == 'ref':
                        cell, proj = v[1], v[2]
                ty = ty[2] if ty[0] in ('ref', 'ptr') else (peel(ty))
            elif e[0] == 'd':
                variant = e[1]
            elif e[0] == 'f':
                fty = fr.fn.tys(e[2])
                if ty[0] == 'adt' and ty[1] in BOXES + ('core::ptr::unique::Unique', 'core::ptr::non_null::NonNull'):
                    ty = fty if not ty[1] == 'alloc::boxed::Box' else ('adt', 'core::ptr::unique::Unique', ty[2])
                    variant = 0
                    continue
                proj = proj + (('f', e[1], variant, fty, ty),)
                ty = fty
                variant = 0
            elif e[0] == 'i':
                i = st.mem[(fr.id, e[1])]
                ety = elem_ty(ty)
                proj = proj + (('i', i, ety),)
                ty = ety
            elif e[0] == 'ci':
                v = self.load(st, cell, proj)
                i = e[1] if not e[3] else sub(slen(v), e[1])
                ety = elem_ty(ty)
                proj = proj + (('i', i, ety),)
                ty = ety
            elif e[0] == 'ss':
                v = self.load(st, cell, proj)
                n = slen(v)
                end = sub(n, e[2]) if e[3] else e[2]
                proj = proj + (('rng', e[1], sub(end, e[1])),)
            else:
                raise Unsupported('place ' + str(e))
        return cell, proj, ty

    def read(self, st, fr, place):
        cell, proj, ty = self.resolve(st, fr, place)
        return coerce(self.load(st, cell, proj), ty), ty

    def operand(self, st, fr, o):
        if o[0] in ('c', 'm'):
            return self.read(st, fr, o[1])
        if o[0] == 'k':
            return self.const(st, fr, o[1])
        return ('rt', str(o[1])), ('bool',)

    def const(self, st, fr, c):
        ty = fr.fn.tys(c['ty'])
        if ty[0] == 'fndef':
            return self.fnval(ty[1]), ty
        if ty[0] == 'closure':
            return ('clo', ty[1], ()), ty
        if 'int' in c:
            v = c['int']
            p = peel(ty)
            if p[0] == 'bool':
                return (TT if v else FF), ty
            if p[0] == 'adt':
                a = self.P.adts.get(p[1])
                if a and a['kind'] == 'enum':
                    for i, x in enumerate(a['variants']):
                        if x['discr'] == v and not x['fields']:
                            return ('adt', p[1], i, ()), ty
                return ('constadt', p[1], v), ty
            return v, ty
        if 'str' in c:
            return lit(c['str']), ty
        if 'bytes' in c:
            return mkseq((('lit', tuple(c['bytes'])),)), ty
        for kk in ('promoted', 'cbody'):
            if kk in c and c[kk] in self.P.fns:
                r = self.const_body(c[kk])
                if r is not None:
                    return r, ty
        if 'zst' in c:
            p = peel(ty)
            if p[0] == 'tuple':
                return UNIT, ty
            if p[0] == 'adt':
                return ('adt', p[1], 0, ()), ty
            if p[0] == 'array':
                return EMPTY, ty
            return ('zst', repr(p)), ty
        return lift(('const', c.get('cpath') or c.get('static') or c.get('promoted') or repr(c)), ty), ty

    def const_body(self, key):
        fn = self.P.fns[key]
        st = State()
        try:
            r = self.run_fn(fn, [], st)
        except (TooComplex, Unsupported, RecursionError):
            return None
        if len(r) == 1:
            v = r[0][1]
            return self.V(r[0][0], v)
        return None

    def fnval(self, idx):
        f = self.P.fnrefs[idx]
        n = f.get('key') or f['name']
        if f.get('ctor'):
            n = 'ctor ' + f['ctor'][0] + '#%d' % f['ctor'][1]
        elif not f.get('key'):
            n = f['name'] + ('<' + repr(f.get('self')) + '>' if 'self' in f else '')
        self.fnvals[n] = f
        return ('fn', n)

    # ------------------------------------------------------------ statements
    def rvalue(self, st, fr, r, dty):
        """list of (state, value)"""
        k = r[0]
        if k == 'use':
            v, _ = self.operand(st, fr, r[1])
            return [(st, v)]
        if k == 'ref':
            cell, proj, ty = self.resolve(st, fr, r[2])
            if r[1] and not (self.byval and '*' in r[2][1]):
                return [(st, ('ref', cell, proj))]
            v = coerce(self.load(st, cell, proj), ty)
            return [(st, v)]
        if k == 'repeat':
            v, _ = self.operand(st, fr, r[1])
            n = r[2] if r[2] is not None else as_int(fresh('n'))
            return [(st, mkseq((('rep', v, n),)))]
        if k == 'cast':
            if r[1] == 'BoxDerefTransmute' or 'Transmute' in r[1]:
                o = r[2]
                if o[0] in ('c', 'm') and dty[0] == 'ptr' and not self.byval:
                    cell, proj, ty = self.resolve(st, fr, o[1])
                    return [(st, ('ref', cell, proj))]
                v, ty = self.operand(st, fr, o)
                return [(st, v)]
            v, ty = self.operand(st, fr, r[2])
            if is_formula(v) and dty[0] == 'int' and v not in (TT, FF):
                out = []
                for f, n in ((v, 1), (fnot(v), 0)):
                    s2 = st.copy()
                    if s2.add(f):
                        out.append((s2, n))
                return out
            return [(st, self.cast(st, v, ty, dty))]
        if k == 'bin':
            a, ta = self.operand(st, fr, r[2])
            b, tb = self.operand(st, fr, r[3])
            return [(st, self.binop(st, r[1], a, b, ta))]
        if k == 'un':
            a, ta = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if is_formula(a):
                    return [(st, fnot(a))]
                if ta[0] == 'int' and not ta[2]:
                    return [(st, sub((1 << ta[1]) - 1, a))]
                if ta[0] == 'int':
                    return [(st, sub(-1, a))]
            if r[1] == 'Neg' and is_int(a):
                return [(st, neg(a))]
            if r[1] == 'PtrMetadata':
                return [(st, slen(self.V(st, a)))]
            return [(st, lift(('un', r[1], a), dty))]
        if k == 'discr':
            v, ty = self.read(st, fr, r[1])
            v = self.V(st, v)
            p = peel(ty)
            out = []
            for s2, vi in self.fork_variant(st, v, p):
                a = self.P.adts[p[1]] if p[0] == 'adt' and p[1] in self.P.adts else None
                if a:
                    out.append((s2, a['variants'][vi]['discr']))
                else:
                    out.append((s2, vi))
            return out
        if k == 'agg':
            vs = [self.operand(st, fr, o)[0] for o in r[2]]
            kk = r[1][0]
            if kk == 'tuple':
                return [(st, ('tup', tuple(vs)))]
            if kk == 'array':
                return [(st, mkseq(tuple(('one', v) for v in vs)))]
            if kk == 'adt':
                return [(st, ('adt', r[1][1], r[1][2], tuple(vs)))]
            if kk == 'closure':
                t = fr.fn.tys(r[1][1])
                return [(st, ('clo', t[1], tuple(vs)))]
        return [(st, ('rv', repr(r)[:80], fresh('rv')))]

    def fork_variant(self, st, v, p):
        if v[0] == 'adt':
            return [(st, v[2])]
        if v[0] == 'cases':
            out = []
            for g, x in v[1]:
                s2 = st.copy()
                if s2.add(g):
                    out += self.fork_variant(s2, x, p)
            return out
        if p[0] != 'adt' or p[1] not in self.P.adts:
            # unknown enum: opaque discriminant
            d = ('discr', v)
            x = st.var.get(v)
            if x is not None:
                return [(st, x)]
            raise Unsupported('discriminant of ' + repr(p)[:80])
        n = len(self.P.adts[p[1]]['variants'])
        VARN[v] = n
        x = st.var.get(v)
        if x is not None:
            return [(st, x)]
        if n == 1:
            return [(st, 0)]
        out = []
        ex = st.notvar.get(v, frozenset())
        for i in range(n):
            if i in ex:
                continue
            s2 = st.copy()
            if s2.add(('b', ('is', v, i))):
                out.append((s2, i))
        return out

    def fork_bool(self, st, f):
        """[(state, bool)]"""
        if f == TT:
            return [(st, True)]
        if f == FF:
            return [(st, False)]
        if st.prove(f):
            return [(st, True)]
        if st.refuted(f):
            return [(st, False)]
        out = []
        for g, b in ((f, True), (fnot(f), False)):
            for h in (g[1] if g[0] == 'or' and len(g[1]) <= 4 else (g,)):
                # split disjunctions into disjoint alternatives
                s2 = st.copy()
                ok = True
                if g[0] == 'or' and len(g[1]) <= 4:
                    for prev in g[1]:
                        if prev == h:
                            break
                        ok = ok and s2.add(fnot(prev))
                if ok and s2.add(h):
                    out.append((s2, b))
        return out

    def cast(self, st, v, ty, dty):
        if is_int(v) and is_int_ty(dty) and dty[0] in ('int', 'char'):
            lo, hi = int_range(dty)
            l, h = rng(v)
            if l is not None and h is not None and l >= lo and h <= hi:
                return v
            if st.prove(fand(le(lo, v), le(v, hi))):
                return v
            return mk_wrap(dty[1] if dty[0] == 'int' else 32, dty[2] if dty[0] == 'int' else False, v)
        if is_formula(v) and dty[0] == 'int':
            a = ('b2i', v)
            set_range(a, 0, 1)
            return 1 if v == TT else 0 if v == FF else as_int(a)
        if isinstance(v, tuple) and v and v[0] == 'adt' and dty[0] == 'int':
            a = self.P.adts.get(v[1])
            if a:
                return a['variants'][v[2]]['discr']
        if dty[0] == 'int' and isinstance(v, tuple) and ty[0] not in ('ref', 'ptr'):
            return lift(('cast', v), dty)
        return v

    def binop(self, st, op, a, b, ty):
        if is_formula(a) and is_formula(b):
            if op in ('BitAnd',):
                return fand(a, b)
            if op in ('BitOr',):
                return for_(a, b)
            if op in ('BitXor', 'Ne'):
                return fnot(feq(a, b))
            if op == 'Eq':
                return feq(a, b)
        if is_int(a) and is_int(b):
            if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
                return {'Eq': eq, 'Ne': lambda x, y: fnot(eq(x, y)), 'Lt': lt, 'Le': le,
                        'Gt': lambda x, y: lt(y, x), 'Ge': lambda x, y: le(y, x)}[op](a, b)
            base = op.replace('WithOverflow', '').replace('Unchecked', '')
            if base in ('Add', 'Sub', 'Mul'):
                r = {'Add': add, 'Sub': sub, 'Mul': mul}[base](a, b)
                if op.endswith('WithOverflow'):
                    lo, hi = int_range(ty)
                    return ('tup', (r, for_(lt(hi, r), lt(r, lo))))
                return r
            if base == 'Shl' and isinstance(b, int):
                r = scale(a, 1 << b)
                lo, hi = int_range(ty)
                if st.prove(fand(le(lo, r), le(r, hi))):
                    return r
                return mk_wrap(ty[1], ty[2], r)
            if base == 'Shr' and isinstance(b, int):
                return div(a, 1 << b)
            if base == 'Div':
                if isinstance(b, int) and b > 0 and (not ty[0] == 'int' or not ty[2] or st.prove(le(0, a))):
                    return div(a, b)
                return lift(('idiv', a, b), ty)
            if base == 'Rem':
                if isinstance(b, int) and b > 0 and (not ty[0] == 'int' or not ty[2] or st.prove(le(0, a))):
                    return mod(a, b)
                return lift(('irem', a, b), ty)
            if base in ('BitAnd', 'BitOr', 'BitXor'):
                if isinstance(a, int) and isinstance(b, int):
                    return {'BitAnd': a & b, 'BitOr': a | b, 'BitXor': a ^ b}[base]
                if base == 'BitAnd':
                    for x, y in ((a, b), (b, a)):
                        if isinstance(y, int) and y >= 0 and (y & (y + 1)) == 0:
                            return mod(x, y + 1)
                        if isinstance(y, int) and ty[0] == 'int' and not ty[2]:
                            m = (1 << ty[1]) - 1 - y
                            if m >= 0 and (m & (m + 1)) == 0:
                                return sub(x, mod(x, m + 1))
                return mk_bit(base, a, b)
        if op == 'Cmp':
            raise Unsupported('Cmp')
        if op in ('Eq', 'Ne'):
            f = self.eqval(st, a, b)
            return f if op == 'Eq' else fnot(f)
        return ('bin', op, a, b)

    # ------------------------------------------------------------ structural equality
    def eqval(self, st, a, b, ty=None):
        a, b = self.V(st, a), self.V(st, b)
        if a == b:
            return TT
        if is_int(a) or is_int(b):
            return eq(a if is_int(a) else as_int(a), b if is_int(b) else as_int(b))
        if is_formula(a) or is_formula(b):
            return feq(a if is_formula(a) else ('b', a), b if is_formula(b) else ('b', b))
        if a[0] == 'tup' and b[0] == 'tup':
            return fand(*[self.eqval(st, x, y) for x, y in zip(a[1], b[1])])
        if b[0] == 'adt' and a[0] != 'adt':
            a, b = b, a
        if a[0] == 'adt':
            if b[0] == 'adt':
                if a[2] != b[2]:
                    return FF
                return fand(*[self.eqval(st, x, y) for x, y in zip(a[3], b[3])])
            n = self.P.nvariants(a[1])
            fs = []
            if n and n > 1:
                VARN[b] = n
                r = st.isvar(b, a[2])
                if r is False:
                    return FF
                if r is None:
                    fs.append(('b', ('is', b, a[2])))
            for i, x in enumerate(a[3]):
                y = fld(b, a[2], i)
                fs.append(self.eqval(st, x, y))
            return fand(*fs)
        if a[0] == 'seq' or b[0] == 'seq' or (ty is not None and is_seq_ty(peel(ty))):
            return eqseq(st, a, b)
        if hashkey(b) < hashkey(a):
            a, b = b, a
        return ('b', ('eqv', a, b))

    # ------------------------------------------------------------ functions
    def tenv(self, fn, f):
        """the type parameters of a called function, as far as known"""
        g, a = fn.d.get('generics'), f.get('args')
        if not g or f.get('trait') or not a or len(g) != len(a):
            return None
        return {n: self.ty(t) for n, t in zip(g, a)}

    def ty(self, t):
        env = self.envs[-1] if self.envs else None
        return mir.subst_ty(t, env) if env else t

    def run_fn(self, fn, args, st, env=None):
        if len(self.stack) > 70:
            raise TooComplex('inlining depth')
        fr = Frame(fn)
        if env is None and fn.d.get('closure') and self.envs:
            env = self.envs[-1]
        self.stack.append(fn.key)
        self.envs.append(env)
        self.analysed.add(fn.key)
        try:
            for i, a in enumerate(args):
                st.mem[(fr.id, i + 1)] = coerce(a, fn.locals[i + 1])
            rets, exits, conts = self.run_region(fr, 0, st, None, None)
            out = []
            for s in rets:
                v = s.mem.get((fr.id, 0), UNIT)
                v = coerce(v, fn.locals[0])
                for c in [c for c in s.mem if c[0] == fr.id]:
                    if not self.escapes(v, fr.id):
                        del s.mem[c]
                out.append((s, v))
            if len(out) > 1:
                import merge
                out = merge.merge_rets(self, out)
            return out
        finally:
            self.stack.pop()
            self.envs.pop()

    def escapes(self, v, fid):
        return isinstance(v, tuple) and bool(v) and v[0] == 'ref' and v[1][0] == fid

    def run_region(self, fr, start, st, region, head):
        import heapq
        import merge
        fn = fr.fn
        loops = mir.loops_of(fn)
        live = mir.liveness(fn)
        pos = mir.rpo(fn)
        pending = {}
        heap = []
        rets, exits, conts = [], [], []
        exitst = {}

        def push(blk, s):
            if head is not None and blk == head:
                conts.append(s)
            elif region is not None and blk not in region:
                exitst.setdefault(blk, []).append(s)
            else:
                if blk not in pending:
                    pending[blk] = []
                    heapq.heappush(heap, (pos.get(blk, 1 << 30), blk))
                pending[blk].append(s)
        work = [(start, 0, st, True)]
        while work or heap:
            if not work:
                _, blk = heapq.heappop(heap)
                sts = merge.merge_at(self, fr, blk, live[blk], pending.pop(blk))
                for s in sts:
                    if blk in loops:
                        for b2, s2 in self.summarise(fr, blk, s):
                            push(b2, s2)
                    else:
                        work.append((blk, 0, s, False))
                continue
            blk, idx, st, first = work.pop()
            if idx == 0 and first and blk in loops and blk != head:
                for b2, s2 in self.summarise(fr, blk, st):
                    push(b2, s2)
                continue
            b = fn.blocks[blk]
            if b is None:
                continue
            self.nstates += 1
            if self.nstates > self.maxstates:
                raise TooComplex('states')
            if DEADLINE and self.nstates & 15 == 0 and time.time() > DEADLINE:
                raise TooComplex('time')
            stmts = b['s']
            i = idx
            dead = False
            while i < len(stmts):
                s = stmts[i]
                if s[0] == '=':
                    dcell, dproj, dty = self.resolve(st, fr, s[1])
                    outs = self.rvalue(st, fr, s[2], dty)
                    for s2, v in outs[1:]:
                        self.store(s2, dcell, dproj, coerce(v, dty))
                        work.append((blk, i + 1, s2, False))
                    if not outs:
                        dead = True
                        break
                    st, v = outs[0]
                    self.store(st, dcell, dproj, coerce(v, dty))
                elif s[0] == 'sd':
                    cell, proj, ty = self.resolve(st, fr, s[1])
                    old = self.load(st, cell, proj)
                    p = peel(ty)
                    self.store(st, cell, proj, ('adt', p[1], s[2], old[3] if old[0] == 'adt' else ()))
                i += 1
            if dead:
                continue
            nxt = []
            self.terminator(fr, blk, b['t'], st, nxt, rets)
            for b2, _, s2, _ in nxt:
                push(b2, s2)
        for blk, sts in exitst.items():
            for s in merge.merge_at(self, fr, blk, live[blk], sts):
                exits.append((blk, s))
        if len(conts) > 1:
            conts = merge.merge_at(self, fr, head, live[head], conts)
        return rets, exits, conts

    maxstates = MAXSTATES

    def terminator(self, fr, blk, t, st, work, rets):
        k = t[0]
        if k == 'goto':
            work.append((t[1], 0, st, False))
        elif k == 'drop':
            work.append((t[2], 0, st, False))
        elif k == 'ret':
            rets.append(st)
        elif k == 'switch':
            v, ty = self.operand(st, fr, t[1])
            if FOLD is not None:
                v = FOLD(v)
            if is_formula(v):
                tgt = {b: x for b, x in ((bool(c), x) for c, x in t[2])}
                for s2, b in self.fork_bool(st, v):
                    work.append((tgt.get(b, t[3]), 0, s2, False))
            elif isinstance(v, int):
                for c, x in t[2]:
                    if c == v or (v < 0 and c == v + (1 << 8)) or (v < 0 and c == v + (1 << 64)):
                        work.append((x, 0, st, False))
                        return
                work.append((t[3], 0, st, False))
            else:
                v = as_int(v)
                rest = st
                for c, x in t[2]:
                    c = signed(c, ty)
                    s2 = rest.copy()
                    if s2.add(eq(v, c)):
                        work.append((x, 0, s2, False))
                    if not rest.add(fnot(eq(v, c))):
                        rest = None
                        break
                if rest is not None:
                    work.append((t[3], 0, rest, False))
        elif k == 'assert':
            v, ty = self.operand(st, fr, t[1])
            if not is_formula(v):
                v = ('b', v)
            f = v if t[2] else fnot(v)
            if self.oblige(st, f, t[3], fr, t[6]):
                work.append((t[5], 0, st, False))
        elif k == 'call':
            fv, fty = self.operand(st, fr, t[1])
            args, tys = [], []
            for o in t[2]:
                v, ty = self.operand(st, fr, o)
                args.append(v)
                tys.append(ty)
            dcell, dproj, dty = self.resolve(st, fr, t[3])
            self.span = t[5]
            for s2, v in self.call_value(st, fr, fv, args, tys, dty, t[5]):
                if t[4] is None:
                    continue
                if FOLD is not None:
                    v = FOLD(v)
                self.store(s2, dcell, dproj, coerce(v, dty))
                work.append((t[4], 0, s2, False))
        elif k in ('unreachable',):
            return
        else:
            raise Unsupported('terminator ' + k)

    # ------------------------------------------------------------ calls
    def call_value(self, st, fr, fv, args, tys, dty, span):
        fv = self.V(st, fv)
        if fv[0] == 'fn':
            return self.call(st, fr, self.fnvals[fv[1]], args, tys, dty, span)
        if fv[0] == 'clo':
            return self.call_closure(st, fr, fv, args, span)
        return self.opaque_call(st, 'dyncall', [fv] + list(args), dty)

    def call_closure(self, st, fr, clo, args, span, dty=('other', '?')):
        """args: list of values"""
        clo_v = self.V(st, clo)
        if clo_v[0] == 'fn':
            return self.call(st, fr, self.fnvals[clo_v[1]], args, [('other', '?')] * len(args), dty, span)
        if clo_v[0] != 'clo':
            return self.opaque_call(st, 'dyncall', [clo_v] + list(args), ('other', '?'))
        fn = self.P.fns.get(clo_v[1])
        if fn is None:
            return self.opaque_call(st, 'closure ' + clo_v[1], list(clo_v[2]) + list(args), ('other', '?'))
        t1 = fn.locals[1]
        if t1[0] == 'ref' and t1[1]:
            s = clo if clo[0] == 'ref' else ('ref', self.alloc(st, clo_v), ())
            while True:
                inner = self.load(st, s[1], s[2])
                if inner[0] == 'ref':
                    s = inner
                else:
                    break
        else:
            s = clo_v
        if fn.key in self.stack and self.stack.count(fn.key) > 2:
            return self.opaque_call(st, 'rec ' + fn.key, list(args), fn.locals[0])
        return self.run_fn(fn, [s] + list(args), st)

    def call(self, st, fr, f, args, tys, dty, span):
        name = f['name']
        if f.get('ctor'):
            path, v = f['ctor']
            return [(st, ('adt', path, v, tuple(args)))]
        key = f.get('key')
        res = f.get('res') or name
        if key in self.opaque or name in self.opaque or res in self.opaque:
            return self.opaque_call(st, key if key in self.P.fns else name, args, dty, f)
        fn = self.P.fns.get(key)
        if fn is None and name.startswith('ethabi::') and name in self.P.byname:
            fn = self.P.fns[self.P.byname[name]]        # a generic function called from another crate
            key = fn.key
        if fn is not None:
            dty = fn.locals[0]
        # derived impls
        if f.get('derived') or (fn is not None and fn.d.get('derived')):
            m = name.split('::')[-1]
            if m == 'clone':
                return [(st, self.V(st, args[0]))]
            if m in ('eq', 'ne'):
                q = self.eqval(st, args[0], args[1], tys[0])
                return [(st, q if m == 'eq' else fnot(q))]
            if m != 'default' and not name.startswith(('serde', 'ethabi')):
                return self.opaque_call(st, name, args, dty, f)
        if fn is None or not fn.key.startswith(self.P_local):
            r = self.models.intrinsic(self, st, fr, f, args, tys, dty, span)
            if r is not None:
                return r
        if fn is not None:
            if key in self.cut:
                return self.opaque_call(st, key, args, dty, f)
            if self.recursive(key):
                return self.opaque_call(st, key, args, dty, f)
            return self.run_fn(fn, self.spread(fn, args), st, self.tenv(fn, f))
        # trait method on a value whose type we know
        if f.get('trait') and args:
            m = name.split('::')[-1]
            v = self.V(st, args[0]) if args else None
            head = v[1] if isinstance(v, tuple) and v and v[0] == 'adt' else None
            cand = self.P.impls.get((f['trait'], head, m)) if head else None
            if cand is None and 'self' in f:
                s = peel(f['self'])
                if s[0] == 'adt':
                    cand = self.P.impls.get((f['trait'], s[1], m))
            if cand is not None:
                g = self.P.fns[cand]
                if g.d.get('derived') and m == 'clone':
                    return [(st, v)]
                if g.d.get('derived') and m in ('eq', 'ne'):
                    q = self.eqval(st, args[0], args[1], tys[0])
                    return [(st, q if m == 'eq' else fnot(q))]
                if cand in self.opaque or (cand in self.cut) or self.recursive(cand):
                    return self.opaque_call(st, cand, args, dty, f)
                return self.run_fn(g, self.spread(g, args), st)
        # library function with a Rust model
        mk = self.models.rust_model(self, name)
        if mk is not None:
            g = self.P.fns[mk]
            return self.run_fn(g, args, st)
        self.unmodelled[name] = self.unmodelled.get(name, 0) + 1
        return self.opaque_call(st, '?' + name, args, dty, f)

    P_local = 'ethabi::\0'

    def recursive(self, key):
        if key not in self.stack:
            return False
        # adapters of adapters: the recursion follows the (finite) iterator value
        return self.P.fns[key].d.get('impl_trait') not in ('spec::m::It', 'spec::m::ItBack') or self.stack.count(key) > 5

    def is_root_call(self, key):
        return False

    def spread(self, fn, args):
        return args

    def opaque_call(self, st, name, args, dty, f=None):
        name = self.rename.get(name, name)
        self.calls_seen.add(name)
        vals = []
        for a in args:
            vals.append(self.deep(st, a))
        extra = ()
        if f is not None and f.get('trait') and not name.startswith('?structopt::'):
            ts = [x for x in f.get('args', []) if isinstance(x, tuple) and concrete(x)]
            if ts:
                extra = (('ty', repr(ts)),)
        vals = tuple(vals) + extra
        # a mutable reference into the first argument: a place selected by an uninterpreted function
        if args and isinstance(args[0], tuple) and args[0] and args[0][0] == 'ref' and not any(
                isinstance(a, tuple) and a and a[0] == 'ref' for a in args[1:]):
            opt = dty[0] == 'adt' and dty[1] == OPTION
            d = dty[2][0] if opt else dty
            if d[0] == 'ref' and d[1]:
                r = ('ref', args[0][1], args[0][2] + (('lens', name, vals[1:], opt, peel(d)),))
                if not opt:
                    return [(st, r)]
                return [(s, ('adt', OPTION, 1, (r,)) if vi else ('adt', OPTION, 0, ()))
                        for s, vi in self.fork_variant(st, ('call', name, vals), ('adt', OPTION, (d,)))]
        for i, a in enumerate(args):
            if isinstance(a, tuple) and a and a[0] == 'ref':
                self.store(st, a[1], a[2], ('upd', name, i, vals))
        if self.onopaque:
            self.onopaque(self, st, name, vals)
        r = ('call', name, vals)
        if name in TOTAL and dty[0] == 'adt' and dty[1] == RESULT:      # only successful calls are considered
            return [(st, ('adt', RESULT, 0, (coerce(r, dty[2][0]),)))]
        res = coerce(r, dty)
        return [(st, res)]

    def deep(self, st, a):
        if isinstance(a, tuple) and a:
            if a[0] == 'ref':
                return self.deep(st, self.V(st, a))
            if a[0] in ('adt',):
                return ('adt', a[1], a[2], tuple(self.deep(st, x) for x in a[3]))
            if a[0] == 'tup':
                return ('tup', tuple(self.deep(st, x) for x in a[1]))
            if a[0] == 'clo':
                return ('clo', a[1], tuple(self.deep(st, x) for x in a[2]))
        return a

    # ------------------------------------------------------------ loops
    unroll = 0      # number of iterations written out instead of a summary; longer runs are left out

    def summarise(self, fr, h, st0):
        import loops
        if not self.unroll:
            return loops.summarise(self, fr, h, st0)
        fn = fr.fn
        body = mir.loops_of(fn)[h]
        live = mir.liveness(fn)[h]
        cur, outs = [st0], []
        for it in range(self.unroll + 1):
            nxt = []
            for st in cur:
                st = st.copy()
                for c in [c for c in st.mem if c[0] == fr.id and c[1] not in live]:
                    del st.mem[c]
                rets, exits, conts = self.run_region(fr, h, st, body, h)
                if rets:
                    raise Unsupported('return inside loop')
                outs += exits
                nxt += conts
            if not nxt:
                break
            cur = nxt
        return outs


def concrete(t):
    if isinstance(t, tuple):
        if t and t[0] in ('param', 'other', 'closure', 'fndef'):
            return False
        return all(concrete(x) for x in t)
    return True


def signed(c, ty):
    if ty[0] == 'int' and ty[2] and c >= (1 << (ty[1] - 1)):
        return c - (1 << ty[1])
    return c
