"""Constant folding of text operations, and constant texts for the comparison of two leaves.

Conditions on text are uninterpreted in the domain; a conjunction of them is only known to be possible
when some constant text makes every one of them fold to a constant.  `candidates` proposes such texts:
short compositions of the literals that occur in the two leaves."""
import itertools
from values import *
from values import _rb_b
import term as T
import interp as IN

WS = b' \t\n\x0b\x0c\r'
INTS = {}


def const(v):
    """bytes of a literal text, else None"""
    if not isinstance(v, tuple) or not v:
        return None
    l = lit_of(v)
    if l is None or all(x < 128 for x in l):
        return l
    try:
        bytes(l).decode()
    except UnicodeDecodeError:
        return None
    return bytes(l)


def pat(p):
    if isinstance(p, int):
        return bytes([p]) if 0 < p < 128 else None
    return const(p)


def mk(b):
    return mkseq((('lit', tuple(b)),)) if b else mkseq(())


def int_ty(r):
    if r not in INTS:
        INTS[r] = eval(r, {})
    return INTS[r]


def parse(kind, b):
    """the number a text parses as, or None"""
    if kind == 'u256':
        if not all(48 <= x < 58 for x in b):
            return None
        v = int(b or b'0')
        return v if v < 1 << 256 else None
    lo, hi = IN.int_range(int_ty(kind))
    d = b
    neg = False
    if d[:1] == b'+' or (d[:1] == b'-' and lo < 0):
        neg = d[:1] == b'-'
        d = d[1:]
    if not d or not all(48 <= x < 58 for x in d):
        return None
    v = -int(d) if neg else int(d)
    return v if lo <= v <= hi else None


def is_hex(b):
    return len(b) % 2 == 0 and all(x in b'0123456789abcdefABCDEF' for x in b)


def fold_bool(t):
    h = t[0]
    if h in ('pre', 'suf', 'contains'):
        l = const(t[1])
        if l is not None:
            p = bytes(t[2])
            return l.startswith(p) if h == 'pre' else l.endswith(p) if h == 'suf' else p in l
    elif h in ('prev', 'sufv'):
        l, p = const(t[1]), const(t[2])
        if l is not None and p is not None:
            return l.startswith(p) if h == 'prev' else l.endswith(p)
    elif h == 'ishex':
        l = const(t[1])
        if l is not None:
            return is_hex(l)
    elif h == 'parses':
        l = const(t[2])
        if l is not None:
            return parse(t[1], l) is not None
    elif h == 'cb':
        l = const(t[1])
        if l is not None and isinstance(t[2], int):
            return t[2] == len(l) or 0 <= t[2] < len(l) and l[t[2]] & 0xc0 != 0x80
    return None


def rb_b(n):
    t = n[1]
    if isinstance(t, tuple) and t and isinstance(t[0], str):
        r = fold_bool(t)
        if r is not None:
            return TT if r else FF
    return _rb_b(n)


def rb_find(n):
    l = const(n[1])
    if l is None:
        return n
    i = l.find(bytes(n[2])) if n[0] == 'find' else l.rfind(bytes(n[2]))
    return i if i >= 0 else n


def rb_strop(n):
    op, args = n[1], n[2]
    l = const(args[0]) if args else None
    if l is None:
        return n
    p = pat(args[1]) if len(args) > 1 else None
    if any(c > 127 for c in l) and op not in ('encode', 'replace'):
        return n
    if op in ('trim', 'trim_start', 'trim_end'):
        return mk({'trim': l.strip, 'trim_start': l.lstrip, 'trim_end': l.rstrip}[op](WS))
    if op in ('to_lowercase', 'to_ascii_lowercase'):
        return mk(l.lower())
    if op == 'to_uppercase':
        return mk(l.upper())
    if op == 'encode':
        return mk(l.hex().encode())
    if op in ('trim_start_matches', 'trim_end_matches', 'trim_matches') and p:
        if op == 'trim_matches' and len(p) != 1:
            return n
        while op != 'trim_end_matches' and l.startswith(p):
            l = l[len(p):]
        while op != 'trim_start_matches' and l.endswith(p):
            l = l[:-len(p)]
        return mk(l)
    if op == 'replace' and p and len(args) == 3:
        q = const(args[2])
        if q is not None:
            return mk(l.replace(p, q))
    return n


def rb_text(n):
    h = n[0]
    if h == 'parsed':
        l = const(n[2])
        if l is not None:
            v = parse(n[1], l)
            if v is not None:
                return v
        return n
    l = const(n[1])
    if l is None:
        return n
    if h == 'unhex' and is_hex(l):
        b = bytes.fromhex(l.decode())
        return mk(b)
    try:
        s = l.decode('utf-8')
    except UnicodeDecodeError:
        return n
    if h == 'nchars':
        return len(s)
    if h == 'char' and isinstance(n[2], int) and 0 <= n[2] < len(s):
        return ord(s[n[2]])
    if h == 'cpos' and isinstance(n[2], int) and 0 <= n[2] <= len(s):
        return len(s[:n[2]].encode())
    if h == 'lastch' and s:
        return ord(s[-1])
    return n


class Fold:
    """rebuilds terms bottom-up, so that text operations on constants fold where they are built"""

    def __init__(self):
        self.memo = {}

    def __call__(self, t):
        if isinstance(t, (int, str, bytes)) or t is None:
            return t
        r = self.memo.get(t)
        if r is not None:
            return r
        if isinstance(t, Lin):
            r = t.c
            for a, k in t.t.items():
                x = self(a)
                r = add(r, scale(x if is_int(x) else as_int(x), k))
        elif not t or t[0] == 'lam':
            r = t
        elif t[0] == 'ref':
            r = t
        else:
            n = tuple(self(x) if isinstance(x, (tuple, Lin)) else x for x in t)
            h = n[0]
            if n != t and t in RANGE and n not in RANGE:
                RANGE[n] = RANGE[t]
            r = T.rebuild(n) if n != t or h in FOLDED else n
        self.memo[t] = r
        return r


FOLDED = {'b', 'find', 'rfind', 'strop', 'unhex', 'nchars', 'char', 'cpos', 'lastch', 'parsed', 'join', 'dec'}


T.REBUILD['b'] = rb_b
T.REBUILD['find'] = T.REBUILD['rfind'] = rb_find
T.REBUILD['strop'] = rb_strop
for _h in ('unhex', 'nchars', 'char', 'cpos', 'lastch', 'parsed'):
    T.REBUILD[_h] = rb_text


# ---------------------------------------------------------------- candidates
HEADS = ('pre', 'suf', 'contains', 'prev', 'sufv', 'ishex', 'unhex', 'find', 'rfind', 'nchars', 'char', 'cpos', 'lastch')
TYPES = [b'bool[0]', b'bool[]', b'bool[2]', b'bool[][]', b'bool[2][3]', b'bool[1][]', b'bool[][1]', b'bool[10]', b'bool[00]', b'bool[1]]', b'bool[[1]',
         b'bool[a]', b'[]', b']', b'[1]', b')', b'(', b'()', b'(bool', b'bool)', b'(bool)', b'(bool,bool)', b'((bool),bool)', b'(bool)[]', b'(bool[2])[1]',
         b'(,)', b'(bool,)', b'(,bool)', b'(bool))', b'((bool)', b'((bool,bool),bool)', b'(bool)(bool)', b'(bool(bool))', b'uint', b'uint8', b'uint300', b'int8',
         b'bytes1', b'bytes32', b'bytes33', b'uint+8', b'uint08', b'uint-8', b'Uint', b' bool', b'bool ', b'tuple', b'tuple[]', b'tuple[2]', b'function', b'fixed']
SIGNATURES = [b'f(', b'f()', b'f(bool)', b'f(bool):(bool)', b'f(bool,bool)']


WIDE = [x.encode() for x in ('\u20ac', 'bytes\u20ac', '\u00e91', '1\u00e9', '[\u00e9]', '(\u00e9)', '\u00e9[1]', 'a\u00e9b', 'uint\u20ac', '\u00e9]', '[\u00e9,\u00e9]',
                               '(\u00e9,1)', '["\u00e9"]', '0x\u00e9', '(bool,\u00e9)', '(\u00e9,\u00e9)', '[1,\u00e9]', '(1,\u00e9,2)', 'bool[\u00e9]', 'bool[1]\u00e9', '(bool)\u00e9', '\u00e9(bool)', '\u00e9bool', '(\u00e9bool,bool\u00e9)', '\u00e9[]', '[\u00e9','\u00e9\u00e9\u00e9\u00e9', 'in\u20ac', 'b\u20ac')]
ITEMS = [b'', b'1', b'a', b'1,2', b'1,', b',1', b',', b',,', b'1,2,3', b'"a,b",c', b'"a"', b'"a', b'a"', b'a"b', b'a"b"', b'"a]"', b'"[a"', b'"a","b"', b'[1]', b'[1],[2]',
         b'[1,2],[3]', b'[]', b'[],[]', b'(1)', b'(1),(2)', b'(1,2),(3)', b'()', b'(),1', b'[(1)]', b'([1])', b'1]', b'[1', b'1)', b'(1', b'] [', b')(', b'1 , 2', b' 1', b'1 ',
         b'"",""', b'"', b'""', b'"a""b"', b'1,[2]', b'[1],2', b'[[1]]', b'((1))', b'"[",a', b'"(",a', b'true', b'true,false', b'1 2', b'""a', b'a""', b'"a"b']
SCALARS = [b'', b'0', b'1', b'12', b'-1', b'+1', b'-0', b'--1', b'01', b'0x', b'0x1', b'0xab', b'0XAB', b' 1', b'1 ', b'true', b'false', b'True', b'TRUE', b'yes', b'no', b't', b'f',
           b'00', b'10', b'a', b'abc', b'11' * 32, b'ab' * 20, b'AB' * 32, b'0x' + b'ab' * 20, b'0x' + b'11' * 32, b'11' * 31, b'11' * 33, b'ab' * 19,
           b'1' * 63, b'1' * 78, b'9' * 78, b'9' * 77, b'8' + b'0' * 63, b'7' + b'f' * 63, b'f' * 64,
           b'%d' % (2 ** 255), b'%d' % (2 ** 255 - 1), b'%d' % (2 ** 256), b'%d' % (2 ** 256 - 1), b'-%d' % (2 ** 255), b'-%d' % (2 ** 255 - 1), b'-%d' % (2 ** 255 + 1),
           b'-%d' % (2 ** 256 - 1), b'%d' % (2 ** 64), b'%d' % (2 ** 128), b'-%d' % (2 ** 64), b'-%d' % (2 ** 128), b'%d' % (2 ** 32), b'1_0', b'1e3', b'-', b'+']


def pool(name):
    """constant texts at which the two summaries are specialised"""
    if name == 'read':
        return TYPES + WIDE
    if 'array' in name or 'struct' in name:
        w = (b'(%s)', b'[%s]') if 'struct' in name else (b'[%s]', b'(%s)')
        return [w[0] % x for x in ITEMS] + [b'', b'[', b']', b'(', b')', b'1', b' [1]', b'[1] ', b' (1)', b'(1) ', w[1] % b'1', b'[1][2]', b'(1)(2)', b'[1]a', b'(1)a'] + WIDE
    return SCALARS + WIDE


def is_free(S):
    """texts that can be any text: arguments, strings read from a document"""
    if S[0] == 'arg':
        return True
    if S[0] == 'fld' and S[1][0] == 'call' and S[1][1] in ('de', 'dekey'):
        return True
    if S[0] in ('fld', 'elem') and isinstance(S[1], tuple):
        return is_free(S[1])
    return False


def is_sig(S):
    return S[0] == 'call' and S[1] == 'ethabi::function::Function::signature'


def bases(t, out):
    def of(S):
        if not isinstance(S, tuple) or not S or not isinstance(S[0], str):
            return
        if is_free(S) or is_sig(S):
            out.add(S)
        elif S[0] == 'strop':
            for a in S[2]:
                of(a)
        elif S[0] == 'seq':
            for s in S[1]:
                if s[0] == 'sub':
                    of(s[1])

    def see(x):
        if x[0] in HEADS:
            of(x[1])
            if x[0] in ('prev', 'sufv'):
                of(x[2])
        elif x[0] in ('parses', 'parsed'):
            of(x[2])
        elif x[0] == 'strop' and x[1] != 'encode':
            of(x)
        elif x[0] == 'eqs' and (is_sig(x[1]) or is_sig(x[2])):
            of(x[1])
            of(x[2])
        return False
    T.occurs(t, see)
    return out


def literals(t):
    out = set()

    def see(x):
        if x[0] in ('pre', 'suf', 'contains', 'find', 'rfind'):
            out.add(bytes(x[2]))
        elif x[0] == 'eqs':
            for y in x[1:3]:
                l = const(y)
                if l is not None:
                    out.add(l)
        elif x[0] == 'strop':
            for y in x[2][1:]:
                l = pat(y)
                if l is not None:
                    out.add(l)
        return False
    T.occurs(t, see)
    return sorted((x for x in out if x and len(x) <= 12 and all(c < 128 for c in x)), key=lambda x: (len(x), x))[:6]


def numbers(t):
    """decimal texts at the bounds that parsed values are compared with"""
    out = set()

    def lins(x):
        if isinstance(x, Lin):
            for a, k in x.t.items():
                if isinstance(a, tuple) and a and a[0] == 'parsed' and len(x.t) == 1 and k in (1, -1):
                    out.add(abs(x.c))
            for a in x.t:
                lins(a)
        elif isinstance(x, tuple):
            for y in x:
                lins(y)
    lins(t)
    r = set()
    for n in out:
        r |= {n, n + 1, max(n - 1, 0)}
    return sorted(r)[:12]


def candidates(t):
    """substitutions of constant texts for the texts the conditions are about"""
    bs = sorted(bases(t, set()), key=hashkey)
    bs = [b for b in bs if not T.occurs(b, lambda x: x[0] in ('bv', 'sym', 'acc', 'first'))]
    if not bs or len(bs) > 2:
        return
    lits = literals(t)
    pools = []
    sig = any(is_sig(b) for b in bs)
    for b in bs:
        p = []
        if sig:
            p = list(SIGNATURES)
        else:
            if T.occurs(t, lambda x: x[0] == 'call' and x[1] == 'ethabi::param_type::reader::Reader::read'):
                p += TYPES
            nums = [b'%d' % n for n in numbers(t)]
            p += [x + n for x in [b''] + lits for n in nums]
            if T.occurs(t, lambda x: x[0] in ('ishex', 'unhex') or x[0] == 'call' and 'tokenize' in str(x[1])):
                for h in (b'11' * 32, b'ab' * 20, b'AB' * 32):
                    p += [w % a for a in [b''] + lits + [b'0x', b' '] for w in (b'%s' + h, h + b'%s')]
            for a in lits:
                p += [b'%s1' % a, b'1%s' % a, b'%s1%s' % (a, a), b'1%s1' % a]
            for a in lits:
                for c in [b''] + lits:
                    for w in (b'%s%s', b'a%s%s', b'%s%sa', b'a%sa%s', b'%sa%s', b'a%sa%sa', b'0%s%s1', b' %s%s', b'%s%s '):
                        p.append(w % (a, c))
            p += [b'', b'a', b'ab', b'0', b'12', b'-1', b'+1', b'0x', b'0xab', b' ', b'a b', b' a', b'a ', b'A', b'aB', b'abc']
        pools.append(list(dict.fromkeys(p))[:150 if len(bs) == 1 else 24])
    for vs in itertools.product(*pools):
        yield {b: mk(v) for b, v in zip(bs, vs)}


def data():
    """encoded data: a first word, then the word it may point to and what follows"""
    def w(n):
        return n.to_bytes(32, 'big')
    body = bytes(range(1, 65))
    words = [w(32), w(0), w(1), w(2), w(3), w(64), w(33), w(255), w(257), w(1 << 16 | 32), w(1 << 23), w(1 << 24), w(1 << 31 | 32), w(1 << 32 | 32),
             w(1 << 40 | 32), w(1 << 63 | 32), w(1 << 64 | 32), w(1 << 128 | 32), w(1 << 248 | 32), w(1 << 255), w(1 << 255 | 1), w((1 << 256) - 1),
             w((1 << 160) - 1), w(1 << 160 | 5), bytes(range(224, 256)), b'\x01' + bytes(31)]
    out = [x + w(3) + body for x in words]
    out += [w(32) + x + body for x in (w(0), w(1), w(32), w(33), w(64), w(65), w(1 << 16 | 2), w(1 << 24 | 2), w(1 << 32 | 2), w(1 << 64 | 2), w(1 << 248 | 2))]
    out += [w(32) + w(2) + w(32) + w(64) + w(1) + b'a' + bytes(31), w(64) + w(7) + w(4) + 'h\u00e9\0'.encode() + bytes(28), w(32) + w(4) + b'a\xff\0b' + bytes(28),
            w(32) + w(2) + b'\0\0' + bytes(30), b'', w(1)[:31], w(5), w(5) + b'x', w(1 << 16 | 1)]
    return out
