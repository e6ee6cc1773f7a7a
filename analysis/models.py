"""Semantics of library functions for the abstract interpreter.

Each intrinsic takes (I, st, fr, f, args, tys, dty, span) and returns [(state, value)], or None to
decline.  Iterator adapters and Option/Result combinators are modelled in Rust (spec crate, module m).
"""
from values import *
import interp as IN
from interp import OPTION, RESULT, CF, peel, is_seq_ty, is_int_ty, elem_ty, lift, coerce, VARN

TABLE = {}
U8 = ('int', 8, False)
USZ = ('int', 64, False)
ANY = ('other', '?')


def model(*names):
    def deco(fn):
        for n in names:
            TABLE[n] = fn
        return fn
    return deco


def some(v):
    return ('adt', OPTION, 1, (v,))


NONE = ('adt', OPTION, 0, ())


def ok(v):
    return ('adt', RESULT, 0, (v,))


def err(v):
    return ('adt', RESULT, 1, (v,))


def split(I, st, f):
    """(true states, false states)"""
    t, n = [], []
    for s, b in I.fork_bool(st, f):
        (t if b else n).append(s)
    return t, n


# ---------------------------------------------------------------- identities
IDENT = [
    'core::ops::deref::Deref::deref', 'core::convert::AsRef::as_ref', 'core::borrow::Borrow::borrow',
    'alloc::borrow::ToOwned::to_owned', 'core::clone::Clone::clone', 'alloc::string::String::as_str',
    'alloc::string::String::as_bytes', 'str::as_bytes', 'slice::to_vec', 'alloc::vec::Vec::as_slice',
    'alloc::boxed::Box::new', 'core::hint::must_use', 'alloc::string::String::into_bytes',
    'alloc::string::String::into_boxed_str', 'str::to_owned', 'slice::into_vec', 'alloc::borrow::Cow::into_owned',
    'core::iter::traits::iterator::Iterator::cloned', 'core::iter::traits::iterator::Iterator::copied',
    'core::iter::traits::iterator::Iterator::by_ref', 'core::iter::traits::iterator::Iterator::fuse',
    'core::option::Option::cloned', 'core::option::Option::copied', 'core::option::Option::as_ref',
    'core::option::Option::as_deref', 'core::result::Result::as_ref', 'core::result::Result::cloned',
    'core::result::Result::copied', 'generic_array::GenericArray::as_slice', 'alloc::vec::Vec::into_boxed_slice',
    'primitive_types::H256::as_bytes', 'primitive_types::H160::as_bytes', 'primitive_types::H256::as_fixed_bytes',
    'primitive_types::H256::to_fixed_bytes', 'primitive_types::H160::as_fixed_bytes',
    'primitive_types::H160::to_fixed_bytes', 'anyhow::__private::must_use', 'alloc::string::String::from_utf8_unchecked',
    'core::convert::identity', 'core::mem::drop_', 'array::as_slice', 'core::array::as_slice', 'slice::iter_',
    'alloc::string::String::into_string', 'alloc::boxed::Box::into_inner', 'str::as_ref', 'alloc::slice::to_vec',
]


def identity(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    s = peel(tys[0]) if tys else ANY
    # user types behind Deref/AsRef/Borrow/Clone are not identities
    return [(st, v)]


for n in IDENT:
    TABLE[n] = identity


@model('core::ops::deref::DerefMut::deref_mut', 'core::convert::AsMut::as_mut', 'alloc::vec::Vec::as_mut_slice',
       'core::borrow::BorrowMut::borrow_mut')
def ident_mut(I, st, fr, f, args, tys, dty, span):
    return [(st, args[0])]


@model('core::option::Option::as_mut', 'core::option::Option::as_deref_mut')
def option_as_mut(I, st, fr, f, args, tys, dty, span):
    a = args[0]
    v = I.V(st, a)
    out = []
    for s, vi in I.fork_variant(st, v, peel(tys[0])):
        if vi == 0:
            out.append((s, NONE))
        elif a[0] == 'ref':
            out.append((s, some(('ref', a[1], a[2] + (('f', 0, 1, None),)))))
        else:
            out.append((s, some(fld(v, 1, 0))))
    return out


@model('core::option::Option::take', 'core::mem::take', 'core::mem::replace', 'core::option::Option::replace',
       'core::option::Option::insert')
def mem_take(I, st, fr, f, args, tys, dty, span):
    n = f['name'].split('::')[-1]
    a = args[0]
    if a[0] != 'ref':
        return None
    v = I.V(st, a)
    if n == 'take':
        new = NONE
        if f['name'] == 'core::mem::take':
            new = default_of(I, peel(tys[0]))
            if new is None:
                return None
    elif n == 'replace':
        new = args[1] if f['name'].startswith('core::mem') else some(args[1])
    else:
        return None
    I.store(st, a[1], a[2], new)
    return [(st, v)]


def default_of(I, ty):
    if is_seq_ty(ty) and ty[0] == 'adt' and ty[1] in ('alloc::vec::Vec', 'alloc::string::String'):
        return EMPTY
    if ty[0] == 'int' or (ty[0] == 'adt' and ty[1] == 'primitive_types::U256'):
        return 0
    if ty[0] == 'bool':
        return FF
    if ty[0] == 'adt' and ty[1] == OPTION:
        return NONE
    if ty[0] == 'adt' and ty[1].endswith('HashMap'):
        return ('mapempty',)
    if ty[0] == 'tuple':
        fs = [default_of(I, x) for x in ty[1]]
        if any(x is None for x in fs):
            return None
        return ('tup', tuple(fs))
    if ty[0] == 'adt' and ty[1] in IN.FIXLEN:
        return mkseq((('rep', 0, IN.FIXLEN[ty[1]]),))
    if ty[0] == 'array' and isinstance(ty[2], int):
        e = default_of(I, peel(ty[1]))
        return None if e is None else mkseq((('rep', e, ty[2]),))
    return None


@model('core::default::Default::default')
def default(I, st, fr, f, args, tys, dty, span):
    ty = peel(f.get('self', dty))
    if ty[0] in ('param', 'other'):
        ty = peel(dty)
    v = default_of(I, ty)
    return None if v is None else [(st, v)]


@model('core::option::Option::unwrap_or_default', 'core::result::Result::unwrap_or_default')
def unwrap_or_default(I, st, fr, f, args, tys, dty, span):
    d = default_of(I, peel(dty))
    if d is None:
        return None
    v = I.V(st, args[0])
    good = 1 if 'Option' in f['name'] else 0
    if v[0] == 'adt':
        return [(st, v[3][0] if v[2] == good else d)]
    t, e = split(I, st, ('b', ('is', v, good)))
    return [(s, fld(v, good, 0)) for s in t] + [(s, d) for s in e]


@model('alloc::vec::Vec::new', 'alloc::string::String::new', 'alloc::vec::Vec::with_capacity',
       'alloc::string::String::with_capacity')
def vec_new(I, st, fr, f, args, tys, dty, span):
    if args:
        I.capacity(st, args[0], fr, span)
    return [(st, EMPTY)]


@model('alloc::boxed::Box::new_uninit')
def box_uninit(I, st, fr, f, args, tys, dty, span):
    return [(st, ('undef',))]


@model('alloc::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    # MaybeUninit/ManuallyDrop wrappers around the array
    while isinstance(v, tuple) and v and v[0] in ('adt', 'fset', 'tup'):
        if v[0] == 'adt':
            v = v[3][-1]
        elif v[0] == 'fset':
            v = v[4]
        else:
            v = v[1][-1]
    return [(st, v)]


@model('alloc::vec::from_elem')
def from_elem(I, st, fr, f, args, tys, dty, span):
    I.capacity(st, args[1], fr, span)
    return [(st, mkseq((('rep', I.V(st, args[0]), args[1]),)))]


# ---------------------------------------------------------------- conversions
@model('core::convert::Into::into', 'core::convert::From::from')
def into(I, st, fr, f, args, tys, dty, span):
    a = f.get('args', [])
    if f['name'].endswith('Into::into'):
        src, dst = (a + [ANY, ANY])[:2]
    else:
        dst, src = (a + [ANY, ANY])[:2]
    if tys and tys[0][0] not in ('other', 'param'):
        src = tys[0]
    if dst[0] in ('param', 'other'):
        dst = dty
    v = I.V(st, args[0])
    s, d = peel(src), peel(dst)
    if s == d:
        return [(st, v)]
    if d == ('adt', 'primitive_types::U256', ()):
        if is_seq_ty(s):
            return [(st, mk_beint(v))]
        if is_int_ty(s):
            lo, _ = rng(v)
            if not (isinstance(s, tuple) and s[0] == 'int' and s[2]):
                return [(st, v)]
    if s == ('adt', 'primitive_types::U256', ()) and is_seq_ty(d):
        return [(st, mk_be(v, 32))]
    if is_int_ty(s) and is_int_ty(d):
        return [(st, v)]
    if s[0] == 'bool' and d[0] == 'int':
        return [(st, I.cast(st, v, s, d))]
    if d[0] == 'adt' and d[1] == OPTION:
        return [(st, some(v))]
    if s[0] == 'char' and d == ('adt', 'alloc::string::String', ()):
        return [(st, mkseq((('one', v),)))]
    if is_seq_ty(s) and is_seq_ty(d):
        return [(st, v)]
    # user From impls reached through the blanket Into
    if d[0] == 'adt':
        cands = [k for (t, h, m), k in I.P.impls.items()
                 if t == 'core::convert::From' and h == d[1] and m == 'from']
        for k, fn in I.P.fns.items():
            if fn.d.get('impl_trait') == 'core::convert::From' and fn.d.get('impl_self') == d[1] and \
                    fn.name.endswith('::from') and peel(fn.locals[1]) == s and not fn.d.get('closure'):
                if k in I.opaque or k in I.cut or k in I.stack:
                    return I.opaque_call(st, k, args, dst)
                return I.run_fn(fn, [v], st)
    return I.opaque_call(st, 'from<%s>' % (repr(d),), [v], dst)


@model('core::convert::TryFrom::try_from', 'core::convert::TryInto::try_into')
def try_into(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    d = peel(dty)
    if d[0] != 'adt' or d[1] != RESULT:
        return None
    d = d[2][0]
    pd = peel(d)
    s = peel(tys[0])
    e = ('call', 'tryfrom_err', (v,))
    if is_int_ty(s) and is_int_ty(pd) and pd[0] == 'int':
        lo, hi = IN.int_range(pd)
        t, n = split(I, st, fand(le(lo, v), le(v, hi)))
        return [(x, ok(v)) for x in t] + [(x, err(e)) for x in n]
    if pd[0] == 'array' and isinstance(pd[2], int) and is_seq_ty(s):
        t, n = split(I, st, eq(slen(v), pd[2]))
        return [(x, ok(v)) for x in t] + [(x, err(e)) for x in n]
    return None


@model('primitive_types::H256::from_slice', 'primitive_types::H160::from_slice', 'generic_array::GenericArray::from_slice')
def from_slice(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    n = IN.FIXLEN.get(peel(dty)[1])
    if n is None:
        return None
    if not I.oblige(st, eq(slen(v), n), 'from_slice length', fr, span):
        return []
    return [(st, v)]


@model('primitive_types::H256::zero', 'primitive_types::H160::zero')
def h_zero(I, st, fr, f, args, tys, dty, span):
    return [(st, mkseq((('rep', 0, IN.FIXLEN[peel(dty)[1]]),)))]


@model('primitive_types::U256::zero')
def u_zero(I, st, fr, f, args, tys, dty, span):
    return [(st, 0)]


@model('primitive_types::U256::one')
def u_one(I, st, fr, f, args, tys, dty, span):
    return [(st, 1)]


@model('primitive_types::U256::max_value')
def u_max(I, st, fr, f, args, tys, dty, span):
    return [(st, (1 << 256) - 1)]


@model('primitive_types::U256::is_zero')
def u_is_zero(I, st, fr, f, args, tys, dty, span):
    return [(st, eq(as_int(I.V(st, args[0])), 0))]


@model('primitive_types::U256::from_big_endian')
def u_from_be(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if not I.oblige(st, le(slen(v), 32), 'from_big_endian length', fr, span):
        return []
    return [(st, lift(mk_beint(v) if not isinstance(mk_beint(v), Lin) else mk_beint(v), dty))]


@model('primitive_types::U256::to_big_endian')
def u_to_be(I, st, fr, f, args, tys, dty, span):
    d = args[1]
    if d[0] != 'ref':
        return None
    old = I.V(st, d)
    if not I.oblige(st, eq(slen(old), 32), 'to_big_endian length', fr, span):
        return []
    I.store(st, d[1], d[2], mk_be(I.V(st, args[0]), 32))
    return [(st, UNIT)]


@model('core::ops::arith::Add::add', 'core::ops::arith::Sub::sub', 'core::ops::arith::Mul::mul', 'core::ops::arith::Div::div',
       'core::ops::arith::Rem::rem', 'core::ops::bit::Not::not')
def arith(I, st, fr, f, args, tys, dty, span):
    op = f['name'].split('::')[-1]
    a = I.V(st, args[0])
    b = I.V(st, args[1]) if len(args) > 1 else None
    ty = peel(tys[0])
    if ty == ('adt', 'alloc::string::String', ()) and op == 'add':
        return [(st, concat(a, b))]
    if ty[0] == 'bool' and op == 'not':
        return [(st, fnot(a))]
    if not is_int(a) or (b is not None and not is_int(b)):
        return None
    if ty == ('adt', 'primitive_types::U256', ()):
        lo, hi = 0, (1 << 256) - 1
    elif ty[0] == 'int':
        lo, hi = IN.int_range(ty)
    else:
        return None
    if op == 'not':
        return [(st, sub(hi, a) if lo == 0 else sub(-1, a))]
    if op in ('add', 'sub', 'mul'):
        r = {'add': add, 'sub': sub, 'mul': mul}[op](a, b)
        if not I.oblige(st, fand(le(lo, r), le(r, hi)), 'overflow ' + op, fr, span):
            return []
        return [(st, r)]
    if not I.oblige(st, fnot(eq(b, 0)), 'division by zero', fr, span):
        return []
    if isinstance(b, int) and b > 0:
        return [(st, div(a, b) if op == 'div' else mod(a, b))]
    return None


# ---------------------------------------------------------------- comparisons
@model('core::cmp::PartialEq::eq', 'core::cmp::PartialEq::ne')
def peq(I, st, fr, f, args, tys, dty, span):
    q = I.eqval(st, args[0], args[1], tys[0] if tys[0][0] != 'other' else f.get('self'))
    return [(st, q if f['name'].endswith('::eq') else fnot(q))]


@model('core::cmp::PartialOrd::lt', 'core::cmp::PartialOrd::le', 'core::cmp::PartialOrd::gt', 'core::cmp::PartialOrd::ge')
def pord(I, st, fr, f, args, tys, dty, span):
    a, b = I.V(st, args[0]), I.V(st, args[1])
    if not is_int(a) or not is_int(b):
        return None
    op = f['name'].split('::')[-1]
    return [(st, {'lt': lt(a, b), 'le': le(a, b), 'gt': lt(b, a), 'ge': le(b, a)}[op])]


@model('core::cmp::Ord::cmp')
def ocmp(I, st, fr, f, args, tys, dty, span):
    a, b = I.V(st, args[0]), I.V(st, args[1])
    if not is_int(a) or not is_int(b):
        return None
    O = 'core::cmp::Ordering'
    out = []
    for i, g in ((0, lt(a, b)), (1, eq(a, b)), (2, lt(b, a))):
        s = st.copy()
        if s.add(g):
            out.append((s, ('adt', O, i, ())))
    return out


@model('core::cmp::Ord::min', 'core::cmp::Ord::max', 'core::cmp::min', 'core::cmp::max')
def minmax(I, st, fr, f, args, tys, dty, span):
    a, b = I.V(st, args[0]), I.V(st, args[1])
    if not is_int(a) or not is_int(b):
        return None
    mn = f['name'].endswith('min')
    t, n = split(I, st, le(a, b))
    return [(s, a if mn else b) for s in t] + [(s, b if mn else a) for s in n]


@model('core::cmp::Ordering::is_eq', 'core::cmp::Ordering::is_ne')
def ord_is(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if v[0] != 'adt':
        return None
    b = v[2] == 1
    if f['name'].endswith('is_ne'):
        b = not b
    return [(st, TT if b else FF)]


# ---------------------------------------------------------------- ?, panics, unwrap
@model('core::ops::try_trait::Try::branch')
def branch(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    ty = peel(tys[0])
    if ty[0] != 'adt' or ty[1] not in (RESULT, OPTION):
        ty = peel(f.get('self', ANY))
        if ty[0] != 'adt' or ty[1] not in (RESULT, OPTION):
            return None
    out = []
    for s, vi in I.fork_variant(st, v, ty):
        if ty[1] == RESULT:
            if vi == 0:
                out.append((s, ('adt', CF, 0, (coerce(fld(v, 0, 0), ty[2][0]),))))
            else:
                out.append((s, ('adt', CF, 1, (err(fld(v, 1, 0)),))))
        else:
            if vi == 1:
                out.append((s, ('adt', CF, 0, (coerce(fld(v, 1, 0), ty[2][0]),))))
            else:
                out.append((s, ('adt', CF, 1, (NONE,))))
    return out


@model('core::ops::try_trait::FromResidual::from_residual')
def residual(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if v[0] == 'adt' and v[1] == OPTION:
        return [(st, NONE)]
    if v[0] == 'adt' and v[1] == RESULT:
        return [(st, err(('err', fld(v, 1, 0))))]
    return [(st, err(('err', fld(v, 1, 0))))]


@model('core::panicking::panic', 'core::panicking::panic_fmt', 'std::panicking::begin_panic', 'core::option::unwrap_failed',
       'core::result::unwrap_failed', 'core::panicking::panic_explicit', 'core::panicking::unreachable_default_msg',
       'core::panicking::assert_failed', 'core::option::expect_failed', 'std::process::exit', 'core::panicking::panic_display',
       'core::panicking::panic_nounwind', 'core::panicking::panic_str_2015', 'core::panicking::unreachable_display',
       'core::hint::unreachable_unchecked', 'std::process::abort', 'core::panicking::panic_const')
def panic(I, st, fr, f, args, tys, dty, span):
    I.panic(st, 'panic', fr, span)
    return []


@model('core::option::Option::unwrap', 'core::option::Option::expect', 'core::result::Result::unwrap', 'core::result::Result::expect',
       'core::result::Result::unwrap_err', 'core::result::Result::expect_err')
def unwrap(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    ty = peel(tys[0])
    res = 'Result' in f['name']
    if ty[0] != 'adt':
        ty = ('adt', RESULT if res else OPTION, (dty, ANY))
    want = (1 if 'err' in f['name'].split('::')[-1] else 0) if res else 1
    out = []
    for s, vi in I.fork_variant(st, v, ty):
        if vi == want:
            out.append((s, coerce(fld(v, want, 0), dty)))
        else:
            I.panic(s, f['name'].split('::')[-1], fr, span)
    return out


@model('anyhow::__private::format_err', 'anyhow::Error::msg', 'anyhow::Error::new')
def anyerr(I, st, fr, f, args, tys, dty, span):
    return [(st, ('call', 'anyhow', ()))]


# ---------------------------------------------------------------- closures
@model('core::ops::function::FnOnce::call_once', 'core::ops::function::FnMut::call_mut', 'core::ops::function::Fn::call')
def callf(I, st, fr, f, args, tys, dty, span):
    tup = I.V(st, args[1])
    if tup[0] != 'tup':
        return None
    fv = args[0]
    v = I.V(st, fv)
    if v[0] in ('fn', 'clo'):
        return I.call_closure(st, fr, fv, list(tup[1]), span, dty)
    return None


# ---------------------------------------------------------------- sequences: queries
@model('slice::len', 'alloc::vec::Vec::len', 'alloc::string::String::len', 'str::len', 'array::len')
def seq_len(I, st, fr, f, args, tys, dty, span):
    return [(st, slen(I.V(st, args[0])))]


@model('slice::is_empty', 'alloc::vec::Vec::is_empty', 'alloc::string::String::is_empty', 'str::is_empty')
def seq_empty(I, st, fr, f, args, tys, dty, span):
    return [(st, eq(slen(I.V(st, args[0])), 0))]


def range_of(I, st, idx, n):
    """(start, end) of a Range* value over a sequence of length n"""
    v = I.V(st, idx)
    if isinstance(v, tuple) and v and v[0] == 'adt':
        p = v[1].split('::')[-1]
        if p == 'Range':
            return v[3][0], v[3][1]
        if p == 'RangeFrom':
            return v[3][0], n
        if p == 'RangeTo':
            return 0, v[3][0]
        if p == 'RangeFull':
            return 0, n
        if p == 'RangeToInclusive':
            return 0, add(v[3][0], 1)
        if p == 'RangeInclusive':
            return v[3][0], add(v[3][1], 1)
    return None


def is_str(ty):
    ty = peel(ty)
    return ty[0] == 'str' or ty == ('adt', 'alloc::string::String', ())


def boundary(I, st, S, p):
    """formula: byte p of string S is a char boundary"""
    while True:
        f = boundary1(I, st, S, p)
        if f == TT or not (S[0] == 'seq' and len(S[1]) == 1 and S[1][0][0] == 'sub'):
            return f
        p = add(p, S[1][0][2])
        S = S[1][0][1]


def boundary1(I, st, S, p):
    if p == 0 or p == slen(S):
        return TT
    if st.prove(eq(p, 0)) or st.prove(eq(p, slen(S))):
        return TT
    f = ('b', ('cb', S, p))
    if st.bools.get(f[1]):
        return TT
    # atoms cpos(S,k) [+1 when the character there is ascii]
    for cand, extra in ((p, 0), (sub(p, 1), 1)):
        if isinstance(cand, Lin) and cand.c == 0 and len(cand.t) == 1:
            (a, k), = cand.t.items()
            if k == 1 and isinstance(a, tuple) and a[0] == 'cpos' and a[1] == S:
                if not extra or st.prove(le(as_int(('char', S, a[2])), 127)):
                    return TT
    # just before or after a found literal
    if isinstance(p, Lin):
        for a, k in p.t.items():
            if k == 1 and isinstance(a, tuple) and a[0] in ('find', 'rfind'):
                B, o = a[1], 0
                while B != S and B[0] == 'seq' and len(B[1]) == 1 and B[1][0][0] == 'sub':
                    o = add(o, B[1][0][2])
                    B = B[1][0][1]
                d = sub(sub(p, as_int(a)), o)
                if B == S and (d == 0 or d == len(a[2])):
                    return TT
    # equal (by linear facts) to a known boundary
    for t, b in list(st.bools.items()):
        if b and t[0] == 'cb' and t[1] == S and st.prove(eq(p, t[2])):
            return TT
    if isinstance(p, int):
        for t, b in st.bools.items():
            if b and t[0] in ('pre',) and t[1] == S:
                l = bytes(t[2])
                if p <= len(l) and all(x < 128 for x in l):
                    return TT
            if b and t[0] == 'eqlit' and False:
                pass
        l = st.bools.get(('eqlit', S))
        if l is not None and all(x < 128 for x in l):
            return TT
    q = sub(slen(S), p)
    if isinstance(q, int):
        for t, b in st.bools.items():
            if b and t[0] == 'suf' and t[1] == S and q <= len(t[2]) and all(x < 128 for x in t[2]):
                return TT
    return f


@model('core::ops::index::Index::index', 'core::ops::index::IndexMut::index_mut')
def index(I, st, fr, f, args, tys, dty, span):
    mut = f['name'].endswith('index_mut')
    sty = tys[0]
    ps = peel(sty)
    v = I.V(st, args[0])
    idx = I.V(st, args[1])
    if ps[0] == 'adt' and ps[1].endswith('HashMap'):
        g = mapget(I, st, v, idx, ps)
        out = []
        for s, vi in I.fork_variant(st, g, ('adt', OPTION, (ps[2][1],))):
            if vi == 1:
                out.append((s, coerce(fld(g, 1, 0), dty)))
            else:
                I.panic(s, 'map index', fr, span)
        return out
    n = slen(v)
    if is_int(idx):
        if not I.oblige(st, fand(le(0, idx), lt(idx, n)), 'index out of bounds', fr, span):
            return []
        if mut and args[0][0] == 'ref':
            return [(st, ('ref', args[0][1], args[0][2] + (('i', idx, elem_ty(sty)),)))]
        return [(st, coerce(elem(st, v, idx), elem_ty(sty)))]
    r = range_of(I, st, idx, n)
    if r is None:
        return None
    a, b = r
    if not I.oblige(st, le(a, b), 'slice index order', fr, span):
        return []
    if not I.oblige(st, le(b, n), 'slice index out of range', fr, span):
        return []
    if I.modeP and is_str(sty):
        for x in (a, b):
            if not I.oblige(st, boundary(I, st, v, x), 'char boundary', fr, span):
                return []
    if mut and args[0][0] == 'ref':
        return [(st, ('ref', args[0][1], args[0][2] + (('rng', a, sub(b, a)),)))]
    return [(st, subseq(st, v, a, sub(b, a)))]


@model('slice::get', 'alloc::vec::Vec::get', 'str::get')
def seq_get(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    idx = I.V(st, args[1])
    n = slen(v)
    if is_int(idx):
        t, e = split(I, st, lt(idx, n))
        return [(s, some(coerce(elem(s, v, idx), elem_ty(tys[0])))) for s in t] + [(s, NONE) for s in e]
    r = range_of(I, st, idx, n)
    if r is None:
        return None
    a, b = r
    g = fand(le(a, b), le(b, n))
    if is_str(tys[0]):
        g = fand(g, boundary(I, st, v, a), boundary(I, st, v, b))
    t, e = split(I, st, g)
    return [(s, some(subseq(s, v, a, sub(b, a)))) for s in t] + [(s, NONE) for s in e]


# ---------------------------------------------------------------- sequences: updates
def upd_seq(I, st, a, fn):
    v = I.V(st, a)
    r = fn(v)
    if a[0] == 'ref':
        I.store(st, a[1], a[2], r)
    return r


@model('alloc::vec::Vec::push', 'alloc::string::String::push')
def push(I, st, fr, f, args, tys, dty, span):
    x = args[1]
    if isinstance(x, tuple) and x and x[0] == 'ref':
        x = I.V(st, x)
    if f['name'] == 'alloc::string::String::push' and not (isinstance(x, int) and x < 128):
        seg = ('sub', ('utf8', x), 0, slen(('utf8', x)))
    else:
        seg = ('one', x)
    upd_seq(I, st, args[0], lambda v: mkseq(tuple(segs_of(v)) + (seg,), st))
    return [(st, UNIT)]


@model('alloc::string::String::push_str', 'alloc::vec::Vec::extend_from_slice', 'alloc::vec::Vec::append')
def push_str(I, st, fr, f, args, tys, dty, span):
    x = I.V(st, args[1])
    upd_seq(I, st, args[0], lambda v: concat(v, x))
    if f['name'].endswith('append') and args[1][0] == 'ref':
        I.store(st, args[1][1], args[1][2], EMPTY)
    return [(st, UNIT)]


@model('core::iter::traits::collect::Extend::extend')
def extend(I, st, fr, f, args, tys, dty, span):
    x = I.V(st, args[1])
    ty = peel(tys[0])
    if ty[0] == 'adt' and ty[1] in ('alloc::vec::Vec', 'alloc::string::String') or ty[0] in ('param', 'other'):
        s = as_sequence(I, x, tys[1])
        if s is not None:
            upd_seq(I, st, args[0], lambda v: concat(v, s))
            return [(st, UNIT)]
        if isinstance(x, tuple) and x[0] in ('it', 'adt') and ty[1:2] != ('alloc::string::String',):
            if x[0] == 'adt' and x[1] in ('spec::m::Flat', 'spec::m::Chain'):
                out = []
                for s2, v in collect_any(I, st, x):
                    upd_seq(I, s2, args[0], lambda o: concat(o, v))
                    out.append((s2, UNIT))
                return out
            k = 'spec::m::extend_iter'
            return I.run_fn(I.P.fns[I.P.byname[k]], [args[0], x], st)
    return None


def as_sequence(I, x, ty):
    """x viewed as a complete sequence if it is one (a vector, slice or fresh base iterator)"""
    if not isinstance(x, tuple):
        return None
    if x[0] == 'it' and x[1] == 'seq':
        return subseq(NS, x[2], x[3], sub(x[4], x[3])) if x[3] != 0 or x[4] != slen(x[2]) else x[2]
    p = peel(ty)
    if p[0] in ('param', 'other') and I.tyhint(x) is not None:
        p = peel(I.tyhint(x))
    if is_seq_ty(p) or x[0] == 'seq':
        return x
    if x[0] in ('be', 'keccak', 'hex') :
        return x
    return None


@model('alloc::vec::Vec::pop')
def pop(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    n = slen(v)
    t, e = split(I, st, lt(0, n))
    out = []
    for s in t:
        x = coerce(elem(s, v, sub(n, 1)), elem_ty(tys[0]))
        I.store(s, args[0][1], args[0][2], subseq(s, v, 0, sub(n, 1)))
        out.append((s, some(x)))
    return out + [(s, NONE) for s in e]


@model('alloc::vec::Vec::truncate', 'alloc::string::String::truncate')
def truncate(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    n = args[1]
    t, e = split(I, st, lt(n, slen(v)))
    out = []
    for s in t:
        if I.modeP and 'String' in f['name']:
            if not I.oblige(s, boundary(I, s, v, n), 'char boundary', fr, span):
                continue
        I.store(s, args[0][1], args[0][2], subseq(s, v, 0, n))
        out.append((s, UNIT))
    return out + [(s, UNIT) for s in e]


@model('alloc::vec::Vec::resize')
def resize(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    n, x = args[1], I.V(st, args[2])
    I.capacity(st, n, fr, span)
    t, e = split(I, st, le(n, slen(v)))
    out = []
    for s in t:
        I.store(s, args[0][1], args[0][2], subseq(s, v, 0, n))
        out.append((s, UNIT))
    for s in e:
        I.store(s, args[0][1], args[0][2], mkseq(tuple(segs_of(v)) + (('rep', x, sub(n, slen(v))),), s))
        out.append((s, UNIT))
    return out


@model('alloc::vec::Vec::clear', 'alloc::string::String::clear')
def clear(I, st, fr, f, args, tys, dty, span):
    I.store(st, args[0][1], args[0][2], EMPTY)
    return [(st, UNIT)]


@model('alloc::vec::Vec::reserve', 'alloc::string::String::reserve', 'alloc::vec::Vec::shrink_to_fit', 'alloc::vec::Vec::reserve_exact')
def reserve(I, st, fr, f, args, tys, dty, span):
    if len(args) > 1:
        I.capacity(st, args[1], fr, span)
    return [(st, UNIT)]


@model('alloc::vec::Vec::insert')
def insert(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    i = args[1]
    n = slen(v)
    if not I.oblige(st, le(i, n), 'insert index', fr, span):
        return []
    x = I.V(st, args[2])
    I.store(st, args[0][1], args[0][2],
            mkseq(tuple(segs_of(subseq(st, v, 0, i))) + (('one', x),) + tuple(segs_of(subseq(st, v, i, sub(n, i)))), st))
    return [(st, UNIT)]


@model('alloc::vec::Vec::remove', 'alloc::vec::Vec::swap_remove')
def remove(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    i = args[1]
    n = slen(v)
    if not I.oblige(st, lt(i, n), 'remove index', fr, span):
        return []
    if f['name'].endswith('swap_remove'):
        return None
    x = coerce(elem(st, v, i), elem_ty(tys[0]))
    I.store(st, args[0][1], args[0][2], concat(subseq(st, v, 0, i), subseq(st, v, add(i, 1), sub(sub(n, i), 1))))
    return [(st, x)]


@model('slice::copy_from_slice', 'slice::clone_from_slice')
def copy_from(I, st, fr, f, args, tys, dty, span):
    d = args[0]
    src = I.V(st, args[1])
    old = I.V(st, d)
    if not I.oblige(st, eq(slen(old), slen(src)), 'copy_from_slice length', fr, span):
        return []
    if d[0] == 'ref':
        I.store(st, d[1], d[2], src)
    return [(st, UNIT)]


@model('slice::fill')
def fill(I, st, fr, f, args, tys, dty, span):
    d = args[0]
    I.store(st, d[1], d[2], mkseq((('rep', I.V(st, args[1]), slen(I.V(st, d))),)))
    return [(st, UNIT)]


@model('slice::concat')
def sconcat(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    k = fresh('k')
    RANGE[k] = (0, None)
    b = elem(st, v, as_int(k))
    if v[0] == 'seq' and all(s[0] == 'one' for s in v[1]):
        return [(st, concat(*[I.V(st, s[1]) for s in v[1]]))]
    return [(st, mkseq((('flat', slen(v), mk_lam(b, k)),)))]


@model('slice::join')
def sjoin(I, st, fr, f, args, tys, dty, span):
    v, sep = I.deep(st, args[0]), I.deep(st, args[1])
    return [(st, mk_join(('join', v, sep)))]


def mk_join(n):
    """elements with a separator between them, written out when their number is known"""
    _, v, sep = n
    if v[0] != 'seq' or any(s[0] != 'one' or not isinstance(s[1], tuple) for s in v[1]) or not isinstance(sep, tuple):
        return n
    out = []
    for s in v[1]:
        out += ([sep] if out else []) + [s[1]]
    return concat(*out) if out else EMPTY


T.REBUILD['join'] = mk_join


@model('slice::split_at', 'str::split_at')
def split_at(I, st, fr, f, args, tys, dty, span):
    v, n = I.V(st, args[0]), args[1]
    L = slen(v)
    if not I.oblige(st, le(n, L), 'split_at', fr, span):
        return []
    if f['name'].startswith('str') and I.modeP and not I.oblige(st, boundary(I, st, v, n), 'char boundary', fr, span):
        return []
    return [(st, ('tup', (subseq(st, v, 0, n), subseq(st, v, n, sub(L, n)))))]


@model('slice::split_at_checked', 'str::split_at_checked')
def split_at_checked(I, st, fr, f, args, tys, dty, span):
    v, n = I.V(st, args[0]), args[1]
    L = slen(v)
    g = le(n, L)
    if f['name'].startswith('str'):
        g = fand(g, boundary(I, st, v, n))
    t, e = split(I, st, g)
    return [(s, some(('tup', (subseq(s, v, 0, n), subseq(s, v, n, sub(L, n)))))) for s in t] + [(s, NONE) for s in e]


@model('alloc::vec::Vec::split_off', 'alloc::string::String::split_off')
def split_off(I, st, fr, f, args, tys, dty, span):
    v, n = I.V(st, args[0]), args[1]
    L = slen(v)
    if args[0][0] != 'ref':
        return None
    if not I.oblige(st, le(n, L), 'split_off', fr, span):
        return []
    if 'String' in f['name'] and I.modeP and not I.oblige(st, boundary(I, st, v, n), 'char boundary', fr, span):
        return []
    I.store(st, args[0][1], args[0][2], subseq(st, v, 0, n))
    return [(st, subseq(st, v, n, sub(L, n)))]


@model('slice::starts_with', 'slice::ends_with')
def slice_pre(I, st, fr, f, args, tys, dty, span):
    v, p = I.V(st, args[0]), I.V(st, args[1])
    n, L = slen(p), slen(v)
    off = 0 if 'starts' in f['name'] else sub(L, n)
    out = []
    t, e = split(I, st, le(n, L))
    for s in t:
        out.append((s, eqseq(s, subseq(s, v, off, n), p)))
    return out + [(s, FF) for s in e]


# ---------------------------------------------------------------- iterators
def seq_iter(v, ety):
    return ('it', 'seq', v, 0, slen(v), ety)


@model('slice::iter', 'alloc::vec::Vec::iter', 'str::bytes')
def slice_iter(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    return [(st, seq_iter(v, elem_ty(tys[0])))]


@model('slice::iter_mut')
def slice_iter_mut(I, st, fr, f, args, tys, dty, span):
    a = args[0]
    if a[0] != 'ref':
        return None
    return [(st, ('it', 'mut', a, 0, slen(I.V(st, a)), elem_ty(tys[0])))]


@model('alloc::vec::Vec::drain')
def drain(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    r = range_of(I, st, args[1], slen(v))
    if r is None:
        return None
    a, b = r
    if not I.oblige(st, fand(le(a, b), le(b, slen(v))), 'drain range', fr, span):
        return []
    d = subseq(st, v, a, sub(b, a))
    I.store(st, args[0][1], args[0][2], concat(subseq(st, v, 0, a), subseq(st, v, b, sub(slen(v), b))))
    return [(st, seq_iter(d, elem_ty(tys[0])))]


@model('core::iter::traits::collect::IntoIterator::into_iter')
def into_iter(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if isinstance(v, tuple) and v[0] == 'it':
        return [(st, args[0] if args[0][0] == 'ref' else v)]
    ty = peel(tys[0]) if tys[0][0] not in ('other', 'param') else peel(f.get('self', ANY))
    if ty[0] == 'adt' and ty[1] == OPTION and not (isinstance(v, tuple) and v[0] == 'adt'):
        ity = ty[2][0]
        return [(s2, seq_iter(mkseq((('one', lift(fld(v, 1, 0), ity)),)) if vi else EMPTY, ity))
                for s2, vi in I.fork_variant(st, v, ty)]
    if isinstance(v, tuple) and v[0] == 'adt':
        if v[1] == OPTION:
            s = [(st, vi) for st, vi in I.fork_variant(st, v, ('adt', OPTION, (ANY,)))]
            return [(s2, seq_iter(mkseq((('one', fld(v, 1, 0)),)) if vi else EMPTY, ANY)) for s2, vi in s]
        return [(st, args[0] if args[0][0] == 'ref' else v)]
    if tys and tys[0][0] == 'ref' and tys[0][1] and args[0][0] == 'ref' and is_seq_ty(peel(tys[0])):
        return [(st, ('it', 'mut', args[0], 0, slen(v), elem_ty(tys[0])))]
    if is_seq_ty(ty) or v[0] in ('seq', 'be', 'join', 'utf8', 'hex'):
        return [(st, seq_iter(v, elem_ty(ty)))]
    if ty[0] == 'adt' and (ty[1].endswith('HashMap') or ty[1].endswith('BTreeMap')):
        e = ('mapitems', v)
        kv = ('tuple', (ty[2][0], ty[2][1]))
        return [(st, seq_iter(e, kv))]
    if ty[0] in ('param', 'other'):
        # a sequence whose static type is hidden by generic model code
        t2 = I.tyhint(v)
        if t2 is not None and is_seq_ty(peel(t2)):
            return [(st, seq_iter(v, elem_ty(t2)))]
    return None


def it_len(v):
    return sub(v[4], v[3])


STEP = 'spec::m::Step'


def holder(I, st, a):
    """the reference to the cell that really holds the iterator"""
    r = a
    while r[0] == 'ref':
        inner = I.load(st, r[1], r[2])
        if isinstance(inner, tuple) and inner and inner[0] == 'ref':
            r = inner
        else:
            break
    return r


def base_next(I, st, r, v, back=False, skip=0):
    """advance a base iterator held in r: [(state, item or None)]; None if v is not a base iterator"""
    if v[0] == 'it':
        kind, S, pos, end = v[1], v[2], v[3], v[4]
        out = []
        if back:
            t, e = split(I, st, lt(pos, end))
            at, nv = sub(end, 1), ('it', kind, S, pos, sub(end, 1)) + v[5:]
        else:
            at = add(pos, skip)
            t, e = split(I, st, lt(at, end))
            nv = ('it', kind, S, add(at, 1), end) + v[5:]
        for s in t:
            x = it_elem(I, s, v, at)
            I.store(s, r[1], r[2], nv)
            out.append((s, (x,)))
        for s in e:
            if skip != 0:
                I.store(s, r[1], r[2], ('it', kind, S, end, end) + v[5:])
            out.append((s, None))
        return out
    if v[0] != 'adt' or skip != 0:
        return None
    if v[1] == 'core::ops::range::Range':
        lo, hi = v[3]
        t, e = split(I, st, lt(lo, hi))
        out = []
        for s in t:
            if back:
                I.store(s, r[1], r[2], ('adt', v[1], 0, (lo, sub(hi, 1))))
                out.append((s, (sub(hi, 1),)))
            else:
                I.store(s, r[1], r[2], ('adt', v[1], 0, (add(lo, 1), hi)))
                out.append((s, (lo,)))
        return out + [(s, None) for s in e]
    if v[1] == 'core::ops::range::RangeFrom' and not back:
        lo, = v[3]
        I.store(st, r[1], r[2], ('adt', v[1], 0, (add(lo, 1),)))
        return [(st, (lo,))]
    if v[1].endswith('::RangeInclusive') and not back:
        lo, hi = v[3][0], v[3][1]
        ex = v[3][2] if len(v[3]) > 2 else FF
        t, e = split(I, st, le(lo, hi))
        out = []
        for s in t:
            I.store(s, r[1], r[2], ('adt', v[1], 0, (add(lo, 1), hi, ex)))
            out.append((s, (lo,)))
        return out + [(s, None) for s in e]
    return None


@model('core::iter::traits::iterator::Iterator::next', 'core::iter::traits::double_ended::DoubleEndedIterator::next_back',
       'core::iter::traits::iterator::Iterator::nth', 'spec::m::It::step', 'spec::m::ItBack::step_back')
def it_next(I, st, fr, f, args, tys, dty, span):
    a = args[0]
    v = I.V(st, a)
    if not isinstance(v, tuple) or not v:
        return None
    m = f['name'].split('::')[-1]
    skip = args[1] if m == 'nth' else 0
    back = m in ('next_back', 'step_back')
    step = m.startswith('step')
    r = holder(I, st, a)
    if r[0] != 'ref':
        return None
    o = base_next(I, st, r, v, back, skip)
    if o is not None:
        if step:
            return [(s, ('adt', STEP, 2, x) if x is not None else ('adt', STEP, 0, ())) for s, x in o]
        return [(s, some(x[0]) if x is not None else NONE) for s, x in o]
    if v[0] == 'adt' and not step and m != 'nth':
        if ('spec::m::ItBack' if back else 'spec::m::It', v[1], 'step_back' if back else 'step') in I.P.impls:
            return I.run_fn(I.P.fns[I.P.byname['spec::m::it_next_back' if back else 'spec::m::it_next']], [a], st)
        return None
    if v[0] == 'adt' and step:
        if ('spec::m::ItBack' if back else 'spec::m::It', v[1], m) in I.P.impls:
            return None
        k = I.P.impls.get(('core::iter::traits::iterator::Iterator', v[1], 'next'))
        if k is not None and not back and k not in I.cut and k not in I.stack and k not in I.rename.values():
            out = []
            for s, x in I.run_fn(I.P.fns[k], [a], st):
                for s2, vi in I.fork_variant(s, x, ('adt', OPTION, (ANY,))):
                    out.append((s2, ('adt', STEP, 2, (fld(x, 1, 0),)) if vi == 1 else ('adt', STEP, 0, ())))
            return out
    return None


def char_facts(st, S, k):
    """linear facts about the k-th character (k < nchars)"""
    p, q = as_int(('cpos', S, k)), as_int(('cpos', S, add(k, 1)))
    for x in (('cpos', S, k), ('cpos', S, add(k, 1))):
        set_range(x, 0, ISIZE_MAX)
    set_range(('char', S, k), 0, 0x10FFFF)
    st.add(le(add(p, 1), slen(S)), False)
    st.add(le(add(p, 1), q), False)
    st.add(le(q, slen(S)), False)
    st.add(le(k, p), False)
    if k == 0:
        st.add(eq(p, 0), False)


def it_elem(I, st, v, at):
    kind, S = v[1], v[2]
    if kind == 'seq':
        return coerce(elem(st, S, at), v[5])
    if kind == 'mut':
        return ('ref', S[1], S[2] + (('i', at, v[5]),))
    if kind in ('chr', 'chridx'):
        char_facts(st, S, at)
        last = at == sub(as_int(('nchars', S)), 1)
        if last:
            set_range(('lastch', S), 0, 0x10FFFF)
        c = as_int(('lastch', S) if last else ('char', S, at))
        if kind == 'chr':
            return c
        return ('tup', (as_int(('cpos', S, at)), c))
    if kind == 'chunks':
        n = v[6]
        off = mul(at, n)
        return subseq(st, S, off, n)
    raise IN.Unsupported('iterator ' + kind)


@model('str::chars', 'str::char_indices')
def chars(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    n = ('nchars', S)
    set_range(n, 0, ISIZE_MAX)
    st.add(le(as_int(n), slen(S)), False)
    # nchars = 0 iff empty
    return [(st, ('it', 'chr' if f['name'].endswith('chars') else 'chridx', S, 0, as_int(n), ANY))]


@model('slice::chunks_exact')
def chunks(I, st, fr, f, args, tys, dty, span):
    S, n = I.V(st, args[0]), args[1]
    if not isinstance(n, int) or n == 0:
        return None
    return [(st, ('it', 'chunks', S, 0, div(slen(S), n), ANY, n))]


def whole(v):
    return v[0] == 'it' and v[3] == 0


@model('core::iter::traits::iterator::Iterator::last')
def it_last(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if v[0] == 'it' and v[1] == 'chr' and whole(v):
        S = v[2]
        t, e = split(I, st, lt(0, slen(S)))
        out = []
        for s in t:
            c = ('lastch', S)
            set_range(c, 0, 0x10FFFF)
            out.append((s, some(as_int(c))))
        return out + [(s, NONE) for s in e]
    if v[0] == 'it':
        t, e = split(I, st, lt(v[3], v[4]))
        return [(s, some(it_elem(I, s, v, sub(v[4], 1)))) for s in t] + [(s, NONE) for s in e]
    return None


@model('core::iter::traits::iterator::Iterator::count', 'core::iter::traits::exact_size::ExactSizeIterator::len')
def it_count(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if v[0] == 'it':
        t, e = split(I, st, le(v[3], v[4]))
        return [(s, it_len(v)) for s in t] + [(s, 0) for s in e]
    if v[0] == 'adt' and v[1] in ('spec::m::Map', 'spec::m::Enumerate'):
        return None
    return None


@model('core::iter::traits::iterator::Iterator::skip')
def it_skip(I, st, fr, f, args, tys, dty, span):
    v, n = I.V(st, args[0]), args[1]
    if v[0] != 'it':
        return None
    t, e = split(I, st, le(n, it_len(v)))
    return [(s, v[:3] + (add(v[3], n),) + v[4:]) for s in t] + [(s, v[:3] + (v[4],) + v[4:]) for s in e]


@model('core::iter::traits::iterator::Iterator::take')
def it_take(I, st, fr, f, args, tys, dty, span):
    v, n = I.V(st, args[0]), args[1]
    if v[0] != 'it':
        return None
    t, e = split(I, st, le(n, it_len(v)))
    return [(s, v[:4] + (add(v[3], n),) + v[5:]) for s in t] + [(s, v) for s in e]


@model('core::iter::traits::iterator::Iterator::chain')
def it_chain(I, st, fr, f, args, tys, dty, span):
    a, b = I.V(st, args[0]), I.V(st, args[1])
    x = as_sequence(I, a, ANY) if a[0] == 'it' and a[1] == 'seq' else None
    y = as_sequence(I, b, tys[1]) if x is not None else None
    if y is None:
        return None
    return [(st, seq_iter(concat(x, y), a[5] if a[5] != ANY else (b[5] if b[0] == 'it' else elem_ty(tys[1]))))]


@model('core::iter::traits::iterator::Iterator::flatten')
def it_flatten(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if v[0] == 'it' and v[1] == 'seq':
        s = as_sequence(I, v, ANY)
        if s[0] == 'seq' and all(x[0] == 'one' for x in s[1]):
            ety = v[5]
            vs = [as_sequence(I, I.V(st, x[1]), ety) for x in s[1]]
            if all(y is not None for y in vs):
                return [(st, seq_iter(concat(*vs), elem_ty(ety)))]
        ety = peel(v[5])
        if is_seq_ty(ety):
            k = fresh('k')
            RANGE[k] = (0, None)
            return [(st, seq_iter(mkseq((('flat', slen(s), mk_lam(elem(st, s, as_int(k)), k)),)), elem_ty(ety)))]
    return None


@model('itertools::Itertools::tuples')
def it_tuples(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    t = [a for a in f.get('args', []) if isinstance(a, tuple) and a[0] == 'tuple']
    s = as_sequence(I, v, ANY) if v[0] == 'it' and v[1] == 'seq' else None
    if s is None or len(t) != 1 or not t[0][1]:
        return None
    n = len(t[0][1])
    k = fresh('k')
    RANGE[k] = (0, None)
    x = ('tup', tuple(elem(st, s, add(scale(as_int(k), n), i)) for i in range(n)))
    return [(st, seq_iter(mkseq((('comp', div(slen(s), n), mk_lam(x, k)),)), t[0]))]


def collect_chain(I, st, v):
    """elements of a Chain whose halves are arbitrary adapters"""
    out = []
    todo = [v[3][0], v[3][1]] if v[3][2] == TT else [v[3][1]]
    sts = [(st, EMPTY)]
    for x in todo:
        nxt = []
        for s, acc in sts:
            for s2, y in collect_any(I, s, x):
                nxt.append((s2, concat(acc, y)))
        sts = nxt
    return sts


def collect_any(I, st, v):
    q = as_sequence(I, v, ANY) if v[0] == 'it' and v[1] == 'seq' else None
    if q is not None:
        return [(st, q)]
    if v[0] == 'adt' and v[1] == 'spec::m::Chain' and v[3][2] in (TT, FF):
        return collect_chain(I, st, v)
    k = 'collect_flat' if v[0] == 'adt' and v[1] == 'spec::m::Flat' else 'collect_vec'
    return I.run_fn(I.P.fns[I.P.byname['spec::m::' + k]], [v], st)


@model('core::iter::traits::iterator::Iterator::collect')
def collect(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    d = peel(dty)
    if d[0] in ('other', 'param') and len(f.get('args', [])) > 1:
        d = peel(f['args'][1])
    run = lambda k: I.run_fn(I.P.fns[I.P.byname['spec::m::' + k]], [v], st)
    if d[0] != 'adt':
        return None
    flat = v[0] == 'adt' and v[1] == 'spec::m::Flat'
    if d[1] in BOXVEC:
        return collect_any(I, st, v)
    if d[1] == RESULT:
        inner = peel(d[2][0])
        if inner[0] == 'adt' and inner[1] in BOXVEC and not flat:
            return run('collect_result_vec')
        if inner == ('tuple', ()):
            return run('collect_result_unit')
    if d[1] == OPTION and peel(d[2][0])[0] == 'adt' and peel(d[2][0])[1] in BOXVEC:
        return run('collect_option_vec')
    if d[1] == 'alloc::string::String' and not flat:
        if v[0] == 'it' and v[1] == 'chr' and whole(v):
            return [(st, v[2])]
        return run('collect_str')
    if d[1].endswith('HashMap'):
        return run('collect_map')
    return None


BOXVEC = ('alloc::vec::Vec',)


@model('core::iter::traits::iterator::Iterator::sum')
def it_sum(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    d = peel(dty)
    k = 'spec::m::sum_u32' if d == ('int', 32, False) else 'spec::m::sum_usize' if d == USZ else None
    if k is None:
        return None
    return I.run_fn(I.P.fns[I.P.byname[k]], [v], st)


@model('core::iter::sources::once::once')
def once(I, st, fr, f, args, tys, dty, span):
    return [(st, seq_iter(mkseq((('one', args[0]),)), tys[0]))]


@model('core::iter::sources::empty::empty')
def it_empty(I, st, fr, f, args, tys, dty, span):
    return [(st, seq_iter(EMPTY, ANY))]


@model('core::iter::sources::repeat_n::repeat_n')
def repeat_n(I, st, fr, f, args, tys, dty, span):
    return [(st, seq_iter(mkseq((('rep', args[0], args[1]),)), tys[0]))]


@model('slice::contains')
def contains(I, st, fr, f, args, tys, dty, span):
    v, x = I.V(st, args[0]), I.V(st, args[1])
    if v[0] == 'seq' and all(s[0] in ('one', 'lit') for s in v[1]):
        fs = []
        for s in v[1]:
            for y in ((s[1],) if s[0] == 'one' else s[1]):
                fs.append(I.eqval(st, y, x, elem_ty(tys[0])))
        return [(st, for_(*fs))]
    return I.run_fn(I.P.fns[I.P.byname['spec::m::slice_contains_eq']], [v, x], st)


# ---------------------------------------------------------------- strings
def pat_bytes(I, st, p, ty):
    """bytes of an ascii char / literal pattern"""
    if peel(ty)[0] in ('array', 'slice'):      # any of several chars
        return None
    p = I.V(st, p)
    if isinstance(p, int):
        return chr(p).encode('utf8')
    if isinstance(p, tuple):
        return lit_of(p)
    return None


@model('str::starts_with', 'str::ends_with')
def starts(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    b = pat_bytes(I, st, args[1], tys[1])
    kind = 'pre' if 'starts' in f['name'] else 'suf'
    if b is None:
        p = I.V(st, args[1])
        if peel(tys[1])[0] in ('array', 'slice'):
            l = lit_of(p) if isinstance(p, tuple) else None
            if l is None:
                return None
            return [(st, for_(*[strtest(kind, S, chr(c).encode('utf8')) for c in l]))] if l else [(st, FF)]
        if isinstance(p, tuple) and p[0] in ('seq', 'call', 'sym', 'fld', 'elem', 'arg', 'strop'):
            return [(st, ('b', (kind + 'v', S, p)))]
        return None
    if b == b'':
        return [(st, TT)]
    return [(st, strtest(kind, S, b))]


def strtest(kind, S, b):
    l = lit_of(S)
    if l is not None:
        return TT if (l.startswith(b) if kind == 'pre' else l.endswith(b)) else FF
    hi = rng(slen(S))[1]
    if hi is not None and hi < len(b):
        return FF
    if S[0] == 'seq' and len(S[1]) == 1 and S[1][0][0] == 'sub':
        _, base, off, n = S[1][0]
        # a test at an end shared with the underlying string is a test of that string
        if (kind == 'pre' and off == 0) or (kind == 'suf' and add(off, n) == slen(base)):
            return fand(le(len(b), n), strtest(kind, base, b))
    return ('b', (kind, S, tuple(b)))


@model('str::strip_prefix', 'str::strip_suffix')
def strip(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    b = pat_bytes(I, st, args[1], tys[1])
    if b is None:
        return None
    kind = 'pre' if 'prefix' in f['name'] else 'suf'
    t, e = split(I, st, strtest(kind, S, b))
    out = []
    for s in t:
        n = slen(S)
        out.append((s, some(subseq(s, S, len(b), sub(n, len(b))) if kind == 'pre' else subseq(s, S, 0, sub(n, len(b))))))
    return out + [(s, NONE) for s in e]


@model('str::contains')
def str_contains(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    b = pat_bytes(I, st, args[1], tys[1])
    if b is None:
        return None
    return [(st, ('b', ('contains', S, tuple(b))))]


@model('str::find', 'str::rfind')
def find(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    b = pat_bytes(I, st, args[1], tys[1])
    if not b:
        return None
    t, e = split(I, st, ('b', ('contains', S, tuple(b))))
    out = []
    for s in t:
        at = ('rfind' if 'rfind' in f['name'] else 'find', S, tuple(b))
        set_range(at, 0, ISIZE_MAX)
        p = as_int(at)
        s.add(le(add(p, len(b)), slen(S)), False)
        s.bools[('cb', S, p)] = True
        s.bools[('cb', S, add(p, len(b)))] = True
        out.append((s, some(p)))
    return out + [(s, NONE) for s in e]


@model('str::split_once', 'str::rsplit_once')
def split_once(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    b = pat_bytes(I, st, args[1], tys[1])
    if not b:
        return None
    g = dict(f)
    g['name'] = 'str::rfind' if 'rsplit' in f['name'] else 'str::find'
    out = []
    for s, r in find(I, st, fr, g, args, tys, dty, span):
        if r == NONE:
            out.append((s, NONE))
        else:
            p = r[3][0]
            q = add(p, len(b))
            out.append((s, some(('tup', (subseq(s, S, 0, p), subseq(s, S, q, sub(slen(S), q)))))))
    return out


@model('str::trim_start_matches', 'str::trim_end_matches', 'str::trim_matches', 'str::trim', 'str::trim_start', 'str::trim_end',
       'str::to_lowercase', 'str::to_uppercase', 'str::replace', 'str::to_ascii_lowercase', 'str::repeat',
       'alloc::string::String::from_utf8_lossy', 'hex::encode')
def strop(I, st, fr, f, args, tys, dty, span):
    if f['name'].startswith('str::') and len(tys) > 1 and peel(tys[1])[0] in ('array', 'slice'):
        return None     # any of several chars
    return [(st, ('strop', f['name'].split('::')[-1], tuple(I.deep(st, a) for a in args)))]


@model('hex::decode')
def hexdecode(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    t, e = split(I, st, ('b', ('ishex', S)))
    out = []
    for s in t:
        v = ('unhex', S)
        s.add(eq(scale(slen(v), 2), slen(S)), False)
        out.append((s, ok(v)))
    return out + [(s, err(('call', 'hexerr', (S,)))) for s in e]


@model('str::parse', 'core::str::traits::FromStr::from_str')
def parse(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    d = peel(dty)
    t = d[2][0] if d[0] == 'adt' and d[1] == RESULT else f.get('self', ANY)
    t = peel(t)
    if t[0] == 'adt':
        k = I.P.impls.get(('core::str::traits::FromStr', t[1], 'from_str'))
        if k:
            return I.run_fn(I.P.fns[k], [S], st)
    if t[0] == 'int':
        g, e = split(I, st, ('b', ('parses', repr(t), S)))
        v = lift(('parsed', repr(t), S), t)
        return [(s, ok(v)) for s in g] + [(s, err(('call', 'parseerr', (S,)))) for s in e]
    I.calls_seen.add('parse ' + repr(t))
    return [(st, coerce(('call', 'parse ' + repr(t), (S,)), dty))]


@model('primitive_types::U256::from_dec_str')
def from_dec(I, st, fr, f, args, tys, dty, span):
    S = I.V(st, args[0])
    g, e = split(I, st, ('b', ('parses', 'u256', S)))
    v = lift(('parsed', 'u256', S), ('adt', 'primitive_types::U256', ()))
    return [(s, ok(v)) for s in g] + [(s, err(('call', 'parseerr', (S,)))) for s in e]


# ---------------------------------------------------------------- integers
@model(*['%s::%s' % (t, m) for t in ('usize', 'u64', 'u32', 'u16', 'u8', 'isize', 'i64', 'i32', 'u128', 'i128')
         for m in ('checked_add', 'checked_sub', 'checked_mul', 'saturating_sub', 'saturating_add', 'wrapping_add',
                   'wrapping_sub', 'min_value', 'max_value', 'checked_div', 'checked_rem', 'saturating_mul', 'abs_diff', 'div_ceil',
                   'is_multiple_of', 'next_multiple_of', 'overflowing_add', 'overflowing_sub', 'to_be_bytes', 'to_le_bytes',
                   'from_be_bytes', 'wrapping_mul', 'pow')] +
       ['primitive_types::U256::' + m for m in ('checked_add', 'checked_sub', 'checked_mul', 'saturating_add', 'saturating_sub', 'saturating_mul',
                                                'overflowing_add', 'overflowing_sub', 'overflowing_mul', 'abs_diff')])
def intop(I, st, fr, f, args, tys, dty, span):
    t, m = f['name'].split('::')[-2:]
    bits = {'usize': 64, 'isize': 64}.get(t) or int(t[1:])
    ty = ('int', bits, t[0] == 'i')
    lo, hi = IN.int_range(ty)
    vs = [I.V(st, a) for a in args]
    if m in ('min_value', 'max_value'):
        return [(st, lo if m == 'min_value' else hi)]
    if m == 'to_be_bytes':
        return [(st, mk_be(vs[0], bits // 8))]
    if m == 'to_le_bytes':
        return None
    if m == 'from_be_bytes':
        return [(st, mk_beint(vs[0]))]
    if not all(is_int(v) for v in vs):
        return None
    a = vs[0]
    b = vs[1] if len(vs) > 1 else None
    if m == 'div_ceil' and isinstance(b, int) and b > 0:
        return [(st, div(add(a, b - 1), b))]
    if m == 'is_multiple_of' and isinstance(b, int) and b > 0:
        return [(st, eq(mod(a, b), 0))]
    if m == 'next_multiple_of' and isinstance(b, int) and b > 0:
        r = scale(div(add(a, b - 1), b), b)
        if not I.oblige(st, le(r, hi), 'overflow', fr, span):
            return []
        return [(st, r)]
    if m in ('checked_div', 'checked_rem') and isinstance(b, int) and b > 0 and lo == 0:
        return [(st, some(div(a, b) if m == 'checked_div' else mod(a, b)))]
    op = {'add': add, 'sub': sub, 'mul': mul}.get(m.split('_')[-1])
    if op is None:
        return None
    r = op(a, b)
    inr = fand(le(lo, r), le(r, hi))
    g, e = split(I, st, inr)
    if m.startswith('checked'):
        return [(s, some(r)) for s in g] + [(s, NONE) for s in e]
    if m.startswith('saturating'):
        if lo != 0:
            return None
        cap = 0 if m.endswith('sub') else hi
        return [(s, r) for s in g] + [(s, cap) for s in e]
    if m.startswith('wrapping'):
        w = ('wrap', bits, ty[2], r)
        set_range(w, lo, hi)
        return [(s, r) for s in g] + [(s, as_int(w)) for s in e]
    if m.startswith('overflowing'):
        w = ('wrap', bits, ty[2], r)
        set_range(w, lo, hi)
        return [(s, ('tup', (r, FF))) for s in g] + [(s, ('tup', (as_int(w), TT))) for s in e]
    return None


@model(*['primitive_types::U256::' + m for m in ('low_u32', 'low_u64', 'low_u128', 'as_u32', 'as_u64', 'as_u128', 'as_usize', 'overflowing_neg')])
def u256_cast(I, st, fr, f, args, tys, dty, span):
    m = f['name'].split('::')[-1]
    a = I.V(st, args[0])
    if not is_int(a):
        return None
    if m == 'overflowing_neg':
        z, n = split(I, st, eq(a, 0))
        return [(s, ('tup', (0, FF))) for s in z] + [(s, ('tup', (sub(1 << 256, a), TT))) for s in n]
    bits = 64 if m == 'as_usize' else int(m.split('_u')[1])
    if m.startswith('as_'):
        if not I.oblige(st, le(a, (1 << bits) - 1), 'integer overflow in a cast', fr, span):
            return []
        return [(st, a)]
    return [(st, IN.mk_wrap(bits, False, a))]


@model('str::split', 'str::rsplit', 'str::splitn', 'str::rsplitn', 'str::split_terminator', 'str::split_whitespace', 'str::lines')
def str_split(I, st, fr, f, args, tys, dty, span):
    """the parts of a constant text"""
    m = f['name'].split('::')[-1]
    l = lit_of(I.V(st, args[0]))
    if l is None or any(c > 127 for c in l):
        return None
    l = bytes(l)
    if m in ('split_whitespace', 'lines'):
        ps = l.split() if m == 'split_whitespace' else l.decode().splitlines()
        ps = [x if isinstance(x, bytes) else x.encode() for x in ps]
        if m == 'lines' and any(c in l for c in b'\r\x0b\x0c\x1c\x1d\x1e'):
            return None
    else:
        b = pat_bytes(I, st, args[-1], tys[-1])
        if not b:
            return None
        if m in ('splitn', 'rsplitn'):
            n = args[1]
            if not isinstance(n, int) or n < 1:
                return None
            ps = l.split(b, n - 1) if m == 'splitn' else l.rsplit(b, n - 1)[::-1]
        else:
            ps = l.split(b)
        if m == 'rsplit':
            ps = ps[::-1]
        if m == 'split_terminator' and ps and not ps[-1]:
            ps = ps[:-1]
    v = mkseq(tuple(('one', mkseq((('lit', tuple(x)),)) if x else mkseq(())) for x in ps), st)
    return [(st, seq_iter(v, ('str',)))]


@model('str::is_char_boundary')
def is_char_boundary(I, st, fr, f, args, tys, dty, span):
    v, n = I.V(st, args[0]), I.V(st, args[1])
    return [(st, fand(le(n, slen(v)), boundary(I, st, v, n)))]


@model('char::is_ascii', 'u8::is_ascii')
def is_ascii(I, st, fr, f, args, tys, dty, span):
    return [(st, le(I.V(st, args[0]), 127))]


@model('char::len_utf8')
def len_utf8(I, st, fr, f, args, tys, dty, span):
    c = I.V(st, args[0])
    out = []
    rest = st
    for i, m in enumerate((0x7f, 0x7ff, 0xffff)):
        t, e = split(I, rest, le(c, m))
        out += [(s, i + 1) for s in t]
        if not e:
            return out
        rest = e[0]
    return out + [(rest, 4)]


@model('char::is_ascii_digit', 'u8::is_ascii_digit')
def is_digit(I, st, fr, f, args, tys, dty, span):
    c = I.V(st, args[0])
    return [(st, fand(le(48, c), le(c, 57)))]


# ---------------------------------------------------------------- hashing
@model('digest::digest::Digest::digest')
def digest(I, st, fr, f, args, tys, dty, span):
    return [(st, ('keccak', I.V(st, args[0])))]


@model('digest::digest::Digest::new')
def dnew(I, st, fr, f, args, tys, dty, span):
    return [(st, ('hasher', EMPTY))]


@model('digest::digest::Digest::update')
def dupd(I, st, fr, f, args, tys, dty, span):
    h = I.V(st, args[0])
    if h[0] != 'hasher' or args[0][0] != 'ref':
        return None
    I.store(st, args[0][1], args[0][2], ('hasher', concat(h[1], I.V(st, args[1]))))
    return [(st, UNIT)]


@model('digest::digest::Digest::finalize')
def dfin(I, st, fr, f, args, tys, dty, span):
    h = I.V(st, args[0])
    if h[0] != 'hasher':
        return None
    return [(st, ('keccak', h[1]))]


# ---------------------------------------------------------------- formatting
@model('core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_lower_hex')
def arg_new(I, st, fr, f, args, tys, dty, span):
    k = f['name'].split('new_')[1]
    v = I.V(st, args[0])
    ty = peel(tys[0])
    if ty[0] in ('param', 'other') and f.get('args'):
        ty = peel(f['args'][0])
    return [(st, ('fmtarg', k, v, ty))]


def mk_dec(n):
    return lit(str(n[1])) if isinstance(n[1], int) else n


T.REBUILD['dec'] = mk_dec


def display(I, st, kind, v, ty):
    """[(state, sequence)]"""
    ty = peel(ty)
    if kind == 'display':
        if is_str(ty) or (ty[0] == 'adt' and ty[1] == 'alloc::borrow::Cow'):
            return [(st, v)]
        if ty[0] == 'char':
            if isinstance(v, int) and v < 128:
                return [(st, mkseq((('lit', (v,)),)))]
            return [(st, ('utf8', v))]
        if ty[0] == 'int':
            if isinstance(v, int):
                return [(st, lit(str(v)))]
            return [(st, ('dec', v))]
        if ty[0] == 'bool':
            t, e = split(I, st, v if is_formula(v) else ('b', v))
            return [(s, lit('true')) for s in t] + [(s, lit('false')) for s in e]
        if ty[0] == 'adt':
            k = I.P.impls.get(('core::fmt::Display', ty[1], 'fmt'))
            if k and k not in I.opaque and k not in I.cut and k not in I.stack and k not in I.rename.values():
                c = I.alloc(st, EMPTY, True)
                return [(s, s.mem.pop(c)) for s, r in I.run_fn(I.P.fns[k], [v, ('ref', c, ())], st)]
            if k:
                return [(st, ('call', k, (v,)))]
    return [(st, ('fmt', kind, I.deep(st, v)))]


def render(I, st, tmpl, args):
    """[(state, sequence)] for a template byte string"""
    states = [(st, EMPTY)]
    i = ai = 0
    while i < len(tmpl):
        n = tmpl[i]
        if n == 0:
            break
        if n < 0x80:
            piece = mkseq((('lit', tuple(tmpl[i + 1:i + 1 + n])),))
            states = [(s, concat(v, piece)) for s, v in states]
            i += 1 + n
        elif n == 0xc0:
            new = []
            for s, v in states:
                a = args[ai]
                for s2, x in display(I, s, a[1], a[2], a[3]):
                    new.append((s2, concat(v, x)))
            states = new
            ai += 1
            i += 1
        elif n == 0x80:
            ln = tmpl[i + 1] | (tmpl[i + 2] << 8)
            piece = mkseq((('lit', tuple(tmpl[i + 3:i + 3 + ln])),))
            states = [(s, concat(v, piece)) for s, v in states]
            i += 3 + ln
        else:
            return None
    return states


@model('core::fmt::Arguments::new')
def args_new(I, st, fr, f, args, tys, dty, span):
    t = lit_of(I.V(st, args[0]))
    a = I.V(st, args[1])
    if t is None or a[0] != 'seq':
        return None
    fa = []
    for s in a[1]:
        if s[0] != 'one' or s[1][0] != 'fmtarg':
            return None
        fa.append(s[1])
    r = render(I, st, t, fa)
    if r is None:
        return [(st, ('fmtargs', ('strop', 'format', (lit(t),) + tuple(I.deep(st, x[2]) for x in fa))))]
    return [(s, ('fmtargs', v)) for s, v in r]


@model('core::fmt::Arguments::from_str', 'core::fmt::Arguments::new_const')
def args_str(I, st, fr, f, args, tys, dty, span):
    return [(st, ('fmtargs', I.V(st, args[0])))]


@model('alloc::fmt::format')
def fformat(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    return [(st, v[1])] if v[0] == 'fmtargs' else None


@model('core::fmt::Formatter::write_fmt', 'core::fmt::Write::write_fmt')
def write_fmt(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[1])
    if v[0] != 'fmtargs':
        return None
    upd_seq(I, st, args[0], lambda o: concat(o, v[1]))
    return [(st, ok(UNIT))]


@model('core::fmt::Formatter::write_str', 'core::fmt::Write::write_str', 'core::fmt::Formatter::pad')
def write_str(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[1])
    upd_seq(I, st, args[0], lambda o: concat(o, v))
    return [(st, ok(UNIT))]


@model('core::fmt::Write::write_char')
def write_char(I, st, fr, f, args, tys, dty, span):
    x = args[1]
    seg = ('one', x) if isinstance(x, int) and x < 128 else ('sub', ('utf8', x), 0, slen(('utf8', x)))
    upd_seq(I, st, args[0], lambda o: mkseq(tuple(segs_of(o)) + (seg,)))
    return [(st, ok(UNIT))]


@model('core::fmt::Display::fmt')
def display_fmt(I, st, fr, f, args, tys, dty, span):
    ty = peel(tys[0]) if tys[0][0] not in ('other', 'param') else peel(f.get('self', ANY))
    if ty[0] == 'adt' and I.P.impls.get(('core::fmt::Display', ty[1], 'fmt')):
        return None
    out = []
    for s, x in display(I, st, 'display', I.V(st, args[0]), ty):
        upd_seq(I, s, args[1], lambda o: concat(o, x))
        out.append((s, ok(UNIT)))
    return out


@model('alloc::string::ToString::to_string')
def to_string(I, st, fr, f, args, tys, dty, span):
    ty = peel(tys[0]) if tys[0][0] not in ('other', 'param') else peel(f.get('self', ANY))
    return display(I, st, 'display', I.V(st, args[0]), ty)


# ---------------------------------------------------------------- maps
def mapget(I, st, m, k, ty):
    """Option value"""
    while m[0] == 'mapset':
        e = I.eqval(st, m[2], k, ('str',))
        if e == TT or st.prove(e):
            return some(m[3])
        if e == FF or st.refuted(e):
            m = m[1]
            continue
        break
    if m[0] == 'mapempty':
        return NONE
    r = ('mapget', m, k)
    VARN[r] = 2
    return r


@model('std::collections::hash::map::HashMap::new', 'std::collections::hash::map::HashMap::with_capacity',
       'alloc::collections::btree::map::BTreeMap::new')
def map_new(I, st, fr, f, args, tys, dty, span):
    return [(st, ('mapempty',))]


@model('std::collections::hash::map::HashMap::get', 'alloc::collections::btree::map::BTreeMap::get')
def map_get(I, st, fr, f, args, tys, dty, span):
    return [(st, mapget(I, st, I.V(st, args[0]), I.V(st, args[1]), peel(tys[0])))]


@model('std::collections::hash::map::HashMap::contains_key')
def map_has(I, st, fr, f, args, tys, dty, span):
    g = mapget(I, st, I.V(st, args[0]), I.V(st, args[1]), peel(tys[0]))
    if g[0] == 'adt':
        return [(st, TT if g[2] == 1 else FF)]
    return [(st, ('b', ('is', g, 1)))]


@model('std::collections::hash::map::HashMap::insert', 'alloc::collections::btree::map::BTreeMap::insert')
def map_insert(I, st, fr, f, args, tys, dty, span):
    m = I.V(st, args[0])
    k, v = I.V(st, args[1]), I.V(st, args[2])
    old = mapget(I, st, m, k, peel(tys[0]))
    if args[0][0] != 'ref':
        return None
    I.store(st, args[0][1], args[0][2], ('mapset', m, k, v))
    return [(st, old)]


@model('std::collections::hash::map::HashMap::entry', 'alloc::collections::btree::map::BTreeMap::entry')
def map_entry(I, st, fr, f, args, tys, dty, span):
    if args[0][0] != 'ref':
        return None
    ty = peel(tys[0])
    return [(st, ('entry', args[0], I.V(st, args[1]), ty[2][1] if ty[0] == 'adt' and len(ty[2]) > 1 else ANY))]


@model('std::collections::hash::map::Entry::or_default', 'std::collections::hash::map::Entry::or_insert_with',
       'std::collections::hash::map::Entry::or_insert', 'std::collections::hash::map::Entry::or_insert_with_key')
def or_default(I, st, fr, f, args, tys, dty, span):
    e = I.V(st, args[0])
    if e[0] != 'entry':
        return None
    m = f['name'].split('::')[-1]
    outs = [(st, None)]
    if m == 'or_default':
        outs = [(st, default_of(I, peel(e[3])))]
    elif m == 'or_insert':
        outs = [(st, I.V(st, args[1]))]
    elif m == 'or_insert_with':
        outs = I.call_closure(st, fr, args[1], [], span)
    out = []
    for s, d in outs:
        if d is None:
            return None
        r = e[1]
        out.append((s, ('ref', r[1], r[2] + (('k', e[2], d),))))
    return out


@model('std::collections::hash::map::HashMap::values', 'std::collections::hash::map::HashMap::keys',
       'std::collections::hash::map::HashMap::iter', 'std::collections::hash::map::HashMap::into_values')
def map_values(I, st, fr, f, args, tys, dty, span):
    ty = peel(tys[0])
    m = f['name'].split('::')[-1].replace('into_', '')
    e = (ty[2][1] if m == 'values' else ty[2][0] if m == 'keys' else ('tuple', (ty[2][0], ty[2][1]))) if ty[0] == 'adt' else ANY
    return [(st, seq_iter(('mapitems' if m == 'iter' else 'map' + m, I.V(st, args[0])), e))]


@model('std::collections::hash::map::HashMap::len')
def map_len(I, st, fr, f, args, tys, dty, span):
    return [(st, slen(('mapvalues', I.V(st, args[0]))))]


class Models:
    def __init__(self):
        self.cache = {}

    def intrinsic(self, I, st, fr, f, args, tys, dty, span):
        m = TABLE.get(f['name'])
        if m is None:
            return None
        return m(I, st, fr, f, args, tys, dty, span)

    def rust_model(self, I, name):
        parts_ = name.split('::')
        if len(parts_) < 2:
            return None
        return I.P.byname.get('spec::m::%s_%s' % (parts_[-2], parts_[-1]))

    def map_get_or(self, I, st, m, k, d):
        g = mapget(I, st, m, k, ANY)
        if g == NONE:
            return d
        if g[0] == 'adt':
            return g[3][0]
        return ('mapgetor', m, k, d)


import serde_models  # noqa: E402,F401  (registers its models)
