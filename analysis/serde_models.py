"""Semantics of serde's data model for a self-describing (JSON) format.

A deserializer is an opaque document d.  Its kind is object, array, string or something else; objects and
arrays are sequences of opaque entries.  Reading a std or public type from a document is uninterpreted
(('call', 'de', (document, type))) and may fail; private types of the crate are followed into their impls.
Serializers cannot fail and build terms json::Obj / json::Arr / json::Str / ...
"""
from values import *
import interp as IN
from interp import OPTION, RESULT, peel, is_seq_ty, elem_ty, lift, coerce, VARN
from models import model, some, ok, err, NONE, ANY, TABLE

DE, SER = 'serde_core::de::', 'serde_core::ser::'
STRING = ('adt', 'alloc::string::String', ())
ERR = ('call', 'serde_error', ())
OBJECT, ARRAY, STR, OTHER = range(4)
# types whose reading and writing are comparisons of their own
CUT = {'ethabi::param::Param', 'ethabi::event_param::EventParam', 'ethabi::tuple_param::TupleParam', 'ethabi::function::Function',
       'ethabi::event::Event', 'ethabi::constructor::Constructor', 'ethabi::operation::Operation',
       'ethabi::filter::Topic', 'ethabi::filter::TopicFilter', 'ethabi::state_mutability::StateMutability', 'ethabi::contract::Contract', 'ethabi::param_type::param_type::ParamType'}


# private types of the crate and their counterparts in the reference
ALIAS = {'spec::json::Op': 'ethabi::operation::Operation'}
CUT |= set(ALIAS)
# the wrapper that writes a tuple component
COMPONENT = {'ethabi::param::SerializeableParam', 'spec::json::SerParam'}


def canon(ty):
    ty = peel(ty)
    if ty[0] == 'adt' and ty[1] in ALIAS:
        ty = ('adt', ALIAS[ty[1]], ty[2])
    if ty[0] == 'str' or ty[0] == 'adt' and ty[1] == 'alloc::borrow::Cow' and any(peel(a)[0] == 'str' for a in ty[2] if isinstance(a, tuple)):
        return STRING
    if ty[0] == 'adt':
        return ('adt', ty[1], tuple(canon(a) for a in ty[2] if isinstance(a, tuple) and a[:2] != ('adt', 'alloc::alloc::Global')))
    return ty


def jkind(d):
    j = ('json', d)
    VARN[j] = 4
    return j


def impl(I, trait, ty, m):
    return I.P.impls.get((trait, ty[1], m)) if ty[0] == 'adt' else None


def de_value(I, st, d, ty):
    """[(state, Result value)] for reading a value of the type from document d"""
    ty = canon(I.ty(ty))
    if ty[0] in ('param', 'other'):
        raise IN.Unsupported('reading a value of unknown type')
    k = impl(I, DE + 'Deserialize', ty, 'deserialize')
    if k is not None and ty[1] not in CUT and k not in I.stack:
        return I.run_fn(I.P.fns[k], [d], st)
    if d[0] == 'adt' and d[1] == 'json::Key':
        if ty == STRING:
            return [(st, ok(d[3][0]))]
        raise IN.Unsupported('key of type ' + repr(ty)[:60])
    r = ('call', 'de', (d, ('ty', repr(ty))))
    I.calls_seen.add('de')
    VARN[r] = 2
    out = []
    for s, vi in I.fork_variant(st, r, ('adt', RESULT, (ty, ANY))):
        out.append((s, ok(lift(fld(r, 0, 0), ty)) if vi == 0 else err(('err', fld(r, 1, 0)))))
    return out


@model(DE + 'Deserialize::deserialize')
def deserialize(I, st, fr, f, args, tys, dty, span):
    return de_value(I, st, I.V(st, args[0]), f['self'])


# ---------------------------------------------------------------- deserializers
ACCEPTS = {'any': (OBJECT, ARRAY, STR), 'map': (OBJECT,), 'struct': (OBJECT,), 'seq': (ARRAY,), 'tuple': (ARRAY,), 'str': (STR,),
           'string': (STR,), 'identifier': (STR,), 'enum': (STR,)}
VISIT = {OBJECT: ('visit_map',), ARRAY: ('visit_seq',), STR: ('visit_str', 'visit_string')}


def deserialize_x(I, st, fr, f, args, tys, dty, span):
    d = I.V(st, args[0])
    m = f['name'].split('::')[-1][len('deserialize_'):]
    vis = I.V(st, args[-1])
    if vis[0] != 'adt':
        # unit structs may be opaque
        t = peel(I.ty(tys[-1]))
        if t[0] != 'adt':
            return None
        vis = ('adt', t[1], 0, ())
    if vis[1] == 'json::Tagged':
        return tagged(I, st, d, vis)
    if vis[1].endswith('::InternallyTaggedUnitVisitor'):
        return [(st, ok(IN.UNIT))]

    def visitor(names):
        for n in names:
            k = I.P.impls.get((DE + 'Visitor', vis[1], n))
            if k is not None:
                return I.P.fns[k]
    if d[0] == 'adt' and d[1] == 'json::Key':
        fn = visitor(VISIT[STR])
        return I.run_fn(fn, [vis, d[3][0]], st) if fn else None
    if m not in ACCEPTS:
        return None
    j = jkind(d)
    out, rest = [], st.copy()
    for kind in ACCEPTS[m]:
        fn = visitor(('visit_enum',) if m == 'enum' else VISIT[kind])
        if fn is None:
            continue
        s = st.copy()
        if s.add(('b', ('is', j, kind))):
            if m == 'enum':
                a = ('adt', 'json::Key', 0, (lift(('jstr', d), ('str',)),))
            elif kind == OBJECT:
                a = ('it', 'demap', ('jmap', d), 0, slen(('jmap', d)), ANY, FF)
            elif kind == ARRAY:
                a = ('it', 'deseq', ('jseq', d), 0, slen(('jseq', d)), ANY)
            else:
                a = lift(('jstr', d), ('str',))
            out += I.run_fn(fn, [vis, a], s)
        if rest is not None and not rest.add(fnot(('b', ('is', j, kind)))):
            rest = None
    if rest is not None:
        out.append((rest, err(ERR)))
    return out


for _m in ACCEPTS:
    TABLE[DE + 'Deserializer::deserialize_' + _m] = deserialize_x


@model('serde::private::de::content::TaggedContentVisitor::new')
def tagged_new(I, st, fr, f, args, tys, dty, span):
    return [(st, ('adt', 'json::Tagged', 0, (I.V(st, args[0]), ('ty', f['args'][0]))))]


def tagged(I, st, d, vis):
    tag, fty = vis[3][0], vis[3][1][1]
    j = jkind(d)
    no = st.copy()
    out = []
    if no.add(fnot(('b', ('is', j, OBJECT)))):
        out.append((no, err(ERR)))
    if not st.add(('b', ('is', j, OBJECT))):
        return out
    r = ('call', 'jsontag', (d, tag))
    I.calls_seen.add('jsontag')
    VARN[r] = 2
    for s, vi in I.fork_variant(st, r, ('adt', RESULT, (ANY, ANY))):
        if vi:
            out.append((s, err(ERR)))
            continue
        for s2, x in de_value(I, s, ('adt', 'json::Key', 0, (lift(fld(r, 0, 0), ('str',)),)), fty):
            for s3, vj in I.fork_variant(s2, x, ('adt', RESULT, (ANY, ANY))):
                out.append((s3, ok(('tup', (fld(x, 0, 0), ('untag', d, tag)))) if vj == 0 else err(ERR)))
    return out


@model('serde::private::de::content::ContentDeserializer::new')
def content_de(I, st, fr, f, args, tys, dty, span):
    return [(st, I.V(st, args[0]))]


@model('serde::private::de::content::InternallyTaggedUnitVisitor::new')
def unit_visitor(I, st, fr, f, args, tys, dty, span):
    return [(st, ('adt', 'serde::InternallyTaggedUnitVisitor', 0, ()))]


@model(DE + 'EnumAccess::variant')
def enum_variant(I, st, fr, f, args, tys, dty, span):
    out = []
    for s, x in de_value(I, st, I.V(st, args[0]), f['args'][1]):
        for s2, vi in I.fork_variant(s, x, ('adt', RESULT, (ANY, ANY))):
            out.append((s2, ok(('tup', (fld(x, 0, 0), ('adt', 'json::UnitVariant', 0, ())))) if vi == 0 else err(ERR)))
    return out


@model(DE + 'VariantAccess::unit_variant')
def unit_variant(I, st, fr, f, args, tys, dty, span):
    return [(st, ok(IN.UNIT))]


@model(*[DE + 'Error::' + m for m in ('custom', 'duplicate_field', 'missing_field', 'unknown_field', 'unknown_variant', 'invalid_type',
                                      'invalid_value', 'invalid_length')] + [SER + 'Error::custom'])
def de_error(I, st, fr, f, args, tys, dty, span):
    return [(st, ERR)]


@model('serde::private::de::missing_field')
def missing(I, st, fr, f, args, tys, dty, span):
    ty = canon(I.ty(f['args'][0]))
    if ty[0] == 'adt' and ty[1] == OPTION:
        return [(st, ok(NONE))]
    if ty[0] in ('param', 'other'):
        return None
    return [(st, err(ERR))]


# ---------------------------------------------------------------- objects and arrays being read
def access(I, st, a, kind):
    import models
    r = models.holder(I, st, a)
    v = I.V(st, a)
    if r[0] != 'ref' or not isinstance(v, tuple) or v[0] != 'it' or v[1] != kind:
        return None, None
    return r, v


def results(I, outs, wrap):
    """maps the successful results of outs"""
    out = []
    for s, x in outs:
        for s2, vi in I.fork_variant(s, x, ('adt', RESULT, (ANY, ANY))):
            if vi == 0:
                out += wrap(s2, fld(x, 0, 0))
            else:
                out.append((s2, err(('err', fld(x, 1, 0)))))
    return out


def next_key(I, st, r, v, ty):
    if v[6] != FF:
        raise IN.Unsupported('key read twice')
    import models
    t, e = models.split(I, st, lt(v[3], v[4]))
    out = []
    for s in t:
        ent = elem(s, v[2], v[3])
        k = ('call', 'dekey', (ent,))
        I.calls_seen.add('dekey')
        VARN[k] = 2
        I.store(s, r[1], r[2], v[:6] + (TT,))
        for s2, vi in I.fork_variant(s, k, ('adt', RESULT, (ANY, ANY))):
            if vi:
                out.append((s2, err(('err', fld(k, 1, 0)))))
                continue
            key = ('adt', 'json::Key', 0, (lift(fld(k, 0, 0), ('str',)),))
            out += results(I, de_value(I, s2, key, ty), lambda s3, x: [(s3, ok(some(x)))])
    return out + [(s, ok(NONE)) for s in e]


def next_value(I, st, r, v, ty):
    if v[6] != TT:
        raise IN.Unsupported('value read before its key')
    I.store(st, r[1], r[2], v[:3] + (add(v[3], 1),) + v[4:6] + (FF,))
    return de_value(I, st, ('jval', elem(st, v[2], v[3])), ty)


@model(DE + 'MapAccess::next_key', DE + 'MapAccess::next_value', DE + 'MapAccess::next_entry')
def map_access(I, st, fr, f, args, tys, dty, span):
    r, v = access(I, st, args[0], 'demap')
    if r is None:
        return None
    m = f['name'].split('::')[-1]
    if m == 'next_key':
        return next_key(I, st, r, v, f['args'][1])
    if m == 'next_value':
        return next_value(I, st, r, v, f['args'][1])
    out = []
    for s, x in next_key(I, st, r, v, f['args'][1]):
        if x[2] != 0 or x[3][0] == NONE:
            out.append((s, x))
            continue
        key = x[3][0][3][0]
        out += results(I, next_value(I, s, r, I.V(s, r), f['args'][2]), lambda s2, y: [(s2, ok(some(('tup', (key, y)))))])
    return out


@model(DE + 'SeqAccess::next_element')
def next_element(I, st, fr, f, args, tys, dty, span):
    r, v = access(I, st, args[0], 'deseq')
    if r is None:
        return None
    import models
    t, e = models.split(I, st, lt(v[3], v[4]))
    out = []
    for s in t:
        I.store(s, r[1], r[2], v[:3] + (add(v[3], 1),) + v[4:])
        out += results(I, de_value(I, s, elem(s, v[2], v[3]), f['args'][1]), lambda s2, x: [(s2, ok(some(x)))])
    return out + [(s, ok(NONE)) for s in e]


@model(DE + 'MapAccess::size_hint', DE + 'SeqAccess::size_hint')
def size_hint(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    r = ('call', 'size_hint', (v[2],))
    I.calls_seen.add('size_hint')
    VARN[r] = 2
    return [(st, r)]


# ---------------------------------------------------------------- serializers
def J(kind, *xs):
    return ('adt', 'json::' + kind, 0, tuple(xs))


NULL = J('Null')
SINK = J('Serializer')


def seq_map(I, st, v, fn):
    """the sequence of fn(element), for an fn with a single outcome; None otherwise"""
    out = []
    for s in segs_of(v):
        if s[0] == 'one':
            x = fn(s[1])
            out.append(None if x is None else ('one', x))
        elif s[0] == 'lit':
            for e in s[1]:
                x = fn(e)
                out.append(None if x is None else ('one', x))
        elif s[0] in ('sub', 'comp'):
            k = fresh('k')
            RANGE[k] = (0, None)
            if s[0] == 'sub':
                n, e = s[3], elem(st, s[1], add(s[2], as_int(k)))
            else:
                w, b = open_lam(s[2])
                n, e = s[1], Subst({w: as_int(k)})(b)
            x = fn(e)
            out.append(None if x is None else ('comp', n, mk_lam(x, k)))
        else:
            return None
    if any(x is None for x in out):
        return None
    return mkseq(tuple(out), st)


def ser_value(I, st, v, ty):
    """[(state, json)]"""
    v = I.V(st, v)
    ty = peel(I.ty(ty))
    while ty[0] == 'adt' and ty[1] in ('alloc::boxed::Box', 'alloc::borrow::Cow') and len(ty[2]):
        ty = peel(ty[2][0])
    k = ty[0]
    if k == 'str' or ty[:2] == STRING[:2]:
        return [(st, J('Str', coerce(v, ('str',))))]
    if k == 'bool':
        return [(st, J('Bool', coerce(v, ty)))]
    if k == 'int':
        return [(st, J('Num', coerce(v, ty)))]
    if k == 'adt' and ty[1] == OPTION:
        out = []
        for s, vi in I.fork_variant(st, v, ty):
            out += ser_value(I, s, coerce(fld(v, 1, 0), ty[2][0]), ty[2][0]) if vi else [(s, NULL)]
        return out
    if k == 'adt' and ty[1] == 'serde_json::value::Value':
        x = json_value(I, st, v)
        return [(st, x if x is not None else opaque_ser(I, st, v, ty))]
    if is_seq_ty(ty):
        ety = elem_ty(ty)

        def one(e):
            s = st.copy()
            o = ser_value(I, s, coerce(e, ety), ety)
            return o[0][1] if len(o) == 1 and len(o[0][0].log) == len(st.log) else None
        x = seq_map(I, st, v, one)
        return [(st, J('Arr', x) if x is not None else opaque_ser(I, st, v, ty))]
    if k == 'adt' and ty[1] in COMPONENT:
        I.calls_seen.add('ser')
        return [(st, ('call', 'ser', (I.V(st, fld(v, 0, 0)), ('ty', 'component'))))]
    key = impl(I, SER + 'Serialize', ty, 'serialize')
    if key is not None and ty[1] not in CUT and key not in I.stack and key not in I.cut:
        out = []
        for s, x in I.run_fn(I.P.fns[key], [v, SINK], st):
            for s2, vi in I.fork_variant(s, x, ('adt', RESULT, (ANY, ANY))):
                if vi == 0:
                    out.append((s2, fld(x, 0, 0)))
        return out
    if key is None and k in ('param', 'other'):
        raise IN.Unsupported('writing a value of unknown type')
    return [(st, opaque_ser(I, st, v, ty))]


def opaque_ser(I, st, v, ty):
    v = I.deep(st, v)
    # private wrappers of a single value are transparent
    while v[0] == 'adt' and len(v[3]) == 1 and v[1] not in CUT and I.P.nvariants(v[1]) == 1 and ty[0] == 'adt' and ty[1] == v[1]:
        fs = I.P.fields(v[1], 0, ty[2])
        v, ty = v[3][0], peel(fs[0]) if fs else ANY
    if ty[0] == 'adt' and ty[1] not in CUT and v[0] != 'adt' and I.P.nvariants(ty[1]) == 1:
        fs = I.P.fields(ty[1], 0, ty[2])
        if fs and len(fs) == 1:
            v, ty = fld(v, 0, 0), peel(fs[0])
    I.calls_seen.add('ser')
    return ('call', 'ser', (v, ('ty', repr(canon(ty)))))


def json_value(I, st, v):
    v = I.V(st, v)
    if v[0] != 'adt':
        return None
    n = I.P.adts[v[1]]['variants'][v[2]]['name']
    if n == 'Null':
        return NULL
    if n == 'String':
        return J('Str', I.V(st, v[3][0]))
    if n == 'Bool':
        return J('Bool', v[3][0])
    if n == 'Array':
        x = seq_map(I, st, I.V(st, v[3][0]), lambda e: json_value(I, st, e) if isinstance(e, tuple) else None)
        return None if x is None else J('Arr', x)
    return None


@model(SER + 'Serialize::serialize')
def serialize(I, st, fr, f, args, tys, dty, span):
    return [(s, ok(x)) for s, x in ser_value(I, st, args[0], f['self'])]


@model(*[SER + 'Serializer::serialize_' + m for m in ('map', 'struct', 'seq', 'tuple', 'tuple_struct')])
def ser_begin(I, st, fr, f, args, tys, dty, span):
    k = 'ArrSer' if f['name'].endswith(('seq', 'tuple', 'tuple_struct')) else 'ObjSer'
    return [(st, ok(J(k, EMPTY, NULL)))]


@model(*[SER + 'Serializer::serialize_' + m for m in ('str', 'bool', 'none', 'unit', 'some', 'unit_variant', 'newtype_struct', 'u64',
                                                      'i64', 'u32', 'char')] + [SER + 'Serializer::collect_str'])
def ser_leaf(I, st, fr, f, args, tys, dty, span):
    m = f['name'].split('::')[-1]
    if m in ('serialize_none', 'serialize_unit'):
        return [(st, ok(NULL))]
    if m == 'serialize_unit_variant':
        return [(st, ok(J('Str', I.V(st, args[3]))))]
    if m == 'collect_str':
        import models
        return [(s, ok(J('Str', x))) for s, x in models.display(I, st, 'd', I.V(st, args[1]), peel(tys[1]))]
    return [(s, ok(x)) for s, x in ser_value(I, st, args[-1], tys[-1])]


def pusher(I, st, a, outs, mk):
    import models
    r = models.holder(I, st, a)
    out = []
    for s, j in outs:
        v = I.V(s, r)
        if r[0] != 'ref' or v[0] != 'adt' or not v[1].endswith('Ser'):
            return None
        I.store(s, r[1], r[2], mk(v, j))
        out.append((s, ok(IN.UNIT)))
    return out


def push(v, x):
    return ('adt', v[1], 0, (mkseq(tuple(segs_of(v[3][0])) + (('one', x),)), NULL))


@model(SER + 'SerializeMap::serialize_entry', SER + 'SerializeStruct::serialize_field')
def ser_entry(I, st, fr, f, args, tys, dty, span):
    k = I.V(st, args[1])
    return pusher(I, st, args[0], ser_value(I, st, args[2], tys[2]), lambda v, j: push(v, ('tup', (k, j))))


@model(SER + 'SerializeMap::serialize_key')
def ser_key(I, st, fr, f, args, tys, dty, span):
    k = I.V(st, args[1])
    return pusher(I, st, args[0], [(st, None)], lambda v, j: ('adt', v[1], 0, (v[3][0], k)))


@model(SER + 'SerializeMap::serialize_value')
def ser_val(I, st, fr, f, args, tys, dty, span):
    return pusher(I, st, args[0], ser_value(I, st, args[1], tys[1]), lambda v, j: push(v, ('tup', (v[3][1], j))))


@model(SER + 'SerializeSeq::serialize_element', SER + 'SerializeTuple::serialize_element', SER + 'SerializeTupleStruct::serialize_field')
def ser_elem(I, st, fr, f, args, tys, dty, span):
    return pusher(I, st, args[0], ser_value(I, st, args[1], tys[1]), push)


@model(SER + 'SerializeStruct::skip_field')
def ser_skip(I, st, fr, f, args, tys, dty, span):
    return [(st, ok(IN.UNIT))]


@model(SER + 'SerializeMap::end', SER + 'SerializeStruct::end', SER + 'SerializeSeq::end', SER + 'SerializeTuple::end',
       SER + 'SerializeTupleStruct::end')
def ser_end(I, st, fr, f, args, tys, dty, span):
    v = I.V(st, args[0])
    if v[0] != 'adt' or not v[1].endswith('Ser'):
        return None
    x = v[3][0]
    if v[1].endswith('ArrSer'):
        return [(st, ok(J('Arr', x)))]
    # the entries of an object have no order
    sg = segs_of(x)
    if all(s[0] == 'one' and s[1][0] == 'tup' and s[1][1][0][0] in ('strlit', 'seq') for s in sg):
        x = mkseq(tuple(sorted(sg, key=lambda s: hashkey(s[1][1][0]))))
    return [(st, ok(J('Obj', x)))]


@model('serde::private::ser::serialize_tagged_newtype')
def ser_tagged(I, st, fr, f, args, tys, dty, span):
    tag, name = I.V(st, args[3]), I.V(st, args[4])
    return [(s, ok(J('TaggedObj', tag, name, j))) for s, j in ser_value(I, st, args[5], tys[5])]
