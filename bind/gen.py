"""writes src/lib.rs and contract.json: a contract document and, for each generated function, what it has to do (run by hand, the result is committed)"""
import json
import re

FN = [('allKinds', [('a', 'address'), ('b', 'bytes'), ('c', 'bytes32'), ('d', 'bytes4'), ('e', 'int64'), ('f', 'uint256'), ('g', 'bool'), ('h', 'string')],
       [('', 'address'), ('b', 'bytes'), ('c', 'bytes32'), ('d', 'bytes4'), ('e', 'int64'), ('f', 'uint256'), ('g', 'bool'), ('h', 'string')], 'view'),
      ('set_values', [('xs', 'uint256[]'), ('', 'address[3]'), ('someNames', 'string[]'), ('self', 'bytes4[]')], [('', 'uint256[]'), ('', 'address[3]'), ('', 'bytes32[]'), ('', 'bool[2]')], 'nonpayable'),
      ('nested', [('m', 'uint8[][]'), ('n', 'bool[2][]'), ('o', 'int8[][2]'), ('p', 'bytes32[1][2]'), ('q', 'string[][][]')], [('', 'uint8[][]'), ('', 'bool[2][]'), ('', 'int8[][2]')], 'pure'),
      ('noArgs', [], [], 'payable'),
      ('swap', [('x', 'uint128'), ('y', 'uint128')], [('y', 'uint128'), ('x', 'uint128')], 'view'),
      ('widths', [('x', 'uint8'), ('y', 'int256'), ('z', 'bytes1'), ('w', 'bytes31')], [('z', 'bytes1'), ('w', 'bytes31')], 'pure'),
      ('empty', [('x', 'uint256[0]')], [], 'view')]
ONE = ['address', 'bytes', 'bytes32', 'bytes8', 'int16', 'uint32', 'bool', 'string', 'uint256[]', 'address[2]', 'string[][]']
for _i, _t in enumerate(ONE):
    FN.append(('get%d' % _i, [('k', 'uint256')], [('', _t)], 'view'))
FN += [('manyValues', [('v%d' % k, t) for k, t in enumerate(('uint8', 'bool', 'address', 'string', 'bytes', 'uint16[]', 'bytes2', 'int24', 'bytes32', 'bool[2]', 'uint256', 'string[]', 'address', 'int8'))],
        [('', t) for t in ('bool', 'uint8', 'address', 'bytes', 'string', 'bytes2', 'int24', 'bytes32', 'uint256', 'int8', 'bool', 'address', 'int8')], 'payable'),
       ('uints', [('', 'uint%d' % (8 * k)) for k in range(1, 33)], [('', 'uint%d' % (8 * k)) for k in (1, 20, 31)], 'view'),
       ('ints', [('', 'int%d' % (8 * k)) for k in range(1, 33)], [('', 'int%d' % (8 * k)) for k in (2, 16, 32)], 'view'),
       ('fixedBytes', [('', 'bytes%d' % k) for k in range(1, 33)], [('', 'bytes%d' % k) for k in (2, 20, 30)], 'view'),
       ('longArrays', [('a', 'uint8[20]'), ('b', 'bytes4[33]'), ('c', 'string[17]')], [('a', 'uint8[17]'), ('d', 'bool[1]')], 'pure'),
       ('deep', [('a', 'uint8[2][][3]'), ('b', 'string[2][2]'), ('c', 'bytes[][2][]'), ('d', 'bytes3[2][]')], [('a', 'uint8[2][][3]'), ('b', 'string[2][2]'), ('c', 'bytes[][2][]'), ('d', 'bytes3[2][]')], 'nonpayable'),
       ('transferFrom', [('_from', 'address'), ('_to', 'address'), ('tokenId', 'uint256'), ('v2Data', 'bytes')], [('', 'bool')], 'nonpayable'),
       ('_hidden', [('x', 'uint256')], [('', 'uint256')], 'constant')]
CTOR = [('owner', 'address'), ('c', 'uint256'), ('code', 'bytes32[]'), ('', 'string')]
EV = [('Transfer', [('from', 'address', 1), ('to', 'address', 1), ('value', 'uint256', 0)], False),
      ('Mixed', [('s', 'string', 1), ('h', 'bytes32', 0), ('arr', 'uint256[]', 1), ('ok', 'bool', 0), ('bs', 'bytes', 0), ('fa', 'address[2]', 1)], False),
      ('Anon', [('x', 'uint256', 1), ('data', 'bytes', 0), ('', 'bool', 1), ('', 'int64', 0), ('id', 'bytes4', 1)], True),
      ('Plain', [('z', 'string', 0), ('a', 'uint8', 0), ('l', 'bool[]', 0), ('f', 'bytes4[2]', 0)], False),
      ('Order', [('d1', 'uint8', 0), ('i1', 'uint256', 1), ('d2', 'uint16', 0), ('i2', 'bytes32', 1), ('d3', 'uint24', 0), ('i3', 'bool', 1)], False),
      ('Nothing', [], False),
      ('Kinds', [('a', 'address', 0), ('b', 'bytes', 0), ('c', 'bytes32', 0), ('d', 'bytes4', 0), ('e', 'int64', 0), ('f', 'uint256', 0), ('g', 'bool', 0), ('h', 'string', 0), ('i', 'uint8[]', 0),
                 ('j', 'int16[3]', 0), ('k', 'bytes32[]', 0), ('l', 'string[][2]', 0), ('m', 'address[][]', 0)], False),
      ('IndexOne', [('a', 'int64', 1), ('b', 'bytes', 1), ('c', 'uint8[][2]', 1)], False),
      ('IndexTwo', [('_a', 'bytes1', 1), ('theValue', 'string[2]', 1), ('', 'bytes32[]', 1), ('rest', 'string[]', 0)], False),
      ('IndexThree', [('', 'uint256', 0), ('', 'bool', 1), ('', 'address', 1)], True),
      ('IndexLast', [('v', 'uint256', 0), ('w', 'string', 0), ('who', 'address', 1)], False),
      ('lower_case', [('x', 'uint256', 0)], False)]


def snake(n):
    return re.sub(r'(?<=[a-z0-9])([A-Z])', lambda m: '_' + m.group(1).lower(), n).lower().strip('_')


def split(t):
    m = re.match(r'(.*)\[(\d*)\]$', t)
    return (m.group(1), m.group(2)) if m else None


def kind(t):
    s = split(t)
    if s:
        return 'PT::FixedArray(Box::new(%s), %s)' % (kind(s[0]), s[1]) if s[1] else 'PT::Array(Box::new(%s))' % kind(s[0])
    for p, k in (('address', 'Address'), ('bool', 'Bool'), ('string', 'String')):
        if t == p:
            return 'PT::' + k
    if t == 'bytes':
        return 'PT::Bytes'
    for p, k in (('uint', 'Uint'), ('int', 'Int'), ('bytes', 'FixedBytes')):
        if t.startswith(p):
            return 'PT::%s(%s)' % (k, t[len(p):])


def ty(t):
    s = split(t)
    if s:
        return '[%s; %s]' % (ty(s[0]), s[1]) if s[1] else 'Vec<%s>' % ty(s[0])
    if t == 'bytes32':
        return 'Hash'
    if t.startswith('bytes') and t != 'bytes':
        return '[u8; %s]' % t[5:]
    return {'address': 'Address', 'bytes': 'Bytes', 'bool': 'bool', 'string': 'String'}.get(t) or ('Int' if t[0] == 'i' else 'Uint')


def tok(t, v):
    s = split(t)
    if s:
        return 'Token::%s(%s.into_iter().map(|x| %s).collect())' % ('FixedArray' if s[1] else 'Array', v, tok(s[0], 'x'))
    k = kind(t)[4:].split('(')[0]
    if k == 'FixedBytes':
        return 'Token::FixedBytes(%s)' % ('%s.as_bytes().to_vec()' if t == 'bytes32' else '%s.to_vec()') % v
    return 'Token::%s(%s)' % (k, v)


def untok(t, v):
    s = split(t)
    if s:
        if not s[1]:
            return '%s.into_array().unwrap().into_iter().map(|x| %s).collect::<Vec<_>>()' % (v, untok(s[0], 'x'))
        return '{ let mut it = %s.into_fixed_array().unwrap().into_iter(); [%s] }' % (
            v, ', '.join('{ let x = it.next().unwrap(); %s }' % untok(s[0], 'x') for _ in range(int(s[1]))))
    k = kind(t)[4:].split('(')[0]
    if k == 'FixedBytes':
        n = int(t[5:])
        a = '{ let v = %s.into_fixed_bytes().unwrap(); let mut r = [0u8; %d]; r.copy_from_slice(&v); r }' % (v, n)
        return 'Hash::from(%s)' % a if n == 32 else a
    return '%s.into_%s().unwrap()' % (v, {'FixedBytes': 'fixed_bytes'}.get(k, k.lower()))


def param(n, t):
    return 'Param { name: "%s".to_owned(), kind: %s, internal_type: None }' % (n, kind(t))


def tup(xs):
    return '()' if not xs else xs[0] if len(xs) == 1 else '(%s)' % ', '.join(xs)


MUT = {'view': 'View', 'pure': 'Pure', 'payable': 'Payable', 'nonpayable': 'NonPayable', 'constant': 'NonPayable'}
out = ['//! written by gen.py', '#![allow(deprecated, unused_imports, unused_mut, unused_variables, dead_code)]',
       'use ethabi::{Address, Bytes, Constructor, Event, EventParam, Function, Hash, Int, Param, ParamType as PT, RawLog, RawTopicFilter, StateMutability, Token, Topic, TopicFilter, Uint};',
       'use ethabi_contract::use_contract;', 'use_contract!(gen, "contract.json");', 'type R<T> = Result<T, ethabi::Error>;', '']
tasks = []
for n, i, o, m in FN:
    s = snake(n)
    ar = ['a%d' % k for k in range(len(i))]
    dl = ', '.join('%s: %s' % (a, ty(t)) for a, (_, t) in zip(ar, i))
    res = tup([ty(t) for _, t in o])
    out.append('fn fun_%s() -> Function { Function { name: "%s".to_owned(), inputs: vec![%s], outputs: vec![%s], constant: %s, state_mutability: StateMutability::%s } }' % (
        s, n, ', '.join(param(*x) for x in i), ', '.join(param(*x) for x in o), 'true' if m == 'constant' else 'false', MUT[m]))
    toks = ', '.join(tok(t, a) for a, (_, t) in zip(ar, i))
    out.append('pub fn enc_%s(%s) -> Bytes { gen::functions::%s::encode_input(%s) }' % (s, dl, s, ', '.join(ar)))
    out.append('pub fn want_enc_%s(%s) -> Bytes { fun_%s().encode_input(&[%s]).unwrap() }' % (s, dl, s, toks))
    out.append('pub fn call_%s(%s) -> Bytes { gen::functions::%s::call(%s).0 }' % (s, dl, s, ', '.join(ar)))
    out.append('pub fn want_call_%s(%s) -> Bytes { fun_%s().encode_input(&[%s]).unwrap() }' % (s, dl, s, toks))
    out.append('pub fn dec_%s(data: &[u8]) -> R<%s> { gen::functions::%s::decode_output(data) }' % (s, res, s))
    if o:
        out.append('pub fn want_dec_%s(data: &[u8]) -> R<%s> { let mut it = fun_%s().decode_output(data)?.into_iter(); Ok(%s) }' % (
            s, res, s, tup(['{ let v = it.next().unwrap(); %s }' % untok(t, 'v') for _, t in o])))
    else:
        out.append('pub fn want_dec_%s(_data: &[u8]) -> R<()> { Ok(()) }' % s)
    dd = dl + (', ' if dl else '') + 'data: &[u8]'
    out.append('pub fn then_%s(%s) -> R<%s> { ethabi::FunctionOutputDecoder::decode(&gen::functions::%s::call(%s).1, data) }' % (s, dd, res, s, ', '.join(ar)))
    out.append('pub fn want_then_%s(%s) -> R<%s> { let _ = fun_%s().encode_input(&[%s]).unwrap(); want_dec_%s(data) }' % (s, dd, res, s, toks, s))
    tasks += ['enc_' + s, 'call_' + s, 'dec_' + s, 'then_' + s]
ar = ['a%d' % k for k in range(len(CTOR))]
dl = 'code: Bytes, ' + ', '.join('%s: %s' % (a, ty(t)) for a, (_, t) in zip(ar, CTOR))
out.append('pub fn ctor(%s) -> Bytes { gen::constructor(code, %s) }' % (dl, ', '.join(ar)))
out.append('pub fn want_ctor(%s) -> Bytes { Constructor { inputs: vec![%s] }.encode_input(code, &[%s]).unwrap() }' % (
    dl, ', '.join(param(*x) for x in CTOR), ', '.join(tok(t, a) for a, (_, t) in zip(ar, CTOR))))
tasks.append('ctor')


def field(k, n, ix):
    return snake(n) if n else ('topic%d' if ix else 'param%d') % k


for n, ps, anon in EV:
    s = snake(n)
    camel = ''.join(x.capitalize() for x in n.split('_')) if '_' in n else n
    out.append('pub fn ev_%s() -> Event { gen::events::%s::event() }' % (s, s))
    out.append('pub fn want_ev_%s() -> Event { Event { name: "%s".to_owned(), inputs: vec![%s], anonymous: %s } }' % (
        s, n, ', '.join('EventParam { name: "%s".to_owned(), kind: %s, indexed: %s }' % (p, kind(t), 'true' if ix else 'false') for p, t, ix in ps), 'true' if anon else 'false'))
    tasks.append('ev_' + s)
    if n == 'lower_case':
        continue
    ev = 'want_ev_%s()' % s
    ixs = [(p, t) for p, t, ix in ps if ix]
    ar = ['a%d' % k for k in range(len(ixs))]
    dl = ', '.join('%s: Topic<%s>' % (a, ty(t)) for a, (_, t) in zip(ar, ixs))
    init = ' '.join('topic%d: a%d.map(|x| %s),' % (k, k, tok(t, 'x')) for k, (_, t) in enumerate(ixs))
    init += ' '.join(' topic%d: Topic::Any,' % k for k in range(len(ixs), 3))
    out.append('pub fn fil_%s(%s) -> TopicFilter { gen::events::%s::filter(%s) }' % (s, dl, s, ', '.join(ar)))
    out.append('pub fn want_fil_%s(%s) -> TopicFilter { let raw = RawTopicFilter { %s }; %s.filter(raw).unwrap() }' % (s, dl, init, ev))
    out.append('pub fn wild_%s() -> TopicFilter { gen::events::%s::wildcard_filter() }' % (s, s))
    out.append('pub fn want_wild_%s() -> TopicFilter { %s.filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }' % (s, ev))
    lt = [t if not ix or t not in ('string', 'bytes') and not split(t) else 'bytes32' for _, t, ix in ps]
    fs = ['l.' + field(k, p, ix) for k, (p, t, ix) in enumerate(ps)]
    out.append('pub fn log_%s(log: RawLog) -> R<%s> { let l = gen::events::%s::parse_log(log)?; Ok(%s) }' % (s, tup([ty(t) for t in lt]), s, tup(fs)))
    out.append('pub fn want_log_%s(log: RawLog) -> R<%s> { let mut it = %s.parse_log(log)?.params.into_iter(); Ok(%s) }' % (
        s, tup([ty(t) for t in lt]), ev, tup(['{ let v = it.next().unwrap().value; %s }' % untok(t, 'v') for t in lt])))
    tasks += ['fil_' + s, 'wild_' + s, 'log_' + s]
open('src/lib.rs', 'w').write('\n'.join(out) + '\n')
doc = [dict(type='constructor', inputs=[dict(name=n, type=t) for n, t in CTOR])]
doc += [dict(type='function', name=n, inputs=[dict(name=a, type=t) for a, t in i], outputs=[dict(name=a, type=t) for a, t in o], **(dict(constant=True) if m == 'constant' else dict(stateMutability=m))) for n, i, o, m in FN]
doc += [dict(type='event', name=n, inputs=[dict(name=a, type=t, indexed=bool(x)) for a, t, x in ps], anonymous=an) for n, ps, an in EV]
json.dump(doc, open('contract.json', 'w'), indent=1)
open('tasks.txt', 'w').write('\n'.join(tasks) + '\n')
