"""Which functions of /repo are compared with which reference functions, and under which view.

opaque: functions treated as uninterpreted on both sides (they have their own comparison);
rename: recursive functions of the reference and their counterparts (both cut at the call)."""

import os

PT = 'ethabi::param_type::param_type::ParamType::'
TK = 'ethabi::token::token::Token::'
W = 'ethabi::param_type::writer::Writer::'
RD = 'ethabi::param_type::reader::Reader::read'
PF = '<ethabi::param_type::param_type::ParamType as core::fmt::Display>::fmt'
TF = '<ethabi::token::token::Token as core::fmt::Display>::fmt'
OPQ = {PT + 'is_dynamic', PT + 'is_empty_bytes_valid_encoding', TK + 'is_dynamic'}
TASKS = {}


# private types of /repo the reference mirrors: the comparison needs their layout
LAYOUT = {'ethabi::encoder::Mediate': ('variants', ['Raw', 'Prefixed', 'PrefixedArray', 'PrefixedArrayWithLength', 'RawTuple',
                                                    'PrefixedTuple']),
          'ethabi::operation::Operation': ('variants', ['Constructor', 'Function', 'Event', 'Fallback', 'Receive']),
          'ethabi::Opt': ('variants', ['Encode', 'Decode']),
          'ethabi::Encode': ('shape', [('Function', ['abi_path', 'function_name_or_signature', 'params', 'lenient']),
                                       ('Params', ['params', 'lenient'])]),
          'ethabi::Decode': ('shape', [('Function', ['abi_path', 'function_name_or_signature', 'data']), ('Params', ['types', 'data']),
                                       ('Log', ['abi_path', 'event_name_or_signature', 'topics', 'data'])]),
          'ethabi::decoder::DecodeResult': ('fields', [('adt', 'ethabi::token::token::Token', ()), ('int', 64, False)])}
TYMAP = {'spec::codec::Mediate': 'ethabi::encoder::Mediate', 'spec::json::Op': 'ethabi::operation::Operation',
         'spec::json::SerParam': 'ethabi::param::SerializeableParam'}


def task(name, impl, spec, opaque=(), rename=None, **kw):
    TASKS[name] = dict(name=name, impl=impl, spec=spec, opaque=set(opaque), rename=dict(rename or {}), **kw)


def same(m):
    return {'spec::' + a: b for a, b in m.items()}


# ---- codec
task('param_is_dynamic', PT + 'is_dynamic', 'spec::codec::param_is_dynamic', (), same({'codec::param_is_dynamic': PT + 'is_dynamic'}))
task('token_is_dynamic', TK + 'is_dynamic', 'spec::codec::token_is_dynamic', (), same({'codec::token_is_dynamic': TK + 'is_dynamic'}))
TC = same({'codec::token_type_check': TK + 'type_check', 'codec::token_types_check': TK + 'types_check'})
task('type_check', TK + 'type_check', 'spec::codec::token_type_check', (), TC)
task('types_check', TK + 'types_check', 'spec::codec::token_types_check', (), TC)
DP = same({'codec::decode_param': 'ethabi::decoder::decode_param'})
DL = dict(layout=['ethabi::decoder::DecodeResult'])
task('decode_param', 'ethabi::decoder::decode_param', 'spec::codec::decode_param', OPQ, DP, **DL)
task('decode', 'ethabi::decoder::decode', 'spec::codec::decode', OPQ, DP, **DL)
EM = {'spec::codec::' + n: 'ethabi::encoder::Mediate::' + n for n in ('head_len', 'tail_len', 'head', 'tail')}
EM.update({'spec::codec::' + n: 'ethabi::encoder::' + n for n in ('encode_head_tail', 'encode_token')})
for n in ('head_len', 'tail_len', 'head', 'tail'):
    task('mediate_' + n, 'ethabi::encoder::Mediate::' + n, 'spec::codec::' + n, OPQ, EM, layout=['ethabi::encoder::Mediate'])
for n in ('encode_head_tail', 'encode_token', 'encode'):
    task(n, 'ethabi::encoder::' + n, 'spec::codec::' + n, OPQ, EM, layout=['ethabi::encoder::Mediate'])

# ---- names
WM = {'spec::names::write_for_abi': W + 'write_for_abi'}
task('write_for_abi', W + 'write_for_abi', 'spec::names::write_for_abi', (), WM)
task('write', W + 'write', 'spec::names::write', (), WM)
task('param_fmt', PF, 'spec::names::param_fmt', (), WM)
task('read', RD, 'spec::names::read', (), {'spec::names::read': RD})
task('token_fmt', TF, 'spec::text::token_fmt', (), {'spec::text::token_fmt': TF})

# ---- operations
PUB = {W + 'write', W + 'write_for_abi', 'ethabi::encoder::encode', 'ethabi::decoder::decode', TK + 'type_check', TK + 'types_check',
       'ethabi::event::Event::signature', PF, PT + 'is_dynamic'}
EIP = {'spec::ops::encode_in_place': 'ethabi::event::Event::filter::encode_in_place'}
for a, b in [('event::Event::signature', 'names::event_signature'), ('function::Function::signature', 'names::function_signature'),
             ('function::Function::encode_input', 'ops::function_encode_input'),
             ('function::Function::decode_input', 'ops::function_decode_input'),
             ('function::Function::decode_output', 'ops::function_decode_output'),
             ('constructor::Constructor::encode_input', 'ops::constructor_encode_input'),
             ('event::Event::parse_log', 'ops::event_parse_log'), ('event::Event::filter', 'ops::event_filter'),
             ('event::Event::filter::encode_in_place', 'ops::encode_in_place'),
             ('contract::Contract::function', 'ops::contract_function'), ('contract::Contract::event', 'ops::contract_event'),
             ('contract::Contract::functions_by_name', 'ops::contract_functions_by_name'),
             ('contract::Contract::events_by_name', 'ops::contract_events_by_name'),
             ('contract::Contract::constructor', 'ops::contract_constructor')]:
    task(b.split('::')[1], 'ethabi::' + a, 'spec::' + b, PUB - {'ethabi::' + a}, EIP)

task('empty_is_valid', PT + 'is_empty_bytes_valid_encoding', 'spec::codec::empty_is_valid')
INTO = ['address', 'fixed_bytes', 'bytes', 'int', 'uint', 'bool', 'string', 'fixed_array', 'array']
for n in INTO:
    task('into_' + n, TK + 'into_' + n, 'spec::codec::into_' + n)
task('contract_load', 'ethabi::contract::Contract::load', 'spec::ops::contract_load')
FR = 'core::convert::From'
FT = 'ethabi::filter::Topic'
task('contract_functions', 'spec::ops::functions_client', 'spec::ops::contract_functions')
task('contract_events', 'spec::ops::events_client', 'spec::ops::contract_events')
task('topic_is_any', FT + '::is_any', 'spec::ops::topic_is_any')
task('topic_map', 'spec::ops::topic_map_client', 'spec::ops::topic_map', {TK + 'is_dynamic'})
task('topic_default', ('core::default::Default', FT, 'default'), 'spec::ops::topic_default')
task('topic_from_option', (FR, FT, 'from', ('adt', 'core::option::Option')), 'spec::ops::topic_from_option')
task('topic_from_vec', (FR, FT, 'from', ('adt', 'alloc::vec::Vec')), 'spec::ops::topic_from_vec')
task('topic_from_one', (FR, FT, 'from', ('param',)), 'spec::ops::topic_from_one')
task('topic_into_vec', (FR, 'alloc::vec::Vec', 'from', ('adt', FT)), 'spec::ops::topic_into_vec')
task('topic_index', ('core::ops::index::Index', FT, 'index'), 'spec::ops::topic_index')
task('rawlog_from', (FR, 'ethabi::log::RawLog', 'from'), 'spec::ops::rawlog_from')

# ---- tokenizers
TL = '<ethabi::token::lenient::LenientTokenizer as ethabi::token::Tokenizer>::'
TS = '<ethabi::token::strict::StrictTokenizer as ethabi::token::Tokenizer>::'
MS = ['tokenize', 'tokenize_array', 'tokenize_struct', 'tokenize_fixed_array', 'tokenize_uint', 'tokenize_int', 'tokenize_bool',
      'tokenize_bytes', 'tokenize_fixed_bytes', 'tokenize_string', 'tokenize_address']
ALLT = {Y + m for Y in (TL, TS) for m in MS}
for nm, X in (('lenient', TL), ('strict', TS)):
    for m in MS[:4]:
        sp = 'spec::text::%s::%s' % (nm, m)
        task('%s_%s' % (nm, m), X + m, sp, ALLT - {X + m}, {sp: X + m})
    for m in MS[4:]:
        le = X == TL and m in ('tokenize_uint', 'tokenize_int')
        sp = 'spec::text::' + ('lenient_' if le else 'strict_') + m[9:]
        task('%s_%s' % (nm, m), X + m, sp, {TS + 'tokenize_uint', TS + 'tokenize_int'} if le else ())

# the two tokenizers differ on numbers and on everything that can contain numbers
DISTINCT = {frozenset((TL + 'tokenize', TS + 'tokenize')): (0, (2, 3, 6, 8, 9))}

# ---- JSON
SD, SS = 'serde_core::de::Deserialize', 'serde_core::ser::Serialize'
INN = {'spec::json::inner_tuple': 'ethabi::param::inner_tuple', 'spec::json::inner_tuple_mut': 'ethabi::param::inner_tuple_mut'}
OPL = dict(layout=['ethabi::operation::Operation'])
for n, ty, sp, k in [('param', 'param::Param', 'param', {}), ('tuple_param', 'tuple_param::TupleParam', 'tuple_param', {}),
                     ('event_param', 'event_param::EventParam', 'event_param', {}),
                     ('param_type', 'param_type::param_type::ParamType', 'param_type', {}),
                     ('constructor', 'constructor::Constructor', 'constructor', {}), ('event', 'event::Event', 'event', {}),
                     ('function', 'function::Function', 'function', {}), ('operation', 'operation::Operation', 'operation', OPL),
                     ('mutability', 'state_mutability::StateMutability', 'state_mutability', {}),
                     ('contract', 'contract::Contract', 'contract', OPL)]:
    task('de_' + n, (SD, 'ethabi::' + ty, 'deserialize'), 'spec::json::de_' + sp, {RD}, INN, **k)
    if n != 'param_type':
        task('ser_' + n, (SS, 'ethabi::' + ty, 'serialize'), 'spec::json::ser_' + sp, {W + 'write_for_abi'}, INN, **k)
task('ser_component', (SS, 'ethabi::param::SerializeableParam', 'serialize'), 'spec::json::ser_component', {W + 'write_for_abi'}, INN)
task('ser_topic', (SS, 'ethabi::filter::Topic', 'serialize'), 'spec::json::ser_topic')
task('ser_topic_filter', (SS, 'ethabi::filter::TopicFilter', 'serialize'), 'spec::json::ser_topic_filter')
task('inner_tuple', 'ethabi::param::inner_tuple', 'spec::json::inner_tuple')
task('inner_tuple_mut', 'ethabi::param::inner_tuple_mut', 'spec::json::inner_tuple_mut', byval=True)

# ---- command line tool
FN = 'ethabi::function::Function::'
LIB = {'ethabi::contract::Contract::load', 'ethabi::contract::Contract::functions_by_name', 'ethabi::contract::Contract::events_by_name',
       FN + 'signature', FN + 'encode_input', FN + 'decode_output', 'ethabi::event::Event::signature', 'ethabi::event::Event::parse_log',
       RD, 'ethabi::encoder::encode', 'ethabi::decoder::decode', PF, TF, TL + 'tokenize', TS + 'tokenize'}
CLI = ['hash_signature', 'load_function', 'load_event', 'parse_tokens', 'encode_input', 'encode_params', 'decode_call_output',
       'decode_params', 'decode_log']
for n in CLI:
    task('cli_' + n, 'ethabi::' + n, 'spec::cli::' + n, LIB | {'ethabi::' + m for m in CLI if m != n},
         {'spec::cli::' + m: 'ethabi::' + m for m in CLI}, folded={TL + 'tokenize', TS + 'tokenize'})

task('cli_execute', 'ethabi::execute', 'spec::cli::execute', {'ethabi::' + m for m in CLI} | {'spec::cli::command_line::<I>'},
     dict({'spec::cli::' + m: 'ethabi::' + m for m in CLI}, **{'spec::cli::command_line::<I>': '?structopt::StructOpt::from_iter'}),
     layout=['ethabi::Opt', 'ethabi::Encode', 'ethabi::Decode'])

DISTINCT.update({frozenset(('ethabi::' + a, 'ethabi::' + b)): None for a in CLI[4:] for b in CLI[4:] if a != b})

# ---- bindings generated for bind/contract.json
EN = 'ethabi::event::Event::'
BIND = []
for _n in open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'bind', 'tasks.txt')).read().split():
    _o = {FN + 'encode_input', FN + 'decode_output', 'ethabi::constructor::Constructor::encode_input', EN + 'filter', EN + 'parse_log', TK + 'is_dynamic'}
    for _p, _k in (('bind_', {}), ('bindok_', dict(total=_o))):     # the second considers successful library calls only
        if _p == 'bind_' or not _n.startswith('ev_'):
            BIND.append(_p + _n)
            task(_p + _n, 'bind::' + _n, 'bind::want_' + _n, _o, **_k)

for _t in TASKS.values():
    _t['panics'] = True if _t['name'].startswith(('decode', 'function_decode', 'event_parse', 'read', 'lenient_', 'strict_')) else 'sizes'
for _n in ('decode_param', 'decode'):
    TASKS[_n]['bound'] = True

TASKS['decode_param'].update(data=1, start={2: 0})
TASKS['event_parse_log'].update(declared='log', inline={'ethabi::decoder::decode', PT + 'is_empty_bytes_valid_encoding', PT + 'is_dynamic'})
TASKS['event_filter'].update(declared='filter')

# reference definitions of the functions that are cut or opaque somewhere
DEFS = {}
for _t in TASKS.values():
    DEFS.update(_t['rename'])
DEFS.update({'spec::codec::param_is_dynamic': PT + 'is_dynamic', 'spec::codec::token_is_dynamic': TK + 'is_dynamic'})
