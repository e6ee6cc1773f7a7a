"""What decides each property: comparisons (task, kinds of difference that violate it) and scans."""
import tasks
V = ('value',)
TOK = ('lenient', 'strict')
SCALARS = ['tokenize_uint', 'tokenize_int', 'tokenize_bool', 'tokenize_bytes', 'tokenize_fixed_bytes', 'tokenize_string', 'tokenize_address']
NOTE_T = ('Leaf-by-leaf comparison of the summary computed from the MIR of /repo with the summary of the reference function; a definite '
          'difference is a violation, an undecided pair is reported in the evidence and stays quiet. Trusts the MIR extractor, the models '
          'of the standard library calls and the reference functions in /verif/spec.')
T_CMP = 'disjunctive abstract interpretation of MIR (value-flow terms + linear constraints, loop summaries), compared with reference summaries'

PN = ('panic',)
NOPANIC = ['param_is_dynamic', 'token_is_dynamic', 'type_check', 'types_check', 'mediate_head_len', 'mediate_tail_len', 'mediate_head',
           'mediate_tail', 'encode_head_tail', 'encode_token', 'encode', 'write_for_abi', 'write', 'param_fmt', 'token_fmt', 'event_signature',
           'function_signature', 'function_encode_input', 'constructor_encode_input', 'event_filter', 'encode_in_place', 'contract_function',
           'contract_event', 'contract_functions_by_name', 'contract_events_by_name', 'contract_functions', 'contract_events', 'inner_tuple',
           'inner_tuple_mut'] + [p + n for p in ('de_', 'ser_') for n in (
               'param', 'tuple_param', 'event_param', 'constructor', 'event', 'function', 'operation', 'mutability', 'contract')] + [
           'de_param_type', 'ser_component', 'ser_topic', 'ser_topic_filter', 'topic_map', 'topic_into_vec'] + ['into_' + t for t in tasks.INTO]
CLAIMS = {
    'C01': dict(tasks=[(t, PN) for t in ('decode_param', 'decode', 'function_decode_input', 'function_decode_output', 'event_parse_log')]),
    'C02': dict(tasks=[(t, ('bound', 'accepts')) for t in ('decode_param', 'decode')]),
    'C03': dict(tasks=[('read', PN)]),
    'C05': dict(tasks=[('%s_%s' % (m, s), PN) for m in TOK for s in SCALARS + ['tokenize', 'tokenize_array', 'tokenize_struct', 'tokenize_fixed_array']]),
    'C04': dict(tasks=[(t, V) for t in ('write_for_abi', 'write', 'param_fmt', 'read')]),
    'C06': dict(tasks=[('%s_%s' % (m, s), V) for m in TOK for s in SCALARS] + [('%s_tokenize' % m, V) for m in TOK]),
    'C07': dict(tasks=[('type_check', V), ('types_check', V)]),
    'C08': dict(tasks=[(t, V) for t in ('function_encode_input', 'constructor_encode_input', 'function_decode_input', 'function_decode_output')]),
    'C09': dict(tasks=[('param_is_dynamic', V), ('token_is_dynamic', V)]),
    'C10': dict(tasks=[(t, V) for t in ('mediate_head_len', 'mediate_tail_len', 'mediate_head', 'mediate_tail', 'encode_head_tail',
                                        'encode_token', 'encode')]),
    'C11': dict(tasks=[('decode_param', V), ('decode', V), ('empty_is_valid', V)]),
    'C12': dict(tasks=[('event_signature', V), ('function_signature', V)]),
    'C13': dict(tasks=[(t, V) for t in ('de_param', 'de_tuple_param', 'de_event_param', 'de_param_type', 'ser_param', 'ser_tuple_param',
                                        'ser_event_param', 'ser_component', 'inner_tuple', 'inner_tuple_mut')]),
    'C14': dict(tasks=[(t, V) for t in ('contract_function', 'contract_event', 'contract_functions_by_name', 'contract_events_by_name',
                                        'contract_constructor', 'contract_functions', 'contract_events', 'contract_load', 'de_contract',
                                        'ser_contract', 'de_operation', 'ser_operation', 'de_function', 'ser_function', 'de_event',
                                        'ser_event', 'de_constructor', 'ser_constructor', 'de_mutability', 'ser_mutability')]),
    'C15': dict(tasks=[('event_parse_log', V)]),
    'C16': dict(tasks=[(t, V) for t in ('event_filter', 'encode_in_place', 'ser_topic', 'ser_topic_filter', 'topic_is_any', 'topic_map',
                                        'topic_default', 'topic_from_option', 'topic_from_vec', 'topic_from_one', 'topic_into_vec',
                                        'topic_index', 'rawlog_from')]),
    'C17': dict(bind=True, tasks=[(t, V + PN) for t in tasks.BIND],
                technique='the bindings generated for a witness contract are type-checked and their MIR is compared, by disjunctive abstract interpretation, with reference functions',
                note='Bounded over programs (one contract document with every kind of parameter, output and event field, /verif/bind/contract.json), unbounded over arguments and data: '
                     'every leaf of each generated function is compared with the leaf of a hand-written function. Bindings that do not type-check are a violation. '
                     'Tuples are not supported by the macro.'),
    'C18': dict(scans=['purity'], technique='effect scan over type-checked MIR: statics, unsafe blocks, auto traits and every function mentioned, with call-graph path',
                note='Reports a construct (static, unsafe block, public type, call site) that gives the library hidden state or effects. Iteration order of hash maps is '
                     'not treated as an effect (accessors document no order). Code inside dependencies is trusted.'),
    'C19': dict(tasks=[('cli_' + t, V) for t in ('hash_signature', 'load_function', 'load_event', 'parse_tokens', 'encode_input',
                                                 'encode_params', 'decode_call_output', 'decode_params', 'decode_log', 'execute')]),
    'C20': dict(tasks=[('%s_%s' % (m, s), V) for m in TOK for s in ('tokenize_array', 'tokenize_struct', 'tokenize_fixed_array')]),
    'C21': dict(tasks=[('token_fmt', V)]),
    'C22': dict(tasks=[('into_' + t, V) for t in tasks.INTO]),
    'C23': dict(tasks=[(t, PN) for t in NOPANIC]),
}


def explain(pid):
    c = CLAIMS[pid]
    return ('Static: the MIR of /repo (dumped by a rustc driver on this run) is abstractly interpreted; every leaf of each listed function '
            'is compared with every jointly possible leaf of its reference function.' if c.get('tasks') else '') + (
            ' Scans over the type-checked program: %s.' % ', '.join(c['scans']) if c.get('scans') else '')
