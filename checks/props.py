"""The properties: texts of properties.jsonl and, for the claimed ones, what decides them."""
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, tech=None, note=None, na=None, **kw):
    d = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech]))
    PROPS.append((d, tech, note, na))


prop('C01', 'Decoding arbitrary bytes never panics',
     'Decoding call data, call results or logs returns tokens or an error for every byte string and every list of parameter types. It never panics: no out-of-bounds index or slice, no arithmetic overflow, no failed unwrap, whatever offsets and lengths the data contains.',
     ['inputs'], 'all byte strings and all finite type lists (any nesting of arrays, fixed arrays and tuples)',
     'Tests decode a few dozen well-formed vectors and a handful of malformed ones; the hostile offset/length combinations are unbounded.',
     ['ethabi/src/decoder.rs', 'ethabi/src/function.rs', 'ethabi/src/event.rs'],
     [('every slice of the data is bounds-checked before it is taken', 'decoder.rs: peek, peek_32_bytes, take_bytes, decode_param'),
      ('offset arithmetic is checked', 'decoder.rs: decode_param, as_usize')])
prop('C02', 'Length fields cannot make the decoder work or reserve beyond the data',
     'When decoding, the number of array elements that are processed and the memory reserved up front are bounded by the size of the supplied data and of the declared types, never by an unchecked length field found in the data. A length field that promises more elements than the remaining data could hold is an error.',
     ['inputs'], 'all byte strings and all type lists, in particular arrays whose elements occupy no data',
     'A test can show one large length being rejected; that no reachable loop or reservation is driven by an unchecked length needs all inputs.',
     ['ethabi/src/decoder.rs'], [('length compared with the remaining data before the element loop', 'decoder.rs: decode_param, Array arm')])
prop('C03', 'Parsing a type string never panics',
     'Parsing any string as a parameter type returns a type or an error. It never panics, whatever brackets, digits, commas, parentheses or multi-byte characters the string contains.',
     ['inputs'], 'all strings', 'Tests parse about thirty strings, nearly all of them well formed ASCII.',
     ['ethabi/src/param_type/reader.rs', 'ethabi/src/param_type/deserialize.rs'],
     [('slices are only taken at positions found in the string', 'reader.rs: Reader::read')])
prop('C04', 'Type names are read and written by one grammar',
     'Every parameter type is rendered as its canonical Solidity name (tuples as parenthesised component lists in signatures, arrays with their suffixes, integer and byte widths in full), and parsing a name yields exactly the type the name denotes, including the aliases uint, int and the default widths. Names outside the grammar are rejected.',
     ['inputs'], 'all parameter types and all strings', 'Tests list single names; nesting and widths are unbounded.',
     ['ethabi/src/param_type/reader.rs', 'ethabi/src/param_type/writer.rs', 'ethabi/src/param_type/param_type.rs'],
     [('table of names', 'writer.rs: write_for_abi; reader.rs: read')])
prop('C05', 'Parsing value text never panics',
     'Turning any text into a token for any parameter type, strictly or leniently, returns a token or an error. It never panics, whatever brackets, quotes, digits or multi-byte characters the text contains.',
     ['inputs'], 'all strings and all parameter types, both modes', 'Tests feed a few dozen ASCII strings; slicing positions depend on arbitrary text.',
     ['ethabi/src/token/mod.rs', 'ethabi/src/token/strict.rs', 'ethabi/src/token/lenient.rs'],
     [('positions come from character boundaries of the same string', 'token/mod.rs: tokenize_array, tokenize_struct')])
prop('C06', 'Scalar value text is converted exactly or rejected',
     'Text for an address, a byte string, a fixed byte string, a boolean, a string or an integer becomes the token of that kind holding exactly the value the text denotes: 32-byte big-endian hex words in strict mode, additionally decimal (two\'s complement for negative values, full signed range) in lenient mode. Any other text, including hex of the wrong length, is an error.',
     ['inputs'], 'all strings, all scalar types, both modes', 'Tests sample a few values near some of the range limits.',
     ['ethabi/src/token/strict.rs', 'ethabi/src/token/lenient.rs', 'ethabi/src/token/mod.rs'],
     [('per-type conversion', 'strict.rs, lenient.rs'), ('dispatch on the type', 'token/mod.rs: tokenize')])
prop('C07', 'Type checking accepts exactly the matching tokens',
     'A token passes the type check of a parameter type if and only if it is the corresponding kind of value: fixed byte strings no longer than the type, fixed arrays of exactly the declared length, tuples of exactly the declared number of components, and every element or component matching in turn. A list of tokens matches a list of types only if the lengths agree and every position matches.',
     ['inputs'], 'all tokens and all types', 'Tests try a few dozen pairs of flat values.',
     ['ethabi/src/token/token.rs'], [('type_check, types_check', 'token/token.rs')])
prop('C08', 'Encoding only succeeds for arguments matching the declaration',
     'Encoding a function call or constructor call succeeds exactly when the supplied tokens match the declared inputs in number and type, and fails with an error otherwise. A successful call encoding is the selector (or the constructor code) followed by the encoding of precisely those tokens; decoding inputs and outputs uses the declared input and output types in order.',
     ['inputs'], 'all declarations and all token lists', 'Tests encode a handful of matching calls and few mismatching ones.',
     ['ethabi/src/function.rs', 'ethabi/src/constructor.rs'], [('types_check before encode', 'function.rs: encode_input; constructor.rs: encode_input')])
prop('C09', 'Static and dynamic types are classified by the ABI rules',
     'Bytes, strings and variable-length arrays are dynamic; fixed arrays are dynamic exactly when their element is, tuples exactly when one of their components is; everything else is static. Types and tokens are classified by the same rules.',
     ['inputs'], 'all types and tokens of any nesting', 'Tests check a dozen types.',
     ['ethabi/src/param_type/param_type.rs', 'ethabi/src/token/token.rs'], [('is_dynamic', 'param_type.rs, token.rs')])
prop('C10', 'Encoded bytes have the ABI head and tail layout',
     'The encoding of a token list is the concatenation of its heads followed by its tails: static values are in place, every dynamic value is replaced by a 32-byte offset counted from the start of its enclosing sequence, and its tail carries the length (for arrays, bytes and strings) and contents padded to 32 bytes. This holds recursively for arrays, fixed arrays and tuples in any nesting.',
     ['inputs'], 'all token lists', 'Tests compare fixed vectors; nesting and sizes are unbounded.',
     ['ethabi/src/encoder.rs', 'ethabi/src/util.rs'], [('head/tail mediation', 'encoder.rs: Mediate, encode_head_tail, encode_token')])
prop('C11', 'Decoding reads each value from its ABI position',
     'Decoding reads every value from the position the ABI layout assigns to it: static values from consecutive words, dynamic values at the offset stored in their head relative to the start of the enclosing sequence, elements in order, each with the kind of value its type declares. Data that is too short, has out-of-range offsets or lengths, or is empty where values are required is an error.',
     ['inputs'], 'all byte strings and all type lists', 'Tests decode fixed vectors of limited nesting.',
     ['ethabi/src/decoder.rs'], [('decode_param, decode', 'decoder.rs')])
prop('C12', 'Selectors and event topics are hashes of canonical signatures',
     'The selector of a function is the first four bytes of the Keccak-256 hash of its name followed by the canonical names of its input types, comma-separated in parentheses, in declaration order; the topic of an event is the full hash of its name and all its parameter types, indexed or not. Parameter names, outputs and mutability never influence them.',
     ['inputs'], 'all functions and events', 'Tests check a few signatures.',
     ['ethabi/src/signature.rs', 'ethabi/src/function.rs', 'ethabi/src/event.rs'], [('short_signature, long_signature', 'signature.rs')])
prop('C13', 'JSON parameters are read and written without loss',
     'Reading a parameter, event parameter or tuple component from JSON takes its name, type, indexed flag and components from the keys of those names in any order, keeps tuple components of arrays at any depth, ignores unknown keys, and rejects repeated or missing required keys. Writing it produces the same keys with the canonical type name and components, in a form that reads back.',
     ['inputs'], 'all JSON objects: any key order, any unknown keys, any nesting', 'Tests contain a few fixed documents with one key order.',
     ['ethabi/src/param.rs', 'ethabi/src/event_param.rs', 'ethabi/src/tuple_param.rs'],
     [('map visitors', 'param.rs, event_param.rs, tuple_param.rs: visit_map'), ('serializers', 'param.rs: Serialize')])
prop('C14', 'Loading a contract keeps every declared operation',
     'Loading a JSON contract keeps every function and event of the document, overloads in document order under their name, together with the constructor and the receive and fallback flags. Lookups return what was declared under exactly that name or an error, iteration yields every function and event, and writing the contract writes them all.',
     ['inputs'], 'all contract documents', 'Tests load a few small contracts.',
     ['ethabi/src/contract.rs', 'ethabi/src/operation.rs'], [('ContractVisitor, lookup functions', 'contract.rs'), ('operation tags', 'operation.rs')])
prop('C15', 'Parsing a log validates it and returns its parameters in order',
     'Parsing a log succeeds only if the signature topic matches (unless the event is anonymous), there is exactly one topic per indexed parameter, and the topics and data decode. The result has the declared parameters, in declaration order and with their names, indexed values taken from the topics in order (as hashes for dynamic or composite types) and the others from the data in order.',
     ['inputs'], 'all events and all logs, including repeated or empty parameter names', 'Tests parse a few logs with distinct names.',
     ['ethabi/src/event.rs'], [('parse_log', 'event.rs')])
prop('C16', 'Topic filters match the indexed parameters by position',
     'Creating a filter for an event puts the event signature first (unless the event is anonymous) and then the topic of the n-th indexed parameter in position n, wildcards preserved. A value of the wrong type or for a parameter that does not exist is an error; static values become their 32-byte encoding and dynamic or composite values the hash of their in-place encoding.',
     ['inputs'], 'all events and all filters', 'Tests build two filters.',
     ['ethabi/src/event.rs', 'ethabi/src/filter.rs'], [('Event::filter', 'event.rs'), ('Topic conversions', 'filter.rs')])
prop('C17', 'Generated bindings use the types and values of the declaration',
     'For every parameter type the derive macro generates a Rust type, a conversion into a token and a conversion back out of a token that agree with each other and with the declared ABI type, and logs of indexed dynamic parameters are hashes. Generated functions carry the declared names, inputs and outputs in order.',
     ['programs', 'inputs'], 'all contract documents given to the derive macro', 'Tests expand the macro for a few contracts.',
     ['derive/src'], [('code tables', 'derive/src/lib.rs, derive/src/function.rs, derive/src/event.rs')])
prop('C18', 'Results depend only on the arguments',
     'Encoding, decoding, signature computation and parsing have no side effects and no hidden inputs: no global mutable state, no file, network, clock, environment, thread or process access, no unsafe code. Equal arguments give equal results in any thread.',
     ['schedules', 'histories', 'inputs'], 'all call histories and interleavings of library calls', 'Tests run calls once in one order.',
     ['ethabi/src'], [('pure functions over borrowed data', 'ethabi/src')])
prop('C19', 'The command line tool applies library results faithfully',
     'Each subcommand loads exactly the named function or event (by name or full signature, rejecting unknown or ambiguous names), pairs parameter types with values in the given order without dropping any, and uses the lenient parser exactly when asked to. It prints every decoded value in order and reports any failure as an error.',
     ['inputs'], 'all command lines and documents', 'Tests run about thirty commands.',
     ['cli/src/main.rs'], [('subcommand functions', 'cli/src/main.rs')])
prop('C20', 'Array and tuple text is split into exactly its elements',
     'Array text must be enclosed in brackets and tuple text in parentheses, with balanced nesting; the elements are the parts between the separators of the outermost level, in order, quoted text being left alone, and each is parsed with the element or component type. Missing or superfluous elements of fixed arrays and tuples, and unbalanced text, are errors.',
     ['inputs'], 'all strings and all array, fixed array and tuple types', 'Tests contain a few arrays with limited nesting.',
     ['ethabi/src/token/mod.rs'], [('tokenize_array, tokenize_struct, tokenize_fixed_array', 'token/mod.rs')])
prop('C21', 'Rendered values denote the token they came from',
     'Rendering a token as text prints addresses, bytes and integers as lower-case hex without prefix, booleans and strings as they are, arrays in brackets and tuples in parentheses with comma-separated elements in order. No element is dropped or altered.',
     ['inputs'], 'all tokens', 'Tests render hardly any token.',
     ['ethabi/src/token/token.rs'], [('Display for Token', 'token.rs')])
prop('C22', 'A token gives up only a value of its own kind',
     'Taking a value out of a token (as an address, integer, byte string, boolean, string or array) returns the value the token holds when the token is of that kind, unchanged, and nothing for a token of any other kind; signed and unsigned integers, fixed and variable byte strings, fixed and variable arrays are never confused.',
     ['inputs'], 'all tokens', 'Tests hardly call these conversions.',
     ['ethabi/src/token/token.rs'], [('into_* conversions', 'token/token.rs')])
prop('C23', 'Encoding, checking, describing and loading never panic',
     'Encoding any token list or call, checking tokens against types, computing signatures, building topic filters, rendering types and tokens, reading and writing JSON declarations and looking up contract entries return a value or an error for every argument. They never panic on an index, a slice, a missing value or a failed expectation.',
     ['inputs'], 'all tokens, types, declarations and JSON documents', 'Tests run these functions on a few dozen regular arguments.',
     ['ethabi/src/encoder.rs', 'ethabi/src/token/token.rs', 'ethabi/src/event.rs', 'ethabi/src/param_type/writer.rs', 'ethabi/src/param.rs', 'ethabi/src/contract.rs'],
     [('length checks before conversions', 'event.rs: filter, convert_token'), ('total matches over all kinds', 'encoder.rs, token.rs, writer.rs')])
prop('N01', 'Decoding inverts encoding value for value',
     'Decoding the encoding of any well-typed token list with its types gives back the same tokens.',
     ['inputs'], 'all well-typed token lists', 'Tests round-trip a few vectors.',
     ['ethabi/src/encoder.rs', 'ethabi/src/decoder.rs'], [('encode and decode share one layout', 'encoder.rs, decoder.rs')],
     na='Equality of values through two recursive functions needs an induction over unbounded token trees; a sound static argument in reach only shows that each side follows the reference layout, which C09, C10 and C11 decide separately.')
prop('N02', 'Total decoding work is proportional to the data',
     'The memory and time used to decode is bounded by a constant factor of the data size and type size, even when offsets alias.',
     ['inputs'], 'all byte strings and types', 'No test measures resources.',
     ['ethabi/src/decoder.rs'], [('none: aliased offsets may multiply work per nesting level', 'decoder.rs')],
     na='Depends on run-time quantities (how often offsets alias the same tail at each nesting level) that no static bound in reach captures; the per-array bound is decided under C02.')
prop('N03', 'Nesting depth cannot exhaust the stack',
     'Parsing, encoding and decoding deeply nested types or values terminates without exhausting the call stack.',
     ['inputs'], 'all nesting depths', 'Tests nest at most a few levels.',
     ['ethabi/src/param_type/reader.rs', 'ethabi/src/decoder.rs', 'ethabi/src/token/mod.rs'], [('none: recursion follows the input', 'reader.rs, decoder.rs, token/mod.rs')],
     na='The recursion depth is a run-time quantity chosen by the input and the stack size a property of the caller; the code has no depth limit whose presence could be decided statically.')
