//! Reference for functions, constructors, events, logs, filters and contracts.
use crate::names::canonical_hash;
use ethabi::{
    decode, encode, Constructor, Contract, Error, Event, Function, Hash, Log, LogParam, ParamType, RawLog, RawTopicFilter,
    Token, Topic, TopicFilter,
};
use sha3::{Digest, Keccak256};

fn kinds(ps: &[ethabi::Param]) -> Vec<ParamType> {
    let mut out = vec![];
    for p in ps {
        out.push(p.kind.clone());
    }
    out
}

pub fn function_encode_input(f: &Function, tokens: &[Token]) -> Result<Vec<u8>, Error> {
    let types = kinds(&f.inputs);
    if !Token::types_check(tokens, &types) {
        return Err(Error::InvalidData);
    }
    let mut out = canonical_hash(&f.name, &types)[..4].to_vec();
    out.extend(encode(tokens));
    Ok(out)
}

pub fn function_decode_input(f: &Function, data: &[u8]) -> Result<Vec<Token>, Error> {
    decode(&kinds(&f.inputs), data)
}

pub fn function_decode_output(f: &Function, data: &[u8]) -> Result<Vec<Token>, Error> {
    decode(&kinds(&f.outputs), data)
}

pub fn constructor_encode_input(c: &Constructor, code: Vec<u8>, tokens: &[Token]) -> Result<Vec<u8>, Error> {
    if !Token::types_check(tokens, &kinds(&c.inputs)) {
        return Err(Error::InvalidData);
    }
    let mut out = code;
    out.extend(encode(tokens));
    Ok(out)
}

// ---------------------------------------------------------------- logs
fn topic_kind(k: &ParamType) -> ParamType {
    match k {
        ParamType::String | ParamType::Bytes | ParamType::Array(_) | ParamType::FixedArray(_, _) | ParamType::Tuple(_) => {
            ParamType::FixedBytes(32)
        }
        ParamType::Address | ParamType::Int(_) | ParamType::Uint(_) | ParamType::Bool | ParamType::FixedBytes(_) => k.clone(),
    }
}

pub fn event_parse_log(e: &Event, log: RawLog) -> Result<Log, Error> {
    let mut skip = 0;
    if !e.anonymous {
        if log.topics.is_empty() {
            return Err(Error::InvalidData);
        }
        if log.topics[0] != e.signature() {
            return Err(Error::InvalidData);
        }
        skip = 1;
    }
    let mut topic_types = vec![];
    for p in &e.inputs {
        if p.indexed {
            topic_types.push(topic_kind(&p.kind));
        }
    }
    let mut flat = vec![];
    for t in log.topics.iter().skip(skip) {
        flat.extend_from_slice(t.as_bytes());
    }
    let topic_tokens = decode(&topic_types, &flat)?;
    if topic_tokens.len() != log.topics.len() - skip {
        return Err(Error::InvalidData);
    }
    let mut data_types = vec![];
    for p in &e.inputs {
        if !p.indexed {
            data_types.push(p.kind.clone());
        }
    }
    let data_tokens = decode(&data_types, &log.data)?;
    let mut a = topic_tokens.into_iter();
    let mut b = data_tokens.into_iter();
    let mut params = vec![];
    for p in &e.inputs {
        let value = if p.indexed { a.next() } else { b.next() };
        match value {
            None => return Err(Error::InvalidData),
            Some(value) => params.push(LogParam { name: p.name.clone(), value }),
        }
    }
    Ok(Log { params })
}

// ---------------------------------------------------------------- filters
pub fn encode_in_place(t: &Token) -> Vec<u8> {
    match t {
        Token::Bytes(b) => b.clone(),
        Token::String(s) => s.as_bytes().to_vec(),
        Token::Array(ts) | Token::FixedArray(ts) | Token::Tuple(ts) => {
            let mut out = vec![];
            for t in ts {
                out.extend(encode_in_place(t));
                out.resize((out.len() + 31) / 32 * 32, 0);
            }
            out
        }
        Token::Address(_) | Token::Int(_) | Token::Uint(_) | Token::Bool(_) | Token::FixedBytes(_) => encode(&[t.clone()]),
    }
}

fn topic_hash(t: &Token, kind: &ParamType) -> Result<Hash, Error> {
    if !t.type_check(kind) {
        return Err(Error::InvalidData);
    }
    let b = encode_in_place(t);
    let value = match t {
        Token::Bytes(_) | Token::String(_) | Token::Array(_) | Token::FixedArray(_) | Token::Tuple(_) => false,
        Token::Address(_) | Token::Int(_) | Token::Uint(_) | Token::Bool(_) | Token::FixedBytes(_) => true,
    };
    if value && b.len() == 32 {
        Ok(Hash::from_slice(&b))
    } else {
        Ok(Hash::from_slice(&Keccak256::digest(&b)))
    }
}

fn topic_of(t: Topic<Token>, kind: Option<&ParamType>) -> Result<Topic<Hash>, Error> {
    match t {
        Topic::Any => Ok(Topic::Any),
        Topic::This(t) => match kind {
            Some(k) => Ok(Topic::This(topic_hash(&t, k)?)),
            None => Err(Error::InvalidData),
        },
        Topic::OneOf(ts) => match kind {
            Some(k) => {
                let mut out = vec![];
                for t in &ts {
                    out.push(topic_hash(t, k)?);
                }
                Ok(Topic::OneOf(out))
            }
            None => Err(Error::InvalidData),
        },
    }
}

pub fn event_filter(e: &Event, raw: RawTopicFilter) -> Result<TopicFilter, Error> {
    let mut ks = vec![];
    for p in &e.inputs {
        if p.indexed {
            ks.push(p.kind.clone());
        }
    }
    let a = topic_of(raw.topic0, ks.get(0))?;
    let b = topic_of(raw.topic1, ks.get(1))?;
    let c = topic_of(raw.topic2, ks.get(2))?;
    if e.anonymous {
        Ok(TopicFilter { topic0: a, topic1: b, topic2: c, topic3: Topic::Any })
    } else {
        Ok(TopicFilter { topic0: Topic::This(e.signature()), topic1: a, topic2: b, topic3: c })
    }
}

pub fn topic_is_any<T>(t: &Topic<T>) -> bool {
    match t {
        Topic::Any => true,
        _ => false,
    }
}

pub fn topic_default<T>() -> Topic<T> {
    Topic::Any
}

pub fn topic_into_vec<T>(t: Topic<T>) -> Vec<T> {
    match t {
        Topic::Any => vec![],
        Topic::This(h) => vec![h],
        Topic::OneOf(hs) => hs,
    }
}

pub fn topic_from_option<T>(o: Option<T>) -> Topic<T> {
    match o {
        Some(h) => Topic::This(h),
        None => Topic::Any,
    }
}

pub fn topic_from_one<T>(t: T) -> Topic<T> {
    Topic::This(t)
}

pub fn topic_from_vec<T>(ts: Vec<T>) -> Topic<T> {
    Topic::OneOf(ts)
}

pub fn topic_index<T>(t: &Topic<T>, i: usize) -> &T {
    match t {
        Topic::Any => panic!("no topic"),
        Topic::This(x) => {
            if i != 0 {
                panic!("no topic");
            }
            x
        }
        Topic::OneOf(xs) => &xs[i],
    }
}

pub fn topic_map_client(t: Topic<Token>) -> Topic<bool> {
    t.map(|x| x.is_dynamic())
}

pub fn topic_map(t: Topic<Token>) -> Topic<bool> {
    match t {
        Topic::Any => Topic::Any,
        Topic::This(x) => Topic::This(x.is_dynamic()),
        Topic::OneOf(xs) => {
            let mut out = vec![];
            for x in xs {
                out.push(x.is_dynamic());
            }
            Topic::OneOf(out)
        }
    }
}

pub fn rawlog_from(x: (Vec<Hash>, Vec<u8>)) -> RawLog {
    RawLog { topics: x.0, data: x.1 }
}

// ---------------------------------------------------------------- contract lookups
pub fn contract_function<'a>(c: &'a Contract, name: &str) -> Result<&'a Function, Error> {
    match c.functions.get(name) {
        Some(fs) if fs.len() > 0 => Ok(&fs[0]),
        _ => Err(Error::InvalidData),
    }
}

pub fn contract_event<'a>(c: &'a Contract, name: &str) -> Result<&'a Event, Error> {
    match c.events.get(name) {
        Some(es) if es.len() > 0 => Ok(&es[0]),
        _ => Err(Error::InvalidData),
    }
}

pub fn contract_functions_by_name<'a>(c: &'a Contract, name: &str) -> Result<&'a Vec<Function>, Error> {
    match c.functions.get(name) {
        Some(fs) => Ok(fs),
        None => Err(Error::InvalidData),
    }
}

pub fn contract_events_by_name<'a>(c: &'a Contract, name: &str) -> Result<&'a Vec<Event>, Error> {
    match c.events.get(name) {
        Some(es) => Ok(es),
        None => Err(Error::InvalidData),
    }
}

pub fn contract_constructor(c: &Contract) -> Option<&Constructor> {
    match &c.constructor {
        Some(c) => Some(c),
        None => None,
    }
}

/// what a caller sees when iterating over the functions and events of a contract
pub fn functions_client(c: &Contract) -> Vec<&Function> {
    let mut out = vec![];
    for f in c.functions() {
        out.push(f);
    }
    out
}

pub fn contract_functions(c: &Contract) -> Vec<&Function> {
    let mut out = vec![];
    for fs in c.functions.values() {
        for f in fs {
            out.push(f);
        }
    }
    out
}

pub fn events_client(c: &Contract) -> Vec<&Event> {
    let mut out = vec![];
    for f in c.events() {
        out.push(f);
    }
    out
}

pub fn contract_events(c: &Contract) -> Vec<&Event> {
    let mut out = vec![];
    for fs in c.events.values() {
        for f in fs {
            out.push(f);
        }
    }
    out
}

pub fn contract_load<T: std::io::Read>(reader: T) -> Result<Contract, Error> {
    match serde_json::from_reader(reader) {
        Ok(c) => Ok(c),
        Err(_) => Err(Error::InvalidData),
    }
}
