//! What the command line tool does with its arguments.
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use ethabi::{Contract, Event, Function, Hash, ParamType, Token};
use sha3::{Digest, Keccak256};
use std::fs::File;

pub fn hash_signature(sig: &str) -> Hash {
    let text = sig.replace(" ", "");
    Hash::from_slice(Keccak256::digest(text.as_bytes()).as_slice())
}

fn open(path: &str) -> anyhow::Result<Contract> {
    let file = File::open(path)?;
    Ok(Contract::load(file)?)
}

pub fn load_function(path: &str, which: &str) -> anyhow::Result<Function> {
    let contract = open(path)?;
    match which.find('(') {
        None => {
            let fs = contract.functions_by_name(which)?;
            if fs.len() == 0 {
                unreachable!();
            }
            if fs.len() > 1 {
                return Err(anyhow::anyhow!("ambiguous"));
            }
            Ok(fs[0].clone())
        }
        Some(at) => {
            for f in contract.functions_by_name(&which[..at])? {
                if f.signature() == which {
                    return Ok(f.clone());
                }
            }
            Err(anyhow::anyhow!("unknown"))
        }
    }
}

pub fn load_event(path: &str, which: &str) -> anyhow::Result<Event> {
    let contract = open(path)?;
    match which.find('(') {
        None => {
            let es = contract.events_by_name(which)?;
            if es.len() == 0 {
                unreachable!();
            }
            if es.len() > 1 {
                return Err(anyhow::anyhow!("ambiguous"));
            }
            Ok(es[0].clone())
        }
        Some(at) => {
            let wanted = hash_signature(which);
            for e in contract.events_by_name(&which[..at])? {
                if e.signature() == wanted {
                    return Ok(e.clone());
                }
            }
            Err(anyhow::anyhow!("unknown"))
        }
    }
}

fn token(kind: &ParamType, text: &str, lenient: bool) -> anyhow::Result<Token> {
    Ok(if lenient { LenientTokenizer::tokenize(kind, text)? } else { StrictTokenizer::tokenize(kind, text)? })
}

pub fn parse_tokens(params: &[(ParamType, &str)], lenient: bool) -> anyhow::Result<Vec<Token>> {
    let mut out = vec![];
    for (kind, text) in params {
        out.push(token(kind, text, lenient)?);
    }
    Ok(out)
}

pub fn encode_input(path: &str, which: &str, values: &[String], lenient: bool) -> anyhow::Result<String> {
    let f = load_function(path, which)?;
    if f.inputs.len() != values.len() {
        return Err(anyhow::anyhow!("number of values"));
    }
    let mut params = vec![];
    for i in 0..values.len() {
        params.push((f.inputs[i].kind.clone(), values[i].as_str()));
    }
    let tokens = parse_tokens(&params, lenient)?;
    Ok(hex::encode(&f.encode_input(&tokens)?))
}

pub fn encode_params(params: &[String], lenient: bool) -> anyhow::Result<String> {
    assert_eq!(params.len() % 2, 0);
    let mut pairs = vec![];
    for i in 0..params.len() / 2 {
        pairs.push((ethabi::param_type::Reader::read(&params[2 * i])?, params[2 * i + 1].as_str()));
    }
    let tokens = parse_tokens(&pairs, lenient)?;
    Ok(hex::encode(&ethabi::encode(&tokens)))
}

pub fn decode_call_output(path: &str, which: &str, data: &str) -> anyhow::Result<String> {
    let f = load_function(path, which)?;
    let data = hex::decode(data)?;
    let tokens = f.decode_output(&data)?;
    assert_eq!(f.outputs.len(), tokens.len());
    let mut lines = vec![];
    for i in 0..tokens.len() {
        lines.push(format!("{} {}", f.outputs[i].kind, tokens[i]));
    }
    Ok(lines.join("\n"))
}

pub fn decode_params(types: &[String], data: &str) -> anyhow::Result<String> {
    let mut kinds = vec![];
    for t in types {
        kinds.push(ethabi::param_type::Reader::read(t)?);
    }
    let data = hex::decode(data)?;
    let tokens = ethabi::decode(&kinds, &data)?;
    assert_eq!(kinds.len(), tokens.len());
    let mut lines = vec![];
    for i in 0..tokens.len() {
        lines.push(format!("{} {}", kinds[i], tokens[i]));
    }
    Ok(lines.join("\n"))
}

pub fn decode_log(path: &str, which: &str, topics: &[String], data: &str) -> anyhow::Result<String> {
    let event = load_event(path, which)?;
    let mut hashes: Vec<Hash> = vec![];
    for t in topics {
        hashes.push(t.parse()?);
    }
    let data = hex::decode(data)?;
    let log = event.parse_log(ethabi::RawLog { topics: hashes, data })?;
    let mut lines = vec![];
    for p in log.params {
        lines.push(format!("{} {}", p.name, p.value));
    }
    Ok(lines.join("\n"))
}

/// What the command line says.
pub enum Opt {
    Encode(Encode),
    Decode(Decode),
}

pub enum Encode {
    Function { abi_path: String, function_name_or_signature: String, params: Vec<String>, lenient: bool },
    Params { params: Vec<String>, lenient: bool },
}

pub enum Decode {
    Function { abi_path: String, function_name_or_signature: String, data: String },
    Params { types: Vec<String>, data: String },
    Log { abi_path: String, event_name_or_signature: String, topics: Vec<String>, data: String },
}

fn command_line<I>(_args: I) -> Opt {
    unimplemented!()
}

pub fn execute<I>(args: I) -> anyhow::Result<String>
where
    I: IntoIterator,
    I::Item: Into<std::ffi::OsString> + Clone,
{
    match command_line(args) {
        Opt::Decode(what) => match what {
            Decode::Log { abi_path, event_name_or_signature, topics, data } => {
                decode_log(&abi_path, &event_name_or_signature, &topics, &data)
            }
            Decode::Function { abi_path, function_name_or_signature, data } => {
                decode_call_output(&abi_path, &function_name_or_signature, &data)
            }
            Decode::Params { types, data } => decode_params(&types, &data),
        },
        Opt::Encode(what) => match what {
            Encode::Params { params, lenient } => encode_params(&params, lenient),
            Encode::Function { abi_path, function_name_or_signature, params, lenient } => {
                encode_input(&abi_path, &function_name_or_signature, &params, lenient)
            }
        },
    }
}
