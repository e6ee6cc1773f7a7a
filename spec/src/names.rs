//! Reference for type names and signatures.
use ethabi::{Error, Event, Function, Hash, ParamType};
use sha3::{Digest, Keccak256};
use std::fmt;

pub fn write_for_abi(t: &ParamType, full: bool) -> String {
    match t {
        ParamType::Address => String::from("address"),
        ParamType::Bytes => String::from("bytes"),
        ParamType::Bool => String::from("bool"),
        ParamType::String => String::from("string"),
        ParamType::Int(n) => format!("int{}", n),
        ParamType::Uint(n) => format!("uint{}", n),
        ParamType::FixedBytes(n) => format!("bytes{}", n),
        ParamType::Array(e) => format!("{}[]", write_for_abi(e, full)),
        ParamType::FixedArray(e, n) => format!("{}[{}]", write_for_abi(e, full), n),
        ParamType::Tuple(ts) => {
            if !full {
                return String::from("tuple");
            }
            let mut names = vec![];
            for t in ts {
                names.push(write_for_abi(t, true));
            }
            format!("({})", names.join(","))
        }
    }
}

/// canonical name, tuples spelled out
pub fn write(t: &ParamType) -> String {
    write_for_abi(t, true)
}

pub fn param_fmt(t: &ParamType, f: &mut fmt::Formatter) -> fmt::Result {
    f.write_str(&write(t))
}

pub fn read(name: &str) -> Result<ParamType, Error> {
    if name.ends_with(')') {
        if !name.starts_with('(') || name.len() < 2 {
            return Err(Error::InvalidData);
        }
        let inner = &name[1..name.len() - 1];
        let mut members = vec![];
        let mut depth = 0isize;
        let mut start = 0;
        for (i, c) in inner.char_indices() {
            if c == '(' {
                depth += 1;
            } else if c == ')' {
                depth -= 1;
                if depth < 0 {
                    return Err(Error::InvalidData);
                }
            } else if c == ',' && depth == 0 {
                if start < i {
                    members.push(read(&inner[start..i])?);
                }
                start = i + 1;
            }
        }
        if depth != 0 {
            return Err(Error::InvalidData);
        }
        if start < inner.len() {
            members.push(read(&inner[start..])?);
        }
        return Ok(ParamType::Tuple(members));
    }
    if name.ends_with(']') {
        let body = &name[..name.len() - 1];
        return match body.rfind('[') {
            None => Err(Error::InvalidData),
            Some(p) => {
                let size = &body[p + 1..];
                if size.is_empty() {
                    Ok(ParamType::Array(Box::new(read(&body[..p])?)))
                } else {
                    let n: usize = size.parse()?;
                    Ok(ParamType::FixedArray(Box::new(read(&body[..p])?), n))
                }
            }
        };
    }
    if name == "address" {
        return Ok(ParamType::Address);
    }
    if name == "bytes" {
        return Ok(ParamType::Bytes);
    }
    if name == "bool" {
        return Ok(ParamType::Bool);
    }
    if name == "string" {
        return Ok(ParamType::String);
    }
    if name == "tuple" {
        return Ok(ParamType::Tuple(vec![]));
    }
    if name == "int" {
        return Ok(ParamType::Int(256));
    }
    if name == "uint" {
        return Ok(ParamType::Uint(256));
    }
    if name.starts_with("int") {
        return Ok(ParamType::Int(name[3..].parse()?));
    }
    if name.starts_with("uint") {
        return Ok(ParamType::Uint(name[4..].parse()?));
    }
    if name.starts_with("bytes") {
        return Ok(ParamType::FixedBytes(name[5..].parse()?));
    }
    Err(Error::InvalidData)
}

// ---------------------------------------------------------------- signatures
pub fn canonical_hash(name: &str, types: &[ParamType]) -> [u8; 32] {
    let mut names = vec![];
    for t in types {
        names.push(ethabi::param_type::Writer::write(t));
    }
    let text = format!("{}({})", name, names.join(","));
    let mut out = [0u8; 32];
    out.copy_from_slice(&Keccak256::digest(text.as_bytes()));
    out
}

pub fn event_signature(e: &Event) -> Hash {
    let mut types = vec![];
    for p in &e.inputs {
        types.push(p.kind.clone());
    }
    canonical_hash(&e.name, &types).into()
}

pub fn function_signature(f: &Function) -> String {
    let mut inputs = vec![];
    for p in &f.inputs {
        inputs.push(format!("{}", p.kind));
    }
    let mut outputs = vec![];
    for p in &f.outputs {
        outputs.push(format!("{}", p.kind));
    }
    let outputs = outputs.join(",");
    if outputs.is_empty() {
        format!("{}({})", f.name, inputs.join(","))
    } else {
        format!("{}({}):({})", f.name, inputs.join(","), outputs)
    }
}
