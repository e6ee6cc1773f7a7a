//! Reference for the textual forms of values.
use ethabi::token::{LenientTokenizer, StrictTokenizer, Tokenizer};
use ethabi::{Error, ParamType, Token, Uint};
use std::fmt;

macro_rules! tokenizer {
    ($m:ident, $t:ty) => {
pub mod $m {
use super::*;
pub fn tokenize(ty: &ParamType, s: &str) -> Result<Token, Error> {
    match ty {
        ParamType::Address => Ok(Token::Address(<$t as Tokenizer>::tokenize_address(s)?.into())),
        ParamType::String => Ok(Token::String(<$t as Tokenizer>::tokenize_string(s)?)),
        ParamType::Bool => Ok(Token::Bool(<$t as Tokenizer>::tokenize_bool(s)?)),
        ParamType::Bytes => Ok(Token::Bytes(<$t as Tokenizer>::tokenize_bytes(s)?)),
        ParamType::FixedBytes(n) => Ok(Token::FixedBytes(<$t as Tokenizer>::tokenize_fixed_bytes(s, *n)?)),
        ParamType::Uint(_) => Ok(Token::Uint(<$t as Tokenizer>::tokenize_uint(s)?.into())),
        ParamType::Int(_) => Ok(Token::Int(<$t as Tokenizer>::tokenize_int(s)?.into())),
        ParamType::Array(e) => Ok(Token::Array(<$t as Tokenizer>::tokenize_array(s, e)?)),
        ParamType::FixedArray(e, n) => Ok(Token::FixedArray(<$t as Tokenizer>::tokenize_fixed_array(s, e, *n)?)),
        ParamType::Tuple(ts) => Ok(Token::Tuple(<$t as Tokenizer>::tokenize_struct(s, ts)?)),
    }
}

pub fn tokenize_fixed_array(s: &str, e: &ParamType, n: usize) -> Result<Vec<Token>, Error> {
    let ts = <$t as Tokenizer>::tokenize_array(s, e)?;
    if ts.len() != n {
        return Err(Error::InvalidData);
    }
    Ok(ts)
}

pub fn tokenize_array(s: &str, e: &ParamType) -> Result<Vec<Token>, Error> {
    if !(s.starts_with('[') && s.ends_with(']')) {
        return Err(Error::InvalidData);
    }
    if s.chars().count() == 2 {
        return Ok(vec![]);
    }
    let mut out = vec![];
    let mut depth = 0isize;
    let mut quoted = false;
    let mut start = 1;
    for (i, c) in s.char_indices() {
        if c == '"' {
            quoted = !quoted;
        } else if !quoted {
            if c == '[' {
                depth += 1;
            } else if c == ']' {
                depth -= 1;
                if depth < 0 {
                    return Err(Error::InvalidData);
                }
                if depth == 0 {
                    if i + 1 != s.len() {
                        return Err(Error::InvalidData);
                    }
                    out.push(<$t as Tokenizer>::tokenize(e, &s[start..i])?);
                    start = i + 1;
                }
            } else if c == ',' && depth == 1 {
                out.push(<$t as Tokenizer>::tokenize(e, &s[start..i])?);
                start = i + 1;
            }
        }
    }
    if quoted || depth != 0 {
        return Err(Error::InvalidData);
    }
    Ok(out)
}

pub fn tokenize_struct(s: &str, tys: &[ParamType]) -> Result<Vec<Token>, Error> {
    if !(s.starts_with('(') && s.ends_with(')')) {
        return Err(Error::InvalidData);
    }
    if s.chars().count() == 2 && tys.is_empty() {
        return Ok(vec![]);
    }
    let mut out = vec![];
    let mut depth = 0isize;
    let mut quoted = false;
    let mut start = 1;
    let mut members = tys.iter();
    for (i, c) in s.char_indices() {
        if c == '"' {
            quoted = !quoted;
        } else if !quoted {
            if c == '(' {
                depth += 1;
            } else if c == ')' {
                depth -= 1;
                if depth < 0 {
                    return Err(Error::InvalidData);
                }
                if depth == 0 {
                    if i + 1 != s.len() {
                        return Err(Error::InvalidData);
                    }
                    let ty = members.next().ok_or(Error::InvalidData)?;
                    out.push(<$t as Tokenizer>::tokenize(ty, &s[start..i])?);
                    start = i + 1;
                }
            } else if c == ',' && depth == 1 {
                let ty = members.next().ok_or(Error::InvalidData)?;
                out.push(<$t as Tokenizer>::tokenize(ty, &s[start..i])?);
                start = i + 1;
            }
        }
    }
    if quoted || depth != 0 {
        return Err(Error::InvalidData);
    }
    if members.next().is_some() {
        return Err(Error::InvalidData);
    }
    Ok(out)
}

}
    };
}
tokenizer!(strict, StrictTokenizer);
tokenizer!(lenient, LenientTokenizer);

// ---------------------------------------------------------------- strict
pub fn strict_address(s: &str) -> Result<[u8; 20], Error> {
    let b = hex::decode(s)?;
    if b.len() != 20 {
        return Err(Error::InvalidData);
    }
    let mut a = [0u8; 20];
    a.copy_from_slice(&b);
    Ok(a)
}

pub fn strict_string(s: &str) -> Result<String, Error> {
    Ok(String::from(s))
}

pub fn strict_bool(s: &str) -> Result<bool, Error> {
    if s == "true" || s == "1" {
        Ok(true)
    } else if s == "false" || s == "0" {
        Ok(false)
    } else {
        Err(Error::InvalidData)
    }
}

pub fn strict_bytes(s: &str) -> Result<Vec<u8>, Error> {
    Ok(hex::decode(s)?)
}

pub fn strict_fixed_bytes(s: &str, n: usize) -> Result<Vec<u8>, Error> {
    let b = hex::decode(s)?;
    if b.len() != n {
        return Err(Error::InvalidData);
    }
    Ok(b)
}

pub fn strict_uint(s: &str) -> Result<[u8; 32], Error> {
    let b = hex::decode(s)?;
    if b.len() != 32 {
        return Err(Error::InvalidData);
    }
    let mut a = [0u8; 32];
    a.copy_from_slice(&b);
    Ok(a)
}

pub fn strict_int(s: &str) -> Result<[u8; 32], Error> {
    strict_uint(s)
}

// ---------------------------------------------------------------- lenient
pub fn lenient_uint(s: &str) -> Result<[u8; 32], Error> {
    if let Ok(w) = StrictTokenizer::tokenize_uint(s) {
        return Ok(w);
    }
    Ok(Uint::from_dec_str(s)?.into())
}

pub fn lenient_int(s: &str) -> Result<[u8; 32], Error> {
    if let Ok(w) = StrictTokenizer::tokenize_int(s) {
        return Ok(w);
    }
    let abs = Uint::from_dec_str(s.trim_start_matches('-'))?;
    let max = Uint::max_value() / 2;
    if s.starts_with('-') {
        if abs.is_zero() {
            return Ok(abs.into());
        }
        if abs > max + 1 {
            return Err(Error::InvalidData);
        }
        return Ok((!abs + 1).into());
    }
    if abs > max {
        return Err(Error::InvalidData);
    }
    Ok(abs.into())
}

// ---------------------------------------------------------------- display
pub fn token_fmt(t: &Token, f: &mut fmt::Formatter) -> fmt::Result {
    match t {
        Token::Bool(b) => write!(f, "{}", b),
        Token::String(s) => write!(f, "{}", s),
        Token::Address(a) => write!(f, "{:x}", a),
        Token::Bytes(b) => write!(f, "{}", hex::encode(b)),
        Token::FixedBytes(b) => write!(f, "{}", hex::encode(b)),
        Token::Uint(n) => write!(f, "{:x}", n),
        Token::Int(n) => write!(f, "{:x}", n),
        Token::Array(ts) | Token::FixedArray(ts) => {
            let mut l = vec![];
            for t in ts {
                l.push(format!("{}", t));
            }
            write!(f, "[{}]", l.join(","))
        }
        Token::Tuple(ts) => {
            let mut l = vec![];
            for t in ts {
                l.push(format!("{}", t));
            }
            write!(f, "({})", l.join(","))
        }
    }
}
