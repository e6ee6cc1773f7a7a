//! Reference for the binary codec: Solidity contract ABI specification, head/tail layout.
use ethabi::{Error, ParamType, Token};

type Word = [u8; 32];

// ---------------------------------------------------------------- static / dynamic
pub fn param_is_dynamic(t: &ParamType) -> bool {
    match t {
        ParamType::Bytes => true,
        ParamType::String => true,
        ParamType::Array(_) => true,
        ParamType::FixedArray(e, _) => param_is_dynamic(e),
        ParamType::Tuple(ts) => {
            for t in ts {
                if param_is_dynamic(t) {
                    return true;
                }
            }
            false
        }
        ParamType::Address | ParamType::Int(_) | ParamType::Uint(_) | ParamType::Bool | ParamType::FixedBytes(_) => false,
    }
}

pub fn token_is_dynamic(t: &Token) -> bool {
    match t {
        Token::Bytes(_) => true,
        Token::String(_) => true,
        Token::Array(_) => true,
        Token::FixedArray(ts) | Token::Tuple(ts) => {
            for t in ts {
                if token_is_dynamic(t) {
                    return true;
                }
            }
            false
        }
        Token::Address(_) | Token::Int(_) | Token::Uint(_) | Token::Bool(_) | Token::FixedBytes(_) => false,
    }
}

/// types whose encoding may be empty
pub fn empty_encoding(t: &ParamType) -> bool {
    match t {
        ParamType::FixedBytes(n) => *n == 0,
        ParamType::FixedArray(_, n) => *n == 0,
        _ => false,
    }
}

// ---------------------------------------------------------------- type check
pub fn token_type_check(token: &Token, ty: &ParamType) -> bool {
    match (token, ty) {
        (Token::Address(_), ParamType::Address) => true,
        (Token::Bytes(_), ParamType::Bytes) => true,
        (Token::String(_), ParamType::String) => true,
        (Token::Bool(_), ParamType::Bool) => true,
        (Token::Int(_), ParamType::Int(_)) => true,
        (Token::Uint(_), ParamType::Uint(_)) => true,
        (Token::FixedBytes(b), ParamType::FixedBytes(n)) => b.len() <= *n,
        (Token::Array(ts), ParamType::Array(e)) => {
            for t in ts {
                if !token_type_check(t, e) {
                    return false;
                }
            }
            true
        }
        (Token::FixedArray(ts), ParamType::FixedArray(e, n)) => {
            if ts.len() != *n {
                return false;
            }
            for t in ts {
                if !token_type_check(t, e) {
                    return false;
                }
            }
            true
        }
        (Token::Tuple(ts), ParamType::Tuple(tys)) => token_types_check(ts, tys),
        _ => false,
    }
}

pub fn token_types_check(tokens: &[Token], tys: &[ParamType]) -> bool {
    if tokens.len() != tys.len() {
        return false;
    }
    for i in 0..tys.len() {
        if !token_type_check(&tokens[i], &tys[i]) {
            return false;
        }
    }
    true
}

// ---------------------------------------------------------------- decoding
fn word(data: &[u8], at: usize) -> Result<&[u8], Error> {
    if at <= data.len() && data.len() - at >= 32 {
        Ok(&data[at..at + 32])
    } else {
        Err(Error::InvalidData)
    }
}

fn bytes_at(data: &[u8], at: usize, n: usize) -> Result<&[u8], Error> {
    if at <= data.len() && data.len() - at >= n {
        Ok(&data[at..at + n])
    } else {
        Err(Error::InvalidData)
    }
}

/// offset or length: a 32 bit big endian number in the last 4 bytes of a word
fn number(w: &[u8]) -> Result<usize, Error> {
    for i in 0..28 {
        if w[i] != 0 {
            return Err(Error::InvalidData);
        }
    }
    let mut n = [0u8; 4];
    n.copy_from_slice(&w[28..32]);
    Ok(u32::from_be_bytes(n) as usize)
}

fn padded(w: &[u8]) -> [u8; 32] {
    let mut out = [0u8; 32];
    out.copy_from_slice(w);
    out
}

pub fn decode_param(ty: &ParamType, data: &[u8], at: usize) -> Result<(Token, usize), Error> {
    match ty {
        ParamType::Address => {
            let w = word(data, at)?;
            let mut a = [0u8; 20];
            a.copy_from_slice(&w[12..32]);
            Ok((Token::Address(a.into()), at + 32))
        }
        ParamType::Int(_) => Ok((Token::Int(padded(word(data, at)?).into()), at + 32)),
        ParamType::Uint(_) => Ok((Token::Uint(padded(word(data, at)?).into()), at + 32)),
        ParamType::Bool => {
            let w = word(data, at)?;
            for i in 0..31 {
                if w[i] != 0 {
                    return Err(Error::InvalidData);
                }
            }
            Ok((Token::Bool(w[31] == 1), at + 32))
        }
        ParamType::FixedBytes(n) => Ok((Token::FixedBytes(bytes_at(data, at, *n)?.to_vec()), at + 32)),
        ParamType::Bytes => {
            let tail = number(word(data, at)?)?;
            let n = number(word(data, tail)?)?;
            Ok((Token::Bytes(bytes_at(data, tail + 32, n)?.to_vec()), at + 32))
        }
        ParamType::String => {
            let tail = number(word(data, at)?)?;
            let n = number(word(data, tail)?)?;
            let b = bytes_at(data, tail + 32, n)?;
            Ok((Token::String(String::from_utf8_lossy(b).into()), at + 32))
        }
        ParamType::Array(e) => {
            let tail = number(word(data, at)?)?;
            let n = number(word(data, tail)?)?;
            let body = &data[tail + 32..];
            if n > body.len() {
                return Err(Error::InvalidData);
            }
            let mut ts = vec![];
            let mut p = 0;
            for _ in 0..n {
                let (t, q) = decode_param(e, body, p)?;
                ts.push(t);
                p = q;
            }
            Ok((Token::Array(ts), at + 32))
        }
        ParamType::FixedArray(e, n) => {
            let mut ts = vec![];
            if ethabi_is_dynamic(ty) {
                let tail = number(word(data, at)?)?;
                if tail > data.len() {
                    return Err(Error::InvalidData);
                }
                let body = &data[tail..];
                let mut p = 0;
                for _ in 0..*n {
                    let (t, q) = decode_param(e, body, p)?;
                    ts.push(t);
                    p = q;
                }
                Ok((Token::FixedArray(ts), at + 32))
            } else {
                let mut p = at;
                for _ in 0..*n {
                    let (t, q) = decode_param(e, data, p)?;
                    ts.push(t);
                    p = q;
                }
                Ok((Token::FixedArray(ts), p))
            }
        }
        ParamType::Tuple(tys) => {
            let mut ts = vec![];
            if ethabi_is_dynamic(ty) {
                let tail = number(word(data, at)?)?;
                if tail > data.len() {
                    return Err(Error::InvalidData);
                }
                let body = &data[tail..];
                let mut p = 0;
                for t in tys {
                    let (t, q) = decode_param(t, body, p)?;
                    ts.push(t);
                    p = q;
                }
                Ok((Token::Tuple(ts), at + 32))
            } else {
                let mut p = at;
                for t in tys {
                    let (t, q) = decode_param(t, data, p)?;
                    ts.push(t);
                    p = q;
                }
                Ok((Token::Tuple(ts), p))
            }
        }
    }
}

fn ethabi_is_dynamic(t: &ParamType) -> bool {
    t.is_dynamic()
}

pub fn decode(tys: &[ParamType], data: &[u8]) -> Result<Vec<Token>, Error> {
    if data.is_empty() {
        for t in tys {
            if !t.is_empty_bytes_valid_encoding() {
                return Err(Error::InvalidData);
            }
        }
    }
    let mut ts = vec![];
    let mut p = 0;
    for t in tys {
        let (t, q) = decode_param(t, data, p)?;
        ts.push(t);
        p = q;
    }
    Ok(ts)
}

// ---------------------------------------------------------------- encoding
#[derive(Clone)]
pub enum Mediate {
    Raw(Vec<Word>),
    Prefixed(Vec<Word>),
    PrefixedArray(Vec<Mediate>),
    PrefixedArrayWithLength(Vec<Mediate>),
    RawTuple(Vec<Mediate>),
    PrefixedTuple(Vec<Mediate>),
}

fn number_word(n: u32) -> Word {
    let mut w = [0u8; 32];
    w[28..].copy_from_slice(&n.to_be_bytes());
    w
}

fn right_padded(b: &[u8]) -> Vec<Word> {
    let n = (b.len() + 31) / 32;
    let mut out = vec![];
    for i in 0..n {
        let mut w = [0u8; 32];
        if i < n - 1 {
            w.copy_from_slice(&b[32 * i..32 * i + 32]);
        } else {
            let rest = match b.len() % 32 {
                0 => 32,
                r => r,
            };
            w[..rest].copy_from_slice(&b[32 * i..32 * i + rest]);
        }
        out.push(w);
    }
    out
}

pub fn head_len(m: &Mediate) -> u32 {
    match m {
        Mediate::Raw(ws) => 32 * ws.len() as u32,
        Mediate::RawTuple(ms) => {
            let mut n = 0;
            for m in ms {
                n += head_len(m);
            }
            n
        }
        _ => 32,
    }
}

pub fn tail_len(m: &Mediate) -> u32 {
    match m {
        Mediate::Raw(_) | Mediate::RawTuple(_) => 0,
        Mediate::Prefixed(ws) => 32 * ws.len() as u32,
        Mediate::PrefixedArray(ms) | Mediate::PrefixedTuple(ms) => {
            let mut n = 0;
            for m in ms {
                n += head_len(m) + tail_len(m);
            }
            n
        }
        Mediate::PrefixedArrayWithLength(ms) => {
            let mut n = 32;
            for m in ms {
                n += head_len(m) + tail_len(m);
            }
            n
        }
    }
}

pub fn head(m: &Mediate, tail_at: u32) -> Vec<Word> {
    match m {
        Mediate::Raw(ws) => ws.clone(),
        Mediate::RawTuple(ms) => {
            let mut out = vec![];
            for m in ms {
                out.extend(head(m, 0));
            }
            out
        }
        _ => vec![number_word(tail_at)],
    }
}

pub fn tail(m: &Mediate) -> Vec<Word> {
    match m {
        Mediate::Raw(_) | Mediate::RawTuple(_) => vec![],
        Mediate::Prefixed(ws) => ws.clone(),
        Mediate::PrefixedArray(ms) | Mediate::PrefixedTuple(ms) => encode_head_tail(ms),
        Mediate::PrefixedArrayWithLength(ms) => {
            let mut out = vec![number_word(ms.len() as u32)];
            out.extend(encode_head_tail(ms));
            out
        }
    }
}

pub fn encode_head_tail(ms: &[Mediate]) -> Vec<Word> {
    let mut at = 0u32;
    for m in ms {
        at += head_len(m);
    }
    let mut out = vec![];
    for m in ms {
        out.extend(head(m, at));
        at += tail_len(m);
    }
    for m in ms {
        out.extend(tail(m));
    }
    out
}

pub fn encode_token(t: &Token) -> Mediate {
    match t {
        Token::Address(a) => {
            let mut w = [0u8; 32];
            w[12..].copy_from_slice(a.as_bytes());
            Mediate::Raw(vec![w])
        }
        Token::Uint(n) | Token::Int(n) => Mediate::Raw(vec![(*n).into()]),
        Token::Bool(b) => {
            let mut w = [0u8; 32];
            if *b {
                w[31] = 1;
            }
            Mediate::Raw(vec![w])
        }
        Token::FixedBytes(b) => Mediate::Raw(right_padded(b)),
        Token::Bytes(b) => {
            let mut ws = vec![number_word(b.len() as u32)];
            ws.extend(right_padded(b));
            Mediate::Prefixed(ws)
        }
        Token::String(s) => {
            let b = s.as_bytes();
            let mut ws = vec![number_word(b.len() as u32)];
            ws.extend(right_padded(b));
            Mediate::Prefixed(ws)
        }
        Token::Array(ts) => {
            let mut ms = vec![];
            for t in ts {
                ms.push(encode_token(t));
            }
            Mediate::PrefixedArrayWithLength(ms)
        }
        Token::FixedArray(ts) => {
            let mut ms = vec![];
            for t in ts {
                ms.push(encode_token(t));
            }
            if t.is_dynamic() {
                Mediate::PrefixedArray(ms)
            } else {
                Mediate::Raw(encode_head_tail(&ms))
            }
        }
        Token::Tuple(ts) => {
            let mut ms = vec![];
            for t in ts {
                ms.push(encode_token(t));
            }
            if t.is_dynamic() {
                Mediate::PrefixedTuple(ms)
            } else {
                Mediate::RawTuple(ms)
            }
        }
    }
}

pub fn encode(ts: &[Token]) -> Vec<u8> {
    let mut ms = vec![];
    for t in ts {
        ms.push(encode_token(t));
    }
    let mut out = vec![];
    for w in encode_head_tail(&ms) {
        out.extend_from_slice(&w);
    }
    out
}

/// types of which nothing is stored
pub fn empty_is_valid(t: &ParamType) -> bool {
    match t {
        ParamType::FixedBytes(n) | ParamType::FixedArray(_, n) => *n == 0,
        _ => false,
    }
}

macro_rules! into {
    ($($f:ident $v:ident $t:ty;)*) => {
        $(pub fn $f(t: Token) -> Option<$t> {
            if let Token::$v(x) = t { Some(x) } else { None }
        })*
    };
}
into! {
    into_address Address ethabi::Address;
    into_fixed_bytes FixedBytes Vec<u8>;
    into_bytes Bytes Vec<u8>;
    into_int Int ethabi::Int;
    into_uint Uint ethabi::Uint;
    into_bool Bool bool;
    into_string String String;
    into_fixed_array FixedArray Vec<Token>;
    into_array Array Vec<Token>;
}
