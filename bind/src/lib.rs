//! written by gen.py
#![allow(deprecated, unused_imports, unused_mut, unused_variables, dead_code)]
use ethabi::{Address, Bytes, Constructor, Event, EventParam, Function, Hash, Int, Param, ParamType as PT, RawLog, RawTopicFilter, StateMutability, Token, Topic, TopicFilter, Uint};
use ethabi_contract::use_contract;
use_contract!(gen, "contract.json");
type R<T> = Result<T, ethabi::Error>;

fn fun_all_kinds() -> Function { Function { name: "allKinds".to_owned(), inputs: vec![Param { name: "a".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "b".to_owned(), kind: PT::Bytes, internal_type: None }, Param { name: "c".to_owned(), kind: PT::FixedBytes(32), internal_type: None }, Param { name: "d".to_owned(), kind: PT::FixedBytes(4), internal_type: None }, Param { name: "e".to_owned(), kind: PT::Int(64), internal_type: None }, Param { name: "f".to_owned(), kind: PT::Uint(256), internal_type: None }, Param { name: "g".to_owned(), kind: PT::Bool, internal_type: None }, Param { name: "h".to_owned(), kind: PT::String, internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "b".to_owned(), kind: PT::Bytes, internal_type: None }, Param { name: "c".to_owned(), kind: PT::FixedBytes(32), internal_type: None }, Param { name: "d".to_owned(), kind: PT::FixedBytes(4), internal_type: None }, Param { name: "e".to_owned(), kind: PT::Int(64), internal_type: None }, Param { name: "f".to_owned(), kind: PT::Uint(256), internal_type: None }, Param { name: "g".to_owned(), kind: PT::Bool, internal_type: None }, Param { name: "h".to_owned(), kind: PT::String, internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_all_kinds(a0: Address, a1: Bytes, a2: Hash, a3: [u8; 4], a4: Int, a5: Uint, a6: bool, a7: String) -> Bytes { gen::functions::all_kinds::encode_input(a0, a1, a2, a3, a4, a5, a6, a7) }
pub fn want_enc_all_kinds(a0: Address, a1: Bytes, a2: Hash, a3: [u8; 4], a4: Int, a5: Uint, a6: bool, a7: String) -> Bytes { fun_all_kinds().encode_input(&[Token::Address(a0), Token::Bytes(a1), Token::FixedBytes(a2.as_bytes().to_vec()), Token::FixedBytes(a3.to_vec()), Token::Int(a4), Token::Uint(a5), Token::Bool(a6), Token::String(a7)]).unwrap() }
pub fn call_all_kinds(a0: Address, a1: Bytes, a2: Hash, a3: [u8; 4], a4: Int, a5: Uint, a6: bool, a7: String) -> Bytes { gen::functions::all_kinds::call(a0, a1, a2, a3, a4, a5, a6, a7).0 }
pub fn want_call_all_kinds(a0: Address, a1: Bytes, a2: Hash, a3: [u8; 4], a4: Int, a5: Uint, a6: bool, a7: String) -> Bytes { fun_all_kinds().encode_input(&[Token::Address(a0), Token::Bytes(a1), Token::FixedBytes(a2.as_bytes().to_vec()), Token::FixedBytes(a3.to_vec()), Token::Int(a4), Token::Uint(a5), Token::Bool(a6), Token::String(a7)]).unwrap() }
pub fn dec_all_kinds(data: &[u8]) -> R<(Address, Bytes, Hash, [u8; 4], Int, Uint, bool, String)> { gen::functions::all_kinds::decode_output(data) }
pub fn want_dec_all_kinds(data: &[u8]) -> R<(Address, Bytes, Hash, [u8; 4], Int, Uint, bool, String)> { let mut it = fun_all_kinds().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); v.into_address().unwrap() }, { let v = it.next().unwrap(); v.into_bytes().unwrap() }, { let v = it.next().unwrap(); Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 4]; r.copy_from_slice(&v); r } }, { let v = it.next().unwrap(); v.into_int().unwrap() }, { let v = it.next().unwrap(); v.into_uint().unwrap() }, { let v = it.next().unwrap(); v.into_bool().unwrap() }, { let v = it.next().unwrap(); v.into_string().unwrap() })) }
pub fn then_all_kinds(a0: Address, a1: Bytes, a2: Hash, a3: [u8; 4], a4: Int, a5: Uint, a6: bool, a7: String, data: &[u8]) -> R<(Address, Bytes, Hash, [u8; 4], Int, Uint, bool, String)> { ethabi::FunctionOutputDecoder::decode(&gen::functions::all_kinds::call(a0, a1, a2, a3, a4, a5, a6, a7).1, data) }
pub fn want_then_all_kinds(a0: Address, a1: Bytes, a2: Hash, a3: [u8; 4], a4: Int, a5: Uint, a6: bool, a7: String, data: &[u8]) -> R<(Address, Bytes, Hash, [u8; 4], Int, Uint, bool, String)> { let _ = fun_all_kinds().encode_input(&[Token::Address(a0), Token::Bytes(a1), Token::FixedBytes(a2.as_bytes().to_vec()), Token::FixedBytes(a3.to_vec()), Token::Int(a4), Token::Uint(a5), Token::Bool(a6), Token::String(a7)]).unwrap(); want_dec_all_kinds(data) }
fn fun_set_values() -> Function { Function { name: "set_values".to_owned(), inputs: vec![Param { name: "xs".to_owned(), kind: PT::Array(Box::new(PT::Uint(256))), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedArray(Box::new(PT::Address), 3), internal_type: None }, Param { name: "someNames".to_owned(), kind: PT::Array(Box::new(PT::String)), internal_type: None }, Param { name: "self".to_owned(), kind: PT::Array(Box::new(PT::FixedBytes(4))), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Array(Box::new(PT::Uint(256))), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedArray(Box::new(PT::Address), 3), internal_type: None }, Param { name: "".to_owned(), kind: PT::Array(Box::new(PT::FixedBytes(32))), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedArray(Box::new(PT::Bool), 2), internal_type: None }], constant: false, state_mutability: StateMutability::NonPayable } }
pub fn enc_set_values(a0: Vec<Uint>, a1: [Address; 3], a2: Vec<String>, a3: Vec<[u8; 4]>) -> Bytes { gen::functions::set_values::encode_input(a0, a1, a2, a3) }
pub fn want_enc_set_values(a0: Vec<Uint>, a1: [Address; 3], a2: Vec<String>, a3: Vec<[u8; 4]>) -> Bytes { fun_set_values().encode_input(&[Token::Array(a0.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::Address(x)).collect()), Token::Array(a2.into_iter().map(|x| Token::String(x)).collect()), Token::Array(a3.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect())]).unwrap() }
pub fn call_set_values(a0: Vec<Uint>, a1: [Address; 3], a2: Vec<String>, a3: Vec<[u8; 4]>) -> Bytes { gen::functions::set_values::call(a0, a1, a2, a3).0 }
pub fn want_call_set_values(a0: Vec<Uint>, a1: [Address; 3], a2: Vec<String>, a3: Vec<[u8; 4]>) -> Bytes { fun_set_values().encode_input(&[Token::Array(a0.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::Address(x)).collect()), Token::Array(a2.into_iter().map(|x| Token::String(x)).collect()), Token::Array(a3.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect())]).unwrap() }
pub fn dec_set_values(data: &[u8]) -> R<(Vec<Uint>, [Address; 3], Vec<Hash>, [bool; 2])> { gen::functions::set_values::decode_output(data) }
pub fn want_dec_set_values(data: &[u8]) -> R<(Vec<Uint>, [Address; 3], Vec<Hash>, [bool; 2])> { let mut it = fun_set_values().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| x.into_uint().unwrap()).collect::<Vec<_>>() }, { let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_address().unwrap() }, { let x = it.next().unwrap(); x.into_address().unwrap() }, { let x = it.next().unwrap(); x.into_address().unwrap() }] } }, { let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| Hash::from({ let v = x.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r })).collect::<Vec<_>>() }, { let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_bool().unwrap() }, { let x = it.next().unwrap(); x.into_bool().unwrap() }] } })) }
pub fn then_set_values(a0: Vec<Uint>, a1: [Address; 3], a2: Vec<String>, a3: Vec<[u8; 4]>, data: &[u8]) -> R<(Vec<Uint>, [Address; 3], Vec<Hash>, [bool; 2])> { ethabi::FunctionOutputDecoder::decode(&gen::functions::set_values::call(a0, a1, a2, a3).1, data) }
pub fn want_then_set_values(a0: Vec<Uint>, a1: [Address; 3], a2: Vec<String>, a3: Vec<[u8; 4]>, data: &[u8]) -> R<(Vec<Uint>, [Address; 3], Vec<Hash>, [bool; 2])> { let _ = fun_set_values().encode_input(&[Token::Array(a0.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::Address(x)).collect()), Token::Array(a2.into_iter().map(|x| Token::String(x)).collect()), Token::Array(a3.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect())]).unwrap(); want_dec_set_values(data) }
fn fun_nested() -> Function { Function { name: "nested".to_owned(), inputs: vec![Param { name: "m".to_owned(), kind: PT::Array(Box::new(PT::Array(Box::new(PT::Uint(8))))), internal_type: None }, Param { name: "n".to_owned(), kind: PT::Array(Box::new(PT::FixedArray(Box::new(PT::Bool), 2))), internal_type: None }, Param { name: "o".to_owned(), kind: PT::FixedArray(Box::new(PT::Array(Box::new(PT::Int(8)))), 2), internal_type: None }, Param { name: "p".to_owned(), kind: PT::FixedArray(Box::new(PT::FixedArray(Box::new(PT::FixedBytes(32)), 1)), 2), internal_type: None }, Param { name: "q".to_owned(), kind: PT::Array(Box::new(PT::Array(Box::new(PT::Array(Box::new(PT::String)))))), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Array(Box::new(PT::Array(Box::new(PT::Uint(8))))), internal_type: None }, Param { name: "".to_owned(), kind: PT::Array(Box::new(PT::FixedArray(Box::new(PT::Bool), 2))), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedArray(Box::new(PT::Array(Box::new(PT::Int(8)))), 2), internal_type: None }], constant: false, state_mutability: StateMutability::Pure } }
pub fn enc_nested(a0: Vec<Vec<Uint>>, a1: Vec<[bool; 2]>, a2: [Vec<Int>; 2], a3: [[Hash; 1]; 2], a4: Vec<Vec<Vec<String>>>) -> Bytes { gen::functions::nested::encode_input(a0, a1, a2, a3, a4) }
pub fn want_enc_nested(a0: Vec<Vec<Uint>>, a1: Vec<[bool; 2]>, a2: [Vec<Int>; 2], a3: [[Hash; 1]; 2], a4: Vec<Vec<Vec<String>>>) -> Bytes { fun_nested().encode_input(&[Token::Array(a0.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Uint(x)).collect())).collect()), Token::Array(a1.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Bool(x)).collect())).collect()), Token::FixedArray(a2.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Int(x)).collect())).collect()), Token::FixedArray(a3.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::FixedBytes(x.as_bytes().to_vec())).collect())).collect()), Token::Array(a4.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::String(x)).collect())).collect())).collect())]).unwrap() }
pub fn call_nested(a0: Vec<Vec<Uint>>, a1: Vec<[bool; 2]>, a2: [Vec<Int>; 2], a3: [[Hash; 1]; 2], a4: Vec<Vec<Vec<String>>>) -> Bytes { gen::functions::nested::call(a0, a1, a2, a3, a4).0 }
pub fn want_call_nested(a0: Vec<Vec<Uint>>, a1: Vec<[bool; 2]>, a2: [Vec<Int>; 2], a3: [[Hash; 1]; 2], a4: Vec<Vec<Vec<String>>>) -> Bytes { fun_nested().encode_input(&[Token::Array(a0.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Uint(x)).collect())).collect()), Token::Array(a1.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Bool(x)).collect())).collect()), Token::FixedArray(a2.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Int(x)).collect())).collect()), Token::FixedArray(a3.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::FixedBytes(x.as_bytes().to_vec())).collect())).collect()), Token::Array(a4.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::String(x)).collect())).collect())).collect())]).unwrap() }
pub fn dec_nested(data: &[u8]) -> R<(Vec<Vec<Uint>>, Vec<[bool; 2]>, [Vec<Int>; 2])> { gen::functions::nested::decode_output(data) }
pub fn want_dec_nested(data: &[u8]) -> R<(Vec<Vec<Uint>>, Vec<[bool; 2]>, [Vec<Int>; 2])> { let mut it = fun_nested().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| x.into_array().unwrap().into_iter().map(|x| x.into_uint().unwrap()).collect::<Vec<_>>()).collect::<Vec<_>>() }, { let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_bool().unwrap() }, { let x = it.next().unwrap(); x.into_bool().unwrap() }] }).collect::<Vec<_>>() }, { let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| x.into_int().unwrap()).collect::<Vec<_>>() }, { let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| x.into_int().unwrap()).collect::<Vec<_>>() }] } })) }
pub fn then_nested(a0: Vec<Vec<Uint>>, a1: Vec<[bool; 2]>, a2: [Vec<Int>; 2], a3: [[Hash; 1]; 2], a4: Vec<Vec<Vec<String>>>, data: &[u8]) -> R<(Vec<Vec<Uint>>, Vec<[bool; 2]>, [Vec<Int>; 2])> { ethabi::FunctionOutputDecoder::decode(&gen::functions::nested::call(a0, a1, a2, a3, a4).1, data) }
pub fn want_then_nested(a0: Vec<Vec<Uint>>, a1: Vec<[bool; 2]>, a2: [Vec<Int>; 2], a3: [[Hash; 1]; 2], a4: Vec<Vec<Vec<String>>>, data: &[u8]) -> R<(Vec<Vec<Uint>>, Vec<[bool; 2]>, [Vec<Int>; 2])> { let _ = fun_nested().encode_input(&[Token::Array(a0.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Uint(x)).collect())).collect()), Token::Array(a1.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Bool(x)).collect())).collect()), Token::FixedArray(a2.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Int(x)).collect())).collect()), Token::FixedArray(a3.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::FixedBytes(x.as_bytes().to_vec())).collect())).collect()), Token::Array(a4.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::String(x)).collect())).collect())).collect())]).unwrap(); want_dec_nested(data) }
fn fun_no_args() -> Function { Function { name: "noArgs".to_owned(), inputs: vec![], outputs: vec![], constant: false, state_mutability: StateMutability::Payable } }
pub fn enc_no_args() -> Bytes { gen::functions::no_args::encode_input() }
pub fn want_enc_no_args() -> Bytes { fun_no_args().encode_input(&[]).unwrap() }
pub fn call_no_args() -> Bytes { gen::functions::no_args::call().0 }
pub fn want_call_no_args() -> Bytes { fun_no_args().encode_input(&[]).unwrap() }
pub fn dec_no_args(data: &[u8]) -> R<()> { gen::functions::no_args::decode_output(data) }
pub fn want_dec_no_args(_data: &[u8]) -> R<()> { Ok(()) }
pub fn then_no_args(data: &[u8]) -> R<()> { ethabi::FunctionOutputDecoder::decode(&gen::functions::no_args::call().1, data) }
pub fn want_then_no_args(data: &[u8]) -> R<()> { let _ = fun_no_args().encode_input(&[]).unwrap(); want_dec_no_args(data) }
fn fun_swap() -> Function { Function { name: "swap".to_owned(), inputs: vec![Param { name: "x".to_owned(), kind: PT::Uint(128), internal_type: None }, Param { name: "y".to_owned(), kind: PT::Uint(128), internal_type: None }], outputs: vec![Param { name: "y".to_owned(), kind: PT::Uint(128), internal_type: None }, Param { name: "x".to_owned(), kind: PT::Uint(128), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_swap(a0: Uint, a1: Uint) -> Bytes { gen::functions::swap::encode_input(a0, a1) }
pub fn want_enc_swap(a0: Uint, a1: Uint) -> Bytes { fun_swap().encode_input(&[Token::Uint(a0), Token::Uint(a1)]).unwrap() }
pub fn call_swap(a0: Uint, a1: Uint) -> Bytes { gen::functions::swap::call(a0, a1).0 }
pub fn want_call_swap(a0: Uint, a1: Uint) -> Bytes { fun_swap().encode_input(&[Token::Uint(a0), Token::Uint(a1)]).unwrap() }
pub fn dec_swap(data: &[u8]) -> R<(Uint, Uint)> { gen::functions::swap::decode_output(data) }
pub fn want_dec_swap(data: &[u8]) -> R<(Uint, Uint)> { let mut it = fun_swap().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); v.into_uint().unwrap() }, { let v = it.next().unwrap(); v.into_uint().unwrap() })) }
pub fn then_swap(a0: Uint, a1: Uint, data: &[u8]) -> R<(Uint, Uint)> { ethabi::FunctionOutputDecoder::decode(&gen::functions::swap::call(a0, a1).1, data) }
pub fn want_then_swap(a0: Uint, a1: Uint, data: &[u8]) -> R<(Uint, Uint)> { let _ = fun_swap().encode_input(&[Token::Uint(a0), Token::Uint(a1)]).unwrap(); want_dec_swap(data) }
fn fun_widths() -> Function { Function { name: "widths".to_owned(), inputs: vec![Param { name: "x".to_owned(), kind: PT::Uint(8), internal_type: None }, Param { name: "y".to_owned(), kind: PT::Int(256), internal_type: None }, Param { name: "z".to_owned(), kind: PT::FixedBytes(1), internal_type: None }, Param { name: "w".to_owned(), kind: PT::FixedBytes(31), internal_type: None }], outputs: vec![Param { name: "z".to_owned(), kind: PT::FixedBytes(1), internal_type: None }, Param { name: "w".to_owned(), kind: PT::FixedBytes(31), internal_type: None }], constant: false, state_mutability: StateMutability::Pure } }
pub fn enc_widths(a0: Uint, a1: Int, a2: [u8; 1], a3: [u8; 31]) -> Bytes { gen::functions::widths::encode_input(a0, a1, a2, a3) }
pub fn want_enc_widths(a0: Uint, a1: Int, a2: [u8; 1], a3: [u8; 31]) -> Bytes { fun_widths().encode_input(&[Token::Uint(a0), Token::Int(a1), Token::FixedBytes(a2.to_vec()), Token::FixedBytes(a3.to_vec())]).unwrap() }
pub fn call_widths(a0: Uint, a1: Int, a2: [u8; 1], a3: [u8; 31]) -> Bytes { gen::functions::widths::call(a0, a1, a2, a3).0 }
pub fn want_call_widths(a0: Uint, a1: Int, a2: [u8; 1], a3: [u8; 31]) -> Bytes { fun_widths().encode_input(&[Token::Uint(a0), Token::Int(a1), Token::FixedBytes(a2.to_vec()), Token::FixedBytes(a3.to_vec())]).unwrap() }
pub fn dec_widths(data: &[u8]) -> R<([u8; 1], [u8; 31])> { gen::functions::widths::decode_output(data) }
pub fn want_dec_widths(data: &[u8]) -> R<([u8; 1], [u8; 31])> { let mut it = fun_widths().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 1]; r.copy_from_slice(&v); r } }, { let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 31]; r.copy_from_slice(&v); r } })) }
pub fn then_widths(a0: Uint, a1: Int, a2: [u8; 1], a3: [u8; 31], data: &[u8]) -> R<([u8; 1], [u8; 31])> { ethabi::FunctionOutputDecoder::decode(&gen::functions::widths::call(a0, a1, a2, a3).1, data) }
pub fn want_then_widths(a0: Uint, a1: Int, a2: [u8; 1], a3: [u8; 31], data: &[u8]) -> R<([u8; 1], [u8; 31])> { let _ = fun_widths().encode_input(&[Token::Uint(a0), Token::Int(a1), Token::FixedBytes(a2.to_vec()), Token::FixedBytes(a3.to_vec())]).unwrap(); want_dec_widths(data) }
fn fun_empty() -> Function { Function { name: "empty".to_owned(), inputs: vec![Param { name: "x".to_owned(), kind: PT::FixedArray(Box::new(PT::Uint(256)), 0), internal_type: None }], outputs: vec![], constant: false, state_mutability: StateMutability::View } }
pub fn enc_empty(a0: [Uint; 0]) -> Bytes { gen::functions::empty::encode_input(a0) }
pub fn want_enc_empty(a0: [Uint; 0]) -> Bytes { fun_empty().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Uint(x)).collect())]).unwrap() }
pub fn call_empty(a0: [Uint; 0]) -> Bytes { gen::functions::empty::call(a0).0 }
pub fn want_call_empty(a0: [Uint; 0]) -> Bytes { fun_empty().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Uint(x)).collect())]).unwrap() }
pub fn dec_empty(data: &[u8]) -> R<()> { gen::functions::empty::decode_output(data) }
pub fn want_dec_empty(_data: &[u8]) -> R<()> { Ok(()) }
pub fn then_empty(a0: [Uint; 0], data: &[u8]) -> R<()> { ethabi::FunctionOutputDecoder::decode(&gen::functions::empty::call(a0).1, data) }
pub fn want_then_empty(a0: [Uint; 0], data: &[u8]) -> R<()> { let _ = fun_empty().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Uint(x)).collect())]).unwrap(); want_dec_empty(data) }
fn fun_get0() -> Function { Function { name: "get0".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Address, internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get0(a0: Uint) -> Bytes { gen::functions::get0::encode_input(a0) }
pub fn want_enc_get0(a0: Uint) -> Bytes { fun_get0().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get0(a0: Uint) -> Bytes { gen::functions::get0::call(a0).0 }
pub fn want_call_get0(a0: Uint) -> Bytes { fun_get0().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get0(data: &[u8]) -> R<Address> { gen::functions::get0::decode_output(data) }
pub fn want_dec_get0(data: &[u8]) -> R<Address> { let mut it = fun_get0().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_address().unwrap() }) }
pub fn then_get0(a0: Uint, data: &[u8]) -> R<Address> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get0::call(a0).1, data) }
pub fn want_then_get0(a0: Uint, data: &[u8]) -> R<Address> { let _ = fun_get0().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get0(data) }
fn fun_get1() -> Function { Function { name: "get1".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Bytes, internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get1(a0: Uint) -> Bytes { gen::functions::get1::encode_input(a0) }
pub fn want_enc_get1(a0: Uint) -> Bytes { fun_get1().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get1(a0: Uint) -> Bytes { gen::functions::get1::call(a0).0 }
pub fn want_call_get1(a0: Uint) -> Bytes { fun_get1().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get1(data: &[u8]) -> R<Bytes> { gen::functions::get1::decode_output(data) }
pub fn want_dec_get1(data: &[u8]) -> R<Bytes> { let mut it = fun_get1().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_bytes().unwrap() }) }
pub fn then_get1(a0: Uint, data: &[u8]) -> R<Bytes> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get1::call(a0).1, data) }
pub fn want_then_get1(a0: Uint, data: &[u8]) -> R<Bytes> { let _ = fun_get1().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get1(data) }
fn fun_get2() -> Function { Function { name: "get2".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::FixedBytes(32), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get2(a0: Uint) -> Bytes { gen::functions::get2::encode_input(a0) }
pub fn want_enc_get2(a0: Uint) -> Bytes { fun_get2().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get2(a0: Uint) -> Bytes { gen::functions::get2::call(a0).0 }
pub fn want_call_get2(a0: Uint) -> Bytes { fun_get2().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get2(data: &[u8]) -> R<Hash> { gen::functions::get2::decode_output(data) }
pub fn want_dec_get2(data: &[u8]) -> R<Hash> { let mut it = fun_get2().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }) }
pub fn then_get2(a0: Uint, data: &[u8]) -> R<Hash> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get2::call(a0).1, data) }
pub fn want_then_get2(a0: Uint, data: &[u8]) -> R<Hash> { let _ = fun_get2().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get2(data) }
fn fun_get3() -> Function { Function { name: "get3".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::FixedBytes(8), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get3(a0: Uint) -> Bytes { gen::functions::get3::encode_input(a0) }
pub fn want_enc_get3(a0: Uint) -> Bytes { fun_get3().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get3(a0: Uint) -> Bytes { gen::functions::get3::call(a0).0 }
pub fn want_call_get3(a0: Uint) -> Bytes { fun_get3().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get3(data: &[u8]) -> R<[u8; 8]> { gen::functions::get3::decode_output(data) }
pub fn want_dec_get3(data: &[u8]) -> R<[u8; 8]> { let mut it = fun_get3().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 8]; r.copy_from_slice(&v); r } }) }
pub fn then_get3(a0: Uint, data: &[u8]) -> R<[u8; 8]> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get3::call(a0).1, data) }
pub fn want_then_get3(a0: Uint, data: &[u8]) -> R<[u8; 8]> { let _ = fun_get3().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get3(data) }
fn fun_get4() -> Function { Function { name: "get4".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Int(16), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get4(a0: Uint) -> Bytes { gen::functions::get4::encode_input(a0) }
pub fn want_enc_get4(a0: Uint) -> Bytes { fun_get4().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get4(a0: Uint) -> Bytes { gen::functions::get4::call(a0).0 }
pub fn want_call_get4(a0: Uint) -> Bytes { fun_get4().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get4(data: &[u8]) -> R<Int> { gen::functions::get4::decode_output(data) }
pub fn want_dec_get4(data: &[u8]) -> R<Int> { let mut it = fun_get4().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_int().unwrap() }) }
pub fn then_get4(a0: Uint, data: &[u8]) -> R<Int> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get4::call(a0).1, data) }
pub fn want_then_get4(a0: Uint, data: &[u8]) -> R<Int> { let _ = fun_get4().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get4(data) }
fn fun_get5() -> Function { Function { name: "get5".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Uint(32), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get5(a0: Uint) -> Bytes { gen::functions::get5::encode_input(a0) }
pub fn want_enc_get5(a0: Uint) -> Bytes { fun_get5().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get5(a0: Uint) -> Bytes { gen::functions::get5::call(a0).0 }
pub fn want_call_get5(a0: Uint) -> Bytes { fun_get5().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get5(data: &[u8]) -> R<Uint> { gen::functions::get5::decode_output(data) }
pub fn want_dec_get5(data: &[u8]) -> R<Uint> { let mut it = fun_get5().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_uint().unwrap() }) }
pub fn then_get5(a0: Uint, data: &[u8]) -> R<Uint> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get5::call(a0).1, data) }
pub fn want_then_get5(a0: Uint, data: &[u8]) -> R<Uint> { let _ = fun_get5().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get5(data) }
fn fun_get6() -> Function { Function { name: "get6".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Bool, internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get6(a0: Uint) -> Bytes { gen::functions::get6::encode_input(a0) }
pub fn want_enc_get6(a0: Uint) -> Bytes { fun_get6().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get6(a0: Uint) -> Bytes { gen::functions::get6::call(a0).0 }
pub fn want_call_get6(a0: Uint) -> Bytes { fun_get6().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get6(data: &[u8]) -> R<bool> { gen::functions::get6::decode_output(data) }
pub fn want_dec_get6(data: &[u8]) -> R<bool> { let mut it = fun_get6().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_bool().unwrap() }) }
pub fn then_get6(a0: Uint, data: &[u8]) -> R<bool> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get6::call(a0).1, data) }
pub fn want_then_get6(a0: Uint, data: &[u8]) -> R<bool> { let _ = fun_get6().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get6(data) }
fn fun_get7() -> Function { Function { name: "get7".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::String, internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get7(a0: Uint) -> Bytes { gen::functions::get7::encode_input(a0) }
pub fn want_enc_get7(a0: Uint) -> Bytes { fun_get7().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get7(a0: Uint) -> Bytes { gen::functions::get7::call(a0).0 }
pub fn want_call_get7(a0: Uint) -> Bytes { fun_get7().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get7(data: &[u8]) -> R<String> { gen::functions::get7::decode_output(data) }
pub fn want_dec_get7(data: &[u8]) -> R<String> { let mut it = fun_get7().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_string().unwrap() }) }
pub fn then_get7(a0: Uint, data: &[u8]) -> R<String> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get7::call(a0).1, data) }
pub fn want_then_get7(a0: Uint, data: &[u8]) -> R<String> { let _ = fun_get7().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get7(data) }
fn fun_get8() -> Function { Function { name: "get8".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Array(Box::new(PT::Uint(256))), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get8(a0: Uint) -> Bytes { gen::functions::get8::encode_input(a0) }
pub fn want_enc_get8(a0: Uint) -> Bytes { fun_get8().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get8(a0: Uint) -> Bytes { gen::functions::get8::call(a0).0 }
pub fn want_call_get8(a0: Uint) -> Bytes { fun_get8().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get8(data: &[u8]) -> R<Vec<Uint>> { gen::functions::get8::decode_output(data) }
pub fn want_dec_get8(data: &[u8]) -> R<Vec<Uint>> { let mut it = fun_get8().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| x.into_uint().unwrap()).collect::<Vec<_>>() }) }
pub fn then_get8(a0: Uint, data: &[u8]) -> R<Vec<Uint>> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get8::call(a0).1, data) }
pub fn want_then_get8(a0: Uint, data: &[u8]) -> R<Vec<Uint>> { let _ = fun_get8().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get8(data) }
fn fun_get9() -> Function { Function { name: "get9".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::FixedArray(Box::new(PT::Address), 2), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get9(a0: Uint) -> Bytes { gen::functions::get9::encode_input(a0) }
pub fn want_enc_get9(a0: Uint) -> Bytes { fun_get9().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get9(a0: Uint) -> Bytes { gen::functions::get9::call(a0).0 }
pub fn want_call_get9(a0: Uint) -> Bytes { fun_get9().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get9(data: &[u8]) -> R<[Address; 2]> { gen::functions::get9::decode_output(data) }
pub fn want_dec_get9(data: &[u8]) -> R<[Address; 2]> { let mut it = fun_get9().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_address().unwrap() }, { let x = it.next().unwrap(); x.into_address().unwrap() }] } }) }
pub fn then_get9(a0: Uint, data: &[u8]) -> R<[Address; 2]> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get9::call(a0).1, data) }
pub fn want_then_get9(a0: Uint, data: &[u8]) -> R<[Address; 2]> { let _ = fun_get9().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get9(data) }
fn fun_get10() -> Function { Function { name: "get10".to_owned(), inputs: vec![Param { name: "k".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Array(Box::new(PT::Array(Box::new(PT::String)))), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_get10(a0: Uint) -> Bytes { gen::functions::get10::encode_input(a0) }
pub fn want_enc_get10(a0: Uint) -> Bytes { fun_get10().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_get10(a0: Uint) -> Bytes { gen::functions::get10::call(a0).0 }
pub fn want_call_get10(a0: Uint) -> Bytes { fun_get10().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_get10(data: &[u8]) -> R<Vec<Vec<String>>> { gen::functions::get10::decode_output(data) }
pub fn want_dec_get10(data: &[u8]) -> R<Vec<Vec<String>>> { let mut it = fun_get10().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| x.into_array().unwrap().into_iter().map(|x| x.into_string().unwrap()).collect::<Vec<_>>()).collect::<Vec<_>>() }) }
pub fn then_get10(a0: Uint, data: &[u8]) -> R<Vec<Vec<String>>> { ethabi::FunctionOutputDecoder::decode(&gen::functions::get10::call(a0).1, data) }
pub fn want_then_get10(a0: Uint, data: &[u8]) -> R<Vec<Vec<String>>> { let _ = fun_get10().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_get10(data) }
fn fun_many_values() -> Function { Function { name: "manyValues".to_owned(), inputs: vec![Param { name: "v0".to_owned(), kind: PT::Uint(8), internal_type: None }, Param { name: "v1".to_owned(), kind: PT::Bool, internal_type: None }, Param { name: "v2".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "v3".to_owned(), kind: PT::String, internal_type: None }, Param { name: "v4".to_owned(), kind: PT::Bytes, internal_type: None }, Param { name: "v5".to_owned(), kind: PT::Array(Box::new(PT::Uint(16))), internal_type: None }, Param { name: "v6".to_owned(), kind: PT::FixedBytes(2), internal_type: None }, Param { name: "v7".to_owned(), kind: PT::Int(24), internal_type: None }, Param { name: "v8".to_owned(), kind: PT::FixedBytes(32), internal_type: None }, Param { name: "v9".to_owned(), kind: PT::FixedArray(Box::new(PT::Bool), 2), internal_type: None }, Param { name: "v10".to_owned(), kind: PT::Uint(256), internal_type: None }, Param { name: "v11".to_owned(), kind: PT::Array(Box::new(PT::String)), internal_type: None }, Param { name: "v12".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "v13".to_owned(), kind: PT::Int(8), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Bool, internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(8), internal_type: None }, Param { name: "".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "".to_owned(), kind: PT::Bytes, internal_type: None }, Param { name: "".to_owned(), kind: PT::String, internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(2), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(24), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(32), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(256), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(8), internal_type: None }, Param { name: "".to_owned(), kind: PT::Bool, internal_type: None }, Param { name: "".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(8), internal_type: None }], constant: false, state_mutability: StateMutability::Payable } }
pub fn enc_many_values(a0: Uint, a1: bool, a2: Address, a3: String, a4: Bytes, a5: Vec<Uint>, a6: [u8; 2], a7: Int, a8: Hash, a9: [bool; 2], a10: Uint, a11: Vec<String>, a12: Address, a13: Int) -> Bytes { gen::functions::many_values::encode_input(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13) }
pub fn want_enc_many_values(a0: Uint, a1: bool, a2: Address, a3: String, a4: Bytes, a5: Vec<Uint>, a6: [u8; 2], a7: Int, a8: Hash, a9: [bool; 2], a10: Uint, a11: Vec<String>, a12: Address, a13: Int) -> Bytes { fun_many_values().encode_input(&[Token::Uint(a0), Token::Bool(a1), Token::Address(a2), Token::String(a3), Token::Bytes(a4), Token::Array(a5.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedBytes(a6.to_vec()), Token::Int(a7), Token::FixedBytes(a8.as_bytes().to_vec()), Token::FixedArray(a9.into_iter().map(|x| Token::Bool(x)).collect()), Token::Uint(a10), Token::Array(a11.into_iter().map(|x| Token::String(x)).collect()), Token::Address(a12), Token::Int(a13)]).unwrap() }
pub fn call_many_values(a0: Uint, a1: bool, a2: Address, a3: String, a4: Bytes, a5: Vec<Uint>, a6: [u8; 2], a7: Int, a8: Hash, a9: [bool; 2], a10: Uint, a11: Vec<String>, a12: Address, a13: Int) -> Bytes { gen::functions::many_values::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13).0 }
pub fn want_call_many_values(a0: Uint, a1: bool, a2: Address, a3: String, a4: Bytes, a5: Vec<Uint>, a6: [u8; 2], a7: Int, a8: Hash, a9: [bool; 2], a10: Uint, a11: Vec<String>, a12: Address, a13: Int) -> Bytes { fun_many_values().encode_input(&[Token::Uint(a0), Token::Bool(a1), Token::Address(a2), Token::String(a3), Token::Bytes(a4), Token::Array(a5.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedBytes(a6.to_vec()), Token::Int(a7), Token::FixedBytes(a8.as_bytes().to_vec()), Token::FixedArray(a9.into_iter().map(|x| Token::Bool(x)).collect()), Token::Uint(a10), Token::Array(a11.into_iter().map(|x| Token::String(x)).collect()), Token::Address(a12), Token::Int(a13)]).unwrap() }
pub fn dec_many_values(data: &[u8]) -> R<(bool, Uint, Address, Bytes, String, [u8; 2], Int, Hash, Uint, Int, bool, Address, Int)> { gen::functions::many_values::decode_output(data) }
pub fn want_dec_many_values(data: &[u8]) -> R<(bool, Uint, Address, Bytes, String, [u8; 2], Int, Hash, Uint, Int, bool, Address, Int)> { let mut it = fun_many_values().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); v.into_bool().unwrap() }, { let v = it.next().unwrap(); v.into_uint().unwrap() }, { let v = it.next().unwrap(); v.into_address().unwrap() }, { let v = it.next().unwrap(); v.into_bytes().unwrap() }, { let v = it.next().unwrap(); v.into_string().unwrap() }, { let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 2]; r.copy_from_slice(&v); r } }, { let v = it.next().unwrap(); v.into_int().unwrap() }, { let v = it.next().unwrap(); Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap(); v.into_uint().unwrap() }, { let v = it.next().unwrap(); v.into_int().unwrap() }, { let v = it.next().unwrap(); v.into_bool().unwrap() }, { let v = it.next().unwrap(); v.into_address().unwrap() }, { let v = it.next().unwrap(); v.into_int().unwrap() })) }
pub fn then_many_values(a0: Uint, a1: bool, a2: Address, a3: String, a4: Bytes, a5: Vec<Uint>, a6: [u8; 2], a7: Int, a8: Hash, a9: [bool; 2], a10: Uint, a11: Vec<String>, a12: Address, a13: Int, data: &[u8]) -> R<(bool, Uint, Address, Bytes, String, [u8; 2], Int, Hash, Uint, Int, bool, Address, Int)> { ethabi::FunctionOutputDecoder::decode(&gen::functions::many_values::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13).1, data) }
pub fn want_then_many_values(a0: Uint, a1: bool, a2: Address, a3: String, a4: Bytes, a5: Vec<Uint>, a6: [u8; 2], a7: Int, a8: Hash, a9: [bool; 2], a10: Uint, a11: Vec<String>, a12: Address, a13: Int, data: &[u8]) -> R<(bool, Uint, Address, Bytes, String, [u8; 2], Int, Hash, Uint, Int, bool, Address, Int)> { let _ = fun_many_values().encode_input(&[Token::Uint(a0), Token::Bool(a1), Token::Address(a2), Token::String(a3), Token::Bytes(a4), Token::Array(a5.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedBytes(a6.to_vec()), Token::Int(a7), Token::FixedBytes(a8.as_bytes().to_vec()), Token::FixedArray(a9.into_iter().map(|x| Token::Bool(x)).collect()), Token::Uint(a10), Token::Array(a11.into_iter().map(|x| Token::String(x)).collect()), Token::Address(a12), Token::Int(a13)]).unwrap(); want_dec_many_values(data) }
fn fun_uints() -> Function { Function { name: "uints".to_owned(), inputs: vec![Param { name: "".to_owned(), kind: PT::Uint(8), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(16), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(24), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(32), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(40), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(48), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(56), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(64), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(72), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(80), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(88), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(96), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(104), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(112), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(120), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(128), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(136), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(144), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(152), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(160), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(168), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(176), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(184), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(192), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(200), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(208), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(216), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(224), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(232), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(240), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(248), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Uint(8), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(160), internal_type: None }, Param { name: "".to_owned(), kind: PT::Uint(248), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_uints(a0: Uint, a1: Uint, a2: Uint, a3: Uint, a4: Uint, a5: Uint, a6: Uint, a7: Uint, a8: Uint, a9: Uint, a10: Uint, a11: Uint, a12: Uint, a13: Uint, a14: Uint, a15: Uint, a16: Uint, a17: Uint, a18: Uint, a19: Uint, a20: Uint, a21: Uint, a22: Uint, a23: Uint, a24: Uint, a25: Uint, a26: Uint, a27: Uint, a28: Uint, a29: Uint, a30: Uint, a31: Uint) -> Bytes { gen::functions::uints::encode_input(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) }
pub fn want_enc_uints(a0: Uint, a1: Uint, a2: Uint, a3: Uint, a4: Uint, a5: Uint, a6: Uint, a7: Uint, a8: Uint, a9: Uint, a10: Uint, a11: Uint, a12: Uint, a13: Uint, a14: Uint, a15: Uint, a16: Uint, a17: Uint, a18: Uint, a19: Uint, a20: Uint, a21: Uint, a22: Uint, a23: Uint, a24: Uint, a25: Uint, a26: Uint, a27: Uint, a28: Uint, a29: Uint, a30: Uint, a31: Uint) -> Bytes { fun_uints().encode_input(&[Token::Uint(a0), Token::Uint(a1), Token::Uint(a2), Token::Uint(a3), Token::Uint(a4), Token::Uint(a5), Token::Uint(a6), Token::Uint(a7), Token::Uint(a8), Token::Uint(a9), Token::Uint(a10), Token::Uint(a11), Token::Uint(a12), Token::Uint(a13), Token::Uint(a14), Token::Uint(a15), Token::Uint(a16), Token::Uint(a17), Token::Uint(a18), Token::Uint(a19), Token::Uint(a20), Token::Uint(a21), Token::Uint(a22), Token::Uint(a23), Token::Uint(a24), Token::Uint(a25), Token::Uint(a26), Token::Uint(a27), Token::Uint(a28), Token::Uint(a29), Token::Uint(a30), Token::Uint(a31)]).unwrap() }
pub fn call_uints(a0: Uint, a1: Uint, a2: Uint, a3: Uint, a4: Uint, a5: Uint, a6: Uint, a7: Uint, a8: Uint, a9: Uint, a10: Uint, a11: Uint, a12: Uint, a13: Uint, a14: Uint, a15: Uint, a16: Uint, a17: Uint, a18: Uint, a19: Uint, a20: Uint, a21: Uint, a22: Uint, a23: Uint, a24: Uint, a25: Uint, a26: Uint, a27: Uint, a28: Uint, a29: Uint, a30: Uint, a31: Uint) -> Bytes { gen::functions::uints::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31).0 }
pub fn want_call_uints(a0: Uint, a1: Uint, a2: Uint, a3: Uint, a4: Uint, a5: Uint, a6: Uint, a7: Uint, a8: Uint, a9: Uint, a10: Uint, a11: Uint, a12: Uint, a13: Uint, a14: Uint, a15: Uint, a16: Uint, a17: Uint, a18: Uint, a19: Uint, a20: Uint, a21: Uint, a22: Uint, a23: Uint, a24: Uint, a25: Uint, a26: Uint, a27: Uint, a28: Uint, a29: Uint, a30: Uint, a31: Uint) -> Bytes { fun_uints().encode_input(&[Token::Uint(a0), Token::Uint(a1), Token::Uint(a2), Token::Uint(a3), Token::Uint(a4), Token::Uint(a5), Token::Uint(a6), Token::Uint(a7), Token::Uint(a8), Token::Uint(a9), Token::Uint(a10), Token::Uint(a11), Token::Uint(a12), Token::Uint(a13), Token::Uint(a14), Token::Uint(a15), Token::Uint(a16), Token::Uint(a17), Token::Uint(a18), Token::Uint(a19), Token::Uint(a20), Token::Uint(a21), Token::Uint(a22), Token::Uint(a23), Token::Uint(a24), Token::Uint(a25), Token::Uint(a26), Token::Uint(a27), Token::Uint(a28), Token::Uint(a29), Token::Uint(a30), Token::Uint(a31)]).unwrap() }
pub fn dec_uints(data: &[u8]) -> R<(Uint, Uint, Uint)> { gen::functions::uints::decode_output(data) }
pub fn want_dec_uints(data: &[u8]) -> R<(Uint, Uint, Uint)> { let mut it = fun_uints().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); v.into_uint().unwrap() }, { let v = it.next().unwrap(); v.into_uint().unwrap() }, { let v = it.next().unwrap(); v.into_uint().unwrap() })) }
pub fn then_uints(a0: Uint, a1: Uint, a2: Uint, a3: Uint, a4: Uint, a5: Uint, a6: Uint, a7: Uint, a8: Uint, a9: Uint, a10: Uint, a11: Uint, a12: Uint, a13: Uint, a14: Uint, a15: Uint, a16: Uint, a17: Uint, a18: Uint, a19: Uint, a20: Uint, a21: Uint, a22: Uint, a23: Uint, a24: Uint, a25: Uint, a26: Uint, a27: Uint, a28: Uint, a29: Uint, a30: Uint, a31: Uint, data: &[u8]) -> R<(Uint, Uint, Uint)> { ethabi::FunctionOutputDecoder::decode(&gen::functions::uints::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31).1, data) }
pub fn want_then_uints(a0: Uint, a1: Uint, a2: Uint, a3: Uint, a4: Uint, a5: Uint, a6: Uint, a7: Uint, a8: Uint, a9: Uint, a10: Uint, a11: Uint, a12: Uint, a13: Uint, a14: Uint, a15: Uint, a16: Uint, a17: Uint, a18: Uint, a19: Uint, a20: Uint, a21: Uint, a22: Uint, a23: Uint, a24: Uint, a25: Uint, a26: Uint, a27: Uint, a28: Uint, a29: Uint, a30: Uint, a31: Uint, data: &[u8]) -> R<(Uint, Uint, Uint)> { let _ = fun_uints().encode_input(&[Token::Uint(a0), Token::Uint(a1), Token::Uint(a2), Token::Uint(a3), Token::Uint(a4), Token::Uint(a5), Token::Uint(a6), Token::Uint(a7), Token::Uint(a8), Token::Uint(a9), Token::Uint(a10), Token::Uint(a11), Token::Uint(a12), Token::Uint(a13), Token::Uint(a14), Token::Uint(a15), Token::Uint(a16), Token::Uint(a17), Token::Uint(a18), Token::Uint(a19), Token::Uint(a20), Token::Uint(a21), Token::Uint(a22), Token::Uint(a23), Token::Uint(a24), Token::Uint(a25), Token::Uint(a26), Token::Uint(a27), Token::Uint(a28), Token::Uint(a29), Token::Uint(a30), Token::Uint(a31)]).unwrap(); want_dec_uints(data) }
fn fun_ints() -> Function { Function { name: "ints".to_owned(), inputs: vec![Param { name: "".to_owned(), kind: PT::Int(8), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(16), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(24), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(32), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(40), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(48), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(56), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(64), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(72), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(80), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(88), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(96), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(104), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(112), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(120), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(128), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(136), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(144), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(152), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(160), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(168), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(176), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(184), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(192), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(200), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(208), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(216), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(224), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(232), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(240), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(248), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Int(16), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(128), internal_type: None }, Param { name: "".to_owned(), kind: PT::Int(256), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_ints(a0: Int, a1: Int, a2: Int, a3: Int, a4: Int, a5: Int, a6: Int, a7: Int, a8: Int, a9: Int, a10: Int, a11: Int, a12: Int, a13: Int, a14: Int, a15: Int, a16: Int, a17: Int, a18: Int, a19: Int, a20: Int, a21: Int, a22: Int, a23: Int, a24: Int, a25: Int, a26: Int, a27: Int, a28: Int, a29: Int, a30: Int, a31: Int) -> Bytes { gen::functions::ints::encode_input(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) }
pub fn want_enc_ints(a0: Int, a1: Int, a2: Int, a3: Int, a4: Int, a5: Int, a6: Int, a7: Int, a8: Int, a9: Int, a10: Int, a11: Int, a12: Int, a13: Int, a14: Int, a15: Int, a16: Int, a17: Int, a18: Int, a19: Int, a20: Int, a21: Int, a22: Int, a23: Int, a24: Int, a25: Int, a26: Int, a27: Int, a28: Int, a29: Int, a30: Int, a31: Int) -> Bytes { fun_ints().encode_input(&[Token::Int(a0), Token::Int(a1), Token::Int(a2), Token::Int(a3), Token::Int(a4), Token::Int(a5), Token::Int(a6), Token::Int(a7), Token::Int(a8), Token::Int(a9), Token::Int(a10), Token::Int(a11), Token::Int(a12), Token::Int(a13), Token::Int(a14), Token::Int(a15), Token::Int(a16), Token::Int(a17), Token::Int(a18), Token::Int(a19), Token::Int(a20), Token::Int(a21), Token::Int(a22), Token::Int(a23), Token::Int(a24), Token::Int(a25), Token::Int(a26), Token::Int(a27), Token::Int(a28), Token::Int(a29), Token::Int(a30), Token::Int(a31)]).unwrap() }
pub fn call_ints(a0: Int, a1: Int, a2: Int, a3: Int, a4: Int, a5: Int, a6: Int, a7: Int, a8: Int, a9: Int, a10: Int, a11: Int, a12: Int, a13: Int, a14: Int, a15: Int, a16: Int, a17: Int, a18: Int, a19: Int, a20: Int, a21: Int, a22: Int, a23: Int, a24: Int, a25: Int, a26: Int, a27: Int, a28: Int, a29: Int, a30: Int, a31: Int) -> Bytes { gen::functions::ints::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31).0 }
pub fn want_call_ints(a0: Int, a1: Int, a2: Int, a3: Int, a4: Int, a5: Int, a6: Int, a7: Int, a8: Int, a9: Int, a10: Int, a11: Int, a12: Int, a13: Int, a14: Int, a15: Int, a16: Int, a17: Int, a18: Int, a19: Int, a20: Int, a21: Int, a22: Int, a23: Int, a24: Int, a25: Int, a26: Int, a27: Int, a28: Int, a29: Int, a30: Int, a31: Int) -> Bytes { fun_ints().encode_input(&[Token::Int(a0), Token::Int(a1), Token::Int(a2), Token::Int(a3), Token::Int(a4), Token::Int(a5), Token::Int(a6), Token::Int(a7), Token::Int(a8), Token::Int(a9), Token::Int(a10), Token::Int(a11), Token::Int(a12), Token::Int(a13), Token::Int(a14), Token::Int(a15), Token::Int(a16), Token::Int(a17), Token::Int(a18), Token::Int(a19), Token::Int(a20), Token::Int(a21), Token::Int(a22), Token::Int(a23), Token::Int(a24), Token::Int(a25), Token::Int(a26), Token::Int(a27), Token::Int(a28), Token::Int(a29), Token::Int(a30), Token::Int(a31)]).unwrap() }
pub fn dec_ints(data: &[u8]) -> R<(Int, Int, Int)> { gen::functions::ints::decode_output(data) }
pub fn want_dec_ints(data: &[u8]) -> R<(Int, Int, Int)> { let mut it = fun_ints().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); v.into_int().unwrap() }, { let v = it.next().unwrap(); v.into_int().unwrap() }, { let v = it.next().unwrap(); v.into_int().unwrap() })) }
pub fn then_ints(a0: Int, a1: Int, a2: Int, a3: Int, a4: Int, a5: Int, a6: Int, a7: Int, a8: Int, a9: Int, a10: Int, a11: Int, a12: Int, a13: Int, a14: Int, a15: Int, a16: Int, a17: Int, a18: Int, a19: Int, a20: Int, a21: Int, a22: Int, a23: Int, a24: Int, a25: Int, a26: Int, a27: Int, a28: Int, a29: Int, a30: Int, a31: Int, data: &[u8]) -> R<(Int, Int, Int)> { ethabi::FunctionOutputDecoder::decode(&gen::functions::ints::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31).1, data) }
pub fn want_then_ints(a0: Int, a1: Int, a2: Int, a3: Int, a4: Int, a5: Int, a6: Int, a7: Int, a8: Int, a9: Int, a10: Int, a11: Int, a12: Int, a13: Int, a14: Int, a15: Int, a16: Int, a17: Int, a18: Int, a19: Int, a20: Int, a21: Int, a22: Int, a23: Int, a24: Int, a25: Int, a26: Int, a27: Int, a28: Int, a29: Int, a30: Int, a31: Int, data: &[u8]) -> R<(Int, Int, Int)> { let _ = fun_ints().encode_input(&[Token::Int(a0), Token::Int(a1), Token::Int(a2), Token::Int(a3), Token::Int(a4), Token::Int(a5), Token::Int(a6), Token::Int(a7), Token::Int(a8), Token::Int(a9), Token::Int(a10), Token::Int(a11), Token::Int(a12), Token::Int(a13), Token::Int(a14), Token::Int(a15), Token::Int(a16), Token::Int(a17), Token::Int(a18), Token::Int(a19), Token::Int(a20), Token::Int(a21), Token::Int(a22), Token::Int(a23), Token::Int(a24), Token::Int(a25), Token::Int(a26), Token::Int(a27), Token::Int(a28), Token::Int(a29), Token::Int(a30), Token::Int(a31)]).unwrap(); want_dec_ints(data) }
fn fun_fixed_bytes() -> Function { Function { name: "fixedBytes".to_owned(), inputs: vec![Param { name: "".to_owned(), kind: PT::FixedBytes(1), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(2), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(3), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(4), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(5), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(6), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(7), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(8), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(9), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(10), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(11), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(12), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(13), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(14), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(15), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(16), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(17), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(18), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(19), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(20), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(21), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(22), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(23), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(24), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(25), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(26), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(27), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(28), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(29), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(30), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(31), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(32), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::FixedBytes(2), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(20), internal_type: None }, Param { name: "".to_owned(), kind: PT::FixedBytes(30), internal_type: None }], constant: false, state_mutability: StateMutability::View } }
pub fn enc_fixed_bytes(a0: [u8; 1], a1: [u8; 2], a2: [u8; 3], a3: [u8; 4], a4: [u8; 5], a5: [u8; 6], a6: [u8; 7], a7: [u8; 8], a8: [u8; 9], a9: [u8; 10], a10: [u8; 11], a11: [u8; 12], a12: [u8; 13], a13: [u8; 14], a14: [u8; 15], a15: [u8; 16], a16: [u8; 17], a17: [u8; 18], a18: [u8; 19], a19: [u8; 20], a20: [u8; 21], a21: [u8; 22], a22: [u8; 23], a23: [u8; 24], a24: [u8; 25], a25: [u8; 26], a26: [u8; 27], a27: [u8; 28], a28: [u8; 29], a29: [u8; 30], a30: [u8; 31], a31: Hash) -> Bytes { gen::functions::fixed_bytes::encode_input(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31) }
pub fn want_enc_fixed_bytes(a0: [u8; 1], a1: [u8; 2], a2: [u8; 3], a3: [u8; 4], a4: [u8; 5], a5: [u8; 6], a6: [u8; 7], a7: [u8; 8], a8: [u8; 9], a9: [u8; 10], a10: [u8; 11], a11: [u8; 12], a12: [u8; 13], a13: [u8; 14], a14: [u8; 15], a15: [u8; 16], a16: [u8; 17], a17: [u8; 18], a18: [u8; 19], a19: [u8; 20], a20: [u8; 21], a21: [u8; 22], a22: [u8; 23], a23: [u8; 24], a24: [u8; 25], a25: [u8; 26], a26: [u8; 27], a27: [u8; 28], a28: [u8; 29], a29: [u8; 30], a30: [u8; 31], a31: Hash) -> Bytes { fun_fixed_bytes().encode_input(&[Token::FixedBytes(a0.to_vec()), Token::FixedBytes(a1.to_vec()), Token::FixedBytes(a2.to_vec()), Token::FixedBytes(a3.to_vec()), Token::FixedBytes(a4.to_vec()), Token::FixedBytes(a5.to_vec()), Token::FixedBytes(a6.to_vec()), Token::FixedBytes(a7.to_vec()), Token::FixedBytes(a8.to_vec()), Token::FixedBytes(a9.to_vec()), Token::FixedBytes(a10.to_vec()), Token::FixedBytes(a11.to_vec()), Token::FixedBytes(a12.to_vec()), Token::FixedBytes(a13.to_vec()), Token::FixedBytes(a14.to_vec()), Token::FixedBytes(a15.to_vec()), Token::FixedBytes(a16.to_vec()), Token::FixedBytes(a17.to_vec()), Token::FixedBytes(a18.to_vec()), Token::FixedBytes(a19.to_vec()), Token::FixedBytes(a20.to_vec()), Token::FixedBytes(a21.to_vec()), Token::FixedBytes(a22.to_vec()), Token::FixedBytes(a23.to_vec()), Token::FixedBytes(a24.to_vec()), Token::FixedBytes(a25.to_vec()), Token::FixedBytes(a26.to_vec()), Token::FixedBytes(a27.to_vec()), Token::FixedBytes(a28.to_vec()), Token::FixedBytes(a29.to_vec()), Token::FixedBytes(a30.to_vec()), Token::FixedBytes(a31.as_bytes().to_vec())]).unwrap() }
pub fn call_fixed_bytes(a0: [u8; 1], a1: [u8; 2], a2: [u8; 3], a3: [u8; 4], a4: [u8; 5], a5: [u8; 6], a6: [u8; 7], a7: [u8; 8], a8: [u8; 9], a9: [u8; 10], a10: [u8; 11], a11: [u8; 12], a12: [u8; 13], a13: [u8; 14], a14: [u8; 15], a15: [u8; 16], a16: [u8; 17], a17: [u8; 18], a18: [u8; 19], a19: [u8; 20], a20: [u8; 21], a21: [u8; 22], a22: [u8; 23], a23: [u8; 24], a24: [u8; 25], a25: [u8; 26], a26: [u8; 27], a27: [u8; 28], a28: [u8; 29], a29: [u8; 30], a30: [u8; 31], a31: Hash) -> Bytes { gen::functions::fixed_bytes::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31).0 }
pub fn want_call_fixed_bytes(a0: [u8; 1], a1: [u8; 2], a2: [u8; 3], a3: [u8; 4], a4: [u8; 5], a5: [u8; 6], a6: [u8; 7], a7: [u8; 8], a8: [u8; 9], a9: [u8; 10], a10: [u8; 11], a11: [u8; 12], a12: [u8; 13], a13: [u8; 14], a14: [u8; 15], a15: [u8; 16], a16: [u8; 17], a17: [u8; 18], a18: [u8; 19], a19: [u8; 20], a20: [u8; 21], a21: [u8; 22], a22: [u8; 23], a23: [u8; 24], a24: [u8; 25], a25: [u8; 26], a26: [u8; 27], a27: [u8; 28], a28: [u8; 29], a29: [u8; 30], a30: [u8; 31], a31: Hash) -> Bytes { fun_fixed_bytes().encode_input(&[Token::FixedBytes(a0.to_vec()), Token::FixedBytes(a1.to_vec()), Token::FixedBytes(a2.to_vec()), Token::FixedBytes(a3.to_vec()), Token::FixedBytes(a4.to_vec()), Token::FixedBytes(a5.to_vec()), Token::FixedBytes(a6.to_vec()), Token::FixedBytes(a7.to_vec()), Token::FixedBytes(a8.to_vec()), Token::FixedBytes(a9.to_vec()), Token::FixedBytes(a10.to_vec()), Token::FixedBytes(a11.to_vec()), Token::FixedBytes(a12.to_vec()), Token::FixedBytes(a13.to_vec()), Token::FixedBytes(a14.to_vec()), Token::FixedBytes(a15.to_vec()), Token::FixedBytes(a16.to_vec()), Token::FixedBytes(a17.to_vec()), Token::FixedBytes(a18.to_vec()), Token::FixedBytes(a19.to_vec()), Token::FixedBytes(a20.to_vec()), Token::FixedBytes(a21.to_vec()), Token::FixedBytes(a22.to_vec()), Token::FixedBytes(a23.to_vec()), Token::FixedBytes(a24.to_vec()), Token::FixedBytes(a25.to_vec()), Token::FixedBytes(a26.to_vec()), Token::FixedBytes(a27.to_vec()), Token::FixedBytes(a28.to_vec()), Token::FixedBytes(a29.to_vec()), Token::FixedBytes(a30.to_vec()), Token::FixedBytes(a31.as_bytes().to_vec())]).unwrap() }
pub fn dec_fixed_bytes(data: &[u8]) -> R<([u8; 2], [u8; 20], [u8; 30])> { gen::functions::fixed_bytes::decode_output(data) }
pub fn want_dec_fixed_bytes(data: &[u8]) -> R<([u8; 2], [u8; 20], [u8; 30])> { let mut it = fun_fixed_bytes().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 2]; r.copy_from_slice(&v); r } }, { let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 20]; r.copy_from_slice(&v); r } }, { let v = it.next().unwrap(); { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 30]; r.copy_from_slice(&v); r } })) }
pub fn then_fixed_bytes(a0: [u8; 1], a1: [u8; 2], a2: [u8; 3], a3: [u8; 4], a4: [u8; 5], a5: [u8; 6], a6: [u8; 7], a7: [u8; 8], a8: [u8; 9], a9: [u8; 10], a10: [u8; 11], a11: [u8; 12], a12: [u8; 13], a13: [u8; 14], a14: [u8; 15], a15: [u8; 16], a16: [u8; 17], a17: [u8; 18], a18: [u8; 19], a19: [u8; 20], a20: [u8; 21], a21: [u8; 22], a22: [u8; 23], a23: [u8; 24], a24: [u8; 25], a25: [u8; 26], a26: [u8; 27], a27: [u8; 28], a28: [u8; 29], a29: [u8; 30], a30: [u8; 31], a31: Hash, data: &[u8]) -> R<([u8; 2], [u8; 20], [u8; 30])> { ethabi::FunctionOutputDecoder::decode(&gen::functions::fixed_bytes::call(a0, a1, a2, a3, a4, a5, a6, a7, a8, a9, a10, a11, a12, a13, a14, a15, a16, a17, a18, a19, a20, a21, a22, a23, a24, a25, a26, a27, a28, a29, a30, a31).1, data) }
pub fn want_then_fixed_bytes(a0: [u8; 1], a1: [u8; 2], a2: [u8; 3], a3: [u8; 4], a4: [u8; 5], a5: [u8; 6], a6: [u8; 7], a7: [u8; 8], a8: [u8; 9], a9: [u8; 10], a10: [u8; 11], a11: [u8; 12], a12: [u8; 13], a13: [u8; 14], a14: [u8; 15], a15: [u8; 16], a16: [u8; 17], a17: [u8; 18], a18: [u8; 19], a19: [u8; 20], a20: [u8; 21], a21: [u8; 22], a22: [u8; 23], a23: [u8; 24], a24: [u8; 25], a25: [u8; 26], a26: [u8; 27], a27: [u8; 28], a28: [u8; 29], a29: [u8; 30], a30: [u8; 31], a31: Hash, data: &[u8]) -> R<([u8; 2], [u8; 20], [u8; 30])> { let _ = fun_fixed_bytes().encode_input(&[Token::FixedBytes(a0.to_vec()), Token::FixedBytes(a1.to_vec()), Token::FixedBytes(a2.to_vec()), Token::FixedBytes(a3.to_vec()), Token::FixedBytes(a4.to_vec()), Token::FixedBytes(a5.to_vec()), Token::FixedBytes(a6.to_vec()), Token::FixedBytes(a7.to_vec()), Token::FixedBytes(a8.to_vec()), Token::FixedBytes(a9.to_vec()), Token::FixedBytes(a10.to_vec()), Token::FixedBytes(a11.to_vec()), Token::FixedBytes(a12.to_vec()), Token::FixedBytes(a13.to_vec()), Token::FixedBytes(a14.to_vec()), Token::FixedBytes(a15.to_vec()), Token::FixedBytes(a16.to_vec()), Token::FixedBytes(a17.to_vec()), Token::FixedBytes(a18.to_vec()), Token::FixedBytes(a19.to_vec()), Token::FixedBytes(a20.to_vec()), Token::FixedBytes(a21.to_vec()), Token::FixedBytes(a22.to_vec()), Token::FixedBytes(a23.to_vec()), Token::FixedBytes(a24.to_vec()), Token::FixedBytes(a25.to_vec()), Token::FixedBytes(a26.to_vec()), Token::FixedBytes(a27.to_vec()), Token::FixedBytes(a28.to_vec()), Token::FixedBytes(a29.to_vec()), Token::FixedBytes(a30.to_vec()), Token::FixedBytes(a31.as_bytes().to_vec())]).unwrap(); want_dec_fixed_bytes(data) }
fn fun_long_arrays() -> Function { Function { name: "longArrays".to_owned(), inputs: vec![Param { name: "a".to_owned(), kind: PT::FixedArray(Box::new(PT::Uint(8)), 20), internal_type: None }, Param { name: "b".to_owned(), kind: PT::FixedArray(Box::new(PT::FixedBytes(4)), 33), internal_type: None }, Param { name: "c".to_owned(), kind: PT::FixedArray(Box::new(PT::String), 17), internal_type: None }], outputs: vec![Param { name: "a".to_owned(), kind: PT::FixedArray(Box::new(PT::Uint(8)), 17), internal_type: None }, Param { name: "d".to_owned(), kind: PT::FixedArray(Box::new(PT::Bool), 1), internal_type: None }], constant: false, state_mutability: StateMutability::Pure } }
pub fn enc_long_arrays(a0: [Uint; 20], a1: [[u8; 4]; 33], a2: [String; 17]) -> Bytes { gen::functions::long_arrays::encode_input(a0, a1, a2) }
pub fn want_enc_long_arrays(a0: [Uint; 20], a1: [[u8; 4]; 33], a2: [String; 17]) -> Bytes { fun_long_arrays().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect()), Token::FixedArray(a2.into_iter().map(|x| Token::String(x)).collect())]).unwrap() }
pub fn call_long_arrays(a0: [Uint; 20], a1: [[u8; 4]; 33], a2: [String; 17]) -> Bytes { gen::functions::long_arrays::call(a0, a1, a2).0 }
pub fn want_call_long_arrays(a0: [Uint; 20], a1: [[u8; 4]; 33], a2: [String; 17]) -> Bytes { fun_long_arrays().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect()), Token::FixedArray(a2.into_iter().map(|x| Token::String(x)).collect())]).unwrap() }
pub fn dec_long_arrays(data: &[u8]) -> R<([Uint; 17], [bool; 1])> { gen::functions::long_arrays::decode_output(data) }
pub fn want_dec_long_arrays(data: &[u8]) -> R<([Uint; 17], [bool; 1])> { let mut it = fun_long_arrays().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }] } }, { let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_bool().unwrap() }] } })) }
pub fn then_long_arrays(a0: [Uint; 20], a1: [[u8; 4]; 33], a2: [String; 17], data: &[u8]) -> R<([Uint; 17], [bool; 1])> { ethabi::FunctionOutputDecoder::decode(&gen::functions::long_arrays::call(a0, a1, a2).1, data) }
pub fn want_then_long_arrays(a0: [Uint; 20], a1: [[u8; 4]; 33], a2: [String; 17], data: &[u8]) -> R<([Uint; 17], [bool; 1])> { let _ = fun_long_arrays().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Uint(x)).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect()), Token::FixedArray(a2.into_iter().map(|x| Token::String(x)).collect())]).unwrap(); want_dec_long_arrays(data) }
fn fun_deep() -> Function { Function { name: "deep".to_owned(), inputs: vec![Param { name: "a".to_owned(), kind: PT::FixedArray(Box::new(PT::Array(Box::new(PT::FixedArray(Box::new(PT::Uint(8)), 2)))), 3), internal_type: None }, Param { name: "b".to_owned(), kind: PT::FixedArray(Box::new(PT::FixedArray(Box::new(PT::String), 2)), 2), internal_type: None }, Param { name: "c".to_owned(), kind: PT::Array(Box::new(PT::FixedArray(Box::new(PT::Array(Box::new(PT::Bytes))), 2))), internal_type: None }, Param { name: "d".to_owned(), kind: PT::Array(Box::new(PT::FixedArray(Box::new(PT::FixedBytes(3)), 2))), internal_type: None }], outputs: vec![Param { name: "a".to_owned(), kind: PT::FixedArray(Box::new(PT::Array(Box::new(PT::FixedArray(Box::new(PT::Uint(8)), 2)))), 3), internal_type: None }, Param { name: "b".to_owned(), kind: PT::FixedArray(Box::new(PT::FixedArray(Box::new(PT::String), 2)), 2), internal_type: None }, Param { name: "c".to_owned(), kind: PT::Array(Box::new(PT::FixedArray(Box::new(PT::Array(Box::new(PT::Bytes))), 2))), internal_type: None }, Param { name: "d".to_owned(), kind: PT::Array(Box::new(PT::FixedArray(Box::new(PT::FixedBytes(3)), 2))), internal_type: None }], constant: false, state_mutability: StateMutability::NonPayable } }
pub fn enc_deep(a0: [Vec<[Uint; 2]>; 3], a1: [[String; 2]; 2], a2: Vec<[Vec<Bytes>; 2]>, a3: Vec<[[u8; 3]; 2]>) -> Bytes { gen::functions::deep::encode_input(a0, a1, a2, a3) }
pub fn want_enc_deep(a0: [Vec<[Uint; 2]>; 3], a1: [[String; 2]; 2], a2: Vec<[Vec<Bytes>; 2]>, a3: Vec<[[u8; 3]; 2]>) -> Bytes { fun_deep().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Uint(x)).collect())).collect())).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::String(x)).collect())).collect()), Token::Array(a2.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Bytes(x)).collect())).collect())).collect()), Token::Array(a3.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect())).collect())]).unwrap() }
pub fn call_deep(a0: [Vec<[Uint; 2]>; 3], a1: [[String; 2]; 2], a2: Vec<[Vec<Bytes>; 2]>, a3: Vec<[[u8; 3]; 2]>) -> Bytes { gen::functions::deep::call(a0, a1, a2, a3).0 }
pub fn want_call_deep(a0: [Vec<[Uint; 2]>; 3], a1: [[String; 2]; 2], a2: Vec<[Vec<Bytes>; 2]>, a3: Vec<[[u8; 3]; 2]>) -> Bytes { fun_deep().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Uint(x)).collect())).collect())).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::String(x)).collect())).collect()), Token::Array(a2.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Bytes(x)).collect())).collect())).collect()), Token::Array(a3.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect())).collect())]).unwrap() }
pub fn dec_deep(data: &[u8]) -> R<([Vec<[Uint; 2]>; 3], [[String; 2]; 2], Vec<[Vec<Bytes>; 2]>, Vec<[[u8; 3]; 2]>)> { gen::functions::deep::decode_output(data) }
pub fn want_dec_deep(data: &[u8]) -> R<([Vec<[Uint; 2]>; 3], [[String; 2]; 2], Vec<[Vec<Bytes>; 2]>, Vec<[[u8; 3]; 2]>)> { let mut it = fun_deep().decode_output(data)?.into_iter(); Ok(({ let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }] }).collect::<Vec<_>>() }, { let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }] }).collect::<Vec<_>>() }, { let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_uint().unwrap() }, { let x = it.next().unwrap(); x.into_uint().unwrap() }] }).collect::<Vec<_>>() }] } }, { let v = it.next().unwrap(); { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_string().unwrap() }, { let x = it.next().unwrap(); x.into_string().unwrap() }] } }, { let x = it.next().unwrap(); { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_string().unwrap() }, { let x = it.next().unwrap(); x.into_string().unwrap() }] } }] } }, { let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| x.into_bytes().unwrap()).collect::<Vec<_>>() }, { let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| x.into_bytes().unwrap()).collect::<Vec<_>>() }] }).collect::<Vec<_>>() }, { let v = it.next().unwrap(); v.into_array().unwrap().into_iter().map(|x| { let mut it = x.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); { let v = x.into_fixed_bytes().unwrap(); let mut r = [0u8; 3]; r.copy_from_slice(&v); r } }, { let x = it.next().unwrap(); { let v = x.into_fixed_bytes().unwrap(); let mut r = [0u8; 3]; r.copy_from_slice(&v); r } }] }).collect::<Vec<_>>() })) }
pub fn then_deep(a0: [Vec<[Uint; 2]>; 3], a1: [[String; 2]; 2], a2: Vec<[Vec<Bytes>; 2]>, a3: Vec<[[u8; 3]; 2]>, data: &[u8]) -> R<([Vec<[Uint; 2]>; 3], [[String; 2]; 2], Vec<[Vec<Bytes>; 2]>, Vec<[[u8; 3]; 2]>)> { ethabi::FunctionOutputDecoder::decode(&gen::functions::deep::call(a0, a1, a2, a3).1, data) }
pub fn want_then_deep(a0: [Vec<[Uint; 2]>; 3], a1: [[String; 2]; 2], a2: Vec<[Vec<Bytes>; 2]>, a3: Vec<[[u8; 3]; 2]>, data: &[u8]) -> R<([Vec<[Uint; 2]>; 3], [[String; 2]; 2], Vec<[Vec<Bytes>; 2]>, Vec<[[u8; 3]; 2]>)> { let _ = fun_deep().encode_input(&[Token::FixedArray(a0.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Uint(x)).collect())).collect())).collect()), Token::FixedArray(a1.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::String(x)).collect())).collect()), Token::Array(a2.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Bytes(x)).collect())).collect())).collect()), Token::Array(a3.into_iter().map(|x| Token::FixedArray(x.into_iter().map(|x| Token::FixedBytes(x.to_vec())).collect())).collect())]).unwrap(); want_dec_deep(data) }
fn fun_transfer_from() -> Function { Function { name: "transferFrom".to_owned(), inputs: vec![Param { name: "_from".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "_to".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "tokenId".to_owned(), kind: PT::Uint(256), internal_type: None }, Param { name: "v2Data".to_owned(), kind: PT::Bytes, internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Bool, internal_type: None }], constant: false, state_mutability: StateMutability::NonPayable } }
pub fn enc_transfer_from(a0: Address, a1: Address, a2: Uint, a3: Bytes) -> Bytes { gen::functions::transfer_from::encode_input(a0, a1, a2, a3) }
pub fn want_enc_transfer_from(a0: Address, a1: Address, a2: Uint, a3: Bytes) -> Bytes { fun_transfer_from().encode_input(&[Token::Address(a0), Token::Address(a1), Token::Uint(a2), Token::Bytes(a3)]).unwrap() }
pub fn call_transfer_from(a0: Address, a1: Address, a2: Uint, a3: Bytes) -> Bytes { gen::functions::transfer_from::call(a0, a1, a2, a3).0 }
pub fn want_call_transfer_from(a0: Address, a1: Address, a2: Uint, a3: Bytes) -> Bytes { fun_transfer_from().encode_input(&[Token::Address(a0), Token::Address(a1), Token::Uint(a2), Token::Bytes(a3)]).unwrap() }
pub fn dec_transfer_from(data: &[u8]) -> R<bool> { gen::functions::transfer_from::decode_output(data) }
pub fn want_dec_transfer_from(data: &[u8]) -> R<bool> { let mut it = fun_transfer_from().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_bool().unwrap() }) }
pub fn then_transfer_from(a0: Address, a1: Address, a2: Uint, a3: Bytes, data: &[u8]) -> R<bool> { ethabi::FunctionOutputDecoder::decode(&gen::functions::transfer_from::call(a0, a1, a2, a3).1, data) }
pub fn want_then_transfer_from(a0: Address, a1: Address, a2: Uint, a3: Bytes, data: &[u8]) -> R<bool> { let _ = fun_transfer_from().encode_input(&[Token::Address(a0), Token::Address(a1), Token::Uint(a2), Token::Bytes(a3)]).unwrap(); want_dec_transfer_from(data) }
fn fun_hidden() -> Function { Function { name: "_hidden".to_owned(), inputs: vec![Param { name: "x".to_owned(), kind: PT::Uint(256), internal_type: None }], outputs: vec![Param { name: "".to_owned(), kind: PT::Uint(256), internal_type: None }], constant: true, state_mutability: StateMutability::NonPayable } }
pub fn enc_hidden(a0: Uint) -> Bytes { gen::functions::hidden::encode_input(a0) }
pub fn want_enc_hidden(a0: Uint) -> Bytes { fun_hidden().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn call_hidden(a0: Uint) -> Bytes { gen::functions::hidden::call(a0).0 }
pub fn want_call_hidden(a0: Uint) -> Bytes { fun_hidden().encode_input(&[Token::Uint(a0)]).unwrap() }
pub fn dec_hidden(data: &[u8]) -> R<Uint> { gen::functions::hidden::decode_output(data) }
pub fn want_dec_hidden(data: &[u8]) -> R<Uint> { let mut it = fun_hidden().decode_output(data)?.into_iter(); Ok({ let v = it.next().unwrap(); v.into_uint().unwrap() }) }
pub fn then_hidden(a0: Uint, data: &[u8]) -> R<Uint> { ethabi::FunctionOutputDecoder::decode(&gen::functions::hidden::call(a0).1, data) }
pub fn want_then_hidden(a0: Uint, data: &[u8]) -> R<Uint> { let _ = fun_hidden().encode_input(&[Token::Uint(a0)]).unwrap(); want_dec_hidden(data) }
pub fn ctor(code: Bytes, a0: Address, a1: Uint, a2: Vec<Hash>, a3: String) -> Bytes { gen::constructor(code, a0, a1, a2, a3) }
pub fn want_ctor(code: Bytes, a0: Address, a1: Uint, a2: Vec<Hash>, a3: String) -> Bytes { Constructor { inputs: vec![Param { name: "owner".to_owned(), kind: PT::Address, internal_type: None }, Param { name: "c".to_owned(), kind: PT::Uint(256), internal_type: None }, Param { name: "code".to_owned(), kind: PT::Array(Box::new(PT::FixedBytes(32))), internal_type: None }, Param { name: "".to_owned(), kind: PT::String, internal_type: None }] }.encode_input(code, &[Token::Address(a0), Token::Uint(a1), Token::Array(a2.into_iter().map(|x| Token::FixedBytes(x.as_bytes().to_vec())).collect()), Token::String(a3)]).unwrap() }
pub fn ev_transfer() -> Event { gen::events::transfer::event() }
pub fn want_ev_transfer() -> Event { Event { name: "Transfer".to_owned(), inputs: vec![EventParam { name: "from".to_owned(), kind: PT::Address, indexed: true }, EventParam { name: "to".to_owned(), kind: PT::Address, indexed: true }, EventParam { name: "value".to_owned(), kind: PT::Uint(256), indexed: false }], anonymous: false } }
pub fn fil_transfer(a0: Topic<Address>, a1: Topic<Address>) -> TopicFilter { gen::events::transfer::filter(a0, a1) }
pub fn want_fil_transfer(a0: Topic<Address>, a1: Topic<Address>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::Address(x)), topic1: a1.map(|x| Token::Address(x)), topic2: Topic::Any, }; want_ev_transfer().filter(raw).unwrap() }
pub fn wild_transfer() -> TopicFilter { gen::events::transfer::wildcard_filter() }
pub fn want_wild_transfer() -> TopicFilter { want_ev_transfer().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_transfer(log: RawLog) -> R<(Address, Address, Uint)> { let l = gen::events::transfer::parse_log(log)?; Ok((l.from, l.to, l.value)) }
pub fn want_log_transfer(log: RawLog) -> R<(Address, Address, Uint)> { let mut it = want_ev_transfer().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_address().unwrap() }, { let v = it.next().unwrap().value; v.into_address().unwrap() }, { let v = it.next().unwrap().value; v.into_uint().unwrap() })) }
pub fn ev_mixed() -> Event { gen::events::mixed::event() }
pub fn want_ev_mixed() -> Event { Event { name: "Mixed".to_owned(), inputs: vec![EventParam { name: "s".to_owned(), kind: PT::String, indexed: true }, EventParam { name: "h".to_owned(), kind: PT::FixedBytes(32), indexed: false }, EventParam { name: "arr".to_owned(), kind: PT::Array(Box::new(PT::Uint(256))), indexed: true }, EventParam { name: "ok".to_owned(), kind: PT::Bool, indexed: false }, EventParam { name: "bs".to_owned(), kind: PT::Bytes, indexed: false }, EventParam { name: "fa".to_owned(), kind: PT::FixedArray(Box::new(PT::Address), 2), indexed: true }], anonymous: false } }
pub fn fil_mixed(a0: Topic<String>, a1: Topic<Vec<Uint>>, a2: Topic<[Address; 2]>) -> TopicFilter { gen::events::mixed::filter(a0, a1, a2) }
pub fn want_fil_mixed(a0: Topic<String>, a1: Topic<Vec<Uint>>, a2: Topic<[Address; 2]>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::String(x)), topic1: a1.map(|x| Token::Array(x.into_iter().map(|x| Token::Uint(x)).collect())), topic2: a2.map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Address(x)).collect())), }; want_ev_mixed().filter(raw).unwrap() }
pub fn wild_mixed() -> TopicFilter { gen::events::mixed::wildcard_filter() }
pub fn want_wild_mixed() -> TopicFilter { want_ev_mixed().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_mixed(log: RawLog) -> R<(Hash, Hash, Hash, bool, Bytes, Hash)> { let l = gen::events::mixed::parse_log(log)?; Ok((l.s, l.h, l.arr, l.ok, l.bs, l.fa)) }
pub fn want_log_mixed(log: RawLog) -> R<(Hash, Hash, Hash, bool, Bytes, Hash)> { let mut it = want_ev_mixed().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; v.into_bool().unwrap() }, { let v = it.next().unwrap().value; v.into_bytes().unwrap() }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) })) }
pub fn ev_anon() -> Event { gen::events::anon::event() }
pub fn want_ev_anon() -> Event { Event { name: "Anon".to_owned(), inputs: vec![EventParam { name: "x".to_owned(), kind: PT::Uint(256), indexed: true }, EventParam { name: "data".to_owned(), kind: PT::Bytes, indexed: false }, EventParam { name: "".to_owned(), kind: PT::Bool, indexed: true }, EventParam { name: "".to_owned(), kind: PT::Int(64), indexed: false }, EventParam { name: "id".to_owned(), kind: PT::FixedBytes(4), indexed: true }], anonymous: true } }
pub fn fil_anon(a0: Topic<Uint>, a1: Topic<bool>, a2: Topic<[u8; 4]>) -> TopicFilter { gen::events::anon::filter(a0, a1, a2) }
pub fn want_fil_anon(a0: Topic<Uint>, a1: Topic<bool>, a2: Topic<[u8; 4]>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::Uint(x)), topic1: a1.map(|x| Token::Bool(x)), topic2: a2.map(|x| Token::FixedBytes(x.to_vec())), }; want_ev_anon().filter(raw).unwrap() }
pub fn wild_anon() -> TopicFilter { gen::events::anon::wildcard_filter() }
pub fn want_wild_anon() -> TopicFilter { want_ev_anon().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_anon(log: RawLog) -> R<(Uint, Bytes, bool, Int, [u8; 4])> { let l = gen::events::anon::parse_log(log)?; Ok((l.x, l.data, l.topic2, l.param3, l.id)) }
pub fn want_log_anon(log: RawLog) -> R<(Uint, Bytes, bool, Int, [u8; 4])> { let mut it = want_ev_anon().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_bytes().unwrap() }, { let v = it.next().unwrap().value; v.into_bool().unwrap() }, { let v = it.next().unwrap().value; v.into_int().unwrap() }, { let v = it.next().unwrap().value; { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 4]; r.copy_from_slice(&v); r } })) }
pub fn ev_plain() -> Event { gen::events::plain::event() }
pub fn want_ev_plain() -> Event { Event { name: "Plain".to_owned(), inputs: vec![EventParam { name: "z".to_owned(), kind: PT::String, indexed: false }, EventParam { name: "a".to_owned(), kind: PT::Uint(8), indexed: false }, EventParam { name: "l".to_owned(), kind: PT::Array(Box::new(PT::Bool)), indexed: false }, EventParam { name: "f".to_owned(), kind: PT::FixedArray(Box::new(PT::FixedBytes(4)), 2), indexed: false }], anonymous: false } }
pub fn fil_plain() -> TopicFilter { gen::events::plain::filter() }
pub fn want_fil_plain() -> TopicFilter { let raw = RawTopicFilter {  topic0: Topic::Any,  topic1: Topic::Any,  topic2: Topic::Any, }; want_ev_plain().filter(raw).unwrap() }
pub fn wild_plain() -> TopicFilter { gen::events::plain::wildcard_filter() }
pub fn want_wild_plain() -> TopicFilter { want_ev_plain().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_plain(log: RawLog) -> R<(String, Uint, Vec<bool>, [[u8; 4]; 2])> { let l = gen::events::plain::parse_log(log)?; Ok((l.z, l.a, l.l, l.f)) }
pub fn want_log_plain(log: RawLog) -> R<(String, Uint, Vec<bool>, [[u8; 4]; 2])> { let mut it = want_ev_plain().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_string().unwrap() }, { let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_array().unwrap().into_iter().map(|x| x.into_bool().unwrap()).collect::<Vec<_>>() }, { let v = it.next().unwrap().value; { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); { let v = x.into_fixed_bytes().unwrap(); let mut r = [0u8; 4]; r.copy_from_slice(&v); r } }, { let x = it.next().unwrap(); { let v = x.into_fixed_bytes().unwrap(); let mut r = [0u8; 4]; r.copy_from_slice(&v); r } }] } })) }
pub fn ev_order() -> Event { gen::events::order::event() }
pub fn want_ev_order() -> Event { Event { name: "Order".to_owned(), inputs: vec![EventParam { name: "d1".to_owned(), kind: PT::Uint(8), indexed: false }, EventParam { name: "i1".to_owned(), kind: PT::Uint(256), indexed: true }, EventParam { name: "d2".to_owned(), kind: PT::Uint(16), indexed: false }, EventParam { name: "i2".to_owned(), kind: PT::FixedBytes(32), indexed: true }, EventParam { name: "d3".to_owned(), kind: PT::Uint(24), indexed: false }, EventParam { name: "i3".to_owned(), kind: PT::Bool, indexed: true }], anonymous: false } }
pub fn fil_order(a0: Topic<Uint>, a1: Topic<Hash>, a2: Topic<bool>) -> TopicFilter { gen::events::order::filter(a0, a1, a2) }
pub fn want_fil_order(a0: Topic<Uint>, a1: Topic<Hash>, a2: Topic<bool>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::Uint(x)), topic1: a1.map(|x| Token::FixedBytes(x.as_bytes().to_vec())), topic2: a2.map(|x| Token::Bool(x)), }; want_ev_order().filter(raw).unwrap() }
pub fn wild_order() -> TopicFilter { gen::events::order::wildcard_filter() }
pub fn want_wild_order() -> TopicFilter { want_ev_order().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_order(log: RawLog) -> R<(Uint, Uint, Uint, Hash, Uint, bool)> { let l = gen::events::order::parse_log(log)?; Ok((l.d1, l.i1, l.d2, l.i2, l.d3, l.i3)) }
pub fn want_log_order(log: RawLog) -> R<(Uint, Uint, Uint, Hash, Uint, bool)> { let mut it = want_ev_order().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_bool().unwrap() })) }
pub fn ev_nothing() -> Event { gen::events::nothing::event() }
pub fn want_ev_nothing() -> Event { Event { name: "Nothing".to_owned(), inputs: vec![], anonymous: false } }
pub fn fil_nothing() -> TopicFilter { gen::events::nothing::filter() }
pub fn want_fil_nothing() -> TopicFilter { let raw = RawTopicFilter {  topic0: Topic::Any,  topic1: Topic::Any,  topic2: Topic::Any, }; want_ev_nothing().filter(raw).unwrap() }
pub fn wild_nothing() -> TopicFilter { gen::events::nothing::wildcard_filter() }
pub fn want_wild_nothing() -> TopicFilter { want_ev_nothing().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_nothing(log: RawLog) -> R<()> { let l = gen::events::nothing::parse_log(log)?; Ok(()) }
pub fn want_log_nothing(log: RawLog) -> R<()> { let mut it = want_ev_nothing().parse_log(log)?.params.into_iter(); Ok(()) }
pub fn ev_kinds() -> Event { gen::events::kinds::event() }
pub fn want_ev_kinds() -> Event { Event { name: "Kinds".to_owned(), inputs: vec![EventParam { name: "a".to_owned(), kind: PT::Address, indexed: false }, EventParam { name: "b".to_owned(), kind: PT::Bytes, indexed: false }, EventParam { name: "c".to_owned(), kind: PT::FixedBytes(32), indexed: false }, EventParam { name: "d".to_owned(), kind: PT::FixedBytes(4), indexed: false }, EventParam { name: "e".to_owned(), kind: PT::Int(64), indexed: false }, EventParam { name: "f".to_owned(), kind: PT::Uint(256), indexed: false }, EventParam { name: "g".to_owned(), kind: PT::Bool, indexed: false }, EventParam { name: "h".to_owned(), kind: PT::String, indexed: false }, EventParam { name: "i".to_owned(), kind: PT::Array(Box::new(PT::Uint(8))), indexed: false }, EventParam { name: "j".to_owned(), kind: PT::FixedArray(Box::new(PT::Int(16)), 3), indexed: false }, EventParam { name: "k".to_owned(), kind: PT::Array(Box::new(PT::FixedBytes(32))), indexed: false }, EventParam { name: "l".to_owned(), kind: PT::FixedArray(Box::new(PT::Array(Box::new(PT::String))), 2), indexed: false }, EventParam { name: "m".to_owned(), kind: PT::Array(Box::new(PT::Array(Box::new(PT::Address)))), indexed: false }], anonymous: false } }
pub fn fil_kinds() -> TopicFilter { gen::events::kinds::filter() }
pub fn want_fil_kinds() -> TopicFilter { let raw = RawTopicFilter {  topic0: Topic::Any,  topic1: Topic::Any,  topic2: Topic::Any, }; want_ev_kinds().filter(raw).unwrap() }
pub fn wild_kinds() -> TopicFilter { gen::events::kinds::wildcard_filter() }
pub fn want_wild_kinds() -> TopicFilter { want_ev_kinds().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_kinds(log: RawLog) -> R<(Address, Bytes, Hash, [u8; 4], Int, Uint, bool, String, Vec<Uint>, [Int; 3], Vec<Hash>, [Vec<String>; 2], Vec<Vec<Address>>)> { let l = gen::events::kinds::parse_log(log)?; Ok((l.a, l.b, l.c, l.d, l.e, l.f, l.g, l.h, l.i, l.j, l.k, l.l, l.m)) }
pub fn want_log_kinds(log: RawLog) -> R<(Address, Bytes, Hash, [u8; 4], Int, Uint, bool, String, Vec<Uint>, [Int; 3], Vec<Hash>, [Vec<String>; 2], Vec<Vec<Address>>)> { let mut it = want_ev_kinds().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_address().unwrap() }, { let v = it.next().unwrap().value; v.into_bytes().unwrap() }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 4]; r.copy_from_slice(&v); r } }, { let v = it.next().unwrap().value; v.into_int().unwrap() }, { let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_bool().unwrap() }, { let v = it.next().unwrap().value; v.into_string().unwrap() }, { let v = it.next().unwrap().value; v.into_array().unwrap().into_iter().map(|x| x.into_uint().unwrap()).collect::<Vec<_>>() }, { let v = it.next().unwrap().value; { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_int().unwrap() }, { let x = it.next().unwrap(); x.into_int().unwrap() }, { let x = it.next().unwrap(); x.into_int().unwrap() }] } }, { let v = it.next().unwrap().value; v.into_array().unwrap().into_iter().map(|x| Hash::from({ let v = x.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r })).collect::<Vec<_>>() }, { let v = it.next().unwrap().value; { let mut it = v.into_fixed_array().unwrap().into_iter(); [{ let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| x.into_string().unwrap()).collect::<Vec<_>>() }, { let x = it.next().unwrap(); x.into_array().unwrap().into_iter().map(|x| x.into_string().unwrap()).collect::<Vec<_>>() }] } }, { let v = it.next().unwrap().value; v.into_array().unwrap().into_iter().map(|x| x.into_array().unwrap().into_iter().map(|x| x.into_address().unwrap()).collect::<Vec<_>>()).collect::<Vec<_>>() })) }
pub fn ev_index_one() -> Event { gen::events::index_one::event() }
pub fn want_ev_index_one() -> Event { Event { name: "IndexOne".to_owned(), inputs: vec![EventParam { name: "a".to_owned(), kind: PT::Int(64), indexed: true }, EventParam { name: "b".to_owned(), kind: PT::Bytes, indexed: true }, EventParam { name: "c".to_owned(), kind: PT::FixedArray(Box::new(PT::Array(Box::new(PT::Uint(8)))), 2), indexed: true }], anonymous: false } }
pub fn fil_index_one(a0: Topic<Int>, a1: Topic<Bytes>, a2: Topic<[Vec<Uint>; 2]>) -> TopicFilter { gen::events::index_one::filter(a0, a1, a2) }
pub fn want_fil_index_one(a0: Topic<Int>, a1: Topic<Bytes>, a2: Topic<[Vec<Uint>; 2]>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::Int(x)), topic1: a1.map(|x| Token::Bytes(x)), topic2: a2.map(|x| Token::FixedArray(x.into_iter().map(|x| Token::Array(x.into_iter().map(|x| Token::Uint(x)).collect())).collect())), }; want_ev_index_one().filter(raw).unwrap() }
pub fn wild_index_one() -> TopicFilter { gen::events::index_one::wildcard_filter() }
pub fn want_wild_index_one() -> TopicFilter { want_ev_index_one().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_index_one(log: RawLog) -> R<(Int, Hash, Hash)> { let l = gen::events::index_one::parse_log(log)?; Ok((l.a, l.b, l.c)) }
pub fn want_log_index_one(log: RawLog) -> R<(Int, Hash, Hash)> { let mut it = want_ev_index_one().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_int().unwrap() }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) })) }
pub fn ev_index_two() -> Event { gen::events::index_two::event() }
pub fn want_ev_index_two() -> Event { Event { name: "IndexTwo".to_owned(), inputs: vec![EventParam { name: "_a".to_owned(), kind: PT::FixedBytes(1), indexed: true }, EventParam { name: "theValue".to_owned(), kind: PT::FixedArray(Box::new(PT::String), 2), indexed: true }, EventParam { name: "".to_owned(), kind: PT::Array(Box::new(PT::FixedBytes(32))), indexed: true }, EventParam { name: "rest".to_owned(), kind: PT::Array(Box::new(PT::String)), indexed: false }], anonymous: false } }
pub fn fil_index_two(a0: Topic<[u8; 1]>, a1: Topic<[String; 2]>, a2: Topic<Vec<Hash>>) -> TopicFilter { gen::events::index_two::filter(a0, a1, a2) }
pub fn want_fil_index_two(a0: Topic<[u8; 1]>, a1: Topic<[String; 2]>, a2: Topic<Vec<Hash>>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::FixedBytes(x.to_vec())), topic1: a1.map(|x| Token::FixedArray(x.into_iter().map(|x| Token::String(x)).collect())), topic2: a2.map(|x| Token::Array(x.into_iter().map(|x| Token::FixedBytes(x.as_bytes().to_vec())).collect())), }; want_ev_index_two().filter(raw).unwrap() }
pub fn wild_index_two() -> TopicFilter { gen::events::index_two::wildcard_filter() }
pub fn want_wild_index_two() -> TopicFilter { want_ev_index_two().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_index_two(log: RawLog) -> R<([u8; 1], Hash, Hash, Vec<String>)> { let l = gen::events::index_two::parse_log(log)?; Ok((l.a, l.the_value, l.topic2, l.rest)) }
pub fn want_log_index_two(log: RawLog) -> R<([u8; 1], Hash, Hash, Vec<String>)> { let mut it = want_ev_index_two().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; { let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 1]; r.copy_from_slice(&v); r } }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; Hash::from({ let v = v.into_fixed_bytes().unwrap(); let mut r = [0u8; 32]; r.copy_from_slice(&v); r }) }, { let v = it.next().unwrap().value; v.into_array().unwrap().into_iter().map(|x| x.into_string().unwrap()).collect::<Vec<_>>() })) }
pub fn ev_index_three() -> Event { gen::events::index_three::event() }
pub fn want_ev_index_three() -> Event { Event { name: "IndexThree".to_owned(), inputs: vec![EventParam { name: "".to_owned(), kind: PT::Uint(256), indexed: false }, EventParam { name: "".to_owned(), kind: PT::Bool, indexed: true }, EventParam { name: "".to_owned(), kind: PT::Address, indexed: true }], anonymous: true } }
pub fn fil_index_three(a0: Topic<bool>, a1: Topic<Address>) -> TopicFilter { gen::events::index_three::filter(a0, a1) }
pub fn want_fil_index_three(a0: Topic<bool>, a1: Topic<Address>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::Bool(x)), topic1: a1.map(|x| Token::Address(x)), topic2: Topic::Any, }; want_ev_index_three().filter(raw).unwrap() }
pub fn wild_index_three() -> TopicFilter { gen::events::index_three::wildcard_filter() }
pub fn want_wild_index_three() -> TopicFilter { want_ev_index_three().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_index_three(log: RawLog) -> R<(Uint, bool, Address)> { let l = gen::events::index_three::parse_log(log)?; Ok((l.param0, l.topic1, l.topic2)) }
pub fn want_log_index_three(log: RawLog) -> R<(Uint, bool, Address)> { let mut it = want_ev_index_three().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_bool().unwrap() }, { let v = it.next().unwrap().value; v.into_address().unwrap() })) }
pub fn ev_index_last() -> Event { gen::events::index_last::event() }
pub fn want_ev_index_last() -> Event { Event { name: "IndexLast".to_owned(), inputs: vec![EventParam { name: "v".to_owned(), kind: PT::Uint(256), indexed: false }, EventParam { name: "w".to_owned(), kind: PT::String, indexed: false }, EventParam { name: "who".to_owned(), kind: PT::Address, indexed: true }], anonymous: false } }
pub fn fil_index_last(a0: Topic<Address>) -> TopicFilter { gen::events::index_last::filter(a0) }
pub fn want_fil_index_last(a0: Topic<Address>) -> TopicFilter { let raw = RawTopicFilter { topic0: a0.map(|x| Token::Address(x)), topic1: Topic::Any,  topic2: Topic::Any, }; want_ev_index_last().filter(raw).unwrap() }
pub fn wild_index_last() -> TopicFilter { gen::events::index_last::wildcard_filter() }
pub fn want_wild_index_last() -> TopicFilter { want_ev_index_last().filter(RawTopicFilter { topic0: Topic::Any, topic1: Topic::Any, topic2: Topic::Any }).unwrap() }
pub fn log_index_last(log: RawLog) -> R<(Uint, String, Address)> { let l = gen::events::index_last::parse_log(log)?; Ok((l.v, l.w, l.who)) }
pub fn want_log_index_last(log: RawLog) -> R<(Uint, String, Address)> { let mut it = want_ev_index_last().parse_log(log)?.params.into_iter(); Ok(({ let v = it.next().unwrap().value; v.into_uint().unwrap() }, { let v = it.next().unwrap().value; v.into_string().unwrap() }, { let v = it.next().unwrap().value; v.into_address().unwrap() })) }
pub fn ev_lower_case() -> Event { gen::events::lower_case::event() }
pub fn want_ev_lower_case() -> Event { Event { name: "lower_case".to_owned(), inputs: vec![EventParam { name: "x".to_owned(), kind: PT::Uint(256), indexed: false }], anonymous: false } }
