//! Reference: reading and writing JSON.
use ethabi::{Constructor, Contract, Event, EventParam, Function, Hash, Param, ParamType, StateMutability, Topic, TopicFilter, TupleParam};
use serde::de::{Deserializer, Error, IgnoredAny, MapAccess, SeqAccess, Visitor};
use serde::ser::{Serialize, SerializeMap, SerializeSeq, Serializer};
use std::collections::HashMap;
use std::fmt;

/// the name without a parameter list
fn plain(name: String) -> String {
    match name.find('(') {
        Some(i) => name[..i].to_owned(),
        None => name,
    }
}

/// An object with the given keys, each at most once, in any order; others are skipped.
macro_rules! object {
    ($fun:ident, $vis:ident, $out:ty, $($key:literal $var:ident : $t:ty $(= $conv:ident)?;)* => $fin:expr) => {
        pub fn $fun<'a, D: Deserializer<'a>>(d: D) -> Result<$out, D::Error> {
            d.deserialize_map($vis)
        }
        pub struct $vis;
        impl<'a> Visitor<'a> for $vis {
            type Value = $out;
            fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
                f.write_str("object")
            }
            fn visit_map<A: MapAccess<'a>>(self, mut map: A) -> Result<$out, A::Error> {
                $(let mut $var: Option<$t> = None;)*
                while let Some(key) = map.next_key::<String>()? {
                    $(if key == $key {
                        if $var.is_some() {
                            return Err(A::Error::duplicate_field($key));
                        }
                        let v: $t = map.next_value()?;
                        $(let v = $conv(v);)?
                        $var = Some(v);
                    } else)* {
                        map.next_value::<IgnoredAny>()?;
                    }
                }
                $fin($($var),*)
            }
        }
    };
}

/// the value of a required key
fn need<T, E: Error>(o: Option<T>) -> Result<T, E> {
    match o {
        Some(v) => Ok(v),
        None => Err(E::missing_field("")),
    }
}

/// the tuple inside any number of arrays
pub fn inner_tuple(mut param: &ParamType) -> Option<&Vec<ParamType>> {
    loop {
        match param {
            ParamType::Array(inner) => param = inner,
            ParamType::FixedArray(inner, _) => param = inner,
            ParamType::Tuple(inner) => return Some(inner),
            _ => return None,
        }
    }
}

pub fn inner_tuple_mut(mut param: &mut ParamType) -> Option<&mut Vec<ParamType>> {
    loop {
        match param {
            ParamType::Array(inner) => param = inner,
            ParamType::FixedArray(inner, _) => param = inner,
            ParamType::Tuple(inner) => return Some(inner),
            _ => return None,
        }
    }
}

/// tuples get the types of their components
fn with_components<E: Error>(mut kind: ParamType, components: Option<Vec<TupleParam>>) -> Result<ParamType, E> {
    if let Some(inner) = inner_tuple_mut(&mut kind) {
        match components {
            None => return Err(E::missing_field("components")),
            Some(cs) => {
                for c in cs {
                    inner.push(c.kind);
                }
            }
        }
    }
    Ok(kind)
}

object!(de_param, ParamV, Param,
    "name" name: String; "type" kind: ParamType; "components" components: Vec<TupleParam>; "internalType" internal_type: String;
    => |name, kind, components, internal_type|
        Ok(Param { name: need(name)?, kind: with_components(need(kind)?, components)?, internal_type }));

object!(de_tuple_param, TupleParamV, TupleParam,
    "name" name: String; "type" kind: ParamType; "components" components: Vec<TupleParam>; "internalType" internal_type: String;
    => |name, kind, components, internal_type|
        Ok(TupleParam { name, kind: with_components(need(kind)?, components)?, internal_type }));

object!(de_event_param, EventParamV, EventParam,
    "name" name: String; "type" kind: ParamType; "components" components: Vec<TupleParam>; "indexed" indexed: bool;
    => |name, kind, components, indexed: Option<bool>|
        Ok(EventParam { name: need(name)?, kind: with_components(need(kind)?, components)?, indexed: indexed.unwrap_or(false) }));

object!(de_constructor, ConstructorV, Constructor, "inputs" inputs: Vec<Param>; => |inputs| Ok(Constructor { inputs: need(inputs)? }));

object!(de_event, EventV, Event,
    "name" name: String = plain; "inputs" inputs: Vec<EventParam>; "anonymous" anonymous: bool;
    => |name, inputs, anonymous| Ok(Event { name: need(name)?, inputs: need(inputs)?, anonymous: need(anonymous)? }));

#[allow(deprecated)]
fn mk_function<E: Error>(name: Option<String>, inputs: Option<Vec<Param>>, outputs: Option<Vec<Param>>, constant: Option<bool>,
                         mutability: Option<StateMutability>) -> Result<Function, E> {
    Ok(Function {
        name: need(name)?,
        inputs: need(inputs)?,
        outputs: need(outputs)?,
        constant: match constant {
            Some(c) => c,
            None => false,
        },
        state_mutability: match mutability {
            Some(m) => m,
            None => StateMutability::NonPayable,
        },
    })
}

object!(de_function, FunctionV, Function,
    "name" name: String = plain; "inputs" inputs: Vec<Param>; "outputs" outputs: Vec<Param>; "constant" constant: bool;
    "stateMutability" mutability: StateMutability;
    => mk_function::<A::Error>);

pub fn de_state_mutability<'a, D: Deserializer<'a>>(d: D) -> Result<StateMutability, D::Error> {
    d.deserialize_str(MutabilityV)
}
pub struct MutabilityV;
impl<'a> Visitor<'a> for MutabilityV {
    type Value = StateMutability;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("name")
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<StateMutability, E> {
        match s {
            "pure" => Ok(StateMutability::Pure),
            "view" => Ok(StateMutability::View),
            "nonpayable" => Ok(StateMutability::NonPayable),
            "payable" => Ok(StateMutability::Payable),
            _ => Err(E::custom("")),
        }
    }
}

pub fn de_param_type<'a, D: Deserializer<'a>>(d: D) -> Result<ParamType, D::Error> {
    d.deserialize_str(ParamTypeV)
}
pub struct ParamTypeV;
impl<'a> Visitor<'a> for ParamTypeV {
    type Value = ParamType;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("type name")
    }
    fn visit_str<E: Error>(self, s: &str) -> Result<ParamType, E> {
        match ethabi::param_type::Reader::read(s) {
            Ok(t) => Ok(t),
            Err(_) => Err(E::custom("")),
        }
    }
}

/// the operations of a document
#[derive(serde::Deserialize)]
pub enum Op {
    Constructor(Constructor),
    Function(Function),
    Event(Event),
    Fallback,
    Receive,
}

/// operations are told apart by their "type"
#[derive(serde::Deserialize)]
#[serde(tag = "type", rename_all = "lowercase")]
pub enum OpDoc {
    Constructor(Constructor),
    Function(Function),
    Event(Event),
    Fallback,
    Receive,
}

pub fn de_operation<'a, D: Deserializer<'a>>(d: D) -> Result<Op, D::Error> {
    <OpDoc as serde::Deserialize>::deserialize(d).map(|o| match o {
        OpDoc::Constructor(c) => Op::Constructor(c),
        OpDoc::Function(f) => Op::Function(f),
        OpDoc::Event(e) => Op::Event(e),
        OpDoc::Fallback => Op::Fallback,
        OpDoc::Receive => Op::Receive,
    })
}

pub fn de_contract<'a, D: Deserializer<'a>>(d: D) -> Result<Contract, D::Error> {
    d.deserialize_seq(ContractV)
}
pub struct ContractV;
impl<'a> Visitor<'a> for ContractV {
    type Value = Contract;
    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("array of operations")
    }
    fn visit_seq<A: SeqAccess<'a>>(self, mut seq: A) -> Result<Contract, A::Error> {
        let mut constructor = None;
        let mut functions: HashMap<String, Vec<Function>> = HashMap::new();
        let mut events: HashMap<String, Vec<Event>> = HashMap::new();
        let mut receive = false;
        let mut fallback = false;
        while let Some(op) = seq.next_element::<Op>()? {
            match op {
                Op::Constructor(c) => constructor = Some(c),
                Op::Function(f) => functions.entry(f.name.clone()).or_default().push(f),
                Op::Event(e) => events.entry(e.name.clone()).or_default().push(e),
                Op::Fallback => fallback = true,
                Op::Receive => receive = true,
            }
        }
        Ok(Contract { constructor, functions, events, receive, fallback })
    }
}

// ---------------------------------------------------------------- writing
pub struct SerParam<'a>(pub &'a ParamType);

/// a tuple component is written with its type and its own components
pub fn ser_component<S: Serializer>(p: &SerParam<'_>, s: S) -> Result<S::Ok, S::Error> {
    let mut map = s.serialize_map(None)?;
    kind_entries::<S>(&mut map, p.0)?;
    map.end()
}

impl Serialize for SerParam<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        ser_component(self, s)
    }
}

pub struct SerParams<'a>(pub &'a Vec<ParamType>);

impl Serialize for SerParams<'_> {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        let mut seq = s.serialize_seq(None)?;
        for p in self.0 {
            seq.serialize_element(&SerParam(p))?;
        }
        seq.end()
    }
}

fn kind_entries<S: Serializer>(map: &mut S::SerializeMap, kind: &ParamType) -> Result<(), S::Error> {
    map.serialize_entry("type", &ethabi::param_type::Writer::write_for_abi(kind, false))?;
    if let Some(inner) = inner_tuple(kind) {
        map.serialize_entry("components", &SerParams(inner))?;
    }
    Ok(())
}

pub fn ser_param<S: Serializer>(p: &Param, s: S) -> Result<S::Ok, S::Error> {
    let mut map = s.serialize_map(None)?;
    if let Some(t) = &p.internal_type {
        map.serialize_entry("internalType", t)?;
    }
    map.serialize_entry("name", &p.name)?;
    kind_entries::<S>(&mut map, &p.kind)?;
    map.end()
}

pub fn ser_tuple_param<S: Serializer>(p: &TupleParam, s: S) -> Result<S::Ok, S::Error> {
    let mut map = s.serialize_map(None)?;
    if let Some(t) = &p.internal_type {
        map.serialize_entry("internalType", t)?;
    }
    if let Some(n) = &p.name {
        map.serialize_entry("name", n)?;
    }
    kind_entries::<S>(&mut map, &p.kind)?;
    map.end()
}

pub fn ser_event_param<S: Serializer>(p: &EventParam, s: S) -> Result<S::Ok, S::Error> {
    let mut map = s.serialize_map(None)?;
    map.serialize_entry("name", &p.name)?;
    map.serialize_entry("indexed", &p.indexed)?;
    kind_entries::<S>(&mut map, &p.kind)?;
    map.end()
}

pub fn ser_constructor<S: Serializer>(c: &Constructor, s: S) -> Result<S::Ok, S::Error> {
    let mut map = s.serialize_map(None)?;
    map.serialize_entry("inputs", &c.inputs)?;
    map.end()
}

#[allow(deprecated)]
pub fn ser_function<S: Serializer>(f: &Function, s: S) -> Result<S::Ok, S::Error> {
    let mut map = s.serialize_map(None)?;
    map.serialize_entry("name", &f.name)?;
    map.serialize_entry("inputs", &f.inputs)?;
    map.serialize_entry("outputs", &f.outputs)?;
    map.serialize_entry("constant", &f.constant)?;
    map.serialize_entry("stateMutability", &f.state_mutability)?;
    map.end()
}

pub fn ser_event<S: Serializer>(e: &Event, s: S) -> Result<S::Ok, S::Error> {
    let mut map = s.serialize_map(None)?;
    map.serialize_entry("name", &e.name)?;
    map.serialize_entry("inputs", &e.inputs)?;
    map.serialize_entry("anonymous", &e.anonymous)?;
    map.end()
}

pub fn ser_state_mutability<S: Serializer>(m: &StateMutability, s: S) -> Result<S::Ok, S::Error> {
    s.serialize_str(match m {
        StateMutability::Pure => "pure",
        StateMutability::View => "view",
        StateMutability::NonPayable => "nonpayable",
        StateMutability::Payable => "payable",
    })
}

#[derive(serde::Serialize)]
#[serde(tag = "type", rename_all = "lowercase")]
enum OpRef<'a> {
    Constructor(&'a Constructor),
    Function(&'a Function),
    Event(&'a Event),
    Fallback,
    Receive,
}

pub fn ser_operation<S: Serializer>(op: &Op, s: S) -> Result<S::Ok, S::Error> {
    match op {
        Op::Constructor(c) => OpRef::Constructor(c),
        Op::Function(f) => OpRef::Function(f),
        Op::Event(e) => OpRef::Event(e),
        Op::Fallback => OpRef::Fallback,
        Op::Receive => OpRef::Receive,
    }
    .serialize(s)
}

pub fn ser_contract<S: Serializer>(c: &Contract, s: S) -> Result<S::Ok, S::Error> {
    let mut seq = s.serialize_seq(None)?;
    if let Some(x) = &c.constructor {
        seq.serialize_element(&OpRef::Constructor(x))?;
    }
    for fs in c.functions.values() {
        for f in fs {
            seq.serialize_element(&OpRef::Function(f))?;
        }
    }
    for es in c.events.values() {
        for e in es {
            seq.serialize_element(&OpRef::Event(e))?;
        }
    }
    if c.receive {
        seq.serialize_element(&OpRef::Receive)?;
    }
    if c.fallback {
        seq.serialize_element(&OpRef::Fallback)?;
    }
    seq.end()
}

/// a topic is null, a hash, or a list of hashes
pub fn ser_topic<S: Serializer>(t: &Topic<Hash>, s: S) -> Result<S::Ok, S::Error> {
    match t {
        Topic::Any => s.serialize_unit(),
        Topic::This(h) => s.serialize_str(&format!("0x{:x}", h)),
        Topic::OneOf(hs) => {
            let mut seq = s.serialize_seq(None)?;
            for h in hs {
                seq.serialize_element(&format!("0x{:x}", h))?;
            }
            seq.end()
        }
    }
}

pub fn ser_topic_filter<S: Serializer>(f: &TopicFilter, s: S) -> Result<S::Ok, S::Error> {
    let mut seq = s.serialize_seq(None)?;
    seq.serialize_element(&f.topic0)?;
    seq.serialize_element(&f.topic1)?;
    seq.serialize_element(&f.topic2)?;
    seq.serialize_element(&f.topic3)?;
    seq.end()
}
