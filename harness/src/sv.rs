//! What serde presents to a type: a recorder of every visitor call, and the calls that the
//! properties demand for a parsed value.

use std::cell::Cell;
use std::fmt;

use nrbf::Value;
use serde::de::{self, Deserialize, Deserializer, EnumAccess, MapAccess, SeqAccess, Visitor};

thread_local! {
    static RANGE: Cell<(usize, usize)> = const { Cell::new((0, 0)) };
    static TAKE: Cell<usize> = const { Cell::new(usize::MAX) };
}

/// Recorders take no more than so many elements of a sequence, as a fixed-size type does.
pub fn set_take(n: usize) {
    TAKE.with(|t| t.set(n));
}

/// The lengths of all sequences.
pub fn lengths(v: &Sv, out: &mut Vec<usize>) {
    match v {
        Sv::Some(x) | Sv::Newtype(x) | Sv::Enum(x) => lengths(x, out),
        Sv::Seq(s) => {
            out.push(s.len());
            s.iter().for_each(|x| lengths(x, out));
        }
        Sv::Map(m) => m.iter().for_each(|(_, x)| lengths(x, out)),
        _ => (),
    }
}

/// Borrowed strings are only counted as borrowed if they lie in this slice.
pub fn set_input(input: &[u8]) {
    RANGE.with(|r| r.set((input.as_ptr() as usize, input.len())));
}

fn inside(s: &str) -> bool {
    let (base, len) = RANGE.with(|r| r.get());
    let p = s.as_ptr() as usize;
    s.is_empty() || (p >= base && p + s.len() <= base + len)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Sv {
    Bool(bool),
    I8(i8),
    I16(i16),
    I32(i32),
    I64(i64),
    I128(i128),
    U8(u8),
    U16(u16),
    U32(u32),
    U64(u64),
    U128(u128),
    F32(u32),
    F64(u64),
    Char(char),
    Str(String),
    String(String),
    /// borrowed from the input
    Borrowed(String),
    /// handed over as borrowed, but lying elsewhere
    Strange(String),
    Bytes(Vec<u8>),
    Unit,
    None,
    Some(Box<Sv>),
    Newtype(Box<Sv>),
    Seq(Vec<Sv>),
    /// sorted by key
    Map(Vec<(Sv, Sv)>),
    Enum(Box<Sv>),
}

/// Every call is recorded by what the deserializer presents of its own accord.
pub struct Any(pub Sv);
/// As `Any`, but asks for options.
pub struct Opt(pub Sv);
/// As `Any`, but asks for structs.
pub struct Struct(pub Sv);
/// As `Any`, but asks for newtype structs.
pub struct Newtype(pub Sv);

struct Rec(Mode);

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Any,
    Opt,
    Struct,
    Newtype,
}

fn one<'de, D: Deserializer<'de>>(m: Mode, d: D) -> Result<Sv, D::Error> {
    match m {
        Mode::Any => d.deserialize_any(Rec(m)),
        Mode::Opt => d.deserialize_option(Rec(m)),
        Mode::Struct => d.deserialize_struct("Struct", &["a", "b"], Rec(m)),
        Mode::Newtype => d.deserialize_newtype_struct("Newtype", Rec(m)),
    }
}

struct Seed(Mode);

impl<'de> de::DeserializeSeed<'de> for Seed {
    type Value = Sv;
    fn deserialize<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        one(self.0, d)
    }
}

impl<'de> Visitor<'de> for Rec {
    type Value = Sv;

    fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str("anything")
    }
    fn visit_bool<E>(self, v: bool) -> Result<Sv, E> {
        Ok(Sv::Bool(v))
    }
    fn visit_i8<E>(self, v: i8) -> Result<Sv, E> {
        Ok(Sv::I8(v))
    }
    fn visit_i16<E>(self, v: i16) -> Result<Sv, E> {
        Ok(Sv::I16(v))
    }
    fn visit_i32<E>(self, v: i32) -> Result<Sv, E> {
        Ok(Sv::I32(v))
    }
    fn visit_i64<E>(self, v: i64) -> Result<Sv, E> {
        Ok(Sv::I64(v))
    }
    fn visit_i128<E>(self, v: i128) -> Result<Sv, E> {
        Ok(Sv::I128(v))
    }
    fn visit_u8<E>(self, v: u8) -> Result<Sv, E> {
        Ok(Sv::U8(v))
    }
    fn visit_u16<E>(self, v: u16) -> Result<Sv, E> {
        Ok(Sv::U16(v))
    }
    fn visit_u32<E>(self, v: u32) -> Result<Sv, E> {
        Ok(Sv::U32(v))
    }
    fn visit_u64<E>(self, v: u64) -> Result<Sv, E> {
        Ok(Sv::U64(v))
    }
    fn visit_u128<E>(self, v: u128) -> Result<Sv, E> {
        Ok(Sv::U128(v))
    }
    fn visit_f32<E>(self, v: f32) -> Result<Sv, E> {
        Ok(Sv::F32(v.to_bits()))
    }
    fn visit_f64<E>(self, v: f64) -> Result<Sv, E> {
        Ok(Sv::F64(v.to_bits()))
    }
    fn visit_char<E>(self, v: char) -> Result<Sv, E> {
        Ok(Sv::Char(v))
    }
    fn visit_str<E>(self, v: &str) -> Result<Sv, E> {
        Ok(Sv::Str(v.into()))
    }
    fn visit_string<E>(self, v: String) -> Result<Sv, E> {
        Ok(Sv::String(v))
    }
    fn visit_borrowed_str<E>(self, v: &'de str) -> Result<Sv, E> {
        Ok(if inside(v) { Sv::Borrowed(v.into()) } else { Sv::Strange(v.into()) })
    }
    fn visit_bytes<E>(self, v: &[u8]) -> Result<Sv, E> {
        Ok(Sv::Bytes(v.into()))
    }
    fn visit_unit<E>(self) -> Result<Sv, E> {
        Ok(Sv::Unit)
    }
    fn visit_none<E>(self) -> Result<Sv, E> {
        Ok(Sv::None)
    }
    fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        // asking for an option again would never end
        d.deserialize_any(Rec(self.0)).map(|v| Sv::Some(Box::new(v)))
    }
    fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Sv, D::Error> {
        d.deserialize_any(Rec(self.0)).map(|v| Sv::Newtype(Box::new(v)))
    }
    fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Sv, A::Error> {
        let mut v = vec![];
        let take = TAKE.with(|t| t.get());
        while v.len() < take {
            let Some(x) = a.next_element_seed(Seed(self.0))? else { break };
            v.push(x);
        }
        Ok(Sv::Seq(v))
    }
    fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Sv, A::Error> {
        let mut v = vec![];
        while let Some(k) = a.next_key_seed(Seed(Mode::Any))? {
            // names of struct fields need not be borrowed
            let k = match k {
                Sv::Str(k) if self.0 == Mode::Struct => Sv::Borrowed(k),
                k => k,
            };
            v.push((k, a.next_value_seed(Seed(self.0))?));
        }
        v.sort_by_cached_key(|(k, _)| format!("{k:?}"));
        Ok(Sv::Map(v))
    }
    fn visit_enum<A: EnumAccess<'de>>(self, a: A) -> Result<Sv, A::Error> {
        a.variant_seed(Seed(Mode::Any)).map(|(v, _)| Sv::Enum(Box::new(v)))
    }
}

impl<'de> Deserialize<'de> for Any {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        one(Mode::Any, d).map(Any)
    }
}
impl<'de> Deserialize<'de> for Opt {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        one(Mode::Opt, d).map(Opt)
    }
}
impl<'de> Deserialize<'de> for Struct {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        one(Mode::Struct, d).map(Struct)
    }
}
impl<'de> Deserialize<'de> for Newtype {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        one(Mode::Newtype, d).map(Newtype)
    }
}

/// The twelve boxed primitives.
pub const BOXED: [&str; 12] = [
    "System.Boolean",
    "System.Byte",
    "System.SByte",
    "System.Char",
    "System.Double",
    "System.Single",
    "System.Int32",
    "System.UInt32",
    "System.Int64",
    "System.UInt64",
    "System.Int16",
    "System.UInt16",
];

pub const LIST: &str = "System.Collections.Generic.List";

/// What a value has to be presented as. `Err` where an error is demanded.
#[derive(Clone, Copy, PartialEq)]
pub enum Open {
    /// the properties leave it open
    Unspecified,
    /// an error
    Error,
}

fn key(k: &str) -> Sv {
    Sv::Borrowed(k.into())
}

fn members(o: &nrbf::value::Object<'_>, m: Mode) -> Result<Sv, Open> {
    let mut v = vec![];
    let mut bad = None;
    for (k, x) in &o.members {
        match want(x, m) {
            Ok(x) => v.push((key(k), x)),
            Err(Open::Unspecified) => return Err(Open::Unspecified),
            Err(Open::Error) => bad = Some(Open::Error),
        }
    }
    if let Some(b) = bad {
        return Err(b);
    }
    v.sort_by_cached_key(|(k, _)| format!("{k:?}"));
    Ok(Sv::Map(v))
}

/// `m`: what the type asks for at this place and below.
pub fn want(v: &Value<'_>, m: Mode) -> Result<Sv, Open> {
    match (m, v) {
        (Mode::Opt, Value::Null) => Ok(Sv::None),
        // the recorder asks for anything inside `some`, and for options again below
        (Mode::Opt, v) => want_any(v, m).map(|v| Sv::Some(Box::new(v))),
        (Mode::Newtype, v) => want_any(v, m).map(|v| Sv::Newtype(Box::new(v))),
        (Mode::Struct, Value::Object(o)) => members(o, m),
        (_, v) => want_any(v, m),
    }
}

fn want_any(v: &Value<'_>, m: Mode) -> Result<Sv, Open> {
    Ok(match v {
        Value::Boolean(x) => Sv::Bool(*x),
        Value::Byte(x) => Sv::U8(*x),
        Value::SByte(x) => Sv::I8(*x),
        Value::Char(x) => Sv::Char(*x),
        Value::Int16(x) => Sv::I16(*x),
        Value::Int32(x) => Sv::I32(*x),
        Value::Int64(x) => Sv::I64(*x),
        Value::UInt16(x) => Sv::U16(*x),
        Value::UInt32(x) => Sv::U32(*x),
        Value::UInt64(x) => Sv::U64(*x),
        Value::Single(x) => Sv::F32(x.to_bits()),
        Value::Double(x) => Sv::F64(x.to_bits()),
        Value::TimeSpan(x) => Sv::I64(x.value()),
        Value::DateTime(x) => Sv::I64(
            x.ticks()
                | match x.kind() {
                    None => 0,
                    Some(nrbf::value::DateTimeKind::Utc) => 1 << 62,
                    Some(nrbf::value::DateTimeKind::Local) => 2 << 62,
                },
        ),
        // the text is checked where the encoded one is known
        Value::Decimal(_) => Sv::String("decimal".into()),
        Value::String(s) => Sv::Borrowed(s.to_string()),
        Value::Null => Sv::Unit,
        Value::Array(a) => {
            let mut out = vec![];
            let mut bad = None;
            for x in a {
                match want(x, m) {
                    Ok(x) => out.push(x),
                    Err(Open::Unspecified) => return Err(Open::Unspecified),
                    Err(Open::Error) => bad = Some(Open::Error),
                }
            }
            if let Some(b) = bad {
                return Err(b);
            }
            Sv::Seq(out)
        }
        Value::Object(o) => {
            if o.library.is_some() {
                return members(o, m);
            }
            let name = o.class.split('`').next().unwrap_or("");
            if BOXED.contains(&name) {
                if o.class != name {
                    return Err(Open::Unspecified);
                }
                if o.members.len() != 1 {
                    return Err(Open::Error);
                }
                let (k, x) = o.members.iter().next().unwrap();
                // a boxed class has the member m_value, some writers call it value
                if *k != "m_value" && *k != "value" {
                    return Err(Open::Error);
                }
                if *k != "m_value" {
                    return Err(Open::Unspecified);
                }
                match (name, x) {
                    ("System.Boolean", Value::Boolean(_))
                    | ("System.Byte", Value::Byte(_))
                    | ("System.SByte", Value::SByte(_))
                    | ("System.Char", Value::Char(_))
                    | ("System.Double", Value::Double(_))
                    | ("System.Single", Value::Single(_))
                    | ("System.Int32", Value::Int32(_))
                    | ("System.UInt32", Value::UInt32(_))
                    | ("System.Int64", Value::Int64(_))
                    | ("System.UInt64", Value::UInt64(_))
                    | ("System.Int16", Value::Int16(_))
                    | ("System.UInt16", Value::UInt16(_)) => return want_any(x, m),
                    (_, Value::String(_) | Value::Array(_) | Value::Null | Value::Boolean(_)) => return Err(Open::Error),
                    // another number type
                    _ => return Err(Open::Unspecified),
                }
            }
            if name == LIST {
                let (items, size, version) = (o.members.get("_items"), o.members.get("_size"), o.members.get("_version"));
                let (Some(Value::Array(items)), Some(Value::Int32(size)), Some(Value::Int32(_)), 3) =
                    (items, size, version, o.members.len())
                else {
                    return Err(Open::Error);
                };
                if *size < 0 || *size as usize > items.len() {
                    return Err(Open::Error);
                }
                let mut out = vec![];
                for x in &items[..*size as usize] {
                    out.push(want(x, m)?);
                }
                return Ok(Sv::Seq(out));
            }
            return members(o, m);
        }
    })
}

/// Replaces every decimal text, which `want` does not know.
pub fn mask_decimals(v: &Value<'_>, got: &mut Sv) {
    match (v, got) {
        (_, Sv::Some(x) | Sv::Newtype(x)) => mask_decimals(v, x),
        (Value::Decimal(_), got @ Sv::String(_)) => *got = Sv::String("decimal".into()),
        // the fourth kind has no meaning, and the parsed value does not tell it from none
        (Value::DateTime(d), Sv::I64(x)) if d.kind().is_none() && *x >> 62 == -1 => *x &= !(3 << 62),
        (Value::Array(a), Sv::Seq(s)) => {
            for (x, y) in a.iter().zip(s) {
                mask_decimals(x, y);
            }
        }
        (Value::Object(o), Sv::Map(m)) => {
            for (k, y) in m {
                if let Sv::Borrowed(k) = k {
                    if let Some(x) = o.members.get(k.as_str()) {
                        mask_decimals(x, y);
                    }
                }
            }
        }
        (Value::Object(o), s @ Sv::Seq(_)) => {
            if let Some(x) = o.members.get("_items") {
                mask_decimals(x, s);
            }
        }
        (Value::Object(o), got) => {
            for x in o.members.values() {
                mask_decimals(x, got);
            }
        }
        _ => (),
    }
}
