//! Runs the real crate on an input and turns what it returns into the monitors' own picture.

use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

use nrbf::{RemotingMessage, Value};

use crate::mval::{MMsg, MVal};
use crate::slot;

pub enum Out<'a> {
    Ok(RemotingMessage<'a>),
    Err(String),
    Panic(String),
}

pub fn panic_text(p: Box<dyn std::any::Any + Send>) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

/// Runs `f` while `input` is recorded as the input in progress.
pub fn watched<T>(input: &[u8], f: impl FnOnce() -> T) -> Result<T, String> {
    slot::enter(input);
    let r = catch_unwind(AssertUnwindSafe(f));
    slot::leave();
    r.map_err(panic_text)
}

pub fn parse(input: &[u8]) -> Out<'_> {
    match watched(input, || RemotingMessage::parse(input).map_err(|e| e.to_string())) {
        Ok(Ok(m)) => Out::Ok(m),
        Ok(Err(e)) => Out::Err(e),
        Err(p) => Out::Panic(p),
    }
}

/// What came out, in the monitors' own terms.
#[derive(Clone, Debug, PartialEq)]
pub enum Got {
    Msg(MMsg),
    Err(String),
    Panic(String),
}

impl Got {
    pub fn brief(&self) -> String {
        match self {
            Got::Msg(m) => format!("accepted: {}", m.brief()),
            Got::Err(e) => format!("rejected: {e}"),
            Got::Panic(p) => format!("panicked: {p}"),
        }
    }

    pub fn accepted(&self) -> bool {
        matches!(self, Got::Msg(_))
    }
}

pub fn run(input: &[u8]) -> Got {
    match watched(input, || RemotingMessage::parse(input).map(|m| msg(&m)).map_err(|e| e.to_string())) {
        Ok(Ok(m)) => Got::Msg(m),
        Ok(Err(e)) => Got::Err(e),
        Err(p) => Got::Panic(p),
    }
}

pub fn msg(m: &RemotingMessage<'_>) -> MMsg {
    let args = |a: &Option<Vec<Value<'_>>>| a.as_ref().map(|v| v.iter().map(val).collect::<Vec<_>>());
    match m {
        RemotingMessage::MethodCall(c) => MMsg::Call {
            method: c.method_name.to_string(),
            ty: c.type_name.to_string(),
            ctx: c.call_context.map(str::to_string),
            args: args(&c.args),
        },
        RemotingMessage::MethodReturn(r) => MMsg::Ret {
            ret: r.return_value.as_ref().map(val),
            ctx: r.call_context.map(str::to_string),
            args: args(&r.args),
        },
        RemotingMessage::Value(v) => MMsg::Val(val(v)),
    }
}

pub fn val(v: &Value<'_>) -> MVal {
    match v {
        Value::Object(o) => MVal::Obj {
            class: o.class.to_string(),
            lib: o.library.map(str::to_string),
            members: o.members.iter().map(|(k, v)| (k.to_string(), val(v))).collect::<BTreeMap<_, _>>(),
        },
        Value::Array(a) => MVal::Arr(a.iter().map(val).collect()),
        Value::Boolean(x) => MVal::Bool(*x),
        Value::Byte(x) => MVal::Byte(*x),
        Value::Char(x) => MVal::Char(*x),
        Value::Decimal(_) => MVal::Dec(decimal_text(v)),
        Value::Double(x) => MVal::Double(x.to_bits()),
        Value::Int16(x) => MVal::I16(*x),
        Value::Int32(x) => MVal::I32(*x),
        Value::Int64(x) => MVal::I64(*x),
        Value::SByte(x) => MVal::I8(*x),
        Value::Single(x) => MVal::Single(x.to_bits()),
        Value::TimeSpan(x) => MVal::Ts(x.value()),
        Value::DateTime(x) => MVal::Dt(datetime_raw(x, v)),
        Value::UInt16(x) => MVal::U16(*x),
        Value::UInt32(x) => MVal::U32(*x),
        Value::UInt64(x) => MVal::U64(*x),
        Value::String(s) => MVal::Str(s.to_string()),
        Value::Null => MVal::Null,
    }
}

#[cfg(feature = "serde")]
fn decimal_text(v: &Value<'_>) -> String {
    use serde::Deserialize;
    String::deserialize(RemotingMessage::Value(v.clone())).unwrap_or_else(|e| format!("no decimal text: {e}"))
}

#[cfg(not(feature = "serde"))]
fn decimal_text(v: &Value<'_>) -> String {
    format!("{v:?}")
}

#[cfg(feature = "serde")]
fn datetime_raw(_: &nrbf::value::DateTime, v: &Value<'_>) -> i64 {
    use serde::Deserialize;
    i64::deserialize(RemotingMessage::Value(v.clone())).unwrap_or(i64::MIN + 12345)
}

#[cfg(not(feature = "serde"))]
fn datetime_raw(d: &nrbf::value::DateTime, _: &Value<'_>) -> i64 {
    use nrbf::value::DateTimeKind::*;
    d.ticks() | (match d.kind() {
        None => 0,
        Some(Utc) => 1i64 << 62,
        Some(Local) => 2i64 << 62,
    })
}

/// Could this input denote an array with so many nulls that the monitor runs out of memory? Such
/// inputs are only run on purpose. Null runs in front of `from` are known to be harmless.
pub fn bomb(b: &[u8], from: usize) -> bool {
    const LIMIT: u64 = 300_000;
    let int = |i: usize| b.get(i..i + 4).map(|x| i32::from_le_bytes(x.try_into().unwrap())).unwrap_or(-1);
    let mut runs = 0u64;
    let mut room = 0u64;
    for (i, &x) in b.iter().enumerate() {
        match x {
            14 => {
                let n = int(i + 1).max(0) as u64;
                if n <= room && i >= from {
                    runs += n;
                }
            }
            16 | 17 => room = room.max(int(i + 5).max(0) as u64),
            7 if b.get(i + 5).is_some_and(|t| *t <= 5) => {
                let rank = int(i + 6).clamp(0, 40) as usize;
                let n = (0..rank).map(|d| int(i + 10 + 4 * d).max(0) as u64).fold(1u64, u64::saturating_mul);
                room = room.max(n);
            }
            _ => (),
        }
    }
    room > LIMIT && runs > LIMIT
}
