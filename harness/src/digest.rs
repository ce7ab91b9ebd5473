//! A text which shows everything that can be observed of a result, and checks on its parts. Also
//! part of the probe, which is built with other features, profiles and sanitizers.

use std::fmt::Write;

use nrbf::{MethodCall, MethodReturn, RemotingMessage, Value};

fn kind(x: &nrbf::value::DateTime) -> &'static str {
    use nrbf::value::DateTimeKind::*;
    match x.kind() {
        None => "unspecified",
        Some(Utc) => "UTC",
        Some(Local) => "local",
    }
}

/// FNV-1a over words, for comparing texts.
pub fn hash(b: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for c in b.chunks(8) {
        let mut x = 0u64;
        for (i, v) in c.iter().enumerate() {
            x |= u64::from(*v) << (8 * i);
        }
        h = (h ^ x).wrapping_mul(0x9E3779B97F4A7C15);
        h ^= h >> 29;
    }
    (h ^ b.len() as u64).wrapping_mul(0xD6E8FEB86659FD93)
}

#[derive(Default)]
pub struct Pic {
    pub text: String,
    /// values which must not exist
    pub invalid: Option<String>,
    pub strings: u64,
    pub values: u64,
}

impl Pic {
    /// A string: valid, and quoted.
    fn s(&mut self, s: &str) {
        self.strings += 1;
        let b = std::hint::black_box(s.as_bytes());
        if std::str::from_utf8(b).is_err() {
            self.invalid.get_or_insert_with(|| format!("a string of these bytes exists: {b:02x?}"));
            self.text.push_str("INVALID");
            return;
        }
        // lengths instead of quotes
        let _ = write!(self.text, "{}'", s.len());
        self.text.push_str(s);
    }

    fn opt(&mut self, s: Option<&str>) {
        match s {
            None => self.text.push('-'),
            Some(s) => self.s(s),
        }
        self.text.push(' ');
    }

    fn invalid(&mut self, what: String) {
        self.invalid.get_or_insert(what);
    }

    pub fn val(&mut self, v: &Value<'_>) {
        self.values += 1;
        match v {
            Value::Object(o) => {
                self.text.push('{');
                self.s(o.class);
                self.text.push(' ');
                self.opt(o.library);
                let mut names: Vec<&str> = o.members.keys().copied().collect();
                names.sort_unstable();
                for n in names {
                    self.s(n);
                    self.text.push('=');
                    match o.members.get(n) {
                        Some(v) => self.val(v),
                        None => self.text.push_str("NOT FOUND"),
                    }
                    self.text.push(',');
                }
                self.text.push('}');
            }
            Value::Array(a) => {
                self.text.push('[');
                for v in a {
                    self.val(v);
                    self.text.push(',');
                }
                self.text.push(']');
            }
            Value::Boolean(x) => {
                let raw = unsafe { std::ptr::from_ref(x).cast::<u8>().read_volatile() };
                if raw > 1 {
                    self.invalid(format!("a bool with the value {raw} exists"));
                }
                let _ = write!(self.text, "b{raw}");
            }
            Value::Char(x) => {
                let raw = unsafe { std::ptr::from_ref(x).cast::<u32>().read_volatile() };
                if char::from_u32(raw).is_none() {
                    self.invalid(format!("a char with the value {raw:#x} exists"));
                }
                let _ = write!(self.text, "c{raw}");
            }
            Value::Byte(x) => drop(write!(self.text, "u8 {x}")),
            Value::Decimal(x) => drop(write!(self.text, "{x:?}")),
            Value::Double(x) => drop(write!(self.text, "d{:x}", x.to_bits())),
            Value::Int16(x) => drop(write!(self.text, "i16 {x}")),
            Value::Int32(x) => drop(write!(self.text, "i32 {x}")),
            Value::Int64(x) => drop(write!(self.text, "i64 {x}")),
            Value::SByte(x) => drop(write!(self.text, "i8 {x}")),
            Value::Single(x) => drop(write!(self.text, "f{:x}", x.to_bits())),
            Value::TimeSpan(x) => drop(write!(self.text, "span {}", x.value())),
            Value::DateTime(x) => drop(write!(self.text, "date {} {}", x.ticks(), kind(x))),
            Value::UInt16(x) => drop(write!(self.text, "u16 {x}")),
            Value::UInt32(x) => drop(write!(self.text, "u32 {x}")),
            Value::UInt64(x) => drop(write!(self.text, "u64 {x}")),
            Value::String(x) => self.s(x),
            Value::Null => self.text.push('0'),
        }
    }

    fn args(&mut self, a: &Option<Vec<Value<'_>>>) {
        match a {
            None => self.text.push('-'),
            Some(a) => {
                let _ = write!(self.text, "{}:", a.len());
                for v in a {
                    self.val(v);
                    self.text.push(',');
                }
            }
        }
    }

    pub fn msg(&mut self, m: &RemotingMessage<'_>) {
        match m {
            RemotingMessage::MethodCall(MethodCall { method_name, type_name, call_context, args, .. }) => {
                self.text.push_str("call ");
                self.s(method_name);
                self.text.push(' ');
                self.s(type_name);
                self.text.push(' ');
                self.opt(*call_context);
                self.args(args);
            }
            RemotingMessage::MethodReturn(MethodReturn { return_value, call_context, args, .. }) => {
                self.text.push_str("return ");
                match return_value {
                    None => self.text.push('-'),
                    Some(v) => self.val(v),
                }
                self.text.push(' ');
                self.opt(*call_context);
                self.args(args);
            }
            RemotingMessage::Value(v) => {
                self.text.push_str("value ");
                self.val(v);
            }
        }
    }

    pub fn result(&mut self, r: &Result<RemotingMessage<'_>, nrbf::Error<'_>>) {
        match r {
            Ok(m) => self.msg(m),
            Err(e) => {
                let e = e.to_string();
                self.text.push_str("error ");
                self.s(&e);
            }
        }
    }
}

pub fn of(r: &Result<RemotingMessage<'_>, nrbf::Error<'_>>) -> Pic {
    let mut p = Pic::default();
    p.result(r);
    p
}

/// What parsing gives.
pub fn parsed(input: &[u8]) -> Pic {
    of(&RemotingMessage::parse(input))
}

/// What deserializing gives: everything that a visitor is offered.
#[cfg(feature = "serde")]
pub fn deserialized(input: &[u8]) -> Pic {
    let mut p = Pic::default();
    match nrbf::from_slice::<rec::Rec>(input) {
        Ok(r) => {
            p.text = r.0;
            p.invalid = r.1;
        }
        Err(e) => {
            p.text.push_str("error ");
            let e = e.to_string();
            // otherwise the first of several members which fail
            if e.starts_with("parsing error") {
                p.s(&e);
            }
        }
    }
    p
}

#[cfg(not(feature = "serde"))]
pub fn deserialized(_: &[u8]) -> Pic {
    Pic::default()
}

#[cfg(feature = "serde")]
mod rec {
    use std::fmt;

    use serde::Deserialize;
    use serde::de::{Deserializer, EnumAccess, Error, MapAccess, SeqAccess, Visitor};

    pub struct Rec(pub String, pub Option<String>);

    struct V;

    fn text(kind: &str, s: &str) -> Rec {
        let b = std::hint::black_box(s.as_bytes());
        match std::str::from_utf8(b) {
            Ok(s) => Rec(format!("{kind}{}'{s}", s.len()), None),
            Err(_) => Rec("INVALID".into(), Some(format!("a string of these bytes exists: {b:02x?}"))),
        }
    }

    macro_rules! simple {
        ($($f:ident $t:ty),*) => {
            $(fn $f<E: Error>(self, v: $t) -> Result<Rec, E> {
                Ok(Rec(format!("{} {v}", stringify!($t)), None))
            })*
        };
    }

    impl<'de> Visitor<'de> for V {
        type Value = Rec;

        fn expecting(&self, f: &mut fmt::Formatter) -> fmt::Result {
            f.write_str("anything")
        }

        simple!(visit_bool bool, visit_i8 i8, visit_i16 i16, visit_i32 i32, visit_i64 i64, visit_i128 i128,
            visit_u8 u8, visit_u16 u16, visit_u32 u32, visit_u64 u64, visit_u128 u128);

        fn visit_f32<E: Error>(self, v: f32) -> Result<Rec, E> {
            Ok(Rec(format!("f32 {:x}", v.to_bits()), None))
        }

        fn visit_f64<E: Error>(self, v: f64) -> Result<Rec, E> {
            Ok(Rec(format!("f64 {:x}", v.to_bits()), None))
        }

        fn visit_char<E: Error>(self, v: char) -> Result<Rec, E> {
            let raw = unsafe { (&raw const v).cast::<u32>().read_volatile() };
            let bad = char::from_u32(raw).is_none().then(|| format!("a char with the value {raw:#x} exists"));
            Ok(Rec(format!("char {raw}"), bad))
        }

        fn visit_str<E: Error>(self, v: &str) -> Result<Rec, E> {
            Ok(text("str", v))
        }

        fn visit_borrowed_str<E: Error>(self, v: &'de str) -> Result<Rec, E> {
            Ok(text("borrowed", v))
        }

        fn visit_string<E: Error>(self, v: String) -> Result<Rec, E> {
            Ok(text("string", &v))
        }

        fn visit_bytes<E: Error>(self, v: &[u8]) -> Result<Rec, E> {
            Ok(Rec(format!("bytes {v:?}"), None))
        }

        fn visit_none<E: Error>(self) -> Result<Rec, E> {
            Ok(Rec("none".into(), None))
        }

        fn visit_unit<E: Error>(self) -> Result<Rec, E> {
            Ok(Rec("unit".into(), None))
        }

        fn visit_some<D: Deserializer<'de>>(self, d: D) -> Result<Rec, D::Error> {
            let r = Rec::deserialize(d)?;
            Ok(Rec(format!("some {}", r.0), r.1))
        }

        fn visit_newtype_struct<D: Deserializer<'de>>(self, d: D) -> Result<Rec, D::Error> {
            let r = Rec::deserialize(d)?;
            Ok(Rec(format!("new {}", r.0), r.1))
        }

        fn visit_seq<A: SeqAccess<'de>>(self, mut a: A) -> Result<Rec, A::Error> {
            let mut s = format!("[{:?} ", a.size_hint());
            let mut bad = None;
            while let Some(r) = a.next_element::<Rec>()? {
                s.push_str(&r.0);
                s.push(',');
                bad = bad.or(r.1);
            }
            s.push(']');
            Ok(Rec(s, bad))
        }

        fn visit_map<A: MapAccess<'de>>(self, mut a: A) -> Result<Rec, A::Error> {
            let mut all = vec![];
            let mut bad = None;
            while let Some((k, v)) = a.next_entry::<Rec, Rec>()? {
                bad = bad.or(k.1).or(v.1);
                all.push(format!("{}={},", k.0, v.0));
            }
            // members come in any order
            all.sort_unstable();
            Ok(Rec(format!("{{{}}}", all.concat()), bad))
        }

        fn visit_enum<A: EnumAccess<'de>>(self, _: A) -> Result<Rec, A::Error> {
            Ok(Rec("enum".into(), None))
        }
    }

    impl<'de> Deserialize<'de> for Rec {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            super::during::call();
            let r = d.deserialize_any(V);
            super::during::call();
            r
        }
    }
}

/// What happens while a message is being deserialized, as in a type which contains another message.
pub mod during {
    use std::cell::RefCell;

    pub type Hook = Box<dyn FnMut()>;

    thread_local! {
        static HOOKS: RefCell<Vec<Hook>> = const { RefCell::new(vec![]) };
    }

    /// The last hook is called first, the others while it is.
    #[allow(dead_code)]
    pub fn set(hooks: Vec<Hook>) {
        HOOKS.with(|h| *h.borrow_mut() = hooks);
    }

    #[allow(dead_code)]
    pub fn call() {
        let Some(mut hook) = HOOKS.with(|h| h.borrow_mut().pop()) else { return };
        hook();
        HOOKS.with(|h| h.borrow_mut().push(hook));
    }
}
