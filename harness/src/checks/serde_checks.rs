//! What deserializing delivers (C16), .NET wrapper classes (C17).

use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};

use nrbf::{RemotingMessage, Value};
use serde::Deserialize;
use serde::de::IgnoredAny;

use super::place::{class_head, message, names, place, uniform};
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg, StrGen, gen_char, gen_prim, gen_string};
use crate::mutate;
use crate::mval::MVal;
use crate::real;
use crate::report::hex;
use crate::rng::Rng;
use crate::sv::{self, BOXED, LIST, Mode, Open, Sv};
use crate::wire::*;

/// What a type gets. Panics count as a result of their own.
pub fn ask<'a, T: Deserialize<'a>>(b: &'a [u8]) -> Result<T, String> {
    sv::set_input(b);
    match real::watched(b, || nrbf::from_slice::<T>(b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(p) => Err(format!("PANIC: {p}")),
    }
}

fn recorded(b: &[u8], m: Mode) -> Result<Sv, String> {
    match m {
        Mode::Any => ask::<sv::Any>(b).map(|x| x.0),
        Mode::Opt => ask::<sv::Opt>(b).map(|x| x.0),
        Mode::Struct => ask::<sv::Struct>(b).map(|x| x.0),
        Mode::Newtype => ask::<sv::Newtype>(b).map(|x| x.0),
    }
}

fn short(s: String) -> String {
    let mut s = s;
    if s.len() > 500 {
        let mut n = 500;
        while !s.is_char_boundary(n) {
            n -= 1;
        }
        s.truncate(n);
    }
    s
}

pub const MODES: [Mode; 4] = [Mode::Any, Mode::Opt, Mode::Struct, Mode::Newtype];

/// Compares what a recorder gets with what the parsed value demands.
fn compare(b: &[u8], v: &Value<'_>, what: &str, t: &mut Tally) -> bool {
    let mut ok = true;
    for m in MODES {
        let want = sv::want(v, m);
        let mut got = recorded(b, m);
        if let Ok(g) = &mut got {
            sv::mask_decimals(v, g);
        }
        let why = match (&want, &got) {
            (_, Err(e)) if e.starts_with("PANIC") => Some(e.clone()),
            (Err(Open::Unspecified), _) => {
                t.n("deserializations not judged: unspecified");
                None
            }
            (Err(Open::Error), Ok(g)) => Some(format!("an error is demanded, but it delivers {}", short(format!("{g:?}")))),
            (Err(Open::Error), Err(_)) => {
                t.n("deserializations which had to be an error");
                None
            }
            (Ok(w), Ok(g)) if w == g => {
                t.n("deserializations compared");
                None
            }
            (Ok(w), Ok(g)) => Some(format!("delivers {} instead of {}", short(format!("{g:?}")), short(format!("{w:?}")))),
            (Ok(w), Err(e)) => Some(format!("fails with {e:?} instead of delivering {}", short(format!("{w:?}")))),
        };
        if let Some(why) = why {
            t.bad(b, format!("{what}: asked for {m:?}: {why}"), String::new());
            ok = false;
        }
        // the message itself is a deserializer, too
        if let Ok(msg) = RemotingMessage::parse(b) {
            sv::set_input(b);
            let direct = match m {
                Mode::Any => sv::Any::deserialize(msg).map(|x| x.0),
                Mode::Opt => sv::Opt::deserialize(msg).map(|x| x.0),
                Mode::Struct => sv::Struct::deserialize(msg).map(|x| x.0),
                Mode::Newtype => sv::Newtype::deserialize(msg).map(|x| x.0),
            };
            let mut direct = direct.map_err(|e| e.to_string());
            if let Ok(g) = &mut direct {
                sv::mask_decimals(v, g);
            }
            // the texts of an error depend on the order of a map
            if direct.as_ref().ok() != got.as_ref().ok() {
                t.bad(b, format!("{what}: asked for {m:?}: from_slice and the message as deserializer differ"), String::new());
                ok = false;
            }
        }
    }
    // types which take a fixed number of elements of every sequence
    if let Ok(w) = sv::want(v, Mode::Any) {
        let mut lens = vec![];
        sv::lengths(&w, &mut lens);
        lens.sort();
        lens.dedup();
        let longest = lens.last().copied().unwrap_or(0);
        for k in [longest.checked_sub(1), Some(longest), lens.get(lens.len() / 2).copied()] {
            let Some(k) = k else { continue };
            if lens.is_empty() {
                continue;
            }
            sv::set_take(k);
            let mut got = recorded(b, Mode::Any);
            sv::set_take(usize::MAX);
            t.n("deserializations to types of fixed length");
            if let Ok(g) = &mut got {
                sv::mask_decimals(v, g);
            }
            let fine = match &got {
                Err(e) => !e.starts_with("PANIC") && k < longest,
                Ok(g) => k >= longest && *g == w,
            };
            if !fine {
                t.bad(
                    b,
                    format!("{what}: types which take {k} elements of every sequence get {}, the longest having {longest}", short(format!("{got:?}"))),
                    String::new(),
                );
                ok = false;
            }
        }
    }
    ok
}

fn parsed<'a>(b: &'a [u8]) -> Option<RemotingMessage<'a>> {
    real::watched(b, || RemotingMessage::parse(b).ok()).ok().flatten()
}

/// Nothing may be delivered from a call, a return or bytes which do not parse.
fn all_fail(b: &[u8], what: &str, text: Option<&str>, t: &mut Tally) {
    fn f<'a, T: Deserialize<'a>>(b: &'a [u8], name: &str, what: &str, text: Option<&str>, t: &mut Tally) {
        t.n("deserializations which had to be an error");
        match ask::<T>(b) {
            Ok(_) => t.bad(b, format!("{what} delivers a value as {name}"), String::new()),
            Err(e) if e.starts_with("PANIC") => t.bad(b, format!("{what} as {name}: {e}"), String::new()),
            Err(e) => {
                if let Some(w) = text {
                    if e != w {
                        t.bad(b, format!("{what} as {name}: the error is {e:?} instead of {w:?}"), String::new());
                    }
                }
            }
        }
    }
    f::<sv::Any>(b, "anything", what, text, t);
    f::<sv::Opt>(b, "option", what, text, t);
    f::<sv::Struct>(b, "struct", what, text, t);
    f::<sv::Newtype>(b, "newtype struct", what, text, t);
    f::<IgnoredAny>(b, "ignored", what, text, t);
    f::<()>(b, "unit", what, text, t);
    f::<Option<i32>>(b, "Option<i32>", what, text, t);
    f::<Option<IgnoredAny>>(b, "Option<ignored>", what, text, t);
    f::<Vec<IgnoredAny>>(b, "Vec", what, text, t);
    f::<i32>(b, "i32", what, text, t);
    f::<String>(b, "String", what, text, t);
    f::<HashMap<String, IgnoredAny>>(b, "HashMap", what, text, t);
    f::<Empty>(b, "empty struct", what, text, t);
    f::<AllOptional>(b, "struct of options", what, text, t);
}

#[derive(Deserialize, Debug, PartialEq)]
struct Empty {}

#[derive(Deserialize, Debug, PartialEq)]
#[serde(default)]
#[derive(Default)]
struct AllOptional {
    a: Option<i32>,
    b: Option<String>,
}

#[derive(Deserialize, Debug, PartialEq, Clone)]
struct Wrapped<T>(T);

#[derive(Deserialize, Debug, PartialEq)]
struct Unit;

/// Integer targets: exactly the number, or an error.
fn integers(r: &mut Rng, t: &mut Tally) {
    let code = *r.pick(&[P_BYTE, P_I8, P_I16, P_U16, P_I32, P_U32, P_I64, P_U64]);
    let v = gen_prim(r, code);
    let n: i128 = match v {
        MVal::Byte(x) => x.into(),
        MVal::I8(x) => x.into(),
        MVal::I16(x) => x.into(),
        MVal::U16(x) => x.into(),
        MVal::I32(x) => x.into(),
        MVal::U32(x) => x.into(),
        MVal::I64(x) => x.into(),
        MVal::U64(x) => x.into(),
        _ => unreachable!(),
    };
    // as return value of nothing: a number alone is only possible as boxed class or element
    let (w, list) = match r.below(3) {
        0 => {
            let w = place(0, &[v.clone()], r).0;
            (w, true)
        }
        1 => {
            let w = place(6, &[v.clone()], r).0;
            (w, true)
        }
        _ => {
            let name = match code {
                P_BYTE => "System.Byte",
                P_I8 => "System.SByte",
                P_I16 => "System.Int16",
                P_U16 => "System.UInt16",
                P_I32 => "System.Int32",
                P_U32 => "System.UInt32",
                P_I64 => "System.Int64",
                _ => "System.UInt64",
            };
            (boxed(name, &v, r), false)
        }
    };
    let b = &w.buf;
    t.eval(b, true);
    macro_rules! try_as {
        ($($ty:ty),*) => {$(
            let got: Result<$ty, String> = if list { ask::<($ty,)>(b).map(|x| x.0) } else { ask::<$ty>(b) };
            let want = <$ty>::try_from(n);
            t.n("integer targets compared");
            match (&got, &want) {
                (Ok(g), Ok(w)) if g == w => (),
                (Err(e), Err(_)) if !e.starts_with("PANIC") => { t.n("out-of-range numbers refused"); },
                _ => t.bad(b, format!("{n} as {} gives {got:?}", stringify!($ty)), String::new()),
            }
            let got: Result<Vec<Option<Wrapped<$ty>>>, String> =
                if list { ask(b) } else { ask::<Option<Wrapped<$ty>>>(b).map(|x| vec![x]) };
            match (&got, &want) {
                (Ok(g), Ok(w)) if *g == vec![Some(Wrapped(*w))] => (),
                (Err(e), Err(_)) if !e.starts_with("PANIC") => (),
                _ => t.bad(b, format!("{n} as option of newtype of {} gives {got:?}", stringify!($ty)), String::new()),
            }
        )*};
    }
    try_as!(i8, i16, i32, i64, i128, u8, u16, u32, u64, u128, isize, usize);
    // no number is a text, a list or nothing
    macro_rules! not_as {
        ($($ty:ty),*) => {$(
            let got = if list { ask::<($ty,)>(b).map(|_| ()) } else { ask::<$ty>(b).map(|_| ()) };
            match got {
                Err(e) if !e.starts_with("PANIC") => t.n("other types refused"),
                got => t.bad(b, format!("{n} as {} gives {got:?}", stringify!($ty)), String::new()),
            }
        )*};
    }
    // (a boxed primitive asked for as a struct is its class: any class is a struct by member name)
    not_as!(bool, String, &str, char, (), Vec<IgnoredAny>, HashMap<String, IgnoredAny>);
}

/// A boxed primitive as .NET writes it.
pub fn boxed(name: &str, v: &MVal, r: &mut Rng) -> W {
    message(|w| match r.below(3) {
        0 => {
            class_head(w, true, 4, 1, name, &["m_value".to_string()]);
            w.u8(F::BinType, 0);
            w.u8(F::PrimTypeMember, prim_code(v));
            w.prim(v);
        }
        1 => {
            class_head(w, true, 4, 1, name, &["m_value".to_string()]);
            w.u8(F::BinType, 2);
            w.typed_prim(v);
        }
        _ => {
            class_head(w, true, 2, 1, name, &["m_value".to_string()]);
            w.typed_prim(v);
        }
    })
}

/// Arrays and fixed-size targets.
fn fixed_size(r: &mut Rng, t: &mut Tally) {
    let n = r.below(8);
    let texts: Vec<String> = (0..n).map(|_| gen_string(r, StrGen::Short)).collect();
    let kind = r.below(3);
    let w = message(|w| match kind {
        0 => {
            w.u8(F::TopTag, 17);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, n as i32);
            for (i, s) in texts.iter().enumerate() {
                w.obj_str(false, 10 + i as i32, s, 0);
            }
        }
        1 => {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, n as i32);
            for (i, s) in texts.iter().enumerate() {
                w.obj_str(false, 10 + i as i32, s, 0);
            }
        }
        _ => {
            // a list with spare room
            class_head(w, true, 4, 1, "System.Collections.Generic.List`1[[System.String]]", &["_items".into(), "_size".into(), "_version".into()]);
            w.u8(F::BinType, 6);
            w.u8(F::BinType, 0);
            w.u8(F::BinType, 0);
            w.u8(F::PrimTypeMember, 8);
            w.u8(F::PrimTypeMember, 8);
            w.member_ref(2);
            w.prim(&MVal::I32(n as i32));
            w.prim(&MVal::I32(r.i32()));
            w.u8(F::TopTag, 17);
            w.i32(F::ObjId, 2);
            let spare = r.below(5);
            w.i32(F::ArrLen, (n + spare) as i32);
            for (i, s) in texts.iter().enumerate() {
                w.obj_str(false, 10 + i as i32, s, 0);
            }
            if spare > 0 {
                w.null_run(spare, false);
            }
        }
    });
    let b = &w.buf;
    t.eval(b, true);
    t.sample(|| format!("{n} texts: {}", hex(b)));
    let base = b.as_ptr() as usize;
    let inside = |s: &str| s.is_empty() || (s.as_ptr() as usize >= base && s.as_ptr() as usize + s.len() <= base + b.len());
    macro_rules! tup {
        ($($k:literal: $ty:ty, $v:ident => $conv:expr);* $(;)?) => {$(
            let got = ask::<$ty>(b);
            t.n("fixed-size targets asked");
            match got {
                Ok($v) => {
                    let v: Vec<&str> = $conv;
                    if n != $k {
                        t.bad(b, format!("{n} elements are delivered as {}", stringify!($ty)), String::new());
                    } else if v != texts {
                        t.bad(b, format!("{texts:?} are delivered as {v:?}"), String::new());
                    } else if !v.iter().all(|s| inside(s)) {
                        t.bad(b, "a borrowed text does not lie in the input".into(), String::new());
                    }
                }
                Err(e) if n == $k || e.starts_with("PANIC") => {
                    t.bad(b, format!("{n} elements cannot be delivered as {}: {e}", stringify!($ty)), String::new())
                }
                Err(_) => t.n("fixed-size targets of another length refused"),
            }
        )*};
    }
    tup! {
        0: [&str; 0], v => v.to_vec();
        1: [&str; 1], v => v.to_vec();
        1: (&str,), v => vec![v.0];
        2: [&str; 2], v => v.to_vec();
        2: (&str, &str), v => vec![v.0, v.1];
        3: (&str, &str, &str), v => vec![v.0, v.1, v.2];
        4: [&str; 4], v => v.to_vec();
        5: [&str; 5], v => v.to_vec();
        6: (&str, &str, &str, &str, &str, &str), v => vec![v.0, v.1, v.2, v.3, v.4, v.5];
        7: [&str; 7], v => v.to_vec();
    }
    let got = ask::<Vec<&str>>(b);
    if got.as_ref().map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>()).as_ref() != Ok(&texts) {
        t.bad(b, format!("{texts:?} are delivered as {got:?}"), String::new());
    }
    if let Ok(v) = &got {
        if !v.iter().all(|s| inside(s)) {
            t.bad(b, "a borrowed text does not lie in the input".into(), String::new());
        }
    }
    let got = ask::<Vec<Option<String>>>(b);
    if got.as_ref().map(|v| v.iter().flatten().cloned().collect::<Vec<_>>()).as_ref() != Ok(&texts) || got.is_ok_and(|v| v.len() != n) {
        t.bad(b, format!("{texts:?} are delivered as other optional texts"), String::new());
    }
    let got = ask::<Vec<Cow<'_, str>>>(b);
    if got.as_ref().map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>()).as_ref() != Ok(&texts) {
        t.bad(b, format!("{texts:?} are delivered as {got:?}"), String::new());
    }
    // elements of another type: an error, not a shorter list
    if n > 0 {
        for (name, e) in [
            ("Vec<i32>", ask::<Vec<i32>>(b).err()),
            ("Vec<()>", ask::<Vec<()>>(b).err()),
            ("Vec<bool>", ask::<Vec<bool>>(b).err()),
            ("HashMap", ask::<HashMap<String, IgnoredAny>>(b).err()),
            ("String", ask::<String>(b).err()),
            ("Vec<Vec<ignored>>", ask::<Vec<Vec<IgnoredAny>>>(b).err()),
        ] {
            t.n("other types refused");
            if e.is_none_or(|e| e.starts_with("PANIC")) {
                t.bad(b, format!("texts are delivered as {name}"), String::new());
            }
        }
    }
}

#[derive(Deserialize, Debug, PartialEq, Clone)]
struct Inner {
    #[serde(rename = "value__")]
    value: i32,
    #[serde(default)]
    note: Option<String>,
}

#[derive(Deserialize, Debug, PartialEq)]
struct Customer<'a> {
    #[serde(borrow)]
    name: &'a str,
    age: u8,
    big: i64,
    score: Option<f64>,
    kind: Inner,
    other: Option<Box<Inner>>,
    flags: Vec<bool>,
    nothing: (),
    letter: char,
    wrapped: Wrapped<u16>,
}

/// Derived structs, from members in any order.
fn structs(r: &mut Rng, t: &mut Tally) {
    let name = gen_string(r, StrGen::Any);
    let age = r.u8();
    let big = r.u64() as i64;
    let score = if r.chance(50) { Some(r.i32() as f64 / 3.0) } else { None };
    let kind = Inner { value: r.i32(), note: if r.chance(50) { Some(gen_string(r, StrGen::Short)) } else { None } };
    let other = if r.chance(50) { Some(Box::new(Inner { value: r.i32(), note: None })) } else { None };
    let flags: Vec<bool> = (0..r.below(6)).map(|_| r.chance(50)).collect();
    let letter = gen_char(r);
    let wrapped = r.u32() as u16;
    let mut order = ["name", "age", "big", "score", "kind", "other", "flags", "nothing", "letter", "wrapped", "unknown"].to_vec();
    if r.chance(50) {
        order.pop();
    }
    r.shuffle(&mut order);
    // one member may be missing or have a value which does not fit
    let fault = if r.chance(40) { Some((r.below(order.len()), r.chance(50))) } else { None };
    let mut broken = false;
    if let Some((i, true)) = fault {
        let n = order.remove(i);
        broken = !matches!(n, "unknown" | "score" | "other");
    }
    let wrong = match fault {
        Some((i, false)) => {
            broken = order[i] != "unknown";
            Some(order[i])
        }
        _ => None,
    };
    let lib = r.chance(50);
    let kind_lib = r.chance(50);
    let w = message(|w| {
        w.lib(1, "Lib");
        let nm: Vec<String> = order.iter().map(|s| s.to_string()).collect();
        class_head(w, true, if lib { 3 } else { 2 }, 1, "Some.Customer", &nm);
        if lib {
            w.i32(F::LibUse, 1);
        }
        let inner = |w: &mut W, id: i32, x: &Inner| {
            let mut nm = vec!["value__".to_string()];
            if x.note.is_some() {
                nm.push("note".into());
            }
            class_head(w, false, if kind_lib { 3 } else { 2 }, id, "Some.Kind", &nm);
            if kind_lib {
                w.i32(F::LibUse, 1);
            }
            w.typed_prim(&MVal::I32(x.value));
            if let Some(n) = &x.note {
                w.obj_str(false, id + 1, n, 0);
            }
        };
        for o in &order {
            if Some(*o) == wrong {
                // nothing of all this is what any of the fields takes
                if *o == "nothing" {
                    w.typed_prim(&MVal::I32(1));
                } else if matches!(*o, "score" | "other") {
                    w.typed_prim(&MVal::Bool(true));
                } else {
                    w.null();
                }
                continue;
            }
            match *o {
                "name" => w.obj_str(false, 10, &name, 0),
                "age" => w.typed_prim(&MVal::Byte(age)),
                "big" => w.typed_prim(&MVal::I64(big)),
                "score" => match score {
                    Some(x) => w.typed_prim(&MVal::Double(x.to_bits())),
                    None => w.null(),
                },
                "kind" => inner(w, 20, &kind),
                "other" => match &other {
                    Some(x) => inner(w, 30, x),
                    None => w.null(),
                },
                "flags" => w.member_ref(50),
                "nothing" => w.null(),
                "letter" => w.typed_prim(&MVal::Char(letter)),
                "wrapped" => w.typed_prim(&MVal::U16(wrapped)),
                _ => w.obj_str(false, 60, "unknown", 0),
            }
        }
        if order.contains(&"flags") && wrong != Some("flags") {
            w.u8(F::TopTag, 15);
            w.i32(F::ObjId, 50);
            w.i32(F::ArrLen, flags.len() as i32);
            w.u8(F::PrimTypePrimArray, 1);
            for f in &flags {
                w.prim(&MVal::Bool(*f));
            }
        }
    });
    let b = &w.buf;
    if parsed(b).is_none() {
        t.bad(b, "a message with a struct is rejected".into(), String::new());
        return;
    }
    t.eval(b, true);
    let got = ask::<Customer>(b);
    if broken {
        t.n("structs with a missing or wrong member refused");
        if !matches!(&got, Err(e) if !e.starts_with("PANIC")) {
            t.bad(b, format!("a struct with a missing or wrong member ({fault:?} of {order:?}) gives {got:?}"), String::new());
        }
        return;
    }
    t.n("structs compared");
    let score = if order.contains(&"score") { score } else { None };
    let other = if order.contains(&"other") { other } else { None };
    let want = Customer { name: &name, age, big, score, kind, other, flags, nothing: (), letter, wrapped: Wrapped(wrapped) };
    let base = b.as_ptr() as usize;
    match got {
        Ok(g) if g == want => {
            let p = g.name.as_ptr() as usize;
            if !g.name.is_empty() && !(p >= base && p < base + b.len()) {
                t.bad(b, "a borrowed text does not lie in the input".into(), String::new());
            }
        }
        got => t.bad(b, format!("gives {got:?} instead of {want:?}"), String::new()),
    }
}

/// Single values as targets of their own type.
fn scalars(r: &mut Rng, t: &mut Tally) {
    let c = *r.pick(&PRIMS);
    let v = gen_prim(r, c);
    let p = *r.pick(&[0, 6, 7, 9]);
    let w = place(p, &[v.clone()], r).0;
    let b = &w.buf;
    t.eval(b, true);
    t.n("scalar targets compared");
    let ok = match &v {
        MVal::Bool(x) => ask::<[bool; 1]>(b) == Ok([*x]) && ask::<(bool,)>(b) == Ok((*x,)),
        MVal::Char(x) => ask::<[char; 1]>(b) == Ok([*x]),
        MVal::Dec(x) => ask::<[String; 1]>(b) == Ok([x.clone()]) && ask::<[&str; 1]>(b).is_err(),
        MVal::Double(x) => ask::<[f64; 1]>(b).is_ok_and(|g| g[0].to_bits() == *x),
        MVal::Single(x) => {
            ask::<[f32; 1]>(b).is_ok_and(|g| g[0].to_bits() == *x)
                && (f32::from_bits(*x).is_nan() || ask::<[f64; 1]>(b) == Ok([f64::from(f32::from_bits(*x))]))
        }
        MVal::Ts(x) | MVal::Dt(x) => ask::<[i64; 1]>(b) == Ok([*x]),
        MVal::Byte(x) => ask::<[u8; 1]>(b) == Ok([*x]) && ask::<[f64; 1]>(b) == Ok([f64::from(*x)]),
        MVal::I8(x) => ask::<[i8; 1]>(b) == Ok([*x]),
        MVal::I16(x) => ask::<[i16; 1]>(b) == Ok([*x]),
        MVal::U16(x) => ask::<[u16; 1]>(b) == Ok([*x]),
        MVal::I32(x) => ask::<[i32; 1]>(b) == Ok([*x]),
        MVal::U32(x) => ask::<[u32; 1]>(b) == Ok([*x]),
        MVal::I64(x) => ask::<[i64; 1]>(b) == Ok([*x]),
        MVal::U64(x) => ask::<[u64; 1]>(b) == Ok([*x]),
        _ => true,
    };
    if !ok {
        t.bad(b, format!("{v:?} is not delivered to its own type"), String::new());
    }
}

/// What stands at a place of the matrix of kinds and types.
const KINDS: [&str; 16] = [
    "null", "true", "false", "Byte 0", "Int32 1", "Double", "Char", "Decimal", "empty text", "text", "empty array", "array of null", "array of one text",
    "empty object", "object with a null", "object with a number",
];

fn write_kind(w: &mut W, k: usize, id: i32, lib: bool, late: &mut Vec<(i32, usize)>) {
    match k {
        0 => w.null(),
        1 => w.typed_prim(&MVal::Bool(true)),
        2 => w.typed_prim(&MVal::Bool(false)),
        3 => w.typed_prim(&MVal::Byte(0)),
        4 => w.typed_prim(&MVal::I32(1)),
        5 => w.typed_prim(&MVal::Double(0)),
        6 => w.typed_prim(&MVal::Char('c')),
        7 => w.typed_prim(&MVal::Dec("1.5".into())),
        8 => w.obj_str(false, id, "", 0),
        9 => w.obj_str(false, id, "text", 0),
        10..13 => {
            w.member_ref(id);
            late.push((id, k));
        }
        _ => {
            let members: &[String] = if k == 13 { &[] } else { &["a".to_string()] };
            class_head(w, false, if lib { 3 } else { 2 }, id, "C", members);
            if lib {
                w.i32(F::LibUse, 900);
            }
            match k {
                14 => w.null(),
                15 => w.typed_prim(&MVal::I32(2)),
                _ => (),
            }
        }
    }
}

/// Does the type take the kind?
fn takes(ty: &str, k: usize) -> bool {
    match ty {
        "()" | "unit struct" => k == 0,
        "bool" => k == 1 || k == 2,
        "char" => k == 6,
        "String" => (6..10).contains(&k),
        "&str" => k == 8 || k == 9,
        "i32" => k == 3 || k == 4,
        "f64" => (3..6).contains(&k),
        "sequence" => (10..13).contains(&k),
        "array of one" => k == 11 || k == 12,
        "map" => k >= 13,
        "Option<()>" => k == 0,
        "Option<bool>" => k < 3,
        "Option<sequence>" => k == 0 || (10..13).contains(&k),
        "Option<map>" => k == 0 || k >= 13,
        "Option<ignored>" | "ignored" => true,
        _ => unreachable!(),
    }
}

/// Every kind of value offered to every kind of type: as the root, an element, a member, within another of its kind.
fn matrix(r: &mut Rng, i: u64, t: &mut Tally) {
    fn f<'a, T: Deserialize<'a>>(b: &'a [u8], ty: &str, kinds: &[usize], t: &mut Tally) {
        t.n("pairs of a type and kinds of values");
        let all = kinds.iter().all(|k| takes(ty, *k));
        let say = |how: &str, ok: bool, want: bool, t: &mut Tally| {
            if ok != want {
                let what: Vec<&str> = kinds.iter().map(|k| KINDS[*k]).collect();
                t.bad(b, format!("{how} of {what:?} as {ty}: {}", if ok { "delivered" } else { "not delivered" }), String::new());
            }
        };
        say("an array", ask::<Vec<T>>(b).is_ok(), all, t);
        say("an optional array", ask::<Option<Vec<Wrapped<T>>>>(b).is_ok(), all, t);
        match kinds.len() {
            1 => {
                say("a tuple", ask::<(T,)>(b).is_ok(), all, t);
                say("a tuple of two", ask::<(T, T)>(b).is_ok(), false, t);
            }
            2 => {
                say("a tuple", ask::<(T, T)>(b).is_ok(), all, t);
                say("a tuple of one", ask::<(T,)>(b).is_ok(), false, t);
                say("an array and anything", ask::<(T, IgnoredAny)>(b).is_ok(), takes(ty, kinds[0]), t);
                say("anything and an array", ask::<(IgnoredAny, T)>(b).is_ok(), takes(ty, kinds[1]), t);
            }
            _ => (),
        }
    }
    fn g<'a, T: Deserialize<'a>>(b: &'a [u8], ty: &str, kinds: &[usize], t: &mut Tally) {
        t.n("pairs of a type and kinds of values");
        let ok = ask::<BTreeMap<&str, T>>(b).is_ok();
        if ok != kinds.iter().all(|k| takes(ty, *k)) {
            let what: Vec<&str> = kinds.iter().map(|k| KINDS[*k]).collect();
            t.bad(b, format!("members {what:?} as {ty}: {}", if ok { "delivered" } else { "not delivered" }), String::new());
        }
    }
    let n = if i < 16 { 1 } else { r.range(1, 3) };
    let kinds: Vec<usize> = (0..n).map(|j| if j == 0 { i as usize % 16 } else { r.below(16) }).collect();
    let object = r.chance(50);
    let lib = r.chance(50);
    let w = message(|w| {
        let mut late = vec![];
        if object {
            if lib {
                w.lib(900, "L");
            }
            class_head(w, true, if lib { 3 } else { 2 }, 1, "Root", &names(n));
            if lib {
                w.i32(F::LibUse, 900);
            }
        } else {
            if lib {
                w.lib(900, "L");
            }
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, n as i32);
        }
        for (j, k) in kinds.iter().enumerate() {
            write_kind(w, *k, 10 + j as i32, lib, &mut late);
        }
        for (id, k) in late {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, id);
            w.i32(F::ArrLen, (k > 10) as i32);
            match k {
                11 => w.null(),
                12 => w.obj_str(false, 800 + id, "x", 0),
                _ => (),
            }
        }
    });
    let b = &w.buf;
    t.eval(b, true);
    macro_rules! all {
        ($($ty:ty, $name:literal;)*) => {
            $(if object { g::<$ty>(b, $name, &kinds, t) } else { f::<$ty>(b, $name, &kinds, t) })*
        };
    }
    all! {
        (), "()";
        Unit, "unit struct";
        bool, "bool";
        char, "char";
        String, "String";
        &str, "&str";
        i32, "i32";
        f64, "f64";
        Vec<IgnoredAny>, "sequence";
        [IgnoredAny; 1], "array of one";
        HashMap<String, IgnoredAny>, "map";
        Option<()>, "Option<()>";
        Option<bool>, "Option<bool>";
        Option<Vec<IgnoredAny>>, "Option<sequence>";
        Option<BTreeMap<&str, IgnoredAny>>, "Option<map>";
        Option<IgnoredAny>, "Option<ignored>";
        IgnoredAny, "ignored";
    }
    // the same at the root
    let ok = if object {
        ask::<Unit>(b).is_err() && ask::<()>(b).is_err() && ask::<Option<Unit>>(b).is_err() && ask::<Vec<IgnoredAny>>(b).is_err() && ask::<String>(b).is_err() && ask::<bool>(b).is_err()
    } else {
        ask::<Unit>(b).is_err() && ask::<()>(b).is_err() && ask::<Option<Unit>>(b).is_err() && ask::<HashMap<String, IgnoredAny>>(b).is_err() && ask::<String>(b).is_err()
    };
    if !ok {
        t.bad(b, "an object or array is delivered as what it is not".into(), String::new());
    }
}

pub fn c16(cx: &Cx) {
    cx.rule(
        "A case is one message and the types it is deserialized to: recorders of every visitor call (asking for anything, options, \
         structs or newtype structs at every level), and concrete types. What arrives is compared with what the parsed value or the \
         construction demands. Distinct by the bytes of the message.",
    );
    let cfgs = [
        Cfg { size: 8, calls: 0, ..Cfg::default() },
        Cfg { size: 40, calls: 0, ..Cfg::default() },
        Cfg { size: 20, calls: 100, ..Cfg::default() },
    ];
    cx.par("documents", cx.cases(180_000, 3_000_000), |r, i, t| {
        let w = doc::generate(r, &cfgs[if i % 10 == 0 { 2 } else { i as usize % 2 }]);
        let b = &w.buf;
        match parsed(b) {
            Some(RemotingMessage::Value(v)) => {
                t.eval(b, true);
                compare(b, &v, "generated message", t);
                if b.len() < 150 {
                    t.sample(|| format!("{} -> {:?}", hex(b), recorded(b, Mode::Any)));
                }
            }
            Some(_) => {
                t.eval(b, true);
                t.n("calls and returns");
                all_fail(b, "a method call or return", None, t);
            }
            None => t.n("message not accepted"),
        }
        if i % 4 == 0 {
            let m = mutate::any(r, &w);
            if real::bomb(&m, 0) {
                return;
            }
            match real::run(&m) {
                real::Got::Err(e) => {
                    t.eval(&m, true);
                    t.n("rejected messages");
                    all_fail(&m, "a message which does not parse", Some(&format!("parsing error: {e}")), t);
                }
                real::Got::Msg(crate::mval::MMsg::Val(_)) => {
                    if let Some(RemotingMessage::Value(v)) = parsed(&m) {
                        t.eval(&m, true);
                        compare(&m, &v, "mutated message", t);
                    }
                }
                _ => (),
            }
        }
    });
    cx.par("places", cx.cases(60_000, 500_000), |r, i, t| {
        let p = i as usize % 16;
        let c = *r.pick(&PRIMS);
        let n = r.range(1, 4);
        let vals: Vec<MVal> = (0..n)
            .map(|_| {
                let c = if uniform(p) { c } else { *r.pick(&PRIMS) };
                gen_prim(r, c)
            })
            .collect();
        let w = place(p, &vals, r).0;
        if let Some(RemotingMessage::Value(v)) = parsed(&w.buf) {
            t.eval(&w.buf, true);
            compare(&w.buf, &v, "primitive in a known place", t);
        }
    });
    cx.par("integers", cx.cases(60_000, 1_000_000), |r, _, t| integers(r, t));
    cx.par("fixed size", cx.cases(45_000, 600_000), |r, _, t| fixed_size(r, t));
    cx.par("structs", cx.cases(90_000, 1_500_000), |r, _, t| structs(r, t));
    cx.par("scalars", cx.cases(90_000, 1_000_000), |r, _, t| scalars(r, t));
    cx.par("kinds and types", cx.cases(12_000, 300_000), matrix);
    // nothing
    cx.seq(|t| {
        for tag in [2, 3, 16, 17] {
            let w = message(|w| {
                if tag == 3 {
                    w.lib(9, "L");
                }
                if tag < 16 {
                    class_head(w, true, tag, 1, "Empty", &[]);
                    if tag == 3 {
                        w.i32(F::LibUse, 9);
                    }
                } else {
                    w.u8(F::TopTag, tag);
                    w.i32(F::ObjId, 1);
                    w.i32(F::ArrLen, 0);
                }
            });
            let b = &w.buf;
            t.eval(b, true);
            let ok = ask::<Unit>(b).is_err()
                && ask::<()>(b).is_err()
                && ask::<Option<Unit>>(b).is_err()
                && ask::<Wrapped<()>>(b).is_err()
                && ask::<bool>(b).is_err()
                && ask::<String>(b).is_err()
                && ask::<i32>(b).is_err()
                && ask::<Vec<IgnoredAny>>(b).is_ok() == (tag > 3)
                && ask::<HashMap<String, i32>>(b).is_ok() == (tag < 16);
            if !ok {
                t.bad(b, "an empty object or array is delivered as what it is not".into(), String::new());
            }
        }
        for w in [message(|w| w.obj_str(true, 1, "", 0)), message(|w| w.obj_str(true, 1, "text", 0))] {
            let b = &w.buf;
            t.eval(b, true);
            let s = if b.len() > 24 { "text" } else { "" };
            let ok = ask::<&str>(b) == Ok(s)
                && ask::<String>(b).as_deref() == Ok(s)
                && ask::<Option<&str>>(b) == Ok(Some(s))
                && ask::<Wrapped<&str>>(b) == Ok(Wrapped(s))
                && ask::<Cow<'_, str>>(b) == Ok(Cow::Borrowed(s))
                && ask::<Unit>(b).is_err()
                && ask::<()>(b).is_err()
                && ask::<i32>(b).is_err()
                && ask::<BTreeMap<&str, IgnoredAny>>(b).is_err();
            if !ok {
                t.bad(b, "a text is not delivered as what it is".into(), String::new());
            }
        }
        let w = message(|w| {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, 2);
            w.null_run(2, false);
        });
        let b = &w.buf;
        t.eval(b, true);
        let ok = ask::<[(); 2]>(b) == Ok([(), ()])
            && ask::<[Option<i32>; 2]>(b) == Ok([None, None])
            && ask::<[Unit; 2]>(b) == Ok([Unit, Unit])
            && ask::<[i32; 2]>(b).is_err()
            && ask::<[&str; 2]>(b).is_err()
            && ask::<[bool; 2]>(b).is_err()
            && ask::<[Vec<IgnoredAny>; 2]>(b).is_err()
            && ask::<Vec<Option<Option<i32>>>>(b) == Ok(vec![None, None]);
        if !ok {
            t.bad(b, "nulls are not delivered as unit and none".into(), String::new());
        }
    });
    super::many::run_with(cx, cx.pick(5_001, 70_000), |w, _, what, t| {
        if let Some(RemotingMessage::Value(v)) = parsed(&w.buf) {
            compare(&w.buf, &v, what, t);
        }
    });
}

const CODES: [u8; 12] =
    [P_BOOL, P_BYTE, P_I8, P_CHAR, P_DOUBLE, P_SINGLE, P_I32, P_U32, P_I64, P_U64, P_I16, P_U16];

fn as_sv(v: &MVal) -> Sv {
    match v {
        MVal::Bool(x) => Sv::Bool(*x),
        MVal::Byte(x) => Sv::U8(*x),
        MVal::I8(x) => Sv::I8(*x),
        MVal::Char(x) => Sv::Char(*x),
        MVal::Double(x) => Sv::F64(*x),
        MVal::Single(x) => Sv::F32(*x),
        MVal::I32(x) => Sv::I32(*x),
        MVal::U32(x) => Sv::U32(*x),
        MVal::I64(x) => Sv::I64(*x),
        MVal::U64(x) => Sv::U64(*x),
        MVal::I16(x) => Sv::I16(*x),
        MVal::U16(x) => Sv::U16(*x),
        MVal::Str(s) => Sv::Borrowed(s.clone()),
        MVal::Null => Sv::Unit,
        _ => panic!("no boxed primitive"),
    }
}

fn whole_number(v: &Sv) -> Option<i128> {
    Some(match *v {
        Sv::U8(x) => x.into(),
        Sv::I8(x) => x.into(),
        Sv::I16(x) => x.into(),
        Sv::U16(x) => x.into(),
        Sv::I32(x) => x.into(),
        Sv::U32(x) => x.into(),
        Sv::I64(x) => x.into(),
        Sv::U64(x) => x.into(),
        _ => return None,
    })
}

/// Names of libraries, of which some hold the wrappers in .NET: they say that the class is not the system's.
const LIBS: [&str; 12] = [
    "Some.Library",
    "mscorlib",
    "mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089",
    "mscorlib, Version=2.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089",
    "System.Private.CoreLib, Version=8.0.0.0, Culture=neutral, PublicKeyToken=7cec85d7bea7798e",
    "System.Private.CoreLib",
    "System",
    "System.Core",
    "System.Runtime",
    "netstandard",
    "",
    "MSCORLIB",
];

/// Where a wrapper may stand: alone, or inside of something. `f` writes it with the given id;
/// objects it refers to follow through `late`.
fn wrap(r: &mut Rng, kind: usize, f: &mut dyn FnMut(&mut W, bool, i32, &mut Rng), late: &mut dyn FnMut(&mut W)) -> W {
    message(|w| {
        w.lib(70, r.pick(&LIBS));
        match kind {
            0 => {
                f(w, true, 1, r);
                late(w);
            }
            1 => {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 3);
                w.null();
                f(w, false, 100, r);
                w.null();
                late(w);
            }
            2 => {
                class_head(w, true, 3, 1, "Outer", &["before".into(), "it".into()]);
                w.i32(F::LibUse, 70);
                w.typed_prim(&MVal::Bool(true));
                f(w, false, 100, r);
                late(w);
            }
            _ => {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 1);
                w.member_ref(100);
                f(w, true, 100, r);
                late(w);
            }
        }
    })
}

fn wrapped(kind: usize, v: Sv) -> Sv {
    match kind {
        0 => v,
        1 => Sv::Seq(vec![Sv::Unit, v, Sv::Unit]),
        2 => {
            let mut m = vec![(Sv::Borrowed("before".into()), Sv::Bool(true)), (Sv::Borrowed("it".into()), v)];
            m.sort_by_cached_key(|(k, _)| format!("{k:?}"));
            Sv::Map(m)
        }
        _ => Sv::Seq(vec![v]),
    }
}

fn must(b: &[u8], want: Sv, what: &str, t: &mut Tally) {
    t.eval(b, true);
    let got = recorded(b, Mode::Any);
    t.sample(|| format!("{what}: {} -> {got:?}", hex(b)));
    if got.as_ref() != Ok(&want) {
        t.bad(b, format!("{what}: gives {} instead of {}", short(format!("{got:?}")), short(format!("{want:?}"))), String::new());
    }
}

fn must_fail(b: &[u8], what: &str, t: &mut Tally) {
    t.eval(b, true);
    if parsed(b).is_none() {
        t.bad(b, format!("{what}: the message is not accepted"), String::new());
        return;
    }
    for m in [Mode::Any, Mode::Opt, Mode::Newtype] {
        match recorded(b, m) {
            Err(e) if !e.starts_with("PANIC") => (),
            got => t.bad(b, format!("{what}: asked for {m:?}: gives {} instead of an error", short(format!("{got:?}"))), String::new()),
        }
    }
}

pub fn c17(cx: &Cx) {
    cx.rule(
        "A case is one message with a boxed primitive, a generic list, or something that nearly is one, alone or inside of other \
         values; a recorder of visitor calls and concrete types have to get the wrapped value, or an error. Distinct by its bytes.",
    );
    // boxed primitives
    cx.par("boxed", cx.cases(180_000, 3_000_000), |r, i, t| {
        let k = i as usize % 12;
        let (name, code) = (BOXED[k], CODES[k]);
        let v = gen_prim(r, code);
        let kind = r.below(4);
        let form = r.below(3);
        let w = wrap(
            r,
            kind,
            &mut |w, top, id, _| {
                class_head(w, top, if form == 2 { 2 } else { 4 }, id, name, &["m_value".to_string()]);
                match form {
                    0 => {
                        w.u8(F::BinType, 0);
                        w.u8(F::PrimTypeMember, code);
                        w.prim(&v);
                    }
                    1 => {
                        w.u8(F::BinType, 2);
                        w.typed_prim(&v);
                    }
                    _ => w.typed_prim(&v),
                }
            },
            &mut |_| (),
        );
        t.nd(&format!("boxed: {name}"));
        must(&w.buf, wrapped(kind, as_sv(&v)), name, t);
        if kind == 0 {
            let b = &w.buf;
            let own = match &v {
                MVal::Bool(x) => ask::<bool>(b) == Ok(*x),
                MVal::Byte(x) => ask::<u8>(b) == Ok(*x),
                MVal::I8(x) => ask::<i8>(b) == Ok(*x),
                MVal::Char(x) => ask::<char>(b) == Ok(*x),
                MVal::Double(x) => ask::<f64>(b).is_ok_and(|g| g.to_bits() == *x),
                MVal::Single(x) => ask::<f32>(b).is_ok_and(|g| g.to_bits() == *x),
                MVal::I32(x) => ask::<i32>(b) == Ok(*x),
                MVal::U32(x) => ask::<u32>(b) == Ok(*x),
                MVal::I64(x) => ask::<i64>(b) == Ok(*x),
                MVal::U64(x) => ask::<u64>(b) == Ok(*x),
                MVal::I16(x) => ask::<i16>(b) == Ok(*x),
                MVal::U16(x) => ask::<u16>(b) == Ok(*x),
                _ => true,
            };
            if !own {
                t.bad(b, format!("boxed {v:?} is not delivered to its own type"), String::new());
            }
            // and as any class, to a struct
            #[derive(Deserialize)]
            struct Fields<T> {
                m_value: T,
            }
            let s = ask::<Fields<sv::Any>>(b).map(|x| x.m_value.0);
            if s != Ok(as_sv(&v)) {
                t.bad(b, format!("boxed {v:?} as struct with its member gives {s:?}"), String::new());
            }
        }
    });
    // nearly boxed primitives
    cx.par("nearly boxed", cx.cases(180_000, 2_000_000), |r, i, t| {
        let k = i as usize % 12;
        let (name, code) = (BOXED[k], CODES[k]);
        let v = gen_prim(r, code);
        let kind = r.below(4);
        let fault = r.below(6);
        let own_lib = fault == 5;
        let mut nm: Vec<String> = vec!["m_value".into()];
        let mut vals = vec![v.clone()];
        match fault {
            0 => {
                nm.clear();
                vals.clear();
            }
            1 => {
                let mut more = vec!["m_value2", "extra", "", "M_VALUE", "value"];
                r.shuffle(&mut more);
                for name in &more[..if r.chance(70) { 1 } else { r.range(2, 5) }] {
                    let at = r.below(nm.len() + 1);
                    nm.insert(at, name.to_string());
                    vals.insert(
                        at,
                        match r.below(4) {
                            0 => MVal::Null,
                            1 => MVal::Str(gen_string(r, StrGen::Short)),
                            _ => gen_prim(r, code),
                        },
                    );
                }
            }
            2 => nm[0] = r.pick(&["m_val", "M_value", "", "m_value ", "_value", "valu"]).to_string(),
            3 => vals[0] = MVal::Null,
            4 => {
                vals[0] = match r.below(3) {
                    0 => MVal::Str(gen_string(r, StrGen::Any)),
                    1 if code != P_BOOL => MVal::Bool(r.chance(50)),
                    _ if matches!(code, P_BOOL | P_CHAR) => MVal::I32(r.i32()),
                    _ => MVal::Str("1".into()),
                };
                // a text of one character is a character, too
                if code == P_CHAR && matches!(&vals[0], MVal::Str(s) if s.chars().count() == 1) {
                    return;
                }
            }
            _ => (),
        }
        let w = wrap(
            r,
            kind,
            &mut |w, top, id, r| {
                class_head(w, top, if own_lib { 3 } else { 2 }, id, name, &nm);
                if own_lib {
                    w.i32(F::LibUse, 70);
                }
                let first = 900 + r.below(50) as i32;
                for (n, x) in vals.iter().enumerate() {
                    match x {
                        MVal::Null => w.null(),
                        MVal::Str(s) => w.obj_str(false, first + n as i32, s, 0),
                        x => w.typed_prim(x),
                    }
                }
            },
            &mut |_| (),
        );
        if own_lib {
            t.n("classes of that name from a library");
            let m = Sv::Map(vec![(Sv::Borrowed("m_value".into()), as_sv(&v))]);
            must(&w.buf, wrapped(kind, m), "a class of the name of a boxed primitive, from a library", t);
        } else {
            t.nd(&format!("boxed with fault: {}", ["no member", "more members", "other member", "null", "other type"][fault]));
            must_fail(&w.buf, &format!("{name} with members {nm:?} {vals:?}"), t);
        }
    });
    // numbers of other types: what does not fit is an error, what fits is the same number, or an error
    cx.exhaustive("all twelve boxed types holding each of the twelve primitive types, with the numbers around every power of two");
    cx.par("numbers of other types", 144, |r, i, t| {
        let (k, code) = (i as usize % 12, CODES[i as usize / 12]);
        let name = BOXED[k];
        if CODES[k] == code {
            return;
        }
        let mut vals: Vec<MVal> = (0..cx.pick(40, 4000)).map(|_| gen_prim(r, code)).collect();
        for e in 0..=64 {
            for d in -1..=1 {
                for s in [-1, 1] {
                    let x: i128 = s * (1i128 << e) + d;
                    vals.push(match code {
                        P_BOOL => MVal::Bool(x & 1 == 0),
                        P_BYTE => MVal::Byte(x as u8),
                        P_I8 => MVal::I8(x as i8),
                        P_CHAR => MVal::Char(char::from_u32(x.unsigned_abs() as u32).unwrap_or('1')),
                        P_DOUBLE => MVal::Double((x as f64).to_bits()),
                        P_SINGLE => MVal::Single((x as f32).to_bits()),
                        P_I32 => MVal::I32(x as i32),
                        P_U32 => MVal::U32(x as u32),
                        P_I64 => MVal::I64(x as i64),
                        P_U64 => MVal::U64(x as u64),
                        P_I16 => MVal::I16(x as i16),
                        _ => MVal::U16(x as u16),
                    });
                }
            }
        }
        for v in vals {
            let kind = r.below(4);
            let declared = r.chance(50);
            let w = wrap(
                r,
                kind,
                &mut |w, top, id, _| {
                    class_head(w, top, if declared { 4 } else { 2 }, id, name, &["m_value".to_string()]);
                    if declared {
                        w.u8(F::BinType, 0);
                        w.u8(F::PrimTypeMember, code);
                        w.prim(&v);
                    } else {
                        w.typed_prim(&v);
                    }
                },
                &mut |_| (),
            );
            t.eval(&w.buf, true);
            let whole = whole_number(&as_sv(&v));
            // integers which fit are the same number in the type of the wrapper; floats are equal to the number
            let want = whole.and_then(|x| {
                Some(match CODES[k] {
                    P_BYTE => Sv::U8(x.try_into().ok()?),
                    P_I8 => Sv::I8(x.try_into().ok()?),
                    P_I32 => Sv::I32(x.try_into().ok()?),
                    P_U32 => Sv::U32(x.try_into().ok()?),
                    P_I64 => Sv::I64(x.try_into().ok()?),
                    P_U64 => Sv::U64(x.try_into().ok()?),
                    P_I16 => Sv::I16(x.try_into().ok()?),
                    P_U16 => Sv::U16(x.try_into().ok()?),
                    P_DOUBLE => Sv::F64((x as f64).to_bits()),
                    P_SINGLE => Sv::F32((x as f32).to_bits()),
                    _ => return None,
                })
            });
            let float = matches!(CODES[k], P_DOUBLE | P_SINGLE) && matches!(v, MVal::Double(_) | MVal::Single(_));
            for m in [Mode::Any, Mode::Opt, Mode::Newtype] {
                match (recorded(&w.buf, m), &want) {
                    (Err(e), _) if !e.starts_with("PANIC") => t.n("numbers of other types refused"),
                    (Ok(_), _) if float => t.n("floats of other types delivered"),
                    (Ok(got), Some(want)) if m == Mode::Any && got == wrapped(kind, want.clone()) => {
                        t.n("numbers of other types which fit delivered")
                    }
                    (Ok(_), Some(_)) if m != Mode::Any => (),
                    (got, _) => t.bad(
                        &w.buf,
                        format!("{name} holding {v:?}: gives {} instead of {want:?} or an error", short(format!("{got:?}"))),
                        String::new(),
                    ),
                }
            }
            if kind == 0 {
                macro_rules! own {
                    ($($ty:ty),*) => {
                        $(if let Ok(x) = ask::<$ty>(&w.buf)
                            && (want.is_none() || whole != Some(x as i128))
                        {
                            t.bad(&w.buf, format!("{name} holding {v:?}: is {x} as {}", stringify!($ty)), String::new());
                        })*
                    };
                }
                if !float && !matches!(CODES[k], P_DOUBLE | P_SINGLE) {
                    own!(i8, u8, i16, u16, i32, u32, i64, u64);
                }
            }
        }
    });
    // classes of other names are what they are
    const OTHERS: [&str; 22] = [
        "System.Int32[]",
        "System.Int32Enum",
        "System.Int",
        "System.IntPtr",
        "Int32",
        "system.int32",
        "System.int32",
        " System.Int32",
        "System.Int32 ",
        "System.Int32, mscorlib",
        "System.String",
        "System.Object",
        "System.DateTime",
        "System.TimeSpan",
        "System.Decimal",
        "System.Guid",
        "System.Nullable`1[[System.Int32, mscorlib]]",
        "My.System.Int32",
        "System.Collections.ArrayList",
        "System.Collections.Generic.HashSet`1[[System.Int32]]",
        "System.Collections.Generic.Dictionary`2[[System.Int32]]",
        "",
    ];
    cx.par("other classes", cx.cases(20_000, 200_000), |r, i, t| {
        let name = OTHERS[i as usize % OTHERS.len()];
        let code = *r.pick(&CODES);
        let v = gen_prim(r, code);
        let kind = r.below(4);
        let lib = r.chance(30);
        let member = *r.pick(&["m_value", "value__", "_items", "_size", "ticks", "x"]);
        let w = wrap(
            r,
            kind,
            &mut |w, top, id, _| {
                class_head(w, top, if lib { 3 } else { 2 }, id, name, &[member.to_string()]);
                if lib {
                    w.i32(F::LibUse, 70);
                }
                w.typed_prim(&v);
            },
            &mut |_| (),
        );
        t.nd(&format!("not unwrapped: {name}"));
        must(&w.buf, wrapped(kind, Sv::Map(vec![(Sv::Borrowed(member.into()), as_sv(&v))])), name, t);
    });
    // lists
    cx.par("lists", cx.cases(300_000, 4_000_000), |r, i, t| {
        let n = match r.below(20) {
            0 => r.range(50, 300),
            _ => r.below(9),
        };
        let fault = i % 3 == 0;
        let mut size = if r.chance(30) { n as i32 } else { r.below(n + 1) as i32 };
        let kind = r.below(4);
        let arr = r.below(5);
        let code = *r.pick(&CODES);
        let texts: Vec<String> = (0..n).map(|_| gen_string(r, StrGen::Short)).collect();
        let prims: Vec<MVal> = (0..n).map(|_| gen_prim(r, code)).collect();
        let suffix = *r.pick(&["`1[[System.String, mscorlib]]", "", "`1", "`", "`1[[`2]]"]);
        let mut cls = format!("{LIST}{suffix}");
        let mut order = vec!["_items", "_size", "_version"];
        r.shuffle(&mut order);
        let mut what = "list";
        let mut items_kind = 0;
        let mut size_code = P_I32;
        let mut version_code = P_I32;
        let mut lib = false;
        let mut other_class = false;
        if fault {
            match r.below(10) {
                0 => {
                    size = *r.pick(&[-1, i32::MIN, -2, -(n as i32) - 1, -256]);
                    what = "negative size";
                }
                1 => {
                    size = n as i32 + *r.pick(&[1, 2, 100]);
                    what = "size exceeds items";
                }
                2 => {
                    size = *r.pick(&[i32::MAX, i32::MAX - 1, 1 << 30]);
                    what = "size exceeds items";
                }
                3 => {
                    order.remove(r.below(3));
                    what = "a member is missing";
                }
                4 => {
                    let k = r.below(3);
                    order[k] = "_syncRoot";
                    what = "a member is missing";
                }
                5 => {
                    items_kind = 1 + r.below(3);
                    what = "items are no array";
                }
                6 => {
                    size_code = *r.pick(&[P_I64, P_BYTE, P_U32, P_I16]);
                    what = "size is no Int32";
                }
                8 => {
                    let k = r.below(4);
                    order.insert(k, *r.pick(&["_syncRoot", "_extra", "", "_Items", "_sizes", "items", "size", "version", "_count"]));
                    what = "a member too many";
                }
                7 => {
                    lib = true;
                    what = "list from a library";
                }
                _ => {
                    cls = r
                        .pick(&[
                            "System.Collections.Generic.Lis",
                            "System.Collections.Generic.ListX",
                            "System.Collections.Generic.List[]",
                            "system.collections.generic.list",
                            "System.Collections.Generic.LinkedList`1[[X]]",
                            "Generic.List`1",
                            "`System.Collections.Generic.List",
                        ])
                        .to_string();
                    other_class = true;
                    what = "another class";
                }
            }
        }
        let ints = |code: u8, x: i32| match code {
            P_I64 => MVal::I64(x.into()),
            P_BYTE => MVal::Byte(x as u8),
            P_U32 => MVal::U32(x as u32),
            P_I16 => MVal::I16(x as i16),
            _ => MVal::I32(x),
        };
        if fault && r.chance(10) && what == "size is no Int32" {
            size_code = P_I32;
            version_code = P_I64;
            what = "version is no Int32";
        }
        let version = r.i32();
        let extra = r.below(4);
        let nm: Vec<String> = order.iter().map(|s| s.to_string()).collect();
        let w = wrap(
            r,
            kind,
            &mut |w, top, id, _| {
                class_head(w, top, if lib { 3 } else { 2 }, id, &cls, &nm);
                if lib {
                    w.i32(F::LibUse, 70);
                }
                for o in &order {
                    match *o {
                        "_items" => match items_kind {
                            0 => w.member_ref(500),
                            1 => w.null(),
                            2 => w.obj_str(false, 499, "items", 0),
                            _ => w.typed_prim(&MVal::I32(3)),
                        },
                        "_size" => w.typed_prim(&ints(size_code, size)),
                        "_version" => w.typed_prim(&ints(version_code, version)),
                        _ => match extra {
                            0 => w.null(),
                            1 => w.typed_prim(&MVal::I32(size)),
                            2 => w.obj_str(false, 498, "extra", 0),
                            _ => class_head(w, false, 2, 497, "System.Object", &[]),
                        },
                    }
                }
            },
            &mut |w| {
                if !order.contains(&"_items") || items_kind != 0 {
                    return;
                }
                match arr {
                    0 => {
                        w.u8(F::TopTag, 17);
                        w.i32(F::ObjId, 500);
                        w.i32(F::ArrLen, n as i32);
                        for (i, s) in texts.iter().enumerate() {
                            w.obj_str(false, 1000 + i as i32, s, 0);
                        }
                    }
                    1 => {
                        w.u8(F::TopTag, 15);
                        w.i32(F::ObjId, 500);
                        w.i32(F::ArrLen, n as i32);
                        w.u8(F::PrimTypePrimArray, code);
                        for v in &prims {
                            w.prim(v);
                        }
                    }
                    2 => {
                        w.u8(F::TopTag, 16);
                        w.i32(F::ObjId, 500);
                        w.i32(F::ArrLen, n as i32);
                        for v in &prims {
                            w.typed_prim(v);
                        }
                    }
                    3 => {
                        w.u8(F::TopTag, 7);
                        w.i32(F::ObjId, 500);
                        w.u8(F::ArrType, 0);
                        w.i32(F::Rank, 1);
                        w.i32(F::Dim, n as i32);
                        w.u8(F::BinType, 0);
                        w.u8(F::PrimTypeArray, code);
                        for v in &prims {
                            w.prim(v);
                        }
                    }
                    _ => {
                        w.u8(F::TopTag, 17);
                        w.i32(F::ObjId, 500);
                        w.i32(F::ArrLen, n as i32);
                        if n > 0 {
                            w.null_run(n, false);
                        }
                    }
                }
            },
        );
        let item = |i: usize| match arr {
            0 => Sv::Borrowed(texts[i].clone()),
            4 => Sv::Unit,
            _ => as_sv(&prims[i]),
        };
        t.nd(&format!("lists: {what}"));
        if what == "list" {
            let want = Sv::Seq((0..size as usize).map(item).collect());
            must(&w.buf, wrapped(kind, want), "generic list", t);
            if kind == 0 && arr == 0 {
                let got = ask::<Vec<&str>>(&w.buf);
                if got.as_ref().map(|v| v.iter().map(|s| s.to_string()).collect::<Vec<_>>()).as_ref()
                    != Ok(&texts[..size as usize].to_vec())
                {
                    t.bad(&w.buf, format!("the list is delivered as {got:?}"), String::new());
                }
                for (k, ok) in [
                    (1, ask::<[&str; 1]>(&w.buf).is_ok()),
                    (2, ask::<[&str; 2]>(&w.buf).is_ok()),
                    (3, ask::<(&str, &str, &str)>(&w.buf).is_ok()),
                ] {
                    if ok != (k == size) {
                        t.bad(&w.buf, format!("a list of {size} as {k} elements: {ok}"), String::new());
                    }
                }
            }
        } else if lib || other_class {
            let items = Sv::Seq((0..n).map(item).collect());
            let mut m = vec![];
            for o in &order {
                let v = match *o {
                    "_items" => items.clone(),
                    "_size" => Sv::I32(size),
                    _ => Sv::I32(version),
                };
                m.push((Sv::Borrowed(o.to_string()), v));
            }
            m.sort_by_cached_key(|(k, _)| format!("{k:?}"));
            must(&w.buf, wrapped(kind, Sv::Map(m)), what, t);
        } else {
            must_fail(&w.buf, what, t);
        }
    });
    let _ = names(0);
}
