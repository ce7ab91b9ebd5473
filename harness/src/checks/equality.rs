//! Equality and copies follow the content.

use std::collections::{BTreeMap, HashMap};

use nrbf::value::Object;
use nrbf::{RemotingMessage, Value};

use super::place::{PLACES, class_head, message, obj, place};
use super::verdicts::renumber;
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg, gen_char, gen_prim};
use crate::mval::{MMsg, MVal};
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;
use crate::{corpus, mutate, real};

/// The number a decimal text denotes.
fn number(s: &str) -> (bool, String, String) {
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s),
    };
    let (a, b) = s.split_once('.').unwrap_or((s, ""));
    let (a, b) = (a.trim_start_matches('0'), b.trim_end_matches('0'));
    (neg && !(a.is_empty() && b.is_empty()), a.into(), b.into())
}

/// What equality has to say.
pub fn same(a: &MVal, b: &MVal) -> bool {
    match (a, b) {
        (MVal::Double(x), MVal::Double(y)) => f64::from_bits(*x) == f64::from_bits(*y),
        (MVal::Single(x), MVal::Single(y)) => f32::from_bits(*x) == f32::from_bits(*y),
        (MVal::Dec(x), MVal::Dec(y)) => number(x) == number(y),
        (MVal::Arr(x), MVal::Arr(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        (MVal::Obj { class: c, lib: l, members: m }, MVal::Obj { class: d, lib: k, members: n }) => {
            c == d && l == k && m.len() == n.len() && m.iter().zip(n).all(|((a, x), (b, y))| a == b && same(x, y))
        }
        _ => a == b,
    }
}

fn same_args(a: &Option<Vec<MVal>>, b: &Option<Vec<MVal>>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| same(a, b)),
        _ => false,
    }
}

fn same_msg(a: &MMsg, b: &MMsg) -> bool {
    match (a, b) {
        (MMsg::Val(x), MMsg::Val(y)) => same(x, y),
        (MMsg::Call { method, ty, ctx, args }, MMsg::Call { method: m, ty: t, ctx: c, args: a }) => {
            method == m && ty == t && ctx == c && same_args(args, a)
        }
        (MMsg::Ret { ret, ctx, args }, MMsg::Ret { ret: r, ctx: c, args: a }) => {
            let ret = match (ret, r) {
                (None, None) => true,
                (Some(x), Some(y)) => same(x, y),
                _ => false,
            };
            ret && ctx == c && same_args(args, a)
        }
        _ => false,
    }
}

/// The same value built by hand, unless that cannot be done.
fn by_hand(v: &MVal) -> Option<Value<'_>> {
    Some(match v {
        MVal::Obj { class, lib, members } => {
            let mut m = HashMap::new();
            for (k, v) in members.iter().rev() {
                m.insert(k.as_str(), by_hand(v)?);
            }
            Value::Object(Object { class, library: lib.as_deref(), members: m })
        }
        MVal::Arr(a) => Value::Array(a.iter().map(by_hand).collect::<Option<_>>()?),
        MVal::Bool(x) => Value::Boolean(*x),
        MVal::Byte(x) => Value::Byte(*x),
        MVal::Char(x) => Value::Char(*x),
        MVal::Double(x) => Value::Double(f64::from_bits(*x)),
        MVal::I16(x) => Value::Int16(*x),
        MVal::I32(x) => Value::Int32(*x),
        MVal::I64(x) => Value::Int64(*x),
        MVal::I8(x) => Value::SByte(*x),
        MVal::Single(x) => Value::Single(f32::from_bits(*x)),
        MVal::U16(x) => Value::UInt16(*x),
        MVal::U32(x) => Value::UInt32(*x),
        MVal::U64(x) => Value::UInt64(*x),
        MVal::Str(s) => Value::String(s),
        MVal::Null => Value::Null,
        MVal::Dec(_) | MVal::Ts(_) | MVal::Dt(_) => return None,
    })
}

fn say<T>(b: &[u8], what: &str, got: Result<Result<T, String>, String>, t: &mut Tally) -> Option<T> {
    match got {
        Ok(Ok(x)) => Some(x),
        Ok(Err(e)) => {
            t.bad(b, format!("{what}: {e}"), String::new());
            None
        }
        Err(p) => {
            t.bad(b, format!("{what}: panics: {p}"), String::new());
            None
        }
    }
}

/// `==` and `!=`, both ways round.
fn holds<T: PartialEq>(a: &T, b: &T, want: bool) -> Result<(), String> {
    let all = [a == b, b == a, !(a != b), !(b != a)];
    if all.iter().any(|x| *x != want) {
        return Err(format!("{} (a == b: {}, b == a: {}, a != b: {}, b != a: {})", if want { "the same content, but not equal" } else { "different content, but equal" }, all[0], all[1], !all[2], !all[3]));
    }
    Ok(())
}

/// A copy is equal (unless there is a number which is not equal to itself), and stays what it is.
fn copies(m: RemotingMessage<'_>, want: &MMsg, other: RemotingMessage<'_>, is: &MMsg) -> Result<(), String> {
    let reflexive = same_msg(want, want);
    holds(&m, &m, reflexive).map_err(|e| format!("itself: {e}"))?;
    let c = m.clone();
    holds(&c, &m, reflexive).map_err(|e| format!("a copy: {e}"))?;
    if real::msg(&c) != *want {
        return Err("a copy has another content".into());
    }
    let mut d = other.clone();
    d.clone_from(&m);
    holds(&d, &m, reflexive).map_err(|e| format!("a copy over another value: {e}"))?;
    let mut e = c.clone();
    e.clone_from(&other);
    if real::msg(&e) != *is || real::msg(&d) != *want {
        return Err("a copy over another value has another content".into());
    }
    drop(m);
    drop(other);
    if real::msg(&c) != *want {
        return Err("a copy changed when the original was dropped".into());
    }
    Ok(())
}

/// Compares two messages, given what each contains.
fn pair(a: &[u8], x: &MMsg, b: &[u8], y: &MMsg, what: &str, t: &mut Tally) {
    let want = same_msg(x, y);
    t.n(if want { "pairs of messages with the same content" } else { "pairs of messages with different content" });
    let got = real::watched(a, || {
        let (Ok(m), Ok(n)) = (RemotingMessage::parse(a), RemotingMessage::parse(b)) else { return Ok(()) };
        holds(&m, &n, want)?;
        copies(m, x, n, y)
    });
    if !matches!(got, Ok(Ok(()))) {
        say(a, &format!("{what} (the other message: {})", hex(&b[..b.len().min(2000)])), got, t);
    }
}

/// All pairs of the values of an array or object, and of each with itself.
fn inside(b: &[u8], v: &Value<'_>, what: &str, t: &mut Tally) {
    let parts: Vec<&Value<'_>> = match v {
        Value::Array(a) => a.iter().collect(),
        Value::Object(o) => o.members.values().collect(),
        _ => return,
    };
    let got = real::watched(b, || {
        let ms: Vec<MVal> = parts.iter().map(|v| real::val(v)).collect();
        let mut n = 0u64;
        let mut eq = 0u64;
        for i in 0..parts.len() {
            for j in i..parts.len() {
                let want = same(&ms[i], &ms[j]);
                n += 1;
                eq += u64::from(want);
                holds(parts[i], parts[j], want).map_err(|e| format!("{} and {}: {e}", ms[i].brief(), ms[j].brief()))?;
            }
            let c = parts[i].clone();
            holds(&c, parts[i], same(&ms[i], &ms[i])).map_err(|e| format!("a copy of {}: {e}", ms[i].brief()))?;
            // a copy over another value, and over one which was copied before
            for j in [i + 1, i + 2, parts.len() - 1 - i] {
                let Some(to) = parts.get(j) else { continue };
                let mut c = c.clone();
                c.clone_from(to);
                if real::val(&c) != ms[j] {
                    return Err(format!("a copy of {} over {} has another content", ms[j].brief(), ms[i].brief()));
                }
            }
        }
        Ok((n, eq))
    });
    if let Some((n, eq)) = say(b, what, got, t) {
        t.add("pairs of values", n);
        t.add("pairs of values with the same content", eq);
    }
}

/// The content of a message, and whether it is the same when built by hand.
fn content(b: &[u8], what: &str, t: &mut Tally) -> Option<MMsg> {
    let got = real::watched(b, || {
        let Ok(m) = RemotingMessage::parse(b) else { return Ok(None) };
        let c = real::msg(&m);
        if let (RemotingMessage::Value(v), MMsg::Val(x)) = (&m, &c) {
            if let Some(h) = by_hand(x) {
                holds(v, &h, same(x, x)).map_err(|e| format!("built by hand: {e}"))?;
            }
        }
        Ok(Some(c))
    });
    say(b, what, got, t).flatten()
}

/// Primitive values between which there is little difference.
fn tricky(r: &mut Rng) -> Vec<MVal> {
    let mut v = vec![MVal::Null, MVal::Bool(false), MVal::Bool(true), MVal::Char('\0'), MVal::Char('\u{1}'), MVal::Char('A'), MVal::Str(String::new())];
    for n in [0i8, 1, -1, 65, 127, -128] {
        v.push(MVal::I8(n));
        v.push(MVal::Byte(n as u8));
        v.push(MVal::I16(n.into()));
        v.push(MVal::U16(n as u16));
        v.push(MVal::I32(n.into()));
        v.push(MVal::U32(n as u32));
        v.push(MVal::I64(n.into()));
        v.push(MVal::U64(n as u64));
        v.push(MVal::Ts(n.into()));
        v.push(MVal::Dt(n.into()));
        v.push(MVal::Dec(n.to_string()));
        v.push(MVal::Double(f64::from(n).to_bits()));
        v.push(MVal::Single(f32::from(n).to_bits()));
        v.push(MVal::Str(n.to_string()));
    }
    for k in 0..3u64 {
        v.push(MVal::Dt((k << 62) as i64));
        v.push(MVal::Dt((k << 62 | 1) as i64));
    }
    for x in [0x8000_0000_0000_0000, 0x7ff8_0000_0000_0000, 0x7ff8_0000_0000_0001, 0xfff0_0000_0000_0001, 0x7ff0_0000_0000_0000, 0xfff0_0000_0000_0000, 1] {
        v.push(MVal::Double(x));
    }
    for x in [0x8000_0000, 0x7fc0_0000, 0xffc0_0001, 0x7f80_0000, 0xff80_0000, 1, 2] {
        v.push(MVal::Single(x));
    }
    for s in ["1.0", "1.00", "10", "0.1", "0.10", "0.0", "-1.0", "1.01", "79228162514264337593543950335", "7922816251426433759354395033.5", "0.0000000000000000000000000001"] {
        v.push(MVal::Dec(s.into()));
    }
    for s in ["a", "A", "a ", " a", "a\0", "é", "e\u{301}", "ab", "ba", "aa"] {
        v.push(MVal::Str(s.into()));
    }
    for x in [1i64 << 32, 1 << 31, (1 << 32) + 1, 1 << 53, (1 << 53) + 1, i64::MAX, i64::MAX - 1] {
        v.push(MVal::I64(x));
        v.push(MVal::U64(x as u64));
        v.push(MVal::Ts(x));
        v.push(MVal::Double((x as f64).to_bits()));
    }
    v.push(MVal::Char(gen_char(r)));
    v
}

/// Writes a value as a member, element or (at the top) as an object; objects which arrays need follow later.
fn put(w: &mut W, v: &MVal, next: &mut i32, late: &mut Vec<(i32, MVal)>) {
    match v {
        MVal::Null => w.null(),
        MVal::Str(s) => {
            w.obj_str(false, *next, s, 0);
            *next += 1;
        }
        MVal::Obj { class, lib, members } => {
            let names: Vec<String> = members.keys().cloned().collect();
            class_head(w, false, if lib.is_some() { 3 } else { 2 }, *next, class, &names);
            *next += 1;
            if let Some(l) = lib {
                w.i32(F::LibUse, lib_id(l));
            }
            for v in members.values() {
                put(w, v, next, late);
            }
        }
        MVal::Arr(_) => {
            w.member_ref(*next);
            late.push((*next, v.clone()));
            *next += 1;
        }
        p => w.typed_prim(p),
    }
}

const LIBS: [&str; 4] = ["L", "", "L2", "l"];

fn lib_id(l: &str) -> i32 {
    1_000_000 + LIBS.iter().position(|x| *x == l).unwrap() as i32
}

/// An array of the given values, as a message.
fn array_of(vals: &[MVal]) -> W {
    message(|w| {
        for l in &LIBS[1..] {
            // each in front of a record of its own
            w.lib(lib_id(l), l);
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 2_000_000 + lib_id(l));
            w.i32(F::ArrLen, 0);
        }
        w.lib(lib_id("L"), "L");
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, 1);
        w.i32(F::ArrLen, vals.len() as i32);
        let mut next = 2;
        let mut late = vec![];
        for v in vals {
            put(w, v, &mut next, &mut late);
        }
        while !late.is_empty() {
            let (id, v) = late.remove(0);
            let MVal::Arr(a) = v else { unreachable!() };
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, id);
            w.i32(F::ArrLen, a.len() as i32);
            for v in &a {
                put(w, v, &mut next, &mut late);
            }
        }
    })
}

/// A value somewhat like the given one.
fn near(r: &mut Rng, v: &MVal, depth: usize) -> MVal {
    let (bit, high) = (1i64 << r.below(64), 1i64 << r.range(61, 63));
    match v {
        MVal::Arr(a) if !a.is_empty() && (depth == 0 || r.chance(70)) => {
            let mut a = a.clone();
            let k = match r.below(3) {
                0 => 0,
                1 => a.len() - 1,
                _ => r.below(a.len()),
            };
            match r.below(5) {
                0 => {
                    a.remove(k);
                }
                1 => a.insert(k, MVal::Null),
                2 => {
                    let j = r.below(a.len());
                    a.swap(k, j);
                }
                _ => a[k] = near(r, &a[k], depth + 1),
            }
            MVal::Arr(a)
        }
        MVal::Arr(_) => MVal::Arr(vec![MVal::Null]),
        MVal::Obj { class, lib, members } => {
            let (mut class, mut lib, mut members) = (class.clone(), lib.clone(), members.clone());
            let name = members.keys().nth(r.below(members.len().max(1))).cloned();
            match (r.below(7), name) {
                (0, _) => class.push_str(*r.pick(&["X", " ", "`1"])),
                (1, _) => {
                    lib = match r.below(4) {
                        0 => None,
                        _ => Some(r.pick(&LIBS).to_string()),
                    }
                }
                (2, Some(n)) => {
                    members.remove(&n);
                }
                (3, _) => {
                    members.insert("added".into(), MVal::Null);
                }
                (4, Some(n)) => {
                    // another name for the same
                    let v = members.remove(&n).unwrap();
                    members.insert(format!("{n}_"), v);
                }
                (_, Some(n)) => {
                    let v = near(r, &members[&n], depth + 1);
                    members.insert(n, v);
                }
                _ => class.push('Y'),
            }
            MVal::Obj { class, lib, members }
        }
        MVal::Str(s) => MVal::Str(if r.chance(50) && !s.is_empty() { s.chars().rev().collect() } else { format!("{s}.") }),
        MVal::Null => r.pick(&[MVal::Bool(false), MVal::I32(0), MVal::Str(String::new()), obj("", None, [])]).clone(),
        MVal::I64(x) => r.pick(&[MVal::U64(*x as u64), MVal::I64(x ^ bit), MVal::Ts(*x), MVal::Dt(*x)]).clone(),
        MVal::Ts(x) => r.pick(&[MVal::I64(*x), MVal::Ts(x ^ bit), MVal::Dt(*x)]).clone(),
        MVal::Dt(x) => {
            // whether kind 3 equals kind 0 is left open
            let y = x ^ *r.pick(&[bit, high]);
            if r.chance(30) { MVal::Ts(*x) } else { MVal::Dt(if y >> 62 == -1 { x ^ 1 } else { y }) }
        }
        MVal::Double(x) => MVal::Double(x ^ (1 << r.below(64))),
        MVal::Single(x) => MVal::Single(x ^ (1 << r.below(32))),
        MVal::Dec(s) => MVal::Dec(if !s.contains('.') && s.len() < 25 { format!("{s}{}", r.pick(&[".0", ".00", ".1", "0"])) } else { "1".into() }),
        MVal::Bool(x) => MVal::Bool(!x),
        MVal::Char(_) => MVal::Char(gen_char(r)),
        p => gen_prim(r, prim_code(p)),
    }
}

/// A value of any kind.
fn some(r: &mut Rng, depth: usize, pool: &[MVal]) -> MVal {
    let n = match r.below(10) {
        0 if depth == 0 => r.range(30, 300),
        _ => r.below(5),
    };
    match r.below(if depth > 3 { 1 } else { 4 }) {
        0 => r.pick(pool).clone(),
        1 => MVal::Arr((0..n).map(|_| some(r, depth + 1, pool)).collect()),
        _ => {
            let members: BTreeMap<String, MVal> = (0..n).map(|i| (format!("m{i}"), some(r, depth + 1, pool))).collect();
            MVal::Obj { class: r.pick(&["C", "D", ""]).to_string(), lib: r.chance(50).then(|| r.pick(&LIBS).to_string()), members }
        }
    }
}

pub fn c23(cx: &Cx) {
    cx.rule(
        "A case is one message, or one of a pair: compared with ==, !=, both ways round, with others of the same or nearly the same \
         content, with itself, with copies and with values built by hand; what equality has to say follows from the contents, read \
         member by member. Distinct by its bytes.",
    );
    cx.par("tricky values", 4, |r, i, t| {
        let mut vals = tricky(r);
        if i % 2 == 1 {
            // inside of objects and arrays
            let k = vals.len();
            for j in 0..k {
                let v = vals[j].clone();
                vals[j] = match i {
                    1 => MVal::Arr(vec![v]),
                    _ => obj("C", None, [("x".to_string(), v)]),
                };
            }
        }
        for (c, l) in [("C", None), ("C", Some("")), ("C", Some("L")), ("C", Some("L2")), ("C", Some("l")), ("c", None), ("", None), ("", Some("")), ("CL", None)] {
            vals.push(obj(c, l, []));
            vals.push(obj(c, l, [("x".to_string(), MVal::Null)]));
            vals.push(obj(c, l, [("X".to_string(), MVal::Null)]));
            vals.push(obj(c, l, [("x".to_string(), MVal::Null), ("y".to_string(), MVal::Null)]));
            vals.push(obj(c, l, [("x".to_string(), MVal::I32(1)), ("y".to_string(), MVal::I32(2))]));
            vals.push(obj(c, l, [("x".to_string(), MVal::I32(2)), ("y".to_string(), MVal::I32(1))]));
        }
        for k in 0..4 {
            vals.push(MVal::Arr(vec![MVal::Null; k]));
            vals.push(MVal::Arr(vec![MVal::Arr(vec![]); k]));
            vals.push(MVal::Arr((0..k as i32).map(MVal::I32).collect()));
            vals.push(MVal::Arr((0..k as i32).rev().map(MVal::I32).collect()));
        }
        // each of them twice
        vals.extend(vals.clone());
        let w = array_of(&vals);
        t.eval(&w.buf, true);
        let got = real::watched(&w.buf, || RemotingMessage::parse(&w.buf).map_err(|e| format!("rejected: {e}")));
        match say(&w.buf, "tricky values", got, t) {
            Some(RemotingMessage::Value(v)) => {
                inside(&w.buf, &v, "tricky values", t);
                if let (Value::Array(a), t) = (&v, t) {
                    if a.len() != vals.len() {
                        t.bad(&w.buf, "elements lost".into(), String::new());
                    }
                }
            }
            Some(_) => t.bad(&w.buf, "another kind of message".into(), String::new()),
            None => (),
        }
    });
    cx.par("nearly the same", cx.cases(16_000, 300_000), |r, _, t| {
        let pool = tricky(r);
        let v = some(r, 0, &pool);
        let mut vals = vec![v.clone(), v.clone()];
        for _ in 0..r.range(1, 4) {
            vals.push(near(r, &v, 0));
        }
        let w = array_of(&vals);
        t.eval(&w.buf, true);
        let got = real::watched(&w.buf, || RemotingMessage::parse(&w.buf).map_err(|e| format!("rejected: {e}")));
        if let Some(RemotingMessage::Value(v)) = say(&w.buf, "nearly the same", got, t) {
            inside(&w.buf, &v, "nearly the same", t);
        }
        let (a, b) = (array_of(&vals[..1]), array_of(&vals[2..3]));
        t.eval(&a.buf, true);
        t.eval(&b.buf, true);
        let (x, y) = (MMsg::Val(MVal::Arr(vec![vals[0].clone()])), MMsg::Val(MVal::Arr(vec![vals[2].clone()])));
        if let (Some(p), Some(q)) = (content(&a.buf, "nearly the same", t), content(&b.buf, "nearly the same", t)) {
            pair(&a.buf, &p, &b.buf, &q, "nearly the same", t);
            // what was written, not only what arrived
            if same_msg(&x, &y) != same_msg(&p, &q) {
                t.bad(&a.buf, format!("the content is not what was written, next to {}", hex(&b.buf)), String::new());
            }
        }
    });
    cx.par("the same in other places", cx.cases(16_000, 250_000), |r, _, t| {
        let code = *r.pick(&PRIMS);
        let n = if r.chance(90) { r.range(1, 6) } else { r.range(6, 400) };
        let vals: Vec<MVal> = (0..n).map(|_| gen_prim(r, code)).collect();
        let mut other = vals.clone();
        let k = r.below(n);
        other[k] = if r.chance(50) { gen_prim(r, code) } else { near(r, &vals[k], 1) };
        if prim_code(&other[k]) != code {
            other[k] = gen_prim(r, code);
        }
        let pick = |r: &mut Rng| loop {
            let p = r.below(PLACES.len());
            if p != 11 || n == 1 {
                break p;
            }
        };
        let (p, q) = (pick(r), pick(r));
        let (a, x) = place(p, &vals, r);
        let (b, y) = place(q, if r.chance(50) { &vals } else { &other }, r);
        t.eval(&a.buf, true);
        t.eval(&b.buf, true);
        let what = format!("{} and {}", PLACES[p], PLACES[q]);
        if let (Some(p), Some(q)) = (content(&a.buf, &what, t), content(&b.buf, &what, t)) {
            pair(&a.buf, &p, &b.buf, &q, &what, t);
            if same_msg(&x, &y) != same_msg(&p, &q) {
                t.bad(&a.buf, format!("{what}: the content is not what was written, next to {}", hex(&b.buf)), String::new());
            }
        }
    });
    cx.par("messages", cx.cases(12_000, 200_000), |r, _, t| {
        let cfg = Cfg { size: *r.pick(&[8, 25, 60]), calls: 40, ..Cfg::default() };
        let w = doc::generate(r, &cfg);
        let mut all = vec![w.buf.clone(), renumber(r, &w, false), renumber(r, &w, true)];
        for _ in 0..3 {
            all.push(mutate::field(r, &w).0);
            all.push(mutate::transplant(r, &w));
        }
        all.push(corpus::one(r).0);
        all.retain(|b| !real::bomb(b, 0));
        let known: Vec<(&Vec<u8>, MMsg)> = all.iter().filter_map(|b| content(b, "message", t).map(|c| (b, c))).collect();
        let known: Vec<_> = known.into_iter().filter(|k| k.0.len() < 20_000).collect();
        for i in 0..known.len() {
            t.eval(known[i].0, true);
            for j in i..known.len() {
                if j > i && i > 0 && r.chance(50) {
                    continue;
                }
                pair(known[i].0, &known[i].1, known[j].0, &known[j].1, "messages", t);
            }
        }
        if let Ok(Ok(RemotingMessage::Value(v))) = real::watched(&w.buf, || RemotingMessage::parse(&w.buf)) {
            inside(&w.buf, &v, "values of a message", t);
        }
        // errors: the same bytes, the same error
        for b in &all {
            let got = real::watched(b, || {
                let copy = b.clone();
                if let (Err(a), Err(c)) = (RemotingMessage::parse(b), RemotingMessage::parse(&copy)) {
                    holds(&a, &c, true)?;
                    holds(&a.clone(), &a, true)?;
                    if a.to_string() != c.clone().to_string() {
                        return Err("the copy of an error has another text".into());
                    }
                    return Ok(true);
                }
                Ok(false)
            });
            if say(b, "errors", got, t) == Some(true) {
                t.n("errors compared");
            }
        }
    });
    // many elements or members, the only difference anywhere
    cx.par("large", cx.cases(300, 4_000), |r, i, t| {
        let n = *r.pick(&[50, 100, 255, 256, 257, 1000, 4096, 10_000]);
        let at = match r.below(3) {
            0 => r.below(n),
            1 => n - 1 - r.below(3),
            _ => n / 2,
        };
        let make = |odd: Option<usize>| {
            if i % 2 == 0 {
                MVal::Arr((0..n).map(|k| MVal::I32(if odd == Some(k) { -1 } else { k as i32 })).collect())
            } else {
                obj("C", Some("L"), (0..n).map(|k| (format!("m{k}"), if odd == Some(k) { MVal::Null } else { MVal::Byte(k as u8) })))
            }
        };
        let w = array_of(&[make(None), make(Some(at)), make(None)]);
        t.eval(&w.buf, true);
        t.max("most elements or members", n as u64);
        let got = real::watched(&w.buf, || RemotingMessage::parse(&w.buf).map_err(|e| format!("rejected: {e}")));
        if let Some(RemotingMessage::Value(v)) = say(&w.buf, "large values", got, t) {
            inside(&w.buf, &v, "large values", t);
        }
        let w2 = array_of(&[make(None), make(Some(at)), make(Some(at))]);
        t.eval(&w2.buf, true);
        if let (Some(p), Some(q)) = (content(&w.buf, "large values", t), content(&w2.buf, "large values", t)) {
            pair(&w.buf, &p, &w2.buf, &q, "large values", t);
        }
    });
    super::many::run_with(cx, cx.pick(1_025, 20_001), |w, want, what, t| pair(&w.buf, want, &w.buf, want, what, t));
}
