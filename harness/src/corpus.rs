//! Inputs of all kinds, for monitors which need no expectation.

use crate::checks::arrays;
use crate::checks::place::{PLACES, class_head, place};
use crate::mval::MVal;
use crate::doc::{self, Cfg, StrGen};
use crate::rng::Rng;
use crate::wire::*;
use crate::{mutate, real, soup};

/// A message with a longer text, part of which may not be text.
fn text(r: &mut Rng) -> Vec<u8> {
    let n = match r.below(4) {
        0 => r.below(9),
        1 => 8 * r.range(1, 9),
        2 => r.below(80),
        _ => r.range(60, 300),
    };
    let mut s: Vec<u8> = (0..n).map(|_| b'a' + r.below(26) as u8).collect();
    for _ in 0..r.below(3) {
        if n > 0 {
            // mostly near the ends
            let at = match r.below(3) {
                0 => r.below(n.min(9)),
                1 => n - 1 - r.below(n.min(9)),
                _ => r.below(n),
            };
            let c: &[u8] = match r.below(6) {
                0 => "é".as_bytes(),
                1 => "€".as_bytes(),
                2 => "\u{1F600}".as_bytes(),
                3 => &[0x80],
                4 => &[0xff],
                _ => &[0xed, 0xa0, 0x80],
            };
            if at + c.len() <= n {
                s[at..at + c.len()].copy_from_slice(c);
            }
        }
    }
    let mut w = W::new();
    w.header(1, -1);
    let put = |w: &mut W, s: &[u8]| {
        let mut n = s.len();
        loop {
            let b = (n & 0x7f) as u8;
            n >>= 7;
            if n == 0 {
                w.buf.push(b);
                break;
            }
            w.buf.push(b | 0x80);
        }
        w.buf.extend_from_slice(s);
    };
    match r.below(6) {
        0 => {
            w.u8(F::TopTag, 6);
            w.i32(F::ObjId, 1);
            put(&mut w, &s);
        }
        1 => {
            w.u8(F::TopTag, 17);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, 2);
            w.obj_str(false, 2, "x", 0);
            w.u8(F::MemberTag, 6);
            w.i32(F::ObjId, 3);
            put(&mut w, &s);
        }
        k @ (2 | 3) => {
            w.u8(F::TopTag, 4);
            w.i32(F::ObjId, 1);
            if k == 2 { put(&mut w, &s) } else { w.str(F::ClassName, "C") }
            w.i32(F::MemberCount, 1);
            if k == 3 { put(&mut w, &s) } else { w.str(F::MemberName, "m") }
            w.u8(F::BinType, 0);
            w.u8(F::PrimTypeMember, P_I32);
            w.i32(F::Num, 5);
        }
        4 => {
            w.u8(F::LibTag, 12);
            w.i32(F::LibId, 4);
            put(&mut w, &s);
            w.obj_str(true, 1, "y", 0);
        }
        _ => {
            w.u8(F::TopTag, 21);
            w.i32(F::Flags, 0x2 | 0x10);
            w.string_code("Method");
            w.string_code("Type");
            w.i32(F::ArgCount, 2);
            w.u8(F::StrCode, P_STR);
            put(&mut w, &s);
            w.string_code("z");
        }
    }
    w.end();
    w.buf
}

/// Bytes which may stand for no character, no Boolean: some of them nearly do.
fn no_value_bytes(r: &mut Rng, len: usize) -> Vec<u8> {
    const EDGE: [u8; 14] = [0, 0x28, 0x7f, 0x80, 0x81, 0x8f, 0x90, 0x9f, 0xa0, 0xaf, 0xb0, 0xbf, 0xc0, 0xff];
    let first: &[u8] = match len {
        1 => &[0x80, 0x81, 0xbf, 0xc2, 0xe0, 0xed, 0xf0, 0xf8, 0xfe, 0xff, 2, 3, 0x7f],
        2 => &[0xc0, 0xc1, 0xc2, 0xc3, 0xdf, 0x80, 0xe0],
        3 => &[0xe0, 0xe1, 0xed, 0xed, 0xed, 0xec, 0xee, 0xef, 0xe0, 0xc2],
        _ => &[0xf0, 0xf4, 0xf0, 0xf4, 0xf1, 0xf5, 0xf7, 0xf8, 0xff],
    };
    let mut v = vec![if r.chance(90) { *r.pick(first) } else { r.u8() }];
    while v.len() < len {
        v.push(if r.chance(70) { *r.pick(&EDGE) } else { 0x80 | r.u8() & 0x3f });
    }
    v
}

/// A message with characters, Booleans or texts, one of which is replaced by bytes of the same number.
pub fn no_value(r: &mut Rng) -> Vec<u8> {
    let p = r.below(PLACES.len());
    let len = r.range(1, 4);
    let c = ["\u{17}", "\u{39b}", "\u{20ac}", "\u{1d11e}"][len - 1];
    let n = r.range(1, 3);
    let text = matches!(p, 10 | 11 | 15) && r.chance(20);
    let vals: Vec<MVal> = (0..n)
        .map(|_| if text { MVal::Str(format!("a{c}b")) } else { MVal::Char(c.chars().next().unwrap()) })
        .take(if p == 11 { 1 } else { 3 })
        .collect();
    let bools: Vec<MVal> = vals.iter().map(|_| MVal::Bool(true)).collect();
    let bad = no_value_bytes(r, len);
    if len == 1 && r.chance(30) {
        let (w, _) = place(p, &bools, r);
        let mut b = w.buf;
        let at: Vec<usize> = w.spans.iter().filter(|s| s.len == 1 && s.f == F::Bool).map(|s| s.off).collect();
        if !at.is_empty() {
            b[*r.pick(&at)] = bad[0];
        }
        return b;
    }
    let (w, _) = place(p, &vals, r);
    let mut b = w.buf;
    let at: Vec<usize> = (17..b.len().saturating_sub(len)).filter(|i| &b[*i..*i + len] == c.as_bytes()).collect();
    if !at.is_empty() {
        let at = *r.pick(&at);
        b[at..at + len].copy_from_slice(&bad);
    }
    b
}

/// A text which looks like a decimal but for one character of `width` bytes behind `at` others.
pub fn odd_decimal(r: &mut Rng, len: usize, at: usize, width: usize) -> String {
    let mut s = String::new();
    let dot = r.below(2 * len + 1);
    for i in 0..len {
        if i == at {
            s.push_str(["x", "\u{666}", "\u{ff15}", "\u{1d7d8}"][width - 1]);
        } else if i == 0 && r.chance(30) {
            s.push(*r.pick(&['-', '+']));
        } else if i == dot {
            s.push('.');
        } else {
            s.push(char::from(b'0' + r.below(10) as u8));
        }
    }
    s
}

/// A message with such a text.
fn decimal(r: &mut Rng) -> Vec<u8> {
    let len = if r.chance(80) { r.range(1, 70) } else { r.range(70, 300) };
    let (at, width) = (r.below(len + 1), r.range(1, 4));
    decimal_message(r, len, at, width)
}

pub fn decimal_message(r: &mut Rng, len: usize, at: usize, width: usize) -> Vec<u8> {
    let s = odd_decimal(r, len, at, width);
    place(r.below(PLACES.len()), &[MVal::Dec(s)], r).0.buf
}

/// A multi-dimensional array whose bounds are at the ends of their ranges.
pub fn bounds(r: &mut Rng) -> Vec<u8> {
    const LOW: [i32; 9] = [i32::MIN, i32::MIN + 1, -2, -1, 0, 1, 2, i32::MAX - 1, i32::MAX];
    let rank = r.range(1, 4);
    let dims: Vec<i32> = (0..rank).map(|_| *r.pick(&[0, 0, 1, 1, 2, 3])).collect();
    let low: Vec<i32> = (0..rank).map(|_| *r.pick(&LOW)).collect();
    bounded(r, if rank == 1 { 3 } else { 5 }, &dims, &low)
}

/// A binary array with the given dimensions and lower bounds.
pub fn bounded(r: &mut Rng, ty: u8, dims: &[i32], low: &[i32]) -> Vec<u8> {
    let mut w = W::new();
    w.header(1, -1);
    w.u8(F::TopTag, 7);
    w.i32(F::ObjId, 1);
    w.u8(F::ArrType, ty);
    w.i32(F::Rank, dims.len() as i32);
    dims.iter().for_each(|d| w.i32(F::Dim, *d));
    low.iter().for_each(|d| w.i32(F::LowerBound, *d));
    let n = dims.iter().product::<i32>();
    if r.chance(50) {
        w.u8(F::BinType, 0);
        w.u8(F::PrimTypeMember, P_I16);
        (0..n).for_each(|k| w.prim(&MVal::I16(k as i16)));
    } else {
        w.u8(F::BinType, 2);
        (0..n).for_each(|_| w.null());
    }
    w.end();
    w.buf
}

/// Longer arrays of primitive values.
pub fn long_array(r: &mut Rng) -> Vec<u8> {
    let (p, code, n) = (*r.pick(&[0, 7, 8, 14]), *r.pick(&PRIMS), r.range(24, 300));
    array_of(r, p, code, n)
}

pub fn array_of(r: &mut Rng, p: usize, code: u8, n: usize) -> Vec<u8> {
    let vals: Vec<MVal> = (0..n).map(|_| doc::gen_prim(r, code)).collect();
    place(p, &vals, r).0.buf
}

/// An object with many members or an array with many elements, a few of which are unlike the others: nested as deeply as is
/// allowed or a little deeper, or references to such objects, to nothing, or back.
pub fn wide(r: &mut Rng) -> Vec<u8> {
    let n = if r.chance(80) { r.range(20, 120) } else { r.range(120, 400) };
    let mut odd = vec![];
    for _ in 0..r.range(1, 3) {
        odd.push((r.below(n), r.below(4), *r.pick(&[1, 2, 30, 60, 61, 62, 63, 64, 65, 66])));
    }
    let mut w = W::new();
    // with an id in front of those of the objects which it refers to, or behind them
    let root = *r.pick(&[1, 100_000]);
    w.header(root, -1);
    let class = r.chance(70);
    let upwards = r.chance(50);
    if class {
        let names: Vec<String> = (0..n).map(|i| format!("{}{i}", char::from(b'a' + (i * 7 % 26) as u8))).collect();
        class_head(&mut w, true, 2, root, "Wide", &names);
    } else {
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, root);
        w.i32(F::ArrLen, n as i32);
    }
    let mut next = 10;
    let mut later = vec![];
    for k in 0..n {
        match odd.iter().find(|o| o.0 == k) {
            None => match (k + n) % 4 {
                0 => w.null(),
                1 => {
                    w.obj_str(false, next, "s", 0);
                    next += 1;
                }
                2 => {
                    class_head(&mut w, false, 2, next, "E", &[]);
                    next += 1;
                }
                _ => w.typed_prim(&MVal::I32(k as i32)),
            },
            Some((_, 0 | 1, depth)) => {
                for _ in 0..*depth {
                    class_head(&mut w, false, 2, next, "Deep", &["d".into()]);
                    next += 1;
                }
                w.null();
            }
            Some((_, 2, depth)) => {
                later.push((next, *depth));
                w.member_ref(if upwards { next } else { next + *depth as i32 - 1 });
                next += *depth as i32;
            }
            Some((_, _, depth)) => w.member_ref(if depth % 2 == 0 { 5 } else { root }),
        }
    }
    for (id, depth) in later {
        let depth = depth as i32;
        for d in 0..depth {
            let (this, next) = if upwards { (id + d, id + d + 1) } else { (id + depth - 1 - d, id + depth - 2 - d) };
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, this);
            w.i32(F::ArrLen, 1);
            if d + 1 < depth { w.member_ref(next) } else { w.null() }
        }
    }
    w.end();
    w.buf
}

/// One input.
pub fn one(r: &mut Rng) -> (Vec<u8>, &'static str) {
    loop {
        let cfg = Cfg { size: *r.pick(&[8, 25, 40, 90]), calls: *r.pick(&[0, 20, 90]), ..Cfg::default() };
        let (b, what) = match r.below(26) {
            0..5 => return (doc::generate(r, &cfg).buf, "well-formed message"),
            5..10 => {
                let w = doc::generate(r, &cfg);
                (mutate::any(r, &w), "altered message")
            }
            10..12 => {
                let w = doc::generate(r, &cfg);
                let b = w.buf[..r.below(w.buf.len())].to_vec();
                (b, "prefix")
            }
            12 => {
                let w = doc::generate(r, &cfg);
                (mutate::transplant(r, &w), "message with a field in another's place")
            }
            13 => {
                let w = doc::generate(r, &Cfg { size: 12, strings: StrGen::Short, ..cfg });
                let b = mutate::any(r, &w);
                (mutate::bytes(r, &b), "message altered twice")
            }
            14..16 => (soup::soup(r), "soup of records"),
            16 => (arrays::any_overflowing(r), "dimensions beyond the address range"),
            17 | 18 => (text(r), "texts and what is not text"),
            19 | 20 => (no_value(r), "bytes which are no value of their type"),
            21 => (decimal(r), "texts which are nearly decimals"),
            22 => (bounds(r), "bounds at the ends of their range"),
            24 => (wide(r), "wide objects with a few odd members"),
            23 => (long_array(r), "longer arrays of primitive values"),
            _ => {
                let n = r.below(60);
                let mut b = vec![0, 1, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 1, 0, 0, 0, 0, 0, 0, 0];
                b.truncate(if r.chance(20) { r.below(18) } else { 17 });
                for _ in 0..n {
                    let x = if r.chance(60) { r.below(23) as u8 } else { r.u8() };
                    b.push(x);
                }
                (b, "random bytes")
            }
        };
        if !real::bomb(&b, 0) {
            return (b, what);
        }
    }
}

/// An input and others which are nearly the same, most of them of the same length.
pub fn family(r: &mut Rng) -> Vec<Vec<u8>> {
    if r.chance(12) {
        return (0..r.range(2, 4)).map(|_| wide(r)).collect();
    }
    let cfg = Cfg { size: *r.pick(&[6, 15, 30]), calls: *r.pick(&[0, 30, 90]), ..Cfg::default() };
    let w = doc::generate(r, &cfg);
    let mut v = vec![w.buf.clone()];
    for _ in 0..3 {
        let b = match r.below(5) {
            0 => mutate::transplant(r, &w),
            1 => mutate::records(r, &w),
            _ => mutate::field(r, &w).0,
        };
        if !real::bomb(&b, 0) {
            v.push(b);
        }
    }
    v.push(one(r).0);
    v
}
