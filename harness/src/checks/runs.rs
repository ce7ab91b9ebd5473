//! Null runs of any length in every kind of container which can hold them.

use super::place::{class_head, obj};
use crate::cx::{Cx, Tally};
use crate::judge;
use crate::mval::{MMsg, MVal};
use crate::real;
use crate::refdec::shaped;
use crate::rng::Rng;
use crate::wire::*;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Kind {
    ObjArray,
    StrArray,
    /// array type and element type of a one-dimensional binary array
    Binary(u8, u8),
    /// element type of a rectangular array; the shape is chosen to have as many elements
    Rect(u8),
    /// declared member type (or none), from a library, a repeated instance
    Class(Option<u8>, bool, bool),
    CallArray,
}

pub fn arrays() -> Vec<Kind> {
    let mut v = vec![Kind::ObjArray, Kind::StrArray, Kind::CallArray];
    for ty in 0..6 {
        for e in 1..8 {
            v.push(Kind::Binary(ty, e));
        }
    }
    v
}

pub fn rects() -> Vec<Kind> {
    (1..8).map(Kind::Rect).collect()
}

pub fn classes() -> Vec<Kind> {
    let mut v = vec![];
    for d in [None, Some(1), Some(2), Some(3), Some(4), Some(5), Some(6), Some(7)] {
        for lib in [false, true] {
            for again in [false, true] {
                v.push(Kind::Class(d, lib, again));
            }
        }
    }
    v
}

fn type_info(w: &mut W, d: u8) {
    match d {
        3 => w.str(F::TypeName, "S"),
        4 => {
            w.str(F::TypeName, "L");
            w.i32(F::LibUse, 900);
        }
        7 => w.u8(F::PrimTypeArray, P_I16),
        _ => (),
    }
}

/// One element which is not null, of a container of elements of type `d`.
fn filler(w: &mut W, d: u8, id: i32, inline: bool, later: &mut Vec<(i32, u8)>, r: &mut Rng) -> MVal {
    let refer = |w: &mut W, later: &mut Vec<(i32, u8)>| {
        w.member_ref(id);
        later.push((id, d));
    };
    match d {
        1 => {
            let s = format!("s{id}");
            if !inline && r.chance(50) {
                refer(w, later);
            } else {
                w.obj_str(false, id, &s, 0);
            }
            MVal::Str(s)
        }
        3 | 4 => {
            class_head(w, false, d + 1, id, if d == 3 { "S" } else { "L" }, &["x".into()]);
            w.u8(F::BinType, 0);
            w.u8(F::PrimTypeMember, P_I32);
            if d == 4 {
                w.i32(F::LibUse, 900);
            }
            w.prim(&MVal::I32(id));
            obj(if d == 3 { "S" } else { "L" }, (d == 4).then_some("Lib"), [("x".to_string(), MVal::I32(id))])
        }
        5 => {
            refer(w, later);
            MVal::Arr(vec![MVal::I32(id)])
        }
        6 => {
            refer(w, later);
            MVal::Arr(vec![MVal::Str("e".into())])
        }
        7 => {
            refer(w, later);
            MVal::Arr(vec![MVal::I16(id as i16)])
        }
        _ => match r.below(3) {
            0 => filler(w, 1, id, inline, later, r),
            1 => filler(w, 3, id, inline, later, r),
            _ => {
                w.typed_prim(&MVal::I32(id));
                MVal::I32(id)
            }
        },
    }
}

/// Slots with the given contents: `None` for something else than null, `Some((k, wide))` for a run of k nulls.
pub fn build(kind: Kind, n: usize, slots: &[Option<(usize, bool)>], r: &mut Rng) -> (W, Option<MMsg>) {
    let mut w = W::new();
    w.header(1, -1);
    let elem = match kind {
        Kind::ObjArray | Kind::CallArray => 2,
        Kind::StrArray => 1,
        Kind::Binary(_, e) | Kind::Rect(e) => e,
        Kind::Class(d, ..) => d.unwrap_or(2),
    };
    let names = super::place::names(n);
    // the library stands before an array which nothing refers to
    w.lib(900, "Lib");
    w.u8(F::TopTag, 16);
    w.i32(F::ObjId, 2);
    w.i32(F::ArrLen, 0);
    let mut dims = vec![n];
    let head = |w: &mut W, id: i32, d: Option<u8>, lib: bool| {
        let tag = match (d.is_some(), lib) {
            (false, false) => 2,
            (false, true) => 3,
            (true, false) => 4,
            (true, true) => 5,
        };
        class_head(w, true, tag, id, "C", &names);
        if let Some(d) = d {
            for _ in 0..n {
                w.u8(F::BinType, d);
            }
            for _ in 0..n {
                type_info(w, d);
            }
        }
        if lib {
            w.i32(F::LibUse, 900);
        }
    };
    match kind {
        Kind::ObjArray | Kind::StrArray => {
            w.u8(F::TopTag, if kind == Kind::ObjArray { 16 } else { 17 });
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, n as i32);
        }
        Kind::CallArray => {
            w.u8(F::TopTag, 21);
            w.i32(F::Flags, 4);
            w.string_code("m");
            w.string_code("t");
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, n as i32);
        }
        Kind::Binary(..) | Kind::Rect(_) => {
            let ty = if let Kind::Binary(ty, _) = kind { ty } else { *r.pick(&[2, 5]) };
            if let Kind::Rect(_) = kind {
                let divs: Vec<usize> = (1..=n.min(2000)).filter(|d| n % d == 0).collect();
                let d = *r.pick(&divs);
                dims = match r.below(3) {
                    0 => vec![d, n / d],
                    1 => vec![1, d, n / d],
                    _ => vec![n / d, d, 1],
                };
            }
            w.u8(F::TopTag, 7);
            w.i32(F::ObjId, 1);
            w.u8(F::ArrType, ty);
            w.i32(F::Rank, dims.len() as i32);
            for d in &dims {
                w.i32(F::Dim, *d as i32);
            }
            if ty >= 3 {
                for _ in &dims {
                    w.i32(F::LowerBound, *r.pick(&[0, 1, -1, 5]));
                }
            }
            w.u8(F::BinType, elem);
            type_info(&mut w, elem);
        }
        Kind::Class(d, lib, again) => {
            if again {
                head(&mut w, 3, d, lib);
                if n > 0 {
                    w.null_run(n, r.chance(50));
                }
                w.u8(F::TopTag, 1);
                w.i32(F::ObjId, 1);
                w.i32(F::MetaId, 3);
            } else {
                head(&mut w, 1, d, lib);
            }
        }
    }
    // where elements are missing, no string may follow which could be one of them
    let short = slots.iter().map(|s| s.map_or(1, |s| s.0)).sum::<usize>() < n;
    let mut vals = vec![];
    let mut later = vec![];
    let mut fits = true;
    let mut next = 1000;
    for s in slots {
        match s {
            None => {
                next += 1;
                let v = filler(&mut w, elem, next, short, &mut later, r);
                vals.push(v);
            }
            Some((k, wide)) => {
                if *k == 1 && r.chance(20) {
                    w.null();
                } else {
                    w.null_run(*k, *wide);
                }
                if *k > n - vals.len().min(n) {
                    fits = false;
                } else {
                    vals.extend(std::iter::repeat_n(MVal::Null, *k));
                }
            }
        }
    }
    for (id, d) in later {
        match d {
            5 => {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, id);
                w.i32(F::ArrLen, 1);
                w.typed_prim(&MVal::I32(id));
            }
            6 => {
                w.u8(F::TopTag, 17);
                w.i32(F::ObjId, id);
                w.i32(F::ArrLen, 1);
                w.obj_str(false, id + 1_000_000, "e", 0);
            }
            7 => {
                w.u8(F::TopTag, 15);
                w.i32(F::ObjId, id);
                w.i32(F::ArrLen, 1);
                w.u8(F::PrimTypePrimArray, P_I16);
                w.prim(&MVal::I16(id as i16));
            }
            _ => w.obj_str(true, id, &format!("s{id}"), 0),
        }
    }
    w.end();
    let want = (fits && vals.len() == n).then(|| match kind {
        Kind::CallArray => MMsg::Call { method: "m".into(), ty: "t".into(), ctx: None, args: Some(vals) },
        Kind::Class(_, lib, _) => MMsg::Val(obj("C", lib.then_some("Lib"), names.into_iter().zip(vals))),
        Kind::Rect(_) => MMsg::Val(shaped(vals, &dims)),
        _ => MMsg::Val(MVal::Arr(vals)),
    });
    (w, want)
}

const TOO_LONG: [usize; 22] = [
    1,
    2,
    3,
    4,
    5,
    7,
    8,
    16,
    100,
    127,
    128,
    253,
    254,
    255,
    256,
    257,
    512,
    1 << 16,
    1 << 17,
    1 << 20,
    1 << 24,
    1 << 30,
];

fn case(kind: Kind, n: usize, slots: &[Option<(usize, bool)>], r: &mut Rng, t: &mut Tally) {
    let (w, want) = build(kind, n, slots, r);
    t.eval(&w.buf, true);
    let got = real::run(&w.buf);
    let wrong = match &want {
        Some(want) => {
            t.n("null runs which fit their container");
            judge::wrong_value(&got, want)
        }
        None => {
            t.n("null runs which do not fit their container");
            judge::not_rejected(&got, "elements and null runs do not add up to the declared length")
        }
    };
    if let Some(why) = wrong {
        t.bad(&w.buf, format!("{kind:?} of {n} with {slots:?}: {why}"), String::new());
    }
}

/// Null runs which fit exactly, or are too long by anything, in containers of these kinds.
pub fn run(cx: &Cx, kinds: &[Kind], max: usize) {
    let sizes: Vec<usize> = [1, 2, 3, 4, 6, 9, 17, 100, 254, 255, 256, 257, 300, 512, 513, 770, 65535, 65536, 65537, 131_072]
        .into_iter()
        .filter(|n| *n <= max)
        .collect();
    cx.par("runs that fit", (kinds.len() * sizes.len()) as u64, |r, i, t| {
        let kind = kinds[i as usize % kinds.len()];
        let n = sizes[i as usize / kinds.len()];
        for _ in 0..if n > 1000 { 3 } else { 12 } {
            let before = *r.pick(&[0, 0, 1, 2, 3, n / 2, n - 1, n.saturating_sub(256), n.saturating_sub(512)]);
            let before = before.min(n - 1).min(300);
            let after = *r.pick(&[0, 0, 0, 1, 2]);
            let after = after.min(n - 1 - before);
            let k = n - before - after;
            let mut slots = vec![None; before];
            if k > 1 && r.chance(30) {
                let k1 = r.range(1, k - 1);
                slots.push(Some((k1, r.chance(50))));
                slots.push(Some((k - k1, r.chance(50))));
            } else {
                slots.push(Some((k, r.chance(50))));
            }
            slots.extend(std::iter::repeat_n(None, after));
            case(kind, n, &slots, r, t);
        }
    });
    let small: Vec<usize> = sizes.iter().copied().filter(|n| *n <= 513).collect();
    cx.par("runs that do not fit", (kinds.len() * small.len() * TOO_LONG.len()) as u64, |r, i, t| {
        let mut i = i as usize;
        let kind = kinds[i % kinds.len()];
        i /= kinds.len();
        let n = small[i % small.len()];
        let extra = TOO_LONG[i / small.len()];
        for at in [0, 1, n / 2, n - 1] {
            if at >= n {
                continue;
            }
            let left = n - at;
            // longer by so much, or of a round length
            for k in [left + extra, extra.next_multiple_of(left.next_power_of_two()) + left, extra] {
                if k <= left || k > i32::MAX as usize {
                    continue;
                }
                // an element of its own before the run
                let mut before = vec![None; at];
                if at > 1 && r.chance(30) {
                    before = vec![Some((at, r.chance(50)))];
                } else if at > 20 {
                    before = vec![None, Some((at - 2, true)), None];
                }
                let mut slots = before.clone();
                slots.push(Some((k, k > 255 || r.chance(50))));
                case(kind, n, &slots, r, t);
                // followed by what is left if only a part of the length counts
                let part = if r.chance(50) { k & 0xff } else { k & 0xffff };
                if part < left {
                    let rest = left - part;
                    if rest > 10 {
                        slots.push(Some((rest, true)));
                    } else {
                        slots.extend(std::iter::repeat_n(None, rest));
                    }
                    case(kind, n, &slots, r, t);
                }
            }
            // too short, nothing behind it
            if left > 1 && extra < left {
                let mut slots = if at > 3 { vec![None, Some((at - 1, true))] } else { vec![None; at] };
                slots.push(Some((left - extra, r.chance(50))));
                case(kind, n, &slots, r, t);
            }
        }
    });
}
