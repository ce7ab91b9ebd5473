//! Places where primitive values and strings may stand, with the result each has to give.

use std::collections::BTreeMap;

use crate::mval::{MMsg, MVal};
use crate::rng::Rng;
use crate::wire::*;

pub fn obj(class: &str, lib: Option<&str>, members: impl IntoIterator<Item = (String, MVal)>) -> MVal {
    MVal::Obj { class: class.into(), lib: lib.map(str::to_string), members: members.into_iter().collect::<BTreeMap<_, _>>() }
}

/// header with root id 1, body, end
pub fn message(body: impl FnOnce(&mut W)) -> W {
    let mut w = W::new();
    w.header(1, -1);
    body(&mut w);
    w.end();
    w
}

pub fn names(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("m{i}")).collect()
}

/// Header of a class record with member names.
pub fn class_head(w: &mut W, top: bool, tag: u8, id: i32, name: &str, members: &[String]) {
    w.u8(if top { F::TopTag } else { F::MemberTag }, tag);
    w.i32(F::ObjId, id);
    w.str(F::ClassName, name);
    w.i32(F::MemberCount, members.len() as i32);
    for m in members {
        w.str(F::MemberName, m);
    }
}

pub const PLACES: [&str; 16] = [
    "primitive array",
    "typed members of a system class",
    "typed members of a library class",
    "members of a second instance",
    "untyped members of a system class",
    "untyped members of a library class",
    "elements of an object array",
    "one-dimensional binary array",
    "two-dimensional binary array",
    "binary array of objects",
    "inline arguments of a call",
    "inline return value",
    "call array",
    "members of declared type object",
    "array in the call array",
    "inline arguments of a return",
];

/// Places which hold values of one type only.
pub fn uniform(place: usize) -> bool {
    matches!(place, 0 | 7 | 8 | 14)
}

fn typed(w: &mut W, vals: &[MVal]) {
    for _ in vals {
        w.u8(F::BinType, 0);
    }
    for v in vals {
        w.u8(F::PrimTypeMember, prim_code(v));
    }
}

fn raw(w: &mut W, vals: &[MVal]) {
    for v in vals {
        w.prim(v);
    }
}

fn tagged(w: &mut W, vals: &[MVal]) {
    for v in vals {
        w.typed_prim(v);
    }
}

pub fn place(p: usize, vals: &[MVal], r: &mut Rng) -> (W, MMsg) {
    let n = vals.len();
    let nm = names(n);
    let pairs = || nm.iter().cloned().zip(vals.iter().cloned());
    let arr = || MVal::Arr(vals.to_vec());
    match p {
        0 => {
            let w = message(|w| {
                w.u8(F::TopTag, 15);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, n as i32);
                w.u8(F::PrimTypePrimArray, prim_code(&vals[0]));
                raw(w, vals);
            });
            (w, MMsg::Val(arr()))
        }
        1 => {
            let w = message(|w| {
                class_head(w, true, 4, 1, "C", &nm);
                typed(w, vals);
                raw(w, vals);
            });
            (w, MMsg::Val(obj("C", None, pairs())))
        }
        2 => {
            let w = message(|w| {
                w.lib(9, "L");
                class_head(w, true, 5, 1, "C", &nm);
                typed(w, vals);
                w.i32(F::LibUse, 9);
                raw(w, vals);
            });
            (w, MMsg::Val(obj("C", Some("L"), pairs())))
        }
        3 => {
            let first: Vec<MVal> = vals.iter().map(|v| crate::doc::gen_prim(r, prim_code(v))).collect();
            let w = message(|w| {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 2);
                class_head(w, false, 4, 2, "C", &nm);
                typed(w, &first);
                raw(w, &first);
                w.u8(F::MemberTag, 1);
                w.i32(F::ObjId, 3);
                w.i32(F::MetaId, 2);
                raw(w, vals);
            });
            let a = obj("C", None, nm.iter().cloned().zip(first));
            (w, MMsg::Val(MVal::Arr(vec![a, obj("C", None, pairs())])))
        }
        4 => {
            let w = message(|w| {
                class_head(w, true, 2, 1, "C", &nm);
                tagged(w, vals);
            });
            (w, MMsg::Val(obj("C", None, pairs())))
        }
        5 => {
            let w = message(|w| {
                w.lib(9, "L");
                class_head(w, true, 3, 1, "C", &nm);
                w.i32(F::LibUse, 9);
                tagged(w, vals);
            });
            (w, MMsg::Val(obj("C", Some("L"), pairs())))
        }
        6 => {
            let w = message(|w| {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, n as i32);
                tagged(w, vals);
            });
            (w, MMsg::Val(arr()))
        }
        7 => {
            let ty = *r.pick(&[0u8, 1, 2, 3, 4, 5]);
            let w = message(|w| {
                w.u8(F::TopTag, 7);
                w.i32(F::ObjId, 1);
                w.u8(F::ArrType, ty);
                w.i32(F::Rank, 1);
                w.i32(F::Dim, n as i32);
                if ty >= 3 {
                    w.i32(F::LowerBound, 0);
                }
                w.u8(F::BinType, 0);
                w.u8(F::PrimTypeMember, prim_code(&vals[0]));
                raw(w, vals);
            });
            (w, MMsg::Val(arr()))
        }
        8 => {
            let a = (1..=n).rev().find(|a| n % a == 0 && *a * *a <= n).unwrap_or(1);
            let b = n / a;
            let w = message(|w| {
                w.u8(F::TopTag, 7);
                w.i32(F::ObjId, 1);
                w.u8(F::ArrType, 2);
                w.i32(F::Rank, 2);
                w.i32(F::Dim, a as i32);
                w.i32(F::Dim, b as i32);
                w.u8(F::BinType, 0);
                w.u8(F::PrimTypeMember, prim_code(&vals[0]));
                raw(w, vals);
            });
            (w, MMsg::Val(MVal::Arr(vals.chunks(b).map(|c| MVal::Arr(c.to_vec())).collect())))
        }
        9 => {
            let w = message(|w| {
                w.u8(F::TopTag, 7);
                w.i32(F::ObjId, 1);
                w.u8(F::ArrType, 0);
                w.i32(F::Rank, 1);
                w.i32(F::Dim, n as i32);
                w.u8(F::BinType, 2);
                tagged(w, vals);
            });
            (w, MMsg::Val(arr()))
        }
        10 | 15 => {
            let w = message(|w| {
                w.u8(F::TopTag, if p == 10 { 21 } else { 22 });
                w.i32(F::Flags, 0x2);
                if p == 10 {
                    w.string_code("method");
                    w.string_code("type");
                }
                w.i32(F::ArgCount, n as i32);
                for v in vals {
                    w.value_code(v);
                }
            });
            let args = Some(vals.to_vec());
            let m = if p == 10 {
                MMsg::Call { method: "method".into(), ty: "type".into(), ctx: None, args }
            } else {
                MMsg::Ret { ret: None, ctx: None, args }
            };
            (w, m)
        }
        11 => {
            let w = message(|w| {
                w.u8(F::TopTag, 22);
                w.i32(F::Flags, 0x800);
                w.value_code(&vals[0]);
            });
            (w, MMsg::Ret { ret: Some(vals[0].clone()), ctx: None, args: None })
        }
        12 => {
            let w = message(|w| {
                w.u8(F::TopTag, 21);
                w.i32(F::Flags, 0x4);
                w.string_code("method");
                w.string_code("type");
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, n as i32);
                tagged(w, vals);
            });
            (w, MMsg::Call { method: "method".into(), ty: "type".into(), ctx: None, args: Some(vals.to_vec()) })
        }
        13 => {
            let w = message(|w| {
                class_head(w, true, 4, 1, "C", &nm);
                for _ in vals {
                    w.u8(F::BinType, 2);
                }
                tagged(w, vals);
            });
            (w, MMsg::Val(obj("C", None, pairs())))
        }
        _ => {
            let w = message(|w| {
                w.u8(F::TopTag, 22);
                w.i32(F::Flags, 0x8);
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 1);
                w.member_ref(2);
                w.u8(F::TopTag, 15);
                w.i32(F::ObjId, 2);
                w.i32(F::ArrLen, n as i32);
                w.u8(F::PrimTypePrimArray, prim_code(&vals[0]));
                raw(w, vals);
            });
            (w, MMsg::Ret { ret: None, ctx: None, args: Some(vals.to_vec()) })
        }
    }
}
