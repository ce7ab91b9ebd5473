//! Messages with many of one thing: counts around every power of two and of ten.

use super::place::{class_head, message, obj};
use crate::cx::{Cx, Tally};
use crate::doc::gen_prim;
use crate::judge;
use crate::mval::{MMsg, MVal};
use crate::real;
use crate::rng::Rng;
use crate::wire::*;

pub struct Family {
    pub name: &'static str,
    /// the properties it is for
    pub of: &'static [&'static str],
    pub build: fn(&mut Rng, usize) -> (W, MMsg),
}

fn object_array(w: &mut W, id: i32, n: usize) {
    w.u8(F::TopTag, 16);
    w.i32(F::ObjId, id);
    w.i32(F::ArrLen, n as i32);
}

fn id(k: usize) -> i32 {
    10 + k as i32
}

fn arr(v: Vec<MVal>) -> MMsg {
    MMsg::Val(MVal::Arr(v))
}

/// a class with one typed number
fn numbered(w: &mut W, top: bool, id: i32, class: &str, x: i32) -> MVal {
    class_head(w, top, 4, id, class, &["x".into()]);
    w.u8(F::BinType, 0);
    w.u8(F::PrimTypeMember, P_I32);
    w.prim(&MVal::I32(x));
    obj(class, None, [("x".to_string(), MVal::I32(x))])
}

fn again(w: &mut W, top: bool, id: i32, meta: i32) {
    w.u8(if top { F::TopTag } else { F::MemberTag }, 1);
    w.i32(F::ObjId, id);
    w.i32(F::MetaId, meta);
}

fn call(w: &mut W, ret: bool, flags: i32) {
    w.u8(F::TopTag, if ret { 22 } else { 21 });
    w.i32(F::Flags, flags);
    if !ret {
        w.string_code("m");
        w.string_code("t");
    }
}

fn called(ret: bool, args: Vec<MVal>) -> MMsg {
    if ret {
        MMsg::Ret { ret: None, ctx: None, args: Some(args) }
    } else {
        MMsg::Call { method: "m".into(), ty: "t".into(), ctx: None, args: Some(args) }
    }
}

fn shuffled(r: &mut Rng, n: usize) -> Vec<usize> {
    let mut v: Vec<usize> = (0..n).collect();
    match r.below(3) {
        0 => (),
        1 => v.reverse(),
        _ => r.shuffle(&mut v),
    }
    v
}

pub const FAMILIES: &[Family] = &[
    Family {
        name: "references to one string",
        of: &["C09", "C16"],
        build: |r, n| {
            let first = r.chance(50);
            let w = message(|w| {
                if first {
                    w.obj_str(true, 5, "shared", 0);
                }
                w.u8(F::TopTag, *r.pick(&[16, 17]));
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, n as i32);
                for _ in 0..n {
                    w.member_ref(5);
                }
                if !first {
                    w.obj_str(true, 5, "shared", 0);
                }
            });
            (w, arr(vec![MVal::Str("shared".into()); n]))
        },
    },
    Family {
        name: "references to one string from repeated instances",
        of: &["C09", "C08"],
        build: |_, n| {
            let mut want = vec![];
            let w = message(|w| {
                object_array(w, 1, n);
                for k in 0..n {
                    if k == 0 {
                        class_head(w, false, 4, id(0), "C", &["s".into()]);
                        w.u8(F::BinType, 1);
                        w.obj_str(false, 5, "shared", 0);
                    } else {
                        again(w, false, id(k), id(0));
                        w.member_ref(5);
                    }
                    want.push(obj("C", None, [("s".to_string(), MVal::Str("shared".into()))]));
                }
            });
            (w, arr(want))
        },
    },
    Family {
        name: "references to strings of their own",
        of: &["C09", "C14"],
        build: |r, n| {
            let order = shuffled(r, n);
            let first = r.chance(50);
            let strings = |w: &mut W| {
                for k in &order {
                    w.obj_str(true, id(*k), &format!("s{k}"), 0);
                }
            };
            let w = message(|w| {
                if first {
                    strings(w);
                }
                object_array(w, 1, n);
                for k in 0..n {
                    w.member_ref(id(k));
                }
                if !first {
                    strings(w);
                }
            });
            (w, arr((0..n).map(|k| MVal::Str(format!("s{k}"))).collect()))
        },
    },
    Family {
        name: "references to arrays",
        of: &["C09"],
        build: |r, n| {
            let order = shuffled(r, n);
            let first = r.chance(50);
            let arrays = |w: &mut W| {
                for k in &order {
                    w.u8(F::TopTag, 15);
                    w.i32(F::ObjId, id(*k));
                    w.i32(F::ArrLen, 1);
                    w.u8(F::PrimTypePrimArray, P_I32);
                    w.prim(&MVal::I32(*k as i32));
                }
            };
            let w = message(|w| {
                if first {
                    arrays(w);
                }
                object_array(w, 1, n);
                for k in 0..n {
                    w.member_ref(id(k));
                }
                if !first {
                    arrays(w);
                }
            });
            (w, arr((0..n).map(|k| MVal::Arr(vec![MVal::I32(k as i32)])).collect()))
        },
    },
    Family {
        name: "references to objects",
        of: &["C09", "C08", "C14"],
        build: |r, n| {
            let order = shuffled(r, n);
            let repeated = r.chance(70);
            let w = message(|w| {
                object_array(w, 1, n);
                for k in 0..n {
                    w.member_ref(id(k));
                }
                for (j, k) in order.iter().enumerate() {
                    if j > 0 && repeated {
                        again(w, true, id(*k), id(order[0]));
                        w.prim(&MVal::I32(*k as i32));
                    } else {
                        numbered(w, true, id(*k), "C", *k as i32);
                    }
                }
            });
            (w, arr((0..n).map(|k| obj("C", None, [("x".to_string(), MVal::I32(k as i32))])).collect()))
        },
    },
    Family {
        name: "a library used by many objects",
        of: &["C10", "C08"],
        build: |r, n| {
            let repeated = r.chance(50);
            let mut want = vec![];
            let w = message(|w| {
                w.lib(4, "L");
                object_array(w, 1, n);
                for k in 0..n {
                    if k > 0 && repeated {
                        again(w, false, id(k), id(0));
                    } else {
                        class_head(w, false, 3, id(k), "C", &["x".into()]);
                        w.i32(F::LibUse, 4);
                    }
                    w.typed_prim(&MVal::Byte(k as u8));
                    want.push(obj("C", Some("L"), [("x".to_string(), MVal::Byte(k as u8))]));
                }
            });
            (w, arr(want))
        },
    },
    Family {
        name: "libraries",
        of: &["C10"],
        build: |r, n| {
            let front = r.chance(50);
            let mut want = vec![];
            let w = message(|w| {
                let order = shuffled(r, n);
                // library records stand in front of elements: all of them first, or each where it is needed
                object_array(w, 1, if front { 2 * n } else { n });
                if front {
                    for k in 0..n {
                        w.lib(id(k), &format!("L{k}"));
                        w.null();
                        want.push(MVal::Null);
                    }
                }
                for k in order {
                    if !front {
                        w.lib(id(k), &format!("L{k}"));
                    }
                    class_head(w, false, 3, id(k), "C", &[]);
                    w.i32(F::LibUse, id(k));
                    want.push(obj("C", Some(&format!("L{k}")), []));
                }
            });
            (w, arr(want))
        },
    },
    Family {
        name: "classes",
        of: &["C07", "C08"],
        build: |r, n| {
            let mut want = vec![];
            let w = message(|w| {
                let order = shuffled(r, n);
                object_array(w, 1, 2 * n);
                for k in 0..n {
                    want.push(numbered(w, false, id(k), &format!("C{k}"), -(k as i32)));
                }
                for k in order {
                    again(w, false, id(n + k), id(k));
                    w.prim(&MVal::I32(k as i32));
                    want.push(obj(&format!("C{k}"), None, [("x".to_string(), MVal::I32(k as i32))]));
                }
            });
            (w, arr(want))
        },
    },
    Family {
        name: "members",
        of: &["C07", "C08", "C16"],
        build: |r, n| {
            let nm: Vec<String> = (0..n).map(|k| format!("m{k}")).collect();
            let tag = *r.pick(&[2, 3, 4, 5]);
            let lib = (tag % 2 == 1).then_some("L");
            let mut want = vec![];
            let value = |k: usize, x: usize| match k % 4 {
                0 => MVal::I32((k + x) as i32),
                1 => MVal::Null,
                2 => MVal::Str(format!("{k}")),
                _ => MVal::Bool(k % 3 == 0),
            };
            let w = message(|w| {
                if lib.is_some() {
                    w.lib(4, "L");
                }
                object_array(w, 1, 2);
                let mut next = 10;
                for x in 0..2 {
                    if x == 0 {
                        class_head(w, false, tag, 2, "C", &nm);
                        if tag >= 4 {
                            for k in 0..n {
                                w.u8(F::BinType, [0, 2, 1, 0][k % 4]);
                            }
                            for k in (0..n).filter(|k| k % 4 == 0 || k % 4 == 3) {
                                w.u8(F::PrimTypeMember, prim_code(&value(k, x)));
                            }
                        }
                        if lib.is_some() {
                            w.i32(F::LibUse, 4);
                        }
                    } else {
                        again(w, false, 3, 2);
                    }
                    for k in 0..n {
                        match value(k, x) {
                            MVal::Null => w.null(),
                            MVal::Str(s) => {
                                w.obj_str(false, next, &s, 0);
                                next += 1;
                            }
                            v if tag >= 4 => w.prim(&v),
                            v => w.typed_prim(&v),
                        }
                    }
                    want.push(obj("C", lib, nm.iter().cloned().enumerate().map(|(k, m)| (m, value(k, x)))));
                }
            });
            (w, arr(want))
        },
    },
    Family {
        name: "objects in front of the root",
        of: &["C14"],
        build: |r, n| {
            let root = n.max(1);
            let mut w = W::new();
            let kind = r.below(3);
            w.header(root as i32, -1);
            let mut want = MVal::Null;
            let order = shuffled(r, n);
            for k in order {
                let i = k as i32 + 1;
                let v = match kind {
                    0 => {
                        w.obj_str(true, i, &format!("s{i}"), 0);
                        MVal::Str(format!("s{i}"))
                    }
                    1 => numbered(&mut w, true, i, "C", i),
                    _ => {
                        object_array(&mut w, i, 1);
                        w.typed_prim(&MVal::I32(i));
                        MVal::Arr(vec![MVal::I32(i)])
                    }
                };
                if k + 1 == root {
                    want = v;
                }
            }
            w.end();
            (w, MMsg::Val(want))
        },
    },
    Family {
        name: "inline arguments",
        of: &["C11"],
        build: |r, n| {
            let ret = r.chance(50);
            let args: Vec<MVal> = (0..n)
                .map(|k| match k % 3 {
                    0 => MVal::I32(k as i32),
                    1 => MVal::Str(format!("a{k}")),
                    _ => MVal::Null,
                })
                .collect();
            let mut w = W::new();
            w.header(0, 0);
            call(&mut w, ret, 0x12);
            w.i32(F::ArgCount, n as i32);
            for a in &args {
                w.value_code(a);
            }
            w.end();
            (w, called(ret, args))
        },
    },
    Family {
        name: "arguments in a call array",
        of: &["C11", "C09"],
        build: |r, n| {
            let ret = r.chance(50);
            let inside = r.chance(50);
            let mut w = W::new();
            w.header(1, -1);
            call(&mut w, ret, if inside { 0x18 } else { 0x14 });
            let items = |w: &mut W| {
                (0..n)
                    .map(|k| match k % 3 {
                        0 => {
                            w.typed_prim(&MVal::I32(k as i32));
                            MVal::I32(k as i32)
                        }
                        1 => {
                            w.obj_str(false, id(k), &format!("a{k}"), 0);
                            MVal::Str(format!("a{k}"))
                        }
                        _ => {
                            w.member_ref(id(n + k / 3 * 3 + 2));
                            MVal::Arr(vec![MVal::Byte(k as u8)])
                        }
                    })
                    .collect::<Vec<_>>()
            };
            object_array(&mut w, 1, if inside { 1 } else { n });
            if inside {
                w.member_ref(5);
                object_array(&mut w, 5, n);
            }
            let args = items(&mut w);
            for k in (0..n).filter(|k| k % 3 == 2) {
                w.u8(F::TopTag, 15);
                w.i32(F::ObjId, id(n + k));
                w.i32(F::ArrLen, 1);
                w.u8(F::PrimTypePrimArray, P_BYTE);
                w.prim(&MVal::Byte(k as u8));
            }
            w.end();
            (w, called(ret, args))
        },
    },
    Family {
        name: "objects behind a call",
        of: &["C11", "C14"],
        build: |r, n| {
            let ret = r.chance(50);
            let mut w = W::new();
            w.header(1, -1);
            call(&mut w, ret, 0x14);
            object_array(&mut w, 1, 2);
            let last = n.saturating_sub(1);
            w.member_ref(id(0));
            w.member_ref(if last > 0 { id(last) } else { id(0) });
            for k in 0..n.max(1) {
                w.obj_str(true, id(k), &format!("s{k}"), 0);
            }
            w.end();
            (w, called(ret, vec![MVal::Str("s0".into()), MVal::Str(format!("s{last}"))]))
        },
    },
    Family {
        name: "rows",
        of: &["C06", "C16"],
        build: |r, n| {
            let n = n.max(1);
            let dims = match r.below(5) {
                0 => vec![n, 1],
                1 => vec![1, n],
                2 => vec![n, 2],
                3 => vec![2, n],
                _ => vec![1, n, 1],
            };
            let total: usize = dims.iter().product();
            let w = message(|w| {
                w.u8(F::TopTag, 7);
                w.i32(F::ObjId, 1);
                w.u8(F::ArrType, 2);
                w.i32(F::Rank, dims.len() as i32);
                for d in &dims {
                    w.i32(F::Dim, *d as i32);
                }
                w.u8(F::BinType, 0);
                w.u8(F::PrimTypeArray, P_I32);
                for k in 0..total {
                    w.prim(&MVal::I32(k as i32));
                }
            });
            let flat = (0..total).map(|k| MVal::I32(k as i32)).collect();
            (w, MMsg::Val(crate::refdec::shaped(flat, &dims)))
        },
    },
    Family {
        name: "primitive values",
        of: &["C03", "C05", "C16"],
        build: |r, n| {
            let code = *r.pick(&PRIMS);
            let v: Vec<MVal> = (0..n).map(|_| gen_prim(r, code)).collect();
            let kind = r.below(3);
            let w = message(|w| {
                match kind {
                    0 => {
                        w.u8(F::TopTag, 15);
                        w.i32(F::ObjId, 1);
                        w.i32(F::ArrLen, n as i32);
                        w.u8(F::PrimTypePrimArray, code);
                    }
                    1 => {
                        w.u8(F::TopTag, 7);
                        w.i32(F::ObjId, 1);
                        w.u8(F::ArrType, 0);
                        w.i32(F::Rank, 1);
                        w.i32(F::Dim, n as i32);
                        w.u8(F::BinType, 0);
                        w.u8(F::PrimTypeArray, code);
                    }
                    _ => object_array(w, 1, n),
                }
                for x in &v {
                    if kind == 2 { w.typed_prim(x) } else { w.prim(x) }
                }
            });
            (w, arr(v))
        },
    },
    Family {
        name: "strings",
        of: &["C04", "C05", "C16"],
        build: |r, n| {
            let mut want = vec![];
            let w = message(|w| {
                w.u8(F::TopTag, *r.pick(&[16, 17]));
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, n as i32);
                for k in 0..n {
                    let s = "é".repeat(k % 5) + &k.to_string();
                    w.obj_str(false, id(k), &s, 0);
                    want.push(MVal::Str(s));
                }
            });
            (w, arr(want))
        },
    },
    Family {
        name: "nulls one by one",
        of: &["C05", "C16"],
        build: |r, n| {
            let every = *r.pick(&[1, 2, 7]);
            let mut want = vec![];
            let w = message(|w| {
                w.u8(F::TopTag, *r.pick(&[16, 17]));
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, n as i32);
                for k in 0..n {
                    if (k + 1) % every == 0 {
                        w.null();
                        want.push(MVal::Null);
                    } else {
                        w.obj_str(false, id(k), "x", 0);
                        want.push(MVal::Str("x".into()));
                    }
                }
            });
            (w, arr(want))
        },
    },
    Family {
        name: "null runs one after another",
        of: &["C05"],
        build: |r, n| {
            let wide = r.below(3);
            let w = message(|w| {
                w.u8(F::TopTag, *r.pick(&[16, 17]));
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 2 * n as i32);
                for k in 0..n {
                    w.null_run(2, wide == 1 || wide == 2 && k % 2 == 0);
                }
            });
            (w, arr(vec![MVal::Null; 2 * n]))
        },
    },
    Family {
        name: "decimals and dates",
        of: &["C18"],
        build: |r, n| {
            let code = *r.pick(&[P_DEC, P_DT, P_TS]);
            let v: Vec<MVal> = (0..n).map(|_| gen_prim(r, code)).collect();
            let w = message(|w| {
                w.u8(F::TopTag, 15);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, n as i32);
                w.u8(F::PrimTypePrimArray, code);
                for x in &v {
                    w.prim(x);
                }
            });
            (w, arr(v))
        },
    },
];

pub fn sizes(top: usize) -> Vec<usize> {
    let mut v = vec![0, 1, 2, 3];
    for k in 2..22 {
        v.extend([(1usize << k) - 1, 1 << k, (1 << k) + 1]);
    }
    for d in [50, 100, 200, 500, 1_000, 2_000, 3_000, 5_000, 10_000, 20_000, 50_000, 100_000, 200_000, 500_000] {
        v.extend([d - 1, d, d + 1]);
    }
    v.retain(|n| *n <= top);
    v.sort();
    v.dedup();
    v
}

/// All families for a property; `more` looks at a message which was decoded as expected.
pub fn run_with(cx: &Cx, top: usize, more: impl Fn(&W, &MMsg, &'static str, &mut Tally) + Sync) {
    let id = cx.id.clone();
    let fams: Vec<&Family> = FAMILIES.iter().filter(|f| id == "C23" || f.of.contains(&id.as_str())).collect();
    let mut sizes = sizes(top);
    // the largest first, they take longest
    sizes.reverse();
    let again = cx.pick(3, 12);
    cx.par("many", (fams.len() * sizes.len() * again) as u64, |r, i, t| {
        let i = i as usize / again;
        let f = fams[i % fams.len()];
        let n = sizes[i / fams.len()];
        if n == 0 && f.name == "objects in front of the root" {
            return;
        }
        let (w, want) = (f.build)(r, n);
        t.eval(&w.buf, true);
        t.nd(&format!("many: {}", f.name));
        t.max("many: the most of one thing", n as u64);
        let got = real::run(&w.buf);
        if let Some(why) = judge::wrong_value(&got, &want) {
            t.bad(&w.buf, format!("{n} {}: {why}", f.name), String::new());
            return;
        }
        more(&w, &want, f.name, t);
    });
}

pub fn run(cx: &Cx) {
    run_with(cx, cx.pick(20_001, 300_000), |_, _, _, _| ());
}
