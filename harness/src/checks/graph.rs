//! C07 to C10 and C14: class instances, metadata, references, libraries, the root object.

use std::collections::HashMap;

use super::place::{class_head, message, obj};
use super::runs;
use super::verdicts::*;
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg, StrGen, gen_prim, gen_string};
use crate::judge;
use crate::mutate::{self, get_i32, set_i32};
use crate::mval::{MMsg, MVal};
use crate::real::{self, Got};
use crate::refdec::{self, K, Verdict};
use crate::report::hex;
use crate::wire::*;

fn expect(w: &W, want: &MMsg, what: &str, t: &mut Tally) -> bool {
    t.eval(&w.buf, true);
    t.nd(&format!("built by hand: {what}"));
    let got = real::run(&w.buf);
    if let Some(why) = judge::wrong_value(&got, want) {
        t.bad(&w.buf, format!("{what}: {why}"), String::new());
        return false;
    }
    if w.buf.len() < 200 {
        t.sample(|| format!("{what}: {} -> {}", hex(&w.buf), got.brief()));
    }
    true
}

fn refuse(w: &W, rule: &str, t: &mut Tally) {
    t.eval(&w.buf, true);
    t.nd(&format!("rejection demanded: {rule}"));
    let got = real::run(&w.buf);
    if let Some(why) = judge::not_rejected(&got, rule) {
        t.bad(&w.buf, why, String::new());
    }
}

fn docs(cx: &Cx, label: &str, n: u64, cfg: &Cfg, fields: &[F], max: usize, kinds: &[K]) {
    cx.par(label, n, |r, _, t| {
        let w = doc::generate(r, cfg);
        judge_input(&w.buf, "random message", Some(kinds), t);
        field_mutants(r, &w, fields, max, Some(kinds), t);
    });
}

// ---------------------------------------------------------------- C07

pub fn c07(cx: &Cx) {
    cx.rule(
        "A case is one message of class instances (all four class records, all member types, nested inline up to the depth of the \
         generator, null runs) whose class names, libraries, member names and values are compared with the reference decoder or \
         with values known by construction; or the same message with a class name, member name, type name or null run changed. \
         Distinct by its bytes.",
    );
    let cfg = Cfg { refs: false, multi_dim: false, calls: 10, size: 60, depth: 7, max_members: 8, overlong: 0, ..Cfg::default() };
    let kinds = [K::NullOver, K::UnexpectedClass];
    let fields = [F::NullCount, F::NullCount256, F::ClassName, F::MemberName, F::TypeName];
    docs(cx, "inline graphs", cx.cases(120_000, 1_500_000), &cfg, &fields, 3, &kinds);
    // With references to other objects.
    let cfg2 = Cfg { calls: 15, overlong: 0, ..Cfg::default() };
    docs(cx, "graphs", cx.cases(48_000, 600_000), &cfg2, &fields, 2, &kinds);

    // many members, known by construction
    cx.par("members", cx.cases(48_000, 400_000), |r, i, t| {
        let n = match i % 50 {
            0 => r.range(100, 400),
            _ => r.below(16),
        };
        let lib = r.chance(50).then_some("Some.Library");
        let typed = r.chance(60);
        let names: Vec<String> = {
            let mut v: Vec<String> = vec![];
            for k in 0..n {
                let mut s = gen_string(r, StrGen::Short);
                if r.chance(50) && k > 0 {
                    // similar names
                    s = format!("{}{}", v[r.below(k)], *r.pick(&["a", " ", "A", "\u{301}", "_"]));
                }
                while v.contains(&s) {
                    s.push('x');
                }
                v.push(s);
            }
            v
        };
        let name = format!("Ns.Class{}", gen_string(r, StrGen::Short));
        let vals: Vec<MVal> = (0..n)
            .map(|_| {
                if r.chance(20) {
                    MVal::Null
                } else if r.chance(25) {
                    MVal::Str(gen_string(r, StrGen::Short))
                } else {
                    let c = *r.pick(&PRIMS);
                    gen_prim(r, c)
                }
            })
            .collect();
        let w = message(|w| {
            if let Some(l) = lib {
                w.lib(3, l);
            }
            let tag = match (typed, lib.is_some()) {
                (false, false) => 2,
                (false, true) => 3,
                (true, false) => 4,
                (true, true) => 5,
            };
            class_head(w, true, tag, 1, &name, &names);
            // nulls and strings may be declared as objects, too
            let decl: Vec<u8> = vals
                .iter()
                .map(|v| match v {
                    MVal::Null => *r.pick(&[1, 2, 3, 5, 6, 7]),
                    MVal::Str(_) => *r.pick(&[1, 1, 2]),
                    _ => *r.pick(&[0, 0, 2]),
                })
                .collect();
            if typed {
                for d in &decl {
                    w.u8(F::BinType, *d);
                }
                for (d, v) in decl.iter().zip(&vals) {
                    match d {
                        0 => w.u8(F::PrimTypeMember, prim_code(v)),
                        3 => w.str(F::TypeName, "Other"),
                        7 => w.u8(F::PrimTypeArray, P_I32),
                        _ => (),
                    }
                }
            }
            if lib.is_some() {
                w.i32(F::LibUse, 3);
            }
            let mut k = 0;
            while k < n {
                match &vals[k] {
                    MVal::Null => {
                        let mut run = 1;
                        while k + run < n && vals[k + run] == MVal::Null && r.chance(70) {
                            run += 1;
                        }
                        if run == 1 && r.chance(50) {
                            w.null();
                        } else {
                            w.null_run(run, r.chance(50));
                        }
                        k += run;
                    }
                    MVal::Str(s) => {
                        w.obj_str(false, 100 + k as i32, s, 0);
                        k += 1;
                    }
                    v => {
                        if typed && decl[k] == 0 {
                            w.prim(v);
                        } else {
                            w.typed_prim(v);
                        }
                        k += 1;
                    }
                }
            }
        });
        t.max("most members", n as u64);
        let want = MMsg::Val(obj(&name, lib, names.iter().cloned().zip(vals)));
        expect(&w, &want, "one instance", t);
    });

    // null runs at every place
    cx.seq(|t| {
        for typed in [false, true] {
            for n in 1..=8usize {
                for at in 0..n {
                    for k in 1..=n - at + 2 {
                        for wide in [false, true] {
                            let names = super::place::names(n);
                            let mut filled = vec![];
                            let w = message(|w| {
                                class_head(w, true, if typed { 4 } else { 2 }, 1, "C", &names);
                                if typed {
                                    for _ in 0..n {
                                        w.u8(F::BinType, 1);
                                    }
                                }
                                for j in 0..at {
                                    w.obj_str(false, 10 + j as i32, "v", 0);
                                    filled.push(MVal::Str("v".into()));
                                }
                                w.null_run(k, wide);
                                filled.extend(std::iter::repeat_n(MVal::Null, k));
                                while filled.len() < n {
                                    w.obj_str(false, 10 + filled.len() as i32, "w", 0);
                                    filled.push(MVal::Str("w".into()));
                                }
                            });
                            if filled.len() == n {
                                expect(&w, &MMsg::Val(obj("C", None, names.into_iter().zip(filled))), "null run over members", t);
                            } else {
                                refuse(&w, "a null run exceeds the remaining members", t);
                            }
                        }
                    }
                }
            }
        }
    });
    cx.exhaustive("null runs of every length at every member of classes of up to 8 members, typed and untyped, narrow and wide");

    runs::run(cx, &runs::classes(), 513);

    // inline instances against the declared type
    cx.seq(|t| {
        // (name, library) of the declaration and of the instance
        let who: [(&str, Option<usize>); 7] =
            [("A", None), ("A", Some(0)), ("A", Some(1)), ("B", None), ("B", Some(0)), ("A`1", None), ("a", Some(0))];
        // declarations may also name a library that does not exist
        let declared: Vec<_> = who.iter().copied().chain([("A", Some(2)), ("A", Some(3)), ("A", Some(4))]).collect();
        for ((dn, dl), lib_ids) in declared.iter().copied().flat_map(|d| {
            [[50, 51, 49, 52, i32::MAX], [51, 50, 307, 52, 1], [2, 300, 258, 1, 44], [0x10002, 1, 2, 0x10003, 3]].map(|l| (d, l))
        }) {
            for (an, al) in who {
                for in_array in [false, true] {
                    for with_types in [false, true] {
                        for again in [false, true] {
                            let mut w = W::new();
                            w.header(1, -1);
                            w.lib(lib_ids[0], "Lib0");
                            let inst = |w: &mut W, id: i32, meta: Option<i32>| {
                                if let Some(m) = meta {
                                    w.u8(F::MemberTag, 1);
                                    w.i32(F::ObjId, id);
                                    w.i32(F::MetaId, m);
                                } else {
                                    let tag = match (with_types, al.is_some()) {
                                        (false, false) => 2,
                                        (false, true) => 3,
                                        (true, false) => 4,
                                        (true, true) => 5,
                                    };
                                    class_head(w, false, tag, id, an, &["x".into()]);
                                    if with_types {
                                        w.u8(F::BinType, 0);
                                        w.u8(F::PrimTypeMember, P_BYTE);
                                    }
                                    if let Some(l) = al {
                                        w.i32(F::LibUse, lib_ids[l]);
                                    }
                                }
                                if with_types {
                                    w.prim(&MVal::Byte(id as u8));
                                } else {
                                    w.typed_prim(&MVal::Byte(id as u8));
                                }
                            };
                            let decl = |w: &mut W| {
                                w.str(F::TypeName, dn);
                                if let Some(l) = dl {
                                    w.i32(F::LibUse, lib_ids[l]);
                                }
                            };
                            // the second library and a first instance
                            w.u8(F::TopTag, 16);
                            w.i32(F::ObjId, 90);
                            w.i32(F::ArrLen, if again { 2 } else { 1 });
                            w.lib(lib_ids[1], "Lib1");
                            w.null();
                            if again {
                                inst(&mut w, 91, None);
                            }
                            let code = if dl.is_some() { 4 } else { 3 };
                            if in_array {
                                w.u8(F::TopTag, 7);
                                w.i32(F::ObjId, 1);
                                w.u8(F::ArrType, 0);
                                w.i32(F::Rank, 1);
                                w.i32(F::Dim, 1);
                                w.u8(F::BinType, code);
                                decl(&mut w);
                            } else {
                                class_head(&mut w, true, 4, 1, "Outer", &["m".into()]);
                                w.u8(F::BinType, code);
                                decl(&mut w);
                            }
                            inst(&mut w, 2, again.then_some(91));
                            w.end();
                            let lib = al.map(|l| if l == 0 { "Lib0" } else { "Lib1" });
                            let val = obj(an, lib, [("x".to_string(), MVal::Byte(2))]);
                            let want = if in_array { MVal::Arr(vec![val]) } else { obj("Outer", None, [("m".to_string(), val)]) };
                            if (dn, dl) == (an, al) {
                                expect(&w, &MMsg::Val(want), "instance of the declared class", t);
                            } else {
                                refuse(&w, "a typed member holds an instance of another class or library", t);
                            }
                        }
                    }
                }
            }
        }
    });
    cx.exhaustive("all pairs of 10 declared (3 of them of libraries that do not exist) and 7 actual classes and libraries, under 4 numberings of the libraries, in members and arrays, as class records and repeated instances");
    super::many::run(cx);
}

// ---------------------------------------------------------------- C08

pub fn c08(cx: &Cx) {
    cx.rule(
        "A case is one message with repeated instances (ClassWithId) of several classes, interleaved and nested, whose values \
         are compared with the reference decoder; or the same message with a metadata or object id changed. Distinct by its bytes.",
    );
    let cfg = Cfg { calls: 25, size: 60, max_array: 12, overlong: 0, multi_dim: false, ..Cfg::default() };
    let kinds = [K::MetaMissing, K::MetaSelf, K::MetaId];
    docs(cx, "graphs", cx.cases(96_000, 1_200_000), &cfg, &[F::MetaId], 4, &kinds);
    let cfg = Cfg { refs: false, depth: 8, ..cfg };
    docs(cx, "inline", cx.cases(80_000, 1_000_000), &cfg, &[F::MetaId], 4, &kinds);

    // Many classes of the same shape but other names, in an order of their own; every instance names one of them.
    cx.par("interleaved", cx.cases(64_000, 800_000), |r, _, t| {
        let classes = r.range(2, 8);
        let n = r.range(classes, classes * 4);
        let mut w = W::new();
        w.header(1, -1);
        let lib_of: Vec<Option<i32>> = (0..classes).map(|_| r.chance(50).then(|| 70 + r.below(2) as i32)).collect();
        let tys: Vec<Option<Vec<u8>>> = (0..classes)
            .map(|_| r.chance(60).then(|| (0..2).map(|_| *r.pick(&[P_I32, P_U32, P_SINGLE, P_I16, P_BYTE])).collect()))
            .collect();
        w.lib(70, "L70");
        let mut ids = doc::Ids::new(r);
        let root = ids.get(r);
        set_i32(&mut w.buf, 1, root);
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, root);
        w.i32(F::ArrLen, n as i32);
        w.lib(71, "L71");
        let mut meta: Vec<Vec<i32>> = vec![vec![]; classes];
        let mut want = vec![];
        for _ in 0..n {
            let c = r.below(classes);
            let id = ids.get(r);
            let names: Vec<String> = if c % 2 == 0 { vec!["a".into(), "b".into()] } else { vec!["b".into(), "a".into()] };
            let lib = lib_of[c];
            let name = format!("Class{}", c / 2);
            if meta[c].is_empty() || r.chance(15) {
                let tag = match (&tys[c], lib) {
                    (None, None) => 2,
                    (None, Some(_)) => 3,
                    (Some(_), None) => 4,
                    (Some(_), Some(_)) => 5,
                };
                class_head(&mut w, false, tag, id, &name, &names);
                if let Some(ts) = &tys[c] {
                    w.u8(F::BinType, 0);
                    w.u8(F::BinType, 0);
                    for x in ts {
                        w.u8(F::PrimTypeMember, *x);
                    }
                }
                if let Some(l) = lib {
                    w.i32(F::LibUse, l);
                }
                meta[c].push(id);
            } else {
                w.u8(F::MemberTag, 1);
                w.i32(F::ObjId, id);
                w.i32(F::MetaId, *r.pick(&meta[c]));
            }
            let mut vals = vec![];
            for k in 0..2 {
                let v = match &tys[c] {
                    Some(ts) => gen_prim(r, ts[k]),
                    None => {
                        let p = *r.pick(&PRIMS);
                        gen_prim(r, p)
                    }
                };
                if tys[c].is_some() {
                    w.prim(&v);
                } else {
                    w.typed_prim(&v);
                }
                vals.push(v);
            }
            want.push(obj(&name, lib.map(|l| if l == 70 { "L70" } else { "L71" }), names.into_iter().zip(vals)));
        }
        w.end();
        expect(&w, &MMsg::Val(MVal::Arr(want)), "interleaved classes", t);
        field_mutants(r, &w, &[F::MetaId], 3, Some(&kinds), t);
    });

    // A class whose members are instances of itself: linked through its own metadata while it is still open.
    cx.par("own members", 200, |r, i, t| {
        let depth = 1 + (i as usize % 20);
        let lib = r.chance(50);
        let typed = r.chance(50);
        let mut w = W::new();
        w.header(1, -1);
        if lib {
            w.lib(5, "L");
        }
        let names = ["next".to_string(), "v".to_string()];
        class_head(&mut w, true, [[2, 3], [4, 5]][typed as usize][lib as usize], 1, "Node", &names);
        if typed {
            w.u8(F::BinType, if lib { 4 } else { 3 });
            w.u8(F::BinType, 0);
            w.str(F::TypeName, "Node");
            if lib {
                w.i32(F::LibUse, 5);
            }
            w.u8(F::PrimTypeMember, P_I16);
        }
        if lib {
            w.i32(F::LibUse, 5);
        }
        for d in 1..depth {
            w.u8(F::MemberTag, 1);
            w.i32(F::ObjId, 1 + d as i32);
            w.i32(F::MetaId, 1);
        }
        w.null();
        let mut v = MVal::Null;
        for d in (0..depth).rev() {
            let x = MVal::I16(d as i16);
            if typed {
                w.prim(&x);
            } else {
                w.typed_prim(&x);
            }
            v = obj("Node", lib.then_some("L"), [("next".to_string(), v), ("v".to_string(), x)]);
        }
        w.end();
        expect(&w, &MMsg::Val(v), "members of its own class", t);
    });

    // no such metadata, the id of something else, its own id
    cx.par("wrong ids", cx.cases(32_000, 200_000), |r, _, t| {
        let mut w = W::new();
        w.header(1, -1);
        class_head(&mut w, true, 4, 1, "C", &["x".into()]);
        w.u8(F::BinType, 0);
        w.u8(F::PrimTypeMember, P_I32);
        w.prim(&MVal::I32(1));
        w.obj_str(true, 2, "text", 0);
        w.u8(F::TopTag, 15);
        w.i32(F::ObjId, 3);
        w.i32(F::ArrLen, 1);
        w.u8(F::PrimTypePrimArray, P_I32);
        w.prim(&MVal::I32(7));
        // instances which only repeat a class, one of them at the top, one within another object
        w.u8(F::TopTag, 1);
        w.i32(F::ObjId, 30);
        w.i32(F::MetaId, 1);
        w.prim(&MVal::I32(2));
        class_head(&mut w, true, 2, 31, "D", &["x".into(), "y".into()]);
        w.u8(F::MemberTag, 1);
        w.i32(F::ObjId, 32);
        w.i32(F::MetaId, 1);
        w.prim(&MVal::I32(3));
        w.null();
        w.lib(4, "L");
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, 5);
        w.i32(F::ArrLen, 2);
        w.u8(F::MemberTag, 1);
        w.i32(F::ObjId, 33);
        w.i32(F::MetaId, 1);
        w.prim(&MVal::I32(4));
        let own = 6;
        w.u8(F::MemberTag, 1);
        w.i32(F::ObjId, own);
        let m = match r.below(4) {
            0 => *r.pick(&[2, 3, 4, 5, 6, 7, 30, 32, 33, 30, 32, 33]),
            1 => own,
            2 => r.range(34, 5000) as i32,
            _ => ((r.u32() >> 1) as i32).max(34),
        };
        w.i32(F::MetaId, m);
        w.prim(&MVal::I32(8));
        // a class record which comes too late
        if r.chance(50) && m > 33 {
            class_head(&mut w, true, 4, m, "C", &["x".into()]);
            w.u8(F::BinType, 0);
            w.u8(F::PrimTypeMember, P_I32);
            w.prim(&MVal::I32(1));
        }
        w.end();
        refuse(&w, "no earlier class record carries the metadata id", t);
    });
    // the id of an instance which repeats a class is no metadata id, neither while the instance is read nor behind it
    cx.par("ids of repeated instances", 6 * 2 * 2 * 3, |_, i, t| {
        let (depth, lib, top, closed) = (1 + i as usize % 6, i / 6 % 2 == 1, i / 12 % 2 == 1, i / 24);
        for wrong in 0..=depth {
            let mut w = W::new();
            w.header(1, -1);
            if lib {
                w.lib(500, "L");
            }
            class_head(&mut w, true, if lib { 3 } else { 2 }, 1, "Node", &["next".into()]);
            if lib {
                w.i32(F::LibUse, 500);
            }
            if top {
                w.null();
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 100);
                w.i32(F::ArrLen, 1);
            }
            for d in 0..=depth {
                w.u8(F::MemberTag, 1);
                w.i32(F::ObjId, 2 + d as i32);
                // the last one names one of those in front of it
                w.i32(F::MetaId, if d == depth && wrong > 0 && closed == 0 { 1 + wrong as i32 } else { 1 });
            }
            w.null();
            if closed > 0 {
                if closed == 2 {
                    w.u8(F::TopTag, 16);
                    w.i32(F::ObjId, 101);
                    w.i32(F::ArrLen, 1);
                }
                w.u8(if closed == 2 { F::MemberTag } else { F::TopTag }, 1);
                w.i32(F::ObjId, 90);
                w.i32(F::MetaId, 1 + wrong as i32);
                w.null();
            }
            w.end();
            if wrong == 0 {
                judge_input(&w.buf, "instances which repeat a class", None, t);
            } else {
                refuse(&w, "the metadata id is that of an instance which repeats a class", t);
            }
        }
    });
    super::many::run(cx);
}

// ---------------------------------------------------------------- C09

/// The findings of C09 which are not repaired: shared objects and objects which wait for a later one.
fn c09_known() -> Vec<(&'static str, W, MMsg)> {
    let mut v = vec![];
    // two references to one array
    let arr = MVal::Arr(vec![MVal::Byte(7)]);
    let w = message(|w| {
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, 1);
        w.i32(F::ArrLen, 2);
        w.member_ref(2);
        w.member_ref(2);
        w.u8(F::TopTag, 15);
        w.i32(F::ObjId, 2);
        w.i32(F::ArrLen, 1);
        w.u8(F::PrimTypePrimArray, P_BYTE);
        w.prim(&MVal::Byte(7));
    });
    v.push(("shared-array: an array with two references to the same array is rejected", w, MMsg::Val(MVal::Arr(vec![arr.clone(), arr]))));
    // a reference to an instance which is a member elsewhere
    let c = obj("C", None, []);
    let w = message(|w| {
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, 1);
        w.i32(F::ArrLen, 2);
        class_head(w, false, 4, 2, "C", &[]);
        w.member_ref(2);
    });
    v.push((
        "shared-inline-object: a reference to an instance which stands inline in another object is rejected",
        w,
        MMsg::Val(MVal::Arr(vec![c.clone(), c])),
    ));
    v
}

pub fn c09(cx: &Cx) {
    cx.rule(
        "A case is one message with member references (object graphs with shared strings in random record orders and numberings) \
         compared with the reference decoder; or the same message with reference or object ids changed, records moved, repeated \
         or dropped, or all ids renumbered; or a chain, fan or cycle of references built by hand. Distinct by its bytes.",
    );
    let cfg = Cfg { calls: 8, size: 60, depth: 6, overlong: 0, wild_order: 9, ..Cfg::default() };
    let kinds = [K::Dangling, K::Cycle, K::DupObj, K::RefId, K::RootMissing, K::RootConsumed];
    cx.par("graphs", cx.cases(96_000, 1_200_000), |r, _, t| {
        let w = doc::generate(r, &cfg);
        let v = judge_input(&w.buf, "random message", Some(&kinds), t);
        if v.is_none() {
            return;
        }
        field_mutants(r, &w, &[F::RefId, F::RefId, F::ObjId], 3, Some(&kinds), t);
        for _ in 0..2 {
            let b = mutate::records(r, &w);
            t.n("messages with records moved, repeated or dropped");
            judge_input(&b, "records moved, repeated or dropped", Some(&kinds), t);
        }
        // Other ids, same result.
        if let Some(Verdict::Must(m)) = v {
            let b = renumber(r, &w, false);
            t.n("messages with all object ids renumbered");
            t.eval(&b, true);
            if let Some(why) = judge::wrong_value(&real::run(&b), &m) {
                t.bad(&b, format!("other object ids: {why}"), String::new());
            }
        }
    });

    // Small graphs, all shapes: n arrays, each with up to two references, in stream order.
    let n_obj = cx.pick(3usize, 4);
    let opts: Vec<Vec<usize>> = {
        // references to 1..=n+1 where n+1 does not exist
        let mut v = vec![vec![]];
        for a in 1..=n_obj + 1 {
            v.push(vec![a]);
            for b in 1..=n_obj + 1 {
                v.push(vec![a, b]);
            }
        }
        v
    };
    let total = opts.len().pow(n_obj as u32);
    cx.par("all small graphs", total as u64, |_, i, t| {
        let mut k = i as usize;
        let g: Vec<&Vec<usize>> = (0..n_obj)
            .map(|_| {
                let o = &opts[k % opts.len()];
                k /= opts.len();
                o
            })
            .collect();
        for root in 1..=n_obj {
            let mut w = W::new();
            w.header(root as i32, -1);
            for (j, refs) in g.iter().enumerate() {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, j as i32 + 1);
                w.i32(F::ArrLen, refs.len() as i32 + 1);
                w.typed_prim(&MVal::Byte(j as u8));
                for x in refs.iter() {
                    w.member_ref(*x as i32);
                }
            }
            w.end();
            judge_input(&w.buf, "small graph", None, t);
        }
    });
    cx.exhaustive(&format!("all graphs of {n_obj} arrays with up to two references each, to each other, to themselves and to nothing, with every root"));

    // Cycles of every length, of classes and arrays, entered from anywhere.
    cx.par("cycles", 40 * 30, |r, i, t| {
        let n = 1 + i as usize % 40;
        let mut order: Vec<usize> = (0..n).collect();
        r.shuffle(&mut order);
        let outside = r.chance(50);
        let mut w = W::new();
        w.header(if outside { 99 } else { 100 + r.below(n) as i32 }, -1);
        if outside {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 99);
            w.i32(F::ArrLen, 1);
            if r.chance(50) {
                w.member_ref(100 + r.below(n) as i32);
            } else {
                w.null();
            }
        }
        for k in order {
            let id = 100 + k as i32;
            let to = 100 + ((k + 1) % n) as i32;
            match r.below(4) {
                0 => {
                    class_head(&mut w, true, 2, id, "C", &["x".into()]);
                    w.member_ref(to);
                }
                1 => {
                    class_head(&mut w, true, 4, id, "C", &["x".into()]);
                    w.u8(F::BinType, 2);
                    w.member_ref(to);
                }
                2 => {
                    // inside an inline instance
                    w.u8(F::TopTag, 16);
                    w.i32(F::ObjId, id);
                    w.i32(F::ArrLen, 1);
                    class_head(&mut w, false, 2, 500 + k as i32, "D", &["x".into()]);
                    w.member_ref(to);
                }
                _ => {
                    w.u8(F::TopTag, 7);
                    w.i32(F::ObjId, id);
                    w.u8(F::ArrType, 0);
                    w.i32(F::Rank, 1);
                    w.i32(F::Dim, 1);
                    w.u8(F::BinType, 2);
                    w.member_ref(to);
                }
            }
        }
        w.end();
        t.max("longest cycle", n as u64);
        refuse(&w, "objects refer to each other in a cycle", t);
    });

    // Chains of references, forwards and backwards, up to the nesting which has to work.
    cx.par("chains", 31 * 8, |r, i, t| {
        let n = 1 + i as usize % 31;
        let backwards = i / 31 % 2 == 0;
        let mut order: Vec<usize> = (0..n).collect();
        if backwards {
            order.reverse();
        }
        let mut w = W::new();
        w.header(1, -1);
        let mut want = MVal::Arr(vec![MVal::I32(n as i32)]);
        for k in order {
            if k == n - 1 {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1 + k as i32);
                w.i32(F::ArrLen, 1);
                w.typed_prim(&MVal::I32(n as i32));
            } else if k % 2 == 0 {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1 + k as i32);
                w.i32(F::ArrLen, 2);
                w.member_ref(2 + k as i32);
                w.typed_prim(&MVal::I32(k as i32));
            } else {
                class_head(&mut w, true, 4, 1 + k as i32, "C", &["n".into(), "v".into()]);
                w.u8(F::BinType, *r.pick(&[2, 2, 2]));
                w.u8(F::BinType, 0);
                w.u8(F::PrimTypeMember, P_I32);
                w.member_ref(2 + k as i32);
                w.prim(&MVal::I32(k as i32));
            }
        }
        for k in (0..n - 1).rev() {
            let v = MVal::I32(k as i32);
            want = if k % 2 == 0 {
                MVal::Arr(vec![want, v])
            } else {
                obj("C", None, [("n".to_string(), want), ("v".to_string(), v)])
            };
        }
        w.end();
        t.max("longest chain", n as u64);
        expect(&w, &MMsg::Val(want), "chain of references", t);
    });

    // Trees of many objects which all refer to others, their records in any order: any number of objects may wait for
    // later ones at the same time.
    let most = cx.pick(3_000, 30_000);
    cx.par("trees of many objects", cx.cases(6_000, 40_000), |r, i, t| {
        let n = match i % 20 {
            0 => r.range(300, most),
            1..=6 => r.range(60, 300),
            _ => r.range(2, 60),
        };
        let mut kids: Vec<Vec<usize>> = vec![vec![]; n];
        let mut height = vec![1usize; n];
        let style = r.below(4);
        for k in 1..n {
            let p = loop {
                let p = match style {
                    // all with the root
                    0 => 0,
                    // the root, then one below each
                    1 => if k <= n / 2 { 0 } else { k - n / 2 },
                    2 => k / 3,
                    _ => r.below(k),
                };
                if height[p] < 25 {
                    break p;
                }
            };
            let p = if p >= k { 0 } else { p };
            height[k] = height[p] + 1;
            kids[p].push(k);
        }
        let mut order: Vec<usize> = (0..n).collect();
        let how = r.below(5);
        match how {
            // breadth first
            0 => order.sort_by_key(|k| (height[*k], *k)),
            // depth first
            1 => {
                order.clear();
                let mut todo = vec![0];
                while let Some(k) = todo.pop() {
                    order.push(k);
                    todo.extend(kids[k].iter().rev());
                }
            }
            2 => order.reverse(),
            3 => {
                order.sort_by_key(|k| (height[*k], *k));
                order.reverse();
            }
            _ => r.shuffle(&mut order),
        }
        let mut ids: Vec<i32> = (0..n as i32).map(|k| 10 + k * 3).collect();
        if r.chance(50) {
            r.shuffle(&mut ids);
        }
        let kind: Vec<usize> = (0..n).map(|_| r.below(4)).collect();
        let call = r.chance(15);
        let mut w = W::new();
        w.header(if call { 5 } else { ids[0] }, -1);
        let mut first: HashMap<usize, i32> = HashMap::new();
        let call_at = if call { r.below(n + 1) } else { n + 1 };
        let mut inline = 2_000_000;
        for (pos, k) in order.iter().copied().chain([n]).enumerate() {
            if pos == call_at {
                w.u8(F::TopTag, 21);
                w.i32(F::Flags, 0x8 | 0x10);
                for x in ["m", "t"] {
                    w.string_code(x);
                }
                w.u8(F::MemberTag, 16);
                w.i32(F::ObjId, 5);
                w.i32(F::ArrLen, 1);
                w.member_ref(ids[0]);
            }
            if k == n {
                break;
            }
            let c = &kids[k];
            // an instance of a class with as many members
            if kind[k] == 2 && !(call && k == 0) {
                if let Some(m) = first.get(&c.len()) {
                    w.u8(F::TopTag, 1);
                    w.i32(F::ObjId, ids[k]);
                    w.i32(F::MetaId, *m);
                } else {
                    let names: Vec<String> = (0..=c.len()).map(|j| format!("m{j}")).collect();
                    class_head(&mut w, true, 2, ids[k], "C", &names);
                    first.insert(c.len(), ids[k]);
                }
                w.typed_prim(&MVal::I32(k as i32));
                c.iter().for_each(|j| w.member_ref(ids[*j]));
            } else {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, ids[k]);
                w.i32(F::ArrLen, c.len() as i32 + 1);
                w.typed_prim(&MVal::I32(k as i32));
                for j in c {
                    if kind[*j] == 3 {
                        // inside an instance which stands here
                        class_head(&mut w, false, 2, inline, "D", &["x".into()]);
                        inline += 1;
                    }
                    w.member_ref(ids[*j]);
                }
            }
        }
        w.end();
        let mut vals: Vec<Option<MVal>> = vec![None; n];
        for k in (0..n).rev() {
            let is_obj = kind[k] == 2 && !(call && k == 0);
            let mut v = vec![MVal::I32(k as i32)];
            for j in &kids[k] {
                let x = vals[*j].take().unwrap();
                v.push(if !is_obj && kind[*j] == 3 { obj("D", None, [("x".to_string(), x)]) } else { x });
            }
            vals[k] = Some(if is_obj {
                obj("C", None, v.into_iter().enumerate().map(|(j, x)| (format!("m{j}"), x)))
            } else {
                MVal::Arr(v)
            });
        }
        let root = vals[0].take().unwrap();
        let want = if call {
            let MVal::Arr(args) = root else { unreachable!() };
            MMsg::Call { method: "m".into(), ty: "t".into(), ctx: None, args: Some(args) }
        } else {
            MMsg::Val(root)
        };
        t.max("most objects in a tree", n as u64);
        t.n(["trees, breadth first", "trees, depth first", "trees, backwards", "trees, deepest first", "trees, in any order"][how]);
        expect(&w, &want, "a tree of many objects", t);
    });

    // References to objects far away, with any number of other records between.
    let far: &[usize] = cx.pick(&[10, 100, 255, 256, 257, 1_000, 1_024, 4_095, 4_097, 10_000, 33_000, 66_000], &[10, 100, 255, 256, 257, 1_000, 1_024, 4_095, 4_096, 4_097, 8_192, 10_000, 16_385, 33_000, 65_536, 66_000, 140_000, 300_000]);
    cx.par("far references", (far.len() * 4 * 3 * 2) as u64, |r, i, t| {
        let i = i as usize;
        let (forward, what, between, n) = (i % 2 == 0, i / 2 % 3, i / 6 % 4, far[i / 24]);
        let mut w = W::new();
        w.header(1, -1);
        let base = 10 + r.below(1000) as i32;
        let target = *r.pick(&[2, 3, base + 3 * n as i32]);
        let refers = |w: &mut W| {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, 2);
            w.typed_prim(&MVal::Byte(1));
            w.member_ref(target);
        };
        let object = |w: &mut W| match what {
            0 => {
                w.obj_str(true, target, "far", 0);
                MVal::Str("far".into())
            }
            1 => {
                w.u8(F::TopTag, 15);
                w.i32(F::ObjId, target);
                w.i32(F::ArrLen, 1);
                w.u8(F::PrimTypePrimArray, P_BYTE);
                w.prim(&MVal::Byte(7));
                MVal::Arr(vec![MVal::Byte(7)])
            }
            _ => {
                class_head(w, true, 4, target, "Far", &["x".into()]);
                w.u8(F::BinType, 0);
                w.u8(F::PrimTypeMember, P_I16);
                w.prim(&MVal::I16(-3));
                obj("Far", None, [("x".to_string(), MVal::I16(-3))])
            }
        };
        let others = |w: &mut W| {
            for k in 0..n as i32 {
                let id = base + k;
                match if between == 3 { k % 3 } else { between as i32 } {
                    0 => w.obj_str(true, id, "o", 0),
                    1 => {
                        w.u8(F::TopTag, 16);
                        w.i32(F::ObjId, id);
                        w.i32(F::ArrLen, 0);
                    }
                    _ if k > 0 && between == 2 => {
                        w.u8(F::TopTag, 1);
                        w.i32(F::ObjId, id);
                        w.i32(F::MetaId, base);
                    }
                    _ => class_head(w, true, 2, id, "C", &[]),
                }
            }
        };
        let v = if forward {
            refers(&mut w);
            others(&mut w);
            object(&mut w)
        } else {
            let v = object(&mut w);
            others(&mut w);
            refers(&mut w);
            v
        };
        w.end();
        t.max("most records between a reference and its object", n as u64);
        expect(&w, &MMsg::Val(MVal::Arr(vec![MVal::Byte(1), v])), "a reference to an object far away", t);
    });

    // Strings referenced many times from everywhere, defined anywhere.
    cx.par("shared strings", cx.cases(24_000, 300_000), |r, _, t| {
        let ns = r.range(1, 3);
        let texts: Vec<String> = (0..ns).map(|i| format!("{}{i}", gen_string(r, StrGen::Short))).collect();
        let n = r.range(2, 30);
        let mut defined: Vec<Option<usize>> = (0..ns).map(|_| r.chance(60).then(|| r.below(n))).collect();
        let mut w = W::new();
        w.header(1, -1);
        let early = r.chance(50);
        let late = |w: &mut W, d: &[Option<usize>]| {
            for (k, x) in d.iter().enumerate() {
                if x.is_none() {
                    w.obj_str(true, 50 + k as i32, &texts[k], 0);
                }
            }
        };
        if early {
            late(&mut w, &defined);
        }
        // two strings defined by the same element
        for k in 1..ns {
            if defined[k].is_some() && defined[..k].contains(&defined[k]) {
                defined[k] = if early { defined[k] } else { None };
            }
        }
        let mut inline: Vec<usize> = vec![];
        w.u8(F::TopTag, if r.chance(50) { 16 } else { 17 });
        w.i32(F::ObjId, 1);
        w.i32(F::ArrLen, n as i32);
        let mut want = vec![];
        for j in 0..n {
            if let Some(k) = (0..ns).find(|k| defined[*k] == Some(j)) {
                w.obj_str(false, 50 + k as i32, &texts[k], 0);
                want.push(MVal::Str(texts[k].clone()));
                inline.push(k);
            } else {
                let k = r.below(ns);
                w.member_ref(50 + k as i32);
                want.push(MVal::Str(texts[k].clone()));
            }
        }
        if !early {
            late(&mut w, &defined);
        }
        w.end();
        // a string which is defined nowhere
        if (0..ns).any(|k| defined[k].is_some() && !inline.contains(&k)) {
            return;
        }
        t.add("references to strings", n as u64);
        expect(&w, &MMsg::Val(MVal::Arr(want)), "shared strings", t);
    });

    cx.seq(|t| {
        let listed = std::fs::read_to_string(crate::report::root().join("KNOWN_FINDINGS")).unwrap_or_default();
        for (name, w, want) in c09_known() {
            t.eval(&w.buf, true);
            t.n("known findings run");
            match real::run(&w.buf) {
                Got::Err(_) => {
                    let id = name.split(':').next().unwrap();
                    let line = format!("finding: property=C09 id={id} input={} ", hex(&w.buf));
                    if listed.lines().any(|l| l.starts_with(&line)) {
                        cx.known(&format!("{name} (input {})", hex(&w.buf)));
                    } else {
                        t.bad(&w.buf, name.into(), String::new());
                    }
                }
                got => {
                    if let Some(why) = judge::wrong_value(&got, &want) {
                        t.bad(&w.buf, why, String::new());
                    }
                }
            }
        }
    });
    super::many::run(cx);
}

// ---------------------------------------------------------------- C10

/// Library records of a message: where each starts and ends.
fn lib_records(w: &W) -> Vec<(usize, usize)> {
    let mut v = vec![];
    for (i, s) in w.spans.iter().enumerate() {
        if s.f == F::LibTag {
            let end = w.spans[i..].iter().find(|x| x.f == F::LibName).map(|x| x.off + x.len).unwrap();
            v.push((s.off, end));
        }
    }
    v
}

pub fn c10(cx: &Cx) {
    cx.rule(
        "A case is one message with library records at random legal places compared with the reference decoder; or the same \
         message with a library id or use changed, a library record moved to every other legal place, repeated or dropped, or \
         with all libraries renumbered. Distinct by its bytes.",
    );
    let cfg = Cfg { calls: 25, size: 40, overlong: 0, ..Cfg::default() };
    let kinds = [K::NoLib, K::DupLib, K::LibId];
    cx.par("messages", cx.cases(96_000, 1_200_000), |r, _, t| {
        let w = doc::generate(r, &cfg);
        let libs = lib_records(&w);
        if libs.is_empty() && !r.chance(5) {
            return;
        }
        let v = judge_input(&w.buf, "random message", Some(&kinds), t);
        field_mutants(r, &w, &[F::LibId, F::LibUse], 4, Some(&kinds), t);
        if libs.is_empty() {
            return;
        }
        if let Some(Verdict::Must(m)) = &v {
            let b = renumber(r, &w, true);
            t.n("messages with all libraries renumbered");
            t.eval(&b, true);
            if let Some(why) = judge::wrong_value(&real::run(&b), m) {
                t.bad(&b, format!("other library ids: {why}"), String::new());
            }
        }
        // moved, repeated, dropped
        let places: Vec<usize> = w
            .spans
            .iter()
            .filter(|s| matches!(s.f, F::TopTag | F::MemberTag | F::EndTag))
            .map(|s| s.off)
            .collect();
        for _ in 0..3 {
            let (a, e) = *r.pick(&libs);
            let rec = w.buf[a..e].to_vec();
            let mut b = w.buf.clone();
            let what = r.below(4);
            let at = *r.pick(&places);
            match what {
                0 => {
                    b.drain(a..e);
                }
                1 => {
                    b.splice(at..at, rec);
                }
                _ => {
                    if at >= a && at < e {
                        continue;
                    }
                    b.drain(a..e);
                    let at = if at > a { at - (e - a) } else { at };
                    b.splice(at..at, rec);
                }
            }
            t.n(["library records dropped", "library records repeated", "library records moved", "library records moved"][what]);
            judge_input(&b, "library record dropped, repeated or moved", Some(&kinds), t);
        }
    });

    // One message, its one library record at every place where it may stand before its use.
    cx.seq(|t| {
        for member_kind in 0..7 {
            for place in 0..9 {
                let mut used = false;
                let mut w = W::new();
                w.header(1, -1);
                let lib = |w: &mut W, p: usize, used: &mut bool| {
                    if p == place {
                        w.lib(33, "TheLibrary");
                        *used = true;
                    }
                };
                lib(&mut w, 0, &mut used);
                w.u8(F::TopTag, 15);
                w.i32(F::ObjId, 20);
                w.i32(F::ArrLen, 1);
                w.u8(F::PrimTypePrimArray, P_BYTE);
                w.prim(&MVal::Byte(12));
                lib(&mut w, 1, &mut used);
                class_head(&mut w, true, 2, 21, "Sys", &["a".into(), "b".into()]);
                lib(&mut w, 2, &mut used);
                w.typed_prim(&MVal::Byte(12));
                lib(&mut w, 3, &mut used);
                w.null();
                lib(&mut w, 4, &mut used);
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 3);
                lib(&mut w, 5, &mut used);
                w.member_ref(20);
                lib(&mut w, 6, &mut used);
                let second = match member_kind {
                    0 => {
                        w.null();
                        MVal::Null
                    }
                    1 => {
                        w.obj_str(false, 30, "s", 0);
                        MVal::Str("s".into())
                    }
                    2 => {
                        w.typed_prim(&MVal::I32(12));
                        MVal::I32(12)
                    }
                    3 => {
                        class_head(&mut w, false, 2, 31, "In", &[]);
                        obj("In", None, [])
                    }
                    4 => {
                        w.u8(F::MemberTag, 1);
                        w.i32(F::ObjId, 31);
                        w.i32(F::MetaId, 21);
                        lib(&mut w, 7, &mut used);
                        w.null_run(2, false);
                        obj("Sys", None, [("a".into(), MVal::Null), ("b".into(), MVal::Null)])
                    }
                    5 => {
                        w.member_ref(21);
                        obj("Sys", None, [("a".into(), MVal::Byte(12)), ("b".into(), MVal::Null)])
                    }
                    _ => {
                        class_head(&mut w, false, 4, 31, "In", &["p".into(), "q".into()]);
                        w.u8(F::BinType, 0);
                        w.u8(F::BinType, 1);
                        w.u8(F::PrimTypeMember, P_BYTE);
                        // an untyped primitive which looks like a library record
                        w.prim(&MVal::Byte(12));
                        lib(&mut w, 7, &mut used);
                        w.null();
                        obj("In", None, [("p".into(), MVal::Byte(12)), ("q".into(), MVal::Null)])
                    }
                };
                lib(&mut w, 8, &mut used);
                if !used {
                    continue;
                }
                class_head(&mut w, false, 3, 32, "InLib", &["z".into()]);
                w.i32(F::LibUse, 33);
                w.typed_prim(&MVal::Bool(true));
                w.end();
                let first = MVal::Arr(vec![MVal::Byte(12)]);
                let third = obj("InLib", Some("TheLibrary"), [("z".to_string(), MVal::Bool(true))]);
                expect(&w, &MMsg::Val(MVal::Arr(vec![first, second, third])), "library record at every legal place", t);
            }
        }
        // before calls, returns and call arrays
        for ret in [false, true] {
            for place in 0..4 {
                let w = message(|w| {
                    let lib = |w: &mut W, p: usize| {
                        if p == place {
                            w.lib(33, "TheLibrary");
                        }
                    };
                    lib(w, 0);
                    w.u8(F::TopTag, if ret { 22 } else { 21 });
                    w.i32(F::Flags, 4);
                    if !ret {
                        w.string_code("m");
                        w.string_code("t");
                    }
                    lib(w, 1);
                    w.u8(F::TopTag, 16);
                    w.i32(F::ObjId, 1);
                    w.i32(F::ArrLen, 2);
                    lib(w, 2);
                    w.typed_prim(&MVal::Byte(12));
                    lib(w, 3);
                    class_head(w, false, 5, 32, "InLib", &[]);
                    w.i32(F::LibUse, 33);
                });
                let args = Some(vec![MVal::Byte(12), obj("InLib", Some("TheLibrary"), [])]);
                let want = if ret {
                    MMsg::Ret { ret: None, ctx: None, args }
                } else {
                    MMsg::Call { method: "m".into(), ty: "t".into(), ctx: None, args }
                };
                expect(&w, &want, "library record before calls and call arrays", t);
            }
        }
    });
    cx.exhaustive("one library record at every legal place of messages with every kind of member in front of its use");

    // many libraries whose names and ids are easy to confuse
    cx.par("many libraries", cx.cases(16_000, 200_000), |r, _, t| {
        let n = r.range(2, 12);
        let mut ids: Vec<i32> = vec![];
        while ids.len() < n {
            let id = match r.below(4) {
                0 => 1 + r.below(20) as i32,
                1 => 1 << r.below(31),
                2 => (1 << r.below(30)) + 1,
                _ => ((r.u32() >> 1) as i32).max(1),
            };
            if !ids.contains(&id) {
                ids.push(id);
            }
        }
        let names: Vec<String> = (0..n).map(|i| if r.chance(20) { "Same".to_string() } else { format!("Lib{i}") }).collect();
        let m = r.range(n, 3 * n);
        let mut w = W::new();
        w.header(i32::MAX, -1);
        let up_front = r.below(n + 1);
        // An id may be that of an object as well: they are numbered apart.
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, i32::MAX);
        w.i32(F::ArrLen, (m + up_front) as i32);
        let mut want = vec![];
        let mut done = vec![false; n];
        for k in 0..up_front {
            w.lib(ids[k], &names[k]);
            done[k] = true;
            w.null();
            want.push(MVal::Null);
        }
        for j in 0..m {
            let k = r.below(n);
            if !done[k] {
                w.lib(ids[k], &names[k]);
                done[k] = true;
            }
            // object ids which are library ids as well
            let id = if j < n { ids[j] } else { 1_000_000_000 + j as i32 };
            let id = if id == i32::MAX { 2_000_000_000 } else { id };
            class_head(&mut w, false, *r.pick(&[3, 5]), id, "C", &[]);
            w.i32(F::LibUse, ids[k]);
            want.push(obj("C", Some(&names[k]), []));
        }
        w.end();
        if ids.iter().any(|i| (1_000_000_000..1_000_000_100).contains(i) || *i == 2_000_000_000) {
            return;
        }
        expect(&w, &MMsg::Val(MVal::Arr(want)), "many libraries", t);
        field_mutants(r, &w, &[F::LibId, F::LibUse], 2, Some(&kinds), t);
    });
    super::many::run(cx);
}

// ---------------------------------------------------------------- C14

pub fn c14(cx: &Cx) {
    cx.rule(
        "A case is one message without method call whose header names one of its objects, or an id that no object has, as the \
         root: the value has to be that object (reference decoder, or known by construction), or the message has to be rejected \
         because there is none or it became part of another object. Distinct by its bytes.",
    );
    let cfg = Cfg { calls: 0, size: 30, overlong: 0, ..Cfg::default() };
    let kinds = [K::RootMissing, K::RootConsumed, K::NegRoot];
    cx.par("messages", cx.cases(64_000, 800_000), |r, _, t| {
        let w = doc::generate(r, &cfg);
        let mut ids: Vec<i32> =
            w.spans.iter().filter(|s| matches!(s.f, F::ObjId | F::LibId)).map(|s| get_i32(&w.buf, s.off)).collect();
        let have = ids.len();
        for k in 0..have.min(4) {
            let x = ids[k];
            ids.push(x.wrapping_add(1));
            ids.push(x ^ 0x100);
        }
        ids.push(i32::MAX);
        r.shuffle(&mut ids);
        for id in ids.into_iter().take(12) {
            let mut b = w.buf.clone();
            set_i32(&mut b, 1, id);
            judge_input(&b, &format!("root id {id}"), Some(&kinds), t);
        }
        // the header id does not matter
        let mut b = w.buf.clone();
        let v = refdec::decode(&b);
        set_i32(&mut b, 5, *r.pick(&[0, 1, -1, 2, i32::MIN, i32::MAX, get_i32(&w.buf, 1)]));
        if let Verdict::Must(m) = v {
            t.eval(&b, true);
            t.n("messages with another header id");
            if let Some(why) = judge::wrong_value(&real::run(&b), &m) {
                t.bad(&b, format!("other header id: {why}"), String::new());
            }
        }
    });
    // k unrelated objects of every kind, every one of them as the root
    cx.par("objects side by side", cx.cases(32_000, 400_000), |r, _, t| {
        let n = r.range(1, 12);
        let mut ids = doc::Ids::new(r);
        let mut objs = vec![];
        let mut body = W::new();
        body.lib(5, "L");
        for i in 0..n {
            let id = ids.get(r);
            let v = match r.below(6) {
                0 => {
                    let s = format!("s{i}");
                    body.obj_str(true, id, &s, 0);
                    MVal::Str(s)
                }
                1 => {
                    body.u8(F::TopTag, 15);
                    body.i32(F::ObjId, id);
                    body.i32(F::ArrLen, 2);
                    body.u8(F::PrimTypePrimArray, P_I32);
                    let v = vec![MVal::I32(i as i32), MVal::I32(-1)];
                    v.iter().for_each(|x| body.prim(x));
                    MVal::Arr(v)
                }
                2 => {
                    body.u8(F::TopTag, 16);
                    body.i32(F::ObjId, id);
                    body.i32(F::ArrLen, 1);
                    let v = MVal::I64(i as i64);
                    body.typed_prim(&v);
                    MVal::Arr(vec![v])
                }
                3 => {
                    body.u8(F::TopTag, 17);
                    body.i32(F::ObjId, id);
                    body.i32(F::ArrLen, 2);
                    body.null_run(2, false);
                    MVal::Arr(vec![MVal::Null; 2])
                }
                4 => {
                    class_head(&mut body, true, 3, id, &format!("C{i}"), &["v".into()]);
                    body.i32(F::LibUse, 5);
                    body.typed_prim(&MVal::Byte(i as u8));
                    obj(&format!("C{i}"), Some("L"), [("v".to_string(), MVal::Byte(i as u8))])
                }
                _ => {
                    body.u8(F::TopTag, 7);
                    body.i32(F::ObjId, id);
                    body.u8(F::ArrType, 2);
                    body.i32(F::Rank, 2);
                    body.i32(F::Dim, 1);
                    body.i32(F::Dim, 2);
                    body.u8(F::BinType, 0);
                    body.u8(F::PrimTypeMember, P_BYTE);
                    let v = vec![MVal::Byte(i as u8), MVal::Byte(9)];
                    v.iter().for_each(|x| body.prim(x));
                    MVal::Arr(vec![MVal::Arr(v)])
                }
            };
            objs.push((id, v));
        }
        let with_root = |root: i32| {
            let mut w = W::new();
            w.header(root, -1);
            w.raw(&body.buf);
            w.end();
            w
        };
        if body.buf.is_empty() || matches!(body.buf[13.min(body.buf.len() - 1)], 6) {
            // a library record must not stand in front of a string
        }
        let lib_end = lib_records(&body)[0].1;
        if body.buf.get(lib_end) == Some(&6) {
            return;
        }
        for (id, v) in &objs {
            expect(&with_root(*id), &MMsg::Val(v.clone()), "objects side by side", t);
        }
        for _ in 0..4 {
            let near = objs[r.below(n)].0;
            let id = match r.below(5) {
                0 => near.wrapping_add(1),
                1 => near.wrapping_sub(1),
                2 => near ^ (1 << r.below(31)),
                3 => 5,
                _ => (r.u32() >> 1) as i32,
            };
            if id > 0 && objs.iter().all(|o| o.0 != id) {
                refuse(&with_root(id), "no object has the root id", t);
            }
            if id > 0 {
                refuse(&with_root(-id), "the root id is negative", t);
            }
        }
        refuse(&with_root(i32::MIN), "the root id is negative", t);
        // no object can have the id zero
        let w = with_root(0);
        t.eval(&w.buf, true);
        t.n("messages with the root id zero");
        match real::run(&w.buf) {
            Got::Msg(MMsg::Val(MVal::Null)) | Got::Err(_) => (),
            got => t.bad(&w.buf, format!("the root id is zero, which no object has, and an object is returned: {got:?}"), String::new()),
        }
    });
    // objects which became part of another one
    cx.seq(|t| {
        for kind in 0..5 {
            for inline in [false, true] {
                for order in [false, true] {
                    let mut w = W::new();
                    w.header(2, -1);
                    let part = |w: &mut W| match kind {
                        0 => class_head(w, !inline, 4, 2, "P", &[]),
                        1 => w.obj_str(!inline, 2, "text", 0),
                        2 => {
                            w.u8(F::TopTag, 15);
                            w.i32(F::ObjId, 2);
                            w.i32(F::ArrLen, 0);
                            w.u8(F::PrimTypePrimArray, P_BYTE);
                        }
                        3 => {
                            w.u8(F::TopTag, 16);
                            w.i32(F::ObjId, 2);
                            w.i32(F::ArrLen, 0);
                        }
                        _ => {
                            w.u8(F::TopTag, 17);
                            w.i32(F::ObjId, 2);
                            w.i32(F::ArrLen, 0);
                        }
                    };
                    if inline && kind > 1 {
                        continue;
                    }
                    if !inline && order {
                        part(&mut w);
                    }
                    w.u8(F::TopTag, 16);
                    w.i32(F::ObjId, 1);
                    w.i32(F::ArrLen, 1);
                    if inline {
                        part(&mut w);
                    } else {
                        w.member_ref(2);
                    }
                    if !inline && !order {
                        part(&mut w);
                    }
                    w.end();
                    if kind == 1 {
                        expect(&w, &MMsg::Val(MVal::Str("text".into())), "a string which is part of another object is the root", t);
                    } else {
                        refuse(&w, "the root object is part of another object", t);
                    }
                }
            }
        }
    });
    super::many::run(cx);
}
