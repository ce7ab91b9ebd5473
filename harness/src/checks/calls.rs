//! Method calls and returns (C11) and their flags (C12).

use super::place::{message, names, obj};
use super::verdicts::{field_mutants, judge_input};
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg, StrGen, gen_arg, gen_prim, gen_string};
use crate::judge;
use crate::mval::{MMsg, MVal};
use crate::real;
use crate::refdec::{K, flags_contradict};
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;

pub const IN_ARRAY: i32 = 0x4 | 0x8 | 0x40 | 0x80 | 0x100 | 0x1000 | 0x2000 | 0x8000;

/// An item of a call array: what it is written as, and what it has to be.
fn item(r: &mut Rng, w: &mut W, later: &mut Vec<(i32, u8, Vec<MVal>)>, next: &mut i32) -> MVal {
    match r.below(7) {
        0 => {
            w.null();
            MVal::Null
        }
        1 => {
            let s = gen_string(r, StrGen::Any);
            *next += 1;
            w.obj_str(false, *next, &s, 0);
            MVal::Str(s)
        }
        2 => {
            let nm = names(r.below(3));
            *next += 1;
            super::place::class_head(w, false, 2, *next, "Item", &nm);
            let mut ms = vec![];
            for n in nm {
                let t = *r.pick(&PRIMS);
                let v = gen_prim(r, t);
                w.typed_prim(&v);
                ms.push((n, v));
            }
            obj("Item", None, ms)
        }
        3 => {
            let t = *r.pick(&PRIMS);
            let n = r.below(5);
            let v: Vec<MVal> = (0..n).map(|_| gen_prim(r, t)).collect();
            *next += 1;
            w.member_ref(*next);
            later.push((*next, t, v.clone()));
            MVal::Arr(v)
        }
        _ => {
            let t = *r.pick(&PRIMS);
            let v = gen_prim(r, t);
            w.typed_prim(&v);
            v
        }
    }
}

struct Opts {
    ret: bool,
    flags: i32,
}

struct Built {
    w: W,
    want: MMsg,
}

fn prim_array(w: &mut W, id: i32, t: u8, v: &[MVal]) {
    w.u8(F::TopTag, 15);
    w.i32(F::ObjId, id);
    w.i32(F::ArrLen, v.len() as i32);
    w.u8(F::PrimTypePrimArray, t);
    for x in v {
        w.prim(x);
    }
}

/// A message whose parts are all known.
fn build(r: &mut Rng, o: &Opts, root: i32) -> Built {
    let mut w = W::new();
    let mut next = root;
    let has_array = o.flags & IN_ARRAY != 0;
    let header_root = if has_array { root } else { *r.pick(&[0, 1, root, i32::MAX]) };
    w.header(header_root, r.i32());
    let mut lib = 0;
    let unrelated = |r: &mut Rng, w: &mut W, next: &mut i32| {
        for _ in 0..r.below(3) {
            *next += 1;
            match r.below(3) {
                0 => w.obj_str(true, *next, "unrelated", 0),
                1 => prim_array(w, *next, P_BYTE, &[MVal::Byte(21), MVal::Byte(22), MVal::Byte(16)]),
                _ => super::place::class_head(w, true, 2, *next, "Unrelated", &[]),
            }
        }
    };
    unrelated(r, &mut w, &mut next);
    if r.chance(30) {
        lib += 1;
        w.lib(lib, "L");
    }
    w.u8(F::TopTag, if o.ret { 22 } else { 21 });
    w.i32(F::Flags, o.flags);
    let (mut method, mut ty, mut ret) = (String::new(), String::new(), None);
    if o.ret {
        if o.flags & 0x800 != 0 {
            let v = gen_arg(r);
            w.value_code(&v);
            ret = Some(v);
        }
    } else {
        method = gen_string(r, StrGen::Any);
        ty = gen_string(r, StrGen::Any);
        w.string_code(&method);
        w.string_code(&ty);
    }
    let mut ctx = None;
    if o.flags & 0x20 != 0 {
        let s = gen_string(r, StrGen::Any);
        w.string_code(&s);
        ctx = Some(s);
    }
    let mut args = None;
    if o.flags & 0x2 != 0 {
        let n = match r.below(12) {
            0 => 0,
            1 => r.range(100, 300),
            _ => r.range(1, 6),
        };
        w.i32(F::ArgCount, n as i32);
        let v: Vec<MVal> = (0..n).map(|_| gen_arg(r)).collect();
        for x in &v {
            w.value_code(x);
        }
        args = Some(v);
    }
    let mut later = vec![];
    if has_array {
        if r.chance(30) {
            lib += 1;
            w.lib(lib, "M");
        }
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, root);
        let first_is_args = o.flags & 0x8 != 0;
        let n = if first_is_args { r.range(1, 5) } else { r.below(6) };
        let at = w.buf.len();
        w.i32(F::ArrLen, 0);
        let mut items = vec![];
        while items.len() < n {
            if items.is_empty() && first_is_args {
                // the arguments, in any kind of array
                next += 1;
                w.member_ref(next);
                let t = *r.pick(&PRIMS);
                let k = r.below(5);
                let v: Vec<MVal> = (0..k).map(|_| gen_prim(r, t)).collect();
                later.push((next, t, v.clone()));
                items.push(MVal::Arr(v));
            } else if n - items.len() >= 2 && r.chance(15) {
                let k = r.range(2, n - items.len());
                let wide = r.chance(50);
                w.null_run(k, wide);
                items.extend((0..k).map(|_| MVal::Null));
            } else {
                let v = item(r, &mut w, &mut later, &mut next);
                items.push(v);
            }
        }
        let len = (items.len() as i32).to_le_bytes();
        w.buf[at..at + 4].copy_from_slice(&len);
        if o.flags & 0x4 != 0 {
            args = Some(items);
        } else if first_is_args {
            let MVal::Arr(v) = items.swap_remove(0) else { unreachable!() };
            args = Some(v);
        }
    }
    r.shuffle(&mut later);
    for (id, t, v) in &later {
        let same_as_objects = r.chance(40);
        if same_as_objects {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, *id);
            w.i32(F::ArrLen, v.len() as i32);
            for x in v {
                w.typed_prim(x);
            }
        } else {
            prim_array(&mut w, *id, *t, v);
        }
    }
    unrelated(r, &mut w, &mut next);
    w.end();
    let want = if o.ret { MMsg::Ret { ret, ctx, args } } else { MMsg::Call { method, ty, ctx, args } };
    Built { w, want }
}

/// Flags without a contradiction whose meaning the property fixes.
fn gen_opts(r: &mut Rng) -> Opts {
    let ret = r.chance(50);
    let args = *r.pick(&[0, 1, 2, 2, 4, 4, 8, 8]);
    let mut f = args | *r.pick(&[0, 0x10, 0x20, 0x20]);
    let rv = *r.pick(&[0, 0x200, 0x400, 0x800, 0x800]);
    f |= rv;
    if f & 0x30 == 0 && r.chance(20) {
        f |= 0x40;
    }
    if r.chance(15) {
        f |= 0x100;
    }
    if rv == 0 && r.chance(20) {
        f |= 0x80;
    }
    if args == 0 && rv == 0 && f & 0x80 == 0 && r.chance(30) {
        f |= 0x2000;
    }
    if r.chance(10) {
        f |= 0x8000;
    }
    Opts { ret, flags: f }
}

fn expect(b: &[u8], want: &MMsg, what: &str, t: &mut Tally) -> bool {
    t.eval(b, true);
    let got = real::run(b);
    if b.len() < 220 {
        t.sample(|| format!("{what}: {} -> {}", hex(b), got.brief()));
    }
    match judge::wrong_value(&got, want) {
        Some(why) => {
            t.bad(b, format!("{what}: {why}"), String::new());
            false
        }
        None => true,
    }
}

fn refuse(b: &[u8], rule: &str, t: &mut Tally) {
    t.eval(b, true);
    let got = real::run(b);
    if let Some(why) = judge::not_rejected(&got, rule) {
        t.bad(b, why, String::new());
    }
}

pub fn c11(cx: &Cx) {
    cx.rule(
        "A case is one message with a method call or return whose name, type, context, return value, arguments and call array are \
         known by construction and compared bit by bit, or such a message with one announced part missing or misplaced, which has \
         to be rejected, or with one field changed, which is judged by the reference decoder. Distinct by its bytes.",
    );
    cx.par("direct", cx.cases(450_000, 12_000_000), |r, _, t| {
        let o = gen_opts(r);
        let root = *r.pick(&[1, 2, 77, 255, 256, 65536]);
        let b = build(r, &o, root);
        t.nd(&format!(
            "{}: {}",
            if o.ret { "return" } else { "call" },
            match o.flags & 0xf {
                2 => "inline arguments",
                4 => "arguments are the call array",
                8 => "arguments in the call array",
                _ => "no arguments",
            }
        ));
        t.nd(if o.flags & 0x20 != 0 { "context present" } else { "context absent" });
        if o.ret {
            t.nd(if o.flags & 0x800 != 0 { "return value present" } else { "return value absent" });
        }
        if o.flags & 0xf < 4 && o.flags & IN_ARRAY != 0 {
            t.n("call array with other things than arguments");
        }
        if expect(&b.w.buf, &b.want, "call or return", t) && r.chance(20) {
            field_mutants(
                r,
                &b.w,
                &[F::Flags, F::ArgCount, F::PrimTypeArg, F::StrCode, F::RootId, F::ArrLen, F::ObjId, F::NullCount, F::NullCount256, F::StrText],
                3,
                None,
                t,
            );
        }
    });
    // flags which the fields they announce follow, every one of them
    let all: Vec<(bool, i32)> = (0..1 << 15)
        .map(spread)
        .filter(|f| !flags_contradict(*f) && (*f & 0x1000 == 0 || *f & 0xC == 0))
        .flat_map(|f| [(false, f), (true, f)])
        .collect();
    cx.exhaustive("every consistent combination of the 15 flags, except of arguments with a return value in the same array, for calls and for returns");
    cx.par("all flags", all.len() as u64 * 4, |r, i, t| {
        let (ret, flags) = all[i as usize / 4];
        let b = build(r, &Opts { ret, flags }, 5);
        expect(&b.w.buf, &b.want, "every flag combination", t);
    });
    // missing and misplaced call arrays
    cx.par("call arrays", cx.cases(60_000, 400_000), |r, i, t| {
        let ret = i % 2 == 0;
        let flags = *r.pick(&[0x4, 0x8, 0x14, 0x18, 0x24, 0x28, 0x204, 0x408]);
        let b = build(r, &Opts { ret, flags }, 5);
        let w = &b.w;
        // the call array's id is the first object id behind the flags
        let fl = w.spans.iter().find(|s| s.f == F::Flags).unwrap().off;
        let tag = w.spans.iter().find(|s| s.off > fl && s.f == F::TopTag).unwrap();
        let id = w.spans.iter().find(|s| s.off > tag.off && s.f == F::ObjId).unwrap();
        let mut m = w.buf.clone();
        match r.below(3) {
            0 => {
                let other = *r.pick(&[1, 4, 6, 1000, i32::MAX]);
                m[1..5].copy_from_slice(&other.to_le_bytes());
                t.n("call array id is not the root id");
                refuse(&m, "the call array's id is not the root id", t);
            }
            1 => {
                m[1..5].copy_from_slice(&0i32.to_le_bytes());
                t.n("call array although the root id is 0");
                refuse(&m, "the root id is 0 and not the call array's id", t);
            }
            _ => {
                let n = *r.pick(&[100_001, 7_000_000]);
                m[id.off..id.off + 4].copy_from_slice(&i32::to_le_bytes(n));
                t.n("call array id is not the root id");
                refuse(&m, "the call array's id is not the root id", t);
            }
        }
        // without the call array: the call, then nothing or something else
        for kind in 0..7 {
            let w = message(|w| {
                w.u8(F::TopTag, if ret { 22 } else { 21 });
                w.i32(F::Flags, flags);
                if !ret {
                    w.string_code("m");
                    w.string_code("t");
                }
                if flags & 0x20 != 0 {
                    w.string_code("c");
                }
                match kind {
                    0 => (),
                    1 => w.obj_str(true, 1, "no array", 0),
                    2 => prim_array(w, 1, P_I32, &[MVal::I32(1)]),
                    3 => {
                        w.u8(F::TopTag, 17);
                        w.i32(F::ObjId, 1);
                        w.i32(F::ArrLen, 1);
                        w.null();
                    }
                    4 => super::place::class_head(w, true, 2, 1, "No.Array", &[]),
                    5 => {
                        w.obj_str(true, 2, "in between", 0);
                        w.u8(F::TopTag, 16);
                        w.i32(F::ObjId, 1);
                        w.i32(F::ArrLen, 1);
                        w.member_ref(3);
                        prim_array(w, 3, P_I32, &[MVal::I32(1)]);
                    }
                    _ => {
                        w.u8(F::TopTag, 7);
                        w.i32(F::ObjId, 1);
                        w.u8(F::ArrType, 0);
                        w.i32(F::Rank, 1);
                        w.i32(F::Dim, 1);
                        w.u8(F::BinType, 2);
                        w.null();
                    }
                }
            });
            t.n("announced call array is missing");
            refuse(&w.buf, "the flags announce arguments in a call array which is missing", t);
        }
        // the call array stands in front of the call
        let w = message(|w| {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, 1);
            w.member_ref(3);
            prim_array(w, 3, P_I32, &[MVal::I32(1)]);
            w.u8(F::TopTag, if ret { 22 } else { 21 });
            w.i32(F::Flags, flags);
            if !ret {
                w.string_code("m");
                w.string_code("t");
            }
            if flags & 0x20 != 0 {
                w.string_code("c");
            }
        });
        t.n("announced call array is missing");
        refuse(&w.buf, "the flags announce arguments in a call array which is missing", t);
        // arguments in an array which are not an array
        let k = r.below(6);
        let w = message(|w| {
            w.u8(F::TopTag, if ret { 22 } else { 21 });
            w.i32(F::Flags, 0x8);
            if !ret {
                w.string_code("m");
                w.string_code("t");
            }
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, if k == 0 { 0 } else { 2 });
            match k {
                0 => (),
                1 => w.null(),
                2 => w.obj_str(false, 9, "s", 0),
                3 => w.typed_prim(&MVal::I32(5)),
                4 => super::place::class_head(w, false, 2, 9, "C", &[]),
                _ => w.member_ref(8),
            }
            if k > 0 {
                w.member_ref(7);
                prim_array(w, 7, P_I32, &[MVal::I32(1)]);
                if k == 5 {
                    w.obj_str(true, 8, "text", 0);
                }
            }
        });
        t.n("first item of the call array is no array");
        refuse(&w.buf, "the arguments are announced as first item of the call array, which is no array", t);
    });
    // in whole messages
    let cfg = Cfg { size: 20, calls: 100, ..Cfg::default() };
    cx.par("documents", cx.cases(120_000, 2_000_000), |r, _, t| {
        let w = doc::generate(r, &cfg);
        if judge_input(&w.buf, "generated call", None, t).is_none() {
            return;
        }
        field_mutants(r, &w, &[F::Flags, F::ArgCount, F::PrimTypeArg, F::StrCode, F::RootId, F::ArrLen], 3, Some(&[K::Args, K::CallId, K::NegCount]), t);
    });
    super::many::run(cx);
}

/// The body which these flags announce, every item of the call array being an array.
fn flag_body(flags: i32, ret: bool, ctx: bool, args: bool, rv: bool, array: bool) -> W {
    message(|w| {
        w.u8(F::TopTag, if ret { 22 } else { 21 });
        w.i32(F::Flags, flags);
        if ret {
            if rv {
                w.value_code(&MVal::I32(7));
            }
        } else {
            w.string_code("method");
            w.string_code("type");
        }
        if ctx {
            w.string_code("context");
        }
        if args {
            w.i32(F::ArgCount, 1);
            w.value_code(&MVal::I32(8));
        }
        if array {
            w.u8(F::TopTag, 16);
            w.i32(F::ObjId, 1);
            w.i32(F::ArrLen, 6);
            for i in 2..8 {
                w.member_ref(i);
            }
            for i in 2..8 {
                prim_array(w, i, P_I32, &[MVal::I32(i)]);
            }
        }
    })
}

fn spread(i: u64) -> i32 {
    // bits 0..13 and 15
    (i & 0x3fff) as i32 | ((i >> 14 & 1) as i32) << 15
}

pub fn c12(cx: &Cx) {
    cx.rule(
        "A case is one call or return with one combination of flags and one choice of fields behind them. Consistent combinations \
         with the fields they announce have to be accepted, contradictory ones rejected with any fields. Distinct by its bytes.",
    );
    cx.exhaustive("all 2^15 combinations of defined flags, for calls and returns; contradictory ones with all 16 combinations of fields behind them");
    cx.par("all", 1 << 15, |_, i, t| {
        let flags = spread(i);
        let bad = flags_contradict(flags);
        for ret in [false, true] {
            if bad {
                for k in 0..16 {
                    let w = flag_body(flags, ret, k & 1 != 0, k & 2 != 0, k & 4 != 0, k & 8 != 0);
                    if !ret && k & 4 != 0 {
                        continue;
                    }
                    t.n("contradictory flags offered");
                    t.eval(&w.buf, true);
                    let got = real::run(&w.buf);
                    if let Some(why) = judge::not_rejected(&got, &format!("the flags {flags:#x} contradict each other")) {
                        t.bad(&w.buf, why, String::new());
                    }
                }
            } else {
                let w = flag_body(flags, ret, flags & 0x20 != 0, flags & 2 != 0, flags & 0x800 != 0, flags & IN_ARRAY != 0);
                t.n("consistent flags offered");
                t.eval(&w.buf, true);
                let got = real::run(&w.buf);
                if !got.accepted() {
                    t.bad(&w.buf, format!("consistent flags {flags:#x} are rejected: {}", got.brief()), String::new());
                }
                t.sample(|| format!("flags {flags:#x}: {} -> {}", hex(&w.buf), got.brief()));
            }
        }
    });
    // contradictions stay contradictions with undefined flags
    cx.par("undefined", cx.cases(600_000, 20_000_000), |r, _, t| {
        let flags = match r.below(3) {
            0 => r.i32(),
            1 => spread(r.u64()) | 1 << *r.pick(&[14, 16, 17, 20, 24, 30, 31]),
            _ => spread(r.u64()),
        };
        if !flags_contradict(flags) {
            t.n("not contradictory, not offered");
            return;
        }
        let ret = r.chance(50);
        let k = r.below(16);
        let fit = r.chance(50);
        let w = if fit {
            flag_body(flags, ret, flags & 0x20 != 0, flags & 2 != 0, flags & 0x800 != 0, flags & IN_ARRAY != 0)
        } else {
            flag_body(flags, ret, k & 1 != 0, k & 2 != 0, k & 4 != 0, k & 8 != 0)
        };
        t.n("contradictory flags offered");
        refuse(&w.buf, &format!("the flags {flags:#x} contradict each other"), t);
    });
    // in whole messages
    let cfg = Cfg { size: 15, calls: 100, ..Cfg::default() };
    cx.par("documents", cx.cases(90_000, 2_000_000), |r, _, t| {
        let w = doc::generate(r, &cfg);
        let Some(s) = w.spans.iter().find(|s| s.f == F::Flags) else { return };
        let orig = crate::mutate::get_i32(&w.buf, s.off);
        if judge_input(&w.buf, "generated call", Some(&[K::FlagsBad]), t).is_none() {
            return;
        }
        for _ in 0..4 {
            let mut b = w.buf.clone();
            let f = match r.below(3) {
                0 => orig | 1 << r.below(16),
                1 => orig ^ 1 << r.below(16),
                _ => spread(r.u64()),
            };
            crate::mutate::set_i32(&mut b, s.off, f);
            judge_input(&b, "other flags", Some(&[K::FlagsBad]), t);
        }
    });
}
