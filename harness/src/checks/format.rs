//! Whole messages only (C13), and codes, ids and counts outside the format (C15).

use super::place::{PLACES, message, place, uniform};
use super::verdicts::judge_input;
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg, gen_prim};
use crate::judge;
use crate::mutate::{get_i32, set_i32};
use crate::mval::MVal;
use crate::real;
use crate::refdec::{self, K, Verdict};
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;

fn refuse(b: &[u8], rule: &str, t: &mut Tally) {
    t.eval(b, true);
    let got = real::run(b);
    if let Some(why) = judge::not_rejected(&got, rule) {
        t.bad(b, why, String::new());
    }
}

/// Any well-formed message: generated, or a simple one with a value in a known place.
fn some_message(r: &mut Rng, size: usize) -> W {
    match r.below(4) {
        0 => {
            let p = r.below(16);
            let n = r.range(1, 4);
            let c = *r.pick(&PRIMS);
            let vals: Vec<MVal> = (0..n)
                .map(|_| {
                    let c = if uniform(p) { c } else { *r.pick(&PRIMS) };
                    gen_prim(r, c)
                })
                .collect();
            place(p, &vals, r).0
        }
        _ => {
            let cfg = Cfg { size, calls: 30, ..Cfg::default() };
            doc::generate(r, &cfg)
        }
    }
}

pub fn c13(cx: &Cx) {
    cx.rule(
        "A case is a proper prefix of an accepted message, an accepted message with bytes behind its end or between its records, \
         or one with another version, root id or first byte; all have to be rejected (insertions as the reference decoder says). \
         Distinct by its bytes.",
    );
    cx.par("prefixes and suffixes", cx.cases(6_000, 400_000), |r, _, t| {
        let size = *r.pick(&[3, 10, 25]);
        let w = some_message(r, size);
        let b = &w.buf;
        let got = real::run(b);
        if !got.accepted() {
            t.n("base message not accepted");
            return;
        }
        t.n("accepted messages cut and extended");
        let step = if b.len() > 1500 { b.len() / 700 } else { 1 };
        let mut n = 0;
        while n < b.len() {
            t.n("proper prefixes offered");
            refuse(&b[..n], &format!("it is the first {n} of {} bytes of an accepted message", b.len()), t);
            n += step;
        }
        t.n("proper prefixes offered");
        refuse(&b[..b.len() - 1], "the end record of an accepted message is missing", t);
        let mut longer = b.clone();
        longer.push(0);
        let last = longer.len() - 1;
        for x in 0..=255u8 {
            longer[last] = x;
            t.n("messages with a byte behind the end offered");
            refuse(&longer, &format!("byte {x:#04x} follows the end record"), t);
        }
        for k in 0..6 {
            let mut l = b.clone();
            match k {
                0 => l.extend_from_slice(b),
                1 => l.extend_from_slice(&b[17..]),
                2 => l.extend_from_slice(&[0; 16]),
                3 => l.extend((0..r.range(1, 40)).map(|_| r.u8())),
                4 => l.extend_from_slice(&[12, 99, 0, 0, 0, 1, b'L']),
                _ => l.extend_from_slice(&[6, 0x77, 0x77, 0x77, 0x07, 1, b's', 11]),
            }
            t.n("messages with data behind the end offered");
            refuse(&l, "data follows the end record", t);
        }
        t.sample(|| format!("{} bytes, every prefix and every following byte rejected: {}", b.len(), hex(b)));
    });
    // header fields
    cx.par("header", cx.cases(15_000, 400_000), |r, i, t| {
        let w = some_message(r, 6);
        if !matches!(refdec::decode(&w.buf), Verdict::Must(_)) || !real::run(&w.buf).accepted() {
            return;
        }
        let mut b = w.buf.clone();
        let edge = |r: &mut Rng| match r.below(5) {
            0 => *r.pick(&[0, 1, 2, -1, 256, 65536, 1 << 24, i32::MIN, i32::MAX, 257, 0x0100_0000, 0x0101_0101]),
            1 => 1 << r.below(32),
            2 => 1 | 1 << r.below(32),
            3 => !(1 << r.below(32)),
            _ => r.i32(),
        };
        match i % 4 {
            0 => {
                let v = edge(r);
                if v != 1 {
                    set_i32(&mut b, 9, v);
                    t.n("other major versions offered");
                    refuse(&b, &format!("its major version is {v}"), t);
                }
            }
            1 => {
                let v = edge(r);
                if v != 0 {
                    set_i32(&mut b, 13, v);
                    t.n("other minor versions offered");
                    refuse(&b, &format!("its minor version is {v}"), t);
                }
            }
            2 => {
                let v = edge(r) | i32::MIN;
                set_i32(&mut b, 1, v);
                t.n("negative root ids offered");
                refuse(&b, &format!("its root id is {v}"), t);
                let v = get_i32(&w.buf, 1).wrapping_neg();
                if v < 0 {
                    set_i32(&mut b, 1, v);
                    t.n("negative root ids offered");
                    refuse(&b, &format!("its root id is {v}"), t);
                }
            }
            _ => {
                b[0] = 1 + r.below(255) as u8;
                t.n("other first bytes offered");
                refuse(&b, &format!("its first byte is {:#04x}", b[0]), t);
                // no header, half a header, a header too much
                t.n("other headers offered");
                refuse(&w.buf[17..], "it has no header", t);
                let mut two = w.buf[..17].to_vec();
                two.extend_from_slice(&w.buf);
                refuse(&two, "it has two headers", t);
                let mut none = w.buf.clone();
                none.drain(0..1 + r.below(16));
                if none.first() != Some(&0) {
                    refuse(&none, "its header is incomplete", t);
                }
                // header id: anything goes
                let mut h = w.buf.clone();
                let v = edge(r);
                set_i32(&mut h, 5, v);
                t.n("other header ids offered");
                t.eval(&h, true);
                if real::run(&h) != real::run(&w.buf) {
                    t.bad(&h, format!("the header id {v} changes the result"), String::new());
                }
            }
        }
    });
    if cx.thorough {
        cx.exhaustive("all 2^32 major and minor versions and all 2^31 negative root ids, of a message with one string");
        cx.par("all versions", 1 << 16, |_, i, t| {
            let base = message(|w| w.obj_str(true, 1, "s", 0)).buf;
            for (off, fine) in [(9usize, 1i32), (13, 0), (1, i32::MAX)] {
                let mut b = base.clone();
                for lo in 0..=0xffffu32 {
                    let v = ((i as u32) << 16 | lo) as i32;
                    if v == fine || off == 1 && v >= 0 {
                        continue;
                    }
                    set_i32(&mut b, off, v);
                    if nrbf::RemotingMessage::parse(&b).is_ok() {
                        t.bad(&b, format!("accepted although the header field at offset {off} is {v}"), String::new());
                    }
                }
                t.add("header values tried completely", 65536);
            }
        });
    }
    // between the records
    cx.par("between records", cx.cases(6_000, 300_000), |r, _, t| {
        let w = some_message(r, 10);
        if !matches!(refdec::decode(&w.buf), Verdict::Must(_)) {
            return;
        }
        let mut at: Vec<usize> = w.recs.iter().flat_map(|(a, b)| [*a, *b]).collect();
        at.dedup();
        if at.is_empty() {
            at = vec![17, w.buf.len() - 1];
        }
        for _ in 0..12 {
            let p = *r.pick(&at);
            let mut b = w.buf.clone();
            match r.below(4) {
                0 | 1 => b.insert(p, r.u8()),
                2 => {
                    let x = *r.pick(&[0u8, 8, 9, 10, 11, 13, 14]);
                    b.insert(p, x);
                }
                _ => {
                    // a piece which would be fine elsewhere
                    let piece: &[u8] = match r.below(5) {
                        0 => &[10],
                        1 => &[13, 1],
                        2 => &[8, 8, 1, 0, 0, 0],
                        3 => &[9, 1, 0, 0, 0],
                        _ => &[11],
                    };
                    b.splice(p..p, piece.iter().copied());
                }
            }
            t.n("messages with something between two records offered");
            judge_input(&b, "inserted between two records", None, t);
        }
    });
}

const C15_KINDS: [K; 12] =
    [K::Tag, K::PrimType, K::BinType, K::ArrType, K::ObjId, K::RefId, K::MetaId, K::NullCount, K::NegLen, K::NegDim, K::NegCount, K::StrCode];

fn wrong_values(r: &mut Rng, f: F, all: bool) -> Vec<i64> {
    use F::*;
    match f {
        TopTag | MemberTag | EndTag | HeaderTag | LibTag | BinType | PrimTypeMember | PrimTypeTyped | PrimTypeArray
        | PrimTypePrimArray | PrimTypeArg | ArrType | StrCode => {
            if all {
                (0..256).collect()
            } else {
                let mut v: Vec<i64> = vec![0, 4, 6, 8, 17, 18, 19, 23, 255];
                for _ in 0..4 {
                    v.push(r.below(256) as i64);
                }
                v
            }
        }
        NullCount256 => vec![0],
        ObjId | RefId | MetaId | NullCount => {
            let mut v = vec![0, -1, i32::MIN as i64];
            v.push((r.i32() | i32::MIN) as i64);
            v
        }
        ArrLen | MemberCount | ArgCount | Rank | Dim => {
            let mut v = vec![-1, i32::MIN as i64, -2, -256];
            v.push((r.i32() | i32::MIN) as i64);
            v
        }
        _ => vec![],
    }
}

fn offer(r: &mut Rng, w: &W, s: &Span, all: bool, what: &str, t: &mut Tally) {
    let orig = if s.len == 4 { get_i32(&w.buf, s.off) as i64 } else { w.buf[s.off] as i64 };
    let mut values = wrong_values(r, s.f, all);
    if s.len == 4 && !values.is_empty() && orig > 0 {
        // the same, with the other sign
        values.push(-orig);
        values.push(orig | i32::MIN as i64);
    }
    for v in values {
        if v == orig {
            continue;
        }
        let mut b = w.buf.clone();
        if s.len == 4 {
            set_i32(&mut b, s.off, v as i32);
        } else {
            b[s.off] = v as u8;
        }
        t.nd(&format!("offered: {:?}", s.f));
        judge_input(&b, &format!("{what}: {:?} at offset {} is {v}", s.f, s.off), Some(&C15_KINDS), t);
    }
}

pub fn c15(cx: &Cx) {
    cx.rule(
        "A case is a well-formed message with one code, id or count replaced; it counts if the reference decoder says that it is \
         outside of the format at that place (then it has to be rejected) or still well-formed (then its value is compared). \
         Distinct by its bytes.",
    );
    // every place, every field, every code
    let jobs: Vec<(usize, u8)> = (0..16).flat_map(|p| PRIMS.iter().map(move |c| (p, *c))).collect();
    cx.exhaustive("every byte value for every code of the 16 kinds of places times 15 primitive types");
    cx.par("places", jobs.len() as u64, |r, i, t| {
        let (p, c) = jobs[i as usize];
        let vals: Vec<MVal> = (0..if p == 11 { 1 } else { 2 }).map(|_| gen_prim(r, c)).collect();
        let (w, _) = place(p, &vals, r);
        for s in &w.spans {
            offer(r, &w, s, true, PLACES[p], t);
        }
    });
    // the types null and string where only primitives may be declared, also with data as if they were accepted
    cx.par("null and string", 6 * 2 * 6, |r, i, t| {
        let ty = [P_NULL, P_STR][i as usize % 2];
        let kind = i as usize / 2 % 6;
        let n = i as usize / 12;
        let body = |w: &mut W, with_text: bool| {
            if with_text {
                for _ in 0..n {
                    w.str(F::StrText, "text");
                }
            }
        };
        for with_text in [false, true] {
            let w = message(|w| match kind {
                0 => {
                    w.u8(F::TopTag, 15);
                    w.i32(F::ObjId, 1);
                    w.i32(F::ArrLen, n as i32);
                    w.u8(F::PrimTypePrimArray, ty);
                    body(w, with_text);
                }
                1 => {
                    w.u8(F::TopTag, 7);
                    w.i32(F::ObjId, 1);
                    w.u8(F::ArrType, 0);
                    w.i32(F::Rank, 1);
                    w.i32(F::Dim, n as i32);
                    w.u8(F::BinType, 0);
                    w.u8(F::PrimTypeArray, ty);
                    body(w, with_text);
                }
                2 => {
                    super::place::class_head(w, true, 4, 1, "C", &super::place::names(n));
                    for _ in 0..n {
                        w.u8(F::BinType, 0);
                    }
                    for _ in 0..n {
                        w.u8(F::PrimTypeMember, ty);
                    }
                    body(w, with_text);
                }
                3 => {
                    w.u8(F::TopTag, 16);
                    w.i32(F::ObjId, 1);
                    w.i32(F::ArrLen, n as i32);
                    for _ in 0..n {
                        w.u8(F::MemberTag, 8);
                        w.u8(F::PrimTypeTyped, ty);
                        if with_text {
                            w.str(F::StrText, "text");
                        }
                    }
                }
                4 => {
                    super::place::class_head(w, true, 2, 1, "C", &super::place::names(n));
                    for _ in 0..n {
                        w.u8(F::MemberTag, 8);
                        w.u8(F::PrimTypeTyped, ty);
                        if with_text {
                            w.str(F::StrText, "text");
                        }
                    }
                }
                _ => {
                    // a member which refers to a primitive array of that type
                    super::place::class_head(w, true, 4, 1, "C", &super::place::names(n));
                    for _ in 0..n {
                        w.u8(F::BinType, 7);
                    }
                    for _ in 0..n {
                        w.u8(F::PrimTypeMember, ty);
                    }
                    for k in 0..n {
                        w.member_ref(10 + k as i32);
                    }
                    for k in 0..n {
                        w.u8(F::TopTag, 15);
                        w.i32(F::ObjId, 10 + k as i32);
                        w.i32(F::ArrLen, 1);
                        w.u8(F::PrimTypePrimArray, ty);
                        if with_text {
                            w.str(F::StrText, "text");
                        }
                    }
                }
            });
            if n > 0 {
                t.n("members and elements of primitive type null or string offered");
                refuse(&w.buf, &format!("it declares members or elements of the primitive type {}", prim_name(ty)), t);
            } else {
                judge_input(&w.buf, "null or string as primitive type", None, t);
            }
        }
        let _ = r;
    });
    // lists of dimensions of which some are negative, next to empty ones and others, with elements as if they were not
    const DIMS: [i32; 6] = [-1, i32::MIN, 0, 1, 2, -3];
    let lists: Vec<Vec<i32>> = (1..=4u32)
        .flat_map(|rank| {
            (0..6usize.pow(rank)).map(move |i| (0..rank).map(|k| DIMS[i / 6usize.pow(k) % 6]).collect::<Vec<i32>>())
        })
        .filter(|d| d.iter().any(|x| *x < 0))
        .collect();
    cx.exhaustive("all lists of up to four dimensions from -2^31, -3, -1, 0, 1, 2 with a negative one, in all array types");
    cx.par("negative dimensions", lists.len() as u64, |_, i, t| {
        let dims = &lists[i as usize];
        let product = |f: &dyn Fn(i32) -> usize| dims.iter().map(|d| f(*d)).product::<usize>();
        let mut bodies = vec![
            0,
            product(&|d| d.max(0) as usize),
            product(&|d| d.max(1) as usize),
            product(&|d| if d == i32::MIN { 1 } else { d.unsigned_abs() as usize }),
        ];
        bodies.sort();
        bodies.dedup();
        for ty in 0..6u8 {
            for elem in 0..3u8 {
                for n in &bodies {
                    let w = message(|w| {
                        w.u8(F::TopTag, 7);
                        w.i32(F::ObjId, 1);
                        w.u8(F::ArrType, ty);
                        w.i32(F::Rank, dims.len() as i32);
                        for d in dims {
                            w.i32(F::Dim, *d);
                        }
                        if ty >= 3 {
                            for k in 0..dims.len() {
                                w.i32(F::LowerBound, k as i32);
                            }
                        }
                        w.u8(F::BinType, elem);
                        if elem == 0 {
                            w.u8(F::PrimTypeArray, P_BYTE);
                        }
                        for k in 0..*n {
                            match elem {
                                0 => w.prim(&MVal::Byte(k as u8)),
                                1 => w.obj_str(false, 10 + k as i32, "e", 0),
                                _ => w.typed_prim(&MVal::Bool(true)),
                            }
                        }
                    });
                    t.n("arrays with negative dimensions offered");
                    refuse(&w.buf, &format!("the dimensions of its array are {dims:?}"), t);
                }
            }
        }
    });
    // whole messages
    let cfg = Cfg { size: 25, calls: 25, ..Cfg::default() };
    cx.par("documents", cx.cases(12_000, 700_000), |r, i, t| {
        let w = doc::generate(r, &cfg);
        if !matches!(refdec::decode(&w.buf), Verdict::Must(_) | Verdict::May(..)) {
            return;
        }
        let all = i % 40 == 0;
        for k in 0..if all { 6 } else { 14 } {
            let s = *r.pick(&w.spans);
            let _ = k;
            offer(r, &w, &s, all, "document", t);
        }
    });
}
