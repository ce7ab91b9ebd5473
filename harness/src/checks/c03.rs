//! Primitive values are decoded exactly.

use super::place::{PLACES, place, uniform};
use crate::cx::{Cx, Tally};
use crate::doc::gen_prim;
use crate::judge;
use crate::mval::MVal;
use crate::real;
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;

fn check(p: usize, vals: &[MVal], r: &mut Rng, t: &mut Tally) {
    let (w, want) = place(p, vals, r);
    t.eval(&w.buf, true);
    t.nd(&format!("place: {}", PLACES[p]));
    t.add("values compared", vals.len() as u64);
    let got = real::run(&w.buf);
    if let Some(why) = judge::wrong_value(&got, &want) {
        t.bad(&w.buf, format!("{}: {why}", PLACES[p]), String::new());
    }
    t.sample(|| format!("{}: {} -> {}", PLACES[p], hex(&w.buf), got.brief()));
}

fn edges(c: u8) -> Vec<MVal> {
    let i64s = |max: u32| -> Vec<i64> {
        let mut v = vec![0, -1];
        for s in 0..max {
            v.push(1i64 << s);
            v.push((1i64 << s).wrapping_sub(1));
            v.push((1i64 << s).wrapping_neg());
            v.push(!(0x5aa5_0f0f_1234_5678u64 << s) as i64);
        }
        v
    };
    match c {
        P_BOOL => vec![MVal::Bool(false), MVal::Bool(true)],
        P_BYTE => (0..=255).map(MVal::Byte).collect(),
        P_I8 => (0..=255u8).map(|b| MVal::I8(b as i8)).collect(),
        P_CHAR => "\0\u{1}\t\n az\u{7f}\u{80}\u{ff}\u{7ff}\u{800}\u{d7ff}\u{e000}\u{fffd}\u{feff}\u{ffff}\u{10000}\u{10ffff}\u{1f600}"
            .chars()
            .map(MVal::Char)
            .collect(),
        P_DEC => ["0", "1", "-1", "0.5", "12.50", "79228162514264337593543950335", "-0.0000000000000000000000000001"]
            .iter()
            .map(|s| MVal::Dec(s.to_string()))
            .collect(),
        P_I16 => i64s(16).iter().map(|v| MVal::I16(*v as i16)).collect(),
        P_U16 => i64s(16).iter().map(|v| MVal::U16(*v as u16)).collect(),
        P_I32 => i64s(32).iter().map(|v| MVal::I32(*v as i32)).collect(),
        P_U32 => i64s(32).iter().map(|v| MVal::U32(*v as u32)).collect(),
        P_I64 => i64s(64).iter().map(|v| MVal::I64(*v)).collect(),
        P_U64 => i64s(64).iter().map(|v| MVal::U64(*v as u64)).collect(),
        P_TS => i64s(64).iter().map(|v| MVal::Ts(*v)).collect(),
        // kind bits 3 are not used by .NET
        P_DT => i64s(64).iter().map(|v| MVal::Dt(if *v as u64 >> 62 == 3 { *v & 0x3fff_ffff_ffff_ffff } else { *v })).collect(),
        P_SINGLE => {
            let mut v = vec![];
            for s in 0..2u32 {
                for e in 0..256u32 {
                    for m in [0, 1, 0x40_0000, 0x3f_ffff, 0x7f_ffff] {
                        v.push(MVal::Single(s << 31 | e << 23 | m));
                    }
                }
            }
            v
        }
        _ => {
            let mut v = vec![];
            for s in 0..2u64 {
                for e in (0..2048u64).step_by(7).chain([2046, 2047]) {
                    for m in [0, 1, 1 << 51, (1 << 51) - 1, (1 << 52) - 1, 0x0807_0605_0403] {
                        v.push(MVal::Double(s << 63 | e << 52 | m));
                    }
                }
            }
            v
        }
    }
}

fn not_kind3(v: MVal) -> MVal {
    match v {
        MVal::Dt(x) if x as u64 >> 62 == 3 => MVal::Dt(x & 0x7fff_ffff_ffff_ffff),
        v => v,
    }
}

pub fn run(cx: &Cx) {
    cx.rule(
        "A case is one message which carries known primitive values at one of 16 kinds of places; the values which come back \
         are compared bit by bit. Every case is non-trivial (at least one value is compared, or one invalid encoding has to be \
         rejected); distinct by its bytes.",
    );
    // every edge value of every type in every place
    let jobs: Vec<(u8, usize)> = PRIMS.iter().flat_map(|c| (0..16).map(move |p| (*c, p))).collect();
    cx.par("edges", jobs.len() as u64, |r, i, t| {
        let (c, p) = jobs[i as usize];
        let e = edges(c);
        if p == 11 {
            for v in &e {
                check(p, std::slice::from_ref(v), r, t);
            }
        } else {
            for chunk in e.chunks(96) {
                check(p, chunk, r, t);
            }
        }
        t.nd(&format!("type: {}", prim_name(c)));
    });
    // all 16-bit numbers, all characters
    cx.par("exhaustive 16 bit", 64, |r, i, t| {
        let lo = i as u32 * 1024;
        let p = [0, 6, 7, 8][i as usize % 4];
        let v: Vec<MVal> = (lo..lo + 1024).map(|x| MVal::I16(x as u16 as i16)).collect();
        check(p, &v, r, t);
        let v: Vec<MVal> = (lo..lo + 1024).map(|x| MVal::U16(x as u16)).collect();
        check(p, &v, r, t);
    });
    cx.exhaustive("all values of Boolean, Byte, SByte, Int16, UInt16 and Char");
    cx.par("exhaustive char", 0x110000 / 4096, |r, i, t| {
        let lo = i as u32 * 4096;
        let v: Vec<MVal> = (lo..lo + 4096).filter_map(char::from_u32).map(MVal::Char).collect();
        if !v.is_empty() {
            check([0, 7, 6, 10][i as usize % 4], &v, r, t);
        }
    });
    // random mixtures
    cx.par("random", cx.cases(360_000, 6_000_000), |r, _, t| {
        let p = r.below(16);
        let n = if r.chance(5) { r.range(1, 200) } else { r.range(1, 12) };
        let vals: Vec<MVal> = if uniform(p) {
            let c = *r.pick(&PRIMS);
            (0..n).map(|_| not_kind3(gen_prim(r, c))).collect()
        } else {
            (0..n)
                .map(|_| {
                    let c = *r.pick(&PRIMS);
                    not_kind3(gen_prim(r, c))
                })
                .collect()
        };
        check(p, &vals, r, t);
    });
    // booleans which are neither, characters which are not UTF-8
    let invalid: Vec<(u8, Vec<u8>)> = (2..=255u8)
        .map(|b| (P_BOOL, vec![b]))
        .chain((0..=0xffffu32).filter_map(|x| {
            let b = [(x >> 8) as u8, x as u8];
            // a lead byte with a wrong second byte, or no lead byte
            let bad = match b[0] {
                0..=0x7f => false,
                0x80..=0xc1 | 0xf5..=0xff => true,
                0xc2..=0xdf | 0xe1..=0xec | 0xee..=0xef | 0xf1..=0xf3 => !(0x80..=0xbf).contains(&b[1]),
                0xe0 => !(0xa0..=0xbf).contains(&b[1]),
                0xed => !(0x80..=0x9f).contains(&b[1]),
                0xf0 => !(0x90..=0xbf).contains(&b[1]),
                0xf4 => !(0x80..=0x8f).contains(&b[1]),
            };
            bad.then(|| (P_CHAR, vec![b[0], b[1], 0x80, 0x80]))
        }))
        .chain((0x00..=0xffu8).filter(|b| !(0x80..=0xbf).contains(b)).flat_map(|b| {
            [
                (P_CHAR, vec![0xe4, 0xb8, b]),
                (P_CHAR, vec![0xf0, 0x9f, b, 0x80]),
                (P_CHAR, vec![0xf0, 0x9f, 0x98, b]),
            ]
        }))
        .collect();
    cx.exhaustive("all bytes which are no Boolean; all wrong first, second and last bytes of a Char");
    cx.par("invalid", invalid.len() as u64, |r, i, t| {
        let (c, bytes) = &invalid[i as usize];
        let reps = if *c == P_BOOL { 16 } else { 1 };
        for k in 0..reps {
            let p = (i as usize + k) % 16;
            let n = if p == 11 { 1 } else { 1 + r.below(3) };
            let vals: Vec<MVal> = (0..n).map(|_| if *c == P_BOOL { MVal::Bool(true) } else { MVal::Char('A') }).collect();
            let (w, _) = place(p, &vals, r);
            let f = if *c == P_BOOL { F::Bool } else { F::Char };
            // the last one: what follows it is known to be harmless
            let s = w.spans.iter().rfind(|s| s.f == f).unwrap();
            // as if the decoder had taken 1, 2, 3 or 4 bytes: the rest must not be acceptable by chance
            let mut b = w.buf[..s.off].to_vec();
            b.extend_from_slice(bytes);
            b.extend_from_slice(&w.buf[s.off + 1..]);
            t.eval(&b, true);
            t.n("invalid encodings offered");
            let got = real::run(&b);
            if let Some(why) = judge::not_rejected(&got, &format!("{bytes:02x?} is no {}", prim_name(*c))) {
                t.bad(&b, format!("{}: {why}", PLACES[p]), String::new());
            }
            // and with nothing but the wrong first byte replaced
            for cut in 1..bytes.len() {
                let mut b = w.buf[..s.off].to_vec();
                b.extend_from_slice(&bytes[..cut]);
                b.extend_from_slice(&w.buf[s.off + 1..]);
                if *c == P_CHAR && std::str::from_utf8(&bytes[..cut]).is_ok() {
                    continue;
                }
                if !matches!(crate::refdec::decode(&b), crate::refdec::Verdict::Reject(..)) {
                    continue;
                }
                t.eval(&b, true);
                t.n("invalid encodings offered");
                let got = real::run(&b);
                if let Some(why) = judge::not_rejected(&got, &format!("{bytes:02x?} is no {}", prim_name(*c))) {
                    t.bad(&b, format!("{}: {why}", PLACES[p]), String::new());
                }
            }
        }
    });
    super::many::run(cx);
}
