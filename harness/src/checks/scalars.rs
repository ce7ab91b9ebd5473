//! Dates, time spans and decimals mean what .NET wrote.

use nrbf::value::DateTimeKind;
use nrbf::{RemotingMessage, Value};

use super::place::{PLACES, place, uniform};
use crate::corpus;
use crate::cx::{Cx, Tally};
use crate::doc::gen_decimal;
use crate::judge;
use crate::mval::{MMsg, MVal};
use crate::real;
use crate::refdec::{DecText, classify_decimal};
use crate::report::hex;
use crate::rng::Rng;

const DAY: i64 = 864_000_000_000;
const LAST_DAY: i64 = 3_652_058;
const LOW: i64 = (1 << 62) - 1;

#[derive(Default)]
struct Seen {
    dates: u64,
    spans: u64,
    decimals: u64,
}

fn one(v: &Value<'_>, m: &MVal, seen: &mut Seen) -> Result<(), String> {
    match (v, m) {
        (Value::DateTime(d), MVal::Dt(raw)) => {
            seen.dates += 1;
            if d.ticks() != raw & LOW {
                return Err(format!("a DateTime written as {raw:#018x} reports the ticks {} instead of {}", d.ticks(), raw & LOW));
            }
            let kind = match d.kind() {
                None => 0,
                Some(DateTimeKind::Utc) => 1,
                Some(DateTimeKind::Local) => 2,
            };
            let want = (*raw as u64 >> 62) as i32;
            // the fourth combination has no meaning
            if want != 3 && kind != want {
                return Err(format!("a DateTime written as {raw:#018x} reports the kind {kind} instead of {want} (0 none, 1 UTC, 2 local)"));
            }
            // a copy tells the same, and equality is that of what was written
            let c = *d;
            if c.ticks() != d.ticks() || c != *d {
                return Err(format!("a copy of the DateTime {raw:#018x} differs"));
            }
        }
        (Value::TimeSpan(s), MVal::Ts(raw)) => {
            seen.spans += 1;
            if s.value() != *raw {
                return Err(format!("a TimeSpan of {raw} ticks reports {}", s.value()));
            }
        }
        (Value::Decimal(_), MVal::Dec(_)) => seen.decimals += 1,
        (Value::Array(a), MVal::Arr(b)) if a.len() == b.len() => {
            for (x, y) in a.iter().zip(b) {
                one(x, y, seen)?;
            }
        }
        (Value::Object(o), MVal::Obj { members, .. }) if o.members.len() == members.len() => {
            for (k, y) in members {
                let Some(x) = o.members.get(k.as_str()) else { return Err(format!("no member {k:?}")) };
                one(x, y, seen)?;
            }
        }
        (Value::DateTime(_) | Value::TimeSpan(_) | Value::Decimal(_), m) | (_, m @ (MVal::Dt(_) | MVal::Ts(_) | MVal::Dec(_))) => {
            return Err(format!("{} comes back as {v:?}", m.brief()));
        }
        _ => (),
    }
    Ok(())
}

fn check(p: usize, vals: &[MVal], r: &mut Rng, t: &mut Tally) {
    let (w, want) = place(p, vals, r);
    let b = &w.buf;
    t.eval(b, true);
    t.nd(&format!("place: {}", PLACES[p]));
    let mut seen = Seen::default();
    let res = real::watched(b, || -> Result<(), String> {
        let m = RemotingMessage::parse(b).map_err(|e| format!("rejected: {e}"))?;
        let all = |vs: &[Value<'_>], ms: &[MVal], seen: &mut Seen| -> Result<(), String> {
            if vs.len() != ms.len() {
                return Err("another number of arguments".into());
            }
            vs.iter().zip(ms).try_for_each(|(v, m)| one(v, m, seen))
        };
        let none: Vec<Value> = vec![];
        match (&m, &want) {
            (RemotingMessage::Value(v), MMsg::Val(m)) => one(v, m, &mut seen),
            (RemotingMessage::MethodCall(c), MMsg::Call { args, .. }) => {
                all(c.args.as_ref().unwrap_or(&none), args.as_deref().unwrap_or(&[]), &mut seen)
            }
            (RemotingMessage::MethodReturn(c), MMsg::Ret { args, ret, .. }) => {
                all(c.args.as_ref().unwrap_or(&none), args.as_deref().unwrap_or(&[]), &mut seen)?;
                match (&c.return_value, ret) {
                    (Some(v), Some(m)) => one(v, m, &mut seen),
                    (None, None) => Ok(()),
                    _ => Err("return value lost or invented".into()),
                }
            }
            _ => Err("another kind of message".into()),
        }
    });
    let why = match res {
        Ok(Ok(())) => None,
        Ok(Err(e)) => Some(e),
        Err(p) => Some(format!("panics: {p}")),
    };
    t.add("dates compared", seen.dates);
    t.add("time spans compared", seen.spans);
    t.add("decimals found", seen.decimals);
    // what serde sees: the encoded number, the exact text
    let why = why.or_else(|| judge::wrong_value(&real::run(b), &want));
    if let Some(why) = why {
        t.bad(b, format!("{}: {why}", PLACES[p]), String::new());
    }
    t.sample(|| format!("{}: {}", PLACES[p], hex(b)));
}

#[cfg(feature = "serde")]
fn as_numbers(p: usize, raws: &[i64], date: bool, r: &mut Rng, t: &mut Tally) {
    let vals: Vec<MVal> = raws.iter().map(|x| if date { MVal::Dt(*x) } else { MVal::Ts(*x) }).collect();
    let (w, _) = place(p, &vals, r);
    let got = real::watched(&w.buf, || nrbf::from_slice::<Vec<i64>>(&w.buf).map_err(|e| e.to_string()));
    t.add("encoded numbers compared with what serde sees", raws.len() as u64);
    if got.as_ref().ok().and_then(|g| g.as_ref().ok()).map(Vec::as_slice) != Some(raws) {
        let at = got.as_ref().ok().and_then(|g| g.as_ref().ok()).and_then(|g| g.iter().zip(raws).find(|(a, b)| a != b)).map(|(a, b)| format!(": {b} arrives as {a}"));
        t.bad(&w.buf, format!("{}: serde does not see the encoded numbers{}", PLACES[p], at.unwrap_or_default()), String::new());
    }
}

fn kinded(ticks: i64, kind: u64) -> i64 {
    ticks | ((kind << 62) as i64)
}

/// .NET's text for mantissa / 10^scale.
fn decimal_text(m: u128, scale: usize, neg: bool) -> String {
    let mut s = m.to_string();
    if scale > 0 {
        while s.len() <= scale {
            s.insert(0, '0');
        }
        s.insert(s.len() - scale, '.');
    }
    if neg && m != 0 {
        s.insert(0, '-');
    }
    s
}

const MAX: u128 = (1 << 96) - 1;

fn gen_mantissa(r: &mut Rng) -> u128 {
    match r.below(6) {
        0 => u128::from(r.u64()) % 1000,
        1 => {
            // a number of digits
            let d = r.range(1, 29) as u32;
            let hi = 10u128.pow(d).min(MAX + 1);
            let lo = if d == 1 { 0 } else { 10u128.pow(d - 1) };
            lo + ((u128::from(r.u64()) << 64 | u128::from(r.u64())) % (hi - lo))
        }
        2 => {
            // next to powers of two and ten
            let base = if r.chance(50) { 1u128 << r.below(97) } else { 10u128.pow(r.below(29) as u32) };
            (base + r.below(3) as u128).saturating_sub(1).min(MAX)
        }
        3 => {
            // trailing zeros
            let z = r.below(20) as u32;
            ((u128::from(r.u64()) % 1_000_000_000) * 10u128.pow(z)).min(MAX)
        }
        4 => MAX - u128::from(r.u64() % 100),
        _ => (u128::from(r.u64()) << 64 | u128::from(r.u64())) & MAX,
    }
}

pub fn c18(cx: &Cx) {
    cx.rule(
        "A case is one message which carries known dates, time spans or decimals at one of 16 kinds of places. Ticks, kind, \
         span and the text of decimals are compared with what was written; texts which are no decimal have to be rejected. \
         Distinct by its bytes.",
    );
    // every day of the calendar
    let per = 4096;
    let blocks = (LAST_DAY + 1 + per - 1) / per;
    let rounds = cx.pick(1, 12);
    cx.par("every day", (blocks * rounds) as u64, |r, i, t| {
        let round = i as i64 / blocks;
        let from = (i as i64 % blocks) * per;
        let raws: Vec<i64> = (from..(from + per).min(LAST_DAY + 1))
            .map(|d| {
                let within = match (round + d) % 4 {
                    0 => 0,
                    1 => DAY - 1,
                    2 => (r.u64() % 86400) as i64 * 10_000_000,
                    _ => (r.u64() % DAY as u64) as i64,
                };
                kinded(d * DAY + within, ((round + d) % 3) as u64)
            })
            .collect();
        t.max("latest tick", (raws.iter().map(|x| x & LOW).max().unwrap_or(0)) as u64);
        t.add("days", raws.len() as u64);
        let vals: Vec<MVal> = raws.iter().map(|x| MVal::Dt(*x)).collect();
        check([0, 7, 6, 8, 4, 1][i as usize % 6], &vals, r, t);
        #[cfg(feature = "serde")]
        as_numbers([0, 6, 7][i as usize % 3], &raws, true, r, t);
    });
    cx.exhaustive(if cx.thorough { "every day of the calendar with every kind" } else { "every day of the calendar, with one of the kinds" });
    // ticks and kinds bit by bit
    cx.par("bits", 62 * 4, |r, i, t| {
        let (bit, kind) = (i as i64 / 4, i % 4);
        let raws: Vec<i64> = [1i64 << bit, (1 << bit) - 1, LOW & !(1 << bit), LOW ^ ((1 << bit) - 1), LOW & (0x5555_5555_5555_5555 << (bit & 1))]
            .map(|x| kinded(x & LOW, kind))
            .to_vec();
        let vals: Vec<MVal> = raws.iter().map(|x| MVal::Dt(*x)).collect();
        for p in 0..16 {
            check(p, if p == 11 { &vals[..1] } else { &vals }, r, t);
        }
        #[cfg(feature = "serde")]
        as_numbers(0, &raws, true, r, t);
        let raws: Vec<i64> = [1i64 << bit, -(1i64 << bit), (1i64 << bit) - 1, i64::MAX - (1 << bit), i64::MIN + (1 << bit), i64::MIN, i64::MAX, -1, 0].to_vec();
        let vals: Vec<MVal> = raws.iter().map(|x| MVal::Ts(*x)).collect();
        for p in 0..16 {
            check(p, if p == 11 { &vals[..1] } else { &vals }, r, t);
        }
        #[cfg(feature = "serde")]
        as_numbers(0, &raws, false, r, t);
    });
    // random mixtures
    cx.par("random", cx.cases(180_000, 3_000_000), |r, _, t| {
        let p = r.below(16);
        let n = if p == 11 { 1 } else { r.range(1, 24) };
        let which = r.below(3);
        let vals: Vec<MVal> = (0..n)
            .map(|_| match if uniform(p) { which } else { r.below(3) } {
                0 => {
                    let ticks = match r.below(3) {
                        0 => (r.u64() % ((LAST_DAY + 1) * DAY) as u64) as i64,
                        1 => r.u64() as i64 & LOW,
                        _ => (1970 + r.below(100)) as i64 * 365 * DAY + (r.u64() % DAY as u64) as i64,
                    };
                    MVal::Dt(kinded(ticks, r.u64() % 3))
                }
                1 => MVal::Ts(if r.chance(50) { r.u64() as i64 } else { (r.u64() as i64) >> r.below(63) }),
                _ => MVal::Dec(decimal_text(gen_mantissa(r), r.below(29), r.chance(50))),
            })
            .collect();
        check(p, &vals, r, t);
    });
    // every number of digits with every scale and sign
    cx.par("digits and scales", 30 * 29, |r, i, t| {
        let (digits, scale) = ((i / 29) as u32, (i % 29) as usize);
        let mut vals = vec![];
        let hi = if digits == 0 { 1 } else { 10u128.pow(digits).min(MAX + 1) };
        let lo = if digits <= 1 { 0 } else { 10u128.pow(digits - 1) };
        for k in 0..cx.pick(12, 400) {
            let m = match k {
                0 => lo,
                1 => hi - 1,
                2 => lo + (hi - lo) / 2,
                _ => lo + (u128::from(r.u64()) << 64 | u128::from(r.u64())) % (hi - lo),
            };
            for neg in [false, true] {
                let s = decimal_text(m, scale, neg);
                t.nd(&format!("decimals with {:02} characters", s.len()));
                vals.push(MVal::Dec(s));
            }
        }
        for c in vals.chunks(24) {
            let p = [0, 1, 3, 4, 6, 7, 10, 12, 13][r.below(9)];
            check(p, c, r, t);
        }
    });
    cx.exhaustive("every pair of a number of digits (up to 29) and a scale (up to 28), with either sign");
    // texts which are no decimals
    let listed: Vec<String> = [
        "", " ", "-", "+", ".", "-.", "--1", "-+1", "1-", "1+2", " 1", "1 ", "1,5", "1,000", "1.2.3", "..", "1..2", "0x10", "NaN", "nan", "Infinity",
        "-Infinity", "∞", "null", "true", "abc", "12a", "a12", "1 2", "1\n", "\t1", "١٢٣", "１２", "1/2", "1:2", "$1", "1%", "1\0", "\01", "½", "−1", "0b1", "1f", "1m", "1d", "#1", "'1'", "\"1\"", "1'000", "_", "._",
        "79228162514264337593543950336", "-79228162514264337593543950336", "79228162514264337593543950336.5", "80000000000000000000000000000",
        "99999999999999999999999999999", "100000000000000000000000000000", "-100000000000000000000000000000", "340282366920938463463374607431768211455", "340282366920938463463374607431768211456",
        "18446744073709551616000000000000", "79228162514264337593543950336.0", "99999999999999999999999999999.9",
    ]
    .iter()
    .map(|s| s.to_string())
    .chain((30..64).map(|n| "1".to_string() + &"0".repeat(n - 1)))
    .chain((30..64).map(|n| "9".repeat(n)))
    .chain((65..70).chain([100, 127, 128, 129, 255, 256, 1000, 16384]).flat_map(|n| ["x".repeat(n), "9".repeat(n), format!("-{}", "8".repeat(n))]))
    .collect();
    let n_listed = listed.len() as u64;
    cx.par("no decimals", n_listed + cx.cases(120_000, 2_000_000), |r, i, t| {
        let s = if i < n_listed {
            listed[i as usize].clone()
        } else if i % 4 == 0 {
            let len = r.range(1, 72);
            let (at, width) = (r.below(len), r.range(2, 4));
            corpus::odd_decimal(r, len, at, width)
        } else {
            let mut s: Vec<char> = if r.chance(30) { decimal_text(gen_mantissa(r), r.below(29), r.chance(50)) } else { gen_decimal(r) }.chars().collect();
            for _ in 0..r.range(1, 3) {
                let at = r.below(s.len() + 1);
                let c = *r.pick(&['-', '+', '.', ',', ' ', 'a', 'x', '\0', '_', 'é', '０', '9', '/', ':', ';', '\u{a0}', '\'']);
                match r.below(4) {
                    0 if at < s.len() => s[at] = c,
                    1 => {
                        for _ in 0..r.range(1, 31) {
                            s.insert(at, '9');
                        }
                    }
                    _ => s.insert(at, c),
                }
            }
            s.into_iter().collect()
        };
        if classify_decimal(&s) != DecText::Bad {
            t.n("altered texts which may be decimals");
            return;
        }
        for _ in 0..if i < n_listed { 16 } else { 1 } {
            let p = r.below(16);
            let n = if p == 11 { 1 } else { r.range(1, 3) };
            let mut vals: Vec<MVal> = (0..n).map(|_| MVal::Dec(gen_decimal(r))).collect();
            let at = r.below(n);
            vals[at] = MVal::Dec(s.clone());
            let (w, _) = place(p, &vals, r);
            t.eval(&w.buf, true);
            t.n("texts which are no decimal offered");
            if let Some(why) = judge::not_rejected(&real::run(&w.buf), &format!("{s:?} is no decimal")) {
                t.bad(&w.buf, format!("{}: {why}", PLACES[p]), String::new());
            }
        }
    });
    super::many::run(cx);
}
