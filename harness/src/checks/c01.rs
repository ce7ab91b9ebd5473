//! No input crashes the parser or the users of its result.

use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg};
use crate::{corpus, mutate, real, slot, soup};

/// What a user may do with a message. Returns whether it was accepted.
pub fn use_everything(input: &[u8]) -> Result<bool, String> {
    real::watched(input, || {
        let r = nrbf::RemotingMessage::parse(input);
        match r {
            Err(e) => {
                let e2 = format!("{e}{e:?}");
                std::hint::black_box(e2);
                serde_uses(input, false);
                false
            }
            Ok(m) => {
                let c = m.clone();
                std::hint::black_box(c == m);
                std::hint::black_box(format!("{m:?}").len());
                drop(c);
                match &m {
                    nrbf::RemotingMessage::Value(v) => accessors(v),
                    nrbf::RemotingMessage::MethodCall(c) => c.args.iter().flatten().for_each(accessors),
                    nrbf::RemotingMessage::MethodReturn(r) => r.args.iter().flatten().chain(&r.return_value).for_each(accessors),
                }
                serde_uses(input, true);
                true
            }
        }
    })
}

/// Asks dates and time spans for all they can tell.
fn accessors(v: &nrbf::Value<'_>) {
    match v {
        nrbf::Value::DateTime(d) => {
            std::hint::black_box((d.ticks(), d.kind().is_some()));
        }
        nrbf::Value::TimeSpan(s) => {
            std::hint::black_box(s.value());
        }
        nrbf::Value::Array(a) => a.iter().for_each(accessors),
        nrbf::Value::Object(o) => o.members.values().for_each(accessors),
        _ => (),
    }
}

#[cfg(feature = "serde")]
fn serde_uses(input: &[u8], accepted: bool) {
    use crate::sv;
    use serde::de::IgnoredAny;
    use std::collections::{BTreeMap, HashMap};
    use std::hint::black_box;
    fn of<'a, T: serde::Deserialize<'a>>(input: &'a [u8]) {
        black_box(nrbf::from_slice::<T>(input).is_ok());
    }
    sv::set_input(input);
    of::<sv::Any>(input);
    if !accepted {
        return;
    }
    of::<sv::Opt>(input);
    of::<sv::Struct>(input);
    of::<IgnoredAny>(input);
    of::<i32>(input);
    of::<u8>(input);
    of::<String>(input);
    of::<&str>(input);
    of::<char>(input);
    of::<()>(input);
    of::<Option<f64>>(input);
    of::<Vec<IgnoredAny>>(input);
    of::<Vec<Option<sv::Any>>>(input);
    of::<[IgnoredAny; 2]>(input);
    of::<(IgnoredAny, IgnoredAny, IgnoredAny)>(input);
    of::<HashMap<String, IgnoredAny>>(input);
    of::<BTreeMap<&str, sv::Any>>(input);
}

#[cfg(not(feature = "serde"))]
fn serde_uses(_: &[u8], _: bool) {}

pub fn use_everything_on_small_stack(input: &[u8]) -> Result<bool, String> {
    let v = input.to_vec();
    std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || use_everything(&v))
        .expect("spawn")
        .join()
        .unwrap_or_else(|p| Err(real::panic_text(p)))
}

fn used(b: &[u8], what: &str, t: &mut Tally) {
    t.eval(b, b.len() > 17);
    match use_everything(b) {
        Ok(true) => t.n("accepted, then cloned, compared, formatted, deserialized and dropped"),
        Ok(false) => t.n("rejected, error formatted"),
        Err(p) => t.bad(b, format!("{what}: panics: {p}"), String::new()),
    }
    t.nd(&format!("input: {what}"));
    t.max("longest input", b.len() as u64);
}

pub fn run(cx: &Cx) {
    cx.rule(
        "A case is one input given to the crate, in a thread with a stack of 2 MiB: parsed, and the result cloned, compared, \
         formatted, deserialized into 16 types and dropped, while a handler waits for panics and another process for signals, \
         aborts and standstill. Non-trivial if longer than a header; distinct by its bytes.",
    );
    cx.small_stacks();
    let slow = cfg!(debug_assertions) && cx.part.as_deref() == Some("debug build");
    let scale = |q: u64, th: u64| {
        let n = cx.pick(q, th);
        if slow { n / 4 } else { n }
    };
    // structures first: they need no luck
    let sizes: &[usize] = cx.pick(&[1, 2, 63, 64, 65, 66, 200, 20_000], &[1, 2, 3, 30, 62, 63, 64, 65, 66, 67, 100, 128, 129, 200, 256, 1000, 4000, 20_000, 40_000]);
    for &n in sizes {
        let b = soup::bombs(n);
        cx.par("bombs", b.len() as u64, |_, i, t| {
            let (name, b) = &b[i as usize];
            if b.len() <= slot::CAP {
                used(b, name, t);
            }
        });
    }
    // texts of decimals in which a character of several bytes may lie across any place
    cx.par("nearly decimals", 4 * 72, |r, i, t| {
        let (width, len) = (1 + i as usize % 4, i as usize / 4);
        for at in 0..=len {
            used(&corpus::decimal_message(r, len, at, width), "a character across a decimal", t);
        }
    });
    // every lower bound next to an end of its range, with empty and other dimensions
    const LOW: [i32; 9] = [i32::MIN, i32::MIN + 1, -2, -1, 0, 1, 2, i32::MAX - 1, i32::MAX];
    cx.par("bounds", 81 * 9, |r, i, t| {
        let (low, d) = ([LOW[i as usize % 9], LOW[i as usize / 9 % 9]], i as usize / 81);
        for ty in 3..6 {
            used(&corpus::bounded(r, ty, &[d as i32 % 3, d as i32 / 3], &low), "bounds at the ends of their range", t);
            used(&corpus::bounded(r, ty, &[d as i32 / 3], &low[..1]), "bounds at the ends of their range", t);
        }
    });
    cx.par("corpus", scale(6_000, 600_000), |r, _, t| {
        let (b, what) = corpus::one(r);
        used(&b, what, t);
    });
    cx.par("soup", scale(60_000, 8_000_000), |r, _, t| {
        let b = soup::soup(r);
        if !real::bomb(&b, 0) {
            used(&b, "soup of records", t);
        }
    });
    cx.par("generated", scale(10_000, 600_000), |r, _, t| {
        let w = doc::generate(r, &Cfg::default());
        used(&w.buf, "well-formed message", t);
        for _ in 0..4 {
            let mut b = mutate::any(r, &w);
            if r.chance(30) {
                b = mutate::bytes(r, &b);
            }
            if !real::bomb(&b, 0) {
                used(&b, "altered message", t);
            }
        }
        // two messages spliced
        let v = doc::generate(r, &Cfg::default());
        let mut b = w.buf[..r.below(w.buf.len() + 1)].to_vec();
        b.extend_from_slice(&v.buf[r.below(v.buf.len() + 1)..]);
        if !real::bomb(&b, 0) {
            used(&b, "two messages spliced", t);
        }
    });
    cx.par("prefixes", scale(150, 20_000), |r, _, t| {
        let w = doc::generate(r, &Cfg { size: 25, ..Cfg::default() });
        for k in 0..w.buf.len() {
            used(&w.buf[..k], "prefix", t);
        }
    });
    cx.par("every byte", scale(12, 1_000), |r, _, t| {
        let w = doc::generate(r, &Cfg { size: 12, ..Cfg::default() });
        for k in 0..w.buf.len().min(400) {
            let mut b = w.buf.clone();
            for v in [0, 1, 2, 6, 7, 9, 10, 11, 12, 13, 14, 0x7f, 0x80, 0xff] {
                b[k] = v;
                if !real::bomb(&b, 0) {
                    used(&b, "one byte replaced", t);
                }
            }
        }
    });
    cx.par("random bytes", scale(20_000, 3_000_000), |r, _, t| {
        let n = r.below(200);
        let mut b = if r.chance(80) { vec![0, 1, 0, 0, 0, 0xff, 0xff, 0xff, 0xff, 1, 0, 0, 0, 0, 0, 0, 0] } else { vec![] };
        for _ in 0..n {
            let x = if r.chance(60) { r.below(23) as u8 } else { r.u8() };
            b.push(x);
        }
        if !real::bomb(&b, 0) {
            used(&b, "random bytes", t);
        }
    });
}
