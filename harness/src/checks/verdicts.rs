//! Workloads which are judged by the reference decoder.

use crate::cx::Tally;
use crate::judge;
use crate::mutate::{get_i32, is_code, is_id, is_i32, set_i32};
use crate::real;
use crate::refdec::{self, K, Verdict};
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;

/// Judges one input. With `kinds`, rejections are only demanded for these reasons.
pub fn judge_input(b: &[u8], what: &str, kinds: Option<&[K]>, t: &mut Tally) -> Option<Verdict> {
    let v = refdec::decode(b);
    if !refdec::safe(b, &v) {
        t.n("inputs not judged: too large for the monitor");
        return None;
    }
    match &v {
        Verdict::Any(_) => {
            t.n("inputs not judged: unspecified");
            return Some(v);
        }
        Verdict::Reject(k, _) => {
            if kinds.is_some_and(|ks| !ks.contains(k)) {
                t.n("inputs not judged: rejected for a reason of another property");
                return Some(v);
            }
            t.nd(&format!("had to be rejected: {k:?}"));
        }
        Verdict::Must(m) => {
            t.n("had to be accepted and compared");
            if let crate::mval::MMsg::Val(x) = m {
                t.add("values compared", x.count() as u64);
                t.max("highest nesting", x.height() as u64);
            }
        }
        Verdict::May(..) => t.n("compared if accepted"),
    }
    t.eval(b, true);
    let got = real::run(b);
    if let Some(why) = judge::wrong(&got, &v) {
        t.bad(b, format!("{what}: {why}"), format!("reference: {}", v.name()));
    }
    if b.len() < 200 {
        t.sample(|| format!("{what}: {} -> {} (reference: {})", hex(b), got.brief(), v.name()));
    }
    Some(v)
}

/// Another value for a field.
pub fn new_value(r: &mut Rng, w: &W, s: &Span) -> Vec<u8> {
    let mut b = w.buf.clone();
    if is_id(s.f) {
        let v = get_i32(&b, s.off);
        let n = match r.below(8) {
            0..=3 => {
                let others: Vec<&Span> = w.spans.iter().filter(|x| is_id(x.f)).collect();
                get_i32(&w.buf, r.pick(&others).off)
            }
            4 => v.wrapping_add(*r.pick(&[1, -1])),
            5 => *r.pick(&[1, 2, 3, i32::MAX]),
            6 => *r.pick(&[0, -1, i32::MIN, v.wrapping_neg()]),
            _ => v ^ (1 << r.below(31)),
        };
        set_i32(&mut b, s.off, n);
    } else if is_i32(s.f) {
        let v = get_i32(&b, s.off);
        let n = match r.below(5) {
            0 => v.wrapping_add(1),
            1 => v.wrapping_sub(1),
            2 => *r.pick(&[0, -1, 1, 2, 3, 255, 256, i32::MAX, i32::MIN]),
            3 => v ^ (1 << r.below(32)),
            _ => r.below(9) as i32,
        };
        set_i32(&mut b, s.off, n);
    } else if is_code(s.f) {
        b[s.off] = match r.below(3) {
            0 => b[s.off].wrapping_add(*r.pick(&[1, 255])),
            1 => r.below(24) as u8,
            _ => r.u8(),
        };
    } else if s.len > 0 {
        // text: another text of the same kind
        let same: Vec<&Span> =
            w.spans.iter().filter(|x| x.f == s.f && x.len == s.len && w.buf[x.off..x.off + x.len] != w.buf[s.off..s.off + s.len]).collect();
        if !same.is_empty() && r.chance(50) {
            let o = r.pick(&same);
            let x = w.buf[o.off..o.off + o.len].to_vec();
            b[s.off..s.off + s.len].copy_from_slice(&x);
        } else {
            let i = s.off + r.below(s.len);
            b[i] = if b[i].is_ascii() { b'a' + r.below(26) as u8 } else { b[i] };
        }
    }
    b
}

/// Changes up to `max` fields of these kinds, one at a time.
pub fn field_mutants(r: &mut Rng, w: &W, fields: &[F], max: usize, kinds: Option<&[K]>, t: &mut Tally) {
    let spans: Vec<&Span> = w.spans.iter().filter(|s| fields.contains(&s.f)).collect();
    if spans.is_empty() {
        return;
    }
    for _ in 0..max {
        let s = r.pick(&spans);
        let b = new_value(r, w, s);
        if b != w.buf {
            t.nd(&format!("changed field: {:?}", s.f));
            judge_input(&b, &format!("{:?} at offset {} changed", s.f, s.off), kinds, t);
        }
    }
}

/// Gives every object a new id, consistently.
pub fn renumber(r: &mut Rng, w: &W, libs: bool) -> Vec<u8> {
    let mut b = w.buf.clone();
    let mut map: std::collections::HashMap<(bool, i32), i32> = Default::default();
    let mut used: std::collections::HashSet<(bool, i32)> = Default::default();
    let mode = r.below(3);
    let mut next = 0;
    for s in &w.spans {
        if !is_id(s.f) {
            continue;
        }
        let lib = matches!(s.f, F::LibId | F::LibUse);
        if lib && !libs || !lib && libs {
            continue;
        }
        let v = get_i32(&b, s.off);
        if v <= 0 {
            continue;
        }
        let n = *map.entry((lib, v)).or_insert_with(|| {
            loop {
                let n = match mode {
                    0 => {
                        next += 1;
                        next
                    }
                    1 => 1 + r.below(10_000) as i32,
                    _ => ((r.u32() >> 1) as i32).max(1),
                };
                if used.insert((lib, n)) {
                    return n;
                }
            }
        });
        set_i32(&mut b, s.off, n);
    }
    b
}
