//! Memory and work stay proportional to the input.

use crate::alloc::{Used, measured};
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg};
use crate::{mutate, real, slot, soup};

/// What an input may cost. All limits are several times what the tree needed when they were set.
const STEPS_PER_BYTE: u64 = 2_000;
const STEPS_PER_NULL: u64 = 600;
const STEPS_BASE: u64 = 40_000;
const PEAK_PER_BYTE: u64 = 2_000;
const PEAK_PER_NULL: u64 = 1_000;
const PEAK_BASE: u64 = 300_000;

/// Parses, and drops the result.
pub fn cost(input: &[u8]) -> Result<(bool, Used), String> {
    slot::enter(input);
    let r = std::panic::catch_unwind(|| measured(|| nrbf::RemotingMessage::parse(input).is_ok()));
    slot::leave();
    r.map_err(real::panic_text)
}

/// Deserializes into something that keeps nothing.
#[cfg(feature = "serde")]
fn cost_serde(input: &[u8], list: bool) -> Result<(bool, Used), String> {
    use serde::de::IgnoredAny;
    slot::enter(input);
    let r = std::panic::catch_unwind(|| {
        measured(|| {
            if list { nrbf::from_slice::<Vec<IgnoredAny>>(input).is_ok() } else { nrbf::from_slice::<IgnoredAny>(input).is_ok() }
        })
    });
    slot::leave();
    r.map_err(real::panic_text)
}

#[cfg(not(feature = "serde"))]
fn cost_serde(_: &[u8], _: bool) -> Result<(bool, Used), String> {
    Ok((false, Used::default()))
}

/// At most this many nulls can be placed by runs, and this many bytes of names can be repeated.
fn allowance(b: &[u8]) -> (u64, u64) {
    let int = |i: usize| b.get(i..i + 4).map(|x| i32::from_le_bytes(x.try_into().unwrap())).unwrap_or(-1);
    // A class has no more members than there are bytes.
    let mut room = b.len() as u64;
    for (i, &x) in b.iter().enumerate() {
        match x {
            16 | 17 => room = room.max(int(i + 5).max(0) as u64),
            7 if b.get(i + 5).is_some_and(|t| *t <= 5) => {
                let rank = int(i + 6).clamp(0, 40) as usize;
                let n = (0..rank).map(|d| int(i + 10 + 4 * d).max(0) as u64).fold(1u64, u64::saturating_mul);
                room = room.max(n);
            }
            _ => (),
        }
    }
    let mut nulls = 0u64;
    let mut instances = 0u64;
    // Every dimension of an array may take a row for each value.
    let mut rows = 0u64;
    for (i, &x) in b.iter().enumerate() {
        match x {
            13 => nulls += u64::from(b.get(i + 1).copied().unwrap_or(0)),
            14 => {
                let n = int(i + 1).max(0) as u64;
                if n <= room {
                    nulls += n;
                }
            }
            1 => instances += 1,
            7 if b.get(i + 5).is_some_and(|t| *t <= 5) => rows += int(i + 6).clamp(0, 32) as u64,
            _ => (),
        }
    }
    nulls += rows.min(32) * (b.len() as u64 + nulls);
    (nulls, instances.min(b.len() as u64 / 9) * b.len() as u64)
}

pub fn judge(input: &[u8], what: &str, nulls: u64, names: u64, t: &mut Tally) -> Option<[Used; 2]> {
    let mut used = [Used::default(); 2];
    let (ok, u) = match cost(input) {
        Ok(x) => x,
        Err(p) => {
            t.bad(input, format!("{what}: panics: {p}"), String::new());
            return None;
        }
    };
    used[0] = u;
    limits(input, what, nulls, names, u, ok, t);
    if ok {
        for list in [false, true] {
            let (ok, u) = match cost_serde(input, list) {
                Ok(x) => x,
                Err(p) => {
                    t.bad(input, format!("{what}: deserializing panics: {p}"), String::new());
                    return None;
                }
            };
            if u.steps > used[1].steps {
                used[1] = u;
            }
            t.n(if ok { "deserializations measured" } else { "refused deserializations measured" });
            limits(input, &format!("deserializing {what}"), nulls, names, u, ok, t);
        }
    }
    Some(used)
}

fn limits(input: &[u8], what: &str, nulls: u64, names: u64, u: Used, ok: bool, t: &mut Tally) {
    let len = input.len() as u64;
    t.n(if ok { "accepted inputs measured" } else { "rejected inputs measured" });
    let steps = STEPS_BASE + STEPS_PER_BYTE * len + STEPS_PER_NULL * nulls + names / 2;
    let peak = PEAK_BASE + PEAK_PER_BYTE * len + PEAK_PER_NULL * nulls;
    t.max("steps, percent of what is allowed", u.steps * 100 / steps);
    t.max("peak heap, percent of what is allowed", u.peak * 100 / peak);
    t.max("largest input (bytes)", len);
    t.max("most steps", u.steps);
    t.max("highest peak (bytes)", u.peak);
    t.max("largest request (bytes)", u.largest);
    t.add("steps in total", u.steps);
    t.add("allocations in total", u.calls);
    if std::env::var("MON_SHOW").is_ok() && len > 1000 {
        println!(
            "{what:60} len {len:8} steps/byte {:6} peak/byte {:6} per null: {:6} {:6}",
            u.steps / len,
            u.peak / len,
            u.steps / nulls.max(1),
            u.peak / nulls.max(1)
        );
    }
    let note = format!("{what}; {len} bytes, {nulls} nulls; {u:?}");
    if u.steps > steps {
        t.bad(input, format!("{what}: {} steps for {len} bytes and {nulls} nulls, more than {steps}", u.steps), note);
    } else if u.peak > peak || u.largest > peak {
        t.bad(
            input,
            format!(
                "{what}: {} bytes of memory (largest request {}) for {len} bytes and {nulls} nulls, more than {peak}",
                u.peak, u.largest
            ),
            note,
        );
    }
}

fn le(b: &mut Vec<u8>, v: usize) {
    b.extend_from_slice(&(v as i32).to_le_bytes());
}

fn lp(b: &mut Vec<u8>, s: &[u8]) {
    let mut l = s.len();
    while l >= 128 {
        b.push(l as u8 | 0x80);
        l >>= 7;
    }
    b.push(l as u8);
    b.extend_from_slice(s);
}

fn head(root: usize) -> Vec<u8> {
    let mut b = vec![0];
    le(&mut b, root);
    b.extend_from_slice(&[0xff; 4]);
    le(&mut b, 1);
    le(&mut b, 0);
    b
}

/// A class record up to where its types or members begin.
fn class(b: &mut Vec<u8>, tag: u8, id: usize, name: &str, members: usize) {
    b.push(tag);
    le(b, id);
    lp(b, name.as_bytes());
    le(b, members);
    for i in 0..members {
        lp(b, format!("m{i}").as_bytes());
    }
}

fn string(b: &mut Vec<u8>, id: usize, s: &[u8]) {
    b.push(6);
    le(b, id);
    lp(b, s);
}

fn reference(b: &mut Vec<u8>, id: usize) {
    b.push(9);
    le(b, id);
}

/// (message without its end record, nulls, bytes of names which are repeated)
type Built = (Vec<u8>, usize, usize);
type Family = (&'static str, fn(usize) -> Built);

fn array(tag: u8, id: usize, len: usize) -> Vec<u8> {
    let mut b = vec![tag];
    le(&mut b, id);
    le(&mut b, len);
    b
}

fn binary(b: &mut Vec<u8>, id: usize, kind: u8, dims: &[usize]) {
    b.push(7);
    le(b, id);
    b.push(kind);
    le(b, dims.len());
    for d in dims {
        le(b, *d);
    }
    if kind >= 3 {
        for _ in dims {
            le(b, 5);
        }
    }
}

/// A list of `size` objects in array 2.
fn list(b: &mut Vec<u8>, size: usize) {
    b.push(4);
    le(b, 1);
    lp(b, b"System.Collections.Generic.List`1[[System.Object, mscorlib]]");
    le(b, 3);
    for m in ["_items", "_size", "_version"] {
        lp(b, m.as_bytes());
    }
    b.extend_from_slice(&[5, 0, 0, 8, 8]);
    reference(b, 2);
    le(b, size);
    le(b, 7);
}

fn objects(n: usize, each: impl Fn(&mut Vec<u8>, usize)) -> Vec<u8> {
    let mut b = head(1);
    b.extend(array(16, 1, n));
    for i in 0..n {
        each(&mut b, i);
    }
    b
}

fn prims(n: usize, code: u8, one: &[u8]) -> Built {
    let mut b = head(1);
    b.extend(array(15, 1, n));
    b.push(code);
    for _ in 0..n {
        b.extend_from_slice(one);
    }
    (b, 0, 0)
}

/// Chains of 60 classes; in each, the objects refer forward or backward to the next.
fn chains(n: usize, forward: bool, array_of: bool) -> Vec<u8> {
    let mut b = head(1);
    let groups = n / 60 + 1;
    for g in 0..groups {
        for k in 0..60 {
            let id = g * 60 + if forward { k } else { 59 - k } + 1;
            if array_of {
                b.extend(array(16, id, 1));
            } else {
                class(&mut b, 2, id, "C", 1);
            }
            let last = if forward { k == 59 } else { k == 0 };
            if last {
                b.push(10);
            } else {
                reference(&mut b, id + 1);
            }
        }
    }
    b
}

fn families() -> Vec<Family> {
    vec![
        ("bytes", |n| prims(n, 2, &[7])),
        ("booleans", |n| prims(n, 1, &[1])),
        ("characters", |n| prims(n, 3, "\u{20ac}".as_bytes())),
        ("decimals", |n| prims(n, 5, b"\x06-12.75")),
        ("doubles", |n| prims(n, 6, &[1; 8])),
        ("16-bit numbers", |n| prims(n, 7, &[1, 2])),
        ("32-bit numbers", |n| prims(n, 8, &[1, 2, 3, 4])),
        ("dates", |n| prims(n, 13, &[1; 8])),
        ("time spans", |n| prims(n, 12, &[1; 8])),
        ("primitive array which stops early", |n| {
            let mut b = prims(n, 8, &[1, 2, 3, 4]).0;
            let at = b.len() - 2;
            b.truncate(at);
            (b, 0, 0)
        }),
        ("one long string", |n| {
            let mut b = head(1);
            string(&mut b, 1, &vec![b'a'; n * 8]);
            (b, 0, 0)
        }),
        ("one long string of wide characters", |n| {
            let mut b = head(1);
            string(&mut b, 1, "\u{1f600}".repeat(n).as_bytes());
            (b, 0, 0)
        }),
        ("one long string which is not UTF-8 at its end", |n| {
            let mut b = head(1);
            let mut s = vec![b'a'; n * 8];
            s.push(0xff);
            string(&mut b, 1, &s);
            (b, 0, 0)
        }),
        ("many strings", |n| {
            let mut b = head(1);
            for i in 0..n {
                string(&mut b, i + 1, b"ab");
            }
            (b, 0, 0)
        }),
        ("many strings, ids downwards", |n| {
            let mut b = head(1);
            for i in 0..n {
                string(&mut b, n - i, b"ab");
            }
            (b, 0, 0)
        }),
        ("many strings, ids scattered", |n| {
            let mut b = head(1);
            for i in 0..n {
                string(&mut b, (i * 7919) % 1_000_003 + 1, b"ab");
            }
            (b, 0, 0)
        }),
        ("duplicate id at the end of many strings", |n| {
            let mut b = head(1);
            for i in 0..n {
                string(&mut b, i + 1, b"ab");
            }
            string(&mut b, 1, b"");
            (b, 0, 0)
        }),
        ("many empty libraries", |n| {
            let mut b = objects(n, |b, i| {
                b.push(12);
                le(b, i + 1);
                lp(b, b"");
                b.push(10);
            });
            b.push(11);
            b.pop();
            (b, 0, 0)
        }),
        ("many libraries with classes", |n| {
            let mut b = head(1);
            for i in 0..n {
                b.push(12);
                le(&mut b, i + 1);
                lp(&mut b, b"Lib");
                class(&mut b, 3, i + 1, "C", 1);
                le(&mut b, i + 1);
                b.push(10);
            }
            (b, 0, 0)
        }),
        ("one library for many classes", |n| {
            let mut b = head(1);
            b.push(12);
            le(&mut b, 1);
            lp(&mut b, &vec![b'L'; n]);
            for i in 0..n {
                class(&mut b, 3, i + 1, "C", 0);
                le(&mut b, 1);
            }
            (b, 0, 0)
        }),
        ("library before each of many strings' arrays", |n| {
            let mut b = head(1);
            for i in 0..n {
                b.push(12);
                le(&mut b, i + 1);
                lp(&mut b, b"");
                b.extend(array(17, i + 1, 0));
            }
            (b, 0, 0)
        }),
        ("object array of typed numbers", |n| (objects(n, |b, _| b.extend_from_slice(&[8, 8, 1, 0, 0, 0])), 0, 0)),
        ("object array of nulls", |n| (objects(n, |b, _| b.push(10)), 0, 0)),
        ("object array of null runs of one", |n| (objects(n, |b, _| b.extend_from_slice(&[13, 1])), n, 0)),
        ("object array of inline strings", |n| (objects(n, |b, i| string(b, i + 2, b"xy")), 0, 0)),
        ("string array", |n| {
            let mut b = head(1);
            b.extend(array(17, 1, n));
            for i in 0..n {
                string(&mut b, i + 2, b"xy");
            }
            (b, 0, 0)
        }),
        ("string array which refers to one string", |n| {
            let mut b = head(1);
            string(&mut b, 2, b"xy");
            b.extend(array(17, 1, n));
            for _ in 0..n {
                reference(&mut b, 2);
            }
            (b, 0, 0)
        }),
        ("string array which refers to one long string", |n| {
            let mut b = head(1);
            string(&mut b, 2, &vec![b'x'; n]);
            b.extend(array(17, 1, n));
            for _ in 0..n {
                reference(&mut b, 2);
            }
            (b, 0, 0)
        }),
        ("object array which refers to later strings", |n| {
            let mut b = objects(n, |b, i| reference(b, i + 2));
            for i in 0..n {
                string(&mut b, i + 2, b"xy");
            }
            (b, 0, 0)
        }),
        ("object array which refers to later strings in reverse", |n| {
            let mut b = objects(n, |b, i| reference(b, n - i + 1));
            for i in 0..n {
                string(&mut b, i + 2, b"xy");
            }
            (b, 0, 0)
        }),
        ("object array which refers to earlier arrays", |n| {
            let mut b = head(1);
            for i in 0..n {
                b.extend(array(16, i + 2, 0));
            }
            b.extend(array(16, 1, n));
            for i in 0..n {
                reference(&mut b, i + 2);
            }
            (b, 0, 0)
        }),
        ("object array which refers to later arrays", |n| {
            let mut b = objects(n, |b, i| reference(b, i + 2));
            for i in 0..n {
                b.extend(array(15, i + 2, 1));
                b.extend_from_slice(&[2, 9]);
            }
            (b, 0, 0)
        }),
        ("arrays which all wait for later arrays", |n| {
            let mut b = objects(n / 2, |b, i| reference(b, i + 2));
            for i in 0..n / 2 {
                b.extend(array(16, i + 2, 1));
                reference(&mut b, n / 2 + i + 2);
            }
            for i in 0..n / 2 {
                b.extend(array(15, n / 2 + i + 2, 1));
                b.extend_from_slice(&[2, 9]);
            }
            (b, 0, 0)
        }),
        ("arrays which all wait for the last array", |n| {
            // breadth first, then a reference which is missing
            let mut b = objects(n / 2, |b, i| reference(b, i + 2));
            for i in 0..n / 2 {
                b.extend(array(16, i + 2, 1));
                reference(&mut b, if i + 1 == n / 2 { n + 9 } else { n / 2 + i + 2 });
            }
            for i in (0..n / 2 - 1).rev() {
                b.extend(array(16, n / 2 + i + 2, 0));
            }
            (b, 0, 0)
        }),
        ("a tree of classes, breadth first", |n| {
            let mut b = head(1);
            for i in 1..=n / 3 {
                class(&mut b, 2, i, "C", 3);
                for k in [3 * i - 1, 3 * i, 3 * i + 1] {
                    if k <= n / 3 {
                        reference(&mut b, k);
                    } else {
                        b.push(10);
                    }
                }
            }
            (b, 0, 0)
        }),
        ("object array with a missing reference at its end", |n| {
            let mut b = objects(n, |b, i| reference(b, i + 2));
            for i in 0..n - 1 {
                string(&mut b, i + 2, b"");
            }
            (b, 0, 0)
        }),
        ("object array of inline classes", |n| {
            (
                objects(n, |b, i| {
                    class(b, 2, i + 2, "C", 1);
                    b.push(10);
                }),
                0,
                0,
            )
        }),
        ("object array of inline instances", |n| {
            let mut b = head(1);
            class(&mut b, 2, n + 5, "C", 2);
            b.extend_from_slice(&[10, 10]);
            b.extend(array(16, 1, n));
            for i in 0..n {
                b.push(1);
                le(&mut b, i + 2);
                le(&mut b, n + 5);
                b.extend_from_slice(&[10, 10]);
            }
            (b, 0, n * 3)
        }),
        ("instances of the last of many classes", |n| {
            let mut b = head(1);
            for i in 0..n {
                class(&mut b, 2, i + 2, "C", 0);
            }
            for i in 0..n {
                b.push(1);
                le(&mut b, n + i + 2);
                le(&mut b, n + 1);
            }
            (b, 0, n)
        }),
        ("instances of many classes", |n| {
            let mut b = head(1);
            for i in 0..n {
                class(&mut b, 2, i + 2, "C", 0);
            }
            for i in 0..n {
                b.push(1);
                le(&mut b, n + i + 2);
                le(&mut b, i + 2);
            }
            (b, 0, n)
        }),
        ("typed members", |n| {
            let mut b = head(1);
            class(&mut b, 4, 1, "C", n);
            b.extend(std::iter::repeat_n(0, n));
            b.extend(std::iter::repeat_n(8, n));
            b.extend(std::iter::repeat_n(1, 4 * n));
            (b, 0, 0)
        }),
        ("string members", |n| {
            let mut b = head(1);
            class(&mut b, 4, 1, "C", n);
            b.extend(std::iter::repeat_n(1, n));
            for i in 0..n {
                string(&mut b, i + 2, b"v");
            }
            (b, 0, 0)
        }),
        ("untyped members", |n| {
            let mut b = head(1);
            class(&mut b, 2, 1, "C", n);
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("members in a null run", |n| {
            let mut b = head(1);
            class(&mut b, 2, 1, "C", n);
            b.push(14);
            le(&mut b, n);
            (b, n, 0)
        }),
        ("members which are all references", |n| {
            let mut b = head(1);
            class(&mut b, 2, 1, "C", n);
            for i in 0..n {
                reference(&mut b, i + 2);
            }
            for i in 0..n {
                string(&mut b, i + 2, b"v");
            }
            (b, 0, 0)
        }),
        ("members of one name", |n| {
            let mut b = head(1);
            b.push(2);
            le(&mut b, 1);
            lp(&mut b, b"C");
            le(&mut b, n);
            for _ in 0..n {
                lp(&mut b, b"m");
            }
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("members without values", |n| {
            let mut b = head(1);
            class(&mut b, 2, 1, "C", n);
            (b, 0, 0)
        }),
        ("members without types", |n| {
            let mut b = head(1);
            class(&mut b, 4, 1, "C", n);
            (b, 0, 0)
        }),
        ("wide classes in null runs", |n| {
            let mut b = head(1);
            let m = 200;
            class(&mut b, 2, 1, "C", m);
            b.extend_from_slice(&[13, m as u8]);
            for i in 0..n / 20 {
                b.push(1);
                le(&mut b, i + 2);
                le(&mut b, 1);
                b.extend_from_slice(&[13, m as u8]);
            }
            (b, m * (n / 20 + 1), m * 4 * (n / 20 + 1))
        }),
        ("one null run", |n| {
            let mut b = head(1);
            b.extend(array(16, 1, n));
            b.push(14);
            le(&mut b, n);
            (b, n, 0)
        }),
        ("short null runs", |n| {
            let mut b = head(1);
            b.extend(array(17, 1, n * 10));
            for _ in 0..n {
                b.extend_from_slice(&[13, 10]);
            }
            (b, n * 10, 0)
        }),
        ("null runs and one too many", |n| {
            let mut b = head(1);
            b.extend(array(16, 1, n * 10 + 9));
            for _ in 0..n + 1 {
                b.extend_from_slice(&[13, 10]);
            }
            (b, n * 10, 0)
        }),
        ("null run in a square", |n| {
            let mut b = head(1);
            let d = (n as f64).sqrt() as usize;
            binary(&mut b, 1, 2, &[d, d]);
            b.push(2);
            b.push(14);
            le(&mut b, d * d);
            (b, d * d, 0)
        }),
        ("matrix of two columns", |n| {
            let mut b = head(1);
            binary(&mut b, 1, 2, &[n, 2]);
            b.extend_from_slice(&[0, 2]);
            b.extend(std::iter::repeat_n(1, 2 * n));
            (b, 0, 0)
        }),
        ("matrix of two rows", |n| {
            let mut b = head(1);
            binary(&mut b, 1, 5, &[2, n]);
            b.extend_from_slice(&[0, 2]);
            b.extend(std::iter::repeat_n(1, 2 * n));
            (b, 0, 0)
        }),
        ("square of bytes", |n| {
            let mut b = head(1);
            let d = (n as f64).sqrt() as usize;
            binary(&mut b, 1, 2, &[d, d]);
            b.extend_from_slice(&[0, 2]);
            b.extend(std::iter::repeat_n(1, d * d));
            (b, 0, 0)
        }),
        ("rank 8, first long", |n| {
            let mut b = head(1);
            binary(&mut b, 1, 2, &[n, 1, 1, 1, 1, 1, 1, 1]);
            b.push(2);
            b.extend(std::iter::repeat_n(10, n));
            // Every dimension may take a row for each value.
            (b, n * 8, 0)
        }),
        ("rank 8, last long", |n| {
            let mut b = head(1);
            binary(&mut b, 1, 2, &[1, 1, 1, 1, 1, 1, 1, n]);
            b.push(2);
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("rank 32, first long", |n| {
            let mut b = head(1);
            let mut dims = [1; 32];
            dims[0] = n / 8;
            binary(&mut b, 1, 2, &dims);
            b.push(2);
            b.extend(std::iter::repeat_n(10, n / 8));
            (b, n * 4, 0)
        }),
        ("rank 20, null run", |n| {
            let mut b = head(1);
            let mut dims = [1; 20];
            dims[4] = n / 4;
            binary(&mut b, 1, 2, &dims);
            b.push(2);
            b.push(14);
            le(&mut b, n / 4);
            (b, n * 5, 0)
        }),
        ("generic list", |n| {
            let mut b = head(1);
            list(&mut b, n);
            b.extend(array(16, 2, n));
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("generic list of numbers", |n| {
            let mut b = head(1);
            list(&mut b, n / 2);
            b.extend(array(15, 2, n));
            b.push(8);
            b.extend(std::iter::repeat_n(1, 4 * n));
            (b, 0, 0)
        }),
        ("generic list of too many", |n| {
            let mut b = head(1);
            list(&mut b, i32::MAX as usize);
            b.extend(array(16, 2, n));
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("boxed numbers", |n| {
            let mut b = head(1);
            b.push(4);
            le(&mut b, n + 5);
            lp(&mut b, b"System.Int32");
            le(&mut b, 1);
            lp(&mut b, b"m_value");
            b.extend_from_slice(&[0, 8, 1, 0, 0, 0]);
            b.extend(array(16, 1, n));
            for i in 0..n {
                b.push(1);
                le(&mut b, i + 2);
                le(&mut b, n + 5);
                le(&mut b, i);
            }
            (b, 0, 20 * n)
        }),
        ("binary array of strings", |n| {
            let mut b = head(1);
            binary(&mut b, 1, 0, &[n]);
            b.push(1);
            for i in 0..n {
                string(&mut b, i + 2, b"v");
            }
            (b, 0, 0)
        }),
        ("binary array of system classes", |n| {
            let mut b = head(1);
            binary(&mut b, 1, 0, &[n]);
            b.push(3);
            lp(&mut b, b"C");
            for i in 0..n {
                class(&mut b, 2, i + 2, "C", 0);
            }
            (b, 0, 0)
        }),
        ("binary array of library classes", |n| {
            let mut b = head(1);
            b.push(12);
            le(&mut b, 9);
            lp(&mut b, b"L");
            binary(&mut b, 1, 1, &[n]);
            b.push(4);
            lp(&mut b, b"C");
            le(&mut b, 9);
            for i in 0..n {
                if i % 2 == 0 {
                    class(&mut b, 3, i + 2, "C", 0);
                    le(&mut b, 9);
                } else {
                    b.push(10);
                }
            }
            (b, 0, 0)
        }),
        ("binary array of references", |n| {
            let mut b = head(1);
            binary(&mut b, 1, 1, &[n]);
            b.extend_from_slice(&[7, 2]);
            for i in 0..n {
                reference(&mut b, i + 2);
            }
            for i in 0..n {
                b.extend(array(15, i + 2, 0));
                b.push(2);
            }
            (b, 0, 0)
        }),
        ("many arrays", |n| {
            let mut b = head(1);
            for i in 0..n {
                b.extend(array([16, 17][i % 2], i + 1, 0));
            }
            (b, 0, 0)
        }),
        ("many classes of different shape", |n| {
            let mut b = head(1);
            for i in 0..n / 4 {
                class(&mut b, 2, i + 1, "Name", i % 8);
                b.extend(std::iter::repeat_n(10, i % 8));
            }
            (b, 0, 0)
        }),
        ("nested classes", |n| {
            let mut b = head(1);
            let mut id = 1;
            for _ in 0..n / 50 + 1 {
                for _ in 0..50 {
                    class(&mut b, 2, id, "C", 1);
                    id += 1;
                }
                b.push(10);
            }
            (b, 0, 0)
        }),
        ("nested classes which fail at the bottom", |n| {
            let mut b = head(1);
            let mut id = 1;
            for g in 0..n / 50 + 1 {
                for _ in 0..50 {
                    class(&mut b, 2, id, "C", 1);
                    id += 1;
                }
                b.push(if g == n / 50 { 15 } else { 10 });
            }
            (b, 0, 0)
        }),
        ("nested instances", |n| {
            let mut b = head(1);
            class(&mut b, 2, 1, "C", 1);
            b.push(10);
            let mut id = 2;
            for _ in 0..n / 50 + 1 {
                for _ in 0..50 {
                    b.push(1);
                    le(&mut b, id);
                    le(&mut b, 1);
                    id += 1;
                }
                b.push(10);
            }
            (b, 0, n * 2 + 200)
        }),
        ("forward chains of classes", |n| (chains(n, true, false), 0, 0)),
        ("backward chains of classes", |n| (chains(n, false, false), 0, 0)),
        ("forward chains of arrays", |n| (chains(n, true, true), 0, 0)),
        ("backward chains of arrays", |n| (chains(n, false, true), 0, 0)),
        ("chain above a wide array", |n| {
            let mut b = head(1);
            b.extend(array(16, 100, n));
            b.extend(std::iter::repeat_n(10, n));
            for k in 0..50 {
                b.extend(array(16, 99 - k, 1));
                reference(&mut b, 100 - k);
            }
            (b, 0, 0)
        }),
        ("wide class handed up through references", |n| {
            let mut b = head(1);
            class(&mut b, 2, 100, "C", n);
            b.extend(std::iter::repeat_n(10, n));
            for k in 0..50 {
                class(&mut b, 2, 99 - k, "D", 1);
                reference(&mut b, 100 - k);
            }
            (b, 0, 0)
        }),
        ("call with strings", |n| {
            let mut b = head(0);
            b.push(21);
            le(&mut b, 0x12);
            b.extend_from_slice(b"\x12\x01m\x12\x01t");
            le(&mut b, n);
            for _ in 0..n {
                b.extend_from_slice(b"\x12\x02ab");
            }
            (b, 0, 0)
        }),
        ("call with numbers", |n| {
            let mut b = head(0);
            b.push(21);
            le(&mut b, 0x12);
            b.extend_from_slice(b"\x12\x01m\x12\x01t");
            le(&mut b, n);
            for _ in 0..n {
                b.extend_from_slice(b"\x02\x07");
            }
            (b, 0, 0)
        }),
        ("call array", |n| {
            let mut b = head(1);
            b.push(21);
            le(&mut b, 0x18);
            b.extend_from_slice(b"\x12\x01m\x12\x01t");
            b.extend(array(16, 1, n));
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("arguments in the call array", |n| {
            let mut b = head(1);
            b.push(21);
            le(&mut b, 0x14);
            b.extend_from_slice(b"\x12\x01m\x12\x01t");
            b.extend(array(16, 1, 1));
            reference(&mut b, 2);
            b.extend(array(16, 2, n));
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("arguments and much else in the call array", |n| {
            let mut b = head(1);
            b.push(22);
            le(&mut b, 0x814);
            b.extend_from_slice(&[8, 1, 0, 0, 0]);
            b.extend(array(16, 1, n));
            reference(&mut b, 2);
            b.extend(std::iter::repeat_n(10, n - 1));
            b.extend(array(16, 2, n));
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
        ("return with the call array", |n| {
            let mut b = head(1);
            b.push(22);
            le(&mut b, 0x818);
            b.extend_from_slice(&[8, 1, 0, 0, 0]);
            b.extend(array(16, 1, n));
            for i in 0..n {
                string(&mut b, i + 2, b"a");
            }
            (b, 0, 0)
        }),
        ("objects after a call", |n| {
            let mut b = head(0);
            b.push(21);
            le(&mut b, 0x11);
            b.extend_from_slice(b"\x12\x01m\x12\x01t");
            for i in 0..n {
                string(&mut b, i + 2, b"a");
            }
            (b, 0, 0)
        }),
        ("objects before a call which fails", |n| {
            let mut b = head(0);
            for i in 0..n {
                string(&mut b, i + 2, b"a");
            }
            b.push(21);
            le(&mut b, 0x1000_0000);
            (b, 0, 0)
        }),
        ("long class name for many typed members", |n| {
            let mut b = head(1);
            class(&mut b, 4, 1, &"C".repeat(n), n);
            b.extend(std::iter::repeat_n(2, n));
            b.extend(std::iter::repeat_n(10, n));
            (b, 0, 0)
        }),
    ]
}

/// The end of a family's message: complete, cut off, or faulty.
const ENDS: [&str; 4] = ["", " without end record", " with trailing data", " with an undefined record"];

fn ended(mut b: Vec<u8>, end: usize) -> Vec<u8> {
    match end {
        0 => b.push(11),
        1 => (),
        2 => b.extend_from_slice(&[11, 0]),
        _ => b.extend_from_slice(&[19, 0]),
    }
    b
}

pub fn c02(cx: &Cx) {
    cx.rule(
        "A case is one input that is parsed, and the result dropped, in a build which counts executed basic blocks, copied and \
         compared bytes and allocated memory of the thread. A limit per input byte and per null of a null run applies to every \
         input; families of inputs which grow by a factor of 8 may take at most 13 times the steps and memory. Non-trivial if longer \
         than a header; distinct by its bytes.",
    );
    if !crate::steps::COUNTED {
        eprintln!("C02 needs the build which counts steps");
        std::process::exit(3);
    }
    // The counters work: a known amount of work and memory is seen.
    cx.seq(|t| {
        let (_, small) = measured(|| std::hint::black_box((0..1_000u32).map(|x| x ^ 5).collect::<std::collections::BTreeSet<_>>()));
        let (_, large) = measured(|| std::hint::black_box((0..8_000u32).map(|x| x ^ 5).collect::<std::collections::BTreeSet<_>>()));
        if small.steps < 1_000 || large.steps < 6 * small.steps || large.peak < 4 * small.peak || small.kept < 4_000 {
            eprintln!("C02: the counters do not count: {small:?} {large:?}");
            std::process::exit(3);
        }
        t.n("self-test of the counters");
    });
    // families
    let fs = families();
    let sizes: &[(usize, usize)] = cx.pick(&[(400, 3_200), (3_000, 24_000)], &[(100, 800), (1_000, 8_000), (8_000, 64_000), (40_000, 320_000)]);
    let cases = (fs.len() * ENDS.len() * sizes.len()) as u64;
    cx.par("families", cases, |_, i, t| {
        let i = i as usize;
        let (name, f) = fs[i % fs.len()];
        let end = i / fs.len() % ENDS.len();
        let (n1, n2) = sizes[i / fs.len() / ENDS.len()];
        let what = format!("{name}{}", ENDS[end]);
        let mut got = vec![];
        for n in [n1, n2] {
            let (b, nulls, names) = f(n);
            let b = ended(b, end);
            t.eval(&b, true);
            let Some(u) = judge(&b, &what, nulls as u64, names as u64, t) else { return };
            got.push((b, u, nulls));
        }
        let ((b1, both1, k1), (b2, both2, k2)) = (&got[0], &got[1]);
        let grown = (b2.len() as f64 / b1.len() as f64).max(*k2 as f64 / (*k1).max(1) as f64).max(8.0);
        for (u1, u2, what) in [(both1[0], both2[0], what.clone()), (both1[1], both2[1], format!("deserializing {what}"))] {
            let steps = u2.steps as f64 / (u1.steps + 3_000) as f64 / grown;
            let peak = u2.peak as f64 / (u1.peak + 2_000) as f64 / grown;
            t.n("pairs of sizes compared");
            t.max("growth of steps, percent of the growth of the input", (steps * 100.0) as u64);
            t.max("growth of memory, percent of the growth of the input", (peak * 100.0) as u64);
            if steps > 1.6 || peak > 2.6 {
                t.bad(
                    b2,
                    format!(
                        "{what}: {grown:.1} times the input took {:.1} times the steps and {:.1} times the memory",
                        steps * grown,
                        peak * grown
                    ),
                    format!("{} bytes: {u1:?}; {} bytes: {u2:?}", b1.len(), b2.len()),
                );
            }
        }
        let (u1, u2) = (both1[0], both2[0]);
        if t.bads() == 0 {
            t.sample(|| format!("{what}: {} bytes {} steps {} peak; {} bytes {} steps {} peak", b1.len(), u1.steps, u1.peak, b2.len(), u2.steps, u2.peak));
        }
    });
    // degenerate structures and declarations without data
    for n in cx.pick(vec![1, 60, 2_000], vec![1, 10, 63, 64, 65, 500, 4_000, 30_000]) {
        let b = soup::bombs(n);
        cx.par("bombs", b.len() as u64, |_, i, t| {
            let (name, b) = &b[i as usize];
            let (nulls, names) = allowance(b);
            // the runs in these have no room, or are counted by the byte
            t.eval(b, b.len() > 17);
            judge(b, name, nulls.min(b.len() as u64 * 255), names, t);
        });
    }
    // every count, length and dimension of well-formed messages declared too large
    cx.par("declared", cx.pick(1_500, 60_000), |r, _, t| {
        let w = doc::generate(r, &Cfg::default());
        for s in w.spans.iter().filter(|s| mutate::is_count(s.f)) {
            let mut b = w.buf.clone();
            let v = *r.pick(&[i32::MAX, 1 << 30, 1 << 24, 1 << 20, 1 << 16, 5_000]);
            mutate::set_i32(&mut b, s.off, v);
            if real::bomb(&b, 0) {
                continue;
            }
            let (nulls, names) = allowance(&b);
            t.eval(&b, true);
            t.nd(&format!("declared too large: {:?}", s.f));
            judge(&b, "count declared too large", nulls, names, t);
        }
    });
    cx.par("soup", cx.pick(30_000, 3_000_000), |r, _, t| {
        let b = soup::soup(r);
        if !real::bomb(&b, 0) {
            let (nulls, names) = allowance(&b);
            t.eval(&b, b.len() > 17);
            judge(&b, "soup of records", nulls, names, t);
        }
    });
    cx.par("generated", cx.pick(6_000, 400_000), |r, _, t| {
        let size = if r.chance(cx.pick(2, 6)) { r.range(500, 4_000) } else { r.range(5, 80) };
        let w = doc::generate(r, &Cfg { size, ..Cfg::default() });
        let (nulls, names) = allowance(&w.buf);
        t.eval(&w.buf, true);
        judge(&w.buf, "well-formed message", nulls, names, t);
        for _ in 0..4 {
            let b = mutate::any(r, &w);
            if !real::bomb(&b, 0) {
                let (nulls, names) = allowance(&b);
                t.eval(&b, true);
                judge(&b, "altered message", nulls, names, t);
            }
        }
    });
    
}
