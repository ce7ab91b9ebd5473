//! Parsing is a pure function of the bytes.

use std::cell::RefCell;
use std::collections::HashMap;
use std::path::Path;
use std::rc::Rc;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use super::probes::{self, Job, Ran};
use crate::cx::{Cx, Tally};
use crate::digest;
use crate::guard::Guarded;
use crate::report::hex;
use crate::rng::Rng;
use crate::{alloc, corpus, real, sched};

type Want = (u64, u64);

fn digests(b: &[u8]) -> Want {
    let h = |r: Result<digest::Pic, String>| r.map_or(0xdead, |p| digest::hash(p.text.as_bytes()));
    (h(real::watched(b, || digest::parsed(b))), h(real::watched(b, || digest::deserialized(b))))
}

/// Compares what this process gets with what a process gets which never did anything else.
fn compare(b: &[u8], want: Want, how: &str, note: impl Fn() -> String, t: &mut Tally) {
    let got = digests(b);
    t.n("results compared with those of a fresh process");
    if got.0 != want.0 {
        t.bad(b, format!("parsed {how}: not the result of a fresh process"), note());
    } else if got.1 != want.1 {
        t.bad(b, format!("deserialized {how}: not the result of a fresh process"), note());
    }
}

/// Long histories over a few messages, in one buffer and in many, with results which are kept.
fn history(r: &mut Rng, fam: &[Vec<u8>], want: &[Want], t: &mut Tally) {
    let len = fam.iter().map(Vec::len).max().unwrap_or(0);
    let mut same = vec![0u8; len + 8];
    let kept_inputs: Vec<Vec<u8>> = fam.to_vec();
    let mut kept = vec![];
    let mut trace = vec![];
    let steps = r.range(8, 30);
    for _ in 0..steps {
        let i = if r.chance(30) { trace.last().map_or(0, |x: &usize| *x) } else { r.below(fam.len()) };
        trace.push(i);
        let b = &fam[i];
        let note = || {
            let mut s = String::from("messages before: ");
            for k in &trace {
                s.push_str(&hex(&fam[*k]));
                s.push(' ');
                if s.len() > 4000 {
                    break;
                }
            }
            s
        };
        match r.below(4) {
            // always at the same address, as with a buffer for reading
            0..=2 => {
                same[..b.len()].copy_from_slice(b);
                compare(&same[..b.len()], want[i], "after other messages, in the same buffer", note, t);
                if same[..b.len()] != b[..] {
                    t.bad(b, "the buffer was changed".into(), String::new());
                }
            }
            _ => compare(b, want[i], "after other messages", note, t),
        }
        if r.chance(20) && kept.len() < 12 {
            let b = &kept_inputs[i];
            if let Ok(m) = real::watched(b, || nrbf::RemotingMessage::parse(b)) {
                kept.push((i, m));
            }
        }
    }
    t.eval_for(&fam[0], &format!("{trace:?}"));
    t.n("histories");
    t.add("calls in histories", 2 * steps as u64);
    for (i, m) in &kept {
        t.n("results kept and looked at later");
        if let Ok(p) = real::watched(&fam[*i], || digest::of(m)) {
            if digest::hash(p.text.as_bytes()) != want[*i].0 {
                t.bad(&fam[*i], "a result changed while others were parsed".into(), String::new());
            }
        }
        if let (Ok(again), Ok(m)) = (nrbf::RemotingMessage::parse(&fam[*i]), m) {
            // reflexive unless there is a NaN
            #[allow(clippy::eq_op)]
            if *m == m.clone() && again != *m {
                t.bad(&fam[*i], "two results of parsing the same bytes are not equal".into(), String::new());
            }
        }
    }
}

/// Where the bytes lie, and what lies around them.
fn places(r: &mut Rng, b: &[u8], more: &[u8], want: Want, t: &mut Tally) {
    const SIDE: usize = 128;
    thread_local! {
        static AREA: Guarded = Guarded::new(1 << 16);
    }
    t.eval_for(b, "places");
    if b.len() > 40_000 {
        return;
    }
    AREA.with(|g| {
        for at_end in [false, true] {
            let x = g.place(b, at_end);
            compare(x, want, "in memory which cannot be written, at its edge", String::new, t);
            t.n("places: read-only, at a guard page");
        }
        let all = r.below(4);
        for shift in 0..64 {
            if all != 0 && shift % 8 != 1 && r.chance(75) {
                continue;
            }
            let mut buf = vec![0u8; 64 + SIDE + b.len() + SIDE];
            match r.below(5) {
                0 => (),
                1 => buf.fill(0xff),
                2 => buf.iter_mut().for_each(|x| *x = r.u8()),
                3 => buf.iter_mut().enumerate().for_each(|(i, x)| *x = if b.is_empty() { 11 } else { b[i % b.len()] }),
                _ => buf.fill(*r.pick(&[11, 6, 10, 1, b'a'])),
            }
            let at = buf.as_ptr().align_offset(64) + shift;
            let at = if at + b.len() + SIDE > buf.len() { shift } else { at };
            buf[at..at + b.len()].copy_from_slice(b);
            // what could follow
            let n = more.len().min(buf.len() - at - b.len());
            buf[at + b.len()..at + b.len() + n].copy_from_slice(&more[..n]);
            let before = digest::hash(&buf);
            compare(&buf[at..at + b.len()], want, &format!("at an address which is {} above a multiple of 64", (buf.as_ptr() as usize + at) % 64), String::new, t);
            t.nd(&format!("alignment {:02}", (buf.as_ptr() as usize + at) % 64));
            if digest::hash(&buf) != before {
                t.bad(b, "the buffer or what lies around it was changed".into(), String::new());
            }
        }
    });
}

/// Messages which are parsed and deserialized while another one is being deserialized.
fn nested(r: &mut Rng, inputs: &[Vec<u8>], want: &[Want], t: &mut Tally) {
    type Log = Rc<RefCell<(u64, Vec<(usize, &'static str)>)>>;
    let log: Log = Rc::default();
    let levels = r.range(1, 3);
    let hooks = (0..levels)
        .map(|_| {
            let log = log.clone();
            let mine: Vec<(usize, Vec<u8>, Want)> = inputs.iter().cloned().zip(want).enumerate().map(|(i, (b, w))| (i, b, *w)).collect();
            let mut r = Rng::new(r.u64());
            let mut left = 6;
            Box::new(move || {
                if left == 0 || r.chance(40) {
                    return;
                }
                left -= 1;
                let (i, b, w) = r.pick(&mine);
                let got = (digest::hash(digest::parsed(b).text.as_bytes()), digest::hash(digest::deserialized(b).text.as_bytes()));
                let mut log = log.borrow_mut();
                log.0 += 1;
                if got.0 != w.0 {
                    log.1.push((*i, "parsed"));
                } else if got.1 != w.1 {
                    log.1.push((*i, "deserialized"));
                }
            }) as digest::during::Hook
        })
        .collect();
    let k = r.below(inputs.len());
    digest::during::set(hooks);
    compare(&inputs[k], want[k], "while others were deserialized within it", String::new, t);
    digest::during::set(vec![]);
    t.eval_for(&inputs[k], &format!("nested {levels}"));
    let log = log.borrow();
    t.add("calls within the deserialization of another message", log.0);
    for (i, how) in &log.1 {
        t.bad(
            &inputs[*i],
            format!("{how} while another message is being deserialized: not the result of a fresh process"),
            format!("the other message: {}", hex(&inputs[k])),
        );
    }
}

fn fresh(cx: &Cx, inputs: &[Vec<u8>], mode: &'static str, order: u64, env: &'static [(&'static str, &'static str)]) -> Ran {
    let exe: &'static Path = Box::leak(probes::target().join("release/probe").into_boxed_path());
    let deadline = Instant::now() + Duration::from_secs(cx.pick(100, 200));
    let make = |_: usize| Job {
        program: exe,
        before: &[],
        mode,
        after: vec![order.to_string()],
        env: env.iter().map(|(k, v)| (*k, v.to_string())).collect(),
        dir: (!env.is_empty()).then_some(Path::new("/")),
        deadline,
        all_memory: false,
    };
    let ran = probes::run_all(make, inputs, cx.threads);
    cx.seq(|t| {
        t.add("processes started for one input each", if mode == "fresh" { ran.started } else { 0 });
        for o in &ran.outside {
            t.nd("processes without an answer");
            cx.no_answer(o.clone());
        }
    });
    ran
}

pub fn c19(cx: &Cx) {
    cx.rule(
        "A case is a history of calls over a family of similar messages, one message at many addresses and in many surroundings, or \
         a schedule of threads. Each result is compared with that of a process which did nothing else. Distinct by bytes and history.",
    );
    cx.seq(|t| {
        t.n("types asked whether they can be used from any thread");
        for why in sched::bound_types() {
            t.bad(&[], why, String::new());
        }
    });
    let usable = sched::bound_types().is_empty();
    let rounds = cx.pick(1, 20);
    for round in 0..rounds {
        if cx.late() {
            break;
        }
        one_round(cx, round, usable);
    }
}

fn one_round(cx: &Cx, round: u64, usable: bool) {
    let fams = Mutex::new(vec![]);
    let n = cx.pick(9_000, 12_000u64);
    cx.par("families", n, |r, i, _| {
        for _ in 0..round {
            r.u64();
        }
        let f = if i % 3 == 0 {
            // a message, a part of it, and the rest
            let (b, _) = corpus::one(r);
            let k = r.below(b.len() + 1);
            vec![b[..k].to_vec(), b]
        } else {
            corpus::family(r)
        };
        fams.lock().unwrap().push((i, f));
    });
    let mut fams = fams.into_inner().unwrap();
    fams.sort();
    let fams: Vec<Vec<Vec<u8>>> = fams.into_iter().map(|f| f.1).collect();
    let flat: Vec<Vec<u8>> = fams.iter().flatten().cloned().collect();
    // the oracle: nothing happened before
    let base = fresh(cx, &flat, "fresh", 0, &[]);
    let want: HashMap<&[u8], Want> = flat.iter().zip(&base.digests).filter_map(|(b, d)| d.map(|d| (&b[..], d))).collect();
    cx.seq(|t| t.add("inputs with a result from a fresh process", want.len() as u64));
    // other processes: another environment, another order
    let orders: [(&'static str, &'static str, u64, &'static [(&'static str, &'static str)]); 4] = [
        (
            "in a process with another environment",
            "fresh",
            0,
            &[("LC_ALL", "tr_TR.UTF-8"), ("TZ", "Asia/Kathmandu"), ("RUST_BACKTRACE", "1"), ("RUST_MIN_STACK", "65536000"), ("HOME", "/nonexistent")],
        ),
        ("after others, in the same order", "digest", 0, &[]),
        ("after others, in reverse order", "digest", 1, &[]),
        ("after others, in a random order", "digest", 2 + cx.seed.wrapping_mul(77) % 1000 + round, &[]),
    ];
    for (how, mode, order, env) in orders {
        let ran = fresh(cx, &flat, mode, order, env);
        cx.seq(|t| {
            for (i, b) in flat.iter().enumerate() {
                if let (Some(a), Some(b2)) = (base.digests[i], ran.digests[i]) {
                    t.nd(&format!("process: {how}"));
                    if a != b2 {
                        t.bad(b, format!("{how}: not the result of a fresh process"), format!("{a:x?} {b2:x?}"));
                    }
                }
            }
        });
    }
    cx.par("histories", fams.len() as u64 * 2, |r, i, t| {
        let f = &fams[i as usize % fams.len()];
        let mut inputs = f.clone();
        for _ in 0..r.below(3) {
            let other = r.pick(&fams);
            inputs.push(r.pick(other).clone());
        }
        inputs.retain(|b| want.contains_key(&b[..]));
        if inputs.len() < 2 {
            return;
        }
        let w: Vec<Want> = inputs.iter().map(|b| want[&b[..]]).collect();
        history(r, &inputs, &w, t);
    });
    cx.par("nested", fams.len() as u64 * 2, |r, i, t| {
        let mut inputs = fams[i as usize % fams.len()].clone();
        for _ in 0..2 {
            let other = r.pick(&fams);
            inputs.push(r.pick(other).clone());
        }
        inputs.retain(|b| b.len() < 4000 && want.get(&b[..]).is_some_and(|w| w.0 != 0xdead && w.1 != 0xdead));
        if inputs.is_empty() {
            return;
        }
        let w: Vec<Want> = inputs.iter().map(|b| want[&b[..]]).collect();
        nested(r, &inputs, &w, t);
    });
    cx.par("places", fams.len() as u64, |r, i, t| {
        let f = &fams[i as usize];
        let k = r.below(f.len());
        let Some(w) = want.get(&f[k][..]) else { return };
        // the rest of a prefix
        let more = if f.len() == 2 && k == 0 && f[1].starts_with(&f[0]) { f[1][f[0].len()..].to_vec() } else { vec![] };
        places(r, &f[k], &more, *w, t);
    });
    if !usable {
        return;
    }
    // schedules
    let per = 24;
    let groups: Vec<(Vec<Vec<u8>>, Vec<Want>)> = flat
        .chunks(per)
        .map(|c| {
            let g: Vec<Vec<u8>> = c.iter().filter(|b| b.len() < 4000 && want.get(&b[..]).is_some_and(|w| w.0 != 0xdead && w.1 != 0xdead)).cloned().collect();
            let w = g.iter().map(|b| want[&b[..]]).collect();
            (g, w)
        })
        .filter(|(g, _)| !g.is_empty())
        .collect();
    let n = cx.pick(200, groups.len().min(600));
    cx.seq(|t| {
        for (k, (g, w)) in groups.iter().take(n).enumerate() {
            if cx.late() {
                break;
            }
            let threads = [2, 3, 8, 16][k % 4];
            let plan = sched::Plan { threads, calls: 1600 / threads, hand_over: k % 2 == 0, delays: k % 3 != 0 };
            let rep = sched::run(g, Some(w), cx.seed + k as u64 + (round << 20), &plan);
            t.eval_for(&g[0], "schedule");
            t.n("schedules");
            t.add("schedules: calls logged", rep.events);
            t.add("schedules: calls under way at the same time", rep.overlaps);
            t.add("schedules: different pairs of input and use at the same time", rep.pairs);
            for (k, v) in rep.per_op {
                t.add(
                    match k {
                        "parsed" => "schedules: parsed",
                        "deserialized" => "schedules: deserialized",
                        "read and dropped by another thread" => "schedules: results read and dropped by another thread",
                        "read by several threads" => "schedules: results read by several threads",
                        _ => "schedules: results cloned by several threads",
                    },
                    v,
                );
            }
            for (i, why) in rep.bad {
                t.bad(&g[i], why, format!("{} threads, {} other messages", plan.threads, g.len() - 1));
            }
        }
    });
    alloc::jitter(0);
    // the same under a race detector
    let tsan: &'static Path = Box::leak(probes::target().join("tsan/x86_64-unknown-linux-gnu/plain/probe").into_boxed_path());
    let inputs: Vec<Vec<u8>> = groups.iter().take(cx.pick(80, 400)).flat_map(|g| g.0.clone()).collect();
    let processes = (cx.threads / 2).max(1);
    let deadline = Instant::now() + Duration::from_secs(cx.pick(40, 60));
    let seed = cx.seed;
    let rounds = inputs.len() / processes / per + 1;
    let make = |k: usize| Job {
        program: tsan,
        before: &[],
        mode: "threads",
        after: vec![(seed + 1000 * k as u64).to_string(), "4".into(), "150".into(), rounds.to_string()],
        env: vec![("TSAN_OPTIONS", "halt_on_error=1:exitcode=66".into())],
        dir: None,
        deadline,
        all_memory: true,
    };
    let ran = probes::run_all(make, &inputs, processes);
    cx.seq(|t| {
        t.add("ThreadSanitizer: rounds", ran.started);
        t.add("ThreadSanitizer: calls logged", ran.events);
        t.add("ThreadSanitizer: calls under way at the same time", ran.overlaps);
        t.add("ThreadSanitizer: processes cut short by the time limit", ran.cut);
        for o in &ran.outside {
            t.nd("ThreadSanitizer: processes without an answer");
            cx.no_answer(format!("ThreadSanitizer: {o}"));
        }
        for (i, why) in ran.died.iter().chain(&ran.said) {
            t.bad(&inputs[*i], format!("ThreadSanitizer build: {why}"), "a group of messages which begins with this one, used by four threads".into());
        }
    });
}
