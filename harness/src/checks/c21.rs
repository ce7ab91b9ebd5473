//! No undefined behaviour, no access outside the input, nothing leaked.

use std::path::Path;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use super::probes::{self, Job};
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg};
use crate::guard::Guarded;
use crate::{alloc, corpus, digest, mutate, real};

/// Parses, uses and drops, in guarded memory which cannot be written.
fn guarded(b: &[u8], what: &str, t: &mut Tally) {
    thread_local! {
        static AREA: Guarded = Guarded::new(1 << 16);
    }
    if b.len() > 1 << 16 {
        return;
    }
    t.eval(b, b.len() > 17);
    t.nd(&format!("input: {what}"));
    AREA.with(|g| {
        for at_end in [true, false] {
            let input = g.place(b, at_end);
            let go = || {
                let r = nrbf::RemotingMessage::parse(input);
                let p = digest::of(&r);
                if let Ok(m) = &r {
                    let c = m.clone();
                    std::hint::black_box(&c == m);
                }
                let d = digest::deserialized(input);
                let n = (p.values, p.strings);
                (p.invalid.or(d.invalid), r.is_ok(), n)
            };
            match real::watched(b, go) {
                Ok((invalid, ok, (values, strings))) => {
                    if let Some(i) = invalid {
                        t.bad(b, format!("{what}: {i}"), String::new());
                    }
                    t.n(if ok { "accepted, used and dropped" } else { "rejected" });
                    t.add("values looked at", values);
                    t.add("texts looked at", strings);
                }
                Err(_) => t.n("panics"),
            }
            t.n(if at_end { "inputs which end at a guard page" } else { "inputs which begin at a guard page" });
        }
    });
    leak(b, what, t);
}

/// What is kept after a run, again and again, is lost.
fn leak(b: &[u8], what: &str, t: &mut Tally) {
    let run = || {
        alloc::measured(|| {
            let _ = std::hint::black_box(nrbf::RemotingMessage::parse(b).map(|m| m.clone()).is_ok());
            #[cfg(feature = "serde")]
            let _ = std::hint::black_box(nrbf::from_slice::<serde::de::IgnoredAny>(b).is_ok());
        })
        .1
    };
    let Ok(u) = real::watched(b, run) else { return };
    t.add("blocks of memory given out", u.calls);
    if u.kept == 0 && u.blocks == 0 {
        return;
    }
    // something may be kept once for all
    let Ok((u1, u2, u3)) = real::watched(b, || (run(), run(), run())) else { return };
    if u1.blocks > 0 && u2.blocks > 0 && u3.blocks > 0 && u1.kept > 0 && u2.kept > 0 && u3.kept > 0 {
        t.bad(b, format!("{what}: {} bytes in {} blocks are still allocated after everything was dropped, every time", u3.kept, u3.blocks), String::new());
    }
}

pub fn c21(cx: &Cx) {
    cx.rule(
        "A case is one input: parsed, looked at, cloned, compared, deserialized and dropped in memory which ends or begins at a \
         guard page and cannot be written, while a ledger counts what stays allocated and every text, character and Boolean is \
         tested for being one; or the same in a program built with AddressSanitizer, in a buffer as long as the input; or \
         interpreted by Miri. Distinct by bytes.",
    );
    let start = Instant::now();
    // the interpreter is slow: it begins first
    let n_miri = cx.pick(600, 8000);
    let n_asan = cx.pick(30_000, 900_000);
    let gather = |label: &str, n: u64, small: bool| {
        let v = Mutex::new(vec![]);
        cx.par(label, n, |r, i, _| {
            let b = loop {
                let b = if small && r.chance(50) {
                    let calls = *r.pick(&[0, 90]);
                    let w = doc::generate(r, &Cfg { size: 8, calls, ..Cfg::default() });
                    if r.chance(60) { w.buf } else { mutate::any(r, &w) }
                } else if r.chance(if small { 12 } else { 5 }) {
                    let (p, code, n) = (*r.pick(&[0, 7, 8, 14]), *r.pick(&crate::wire::PRIMS), r.range(30, if small { 44 } else { 600 }));
                    corpus::array_of(r, p, code, n)
                } else if r.chance(20) {
                    corpus::no_value(r)
                } else {
                    corpus::one(r).0
                };
                if (!small || b.len() < 420) && !real::bomb(&b, 0) {
                    break b;
                }
            };
            v.lock().unwrap().push((i, b));
        });
        let mut v = v.into_inner().unwrap();
        v.sort();
        v.into_iter().map(|x| x.1).collect::<Vec<_>>()
    };
    let for_miri = gather("for Miri", n_miri, true);
    let for_asan = gather("for AddressSanitizer", n_asan, false);
    let asan: &'static Path = Box::leak(probes::target().join("asan/x86_64-unknown-linux-gnu/plain/probe").into_boxed_path());
    let miri: &'static Path = Box::leak(crate::report::root().join("miri.sh").into_boxed_path());
    std::thread::scope(|s| {
        let m = cx.threads;
        let miri_deadline = start + Duration::from_secs(cx.pick(45, 500));
        let under_miri = s.spawn(move || {
            let make = |_: usize| Job { program: miri, before: &[], mode: "use", after: vec![], env: vec![], dir: None, deadline: miri_deadline, all_memory: true };
            let ran = probes::run_all(make, &for_miri, m);
            (ran, for_miri)
        });
        let asan_deadline = start + Duration::from_secs(cx.pick(90, 500));
        let under_asan = s.spawn(move || {
            let make = |_: usize| Job {
                program: asan,
                before: &[],
                mode: "use",
                after: vec![],
                env: vec![("ASAN_OPTIONS", "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:detect_stack_use_after_return=1".into())],
                dir: None,
                deadline: asan_deadline,
                all_memory: true,
            };
            let ran = probes::run_all(make, &for_asan, m);
            (ran, for_asan)
        });
        workloads(cx);
        for (name, h) in [("AddressSanitizer", under_asan), ("Miri", under_miri)] {
            let (ran, inputs) = h.join().expect("runner");
            cx.seq(|t| {
                for i in &inputs {
                    t.eval(i, i.len() > 17);
                }
                t.nd(&format!("tool: {name}"));
                match name {
                    "Miri" => {
                        t.add("Miri: inputs finished", ran.finished);
                        t.add("Miri: inputs which panic", ran.panics);
                        t.add("Miri: processes cut short by the time limit", ran.cut);
                    }
                    _ => {
                        t.add("AddressSanitizer: inputs finished", ran.finished);
                        t.add("AddressSanitizer: inputs which panic", ran.panics);
                        t.add("AddressSanitizer: processes cut short by the time limit", ran.cut);
                    }
                }
                for o in &ran.outside {
                    t.nd(&format!("{name}: processes without an answer"));
                    cx.no_answer(format!("{name}: {o}"));
                }
                for (i, why) in ran.died.iter().chain(&ran.said) {
                    t.bad(&inputs[*i], format!("{name}: {why}"), String::new());
                }
            });
        }
    });
}

fn workloads(cx: &Cx) {
    cx.par("guarded", cx.pick(40_000, 3_000_000), |r, _, t| {
        let (b, what) = corpus::one(r);
        guarded(&b, what, t);
    });
    cx.par("no values", cx.pick(60_000, 2_000_000), |r, _, t| {
        let b = corpus::no_value(r);
        if !real::bomb(&b, 0) {
            guarded(&b, "bytes which are no value of their type", t);
        }
    });
    cx.par("prefixes", cx.pick(300, 20_000), |r, _, t| {
        let w = doc::generate(r, &Cfg { size: 15, ..Cfg::default() });
        for k in 0..w.buf.len() {
            guarded(&w.buf[..k], "prefix", t);
        }
    });
}
