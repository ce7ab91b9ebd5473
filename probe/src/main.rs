//! A small program which uses the crate. It is built with other features, profiles, sanitizers and
//! run by Miri, always on a file of inputs, and says on its output what it does and sees.

#[path = "../../harness/src/alloc.rs"]
#[allow(dead_code)]
mod alloc;
#[path = "../../harness/src/digest.rs"]
mod digest;
#[path = "../../harness/src/rng.rs"]
#[allow(dead_code)]
mod rng;
#[path = "../../harness/src/sched.rs"]
mod sched;

use std::io::Write;
use std::panic::{AssertUnwindSafe, catch_unwind};

/// The inputs of a file: a length and the bytes of each.
fn inputs(path: &str) -> Vec<Vec<u8>> {
    let f = std::fs::read(path).expect("inputs");
    let mut v = vec![];
    let mut at = 0;
    while at + 4 <= f.len() {
        let n = u32::from_le_bytes(f[at..at + 4].try_into().unwrap()) as usize;
        v.push(f[at + 4..at + 4 + n].to_vec());
        at += 4 + n;
    }
    v
}

fn digests(b: &[u8]) -> (u64, u64, Option<String>) {
    let p = catch_unwind(AssertUnwindSafe(|| digest::parsed(b)));
    let d = catch_unwind(AssertUnwindSafe(|| digest::deserialized(b)));
    let mut invalid = None;
    let mut h = |r: std::thread::Result<digest::Pic>| match r {
        Ok(p) => {
            invalid = invalid.take().or(p.invalid);
            digest::hash(p.text.as_bytes())
        }
        // the text of a panic is no result
        Err(_) => 0xdead,
    };
    let (p, d) = (h(p), h(d));
    (p, d, invalid)
}

/// Everything a user does with an input, in a buffer which is as long as the input.
fn use_all(b: &[u8], which: usize) -> Option<String> {
    let own: Box<[u8]> = b.into();
    let mut invalid = None;
    {
        let r = nrbf::RemotingMessage::parse(&own);
        let p = digest::of(&r);
        invalid = invalid.or(p.invalid);
        match &r {
            Ok(m) => {
                if !cfg!(miri) || which % 2 == 0 {
                    let c = m.clone();
                    std::hint::black_box(&c == m);
                }
                if !cfg!(miri) || which % 4 == 1 {
                    std::hint::black_box(format!("{m:?}").len());
                }
            }
            Err(e) => {
                let c = e.clone();
                std::hint::black_box(&c == e);
                std::hint::black_box(format!("{e:?}{e}").len());
            }
        }
    }
    #[cfg(feature = "serde")]
    {
        use serde::de::IgnoredAny;
        use std::collections::HashMap;
        fn of<'a, T: serde::Deserialize<'a>>(input: &'a [u8]) {
            std::hint::black_box(nrbf::from_slice::<T>(input).is_ok());
        }
        if !cfg!(miri) || which % 4 == 3 {
            invalid = invalid.or(digest::deserialized(&own).invalid);
        }
        let all: [fn(&[u8]); 8] = [
            |b| of::<i64>(b),
            |b| of::<&str>(b),
            |b| of::<String>(b),
            |b| of::<char>(b),
            |b| of::<Option<IgnoredAny>>(b),
            |b| of::<(IgnoredAny, IgnoredAny)>(b),
            |b| of::<Vec<Option<String>>>(b),
            |b| of::<HashMap<&str, IgnoredAny>>(b),
        ];
        // the interpreter takes its time
        if cfg!(miri) {
            if which % 4 == 2 {
                all[which / 4 % 8](&own);
            }
        } else {
            all.iter().for_each(|f| f(&own));
        }
    }
    invalid
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let arg = |i: usize| args.get(i).and_then(|a| a.parse::<u64>().ok()).unwrap_or(0);
    let all = inputs(&args[2]);
    let out = std::io::stdout();
    let say = |s: String| {
        let mut o = out.lock();
        let _ = o.write_all(s.as_bytes());
        let _ = o.flush();
    };
    if args[1] != "use" {
        std::panic::set_hook(Box::new(|_| ()));
    }
    match args[1].as_str() {
        // digests of all inputs, in one process
        "digest" => {
            let mut order: Vec<usize> = (0..all.len()).collect();
            match arg(3) {
                0 => (),
                1 => order.reverse(),
                n => rng::Rng::new(n).shuffle(&mut order),
            }
            let run = || {
                for i in order {
                    say(format!("> {i}\n"));
                    let (p, d, bad) = digests(&all[i]);
                    say(format!("= {i} {p:x} {d:x}\n"));
                    if let Some(b) = bad {
                        say(format!("! {i} {b}\n"));
                    }
                }
            };
            // deep structures need as much as a main thread has, at least
            std::thread::scope(|s| {
                std::thread::Builder::new().stack_size(32 << 20).spawn_scoped(s, run).expect("spawn");
            });
        }
        // every input in a process which never did anything else
        "fresh" => {
            for (i, b) in all.iter().enumerate() {
                say(format!("> {i}\n"));
                match fork() {
                    0 => {
                        let (p, d, bad) = digests(b);
                        say(format!("= {i} {p:x} {d:x}\n"));
                        if let Some(b) = bad {
                            say(format!("! {i} {b}\n"));
                        }
                        unsafe { _exit(0) };
                    }
                    pid => wait(pid),
                }
            }
        }
        "use" => {
            for (i, b) in all.iter().enumerate() {
                say(format!("> {i}\n"));
                match catch_unwind(AssertUnwindSafe(|| use_all(b, i))) {
                    Ok(Some(b)) => say(format!("! {i} {b}\n")),
                    Ok(None) => (),
                    // not the subject here
                    Err(_) => say(format!("- {i} panics\n")),
                }
            }
        }
        "threads" => {
            let usable = sched::bound_types().is_empty();
            let (threads, calls, rounds) = (arg(4) as usize, arg(5) as usize, arg(6));
            // a group of inputs for every round
            let per = all.len().div_ceil(rounds.max(1) as usize).max(1);
            for k in 0..rounds {
                let from = (k as usize * per).min(all.len());
                let group = &all[from..(from + per).min(all.len())];
                if group.is_empty() || !usable {
                    break;
                }
                say(format!("> {from}\n"));
                let plan = sched::Plan { threads, calls, hand_over: k % 2 == 1, delays: k % 4 != 0 };
                let rep = sched::run(group, None, arg(3) + k, &plan);
                for (i, why) in &rep.bad {
                    say(format!("! {} {why}\n", from + i));
                }
                say(format!("# {} {} {}\n", rep.events, rep.overlaps, rep.pairs));
            }
        }
        _ => std::process::exit(2),
    }
    say("done\n".into());
}

unsafe extern "C" {
    #[link_name = "fork"]
    fn c_fork() -> i32;
    fn waitpid(pid: i32, status: *mut i32, options: i32) -> i32;
    fn _exit(code: i32) -> !;
}

/// Only while there is one thread.
fn fork() -> i32 {
    unsafe { c_fork() }
}

fn wait(pid: i32) {
    let mut st = 0;
    unsafe { waitpid(pid, &mut st, 0) };
}
