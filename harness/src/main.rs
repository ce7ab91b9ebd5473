//! Runtime monitors for the nrbf crate. `mon check Cxx` runs the check of one property.

#![allow(dead_code)]
mod alloc;
mod checks;
mod corpus;
mod cx;
mod dict;
mod digest;
mod doc;
mod guard;
mod judge;
mod mutate;
mod mval;
mod real;
mod refdec;
mod report;
mod rng;
mod sched;
mod slot;
mod soup;
mod steps;
#[cfg(feature = "serde")]
mod sv;
mod wire;

use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitCode, Stdio};
use std::time::{Duration, Instant};

use crate::cx::{Bad, Cx, Sum};

/// A case which takes longer than this counts as running forever.
const STUCK_SECS: u64 = 60;

fn main() -> ExitCode {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(String::as_str) {
        Some("check") => parent(&args[2]),
        Some("worker") => worker(&args[2], &args[3]),
        Some("one") => one(&args[2]),
        Some("literals") => {
            dict::list();
            ExitCode::SUCCESS
        }
        Some("replay") => replay(&args[2]),
        Some(other) => checks::tool(other, &args[2..]),
        None => ExitCode::from(2),
    }
}

pub fn level_of(_id: &str) -> &'static str {
    "exploration"
}

pub fn limit_memory(bytes: u64) {
    // RLIMIT_AS
    unsafe {
        slot::setrlimit(9, &[bytes, u64::MAX]);
    }
}

/// The builds a check runs, in this order; the last one is this program.
fn builds_of(id: &str) -> Vec<(&'static str, PathBuf)> {
    let own = std::env::current_exe().expect("own path");
    let target = report::root().join("target");
    match id {
        "C01" => vec![
            ("debug build", target.join("debug/mon")),
            ("release build", target.join("plain/mon")),
            ("", own),
        ],
        _ => vec![("", own)],
    }
}

/// Runs the workers and explains their death if they do not come back.
fn parent(id: &str) -> ExitCode {
    let dir = report::root().join("scratch");
    let _ = std::fs::create_dir_all(&dir);
    let part_file = dir.join(format!("part-{id}-{}", std::process::id()));
    let _ = std::fs::remove_file(&part_file);
    let mut code = 0;
    for (label, exe) in builds_of(id) {
        if !exe.exists() {
            eprintln!("{id}: {} is missing", exe.display());
            code = 3;
            break;
        }
        code = supervise(id, label, &exe, &part_file);
        if code != 0 {
            break;
        }
    }
    let _ = std::fs::remove_file(&part_file);
    ExitCode::from(code)
}

fn supervise(id: &str, label: &str, exe: &Path, part_file: &Path) -> u8 {
    let start = Instant::now();
    let cx = Cx::new(id);
    let dir = report::root().join("scratch");
    let slot_path = dir.join(format!("slot-{id}-{}", std::process::id()));
    let slot_str = slot_path.to_string_lossy().to_string();
    let mut last = String::new();
    for attempt in 0..2 {
        let _ = std::fs::remove_file(&slot_path);
        let mut cmd = Command::new(exe);
        cmd.arg("worker").arg(id).arg(&slot_str).env("MON_PART_FILE", part_file);
        if label.is_empty() {
            cmd.env_remove("MON_PART");
        } else {
            cmd.env("MON_PART", label);
        }
        if attempt == 1 {
            cmd.env("MON_THREADS", "2");
        }
        let mut child = cmd.spawn().expect("worker");
        let mut stuck = false;
        let status = loop {
            match child.try_wait().expect("wait") {
                Some(s) => break s,
                None => std::thread::sleep(Duration::from_millis(20)),
            }
            if slot::stuck(&slot_str, STUCK_SECS) {
                stuck = true;
                let _ = child.kill();
                break child.wait().expect("wait");
            }
        };
        match status.code() {
            Some(c @ (0 | 1 | 3)) if !stuck => {
                let _ = std::fs::remove_file(&slot_path);
                return c as u8;
            }
            _ => (),
        }
        last = if stuck { format!("no result within {STUCK_SECS} s") } else { format!("process ended: {status}") };
        eprintln!("{id} {label}: worker: {last}");
        let running = std::fs::read(&slot_path).map(|f| slot::in_progress(&f)).unwrap_or_default();
        let mut bad = vec![];
        for (input, whole, secs) in &running {
            if !whole {
                continue;
            }
            if let Some(why) = reproduces(exe, input) {
                let why = if label.is_empty() { why } else { format!("{label}: {why}") };
                bad.push(Bad { why, input: input.clone(), note: format!("worker: {last}; running for {secs} s") });
            }
        }
        // Ended by somebody else, or slowed down by somebody else: no answer.
        let outside = stuck || matches!(status.signal(), Some(9 | 15 | 1 | 2 | 3 | 24));
        if bad.is_empty() && attempt == 1 && !outside {
            for (input, whole, secs) in &running {
                bad.push(Bad {
                    why: format!("{label} the process did not survive ({last}) while this input was in progress"),
                    input: input.clone(),
                    note: format!("whole input recorded: {whole}; running for {secs} s; not reproduced alone"),
                });
            }
        }
        if !bad.is_empty() {
            let _ = std::fs::remove_file(&slot_path);
            let mut sum = Sum { n_bad: bad.len() as u64, evaluations: running.len() as u64, ..Sum::default() };
            sum.rule = "The monitored process died; the inputs in progress were run again alone.".into();
            report::evidence(id, cx.tier(), cx.seed, level_of(id), &sum, start.elapsed().as_secs_f64());
            report::violations(id, cx.seed, &bad);
            return 1;
        }
    }
    let _ = std::fs::remove_file(&slot_path);
    eprintln!("{id} {label}: {last}, and nothing can be blamed on an input");
    3
}

/// Runs one input in a process of its own: what happens to the process?
fn reproduces(exe: &Path, input: &[u8]) -> Option<String> {
    let dir = report::root().join("scratch");
    let path = dir.join(format!("one-{}", std::process::id()));
    std::fs::write(&path, input).ok()?;
    let mut child = Command::new(exe).arg("one").arg(&path).stderr(Stdio::null()).stdout(Stdio::null()).spawn().ok()?;
    let t = Instant::now();
    let r = loop {
        if let Ok(Some(s)) = child.try_wait() {
            break if s.success() {
                None
            } else if s.code() == Some(9) {
                Some("panics".to_string())
            } else if s.signal() == Some(24) {
                Some(format!("no result within {STUCK_SECS} s of processor time"))
            } else if matches!(s.signal(), Some(4 | 5 | 6 | 7 | 8 | 11)) {
                Some(format!("the process is ended by this input ({s})"))
            } else {
                None
            };
        }
        if t.elapsed() > Duration::from_secs(STUCK_SECS * 5) {
            let _ = child.kill();
            let _ = child.wait();
            break None;
        }
        std::thread::sleep(Duration::from_millis(20));
    };
    let _ = std::fs::remove_file(&path);
    r
}

/// Everything a user does with an input, on a thread with the default stack size.
fn one(path: &str) -> ExitCode {
    limit_memory(12 << 30);
    unsafe {
        // RLIMIT_CPU: ends with signal 24
        slot::setrlimit(0, &[STUCK_SECS, STUCK_SECS + 5]);
    }
    let input = std::fs::read(path).expect("input");
    if input.len() <= 1 << 20 {
        // at the end and at the beginning of accessible memory
        let g = guard::Guarded::new(1 << 20);
        for at_end in [true, false] {
            let _ = checks::c01::use_everything(g.place(&input, at_end));
        }
    }
    match checks::c01::use_everything_on_small_stack(&input) {
        Ok(_) => ExitCode::SUCCESS,
        Err(_) => ExitCode::from(9),
    }
}

fn worker(id: &str, slot_file: &str) -> ExitCode {
    limit_memory(14 << 30);
    slot::open(slot_file);
    if std::env::var("MON_PANICS").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let cx = Cx::new(id);
    if !checks::run(id, &cx) {
        eprintln!("no check {id}");
        return ExitCode::from(2);
    }
    let part_file = std::env::var("MON_PART_FILE").unwrap_or_default();
    if cx.part.is_none() {
        cx.absorb(&std::fs::read_to_string(&part_file).unwrap_or_default());
    }
    let part = cx.part.clone();
    let (seed, tier, wall) = (cx.seed, cx.tier(), cx.start.elapsed().as_secs_f64());
    let mut sum = cx.finish();
    if let Some(p) = &part {
        use std::io::Write;
        for b in &mut sum.bad {
            b.why = format!("{p}: {}", b.why);
        }
        if let Ok(mut f) = std::fs::OpenOptions::new().append(true).create(true).open(&part_file) {
            let _ = f.write_all(sum.as_part(p).as_bytes());
        }
    }
    if part.is_none() || sum.n_bad > 0 {
        report::evidence(id, tier, seed, level_of(id), &sum, wall);
    }
    for k in &sum.known {
        println!("KNOWN-FINDING: property={id} {k}");
    }
    println!(
        "{id} {tier} seed {seed}{}: {} evaluations, {} distinct, {} violations, {wall:.1} s",
        part.map(|p| format!(" ({p})")).unwrap_or_default(),
        sum.evaluations,
        sum.distinct.len(),
        sum.n_bad
    );
    if report::violations(id, seed, &sum.bad) {
        return ExitCode::from(1);
    }
    for s in &sum.silent {
        eprintln!("{id}: no answer: {s}");
    }
    ExitCode::from(if sum.silent.is_empty() { 0 } else { 3 })
}

fn replay(path: &str) -> ExitCode {
    let text = std::fs::read_to_string(path).expect("replay file");
    let Some(h) = text.lines().find_map(|l| l.strip_prefix("input: ")) else { return ExitCode::from(2) };
    for l in text.lines().filter(|l| !l.starts_with("input: ")) {
        println!("{l}");
    }
    let input = report::unhex(h);
    if input.len() < 400 {
        println!("input: {}", report::hex(&input));
    }
    println!("reference: {:?}", refdec::decode(&input).name());
    if let refdec::Verdict::Must(m) | refdec::Verdict::May(m, _) = refdec::decode(&input) {
        println!("reference value: {}", m.brief());
    }
    println!("crate: {}", real::run(&input).brief());
    ExitCode::SUCCESS
}
