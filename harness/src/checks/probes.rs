//! Runs the probe, in its different builds, on files of inputs.

use std::fs::File;
use std::io::Write;
use std::os::unix::process::{CommandExt, ExitStatusExt};
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

use crate::report;

#[derive(Default, Clone)]
pub struct Ran {
    /// digests of parsing and deserializing, by input
    pub digests: Vec<Option<(u64, u64)>>,
    pub started: u64,
    pub finished: u64,
    pub panics: u64,
    /// what the program said about an input
    pub said: Vec<(usize, String)>,
    /// how the program ended during an input
    pub died: Vec<(usize, String)>,
    pub events: u64,
    pub overlaps: u64,
    pub pairs: u64,
    pub cut: u64,
    /// no answer: ended by somebody else, or before it began
    pub outside: Vec<String>,
}

pub fn target() -> PathBuf {
    report::root().join("target")
}

static NEXT: AtomicU64 = AtomicU64::new(0);

fn write_inputs(path: &Path, inputs: &[Vec<u8>]) {
    let mut f = std::io::BufWriter::new(File::create(path).expect("inputs"));
    for b in inputs {
        f.write_all(&(b.len() as u32).to_le_bytes()).expect("inputs");
        f.write_all(b).expect("inputs");
    }
}

/// What a sanitizer says in short.
fn reason(err: &str) -> Option<String> {
    let l = err
        .lines()
        .find(|l| l.starts_with("SUMMARY: ") || l.contains("Undefined Behavior:") || l.starts_with("error: memory leaked"))
        .or_else(|| err.lines().find(|l| l.starts_with("error")))?;
    let mut s = l.trim().to_string();
    if let Some(at) = err.lines().skip_while(|x| *x != l).find(|l| l.trim_start().starts_with("--> ") && l.contains("/repo/")) {
        s.push(' ');
        s.push_str(at.trim());
    }
    Some(s)
}

pub struct Job<'a> {
    pub program: &'a Path,
    pub before: &'a [&'a str],
    pub mode: &'a str,
    pub after: Vec<String>,
    pub env: Vec<(&'a str, String)>,
    pub dir: Option<&'a Path>,
    pub deadline: Instant,
    pub all_memory: bool,
}

/// One process; again after a death, from the next input on.
pub fn run(job: &Job<'_>, inputs: &[Vec<u8>], from: usize) -> Ran {
    let mut ran = Ran { digests: vec![None; inputs.len()], ..Ran::default() };
    let scratch = report::root().join("scratch");
    let mut at = 0;
    for attempt in 0..4 {
        if at >= inputs.len() {
            break;
        }
        let n = NEXT.fetch_add(1, Ordering::Relaxed);
        let name = |what: &str| scratch.join(format!("{what}-{}-{n}", std::process::id()));
        let (file, out, err) = (name("inputs"), name("out"), name("err"));
        write_inputs(&file, &inputs[at..]);
        let mut cmd = Command::new(job.program);
        cmd.args(job.before).arg(job.mode).arg(&file).args(&job.after);
        for (k, v) in &job.env {
            cmd.env(k, v);
        }
        if let Some(d) = job.dir {
            cmd.current_dir(d);
        }
        if job.all_memory {
            // shadow memory: address space which is not used
            unsafe {
                cmd.pre_exec(|| {
                    crate::slot::setrlimit(9, &[u64::MAX, u64::MAX]);
                    Ok(())
                });
            }
        }
        let piped = |p: &Path| Stdio::from(File::create(p).expect("output"));
        let mut child = match cmd.stdin(Stdio::null()).stdout(piped(&out)).stderr(piped(&err)).spawn() {
            Ok(c) => c,
            Err(e) => {
                ran.outside.push(format!("{}: {e}", job.program.display()));
                break;
            }
        };
        let mut cut = false;
        let status = loop {
            if let Some(s) = child.try_wait().expect("wait") {
                break s;
            }
            if Instant::now() > job.deadline {
                cut = true;
                let _ = child.kill();
                break child.wait().expect("wait");
            }
            std::thread::sleep(Duration::from_millis(5));
        };
        let said = std::fs::read_to_string(&out).unwrap_or_default();
        let errs = String::from_utf8_lossy(&std::fs::read(&err).unwrap_or_default()).to_string();
        for p in [&file, &out, &err] {
            let _ = std::fs::remove_file(p);
        }
        let mut last = None;
        let mut done = false;
        let started_before = ran.started;
        for l in said.lines() {
            let mut f = l.splitn(3, ' ');
            let kind = f.next().unwrap_or("");
            let i = f.next().and_then(|x| x.parse::<usize>().ok());
            let rest = f.next().unwrap_or("");
            match (kind, i) {
                (">", Some(i)) => {
                    ran.started += 1;
                    last = Some(i);
                }
                ("=", Some(i)) => {
                    let mut h = rest.split(' ').map(|x| u64::from_str_radix(x, 16).unwrap_or(0));
                    if let (Some(a), Some(b), Some(d)) = (h.next(), h.next(), ran.digests.get_mut(at + i)) {
                        *d = Some((a, b));
                    }
                }
                ("!", Some(i)) => ran.said.push((from + at + i, rest.to_string())),
                ("-", Some(_)) => ran.panics += 1,
                ("#", Some(n)) => {
                    let mut h = rest.split(' ').map(|x| x.parse::<u64>().unwrap_or(0));
                    ran.events += n as u64;
                    ran.overlaps += h.next().unwrap_or(0);
                    ran.pairs += h.next().unwrap_or(0);
                }
                ("done", _) => done = true,
                _ => (),
            }
        }
        if status.success() && done {
            break;
        }
        if cut {
            ran.cut += 1;
            break;
        }
        if matches!(status.signal(), Some(9 | 15 | 1 | 2 | 3 | 24)) || last.is_none() {
            ran.outside.push(format!("{} {}: {status}: {}", job.program.display(), job.mode, errs.lines().take(6).collect::<Vec<_>>().join(" / ")));
            break;
        }
        let why = reason(&errs).unwrap_or_else(|| format!("{status}"));
        let i = last.unwrap_or(0);
        if done {
            // after the last input
            ran.died.push((from + at + i, format!("at the end: {why}")));
            break;
        }
        ran.died.push((from + at + i, why));
        at += i + 1;
        if attempt == 0 && ran.started == started_before {
            break;
        }
    }
    ran.finished = ran.started.saturating_sub(ran.died.len() as u64);
    ran
}

/// Many processes, with a share of the inputs each.
pub fn run_all(make: impl Fn(usize) -> Job<'static> + Sync, inputs: &[Vec<u8>], processes: usize) -> Ran {
    let per = inputs.len().div_ceil(processes.max(1)).max(1);
    let parts: Vec<Ran> = std::thread::scope(|s| {
        let hs: Vec<_> = inputs
            .chunks(per)
            .enumerate()
            .map(|(k, c)| {
                let make = &make;
                s.spawn(move || run(&make(k), c, k * per))
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("probe runner")).collect()
    });
    let mut all = Ran::default();
    for p in parts {
        all.digests.extend(p.digests);
        all.started += p.started;
        all.finished += p.finished;
        all.panics += p.panics;
        all.said.extend(p.said);
        all.died.extend(p.died);
        all.events += p.events;
        all.overlaps += p.overlaps;
        all.pairs += p.pairs;
        all.cut += p.cut;
        all.outside.extend(p.outside);
    }
    all
}
