//! Replay files, evidence files and the lines a check prints.

use std::fmt::Write as _;
use std::path::PathBuf;

use crate::cx::{Bad, Sum};

pub fn root() -> PathBuf {
    std::env::var_os("VERIF_DIR").map(PathBuf::from).unwrap_or_else(|| PathBuf::from("/verif"))
}

pub fn hex(b: &[u8]) -> String {
    let mut s = String::with_capacity(b.len() * 2);
    for x in b {
        let _ = write!(s, "{x:02x}");
    }
    s
}

pub fn unhex(s: &str) -> Vec<u8> {
    let d: Vec<u8> = s.bytes().filter(u8::is_ascii_hexdigit).map(|c| (c as char).to_digit(16).unwrap() as u8).collect();
    d.chunks_exact(2).map(|c| c[0] << 4 | c[1]).collect()
}

pub fn esc(s: &str) -> String {
    let mut o = String::with_capacity(s.len() + 2);
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

/// Writes one replay file per violation and prints the lines; returns whether there were any.
pub fn violations(id: &str, seed: u64, bad: &[Bad]) -> bool {
    let dir = root().join("replay");
    let _ = std::fs::create_dir_all(&dir);
    let mut sorted: Vec<&Bad> = bad.iter().collect();
    sorted.sort_by_key(|b| b.input.len());
    let mut seen: Vec<String> = vec![];
    for b in sorted {
        // one per kind of violation
        let kind: String = b.why.chars().filter(|c| !c.is_ascii_digit()).take(60).collect();
        if seen.contains(&kind) {
            continue;
        }
        seen.push(kind);
        if seen.len() > 5 {
            break;
        }
        let path = dir.join(format!("{id}-{}.txt", seen.len()));
        let mut s = String::new();
        let _ = writeln!(s, "property: {id}");
        let _ = writeln!(s, "seed: {seed}");
        let _ = writeln!(s, "violation: {}", b.why.replace('\n', " "));
        if !b.note.is_empty() {
            let _ = writeln!(s, "note: {}", b.note.replace('\n', " "));
        }
        let _ = writeln!(s, "replay: /verif/run.sh replay {}", path.display());
        let _ = writeln!(s, "length: {}", b.input.len());
        let _ = writeln!(s, "input: {}", hex(&b.input));
        let _ = std::fs::write(&path, s);
        println!("  {}: {}", id, b.why);
        println!("VIOLATION property={id} replay={}", path.display());
    }
    !bad.is_empty()
}

pub fn evidence(id: &str, tier: &str, seed: u64, level: &str, sum: &Sum, wall: f64) {
    let dir = root().join("evidence");
    let _ = std::fs::create_dir_all(&dir);
    let mut s = String::new();
    let _ = write!(
        s,
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":{},\"coverage\":{{",
        esc(id),
        esc(tier),
        seed as i64,
        esc(level)
    );
    let _ = write!(s, "\"evaluations\":{},\"distinct_nontrivial\":{}", sum.evaluations, sum.distinct.len());
    let _ = write!(s, ",\"rule\":{}", esc(&sum.rule));
    s.push_str(",\"samples\":[");
    for (i, x) in sum.samples.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&esc(x));
    }
    s.push_str("],\"observed\":{");
    for (i, (k, v)) in sum.counts.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}:{}", esc(k), v);
    }
    s.push_str("},\"maxima\":{");
    for (i, (k, v)) in sum.maxima.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        let _ = write!(s, "{}:{}", esc(k), v);
    }
    s.push_str("},\"enumerated_completely\":[");
    for (i, x) in sum.exhaustive.iter().enumerate() {
        if i > 0 {
            s.push(',');
        }
        s.push_str(&esc(x));
    }
    let _ = write!(s, "]}},\"wall_s\":{wall:.3},\"violations\":{}}}", sum.n_bad);
    s.push('\n');
    let _ = std::fs::write(dir.join(format!("{id}.json")), s);
}
