//! Development aid: generator against reference decoder against crate.

use std::collections::BTreeMap;

use crate::doc::{self, Cfg};
use crate::rng::Rng;
use crate::{judge, mutate, real, refdec};

pub fn run(args: &[String]) {
    let n: u64 = args.first().and_then(|a| a.parse().ok()).unwrap_or(1000);
    let seed: u64 = args.get(1).and_then(|a| a.parse().ok()).unwrap_or(1);
    let mut names: BTreeMap<String, u64> = BTreeMap::new();
    let mut shown = 0;
    let mut sizes = 0;
    for i in 0..n {
        let mut r = Rng::derive(seed, "cross", i);
        let w = doc::generate(&mut r, &Cfg::default());
        sizes += w.buf.len();
        let mutated = args.len() > 2;
        let buf = if mutated { mutate::any(&mut r, &w) } else { w.buf.clone() };
        let v = refdec::decode(&buf);
        if !refdec::safe(&buf, &v) {
            *names.entry("bomb".into()).or_insert(0) += 1;
            continue;
        }
        let got = real::run(&buf);
        *names.entry(format!("{} / {}", v.name(), if got.accepted() { "accepted" } else { "rejected" })).or_insert(0) += 1;
        let wrong = judge::wrong(&got, &v);
        let is_bad = wrong.is_some() || !mutated && matches!(v, refdec::Verdict::Reject(..));
        if is_bad && shown < 5 {
            shown += 1;
            println!("case {i}: {} / {}: {:?}", v.name(), got.brief(), wrong);
            println!("{}", crate::report::hex(&buf));
        }
    }
    println!("{names:#?} avg size {}", sizes as u64 / n);
}
