//! Features and build profiles do not change results.

use std::path::Path;
use std::sync::Mutex;
use std::time::{Duration, Instant};

use super::probes::{self, Job};
use super::{many, runs};
use crate::corpus;
use crate::cx::Cx;
use crate::report::hex;
use crate::soup;
use crate::{mutate, real};

const BUILDS: [(&str, &str, bool); 6] = [
    ("debug build with serde", "debug/probe", true),
    ("debug build without serde", "noserde/debug/probe", false),
    ("release build with serde", "plain/probe", true),
    ("release build without serde", "noserde/plain/probe", false),
    ("checked release build with serde", "release/probe", true),
    ("checked release build without serde", "noserde/release/probe", false),
];

pub fn c20(cx: &Cx) {
    cx.rule(
        "A case is one input, given to programs which differ only in the configuration of the crate: features and build profile. \
         Digests of everything that can be observed of the result are compared. Distinct by bytes.",
    );
    if let Ok(what) = std::env::var("MON_BUILD_FAILED") {
        cx.seq(|t| t.bad(&[], format!("the crate does not build {what}, although it does otherwise"), String::new()));
        return;
    }
    let rounds = cx.pick(1, 60);
    let per_round = cx.pick(60_000, 200_000u64);
    for round in 0..rounds {
        if cx.late() {
            break;
        }
        let inputs = Mutex::new(vec![]);
        cx.par("inputs", per_round, |r, i, t| {
            // other numbers in every round
            for _ in 0..round {
                r.u64();
            }
            let (b, what) = if i < 200 && round == 0 {
                let (what, b) = soup::bombs([1, 2, 30, 63, 64, 65, 66, 200][i as usize % 8]).swap_remove(i as usize / 8 % 8);
                (b, what)
            } else {
                corpus::one(r)
            };
            t.eval(&b, b.len() > 17);
            t.nd(&format!("input: {what}"));
            inputs.lock().unwrap().push((i, b));
        });
        // many of one thing: whatever may be checked, or done faster, from some number on
        let mut sizes = many::sizes(cx.pick(5_001, 20_001));
        if round > 0 {
            sizes.retain(|n| *n < 600);
        }
        let again = cx.pick(2, 4);
        cx.par("many", (many::FAMILIES.len() * sizes.len() * again) as u64, |r, i, t| {
            for _ in 0..round {
                r.u64();
            }
            let k = i as usize / again;
            let f = &many::FAMILIES[k % many::FAMILIES.len()];
            let (w, _) = (f.build)(r, sizes[k / many::FAMILIES.len()]);
            let b = match r.below(6) {
                0 => mutate::bytes(r, &w.buf),
                1 => w.buf[..r.below(w.buf.len())].to_vec(),
                _ => w.buf,
            };
            if real::bomb(&b, 0) {
                return;
            }
            t.eval(&b, true);
            t.nd(&format!("many: {}", f.name));
            inputs.lock().unwrap().push((u64::MAX / 2 + i, b));
        });
        let kinds: Vec<_> = runs::arrays().into_iter().chain(runs::rects()).chain(runs::classes()).collect();
        cx.par("runs", cx.pick(6_000, 30_000), |r, i, t| {
            for _ in 0..round {
                r.u64();
            }
            let n = *r.pick(&[2, 3, 17, 254, 255, 256, 257, 300, 512, 770]);
            let before = r.below(n.min(300));
            let mut slots = vec![None; before];
            let left = n - before;
            let k = match r.below(4) {
                0 => left + *r.pick(&[1, 2, 255, 256]),
                1 => r.range(1, left),
                _ => left,
            };
            slots.push(Some((k, k > 255 || r.chance(50))));
            if k < left {
                slots.extend(std::iter::repeat_n(None, left - k));
            }
            let (w, _) = runs::build(*r.pick(&kinds), n, &slots, r);
            t.eval(&w.buf, true);
            t.n("input: null runs in long containers");
            inputs.lock().unwrap().push((u64::MAX / 4 + i, w.buf));
        });
        let mut inputs = inputs.into_inner().unwrap();
        // shares of the same weight for every process
        for x in &mut inputs {
            x.0 = x.0.wrapping_mul(0x9E37_79B9_7F4A_7C15);
        }
        inputs.sort();
        let inputs: Vec<Vec<u8>> = inputs.into_iter().map(|x| x.1).collect();
        let deadline = Instant::now() + Duration::from_secs(cx.pick(200, 300));
        let mut results = vec![];
        for (name, exe, serde) in BUILDS {
            let path = probes::target().join(exe);
            if !path.exists() {
                // the third pair is not always built
                cx.seq(|t| t.nd(&format!("not built: {name}")));
                continue;
            }
            let path: &'static Path = Box::leak(path.into_boxed_path());
            let make = |_: usize| Job { program: path, before: &[], mode: "digest", after: vec![], env: vec![], dir: None, deadline, all_memory: false };
            let ran = probes::run_all(make, &inputs, cx.threads);
            cx.seq(|t| {
                t.add("digests compared", ran.digests.iter().flatten().count() as u64);
                t.nd(&format!("configuration: {name}"));
                for o in &ran.outside {
                    t.nd("processes without an answer");
                    cx.no_answer(o.clone());
                }
                if ran.cut > 0 {
                    t.nd("processes cut short");
                }
            });
            results.push((name, serde, ran));
        }
        cx.seq(|t| {
            for (i, b) in inputs.iter().enumerate() {
                let show = |r: &probes::Ran| match r.digests[i] {
                    Some((p, _)) if p == 0xdead => "panics".to_string(),
                    Some((p, _)) => format!("{p:x}"),
                    None => r.died.iter().find(|d| d.0 == i).map(|d| d.1.clone()).unwrap_or_default(),
                };
                let known: Vec<_> = results.iter().filter(|r| !show(&r.2).is_empty()).collect();
                let Some(first) = known.first() else { continue };
                for other in &known[1..] {
                    if show(&first.2) != show(&other.2) {
                        t.bad(b, format!("the {} and the {} parse differently: {} and {}", first.0, other.0, show(&first.2), show(&other.2)), hex(b));
                        break;
                    }
                }
                // what deserializing gives, where there is that
                let de: Vec<_> = known.iter().filter(|r| r.1).filter_map(|r| r.2.digests[i].map(|d| (r.0, d.1))).collect();
                for o in de.iter().skip(1) {
                    if o.1 != de[0].1 {
                        t.bad(b, format!("the {} and the {} deserialize differently", de[0].0, o.0), hex(b));
                        break;
                    }
                }
            }
        });
    }
}
