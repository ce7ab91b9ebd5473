//! Concurrent use of the crate: threads which parse, deserialize, hand over and share, while every
//! call is written to a log. The log is checked afterwards.

use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::Relaxed};
use std::sync::{Barrier, Mutex};

use nrbf::RemotingMessage;

use crate::alloc;
use crate::digest;
use crate::rng::Rng;

mod auto {
    //! Is a type Send, is it Sync? Answered without refusing to compile.
    use std::marker::PhantomData;

    pub struct IsSend<T>(PhantomData<T>);
    pub struct IsSync<T>(PhantomData<T>);

    #[allow(dead_code)]
    pub trait Otherwise {
        const YES: bool = false;
    }

    impl<T> Otherwise for IsSend<T> {}
    impl<T> Otherwise for IsSync<T> {}

    impl<T: Send> IsSend<T> {
        pub const YES: bool = true;
    }

    impl<T: Sync> IsSync<T> {
        pub const YES: bool = true;
    }
}

/// The types which cannot be used from any thread.
pub fn bound_types() -> Vec<String> {
    #[allow(unused_imports)]
    use auto::{IsSend, IsSync, Otherwise as _};
    let mut v = vec![];
    macro_rules! check {
        ($($t:ty),*) => {$(
            if !IsSend::<$t>::YES {
                v.push(format!("{} cannot be sent to another thread", stringify!($t)));
            }
            if !IsSync::<$t>::YES {
                v.push(format!("{} cannot be shared between threads", stringify!($t)));
            }
        )*};
    }
    check!(
        RemotingMessage<'static>,
        nrbf::MethodCall<'static>,
        nrbf::MethodReturn<'static>,
        nrbf::Value<'static>,
        nrbf::value::Object<'static>,
        nrbf::value::DateTime,
        nrbf::value::TimeSpan,
        nrbf::value::Decimal,
        nrbf::Error<'static>
    );
    v
}

/// For types which are, or whose use ends before they are found not to be.
struct Any<T>(T);
unsafe impl<T> Send for Any<T> {}
unsafe impl<T> Sync for Any<T> {}

type Parsed<'a> = Result<RemotingMessage<'a>, nrbf::Error<'a>>;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub enum Op {
    Parse,
    Deserialize,
    HandedOver,
    Shared,
    Clone,
}

/// One call, with the moments at which it began and ended.
#[derive(Clone, Copy)]
pub struct Event {
    pub thread: u8,
    pub op: Op,
    pub input: u32,
    pub begin: u64,
    pub end: u64,
    pub digest: u64,
}

#[derive(Default)]
pub struct Report {
    pub events: u64,
    pub overlaps: u64,
    pub pairs: u64,
    pub per_op: BTreeMap<&'static str, u64>,
    /// input and explanation
    pub bad: Vec<(usize, String)>,
}

pub struct Plan {
    pub threads: usize,
    pub calls: usize,
    /// locks are only used if results are handed over
    pub hand_over: bool,
    pub delays: bool,
}

fn d(p: &digest::Pic, bad: &Mutex<Vec<(usize, String)>>, i: usize) -> u64 {
    if let Some(x) = &p.invalid {
        bad.lock().unwrap().push((i, x.clone()));
    }
    digest::hash(p.text.as_bytes())
}

/// `want`: digests of parsing and deserializing in a process which did nothing else.
pub fn run(inputs: &[Vec<u8>], want: Option<&[(u64, u64)]>, seed: u64, plan: &Plan) -> Report {
    let clock = AtomicU64::new(0);
    let bad = Mutex::new(vec![]);
    let logs = Mutex::new(Vec::<Event>::new());
    let pool: Mutex<Vec<Any<(usize, Parsed<'_>)>>> = Mutex::new(vec![]);
    let n_shared = inputs.len().min(6);
    let shared: Vec<Any<Parsed<'_>>> = inputs[..n_shared].iter().map(|b| Any(RemotingMessage::parse(b))).collect();
    let barrier = Barrier::new(plan.threads);
    let round = AtomicUsize::new(0);
    std::thread::scope(|s| {
        for th in 0..plan.threads {
            let (clock, bad, logs, pool, shared, barrier, round) = (&clock, &bad, &logs, &pool, &shared, &barrier, &round);
            s.spawn(move || {
                let mut r = Rng::derive(seed, "sched", th as u64);
                let mut log = vec![];
                barrier.wait();
                if plan.delays {
                    alloc::jitter(r.u64() | 1);
                }
                for k in 0..plan.calls {
                    // often the same input as the others
                    let i = if r.chance(50) { (round.fetch_add(1, Relaxed) / plan.threads) % inputs.len() } else { r.below(inputs.len()) };
                    let mut ev = Event { thread: th as u8, op: Op::Parse, input: i as u32, begin: clock.fetch_add(1, Relaxed), end: 0, digest: 0 };
                    match r.below(10) {
                        0..3 => {
                            ev.op = Op::Deserialize;
                            ev.digest = d(&digest::deserialized(&inputs[i]), bad, i);
                        }
                        3 if plan.hand_over => {
                            let other = {
                                let mut p = pool.lock().unwrap();
                                if p.is_empty() {
                                    None
                                } else {
                                    let at = r.below(p.len());
                                    Some(p.swap_remove(at))
                                }
                            };
                            if let Some(Any((j, m))) = other {
                                ev.op = Op::HandedOver;
                                ev.input = j as u32;
                                ev.digest = d(&digest::of(&m), bad, j);
                                drop(m);
                            } else {
                                continue;
                            }
                        }
                        4 => {
                            let j = r.below(shared.len());
                            ev.op = Op::Shared;
                            ev.input = j as u32;
                            ev.digest = d(&digest::of(&shared[j].0), bad, j);
                        }
                        5 => {
                            let j = r.below(shared.len());
                            ev.op = Op::Clone;
                            ev.input = j as u32;
                            let c = shared[j].0.clone();
                            ev.digest = d(&digest::of(&c), bad, j);
                        }
                        _ => {
                            let m = RemotingMessage::parse(&inputs[i]);
                            ev.digest = d(&digest::of(&m), bad, i);
                            if plan.hand_over && r.chance(40) {
                                let mut p = pool.lock().unwrap();
                                if p.len() < 64 {
                                    p.push(Any((i, m)));
                                }
                            }
                        }
                    }
                    ev.end = clock.fetch_add(1, Relaxed);
                    log.push(ev);
                    if plan.delays && k % 7 == 0 {
                        std::thread::yield_now();
                    }
                }
                alloc::jitter(0);
                logs.lock().unwrap().extend(log);
            });
        }
    });
    drop(pool);
    drop(shared);
    let log = logs.into_inner().unwrap();
    check(&log, want, bad.into_inner().unwrap())
}

/// The specification: the digest of a call is a function of its input alone.
fn check(log: &[Event], want: Option<&[(u64, u64)]>, bad: Vec<(usize, String)>) -> Report {
    let mut rep = Report { events: log.len() as u64, bad, ..Report::default() };
    let mut first: BTreeMap<(u32, bool), Event> = BTreeMap::new();
    for e in log {
        let name = match e.op {
            Op::Parse => "parsed",
            Op::Deserialize => "deserialized",
            Op::HandedOver => "read and dropped by another thread",
            Op::Shared => "read by several threads",
            Op::Clone => "cloned by several threads",
        };
        *rep.per_op.entry(name).or_insert(0) += 1;
        let de = e.op == Op::Deserialize;
        if let Some(w) = want {
            let w = w[e.input as usize];
            let w = if de { w.1 } else { w.0 };
            if w != e.digest {
                rep.bad.push((e.input as usize, format!("{name} while other threads were at work: not the result of a fresh process")));
            }
        } else {
            let f = first.entry((e.input, de)).or_insert(*e);
            if f.digest != e.digest {
                rep.bad.push((e.input as usize, format!("{name} while other threads were at work: thread {} and thread {} get different results", f.thread, e.thread)));
            }
        }
    }
    // which calls were under way at the same time?
    let mut order: Vec<&Event> = log.iter().collect();
    order.sort_by_key(|e| e.begin);
    let mut open: Vec<&Event> = vec![];
    let mut pairs = HashSet::new();
    for e in order {
        open.retain(|o| o.end > e.begin);
        rep.overlaps += open.len() as u64;
        for o in &open {
            if pairs.len() < 2_000_000 {
                pairs.insert((o.input.min(e.input), o.input.max(e.input), o.op.min(e.op), o.op.max(e.op)));
            }
        }
        open.push(e);
    }
    rep.pairs = pairs.len() as u64;
    rep
}
