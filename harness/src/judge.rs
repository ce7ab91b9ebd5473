//! Compares what the crate did with a verdict of the reference decoder.

use crate::mval::{MMsg, diff_msg};
use crate::real::Got;
use crate::refdec::Verdict;

/// Why the result is wrong, if it is.
pub fn wrong(got: &Got, v: &Verdict) -> Option<String> {
    match (v, got) {
        (Verdict::Any(_), _) => None,
        (_, Got::Panic(p)) => Some(format!("panicked instead of a result: {p}")),
        (Verdict::Must(m), Got::Msg(g)) => diff_msg(g, m).map(|d| format!("wrong result: {d}")),
        (Verdict::Must(_), Got::Err(e)) => Some(format!("a well-formed message is rejected: {e}")),
        (Verdict::May(m, _), Got::Msg(g)) => diff_msg(g, m).map(|d| format!("wrong result: {d}")),
        (Verdict::May(..), Got::Err(_)) => None,
        (Verdict::Reject(k, off), Got::Msg(g)) => {
            Some(format!("accepted although it breaks a rule ({k:?} at offset {off}): {}", g.brief()))
        }
        (Verdict::Reject(..), Got::Err(_)) => None,
    }
}

/// Expectation which is known by construction.
pub fn wrong_value(got: &Got, want: &MMsg) -> Option<String> {
    match got {
        Got::Msg(g) => diff_msg(g, want).map(|d| format!("wrong result: {d}")),
        Got::Err(e) => Some(format!("a well-formed message is rejected: {e}")),
        Got::Panic(p) => Some(format!("panicked instead of a result: {p}")),
    }
}

pub fn not_rejected(got: &Got, rule: &str) -> Option<String> {
    match got {
        Got::Msg(g) => Some(format!("accepted although {rule}: {}", g.brief())),
        Got::Err(_) => None,
        Got::Panic(p) => Some(format!("panicked instead of an error although only {rule}: {p}")),
    }
}
