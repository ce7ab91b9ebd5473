//! The monitors' own picture of a message, compared bit by bit with what the crate returns.

use std::collections::BTreeMap;
use std::fmt::Write;

#[derive(Clone, Debug, PartialEq)]
pub enum MVal {
    Obj { class: String, lib: Option<String>, members: BTreeMap<String, MVal> },
    Arr(Vec<MVal>),
    Bool(bool),
    Byte(u8),
    Char(char),
    Dec(String),
    Double(u64),
    I16(i16),
    I32(i32),
    I64(i64),
    I8(i8),
    Single(u32),
    Ts(i64),
    Dt(i64),
    U16(u16),
    U32(u32),
    U64(u64),
    Str(String),
    Null,
}

#[derive(Clone, Debug, PartialEq)]
pub enum MMsg {
    Call { method: String, ty: String, ctx: Option<String>, args: Option<Vec<MVal>> },
    Ret { ret: Option<MVal>, ctx: Option<String>, args: Option<Vec<MVal>> },
    Val(MVal),
}

impl MVal {
    pub fn brief(&self) -> String {
        let mut s = String::new();
        self.write_brief(&mut s);
        if s.len() > 400 {
            let mut n = 400;
            while !s.is_char_boundary(n) {
                n -= 1;
            }
            s.truncate(n);
            s.push_str("...");
        }
        s
    }

    fn write_brief(&self, s: &mut String) {
        if s.len() > 500 {
            return;
        }
        match self {
            MVal::Obj { class, lib, members } => {
                let _ = write!(s, "{class:?}@{lib:?}{{");
                for (k, v) in members {
                    let _ = write!(s, "{k:?}:");
                    v.write_brief(s);
                    s.push(',');
                }
                s.push('}');
            }
            MVal::Arr(v) => {
                let _ = write!(s, "#{}[", v.len());
                for x in v {
                    x.write_brief(s);
                    s.push(',');
                    if s.len() > 500 {
                        break;
                    }
                }
                s.push(']');
            }
            MVal::Str(t) if t.len() > 60 => {
                let _ = write!(s, "Str(len {})", t.len());
            }
            other => {
                let _ = write!(s, "{other:?}");
            }
        }
    }

    /// Number of values in the tree.
    pub fn count(&self) -> usize {
        match self {
            MVal::Obj { members, .. } => 1 + members.values().map(MVal::count).sum::<usize>(),
            MVal::Arr(v) => 1 + v.iter().map(MVal::count).sum::<usize>(),
            _ => 1,
        }
    }

    pub fn height(&self) -> usize {
        match self {
            MVal::Obj { members, .. } => 1 + members.values().map(MVal::height).max().unwrap_or(0),
            MVal::Arr(v) => 1 + v.iter().map(MVal::height).max().unwrap_or(0),
            _ => 0,
        }
    }
}

impl MMsg {
    pub fn brief(&self) -> String {
        match self {
            MMsg::Val(v) => v.brief(),
            other => {
                let mut s = format!("{other:?}");
                if s.len() > 500 {
                    let mut n = 500;
                    while !s.is_char_boundary(n) {
                        n -= 1;
                    }
                    s.truncate(n);
                    s.push_str("...");
                }
                s
            }
        }
    }
}

/// Says where two values differ.
pub fn diff(got: &MVal, want: &MVal, path: &str) -> Option<String> {
    match (got, want) {
        (MVal::Obj { class: c1, lib: l1, members: m1 }, MVal::Obj { class: c2, lib: l2, members: m2 }) => {
            if c1 != c2 {
                return Some(format!("{path}: class {c1:?}, expected {c2:?}"));
            }
            if l1 != l2 {
                return Some(format!("{path}: library {l1:?}, expected {l2:?}"));
            }
            for k in m2.keys() {
                if !m1.contains_key(k) {
                    return Some(format!("{path}: member {k:?} is missing"));
                }
            }
            for (k, v) in m1 {
                match m2.get(k) {
                    None => return Some(format!("{path}: unexpected member {k:?}")),
                    Some(w) => {
                        if let Some(d) = diff(v, w, &format!("{path}.{k}")) {
                            return Some(d);
                        }
                    }
                }
            }
            None
        }
        (MVal::Arr(a), MVal::Arr(b)) => {
            if a.len() != b.len() {
                return Some(format!("{path}: {} elements, expected {}", a.len(), b.len()));
            }
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                if let Some(d) = diff(x, y, &format!("{path}[{i}]")) {
                    return Some(d);
                }
            }
            None
        }
        _ if got == want => None,
        _ => Some(format!("{path}: {} instead of {}", got.brief(), want.brief())),
    }
}

fn diff_args(got: &Option<Vec<MVal>>, want: &Option<Vec<MVal>>) -> Option<String> {
    match (got, want) {
        (None, None) => None,
        (Some(a), Some(b)) => diff(&MVal::Arr(a.clone()), &MVal::Arr(b.clone()), "args"),
        _ => Some(format!(
            "args are {}, expected {}",
            if got.is_some() { "present" } else { "absent" },
            if want.is_some() { "present" } else { "absent" }
        )),
    }
}

pub fn diff_msg(got: &MMsg, want: &MMsg) -> Option<String> {
    match (got, want) {
        (MMsg::Val(a), MMsg::Val(b)) => diff(a, b, "value"),
        (
            MMsg::Call { method: m1, ty: t1, ctx: c1, args: a1 },
            MMsg::Call { method: m2, ty: t2, ctx: c2, args: a2 },
        ) => {
            if m1 != m2 {
                return Some(format!("method name {m1:?}, expected {m2:?}"));
            }
            if t1 != t2 {
                return Some(format!("type name {t1:?}, expected {t2:?}"));
            }
            if c1 != c2 {
                return Some(format!("call context {c1:?}, expected {c2:?}"));
            }
            diff_args(a1, a2)
        }
        (MMsg::Ret { ret: r1, ctx: c1, args: a1 }, MMsg::Ret { ret: r2, ctx: c2, args: a2 }) => {
            match (r1, r2) {
                (None, None) => (),
                (Some(a), Some(b)) => {
                    if let Some(d) = diff(a, b, "return value") {
                        return Some(d);
                    }
                }
                _ => return Some(format!("return value {r1:?}, expected {r2:?}")),
            }
            if c1 != c2 {
                return Some(format!("call context {c1:?}, expected {c2:?}"));
            }
            diff_args(a1, a2)
        }
        _ => Some(format!("{} instead of {}", got.brief(), want.brief())),
    }
}
