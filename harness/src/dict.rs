//! Texts and numbers worth trying: what .NET writes, and the literals of the code under test (a
//! comparison with a constant is only reached by an input that contains it). Literals which the
//! code had when the generators were tuned are in known_literals.txt; others are tried more often.

use std::collections::{BTreeMap, HashSet};
use std::path::Path;
use std::sync::OnceLock;

use crate::rng::Rng;

pub const NET: [&str; 64] = [
    "<Name>k__BackingField",
    "<Count>k__BackingField",
    "<>7__wrap1",
    "<>1__state",
    "Base+field",
    "List`1+_items",
    "_items",
    "_size",
    "_version",
    "m_value",
    "value__",
    "value",
    "Value",
    "VALUE",
    "Comparer",
    "HashSize",
    "KeyValuePairs",
    "LoadFactor",
    "_flags",
    "hi",
    "lo",
    "mid",
    "ticks",
    "dateData",
    "_kind",
    "System.Object",
    "System.String",
    "System.Int32",
    "System.Int32[]",
    "System.Decimal",
    "System.DateTime",
    "System.TimeSpan",
    "System.Guid",
    "System.Version",
    "System.UnitySerializationHolder",
    "System.DelegateSerializationHolder",
    "System.Collections.ArrayList",
    "System.Collections.Hashtable",
    "System.Collections.Generic.Dictionary`2[[System.String, mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089],[System.Int32, mscorlib]]",
    "System.Collections.Generic.KeyValuePair`2[[System.String],[System.Int32]]",
    "System.Collections.Generic.HashSet`1[[System.String]]",
    "System.Nullable`1[[System.Int32]]",
    "System.Tuple`2[[System.Int32],[System.String]]",
    "mscorlib",
    "mscorlib, Version=4.0.0.0, Culture=neutral, PublicKeyToken=b77a5c561934e089",
    "System.Private.CoreLib, Version=8.0.0.0, Culture=neutral, PublicKeyToken=7cec85d7bea7798e",
    "Some.Company, Version=1.0.0.0, Culture=neutral, PublicKeyToken=null",
    "Outer+Inner",
    "Outer+Inner`1",
    "A.B, C",
    "A/B",
    "A\\B",
    " a",
    "a ",
    "a\0",
    "\0a",
    "null",
    "true",
    "False",
    "0",
    "-1",
    "NaN",
    "<",
    ">",
];

#[derive(Default)]
pub struct Dict {
    pub strings: Vec<String>,
    pub ints: Vec<i64>,
    /// of both, those that are new
    pub new_strings: Vec<String>,
    pub new_ints: Vec<i64>,
}

const KNOWN: &str = include_str!("../known_literals.txt");

fn number(t: &str) -> Option<i64> {
    let t: String = t.chars().filter(|c| *c != '_').collect();
    let (digits, radix) = match t.get(..2) {
        Some("0x") => (&t[2..], 16),
        Some("0b") => (&t[2..], 2),
        Some("0o") => (&t[2..], 8),
        _ => (&t[..], 10),
    };
    let end = if radix == 16 {
        // a suffix like i64, but not a digit
        ["usize", "isize", "u128", "i128", "u64", "i64", "u32", "i32", "u16", "i16", "u8", "i8"]
            .iter()
            .find_map(|s| digits.strip_suffix(s))
            .map_or(digits.len(), str::len)
    } else {
        digits.find(|c: char| !c.is_digit(radix)).unwrap_or(digits.len())
    };
    u128::from_str_radix(&digits[..end], radix).ok().and_then(|n| u64::try_from(n).ok()).map(|n| n as i64)
}

/// The literals of some Rust code.
pub fn literals(code: &str) -> (Vec<String>, Vec<i64>) {
    let c: Vec<char> = code.chars().collect();
    let (mut strings, mut ints) = (vec![], vec![]);
    let mut i = 0;
    let mut pending_shift: Option<i64> = None;
    while i < c.len() {
        match c[i] {
            '/' if c.get(i + 1) == Some(&'/') => {
                while i < c.len() && c[i] != '\n' {
                    i += 1;
                }
            }
            '/' if c.get(i + 1) == Some(&'*') => {
                i += 2;
                while i + 1 < c.len() && !(c[i] == '*' && c[i + 1] == '/') {
                    i += 1;
                }
                i += 2;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while i < c.len() && c[i] != '"' {
                    if c[i] == '\\' {
                        i += 1;
                        match c.get(i) {
                            Some('n') => s.push('\n'),
                            Some('t') => s.push('\t'),
                            Some('r') => s.push('\r'),
                            Some('0') => s.push('\0'),
                            Some('x') => {
                                let h: String = c.iter().skip(i + 1).take(2).collect();
                                s.push(u8::from_str_radix(&h, 16).map_or('?', char::from));
                                i += 2;
                            }
                            Some('u') => {
                                let h: String = c.iter().skip(i + 2).take_while(|x| **x != '}').collect();
                                s.push(u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).unwrap_or('?'));
                                i += h.len() + 2;
                            }
                            Some(x) => s.push(*x),
                            None => (),
                        }
                    } else {
                        s.push(c[i]);
                    }
                    i += 1;
                }
                i += 1;
                strings.push(s);
            }
            '\'' => {
                // a character or a lifetime
                if c.get(i + 1) == Some(&'\\') {
                    let mut j = i + 2;
                    while j < c.len() && j < i + 14 && (c[j] != '\'' || j == i + 2) {
                        j += 1;
                    }
                    let body: String = c[i + 1..j.min(c.len())].iter().collect();
                    let (s, _) = literals(&format!("\"{body}\""));
                    strings.extend(s);
                    i = j + 1;
                } else if c.get(i + 2) == Some(&'\'') {
                    strings.push(c[i + 1].to_string());
                    i += 3;
                } else {
                    i += 1;
                }
            }
            d if d.is_ascii_digit() => {
                let mut j = i;
                while j < c.len() && (c[j].is_ascii_alphanumeric() || c[j] == '_') {
                    j += 1;
                }
                let t: String = c[i..j].iter().collect();
                if let Some(n) = number(&t) {
                    ints.push(n);
                    if let Some(b) = pending_shift {
                        if (0..64).contains(&n) {
                            ints.push(b.wrapping_shl(n as u32));
                        }
                    }
                    let rest: String = c[j..].iter().take(4).collect();
                    pending_shift = rest.trim_start().starts_with("<<").then_some(n);
                }
                i = j;
            }
            a if a.is_alphabetic() || a == '_' => {
                while i < c.len() && (c[i].is_alphanumeric() || c[i] == '_') {
                    i += 1;
                }
                pending_shift = None;
            }
            _ => i += 1,
        }
    }
    (strings, ints)
}

fn read(dir: &Path, out: &mut String) {
    let Ok(entries) = std::fs::read_dir(dir) else { return };
    let mut paths: Vec<_> = entries.flatten().map(|e| e.path()).collect();
    paths.sort();
    for p in paths {
        if p.is_dir() {
            read(&p, out);
        } else if p.extension().is_some_and(|e| e == "rs") {
            let text = std::fs::read_to_string(&p).unwrap_or_default();
            // tests do not decide what the code does
            out.push_str(text.split("#[cfg(test)]").next().unwrap_or_default());
            out.push('\n');
        }
    }
}

/// The literals of the code under test, in order and without repetitions.
pub fn current() -> (Vec<String>, Vec<i64>) {
    let mut code = String::new();
    read(Path::new(concat!(env!("CARGO_MANIFEST_DIR"), "/../../repo/src")), &mut code);
    let (s, n) = literals(&code);
    let mut seen = HashSet::new();
    let strings: Vec<String> = s.into_iter().filter(|s| s.len() <= 200 && seen.insert(s.clone())).take(2000).collect();
    let mut seen = BTreeMap::new();
    n.into_iter().for_each(|n| {
        seen.insert(n, ());
    });
    (strings, seen.into_keys().take(2000).collect())
}

pub fn dict() -> &'static Dict {
    static D: OnceLock<Dict> = OnceLock::new();
    D.get_or_init(|| {
        let (strings, ints) = current();
        let known: HashSet<&str> = KNOWN.lines().collect();
        let new_strings = strings.iter().filter(|s| !known.contains(format!("s {s:?}").as_str())).cloned().collect();
        let new_ints = ints.iter().filter(|n| !known.contains(format!("n {n}").as_str())).copied().collect();
        Dict { strings, ints, new_strings, new_ints }
    })
}

/// `mon literals`: what goes into known_literals.txt.
pub fn list() {
    let (strings, ints) = current();
    strings.iter().for_each(|s| println!("s {s:?}"));
    ints.iter().for_each(|n| println!("n {n}"));
}

fn fragment(r: &mut Rng) -> String {
    let d = dict();
    if !d.new_strings.is_empty() && r.chance(60) {
        r.pick(&d.new_strings).clone()
    } else if !d.strings.is_empty() && r.chance(25) {
        r.pick(&d.strings).clone()
    } else {
        r.pick(&NET).to_string()
    }
}

/// A text out of the ordinary ones.
pub fn text(r: &mut Rng) -> String {
    let d = dict();
    if !d.new_strings.is_empty() && r.chance(30) {
        // all of them, in order, with something in between
        let mut s = String::new();
        for f in d.new_strings.iter().take(8) {
            if r.chance(70) {
                s.push_str(f);
            }
            if r.chance(50) {
                s.push(char::from(b'a' + r.below(26) as u8));
            }
        }
        return s;
    }
    match r.below(6) {
        0..=2 => fragment(r),
        3 => format!("{}{}", fragment(r), char::from(b'a' + r.below(26) as u8)),
        4 => format!("{}{}", char::from(b'a' + r.below(26) as u8), fragment(r)),
        _ => format!("{}{}", fragment(r), fragment(r)),
    }
}

/// A number which the code compares something with, or one next to it.
pub fn int(r: &mut Rng) -> i64 {
    let d = dict();
    let n = if !d.new_ints.is_empty() && r.chance(70) {
        *r.pick(&d.new_ints)
    } else if !d.ints.is_empty() {
        *r.pick(&d.ints)
    } else {
        0
    };
    match r.below(8) {
        0 => n.wrapping_add(1),
        1 => n.wrapping_sub(1),
        2 => n.wrapping_neg(),
        3 => !n,
        _ => n,
    }
}

/// Whether the code has numbers that are new: ids and lengths should try them.
pub fn has_new_ints() -> bool {
    !dict().new_ints.is_empty()
}

/// A number that is new in the code, within the limits, or a neighbour.
pub fn new_int(r: &mut Rng, lo: i64, hi: i64) -> Option<i64> {
    let d = dict();
    if d.new_ints.is_empty() {
        return None;
    }
    let n = r.pick(&d.new_ints).wrapping_add(*r.pick(&[0, 0, 0, 1, -1]));
    (lo..=hi).contains(&n).then_some(n)
}

#[cfg(test)]
mod tests {
    #[test]
    fn scan() {
        let (s, n) = super::literals(r#"let a: &'static str = "x\"y"; // "no"
            if b == 'q' || c == '\n' || d == '\'' { 0x1_0f + 5u8 << 3 } 1 << 20 "#);
        assert_eq!(s, ["x\"y", "q", "\n", "'"]);
        assert_eq!(n, [0x10f, 5, 3, 40, 1, 20, 1 << 20]);
    }
}
