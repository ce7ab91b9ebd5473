//! Mutations of well-formed messages: of fields with a known meaning, of whole records, of bytes.

use crate::dict;
use crate::rng::Rng;
use crate::wire::{F, Span, W};

pub fn is_i32(f: F) -> bool {
    use F::*;
    matches!(
        f,
        RootId | HeaderId
            | Major
            | Minor
            | ObjId
            | RefId
            | MetaId
            | LibId
            | LibUse
            | ArrLen
            | NullCount
            | MemberCount
            | ArgCount
            | Rank
            | Dim
            | LowerBound
            | Flags
    )
}

pub fn is_id(f: F) -> bool {
    use F::*;
    matches!(f, RootId | ObjId | RefId | MetaId | LibId | LibUse)
}

pub fn is_count(f: F) -> bool {
    use F::*;
    matches!(f, ArrLen | NullCount | MemberCount | ArgCount | Rank | Dim)
}

pub fn is_code(f: F) -> bool {
    use F::*;
    matches!(
        f,
        TopTag | MemberTag
            | EndTag
            | HeaderTag
            | LibTag
            | BinType
            | PrimTypeMember
            | PrimTypeTyped
            | PrimTypeArray
            | PrimTypePrimArray
            | PrimTypeArg
            | ArrType
            | StrCode
            | NullCount256
            | Bool
    )
}

pub fn get_i32(b: &[u8], off: usize) -> i32 {
    i32::from_le_bytes(b[off..off + 4].try_into().unwrap())
}

pub fn set_i32(b: &mut [u8], off: usize, v: i32) {
    b[off..off + 4].copy_from_slice(&v.to_le_bytes());
}

/// One change of one field.
pub fn field(r: &mut Rng, w: &W) -> (Vec<u8>, Span) {
    let mut b = w.buf.clone();
    let s = *r.pick(&w.spans);
    let end = s.off + s.len;
    if is_id(s.f) {
        // another id of this message, a neighbour, or something odd
        let v = get_i32(&b, s.off);
        let n = match r.below(6) {
            _ if r.chance(10) && dict::has_new_ints() => dict::int(r) as i32,
            0..=2 => {
                let others: Vec<&Span> = w.spans.iter().filter(|x| is_id(x.f)).collect();
                get_i32(&w.buf, r.pick(&others).off)
            }
            3 => v.wrapping_add(*r.pick(&[1, -1])),
            4 => *r.pick(&[0, -1, i32::MIN, i32::MAX, 1, 2, 3]),
            _ => v ^ (1 << r.below(32)),
        };
        set_i32(&mut b, s.off, n);
    } else if is_i32(s.f) {
        let v = get_i32(&b, s.off);
        let n = match r.below(4) {
            _ if r.chance(10) && dict::has_new_ints() => dict::int(r) as i32,
            0 => v.wrapping_add(*r.pick(&[1, -1, 2, -2])),
            1 => *r.pick(&[0, -1, 1, 2, 255, 256, 65535, 65536, i32::MAX, i32::MIN]),
            2 => v ^ (1 << r.below(32)),
            _ => r.below(12) as i32,
        };
        set_i32(&mut b, s.off, n);
    } else if is_code(s.f) {
        b[s.off] = match r.below(3) {
            _ if r.chance(10) && dict::has_new_ints() => dict::int(r) as u8,
            0 => b[s.off].wrapping_add(*r.pick(&[1, 255])),
            1 => r.below(24) as u8,
            _ => r.u8(),
        };
    } else if s.f == F::StrLen {
        match r.below(3) {
            0 => b[s.off] = b[s.off].wrapping_add(*r.pick(&[1, 255])),
            1 => b[s.off] ^= 0x80,
            _ => b[end - 1] = r.u8(),
        }
    } else if s.len > 0 {
        let i = s.off + r.below(s.len);
        b[i] = match r.below(2) {
            0 => r.u8(),
            _ => b[i] ^ (1 << r.below(8)),
        };
    }
    (b, s)
}

/// Swaps, repeats or drops whole records.
pub fn records(r: &mut Rng, w: &W) -> Vec<u8> {
    if w.recs.is_empty() {
        return w.buf.clone();
    }
    let head = w.recs[0].0;
    let tail = w.recs.last().unwrap().1;
    let mut recs: Vec<&[u8]> = w.recs.iter().map(|(a, b)| &w.buf[*a..*b]).collect();
    match r.below(4) {
        0 => {
            let i = r.below(recs.len());
            recs.remove(i);
        }
        1 => {
            let i = r.below(recs.len());
            let j = r.below(recs.len() + 1);
            recs.insert(j, recs[i]);
        }
        2 => {
            let i = r.below(recs.len());
            let j = r.below(recs.len());
            recs.swap(i, j);
        }
        _ => {
            let i = r.below(recs.len());
            let x = recs.remove(i);
            let j = r.below(recs.len() + 1);
            recs.insert(j, x);
        }
    }
    let mut b = w.buf[..head].to_vec();
    for x in recs {
        b.extend_from_slice(x);
    }
    b.extend_from_slice(&w.buf[tail..]);
    b
}

pub fn bytes(r: &mut Rng, buf: &[u8]) -> Vec<u8> {
    let mut b = buf.to_vec();
    for _ in 0..r.range(1, 3) {
        if b.is_empty() {
            b.push(r.u8());
            continue;
        }
        let i = r.below(b.len());
        match r.below(6) {
            0 => b[i] = r.u8(),
            1 => b[i] ^= 1 << r.below(8),
            2 => {
                b.remove(i);
            }
            3 => b.insert(i, r.u8()),
            4 => {
                let n = r.range(1, 8).min(b.len() - i);
                b.drain(i..i + n);
            }
            _ => {
                let n = r.range(1, 16).min(b.len() - i);
                let x = b[i..i + n].to_vec();
                let j = r.below(b.len() + 1);
                b.splice(j..j, x);
            }
        }
    }
    b
}

/// Puts the contents of one field where another of its kind stands.
pub fn transplant(r: &mut Rng, w: &W) -> Vec<u8> {
    let unit = |i: usize| {
        let s = w.spans[i];
        let text = i > 0 && w.spans[i - 1].f == F::StrLen && w.spans[i - 1].off + w.spans[i - 1].len == s.off;
        let from = if text { w.spans[i - 1].off } else { s.off };
        (from, s.off + s.len)
    };
    let i = r.below(w.spans.len());
    let f = w.spans[i].f;
    let of_kind: Vec<usize> = (0..w.spans.len()).filter(|j| w.spans[*j].f == f).collect();
    let at = of_kind.iter().position(|j| *j == i).unwrap_or(0);
    // often the one before
    let j = if at > 0 && r.chance(40) { of_kind[at - 1] } else { *r.pick(&of_kind) };
    let ((a, b), (c, d)) = (unit(i), unit(j));
    let mut out = w.buf.clone();
    out.splice(a..b, w.buf[c..d].iter().copied());
    out
}

/// Any of these.
pub fn any(r: &mut Rng, w: &W) -> Vec<u8> {
    match r.below(11) {
        10 => transplant(r, w),
        0..=4 => field(r, w).0,
        5 | 6 => records(r, w),
        7 => {
            let b = field(r, w).0;
            bytes(r, &b)
        }
        _ => bytes(r, &w.buf),
    }
}
