//! Hostile inputs: sequences of plausible pieces, and structural bombs.

use crate::rng::Rng;

fn le(b: &mut Vec<u8>, v: i32) {
    b.extend_from_slice(&v.to_le_bytes());
}

fn id(r: &mut Rng) -> i32 {
    if r.chance(95) { r.range(1, 6) as i32 } else { *r.pick(&[0, -1, i32::MAX, i32::MIN, 255, 256]) }
}

fn n(r: &mut Rng) -> i32 {
    if r.chance(93) { r.below(4) as i32 } else { *r.pick(&[-1, 255, 256, 65536, i32::MAX, i32::MIN, 1 << 24]) }
}

fn text(b: &mut Vec<u8>, r: &mut Rng) {
    const T: [&str; 14] = [
        "", "A", "B", "m", "value__", "m_value", "_items", "_size", "_version", "System.Int32", "System.Boolean", "System.Char",
        "System.Collections.Generic.List`1[[System.Int32]]", "\u{e9}\u{1f600}",
    ];
    let t = *r.pick(&T);
    b.push(if r.chance(98) { t.len() as u8 } else { r.u8() });
    b.extend_from_slice(t.as_bytes());
}

fn prim(b: &mut Vec<u8>, r: &mut Rng, code: u8) {
    let len = match code {
        1 | 2 | 10 => 1,
        3 => {
            let mut t = [0; 4];
            let c = *r.pick(&['a', '\u{e9}', '\u{20ac}', '\u{1f600}']);
            b.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
            return;
        }
        5 => {
            let t = *r.pick(&["0", "-1.50", "79228162514264337593543950335", "x", "1e5", "+1", ".5", "5.", "1_0", "0.00000000000000000000000000005"]);
            b.push(t.len() as u8);
            b.extend_from_slice(t.as_bytes());
            return;
        }
        7 | 14 => 2,
        8 | 11 | 15 => 4,
        17 => 0,
        18 => return text(b, r),
        _ => 8,
    };
    for _ in 0..len {
        let x = if code == 1 { r.below(2) as u8 } else { r.u8() };
        b.push(x);
    }
}

fn prim_code(r: &mut Rng) -> u8 {
    if r.chance(97) { *r.pick(&[1, 2, 3, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16]) } else { r.below(20) as u8 }
}

/// Member type codes with what they need, and what a member of the type looks like.
fn types(b: &mut Vec<u8>, r: &mut Rng, count: usize) -> Vec<(u8, u8)> {
    let t: Vec<u8> = (0..count).map(|_| if r.chance(98) { r.below(8) as u8 } else { r.u8() }).collect();
    b.extend_from_slice(&t);
    t.into_iter()
        .map(|t| {
            let mut p = 0;
            match t {
                0 | 7 => {
                    p = prim_code(r);
                    b.push(p);
                }
                3 => text(b, r),
                4 => {
                    text(b, r);
                    le(b, id(r));
                }
                _ => (),
            }
            (t, p)
        })
        .collect()
}

fn member(b: &mut Vec<u8>, r: &mut Rng, t: Option<(u8, u8)>, depth: usize, budget: &mut usize) {
    if r.chance(3) {
        lib(b, r);
    }
    match t {
        Some((0, p)) => prim(b, r, p),
        Some((1, _)) if r.chance(60) => {
            b.push(6);
            le(b, id(r));
            text(b, r);
        }
        _ => match r.below(12) {
            0 | 1 => {
                b.push(9);
                le(b, id(r));
            }
            2 | 3 => b.push(10),
            4 => {
                b.push(13);
                b.push(r.below(4) as u8);
            }
            5 => {
                b.push(14);
                le(b, n(r));
            }
            6 | 7 => {
                b.push(8);
                let c = prim_code(r);
                b.push(c);
                prim(b, r, c);
            }
            8 => {
                b.push(6);
                le(b, id(r));
                text(b, r);
            }
            _ => {
                if depth > 0 && *budget > 0 {
                    class(b, r, depth - 1, budget);
                } else {
                    b.push(10);
                }
            }
        },
    }
}

fn lib(b: &mut Vec<u8>, r: &mut Rng) {
    b.push(12);
    le(b, id(r));
    text(b, r);
}

fn class(b: &mut Vec<u8>, r: &mut Rng, depth: usize, budget: &mut usize) {
    *budget = budget.saturating_sub(1);
    let tag = r.range(1, 5) as u8;
    b.push(tag);
    le(b, id(r));
    if tag == 1 {
        le(b, id(r));
        for _ in 0..r.below(3) {
            member(b, r, None, depth, budget);
        }
        return;
    }
    text(b, r);
    let c = r.below(4);
    le(b, if r.chance(98) { c as i32 } else { n(r) });
    for _ in 0..c {
        text(b, r);
    }
    let mut t = vec![];
    if tag >= 4 {
        t = types(b, r, c);
    }
    if tag == 3 || tag == 5 {
        le(b, id(r));
    }
    for i in 0..c {
        member(b, r, t.get(i).copied(), depth, budget);
    }
}

fn record(b: &mut Vec<u8>, r: &mut Rng) {
    let mut budget = 12;
    match r.below(12) {
        0 => lib(b, r),
        1..=4 => class(b, r, 4, &mut budget),
        5 => {
            b.push(6);
            le(b, id(r));
            text(b, r);
        }
        6 | 7 => {
            b.push(*r.pick(&[16, 17]));
            le(b, id(r));
            let c = r.below(5);
            le(b, if r.chance(95) { c as i32 } else { n(r) });
            for _ in 0..c {
                member(b, r, None, 3, &mut budget);
            }
        }
        8 => {
            b.push(15);
            le(b, id(r));
            let c = r.below(5);
            le(b, if r.chance(95) { c as i32 } else { n(r) });
            let p = prim_code(r);
            b.push(p);
            for _ in 0..c {
                prim(b, r, p);
            }
        }
        9 | 10 => {
            b.push(7);
            le(b, id(r));
            let kind = if r.chance(97) { r.below(6) as u8 } else { r.u8() };
            b.push(kind);
            let rank = r.range(1, 3);
            le(b, if r.chance(97) { rank as i32 } else { n(r) });
            let mut total = 1;
            for _ in 0..rank {
                let d = r.below(4);
                total *= d;
                le(b, if r.chance(97) { d as i32 } else { n(r) });
            }
            if kind >= 3 {
                for _ in 0..rank {
                    le(b, r.i32());
                }
            }
            let t = types(b, r, 1)[0];
            for _ in 0..total {
                member(b, r, Some(t), 3, &mut budget);
            }
        }
        _ => {
            b.push(*r.pick(&[21, 22]));
            let flags = if r.chance(90) { 1 << r.below(4) | 1 << (4 + r.below(3)) | 1 << (9 + r.below(3)) } else { r.i32() };
            le(b, flags);
            for _ in 0..r.below(4) {
                b.push(18);
                text(b, r);
            }
            if r.chance(60) {
                let c = r.below(4);
                le(b, c as i32);
                for _ in 0..c {
                    let p = prim_code(r);
                    b.push(p);
                    prim(b, r, p);
                }
            }
        }
    }
}

/// Pieces which look like records, with ids which meet by chance.
pub fn soup(r: &mut Rng) -> Vec<u8> {
    let mut b = vec![0];
    le(&mut b, if r.chance(90) { r.range(1, 4) as i32 } else { id(r) });
    le(&mut b, -1);
    le(&mut b, 1);
    le(&mut b, 0);
    for _ in 0..r.range(1, 7) {
        record(&mut b, r);
    }
    b.push(11);
    if r.chance(15) {
        let at = r.below(b.len());
        b[at] = r.u8();
    }
    if r.chance(5) {
        let at = r.below(b.len());
        b.truncate(at);
    }
    b
}

fn head(root: i32) -> Vec<u8> {
    let mut b = vec![0];
    le(&mut b, root);
    le(&mut b, -1);
    le(&mut b, 1);
    le(&mut b, 0);
    b
}

fn class_head(b: &mut Vec<u8>, tag: u8, id: i32, name: &str, members: &[&str]) {
    b.push(tag);
    le(b, id);
    b.push(name.len() as u8);
    b.extend_from_slice(name.as_bytes());
    le(b, members.len() as i32);
    for m in members {
        b.push(m.len() as u8);
        b.extend_from_slice(m.as_bytes());
    }
}

/// Structures which get deep, wide or claim to be huge. `n` scales them.
pub fn bombs(n: usize) -> Vec<(&'static str, Vec<u8>)> {
    let mut v: Vec<(&'static str, Vec<u8>)> = vec![];
    let mut add = |name: &'static str, mut b: Vec<u8>, end: bool| {
        if end {
            b.push(11);
        }
        v.push((name, b));
    };
    for (tag, name) in [
        (2u8, "system classes in one another"),
        (3, "library classes in one another"),
        (4, "typed system classes in one another"),
        (5, "typed library classes in one another"),
    ] {
        for close in [true, false] {
            let mut b = head(1);
            b.push(12);
            le(&mut b, 1);
            b.extend_from_slice(b"\x01L");
            for i in 0..n {
                class_head(&mut b, tag, i as i32 + 1, "C", &["m"]);
                match tag {
                    4 => b.extend_from_slice(b"\x03\x01C"),
                    5 => {
                        b.extend_from_slice(b"\x04\x01C");
                        le(&mut b, 1);
                    }
                    _ => (),
                }
                if tag == 3 || tag == 5 {
                    le(&mut b, 1);
                }
            }
            b.push(10);
            add(name, b, close);
        }
    }
    // instances in instances of one class
    let mut b = head(1);
    class_head(&mut b, 2, 1, "C", &["m"]);
    for i in 0..n {
        b.push(1);
        le(&mut b, i as i32 + 2);
        le(&mut b, 1);
    }
    b.push(10);
    add("instances in one another", b, true);
    // a class with two members, nested in the first or in the second one
    for first in [true, false] {
        let mut b = head(1);
        for i in 0..n {
            class_head(&mut b, 2, i as i32 + 1, "C", &["a", "b"]);
            if !first {
                b.push(10);
            }
        }
        for _ in 0..n + 1 {
            b.push(10);
        }
        add("classes with two members in one another", b, true);
    }
    // arrays which refer to the next one, to the one before
    for tag in [16u8, 17, 7] {
        for forward in [true, false] {
            let mut b = head(if forward { 1 } else { n as i32 });
            for i in 0..n as i32 {
                b.push(tag);
                le(&mut b, i + 1);
                if tag == 7 {
                    b.push(0);
                    le(&mut b, 1);
                }
                le(&mut b, 1);
                if tag == 7 {
                    b.push(2);
                }
                let to = if forward { i + 2 } else { i };
                if to == 0 || to > n as i32 {
                    b.push(10);
                } else {
                    b.push(9);
                    le(&mut b, to);
                }
            }
            add("arrays which refer to one another", b, true);
        }
    }
    // the same with classes
    for forward in [true, false] {
        let mut b = head(if forward { 1 } else { n as i32 });
        for i in 0..n as i32 {
            class_head(&mut b, 2, i + 1, "C", &["m"]);
            let to = if forward { i + 2 } else { i };
            if to == 0 || to > n as i32 {
                b.push(10);
            } else {
                b.push(9);
                le(&mut b, to);
            }
        }
        add("classes which refer to one another", b, true);
    }
    // classes nested to the limit which refer to one another
    let mut b = head(1);
    let mut at = 1;
    while (at as usize) < n {
        for k in 0..40 {
            class_head(&mut b, 2, at + k, "C", &["m"]);
        }
        b.push(9);
        le(&mut b, at + 40);
        at += 40;
    }
    add("nested classes which refer to the next ones", b, true);
    // every object refers to the last one twice: a tree of two to the power of n leaves
    let mut b = head(1);
    for i in 0..n.min(60) as i32 {
        b.push(16);
        le(&mut b, i + 1);
        le(&mut b, 2);
        for _ in 0..2 {
            b.push(9);
            le(&mut b, i + 2);
        }
    }
    b.push(16);
    le(&mut b, n.min(60) as i32 + 1);
    le(&mut b, 0);
    add("two references to each next array", b, true);
    // cycles
    for k in [1i32, 2, 3, 10] {
        let mut b = head(1);
        for i in 0..k {
            b.push(16);
            le(&mut b, i + 1);
            le(&mut b, 1);
            b.push(9);
            le(&mut b, (i + 1) % k + 1);
        }
        add("cycle of references", b, true);
    }
    // ranks
    for rank in [1i32, 2, 31, 32, 33, 255, 10_000, i32::MAX] {
        for dim in [0i32, 1, 2, i32::MAX] {
            for kind in [2u8, 5] {
                let mut b = head(1);
                b.push(7);
                le(&mut b, 1);
                b.push(kind);
                le(&mut b, rank);
                let have = rank.min(n.clamp(1, 20_000) as i32);
                for _ in 0..have {
                    le(&mut b, dim);
                }
                if kind == 5 {
                    for _ in 0..have {
                        le(&mut b, i32::MIN);
                    }
                }
                b.push(2);
                let m = b.clone();
                add("ranks and dimensions", b, true);
                let mut b = m;
                b.push(10);
                add("ranks and dimensions with one element", b, true);
            }
        }
    }
    for dims in [[0, i32::MAX, 1], [i32::MAX, 0, 1], [i32::MAX, 1, 0], [i32::MAX, i32::MAX, i32::MAX], [1, 0, i32::MAX], [65536, 65536, 65536], [i32::MAX, 2, 0]] {
        let mut b = head(1);
        b.push(7);
        le(&mut b, 1);
        b.push(2);
        le(&mut b, 3);
        for d in dims {
            le(&mut b, d);
        }
        b.extend_from_slice(&[0, 2]);
        add("dimensions with zero", b, true);
    }
    // counts without anything behind them
    for c in [i32::MAX, 1 << 24, 65536, 1000] {
        for p in [1u8, 2, 3, 5, 6, 9, 13, 17, 18] {
            let mut b = head(1);
            b.push(15);
            le(&mut b, 1);
            le(&mut b, c);
            b.push(p);
            add("length of a primitive array without elements", b.clone(), true);
            b.extend_from_slice(&[1; 64]);
            add("length of a primitive array with few elements", b, true);
        }
        for tag in [16u8, 17] {
            let mut b = head(1);
            b.push(tag);
            le(&mut b, 1);
            le(&mut b, c);
            add("length of an array without elements", b, true);
        }
        let mut b = head(1);
        b.push(4);
        le(&mut b, 1);
        b.extend_from_slice(b"\x01C");
        le(&mut b, c);
        add("number of members without members", b, true);
        let mut b = head(1);
        b.push(21);
        le(&mut b, 0x12);
        b.extend_from_slice(b"\x12\x01m\x12\x01t");
        le(&mut b, c);
        add("number of arguments without arguments", b, true);
        for f in [&[0xffu8, 0xff, 0xff, 0xff, 0x07][..], &[0xff, 0xff, 0xff, 0xff, 0x0f], &[0xff; 5], &[0xff; 9], &[0x80, 0x80, 0x80, 0x80, 0x00], &[0x80, 0x80, 0x80, 0x80, 0x80, 0x00]] {
            let mut b = head(1);
            b.push(6);
            le(&mut b, 1);
            b.extend_from_slice(f);
            add("length of a string without text", b, true);
        }
        // null runs without room for them
        for len in [0, 1, 2, c - 1] {
            let mut b = head(1);
            b.push(16);
            le(&mut b, 1);
            le(&mut b, len.min(1000));
            b.push(14);
            le(&mut b, c.max(1001));
            add("null run without room", b, true);
        }
    }
    // decimal texts
    for c in ['0', '1', '9', '.', '_', '-', 'e', 'x', ' '] {
        for pre in ["", "1", "0.", "-", "1e"] {
            let s = format!("{pre}{}", c.to_string().repeat(n));
            let mut b = head(1);
            b.push(15);
            le(&mut b, 1);
            le(&mut b, 1);
            b.push(5);
            let mut l = s.len();
            while l >= 128 {
                b.push(l as u8 | 0x80);
                l >>= 7;
            }
            b.push(l as u8);
            b.extend_from_slice(s.as_bytes());
            add("long decimal text", b, true);
        }
    }
    // many of something
    let mut b = head(1);
    b.push(16);
    le(&mut b, 1);
    le(&mut b, n as i32);
    for i in 0..n {
        b.push(12);
        le(&mut b, i as i32 + 1);
        b.push(0);
        b.push(10);
    }
    add("many libraries in front of elements", b, true);
    let mut b = head(1);
    for i in 0..n {
        b.push(12);
        le(&mut b, i as i32 + 1);
        b.push(0);
    }
    add("only libraries", b, true);
    let mut b = head(1);
    for i in 0..n {
        b.push(6);
        le(&mut b, i as i32 + 1);
        b.push(0);
    }
    add("many strings", b, true);
    let mut b = head(1);
    for i in 0..n {
        class_head(&mut b, 2, i as i32 + 1, "", &[]);
    }
    add("many empty classes", b, true);
    let mut b = head(1);
    b.push(2);
    le(&mut b, 1);
    b.push(1);
    b.push(b'C');
    le(&mut b, n as i32);
    for _ in 0..n {
        b.push(0);
    }
    for _ in 0..n {
        b.push(10);
    }
    add("many members of the same empty name", b, true);
    let mut b = head(1);
    for _ in 0..n {
        b.push(13);
        b.push(1);
    }
    add("null runs at top level", b, true);
    for byte in 0..=255u8 {
        let mut b = head(1);
        b.extend(std::iter::repeat_n(byte, n.min(4000)));
        add("one byte repeated", b, true);
        v_push_without_header(&mut add, byte, n.min(4000));
    }
    v
}

fn v_push_without_header(add: &mut impl FnMut(&'static str, Vec<u8>, bool), byte: u8, n: usize) {
    add("one byte repeated, no header", vec![byte; n], false);
}
