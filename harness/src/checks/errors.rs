//! Errors name the rule that was broken.

use std::collections::BTreeMap;

use super::place::place;
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg};
use crate::mutate;
use crate::mval::MVal;
use crate::real::{self, Got};
use crate::refdec::{self, K, Verdict};
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;

pub fn table(args: &[String]) {
    let n: u64 = args.first().and_then(|a| a.parse().ok()).unwrap_or(200000);
    let mut m: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    for i in 0..n {
        let mut r = Rng::derive(1, "table", i);
        let w = doc::generate(&mut r, &Cfg::default());
        if !matches!(refdec::decode(&w.buf), Verdict::Must(_)) {
            continue;
        }
        let (b, s) = mutate::field(&mut r, &w);
        let v = refdec::decode(&b);
        if !refdec::safe(&b, &v) {
            continue;
        }
        if let Verdict::Reject(k, at) = v {
            let here = at >= s.off && at <= s.off + s.len;
            let t = match real::run(&b) {
                Got::Err(e) => e,
                g => g.brief(),
            };
            let key = format!("{k:?} {:?} {}", s.f, if here { "here" } else { "later" });
            if args.get(1) == Some(&key) && args.get(2) == Some(&t) {
                println!("{} at {at} was {:02x?} now {:02x?} span {s:?}", crate::report::hex(&b), &w.buf[s.off..s.off + s.len.min(4)], &b[s.off..s.off + s.len.min(4)]);
            }
            *m.entry(format!("{k:?} {:?} {}", s.f, if here { "here" } else { "later" })).or_default().entry(t).or_insert(0) += 1;
        }
    }
    for (k, v) in m {
        println!("{k}: {v:?}");
    }
}

const OBJ: &[&str] = &["invalid object ID"];

/// The texts which name the rule, for a fault of a kind put into a field.
fn texts(k: K, f: F) -> Option<(&'static str, &'static [&'static str])> {
    Some(match (k, f) {
        (K::Major, F::Major) => ("unsupported major version", &["invalid major version"]),
        (K::Minor, F::Minor) => ("unsupported minor version", &["invalid minor version"]),
        (K::NegRoot, F::RootId) => ("negative root id", &["invalid root ID"]),
        (K::RootMissing, F::RootId) => ("missing root object", &["missing root object"]),
        (K::CallId, F::RootId) => ("call array id", &["invalid call array ID"]),
        (K::DupLib, F::LibId) => ("duplicate library", &["duplicate library ID"]),
        (K::NoLib, F::LibUse | F::LibId) => ("undeclared library", &["missing library ID"]),
        (K::DupObj, F::ObjId) => ("duplicate object id", &["duplicate object ID"]),
        (K::MetaMissing, F::MetaId) => ("unknown metadata id", &["missing metadata ID"]),
        // a class record reports that its class information is not usable
        (K::ObjId, F::ObjId) => ("object id", &["invalid object ID", "expected ClassInfo"]),
        (K::RefId, F::RefId) => ("referenced id", OBJ),
        (K::MetaId, F::MetaId) => ("metadata id", OBJ),
        (K::LibId, F::LibId | F::LibUse) => ("library id", &["invalid library ID"]),
        (K::NegLen, F::ArrLen) => ("array length", &["invalid length"]),
        (K::NegDim, F::Dim | F::Rank) => ("rank or dimension", &["invalid length"]),
        (K::DimOverflow, F::Dim) => ("product of the dimensions", &["invalid length"]),
        (K::NegCount, F::ArgCount) => ("number of arguments", &["invalid length"]),
        (K::NegCount, F::MemberCount) => ("number of members", &["invalid length", "expected ClassInfo"]),
        (K::NullCount | K::NullOver, F::NullCount | F::NullCount256) => ("null count", &["invalid NULL count"]),
        (K::UnexpectedClass, F::ClassName | F::TypeName) => ("unexpected class of a typed member", &["unexpected class"]),
        (K::FlagsBad, F::Flags) => ("message flags", &["invalid MessageFlags"]),
        (K::Args, F::Flags) => ("arguments", &["invalid method arguments"]),
        (K::ArrType, F::ArrType) => ("array type code", &["expected BinaryArrayType"]),
        (K::BinType, F::BinType) => ("member type code", &["expected BinaryType"]),
        (K::PrimType, F::PrimTypeMember | F::PrimTypeTyped | F::PrimTypeArray | F::PrimTypePrimArray | F::PrimTypeArg) => {
            ("primitive type code", &["expected PrimitiveType"])
        }
        (K::BoolVal, F::Bool) => ("a Boolean", &["expected a BOOLEAN"]),
        (K::CharVal, F::Char) => ("a Char", &["expected a CHAR"]),
        (K::DecVal, F::Dec) => ("a Decimal", &["expected a Decimal"]),
        (K::StrCode, F::StrCode) => ("a string", &["expected a LengthPrefixedString"]),
        _ => return None,
    })
}

fn number_text(v: &MVal) -> &'static str {
    match v {
        MVal::Bool(_) => "expected a BOOLEAN",
        MVal::Byte(_) => "expected a BYTE",
        MVal::Char(_) => "expected a CHAR",
        MVal::Double(_) => "expected a DOUBLE",
        MVal::I16(_) => "expected an INT16",
        MVal::I32(_) => "expected an INT32",
        MVal::I64(_) => "expected an INT64",
        MVal::I8(_) => "expected an INT8",
        MVal::Single(_) => "expected a SINGLE",
        MVal::Ts(_) => "expected a TimeSpan",
        MVal::Dt(_) => "expected a DateTime",
        MVal::U16(_) => "expected a UINT16",
        MVal::U32(_) => "expected a UINT32",
        MVal::U64(_) => "expected a UINT64",
        _ => "",
    }
}

fn ids(w: &W, fs: &[F]) -> Vec<i32> {
    w.spans.iter().filter(|s| fs.contains(&s.f)).map(|s| mutate::get_i32(&w.buf, s.off)).collect()
}

fn unused(r: &mut Rng, w: &W) -> i32 {
    let used = ids(w, &[F::ObjId, F::RefId, F::MetaId, F::RootId, F::LibId, F::LibUse]);
    loop {
        let x = if r.chance(50) { r.range(1, 400) as i32 } else { r.i32() & i32::MAX };
        if x > 0 && !used.contains(&x) {
            return x;
        }
    }
}

fn not_positive(r: &mut Rng) -> i32 {
    match r.below(4) {
        0 => 0,
        1 => -1,
        2 => i32::MIN,
        _ => r.i32() | i32::MIN,
    }
}

fn negative(r: &mut Rng) -> i32 {
    *r.pick(&[-1, -2, -256, i32::MIN, i32::MIN + 1, -65536])
}

/// Faults which can be put into one field.
fn faults(r: &mut Rng, w: &W, s: Span) -> Vec<Vec<u8>> {
    let with = |v: i32| {
        let mut b = w.buf.clone();
        mutate::set_i32(&mut b, s.off, v);
        b
    };
    let byte = |v: u8| {
        let mut b = w.buf.clone();
        b[s.off] = v;
        b
    };
    let old = |b: &[u8]| mutate::get_i32(b, s.off);
    match s.f {
        F::Major => vec![with(*r.pick(&[0, 2, -1, 257, 0x01000000, i32::MIN]))],
        F::Minor => vec![with(*r.pick(&[1, 2, -1, 256, 0x01000000, i32::MIN]))],
        F::RootId => vec![with(negative(r)), with(unused(r, w))],
        F::ObjId => {
            let mut v = vec![with(not_positive(r))];
            let me = old(&w.buf);
            let others = ids(w, &[F::RefId, F::MetaId, F::RootId]);
            // (a reference to an id which two objects carry may break a second rule)
            let refs = ids(w, &[F::RefId]);
            let all: Vec<i32> = ids(w, &[F::ObjId]).into_iter().filter(|x| *x != me && !refs.contains(x)).collect();
            if !others.contains(&me) && !all.is_empty() {
                v.push(with(*r.pick(&all)));
            }
            v
        }
        F::RefId => vec![with(not_positive(r))],
        F::MetaId => {
            let mut v = vec![with(not_positive(r)), with(unused(r, w))];
            v.truncate(r.range(1, 2));
            v
        }
        F::LibId => {
            let others: Vec<i32> = ids(w, &[F::LibId]).into_iter().filter(|x| *x != old(&w.buf)).collect();
            let mut v = vec![with(not_positive(r)), with(unused(r, w))];
            if !others.is_empty() {
                v.push(with(*r.pick(&others)));
            }
            v
        }
        F::LibUse => vec![with(not_positive(r)), with(unused(r, w))],
        F::ArrLen | F::Dim | F::Rank | F::ArgCount | F::MemberCount => vec![with(negative(r))],
        F::NullCount => vec![with(not_positive(r)), with(old(&w.buf).saturating_add(*r.pick(&[1, 2, 100, 100_000])))],
        F::NullCount256 => vec![byte(0), byte(w.buf[s.off].saturating_add(r.range(1, 200) as u8))],
        F::ClassName | F::TypeName if s.len > 0 => {
            let at = s.off + r.below(s.len);
            if w.buf[at].is_ascii_alphanumeric() {
                let mut b = w.buf.clone();
                b[at] = if b[at] == b'q' { b'Q' } else { b'q' };
                vec![b]
            } else {
                vec![]
            }
        }
        F::Flags => (0..3).map(|_| with(old(&w.buf) ^ (1 << r.below(14)) ^ if r.chance(30) { 1 << r.below(14) } else { 0 })).collect(),
        F::ArrType => vec![byte(r.range(6, 255) as u8)],
        F::BinType => vec![byte(r.range(8, 255) as u8)],
        F::PrimTypeMember | F::PrimTypeTyped | F::PrimTypeArray | F::PrimTypePrimArray | F::PrimTypeArg => {
            vec![byte(*r.pick(&[0, 4, 19, 20, 128, 255]))]
        }
        F::Bool => vec![byte(r.range(2, 255) as u8)],
        F::Char => vec![byte(*r.pick(&[0x80, 0xbf, 0xc0, 0xf8, 0xff]))],
        F::Dec if s.len > 0 => {
            let mut b = w.buf.clone();
            b[s.off + r.below(s.len)] = *r.pick(b"x,: /");
            let mut all = vec![b];
            // longer than any decimal
            if s.len < 128 && usize::from(w.buf[s.off - 1]) == s.len {
                for n in [r.range(32, 64), 65, r.range(66, 127), r.range(128, 700)] {
                    let mut text = vec![];
                    let mut k = n;
                    while k >= 128 {
                        text.push(k as u8 | 0x80);
                        k >>= 7;
                    }
                    text.push(k as u8);
                    let digit = *r.pick(b"123456789x");
                    text.extend((0..n).map(|_| digit));
                    let mut b = w.buf.clone();
                    b.splice(s.off - 1..s.off + s.len, text);
                    all.push(b);
                }
            }
            all
        }
        F::StrCode => vec![byte(*r.pick(&[0, 17, 19, 1, 9, 6, 255]))],
        _ => vec![],
    }
}

/// Compares the text with those which name the rule, also as serde reports it.
fn compare(b: &[u8], rule: &str, ok: &[&str], t: &mut Tally) {
    t.eval_for(b, rule);
    t.nd(&format!("rule: {rule}"));
    match real::run(b) {
        Got::Err(e) if ok.contains(&e.as_str()) => {
            t.nd(&format!("text: {e}"));
            t.sample(|| format!("{rule}: {} -> {e:?}", hex(b)));
            #[cfg(feature = "serde")]
            {
                use serde::de::IgnoredAny;
                let got = real::watched(b, || nrbf::from_slice::<IgnoredAny>(b).map(|_| ()).map_err(|e| e.to_string()));
                t.n("texts compared with those of from_slice");
                if got.as_ref().ok() != Some(&Err(format!("parsing error: {e}"))) {
                    t.bad(b, format!("broken: {rule}: parsing says {e:?}, deserializing says {got:?}"), String::new());
                }
            }
        }
        Got::Err(e) => t.bad(b, format!("broken: {rule}: the error says {e:?} instead of {ok:?}"), String::new()),
        Got::Panic(p) => t.bad(b, format!("broken: {rule}: panics: {p}"), String::new()),
        Got::Msg(_) => t.bad(b, format!("broken: {rule}: accepted"), String::new()),
    }
}

/// Calls and returns whose arguments are announced in a call array but are not there.
fn without_arguments(r: &mut Rng, t: &mut Tally) {
    let ret = r.chance(50);
    let mut w = W::new();
    let root = r.range(1, 1000) as i32;
    w.header(root, r.i32());
    w.u8(F::TopTag, if ret { 22 } else { 21 });
    let is_array = r.chance(50);
    let sig = if !is_array && r.chance(30) { 0x80 } else { 0 };
    w.i32(F::Flags, if is_array { 0x4 } else { 0x8 } | 0x10 | if ret { 0x200 } else { sig });
    if !ret {
        w.string_code("Method");
        w.string_code("Type");
    }
    let prim = |w: &mut W, id: i32| {
        w.u8(F::TopTag, 15);
        w.i32(F::ObjId, id);
        w.i32(F::ArrLen, 1);
        w.u8(F::PrimTypePrimArray, P_BYTE);
        w.u8(F::Num, 7);
    };
    let array = |w: &mut W, n: i32| {
        w.u8(F::TopTag, 16);
        w.i32(F::ObjId, root);
        w.i32(F::ArrLen, n);
    };
    match r.below(if is_array { 3 } else { 6 }) {
        0 => (),
        1 => prim(&mut w, root),
        2 => w.obj_str(true, root, "text", 0),
        // a call array whose first item is no array
        3 => array(&mut w, 0),
        4 => {
            array(&mut w, 1);
            w.typed_prim(&MVal::I32(5));
        }
        _ => {
            array(&mut w, 2);
            w.null();
            w.member_ref(root.wrapping_add(1));
            prim(&mut w, root + 1);
        }
    }
    w.end();
    match refdec::decode(&w.buf) {
        Verdict::Reject(K::Args, _) => compare(&w.buf, "arguments", &["invalid method arguments"], t),
        v => t.bad(&w.buf, format!("monitor error: the reference says {v:?}"), String::new()),
    }
}

pub fn c22(cx: &Cx) {
    cx.rule(
        "A case is a well-formed message with exactly one fault, put into one field; the error's text is compared with the \
         texts which name the broken rule, and with what deserializing reports. Distinct by bytes and rule.",
    );
    cx.par("single faults", cx.cases(30_000, 1_200_000), |r, _, t| {
        let cfg = Cfg { calls: if r.chance(30) { 90 } else { 10 }, ..Cfg::default() };
        let w = doc::generate(r, &cfg);
        if !matches!(refdec::decode(&w.buf), Verdict::Must(_)) {
            t.n("generated messages which are not used: acceptance is optional");
            return;
        }
        let mut seen: BTreeMap<F, u32> = BTreeMap::new();
        let mut order: Vec<usize> = (0..w.spans.len()).collect();
        r.shuffle(&mut order);
        for i in order {
            let s = w.spans[i];
            let c = seen.entry(s.f).or_insert(0);
            *c += 1;
            if *c > 3 {
                continue;
            }
            for b in faults(r, &w, s) {
                let v = refdec::decode(&b);
                let Verdict::Reject(k, _) = v else {
                    t.n("faults which break no rule");
                    continue;
                };
                if !refdec::safe(&b, &v) {
                    continue;
                }
                let Some((rule, mut ok)) = texts(k, s.f) else {
                    t.n("faults which break another rule first");
                    continue;
                };
                if k == K::ObjId && !matches!(w.buf[s.off - 1], 2..=5) {
                    ok = OBJ;
                }
                compare(&b, rule, ok, t);
            }
        }
        // something after the end
        let mut b = w.buf.clone();
        let first = b.len();
        if r.chance(20) {
            // another message
            b.extend_from_slice(&w.buf);
        } else {
            let n = match r.below(10) {
                0 => 5 + r.below(60),
                1 => (1 << (3 + r.below(14))) + r.below(3) - 1,
                _ => 1 + r.below(4),
            };
            for _ in 0..n {
                let x = if r.chance(70) { *r.pick(&[11, 0, 255, 6, 10]) } else { r.u64() as u8 };
                b.push(x);
            }
        }
        if r.chance(20) {
            b[first] = r.u64() as u8;
        }
        compare(&b, "trailing data", &["unexpected trailing data"], t);
    });
    // dimensions which multiply beyond the address range
    cx.par("dimensions", cx.cases(1_000, 50_000), |r, _, t| {
        compare(&super::arrays::any_overflowing(r), "dimension product", &["invalid length"], t);
    });
    cx.par("arguments", cx.cases(2_000, 50_000), |r, _, t| without_arguments(r, t));
    // numbers which are cut off
    cx.par("cut numbers", cx.cases(4_000, 200_000), |r, _, t| {
        let p = r.below(16);
        let n = if p == 11 { 1 } else { r.range(1, 4) };
        let c = *r.pick(&PRIMS);
        if c == P_DEC {
            return;
        }
        let vals: Vec<MVal> = (0..n).map(|_| doc::gen_prim(r, c)).collect();
        let (w, _) = place(p, &vals, r);
        let Some(s) = w.spans.iter().rfind(|s| matches!(s.f, F::Num | F::Bool | F::Char)) else { return };
        let cut = s.off + r.below(s.len.max(1));
        compare(&w.buf[..cut], &format!("{} expected", prim_name(c)), &[number_text(&vals[0])], t);
    });
}
