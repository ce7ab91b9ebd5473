//! Length-prefixed strings are exact, validated and zero-copy.

use super::place::{class_head, message, obj};
use crate::cx::{Cx, Tally};
use crate::doc::{self, Cfg, StrGen, gen_string};
use crate::judge;
use crate::mval::{MMsg, MVal};
use crate::real::{self, Out};
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;

use nrbf::{RemotingMessage, Value};

const PLACES: [&str; 15] = [
    "string record",
    "string member",
    "string array element",
    "object array element",
    "class name",
    "member name",
    "library name",
    "method name",
    "type name of a call",
    "call context",
    "argument",
    "return value",
    "untyped member",
    "class name of a member type",
    "referenced string",
];

fn s(v: &str) -> MVal {
    MVal::Str(v.into())
}

/// Byte sequences which no valid string holds; some of them are only wrong if nothing follows.
const BAD: [&[u8]; 16] = [
    b"\xc0\x80",
    b"\xed\xa0\x80",
    b"\xf4\x90\x80\x80",
    b"\xf8\x88\x80\x80\x80",
    b"\xff",
    b"\xfe\xff",
    b"\xe2\x82",
    b"\xf0\x9f\x98",
    b"\xe0\x9f\xbf",
    b"\xc1\xbf",
    b"\x80",
    b"\xbf\xbf",
    b"\xc3",
    b"\xf0\x9f",
    b"\xed\xa0\xbd\xed\xb8\x80",
    b"\xf0\x80\x80\x80",
];

/// A message with `text` at place `p`, its length spelled in at least `form` bytes.
fn place(p: usize, text: &str, form: usize) -> (W, MMsg) {
    let code = |w: &mut W, t: &str, form: usize| {
        w.u8(F::StrCode, P_STR);
        w.str_form(F::StrText, t, form);
    };
    let call = |m: &str, t: &str, c: Option<&str>, a: Option<Vec<MVal>>| MMsg::Call {
        method: m.into(),
        ty: t.into(),
        ctx: c.map(str::to_string),
        args: a,
    };
    match p {
        0 => (message(|w| w.obj_str(true, 1, text, form)), MMsg::Val(s(text))),
        1 => (
            message(|w| {
                class_head(w, true, 4, 1, "C", &["a".into()]);
                w.u8(F::BinType, 1);
                w.obj_str(false, 2, text, form);
            }),
            MMsg::Val(obj("C", None, [("a".into(), s(text))])),
        ),
        2 => (
            message(|w| {
                w.u8(F::TopTag, 17);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 3);
                w.obj_str(false, 2, "before", 0);
                w.obj_str(false, 3, text, form);
                w.obj_str(false, 4, "after", 0);
            }),
            MMsg::Val(MVal::Arr(vec![s("before"), s(text), s("after")])),
        ),
        3 => (
            message(|w| {
                w.u8(F::TopTag, 16);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 2);
                w.obj_str(false, 3, text, form);
                w.typed_prim(&MVal::I32(7));
            }),
            MMsg::Val(MVal::Arr(vec![s(text), MVal::I32(7)])),
        ),
        4 => (
            message(|w| {
                w.u8(F::TopTag, 2);
                w.i32(F::ObjId, 1);
                w.str_form(F::ClassName, text, form);
                w.i32(F::MemberCount, 0);
            }),
            MMsg::Val(obj(text, None, [])),
        ),
        5 => (
            message(|w| {
                w.u8(F::TopTag, 4);
                w.i32(F::ObjId, 1);
                w.str(F::ClassName, "C");
                w.i32(F::MemberCount, 1);
                w.str_form(F::MemberName, text, form);
                w.u8(F::BinType, 0);
                w.u8(F::PrimTypeMember, P_BYTE);
                w.prim(&MVal::Byte(5));
            }),
            MMsg::Val(obj("C", None, [(text.to_string(), MVal::Byte(5))])),
        ),
        6 => (
            message(|w| {
                w.u8(F::LibTag, 12);
                w.i32(F::LibId, 7);
                w.str_form(F::LibName, text, form);
                class_head(w, true, 3, 1, "C", &[]);
                w.i32(F::LibUse, 7);
            }),
            MMsg::Val(obj("C", Some(text), [])),
        ),
        7 => (
            message(|w| {
                w.u8(F::TopTag, 21);
                w.i32(F::Flags, 1);
                code(w, text, form);
                code(w, "type", 0);
            }),
            call(text, "type", None, None),
        ),
        8 => (
            message(|w| {
                w.u8(F::TopTag, 21);
                w.i32(F::Flags, 1);
                code(w, "method", 0);
                code(w, text, form);
            }),
            call("method", text, None, None),
        ),
        9 => (
            message(|w| {
                w.u8(F::TopTag, 21);
                w.i32(F::Flags, 0x21);
                code(w, "method", 0);
                code(w, "type", 0);
                code(w, text, form);
            }),
            call("method", "type", Some(text), None),
        ),
        10 => (
            message(|w| {
                w.u8(F::TopTag, 21);
                w.i32(F::Flags, 2);
                code(w, "method", 0);
                code(w, "type", 0);
                w.i32(F::ArgCount, 2);
                w.u8(F::PrimTypeArg, P_STR);
                w.str_form(F::StrText, text, form);
                w.value_code(&MVal::Byte(9));
            }),
            call("method", "type", None, Some(vec![s(text), MVal::Byte(9)])),
        ),
        11 => (
            message(|w| {
                w.u8(F::TopTag, 22);
                w.i32(F::Flags, 0x800);
                w.u8(F::PrimTypeArg, P_STR);
                w.str_form(F::StrText, text, form);
            }),
            MMsg::Ret { ret: Some(s(text)), ctx: None, args: None },
        ),
        12 => (
            message(|w| {
                class_head(w, true, 2, 1, "C", &["a".into()]);
                w.obj_str(false, 2, text, form);
            }),
            MMsg::Val(obj("C", None, [("a".into(), s(text))])),
        ),
        13 => (
            message(|w| {
                class_head(w, true, 4, 1, "C", &["a".into()]);
                w.u8(F::BinType, 3);
                w.str_form(F::TypeName, text, form);
                w.null();
            }),
            MMsg::Val(obj("C", None, [("a".into(), MVal::Null)])),
        ),
        _ => (
            message(|w| {
                w.u8(F::TopTag, 17);
                w.i32(F::ObjId, 1);
                w.i32(F::ArrLen, 2);
                w.member_ref(2);
                w.obj_str(false, 3, "x", 0);
                w.obj_str(true, 2, text, form);
            }),
            MMsg::Val(MVal::Arr(vec![s(text), s("x")])),
        ),
    }
}

/// Calls `f` with every string of a message.
pub fn strings<'a>(m: &RemotingMessage<'a>, f: &mut dyn FnMut(&'a str)) {
    fn val<'a>(v: &Value<'a>, f: &mut dyn FnMut(&'a str)) {
        match v {
            Value::String(s) => f(s),
            Value::Array(a) => a.iter().for_each(|v| val(v, f)),
            Value::Object(o) => {
                f(o.class);
                if let Some(l) = o.library {
                    f(l);
                }
                for (k, v) in &o.members {
                    f(k);
                    val(v, f);
                }
            }
            _ => (),
        }
    }
    let opt = |v: &Option<&'a str>, f: &mut dyn FnMut(&'a str)| {
        if let Some(s) = v {
            f(s);
        }
    };
    match m {
        RemotingMessage::Value(v) => val(v, f),
        RemotingMessage::MethodCall(c) => {
            f(c.method_name);
            f(c.type_name);
            opt(&c.call_context, f);
            c.args.iter().flatten().for_each(|v| val(v, f));
        }
        RemotingMessage::MethodReturn(c) => {
            opt(&c.call_context, f);
            c.return_value.iter().for_each(|v| val(v, f));
            c.args.iter().flatten().for_each(|v| val(v, f));
        }
    }
}

/// Every string has to be a slice of the input, at a place where the encoder put that text.
fn zero_copy(w: &W, t: &mut Tally) {
    if let Out::Ok(m) = real::parse(&w.buf) {
        let base = w.buf.as_ptr() as usize;
        let texts: Vec<&Span> = w
            .spans
            .iter()
            .filter(|s| matches!(s.f, F::StrText | F::ClassName | F::MemberName | F::LibName | F::TypeName))
            .collect();
        let mut n = 0;
        let mut bad = None;
        strings(&m, &mut |s| {
            if s.is_empty() {
                return;
            }
            n += 1;
            let p = s.as_ptr() as usize;
            if p < base || p + s.len() > base + w.buf.len() {
                bad.get_or_insert(format!("the string {s:?} is not a slice of the input"));
            } else if texts.binary_search_by_key(&(p - base, s.len()), |x| (x.off, x.len)).is_err() {
                bad.get_or_insert(format!("the string {s:?} is a slice of the input where no string stands"));
            }
        });
        t.add("strings located in the input", n);
        if let Some(why) = bad {
            t.bad(&w.buf, why, String::new());
        }
    }
}

fn check(p: usize, text: &str, form: usize, t: &mut Tally) {
    let (w, want) = place(p, text, form);
    t.eval(&w.buf, !text.is_empty() || form > 1);
    t.nd(&format!("place: {}", PLACES[p]));
    t.max("longest string", text.len() as u64);
    let got = real::run(&w.buf);
    if let Some(why) = judge::wrong_value(&got, &want) {
        t.bad(&w.buf, format!("{} of {} bytes, length in {form} bytes: {why}", PLACES[p], text.len()), String::new());
        return;
    }
    zero_copy(&w, t);
    if w.buf.len() < 200 {
        t.sample(|| format!("{}: {} -> {}", PLACES[p], hex(&w.buf), got.brief()));
    }
}

fn min_form(n: usize) -> usize {
    let mut k = 1;
    let mut n = n >> 7;
    while n > 0 {
        k += 1;
        n >>= 7;
    }
    k
}

/// Text of exactly `n` bytes, with characters of all lengths.
fn text(r: &mut Rng, n: usize) -> String {
    let mut s = String::with_capacity(n);
    while s.len() < n {
        let c = match r.below(9) {
            0 => '\u{e9}',
            1 => '\u{20ac}',
            2 => '\u{1d11e}',
            3 => char::from(r.below(128) as u8),
            _ => char::from(b'a' + r.below(26) as u8),
        };
        s.push(if s.len() + c.len_utf8() <= n { c } else { 'z' });
    }
    s
}

pub fn run(cx: &Cx) {
    cx.rule(
        "A case is one message with a known text at one of 15 kinds of places and its length in a chosen legal form (text \
         compared, every returned string located inside the input), or the same message with a string that is not UTF-8, too \
         long for the input or with an illegal length prefix (has to be rejected). Non-trivial unless the string is empty with \
         a one-byte length; distinct by its bytes.",
    );
    // all short lengths in all places and all forms
    let top = cx.pick(300usize, 600);
    cx.par("lengths", (top * PLACES.len()) as u64, |r, i, t| {
        let (n, p) = (i as usize / PLACES.len(), i as usize % PLACES.len());
        let x = text(r, n);
        for form in min_form(n)..=5 {
            check(p, &x, form, t);
        }
    });
    cx.exhaustive("all lengths below 300 in all legal spellings of the length in all 15 places");
    let long: Vec<usize> = [16382, 16383, 16384, 16385, 32767, 32768, 65535, 65536, 2097151, 2097152, 2097153]
        .into_iter()
        .chain(if cx.thorough { vec![1 << 24, (1 << 28) - 1, 1 << 28] } else { vec![] })
        .collect();
    cx.par("long", (long.len() * PLACES.len()) as u64, |r, i, t| {
        let (n, p) = (long[i as usize / PLACES.len()], i as usize % PLACES.len());
        if n > 1 << 22 && p > 2 {
            return;
        }
        let x = if n > 1 << 22 { "x".repeat(n) } else { text(r, n) };
        let k = min_form(n);
        check(p, &x, 0, t);
        check(p, &x, (k + 1).min(5), t);
        check(p, &x, 5, t);
    });
    cx.par("random", cx.cases(120_000, 4_000_000), |r, _, t| {
        let p = r.below(PLACES.len());
        let x = gen_string(r, StrGen::Any);
        let form = if r.chance(50) { 0 } else { r.range(1, 5) };
        check(p, &x, form, t);
    });
    // whole messages
    cx.par("messages", cx.cases(60_000, 2_000_000), |r, _, t| {
        let w = doc::generate(r, &Cfg { overlong: 30, ..Cfg::default() });
        t.eval(&w.buf, true);
        t.n("random messages whose strings were located");
        zero_copy(&w, t);
    });
    // not UTF-8
    cx.par("not utf-8", cx.cases(180_000, 3_000_000), |r, _, t| {
        let p = r.below(PLACES.len());
        let n = if r.chance(30) { r.range(1, 300) } else { r.range(1, 24) };
        let x = text(r, n);
        let mut bytes = x.clone().into_bytes();
        match r.below(3) {
            0 => {
                let i = r.below(n);
                bytes[i] = 0x80 | r.u8();
            }
            1 => {
                let b = *r.pick(&BAD);
                let at = if r.chance(40) { n } else { r.below(n + 1) };
                let at = at.min(n.saturating_sub(b.len()));
                for (i, c) in b.iter().enumerate() {
                    if at + i < n {
                        bytes[at + i] = *c;
                    }
                }
            }
            _ => {
                // the last character is cut off
                let c = *r.pick(&['\u{e9}', '\u{20ac}', '\u{1d11e}']);
                let mut tmp = [0; 4];
                let e = c.encode_utf8(&mut tmp).as_bytes();
                let k = r.range(1, e.len() - 1).min(n);
                bytes.truncate(n - k);
                // keep the rest well-formed
                while std::str::from_utf8(&bytes).is_err() {
                    bytes.pop();
                    bytes.insert(0, b'a');
                }
                bytes.extend_from_slice(&e[..k]);
            }
        }
        if bytes.len() != n || std::str::from_utf8(&bytes).is_ok() {
            return;
        }
        let (w, _) = place(p, &x, if r.chance(80) { 0 } else { 5 });
        let Some(at) = w.buf.windows(n).position(|y| y == x.as_bytes()) else { return };
        // the text itself, not something else which reads the same
        let Some(sp) = w.spans.iter().find(|s| s.off == at && s.len == n) else { return };
        let mut b = w.buf.clone();
        b[sp.off..sp.off + n].copy_from_slice(&bytes);
        t.eval(&b, true);
        t.n("strings offered which are not UTF-8");
        let got = real::run(&b);
        if let Some(why) = judge::not_rejected(&got, "a string is not UTF-8") {
            t.bad(&b, format!("{}: {why}", PLACES[p]), String::new());
        }
    });
    // the same in long strings, at their ends and around every power of two
    let tops: Vec<usize> = (6..cx.pick(18, 23)).flat_map(|k| [(1usize << k) - 1, 1 << k, (1 << k) + 1, (1 << k) * 5 / 4]).chain([100_000]).collect();
    cx.par("long not utf-8", (tops.len() * PLACES.len()) as u64, |r, i, t| {
        let (n, p) = (tops[i as usize % tops.len()], i as usize / tops.len());
        let mut x = String::new();
        let piece = if r.chance(50) { text(r, 61) } else { "abcdefghijklmnopqrstuvwxyz".to_string() };
        while x.len() + piece.len() <= n {
            x.push_str(&piece);
        }
        while x.len() < n {
            x.push('y');
        }
        let (w, _) = place(p, &x, 0);
        let Some(sp) = w.spans.iter().find(|s| s.len == n && w.buf[s.off..s.off + n] == *x.as_bytes()) else { return };
        let mut b = w.buf.clone();
        let mut at: Vec<usize> = vec![0, 1, n / 2, n / 3];
        at.extend((4..24).map(|k| 1usize << k).flat_map(|k| [k - 1, k, k - 2, k - 3]).filter(|k| *k < n));
        for bad in BAD {
            let end = n - bad.len();
            for k in 0..5 {
                let at = if k == 0 || at.is_empty() { end } else { (*r.pick(&at)).min(end) };
                let o = sp.off + at;
                let old = b[o..o + bad.len()].to_vec();
                b[o..o + bad.len()].copy_from_slice(bad);
                if std::str::from_utf8(&b[sp.off..sp.off + n]).is_err() {
                    t.eval(&b, true);
                    t.n("long strings offered which are not UTF-8");
                    let got = real::run(&b);
                    if let Some(why) = judge::not_rejected(&got, "a string is not UTF-8") {
                        t.bad(&b, format!("{} of {n} bytes, {bad:02x?} at {at}: {why}", PLACES[p]), String::new());
                        return;
                    }
                }
                b[o..o + old.len()].copy_from_slice(&old);
            }
        }
    });
    // lengths which reach beyond the end, or which are spelled in an illegal way
    cx.par("bad lengths", cx.cases(90_000, 1_000_000), |r, i, t| {
        let p = i as usize % PLACES.len();
        let n = r.below(40);
        let x = text(r, n);
        let (w, _) = place(p, &x, 0);
        let Some(k) = w.spans.iter().position(|s| {
            !matches!(s.f, F::StrLen) && s.len == n && w.buf[s.off..s.off + n] == *x.as_bytes() && s.off > 0
        }) else {
            return;
        };
        if k == 0 || w.spans[k - 1].f != F::StrLen {
            return;
        }
        let l = w.spans[k - 1];
        let left = w.buf.len() - (l.off + l.len);
        let (prefix, why): (Vec<u8>, &str) = match r.below(5) {
            0 => {
                // one more than there is, and more
                let extra = *r.pick(&[1usize, 2, 100, 1000]);
                let mut v = W::new();
                v.str_form(F::StrText, &"x".repeat(left + extra), r.below(6));
                v.buf.truncate(v.spans[0].len);
                (v.buf, "a string is longer than the rest of the input")
            }
            1 => {
                // huge
                let big = *r.pick(&[0x7fff_ffffu32, 0x7fff_fffe, 0x4000_0000, 0x1000_0000, 0x0fff_ffff]);
                let v = (0..5).map(|j| ((big >> (7 * j)) & 0x7f) as u8 | if j < 4 { 0x80 } else { 0 }).collect();
                (v, "a string is longer than the rest of the input")
            }
            2 => {
                // five bytes, more than 31 bits, whose low 31 bits are right
                let hi = *r.pick(&[0x08u8, 0x10, 0x20, 0x40, 0x78, 0x0f]);
                let mut v: Vec<u8> = (0..4).map(|j| ((n >> (7 * j)) & 0x7f) as u8 | 0x80).collect();
                v.push(hi);
                (v, "the length of a string has more than 31 bits")
            }
            3 => {
                // a fifth byte that is continued
                let mut v: Vec<u8> = (0..5).map(|j| if j < 4 { ((n >> (7 * j)) & 0x7f) as u8 | 0x80 } else { 0x80 }).collect();
                v.extend(std::iter::repeat_n(0x80, r.below(3)));
                v.push(0);
                (v, "the length of a string has more than five bytes")
            }
            _ => (vec![0x80 | n as u8, 0x80, 0x80, 0x80, 0x88], "the length of a string has more than five bytes"),
        };
        let mut b = w.buf[..l.off].to_vec();
        b.extend_from_slice(&prefix);
        b.extend_from_slice(&w.buf[l.off + l.len..]);
        t.eval(&b, true);
        t.nd(&format!("rejection demanded: {why}"));
        let got = real::run(&b);
        if let Some(why) = judge::not_rejected(&got, why) {
            t.bad(&b, format!("{} with length prefix {prefix:02x?}: {why}", PLACES[p]), String::new());
        }
    });
    super::many::run(cx);
}
