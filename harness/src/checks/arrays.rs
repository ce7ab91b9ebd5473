//! C05 and C06: arrays keep length, order, nulls and shape.

use super::place::obj;
use super::runs;
use crate::cx::{Cx, Tally};
use crate::doc::{StrGen, gen_prim, gen_string};
use crate::judge;
use crate::mutate::{get_i32, set_i32};
use crate::mval::{MMsg, MVal};
use crate::real;
use crate::refdec::{self, Verdict, shaped};
use crate::report::hex;
use crate::rng::Rng;
use crate::wire::*;

#[derive(Clone, Copy, Debug, PartialEq)]
enum Elem {
    Prim(u8),
    Str,
    Obj,
    Sys,
    Lib,
    ObjArr,
    StrArr,
    PrimArr(u8),
}

const LIB: i32 = 1000;

struct B<'r> {
    w: W,
    r: &'r mut Rng,
    next: i32,
    /// objects which are referenced and have to follow
    later: Vec<(i32, MVal)>,
    sys_meta: Option<i32>,
    lib_meta: Option<i32>,
    long_runs: bool,
    /// strings which stand earlier in the message
    earlier: Vec<(i32, String)>,
}

impl B<'_> {
    fn id(&mut self) -> i32 {
        self.next += 1;
        self.next
    }

    fn short(&mut self) -> String {
        gen_string(self.r, StrGen::Short)
    }

    fn reference(&mut self, v: MVal) -> MVal {
        let id = self.id();
        self.w.member_ref(id);
        self.later.push((id, v.clone()));
        v
    }

    fn inst(&mut self, lib: bool) -> MVal {
        let meta = if lib { self.lib_meta } else { self.sys_meta };
        let id = self.id();
        let x = MVal::I32(self.r.i32());
        match meta {
            Some(m) if self.r.chance(80) => {
                self.w.u8(F::MemberTag, 1);
                self.w.i32(F::ObjId, id);
                self.w.i32(F::MetaId, m);
            }
            _ => {
                self.w.u8(F::MemberTag, if lib { 5 } else { 4 });
                self.w.i32(F::ObjId, id);
                self.w.str(F::ClassName, if lib { "LC" } else { "SC" });
                self.w.i32(F::MemberCount, 1);
                self.w.str(F::MemberName, "x");
                self.w.u8(F::BinType, 0);
                self.w.u8(F::PrimTypeMember, P_I32);
                if lib {
                    self.w.i32(F::LibUse, LIB);
                    self.lib_meta = Some(id);
                } else {
                    self.sys_meta = Some(id);
                }
            }
        }
        self.w.prim(&x);
        obj(if lib { "LC" } else { "SC" }, lib.then_some("TheLib"), [("x".to_string(), x)])
    }

    fn value(&mut self, e: Elem) -> MVal {
        match e {
            Elem::Prim(c) => {
                let v = gen_prim(self.r, c);
                self.w.prim(&v);
                v
            }
            Elem::Str => {
                if !self.earlier.is_empty() && self.r.chance(25) {
                    let (id, s) = self.r.pick(&self.earlier).clone();
                    self.w.member_ref(id);
                    return MVal::Str(s);
                }
                let s = self.short();
                if self.r.chance(20) {
                    return self.reference(MVal::Str(s));
                }
                let id = self.id();
                self.w.obj_str(false, id, &s, 0);
                if !self.earlier.is_empty() && self.earlier.len() < 8 {
                    self.earlier.push((id, s.clone()));
                }
                MVal::Str(s)
            }
            Elem::Obj => match self.r.below(6) {
                0..=2 => {
                    let c = *self.r.pick(&PRIMS);
                    let v = gen_prim(self.r, c);
                    self.w.typed_prim(&v);
                    v
                }
                3 => self.value(Elem::Str),
                4 => {
                    let lib = self.r.chance(50);
                    self.inst(lib)
                }
                _ => self.value(Elem::PrimArr(P_I16)),
            },
            Elem::Sys => self.inst(false),
            Elem::Lib => self.inst(true),
            Elem::ObjArr | Elem::StrArr => {
                let n = self.r.below(3);
                let v = (0..n)
                    .map(|_| if e == Elem::StrArr { MVal::Str(self.short()) } else { MVal::I64(self.r.u64() as i64) })
                    .collect();
                let id = self.id();
                self.w.member_ref(id);
                self.later.push((if e == Elem::StrArr { -id } else { id }, MVal::Arr(v)));
                self.later.last().unwrap().1.clone()
            }
            Elem::PrimArr(c) => {
                let n = self.r.range(1, 3);
                let v = MVal::Arr((0..n).map(|_| gen_prim(self.r, c)).collect());
                let id = self.id();
                self.w.member_ref(id);
                // marked by a far id
                self.later.push((id, MVal::Obj { class: format!("{c}"), lib: None, members: [("a".into(), v.clone())].into() }));
                v
            }
        }
    }

    /// `n` elements, some of them null runs.
    fn elems(&mut self, e: Elem, n: usize) -> Vec<MVal> {
        let mut v = Vec::with_capacity(n);
        let density = self.r.below(60);
        while v.len() < n {
            if !matches!(e, Elem::Prim(_)) && self.r.chance(density) {
                let left = n - v.len();
                let k = match self.r.below(4) {
                    0 => 1,
                    1 => left,
                    _ if self.long_runs => self.r.range(1, left),
                    _ => self.r.range(1, left.min(4)),
                };
                if k == 1 && self.r.chance(60) {
                    self.w.null();
                } else {
                    let wide = self.r.chance(40);
                    self.w.null_run(k, wide);
                }
                v.extend(std::iter::repeat_n(MVal::Null, k));
            } else if self.long_runs && n - v.len() > 100 && !matches!(e, Elem::Prim(_)) && v.len() > 50 {
                let left = n - v.len();
                let k = self.r.range(1, left);
                let wide = self.r.chance(40);
                self.w.null_run(k, wide);
                v.extend(std::iter::repeat_n(MVal::Null, k));
            } else {
                let x = self.value(e);
                v.push(x);
            }
        }
        v
    }

    fn finish(&mut self) {
        let later = std::mem::take(&mut self.later);
        for (id, v) in later {
            match v {
                MVal::Str(s) => self.w.obj_str(true, id, &s, 0),
                MVal::Arr(a) => {
                    self.w.u8(F::TopTag, if id < 0 { 17 } else { 16 });
                    self.w.i32(F::ObjId, id.abs());
                    self.w.i32(F::MemberCount, a.len() as i32);
                    for x in a {
                        match x {
                            MVal::Str(s) => {
                                let id = self.id();
                                self.w.obj_str(false, id, &s, 0);
                            }
                            x => self.w.typed_prim(&x),
                        }
                    }
                }
                MVal::Obj { class, mut members, .. } => {
                    let Some(MVal::Arr(a)) = members.remove("a") else { unreachable!() };
                    self.w.u8(F::TopTag, 15);
                    self.w.i32(F::ObjId, id);
                    self.w.i32(F::MemberCount, a.len() as i32);
                    self.w.u8(F::PrimTypePrimArray, class.parse().unwrap());
                    for x in a {
                        self.w.prim(&x);
                    }
                }
                _ => unreachable!(),
            }
        }
        self.w.end();
    }

    fn elem_type(&mut self, e: Elem) {
        let c = match e {
            Elem::Prim(_) => 0,
            Elem::Str => 1,
            Elem::Obj => 2,
            Elem::Sys => 3,
            Elem::Lib => 4,
            Elem::ObjArr => 5,
            Elem::StrArr => 6,
            Elem::PrimArr(_) => 7,
        };
        self.w.u8(F::BinType, c);
        match e {
            Elem::Prim(p) | Elem::PrimArr(p) => self.w.u8(F::PrimTypeArray, p),
            Elem::Sys => self.w.str(F::TypeName, "SC"),
            Elem::Lib => {
                self.w.str(F::TypeName, "LC");
                self.w.i32(F::LibUse, LIB);
            }
            _ => (),
        }
    }
}

fn start(r: &mut Rng) -> B<'_> {
    let mut w = W::new();
    w.header(1, -1);
    let mut next = 1;
    let mut earlier = vec![];
    if r.chance(25) {
        for _ in 0..r.range(1, 3) {
            next += 1;
            let s = gen_string(r, StrGen::Short);
            w.obj_str(true, next, &s, 0);
            earlier.push((next, s));
        }
    }
    w.lib(LIB, "TheLib");
    B { w, r, next, later: vec![], sys_meta: None, lib_meta: None, long_runs: false, earlier }
}

fn pick_elem(r: &mut Rng) -> Elem {
    let c = *r.pick(&PRIMS);
    *r.pick(&[
        Elem::Prim(c),
        Elem::Prim(c),
        Elem::Str,
        Elem::Str,
        Elem::Obj,
        Elem::Obj,
        Elem::Sys,
        Elem::Lib,
        Elem::ObjArr,
        Elem::StrArr,
        Elem::PrimArr(c),
    ])
}

/// A one-dimensional array as the root object.
fn one_dim(r: &mut Rng, n: usize, kind: usize, long_runs: bool) -> (W, Vec<MVal>, &'static str) {
    let e = pick_elem(r);
    let mut b = start(r);
    b.long_runs = long_runs;
    let (name, vals) = match kind {
        0 => {
            b.w.u8(F::TopTag, 16);
            b.w.i32(F::ObjId, 1);
            b.w.i32(F::ArrLen, n as i32);
            ("object array", b.elems(Elem::Obj, n))
        }
        1 => {
            b.w.u8(F::TopTag, 17);
            b.w.i32(F::ObjId, 1);
            b.w.i32(F::ArrLen, n as i32);
            ("string array", b.elems(Elem::Str, n))
        }
        2 => {
            let c = *b.r.pick(&PRIMS);
            b.w.u8(F::TopTag, 15);
            b.w.i32(F::ObjId, 1);
            b.w.i32(F::ArrLen, n as i32);
            b.w.u8(F::PrimTypePrimArray, c);
            ("primitive array", b.elems(Elem::Prim(c), n))
        }
        _ => {
            let ty = *b.r.pick(&[0u8, 1, 2, 3, 4, 5]);
            b.w.u8(F::TopTag, 7);
            b.w.i32(F::ObjId, 1);
            b.w.u8(F::ArrType, ty);
            b.w.i32(F::Rank, 1);
            b.w.i32(F::Dim, n as i32);
            if ty >= 3 {
                let l = *b.r.pick(&[0, 1, 5, -3, i32::MAX]);
                b.w.i32(F::LowerBound, l);
            }
            b.elem_type(e);
            ("one-dimensional binary array", b.elems(e, n))
        }
    };
    b.finish();
    (b.w, vals, name)
}

fn accepted(w: &W, want: MVal, name: &'static str, t: &mut Tally) -> bool {
    t.eval(&w.buf, true);
    t.nd(&format!("arrays compared: {name}"));
    let got = real::run(&w.buf);
    if let Some(why) = judge::wrong_value(&got, &MMsg::Val(want)) {
        t.bad(&w.buf, format!("{name}: {why}"), String::new());
        return false;
    }
    if w.buf.len() < 150 {
        t.sample(|| format!("{name}: {} -> {}", hex(&w.buf), got.brief()));
    }
    true
}

/// A mutant is judged by the reference decoder.
fn mutant(b: &[u8], what: &str, t: &mut Tally) {
    let v = refdec::decode(b);
    if !refdec::safe(b, &v) || matches!(v, Verdict::Any(_)) {
        t.n("mutants not judged");
        return;
    }
    t.eval(b, true);
    match &v {
        Verdict::Reject(k, _) => t.nd(&format!("mutants which have to be rejected: {k:?}")),
        _ => t.n("mutants which are well-formed again"),
    }
    let got = real::run(b);
    if let Some(why) = judge::wrong(&got, &v) {
        t.bad(b, format!("{what}: {why}"), String::new());
    }
}

fn change_counts(w: &W, fields: &[F], r: &mut Rng, t: &mut Tally) {
    for s in w.spans.iter().filter(|s| fields.contains(&s.f)) {
        let mut b = w.buf.clone();
        if s.len == 1 {
            b[s.off] = match r.below(4) {
                0 => b[s.off].wrapping_add(1),
                1 => b[s.off].wrapping_sub(1),
                2 => 255,
                _ => r.u8(),
            };
        } else {
            let v = get_i32(&b, s.off);
            let n = match r.below(6) {
                0 => v.wrapping_add(1),
                1 => v.wrapping_sub(1),
                2 => v.wrapping_add(r.below(8) as i32 - 4),
                3 => *r.pick(&[-1, i32::MIN, i32::MAX, 0]),
                4 => v ^ (1 << r.below(31)),
                _ => v | (1 << r.below(31)),
            };
            set_i32(&mut b, s.off, n);
        }
        if b == w.buf {
            continue;
        }
        mutant(&b, &format!("{:?} changed", s.f), t);
    }
}

pub fn c05(cx: &Cx) {
    cx.rule(
        "A case is one message whose root is a one-dimensional array (object, string, primitive or binary array of every type \
         code and element type) with known elements, null runs and references, compared element by element; or the same \
         message with its declared length or one null run changed, judged by the reference decoder. Distinct by its bytes.",
    );
    // all lengths, and all places of a null run
    cx.par("lengths", 4 * 40 * 8, |r, i, t| {
        let i = i as usize;
        let (w, vals, name) = one_dim(r, i / 4 % 40, i % 4, false);
        accepted(&w, MVal::Arr(vals), name, t);
    });
    cx.par("null run", 2, |_, i, t| {
        // in an object and a string array of n elements, a run of k at every place
        for n in 1..=9usize {
            for at in 0..n {
                for k in 1..=n - at + 2 {
                    for wide in [false, true] {
                        let mut w = W::new();
                        w.header(1, -1);
                        w.u8(F::TopTag, if i == 0 { 16 } else { 17 });
                        w.i32(F::ObjId, 1);
                        w.i32(F::ArrLen, n as i32);
                        let mut vals = vec![];
                        for j in 0..at {
                            w.obj_str(false, 10 + j as i32, &format!("{j}"), 0);
                            vals.push(MVal::Str(format!("{j}")));
                        }
                        w.null_run(k, wide);
                        vals.extend(std::iter::repeat_n(MVal::Null, k));
                        while vals.len() < n {
                            let j = vals.len();
                            w.obj_str(false, 10 + j as i32, &format!("{j}"), 0);
                            vals.push(MVal::Str(format!("{j}")));
                        }
                        w.end();
                        if vals.len() == n {
                            accepted(&w, MVal::Arr(vals), "null run at every place", t);
                        } else {
                            t.eval(&w.buf, true);
                            t.n("null runs beyond the end");
                            let got = real::run(&w.buf);
                            if let Some(why) = judge::not_rejected(&got, "a null run exceeds the length of the array") {
                                t.bad(&w.buf, why, String::new());
                            }
                        }
                    }
                }
            }
        }
    });
    cx.exhaustive("null runs of every length at every place of object and string arrays of up to 9 elements");
    runs::run(cx, &runs::arrays(), 131_072);
    cx.par("random", cx.cases(240_000, 2_500_000), |r, i, t| {
        let n = match r.below(20) {
            0 => r.range(250, 600),
            1 => 0,
            2 | 3 => r.range(24, 130),
            _ => r.range(1, 24),
        };
        let (w, vals, name) = one_dim(r, n, (i % 4) as usize, n > 100);
        if accepted(&w, MVal::Arr(vals), name, t) && w.buf.len() < 30_000 {
            // one element too few or too many
            for s in w.spans.iter().filter(|s| matches!(s.f, F::ArrLen | F::Dim)) {
                for d in [1, -1] {
                    let mut b = w.buf.clone();
                    let v = get_i32(&b, s.off);
                    set_i32(&mut b, s.off, v.wrapping_add(d));
                    mutant(&b, if d > 0 { "an element is missing" } else { "an element too many" }, t);
                }
            }
        }
        if n < 130 && w.buf.len() < 30_000 {
            change_counts(&w, &[F::ArrLen, F::Dim, F::NullCount, F::NullCount256], r, t);
        }
    });
    // long ones
    cx.par("long", cx.pick(48, 400), |r, i, t| {
        let n = r.range(10_000, cx.pick(300_000, 300_000));
        let (w, vals, name) = one_dim(r, n, (i % 4) as usize, true);
        t.max("longest array", n as u64);
        accepted(&w, MVal::Arr(vals), name, t);
    });
    super::many::run(cx);
}

fn multi(r: &mut Rng, dims: &[usize], ty: u8, lbs: &[i32], e: Elem) -> (W, Vec<MVal>) {
    let n: usize = dims.iter().product();
    let mut b = start(r);
    b.long_runs = true;
    b.w.u8(F::TopTag, 7);
    b.w.i32(F::ObjId, 1);
    b.w.u8(F::ArrType, ty);
    b.w.i32(F::Rank, dims.len() as i32);
    for d in dims {
        b.w.i32(F::Dim, *d as i32);
    }
    if ty >= 3 {
        for l in lbs {
            b.w.i32(F::LowerBound, *l);
        }
    }
    b.elem_type(e);
    let v = b.elems(e, n);
    b.finish();
    (b.w, v)
}

pub fn c06(cx: &Cx) {
    cx.rule(
        "A case is one message whose root is a binary array of rank 1 to 32 with known non-zero dimensions, lower bounds and \
         elements (every element type, with null runs crossing rows), compared with the row-major nesting; or the same message \
         with a dimension, lower bound or null run changed, judged by the reference decoder; or one whose dimensions multiply \
         beyond the address range. Distinct by its bytes.",
    );
    // all shapes of up to 4 dimensions of up to 4
    let mut shapes: Vec<Vec<usize>> = vec![vec![]];
    let mut all: Vec<Vec<usize>> = vec![];
    for _ in 0..4 {
        shapes = shapes.iter().flat_map(|s| (1..=4).map(move |d| [s.clone(), vec![d]].concat())).collect();
        all.extend(shapes.clone());
    }
    for rank in 5..=8 {
        for bits in 0..1usize << rank {
            all.push((0..rank).map(|i| 1 + (bits >> i & 1)).collect());
        }
    }
    let elems = ELEMS;
    cx.par("shapes", (all.len() * 6 * elems.len()) as u64, |r, i, t| {
        let i = i as usize;
        let dims = &all[i % all.len()];
        let ty = (i / all.len() % 6) as u8;
        let e = elems[i / all.len() / 6];
        let lbs: Vec<i32> = dims.iter().map(|_| *r.pick(&[0, 0, 1, -1, 7, i32::MIN, i32::MAX])).collect();
        let (w, v) = multi(r, dims, ty, &lbs, e);
        t.max("highest rank", dims.len() as u64);
        accepted(&w, shaped(v, dims), "all shapes", t);
    });
    cx.exhaustive("all shapes of rank 1 to 4 with dimensions 1 to 4 and of rank 5 to 8 with dimensions 1 to 2, for 9 element types and all 6 array type codes");
    // up to as many dimensions as .NET allows
    let mut high: Vec<Vec<usize>> = vec![];
    for rank in 9..=32 {
        high.push(vec![1; rank]);
        for at in 0..rank {
            for d in [2, 3] {
                let mut dims = vec![1; rank];
                dims[at] = d;
                high.push(dims.clone());
                dims[(at * 7 + 3) % rank] = 2;
                high.push(dims);
            }
        }
    }
    cx.par("high ranks", high.len() as u64 * 2, |r, i, t| {
        let dims = &high[i as usize / 2];
        let lbs: Vec<i32> = dims.iter().map(|_| if r.chance(50) { r.i32() } else { 0 }).collect();
        let e = pick_elem(r);
        let ty = if r.chance(30) { r.below(6) as u8 } else { [2, 5][i as usize % 2] };
        let (w, v) = multi(r, dims, ty, &lbs, e);
        t.max("highest rank", dims.len() as u64);
        accepted(&w, shaped(v, dims), "high ranks", t);
    });
    cx.par("random", cx.cases(128_000, 1_500_000), |r, _, t| {
        let rank = r.range(1, 5);
        let dims: Vec<usize> = (0..rank).map(|_| if r.chance(10) { r.range(5, 12) } else { r.range(1, 4) }).collect();
        if dims.iter().product::<usize>() > 3000 {
            return;
        }
        let ty = if rank == 1 || r.chance(30) { *r.pick(&[0u8, 1, 2, 3, 4, 5]) } else { *r.pick(&[2u8, 5]) };
        let lbs: Vec<i32> = dims.iter().map(|_| if r.chance(50) { r.i32() } else { r.below(5) as i32 }).collect();
        let e = pick_elem(r);
        let mut again = r.clone();
        let (w, v) = multi(r, &dims, ty, &lbs, e);
        if !accepted(&w, shaped(v, &dims), "random shapes", t) {
            return;
        }
        if w.buf.len() < 2000 {
            change_counts(&w, &[F::Dim, F::NullCount, F::NullCount256, F::LowerBound, F::Rank], r, t);
        }
        // the same elements with other lower bounds, or without
        if ty == 2 || ty == 5 {
            let lbs2: Vec<i32> = dims.iter().map(|_| again.i32()).collect();
            let mut fresh = again.clone();
            let (w1, v1) = multi(&mut again, &dims, 2, &lbs, e);
            let (w2, _) = multi(&mut fresh, &dims, 5, &lbs2, e);
            t.n("pairs with different lower bounds");
            let want = shaped(v1, &dims);
            accepted(&w1, want.clone(), "without lower bounds", t);
            accepted(&w2, want, "with lower bounds", t);
        }
    });
    runs::run(cx, &runs::rects(), 131_072);
    // dimensions which multiply beyond the address range, with products that wrap to something small
    cx.par("overflow", (HUGE.len() * elems.len() * 6) as u64, |r, i, t| {
        let i = i as usize;
        let dims = HUGE[i % HUGE.len()];
        let e = elems[i / HUGE.len() % elems.len()];
        let buf = overflowing(r, dims, e, i / HUGE.len() / elems.len());
        t.eval(&buf, true);
        t.n("products beyond the address range");
        let got = real::run(&buf);
        if let Some(why) = judge::not_rejected(&got, &format!("the dimensions {dims:?} multiply beyond the address range")) {
            t.bad(&buf, why, String::new());
        }
    });
    super::many::run(cx);
}

/// Dimensions which multiply beyond the address range.
pub const HUGE: [&[i32]; 12] = [
    &[65536, 65536, 65536, 65536],
    &[i32::MAX, i32::MAX, i32::MAX],
    &[i32::MAX, i32::MAX, 8],
    &[1 << 16, 1 << 16, 1 << 16, 1 << 16, 1],
    &[1 << 30, 1 << 30, 1 << 4],
    &[1 << 30, 1 << 30, 16, 3],
    // 2^64 + 1, 2^64 + 2, 2^64 + 4 as products
    &[274177, 1 << 30, 1 << 30, 16],
    &[641, 6700417, 1 << 30, 1 << 30, 16],
    &[3, 1 << 30, 1 << 30, 1 << 30],
    &[1 << 21, 1 << 21, 1 << 22, 1],
    &[2, 1 << 21, 1 << 21, 1 << 21],
    &[65535, 65537, 1 << 30, 1 << 30],
];

fn overflowing(r: &mut Rng, dims: &[i32], e: Elem, k: usize) -> Vec<u8> {
    // as many elements as the wrapped product, or a few
    let wrapped = dims.iter().fold(1usize, |a, d| a.wrapping_mul(*d as usize));
    let wrapped32 = dims.iter().fold(1u32, |a, d| a.wrapping_mul(*d as u32)) as usize;
    let n = match k {
        0 => wrapped.min(50),
        1 => wrapped32.min(50),
        k => k - 2,
    };
    let mut b = start(r);
    b.w.u8(F::TopTag, 7);
    b.w.i32(F::ObjId, 1);
    b.w.u8(F::ArrType, 2);
    b.w.i32(F::Rank, dims.len() as i32);
    for d in dims {
        b.w.i32(F::Dim, *d);
    }
    b.elem_type(e);
    b.elems(e, n);
    b.finish();
    b.w.buf
}

pub fn any_overflowing(r: &mut Rng) -> Vec<u8> {
    let dims = *r.pick(&HUGE);
    let k = r.below(8);
    let elems = ELEMS;
    let e = *r.pick(&elems);
    overflowing(r, dims, e, k)
}

const ELEMS: [Elem; 9] = [
        Elem::Prim(P_I32),
        Elem::Str,
        Elem::Obj,
        Elem::Sys,
        Elem::Lib,
        Elem::ObjArr,
        Elem::StrArr,
        Elem::PrimArr(P_BYTE),
        Elem::Prim(P_BOOL),
    ];
