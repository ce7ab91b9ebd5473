//! Generator of well-formed messages: random object graphs (trees with shared strings) in random
//! record order, with all record kinds, placed libraries, null runs and metadata reuse.

use std::collections::{HashMap, HashSet};

use crate::dict;
use crate::mval::MVal;
use crate::rng::Rng;
use crate::wire::*;

#[derive(Clone)]
pub struct Cfg {
    /// rough number of values
    pub size: usize,
    pub depth: usize,
    pub max_members: usize,
    pub max_array: usize,
    /// percentage of messages with a method call or return
    pub calls: usize,
    pub multi_dim: bool,
    /// percentage of overlong string length forms
    pub overlong: usize,
    pub refs: bool,
    pub strings: StrGen,
    /// how often records stand in any order, of ten
    pub wild_order: usize,
}

#[derive(Clone, Copy, PartialEq)]
pub enum StrGen {
    Any,
    Short,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            size: 40,
            depth: 5,
            max_members: 6,
            max_array: 8,
            calls: 20,
            multi_dim: true,
            overlong: 3,
            refs: true,
            strings: StrGen::Any,
            wild_order: 5,
        }
    }
}

#[derive(Clone, Debug)]
pub enum Ty {
    Prim(u8),
    Str,
    Object,
    System(usize),
    Class(usize),
    ObjArr,
    StrArr,
    PrimArr(u8),
}

pub struct Def {
    pub name: String,
    pub lib: Option<usize>,
    pub names: Vec<String>,
    pub types: Option<Vec<Ty>>,
}

pub enum V {
    Prim(MVal),
    Str(String, Option<usize>),
    StrRef(usize),
    Null(usize),
    Inline(Inst),
    Ref(usize),
}

pub struct Inst {
    pub def: usize,
    pub vals: Vec<V>,
}

pub enum Obj {
    Class(Inst),
    ArrObj(Vec<V>),
    ArrPrim(u8, Vec<MVal>),
    ArrStr(Vec<V>),
    Bin { ty: u8, dims: Vec<usize>, lbs: Vec<i32>, elem: Ty, vals: Vec<V> },
    Str(String),
}

pub fn gen_string(r: &mut Rng, g: StrGen) -> String {
    const POOL: [&str; 14] =
        ["", "a", "x", "Hello", "müll", "日本", "\u{1F600}", "\0", "\u{feff}", "e\u{301}", "m_value", "\t\n", "\u{10FFFF}", "\\\"'"];
    if r.chance(7) {
        return dict::text(r);
    }
    let n = match g {
        StrGen::Short => r.below(6),
        StrGen::Any => match r.below(40) {
            0 => *r.pick(&[126, 127, 128, 129, 255, 256]),
            1 if r.chance(10) => *r.pick(&[16383, 16384, 16385]),
            2..=9 => return r.pick(&POOL).to_string(),
            _ => r.below(20),
        },
    };
    let mut s = String::with_capacity(n);
    while s.len() < n {
        let c = match r.below(12) {
            0 => '\u{e9}',
            1 => '\u{20ac}',
            2 => '\u{1d11e}',
            _ => char::from(b'a' + r.below(26) as u8),
        };
        if s.len() + c.len_utf8() <= n {
            s.push(c);
        } else {
            s.push('.');
        }
    }
    s
}

/// A decimal text whose value the crate has to keep exactly.
pub fn gen_decimal(r: &mut Rng) -> String {
    const EDGE: [&str; 12] = [
        "0",
        "1",
        "-1",
        "0.0",
        "1.10",
        "79228162514264337593543950335",
        "-79228162514264337593543950335",
        "7.9228162514264337593543950335",
        "0.0000000000000000000000000001",
        "-0.0000000000000000000000000001",
        "100000000000000000000000000.00",
        "18446744073709551616.5",
    ];
    if r.chance(25) {
        return r.pick(&EDGE).to_string();
    }
    let digits = r.range(1, 28);
    let mut s: String = (0..digits).map(|_| char::from(b'0' + r.below(10) as u8)).collect();
    let scale = r.below(digits.min(28));
    if scale > 0 {
        s.insert(digits - scale, '.');
    }
    let t = s.trim_start_matches('0');
    let mut t = if t.is_empty() || t.starts_with('.') { format!("0{t}") } else { t.to_string() };
    if t.bytes().any(|b| (b'1'..=b'9').contains(&b)) && r.chance(40) {
        t.insert(0, '-');
    }
    t
}

pub fn gen_char(r: &mut Rng) -> char {
    const EDGE: [char; 16] = [
        '\0', '\u{1}', 'A', '\u{7f}', '\u{80}', '\u{e9}', '\u{7ff}', '\u{800}', '\u{20ac}', '\u{d7ff}', '\u{e000}', '\u{fffd}',
        '\u{ffff}', '\u{10000}', '\u{1f600}', '\u{10ffff}',
    ];
    if r.chance(60) {
        return *r.pick(&EDGE);
    }
    loop {
        if let Some(c) = char::from_u32(r.u32() % 0x110000) {
            return c;
        }
    }
}

fn gen_i64(r: &mut Rng) -> i64 {
    if r.chance(if dict::has_new_ints() { 15 } else { 3 }) {
        return dict::int(r);
    }
    match r.below(5) {
        0 => *r.pick(&[0, 1, -1, i64::MIN, i64::MAX, 0x7f, 0x80, 0xff, 0x8000, 0x7fff_ffff, 0x8000_0000, -0x8000_0000]),
        1 => 1i64 << r.below(63),
        2 => -(1i64 << r.below(63)),
        3 => 0x0102_0304_0506_0708,
        _ => r.u64() as i64,
    }
}

pub fn gen_prim(r: &mut Rng, t: u8) -> MVal {
    match t {
        P_BOOL => MVal::Bool(r.chance(50)),
        P_BYTE => MVal::Byte(r.u8()),
        P_I8 => MVal::I8(r.u8() as i8),
        P_CHAR => MVal::Char(gen_char(r)),
        P_DEC => MVal::Dec(gen_decimal(r)),
        P_DOUBLE => MVal::Double(match r.below(4) {
            0 => *r.pick(&[
                0,
                0x8000_0000_0000_0000,
                0x7ff0_0000_0000_0000,
                0xfff0_0000_0000_0000,
                0x7ff8_0000_0000_0000,
                0x7ff0_0000_0000_0001,
                0xffff_ffff_ffff_ffff,
                1,
                0x000f_ffff_ffff_ffff,
                0x7fef_ffff_ffff_ffff,
            ]),
            1 => (r.i32() as f64 / 16.0).to_bits(),
            _ => r.u64(),
        }),
        P_SINGLE => MVal::Single(match r.below(4) {
            0 => *r.pick(&[
                0,
                0x8000_0000,
                0x7f80_0000,
                0xff80_0000,
                0x7fc0_0000,
                0x7f80_0001,
                0xffff_ffff,
                1,
                0x007f_ffff,
                0x7f7f_ffff,
            ]),
            1 => (r.i32() as f32 / 16.0).to_bits(),
            _ => r.u32(),
        }),
        P_I16 => MVal::I16(gen_i64(r) as i16),
        P_I32 => MVal::I32(gen_i64(r) as i32),
        P_I64 => MVal::I64(gen_i64(r)),
        P_U16 => MVal::U16(gen_i64(r) as u16),
        P_U32 => MVal::U32(gen_i64(r) as u32),
        P_U64 => MVal::U64(gen_i64(r) as u64),
        P_TS => MVal::Ts(gen_i64(r)),
        P_DT => MVal::Dt(match r.below(4) {
            0 => *r.pick(&[0, 3155378975999999999, 1 << 62, i64::MIN, i64::MIN | 3155378975999999999, -1, (1 << 62) - 1]),
            _ => gen_i64(r),
        }),
        P_NULL => MVal::Null,
        P_STR => MVal::Str(gen_string(r, StrGen::Any)),
        _ => panic!(),
    }
}

struct G<'r> {
    r: &'r mut Rng,
    cfg: Cfg,
    budget: isize,
    defs: Vec<Def>,
    libs: Vec<String>,
    objs: Vec<Obj>,
    parent: Vec<Option<usize>>,
    shared: Vec<String>,
}

impl G<'_> {
    fn any_ty(&mut self) -> Ty {
        let nd = self.defs.len();
        match self.r.below(11) {
            0..=2 => Ty::Prim(*self.r.pick(&PRIMS)),
            3 | 4 => Ty::Str,
            5 => Ty::Object,
            6 => Ty::ObjArr,
            7 => Ty::StrArr,
            8 => Ty::PrimArr(*self.r.pick(&PRIMS)),
            _ => {
                if nd == 0 {
                    return Ty::Object;
                }
                let d = self.r.below(nd);
                if self.defs[d].lib.is_some() { Ty::Class(d) } else { Ty::System(d) }
            }
        }
    }

    /// A name, for a member, a class or a library.
    fn name(&mut self) -> String {
        if self.r.chance(25) { dict::text(self.r) } else { gen_string(self.r, StrGen::Short) }
    }

    fn make_defs(&mut self) {
        let nl = self.r.below(4);
        for i in 0..nl {
            let mut name = if self.r.chance(25) { self.name() } else { format!("Lib{i}, Version={}", gen_string(self.r, StrGen::Short)) };
            if self.r.chance(10) && i > 0 {
                name = format!("{} ", self.libs[i - 1]);
            }
            self.libs.push(name);
        }
        let n = self.r.range(1, 5);
        for i in 0..n {
            let lib = if nl > 0 && self.r.chance(55) { Some(self.r.below(nl)) } else { None };
            let mut name = match self.r.below(10) {
                0 | 1 => "Same.Name".to_string(),
                2 | 3 => self.name(),
                _ => format!("N.C{i}{}", gen_string(self.r, StrGen::Short)),
            };
            if self.defs.iter().any(|d| d.name == name && d.lib == lib) {
                name = format!("{name}.{i}");
            }
            let nm = match self.r.below(10) {
                0 => 0,
                1 => self.cfg.max_members * 2,
                _ => self.r.range(1, self.cfg.max_members.max(1)),
            };
            let mut names: Vec<String> = vec![];
            for j in 0..nm {
                let mut s = if self.r.chance(40) {
                    self.name()
                } else {
                    ["a", "_size", "m_value", "value", "b", "Key"][self.r.below(6)].to_string()
                };
                while names.contains(&s) {
                    s = format!("{s}{j}");
                }
                names.push(s);
            }
            let types = if self.r.chance(60) { Some(vec![]) } else { None };
            self.defs.push(Def { name, lib, names, types });
        }
        for i in 0..n {
            if self.defs[i].types.is_some() {
                let ts = (0..self.defs[i].names.len()).map(|_| self.any_ty()).collect();
                self.defs[i].types = Some(ts);
            }
        }
    }

    fn string_val(&mut self) -> V {
        if self.cfg.refs && !self.shared.is_empty() && self.r.chance(25) {
            return V::StrRef(self.r.below(self.shared.len()));
        }
        V::Str(gen_string(self.r, self.cfg.strings), None)
    }

    fn inst(&mut self, def: usize, depth: usize, parent: usize) -> Inst {
        let mut vals = vec![];
        let n = self.defs[def].names.len();
        let mut i = 0;
        while i < n {
            let ty = self.defs[def].types.as_ref().map(|t| t[i].clone());
            // a null run
            if self.r.chance(if self.budget < 0 { 60 } else { 10 }) {
                let mut k = 0;
                // a run may go on over members of primitive types
                let over = self.r.chance(30);
                while i + k < n
                    && (over && k > 0 || !matches!(self.defs[def].types.as_ref().map(|t| &t[i + k]), Some(Ty::Prim(_))))
                {
                    k += 1;
                    if self.r.chance(40) {
                        break;
                    }
                }
                if k > 0 {
                    vals.push(V::Null(k));
                    i += k;
                    continue;
                }
            }
            let v = self.val(ty.as_ref(), depth + 1, parent);
            vals.push(v);
            i += 1;
        }
        Inst { def, vals }
    }

    fn add(&mut self, o: Obj, parent: Option<usize>) -> usize {
        self.objs.push(o);
        self.parent.push(parent);
        self.objs.len() - 1
    }

    fn leaf(&mut self, ty: Option<&Ty>) -> V {
        match ty {
            None | Some(Ty::Object) => {
                if self.r.chance(50) {
                    let t = *self.r.pick(&PRIMS);
                    V::Prim(gen_prim(self.r, t))
                } else if self.r.chance(70) {
                    self.string_val()
                } else {
                    V::Null(1)
                }
            }
            Some(Ty::Prim(t)) => V::Prim(gen_prim(self.r, *t)),
            Some(Ty::Str) => {
                if self.r.chance(80) {
                    self.string_val()
                } else {
                    V::Null(1)
                }
            }
            _ => V::Null(1),
        }
    }

    fn val(&mut self, ty: Option<&Ty>, depth: usize, parent: usize) -> V {
        self.budget -= 1;
        if depth >= self.cfg.depth || self.budget < 0 || self.r.chance(10) {
            return self.leaf(ty);
        }
        match ty {
            None | Some(Ty::Object) => match self.r.below(10) {
                0..=4 => self.leaf(ty),
                5 | 6 => {
                    let d = self.r.below(self.defs.len());
                    V::Inline(self.inst(d, depth, parent))
                }
                _ => self.reference(None, depth, parent),
            },
            Some(Ty::Prim(_)) | Some(Ty::Str) => self.leaf(ty),
            Some(Ty::System(d)) | Some(Ty::Class(d)) => {
                if self.r.chance(60) || !self.cfg.refs {
                    V::Inline(self.inst(*d, depth, parent))
                } else {
                    self.reference(ty, depth, parent)
                }
            }
            Some(Ty::ObjArr | Ty::StrArr | Ty::PrimArr(_)) => self.reference(ty, depth, parent),
        }
    }

    fn reference(&mut self, ty: Option<&Ty>, depth: usize, parent: usize) -> V {
        if !self.cfg.refs {
            return self.leaf(ty);
        }
        // reserve the place so that children come after their parent
        let idx = self.add(Obj::Str(String::new()), Some(parent));
        let o = self.object(ty, depth, idx);
        self.objs[idx] = o;
        V::Ref(idx)
    }

    fn elems(&mut self, ty: Option<&Ty>, n: usize, depth: usize, parent: usize) -> Vec<V> {
        let mut v = vec![];
        let mut i = 0;
        while i < n {
            if !matches!(ty, Some(Ty::Prim(_))) && self.r.chance(if self.budget < 0 { 70 } else { 12 }) {
                let k = if self.r.chance(40) { n - i } else { self.r.range(1, n - i) };
                v.push(V::Null(k));
                i += k;
            } else {
                let x = self.val(ty, depth + 1, parent);
                v.push(x);
                i += 1;
            }
        }
        v
    }

    fn object(&mut self, ty: Option<&Ty>, depth: usize, idx: usize) -> Obj {
        let max = self.cfg.max_array;
        match ty {
            Some(Ty::System(d)) | Some(Ty::Class(d)) => return Obj::Class(self.inst(*d, depth, idx)),
            Some(Ty::ObjArr) => {
                let n = self.r.below(max + 1);
                return Obj::ArrObj(self.elems(None, n, depth, idx));
            }
            Some(Ty::StrArr) => {
                let n = self.r.below(max + 1);
                return Obj::ArrStr(self.elems(Some(&Ty::Str), n, depth, idx));
            }
            Some(Ty::PrimArr(p)) => {
                let n = self.r.below(max + 1);
                return Obj::ArrPrim(*p, (0..n).map(|_| gen_prim(self.r, *p)).collect());
            }
            _ => (),
        }
        match self.r.below(8) {
            0 | 1 => {
                let d = self.r.below(self.defs.len());
                Obj::Class(self.inst(d, depth, idx))
            }
            2 => {
                let n = self.r.below(max + 1);
                Obj::ArrObj(self.elems(None, n, depth, idx))
            }
            3 => {
                let p = *self.r.pick(&PRIMS);
                let n = self.r.below(max + 1);
                Obj::ArrPrim(p, (0..n).map(|_| gen_prim(self.r, p)).collect())
            }
            4 => {
                let n = self.r.below(max + 1);
                Obj::ArrStr(self.elems(Some(&Ty::Str), n, depth, idx))
            }
            5 => Obj::Str(gen_string(self.r, self.cfg.strings)),
            _ => {
                let elem = self.any_ty();
                let multi = self.cfg.multi_dim && self.r.chance(60);
                let rank = if multi { self.r.range(2, 4) } else { 1 };
                let dims: Vec<usize> = if rank == 1 {
                    let n = if matches!(elem, Ty::Class(_)) { self.r.range(1, max) } else { self.r.below(max + 1) };
                    vec![n]
                } else {
                    (0..rank).map(|_| self.r.range(1, 3)).collect()
                };
                let ty = if rank == 1 { *self.r.pick(&[0u8, 1, 2, 3, 4, 5]) } else { *self.r.pick(&[2u8, 5]) };
                let lbs = (0..rank).map(|_| self.r.range(0, 20) as i32 - 5).collect();
                let n = dims.iter().product();
                let vals = self.elems(Some(&elem), n, depth, idx);
                Obj::Bin { ty, dims, lbs, elem, vals }
            }
        }
    }
}

/// Positive ids in some order.
pub struct Ids {
    mode: usize,
    next: i32,
    used: HashSet<i32>,
}

impl Ids {
    pub fn new(r: &mut Rng) -> Self {
        Ids { mode: r.below(5), next: 0, used: HashSet::new() }
    }

    pub fn get(&mut self, r: &mut Rng) -> i32 {
        loop {
            let new = if r.chance(15) { dict::new_int(r, 1, i64::from(i32::MAX)) } else { None };
            let id = match self.mode {
                _ if new.is_some() => new.unwrap_or(1) as i32,
                0 => {
                    self.next += 1;
                    self.next
                }
                1 => 1 + r.below(500) as i32,
                2 => (r.u32() >> 1) as i32,
                // the same low bits over and over
                4 => (1 + r.below(3) as i32) | ((r.below(128) as i32) << *r.pick(&[8, 16, 24])),
                _ => i32::MAX - r.below(400) as i32,
            };
            if id > 0 && self.used.insert(id) {
                return id;
            }
            if self.used.len() > 150 {
                self.mode = 2;
            }
        }
    }
}

struct Enc<'a, 'r> {
    r: &'r mut Rng,
    w: W,
    ids: Ids,
    defs: &'a [Def],
    libs: &'a [String],
    lib_ids: Vec<i32>,
    lib_done: Vec<bool>,
    meta: HashMap<usize, Vec<i32>>,
    obj_ids: Vec<i32>,
    shared_ids: Vec<i32>,
    overlong: usize,
}

impl Enc<'_, '_> {
    fn form(&mut self) -> usize {
        if self.r.chance(self.overlong) { self.r.range(1, 5) } else { 0 }
    }

    /// A position where a library record may stand.
    fn lib_here(&mut self, need: Option<usize>) {
        let l = match need {
            Some(l) if !self.lib_done[l] => l,
            Some(_) => return,
            None => {
                if self.libs.is_empty() || !self.r.chance(8) {
                    return;
                }
                let l = self.r.below(self.libs.len());
                if self.lib_done[l] {
                    return;
                }
                l
            }
        };
        self.lib_done[l] = true;
        self.w.lib(self.lib_ids[l], &self.libs[l]);
    }

    fn ty_code(t: &Ty) -> u8 {
        match t {
            Ty::Prim(_) => 0,
            Ty::Str => 1,
            Ty::Object => 2,
            Ty::System(_) => 3,
            Ty::Class(_) => 4,
            Ty::ObjArr => 5,
            Ty::StrArr => 6,
            Ty::PrimArr(_) => 7,
        }
    }

    fn ty_info(&mut self, t: &Ty) {
        match t {
            Ty::Prim(p) => self.w.u8(F::PrimTypeMember, *p),
            Ty::PrimArr(p) => self.w.u8(F::PrimTypeArray, *p),
            Ty::System(d) => self.w.str(F::TypeName, &self.defs[*d].name),
            Ty::Class(d) => {
                self.w.str(F::TypeName, &self.defs[*d].name);
                let l = self.lib_ids[self.defs[*d].lib.unwrap()];
                self.w.i32(F::LibUse, l);
            }
            _ => (),
        }
    }

    fn inst(&mut self, i: &Inst, top: bool, id: i32) {
        let def = &self.defs[i.def];
        let f = if top { F::TopTag } else { F::MemberTag };
        let metas = self.meta.get(&i.def).cloned().unwrap_or_default();
        if !metas.is_empty() && self.r.chance(70) {
            self.w.u8(f, 1);
            self.w.i32(F::ObjId, id);
            let m = *self.r.pick(&metas);
            self.w.i32(F::MetaId, m);
        } else {
            let tag = match (&def.types, def.lib) {
                (None, None) => 2,
                (None, Some(_)) => 3,
                (Some(_), None) => 4,
                (Some(_), Some(_)) => 5,
            };
            self.w.u8(f, tag);
            self.w.i32(F::ObjId, id);
            let form = self.form();
            self.w.str_form(F::ClassName, &def.name, form);
            self.w.i32(F::MemberCount, def.names.len() as i32);
            for n in &def.names {
                self.w.str(F::MemberName, n);
            }
            if let Some(ts) = &def.types {
                for t in ts {
                    self.w.u8(F::BinType, Self::ty_code(t));
                }
                for t in ts {
                    self.ty_info(t);
                }
            }
            if let Some(l) = def.lib {
                let id = self.lib_ids[l];
                self.w.i32(F::LibUse, id);
            }
            self.meta.entry(i.def).or_default().push(id);
        }
        let mut k = 0;
        for v in &i.vals {
            let ty = def.types.as_ref().map(|t| t[k].clone());
            self.val(v, ty.as_ref(), true);
            k += if let V::Null(n) = v { *n } else { 1 };
        }
    }

    fn val(&mut self, v: &V, ty: Option<&Ty>, libs_ok: bool) {
        if let (Some(Ty::Prim(_)), V::Prim(p)) = (ty, v) {
            self.w.prim(p);
            return;
        }
        if libs_ok {
            let mut need = None;
            if let Some(Ty::Class(d)) = ty {
                need = self.defs[*d].lib;
            }
            if let V::Inline(i) = v {
                need = need.or(self.defs[i.def].lib);
            }
            self.lib_here(need);
        }
        match v {
            V::Prim(p) => self.w.typed_prim(p),
            V::Str(s, slot) => {
                let id = match slot {
                    Some(k) => self.shared_ids[*k],
                    None => self.ids.get(self.r),
                };
                let form = self.form();
                self.w.obj_str(false, id, s, form);
            }
            V::StrRef(k) => {
                let id = self.shared_ids[*k];
                self.w.member_ref(id);
            }
            V::Null(n) => {
                if *n == 1 && self.r.chance(70) {
                    self.w.null();
                } else {
                    let wide = self.r.chance(40);
                    self.w.null_run(*n, wide);
                }
            }
            V::Inline(i) => {
                let id = self.ids.get(self.r);
                self.inst(i, false, id);
            }
            V::Ref(o) => {
                let id = self.obj_ids[*o];
                self.w.member_ref(id);
            }
        }
    }

    fn obj(&mut self, idx: usize, o: &Obj) {
        let start = self.w.buf.len();
        let id = self.obj_ids[idx];
        match o {
            Obj::Class(i) => {
                let need = self.defs[i.def].lib;
                self.lib_here(need);
                self.inst(i, true, id);
            }
            Obj::Str(s) => {
                let form = self.form();
                self.w.obj_str(true, id, s, form);
            }
            Obj::ArrObj(vs) => {
                self.lib_here(None);
                self.arr_obj(id, vs);
            }
            Obj::ArrStr(vs) => {
                self.lib_here(None);
                self.w.u8(F::TopTag, 17);
                self.w.i32(F::ObjId, id);
                self.w.i32(F::ArrLen, vlen(vs) as i32);
                for v in vs {
                    self.val(v, Some(&Ty::Str), false);
                }
            }
            Obj::ArrPrim(p, vs) => {
                self.lib_here(None);
                self.w.u8(F::TopTag, 15);
                self.w.i32(F::ObjId, id);
                self.w.i32(F::ArrLen, vs.len() as i32);
                self.w.u8(F::PrimTypePrimArray, *p);
                for v in vs {
                    self.w.prim(v);
                }
            }
            Obj::Bin { ty, dims, lbs, elem, vals } => {
                self.lib_here(None);
                self.w.u8(F::TopTag, 7);
                self.w.i32(F::ObjId, id);
                self.w.u8(F::ArrType, *ty);
                self.w.i32(F::Rank, dims.len() as i32);
                for d in dims {
                    self.w.i32(F::Dim, *d as i32);
                }
                if *ty >= 3 {
                    for l in lbs {
                        self.w.i32(F::LowerBound, *l);
                    }
                }
                self.w.u8(F::BinType, Self::ty_code(elem));
                self.ty_info(elem);
                for v in vals {
                    self.val(v, Some(elem), true);
                }
            }
        }
        self.w.recs.push((start, self.w.buf.len()));
    }

    fn arr_obj(&mut self, id: i32, vs: &[V]) {
        self.w.u8(F::TopTag, 16);
        self.w.i32(F::ObjId, id);
        self.w.i32(F::ArrLen, vlen(vs) as i32);
        for v in vs {
            self.val(v, None, true);
        }
    }
}

fn vlen(vs: &[V]) -> usize {
    vs.iter().map(|v| if let V::Null(n) = v { *n } else { 1 }).sum()
}

/// Random flags for a call (or return) which contradict nothing, with the wanted argument flag.
fn gen_flags(r: &mut Rng, args: i32, ctx: i32, ret: i32) -> i32 {
    let mut fl = args | ctx | ret;
    // other items in the call array
    if ret == 0 && r.chance(15) {
        fl |= 0x80;
    }
    if r.chance(15) {
        fl |= 0x100;
    }
    if r.chance(5) {
        fl |= 0x8000;
    }
    fl
}

/// Generates one message.
pub fn generate(rng: &mut Rng, cfg: &Cfg) -> W {
    let mut g = G {
        budget: cfg.size as isize,
        cfg: cfg.clone(),
        r: rng,
        defs: vec![],
        libs: vec![],
        objs: vec![],
        parent: vec![],
        shared: vec![],
    };
    g.make_defs();
    let ns = g.r.below(3);
    for i in 0..ns {
        let s = format!("shared{i}{}", gen_string(g.r, StrGen::Short));
        g.shared.push(s);
    }
    let with_call = g.r.chance(cfg.calls);

    // main tree
    let mut root = None;
    let mut call_vals: Option<Vec<V>> = None;
    let mut arg_mode = 0;
    if with_call {
        arg_mode = *g.r.pick(&[0, 1, 2, 4, 4, 8, 8]);
        if arg_mode == 4 {
            let n = g.r.below(cfg.max_array + 1);
            let me = usize::MAX;
            call_vals = Some(g.elems(None, n, 0, me));
        } else if arg_mode == 8 {
            // the first item is an array
            let me = usize::MAX;
            let first = loop {
                let idx = g.add(Obj::Str(String::new()), Some(me));
                let t = match g.r.below(3) {
                    0 => Ty::ObjArr,
                    1 => Ty::StrArr,
                    _ => Ty::PrimArr(P_I32),
                };
                let o = g.object(Some(&t), 1, idx);
                g.objs[idx] = o;
                break V::Ref(idx);
            };
            let mut v = vec![first];
            let n = g.r.below(3);
            v.extend(g.elems(None, n, 0, me));
            call_vals = Some(v);
        }
    } else {
        let idx = g.add(Obj::Str(String::new()), None);
        let o = g.object(None, 0, idx);
        g.objs[idx] = o;
        root = Some(idx);
    }
    // unrelated trees
    while cfg.refs && g.r.chance(30) && g.objs.len() < 60 {
        let idx = g.add(Obj::Str(String::new()), None);
        g.budget = g.budget.max(5);
        let o = g.object(None, 2, idx);
        g.objs[idx] = o;
    }
    // Shared strings which are defined by a top level record or by one of their uses.
    let shared = std::mem::take(&mut g.shared);
    let G { defs, libs, mut objs, mut parent, .. } = g;
    let rng: &mut Rng = rng;
    let mut shared_top: Vec<Option<usize>> = vec![];
    for s in &shared {
        shared_top.push(if rng.chance(50) {
            objs.push(Obj::Str(s.clone()));
            parent.push(None);
            Some(objs.len() - 1)
        } else {
            None
        });
    }
    // order of records
    let n = objs.len();
    let mut order: Vec<usize> = (0..n).collect();
    let depth_of = |mut i: usize| {
        let mut d = 0;
        while let Some(p) = parent[i] {
            if p == usize::MAX {
                break;
            }
            i = p;
            d += 1;
        }
        d
    };
    let mode = rng.below(10);
    match mode {
        // depth first, parents first
        0..=2 => (),
        // breadth first
        3..=5 => order.sort_by_key(|i| (depth_of(*i), *i)),
        // children first
        6..=7 => order.reverse(),
        _ => {
            if rng.chance(cfg.wild_order * 10) {
                rng.shuffle(&mut order);
            } else {
                order.reverse();
                order.sort_by_key(|i| std::cmp::Reverse(depth_of(*i)));
            }
        }
    }
    let mut call_at = 0;
    if with_call {
        // where the call stands: in front of everything it needs, behind everything or anywhere
        call_at = match rng.below(3) {
            0 => 0,
            1 => n,
            _ => rng.below(n + 1),
        };
        if call_vals.is_none() {
            // an array right behind the call would be taken for its call array
            call_at = n;
        }
    }

    let mut ids = Ids::new(rng);
    // Number ids in stream order or not.
    let mut obj_ids = vec![0; n];
    for i in 0..n {
        obj_ids[i] = ids.get(rng);
    }
    let shared_ids: Vec<i32> = shared_top
        .iter()
        .map(|t| match t {
            Some(i) => obj_ids[*i],
            None => ids.get(rng),
        })
        .collect();
    let call_id = ids.get(rng);
    let mut lib_ids = vec![];
    for i in 0..libs.len() {
        loop {
            let id = if rng.chance(70) { (i + 1) as i32 } else { 1 + (rng.u32() >> 1) as i32 % 2_000_000_000 };
            if !lib_ids.contains(&id) {
                lib_ids.push(id);
                break;
            }
        }
    }
    // inline definitions of shared strings: turn one use into the definition
    let mut pending: Vec<usize> = (0..shared.len()).filter(|k| shared_top[*k].is_none()).collect();
    {
        fn walk(vs: &mut [V], pending: &mut Vec<usize>, shared: &[String], r: &mut Rng) {
            for v in vs {
                match v {
                    V::StrRef(k) if pending.contains(k) && r.chance(50) => {
                        let k = *k;
                        pending.retain(|x| *x != k);
                        *v = V::Str(shared[k].clone(), Some(k));
                    }
                    V::Inline(i) => walk(&mut i.vals, pending, shared, r),
                    _ => (),
                }
            }
        }
        if let Some(vs) = &mut call_vals {
            walk(vs, &mut pending, &shared, rng);
        }
        for o in &mut objs {
            match o {
                Obj::Class(i) => walk(&mut i.vals, &mut pending, &shared, rng),
                Obj::ArrObj(vs) | Obj::ArrStr(vs) | Obj::Bin { vals: vs, .. } => walk(vs, &mut pending, &shared, rng),
                _ => (),
            }
        }
    }
    let late: Vec<usize> = pending;

    let mut e = Enc {
        r: rng,
        w: W::new(),
        ids,
        defs: &defs,
        lib_done: vec![false; libs.len()],
        libs: &libs,
        lib_ids,
        meta: HashMap::new(),
        obj_ids,
        shared_ids,
        overlong: cfg.overlong,
    };
    let root_id = match root {
        Some(i) => e.obj_ids[i],
        None if call_vals.is_some() => call_id,
        None => *e.r.pick(&[0, 1, 77]),
    };
    let header_id = *e.r.pick(&[-1, 0, 1, 7, i32::MIN, i32::MAX]);
    e.w.header(root_id, header_id);
    let late_first = with_call || e.r.chance(50);
    let emit_late = |e: &mut Enc| {
        for k in &late {
            let start = e.w.buf.len();
            e.w.obj_str(true, e.shared_ids[*k], &shared[*k], 0);
            e.w.recs.push((start, e.w.buf.len()));
        }
    };
    if late_first {
        emit_late(&mut e);
    }
    for pos in 0..=n {
        if with_call && pos == call_at {
            let start = e.w.buf.len();
            e.lib_here(None);
            let ret = e.r.chance(50);
            let ctx = *e.r.pick(&[0, 0x10, 0x20, 0x20, 0x40]);
            let ctx = if arg_mode & 0xC != 0 && ctx == 0x40 { 0x10 } else { ctx };
            if ret {
                let rf = *e.r.pick(&[0, 0x200, 0x400, 0x800, 0x800]);
                let fl = gen_flags(e.r, arg_mode, ctx, rf);
                e.w.u8(F::TopTag, 22);
                e.w.i32(F::Flags, fl);
                if fl & 0x800 != 0 {
                    let v = gen_arg(e.r);
                    e.w.value_code(&v);
                }
            } else {
                let rf = *e.r.pick(&[0, 0, 0x200, 0x400, 0x800, 0x1000]);
                let rf = if arg_mode == 4 && rf == 0x1000 { 0 } else { rf };
                let fl = gen_flags(e.r, arg_mode, ctx, rf);
                e.w.u8(F::TopTag, 21);
                e.w.i32(F::Flags, fl);
                let m = gen_string(e.r, StrGen::Any);
                e.w.string_code(&m);
                let t = gen_string(e.r, StrGen::Any);
                e.w.string_code(&t);
            }
            if ctx == 0x20 {
                let c = gen_string(e.r, StrGen::Any);
                e.w.string_code(&c);
            }
            if arg_mode == 2 {
                let k = e.r.below(5);
                e.w.i32(F::ArgCount, k as i32);
                for _ in 0..k {
                    let v = gen_arg(e.r);
                    e.w.value_code(&v);
                }
            }
            e.w.recs.push((start, e.w.buf.len()));
            if let Some(vs) = &call_vals {
                let start = e.w.buf.len();
                e.lib_here(None);
                e.arr_obj(call_id, vs);
                e.w.recs.push((start, e.w.buf.len()));
            }
        }
        if pos < n {
            let i = order[pos];
            e.obj(i, &objs[i]);
        }
    }
    if !late_first {
        emit_late(&mut e);
    }
    e.w.end();
    e.w
}

pub fn gen_arg(r: &mut Rng) -> MVal {
    let t = match r.below(18) {
        15 => P_NULL,
        16 | 17 => P_STR,
        i => PRIMS[i],
    };
    gen_prim(r, t)
}
