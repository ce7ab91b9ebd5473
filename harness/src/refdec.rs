//! Reference decoder: an independent reading of the record format, used as the oracle for
//! arbitrary bytes. It works in two passes (records, then references) and gives a verdict which
//! says how much can be demanded of the crate for this input.

use std::collections::{HashMap, HashSet};

use crate::mval::{MMsg, MVal};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum K {
    Eof,
    Tag,
    PrimType,
    BinType,
    ArrType,
    ObjId,
    RefId,
    LibId,
    MetaId,
    MetaSelf,
    MetaMissing,
    DupObj,
    DupLib,
    NoLib,
    NullCount,
    NullOver,
    NegLen,
    NegDim,
    DimOverflow,
    NegCount,
    Utf8,
    StrLen,
    BoolVal,
    CharVal,
    DecVal,
    FlagsBad,
    Args,
    CallId,
    UnexpectedClass,
    Dangling,
    Cycle,
    RootMissing,
    RootConsumed,
    NegRoot,
    Major,
    Minor,
    Trailing,
    StrCode,
}

#[derive(Clone, Debug, PartialEq)]
pub enum Verdict {
    /// The message has to be accepted with this result.
    Must(MMsg),
    /// Accepting is optional, but only with this result.
    May(MMsg, &'static str),
    /// Not judged.
    Any(&'static str),
    /// Has to be rejected; why, and where the reason was found.
    Reject(K, usize),
}

impl Verdict {
    pub fn name(&self) -> String {
        match self {
            Verdict::Must(_) => "must-accept".into(),
            Verdict::May(_, w) => format!("may-accept ({w})"),
            Verdict::Any(w) => format!("unspecified ({w})"),
            Verdict::Reject(k, _) => format!("reject {k:?}"),
        }
    }
}

/// Nesting that every implementation of the property has to support in this monitor; the crate's
/// own limit is higher.
const MUST_DEPTH: usize = 32;
/// The decoder itself gives up here.
const GIVE_UP: usize = 300;

#[derive(Clone, Debug, PartialEq)]
enum MT {
    Prim(u8),
    Str,
    Object,
    System(String),
    Class(String, i32),
    ObjArr,
    StrArr,
    PrimArr(u8),
}

#[derive(Debug)]
enum Node {
    Val(MVal),
    Str(i32),
    Ref(i32, Option<MT>),
    Null,
    Inline(usize),
}

#[derive(Debug)]
enum Body {
    Class { name: String, lib: Option<String>, names: Vec<String> },
    Array { dims: Vec<usize>, kind: ArrKind },
    Str(String),
}

#[derive(Debug, PartialEq, Clone, Copy)]
enum ArrKind {
    Obj,
    Str,
    Prim(u8),
    Bin,
}

#[derive(Debug)]
struct Rec {
    id: i32,
    body: Body,
    nodes: Vec<Node>,
    inline: bool,
    call_array: bool,
}

#[derive(Clone)]
struct Meta {
    name: String,
    lib: Option<i32>,
    names: Vec<String>,
    types: Option<Vec<MT>>,
}

struct Dec<'a> {
    b: &'a [u8],
    p: usize,
    libs: HashMap<i32, String>,
    metas: HashMap<i32, Meta>,
    instance_ids: HashSet<i32>,
    ids: HashMap<i32, usize>,
    recs: Vec<Rec>,
    any: Option<&'static str>,
    may: Option<&'static str>,
    nulls: usize,
}

type R<T> = Result<T, (K, usize)>;

fn err<T>(k: K, p: usize) -> R<T> {
    Err((k, p))
}

/// What a decimal text is worth: its exact value, not a number, or not judged.
#[derive(PartialEq, Debug)]
pub enum DecText {
    Exact,
    Bad,
    Open,
}

pub fn classify_decimal(s: &str) -> DecText {
    if s.bytes().any(|b| matches!(b, b'e' | b'E')) && s.bytes().any(|b| b.is_ascii_digit()) {
        // possibly in scientific notation
        let ok = s.bytes().all(|b| b.is_ascii_digit() || matches!(b, b'e' | b'E' | b'+' | b'-' | b'.' | b'_'));
        return if ok { DecText::Open } else { DecText::Bad };
    }
    if s.is_empty() || s.bytes().any(|b| !(b.is_ascii_digit() || matches!(b, b'+' | b'-' | b'.' | b'_'))) {
        return DecText::Bad;
    }
    if !s.bytes().any(|b| b.is_ascii_digit()) {
        return DecText::Bad;
    }
    if s.bytes().filter(|b| *b == b'.').count() > 1 {
        return DecText::Bad;
    }
    if s.bytes().skip(1).any(|b| matches!(b, b'+' | b'-')) {
        return DecText::Bad;
    }
    let neg = s.starts_with('-');
    let t = s.trim_start_matches(['-', '+']);
    let digits: String = t.chars().filter(|c| c.is_ascii_digit()).collect();
    let (ip, fp) = match t.split_once('.') {
        Some((i, f)) => (i, Some(f)),
        None => (t, None),
    };
    let idigits: String = ip.chars().filter(|c| c.is_ascii_digit()).collect();
    let isig = idigits.trim_start_matches('0');
    const MAX: u128 = (1 << 96) - 1;
    let too_big = isig.len() > 29 || isig.parse::<u128>().is_ok_and(|v| v > MAX);
    if too_big {
        return DecText::Bad;
    }
    let canonical = !s.contains('_')
        && !s.starts_with('+')
        && !ip.is_empty()
        && (ip == "0" || !ip.starts_with('0'))
        && fp.is_none_or(|f| !f.is_empty());
    if !canonical {
        return DecText::Open;
    }
    if fp.is_some_and(|f| f.len() > 28) {
        return DecText::Open;
    }
    let sig = digits.trim_start_matches('0');
    if sig.len() > 29 || sig.parse::<u128>().is_ok_and(|v| v > MAX) {
        return DecText::Open;
    }
    if neg && sig.is_empty() {
        return DecText::Open;
    }
    DecText::Exact
}

/// Contradictory message flags.
pub fn flags_contradict(fl: i32) -> bool {
    let n = |m: i32| (fl & m).count_ones();
    let args = n(0xf);
    let ctx = n(0x70);
    let sig = n(0x80);
    let ret = n(0x1e00);
    let exc = n(0x2000);
    args > 1
        || ctx > 1
        || ret > 1
        || (args > 0 && exc > 0)
        || (ret > 0 && exc > 0)
        || (ret > 0 && sig > 0)
        || (sig > 0 && exc > 0)
}

pub const TOO_LARGE: &str = "too large for the monitor";

pub const FLAGS_DEFINED: i32 = 0xBFFF;

impl<'a> Dec<'a> {
    fn peek(&self) -> Option<u8> {
        self.b.get(self.p).copied()
    }

    fn set_any(&mut self, w: &'static str) {
        self.any.get_or_insert(w);
    }

    fn set_may(&mut self, w: &'static str) {
        self.may.get_or_insert(w);
    }

    fn take(&mut self, n: usize) -> R<&'a [u8]> {
        if n > self.b.len() - self.p {
            return err(K::Eof, self.p);
        }
        let s = &self.b[self.p..self.p + n];
        self.p += n;
        Ok(s)
    }

    fn u8(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }

    fn i32(&mut self) -> R<i32> {
        Ok(i32::from_le_bytes(self.take(4)?.try_into().unwrap()))
    }

    fn pos_id(&mut self, k: K) -> R<i32> {
        let at = self.p;
        let v = self.i32()?;
        if v <= 0 { err(k, at) } else { Ok(v) }
    }

    fn nonneg(&mut self, k: K) -> R<usize> {
        let at = self.p;
        let v = self.i32()?;
        if v < 0 { err(k, at) } else { Ok(v as usize) }
    }

    fn lps(&mut self) -> R<&'a str> {
        let at = self.p;
        let mut n: u64 = 0;
        for i in 0..5 {
            let b = self.u8()?;
            if i == 4 && b & 0xF8 != 0 {
                return err(K::StrLen, at);
            }
            n |= u64::from(b & 0x7f) << (7 * i);
            if b & 0x80 == 0 {
                break;
            }
        }
        let t = self.p;
        let s = self.take(n as usize)?;
        std::str::from_utf8(s).map_err(|_| (K::Utf8, t))
    }

    fn prim(&mut self, t: u8, arg: bool) -> R<MVal> {
        let at = self.p;
        Ok(match t {
            1 => match self.u8()? {
                0 => MVal::Bool(false),
                1 => MVal::Bool(true),
                _ => return err(K::BoolVal, at),
            },
            2 => MVal::Byte(self.u8()?),
            3 => {
                let b = self.u8()?;
                let n = match b {
                    0..=0x7f => 1,
                    0xc2..=0xdf => 2,
                    0xe0..=0xef => 3,
                    0xf0..=0xf4 => 4,
                    _ => return err(K::CharVal, at),
                };
                self.p = at;
                let s = self.take(n)?;
                match std::str::from_utf8(s) {
                    Ok(s) => MVal::Char(s.chars().next().unwrap()),
                    Err(_) => return err(K::CharVal, at),
                }
            }
            5 => {
                let s = self.lps()?;
                match classify_decimal(s) {
                    DecText::Exact => MVal::Dec(s.to_string()),
                    DecText::Bad => return err(K::DecVal, at),
                    DecText::Open => {
                        self.set_any("decimal text which is not canonical");
                        MVal::Dec(s.to_string())
                    }
                }
            }
            6 => MVal::Double(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            7 => MVal::I16(i16::from_le_bytes(self.take(2)?.try_into().unwrap())),
            8 => MVal::I32(self.i32()?),
            9 => MVal::I64(i64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            10 => MVal::I8(self.u8()? as i8),
            11 => MVal::Single(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
            12 => MVal::Ts(i64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            13 => MVal::Dt(i64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            14 => MVal::U16(u16::from_le_bytes(self.take(2)?.try_into().unwrap())),
            15 => MVal::U32(u32::from_le_bytes(self.take(4)?.try_into().unwrap())),
            16 => MVal::U64(u64::from_le_bytes(self.take(8)?.try_into().unwrap())),
            17 if arg => MVal::Null,
            18 if arg => MVal::Str(self.lps()?.to_string()),
            _ => return err(K::PrimType, at),
        })
    }

    fn prim_type(&mut self) -> R<u8> {
        let at = self.p;
        let t = self.u8()?;
        if matches!(t, 1..=3 | 5..=18) { Ok(t) } else { err(K::PrimType, at) }
    }

    fn bin_type(&mut self) -> R<u8> {
        let at = self.p;
        let t = self.u8()?;
        if t <= 7 { Ok(t) } else { err(K::BinType, at) }
    }

    fn type_info(&mut self, t: u8) -> R<MT> {
        Ok(match t {
            0 => MT::Prim(self.prim_type()?),
            1 => MT::Str,
            2 => MT::Object,
            3 => MT::System(self.lps()?.to_string()),
            4 => {
                let n = self.lps()?.to_string();
                MT::Class(n, self.pos_id(K::LibId)?)
            }
            5 => MT::ObjArr,
            6 => MT::StrArr,
            _ => MT::PrimArr(self.prim_type()?),
        })
    }

    /// A library record, if there is one here.
    fn library(&mut self) -> R<bool> {
        let mut found = false;
        while self.peek() == Some(12) {
            if found {
                self.set_any("two library records in a row");
            }
            found = true;
            let at = self.p;
            self.p += 1;
            let id = self.pos_id(K::LibId)?;
            let name = self.lps()?.to_string();
            if self.libs.insert(id, name).is_some() {
                return err(K::DupLib, at);
            }
        }
        Ok(found)
    }

    fn new_id(&mut self, id: i32, rec: usize, at: usize) -> R<()> {
        if self.ids.insert(id, rec).is_some() { err(K::DupObj, at) } else { Ok(()) }
    }

    fn push(&mut self, id: i32, body: Body, inline: bool, at: usize) -> R<usize> {
        let i = self.recs.len();
        self.new_id(id, i, at)?;
        self.recs.push(Rec {
            id,
            body,
            nodes: vec![],
            inline,
            call_array: false,
        });
        Ok(i)
    }

    fn null_run(&mut self, tag: u8) -> R<usize> {
        let at = self.p;
        match tag {
            10 => Ok(1),
            13 => match self.u8()? {
                0 => err(K::NullCount, at),
                n => Ok(usize::from(n)),
            },
            _ => {
                let n = self.i32()?;
                if n <= 0 { err(K::NullCount, at) } else { Ok(n as usize) }
            }
        }
    }

    /// Reads `n` members or elements into record `rec`.
    fn members(&mut self, rec: usize, n: usize, types: &dyn Fn(usize) -> Option<MT>, depth: usize, str_arr: bool) -> R<()> {
        let mut have = 0;
        while have < n {
            let at = self.p;
            let ty = types(have);
            let (node, run) = self.member(ty.as_ref(), depth, str_arr)?;
            if run > n - have {
                return err(K::NullOver, at);
            }
            self.nulls += run;
            if self.nulls > 300_000 {
                self.set_any(TOO_LARGE);
                return err(K::Eof, at);
            }
            if run > 1 && (have..have + run).any(|i| matches!(types(i), Some(MT::Prim(_)))) {
                self.set_may("null run over a primitive member");
            }
            match node {
                Node::Null => {
                    for _ in 0..run {
                        self.recs[rec].nodes.push(Node::Null);
                    }
                }
                node => self.recs[rec].nodes.push(node),
            }
            have += run;
        }
        Ok(())
    }

    fn member(&mut self, ty: Option<&MT>, depth: usize, str_arr: bool) -> R<(Node, usize)> {
        if let Some(MT::Prim(t)) = ty {
            return Ok((Node::Val(self.prim(*t, false)?), 1));
        }
        if self.library()? && str_arr {
            self.set_any("library record in front of a string element");
        }
        if let Some(MT::Class(_, lib)) = ty {
            if !self.libs.contains_key(lib) {
                if matches!(self.peek(), Some(1..=5)) {
                    return err(K::NoLib, self.p);
                }
                self.set_any("member type with an undeclared library");
            }
        }
        let at = self.p;
        let tag = self.u8()?;
        let ok = match ty {
            None | Some(MT::Object) | Some(MT::ObjArr) => matches!(tag, 1..=6 | 8..=10 | 13 | 14),
            Some(MT::Str) | Some(MT::StrArr) => matches!(tag, 6 | 9 | 10 | 13 | 14),
            Some(MT::System(_)) | Some(MT::Class(..)) => matches!(tag, 1..=5 | 9 | 10 | 13 | 14),
            Some(MT::PrimArr(_)) => matches!(tag, 9 | 10 | 13 | 14),
            Some(MT::Prim(_)) => unreachable!(),
        };
        if !ok {
            return err(K::Tag, at);
        }
        if matches!(ty, Some(MT::ObjArr)) && matches!(tag, 1..=6 | 8) {
            self.set_may("array member which is not an array");
        }
        if matches!(ty, Some(MT::StrArr)) && !str_arr && tag == 6 {
            self.set_may("array member which is not an array");
        }
        match tag {
            10 | 13 | 14 => Ok((Node::Null, self.null_run(tag)?)),
            9 => {
                let id = self.pos_id(K::RefId)?;
                Ok((Node::Ref(id, if str_arr { Some(MT::Str) } else { ty.cloned() }), 1))
            }
            8 => {
                let t = self.prim_type()?;
                Ok((Node::Val(self.prim(t, false)?), 1))
            }
            6 => {
                let at = self.p;
                let id = self.pos_id(K::ObjId)?;
                let s = self.lps()?.to_string();
                self.push(id, Body::Str(s), true, at)?;
                Ok((Node::Str(id), 1))
            }
            _ => {
                let rec = self.class(tag, true, depth)?;
                let Body::Class { name, lib, .. } = &self.recs[rec].body else { unreachable!() };
                match ty {
                    Some(MT::System(want)) if name != want || lib.is_some() => return err(K::UnexpectedClass, at),
                    Some(MT::Class(want, want_lib)) => {
                        if name != want || lib.as_ref() != self.libs.get(want_lib) {
                            return err(K::UnexpectedClass, at);
                        }
                    }
                    _ => (),
                }
                Ok((Node::Inline(rec), 1))
            }
        }
    }

    /// A class record whose type byte has been read.
    fn class(&mut self, tag: u8, inline: bool, depth: usize) -> R<usize> {
        if depth > GIVE_UP {
            self.set_any("nesting");
            return err(K::Eof, self.p);
        }
        let at = self.p;
        let id = self.pos_id(K::ObjId)?;
        let meta = if tag == 1 {
            let mp = self.p;
            let mid = self.pos_id(K::MetaId)?;
            if mid == id {
                return err(K::MetaSelf, mp);
            }
            match self.metas.get(&mid) {
                Some(m) => m.clone(),
                None => {
                    if self.instance_ids.contains(&mid) {
                        self.set_any("metadata id of another instance");
                    }
                    return err(K::MetaMissing, mp);
                }
            }
        } else {
            let name = self.lps()?.to_string();
            let n = self.nonneg(K::NegCount)?;
            let mut names = vec![];
            let mut seen = HashSet::new();
            for _ in 0..n {
                let s = self.lps()?.to_string();
                if !seen.insert(s.clone()) {
                    self.set_any("duplicate member names");
                }
                names.push(s);
            }
            let types = if matches!(tag, 4 | 5) {
                let mut ts = vec![];
                for _ in 0..n {
                    ts.push(self.bin_type()?);
                }
                let mut v = vec![];
                for t in ts {
                    v.push(self.type_info(t)?);
                }
                Some(v)
            } else {
                None
            };
            let lib = if matches!(tag, 3 | 5) { Some(self.pos_id(K::LibId)?) } else { None };
            Meta { name, lib, names, types }
        };
        let lib = match meta.lib {
            None => None,
            Some(l) => match self.libs.get(&l) {
                Some(n) => Some(n.clone()),
                None => return err(K::NoLib, at),
            },
        };
        let rec = self.push(
            id,
            Body::Class { name: meta.name.clone(), lib, names: meta.names.clone() },
            inline,
            at,
        )?;
        if tag == 1 {
            self.instance_ids.insert(id);
        } else {
            self.metas.insert(id, meta.clone());
        }
        let types = meta.types;
        self.members(rec, meta.names.len(), &|i| types.as_ref().map(|t| t[i].clone()), depth + 1, false)?;
        Ok(rec)
    }

    fn array(&mut self, tag: u8) -> R<usize> {
        let at = self.p;
        let id = self.pos_id(K::ObjId)?;
        match tag {
            16 | 17 => {
                let n = self.nonneg(K::NegLen)?;
                let kind = if tag == 16 { ArrKind::Obj } else { ArrKind::Str };
                let rec = self.push(id, Body::Array { dims: vec![n], kind }, false, at)?;
                let ty = if tag == 16 { None } else { Some(MT::StrArr) };
                self.members(rec, n, &|_| ty.clone(), 1, tag == 17)?;
                Ok(rec)
            }
            15 => {
                let n = self.nonneg(K::NegLen)?;
                let t = self.prim_type()?;
                let rec = self.push(id, Body::Array { dims: vec![n], kind: ArrKind::Prim(t) }, false, at)?;
                if n == 0 && t > 16 {
                    self.set_any("empty array of null or string primitives");
                }
                for _ in 0..n {
                    let v = self.prim(t, false)?;
                    self.recs[rec].nodes.push(Node::Val(v));
                }
                Ok(rec)
            }
            _ => {
                let tp = self.p;
                let ty = self.u8()?;
                if ty > 5 {
                    return err(K::ArrType, tp);
                }
                let rank = self.nonneg(K::NegDim)?;
                if rank == 0 {
                    self.set_any("rank 0");
                } else if rank > 32 {
                    self.set_any("rank above 32");
                } else if rank != 1 && !matches!(ty, 2 | 5) {
                    self.set_may("rank of a single or jagged array which is not 1");
                }
                let mut dims = vec![];
                let mut bad = None;
                let mut prod = Some(1usize);
                for _ in 0..rank {
                    let at = self.p;
                    let d = self.i32()?;
                    if d < 0 {
                        bad.get_or_insert((K::NegDim, at));
                    }
                    dims.push(d.max(0) as usize);
                    prod = prod.and_then(|p| p.checked_mul(d.max(0) as usize));
                }
                if let Some((k, at)) = bad {
                    return err(k, at);
                }
                if rank > 1 && dims.contains(&0) {
                    self.set_any("zero dimension");
                }
                if ty >= 3 {
                    for _ in 0..rank {
                        self.i32()?;
                    }
                }
                let t = self.bin_type()?;
                let mt = self.type_info(t)?;
                let Some(n) = prod else { return err(K::DimOverflow, tp) };
                if n == 0 && matches!(mt, MT::Prim(17 | 18)) {
                    self.set_any("empty array of null or string primitives");
                }
                if let MT::Class(_, l) = &mt {
                    if n == 0 && !self.libs.contains_key(l) {
                        self.set_any("member type with an undeclared library");
                    }
                }
                let rec = self.push(id, Body::Array { dims, kind: ArrKind::Bin }, false, at)?;
                self.members(rec, n, &|_| Some(mt.clone()), 1, false)?;
                Ok(rec)
            }
        }
    }

    fn string_code(&mut self) -> R<String> {
        let at = self.p;
        if self.u8()? != 18 {
            return err(K::StrCode, at);
        }
        Ok(self.lps()?.to_string())
    }

    fn value_code(&mut self) -> R<MVal> {
        let t = self.prim_type()?;
        self.prim(t, true)
    }

    fn run(&mut self) -> R<MMsg> {
        if self.u8()? != 0 {
            return err(K::Tag, 0);
        }
        let root = self.i32()?;
        if root < 0 {
            return err(K::NegRoot, 1);
        }
        self.i32()?;
        let at = self.p;
        if self.i32()? != 1 {
            return err(K::Major, at);
        }
        let at = self.p;
        if self.i32()? != 0 {
            return err(K::Minor, at);
        }

        struct Call {
            ret: bool,
            flags: i32,
            method: String,
            ty: String,
            ctx: Option<String>,
            args: Option<Vec<MVal>>,
            ret_val: Option<MVal>,
            call_array: Option<usize>,
        }
        let mut call: Option<Call> = None;

        loop {
            let had_lib = self.library()?;
            let at = self.p;
            let tag = self.u8()?;
            if had_lib && matches!(tag, 6 | 11) {
                self.set_any("library record in front of a record that has none");
            }
            match tag {
                1..=5 => {
                    self.class(tag, false, 0)?;
                }
                7 | 15 | 16 | 17 => {
                    self.array(tag)?;
                }
                6 => {
                    let at = self.p;
                    let id = self.pos_id(K::ObjId)?;
                    let s = self.lps()?.to_string();
                    self.push(id, Body::Str(s), false, at)?;
                }
                21 | 22 => {
                    if call.is_some() {
                        return err(K::Tag, at);
                    }
                    let at = self.p;
                    let flags = self.i32()?;
                    if flags_contradict(flags) {
                        return err(K::FlagsBad, at);
                    }
                    if flags & !FLAGS_DEFINED != 0 {
                        self.set_any("undefined flags");
                    }
                    let mut c = Call {
                        ret: tag == 22,
                        flags,
                        method: String::new(),
                        ty: String::new(),
                        ctx: None,
                        args: None,
                        ret_val: None,
                        call_array: None,
                    };
                    if tag == 21 {
                        c.method = self.string_code()?;
                        c.ty = self.string_code()?;
                    } else if flags & 0x800 != 0 {
                        c.ret_val = Some(self.value_code()?);
                    }
                    if flags & 0x20 != 0 {
                        c.ctx = Some(self.string_code()?);
                    }
                    if flags & 0x2 != 0 {
                        let n = self.nonneg(K::NegCount)?;
                        let mut v = vec![];
                        for _ in 0..n {
                            v.push(self.value_code()?);
                        }
                        c.args = Some(v);
                    }
                    // call array
                    let save = self.p;
                    let lib = self.library()?;
                    if self.peek() == Some(16) {
                        let at = self.p;
                        self.p += 1;
                        let rec = self.array(16)?;
                        self.recs[rec].call_array = true;
                        if self.recs[rec].id != root {
                            return err(K::CallId, at);
                        }
                        if flags & 0x31CC == 0 && flags & 0x8000 == 0 && flags & 0x2000 == 0 {
                            self.set_any("call array although the flags announce none");
                        }
                        c.call_array = Some(rec);
                    } else if lib {
                        // belongs to the next record
                        if !matches!(self.peek(), Some(1..=5 | 7 | 15 | 17)) {
                            self.set_any("library record in front of a record that has none");
                        }
                        let _ = save;
                    }
                    if flags & 0xC != 0 && c.call_array.is_none() {
                        return err(K::Args, self.p);
                    }
                    call = Some(c);
                }
                11 => break,
                _ => return err(K::Tag, at),
            }
        }
        if self.p != self.b.len() {
            return err(K::Trailing, self.p);
        }
        let end = self.p;

        // references
        let mut uses: HashMap<i32, usize> = HashMap::new();
        for i in 0..self.recs.len() {
            for j in 0..self.recs[i].nodes.len() {
                let Node::Ref(id, ty) = &self.recs[i].nodes[j] else { continue };
                let id = *id;
                let ty = ty.clone();
                let Some(&target) = self.ids.get(&id) else { return err(K::Dangling, end) };
                let t = &self.recs[target];
                if t.call_array {
                    self.set_any("reference to the call array");
                    continue;
                }
                let fits = match (&ty, &t.body) {
                    (None, _) | (Some(MT::Object), _) => true,
                    (Some(MT::Str), Body::Str(_)) => true,
                    (Some(MT::System(n)), Body::Class { name, lib, .. }) => n == name && lib.is_none(),
                    (Some(MT::Class(n, l)), Body::Class { name, lib, .. }) => {
                        n == name && lib.is_some() && lib.as_ref() == self.libs.get(l)
                    }
                    (Some(MT::ObjArr), Body::Array { kind: ArrKind::Obj, .. }) => true,
                    (Some(MT::StrArr), Body::Array { kind: ArrKind::Str, .. }) => true,
                    (Some(MT::PrimArr(p)), Body::Array { kind: ArrKind::Prim(q), .. }) => p == q,
                    _ => false,
                };
                let is_str = matches!(t.body, Body::Str(_));
                let inline = t.inline;
                if !fits {
                    self.set_may("reference to an object of another type than declared");
                }
                if !is_str {
                    if inline {
                        self.set_may("shared object");
                    }
                    let n = uses.entry(id).or_insert(0);
                    *n += 1;
                    if *n > 1 {
                        self.set_may("shared object");
                    }
                }
            }
        }

        // cycles and heights
        let n = self.recs.len();
        let mut state = vec![0u8; n];
        let mut height = vec![0usize; n];
        for start in 0..n {
            if state[start] != 0 {
                continue;
            }
            let mut stack = vec![(start, 0usize)];
            state[start] = 1;
            while let Some(&mut (r, ref mut i)) = stack.last_mut() {
                if *i == self.recs[r].nodes.len() {
                    let base = match &self.recs[r].body {
                        Body::Str(_) => 0,
                        Body::Array { dims, .. } => dims.len().max(1),
                        Body::Class { .. } => 1,
                    };
                    let h = self.recs[r]
                        .nodes
                        .iter()
                        .map(|n| match n {
                            Node::Ref(id, _) => height[self.ids[id]],
                            Node::Inline(t) => height[*t],
                            _ => 0,
                        })
                        .max()
                        .unwrap_or(0);
                    height[r] = base + h;
                    state[r] = 2;
                    stack.pop();
                    continue;
                }
                let j = *i;
                *i += 1;
                let t = match &self.recs[r].nodes[j] {
                    Node::Ref(id, _) => self.ids[id],
                    Node::Inline(t) => *t,
                    _ => continue,
                };
                match state[t] {
                    0 => {
                        state[t] = 1;
                        stack.push((t, 0));
                    }
                    1 => return err(K::Cycle, end),
                    _ => (),
                }
            }
        }
        if height.iter().any(|h| *h > MUST_DEPTH) {
            self.set_may("nesting");
        }
        if height.iter().any(|h| *h > GIVE_UP) {
            self.set_any("nesting");
        }

        let budget = &mut 2_000_000usize;
        if let Some(c) = call {
            let mut args = c.args;
            if c.flags & 0xC != 0 {
                let rec = c.call_array.unwrap();
                if c.flags & 0x4 != 0 {
                    let mut v = vec![];
                    for n in &self.recs[rec].nodes {
                        v.push(self.node(n, budget));
                    }
                    args = Some(v);
                    if c.flags & 0x1000 != 0 {
                        self.set_any("arguments next to a return value in the call array");
                    }
                } else {
                    match self.recs[rec].nodes.first().map(|n| self.node(n, budget)) {
                        Some(MVal::Arr(v)) => args = Some(v),
                        _ => {
                            if c.flags & 0x9000 != 0 {
                                self.set_any("arguments behind other items in the call array");
                            }
                            return err(K::Args, end);
                        }
                    }
                }
            }
            if c.ret && c.flags & 0x1000 != 0 {
                self.set_any("return value in the call array");
            }
            if *budget == 0 {
                self.set_any(TOO_LARGE);
            }
            return Ok(if c.ret {
                MMsg::Ret { ret: c.ret_val, ctx: c.ctx, args }
            } else {
                MMsg::Call { method: c.method, ty: c.ty, ctx: c.ctx, args }
            });
        }
        if root == 0 {
            self.set_any("root id 0");
            return Ok(MMsg::Val(MVal::Null));
        }
        match self.ids.get(&root) {
            None => err(K::RootMissing, end),
            Some(&r) => {
                let is_str = matches!(self.recs[r].body, Body::Str(_));
                if !is_str && (self.recs[r].inline || uses.contains_key(&root)) {
                    return err(K::RootConsumed, end);
                }
                let v = self.value(r, budget);
                if *budget == 0 {
                    self.set_any(TOO_LARGE);
                }
                Ok(MMsg::Val(v))
            }
        }
    }

    fn node(&self, n: &Node, budget: &mut usize) -> MVal {
        match n {
            Node::Val(v) => v.clone(),
            Node::Null => MVal::Null,
            Node::Str(id) | Node::Ref(id, _) => self.value(self.ids[id], budget),
            Node::Inline(r) => self.value(*r, budget),
        }
    }

    fn value(&self, r: usize, budget: &mut usize) -> MVal {
        let rec = &self.recs[r];
        if *budget < rec.nodes.len() + 1 {
            *budget = 0;
            return MVal::Null;
        }
        *budget -= rec.nodes.len() + 1;
        match &rec.body {
            Body::Str(s) => MVal::Str(s.clone()),
            Body::Class { name, lib, names } => MVal::Obj {
                class: name.clone(),
                lib: lib.clone(),
                members: names.iter().cloned().zip(rec.nodes.iter().map(|n| self.node(n, budget))).collect(),
            },
            Body::Array { dims, .. } => {
                let flat: Vec<MVal> = rec.nodes.iter().map(|n| self.node(n, budget)).collect();
                if dims.len() <= 1 || dims.contains(&0) { MVal::Arr(flat) } else { shape(flat.into_iter(), dims) }
            }
        }
    }
}

fn shape(flat: impl Iterator<Item = MVal>, dims: &[usize]) -> MVal {
    fn go(it: &mut dyn Iterator<Item = MVal>, dims: &[usize]) -> MVal {
        if dims.len() == 1 {
            MVal::Arr(it.take(dims[0]).collect())
        } else {
            MVal::Arr((0..dims[0]).map(|_| go(it, &dims[1..])).collect())
        }
    }
    let mut flat = flat;
    go(&mut flat, dims)
}

/// Nested arrays from elements in row-major order.
pub fn shaped(flat: Vec<MVal>, dims: &[usize]) -> MVal {
    shape(flat.into_iter(), dims)
}

pub fn decode(b: &[u8]) -> Verdict {
    let mut d = Dec {
        b,
        p: 0,
        libs: HashMap::new(),
        metas: HashMap::new(),
        instance_ids: HashSet::new(),
        ids: HashMap::new(),
        recs: vec![],
        any: None,
        may: None,
        nulls: 0,
    };
    let r = d.run();
    if let Some(w) = d.any {
        return Verdict::Any(w);
    }
    match r {
        Err((k, p)) => Verdict::Reject(k, p),
        Ok(m) => match d.may {
            Some(w) => Verdict::May(m, w),
            None => Verdict::Must(m),
        },
    }
}

/// May the crate be run on this input without the risk of running out of memory?
pub fn safe(b: &[u8], v: &Verdict) -> bool {
    match v {
        Verdict::Any(TOO_LARGE) => false,
        Verdict::Must(_) | Verdict::May(..) => true,
        Verdict::Any(_) => !crate::real::bomb(b, 0),
        Verdict::Reject(_, off) => !crate::real::bomb(b, *off),
    }
}
