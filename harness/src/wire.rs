//! Encoder of NRBF records which remembers what every byte means.

use crate::mval::MVal;

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum F {
    RootId,
    HeaderId,
    Major,
    Minor,
    /// record type where a top level record stands
    TopTag,
    /// record type where a member or element stands
    MemberTag,
    EndTag,
    HeaderTag,
    /// record type of a library record
    LibTag,
    ObjId,
    RefId,
    MetaId,
    LibId,
    /// library id in a class record or member type
    LibUse,
    ArrLen,
    NullCount,
    NullCount256,
    MemberCount,
    ArgCount,
    Rank,
    Dim,
    LowerBound,
    BinType,
    PrimTypeMember,
    PrimTypeTyped,
    PrimTypeArray,
    PrimTypePrimArray,
    PrimTypeArg,
    ArrType,
    StrLen,
    StrText,
    ClassName,
    MemberName,
    TypeName,
    LibName,
    Bool,
    Char,
    Dec,
    Num,
    Flags,
    StrCode,
}

#[derive(Clone, Copy, Debug)]
pub struct Span {
    pub off: usize,
    pub len: usize,
    pub f: F,
}

#[derive(Clone, Default)]
pub struct W {
    pub buf: Vec<u8>,
    pub spans: Vec<Span>,
    /// start and end of every top level record
    pub recs: Vec<(usize, usize)>,
}

pub const P_BOOL: u8 = 1;
pub const P_BYTE: u8 = 2;
pub const P_CHAR: u8 = 3;
pub const P_DEC: u8 = 5;
pub const P_DOUBLE: u8 = 6;
pub const P_I16: u8 = 7;
pub const P_I32: u8 = 8;
pub const P_I64: u8 = 9;
pub const P_I8: u8 = 10;
pub const P_SINGLE: u8 = 11;
pub const P_TS: u8 = 12;
pub const P_DT: u8 = 13;
pub const P_U16: u8 = 14;
pub const P_U32: u8 = 15;
pub const P_U64: u8 = 16;
pub const P_NULL: u8 = 17;
pub const P_STR: u8 = 18;

pub const PRIMS: [u8; 15] = [
    P_BOOL, P_BYTE, P_CHAR, P_DEC, P_DOUBLE, P_I16, P_I32, P_I64, P_I8, P_SINGLE, P_TS, P_DT, P_U16, P_U32, P_U64,
];

pub fn prim_name(p: u8) -> &'static str {
    match p {
        1 => "Boolean",
        2 => "Byte",
        3 => "Char",
        5 => "Decimal",
        6 => "Double",
        7 => "Int16",
        8 => "Int32",
        9 => "Int64",
        10 => "SByte",
        11 => "Single",
        12 => "TimeSpan",
        13 => "DateTime",
        14 => "UInt16",
        15 => "UInt32",
        16 => "UInt64",
        17 => "Null",
        18 => "String",
        _ => "?",
    }
}

/// The primitive type code of a scalar.
pub fn prim_code(v: &MVal) -> u8 {
    match v {
        MVal::Bool(_) => P_BOOL,
        MVal::Byte(_) => P_BYTE,
        MVal::Char(_) => P_CHAR,
        MVal::Dec(_) => P_DEC,
        MVal::Double(_) => P_DOUBLE,
        MVal::I16(_) => P_I16,
        MVal::I32(_) => P_I32,
        MVal::I64(_) => P_I64,
        MVal::I8(_) => P_I8,
        MVal::Single(_) => P_SINGLE,
        MVal::Ts(_) => P_TS,
        MVal::Dt(_) => P_DT,
        MVal::U16(_) => P_U16,
        MVal::U32(_) => P_U32,
        MVal::U64(_) => P_U64,
        MVal::Null => P_NULL,
        MVal::Str(_) => P_STR,
        MVal::Obj { .. } | MVal::Arr(_) => panic!("not a primitive"),
    }
}

impl W {
    pub fn new() -> Self {
        Self::default()
    }

    pub fn raw(&mut self, b: &[u8]) {
        self.buf.extend_from_slice(b);
    }

    pub fn u8(&mut self, f: F, b: u8) {
        self.spans.push(Span { off: self.buf.len(), len: 1, f });
        self.buf.push(b);
    }

    pub fn i32(&mut self, f: F, v: i32) {
        self.spans.push(Span { off: self.buf.len(), len: 4, f });
        self.buf.extend_from_slice(&v.to_le_bytes());
    }

    pub fn header(&mut self, root: i32, header: i32) {
        self.u8(F::HeaderTag, 0);
        self.i32(F::RootId, root);
        self.i32(F::HeaderId, header);
        self.i32(F::Major, 1);
        self.i32(F::Minor, 0);
    }

    pub fn end(&mut self) {
        self.u8(F::EndTag, 11);
    }

    pub fn str(&mut self, f: F, s: &str) {
        self.str_form(f, s, 0);
    }

    /// A string whose length takes at least `form` bytes (0: shortest).
    pub fn str_form(&mut self, f: F, s: &str, form: usize) {
        let off = self.buf.len();
        let mut n = s.len() as u64;
        let mut len = 1;
        loop {
            let b = (n & 0x7f) as u8;
            n >>= 7;
            if n == 0 && len >= form {
                self.buf.push(b);
                break;
            }
            self.buf.push(b | 0x80);
            len += 1;
        }
        self.spans.push(Span { off, len: self.buf.len() - off, f: F::StrLen });
        let off = self.buf.len();
        self.buf.extend_from_slice(s.as_bytes());
        self.spans.push(Span { off, len: s.len(), f });
    }

    /// A primitive value without its type code.
    pub fn prim(&mut self, v: &MVal) {
        let off = self.buf.len();
        let f = match v {
            MVal::Bool(b) => {
                self.buf.push(u8::from(*b));
                F::Bool
            }
            MVal::Byte(b) => {
                self.buf.push(*b);
                F::Num
            }
            MVal::I8(b) => {
                self.buf.push(*b as u8);
                F::Num
            }
            MVal::Char(c) => {
                let mut tmp = [0; 4];
                self.buf.extend_from_slice(c.encode_utf8(&mut tmp).as_bytes());
                F::Char
            }
            MVal::Dec(s) => return self.str(F::Dec, s),
            MVal::Double(x) | MVal::U64(x) => {
                self.buf.extend_from_slice(&x.to_le_bytes());
                F::Num
            }
            MVal::I16(x) => {
                self.buf.extend_from_slice(&x.to_le_bytes());
                F::Num
            }
            MVal::U16(x) => {
                self.buf.extend_from_slice(&x.to_le_bytes());
                F::Num
            }
            MVal::I32(x) => {
                self.buf.extend_from_slice(&x.to_le_bytes());
                F::Num
            }
            MVal::U32(x) | MVal::Single(x) => {
                self.buf.extend_from_slice(&x.to_le_bytes());
                F::Num
            }
            MVal::I64(x) | MVal::Ts(x) | MVal::Dt(x) => {
                self.buf.extend_from_slice(&x.to_le_bytes());
                F::Num
            }
            MVal::Null => return,
            MVal::Str(s) => return self.str(F::StrText, s),
            MVal::Obj { .. } | MVal::Arr(_) => panic!("not a primitive"),
        };
        self.spans.push(Span { off, len: self.buf.len() - off, f });
    }

    pub fn typed_prim(&mut self, v: &MVal) {
        self.u8(F::MemberTag, 8);
        self.u8(F::PrimTypeTyped, prim_code(v));
        self.prim(v);
    }

    pub fn lib(&mut self, id: i32, name: &str) {
        self.u8(F::LibTag, 12);
        self.i32(F::LibId, id);
        self.str(F::LibName, name);
    }

    pub fn obj_str(&mut self, top: bool, id: i32, s: &str, form: usize) {
        self.u8(if top { F::TopTag } else { F::MemberTag }, 6);
        self.i32(F::ObjId, id);
        self.str_form(F::StrText, s, form);
    }

    pub fn member_ref(&mut self, id: i32) {
        self.u8(F::MemberTag, 9);
        self.i32(F::RefId, id);
    }

    pub fn null(&mut self) {
        self.u8(F::MemberTag, 10);
    }

    /// A null run; `wide` uses the 32-bit form.
    pub fn null_run(&mut self, n: usize, wide: bool) {
        if wide || n > 255 {
            self.u8(F::MemberTag, 14);
            self.i32(F::NullCount, n as i32);
        } else {
            self.u8(F::MemberTag, 13);
            self.u8(F::NullCount256, n as u8);
        }
    }

    pub fn string_code(&mut self, s: &str) {
        self.u8(F::StrCode, P_STR);
        self.str(F::StrText, s);
    }

    pub fn value_code(&mut self, v: &MVal) {
        self.u8(F::PrimTypeArg, prim_code(v));
        self.prim(v);
    }
}
