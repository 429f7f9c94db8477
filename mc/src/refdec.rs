//! The reference model: the binary grammar of WebAssembly 3.0 (spec chapter 5)
//! as a deterministic recursive-descent acceptor. It plays two roles:
//!
//! * oracle: `decode(bytes)` is the verdict, the module and the diagnosis the
//!   specification (and the documentation of wadec) assigns to the bytes;
//! * transition system: run on an incomplete body it stops where it needs the
//!   next byte and leaves the stack of constructs it is inside in `ctx` (list
//!   remainders, open blocks, opcode, byte of an integer, ...). That stack is a
//!   state of the pushdown automaton of the grammar; a byte is a transition.
//!
//! It is written from the specification, not from wadec, and deliberately
//! boring: slices, no readers, no lookahead tricks.
use crate::optable as t;
use wadec::core::indices::*;
use wadec::core::instruction::{BlockType, Catch, Instruction as I, LaneIdx, Memarg};
use wadec::core::types::addrtype::AddrType;
use wadec::core::types::comptype::{CompType, FieldType, PackType, StorageType};
use wadec::core::types::globaltype::{GlobalType, Mut};
use wadec::core::types::heaptype::{AbsHeapType, HeapType};
use wadec::core::types::limits::Limits;
use wadec::core::types::memtype::MemType;
use wadec::core::types::numtype::NumType;
use wadec::core::types::rectype::{RecType, SubType};
use wadec::core::types::reftype::RefType;
use wadec::core::types::tabletype::TableType;
use wadec::core::types::tagtype::TagType;
use wadec::core::types::valtype::ValType;
use wadec::core::types::vectype::VecType;
use wadec::core::types::ExternType;
use wadec::core::*;

/// Why a byte sequence is malformed.
#[derive(Debug, Clone, PartialEq)]
pub enum Leaf {
    /// the construct being read continues past the end of its container
    Eof,
    Preamble([u8; 8]),
    SectionId(u8),
    OutOfOrder(u8, u8),
    Duplicate(u8),
    SectionSize { declared: u32, got: u64 },
    EntrySize { declared: u32, got: u64 },
    /// invalid marker byte of a construct
    Marker(&'static str, u8),
    Opcode(u8),
    SubOpcode(u8, u32),
    UnexpectedElse,
    /// integer representation too long / out of range / wrong sign extension
    LebLong,
    LebRange,
    NegIdx(i64),
    Bitfield(u32),
    MemargFlags(u32),
    Utf8,
    TooManyLocals(u64),
    CodeFunc { codes: usize, funcs: usize },
    DataCount { datas: usize, count: u32 },
    DataIdxNoCount,
    /// not a rejection: expanding the locals is beyond the bound of the model
    BeyondBound,
}

#[derive(Debug, Clone)]
pub struct Rej {
    pub sec: Option<u8>,
    /// positions of enclosing list elements, outermost first
    pub path: Vec<u32>,
    pub leaf: Leaf,
    /// offset of the last byte consumed + 1
    pub at: usize,
}

type Res<T> = Result<T, Leaf>;

/// Sites where one byte is read; used for state keys and default completions.
#[repr(u16)]
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum S {
    Opcode = 1, Leb, Num, Vt, Ht, Rt, Ct, St, Zt, Mutb, Lim, Tbl, Tbl0, Ext, Tag, EKind, Raw, Name, Bt, CatchK, Cast, ExpK, ConstB,
}
pub fn default_byte(s: S) -> u8 {
    match s {
        S::Opcode => 0x0B,
        S::Leb | S::Num => 0,
        S::Vt | S::Zt => 0x7F,
        S::Ht | S::Rt | S::Tbl => 0x70,
        S::Ct | S::St => 0x60,
        S::Bt => 0x40,
        S::Name => b'a',
        S::CatchK => 0x02,
        S::Mutb | S::Lim | S::Tbl0 | S::Ext | S::Tag | S::EKind | S::Raw | S::Cast | S::ExpK | S::ConstB => 0,
    }
}

/// Role of an integer: how its value influences what may follow.
#[derive(Clone, Copy, PartialEq)]
pub enum Role { Plain, Len, Bits, Memarg, Sub }

pub const LOCALS_BOUND: u64 = 1 << 20;
pub const BIG: u32 = 0xFFFF;

pub struct R<'a> {
    pub b: &'a [u8],
    pub pos: usize,
    pub end: usize,
    pub track: bool,
    pub ctx: Vec<u32>,
    pub site: S,
    pub path: Vec<u32>,
    pub sec: Option<u8>,
    data_idx: bool,
    /// input ended because a code entry did, not because more bytes could come
    hard_eof: bool,
}

pub enum Tok { Ins(I), End, Else }

impl<'a> R<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        R { b, pos: 0, end: b.len(), track: false, ctx: vec![], site: S::Raw, path: vec![], sec: None, data_idx: false, hard_eof: false }
    }
    #[inline]
    fn byte(&mut self, s: S) -> Res<u8> {
        if self.pos < self.end {
            self.pos += 1;
            Ok(self.b[self.pos - 1])
        } else {
            self.site = s;
            if self.track { self.ctx.push(s as u32) }
            Err(Leaf::Eof)
        }
    }
    #[inline]
    fn f<T>(&mut self, code: u32, g: impl FnOnce(&mut Self) -> Res<T>) -> Res<T> {
        if !self.track { return g(self) }
        self.ctx.push(code);
        let r = g(self)?;
        self.ctx.pop();
        Ok(r)
    }
    fn bytes(&mut self, s: S, n: usize) -> Res<&'a [u8]> {
        if self.end - self.pos >= n {
            self.pos += n;
            Ok(&self.b[self.pos - n..self.pos])
        } else {
            if self.track {
                let rem = n - (self.end - self.pos);
                self.ctx.push(rem.min(BIG as usize) as u32);
                self.ctx.push(s as u32);
            }
            self.pos = self.end;
            self.site = s;
            Err(Leaf::Eof)
        }
    }

    // ---- integers (5.2.2) -------------------------------------------------
    fn lebkey(&mut self, idx: u32, partial: u64, role: Role) {
        if self.track {
            let c = match role {
                Role::Plain => 0,
                Role::Len => partial.min(BIG as u64) as u32,
                Role::Bits => partial.min(8) as u32,
                Role::Memarg => (if partial < 64 { 0 } else if partial < 128 { 1 } else { 2 }) as u32,
                Role::Sub => partial.min(512) as u32,
            };
            self.ctx.pop();
            self.ctx.extend([idx, c, if idx == 0 { S::Num } else { S::Leb } as u32]);
            if idx > 0 { self.site = S::Leb }
        }
    }
    /// uN, N = 32 or 64: at most ceil(N/7) bytes, unused bits of the last one zero
    fn uleb(&mut self, n: u32, role: Role) -> Res<u64> {
        let max = n.div_ceil(7);
        let mut v: u64 = 0;
        for i in 0..max {
            let b = match self.byte(S::Num) {
                Ok(b) => b,
                Err(e) => { self.lebkey(i, v, role); return Err(e) }
            };
            let payload = (b & 0x7F) as u64;
            let left = n - 7 * i; // bits still available
            if left < 7 && payload >> left != 0 {
                // the payload does not fit; if the byte also continues, it is too long
                return Err(if b & 0x80 != 0 { Leaf::LebLong } else { Leaf::LebRange });
            }
            v |= payload << (7 * i);
            if b & 0x80 == 0 { return Ok(v) }
        }
        Err(Leaf::LebLong)
    }
    /// sN, N = 32, 33 or 64
    fn sleb(&mut self, n: u32) -> Res<i64> {
        let max = n.div_ceil(7);
        let mut v: i128 = 0;
        for i in 0..max {
            let b = match self.byte(S::Num) {
                Ok(b) => b,
                Err(e) => { self.lebkey(i, 0, Role::Plain); return Err(e) }
            };
            v |= ((b & 0x7F) as i128) << (7 * i);
            if b & 0x80 == 0 {
                let bits = 7 * (i + 1);
                if b & 0x40 != 0 { v -= 1i128 << bits }
                let lim = 1i128 << (n - 1);
                return if v >= -lim && v < lim { Ok(v as i64) } else { Err(Leaf::LebRange) };
            }
        }
        Err(Leaf::LebLong)
    }
    pub fn u32r(&mut self, role: Role) -> Res<u32> { self.uleb(32, role).map(|v| v as u32) }
    pub fn u32(&mut self) -> Res<u32> { self.u32r(Role::Plain) }
    pub fn u64(&mut self) -> Res<u64> { self.uleb(64, Role::Plain) }

    // ---- lists, names (5.1.3, 5.2.4) --------------------------------------
    fn list<T>(&mut self, code: u32, mut g: impl FnMut(&mut Self) -> Res<T>) -> Res<Vec<T>> {
        let n = self.f(code, |r| r.u32r(Role::Len))?;
        let mut out = Vec::new();
        for i in 0..n {
            if self.track { self.ctx.extend([code, 0x1000_0000 | (n - i).min(BIG)]) }
            match g(self) {
                Ok(x) => out.push(x),
                Err(e) => { self.path.push(i); return Err(e) }
            }
            if self.track { self.ctx.truncate(self.ctx.len() - 2) }
        }
        Ok(out)
    }
    fn bytevec(&mut self, s: S) -> Res<&'a [u8]> {
        let n = self.f(0x0200, |r| r.u32r(Role::Len))?;
        self.f(0x0201, |r| r.bytes(s, n as usize))
    }
    fn name(&mut self) -> Res<String> {
        let b = self.bytevec(S::Name)?;
        utf8(b).ok_or(Leaf::Utf8)
    }

    // ---- types (5.3) ------------------------------------------------------
    fn abs(b: u8) -> Option<AbsHeapType> {
        use AbsHeapType as A;
        Some(match b {
            0x74 => A::NoExn, 0x73 => A::NoFunc, 0x72 => A::NoExtern, 0x71 => A::None,
            0x70 => A::Func, 0x6F => A::Extern, 0x6E => A::Any, 0x6D => A::Eq,
            0x6C => A::I31, 0x6B => A::Struct, 0x6A => A::Array, 0x69 => A::Exn,
            _ => return None,
        })
    }
    /// One signed 33-bit integer decides: the negative single-byte ones in the
    /// table are abstract heap types, the non-negative ones type indices.
    fn heaptype(&mut self) -> Res<HeapType> {
        self.f(0x0300, |r| {
            if r.pos < r.end {
                if let Some(a) = Self::abs(r.b[r.pos]) {
                    r.pos += 1;
                    return Ok(HeapType::Ht(a));
                }
                let x = r.sleb(33)?;
                if x < 0 { return Err(Leaf::NegIdx(x)) }
                Ok(HeapType::TypeIdx(x as u32))
            } else {
                r.byte(S::Ht)?;
                unreachable!()
            }
        })
    }
    fn reftype_from(&mut self, b: u8) -> Res<RefType> {
        match b {
            0x63 => Ok(RefType { nullable: true, ht: self.f(0x63, |r| r.heaptype())? }),
            0x64 => Ok(RefType { nullable: false, ht: self.f(0x64, |r| r.heaptype())? }),
            b => match Self::abs(b) {
                Some(a) => Ok(RefType { nullable: true, ht: HeapType::Ht(a) }),
                None => Err(Leaf::Marker("reftype", b)),
            },
        }
    }
    fn reftype(&mut self) -> Res<RefType> {
        self.f(0x0310, |r| { let b = r.byte(S::Rt)?; r.reftype_from(b) })
    }
    fn valtype_from(&mut self, b: u8) -> Res<ValType> {
        Ok(match b {
            0x7F => ValType::Num(NumType::Int32),
            0x7E => ValType::Num(NumType::Int64),
            0x7D => ValType::Num(NumType::Float32),
            0x7C => ValType::Num(NumType::Float64),
            0x7B => ValType::Vec(VecType::V128),
            b => ValType::Ref(self.reftype_from(b)?),
        })
    }
    fn valtype(&mut self) -> Res<ValType> {
        self.f(0x0320, |r| { let b = r.byte(S::Vt)?; r.valtype_from(b) })
    }
    fn mutability(&mut self) -> Res<Mut> {
        self.f(0x0330, |r| match r.byte(S::Mutb)? {
            0 => Ok(Mut::Const),
            1 => Ok(Mut::Var),
            b => Err(Leaf::Marker("mut", b)),
        })
    }
    fn fieldtype(&mut self) -> Res<FieldType> {
        let st = self.f(0x0340, |r| {
            Ok(match r.byte(S::Zt)? {
                0x78 => StorageType::PackType(PackType::I8),
                0x77 => StorageType::PackType(PackType::I16),
                b => StorageType::ValType(r.valtype_from(b)?),
            })
        })?;
        Ok(FieldType(self.mutability()?, st))
    }
    fn comptype_from(&mut self, b: u8) -> Res<CompType> {
        match b {
            0x5E => Ok(CompType::Array(self.f(0x5E, |r| r.fieldtype())?)),
            0x5F => Ok(CompType::Struct(self.list(0x5F, |r| r.fieldtype())?)),
            0x60 => {
                let parameters = self.f(0x0360, |r| r.list(0x61, |r| r.valtype()))?;
                let results = self.f(0x0361, |r| r.list(0x62, |r| r.valtype()))?;
                Ok(CompType::Func { parameters, results })
            }
            b => Err(Leaf::Marker("comptype", b)),
        }
    }
    fn subtype_from(&mut self, b: u8) -> Res<SubType> {
        match b {
            0x4F | 0x50 => {
                let supertypes = self.list(b as u32, |r| Ok(TypeIdx(r.u32()?)))?;
                let c = self.f(0x0351, |r| r.byte(S::Ct))?;
                Ok(SubType { is_final: b == 0x4F, supertypes, comptype: self.f(0x0352, |r| r.comptype_from(c))? })
            }
            b => Ok(SubType { is_final: true, supertypes: vec![], comptype: self.comptype_from(b)? }),
        }
    }
    fn rectype(&mut self) -> Res<RecType> {
        let b = self.f(0x0370, |r| r.byte(S::St))?;
        if b == 0x4E {
            Ok(RecType(self.list(0x4E, |r| {
                let b = r.f(0x0371, |r| r.byte(S::St))?;
                r.subtype_from(b)
            })?))
        } else {
            Ok(RecType(vec![self.subtype_from(b)?]))
        }
    }
    fn limits(&mut self) -> Res<Limits> {
        let flag = self.f(0x0380, |r| r.byte(S::Lim))?;
        let (has_max, address_type) = match flag {
            0 => (false, AddrType::I32),
            1 => (true, AddrType::I32),
            4 => (false, AddrType::I64),
            5 => (true, AddrType::I64),
            b => return Err(Leaf::Marker("limits", b)),
        };
        let min = self.f(if has_max { 0x0382 } else { 0x0381 }, |r| r.u64())?;
        let max = if has_max { Some(self.f(0x0383, |r| r.u64())?) } else { None };
        Ok(Limits { address_type, min, max })
    }
    fn memtype(&mut self) -> Res<MemType> { Ok(MemType { limits: self.limits()? }) }
    fn tabletype_from(&mut self, b: u8) -> Res<TableType> {
        let reftype = self.reftype_from(b)?;
        Ok(TableType { reftype, limits: self.limits()? })
    }
    fn tabletype(&mut self) -> Res<TableType> {
        let b = self.f(0x0390, |r| r.byte(S::Rt))?;
        self.tabletype_from(b)
    }
    fn globaltype(&mut self) -> Res<GlobalType> {
        let v = self.valtype()?;
        Ok(GlobalType(self.mutability()?, v))
    }
    fn tagtype(&mut self) -> Res<TagType> {
        match self.f(0x03A0, |r| r.byte(S::Tag))? {
            0 => Ok(TagType(TypeIdx(self.f(0x03A1, |r| r.u32())?))),
            b => Err(Leaf::Marker("tag", b)),
        }
    }

    // ---- instructions (5.4) -----------------------------------------------
    fn memarg(&mut self) -> Res<Memarg> {
        let n = self.f(0x0400, |r| r.u32r(Role::Memarg))?;
        let (align, mem) = if n < 64 {
            (n, 0)
        } else if n < 128 {
            (n - 64, self.f(0x0401, |r| r.u32())?)
        } else {
            return Err(Leaf::MemargFlags(n));
        };
        let offset = self.f(0x0402, |r| r.u64())?;
        Ok(Memarg { mem_idx: MemIdx(mem), align, offset })
    }
    fn blocktype(&mut self) -> Res<BlockType> {
        self.f(0x0410, |r| {
            if r.pos == r.end { r.byte(S::Bt)?; }
            let b = r.b[r.pos];
            match b {
                0x40 => { r.pos += 1; Ok(BlockType::Empty) }
                0x7B..=0x7F | 0x63 | 0x64 | 0x69..=0x74 => { r.pos += 1; Ok(BlockType::T(r.valtype_from(b)?)) }
                _ => {
                    let x = r.sleb(33)?;
                    if x < 0 { return Err(Leaf::NegIdx(x)) }
                    Ok(BlockType::I(x as u32))
                }
            }
        })
    }
    fn catch(&mut self) -> Res<Catch> {
        let k = self.f(0x0420, |r| r.byte(S::CatchK))?;
        match k {
            0 | 1 => {
                let x = TagIdx(self.f(0x0421, |r| r.u32())?);
                let l = LabelIdx(self.f(0x0422, |r| r.u32())?);
                Ok(if k == 0 { Catch::Catch(x, l) } else { Catch::CatchRef(x, l) })
            }
            2 => Ok(Catch::CatchAll(LabelIdx(self.f(0x0422, |r| r.u32())?))),
            3 => Ok(Catch::CatchAllRef(LabelIdx(self.f(0x0422, |r| r.u32())?))),
            b => Err(Leaf::Marker("catch", b)),
        }
    }
    /// instructions up to the terminator; `may_else`: `else` is a terminator too
    fn seq(&mut self, kind: u32, may_else: bool) -> Res<(Vec<I>, bool)> {
        self.f(0x2000_0000 | kind, |r| {
            let mut v = Vec::new();
            loop {
                match r.tok()? {
                    Tok::Ins(i) => v.push(i),
                    Tok::End => return Ok((v, false)),
                    Tok::Else if may_else => return Ok((v, true)),
                    Tok::Else => return Err(Leaf::UnexpectedElse),
                }
            }
        })
    }
    pub fn expr(&mut self) -> Res<Vec<I>> { self.seq(0, false).map(|x| x.0) }

    fn tok(&mut self) -> Res<Tok> {
        let op = self.byte(S::Opcode)?;
        match op {
            0x0B => return Ok(Tok::End),
            0x05 => return Ok(Tok::Else),
            _ => {}
        }
        self.f(0x3000_0000 | op as u32, |r| r.instr(op)).map(Tok::Ins)
    }
    /// k-th u32 immediate
    fn x(&mut self, k: u32) -> Res<u32> { self.f(0x0500 + k, |r| r.u32()) }

    fn instr(&mut self, op: u8) -> Res<I> {
        Ok(match op {
            0x00 => I::Unreachable,
            0x01 => I::Nop,
            0x02 => { let bt = self.blocktype()?; I::Block(bt, self.seq(2, false)?.0) }
            0x03 => { let bt = self.blocktype()?; I::Loop(bt, self.seq(3, false)?.0) }
            0x04 => {
                let bt = self.blocktype()?;
                let (a, has_else) = self.seq(4, true)?;
                let b = if has_else { Some(self.seq(5, false)?.0) } else { None };
                I::If(bt, a, b)
            }
            0x08 => I::Throw(TagIdx(self.x(0)?)),
            0x0A => I::ThrowRef,
            0x0C => I::Br(LabelIdx(self.x(0)?)),
            0x0D => I::BrIf(LabelIdx(self.x(0)?)),
            0x0E => {
                let l = self.list(0x0E, |r| Ok(LabelIdx(r.u32()?)))?;
                I::BrTable(l, LabelIdx(self.x(1)?))
            }
            0x0F => I::Return,
            0x10 => I::Call(FuncIdx(self.x(0)?)),
            0x11 => { let y = self.x(0)?; let x = self.x(1)?; I::CallIndirect(TableIdx(x), TypeIdx(y)) }
            0x12 => I::ReturnCall(FuncIdx(self.x(0)?)),
            0x13 => { let y = self.x(0)?; let x = self.x(1)?; I::ReturnCallIndirect(TableIdx(x), TypeIdx(y)) }
            0x14 => I::CallRef(TypeIdx(self.x(0)?)),
            0x15 => I::ReturnCallRef(TypeIdx(self.x(0)?)),
            0x1A => I::Drop,
            0x1B => I::Select(None),
            0x1C => I::Select(Some(self.list(0x1C, |r| r.valtype())?)),
            0x1F => {
                let bt = self.blocktype()?;
                let c = self.list(0x1F, |r| r.catch())?;
                I::TryTable(bt, c, self.seq(6, false)?.0)
            }
            0x20 => I::LocalGet(LocalIdx(self.x(0)?)),
            0x21 => I::LocalSet(LocalIdx(self.x(0)?)),
            0x22 => I::LocalTee(LocalIdx(self.x(0)?)),
            0x23 => I::GlobalGet(GlobalIdx(self.x(0)?)),
            0x24 => I::GlobalSet(GlobalIdx(self.x(0)?)),
            0x25 => I::TableGet(TableIdx(self.x(0)?)),
            0x26 => I::TableSet(TableIdx(self.x(0)?)),
            0x28..=0x3E => t::MEM[op as usize - 0x28](self.memarg()?),
            0x3F => I::MemorySize(MemIdx(self.x(0)?)),
            0x40 => I::MemoryGrow(MemIdx(self.x(0)?)),
            0x41 => I::I32Const(self.sleb(32)? as i32),
            0x42 => I::I64Const(self.sleb(64)?),
            0x43 => { let b = self.bytes(S::ConstB, 4)?; I::F32Const(f32::from_bits((0..4).fold(0, |a, i| a | (b[i] as u32) << (8 * i)))) }
            0x44 => { let b = self.bytes(S::ConstB, 8)?; I::F64Const(f64::from_bits((0..8).fold(0, |a, i| a | (b[i] as u64) << (8 * i)))) }
            0x45..=0xC4 => t::NUM[op as usize - 0x45].clone(),
            0xD0 => I::RefNull(self.heaptype()?),
            0xD1 => I::RefIsNull,
            0xD2 => I::RefFunc(FuncIdx(self.x(0)?)),
            0xD3 => I::RefEq,
            0xD4 => I::RefAsNonNull,
            0xD5 => I::BrOnNull(LabelIdx(self.x(0)?)),
            0xD6 => I::BrOnNonNull(LabelIdx(self.x(0)?)),
            0xFB | 0xFC | 0xFD => {
                let sub = self.f(0x0600, |r| r.u32r(Role::Sub))?;
                return self.f(0x0601 + sub.min(512), |r| match op {
                    0xFB => r.fb(sub),
                    0xFC => r.fc(sub),
                    _ => r.fd(sub),
                });
            }
            b => return Err(Leaf::Opcode(b)),
        })
    }
    fn fb(&mut self, sub: u32) -> Res<I> {
        let r = self;
        macro_rules! ty { () => { TypeIdx(r.x(0)?) } }
        Ok(match sub {
            0 => I::StructNew(ty!()),
            1 => I::StructNewDefault(ty!()),
            2 => { let a = ty!(); I::StructGet(a, r.x(1)?) }
            3 => { let a = ty!(); I::StructGetS(a, r.x(1)?) }
            4 => { let a = ty!(); I::StructGetU(a, r.x(1)?) }
            5 => { let a = ty!(); I::StructSet(a, r.x(1)?) }
            6 => I::ArrayNew(ty!()),
            7 => I::ArrayNewDefault(ty!()),
            8 => { let a = ty!(); I::ArrayNewFixed(a, r.x(1)?) }
            9 => { let a = ty!(); r.data_idx = true; I::ArrayNewData(a, DataIdx(r.x(1)?)) }
            10 => { let a = ty!(); I::ArrayNewElem(a, ElemIdx(r.x(1)?)) }
            11 => I::ArrayGet(ty!()),
            12 => I::ArrayGetS(ty!()),
            13 => I::ArrayGetU(ty!()),
            14 => I::ArraySet(ty!()),
            15 => I::ArrayLen,
            16 => I::ArrayFill(ty!()),
            17 => { let a = ty!(); I::ArrayCopy(a, TypeIdx(r.x(1)?)) }
            18 => { let a = ty!(); r.data_idx = true; I::ArrayInitData(a, DataIdx(r.x(1)?)) }
            19 => { let a = ty!(); I::ArrayInitElem(a, ElemIdx(r.x(1)?)) }
            20 => I::RefTest(RefType { nullable: false, ht: r.heaptype()? }),
            21 => I::RefTest(RefType { nullable: true, ht: r.heaptype()? }),
            22 => I::RefCast(RefType { nullable: false, ht: r.heaptype()? }),
            23 => I::RefCast(RefType { nullable: true, ht: r.heaptype()? }),
            24 | 25 => {
                let c = r.f(0x0510, |r| r.byte(S::Cast))?;
                if c > 3 { return Err(Leaf::Marker("cast", c)) }
                let l = LabelIdx(r.x(1)?);
                let t1 = RefType { nullable: c & 1 != 0, ht: r.f(0x0511, |r| r.heaptype())? };
                let t2 = RefType { nullable: c & 2 != 0, ht: r.f(0x0512, |r| r.heaptype())? };
                if sub == 24 { I::BrOnCast(l, t1, t2) } else { I::BrOnCastFail(l, t1, t2) }
            }
            26 => I::AnyConvertExtern,
            27 => I::ExternConvertAny,
            28 => I::RefI31,
            29 => I::I31GetS,
            30 => I::I31GetU,
            n => return Err(Leaf::SubOpcode(0xFB, n)),
        })
    }
    fn fc(&mut self, sub: u32) -> Res<I> {
        let r = self;
        Ok(match sub {
            0..=7 => t::SAT[sub as usize].clone(),
            8 => { r.data_idx = true; let y = DataIdx(r.x(0)?); I::MemoryInit(MemIdx(r.x(1)?), y) }
            9 => { r.data_idx = true; I::DataDrop(DataIdx(r.x(0)?)) }
            10 => { let a = MemIdx(r.x(0)?); I::MemoryCopy(a, MemIdx(r.x(1)?)) }
            11 => I::MemoryFill(MemIdx(r.x(0)?)),
            12 => { let y = ElemIdx(r.x(0)?); I::TableInit(TableIdx(r.x(1)?), y) }
            13 => I::ElemDrop(ElemIdx(r.x(0)?)),
            14 => { let a = TableIdx(r.x(0)?); I::TableCopy(a, TableIdx(r.x(1)?)) }
            15 => I::TableGrow(TableIdx(r.x(0)?)),
            16 => I::TableSize(TableIdx(r.x(0)?)),
            17 => I::TableFill(TableIdx(r.x(0)?)),
            n => return Err(Leaf::SubOpcode(0xFC, n)),
        })
    }
    fn lane(&mut self) -> Res<LaneIdx> { Ok(LaneIdx(self.f(0x0530, |r| r.byte(S::Raw))?)) }
    fn fd(&mut self, sub: u32) -> Res<I> {
        Ok(match sub {
            0..=11 => t::VMEM[sub as usize](self.memarg()?),
            92 => I::V128Load32Zero(self.memarg()?),
            93 => I::V128Load64Zero(self.memarg()?),
            84..=91 => { let m = self.memarg()?; t::VMEMLANE[sub as usize - 84](m, self.lane()?) }
            12 => I::V128Const(self.bytes(S::ConstB, 16)?.try_into().unwrap()),
            13 => { let b: [u8; 16] = self.bytes(S::ConstB, 16)?.try_into().unwrap(); I::I8x16Shuffle(b.map(LaneIdx)) }
            21..=34 => t::VLANE[sub as usize - 21](self.lane()?),
            n => match t::VEC.get(n as usize) {
                Some(Some(i)) => i.clone(),
                _ => return Err(Leaf::SubOpcode(0xFD, n)),
            },
        })
    }

    // ---- section contents (5.5) -------------------------------------------
    pub fn types(&mut self) -> Res<Vec<RecType>> { self.list(0x1001, |r| r.rectype()) }
    pub fn imports(&mut self) -> Res<Vec<Import>> {
        self.list(0x1002, |r| {
            let module_name = r.f(0x1102, |r| r.name())?;
            let item_name = r.f(0x1202, |r| r.name())?;
            let extern_type = match r.f(0x1302, |r| r.byte(S::Ext))? {
                0 => ExternType::Func(TypeIdx(r.f(0x1402, |r| r.u32())?)),
                1 => ExternType::Table(r.tabletype()?),
                2 => ExternType::Mem(r.memtype()?),
                3 => ExternType::Global(r.globaltype()?),
                4 => ExternType::Tag(r.tagtype()?),
                b => return Err(Leaf::Marker("extern", b)),
            };
            Ok(Import { module_name, item_name, extern_type })
        })
    }
    pub fn functions(&mut self) -> Res<Vec<TypeIdx>> { self.list(0x1003, |r| Ok(TypeIdx(r.u32()?))) }
    pub fn tables(&mut self) -> Res<Vec<Table>> {
        self.list(0x1004, |r| {
            let b = r.f(0x1104, |r| r.byte(S::Tbl))?;
            if b == 0x40 {
                let z = r.f(0x1204, |r| r.byte(S::Tbl0))?;
                if z != 0 { return Err(Leaf::Marker("table", z)) }
                r.f(0x1304, |r| {
                    let tt = r.tabletype()?;
                    let e = r.expr()?;
                    Ok(Table(tt, e))
                })
            } else {
                let tt = r.tabletype_from(b)?;
                let ht = tt.reftype.ht;
                Ok(Table(tt, vec![I::RefNull(ht)]))
            }
        })
    }
    pub fn memories(&mut self) -> Res<Vec<MemType>> { self.list(0x1005, |r| r.memtype()) }
    pub fn globals(&mut self) -> Res<Vec<Global>> {
        self.list(0x1006, |r| {
            let ty = r.globaltype()?;
            let init = r.expr()?;
            Ok(Global { r#type: ty, init })
        })
    }
    pub fn exports(&mut self) -> Res<Vec<Export>> {
        self.list(0x1007, |r| {
            let name = r.name()?;
            // the kind byte and the index are read before the kind is judged
            let k = r.f(0x1107, |r| r.byte(S::ExpK))?;
            let i = r.f(if k > 4 { 0x1307 } else { 0x1207 }, |r| r.u32())?;
            let externidx = match k {
                0 => ExternIdx::Func(FuncIdx(i)),
                1 => ExternIdx::Table(TableIdx(i)),
                2 => ExternIdx::Mem(MemIdx(i)),
                3 => ExternIdx::Global(GlobalIdx(i)),
                4 => ExternIdx::Tag(TagIdx(i)),
                b => return Err(Leaf::Marker("export", b)),
            };
            Ok(Export { name, externidx })
        })
    }
    pub fn start(&mut self) -> Res<FuncIdx> { Ok(FuncIdx(self.f(0x1008, |r| r.u32())?)) }
    fn elemkind(&mut self) -> Res<RefType> {
        match self.f(0x1109, |r| r.byte(S::EKind))? {
            0 => Ok(RefType { nullable: true, ht: HeapType::Ht(AbsHeapType::Func) }),
            b => Err(Leaf::Marker("elemkind", b)),
        }
    }
    fn elem_funcs(&mut self) -> Res<Vec<Vec<I>>> { self.list(0x1209, |r| Ok(vec![I::RefFunc(FuncIdx(r.u32()?))])) }
    fn elem_exprs(&mut self) -> Res<Vec<Vec<I>>> { self.list(0x1309, |r| r.expr()) }
    /// 5.5.12: bit 0: passive or declarative; bit 1: explicit table index or
    /// declarative; bit 2: element types and expressions instead of kind and indices
    fn elem(&mut self) -> Res<Elem> {
        let bits = self.f(0x1409, |r| r.u32r(Role::Bits))?;
        if bits > 7 { return Err(Leaf::Bitfield(bits)) }
        self.f(0x1500 + bits, |r| {
            let func = |nullable| RefType { nullable, ht: HeapType::Ht(AbsHeapType::Func) };
            let active = bits & 1 == 0;
            let explicit = bits & 2 != 0;
            let exprs = bits & 4 != 0;
            let mode = if active {
                let table = if explicit { TableIdx(r.f(0x1609, |r| r.u32())?) } else { TableIdx(0) };
                ElemMode::Active { table, offset: r.f(0x1709, |r| r.expr())? }
            } else if explicit { ElemMode::Declare } else { ElemMode::Passive };
            let has_type = !active || explicit;
            let ty = match (has_type, exprs) {
                (true, true) => r.reftype()?,
                (true, false) => r.elemkind()?,
                (false, true) => func(true),
                (false, false) => func(false),
            };
            let init = if exprs { r.elem_exprs()? } else { r.elem_funcs()? };
            Ok(Elem { r#type: ty, init, mode })
        })
    }
    pub fn elems(&mut self) -> Res<Vec<Elem>> { self.list(0x1009, |r| r.elem()) }
    fn data(&mut self) -> Res<Data> {
        let bits = self.f(0x110B, |r| r.u32r(Role::Bits))?;
        let mode = match bits {
            0 => DataMode::Active { memory: MemIdx(0), offset: self.f(0x120B, |r| r.expr())? },
            1 => DataMode::Passive,
            2 => {
                let m = self.f(0x130B, |r| r.u32())?;
                DataMode::Active { memory: MemIdx(m), offset: self.f(0x120B, |r| r.expr())? }
            }
            n => return Err(Leaf::Bitfield(n)),
        };
        Ok(Data { init: self.bytevec(S::Raw)?.to_vec(), mode })
    }
    pub fn datas(&mut self) -> Res<Vec<Data>> { self.list(0x100B, |r| r.data()) }
    pub fn data_count(&mut self) -> Res<u32> { self.f(0x100C, |r| r.u32()) }
    pub fn tags(&mut self) -> Res<Vec<TagType>> { self.list(0x100D, |r| r.tagtype()) }
    /// locals and expression; the caller has set `end`
    pub fn func_body(&mut self) -> Res<(Vec<(u32, ValType)>, Vec<I>)> {
        let mut total: u64 = 0;
        let locals = self.list(0x100A, |r| {
            let n = r.f(0x110A, |r| r.u32())?;
            total += n as u64;
            if total > u32::MAX as u64 { return Err(Leaf::TooManyLocals(total)) }
            Ok((n, r.valtype()?))
        })?;
        let body = self.expr()?;
        Ok((locals, body))
    }
    fn code(&mut self) -> Res<(Vec<(u32, ValType)>, Vec<I>)> {
        let size = self.f(0x120A, |r| r.u32r(Role::Len))?;
        let (outer, begin) = (self.end, self.pos);
        let limit = begin as u64 + size as u64;
        self.end = outer.min(limit as usize);
        if self.track { self.ctx.push(0x4000_0000) }
        let r = self.func_body();
        if let Err(e) = r {
            self.hard_eof = self.pos as u64 == limit;
            if self.track { self.ctx.push(0x5000_0000 | (limit - self.pos as u64).min(64) as u32) }
            return Err(e);
        }
        let got = (self.pos - begin) as u64;
        self.end = outer;
        if self.track { self.ctx.pop(); }
        if got != size as u64 { return Err(Leaf::EntrySize { declared: size, got }) }
        r
    }
    pub fn codes(&mut self) -> Res<Vec<(Vec<(u32, ValType)>, Vec<I>)>> { self.list(0x100E, |r| r.code()) }

    // ---- module (5.5.2, 5.5.17) -------------------------------------------
    fn module(&mut self) -> Res<Module> {
        let total = self.b.len();
        let mut m = Module::default();
        if total < 8 { return Err(Leaf::Eof) }
        let pre: [u8; 8] = self.b[..8].try_into().unwrap();
        if pre != *b"\0asm\x01\0\0\0" { return Err(Leaf::Preamble(pre)) }
        self.pos = 8;
        let mut last: Option<u8> = None;
        let mut codes_seen = false;
        m.version = pre[4..].try_into().unwrap();
        let mut func_types = vec![];
        let mut data_idx_used = false;
        while self.pos < total {
            self.end = total;
            self.sec = None;
            let id = self.byte(S::Raw)?;
            if id > 13 { return Err(Leaf::SectionId(id)) }
            let size = self.u32()?;
            let begin = self.pos;
            let limit = begin as u64 + size as u64;
            if id != 0 {
                if let Some(p) = last {
                    if rank(id) < rank(p) { return Err(Leaf::OutOfOrder(id, p)) }
                    if rank(id) == rank(p) { return Err(Leaf::Duplicate(id)) }
                }
            }
            self.end = total.min(usize::try_from(limit).unwrap());
            self.sec = Some(id);
            match id {
                0 => {
                    let name = self.name()?;
                    let contents = self.b[self.pos..self.end].to_vec();
                    self.pos = self.end;
                    m.custom_sections.push(CustomSection { name, contents });
                }
                1 => m.types = self.types()?,
                2 => m.imports = self.imports()?,
                3 => func_types = self.functions()?,
                4 => m.tables = self.tables()?,
                5 => m.mems = self.memories()?,
                6 => m.globals = self.globals()?,
                7 => m.exports = self.exports()?,
                8 => m.start = Some(self.start()?),
                9 => m.elems = self.elems()?,
                12 => m.data_count = Some(self.data_count()?),
                10 => {
                    codes_seen = true;
                    self.data_idx = false;
                    let codes = self.codes()?;
                    if codes.len() != func_types.len() {
                        return Err(Leaf::CodeFunc { codes: codes.len(), funcs: func_types.len() });
                    }
                    let locals: u64 = codes.iter().flat_map(|c| &c.0).map(|l| l.0 as u64).sum();
                    if locals > LOCALS_BOUND { return Err(Leaf::BeyondBound) }
                    m.funcs = func_types.drain(..).zip(codes).map(|(t, (ls, body))| Func {
                        r#type: t,
                        locals: ls.iter().flat_map(|&(n, t)| std::iter::repeat_n(t, n as usize)).collect(),
                        body,
                    }).collect();
                    data_idx_used = self.data_idx;
                }
                11 => {
                    m.datas = self.datas()?;
                    if let Some(n) = m.data_count && n as usize != m.datas.len() {
                        return Err(Leaf::DataCount { datas: m.datas.len(), count: n });
                    }
                }
                13 => m.tags = self.tags()?,
                _ => unreachable!(),
            }
            let got = (self.pos - begin) as u64;
            if got != size as u64 { return Err(Leaf::SectionSize { declared: size, got }) }
            let kind = KINDS[id as usize];
            m.section_headers.push(SectionHeader { kind, size });
            if id != 0 {
                m.parsed_section_kinds.push(kind);
                last = Some(id);
            }
        }
        self.sec = None;
        if !codes_seen && !func_types.is_empty() { return Err(Leaf::CodeFunc { codes: 0, funcs: func_types.len() }) }
        if let Some(n) = m.data_count && n as usize != m.datas.len() {
            return Err(Leaf::DataCount { datas: m.datas.len(), count: n });
        }
        if data_idx_used && m.data_count.is_none() { return Err(Leaf::DataIdxNoCount) }
        Ok(m)
    }
}

/// section ids in the order the sections must have (5.5.16)
pub const ORDER: [u8; 13] = [1, 2, 3, 4, 5, 13, 6, 7, 8, 9, 12, 10, 11];
pub fn rank(id: u8) -> usize { ORDER.iter().position(|&x| x == id).unwrap() }
pub const KINDS: [SectionKind; 14] = [
    SectionKind::Custom, SectionKind::Type, SectionKind::Import, SectionKind::Function, SectionKind::Table,
    SectionKind::Memory, SectionKind::Global, SectionKind::Export, SectionKind::Start, SectionKind::Element,
    SectionKind::Code, SectionKind::Data, SectionKind::DataCount, SectionKind::Tag,
];

/// UTF-8 as in the specification (5.2.4 / Unicode table 3-7), by hand.
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    let cont = |j: usize, lo: u8, hi: u8| b.get(j).is_some_and(|&x| x >= lo && x <= hi);
    while i < b.len() {
        let (n, lo, hi) = match b[i] {
            0x00..=0x7F => (1, 0, 0),
            0xC2..=0xDF => (2, 0x80, 0xBF),
            0xE0 => (3, 0xA0, 0xBF),
            0xE1..=0xEC | 0xEE | 0xEF => (3, 0x80, 0xBF),
            0xED => (3, 0x80, 0x9F),
            0xF0 => (4, 0x90, 0xBF),
            0xF1..=0xF3 => (4, 0x80, 0xBF),
            0xF4 => (4, 0x80, 0x8F),
            _ => return false,
        };
        if n > 1 && !cont(i + 1, lo, hi) { return false }
        if n > 2 && !cont(i + 2, 0x80, 0xBF) { return false }
        if n > 3 && !cont(i + 3, 0x80, 0xBF) { return false }
        i += n;
    }
    true
}
pub fn utf8(b: &[u8]) -> Option<String> {
    utf8_ok(b).then(|| String::from_utf8(b.to_vec()).expect("hand-written UTF-8 check and std disagree"))
}

pub fn decode(b: &[u8]) -> Result<Module, Rej> {
    let mut r = R::new(b);
    match r.module() {
        Ok(m) => Ok(m),
        Err(leaf) => {
            let mut path = std::mem::take(&mut r.path);
            path.reverse();
            Err(Rej { sec: r.sec, path, leaf, at: r.pos })
        }
    }
}

/// What a body explored as a transition system is the content of.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Root { Sec(u8), Func }

pub enum Step {
    /// complete: all bytes consumed and the construct ended
    Done,
    /// the construct ended `n` bytes before the end of the bytes
    Over,
    Bad(Leaf),
    /// needs another byte; state key and the byte that leads to the nearest end
    Need(Vec<u32>, u8),
}

/// Run the model on `body` as the content of `root`.
pub fn run_body(root: Root, body: &[u8]) -> Step {
    let mut r = R::new(body);
    r.track = true;
    let res = match root {
        Root::Func => r.func_body().map(drop),
        Root::Sec(1) => r.types().map(drop),
        Root::Sec(2) => r.imports().map(drop),
        Root::Sec(3) => r.functions().map(drop),
        Root::Sec(4) => r.tables().map(drop),
        Root::Sec(5) => r.memories().map(drop),
        Root::Sec(6) => r.globals().map(drop),
        Root::Sec(7) => r.exports().map(drop),
        Root::Sec(8) => r.start().map(drop),
        Root::Sec(9) => r.elems().map(drop),
        Root::Sec(10) => r.codes().map(drop),
        Root::Sec(11) => r.datas().map(drop),
        Root::Sec(12) => r.data_count().map(drop),
        Root::Sec(13) => r.tags().map(drop),
        Root::Sec(0) => r.name().map(drop),
        Root::Sec(_) => unreachable!(),
    };
    match res {
        Ok(()) if r.pos == body.len() => Step::Done,
        Ok(()) => Step::Over,
        Err(Leaf::Eof) if !r.hard_eof && r.pos == body.len() => Step::Need(r.ctx, default_byte(r.site)),
        Err(l) => Step::Bad(l),
    }
}
