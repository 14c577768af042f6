//! An independent codec of the compact protocol and of the metadata types, driven by the schema table.
//! It follows the specification functions of the proof (verus/theory.rs): same values, same errors, same budget.
use crate::gen::TYPES;
use crate::rng::Rng;
use crate::schema::*;
use crate::val::Val;
use parquet_format_safe::thrift as t;
use std::io::ErrorKind;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum EK { T(t::TransportErrorKind), P(t::ProtocolErrorKind), A(t::ApplicationErrorKind) }
use t::{ProtocolErrorKind as PK, TransportErrorKind as TK};
pub fn ek(e: &t::Error) -> EK { match e { t::Error::Transport(x) => EK::T(x.kind), t::Error::Protocol(x) => EK::P(x.kind), t::Error::Application(x) => EK::A(x.kind) } }
pub fn io_ek(k: ErrorKind) -> EK {
    EK::T(match k {
        ErrorKind::ConnectionReset | ErrorKind::ConnectionRefused | ErrorKind::NotConnected => TK::NotOpen,
        ErrorKind::AlreadyExists => TK::AlreadyOpen,
        ErrorKind::TimedOut => TK::TimedOut,
        ErrorKind::UnexpectedEof => TK::EndOfFile,
        _ => TK::Unknown,
    })
}
pub const EOF: EK = EK::T(TK::EndOfFile);
pub const DATA: EK = EK::P(PK::InvalidData);
pub const SIZE: EK = EK::P(PK::SizeLimit);
pub const DEPTH: EK = EK::P(PK::DepthLimit);
pub const UNK: EK = EK::P(PK::Unknown);
pub type DR<T> = Result<T, EK>;

// ------------------------------------------------------------------ varints
pub fn uenc(mut n: u64, out: &mut Vec<u8>) { while n >= 128 { out.push((n % 128) as u8 + 128); n /= 128; } out.push(n as u8); }
pub fn zz(v: i64) -> u64 { if v >= 0 { 2 * v as u64 } else { (-(v as i128) * 2 - 1) as u64 } }
pub fn unzz(n: u64) -> i64 { if n % 2 == 0 { (n / 2) as i64 } else { (-((n / 2) as i128) - 1) as i64 } }
pub fn ienc(v: i64, out: &mut Vec<u8>) { uenc(zz(v), out) }
/// first terminated group within 10 bytes: (value mod 2^64, length)
pub fn udec(s: &[u8]) -> Option<(u64, usize)> {
    let mut v: u128 = 0;
    for i in 0..10.min(s.len()) { v |= ((s[i] % 128) as u128) << (7 * i); if s[i] < 128 { return Some((v as u64, i + 1)); } }
    None
}
pub enum Vr { Done(u64, usize), Eof, TooLong }
/// what a reader that accepts at most max bytes sees
pub fn vread(s: &[u8], max: usize) -> Vr {
    for i in 0.. {
        if i > 0 && s[i - 1] < 128 { return match udec(&s[..i]) { Some((v, k)) => Vr::Done(v, k), None => Vr::Eof }; }
        if i >= s.len() { return Vr::Eof; }
        if i >= max { return Vr::TooLong; }
    }
    unreachable!()
}

// ------------------------------------------------------------------ reader
pub struct Rd<'a> { pub d: &'a [u8], pub pos: usize, pub last: i16, pub stack: Vec<i16>, pub pend: Option<bool>, pub rem: usize, pub eof: EK }
impl<'a> Rd<'a> {
    pub fn new(d: &'a [u8], rem: usize) -> Self { Rd { d, pos: 0, last: 0, stack: vec![], pend: None, rem, eof: EOF } }
    pub fn byte(&mut self) -> DR<u8> { let b = *self.d.get(self.pos).ok_or(self.eof)?; self.pos += 1; Ok(b) }
    fn vi(&mut self, bits: usize) -> DR<u64> {
        match vread(&self.d[self.pos..], (bits + 7) / 7) { Vr::Done(v, k) => { self.pos += k; Ok(v) } Vr::Eof => Err(self.eof), Vr::TooLong => Err(io_ek(ErrorKind::InvalidData)) }
    }
    pub fn u32(&mut self) -> DR<u32> { Ok(self.vi(32)? as u32) }
    pub fn i16(&mut self) -> DR<i16> { Ok(unzz(self.vi(16)?) as i16) }
    pub fn i32(&mut self) -> DR<i32> { Ok(unzz(self.vi(32)?) as i32) }
    pub fn i64(&mut self) -> DR<i64> { Ok(unzz(self.vi(64)?)) }
    pub fn charge(&mut self, n: usize) -> DR<()> { if n <= self.rem { self.rem -= n; Ok(()) } else { Err(SIZE) } }
    pub fn bytes(&mut self) -> DR<Vec<u8>> {
        let n = self.u32()? as usize;
        self.charge(n)?;
        if self.d.len() - self.pos < n { return Err(self.eof); }
        self.pos += n;
        Ok(self.d[self.pos - n..self.pos].to_vec())
    }
    pub fn string(&mut self) -> DR<String> { String::from_utf8(self.bytes()?).map_err(|_| DATA) }
    pub fn double(&mut self) -> DR<u64> { if self.d.len() - self.pos < 8 { return Err(self.eof); } self.pos += 8; Ok(u64::from_le_bytes(self.d[self.pos - 8..self.pos].try_into().unwrap())) }
    pub fn bool(&mut self) -> DR<bool> { if let Some(b) = self.pend.take() { return Ok(b); } match self.byte()? { 1 => Ok(true), 2 => Ok(false), _ => Err(DATA) } }
    pub fn struct_begin(&mut self) -> DR<()> { self.charge(2)?; self.stack.push(self.last); self.last = 0; Ok(()) }
    pub fn struct_end(&mut self) { self.last = self.stack.pop().unwrap(); }
    pub fn field_begin(&mut self) -> DR<(TT, i16)> {
        let h = self.byte()?;
        let (lo, delta) = (h % 16, h / 16);
        let tt = match lo { 1 => { self.pend = Some(true); TT::Bool } 2 => { self.pend = Some(false); TT::Bool } _ => from_code(lo).filter(|_| lo != 1).ok_or(DATA)? };
        if tt == TT::Stop { return Ok((tt, 0)); }
        self.last = if delta != 0 { i16::try_from(self.last as i32 + delta as i32).map_err(|_| DEPTH)? } else { self.i16()? };
        Ok((tt, self.last))
    }
    pub fn list_begin(&mut self) -> DR<(TT, u32)> {
        let h = self.byte()?;
        let tt = from_code(h % 16).ok_or(DATA)?;
        let n = if h / 16 == 15 { self.u32()? } else { (h / 16) as u32 };
        self.charge(8 * n as usize)?;
        Ok((tt, n))
    }
    pub fn map_begin(&mut self) -> DR<Option<(TT, TT, u32)>> {
        let n = self.u32()?;
        if n == 0 { return Ok(None); }
        let h = self.byte()?;
        let (k, v) = (from_code(h / 16), from_code(h % 16));
        match (k, v) { (Some(k), Some(v)) => { self.charge(8 * n as usize)?; Ok(Some((k, v, n))) } _ => Err(DATA) }
    }
    pub fn skip(&mut self, tt: TT, depth: i32) -> DR<()> {
        if depth <= 0 { return Err(DEPTH); }
        match tt {
            TT::Bool => { self.bool()?; } TT::I08 => { self.byte()?; } TT::I16 => { self.i16()?; } TT::I32 => { self.i32()?; } TT::I64 => { self.i64()?; }
            TT::Double => { self.double()?; } TT::String => { self.bytes()?; }
            TT::Struct => { self.struct_begin()?; loop { let (t, _) = self.field_begin()?; if t == TT::Stop { break; } self.skip(t, depth - 1)?; } self.struct_end(); }
            TT::List | TT::Set => { let (t, n) = self.list_begin()?; for _ in 0..n { self.skip(t, depth - 1)?; } }
            TT::Map => if let Some((k, v, n)) = self.map_begin()? { for _ in 0..n { self.skip(k, depth - 1)?; self.skip(v, depth - 1)?; } },
            TT::Stop => return Err(UNK),
        }
        Ok(())
    }
    pub fn val(&mut self, ty: &Ty) -> DR<Val> {
        Ok(match ty {
            Ty::Bool => Val::Bool(self.bool()?), Ty::I8 => Val::I8(self.byte()? as i8), Ty::I16 => Val::I16(self.i16()?), Ty::I32 => Val::I32(self.i32()?), Ty::I64 => Val::I64(self.i64()?),
            Ty::Bin => Val::Bin(self.bytes()?), Ty::Str => Val::Str(self.string()?),
            Ty::List(e) => { let (_, n) = self.list_begin()?; let mut v = vec![]; for _ in 0..n { v.push(self.val(e)?); } Val::List(v) }
            Ty::Named(i) => self.named(*i)?,
        })
    }
    pub fn list_of(&mut self, i: usize) -> DR<Val> { let (_, n) = self.list_begin()?; let mut v = vec![]; for _ in 0..n { v.push(self.named(i)?); } Ok(Val::List(v)) }
    pub fn named(&mut self, i: usize) -> DR<Val> {
        match TYPES[i].kind {
            Kind::Enum(_) => Ok(Val::I32(self.i32()?)),
            Kind::Struct(fs) => {
                let mut vals: Vec<Option<Val>> = vec![None; fs.len()];
                self.struct_begin()?;
                loop {
                    let (t, id) = self.field_begin()?;
                    if t == TT::Stop { break; }
                    match fs.iter().position(|f| f.id == id) { Some(k) => vals[k] = Some(self.val(fs[k].ty)?), None => self.skip(t, 64)? }
                }
                self.struct_end();
                for (f, v) in fs.iter().zip(&vals) { if f.req && v.is_none() { return Err(UNK); } }
                Ok(Val::Struct(vals))
            }
            Kind::Union(fs) => {
                let (mut ret, mut count) = (None, 0u64);
                self.struct_begin()?;
                loop {
                    let (t, id) = self.field_begin()?;
                    if t == TT::Stop { break; }
                    match fs.iter().position(|f| f.id == id) { Some(k) => { let v = self.val(fs[k].ty)?; if ret.is_none() { ret = Some(Val::Union(k, Box::new(v))); } } None => self.skip(t, 64)? }
                    count += 1;
                }
                self.struct_end();
                if count != 1 { return Err(DATA); }
                ret.ok_or(DATA)
            }
        }
    }
    pub fn app(&mut self) -> DR<(t::ApplicationErrorKind, String)> {
        let (mut k, mut m) = (t::ApplicationErrorKind::Unknown, "general remote error".to_string());
        self.struct_begin()?;
        loop {
            let (tt, id) = self.field_begin()?;
            if tt == TT::Stop { break; }
            match id { 1 => m = self.string()?, 2 => k = app_kind(self.i32()?).unwrap_or(t::ApplicationErrorKind::Unknown), _ => self.skip(tt, 64)? }
        }
        self.struct_end();
        Ok((k, m))
    }
    pub fn msg(&mut self) -> DR<(u8, u32, String)> {
        if self.byte()? != 0x82 { return Err(EK::P(PK::BadVersion)); }
        let b = self.byte()?;
        if b % 32 != 1 { return Err(EK::P(PK::BadVersion)); }
        let ty = b / 32;
        if !(1..=4).contains(&ty) { return Err(DATA); }
        let seq = self.u32()?;
        let name = self.string()?;
        self.last = 0;
        Ok((ty, seq, name))
    }
}
pub const APP: &[t::ApplicationErrorKind] = { use t::ApplicationErrorKind::*; &[Unknown, UnknownMethod, InvalidMessageType, WrongMethodName, BadSequenceId, MissingResult, InternalError, ProtocolError, InvalidTransform, InvalidProtocol, UnsupportedClientType] };
pub const PROTO: &[PK] = &[PK::Unknown, PK::InvalidData, PK::NegativeSize, PK::SizeLimit, PK::BadVersion, PK::NotImplemented, PK::DepthLimit];
pub const TRANS: &[TK] = &[TK::Unknown, TK::NotOpen, TK::AlreadyOpen, TK::TimedOut, TK::EndOfFile, TK::NegativeSize, TK::SizeLimit];
pub fn app_kind(i: i32) -> Option<t::ApplicationErrorKind> { usize::try_from(i).ok().and_then(|i| APP.get(i)).copied() }

// ------------------------------------------------------------------ writer
/// how freely the encoder uses the latitude the format gives a writer
#[derive(Default)]
pub struct Enc<'r> {
    pub rng: Option<&'r mut Rng>,
    /// add fields no reader of this schema knows
    pub unknown: bool,
    /// field order / header forms / list header forms / list element type claims
    pub permute: bool, pub long: bool,
    pub added: usize,
}
pub fn field_header(last: i16, tt_code: u8, id: i16, long: bool, out: &mut Vec<u8>) {
    let d = id as i32 - last as i32;
    if d > 0 && d < 15 && !long { out.push((d as u8) * 16 + tt_code) } else { out.push(tt_code); ienc(id as i64, out) }
}
pub fn list_header(tt: TT, n: usize, long: bool, out: &mut Vec<u8>) { if n <= 14 && !long { out.push((n as u8) * 16 + code(tt)) } else { out.push(0xF0 + code(tt)); uenc(n as u64, out) } }
/// one field ready to be put into a struct
pub struct Item { pub id: i16, pub code: u8, pub payload: Vec<u8> }
pub fn put_items(items: &[Item], mut long: impl FnMut() -> bool, out: &mut Vec<u8>) {
    let mut last = 0;
    for it in items { field_header(last, it.code, it.id, long(), out); last = it.id; out.extend_from_slice(&it.payload); }
    out.push(0);
}
impl<'r> Enc<'r> {
    fn coin(&mut self, num: usize, den: usize) -> bool { match &mut self.rng { Some(r) => r.chance(num, den), None => false } }
    pub fn item(&mut self, id: i16, ty: &Ty, v: &Val) -> Item {
        if let Val::Bool(b) = v { return Item { id, code: if *b { 1 } else { 2 }, payload: vec![] }; }
        let mut p = vec![];
        self.val(ty, v, &mut p);
        Item { id, code: code(elem_tt(ty)), payload: p }
    }
    pub fn val(&mut self, ty: &Ty, v: &Val, out: &mut Vec<u8>) {
        match (ty, v) {
            (Ty::Bool, Val::Bool(b)) => out.push(if *b { 1 } else { 2 }),
            (Ty::I8, Val::I8(x)) => out.push(*x as u8),
            (Ty::I16, Val::I16(x)) => ienc(*x as i64, out),
            (Ty::I32, Val::I32(x)) => ienc(*x as i64, out),
            (Ty::I64, Val::I64(x)) => ienc(*x, out),
            (Ty::Bin, Val::Bin(b)) => { uenc(b.len() as u64, out); out.extend_from_slice(b) }
            (Ty::Str, Val::Str(s)) => { uenc(s.len() as u64, out); out.extend_from_slice(s.as_bytes()) }
            (Ty::List(e), Val::List(xs)) => { let long = self.long && self.coin(1, 2); list_header(elem_tt(e), xs.len(), long, out); for x in xs { self.val(e, x, out); } }
            (Ty::Named(i), v) => self.named(*i, v, out),
            _ => panic!("value {:?} does not have type {:?}", v, ty),
        }
    }
    pub fn items(&mut self, i: usize, v: &Val) -> Vec<Item> {
        match (&TYPES[i].kind, v) {
            (Kind::Struct(fs), Val::Struct(vs)) => fs.iter().zip(vs).filter_map(|(f, v)| v.as_ref().map(|v| (f, v))).map(|(f, v)| self.item(f.id, f.ty, v)).collect(),
            (Kind::Union(fs), Val::Union(k, x)) => vec![self.item(fs[*k].id, fs[*k].ty, x)],
            _ => panic!("not a struct: {:?}", v),
        }
    }
    pub fn named(&mut self, i: usize, v: &Val, out: &mut Vec<u8>) {
        if let (Kind::Enum(_), Val::I32(x)) = (&TYPES[i].kind, v) { ienc(*x as i64, out); return; }
        let mut items = self.items(i, v);
        if let Kind::Struct(fs) = TYPES[i].kind {
            if self.permute && self.coin(1, 2) { let r = self.rng.as_mut().unwrap(); r.shuffle(&mut items); }
            if self.unknown && self.coin(1, 2) {
                let r = self.rng.as_mut().unwrap();
                for _ in 0..r.range(1, 3) {
                    let known: Vec<i16> = fs.iter().map(|f| f.id).collect();
                    let it = unknown_item(r, &known);
                    let at = r.below(items.len() + 1);
                    items.insert(at, it);
                    self.added += 1;
                }
            }
        }
        let long = self.long;
        let mut seed = match &mut self.rng { Some(r) if long => Some(Rng::new(r.next())), _ => None };
        put_items(&items, || seed.as_mut().map_or(false, |r| r.chance(1, 3)), out);
    }
}
pub fn encode(i: usize, v: &Val) -> Vec<u8> { let mut o = vec![]; Enc::default().named(i, v, &mut o); o }
pub fn unknown_id(r: &mut Rng, known: &[i16]) -> i16 {
    loop {
        let id = match r.below(5) { 0 => r.range(0, 40) as i16, 1 => known.last().copied().unwrap_or(0).wrapping_add(r.range(1, 3) as i16), 2 => -(r.below(5) as i16), _ => r.i16v() };
        if !known.contains(&id) { return id; }
    }
}
pub fn unknown_item(r: &mut Rng, known: &[i16]) -> Item {
    let id = unknown_id(r, known);
    let tt = *r.pick(ALL);
    if r.chance(1, 12) {
        // nested up to the deepest level that skipping accepts
        let d = r.range(2, 64);
        let n = crate::tree::chain(r, d);
        let mut p = vec![];
        n.encode(&mut p);
        return Item { id, code: code(n.tt()), payload: p };
    }
    if tt == TT::Bool { return Item { id, code: 1 + r.below(2) as u8, payload: vec![] }; }
    let mut p = vec![];
    let d = r.range(1, 4);
    crate::tree::random(r, tt, d).encode(&mut p);
    Item { id, code: code(tt), payload: p }
}
pub const ALL: &[TT] = &[TT::Bool, TT::I08, TT::I16, TT::I32, TT::I64, TT::Double, TT::String, TT::List, TT::Set, TT::Map, TT::Struct];

// ------------------------------------------------------------------ values
pub fn gen_val(r: &mut Rng, ty: &Ty, fuel: &mut i32) -> Val {
    *fuel -= 1;
    match ty {
        Ty::Bool => Val::Bool(r.chance(1, 2)), Ty::I8 => Val::I8(r.int() as i8), Ty::I16 => Val::I16(r.i16v()), Ty::I32 => Val::I32(r.i32v()), Ty::I64 => Val::I64(r.int()),
        Ty::Bin => { let n = r.len(); *fuel -= (n / 50) as i32; Val::Bin(r.bytes(n)) }
        Ty::Str => { let n = r.len(); *fuel -= (n / 50) as i32; Val::Str(r.string(n)) }
        Ty::List(e) => { let n = if *fuel <= 0 { 0 } else { r.len().min(if matches!(e, Ty::Named(_)) { *fuel as usize } else { 20_000 }) }; Val::List((0..n).map(|_| gen_val(r, e, fuel)).collect()) }
        Ty::Named(i) => gen_named(r, *i, fuel),
    }
}
/// how optional fields are chosen: 0 none, 1 all, otherwise at random
pub fn gen_named(r: &mut Rng, i: usize, fuel: &mut i32) -> Val {
    match TYPES[i].kind {
        Kind::Enum(vs) => Val::I32(if r.chance(2, 3) { r.pick(vs).1 } else { r.i32v() }),
        Kind::Struct(fs) => { let m = r.below(5); Val::Struct(fs.iter().map(|f| if f.req || m == 1 || (m > 1 && *fuel > 0 && r.chance(1, 2)) { Some(gen_val(r, f.ty, fuel)) } else { None }).collect()) }
        Kind::Union(fs) => { let k = r.below(fs.len()); Val::Union(k, Box::new(gen_val(r, fs[k].ty, fuel))) }
    }
}
