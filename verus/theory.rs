// `//#def`: the function is opaque, and gen.py adds a lemma def_<name> giving its definition; the lemmas form the broadcast
// group `defs`, which the thrift modules and the lemmas use. The type readers and writers see only the names.
pub mod theory {
use vstd::prelude::*;
use vstd::utf8::*;
use crate::thrift::{Error, ProtocolErrorKind, TransportErrorKind, ApplicationErrorKind};
use crate::thrift::protocol::*;
use crate::thrift::varint::VarInt;
use crate::shim::{oom, f64_le, le_f64};
use crate::shim::io::ErrorKind;

// ------------------------------------------------------------------ errors
pub enum EK { T(TransportErrorKind), P(ProtocolErrorKind), A(ApplicationErrorKind), Fuel }
pub open spec fn ek(e: Error) -> EK {
    match e { Error::Transport(t) => EK::T(t.kind), Error::Protocol(p) => EK::P(p.kind), Error::Application(a) => EK::A(a.kind) }
}
pub open spec fn io_ek(k: ErrorKind) -> EK {
    EK::T(match k {
        ErrorKind::ConnectionReset | ErrorKind::ConnectionRefused | ErrorKind::NotConnected => TransportErrorKind::NotOpen,
        ErrorKind::AlreadyExists => TransportErrorKind::AlreadyOpen,
        ErrorKind::TimedOut => TransportErrorKind::TimedOut,
        ErrorKind::UnexpectedEof => TransportErrorKind::EndOfFile,
        _ => TransportErrorKind::Unknown,
    })
}
pub open spec fn e_eof() -> EK { EK::T(TransportErrorKind::EndOfFile) }
pub open spec fn e_data() -> EK { EK::P(ProtocolErrorKind::InvalidData) }
pub open spec fn e_size() -> EK { EK::P(ProtocolErrorKind::SizeLimit) }
pub open spec fn e_depth() -> EK { EK::P(ProtocolErrorKind::DepthLimit) }
pub open spec fn e_unk() -> EK { EK::P(ProtocolErrorKind::Unknown) }

// ------------------------------------------------------------------ deep views
pub trait DV { type V; spec fn dv(&self) -> Self::V; }
impl DV for () { type V = (); open spec fn dv(&self) -> () { () } }
impl DV for bool { type V = bool; open spec fn dv(&self) -> bool { *self } }
impl DV for u8 { type V = u8; open spec fn dv(&self) -> u8 { *self } }
impl DV for i8 { type V = i8; open spec fn dv(&self) -> i8 { *self } }
impl DV for i16 { type V = i16; open spec fn dv(&self) -> i16 { *self } }
impl DV for u32 { type V = u32; open spec fn dv(&self) -> u32 { *self } }
impl DV for i32 { type V = i32; open spec fn dv(&self) -> i32 { *self } }
impl DV for i64 { type V = i64; open spec fn dv(&self) -> i64 { *self } }
impl DV for f64 { type V = f64; open spec fn dv(&self) -> f64 { *self } }
impl DV for String { type V = Seq<char>; open spec fn dv(&self) -> Seq<char> { self@ } }
impl DV for TType { type V = TType; open spec fn dv(&self) -> TType { *self } }
impl<T: DV> DV for Vec<T> { type V = Seq<T::V>; open spec fn dv(&self) -> Seq<T::V> { Seq::new(self@.len(), |i: int| self@[i].dv()) } }
impl<T: DV> DV for Option<T> { type V = Option<T::V>; open spec fn dv(&self) -> Option<T::V> { match *self { Some(x) => Some(x.dv()), None => None } } }
impl DV for (TType, u32) { type V = LV; open spec fn dv(&self) -> LV { LV { ty: self.0, size: self.1 } } }
pub struct FV { pub ty: TType, pub id: Option<i16> }
impl DV for TFieldIdentifier { type V = FV; open spec fn dv(&self) -> FV { FV { ty: self.field_type, id: self.id } } }
impl DV for TStructIdentifier { type V = (); open spec fn dv(&self) -> () { () } }
pub struct LV { pub ty: TType, pub size: u32 }
impl DV for TListIdentifier { type V = LV; open spec fn dv(&self) -> LV { LV { ty: self.element_type, size: self.size } } }
impl DV for TSetIdentifier { type V = LV; open spec fn dv(&self) -> LV { LV { ty: self.element_type, size: self.size } } }
pub struct MV { pub k: Option<TType>, pub v: Option<TType>, pub size: u32 }
impl DV for TMapIdentifier { type V = MV; open spec fn dv(&self) -> MV { MV { k: self.key_type, v: self.value_type, size: self.size } } }
pub struct MsgV { pub name: Seq<char>, pub ty: TMessageType, pub seq: u32 }
impl DV for TMessageIdentifier { type V = MsgV; open spec fn dv(&self) -> MsgV { MsgV { name: self.name@, ty: self.message_type, seq: self.sequence_number } } }

pub broadcast proof fn vec_u8_dv(v: Vec<u8>) ensures #[trigger] v.dv() == v@ { assert(v.dv() =~= v@); }

// ------------------------------------------------------------------ varint
pub open spec fn uenc(n: nat) -> Seq<u8> decreases n {
    if n < 128 { seq![n as u8] } else { seq![(n % 128 + 128) as u8] + uenc(n / 128) }
}
pub open spec fn zz(v: int) -> nat { if v >= 0 { (2 * v) as nat } else { (-2 * v - 1) as nat } }
pub open spec fn unzz(n: nat) -> int { if n % 2 == 0 { (n / 2) as int } else { -((n / 2) as int) - 1 } }
//#def
pub open spec fn ienc(v: int) -> Seq<u8> { uenc(zz(v)) }
pub open spec fn p128(k: nat) -> nat decreases k { if k == 0 { 1 } else { 128 * p128((k - 1) as nat) } }
/// value of the 7-bit groups, least significant first
pub open spec fn vval(s: Seq<u8>) -> nat decreases s.len() {
    if s.len() == 0 { 0 } else { vval(s.drop_last()) + (s.last() % 128) as nat * p128((s.len() - 1) as nat) }
}
/// one past the first byte without continuation bit, within the first 10 bytes
pub open spec fn vend(s: Seq<u8>, i: nat) -> Option<nat> decreases 10 - i {
    if i >= s.len() || i >= 10 { None } else if s[i as int] < 128 { Some(i + 1) } else { vend(s, i + 1) }
}
pub open spec fn udec(s: Seq<u8>) -> Option<(u64, nat)> {
    match vend(s, 0) { Some(k) => Some(((vval(s.take(k as int)) % 0x1_0000_0000_0000_0000) as u64, k)), None => None }
}
pub enum VS { Done(nat), Eof, TooLong }
pub open spec fn vscan(inp: Seq<u8>, i: nat, max: nat) -> VS decreases max - i {
    if i > 0 && i <= inp.len() && inp[i - 1] < 128 { VS::Done(i) }
    else if i >= inp.len() { VS::Eof }
    else if i >= max { VS::TooLong }
    else { vscan(inp, i + 1, max) }
}
pub open spec fn vi_max<VI>() -> nat { ((vstd::layout::size_of::<VI>() * 8 + 7) / 7) as nat }
pub enum VR<VI> { Ok(VI, nat), Err(ErrorKind) }
/// what reading one varint of type VI from `inp` gives: value and bytes consumed
pub open spec fn vread<VI: VarInt>(inp: Seq<u8>) -> VR<VI> {
    match vscan(inp, 0, vi_max::<VI>()) {
        VS::Done(k) => match VI::vi_dec(inp.take(k as int)) { Some((v, _)) => VR::Ok(v, k), None => VR::Err(ErrorKind::UnexpectedEof) },
        VS::Eof => VR::Err(ErrorKind::UnexpectedEof),
        VS::TooLong => VR::Err(ErrorKind::InvalidData),
    }
}

// ------------------------------------------------------------------ reader state and parsers
#[verifier::ext_equal]
pub struct St { pub inp: Seq<u8>, pub last: i16, pub stack: Seq<i16>, pub pend: Option<bool>, pub rem: usize }
pub enum PR<V> { Ok(V, St), Err(EK) }

pub open spec fn ok_val<T: DV>(r: Result<T, Error>, p: PR<T::V>, new: St) -> bool {
    r is Ok ==> p == PR::<T::V>::Ok(r->Ok_0.dv(), new)
}
pub open spec fn ok_err<T: DV>(r: Result<T, Error>, p: PR<T::V>, fault: Option<ErrorKind>) -> bool {
    r is Err ==> (p == PR::<T::V>::Err(ek(r->Err_0))
        || (fault is Some && ek(r->Err_0) == io_ek(fault->0))
        || (oom() && ek(r->Err_0) == e_size()))
}

pub open spec fn adv(st: St, k: int) -> St { St { inp: st.inp.skip(k), ..st } }
//#def
pub open spec fn p_byte(st: St) -> PR<u8> { if st.inp.len() >= 1 { PR::Ok(st.inp[0], adv(st, 1)) } else { PR::Err(e_eof()) } }
//#def
pub open spec fn p_vi<VI: VarInt>(st: St) -> PR<VI> {
    match vread::<VI>(st.inp) { VR::Ok(v, k) => PR::Ok(v, adv(st, k as int)), VR::Err(k) => PR::Err(io_ek(k)) }
}
//#def
pub open spec fn p_charge(st: St, n: nat) -> PR<()> { if n <= st.rem { PR::Ok((), St { rem: (st.rem - n) as usize, ..st }) } else { PR::Err(e_size()) } }
//#def
pub open spec fn p_i8(st: St) -> PR<i8> { match p_byte(st) { PR::Ok(b, s) => PR::Ok(b as i8, s), PR::Err(e) => PR::Err(e) } }
//#def
pub open spec fn p_bytes(st: St) -> PR<Seq<u8>> {
    match p_vi::<u32>(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(n, s) => match p_charge(s, n as nat) {
            PR::Err(e) => PR::Err(e),
            PR::Ok(_, s) => if s.inp.len() < n { PR::Err(e_eof()) } else { PR::Ok(s.inp.take(n as int), adv(s, n as int)) },
        },
    }
}
pub open spec fn p_vecu8(st: St) -> PR<Seq<u8>> { p_bytes(st) }
//#def
pub open spec fn p_string(st: St) -> PR<Seq<char>> {
    match p_bytes(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(b, s) => if valid_utf8(b) { PR::Ok(decode_utf8(b), s) } else { PR::Err(e_data()) },
    }
}
//#def
pub open spec fn p_double(st: St) -> PR<f64> { if st.inp.len() >= 8 { PR::Ok(le_f64(st.inp.take(8)), adv(st, 8)) } else { PR::Err(e_eof()) } }
//#def
pub open spec fn p_bool(st: St) -> PR<bool> {
    match st.pend {
        Some(b) => PR::Ok(b, St { pend: None, ..st }),
        None => match p_byte(st) {
            PR::Err(e) => PR::Err(e),
            PR::Ok(b, s) => if b == 1 { PR::Ok(true, s) } else if b == 2 { PR::Ok(false, s) } else { PR::Err(e_data()) },
        },
    }
}
/// compact-protocol type codes of field headers
pub open spec fn ttype_of(b: u8) -> Option<TType> {
    if b == 0 { Some(TType::Stop) } else if b == 3 { Some(TType::I08) } else if b == 4 { Some(TType::I16) } else if b == 5 { Some(TType::I32) }
    else if b == 6 { Some(TType::I64) } else if b == 7 { Some(TType::Double) } else if b == 8 { Some(TType::String) } else if b == 9 { Some(TType::List) }
    else if b == 10 { Some(TType::Set) } else if b == 11 { Some(TType::Map) } else if b == 12 { Some(TType::Struct) } else { None }
}
pub open spec fn ctype_of(b: u8) -> Option<TType> { if b == 1 { Some(TType::Bool) } else { ttype_of(b) } }
pub open spec fn p_unit(st: St) -> PR<()> { PR::Ok((), st) }
//#def
pub open spec fn p_struct_begin(st: St) -> PR<Option<()>> {
    match p_charge(st, 2) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(None, St { stack: s.stack.push(s.last), last: 0, ..s }) }
}
//#def
pub open spec fn p_struct_end(st: St) -> PR<()> { PR::Ok((), St { last: st.stack.last(), stack: st.stack.drop_last(), ..st }) }
//#def
pub open spec fn p_field_begin(st: St) -> PR<FV> {
    match p_byte(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(h, s) => {
            let lo = (h % 16) as u8;
            let delta = (h / 16) as u8;
            let s = if lo == 1 { St { pend: Some(true), ..s } } else if lo == 2 { St { pend: Some(false), ..s } } else { s };
            let ty = if lo == 1 || lo == 2 { Some(TType::Bool) } else { ttype_of(lo) };
            match ty {
                None => PR::Err(e_data()),
                Some(ty) => if ty == TType::Stop { PR::Ok(FV { ty, id: None }, s) }
                    else if delta != 0 {
                        if s.last + delta > 32767 { PR::Err(e_depth()) } else { PR::Ok(FV { ty, id: Some((s.last + delta) as i16) }, St { last: (s.last + delta) as i16, ..s }) }
                    } else {
                        match p_vi::<i16>(s) { PR::Err(e) => PR::Err(e), PR::Ok(id, s) => PR::Ok(FV { ty, id: Some(id) }, St { last: id, ..s }) }
                    },
            }
        },
    }
}
//#def
pub open spec fn p_list_begin(st: St) -> PR<LV> {
    match p_byte(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(h, s) => match ctype_of((h % 16) as u8) {
            None => PR::Err(e_data()),
            Some(ty) => match (if h / 16 != 15 { PR::Ok((h / 16) as u32, s) } else { p_vi::<u32>(s) }) {
                PR::Err(e) => PR::Err(e),
                PR::Ok(n, s) => match p_charge(s, (8 * n) as nat) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(LV { ty, size: n }, s) },
            },
        },
    }
}
//#def
pub open spec fn p_map_begin(st: St) -> PR<MV> {
    match p_vi::<u32>(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(n, s) => if n == 0 { PR::Ok(MV { k: None, v: None, size: 0 }, s) } else {
            match p_byte(s) {
                PR::Err(e) => PR::Err(e),
                PR::Ok(h, s) => match (ctype_of((h / 16) as u8), ctype_of((h % 16) as u8)) {
                    (Some(k), Some(v)) => match p_charge(s, (8 * n) as nat) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(MV { k: Some(k), v: Some(v), size: n }, s) },
                    _ => PR::Err(e_data()),
                },
            }
        },
    }
}
pub open spec fn mtype_of(b: u8) -> Option<TMessageType> {
    if b == 1 { Some(TMessageType::Call) } else if b == 2 { Some(TMessageType::Reply) } else if b == 3 { Some(TMessageType::Exception) } else if b == 4 { Some(TMessageType::OneWay) } else { None }
}
pub open spec fn mcode(t: TMessageType) -> u8 { match t { TMessageType::Call => 1, TMessageType::Reply => 2, TMessageType::Exception => 3, TMessageType::OneWay => 4 } }
//#def
pub open spec fn p_msg_begin(st: St) -> PR<MsgV> {
    match p_byte(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(b0, s) => if b0 != 0x82 { PR::Err(EK::P(ProtocolErrorKind::BadVersion)) } else {
            match p_byte(s) {
                PR::Err(e) => PR::Err(e),
                PR::Ok(b1, s) => if b1 % 32 != 1 { PR::Err(EK::P(ProtocolErrorKind::BadVersion)) } else {
                    match mtype_of((b1 / 32) as u8) {
                        None => PR::Err(e_data()),
                        Some(ty) => match p_vi::<u32>(s) {
                            PR::Err(e) => PR::Err(e),
                            PR::Ok(seq, s) => match p_string(s) { PR::Err(e) => PR::Err(e), PR::Ok(name, s) => PR::Ok(MsgV { name, ty, seq }, St { last: 0, ..s }) },
                        },
                    }
                },
            }
        },
    }
}
/// n elements, one after the other
pub open spec fn p_n<V>(st: St, n: nat, acc: Seq<V>, d: spec_fn(St) -> PR<V>) -> PR<Seq<V>> decreases n {
    if n == 0 { PR::Ok(acc, st) } else { match d(st) { PR::Err(e) => PR::Err(e), PR::Ok(v, s) => p_n(s, (n - 1) as nat, acc.push(v), d) } }
}
//#def
pub open spec fn p_list<V>(st: St, d: spec_fn(St) -> PR<V>) -> PR<Seq<V>> {
    match p_list_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(l, s) => p_n(s, l.size as nat, Seq::empty(), d) }
}

// ------------------------------------------------------------------ skipping
#[verifier::opaque]
pub open spec fn p_skip(st: St, ty: TType, depth: nat) -> PR<()> decreases depth, 0nat, 0nat {
    if depth == 0 { PR::Err(e_depth()) } else { match ty {
        TType::Bool => un(p_bool(st)), TType::I08 => un(p_i8(st)), TType::I16 => un(p_vi::<i16>(st)), TType::I32 => un(p_vi::<i32>(st)), TType::I64 => un(p_vi::<i64>(st)),
        TType::Double => un(p_double(st)), TType::String => un(p_bytes(st)),
        TType::Struct => match p_struct_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => p_skip_fields(s, (depth - 1) as nat) },
        TType::List | TType::Set => match p_list_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(l, s) => p_skip_n(s, l.size as nat, l.ty, (depth - 1) as nat) },
        TType::Map => match p_map_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(m, s) => p_skip_kv(s, m.size as nat, m.k->0, m.v->0, (depth - 1) as nat) },
        _ => PR::Err(e_unk()),
    } }
}
pub open spec fn un<V>(p: PR<V>) -> PR<()> { match p { PR::Ok(_, s) => PR::Ok((), s), PR::Err(e) => PR::Err(e) } }
#[verifier::opaque]
pub open spec fn p_skip_fields(st: St, depth: nat) -> PR<()> decreases depth, 1nat, st.inp.len() {
    match p_field_begin(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(f, s) => if f.ty == TType::Stop { p_struct_end(s) } else {
            match p_skip(s, f.ty, depth) {
                PR::Err(e) => PR::Err(e),
                PR::Ok(_, s2) => if s2.inp.len() < st.inp.len() { p_skip_fields(s2, depth) } else { PR::Err(EK::Fuel) },
            }
        },
    }
}
#[verifier::opaque]
pub open spec fn p_skip_n(st: St, n: nat, ty: TType, depth: nat) -> PR<()> decreases depth, 1nat, n {
    if n == 0 { PR::Ok((), st) } else { match p_skip(st, ty, depth) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => p_skip_n(s, (n - 1) as nat, ty, depth) } }
}
#[verifier::opaque]
pub open spec fn p_skip_kv(st: St, n: nat, k: TType, v: TType, depth: nat) -> PR<()> decreases depth, 1nat, n {
    if n == 0 { PR::Ok((), st) } else { match p_skip(st, k, depth) { PR::Err(e) => PR::Err(e),
        PR::Ok(_, s) => match p_skip(s, v, depth) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => p_skip_kv(s, (n - 1) as nat, k, v, depth) } } }
}

// ------------------------------------------------------------------ writer state and transformers
#[verifier::ext_equal]
pub struct OSt { pub out: Seq<u8>, pub last: i16, pub stack: Seq<i16>, pub pend: Option<Option<i16>> }
pub open spec fn tcode(t: TType) -> u8 {
    match t { TType::Stop => 0, TType::I08 => 3, TType::I16 => 4, TType::I32 => 5, TType::I64 => 6, TType::Double => 7, TType::String => 8, TType::List => 9, TType::Set => 10, TType::Map => 11, TType::Struct => 12, _ => 255 }
}
pub open spec fn ccode(t: TType) -> u8 { match t { TType::Bool => 1, _ => tcode(t) } }
pub open spec fn tvalid(t: TType) -> bool { tcode(t) != 255 }
pub open spec fn cvalid(t: TType) -> bool { ccode(t) != 255 }
//#def
pub open spec fn w_raw(o: OSt, b: Seq<u8>) -> OSt { OSt { out: o.out + b, ..o } }
pub open spec fn w_byte(o: OSt, b: u8) -> OSt { w_raw(o, seq![b]) }
//#def
pub open spec fn hdr(last: i16, code: u8, id: i16) -> Seq<u8> {
    if 0 < id - last < 15 { seq![((id - last) * 16 + code) as u8] } else { seq![code] + ienc(id as int) }
}
//#def
pub open spec fn w_hdr(o: OSt, code: u8, id: i16) -> OSt { OSt { out: o.out + hdr(o.last, code, id), last: id, ..o } }
pub open spec fn w_field_begin(o: OSt, ty: TType, id: i16) -> OSt {
    if ty == TType::Bool { OSt { pend: Some(Some(id)), ..o } } else { w_hdr(o, tcode(ty), id) }
}
pub open spec fn w_bool(o: OSt, b: bool) -> OSt {
    match o.pend { Some(Some(id)) => w_hdr(OSt { pend: None, ..o }, if b { 1 } else { 2 }, id), _ => w_byte(o, if b { 1 } else { 2 }) }
}
//#def
pub open spec fn bytes_enc(b: Seq<u8>) -> Seq<u8> { uenc(b.len()) + b }
pub open spec fn w_bytes(o: OSt, b: Seq<u8>) -> OSt { w_raw(o, bytes_enc(b)) }
pub open spec fn w_string(o: OSt, s: Seq<char>) -> OSt { w_bytes(o, encode_utf8(s)) }
pub open spec fn w_i8(o: OSt, v: i8) -> OSt { w_byte(o, v as u8) }
pub open spec fn w_int(o: OSt, v: int) -> OSt { w_raw(o, ienc(v)) }
pub open spec fn w_double(o: OSt, f: f64) -> OSt { w_raw(o, f64_le(f)) }
//#def
pub open spec fn list_hdr(ty: TType, n: nat) -> Seq<u8> {
    if n <= 14 { seq![(n * 16 + ccode(ty)) as u8] } else { seq![(0xF0 + ccode(ty)) as u8] + uenc(n) }
}
pub open spec fn w_list_begin(o: OSt, ty: TType, n: nat) -> OSt { w_raw(o, list_hdr(ty, n)) }
pub open spec fn map_hdr(k: Option<TType>, v: Option<TType>, n: nat) -> Seq<u8> {
    if n == 0 { seq![0u8] } else { uenc(n) + seq![(ccode(k->0) * 16 + ccode(v->0)) as u8] }
}
pub open spec fn w_map_begin(o: OSt, k: Option<TType>, v: Option<TType>, n: nat) -> OSt { w_raw(o, map_hdr(k, v, n)) }
//#def
pub open spec fn w_struct_begin(o: OSt) -> OSt { OSt { stack: o.stack.push(o.last), last: 0, ..o } }
//#def
pub open spec fn w_struct_end(o: OSt) -> OSt { OSt { last: o.stack.last(), stack: o.stack.drop_last(), ..o } }
pub open spec fn msg_hdr(ty: TMessageType, seq: u32, name: Seq<char>) -> Seq<u8> {
    seq![0x82u8] + (seq![(mcode(ty) * 32 + 1) as u8] + (uenc(seq as nat) + bytes_enc(encode_utf8(name))))
}
pub open spec fn w_msg_begin(o: OSt, ty: TMessageType, seq: u32, name: Seq<char>) -> OSt { w_raw(o, msg_hdr(ty, seq, name)) }
/// errors a writer may report: the sink's own failure, or a length that does not fit the wire format
pub open spec fn w_err(e: Error, werr: Set<ErrorKind>, fits: bool) -> bool {
    io_in(ek(e), werr) || (!fits && ek(e) == e_data())
}
//#def
pub open spec fn io_in(e: EK, werr: Set<ErrorKind>) -> bool { exists|k: ErrorKind| #[trigger] werr.contains(k) && e == io_ek(k) }
pub open spec fn fits(n: nat) -> bool { n <= 0xFFFF_FFFF }
/// the bytes emitted between two writer states (count as reported by the API)
pub open spec fn grew(r: Result<usize, Error>, old: OSt, new: OSt) -> bool {
    &&& r is Ok ==> r->Ok_0 == new.out.len() - old.out.len()
}
pub open spec fn out_ok(old: OSt, new: OSt) -> bool { new.out == old.out || new.out.len() <= usize::MAX }

/// C13: `a` is a prefix of `b`; `n` lies between the bytes before a call and the bytes of a call that succeeds
//#def
pub open spec fn pfx(a: Seq<u8>, b: Seq<u8>) -> bool { a.len() <= b.len() && (forall|i: int| #![trigger a[i]] #![trigger b[i]] 0 <= i < a.len() ==> a[i] == b[i]) }
pub open spec fn between(a: Seq<u8>, n: Seq<u8>, b: Seq<u8>) -> bool { pfx(a, n) && pfx(n, b) }
pub open spec fn cut(r: Result<usize, Error>, o: OSt, n: OSt, full: OSt) -> bool { r is Err ==> between(o.out, n.out, full.out) }
pub broadcast proof fn pfx_refl(a: Seq<u8>) ensures #[trigger] pfx(a, a) { reveal(pfx); }
pub broadcast proof fn pfx_trans(a: Seq<u8>, b: Seq<u8>, c: Seq<u8>) requires #[trigger] pfx(a, b), #[trigger] pfx(b, c) ensures pfx(a, c) { reveal(pfx); }
pub broadcast proof fn w_raw_pfx(o: OSt, b: Seq<u8>) ensures pfx(o.out, (#[trigger] w_raw(o, b)).out) { reveal(w_raw); reveal(pfx); }
pub broadcast proof fn w_hdr_pfx(o: OSt, c: u8, id: i16) ensures pfx(o.out, (#[trigger] w_hdr(o, c, id)).out) { reveal(w_hdr); reveal(pfx); }
pub broadcast proof fn w_sb_out(o: OSt) ensures (#[trigger] w_struct_begin(o)).out == o.out { reveal(w_struct_begin); }
pub broadcast proof fn w_se_out(o: OSt) ensures (#[trigger] w_struct_end(o)).out == o.out { reveal(w_struct_end); }
pub broadcast group pfxs { pfx_refl, pfx_trans, w_raw_pfx, w_hdr_pfx, w_sb_out, w_se_out }

pub broadcast proof fn w_raw_pend(o: OSt, b: Seq<u8>) ensures (#[trigger] w_raw(o, b)).pend == o.pend, w_raw(o, b).stack == o.stack { reveal(w_raw); }
pub broadcast proof fn w_hdr_pend(o: OSt, c: u8, id: i16) ensures (#[trigger] w_hdr(o, c, id)).pend == o.pend, w_hdr(o, c, id).stack == o.stack { reveal(w_hdr); }
pub broadcast proof fn w_sb_pend(o: OSt) ensures (#[trigger] w_struct_begin(o)).pend == o.pend, w_struct_begin(o).stack.len() > 0 { reveal(w_struct_begin); }
pub broadcast group pends { w_raw_pend, w_hdr_pend, w_sb_pend }

// ------------------------------------------------------------------ application errors
pub struct AE { pub kind: ApplicationErrorKind, pub message: Seq<char> }
impl DV for crate::thrift::ApplicationError { type V = AE; open spec fn dv(&self) -> AE { AE { kind: self.kind, message: self.message@ } } }
pub open spec fn akind_of(i: i32) -> Option<ApplicationErrorKind> {
    if i == 0 { Some(ApplicationErrorKind::Unknown) } else if i == 1 { Some(ApplicationErrorKind::UnknownMethod) } else if i == 2 { Some(ApplicationErrorKind::InvalidMessageType) }
    else if i == 3 { Some(ApplicationErrorKind::WrongMethodName) } else if i == 4 { Some(ApplicationErrorKind::BadSequenceId) } else if i == 5 { Some(ApplicationErrorKind::MissingResult) }
    else if i == 6 { Some(ApplicationErrorKind::InternalError) } else if i == 7 { Some(ApplicationErrorKind::ProtocolError) } else if i == 8 { Some(ApplicationErrorKind::InvalidTransform) }
    else if i == 9 { Some(ApplicationErrorKind::InvalidProtocol) } else if i == 10 { Some(ApplicationErrorKind::UnsupportedClientType) } else { None }
}
pub open spec fn acode(k: ApplicationErrorKind) -> int {
    match k {
        ApplicationErrorKind::Unknown => 0, ApplicationErrorKind::UnknownMethod => 1, ApplicationErrorKind::InvalidMessageType => 2, ApplicationErrorKind::WrongMethodName => 3,
        ApplicationErrorKind::BadSequenceId => 4, ApplicationErrorKind::MissingResult => 5, ApplicationErrorKind::InternalError => 6, ApplicationErrorKind::ProtocolError => 7,
        ApplicationErrorKind::InvalidTransform => 8, ApplicationErrorKind::InvalidProtocol => 9, ApplicationErrorKind::UnsupportedClientType => 10,
    }
}
pub open spec fn pkind_of(i: i32) -> Option<ProtocolErrorKind> {
    if i == 0 { Some(ProtocolErrorKind::Unknown) } else if i == 1 { Some(ProtocolErrorKind::InvalidData) } else if i == 2 { Some(ProtocolErrorKind::NegativeSize) }
    else if i == 3 { Some(ProtocolErrorKind::SizeLimit) } else if i == 4 { Some(ProtocolErrorKind::BadVersion) } else if i == 5 { Some(ProtocolErrorKind::NotImplemented) }
    else if i == 6 { Some(ProtocolErrorKind::DepthLimit) } else { None }
}
pub open spec fn tkind_of(i: i32) -> Option<TransportErrorKind> {
    if i == 0 { Some(TransportErrorKind::Unknown) } else if i == 1 { Some(TransportErrorKind::NotOpen) } else if i == 2 { Some(TransportErrorKind::AlreadyOpen) }
    else if i == 3 { Some(TransportErrorKind::TimedOut) } else if i == 4 { Some(TransportErrorKind::EndOfFile) } else if i == 5 { Some(TransportErrorKind::NegativeSize) }
    else if i == 6 { Some(TransportErrorKind::SizeLimit) } else { None }
}
pub open spec fn general_msg() -> Seq<char> { "general remote error"@ }
pub open spec fn p_app(st: St) -> PR<AE> {
    match p_struct_begin(st) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => p_app_loop(s, AE { kind: ApplicationErrorKind::Unknown, message: general_msg() }) }
}
pub open spec fn p_app_loop(st: St, a: AE) -> PR<AE> decreases st.inp.len() {
    match p_field_begin(st) {
        PR::Err(e) => PR::Err(e),
        PR::Ok(f, s) => if f.ty == TType::Stop { match p_struct_end(s) { PR::Err(e) => PR::Err(e), PR::Ok(_, s) => PR::Ok(a, s) } }
            else if f.id->0 == 1 { match p_string(s) { PR::Err(e) => PR::Err(e), PR::Ok(m, s2) => if s2.inp.len() < st.inp.len() { p_app_loop(s2, AE { message: m, ..a }) } else { PR::Err(EK::Fuel) } } }
            else if f.id->0 == 2 { match p_vi::<i32>(s) { PR::Err(e) => PR::Err(e), PR::Ok(k, s2) => if s2.inp.len() < st.inp.len() {
                p_app_loop(s2, AE { kind: match akind_of(k) { Some(k) => k, None => ApplicationErrorKind::Unknown }, ..a }) } else { PR::Err(EK::Fuel) } } }
            else { match p_skip(s, f.ty, 64) { PR::Err(e) => PR::Err(e), PR::Ok(_, s2) => if s2.inp.len() < st.inp.len() { p_app_loop(s2, a) } else { PR::Err(EK::Fuel) } } },
    }
}
pub open spec fn w_app(o: OSt, a: AE) -> OSt {
    let o = w_struct_begin(o);
    let o = w_string(w_field_begin(o, TType::String, 1), a.message);
    let o = w_int(w_field_begin(o, TType::I32, 2), acode(a.kind));
    w_struct_end(w_byte(o, 0))
}
} // theory
