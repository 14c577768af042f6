//! One bounded, concrete check per property; cases are numbered and depend only on (property, seed, number).
use crate::gen::*;
use crate::io::*;
use crate::refc::*;
use crate::rng::*;
use crate::schema::*;
use crate::tree::{self, Node, Op};
use crate::val::Val;
use crate::{tree_async as ta, tree_sync as ts};
use futures::executor::block_on;
use parquet_format_safe::thrift as t;
use std::io::ErrorKind;
use std::panic::{catch_unwind, AssertUnwindSafe};
use t::protocol::*;
use t::varint::*;

pub type Res = Result<(), String>;
pub struct Cx { pub idx: u64, pub r: Rng, pub evals: u64, pub shape: u64 }
macro_rules! ensure { ($c:expr, $($a:tt)*) => { if !$c { return Err(format!($($a)*)); } } }
pub fn hex(b: &[u8]) -> String { let mut s = String::new(); for x in b.iter().take(4000) { s.push_str(&format!("{:02x}", x)); } if b.len() > 4000 { s.push_str(&format!("...({} bytes)", b.len())); } s }
fn short(v: &impl std::fmt::Debug) -> String { let s = format!("{:?}", v); if s.len() > 1500 { format!("{}...", &s.chars().take(1500).collect::<String>()) } else { s } }
fn guard<T>(what: &str, f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| format!("{} panicked: {}", what, e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default()))
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Via { Inherent, Trait, List, Boxed }
pub const VIAS: &[Via] = &[Via::Inherent, Via::Inherent, Via::Trait, Via::List, Via::Boxed];
#[derive(Debug, PartialEq, Clone)]
pub struct Out { pub r: DR<Val>, pub used: usize }
pub fn run_sync(ty: usize, s: &mut Src, budget: usize, via: Via) -> Out {
    let r = match via {
        Via::Inherent => rs(ty, &mut TCompactInputProtocol::new(&mut *s, budget)),
        Via::Trait => rs_trait(ty, &mut TCompactInputProtocol::new(&mut *s, budget)),
        Via::List => rs_list(ty, &mut TCompactInputProtocol::new(&mut *s, budget)),
        Via::Boxed => rs(ty, &mut Box::new(TCompactInputProtocol::new(&mut *s, budget))),
    };
    Out { r: r.map_err(|e| ek(&e)), used: s.pos }
}
pub fn run_async(ty: usize, s: &mut Src, budget: usize, via: Via) -> Out {
    let r = { let mut p = TCompactInputStreamProtocol::new(&mut *s, budget);
        match via { Via::Inherent | Via::Boxed => block_on(ra(ty, &mut p)), Via::Trait => block_on(ra_trait(ty, &mut p)), Via::List => block_on(ra_list(ty, &mut p)) } };
    Out { r: r.map_err(|e| ek(&e)), used: s.pos }
}
/// reference outcome and budget spent
pub fn run_ref(ty: usize, d: &[u8], budget: usize, via: Via, eof: EK) -> (Out, usize) {
    let mut p = Rd { eof, ..Rd::new(d, budget) };
    let r = if via == Via::List { p.list_of(ty) } else { p.named(ty) };
    (Out { r, used: p.pos }, budget - p.rem)
}
fn same(a: &Out, b: &Out) -> bool { a.r == b.r && (a.r.is_err() || a.used == b.used) }
pub fn write_sync(ty: usize, v: &Val, s: &mut Sink) -> DR<usize> { ws(ty, v, &mut TCompactOutputProtocol::new(s)).map_err(|e| ek(&e)) }
pub fn write_async(ty: usize, v: &Val, s: &mut Sink) -> DR<usize> { block_on(async { wa(ty, v, &mut TCompactOutputStreamProtocol::new(s)).await }).map_err(|e| ek(&e)) }
fn wtree(n: &Node, s: &mut Sink) -> DR<usize> { ts::write(n, &mut TCompactOutputProtocol::new(s)).map_err(|e| ek(&e)) }
fn wtree_a(n: &Node, s: &mut Sink) -> DR<usize> { block_on(async { ta::write(n, &mut TCompactOutputStreamProtocol::new(s)).await }).map_err(|e| ek(&e)) }

fn ty_of(cx: &mut Cx) -> usize { let n = TYPES.len(); let i = cx.idx as usize; if (i / n) % 3 == 2 { type_index(*cx.r.pick(&["FileMetaData", "FileMetaData", "RowGroup", "ColumnChunk", "ColumnMetaData", "SchemaElement", "PageHeader", "LogicalType", "ColumnIndex"])) } else { i % n } }
fn val_of(cx: &mut Cx, ty: usize) -> Val { let mut fuel = *cx.r.pick(&[5, 30, 30, 120, 400]); gen_named(&mut cx.r, ty, &mut fuel) }
fn tyval(cx: &mut Cx) -> (usize, Val) { let ty = ty_of(cx); let v = val_of(cx, ty); cx.shape = mix(ty as u64, shape(&v)); (ty, v) }
fn shape(v: &Val) -> u64 { match v { Val::Struct(f) => f.iter().fold(7, |a, x| mix(a, x.as_ref().map_or(1, shape))), Val::Union(k, x) => mix(*k as u64, shape(x)), Val::List(x) => mix(x.len().min(20) as u64, x.iter().take(4).fold(3, |a, x| mix(a, shape(x)))), Val::Bin(b) => b.len().min(200) as u64, Val::Str(b) => b.len().min(200) as u64, Val::I32(x) => zz(*x as i64).leading_zeros() as u64, Val::I64(x) => zz(*x).leading_zeros() as u64, Val::I16(x) => zz(*x as i64).leading_zeros() as u64, Val::Bool(b) => *b as u64, Val::I8(x) => *x as u64 } }
fn node_of(cx: &mut Cx) -> Node { let tt = ALL[cx.idx as usize % ALL.len()]; let d = cx.r.range(1, 4); let n = if cx.r.chance(1, 12) { let top = if cx.r.chance(1, 8) { 150 } else { 40 }; let d = cx.r.range(4, top); tree::chain(&mut cx.r, d) } else { tree::random(&mut cx.r, tt, d) }; let mut b = vec![]; n.encode(&mut b); cx.shape = b.iter().fold(1, |a, x| mix(a, *x as u64)); n }
fn enc_node(n: &Node) -> Vec<u8> { let mut b = vec![]; n.encode(&mut b); b }
fn as_list(ty: usize, xs: &[Val]) -> (Val, Vec<u8>) {
    let mut o = vec![];
    list_header(match TYPES[ty].kind { Kind::Enum(_) => TT::I32, _ => TT::Struct }, xs.len(), false, &mut o);
    for x in xs { o.extend(encode(ty, x)); }
    (Val::List(xs.to_vec()), o)
}
fn junk(cx: &mut Cx, d: &mut Vec<u8>) { let n = cx.r.below(20); let j = cx.r.bytes(n); d.extend(j); }
fn expect_read(ty: usize, v: &Val, d: &[u8], len: usize, via: Via, cx: &mut Cx) -> Res {
    let want = Out { r: Ok(v.clone()), used: len };
    let (seed, chunk) = (cx.r.next(), *cx.r.pick(&[0usize, 0, 1, 3]));
    let got = guard("reader", || run_sync(ty, &mut Src::rough(d, chunk, 0, 0, seed), usize::MAX, via))?;
    ensure!(got == want, "{} read back ({:?}) from {} is {} after {} bytes; expected {} after {}", TYPES[ty].name, via, hex(d), short(&got.r), got.used, short(&v), len);
    let got = guard("async reader", || run_async(ty, &mut Src::rough(d, chunk, 0, 0, seed), usize::MAX, via))?;
    ensure!(got == want, "{} read back asynchronously ({:?}) from {} is {} after {} bytes; expected {} after {}", TYPES[ty].name, via, hex(d), short(&got.r), got.used, short(&v), len);
    cx.evals += 2;
    Ok(())
}

/// hostile input for a reader of type ty: mutations of valid encodings, wrong wire types, noise
pub fn hostile(cx: &mut Cx, ty: usize) -> Vec<u8> {
    let v = val_of(cx, ty);
    let r = &mut cx.r;
    let mut d = if r.chance(1, 12) { let n = r.below(60); r.bytes(n) } else if r.chance(1, 8) {
        // plausible fields with arbitrary wire types and ids
        let k = r.below(6);
        let mut items: Vec<Item> = (0..k).map(|_| { let mut it = unknown_item(r, &[]); if r.chance(2, 3) { it.id = r.range(0, 16) as i16; } it }).collect();
        if r.chance(1, 2) { items.sort_by_key(|i| i.id); }
        let mut o = vec![]; put_items(&items, || false, &mut o); o
    } else { let mut o = vec![]; let s = Rng::new(r.next()); let mut s = s; Enc { rng: Some(&mut s), unknown: r.chance(1, 2), permute: true, long: r.chance(1, 2), added: 0 }.named(ty, &v, &mut o); o };
    for _ in 0..r.below(4) {
        if d.is_empty() { break; }
        let i = r.below(d.len());
        match r.below(9) {
            0 => d.truncate(i),
            1 => d[i] = r.next() as u8,
            2 => d[i] ^= 1 << r.below(8),
            3 => { let b = r.next() as u8; d.insert(i, b) }
            4 => { d.remove(i); }
            5 => { let b = *r.pick(&[0x00u8, 0x0c, 0x1c, 0x15, 0x16, 0x19, 0x18, 0x11, 0x12, 0xf9, 0xfc, 0x80, 0xff, 0x7f, 0x81]); d[i] = b }
            6 => { let big = *r.pick(&[127u64, 128, 16384, 0x7fff_ffff, 0xffff_ffff, 0x1_0000_0000, u64::MAX]); let mut e = vec![]; uenc(big, &mut e); d.splice(i..i, e); }
            7 => { let j = r.below(d.len()); let (a, b) = (i.min(j), i.max(j)); let part = d[a..b.min(a + 40)].to_vec(); d.splice(b..b, part); }
            _ => { let n = r.range(1, 12); let c = *r.pick(&[0xffu8, 0x80, 0x00, 0x1c]); d.splice(i..i, vec![c; n]); }
        }
    }
    d
}
/// budgets around the machine widths, for inputs that declare no more than they hold
fn big_budget(r: &mut Rng) -> usize { let k = *r.pick(&[31u32, 32, 32, 32, 33, 40, 48, 63]); let b = (1usize << k).wrapping_add(r.below(40)); match r.below(5) { 0 => b - 20, 1 => usize::MAX - r.below(40), _ => b } }
fn budget_of(r: &mut Rng) -> usize { match r.below(5) { 0 => r.below(20), 1 => r.below(300), 2 => r.below(5000), 3 => 1 << 20, _ => 1 << 16 } }

const OPS: &[Op] = &[Op::MsgBegin, Op::StructBegin, Op::StructEnd, Op::FieldBegin, Op::FieldBegin, Op::Bool, Op::Bytes, Op::I8, Op::I16, Op::I32, Op::I64, Op::Double, Op::Str, Op::Byte, Op::ListBegin, Op::SetBegin, Op::MapBegin, Op::ListU8, Op::ListBool, Op::ListI64, Op::ListStr, Op::ListBin];
/// a call sequence over bytes that often suit it
fn op_case(cx: &mut Cx) -> (Vec<Op>, Vec<u8>) {
    let r = &mut cx.r;
    let (mut ops, mut d, mut depth) = (vec![], vec![], 0);
    for _ in 0..r.range(1, 8) {
        let op = match r.below(4) { 0 => { let tt = if r.chance(1, 20) { TT::Stop } else { *r.pick(ALL) }; if r.chance(1, 2) { Op::Skip(tt) } else { let d = match r.below(3) { 0 => r.int() as i8, _ => r.range(0, 6) as i8 }; Op::SkipDepth(tt, d) } } _ => *r.pick(OPS) };
        if op == Op::StructEnd && depth == 0 { continue; }
        if matches!(op, Op::Skip(_)) && r.chance(1, 8) {
            // around the deepest level that skipping accepts
            let n = r.range(2, 66);
            let n = tree::chain(r, n);
            ops.push(if r.chance(3, 4) { Op::Skip(n.tt()) } else { Op::SkipDepth(n.tt(), r.range(1, 70) as i8) });
            n.encode(&mut d);
            continue;
        }
        match op { Op::StructBegin => depth += 1, Op::StructEnd => depth -= 1, _ => {} }
        ops.push(op);
        let good: Option<Node> = match op {
            Op::Bool => Some(tree::random(r, TT::Bool, 0)), Op::Bytes | Op::Str => Some(tree::random(r, TT::String, 0)), Op::I8 | Op::Byte => Some(tree::random(r, TT::I08, 0)), Op::I16 => Some(tree::random(r, TT::I16, 0)), Op::I32 => Some(tree::random(r, TT::I32, 0)), Op::I64 => Some(tree::random(r, TT::I64, 0)), Op::Double => Some(tree::random(r, TT::Double, 0)),
            Op::Skip(TT::Stop) | Op::SkipDepth(TT::Stop, _) => None,
            Op::Skip(tt) | Op::SkipDepth(tt, _) => Some(tree::random(r, tt, 4)),
            _ => None,
        };
        if let Some(n) = good { n.encode(&mut d); continue; }
        let el = match op { Op::ListU8 => Some(TT::I08), Op::ListBool => Some(TT::Bool), Op::ListI64 => Some(TT::I64), Op::ListStr | Op::ListBin => Some(TT::String), _ => None };
        if let Some(tt) = el { let k = r.len().min(300); list_header(tt, k, r.chance(1, 4), &mut d); for _ in 0..k { tree::random(r, tt, 0).encode(&mut d); } continue; }
        match op {
            Op::ListBegin | Op::SetBegin => { let tt = *r.pick(ALL); let n = r.u32v() as usize >> r.below(32); list_header(tt, n, r.chance(1, 4), &mut d) }
            Op::MapBegin => { let n = r.u32v() >> r.below(32); uenc(n as u64, &mut d); if n > 0 { d.push(code(*r.pick(ALL)) * 16 + code(*r.pick(ALL))); } }
            Op::FieldBegin => { let c = if r.chance(1, 8) { 0 } else { match *r.pick(ALL) { TT::Bool => 1 + r.below(2) as u8, tt => code(tt) } }; if r.chance(1, 2) { d.push(c + 16 * r.range(1, 15) as u8) } else { d.push(c); if c != 0 { ienc(r.i16v() as i64, &mut d) } } }
            Op::MsgBegin => { d.push(if r.chance(1, 12) { 0x80 } else { 0x82 }); let b = r.range(0, 7) as u8 * 32 + if r.chance(1, 12) { 2 } else { 1 }; d.push(b); uenc(r.u32v() as u64, &mut d); let n = r.len(); let s = r.string(n); uenc(s.len() as u64, &mut d); d.extend(s.bytes()); }
            _ => {}
        }
    }
    if r.chance(1, 3) && !d.is_empty() { let i = r.below(d.len()); match r.below(4) { 0 => d.truncate(i), 1 => d[i] = r.next() as u8, 2 => { d.remove(i); } _ => { let b = r.next() as u8; d.insert(i, b) } } }
    let n = r.below(10); let j = r.bytes(n); d.extend(j);
    cx.shape = d.iter().fold(ops.len() as u64, |a, x| mix(a, *x as u64));
    (ops, d)
}
/// outcomes of a call sequence up to and including the first error, with the input position after each call that succeeded
type Trace = Vec<DR<(String, usize)>>;
fn trace_ref(ops: &[Op], d: &[u8], budget: usize) -> (Trace, usize) {
    let mut p = Rd::new(d, budget);
    let mut o = vec![];
    for op in ops { let r = tree::step_ref(*op, &mut p); let bad = r.is_err(); o.push(r.map(|s| (s, p.pos))); if bad { break; } }
    (o, budget - p.rem)
}
/// a source whose position can be watched while the protocol owns a handle on it
struct Watch<'a> { s: &'a std::cell::RefCell<Src<'a>> }
impl<'a> std::io::Read for Watch<'a> { fn read(&mut self, b: &mut [u8]) -> std::io::Result<usize> { self.s.borrow_mut().read(b) } }
struct WatchA<'a> { s: &'a std::sync::Mutex<Src<'a>> }
impl<'a> futures::io::AsyncRead for WatchA<'a> { fn poll_read(self: std::pin::Pin<&mut Self>, cx: &mut std::task::Context<'_>, b: &mut [u8]) -> std::task::Poll<std::io::Result<usize>> { let mut g = self.s.lock().unwrap(); std::pin::Pin::new(&mut *g).poll_read(cx, b) } }
fn trace_sync(ops: &[Op], s: Src, budget: usize, boxed: usize) -> Trace {
    fn go<P: TInputProtocol>(ops: &[Op], p: &mut P, pos: impl Fn() -> usize) -> Trace { let mut o = vec![]; for op in ops { let r = ts::step(*op, p); let bad = r.is_err(); o.push(r.map(|s| (s, pos())).map_err(|e| ek(&e))); if bad { break; } } o }
    let c = std::cell::RefCell::new(s);
    let c: &std::cell::RefCell<Src> = unsafe_free(&c);
    let mut p = TCompactInputProtocol::new(Watch { s: c }, budget);
    let pos = || c.borrow().pos;
    match boxed { 0 => go(ops, &mut p, pos), 1 => go(ops, &mut Box::new(p), pos), _ => go(ops, &mut Box::new(Box::new(p)), pos) }
}
fn unsafe_free<'b, 'a>(c: &'b std::cell::RefCell<Src<'a>>) -> &'b std::cell::RefCell<Src<'b>> where 'a: 'b {
    // RefCell is invariant; the source only borrows its data for reading
    unsafe { std::mem::transmute(c) }
}
fn trace_async(ops: &[Op], s: Src, budget: usize) -> Trace {
    let c = std::sync::Mutex::new(s);
    let c: &std::sync::Mutex<Src> = unsafe { std::mem::transmute::<&std::sync::Mutex<Src>, &std::sync::Mutex<Src>>(&c) };
    let mut p = TCompactInputStreamProtocol::new(WatchA { s: c }, budget);
    let mut o = vec![];
    for op in ops { let r = block_on(ta::step(*op, &mut p)); let bad = r.is_err(); let pos = c.lock().unwrap().pos; o.push(r.map(|s| (s, pos)).map_err(|e| ek(&e))); if bad { break; } }
    o
}

// ================================================================== C01
pub fn c01(cx: &mut Cx) -> Res {
    let (ty, v) = tyval(cx);
    let via = *cx.r.pick(VIAS);
    let (want, xs) = if via == Via::List { let k = cx.r.len().min(40); let xs: Vec<Val> = (0..k).map(|i| if i == 0 { v.clone() } else { val_of(cx, ty) }).collect(); (Val::List(xs.clone()), xs) } else { (v.clone(), vec![v]) };
    let elem = match TYPES[ty].kind { Kind::Enum(_) => TType::I32, _ => TType::Struct };
    let mut s = Sink::new();
    guard("writer", || { let mut p = TCompactOutputProtocol::new(&mut s); if via == Via::List { p.write_list_begin(&TListIdentifier::new(elem, xs.len() as u32))?; } for x in &xs { ws(ty, x, &mut p)?; } if via == Via::List { p.write_list_end()?; } Ok::<(), t::Error>(()) })?.map_err(|e| format!("writing {} {} failed: {:?}", TYPES[ty].name, short(&want), ek(&e)))?;
    let len = s.out.len();
    let mut d = s.out; junk(cx, &mut d);
    expect_read(ty, &want, &d, len, via, cx)?;
    let mut s = Sink::new();
    guard("async writer", || block_on(async { let mut p = TCompactOutputStreamProtocol::new(&mut s); if via == Via::List { p.write_list_begin(&TListIdentifier::new(elem, xs.len() as u32)).await?; } for x in &xs { wa(ty, x, &mut p).await?; } Ok::<(), t::Error>(()) }))?.map_err(|e| format!("writing {} {} asynchronously failed: {:?}", TYPES[ty].name, short(&want), ek(&e)))?;
    let len = s.out.len();
    let mut d = s.out; junk(cx, &mut d);
    expect_read(ty, &want, &d, len, via, cx)?;
    ensure!(self_eq(ty, &xs.first().cloned().unwrap_or_else(|| val_of(cx, ty)).clone(), &xs.first().cloned().unwrap_or_else(|| val_of(cx, ty))) || xs.is_empty(), "{}: a value is not equal to itself or its clone: {}", TYPES[ty].name, short(&want));
    Ok(())
}
// ================================================================== C02
pub fn c02(cx: &mut Cx) -> Res {
    let (chunk, intr, pend, seed) = (*cx.r.pick(&[0usize, 0, 1, 2, 7]), *cx.r.pick(&[0usize, 200]), *cx.r.pick(&[0usize, 300]), cx.r.next());
    let (mut a, mut b) = (Sink::rough(chunk, intr, 0, seed), Sink::rough(chunk, 0, pend, seed));
    let what;
    let (x, y) = match cx.idx % 4 {
        0 | 1 => { let (ty, v) = tyval(cx); what = format!("{} {}", TYPES[ty].name, short(&v)); (guard("writer", || write_sync(ty, &v, &mut a))?, guard("async writer", || write_async(ty, &v, &mut b))?) }
        2 => { let n = node_of(cx); what = short(&n); (guard("writer", || wtree(&n, &mut a))?, guard("async writer", || wtree_a(&n, &mut b))?) }
        _ => { let m = msg_of(cx); what = short(&m); (guard("writer", || wmsg(&m, &mut a))?, guard("async writer", || wmsg_a(&m, &mut b))?) }
    };
    cx.evals += 2;
    ensure!(x == y && a.out == b.out, "writing {}: blocking gave {:?} {}, asynchronous gave {:?} {}", what, x, hex(&a.out), y, hex(&b.out));
    ensure!(x.is_ok(), "writing {} to a sink that accepts everything failed: {:?}", what, x);
    Ok(())
}
fn msg_of(cx: &mut Cx) -> TMessageIdentifier {
    let ty = *cx.r.pick(&[TMessageType::Call, TMessageType::Reply, TMessageType::Exception, TMessageType::OneWay]);
    let n = cx.r.len(); let name = cx.r.string(n); let q = cx.r.u32v();
    cx.shape = mix(q as u64, n as u64 * 4 + u8::from(ty) as u64);
    TMessageIdentifier::new(name, ty, q)
}
fn wmsg(m: &TMessageIdentifier, s: &mut Sink) -> DR<usize> { let mut p = TCompactOutputProtocol::new(s); let mut w = p.write_message_begin(m).map_err(|e| ek(&e))?; w += p.write_message_end().map_err(|e| ek(&e))?; Ok(w) }
fn wmsg_a(m: &TMessageIdentifier, s: &mut Sink) -> DR<usize> { block_on(async { let mut p = TCompactOutputStreamProtocol::new(s); let mut w = p.write_message_begin(m).await.map_err(|e| ek(&e))?; w += p.write_message_end().await.map_err(|e| ek(&e))?; Ok(w) }) }
fn enc_msg(m: &TMessageIdentifier) -> Vec<u8> { let mut o = vec![0x82, u8::from(m.message_type) * 32 + 1]; uenc(m.sequence_number as u64, &mut o); uenc(m.name.len() as u64, &mut o); o.extend(m.name.bytes()); o }
// ================================================================== C03
pub fn c03(cx: &mut Cx) -> Res {
    if cx.idx % 4 == 3 {
        let (ops, d) = op_case(cx);
        let b = budget_of(&mut cx.r);
        let a = guard("reader", || trace_sync(&ops, Src::new(&d), b, 0))?;
        let c = guard("async reader", || trace_async(&ops, Src::new(&d), b))?;
        cx.evals += 2;
        ensure!(a == c, "calls {:?} on {} with budget {}: blocking {}, asynchronous {}", ops, hex(&d), b, short(&a), short(&c));
        return Ok(());
    }
    let ty = ty_of(cx);
    let d = hostile(cx, ty);
    let via = *cx.r.pick(&[Via::Inherent, Via::Inherent, Via::Trait, Via::List]);
    let (_, cost) = run_ref(ty, &d, 1 << 22, via, EOF);
    let b = if cx.r.chance(1, 3) { (cost + cx.r.below(7)).saturating_sub(3) } else { budget_of(&mut cx.r) };
    let a = guard("reader", || run_sync(ty, &mut Src::new(&d), b, via))?;
    let c = guard("async reader", || run_async(ty, &mut Src::new(&d), b, via))?;
    cx.evals += 2;
    cx.shape = d.iter().fold(ty as u64, |a, x| mix(a, *x as u64));
    ensure!(same(&a, &c), "{} ({:?}) from {} with budget {}: blocking {} after {} bytes, asynchronous {} after {} bytes", TYPES[ty].name, via, hex(&d), b, short(&a.r), a.used, short(&c.r), c.used);
    Ok(())
}
// ================================================================== C04
pub fn c04(cx: &mut Cx) -> Res {
    let b = budget_of(&mut cx.r);
    let (chunk, intr, pend, seed) = (*cx.r.pick(&[0usize, 1, 5]), *cx.r.pick(&[0usize, 100]), *cx.r.pick(&[0usize, 100]), cx.r.next());
    match cx.idx % 8 {
        0 | 4 => {
            let (ops, d) = op_case(cx);
            guard("reader", || trace_sync(&ops, Src::rough(&d, chunk, intr, 0, seed), b, (seed % 3) as usize)).map_err(|e| format!("calls {:?} on {} with budget {}: {}", ops, hex(&d), b, e))?;
            guard("async reader", || trace_async(&ops, Src::rough(&d, chunk, 0, pend, seed), b)).map_err(|e| format!("calls {:?} on {} with budget {}: {}", ops, hex(&d), b, e))?;
        }
        1 => {
            let d = app_bytes(cx);
            guard("reader", || t::Error::read_application_error_from_in_protocol(&mut TCompactInputProtocol::new(&d[..], b))).map_err(|e| format!("application error from {} with budget {}: {}", hex(&d), b, e))?.ok();
        }
        2 => {
            let n = cx.r.below(14); let mut d = cx.r.bytes(n); if cx.r.chance(1, 2) { for x in d.iter_mut() { *x |= 0x80; } }
            cx.shape = d.iter().fold(1, |a, x| mix(a, *x as u64));
            macro_rules! each { ($($ty:ty)*) => { $(guard(concat!("varint reader for ", stringify!($ty)), || { let mut s = Src::rough(&d, chunk, intr, 0, seed); (<$ty>::decode_var(&d).map(|x| x.1), s.read_varint::<$ty>().is_ok(), block_on(Src::rough(&d, chunk, 0, pend, seed).read_varint_async::<$ty>()).is_ok()) }).map_err(|e| format!("{} from {}", e, hex(&d)))?;)* } }
            each!(u8 u16 u32 u64 i8 i16 i32 i64);
        }
        3 => {
            // deep nesting
            let k = *cx.r.pick(&[60usize, 63, 64, 65, 66, 130, 5000, 200_000]);
            let unit: &[u8] = *cx.r.pick(&[&[0x1cu8][..], &[0x19], &[0x1a], &[0x01, 0xcc], &[0x01, 0x99], &[0x01, 0xbb]]);
            let mut d = vec![0xfc, 0xff, 0x01]; let start = *cx.r.pick(&[0x0cu8, 0x09, 0x0a, 0x0b]); d[0] = 0xf0 | start; d.remove(2); d[1] = unit[0];
            for _ in 0..k { d.extend_from_slice(unit); }
            let ty = ty_of(cx);
            cx.shape = mix(k as u64, unit[0] as u64 + 256 * ty as u64);
            guard("reader", || run_sync(ty, &mut Src::new(&d), usize::MAX, Via::Inherent)).map_err(|e| format!("{} from {}: {}", TYPES[ty].name, hex(&d), e))?;
            guard("async reader", || run_async(ty, &mut Src::new(&d), usize::MAX, Via::Inherent)).map_err(|e| format!("{} from {}: {}", TYPES[ty].name, hex(&d), e))?;
            let tt = from_code(start).unwrap();
            guard("skip", || { let mut p = TCompactInputProtocol::new(Src::new(&d[1..]), usize::MAX); p.skip(tree::ttype(tt)).is_ok() }).map_err(|e| format!("skipping {:?} in {}: {}", tt, hex(&d[1..]), e))?;
            guard("async skip", || { let mut s = Src::new(&d[1..]); let mut p = TCompactInputStreamProtocol::new(&mut s, usize::MAX); block_on(p.skip(tree::ttype(tt))).is_ok() }).map_err(|e| format!("skipping {:?} in {}: {}", tt, hex(&d[1..]), e))?;
        }
        5 if cx.idx % 64 == 5 => {
            // many fields of a union / a struct
            let ty = ty_of(cx);
            let k = *cx.r.pick(&[128usize, 256, 257, 33_000, 66_000]);
            let (a, b) = *cx.r.pick(&[(&[0x15u8, 0x02][..], 0usize), (&[0x05, 0xd0, 0x0f, 0x02], 0), (&[0x1c, 0x00], 1), (&[0x0c, 0x02, 0x00], 1)]);
            let mut d = vec![]; for _ in 0..k { d.extend_from_slice(a); } d.push(0);
            cx.shape = mix(k as u64, ty as u64 * 2 + b as u64);
            guard("reader", || run_sync(ty, &mut Src::new(&d), usize::MAX, Via::Inherent)).map_err(|e| format!("{} from {} repetitions of {}: {}", TYPES[ty].name, k, hex(a), e))?;
            guard("async reader", || run_async(ty, &mut Src::new(&d), usize::MAX, Via::Inherent)).map_err(|e| format!("{} from {} repetitions of {}: {}", TYPES[ty].name, k, hex(a), e))?;
        }
        _ => {
            let ty = ty_of(cx);
            let d = hostile(cx, ty);
            let via = *cx.r.pick(VIAS);
            let f = if cx.r.chance(1, 5) { Some((cx.r.below(d.len() + 1), *cx.r.pick(KINDS))) } else { None };
            cx.shape = d.iter().fold(ty as u64, |a, x| mix(a, *x as u64));
            guard("reader", || run_sync(ty, &mut Src { fault: f, ..Src::rough(&d, chunk, intr, 0, seed) }, b, via)).map_err(|e| format!("{} ({:?}) from {} with budget {} and fault {:?}: {}", TYPES[ty].name, via, hex(&d), b, f, e))?;
            guard("async reader", || run_async(ty, &mut Src { fault: f, ..Src::rough(&d, chunk, 0, pend, seed) }, b, via)).map_err(|e| format!("{} ({:?}) from {} with budget {} and fault {:?}: {}", TYPES[ty].name, via, hex(&d), b, f, e))?;
        }
    }
    cx.evals += 2;
    Ok(())
}
fn app_bytes(cx: &mut Cx) -> Vec<u8> {
    let r = &mut cx.r;
    let mut items = vec![];
    for _ in 0..r.below(4) {
        let mut it = match r.below(3) { 0 => { let n = r.len(); let s = r.string(n); let mut p = vec![]; uenc(s.len() as u64, &mut p); p.extend(s.bytes()); Item { id: 1, code: 8, payload: p } } 1 => { let mut p = vec![]; let k = if r.chance(2, 3) { r.below(14) as i64 - 1 } else { r.i32v() as i64 }; ienc(k, &mut p); Item { id: 2, code: 5, payload: p } } _ => unknown_item(r, &[1, 2]) };
        if r.chance(1, 25) { it.id = 1 + r.below(2) as i16; }
        items.push(it);
    }
    let mut d = vec![]; put_items(&items, || false, &mut d);
    if r.chance(1, 4) { let i = r.below(d.len()); match r.below(3) { 0 => d.truncate(i), 1 => d[i] = r.next() as u8, _ => d.insert(i, 0xff) } }
    cx.shape = d.iter().fold(1, |a, x| mix(a, *x as u64));
    d
}
// ================================================================== C05
pub fn c05(cx: &mut Cx) -> Res {
    match cx.idx % 4 {
        0 | 1 => {
            // the exact budget is enough, one less is not
            let (ty, v) = tyval(cx);
            let via = *cx.r.pick(VIAS);
            let mut d = vec![];
            let v2 = if via == Via::List { let (l, o) = as_list(ty, &[v.clone(), v.clone()]); d = o; l } else { let s = cx.r.next(); let mut s = Rng::new(s); Enc { rng: Some(&mut s), unknown: cx.r.chance(1, 2), permute: false, long: cx.r.chance(1, 2), added: 0 }.named(ty, &v, &mut d); v };
            let (o, cost) = run_ref(ty, &d, usize::MAX, via, EOF);
            assert!(o.r == Ok(v2.clone()), "reference reader: {:?} {:?}", o.r, v2);
            budget_line(ty, &d, via, cost, cx)?;
        }
        2 => {
            let (ops, d) = op_case(cx);
            let (full, cost) = trace_ref(&ops, &d, 1 << 40);
            let b = match cx.r.below(3) { 0 => cost, 1 => cost.saturating_sub(1), _ => budget_of(&mut cx.r) };
            let (want, _) = trace_ref(&ops, &d, b);
            if full.iter().all(|x| x.is_ok()) && b >= cost { ensure!(want.len() == full.len(), "reference budget"); }
            // big declared lists are only read when the budget forbids them or the input provides for them
            if b > (1 << 22) { return Ok(()); }
            let got = guard("reader", || trace_sync(&ops, Src::new(&d), b, 0))?;
            let got2 = guard("async reader", || trace_async(&ops, Src::new(&d), b))?;
            cx.evals += 2;
            let size = |t: &Trace| t.last() == Some(&Err(SIZE));
            ensure!(size(&got) == size(&want), "calls {:?} on {} with budget {} (needs {}): blocking reader {}, expected {}", ops, hex(&d), b, cost, short(&got), short(&want));
            ensure!(size(&got2) == size(&want), "calls {:?} on {} with budget {} (needs {}): asynchronous reader {}, expected {}", ops, hex(&d), b, cost, short(&got2), short(&want));
        }
        _ => hostile_alloc(cx)?,
    }
    Ok(())
}
fn budget_line(ty: usize, d: &[u8], via: Via, cost: usize, cx: &mut Cx) -> Res {
    for (name, f) in [("blocking", run_sync as fn(usize, &mut Src, usize, Via) -> Out), ("asynchronous", run_async)] {
        let o = guard("reader", || f(ty, &mut Src::new(d), cost, via))?;
        ensure!(o.r.is_ok(), "{} ({:?}, {}) from {}: budget {} covers every declared size, yet {:?}", TYPES[ty].name, via, name, hex(d), cost, o.r);
        let more = big_budget(&mut cx.r);
        let o = guard("reader", || f(ty, &mut Src::new(d), more, via))?;
        ensure!(o.r.is_ok(), "{} ({:?}, {}) from {}: budget {} covers every declared size, yet {:?}", TYPES[ty].name, via, name, hex(d), more, o.r);
        cx.evals += 2;
        if cost > 0 {
            for less in [cost - 1, cx.r.below(cost)] {
                let o = guard("reader", || f(ty, &mut Src::new(d), less, via))?;
                ensure!(o.r == Err(SIZE), "{} ({:?}, {}) from {}: declared sizes add up to {}, the budget is {}, yet the read gives {}", TYPES[ty].name, via, name, hex(d), cost, less, short(&o.r));
                cx.evals += 1;
            }
        }
    }
    Ok(())
}
/// a declared size far beyond the budget must be refused before memory is asked for
fn hostile_alloc(cx: &mut Cx) -> Res {
    let ty = ty_of(cx);
    let b = *cx.r.pick(&[0usize, 10, 1000, 4096]);
    let big = *cx.r.pick(&[1u64 << 20, 1 << 24, 1 << 28, (1 << 29) - 1, 1 << 29, (1 << 30) + 5, 0x7fff_ffff, 0xffff_fffe, 0xffff_ffff]);
    // where: in a field of the type, in an unknown field, or directly
    let how = cx.r.below(5);
    let mut d = vec![];
    let (s, a): (DR<()>, DR<()>);
    crate::alloc::reset();
    match how {
        0 | 1 => {
            let fs: Vec<&Field> = match TYPES[ty].kind { Kind::Struct(fs) => fs.iter().filter(|f| matches!(f.ty, Ty::Bin | Ty::Str | Ty::List(_))).collect(), _ => vec![] };
            let (c, id, list) = if how == 0 && !fs.is_empty() { let f = *cx.r.pick(&fs); (code(f.tt), f.id, matches!(f.ty, Ty::List(_))) } else { let l = cx.r.chance(1, 2); (if l { *cx.r.pick(&[9u8, 10]) } else { 8 }, 120, l) };
            field_header(0, c, id, false, &mut d);
            if list { d.push(0xf0 | *cx.r.pick(&[5u8, 8, 12, 1])); }
            uenc(big, &mut d);
            let n = cx.r.below(30); d.extend(cx.r.bytes(n));
            crate::alloc::reset();
            s = guard("reader", || run_sync(ty, &mut Src::new(&d), b, Via::Inherent).r)?.map(|_| ());
            let m1 = crate::alloc::max();
            check_alloc(m1, b, &d, &format!("{} (blocking)", TYPES[ty].name))?;
            crate::alloc::reset();
            a = guard("async reader", || run_async(ty, &mut Src::new(&d), b, Via::Inherent).r)?.map(|_| ());
        }
        2 => {
            d.push(0xf0 | *cx.r.pick(&[5u8, 8, 12]));
            uenc(big, &mut d);
            crate::alloc::reset();
            s = guard("reader", || run_sync(ty, &mut Src::new(&d), b, Via::List).r)?.map(|_| ());
            check_alloc(crate::alloc::max(), b, &d, &format!("list of {} (blocking)", TYPES[ty].name))?;
            crate::alloc::reset();
            a = guard("async reader", || run_async(ty, &mut Src::new(&d), b, Via::List).r)?.map(|_| ());
        }
        _ => {
            let op = *cx.r.pick(&[Op::Bytes, Op::Str, Op::ListU8, Op::ListI64, Op::ListStr, Op::ListBin, Op::MapBegin, Op::ListBegin, Op::SetBegin, Op::Skip(TT::String), Op::Skip(TT::List), Op::Skip(TT::Set), Op::Skip(TT::Map), Op::MsgBegin]);
            match op { Op::Bytes | Op::Str | Op::Skip(TT::String) => {} Op::MapBegin | Op::Skip(TT::Map) => {} Op::MsgBegin => d.extend([0x82, 0x21, 0x00]), _ => d.push(0xf0 | 8) }
            uenc(big, &mut d);
            if matches!(op, Op::MapBegin | Op::Skip(TT::Map)) { d.push(0x88); }
            let n = cx.r.below(30); d.extend(cx.r.bytes(n));
            crate::alloc::reset();
            let f = |t: Trace| t.into_iter().last().unwrap().map(|_| ());
            s = guard("reader", || f(trace_sync(&[op], Src::new(&d), b, 0)))?;
            check_alloc(crate::alloc::max(), b, &d, &format!("{:?} (blocking)", op))?;
            crate::alloc::reset();
            a = guard("async reader", || f(trace_async(&[op], Src::new(&d), b)))?;
        }
    }
    check_alloc(crate::alloc::max(), b, &d, &format!("{} (asynchronous, form {})", TYPES[ty].name, how))?;
    cx.evals += 2;
    cx.shape = d.iter().fold(ty as u64, |a, x| mix(a, *x as u64));
    // an enumeration or a value whose reader never looks at the declared size may fail otherwise
    if !matches!(TYPES[ty].kind, Kind::Enum(_)) || how >= 2 {
        for (n, r) in [("blocking", &s), ("asynchronous", &a)] {
            ensure!(*r == Err(SIZE), "{} with a declared size of {} in {} and budget {}: the {} reader gives {:?} and not a size-limit error", TYPES[ty].name, big, hex(&d), b, n, r);
        }
    }
    Ok(())
}
fn check_alloc(m: usize, b: usize, d: &[u8], what: &str) -> Res {
    let allowed = 64 * b + 32_768;
    ensure!(m <= allowed, "{}: reading {} with a budget of {} asked for {} bytes of memory at once", what, hex(d), b, m);
    Ok(())
}
// ================================================================== C06
pub fn c06(cx: &mut Cx) -> Res {
    let (chunk, intr, pend, seed) = (*cx.r.pick(&[0usize, 0, 1, 4]), *cx.r.pick(&[0usize, 100]), *cx.r.pick(&[0usize, 100]), cx.r.next());
    let (mut a, mut b) = (Sink::rough(chunk, intr, 0, seed), Sink::rough(chunk, 0, pend, seed));
    let what;
    let (x, y) = match cx.idx % 4 {
        0 | 1 => { let (ty, v) = tyval(cx); what = format!("{} {}", TYPES[ty].name, short(&v)); (guard("writer", || write_sync(ty, &v, &mut a))?, guard("async writer", || write_async(ty, &v, &mut b))?) }
        2 => { let n = node_of(cx); what = short(&n); (guard("writer", || wtree(&n, &mut a))?, guard("async writer", || wtree_a(&n, &mut b))?) }
        _ if cx.idx % 8 == 3 => { let m = msg_of(cx); what = short(&m); (guard("writer", || wmsg(&m, &mut a))?, guard("async writer", || wmsg_a(&m, &mut b))?) }
        _ => return each_call_counts(cx),
    };
    cx.evals += 2;
    ensure!(x == Ok(a.out.len()), "writing {}: {} bytes reached the sink, {:?} returned", what, a.out.len(), x);
    ensure!(y == Ok(b.out.len()), "writing {} asynchronously: {} bytes reached the sink, {:?} returned", what, b.out.len(), y);
    Ok(())
}
struct Shared(std::sync::Arc<std::sync::Mutex<Vec<u8>>>);
impl std::io::Write for Shared { fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.lock().unwrap().extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> std::io::Result<()> { Ok(()) } }
impl futures::io::AsyncWrite for Shared {
    fn poll_write(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>, b: &[u8]) -> std::task::Poll<std::io::Result<usize>> { self.0.lock().unwrap().extend_from_slice(b); std::task::Poll::Ready(Ok(b.len())) }
    fn poll_flush(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> { std::task::Poll::Ready(Ok(())) }
    fn poll_close(self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<std::io::Result<()>> { std::task::Poll::Ready(Ok(())) }
}
/// every protocol call on its own returns exactly what it emitted
fn each_call_counts(cx: &mut Cx) -> Res {
    let buf = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let len = || buf.lock().unwrap().len();
    let mut s = TCompactOutputProtocol::new(Shared(buf.clone()));
    let buf2 = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let len2 = || buf2.lock().unwrap().len();
    let mut a = TCompactOutputStreamProtocol::new(Shared(buf2.clone()));
    macro_rules! call { ($m:ident ( $($arg:expr),* ), $($aw:tt)*) => { {
        let n0 = len(); let x = s.$m($($arg),*).map_err(|e| format!("{} failed: {:?}", stringify!($m), ek(&e)))?;
        ensure!(x == len() - n0, "{} emitted {} bytes and returned {}", stringify!($m), len() - n0, x);
        let n0 = len2(); let y = block_on(async { a.$m($($arg),*) $($aw)* }).map_err(|e| format!("{} failed: {:?}", stringify!($m), ek(&e)))?;
        ensure!(y == len2() - n0, "asynchronous {} emitted {} bytes and returned {}", stringify!($m), len2() - n0, y);
        cx.evals += 2;
    } } }
    for _ in 0..cx.r.range(2, 8) {
        match cx.r.below(17) {
            0 => { let m = msg_of(cx); call!(write_message_begin(&m), .await); call!(write_message_end(), .await) }
            1 => { let id = TStructIdentifier::new("x"); call!(write_struct_begin(&id), .await); for _ in 0..cx.r.below(3) { let i = cx.r.i16v(); let tt = *cx.r.pick(ALL); let f = TFieldIdentifier::new("f", tree::ttype(tt), i); call!(write_field_begin(&f), .await); if tt == TT::Bool { let b = cx.r.chance(1, 2); call!(write_bool(b), .await); } call!(write_field_end(),); } call!(write_field_stop(), .await); call!(write_struct_end(),) }
            2 => { let b = cx.r.chance(1, 2); call!(write_bool(b), .await) }
            3 => { let n = cx.r.len(); let b = cx.r.bytes(n); call!(write_bytes(&b), .await) }
            4 => { let i = cx.r.int() as i8; call!(write_i8(i), .await) }
            5 => { let i = cx.r.i16v(); call!(write_i16(i), .await) }
            6 => { let i = cx.r.i32v(); call!(write_i32(i), .await) }
            7 => { let i = cx.r.int(); call!(write_i64(i), .await) }
            8 => { let d = f64::from_bits(cx.r.next()); call!(write_double(d), .await) }
            9 => { let n = cx.r.len(); let st = cx.r.string(n); call!(write_string(&st), .await) }
            10 => { let l = TListIdentifier::new(tree::ttype(*cx.r.pick(ALL)), cx.r.u32v() >> cx.r.below(32)); call!(write_list_begin(&l), .await); call!(write_list_end(), .await) }
            11 => { let l = TSetIdentifier::new(tree::ttype(*cx.r.pick(ALL)), cx.r.u32v() >> cx.r.below(32)); call!(write_set_begin(&l), .await); call!(write_set_end(), .await) }
            12 | 13 => { let n = cx.r.u32v() >> cx.r.below(32); let (k, v) = (tree::ttype(*cx.r.pick(ALL)), tree::ttype(*cx.r.pick(ALL))); let l = if n == 0 { TMapIdentifier::new(None, None, 0) } else { TMapIdentifier::new(k, v, n) }; call!(write_map_begin(&l), .await); call!(write_map_end(), .await) }
            _ => { let b = cx.r.next() as u8; call!(write_byte(b), .await) }
        }
    }
    cx.shape = buf.lock().unwrap().iter().fold(1, |a, x| mix(a, *x as u64));
    Ok(())
}
// ================================================================== C07
pub fn c07(cx: &mut Cx) -> Res {
    let (ty, v) = tyval(cx);
    let seed = cx.r.next();
    let mut er = Rng::new(seed);
    let mut d = vec![];
    let (unknown, permute, long) = (cx.r.chance(4, 5), cx.r.chance(1, 2), cx.r.chance(1, 2));
    Enc { rng: Some(&mut er), unknown, permute, long, added: 0 }.named(ty, &v, &mut d);
    let len = d.len();
    junk(cx, &mut d);
    let via = *cx.r.pick(&[Via::Inherent, Via::Trait, Via::Boxed]);
    expect_read(ty, &v, &d, len, via, cx)
}
// ================================================================== C08
fn required(v: &Val, ty: usize, path: &mut Vec<usize>, out: &mut Vec<Vec<usize>>) {
    match (&TYPES[ty].kind, v) {
        (Kind::Struct(fs), Val::Struct(vs)) => for (k, (f, x)) in fs.iter().zip(vs).enumerate() {
            path.push(k);
            if f.req { out.push(path.clone()); }
            if let Some(x) = x { match (f.ty, x) {
                (Ty::Named(i), x) => required(x, *i, path, out),
                (Ty::List(Ty::Named(i)), Val::List(xs)) => for (j, x) in xs.iter().enumerate() { path.push(j); required(x, *i, path, out); path.pop(); },
                _ => {}
            } }
            path.pop();
        },
        (Kind::Union(fs), Val::Union(k, x)) => if let Ty::Named(i) = fs[*k].ty { path.push(0); required(x, *i, path, out); path.pop(); },
        _ => {}
    }
}
fn blank(v: &mut Val, path: &[usize]) {
    match v {
        Val::Struct(vs) => if path.len() == 1 { vs[path[0]] = None } else { blank(vs[path[0]].as_mut().unwrap(), &path[1..]) },
        Val::List(xs) => blank(&mut xs[path[0]], &path[1..]),
        Val::Union(_, x) => blank(x, &path[1..]),
        _ => unreachable!(),
    }
}
pub fn c08(cx: &mut Cx) -> Res {
    let (ty, v) = tyval(cx);
    let mut paths = vec![];
    required(&v, ty, &mut vec![], &mut paths);
    if paths.is_empty() { // no required field: the value with nothing in it must be readable
        if let Kind::Struct(fs) = TYPES[ty].kind { let v = Val::Struct(fs.iter().map(|_| None).collect()); let mut d = encode(ty, &v); let n = d.len(); junk(cx, &mut d); return expect_read(ty, &v, &d, n, Via::Inherent, cx); }
        return Ok(());
    }
    let top: Vec<Vec<usize>> = paths.iter().filter(|p| p.len() == 1).cloned().collect();
    let mut w = v.clone();
    let p = if !top.is_empty() && cx.r.chance(1, 2) { cx.r.pick(&top).clone() } else { cx.r.pick(&paths).clone() };
    blank(&mut w, &p);
    cx.shape = mix(cx.shape, p.iter().fold(ty as u64, |a, x| mix(a, *x as u64)));
    if cx.r.chance(1, 6) && top.len() > 1 { for p in &top { if cx.r.chance(1, 2) { blank(&mut w, p); } } }
    let mut d = vec![];
    let s = cx.r.next();
    let mut er = Rng::new(s);
    Enc { rng: Some(&mut er), unknown: cx.r.chance(1, 2), permute: cx.r.chance(1, 3), long: cx.r.chance(1, 3), added: 0 }.named(ty, &w, &mut d);
    junk(cx, &mut d);
    let via = *cx.r.pick(&[Via::Inherent, Via::Trait, Via::Boxed]);
    for (n, o) in [("blocking", guard("reader", || run_sync(ty, &mut Src::new(&d), usize::MAX, via))?), ("asynchronous", guard("async reader", || run_async(ty, &mut Src::new(&d), usize::MAX, via))?)] {
        cx.evals += 1;
        ensure!(matches!(o.r, Err(EK::P(_))), "{} from {} lacks the required field at {:?}; the {} reader gives {}", TYPES[ty].name, hex(&d), p, n, short(&o.r));
    }
    // with the fields present it reads
    let mut d = encode(ty, &v); let n = d.len(); junk(cx, &mut d);
    expect_read(ty, &v, &d, n, via, cx)
}
// ================================================================== C09
pub fn c09(cx: &mut Cx) -> Res {
    let unions: Vec<usize> = (0..TYPES.len()).filter(|i| matches!(TYPES[*i].kind, Kind::Union(_))).collect();
    let u = unions[cx.idx as usize % unions.len()];
    let fs = match TYPES[u].kind { Kind::Union(fs) => fs, _ => unreachable!() };
    let ids: Vec<i16> = fs.iter().map(|f| f.id).collect();
    let k = match cx.r.below(12) { 0 => 0, 1 | 2 | 3 => 1, 4 | 5 | 6 => 2, 7 => 3, 8 => 5, 9 => if cx.r.chance(1, 30) { *cx.r.pick(&[65535usize, 65536, 65537, 65538]) } else { 4 }, 10 => *cx.r.pick(&[127usize, 128, 129, 255, 256, 257, 258, 512, 513]), _ => 2 };
    let mut items = vec![];
    let mut first = None;
    let mut known = 0;
    let all_known = cx.r.chance(1, 3);
    let mostly_unknown = k > 2 && cx.r.chance(1, 2);
    for j in 0..k {
        let kn = all_known || (if mostly_unknown { j == 0 || j == k - 1 } else { cx.r.chance(1, 2) });
        if kn { let f = cx.r.below(fs.len()); let v = gen_val(&mut cx.r, fs[f].ty, &mut 8); items.push(Enc::default().item(fs[f].id, fs[f].ty, &v)); known += 1; if first.is_none() { first = Some(Val::Union(f, Box::new(v))); } }
        else if k > 10 { items.push(Item { id: unknown_id(&mut cx.r, &ids), code: 5, payload: vec![2] }); }
        else { items.push(unknown_item(&mut cx.r, &ids)); }
    }
    if k > 1 && mostly_unknown && cx.r.chance(1, 2) { items.rotate_left(1); }
    let mut ub = vec![];
    put_items(&items, || false, &mut ub);
    let want: DR<Val> = if k == 1 && known == 1 { Ok(first.unwrap()) } else { Err(DATA) };
    // alone, or inside a type that has such a field
    let hosts: Vec<(usize, usize)> = (0..TYPES.len()).flat_map(|i| match TYPES[i].kind { Kind::Struct(fs) => fs.iter().enumerate().filter(|(_, f)| matches!(f.ty, Ty::Named(j) if *j == u)).map(|(k, _)| (i, k)).collect::<Vec<_>>(), _ => vec![] }).collect();
    let (ty, mut d, want) = if !hosts.is_empty() && cx.r.chance(1, 3) {
        let (h, f) = *cx.r.pick(&hosts);
        let hv = val_of(cx, h);
        let field = match TYPES[h].kind { Kind::Struct(fs) => &fs[f], _ => unreachable!() };
        let mut hi = Enc::default().items(h, &hv);
        hi.retain(|i| i.id != field.id);
        hi.push(Item { id: field.id, code: 12, payload: ub.clone() });
        hi.sort_by_key(|i| i.id);
        let mut d = vec![]; put_items(&hi, || false, &mut d);
        let want = want.map(|w| match hv { Val::Struct(mut x) => { x[f] = Some(w); Val::Struct(x) } _ => unreachable!() });
        (h, d, want)
    } else { (u, ub, want) };
    let n = d.len();
    junk(cx, &mut d);
    cx.shape = mix(k as u64 * 64 + known as u64, mix(ty as u64, items.first().map_or(0, |i| i.id as u64)));
    let via = *cx.r.pick(&[Via::Inherent, Via::Trait, Via::Boxed]);
    for (name, o) in [("blocking", guard("reader", || run_sync(ty, &mut Src::new(&d), usize::MAX, via))?), ("asynchronous", guard("async reader", || run_async(ty, &mut Src::new(&d), usize::MAX, via))?)] {
        cx.evals += 1;
        let ok = match (&o.r, &want) { (Ok(a), Ok(b)) => a == b && o.used == n, (Err(EK::P(_)), Err(_)) => true, _ => false };
        ensure!(ok, "{} with {} fields of which {} known in the union, from {}: the {} reader gives {} after {} bytes, expected {}", TYPES[ty].name, k, known, hex(&d), name, short(&o.r), o.used, short(&want));
    }
    Ok(())
}
// ================================================================== C10
pub fn c10(cx: &mut Cx) -> Res {
    macro_rules! enc { ($t:ty, $x:expr, $n:expr) => { {
        let (x, n): ($t, u64) = ($x, $n);
        let mut want = vec![]; uenc(n, &mut want);
        let e = guard("encode", || x.encode_var_vec())?;
        ensure!(e == want, "{} {} encodes to {}, expected {}", stringify!($t), x, hex(&e), hex(&want));
        let rs = guard("required_space", || x.required_space())?;
        ensure!(rs == want.len(), "{} {} requires {} bytes, says {}", stringify!($t), x, want.len(), rs);
        let mut buf = [0xAAu8; 16]; let k = guard("encode", || x.encode_var(&mut buf))?;
        ensure!(k == want.len() && buf[..k] == want[..] && buf[k..].iter().all(|b| *b == 0xAA), "{} {} encoded into a slice: {} bytes, {}", stringify!($t), x, k, hex(&buf));
        let mut d = want.clone(); junk(cx, &mut d);
        let got = guard("decode", || <$t>::decode_var(&d))?;
        ensure!(got == Some((x, want.len())), "{} from {} decodes to {:?}, expected {:?}", stringify!($t), hex(&d), got, (x, want.len()));
        let (ch, sd) = (cx.r.below(3), cx.r.next());
        let mut s = Src::rough(&d, ch, 100, 0, sd); let got = guard("read_varint", || s.read_varint::<$t>())?.map_err(|e| e.kind());
        ensure!(got == Ok(x) && s.pos == want.len(), "{} from {} reads {:?} after {} bytes", stringify!($t), hex(&d), got, s.pos);
        let mut s = Src::rough(&d, ch, 0, 100, sd); let got = guard("read_varint_async", || block_on(s.read_varint_async::<$t>()))?.map_err(|e| e.kind());
        ensure!(got == Ok(x) && s.pos == want.len(), "{} from {} reads asynchronously {:?} after {} bytes", stringify!($t), hex(&d), got, s.pos);
        let mut s = Sink::rough(ch, 100, 0, sd); let k = guard("write_varint", || s.write_varint(x))?.map_err(|e| e.kind());
        ensure!(k == Ok(want.len()) && s.out == want, "{} {} writes {} and returns {:?}", stringify!($t), x, hex(&s.out), k);
        let mut s = Sink::rough(ch, 0, 100, sd); let k = guard("write_varint_async", || block_on(s.write_varint_async(x)))?.map_err(|e| e.kind());
        ensure!(k == Ok(want.len()) && s.out == want, "{} {} writes asynchronously {} and returns {:?}", stringify!($t), x, hex(&s.out), k);
        for cut in 0..want.len() { let got = guard("decode", || <$t>::decode_var(&want[..cut]))?; ensure!(got.is_none(), "{} from the unterminated {} decodes to {:?}", stringify!($t), hex(&want[..cut]), got);
            let got = guard("read_varint", || Src::new(&want[..cut]).read_varint::<$t>())?; ensure!(matches!(&got, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "{} from the unterminated {} reads {:?}", stringify!($t), hex(&want[..cut]), got);
            let got = guard("read_varint_async", || block_on(Src::new(&want[..cut]).read_varint_async::<$t>()))?; ensure!(matches!(&got, Err(e) if e.kind() == ErrorKind::UnexpectedEof), "{} from the unterminated {} reads asynchronously {:?}", stringify!($t), hex(&want[..cut]), got); }
        cx.evals += 7;
    } } }
    macro_rules! dec { ($t:ty, $d:expr, $conv:expr) => { {
        let d: &[u8] = $d; let conv: fn(u64) -> $t = $conv;
        let want = udec(d).map(|(n, k)| (conv(n), k));
        let got = guard("decode", || <$t>::decode_var(d))?;
        ensure!(got == want, "{} from {} decodes to {:?}, expected {:?}", stringify!($t), hex(d), got, want);
        let max = (std::mem::size_of::<$t>() * 8 + 7) / 7;
        let (want, len) = match vread(d, max) { Vr::Done(n, k) => (Ok(conv(n)), k), Vr::Eof => (Err(ErrorKind::UnexpectedEof), 0), Vr::TooLong => (Err(ErrorKind::InvalidData), 0) };
        let mut s = Src::new(d); let got = guard("read_varint", || s.read_varint::<$t>())?.map_err(|e| e.kind());
        ensure!(got == want && (got.is_err() || s.pos == len), "{} from {} reads {:?} after {} bytes, expected {:?} after {}", stringify!($t), hex(d), got, s.pos, want, len);
        let mut s = Src::new(d); let got = guard("read_varint_async", || block_on(s.read_varint_async::<$t>()))?.map_err(|e| e.kind());
        ensure!(got == want && (got.is_err() || s.pos == len), "{} from {} reads asynchronously {:?} after {} bytes, expected {:?} after {}", stringify!($t), hex(d), got, s.pos, want, len);
        cx.evals += 3;
    } } }
    if cx.idx % 2 == 0 {
        let x = cx.r.int();
        cx.shape = x as u64;
        match (cx.idx / 2) % 8 {
            0 => enc!(u8, x as u8, x as u8 as u64), 1 => enc!(u16, x as u16, x as u16 as u64), 2 => enc!(u32, x as u32, x as u32 as u64), 3 => enc!(u64, x as u64, x as u64),
            4 => enc!(i8, x as i8, zz(x as i8 as i64)), 5 => enc!(i16, x as i16, zz(x as i16 as i64)), 6 => enc!(i32, x as i32, zz(x as i32 as i64)), _ => enc!(i64, x, zz(x)),
        }
    } else {
        let k = cx.r.below(13);
        let mut d = cx.r.bytes(k);
        let cont = cx.r.below(13).min(d.len()); for b in d[..cont].iter_mut() { *b |= 0x80; }
        if cx.r.chance(1, 4) { for b in d.iter_mut() { *b = (*b & 0x80) | *cx.r.pick(&[0u8, 0x7f, 1, 0x40]); } }
        cx.shape = d.iter().fold(1, |a, x| mix(a, *x as u64));
        dec!(u8, &d, |n| n as u8); dec!(u16, &d, |n| n as u16); dec!(u32, &d, |n| n as u32); dec!(u64, &d, |n| n);
        dec!(i8, &d, |n| unzz(n) as i8); dec!(i16, &d, |n| unzz(n) as i16); dec!(i32, &d, |n| unzz(n) as i32); dec!(i64, &d, |n| unzz(n));
    }
    Ok(())
}
// ================================================================== C11
pub fn c11(cx: &mut Cx) -> Res {
    let (ty, v) = tyval(cx);
    if cx.idx % 5 == 4 { let n = node_of(cx); let want = enc_node(&n);
        let mut s = Sink::new(); let r = guard("writer", || wtree(&n, &mut s))?;
        ensure!(r.is_ok() && s.out == want, "{} is written as {} ({:?}), the compact protocol says {}", short(&n), hex(&s.out), r, hex(&want));
        let mut s = Sink::new(); let r = guard("async writer", || wtree_a(&n, &mut s))?;
        ensure!(r.is_ok() && s.out == want, "{} is written asynchronously as {} ({:?}), the compact protocol says {}", short(&n), hex(&s.out), r, hex(&want));
        cx.evals += 2;
        return Ok(()); }
    let want = encode(ty, &v);
    let mut s = Sink::new();
    let r = guard("writer", || write_sync(ty, &v, &mut s))?;
    ensure!(r.is_ok() && s.out == want, "{} {} is written as {} ({:?}), the format says {}", TYPES[ty].name, short(&v), hex(&s.out), r, hex(&want));
    let mut s = Sink::new();
    let r = guard("async writer", || write_async(ty, &v, &mut s))?;
    ensure!(r.is_ok() && s.out == want, "{} {} is written asynchronously as {} ({:?}), the format says {}", TYPES[ty].name, short(&v), hex(&s.out), r, hex(&want));
    let mut d = want; let n = d.len(); junk(cx, &mut d);
    expect_read(ty, &v, &d, n, Via::Inherent, cx)?;
    // any encoding another conforming writer may choose
    let mut d = vec![]; let sd = cx.r.next(); let mut er = Rng::new(sd);
    Enc { rng: Some(&mut er), unknown: false, permute: cx.r.chance(1, 2), long: true, added: 0 }.named(ty, &v, &mut d);
    let n = d.len(); junk(cx, &mut d);
    expect_read(ty, &v, &d, n, Via::Inherent, cx)?;
    if let (Kind::Enum(vs), Some(f)) = (&TYPES[ty].kind, enum_facts(ty, 0)) { for (a, b) in vs.iter().zip(&f.consts) { ensure!(a == b, "{}::{} is {}, the format says {}", TYPES[ty].name, b.0, b.1, a.1); } }
    Ok(())
}
// ================================================================== C12
pub fn c12(cx: &mut Cx) -> Res {
    let check = |what: &str, d: &[u8], cut: usize, r: DR<()>| -> Res { ensure!(r == Err(EOF), "{}: the first {} of {} bytes {} give {:?} and not an end-of-file error", what, cut, d.len(), hex(d), r); Ok(()) };
    if cx.idx % 3 == 2 {
        let n = node_of(cx);
        let d = enc_node(&n);
        let cuts: Vec<usize> = if d.len() <= 40 { (0..d.len()).collect() } else { (0..20).map(|_| cx.r.below(d.len())).chain([d.len() - 1]).collect() };
        for cut in cuts {
            check(&format!("reading {}", short(&n)), &d, cut, guard("reader", || ts::read(&n, &mut TCompactInputProtocol::new(Src::new(&d[..cut]), usize::MAX)).map(|_| ()).map_err(|e| ek(&e)))?)?;
            check(&format!("reading asynchronously {}", short(&n)), &d, cut, guard("reader", || { let mut s = Src::new(&d[..cut]); let mut p = TCompactInputStreamProtocol::new(&mut s, usize::MAX); block_on(ta::read(&n, &mut p)).map(|_| ()).map_err(|e| ek(&e)) })?)?;
            if n.depth() <= 60 {
            check(&format!("skipping {}", short(&n)), &d, cut, guard("reader", || TCompactInputProtocol::new(Src::new(&d[..cut]), usize::MAX).skip(tree::ttype(n.tt())).map_err(|e| ek(&e)))?)?;
            check(&format!("skipping asynchronously {}", short(&n)), &d, cut, guard("reader", || { let mut s = Src::new(&d[..cut]); let mut p = TCompactInputStreamProtocol::new(&mut s, usize::MAX); block_on(p.skip(tree::ttype(n.tt()))).map_err(|e| ek(&e)) })?)?;
            }
            cx.evals += 4;
        }
        return Ok(());
    }
    let (ty, v) = tyval(cx);
    let via = *cx.r.pick(VIAS);
    let d = if via == Via::List { let k = cx.r.below(4); as_list(ty, &vec![v; k]).1 } else { let mut o = vec![]; let s = cx.r.next(); let mut s = Rng::new(s); Enc { rng: Some(&mut s), unknown: cx.r.chance(1, 3), permute: false, long: cx.r.chance(1, 3), added: 0 }.named(ty, &v, &mut o); o };
    let cuts: Vec<usize> = if d.len() <= 60 { (0..d.len()).collect() } else { (0..30).map(|_| cx.r.below(d.len())).chain([d.len() - 1, d.len() - 2]).collect() };
    for cut in cuts {
        check(&format!("{} ({:?})", TYPES[ty].name, via), &d, cut, guard("reader", || run_sync(ty, &mut Src::new(&d[..cut]), usize::MAX, via).r.map(|_| ()))?)?;
        check(&format!("{} ({:?}, asynchronous)", TYPES[ty].name, via), &d, cut, guard("reader", || run_async(ty, &mut Src::new(&d[..cut]), usize::MAX, via).r.map(|_| ()))?)?;
        cx.evals += 2;
    }
    Ok(())
}
// ================================================================== C13
pub fn c13(cx: &mut Cx) -> Res {
    enum W { Ty(usize, Val), Tree(Node), Msg(TMessageIdentifier), App(t::ApplicationError), Var(i64) }
    let w = match cx.idx % 6 { 0 | 1 | 2 => { let (a, b) = tyval(cx); W::Ty(a, b) } 3 => W::Tree(node_of(cx)), 4 => if cx.r.chance(1, 2) { W::Msg(msg_of(cx)) } else { let n = cx.r.len(); W::App(t::ApplicationError::new(*cx.r.pick(APP), cx.r.string(n))) }, _ => W::Var(cx.r.int()) };
    let (want, what) = match &w { W::Ty(ty, v) => (encode(*ty, v), format!("{} {}", TYPES[*ty].name, short(v))), W::Tree(n) => (enc_node(n), short(n)), W::Msg(m) => (enc_msg(m), short(m)), W::App(a) => (enc_app(a.kind as i32, &a.message), short(a)), W::Var(x) => { let mut o = vec![]; ienc(*x, &mut o); (o, format!("varint {}", x)) } };
    let run = |s: &mut Sink, asy: bool| -> Result<DR<()>, String> { guard("writer", || match (&w, asy) {
        (W::Ty(ty, v), false) => write_sync(*ty, v, s).map(|_| ()), (W::Ty(ty, v), true) => write_async(*ty, v, s).map(|_| ()),
        (W::Tree(n), false) => wtree(n, s).map(|_| ()), (W::Tree(n), true) => wtree_a(n, s).map(|_| ()),
        (W::Msg(m), false) => wmsg(m, s).map(|_| ()), (W::Msg(m), true) => wmsg_a(m, s).map(|_| ()),
        (W::App(a), _) => t::Error::write_application_error_to_out_protocol(a, &mut TCompactOutputProtocol::new(s)).map_err(|e| ek(&e)),
        (W::Var(x), false) => s.write_varint(*x).map(|_| ()).map_err(|e| io_ek(e.kind())), (W::Var(x), true) => block_on(s.write_varint_async(*x)).map(|_| ()).map_err(|e| io_ek(e.kind())),
    }) };
    let n = want.len();
    let cuts: Vec<usize> = if n <= 30 { (0..n).collect() } else { (0..16).map(|_| cx.r.below(n)).chain([n - 1]).collect() };
    for asy in [false, true] {
        if asy && matches!(w, W::App(_)) { continue; }
        for &at in &cuts {
            let (chunk, seed) = (*cx.r.pick(&[0usize, 0, 1, 4]), cx.r.next());
            let mut s = Sink::rough(chunk, if asy { 0 } else { 50 }, if asy { 50 } else { 0 }, seed);
            let how = if cx.r.chance(1, 3) { s.zero = Some(at); "accepts nothing".to_string() } else { let k = *cx.r.pick(KINDS); s.fault = Some((at, k)); format!("fails with {:?}", k) };
            let r = run(&mut s, asy)?;
            cx.evals += 1;
            ensure!(r.is_err(), "writing {} (asynchronous: {}) to a sink that {} after {} bytes reports success", what, asy, how, at);
            ensure!(s.out == want[..at], "writing {} (asynchronous: {}) to a sink that {} after {} bytes left {} there, which is not the start of {}", what, asy, how, at, hex(&s.out), hex(&want));
        }
        let (chunk, seed) = (*cx.r.pick(&[1usize, 2, 5]), cx.r.next());
        let mut s = Sink::rough(chunk, if asy { 0 } else { 200 }, if asy { 200 } else { 0 }, seed);
        let r = run(&mut s, asy)?;
        ensure!(r.is_ok() && s.out == want, "writing {} (asynchronous: {}) to a sink that takes at most {} bytes at a time gives {:?} and {}, expected {}", what, asy, chunk, r, hex(&s.out), hex(&want));
    }
    // flush failures are reported, flush reaches the sink
    let k = *cx.r.pick(KINDS);
    let mut s = Sink::new(); s.flush_err = Some(k);
    ensure!(guard("flush", || TCompactOutputProtocol::new(&mut s).flush())?.is_err() && s.flushes == 1, "a failing flush is reported as success");
    let mut s = Sink::new(); s.flush_err = Some(k);
    ensure!(guard("flush", || block_on(async { TCompactOutputStreamProtocol::new(&mut s).flush().await }))?.is_err() && s.flushes == 1, "a failing asynchronous flush is reported as success");
    if let W::App(_) = &w { let mut s = Sink::new(); s.flush_err = Some(k); ensure!(run(&mut s, false)?.is_err(), "writing {} to a sink whose flush fails reports success", what); }
    Ok(())
}
fn enc_app(kind: i32, m: &str) -> Vec<u8> { let mut o = vec![0x18]; uenc(m.len() as u64, &mut o); o.extend(m.bytes()); o.push(0x15); ienc(kind as i64, &mut o); o.push(0); o }
// ================================================================== C14
pub fn c14(cx: &mut Cx) -> Res {
    let n = match cx.idx % 4 { 0 => { let d = match cx.r.below(3) { 0 => cx.r.range(1, 10), 1 => cx.r.range(60, 70), _ => cx.r.range(1, 140) }; tree::chain(&mut cx.r, d) } _ => node_of(cx) };
    let depth = n.depth();
    let limit: Option<i8> = if cx.r.chance(1, 2) { None } else { Some(match cx.r.below(4) { 0 => cx.r.int() as i8, 1 => *cx.r.pick(&[0i8, -1, i8::MIN, i8::MAX, 1, -127]), _ => (depth as i64 + cx.r.below(5) as i64 - 2).clamp(-128, 127) as i8 }) };
    let tt = n.tt();
    // a field before and after, so that the position and the field-id state can be seen
    let mut d = vec![];
    let base = cx.r.range(1, 30) as i16;
    // the bytes of a boolean field are in its header
    if let Node::Bool(b) = n { field_header(0, if b { 1 } else { 2 }, base, false, &mut d) } else { field_header(0, code(tt), base, false, &mut d); n.encode(&mut d); }
    field_header(base, 5, base + 3, false, &mut d); ienc(-77, &mut d); d.push(0);
    let end = d.len(); junk(cx, &mut d);
    cx.shape = d.iter().fold(depth as u64 * 256 + limit.map_or(64, |x| x as u8 as u64), |a, x| mix(a, *x as u64));
    let lim = limit.map_or(64, |x| x as i64);
    let skip = match limit { None => Op::Skip(tt), Some(l) => Op::SkipDepth(tt, l) };
    let ops = [Op::StructBegin, Op::FieldBegin, skip, Op::FieldBegin, Op::I32, Op::FieldBegin, Op::StructEnd];
    let b = usize::MAX;
    for (name, tr) in [("blocking", guard("reader", || trace_sync(&ops, Src::new(&d), b, 0))?), ("boxed", guard("reader", || trace_sync(&ops, Src::new(&d), b, 1))?), ("asynchronous", guard("async reader", || trace_async(&ops, Src::new(&d), b))?)] {
        cx.evals += 1;
        if depth as i64 <= lim {
            let none: Option<String> = None;
            let want = format!("{:?} {:?} {:?}", none, TT::I32, Some(base + 3));
            ensure!(tr.len() == 7 && tr[6] == Ok(("()".into(), end)) && matches!(&tr[3], Ok((s, _)) if *s == want) && matches!(&tr[4], Ok((s, _)) if s == "-77"), "{} reader: skipping {:?} (depth {}, limit {}) in {} gives {}", name, tt, depth, lim, hex(&d), short(&tr));
        } else {
            ensure!(tr.len() == 3 && tr[2] == Err(DEPTH), "{} reader: skipping {:?} nested {} deep with limit {} in {} gives {} and not a depth-limit error", name, tt, depth, lim, hex(&d), short(&tr));
        }
    }
    Ok(())
}
// ================================================================== C15
pub fn c15(cx: &mut Cx) -> Res {
    if cx.idx % 6 == 5 {
        let m = msg_of(cx);
        let mut s = Sink::new(); let r = guard("writer", || wmsg(&m, &mut s))?;
        let n = s.out.len(); let mut d = s.out; junk(cx, &mut d);
        let want = format!("{} {} {:?}", u8::from(m.message_type), m.sequence_number, m.name);
        for tr in [guard("reader", || trace_sync(&[Op::MsgBegin], Src::new(&d), usize::MAX, 0))?, guard("reader", || trace_async(&[Op::MsgBegin], Src::new(&d), usize::MAX))?] {
            cx.evals += 1;
            ensure!(r.is_ok() && tr[0] == Ok((want.clone(), n)), "{} reads back from {} as {}", short(&m), hex(&d), short(&tr));
        }
        return Ok(());
    }
    let mut n = node_of(cx);
    if let Node::Str(s) = &n { if cx.r.chance(1, 3) { n = Node::Bin(s.as_bytes().to_vec()); } }
    if let Node::Bin(b) = &mut n { let k = b.len(); *b = cx.r.bytes(k); }
    if let Node::I8(x) = n { if cx.r.chance(1, 2) { n = Node::Byte(x as u8); } }
    for wasy in [false, true] {
        let mut s = Sink::new();
        let r = guard("writer", || if wasy { wtree_a(&n, &mut s) } else { wtree(&n, &mut s) })?;
        ensure!(r.is_ok(), "writing {} failed: {:?}", short(&n), r);
        let len = s.out.len(); let mut d = s.out; junk(cx, &mut d);
        let mut src = Src::new(&d);
        let got = guard("reader", || ts::read(&n, &mut TCompactInputProtocol::new(&mut src, usize::MAX)).map_err(|e| ek(&e)))?;
        ensure!(got.as_ref() == Ok(&n) && src.pos == len, "{} written as {} reads back as {} after {} bytes", short(&n), hex(&d[..len]), short(&got), src.pos);
        let mut src = Src::new(&d);
        let got = guard("async reader", || block_on(async { ta::read(&n, &mut TCompactInputStreamProtocol::new(&mut src, usize::MAX)).await }).map_err(|e| ek(&e)))?;
        ensure!(got.as_ref() == Ok(&n) && src.pos == len, "{} written as {} reads back asynchronously as {} after {} bytes", short(&n), hex(&d[..len]), short(&got), src.pos);
        cx.evals += 2;
    }
    Ok(())
}
// ================================================================== C16
pub fn c16(cx: &mut Cx) -> Res {
    match cx.idx % 4 {
        0 => {
            let (ops, d) = op_case(cx);
            let b = budget_of(&mut cx.r);
            let a = guard("reader", || trace_sync(&ops, Src::new(&d), b, 0))?;
            for k in [1, 2] { let c = guard("boxed reader", || trace_sync(&ops, Src::new(&d), b, k))?; ensure!(a == c, "calls {:?} on {} with budget {}: direct {}, boxed {} times {}", ops, hex(&d), b, short(&a), k, short(&c)); }
            cx.evals += 3;
        }
        1 => {
            let ty = ty_of(cx);
            let d = hostile(cx, ty);
            let b = budget_of(&mut cx.r);
            cx.shape = d.iter().fold(ty as u64, |a, x| mix(a, *x as u64));
            let a = guard("reader", || run_sync(ty, &mut Src::new(&d), b, Via::Inherent))?;
            let c = guard("boxed reader", || run_sync(ty, &mut Src::new(&d), b, Via::Boxed))?;
            ensure!(same(&a, &c), "{} from {} with budget {}: direct {}, boxed {}", TYPES[ty].name, hex(&d), b, short(&a), short(&c));
            cx.evals += 2;
        }
        2 => {
            let n = node_of(cx);
            let m = msg_of(cx);
            let mut outs = vec![];
            for k in 0..4 {
                let mut s = Sink::new();
                let fe = if cx.idx % 8 == 2 { Some(ErrorKind::TimedOut) } else { None };
                s.flush_err = fe;
                let r = guard("writer", || {
                    fn go<P: TOutputProtocol + ?Sized>(n: &Node, m: &TMessageIdentifier, p: &mut P) -> (DR<usize>, DR<usize>, DR<usize>, DR<usize>, DR<()>) { (p.write_message_begin(m).map_err(|e| ek(&e)), ts::write(n, p).map_err(|e| ek(&e)), p.write_message_end().map_err(|e| ek(&e)), p.write_byte(0x5a).map_err(|e| ek(&e)), p.flush().map_err(|e| ek(&e))) }
                    let mut p = TCompactOutputProtocol::new(&mut s);
                    match k { 0 => go(&n, &m, &mut p), 1 => go(&n, &m, &mut Box::new(p)), 2 => { let mut b: Box<dyn TOutputProtocol + '_> = Box::new(p); go(&n, &m, &mut b) } _ => { let mut b: Box<dyn TOutputProtocol + '_> = Box::new(Box::new(p)); go(&n, &m, &mut *b) } }
                })?;
                outs.push((r, s.out, s.flushes));
                cx.evals += 1;
            }
            for k in 1..4 { ensure!(outs[k] == outs[0], "writing {} directly gives {:?} {} and {} flushes; boxed (form {}) {:?} {} and {}", short(&n), outs[0].0, hex(&outs[0].1), outs[0].2, k, outs[k].0, hex(&outs[k].1), outs[k].2); }
        }
        _ => {
            let (ty, v) = tyval(cx);
            let (mut a, mut b, mut c) = (Sink::new(), Sink::new(), Sink::new());
            let x = guard("writer", || write_sync(ty, &v, &mut a))?;
            let y = guard("writer", || ws(ty, &v, &mut Box::new(TCompactOutputProtocol::new(&mut b))).map_err(|e| ek(&e)))?;
            let z = guard("writer", || { let mut p: Box<dyn TOutputProtocol + '_> = Box::new(TCompactOutputProtocol::new(&mut c)); ws(ty, &v, &mut p).map_err(|e| ek(&e)) })?;
            ensure!(x == y && a.out == b.out, "writing {} {}: direct {:?} {}, boxed {:?} {}", TYPES[ty].name, short(&v), x, hex(&a.out), y, hex(&b.out));
            ensure!(x == z && a.out == c.out, "writing {} {}: direct {:?} {}, through a boxed trait object {:?} {}", TYPES[ty].name, short(&v), x, hex(&a.out), z, hex(&c.out));
            cx.evals += 3;
        }
    }
    Ok(())
}
// ================================================================== C17
pub fn c17(cx: &mut Cx) -> Res {
    let n = cx.r.len();
    let (k, m) = (*cx.r.pick(APP), cx.r.string(n));
    let e = t::ApplicationError::new(k, m.clone());
    ensure!(e.kind == k && e.message == m, "constructor");
    let mut s = Sink::new();
    let r = guard("writer", || t::Error::write_application_error_to_out_protocol(&e, &mut TCompactOutputProtocol::new(&mut s)).map_err(|e| ek(&e)))?;
    ensure!(r.is_ok() && s.flushes == 1, "writing {:?} gives {:?} and {} flushes", e, r, s.flushes);
    ensure!(s.out == enc_app(APP.iter().position(|x| *x == k).unwrap() as i32, &m), "{:?} is written as {}", e, hex(&s.out));
    let len = s.out.len(); let mut d = s.out; junk(cx, &mut d);
    let mut src = Src::new(&d);
    let got = guard("reader", || t::Error::read_application_error_from_in_protocol(&mut TCompactInputProtocol::new(&mut src, usize::MAX)).map_err(|e| ek(&e)))?;
    ensure!(matches!(&got, Ok(g) if *g == e) && src.pos == len, "{:?} reads back as {:?} after {} bytes of {}", e, got, src.pos, hex(&d));
    let d = app_bytes(cx);
    cx.shape = mix(cx.shape, mix(k as u64, n as u64));
    let b = if cx.r.chance(1, 3) { budget_of(&mut cx.r) } else { 1 << 20 };
    let mut p = Rd::new(&d, b);
    let want = p.app();
    let mut src = Src::new(&d);
    let got = guard("reader", || t::Error::read_application_error_from_in_protocol(&mut TCompactInputProtocol::new(&mut src, b)).map_err(|e| ek(&e)))?.map(|e| (e.kind, e.message));
    cx.evals += 3;
    ensure!(got == want && (got.is_err() || src.pos == p.pos), "application error from {} with budget {}: {} after {} bytes, expected {} after {}", hex(&d), b, short(&got), src.pos, short(&want), p.pos);
    Ok(())
}
// ================================================================== C18
pub fn c18(cx: &mut Cx) -> Res {
    let (chunk, intr, pend, seed) = (*cx.r.pick(&[1usize, 1, 2, 3, 8, 64]), *cx.r.pick(&[0usize, 100, 500]), *cx.r.pick(&[0usize, 100, 500]), cx.r.next());
    match cx.idx % 4 {
        0 | 1 => {
            let ty = ty_of(cx);
            let d = if cx.r.chance(1, 2) { hostile(cx, ty) } else { let v = val_of(cx, ty); let mut d = encode(ty, &v); junk(cx, &mut d); d };
            let via = *cx.r.pick(VIAS);
            let b = if cx.r.chance(1, 3) { budget_of(&mut cx.r) } else { 1 << 20 };
            cx.shape = d.iter().fold(ty as u64, |a, x| mix(a, *x as u64));
            let (want, _) = run_ref(ty, &d, b, via, EOF);
            let got = guard("reader", || run_sync(ty, &mut Src::rough(&d, chunk, intr, 0, seed), b, via))?;
            ensure!(same(&got, &want), "{} ({:?}) from {} delivered at most {} bytes at a time with interruptions ({}): {} after {} bytes, expected {} after {}", TYPES[ty].name, via, hex(&d), chunk, intr, short(&got.r), got.used, short(&want.r), want.used);
            let got = guard("async reader", || run_async(ty, &mut Src::rough(&d, chunk, 0, pend, seed), b, via))?;
            ensure!(same(&got, &want), "{} ({:?}) from {} delivered asynchronously at most {} bytes at a time: {} after {} bytes, expected {} after {}", TYPES[ty].name, via, hex(&d), chunk, short(&got.r), got.used, short(&want.r), want.used);
        }
        2 => {
            let (ops, d) = op_case(cx);
            let b = budget_of(&mut cx.r);
            let (want, _) = trace_ref(&ops, &d, b);
            let got = guard("reader", || trace_sync(&ops, Src::rough(&d, chunk, intr, 0, seed), b, 0))?;
            ensure!(got == want, "calls {:?} on {} (at most {} bytes at a time, interruptions {}) with budget {}: {}, expected {}", ops, hex(&d), chunk, intr, b, short(&got), short(&want));
            let got = guard("async reader", || trace_async(&ops, Src::rough(&d, chunk, 0, pend, seed), b))?;
            ensure!(got == want, "calls {:?} on {} (asynchronously, at most {} bytes at a time) with budget {}: {}, expected {}", ops, hex(&d), chunk, b, short(&got), short(&want));
        }
        _ => {
            let (ty, v) = tyval(cx);
            let want = encode(ty, &v);
            let mut s = Sink::rough(chunk, intr, 0, seed);
            let r = guard("writer", || write_sync(ty, &v, &mut s))?;
            ensure!(r == Ok(want.len()) && s.out == want, "{} {} to a sink that takes at most {} bytes at a time: {:?} {}", TYPES[ty].name, short(&v), chunk, r, hex(&s.out));
            let mut s = Sink::rough(chunk, 0, pend, seed);
            let r = guard("async writer", || write_async(ty, &v, &mut s))?;
            ensure!(r == Ok(want.len()) && s.out == want, "{} {} to an asynchronous sink that takes at most {} bytes at a time: {:?} {}", TYPES[ty].name, short(&v), chunk, r, hex(&s.out));
        }
    }
    cx.evals += 2;
    Ok(())
}
// ================================================================== C19
pub fn c19(cx: &mut Cx) -> Res {
    let enums: Vec<usize> = (0..TYPES.len()).filter(|i| matches!(TYPES[*i].kind, Kind::Enum(_))).collect();
    let ty = enums[cx.idx as usize % enums.len()];
    let vs = match TYPES[ty].kind { Kind::Enum(v) => v, _ => unreachable!() };
    let j = cx.idx as usize / enums.len();
    let x = if j < 64 { j as i32 - 16 } else { cx.r.i32v() };
    cx.shape = mix(ty as u64, x as u64);
    let f = guard("conversion", || enum_facts(ty, x))?.unwrap();
    let name = TYPES[ty].name;
    ensure!(f.from == x && f.from_ref == x && f.into == x && f.into_ref == x, "{}: the code {} becomes {} {} and back {} {}", name, x, f.from, f.from_ref, f.into, f.into_ref);
    for (a, b) in vs.iter().zip(&f.consts) { ensure!(a == b, "{}::{} is {}, the format says {}", name, b.0, b.1, a.1); }
    let mut l = f.listed.clone(); l.sort();
    let mut w: Vec<i32> = vs.iter().map(|v| v.1).collect(); w.sort();
    ensure!(l == w, "{} lists the values {:?}, the format has {:?}", name, f.listed, w);
    let v = Val::I32(x);
    let mut want = vec![]; ienc(x as i64, &mut want);
    for asy in [false, true] {
        let mut s = Sink::new();
        let r = guard("writer", || if asy { write_async(ty, &v, &mut s) } else { write_sync(ty, &v, &mut s) })?;
        ensure!(r == Ok(want.len()) && s.out == want, "{}({}) is written as {} ({:?}), expected {}", name, x, hex(&s.out), r, hex(&want));
    }
    let n = want.len();
    junk(cx, &mut want);
    expect_read(ty, &v, &want, n, Via::Trait, cx)?;
    // inside every struct that has such a field
    let hosts: Vec<(usize, usize, bool)> = (0..TYPES.len()).flat_map(|i| match TYPES[i].kind { Kind::Struct(fs) => fs.iter().enumerate().filter_map(|(k, f)| match f.ty { Ty::Named(j) if *j == ty => Some((i, k, false)), Ty::List(Ty::Named(j)) if *j == ty => Some((i, k, true)), _ => None }).collect::<Vec<_>>(), _ => vec![] }).collect();
    if !hosts.is_empty() {
        let (h, k, list) = *cx.r.pick(&hosts);
        let mut hv = val_of(cx, h);
        if let Val::Struct(fs) = &mut hv { fs[k] = Some(if list { Val::List(vec![Val::I32(x), Val::I32(0), Val::I32(x)]) } else { Val::I32(x) }); }
        for asy in [false, true] {
            let mut s = Sink::new();
            let r = guard("writer", || if asy { write_async(h, &hv, &mut s) } else { write_sync(h, &hv, &mut s) })?;
            ensure!(r.is_ok(), "writing {} failed", TYPES[h].name);
            let n = s.out.len(); let mut d = s.out; junk(cx, &mut d);
            expect_read(h, &hv, &d, n, Via::Inherent, cx)?;
        }
    }
    Ok(())
}
// ================================================================== C20
pub fn c20(cx: &mut Cx) -> Res {
    let k = KINDS[cx.idx as usize % KINDS.len()];
    match cx.idx % 5 {
        0 | 1 => {
            let ty = ty_of(cx);
            let v = val_of(cx, ty);
            let d = if cx.r.chance(1, 4) { hostile(cx, ty) } else { encode(ty, &v) };
            let at = cx.r.below(d.len() + 1);
            let via = *cx.r.pick(&[Via::Inherent, Via::Trait, Via::Boxed]);
            let b = 1 << 20;
            cx.shape = d[..at].iter().fold(ty as u64, |a, x| mix(a, *x as u64));
            let (want, _) = run_ref(ty, &d[..at], b, via, io_ek(k));
            let (chunk, seed) = (cx.r.below(3), cx.r.next());
            let got = guard("reader", || run_sync(ty, &mut Src { fault: Some((at, k)), ..Src::rough(&d, chunk, 50, 0, seed) }, b, via))?;
            ensure!(same(&got, &want), "{} from {} whose source fails with {:?} after {} bytes: {}, expected {}", TYPES[ty].name, hex(&d), k, at, short(&got.r), short(&want.r));
            let got = guard("async reader", || run_async(ty, &mut Src { fault: Some((at, k)), ..Src::rough(&d, chunk, 0, 50, seed) }, b, via))?;
            ensure!(same(&got, &want), "{} from {} whose asynchronous source fails with {:?} after {} bytes: {}, expected {}", TYPES[ty].name, hex(&d), k, at, short(&got.r), short(&want.r));
            cx.evals += 2;
        }
        2 => {
            let (ty, v) = tyval(cx);
            let n = encode(ty, &v).len();
            let at = cx.r.below(n);
            for asy in [false, true] {
                let mut s = Sink::new(); s.fault = Some((at, k));
                let r = guard("writer", || if asy { write_async(ty, &v, &mut s) } else { write_sync(ty, &v, &mut s) })?;
                ensure!(r == Err(io_ek(k)), "writing {} to a sink that fails with {:?} after {} of {} bytes (asynchronous: {}) gives {:?}, expected {:?}", TYPES[ty].name, k, at, n, asy, r, io_ek(k));
                let mut s = Sink::new(); s.flush_err = Some(k);
                let r = guard("flush", || if asy { block_on(async { TCompactOutputStreamProtocol::new(&mut s).flush().await }) } else { TCompactOutputProtocol::new(&mut s).flush() })?.map_err(|e| ek(&e));
                ensure!(r == Err(io_ek(k)), "a flush that fails with {:?} (asynchronous: {}) gives {:?}", k, asy, r);
                cx.evals += 2;
            }
        }
        3 => {
            // protocol calls on a failing source
            let (ops, d) = op_case(cx);
            let at = cx.r.below(d.len() + 1);
            let mut p = Rd { eof: io_ek(k), ..Rd::new(&d[..at], 1 << 20) };
            let mut want: Trace = vec![];
            for op in &ops { let r = tree::step_ref(*op, &mut p); let bad = r.is_err(); want.push(r.map(|s| (s, p.pos))); if bad { break; } }
            let got = guard("reader", || trace_sync(&ops, Src { fault: Some((at, k)), ..Src::new(&d) }, 1 << 20, 0))?;
            ensure!(got == want, "calls {:?} on {} whose source fails with {:?} after {} bytes: {}, expected {}", ops, hex(&d), k, at, short(&got), short(&want));
            let got = guard("async reader", || trace_async(&ops, Src { fault: Some((at, k)), ..Src::new(&d) }, 1 << 20))?;
            ensure!(got == want, "calls {:?} on {} whose asynchronous source fails with {:?} after {} bytes: {}, expected {}", ops, hex(&d), k, at, short(&got), short(&want));
            cx.evals += 2;
        }
        _ => {
            cx.shape = k as u64;
            for k in KINDS.iter().chain(&[ErrorKind::Interrupted]) { let e = t::Error::from(std::io::Error::new(*k, "x")); ensure!(ek(&e) == io_ek(*k), "an I/O error of kind {:?} becomes {:?}", k, ek(&e)); }
            ensure!(ek(&t::Error::from(String::from_utf8(vec![0xff]).unwrap_err())) == DATA, "invalid UTF-8 becomes something else than invalid data");
            ensure!(ek(&t::Error::from(u8::try_from(300i32).unwrap_err())) == DATA, "a number out of range becomes something else than invalid data");
            let mut v: Vec<u8> = vec![]; ensure!(ek(&t::Error::from(v.try_reserve(usize::MAX).unwrap_err())) == SIZE, "a refused reservation becomes something else than a size limit");
            for x in TRANS { ensure!(ek(&t::new_transport_error(*x, "m")) == EK::T(*x) && ek(&t::Error::from(t::TransportError::new(*x, "m"))) == EK::T(*x), "transport error {:?}", x); }
            for x in PROTO { ensure!(ek(&t::new_protocol_error(*x, "m")) == EK::P(*x) && ek(&t::Error::from(t::ProtocolError::new(*x, "m"))) == EK::P(*x), "protocol error {:?}", x); }
            for x in APP { ensure!(ek(&t::new_application_error(*x, "m")) == EK::A(*x) && ek(&t::Error::from(t::ApplicationError::new(*x, "m"))) == EK::A(*x), "application error {:?}", x); }
            ensure!(ek(&t::Error::from("m")) == EK::A(t::ApplicationErrorKind::Unknown) && ek(&t::Error::from("m".to_string())) == EK::A(t::ApplicationErrorKind::Unknown), "text becomes something else than an unknown application error");
            cx.evals += 1;
        }
    }
    Ok(())
}
// ================================================================== C21
pub fn c21(cx: &mut Cx) -> Res {
    let k = cx.r.range(2, 6);
    let vals: Vec<(usize, Val)> = (0..k).map(|i| { let ty = if i == 0 { ty_of(cx) } else { cx.r.below(TYPES.len()) }; let mut f = 25; let v = gen_named(&mut cx.r, ty, &mut f); (ty, v) }).collect();
    cx.shape = vals.iter().fold(1, |a, (t, v)| mix(a, mix(*t as u64, shape(v))));
    let mut ends = vec![];
    let buf = std::sync::Arc::new(std::sync::Mutex::new(vec![]));
    let wasy = cx.r.chance(1, 2);
    guard("writer", || {
        if wasy { let mut p = TCompactOutputStreamProtocol::new(Shared(buf.clone())); for (ty, v) in &vals { block_on(wa(*ty, v, &mut p))?; ends.push(buf.lock().unwrap().len()); } }
        else { let mut p = TCompactOutputProtocol::new(Shared(buf.clone())); for (ty, v) in &vals { ws(*ty, v, &mut p)?; ends.push(buf.lock().unwrap().len()); } }
        Ok::<(), t::Error>(())
    })?.map_err(|e| format!("writing a sequence failed: {:?}", ek(&e)))?;
    let mut d = buf.lock().unwrap().clone();
    let mut want = vec![]; for (ty, v) in &vals { want.extend(encode(*ty, v)); }
    ensure!(d == want, "{} written one after the other give {}, each on its own gives {}", short(&vals), hex(&d), hex(&want));
    let names: Vec<&str> = vals.iter().map(|x| TYPES[x.0].name).collect();
    if cx.r.chance(1, 2) {
        // the same values as another writer may put them: other header forms, fields this schema does not know, another order
        d.clear(); ends.clear();
        let s = cx.r.next(); let mut s = Rng::new(s);
        let mut e = Enc { unknown: cx.r.chance(2, 3), permute: cx.r.chance(1, 2), long: cx.r.chance(1, 2), added: 0, rng: Some(&mut s) };
        for (ty, v) in &vals {
            // (an unknown field in a union is an error)
            e.named(*ty, v, &mut d); ends.push(d.len());
        }
    }
    let cost = { let mut p = Rd::new(&d, usize::MAX); for (ty, _) in &vals { p.named(*ty).map_err(|e| format!("reference reader on its own bytes: {:?}", e))?; } usize::MAX - p.rem };
    junk(cx, &mut d);
    let b = if cx.r.chance(1, 2) { cost } else { usize::MAX };
    let c = std::cell::RefCell::new(Src::new(&d));
    let c2: &std::cell::RefCell<Src> = unsafe_free(&c);
    guard("reader", || -> Res {
        let mut p = TCompactInputProtocol::new(Watch { s: c2 }, b);
        for (i, (ty, v)) in vals.iter().enumerate() { let r = rs(*ty, &mut p).map_err(|e| ek(&e)); ensure!(r.as_ref() == Ok(v) && c2.borrow().pos == ends[i], "value {} of {:?} in {} with budget {} reads as {} up to byte {}, expected {} up to byte {}", i, names, hex(&d), b, short(&r), c2.borrow().pos, short(v), ends[i]); }
        Ok(())
    })??;
    let c = std::sync::Mutex::new(Src::new(&d));
    let c2: &std::sync::Mutex<Src> = unsafe { std::mem::transmute::<&std::sync::Mutex<Src>, &std::sync::Mutex<Src>>(&c) };
    guard("async reader", || -> Res {
        let mut p = TCompactInputStreamProtocol::new(WatchA { s: c2 }, b);
        for (i, (ty, v)) in vals.iter().enumerate() { let r = block_on(ra(*ty, &mut p)).map_err(|e| ek(&e)); let pos = c2.lock().unwrap().pos; ensure!(r.as_ref() == Ok(v) && pos == ends[i], "value {} of {:?} in {} with budget {} reads asynchronously as {} up to byte {}, expected {} up to byte {}", i, names, hex(&d), b, short(&r), pos, short(v), ends[i]); }
        Ok(())
    })??;
    cx.evals += 2 * k as u64;
    Ok(())
}
// ================================================================== C22
pub fn c22(cx: &mut Cx) -> Res {
    let ty = ty_of(cx);
    let honest = cx.r.chance(1, 2);
    let d = if !honest { hostile(cx, ty) } else { let v = val_of(cx, ty); encode(ty, &v) };
    let via = if honest { *cx.r.pick(&[Via::Inherent, Via::Trait, Via::Boxed]) } else { *cx.r.pick(VIAS) };
    let (_, cost) = run_ref(ty, &d, 1 << 22, via, EOF);
    let mut bs = [budget_of(&mut cx.r), (cost + cx.r.below(5)).saturating_sub(2), if honest { big_budget(&mut cx.r) } else { budget_of(&mut cx.r) }];
    bs.sort();
    cx.shape = d.iter().fold(ty as u64, |a, x| mix(a, *x as u64));
    for (name, f) in [("blocking", run_sync as fn(usize, &mut Src, usize, Via) -> Out), ("asynchronous", run_async)] {
        let outs: Vec<Out> = bs.iter().map(|b| guard("reader", || f(ty, &mut Src::new(&d), *b, via))).collect::<Result<_, _>>()?;
        cx.evals += 3;
        for i in 0..3 { for j in i..3 { if outs[i].r != Err(SIZE) { ensure!(same(&outs[i], &outs[j]), "{} ({:?}, {}) from {}: with budget {} {}, with the larger budget {} {}", TYPES[ty].name, via, name, hex(&d), bs[i], short(&outs[i]), bs[j], short(&outs[j])); } } }
    }
    Ok(())
}
// ================================================================== C23
pub fn c23(cx: &mut Cx) -> Res {
    let m = msg_of(cx);
    let want = enc_msg(&m);
    for asy in [false, true] {
        let mut s = Sink::new();
        let r = guard("writer", || if asy { wmsg_a(&m, &mut s) } else { wmsg(&m, &mut s) })?;
        ensure!(r.is_ok() && s.out == want, "{:?} is written as {} ({:?}), expected {}", m, hex(&s.out), r, hex(&want));
    }
    let mut d = want;
    junk(cx, &mut d);
    if cx.idx % 2 == 1 { let i = cx.r.below(d.len().min(8)); d[i] = match cx.r.below(3) { 0 => d[i] ^ (1 << cx.r.below(8)), 1 => cx.r.next() as u8, _ => d[i].wrapping_add(32) }; if cx.r.chance(1, 4) { d.truncate(i); } }
    cx.shape = d.iter().fold(1, |a, x| mix(a, *x as u64));
    let (w, _) = trace_ref(&[Op::MsgBegin], &d, 1 << 20);
    let g = guard("reader", || trace_sync(&[Op::MsgBegin], Src::new(&d), 1 << 20, 0))?;
    ensure!(g == w, "message header from {}: {}, expected {}", hex(&d), short(&g), short(&w));
    let g = guard("reader", || trace_async(&[Op::MsgBegin], Src::new(&d), 1 << 20))?;
    ensure!(g == w, "message header read asynchronously from {}: {}, expected {}", hex(&d), short(&g), short(&w));
    // helpers
    let (a, b) = (cx.r.i32v(), if cx.r.chance(1, 2) { cx.r.i32v() } else { 0 });
    for (x, y) in [(a, b), (a, a), (a, a.wrapping_add(1)), (a, a.wrapping_neg()), (a, a ^ (1 << cx.r.below(32)))] { let r = guard("check", || verify_expected_sequence_number(x, y))?.map_err(|e| ek(&e)); ensure!(r == if x == y { Ok(()) } else { Err(EK::A(t::ApplicationErrorKind::BadSequenceId)) }, "expected sequence number {} and received {}: {:?}", x, y, r); }
    let n = cx.r.len().min(30); let s1 = cx.r.string(n);
    for s2 in [s1.clone(), cx.r.string(n), s1.to_uppercase(), format!("{}x", s1), s1.chars().rev().collect(), format!(" {}", s1)] { for (x, y) in [(&s1, &s2), (&s2, &s1)] { let r = guard("check", || verify_expected_service_call(x, y))?.map_err(|e| ek(&e)); ensure!(r == if x == y { Ok(()) } else { Err(EK::A(t::ApplicationErrorKind::WrongMethodName)) }, "expected call {:?} and received {:?}: {:?}", x, y, r); } }
    let ms = [TMessageType::Call, TMessageType::Reply, TMessageType::Exception, TMessageType::OneWay];
    for (i, x) in ms.iter().enumerate() {
        ensure!(u8::from(*x) as usize == i + 1 && matches!(TMessageType::try_from(i as u8 + 1), Ok(y) if y == *x), "message type {:?}", x);
        for y in ms { let r = verify_expected_message_type(*x, y).map_err(|e| ek(&e)); ensure!(r == if *x == y { Ok(()) } else { Err(EK::A(t::ApplicationErrorKind::InvalidMessageType)) }, "expected message type {:?} and received {:?}: {:?}", x, y, r); }
    }
    for c in 0..=255u8 { ensure!(TMessageType::try_from(c).is_ok() == (1..=4).contains(&c), "message type code {}", c); }
    let f = |i: i32| -> Res {
        let u = usize::try_from(i).ok();
        let at = |n: usize| u.filter(|u| *u < n);
        ensure!(t::TransportErrorKind::try_from(i).ok() == at(TRANS.len()).map(|i| TRANS[i]), "transport error code {} becomes {:?}", i, t::TransportErrorKind::try_from(i).ok());
        ensure!(t::ProtocolErrorKind::try_from(i).ok() == at(PROTO.len()).map(|i| PROTO[i]), "protocol error code {} becomes {:?}", i, t::ProtocolErrorKind::try_from(i).ok());
        ensure!(t::ApplicationErrorKind::try_from(i).ok() == at(APP.len()).map(|i| APP[i]), "application error code {} becomes {:?}", i, t::ApplicationErrorKind::try_from(i).ok());
        Ok(())
    };
    for i in -2..20 { f(i)?; }
    f(a)?;
    for (i, k) in APP.iter().enumerate() { ensure!(*k as i32 == i as i32, "application error {:?} has code {}", k, *k as i32); }
    for (i, k) in PROTO.iter().enumerate() { ensure!(*k as i32 == i as i32, "protocol error {:?} has code {}", k, *k as i32); }
    for (i, k) in TRANS.iter().enumerate() { ensure!(*k as i32 == i as i32, "transport error {:?} has code {}", k, *k as i32); }
    let id = if cx.r.chance(1, 4) { None } else { Some(cx.r.i16v()) };
    let fi = TFieldIdentifier { name: None, field_type: TType::I32, id };
    ensure!(field_id(&fi).ok() == id, "the id of {:?} is {:?}", fi, field_id(&fi).ok());
    ensure!(verify_required_field_exists("f", &id).is_ok() == id.is_some(), "required field {:?}", id);
    cx.evals += 4;
    Ok(())
}
// ================================================================== C24
pub fn c24(cx: &mut Cx) -> Res {
    let (ty, mut v) = tyval(cx);
    if cx.r.chance(1, 3) { if let Kind::Struct(fs) = TYPES[ty].kind { let x = &mut v; if let Val::Struct(vs) = x { for (f, s) in fs.iter().zip(vs) { if s.is_none() { *s = Some(gen_val(&mut cx.r, f.ty, &mut 10)); } } } } }
    if let Some((got, want)) = guard("constructor", || construct(ty, &v))? { ensure!(got == v && want == v, "{} constructed from {} is {} (default {})", TYPES[ty].name, short(&v), short(&got), short(&want)); }
    if let Some(got) = guard("constructor", || construct_bare(ty, &v))? { ensure!(got == v, "{} constructed from {} is {}", TYPES[ty].name, short(&v), short(&got)); }
    ensure!(guard("comparison", || self_eq(ty, &v, &v))?, "{} {} is not equal to itself, its clone or its own order", TYPES[ty].name, short(&v));
    let (tt, n, id) = (tree::ttype(*cx.r.pick(ALL)), cx.r.u32v(), cx.r.i16v());
    let l = TListIdentifier::new(tt, n); ensure!(l.element_type == tt && l.size == n, "list identifier {:?}", l);
    let l = TSetIdentifier::new(tt, n); ensure!(l.element_type == tt && l.size == n, "set identifier {:?}", l);
    let t2 = tree::ttype(*cx.r.pick(ALL));
    let l = TMapIdentifier::new(tt, t2, n); ensure!(l.key_type == Some(tt) && l.value_type == Some(t2) && l.size == n, "map identifier {:?}", l);
    let l = TMapIdentifier::new(None, Some(t2), n); ensure!(l.key_type.is_none() && l.value_type == Some(t2), "map identifier {:?}", l);
    let f = TFieldIdentifier::new("nm", tt, id); ensure!(f.name.as_deref() == Some("nm") && f.field_type == tt && f.id == Some(id), "field identifier {:?}", f);
    let f = TFieldIdentifier::new::<Option<String>, String, Option<i16>>(None, tt, None); ensure!(f.name.is_none() && f.id.is_none(), "field identifier {:?}", f);
    let m = TMessageIdentifier::new("nm", TMessageType::Reply, n); ensure!(m.name == "nm" && m.message_type == TMessageType::Reply && m.sequence_number == n, "message identifier {:?}", m);
    ensure!(TStructIdentifier::new("nm").name == "nm", "struct identifier");
    cx.evals += 3;
    Ok(())
}
pub fn props() -> Vec<(&'static str, fn(&mut Cx) -> Res)> {
    vec![("C01", c01), ("C02", c02), ("C03", c03), ("C04", c04), ("C05", c05), ("C06", c06), ("C07", c07), ("C08", c08), ("C09", c09), ("C10", c10), ("C11", c11), ("C12", c12), ("C13", c13), ("C14", c14), ("C15", c15), ("C16", c16), ("C17", c17), ("C18", c18), ("C19", c19), ("C20", c20), ("C21", c21), ("C22", c22), ("C23", c23), ("C24", c24)]
}
