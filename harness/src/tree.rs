//! Arbitrary Thrift values (no schema), written and read through the protocol API.
use crate::refc::*;
use crate::rng::Rng;
use crate::schema::*;
use parquet_format_safe::thrift::protocol::*;

#[derive(Clone, Debug, PartialEq)]
pub enum Node { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), Dbl(u64), Str(String), Bin(Vec<u8>), Byte(u8), Struct(Vec<(i16, Node)>), List(TT, Vec<Node>), Set(TT, Vec<Node>), Map(Option<(TT, TT)>, Vec<(Node, Node)>) }
impl Node {
    pub fn tt(&self) -> TT {
        match self { Node::Bool(_) => TT::Bool, Node::I8(_) | Node::Byte(_) => TT::I08, Node::I16(_) => TT::I16, Node::I32(_) => TT::I32, Node::I64(_) => TT::I64, Node::Dbl(_) => TT::Double, Node::Str(_) | Node::Bin(_) => TT::String, Node::Struct(_) => TT::Struct, Node::List(..) => TT::List, Node::Set(..) => TT::Set, Node::Map(..) => TT::Map }
    }
    pub fn encode(&self, o: &mut Vec<u8>) {
        match self {
            Node::Bool(b) => o.push(if *b { 1 } else { 2 }), Node::I8(x) => o.push(*x as u8), Node::Byte(x) => o.push(*x), Node::I16(x) => ienc(*x as i64, o), Node::I32(x) => ienc(*x as i64, o), Node::I64(x) => ienc(*x, o),
            Node::Dbl(b) => o.extend_from_slice(&b.to_le_bytes()),
            Node::Str(s) => { uenc(s.len() as u64, o); o.extend_from_slice(s.as_bytes()) }
            Node::Bin(s) => { uenc(s.len() as u64, o); o.extend_from_slice(s) }
            Node::Struct(fs) => {
                let mut last = 0;
                for (id, n) in fs { match n { Node::Bool(b) => field_header(last, if *b { 1 } else { 2 }, *id, false, o), _ => { field_header(last, code(n.tt()), *id, false, o); n.encode(o) } } last = *id; }
                o.push(0);
            }
            Node::List(t, xs) | Node::Set(t, xs) => { list_header(*t, xs.len(), false, o); for x in xs { x.encode(o) } }
            Node::Map(None, _) => o.push(0),
            Node::Map(Some((k, v)), xs) => { uenc(xs.len() as u64, o); o.push(code(*k) * 16 + code(*v)); for (a, b) in xs { a.encode(o); b.encode(o) } }
        }
    }
    /// levels of nesting: a scalar is 1
    pub fn depth(&self) -> usize {
        1 + match self { Node::Struct(f) => f.iter().map(|x| x.1.depth()).max().unwrap_or(0), Node::List(_, x) | Node::Set(_, x) => x.iter().map(|x| x.depth()).max().unwrap_or(0), Node::Map(_, x) => x.iter().map(|x| x.0.depth().max(x.1.depth())).max().unwrap_or(0), _ => 0 }
    }
}
/// a value of wire type tt
pub fn random(r: &mut Rng, tt: TT, depth: usize) -> Node {
    let n = |r: &mut Rng| if depth == 0 { 0 } else { match r.below(30) { 0 => r.range(14, 16), 1 => 130, _ => r.below(4) } };
    let sub = |r: &mut Rng| if depth <= 1 { *r.pick(&ALL[..7]) } else { *r.pick(ALL) };
    match tt {
        TT::Bool => Node::Bool(r.chance(1, 2)), TT::I08 => Node::I8(r.int() as i8), TT::I16 => Node::I16(r.i16v()), TT::I32 => Node::I32(r.i32v()), TT::I64 => Node::I64(r.int()),
        TT::Double => Node::Dbl(match r.below(4) { 0 => r.next(), 1 => (r.int() as f64).to_bits(), 2 => f64::NAN.to_bits(), _ => 0x8000_0000_0000_0000 }),
        TT::String => { let n = r.len(); if r.chance(1, 2) { Node::Str(r.string(n)) } else { Node::Bin(r.bytes(n)) } }
        TT::Struct => { let k = n(r).min(20); let mut last = 0i16; Node::Struct((0..k).map(|_| { let id = match r.below(4) { 0 => r.i16v(), 1 => last.wrapping_add(r.range(13, 17) as i16), _ => last.wrapping_add(r.range(1, 3) as i16) }; last = id; let t = sub(r); (id, random(r, t, depth.saturating_sub(1))) }).collect()) }
        TT::List => { let t = sub(r); let k = n(r); Node::List(t, (0..k).map(|_| random(r, t, depth.saturating_sub(1))).collect()) }
        TT::Set => { let t = sub(r); let k = n(r); Node::Set(t, (0..k).map(|_| random(r, t, depth.saturating_sub(1))).collect()) }
        TT::Map => { let (a, b) = (sub(r), sub(r)); let k = n(r); if k == 0 { Node::Map(None, vec![]) } else { Node::Map(Some((a, b)), (0..k).map(|_| (random(r, a, depth.saturating_sub(1)), random(r, b, depth.saturating_sub(1)))).collect()) } }
        TT::Stop => unreachable!(),
    }
}
/// a scalar in a chain of d - 1 containers
pub fn chain(r: &mut Rng, d: usize) -> Node {
    let t = *r.pick(&ALL[..7]);
    let mut x = random(r, t, 0);
    for _ in 1..d {
        let t = x.tt();
        x = match r.below(6) { 0 => Node::List(t, vec![x]), 1 => Node::Set(t, vec![x]), 2 => Node::Map(Some((TT::I32, t)), vec![(Node::I32(1), x)]), 3 => Node::Map(Some((t, TT::Bool)), vec![(x, Node::Bool(true))]), _ => {
            // other fields around the nested one: their ids depend on those of the enclosing struct being restored
            let mut f = vec![];
            let mut id = 0i16;
            if r.chance(1, 3) { id += r.range(1, 20) as i16; let t = *r.pick(&ALL[..7]); f.push((id, random(r, t, 0))); }
            id += r.range(1, 20) as i16;
            f.push((id, x));
            if r.chance(1, 2) { id += r.range(1, 20) as i16; let t = *r.pick(&ALL[..7]); f.push((id, random(r, t, 0))); }
            Node::Struct(f)
        } };
    }
    x
}
pub fn ttype(t: TT) -> TType { match t { TT::Stop => TType::Stop, TT::Bool => TType::Bool, TT::I08 => TType::I08, TT::I16 => TType::I16, TT::I32 => TType::I32, TT::I64 => TType::I64, TT::Double => TType::Double, TT::String => TType::String, TT::List => TType::List, TT::Set => TType::Set, TT::Map => TType::Map, TT::Struct => TType::Struct } }
pub fn of_ttype(t: TType) -> TT { match t { TType::Stop => TT::Stop, TType::Bool => TT::Bool, TType::I08 => TT::I08, TType::I16 => TT::I16, TType::I32 => TT::I32, TType::I64 => TT::I64, TType::Double => TT::Double, TType::String => TT::String, TType::List => TT::List, TType::Set => TT::Set, TType::Map => TT::Map, TType::Struct => TT::Struct, _ => panic!("odd type {:?}", t) } }


#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Op { MsgBegin, StructBegin, StructEnd, FieldBegin, Bool, Bytes, I8, I16, I32, I64, Double, Str, Byte, ListBegin, SetBegin, MapBegin, Skip(TT), SkipDepth(TT, i8), ListU8, ListBool, ListI64, ListStr, ListBin }
/// the same call on the reference reader
pub fn step_ref(op: Op, p: &mut Rd) -> DR<String> {
    fn list<T: std::fmt::Debug>(p: &mut Rd, f: impl Fn(&mut Rd) -> DR<T>) -> DR<String> { let (_, n) = p.list_begin()?; let mut v = vec![]; for _ in 0..n { v.push(f(p)?); } Ok(format!("{:?}", v)) }
    Ok(match op {
        Op::MsgBegin => { let m = p.msg()?; format!("{} {} {:?}", m.0, m.1, m.2) }
        Op::StructBegin => { p.struct_begin()?; "None".into() }
        Op::StructEnd => { p.struct_end(); "()".into() }
        Op::FieldBegin => { let (t, id) = p.field_begin()?; let none: Option<String> = None; format!("{:?} {:?} {:?}", none, t, if t == TT::Stop { None } else { Some(id) }) }
        Op::Bool => format!("{:?}", p.bool()?), Op::Bytes => format!("{:?}", p.bytes()?), Op::I8 => format!("{:?}", p.byte()? as i8), Op::I16 => format!("{:?}", p.i16()?), Op::I32 => format!("{:?}", p.i32()?), Op::I64 => format!("{:?}", p.i64()?),
        Op::Double => format!("{:x}", p.double()?), Op::Str => format!("{:?}", p.string()?), Op::Byte => format!("{:?}", p.byte()?),
        Op::ListBegin | Op::SetBegin => { let (t, n) = p.list_begin()?; format!("{:?} {}", t, n) }
        Op::MapBegin => { let m = p.map_begin()?; format!("{:?} {:?} {}", m.map(|m| m.0), m.map(|m| m.1), m.map_or(0, |m| m.2)) }
        Op::Skip(t) => { p.skip(t, 64)?; "()".into() }
        Op::SkipDepth(t, d) => { p.skip(t, d as i32)?; "()".into() }
        Op::ListU8 => list(p, |p| p.byte())?, Op::ListBool => list(p, |p| p.bool())?, Op::ListI64 => list(p, |p| p.i64())?, Op::ListStr => list(p, |p| p.string())?, Op::ListBin => list(p, |p| p.bytes())?,
    })
}
