//! Writing and reading a tree through the protocol API (tree_async.rs is generated from this file).
use crate::tree::*;
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result as R;

pub fn write<P: TOutputProtocol + ?Sized>(x: &Node, p: &mut P) -> R<usize> {
    let mut w = 0usize;
    match x {
        Node::Bool(b) => w += p.write_bool(*b)/*aw*/?,
        Node::I8(v) => w += p.write_i8(*v)/*aw*/?,
        Node::Byte(v) => w += p.write_byte(*v)/*aw*/?,
        Node::I16(v) => w += p.write_i16(*v)/*aw*/?,
        Node::I32(v) => w += p.write_i32(*v)/*aw*/?,
        Node::I64(v) => w += p.write_i64(*v)/*aw*/?,
        Node::Dbl(v) => w += p.write_double(f64::from_bits(*v))/*aw*/?,
        Node::Str(s) => w += p.write_string(s)/*aw*/?,
        Node::Bin(s) => w += p.write_bytes(s)/*aw*/?,
        Node::Struct(fs) => {
            w += p.write_struct_begin(&TStructIdentifier::new("s"))/*aw*/?;
            for (id, n) in fs {
                w += p.write_field_begin(&TFieldIdentifier::new("f", ttype(n.tt()), *id))/*aw*/?;
                w += write(n, &mut *p)/*aw*/?;
                w += p.write_field_end()?;
            }
            w += p.write_field_stop()/*aw*/?;
            w += p.write_struct_end()?;
        }
        Node::List(t, xs) => {
            w += p.write_list_begin(&TListIdentifier::new(ttype(*t), xs.len() as u32))/*aw*/?;
            for n in xs { w += write(n, &mut *p)/*aw*/?; }
            w += p.write_list_end()/*aw*/?;
        }
        Node::Set(t, xs) => {
            w += p.write_set_begin(&TSetIdentifier::new(ttype(*t), xs.len() as u32))/*aw*/?;
            for n in xs { w += write(n, &mut *p)/*aw*/?; }
            w += p.write_set_end()/*aw*/?;
        }
        Node::Map(t, xs) => {
            w += p.write_map_begin(&TMapIdentifier::new(t.map(|x| ttype(x.0)), t.map(|x| ttype(x.1)), xs.len() as u32))/*aw*/?;
            for (a, b) in xs { w += write(a, &mut *p)/*aw*/?; w += write(b, &mut *p)/*aw*/?; }
            w += p.write_map_end()/*aw*/?;
        }
    }
    Ok(w)
}
/// x only says which call to make where the wire does not (byte or i8, string or bytes)
pub fn read<P: TInputProtocol>(x: &Node, p: &mut P) -> R<Node> {
    Ok(match x {
        Node::Bool(_) => Node::Bool(p.read_bool()/*aw*/?),
        Node::I8(_) => Node::I8(p.read_i8()/*aw*/?),
        Node::Byte(_) => Node::Byte(p.read_byte()/*aw*/?),
        Node::I16(_) => Node::I16(p.read_i16()/*aw*/?),
        Node::I32(_) => Node::I32(p.read_i32()/*aw*/?),
        Node::I64(_) => Node::I64(p.read_i64()/*aw*/?),
        Node::Dbl(_) => Node::Dbl(p.read_double()/*aw*/?.to_bits()),
        Node::Str(_) => Node::Str(p.read_string()/*aw*/?),
        Node::Bin(_) => Node::Bin(p.read_bytes()/*aw*/?),
        Node::Struct(fs) => {
            p.read_struct_begin()/*aw*/?;
            let mut out = vec![];
            loop {
                let f = p.read_field_begin()/*aw*/?;
                if f.field_type == TType::Stop { break; }
                let like = match fs.get(out.len()) { Some((_, n)) if n.tt() == of_ttype(f.field_type) => n, _ => { out.push((f.id.unwrap_or(-1), Node::Byte(0))); break; } };
                out.push((f.id.unwrap_or(-1), read(like, &mut *p)/*aw*/?));
                p.read_field_end()/*aw*/?;
            }
            p.read_struct_end()/*aw*/?;
            Node::Struct(out)
        }
        Node::List(_, xs) => {
            let h = p.read_list_begin()/*aw*/?;
            let mut out = vec![];
            if h.size as usize == xs.len() { for n in xs { out.push(read(n, &mut *p)/*aw*/?); } }
            p.read_list_end()/*aw*/?;
            Node::List(of_ttype(h.element_type), out)
        }
        Node::Set(_, xs) => {
            let h = p.read_set_begin()/*aw*/?;
            let mut out = vec![];
            if h.size as usize == xs.len() { for n in xs { out.push(read(n, &mut *p)/*aw*/?); } }
            p.read_set_end()/*aw*/?;
            Node::Set(of_ttype(h.element_type), out)
        }
        Node::Map(_, xs) => {
            let h = p.read_map_begin()/*aw*/?;
            let mut out = vec![];
            if h.size as usize == xs.len() { for (a, b) in xs { let a = read(a, &mut *p)/*aw*/?; let b = read(b, &mut *p)/*aw*/?; out.push((a, b)); } }
            p.read_map_end()/*aw*/?;
            Node::Map(h.key_type.zip(h.value_type).map(|(a, b)| (of_ttype(a), of_ttype(b))), out)
        }
    })
}
/// one protocol call, its outcome written out
pub fn step<P: TInputProtocol>(op: Op, p: &mut P) -> R<String> {
    Ok(match op {
        Op::MsgBegin => { let m = p.read_message_begin()/*aw*/?; let o = format!("{} {} {:?}", u8::from(m.message_type), m.sequence_number, m.name); p.read_message_end()/*aw*/?; o }
        Op::StructBegin => format!("{:?}", p.read_struct_begin()/*aw*/?),
        Op::StructEnd => format!("{:?}", p.read_struct_end()/*aw*/?),
        Op::FieldBegin => { let f = p.read_field_begin()/*aw*/?; let o = format!("{:?} {:?} {:?}", f.name, of_ttype(f.field_type), f.id); p.read_field_end()/*aw*/?; o }
        Op::Bool => format!("{:?}", p.read_bool()/*aw*/?),
        Op::Bytes => format!("{:?}", p.read_bytes()/*aw*/?),
        Op::I8 => format!("{:?}", p.read_i8()/*aw*/?),
        Op::I16 => format!("{:?}", p.read_i16()/*aw*/?),
        Op::I32 => format!("{:?}", p.read_i32()/*aw*/?),
        Op::I64 => format!("{:?}", p.read_i64()/*aw*/?),
        Op::Double => format!("{:x}", p.read_double()/*aw*/?.to_bits()),
        Op::Str => format!("{:?}", p.read_string()/*aw*/?),
        Op::Byte => format!("{:?}", p.read_byte()/*aw*/?),
        Op::ListBegin => { let l = p.read_list_begin()/*aw*/?; p.read_list_end()/*aw*/?; format!("{:?} {}", of_ttype(l.element_type), l.size) }
        Op::SetBegin => { let l = p.read_set_begin()/*aw*/?; p.read_set_end()/*aw*/?; format!("{:?} {}", of_ttype(l.element_type), l.size) }
        Op::MapBegin => { let l = p.read_map_begin()/*aw*/?; p.read_map_end()/*aw*/?; format!("{:?} {:?} {}", l.key_type.map(of_ttype), l.value_type.map(of_ttype), l.size) }
        Op::Skip(t) => format!("{:?}", p.skip(ttype(t))/*aw*/?),
        Op::SkipDepth(t, d) => format!("{:?}", p.skip_till_depth(ttype(t), d)/*aw*/?),
        Op::ListU8 => format!("{:?}", p.read_list::<u8>()/*aw*/?),
        Op::ListBool => format!("{:?}", p.read_list::<bool>()/*aw*/?),
        Op::ListI64 => format!("{:?}", p.read_list::<i64>()/*aw*/?),
        Op::ListStr => format!("{:?}", p.read_list::<String>()/*aw*/?),
        Op::ListBin => format!("{:?}", p.read_list::<Vec<u8>>()/*aw*/?),
    })
}
