//! Writing and reading a tree through the protocol API (generated from tree_sync.rs).
use crate::tree::*;
use std::{future::Future, pin::Pin};
use parquet_format_safe::thrift::protocol::*;
use parquet_format_safe::thrift::Result as R;

pub fn write<'a, P: TOutputStreamProtocol>(x: &'a Node, p: &'a mut P) -> Pin<Box<dyn Future<Output = R<usize>> + 'a>> { Box::pin(async move {
    let mut w = 0usize;
    match x {
        Node::Bool(b) => w += p.write_bool(*b).await?,
        Node::I8(v) => w += p.write_i8(*v).await?,
        Node::Byte(v) => w += p.write_byte(*v).await?,
        Node::I16(v) => w += p.write_i16(*v).await?,
        Node::I32(v) => w += p.write_i32(*v).await?,
        Node::I64(v) => w += p.write_i64(*v).await?,
        Node::Dbl(v) => w += p.write_double(f64::from_bits(*v)).await?,
        Node::Str(s) => w += p.write_string(s).await?,
        Node::Bin(s) => w += p.write_bytes(s).await?,
        Node::Struct(fs) => {
            w += p.write_struct_begin(&TStructIdentifier::new("s")).await?;
            for (id, n) in fs {
                w += p.write_field_begin(&TFieldIdentifier::new("f", ttype(n.tt()), *id)).await?;
                w += write(n, &mut *p).await?;
                w += p.write_field_end()?;
            }
            w += p.write_field_stop().await?;
            w += p.write_struct_end()?;
        }
        Node::List(t, xs) => {
            w += p.write_list_begin(&TListIdentifier::new(ttype(*t), xs.len() as u32)).await?;
            for n in xs { w += write(n, &mut *p).await?; }
            w += p.write_list_end().await?;
        }
        Node::Set(t, xs) => {
            w += p.write_set_begin(&TSetIdentifier::new(ttype(*t), xs.len() as u32)).await?;
            for n in xs { w += write(n, &mut *p).await?; }
            w += p.write_set_end().await?;
        }
        Node::Map(t, xs) => {
            w += p.write_map_begin(&TMapIdentifier::new(t.map(|x| ttype(x.0)), t.map(|x| ttype(x.1)), xs.len() as u32)).await?;
            for (a, b) in xs { w += write(a, &mut *p).await?; w += write(b, &mut *p).await?; }
            w += p.write_map_end().await?;
        }
    }
    Ok(w)
}) }
/// x only says which call to make where the wire does not (byte or i8, string or bytes)
pub fn read<'a, P: TInputStreamProtocol>(x: &'a Node, p: &'a mut P) -> Pin<Box<dyn Future<Output = R<Node>> + 'a>> { Box::pin(async move {
    Ok(match x {
        Node::Bool(_) => Node::Bool(p.read_bool().await?),
        Node::I8(_) => Node::I8(p.read_i8().await?),
        Node::Byte(_) => Node::Byte(p.read_byte().await?),
        Node::I16(_) => Node::I16(p.read_i16().await?),
        Node::I32(_) => Node::I32(p.read_i32().await?),
        Node::I64(_) => Node::I64(p.read_i64().await?),
        Node::Dbl(_) => Node::Dbl(p.read_double().await?.to_bits()),
        Node::Str(_) => Node::Str(p.read_string().await?),
        Node::Bin(_) => Node::Bin(p.read_bytes().await?),
        Node::Struct(fs) => {
            p.read_struct_begin().await?;
            let mut out = vec![];
            loop {
                let f = p.read_field_begin().await?;
                if f.field_type == TType::Stop { break; }
                let like = match fs.get(out.len()) { Some((_, n)) if n.tt() == of_ttype(f.field_type) => n, _ => { out.push((f.id.unwrap_or(-1), Node::Byte(0))); break; } };
                out.push((f.id.unwrap_or(-1), read(like, &mut *p).await?));
                p.read_field_end().await?;
            }
            p.read_struct_end().await?;
            Node::Struct(out)
        }
        Node::List(_, xs) => {
            let h = p.read_list_begin().await?;
            let mut out = vec![];
            if h.size as usize == xs.len() { for n in xs { out.push(read(n, &mut *p).await?); } }
            p.read_list_end().await?;
            Node::List(of_ttype(h.element_type), out)
        }
        Node::Set(_, xs) => {
            let h = p.read_set_begin().await?;
            let mut out = vec![];
            if h.size as usize == xs.len() { for n in xs { out.push(read(n, &mut *p).await?); } }
            p.read_set_end().await?;
            Node::Set(of_ttype(h.element_type), out)
        }
        Node::Map(_, xs) => {
            let h = p.read_map_begin().await?;
            let mut out = vec![];
            if h.size as usize == xs.len() { for (a, b) in xs { let a = read(a, &mut *p).await?; let b = read(b, &mut *p).await?; out.push((a, b)); } }
            p.read_map_end().await?;
            Node::Map(h.key_type.zip(h.value_type).map(|(a, b)| (of_ttype(a), of_ttype(b))), out)
        }
    })
}) }
/// one protocol call, its outcome written out
pub fn step<'a, P: TInputStreamProtocol>(op: Op, p: &'a mut P) -> Pin<Box<dyn Future<Output = R<String>> + 'a>> { Box::pin(async move {
    Ok(match op {
        Op::MsgBegin => { let m = p.read_message_begin().await?; let o = format!("{} {} {:?}", u8::from(m.message_type), m.sequence_number, m.name); p.read_message_end().await?; o }
        Op::StructBegin => format!("{:?}", p.read_struct_begin().await?),
        Op::StructEnd => format!("{:?}", p.read_struct_end().await?),
        Op::FieldBegin => { let f = p.read_field_begin().await?; let o = format!("{:?} {:?} {:?}", f.name, of_ttype(f.field_type), f.id); p.read_field_end().await?; o }
        Op::Bool => format!("{:?}", p.read_bool().await?),
        Op::Bytes => format!("{:?}", p.read_bytes().await?),
        Op::I8 => format!("{:?}", p.read_i8().await?),
        Op::I16 => format!("{:?}", p.read_i16().await?),
        Op::I32 => format!("{:?}", p.read_i32().await?),
        Op::I64 => format!("{:?}", p.read_i64().await?),
        Op::Double => format!("{:x}", p.read_double().await?.to_bits()),
        Op::Str => format!("{:?}", p.read_string().await?),
        Op::Byte => format!("{:?}", p.read_byte().await?),
        Op::ListBegin => { let l = p.read_list_begin().await?; p.read_list_end().await?; format!("{:?} {}", of_ttype(l.element_type), l.size) }
        Op::SetBegin => { let l = p.read_set_begin().await?; p.read_set_end().await?; format!("{:?} {}", of_ttype(l.element_type), l.size) }
        Op::MapBegin => { let l = p.read_map_begin().await?; p.read_map_end().await?; format!("{:?} {:?} {}", l.key_type.map(of_ttype), l.value_type.map(of_ttype), l.size) }
        Op::Skip(t) => format!("{:?}", p.skip(ttype(t)).await?),
        Op::SkipDepth(t, d) => format!("{:?}", p.skip_till_depth(ttype(t), d).await?),
        Op::ListU8 => format!("{:?}", p.read_list::<u8>().await?),
        Op::ListBool => format!("{:?}", p.read_list::<bool>().await?),
        Op::ListI64 => format!("{:?}", p.read_list::<i64>().await?),
        Op::ListStr => format!("{:?}", p.read_list::<String>().await?),
        Op::ListBin => format!("{:?}", p.read_list::<Vec<u8>>().await?),
    })
}) }
