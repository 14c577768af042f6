//! The format description (parquet.thrift) the reference codec is driven by.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum TT { Stop, Bool, I08, I16, I32, I64, Double, String, List, Set, Map, Struct }
#[derive(Debug)]
pub enum Ty { Bool, I8, I16, I32, I64, Bin, Str, List(&'static Ty), Named(usize) }
#[derive(Debug)]
pub struct Field { pub name: &'static str, pub wire: &'static str, pub id: i16, pub tt: TT, pub elem: TT, pub req: bool, pub ty: &'static Ty }
#[derive(Debug)]
pub enum Kind { Enum(&'static [(&'static str, i32)]), Struct(&'static [Field]), Union(&'static [Field]) }
#[derive(Debug)]
pub struct TypeDef { pub name: &'static str, pub kind: Kind }
pub struct EnumFacts { pub consts: Vec<(&'static str, i32)>, pub listed: Vec<i32>, pub from: i32, pub from_ref: i32, pub into: i32, pub into_ref: i32 }
pub fn type_index(n: &str) -> usize { crate::gen::TYPES.iter().position(|t| t.name == n).unwrap() }
pub fn code(t: TT) -> u8 { match t { TT::Stop => 0, TT::Bool => 1, TT::I08 => 3, TT::I16 => 4, TT::I32 => 5, TT::I64 => 6, TT::Double => 7, TT::String => 8, TT::List => 9, TT::Set => 10, TT::Map => 11, TT::Struct => 12 } }
pub fn from_code(b: u8) -> Option<TT> { Some(match b { 0 => TT::Stop, 1 => TT::Bool, 3 => TT::I08, 4 => TT::I16, 5 => TT::I32, 6 => TT::I64, 7 => TT::Double, 8 => TT::String, 9 => TT::List, 10 => TT::Set, 11 => TT::Map, 12 => TT::Struct, _ => return None }) }
pub fn elem_tt(ty: &Ty) -> TT {
    match ty { Ty::Bool => TT::Bool, Ty::I8 => TT::I08, Ty::I16 => TT::I16, Ty::I32 => TT::I32, Ty::I64 => TT::I64, Ty::Bin | Ty::Str => TT::String, Ty::List(_) => TT::List,
        Ty::Named(i) => match crate::gen::TYPES[*i].kind { Kind::Enum(_) => TT::I32, _ => TT::Struct } }
}
