//! Generic values of the format.
#[derive(Clone, PartialEq, Debug)]
pub enum Val { Bool(bool), I8(i8), I16(i16), I32(i32), I64(i64), Bin(Vec<u8>), Str(String), List(Vec<Val>), Struct(Vec<Option<Val>>), Union(usize, Box<Val>) }
pub trait Conv: Sized { fn to_val(&self) -> Val; fn from_val(v: &Val) -> Self; }
macro_rules! prim { ($($t:ty, $v:ident;)*) => { $(impl Conv for $t {
    fn to_val(&self) -> Val { Val::$v(self.clone()) }
    fn from_val(v: &Val) -> Self { match v { Val::$v(x) => x.clone(), _ => unreachable!() } } })* } }
prim! { bool, Bool; i8, I8; i16, I16; i32, I32; i64, I64; Vec<u8>, Bin; String, Str; }
use parquet_format_safe as pf;
macro_rules! lists { ($($t:ty)*) => { $(impl Conv for Vec<$t> {
    fn to_val(&self) -> Val { Val::List(self.iter().map(|x| x.to_val()).collect()) }
    fn from_val(v: &Val) -> Self { match v { Val::List(x) => x.iter().map(Conv::from_val).collect(), _ => unreachable!() } } })* } }
lists! { bool i64 String Vec<u8> pf::Type pf::ConvertedType pf::FieldRepetitionType pf::Encoding pf::CompressionCodec pf::PageType pf::BoundaryOrder pf::Statistics pf::StringType pf::UUIDType pf::MapType pf::ListType pf::EnumType pf::DateType pf::NullType pf::DecimalType pf::MilliSeconds pf::MicroSeconds pf::NanoSeconds pf::TimeUnit pf::TimestampType pf::TimeType pf::IntType pf::JsonType pf::BsonType pf::LogicalType pf::SchemaElement pf::DataPageHeader pf::IndexPageHeader pf::DictionaryPageHeader pf::DataPageHeaderV2 pf::SplitBlockAlgorithm pf::BloomFilterAlgorithm pf::XxHash pf::BloomFilterHash pf::Uncompressed pf::BloomFilterCompression pf::BloomFilterHeader pf::PageHeader pf::KeyValue pf::SortingColumn pf::PageEncodingStats pf::ColumnMetaData pf::EncryptionWithFooterKey pf::EncryptionWithColumnKey pf::ColumnCryptoMetaData pf::ColumnChunk pf::RowGroup pf::TypeDefinedOrder pf::ColumnOrder pf::PageLocation pf::OffsetIndex pf::ColumnIndex pf::AesGcmV1 pf::AesGcmCtrV1 pf::EncryptionAlgorithm pf::FileMetaData pf::FileCryptoMetaData }
