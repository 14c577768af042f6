// generated by gen.py from schema.json
use crate::schema::*;
use crate::val::*;
use parquet_format_safe as pf;
use pf::thrift::protocol::*;
use pf::thrift::Result as R;

pub static TYPES: &[TypeDef] = &[
    TypeDef { name: "Type", kind: Kind::Enum(&[("BOOLEAN", 0), ("INT32", 1), ("INT64", 2), ("INT96", 3), ("FLOAT", 4), ("DOUBLE", 5), ("BYTE_ARRAY", 6), ("FIXED_LEN_BYTE_ARRAY", 7)]) },
    TypeDef { name: "ConvertedType", kind: Kind::Enum(&[("UTF8", 0), ("MAP", 1), ("MAP_KEY_VALUE", 2), ("LIST", 3), ("ENUM", 4), ("DECIMAL", 5), ("DATE", 6), ("TIME_MILLIS", 7), ("TIME_MICROS", 8), ("TIMESTAMP_MILLIS", 9), ("TIMESTAMP_MICROS", 10), ("UINT_8", 11), ("UINT_16", 12), ("UINT_32", 13), ("UINT_64", 14), ("INT_8", 15), ("INT_16", 16), ("INT_32", 17), ("INT_64", 18), ("JSON", 19), ("BSON", 20), ("INTERVAL", 21)]) },
    TypeDef { name: "FieldRepetitionType", kind: Kind::Enum(&[("REQUIRED", 0), ("OPTIONAL", 1), ("REPEATED", 2)]) },
    TypeDef { name: "Encoding", kind: Kind::Enum(&[("PLAIN", 0), ("PLAIN_DICTIONARY", 2), ("RLE", 3), ("BIT_PACKED", 4), ("DELTA_BINARY_PACKED", 5), ("DELTA_LENGTH_BYTE_ARRAY", 6), ("DELTA_BYTE_ARRAY", 7), ("RLE_DICTIONARY", 8), ("BYTE_STREAM_SPLIT", 9)]) },
    TypeDef { name: "CompressionCodec", kind: Kind::Enum(&[("UNCOMPRESSED", 0), ("SNAPPY", 1), ("GZIP", 2), ("LZO", 3), ("BROTLI", 4), ("LZ4", 5), ("ZSTD", 6), ("LZ4_RAW", 7)]) },
    TypeDef { name: "PageType", kind: Kind::Enum(&[("DATA_PAGE", 0), ("INDEX_PAGE", 1), ("DICTIONARY_PAGE", 2), ("DATA_PAGE_V2", 3)]) },
    TypeDef { name: "BoundaryOrder", kind: Kind::Enum(&[("UNORDERED", 0), ("ASCENDING", 1), ("DESCENDING", 2)]) },
    TypeDef { name: "Statistics", kind: Kind::Struct(&[Field { name: "max", wire: "max", id: 1, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }, Field { name: "min", wire: "min", id: 2, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }, Field { name: "null_count", wire: "null_count", id: 3, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "distinct_count", wire: "distinct_count", id: 4, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "max_value", wire: "max_value", id: 5, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }, Field { name: "min_value", wire: "min_value", id: 6, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }]) },
    TypeDef { name: "StringType", kind: Kind::Struct(&[]) },
    TypeDef { name: "UUIDType", kind: Kind::Struct(&[]) },
    TypeDef { name: "MapType", kind: Kind::Struct(&[]) },
    TypeDef { name: "ListType", kind: Kind::Struct(&[]) },
    TypeDef { name: "EnumType", kind: Kind::Struct(&[]) },
    TypeDef { name: "DateType", kind: Kind::Struct(&[]) },
    TypeDef { name: "NullType", kind: Kind::Struct(&[]) },
    TypeDef { name: "DecimalType", kind: Kind::Struct(&[Field { name: "scale", wire: "scale", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "precision", wire: "precision", id: 2, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }]) },
    TypeDef { name: "MilliSeconds", kind: Kind::Struct(&[]) },
    TypeDef { name: "MicroSeconds", kind: Kind::Struct(&[]) },
    TypeDef { name: "NanoSeconds", kind: Kind::Struct(&[]) },
    TypeDef { name: "TimeUnit", kind: Kind::Union(&[Field { name: "MILLIS", wire: "MILLIS", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(16) }, Field { name: "MICROS", wire: "MICROS", id: 2, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(17) }, Field { name: "NANOS", wire: "NANOS", id: 3, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(18) }]) },
    TypeDef { name: "TimestampType", kind: Kind::Struct(&[Field { name: "is_adjusted_to_u_t_c", wire: "isAdjustedToUTC", id: 1, tt: TT::Bool, elem: TT::Stop, req: true, ty: &Ty::Bool }, Field { name: "unit", wire: "unit", id: 2, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(19) }]) },
    TypeDef { name: "TimeType", kind: Kind::Struct(&[Field { name: "is_adjusted_to_u_t_c", wire: "isAdjustedToUTC", id: 1, tt: TT::Bool, elem: TT::Stop, req: true, ty: &Ty::Bool }, Field { name: "unit", wire: "unit", id: 2, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(19) }]) },
    TypeDef { name: "IntType", kind: Kind::Struct(&[Field { name: "bit_width", wire: "bitWidth", id: 1, tt: TT::I08, elem: TT::Stop, req: true, ty: &Ty::I8 }, Field { name: "is_signed", wire: "isSigned", id: 2, tt: TT::Bool, elem: TT::Stop, req: true, ty: &Ty::Bool }]) },
    TypeDef { name: "JsonType", kind: Kind::Struct(&[]) },
    TypeDef { name: "BsonType", kind: Kind::Struct(&[]) },
    TypeDef { name: "LogicalType", kind: Kind::Union(&[Field { name: "STRING", wire: "STRING", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(8) }, Field { name: "MAP", wire: "MAP", id: 2, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(10) }, Field { name: "LIST", wire: "LIST", id: 3, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(11) }, Field { name: "ENUM", wire: "ENUM", id: 4, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(12) }, Field { name: "DECIMAL", wire: "DECIMAL", id: 5, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(15) }, Field { name: "DATE", wire: "DATE", id: 6, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(13) }, Field { name: "TIME", wire: "TIME", id: 7, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(21) }, Field { name: "TIMESTAMP", wire: "TIMESTAMP", id: 8, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(20) }, Field { name: "INTEGER", wire: "INTEGER", id: 10, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(22) }, Field { name: "UNKNOWN", wire: "UNKNOWN", id: 11, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(14) }, Field { name: "JSON", wire: "JSON", id: 12, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(23) }, Field { name: "BSON", wire: "BSON", id: 13, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(24) }, Field { name: "UUID", wire: "UUID", id: 14, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(9) }]) },
    TypeDef { name: "SchemaElement", kind: Kind::Struct(&[Field { name: "type_", wire: "type", id: 1, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::Named(0) }, Field { name: "type_length", wire: "type_length", id: 2, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "repetition_type", wire: "repetition_type", id: 3, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::Named(2) }, Field { name: "name", wire: "name", id: 4, tt: TT::String, elem: TT::Stop, req: true, ty: &Ty::Str }, Field { name: "num_children", wire: "num_children", id: 5, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "converted_type", wire: "converted_type", id: 6, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::Named(1) }, Field { name: "scale", wire: "scale", id: 7, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "precision", wire: "precision", id: 8, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "field_id", wire: "field_id", id: 9, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "logical_type", wire: "logicalType", id: 10, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(25) }]) },
    TypeDef { name: "DataPageHeader", kind: Kind::Struct(&[Field { name: "num_values", wire: "num_values", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "encoding", wire: "encoding", id: 2, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(3) }, Field { name: "definition_level_encoding", wire: "definition_level_encoding", id: 3, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(3) }, Field { name: "repetition_level_encoding", wire: "repetition_level_encoding", id: 4, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(3) }, Field { name: "statistics", wire: "statistics", id: 5, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(7) }]) },
    TypeDef { name: "IndexPageHeader", kind: Kind::Struct(&[]) },
    TypeDef { name: "DictionaryPageHeader", kind: Kind::Struct(&[Field { name: "num_values", wire: "num_values", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "encoding", wire: "encoding", id: 2, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(3) }, Field { name: "is_sorted", wire: "is_sorted", id: 3, tt: TT::Bool, elem: TT::Stop, req: false, ty: &Ty::Bool }]) },
    TypeDef { name: "DataPageHeaderV2", kind: Kind::Struct(&[Field { name: "num_values", wire: "num_values", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "num_nulls", wire: "num_nulls", id: 2, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "num_rows", wire: "num_rows", id: 3, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "encoding", wire: "encoding", id: 4, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(3) }, Field { name: "definition_levels_byte_length", wire: "definition_levels_byte_length", id: 5, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "repetition_levels_byte_length", wire: "repetition_levels_byte_length", id: 6, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "is_compressed", wire: "is_compressed", id: 7, tt: TT::Bool, elem: TT::Stop, req: false, ty: &Ty::Bool }, Field { name: "statistics", wire: "statistics", id: 8, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(7) }]) },
    TypeDef { name: "SplitBlockAlgorithm", kind: Kind::Struct(&[]) },
    TypeDef { name: "BloomFilterAlgorithm", kind: Kind::Union(&[Field { name: "BLOCK", wire: "BLOCK", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(31) }]) },
    TypeDef { name: "XxHash", kind: Kind::Struct(&[]) },
    TypeDef { name: "BloomFilterHash", kind: Kind::Union(&[Field { name: "XXHASH", wire: "XXHASH", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(33) }]) },
    TypeDef { name: "Uncompressed", kind: Kind::Struct(&[]) },
    TypeDef { name: "BloomFilterCompression", kind: Kind::Union(&[Field { name: "UNCOMPRESSED", wire: "UNCOMPRESSED", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(35) }]) },
    TypeDef { name: "BloomFilterHeader", kind: Kind::Struct(&[Field { name: "num_bytes", wire: "numBytes", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "algorithm", wire: "algorithm", id: 2, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(32) }, Field { name: "hash", wire: "hash", id: 3, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(34) }, Field { name: "compression", wire: "compression", id: 4, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(36) }]) },
    TypeDef { name: "PageHeader", kind: Kind::Struct(&[Field { name: "type_", wire: "type", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(5) }, Field { name: "uncompressed_page_size", wire: "uncompressed_page_size", id: 2, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "compressed_page_size", wire: "compressed_page_size", id: 3, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "crc", wire: "crc", id: 4, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "data_page_header", wire: "data_page_header", id: 5, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(27) }, Field { name: "index_page_header", wire: "index_page_header", id: 6, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(28) }, Field { name: "dictionary_page_header", wire: "dictionary_page_header", id: 7, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(29) }, Field { name: "data_page_header_v2", wire: "data_page_header_v2", id: 8, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(30) }]) },
    TypeDef { name: "KeyValue", kind: Kind::Struct(&[Field { name: "key", wire: "key", id: 1, tt: TT::String, elem: TT::Stop, req: true, ty: &Ty::Str }, Field { name: "value", wire: "value", id: 2, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Str }]) },
    TypeDef { name: "SortingColumn", kind: Kind::Struct(&[Field { name: "column_idx", wire: "column_idx", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "descending", wire: "descending", id: 2, tt: TT::Bool, elem: TT::Stop, req: true, ty: &Ty::Bool }, Field { name: "nulls_first", wire: "nulls_first", id: 3, tt: TT::Bool, elem: TT::Stop, req: true, ty: &Ty::Bool }]) },
    TypeDef { name: "PageEncodingStats", kind: Kind::Struct(&[Field { name: "page_type", wire: "page_type", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(5) }, Field { name: "encoding", wire: "encoding", id: 2, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(3) }, Field { name: "count", wire: "count", id: 3, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }]) },
    TypeDef { name: "ColumnMetaData", kind: Kind::Struct(&[Field { name: "type_", wire: "type", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(0) }, Field { name: "encodings", wire: "encodings", id: 2, tt: TT::List, elem: TT::I32, req: true, ty: &Ty::List(&Ty::Named(3)) }, Field { name: "path_in_schema", wire: "path_in_schema", id: 3, tt: TT::List, elem: TT::String, req: true, ty: &Ty::List(&Ty::Str) }, Field { name: "codec", wire: "codec", id: 4, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(4) }, Field { name: "num_values", wire: "num_values", id: 5, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "total_uncompressed_size", wire: "total_uncompressed_size", id: 6, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "total_compressed_size", wire: "total_compressed_size", id: 7, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "key_value_metadata", wire: "key_value_metadata", id: 8, tt: TT::List, elem: TT::Struct, req: false, ty: &Ty::List(&Ty::Named(39)) }, Field { name: "data_page_offset", wire: "data_page_offset", id: 9, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "index_page_offset", wire: "index_page_offset", id: 10, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "dictionary_page_offset", wire: "dictionary_page_offset", id: 11, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "statistics", wire: "statistics", id: 12, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(7) }, Field { name: "encoding_stats", wire: "encoding_stats", id: 13, tt: TT::List, elem: TT::Struct, req: false, ty: &Ty::List(&Ty::Named(41)) }, Field { name: "bloom_filter_offset", wire: "bloom_filter_offset", id: 14, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }]) },
    TypeDef { name: "EncryptionWithFooterKey", kind: Kind::Struct(&[]) },
    TypeDef { name: "EncryptionWithColumnKey", kind: Kind::Struct(&[Field { name: "path_in_schema", wire: "path_in_schema", id: 1, tt: TT::List, elem: TT::String, req: true, ty: &Ty::List(&Ty::Str) }, Field { name: "key_metadata", wire: "key_metadata", id: 2, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }]) },
    TypeDef { name: "ColumnCryptoMetaData", kind: Kind::Union(&[Field { name: "ENCRYPTIONWITHFOOTERKEY", wire: "ENCRYPTION_WITH_FOOTER_KEY", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(43) }, Field { name: "ENCRYPTIONWITHCOLUMNKEY", wire: "ENCRYPTION_WITH_COLUMN_KEY", id: 2, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(44) }]) },
    TypeDef { name: "ColumnChunk", kind: Kind::Struct(&[Field { name: "file_path", wire: "file_path", id: 1, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Str }, Field { name: "file_offset", wire: "file_offset", id: 2, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "meta_data", wire: "meta_data", id: 3, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(42) }, Field { name: "offset_index_offset", wire: "offset_index_offset", id: 4, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "offset_index_length", wire: "offset_index_length", id: 5, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "column_index_offset", wire: "column_index_offset", id: 6, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "column_index_length", wire: "column_index_length", id: 7, tt: TT::I32, elem: TT::Stop, req: false, ty: &Ty::I32 }, Field { name: "crypto_metadata", wire: "crypto_metadata", id: 8, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(45) }, Field { name: "encrypted_column_metadata", wire: "encrypted_column_metadata", id: 9, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }]) },
    TypeDef { name: "RowGroup", kind: Kind::Struct(&[Field { name: "columns", wire: "columns", id: 1, tt: TT::List, elem: TT::Struct, req: true, ty: &Ty::List(&Ty::Named(46)) }, Field { name: "total_byte_size", wire: "total_byte_size", id: 2, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "num_rows", wire: "num_rows", id: 3, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "sorting_columns", wire: "sorting_columns", id: 4, tt: TT::List, elem: TT::Struct, req: false, ty: &Ty::List(&Ty::Named(40)) }, Field { name: "file_offset", wire: "file_offset", id: 5, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "total_compressed_size", wire: "total_compressed_size", id: 6, tt: TT::I64, elem: TT::Stop, req: false, ty: &Ty::I64 }, Field { name: "ordinal", wire: "ordinal", id: 7, tt: TT::I16, elem: TT::Stop, req: false, ty: &Ty::I16 }]) },
    TypeDef { name: "TypeDefinedOrder", kind: Kind::Struct(&[]) },
    TypeDef { name: "ColumnOrder", kind: Kind::Union(&[Field { name: "TYPEORDER", wire: "TYPE_ORDER", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(48) }]) },
    TypeDef { name: "PageLocation", kind: Kind::Struct(&[Field { name: "offset", wire: "offset", id: 1, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "compressed_page_size", wire: "compressed_page_size", id: 2, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "first_row_index", wire: "first_row_index", id: 3, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }]) },
    TypeDef { name: "OffsetIndex", kind: Kind::Struct(&[Field { name: "page_locations", wire: "page_locations", id: 1, tt: TT::List, elem: TT::Struct, req: true, ty: &Ty::List(&Ty::Named(50)) }]) },
    TypeDef { name: "ColumnIndex", kind: Kind::Struct(&[Field { name: "null_pages", wire: "null_pages", id: 1, tt: TT::List, elem: TT::Bool, req: true, ty: &Ty::List(&Ty::Bool) }, Field { name: "min_values", wire: "min_values", id: 2, tt: TT::List, elem: TT::String, req: true, ty: &Ty::List(&Ty::Bin) }, Field { name: "max_values", wire: "max_values", id: 3, tt: TT::List, elem: TT::String, req: true, ty: &Ty::List(&Ty::Bin) }, Field { name: "boundary_order", wire: "boundary_order", id: 4, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::Named(6) }, Field { name: "null_counts", wire: "null_counts", id: 5, tt: TT::List, elem: TT::I64, req: false, ty: &Ty::List(&Ty::I64) }]) },
    TypeDef { name: "AesGcmV1", kind: Kind::Struct(&[Field { name: "aad_prefix", wire: "aad_prefix", id: 1, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }, Field { name: "aad_file_unique", wire: "aad_file_unique", id: 2, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }, Field { name: "supply_aad_prefix", wire: "supply_aad_prefix", id: 3, tt: TT::Bool, elem: TT::Stop, req: false, ty: &Ty::Bool }]) },
    TypeDef { name: "AesGcmCtrV1", kind: Kind::Struct(&[Field { name: "aad_prefix", wire: "aad_prefix", id: 1, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }, Field { name: "aad_file_unique", wire: "aad_file_unique", id: 2, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }, Field { name: "supply_aad_prefix", wire: "supply_aad_prefix", id: 3, tt: TT::Bool, elem: TT::Stop, req: false, ty: &Ty::Bool }]) },
    TypeDef { name: "EncryptionAlgorithm", kind: Kind::Union(&[Field { name: "AESGCMV1", wire: "AES_GCM_V1", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(53) }, Field { name: "AESGCMCTRV1", wire: "AES_GCM_CTR_V1", id: 2, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(54) }]) },
    TypeDef { name: "FileMetaData", kind: Kind::Struct(&[Field { name: "version", wire: "version", id: 1, tt: TT::I32, elem: TT::Stop, req: true, ty: &Ty::I32 }, Field { name: "schema", wire: "schema", id: 2, tt: TT::List, elem: TT::Struct, req: true, ty: &Ty::List(&Ty::Named(26)) }, Field { name: "num_rows", wire: "num_rows", id: 3, tt: TT::I64, elem: TT::Stop, req: true, ty: &Ty::I64 }, Field { name: "row_groups", wire: "row_groups", id: 4, tt: TT::List, elem: TT::Struct, req: true, ty: &Ty::List(&Ty::Named(47)) }, Field { name: "key_value_metadata", wire: "key_value_metadata", id: 5, tt: TT::List, elem: TT::Struct, req: false, ty: &Ty::List(&Ty::Named(39)) }, Field { name: "created_by", wire: "created_by", id: 6, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Str }, Field { name: "column_orders", wire: "column_orders", id: 7, tt: TT::List, elem: TT::Struct, req: false, ty: &Ty::List(&Ty::Named(49)) }, Field { name: "encryption_algorithm", wire: "encryption_algorithm", id: 8, tt: TT::Struct, elem: TT::Stop, req: false, ty: &Ty::Named(55) }, Field { name: "footer_signing_key_metadata", wire: "footer_signing_key_metadata", id: 9, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }]) },
    TypeDef { name: "FileCryptoMetaData", kind: Kind::Struct(&[Field { name: "encryption_algorithm", wire: "encryption_algorithm", id: 1, tt: TT::Struct, elem: TT::Stop, req: true, ty: &Ty::Named(55) }, Field { name: "key_metadata", wire: "key_metadata", id: 2, tt: TT::String, elem: TT::Stop, req: false, ty: &Ty::Bin }]) },
];
impl Conv for pf::Type {
    fn to_val(&self) -> Val { Val::I32(self.0) }
    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::Type(*x), _ => unreachable!() } }
}
impl Conv for pf::ConvertedType {
    fn to_val(&self) -> Val { Val::I32(self.0) }
    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::ConvertedType(*x), _ => unreachable!() } }
}
impl Conv for pf::FieldRepetitionType {
    fn to_val(&self) -> Val { Val::I32(self.0) }
    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::FieldRepetitionType(*x), _ => unreachable!() } }
}
impl Conv for pf::Encoding {
    fn to_val(&self) -> Val { Val::I32(self.0) }
    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::Encoding(*x), _ => unreachable!() } }
}
impl Conv for pf::CompressionCodec {
    fn to_val(&self) -> Val { Val::I32(self.0) }
    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::CompressionCodec(*x), _ => unreachable!() } }
}
impl Conv for pf::PageType {
    fn to_val(&self) -> Val { Val::I32(self.0) }
    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::PageType(*x), _ => unreachable!() } }
}
impl Conv for pf::BoundaryOrder {
    fn to_val(&self) -> Val { Val::I32(self.0) }
    fn from_val(v: &Val) -> Self { match v { Val::I32(x) => pf::BoundaryOrder(*x), _ => unreachable!() } }
}
impl Conv for pf::Statistics {
    fn to_val(&self) -> Val { Val::Struct(vec![self.max.as_ref().map(|x| x.to_val()), self.min.as_ref().map(|x| x.to_val()), self.null_count.as_ref().map(|x| x.to_val()), self.distinct_count.as_ref().map(|x| x.to_val()), self.max_value.as_ref().map(|x| x.to_val()), self.min_value.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::Statistics { max: f[0].as_ref().map(Conv::from_val), min: f[1].as_ref().map(Conv::from_val), null_count: f[2].as_ref().map(Conv::from_val), distinct_count: f[3].as_ref().map(Conv::from_val), max_value: f[4].as_ref().map(Conv::from_val), min_value: f[5].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::StringType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::StringType {  }, _ => unreachable!() } }
}
impl Conv for pf::UUIDType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::UUIDType {  }, _ => unreachable!() } }
}
impl Conv for pf::MapType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::MapType {  }, _ => unreachable!() } }
}
impl Conv for pf::ListType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::ListType {  }, _ => unreachable!() } }
}
impl Conv for pf::EnumType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::EnumType {  }, _ => unreachable!() } }
}
impl Conv for pf::DateType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::DateType {  }, _ => unreachable!() } }
}
impl Conv for pf::NullType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::NullType {  }, _ => unreachable!() } }
}
impl Conv for pf::DecimalType {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.scale.to_val()), Some(self.precision.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::DecimalType { scale: Conv::from_val(f[0].as_ref().unwrap()), precision: Conv::from_val(f[1].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::MilliSeconds {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::MilliSeconds {  }, _ => unreachable!() } }
}
impl Conv for pf::MicroSeconds {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::MicroSeconds {  }, _ => unreachable!() } }
}
impl Conv for pf::NanoSeconds {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::NanoSeconds {  }, _ => unreachable!() } }
}
impl Conv for pf::TimeUnit {
    fn to_val(&self) -> Val { match self { pf::TimeUnit::MILLIS(x) => Val::Union(0, Box::new(x.to_val())), pf::TimeUnit::MICROS(x) => Val::Union(1, Box::new(x.to_val())), pf::TimeUnit::NANOS(x) => Val::Union(2, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::TimeUnit::MILLIS(Conv::from_val(x)), Val::Union(1, x) => pf::TimeUnit::MICROS(Conv::from_val(x)), Val::Union(2, x) => pf::TimeUnit::NANOS(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::TimestampType {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.is_adjusted_to_u_t_c.to_val()), Some(self.unit.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::TimestampType { is_adjusted_to_u_t_c: Conv::from_val(f[0].as_ref().unwrap()), unit: Conv::from_val(f[1].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::TimeType {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.is_adjusted_to_u_t_c.to_val()), Some(self.unit.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::TimeType { is_adjusted_to_u_t_c: Conv::from_val(f[0].as_ref().unwrap()), unit: Conv::from_val(f[1].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::IntType {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.bit_width.to_val()), Some(self.is_signed.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::IntType { bit_width: Conv::from_val(f[0].as_ref().unwrap()), is_signed: Conv::from_val(f[1].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::JsonType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::JsonType {  }, _ => unreachable!() } }
}
impl Conv for pf::BsonType {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::BsonType {  }, _ => unreachable!() } }
}
impl Conv for pf::LogicalType {
    fn to_val(&self) -> Val { match self { pf::LogicalType::STRING(x) => Val::Union(0, Box::new(x.to_val())), pf::LogicalType::MAP(x) => Val::Union(1, Box::new(x.to_val())), pf::LogicalType::LIST(x) => Val::Union(2, Box::new(x.to_val())), pf::LogicalType::ENUM(x) => Val::Union(3, Box::new(x.to_val())), pf::LogicalType::DECIMAL(x) => Val::Union(4, Box::new(x.to_val())), pf::LogicalType::DATE(x) => Val::Union(5, Box::new(x.to_val())), pf::LogicalType::TIME(x) => Val::Union(6, Box::new(x.to_val())), pf::LogicalType::TIMESTAMP(x) => Val::Union(7, Box::new(x.to_val())), pf::LogicalType::INTEGER(x) => Val::Union(8, Box::new(x.to_val())), pf::LogicalType::UNKNOWN(x) => Val::Union(9, Box::new(x.to_val())), pf::LogicalType::JSON(x) => Val::Union(10, Box::new(x.to_val())), pf::LogicalType::BSON(x) => Val::Union(11, Box::new(x.to_val())), pf::LogicalType::UUID(x) => Val::Union(12, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::LogicalType::STRING(Conv::from_val(x)), Val::Union(1, x) => pf::LogicalType::MAP(Conv::from_val(x)), Val::Union(2, x) => pf::LogicalType::LIST(Conv::from_val(x)), Val::Union(3, x) => pf::LogicalType::ENUM(Conv::from_val(x)), Val::Union(4, x) => pf::LogicalType::DECIMAL(Conv::from_val(x)), Val::Union(5, x) => pf::LogicalType::DATE(Conv::from_val(x)), Val::Union(6, x) => pf::LogicalType::TIME(Conv::from_val(x)), Val::Union(7, x) => pf::LogicalType::TIMESTAMP(Conv::from_val(x)), Val::Union(8, x) => pf::LogicalType::INTEGER(Conv::from_val(x)), Val::Union(9, x) => pf::LogicalType::UNKNOWN(Conv::from_val(x)), Val::Union(10, x) => pf::LogicalType::JSON(Conv::from_val(x)), Val::Union(11, x) => pf::LogicalType::BSON(Conv::from_val(x)), Val::Union(12, x) => pf::LogicalType::UUID(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::SchemaElement {
    fn to_val(&self) -> Val { Val::Struct(vec![self.type_.as_ref().map(|x| x.to_val()), self.type_length.as_ref().map(|x| x.to_val()), self.repetition_type.as_ref().map(|x| x.to_val()), Some(self.name.to_val()), self.num_children.as_ref().map(|x| x.to_val()), self.converted_type.as_ref().map(|x| x.to_val()), self.scale.as_ref().map(|x| x.to_val()), self.precision.as_ref().map(|x| x.to_val()), self.field_id.as_ref().map(|x| x.to_val()), self.logical_type.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::SchemaElement { type_: f[0].as_ref().map(Conv::from_val), type_length: f[1].as_ref().map(Conv::from_val), repetition_type: f[2].as_ref().map(Conv::from_val), name: Conv::from_val(f[3].as_ref().unwrap()), num_children: f[4].as_ref().map(Conv::from_val), converted_type: f[5].as_ref().map(Conv::from_val), scale: f[6].as_ref().map(Conv::from_val), precision: f[7].as_ref().map(Conv::from_val), field_id: f[8].as_ref().map(Conv::from_val), logical_type: f[9].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::DataPageHeader {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.num_values.to_val()), Some(self.encoding.to_val()), Some(self.definition_level_encoding.to_val()), Some(self.repetition_level_encoding.to_val()), self.statistics.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::DataPageHeader { num_values: Conv::from_val(f[0].as_ref().unwrap()), encoding: Conv::from_val(f[1].as_ref().unwrap()), definition_level_encoding: Conv::from_val(f[2].as_ref().unwrap()), repetition_level_encoding: Conv::from_val(f[3].as_ref().unwrap()), statistics: f[4].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::IndexPageHeader {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::IndexPageHeader {  }, _ => unreachable!() } }
}
impl Conv for pf::DictionaryPageHeader {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.num_values.to_val()), Some(self.encoding.to_val()), self.is_sorted.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::DictionaryPageHeader { num_values: Conv::from_val(f[0].as_ref().unwrap()), encoding: Conv::from_val(f[1].as_ref().unwrap()), is_sorted: f[2].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::DataPageHeaderV2 {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.num_values.to_val()), Some(self.num_nulls.to_val()), Some(self.num_rows.to_val()), Some(self.encoding.to_val()), Some(self.definition_levels_byte_length.to_val()), Some(self.repetition_levels_byte_length.to_val()), self.is_compressed.as_ref().map(|x| x.to_val()), self.statistics.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::DataPageHeaderV2 { num_values: Conv::from_val(f[0].as_ref().unwrap()), num_nulls: Conv::from_val(f[1].as_ref().unwrap()), num_rows: Conv::from_val(f[2].as_ref().unwrap()), encoding: Conv::from_val(f[3].as_ref().unwrap()), definition_levels_byte_length: Conv::from_val(f[4].as_ref().unwrap()), repetition_levels_byte_length: Conv::from_val(f[5].as_ref().unwrap()), is_compressed: f[6].as_ref().map(Conv::from_val), statistics: f[7].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::SplitBlockAlgorithm {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::SplitBlockAlgorithm {  }, _ => unreachable!() } }
}
impl Conv for pf::BloomFilterAlgorithm {
    fn to_val(&self) -> Val { match self { pf::BloomFilterAlgorithm::BLOCK(x) => Val::Union(0, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::BloomFilterAlgorithm::BLOCK(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::XxHash {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::XxHash {  }, _ => unreachable!() } }
}
impl Conv for pf::BloomFilterHash {
    fn to_val(&self) -> Val { match self { pf::BloomFilterHash::XXHASH(x) => Val::Union(0, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::BloomFilterHash::XXHASH(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::Uncompressed {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::Uncompressed {  }, _ => unreachable!() } }
}
impl Conv for pf::BloomFilterCompression {
    fn to_val(&self) -> Val { match self { pf::BloomFilterCompression::UNCOMPRESSED(x) => Val::Union(0, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::BloomFilterCompression::UNCOMPRESSED(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::BloomFilterHeader {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.num_bytes.to_val()), Some(self.algorithm.to_val()), Some(self.hash.to_val()), Some(self.compression.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::BloomFilterHeader { num_bytes: Conv::from_val(f[0].as_ref().unwrap()), algorithm: Conv::from_val(f[1].as_ref().unwrap()), hash: Conv::from_val(f[2].as_ref().unwrap()), compression: Conv::from_val(f[3].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::PageHeader {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.type_.to_val()), Some(self.uncompressed_page_size.to_val()), Some(self.compressed_page_size.to_val()), self.crc.as_ref().map(|x| x.to_val()), self.data_page_header.as_ref().map(|x| x.to_val()), self.index_page_header.as_ref().map(|x| x.to_val()), self.dictionary_page_header.as_ref().map(|x| x.to_val()), self.data_page_header_v2.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::PageHeader { type_: Conv::from_val(f[0].as_ref().unwrap()), uncompressed_page_size: Conv::from_val(f[1].as_ref().unwrap()), compressed_page_size: Conv::from_val(f[2].as_ref().unwrap()), crc: f[3].as_ref().map(Conv::from_val), data_page_header: f[4].as_ref().map(Conv::from_val), index_page_header: f[5].as_ref().map(Conv::from_val), dictionary_page_header: f[6].as_ref().map(Conv::from_val), data_page_header_v2: f[7].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::KeyValue {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.key.to_val()), self.value.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::KeyValue { key: Conv::from_val(f[0].as_ref().unwrap()), value: f[1].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::SortingColumn {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.column_idx.to_val()), Some(self.descending.to_val()), Some(self.nulls_first.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::SortingColumn { column_idx: Conv::from_val(f[0].as_ref().unwrap()), descending: Conv::from_val(f[1].as_ref().unwrap()), nulls_first: Conv::from_val(f[2].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::PageEncodingStats {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.page_type.to_val()), Some(self.encoding.to_val()), Some(self.count.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::PageEncodingStats { page_type: Conv::from_val(f[0].as_ref().unwrap()), encoding: Conv::from_val(f[1].as_ref().unwrap()), count: Conv::from_val(f[2].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::ColumnMetaData {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.type_.to_val()), Some(self.encodings.to_val()), Some(self.path_in_schema.to_val()), Some(self.codec.to_val()), Some(self.num_values.to_val()), Some(self.total_uncompressed_size.to_val()), Some(self.total_compressed_size.to_val()), self.key_value_metadata.as_ref().map(|x| x.to_val()), Some(self.data_page_offset.to_val()), self.index_page_offset.as_ref().map(|x| x.to_val()), self.dictionary_page_offset.as_ref().map(|x| x.to_val()), self.statistics.as_ref().map(|x| x.to_val()), self.encoding_stats.as_ref().map(|x| x.to_val()), self.bloom_filter_offset.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::ColumnMetaData { type_: Conv::from_val(f[0].as_ref().unwrap()), encodings: Conv::from_val(f[1].as_ref().unwrap()), path_in_schema: Conv::from_val(f[2].as_ref().unwrap()), codec: Conv::from_val(f[3].as_ref().unwrap()), num_values: Conv::from_val(f[4].as_ref().unwrap()), total_uncompressed_size: Conv::from_val(f[5].as_ref().unwrap()), total_compressed_size: Conv::from_val(f[6].as_ref().unwrap()), key_value_metadata: f[7].as_ref().map(Conv::from_val), data_page_offset: Conv::from_val(f[8].as_ref().unwrap()), index_page_offset: f[9].as_ref().map(Conv::from_val), dictionary_page_offset: f[10].as_ref().map(Conv::from_val), statistics: f[11].as_ref().map(Conv::from_val), encoding_stats: f[12].as_ref().map(Conv::from_val), bloom_filter_offset: f[13].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::EncryptionWithFooterKey {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::EncryptionWithFooterKey {  }, _ => unreachable!() } }
}
impl Conv for pf::EncryptionWithColumnKey {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.path_in_schema.to_val()), self.key_metadata.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::EncryptionWithColumnKey { path_in_schema: Conv::from_val(f[0].as_ref().unwrap()), key_metadata: f[1].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::ColumnCryptoMetaData {
    fn to_val(&self) -> Val { match self { pf::ColumnCryptoMetaData::ENCRYPTIONWITHFOOTERKEY(x) => Val::Union(0, Box::new(x.to_val())), pf::ColumnCryptoMetaData::ENCRYPTIONWITHCOLUMNKEY(x) => Val::Union(1, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::ColumnCryptoMetaData::ENCRYPTIONWITHFOOTERKEY(Conv::from_val(x)), Val::Union(1, x) => pf::ColumnCryptoMetaData::ENCRYPTIONWITHCOLUMNKEY(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::ColumnChunk {
    fn to_val(&self) -> Val { Val::Struct(vec![self.file_path.as_ref().map(|x| x.to_val()), Some(self.file_offset.to_val()), self.meta_data.as_ref().map(|x| x.to_val()), self.offset_index_offset.as_ref().map(|x| x.to_val()), self.offset_index_length.as_ref().map(|x| x.to_val()), self.column_index_offset.as_ref().map(|x| x.to_val()), self.column_index_length.as_ref().map(|x| x.to_val()), self.crypto_metadata.as_ref().map(|x| x.to_val()), self.encrypted_column_metadata.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::ColumnChunk { file_path: f[0].as_ref().map(Conv::from_val), file_offset: Conv::from_val(f[1].as_ref().unwrap()), meta_data: f[2].as_ref().map(Conv::from_val), offset_index_offset: f[3].as_ref().map(Conv::from_val), offset_index_length: f[4].as_ref().map(Conv::from_val), column_index_offset: f[5].as_ref().map(Conv::from_val), column_index_length: f[6].as_ref().map(Conv::from_val), crypto_metadata: f[7].as_ref().map(Conv::from_val), encrypted_column_metadata: f[8].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::RowGroup {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.columns.to_val()), Some(self.total_byte_size.to_val()), Some(self.num_rows.to_val()), self.sorting_columns.as_ref().map(|x| x.to_val()), self.file_offset.as_ref().map(|x| x.to_val()), self.total_compressed_size.as_ref().map(|x| x.to_val()), self.ordinal.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::RowGroup { columns: Conv::from_val(f[0].as_ref().unwrap()), total_byte_size: Conv::from_val(f[1].as_ref().unwrap()), num_rows: Conv::from_val(f[2].as_ref().unwrap()), sorting_columns: f[3].as_ref().map(Conv::from_val), file_offset: f[4].as_ref().map(Conv::from_val), total_compressed_size: f[5].as_ref().map(Conv::from_val), ordinal: f[6].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::TypeDefinedOrder {
    fn to_val(&self) -> Val { Val::Struct(vec![]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(_) => pf::TypeDefinedOrder {  }, _ => unreachable!() } }
}
impl Conv for pf::ColumnOrder {
    fn to_val(&self) -> Val { match self { pf::ColumnOrder::TYPEORDER(x) => Val::Union(0, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::ColumnOrder::TYPEORDER(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::PageLocation {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.offset.to_val()), Some(self.compressed_page_size.to_val()), Some(self.first_row_index.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::PageLocation { offset: Conv::from_val(f[0].as_ref().unwrap()), compressed_page_size: Conv::from_val(f[1].as_ref().unwrap()), first_row_index: Conv::from_val(f[2].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::OffsetIndex {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.page_locations.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::OffsetIndex { page_locations: Conv::from_val(f[0].as_ref().unwrap()) }, _ => unreachable!() } }
}
impl Conv for pf::ColumnIndex {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.null_pages.to_val()), Some(self.min_values.to_val()), Some(self.max_values.to_val()), Some(self.boundary_order.to_val()), self.null_counts.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::ColumnIndex { null_pages: Conv::from_val(f[0].as_ref().unwrap()), min_values: Conv::from_val(f[1].as_ref().unwrap()), max_values: Conv::from_val(f[2].as_ref().unwrap()), boundary_order: Conv::from_val(f[3].as_ref().unwrap()), null_counts: f[4].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::AesGcmV1 {
    fn to_val(&self) -> Val { Val::Struct(vec![self.aad_prefix.as_ref().map(|x| x.to_val()), self.aad_file_unique.as_ref().map(|x| x.to_val()), self.supply_aad_prefix.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::AesGcmV1 { aad_prefix: f[0].as_ref().map(Conv::from_val), aad_file_unique: f[1].as_ref().map(Conv::from_val), supply_aad_prefix: f[2].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::AesGcmCtrV1 {
    fn to_val(&self) -> Val { Val::Struct(vec![self.aad_prefix.as_ref().map(|x| x.to_val()), self.aad_file_unique.as_ref().map(|x| x.to_val()), self.supply_aad_prefix.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::AesGcmCtrV1 { aad_prefix: f[0].as_ref().map(Conv::from_val), aad_file_unique: f[1].as_ref().map(Conv::from_val), supply_aad_prefix: f[2].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::EncryptionAlgorithm {
    fn to_val(&self) -> Val { match self { pf::EncryptionAlgorithm::AESGCMV1(x) => Val::Union(0, Box::new(x.to_val())), pf::EncryptionAlgorithm::AESGCMCTRV1(x) => Val::Union(1, Box::new(x.to_val())) } }
    fn from_val(v: &Val) -> Self { match v { Val::Union(0, x) => pf::EncryptionAlgorithm::AESGCMV1(Conv::from_val(x)), Val::Union(1, x) => pf::EncryptionAlgorithm::AESGCMCTRV1(Conv::from_val(x)), _ => unreachable!() } }
}
impl Conv for pf::FileMetaData {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.version.to_val()), Some(self.schema.to_val()), Some(self.num_rows.to_val()), Some(self.row_groups.to_val()), self.key_value_metadata.as_ref().map(|x| x.to_val()), self.created_by.as_ref().map(|x| x.to_val()), self.column_orders.as_ref().map(|x| x.to_val()), self.encryption_algorithm.as_ref().map(|x| x.to_val()), self.footer_signing_key_metadata.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::FileMetaData { version: Conv::from_val(f[0].as_ref().unwrap()), schema: Conv::from_val(f[1].as_ref().unwrap()), num_rows: Conv::from_val(f[2].as_ref().unwrap()), row_groups: Conv::from_val(f[3].as_ref().unwrap()), key_value_metadata: f[4].as_ref().map(Conv::from_val), created_by: f[5].as_ref().map(Conv::from_val), column_orders: f[6].as_ref().map(Conv::from_val), encryption_algorithm: f[7].as_ref().map(Conv::from_val), footer_signing_key_metadata: f[8].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
impl Conv for pf::FileCryptoMetaData {
    fn to_val(&self) -> Val { Val::Struct(vec![Some(self.encryption_algorithm.to_val()), self.key_metadata.as_ref().map(|x| x.to_val())]) }
    fn from_val(v: &Val) -> Self { match v { Val::Struct(f) => pf::FileCryptoMetaData { encryption_algorithm: Conv::from_val(f[0].as_ref().unwrap()), key_metadata: f[1].as_ref().map(Conv::from_val) }, _ => unreachable!() } }
}
pub fn rs<T: TInputProtocol>(t: usize, p: &mut T) -> R<Val> {
    match t {
        0 => <pf::Type as ReadThrift>::read_from_in_protocol(p).map(|v: pf::Type| v.to_val()),
        1 => <pf::ConvertedType as ReadThrift>::read_from_in_protocol(p).map(|v: pf::ConvertedType| v.to_val()),
        2 => <pf::FieldRepetitionType as ReadThrift>::read_from_in_protocol(p).map(|v: pf::FieldRepetitionType| v.to_val()),
        3 => <pf::Encoding as ReadThrift>::read_from_in_protocol(p).map(|v: pf::Encoding| v.to_val()),
        4 => <pf::CompressionCodec as ReadThrift>::read_from_in_protocol(p).map(|v: pf::CompressionCodec| v.to_val()),
        5 => <pf::PageType as ReadThrift>::read_from_in_protocol(p).map(|v: pf::PageType| v.to_val()),
        6 => <pf::BoundaryOrder as ReadThrift>::read_from_in_protocol(p).map(|v: pf::BoundaryOrder| v.to_val()),
        7 => pf::Statistics::read_from_in_protocol(p).map(|v: pf::Statistics| v.to_val()),
        8 => pf::StringType::read_from_in_protocol(p).map(|v: pf::StringType| v.to_val()),
        9 => pf::UUIDType::read_from_in_protocol(p).map(|v: pf::UUIDType| v.to_val()),
        10 => pf::MapType::read_from_in_protocol(p).map(|v: pf::MapType| v.to_val()),
        11 => pf::ListType::read_from_in_protocol(p).map(|v: pf::ListType| v.to_val()),
        12 => pf::EnumType::read_from_in_protocol(p).map(|v: pf::EnumType| v.to_val()),
        13 => pf::DateType::read_from_in_protocol(p).map(|v: pf::DateType| v.to_val()),
        14 => pf::NullType::read_from_in_protocol(p).map(|v: pf::NullType| v.to_val()),
        15 => pf::DecimalType::read_from_in_protocol(p).map(|v: pf::DecimalType| v.to_val()),
        16 => pf::MilliSeconds::read_from_in_protocol(p).map(|v: pf::MilliSeconds| v.to_val()),
        17 => pf::MicroSeconds::read_from_in_protocol(p).map(|v: pf::MicroSeconds| v.to_val()),
        18 => pf::NanoSeconds::read_from_in_protocol(p).map(|v: pf::NanoSeconds| v.to_val()),
        19 => pf::TimeUnit::read_from_in_protocol(p).map(|v: pf::TimeUnit| v.to_val()),
        20 => pf::TimestampType::read_from_in_protocol(p).map(|v: pf::TimestampType| v.to_val()),
        21 => pf::TimeType::read_from_in_protocol(p).map(|v: pf::TimeType| v.to_val()),
        22 => pf::IntType::read_from_in_protocol(p).map(|v: pf::IntType| v.to_val()),
        23 => pf::JsonType::read_from_in_protocol(p).map(|v: pf::JsonType| v.to_val()),
        24 => pf::BsonType::read_from_in_protocol(p).map(|v: pf::BsonType| v.to_val()),
        25 => pf::LogicalType::read_from_in_protocol(p).map(|v: pf::LogicalType| v.to_val()),
        26 => pf::SchemaElement::read_from_in_protocol(p).map(|v: pf::SchemaElement| v.to_val()),
        27 => pf::DataPageHeader::read_from_in_protocol(p).map(|v: pf::DataPageHeader| v.to_val()),
        28 => pf::IndexPageHeader::read_from_in_protocol(p).map(|v: pf::IndexPageHeader| v.to_val()),
        29 => pf::DictionaryPageHeader::read_from_in_protocol(p).map(|v: pf::DictionaryPageHeader| v.to_val()),
        30 => pf::DataPageHeaderV2::read_from_in_protocol(p).map(|v: pf::DataPageHeaderV2| v.to_val()),
        31 => pf::SplitBlockAlgorithm::read_from_in_protocol(p).map(|v: pf::SplitBlockAlgorithm| v.to_val()),
        32 => pf::BloomFilterAlgorithm::read_from_in_protocol(p).map(|v: pf::BloomFilterAlgorithm| v.to_val()),
        33 => pf::XxHash::read_from_in_protocol(p).map(|v: pf::XxHash| v.to_val()),
        34 => pf::BloomFilterHash::read_from_in_protocol(p).map(|v: pf::BloomFilterHash| v.to_val()),
        35 => pf::Uncompressed::read_from_in_protocol(p).map(|v: pf::Uncompressed| v.to_val()),
        36 => pf::BloomFilterCompression::read_from_in_protocol(p).map(|v: pf::BloomFilterCompression| v.to_val()),
        37 => pf::BloomFilterHeader::read_from_in_protocol(p).map(|v: pf::BloomFilterHeader| v.to_val()),
        38 => pf::PageHeader::read_from_in_protocol(p).map(|v: pf::PageHeader| v.to_val()),
        39 => pf::KeyValue::read_from_in_protocol(p).map(|v: pf::KeyValue| v.to_val()),
        40 => pf::SortingColumn::read_from_in_protocol(p).map(|v: pf::SortingColumn| v.to_val()),
        41 => pf::PageEncodingStats::read_from_in_protocol(p).map(|v: pf::PageEncodingStats| v.to_val()),
        42 => pf::ColumnMetaData::read_from_in_protocol(p).map(|v: pf::ColumnMetaData| v.to_val()),
        43 => pf::EncryptionWithFooterKey::read_from_in_protocol(p).map(|v: pf::EncryptionWithFooterKey| v.to_val()),
        44 => pf::EncryptionWithColumnKey::read_from_in_protocol(p).map(|v: pf::EncryptionWithColumnKey| v.to_val()),
        45 => pf::ColumnCryptoMetaData::read_from_in_protocol(p).map(|v: pf::ColumnCryptoMetaData| v.to_val()),
        46 => pf::ColumnChunk::read_from_in_protocol(p).map(|v: pf::ColumnChunk| v.to_val()),
        47 => pf::RowGroup::read_from_in_protocol(p).map(|v: pf::RowGroup| v.to_val()),
        48 => pf::TypeDefinedOrder::read_from_in_protocol(p).map(|v: pf::TypeDefinedOrder| v.to_val()),
        49 => pf::ColumnOrder::read_from_in_protocol(p).map(|v: pf::ColumnOrder| v.to_val()),
        50 => pf::PageLocation::read_from_in_protocol(p).map(|v: pf::PageLocation| v.to_val()),
        51 => pf::OffsetIndex::read_from_in_protocol(p).map(|v: pf::OffsetIndex| v.to_val()),
        52 => pf::ColumnIndex::read_from_in_protocol(p).map(|v: pf::ColumnIndex| v.to_val()),
        53 => pf::AesGcmV1::read_from_in_protocol(p).map(|v: pf::AesGcmV1| v.to_val()),
        54 => pf::AesGcmCtrV1::read_from_in_protocol(p).map(|v: pf::AesGcmCtrV1| v.to_val()),
        55 => pf::EncryptionAlgorithm::read_from_in_protocol(p).map(|v: pf::EncryptionAlgorithm| v.to_val()),
        56 => pf::FileMetaData::read_from_in_protocol(p).map(|v: pf::FileMetaData| v.to_val()),
        57 => pf::FileCryptoMetaData::read_from_in_protocol(p).map(|v: pf::FileCryptoMetaData| v.to_val()),
        _ => unreachable!(),
    }
}
pub fn rs_trait<T: TInputProtocol>(t: usize, p: &mut T) -> R<Val> {
    match t {
        0 => <pf::Type as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        1 => <pf::ConvertedType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        2 => <pf::FieldRepetitionType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        3 => <pf::Encoding as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        4 => <pf::CompressionCodec as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        5 => <pf::PageType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        6 => <pf::BoundaryOrder as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        7 => <pf::Statistics as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        8 => <pf::StringType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        9 => <pf::UUIDType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        10 => <pf::MapType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        11 => <pf::ListType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        12 => <pf::EnumType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        13 => <pf::DateType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        14 => <pf::NullType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        15 => <pf::DecimalType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        16 => <pf::MilliSeconds as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        17 => <pf::MicroSeconds as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        18 => <pf::NanoSeconds as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        19 => <pf::TimeUnit as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        20 => <pf::TimestampType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        21 => <pf::TimeType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        22 => <pf::IntType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        23 => <pf::JsonType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        24 => <pf::BsonType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        25 => <pf::LogicalType as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        26 => <pf::SchemaElement as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        27 => <pf::DataPageHeader as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        28 => <pf::IndexPageHeader as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        29 => <pf::DictionaryPageHeader as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        30 => <pf::DataPageHeaderV2 as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        31 => <pf::SplitBlockAlgorithm as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        32 => <pf::BloomFilterAlgorithm as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        33 => <pf::XxHash as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        34 => <pf::BloomFilterHash as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        35 => <pf::Uncompressed as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        36 => <pf::BloomFilterCompression as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        37 => <pf::BloomFilterHeader as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        38 => <pf::PageHeader as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        39 => <pf::KeyValue as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        40 => <pf::SortingColumn as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        41 => <pf::PageEncodingStats as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        42 => <pf::ColumnMetaData as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        43 => <pf::EncryptionWithFooterKey as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        44 => <pf::EncryptionWithColumnKey as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        45 => <pf::ColumnCryptoMetaData as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        46 => <pf::ColumnChunk as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        47 => <pf::RowGroup as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        48 => <pf::TypeDefinedOrder as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        49 => <pf::ColumnOrder as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        50 => <pf::PageLocation as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        51 => <pf::OffsetIndex as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        52 => <pf::ColumnIndex as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        53 => <pf::AesGcmV1 as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        54 => <pf::AesGcmCtrV1 as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        55 => <pf::EncryptionAlgorithm as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        56 => <pf::FileMetaData as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        57 => <pf::FileCryptoMetaData as ReadThrift>::read_from_in_protocol(p).map(|v| v.to_val()),
        _ => unreachable!(),
    }
}
pub fn rs_list<T: TInputProtocol>(t: usize, p: &mut T) -> R<Val> {
    match t {
        0 => p.read_list::<pf::Type>().map(|v| v.to_val()),
        1 => p.read_list::<pf::ConvertedType>().map(|v| v.to_val()),
        2 => p.read_list::<pf::FieldRepetitionType>().map(|v| v.to_val()),
        3 => p.read_list::<pf::Encoding>().map(|v| v.to_val()),
        4 => p.read_list::<pf::CompressionCodec>().map(|v| v.to_val()),
        5 => p.read_list::<pf::PageType>().map(|v| v.to_val()),
        6 => p.read_list::<pf::BoundaryOrder>().map(|v| v.to_val()),
        7 => p.read_list::<pf::Statistics>().map(|v| v.to_val()),
        8 => p.read_list::<pf::StringType>().map(|v| v.to_val()),
        9 => p.read_list::<pf::UUIDType>().map(|v| v.to_val()),
        10 => p.read_list::<pf::MapType>().map(|v| v.to_val()),
        11 => p.read_list::<pf::ListType>().map(|v| v.to_val()),
        12 => p.read_list::<pf::EnumType>().map(|v| v.to_val()),
        13 => p.read_list::<pf::DateType>().map(|v| v.to_val()),
        14 => p.read_list::<pf::NullType>().map(|v| v.to_val()),
        15 => p.read_list::<pf::DecimalType>().map(|v| v.to_val()),
        16 => p.read_list::<pf::MilliSeconds>().map(|v| v.to_val()),
        17 => p.read_list::<pf::MicroSeconds>().map(|v| v.to_val()),
        18 => p.read_list::<pf::NanoSeconds>().map(|v| v.to_val()),
        19 => p.read_list::<pf::TimeUnit>().map(|v| v.to_val()),
        20 => p.read_list::<pf::TimestampType>().map(|v| v.to_val()),
        21 => p.read_list::<pf::TimeType>().map(|v| v.to_val()),
        22 => p.read_list::<pf::IntType>().map(|v| v.to_val()),
        23 => p.read_list::<pf::JsonType>().map(|v| v.to_val()),
        24 => p.read_list::<pf::BsonType>().map(|v| v.to_val()),
        25 => p.read_list::<pf::LogicalType>().map(|v| v.to_val()),
        26 => p.read_list::<pf::SchemaElement>().map(|v| v.to_val()),
        27 => p.read_list::<pf::DataPageHeader>().map(|v| v.to_val()),
        28 => p.read_list::<pf::IndexPageHeader>().map(|v| v.to_val()),
        29 => p.read_list::<pf::DictionaryPageHeader>().map(|v| v.to_val()),
        30 => p.read_list::<pf::DataPageHeaderV2>().map(|v| v.to_val()),
        31 => p.read_list::<pf::SplitBlockAlgorithm>().map(|v| v.to_val()),
        32 => p.read_list::<pf::BloomFilterAlgorithm>().map(|v| v.to_val()),
        33 => p.read_list::<pf::XxHash>().map(|v| v.to_val()),
        34 => p.read_list::<pf::BloomFilterHash>().map(|v| v.to_val()),
        35 => p.read_list::<pf::Uncompressed>().map(|v| v.to_val()),
        36 => p.read_list::<pf::BloomFilterCompression>().map(|v| v.to_val()),
        37 => p.read_list::<pf::BloomFilterHeader>().map(|v| v.to_val()),
        38 => p.read_list::<pf::PageHeader>().map(|v| v.to_val()),
        39 => p.read_list::<pf::KeyValue>().map(|v| v.to_val()),
        40 => p.read_list::<pf::SortingColumn>().map(|v| v.to_val()),
        41 => p.read_list::<pf::PageEncodingStats>().map(|v| v.to_val()),
        42 => p.read_list::<pf::ColumnMetaData>().map(|v| v.to_val()),
        43 => p.read_list::<pf::EncryptionWithFooterKey>().map(|v| v.to_val()),
        44 => p.read_list::<pf::EncryptionWithColumnKey>().map(|v| v.to_val()),
        45 => p.read_list::<pf::ColumnCryptoMetaData>().map(|v| v.to_val()),
        46 => p.read_list::<pf::ColumnChunk>().map(|v| v.to_val()),
        47 => p.read_list::<pf::RowGroup>().map(|v| v.to_val()),
        48 => p.read_list::<pf::TypeDefinedOrder>().map(|v| v.to_val()),
        49 => p.read_list::<pf::ColumnOrder>().map(|v| v.to_val()),
        50 => p.read_list::<pf::PageLocation>().map(|v| v.to_val()),
        51 => p.read_list::<pf::OffsetIndex>().map(|v| v.to_val()),
        52 => p.read_list::<pf::ColumnIndex>().map(|v| v.to_val()),
        53 => p.read_list::<pf::AesGcmV1>().map(|v| v.to_val()),
        54 => p.read_list::<pf::AesGcmCtrV1>().map(|v| v.to_val()),
        55 => p.read_list::<pf::EncryptionAlgorithm>().map(|v| v.to_val()),
        56 => p.read_list::<pf::FileMetaData>().map(|v| v.to_val()),
        57 => p.read_list::<pf::FileCryptoMetaData>().map(|v| v.to_val()),
        _ => unreachable!(),
    }
}
pub async fn ra<T: TInputStreamProtocol>(t: usize, p: &mut T) -> R<Val> {
    match t {
        0 => <pf::Type as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v: pf::Type| v.to_val()),
        1 => <pf::ConvertedType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v: pf::ConvertedType| v.to_val()),
        2 => <pf::FieldRepetitionType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v: pf::FieldRepetitionType| v.to_val()),
        3 => <pf::Encoding as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v: pf::Encoding| v.to_val()),
        4 => <pf::CompressionCodec as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v: pf::CompressionCodec| v.to_val()),
        5 => <pf::PageType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v: pf::PageType| v.to_val()),
        6 => <pf::BoundaryOrder as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v: pf::BoundaryOrder| v.to_val()),
        7 => pf::Statistics::stream_from_in_protocol(p).await.map(|v: pf::Statistics| v.to_val()),
        8 => pf::StringType::stream_from_in_protocol(p).await.map(|v: pf::StringType| v.to_val()),
        9 => pf::UUIDType::stream_from_in_protocol(p).await.map(|v: pf::UUIDType| v.to_val()),
        10 => pf::MapType::stream_from_in_protocol(p).await.map(|v: pf::MapType| v.to_val()),
        11 => pf::ListType::stream_from_in_protocol(p).await.map(|v: pf::ListType| v.to_val()),
        12 => pf::EnumType::stream_from_in_protocol(p).await.map(|v: pf::EnumType| v.to_val()),
        13 => pf::DateType::stream_from_in_protocol(p).await.map(|v: pf::DateType| v.to_val()),
        14 => pf::NullType::stream_from_in_protocol(p).await.map(|v: pf::NullType| v.to_val()),
        15 => pf::DecimalType::stream_from_in_protocol(p).await.map(|v: pf::DecimalType| v.to_val()),
        16 => pf::MilliSeconds::stream_from_in_protocol(p).await.map(|v: pf::MilliSeconds| v.to_val()),
        17 => pf::MicroSeconds::stream_from_in_protocol(p).await.map(|v: pf::MicroSeconds| v.to_val()),
        18 => pf::NanoSeconds::stream_from_in_protocol(p).await.map(|v: pf::NanoSeconds| v.to_val()),
        19 => pf::TimeUnit::stream_from_in_protocol(p).await.map(|v: pf::TimeUnit| v.to_val()),
        20 => pf::TimestampType::stream_from_in_protocol(p).await.map(|v: pf::TimestampType| v.to_val()),
        21 => pf::TimeType::stream_from_in_protocol(p).await.map(|v: pf::TimeType| v.to_val()),
        22 => pf::IntType::stream_from_in_protocol(p).await.map(|v: pf::IntType| v.to_val()),
        23 => pf::JsonType::stream_from_in_protocol(p).await.map(|v: pf::JsonType| v.to_val()),
        24 => pf::BsonType::stream_from_in_protocol(p).await.map(|v: pf::BsonType| v.to_val()),
        25 => pf::LogicalType::stream_from_in_protocol(p).await.map(|v: pf::LogicalType| v.to_val()),
        26 => pf::SchemaElement::stream_from_in_protocol(p).await.map(|v: pf::SchemaElement| v.to_val()),
        27 => pf::DataPageHeader::stream_from_in_protocol(p).await.map(|v: pf::DataPageHeader| v.to_val()),
        28 => pf::IndexPageHeader::stream_from_in_protocol(p).await.map(|v: pf::IndexPageHeader| v.to_val()),
        29 => pf::DictionaryPageHeader::stream_from_in_protocol(p).await.map(|v: pf::DictionaryPageHeader| v.to_val()),
        30 => pf::DataPageHeaderV2::stream_from_in_protocol(p).await.map(|v: pf::DataPageHeaderV2| v.to_val()),
        31 => pf::SplitBlockAlgorithm::stream_from_in_protocol(p).await.map(|v: pf::SplitBlockAlgorithm| v.to_val()),
        32 => pf::BloomFilterAlgorithm::stream_from_in_protocol(p).await.map(|v: pf::BloomFilterAlgorithm| v.to_val()),
        33 => pf::XxHash::stream_from_in_protocol(p).await.map(|v: pf::XxHash| v.to_val()),
        34 => pf::BloomFilterHash::stream_from_in_protocol(p).await.map(|v: pf::BloomFilterHash| v.to_val()),
        35 => pf::Uncompressed::stream_from_in_protocol(p).await.map(|v: pf::Uncompressed| v.to_val()),
        36 => pf::BloomFilterCompression::stream_from_in_protocol(p).await.map(|v: pf::BloomFilterCompression| v.to_val()),
        37 => pf::BloomFilterHeader::stream_from_in_protocol(p).await.map(|v: pf::BloomFilterHeader| v.to_val()),
        38 => pf::PageHeader::stream_from_in_protocol(p).await.map(|v: pf::PageHeader| v.to_val()),
        39 => pf::KeyValue::stream_from_in_protocol(p).await.map(|v: pf::KeyValue| v.to_val()),
        40 => pf::SortingColumn::stream_from_in_protocol(p).await.map(|v: pf::SortingColumn| v.to_val()),
        41 => pf::PageEncodingStats::stream_from_in_protocol(p).await.map(|v: pf::PageEncodingStats| v.to_val()),
        42 => pf::ColumnMetaData::stream_from_in_protocol(p).await.map(|v: pf::ColumnMetaData| v.to_val()),
        43 => pf::EncryptionWithFooterKey::stream_from_in_protocol(p).await.map(|v: pf::EncryptionWithFooterKey| v.to_val()),
        44 => pf::EncryptionWithColumnKey::stream_from_in_protocol(p).await.map(|v: pf::EncryptionWithColumnKey| v.to_val()),
        45 => pf::ColumnCryptoMetaData::stream_from_in_protocol(p).await.map(|v: pf::ColumnCryptoMetaData| v.to_val()),
        46 => pf::ColumnChunk::stream_from_in_protocol(p).await.map(|v: pf::ColumnChunk| v.to_val()),
        47 => pf::RowGroup::stream_from_in_protocol(p).await.map(|v: pf::RowGroup| v.to_val()),
        48 => pf::TypeDefinedOrder::stream_from_in_protocol(p).await.map(|v: pf::TypeDefinedOrder| v.to_val()),
        49 => pf::ColumnOrder::stream_from_in_protocol(p).await.map(|v: pf::ColumnOrder| v.to_val()),
        50 => pf::PageLocation::stream_from_in_protocol(p).await.map(|v: pf::PageLocation| v.to_val()),
        51 => pf::OffsetIndex::stream_from_in_protocol(p).await.map(|v: pf::OffsetIndex| v.to_val()),
        52 => pf::ColumnIndex::stream_from_in_protocol(p).await.map(|v: pf::ColumnIndex| v.to_val()),
        53 => pf::AesGcmV1::stream_from_in_protocol(p).await.map(|v: pf::AesGcmV1| v.to_val()),
        54 => pf::AesGcmCtrV1::stream_from_in_protocol(p).await.map(|v: pf::AesGcmCtrV1| v.to_val()),
        55 => pf::EncryptionAlgorithm::stream_from_in_protocol(p).await.map(|v: pf::EncryptionAlgorithm| v.to_val()),
        56 => pf::FileMetaData::stream_from_in_protocol(p).await.map(|v: pf::FileMetaData| v.to_val()),
        57 => pf::FileCryptoMetaData::stream_from_in_protocol(p).await.map(|v: pf::FileCryptoMetaData| v.to_val()),
        _ => unreachable!(),
    }
}
pub async fn ra_trait<T: TInputStreamProtocol>(t: usize, p: &mut T) -> R<Val> {
    match t {
        0 => <pf::Type as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        1 => <pf::ConvertedType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        2 => <pf::FieldRepetitionType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        3 => <pf::Encoding as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        4 => <pf::CompressionCodec as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        5 => <pf::PageType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        6 => <pf::BoundaryOrder as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        7 => <pf::Statistics as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        8 => <pf::StringType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        9 => <pf::UUIDType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        10 => <pf::MapType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        11 => <pf::ListType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        12 => <pf::EnumType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        13 => <pf::DateType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        14 => <pf::NullType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        15 => <pf::DecimalType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        16 => <pf::MilliSeconds as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        17 => <pf::MicroSeconds as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        18 => <pf::NanoSeconds as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        19 => <pf::TimeUnit as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        20 => <pf::TimestampType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        21 => <pf::TimeType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        22 => <pf::IntType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        23 => <pf::JsonType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        24 => <pf::BsonType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        25 => <pf::LogicalType as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        26 => <pf::SchemaElement as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        27 => <pf::DataPageHeader as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        28 => <pf::IndexPageHeader as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        29 => <pf::DictionaryPageHeader as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        30 => <pf::DataPageHeaderV2 as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        31 => <pf::SplitBlockAlgorithm as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        32 => <pf::BloomFilterAlgorithm as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        33 => <pf::XxHash as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        34 => <pf::BloomFilterHash as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        35 => <pf::Uncompressed as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        36 => <pf::BloomFilterCompression as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        37 => <pf::BloomFilterHeader as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        38 => <pf::PageHeader as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        39 => <pf::KeyValue as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        40 => <pf::SortingColumn as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        41 => <pf::PageEncodingStats as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        42 => <pf::ColumnMetaData as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        43 => <pf::EncryptionWithFooterKey as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        44 => <pf::EncryptionWithColumnKey as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        45 => <pf::ColumnCryptoMetaData as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        46 => <pf::ColumnChunk as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        47 => <pf::RowGroup as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        48 => <pf::TypeDefinedOrder as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        49 => <pf::ColumnOrder as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        50 => <pf::PageLocation as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        51 => <pf::OffsetIndex as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        52 => <pf::ColumnIndex as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        53 => <pf::AesGcmV1 as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        54 => <pf::AesGcmCtrV1 as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        55 => <pf::EncryptionAlgorithm as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        56 => <pf::FileMetaData as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        57 => <pf::FileCryptoMetaData as AsyncReadThrift>::stream_from_in_protocol(p).await.map(|v| v.to_val()),
        _ => unreachable!(),
    }
}
pub async fn ra_list<T: TInputStreamProtocol>(t: usize, p: &mut T) -> R<Val> {
    match t {
        0 => p.read_list::<pf::Type>().await.map(|v| v.to_val()),
        1 => p.read_list::<pf::ConvertedType>().await.map(|v| v.to_val()),
        2 => p.read_list::<pf::FieldRepetitionType>().await.map(|v| v.to_val()),
        3 => p.read_list::<pf::Encoding>().await.map(|v| v.to_val()),
        4 => p.read_list::<pf::CompressionCodec>().await.map(|v| v.to_val()),
        5 => p.read_list::<pf::PageType>().await.map(|v| v.to_val()),
        6 => p.read_list::<pf::BoundaryOrder>().await.map(|v| v.to_val()),
        7 => p.read_list::<pf::Statistics>().await.map(|v| v.to_val()),
        8 => p.read_list::<pf::StringType>().await.map(|v| v.to_val()),
        9 => p.read_list::<pf::UUIDType>().await.map(|v| v.to_val()),
        10 => p.read_list::<pf::MapType>().await.map(|v| v.to_val()),
        11 => p.read_list::<pf::ListType>().await.map(|v| v.to_val()),
        12 => p.read_list::<pf::EnumType>().await.map(|v| v.to_val()),
        13 => p.read_list::<pf::DateType>().await.map(|v| v.to_val()),
        14 => p.read_list::<pf::NullType>().await.map(|v| v.to_val()),
        15 => p.read_list::<pf::DecimalType>().await.map(|v| v.to_val()),
        16 => p.read_list::<pf::MilliSeconds>().await.map(|v| v.to_val()),
        17 => p.read_list::<pf::MicroSeconds>().await.map(|v| v.to_val()),
        18 => p.read_list::<pf::NanoSeconds>().await.map(|v| v.to_val()),
        19 => p.read_list::<pf::TimeUnit>().await.map(|v| v.to_val()),
        20 => p.read_list::<pf::TimestampType>().await.map(|v| v.to_val()),
        21 => p.read_list::<pf::TimeType>().await.map(|v| v.to_val()),
        22 => p.read_list::<pf::IntType>().await.map(|v| v.to_val()),
        23 => p.read_list::<pf::JsonType>().await.map(|v| v.to_val()),
        24 => p.read_list::<pf::BsonType>().await.map(|v| v.to_val()),
        25 => p.read_list::<pf::LogicalType>().await.map(|v| v.to_val()),
        26 => p.read_list::<pf::SchemaElement>().await.map(|v| v.to_val()),
        27 => p.read_list::<pf::DataPageHeader>().await.map(|v| v.to_val()),
        28 => p.read_list::<pf::IndexPageHeader>().await.map(|v| v.to_val()),
        29 => p.read_list::<pf::DictionaryPageHeader>().await.map(|v| v.to_val()),
        30 => p.read_list::<pf::DataPageHeaderV2>().await.map(|v| v.to_val()),
        31 => p.read_list::<pf::SplitBlockAlgorithm>().await.map(|v| v.to_val()),
        32 => p.read_list::<pf::BloomFilterAlgorithm>().await.map(|v| v.to_val()),
        33 => p.read_list::<pf::XxHash>().await.map(|v| v.to_val()),
        34 => p.read_list::<pf::BloomFilterHash>().await.map(|v| v.to_val()),
        35 => p.read_list::<pf::Uncompressed>().await.map(|v| v.to_val()),
        36 => p.read_list::<pf::BloomFilterCompression>().await.map(|v| v.to_val()),
        37 => p.read_list::<pf::BloomFilterHeader>().await.map(|v| v.to_val()),
        38 => p.read_list::<pf::PageHeader>().await.map(|v| v.to_val()),
        39 => p.read_list::<pf::KeyValue>().await.map(|v| v.to_val()),
        40 => p.read_list::<pf::SortingColumn>().await.map(|v| v.to_val()),
        41 => p.read_list::<pf::PageEncodingStats>().await.map(|v| v.to_val()),
        42 => p.read_list::<pf::ColumnMetaData>().await.map(|v| v.to_val()),
        43 => p.read_list::<pf::EncryptionWithFooterKey>().await.map(|v| v.to_val()),
        44 => p.read_list::<pf::EncryptionWithColumnKey>().await.map(|v| v.to_val()),
        45 => p.read_list::<pf::ColumnCryptoMetaData>().await.map(|v| v.to_val()),
        46 => p.read_list::<pf::ColumnChunk>().await.map(|v| v.to_val()),
        47 => p.read_list::<pf::RowGroup>().await.map(|v| v.to_val()),
        48 => p.read_list::<pf::TypeDefinedOrder>().await.map(|v| v.to_val()),
        49 => p.read_list::<pf::ColumnOrder>().await.map(|v| v.to_val()),
        50 => p.read_list::<pf::PageLocation>().await.map(|v| v.to_val()),
        51 => p.read_list::<pf::OffsetIndex>().await.map(|v| v.to_val()),
        52 => p.read_list::<pf::ColumnIndex>().await.map(|v| v.to_val()),
        53 => p.read_list::<pf::AesGcmV1>().await.map(|v| v.to_val()),
        54 => p.read_list::<pf::AesGcmCtrV1>().await.map(|v| v.to_val()),
        55 => p.read_list::<pf::EncryptionAlgorithm>().await.map(|v| v.to_val()),
        56 => p.read_list::<pf::FileMetaData>().await.map(|v| v.to_val()),
        57 => p.read_list::<pf::FileCryptoMetaData>().await.map(|v| v.to_val()),
        _ => unreachable!(),
    }
}
pub fn ws<T: TOutputProtocol>(t: usize, v: &Val, p: &mut T) -> R<usize> {
    match t {
        0 => pf::Type::from_val(v).write_to_out_protocol(p),
        1 => pf::ConvertedType::from_val(v).write_to_out_protocol(p),
        2 => pf::FieldRepetitionType::from_val(v).write_to_out_protocol(p),
        3 => pf::Encoding::from_val(v).write_to_out_protocol(p),
        4 => pf::CompressionCodec::from_val(v).write_to_out_protocol(p),
        5 => pf::PageType::from_val(v).write_to_out_protocol(p),
        6 => pf::BoundaryOrder::from_val(v).write_to_out_protocol(p),
        7 => pf::Statistics::from_val(v).write_to_out_protocol(p),
        8 => pf::StringType::from_val(v).write_to_out_protocol(p),
        9 => pf::UUIDType::from_val(v).write_to_out_protocol(p),
        10 => pf::MapType::from_val(v).write_to_out_protocol(p),
        11 => pf::ListType::from_val(v).write_to_out_protocol(p),
        12 => pf::EnumType::from_val(v).write_to_out_protocol(p),
        13 => pf::DateType::from_val(v).write_to_out_protocol(p),
        14 => pf::NullType::from_val(v).write_to_out_protocol(p),
        15 => pf::DecimalType::from_val(v).write_to_out_protocol(p),
        16 => pf::MilliSeconds::from_val(v).write_to_out_protocol(p),
        17 => pf::MicroSeconds::from_val(v).write_to_out_protocol(p),
        18 => pf::NanoSeconds::from_val(v).write_to_out_protocol(p),
        19 => pf::TimeUnit::from_val(v).write_to_out_protocol(p),
        20 => pf::TimestampType::from_val(v).write_to_out_protocol(p),
        21 => pf::TimeType::from_val(v).write_to_out_protocol(p),
        22 => pf::IntType::from_val(v).write_to_out_protocol(p),
        23 => pf::JsonType::from_val(v).write_to_out_protocol(p),
        24 => pf::BsonType::from_val(v).write_to_out_protocol(p),
        25 => pf::LogicalType::from_val(v).write_to_out_protocol(p),
        26 => pf::SchemaElement::from_val(v).write_to_out_protocol(p),
        27 => pf::DataPageHeader::from_val(v).write_to_out_protocol(p),
        28 => pf::IndexPageHeader::from_val(v).write_to_out_protocol(p),
        29 => pf::DictionaryPageHeader::from_val(v).write_to_out_protocol(p),
        30 => pf::DataPageHeaderV2::from_val(v).write_to_out_protocol(p),
        31 => pf::SplitBlockAlgorithm::from_val(v).write_to_out_protocol(p),
        32 => pf::BloomFilterAlgorithm::from_val(v).write_to_out_protocol(p),
        33 => pf::XxHash::from_val(v).write_to_out_protocol(p),
        34 => pf::BloomFilterHash::from_val(v).write_to_out_protocol(p),
        35 => pf::Uncompressed::from_val(v).write_to_out_protocol(p),
        36 => pf::BloomFilterCompression::from_val(v).write_to_out_protocol(p),
        37 => pf::BloomFilterHeader::from_val(v).write_to_out_protocol(p),
        38 => pf::PageHeader::from_val(v).write_to_out_protocol(p),
        39 => pf::KeyValue::from_val(v).write_to_out_protocol(p),
        40 => pf::SortingColumn::from_val(v).write_to_out_protocol(p),
        41 => pf::PageEncodingStats::from_val(v).write_to_out_protocol(p),
        42 => pf::ColumnMetaData::from_val(v).write_to_out_protocol(p),
        43 => pf::EncryptionWithFooterKey::from_val(v).write_to_out_protocol(p),
        44 => pf::EncryptionWithColumnKey::from_val(v).write_to_out_protocol(p),
        45 => pf::ColumnCryptoMetaData::from_val(v).write_to_out_protocol(p),
        46 => pf::ColumnChunk::from_val(v).write_to_out_protocol(p),
        47 => pf::RowGroup::from_val(v).write_to_out_protocol(p),
        48 => pf::TypeDefinedOrder::from_val(v).write_to_out_protocol(p),
        49 => pf::ColumnOrder::from_val(v).write_to_out_protocol(p),
        50 => pf::PageLocation::from_val(v).write_to_out_protocol(p),
        51 => pf::OffsetIndex::from_val(v).write_to_out_protocol(p),
        52 => pf::ColumnIndex::from_val(v).write_to_out_protocol(p),
        53 => pf::AesGcmV1::from_val(v).write_to_out_protocol(p),
        54 => pf::AesGcmCtrV1::from_val(v).write_to_out_protocol(p),
        55 => pf::EncryptionAlgorithm::from_val(v).write_to_out_protocol(p),
        56 => pf::FileMetaData::from_val(v).write_to_out_protocol(p),
        57 => pf::FileCryptoMetaData::from_val(v).write_to_out_protocol(p),
        _ => unreachable!(),
    }
}
pub async fn wa<T: TOutputStreamProtocol>(t: usize, v: &Val, p: &mut T) -> R<usize> {
    match t {
        0 => pf::Type::from_val(v).write_to_out_stream_protocol(p).await,
        1 => pf::ConvertedType::from_val(v).write_to_out_stream_protocol(p).await,
        2 => pf::FieldRepetitionType::from_val(v).write_to_out_stream_protocol(p).await,
        3 => pf::Encoding::from_val(v).write_to_out_stream_protocol(p).await,
        4 => pf::CompressionCodec::from_val(v).write_to_out_stream_protocol(p).await,
        5 => pf::PageType::from_val(v).write_to_out_stream_protocol(p).await,
        6 => pf::BoundaryOrder::from_val(v).write_to_out_stream_protocol(p).await,
        7 => pf::Statistics::from_val(v).write_to_out_stream_protocol(p).await,
        8 => pf::StringType::from_val(v).write_to_out_stream_protocol(p).await,
        9 => pf::UUIDType::from_val(v).write_to_out_stream_protocol(p).await,
        10 => pf::MapType::from_val(v).write_to_out_stream_protocol(p).await,
        11 => pf::ListType::from_val(v).write_to_out_stream_protocol(p).await,
        12 => pf::EnumType::from_val(v).write_to_out_stream_protocol(p).await,
        13 => pf::DateType::from_val(v).write_to_out_stream_protocol(p).await,
        14 => pf::NullType::from_val(v).write_to_out_stream_protocol(p).await,
        15 => pf::DecimalType::from_val(v).write_to_out_stream_protocol(p).await,
        16 => pf::MilliSeconds::from_val(v).write_to_out_stream_protocol(p).await,
        17 => pf::MicroSeconds::from_val(v).write_to_out_stream_protocol(p).await,
        18 => pf::NanoSeconds::from_val(v).write_to_out_stream_protocol(p).await,
        19 => pf::TimeUnit::from_val(v).write_to_out_stream_protocol(p).await,
        20 => pf::TimestampType::from_val(v).write_to_out_stream_protocol(p).await,
        21 => pf::TimeType::from_val(v).write_to_out_stream_protocol(p).await,
        22 => pf::IntType::from_val(v).write_to_out_stream_protocol(p).await,
        23 => pf::JsonType::from_val(v).write_to_out_stream_protocol(p).await,
        24 => pf::BsonType::from_val(v).write_to_out_stream_protocol(p).await,
        25 => pf::LogicalType::from_val(v).write_to_out_stream_protocol(p).await,
        26 => pf::SchemaElement::from_val(v).write_to_out_stream_protocol(p).await,
        27 => pf::DataPageHeader::from_val(v).write_to_out_stream_protocol(p).await,
        28 => pf::IndexPageHeader::from_val(v).write_to_out_stream_protocol(p).await,
        29 => pf::DictionaryPageHeader::from_val(v).write_to_out_stream_protocol(p).await,
        30 => pf::DataPageHeaderV2::from_val(v).write_to_out_stream_protocol(p).await,
        31 => pf::SplitBlockAlgorithm::from_val(v).write_to_out_stream_protocol(p).await,
        32 => pf::BloomFilterAlgorithm::from_val(v).write_to_out_stream_protocol(p).await,
        33 => pf::XxHash::from_val(v).write_to_out_stream_protocol(p).await,
        34 => pf::BloomFilterHash::from_val(v).write_to_out_stream_protocol(p).await,
        35 => pf::Uncompressed::from_val(v).write_to_out_stream_protocol(p).await,
        36 => pf::BloomFilterCompression::from_val(v).write_to_out_stream_protocol(p).await,
        37 => pf::BloomFilterHeader::from_val(v).write_to_out_stream_protocol(p).await,
        38 => pf::PageHeader::from_val(v).write_to_out_stream_protocol(p).await,
        39 => pf::KeyValue::from_val(v).write_to_out_stream_protocol(p).await,
        40 => pf::SortingColumn::from_val(v).write_to_out_stream_protocol(p).await,
        41 => pf::PageEncodingStats::from_val(v).write_to_out_stream_protocol(p).await,
        42 => pf::ColumnMetaData::from_val(v).write_to_out_stream_protocol(p).await,
        43 => pf::EncryptionWithFooterKey::from_val(v).write_to_out_stream_protocol(p).await,
        44 => pf::EncryptionWithColumnKey::from_val(v).write_to_out_stream_protocol(p).await,
        45 => pf::ColumnCryptoMetaData::from_val(v).write_to_out_stream_protocol(p).await,
        46 => pf::ColumnChunk::from_val(v).write_to_out_stream_protocol(p).await,
        47 => pf::RowGroup::from_val(v).write_to_out_stream_protocol(p).await,
        48 => pf::TypeDefinedOrder::from_val(v).write_to_out_stream_protocol(p).await,
        49 => pf::ColumnOrder::from_val(v).write_to_out_stream_protocol(p).await,
        50 => pf::PageLocation::from_val(v).write_to_out_stream_protocol(p).await,
        51 => pf::OffsetIndex::from_val(v).write_to_out_stream_protocol(p).await,
        52 => pf::ColumnIndex::from_val(v).write_to_out_stream_protocol(p).await,
        53 => pf::AesGcmV1::from_val(v).write_to_out_stream_protocol(p).await,
        54 => pf::AesGcmCtrV1::from_val(v).write_to_out_stream_protocol(p).await,
        55 => pf::EncryptionAlgorithm::from_val(v).write_to_out_stream_protocol(p).await,
        56 => pf::FileMetaData::from_val(v).write_to_out_stream_protocol(p).await,
        57 => pf::FileCryptoMetaData::from_val(v).write_to_out_stream_protocol(p).await,
        _ => unreachable!(),
    }
}
/// equality and clone of the real types, and their order with themselves
pub fn self_eq(t: usize, a: &Val, b: &Val) -> bool {
    match t {
        0 => { let (x, y) = (pf::Type::from_val(a), pf::Type::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        1 => { let (x, y) = (pf::ConvertedType::from_val(a), pf::ConvertedType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        2 => { let (x, y) = (pf::FieldRepetitionType::from_val(a), pf::FieldRepetitionType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        3 => { let (x, y) = (pf::Encoding::from_val(a), pf::Encoding::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        4 => { let (x, y) = (pf::CompressionCodec::from_val(a), pf::CompressionCodec::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        5 => { let (x, y) = (pf::PageType::from_val(a), pf::PageType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        6 => { let (x, y) = (pf::BoundaryOrder::from_val(a), pf::BoundaryOrder::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        7 => { let (x, y) = (pf::Statistics::from_val(a), pf::Statistics::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        8 => { let (x, y) = (pf::StringType::from_val(a), pf::StringType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        9 => { let (x, y) = (pf::UUIDType::from_val(a), pf::UUIDType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        10 => { let (x, y) = (pf::MapType::from_val(a), pf::MapType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        11 => { let (x, y) = (pf::ListType::from_val(a), pf::ListType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        12 => { let (x, y) = (pf::EnumType::from_val(a), pf::EnumType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        13 => { let (x, y) = (pf::DateType::from_val(a), pf::DateType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        14 => { let (x, y) = (pf::NullType::from_val(a), pf::NullType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        15 => { let (x, y) = (pf::DecimalType::from_val(a), pf::DecimalType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        16 => { let (x, y) = (pf::MilliSeconds::from_val(a), pf::MilliSeconds::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        17 => { let (x, y) = (pf::MicroSeconds::from_val(a), pf::MicroSeconds::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        18 => { let (x, y) = (pf::NanoSeconds::from_val(a), pf::NanoSeconds::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        19 => { let (x, y) = (pf::TimeUnit::from_val(a), pf::TimeUnit::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        20 => { let (x, y) = (pf::TimestampType::from_val(a), pf::TimestampType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        21 => { let (x, y) = (pf::TimeType::from_val(a), pf::TimeType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        22 => { let (x, y) = (pf::IntType::from_val(a), pf::IntType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        23 => { let (x, y) = (pf::JsonType::from_val(a), pf::JsonType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        24 => { let (x, y) = (pf::BsonType::from_val(a), pf::BsonType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        25 => { let (x, y) = (pf::LogicalType::from_val(a), pf::LogicalType::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        26 => { let (x, y) = (pf::SchemaElement::from_val(a), pf::SchemaElement::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        27 => { let (x, y) = (pf::DataPageHeader::from_val(a), pf::DataPageHeader::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        28 => { let (x, y) = (pf::IndexPageHeader::from_val(a), pf::IndexPageHeader::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        29 => { let (x, y) = (pf::DictionaryPageHeader::from_val(a), pf::DictionaryPageHeader::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        30 => { let (x, y) = (pf::DataPageHeaderV2::from_val(a), pf::DataPageHeaderV2::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        31 => { let (x, y) = (pf::SplitBlockAlgorithm::from_val(a), pf::SplitBlockAlgorithm::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        32 => { let (x, y) = (pf::BloomFilterAlgorithm::from_val(a), pf::BloomFilterAlgorithm::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        33 => { let (x, y) = (pf::XxHash::from_val(a), pf::XxHash::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        34 => { let (x, y) = (pf::BloomFilterHash::from_val(a), pf::BloomFilterHash::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        35 => { let (x, y) = (pf::Uncompressed::from_val(a), pf::Uncompressed::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        36 => { let (x, y) = (pf::BloomFilterCompression::from_val(a), pf::BloomFilterCompression::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        37 => { let (x, y) = (pf::BloomFilterHeader::from_val(a), pf::BloomFilterHeader::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        38 => { let (x, y) = (pf::PageHeader::from_val(a), pf::PageHeader::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        39 => { let (x, y) = (pf::KeyValue::from_val(a), pf::KeyValue::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        40 => { let (x, y) = (pf::SortingColumn::from_val(a), pf::SortingColumn::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        41 => { let (x, y) = (pf::PageEncodingStats::from_val(a), pf::PageEncodingStats::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        42 => { let (x, y) = (pf::ColumnMetaData::from_val(a), pf::ColumnMetaData::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        43 => { let (x, y) = (pf::EncryptionWithFooterKey::from_val(a), pf::EncryptionWithFooterKey::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        44 => { let (x, y) = (pf::EncryptionWithColumnKey::from_val(a), pf::EncryptionWithColumnKey::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        45 => { let (x, y) = (pf::ColumnCryptoMetaData::from_val(a), pf::ColumnCryptoMetaData::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        46 => { let (x, y) = (pf::ColumnChunk::from_val(a), pf::ColumnChunk::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        47 => { let (x, y) = (pf::RowGroup::from_val(a), pf::RowGroup::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        48 => { let (x, y) = (pf::TypeDefinedOrder::from_val(a), pf::TypeDefinedOrder::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        49 => { let (x, y) = (pf::ColumnOrder::from_val(a), pf::ColumnOrder::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        50 => { let (x, y) = (pf::PageLocation::from_val(a), pf::PageLocation::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        51 => { let (x, y) = (pf::OffsetIndex::from_val(a), pf::OffsetIndex::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        52 => { let (x, y) = (pf::ColumnIndex::from_val(a), pf::ColumnIndex::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        53 => { let (x, y) = (pf::AesGcmV1::from_val(a), pf::AesGcmV1::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        54 => { let (x, y) = (pf::AesGcmCtrV1::from_val(a), pf::AesGcmCtrV1::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        55 => { let (x, y) = (pf::EncryptionAlgorithm::from_val(a), pf::EncryptionAlgorithm::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        56 => { let (x, y) = (pf::FileMetaData::from_val(a), pf::FileMetaData::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        57 => { let (x, y) = (pf::FileCryptoMetaData::from_val(a), pf::FileCryptoMetaData::from_val(b)); x == y && x.clone() == y && x.cmp(&y) == std::cmp::Ordering::Equal && x.to_val() == *a },
        _ => unreachable!(),
    }
}
pub fn size_of_type(t: usize) -> usize {
    match t {
        0 => std::mem::size_of::<pf::Type>(),
        1 => std::mem::size_of::<pf::ConvertedType>(),
        2 => std::mem::size_of::<pf::FieldRepetitionType>(),
        3 => std::mem::size_of::<pf::Encoding>(),
        4 => std::mem::size_of::<pf::CompressionCodec>(),
        5 => std::mem::size_of::<pf::PageType>(),
        6 => std::mem::size_of::<pf::BoundaryOrder>(),
        7 => std::mem::size_of::<pf::Statistics>(),
        8 => std::mem::size_of::<pf::StringType>(),
        9 => std::mem::size_of::<pf::UUIDType>(),
        10 => std::mem::size_of::<pf::MapType>(),
        11 => std::mem::size_of::<pf::ListType>(),
        12 => std::mem::size_of::<pf::EnumType>(),
        13 => std::mem::size_of::<pf::DateType>(),
        14 => std::mem::size_of::<pf::NullType>(),
        15 => std::mem::size_of::<pf::DecimalType>(),
        16 => std::mem::size_of::<pf::MilliSeconds>(),
        17 => std::mem::size_of::<pf::MicroSeconds>(),
        18 => std::mem::size_of::<pf::NanoSeconds>(),
        19 => std::mem::size_of::<pf::TimeUnit>(),
        20 => std::mem::size_of::<pf::TimestampType>(),
        21 => std::mem::size_of::<pf::TimeType>(),
        22 => std::mem::size_of::<pf::IntType>(),
        23 => std::mem::size_of::<pf::JsonType>(),
        24 => std::mem::size_of::<pf::BsonType>(),
        25 => std::mem::size_of::<pf::LogicalType>(),
        26 => std::mem::size_of::<pf::SchemaElement>(),
        27 => std::mem::size_of::<pf::DataPageHeader>(),
        28 => std::mem::size_of::<pf::IndexPageHeader>(),
        29 => std::mem::size_of::<pf::DictionaryPageHeader>(),
        30 => std::mem::size_of::<pf::DataPageHeaderV2>(),
        31 => std::mem::size_of::<pf::SplitBlockAlgorithm>(),
        32 => std::mem::size_of::<pf::BloomFilterAlgorithm>(),
        33 => std::mem::size_of::<pf::XxHash>(),
        34 => std::mem::size_of::<pf::BloomFilterHash>(),
        35 => std::mem::size_of::<pf::Uncompressed>(),
        36 => std::mem::size_of::<pf::BloomFilterCompression>(),
        37 => std::mem::size_of::<pf::BloomFilterHeader>(),
        38 => std::mem::size_of::<pf::PageHeader>(),
        39 => std::mem::size_of::<pf::KeyValue>(),
        40 => std::mem::size_of::<pf::SortingColumn>(),
        41 => std::mem::size_of::<pf::PageEncodingStats>(),
        42 => std::mem::size_of::<pf::ColumnMetaData>(),
        43 => std::mem::size_of::<pf::EncryptionWithFooterKey>(),
        44 => std::mem::size_of::<pf::EncryptionWithColumnKey>(),
        45 => std::mem::size_of::<pf::ColumnCryptoMetaData>(),
        46 => std::mem::size_of::<pf::ColumnChunk>(),
        47 => std::mem::size_of::<pf::RowGroup>(),
        48 => std::mem::size_of::<pf::TypeDefinedOrder>(),
        49 => std::mem::size_of::<pf::ColumnOrder>(),
        50 => std::mem::size_of::<pf::PageLocation>(),
        51 => std::mem::size_of::<pf::OffsetIndex>(),
        52 => std::mem::size_of::<pf::ColumnIndex>(),
        53 => std::mem::size_of::<pf::AesGcmV1>(),
        54 => std::mem::size_of::<pf::AesGcmCtrV1>(),
        55 => std::mem::size_of::<pf::EncryptionAlgorithm>(),
        56 => std::mem::size_of::<pf::FileMetaData>(),
        57 => std::mem::size_of::<pf::FileCryptoMetaData>(),
        _ => unreachable!(),
    }
}
/// (value built by the constructor, value expected), for types that have a constructor
pub fn construct(t: usize, v: &Val) -> Option<(Val, Val)> {
    match t {
        0 => None,
        1 => None,
        2 => None,
        3 => None,
        4 => None,
        5 => None,
        6 => None,
        7 => match v { Val::Struct(f) => Some((pf::Statistics::new(f[0].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x)), f[1].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x)), f[2].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[3].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[4].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x)), f[5].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        8 => { let _ = v; Some((pf::StringType::new().to_val(), pf::StringType::default().to_val())) },
        9 => { let _ = v; Some((pf::UUIDType::new().to_val(), pf::UUIDType::default().to_val())) },
        10 => { let _ = v; Some((pf::MapType::new().to_val(), pf::MapType::default().to_val())) },
        11 => { let _ = v; Some((pf::ListType::new().to_val(), pf::ListType::default().to_val())) },
        12 => { let _ = v; Some((pf::EnumType::new().to_val(), pf::EnumType::default().to_val())) },
        13 => { let _ = v; Some((pf::DateType::new().to_val(), pf::DateType::default().to_val())) },
        14 => { let _ = v; Some((pf::NullType::new().to_val(), pf::NullType::default().to_val())) },
        15 => match v { Val::Struct(f) => Some((pf::DecimalType::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        16 => { let _ = v; Some((pf::MilliSeconds::new().to_val(), pf::MilliSeconds::default().to_val())) },
        17 => { let _ = v; Some((pf::MicroSeconds::new().to_val(), pf::MicroSeconds::default().to_val())) },
        18 => { let _ = v; Some((pf::NanoSeconds::new().to_val(), pf::NanoSeconds::default().to_val())) },
        19 => None,
        20 => match v { Val::Struct(f) => Some((pf::TimestampType::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        21 => match v { Val::Struct(f) => Some((pf::TimeType::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        22 => match v { Val::Struct(f) => Some((pf::IntType::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        23 => { let _ = v; Some((pf::JsonType::new().to_val(), pf::JsonType::default().to_val())) },
        24 => { let _ = v; Some((pf::BsonType::new().to_val(), pf::BsonType::default().to_val())) },
        25 => None,
        26 => match v { Val::Struct(f) => Some((pf::SchemaElement::new(f[0].as_ref().map(|x| <pf::Type as Conv>::from_val(x)), f[1].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[2].as_ref().map(|x| <pf::FieldRepetitionType as Conv>::from_val(x)), Conv::from_val(f[3].as_ref().unwrap()), f[4].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[5].as_ref().map(|x| <pf::ConvertedType as Conv>::from_val(x)), f[6].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[7].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[8].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[9].as_ref().map(|x| <pf::LogicalType as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        27 => match v { Val::Struct(f) => Some((pf::DataPageHeader::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), f[4].as_ref().map(|x| <pf::Statistics as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        28 => { let _ = v; Some((pf::IndexPageHeader::new().to_val(), pf::IndexPageHeader::default().to_val())) },
        29 => match v { Val::Struct(f) => Some((pf::DictionaryPageHeader::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), f[2].as_ref().map(|x| <bool as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        30 => match v { Val::Struct(f) => Some((pf::DataPageHeaderV2::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), Conv::from_val(f[4].as_ref().unwrap()), Conv::from_val(f[5].as_ref().unwrap()), f[6].as_ref().map(|x| <bool as Conv>::from_val(x)), f[7].as_ref().map(|x| <pf::Statistics as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        31 => { let _ = v; Some((pf::SplitBlockAlgorithm::new().to_val(), pf::SplitBlockAlgorithm::default().to_val())) },
        32 => None,
        33 => { let _ = v; Some((pf::XxHash::new().to_val(), pf::XxHash::default().to_val())) },
        34 => None,
        35 => { let _ = v; Some((pf::Uncompressed::new().to_val(), pf::Uncompressed::default().to_val())) },
        36 => None,
        37 => match v { Val::Struct(f) => Some((pf::BloomFilterHeader::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        38 => match v { Val::Struct(f) => Some((pf::PageHeader::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), f[3].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[4].as_ref().map(|x| <pf::DataPageHeader as Conv>::from_val(x)), f[5].as_ref().map(|x| <pf::IndexPageHeader as Conv>::from_val(x)), f[6].as_ref().map(|x| <pf::DictionaryPageHeader as Conv>::from_val(x)), f[7].as_ref().map(|x| <pf::DataPageHeaderV2 as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        39 => match v { Val::Struct(f) => Some((pf::KeyValue::new(Conv::from_val(f[0].as_ref().unwrap()), f[1].as_ref().map(|x| <String as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        40 => match v { Val::Struct(f) => Some((pf::SortingColumn::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        41 => match v { Val::Struct(f) => Some((pf::PageEncodingStats::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        42 => match v { Val::Struct(f) => Some((pf::ColumnMetaData::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), Conv::from_val(f[4].as_ref().unwrap()), Conv::from_val(f[5].as_ref().unwrap()), Conv::from_val(f[6].as_ref().unwrap()), f[7].as_ref().map(|x| <Vec<pf::KeyValue> as Conv>::from_val(x)), Conv::from_val(f[8].as_ref().unwrap()), f[9].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[10].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[11].as_ref().map(|x| <pf::Statistics as Conv>::from_val(x)), f[12].as_ref().map(|x| <Vec<pf::PageEncodingStats> as Conv>::from_val(x)), f[13].as_ref().map(|x| <i64 as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        43 => { let _ = v; Some((pf::EncryptionWithFooterKey::new().to_val(), pf::EncryptionWithFooterKey::default().to_val())) },
        44 => match v { Val::Struct(f) => Some((pf::EncryptionWithColumnKey::new(Conv::from_val(f[0].as_ref().unwrap()), f[1].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        45 => None,
        46 => match v { Val::Struct(f) => Some((pf::ColumnChunk::new(f[0].as_ref().map(|x| <String as Conv>::from_val(x)), Conv::from_val(f[1].as_ref().unwrap()), f[2].as_ref().map(|x| <pf::ColumnMetaData as Conv>::from_val(x)), f[3].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[4].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[5].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[6].as_ref().map(|x| <i32 as Conv>::from_val(x)), f[7].as_ref().map(|x| <pf::ColumnCryptoMetaData as Conv>::from_val(x)), f[8].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        47 => match v { Val::Struct(f) => Some((pf::RowGroup::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), f[3].as_ref().map(|x| <Vec<pf::SortingColumn> as Conv>::from_val(x)), f[4].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[5].as_ref().map(|x| <i64 as Conv>::from_val(x)), f[6].as_ref().map(|x| <i16 as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        48 => { let _ = v; Some((pf::TypeDefinedOrder::new().to_val(), pf::TypeDefinedOrder::default().to_val())) },
        49 => None,
        50 => match v { Val::Struct(f) => Some((pf::PageLocation::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        51 => match v { Val::Struct(f) => Some((pf::OffsetIndex::new(Conv::from_val(f[0].as_ref().unwrap())).to_val(), v.clone())), _ => unreachable!() },
        52 => match v { Val::Struct(f) => Some((pf::ColumnIndex::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), f[4].as_ref().map(|x| <Vec<i64> as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        53 => match v { Val::Struct(f) => Some((pf::AesGcmV1::new(f[0].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x)), f[1].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x)), f[2].as_ref().map(|x| <bool as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        54 => match v { Val::Struct(f) => Some((pf::AesGcmCtrV1::new(f[0].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x)), f[1].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x)), f[2].as_ref().map(|x| <bool as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        55 => None,
        56 => match v { Val::Struct(f) => Some((pf::FileMetaData::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), f[4].as_ref().map(|x| <Vec<pf::KeyValue> as Conv>::from_val(x)), f[5].as_ref().map(|x| <String as Conv>::from_val(x)), f[6].as_ref().map(|x| <Vec<pf::ColumnOrder> as Conv>::from_val(x)), f[7].as_ref().map(|x| <pf::EncryptionAlgorithm as Conv>::from_val(x)), f[8].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        57 => match v { Val::Struct(f) => Some((pf::FileCryptoMetaData::new(Conv::from_val(f[0].as_ref().unwrap()), f[1].as_ref().map(|x| <Vec<u8> as Conv>::from_val(x))).to_val(), v.clone())), _ => unreachable!() },
        _ => unreachable!(),
    }
}
pub fn construct_bare(t: usize, v: &Val) -> Option<Val> {
    match t {
        0 => None,
        1 => None,
        2 => None,
        3 => None,
        4 => None,
        5 => None,
        6 => None,
        7 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::Statistics::new(<Vec<u8> as Conv>::from_val(f[0].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[1].as_ref().unwrap()), <i64 as Conv>::from_val(f[2].as_ref().unwrap()), <i64 as Conv>::from_val(f[3].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[4].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[5].as_ref().unwrap())).to_val()), _ => None },
        8 => None,
        9 => None,
        10 => None,
        11 => None,
        12 => None,
        13 => None,
        14 => None,
        15 => None,
        16 => None,
        17 => None,
        18 => None,
        19 => None,
        20 => None,
        21 => None,
        22 => None,
        23 => None,
        24 => None,
        25 => None,
        26 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::SchemaElement::new(<pf::Type as Conv>::from_val(f[0].as_ref().unwrap()), <i32 as Conv>::from_val(f[1].as_ref().unwrap()), <pf::FieldRepetitionType as Conv>::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), <i32 as Conv>::from_val(f[4].as_ref().unwrap()), <pf::ConvertedType as Conv>::from_val(f[5].as_ref().unwrap()), <i32 as Conv>::from_val(f[6].as_ref().unwrap()), <i32 as Conv>::from_val(f[7].as_ref().unwrap()), <i32 as Conv>::from_val(f[8].as_ref().unwrap()), <pf::LogicalType as Conv>::from_val(f[9].as_ref().unwrap())).to_val()), _ => None },
        27 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::DataPageHeader::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), <pf::Statistics as Conv>::from_val(f[4].as_ref().unwrap())).to_val()), _ => None },
        28 => None,
        29 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::DictionaryPageHeader::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), <bool as Conv>::from_val(f[2].as_ref().unwrap())).to_val()), _ => None },
        30 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::DataPageHeaderV2::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), Conv::from_val(f[4].as_ref().unwrap()), Conv::from_val(f[5].as_ref().unwrap()), <bool as Conv>::from_val(f[6].as_ref().unwrap()), <pf::Statistics as Conv>::from_val(f[7].as_ref().unwrap())).to_val()), _ => None },
        31 => None,
        32 => None,
        33 => None,
        34 => None,
        35 => None,
        36 => None,
        37 => None,
        38 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::PageHeader::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), <i32 as Conv>::from_val(f[3].as_ref().unwrap()), <pf::DataPageHeader as Conv>::from_val(f[4].as_ref().unwrap()), <pf::IndexPageHeader as Conv>::from_val(f[5].as_ref().unwrap()), <pf::DictionaryPageHeader as Conv>::from_val(f[6].as_ref().unwrap()), <pf::DataPageHeaderV2 as Conv>::from_val(f[7].as_ref().unwrap())).to_val()), _ => None },
        39 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::KeyValue::new(Conv::from_val(f[0].as_ref().unwrap()), <String as Conv>::from_val(f[1].as_ref().unwrap())).to_val()), _ => None },
        40 => None,
        41 => None,
        42 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::ColumnMetaData::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), Conv::from_val(f[4].as_ref().unwrap()), Conv::from_val(f[5].as_ref().unwrap()), Conv::from_val(f[6].as_ref().unwrap()), <Vec<pf::KeyValue> as Conv>::from_val(f[7].as_ref().unwrap()), Conv::from_val(f[8].as_ref().unwrap()), <i64 as Conv>::from_val(f[9].as_ref().unwrap()), <i64 as Conv>::from_val(f[10].as_ref().unwrap()), <pf::Statistics as Conv>::from_val(f[11].as_ref().unwrap()), <Vec<pf::PageEncodingStats> as Conv>::from_val(f[12].as_ref().unwrap()), <i64 as Conv>::from_val(f[13].as_ref().unwrap())).to_val()), _ => None },
        43 => None,
        44 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::EncryptionWithColumnKey::new(Conv::from_val(f[0].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[1].as_ref().unwrap())).to_val()), _ => None },
        45 => None,
        46 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::ColumnChunk::new(<String as Conv>::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), <pf::ColumnMetaData as Conv>::from_val(f[2].as_ref().unwrap()), <i64 as Conv>::from_val(f[3].as_ref().unwrap()), <i32 as Conv>::from_val(f[4].as_ref().unwrap()), <i64 as Conv>::from_val(f[5].as_ref().unwrap()), <i32 as Conv>::from_val(f[6].as_ref().unwrap()), <pf::ColumnCryptoMetaData as Conv>::from_val(f[7].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[8].as_ref().unwrap())).to_val()), _ => None },
        47 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::RowGroup::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), <Vec<pf::SortingColumn> as Conv>::from_val(f[3].as_ref().unwrap()), <i64 as Conv>::from_val(f[4].as_ref().unwrap()), <i64 as Conv>::from_val(f[5].as_ref().unwrap()), <i16 as Conv>::from_val(f[6].as_ref().unwrap())).to_val()), _ => None },
        48 => None,
        49 => None,
        50 => None,
        51 => None,
        52 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::ColumnIndex::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), <Vec<i64> as Conv>::from_val(f[4].as_ref().unwrap())).to_val()), _ => None },
        53 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::AesGcmV1::new(<Vec<u8> as Conv>::from_val(f[0].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[1].as_ref().unwrap()), <bool as Conv>::from_val(f[2].as_ref().unwrap())).to_val()), _ => None },
        54 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::AesGcmCtrV1::new(<Vec<u8> as Conv>::from_val(f[0].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[1].as_ref().unwrap()), <bool as Conv>::from_val(f[2].as_ref().unwrap())).to_val()), _ => None },
        55 => None,
        56 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::FileMetaData::new(Conv::from_val(f[0].as_ref().unwrap()), Conv::from_val(f[1].as_ref().unwrap()), Conv::from_val(f[2].as_ref().unwrap()), Conv::from_val(f[3].as_ref().unwrap()), <Vec<pf::KeyValue> as Conv>::from_val(f[4].as_ref().unwrap()), <String as Conv>::from_val(f[5].as_ref().unwrap()), <Vec<pf::ColumnOrder> as Conv>::from_val(f[6].as_ref().unwrap()), <pf::EncryptionAlgorithm as Conv>::from_val(f[7].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[8].as_ref().unwrap())).to_val()), _ => None },
        57 => match v { Val::Struct(f) if f.iter().all(|x| x.is_some()) => Some(pf::FileCryptoMetaData::new(Conv::from_val(f[0].as_ref().unwrap()), <Vec<u8> as Conv>::from_val(f[1].as_ref().unwrap())).to_val()), _ => None },
        _ => unreachable!(),
    }
}
/// for enumerations: (named constants, declared list of values, through From<i32>, From<&i32>, into i32, into i32 by reference)
pub fn enum_facts(t: usize, x: i32) -> Option<EnumFacts> {
    match t {
        0 => Some(EnumFacts { consts: vec![("BOOLEAN", pf::Type::BOOLEAN.0), ("INT32", pf::Type::INT32.0), ("INT64", pf::Type::INT64.0), ("INT96", pf::Type::INT96.0), ("FLOAT", pf::Type::FLOAT.0), ("DOUBLE", pf::Type::DOUBLE.0), ("BYTE_ARRAY", pf::Type::BYTE_ARRAY.0), ("FIXED_LEN_BYTE_ARRAY", pf::Type::FIXED_LEN_BYTE_ARRAY.0)], listed: pf::Type::ENUM_VALUES.iter().map(|x| x.0).collect(), from: pf::Type::from(x).0, from_ref: pf::Type::from(&x).0, into: i32::from(pf::Type(x)), into_ref: i32::from(&pf::Type(x)) }),
        1 => Some(EnumFacts { consts: vec![("UTF8", pf::ConvertedType::UTF8.0), ("MAP", pf::ConvertedType::MAP.0), ("MAP_KEY_VALUE", pf::ConvertedType::MAP_KEY_VALUE.0), ("LIST", pf::ConvertedType::LIST.0), ("ENUM", pf::ConvertedType::ENUM.0), ("DECIMAL", pf::ConvertedType::DECIMAL.0), ("DATE", pf::ConvertedType::DATE.0), ("TIME_MILLIS", pf::ConvertedType::TIME_MILLIS.0), ("TIME_MICROS", pf::ConvertedType::TIME_MICROS.0), ("TIMESTAMP_MILLIS", pf::ConvertedType::TIMESTAMP_MILLIS.0), ("TIMESTAMP_MICROS", pf::ConvertedType::TIMESTAMP_MICROS.0), ("UINT_8", pf::ConvertedType::UINT_8.0), ("UINT_16", pf::ConvertedType::UINT_16.0), ("UINT_32", pf::ConvertedType::UINT_32.0), ("UINT_64", pf::ConvertedType::UINT_64.0), ("INT_8", pf::ConvertedType::INT_8.0), ("INT_16", pf::ConvertedType::INT_16.0), ("INT_32", pf::ConvertedType::INT_32.0), ("INT_64", pf::ConvertedType::INT_64.0), ("JSON", pf::ConvertedType::JSON.0), ("BSON", pf::ConvertedType::BSON.0), ("INTERVAL", pf::ConvertedType::INTERVAL.0)], listed: pf::ConvertedType::ENUM_VALUES.iter().map(|x| x.0).collect(), from: pf::ConvertedType::from(x).0, from_ref: pf::ConvertedType::from(&x).0, into: i32::from(pf::ConvertedType(x)), into_ref: i32::from(&pf::ConvertedType(x)) }),
        2 => Some(EnumFacts { consts: vec![("REQUIRED", pf::FieldRepetitionType::REQUIRED.0), ("OPTIONAL", pf::FieldRepetitionType::OPTIONAL.0), ("REPEATED", pf::FieldRepetitionType::REPEATED.0)], listed: pf::FieldRepetitionType::ENUM_VALUES.iter().map(|x| x.0).collect(), from: pf::FieldRepetitionType::from(x).0, from_ref: pf::FieldRepetitionType::from(&x).0, into: i32::from(pf::FieldRepetitionType(x)), into_ref: i32::from(&pf::FieldRepetitionType(x)) }),
        3 => Some(EnumFacts { consts: vec![("PLAIN", pf::Encoding::PLAIN.0), ("PLAIN_DICTIONARY", pf::Encoding::PLAIN_DICTIONARY.0), ("RLE", pf::Encoding::RLE.0), ("BIT_PACKED", pf::Encoding::BIT_PACKED.0), ("DELTA_BINARY_PACKED", pf::Encoding::DELTA_BINARY_PACKED.0), ("DELTA_LENGTH_BYTE_ARRAY", pf::Encoding::DELTA_LENGTH_BYTE_ARRAY.0), ("DELTA_BYTE_ARRAY", pf::Encoding::DELTA_BYTE_ARRAY.0), ("RLE_DICTIONARY", pf::Encoding::RLE_DICTIONARY.0), ("BYTE_STREAM_SPLIT", pf::Encoding::BYTE_STREAM_SPLIT.0)], listed: pf::Encoding::ENUM_VALUES.iter().map(|x| x.0).collect(), from: pf::Encoding::from(x).0, from_ref: pf::Encoding::from(&x).0, into: i32::from(pf::Encoding(x)), into_ref: i32::from(&pf::Encoding(x)) }),
        4 => Some(EnumFacts { consts: vec![("UNCOMPRESSED", pf::CompressionCodec::UNCOMPRESSED.0), ("SNAPPY", pf::CompressionCodec::SNAPPY.0), ("GZIP", pf::CompressionCodec::GZIP.0), ("LZO", pf::CompressionCodec::LZO.0), ("BROTLI", pf::CompressionCodec::BROTLI.0), ("LZ4", pf::CompressionCodec::LZ4.0), ("ZSTD", pf::CompressionCodec::ZSTD.0), ("LZ4_RAW", pf::CompressionCodec::LZ4_RAW.0)], listed: pf::CompressionCodec::ENUM_VALUES.iter().map(|x| x.0).collect(), from: pf::CompressionCodec::from(x).0, from_ref: pf::CompressionCodec::from(&x).0, into: i32::from(pf::CompressionCodec(x)), into_ref: i32::from(&pf::CompressionCodec(x)) }),
        5 => Some(EnumFacts { consts: vec![("DATA_PAGE", pf::PageType::DATA_PAGE.0), ("INDEX_PAGE", pf::PageType::INDEX_PAGE.0), ("DICTIONARY_PAGE", pf::PageType::DICTIONARY_PAGE.0), ("DATA_PAGE_V2", pf::PageType::DATA_PAGE_V2.0)], listed: pf::PageType::ENUM_VALUES.iter().map(|x| x.0).collect(), from: pf::PageType::from(x).0, from_ref: pf::PageType::from(&x).0, into: i32::from(pf::PageType(x)), into_ref: i32::from(&pf::PageType(x)) }),
        6 => Some(EnumFacts { consts: vec![("UNORDERED", pf::BoundaryOrder::UNORDERED.0), ("ASCENDING", pf::BoundaryOrder::ASCENDING.0), ("DESCENDING", pf::BoundaryOrder::DESCENDING.0)], listed: pf::BoundaryOrder::ENUM_VALUES.iter().map(|x| x.0).collect(), from: pf::BoundaryOrder::from(x).0, from_ref: pf::BoundaryOrder::from(&x).0, into: i32::from(pf::BoundaryOrder(x)), into_ref: i32::from(&pf::BoundaryOrder(x)) }),
        7 => None,
        8 => None,
        9 => None,
        10 => None,
        11 => None,
        12 => None,
        13 => None,
        14 => None,
        15 => None,
        16 => None,
        17 => None,
        18 => None,
        19 => None,
        20 => None,
        21 => None,
        22 => None,
        23 => None,
        24 => None,
        25 => None,
        26 => None,
        27 => None,
        28 => None,
        29 => None,
        30 => None,
        31 => None,
        32 => None,
        33 => None,
        34 => None,
        35 => None,
        36 => None,
        37 => None,
        38 => None,
        39 => None,
        40 => None,
        41 => None,
        42 => None,
        43 => None,
        44 => None,
        45 => None,
        46 => None,
        47 => None,
        48 => None,
        49 => None,
        50 => None,
        51 => None,
        52 => None,
        53 => None,
        54 => None,
        55 => None,
        56 => None,
        57 => None,
        _ => unreachable!(),
    }
}
