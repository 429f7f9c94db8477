From 37eede8ef61482cc2bf71da92a59411843d57db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 1/5] fix: do not preallocate lists by their declared length

A list length is read from the input before any of the elements, so a module of
a few bytes could make the decoder request up to u32::MAX * size_of::<T>() bytes
and abort the process with an allocation failure.
---
 src/decode/helpers.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decode/helpers.rs b/src/decode/helpers.rs
index 059ced2..00823ca 100644
--- a/src/decode/helpers.rs
+++ b/src/decode/helpers.rs
@@ -108,7 +108,9 @@ where
 {
     let len = decode_u32(reader)?;
 
-    let mut items = Vec::with_capacity(len.try_into().unwrap());
+    // `len` is untrusted: let the vector grow with the elements actually present
+    // instead of preallocating, so that a bogus length cannot exhaust memory
+    let mut items = Vec::new();
     for i in 0..len {
         let elem = parse_fn(reader).map_err(|err| DecodeListError::ParseElement {
             position: i,
-- 
2.43.0


From 4b627b0c66f44f889eeaa9b95f1fd5ebfe1e028d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 2/5] fix: do not preallocate byte vectors by their declared
 length

As for lists: a few bytes of input could make the decoder allocate and zero up
to 4 GiB for a name or a data segment before noticing that the bytes are not
there.
---
 src/decode/helpers.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/decode/helpers.rs b/src/decode/helpers.rs
index 00823ca..c6eb6fe 100644
--- a/src/decode/helpers.rs
+++ b/src/decode/helpers.rs
@@ -159,8 +159,13 @@ pub(crate) fn decode_byte_vector<R: Read + ?Sized>(
     reader: &mut R,
 ) -> Result<Vec<u8>, DecodeByteVectorError> {
     let len = decode_u32(reader)?;
-    let mut b = vec![0u8; len.try_into().unwrap()];
-    reader.read_exact(&mut b)?;
+    // `len` is untrusted: let the buffer grow with the bytes actually present
+    // instead of preallocating, so that a bogus length cannot exhaust memory
+    let mut b = Vec::new();
+    let n = reader.take(len.into()).read_to_end(&mut b)?;
+    if n as u64 != u64::from(len) {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
     Ok(b)
 }
 
-- 
2.43.0


From 37c3c99492dff06a70f7310e7e5c2d9b6c313e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 3/5] fix: report UnexpectedEof errors of the reader at section
 boundaries

A reader may fail with ErrorKind::UnexpectedEof itself (decompressors do, when
their input is cut short). Between two sections that error was taken for the end
of the module, so a truncated stream decoded successfully.
---
 src/decode/module.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/decode/module.rs b/src/decode/module.rs
index cb48137..8b4d3ce 100644
--- a/src/decode/module.rs
+++ b/src/decode/module.rs
@@ -2,7 +2,6 @@ use crate::core::Func;
 use crate::core::{Module, SectionHeader, SectionKind};
 use crate::decode::FromMarkerByte;
 use crate::decode::integer::{DecodeU32Error, decode_u32};
-use crate::decode::read_byte;
 use crate::decode::sections::*;
 use phf::phf_ordered_map;
 use std::io::{self, Read};
@@ -385,13 +384,21 @@ pub enum DecodeSectionHeaderError {
 fn decode_section_header<R: Read + ?Sized>(
     reader: &mut R,
 ) -> Result<Option<SectionHeader>, DecodeSectionHeaderError> {
-    let id = match read_byte(reader) {
-        Ok(id) => id,
-        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(None),
-        Err(e) => return Err(e.into()),
+    // Only a genuine end of input (a zero-length read) ends the module. An error
+    // of kind UnexpectedEof raised by the reader itself must be reported.
+    let mut id = [0u8];
+    let n = loop {
+        match reader.read(&mut id) {
+            Ok(n) => break n,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
+            Err(e) => return Err(e.into()),
+        }
     };
+    if n == 0 {
+        return Ok(None);
+    }
 
-    let kind = SectionKind::from_marker(id)?;
+    let kind = SectionKind::from_marker(id[0])?;
     let size = decode_u32(reader)?;
 
     Ok(Some(SectionHeader { kind, size }))
-- 
2.43.0


From 73d91d6b7b2fd0afb2361d1254b5c5b558776509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:44 +0000
Subject: [PATCH 4/5] fix: report why the value type of a block type failed to
 decode

Block types starting with 0x63/0x64 (reference types) whose heap type is
malformed, truncated or hit by an I/O error were reported as a negative type
index, dropping the actual error.
---
 src/decode/instructions.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index 646a327..7235d06 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -11,7 +11,7 @@ use crate::decode::integer::{
     DecodeI32Error, DecodeI64Error, DecodeS33Error, DecodeU32Error, DecodeU64Error, decode_i32,
     decode_i64, decode_s33, decode_u32, decode_u64,
 };
-use crate::decode::types::{DecodeHeapTypeError, DecodeValTypeError};
+use crate::decode::types::{DecodeHeapTypeError, DecodeRefTypeError, DecodeValTypeError};
 use crate::read_byte;
 use std::io::{self, Cursor, Read};
 use thiserror::Error;
@@ -1074,6 +1074,9 @@ pub enum BlockTypeError {
     #[error("failed reading block type marker byte")]
     ReadMarkerByte(io::Error),
 
+    #[error("failed decoding block type value type")]
+    DecodeValType(DecodeValTypeError),
+
     #[error("failed decoding block type index")]
     DecodeIndex(#[from] DecodeS33Error),
 
@@ -1089,8 +1092,12 @@ impl BlockType {
         }
 
         let mut reader = Cursor::new([b]).chain(reader);
-        if let Ok(t) = ValType::decode(&mut reader) {
-            return Ok(Self::T(t));
+        match ValType::decode(&mut reader) {
+            Ok(t) => return Ok(Self::T(t)),
+            // not the marker of any value type: it must be a type index then
+            Err(DecodeValTypeError::DecodeRefType(DecodeRefTypeError::InvalidMarkerByte(_))) => {}
+            // a value type, but one that is malformed, or that couldn't be read
+            Err(e) => return Err(BlockTypeError::DecodeValType(e)),
         }
 
         // Unlike any other occurrence, the type index in a block type is encoded as a positive
-- 
2.43.0


From fcf67904e452e790406a4dee92148faaa85f1e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:24 +0000
Subject: [PATCH 5/5] fix: link every decode error to its cause

Error variants with their own message did not mark the error they wrap as
their source, so that the reason of most failures (and any I/O error of the
input) was not part of the cause chain.
---
 src/decode/instructions.rs     | 56 +++++++++++++++++-----------------
 src/decode/module.rs           |  2 +-
 src/decode/sections/code.rs    |  4 +--
 src/decode/sections/data.rs    |  4 +--
 src/decode/sections/element.rs |  8 ++---
 src/decode/sections/export.rs  |  2 +-
 src/decode/sections/import.rs  |  4 +--
 src/decode/types/comptype.rs   |  4 +--
 src/decode/types/globaltype.rs |  2 +-
 src/decode/types/limits.rs     |  6 ++--
 10 files changed, 46 insertions(+), 46 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index 7235d06..7112620 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -67,28 +67,28 @@ pub enum ControlError {
     DecodeLabelIdxVector(#[from] DecodeListError<DecodeLabelIdxError>),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding tag index")]
-    TagIdx(DecodeTagIdxError),
+    TagIdx(#[source] DecodeTagIdxError),
 
     #[error("failed decoding Catch list")]
     DecodeCatchListError(#[from] DecodeListError<CatchError>),
 
     #[error("failed decoding block type")]
-    BlockType(BlockTypeError),
+    BlockType(#[source] BlockTypeError),
 
     #[error("unexpected `Else` token")]
     UnexpectedElse,
 
     #[error("failed decoding nullability for cast operation")]
-    ReadCastNullabilityMarker(io::Error),
+    ReadCastNullabilityMarker(#[source] io::Error),
 
     #[error("invalid cast operation marker byte: expected 0x00, 0x01, 0x02 or 0x03; got {0:#04X}")]
     InvalidCastNullabilityMarker(u8),
@@ -100,31 +100,31 @@ pub enum ControlError {
 #[derive(Debug, Error)]
 pub enum ReferenceError {
     #[error("failed decoding heap type")]
-    HeapType(DecodeHeapTypeError),
+    HeapType(#[source] DecodeHeapTypeError),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed reading sub-opcode")]
-    ReadSubOpcode(DecodeU32Error),
+    ReadSubOpcode(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
 pub enum AggregateError {
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding field index")]
-    FieldIndex(DecodeU32Error),
+    FieldIndex(#[source] DecodeU32Error),
 
     #[error("failed decoding data index")]
-    DataIdx(DecodeDataIdxError),
+    DataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 
     #[error("failed decoding array fixed length")]
-    ArrayFixedLength(DecodeU32Error),
+    ArrayFixedLength(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
@@ -136,37 +136,37 @@ pub enum ParametricError {
 #[derive(Debug, Error)]
 pub enum VariableError {
     #[error("failed decoding Local index")]
-    LocalIdx(DecodeLocalIdxError),
+    LocalIdx(#[source] DecodeLocalIdxError),
 
     #[error("failed decoding Global index")]
-    GlobalIdx(DecodeGlobalIdxError),
+    GlobalIdx(#[source] DecodeGlobalIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum TableError {
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum MemoryError {
     #[error("failed decoding Memarg")]
-    DecodeMemarg(MemargError),
+    DecodeMemarg(#[source] MemargError),
 
     #[error("failed decoding data index")]
-    DecodeDataIdx(DecodeDataIdxError),
+    DecodeDataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding memory index")]
-    DecodeMemIdx(DecodeMemIdxError),
+    DecodeMemIdx(#[source] DecodeMemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum NumericError {
     #[error("failed reading 0xFC-prefixed numeric opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     DecodeI32(DecodeI32Error),
@@ -184,7 +184,7 @@ pub enum NumericError {
 #[derive(Debug, Error)]
 pub enum VectorError {
     #[error("failed reading Vector opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     Memarg(MemargError),
@@ -193,7 +193,7 @@ pub enum VectorError {
     LaneIdx(LaneIdxError),
 
     #[error("failed reading immediate bytes")]
-    ReadImmediateBytes(io::Error),
+    ReadImmediateBytes(#[source] io::Error),
 
     #[error("unexpected Vector opcode: {0:#04X}")]
     InvalidOpcode(u32),
@@ -1024,10 +1024,10 @@ pub enum MemargError {
     InvalidFlagsBit(u32),
 
     #[error("failed decoding alignment")]
-    Align(DecodeU32Error),
+    Align(#[source] DecodeU32Error),
 
     #[error("failed decoding offset")]
-    Offset(DecodeU64Error),
+    Offset(#[source] DecodeU64Error),
 
     #[error("failed decoding memory index")]
     MemIdx(#[from] DecodeMemIdxError),
@@ -1072,10 +1072,10 @@ impl LaneIdx {
 #[derive(Debug, Error)]
 pub enum BlockTypeError {
     #[error("failed reading block type marker byte")]
-    ReadMarkerByte(io::Error),
+    ReadMarkerByte(#[source] io::Error),
 
     #[error("failed decoding block type value type")]
-    DecodeValType(DecodeValTypeError),
+    DecodeValType(#[source] DecodeValTypeError),
 
     #[error("failed decoding block type index")]
     DecodeIndex(#[from] DecodeS33Error),
diff --git a/src/decode/module.rs b/src/decode/module.rs
index 8b4d3ce..6ab6a22 100644
--- a/src/decode/module.rs
+++ b/src/decode/module.rs
@@ -150,7 +150,7 @@ pub enum DecodeModuleError {
     DataCountDatasLenMismatch { datas_len: usize, data_count: u32 },
 
     #[error("failed decoding Data Count section")]
-    DecodeDataCount(std::num::TryFromIntError),
+    DecodeDataCount(#[source] std::num::TryFromIntError),
 
     #[error("Data index was present in Code section, but Data Count section is missing")]
     DataIndexWithoutDataCount,
diff --git a/src/decode/sections/code.rs b/src/decode/sections/code.rs
index 75e08a4..bfc8587 100644
--- a/src/decode/sections/code.rs
+++ b/src/decode/sections/code.rs
@@ -29,7 +29,7 @@ pub(crate) struct Code {
 #[derive(Debug, Error)]
 pub enum DecodeCodeError {
     #[error("failed decoding size of function code")]
-    DecodeFunctionSize(DecodeU32Error),
+    DecodeFunctionSize(#[source] DecodeU32Error),
 
     #[error("failed decoding locals vector")]
     DecodeLocalsVector(#[from] DecodeListError<DecodeCodeLocalsError>),
@@ -85,7 +85,7 @@ pub(crate) struct Local {
 #[derive(Debug, Error)]
 pub enum DecodeCodeLocalsError {
     #[error("failed decoding count of function locals")]
-    DecodeLocalsCount(DecodeU32Error),
+    DecodeLocalsCount(#[source] DecodeU32Error),
 
     #[error("too many locals: expected at most {max_locals}; got {actual_locals}")]
     LocalsCountOutOfBound { max_locals: u64, actual_locals: u64 },
diff --git a/src/decode/sections/data.rs b/src/decode/sections/data.rs
index 2e95f75..01a968f 100644
--- a/src/decode/sections/data.rs
+++ b/src/decode/sections/data.rs
@@ -24,13 +24,13 @@ pub(crate) fn decode_data_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeDataSegmentError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected 0 (passive), 1 or 2 (active); got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpr(ParseExpressionError),
+    DecodeOffsetExpr(#[source] ParseExpressionError),
 
     #[error("failed decoding init byte vector")]
     DecodeInitVector(#[from] DecodeByteVectorError),
diff --git a/src/decode/sections/element.rs b/src/decode/sections/element.rs
index d5cc28e..7860461 100644
--- a/src/decode/sections/element.rs
+++ b/src/decode/sections/element.rs
@@ -31,19 +31,19 @@ pub(crate) fn decode_element_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeElementError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected value in range [0,7]; got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpression(ParseExpressionError),
+    DecodeOffsetExpression(#[source] ParseExpressionError),
 
     #[error("failed decoding Element kind")]
     DecodeElementKind(#[from] DecodeElementKindError),
 
     #[error("failed decoding Element expression")]
-    DecodeElementExpression(ParseExpressionError),
+    DecodeElementExpression(#[source] ParseExpressionError),
 
     #[error(transparent)]
     DecodeTableIdx(#[from] DecodeTableIdxError),
@@ -52,7 +52,7 @@ pub enum DecodeElementError {
     DecodeReferenceType(#[from] DecodeRefTypeError),
 
     #[error("failed decoding table.init expressions")]
-    DecodeInit(DecodeListError<ParseExpressionError>),
+    DecodeInit(#[source] DecodeListError<ParseExpressionError>),
 
     #[error(transparent)]
     DecodeFuncIdxVector(#[from] DecodeListError<DecodeFuncIdxError>),
diff --git a/src/decode/sections/export.rs b/src/decode/sections/export.rs
index 9178122..701f0c6 100644
--- a/src/decode/sections/export.rs
+++ b/src/decode/sections/export.rs
@@ -25,7 +25,7 @@ pub enum DecodeExportError {
     DecodeName(#[from] DecodeNameError),
 
     #[error("failed reading Export descriptor marker byte")]
-    ReadDescriptorMarkerByte(io::Error),
+    ReadDescriptorMarkerByte(#[source] io::Error),
 
     #[error("failed reading ExportDesc index")]
     DecodeIndex(#[from] DecodeU32Error),
diff --git a/src/decode/sections/import.rs b/src/decode/sections/import.rs
index cf300ae..5b74f88 100644
--- a/src/decode/sections/import.rs
+++ b/src/decode/sections/import.rs
@@ -24,10 +24,10 @@ pub(crate) fn decode_import_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeImportError {
     #[error("failed decoding module name")]
-    DecodeModuleName(DecodeNameError),
+    DecodeModuleName(#[source] DecodeNameError),
 
     #[error("failed decoding item name")]
-    DecodeItemName(DecodeNameError),
+    DecodeItemName(#[source] DecodeNameError),
 
     #[error(transparent)]
     DecodeExternType(#[from] DecodeExternTypeError),
diff --git a/src/decode/types/comptype.rs b/src/decode/types/comptype.rs
index 77577cd..3951d14 100644
--- a/src/decode/types/comptype.rs
+++ b/src/decode/types/comptype.rs
@@ -23,10 +23,10 @@ pub enum DecodeCompTypeError {
     DecodeStruct(#[from] DecodeListError<DecodeFieldTypeError>),
 
     #[error("failed decoding Function type parameters")]
-    DecodeFuncParameters(DecodeResultTypeError),
+    DecodeFuncParameters(#[source] DecodeResultTypeError),
 
     #[error("failed decoding Function type results")]
-    DecodeFuncResults(DecodeResultTypeError),
+    DecodeFuncResults(#[source] DecodeResultTypeError),
 
     #[error(transparent)]
     DecodeFieldType(#[from] DecodeFieldTypeError),
diff --git a/src/decode/types/globaltype.rs b/src/decode/types/globaltype.rs
index 86989f2..db7127e 100644
--- a/src/decode/types/globaltype.rs
+++ b/src/decode/types/globaltype.rs
@@ -13,7 +13,7 @@ pub enum DecodeGlobalTypeError {
     DecodeValueType(#[from] DecodeValTypeError),
 
     #[error("failed decoding Mutability")]
-    DecodeMutability(std::io::Error),
+    DecodeMutability(#[source] std::io::Error),
 
     #[error(transparent)]
     InvalidMutability(#[from] InvalidMutabilityByteError),
diff --git a/src/decode/types/limits.rs b/src/decode/types/limits.rs
index df1b54b..e3e8921 100644
--- a/src/decode/types/limits.rs
+++ b/src/decode/types/limits.rs
@@ -8,16 +8,16 @@ use thiserror::Error;
 #[derive(Debug, Error)]
 pub enum ParseLimitsError {
     #[error("failed reading flag byte")]
-    ReadFlagByte(io::Error),
+    ReadFlagByte(#[source] io::Error),
 
     #[error("unexpected Limits flag byte: expected 0x00, 0x01, 0x04 or 0x05; got {0:#04X}")]
     UnexpectedFlagByte(u8),
 
     #[error("failed reading minimum limit")]
-    ReadMinLimit(DecodeU64Error),
+    ReadMinLimit(#[source] DecodeU64Error),
 
     #[error("failed reading maximum limit")]
-    ReadMaxLimit(DecodeU64Error),
+    ReadMaxLimit(#[source] DecodeU64Error),
 }
 
 pub(super) fn parse_limits<R: Read + ?Sized>(reader: &mut R) -> Result<Limits, ParseLimitsError> {
-- 
2.43.0

