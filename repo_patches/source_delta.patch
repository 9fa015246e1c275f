From ecc3d599c2a01c743225c4b16e7b79cdf52db7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:51 +0000
Subject: [PATCH 1/7] fix: do not allocate memory for lengths that are merely
 declared

A list or byte vector's declared length was used to allocate its storage up
front, so a 15-byte module could request up to 4 GiB of bytes or 2^32 list
items and abort the process. Grow the storage as the content arrives.
---
 src/decode/helpers.rs | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/decode/helpers.rs b/src/decode/helpers.rs
index 059ced2..ff18d78 100644
--- a/src/decode/helpers.rs
+++ b/src/decode/helpers.rs
@@ -108,7 +108,9 @@ where
 {
     let len = decode_u32(reader)?;
 
-    let mut items = Vec::with_capacity(len.try_into().unwrap());
+    // do not preallocate `len` items: it is merely declared by the input, which may
+    // be much shorter
+    let mut items = Vec::new();
     for i in 0..len {
         let elem = parse_fn(reader).map_err(|err| DecodeListError::ParseElement {
             position: i,
@@ -157,8 +159,15 @@ pub(crate) fn decode_byte_vector<R: Read + ?Sized>(
     reader: &mut R,
 ) -> Result<Vec<u8>, DecodeByteVectorError> {
     let len = decode_u32(reader)?;
-    let mut b = vec![0u8; len.try_into().unwrap()];
-    reader.read_exact(&mut b)?;
+
+    // do not preallocate `len` bytes: it is merely declared by the input, which may
+    // be much shorter
+    let mut b = Vec::new();
+    let n = reader.take(len.into()).read_to_end(&mut b)?;
+    if n < len.try_into().unwrap() {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+
     Ok(b)
 }
 
-- 
2.43.0


From 2150884c86c725ded47256f4ec5faaa7fc3adeb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:52 +0000
Subject: [PATCH 2/7] fix: report a reader's failure at a section boundary

A reader failing with UnexpectedEof where a section could start was taken for
the regular end of the module. Only a read returning no bytes is the end.
---
 src/decode/module.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/decode/module.rs b/src/decode/module.rs
index cb48137..254e235 100644
--- a/src/decode/module.rs
+++ b/src/decode/module.rs
@@ -2,7 +2,6 @@ use crate::core::Func;
 use crate::core::{Module, SectionHeader, SectionKind};
 use crate::decode::FromMarkerByte;
 use crate::decode::integer::{DecodeU32Error, decode_u32};
-use crate::decode::read_byte;
 use crate::decode::sections::*;
 use phf::phf_ordered_map;
 use std::io::{self, Read};
@@ -385,13 +384,18 @@ pub enum DecodeSectionHeaderError {
 fn decode_section_header<R: Read + ?Sized>(
     reader: &mut R,
 ) -> Result<Option<SectionHeader>, DecodeSectionHeaderError> {
-    let id = match read_byte(reader) {
-        Ok(id) => id,
-        Err(e) if e.kind() == io::ErrorKind::UnexpectedEof => return Ok(None),
-        Err(e) => return Err(e.into()),
-    };
+    let mut id = [0u8];
+    loop {
+        match reader.read(&mut id) {
+            // the input may only end at a section boundary
+            Ok(0) => return Ok(None),
+            Ok(_) => break,
+            Err(e) if e.kind() == io::ErrorKind::Interrupted => continue,
+            Err(e) => return Err(e.into()),
+        }
+    }
 
-    let kind = SectionKind::from_marker(id)?;
+    let kind = SectionKind::from_marker(id[0])?;
     let size = decode_u32(reader)?;
 
     Ok(Some(SectionHeader { kind, size }))
-- 
2.43.0


From ab5f1f896805fa428baee42512c51ce72f6566c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:19 +0000
Subject: [PATCH 3/7] fix: report why a reference block type failed decoding

The error of a block type's reference type (0x63, 0x64), including a failure of
the reader, was dropped and the marker byte misreported as a negative type
index.
---
 src/decode/instructions.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index 646a327..ef8f896 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -1074,6 +1074,9 @@ pub enum BlockTypeError {
     #[error("failed reading block type marker byte")]
     ReadMarkerByte(io::Error),
 
+    #[error("failed decoding block type value type")]
+    DecodeValType(#[from] DecodeValTypeError),
+
     #[error("failed decoding block type index")]
     DecodeIndex(#[from] DecodeS33Error),
 
@@ -1089,8 +1092,12 @@ impl BlockType {
         }
 
         let mut reader = Cursor::new([b]).chain(reader);
-        if let Ok(t) = ValType::decode(&mut reader) {
-            return Ok(Self::T(t));
+        match ValType::decode(&mut reader) {
+            Ok(t) => return Ok(Self::T(t)),
+            // the marker already denotes a reference type, so it's the type that
+            // follows it that failed decoding
+            Err(e) if matches!(b, 0x63 | 0x64) => return Err(e.into()),
+            Err(_) => {}
         }
 
         // Unlike any other occurrence, the type index in a block type is encoded as a positive
-- 
2.43.0


From 3bd074404548122d41908401f63f1b28a790f913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:30 +0000
Subject: [PATCH 4/7] fix: link every error to its cause

Many error variants wrapped their cause without exposing it as source(), so
walking an error's chain (as the CLI's "Caused by" list does) stopped before
the root cause.
---
 src/decode/instructions.rs     | 54 +++++++++++++++++-----------------
 src/decode/module.rs           |  2 +-
 src/decode/sections/code.rs    |  4 +--
 src/decode/sections/data.rs    |  4 +--
 src/decode/sections/element.rs |  8 ++---
 src/decode/sections/export.rs  |  2 +-
 src/decode/sections/import.rs  |  4 +--
 src/decode/types/comptype.rs   |  4 +--
 src/decode/types/globaltype.rs |  2 +-
 src/decode/types/limits.rs     |  6 ++--
 10 files changed, 45 insertions(+), 45 deletions(-)

diff --git a/src/decode/instructions.rs b/src/decode/instructions.rs
index ef8f896..409db89 100644
--- a/src/decode/instructions.rs
+++ b/src/decode/instructions.rs
@@ -67,28 +67,28 @@ pub enum ControlError {
     DecodeLabelIdxVector(#[from] DecodeListError<DecodeLabelIdxError>),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding tag index")]
-    TagIdx(DecodeTagIdxError),
+    TagIdx(#[source] DecodeTagIdxError),
 
     #[error("failed decoding Catch list")]
     DecodeCatchListError(#[from] DecodeListError<CatchError>),
 
     #[error("failed decoding block type")]
-    BlockType(BlockTypeError),
+    BlockType(#[source] BlockTypeError),
 
     #[error("unexpected `Else` token")]
     UnexpectedElse,
 
     #[error("failed decoding nullability for cast operation")]
-    ReadCastNullabilityMarker(io::Error),
+    ReadCastNullabilityMarker(#[source] io::Error),
 
     #[error("invalid cast operation marker byte: expected 0x00, 0x01, 0x02 or 0x03; got {0:#04X}")]
     InvalidCastNullabilityMarker(u8),
@@ -100,31 +100,31 @@ pub enum ControlError {
 #[derive(Debug, Error)]
 pub enum ReferenceError {
     #[error("failed decoding heap type")]
-    HeapType(DecodeHeapTypeError),
+    HeapType(#[source] DecodeHeapTypeError),
 
     #[error("failed decoding function index")]
-    FuncIdx(DecodeFuncIdxError),
+    FuncIdx(#[source] DecodeFuncIdxError),
 
     #[error("failed reading sub-opcode")]
-    ReadSubOpcode(DecodeU32Error),
+    ReadSubOpcode(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
 pub enum AggregateError {
     #[error("failed decoding type index")]
-    TypeIdx(DecodeTypeIdxError),
+    TypeIdx(#[source] DecodeTypeIdxError),
 
     #[error("failed decoding field index")]
-    FieldIndex(DecodeU32Error),
+    FieldIndex(#[source] DecodeU32Error),
 
     #[error("failed decoding data index")]
-    DataIdx(DecodeDataIdxError),
+    DataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 
     #[error("failed decoding array fixed length")]
-    ArrayFixedLength(DecodeU32Error),
+    ArrayFixedLength(#[source] DecodeU32Error),
 }
 
 #[derive(Debug, Error)]
@@ -136,37 +136,37 @@ pub enum ParametricError {
 #[derive(Debug, Error)]
 pub enum VariableError {
     #[error("failed decoding Local index")]
-    LocalIdx(DecodeLocalIdxError),
+    LocalIdx(#[source] DecodeLocalIdxError),
 
     #[error("failed decoding Global index")]
-    GlobalIdx(DecodeGlobalIdxError),
+    GlobalIdx(#[source] DecodeGlobalIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum TableError {
     #[error("failed decoding table index")]
-    TableIdx(DecodeTableIdxError),
+    TableIdx(#[source] DecodeTableIdxError),
 
     #[error("failed decoding element index")]
-    ElemIdx(DecodeElemIdxError),
+    ElemIdx(#[source] DecodeElemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum MemoryError {
     #[error("failed decoding Memarg")]
-    DecodeMemarg(MemargError),
+    DecodeMemarg(#[source] MemargError),
 
     #[error("failed decoding data index")]
-    DecodeDataIdx(DecodeDataIdxError),
+    DecodeDataIdx(#[source] DecodeDataIdxError),
 
     #[error("failed decoding memory index")]
-    DecodeMemIdx(DecodeMemIdxError),
+    DecodeMemIdx(#[source] DecodeMemIdxError),
 }
 
 #[derive(Debug, Error)]
 pub enum NumericError {
     #[error("failed reading 0xFC-prefixed numeric opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     DecodeI32(DecodeI32Error),
@@ -184,7 +184,7 @@ pub enum NumericError {
 #[derive(Debug, Error)]
 pub enum VectorError {
     #[error("failed reading Vector opcode")]
-    ReadOpcode(DecodeU32Error),
+    ReadOpcode(#[source] DecodeU32Error),
 
     #[error(transparent)]
     Memarg(MemargError),
@@ -193,7 +193,7 @@ pub enum VectorError {
     LaneIdx(LaneIdxError),
 
     #[error("failed reading immediate bytes")]
-    ReadImmediateBytes(io::Error),
+    ReadImmediateBytes(#[source] io::Error),
 
     #[error("unexpected Vector opcode: {0:#04X}")]
     InvalidOpcode(u32),
@@ -1024,10 +1024,10 @@ pub enum MemargError {
     InvalidFlagsBit(u32),
 
     #[error("failed decoding alignment")]
-    Align(DecodeU32Error),
+    Align(#[source] DecodeU32Error),
 
     #[error("failed decoding offset")]
-    Offset(DecodeU64Error),
+    Offset(#[source] DecodeU64Error),
 
     #[error("failed decoding memory index")]
     MemIdx(#[from] DecodeMemIdxError),
@@ -1072,7 +1072,7 @@ impl LaneIdx {
 #[derive(Debug, Error)]
 pub enum BlockTypeError {
     #[error("failed reading block type marker byte")]
-    ReadMarkerByte(io::Error),
+    ReadMarkerByte(#[source] io::Error),
 
     #[error("failed decoding block type value type")]
     DecodeValType(#[from] DecodeValTypeError),
diff --git a/src/decode/module.rs b/src/decode/module.rs
index 254e235..a99da39 100644
--- a/src/decode/module.rs
+++ b/src/decode/module.rs
@@ -150,7 +150,7 @@ pub enum DecodeModuleError {
     DataCountDatasLenMismatch { datas_len: usize, data_count: u32 },
 
     #[error("failed decoding Data Count section")]
-    DecodeDataCount(std::num::TryFromIntError),
+    DecodeDataCount(#[source] std::num::TryFromIntError),
 
     #[error("Data index was present in Code section, but Data Count section is missing")]
     DataIndexWithoutDataCount,
diff --git a/src/decode/sections/code.rs b/src/decode/sections/code.rs
index 75e08a4..bfc8587 100644
--- a/src/decode/sections/code.rs
+++ b/src/decode/sections/code.rs
@@ -29,7 +29,7 @@ pub(crate) struct Code {
 #[derive(Debug, Error)]
 pub enum DecodeCodeError {
     #[error("failed decoding size of function code")]
-    DecodeFunctionSize(DecodeU32Error),
+    DecodeFunctionSize(#[source] DecodeU32Error),
 
     #[error("failed decoding locals vector")]
     DecodeLocalsVector(#[from] DecodeListError<DecodeCodeLocalsError>),
@@ -85,7 +85,7 @@ pub(crate) struct Local {
 #[derive(Debug, Error)]
 pub enum DecodeCodeLocalsError {
     #[error("failed decoding count of function locals")]
-    DecodeLocalsCount(DecodeU32Error),
+    DecodeLocalsCount(#[source] DecodeU32Error),
 
     #[error("too many locals: expected at most {max_locals}; got {actual_locals}")]
     LocalsCountOutOfBound { max_locals: u64, actual_locals: u64 },
diff --git a/src/decode/sections/data.rs b/src/decode/sections/data.rs
index 2e95f75..01a968f 100644
--- a/src/decode/sections/data.rs
+++ b/src/decode/sections/data.rs
@@ -24,13 +24,13 @@ pub(crate) fn decode_data_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeDataSegmentError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected 0 (passive), 1 or 2 (active); got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpr(ParseExpressionError),
+    DecodeOffsetExpr(#[source] ParseExpressionError),
 
     #[error("failed decoding init byte vector")]
     DecodeInitVector(#[from] DecodeByteVectorError),
diff --git a/src/decode/sections/element.rs b/src/decode/sections/element.rs
index d5cc28e..7860461 100644
--- a/src/decode/sections/element.rs
+++ b/src/decode/sections/element.rs
@@ -31,19 +31,19 @@ pub(crate) fn decode_element_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeElementError {
     #[error("failed decoding bitfield")]
-    DecodeBitfield(DecodeU32Error),
+    DecodeBitfield(#[source] DecodeU32Error),
 
     #[error("invalid bitfield: expected value in range [0,7]; got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-    DecodeOffsetExpression(ParseExpressionError),
+    DecodeOffsetExpression(#[source] ParseExpressionError),
 
     #[error("failed decoding Element kind")]
     DecodeElementKind(#[from] DecodeElementKindError),
 
     #[error("failed decoding Element expression")]
-    DecodeElementExpression(ParseExpressionError),
+    DecodeElementExpression(#[source] ParseExpressionError),
 
     #[error(transparent)]
     DecodeTableIdx(#[from] DecodeTableIdxError),
@@ -52,7 +52,7 @@ pub enum DecodeElementError {
     DecodeReferenceType(#[from] DecodeRefTypeError),
 
     #[error("failed decoding table.init expressions")]
-    DecodeInit(DecodeListError<ParseExpressionError>),
+    DecodeInit(#[source] DecodeListError<ParseExpressionError>),
 
     #[error(transparent)]
     DecodeFuncIdxVector(#[from] DecodeListError<DecodeFuncIdxError>),
diff --git a/src/decode/sections/export.rs b/src/decode/sections/export.rs
index 9178122..701f0c6 100644
--- a/src/decode/sections/export.rs
+++ b/src/decode/sections/export.rs
@@ -25,7 +25,7 @@ pub enum DecodeExportError {
     DecodeName(#[from] DecodeNameError),
 
     #[error("failed reading Export descriptor marker byte")]
-    ReadDescriptorMarkerByte(io::Error),
+    ReadDescriptorMarkerByte(#[source] io::Error),
 
     #[error("failed reading ExportDesc index")]
     DecodeIndex(#[from] DecodeU32Error),
diff --git a/src/decode/sections/import.rs b/src/decode/sections/import.rs
index cf300ae..5b74f88 100644
--- a/src/decode/sections/import.rs
+++ b/src/decode/sections/import.rs
@@ -24,10 +24,10 @@ pub(crate) fn decode_import_section<R: Read + ?Sized>(
 #[derive(Debug, Error)]
 pub enum DecodeImportError {
     #[error("failed decoding module name")]
-    DecodeModuleName(DecodeNameError),
+    DecodeModuleName(#[source] DecodeNameError),
 
     #[error("failed decoding item name")]
-    DecodeItemName(DecodeNameError),
+    DecodeItemName(#[source] DecodeNameError),
 
     #[error(transparent)]
     DecodeExternType(#[from] DecodeExternTypeError),
diff --git a/src/decode/types/comptype.rs b/src/decode/types/comptype.rs
index 77577cd..3951d14 100644
--- a/src/decode/types/comptype.rs
+++ b/src/decode/types/comptype.rs
@@ -23,10 +23,10 @@ pub enum DecodeCompTypeError {
     DecodeStruct(#[from] DecodeListError<DecodeFieldTypeError>),
 
     #[error("failed decoding Function type parameters")]
-    DecodeFuncParameters(DecodeResultTypeError),
+    DecodeFuncParameters(#[source] DecodeResultTypeError),
 
     #[error("failed decoding Function type results")]
-    DecodeFuncResults(DecodeResultTypeError),
+    DecodeFuncResults(#[source] DecodeResultTypeError),
 
     #[error(transparent)]
     DecodeFieldType(#[from] DecodeFieldTypeError),
diff --git a/src/decode/types/globaltype.rs b/src/decode/types/globaltype.rs
index 86989f2..db7127e 100644
--- a/src/decode/types/globaltype.rs
+++ b/src/decode/types/globaltype.rs
@@ -13,7 +13,7 @@ pub enum DecodeGlobalTypeError {
     DecodeValueType(#[from] DecodeValTypeError),
 
     #[error("failed decoding Mutability")]
-    DecodeMutability(std::io::Error),
+    DecodeMutability(#[source] std::io::Error),
 
     #[error(transparent)]
     InvalidMutability(#[from] InvalidMutabilityByteError),
diff --git a/src/decode/types/limits.rs b/src/decode/types/limits.rs
index df1b54b..e3e8921 100644
--- a/src/decode/types/limits.rs
+++ b/src/decode/types/limits.rs
@@ -8,16 +8,16 @@ use thiserror::Error;
 #[derive(Debug, Error)]
 pub enum ParseLimitsError {
     #[error("failed reading flag byte")]
-    ReadFlagByte(io::Error),
+    ReadFlagByte(#[source] io::Error),
 
     #[error("unexpected Limits flag byte: expected 0x00, 0x01, 0x04 or 0x05; got {0:#04X}")]
     UnexpectedFlagByte(u8),
 
     #[error("failed reading minimum limit")]
-    ReadMinLimit(DecodeU64Error),
+    ReadMinLimit(#[source] DecodeU64Error),
 
     #[error("failed reading maximum limit")]
-    ReadMaxLimit(DecodeU64Error),
+    ReadMaxLimit(#[source] DecodeU64Error),
 }
 
 pub(super) fn parse_limits<R: Read + ?Sized>(reader: &mut R) -> Result<Limits, ParseLimitsError> {
-- 
2.43.0


From bd8b782fdc36fe3cc61bd76d1216a6ef2bf02ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:42 +0000
Subject: [PATCH 5/7] fix: do not panic when verbose output cannot be written

Report the failure like any other error instead.
---
 wadec-cli/src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wadec-cli/src/main.rs b/wadec-cli/src/main.rs
index 1b7733c..f4a4049 100644
--- a/wadec-cli/src/main.rs
+++ b/wadec-cli/src/main.rs
@@ -1,6 +1,7 @@
 use clap::Parser;
 use patharg::InputArg;
 use std::error::Error;
+use std::io::{Write, stdout};
 use std::process::exit;
 
 #[derive(Parser)]
@@ -23,7 +24,7 @@ fn main() {
     let module = wadec::decode_module(input).unwrap_or_else(|e| abort(&cli, e));
 
     if cli.verbose {
-        println!("{module:#?}");
+        writeln!(stdout().lock(), "{module:#?}").unwrap_or_else(|e| abort(&cli, e));
     }
 }
 
-- 
2.43.0


From 47f40b057be3beb6f0c2cf6922e90eb836de1b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:41 +0000
Subject: [PATCH 6/7] fix: do not panic when the error report cannot be written

---
 wadec-cli/src/main.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/wadec-cli/src/main.rs b/wadec-cli/src/main.rs
index f4a4049..9831f46 100644
--- a/wadec-cli/src/main.rs
+++ b/wadec-cli/src/main.rs
@@ -1,7 +1,7 @@
 use clap::Parser;
 use patharg::InputArg;
 use std::error::Error;
-use std::io::{Write, stdout};
+use std::io::{self, Write, stderr, stdout};
 use std::process::exit;
 
 #[derive(Parser)]
@@ -29,7 +29,15 @@ fn main() {
 }
 
 fn abort<T>(cli: &Cli, err: impl Error) -> T {
-    eprintln!("ERROR: {err}");
+    // There is nowhere left to tell if standard error cannot be written.
+    let _ = report(cli, err);
+
+    exit(1)
+}
+
+fn report(cli: &Cli, err: impl Error) -> io::Result<()> {
+    let mut stderr = stderr().lock();
+    writeln!(stderr, "ERROR: {err}")?;
 
     let mut sources = Vec::new();
     let mut current = err.source();
@@ -38,15 +46,15 @@ fn abort<T>(cli: &Cli, err: impl Error) -> T {
         current = cause.source();
     }
     if !sources.is_empty() {
-        eprintln!("\nCaused by:");
+        writeln!(stderr, "\nCaused by:")?;
         for (i, cause) in sources.iter().enumerate() {
-            eprintln!("    {i}: {cause}");
+            writeln!(stderr, "    {i}: {cause}")?;
         }
     }
 
     if cli.verbose {
-        eprintln!("\nDEBUG OUTPUT:\n{err:#?}");
+        writeln!(stderr, "\nDEBUG OUTPUT:\n{err:#?}")?;
     }
 
-    exit(1)
+    Ok(())
 }
-- 
2.43.0


From 85c5a4da93334605747344b9b63a0db01b466586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:30 +0000
Subject: [PATCH 7/7] fix: say truthfully which bitfields of a data segment
 mean active and passive

---
 src/decode/sections/data.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decode/sections/data.rs b/src/decode/sections/data.rs
index 01a968f..b2c1b12 100644
--- a/src/decode/sections/data.rs
+++ b/src/decode/sections/data.rs
@@ -26,7 +26,7 @@ pub enum DecodeDataSegmentError {
     #[error("failed decoding bitfield")]
     DecodeBitfield(#[source] DecodeU32Error),
 
-    #[error("invalid bitfield: expected 0 (passive), 1 or 2 (active); got {0}")]
+    #[error("invalid bitfield: expected 0 or 2 (active), 1 (passive); got {0}")]
     InvalidBitfield(u32),
 
     #[error("failed decoding offset expression")]
-- 
2.43.0

