From fc79f1af35e1959bfe0c18a9a5fa5a3d0aadefb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:06 +0000
Subject: [PATCH 01/22] fix: reject lengths that overflow the byte stream
 offset instead of panicking

---
 src/serialization/stream.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/serialization/stream.rs b/src/serialization/stream.rs
index 123f414..8cad1a5 100644
--- a/src/serialization/stream.rs
+++ b/src/serialization/stream.rs
@@ -85,7 +85,7 @@ impl<'a> ByteStream<'a> {
 
     pub fn slice(&mut self, length: usize) -> Result<&[u8], LunifyError> {
         let start = self.offset;
-        self.offset += length;
+        self.offset = start.checked_add(length).ok_or(LunifyError::InputTooShort)?;
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
@@ -98,7 +98,7 @@ impl<'a> ByteStream<'a> {
         let length = self.size_t()? as usize;
         let start = self.offset;
 
-        self.offset += length;
+        self.offset = start.checked_add(length).ok_or(LunifyError::InputTooShort)?;
 
         if self.offset > self.data.len() {
             return Err(LunifyError::InputTooShort);
-- 
2.43.0


From 94b459fadda384fec04d04dadb47701aa1a5f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:53 +0000
Subject: [PATCH 02/22] fix: only return the input as is if it is Lua 5.1 and
 compiled with the output settings

---
 src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index b0b70b2..6a089b5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -37,7 +37,9 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
     let input_format = Format::from_byte_stream(&mut byte_stream, version, settings)?;
 
     // If the input is already in the correct format, return it as is.
-    if input_format == *output_format && !cfg!(test) {
+    let is_unchanged = version == LuaVersion::Lua51 && input_format == *output_format && settings.lua51 == settings.output;
+
+    if is_unchanged && !cfg!(test) {
         #[cfg(feature = "debug")]
         println!("\n======== Done ========\n");
 
-- 
2.43.0


From 8cd8f9ed76da0e81c22e106f7b027aab0be007c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:55 +0000
Subject: [PATCH 03/22] fix: write strings byte by byte instead of as UTF-8

---
 src/serialization/writer.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index dcd63cd..ab6b1f5 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -41,8 +41,12 @@ impl<'a> ByteWriter<'a> {
     }
 
     pub fn string(&mut self, value: &str) {
-        self.size_t(value.len() as i64);
-        self.slice(value.as_bytes());
+        // Every character represents a single byte of the Lua string, see
+        // `ByteStream::string`.
+        let bytes: Vec<u8> = value.chars().map(|character| character as u8).collect();
+
+        self.size_t(bytes.len() as i64);
+        self.slice(&bytes);
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From 488ff8c752eafe981b6b55309844b0e16bd2b1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:57 +0000
Subject: [PATCH 04/22] fix: keep the upvalue count of functions that have
 their debug information stripped

---
 src/function/mod.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0744c90..0d36e76 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -21,6 +21,7 @@ pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
     last_line_defined: i64,
+    upvalue_count: u8,
     parameter_count: u8,
     is_variadic: u8,
     maximum_stack_size: u8,
@@ -205,7 +206,7 @@ impl Function {
             LuaVersion::Lua50 => line_defined,
         };
 
-        let _upvalue_count = byte_stream.byte()?;
+        let upvalue_count = byte_stream.byte()?;
         let parameter_count = byte_stream.byte()?;
         let mut is_variadic = byte_stream.byte()?;
         let mut maximum_stack_size = byte_stream.byte()?;
@@ -216,7 +217,7 @@ impl Function {
             println!("source_file: {source_file}");
             println!("line_defined: {line_defined}");
             println!("last_line_defined: {last_line_defined}");
-            println!("upvalue_count: {_upvalue_count}");
+            println!("upvalue_count: {upvalue_count}");
             println!("parameter_count: {parameter_count}");
             println!("is_variadic: {is_variadic}");
             println!("maximum_stack_size: {maximum_stack_size}");
@@ -270,6 +271,7 @@ impl Function {
             source_file,
             line_defined,
             last_line_defined,
+            upvalue_count,
             parameter_count,
             is_variadic,
             maximum_stack_size,
@@ -287,7 +289,7 @@ impl Function {
         byte_writer.string(&self.source_file);
         byte_writer.integer(self.line_defined);
         byte_writer.integer(self.last_line_defined);
-        byte_writer.byte(self.upvalues.len() as u8);
+        byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
-- 
2.43.0


From 3422f3f6584fe0e9620dba4cf5539298917c89b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 05/22] fix: return an error for values that do not fit the
 output width instead of truncating them

---
 src/function/mod.rs         | 32 ++++++++++++------------
 src/serialization/macros.rs |  6 ++---
 src/serialization/writer.rs | 50 +++++++++++++++++++++++++++++--------
 3 files changed, 59 insertions(+), 29 deletions(-)

diff --git a/src/function/mod.rs b/src/function/mod.rs
index 0d36e76..759a02c 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -286,22 +286,22 @@ impl Function {
 
     pub(crate) fn write(self, byte_writer: &mut ByteWriter) -> Result<(), LunifyError> {
         // function
-        byte_writer.string(&self.source_file);
-        byte_writer.integer(self.line_defined);
-        byte_writer.integer(self.last_line_defined);
+        byte_writer.string(&self.source_file)?;
+        byte_writer.integer(self.line_defined)?;
+        byte_writer.integer(self.last_line_defined)?;
         byte_writer.byte(self.upvalue_count);
         byte_writer.byte(self.parameter_count);
         byte_writer.byte(self.is_variadic);
         byte_writer.byte(self.maximum_stack_size);
 
         // instructions
-        byte_writer.integer(self.instructions.len() as i64);
+        byte_writer.integer(self.instructions.len() as i64)?;
         for instruction in self.instructions {
-            byte_writer.instruction(instruction);
+            byte_writer.instruction(instruction)?;
         }
 
         // constants
-        byte_writer.integer(self.constants.len() as i64);
+        byte_writer.integer(self.constants.len() as i64)?;
         for constant in self.constants {
             match constant {
                 Constant::Nil => {
@@ -320,35 +320,35 @@ impl Function {
 
                 Constant::String(string) => {
                     byte_writer.byte(4);
-                    byte_writer.string(&string);
+                    byte_writer.string(&string)?;
                 }
             }
         }
 
         // functions
-        byte_writer.integer(self.functions.len() as i64);
+        byte_writer.integer(self.functions.len() as i64)?;
         for function in self.functions {
             function.write(byte_writer)?;
         }
 
         // line info
-        byte_writer.integer(self.line_info.len() as i64);
+        byte_writer.integer(self.line_info.len() as i64)?;
         for line_info in self.line_info {
-            byte_writer.integer(line_info);
+            byte_writer.integer(line_info)?;
         }
 
         // local variables
-        byte_writer.integer(self.local_variables.len() as i64);
+        byte_writer.integer(self.local_variables.len() as i64)?;
         for local_variable in self.local_variables {
-            byte_writer.string(&local_variable.name);
-            byte_writer.integer(local_variable.start_program_counter);
-            byte_writer.integer(local_variable.end_program_counter);
+            byte_writer.string(&local_variable.name)?;
+            byte_writer.integer(local_variable.start_program_counter)?;
+            byte_writer.integer(local_variable.end_program_counter)?;
         }
 
         // upvalues
-        byte_writer.integer(self.upvalues.len() as i64);
+        byte_writer.integer(self.upvalues.len() as i64)?;
         for upvalue in self.upvalues {
-            byte_writer.string(&upvalue);
+            byte_writer.string(&upvalue)?;
         }
 
         Ok(())
diff --git a/src/serialization/macros.rs b/src/serialization/macros.rs
index 8198d7e..9de9926 100644
--- a/src/serialization/macros.rs
+++ b/src/serialization/macros.rs
@@ -1,9 +1,9 @@
 /// Workaround until `*_le_bytes` and `*_be_bytes` are part of a trait.
 macro_rules! to_slice {
-    ($writer:expr, $value:expr, $width:ident, $type32:ty) => {
+    ($writer:expr, $value:expr, $width:ident, $value32:expr) => {
         match ($writer.format.$width, $writer.format.endianness) {
-            (BitWidth::Bit32, Endianness::Little) => $writer.slice(&($value as $type32).to_le_bytes()),
-            (BitWidth::Bit32, Endianness::Big) => $writer.slice(&($value as $type32).to_be_bytes()),
+            (BitWidth::Bit32, Endianness::Little) => $writer.slice(&$value32.to_le_bytes()),
+            (BitWidth::Bit32, Endianness::Big) => $writer.slice(&$value32.to_be_bytes()),
             (BitWidth::Bit64, Endianness::Little) => $writer.slice(&$value.to_le_bytes()),
             (BitWidth::Bit64, Endianness::Big) => $writer.slice(&$value.to_be_bytes()),
         }
diff --git a/src/serialization/writer.rs b/src/serialization/writer.rs
index ab6b1f5..ba0225b 100644
--- a/src/serialization/writer.rs
+++ b/src/serialization/writer.rs
@@ -20,33 +20,63 @@ impl<'a> ByteWriter<'a> {
         self.data.extend_from_slice(slice);
     }
 
-    pub fn integer(&mut self, value: i64) {
-        to_slice!(self, value, integer_width, i32)
+    pub fn integer(&mut self, value: i64) -> Result<(), LunifyError> {
+        to_slice!(
+            self,
+            value,
+            integer_width,
+            i32::try_from(value).map_err(|_| LunifyError::IntegerOverflow)?
+        );
+        Ok(())
     }
 
-    pub fn size_t(&mut self, value: i64) {
-        to_slice!(self, value, size_t_width, i32)
+    pub fn size_t(&mut self, value: i64) -> Result<(), LunifyError> {
+        to_slice!(
+            self,
+            value,
+            size_t_width,
+            i32::try_from(value).map_err(|_| LunifyError::IntegerOverflow)?
+        );
+        Ok(())
     }
 
-    pub fn instruction(&mut self, instruction: u64) {
-        to_slice!(self, instruction, instruction_width, u32)
+    pub fn instruction(&mut self, instruction: u64) -> Result<(), LunifyError> {
+        to_slice!(
+            self,
+            instruction,
+            instruction_width,
+            u32::try_from(instruction).map_err(|_| LunifyError::ValueTooBigForOperand)?
+        );
+        Ok(())
     }
 
     pub fn number(&mut self, value: Number) -> Result<(), LunifyError> {
         match self.format.is_number_integral {
-            true => to_slice!(self, value.as_integer()?, number_width, i32),
-            false => to_slice!(self, value.as_float()?, number_width, f32),
+            true => {
+                let value = value.as_integer()?;
+                to_slice!(
+                    self,
+                    value,
+                    number_width,
+                    i32::try_from(value).map_err(|_| LunifyError::IntegerOverflow)?
+                )
+            }
+            false => {
+                let value = value.as_float()?;
+                to_slice!(self, value, number_width, (value as f32))
+            }
         }
         Ok(())
     }
 
-    pub fn string(&mut self, value: &str) {
+    pub fn string(&mut self, value: &str) -> Result<(), LunifyError> {
         // Every character represents a single byte of the Lua string, see
         // `ByteStream::string`.
         let bytes: Vec<u8> = value.chars().map(|character| character as u8).collect();
 
-        self.size_t(bytes.len() as i64);
+        self.size_t(bytes.len() as i64)?;
         self.slice(&bytes);
+        Ok(())
     }
 
     pub fn finalize(self) -> Vec<u8> {
-- 
2.43.0


From 8d1d4502a726cf91aa60c3497d5b2f283e02fa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:36 +0000
Subject: [PATCH 06/22] fix: return an error for numbers that can't be
 represented exactly in the other number type

---
 src/number.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/number.rs b/src/number.rs
index 2deb1b7..deb4096 100644
--- a/src/number.rs
+++ b/src/number.rs
@@ -13,7 +13,8 @@ impl Number {
         match self {
             Number::Integer(value) => Ok(value),
             Number::Float(value) => match value == value.round() {
-                true => Ok(value as i64),
+                true if value as i128 == (value as i64) as i128 => Ok(value as i64),
+                true => Err(LunifyError::IntegerOverflow),
                 false => Err(LunifyError::FloatPrecisionLoss),
             },
         }
@@ -22,7 +23,7 @@ impl Number {
     pub(crate) fn as_float(self) -> Result<f64, LunifyError> {
         match self {
             Number::Float(value) => Ok(value),
-            Number::Integer(value) => match value < f64::MAX as i64 {
+            Number::Integer(value) => match (value as f64) as i128 == value as i128 {
                 true => Ok(value as f64),
                 false => Err(LunifyError::IntegerOverflow),
             },
-- 
2.43.0


From 4d81e136e7e951293b9636ceadeb9d88ac46bbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:38 +0000
Subject: [PATCH 07/22] fix: recognize 32 bit wide floating point numbers in
 Lua 5.0 byte code

---
 src/format/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/format/mod.rs b/src/format/mod.rs
index 0884749..071371b 100644
--- a/src/format/mod.rs
+++ b/src/format/mod.rs
@@ -94,7 +94,9 @@ impl Format {
             LuaVersion::Lua50 => {
                 // Is there even a way to get this information from Lua 5.0?
                 let value = from_slice!(byte_stream, number_width, endianness, f32, f64);
-                value != 31415926.535897933
+                // The fraction is lost if the number is 32 bits wide, so only the integral part is
+                // compared (this is also how the Lua 5.0 interpreter does it).
+                value.trunc() != 31415926.0
             }
         };
 
-- 
2.43.0


From ce23612be284ecc34cb388911b2a36c3a376d66c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:40 +0000
Subject: [PATCH 08/22] fix: do not truncate the maximum stack size if the
 stack limit is bigger than 255

---
 src/function/builder.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 870b490..721af2a 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -130,9 +130,11 @@ impl FunctionBuilder {
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
                 let new_stack_size = destination.end + 1;
-                match new_stack_size <= settings.output.stack_limit {
-                    true => *maximum_stack_size = (*maximum_stack_size).max(new_stack_size as u8),
-                    false => return Err(LunifyError::StackTooLarge(new_stack_size)),
+                match u8::try_from(new_stack_size) {
+                    Ok(size) if new_stack_size <= settings.output.stack_limit => {
+                        *maximum_stack_size = (*maximum_stack_size).max(size)
+                    }
+                    _ => return Err(LunifyError::StackTooLarge(new_stack_size)),
                 }
             }
 
-- 
2.43.0


From 77ce92383f3f93da95a215e41f273259535ff096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:41 +0000
Subject: [PATCH 09/22] fix: reject instruction layouts that do not fit into 64
 bits

---
 src/function/instruction/operand/layout.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/function/instruction/operand/layout.rs b/src/function/instruction/operand/layout.rs
index 0feefa5..18d9190 100644
--- a/src/function/instruction/operand/layout.rs
+++ b/src/function/instruction/operand/layout.rs
@@ -125,6 +125,11 @@ impl InstructionLayout {
             }
         }
 
+        // Instructions are at most 64 bits wide.
+        if offset > 64 {
+            return Err(LunifyError::InvalidInstructionLayout);
+        }
+
         let opcode = opcode.unwrap();
         let a = a.unwrap();
         let b = b.unwrap();
-- 
2.43.0


From 83d48db61a1bdcf8f7fbc2f90a2e9e95232359aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:43 +0000
Subject: [PATCH 10/22] fix: do not drop the instructions of functions that
 have their debug information stripped

---
 src/function/convert.rs | 6 +++++-
 src/function/upcast.rs  | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index d2e5edd..6fc00bb 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -1,3 +1,5 @@
+use std::iter::repeat;
+
 use super::builder::FunctionBuilder;
 use crate::function::instruction::{Generic, LuaInstruction, BC};
 use crate::{lua51, LunifyError, Settings};
@@ -16,7 +18,9 @@ pub(crate) fn convert(
 
     let mut builder = FunctionBuilder::default();
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // If the debug information is stripped there are no line numbers, in which case Lua
+    // will treat every line number as 0.
+    for (instruction, line_number) in instructions.into_iter().zip(line_info.into_iter().chain(repeat(0))) {
         #[cfg(feature = "debug")]
         println!("[{}] {:?}", builder.get_program_counter(), instruction);
 
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index f716b3c..5bcc3fd 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -1,3 +1,5 @@
+use std::iter::repeat;
+
 use super::builder::FunctionBuilder;
 use super::constant::{Constant, ConstantManager};
 use super::instruction::{lua50, lua51, Bx, ConstantRegister, Generic, LuaInstruction, Register, Settings, SignedBx, Unused, BC};
@@ -15,7 +17,9 @@ pub(crate) fn upcast(
     let mut builder = FunctionBuilder::default();
     let mut constant_manager = ConstantManager { constants };
 
-    for (instruction, line_number) in instructions.into_iter().zip(line_info) {
+    // If the debug information is stripped there are no line numbers, in which case Lua
+    // will treat every line number as 0.
+    for (instruction, line_number) in instructions.into_iter().zip(line_info.into_iter().chain(repeat(0))) {
         builder.set_line_number(line_number);
 
         match instruction {
-- 
2.43.0


From f3ee251da4ad915a47aeddcfa7bbfb8c61e5b854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:10 +0000
Subject: [PATCH 11/22] fix: do not panic if the first instruction of a
 function is a SETLIST

---
 src/function/convert.rs | 2 +-
 src/function/upcast.rs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index 6fc00bb..9ce7a8b 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -51,7 +51,7 @@ pub(crate) fn convert(
 
                 // Go back until we find some instruction that moves data to a stack position
                 // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
+                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
                     let instruction = builder.get_instruction(instruction_index);
 
                     // It might technically be possible for the element on slot A to be on the stack
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 5bcc3fd..42df6d1 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -263,7 +263,7 @@ pub(crate) fn upcast(
 
                 // Go back until we find some instruction that moves data to a stack position
                 // that is the same as our A, because that is where the setup starts.
-                for instruction_index in (0..(builder.get_program_counter() - 1)).rev() {
+                for instruction_index in (0..builder.get_program_counter().saturating_sub(1)).rev() {
                     let instruction = builder.get_instruction(instruction_index);
 
                     // It might technically be possible for the element on slot A to be on the stack
-- 
2.43.0


From 2c7331285167455169cfa0efd45aba81e937d332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:12 +0000
Subject: [PATCH 12/22] fix: emit the correct SETLIST if it fills the last page
 completely

---
 src/function/convert.rs | 16 ++++++++++------
 src/function/upcast.rs  |  4 ++--
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index 9ce7a8b..717b920 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -28,14 +28,18 @@ pub(crate) fn convert(
 
         match instruction {
             lua51::Instruction::SetList { a, mode: BC(b, c) } => {
-                let flat_index = b.0 + (settings.lua51.fields_per_flush * (c.0 - 1));
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
+                // If C is 0 the page is stored in the next instruction because it is too big for
+                // the operand, which is not supported.
+                let previous_pages = c.0.checked_sub(1).ok_or(LunifyError::ValueTooBigForOperand)?;
+                let flat_index = b.0 + (settings.lua51.fields_per_flush * previous_pages);
 
                 // If b was 0 before, we need to keep it that way.
-                let b = match b.0 {
-                    0 => 0,
-                    _ => offset,
+                let (page, b) = match b.0 {
+                    0 => (flat_index / settings.output.fields_per_flush, 0),
+                    _ => (
+                        (flat_index - 1) / settings.output.fields_per_flush,
+                        (flat_index - 1) % settings.output.fields_per_flush + 1,
+                    ),
                 };
 
                 // Good case: we are on the first page and the number of entries is smaller than
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 42df6d1..92ab5bf 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -240,8 +240,8 @@ pub(crate) fn upcast(
             }
             lua50::Instruction::SetList { a, mode: Bx(bx) } | lua50::Instruction::SetListO { a, mode: Bx(bx) } => {
                 let flat_index = bx + 1;
-                let page = flat_index / settings.output.fields_per_flush;
-                let offset = flat_index % settings.output.fields_per_flush;
+                let page = bx / settings.output.fields_per_flush;
+                let offset = bx % settings.output.fields_per_flush + 1;
 
                 // In Lua 5.1 `SETLISTO` and `SETLIST` became a single instruction. The behavior
                 // of `SETLISTO` is used when b is equal to zero.
-- 
2.43.0


From 7b2a7ca5fabd273d16072eea328241efdaa5ddc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:14 +0000
Subject: [PATCH 13/22] fix: do not treat an open SETLIST on a later page as if
 it was on the first one

---
 src/function/convert.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/convert.rs b/src/function/convert.rs
index 717b920..dc1558a 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -45,7 +45,7 @@ pub(crate) fn convert(
                 // Good case: we are on the first page and the number of entries is smaller than
                 // either `LFIELDS_PER_FLUSH`, meaning we can just insert a `SETLIST`
                 // instruction without any modification to the previous code.
-                if page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
+                if previous_pages == 0 && page == 0 && flat_index <= u64::min(settings.lua51.fields_per_flush, settings.output.fields_per_flush) {
                     builder.instruction(lua51::Instruction::SetList {
                         a,
                         mode: BC(Generic(b), Generic(1)),
-- 
2.43.0


From 3997627b7bffe33a188e450868c694ab261e420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:16 +0000
Subject: [PATCH 14/22] fix: do not panic on a CALL with an unknown number of
 results in the first register

---
 src/function/instruction/lua51.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 80693b7..45cf889 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -131,7 +131,7 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..a + c.0 - 1),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..(a + c.0).saturating_sub(1)),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
             Instruction::ForLoop { a, .. } => Some(a..a + 3),
-- 
2.43.0


From 018bca42d3a93f6e3789545f2fcb63823a1a6a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:10 +0000
Subject: [PATCH 15/22] fix: do not panic on jumps that leave the function

---
 src/error.rs            |  5 +++--
 src/function/builder.rs | 17 +++++++++++++----
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d31fbf4..d3ec508 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -52,7 +52,8 @@ pub enum LunifyError {
     /// The byte code generated by converting to Lua 5.1 needs to store a value
     /// in an operand that exceed the maximum possible value.
     ValueTooBigForOperand,
-    /// The Lua 5.0 `FORLOOP` instruction specified a positive jump, even though
-    /// we expect it to always be negative.
+    /// The Lua 5.0 `FORLOOP` instruction specified a jump that does not lead to
+    /// a previous instruction of the function, even though we expect it to
+    /// always do so.
     UnexpectedForwardJump,
 }
diff --git a/src/function/builder.rs b/src/function/builder.rs
index 721af2a..1517777 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -88,10 +88,15 @@ impl FunctionBuilder {
 
         while steps != 0 {
             let index = match destination.is_positive() {
-                true => context_index + offset,
-                false => context_index - offset,
+                true => context_index.checked_add(offset),
+                false => context_index.checked_sub(offset),
+            };
+
+            // The jump leaves the function, so there are no more instructions to adjust for.
+            let context = match index.and_then(|index| self.contexts.get(index)) {
+                Some(context) => context,
+                None => break,
             };
-            let context = self.contexts[index];
 
             destination += context.line_weight * destination.signum();
             steps += context.line_weight - 1;
@@ -109,7 +114,11 @@ impl FunctionBuilder {
         let program_counter = self.get_program_counter();
         let new_bx = self.jump_destination(program_counter - 1, bx, 0);
 
-        Ok(((program_counter as i64) + new_bx) as usize)
+        // The destination needs to be an instruction of this function.
+        match usize::try_from((program_counter as i64) + new_bx) {
+            Ok(position) if position < program_counter => Ok(position),
+            _ => Err(LunifyError::UnexpectedForwardJump),
+        }
     }
 
     pub(super) fn finalize(
-- 
2.43.0


From 1560d1e595335031368e0d03dcc7fad8ac8b79b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:12 +0000
Subject: [PATCH 16/22] fix: do not panic on variadic functions without
 instructions

---
 src/function/builder.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 1517777..537744e 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -53,7 +53,7 @@ impl FunctionBuilder {
     }
 
     pub(super) fn insert_extra_instruction(&mut self, index: usize, instruction: Instruction) {
-        let line_number = self.line_info[index];
+        let line_number = self.line_info.get(index).copied().unwrap_or(self.line_number);
         self.contexts.insert(index, InstructionContext::new_extra(instruction));
         self.line_info.insert(index, line_number);
     }
-- 
2.43.0


From f0f68110a3a05bbed762afde761369f5d2e9ef90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:15 +0000
Subject: [PATCH 17/22] fix: return an error instead of panicking if a stack
 access is moved out of bounds

---
 src/function/builder.rs                  |  2 +-
 src/function/instruction/lua51.rs        | 12 ++++++------
 src/function/instruction/macros.rs       |  2 +-
 src/function/instruction/operand/mode.rs |  4 ++--
 4 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index 537744e..ce44808 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -138,7 +138,7 @@ impl FunctionBuilder {
             // we make space for the instructions that push the values onto the
             // stack, the stack will never overflow.
             if let Some(destination) = self.contexts[context_index].instruction.stack_destination() {
-                let new_stack_size = destination.end + 1;
+                let new_stack_size = destination.end.saturating_add(1);
                 match u8::try_from(new_stack_size) {
                     Ok(size) if new_stack_size <= settings.output.stack_limit => {
                         *maximum_stack_size = (*maximum_stack_size).max(size)
diff --git a/src/function/instruction/lua51.rs b/src/function/instruction/lua51.rs
index 45cf889..8c4629c 100644
--- a/src/function/instruction/lua51.rs
+++ b/src/function/instruction/lua51.rs
@@ -114,7 +114,7 @@ impl Instruction {
             Instruction::SetUpValue { .. } => None,
             Instruction::SetTable { a, .. } => Some(a..a),
             Instruction::NewTable { a, .. } => Some(a..a),
-            Instruction::_Self { a, .. } => Some(a..a + 1),
+            Instruction::_Self { a, .. } => Some(a..a.saturating_add(1)),
             Instruction::Add { a, .. } => Some(a..a),
             Instruction::Subtract { a, .. } => Some(a..a),
             Instruction::Multiply { a, .. } => Some(a..a),
@@ -131,16 +131,16 @@ impl Instruction {
             Instruction::LessEquals { .. } => None,
             Instruction::Test { .. } => None,
             Instruction::TestSet { a, .. } => Some(a..a),
-            Instruction::Call { a, mode: BC(_, c) } => Some(a..(a + c.0).saturating_sub(1)),
+            Instruction::Call { a, mode: BC(_, c) } => Some(a..a.saturating_add(c.0).saturating_sub(1)),
             Instruction::TailCall { .. } => None,
             Instruction::Return { .. } => None,
-            Instruction::ForLoop { a, .. } => Some(a..a + 3),
-            Instruction::ForPrep { a, .. } => Some(a..a + 2),
-            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a + 2 + c.0),
+            Instruction::ForLoop { a, .. } => Some(a..a.saturating_add(3)),
+            Instruction::ForPrep { a, .. } => Some(a..a.saturating_add(2)),
+            Instruction::TForLoop { a, mode: BC(_, c) } => Some(a..a.saturating_add(2).saturating_add(c.0)),
             Instruction::SetList { a, .. } => Some(a..a),
             Instruction::Close { .. } => None,
             Instruction::Closure { a, .. } => Some(a..a),
-            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max((a + b.0).saturating_sub(1))),
+            Instruction::VarArg { a, mode: BC(b, _) } => Some(a..a.max(a.saturating_add(b.0).saturating_sub(1))),
         }
     }
 }
diff --git a/src/function/instruction/macros.rs b/src/function/instruction/macros.rs
index 63fb759..eedde0b 100644
--- a/src/function/instruction/macros.rs
+++ b/src/function/instruction/macros.rs
@@ -35,7 +35,7 @@ macro_rules! lua_instructions {
                         if $move_a {
                             let value = *a;
                             if value >= stack_start {
-                                *a = (value as i64 + offset) as u64;
+                                *a = value.wrapping_add(offset as u64);
                             }
                         }
                         mode.offset(stack_start, offset);
diff --git a/src/function/instruction/operand/mode.rs b/src/function/instruction/operand/mode.rs
index 86989bd..c4210cb 100644
--- a/src/function/instruction/operand/mode.rs
+++ b/src/function/instruction/operand/mode.rs
@@ -65,7 +65,7 @@ impl ModePut for Register {
 impl ModeOffset for Register {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = self.0.wrapping_add(offset as u64);
         }
     }
 }
@@ -118,7 +118,7 @@ impl ModePut for ConstantRegister {
 impl ModeOffset for ConstantRegister {
     fn offset(&mut self, stack_start: u64, offset: i64) {
         if self.0 >= stack_start && !self.1 {
-            self.0 = (self.0 as i64 + offset) as u64;
+            self.0 = self.0.wrapping_add(offset as u64);
         }
     }
 }
-- 
2.43.0


From 479c129d1faa71f707d254ee034b4c277e434472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:16 +0000
Subject: [PATCH 18/22] fix: reject TFORLOOP instructions that exceed the stack
 limit before emitting a MOVE for every variable

---
 src/function/upcast.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 92ab5bf..8a23367 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -111,6 +111,12 @@ pub(crate) fn upcast(
 
                     let variable_count = c.0 + 1;
                     let call_base = a + variable_count + 2;
+
+                    // Don't emit a `MOVE` for every variable if they can't fit on the stack anyway.
+                    if call_base + variable_count >= settings.output.stack_limit {
+                        return Err(LunifyError::StackTooLarge(call_base + variable_count + 1));
+                    }
+
                     let constant_nil = constant_manager.constant_nil();
 
                     // Move the iterator function, the table and the index to our call base.
-- 
2.43.0


From 6304f211d994854d2736def9d638a240bd1da91f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:47 +0000
Subject: [PATCH 19/22] fix: limit the depth of nested functions instead of
 overflowing the stack

---
 src/error.rs        |  3 +++
 src/function/mod.rs | 28 +++++++++++++++++++++++-----
 src/lib.rs          |  2 +-
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/error.rs b/src/error.rs
index d3ec508..28f5766 100644
--- a/src/error.rs
+++ b/src/error.rs
@@ -56,4 +56,7 @@ pub enum LunifyError {
     /// a previous instruction of the function, even though we expect it to
     /// always do so.
     UnexpectedForwardJump,
+    /// The byte code contains functions that are nested deeper than the Lua
+    /// compiler allows.
+    FunctionsNestedTooDeep,
 }
diff --git a/src/function/mod.rs b/src/function/mod.rs
index 759a02c..9cc8594 100644
--- a/src/function/mod.rs
+++ b/src/function/mod.rs
@@ -17,6 +17,10 @@ use crate::format::LuaVersion;
 use crate::serialization::{ByteStream, ByteWriter};
 use crate::LunifyError;
 
+/// Maximum depth of nested functions, the same as the limit for nested levels in
+/// the Lua compiler (`LUAI_MAXCCALLS`).
+const MAXIMUM_FUNCTION_DEPTH: usize = 200;
+
 pub(crate) struct Function {
     source_file: String,
     line_defined: i64,
@@ -114,7 +118,12 @@ impl Function {
         Ok(constants)
     }
 
-    fn get_functions(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Vec<Function>, LunifyError> {
+    fn get_functions(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        depth: usize,
+    ) -> Result<Vec<Function>, LunifyError> {
         let function_count = byte_stream.integer()?;
         let mut functions = Vec::new();
 
@@ -122,7 +131,7 @@ impl Function {
         println!("\nfunction_count: {function_count}");
 
         for _index in 0..function_count as usize {
-            let function = Function::from_byte_stream(byte_stream, version, settings)?;
+            let function = Function::from_byte_stream(byte_stream, version, settings, depth + 1)?;
             functions.push(function);
         }
 
@@ -197,7 +206,16 @@ impl Function {
         instructions.into_iter().map(|instruction| instruction.to_u64(settings)).collect()
     }
 
-    pub(crate) fn from_byte_stream(byte_stream: &mut ByteStream, version: LuaVersion, settings: &Settings) -> Result<Self, LunifyError> {
+    pub(crate) fn from_byte_stream(
+        byte_stream: &mut ByteStream,
+        version: LuaVersion,
+        settings: &Settings,
+        depth: usize,
+    ) -> Result<Self, LunifyError> {
+        if depth > MAXIMUM_FUNCTION_DEPTH {
+            return Err(LunifyError::FunctionsNestedTooDeep);
+        }
+
         let source_file = byte_stream.string()?;
         let line_defined = byte_stream.integer()?;
 
@@ -226,7 +244,7 @@ impl Function {
         let (instructions, constants, functions, line_info, local_variables, upvalues) = if version == LuaVersion::Lua51 {
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua51.layout)?;
             let constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let line_info = Self::get_line_info(byte_stream)?;
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
@@ -242,7 +260,7 @@ impl Function {
             let local_variables = Self::get_local_variables(byte_stream)?;
             let upvalues = Self::get_upvalues(byte_stream)?;
             let mut constants = Self::get_constants(byte_stream)?;
-            let functions = Self::get_functions(byte_stream, version, settings)?;
+            let functions = Self::get_functions(byte_stream, version, settings, depth)?;
             let instructions = Self::get_instructions(byte_stream, settings, &settings.lua50.layout)?;
 
             if is_variadic != 0 {
diff --git a/src/lib.rs b/src/lib.rs
index 6a089b5..b1ca901 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -48,7 +48,7 @@ pub fn unify(input_bytes: &[u8], output_format: &Format, settings: &Settings) ->
 
     byte_stream.set_format(input_format);
 
-    let root_function = Function::from_byte_stream(&mut byte_stream, version, settings)?;
+    let root_function = Function::from_byte_stream(&mut byte_stream, version, settings, 0)?;
 
     if !byte_stream.is_empty() {
         return Err(LunifyError::InputTooLong);
-- 
2.43.0


From 6c4c21412d802d423a47efc0b47487108911f7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 20/22] fix: jumps to the next instruction and to a removed
 instruction were retargeted wrongly

---
 src/function/builder.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index ce44808..dda8cc6 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -81,15 +81,16 @@ impl FunctionBuilder {
     }
 
     fn jump_destination(&self, context_index: usize, mut destination: i64, final_offset: i64) -> i64 {
-        let (mut steps, mut offset) = match destination.is_positive() {
-            true => (destination + 1, 1),
-            false => (destination.abs(), 0),
+        let is_backward = destination.is_negative();
+        let (mut steps, mut offset, direction) = match is_backward {
+            true => (destination.abs(), 0, -1),
+            false => (destination + 1, 1, 1),
         };
 
-        while steps != 0 {
-            let index = match destination.is_positive() {
-                true => context_index.checked_add(offset),
-                false => context_index.checked_sub(offset),
+        while steps > 0 {
+            let index = match is_backward {
+                true => context_index.checked_sub(offset),
+                false => context_index.checked_add(offset),
             };
 
             // The jump leaves the function, so there are no more instructions to adjust for.
@@ -98,8 +99,12 @@ impl FunctionBuilder {
                 None => break,
             };
 
-            destination += context.line_weight * destination.signum();
-            steps += context.line_weight - 1;
+            // If the destination itself was removed, the jump lands on the instruction that took
+            // its place, which also counts for the removed one.
+            let line_weight = context.line_weight.max(1 - steps);
+
+            destination += line_weight * direction;
+            steps += line_weight - 1;
             offset += 1;
         }
 
-- 
2.43.0


From 41599fcbc1961b49753001bc6d1b40c13d096098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:44 +0000
Subject: [PATCH 21/22] fix: jumps to the first value of a page skipped the
 SETLIST that was inserted in front of it

---
 src/function/builder.rs | 12 ++++++++++++
 src/function/convert.rs |  5 +++--
 src/function/upcast.rs  |  5 +++--
 3 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index dda8cc6..ad27d5a 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -58,6 +58,18 @@ impl FunctionBuilder {
         self.line_info.insert(index, line_number);
     }
 
+    // Insert an instruction that also becomes the destination of all the jumps to the
+    // instruction that is currently at the index.
+    pub(super) fn insert_jump_target(&mut self, index: usize, instruction: Instruction) {
+        self.insert_extra_instruction(index, instruction);
+
+        let line_weight = self.contexts[index].line_weight;
+        if let Some(context) = self.contexts.get_mut(index + 1) {
+            let context_weight = std::mem::replace(&mut context.line_weight, line_weight);
+            self.contexts[index].line_weight = context_weight;
+        }
+    }
+
     pub(super) fn remove_instruction(&mut self, index: usize) {
         let removed = self.contexts.remove(index);
         self.line_info.remove(index);
diff --git a/src/function/convert.rs b/src/function/convert.rs
index dc1558a..e3e22f0 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -80,8 +80,9 @@ pub(crate) fn convert(
 
                                 if let Some(stack_destination) = instruction.stack_destination() {
                                     if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
+                                        // Add a new `SETLIST` instruction. Jumps over the last value of the page still
+                                        // need to execute it.
+                                        builder.insert_jump_target(instruction_index, lua51::Instruction::SetList {
                                             a,
                                             mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
                                         });
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 8a23367..1503634 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -294,8 +294,9 @@ pub(crate) fn upcast(
 
                                 if let Some(stack_destination) = instruction.stack_destination() {
                                     if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction.
-                                        builder.insert_extra_instruction(instruction_index, lua51::Instruction::SetList {
+                                        // Add a new `SETLIST` instruction. Jumps over the last value of the page still
+                                        // need to execute it.
+                                        builder.insert_jump_target(instruction_index, lua51::Instruction::SetList {
                                             a,
                                             mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
                                         });
-- 
2.43.0


From 66e73dc25ba98f3b236940c1fd3d545d8a36718f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:02 +0000
Subject: [PATCH 22/22] fix: tables with more values than a page lost values if
 the values use temporaries, or are mixed with named fields, or the output has
 smaller pages

---
 src/function/builder.rs | 38 ++++++++++++++++++++++
 src/function/convert.rs | 72 +++++++++++++++++++++++------------------
 src/function/upcast.rs  | 65 ++++++++++++++++++++-----------------
 3 files changed, 114 insertions(+), 61 deletions(-)

diff --git a/src/function/builder.rs b/src/function/builder.rs
index ad27d5a..500771e 100644
--- a/src/function/builder.rs
+++ b/src/function/builder.rs
@@ -1,4 +1,7 @@
+use std::ops::Range;
+
 use super::Settings;
+use crate::function::instruction::{Unused, BC};
 use crate::lua51::Instruction;
 use crate::LunifyError;
 
@@ -70,6 +73,41 @@ impl FunctionBuilder {
         }
     }
 
+    // Find the index at which the values of the table at `a` from `position` upwards start to be put
+    // on the stack. Until then `position` might be used as a temporary by the values before it.
+    pub(super) fn value_index(&mut self, index: usize, a: u64, position: i64) -> Option<usize> {
+        let is_before = |destination: Range<u64>| destination.start > a && (destination.start as i64) < position;
+        let last_before = self.contexts[index..]
+            .iter()
+            .rposition(|context| context.instruction.stack_destination().map_or(false, is_before));
+        let mut value_index = last_before.map_or(index, |last_before| index + last_before + 1);
+
+        // The instructions after a `CLOSURE` that tell which upvalues to capture belong to it. Their A is
+        // always 0.
+        while let Some(Instruction::Move { a: 0, .. } | Instruction::GetUpValue { a: 0, .. }) = self.contexts.get(value_index).map(|context| context.instruction) {
+            value_index += 1;
+        }
+
+        // A single `LOADNIL` may be responsible for multiple values.
+        if value_index > index {
+            if let Instruction::LoadNil { mode: BC(last, _), .. } = &mut self.contexts[value_index - 1].instruction {
+                if last.0 as i64 >= position {
+                    let remaining = Instruction::LoadNil {
+                        a: position as u64,
+                        mode: BC(*last, Unused),
+                    };
+
+                    last.0 = position as u64 - 1;
+                    self.insert_extra_instruction(value_index, remaining);
+                }
+            }
+        }
+
+        let mut destinations = self.contexts[value_index..].iter().filter_map(|context| context.instruction.stack_destination());
+        let first_destination = destinations.find(|destination| destination.start > a)?;
+        (first_destination.start as i64 == position).then_some(value_index)
+    }
+
     pub(super) fn remove_instruction(&mut self, index: usize) {
         let removed = self.contexts.remove(index);
         self.line_info.remove(index);
diff --git a/src/function/convert.rs b/src/function/convert.rs
index e3e22f0..ff7e289 100644
--- a/src/function/convert.rs
+++ b/src/function/convert.rs
@@ -34,7 +34,7 @@ pub(crate) fn convert(
                 let flat_index = b.0 + (settings.lua51.fields_per_flush * previous_pages);
 
                 // If b was 0 before, we need to keep it that way.
-                let (page, b) = match b.0 {
+                let (mut page, b) = match b.0 {
                     0 => (flat_index / settings.output.fields_per_flush, 0),
                     _ => (
                         (flat_index - 1) / settings.output.fields_per_flush,
@@ -64,39 +64,49 @@ pub(crate) fn convert(
                     // I am unsure that code like this can actually be emitted by the Lua compiler,
                     // because any assignment of a table should start with a `NEWTABLE` instruction,
                     // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
+                    let is_table_access = matches!(instruction, lua51::Instruction::SetTable { .. });
+                    let is_start = matches!(instruction.stack_destination(), Some(destination) if destination.start == a) && !is_table_access;
+
+                    if is_start || instruction_index == 0 {
                         // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction. Jumps over the last value of the page still
-                                        // need to execute it.
-                                        builder.insert_jump_target(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
+                        let (mut offset, mut current_page) = match *instruction {
+                            lua51::Instruction::SetList { mode: BC(b, c), .. } => {
+                                // Remove the `SETLIST` instruction.
+                                builder.remove_instruction(instruction_index);
+                                (b.0 as i64, c.0)
+                            }
+                            _ => (0, 1),
+                        };
+
+                        // Go back up the stack and update the stack positions.
+                        let fields_per_flush = settings.output.fields_per_flush as i64;
+                        let first_position = a as i64 + 1;
+                        let mut instruction_index = instruction_index;
+                        let mut page_end = builder.value_index(instruction_index, a, first_position.saturating_add(fields_per_flush - offset));
+
+                        while instruction_index < builder.get_program_counter() {
+                            if page_end == Some(instruction_index) && (b == 0 || flat_index > settings.output.fields_per_flush.saturating_mul(current_page)) {
+                                // Add a new `SETLIST` instruction. Jumps over the last value of the page still
+                                // need to execute it.
+                                builder.insert_jump_target(instruction_index, lua51::Instruction::SetList {
+                                    a,
+                                    mode: BC(Generic(settings.output.fields_per_flush), Generic(current_page)),
+                                });
+
+                                offset -= fields_per_flush;
+                                current_page += 1;
                                 instruction_index += 1;
+                                page_end = builder.value_index(instruction_index, a, first_position.saturating_add(fields_per_flush - offset));
+                                continue;
                             }
+
+                            builder.get_instruction(instruction_index).move_stack_accesses(a + 1, offset);
+                            instruction_index += 1;
+                        }
+
+                        // If B is 0 the page depends on the number of values before the last one.
+                        if b == 0 {
+                            page = current_page - 1;
                         }
 
                         break;
diff --git a/src/function/upcast.rs b/src/function/upcast.rs
index 1503634..c14eb75 100644
--- a/src/function/upcast.rs
+++ b/src/function/upcast.rs
@@ -278,39 +278,44 @@ pub(crate) fn upcast(
                     // I am unsure that code like this can actually be emitted by the Lua compiler,
                     // because any assignment of a table should start with a `NEWTABLE` instruction,
                     // but better safe than sorry.
-                    if matches!(instruction.stack_destination(), Some(destination) if destination.start == a) || instruction_index == 0 {
+                    let is_table_access = matches!(instruction, lua51::Instruction::SetTable { .. });
+                    let is_start = matches!(instruction.stack_destination(), Some(destination) if destination.start == a) && !is_table_access;
+
+                    if is_start || instruction_index == 0 {
                         // Should either be `NEWTABLE` or `SETLIST`.
-                        if let lua51::Instruction::SetList { mode: BC(b, c), .. } = *instruction {
-                            let mut offset = b.0 as i64;
-                            let mut page = c.0;
-
-                            // Remove the `SETLIST` instruction.
-                            builder.remove_instruction(instruction_index);
-
-                            // Go back up the stack and update the stack positions.
-                            let mut instruction_index = instruction_index;
-                            while instruction_index < builder.get_program_counter() {
-                                let instruction = builder.get_instruction(instruction_index);
-
-                                if let Some(stack_destination) = instruction.stack_destination() {
-                                    if offset + stack_destination.start as i64 - 1 == (a + settings.output.fields_per_flush) as i64 {
-                                        // Add a new `SETLIST` instruction. Jumps over the last value of the page still
-                                        // need to execute it.
-                                        builder.insert_jump_target(instruction_index, lua51::Instruction::SetList {
-                                            a,
-                                            mode: BC(Generic(settings.output.fields_per_flush), Generic(page)),
-                                        });
-
-                                        offset -= settings.output.fields_per_flush as i64;
-                                        page += 1;
-                                        instruction_index += 1;
-                                        continue;
-                                    }
-                                }
-
-                                builder.get_instruction(instruction_index).move_stack_accesses(a, offset);
+                        let (mut offset, mut current_page) = match *instruction {
+                            lua51::Instruction::SetList { mode: BC(b, c), .. } => {
+                                // Remove the `SETLIST` instruction.
+                                builder.remove_instruction(instruction_index);
+                                (b.0 as i64, c.0)
+                            }
+                            _ => (0, 1),
+                        };
+
+                        // Go back up the stack and update the stack positions.
+                        let fields_per_flush = settings.output.fields_per_flush as i64;
+                        let first_position = a as i64 + 1;
+                        let mut instruction_index = instruction_index;
+                        let mut page_end = builder.value_index(instruction_index, a, first_position.saturating_add(fields_per_flush - offset));
+
+                        while instruction_index < builder.get_program_counter() {
+                            if page_end == Some(instruction_index) && flat_index > settings.output.fields_per_flush.saturating_mul(current_page) {
+                                // Add a new `SETLIST` instruction. Jumps over the last value of the page still
+                                // need to execute it.
+                                builder.insert_jump_target(instruction_index, lua51::Instruction::SetList {
+                                    a,
+                                    mode: BC(Generic(settings.output.fields_per_flush), Generic(current_page)),
+                                });
+
+                                offset -= fields_per_flush;
+                                current_page += 1;
                                 instruction_index += 1;
+                                page_end = builder.value_index(instruction_index, a, first_position.saturating_add(fields_per_flush - offset));
+                                continue;
                             }
+
+                            builder.get_instruction(instruction_index).move_stack_accesses(a + 1, offset);
+                            instruction_index += 1;
                         }
 
                         break;
-- 
2.43.0

