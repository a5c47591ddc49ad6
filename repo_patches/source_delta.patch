From 72ffecf019eff13a917f0d2fd5dd8a1f2405af5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 01/41] fix: decode two-digit hexadecimal escapes in string
 literals

---
 protospec-build/src/tokenizer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 29f5e9c..d958339 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -213,7 +213,6 @@ impl Token {
                         i += 1;
                         if input[i].is_ascii_hexdigit() {
                             if i < input.len() - 1 && input[i + 1].is_ascii_hexdigit() {
-                                i += 1;
                                 out.push(
                                     u8::from_str_radix(
                                         std::str::from_utf8(&input[i..i + 2]).unwrap(),
@@ -221,6 +220,7 @@ impl Token {
                                     )
                                     .unwrap(),
                                 );
+                                i += 1;
                             } else {
                                 out.push(
                                     u8::from_str_radix(
-- 
2.43.0


From 81c76f3428cdf6b23e9c9056810933ae7ecd83f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 02/41] fix: track lines and columns of tokens across newlines
 in comments and strings

---
 protospec-build/src/tokenizer.rs | 70 +++++++++++++-------------------
 1 file changed, 29 insertions(+), 41 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index d958339..17ca8f0 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -540,52 +540,40 @@ impl fmt::Debug for SpannedToken {
 pub fn tokenize(input: &str, strip_comments: bool) -> Result<Vec<SpannedToken>> {
     let mut input = input.as_bytes();
     let mut tokens = vec![];
-    let mut index = 064;
+    let mut index = 0u64;
     let mut line_no = 1u64;
     let mut line_start = 0u64;
     while input.len() > 0 {
-        match Token::gobble(input) {
-            (output, Some(token)) => {
-                let start_line = line_no;
-                match &token {
-                    Token::CommentLine(_) => {
-                        line_no += 1;
-                    }
-                    Token::CommentBlock(s) => {
-                        line_no += s.chars().filter(|x| *x == '\n').count() as u64;
-                    }
-                    _ => (),
-                }
-                tokens.push(SpannedToken {
-                    token,
-                    span: Span {
-                        line_start: start_line,
-                        line_stop: line_no,
-                        col_start: index - line_start + 1,
-                        col_stop: index - line_start + (input.len() - output.len()) as u64 + 1,
-                    },
-                });
-                index += (input.len() - output.len()) as u64;
-                input = output;
-            }
-            (output, None) => {
-                if output.len() == 0 {
-                    break;
-                } else if output.len() == input.len() {
-                    return Err(protospec_err!(
-                        "unexpected token '{}' @ {}",
-                        String::from_utf8_lossy(&[input[0]]),
-                        index
-                    ));
-                }
-                index += (input.len() - output.len()) as u64;
-                if input[0] == b'\n' {
-                    line_no += 1;
-                    line_start = index;
-                }
-                input = output;
+        let (output, token) = Token::gobble(input);
+        if output.len() == input.len() {
+            return Err(protospec_err!(
+                "unexpected token '{}' @ {}:{}",
+                String::from_utf8_lossy(&[input[0]]),
+                line_no,
+                index - line_start + 1
+            ));
+        }
+        let consumed = &input[..input.len() - output.len()];
+        let (start_line, start_col) = (line_no, index - line_start + 1);
+        for byte in consumed {
+            index += 1;
+            if *byte == b'\n' {
+                line_no += 1;
+                line_start = index;
             }
         }
+        if let Some(token) = token {
+            tokens.push(SpannedToken {
+                token,
+                span: Span {
+                    line_start: start_line,
+                    line_stop: line_no,
+                    col_start: start_col,
+                    col_stop: index - line_start + 1,
+                },
+            });
+        }
+        input = output;
     }
     if strip_comments {
         Ok(tokens
-- 
2.43.0


From 2965d4f3a4ae94399a0cbc4cda32807d8ed8cc23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:46 +0000
Subject: [PATCH 03/41] fix: reject block comments that are never closed

---
 protospec-build/src/tokenizer.rs | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 17ca8f0..0c84f0b 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -325,16 +325,12 @@ impl Token {
                             String::from_utf8_lossy(comment).to_string(),
                         )),
                     );
-                } else if let Some(input) = eat(input, "/*") {
-                    if input.len() == 0 {
-                        return (input, None);
-                    }
-                    let eol = input.windows(2).position(|x| x[0] == b'*' && x[1] == b'/');
-                    let (input, comment) = if let Some(eol) = eol {
-                        (&input[(eol + 2)..], &input[..eol])
-                    } else {
-                        (&input[input.len()..input.len()], &input[..])
+                } else if let Some(rest) = eat(input, "/*") {
+                    let end = match rest.windows(2).position(|x| x == b"*/") {
+                        Some(end) => end,
+                        None => return (input, None),
                     };
+                    let (input, comment) = (&rest[(end + 2)..], &rest[..end]);
                     return (
                         input,
                         Some(Token::CommentBlock(
-- 
2.43.0


From 3de99bfb40f6e476c8ce8c86f136ea8f70bbc3fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:02 +0000
Subject: [PATCH 04/41] fix: decode every group of a varint and reject varints
 that do not fit their type

---
 protospec-build/src/prelude/var.rs | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/protospec-build/src/prelude/var.rs b/protospec-build/src/prelude/var.rs
index 66b0e50..09b35a7 100644
--- a/protospec-build/src/prelude/var.rs
+++ b/protospec-build/src/prelude/var.rs
@@ -71,23 +71,26 @@ impl ForeignType for VarInt {
         is_async: bool,
     ) -> TokenStream {
         let inner = self.type_ref();
-        let end = (self.scalar_type.size() as f64 / 7.0).ceil() as usize;
         let inner_unsigned = emit_type_ref(&self.unsigned);
         let async_ = map_async(is_async);
         quote! {
             let #output_ref = {
-                let mut i = 0usize;
-                let mut buf = [0xffu8; 1];
-                let mut output: #inner = 0;
-                while (buf[0] & 128) == 128 {
+                let mut shift = 0u32;
+                let mut buf = [0u8; 1];
+                let mut output: #inner_unsigned = 0;
+                loop {
                     #source.read_exact(&mut buf[..])#async_?;
-                    output |= ((buf[0] as #inner_unsigned & 127) << (i * 7)) as #inner;
-                    i += 1;
-                    if i > #end {
+                    let bits = (buf[0] & 127) as #inner_unsigned;
+                    match bits.checked_shl(shift) {
+                        Some(shifted) if (shifted >> shift) == bits => output |= shifted,
+                        _ => return Err(decode_error("varint is too large for its type").into()),
+                    }
+                    if (buf[0] & 128) == 0 {
                         break;
                     }
+                    shift += 7;
                 }
-                output
+                output as #inner
             };
         }
     }
-- 
2.43.0


From dce46a9a8021b0cef1b1acd6328daf760111aff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:06 +0000
Subject: [PATCH 05/41] fix: decode utf16 strings as big endian and read
 strings without trusting their claimed length

fix: decode utf16 strings as big endian and read strings without trusting their claimed length
---
 protospec-build/src/prelude/utf16.rs | 20 ++++++++++----------
 protospec-build/src/prelude/utf8.rs  | 16 ++++++----------
 2 files changed, 16 insertions(+), 20 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index 76540c5..d2d1c87 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -31,16 +31,16 @@ impl ForeignType for Utf16 {
         let len = arguments.first().expect("missing len argument");
         quote! {
             let #output_ref = {
-                let t_count = #len as usize;
-                let mut t: Vec<u16> = Vec::with_capacity(t_count);
-                unsafe { t.set_len(t_count); }
-                let t_borrow = &mut t[..];
-                let t_borrow2 = unsafe {
-                    let len = t_borrow.len() * 2;
-                    let ptr = t.as_ptr() as *mut u8;
-                    slice::from_raw_parts_mut(ptr, len)
-                };
-                #source.read_exact(&mut t_borrow2[..])#async_?;
+                let t_count = (#len as u64).saturating_mul(2);
+                let mut t: Vec<u8> = vec![];
+                (&mut *#source).take(t_count).read_to_end(&mut t)#async_?;
+                if t.len() as u64 != t_count {
+                    return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                }
+                let t = t
+                    .chunks_exact(2)
+                    .map(|x| u16::from_be_bytes([x[0], x[1]]))
+                    .collect::<Vec<u16>>();
                 String::from_utf16(&t[..])?
             };
         }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 4c01365..7a9e64b 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -31,16 +31,12 @@ impl ForeignType for Utf8 {
         if let Some(len) = arguments.first() {
             quote! {
                 let #output_ref = {
-                    let t_count = #len as usize;
-                    let mut t: Vec<u8> = Vec::with_capacity(t_count);
-                    unsafe { t.set_len(t_count); }
-                    let t_borrow = &mut t[..];
-                    let t_borrow2 = unsafe {
-                        let len = t_borrow.len();
-                        let ptr = t.as_ptr() as *mut u8;
-                        slice::from_raw_parts_mut(ptr, len)
-                    };
-                    #source.read_exact(&mut t_borrow2[..])#async_?;
+                    let t_count = #len as u64;
+                    let mut t: Vec<u8> = vec![];
+                    (&mut *#source).take(t_count).read_to_end(&mut t)#async_?;
+                    if t.len() as u64 != t_count {
+                        return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                    }
                     String::from_utf8(t)?
                 };
             }
-- 
2.43.0


From 5f6670d115f7821a9a33abc81d12f93765e32a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:30 +0000
Subject: [PATCH 06/41] fix: reject strings that cannot be encoded with their
 specified length or terminator

---
 protospec-build/src/prelude/utf16.rs | 6 +++++-
 protospec-build/src/prelude/utf8.rs  | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index d2d1c87..f29022d 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -50,12 +50,16 @@ impl ForeignType for Utf16 {
         &self,
         target: TokenStream,
         field_ref: TokenStream,
-        _arguments: Vec<TokenStream>,
+        arguments: Vec<TokenStream>,
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
+        let len = arguments.first().expect("missing len argument");
         quote! {
             {
+                if #field_ref.encode_utf16().count() as u64 != #len as u64 {
+                    return Err(encode_error("utf16 string does not have its specified length").into());
+                }
                 for utf16 in #field_ref.encode_utf16() {
                     #target.write_all(&utf16.to_be_bytes()[..])#async_?;
                 }
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index 7a9e64b..a607c6f 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -62,15 +62,21 @@ impl ForeignType for Utf8 {
         is_async: bool,
     ) -> TokenStream {
         let async_ = map_async(is_async);
-        if let Some(_) = arguments.first() {
+        if let Some(len) = arguments.first() {
             quote! {
                 {
+                    if #field_ref.len() as u64 != #len as u64 {
+                        return Err(encode_error("utf8 string does not have its specified length").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                 }
             }
         } else {
             quote! {
                 {
+                    if #field_ref.as_bytes().contains(&0u8) {
+                        return Err(encode_error("null terminated utf8 string contains a null").into());
+                    }
                     #target.write_all(#field_ref.as_bytes())#async_?;
                     #target.write_all(&[0u8])#async_?;
                 }
-- 
2.43.0


From bcde5ff7a9b110209bf8c5642a4a1547676aaf9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 07/41] fix: keep the enclosing stream usable around transforms
 and finish gzip and base64 streams

---
 protospec-build/src/coder/encode/field.rs     | 12 +--
 .../src/coder/encode/instruction.rs           | 21 +++--
 protospec-build/src/compiler/decoder.rs       | 79 +++++++++++-------
 protospec-build/src/compiler/encoder.rs       | 81 ++++++++++++++-----
 protospec-build/src/compiler/mod.rs           |  8 ++
 protospec-build/src/ffi/transform.rs          | 11 ++-
 protospec-build/src/prelude/base64.rs         | 10 ++-
 protospec-build/src/prelude/gzip.rs           | 18 ++++-
 8 files changed, 165 insertions(+), 75 deletions(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 1cc8eca..3bb8438 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -85,8 +85,7 @@ impl Context {
                 args.push(r);
             }
             let new_stream = self.alloc_register();
-            let new_owned_stream = condition.map(|_| self.alloc_register());
-            new_streams.push((new_stream, new_owned_stream));
+            new_streams.push((new_stream, transform.transform.clone(), condition.is_some()));
 
             if let Some(condition) = condition {
                 let drained = self.instructions.drain(argument_start..).collect();
@@ -95,7 +94,6 @@ impl Context {
                     drained,
                     target,
                     new_stream,
-                    new_owned_stream.unwrap(),
                     transform.transform.clone(),
                     args,
                 ));
@@ -147,11 +145,9 @@ impl Context {
             type_ => self.encode_complex_type(field, type_, target, source, total_conditional),
         }
 
-        for (stream, owned_stream) in new_streams.iter().rev() {
-            self.instructions.push(Instruction::EndStream(*stream));
-            if let Some(owned_stream) = owned_stream {
-                self.instructions.push(Instruction::Drop(*owned_stream));
-            }
+        for (stream, transform, is_conditional) in new_streams.into_iter().rev() {
+            self.instructions
+                .push(Instruction::EndStream(stream, transform, is_conditional));
         }
     }
 }
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 333f912..54b343a 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -21,18 +21,17 @@ pub enum Instruction {
     AllocDynBuf(usize),
     /// stream, new stream, transformer, arguments
     WrapStream(Target, usize, Arc<Transform>, Vec<usize>),
-    /// condition, prelude, stream, new stream, owned_new_stream, transformer, arguments
+    /// condition, prelude, stream, new stream, transformer, arguments
     ConditionalWrapStream(
         usize,
         Vec<Instruction>,
         Target,
         usize,
-        usize,
         Arc<Transform>,
         Vec<usize>,
     ),
-    /// stream
-    EndStream(usize),
+    /// stream, transformer, is_conditional
+    EndStream(usize, Arc<Transform>, bool),
 
     /// dest, buf handle
     EmitBuf(Target, usize),
@@ -58,8 +57,6 @@ pub enum Instruction {
     Loop(usize, usize, Vec<Instruction>),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
-    /// register
-    Drop(usize),
     /// original, checked, is_copyable, message
     NullCheck(usize, usize, bool, String),
     /// condition, if_true, if_false
@@ -110,14 +107,13 @@ impl fmt::Display for Instruction {
                 prelude,
                 stream,
                 new_stream,
-                owned_new_stream,
                 transform,
                 arguments,
             ) => {
                 write!(
                     f,
-                    "ConditionalWrapStream({}, {:?}, {}, {}, '{}', ",
-                    condition, stream, new_stream, owned_new_stream, transform.name
+                    "ConditionalWrapStream({}, {:?}, {}, '{}', ",
+                    condition, stream, new_stream, transform.name
                 )?;
                 write_arguments(f, &arguments[..])?;
                 write!(f, ")")?;
@@ -126,7 +122,11 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::EndStream(stream) => write!(f, "EndStream({})", stream),
+            Instruction::EndStream(stream, transform, is_conditional) => write!(
+                f,
+                "EndStream({}, '{}', {})",
+                stream, transform.name, is_conditional
+            ),
             Instruction::EmitBuf(dest, buf_handle) => {
                 write!(f, "EmitBuf({:?}, {})", dest, buf_handle)
             }
@@ -174,7 +174,6 @@ impl fmt::Display for Instruction {
             Instruction::GetLen(dest, buffer, cast_type) => {
                 write!(f, "GetLen({}, {}, {:?})", dest, buffer, cast_type)
             }
-            Instruction::Drop(register) => write!(f, "Drop({})", register),
             Instruction::NullCheck(original, checked, is_copyable, message) => write!(
                 f,
                 "NullCheck({}, {}, {}, {})",
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 06b50e5..95bb110 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -13,6 +13,20 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+/// emits a place to read from which leaves the target usable afterwards
+fn emit_target_borrow(target: &Target) -> TokenStream {
+    let target = emit_target(target);
+    quote! { (&mut *#target) }
+}
+
+fn emit_dyn_target(is_async: bool) -> TokenStream {
+    if is_async {
+        quote! { &mut (dyn AsyncBufRead + Send + Sync + Unpin) }
+    } else {
+        quote! { &mut (dyn BufRead) }
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -153,7 +167,7 @@ fn prepare_decode(
                 });
             }
             Instruction::Constrict(stream, new_stream, len) => {
-                let stream = emit_target(stream);
+                let stream = emit_target_borrow(stream);
                 let new_stream = emit_register(*new_stream);
                 let len = emit_register(*len);
                 statements.push(quote! {
@@ -164,7 +178,7 @@ fn prepare_decode(
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                let input = emit_target(stream);
+                let input = emit_target_borrow(stream);
                 let transformed = transformer.inner.decoding_gen(input, args, is_async);
                 statements.push(quote! {
                     let mut #new_stream_value = #transformed;
@@ -182,36 +196,27 @@ fn prepare_decode(
                 let condition = emit_register(*condition);
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                let input = emit_target(stream);
+                let input = emit_target_borrow(stream);
                 let transformed = transformer
                     .inner
                     .decoding_gen(input.clone(), args, is_async);
                 let prelude = prepare_decode(options, context, &prelude[..], is_async, false);
 
+                let owned_stream = emit_owned_register(*new_stream);
+                let dyn_target = emit_dyn_target(is_async);
+
                 //todo: would be nicer to use generics here instead of trait object
-                if is_async {
-                    statements.push(quote! {
-                        let mut r_xform;
-                        let #new_stream_value: &mut dyn AsyncBufRead + Unpin + Send + Sync = if #condition {
-                            #prelude
-                            r_xform = #transformed;
-                            &mut r_xform
-                        } else {
-                            #input as &mut dyn AsyncBufRead + Unpin + Send + Sync
-                        };
-                    })
-                } else {
-                    statements.push(quote! {
-                        let mut r_xform;
-                        let #new_stream_value: &mut dyn Read = if #condition {
-                            #prelude
-                            r_xform = #transformed;
-                            &mut r_xform
-                        } else {
-                            #input as &mut dyn Read
-                        };
-                    })
-                }
+                statements.push(quote! {
+                    let mut #owned_stream;
+                    let mut #new_stream_value: #dyn_target = if #condition {
+                        #prelude
+                        #owned_stream = #transformed;
+                        &mut #owned_stream
+                    } else {
+                        #input
+                    };
+                    let #new_stream_value = &mut #new_stream_value;
+                })
             }
             Instruction::DecodeForeign(target, data, type_ref, args) => {
                 let target = emit_target(target);
@@ -235,16 +240,32 @@ fn prepare_decode(
                     out_arguments.push(quote! {, #value});
                 }
                 let out_arguments = flatten(out_arguments);
-                let target = emit_target(target);
                 let source = emit_register(*source);
                 let class = emit_ident(class);
+                // a recursive type must not nest its own stream in the type of the stream it is given
+                let (prepare_target, target) = if let Target::Stream(_) = target {
+                    let target = emit_target(target);
+                    let dyn_target = emit_dyn_target(is_async);
+                    (
+                        quote! { let mut target: #dyn_target = #target; },
+                        quote! { (&mut target) },
+                    )
+                } else {
+                    (quote! {}, emit_target(target))
+                };
                 if is_async {
                     statements.push(quote! {
-                        let #source = #class::decode_async(#target #out_arguments).await?;
+                        let #source = {
+                            #prepare_target
+                            #class::decode_async(#target #out_arguments).await?
+                        };
                     });
                 } else {
                     statements.push(quote! {
-                        let #source = #class::decode_sync(#target #out_arguments)?;
+                        let #source = {
+                            #prepare_target
+                            #class::decode_sync(#target #out_arguments)?
+                        };
                     });
                 }
             }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 3029fa3..5fce6bc 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -15,6 +15,12 @@ fn emit_target(target: &Target) -> TokenStream {
     }
 }
 
+/// emits a place to write to which leaves the target usable afterwards
+fn emit_target_borrow(target: &Target) -> TokenStream {
+    let target = emit_target(target);
+    quote! { (&mut *#target) }
+}
+
 struct EncoderContext {
     is_async: bool,
     resolved_refs: HashMap<String, usize>,
@@ -144,19 +150,15 @@ impl EncoderContext {
                         }
                     });
                 }
-                Instruction::Drop(register) => {
-                    let register = emit_register(*register);
-                    statements.push(quote! {
-                        drop(#register);
-                    });
-                }
                 Instruction::WrapStream(stream, new_stream, transformer, args) => {
                     let new_stream_value = emit_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let owned_stream = emit_owned_register(*new_stream);
+                    let input = emit_target_borrow(stream);
                     let transformed = transformer.inner.encoding_gen(input, args, self.is_async);
                     statements.push(quote! {
-                        let mut #new_stream_value = #transformed;
+                        let mut #owned_stream = #transformed;
+                        let #new_stream_value = &mut #owned_stream;
                     })
                 }
                 Instruction::EncodeForeign(target, data, type_ref, args) => {
@@ -175,12 +177,27 @@ impl EncoderContext {
                         self.is_async,
                     ));
                 }
-                Instruction::EndStream(stream) => {
-                    let stream = emit_register(*stream);
-                    statements.push(quote! {
-                        #stream.flush()#async_?;
-                        drop(#stream);
-                    });
+                Instruction::EndStream(stream, transformer, is_conditional) => {
+                    let stream = emit_owned_register(*stream);
+                    if *is_conditional {
+                        let finish = transformer
+                            .inner
+                            .finish_gen(quote! { owned }, self.is_async);
+                        statements.push(quote! {
+                            if let Some(owned) = #stream.as_mut() {
+                                #finish
+                            }
+                            drop(#stream);
+                        });
+                    } else {
+                        let finish = transformer
+                            .inner
+                            .finish_gen(stream.clone(), self.is_async);
+                        statements.push(quote! {
+                            #finish
+                            drop(#stream);
+                        });
+                    }
                 }
                 Instruction::EmitBuf(target, buf) => {
                     let target = emit_target(target);
@@ -196,15 +213,35 @@ impl EncoderContext {
                         out_arguments.push(quote! {, #value});
                     }
                     let out_arguments = flatten(out_arguments);
-                    let target = emit_target(target);
                     let source = emit_register(*source);
+                    // a recursive type must not nest its own stream in the type of the stream it is given
+                    let (prepare_target, target) = if let Target::Stream(_) = target {
+                        let target = emit_target(target);
+                        let trait_name = if self.is_async {
+                            quote! { dyn AsyncWrite + Send + Sync + Unpin }
+                        } else {
+                            quote! { dyn Write }
+                        };
+                        (
+                            quote! { let mut target: &mut (#trait_name) = #target; },
+                            quote! { (&mut target) },
+                        )
+                    } else {
+                        (quote! {}, emit_target(target))
+                    };
                     if self.is_async {
                         statements.push(quote! {
-                            #source.encode_async(#target #out_arguments).await?;
+                            {
+                                #prepare_target
+                                #source.encode_async(#target #out_arguments).await?;
+                            }
                         });
                     } else {
                         statements.push(quote! {
-                            #source.encode_sync(#target #out_arguments)?;
+                            {
+                                #prepare_target
+                                #source.encode_sync(#target #out_arguments)?;
+                            }
                         });
                     }
                 }
@@ -322,15 +359,14 @@ impl EncoderContext {
                     prelude,
                     stream,
                     new_stream,
-                    owned_new_stream,
                     transformer,
                     args,
                 ) => {
                     let condition = emit_register(*condition);
                     let new_stream_value = emit_register(*new_stream);
-                    let owned_new_stream = emit_register(*owned_new_stream);
+                    let owned_new_stream = emit_owned_register(*new_stream);
                     let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
-                    let input = emit_target(stream);
+                    let input = emit_target_borrow(stream);
                     let transformed =
                         transformer
                             .inner
@@ -346,13 +382,14 @@ impl EncoderContext {
                     //todo: would be nicer to use generics here instead of trait object
                     statements.push(quote! {
                         let mut #owned_new_stream = None;
-                        let #new_stream_value: &mut #trait_name = if #condition {
+                        let mut #new_stream_value: &mut (#trait_name) = if #condition {
                             #prelude
                             #owned_new_stream = Some(#transformed);
                             #owned_new_stream.as_mut().unwrap()
                         } else {
-                            #input as &mut #trait_name
+                            #input
                         };
+                        let #new_stream_value = &mut #new_stream_value;
                     })
                 }
                 Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 240c04a..a0d32bf 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -284,6 +284,14 @@ fn emit_register(register: usize) -> TokenStream {
     }
 }
 
+/// the value behind the stream that is in `register`
+fn emit_owned_register(register: usize) -> TokenStream {
+    let ident = format_ident!("r_{}_owned", register);
+    quote! {
+        #ident
+    }
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
diff --git a/protospec-build/src/ffi/transform.rs b/protospec-build/src/ffi/transform.rs
index 84dffa6..762e223 100644
--- a/protospec-build/src/ffi/transform.rs
+++ b/protospec-build/src/ffi/transform.rs
@@ -1,6 +1,7 @@
 use proc_macro2::TokenStream;
+use quote::quote;
 
-use crate::FFIArgument;
+use crate::{map_async, FFIArgument};
 
 pub type ForeignTransformObj = Box<dyn ForeignTransform + Send + Sync + 'static>;
 
@@ -19,5 +20,13 @@ pub trait ForeignTransform {
         is_async: bool,
     ) -> TokenStream;
 
+    /// emits statements that complete `stream`, a value made by [`ForeignTransform::encoding_gen`], once all data is written to it.
+    fn finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        let async_ = map_async(is_async);
+        quote! {
+            #stream.flush()#async_?;
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument>;
 }
diff --git a/protospec-build/src/prelude/base64.rs b/protospec-build/src/prelude/base64.rs
index 805507c..eef0549 100644
--- a/protospec-build/src/prelude/base64.rs
+++ b/protospec-build/src/prelude/base64.rs
@@ -13,9 +13,7 @@ impl ForeignTransform for Base64Transform {
             panic!("base64 async not implemented");
         }
         quote! {
-            {
-                base64::read::DecoderReader::new(#input_stream, base64::STANDARD)
-            }
+            std::io::BufReader::new(base64::read::DecoderReader::new(#input_stream, base64::STANDARD))
         }
     }
 
@@ -33,6 +31,12 @@ impl ForeignTransform for Base64Transform {
         }
     }
 
+    fn finish_gen(&self, stream: TokenStream, _is_async: bool) -> TokenStream {
+        quote! {
+            #stream.finish()?;
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
diff --git a/protospec-build/src/prelude/gzip.rs b/protospec-build/src/prelude/gzip.rs
index 343a142..053ce19 100644
--- a/protospec-build/src/prelude/gzip.rs
+++ b/protospec-build/src/prelude/gzip.rs
@@ -15,7 +15,11 @@ impl ForeignTransform for GzipTransform {
             }
         } else {
             quote! {
-                flate2::read::GzDecoder::new(#input_stream)
+                {
+                    let mut decompressed = vec![];
+                    flate2::bufread::GzDecoder::new(#input_stream).read_to_end(&mut decompressed)?;
+                    Cursor::new(decompressed)
+                }
             }
         }
     }
@@ -37,6 +41,18 @@ impl ForeignTransform for GzipTransform {
         }
     }
 
+    fn finish_gen(&self, stream: TokenStream, is_async: bool) -> TokenStream {
+        if is_async {
+            quote! {
+                #stream.flush().await?;
+            }
+        } else {
+            quote! {
+                #stream.try_finish()?;
+            }
+        }
+    }
+
     fn arguments(&self) -> Vec<FFIArgument> {
         vec![]
     }
-- 
2.43.0


From 0e298e3bddae21b716d660e4142391c973b108f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:36 +0000
Subject: [PATCH 08/41] fix: apply transforms in the order that the decoder
 undoes them

---
 protospec-build/src/coder/encode/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index 3bb8438..c2d8b4a 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -67,7 +67,7 @@ impl Context {
     ) {
         let mut new_streams = vec![];
 
-        for transform in field.transforms.borrow().iter() {
+        for transform in field.transforms.borrow().iter().rev() {
             let condition = if let Some(condition) = &transform.condition {
                 let value = self.alloc_register();
                 self.instructions
-- 
2.43.0


From 1ce73f1d011c1738d93557f6be4836f2c25c83ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:23 +0000
Subject: [PATCH 09/41] fix: require the contents of a container to match its
 length and select exactly one tagged enum variant

---
 protospec-build/src/coder/decode/container.rs | 22 ++++++++---
 .../src/coder/decode/instruction.rs           |  2 +
 protospec-build/src/coder/encode/container.rs | 23 ++++++++---
 .../src/coder/encode/instruction.rs           | 28 ++++++++++----
 protospec-build/src/compiler/decoder.rs       | 10 ++++-
 protospec-build/src/compiler/encoder.rs       | 38 ++++++++++++++-----
 6 files changed, 92 insertions(+), 31 deletions(-)

diff --git a/protospec-build/src/coder/decode/container.rs b/protospec-build/src/coder/decode/container.rs
index 078383c..5c8f37d 100644
--- a/protospec-build/src/coder/decode/container.rs
+++ b/protospec-build/src/coder/decode/container.rs
@@ -7,8 +7,7 @@ impl Context {
         type_: &ContainerType,
         source: Target,
     ) -> Vec<usize> {
-        let buf_target = if let Some(length) = &type_.length {
-            //todo: use limited stream
+        let (buf_target, constricted) = if let Some(length) = &type_.length {
             let len_register = self.alloc_register();
             self.instructions.push(Instruction::Eval(
                 len_register,
@@ -18,14 +17,14 @@ impl Context {
             let buf = self.alloc_register();
             self.instructions
                 .push(Instruction::Constrict(source, buf, len_register));
-            Target::Stream(buf)
+            (Target::Stream(buf), Some(buf))
         } else {
-            source
+            (source, None)
         };
         if type_.is_enum.get() {
-            self.decode_enum_container(field, type_, buf_target)
+            self.decode_enum_container(field, type_, buf_target, constricted)
         } else {
-            self.decode_struct_container(field, type_, buf_target)
+            self.decode_struct_container(field, type_, buf_target, constricted)
         }
     }
 
@@ -34,6 +33,7 @@ impl Context {
         field: &Arc<Field>,
         type_: &ContainerType,
         buf_target: Target,
+        constricted: Option<usize>,
     ) -> Vec<usize> {
         let mut decoded_fields = vec![];
         for (name, child) in type_.items.iter() {
@@ -45,6 +45,10 @@ impl Context {
                 }
             }
         }
+        if let Some(constricted) = constricted {
+            self.instructions
+                .push(Instruction::EndConstrict(constricted));
+        }
         if !field.toplevel {
             return decoded_fields;
         }
@@ -77,6 +81,7 @@ impl Context {
         field: &Arc<Field>,
         type_: &ContainerType,
         buf_target: Target,
+        constricted: Option<usize>,
     ) -> Vec<usize> {
         assert!(type_.is_enum.get());
         for (name, child) in type_.items.iter() {
@@ -129,6 +134,11 @@ impl Context {
                 }
             }
 
+            if let Some(constricted) = constricted {
+                self.instructions
+                    .push(Instruction::EndConstrict(constricted));
+            }
+
             if let Some(condition) = condition {
                 self.instructions.push(Instruction::Return(target));
                 let drained = self.instructions.drain(start..).collect();
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index d5a7296..f0d1685 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -29,6 +29,8 @@ pub enum Instruction {
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
+    // constricted stream, must be exhausted
+    EndConstrict(usize),
     WrapStream(Target, usize, Arc<Transform>, Vec<usize>), // stream, new stream, transformer, arguments
     ConditionalWrapStream(
         usize,
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 831eff8..9282463 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -175,19 +175,18 @@ impl Context {
         source: usize,
         conditional: bool,
     ) {
+        let mut expected_len = None;
         let buf_target = if let Some(length) = &type_.length {
             //todo: use limited stream
             let buf = self.alloc_register();
             // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-            if self.pending_autos.contains(&field.name) {
-                self.instructions.push(Instruction::AllocDynBuf(buf));
-            } else {
+            if !self.pending_autos.contains(&field.name) {
                 let len_register = self.alloc_register();
                 self.instructions
                     .push(Instruction::Eval(len_register, length.clone()));
-                self.instructions
-                    .push(Instruction::AllocBuf(buf, len_register));
+                expected_len = Some(len_register);
             }
+            self.instructions.push(Instruction::AllocDynBuf(buf));
             Target::Buf(buf)
         } else {
             target
@@ -229,7 +228,7 @@ impl Context {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
                         self.encode_container_calculated(type_);
-                        self.encode_container_items(type_, buf_target, source, false);
+                        self.encode_field_unconditional(buf_target, source, child, false, false);
                         self.instructions.push(Instruction::Break);
                     }
                     _ => {
@@ -238,6 +237,7 @@ impl Context {
                             name.clone(),
                             source,
                             unwrapped,
+                            child.type_.borrow().copyable(),
                             "mismatch betweeen condition and enum discriminant".to_string(),
                         ));
 
@@ -252,6 +252,10 @@ impl Context {
                         .push(Instruction::Conditional(condition, drained, vec![]));
                 }
             }
+            self.instructions.push(Instruction::Error(format!(
+                "no enum conditions matched for {}",
+                field.name
+            )));
             let drained = self.instructions.drain(break_start..).collect();
             self.instructions.push(Instruction::BreakBlock(drained));
         } else {
@@ -265,6 +269,13 @@ impl Context {
         }
 
         if type_.length.is_some() {
+            if let Some(expected_len) = expected_len {
+                self.instructions.push(Instruction::CheckLen(
+                    expected_len,
+                    buf_target.unwrap_buf(),
+                    format!("length of container {} does not match its contents", field.name),
+                ));
+            }
             if self.pending_autos.remove(&field.name) {
                 let target = self.alloc_register();
                 self.instructions.push(Instruction::GetLen(
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 54b343a..0771303 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -15,8 +15,6 @@ pub enum Instruction {
     GetRef(usize, String),
     /// ref name, value
     SetRef(String, usize),
-    /// buf handle, len register
-    AllocBuf(usize, usize),
     /// buf handle
     AllocDynBuf(usize),
     /// stream, new stream, transformer, arguments
@@ -61,10 +59,14 @@ pub enum Instruction {
     NullCheck(usize, usize, bool, String),
     /// condition, if_true, if_false
     Conditional(usize, Vec<Instruction>, Vec<Instruction>),
-    /// enum name, discriminant, original, checked, message
-    UnwrapEnum(String, String, usize, usize, String),
+    /// enum name, discriminant, original, checked, is_copyable, message
+    UnwrapEnum(String, String, usize, usize, bool, String),
     /// enum name, discriminant, original, checked: (enumstruct field name, checked, do_copy), message
     UnwrapEnumStruct(String, String, usize, Vec<(String, usize, bool)>, String),
+    /// expected length, source, message
+    CheckLen(usize, usize, String),
+    /// message
+    Error(String),
     /// instructions
     BreakBlock(Vec<Instruction>),
     Break,
@@ -91,7 +93,6 @@ impl fmt::Display for Instruction {
             Instruction::SetRef(ref_name, source) => {
                 write!(f, "SetRef('{}', {})", ref_name, source)
             }
-            Instruction::AllocBuf(buf, len) => write!(f, "AllocBuf({}, {})", buf, len),
             Instruction::AllocDynBuf(buf) => write!(f, "AllocDynBuf({})", buf),
             Instruction::WrapStream(stream, new_stream, transform, arguments) => {
                 write!(
@@ -190,10 +191,17 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
-            Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => write!(
+            Instruction::UnwrapEnum(
+                enum_name,
+                discriminant,
+                original,
+                checked,
+                is_copyable,
+                message,
+            ) => write!(
                 f,
-                "UnwrapEnum('{}', '{}', {}, {}, '{}')",
-                enum_name, discriminant, original, checked, message
+                "UnwrapEnum('{}', '{}', {}, {}, {}, '{}')",
+                enum_name, discriminant, original, checked, is_copyable, message
             ),
             Instruction::UnwrapEnumStruct(enum_name, discriminant, original, checked, message) => {
                 write!(
@@ -212,6 +220,10 @@ impl fmt::Display for Instruction {
                 }
                 Ok(())
             }
+            Instruction::CheckLen(len, source, message) => {
+                write!(f, "CheckLen({}, {}, '{}')", len, source, message)
+            }
+            Instruction::Error(message) => write!(f, "Error('{}')", message),
             Instruction::BreakBlock(instructions) => {
                 write!(f, "BreakBlock()")?;
                 for instruction in instructions {
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 95bb110..678a078 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -171,10 +171,18 @@ fn prepare_decode(
                 let new_stream = emit_register(*new_stream);
                 let len = emit_register(*len);
                 statements.push(quote! {
-                    let mut #new_stream = #stream.take(#len as u64);
+                    let mut #new_stream = #stream.take(<u64 as std::convert::TryFrom<_>>::try_from(#len)?);
                     let #new_stream = &mut #new_stream;
                 });
             }
+            Instruction::EndConstrict(stream) => {
+                let stream = emit_register(*stream);
+                statements.push(quote! {
+                    if #stream.limit() != 0 {
+                        return Err(decode_error("container length does not match its contents").into());
+                    }
+                });
+            }
             Instruction::WrapStream(stream, new_stream, transformer, args) => {
                 let new_stream_value = emit_register(*new_stream);
                 let args = args.iter().map(|x| emit_register(*x)).collect::<Vec<_>>();
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 5fce6bc..04d08eb 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -82,14 +82,6 @@ impl EncoderContext {
                         let #target = #source;
                     });
                 }
-                Instruction::AllocBuf(buf, len) => {
-                    let buf = emit_register(*buf);
-                    let len = emit_register(*len);
-                    statements.push(quote! {
-                        //todo: strictly bound this
-                        let mut #buf: Vec<u8> = Vec::with_capacity(#len as usize);
-                    });
-                }
                 Instruction::AllocDynBuf(buf) => {
                     let buf = emit_register(*buf);
                     statements.push(quote! {
@@ -392,7 +384,19 @@ impl EncoderContext {
                         let #new_stream_value = &mut #new_stream_value;
                     })
                 }
-                Instruction::UnwrapEnum(enum_name, discriminant, original, checked, message) => {
+                Instruction::UnwrapEnum(
+                    enum_name,
+                    discriminant,
+                    original,
+                    checked,
+                    is_copyable,
+                    message,
+                ) => {
+                    let copy = if *is_copyable {
+                        quote! { * }
+                    } else {
+                        quote! {}
+                    };
                     let enum_name = emit_ident(enum_name);
                     let discriminant = emit_ident(discriminant);
                     let original = emit_register(*original);
@@ -400,7 +404,7 @@ impl EncoderContext {
 
                     statements.push(quote! {
                         let #checked = if let #enum_name::#discriminant(#checked) = &#original {
-                            #checked
+                            #copy #checked
                         } else {
                             return Err(encode_error(#message).into())
                         };
@@ -441,6 +445,20 @@ impl EncoderContext {
                         };
                     });
                 }
+                Instruction::CheckLen(len, source, message) => {
+                    let len = emit_register(*len);
+                    let source = emit_register(*source);
+                    statements.push(quote! {
+                        if <u64 as std::convert::TryFrom<_>>::try_from(#len)? != #source.len() as u64 {
+                            return Err(encode_error(#message).into());
+                        }
+                    });
+                }
+                Instruction::Error(message) => {
+                    statements.push(quote! {
+                        return Err(encode_error(#message).into());
+                    });
+                }
                 Instruction::BreakBlock(instructions) => {
                     //todo: support nested breakblocks?
                     let interior = self.prepare_encode(&instructions[..], false);
-- 
2.43.0


From 4573d16b428d76cd0c4019541ad751a7d065a45b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:15 +0000
Subject: [PATCH 10/41] fix: read arrays and pads without trusting their
 claimed length and reject arrays of the wrong length

---
 protospec-build/src/asg/types/mod.rs      |  15 ++
 protospec-build/src/coder/decode/array.rs |   3 +-
 protospec-build/src/coder/encode/array.rs |  24 +--
 protospec-build/src/compiler/decoder.rs   | 178 +++++++++++++---------
 protospec-build/src/compiler/encoder.rs   |  23 ++-
 5 files changed, 153 insertions(+), 90 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index ef64d74..5217045 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -86,6 +86,21 @@ impl Type {
         }
     }
 
+    /// resolves references to types that are represented by a bare scalar on the wire
+    pub fn resolved_repr(&self) -> Cow<'_, Type> {
+        if let Type::Ref(x) = self {
+            let is_plain = x.target.condition.borrow().is_none()
+                && x.target.transforms.borrow().is_empty();
+            match &*x.target.type_.borrow() {
+                type_ @ (Type::Enum(_) | Type::Bitfield(_)) if is_plain => {
+                    return Cow::Owned(type_.clone())
+                }
+                _ => (),
+            }
+        }
+        Cow::Borrowed(self)
+    }
+
     pub fn assignable_from(&self, other: &Type) -> bool {
         match (self.resolved().as_ref(), other.resolved().as_ref()) {
             (Type::Ref(field1), Type::Ref(field2)) => field1
diff --git a/protospec-build/src/coder/decode/array.rs b/protospec-build/src/coder/decode/array.rs
index 789506d..ecd1541 100644
--- a/protospec-build/src/coder/decode/array.rs
+++ b/protospec-build/src/coder/decode/array.rs
@@ -24,8 +24,7 @@ impl Context {
 
         let output = self.alloc_register();
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
-            match &*type_ {
+            match &*type_.element.resolved_repr() {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => (),
                 Type::Enum(x) => {
diff --git a/protospec-build/src/coder/encode/array.rs b/protospec-build/src/coder/encode/array.rs
index 7748bb7..8cae374 100644
--- a/protospec-build/src/coder/encode/array.rs
+++ b/protospec-build/src/coder/encode/array.rs
@@ -37,8 +37,7 @@ impl Context {
         };
 
         if terminator.is_none() {
-            let type_ = type_.element.resolved();
-            let primitive_type = match &*type_ {
+            let primitive_type = match &*type_.element.resolved_repr() {
                 // todo: const-length type optimizations for container/array/foreign
                 Type::Container(_) | Type::Array(_) | Type::Foreign(_) | Type::Ref(_) => None,
                 Type::Enum(e) => {
@@ -88,14 +87,19 @@ impl Context {
             .push(Instruction::GetField(new_source, source, ops));
         self.encode_type(&type_.element, target, new_source);
         let drained = self.instructions.drain(current_pos..).collect();
-        let len = if let Some(len) = len {
-            len
-        } else {
-            let len = self.alloc_register();
-            self.instructions
-                .push(Instruction::GetLen(len, source, None));
-            len
-        };
+        if let Some(len) = len {
+            self.instructions.insert(
+                current_pos,
+                Instruction::CheckLen(
+                    len,
+                    source,
+                    "length of array does not match its declared length".to_string(),
+                ),
+            );
+        }
+        let len = self.alloc_register();
+        self.instructions
+            .push(Instruction::GetLen(len, source, None));
         self.instructions
             .push(Instruction::Loop(iter_index, len, drained));
         if let Some(terminator) = terminator {
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 678a078..6ece33c 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -27,6 +27,40 @@ fn emit_dyn_target(is_async: bool) -> TokenStream {
     }
 }
 
+/// emits statements that read the whole elements of an array into `raw`, each of `size` bytes
+fn emit_read_raw(
+    target: &Target,
+    type_: &PrimitiveType,
+    len: &Option<usize>,
+    async_: &TokenStream,
+) -> TokenStream {
+    if let Some(len) = len {
+        let target = emit_target_borrow(target);
+        let len = emit_register(*len);
+        quote! {
+            let size = mem::size_of::<#type_>();
+            let total = <u64 as std::convert::TryFrom<_>>::try_from(#len)?
+                .checked_mul(size as u64)
+                .ok_or_else(|| decode_error("array length is too large"))?;
+            let mut raw: Vec<u8> = Vec::new();
+            #target.take(total).read_to_end(&mut raw)#async_?;
+            if raw.len() as u64 != total {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+        }
+    } else {
+        let target = emit_target(target);
+        quote! {
+            let size = mem::size_of::<#type_>();
+            let mut raw: Vec<u8> = Vec::new();
+            #target.read_to_end(&mut raw)#async_?;
+            if raw.len() % size != 0 {
+                return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+            }
+        }
+    }
+}
+
 fn prepare_decode(
     options: &CompileOptions,
     context: &Context,
@@ -331,9 +365,19 @@ fn prepare_decode(
                     };
                 });
             }
+            Instruction::DecodePrimitiveArray(target, data, PrimitiveType::Bool, len) => {
+                let data = emit_register(*data);
+                let read_raw = emit_read_raw(target, &PrimitiveType::Bool, len, &async_);
+                statements.push(quote! {
+                    let #data = {
+                        #read_raw
+                        raw.into_iter().map(|x| x != 0).collect::<Vec<bool>>()
+                    };
+                });
+            }
             Instruction::DecodePrimitiveArray(target, data, type_, len) => {
-                let target = emit_target(target);
                 let data = emit_register(*data);
+                let read_raw = emit_read_raw(target, type_, len, &async_);
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
@@ -341,32 +385,16 @@ fn prepare_decode(
                     }) => quote! { from_le_bytes },
                     _ => quote! { from_be_bytes },
                 };
-                if let Some(len) = len {
-                    let len = emit_register(*len);
-                    statements.push(quote! {
-                        let #data = {
-                            let t_count = #len as usize;
-                            let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
-                        };
-                    });
-                } else {
-                    statements.push(quote! {
-                        let #data = {
-                            let mut raw: Vec<u8> = Vec::new();
-                            #target.read_to_end(&mut raw)#async_?;
-                            let size = mem::size_of::<#type_>();
-                            raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
-                        };
-                    });
-                }
+                statements.push(quote! {
+                    let #data = {
+                        #read_raw
+                        raw.chunks_exact(size).map(|x| #type_::#decoder(x.try_into().unwrap())).collect::<Vec<#type_>>()
+                    };
+                });
             }
             Instruction::DecodeReprArray(target, data, name, type_, len) => {
-                let target = emit_target(target);
                 let data = emit_register(*data);
+                let read_raw = emit_read_raw(target, type_, len, &async_);
                 let enum_ident = format_ident!("{}", &name);
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
@@ -375,60 +403,57 @@ fn prepare_decode(
                     }) => quote! { from_le_bytes },
                     _ => quote! { from_be_bytes },
                 };
-
-                if let Some(len) = len {
-                    let len = emit_register(*len);
-                    statements.push(quote! {
-                        let #data = {
-                            let t_count = #len as usize;
-                            let size = mem::size_of::<#type_>();
-                            let mut raw: Vec<u8> = Vec::with_capacity(t_count * size);
-                            unsafe { raw.set_len(t_count * size) };
-                            #target.read_exact(&mut raw[..])#async_?;
-                            raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
-                        };
-                    });
-                } else {
-                    statements.push(quote! {
-                        let #data = {
-                            let mut raw: Vec<u8> = Vec::new();
-                            #target.read_to_end(&mut raw)#async_?;
-                            let size = mem::size_of::<#type_>();
-                            raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
-                        };
-                    });
-                }
+                statements.push(quote! {
+                    let #data = {
+                        #read_raw
+                        raw.chunks_exact(size).map(|x| #enum_ident::from_repr(#type_::#decoder(x.try_into().unwrap()))).collect::<Result<Vec<#enum_ident>>>()?
+                    };
+                });
             }
             Instruction::Loop(target, stop_index, terminator, output, inner) => {
                 let output = emit_register(*output);
                 let inner = prepare_decode(options, context, &inner[..], is_async, false);
                 let stop = stop_index.map(emit_register);
                 let terminator = terminator.map(emit_register);
+                let borrowed = emit_target_borrow(target);
                 let target = emit_target(target);
+                let dyn_target = emit_dyn_target(is_async);
                 if let Some(stop) = stop {
                     statements.push(quote! {
-                        let mut #output = Vec::with_capacity(#stop as usize);
-                        for _ in 0..#stop {
+                        let mut #output = Vec::new();
+                        for _ in 0..<u64 as std::convert::TryFrom<_>>::try_from(#stop)? {
                             #inner
                         }
                     });
                 } else if let Some(terminator) = terminator {
+                    let read_trait = if is_async {
+                        quote! { tokio::io::AsyncReadExt }
+                    } else {
+                        quote! { std::io::Read }
+                    };
                     statements.push(quote! {
                         let mut #output = Vec::new();
-                        loop {
-                            let buf = #target.fill_buf()#async_?;
-                            if buf.len() == 0 {
-                                break;
-                            }
-                            if (buf.len() < #terminator.len()) {
-                                //todo: confirm this cannot infinite loop
-                                continue;
-                            }
-                            if &buf[..#terminator.len()] == #terminator {
-                                #target.consume(#terminator.len());
-                                break;
+                        {
+                            // bytes that were read ahead to look for the terminator
+                            let mut pending: Vec<u8> = Vec::new();
+                            loop {
+                                let missing = #terminator.len() - pending.len();
+                                #read_trait::take(#borrowed, missing as u64).read_to_end(&mut pending)#async_?;
+                                if pending.is_empty() || pending[..] == #terminator[..] {
+                                    break;
+                                }
+                                let mut head = &pending[..];
+                                {
+                                    let mut chained = #read_trait::chain(&mut head, #borrowed);
+                                    let mut #target: #dyn_target = &mut chained;
+                                    let #target = &mut #target;
+                                    #inner
+                                }
+                                if head.len() == pending.len() {
+                                    return Err(decode_error("array element consumed no data").into());
+                                }
+                                pending = head.to_vec();
                             }
-                            #inner
                         }
                     });
                 } else {
@@ -438,14 +463,18 @@ fn prepare_decode(
                         {
                             let mut r = vec![];
                             #target.read_to_end(&mut r)#async_?;
-                            let r_len = r.len() as u64;
 
-                            {
-                                let mut #target = Cursor::new(r);
-                                let #target = &mut #target;
-                                while #target.position() < r_len {
+                            let mut remaining = &r[..];
+                            while !remaining.is_empty() {
+                                let before = remaining.len();
+                                {
+                                    let mut #target: #dyn_target = &mut remaining;
+                                    let #target = &mut #target;
                                     #inner
                                 }
+                                if remaining.len() == before {
+                                    return Err(decode_error("array element consumed no data").into());
+                                }
                             }
                         }
                     });
@@ -528,11 +557,20 @@ fn prepare_decode(
                 });
             }
             Instruction::Skip(target, len) => {
-                let target = emit_target(target);
+                let target = emit_target_borrow(target);
                 let len = emit_register(*len);
+                let io = if is_async {
+                    quote! { tokio::io }
+                } else {
+                    quote! { std::io }
+                };
                 statements.push(quote! {
-                    let mut big_scratch = vec![0u8; #len as usize];
-                    #target.read_exact(&mut big_scratch[..])#async_?;
+                    {
+                        let count = <u64 as std::convert::TryFrom<_>>::try_from(#len)?;
+                        if #io::copy(&mut #target.take(count), &mut #io::sink())#async_? != count {
+                            return Err(std::io::Error::from(std::io::ErrorKind::UnexpectedEof).into());
+                        }
+                    }
                 });
             }
         }
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 04d08eb..ab6ce59 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -296,7 +296,7 @@ impl EncoderContext {
                         PrimitiveType::Bool => {
                             quote! {
                                 for x in #data.iter() {
-                                    #target.write_all(&[if x { 1u8 } else { 0u8 }])#async_?;
+                                    #target.write_all(&[if *x { 1u8 } else { 0u8 }])#async_?;
                                 }
                             }
                         }
@@ -330,10 +330,8 @@ impl EncoderContext {
                         let len = emit_register(*len);
                         statements.push(quote! {
                             {
-                                let t_count = #len as usize;
-                                if t_count != #data.len() {
-                                    //todo: throw an error properly
-                                    assert_eq!(t_count, #data.len());
+                                if <u64 as std::convert::TryFrom<_>>::try_from(#len)? != #data.len() as u64 {
+                                    return Err(encode_error("length of array does not match its declared length").into());
                                 }
                                 #writing
                             }
@@ -476,10 +474,19 @@ impl EncoderContext {
                 }
                 Instruction::Pad(target, length) => {
                     let length = emit_register(*length);
-                    let target = emit_target(target);
-                    //todo: dont alloc on the heap
+                    let target = emit_target_borrow(target);
+                    let (io, read_trait) = if self.is_async {
+                        (quote! { tokio::io }, quote! { tokio::io::AsyncReadExt })
+                    } else {
+                        (quote! { std::io }, quote! { std::io::Read })
+                    };
                     statements.push(quote! {
-                        #target.write_all(&vec![0u8; #length as usize][..])#async_?;
+                        {
+                            let count = <u64 as std::convert::TryFrom<_>>::try_from(#length)?;
+                            let mut zeros = #read_trait::take(#io::repeat(0), count);
+                            let mut target = #target;
+                            #io::copy(&mut zeros, &mut target)#async_?;
+                        }
                     });
                 }
                 Instruction::SetRef(name, value) => {
-- 
2.43.0


From 8c01461201cf53e935efd5366afa9a12dd3915f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:26 +0000
Subject: [PATCH 11/41] fix: evaluate expressions without panicking, pass
 optional and owned arguments and escape identifiers

---
 .../src/asg/expression/array_index.rs         |   2 +-
 protospec-build/src/asg/types/mod.rs          |  22 ++
 .../src/coder/decode/instruction.rs           |   2 +
 protospec-build/src/coder/decode/mod.rs       |  28 +-
 protospec-build/src/coder/encode/container.rs |  14 +-
 .../src/coder/encode/instruction.rs           |  10 +
 protospec-build/src/coder/encode/var_ref.rs   |   8 +-
 protospec-build/src/compiler/decoder.rs       |  31 +-
 protospec-build/src/compiler/encoder.rs       |  40 +-
 protospec-build/src/compiler/expr.rs          | 350 ++++++++++++------
 protospec-build/src/compiler/mod.rs           |  98 +++--
 11 files changed, 449 insertions(+), 156 deletions(-)

diff --git a/protospec-build/src/asg/expression/array_index.rs b/protospec-build/src/asg/expression/array_index.rs
index bd9dd2e..df459e5 100644
--- a/protospec-build/src/asg/expression/array_index.rs
+++ b/protospec-build/src/asg/expression/array_index.rs
@@ -10,7 +10,7 @@ pub struct ArrayIndexExpression {
 impl AsgExpression for ArrayIndexExpression {
     fn get_type(&self) -> Option<Type> {
         let parent_type = self.array.get_type()?;
-        match parent_type {
+        match &*parent_type.resolved() {
             Type::Array(parent_type) => Some(parent_type.element.as_ref().clone()),
             _ => None,
         }
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 5217045..f58faae 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -86,6 +86,25 @@ impl Type {
         }
     }
 
+    /// the type that is wrapped by the struct generated for a reference to a plain type
+    pub fn aliased(&self) -> Option<Type> {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                Type::Container(_) | Type::Enum(_) | Type::Bitfield(_) | Type::Foreign(_) => None,
+                type_ => Some(type_.clone()),
+            },
+            _ => None,
+        }
+    }
+
+    /// the type of values of this type in expressions
+    pub fn unaliased(&self) -> Cow<'_, Type> {
+        match self.aliased() {
+            Some(type_) => Cow::Owned(type_.unaliased().into_owned()),
+            None => Cow::Borrowed(self),
+        }
+    }
+
     /// resolves references to types that are represented by a bare scalar on the wire
     pub fn resolved_repr(&self) -> Cow<'_, Type> {
         if let Type::Ref(x) = self {
@@ -168,6 +187,9 @@ impl Type {
     }
 
     pub fn copyable(&self) -> bool {
+        if self.aliased().is_some() {
+            return false;
+        }
         match &*self.resolved() {
             Type::Enum(_) => true,
             Type::Bitfield(_) => true,
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index f0d1685..2b98945 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -26,6 +26,8 @@ pub enum Constructable {
 #[derive(Debug)]
 pub enum Instruction {
     Eval(usize, Expression, HashMap<String, usize>),
+    // target, argument if present, is optional
+    EvalArgument(usize, Option<Expression>, bool, HashMap<String, usize>),
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 0e5369d..d8421bc 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -132,16 +132,16 @@ impl Context {
             }
             Type::Ref(r) => {
                 let mut args = vec![];
-                for arg in r.arguments.iter() {
-                    let r = self.alloc_register();
-                    self.instructions.push(Instruction::Eval(
-                        r,
-                        arg.clone(),
-                        self.field_register_map.clone(),
-                    ));
-                    args.push(r);
-                }
                 if let Type::Foreign(f) = &*r.target.type_.borrow() {
+                    for arg in r.arguments.iter() {
+                        let r = self.alloc_register();
+                        self.instructions.push(Instruction::Eval(
+                            r,
+                            arg.clone(),
+                            self.field_register_map.clone(),
+                        ));
+                        args.push(r);
+                    }
                     self.instructions.push(Instruction::DecodeForeign(
                         source,
                         output,
@@ -149,6 +149,16 @@ impl Context {
                         args,
                     ));
                 } else {
+                    for (i, parameter) in r.target.arguments.borrow().iter().enumerate() {
+                        let register = self.alloc_register();
+                        self.instructions.push(Instruction::EvalArgument(
+                            register,
+                            r.arguments.get(i).cloned(),
+                            parameter.default_value.is_some(),
+                            self.field_register_map.clone(),
+                        ));
+                        args.push(register);
+                    }
                     self.instructions.push(Instruction::DecodeRef(
                         source,
                         output,
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index 9282463..efe976e 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -63,8 +63,11 @@ impl Context {
                     continue;
                 }
                 let calculated_register = self.alloc_register();
-                self.instructions
-                    .push(Instruction::Eval(calculated_register, calculated.clone()));
+                self.instructions.push(Instruction::EvalCalculated(
+                    calculated_register,
+                    calculated.clone(),
+                    field.type_.borrow().clone(),
+                ));
                 self.instructions
                     .push(Instruction::SetRef(name, calculated_register));
             }
@@ -89,8 +92,11 @@ impl Context {
         calculated.rewrite_blen_calls(&blen_map);
 
         let calculated_register = self.alloc_register();
-        self.instructions
-            .push(Instruction::Eval(calculated_register, calculated));
+        self.instructions.push(Instruction::EvalCalculated(
+            calculated_register,
+            calculated,
+            field.type_.borrow().clone(),
+        ));
         self.instructions
             .push(Instruction::SetRef(field.name.clone(), calculated_register));
         calculated_register
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 0771303..1af22b5 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -9,6 +9,10 @@ use super::*;
 pub enum Instruction {
     /// dest, expression
     Eval(usize, Expression),
+    /// dest, argument if present, is optional
+    EvalArgument(usize, Option<Expression>, bool),
+    /// dest, expression, type of the calculated field
+    EvalCalculated(usize, Expression, Type),
     /// dest, source, ops
     GetField(usize, usize, Vec<FieldRef>),
     /// dest, ref name
@@ -86,6 +90,12 @@ impl fmt::Display for Instruction {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
             Instruction::Eval(dest, expression) => write!(f, "Eval({}, {:?})", dest, expression),
+            Instruction::EvalArgument(dest, expression, is_optional) => {
+                write!(f, "EvalArgument({}, {:?}, {})", dest, expression, is_optional)
+            }
+            Instruction::EvalCalculated(dest, expression, type_) => {
+                write!(f, "EvalCalculated({}, {:?}, {})", dest, expression, type_)
+            }
             Instruction::GetField(dest, source, ops) => {
                 write!(f, "GetField({}, {}, {:?})", dest, source, ops)
             }
diff --git a/protospec-build/src/coder/encode/var_ref.rs b/protospec-build/src/coder/encode/var_ref.rs
index 45ad006..32483c9 100644
--- a/protospec-build/src/coder/encode/var_ref.rs
+++ b/protospec-build/src/coder/encode/var_ref.rs
@@ -17,9 +17,13 @@ impl Context {
             ));
         } else {
             let mut args = vec![];
-            for arg in type_.arguments.iter() {
+            for (i, parameter) in type_.target.arguments.borrow().iter().enumerate() {
                 let r = self.alloc_register();
-                self.instructions.push(Instruction::Eval(r, arg.clone()));
+                self.instructions.push(Instruction::EvalArgument(
+                    r,
+                    type_.arguments.get(i).cloned(),
+                    parameter.default_value.is_some(),
+                ));
                 args.push(r);
             }
             self.instructions
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 6ece33c..82132ea 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -1,3 +1,5 @@
+use std::collections::HashMap;
+
 use super::*;
 use crate::coder::decode::*;
 use crate::{coder::*, map_async, Endian, EndianScalarType};
@@ -19,6 +21,15 @@ fn emit_target_borrow(target: &Target) -> TokenStream {
     quote! { (&mut *#target) }
 }
 
+/// the place that holds the value of a field
+fn emit_field_place(field: &Arc<Field>, registers: &HashMap<String, usize>) -> TokenStream {
+    emit_register(
+        *registers
+            .get(&field.name)
+            .expect("missing register for field"),
+    )
+}
+
 fn emit_dyn_target(is_async: bool) -> TokenStream {
     if is_async {
         quote! { &mut (dyn AsyncBufRead + Send + Sync + Unpin) }
@@ -92,13 +103,17 @@ fn prepare_decode(
         match instruction {
             Instruction::Eval(target, expr, field_register_map) => {
                 let target = emit_register(*target);
-                let value = emit_expression(expr, &|field| {
-                    emit_register(
-                        *field_register_map
-                            .get(&field.name)
-                            .expect("missing register for field"),
-                    )
+                let value = emit_expression(expr, &|f| emit_field_place(f, field_register_map));
+                statements.push(quote! {
+                    let #target = #value;
+                });
+            }
+            Instruction::EvalArgument(target, expr, is_optional, field_register_map) => {
+                let target = emit_register(*target);
+                let value = expr.as_ref().map(|expr| {
+                    emit_owned_expression(expr, &|f| emit_field_place(f, field_register_map))
                 });
+                let value = emit_argument(value, *is_optional);
                 statements.push(quote! {
                     let #target = #value;
                 });
@@ -315,7 +330,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let value = emit_register(*value);
 
-                let enum_ident = format_ident!("{}", &name);
+                let enum_ident = to_ident(name);
                 let length = type_.size() as usize;
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
@@ -395,7 +410,7 @@ fn prepare_decode(
             Instruction::DecodeReprArray(target, data, name, type_, len) => {
                 let data = emit_register(*data);
                 let read_raw = emit_read_raw(target, type_, len, &async_);
-                let enum_ident = format_ident!("{}", &name);
+                let enum_ident = to_ident(name);
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index ab6ce59..f463917 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -26,6 +26,20 @@ struct EncoderContext {
     resolved_refs: HashMap<String, usize>,
 }
 impl EncoderContext {
+    /// the place that holds the value of a field
+    fn emit_field_place(&self, field: &Arc<Field>) -> TokenStream {
+        let register = self
+            .resolved_refs
+            .get(&*field.name)
+            .expect("failed to dereference");
+        let register = emit_register(*register);
+        if field.type_.borrow().copyable() {
+            register
+        } else {
+            quote! { (*#register) }
+        }
+    }
+
     fn prepare_encode(&mut self, instructions: &[Instruction], is_root: bool) -> TokenStream {
         let async_ = map_async(self.is_async);
         let mut statements = vec![];
@@ -46,13 +60,24 @@ impl EncoderContext {
             match instruction {
                 Instruction::Eval(target, expr) => {
                     let target = emit_register(*target);
-                    let value = emit_expression(expr, &|f: &Arc<Field>| {
-                        let register = self
-                            .resolved_refs
-                            .get(&*f.name)
-                            .expect("failed to dereference");
-                        emit_register(*register)
+                    let value = emit_expression(expr, &|f| self.emit_field_place(f));
+                    statements.push(quote! {
+                        let #target = #value;
+                    });
+                }
+                Instruction::EvalArgument(target, expr, is_optional) => {
+                    let target = emit_register(*target);
+                    let value = expr
+                        .as_ref()
+                        .map(|expr| emit_owned_expression(expr, &|f| self.emit_field_place(f)));
+                    let value = emit_argument(value, *is_optional);
+                    statements.push(quote! {
+                        let #target = #value;
                     });
+                }
+                Instruction::EvalCalculated(target, expr, type_) => {
+                    let target = emit_register(*target);
+                    let value = emit_calculated(expr, type_, &|f| self.emit_field_place(f));
                     statements.push(quote! {
                         let #target = #value;
                     });
@@ -66,7 +91,7 @@ impl EncoderContext {
                                 quote! { &#source }
                             }
                             FieldRef::Name(name) => {
-                                let name = format_ident!("{}", name);
+                                let name = to_ident(name);
                                 quote! { #source.#name }
                             }
                             FieldRef::ArrayAccess(index) => {
@@ -74,6 +99,7 @@ impl EncoderContext {
                                 quote! { #source[#index as usize] }
                             }
                             FieldRef::TupleAccess(x) => {
+                                let x = proc_macro2::Literal::usize_unsuffixed(*x);
                                 quote! { #source.#x }
                             }
                         };
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index abe5e06..979ca29 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -6,6 +6,7 @@ use std::{
 use proc_macro2::Literal;
 
 use super::*;
+use crate::ScalarType;
 
 #[derive(PartialEq)]
 pub enum ConstValue {
@@ -110,31 +111,41 @@ impl Neg for ConstValue {
     }
 }
 
+impl ConstInt {
+    /// emits the literal of this value, which may also be used as a pattern
+    pub fn emit_literal(&self) -> TokenStream {
+        use ConstInt::*;
+        match self {
+            I8(x) => quote! { #x },
+            I16(x) => quote! { #x },
+            I32(x) => quote! { #x },
+            I64(x) => quote! { #x },
+            I128(x) => quote! { #x },
+            U8(x) => quote! { #x },
+            U16(x) => quote! { #x },
+            U32(x) => quote! { #x },
+            U64(x) => quote! { #x },
+            U128(x) => quote! { #x },
+        }
+    }
+}
+
 impl ConstValue {
     pub fn emit(&self) -> TokenStream {
-        use ConstInt::*;
         match self {
-            ConstValue::Int(i) => match i {
-                I8(x) => quote! { #x },
-                I16(x) => quote! { #x },
-                I32(x) => quote! { #x },
-                I64(x) => quote! { #x },
-                I128(x) => quote! { #x },
-                U8(x) => quote! { #x },
-                U16(x) => quote! { #x },
-                U32(x) => quote! { #x },
-                U64(x) => quote! { #x },
-                U128(x) => quote! { #x },
-            },
+            ConstValue::Int(i) => {
+                let literal = i.emit_literal();
+                quote! { (#literal) }
+            }
             ConstValue::Bool(b) => quote! { #b },
             ConstValue::String(c) => {
                 let c = Literal::byte_string(&c[..]);
                 quote! {
-                    #c
+                    (&#c[..])
                 }
             }
-            ConstValue::F32(s) => quote! { #s },
-            ConstValue::F64(s) => quote! { #s },
+            ConstValue::F32(s) => quote! { (#s) },
+            ConstValue::F64(s) => quote! { (#s) },
         }
     }
 
@@ -250,146 +261,276 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     }
 }
 
+/// the integer type that values of a type have in expressions, if any
+fn integer_type(type_: &Type) -> Option<ScalarType> {
+    use ScalarType::*;
+    match &*type_.resolved() {
+        Type::Scalar(s) => Some(s.scalar),
+        Type::Foreign(f) => [I8, I16, I32, I64, I128, U8, U16, U32, U64, U128]
+            .iter()
+            .copied()
+            .find(|scalar| f.obj.assignable_to(&Type::Scalar((*scalar).into()))),
+        _ => None,
+    }
+}
+
+/// emits the value in an expression of a place that holds a value of a type
+fn emit_value(place: TokenStream, type_: &Type) -> TokenStream {
+    let mut place = place;
+    let mut type_ = type_.clone();
+    while let Some(interior) = type_.aliased() {
+        place = quote! { #place.0 };
+        type_ = interior;
+    }
+    if type_.copyable() {
+        quote! { (#place) }
+    } else if matches!(type_, Type::Array(_)) {
+        quote! { (&(#place)[..]) }
+    } else {
+        quote! { (&#place) }
+    }
+}
+
+/// emits an expression as a value that may be moved
+pub fn emit_owned_expression<F: Fn(&Arc<Field>) -> TokenStream>(
+    expr: &Expression,
+    ref_resolver: &F,
+) -> TokenStream {
+    let value = emit_expression(expr, ref_resolver);
+    let type_ = expr.get_type().expect("missing type of expression");
+    match &*type_.unaliased() {
+        type_ if type_.copyable() => value,
+        Type::Array(_) => quote! { #value.to_vec() },
+        _ => quote! { (*#value).clone() },
+    }
+}
+
+/// emits an expression as it is stored in a calculated field of a type
+pub fn emit_calculated<F: Fn(&Arc<Field>) -> TokenStream>(
+    expr: &Expression,
+    type_: &Type,
+    ref_resolver: &F,
+) -> TokenStream {
+    let mut names = vec![];
+    let mut type_ = type_.clone();
+    while let Some(interior) = type_.aliased() {
+        if let Type::Ref(x) = &type_ {
+            names.push(emit_ident(&global_name(&x.target.name)));
+        }
+        type_ = interior;
+    }
+    if names.is_empty() {
+        return emit_expression(expr, ref_resolver);
+    }
+    let mut value = emit_owned_expression(expr, ref_resolver);
+    for name in names.iter().rev() {
+        value = quote! { #name(#value) };
+    }
+    quote! { &#value }
+}
+
+fn emit_integer_binary(
+    op: &BinaryOp,
+    scalar: ScalarType,
+    left: &TokenStream,
+    right: &TokenStream,
+) -> Option<TokenStream> {
+    let type_ = format_ident!("{}", scalar.to_string());
+    let unsigned = format_ident!("u{}", scalar.size() * 8);
+    let signed = format_ident!("i{}", scalar.size() * 8);
+    let checked = |method: &str| {
+        let method = format_ident!("{}", method);
+        quote! {
+            <#type_>::#method(#left, #right).ok_or_else(|| expression_error("arithmetic overflow"))?
+        }
+    };
+    let shift = |type_: &proc_macro2::Ident, method: &str| {
+        let method = format_ident!("{}", method);
+        quote! {
+            <#type_>::#method(#left as #type_, <u32 as std::convert::TryFrom<_>>::try_from(#right).unwrap_or(u32::MAX))
+                .ok_or_else(|| expression_error("shift overflow"))?
+        }
+    };
+    Some(match op {
+        BinaryOp::Add => checked("checked_add"),
+        BinaryOp::Sub => checked("checked_sub"),
+        BinaryOp::Mul => checked("checked_mul"),
+        BinaryOp::Div => checked("checked_div"),
+        BinaryOp::Mod => checked("checked_rem"),
+        BinaryOp::Shl => shift(&type_, "checked_shl"),
+        BinaryOp::Shr => shift(&unsigned, "checked_shr"),
+        BinaryOp::ShrSigned => shift(&signed, "checked_shr"),
+        _ => return None,
+    })
+    .map(|value| match op {
+        BinaryOp::Shr | BinaryOp::ShrSigned => quote! { (#value as #type_) },
+        _ => quote! { (#value) },
+    })
+}
+
+/// emits an expression, `ref_resolver` emits the place that holds the value of a field
 pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     ref_resolver: &F,
 ) -> TokenStream {
     use Expression::*;
     match expr {
-        Binary(c) => {
-            let left = emit_expression(&c.left, ref_resolver);
+        Binary(c) if c.op == BinaryOp::Elvis => {
             let right = emit_expression(&c.right, ref_resolver);
-            if c.op == BinaryOp::Elvis {
-                quote! {
-                    (#left).unwrap_or(#right)
+            let (place, type_) = match &*c.left {
+                FieldRef(field) => (ref_resolver(field), field.type_.borrow().clone()),
+                left => {
+                    // never absent
+                    return emit_expression(left, ref_resolver);
                 }
-            } else {
-                let op = match c.op {
-                    BinaryOp::Lt => quote! { < },
-                    BinaryOp::Gt => quote! { > },
-                    BinaryOp::Lte => quote! { <= },
-                    BinaryOp::Gte => quote! { >= },
-                    BinaryOp::Eq => quote! { == },
-                    BinaryOp::Ne => quote! { != },
-                    BinaryOp::Or => quote! { || },
-                    BinaryOp::And => quote! { && },
-                    BinaryOp::BitOr => quote! { | },
-                    BinaryOp::BitAnd => quote! { & },
-                    BinaryOp::BitXor => quote! { ^ },
-                    BinaryOp::Shr => quote! { >> },
-                    BinaryOp::Shl => quote! { << },
-                    BinaryOp::ShrSigned => quote! { >>> },
-                    BinaryOp::Add => quote! { + },
-                    BinaryOp::Sub => quote! { - },
-                    BinaryOp::Mul => quote! { * },
-                    BinaryOp::Div => quote! { / },
-                    BinaryOp::Mod => quote! { % },
-                    BinaryOp::Elvis => unimplemented!(),
-                };
-                quote! {
-                    ((#left) #op (#right))
+            };
+            let value = emit_value(quote! { (*ps_value) }, &type_);
+            quote! {
+                {
+                    let ps_default = #right;
+                    match &#place {
+                        Some(ps_value) => #value,
+                        None => ps_default,
+                    }
                 }
             }
         }
+        Binary(c) => {
+            let mut left = emit_expression(&c.left, ref_resolver);
+            let mut right = emit_expression(&c.right, ref_resolver);
+            let type_ = c.left.get_type().expect("missing type of operand");
+            if let Some(emitted) = integer_type(&type_)
+                .and_then(|scalar| emit_integer_binary(&c.op, scalar, &left, &right))
+            {
+                return emitted;
+            }
+            if matches!(&*type_.resolved(), Type::Enum(_)) {
+                left = quote! { #left.to_repr() };
+                right = quote! { #right.to_repr() };
+            }
+            let op = match c.op {
+                BinaryOp::Lt => quote! { < },
+                BinaryOp::Gt => quote! { > },
+                BinaryOp::Lte => quote! { <= },
+                BinaryOp::Gte => quote! { >= },
+                BinaryOp::Eq => quote! { == },
+                BinaryOp::Ne => quote! { != },
+                BinaryOp::Or => quote! { || },
+                BinaryOp::And => quote! { && },
+                BinaryOp::BitOr => quote! { | },
+                BinaryOp::BitAnd => quote! { & },
+                BinaryOp::BitXor => quote! { ^ },
+                BinaryOp::Shr | BinaryOp::ShrSigned => quote! { >> },
+                BinaryOp::Shl => quote! { << },
+                BinaryOp::Add => quote! { + },
+                BinaryOp::Sub => quote! { - },
+                BinaryOp::Mul => quote! { * },
+                BinaryOp::Div => quote! { / },
+                BinaryOp::Mod => quote! { % },
+                BinaryOp::Elvis => unreachable!(),
+            };
+            quote! {
+                (#left #op #right)
+            }
+        }
         Member(c) => {
             let target = emit_expression(&c.target, ref_resolver);
-            let get_member = format_ident!("{}", c.member.name.to_snake());
+            let get_member = emit_ident(&c.member.name.to_snake());
             quote! {
                 #target.#get_member()
             }
         }
         Unary(c) => {
             let inner = emit_expression(&c.inner, ref_resolver);
-            let op = match c.op {
-                UnaryOp::Negate => quote! { - },
-                UnaryOp::Not => quote! { ! },
-                UnaryOp::BitNot => quote! { ! },
-            };
-            quote! {
-                (#op #inner)
+            match c.op {
+                UnaryOp::Negate => {
+                    let type_ = c.inner.get_type().expect("missing type of operand");
+                    if let Some(scalar) = integer_type(&type_) {
+                        let type_ = format_ident!("{}", scalar.to_string());
+                        quote! {
+                            (<#type_>::checked_neg(#inner).ok_or_else(|| expression_error("arithmetic overflow"))?)
+                        }
+                    } else {
+                        quote! { (-#inner) }
+                    }
+                }
+                UnaryOp::Not | UnaryOp::BitNot => quote! { (!#inner) },
             }
         }
         Cast(c) => {
             let inner = emit_expression(&c.inner, ref_resolver);
-            let target = emit_type_ref(&c.type_);
-            match &*c.inner.get_type().unwrap().resolved() {
-                Type::Enum(_) => {
+            let inner_type = c.inner.get_type().expect("missing type of operand");
+            let inner_type = inner_type.resolved();
+            let inner = match &*inner_type {
+                Type::Enum(_) => quote! { #inner.to_repr() },
+                Type::Bitfield(_) => quote! { #inner.0 },
+                _ => inner,
+            };
+            match &*c.type_.resolved() {
+                target @ (Type::Scalar(_) | Type::F32 | Type::F64) => {
+                    let target = emit_type_ref(target);
                     quote! {
-                        (#inner).to_repr() as #target
+                        (#inner as #target)
                     }
                 }
-                Type::Bitfield(_) => {
+                Type::Enum(EnumType { name, rep, .. })
+                | Type::Bitfield(BitfieldType { name, rep, .. }) => {
+                    let name = emit_ident(&global_name(name));
+                    let rep = emit_ident(&rep.scalar.to_string());
                     quote! {
-                        (#inner).0 as #target
+                        (#name::from_repr(#inner as #rep)?)
                     }
                 }
-                _ => {
+                Type::Foreign(f) if integer_type(&c.type_).is_some() => {
+                    let target = f.obj.type_ref();
                     quote! {
-                        (#inner) as #target
+                        (#inner as #target)
                     }
                 }
+                _ => inner,
             }
         }
         ArrayIndex(c) => {
             let array = emit_expression(&c.array, ref_resolver);
             let index = emit_expression(&c.index, ref_resolver);
-
-            quote! {
-                (#array)[#index]
-            }
+            let element = quote! {
+                (*#array.get(<usize as std::convert::TryFrom<_>>::try_from(#index).unwrap_or(usize::MAX))
+                    .ok_or_else(|| expression_error("array index out of bounds"))?)
+            };
+            emit_value(element, &expr.get_type().expect("missing type of element"))
         }
         EnumAccess(c) => {
-            let enum_name = emit_ident(&c.enum_field.name);
-            let enum_variant_name = emit_ident(&c.variant.name);
-            quote! {
-                #enum_name::#enum_variant_name
-            }
-        }
-        Int(c) => {
-            use ConstInt::*;
-            match c.value {
-                I8(x) => quote! { #x },
-                I16(x) => quote! { #x },
-                I32(x) => quote! { #x },
-                I64(x) => quote! { #x },
-                I128(x) => quote! { #x },
-                U8(x) => quote! { #x },
-                U16(x) => quote! { #x },
-                U32(x) => quote! { #x },
-                U64(x) => quote! { #x },
-                U128(x) => quote! { #x },
-            }
-        }
-        ConstRef(c) => {
-            let c = format_ident!("{}", c.name);
+            let name = emit_ident(&global_name(&c.enum_field.name));
+            let variant = match &*c.enum_field.type_.borrow() {
+                Type::Bitfield(_) => emit_ident(&bitfield_const_name(&c.variant.name)),
+                _ => emit_ident(&c.variant.name),
+            };
             quote! {
-                #c
+                #name::#variant
             }
         }
+        Int(c) => ConstValue::Int(c.value).emit(),
+        ConstRef(c) => match eval_const_expression(&c.value) {
+            Some(value) => value.emit(),
+            None => emit_expression(&c.value, ref_resolver),
+        },
         InputRef(c) => {
-            let c = format_ident!("{}", c.name);
-            quote! {
-                #c
-            }
-        }
-        FieldRef(c) => ref_resolver(c),
-        Str(c) => {
-            let c = Literal::byte_string(&c.content[..]);
-            quote! {
-                #c
-            }
+            let place = emit_parameter(&c.name);
+            emit_value(place, c.type_.unaliased().as_ref())
         }
+        FieldRef(c) => emit_value(ref_resolver(c), &*c.type_.borrow()),
+        Str(c) => ConstValue::String(c.content.clone()).emit(),
         Ternary(c) => {
             let condition = emit_expression(&c.condition, ref_resolver);
             let if_true = emit_expression(&c.if_true, ref_resolver);
             let if_false = emit_expression(&c.if_false, ref_resolver);
 
             quote! {
-                if #condition {
+                (if #condition {
                     #if_true
                 } else {
                     #if_false
-                }
+                })
             }
         }
         Bool(c) => {
@@ -414,7 +555,8 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                     value: quote! {},
                 });
             }
-            c.function.inner.call(&arguments[..])
+            let emitted = c.function.inner.call(&arguments[..]);
+            quote! { (#emitted) }
         }
     }
 }
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index a0d32bf..460f30f 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -101,6 +101,10 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
             fn decode_error<S: AsRef<str>>(value: S) -> anyhow::Error {
                 anyhow::anyhow!("{}", value.as_ref())
             }
+
+            fn expression_error<S: AsRef<str>>(value: S) -> anyhow::Error {
+                anyhow::anyhow!("{}", value.as_ref())
+            }
         }
     } else {
         quote! {
@@ -131,6 +135,10 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
             fn decode_error<S: AsRef<str>>(value: S) -> DecodeError {
                 DecodeError(value.as_ref().to_string())
             }
+
+            fn expression_error<S: AsRef<str>>(value: S) -> Box<dyn Error + Send + Sync + 'static> {
+                value.as_ref().to_string().into()
+            }
         }
     };
 
@@ -155,7 +163,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
                 components.push(generate_bitfield(&name, item, options));
             }
             generic => {
-                let ident = format_ident!("{}", global_name(name));
+                let ident = to_ident(&global_name(name));
                 let type_ref = emit_type_ref(generic);
                 let type_ref = if field.condition.borrow().is_some() {
                     quote! {
@@ -189,7 +197,7 @@ fn ref_resolver(_f: &Arc<Field>) -> TokenStream {
 }
 
 fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
-    let container_ident = format_ident!("{}", global_name(&field.name));
+    let container_ident = to_ident(&global_name(&field.name));
 
     let mut decode_context = coder::decode::Context::new();
     decode_context.decode_field_top(field);
@@ -203,8 +211,8 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     let mut arguments = vec![];
     let mut redefaults = vec![];
     for argument in field.arguments.borrow().iter() {
-        let name = emit_ident(&argument.name);
-        let type_ref = emit_type_ref(&argument.type_);
+        let name = emit_parameter(&argument.name);
+        let type_ref = emit_type_ref(&argument.type_.unaliased());
         let opt_type_ref = if argument.default_value.is_some() {
             quote! { Option<#type_ref> }
         } else {
@@ -212,7 +220,7 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
         };
         arguments.push(quote! {, #name: #opt_type_ref});
         if let Some(default_value) = argument.default_value.as_ref() {
-            let emitted = emit_expression(default_value, &ref_resolver);
+            let emitted = emit_owned_expression(default_value, &ref_resolver);
             redefaults.push(quote! {
                 let #name: #type_ref = if let Some(#name) = #name {
                     #name
@@ -270,8 +278,35 @@ fn prepare_impls(field: &Arc<Field>, options: &CompileOptions) -> TokenStream {
     }
 }
 
+/// identifies an item by its name in the specification, which may be a Rust keyword
+fn to_ident(name: &str) -> proc_macro2::Ident {
+    const KEYWORDS: &[&str] = &[
+        "abstract", "as", "async", "await", "become", "box", "break", "const", "continue", "do",
+        "dyn", "else", "enum", "extern", "false", "final", "fn", "for", "gen", "if", "impl", "in",
+        "let", "loop", "macro", "match", "mod", "move", "mut", "override", "priv", "pub", "ref",
+        "return", "static", "struct", "trait", "true", "try", "type", "typeof", "unsafe",
+        "unsized", "use", "virtual", "where", "while", "yield",
+    ];
+    if KEYWORDS.contains(&name) {
+        return format_ident!("r#{}", name);
+    }
+    match name {
+        // these can not be raw identifiers
+        "self" | "Self" | "super" | "crate" | "_" => format_ident!("{}_", name),
+        name => format_ident!("{}", name),
+    }
+}
+
 fn emit_ident(name: &str) -> TokenStream {
-    let ident = format_ident!("{}", name);
+    let ident = to_ident(name);
+    quote! {
+        #ident
+    }
+}
+
+/// identifies a parameter of a type, apart from everything else in scope of its coders
+fn emit_parameter(name: &str) -> TokenStream {
+    let ident = format_ident!("p_{}", name);
     quote! {
         #ident
     }
@@ -292,6 +327,15 @@ fn emit_owned_register(register: usize) -> TokenStream {
     }
 }
 
+/// emits the argument for a parameter, absent only when the parameter is optional
+fn emit_argument(value: Option<TokenStream>, is_optional: bool) -> TokenStream {
+    match value {
+        Some(value) if is_optional => quote! { Some(#value) },
+        Some(value) => value,
+        None => quote! { None },
+    }
+}
+
 fn flatten<T: IntoIterator<Item = TokenStream>>(iter: T) -> TokenStream {
     let mut out = quote! {};
     out.append_all(iter);
@@ -356,7 +400,7 @@ fn generate_container_fields_recur(
                 );
             }
             _ => {
-                let name_ident = format_ident!("{}", name);
+                let name_ident = to_ident(name);
                 let type_ref = emit_type_ref(&field.type_.borrow());
                 let type_ref = if conditional || field.condition.borrow().is_some() {
                     quote! {
@@ -385,12 +429,12 @@ pub fn generate_container(
     item: &ContainerType,
     options: &CompileOptions,
 ) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(name));
+    let name_ident = to_ident(&global_name(name));
     if item.is_enum.get() {
         let derives = options.emit_enum_derives(&[]);
         let mut fields = vec![];
         for (name, field) in &item.items {
-            let name_ident = format_ident!("{}", name);
+            let name_ident = to_ident(name);
             let type_ = field.type_.borrow();
             let type_ref = match &*type_ {
                 Type::Container(sub_container) => {
@@ -416,7 +460,7 @@ pub fn generate_container(
         let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
             let (default_field, field) =
                 item.items.first().expect("missing enum entry for default");
-            let default_field = format_ident!("{}", default_field);
+            let default_field = to_ident(default_field);
 
             let type_ = field.type_.borrow();
             let default_value = match &*type_ {
@@ -426,7 +470,7 @@ pub fn generate_container(
                         if field.is_pad.get() {
                             continue;
                         }
-                        let name_ident = format_ident!("{}", name);
+                        let name_ident = to_ident(&name);
 
                         fields.push(quote! {
                             #name_ident: Default::default(),
@@ -477,7 +521,7 @@ pub fn generate_container(
 }
 
 pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(name));
+    let name_ident = to_ident(&global_name(name));
     let mut fields = vec![];
     let mut from_repr_matches = vec![];
     let mut to_repr_matches = vec![];
@@ -489,15 +533,17 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let rep = format_ident!("{}", item.rep.scalar.to_string());
 
     for (name, value) in item.items.iter() {
-        let discriminant_ident = format_ident!("{}", name);
+        let discriminant_ident = to_ident(name);
         match value {
             EnumValue::Value(value) => {
                 let value = eval_const_expression(&value.value);
                 if value.is_none() {
                     unimplemented!("could not resolve constant expression");
                 }
-                let value = value.unwrap();
-                let value = value.emit();
+                let value = match value.unwrap() {
+                    ConstValue::Int(x) => x.emit_literal(),
+                    _ => panic!("invalid const value type"),
+                };
                 if has_default {
                     fields.push(quote! {
                         #discriminant_ident,
@@ -540,12 +586,17 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let format_string = format!("illegal enum value '{{}}' for enum '{}'", name);
 
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
-        let (default_field, _) = item.items.first().expect("missing enum entry for default");
-        let default_field = format_ident!("{}", default_field);
+        let (default_field, default_value) =
+            item.items.first().expect("missing enum entry for default");
+        let default_field = to_ident(default_field);
+        let default_value = match default_value {
+            EnumValue::Value(_) => quote! {},
+            EnumValue::Default => quote! { (Default::default()) },
+        };
         quote! {
             impl Default for #name_ident {
                 fn default() -> Self {
-                    Self::#default_field
+                    Self::#default_field #default_value
                 }
             }
         }
@@ -606,20 +657,25 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     }
 }
 
+/// name of the associated constant generated for a member of a bitfield
+fn bitfield_const_name(name: &str) -> String {
+    name.to_snake().to_uppercase()
+}
+
 pub fn generate_bitfield(
     bitfield_name: &str,
     item: &BitfieldType,
     options: &CompileOptions,
 ) -> TokenStream {
-    let name_ident = format_ident!("{}", global_name(bitfield_name));
+    let name_ident = to_ident(&global_name(bitfield_name));
     let mut fields = vec![];
     let mut funcs = vec![];
     let mut all_fields = ConstInt::parse(item.rep.scalar, "0", crate::Span::default()).unwrap();
     // let zero = all_fields;
 
     for (name, cons) in item.items.iter() {
-        let name_ident = format_ident!("{}", name.to_snake().to_uppercase());
-        let get_name = format_ident!("{}", name.to_snake());
+        let name_ident = to_ident(&bitfield_const_name(name));
+        let get_name = to_ident(&name.to_snake());
         let set_name = format_ident!("set_{}", name.to_snake());
         let value = eval_const_expression(&cons.value);
         if value.is_none() {
-- 
2.43.0


From d23fea6522a4ab98256b2d81b571cd97f1052331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:32 +0000
Subject: [PATCH 12/41] fix: evaluate constants without panicking and reject
 constants that cannot be evaluated

---
 .../src/asg/expression/const_int.rs           | 147 +++++++++++++++---
 protospec-build/src/asg/types/mod.rs          |   3 +-
 protospec-build/src/compiler/expr.rs          | 103 ++++++++----
 protospec-build/src/compiler/mod.rs           |   1 +
 .../src/semantics/convert/program/const_.rs   |   6 +
 .../src/semantics/convert/type_/bitfield.rs   |   9 +-
 .../src/semantics/convert/type_/enum_.rs      |  18 ++-
 protospec-build/src/semantics/error.rs        |   6 +
 8 files changed, 234 insertions(+), 59 deletions(-)

diff --git a/protospec-build/src/asg/expression/const_int.rs b/protospec-build/src/asg/expression/const_int.rs
index b08936e..e48103b 100644
--- a/protospec-build/src/asg/expression/const_int.rs
+++ b/protospec-build/src/asg/expression/const_int.rs
@@ -1,3 +1,5 @@
+use std::convert::TryFrom;
+
 use super::*;
 
 #[derive(Clone, Copy, Debug, PartialEq)]
@@ -50,19 +52,55 @@ macro_rules! const_int_biop_map {
     };
 }
 
+macro_rules! const_int_checked {
+    ($e1: expr, $e2: expr, $checked: ident) => {
+        match ($e1, $e2) {
+            (ConstInt::I8(i1), ConstInt::I8(i2)) => i1.$checked(i2).map(ConstInt::I8),
+            (ConstInt::I16(i1), ConstInt::I16(i2)) => i1.$checked(i2).map(ConstInt::I16),
+            (ConstInt::I32(i1), ConstInt::I32(i2)) => i1.$checked(i2).map(ConstInt::I32),
+            (ConstInt::I64(i1), ConstInt::I64(i2)) => i1.$checked(i2).map(ConstInt::I64),
+            (ConstInt::I128(i1), ConstInt::I128(i2)) => i1.$checked(i2).map(ConstInt::I128),
+            (ConstInt::U8(i1), ConstInt::U8(i2)) => i1.$checked(i2).map(ConstInt::U8),
+            (ConstInt::U16(i1), ConstInt::U16(i2)) => i1.$checked(i2).map(ConstInt::U16),
+            (ConstInt::U32(i1), ConstInt::U32(i2)) => i1.$checked(i2).map(ConstInt::U32),
+            (ConstInt::U64(i1), ConstInt::U64(i2)) => i1.$checked(i2).map(ConstInt::U64),
+            (ConstInt::U128(i1), ConstInt::U128(i2)) => i1.$checked(i2).map(ConstInt::U128),
+            _ => None,
+        }
+    };
+}
+
+macro_rules! const_int_shift {
+    ($e1: expr, $by: expr, $checked: ident) => {{
+        let by = $by;
+        match $e1 {
+            ConstInt::I8(i1) => i1.$checked(by).map(ConstInt::I8),
+            ConstInt::I16(i1) => i1.$checked(by).map(ConstInt::I16),
+            ConstInt::I32(i1) => i1.$checked(by).map(ConstInt::I32),
+            ConstInt::I64(i1) => i1.$checked(by).map(ConstInt::I64),
+            ConstInt::I128(i1) => i1.$checked(by).map(ConstInt::I128),
+            ConstInt::U8(i1) => i1.$checked(by).map(ConstInt::U8),
+            ConstInt::U16(i1) => i1.$checked(by).map(ConstInt::U16),
+            ConstInt::U32(i1) => i1.$checked(by).map(ConstInt::U32),
+            ConstInt::U64(i1) => i1.$checked(by).map(ConstInt::U64),
+            ConstInt::U128(i1) => i1.$checked(by).map(ConstInt::U128),
+        }
+    }};
+}
+
 macro_rules! const_int_map {
-    ($e1: expr, $i1: ident, $sop: expr, $usop: expr) => {
+    ($e1: expr, $i1: ident, $op: expr) => {
         match $e1 {
-            ConstInt::I8($i1) => Some(ConstInt::I8($sop)),
-            ConstInt::I16($i1) => Some(ConstInt::I16($sop)),
-            ConstInt::I32($i1) => Some(ConstInt::I32($sop)),
-            ConstInt::I64($i1) => Some(ConstInt::I64($sop)),
-            ConstInt::I128($i1) => Some(ConstInt::I128($sop)),
-            ConstInt::U8($i1) => Some(ConstInt::U8($usop)),
-            ConstInt::U16($i1) => Some(ConstInt::U16($usop)),
-            ConstInt::U32($i1) => Some(ConstInt::U32($usop)),
-            ConstInt::U64($i1) => Some(ConstInt::U64($usop)),
-            ConstInt::U128($i1) => Some(ConstInt::U128($usop)),
+            ConstInt::I8($i1) => Some(ConstInt::I8($op)),
+            ConstInt::I16($i1) => Some(ConstInt::I16($op)),
+            ConstInt::I32($i1) => Some(ConstInt::I32($op)),
+            ConstInt::I64($i1) => Some(ConstInt::I64($op)),
+            ConstInt::I128($i1) => Some(ConstInt::I128($op)),
+            ConstInt::U8($i1) => Some(ConstInt::U8($op)),
+            ConstInt::U16($i1) => Some(ConstInt::U16($op)),
+            ConstInt::U32($i1) => Some(ConstInt::U32($op)),
+            ConstInt::U64($i1) => Some(ConstInt::U64($op)),
+            ConstInt::U128($i1) => Some(ConstInt::U128($op)),
         }
     };
 }
@@ -118,7 +156,7 @@ impl Shr for ConstInt {
     type Output = Option<Self>;
 
     fn shr(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 >> i2)
+        const_int_shift!(self, other.shift_amount()?, checked_shr)
     }
 }
 
@@ -126,7 +164,7 @@ impl Shl for ConstInt {
     type Output = Option<Self>;
 
     fn shl(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 << i2)
+        const_int_shift!(self, other.shift_amount()?, checked_shl)
     }
 }
 
@@ -134,7 +172,7 @@ impl Add for ConstInt {
     type Output = Option<Self>;
 
     fn add(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 + i2)
+        const_int_checked!(self, other, checked_add)
     }
 }
 
@@ -142,7 +180,7 @@ impl Sub for ConstInt {
     type Output = Option<Self>;
 
     fn sub(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 - i2)
+        const_int_checked!(self, other, checked_sub)
     }
 }
 
@@ -150,7 +188,7 @@ impl Mul for ConstInt {
     type Output = Option<Self>;
 
     fn mul(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 * i2)
+        const_int_checked!(self, other, checked_mul)
     }
 }
 
@@ -158,7 +196,7 @@ impl Div for ConstInt {
     type Output = Option<Self>;
 
     fn div(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 / i2)
+        const_int_checked!(self, other, checked_div)
     }
 }
 
@@ -166,16 +204,22 @@ impl Rem for ConstInt {
     type Output = Option<Self>;
 
     fn rem(self, other: Self) -> Self::Output {
-        const_int_biop_map!(self, other, i1, i2, i1 % i2)
+        const_int_checked!(self, other, checked_rem)
     }
 }
 
 impl Neg for ConstInt {
     type Output = Option<Self>;
 
-    #[allow(unreachable_code, unused_variables)]
     fn neg(self) -> Self::Output {
-        const_int_map!(self, i1, -i1, unimplemented!("cannot neg unsigned value"))
+        match self {
+            ConstInt::I8(i1) => i1.checked_neg().map(ConstInt::I8),
+            ConstInt::I16(i1) => i1.checked_neg().map(ConstInt::I16),
+            ConstInt::I32(i1) => i1.checked_neg().map(ConstInt::I32),
+            ConstInt::I64(i1) => i1.checked_neg().map(ConstInt::I64),
+            ConstInt::I128(i1) => i1.checked_neg().map(ConstInt::I128),
+            _ => None,
+        }
     }
 }
 
@@ -183,11 +227,72 @@ impl Not for ConstInt {
     type Output = Option<Self>;
 
     fn not(self) -> Self::Output {
-        const_int_map!(self, i1, i1.not(), i1.not())
+        const_int_map!(self, i1, i1.not())
     }
 }
 
 impl ConstInt {
+    fn shift_amount(self) -> Option<u32> {
+        const_int_op!(self, by, u32::try_from(by).ok())
+    }
+
+    /// shifts right filling with zeroes (logical) or with the sign (arithmetic) for any type
+    pub fn shift_right(self, by: ConstInt, arithmetic: bool) -> Option<Self> {
+        use ScalarType::*;
+        let scalar = self.scalar_type();
+        let through = match (scalar, arithmetic) {
+            (I8 | U8, true) => I8,
+            (I8 | U8, false) => U8,
+            (I16 | U16, true) => I16,
+            (I16 | U16, false) => U16,
+            (I32 | U32, true) => I32,
+            (I32 | U32, false) => U32,
+            (I64 | U64, true) => I64,
+            (I64 | U64, false) => U64,
+            (I128 | U128, true) => I128,
+            (I128 | U128, false) => U128,
+        };
+        Some((self.cast_to(through) >> by)?.cast_to(scalar))
+    }
+
+    pub fn to_f32(self) -> f32 {
+        const_int_op!(self, i1, i1 as f32)
+    }
+
+    pub fn to_f64(self) -> f64 {
+        const_int_op!(self, i1, i1 as f64)
+    }
+
+    pub fn from_f64(value: f64, scalar: ScalarType) -> Self {
+        match scalar {
+            ScalarType::I8 => ConstInt::I8(value as i8),
+            ScalarType::I16 => ConstInt::I16(value as i16),
+            ScalarType::I32 => ConstInt::I32(value as i32),
+            ScalarType::I64 => ConstInt::I64(value as i64),
+            ScalarType::I128 => ConstInt::I128(value as i128),
+            ScalarType::U8 => ConstInt::U8(value as u8),
+            ScalarType::U16 => ConstInt::U16(value as u16),
+            ScalarType::U32 => ConstInt::U32(value as u32),
+            ScalarType::U64 => ConstInt::U64(value as u64),
+            ScalarType::U128 => ConstInt::U128(value as u128),
+        }
+    }
+
+    pub fn scalar_type(&self) -> ScalarType {
+        match self {
+            ConstInt::I8(_) => ScalarType::I8,
+            ConstInt::I16(_) => ScalarType::I16,
+            ConstInt::I32(_) => ScalarType::I32,
+            ConstInt::I64(_) => ScalarType::I64,
+            ConstInt::I128(_) => ScalarType::I128,
+            ConstInt::U8(_) => ScalarType::U8,
+            ConstInt::U16(_) => ScalarType::U16,
+            ConstInt::U32(_) => ScalarType::U32,
+            ConstInt::U64(_) => ScalarType::U64,
+            ConstInt::U128(_) => ScalarType::U128,
+        }
+    }
+
     pub fn cast_to(&self, target: ScalarType) -> Self {
         const_int_op!(
             self,
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index f58faae..53d463a 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -137,7 +137,7 @@ impl Type {
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
-            (Type::F64, Type::F32) => true,
+            (Type::F64, Type::F64) => true,
             (Type::Bool, Type::Bool) => true,
             (_, _) => false,
         }
@@ -166,6 +166,7 @@ impl Type {
                 true
             }
             (Type::Scalar(s1), Type::Scalar(s2)) => s1.scalar.can_implicit_cast_to(&s2.scalar),
+            (Type::F32, Type::F64) => true,
             (_, _) => false,
         }
     }
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 979ca29..f47bb41 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -144,19 +144,37 @@ impl ConstValue {
                     (&#c[..])
                 }
             }
-            ConstValue::F32(s) => quote! { (#s) },
-            ConstValue::F64(s) => quote! { (#s) },
+            ConstValue::F32(s) => {
+                let bits = s.to_bits();
+                quote! { (f32::from_bits(#bits)) }
+            }
+            ConstValue::F64(s) => {
+                let bits = s.to_bits();
+                quote! { (f64::from_bits(#bits)) }
+            }
         }
     }
 
     pub fn cast_to(&self, target: &Type) -> Option<Self> {
-        match (self, target) {
+        let target = target.resolved();
+        match (self, &*target) {
             (ConstValue::Int(i1), Type::Scalar(s)) => Some(ConstValue::Int(i1.cast_to(s.scalar))),
+            (ConstValue::Int(i1), Type::Enum(EnumType { rep, .. }))
+            | (ConstValue::Int(i1), Type::Bitfield(BitfieldType { rep, .. })) => {
+                Some(ConstValue::Int(i1.cast_to(rep.scalar)))
+            }
+            (ConstValue::Int(i1), Type::F32) => Some(ConstValue::F32(i1.to_f32())),
+            (ConstValue::Int(i1), Type::F64) => Some(ConstValue::F64(i1.to_f64())),
+            (ConstValue::F32(i1), Type::Scalar(s)) => {
+                Some(ConstValue::Int(ConstInt::from_f64(*i1 as f64, s.scalar)))
+            }
+            (ConstValue::F64(i1), Type::Scalar(s)) => {
+                Some(ConstValue::Int(ConstInt::from_f64(*i1, s.scalar)))
+            }
             (ConstValue::F32(i1), Type::F32) => Some(ConstValue::F32(*i1 as f32)),
             (ConstValue::F64(i1), Type::F32) => Some(ConstValue::F32(*i1 as f32)),
             (ConstValue::F32(i1), Type::F64) => Some(ConstValue::F64(*i1 as f64)),
             (ConstValue::F64(i1), Type::F64) => Some(ConstValue::F64(*i1 as f64)),
-            //todo: int <-> float casting
             _ => None,
         }
     }
@@ -181,6 +199,11 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
     match expr {
         Binary(c) => {
             let left = eval_const_expression(&c.left)?;
+            match (&c.op, left.to_bool()) {
+                (BinaryOp::Or, Some(true)) => return Some(left),
+                (BinaryOp::And, Some(false)) => return Some(left),
+                _ => (),
+            }
             let right = eval_const_expression(&c.right)?;
             Some(match c.op {
                 BinaryOp::Lt => ConstValue::Bool(left < right),
@@ -191,20 +214,32 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                 BinaryOp::Ne => ConstValue::Bool(left != right),
                 BinaryOp::Or => ConstValue::Bool(left.to_bool()? || right.to_bool()?),
                 BinaryOp::And => ConstValue::Bool(left.to_bool()? && right.to_bool()?),
+                BinaryOp::BitOr | BinaryOp::BitAnd | BinaryOp::BitXor
+                    if left.to_bool().is_some() =>
+                {
+                    let (left, right) = (left.to_bool()?, right.to_bool()?);
+                    ConstValue::Bool(match c.op {
+                        BinaryOp::BitOr => left | right,
+                        BinaryOp::BitAnd => left & right,
+                        _ => left ^ right,
+                    })
+                }
                 BinaryOp::BitOr => ConstValue::Int((left.to_int()? | right.to_int()?)?),
                 BinaryOp::BitAnd => ConstValue::Int((left.to_int()? & right.to_int()?)?),
                 BinaryOp::BitXor => ConstValue::Int((left.to_int()? ^ right.to_int()?)?),
-                BinaryOp::Shr => ConstValue::Int((left.to_int()? >> right.to_int()?)?), // todo: cast signedness to ensure proper shr is used in rust
+                BinaryOp::Shr => {
+                    ConstValue::Int(left.to_int()?.shift_right(right.to_int()?, false)?)
+                }
                 BinaryOp::Shl => ConstValue::Int((left.to_int()? << right.to_int()?)?),
-                BinaryOp::ShrSigned => ConstValue::Int((left.to_int()? >> right.to_int()?)?),
-                BinaryOp::Add => ConstValue::Int((left.to_int()? + right.to_int()?)?),
-                BinaryOp::Sub => ConstValue::Int((left.to_int()? - right.to_int()?)?),
-                BinaryOp::Mul => ConstValue::Int((left.to_int()? * right.to_int()?)?),
-                BinaryOp::Div => ConstValue::Int((left.to_int()? / right.to_int()?)?),
-                BinaryOp::Mod => ConstValue::Int((left.to_int()? % right.to_int()?)?),
-                BinaryOp::Elvis => {
-                    unimplemented!("cannot use elvis operator (?:) in const context")
+                BinaryOp::ShrSigned => {
+                    ConstValue::Int(left.to_int()?.shift_right(right.to_int()?, true)?)
                 }
+                BinaryOp::Add => (left + right)?,
+                BinaryOp::Sub => (left - right)?,
+                BinaryOp::Mul => (left * right)?,
+                BinaryOp::Div => (left / right)?,
+                BinaryOp::Mod => (left % right)?,
+                BinaryOp::Elvis => return None,
             })
         }
         Member(c) => {
@@ -215,13 +250,13 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
                     // todo: find better way to get same-typed zero
                     Some(ConstValue::Bool((target & member)? != (member - member)?))
                 }
-                _ => unimplemented!("can not use member exprs on nonint targets"),
+                _ => None,
             }
         }
         Unary(c) => {
             let inner = eval_const_expression(&c.inner)?;
             Some(match c.op {
-                UnaryOp::Negate => ConstValue::Int((-inner.to_int()?)?),
+                UnaryOp::Negate => (-inner)?,
                 UnaryOp::Not => ConstValue::Bool(!inner.to_bool()?),
                 UnaryOp::BitNot => ConstValue::Int((!inner.to_int()?)?),
             })
@@ -230,34 +265,34 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             let inner = eval_const_expression(&c.inner)?;
             inner.cast_to(&c.type_)
         }
-        ArrayIndex(_) => {
-            unimplemented!("can not use array indexing in const")
+        ArrayIndex(c) => {
+            match (
+                eval_const_expression(&c.array)?,
+                eval_const_expression(&c.index)?,
+            ) {
+                (ConstValue::String(array), ConstValue::Int(index)) => match index.cast_to(ScalarType::U128) {
+                    ConstInt::U128(index) if index < array.len() as u128 => {
+                        Some(ConstValue::Int(ConstInt::U8(array[index as usize])))
+                    }
+                    _ => None,
+                },
+                _ => None,
+            }
         }
+        InputRef(_) | FieldRef(_) | Call(_) => None,
         EnumAccess(c) => eval_const_expression(&c.variant.value),
         Int(c) => Some(ConstValue::Int(c.value)),
         ConstRef(c) => eval_const_expression(&c.value),
-        InputRef(_) => {
-            unimplemented!("cannot access input in constant");
-        }
-        FieldRef(_) => {
-            unimplemented!("cannot access field in constant");
-        }
         Str(c) => Some(ConstValue::String(c.content.clone())),
         Ternary(c) => {
             let condition = eval_const_expression(&c.condition)?;
-            let if_true = eval_const_expression(&c.if_true)?;
-            let if_false = eval_const_expression(&c.if_false)?;
-
             match condition {
-                ConstValue::Bool(true) => Some(if_true),
-                ConstValue::Bool(false) => Some(if_false),
+                ConstValue::Bool(true) => eval_const_expression(&c.if_true),
+                ConstValue::Bool(false) => eval_const_expression(&c.if_false),
                 _ => None,
             }
         }
         Bool(c) => Some(ConstValue::Bool(*c)),
-        Call(_) => {
-            unimplemented!("cannot call ffi in constant");
-        }
     }
 }
 
@@ -511,8 +546,10 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         Int(c) => ConstValue::Int(c.value).emit(),
         ConstRef(c) => match eval_const_expression(&c.value) {
-            Some(value) => value.emit(),
-            None => emit_expression(&c.value, ref_resolver),
+            Some(value) if !matches!(&*c.type_.resolved(), Type::Enum(_) | Type::Bitfield(_)) => {
+                value.emit()
+            }
+            _ => emit_expression(&c.value, ref_resolver),
         },
         InputRef(c) => {
             let place = emit_parameter(&c.name);
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 460f30f..3f40a19 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -3,6 +3,7 @@ use crate::coder;
 use crate::{BinaryOp, UnaryOp};
 use case::CaseExt;
 use expr::*;
+pub(crate) use expr::{eval_const_expression, ConstValue};
 use proc_macro2::TokenStream;
 use quote::TokenStreamExt;
 use quote::{format_ident, quote};
diff --git a/protospec-build/src/semantics/convert/program/const_.rs b/protospec-build/src/semantics/convert/program/const_.rs
index 55157eb..c5f63df 100644
--- a/protospec-build/src/semantics/convert/program/const_.rs
+++ b/protospec-build/src/semantics/convert/program/const_.rs
@@ -27,6 +27,12 @@ impl Scope {
             _ => (),
         }
         let value = Scope::convert_expr(&scope, &const_.value, type_.clone().into())?;
+        if crate::compiler::eval_const_expression(&value).is_none() {
+            return Err(AsgError::InvalidConst(
+                const_.name.name.clone(),
+                const_.span,
+            ));
+        }
         program.borrow_mut().consts.insert(
             const_.name.name.clone(),
             Arc::new(Const {
diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 75c8174..9cd1114 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -17,7 +17,6 @@ impl Scope {
                     prior.span,
                 ));
             }
-            //todo: static eval here
             let cons = Arc::new(Const {
                 name: name.name.clone(),
                 span: type_.span,
@@ -31,7 +30,9 @@ impl Scope {
                     None => Expression::Binary(BinaryExpression {
                         op: crate::BinaryOp::Shl,
                         left: Box::new(Expression::ConstRef(
-                            last_defined_item.as_ref().unwrap().clone(),
+                            last_defined_item.clone().ok_or_else(|| {
+                                AsgError::MissingFirstValue(name.name.clone(), name.span)
+                            })?,
                         )),
                         right: Box::new(Expression::Int(Int {
                             value: ConstInt::parse(
@@ -46,6 +47,10 @@ impl Scope {
                     }),
                 },
             });
+            match crate::compiler::eval_const_expression(&cons.value) {
+                Some(crate::compiler::ConstValue::Int(_)) => (),
+                _ => return Err(AsgError::InvalidConst(name.name.clone(), name.span)),
+            }
             if item.is_some() {
                 last_defined_item = Some(cons.clone());
                 undefined_counter = 1;
diff --git a/protospec-build/src/semantics/convert/type_/enum_.rs b/protospec-build/src/semantics/convert/type_/enum_.rs
index e252a49..27aefb8 100644
--- a/protospec-build/src/semantics/convert/type_/enum_.rs
+++ b/protospec-build/src/semantics/convert/type_/enum_.rs
@@ -10,6 +10,7 @@ impl Scope {
         let mut last_defined_item = None::<Arc<Const>>;
         let mut undefined_counter = 0usize;
         let mut has_default = false;
+        let mut values: Vec<(String, ConstInt)> = vec![];
         for (name, item) in type_.items.iter() {
             if let Some(_) = items.get(&name.name) {
                 return Err(AsgError::EnumVariantRedefinition(
@@ -23,7 +24,6 @@ impl Scope {
                     name.span,
                 ));
             }
-            //todo: static eval here
             let value = match item {
                 ast::EnumValue::Default => {
                     has_default = true;
@@ -40,7 +40,9 @@ impl Scope {
                         ast::EnumValue::None => Expression::Binary(BinaryExpression {
                             op: crate::BinaryOp::Add,
                             left: Box::new(Expression::ConstRef(
-                                last_defined_item.as_ref().unwrap().clone(),
+                                last_defined_item.clone().ok_or_else(|| {
+                                    AsgError::MissingFirstValue(name.name.clone(), name.span)
+                                })?,
                             )),
                             right: Box::new(Expression::Int(Int {
                                 value: ConstInt::parse(
@@ -54,6 +56,18 @@ impl Scope {
                             span: type_.span,
                         }),
                     };
+                    let value_int = match crate::compiler::eval_const_expression(&value) {
+                        Some(crate::compiler::ConstValue::Int(x)) => x,
+                        _ => return Err(AsgError::InvalidConst(name.name.clone(), name.span)),
+                    };
+                    if let Some((prior, _)) = values.iter().find(|(_, x)| *x == value_int) {
+                        return Err(AsgError::EnumValueRedefinition(
+                            name.name.clone(),
+                            name.span,
+                            prior.clone(),
+                        ));
+                    }
+                    values.push((name.name.clone(), value_int));
                     EnumValue::Value(Arc::new(Const {
                         name: name.name.clone(),
                         span: type_.span,
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 92b5aa2..1674030 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -85,6 +85,12 @@ pub enum AsgError {
     TypeNotAutoCompatible(String, Span),
     #[error("referenced bitfield member `{0}` does not exist @ {1}")]
     BitfieldMemberUndefined(String, Span),
+    #[error("cannot evaluate constant '{0}' @ {1}")]
+    InvalidConst(String, Span),
+    #[error("value of '{0}' @ {1} is already in use by '{2}'")]
+    EnumValueRedefinition(String, Span, String),
+    #[error("first item '{0}' @ {1} must have a value")]
+    MissingFirstValue(String, Span),
     #[error("unknown: {0}")]
     Unknown(#[from] crate::Error),
 }
-- 
2.43.0


From 66bd80ce0e057609d9673d36c79fbaa7ee3f25c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 13/41] fix: decode conditional fields of conditional
 containers as a single option

---
 protospec-build/src/coder/decode/field.rs       | 11 +++++++++--
 protospec-build/src/coder/decode/instruction.rs |  2 +-
 protospec-build/src/coder/decode/mod.rs         |  8 +++++++-
 protospec-build/src/compiler/decoder.rs         | 10 +++++++---
 4 files changed, 24 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/decode/field.rs b/protospec-build/src/coder/decode/field.rs
index 865df93..88585d2 100644
--- a/protospec-build/src/coder/decode/field.rs
+++ b/protospec-build/src/coder/decode/field.rs
@@ -59,11 +59,18 @@ impl Context {
         if let Some(field_condition) = field_condition {
             let drained = self.instructions.drain(start..).collect();
             if emitted.is_empty() {
-                panic!("no emitted values from conditional");
+                // a container of nothing but pads
+                self.instructions
+                    .push(Instruction::ConditionalPredicate(field_condition, drained));
+                return emitted;
             }
+            let interior = emitted
+                .iter()
+                .map(|r| (*r, !self.optional_registers.insert(*r)))
+                .collect();
             self.instructions.push(Instruction::Conditional(
                 emitted.clone(),
-                emitted.clone(),
+                interior,
                 field_condition,
                 drained,
             ));
diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index 2b98945..c88a609 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -61,7 +61,7 @@ pub enum Instruction {
         Vec<Instruction>,
     ),
     LoopOutput(usize, usize), // output handle, item
-    Conditional(Vec<usize>, Vec<usize>, usize, Vec<Instruction>), // target, interior_register, condition, if_true
+    Conditional(Vec<usize>, Vec<(usize, bool)>, usize, Vec<Instruction>), // target, (interior_register, is_optional), condition, if_true
     ConditionalPredicate(usize, Vec<Instruction>), // target, interior_register, condition, if_true
     /// returns from decoder early
     Return(usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index d8421bc..63d34e6 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,6 +1,9 @@
 use super::*;
 use crate::asg::*;
-use std::{collections::HashMap, sync::Arc};
+use std::{
+    collections::{HashMap, HashSet},
+    sync::Arc,
+};
 
 mod instruction;
 pub use instruction::*;
@@ -20,6 +23,8 @@ pub struct Context {
     pub field_register_map: HashMap<String, usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
+    /// registers that hold an option of the value of their field
+    pub optional_registers: HashSet<usize>,
 }
 
 impl Context {
@@ -37,6 +42,7 @@ impl Context {
             instructions: vec![],
             field_register_map: HashMap::new(),
             register_count: 0,
+            optional_registers: HashSet::new(),
         }
     }
 
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 82132ea..ab9f522 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -517,10 +517,14 @@ fn prepare_decode(
                 let interiors = interior
                     .iter()
                     .copied()
-                    .map(|r| {
+                    .map(|(r, is_optional)| {
                         let r = emit_register(r);
-                        quote! {
-                            Some(#r)
+                        if is_optional {
+                            r
+                        } else {
+                            quote! {
+                                Some(#r)
+                            }
                         }
                     })
                     .collect::<Vec<_>>();
-- 
2.43.0


From 8b3c38095321fa3c7951aa47f6ecc166ee769232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:59 +0000
Subject: [PATCH 14/41] fix: accept arguments for optional parameters that
 follow required ones

---
 .../src/semantics/convert/ffi_arguments.rs      | 17 ++++++++---------
 .../src/semantics/convert/type_/type_ref.rs     | 15 +++++++--------
 2 files changed, 15 insertions(+), 17 deletions(-)

diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 7cfed2f..55528fa 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -3,20 +3,12 @@ use super::*;
 impl Scope {
     pub fn convert_ffi_arguments(
         self_: &Arc<RefCell<Scope>>,
-        name: &str,
+        _name: &str,
         span: Span,
         arguments: &[ast::Expression],
         type_arguments: &[FFIArgument],
     ) -> AsgResult<Vec<Expression>> {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
-        // optionals MUST be at the end
-        if min_arg_count < arguments.len()
-            && type_arguments[type_arguments.len() - min_arg_count..]
-                .iter()
-                .any(|x| !x.optional)
-        {
-            unimplemented!("cannot have ffi transform with required arguments after optional arguments for '{}'", name);
-        }
         if arguments.len() < min_arg_count || arguments.len() > type_arguments.len() {
             return Err(AsgError::InvalidFFIArgumentCount(
                 min_arg_count,
@@ -25,6 +17,13 @@ impl Scope {
                 span,
             ));
         }
+        // only optionals at the end can be left out
+        if type_arguments[arguments.len()..]
+            .iter()
+            .any(|x| !x.optional)
+        {
+            return Err(AsgError::InvalidTypeArgumentOrder(span));
+        }
         let arguments = arguments
             .iter()
             .zip(type_arguments.iter())
diff --git a/protospec-build/src/semantics/convert/type_/type_ref.rs b/protospec-build/src/semantics/convert/type_/type_ref.rs
index 04269d0..46829b0 100644
--- a/protospec-build/src/semantics/convert/type_/type_ref.rs
+++ b/protospec-build/src/semantics/convert/type_/type_ref.rs
@@ -11,14 +11,6 @@ impl Scope {
                 .iter()
                 .filter(|x| x.default_value.is_none())
                 .count();
-            // optionals MUST be at the end
-            if min_arg_count < type_.arguments.len()
-                && target_args[target_args.len() - min_arg_count..]
-                    .iter()
-                    .any(|x| x.default_value.is_some())
-            {
-                return Err(AsgError::InvalidTypeArgumentOrder(type_.span));
-            }
             if type_.arguments.len() < min_arg_count || type_.arguments.len() > target_args.len() {
                 return Err(AsgError::InvalidTypeArgumentCount(
                     min_arg_count,
@@ -27,6 +19,13 @@ impl Scope {
                     type_.span,
                 ));
             }
+            // only optionals at the end can be left out
+            if target_args[type_.arguments.len()..]
+                .iter()
+                .any(|x| x.default_value.is_none())
+            {
+                return Err(AsgError::InvalidTypeArgumentOrder(type_.span));
+            }
             let arguments = type_
                 .arguments
                 .iter()
-- 
2.43.0


From 83bb73a1095f60c09c00eb9479502ab71bbdf803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:44 +0000
Subject: [PATCH 15/41] fix: convert aliases before the types that use them and
 reject types of infinite size

---
 .../src/semantics/convert/program/mod.rs      | 36 ++++++++++++++-----
 protospec-build/src/semantics/error.rs        |  2 ++
 2 files changed, 30 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 0c15ee2..fecfc6f 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -10,6 +10,8 @@ mod field;
 
 mod const_;
 
+mod order;
+
 impl Program {
     pub fn from_ast<'a, T: ImportResolver + 'static>(
         ast: &ast::Program,
@@ -111,20 +113,38 @@ impl Program {
                 }
             }
 
-            // convert arguments
-            let mut sub_scopes = vec![];
-            for (type_, field) in &return_fields {
-                sub_scopes.push(Scope::convert_ast_field_arguments(
+            // convert arguments, and the aliases that the types of fields and arguments depend on
+            let declarations: Vec<_> = return_fields.iter().map(|(type_, _)| *type_).collect();
+            let mut sub_scopes = IndexMap::new();
+            for i in order::dependency_order(&declarations[..]) {
+                let (type_, field) = &return_fields[i];
+                let sub_scope = Scope::convert_ast_field_arguments(
                     &scope,
                     &field,
                     Some(&type_.arguments[..]),
-                )?);
+                )?;
+                if order::is_alias(type_) {
+                    Scope::convert_ast_field_mid(&sub_scope, &type_.value, &field)?;
+                    if order::is_endless_alias(field) {
+                        return Err(AsgError::InfiniteType(field.name.clone(), field.span));
+                    }
+                    Scope::convert_ast_field_end(&sub_scope, &type_.value, &field)?;
+                }
+                sub_scopes.insert(i, sub_scope);
             }
 
             // convert rest
-            for ((type_, field), sub_scope) in return_fields.into_iter().zip(sub_scopes.iter()) {
-                Scope::convert_ast_field_mid(sub_scope, &type_.value, &field)?;
-                Scope::convert_ast_field_end(sub_scope, &type_.value, &field)?;
+            for (i, (type_, field)) in return_fields.iter().enumerate() {
+                if !order::is_alias(type_) {
+                    let sub_scope = &sub_scopes[&i];
+                    Scope::convert_ast_field_mid(sub_scope, &type_.value, &field)?;
+                    Scope::convert_ast_field_end(sub_scope, &type_.value, &field)?;
+                }
+            }
+            for (_, field) in &return_fields {
+                if order::is_infinite(field) {
+                    return Err(AsgError::InfiniteType(field.name.clone(), field.span));
+                }
             }
         }
 
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 1674030..20f7efc 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -91,6 +91,8 @@ pub enum AsgError {
     EnumValueRedefinition(String, Span, String),
     #[error("first item '{0}' @ {1} must have a value")]
     MissingFirstValue(String, Span),
+    #[error("type '{0}' @ {1} always contains itself")]
+    InfiniteType(String, Span),
     #[error("unknown: {0}")]
     Unknown(#[from] crate::Error),
 }
-- 
2.43.0


From 812116257d8f770e4e93287cba77302e3607f048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:50 +0000
Subject: [PATCH 16/41] fix: identify containers by their declaration and find
 every recursive type

---
 protospec-build/src/asg/types/mod.rs          | 21 +++++++++++++++----
 protospec-build/src/semantics/partial_type.rs |  5 ++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 53d463a..78fc097 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -120,7 +120,23 @@ impl Type {
         Cow::Borrowed(self)
     }
 
+    /// the declaration of a container, which is a type of its own whatever it contains
+    pub fn container(&self) -> Option<Arc<Field>> {
+        match self {
+            Type::Ref(x) => match &*x.target.type_.borrow() {
+                Type::Container(_) => Some(x.target.clone()),
+                type_ => type_.container(),
+            },
+            _ => None,
+        }
+    }
+
     pub fn assignable_from(&self, other: &Type) -> bool {
+        match (self.container(), other.container()) {
+            (None, None) => (),
+            (Some(c1), Some(c2)) => return Arc::ptr_eq(&c1, &c2),
+            _ => return false,
+        }
         match (self.resolved().as_ref(), other.resolved().as_ref()) {
             (Type::Ref(field1), Type::Ref(field2)) => field1
                 .target
@@ -131,7 +147,6 @@ impl Type {
             (x, Type::Ref(field)) => x.assignable_from(&field.target.type_.borrow()),
             (t1, Type::Foreign(f2)) => f2.obj.assignable_to(t1),
             (Type::Foreign(f1), t2) => f1.obj.assignable_from(t2),
-            (Type::Container(c1), Type::Container(c2)) => c1 == c2,
             (Type::Enum(e1), Type::Enum(e2)) => e1 == e2,
             (Type::Bitfield(e1), Type::Bitfield(e2)) => e1 == e2,
             (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
@@ -210,9 +225,7 @@ impl Type {
             }
             Type::Container(interior) => {
                 for (_, field) in &interior.items {
-                    if target.insert(field.name.clone()) {
-                        field.get_indirect_contained_fields(target);
-                    }
+                    field.get_indirect_contained_fields(target);
                 }
             }
             Type::Ref(call) => {
diff --git a/protospec-build/src/semantics/partial_type.rs b/protospec-build/src/semantics/partial_type.rs
index b9261ae..d2b8314 100644
--- a/protospec-build/src/semantics/partial_type.rs
+++ b/protospec-build/src/semantics/partial_type.rs
@@ -19,7 +19,7 @@ impl PartialType {
     pub fn assignable_from(&self, other: &Type) -> bool {
         match (self, other.resolved().as_ref()) {
             (t1, Type::Foreign(f2)) => f2.obj.assignable_to_partial(t1),
-            (PartialType::Type(x), other) => x.assignable_from(other),
+            (PartialType::Type(x), _) => x.assignable_from(other),
             (PartialType::Scalar(PartialScalarType::Some(x)), other) => {
                 Type::Scalar((*x).into()).assignable_from(other)
             }
@@ -86,6 +86,9 @@ impl fmt::Display for PartialType {
 impl Into<PartialType> for Type {
     fn into(self) -> PartialType {
         match self {
+            Type::Ref(x) if matches!(&*x.target.type_.borrow(), Type::Container(_)) => {
+                PartialType::Type(Type::Ref(x))
+            }
             Type::Ref(x) => x.target.type_.borrow().clone().into(),
             Type::Scalar(x) => PartialType::Scalar(PartialScalarType::Some(x.scalar)),
             Type::Array(x) => PartialType::Array(Some(Box::new(x.element.as_ref().clone().into()))),
-- 
2.43.0


From 359d08b4095b05919e3e2f89d0956f2f6e85424e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:13 +0000
Subject: [PATCH 17/41] fix: add the conversion-order module that 83bb73a uses

---
 .../src/semantics/convert/program/order.rs    | 162 ++++++++++++++++++
 1 file changed, 162 insertions(+)
 create mode 100644 protospec-build/src/semantics/convert/program/order.rs

diff --git a/protospec-build/src/semantics/convert/program/order.rs b/protospec-build/src/semantics/convert/program/order.rs
new file mode 100644
index 0000000..2b3537f
--- /dev/null
+++ b/protospec-build/src/semantics/convert/program/order.rs
@@ -0,0 +1,162 @@
+use crate::TypeDeclaration;
+
+use super::*;
+
+/// orders type declarations so that the aliases that one refers to precede it
+pub(super) fn dependency_order(declarations: &[&TypeDeclaration]) -> Vec<usize> {
+    let indices: IndexMap<&str, usize> = declarations
+        .iter()
+        .enumerate()
+        .map(|(i, declaration)| (&*declaration.name.name, i))
+        .collect();
+    let mut order = vec![];
+    let mut is_visited = vec![false; declarations.len()];
+    for root in 0..declarations.len() {
+        // depth first, without recursion as there may be any number of aliases
+        let mut stack = vec![(root, false)];
+        while let Some((i, is_done)) = stack.pop() {
+            if is_done {
+                order.push(i);
+                continue;
+            }
+            if is_visited[i] {
+                continue;
+            }
+            is_visited[i] = true;
+            stack.push((i, true));
+            let mut names = vec![];
+            scan_declaration(declarations[i], &mut names);
+            stack.extend(
+                names
+                    .iter()
+                    .rev()
+                    .filter_map(|name| indices.get(name))
+                    .map(|i| (*i, false)),
+            );
+        }
+    }
+    order
+}
+
+pub(super) fn is_alias(declaration: &TypeDeclaration) -> bool {
+    declaration.value.type_.raw_type.is_inlinable()
+}
+
+fn scan_declaration<'a>(declaration: &'a TypeDeclaration, names: &mut Vec<&'a str>) {
+    for argument in &declaration.arguments {
+        scan_type(&argument.type_, names);
+        if let Some(value) = &argument.default_value {
+            scan_expression(value, names);
+        }
+    }
+    if !is_alias(declaration) {
+        return;
+    }
+    scan_type(&declaration.value.type_, names);
+    if let Some(condition) = &declaration.value.condition {
+        scan_expression(condition, names);
+    }
+    for transform in &declaration.value.transforms {
+        if let Some(condition) = &transform.conditional {
+            scan_expression(condition, names);
+        }
+        for argument in &transform.arguments {
+            scan_expression(argument, names);
+        }
+    }
+}
+
+fn scan_type<'a>(type_: &'a ast::Type, names: &mut Vec<&'a str>) {
+    match &type_.raw_type {
+        ast::RawType::Ref(x) => {
+            names.push(&x.name.name);
+            for argument in &x.arguments {
+                scan_expression(argument, names);
+            }
+        }
+        ast::RawType::Array(x) => {
+            scan_type(&x.interior_type, names);
+            if let Some(length) = &x.length.inner {
+                scan_expression(length, names);
+            }
+        }
+        _ => (),
+    }
+}
+
+fn scan_expression<'a>(expression: &'a ast::Expression, names: &mut Vec<&'a str>) {
+    match expression {
+        ast::Expression::Binary(x) => {
+            scan_expression(&x.left, names);
+            scan_expression(&x.right, names);
+        }
+        ast::Expression::Unary(x) => scan_expression(&x.inner, names),
+        ast::Expression::Cast(x) => {
+            scan_expression(&x.inner, names);
+            scan_type(&x.type_, names);
+        }
+        ast::Expression::ArrayIndex(x) => {
+            scan_expression(&x.array, names);
+            scan_expression(&x.index, names);
+        }
+        ast::Expression::Ternary(x) => {
+            scan_expression(&x.condition, names);
+            scan_expression(&x.if_true, names);
+            scan_expression(&x.if_false, names);
+        }
+        ast::Expression::Call(x) => {
+            for argument in &x.arguments {
+                scan_expression(argument, names);
+            }
+        }
+        ast::Expression::Member(x) => scan_expression(&x.target, names),
+        ast::Expression::EnumAccess(_)
+        | ast::Expression::Int(_)
+        | ast::Expression::Ref(_)
+        | ast::Expression::Str(_)
+        | ast::Expression::Bool(_) => (),
+    }
+}
+
+/// whether an alias refers to itself other than through a container
+pub(super) fn is_endless_alias(alias: &Arc<Field>) -> bool {
+    let mut type_ = alias.type_.borrow().clone();
+    loop {
+        type_ = match type_ {
+            Type::Ref(x) if Arc::ptr_eq(&x.target, alias) => return true,
+            Type::Ref(x) => x.target.type_.borrow().clone(),
+            Type::Array(x) => *x.element,
+            _ => return false,
+        };
+    }
+}
+
+/// whether every value of a type holds a value of the type itself
+pub(super) fn is_infinite(field: &Arc<Field>) -> bool {
+    let mut visited: Vec<Arc<Field>> = vec![];
+    let mut pending = vec![];
+    scan_contained(&field.type_.borrow(), &mut pending);
+    while let Some(target) = pending.pop() {
+        if Arc::ptr_eq(&target, field) {
+            return true;
+        }
+        if visited.iter().any(|x| Arc::ptr_eq(x, &target)) {
+            continue;
+        }
+        scan_contained(&target.type_.borrow(), &mut pending);
+        visited.push(target);
+    }
+    false
+}
+
+fn scan_contained(type_: &Type, targets: &mut Vec<Arc<Field>>) {
+    match type_ {
+        Type::Ref(x) => targets.push(x.target.clone()),
+        Type::Container(x) => {
+            for (_, field) in x.items.iter() {
+                scan_contained(&field.type_.borrow(), targets);
+            }
+        }
+        _ => (),
+    }
+}
-- 
2.43.0


From c0b45d5a378e8ed7059bf958ac9a08a117809370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:36 +0000
Subject: [PATCH 18/41] fix: reject declarations that no code can be generated
 for

---
 protospec-build/src/compiler/mod.rs           |  9 +++++++
 .../src/semantics/convert/field.rs            | 24 +++++++++++++++++
 .../src/semantics/convert/type_/bitfield.rs   | 27 +++++++++++++++++++
 .../src/semantics/convert/type_/container.rs  |  8 +++++-
 protospec-build/src/semantics/error.rs        |  6 +++++
 5 files changed, 73 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 3f40a19..26eaa39 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -663,6 +663,15 @@ fn bitfield_const_name(name: &str) -> String {
     name.to_snake().to_uppercase()
 }
 
+/// names of everything that is generated for a member of a bitfield
+pub(crate) fn bitfield_item_names(name: &str) -> [String; 3] {
+    [
+        bitfield_const_name(name),
+        name.to_snake(),
+        format!("set_{}", name.to_snake()),
+    ]
+}
+
 pub fn generate_bitfield(
     bitfield_name: &str,
     item: &BitfieldType,
diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 9acb1cd..c74cdb8 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -21,6 +21,19 @@ impl Scope {
                     &argument.type_.raw_type,
                     TypePurpose::Expression,
                 )?;
+                if matches!(&target_type, Type::Container(_)) {
+                    return Err(AsgError::IllegalComplexTypeDefinition(argument.span));
+                }
+                if sub_scope
+                    .borrow()
+                    .declared_inputs
+                    .contains_key(&argument.name.name)
+                {
+                    return Err(AsgError::ArgumentRedefinition(
+                        argument.name.name.clone(),
+                        argument.name.span,
+                    ));
+                }
                 sub_scope.borrow_mut().declared_inputs.insert(
                     argument.name.name.clone(),
                     Arc::new(Input {
@@ -68,6 +81,17 @@ impl Scope {
             None
         };
 
+        if into.toplevel
+            && condition.is_some()
+            && matches!(
+                &asg_type,
+                Type::Container(_) | Type::Enum(_) | Type::Bitfield(_)
+            )
+        {
+            // there is no value for when the condition does not hold
+            return Err(AsgError::IllegalTopLevelCondition(field.span));
+        }
+
         let mut transforms = vec![];
         for ast::Transform {
             name,
diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 9cd1114..5e60846 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -1,5 +1,18 @@
 use super::*;
 
+/// items of every generated bitfield
+const BITFIELD_ITEMS: &[&str] = &[
+    "ALL",
+    "ZERO",
+    "from_repr",
+    "to_be_bytes",
+    "to_le_bytes",
+    "decode_sync",
+    "encode_sync",
+    "decode_async",
+    "encode_async",
+];
+
 impl Scope {
     pub(super) fn convert_bitfield_type(
         self_: &Arc<RefCell<Scope>>,
@@ -9,6 +22,11 @@ impl Scope {
         let mut items: IndexMap<String, Arc<Const>> = IndexMap::new();
         let mut last_defined_item = None::<Arc<Const>>;
         let mut undefined_counter = 0usize;
+        // names of the items that are generated for the bitfield
+        let mut generated: IndexMap<String, Span> = BITFIELD_ITEMS
+            .iter()
+            .map(|x| (x.to_string(), type_.span))
+            .collect();
         for (name, item) in type_.items.iter() {
             if let Some(prior) = items.get(&name.name) {
                 return Err(AsgError::BitfieldFlagRedefinition(
@@ -17,6 +35,15 @@ impl Scope {
                     prior.span,
                 ));
             }
+            for generated_name in crate::compiler::bitfield_item_names(&name.name) {
+                if let Some(prior) = generated.insert(generated_name, name.span) {
+                    return Err(AsgError::BitfieldFlagRedefinition(
+                        name.name.clone(),
+                        name.span,
+                        prior,
+                    ));
+                }
+            }
             let cons = Arc::new(Const {
                 name: name.name.clone(),
                 span: type_.span,
diff --git a/protospec-build/src/semantics/convert/type_/container.rs b/protospec-build/src/semantics/convert/type_/container.rs
index 8691dec..479e84f 100644
--- a/protospec-build/src/semantics/convert/type_/container.rs
+++ b/protospec-build/src/semantics/convert/type_/container.rs
@@ -94,7 +94,8 @@ impl Scope {
                     if is_enum {
                         return Err(AsgError::EnumContainerPad(*expr.span()));
                     }
-                    let name = format!("_pad{}", pad_count);
+                    // not an identifier, so that no field can have the same name
+                    let name = format!(".pad{}", pad_count);
                     pad_count += 1;
 
                     let len = Scope::convert_expr(
@@ -126,6 +127,11 @@ impl Scope {
                 }
             }
         }
+        if let (true, true, TypePurpose::TypeDefinition(name)) =
+            (is_enum, items.is_empty(), &purpose)
+        {
+            return Err(AsgError::EmptyEnumContainer(name.clone(), type_.span));
+        }
         for (out_field, sub_scope, ast_field) in field_scopes {
             Scope::convert_ast_field_end(&sub_scope, &ast_field, &out_field)?;
         }
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 20f7efc..55c665f 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -93,6 +93,12 @@ pub enum AsgError {
     MissingFirstValue(String, Span),
     #[error("type '{0}' @ {1} always contains itself")]
     InfiniteType(String, Span),
+    #[error("argument name already in use: '{0}' @ {1}")]
+    ArgumentRedefinition(String, Span),
+    #[error("containers, enums, and bitfields cannot have conditions at top level @ {0}")]
+    IllegalTopLevelCondition(Span),
+    #[error("enum container '{0}' must have a field @ {1}")]
+    EmptyEnumContainer(String, Span),
     #[error("unknown: {0}")]
     Unknown(#[from] crate::Error),
 }
-- 
2.43.0


From 605fc507ea790f57022ed11cc8e1fab1f50aba76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:57 +0000
Subject: [PATCH 19/41] fix: encode the containers that blen is called on
 before the fields that are calculated from them

---
 protospec-build/src/asg/expression/mod.rs     |  37 +++
 protospec-build/src/asg/field.rs              |  30 ++
 protospec-build/src/asg/types/container.rs    | 118 +++++++
 protospec-build/src/asg/types/mod.rs          |  26 ++
 protospec-build/src/coder/encode/container.rs | 300 +++++++-----------
 protospec-build/src/coder/encode/field.rs     |   1 -
 .../src/coder/encode/instruction.rs           |  23 +-
 protospec-build/src/coder/encode/mod.rs       |  11 +-
 protospec-build/src/compiler/encoder.rs       |  41 ++-
 protospec-build/src/compiler/expr.rs          |  18 +-
 .../semantics/convert/program/calculated.rs   |  64 ++++
 .../src/semantics/convert/program/mod.rs      |   3 +
 protospec-build/src/semantics/error.rs        |   4 +
 13 files changed, 475 insertions(+), 201 deletions(-)
 create mode 100644 protospec-build/src/semantics/convert/program/calculated.rs

diff --git a/protospec-build/src/asg/expression/mod.rs b/protospec-build/src/asg/expression/mod.rs
index 3b4022e..d3eadea 100644
--- a/protospec-build/src/asg/expression/mod.rs
+++ b/protospec-build/src/asg/expression/mod.rs
@@ -87,6 +87,43 @@ impl AsgExpression for Expression {
     }
 }
 
+impl Expression {
+    /// visits an expression and all the expressions it is made of
+    pub fn visit(&self, visitor: &mut dyn FnMut(&Expression)) {
+        visitor(self);
+        match self {
+            Expression::Binary(expr) => {
+                expr.left.visit(visitor);
+                expr.right.visit(visitor);
+            }
+            Expression::Unary(expr) => expr.inner.visit(visitor),
+            Expression::Cast(expr) => expr.inner.visit(visitor),
+            Expression::ArrayIndex(expr) => {
+                expr.array.visit(visitor);
+                expr.index.visit(visitor);
+            }
+            Expression::Ternary(expr) => {
+                expr.condition.visit(visitor);
+                expr.if_true.visit(visitor);
+                expr.if_false.visit(visitor);
+            }
+            Expression::Call(expr) => {
+                for argument in &expr.arguments {
+                    argument.visit(visitor);
+                }
+            }
+            Expression::Member(expr) => expr.target.visit(visitor),
+            Expression::EnumAccess(_)
+            | Expression::Int(_)
+            | Expression::ConstRef(_)
+            | Expression::InputRef(_)
+            | Expression::FieldRef(_)
+            | Expression::Str(_)
+            | Expression::Bool(_) => (),
+        }
+    }
+}
+
 impl fmt::Debug for Expression {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         match self {
diff --git a/protospec-build/src/asg/field.rs b/protospec-build/src/asg/field.rs
index 6573977..241412f 100644
--- a/protospec-build/src/asg/field.rs
+++ b/protospec-build/src/asg/field.rs
@@ -36,6 +36,36 @@ impl Field {
     }
 }
 
+impl Field {
+    /// visits all expressions of the condition, the transforms, and the calculated value
+    pub fn visit_attributes(&self, visitor: &mut dyn FnMut(&Expression)) {
+        for expression in [&self.condition, &self.calculated] {
+            if let Some(expression) = &*expression.borrow() {
+                expression.visit(visitor);
+            }
+        }
+        for transform in self.transforms.borrow().iter() {
+            if let Some(condition) = &transform.condition {
+                condition.visit(visitor);
+            }
+            for argument in &transform.arguments {
+                argument.visit(visitor);
+            }
+        }
+    }
+
+    /// visits all expressions in a field and its type
+    pub fn visit(&self, visitor: &mut dyn FnMut(&Expression)) {
+        self.visit_attributes(visitor);
+        for argument in self.arguments.borrow().iter() {
+            if let Some(default_value) = &argument.default_value {
+                default_value.visit(visitor);
+            }
+        }
+        self.type_.borrow().visit(visitor);
+    }
+}
+
 impl fmt::Display for Field {
     fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
         write!(f, "{}: {}", self.name, self.type_.borrow())?;
diff --git a/protospec-build/src/asg/types/container.rs b/protospec-build/src/asg/types/container.rs
index f86be02..2cb5d23 100644
--- a/protospec-build/src/asg/types/container.rs
+++ b/protospec-build/src/asg/types/container.rs
@@ -18,3 +18,121 @@ impl ContainerType {
             })
     }
 }
+
+/// the progress of ordering a field among the fields it depends on
+enum Order {
+    Pending,
+    Done,
+}
+
+impl ContainerType {
+    /// the name of the sibling whose encoded length a call is about, if it is a call to `blen`
+    pub fn blen_target<'a>(&self, expression: &'a Expression) -> Option<&'a str> {
+        match expression {
+            Expression::Call(call) if call.function.name == "blen" => {
+                match call.arguments.first() {
+                    Some(Expression::FieldRef(field)) => {
+                        let sibling = self.items.get(&field.name)?;
+                        let is_delimited = matches!(
+                            &*field.type_.borrow(),
+                            Type::Container(container) if container.length.is_some()
+                        );
+                        if Arc::ptr_eq(sibling, field) && is_delimited {
+                            Some(&field.name)
+                        } else {
+                            None
+                        }
+                    }
+                    _ => None,
+                }
+            }
+            _ => None,
+        }
+    }
+
+    /// the names of all siblings whose encoded length is used by a calculated field
+    pub fn blen_targets(&self) -> IndexSet<String> {
+        let mut targets = IndexSet::new();
+        for field in self.items.values() {
+            if let Some(calculated) = &*field.calculated.borrow() {
+                calculated.visit(&mut |expression| {
+                    if let Some(target) = self.blen_target(expression) {
+                        targets.insert(target.to_string());
+                    }
+                });
+            }
+        }
+        targets
+    }
+
+    /// the calculated fields and the fields that `blen` is called on, all of them after the ones that they depend on,
+    /// or a field that depends on itself
+    pub fn calculation_order(&self) -> Result<Vec<Arc<Field>>, Arc<Field>> {
+        let targets = self.blen_targets();
+        let mut states = IndexMap::new();
+        let mut order = vec![];
+        for name in self.items.keys() {
+            self.order_calculation(name, &targets, &mut states, &mut order)?;
+        }
+        Ok(order)
+    }
+
+    fn order_calculation(
+        &self,
+        name: &str,
+        targets: &IndexSet<String>,
+        states: &mut IndexMap<String, Order>,
+        order: &mut Vec<Arc<Field>>,
+    ) -> Result<(), Arc<Field>> {
+        let field = &self.items[name];
+        let is_target = targets.contains(name);
+        if field.calculated.borrow().is_none() && !is_target {
+            return Ok(());
+        }
+        match states.get(name) {
+            Some(Order::Done) => return Ok(()),
+            Some(Order::Pending) => return Err(field.clone()),
+            None => (),
+        }
+        states.insert(name.to_string(), Order::Pending);
+
+        let mut dependencies = IndexSet::new();
+        let mut depend = |expression: &Expression| {
+            if let Some(target) = self.blen_target(expression) {
+                dependencies.insert(target.to_string());
+            } else if let Expression::FieldRef(reference) = expression {
+                match self.items.get(&reference.name) {
+                    Some(sibling)
+                        if Arc::ptr_eq(sibling, reference)
+                            && sibling.calculated.borrow().is_some() =>
+                    {
+                        dependencies.insert(reference.name.clone());
+                    }
+                    _ => (),
+                }
+            }
+        };
+        if is_target {
+            // the length is what is to be found out, it is compared with the contents afterwards
+            field.visit_attributes(&mut depend);
+            if let Type::Container(container) = &*field.type_.borrow() {
+                for item in container.items.values() {
+                    item.visit(&mut depend);
+                }
+            }
+        } else {
+            for expression in [&field.condition, &field.calculated] {
+                if let Some(expression) = &*expression.borrow() {
+                    expression.visit(&mut depend);
+                }
+            }
+        }
+        for dependency in dependencies {
+            self.order_calculation(&dependency, targets, states, order)?;
+        }
+
+        states.insert(name.to_string(), Order::Done);
+        order.push(field.clone());
+        Ok(())
+    }
+}
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 78fc097..91712b4 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -218,6 +218,32 @@ impl Type {
         }
     }
 
+    /// visits all expressions in a type, but not those of the types it references
+    pub fn visit(&self, visitor: &mut dyn FnMut(&Expression)) {
+        match self {
+            Type::Array(array) => {
+                array.element.visit(visitor);
+                if let Some(length) = &array.length.value {
+                    length.visit(visitor);
+                }
+            }
+            Type::Container(container) => {
+                if let Some(length) = &container.length {
+                    length.visit(visitor);
+                }
+                for field in container.items.values() {
+                    field.visit(visitor);
+                }
+            }
+            Type::Ref(reference) => {
+                for argument in &reference.arguments {
+                    argument.visit(visitor);
+                }
+            }
+            _ => (),
+        }
+    }
+
     pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
         match self {
             Type::Array(interior) => {
diff --git a/protospec-build/src/coder/encode/container.rs b/protospec-build/src/coder/encode/container.rs
index efe976e..1efaf15 100644
--- a/protospec-build/src/coder/encode/container.rs
+++ b/protospec-build/src/coder/encode/container.rs
@@ -1,12 +1,28 @@
-use std::{
-    cell::{Cell, RefCell},
-    collections::{HashMap, HashSet},
-};
+use std::cell::{Cell, RefCell};
 
 use crate::Span;
 
 use super::*;
 
+/// registers of a container that is encoded before it is written
+struct EncodedAhead {
+    /// complete encoding
+    buffer: usize,
+    /// length of the contents, 0 if there are none
+    len: usize,
+}
+
+fn blen_name(target: &str) -> String {
+    format!("__blen_{}", target)
+}
+
+fn container_len_message(field: &Arc<Field>) -> String {
+    format!(
+        "length of container {} does not match its contents",
+        field.name
+    )
+}
+
 impl Context {
     fn encode_container_refs(&mut self, container: &ContainerType, source: usize) {
         for (name, field) in container.flatten_view() {
@@ -55,51 +71,76 @@ impl Context {
         }
     }
 
-    fn encode_container_calculated(&mut self, container: &ContainerType) {
-        for (name, field) in container.flatten_view() {
-            let calculated = field.calculated.borrow();
-            if let Some(calculated) = &*calculated {
-                if !calculated.blen_calls().is_empty() {
-                    continue;
-                }
-                let calculated_register = self.alloc_register();
-                self.instructions.push(Instruction::EvalCalculated(
-                    calculated_register,
-                    calculated.clone(),
-                    field.type_.borrow().clone(),
-                ));
+    /// evaluates the calculated fields, for which the contents of the containers that `blen` is called on are encoded ahead of time
+    fn encode_container_calculated(
+        &mut self,
+        container: &ContainerType,
+        source: usize,
+        conditional: bool,
+    ) -> IndexMap<String, EncodedAhead> {
+        let targets = container.blen_targets();
+        let mut encoded = IndexMap::new();
+        let order = container
+            .calculation_order()
+            .unwrap_or_else(|field| panic!("calculated field depends on itself: {}", field.name));
+        for field in order {
+            if targets.contains(&field.name) {
+                let buffer = self.alloc_register();
+                let len = self.alloc_register();
+                self.instructions.push(Instruction::AllocDynBuf(buffer));
+                self.instructions.push(Instruction::AllocLen(len));
+                self.pending_autos.insert(Arc::as_ptr(&field), len);
+                self.encode_field(Target::Buf(buffer), source, &field, conditional);
+                self.pending_autos.swap_remove(&Arc::as_ptr(&field));
                 self.instructions
-                    .push(Instruction::SetRef(name, calculated_register));
+                    .push(Instruction::SetRef(blen_name(&field.name), len));
+                encoded.insert(field.name.clone(), EncodedAhead { buffer, len });
+                continue;
             }
+            let mut calculated = match &*field.calculated.borrow() {
+                Some(calculated) => calculated.clone(),
+                None => continue,
+            };
+            calculated.rewrite_blen_calls(container);
+            let condition = self.encode_field_condition(&field);
+            let calculated_register = self.alloc_register();
+            self.instructions.push(Instruction::EvalCalculated(
+                calculated_register,
+                calculated,
+                field.type_.borrow().clone(),
+                condition,
+            ));
+            self.instructions
+                .push(Instruction::SetRef(field.name.clone(), calculated_register));
         }
+        encoded
     }
 
-    fn eval_blen_expr(
-        &mut self,
-        blens: &[String],
-        field: &Arc<Field>,
-        calculated: &Expression,
-    ) -> usize {
-        let mut blen_map = HashMap::new();
-        for target_name in blens {
-            let register = *self.resolved_autos.get(target_name).unwrap();
-            let blen_name = format!("__blen_{}", target_name);
-            blen_map.insert(target_name.clone(), blen_name.clone());
+    /// compares the length of a container that has been encoded ahead of time with what it has to be
+    fn check_encoded_ahead(&mut self, field: &Arc<Field>, len: usize) {
+        let length = match &*field.type_.borrow() {
+            Type::Container(container) => container.length.clone(),
+            _ => None,
+        };
+        let length = match length {
+            Some(length) => length,
+            None => return,
+        };
+        let condition = self.encode_field_condition(field);
+        let start = self.instructions.len();
+        let expected_len = self.alloc_register();
+        self.instructions
+            .push(Instruction::Eval(expected_len, length));
+        self.instructions.push(Instruction::CheckEncodedLen(
+            expected_len,
+            len,
+            container_len_message(field),
+        ));
+        if let Some(condition) = condition {
+            let drained = self.instructions.drain(start..).collect();
             self.instructions
-                .push(Instruction::SetRef(blen_name, register));
+                .push(Instruction::Conditional(condition, drained, vec![]));
         }
-        let mut calculated = calculated.clone();
-        calculated.rewrite_blen_calls(&blen_map);
-
-        let calculated_register = self.alloc_register();
-        self.instructions.push(Instruction::EvalCalculated(
-            calculated_register,
-            calculated,
-            field.type_.borrow().clone(),
-        ));
-        self.instructions
-            .push(Instruction::SetRef(field.name.clone(), calculated_register));
-        calculated_register
     }
 
     fn encode_container_items(
@@ -109,67 +150,20 @@ impl Context {
         source: usize,
         conditional: bool,
     ) {
-        let mut auto_targets = vec![];
+        let encoded = self.encode_container_calculated(container, source, conditional);
         for (name, child) in container.items.iter() {
-            let calculated = child.calculated.borrow();
-            if let Some(calculated) = &*calculated {
-                let blen_calls = calculated.blen_calls();
-                if !blen_calls.is_empty() {
-                    let mut all_resolved = true;
-                    for target in &blen_calls {
-                        if !self.resolved_autos.contains_key(target) {
-                            all_resolved = false;
-                            self.pending_autos.insert(target.clone());
-                        }
-                    }
-                    if all_resolved {
-                        self.eval_blen_expr(&blen_calls[..], child, calculated);
-                    } else {
-                        let new_target = self.alloc_register();
-                        self.instructions.push(Instruction::AllocDynBuf(new_target));
-                        auto_targets.push((new_target, child));
-                        continue;
-                    }
-                }
-            }
-            let (real_target, _) = auto_targets
-                .last()
-                .map(|x| (Target::Buf(x.0), Some(&x.1)))
-                .unwrap_or_else(|| (buf_target, None));
-            if matches!(&*child.type_.borrow(), Type::Container(_)) || child.is_pad.get() {
-                self.encode_field(real_target, source, child, conditional);
+            if let Some(encoded) = encoded.get(name) {
+                self.check_encoded_ahead(child, encoded.len);
+                self.instructions
+                    .push(Instruction::EmitBuf(buf_target, encoded.buffer));
+            } else if matches!(&*child.type_.borrow(), Type::Container(_)) || child.is_pad.get() {
+                self.encode_field(buf_target, source, child, conditional);
             } else {
                 let resolved = self.alloc_register();
                 self.instructions
                     .push(Instruction::GetRef(resolved, name.clone()));
-                self.encode_field(real_target, resolved, child, conditional);
+                self.encode_field(buf_target, resolved, child, conditional);
             }
-
-            for (i, (auto_target, auto_field)) in auto_targets.clone().into_iter().enumerate().rev()
-            {
-                let calculated = auto_field.calculated.borrow();
-                let calculated = calculated.as_ref().unwrap();
-                let blen_calls = calculated.blen_calls();
-                if blen_calls
-                    .iter()
-                    .all(|x| self.resolved_autos.get(x).is_some())
-                {
-                    let calculated_register =
-                        self.eval_blen_expr(&blen_calls[..], auto_field, calculated);
-
-                    auto_targets.remove(i);
-                    let target = auto_targets
-                        .get(i)
-                        .map(|(target, _)| Target::Buf(*target))
-                        .unwrap_or(buf_target);
-                    self.encode_field(target, calculated_register, auto_field, conditional);
-                    self.instructions
-                        .push(Instruction::EmitBuf(target, auto_target));
-                }
-            }
-        }
-        for (_, auto_field) in auto_targets {
-            panic!("unused auto field: {}", auto_field.name);
         }
     }
 
@@ -182,11 +176,12 @@ impl Context {
         conditional: bool,
     ) {
         let mut expected_len = None;
+        let encoded_len = self.pending_autos.get(&Arc::as_ptr(field)).copied();
         let buf_target = if let Some(length) = &type_.length {
             //todo: use limited stream
             let buf = self.alloc_register();
-            // we avoid cyclic dependency during encoding by ignoring container length constraint if we're a blen-target
-            if !self.pending_autos.contains(&field.name) {
+            // the length constraint of a blen-target may depend on our length, so it is checked afterwards
+            if encoded_len.is_none() {
                 let len_register = self.alloc_register();
                 self.instructions
                     .push(Instruction::Eval(len_register, length.clone()));
@@ -233,7 +228,6 @@ impl Context {
                         for (name, register, _) in unwrapped {
                             self.instructions.push(Instruction::SetRef(name, register));
                         }
-                        self.encode_container_calculated(type_);
                         self.encode_field_unconditional(buf_target, source, child, false, false);
                         self.instructions.push(Instruction::Break);
                     }
@@ -267,7 +261,6 @@ impl Context {
         } else {
             if field.toplevel {
                 self.encode_container_refs(type_, source);
-                self.encode_container_calculated(type_);
             } else {
                 self.nullcheck_container_refs(type_, conditional);
             }
@@ -279,17 +272,14 @@ impl Context {
                 self.instructions.push(Instruction::CheckLen(
                     expected_len,
                     buf_target.unwrap_buf(),
-                    format!("length of container {} does not match its contents", field.name),
+                    container_len_message(field),
                 ));
             }
-            if self.pending_autos.remove(&field.name) {
-                let target = self.alloc_register();
-                self.instructions.push(Instruction::GetLen(
-                    target,
+            if let Some(encoded_len) = encoded_len {
+                self.instructions.push(Instruction::StoreLen(
+                    encoded_len,
                     buf_target.unwrap_buf(),
-                    Some(ScalarType::U64),
                 ));
-                self.resolved_autos.insert(field.name.clone(), target);
             }
             self.instructions
                 .push(Instruction::EmitBuf(target, buf_target.unwrap_buf()));
@@ -298,26 +288,26 @@ impl Context {
 }
 
 impl Expression {
-    fn rewrite_blen_calls(&mut self, map: &HashMap<String, String>) {
+    fn rewrite_blen_calls(&mut self, container: &ContainerType) {
         match self {
             Expression::Binary(expr) => {
-                expr.left.rewrite_blen_calls(map);
-                expr.right.rewrite_blen_calls(map);
+                expr.left.rewrite_blen_calls(container);
+                expr.right.rewrite_blen_calls(container);
             }
             Expression::Unary(expr) => {
-                expr.inner.rewrite_blen_calls(map);
+                expr.inner.rewrite_blen_calls(container);
             }
             Expression::Cast(expr) => {
-                expr.inner.rewrite_blen_calls(map);
+                expr.inner.rewrite_blen_calls(container);
             }
             Expression::ArrayIndex(expr) => {
-                expr.array.rewrite_blen_calls(map);
-                expr.index.rewrite_blen_calls(map);
+                expr.array.rewrite_blen_calls(container);
+                expr.index.rewrite_blen_calls(container);
             }
             Expression::Ternary(expr) => {
-                expr.condition.rewrite_blen_calls(map);
-                expr.if_true.rewrite_blen_calls(map);
-                expr.if_false.rewrite_blen_calls(map);
+                expr.condition.rewrite_blen_calls(container);
+                expr.if_true.rewrite_blen_calls(container);
+                expr.if_false.rewrite_blen_calls(container);
             }
             Expression::EnumAccess(_) => (),
             Expression::Int(_) => (),
@@ -326,19 +316,11 @@ impl Expression {
             Expression::FieldRef(_) => (),
             Expression::Str(_) => (),
             Expression::Bool(_) => (),
-            Expression::Call(expr) => {
-                for expr in expr.arguments.iter_mut() {
-                    expr.rewrite_blen_calls(map);
-                }
-                if expr.function.name == "blen" {
-                    let target = expr.arguments.first().unwrap();
-                    let name = match target {
-                        Expression::FieldRef(f) => f.name.clone(),
-                        _ => panic!("invalid blen target, expected field ref"), // todo: better error message
-                    };
-                    let new_name = map.get(&name).expect("malformed blen map");
+            Expression::Call(_) => {
+                let target = container.blen_target(self).map(|target| blen_name(target));
+                if let Some(name) = target {
                     *self = Expression::FieldRef(Arc::new(Field {
-                        name: new_name.clone(),
+                        name,
                         arguments: RefCell::new(vec![]),
                         span: Span::default(),
                         type_: RefCell::new(Type::Scalar(ScalarType::U64.into())),
@@ -349,62 +331,14 @@ impl Expression {
                         is_maybe_cyclical: Cell::new(false),
                         is_pad: Cell::new(false),
                     }));
+                } else if let Expression::Call(expr) = self {
+                    for expr in expr.arguments.iter_mut() {
+                        expr.rewrite_blen_calls(container);
+                    }
                 }
             }
             Expression::Member(expr) => {
-                expr.target.rewrite_blen_calls(map);
-            }
-        }
-    }
-
-    fn blen_calls(&self) -> Vec<String> {
-        let mut out = HashSet::new();
-        self.extract_magic_blen_calls(&mut out);
-        out.into_iter().collect()
-    }
-
-    fn extract_magic_blen_calls(&self, output: &mut HashSet<String>) {
-        match self {
-            Expression::Binary(expr) => {
-                expr.left.extract_magic_blen_calls(output);
-                expr.right.extract_magic_blen_calls(output);
-            }
-            Expression::Unary(expr) => {
-                expr.inner.extract_magic_blen_calls(output);
-            }
-            Expression::Cast(expr) => {
-                expr.inner.extract_magic_blen_calls(output);
-            }
-            Expression::ArrayIndex(expr) => {
-                expr.array.extract_magic_blen_calls(output);
-                expr.index.extract_magic_blen_calls(output);
-            }
-            Expression::Ternary(expr) => {
-                expr.condition.extract_magic_blen_calls(output);
-                expr.if_true.extract_magic_blen_calls(output);
-                expr.if_false.extract_magic_blen_calls(output);
-            }
-            Expression::EnumAccess(_) => (),
-            Expression::Int(_) => (),
-            Expression::ConstRef(_) => (),
-            Expression::InputRef(_) => (),
-            Expression::FieldRef(_) => (),
-            Expression::Str(_) => (),
-            Expression::Bool(_) => (),
-            Expression::Call(expr) => {
-                for expr in &expr.arguments {
-                    expr.extract_magic_blen_calls(output);
-                }
-                if expr.function.name == "blen" {
-                    let target = expr.arguments.first().unwrap();
-                    output.insert(match target {
-                        Expression::FieldRef(f) => f.name.clone(),
-                        _ => panic!("invalid blen target, expected field ref"), // todo: better error message
-                    });
-                }
-            }
-            Expression::Member(expr) => {
-                expr.target.extract_magic_blen_calls(output);
+                expr.target.rewrite_blen_calls(container);
             }
         }
     }
diff --git a/protospec-build/src/coder/encode/field.rs b/protospec-build/src/coder/encode/field.rs
index c2d8b4a..2ea4123 100644
--- a/protospec-build/src/coder/encode/field.rs
+++ b/protospec-build/src/coder/encode/field.rs
@@ -113,7 +113,6 @@ impl Context {
 
         let source = if self_conditional
             && !is_psuedocontainer
-            && !field.calculated.borrow().is_some()
             && !field.is_pad.get()
         {
             let real_source = self.alloc_register();
diff --git a/protospec-build/src/coder/encode/instruction.rs b/protospec-build/src/coder/encode/instruction.rs
index 1af22b5..e717d83 100644
--- a/protospec-build/src/coder/encode/instruction.rs
+++ b/protospec-build/src/coder/encode/instruction.rs
@@ -11,8 +11,8 @@ pub enum Instruction {
     Eval(usize, Expression),
     /// dest, argument if present, is optional
     EvalArgument(usize, Option<Expression>, bool),
-    /// dest, expression, type of the calculated field
-    EvalCalculated(usize, Expression, Type),
+    /// dest, expression, type of the calculated field, condition if any
+    EvalCalculated(usize, Expression, Type, Option<usize>),
     /// dest, source, ops
     GetField(usize, usize, Vec<FieldRef>),
     /// dest, ref name
@@ -59,6 +59,10 @@ pub enum Instruction {
     Loop(usize, usize, Vec<Instruction>),
     /// len target, buffer, cast_type
     GetLen(usize, usize, Option<ScalarType>),
+    /// register of a length that is 0 until it is stored
+    AllocLen(usize),
+    /// len target, buffer
+    StoreLen(usize, usize),
     /// original, checked, is_copyable, message
     NullCheck(usize, usize, bool, String),
     /// condition, if_true, if_false
@@ -69,6 +73,8 @@ pub enum Instruction {
     UnwrapEnumStruct(String, String, usize, Vec<(String, usize, bool)>, String),
     /// expected length, source, message
     CheckLen(usize, usize, String),
+    /// expected length, length, message
+    CheckEncodedLen(usize, usize, String),
     /// message
     Error(String),
     /// instructions
@@ -93,9 +99,11 @@ impl fmt::Display for Instruction {
             Instruction::EvalArgument(dest, expression, is_optional) => {
                 write!(f, "EvalArgument({}, {:?}, {})", dest, expression, is_optional)
             }
-            Instruction::EvalCalculated(dest, expression, type_) => {
-                write!(f, "EvalCalculated({}, {:?}, {})", dest, expression, type_)
-            }
+            Instruction::EvalCalculated(dest, expression, type_, condition) => write!(
+                f,
+                "EvalCalculated({}, {:?}, {}, {:?})",
+                dest, expression, type_, condition
+            ),
             Instruction::GetField(dest, source, ops) => {
                 write!(f, "GetField({}, {}, {:?})", dest, source, ops)
             }
@@ -233,6 +241,11 @@ impl fmt::Display for Instruction {
             Instruction::CheckLen(len, source, message) => {
                 write!(f, "CheckLen({}, {}, '{}')", len, source, message)
             }
+            Instruction::AllocLen(len) => write!(f, "AllocLen({})", len),
+            Instruction::StoreLen(len, buffer) => write!(f, "StoreLen({}, {})", len, buffer),
+            Instruction::CheckEncodedLen(expected, len, message) => {
+                write!(f, "CheckEncodedLen({}, {}, '{}')", expected, len, message)
+            }
             Instruction::Error(message) => write!(f, "Error('{}')", message),
             Instruction::BreakBlock(instructions) => {
                 write!(f, "BreakBlock()")?;
diff --git a/protospec-build/src/coder/encode/mod.rs b/protospec-build/src/coder/encode/mod.rs
index c0a2268..c700bfa 100644
--- a/protospec-build/src/coder/encode/mod.rs
+++ b/protospec-build/src/coder/encode/mod.rs
@@ -1,4 +1,4 @@
-use indexmap::{IndexMap, IndexSet};
+use indexmap::IndexMap;
 
 use super::*;
 use crate::asg::*;
@@ -23,10 +23,8 @@ pub use var_ref::*;
 pub struct Context {
     pub register_count: usize,
     pub instructions: Vec<Instruction>,
-    // map of resolved field name -> register
-    pub resolved_autos: IndexMap<String, usize>,
-    // set of pending field name
-    pub pending_autos: IndexSet<String>,
+    // map of fields that blen is called on and that are being encoded -> register of their length
+    pub pending_autos: IndexMap<*const Field, usize>,
 }
 
 impl Context {
@@ -42,8 +40,7 @@ impl Context {
         Context {
             instructions: vec![],
             register_count: 0,
-            resolved_autos: IndexMap::new(),
-            pending_autos: IndexSet::new(),
+            pending_autos: IndexMap::new(),
         }
     }
 
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index f463917..5dda8df 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -75,13 +75,30 @@ impl EncoderContext {
                         let #target = #value;
                     });
                 }
-                Instruction::EvalCalculated(target, expr, type_) => {
+                Instruction::EvalCalculated(target, expr, type_, None) => {
                     let target = emit_register(*target);
                     let value = emit_calculated(expr, type_, &|f| self.emit_field_place(f));
                     statements.push(quote! {
                         let #target = #value;
                     });
                 }
+                Instruction::EvalCalculated(target, expr, type_, Some(condition)) => {
+                    let target = emit_register(*target);
+                    let condition = emit_register(*condition);
+                    let value = emit_owned_calculated(expr, type_, &|f| self.emit_field_place(f));
+                    let ref_token = if type_.copyable() {
+                        quote! {}
+                    } else {
+                        quote! { & }
+                    };
+                    statements.push(quote! {
+                        let #target = #ref_token(if #condition {
+                            Some(#value)
+                        } else {
+                            None
+                        });
+                    });
+                }
                 Instruction::GetField(target, source, op) => {
                     let target = emit_register(*target);
                     let mut source = emit_register(*source);
@@ -478,6 +495,28 @@ impl EncoderContext {
                         }
                     });
                 }
+                Instruction::AllocLen(len) => {
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        let mut #len = 0u64;
+                    });
+                }
+                Instruction::StoreLen(len, source) => {
+                    let len = emit_register(*len);
+                    let source = emit_register(*source);
+                    statements.push(quote! {
+                        #len = #source.len() as u64;
+                    });
+                }
+                Instruction::CheckEncodedLen(expected, len, message) => {
+                    let expected = emit_register(*expected);
+                    let len = emit_register(*len);
+                    statements.push(quote! {
+                        if <u64 as std::convert::TryFrom<_>>::try_from(#expected)? != #len {
+                            return Err(encode_error(#message).into());
+                        }
+                    });
+                }
                 Instruction::Error(message) => {
                     statements.push(quote! {
                         return Err(encode_error(#message).into());
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index f47bb41..a0d2ffd 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -345,6 +345,19 @@ pub fn emit_calculated<F: Fn(&Arc<Field>) -> TokenStream>(
     expr: &Expression,
     type_: &Type,
     ref_resolver: &F,
+) -> TokenStream {
+    if type_.aliased().is_none() {
+        return emit_expression(expr, ref_resolver);
+    }
+    let value = emit_owned_calculated(expr, type_, ref_resolver);
+    quote! { &#value }
+}
+
+/// a value of the type of a calculated field that does not borrow from anything
+pub fn emit_owned_calculated<F: Fn(&Arc<Field>) -> TokenStream>(
+    expr: &Expression,
+    type_: &Type,
+    ref_resolver: &F,
 ) -> TokenStream {
     let mut names = vec![];
     let mut type_ = type_.clone();
@@ -354,14 +367,11 @@ pub fn emit_calculated<F: Fn(&Arc<Field>) -> TokenStream>(
         }
         type_ = interior;
     }
-    if names.is_empty() {
-        return emit_expression(expr, ref_resolver);
-    }
     let mut value = emit_owned_expression(expr, ref_resolver);
     for name in names.iter().rev() {
         value = quote! { #name(#value) };
     }
-    quote! { &#value }
+    value
 }
 
 fn emit_integer_binary(
diff --git a/protospec-build/src/semantics/convert/program/calculated.rs b/protospec-build/src/semantics/convert/program/calculated.rs
new file mode 100644
index 0000000..134256a
--- /dev/null
+++ b/protospec-build/src/semantics/convert/program/calculated.rs
@@ -0,0 +1,64 @@
+use super::*;
+
+fn find_blen(found: &mut Option<Span>, expression: &Expression) {
+    match expression {
+        Expression::Call(call) if call.function.name == "blen" && found.is_none() => {
+            *found = Some(call.span)
+        }
+        _ => (),
+    }
+}
+
+fn reject(found: Option<Span>) -> AsgResult<()> {
+    match found {
+        Some(span) => Err(AsgError::InvalidBLen(span)),
+        None => Ok(()),
+    }
+}
+
+/// rejects fields that are calculated from themselves, and lengths of encodings that cannot be known
+pub(super) fn check_calculations(field: &Field, parent: Option<&ContainerType>) -> AsgResult<()> {
+    let mut found = None;
+    if let Some(condition) = &*field.condition.borrow() {
+        condition.visit(&mut |expression| find_blen(&mut found, expression));
+    }
+    for transform in field.transforms.borrow().iter() {
+        for expression in transform.condition.iter().chain(&transform.arguments) {
+            expression.visit(&mut |expression| find_blen(&mut found, expression));
+        }
+    }
+    for argument in field.arguments.borrow().iter() {
+        if let Some(default_value) = &argument.default_value {
+            default_value.visit(&mut |expression| find_blen(&mut found, expression));
+        }
+    }
+    if let Some(calculated) = &*field.calculated.borrow() {
+        calculated.visit(&mut |expression| {
+            let is_known = parent
+                .and_then(|parent| parent.blen_target(expression))
+                .is_some();
+            if !is_known {
+                find_blen(&mut found, expression);
+            }
+        });
+    }
+    match &*field.type_.borrow() {
+        Type::Container(container) => {
+            if let Some(length) = &container.length {
+                length.visit(&mut |expression| find_blen(&mut found, expression));
+            }
+            reject(found)?;
+            for item in container.items.values() {
+                check_calculations(item, Some(container))?;
+            }
+            if let Err(field) = container.calculation_order() {
+                return Err(AsgError::CyclicCalculation(field.name.clone(), field.span));
+            }
+            Ok(())
+        }
+        type_ => {
+            type_.visit(&mut |expression| find_blen(&mut found, expression));
+            reject(found)
+        }
+    }
+}
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index fecfc6f..a65336b 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -12,6 +12,8 @@ mod const_;
 
 mod order;
 
+mod calculated;
+
 impl Program {
     pub fn from_ast<'a, T: ImportResolver + 'static>(
         ast: &ast::Program,
@@ -145,6 +147,7 @@ impl Program {
                 if order::is_infinite(field) {
                     return Err(AsgError::InfiniteType(field.name.clone(), field.span));
                 }
+                calculated::check_calculations(field, None)?;
             }
         }
 
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 55c665f..e9bd4b6 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -99,6 +99,10 @@ pub enum AsgError {
     IllegalTopLevelCondition(Span),
     #[error("enum container '{0}' must have a field @ {1}")]
     EmptyEnumContainer(String, Span),
+    #[error("blen is only available in calculated fields, for a container with a length next to the field @ {0}")]
+    InvalidBLen(Span),
+    #[error("calculated field '{0}' @ {1} depends on itself")]
+    CyclicCalculation(String, Span),
     #[error("unknown: {0}")]
     Unknown(#[from] crate::Error),
 }
-- 
2.43.0


From 4a9c2deac3d8f9d797b15d86235450d109ef8f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:01 +0000
Subject: [PATCH 20/41] fix: elvis operator on a field that is widened

---
 protospec-build/src/compiler/expr.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index a0d2ffd..51a647f 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -422,14 +422,20 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
     match expr {
         Binary(c) if c.op == BinaryOp::Elvis => {
             let right = emit_expression(&c.right, ref_resolver);
-            let (place, type_) = match &*c.left {
-                FieldRef(field) => (ref_resolver(field), field.type_.borrow().clone()),
-                left => {
+            let mut left = &*c.left;
+            while let Cast(cast) = left {
+                left = &cast.inner;
+            }
+            let field = match left {
+                FieldRef(field) => field,
+                _ => {
                     // never absent
-                    return emit_expression(left, ref_resolver);
+                    return emit_expression(&c.left, ref_resolver);
                 }
             };
-            let value = emit_value(quote! { (*ps_value) }, &type_);
+            let place = ref_resolver(field);
+            let present: &dyn Fn(&Arc<Field>) -> TokenStream = &|_| quote! { (*ps_value) };
+            let value = emit_expression(&c.left, &present);
             quote! {
                 {
                     let ps_default = #right;
-- 
2.43.0


From 0582f73f1be9fa46fd1b3cc63b2044b4f0676f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:26 +0000
Subject: [PATCH 21/41] fix: generate code for all imported types, reject
 import cycles and collisions of imported names

---
 protospec-build/src/asg/program.rs            |   2 +
 protospec-build/src/compiler/mod.rs           |  19 ++
 .../src/semantics/convert/program/field.rs    |   6 +-
 .../src/semantics/convert/program/import.rs   |  45 ++++-
 .../src/semantics/convert/program/mod.rs      |  25 ++-
 .../src/semantics/convert/program/resolve.rs  | 163 +++++++++++++++---
 protospec-build/src/semantics/error.rs        |   2 +
 7 files changed, 225 insertions(+), 37 deletions(-)

diff --git a/protospec-build/src/asg/program.rs b/protospec-build/src/asg/program.rs
index 8d53e93..cca1037 100644
--- a/protospec-build/src/asg/program.rs
+++ b/protospec-build/src/asg/program.rs
@@ -6,6 +6,8 @@ pub struct Program {
     pub consts: IndexMap<String, Arc<Const>>,
     pub transforms: IndexMap<String, Arc<Transform>>,
     pub functions: IndexMap<String, Arc<Function>>,
+    /// all types that are declared in imported files, the names of these fields are unique
+    pub imported: Vec<Arc<Field>>,
 }
 
 impl Program {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 26eaa39..0986e10 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -152,6 +152,25 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
         #errors
     });
     for (name, field) in program.types.iter() {
+        let is_foreign = matches!(&*field.type_.borrow(), Type::Foreign(_));
+        if *name != field.name && !is_foreign {
+            // an imported type that goes by another name here
+            let ident = emit_ident(name);
+            let imported_ident = emit_ident(&global_name(&field.name));
+            components.push(quote! {
+                pub use self::#imported_ident as #ident;
+            });
+        }
+    }
+    let imported = program.imported.iter();
+    let declared = program.types.values().filter(|field| {
+        !program
+            .imported
+            .iter()
+            .any(|imported| Arc::ptr_eq(imported, field))
+    });
+    for field in declared.chain(imported) {
+        let name = &field.name;
         match &*field.type_.borrow() {
             Type::Foreign(_) => continue,
             Type::Container(item) => {
diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index 1e59b45..965a4bf 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -6,6 +6,7 @@ impl Scope {
     pub(super) fn convert_type_declaration(
         type_: &TypeDeclaration,
         program: &RefCell<Program>,
+        type_names: &IndexMap<String, String>,
     ) -> AsgResult<Arc<Field>> {
         if let Some(defined) = program.borrow().types.get(&type_.name.name) {
             return Err(AsgError::TypeRedefinition(
@@ -16,7 +17,10 @@ impl Scope {
         }
 
         let field = Arc::new(Field {
-            name: type_.name.name.clone(),
+            name: type_names
+                .get(&type_.name.name)
+                .unwrap_or(&type_.name.name)
+                .clone(),
             arguments: RefCell::new(vec![]),
             span: type_.value.span,
             type_: RefCell::new(Type::Bool), // placeholder
diff --git a/protospec-build/src/semantics/convert/program/import.rs b/protospec-build/src/semantics/convert/program/import.rs
index 13e130c..8428fd6 100644
--- a/protospec-build/src/semantics/convert/program/import.rs
+++ b/protospec-build/src/semantics/convert/program/import.rs
@@ -12,6 +12,7 @@ impl Scope {
         let content = String::from_utf8_lossy(&import.from.content[..]);
         let normalized = resolver.normalize_import(content.as_ref())?;
         if let Some(cached) = import_cache.get(&normalized) {
+            let mut program = program.borrow_mut();
             for import_item in import.items.iter() {
                 let imported_name = if let Some(alias) = import_item.alias.as_ref() {
                     alias.name.clone()
@@ -19,14 +20,38 @@ impl Scope {
                     import_item.name.name.clone()
                 };
                 if let Some(t) = cached.types.get(&import_item.name.name) {
-                    program.borrow_mut().types.insert(imported_name, t.clone());
+                    match program.types.insert(imported_name.clone(), t.clone()) {
+                        Some(prior) if !Arc::ptr_eq(&prior, t) && !is_same_foreign(&prior, t) => {
+                            return Err(AsgError::TypeRedefinition(
+                                imported_name,
+                                import_item.span,
+                                prior.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                 } else if let Some(t) = cached.consts.get(&import_item.name.name) {
-                    program.borrow_mut().consts.insert(imported_name, t.clone());
+                    match program.consts.insert(imported_name.clone(), t.clone()) {
+                        Some(prior) if !Arc::ptr_eq(&prior, t) => {
+                            return Err(AsgError::ConstRedefinition(
+                                imported_name,
+                                import_item.span,
+                                prior.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                 } else if let Some(t) = cached.transforms.get(&import_item.name.name) {
-                    program
-                        .borrow_mut()
-                        .transforms
-                        .insert(imported_name, t.clone());
+                    match program.transforms.insert(imported_name.clone(), t.clone()) {
+                        Some(prior) if !Arc::ptr_eq(&prior, t) && prior.name != t.name => {
+                            return Err(AsgError::TransformRedefinition(
+                                imported_name,
+                                import_item.span,
+                                prior.span,
+                            ));
+                        }
+                        _ => (),
+                    }
                 } else {
                     return Err(AsgError::ImportUnresolved(
                         import_item.name.name.clone(),
@@ -41,3 +66,11 @@ impl Scope {
         Ok(())
     }
 }
+
+/// foreign types are resolved by name, the same name is the same type in all files
+fn is_same_foreign(t1: &Field, t2: &Field) -> bool {
+    match (&*t1.type_.borrow(), &*t2.type_.borrow()) {
+        (Type::Foreign(f1), Type::Foreign(f2)) => f1 == f2,
+        _ => false,
+    }
+}
diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index a65336b..18d29fd 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -19,22 +19,37 @@ impl Program {
         ast: &ast::Program,
         resolver: &'a T,
     ) -> AsgResult<Program> {
-        let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
+        let imports = resolve::Imports::load(ast, resolver)?;
+        let names = imports.name_types(ast, resolver)?;
 
-        Program::from_ast_imports(ast, resolver, &mut cached_imports)?;
-        Program::from_ast_imported(ast, resolver, &cached_imports)
+        let mut cached_imports: IndexMap<String, Program> = IndexMap::new();
+        let mut imported = vec![];
+        for (file, ast) in imports.files() {
+            let program =
+                Program::from_ast_imported(ast, resolver, &cached_imports, &names[file])?;
+            for name in names[file].keys() {
+                imported.push(program.types[name].clone());
+            }
+            cached_imports.insert(file.clone(), program);
+        }
+        let mut program =
+            Program::from_ast_imported(ast, resolver, &cached_imports, &IndexMap::new())?;
+        program.imported = imported;
+        Ok(program)
     }
 
     fn from_ast_imported<T: ImportResolver + 'static>(
         ast: &ast::Program,
         resolver: &T,
         import_cache: &IndexMap<String, Program>,
+        type_names: &IndexMap<String, String>,
     ) -> AsgResult<Program> {
         let program = Arc::new(RefCell::new(Program {
             types: IndexMap::new(),
             consts: IndexMap::new(),
             transforms: IndexMap::new(),
             functions: IndexMap::new(),
+            imported: vec![],
         }));
 
         {
@@ -83,7 +98,7 @@ impl Program {
                             ast::RawType::Enum(_) | ast::RawType::Bitfield(_)
                         ) =>
                     {
-                        let field = Scope::convert_type_declaration(type_, &*program)?;
+                        let field = Scope::convert_type_declaration(type_, &*program, type_names)?;
                         let scope = Scope::convert_ast_field_arguments(
                             &scope,
                             &field,
@@ -108,7 +123,7 @@ impl Program {
                             ast::RawType::Enum(_) | ast::RawType::Bitfield(_)
                         ) =>
                     {
-                        let field = Scope::convert_type_declaration(type_, &*program)?;
+                        let field = Scope::convert_type_declaration(type_, &*program, type_names)?;
                         return_fields.push((type_, field));
                     }
                     _ => (),
diff --git a/protospec-build/src/semantics/convert/program/resolve.rs b/protospec-build/src/semantics/convert/program/resolve.rs
index 042cc22..6d442e3 100644
--- a/protospec-build/src/semantics/convert/program/resolve.rs
+++ b/protospec-build/src/semantics/convert/program/resolve.rs
@@ -1,37 +1,150 @@
 use super::*;
+use indexmap::IndexSet;
+use std::borrow::Cow;
 
-impl Program {
-    pub(super) fn from_ast_imports<T: ImportResolver + 'static>(
+/// all files that a specification imports, those that are imported by others come first
+#[derive(Default)]
+pub(super) struct Imports {
+    files: IndexMap<String, ast::Program>,
+}
+
+impl Imports {
+    pub(super) fn load<T: ImportResolver + 'static>(
+        ast: &ast::Program,
+        resolver: &T,
+    ) -> AsgResult<Imports> {
+        let mut imports = Imports::default();
+        imports.load_imports(ast, resolver, &mut IndexSet::new())?;
+        Ok(imports)
+    }
+
+    fn load_imports<T: ImportResolver + 'static>(
+        &mut self,
         ast: &ast::Program,
         resolver: &T,
-        cache: &mut IndexMap<String, Program>,
+        loading: &mut IndexSet<String>,
     ) -> AsgResult<()> {
-        for declaration in ast.declarations.iter() {
-            match declaration {
-                ast::Declaration::Import(import) => {
-                    let content = String::from_utf8_lossy(&import.from.content[..]).into_owned();
-                    let normalized = resolver.normalize_import(&content[..])?;
-                    if let Some(_cached) = cache.get(&normalized) {
-                    } else {
-                        let loaded = resolver.resolve_import(&normalized)?;
-                        if let Some(loaded) = loaded {
-                            let parsed = match crate::parse(&loaded) {
-                                Ok(x) => x,
-                                Err(e) => {
-                                    return Err(AsgError::ImportParse(content, import.from.span, e))
-                                }
-                            };
-                            Program::from_ast_imports(&parsed, resolver, cache)?;
-                            let asg = Program::from_ast_imported(&parsed, resolver, cache)?;
-                            cache.insert(normalized, asg);
-                        } else {
-                            return Err(AsgError::ImportMissing(content, import.from.span));
+        for import in imports(ast) {
+            let content = String::from_utf8_lossy(&import.from.content[..]).into_owned();
+            let normalized = resolver.normalize_import(&content[..])?;
+            if self.files.contains_key(&normalized) {
+                continue;
+            }
+            if !loading.insert(normalized.clone()) {
+                return Err(AsgError::ImportCycle(content, import.from.span));
+            }
+            let loaded = match resolver.resolve_import(&normalized)? {
+                Some(loaded) => loaded,
+                None => return Err(AsgError::ImportMissing(content, import.from.span)),
+            };
+            let parsed = crate::parse(&loaded)
+                .map_err(|e| AsgError::ImportParse(content, import.from.span, e))?;
+            self.load_imports(&parsed, resolver, loading)?;
+            loading.pop();
+            self.files.insert(normalized, parsed);
+        }
+        Ok(())
+    }
+
+    pub(super) fn files(&self) -> impl Iterator<Item = (&String, &ast::Program)> {
+        self.files.iter()
+    }
+
+    /// names all types of all imported files, each apart from all others and from what is declared in `root`
+    pub(super) fn name_types<T: ImportResolver + 'static>(
+        &self,
+        root: &ast::Program,
+        resolver: &T,
+    ) -> AsgResult<IndexMap<String, IndexMap<String, String>>> {
+        let mut reserved: IndexMap<String, Option<(String, String)>> = IndexMap::new();
+        for (name, _) in declared_types(root) {
+            reserved.insert(name.clone(), None);
+        }
+        for (name, item, from) in imported_items(root) {
+            let origin = self.origin(&resolver.normalize_import(&*from)?, item, resolver)?;
+            reserved.insert(name.clone(), origin);
+        }
+
+        let mut used: IndexSet<String> = IndexSet::new();
+        let mut all_names = IndexMap::new();
+        for (file, ast) in self.files() {
+            let mut names = IndexMap::new();
+            for (name, _) in declared_types(ast) {
+                let mut unique = name.clone();
+                let mut n = 0;
+                loop {
+                    let is_free = match reserved.get(&unique) {
+                        None => true,
+                        Some(None) => false,
+                        Some(Some((origin_file, origin_name))) => {
+                            unique == *name && origin_file == file && origin_name == name
                         }
+                    };
+                    if is_free && used.insert(unique.clone()) {
+                        break;
                     }
+                    n += 1;
+                    unique = format!("{}_{}", name, n);
                 }
-                _ => (),
+                names.insert(name.clone(), unique);
             }
+            all_names.insert(file.clone(), names);
         }
-        Ok(())
+        Ok(all_names)
     }
+
+    /// finds the file that declares an item that is available in `file`
+    fn origin<T: ImportResolver + 'static>(
+        &self,
+        file: &str,
+        item: &str,
+        resolver: &T,
+    ) -> AsgResult<Option<(String, String)>> {
+        let ast = match self.files.get(file) {
+            Some(ast) => ast,
+            None => return Ok(None),
+        };
+        if declared_types(ast).any(|(name, _)| name == item) {
+            return Ok(Some((file.to_string(), item.to_string())));
+        }
+        let import = imported_items(ast).find(|(name, _, _)| *name == item);
+        match import {
+            Some((_, imported, from)) => {
+                self.origin(&resolver.normalize_import(&*from)?, imported, resolver)
+            }
+            None => Ok(None),
+        }
+    }
+}
+
+fn imports(ast: &ast::Program) -> impl Iterator<Item = &ast::ImportDeclaration> {
+    ast.declarations
+        .iter()
+        .filter_map(|declaration| match declaration {
+            ast::Declaration::Import(import) => Some(import),
+            _ => None,
+        })
+}
+
+/// the name of each imported item, what it is called in the file it is imported from, and that file
+fn imported_items(ast: &ast::Program) -> impl Iterator<Item = (&String, &String, Cow<'_, str>)> {
+    imports(ast).flat_map(|import| {
+        import.items.iter().map(move |item| {
+            let name = item.alias.as_ref().unwrap_or(&item.name);
+            (
+                &name.name,
+                &item.name.name,
+                String::from_utf8_lossy(&import.from.content[..]),
+            )
+        })
+    })
+}
+
+fn declared_types(ast: &ast::Program) -> impl Iterator<Item = (&String, &ast::TypeDeclaration)> {
+    ast.declarations
+        .iter()
+        .filter_map(|declaration| match declaration {
+            ast::Declaration::Type(type_) => Some((&type_.name.name, type_)),
+            _ => None,
+        })
 }
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index e9bd4b6..0433368 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -11,6 +11,8 @@ pub enum AsgError {
     FfiMissing(String, Span),
     #[error("unresolved import '{0}' @ {1}")]
     ImportMissing(String, Span),
+    #[error("import '{0}' imports the file it is imported from @ {1}")]
+    ImportCycle(String, Span),
     #[error("unresolved import item '{0}' does not exist in module {1} @ {2}")]
     ImportUnresolved(String, String, Span),
     #[error("failed to parse import file '{0}' @ {1}: {2}")]
-- 
2.43.0


From 8b77386260b8ecedb66d08bb9aae5ea4dd97dfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:57 +0000
Subject: [PATCH 22/41] fix: types named like what generated code uses itself

---
 protospec-build/src/compiler/decoder.rs | 14 ++++++-------
 protospec-build/src/compiler/encoder.rs |  4 ++--
 protospec-build/src/compiler/mod.rs     | 26 ++++++++++++++++++++++---
 3 files changed, 32 insertions(+), 12 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index ab9f522..ae6de4f 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -144,7 +144,7 @@ fn prepare_decode(
                         })
                         .collect::<Vec<_>>(),
                 );
-                let name = emit_ident(name);
+                let name = emit_ident(&global_name(name));
                 statements.push(quote! {
                     let #target = #name(#items);
                 });
@@ -161,7 +161,7 @@ fn prepare_decode(
                         })
                         .collect::<Vec<_>>(),
                 );
-                let name = emit_ident(name);
+                let name = emit_ident(&global_name(name));
                 statements.push(quote! {
                     let #target = #name { #items };
                 });
@@ -184,7 +184,7 @@ fn prepare_decode(
                         })
                         .collect::<Vec<_>>(),
                 );
-                let name = emit_ident(name);
+                let name = emit_ident(&global_name(name));
                 let discriminant = emit_ident(discriminant);
                 statements.push(quote! {
                     let #target = #name::#discriminant(#items);
@@ -209,7 +209,7 @@ fn prepare_decode(
                         })
                         .collect::<Vec<_>>(),
                 );
-                let name = emit_ident(name);
+                let name = emit_ident(&global_name(name));
                 let discriminant = emit_ident(discriminant);
                 statements.push(quote! {
                     let #target = #name::#discriminant { #items };
@@ -298,7 +298,7 @@ fn prepare_decode(
                 }
                 let out_arguments = flatten(out_arguments);
                 let source = emit_register(*source);
-                let class = emit_ident(class);
+                let class = emit_ident(&global_name(class));
                 // a recursive type must not nest its own stream in the type of the stream it is given
                 let (prepare_target, target) = if let Target::Stream(_) = target {
                     let target = emit_target(target);
@@ -330,7 +330,7 @@ fn prepare_decode(
                 let target = emit_target(target);
                 let value = emit_register(*value);
 
-                let enum_ident = to_ident(name);
+                let enum_ident = to_ident(&global_name(name));
                 let length = type_.size() as usize;
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
@@ -410,7 +410,7 @@ fn prepare_decode(
             Instruction::DecodeReprArray(target, data, name, type_, len) => {
                 let data = emit_register(*data);
                 let read_raw = emit_read_raw(target, type_, len, &async_);
-                let enum_ident = to_ident(name);
+                let enum_ident = to_ident(&global_name(name));
                 let decoder = match type_ {
                     PrimitiveType::Scalar(EndianScalarType {
                         endian: Endian::Little,
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 5dda8df..22dffed 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -438,7 +438,7 @@ impl EncoderContext {
                     } else {
                         quote! {}
                     };
-                    let enum_name = emit_ident(enum_name);
+                    let enum_name = emit_ident(&global_name(enum_name));
                     let discriminant = emit_ident(discriminant);
                     let original = emit_register(*original);
                     let checked = emit_register(*checked);
@@ -458,7 +458,7 @@ impl EncoderContext {
                     checked,
                     message,
                 ) => {
-                    let enum_name = emit_ident(enum_name);
+                    let enum_name = emit_ident(&global_name(enum_name));
                     let discriminant = emit_ident(discriminant);
                     let original = emit_register(*original);
                     // let checked = emit_register(*checked);
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 0986e10..b42707f 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -13,8 +13,28 @@ mod decoder;
 mod encoder;
 mod expr;
 
+/// the name of the Rust type for a type in the specification, apart from what generated code uses itself
 pub fn global_name(input: &str) -> String {
-    input.to_string()
+    const USED: &[&str] = &[
+        "AsRef", "Box", "BufRead", "Cursor", "DecodeError", "Default", "EncodeError", "Err",
+        "Error", "None", "Ok", "Option", "R", "Read", "Result", "Send", "Some", "String", "Sync",
+        "TryFrom", "TryInto", "Unpin", "Vec", "W", "Write", "anyhow", "async_recursion", "base64",
+        "before", "bits", "buf", "chained", "char", "core", "count", "decode_error", "drop",
+        "encode_error", "expression_error", "f", "flate2", "head", "mem", "missing", "output",
+        "owned", "pending", "ps_default", "ps_value", "r", "raw", "reader", "remaining", "repr",
+        "rhs", "scratch", "shift", "shifted", "size", "slice", "std", "str", "t", "t_count",
+        "target", "tokio", "total", "usize", "value", "writer", "x", "zeros",
+    ];
+    let is_parameter = input.starts_with("p_");
+    let is_register = match input.strip_prefix("r_") {
+        Some(suffix) => suffix.starts_with(|c: char| c.is_ascii_digit()),
+        None => false,
+    };
+    if USED.contains(&input) || is_parameter || is_register {
+        format!("{}_", input)
+    } else {
+        input.to_string()
+    }
 }
 
 #[derive(Clone, Debug)]
@@ -155,7 +175,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
         let is_foreign = matches!(&*field.type_.borrow(), Type::Foreign(_));
         if *name != field.name && !is_foreign {
             // an imported type that goes by another name here
-            let ident = emit_ident(name);
+            let ident = emit_ident(&global_name(name));
             let imported_ident = emit_ident(&global_name(&field.name));
             components.push(quote! {
                 pub use self::#imported_ident as #ident;
@@ -380,7 +400,7 @@ fn flatten_separated<T: IntoIterator<Item = TokenStream>>(
 pub fn emit_type_ref(item: &Type) -> TokenStream {
     match item {
         Type::Container(_) => unimplemented!(),
-        Type::Enum(enum_type) => emit_ident(&*enum_type.name),
+        Type::Enum(enum_type) => emit_ident(&global_name(&enum_type.name)),
         Type::Bitfield(_) => unimplemented!(),
         Type::Scalar(s) => emit_ident(&s.scalar.to_string()),
         Type::Array(array_type) => {
-- 
2.43.0


From 214cc994a2489aca214081e3c140dc23d48f2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:57 +0000
Subject: [PATCH 23/41] fix: static typing of operators, functions, and values
 that may be absent

---
 protospec-build/src/asg/types/mod.rs          | 38 +++++++++++
 protospec-build/src/compiler/expr.rs          |  2 +-
 protospec-build/src/ffi/function.rs           | 10 +++
 protospec-build/src/prelude/blen.rs           |  4 ++
 protospec-build/src/prelude/len.rs            |  8 +++
 protospec-build/src/prelude/pad.rs            | 12 ++--
 protospec-build/src/prelude/sum.rs            | 22 ++++---
 .../semantics/convert/expression/binary.rs    | 39 ++++++++++-
 .../src/semantics/convert/expression/call.rs  | 18 +++++
 .../src/semantics/convert/expression/mod.rs   | 33 +++++++++-
 .../src/semantics/convert/expression/unary.rs | 66 ++++++++-----------
 .../src/semantics/convert/ffi_arguments.rs    | 20 +++---
 .../src/semantics/convert/field.rs            |  1 +
 protospec-build/src/semantics/error.rs        |  2 +
 protospec-build/src/semantics/partial_type.rs | 13 +++-
 15 files changed, 220 insertions(+), 68 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 91712b4..50c1a67 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -202,6 +202,44 @@ impl Type {
         }
     }
 
+    /// whether there are integer operations on values of this type
+    pub fn is_integer(&self) -> bool {
+        matches!(&*self.resolved(), Type::Scalar(_) | Type::Foreign(_)) && !self.is_opaque()
+    }
+
+    /// whether values of this type are only known to a foreign type
+    pub fn is_opaque(&self) -> bool {
+        use ScalarType::*;
+        match &*self.resolved() {
+            Type::Foreign(foreign) => ![U8, U16, U32, U64, U128, I8, I16, I32, I64, I128]
+                .iter()
+                .map(|scalar| Type::Scalar((*scalar).into()))
+                .chain([Type::F32, Type::F64, Type::Bool])
+                .any(|type_| foreign.obj.assignable_to(&type_)),
+            _ => false,
+        }
+    }
+
+    /// whether there is arithmetic on values of this type
+    pub fn is_number(&self) -> bool {
+        self.is_integer() || matches!(&*self.resolved(), Type::F32 | Type::F64)
+    }
+
+    /// whether there is an order of the values of this type
+    pub fn is_ordered(&self) -> bool {
+        self.is_number() || matches!(&*self.resolved(), Type::Bool | Type::Enum(_))
+    }
+
+    /// whether this type is declared with a condition, its values may be absent anywhere
+    pub fn is_optional(&self) -> bool {
+        match self {
+            Type::Ref(x) => {
+                x.target.condition.borrow().is_some() || x.target.type_.borrow().is_optional()
+            }
+            _ => false,
+        }
+    }
+
     pub fn copyable(&self) -> bool {
         if self.aliased().is_some() {
             return false;
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 51a647f..9183ce7 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -427,7 +427,7 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
                 left = &cast.inner;
             }
             let field = match left {
-                FieldRef(field) => field,
+                FieldRef(field) if field.condition.borrow().is_some() => field,
                 _ => {
                     // never absent
                     return emit_expression(&c.left, ref_resolver);
diff --git a/protospec-build/src/ffi/function.rs b/protospec-build/src/ffi/function.rs
index f21af49..0ee9bf6 100644
--- a/protospec-build/src/ffi/function.rs
+++ b/protospec-build/src/ffi/function.rs
@@ -9,5 +9,15 @@ pub trait ForeignFunction {
 
     fn return_type(&self) -> Type;
 
+    /// whether the function can be called with arguments of these types, which are all assignable to the types in [`ForeignFunction::arguments`]
+    fn accepts(&self, _arguments: &[Type]) -> bool {
+        true
+    }
+
+    /// whether the values of arguments may be absent
+    fn accepts_absent(&self) -> bool {
+        false
+    }
+
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream;
 }
diff --git a/protospec-build/src/prelude/blen.rs b/protospec-build/src/prelude/blen.rs
index b7c9487..68e7dc3 100644
--- a/protospec-build/src/prelude/blen.rs
+++ b/protospec-build/src/prelude/blen.rs
@@ -16,6 +16,10 @@ impl ForeignFunction for BLenFunction {
         Type::Scalar(ScalarType::U64.into())
     }
 
+    fn accepts_absent(&self) -> bool {
+        true
+    }
+
     fn call(&self, _arguments: &[FFIArgumentValue]) -> TokenStream {
         unimplemented!()
     }
diff --git a/protospec-build/src/prelude/len.rs b/protospec-build/src/prelude/len.rs
index 48b3af4..164fdb6 100644
--- a/protospec-build/src/prelude/len.rs
+++ b/protospec-build/src/prelude/len.rs
@@ -50,6 +50,14 @@ impl ForeignFunction for LenFunction {
         Type::Scalar(ScalarType::U64.into())
     }
 
+    fn accepts(&self, arguments: &[Type]) -> bool {
+        match &*arguments[0].resolved() {
+            Type::Container(_) => false,
+            type_ @ Type::Foreign(_) => type_.is_opaque(),
+            _ => true,
+        }
+    }
+
     fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
         self.len(&arguments[0].type_, &arguments[0].value)
     }
diff --git a/protospec-build/src/prelude/pad.rs b/protospec-build/src/prelude/pad.rs
index 1b45ce7..a660bef 100644
--- a/protospec-build/src/prelude/pad.rs
+++ b/protospec-build/src/prelude/pad.rs
@@ -26,10 +26,14 @@ impl ForeignFunction for PadFunction {
         let pad = &arguments[0].value;
         let base = &arguments[1].value;
         return quote! {
-            if #base % #pad == 0 {
-                0
-            } else {
-                (#pad - (#base % #pad))
+            {
+                let pad: u64 = #pad;
+                let base: u64 = #base;
+                match base.checked_rem(pad) {
+                    Some(0) => 0u64,
+                    Some(excess) => pad - excess,
+                    None => return Err(expression_error("cannot pad to a multiple of zero").into()),
+                }
             }
         };
     }
diff --git a/protospec-build/src/prelude/sum.rs b/protospec-build/src/prelude/sum.rs
index f7c75b9..002fecc 100644
--- a/protospec-build/src/prelude/sum.rs
+++ b/protospec-build/src/prelude/sum.rs
@@ -15,18 +15,22 @@ impl ForeignFunction for SumFunction {
         Type::Scalar(ScalarType::U64.into())
     }
 
-    fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
-        let type_ = &arguments[0].type_;
-        match type_ {
-            Type::Array(inner) => match &*inner.element {
-                Type::Scalar(_) => (),
-                _ => panic!("invalid array interior type for sum"),
-            },
-            _ => panic!("invalid type for sum, expected array"),
+    fn accepts(&self, arguments: &[Type]) -> bool {
+        match &*arguments[0].resolved() {
+            Type::Array(array) => matches!(&*array.element, Type::Scalar(_)),
+            _ => false,
         }
+    }
+
+    fn call(&self, arguments: &[FFIArgumentValue]) -> TokenStream {
         let input = &arguments[0].value;
         return quote! {
-            (#input.iter().copied().map(|x| x as u64).sum::<u64>() as u64)
+            (#input).iter()
+                .try_fold(0i128, |sum, x| {
+                    sum.checked_add(<i128 as std::convert::TryFrom<_>>::try_from(*x).ok()?)
+                })
+                .and_then(|sum| <u64 as std::convert::TryFrom<_>>::try_from(sum).ok())
+                .ok_or_else(|| expression_error("sum is out of range"))?
         };
     }
 }
diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 705210a..24bd95d 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -25,13 +25,21 @@ impl Scope {
             Or | And => PartialType::Type(Type::Bool),
             _ => expected_type.clone(),
         };
-        let mut left = Scope::convert_expr(self_, &expr.left, init_expected_type.clone());
+        let convert_left = |expected_type: PartialType| match expr.op {
+            Elvis => Scope::convert_optional_expr(self_, &expr.left, expected_type),
+            _ => Scope::convert_expr(self_, &expr.left, expected_type),
+        };
+        let mut left = convert_left(init_expected_type.clone());
+        if left.is_err() && init_expected_type.is_concrete() {
+            // the type of the other side tells nothing more about this one
+            return Err(left.err().unwrap());
+        }
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
             Scope::convert_expr(self_, &expr.right, left_type.into())?
         } else {
             let right = Scope::convert_expr(self_, &expr.right, init_expected_type)?;
             if let Some(right_type) = right.get_type() {
-                left = Ok(Scope::convert_expr(self_, &expr.left, right_type.into())?);
+                left = Ok(convert_left(right_type.into())?);
                 if left.as_ref().unwrap().get_type().is_none() {
                     return Err(AsgError::UninferredType(*expr.left.span()));
                 }
@@ -40,9 +48,34 @@ impl Scope {
             }
             right
         };
+        let left = left?;
+        if let Some(type_) = left.get_type() {
+            let is_defined = match expr.op {
+                Lt | Gt | Lte | Gte => type_.is_ordered(),
+                Add | Sub | Mul | Div | Mod => type_.is_number(),
+                Shl | Shr | ShrSigned => type_.is_integer(),
+                BitAnd | BitOr | BitXor => {
+                    type_.is_integer()
+                        || matches!(&*type_.resolved(), Type::Bool | Type::Bitfield(_))
+                }
+                // values of foreign types are not represented by what is assignable to them
+                Eq | Ne | Elvis => {
+                    let right_type = right.get_type();
+                    right_type.map_or(true, |x| x.is_opaque() == type_.is_opaque())
+                }
+                Or | And => true,
+            };
+            if !is_defined {
+                return Err(AsgError::UnexpectedType(
+                    type_.to_string(),
+                    "number".to_string(),
+                    *expr.left.span(),
+                ));
+            }
+        }
         Ok(BinaryExpression {
             op: expr.op.clone(),
-            left: Box::new(left.unwrap()),
+            left: Box::new(left),
             right: Box::new(right),
             span: expr.span,
         })
diff --git a/protospec-build/src/semantics/convert/expression/call.rs b/protospec-build/src/semantics/convert/expression/call.rs
index e07e7ff..f98bd90 100644
--- a/protospec-build/src/semantics/convert/expression/call.rs
+++ b/protospec-build/src/semantics/convert/expression/call.rs
@@ -24,7 +24,25 @@ impl Scope {
             expr.span,
             &expr.arguments[..],
             &function.arguments[..],
+            function.inner.accepts_absent(),
         )?;
+        let types = arguments
+            .iter()
+            .zip(expr.arguments.iter())
+            .map(|(argument, expr)| {
+                argument
+                    .get_type()
+                    .ok_or_else(|| AsgError::UninferredType(*expr.span()))
+            })
+            .collect::<AsgResult<Vec<Type>>>()?;
+        if !function.inner.accepts(&types[..]) {
+            let types: Vec<String> = types.iter().map(|x| x.to_string()).collect();
+            return Err(AsgError::UnexpectedType(
+                types.join(", "),
+                format!("arguments of {}", function.name),
+                expr.span,
+            ));
+        }
 
         Ok(CallExpression {
             function,
diff --git a/protospec-build/src/semantics/convert/expression/mod.rs b/protospec-build/src/semantics/convert/expression/mod.rs
index 032d121..ac96b5e 100644
--- a/protospec-build/src/semantics/convert/expression/mod.rs
+++ b/protospec-build/src/semantics/convert/expression/mod.rs
@@ -29,6 +29,19 @@ impl Scope {
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::Expression,
         expected_type: PartialType,
+    ) -> AsgResult<Expression> {
+        let expression = Self::convert_optional_expr(self_, expr, expected_type)?;
+        if expression.is_optional() {
+            return Err(AsgError::OptionalValue(*expr.span()));
+        }
+        Ok(expression)
+    }
+
+    /// converts an expression where the value of a field may be absent
+    pub(super) fn convert_optional_expr(
+        self_: &Arc<RefCell<Scope>>,
+        expr: &ast::Expression,
+        expected_type: PartialType,
     ) -> AsgResult<Expression> {
         use ast::Expression::*;
         let coerce_to = expected_type.clone();
@@ -71,17 +84,33 @@ impl Scope {
             }
         };
 
-        Ok(expression.assign_to_or_coerce_to(coerce_to, *expr.span())?)
+        let expression = expression.assign_to_or_coerce_to(coerce_to, *expr.span())?;
+        match expression.get_type() {
+            // there is no way to tell what to use in place of a value that its type makes absent
+            Some(type_) if type_.is_optional() => Err(AsgError::OptionalValue(*expr.span())),
+            _ => Ok(expression),
+        }
     }
 }
 
 impl Expression {
+    /// whether the value is that of a field that may be absent
+    fn is_optional(&self) -> bool {
+        match self {
+            Expression::FieldRef(field) => field.condition.borrow().is_some(),
+            Expression::Cast(cast) => cast.inner.is_optional(),
+            _ => false,
+        }
+    }
+
     pub(crate) fn assign_to_or_coerce_to(
         mut self,
         expected_type: PartialType,
         span: Span,
     ) -> AsgResult<Self> {
-        let type_ = self.get_type().expect("coercion missing type");
+        let type_ = self
+            .get_type()
+            .ok_or_else(|| AsgError::UninferredType(span))?;
         if !expected_type.assignable_from(&type_) {
             if expected_type.coercable_from(&type_) {
                 self = Expression::Cast(CastExpression {
diff --git a/protospec-build/src/semantics/convert/expression/unary.rs b/protospec-build/src/semantics/convert/expression/unary.rs
index 05243b7..6dc788d 100644
--- a/protospec-build/src/semantics/convert/expression/unary.rs
+++ b/protospec-build/src/semantics/convert/expression/unary.rs
@@ -6,48 +6,36 @@ impl Scope {
         expr: &ast::UnaryExpression,
         expected_type: PartialType,
     ) -> AsgResult<UnaryExpression> {
-        let inner = Box::new(Scope::convert_expr(
-            self_,
-            &expr.inner,
-            expected_type.clone(),
-        )?);
-        match expr.op {
-            ast::UnaryOp::Not => {
-                if !expected_type.assignable_from(&Type::Bool) {
-                    return Err(AsgError::UnexpectedType(
-                        "bool".to_string(),
-                        expected_type.to_string(),
-                        expr.span,
-                    ));
-                }
-            }
-            ast::UnaryOp::Negate | ast::UnaryOp::BitNot => {
-                if let Some(inner_type) = inner.get_type() {
-                    if !PartialType::Scalar(PartialScalarType::None).assignable_from(&inner_type) {
-                        return Err(AsgError::UnexpectedType(
-                            inner_type.to_string(),
-                            "integer".to_string(),
-                            expr.span,
-                        ));
-                    }
-                    if expr.op == ast::UnaryOp::Negate {
-                        match inner_type {
-                            Type::Scalar(s) if !s.scalar.is_signed() => {
-                                return Err(AsgError::UnexpectedType(
-                                    inner_type.to_string(),
-                                    "signed integer".to_string(),
-                                    expr.span,
-                                ));
-                            }
-                            _ => (),
-                        }
-                    }
-                }
-            }
+        let inner = Scope::convert_expr(self_, &expr.inner, expected_type.clone())?;
+        let inner_type = inner
+            .get_type()
+            .ok_or_else(|| AsgError::UninferredType(*expr.inner.span()))?;
+        let (is_defined, operand) = match expr.op {
+            ast::UnaryOp::Not => (
+                matches!(&*inner_type.resolved(), Type::Bool)
+                    && expected_type.assignable_from(&Type::Bool),
+                "bool",
+            ),
+            ast::UnaryOp::Negate => match &*inner_type.resolved() {
+                Type::Scalar(s) => (s.scalar.is_signed(), "signed integer"),
+                _ => (inner_type.is_number(), "signed integer"),
+            },
+            ast::UnaryOp::BitNot => (
+                inner_type.is_integer()
+                    || matches!(&*inner_type.resolved(), Type::Bool | Type::Bitfield(_)),
+                "integer",
+            ),
+        };
+        if !is_defined {
+            return Err(AsgError::UnexpectedType(
+                inner_type.to_string(),
+                operand.to_string(),
+                expr.span,
+            ));
         }
         Ok(UnaryExpression {
             op: expr.op.clone(),
-            inner: Box::new(Scope::convert_expr(self_, &expr.inner, expected_type)?),
+            inner: Box::new(inner),
             span: expr.span,
         })
     }
diff --git a/protospec-build/src/semantics/convert/ffi_arguments.rs b/protospec-build/src/semantics/convert/ffi_arguments.rs
index 55528fa..6a82e5f 100644
--- a/protospec-build/src/semantics/convert/ffi_arguments.rs
+++ b/protospec-build/src/semantics/convert/ffi_arguments.rs
@@ -7,6 +7,7 @@ impl Scope {
         span: Span,
         arguments: &[ast::Expression],
         type_arguments: &[FFIArgument],
+        accepts_absent: bool,
     ) -> AsgResult<Vec<Expression>> {
         let min_arg_count = type_arguments.iter().filter(|x| !x.optional).count();
         if arguments.len() < min_arg_count || arguments.len() > type_arguments.len() {
@@ -28,15 +29,16 @@ impl Scope {
             .iter()
             .zip(type_arguments.iter())
             .map(|(expr, argument)| {
-                Scope::convert_expr(
-                    self_,
-                    expr,
-                    argument
-                        .type_
-                        .clone()
-                        .map(|x| x.into())
-                        .unwrap_or_else(|| PartialType::Any),
-                )
+                let expected_type = argument
+                    .type_
+                    .clone()
+                    .map(|x| x.into())
+                    .unwrap_or_else(|| PartialType::Any);
+                if accepts_absent {
+                    Scope::convert_optional_expr(self_, expr, expected_type)
+                } else {
+                    Scope::convert_expr(self_, expr, expected_type)
+                }
             })
             .collect::<AsgResult<Vec<Expression>>>()?;
         Ok(arguments)
diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index c74cdb8..4c22e88 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -117,6 +117,7 @@ impl Scope {
                 *span,
                 &arguments[..],
                 &def_transform.arguments[..],
+                false,
             )?;
 
             transforms.push(TypeTransform {
diff --git a/protospec-build/src/semantics/error.rs b/protospec-build/src/semantics/error.rs
index 0433368..c7ddf99 100644
--- a/protospec-build/src/semantics/error.rs
+++ b/protospec-build/src/semantics/error.rs
@@ -105,6 +105,8 @@ pub enum AsgError {
     InvalidBLen(Span),
     #[error("calculated field '{0}' @ {1} depends on itself")]
     CyclicCalculation(String, Span),
+    #[error("value may be absent, an alternative is necessary @ {0}")]
+    OptionalValue(Span),
     #[error("unknown: {0}")]
     Unknown(#[from] crate::Error),
 }
diff --git a/protospec-build/src/semantics/partial_type.rs b/protospec-build/src/semantics/partial_type.rs
index d2b8314..48d1cd1 100644
--- a/protospec-build/src/semantics/partial_type.rs
+++ b/protospec-build/src/semantics/partial_type.rs
@@ -16,6 +16,17 @@ pub enum PartialScalarType {
 }
 
 impl PartialType {
+    /// whether this is a single type rather than a class of types
+    pub fn is_concrete(&self) -> bool {
+        match self {
+            PartialType::Type(_) => true,
+            PartialType::Scalar(PartialScalarType::None) => false,
+            PartialType::Scalar(_) => true,
+            PartialType::Array(Some(element)) => element.is_concrete(),
+            PartialType::Array(None) | PartialType::Any => false,
+        }
+    }
+
     pub fn assignable_from(&self, other: &Type) -> bool {
         match (self, other.resolved().as_ref()) {
             (t1, Type::Foreign(f2)) => f2.obj.assignable_to_partial(t1),
@@ -26,7 +37,7 @@ impl PartialType {
             (PartialType::Scalar(PartialScalarType::Defaults(x)), other) => {
                 Type::Scalar((*x).into()).assignable_from(other)
             }
-            (PartialType::Scalar(PartialScalarType::None), _) => true,
+            (PartialType::Scalar(PartialScalarType::None), _) => other.is_ordered(),
             (PartialType::Array(None), Type::Array(_)) => true,
             (PartialType::Array(Some(element)), Type::Array(array_type)) => {
                 element.assignable_from(array_type.element.as_ref())
-- 
2.43.0


From 8cf50acf78110d586294d9f762d995257ff549e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:46 +0000
Subject: [PATCH 24/41] fix: bound the nesting depth of specifications

---
 protospec-build/src/parser/depth.rs           | 79 +++++++++++++++++++
 protospec-build/src/parser/error.rs           |  2 +
 .../src/parser/expression/array_index.rs      |  2 -
 .../src/parser/expression/primary.rs          |  2 +-
 protospec-build/src/parser/mod.rs             |  6 +-
 5 files changed, 87 insertions(+), 4 deletions(-)
 create mode 100644 protospec-build/src/parser/depth.rs

diff --git a/protospec-build/src/parser/depth.rs b/protospec-build/src/parser/depth.rs
new file mode 100644
index 0000000..2f3efa5
--- /dev/null
+++ b/protospec-build/src/parser/depth.rs
@@ -0,0 +1,79 @@
+use super::*;
+
+/// bounds the depth of the syntax tree, which is walked recursively
+const MAX_DEPTH: usize = 256;
+
+/// rejects programs whose syntax tree would be deeper than [`MAX_DEPTH`]
+pub fn check_depth(tokens: &[SpannedToken]) -> ParseResult<()> {
+    // an upper bound of the depth, counted from the last separator of each open bracket
+    let mut levels = vec![Level::default()];
+    let mut total = 0;
+    for SpannedToken { token, span } in tokens {
+        let is_open = levels.len() > 1;
+        let level = levels.last_mut().expect("missing level");
+        match token {
+            Token::LeftParen | Token::LeftSquare | Token::LeftCurly => {
+                level.depth += 2;
+                total += 2;
+                levels.push(Level::default());
+            }
+            Token::RightParen | Token::RightSquare | Token::RightCurly => {
+                let inner = level.max.max(level.depth);
+                total -= level.depth;
+                if is_open {
+                    levels.pop();
+                    levels.last_mut().expect("missing level").depth += inner;
+                    total += inner;
+                } else {
+                    *level = Level::default();
+                }
+            }
+            Token::Comma | Token::Semicolon => {
+                total -= level.depth;
+                level.max = level.max.max(level.depth);
+                level.depth = 0;
+            }
+            Token::Dot
+            | Token::Elvis
+            | Token::Question
+            | Token::Cast
+            | Token::Lt
+            | Token::Gt
+            | Token::LtEq
+            | Token::GtEq
+            | Token::Eq
+            | Token::Ne
+            | Token::Plus
+            | Token::Minus
+            | Token::Mul
+            | Token::Div
+            | Token::Mod
+            | Token::Not
+            | Token::Or
+            | Token::And
+            | Token::BitOr
+            | Token::BitXor
+            | Token::BitAnd
+            | Token::BitNot
+            | Token::Shr
+            | Token::Shl
+            | Token::ShrSigned => {
+                level.depth += 1;
+                total += 1;
+            }
+            _ => (),
+        }
+        if total > MAX_DEPTH {
+            return Err(ParseError::TooDeep(*span));
+        }
+    }
+    Ok(())
+}
+
+#[derive(Default)]
+struct Level {
+    /// depth since the last separator
+    depth: usize,
+    /// largest depth before the last separator
+    max: usize,
+}
diff --git a/protospec-build/src/parser/error.rs b/protospec-build/src/parser/error.rs
index 8655269..2d95721 100644
--- a/protospec-build/src/parser/error.rs
+++ b/protospec-build/src/parser/error.rs
@@ -19,6 +19,8 @@ pub enum ParseError {
     BitfieldMissingRep(Span),
     #[error("unknown container directive '{0}' @ {1}'")]
     UnknownContainerDirective(String, Span),
+    #[error("nested too deeply @ '{0}'")]
+    TooDeep(Span),
 
     #[error("unknown")]
     Unknown(#[from] crate::Error),
diff --git a/protospec-build/src/parser/expression/array_index.rs b/protospec-build/src/parser/expression/array_index.rs
index 0d4221f..e54562a 100644
--- a/protospec-build/src/parser/expression/array_index.rs
+++ b/protospec-build/src/parser/expression/array_index.rs
@@ -24,7 +24,5 @@ pub fn parse_array_index_expression(t: &mut TokenIter) -> ParseResult<Expression
             _ => unimplemented!(),
         }
     }
-
-    while t.eat(Token::LeftSquare).is_some() {}
     Ok(expr)
 }
diff --git a/protospec-build/src/parser/expression/primary.rs b/protospec-build/src/parser/expression/primary.rs
index f7dde4c..3a22bdd 100644
--- a/protospec-build/src/parser/expression/primary.rs
+++ b/protospec-build/src/parser/expression/primary.rs
@@ -18,7 +18,7 @@ pub fn parse_primary_expression(t: &mut TokenIter) -> ParseResult<Expression> {
             if t.eat(Token::DoubleColon).is_some() {
                 let variant = t.expect_ident()?;
                 Expression::EnumAccess(EnumAccessExpression {
-                    span: ident.span + ident.span,
+                    span: ident.span + variant.span,
                     name: ident,
                     variant,
                 })
diff --git a/protospec-build/src/parser/mod.rs b/protospec-build/src/parser/mod.rs
index 0c00d9c..f8a0103 100644
--- a/protospec-build/src/parser/mod.rs
+++ b/protospec-build/src/parser/mod.rs
@@ -7,6 +7,8 @@ pub use error::{ParseError, ParseResult};
 mod token_iter;
 use token_iter::TokenIter;
 
+mod depth;
+
 mod declaration;
 use declaration::*;
 
@@ -23,7 +25,9 @@ mod program;
 use program::*;
 
 pub fn parse(script: &str) -> ParseResult<Program> {
-    let mut tokens = TokenIter::new(crate::tokenize(script, true)?);
+    let tokens = crate::tokenize(script, true)?;
+    depth::check_depth(&tokens)?;
+    let mut tokens = TokenIter::new(tokens);
 
     parse_program(&mut tokens)
 }
-- 
2.43.0


From f139b7816f2b9c1b5f1e826cfc589d30ca24dfe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:24 +0000
Subject: [PATCH 25/41] fix: report failures to write the generated code, keep
 it when rustfmt fails

---
 protospec-build/src/lib.rs | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/lib.rs b/protospec-build/src/lib.rs
index 06a21e4..c27437a 100644
--- a/protospec-build/src/lib.rs
+++ b/protospec-build/src/lib.rs
@@ -75,7 +75,12 @@ impl Default for Options {
     }
 }
 
+/// formats rust code, which is returned as it is when rustfmt does not work
 pub fn rustfmt(input: &str) -> String {
+    run_rustfmt(input).unwrap_or_else(|| input.to_string())
+}
+
+fn run_rustfmt(input: &str) -> Option<String> {
     let mut proc = Command::new("rustfmt")
         .arg("--edition")
         .arg("2021")
@@ -83,10 +88,16 @@ pub fn rustfmt(input: &str) -> String {
         .stdout(Stdio::piped())
         .stderr(Stdio::inherit())
         .spawn()
-        .expect("rustfmt failed");
-    let stdin = proc.stdin.as_mut().unwrap();
-    stdin.write_all(input.as_bytes()).unwrap();
-    String::from_utf8_lossy(&proc.wait_with_output().unwrap().stdout).to_string()
+        .ok()?;
+    let is_written = match proc.stdin.take() {
+        Some(mut stdin) => stdin.write_all(input.as_bytes()).is_ok(),
+        None => false,
+    };
+    let output = proc.wait_with_output().ok()?;
+    if !is_written || !output.status.success() {
+        return None;
+    }
+    String::from_utf8(output.stdout).ok()
 }
 
 pub fn compile_spec(name: &str, spec: &str, options: &Options) -> AsgResult<()> {
@@ -105,11 +116,13 @@ pub fn compile_spec(name: &str, spec: &str, options: &Options) -> AsgResult<()>
     if options.format_output {
         compiled = rustfmt(&compiled);
     }
-    let mut target: PathBuf = std::env::var("OUT_DIR")
-        .expect("OUT_DIR env var not set")
+    let mut target: PathBuf = std::env::var_os("OUT_DIR")
+        .ok_or_else(|| -> Error { protospec_err!("OUT_DIR env var not set") })?
         .into();
     target.push(format!("{}.rs", name));
-    std::fs::write(target, compiled).expect("failed to write to target");
+    std::fs::write(&target, compiled).map_err(|e| -> Error {
+        protospec_err!("failed to write to '{}': {}", target.display(), e)
+    })?;
     Ok(())
 }
 
-- 
2.43.0


From fe1b18085ae796162c0c3e70dbc5f92de90821b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:16 +0000
Subject: [PATCH 26/41] fix: types with a parameter of the type itself

---
 .../src/semantics/convert/program/mod.rs      |  9 ++++----
 .../src/semantics/convert/program/order.rs    | 23 +++++++------------
 2 files changed, 13 insertions(+), 19 deletions(-)

diff --git a/protospec-build/src/semantics/convert/program/mod.rs b/protospec-build/src/semantics/convert/program/mod.rs
index 18d29fd..cbf0eb8 100644
--- a/protospec-build/src/semantics/convert/program/mod.rs
+++ b/protospec-build/src/semantics/convert/program/mod.rs
@@ -133,7 +133,11 @@ impl Program {
             // convert arguments, and the aliases that the types of fields and arguments depend on
             let declarations: Vec<_> = return_fields.iter().map(|(type_, _)| *type_).collect();
             let mut sub_scopes = IndexMap::new();
-            for i in order::dependency_order(&declarations[..]) {
+            let order = order::dependency_order(&declarations[..]).map_err(|i| {
+                let field = &return_fields[i].1;
+                AsgError::InfiniteType(field.name.clone(), field.span)
+            })?;
+            for i in order {
                 let (type_, field) = &return_fields[i];
                 let sub_scope = Scope::convert_ast_field_arguments(
                     &scope,
@@ -142,9 +146,6 @@ impl Program {
                 )?;
                 if order::is_alias(type_) {
                     Scope::convert_ast_field_mid(&sub_scope, &type_.value, &field)?;
-                    if order::is_endless_alias(field) {
-                        return Err(AsgError::InfiniteType(field.name.clone(), field.span));
-                    }
                     Scope::convert_ast_field_end(&sub_scope, &type_.value, &field)?;
                 }
                 sub_scopes.insert(i, sub_scope);
diff --git a/protospec-build/src/semantics/convert/program/order.rs b/protospec-build/src/semantics/convert/program/order.rs
index 2b3537f..cc43f37 100644
--- a/protospec-build/src/semantics/convert/program/order.rs
+++ b/protospec-build/src/semantics/convert/program/order.rs
@@ -3,7 +3,8 @@ use crate::TypeDeclaration;
 use super::*;
 
 /// orders type declarations so that the aliases that one refers to precede it
-pub(super) fn dependency_order(declarations: &[&TypeDeclaration]) -> Vec<usize> {
+/// fails with a declaration that depends on itself, other than through the fields of a container
+pub(super) fn dependency_order(declarations: &[&TypeDeclaration]) -> Result<Vec<usize>, usize> {
     let indices: IndexMap<&str, usize> = declarations
         .iter()
         .enumerate()
@@ -11,15 +12,20 @@ pub(super) fn dependency_order(declarations: &[&TypeDeclaration]) -> Vec<usize>
         .collect();
     let mut order = vec![];
     let mut is_visited = vec![false; declarations.len()];
+    let mut is_ordered = vec![false; declarations.len()];
     for root in 0..declarations.len() {
         // depth first, without recursion as there may be any number of aliases
         let mut stack = vec![(root, false)];
         while let Some((i, is_done)) = stack.pop() {
             if is_done {
+                is_ordered[i] = true;
                 order.push(i);
                 continue;
             }
             if is_visited[i] {
+                if !is_ordered[i] {
+                    return Err(i);
+                }
                 continue;
             }
             is_visited[i] = true;
@@ -35,7 +41,7 @@ pub(super) fn dependency_order(declarations: &[&TypeDeclaration]) -> Vec<usize>
             );
         }
     }
-    order
+    Ok(order)
 }
 
 pub(super) fn is_alias(declaration: &TypeDeclaration) -> bool {
@@ -118,19 +124,6 @@ fn scan_expression<'a>(expression: &'a ast::Expression, names: &mut Vec<&'a str>
     }
 }
 
-/// whether an alias refers to itself other than through a container
-pub(super) fn is_endless_alias(alias: &Arc<Field>) -> bool {
-    let mut type_ = alias.type_.borrow().clone();
-    loop {
-        type_ = match type_ {
-            Type::Ref(x) if Arc::ptr_eq(&x.target, alias) => return true,
-            Type::Ref(x) => x.target.type_.borrow().clone(),
-            Type::Array(x) => *x.element,
-            _ => return false,
-        };
-    }
-}
-
 /// whether every value of a type holds a value of the type itself
 pub(super) fn is_infinite(field: &Arc<Field>) -> bool {
     let mut visited: Vec<Arc<Field>> = vec![];
-- 
2.43.0


From b083c2a3d5f8a87dfbb81dbb34ef262a996ca71c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:17 +0000
Subject: [PATCH 27/41] fix: derive lists, or the default one with floats, made
 code that does not compile

---
 protospec-build/src/asg/types/container.rs | 12 +++++++++++
 protospec-build/src/asg/types/mod.rs       | 22 +++++++++++++++++++
 protospec-build/src/compiler/mod.rs        | 25 +++++++++++++++-------
 3 files changed, 51 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/asg/types/container.rs b/protospec-build/src/asg/types/container.rs
index 2cb5d23..73487d7 100644
--- a/protospec-build/src/asg/types/container.rs
+++ b/protospec-build/src/asg/types/container.rs
@@ -65,6 +65,18 @@ impl ContainerType {
         targets
     }
 
+    /// whether values of this type hold floats
+    pub fn contains_float(&self) -> bool {
+        let mut visited = vec![];
+        self.scan_floats(&mut visited)
+    }
+
+    pub(super) fn scan_floats(&self, visited: &mut Vec<Arc<Field>>) -> bool {
+        self.items
+            .values()
+            .any(|field| field.type_.borrow().scan_floats(visited))
+    }
+
     /// the calculated fields and the fields that `blen` is called on, all of them after the ones that they depend on,
     /// or a field that depends on itself
     pub fn calculation_order(&self) -> Result<Vec<Arc<Field>>, Arc<Field>> {
diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 50c1a67..12c9cc7 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -282,6 +282,28 @@ impl Type {
         }
     }
 
+    /// whether values of this type hold floats
+    pub fn contains_float(&self) -> bool {
+        let mut visited = vec![];
+        self.scan_floats(&mut visited)
+    }
+
+    pub(super) fn scan_floats(&self, visited: &mut Vec<Arc<Field>>) -> bool {
+        match self {
+            Type::F32 | Type::F64 => true,
+            Type::Array(array) => array.element.scan_floats(visited),
+            Type::Container(container) => container.scan_floats(visited),
+            Type::Ref(reference) => {
+                if visited.iter().any(|x| Arc::ptr_eq(x, &reference.target)) {
+                    return false;
+                }
+                visited.push(reference.target.clone());
+                reference.target.type_.borrow().scan_floats(visited)
+            }
+            _ => false,
+        }
+    }
+
     pub(super) fn get_indirect_contained_fields(&self, target: &mut IndexSet<String>) {
         match self {
             Type::Array(interior) => {
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index b42707f..eb3847a 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -68,19 +68,28 @@ impl Default for CompileOptions {
     }
 }
 
+/// traits that floats, and thereby the types that contain them, do not implement
+const FLOATLESS_DERIVES: &[&str] = &["Eq", "Ord", "Hash"];
+
 impl CompileOptions {
-    fn emit_struct_derives(&self, extra: &[&str]) -> TokenStream {
+    fn emit_struct_derives(&self, has_floats: bool, extra: &[&str]) -> TokenStream {
         let mut all: Vec<_> = self.struct_derives.iter().map(|x| &**x).collect();
         all.extend_from_slice(extra);
+        if has_floats {
+            all.retain(|x| !FLOATLESS_DERIVES.contains(x));
+        }
         all.sort();
         all.dedup();
 
         self.emit_derives(&all[..])
     }
 
-    fn emit_enum_derives(&self, extra: &[&str]) -> TokenStream {
+    fn emit_enum_derives(&self, has_floats: bool, extra: &[&str]) -> TokenStream {
         let mut all: Vec<_> = self.enum_derives.iter().map(|x| &**x).collect();
         all.extend_from_slice(extra);
+        if has_floats {
+            all.retain(|x| !FLOATLESS_DERIVES.contains(x));
+        }
         all.retain(|x| *x != "Default");
         all.sort();
         all.dedup();
@@ -212,7 +221,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
                 } else {
                     type_ref
                 };
-                let derives = options.emit_struct_derives(&[]);
+                let derives = options.emit_struct_derives(generic.contains_float(), &[]);
 
                 components.push(quote! {
                     #derives
@@ -471,7 +480,7 @@ pub fn generate_container(
 ) -> TokenStream {
     let name_ident = to_ident(&global_name(name));
     if item.is_enum.get() {
-        let derives = options.emit_enum_derives(&[]);
+        let derives = options.emit_enum_derives(item.contains_float(), &[]);
         let mut fields = vec![];
         for (name, field) in &item.items {
             let name_ident = to_ident(name);
@@ -548,7 +557,7 @@ pub fn generate_container(
             #default_impl
         }
     } else {
-        let derives = options.emit_struct_derives(&[]);
+        let derives = options.emit_struct_derives(item.contains_float(), &[]);
         let fields = generate_container_fields(quote! { pub }, item);
 
         quote! {
@@ -621,7 +630,7 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let from_repr_matches = flatten(from_repr_matches);
 
     let rep_size = item.rep.scalar.size() as usize;
-    let derives = options.emit_enum_derives(&["Clone", "Copy"]);
+    let derives = options.emit_enum_derives(false, &["Clone", "Copy", "PartialEq"]);
 
     let format_string = format!("illegal enum value '{{}}' for enum '{}'", name);
 
@@ -746,7 +755,7 @@ pub fn generate_bitfield(
         });
         funcs.push(quote! {
             pub fn #get_name(&self) -> bool {
-                (*self & Self::#name_ident) != Self::ZERO
+                (self.0 & Self::#name_ident.0) != 0
             }
 
             pub fn #set_name(&mut self) {
@@ -759,7 +768,7 @@ pub fn generate_bitfield(
 
     let rep = format_ident!("{}", item.rep.scalar.to_string());
     let rep_size = item.rep.scalar.size() as usize;
-    let derives = options.emit_struct_derives(&["Clone", "Copy", "Default"]);
+    let derives = options.emit_struct_derives(false, &["Clone", "Copy", "Default", "PartialEq"]);
 
     let format_string = format!(
         "illegal bitfield value '{{}}' for bitfield '{}'",
-- 
2.43.0


From 024ea9e69353efb3583dac97ee7f40013dfd8037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:12 +0000
Subject: [PATCH 28/41] fix: indexed elements were not widened, arrays of
 little endian integers could not be used in expressions

---
 protospec-build/src/asg/types/mod.rs                         | 3 ++-
 .../src/semantics/convert/expression/array_index.rs          | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 12c9cc7..2275b49 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -149,7 +149,8 @@ impl Type {
             (Type::Foreign(f1), t2) => f1.obj.assignable_from(t2),
             (Type::Enum(e1), Type::Enum(e2)) => e1 == e2,
             (Type::Bitfield(e1), Type::Bitfield(e2)) => e1 == e2,
-            (Type::Scalar(s1), Type::Scalar(s2)) => s2 == s1,
+            // endianness is not part of a value
+            (Type::Scalar(s1), Type::Scalar(s2)) => s1.scalar == s2.scalar,
             (Type::Array(a1), Type::Array(a2)) => a1 == a2,
             (Type::F32, Type::F32) => true,
             (Type::F64, Type::F64) => true,
diff --git a/protospec-build/src/semantics/convert/expression/array_index.rs b/protospec-build/src/semantics/convert/expression/array_index.rs
index fed7f5d..8cef6b9 100644
--- a/protospec-build/src/semantics/convert/expression/array_index.rs
+++ b/protospec-build/src/semantics/convert/expression/array_index.rs
@@ -4,13 +4,14 @@ impl Scope {
     pub(super) fn convert_array_index_expression(
         self_: &Arc<RefCell<Scope>>,
         expr: &ast::ArrayIndexExpression,
-        expected_type: PartialType,
+        _expected_type: PartialType,
     ) -> AsgResult<ArrayIndexExpression> {
         Ok(ArrayIndexExpression {
             array: Box::new(Scope::convert_expr(
                 self_,
                 &expr.array,
-                PartialType::Array(Some(Box::new(expected_type))),
+                // the element is what is assigned or coerced to the expected type
+                PartialType::Array(None),
             )?),
             index: Box::new(Scope::convert_expr(
                 self_,
-- 
2.43.0


From 73048dfc9ffc6eb75a0a6334cc98cee4185328b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:10 +0000
Subject: [PATCH 29/41] fix: branches of conditional expressions of different
 types, optional aliases that are widened, and bytes used as strings made code
 that does not compile

---
 protospec-build/src/asg/types/mod.rs                   |  2 +-
 protospec-build/src/prelude/utf16.rs                   | 10 +++-------
 protospec-build/src/prelude/utf8.rs                    | 10 +++-------
 .../src/semantics/convert/expression/mod.rs            |  3 +--
 .../src/semantics/convert/expression/ternary.rs        | 10 ++++++----
 5 files changed, 14 insertions(+), 21 deletions(-)

diff --git a/protospec-build/src/asg/types/mod.rs b/protospec-build/src/asg/types/mod.rs
index 2275b49..88d6393 100644
--- a/protospec-build/src/asg/types/mod.rs
+++ b/protospec-build/src/asg/types/mod.rs
@@ -188,7 +188,7 @@ impl Type {
     }
 
     pub fn can_cast_to(&self, to: &Type) -> bool {
-        if to.assignable_from(self) || to.can_coerce_to(self) {
+        if to.assignable_from(self) || to.can_coerce_to(self) || self.can_coerce_to(to) {
             return true;
         }
         match (self.resolved().as_ref(), to.resolved().as_ref()) {
diff --git a/protospec-build/src/prelude/utf16.rs b/protospec-build/src/prelude/utf16.rs
index f29022d..84d78ad 100644
--- a/protospec-build/src/prelude/utf16.rs
+++ b/protospec-build/src/prelude/utf16.rs
@@ -3,13 +3,9 @@ use super::*;
 pub struct Utf16;
 
 impl ForeignType for Utf16 {
-    fn assignable_from(&self, type_: &Type) -> bool {
-        match type_ {
-            Type::Array(inner) => {
-                Type::Scalar(ScalarType::U16.into()).assignable_from(&*inner.element)
-            }
-            _ => false,
-        }
+    // bytes are not characters, neither is made of the other by mere assignment
+    fn assignable_from(&self, _type: &Type) -> bool {
+        false
     }
 
     fn assignable_to(&self, type_: &Type) -> bool {
diff --git a/protospec-build/src/prelude/utf8.rs b/protospec-build/src/prelude/utf8.rs
index a607c6f..a5d65ee 100644
--- a/protospec-build/src/prelude/utf8.rs
+++ b/protospec-build/src/prelude/utf8.rs
@@ -3,13 +3,9 @@ use super::*;
 pub struct Utf8;
 
 impl ForeignType for Utf8 {
-    fn assignable_from(&self, type_: &Type) -> bool {
-        match type_ {
-            Type::Array(inner) => {
-                Type::Scalar(ScalarType::U8.into()).assignable_from(&*inner.element)
-            }
-            _ => false,
-        }
+    // bytes are not characters, neither is made of the other by mere assignment
+    fn assignable_from(&self, _type: &Type) -> bool {
+        false
     }
 
     fn assignable_to(&self, type_: &Type) -> bool {
diff --git a/protospec-build/src/semantics/convert/expression/mod.rs b/protospec-build/src/semantics/convert/expression/mod.rs
index ac96b5e..f12f8a9 100644
--- a/protospec-build/src/semantics/convert/expression/mod.rs
+++ b/protospec-build/src/semantics/convert/expression/mod.rs
@@ -84,11 +84,10 @@ impl Scope {
             }
         };
 
-        let expression = expression.assign_to_or_coerce_to(coerce_to, *expr.span())?;
         match expression.get_type() {
             // there is no way to tell what to use in place of a value that its type makes absent
             Some(type_) if type_.is_optional() => Err(AsgError::OptionalValue(*expr.span())),
-            _ => Ok(expression),
+            _ => expression.assign_to_or_coerce_to(coerce_to, *expr.span()),
         }
     }
 }
diff --git a/protospec-build/src/semantics/convert/expression/ternary.rs b/protospec-build/src/semantics/convert/expression/ternary.rs
index a3336a2..1aead64 100644
--- a/protospec-build/src/semantics/convert/expression/ternary.rs
+++ b/protospec-build/src/semantics/convert/expression/ternary.rs
@@ -8,12 +8,14 @@ impl Scope {
     ) -> AsgResult<TernaryExpression> {
         let condition = Scope::convert_expr(self_, &expr.condition, Type::Bool.into())?;
         let if_true = Scope::convert_expr(self_, &expr.if_true, expected_type.clone())?;
-        let right_type = match expected_type {
-            PartialType::Any => if_true
+        // both values are of one type
+        let right_type = if expected_type.is_concrete() {
+            expected_type
+        } else {
+            if_true
                 .get_type()
                 .map(|x| x.into())
-                .ok_or(AsgError::UninferredType(*expr.if_true.span()))?,
-            x => x,
+                .ok_or(AsgError::UninferredType(*expr.if_true.span()))?
         };
         let if_false = Scope::convert_expr(self_, &expr.if_false, right_type)?;
         Ok(TernaryExpression {
-- 
2.43.0


From 8965d9c772a10d90e66772d5bc87242efd0711a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:28 +0000
Subject: [PATCH 30/41] fix: names of types, enum items and flags that
 generated code uses itself made code that does not compile

---
 protospec-build/src/compiler/decoder.rs       |  4 ++--
 protospec-build/src/compiler/encoder.rs       |  4 ++--
 protospec-build/src/compiler/expr.rs          |  5 ++++-
 protospec-build/src/compiler/mod.rs           | 21 +++++++++++++------
 .../src/semantics/convert/type_/bitfield.rs   |  3 +++
 5 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index ae6de4f..6542059 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -185,7 +185,7 @@ fn prepare_decode(
                         .collect::<Vec<_>>(),
                 );
                 let name = emit_ident(&global_name(name));
-                let discriminant = emit_ident(discriminant);
+                let discriminant = variant_ident(discriminant);
                 statements.push(quote! {
                     let #target = #name::#discriminant(#items);
                 });
@@ -210,7 +210,7 @@ fn prepare_decode(
                         .collect::<Vec<_>>(),
                 );
                 let name = emit_ident(&global_name(name));
-                let discriminant = emit_ident(discriminant);
+                let discriminant = variant_ident(discriminant);
                 statements.push(quote! {
                     let #target = #name::#discriminant { #items };
                 });
diff --git a/protospec-build/src/compiler/encoder.rs b/protospec-build/src/compiler/encoder.rs
index 22dffed..84accb1 100644
--- a/protospec-build/src/compiler/encoder.rs
+++ b/protospec-build/src/compiler/encoder.rs
@@ -439,7 +439,7 @@ impl EncoderContext {
                         quote! {}
                     };
                     let enum_name = emit_ident(&global_name(enum_name));
-                    let discriminant = emit_ident(discriminant);
+                    let discriminant = variant_ident(discriminant);
                     let original = emit_register(*original);
                     let checked = emit_register(*checked);
 
@@ -459,7 +459,7 @@ impl EncoderContext {
                     message,
                 ) => {
                     let enum_name = emit_ident(&global_name(enum_name));
-                    let discriminant = emit_ident(discriminant);
+                    let discriminant = variant_ident(discriminant);
                     let original = emit_register(*original);
                     // let checked = emit_register(*checked);
                     let mut checked_name_list = quote! {};
diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 9183ce7..96dff45 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -554,7 +554,10 @@ pub fn emit_expression<F: Fn(&Arc<Field>) -> TokenStream>(
             let name = emit_ident(&global_name(&c.enum_field.name));
             let variant = match &*c.enum_field.type_.borrow() {
                 Type::Bitfield(_) => emit_ident(&bitfield_const_name(&c.variant.name)),
-                _ => emit_ident(&c.variant.name),
+                _ => {
+                    let variant = variant_ident(&c.variant.name);
+                    quote! { #variant }
+                }
             };
             quote! {
                 #name::#variant
diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index eb3847a..5930c2d 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -16,7 +16,8 @@ mod expr;
 /// the name of the Rust type for a type in the specification, apart from what generated code uses itself
 pub fn global_name(input: &str) -> String {
     const USED: &[&str] = &[
-        "AsRef", "Box", "BufRead", "Cursor", "DecodeError", "Default", "EncodeError", "Err",
+        "AsRef", "AsyncBufRead", "AsyncBufReadExt", "AsyncRead", "AsyncReadExt", "AsyncWrite",
+        "AsyncWriteExt", "Box", "BufRead", "Cursor", "DecodeError", "Default", "EncodeError", "Err",
         "Error", "None", "Ok", "Option", "R", "Read", "Result", "Send", "Some", "String", "Sync",
         "TryFrom", "TryInto", "Unpin", "Vec", "W", "Write", "anyhow", "async_recursion", "base64",
         "before", "bits", "buf", "chained", "char", "core", "count", "decode_error", "drop",
@@ -233,7 +234,7 @@ pub fn compile_program(program: &Program, options: &CompileOptions) -> TokenStre
     }
     let components = flatten(components);
     quote! {
-        #[allow(unused_imports, unused_parens, unused_variables, dead_code, unused_mut, non_upper_case_globals)]
+        #[allow(unused_imports, unused_parens, unused_variables, dead_code, unused_mut, non_upper_case_globals, bindings_with_variant_name)]
         mod _ps {
             #components
         }
@@ -346,6 +347,14 @@ fn to_ident(name: &str) -> proc_macro2::Ident {
     }
 }
 
+/// the name of a variant of a generated enum, which must not hide one of the functions of the enum
+fn variant_ident(name: &str) -> proc_macro2::Ident {
+    match name {
+        "from_repr" | "decode_sync" | "decode_async" => format_ident!("{}_", name),
+        name => to_ident(name),
+    }
+}
+
 fn emit_ident(name: &str) -> TokenStream {
     let ident = to_ident(name);
     quote! {
@@ -483,7 +492,7 @@ pub fn generate_container(
         let derives = options.emit_enum_derives(item.contains_float(), &[]);
         let mut fields = vec![];
         for (name, field) in &item.items {
-            let name_ident = to_ident(name);
+            let name_ident = variant_ident(name);
             let type_ = field.type_.borrow();
             let type_ref = match &*type_ {
                 Type::Container(sub_container) => {
@@ -509,7 +518,7 @@ pub fn generate_container(
         let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
             let (default_field, field) =
                 item.items.first().expect("missing enum entry for default");
-            let default_field = to_ident(default_field);
+            let default_field = variant_ident(default_field);
 
             let type_ = field.type_.borrow();
             let default_value = match &*type_ {
@@ -582,7 +591,7 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let rep = format_ident!("{}", item.rep.scalar.to_string());
 
     for (name, value) in item.items.iter() {
-        let discriminant_ident = to_ident(name);
+        let discriminant_ident = variant_ident(name);
         match value {
             EnumValue::Value(value) => {
                 let value = eval_const_expression(&value.value);
@@ -637,7 +646,7 @@ pub fn generate_enum(name: &str, item: &EnumType, options: &CompileOptions) -> T
     let default_impl = if options.enum_derives.iter().any(|x| x == "Default") {
         let (default_field, default_value) =
             item.items.first().expect("missing enum entry for default");
-        let default_field = to_ident(default_field);
+        let default_field = variant_ident(default_field);
         let default_value = match default_value {
             EnumValue::Value(_) => quote! {},
             EnumValue::Default => quote! { (Default::default()) },
diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 5e60846..3f50b5c 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -11,6 +11,9 @@ const BITFIELD_ITEMS: &[&str] = &[
     "encode_sync",
     "decode_async",
     "encode_async",
+    // called on values of bitfields
+    "into",
+    "try_into",
 ];
 
 impl Scope {
-- 
2.43.0


From 9911f6c230e09018aa9a39f34bd97aedfeac9543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:45 +0000
Subject: [PATCH 31/41] fix: the default value of a parameter could refer to
 the parameter itself

---
 .../src/semantics/convert/field.rs            | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/protospec-build/src/semantics/convert/field.rs b/protospec-build/src/semantics/convert/field.rs
index 4c22e88..fcf9820 100644
--- a/protospec-build/src/semantics/convert/field.rs
+++ b/protospec-build/src/semantics/convert/field.rs
@@ -34,23 +34,26 @@ impl Scope {
                         argument.name.span,
                     ));
                 }
-                sub_scope.borrow_mut().declared_inputs.insert(
-                    argument.name.name.clone(),
-                    Arc::new(Input {
-                        name: argument.name.name.clone(),
-                        type_: target_type.clone(),
-                    }),
-                );
+                // a default value can only use earlier arguments
                 arguments.push(TypeArgument {
                     name: argument.name.name.clone(),
                     type_: target_type.clone(),
                     default_value: argument
                         .default_value
                         .as_ref()
-                        .map(|expr| Scope::convert_expr(&sub_scope, expr, target_type.into()))
+                        .map(|expr| {
+                            Scope::convert_expr(&sub_scope, expr, target_type.clone().into())
+                        })
                         .transpose()?,
                     can_resolve_auto: false,
                 });
+                sub_scope.borrow_mut().declared_inputs.insert(
+                    argument.name.name.clone(),
+                    Arc::new(Input {
+                        name: argument.name.name.clone(),
+                        type_: target_type,
+                    }),
+                );
             }
         }
 
-- 
2.43.0


From 2d912d819fbc3e5a732cf6145e4c676080ed2205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:57 +0000
Subject: [PATCH 32/41] fix: true was accepted where a container is needed, in
 aliases of containers and of types with container parameters

---
 .../src/semantics/convert/program/field.rs            | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/program/field.rs b/protospec-build/src/semantics/convert/program/field.rs
index 965a4bf..9d9c568 100644
--- a/protospec-build/src/semantics/convert/program/field.rs
+++ b/protospec-build/src/semantics/convert/program/field.rs
@@ -16,6 +16,15 @@ impl Scope {
             ));
         }
 
+        // placeholder, until the type is converted
+        let placeholder = match &type_.value.type_.raw_type {
+            ast::RawType::Container(_) => Type::Container(Box::new(ContainerType {
+                length: None,
+                items: IndexMap::new(),
+                is_enum: Cell::new(false),
+            })),
+            _ => Type::Bool,
+        };
         let field = Arc::new(Field {
             name: type_names
                 .get(&type_.name.name)
@@ -23,7 +32,7 @@ impl Scope {
                 .clone(),
             arguments: RefCell::new(vec![]),
             span: type_.value.span,
-            type_: RefCell::new(Type::Bool), // placeholder
+            type_: RefCell::new(placeholder),
             condition: RefCell::new(None),
             calculated: RefCell::new(None),
             transforms: RefCell::new(vec![]),
-- 
2.43.0


From 099bad43dbb03f5914eb1a0442191c8927f7fb17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:02 +0000
Subject: [PATCH 33/41] fix: blen was accepted in the type of a parameter

---
 protospec-build/src/semantics/convert/program/calculated.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/protospec-build/src/semantics/convert/program/calculated.rs b/protospec-build/src/semantics/convert/program/calculated.rs
index 134256a..5b7dcd0 100644
--- a/protospec-build/src/semantics/convert/program/calculated.rs
+++ b/protospec-build/src/semantics/convert/program/calculated.rs
@@ -28,6 +28,9 @@ pub(super) fn check_calculations(field: &Field, parent: Option<&ContainerType>)
         }
     }
     for argument in field.arguments.borrow().iter() {
+        argument
+            .type_
+            .visit(&mut |expression| find_blen(&mut found, expression));
         if let Some(default_value) = &argument.default_value {
             default_value.visit(&mut |expression| find_blen(&mut found, expression));
         }
-- 
2.43.0


From 43bc7c5c4894d06b0a4de3c697442376c6d37ab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:07:07 +0000
Subject: [PATCH 34/41] fix: constants could not use ~ on bool or cast bool to
 bool

---
 protospec-build/src/compiler/expr.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index 96dff45..d23173a 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -158,6 +158,7 @@ impl ConstValue {
     pub fn cast_to(&self, target: &Type) -> Option<Self> {
         let target = target.resolved();
         match (self, &*target) {
+            (ConstValue::Bool(value), Type::Bool) => Some(ConstValue::Bool(*value)),
             (ConstValue::Int(i1), Type::Scalar(s)) => Some(ConstValue::Int(i1.cast_to(s.scalar))),
             (ConstValue::Int(i1), Type::Enum(EnumType { rep, .. }))
             | (ConstValue::Int(i1), Type::Bitfield(BitfieldType { rep, .. })) => {
@@ -258,7 +259,10 @@ pub fn eval_const_expression(expr: &Expression) -> Option<ConstValue> {
             Some(match c.op {
                 UnaryOp::Negate => (-inner)?,
                 UnaryOp::Not => ConstValue::Bool(!inner.to_bool()?),
-                UnaryOp::BitNot => ConstValue::Int((!inner.to_int()?)?),
+                UnaryOp::BitNot => match inner.to_bool() {
+                    Some(inner) => ConstValue::Bool(!inner),
+                    None => ConstValue::Int((!inner.to_int()?)?),
+                },
             })
         }
         Cast(c) => {
-- 
2.43.0


From f4e669a6a37ed091c951ef791c4f3f2c949d6f41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:42 +0000
Subject: [PATCH 35/41] fix: branches of a conditional expression in the length
 of a container could be a foreign type and an integer

---
 .../semantics/convert/expression/ternary.rs   | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/semantics/convert/expression/ternary.rs b/protospec-build/src/semantics/convert/expression/ternary.rs
index 1aead64..9bafb4e 100644
--- a/protospec-build/src/semantics/convert/expression/ternary.rs
+++ b/protospec-build/src/semantics/convert/expression/ternary.rs
@@ -9,13 +9,18 @@ impl Scope {
         let condition = Scope::convert_expr(self_, &expr.condition, Type::Bool.into())?;
         let if_true = Scope::convert_expr(self_, &expr.if_true, expected_type.clone())?;
         // both values are of one type
-        let right_type = if expected_type.is_concrete() {
-            expected_type
-        } else {
-            if_true
-                .get_type()
-                .map(|x| x.into())
-                .ok_or(AsgError::UninferredType(*expr.if_true.span()))?
+        let right_type = match (&expected_type, if_true.get_type()) {
+            (PartialType::Scalar(PartialScalarType::Defaults(_)), Some(type_))
+                if matches!(&*type_.resolved(), Type::Foreign(_)) =>
+            {
+                type_.into()
+            }
+            (PartialType::Scalar(PartialScalarType::Defaults(scalar)), _) => {
+                PartialType::Scalar(PartialScalarType::Some(*scalar))
+            }
+            _ if expected_type.is_concrete() => expected_type,
+            (_, Some(type_)) => type_.into(),
+            (_, None) => return Err(AsgError::UninferredType(*expr.if_true.span())),
         };
         let if_false = Scope::convert_expr(self_, &expr.if_false, right_type)?;
         Ok(TernaryExpression {
-- 
2.43.0


From 71314e2c6b65f419e241d842f92f8029bb744a54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:54 +0000
Subject: [PATCH 36/41] fix: the code generated in debug mode differed from run
 to run

---
 protospec-build/src/coder/decode/instruction.rs | 5 +++--
 protospec-build/src/coder/decode/mod.rs         | 7 ++++---
 protospec-build/src/compiler/decoder.rs         | 4 ++--
 3 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/protospec-build/src/coder/decode/instruction.rs b/protospec-build/src/coder/decode/instruction.rs
index c88a609..64ba73e 100644
--- a/protospec-build/src/coder/decode/instruction.rs
+++ b/protospec-build/src/coder/decode/instruction.rs
@@ -1,4 +1,5 @@
 use super::*;
+use indexmap::IndexMap;
 
 #[derive(Debug)]
 pub enum Constructable {
@@ -25,9 +26,9 @@ pub enum Constructable {
 
 #[derive(Debug)]
 pub enum Instruction {
-    Eval(usize, Expression, HashMap<String, usize>),
+    Eval(usize, Expression, IndexMap<String, usize>),
     // target, argument if present, is optional
-    EvalArgument(usize, Option<Expression>, bool, HashMap<String, usize>),
+    EvalArgument(usize, Option<Expression>, bool, IndexMap<String, usize>),
     Construct(usize, Constructable),
     // source, new_stream, len constraint
     Constrict(Target, usize, usize),
diff --git a/protospec-build/src/coder/decode/mod.rs b/protospec-build/src/coder/decode/mod.rs
index 63d34e6..b411567 100644
--- a/protospec-build/src/coder/decode/mod.rs
+++ b/protospec-build/src/coder/decode/mod.rs
@@ -1,7 +1,8 @@
 use super::*;
 use crate::asg::*;
+use indexmap::IndexMap;
 use std::{
-    collections::{HashMap, HashSet},
+    collections::HashSet,
     sync::Arc,
 };
 
@@ -20,7 +21,7 @@ pub use container::*;
 #[derive(Debug)]
 pub struct Context {
     pub register_count: usize,
-    pub field_register_map: HashMap<String, usize>,
+    pub field_register_map: IndexMap<String, usize>,
     pub instructions: Vec<Instruction>,
     pub name: String,
     /// registers that hold an option of the value of their field
@@ -40,7 +41,7 @@ impl Context {
         Context {
             name: String::new(),
             instructions: vec![],
-            field_register_map: HashMap::new(),
+            field_register_map: IndexMap::new(),
             register_count: 0,
             optional_registers: HashSet::new(),
         }
diff --git a/protospec-build/src/compiler/decoder.rs b/protospec-build/src/compiler/decoder.rs
index 6542059..7e17308 100644
--- a/protospec-build/src/compiler/decoder.rs
+++ b/protospec-build/src/compiler/decoder.rs
@@ -1,4 +1,4 @@
-use std::collections::HashMap;
+use indexmap::IndexMap;
 
 use super::*;
 use crate::coder::decode::*;
@@ -22,7 +22,7 @@ fn emit_target_borrow(target: &Target) -> TokenStream {
 }
 
 /// the place that holds the value of a field
-fn emit_field_place(field: &Arc<Field>, registers: &HashMap<String, usize>) -> TokenStream {
+fn emit_field_place(field: &Arc<Field>, registers: &IndexMap<String, usize>) -> TokenStream {
     emit_register(
         *registers
             .get(&field.name)
-- 
2.43.0


From e64b958e4167a90cb5e8cbfe1937ea1fbdefaff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:45 +0000
Subject: [PATCH 37/41] fix: order truth values in constant expressions

---
 protospec-build/src/compiler/expr.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/protospec-build/src/compiler/expr.rs b/protospec-build/src/compiler/expr.rs
index d23173a..f3847e1 100644
--- a/protospec-build/src/compiler/expr.rs
+++ b/protospec-build/src/compiler/expr.rs
@@ -23,6 +23,7 @@ impl PartialOrd for ConstValue {
             (ConstValue::Int(i1), ConstValue::Int(i2)) => i1.partial_cmp(i2),
             (ConstValue::F32(i1), ConstValue::F32(i2)) => i1.partial_cmp(i2),
             (ConstValue::F64(i1), ConstValue::F64(i2)) => i1.partial_cmp(i2),
+            (ConstValue::Bool(i1), ConstValue::Bool(i2)) => i1.partial_cmp(i2),
             _ => None,
         }
     }
-- 
2.43.0


From b626d8217d57e2b3edbc6d9eb7d512203f494d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:37 +0000
Subject: [PATCH 38/41] fix: a type named sum clashed with code generated for
 the function sum

---
 protospec-build/src/compiler/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/compiler/mod.rs b/protospec-build/src/compiler/mod.rs
index 5930c2d..ae549c5 100644
--- a/protospec-build/src/compiler/mod.rs
+++ b/protospec-build/src/compiler/mod.rs
@@ -23,7 +23,7 @@ pub fn global_name(input: &str) -> String {
         "before", "bits", "buf", "chained", "char", "core", "count", "decode_error", "drop",
         "encode_error", "expression_error", "f", "flate2", "head", "mem", "missing", "output",
         "owned", "pending", "ps_default", "ps_value", "r", "raw", "reader", "remaining", "repr",
-        "rhs", "scratch", "shift", "shifted", "size", "slice", "std", "str", "t", "t_count",
+        "rhs", "scratch", "shift", "shifted", "size", "slice", "std", "str", "sum", "t", "t_count",
         "target", "tokio", "total", "usize", "value", "writer", "x", "zeros",
     ];
     let is_parameter = input.starts_with("p_");
-- 
2.43.0


From f0d248e508fc34d95f7378504dcf46a05f325ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:22 +0000
Subject: [PATCH 39/41] fix: the sum of two spans on several lines had the
 columns of the wrong lines

---
 protospec-build/src/tokenizer.rs | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/protospec-build/src/tokenizer.rs b/protospec-build/src/tokenizer.rs
index 0c84f0b..479aa28 100644
--- a/protospec-build/src/tokenizer.rs
+++ b/protospec-build/src/tokenizer.rs
@@ -489,27 +489,13 @@ impl std::ops::Add for Span {
     type Output = Self;
 
     fn add(self, other: Self) -> Self {
-        if self.line_start == other.line_stop {
-            Span {
-                line_start: self.line_start,
-                line_stop: self.line_stop,
-                col_start: self.col_start.min(other.col_start),
-                col_stop: self.col_stop.max(other.col_stop),
-            }
-        } else if self.line_start < other.line_start {
-            Span {
-                line_start: self.line_start,
-                line_stop: other.line_stop,
-                col_start: self.col_start,
-                col_stop: other.col_stop,
-            }
-        } else {
-            Span {
-                line_start: other.line_start,
-                line_stop: self.line_stop,
-                col_start: other.col_start,
-                col_stop: self.col_stop,
-            }
+        let start = (self.line_start, self.col_start).min((other.line_start, other.col_start));
+        let stop = (self.line_stop, self.col_stop).max((other.line_stop, other.col_stop));
+        Span {
+            line_start: start.0,
+            line_stop: stop.0,
+            col_start: start.1,
+            col_stop: stop.1,
         }
     }
 }
-- 
2.43.0


From 6dc68564a7cf2e5d3e35471f5eefff99db6b14a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:22 +0000
Subject: [PATCH 40/41] fix: a comparison with a literal hid the error of its
 other side

---
 .../src/semantics/convert/expression/binary.rs           | 9 ++++++++-
 protospec-build/src/semantics/convert/expression/int.rs  | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/expression/binary.rs b/protospec-build/src/semantics/convert/expression/binary.rs
index 24bd95d..07c89f1 100644
--- a/protospec-build/src/semantics/convert/expression/binary.rs
+++ b/protospec-build/src/semantics/convert/expression/binary.rs
@@ -37,7 +37,14 @@ impl Scope {
         let right = if let Some(left_type) = left.as_ref().map(|x| x.get_type()).ok().flatten() {
             Scope::convert_expr(self_, &expr.right, left_type.into())?
         } else {
-            let right = Scope::convert_expr(self_, &expr.right, init_expected_type)?;
+            let right = match Scope::convert_expr(self_, &expr.right, init_expected_type) {
+                Ok(right) => right,
+                // only what can not be inferred here may be inferred from the other side
+                Err(error) => match left {
+                    Err(left) if !matches!(left, AsgError::UninferredType(_)) => return Err(left),
+                    _ => return Err(error),
+                },
+            };
             if let Some(right_type) = right.get_type() {
                 left = Ok(convert_left(right_type.into())?);
                 if left.as_ref().unwrap().get_type().is_none() {
diff --git a/protospec-build/src/semantics/convert/expression/int.rs b/protospec-build/src/semantics/convert/expression/int.rs
index 6340635..a6ea983 100644
--- a/protospec-build/src/semantics/convert/expression/int.rs
+++ b/protospec-build/src/semantics/convert/expression/int.rs
@@ -10,6 +10,9 @@ impl Scope {
             (_, Some(s)) => *s,
             (PartialType::Scalar(PartialScalarType::Some(s)), _) => *s,
             (PartialType::Scalar(PartialScalarType::Defaults(s)), _) => *s,
+            (PartialType::Any, _) | (PartialType::Scalar(PartialScalarType::None), _) => {
+                return Err(AsgError::UninferredType(expr.span))
+            }
             (x, _) => {
                 return Err(AsgError::UnexpectedType(
                     "integer".to_string(),
-- 
2.43.0


From 96240e7f71b228fea9e1ccb4367ebb0ca51fee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:59:22 +0000
Subject: [PATCH 41/41] fix: a flag declared twice was reported as declared
 originally by the whole bitfield

---
 protospec-build/src/semantics/convert/type_/bitfield.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/protospec-build/src/semantics/convert/type_/bitfield.rs b/protospec-build/src/semantics/convert/type_/bitfield.rs
index 3f50b5c..9b230c5 100644
--- a/protospec-build/src/semantics/convert/type_/bitfield.rs
+++ b/protospec-build/src/semantics/convert/type_/bitfield.rs
@@ -49,7 +49,7 @@ impl Scope {
             }
             let cons = Arc::new(Const {
                 name: name.name.clone(),
-                span: type_.span,
+                span: name.span,
                 type_: Type::Scalar(type_.rep),
                 value: match item {
                     Some(expr) => Scope::convert_expr(
-- 
2.43.0

