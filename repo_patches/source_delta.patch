From ee183fdbb5b99334bf5133c120115dbe9f20cc31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 01/33] fix: do not overflow when computing positions from
 offsets in a font file

---
 victor/src/fonts/parsing.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index 580ad9d..d53e330 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -44,13 +44,15 @@ impl<T> Position<T> {
 
     pub(in crate::fonts) fn offset_bytes<U, O: Into<u32>>(self, by: O) -> Position<U> {
         Position {
-            byte_position: self.byte_position + by.into(),
+            // Saturate instead of overflowing: offsets come from the font file.
+            // Reading at such a position is `OffsetBeyondEof`.
+            byte_position: self.byte_position.saturating_add(by.into()),
             ty: PhantomData,
         }
     }
 
     pub(in crate::fonts) fn offset<O: Into<u32>>(self, by: O) -> Position<T> {
-        self.offset_bytes(mem::size_of::<T>() as u32 * by.into())
+        self.offset_bytes((mem::size_of::<T>() as u32).saturating_mul(by.into()))
     }
 
     pub(in crate::fonts) fn followed_by<U>(self) -> Position<U> {
-- 
2.43.0


From a9259ce52abf985893951e7547aa25368bd4ef74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:12 +0000
Subject: [PATCH 02/33] fix: iterate backward over records of a font table, not
 one past each of them

---
 victor/src/fonts/parsing.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/victor/src/fonts/parsing.rs b/victor/src/fonts/parsing.rs
index d53e330..eb78072 100644
--- a/victor/src/fonts/parsing.rs
+++ b/victor/src/fonts/parsing.rs
@@ -277,13 +277,12 @@ impl<T> Iterator for SliceIter<T> {
 impl<T> DoubleEndedIterator for SliceIter<T> {
     fn next_back(&mut self) -> Option<Self::Item> {
         if self.start != self.end {
-            let next = self.end;
-            let byte_position = next.byte_position - mem::size_of::<T>() as u32;
+            let size = mem::size_of::<T>() as u32;
             self.end = Position {
-                byte_position,
+                byte_position: self.end.byte_position.saturating_sub(size),
                 ty: PhantomData,
             };
-            Some(next)
+            Some(self.end)
         } else {
             None
         }
-- 
2.43.0


From d5beb7ff08fb90ff72b9cf62ee7b7228ccca010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:05 +0000
Subject: [PATCH 03/33] fix: do not overflow or truncate glyph IDs in cmap
 segments with inverted or large ranges

---
 victor/src/fonts/cmap.rs | 45 ++++++++++++++++++----------------------
 1 file changed, 20 insertions(+), 25 deletions(-)

diff --git a/victor/src/fonts/cmap.rs b/victor/src/fonts/cmap.rs
index 3e3d729..bc17011 100644
--- a/victor/src/fonts/cmap.rs
+++ b/victor/src/fonts/cmap.rs
@@ -134,18 +134,12 @@ impl Format4 {
         for segment_index in 0..self.segment_count {
             let start_code = self.start_codes.offset(segment_index).read_from(bytes)?;
             let end_code = self.end_codes.offset(segment_index).read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
+            for code_point in start_code..=end_code {
                 if let Some(glyph_id) =
                     self.glyph_id(bytes, segment_index, start_code, code_point)?
                 {
                     f(u32::from(code_point), glyph_id)
                 }
-
-                if code_point == end_code {
-                    break;
-                }
-                code_point += 1
             }
         }
         Ok(())
@@ -214,17 +208,13 @@ impl Format12 {
 
         if let Some(index) = result? {
             let group = self.groups.get_unchecked(index);
-            let id32 = group.start_glyph_id().read_from(bytes)?
-                + (code_point - group.start_char_code().read_from(bytes)?);
-            // Glyph IDs are 16 bits in PDF.
-            // For now, pretend that glyphs with larger IDs are missing.
-            // FIXME: Maybe this will be unnecessary with PDF font subsetting?
-            if id32 <= 0xFFFF {
-                return Ok(Some(id32 as u16));
-            }
+            Ok(glyph_id_16(
+                group.start_glyph_id().read_from(bytes)?,
+                code_point - group.start_char_code().read_from(bytes)?,
+            ))
+        } else {
+            Ok(None)
         }
-
-        Ok(None)
     }
 
     fn each_code_point<F>(&self, bytes: &[u8], mut f: F) -> Result<(), FontError>
@@ -235,17 +225,22 @@ impl Format12 {
             let start_code = group.start_char_code().read_from(bytes)?;
             let end_code = group.end_char_code().read_from(bytes)?;
             let start_glyph_id = group.start_glyph_id().read_from(bytes)?;
-            let mut code_point = start_code;
-            loop {
-                let glyph_id = (code_point - start_code) + start_glyph_id;
-                f(code_point, glyph_id as u16);
-
-                if code_point == end_code {
-                    break;
+            for code_point in start_code..=end_code {
+                if let Some(glyph_id) = glyph_id_16(start_glyph_id, code_point - start_code) {
+                    f(code_point, glyph_id)
                 }
-                code_point += 1;
             }
         }
         Ok(())
     }
 }
+
+/// Glyph IDs are 16 bits in PDF.
+/// For now, pretend that glyphs with larger IDs are missing.
+/// FIXME: Maybe this will be unnecessary with PDF font subsetting?
+fn glyph_id_16(start_glyph_id: u32, offset_in_group: u32) -> Option<u16> {
+    match start_glyph_id.checked_add(offset_in_group) {
+        Some(id32) if id32 <= 0xFFFF => Some(id32 as u16),
+        _ => None,
+    }
+}
-- 
2.43.0


From 858cb618b35323df14f4dcea725c043bf501019c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 04/33] fix: report errors in writing the last bytes of a PDF
 file

---
 victor/src/pdf/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/mod.rs b/victor/src/pdf/mod.rs
index f5636a7..5ed714c 100644
--- a/victor/src/pdf/mod.rs
+++ b/victor/src/pdf/mod.rs
@@ -33,7 +33,10 @@ impl Document {
 
     /// Encode this document to PDF and write it into the file with the given name.
     pub fn write_to_pdf_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), io::Error> {
-        self.write_to_pdf(&mut io::BufWriter::new(fs::File::create(filename)?))
+        let mut file = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_pdf(&mut file)?;
+        // Dropping a `BufWriter` ignores errors
+        file.flush()
     }
 
     /// Encode this document to PDF and return a vector of bytes
-- 
2.43.0


From a5931fffaaa8888cd4b64f22720724696fe2185c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 05/33] fix: report errors in writing the last bytes of a PNG
 file

---
 lester/src/cairo.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index 07955dd..a13aba0 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -133,7 +133,11 @@ impl ImageSurface {
 
     /// Encode this image to PNG and write it into the file with the given name.
     pub fn write_to_png_file<P: AsRef<path::Path>>(&self, filename: P) -> Result<(), LesterError> {
-        self.write_to_png(io::BufWriter::new(fs::File::create(filename)?))
+        let mut file = io::BufWriter::new(fs::File::create(filename)?);
+        self.write_to_png(&mut file)?;
+        // Dropping a `BufWriter` ignores errors
+        file.flush()?;
+        Ok(())
     }
 }
 
-- 
2.43.0


From a0759d83dcf8b2bec8169e37b5911903bf9ed634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 06/33] fix: escape number signs in PDF names

---
 victor/src/pdf/object.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 1e17745..22ce706 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -243,8 +243,9 @@ fn write_name<W: Write>(name: &[u8], w: &mut W) -> io::Result<()> {
     w.write_all(b"/")?;
     for &byte in name {
         match KIND[byte as usize] {
-            CharKind::Regular => w.write_all(&[byte])?,
-            CharKind::Whitespace | CharKind::Delimiter => {
+            // “#” itself introduces an escape sequence
+            CharKind::Regular if byte != b'#' => w.write_all(&[byte])?,
+            _ => {
                 w.write_all(b"#")?;
                 write_hex(byte, w)?
             }
-- 
2.43.0


From 1dabbe8e18287ef9d3ed2c490230c81c415b6783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 07/33] fix: escape carriage returns in PDF literal strings

---
 victor/src/pdf/object.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index 22ce706..e6adeed 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -161,6 +161,8 @@ impl<'a> Object<'a> {
                 for &byte in value {
                     match byte {
                         b'\\' | b'(' | b')' => w.write_all(&[b'\\', byte])?,
+                        // An unescaped carriage return is read as a line feed
+                        b'\r' => w.write_all(b"\\r")?,
                         _ => w.write_all(&[byte])?,
                     }
                 }
-- 
2.43.0


From dc006681e265b192a20c80b66f99301fec45284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:47 +0000
Subject: [PATCH 08/33] fix: do not use exponential notation for numbers in PDF

---
 victor/src/pdf/object.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index e6adeed..acd19d6 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -153,7 +153,7 @@ impl<'a> Object<'a> {
             // https://www.adobe.com/content/dam/acom/en/devnet/pdf/PDF32000_2008.pdf#G6.1965566
             Object::I32(value) => itoa::write(w, value).map(|_| ()),
             Object::Usize(value) => itoa::write(w, value).map(|_| ()),
-            Object::Float(value) => dtoa::write(w, value).map(|_| ()),
+            Object::Float(value) => write_float(value, w),
             Object::Name(value) => write_name(value, w),
             Object::Dictionary(ref value) => value.write(w),
             Object::LiteralString(value) => {
@@ -233,6 +233,16 @@ impl<'a> Dictionary<'a> {
     }
 }
 
+fn write_float<W: Write>(value: f32, w: &mut W) -> io::Result<()> {
+    let magnitude = value.abs();
+    if magnitude == 0. || (magnitude >= 1e-5 && magnitude < 1e15) {
+        dtoa::write(w, value).map(|_| ())
+    } else {
+        // dtoa would use exponential notation, which PDF does not support
+        write!(w, "{}", value)
+    }
+}
+
 fn write_hex<W: Write>(byte: u8, w: &mut W) -> io::Result<()> {
     const HEX_DIGITS: [u8; 16] = *b"0123456789ABCDEF";
     w.write_all(&[
-- 
2.43.0


From 39308ea34fb832893967b5ab13d5bc2358651e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 09/33] fix: do not truncate to 32 bits the object offsets of
 PDF files over 4 GB

---
 victor/src/pdf/syntax.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/victor/src/pdf/syntax.rs b/victor/src/pdf/syntax.rs
index 9cf5ae4..69ffd9e 100644
--- a/victor/src/pdf/syntax.rs
+++ b/victor/src/pdf/syntax.rs
@@ -85,7 +85,7 @@ impl PdfFile {
                 assert_eq!(next_object_id, object_id);
                 next_object_id.0 += 1;
 
-                indirect_object_offsets.push(w.bytes_written as u32);
+                indirect_object_offsets.push(w.bytes_written);
                 itoa(&mut w, object_id.0)?;
                 w.write_all(b" 0 obj\n")?; // Generation number is always zero for us
                 dictionary.write(&mut w)?;
@@ -96,7 +96,7 @@ impl PdfFile {
                 let object_id = next_object_id;
                 next_object_id.0 += 1;
 
-                indirect_object_offsets.push(w.bytes_written as u32);
+                indirect_object_offsets.push(w.bytes_written);
                 itoa(&mut w, object_id.0)?;
                 w.write_all(b" 0 obj\n")?; // Generation number is always zero for us
                 w.write_all(contents)?;
@@ -143,9 +143,9 @@ fn slice_to_10(buffer: &mut [u8; 20]) -> &mut [u8; 10] {
     unsafe { &mut *ptr }
 }
 
-fn itoa_zero_padded(mut value: u32, buffer: &mut [u8; 10]) {
+fn itoa_zero_padded(mut value: usize, buffer: &mut [u8; 10]) {
     for byte in buffer.iter_mut().rev() {
-        *byte = b"0123456789"[(value % 10) as usize];
+        *byte = b"0123456789"[value % 10];
         value /= 10;
     }
 }
-- 
2.43.0


From ab230578465769e6a6d1b23f68be683076f40162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 10/33] fix: do not write non-finite numbers in PDF

---
 victor/src/pdf/object.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/victor/src/pdf/object.rs b/victor/src/pdf/object.rs
index acd19d6..44699d2 100644
--- a/victor/src/pdf/object.rs
+++ b/victor/src/pdf/object.rs
@@ -234,6 +234,12 @@ impl<'a> Dictionary<'a> {
 }
 
 fn write_float<W: Write>(value: f32, w: &mut W) -> io::Result<()> {
+    // PDF does not have infinities or NaN
+    let value = if value.is_nan() {
+        0.
+    } else {
+        value.max(f32::MIN).min(f32::MAX)
+    };
     let magnitude = value.abs();
     if magnitude == 0. || (magnitude >= 1e-5 && magnitude < 1e15) {
         dtoa::write(w, value).map(|_| ())
-- 
2.43.0


From 70e509000921ffa2f8183157ed7ab7f202350772 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 11/33] fix: do not make a slice from the null data pointer of
 an empty surface

---
 lester/src/cairo.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/lester/src/cairo.rs b/lester/src/cairo.rs
index a13aba0..a8545a4 100644
--- a/lester/src/cairo.rs
+++ b/lester/src/cairo.rs
@@ -115,13 +115,16 @@ impl ImageSurface {
                 "Expected cairo to allocated data aligned to 32 bits"
             );
 
+            let length = (width * height).try_into().unwrap();
             Argb32Pixels {
                 width: width.try_into().unwrap(),
                 height: height.try_into().unwrap(),
-                buffer: slice::from_raw_parts_mut(
-                    data as *mut u32,
-                    (width * height).try_into().unwrap(),
-                ),
+                buffer: if length == 0 {
+                    // In this case cairo may not allocate anything and return a null pointer
+                    &mut []
+                } else {
+                    slice::from_raw_parts_mut(data as *mut u32, length)
+                },
             }
         }
     }
-- 
2.43.0


From b560c29f3798063db520481375be5fc24517ea8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:09 +0000
Subject: [PATCH 12/33] fix: do not convert NaN to an integer in rendered page
 sizes

---
 lester/src/convert.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lester/src/convert.rs b/lester/src/convert.rs
index 6ba226b..baaa033 100644
--- a/lester/src/convert.rs
+++ b/lester/src/convert.rs
@@ -85,10 +85,11 @@ macro_rules! try_into_both_bounded {
             fn try_into(self) -> Result<$target, TryIntoIntError> {
                 let min = <$target>::min_value() as $source;
                 let max = <$target>::max_value() as $source;
-                if self < min || self > max {
-                    Err(TryIntoIntError(()))
-                } else {
+                // This is also false for NaN
+                if self >= min && self <= max {
                     Ok(self as $target)
+                } else {
+                    Err(TryIntoIntError(()))
                 }
             }
         }
-- 
2.43.0


From ee12e9259b4c5a2aee42efddbad0fd1ae8149380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:43 +0000
Subject: [PATCH 13/33] fix: the property border-right-color was registered as
 border-color-right

---
 victor/src/style/properties/definitions.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/style/properties/definitions.rs b/victor/src/style/properties/definitions.rs
index ad414d2..2568cfe 100644
--- a/victor/src/style/properties/definitions.rs
+++ b/victor/src/style/properties/definitions.rs
@@ -43,7 +43,7 @@ properties! {
         border_top_color { "border-top-color", Color, initial = Color::CurrentColor }
         border_left_color { "border-left-color", Color, initial = Color::CurrentColor }
         border_bottom_color { "border-bottom-color", Color, initial = Color::CurrentColor }
-        border_right_color { "border-color-right", Color, initial = Color::CurrentColor }
+        border_right_color { "border-right-color", Color, initial = Color::CurrentColor }
 
         border_top_style { "border-top-style", LineStyle, initial = LineStyle::None }
         border_left_style { "border-left-style", LineStyle, initial = LineStyle::None }
-- 
2.43.0


From d59555cab2976b1ca400456d99ec786b602cc778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:49 +0000
Subject: [PATCH 14/33] fix: a declaration with trailing garbage after a valid
 value caused a panic

---
 victor/src/style/declaration_block.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/victor/src/style/declaration_block.rs b/victor/src/style/declaration_block.rs
index 68699de..3ac92ec 100644
--- a/victor/src/style/declaration_block.rs
+++ b/victor/src/style/declaration_block.rs
@@ -100,6 +100,11 @@ impl<'i> DeclarationParser<'i> for LonghandDeclarationParser {
                 parsed = (data.parse)(parser, &mut self.block.declarations)?
             }
             let important = parser.r#try(cssparser::parse_important).is_ok();
+            if let Err(error) = parser.expect_exhausted() {
+                // Invalid as a whole, don’t keep a part of it
+                self.block.declarations.truncate(previous_len);
+                return Err(error.into());
+            }
             let count = self.block.declarations.len() - previous_len;
             assert!(count > 0);
             self.block.important.extend(repeat(important).take(count));
-- 
2.43.0


From cb21bde766d426b086502b5fc6a40b683953adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:54 +0000
Subject: [PATCH 15/33] fix: CSS keywords were matched case-sensitively

---
 proc-macros/src/style.rs        | 16 ++++++++--------
 victor/src/style/values/box_.rs |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/proc-macros/src/style.rs b/proc-macros/src/style.rs
index 901ac09..b06c325 100644
--- a/proc-macros/src/style.rs
+++ b/proc-macros/src/style.rs
@@ -158,14 +158,14 @@ pub fn derive_parse(input: TokenStream) -> TokenStream {
     if !unit_variants.is_empty() {
         parse.extend(quote! {
             if let Ok(ident) = parser.r#try(|parser| parser.expect_ident_cloned()) {
-                match &*ident {
-                    #(
-                        #keywords => return Ok(#unit_variants),
-                    )*
-                    _ => return Err(parser.new_unexpected_token_error(
-                        cssparser::Token::Ident(ident)
-                    ))
-                }
+                #(
+                    if ident.eq_ignore_ascii_case(#keywords) {
+                        return Ok(#unit_variants)
+                    }
+                )*
+                return Err(parser.new_unexpected_token_error(
+                    cssparser::Token::Ident(ident)
+                ))
             }
         })
     }
diff --git a/victor/src/style/values/box_.rs b/victor/src/style/values/box_.rs
index 4a5184d..33d5425 100644
--- a/victor/src/style/values/box_.rs
+++ b/victor/src/style/values/box_.rs
@@ -78,7 +78,7 @@ impl Display {
 impl super::Parse for Display {
     fn parse<'i, 't>(parser: &mut Parser<'i, 't>) -> Result<Self, PropertyParseError<'i>> {
         let ident = parser.expect_ident()?;
-        match &**ident {
+        match_ignore_ascii_case!(ident,
             "none" => Ok(Display::None),
             "contents" => Ok(Display::Contents),
             "block" => Ok(Display::GeneratingBox(
@@ -103,7 +103,7 @@ impl super::Parse for Display {
                 let token = cssparser::Token::Ident(ident.clone());
                 Err(parser.new_unexpected_token_error(token))
             }
-        }
+        )
     }
 }
 
-- 
2.43.0


From 40dbc07cac1fc322722f87539fc84a2f1324aeea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 16/33] fix: a class selector only matched elements with a
 single class

---
 victor/src/style/selectors.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/style/selectors.rs b/victor/src/style/selectors.rs
index 07228b6..c0b9b7b 100644
--- a/victor/src/style/selectors.rs
+++ b/victor/src/style/selectors.rs
@@ -232,7 +232,8 @@ impl<'a> selectors::Element for NodeRef<'a> {
             .unwrap()
             .get_attr(&local_name!("class"))
             .map_or(false, |attr| {
-                case_sensitivity.eq(class.as_bytes(), attr.as_bytes())
+                attr.split_ascii_whitespace()
+                    .any(|item| case_sensitivity.eq(class.as_bytes(), item.as_bytes()))
             })
     }
 
-- 
2.43.0


From 1a989b579e8dd30ebac631cbda4540b3addf127c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:54 +0000
Subject: [PATCH 17/33] fix: style elements with an empty type attribute were
 ignored

---
 victor/src/dom/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 8603d44..19f840c 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -50,7 +50,7 @@ impl Document {
             let element = &self[id];
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
             if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
-                if !type_attr.eq_ignore_ascii_case("text/css") {
+                if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
             }
-- 
2.43.0


From fbab4575958c4ebebc29699c0cd7afd9c44ee7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:59 +0000
Subject: [PATCH 18/33] fix: only the first child was moved when the HTML
 parser reparents children

---
 victor/src/dom/html.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index b93a81d..2eb3a8f 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -202,8 +202,9 @@ impl TreeSink for Sink {
         let mut next_child = self.document[node].first_child;
         while let Some(child) = next_child {
             debug_assert_eq!(self.document[child].parent, Some(node));
+            // Read this before `append` changes it
+            next_child = self.document[child].next_sibling;
             self.document.append(new_parent, child);
-            next_child = self.document[child].next_sibling
         }
     }
 }
-- 
2.43.0


From 206cb499b83cf63ea8dc0a5070ce86e545849b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:04 +0000
Subject: [PATCH 19/33] fix: layout did not terminate after an element with
 display: none that is a last child of a last child

---
 victor/src/layout/dom_traversal.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/victor/src/layout/dom_traversal.rs b/victor/src/layout/dom_traversal.rs
index 848e89b..73a5fb1 100644
--- a/victor/src/layout/dom_traversal.rs
+++ b/victor/src/layout/dom_traversal.rs
@@ -327,18 +327,18 @@ impl Context<'_> {
             }
             let mut next_is_a_sibling_of = node_id;
             node_id = loop {
+                if next_is_a_sibling_of == base_element {
+                    // Don’t go outside the subtree
+                    return;
+                }
                 if let Some(sibling) = self.document[next_is_a_sibling_of].next_sibling {
                     break sibling;
                 } else {
-                    next_is_a_sibling_of = node
+                    next_is_a_sibling_of = self.document[next_is_a_sibling_of]
                         .parent
                         .expect("reached the root while traversing only a subtree");
                 }
             };
-            if next_is_a_sibling_of == base_element {
-                // Don’t go outside the subtree
-                return;
-            }
         }
     }
 }
-- 
2.43.0


From e48a592e6cd45e8ce27e23e8a6ea9aa463557066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:17 +0000
Subject: [PATCH 20/33] fix: block-axis sizes and offsets of absolutely
 positioned boxes were relative to the width

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9794d1a..9fa376a 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -217,7 +217,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         );
 
         let (block_anchor, block_size, margin_block_start, margin_block_end) = solve_axis(
-            cbis,
+            cbbs,
             pb.block_sum(),
             computed_margin.block_start,
             computed_margin.block_end,
-- 
2.43.0


From 979fc4215d26243e7e790fb62a39cbe1d7b5906f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:21 +0000
Subject: [PATCH 21/33] fix: absolutely positioned boxes with only an end
 offset in the inline axis were placed from the height

---
 victor/src/layout/positioned.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index 9fa376a..fa65ed2 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -263,7 +263,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
 
         let inline_start = match inline_anchor {
             Anchor::Start(start) => start + pb.inline_start + margin.inline_start,
-            Anchor::End(end) => cbbs - end - pb.inline_end - margin.inline_end - inline_size,
+            Anchor::End(end) => cbis - end - pb.inline_end - margin.inline_end - inline_size,
         };
 
         let block_size = block_size.auto_is(|| flow_children.block_size);
-- 
2.43.0


From eb602ddd4a755fed348761d0eb9caf109af551a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:50 +0000
Subject: [PATCH 22/33] fix: stylesheets were applied in order of creation of
 the style elements, not in tree order

---
 victor/src/dom/html.rs |  9 ++-------
 victor/src/dom/mod.rs  | 12 +++++++-----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/victor/src/dom/html.rs b/victor/src/dom/html.rs
index 2eb3a8f..b9a2e98 100644
--- a/victor/src/dom/html.rs
+++ b/victor/src/dom/html.rs
@@ -106,17 +106,12 @@ impl TreeSink for Sink {
             ..
         }: ElementFlags,
     ) -> NodeId {
-        let is_style = name.expanded() == expanded_name!(html "style");
-        let element = self.new_node(NodeData::Element(ElementData {
+        self.new_node(NodeData::Element(ElementData {
             name,
             attrs: attrs.into_iter().map(Attribute::from).collect(),
             mathml_annotation_xml_integration_point,
             layout_data: Default::default(),
-        }));
-        if is_style {
-            self.document.style_elements.push(element)
-        }
-        element
+        }))
     }
 
     fn create_comment(&mut self, text: StrTendril) -> NodeId {
diff --git a/victor/src/dom/mod.rs b/victor/src/dom/mod.rs
index 19f840c..355e967 100644
--- a/victor/src/dom/mod.rs
+++ b/victor/src/dom/mod.rs
@@ -13,7 +13,6 @@ pub use self::xml::XmlError;
 
 pub struct Document {
     nodes: Vec<Node>,
-    style_elements: Vec<NodeId>,
 }
 
 pub struct Node {
@@ -36,7 +35,6 @@ impl Document {
         let document_node = Node::new(NodeData::Document);
         Document {
             nodes: vec![dummy, document_node],
-            style_elements: Vec::new(),
         }
     }
 
@@ -46,10 +44,14 @@ impl Document {
 
     pub(crate) fn parse_stylesheets(&self) -> StyleSet {
         let mut style_set = StyleSetBuilder::new();
-        for &id in &self.style_elements {
-            let element = &self[id];
+        // In tree order, which is not always the order of creation (“foster parenting”)
+        for id in self.nodes() {
+            let element = match self[id].as_element() {
+                Some(e) if e.name.expanded() == expanded_name!(html "style") => e,
+                _ => continue,
+            };
             // https://html.spec.whatwg.org/multipage/semantics.html#update-a-style-block
-            if let Some(type_attr) = element.as_element().unwrap().get_attr(&local_name!("type")) {
+            if let Some(type_attr) = element.get_attr(&local_name!("type")) {
                 if !type_attr.is_empty() && !type_attr.eq_ignore_ascii_case("text/css") {
                     continue;
                 }
-- 
2.43.0


From a08faf8e4c438a6fe34a804fb06a775e249398d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 23/33] fix: margin-left: auto ignored margin-right, and boxes
 too wide for both auto margins were moved to the left

---
 victor/src/layout/flow/mod.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a810dfb..8c032aa 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -323,19 +323,20 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             &mut computed_margin.inline_end,
         ) {
             (s @ &mut Auto, e @ &mut Auto) => {
-                *s = Length(inline_margins / 2.);
-                *e = Length(inline_margins / 2.);
+                let start = (inline_margins / 2.).max(crate::geom::Length::zero());
+                *s = Length(start);
+                *e = Length(inline_margins - start);
             }
-            (s @ &mut Auto, _) => {
-                *s = Length(inline_margins);
+            (s @ &mut Auto, e @ &mut Length(_)) => {
+                let start = (inline_margins - e.auto_is(crate::geom::Length::zero))
+                    .max(crate::geom::Length::zero());
+                *s = Length(start);
+                *e = Length(inline_margins - start);
             }
-            (_, e @ &mut Auto) => {
-                *e = Length(inline_margins);
-            }
-            (_, e @ _) => {
+            (&mut Length(s), e) => {
                 // Either the inline-end margin is auto,
                 // or we’re over-constrained and we do as if it were.
-                *e = Length(inline_margins);
+                *e = Length(inline_margins - s);
             }
         }
     }
-- 
2.43.0


From e18700f09315eb5030dee4f61e21722931576874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 24/33] fix: percentage offsets of relatively positioned blocks
 were relative to their own size

---
 victor/src/layout/flow/inline.rs |  6 +-----
 victor/src/layout/flow/mod.rs    |  2 +-
 victor/src/layout/mod.rs         | 14 +++++++++-----
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 5c39bb9..8870489 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -196,11 +196,7 @@ impl InlineBox {
             block: padding.block_start + border.block_start + margin.block_start,
             inline: ifc.inline_position - ifc.current_nesting_level.inline_start,
         };
-        start_corner += &relative_adjustement(
-            &style,
-            ifc.containing_block.inline_size,
-            ifc.containing_block.block_size,
-        );
+        start_corner += &relative_adjustement(&style, ifc.containing_block);
         PartialInlineBoxFragment {
             style,
             start_corner,
diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index 8c032aa..a630bc2 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -407,7 +407,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
             && flow_children
                 .collapsible_margins_in_children
                 .collapsed_through;
-    let relative_adjustement = relative_adjustement(style, inline_size, block_size);
+    let relative_adjustement = relative_adjustement(style, containing_block);
     let block_size = block_size.auto_is(|| flow_children.block_size);
     let content_rect = Rect {
         start_corner: Vec2 {
diff --git a/victor/src/layout/mod.rs b/victor/src/layout/mod.rs
index ad4f4a7..f284b8f 100644
--- a/victor/src/layout/mod.rs
+++ b/victor/src/layout/mod.rs
@@ -105,8 +105,7 @@ struct DefiniteContainingBlock {
 /// https://drafts.csswg.org/css2/visuren.html#relative-positioning
 fn relative_adjustement(
     style: &ComputedValues,
-    inline_size: Length,
-    block_size: LengthOrAuto,
+    containing_block: &ContainingBlock,
 ) -> Vec2<Length> {
     if !style.box_.position.is_relatively_positioned() {
         return Vec2::zero();
@@ -118,10 +117,15 @@ fn relative_adjustement(
             (LengthOrAuto::Length(start), _) => start,
         }
     }
-    let block_size = block_size.auto_is(Length::zero);
+    let cbis = containing_block.inline_size;
+    let cbbs = containing_block.block_size;
     let box_offsets = style.box_offsets().map_inline_and_block_axes(
-        |v| v.percentage_relative_to(inline_size),
-        |v| v.percentage_relative_to(block_size),
+        |v| v.percentage_relative_to(cbis),
+        |v| match (v, cbbs) {
+            // Percentages of an auto height compute to auto
+            (LengthOrPercentageOrAuto::Percentage(_), LengthOrAuto::Auto) => LengthOrAuto::Auto,
+            _ => v.percentage_relative_to(cbbs.auto_is(Length::zero)),
+        },
     );
     Vec2 {
         inline: adjust(box_offsets.inline_start, box_offsets.inline_end),
-- 
2.43.0


From 31beb318706fef452a92bc3318222a1156e1e678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 25/33] fix: static positions of absolutely positioned boxes
 ignored the padding of their containing block

---
 victor/src/layout/flow/mod.rs   |  2 +-
 victor/src/layout/positioned.rs | 14 ++++++++++++--
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/mod.rs b/victor/src/layout/flow/mod.rs
index a630bc2..a974c43 100644
--- a/victor/src/layout/flow/mod.rs
+++ b/victor/src/layout/flow/mod.rs
@@ -421,7 +421,7 @@ fn layout_in_flow_non_replaced_block_level<'a>(
     };
     if style.box_.position.is_relatively_positioned() {
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &nested_abspos,
+            &mut nested_abspos,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
diff --git a/victor/src/layout/positioned.rs b/victor/src/layout/positioned.rs
index fa65ed2..d334466 100644
--- a/victor/src/layout/positioned.rs
+++ b/victor/src/layout/positioned.rs
@@ -83,7 +83,7 @@ impl AbsolutelyPositionedBox {
 
 impl<'a> AbsolutelyPositionedFragment<'a> {
     pub(super) fn in_positioned_containing_block(
-        absolute: &[Self],
+        absolute: &mut [Self],
         fragments: &mut Vec<Fragment>,
         content_rect_size: &Vec2<Length>,
         padding: &Sides<Length>,
@@ -98,6 +98,16 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
             start_corner: Vec2::zero(),
         }
         .inflate(&padding);
+        // Static positions are from the content rect so far,
+        // the containing block is the padding rect.
+        for a in &mut *absolute {
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.inline_start {
+                *start += padding.inline_start
+            }
+            if let AbsoluteBoxOffsets::StaticStart { start } = &mut a.block_start {
+                *start += padding.block_start
+            }
+        }
         let containing_block = DefiniteContainingBlock {
             size: padding_rect.size.clone(),
             mode,
@@ -284,7 +294,7 @@ impl<'a> AbsolutelyPositionedFragment<'a> {
         };
 
         AbsolutelyPositionedFragment::in_positioned_containing_block(
-            &absolutely_positioned_fragments,
+            &mut absolutely_positioned_fragments,
             &mut flow_children.fragments,
             &content_rect.size,
             &padding,
-- 
2.43.0


From bf3cde5bf040a624071b9329072ac54e4b0a95be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 26/33] fix: every line of a text was as short as its first
 line, which may start after other content

---
 victor/src/layout/flow/inline.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 8870489..d7f438d 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -265,9 +265,9 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
 
 impl TextRun {
     fn layout(&self, ifc: &mut InlineFormattingContextState) {
-        let available = ifc.containing_block.inline_size - ifc.inline_position;
         let mut chars = self.text.chars();
         loop {
+            let available = ifc.containing_block.inline_size - ifc.inline_position;
             let mut shaped = ShapedSegment::new_with_naive_shaping(BITSTREAM_VERA_SANS.clone());
             let mut last_break_opportunity = None;
             loop {
-- 
2.43.0


From c52deddbf2edda131ea0301d746ee9dae85253ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 27/33] fix: inline boxes in other inline boxes were too wide

---
 victor/src/layout/flow/inline.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index d7f438d..7273ed6 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -229,7 +229,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             children: take(&mut nesting_level.fragments_so_far),
             content_rect: Rect {
                 size: Vec2 {
-                    inline: *inline_position - self.start_corner.inline,
+                    inline: *inline_position - nesting_level.inline_start,
                     block: nesting_level.max_block_size_of_fragments_so_far,
                 },
                 start_corner: self.start_corner.clone(),
@@ -321,15 +321,14 @@ impl TextRun {
                 break;
             } else {
                 // New line
-                ifc.current_nesting_level.inline_start = Length::zero();
                 let mut nesting_level = &mut ifc.current_nesting_level;
                 for partial in ifc.partial_inline_boxes_stack.iter_mut().rev() {
                     partial.finish_layout(nesting_level, &mut ifc.inline_position, true);
+                    nesting_level.inline_start = Length::zero();
                     partial.start_corner.inline = Length::zero();
                     partial.padding.inline_start = Length::zero();
                     partial.border.inline_start = Length::zero();
                     partial.margin.inline_start = Length::zero();
-                    partial.parent_nesting_level.inline_start = Length::zero();
                     nesting_level = &mut partial.parent_nesting_level;
                 }
                 ifc.line_boxes
-- 
2.43.0


From 67851ab7484661a0cc048fe0a627a9e97594c90a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:21 +0000
Subject: [PATCH 28/33] fix: fragments of inline boxes on later lines were as
 high as on the highest line before

---
 victor/src/layout/flow/inline.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index 7273ed6..c3f5460 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -230,7 +230,10 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
             content_rect: Rect {
                 size: Vec2 {
                     inline: *inline_position - nesting_level.inline_start,
-                    block: nesting_level.max_block_size_of_fragments_so_far,
+                    block: std::mem::replace(
+                        &mut nesting_level.max_block_size_of_fragments_so_far,
+                        Length::zero(),
+                    ),
                 },
                 start_corner: self.start_corner.clone(),
             },
-- 
2.43.0


From 185fd18f039ba7cb72757ae5d6a3811d1a161374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 29/33] fix: inline boxes with position: relative were not
 moved horizontally after their first line

---
 victor/src/layout/flow/inline.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/inline.rs b/victor/src/layout/flow/inline.rs
index c3f5460..bd15fc1 100644
--- a/victor/src/layout/flow/inline.rs
+++ b/victor/src/layout/flow/inline.rs
@@ -45,6 +45,7 @@ struct InlineNestingLevelState<'box_tree> {
 struct PartialInlineBoxFragment<'box_tree> {
     style: Arc<ComputedValues>,
     start_corner: Vec2<Length>,
+    relative_adjustement: Vec2<Length>,
     padding: Sides<Length>,
     border: Sides<Length>,
     margin: Sides<Length>,
@@ -192,14 +193,15 @@ impl InlineBox {
             border.inline_start = Length::zero();
             margin.inline_start = Length::zero();
         }
-        let mut start_corner = Vec2 {
+        let start_corner = Vec2 {
             block: padding.block_start + border.block_start + margin.block_start,
             inline: ifc.inline_position - ifc.current_nesting_level.inline_start,
         };
-        start_corner += &relative_adjustement(&style, ifc.containing_block);
+        let relative_adjustement = relative_adjustement(&style, ifc.containing_block);
         PartialInlineBoxFragment {
             style,
             start_corner,
+            relative_adjustement,
             padding,
             border,
             margin,
@@ -235,7 +237,7 @@ impl<'box_tree> PartialInlineBoxFragment<'box_tree> {
                         Length::zero(),
                     ),
                 },
-                start_corner: self.start_corner.clone(),
+                start_corner: &self.start_corner + &self.relative_adjustement,
             },
             padding: self.padding.clone(),
             border: self.border.clone(),
-- 
2.43.0


From d830e202cb52325184692f8de2bae41a0d1dfca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 30/33] fix: a block-level element in an inline element caused
 a panic

---
 victor/src/layout/flow/construct.rs | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4acfc93..4729d5d 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -470,11 +470,6 @@ impl<'a> BlockContainerBuilder<'a> {
     }
 
     fn end_ongoing_inline_formatting_context(&mut self) {
-        assert!(
-            self.ongoing_inline_boxes_stack.is_empty(),
-            "there should be no ongoing inline level boxes",
-        );
-
         if self
             .ongoing_inline_formatting_context
             .inline_level_boxes
-- 
2.43.0


From 7ba6f0577645bf2a95297c2c1251faadc8acc65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 31/33] fix: white space at the start of inline elements was
 removed

---
 victor/src/layout/flow/construct.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 4729d5d..410b9ae 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -267,8 +267,17 @@ impl<'a> BlockContainerBuilder<'a> {
         if !text.starts_with(|c: char| c.is_ascii_whitespace()) {
             return (false, text);
         }
-        let mut inline_level_boxes = self.current_inline_level_boxes().iter().rev();
+        // What comes before in the current inline box, then in the boxes it is in
+        let mut inline_level_boxes = self
+            .ongoing_inline_formatting_context
+            .inline_level_boxes
+            .iter()
+            .rev();
         let mut stack = Vec::new();
+        for ongoing in &self.ongoing_inline_boxes_stack {
+            stack.push(inline_level_boxes);
+            inline_level_boxes = ongoing.children.iter().rev();
+        }
         let preserved = loop {
             match inline_level_boxes.next().map(|b| &**b) {
                 Some(InlineLevelBox::TextRun(r)) => break !r.text.ends_with(' '),
-- 
2.43.0


From 56f840f47f9cbcffdc9fe0d43bd87430edfaaec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:48 +0000
Subject: [PATCH 32/33] fix: text in elements with display: contents had the
 style of text before it

---
 victor/src/layout/flow/construct.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/victor/src/layout/flow/construct.rs b/victor/src/layout/flow/construct.rs
index 410b9ae..677bf13 100644
--- a/victor/src/layout/flow/construct.rs
+++ b/victor/src/layout/flow/construct.rs
@@ -200,9 +200,16 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
             // context with the parent style of that builder.
             let inlines = self.current_inline_level_boxes();
 
-            fn last_text(inlines: &mut [Arc<InlineLevelBox>]) -> Option<&mut String> {
+            fn last_text<'i>(
+                inlines: &'i mut [Arc<InlineLevelBox>],
+                style: &Arc<ComputedValues>,
+            ) -> Option<&'i mut String> {
                 let last = inlines.last_mut()?;
-                if let InlineLevelBox::TextRun(_) = &**last {
+                if let InlineLevelBox::TextRun(run) = &**last {
+                    if !Arc::ptr_eq(&run.parent_style, style) {
+                        // Text in or after an element with `display: contents`
+                        return None;
+                    }
                     // We never clone text run boxes, so the refcount is 1 and unwrap succeeds:
                     let last = Arc::get_mut(last).unwrap();
                     if let InlineLevelBox::TextRun(TextRun { text, .. }) = last {
@@ -217,7 +224,7 @@ impl<'a> TraversalHandler<'a> for BlockContainerBuilder<'a> {
 
             let mut new_text_run_contents;
             let output;
-            if let Some(text) = last_text(inlines) {
+            if let Some(text) = last_text(inlines, parent_style) {
                 // Append to the existing text run
                 new_text_run_contents = None;
                 output = text;
-- 
2.43.0


From 2231107de15c9f69edc059d64f4070d6bfe9b487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:39 +0000
Subject: [PATCH 33/33] fix: no blank page after a plain text that fills the
 last page

---
 victor/src/text_plain.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/victor/src/text_plain.rs b/victor/src/text_plain.rs
index 7061da5..18b98f3 100644
--- a/victor/src/text_plain.rs
+++ b/victor/src/text_plain.rs
@@ -124,7 +124,12 @@ pub fn layout(text: &str, style: &Style) -> Result<Document, FontError> {
 
             y += line_height;
             if y > max_y {
-                // We’ve reached the bottom of the page
+                // We’ve reached the bottom of the page:
+                // what remains of the text, if anything, goes to another one.
+                match segments.next() {
+                    Some(result) => segments.rewind(result),
+                    None => break 'pages,
+                }
                 break;
             }
         }
-- 
2.43.0

