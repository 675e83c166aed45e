From 7d9d2dac53ccbae6c610c46eee1abd6d505b9a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 01/10] fix: modulo-10 checksum no longer overflows on long ITF
 data

---
 src/sym/helpers.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sym/helpers.rs b/src/sym/helpers.rs
index 677ef57..c3ed6dd 100644
--- a/src/sym/helpers.rs
+++ b/src/sym/helpers.rs
@@ -23,13 +23,14 @@ where
 
 /// Calculates the checksum digit using a modulo-10 weighting algorithm.
 pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
-    let mut odds = 0;
-    let mut evens = 0;
+    // Wide enough for the longest data accepted by any symbology using this algorithm.
+    let mut odds: u32 = 0;
+    let mut evens: u32 = 0;
 
     for (i, d) in data.iter().enumerate() {
         match i % 2 {
-            1 => odds += *d,
-            _ => evens += *d,
+            1 => odds += u32::from(*d),
+            _ => evens += u32::from(*d),
         }
     }
 
@@ -43,6 +44,6 @@ pub fn modulo_10_checksum(data: &[u8], even_start: bool) -> u8 {
 
     match 10 - ((odds + evens) % 10) {
         10 => 0,
-        n => n,
+        n => n as u8,
     }
 }
-- 
2.43.0


From d543b2e6d3ebe3a9b36c839e37f39382328b1c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 02/10] fix: Code128 rejects a set C digit pair split by FNC1
 instead of reordering it

---
 src/sym/code128.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index a1b0081..508b908 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -330,6 +330,8 @@ impl Code128 {
                         carry = None;
                     }
                 },
+                // Half a digit pair cannot be followed by anything but its other half.
+                _ if carry.is_some() => return Err(Error::Character),
                 _ => {
                     let u = char_set.lookup(&ch.to_string())?;
                     units.push(u);
-- 
2.43.0


From 1f61d420dc588cf5fdd9cf34bc4b5ed358400136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:58 +0000
Subject: [PATCH 03/10] fix: Code128 checksum no longer overflows on long data

---
 src/sym/code128.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index 508b908..49b622c 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -347,13 +347,13 @@ impl Code128 {
 
     /// Calculates the checksum index using a modulo-103 algorithm.
     fn checksum_value(&self) -> u8 {
-        let sum: i32 = self
+        let sum: u64 = self
             .0
             .iter()
-            .zip(0..self.0.len() as i32)
-            .fold(0, |t, (u, i)| t + (u.index() as i32 * cmp::max(1, i)));
+            .zip(0u64..)
+            .fold(0, |t, (u, i)| (t + u.index() as u64 * cmp::max(1, i)) % 103);
 
-        (sum % 103) as u8
+        sum as u8
     }
 
     fn checksum_encoding(&self) -> Encoding {
-- 
2.43.0


From 225d50e338ac6a234808034a785f21edb0ab5042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 04/10] fix: Code128 character-set B accepts DEL (ASCII 127)

---
 src/sym/code128.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index 49b622c..6b8128a 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -180,7 +180,7 @@ const CHARS: [([&str; 3], Encoding); 106] = [
     (["\u{001D}", "}", "93"], [1, 0, 1, 0, 0, 0, 1, 1, 1, 1, 0]),
     (["\u{001E}", "~", "94"], [1, 0, 0, 0, 1, 0, 1, 1, 1, 1, 0]),
     (
-        ["\u{001F}", "\u{00F7}", "95"],
+        ["\u{001F}", "\u{007F}", "95"],
         [1, 0, 1, 1, 1, 1, 0, 1, 0, 0, 0],
     ),
     (
@@ -276,6 +276,11 @@ impl CharacterSet {
 
     fn lookup(self, s: &str) -> Result<Unit> {
         let p = self.index()?;
+        // "÷" is accepted as a visible stand-in for DEL.
+        let s = match (self, s) {
+            (CharacterSet::B, "\u{00F7}") => "\u{007F}",
+            _ => s,
+        };
 
         match CHARS.iter().position(|&c| c.0[p] == s) {
             Some(i) => self.unit(i),
-- 
2.43.0


From f2fbcb64cce564a47f22c560c37ef604980fb6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:38 +0000
Subject: [PATCH 05/10] fix: Code128 SHIFT selects the other character-set for
 the next character

---
 src/sym/code128.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/sym/code128.rs b/src/sym/code128.rs
index 6b8128a..6d9e5b5 100644
--- a/src/sym/code128.rs
+++ b/src/sym/code128.rs
@@ -265,6 +265,15 @@ impl CharacterSet {
         Ok(Unit { kind, index: n })
     }
 
+    // The character-set SHIFT selects for the next character.
+    fn shifted(self) -> CharacterSet {
+        match self {
+            CharacterSet::A => CharacterSet::B,
+            CharacterSet::B => CharacterSet::A,
+            other => other,
+        }
+    }
+
     fn index(self) -> Result<usize> {
         match self {
             CharacterSet::A => Ok(0),
@@ -306,6 +315,7 @@ impl Code128 {
         let mut units: Vec<Unit> = vec![];
         let mut char_set = CharacterSet::None;
         let mut carry: Option<char> = None;
+        let mut shift = false;
 
         for ch in chars {
             match ch {
@@ -317,7 +327,7 @@ impl Code128 {
                     units.push(u);
                 }
                 'À' | 'Ɓ' | 'Ć' => {
-                    if char_set == CharacterSet::C && carry.is_some() {
+                    if shift || (char_set == CharacterSet::C && carry.is_some()) {
                         return Err(Error::Character);
                     } else {
                         let u = char_set.lookup(&ch.to_string())?;
@@ -338,8 +348,12 @@ impl Code128 {
                 // Half a digit pair cannot be followed by anything but its other half.
                 _ if carry.is_some() => return Err(Error::Character),
                 _ => {
-                    let u = char_set.lookup(&ch.to_string())?;
+                    let set = if shift { char_set.shifted() } else { char_set };
+                    let u = set.lookup(&ch.to_string())?;
                     units.push(u);
+
+                    // SHIFT applies to the next character only.
+                    shift = ch == '\u{017D}';
                 }
             }
         }
-- 
2.43.0


From 9dc37af6e57f6be9a06e8f8f11f6f6e1d1a8d94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 06/10] fix: data length check no longer wraps at 4 GiB

---
 src/sym.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sym.rs b/src/sym.rs
index f1d3efa..f759a6a 100644
--- a/src/sym.rs
+++ b/src/sym.rs
@@ -38,9 +38,9 @@ trait Parse {
     fn parse(data: &str) -> Result<&str, Error> {
         let valid_chars = Self::valid_chars();
         let valid_len = Self::valid_len();
-        let data_len = data.len() as u32;
+        let data_len = data.len();
 
-        if data_len < valid_len.start || data_len > valid_len.end {
+        if data_len < valid_len.start as usize || data_len > valid_len.end as usize {
             return Err(Error::Length);
         }
 
-- 
2.43.0


From 167b32f69a0fc09145767dcbd3c1642b9fd382dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:40 +0000
Subject: [PATCH 07/10] fix: SVG offsets and width no longer overflow for a
 large xdim

---
 src/generators/svg.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/generators/svg.rs b/src/generators/svg.rs
index 344f2e0..e435631 100644
--- a/src/generators/svg.rs
+++ b/src/generators/svg.rs
@@ -144,7 +144,7 @@ impl SVG {
         self
     }
 
-    fn rect(&self, style: u8, offset: u32, width: u32) -> String {
+    fn rect(&self, style: u8, offset: u64, width: u64) -> String {
         let fill = match style {
             1 => self.foreground,
             _ => self.background,
@@ -169,12 +169,13 @@ impl SVG {
     /// error message.
     pub fn generate<T: AsRef<[u8]>>(&self, barcode: T) -> Result<String> {
         let barcode = barcode.as_ref();
-        let width = (barcode.len() as u32) * self.xdim;
+        let xdim = u64::from(self.xdim);
+        let width = (barcode.len() as u64) * xdim;
         let rects: String = barcode
             .iter()
             .enumerate()
             .filter(|&(_, &n)| n == 1)
-            .map(|(i, &n)| self.rect(n, i as u32 * self.xdim, self.xdim))
+            .map(|(i, &n)| self.rect(n, i as u64 * xdim, xdim))
             .collect();
 
         let xmlns = match &self.xmlns {
-- 
2.43.0


From 87bc35d61e2657c0d9089591b927e768ee7b8c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:41 +0000
Subject: [PATCH 08/10] fix: image generators report a width that does not fit
 instead of overflowing

---
 src/generators/image.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index b4e95d5..19deb2b 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -163,7 +163,7 @@ impl Image {
         };
 
         let mut bytes: Vec<u8> = vec![];
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         match img.write_to(&mut Cursor::new(&mut bytes), format) {
             Ok(_) => Ok(bytes),
@@ -177,19 +177,22 @@ impl Image {
         self,
         barcode: T,
     ) -> Result<ImageBuffer<Rgba<u8>, Vec<u8>>> {
-        let img = self.place_pixels(&barcode);
+        let img = self.place_pixels(&barcode)?;
 
         Ok(img.to_rgba8())
     }
 
-    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> DynamicImage {
+    fn place_pixels<T: AsRef<[u8]>>(&self, barcode: T) -> Result<DynamicImage> {
         let barcode = barcode.as_ref();
         let (xdim, height, rotation, bg, fg) = expand_image_variants!(
             *self,
             {height: h, xdim: x, rotation: r, background: b, foreground: f} => (x, h, r, b.to_rgba(), f.to_rgba()),
             GIF, PNG, WEBP, ImageBuffer
         );
-        let width = (barcode.len() as u32) * xdim;
+        let width = u32::try_from(barcode.len())
+            .ok()
+            .and_then(|len| len.checked_mul(xdim))
+            .ok_or(Error::Generate)?;
         let mut buffer = ImageBuffer::new(width, height);
 
         for y in 0..height {
@@ -204,12 +207,12 @@ impl Image {
 
         let img = ImageRgba8(buffer);
 
-        match rotation {
+        Ok(match rotation {
             Rotation::Ninety => img.rotate90(),
             Rotation::OneEighty => img.rotate180(),
             Rotation::TwoSeventy => img.rotate270(),
             _ => img,
-        }
+        })
     }
 }
 
-- 
2.43.0


From 80656dd86ba29df2dd5b3a629b9f354057c20cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:19 +0000
Subject: [PATCH 09/10] fix: generating a GIF without pixels is an error, as
 for PNG and WEBP

---
 src/generators/image.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index 19deb2b..dee3ddc 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -165,6 +165,11 @@ impl Image {
         let mut bytes: Vec<u8> = vec![];
         let img = self.place_pixels(&barcode)?;
 
+        // No format can represent an image without pixels.
+        if img.width() == 0 || img.height() == 0 {
+            return Err(Error::Generate);
+        }
+
         match img.write_to(&mut Cursor::new(&mut bytes), format) {
             Ok(_) => Ok(bytes),
             _ => Err(Error::Generate),
-- 
2.43.0


From 04ead2bd615851ccbe39265aeaea9b4d6189d49d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:40 +0000
Subject: [PATCH 10/10] fix: image generators report pixels beyond the address
 space instead of panicking

---
 src/generators/image.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/generators/image.rs b/src/generators/image.rs
index dee3ddc..1657a47 100644
--- a/src/generators/image.rs
+++ b/src/generators/image.rs
@@ -198,6 +198,12 @@ impl Image {
             .ok()
             .and_then(|len| len.checked_mul(xdim))
             .ok_or(Error::Generate)?;
+
+        // Four bytes per pixel must fit the address space.
+        if u64::from(width) * u64::from(height) > isize::MAX as u64 / 4 {
+            return Err(Error::Generate);
+        }
+
         let mut buffer = ImageBuffer::new(width, height);
 
         for y in 0..height {
-- 
2.43.0

