From fa5677fc4374c2129e868f36a4814d1cff6e781c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:55 +0000
Subject: [PATCH 01/20] fix: reject a cel whose layer index equals the number
 of layers

---
 src/binary/file.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index 153018a..fa6de72 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -104,7 +104,7 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
                     }
                     for cel in frame_cels {
                         let layer_index: usize = cel.layer_index.into();
-                        if layer_index > layers.len() {
+                        if layer_index >= layers.len() {
                             return Err(nom::Err::Failure(ParseError::LayerIndexOutOfBounds));
                         }
                         cels[layer_index] = Some(cel);
-- 
2.43.0


From 4ae36969f7b6cbeb078edd967d0901f73a4ad8de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 02/20] fix: reject user data whose properties maps size is
 below 8

---
 src/binary/chunks/user_data.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 102e94b..21dd1ea 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -2,6 +2,7 @@ use bitflags::bitflags;
 use nom::{
     bytes::complete::take,
     combinator::{cond, map},
+    error::{ErrorKind, ParseError as _},
     multi::count,
     number::complete::{
         le_f32, le_f64, le_i16, le_i32, le_i64, le_i8, le_u16, le_u32, le_u64, le_u8,
@@ -144,8 +145,14 @@ pub fn parse_properties_maps(
 ) -> ParseResult<'_, ParseResult<'_, Vec<PropertiesMap<'_>>>> {
     let (input, size_maps) = parse_dword_as_usize(input)?;
     let (input, num_maps) = parse_dword_as_usize(input)?;
-    // FIXME handle underflows
-    let (input, input_maps) = take(size_maps - 8)(input)?;
+    // The size includes both fields above.
+    let Some(size_maps) = size_maps.checked_sub(8) else {
+        return Err(nom::Err::Failure(ParseError::from_error_kind(
+            input,
+            ErrorKind::LengthValue,
+        )));
+    };
+    let (input, input_maps) = take(size_maps)(input)?;
     Ok((
         input,
         count(parse_properties_map, num_maps).parse(input_maps),
-- 
2.43.0


From 61bb52ca548f7265cffab3ed15449dd5577c1c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 03/20] fix: return an error for raw RGBA images with the wrong
 amount of data

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 59c05fc..ccd2947 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -359,7 +359,12 @@ impl AsepriteFile<'_> {
         }
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
-            (ColorDepth::Rgba, false) => target.copy_from_slice(image.data),
+            (ColorDepth::Rgba, false) => {
+                if target.len() != image.data.len() {
+                    return Err(LoadImageError::InvalidImageData);
+                }
+                target.copy_from_slice(image.data)
+            }
             (ColorDepth::Rgba, true) => decompress(image.data, target)?,
             (ColorDepth::Grayscale, false) => {
                 grayscale_to_rgba(image.data, target)?;
-- 
2.43.0


From eb11bc77607b67721b771c820e54c11e7d402e84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 04/20] fix: return an error when rendering a cel whose image
 cannot be decoded

---
 src/loader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index ccd2947..2f64dda 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -308,7 +308,7 @@ impl AsepriteFile<'_> {
             }
 
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
-            self.load_image(cel.image_index, &mut cel_target).unwrap();
+            self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
             let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
-- 
2.43.0


From 6878bcfe03bc08dbf00e20babfd7768b1a733272 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 05/20] fix: return an error for compressed images with too
 little data

---
 src/loader/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 2f64dda..97027ef 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -456,6 +456,9 @@ pub fn decompress(data: &[u8], target: &mut [u8]) -> Result<(), LoadImageError>
     let mut decompressor = Decompress::new(true);
     match decompressor.decompress(data, target, flate2::FlushDecompress::Finish) {
         Ok(flate2::Status::Ok | flate2::Status::BufError) => Err(LoadImageError::DecompressError),
+        Ok(flate2::Status::StreamEnd) if decompressor.total_out() != target.len() as u64 => {
+            Err(LoadImageError::InvalidImageData)
+        }
         Ok(flate2::Status::StreamEnd) => Ok(()),
         Err(_) => Err(LoadImageError::DecompressError),
     }
-- 
2.43.0


From d0b878cf2f3803dfd3f11a34694cac220b19a09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 06/20] fix: return an error when rendering a layer with an
 unknown blend mode

---
 src/loader/blend.rs | 8 ++++----
 src/loader/mod.rs   | 6 +++++-
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index fd99090..f368b1a 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -106,8 +106,8 @@ impl From<&[f64; 4]> for Color {
 }
 
 type BlendFn = fn(Color, Color, u8) -> Color;
-pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
-    match mode {
+pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> Option<BlendFn> {
+    Some(match mode {
         BlendMode::Normal => normal,
         BlendMode::Multiply => multiply,
         BlendMode::Screen => screen,
@@ -127,8 +127,8 @@ pub(crate) fn blend_mode_to_blend_fn(mode: BlendMode) -> BlendFn {
         BlendMode::Addition => addition,
         BlendMode::Subtract => subtract,
         BlendMode::Divide => divide,
-        m => panic!("unimplemented blend mode: {:?}", m),
-    }
+        BlendMode::Unknown(_) => return None,
+    })
 }
 
 // --- addition ----------------------------------------------------------------
diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 97027ef..1f97193 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -311,7 +311,8 @@ impl AsepriteFile<'_> {
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
 
-            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode);
+            let blend_fn = blend_mode_to_blend_fn(layer.blend_mode)
+                .ok_or(LoadImageError::UnsupportedBlendMode)?;
 
             for y in 0..cel.size.1 {
                 for x in 0..cel.size.0 {
@@ -441,6 +442,9 @@ pub enum LoadImageError {
     /// The file uses an unsupported color depth.
     #[error("unsupported color depth")]
     UnsupportedColorDepth,
+    /// The frame uses a layer with an unsupported blend mode.
+    #[error("unsupported blend mode")]
+    UnsupportedBlendMode,
     /// Zlib decompression failed.
     #[error("decompression failed")]
     DecompressError,
-- 
2.43.0


From af4ea4d22aa7b61a5e64bd2f798b9c1e294dc5f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 07/20] fix: scale colors to 0..=1 for the HSL blend modes

---
 src/loader/blend.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index f368b1a..446415d 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -26,16 +26,16 @@ impl Color {
         self.a.into()
     }
     fn r_f64(&self) -> f64 {
-        self.r.into()
+        f64::from(self.r) / 255.0
     }
     fn g_f64(&self) -> f64 {
-        self.g.into()
+        f64::from(self.g) / 255.0
     }
     fn b_f64(&self) -> f64 {
-        self.b.into()
+        f64::from(self.b) / 255.0
     }
     fn a_f64(&self) -> f64 {
-        self.a.into()
+        f64::from(self.a) / 255.0
     }
 }
 
-- 
2.43.0


From e4fe58f54a39052546e25e7f7079f604f2cf7760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:18 +0000
Subject: [PATCH 08/20] fix: use the front color for the blue channel of soft
 light

---
 src/loader/blend.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/loader/blend.rs b/src/loader/blend.rs
index 446415d..1ca7109 100644
--- a/src/loader/blend.rs
+++ b/src/loader/blend.rs
@@ -269,7 +269,7 @@ fn soft_light(back: Color, front: Color, opacity: u8) -> Color {
 fn soft_light_baseline(back: Color, front: Color, opacity: u8) -> Color {
     let r = blend_soft_light(back.r_i32(), front.r_i32());
     let g = blend_soft_light(back.g_i32(), front.g_i32());
-    let b = blend_soft_light(back.b_i32(), back.b_i32());
+    let b = blend_soft_light(back.b_i32(), front.b_i32());
 
     normal(back, Color::from(&[r, g, b, front.a_i32()]), opacity)
 }
-- 
2.43.0


From e810326840f34dd12ac22ad989457c97b02ffb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 09/20] fix: scale the 6 bit colors of the oldest palette chunk
 to 8 bit

---
 src/binary/palette.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/binary/palette.rs b/src/binary/palette.rs
index 1fe09d0..4800140 100644
--- a/src/binary/palette.rs
+++ b/src/binary/palette.rs
@@ -69,6 +69,12 @@ pub fn create_palette(header: &Header, frames: &[RawFrame<'_>]) -> Result<Palett
         .collect();
     if !palette0011_chunks.is_empty() {
         process_old_palette_chunks(header.transparent_index, &palette0011_chunks, &mut palette)?;
+        // The colors of this chunk range from 0 to 63.
+        for color in &mut palette.colors {
+            for c in [&mut color.red, &mut color.green, &mut color.blue] {
+                *c = (*c << 2) | (*c >> 4);
+            }
+        }
         return Ok(palette);
     }
     Err(PaletteError::Missing)
-- 
2.43.0


From c8988e027efd57ca3edf3009311884b9d32621d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 10/20] fix: correct the bits of the layer flags

---
 src/binary/chunks/layer.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/layer.rs b/src/binary/chunks/layer.rs
index 1847950..653e7a0 100644
--- a/src/binary/chunks/layer.rs
+++ b/src/binary/chunks/layer.rs
@@ -28,9 +28,9 @@ bitflags! {
         const EDITABLE = 0x2;
         const LOCK_MOVEMENT = 0x4;
         const BACKGROUND = 0x8;
-        const PREFER_LINKED_CELS = 0x16;
-        const COLLAPSED = 0x32;
-        const REFERENCE = 0x64;
+        const PREFER_LINKED_CELS = 0x10;
+        const COLLAPSED = 0x20;
+        const REFERENCE = 0x40;
     }
 }
 
-- 
2.43.0


From 6799c7b7d564921877893282f0b320561d301fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:36 +0000
Subject: [PATCH 11/20] fix: read the flip bitmasks of tilemap cels in the
 right order

---
 src/binary/chunks/cel.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index a30fa85..c9ef057 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -117,8 +117,8 @@ pub fn parse_cel_chunk(input: &[u8]) -> ParseResult<'_, CelChunk<'_>> {
             let (input, height) = word(input)?;
             let (input, bits_per_tile) = word(input)?;
             let (input, bitmask_tile_id) = dword(input)?;
-            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_x_flip) = dword(input)?;
+            let (input, bitmask_y_flip) = dword(input)?;
             let (input, bitmask_diagonal_flip) = dword(input)?;
             let (input, _) = take(10usize)(input)?;
             CelContent::CompressedTilemap {
-- 
2.43.0


From e93dc4272d514876cb041f7ef25e51d3fc9850a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 12/20] fix: report the first unknown code of each enum as that
 code instead of 0

---
 src/binary/blend_mode.rs            | 4 +++-
 src/binary/chunks/cel.rs            | 4 +++-
 src/binary/chunks/color_profile.rs  | 1 +
 src/binary/chunks/external_files.rs | 4 +++-
 src/binary/chunks/tags.rs           | 4 +++-
 5 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/binary/blend_mode.rs b/src/binary/blend_mode.rs
index 99dcd07..57b42b3 100644
--- a/src/binary/blend_mode.rs
+++ b/src/binary/blend_mode.rs
@@ -31,7 +31,9 @@ pub enum BlendMode {
 
 impl From<Word> for BlendMode {
     fn from(word: Word) -> Self {
-        BlendMode::from_repr(word.into()).unwrap_or(BlendMode::Unknown(word))
+        BlendMode::from_repr(word.into())
+            .filter(|mode| !matches!(mode, BlendMode::Unknown(_)))
+            .unwrap_or(BlendMode::Unknown(word))
     }
 }
 
diff --git a/src/binary/chunks/cel.rs b/src/binary/chunks/cel.rs
index c9ef057..2d9aa29 100644
--- a/src/binary/chunks/cel.rs
+++ b/src/binary/chunks/cel.rs
@@ -42,7 +42,9 @@ enum CelType {
 
 impl From<Word> for CelType {
     fn from(word: Word) -> Self {
-        CelType::from_repr(word.into()).unwrap_or(Self::Unknown(word))
+        CelType::from_repr(word.into())
+            .filter(|cel_type| !matches!(cel_type, Self::Unknown(_)))
+            .unwrap_or(Self::Unknown(word))
     }
 }
 
diff --git a/src/binary/chunks/color_profile.rs b/src/binary/chunks/color_profile.rs
index 2b9a737..18d81b9 100644
--- a/src/binary/chunks/color_profile.rs
+++ b/src/binary/chunks/color_profile.rs
@@ -42,6 +42,7 @@ pub enum ColorProfile<'a> {
 pub fn parse_color_profile(input: &[u8]) -> ParseResult<'_, ColorProfileChunk<'_>> {
     let (input, profile_type) = word(input)?;
     let profile_type = ColorProfileType::from_repr(profile_type.into())
+        .filter(|profile_type| !matches!(profile_type, ColorProfileType::Unknown(_)))
         .unwrap_or(ColorProfileType::Unknown(profile_type));
     let (input, flags) = word(input)?;
     let flags = ColorProfileFlags::from_bits_truncate(flags);
diff --git a/src/binary/chunks/external_files.rs b/src/binary/chunks/external_files.rs
index c1e9dc6..5b86bd7 100644
--- a/src/binary/chunks/external_files.rs
+++ b/src/binary/chunks/external_files.rs
@@ -34,7 +34,9 @@ pub enum ExternalFileType {
 
 impl From<Byte> for ExternalFileType {
     fn from(byte: Byte) -> Self {
-        Self::from_repr(byte).unwrap_or(Self::Unknown(byte))
+        Self::from_repr(byte)
+            .filter(|file_type| !matches!(file_type, Self::Unknown(_)))
+            .unwrap_or(Self::Unknown(byte))
     }
 }
 
diff --git a/src/binary/chunks/tags.rs b/src/binary/chunks/tags.rs
index a9dfbd1..3caa315 100644
--- a/src/binary/chunks/tags.rs
+++ b/src/binary/chunks/tags.rs
@@ -38,7 +38,9 @@ pub enum AnimationDirection {
 
 impl From<Byte> for AnimationDirection {
     fn from(byte: Byte) -> Self {
-        AnimationDirection::from_repr(byte.into()).unwrap_or(AnimationDirection::Unknown(byte))
+        AnimationDirection::from_repr(byte.into())
+            .filter(|direction| !matches!(direction, AnimationDirection::Unknown(_)))
+            .unwrap_or(AnimationDirection::Unknown(byte))
     }
 }
 
-- 
2.43.0


From b64c25f1e60a30ecdd318cc78efd84a2f926eee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 13/20] fix: read as many palette entries as the palette chunk
 stores

---
 src/binary/chunks/palette.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/binary/chunks/palette.rs b/src/binary/chunks/palette.rs
index afcf108..d509e49 100644
--- a/src/binary/chunks/palette.rs
+++ b/src/binary/chunks/palette.rs
@@ -30,7 +30,7 @@ bitflags! {
 }
 
 pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
-    let (input, palette_size) = parse_dword_as_usize(input)?;
+    let (input, _palette_size) = parse_dword_as_usize(input)?;
     let (input, first_color_index) = parse_dword_as_u8(
         input,
         ParseError::PaletteError(PaletteError::FirstColorIndexOutOfBounds),
@@ -45,7 +45,9 @@ pub fn parse_palette_chunk(input: &[u8]) -> ParseResult<'_, PaletteChunk<'_>> {
         )));
     }
     let (input, _) = take(8usize)(input)?;
-    let (input, entries) = count(parse_palette_entry, palette_size).parse(input)?;
+    // Only the changed entries are stored, not the whole palette.
+    let changed = usize::from(last_color_index - first_color_index) + 1;
+    let (input, entries) = count(parse_palette_entry, changed).parse(input)?;
     Ok((
         input,
         PaletteChunk {
-- 
2.43.0


From 7a48879f518b05f53b70186b1a883028b864372f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:01 +0000
Subject: [PATCH 14/20] fix: read properties maps nested in properties, which
 have no extension entry id

---
 src/binary/chunks/user_data.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index 21dd1ea..fab7372 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -161,12 +161,25 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
+    let (input, map) = parse_nested_properties_map(input)?;
+    Ok((
+        input,
+        PropertiesMap {
+            extension_entry_id,
+            ..map
+        },
+    ))
+}
+
+/// Unlike the maps of a chunk, a map that is the value of a property is stored
+/// without an extension entry id.
+fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, num_props) = parse_dword_as_usize(input)?;
     let (input, properties) = count(parse_property, num_props).parse(input)?;
     Ok((
         input,
         PropertiesMap {
-            extension_entry_id,
+            extension_entry_id: 0,
             properties,
         },
     ))
@@ -202,7 +215,7 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
         PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
         PropertyType::PropertiesMap => {
-            map(parse_properties_map, Value::PropertiesMap).parse(input)?
+            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
         }
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
@@ -242,7 +255,7 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
             map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
         }
         PropertyType::PropertiesMap => map(
-            count(parse_properties_map, len_elements),
+            count(parse_nested_properties_map, len_elements),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From eec4361fb3f76400ce5ff7b794ed0d7bd2142395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:34 +0000
Subject: [PATCH 15/20] fix: reject deeply nested properties instead of
 overflowing the stack

---
 src/binary/chunks/user_data.rs | 66 +++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 12 deletions(-)

diff --git a/src/binary/chunks/user_data.rs b/src/binary/chunks/user_data.rs
index fab7372..a0d24d0 100644
--- a/src/binary/chunks/user_data.rs
+++ b/src/binary/chunks/user_data.rs
@@ -161,7 +161,7 @@ pub fn parse_properties_maps(
 
 pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, extension_entry_id) = dword(input)?;
-    let (input, map) = parse_nested_properties_map(input)?;
+    let (input, map) = parse_nested_properties_map(input, 0)?;
     Ok((
         input,
         PropertiesMap {
@@ -171,11 +171,26 @@ pub fn parse_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>>
     ))
 }
 
+/// Properties nested deeper than this are rejected, as every level takes stack
+/// space while parsing.
+const MAX_NESTING: usize = 64;
+
+fn check_nesting(input: &[u8], depth: usize) -> Result<(), nom::Err<ParseError<'_>>> {
+    if depth > MAX_NESTING {
+        return Err(nom::Err::Failure(ParseError::from_error_kind(
+            input,
+            ErrorKind::TooLarge,
+        )));
+    }
+    Ok(())
+}
+
 /// Unlike the maps of a chunk, a map that is the value of a property is stored
 /// without an extension entry id.
-fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_>> {
+fn parse_nested_properties_map(input: &[u8], depth: usize) -> ParseResult<'_, PropertiesMap<'_>> {
     let (input, num_props) = parse_dword_as_usize(input)?;
-    let (input, properties) = count(parse_property, num_props).parse(input)?;
+    let (input, properties) =
+        count(|input| parse_nested_property(input, depth), num_props).parse(input)?;
     Ok((
         input,
         PropertiesMap {
@@ -186,12 +201,21 @@ fn parse_nested_properties_map(input: &[u8]) -> ParseResult<'_, PropertiesMap<'_
 }
 
 pub fn parse_property(input: &[u8]) -> ParseResult<'_, Property<'_>> {
+    parse_nested_property(input, 0)
+}
+
+fn parse_nested_property(input: &[u8], depth: usize) -> ParseResult<'_, Property<'_>> {
     let (input, name) = parse_string(input)?;
-    let (input, value) = parse_value(input)?;
+    let (input, value) = parse_nested_value(input, depth)?;
     Ok((input, Property { name, value }))
 }
 
 pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
+    parse_nested_value(input, 0)
+}
+
+fn parse_nested_value(input: &[u8], depth: usize) -> ParseResult<'_, Value<'_>> {
+    check_nesting(input, depth)?;
     let (input, prop_type) = word(input)?;
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -213,19 +237,32 @@ pub fn parse_value(input: &[u8]) -> ParseResult<'_, Value<'_>> {
         PropertyType::Point => map(parse_point, Value::Point).parse(input)?,
         PropertyType::Size => map(parse_size, Value::Size).parse(input)?,
         PropertyType::Rect => map(parse_rect, Value::Rect).parse(input)?,
-        PropertyType::Vector => map(parse_vector, Value::Vector).parse(input)?,
-        PropertyType::PropertiesMap => {
-            map(parse_nested_properties_map, Value::PropertiesMap).parse(input)?
+        PropertyType::Vector => {
+            map(|input| parse_nested_vector(input, depth + 1), Value::Vector).parse(input)?
         }
+        PropertyType::PropertiesMap => map(
+            |input| parse_nested_properties_map(input, depth + 1),
+            Value::PropertiesMap,
+        )
+        .parse(input)?,
         PropertyType::Uuid => map(parse_uuid, Value::Uuid).parse(input)?,
     })
 }
 
 pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
+    parse_nested_vector(input, 0)
+}
+
+fn parse_nested_vector(input: &[u8], depth: usize) -> ParseResult<'_, Vector<'_>> {
+    check_nesting(input, depth)?;
     let (input, len_elements) = parse_dword_as_usize(input)?;
     let (input, prop_type) = word(input)?;
     if prop_type == 0 {
-        return map(count(parse_value, len_elements), Vector::Mixed).parse(input);
+        return map(
+            count(|input| parse_nested_value(input, depth + 1), len_elements),
+            Vector::Mixed,
+        )
+        .parse(input);
     }
     let prop_type = PropertyType::from_repr(prop_type).ok_or(nom::Err::Failure(
         ParseError::InvalidPropertyType(prop_type),
@@ -251,11 +288,16 @@ pub fn parse_vector(input: &[u8]) -> ParseResult<'_, Vector<'_>> {
         PropertyType::Point => map(count(parse_point, len_elements), Vector::Point).parse(input)?,
         PropertyType::Size => map(count(parse_size, len_elements), Vector::Size).parse(input)?,
         PropertyType::Rect => map(count(parse_rect, len_elements), Vector::Rect).parse(input)?,
-        PropertyType::Vector => {
-            map(count(parse_vector, len_elements), Vector::Vector).parse(input)?
-        }
+        PropertyType::Vector => map(
+            count(|input| parse_nested_vector(input, depth + 1), len_elements),
+            Vector::Vector,
+        )
+        .parse(input)?,
         PropertyType::PropertiesMap => map(
-            count(parse_nested_properties_map, len_elements),
+            count(
+                |input| parse_nested_properties_map(input, depth + 1),
+                len_elements,
+            ),
             Vector::PropertiesMap,
         )
         .parse(input)?,
-- 
2.43.0


From 342dc6360393229e914b65053698a99a3159cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:12 +0000
Subject: [PATCH 16/20] fix: reject files with another number of frames than
 the header announces

---
 src/binary/errors.rs   | 3 +++
 src/binary/raw_file.rs | 6 ++++++
 2 files changed, 9 insertions(+)

diff --git a/src/binary/errors.rs b/src/binary/errors.rs
index ce6dced..e1b75ee 100644
--- a/src/binary/errors.rs
+++ b/src/binary/errors.rs
@@ -23,6 +23,9 @@ pub enum ParseError<'a> {
     /// The uses index colors but the palette could not be
     /// generated due to errors in the palette chunks.
     PaletteError(PaletteError),
+    /// The amount of frames in the file is not the
+    /// amount of frames announced by the header.
+    FrameCountMismatch { expected: Word, found: usize },
     /// The range of frame indices was invalid (from > to)
     InvalidFrameRange(Word, Word),
     /// This variant is used when a layer index is out
diff --git a/src/binary/raw_file.rs b/src/binary/raw_file.rs
index 8a529a8..4749b2e 100644
--- a/src/binary/raw_file.rs
+++ b/src/binary/raw_file.rs
@@ -13,5 +13,11 @@ pub struct RawFile<'a> {
 pub fn parse_raw_file(input: &[u8]) -> Result<RawFile<'_>, nom::Err<ParseError<'_>>> {
     let (input, header) = parse_header(input)?;
     let (_, frames) = parse_frames(input)?;
+    if frames.len() != usize::from(header.frames) {
+        return Err(nom::Err::Failure(ParseError::FrameCountMismatch {
+            expected: header.frames,
+            found: frames.len(),
+        }));
+    }
     Ok(RawFile { header, frames })
 }
-- 
2.43.0


From ae0ce8c59cdba4468b3c2ca1de38e38ecbf000d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:33 +0000
Subject: [PATCH 17/20] fix: let cels refer to the listed layers when others
 are left out

---
 src/loader/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 1f97193..692e4aa 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -131,11 +131,17 @@ impl AsepriteFile<'_> {
         let file = parse_file(data).map_err(|e| LoadSpriteError::Parse {
             message: e.to_string(),
         })?;
+        // Index into `layers` for each layer of the file, `None` for the
+        // layers which are left out.
+        let mut layer_indices: Vec<Option<usize>> = Vec::with_capacity(file.layers.len());
+        let mut layer_count = 0;
         let layers: Vec<_> = file
             .layers
             .iter()
             .filter_map(|layer| {
                 if layer.layer_type == LayerType::Normal || layer.layer_type == LayerType::Group {
+                    layer_indices.push(Some(layer_count));
+                    layer_count += 1;
                     Some(Layer {
                         name: layer.name.to_string(),
                         opacity: layer.opacity,
@@ -144,6 +150,7 @@ impl AsepriteFile<'_> {
                         layer_type: layer.layer_type,
                     })
                 } else {
+                    layer_indices.push(None);
                     None
                 }
             })
@@ -197,12 +204,15 @@ impl AsepriteFile<'_> {
                         })
                     }
                 };
+                let Some(layer_index) = layer_indices[usize::from(cel.layer_index)] else {
+                    continue;
+                };
                 let width = image_vec[image_index].width;
                 let height = image_vec[image_index].height;
                 cels.push(FrameCel {
                     origin: (cel.x, cel.y),
                     size: (width, height),
-                    layer_index: cel.layer_index.into(),
+                    layer_index,
                     image_index,
                 });
             }
-- 
2.43.0


From 775df8860ffb2f2399a87256c6004d2bf1b17e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:35 +0000
Subject: [PATCH 18/20] fix: treat layers as opaque if the header says layer
 opacities are not valid

---
 src/loader/mod.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index 692e4aa..f0c2533 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -144,7 +144,12 @@ impl AsepriteFile<'_> {
                     layer_count += 1;
                     Some(Layer {
                         name: layer.name.to_string(),
-                        opacity: layer.opacity,
+                        // Layer opacity is only valid if the header says so
+                        opacity: if file.header.flags & 1 != 0 {
+                            layer.opacity
+                        } else {
+                            u8::MAX
+                        },
                         blend_mode: layer.blend_mode,
                         visible: layer.flags.contains(LayerFlags::VISIBLE),
                         layer_type: layer.layer_type,
-- 
2.43.0


From cd0eb3deccc5a4f6cd3b8bd5c8046107499bd419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:37 +0000
Subject: [PATCH 19/20] fix: keep user data which follows a cel extra or
 unknown chunk

---
 src/binary/file.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/binary/file.rs b/src/binary/file.rs
index fa6de72..b5e78e9 100644
--- a/src/binary/file.rs
+++ b/src/binary/file.rs
@@ -44,7 +44,13 @@ pub fn parse_file(input: &[u8]) -> Result<File<'_>, nom::Err<ParseError<'_>>> {
     let mut user_data = None;
     for raw_frame in raw_file.frames {
         let mut cels = Vec::<CelChunk<'_>>::new();
-        let mut chunks = raw_frame.chunks.into_iter().peekable();
+        // Cel extra and unknown chunks may stand between an object and its
+        // user data.
+        let mut chunks = raw_frame
+            .chunks
+            .into_iter()
+            .filter(|c| !matches!(c, Chunk::CelExtra(_) | Chunk::Unsupported(_)))
+            .peekable();
         while let Some(chunk) = chunks.next() {
             match chunk {
                 // In Aseprite v1.3 a sprite has associated user data, to consider this case there
-- 
2.43.0


From 52a10b403a1998728efb995530c55124687f3f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:59 +0000
Subject: [PATCH 20/20] fix: do not allocate memory for more pixels than an
 image can contain

---
 src/loader/mod.rs | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/loader/mod.rs b/src/loader/mod.rs
index f0c2533..e8afe2f 100644
--- a/src/loader/mod.rs
+++ b/src/loader/mod.rs
@@ -322,6 +322,8 @@ impl AsepriteFile<'_> {
                 continue;
             }
 
+            // Do not allocate memory for more pixels than the image can contain
+            self.check_image_size(&self.images[cel.image_index])?;
             let mut cel_target = vec![0; usize::from(cel.size.0) * usize::from(cel.size.1) * 4];
             self.load_image(cel.image_index, &mut cel_target)?;
             let layer = &self.layers[cel.layer_index];
@@ -373,6 +375,7 @@ impl AsepriteFile<'_> {
         if target.len() < target_size {
             return Err(LoadImageError::TargetBufferTooSmall);
         }
+        self.check_image_size(image)?;
         let target = &mut target[..target_size];
         match (self.file.header.color_depth, image.compressed) {
             (ColorDepth::Rgba, false) => {
@@ -416,6 +419,22 @@ impl AsepriteFile<'_> {
         }
         Ok(())
     }
+    /// Check that the data of an image can contain all of its pixels. The
+    /// maximum compression ratio of zlib is 1032:1.
+    fn check_image_size(&self, image: &Image<'_>) -> Result<(), LoadImageError> {
+        let pixel_size = match self.file.header.color_depth {
+            ColorDepth::Rgba => 4,
+            ColorDepth::Grayscale => 2,
+            ColorDepth::Indexed => 1,
+            ColorDepth::Unknown(_) => return Err(LoadImageError::UnsupportedColorDepth),
+        };
+        let size = usize::from(image.width) * usize::from(image.height) * pixel_size;
+        let max_ratio = if image.compressed { 1032 } else { 1 };
+        if size > image.data.len().saturating_mul(max_ratio) {
+            return Err(LoadImageError::InvalidImageData);
+        }
+        Ok(())
+    }
     /// Return all slice chunks from the source file.
     pub fn slices(&self) -> &[SliceChunk<'_>] {
         &self.file.slices
-- 
2.43.0

