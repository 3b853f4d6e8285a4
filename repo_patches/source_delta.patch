From dd8e08aa0fc09377914a37915411ae9bbae1bba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 001/108] fix: parsing a colour from non-hexadecimal or
 multi-byte text panicked or accepted signs

---
 src/elements/color.rs | 2 +-
 src/helpers/colors.rs | 4 +++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/elements/color.rs b/src/elements/color.rs
index 3216b85..04815f0 100644
--- a/src/elements/color.rs
+++ b/src/elements/color.rs
@@ -21,7 +21,7 @@ impl RgbColor {
     /// Parse from hex string (e.g., "FF0000" or "#FF0000")
     pub fn from_hex(hex: &str) -> Option<Self> {
         let hex = hex.trim_start_matches('#');
-        if hex.len() != 6 {
+        if hex.len() != 6 || !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
             return None;
         }
         let r = u8::from_str_radix(&hex[0..2], 16).ok()?;
diff --git a/src/helpers/colors.rs b/src/helpers/colors.rs
index 95c0989..e8842da 100644
--- a/src/helpers/colors.rs
+++ b/src/helpers/colors.rs
@@ -31,7 +31,9 @@ impl ColorValue {
     /// Create a color from a hex string (with or without #)
     pub fn from_hex(hex: &str) -> Self {
         let hex = hex.trim_start_matches('#');
-        if hex.len() == 6 {
+        if !hex.is_ascii() {
+            Self::rgb(0, 0, 0)
+        } else if hex.len() == 6 {
             let r = u8::from_str_radix(&hex[0..2], 16).unwrap_or(0);
             let g = u8::from_str_radix(&hex[2..4], 16).unwrap_or(0);
             let b = u8::from_str_radix(&hex[4..6], 16).unwrap_or(0);
-- 
2.43.0


From 03bd3d800b15ad909abd12cfd9c29b2dcd3ff988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:39 +0000
Subject: [PATCH 002/108] fix: CSS '#' colours with non-hexadecimal text were
 accepted or panicked

---
 src/import/html.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/import/html.rs b/src/import/html.rs
index 34126f6..c800ef0 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -226,6 +226,9 @@ fn css_named_color(name: &str) -> Option<&'static str> {
 fn parse_css_color(value: &str) -> Option<String> {
     let value = value.trim();
     if let Some(hex) = value.strip_prefix('#') {
+        if !hex.bytes().all(|b| b.is_ascii_hexdigit()) {
+            return None;
+        }
         let hex = match hex.len() {
             3 => hex.chars().map(|c| format!("{c}{c}")).collect::<String>(),
             6 => hex.to_string(),
-- 
2.43.0


From f0fc16283288c8faf2fe9709f374df5d72a0844a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:33 +0000
Subject: [PATCH 003/108] fix: helpers::hex panicked on six bytes of multi-byte
 text

---
 src/helpers/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/helpers/mod.rs b/src/helpers/mod.rs
index 50a7bff..4c6babf 100644
--- a/src/helpers/mod.rs
+++ b/src/helpers/mod.rs
@@ -229,7 +229,7 @@ pub fn rgb(r: u8, g: u8, b: u8) -> Color {
 /// ```
 pub fn hex(color: &str) -> Color {
     let color = color.trim_start_matches('#');
-    if color.len() == 6 {
+    if color.len() == 6 && color.is_ascii() {
         let r = u8::from_str_radix(&color[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&color[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&color[4..6], 16).unwrap_or(0);
-- 
2.43.0


From 64b940406b0d0e0859612536cdfb4bd7b325b3d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 004/108] fix: layout helpers wrapped or panicked for oversized
 elements and empty stacks

---
 src/prelude.rs | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index a09ae6e..bea865f 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -704,12 +704,12 @@ pub mod layouts {
 
     /// Center a shape on the slide (horizontal)
     pub fn center_x(shape_width: u32) -> u32 {
-        (SLIDE_WIDTH - shape_width) / 2
+        SLIDE_WIDTH.saturating_sub(shape_width) / 2
     }
 
     /// Center a shape on the slide (vertical)
     pub fn center_y(shape_height: u32) -> u32 {
-        (SLIDE_HEIGHT - shape_height) / 2
+        SLIDE_HEIGHT.saturating_sub(shape_height) / 2
     }
 
     /// Get position for centering a shape both horizontally and vertically
@@ -721,15 +721,15 @@ pub mod layouts {
     /// Returns Vec of (x, y) positions
     pub fn grid(rows: usize, cols: usize, cell_width: u32, cell_height: u32) -> Vec<(u32, u32)> {
         let mut positions = Vec::new();
-        let total_width = cell_width * cols as u32;
-        let total_height = cell_height * rows as u32;
+        let total_width = cell_width.saturating_mul(cols as u32);
+        let total_height = cell_height.saturating_mul(rows as u32);
         let start_x = center_x(total_width);
         let start_y = center_y(total_height);
 
         for row in 0..rows {
             for col in 0..cols {
-                let x = start_x + (col as u32 * cell_width);
-                let y = start_y + (row as u32 * cell_height);
+                let x = start_x.saturating_add((col as u32).saturating_mul(cell_width));
+                let y = start_y.saturating_add((row as u32).saturating_mul(cell_height));
                 positions.push((x, y));
             }
         }
@@ -743,11 +743,13 @@ pub mod layouts {
         spacing: u32,
         y: u32,
     ) -> Vec<(u32, u32)> {
-        let total_width = (shape_width * count as u32) + (spacing * (count - 1) as u32);
+        let total_width = shape_width
+            .saturating_mul(count as u32)
+            .saturating_add(spacing.saturating_mul(count.saturating_sub(1) as u32));
         let start_x = center_x(total_width);
 
         (0..count)
-            .map(|i| (start_x + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (start_x.saturating_add((i as u32).saturating_mul(shape_width.saturating_add(spacing))), y))
             .collect()
     }
 
@@ -758,11 +760,13 @@ pub mod layouts {
         spacing: u32,
         x: u32,
     ) -> Vec<(u32, u32)> {
-        let total_height = (shape_height * count as u32) + (spacing * (count - 1) as u32);
+        let total_height = shape_height
+            .saturating_mul(count as u32)
+            .saturating_add(spacing.saturating_mul(count.saturating_sub(1) as u32));
         let start_y = center_y(total_height);
 
         (0..count)
-            .map(|i| (x, start_y + (i as u32 * (shape_height + spacing))))
+            .map(|i| (x, start_y.saturating_add((i as u32).saturating_mul(shape_height.saturating_add(spacing)))))
             .collect()
     }
 
@@ -776,10 +780,10 @@ pub mod layouts {
         }
 
         let usable_width = SLIDE_WIDTH - (2 * MARGIN);
-        let spacing = (usable_width - (shape_width * count as u32)) / (count as u32 - 1);
+        let spacing = usable_width.saturating_sub(shape_width.saturating_mul(count as u32)) / (count as u32 - 1);
 
         (0..count)
-            .map(|i| (MARGIN + (i as u32 * (shape_width + spacing)), y))
+            .map(|i| (MARGIN.saturating_add((i as u32).saturating_mul(shape_width.saturating_add(spacing))), y))
             .collect()
     }
 }
-- 
2.43.0


From 3e6302f87fd11d92b0a647d0e9a55eb3ae5950fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 005/108] fix: font_sizes::to_emu wrapped for huge sizes

---
 src/prelude.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/prelude.rs b/src/prelude.rs
index bea865f..04e325b 100644
--- a/src/prelude.rs
+++ b/src/prelude.rs
@@ -111,7 +111,7 @@ pub mod font_sizes {
 
     /// Convert points to OOXML size units (hundredths of a point)
     pub fn to_emu(pt: u32) -> u32 {
-        pt * 100
+        pt.saturating_mul(100)
     }
 }
 
-- 
2.43.0


From 9d76ef3de96d61e4c4614e17d40b4c15380425d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 006/108] fix: shape rotation overflowed for angles of many
 turns

---
 src/generator/shapes_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 34ecae7..acd78ea 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -19,7 +19,7 @@ pub fn generate_shape_xml(shape: &Shape, shape_id: u32) -> String {
     let text_xml = generate_text_xml_with_autofit(&shape.text, shape.width, shape.height, fill_color);
     
     let rot_attr = if let Some(rot) = shape.rotation {
-        format!(r#" rot="{}""#, rot * 60000)
+        format!(r#" rot="{}""#, (rot % 360) * 60000)
     } else {
         String::new()
     };
-- 
2.43.0


From 5ae75a485623b2591cececad5a3346604d0142f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:25 +0000
Subject: [PATCH 007/108] fix: table helpers divided by zero for tables without
 columns

---
 src/helpers/tables.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/helpers/tables.rs b/src/helpers/tables.rs
index b1f43c8..006707c 100644
--- a/src/helpers/tables.rs
+++ b/src/helpers/tables.rs
@@ -13,7 +13,7 @@ use crate::generator::{TableBuilder, TableCell, TableRow};
 /// let table = simple_table(3, 4); // 3 rows, 4 columns with equal widths
 /// ```
 pub fn simple_table(rows: usize, cols: usize) -> TableBuilder {
-    let col_width = 9144000 / cols as u32; // Divide slide width equally
+    let col_width = 9144000 / cols.max(1) as u32; // Divide slide width equally
     let column_widths = vec![col_width; cols];
     let mut builder = TableBuilder::new(column_widths);
 
@@ -64,7 +64,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
     let widths = if let Some(widths) = column_widths {
         widths.iter().map(|w| (w * 914400.0) as u32).collect()
     } else {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         vec![col_width; cols]
     };
 
@@ -89,7 +89,7 @@ pub fn table_from_data(data: &[Vec<&str>], column_widths: Option<Vec<f64>>) -> T
 /// ```
 pub fn table_with_header(headers: &[&str], data_rows: usize) -> TableBuilder {
     let cols = headers.len();
-    let col_width = 9144000 / cols as u32;
+    let col_width = 9144000 / cols.max(1) as u32;
     let column_widths = vec![col_width; cols];
 
     let mut builder = TableBuilder::new(column_widths);
@@ -124,7 +124,7 @@ pub struct QuickTable {
 impl QuickTable {
     /// Create a new quick table with equal column widths
     pub fn new(cols: usize) -> Self {
-        let col_width = 9144000 / cols as u32;
+        let col_width = 9144000 / cols.max(1) as u32;
         let column_widths = vec![col_width; cols];
         Self {
             builder: TableBuilder::new(column_widths),
-- 
2.43.0


From 7953207bd8f4c52044bbc65d7f95c8351abdb519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:13 +0000
Subject: [PATCH 008/108] fix: generating a shape panicked when its fill colour
 was multi-byte text

---
 src/generator/shapes_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index acd78ea..3b3a634 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -313,7 +313,7 @@ fn estimate_wrapped_lines(_text: &str, lines: &[&str]) -> (f64, f64) {
 /// Calculate if a color is dark (needs white text) or light (needs black text)
 fn is_dark_color(hex_color: &str) -> bool {
     let hex = hex_color.trim_start_matches('#');
-    if hex.len() < 6 {
+    if hex.len() < 6 || !hex.is_ascii() {
         return false; // Default to light
     }
     
-- 
2.43.0


From 1904793daebe40779e9b3be53a1aeec6931c01da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:36 +0000
Subject: [PATCH 009/108] fix: lazily written decks lacked content types for
 ink, signatures and embedded fonts

---
 src/generator/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index ccec2dc..4c4e0bd 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -985,6 +985,8 @@ fn write_content_types_lazy<W: Write + Seek>(
 <Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>"#,
     );
     super::layout_parts::append_layout_content_type_overrides(&mut content_types, STANDARD_LAYOUT_COUNT);
+    // The helpers below insert before the closing tag.
+    content_types.push_str("\n</Types>");
 
     if has_digital_signature(settings) {
         append_digital_signature_content_type(&mut content_types);
@@ -995,8 +997,6 @@ fn write_content_types_lazy<W: Write + Seek>(
 
     super::package_xml::append_ink_content_types(&mut content_types, ink_count);
 
-    content_types.push_str("\n</Types>");
-
     zip.start_file("[Content_Types].xml", *options)?;
     zip.write_all(content_types.as_bytes())?;
     Ok(())
-- 
2.43.0


From 92ff7d8ef4146917b405e93ebbd1f0ebb106f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:37 +0000
Subject: [PATCH 010/108] fix: images other than .jpg, .png and .gif had no
 content type

---
 src/generator/package_xml.rs | 35 ++++++++++++++++++-----------------
 1 file changed, 18 insertions(+), 17 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index ea5360d..19bda8e 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -26,25 +26,26 @@ const CONTENT_TYPES_HEADER: &str = r#"<?xml version="1.0" encoding="UTF-8" stand
 <Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>"#;
 
 fn append_image_content_type_defaults(xml: &mut String, media_exts: &[String]) {
-    let mut has_jpg = false;
-    let mut has_png = false;
-    let mut has_gif = false;
+    let mut seen: Vec<&str> = Vec::new();
     for ext in media_exts {
-        match ext.as_str() {
-            "jpg" | "jpeg" => has_jpg = true,
-            "png" => has_png = true,
-            "gif" => has_gif = true,
-            _ => {}
+        if seen.contains(&ext.as_str()) {
+            continue;
         }
-    }
-    if has_jpg {
-        xml.push_str(r#"<Default Extension="jpg" ContentType="image/jpeg"/>"#);
-    }
-    if has_png {
-        xml.push_str(r#"<Default Extension="png" ContentType="image/png"/>"#);
-    }
-    if has_gif {
-        xml.push_str(r#"<Default Extension="gif" ContentType="image/gif"/>"#);
+        seen.push(ext);
+        let mime_type = match ext.as_str() {
+            "png" => "image/png",
+            "jpg" | "jpeg" => "image/jpeg",
+            "gif" => "image/gif",
+            "bmp" => "image/bmp",
+            "tif" | "tiff" => "image/tiff",
+            "svg" => "image/svg+xml",
+            "webp" => "image/webp",
+            _ => "application/octet-stream",
+        };
+        xml.push_str(&format!(
+            r#"<Default Extension="{}" ContentType="{mime_type}"/>"#,
+            escape_xml(ext)
+        ));
     }
 }
 
-- 
2.43.0


From 67f385a339b64ce1f16001bd95805fe4526cce8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:38 +0000
Subject: [PATCH 011/108] fix: a picture whose file cannot be read was written
 with the relationship id of another part

---
 src/generator/builder.rs           | 3 ++-
 src/generator/slide_xml/content.rs | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 4c4e0bd..30a3d82 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -1161,7 +1161,8 @@ fn write_slides<W: Write + Seek>(
                 let slide_num = i + 1;
 
                 let mut chart_rids = Vec::with_capacity(slide.charts.len());
-                let start_rid = slide_content_rel_start(slide.notes.is_some(), slide.images.len());
+                let image_count = slide.images.iter().filter(|image| image.get_bytes().is_some()).count();
+                let start_rid = slide_content_rel_start(slide.notes.is_some(), image_count);
                 for j in 0..slide.charts.len() {
                     push_chart_rid(&mut chart_rids, start_rid + j);
                 }
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d4aac14..b038376 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -30,7 +30,9 @@ pub fn render_additional_content(
     // Render images (actual picture elements, not placeholders)
     let image_start_id = 20 + content.shapes.len();
     let image_rel_start = 2 + usize::from(content.notes.is_some());
-    for (i, image) in content.images.iter().enumerate() {
+    // Images whose bytes cannot be loaded get no relationship, so they get no picture either.
+    let loadable = content.images.iter().filter(|image| image.get_bytes().is_some());
+    for (i, image) in loadable.enumerate() {
         xml.push('\n');
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
-- 
2.43.0


From 50cd96296752d78904594da3c0bd7b8a0b1f99e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:39 +0000
Subject: [PATCH 012/108] fix: no relationship led to the digital signature
 part

---
 src/generator/builder.rs     | 5 ++++-
 src/generator/package_xml.rs | 8 ++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 30a3d82..933dad3 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -9,7 +9,7 @@ use super::slide_content::SlideContent;
 use super::memory_profile::estimate_output_capacity;
 use super::package_cache::{self, print_affects_theme_parts};
 use super::package_xml::{
-    create_rels_xml_with_signature,
+    create_rels_xml_with_signature, create_signature_origin_rels_xml,
     create_presentation_rels_xml_full, create_presentation_rels_xml_full_with_fonts,
     create_presentation_xml, create_presentation_xml_with_fonts,
     create_content_types_xml_with_notes_and_charts,
@@ -1371,6 +1371,9 @@ fn write_digital_signature_parts<W: Write + Seek>(
     zip.start_file("_xmlsignatures/origin.sigs", *options)?;
     zip.write_all(signature.to_origin_xml().as_bytes())?;
 
+    zip.start_file("_xmlsignatures/_rels/origin.sigs.rels", *options)?;
+    zip.write_all(create_signature_origin_rels_xml().as_bytes())?;
+
     zip.start_file("_xmlsignatures/sig1.xml", *options)?;
     zip.write_all(signature.to_signature_xml().as_bytes())?;
 
diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index 19bda8e..cee5daf 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -179,6 +179,14 @@ pub fn create_rels_xml_with_signature(has_signature: bool) -> String {
     xml
 }
 
+/// Create `_xmlsignatures/_rels/origin.sigs.rels` (leads from the origin to the signature).
+pub fn create_signature_origin_rels_xml() -> &'static str {
+    r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
+<Relationship Id="rId1" Type="http://schemas.openxmlformats.org/package/2006/relationships/digital-signature/signature" Target="sig1.xml"/>
+</Relationships>"#
+}
+
 /// Create ppt/_rels/presentation.xml.rels
 pub fn create_presentation_rels_xml(slides: usize) -> String {
     create_presentation_rels_xml_full(slides, false, false)
-- 
2.43.0


From 7f136fb64964fd89db67492d818ecfa1a4181400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 013/108] fix: slide show jumps wrote a relationship to a part
 that does not exist

---
 src/generator/builder.rs    | 24 ++++++++++++++----------
 src/generator/hyperlinks.rs |  4 ++++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 933dad3..0305aa3 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -88,16 +88,20 @@ fn slide_image_rel_targets(slide: &SlideContent, registry: &MediaRegistry) -> Ve
 /// references these ids via `<a:hlinkClick r:id="..."/>`, so the matching
 /// relationship must be present in the slide's `.rels` part.
 fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
-    slide
-        .shapes
-        .iter()
-        .filter_map(|s| s.hyperlink.as_ref())
-        .filter_map(|h| {
-            h.r_id
-                .as_ref()
-                .map(|rid| crate::generator::generate_hyperlink_relationship_xml(h, rid))
-        })
-        .collect()
+    let mut seen: Vec<&str> = Vec::new();
+    let mut rels = Vec::new();
+    for h in slide.shapes.iter().filter_map(|s| s.hyperlink.as_ref()) {
+        // Slide show jumps are expressed by the action attribute alone.
+        if h.action.action_type().is_some() {
+            continue;
+        }
+        if let Some(rid) = h.r_id.as_deref()
+            && !seen.contains(&rid) {
+                seen.push(rid);
+                rels.push(crate::generator::generate_hyperlink_relationship_xml(h, rid));
+            }
+    }
+    rels
 }
 
 fn set_notes_part_path(path: &mut String, notes_part_num: usize) {
diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index 4b13be4..a695359 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -161,6 +161,8 @@ impl Hyperlink {
 
 /// Generate hyperlink XML for text run
 pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
+    // Slide show jumps have no relationship: their id is empty.
+    let r_id = if hyperlink.action.action_type().is_some() { "" } else { r_id };
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
 
     if let Some(tooltip) = &hyperlink.tooltip {
@@ -182,6 +184,8 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
 /// Generate hyperlink XML for shape
 pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String {
+    // Slide show jumps have no relationship: their id is empty.
+    let r_id = if hyperlink.action.action_type().is_some() { "" } else { r_id };
     let mut xml = format!(r#"<a:hlinkClick r:id="{}""#, r_id);
 
     if let Some(tooltip) = &hyperlink.tooltip {
-- 
2.43.0


From 1ca883afa08c1bfd03d6ed7b95bb843ace437e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:42 +0000
Subject: [PATCH 014/108] fix: a theme over a template wrote theme1.xml twice

---
 src/generator/builder.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 0305aa3..55ab28c 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -636,7 +636,11 @@ fn write_theme_and_layouts<W: Write + Seek>(
     let print = settings.and_then(|s| s.print.as_ref());
 
     if let Some(tmpl) = template {
+        let own_theme = settings.is_some_and(|s| s.theme.is_some());
         for (path, data) in tmpl.parts() {
+            if own_theme && path == "ppt/theme/theme1.xml" {
+                continue;
+            }
             zip.start_file(path, *options)?;
             zip.write_all(data)?;
         }
-- 
2.43.0


From 7b97d314fe654c72f776d6850ad411a3bf91ef29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:43 +0000
Subject: [PATCH 015/108] fix: embedding the same font twice wrote its part
 twice

---
 src/generator/slide_content/embedded_fonts.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index c3b7408..36cc491 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -156,7 +156,11 @@ impl EmbeddedFontList {
 
     /// Add an embedded font
     pub fn add(&mut self, font: EmbeddedFont) {
-        self.fonts.push(font);
+        // One part per typeface and style: a second one replaces the first.
+        match self.fonts.iter_mut().find(|f| f.typeface == font.typeface && f.style == font.style) {
+            Some(existing) => *existing = font,
+            None => self.fonts.push(font),
+        }
     }
 
     /// Get all fonts
-- 
2.43.0


From 037d52ce5692c26eb456d9685c54119d87741b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:44 +0000
Subject: [PATCH 016/108] fix: the embedded font list came after extLst in
 presentation.xml

---
 src/generator/package_xml.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/package_xml.rs b/src/generator/package_xml.rs
index cee5daf..671f556 100644
--- a/src/generator/package_xml.rs
+++ b/src/generator/package_xml.rs
@@ -385,8 +385,8 @@ pub fn create_presentation_xml_with_fonts(
     let mut xml = create_presentation_xml(title, slides, has_notes, has_handout);
     let font_xml = fonts.to_xml();
     if !font_xml.is_empty() {
-        // Insert <p:embeddedFontLst> before the closing </p:presentation>.
-        if let Some(pos) = xml.rfind("</p:presentation>") {
+        // The schema has <p:embeddedFontLst> before <p:defaultTextStyle>.
+        if let Some(pos) = xml.find("<p:defaultTextStyle>") {
             xml.insert_str(pos, &font_xml);
         }
     }
-- 
2.43.0


From 5ce332a7bfa0e72f3c612ea1544b109c530db029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:02 +0000
Subject: [PATCH 017/108] fix: decks made from a template had tableStyles.xml
 twice

---
 src/generator/builder.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 55ab28c..43abab8 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -568,6 +568,7 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
     settings: Option<&PresentationSettings>,
+    template: Option<&PptxTemplate>,
 ) -> Result<()> {
     let pres_props = create_pres_props_xml(settings);
     zip.start_file("ppt/presProps.xml", *options)?;
@@ -577,9 +578,12 @@ fn write_standard_package_parts<W: Write + Seek>(
     zip.start_file("ppt/viewProps.xml", *options)?;
     zip.write_all(view_props.as_bytes())?;
 
-    let table_styles = create_table_styles_xml();
-    zip.start_file("ppt/tableStyles.xml", *options)?;
-    zip.write_all(table_styles.as_bytes())?;
+    // A template brings its own table styles.
+    if !template.is_some_and(|t| t.parts().contains_key("ppt/tableStyles.xml")) {
+        let table_styles = create_table_styles_xml();
+        zip.start_file("ppt/tableStyles.xml", *options)?;
+        zip.write_all(table_styles.as_bytes())?;
+    }
     Ok(())
 }
 
@@ -757,7 +761,7 @@ fn write_package_files<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts (presProps, viewProps, tableStyles)
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master (when printing handouts)
     if has_handout {
@@ -857,7 +861,7 @@ fn write_package_files_lazy<W: Write + Seek>(
     zip.write_all(presentation.as_bytes())?;
 
     // 5. Standard package parts
-    write_standard_package_parts(zip, options, settings.as_ref())?;
+    write_standard_package_parts(zip, options, settings.as_ref(), template.as_ref())?;
 
     // 6. Handout master
     if has_handout {
-- 
2.43.0


From a5643e93920ce5aaa9d8c917b3b5692034a457e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:03 +0000
Subject: [PATCH 018/108] fix: a template's notes and handout themes were
 written over the deck's own or left unreferenced

---
 src/generator/template.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/generator/template.rs b/src/generator/template.rs
index 47b5644..5d26dfa 100644
--- a/src/generator/template.rs
+++ b/src/generator/template.rs
@@ -33,6 +33,19 @@ impl PptxTemplate {
                 }
         }
 
+        // Themes of the template's notes and handout masters are not part of the design.
+        let master_rels: Vec<Vec<u8>> = parts
+            .iter()
+            .filter(|(p, _)| p.starts_with("ppt/slideMasters/_rels/"))
+            .map(|(_, data)| data.clone())
+            .collect();
+        parts.retain(|path, _| match path.strip_prefix("ppt/theme/") {
+            Some(name) if name.ends_with(".xml") => master_rels
+                .iter()
+                .any(|rels| String::from_utf8_lossy(rels).contains(&format!("theme/{name}"))),
+            _ => true,
+        });
+
         if !parts.keys().any(|p| p.starts_with("ppt/slideMasters/")) {
             return Err(PptxError::InvalidValue(
                 "template missing ppt/slideMasters/".into(),
-- 
2.43.0


From 9cd032381ae32175e5c2219e3b080923bcac7fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:47 +0000
Subject: [PATCH 019/108] fix: the presentation title was written unescaped in
 core.xml

---
 src/generator/props_xml.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 9b23ef4..13d0be2 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -28,6 +28,7 @@ fn current_timestamp() -> String {
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
     let now = current_timestamp();
+    let title = xml_escape(title);
     format!(
         r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <cp:coreProperties xmlns:cp="http://schemas.openxmlformats.org/package/2006/metadata/core-properties" xmlns:dc="http://purl.org/dc/elements/1.1/" xmlns:dcterms="http://purl.org/dc/terms/" xmlns:dcmitype="http://purl.org/dc/dcmitype/" xmlns:xsi="http://www.w3.org/2001/XMLSchema-instance">
-- 
2.43.0


From 2b9186ae06a608834eafbc84a1acaedec46b0872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:48 +0000
Subject: [PATCH 020/108] fix: application properties were written unescaped

---
 src/parts/app_props.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index b806ecf..8043ef9 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -3,6 +3,7 @@
 //! Represents docProps/app.xml with application-specific metadata.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Application properties part (docProps/app.xml)
@@ -73,7 +74,7 @@ impl AppPropertiesPart {
         let company_xml = self
             .company
             .as_ref()
-            .map(|c| format!("<Company>{}</Company>", c))
+            .map(|c| format!("<Company>{}</Company>", escape_xml(c)))
             .unwrap_or_default();
 
         format!(
@@ -94,10 +95,10 @@ impl AppPropertiesPart {
   <SharedDoc>{}</SharedDoc>
   <HyperlinksChanged>{}</HyperlinksChanged>
 </Properties>"#,
-            self.application,
-            self.app_version,
+            escape_xml(&self.application),
+            escape_xml(&self.app_version),
             company_xml,
-            self.presentation_format,
+            escape_xml(&self.presentation_format),
             self.slides,
             self.paragraphs,
             self.words,
-- 
2.43.0


From 8184d3700303132b11e82f3ee8c8e21b021d2d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:49 +0000
Subject: [PATCH 021/108] fix: theme, font and layout names were written
 unescaped

---
 src/parts/slide_layout.rs | 3 ++-
 src/parts/theme.rs        | 8 ++++++--
 2 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/parts/slide_layout.rs b/src/parts/slide_layout.rs
index 34054e3..827a129 100644
--- a/src/parts/slide_layout.rs
+++ b/src/parts/slide_layout.rs
@@ -3,6 +3,7 @@
 //! Represents a slide layout template (ppt/slideLayouts/slideLayoutN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Slide layout types
@@ -140,7 +141,7 @@ impl SlideLayoutPart {
   </p:clrMapOvr>
 </p:sldLayout>"#,
             self.layout_type.type_value(),
-            self.name
+            escape_xml(&self.name)
         )
     }
 }
diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 48a9961..8601f9d 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -3,6 +3,7 @@
 //! Represents a theme (ppt/theme/themeN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Theme color
@@ -127,7 +128,7 @@ impl ThemePart {
             .map(|c| {
                 format!(
                     r#"<a:{} val="{}"><a:srgbClr val="{}"/></a:{}>"#,
-                    c.name, c.name, c.value, c.name
+                    c.name, c.name, escape_xml(&c.value), c.name
                 )
             })
             .collect::<Vec<_>>()
@@ -178,7 +179,10 @@ impl ThemePart {
   <a:objectDefaults/>
   <a:extraClrSchemeLst/>
 </a:theme>"#,
-            self.name, colors_xml, self.major_font.typeface, self.minor_font.typeface
+            escape_xml(&self.name),
+            colors_xml,
+            escape_xml(&self.major_font.typeface),
+            escape_xml(&self.minor_font.typeface)
         )
     }
 }
-- 
2.43.0


From 9c046ab7c7f5f10f0617f3747fdf04b7fa329c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:50 +0000
Subject: [PATCH 022/108] fix: relationship targets were written unescaped

---
 src/parts/relationships.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 2b8255e..b4e11cc 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -3,6 +3,7 @@
 //! Manages relationships between parts in a PPTX package.
 
 use crate::core::ToXml;
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 use crate::oxml::XmlParser;
 
@@ -86,9 +87,9 @@ impl Relationship {
     pub fn to_xml(&self) -> String {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
-            self.id,
+            escape_xml(&self.id),
             self.rel_type.uri(),
-            self.target
+            escape_xml(&self.target)
         )
     }
 }
-- 
2.43.0


From 846d6f83bcab1ec3bc8e1e138f172d729e40c27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:03 +0000
Subject: [PATCH 023/108] fix: content type entries were written unescaped

---
 src/parts/content_types.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index 46517ea..deb61d9 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -3,6 +3,7 @@
 //! Represents `[Content_Types].xml` which defines MIME types for all parts.
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
 
 /// Default content type mapping (by extension)
@@ -160,7 +161,7 @@ impl ContentTypesPart {
             .map(|d| {
                 format!(
                     r#"<Default Extension="{}" ContentType="{}"/>"#,
-                    d.extension, d.content_type
+                    escape_xml(&d.extension), escape_xml(&d.content_type)
                 )
             })
             .collect::<Vec<_>>()
@@ -172,7 +173,7 @@ impl ContentTypesPart {
             .map(|o| {
                 format!(
                     r#"<Override PartName="{}" ContentType="{}"/>"#,
-                    o.part_name, o.content_type
+                    escape_xml(&o.part_name), escape_xml(&o.content_type)
                 )
             })
             .collect::<Vec<_>>()
-- 
2.43.0


From 56c058b982a4fbe08bca7d9e94def5d860b5109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:04 +0000
Subject: [PATCH 024/108] fix: the font of a table cell part was written
 unescaped

---
 src/parts/table.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index f5e7de2..9d7129a 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -415,7 +415,7 @@ impl TableCellPart {
         let font_xml = self
             .font_family
             .as_ref()
-            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, f))
+            .map(|f| format!(r#"<a:latin typeface="{}"/>"#, crate::core::escape_xml(f)))
             .unwrap_or_default();
 
         // Paragraph alignment
-- 
2.43.0


From b876ba138b8e6c55b00423959d8b7ab782e6a4d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:05 +0000
Subject: [PATCH 025/108] fix: the signing date was written unescaped

---
 src/generator/slide_content/digital_signature.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/digital_signature.rs b/src/generator/slide_content/digital_signature.rs
index df533fd..4cfe8c6 100644
--- a/src/generator/slide_content/digital_signature.rs
+++ b/src/generator/slide_content/digital_signature.rs
@@ -170,7 +170,7 @@ impl DigitalSignature {
             self.hash_algorithm.uri(),
             self.commitment_type.uri(),
             self.commitment_type.label(),
-            date,
+            xml_escape(date),
         ));
         xml.push_str(r#"</Object>"#);
         xml.push_str(r#"</Signature>"#);
-- 
2.43.0


From 29693791d9f6c666a903eb74511999ee735c34a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:06 +0000
Subject: [PATCH 026/108] fix: panose and relationship id of an embedded font
 were written unescaped

---
 src/generator/slide_content/embedded_fonts.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/embedded_fonts.rs b/src/generator/slide_content/embedded_fonts.rs
index 36cc491..73394ed 100644
--- a/src/generator/slide_content/embedded_fonts.rs
+++ b/src/generator/slide_content/embedded_fonts.rs
@@ -224,7 +224,7 @@ impl EmbeddedFontList {
             // Font descriptor (from first variant)
             if let Some(first) = variants.first() {
                 let panose_attr = first.panose.as_ref()
-                    .map(|p| format!(r#" panose="{}""#, p))
+                    .map(|p| format!(r#" panose="{}""#, xml_escape(p)))
                     .unwrap_or_default();
                 xml.push_str(&format!(
                     r#"<p:font typeface="{}" charset="{}" pitchFamily="{}"{}/>"#,
@@ -240,7 +240,7 @@ impl EmbeddedFontList {
                 xml.push_str(&format!(
                     r#"<p:{} r:id="{}"/>"#,
                     font.style.xml_element(),
-                    font.relationship_id,
+                    xml_escape(&font.relationship_id),
                 ));
             }
 
-- 
2.43.0


From ad2f7cff7eb9fe3f55668c2ba4b6d9842bee4677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:07 +0000
Subject: [PATCH 027/108] fix: the font of a bullet was written unescaped

---
 src/generator/layouts/common.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 6498314..88cf029 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -83,6 +83,7 @@ impl ExtendedTextProps {
         }
         
         if let Some(ref font) = self.font_family {
+            let font = crate::core::escape_xml(font);
             attrs.push_str(&format!(
                 r#"<a:latin typeface="{font}"/><a:cs typeface="{font}"/>"#
             ));
-- 
2.43.0


From f9736a41d5eab7cb9d6a75725544c8042827bde7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:08 +0000
Subject: [PATCH 028/108] fix: a custom bullet character was written unescaped

---
 src/generator/slide_content/bullet.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index ccc976a..314d856 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -34,7 +34,9 @@ impl BulletStyle {
             BulletStyle::LetterUpper => r#"<a:buAutoNum type="alphaUcPeriod"/>"#.to_string(),
             BulletStyle::RomanLower => r#"<a:buAutoNum type="romanLcPeriod"/>"#.to_string(),
             BulletStyle::RomanUpper => r#"<a:buAutoNum type="romanUcPeriod"/>"#.to_string(),
-            BulletStyle::Custom(ch) => format!(r#"<a:buChar char="{}"/>"#, ch),
+            BulletStyle::Custom(ch) => {
+                format!(r#"<a:buChar char="{}"/>"#, crate::core::escape_xml(&ch.to_string()))
+            },
             BulletStyle::None => r#"<a:buNone/>"#.to_string(),
         }
     }
-- 
2.43.0


From cda744b3c4f1d42225e537569c41ec6ee2470781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:18 +0000
Subject: [PATCH 029/108] fix: reading a presentation lost text that consists
 of blanks

---
 src/oxml/xmlchemy.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/oxml/xmlchemy.rs b/src/oxml/xmlchemy.rs
index 0404cb8..1f59948 100644
--- a/src/oxml/xmlchemy.rs
+++ b/src/oxml/xmlchemy.rs
@@ -169,7 +169,11 @@ impl XmlParser {
                     stack.push(element);
                 }
                 Ok(XmlEvent::EndElement { .. }) => {
-                    if let Some(element) = stack.pop() {
+                    if let Some(mut element) = stack.pop() {
+                        // Blanks between child elements are layout; those of a leaf are its text.
+                        if !element.children.is_empty() && element.text.trim().is_empty() {
+                            element.text.clear();
+                        }
                         if let Some(parent) = stack.last_mut() {
                             parent.add_child(element);
                         } else {
@@ -177,7 +181,7 @@ impl XmlParser {
                         }
                     }
                 }
-                Ok(XmlEvent::Characters(text)) => {
+                Ok(XmlEvent::Characters(text)) | Ok(XmlEvent::Whitespace(text)) => {
                     if let Some(current) = stack.last_mut() {
                         current.text.push_str(&text);
                     }
-- 
2.43.0


From 90610328ae0daa9a8bab918aa44b2cb5db6b511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:21 +0000
Subject: [PATCH 030/108] fix: a merge region with a huge span wrapped around
 and was accepted

---
 src/generator/slide_content/table_merge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/table_merge.rs b/src/generator/slide_content/table_merge.rs
index 2719d41..ddd359e 100644
--- a/src/generator/slide_content/table_merge.rs
+++ b/src/generator/slide_content/table_merge.rs
@@ -23,12 +23,12 @@ impl MergeRegion {
 
     /// Last row index (inclusive)
     pub fn last_row(&self) -> usize {
-        self.row + self.row_span - 1
+        self.row.saturating_add(self.row_span.saturating_sub(1))
     }
 
     /// Last column index (inclusive)
     pub fn last_col(&self) -> usize {
-        self.col + self.col_span - 1
+        self.col.saturating_add(self.col_span.saturating_sub(1))
     }
 
     /// Check if a cell (r, c) is inside this merge region
-- 
2.43.0


From 9ada4974632db44b72c4e3035b529df66faeedef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:22 +0000
Subject: [PATCH 031/108] fix: the size of a table overflowed with wide columns
 or tall rows

---
 src/generator/table/builder.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/table/builder.rs b/src/generator/table/builder.rs
index cefcb27..05203ce 100644
--- a/src/generator/table/builder.rs
+++ b/src/generator/table/builder.rs
@@ -43,7 +43,7 @@ impl Table {
 
     /// Calculate total table width
     pub fn width(&self) -> u32 {
-        self.column_widths.iter().sum()
+        self.column_widths.iter().fold(0, |sum, width| sum.saturating_add(*width))
     }
 
     /// Calculate total table height based on row heights
@@ -51,7 +51,7 @@ impl Table {
         self.rows
             .iter()
             .map(|row| row.height.unwrap_or(400000))
-            .sum()
+            .fold(0, u32::saturating_add)
     }
 
     /// Get the number of rows
-- 
2.43.0


From bd141b6f8c3db64e5c7a663cf89ab2646c46bb31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:23 +0000
Subject: [PATCH 032/108] fix: a table row shorter than the grid was written
 without its remaining cells

---
 src/generator/table/xml.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/generator/table/xml.rs b/src/generator/table/xml.rs
index 66f08ee..6f8cb5c 100644
--- a/src/generator/table/xml.rs
+++ b/src/generator/table/xml.rs
@@ -1,6 +1,7 @@
 //! XML generation for tables in PPTX format
 
 use super::builder::Table;
+use super::cell::TableCell;
 use super::format::generate_cell_xml;
 use super::row::TableRow;
 use crate::core::XmlWriter;
@@ -40,7 +41,7 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
     writer.raw("</a:tblGrid>");
 
     for (row_idx, row) in table.rows.iter().enumerate() {
-        writer.raw(&generate_row_xml(row, row_idx));
+        writer.raw(&generate_row_xml(row, row_idx, table.column_widths.len()));
     }
 
     writer.raw("</a:tbl></a:graphicData></a:graphic>");
@@ -49,7 +50,7 @@ pub fn generate_table_xml(table: &Table, shape_id: usize) -> String {
 }
 
 /// Generate row XML
-fn generate_row_xml(row: &TableRow, row_idx: usize) -> String {
+fn generate_row_xml(row: &TableRow, row_idx: usize, columns: usize) -> String {
     let height = row.height.unwrap_or(400000).to_string();
     let row_id = 10_000 + row_idx;
     let mut writer = XmlWriter::with_capacity(512);
@@ -58,6 +59,10 @@ fn generate_row_xml(row: &TableRow, row_idx: usize) -> String {
     for cell in &row.cells {
         writer.raw(&generate_cell_xml(cell));
     }
+    // A row has to have a cell for every grid column.
+    for _ in row.cells.len()..columns {
+        writer.raw(&generate_cell_xml(&TableCell::new("")));
+    }
 
     writer.raw(&format!(
         r#"<a:extLst><a:ext uri="{{0D108BD9-81ED-4DB2-BD59-A6C34878D82A}}"><a16:rowId xmlns:a16="http://schemas.microsoft.com/office/drawing/2014/main" val="{row_id}"/></a:ext></a:extLst>"#
-- 
2.43.0


From 96d709019fafa0e01399cfe8a68ea026ac8b3f4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:36 +0000
Subject: [PATCH 033/108] fix: reading relationships turned types like
 hyperlink or comments into other types

---
 src/parts/relationships.rs | 37 +++++++++++++++----------------------
 1 file changed, 15 insertions(+), 22 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index b4e11cc..155d1ad 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -41,27 +41,20 @@ impl RelationshipType {
 
     /// Parse from URI string
     pub fn from_uri(uri: &str) -> Self {
-        if uri.contains("/slide") && !uri.contains("Layout") && !uri.contains("Master") {
-            RelationshipType::Slide
-        } else if uri.contains("/slideLayout") {
-            RelationshipType::SlideLayout
-        } else if uri.contains("/slideMaster") {
-            RelationshipType::SlideMaster
-        } else if uri.contains("/theme") {
-            RelationshipType::Theme
-        } else if uri.contains("/image") {
-            RelationshipType::Image
-        } else if uri.contains("/chart") {
-            RelationshipType::Chart
-        } else if uri.contains("/officeDocument") {
-            RelationshipType::OfficeDocument
-        } else if uri.contains("core-properties") {
-            RelationshipType::CoreProperties
-        } else if uri.contains("extended-properties") {
-            RelationshipType::ExtendedProperties
-        } else {
-            RelationshipType::Custom(uri.to_string())
-        }
+        [
+            RelationshipType::OfficeDocument,
+            RelationshipType::Slide,
+            RelationshipType::SlideLayout,
+            RelationshipType::SlideMaster,
+            RelationshipType::Theme,
+            RelationshipType::Image,
+            RelationshipType::Chart,
+            RelationshipType::CoreProperties,
+            RelationshipType::ExtendedProperties,
+        ]
+        .into_iter()
+        .find(|known| known.uri() == uri)
+        .unwrap_or_else(|| RelationshipType::Custom(uri.to_string()))
     }
 }
 
@@ -88,7 +81,7 @@ impl Relationship {
         format!(
             r#"<Relationship Id="{}" Type="{}" Target="{}"/>"#,
             escape_xml(&self.id),
-            self.rel_type.uri(),
+            escape_xml(self.rel_type.uri()),
             escape_xml(&self.target)
         )
     }
-- 
2.43.0


From d051c0a68946449baf8b94cfe8b99c7ef2f1d049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:37 +0000
Subject: [PATCH 034/108] fix: after the relationship id rId4294967295 the next
 id overflowed

---
 src/parts/relationships.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/parts/relationships.rs b/src/parts/relationships.rs
index 155d1ad..07fd430 100644
--- a/src/parts/relationships.rs
+++ b/src/parts/relationships.rs
@@ -111,8 +111,12 @@ impl Relationships {
 
     /// Add a relationship and return its ID
     pub fn add(&mut self, rel_type: RelationshipType, target: &str) -> String {
-        let id = format!("rId{}", self.next_id);
-        self.next_id += 1;
+        let mut id = format!("rId{}", self.next_id);
+        self.next_id = self.next_id.wrapping_add(1);
+        while self.get(&id).is_some() {
+            id = format!("rId{}", self.next_id);
+            self.next_id = self.next_id.wrapping_add(1);
+        }
         self.relationships
             .push(Relationship::new(&id, rel_type, target));
         id
@@ -125,7 +129,7 @@ impl Relationships {
         // Update next_id if needed
         if let Some(num) = id.strip_prefix("rId").and_then(|s| s.parse::<u32>().ok())
             && num >= self.next_id {
-                self.next_id = num + 1;
+                self.next_id = num.saturating_add(1);
             }
     }
 
-- 
2.43.0


From e53873d267c72ee338a4535512bd358458520908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:38 +0000
Subject: [PATCH 035/108] fix: the dates of the core properties were written
 unescaped

---
 src/parts/coreprops.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 76bf8ba..7eabca1 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -105,7 +105,7 @@ impl CorePropertiesPart {
     pub fn touch(&mut self) {
         self.modified = Some(current_timestamp());
         if let Some(ref mut rev) = self.revision {
-            *rev += 1;
+            *rev = rev.saturating_add(1);
         }
     }
 
@@ -179,13 +179,13 @@ impl Part for CorePropertiesPart {
         if let Some(ref created) = self.created {
             elements.push(format!(
                 r#"<dcterms:created xsi:type="dcterms:W3CDTF">{}</dcterms:created>"#,
-                created
+                Self::escape_xml(created)
             ));
         }
         if let Some(ref modified) = self.modified {
             elements.push(format!(
                 r#"<dcterms:modified xsi:type="dcterms:W3CDTF">{}</dcterms:modified>"#,
-                modified
+                Self::escape_xml(modified)
             ));
         }
 
-- 
2.43.0


From a90af5020fe5239e45b131c6a134160ff2acd78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:39 +0000
Subject: [PATCH 036/108] fix: creation dates were wrong, and at the end of a
 year had a thirteenth month

---
 src/generator/props_xml.rs | 25 +------------------------
 src/parts/coreprops.rs     | 20 ++++++++++++--------
 2 files changed, 13 insertions(+), 32 deletions(-)

diff --git a/src/generator/props_xml.rs b/src/generator/props_xml.rs
index 13d0be2..ab49e49 100644
--- a/src/generator/props_xml.rs
+++ b/src/generator/props_xml.rs
@@ -1,29 +1,6 @@
 //! Document properties XML generation
 
-/// Get current timestamp in ISO 8601 format (UTC)
-fn current_timestamp() -> String {
-    let duration = std::time::SystemTime::now()
-        .duration_since(std::time::UNIX_EPOCH)
-        .unwrap_or_else(|_| std::time::Duration::from_secs(0));
-
-    let secs = duration.as_secs();
-    let days = secs / 86400;
-    let seconds = secs % 86400;
-
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30;
-    let day = 1 + remaining_days % 30;
-
-    let hours = seconds / 3600;
-    let minutes = (seconds % 3600) / 60;
-    let secs = seconds % 60;
-
-    format!(
-        "{:04}-{:02}-{:02}T{:02}:{:02}:{:02}Z",
-        year, month, day, hours, minutes, secs
-    )
-}
+use crate::parts::coreprops::current_timestamp;
 
 /// Create core properties XML (docProps/core.xml)
 pub fn create_core_props_xml(title: &str) -> String {
diff --git a/src/parts/coreprops.rs b/src/parts/coreprops.rs
index 7eabca1..fdcd7b3 100644
--- a/src/parts/coreprops.rs
+++ b/src/parts/coreprops.rs
@@ -8,7 +8,7 @@ use crate::oxml::XmlParser;
 
 /// Get current timestamp in ISO 8601 format (UTC)
 /// Simple alternative to chrono::Utc::now()
-fn current_timestamp() -> String {
+pub(crate) fn current_timestamp() -> String {
     // Use std::time for current timestamp
     let duration = std::time::SystemTime::now()
         .duration_since(std::time::UNIX_EPOCH)
@@ -16,16 +16,20 @@ fn current_timestamp() -> String {
 
     let secs = duration.as_secs();
 
-    // Convert to UTC datetime (simplified calculation)
-    // Days since Unix epoch
     let days = secs / 86400;
     let seconds = secs % 86400;
 
-    // Approximate date from Unix epoch (1970-01-01)
-    let year = 1970 + days / 365;
-    let remaining_days = days % 365;
-    let month = 1 + remaining_days / 30; // Approximate
-    let day = 1 + remaining_days % 30;
+    // Gregorian date from days since 1970-01-01, in years that begin on 1 March
+    let shifted = days + 719_468;
+    let era = shifted / 146_097;
+    let day_of_era = shifted % 146_097;
+    let year_of_era =
+        (day_of_era - day_of_era / 1460 + day_of_era / 36_524 - day_of_era / 146_096) / 365;
+    let day_of_year = day_of_era - (365 * year_of_era + year_of_era / 4 - year_of_era / 100);
+    let shifted_month = (5 * day_of_year + 2) / 153;
+    let day = day_of_year - (153 * shifted_month + 2) / 5 + 1;
+    let month = if shifted_month < 10 { shifted_month + 3 } else { shifted_month - 9 };
+    let year = era * 400 + year_of_era + u64::from(month <= 2);
 
     let hours = seconds / 3600;
     let minutes = (seconds % 3600) / 60;
-- 
2.43.0


From 326e9d86c8cf0636164427cfb81971af93d7ca4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 037/108] fix: detecting the format of four or five bytes
 panicked

---
 src/generator/images.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 1059aca..2cd3603 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -482,7 +482,7 @@ impl ImageBuilder {
                 "PNG"
             } else if data.len() >= 2 && &data[0..2] == b"\xFF\xD8" {
                 "JPEG"
-            } else if data.len() >= 6 && &data[0..6] == b"GIF89a" || &data[0..6] == b"GIF87a" {
+            } else if data.starts_with(b"GIF89a") || data.starts_with(b"GIF87a") {
                 "GIF"
             } else {
                 "PNG" // default
-- 
2.43.0


From 64341fa586a7298ecb641710b2488ffbd01578a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:50 +0000
Subject: [PATCH 038/108] fix: the size of an image of more than 450000 pixels
 overflowed

---
 src/generator/images.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 2cd3603..193fe88 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -117,8 +117,8 @@ impl Image {
             .ok_or_else(|| "Failed to detect image dimensions (unsupported format)".to_string())?;
             
         // Convert pixels to EMU (assuming 96 DPI): 1 pixel = 9525 EMU
-        let w_emu = w * 9525;
-        let h_emu = h * 9525;
+        let w_emu = w.saturating_mul(9525);
+        let h_emu = h.saturating_mul(9525);
         
         Ok(Image {
             filename,
-- 
2.43.0


From a668656510bf1fd29ae7ae8bf77581c1e60b70c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:51 +0000
Subject: [PATCH 039/108] fix: a top-down BMP was read as four billion pixels
 high

---
 src/generator/images.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index 193fe88..f87d000 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -745,7 +745,8 @@ fn read_image_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
     // BMP: "BM", width/height as little-endian u32 at offset 18/22
     if data.starts_with(b"BM") && data.len() >= 26 {
         let w = u32::from_le_bytes([data[18], data[19], data[20], data[21]]);
-        let h = u32::from_le_bytes([data[22], data[23], data[24], data[25]]);
+        // A negative height means that the rows are stored top down
+        let h = i32::from_le_bytes([data[22], data[23], data[24], data[25]]).unsigned_abs();
         return Some((w, h, "BMP".into()));
     }
     // WebP: "RIFF....WEBP", VP8 chunk has dimensions
-- 
2.43.0


From 776c8e25ae8d3c2a01d8a2e3623dd49c7b335c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:52 +0000
Subject: [PATCH 040/108] fix: the size of a JPEG with fill bytes between its
 segments was not found

---
 src/generator/images.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index f87d000..e261fc1 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -781,6 +781,11 @@ fn read_jpeg_dimensions(data: &[u8]) -> Option<(u32, u32, String)> {
             continue;
         }
         let marker = data[i + 1];
+        if marker == 0xFF {
+            // Fill byte before a marker
+            i += 1;
+            continue;
+        }
         i += 2;
         // SOF0 (0xC0) or SOF2 (0xC2): height at +3, width at +5 (big-endian u16)
         if (marker == 0xC0 || marker == 0xC2) && i + 7 < data.len() {
-- 
2.43.0


From 71165bbe96e682935af839d859c4f139844164fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:53 +0000
Subject: [PATCH 041/108] fix: truncated base64 image data was decoded to
 made-up bytes

---
 src/generator/images.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/generator/images.rs b/src/generator/images.rs
index e261fc1..bc8f688 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -334,7 +334,13 @@ fn base64_decode(input: &str) -> Result<Vec<u8>, std::io::Error> {
     
     let input = input.trim().replace(['\n', '\r', ' '], "");
     let mut output = Vec::with_capacity(input.len() * 3 / 4);
-    let bytes: Vec<u8> = input.bytes().collect();
+    let bytes: Vec<u8> = input.trim_end_matches('=').bytes().collect();
+    if bytes.len() % 4 == 1 || input.len() - bytes.len() > 2 {
+        return Err(std::io::Error::new(
+            std::io::ErrorKind::InvalidData,
+            "Incomplete base64 data",
+        ));
+    }
     
     let mut i = 0;
     while i < bytes.len() {
@@ -342,7 +348,7 @@ fn base64_decode(input: &str) -> Result<Vec<u8>, std::io::Error> {
         let mut pad = 0;
         
         for j in 0..4 {
-            if i + j >= bytes.len() || bytes[i + j] == b'=' {
+            if i + j >= bytes.len() {
                 buf[j] = 0;
                 pad += 1;
             } else if bytes[i + j] < 128 && DECODE_TABLE[bytes[i + j] as usize] >= 0 {
-- 
2.43.0


From eeeaa64efaf8b6a1e4481385534e6cf2cdd12370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:55 +0000
Subject: [PATCH 042/108] fix: number the values of a chart series

Every value was written as point 0, so that a chart showed one value per series.
---
 src/generator/charts/xml.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 6fe9bd1..2bb420f 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -141,13 +141,13 @@ fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &
         idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
     );
 
-    for value in values {
+    for (i, value) in values.iter().enumerate() {
         xml.push_str(&format!(
             r#"
-<c:pt idx="0">
+<c:pt idx="{}">
 <c:v>{}</c:v>
 </c:pt>"#,
-            value
+            i, value
         ));
     }
 
-- 
2.43.0


From 8923f81d4ca53821a0e51bbea6bfc655f5f96d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:56 +0000
Subject: [PATCH 043/108] fix: write the direction and grouping of bar and line
 charts

Every bar chart was written as horizontal and clustered, and line charts with a grouping that does not exist.
---
 src/generator/charts/xml.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 2bb420f..f93c9b1 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -230,9 +230,13 @@ fn generate_value_axis(ax_pos: &str) -> String {
 fn generate_bar_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:barChart>
-<c:barDir val="bar"/>
-<c:grouping val="clustered"/>"#);
+    xml.push_str(&format!(
+        r#"<c:barChart>
+<c:barDir val="{}"/>
+<c:grouping val="{}"/>"#,
+        chart.chart_type.bar_direction().unwrap_or("col"),
+        chart.chart_type.grouping().unwrap_or("clustered")
+    ));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
@@ -250,8 +254,11 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
 fn generate_line_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
-    xml.push_str(r#"<c:lineChart>
-<c:grouping val="lineMarkers"/>"#);
+    xml.push_str(&format!(
+        r#"<c:lineChart>
+<c:grouping val="{}"/>"#,
+        chart.chart_type.grouping().unwrap_or("standard")
+    ));
 
     for (idx, series) in chart.series.iter().enumerate() {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
-- 
2.43.0


From c788e382b72f4cd64351276962443d5135c5c9ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:57 +0000
Subject: [PATCH 044/108] fix: give every chart series its own cells

The ranges of the series overlapped in column B and were one row too long.
---
 src/generator/charts/xml.rs | 39 +++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index f93c9b1..3d17154 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -109,6 +109,18 @@ fn chart_part_footer() -> &'static str {
 </c:chartSpace>"#
 }
 
+/// Letters of a worksheet column (0 is A)
+fn column_letters(mut idx: usize) -> String {
+    let mut letters = String::new();
+    loop {
+        letters.insert(0, (b'A' + (idx % 26) as u8) as char);
+        if idx < 26 {
+            return letters;
+        }
+        idx = idx / 26 - 1;
+    }
+}
+
 /// Generate series data XML
 fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
     let mut xml = format!(
@@ -135,10 +147,11 @@ fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &
 </c:dLbls>
 <c:val>
 <c:numRef>
-<c:f>Sheet1!$B${}:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name), 2 + idx, 2 + idx + values.len()
+        idx, idx, escape_xml(series_name),
+        column_letters(1 + idx), column_letters(1 + idx), 1 + values.len()
     );
 
     for (i, value) in values.iter().enumerate() {
@@ -477,6 +490,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:scatterStyle val="{}"/>"#, scatter_style));
 
     for (idx, series) in chart.series.iter().enumerate() {
+        let column = column_letters(1 + idx);
         xml.push_str(&format!(
             r#"
 <c:ser>
@@ -484,7 +498,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:order val="{}"/>
 <c:tx>
 <c:strRef>
-<c:f>Sheet1!$B$1</c:f>
+<c:f>Sheet1!${}$1</c:f>
 <c:strCache>
 <c:ptCount val="1"/>
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
@@ -496,7 +510,7 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+            idx, idx, column, escape_xml(&series.name), 1 + series.values.len()
         ));
 
         // X values (use index as X)
@@ -517,10 +531,10 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+            column, column, 1 + series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -559,6 +573,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:bubbleScale val="100"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
+        let column = column_letters(1 + 2 * idx);
         xml.push_str(&format!(
             r#"
 <c:ser>
@@ -566,7 +581,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:order val="{}"/>
 <c:tx>
 <c:strRef>
-<c:f>Sheet1!$B$1</c:f>
+<c:f>Sheet1!${}$1</c:f>
 <c:strCache>
 <c:ptCount val="1"/>
 <c:pt idx="0"><c:v>{}</c:v></c:pt>
@@ -578,7 +593,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            idx, idx, escape_xml(&series.name), 1 + series.values.len()
+            idx, idx, column, escape_xml(&series.name), 1 + series.values.len()
         ));
 
         for (i, _) in series.values.iter().enumerate() {
@@ -598,10 +613,10 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:xVal>
 <c:yVal>
 <c:numRef>
-<c:f>Sheet1!$B$2:$B${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+            column, column, 1 + series.values.len()
         ));
 
         for (i, value) in series.values.iter().enumerate() {
@@ -621,10 +636,10 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
 </c:yVal>
 <c:bubbleSize>
 <c:numRef>
-<c:f>Sheet1!$C$2:$C${}</c:f>
+<c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-            1 + series.values.len()
+            column_letters(2 + 2 * idx), column_letters(2 + 2 * idx), 1 + series.values.len()
         ));
 
         // Bubble sizes (use values as sizes)
-- 
2.43.0


From bb8e493d50c6038e348bc1e7d690bbd9c7da8a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:29 +0000
Subject: [PATCH 045/108] fix: a run with u="none" was read as underlined

---
 src/oxml/slide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index b139c0c..abe4b0f 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -277,7 +277,7 @@ impl SlideParser {
                         .attr("i")
                         .map(|v| v == "1" || v == "true")
                         .unwrap_or(false);
-                    run.underline = rpr.attr("u").is_some();
+                    run.underline = rpr.attr("u").is_some_and(|v| v != "none");
                     run.font_size = rpr.attr("sz").and_then(|v| v.parse().ok());
 
                     // Get color from solidFill/srgbClr
-- 
2.43.0


From bd59895fef376200f17c02aaabc23e47ceac7449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:30 +0000
Subject: [PATCH 046/108] fix: read all runs and paragraphs of a table cell

Only the first run of a cell was read.
---
 src/oxml/slide.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index abe4b0f..4316a7a 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -347,8 +347,14 @@ impl SlideParser {
             let mut row = Vec::new();
             for tc in tr.find_all("tc") {
                 let text = tc
-                    .find_descendant("t")
-                    .map(|t| t.text_content())
+                    .find("txBody")
+                    .map(|body| {
+                        Self::parse_text_body(body)
+                            .iter()
+                            .map(|p| p.text())
+                            .collect::<Vec<_>>()
+                            .join("\n")
+                    })
                     .unwrap_or_default();
 
                 let row_span = tc.attr("rowSpan").and_then(|v| v.parse().ok()).unwrap_or(1);
-- 
2.43.0


From b0005298410f105ce90484ead58e3c62b6efacc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:31 +0000
Subject: [PATCH 047/108] fix: a subtitle was read as the title of its slide

The name of a subtitle placeholder ("Subtitle 2") contains "title".
---
 src/oxml/slide.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index 4316a7a..17b52b0 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -306,6 +306,9 @@ impl SlideParser {
                 if ph_type == "title" || ph_type == "ctrTitle" {
                     return true;
                 }
+                if ph_type == "subTitle" {
+                    return false;
+                }
             }
         // Also check shape name for textbox-based titles
         if let Some(cnv_pr) = sp.find_descendant("cNvPr")
-- 
2.43.0


From f59aa694de2cb1f0e728de4881de5c1dc4beda4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:39 +0000
Subject: [PATCH 048/108] fix: formatting markers without a partner lost their
 characters

A single * or _ or ` in a bullet formats nothing and belongs to the text.
---
 src/generator/slide/formatting.rs | 78 ++++++++++++++++++++-----------
 1 file changed, 52 insertions(+), 26 deletions(-)

diff --git a/src/generator/slide/formatting.rs b/src/generator/slide/formatting.rs
index 95255a3..0ab7b9d 100644
--- a/src/generator/slide/formatting.rs
+++ b/src/generator/slide/formatting.rs
@@ -19,13 +19,15 @@ pub fn parse_inline_formatting(text: &str) -> Vec<TextSegment> {
     let mut segments = Vec::new();
     let mut current_text = String::new();
     let mut chars = text.chars().peekable();
-    let mut bold = false;
-    let mut italic = false;
+    // Open markers: **, __, *, _
+    let mut open = [false; 4];
     let mut code = false;
     
     while let Some(c) = chars.next() {
+        let bold = open[0] || open[1];
+        let italic = open[2] || open[3];
         match c {
-            '`' if !code => {
+            '`' if !code && has_closing(chars.clone(), c, false) => {
                 if !current_text.is_empty() {
                     segments.push(TextSegment {
                         text: current_text.clone(),
@@ -48,30 +50,29 @@ pub fn parse_inline_formatting(text: &str) -> Vec<TextSegment> {
                 code = false;
             }
             '*' | '_' if !code => {
-                if chars.peek() == Some(&c) {
+                let double = chars.peek() == Some(&c);
+                if double {
                     chars.next();
-                    if !current_text.is_empty() {
-                        segments.push(TextSegment {
-                            text: current_text.clone(),
-                            bold,
-                            italic,
-                            code: false,
-                        });
-                        current_text.clear();
-                    }
-                    bold = !bold;
-                } else {
-                    if !current_text.is_empty() {
-                        segments.push(TextSegment {
-                            text: current_text.clone(),
-                            bold,
-                            italic,
-                            code: false,
-                        });
-                        current_text.clear();
+                }
+                let kind = if double { 0 } else { 2 } + if c == '_' { 1 } else { 0 };
+                if !open[kind] && !has_closing(chars.clone(), c, double) {
+                    // Nothing to format: ordinary text
+                    current_text.push(c);
+                    if double {
+                        current_text.push(c);
                     }
-                    italic = !italic;
+                    continue;
                 }
+                if !current_text.is_empty() {
+                    segments.push(TextSegment {
+                        text: current_text.clone(),
+                        bold,
+                        italic,
+                        code: false,
+                    });
+                    current_text.clear();
+                }
+                open[kind] = !open[kind];
             }
             _ => {
                 current_text.push(c);
@@ -82,8 +83,8 @@ pub fn parse_inline_formatting(text: &str) -> Vec<TextSegment> {
     if !current_text.is_empty() {
         segments.push(TextSegment {
             text: current_text,
-            bold,
-            italic,
+            bold: open[0] || open[1],
+            italic: open[2] || open[3],
             code,
         });
     }
@@ -100,6 +101,31 @@ pub fn parse_inline_formatting(text: &str) -> Vec<TextSegment> {
     segments
 }
 
+/// Whether the marker that was just read is closed by the same marker later in the text
+fn has_closing(mut rest: std::iter::Peekable<std::str::Chars>, marker: char, double: bool) -> bool {
+    while let Some(c) = rest.next() {
+        if c == '`' {
+            if marker == '`' {
+                return true;
+            }
+            // Markers inside code are text
+            let mut after = rest.clone();
+            if after.any(|x| x == '`') {
+                rest = after;
+            }
+        } else if c == '*' || c == '_' {
+            let pair = rest.peek() == Some(&c);
+            if pair {
+                rest.next();
+            }
+            if c == marker && pair == double {
+                return true;
+            }
+        }
+    }
+    false
+}
+
 /// Generate XML runs for rich text with inline formatting
 pub fn generate_rich_text_runs(
     text: &str,
-- 
2.43.0


From d2cc0c56fcb5de43db4f2b5b4d05e4ad69dfc19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 049/108] fix: the fill of an inline code run comes before its
 font

---
 src/generator/slide/formatting.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide/formatting.rs b/src/generator/slide/formatting.rs
index 0ab7b9d..2750684 100644
--- a/src/generator/slide/formatting.rs
+++ b/src/generator/slide/formatting.rs
@@ -145,7 +145,7 @@ pub fn generate_rich_text_runs(
         
         if segment.code {
             xml.push_str(&format!(
-                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill></a:rPr><a:t>{}</a:t></a:r>"#,
+                r#"<a:r><a:rPr lang="en-US" sz="{}" dirty="0"><a:solidFill><a:srgbClr val="C7254E"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr><a:t>{}</a:t></a:r>"#,
                 size, escaped_text
             ));
         } else {
-- 
2.43.0


From 8f1bdaa7e55614d2c35d384940373e5d6ca3d93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:40 +0000
Subject: [PATCH 050/108] fix: section bounds beyond the largest number
 overflowed

---
 src/generator/slide_content/sections.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index 0acbb0e..f2bd752 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -26,13 +26,13 @@ impl SlideSection {
         if self.slide_count == 0 {
             self.first_slide
         } else {
-            self.first_slide + self.slide_count - 1
+            self.first_slide.saturating_add(self.slide_count - 1)
         }
     }
 
     /// Check if a slide index belongs to this section
     pub fn contains_slide(&self, slide_index: usize) -> bool {
-        slide_index >= self.first_slide && slide_index < self.first_slide + self.slide_count
+        slide_index >= self.first_slide && slide_index - self.first_slide < self.slide_count
     }
 }
 
@@ -132,11 +132,9 @@ impl SectionManager {
                 generate_section_id(&section.name),
             ));
             xml.push_str("<p14:sldIdLst>");
-            for i in 0..section.slide_count {
-                let slide_id = 256 + section.first_slide + i;
-                if section.first_slide + i < total_slides {
-                    xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, slide_id));
-                }
+            let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
+            for i in section.first_slide..end {
+                xml.push_str(&format!(r#"<p14:sldId id="{}"/>"#, 256 + i));
             }
             xml.push_str("</p14:sldIdLst>");
             xml.push_str("</p14:section>");
@@ -152,7 +150,7 @@ fn sections_overlap(a: &SlideSection, b: &SlideSection) -> bool {
     if a.slide_count == 0 || b.slide_count == 0 {
         return false;
     }
-    a.first_slide < b.first_slide + b.slide_count && b.first_slide < a.first_slide + a.slide_count
+    a.first_slide <= b.last_slide() && b.first_slide <= a.last_slide()
 }
 
 /// Generate a deterministic GUID-like ID from a section name
-- 
2.43.0


From b1cdd57a551d84ffd583fc33c1595c090dfc3586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:41 +0000
Subject: [PATCH 051/108] fix: sections of the same name were written with the
 same id

---
 src/generator/slide_content/sections.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/generator/slide_content/sections.rs b/src/generator/slide_content/sections.rs
index f2bd752..2678ee1 100644
--- a/src/generator/slide_content/sections.rs
+++ b/src/generator/slide_content/sections.rs
@@ -125,11 +125,17 @@ impl SectionManager {
             r#"<p:extLst><p:ext uri="{521415D9-36F7-43E2-AB2F-B90AF26B5E84}"><p14:sectionLst xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main">"#,
         );
 
-        for section in &self.sections {
+        for (i, section) in self.sections.iter().enumerate() {
+            // Sections may share a name, but not an id
+            let id = if self.sections[..i].iter().any(|s| s.name == section.name) {
+                generate_section_id(&format!("{}\0{}", section.name, i))
+            } else {
+                generate_section_id(&section.name)
+            };
             xml.push_str(&format!(
                 r#"<p14:section name="{}" id="{{{}}}">"#,
                 xml_escape(&section.name),
-                generate_section_id(&section.name),
+                id,
             ));
             xml.push_str("<p14:sldIdLst>");
             let end = section.first_slide.saturating_add(section.slide_count).min(total_slides);
-- 
2.43.0


From 6a407ce221b71d3435f359fc5284fd76ee699755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:42 +0000
Subject: [PATCH 052/108] fix: a comment could get the index of another one on
 its slide

---
 src/generator/slide_content/comments.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/comments.rs b/src/generator/slide_content/comments.rs
index 7eef008..5dd86a2 100644
--- a/src/generator/slide_content/comments.rs
+++ b/src/generator/slide_content/comments.rs
@@ -178,7 +178,7 @@ impl SlideComments {
 
     /// Add a comment with auto-incrementing index
     pub fn add_comment(&mut self, author_id: u32, text: &str, x: u32, y: u32) {
-        let idx = self.comments.len() as u32 + 1;
+        let idx = self.comments.iter().map(|c| c.index).max().unwrap_or(0).saturating_add(1);
         self.comments.push(
             Comment::new(author_id, text)
                 .position(x, y)
-- 
2.43.0


From 4a6778edb7164fcb3cf220cb8fa56f936bac17a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:51 +0000
Subject: [PATCH 053/108] fix: the colour of the outline of a run was read as
 the colour of its text

---
 src/oxml/slide.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/oxml/slide.rs b/src/oxml/slide.rs
index 17b52b0..9115498 100644
--- a/src/oxml/slide.rs
+++ b/src/oxml/slide.rs
@@ -281,7 +281,7 @@ impl SlideParser {
                     run.font_size = rpr.attr("sz").and_then(|v| v.parse().ok());
 
                     // Get color from solidFill/srgbClr
-                    if let Some(solid_fill) = rpr.find_descendant("solidFill")
+                    if let Some(solid_fill) = rpr.find("solidFill")
                         && let Some(srgb) = solid_fill.find("srgbClr") {
                             run.color = srgb.attr("val").map(|s| s.to_string());
                         }
-- 
2.43.0


From c1b5ccfc51fb7c6d246af56ed718698708cdfd28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:58:01 +0000
Subject: [PATCH 054/108] fix: slides were read in the order of their
 relationship ids, not of the slide list

---
 src/oxml/presentation.rs | 106 +++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 43 deletions(-)

diff --git a/src/oxml/presentation.rs b/src/oxml/presentation.rs
index 26a784d..23165bd 100644
--- a/src/oxml/presentation.rs
+++ b/src/oxml/presentation.rs
@@ -152,55 +152,75 @@ impl PresentationReader {
     }
 
     fn parse_presentation_xml(&mut self) -> Result<(), PptxError> {
-        // First, find slide references from presentation.xml.rels
-        if let Some(rels_xml) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_xml);
-            if let Ok(root) = XmlParser::parse_str(&xml_str) {
-                let mut slide_rels: Vec<(String, String)> = Vec::new();
-
-                for rel in root.find_all("Relationship") {
-                    let rel_type = rel.attr("Type").unwrap_or("");
-                    if rel_type.contains("/slide")
-                        && !rel_type.contains("Layout")
-                        && !rel_type.contains("Master")
-                        && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target")) {
-                            let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                                stripped.to_string()
-                            } else {
-                                format!("ppt/{target}")
-                            };
-                            slide_rels.push((id.to_string(), full_path));
-                        }
-                }
-
-                // Sort by relationship ID to maintain slide order
-                slide_rels.sort_by(|a, b| {
-                    let num_a: u32 = a.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    let num_b: u32 = b.0.trim_start_matches("rId").parse().unwrap_or(0);
-                    num_a.cmp(&num_b)
-                });
-
-                self.slide_paths = slide_rels.into_iter().map(|(_, path)| path).collect();
+        self.slide_paths = slide_part_paths(&self.package);
+        self.info.slide_count = self.slide_paths.len();
+        Ok(())
+    }
+}
+
+/// Paths of the slide parts in presentation order.
+pub(crate) fn slide_part_paths(package: &Package) -> Vec<String> {
+    let parse = |path: &str| {
+        let xml = package.get_part(path)?;
+        XmlParser::parse_str(&String::from_utf8_lossy(xml)).ok()
+    };
+
+    // First, find slide references from presentation.xml.rels
+    let mut slide_rels: Vec<(String, String)> = Vec::new();
+    if let Some(root) = parse("ppt/_rels/presentation.xml.rels") {
+        for rel in root.find_all("Relationship") {
+            let rel_type = rel.attr("Type").unwrap_or("");
+            if rel_type.contains("/slide")
+                && !rel_type.contains("Layout")
+                && !rel_type.contains("Master")
+                && let (Some(id), Some(target)) = (rel.attr("Id"), rel.attr("Target"))
+            {
+                let full_path = if let Some(stripped) = target.strip_prefix('/') {
+                    stripped.to_string()
+                } else {
+                    format!("ppt/{target}")
+                };
+                slide_rels.push((id.to_string(), full_path));
             }
         }
+    }
 
-        // Fallback: scan for slide files
-        if self.slide_paths.is_empty() {
-            let paths = self.package.part_paths();
-            let mut slides: Vec<String> = paths
-                .into_iter()
-                .filter(|p| {
-                    p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-                })
-                .map(|s| s.to_string())
-                .collect();
-            slides.sort();
-            self.slide_paths = slides;
+    // The slide list of presentation.xml gives the order
+    if let Some(list) = parse("ppt/presentation.xml")
+        .as_ref()
+        .and_then(|root| root.find("sldIdLst"))
+    {
+        let listed: Vec<String> = list
+            .find_all("sldId")
+            .into_iter()
+            .filter_map(|slide| {
+                let (_, id) = slide.attributes.iter().find(|(name, _)| name.ends_with(":id"))?;
+                let (_, path) = slide_rels.iter().find(|(rel_id, _)| rel_id == id)?;
+                Some(path.clone())
+            })
+            .collect();
+        if !listed.is_empty() {
+            return listed;
         }
+    }
 
-        self.info.slide_count = self.slide_paths.len();
-        Ok(())
+    if !slide_rels.is_empty() {
+        // Without a list: sort by relationship ID
+        slide_rels.sort_by_key(|(id, _)| id.trim_start_matches("rId").parse().unwrap_or(0u32));
+        return slide_rels.into_iter().map(|(_, path)| path).collect();
     }
+
+    // Fallback: scan for slide files
+    let mut slides: Vec<String> = package
+        .part_paths()
+        .into_iter()
+        .filter(|p| {
+            p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
+        })
+        .map(|s| s.to_string())
+        .collect();
+    slides.sort();
+    slides
 }
 
 #[cfg(test)]
-- 
2.43.0


From 62a05db6e6f2b85eac75b091e8e510cef03d0e0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:31 +0000
Subject: [PATCH 055/108] fix: editing a presentation lost content types,
 relationships, notes and settings

---
 src/oxml/editor.rs | 673 ++++++++++++++++++++-------------------------
 1 file changed, 303 insertions(+), 370 deletions(-)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 105d7c5..5665b21 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -6,53 +6,62 @@
 //! - Remove slides
 //! - Modify presentation properties
 
+use super::presentation::slide_part_paths;
 use super::slide::{ParsedSlide, SlideParser};
+use super::xmlchemy::XmlParser;
 use crate::exc::{messages, PptxError};
+use crate::generator::create_pptx_with_content;
 use crate::generator::slide_content::SlideContent;
-use crate::generator::package_xml::{
-    create_presentation_rels_xml_full, slide_id_value, slide_rel_id,
-};
+use crate::generator::package_xml::slide_id_value;
 use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
 use crate::opc::Package;
 
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const PRESENTATION: &str = "ppt/presentation.xml";
+const PRESENTATION_RELS: &str = "ppt/_rels/presentation.xml.rels";
+const SLIDE_REL_TYPE: &str =
+    "http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide";
+const SLIDE_CONTENT_TYPE: &str =
+    "application/vnd.openxmlformats-officedocument.presentationml.slide+xml";
+
 /// Presentation editor for modifying PPTX files
 pub struct PresentationEditor {
     package: Package,
-    slide_count: usize,
+    /// Paths of the slide parts in presentation order
+    slides: Vec<String>,
 }
 
 impl PresentationEditor {
     /// Open a PPTX file for editing
     pub fn open(path: &str) -> Result<Self, PptxError> {
         let package = Package::open(path)?;
-        let slide_count = Self::count_slides(&package);
+        let slides = slide_part_paths(&package);
 
-        Ok(PresentationEditor {
-            package,
-            slide_count,
-        })
+        Ok(PresentationEditor { package, slides })
     }
 
     /// Create a new presentation for editing
     pub fn new() -> Self {
-        PresentationEditor {
-            package: Package::new(),
-            slide_count: 0,
-        }
+        let package = create_pptx_with_content("Presentation", Vec::new())
+            .ok()
+            .and_then(|data| Package::open_reader(std::io::Cursor::new(data)).ok())
+            .unwrap_or_default();
+        let slides = slide_part_paths(&package);
+
+        PresentationEditor { package, slides }
     }
 
     /// Get number of slides
     pub fn slide_count(&self) -> usize {
-        self.slide_count
+        self.slides.len()
     }
 
     /// Get a parsed slide by index (0-based)
     pub fn get_slide(&self, index: usize) -> Result<ParsedSlide, PptxError> {
-        let slide_num = index + 1;
-        let path = format!("ppt/slides/slide{slide_num}.xml");
         let xml = self
-            .package
-            .get_part(&path)
+            .slides
+            .get(index)
+            .and_then(|path| self.package.get_part(path))
             .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?;
 
         let xml_str = String::from_utf8_lossy(xml);
@@ -61,160 +70,74 @@ impl PresentationEditor {
 
     /// Add a new slide at the end
     pub fn add_slide(&mut self, content: SlideContent) -> Result<usize, PptxError> {
-        let new_index = self.slide_count + 1;
-
-        // Generate slide XML
-        let slide_xml = create_slide_xml_with_content(new_index, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
-        // Add slide file
-        let slide_path = format!("ppt/slides/slide{new_index}.xml");
-        self.package.add_part(slide_path, slide_xml.into_bytes());
-
-        // Add slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{new_index}.xml.rels");
-        self.package
-            .add_part(rels_path, slide_rels_xml.into_bytes());
-
-        // Update presentation.xml to include new slide
-        self.update_presentation_xml(new_index)?;
-
-        // Update presentation.xml.rels
-        self.update_presentation_rels(new_index)?;
-
-        // Update [Content_Types].xml
-        self.update_content_types(new_index)?;
-
-        self.slide_count = new_index;
-        Ok(new_index - 1) // Return 0-based index
+        self.insert_slide(self.slides.len(), content)
     }
 
     /// Update slide content at index
     pub fn update_slide(&mut self, index: usize, content: SlideContent) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-        let slide_xml = create_slide_xml_with_content(slide_num, &content, &[], None);
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
+        let path = self.slide_path(index)?;
+        let slide_xml = create_slide_xml_with_content(index + 1, &content, &[], None);
 
-        self.package.add_part(slide_path, slide_xml.into_bytes());
+        self.package.add_part(path, slide_xml.into_bytes());
         Ok(())
     }
 
     /// Remove a slide by index
     pub fn remove_slide(&mut self, index: usize) -> Result<(), PptxError> {
-        if index >= self.slide_count {
-            return Err(PptxError::NotFound(messages::slide_not_found(index)));
-        }
-
-        let slide_num = index + 1;
-
-        // Remove slide file
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        self.package.remove_part(&slide_path);
-
-        // Remove slide relationships
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-        self.package.remove_part(&rels_path);
+        let path = self.slide_path(index)?;
+        self.check_structure()?;
 
-        // Renumber remaining slides
-        for i in (slide_num + 1)..=self.slide_count {
-            self.renumber_slide(i, i - 1)?;
-        }
-
-        self.slide_count -= 1;
-
-        // Update presentation files
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.slides.remove(index);
+        self.rebuild_slide_list();
+        self.remove_part(&path);
 
         Ok(())
     }
 
     /// Duplicate an existing slide, inserting the copy immediately after the original.
     pub fn duplicate_slide(&mut self, index: usize) -> Result<usize, PptxError> {
-        if index >= self.slide_count {
+        let path = self.slide_path(index)?;
+        self.check_structure()?;
+        if !self.package.has_part(&path) {
             return Err(PptxError::NotFound(messages::slide_not_found(index)));
         }
 
-        let slide_num = index + 1;
-        let new_index = index + 1;
-        let new_num = new_index + 1;
-
-        // Copy original slide content and relationships.
-        let slide_path = format!("ppt/slides/slide{slide_num}.xml");
-        let rels_path = format!("ppt/slides/_rels/slide{slide_num}.xml.rels");
-
-        let slide_data = self
-            .package
-            .get_part(&slide_path)
-            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))?
-            .to_vec();
-        let rels_data = self
-            .package
-            .get_part(&rels_path)
-            .unwrap_or_default()
-            .to_vec();
-
-        // Shift slides after the original to make room for the duplicate.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
-        }
-
-        // Insert duplicate at the newly vacated position.
-        self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_data);
-        self.package
-            .add_part(format!("ppt/slides/_rels/slide{new_num}.xml.rels"), rels_data);
+        let new_path = self.copy_part(&path, None);
+        self.slides.insert(index + 1, new_path);
+        self.rebuild_slide_list();
 
-        self.slide_count += 1;
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
-
-        Ok(new_index)
+        Ok(index + 1)
     }
 
     /// Insert a new slide at the specified index.
     pub fn insert_slide(&mut self, index: usize, content: SlideContent) -> Result<usize, PptxError> {
-        if index > self.slide_count {
+        if index > self.slides.len() {
             return Err(PptxError::NotFound(messages::slide_not_found(index)));
         }
-
-        let new_num = index + 1;
-
-        // Shift slides at and after the insertion point upward.
-        for i in ((new_num + 1)..=(self.slide_count + 1)).rev() {
-            self.renumber_slide(i - 1, i)?;
+        self.check_structure()?;
+
+        // Generate the new slide and its relationships.
+        let path = self.free_path("ppt/slides/slide1.xml");
+        let slide_xml = create_slide_xml_with_content(index + 1, &content, &[], None);
+        let mut slide_rels_xml = create_slide_rels_xml();
+        if !self.package.has_part("ppt/slideLayouts/slideLayout2.xml") {
+            slide_rels_xml = slide_rels_xml.replace("slideLayout2.xml", "slideLayout1.xml");
         }
 
-        // Generate and insert the new slide.
-        let slide_xml = create_slide_xml_with_content(new_num, &content, &[], None);
-        let slide_rels_xml = create_slide_rels_xml();
-
         self.package
-            .add_part(format!("ppt/slides/slide{new_num}.xml"), slide_xml.into_bytes());
-        self.package.add_part(
-            format!("ppt/slides/_rels/slide{new_num}.xml.rels"),
-            slide_rels_xml.into_bytes(),
-        );
-
-        self.slide_count += 1;
+            .add_part(rels_path(&path), slide_rels_xml.into_bytes());
+        self.add_content_type(&path, SLIDE_CONTENT_TYPE);
+        self.package.add_part(path.clone(), slide_xml.into_bytes());
 
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        self.slides.insert(index, path);
+        self.rebuild_slide_list();
 
         Ok(index)
     }
 
     /// Reorder a slide from one position to another.
     pub fn reorder_slide(&mut self, from_index: usize, to_index: usize) -> Result<(), PptxError> {
-        if from_index >= self.slide_count || to_index >= self.slide_count {
+        if from_index >= self.slides.len() || to_index >= self.slides.len() {
             return Err(PptxError::NotFound(messages::slide_not_found(
                 from_index.max(to_index),
             )));
@@ -223,48 +146,11 @@ impl PresentationEditor {
         if from_index == to_index {
             return Ok(());
         }
+        self.check_structure()?;
 
-        let from_num = from_index + 1;
-        let to_num = to_index + 1;
-
-        // Extract the slide being moved.
-        let temp_slide_path = "ppt/slides/_temp_slide.xml".to_string();
-        let temp_rels_path = "ppt/slides/_rels/_temp_slide.xml.rels".to_string();
-
-        if let Some(data) = self.package.remove_part(&format!("ppt/slides/slide{from_num}.xml")) {
-            self.package.add_part(temp_slide_path.clone(), data);
-        }
-        if let Some(data) =
-            self.package.remove_part(&format!("ppt/slides/_rels/slide{from_num}.xml.rels"))
-        {
-            self.package.add_part(temp_rels_path.clone(), data);
-        }
-
-        if from_index < to_index {
-            // Shift intermediate slides left.
-            for i in from_num..to_num {
-                self.renumber_slide(i + 1, i)?;
-            }
-        } else {
-            // Shift intermediate slides right.
-            for i in (to_num..from_num).rev() {
-                self.renumber_slide(i, i + 1)?;
-            }
-        }
-
-        // Place the moved slide at the target position.
-        if let Some(data) = self.package.remove_part(&temp_slide_path) {
-            self.package
-                .add_part(format!("ppt/slides/slide{to_num}.xml"), data);
-        }
-        if let Some(data) = self.package.remove_part(&temp_rels_path) {
-            self.package
-                .add_part(format!("ppt/slides/_rels/slide{to_num}.xml.rels"), data);
-        }
-
-        self.rebuild_presentation_xml()?;
-        self.rebuild_presentation_rels()?;
-        self.rebuild_content_types()?;
+        let path = self.slides.remove(from_index);
+        self.slides.insert(to_index, path);
+        self.rebuild_slide_list();
 
         Ok(())
     }
@@ -287,236 +173,283 @@ impl PresentationEditor {
 
     // Helper methods
 
-    fn count_slides(package: &Package) -> usize {
-        package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
-            })
-            .count()
-    }
-
-    fn presentation_has_notes(xml: &str) -> bool {
-        xml.contains("<p:notesMasterIdLst>")
+    fn slide_path(&self, index: usize) -> Result<String, PptxError> {
+        self.slides
+            .get(index)
+            .cloned()
+            .ok_or_else(|| PptxError::NotFound(messages::slide_not_found(index)))
+    }
+
+    /// The parts that list the slides must be there to be updated.
+    fn check_structure(&self) -> Result<(), PptxError> {
+        for (path, end) in [
+            (CONTENT_TYPES, "</Types>"),
+            (PRESENTATION_RELS, "</Relationships>"),
+            (PRESENTATION, "</p:presentation>"),
+        ] {
+            if !self.part_string(path).contains(end) {
+                return Err(PptxError::InvalidState(messages::missing_part(path)));
+            }
+        }
+        Ok(())
     }
 
-    fn presentation_has_handout(xml: &str) -> bool {
-        xml.contains("<p:handoutMasterIdLst>")
+    fn part_string(&self, path: &str) -> String {
+        self.package.get_part_string(path).unwrap_or_default()
     }
 
-    fn update_presentation_xml(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("ppt/presentation.xml") {
-            // Parse and update the presentation XML
-            let updated = self.add_slide_to_presentation_xml(&xml, new_slide_count)?;
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), updated.into_bytes());
+    /// First unused path that differs from the given one in its number only.
+    fn free_path(&self, path: &str) -> String {
+        let (stem, extension) = path.rsplit_once('.').unwrap_or((path, ""));
+        let stem = stem.trim_end_matches(|c: char| c.is_ascii_digit());
+        let mut number = 1;
+        loop {
+            let candidate = format!("{stem}{number}.{extension}");
+            if !self.package.has_part(&candidate) {
+                return candidate;
+            }
+            number += 1;
         }
-        Ok(())
     }
 
-    fn add_slide_to_presentation_xml(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        // Find </p:sldIdLst> and insert new slide reference before it
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let slide_id = slide_id_value(slide_num);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-
-        let new_slide_ref = format!("\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>");
-
-        if let Some(pos) = xml.find("</p:sldIdLst>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_slide_ref);
-            Ok(result)
-        } else {
-            // If no sldIdLst, return as-is (shouldn't happen for valid PPTX)
-            Ok(xml.to_string())
-        }
+    fn content_type(&self, path: &str) -> Option<String> {
+        let xml = self.part_string(CONTENT_TYPES);
+        elements(&xml, "Override").into_iter().find_map(|(_, _, attributes)| {
+            let value = |name: &str| attributes.iter().find(|(n, _)| n == name).map(|(_, v)| v);
+            let part = value("PartName")?;
+            (part.strip_prefix('/') == Some(path)).then(|| value("ContentType").cloned())?
+        })
     }
 
-    fn update_presentation_rels(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self
-            .package
-            .get_part_string("ppt/_rels/presentation.xml.rels")
-        {
-            let updated = self.add_slide_to_presentation_rels(&xml, new_slide_count)?;
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                updated.into_bytes(),
+    fn add_content_type(&mut self, path: &str, content_type: &str) {
+        let mut xml = self.part_string(CONTENT_TYPES);
+        if let Some(pos) = xml.rfind("</Types>") {
+            xml.insert_str(
+                pos,
+                &format!("\n<Override PartName=\"/{path}\" ContentType=\"{content_type}\"/>"),
             );
         }
-        Ok(())
+        self.package.add_part(CONTENT_TYPES.to_string(), xml.into_bytes());
     }
 
-    fn add_slide_to_presentation_rels(
-        &self,
-        xml: &str,
-        slide_num: usize,
-    ) -> Result<String, PptxError> {
-        let has_notes = Self::presentation_has_notes(xml);
-        let has_handout = Self::presentation_has_handout(xml);
-        let r_id = slide_rel_id(slide_num, has_notes, has_handout);
-        let new_rel = format!(
-            "\n<Relationship Id=\"rId{r_id}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"slides/slide{slide_num}.xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Relationships>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_rel);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
+    fn remove_content_type(&mut self, path: &str) {
+        let mut xml = self.part_string(CONTENT_TYPES);
+        let part_name = format!("/{path}");
+        for (start, end, attributes) in elements(&xml, "Override").into_iter().rev() {
+            if attributes.iter().any(|(n, v)| n == "PartName" && *v == part_name) {
+                xml.replace_range(start..end, "");
+            }
         }
+        self.package.add_part(CONTENT_TYPES.to_string(), xml.into_bytes());
+    }
+
+    /// Type, target as written and path of the parts that a part refers to.
+    fn related_parts(&self, path: &str) -> Vec<(String, String, String)> {
+        elements(&self.part_string(&rels_path(path)), "Relationship")
+            .into_iter()
+            .filter_map(|(_, _, attributes)| {
+                let value = |name: &str| attributes.iter().find(|(n, _)| n == name).map(|(_, v)| v.clone());
+                if value("TargetMode").as_deref() == Some("External") {
+                    return None;
+                }
+                let target = value("Target")?;
+                let resolved = resolve_target(path, &target);
+                Some((value("Type")?, target, resolved))
+            })
+            .collect()
     }
 
-    fn update_content_types(&mut self, new_slide_count: usize) -> Result<(), PptxError> {
-        if let Some(xml) = self.package.get_part_string("[Content_Types].xml") {
-            let updated = self.add_slide_to_content_types(&xml, new_slide_count)?;
-            self.package
-                .add_part("[Content_Types].xml".to_string(), updated.into_bytes());
-        }
-        Ok(())
+    fn is_referenced(&self, path: &str) -> bool {
+        self.package.part_paths().into_iter().any(|other| {
+            !other.ends_with(".rels")
+                && self.related_parts(other).iter().any(|(_, _, target)| target == path)
+        })
     }
 
-    fn add_slide_to_content_types(&self, xml: &str, slide_num: usize) -> Result<String, PptxError> {
-        let new_override = format!(
-            "\n<Override PartName=\"/ppt/slides/slide{slide_num}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-        );
-
-        if let Some(pos) = xml.find("</Types>") {
-            let mut result = xml.to_string();
-            result.insert_str(pos, &new_override);
-            Ok(result)
-        } else {
-            Ok(xml.to_string())
+    /// Remove a part together with the parts that only it referred to.
+    fn remove_part(&mut self, path: &str) {
+        let related = self.related_parts(path);
+        self.package.remove_part(path);
+        self.package.remove_part(&rels_path(path));
+        self.remove_content_type(path);
+        for (_, _, target) in related {
+            if self.package.has_part(&target) && !self.is_referenced(&target) {
+                self.remove_part(&target);
+            }
         }
     }
 
-    fn renumber_slide(&mut self, old_num: usize, new_num: usize) -> Result<(), PptxError> {
-        // Move slide file
-        let old_path = format!("ppt/slides/slide{old_num}.xml");
-        let new_path = format!("ppt/slides/slide{new_num}.xml");
-
-        if let Some(content) = self.package.remove_part(&old_path) {
-            self.package.add_part(new_path, content);
+    /// Copy a part under a new number, with the notes and charts that belong to it.
+    /// References of the copy to `owner.0` lead to `owner.1`.
+    fn copy_part(&mut self, path: &str, owner: Option<(&str, &str)>) -> String {
+        let new_path = self.free_path(path);
+        let data = self.package.get_part(path).unwrap_or_default().to_vec();
+        self.package.add_part(new_path.clone(), data);
+        if let Some(content_type) = self.content_type(path) {
+            self.add_content_type(&new_path, &content_type);
         }
 
-        // Move slide rels
-        let old_rels = format!("ppt/slides/_rels/slide{old_num}.xml.rels");
-        let new_rels = format!("ppt/slides/_rels/slide{new_num}.xml.rels");
-
-        if let Some(content) = self.package.remove_part(&old_rels) {
-            self.package.add_part(new_rels, content);
+        if self.package.has_part(&rels_path(path)) {
+            let mut rels = self.part_string(&rels_path(path));
+            for (rel_type, target, related) in self.related_parts(path) {
+                let own = ["/notesSlide", "/chart", "/package"]
+                    .iter()
+                    .any(|end| rel_type.ends_with(end));
+                let copy = match owner {
+                    Some((from, to)) if related == from => to.to_string(),
+                    _ if own && self.package.has_part(&related) => {
+                        self.copy_part(&related, Some((path, &new_path)))
+                    }
+                    _ => continue,
+                };
+                let name = |p: &str| p.rsplit('/').next().unwrap_or(p).to_string();
+                let new_target = target.replace(&name(&related), &name(&copy));
+                rels = rels.replace(&format!("\"{target}\""), &format!("\"{new_target}\""));
+            }
+            self.package.add_part(rels_path(&new_path), rels.into_bytes());
         }
-
-        Ok(())
-    }
-
-    fn rebuild_presentation_xml(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let mut slide_refs = String::new();
-        for i in 1..=self.slide_count {
-            let slide_id = slide_id_value(i);
-            let r_id = slide_rel_id(i, has_notes, has_handout);
-            slide_refs.push_str(&format!(
-                "\n<p:sldId id=\"{slide_id}\" r:id=\"rId{r_id}\"/>"
-            ));
+        new_path
+    }
+
+    /// Write the slides into presentation.xml and its relationships, leaving the rest as it is.
+    fn rebuild_slide_list(&mut self) {
+        let mut rels = self.part_string(PRESENTATION_RELS);
+        let mut ids: Vec<String> = Vec::new();
+        let mut last_number = 0;
+        let mut slide_elements = Vec::new();
+        let mut insert_at = None;
+        for (start, end, attributes) in elements(&rels, "Relationship") {
+            let value = |name: &str| attributes.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str());
+            let id = value("Id").unwrap_or("").to_string();
+            if let Some(number) = id.strip_prefix("rId").and_then(|n| n.parse::<usize>().ok()) {
+                last_number = number.max(last_number);
+            }
+            if value("Type").is_some_and(|t| t.ends_with("/slide")) {
+                if slide_elements.is_empty() {
+                    insert_at = Some(start);
+                }
+                slide_elements.push((start, end));
+                ids.push(id);
+            } else if insert_at.is_none() {
+                insert_at = Some(end);
+            }
         }
-
-        let mut xml = String::from(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main" saveSubsetFonts="1" autoCompressPictures="0">
-<p:sldMasterIdLst>
-<p:sldMasterId id="2147483648" r:id="rId1"/>
-</p:sldMasterIdLst>"#,
-        );
-
-        if has_notes {
-            xml.push_str(
-                r#"
-<p:notesMasterIdLst>
-<p:notesMasterId id="2147483650" r:id="rId6"/>
-</p:notesMasterIdLst>"#,
-            );
+        ids.sort_by_key(|id| (id.len(), id.clone()));
+        while ids.len() < self.slides.len() {
+            last_number += 1;
+            ids.push(format!("rId{last_number}"));
         }
 
-        if has_handout {
-            let handout_rid = if has_notes { 7 } else { 6 };
-            xml.push_str(&format!(
-                r#"
-<p:handoutMasterIdLst>
-<p:handoutMasterId id="2147483651" r:id="rId{handout_rid}"/>
-</p:handoutMasterIdLst>"#
+        let mut relationships = String::new();
+        let mut references = String::new();
+        for (i, (id, path)) in ids.iter().zip(&self.slides).enumerate() {
+            let target = match path.strip_prefix("ppt/") {
+                Some(relative) => relative.to_string(),
+                None => format!("/{path}"),
+            };
+            relationships.push_str(&format!(
+                "\n<Relationship Id=\"{id}\" Type=\"{SLIDE_REL_TYPE}\" Target=\"{target}\"/>"
             ));
+            let slide_id = slide_id_value(i + 1);
+            references.push_str(&format!("\n<p:sldId id=\"{slide_id}\" r:id=\"{id}\"/>"));
         }
-
-        xml.push_str(&format!(
-            r#"
-<p:sldIdLst>{slide_refs}
-</p:sldIdLst>
-<p:sldSz cx="9144000" cy="6858000" type="screen4x3"/>
-<p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#
-        ));
-
-        self.package
-            .add_part("ppt/presentation.xml".to_string(), xml.into_bytes());
-        Ok(())
+        let insert_at = insert_at.or_else(|| rels.rfind("</Relationships>")).unwrap_or(0);
+        for (start, end) in slide_elements.into_iter().rev() {
+            rels.replace_range(start..end, "");
+        }
+        rels.insert_str(insert_at, &relationships);
+        self.package.add_part(PRESENTATION_RELS.to_string(), rels.into_bytes());
+
+        let mut xml = self.part_string(PRESENTATION);
+        let list = format!("<p:sldIdLst>{references}\n</p:sldIdLst>");
+        let after = |xml: &str, end: &str| xml.find(end).map(|pos| pos + end.len());
+        let range = match xml.find("<p:sldIdLst") {
+            Some(start) if xml[start..].starts_with("<p:sldIdLst/>") => {
+                Some((start, start + "<p:sldIdLst/>".len()))
+            }
+            Some(start) => after(&xml, "</p:sldIdLst>").map(|end| (start, end)),
+            None => ["</p:handoutMasterIdLst>", "</p:notesMasterIdLst>", "</p:sldMasterIdLst>"]
+                .iter()
+                .find_map(|end| after(&xml, end))
+                .map(|pos| (pos, pos)),
+        };
+        if let Some((start, end)) = range {
+            xml.replace_range(start..end, &list);
+        }
+        self.package.add_part(PRESENTATION.to_string(), xml.into_bytes());
     }
+}
 
-    fn rebuild_presentation_rels(&mut self) -> Result<(), PptxError> {
-        let existing = self
-            .package
-            .get_part_string("ppt/presentation.xml")
-            .unwrap_or_default();
-        let has_notes = Self::presentation_has_notes(&existing);
-        let has_handout = Self::presentation_has_handout(&existing);
-
-        let xml = create_presentation_rels_xml_full(self.slide_count, has_notes, has_handout);
-
-        self.package.add_part(
-            "ppt/_rels/presentation.xml.rels".to_string(),
-            xml.into_bytes(),
-        );
-        Ok(())
+/// Path of the relationships of a part.
+fn rels_path(path: &str) -> String {
+    match path.rsplit_once('/') {
+        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
+        None => format!("_rels/{path}.rels"),
     }
+}
 
-    fn rebuild_content_types(&mut self) -> Result<(), PptxError> {
-        let mut slide_overrides = String::new();
-        for i in 1..=self.slide_count {
-            slide_overrides.push_str(&format!(
-                "\n<Override PartName=\"/ppt/slides/slide{i}.xml\" ContentType=\"application/vnd.openxmlformats-officedocument.presentationml.slide+xml\"/>"
-            ));
+/// Path of the part that a relationship target of `path` leads to.
+fn resolve_target(path: &str, target: &str) -> String {
+    let mut segments: Vec<&str> = Vec::new();
+    if !target.starts_with('/') {
+        segments.extend(path.split('/'));
+        segments.pop();
+    }
+    for segment in target.split('/') {
+        match segment {
+            ".." => {
+                segments.pop();
+            }
+            "." | "" => {}
+            name => segments.push(name),
         }
+    }
+    segments.join("/")
+}
 
-        let xml = format!(
-            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
-<Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
-<Default Extension="xml" ContentType="application/xml"/>
-<Override PartName="/ppt/presentation.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"/>{slide_overrides}
-<Override PartName="/ppt/slideLayouts/slideLayout1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"/>
-<Override PartName="/ppt/slideMasters/slideMaster1.xml" ContentType="application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"/>
-<Override PartName="/ppt/theme/theme1.xml" ContentType="application/vnd.openxmlformats-officedocument.theme+xml"/>
-<Override PartName="/docProps/core.xml" ContentType="application/vnd.openxmlformats-package.core-properties+xml"/>
-<Override PartName="/docProps/app.xml" ContentType="application/vnd.openxmlformats-officedocument.extended-properties+xml"/>
-</Types>"#
-        );
-
-        self.package
-            .add_part("[Content_Types].xml".to_string(), xml.into_bytes());
-        Ok(())
+/// Start, end and attributes of the elements of the given name.
+#[allow(clippy::type_complexity)]
+fn elements(xml: &str, name: &str) -> Vec<(usize, usize, Vec<(String, String)>)> {
+    let open = format!("<{name}");
+    let mut found = Vec::new();
+    let mut from = 0;
+    while let Some(start) = xml[from..].find(&open).map(|pos| from + pos) {
+        from = start + open.len();
+        if !xml[from..].starts_with([' ', '\t', '\r', '\n', '/']) {
+            continue;
+        }
+        let mut quote = None;
+        let Some(tag_end) = xml[from..].char_indices().find_map(|(pos, c)| match (quote, c) {
+            (Some(q), _) => {
+                if q == c {
+                    quote = None;
+                }
+                None
+            }
+            (None, '"' | '\'') => {
+                quote = Some(c);
+                None
+            }
+            (None, '>') => Some(from + pos + 1),
+            _ => None,
+        }) else {
+            break;
+        };
+        let end = if xml[..tag_end].ends_with("/>") {
+            tag_end
+        } else {
+            let close = format!("</{name}>");
+            match xml[tag_end..].find(&close) {
+                Some(pos) => tag_end + pos + close.len(),
+                None => break,
+            }
+        };
+        if let Ok(element) = XmlParser::parse_str(&xml[start..end]) {
+            found.push((start, end, element.attributes.into_iter().collect()));
+        }
+        from = end;
     }
+    found
 }
 
 impl Default for PresentationEditor {
-- 
2.43.0


From 919bff27eb618d3388f677b3d709a7fb6dbd8ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:49 +0000
Subject: [PATCH 056/108] fix: compressing a presentation removed media in use,
 altered its text and left dangling references

---
 src/opc/compress.rs | 275 ++++++++++++++++++++++++--------------------
 src/opc/mod.rs      |   1 +
 src/opc/refs.rs     | 174 ++++++++++++++++++++++++++++
 src/oxml/editor.rs  |  74 +-----------
 4 files changed, 329 insertions(+), 195 deletions(-)
 create mode 100644 src/opc/refs.rs

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index bb01efb..4eb0f37 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -6,6 +6,7 @@
 //! - Remove document properties and revision history
 //! - Optimize XML (remove unnecessary whitespace)
 
+use super::refs::{references, remove_parts};
 use super::Package;
 use crate::exc::Result;
 use std::collections::HashSet;
@@ -204,19 +205,26 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     output_path: Q,
     options: &CompressionOptions,
 ) -> Result<CompressionResult> {
+    let data = std::fs::read(input_path.as_ref())?;
+    let (output, result) = compress_pptx_in_memory(&data, options)?;
+    std::fs::write(output_path.as_ref(), output)?;
+
+    Ok(result)
+}
+
+/// Compress a PPTX in memory
+pub fn compress_pptx_in_memory(
+    data: &[u8],
+    options: &CompressionOptions,
+) -> Result<(Vec<u8>, CompressionResult)> {
     // Load package
-    let mut package = Package::open(input_path.as_ref())?;
+    let mut package = Package::open_reader(std::io::Cursor::new(data))?;
 
-    let original_size = std::fs::metadata(input_path.as_ref())?.len() as usize;
+    let original_size = data.len();
 
     let mut unused_media_removed = 0;
     let images_compressed = 0;
 
-    // Remove unused media files
-    if options.remove_unused_media {
-        unused_media_removed = remove_unused_media(&mut package)?;
-    }
-
     // Remove properties if requested
     if options.remove_properties {
         remove_document_properties(&mut package);
@@ -224,7 +232,19 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
 
     // Remove notes if requested
     if options.remove_notes {
-        remove_notes_slides(&mut package)?;
+        remove_parts_where(&mut package, |path| path.starts_with("ppt/notesSlides/"));
+    }
+
+    // Remove comments if requested
+    if options.remove_comments {
+        remove_parts_where(&mut package, |path| {
+            path.starts_with("ppt/comments/") || path == "ppt/commentAuthors.xml"
+        });
+    }
+
+    // Remove unused media files
+    if options.remove_unused_media {
+        unused_media_removed = remove_unused_media(&mut package)?;
     }
 
     // Optimize XML
@@ -233,118 +253,73 @@ pub fn compress_pptx<P: AsRef<Path>, Q: AsRef<Path>>(
     }
 
     // Save compressed package
-    package.save(output_path.as_ref())?;
+    let mut output = std::io::Cursor::new(Vec::new());
+    package.save_writer(&mut output)?;
+    let output_data = output.into_inner();
 
-    let compressed_size = std::fs::metadata(output_path.as_ref())?.len() as usize;
+    let compressed_size = output_data.len();
     let reduction_percent = if original_size > 0 {
-        ((original_size - compressed_size) as f64 / original_size as f64) * 100.0
+        ((original_size as f64 - compressed_size as f64) / original_size as f64) * 100.0
     } else {
         0.0
     };
 
     let target_achieved = options.target_size == 0 || compressed_size <= options.target_size;
 
-    Ok(CompressionResult {
+    let result = CompressionResult {
         original_size,
         compressed_size,
         reduction_percent,
         unused_media_removed,
         images_compressed,
         target_achieved,
-    })
-}
-
-/// Compress a PPTX in memory
-pub fn compress_pptx_in_memory(
-    data: &[u8],
-    options: &CompressionOptions,
-) -> Result<(Vec<u8>, CompressionResult)> {
-    // Write to temp file
-    let temp_dir = std::env::temp_dir();
-    let temp_input = temp_dir.join("compress_input.pptx");
-    let temp_output = temp_dir.join("compress_output.pptx");
-
-    std::fs::write(&temp_input, data)?;
-
-    let result = compress_pptx(&temp_input, &temp_output, options)?;
-    let output_data = std::fs::read(&temp_output)?;
-
-    // Cleanup
-    let _ = std::fs::remove_file(&temp_input);
-    let _ = std::fs::remove_file(&temp_output);
+    };
 
     Ok((output_data, result))
 }
 
-/// Remove unused media files from package
+/// Remove media files that no relationship leads to
 fn remove_unused_media(package: &mut Package) -> Result<usize> {
-    let media_paths: Vec<String> = package
-        .part_paths()
-        .iter()
-        .filter(|p| p.starts_with("ppt/media/"))
-        .map(|s| s.to_string())
-        .collect();
-
     let mut referenced = HashSet::new();
-    let mut removed = 0;
-
-    // Find all media references in slide files
     for path in package.part_paths() {
-        if path.starts_with("ppt/slides/slide") && path.ends_with(".xml")
-            && let Some(content) = package.get_part_string(path) {
-                // Look for media references like rId5, image1.png, etc.
-                for media_path in &media_paths {
-                    let filename = Path::new(media_path)
-                        .file_name()
-                        .and_then(|n| n.to_str())
-                        .unwrap_or("");
-                    if content.contains(filename) || content.contains(&media_path[4..]) {
-                        referenced.insert(media_path.clone());
-                    }
-                }
+        if path.ends_with(".rels")
+            && let Some(xml) = package.get_part_string(path) {
+                referenced.extend(references(path, &xml).into_iter().filter_map(|r| r.part));
             }
     }
 
-    // Remove unreferenced media
-    for media_path in media_paths {
-        if !referenced.contains(&media_path) {
-            package.remove_part(&media_path);
-            removed += 1;
-        }
-    }
+    let unused: Vec<String> = package
+        .part_paths()
+        .into_iter()
+        .filter(|p| p.starts_with("ppt/media/") && !p.ends_with(".rels") && !referenced.contains(*p))
+        .map(|s| s.to_string())
+        .collect();
 
-    Ok(removed)
+    remove_parts(package, &unused);
+
+    Ok(unused.len())
 }
 
 /// Remove document properties
 fn remove_document_properties(package: &mut Package) {
-    // Remove core properties
-    package.remove_part("docProps/core.xml");
-    // Remove app properties
-    package.remove_part("docProps/app.xml");
-    // Remove custom properties
-    package.remove_part("docProps/custom.xml");
-    // Remove thumbnail
-    package.remove_part("docProps/thumbnail.jpeg");
+    let paths = [
+        "docProps/core.xml",
+        "docProps/app.xml",
+        "docProps/custom.xml",
+        "docProps/thumbnail.jpeg",
+    ];
+    remove_parts_where(package, |path| paths.contains(&path));
 }
 
-/// Remove notes slides
-fn remove_notes_slides(package: &mut Package) -> Result<()> {
-    let notes_paths: Vec<String> = package
+fn remove_parts_where(package: &mut Package, remove: impl Fn(&str) -> bool) {
+    let paths: Vec<String> = package
         .part_paths()
-        .iter()
-        .filter(|p| p.starts_with("ppt/notesSlides/"))
+        .into_iter()
+        .filter(|path| !path.ends_with(".rels") && remove(path))
         .map(|s| s.to_string())
         .collect();
 
-    for path in notes_paths {
-        package.remove_part(&path);
-        // Also remove relationships
-        let rels_path = path.replace("notesSlides/", "notesSlides/_rels/") + ".rels";
-        package.remove_part(&rels_path);
-    }
-
-    Ok(())
+    remove_parts(package, &paths);
 }
 
 /// Optimize XML content (minimize whitespace)
@@ -357,8 +332,9 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
         .collect();
 
     for path in xml_paths {
-        if let Some(content) = package.get_part_string(&path) {
-            let optimized = minimize_xml(&content);
+        if let Some(content) = package.get_part(&path)
+            && let Ok(content) = std::str::from_utf8(content) {
+            let optimized = minimize_xml(content);
             package.add_part(path, optimized.into_bytes());
         }
     }
@@ -366,52 +342,107 @@ fn optimize_xml_content(package: &mut Package) -> Result<()> {
     Ok(())
 }
 
-/// Minimize XML by removing unnecessary whitespace
+/// Minimize XML by removing the whitespace between the tags of elements that contain
+/// nothing but elements
 fn minimize_xml(xml: &str) -> String {
-    let mut result = String::with_capacity(xml.len());
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut prev_char = ' ';
-
-    for ch in xml.chars() {
-        match ch {
-            '"' if !in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '"' if in_tag => {
-                in_string = !in_string;
-                result.push(ch);
-            }
-            '<' if !in_string => {
-                in_tag = true;
-                // Remove whitespace before tag
-                if (prev_char == ' ' || prev_char == '\n' || prev_char == '\t')
-                    && !result.is_empty() {
-                        result.pop();
-                    }
-                result.push(ch);
+    if xml.contains("xml:space") || xml.contains("<!DOCTYPE") {
+        return xml.to_string();
+    }
+
+    /// What is known of an open element
+    #[derive(Default)]
+    struct Open {
+        /// Ranges of whitespace that can go if the element turns out to have no text
+        blanks: Vec<std::ops::Range<usize>>,
+        has_text: bool,
+        has_child: bool,
+    }
+
+    let mut open = vec![Open::default()];
+    let mut removed: Vec<std::ops::Range<usize>> = Vec::new();
+    let mut close = |element: Open| {
+        if element.has_child && !element.has_text {
+            removed.extend(element.blanks);
+        }
+    };
+
+    let mut pos = 0;
+    while pos < xml.len() {
+        let rest = &xml[pos..];
+        let find = |end: &str| rest.find(end).map(|found| found + end.len());
+        let element = open.last_mut();
+        if !rest.starts_with('<') {
+            let end = rest.find('<').unwrap_or(rest.len());
+            if let Some(element) = element {
+                if rest[..end].trim_matches([' ', '\t', '\r', '\n']).is_empty() {
+                    element.blanks.push(pos..pos + end);
+                } else {
+                    element.has_text = true;
+                }
             }
-            '>' if !in_string => {
-                in_tag = false;
-                result.push(ch);
+            pos += end;
+            continue;
+        }
+        let end = if rest.starts_with("<![CDATA[") {
+            if let Some(element) = element {
+                element.has_text = true;
             }
-            ' ' | '\n' | '\t' | '\r' if !in_tag && !in_string => {
-                // Skip whitespace between tags
-                if prev_char != ' ' {
-                    result.push(' ');
+            find("]]>")
+        } else if rest.starts_with("<!--") {
+            find("-->")
+        } else if rest.starts_with("<?") {
+            find("?>")
+        } else {
+            let end = tag_length(rest);
+            if rest.starts_with("</") {
+                match open.pop() {
+                    Some(element) if !open.is_empty() => close(element),
+                    _ => return xml.to_string(),
+                }
+            } else if let (Some(element), Some(end)) = (element, end) {
+                element.has_child = true;
+                if !rest[..end].ends_with("/>") {
+                    open.push(Open::default());
                 }
             }
-            _ => {
-                result.push(ch);
-            }
+            end
+        };
+        match end {
+            Some(end) => pos += end,
+            None => return xml.to_string(),
         }
-        prev_char = ch;
+    }
+    match open.pop() {
+        Some(document) if open.is_empty() => close(document),
+        _ => return xml.to_string(),
     }
 
+    removed.sort_by_key(|range| range.start);
+    let mut result = String::with_capacity(xml.len());
+    let mut pos = 0;
+    for range in removed {
+        result.push_str(&xml[pos..range.start]);
+        pos = range.end;
+    }
+    result.push_str(&xml[pos..]);
     result
 }
 
+/// Length of the tag that the text starts with
+fn tag_length(text: &str) -> Option<usize> {
+    let mut quote = None;
+    for (pos, c) in text.char_indices() {
+        match quote {
+            Some(q) if q == c => quote = None,
+            Some(_) => {}
+            None if c == '"' || c == '\'' => quote = Some(c),
+            None if c == '>' => return Some(pos + 1),
+            None => {}
+        }
+    }
+    None
+}
+
 /// Analyze PPTX file and return size breakdown
 pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
     let package = Package::open(path.as_ref())?;
diff --git a/src/opc/mod.rs b/src/opc/mod.rs
index c5d269d..a29deaa 100644
--- a/src/opc/mod.rs
+++ b/src/opc/mod.rs
@@ -2,6 +2,7 @@
 
 pub mod package;
 pub mod compress;
+pub(crate) mod refs;
 
 pub use package::Package;
 pub use compress::{
diff --git a/src/opc/refs.rs b/src/opc/refs.rs
new file mode 100644
index 0000000..9230105
--- /dev/null
+++ b/src/opc/refs.rs
@@ -0,0 +1,174 @@
+//! References between the parts of a package: relationships and content types
+
+use super::Package;
+use crate::oxml::XmlParser;
+use std::ops::Range;
+
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+
+/// A relationship of a part
+pub(crate) struct Reference {
+    /// Where the element stands in the relationships part
+    pub range: Range<usize>,
+    pub id: String,
+    pub rel_type: String,
+    /// Path of the part it leads to, unless it leads out of the package
+    pub part: Option<String>,
+}
+
+/// Part that a relationships part belongs to, empty for the package itself.
+pub(crate) fn source_path(rels_path: &str) -> Option<String> {
+    let (dir, name) = rels_path.rsplit_once('/').unwrap_or(("", rels_path));
+    let name = name.strip_suffix(".rels")?;
+    let dir = dir.strip_suffix("_rels")?;
+    (dir.is_empty() || dir.ends_with('/')).then(|| format!("{dir}{name}"))
+}
+
+/// The relationships in a relationships part.
+pub(crate) fn references(rels_path: &str, xml: &str) -> Vec<Reference> {
+    let Some(source) = source_path(rels_path) else {
+        return Vec::new();
+    };
+    elements(xml, "Relationship")
+        .into_iter()
+        .map(|(start, end, attributes)| {
+            let value = |name: &str| {
+                let found = attributes.iter().find(|(n, _)| n == name);
+                found.map(|(_, v)| v.clone()).unwrap_or_default()
+            };
+            let target = value("Target");
+            let inside = value("TargetMode") != "External";
+            Reference {
+                range: start..end,
+                id: value("Id"),
+                rel_type: value("Type"),
+                part: inside.then(|| resolve_target(&source, target.split('#').next().unwrap_or(""))),
+            }
+        })
+        .collect()
+}
+
+/// Remove parts together with their relationships, their content types and what refers to them.
+pub(crate) fn remove_parts(package: &mut Package, paths: &[String]) {
+    for path in paths {
+        package.remove_part(path);
+        package.remove_part(&rels_path(path));
+    }
+
+    let rels_parts: Vec<String> = package
+        .part_paths()
+        .into_iter()
+        .filter(|path| path.ends_with(".rels"))
+        .map(str::to_string)
+        .collect();
+    for rels_part in rels_parts {
+        let Some(xml) = text(package, &rels_part) else {
+            continue;
+        };
+        let ranges = references(&rels_part, &xml)
+            .into_iter()
+            .filter(|r| r.part.as_ref().is_some_and(|part| paths.contains(part)))
+            .map(|r| r.range)
+            .collect();
+        cut(package, &rels_part, xml, ranges);
+    }
+
+    if let Some(xml) = text(package, CONTENT_TYPES) {
+        let ranges = elements(&xml, "Override")
+            .into_iter()
+            .filter(|(_, _, attributes)| {
+                attributes.iter().any(|(name, value)| {
+                    name == "PartName" && paths.iter().any(|path| value.strip_prefix('/') == Some(path))
+                })
+            })
+            .map(|(start, end, _)| start..end)
+            .collect();
+        cut(package, CONTENT_TYPES, xml, ranges);
+    }
+}
+
+fn text(package: &Package, path: &str) -> Option<String> {
+    String::from_utf8(package.get_part(path)?.to_vec()).ok()
+}
+
+fn cut(package: &mut Package, path: &str, mut xml: String, ranges: Vec<Range<usize>>) {
+    if ranges.is_empty() {
+        return;
+    }
+    for range in ranges.into_iter().rev() {
+        xml.replace_range(range, "");
+    }
+    package.add_part(path.to_string(), xml.into_bytes());
+}
+
+/// Path of the relationships of a part.
+pub(crate) fn rels_path(path: &str) -> String {
+    match path.rsplit_once('/') {
+        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
+        None => format!("_rels/{path}.rels"),
+    }
+}
+
+/// Path of the part that a relationship target of `path` leads to.
+pub(crate) fn resolve_target(path: &str, target: &str) -> String {
+    let mut segments: Vec<&str> = Vec::new();
+    if !target.starts_with('/') {
+        segments.extend(path.split('/'));
+        segments.pop();
+    }
+    for segment in target.split('/') {
+        match segment {
+            ".." => {
+                segments.pop();
+            }
+            "." | "" => {}
+            name => segments.push(name),
+        }
+    }
+    segments.join("/")
+}
+
+/// Start, end and attributes of the elements of the given name.
+#[allow(clippy::type_complexity)]
+pub(crate) fn elements(xml: &str, name: &str) -> Vec<(usize, usize, Vec<(String, String)>)> {
+    let open = format!("<{name}");
+    let mut found = Vec::new();
+    let mut from = 0;
+    while let Some(start) = xml[from..].find(&open).map(|pos| from + pos) {
+        from = start + open.len();
+        if !xml[from..].starts_with([' ', '\t', '\r', '\n', '/']) {
+            continue;
+        }
+        let mut quote = None;
+        let Some(tag_end) = xml[from..].char_indices().find_map(|(pos, c)| match (quote, c) {
+            (Some(q), _) => {
+                if q == c {
+                    quote = None;
+                }
+                None
+            }
+            (None, '"' | '\'') => {
+                quote = Some(c);
+                None
+            }
+            (None, '>') => Some(from + pos + 1),
+            _ => None,
+        }) else {
+            break;
+        };
+        let end = if xml[..tag_end].ends_with("/>") {
+            tag_end
+        } else {
+            let close = format!("</{name}>");
+            match xml[tag_end..].find(&close) {
+                Some(pos) => tag_end + pos + close.len(),
+                None => break,
+            }
+        };
+        if let Ok(element) = XmlParser::parse_str(&xml[start..end]) {
+            found.push((start, end, element.attributes.into_iter().collect()));
+        }
+        from = end;
+    }
+    found
+}
diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 5665b21..3ad02f7 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -8,12 +8,12 @@
 
 use super::presentation::slide_part_paths;
 use super::slide::{ParsedSlide, SlideParser};
-use super::xmlchemy::XmlParser;
 use crate::exc::{messages, PptxError};
 use crate::generator::create_pptx_with_content;
 use crate::generator::slide_content::SlideContent;
 use crate::generator::package_xml::slide_id_value;
 use crate::generator::slide_xml::{create_slide_rels_xml, create_slide_xml_with_content};
+use crate::opc::refs::{elements, rels_path, resolve_target};
 use crate::opc::Package;
 
 const CONTENT_TYPES: &str = "[Content_Types].xml";
@@ -380,78 +380,6 @@ impl PresentationEditor {
     }
 }
 
-/// Path of the relationships of a part.
-fn rels_path(path: &str) -> String {
-    match path.rsplit_once('/') {
-        Some((dir, name)) => format!("{dir}/_rels/{name}.rels"),
-        None => format!("_rels/{path}.rels"),
-    }
-}
-
-/// Path of the part that a relationship target of `path` leads to.
-fn resolve_target(path: &str, target: &str) -> String {
-    let mut segments: Vec<&str> = Vec::new();
-    if !target.starts_with('/') {
-        segments.extend(path.split('/'));
-        segments.pop();
-    }
-    for segment in target.split('/') {
-        match segment {
-            ".." => {
-                segments.pop();
-            }
-            "." | "" => {}
-            name => segments.push(name),
-        }
-    }
-    segments.join("/")
-}
-
-/// Start, end and attributes of the elements of the given name.
-#[allow(clippy::type_complexity)]
-fn elements(xml: &str, name: &str) -> Vec<(usize, usize, Vec<(String, String)>)> {
-    let open = format!("<{name}");
-    let mut found = Vec::new();
-    let mut from = 0;
-    while let Some(start) = xml[from..].find(&open).map(|pos| from + pos) {
-        from = start + open.len();
-        if !xml[from..].starts_with([' ', '\t', '\r', '\n', '/']) {
-            continue;
-        }
-        let mut quote = None;
-        let Some(tag_end) = xml[from..].char_indices().find_map(|(pos, c)| match (quote, c) {
-            (Some(q), _) => {
-                if q == c {
-                    quote = None;
-                }
-                None
-            }
-            (None, '"' | '\'') => {
-                quote = Some(c);
-                None
-            }
-            (None, '>') => Some(from + pos + 1),
-            _ => None,
-        }) else {
-            break;
-        };
-        let end = if xml[..tag_end].ends_with("/>") {
-            tag_end
-        } else {
-            let close = format!("</{name}>");
-            match xml[tag_end..].find(&close) {
-                Some(pos) => tag_end + pos + close.len(),
-                None => break,
-            }
-        };
-        if let Ok(element) = XmlParser::parse_str(&xml[start..end]) {
-            found.push((start, end, element.attributes.into_iter().collect()));
-        }
-        from = end;
-    }
-    found
-}
-
 impl Default for PresentationEditor {
     fn default() -> Self {
         Self::new()
-- 
2.43.0


From cf40c986775629c316fc690f422b1d13666ee671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:50 +0000
Subject: [PATCH 057/108] fix: repairing a presentation lost relationships,
 slides and content types, and took broken XML for valid

---
 src/core/validation.rs |  25 +-
 src/opc/refs.rs        | 177 +++++++++-
 src/oxml/repair.rs     | 722 ++++++++++++++++++++++-------------------
 3 files changed, 556 insertions(+), 368 deletions(-)

diff --git a/src/core/validation.rs b/src/core/validation.rs
index d4b6a11..4fdf2bc 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -98,33 +98,16 @@ pub fn validate_positive(value: u32, field: &str) -> Result<()> {
     Ok(())
 }
 
-/// Basic well-formedness check for XML / RELS content.
+/// Well-formedness check for XML / RELS content.
 pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
     let trimmed = xml.trim();
     if trimmed.is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    let mut in_tag = false;
-    let mut in_string = false;
-    let mut string_char = '"';
-
-    for ch in trimmed.chars() {
-        match ch {
-            '"' | '\'' if in_tag && !in_string => {
-                in_string = true;
-                string_char = ch;
-            }
-            c if in_string && c == string_char => {
-                in_string = false;
-            }
-            '<' if !in_string => {
-                in_tag = true;
-            }
-            '>' if !in_string => {
-                in_tag = false;
-            }
-            _ => {}
+    for event in xml::EventReader::from_str(trimmed) {
+        if let Err(e) = event {
+            return Err(PptxError::InvalidXml(e.to_string()));
         }
     }
 
diff --git a/src/opc/refs.rs b/src/opc/refs.rs
index 9230105..2176526 100644
--- a/src/opc/refs.rs
+++ b/src/opc/refs.rs
@@ -1,7 +1,6 @@
 //! References between the parts of a package: relationships and content types
 
 use super::Package;
-use crate::oxml::XmlParser;
 use std::ops::Range;
 
 const CONTENT_TYPES: &str = "[Content_Types].xml";
@@ -42,12 +41,136 @@ pub(crate) fn references(rels_path: &str, xml: &str) -> Vec<Reference> {
                 range: start..end,
                 id: value("Id"),
                 rel_type: value("Type"),
-                part: inside.then(|| resolve_target(&source, target.split('#').next().unwrap_or(""))),
+                part: inside.then(|| match target.split('#').next() {
+                    None | Some("") => source.clone(),
+                    Some(target) => resolve_target(&source, target),
+                }),
             }
         })
         .collect()
 }
 
+/// Declarations of `[Content_Types].xml`
+pub(crate) struct ContentTypes {
+    overrides: Vec<(String, String)>,
+    defaults: Vec<(String, String)>,
+}
+
+impl ContentTypes {
+    pub fn parse(xml: &str) -> Self {
+        let read = |element: &str, key: &str| {
+            elements(xml, element)
+                .into_iter()
+                .filter_map(|(_, _, attributes)| {
+                    let value = |name: &str| attributes.iter().find(|(n, _)| n == name).map(|(_, v)| v.clone());
+                    Some((value(key)?, value("ContentType")?))
+                })
+                .collect()
+        };
+        ContentTypes {
+            overrides: read("Override", "PartName"),
+            defaults: read("Default", "Extension"),
+        }
+    }
+
+    /// Content type that is declared for a part.
+    pub fn get(&self, path: &str) -> Option<&str> {
+        let find = |list: &'_ [(String, String)], wanted: &str| {
+            list.iter().position(|(key, _)| key.eq_ignore_ascii_case(wanted))
+        };
+        if let Some(i) = find(&self.overrides, &format!("/{path}")) {
+            return Some(&self.overrides[i].1);
+        }
+        let (_, extension) = path.rsplit('/').next()?.rsplit_once('.')?;
+        find(&self.defaults, extension).map(|i| self.defaults[i].1.as_str())
+    }
+
+    /// Whether a part has a declared content type, and not just that of XML in general
+    /// if it is one that is found by its type.
+    pub fn covers(&self, path: &str) -> bool {
+        self.get(path).is_some_and(|declared| {
+            declared != "application/xml" || infer_content_type(path) == declared
+        })
+    }
+}
+
+/// Content type of a part by its usual place in a presentation.
+pub(crate) fn infer_content_type(path: &str) -> &'static str {
+    let name = path.rsplit('/').next().unwrap_or(path);
+    let (stem, extension) = name.rsplit_once('.').unwrap_or((name, ""));
+    match extension.to_ascii_lowercase().as_str() {
+        "rels" => "application/vnd.openxmlformats-package.relationships+xml",
+        "png" => "image/png",
+        "jpg" | "jpeg" => "image/jpeg",
+        "gif" => "image/gif",
+        "bmp" => "image/bmp",
+        "tif" | "tiff" => "image/tiff",
+        "svg" => "image/svg+xml",
+        "webp" => "image/webp",
+        "emf" => "image/x-emf",
+        "wmf" => "image/x-wmf",
+        "mp3" => "audio/mpeg",
+        "wav" => "audio/wav",
+        "mp4" => "video/mp4",
+        "fntdata" => "application/x-fontdata",
+        "sigs" => "application/vnd.openxmlformats-package.digital-signature-origin",
+        "xlsx" => "application/vnd.openxmlformats-officedocument.spreadsheetml.sheet",
+        "xml" => match path.trim_end_matches(name) {
+            "ppt/slides/" => "application/vnd.openxmlformats-officedocument.presentationml.slide+xml",
+            "ppt/slideLayouts/" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"
+            }
+            "ppt/slideMasters/" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"
+            }
+            "ppt/notesSlides/" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"
+            }
+            "ppt/notesMasters/" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.notesMaster+xml"
+            }
+            "ppt/handoutMasters/" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.handoutMaster+xml"
+            }
+            "ppt/theme/" if stem.starts_with("theme") => {
+                "application/vnd.openxmlformats-officedocument.theme+xml"
+            }
+            "ppt/charts/" if stem.starts_with("chart") => {
+                "application/vnd.openxmlformats-officedocument.drawingml.chart+xml"
+            }
+            "ppt/comments/" => {
+                "application/vnd.openxmlformats-officedocument.presentationml.comments+xml"
+            }
+            "ppt/ink/" => "application/vnd.openxmlformats-officedocument.presentationml.ink+xml",
+            "_xmlsignatures/" => {
+                "application/vnd.openxmlformats-package.digital-signature-xmlsignature+xml"
+            }
+            "ppt/" => match stem {
+                "presentation" => {
+                    "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"
+                }
+                "presProps" => "application/vnd.openxmlformats-officedocument.presentationml.presProps+xml",
+                "viewProps" => "application/vnd.openxmlformats-officedocument.presentationml.viewProps+xml",
+                "tableStyles" => {
+                    "application/vnd.openxmlformats-officedocument.presentationml.tableStyles+xml"
+                }
+                "commentAuthors" => {
+                    "application/vnd.openxmlformats-officedocument.presentationml.commentAuthors+xml"
+                }
+                _ => "application/xml",
+            },
+            "docProps/" => match stem {
+                "core" => "application/vnd.openxmlformats-package.core-properties+xml",
+                "app" => "application/vnd.openxmlformats-officedocument.extended-properties+xml",
+                "custom" => "application/vnd.openxmlformats-officedocument.custom-properties+xml",
+                _ => "application/xml",
+            },
+            _ => "application/xml",
+        },
+        _ => "application/octet-stream",
+    }
+}
+
 /// Remove parts together with their relationships, their content types and what refers to them.
 pub(crate) fn remove_parts(package: &mut Package, paths: &[String]) {
     for path in paths {
@@ -165,10 +288,54 @@ pub(crate) fn elements(xml: &str, name: &str) -> Vec<(usize, usize, Vec<(String,
                 None => break,
             }
         };
-        if let Ok(element) = XmlParser::parse_str(&xml[start..end]) {
-            found.push((start, end, element.attributes.into_iter().collect()));
-        }
+        found.push((start, end, attributes(&xml[from..tag_end])));
         from = end;
     }
     found
 }
+
+/// Attributes of a tag, given what follows its name.
+fn attributes(tag: &str) -> Vec<(String, String)> {
+    let mut found = Vec::new();
+    let mut rest = tag;
+    while let Some((name, after)) = rest.split_once('=') {
+        let after = after.trim_start();
+        let Some(quote) = after.chars().next().filter(|c| ['"', '\''].contains(c)) else {
+            break;
+        };
+        let Some((value, after)) = after[1..].split_once(quote) else {
+            break;
+        };
+        found.push((name.trim().to_string(), unescape(value)));
+        rest = after;
+    }
+    found
+}
+
+/// Text that the characters of an attribute stand for.
+fn unescape(value: &str) -> String {
+    let mut text = String::with_capacity(value.len());
+    let mut rest = value;
+    while let Some((before, after)) = rest.split_once('&') {
+        text.push_str(before);
+        let Some((entity, after)) = after.split_once(';') else {
+            text.push('&');
+            rest = after;
+            continue;
+        };
+        let number = match entity.strip_prefix("#x") {
+            Some(digits) => u32::from_str_radix(digits, 16).ok(),
+            None => entity.strip_prefix('#').and_then(|digits| digits.parse().ok()),
+        };
+        match entity {
+            "amp" => text.push('&'),
+            "lt" => text.push('<'),
+            "gt" => text.push('>'),
+            "quot" => text.push('"'),
+            "apos" => text.push('\''),
+            _ => text.extend(number.and_then(char::from_u32)),
+        }
+        rest = after;
+    }
+    text + rest
+}
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8cad2df..8b59230 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -12,10 +12,18 @@ use crate::core::{
     REQUIRED_PARTS_REPAIR,
 };
 use crate::exc::{PptxError, Result};
+use crate::core::escape_xml;
+use crate::generator::package_xml::slide_id_value;
+use crate::opc::refs::{self, elements, references, ContentTypes, Reference};
 use crate::opc::Package;
 use std::collections::HashSet;
+use std::ops::Range;
 use std::path::Path;
 
+const CONTENT_TYPES: &str = "[Content_Types].xml";
+const PRESENTATION: &str = "ppt/presentation.xml";
+const PRESENTATION_RELS: &str = "ppt/_rels/presentation.xml.rels";
+
 /// Types of issues that can be detected in a PPTX file
 #[derive(Debug, Clone, PartialEq)]
 pub enum RepairIssue {
@@ -235,6 +243,11 @@ impl PptxRepair {
         // Re-validate to check if repairs were successful
         let remaining_issues = self.validate();
         result.is_valid = remaining_issues.is_empty();
+        let (unrepaired, repaired) = std::mem::take(&mut result.issues_repaired)
+            .into_iter()
+            .partition(|issue| remaining_issues.contains(issue));
+        result.issues_repaired = repaired;
+        result.issues_unrepaired.extend::<Vec<_>>(unrepaired);
 
         result
     }
@@ -278,13 +291,7 @@ impl PptxRepair {
     }
 
     fn check_xml_validity(&mut self) {
-        let xml_parts: Vec<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| p.ends_with(".xml") || p.ends_with(".rels"))
-            .map(|s| s.to_string())
-            .collect();
+        let xml_parts = self.parts_where(|p| p.ends_with(".xml") || p.ends_with(".rels"));
 
         for path in xml_parts {
             if let Some(content) = self.package.get_part(&path) {
@@ -300,131 +307,99 @@ impl PptxRepair {
         validate_well_formed_xml(xml).map_err(|e| e.to_string())
     }
 
-    fn check_relationships(&mut self) {
-        // Check _rels/.rels
-        self.check_rels_file("_rels/.rels");
-
-        // Check ppt/_rels/presentation.xml.rels
-        self.check_rels_file("ppt/_rels/presentation.xml.rels");
-
-        // Check slide relationship files
-        let slide_rels: Vec<String> = self
+    fn parts_where(&self, wanted: impl Fn(&str) -> bool) -> Vec<String> {
+        let mut parts: Vec<String> = self
             .package
             .part_paths()
-            .iter()
-            .filter(|p| p.starts_with("ppt/slides/_rels/") && p.ends_with(".xml.rels"))
-            .map(|s| s.to_string())
+            .into_iter()
+            .filter(|path| wanted(path))
+            .map(str::to_string)
             .collect();
-
-        for rels_path in slide_rels {
-            self.check_rels_file(&rels_path);
-        }
+        // By number where there is one
+        parts.sort_by_key(|path| (path.len(), path.clone()));
+        parts
     }
 
-    fn check_rels_file(&mut self, rels_path: &str) {
-        if let Some(content) = self.package.get_part(rels_path) {
-            let xml_str = String::from_utf8_lossy(content);
-
-            // Parse relationships and check targets exist
-            for line in xml_str.lines() {
-                if line.contains("Relationship") && line.contains("Target=")
-                    && let Some(target) = self.extract_attribute(line, "Target") {
-                        let rel_id = self.extract_attribute(line, "Id").unwrap_or_default();
-
-                        // Skip external relationships
-                        if target.starts_with("http://") || target.starts_with("https://") {
-                            continue;
-                        }
+    fn part_string(&self, path: &str) -> String {
+        self.package.get_part_string(path).unwrap_or_default()
+    }
 
-                        // Resolve relative path
-                        let full_path = self.resolve_path(rels_path, &target);
+    fn relationships(&self, rels_path: &str) -> Vec<Reference> {
+        references(rels_path, &self.part_string(rels_path))
+    }
 
-                        if !self.package.has_part(&full_path) && !target.contains("..") {
-                            self.issues.push(RepairIssue::BrokenRelationship {
-                                source: rels_path.to_string(),
-                                target: full_path,
-                                rel_id,
-                            });
-                        }
-                    }
+    fn check_relationships(&mut self) {
+        for rels_path in self.parts_where(|p| p.ends_with(".rels")) {
+            for relationship in self.relationships(&rels_path) {
+                if let Some(target) = self.missing_target(&relationship) {
+                    self.issues.push(RepairIssue::BrokenRelationship {
+                        source: rels_path.clone(),
+                        target,
+                        rel_id: relationship.id,
+                    });
+                }
             }
         }
     }
 
+    #[cfg(test)]
     fn extract_attribute(&self, line: &str, attr: &str) -> Option<String> {
-        let pattern = format!("{}=\"", attr);
-        if let Some(start) = line.find(&pattern) {
-            let value_start = start + pattern.len();
-            if let Some(end) = line[value_start..].find('"') {
-                return Some(line[value_start..value_start + end].to_string());
-            }
-        }
-        None
+        let (_, _, attributes) = elements(line, "Relationship").into_iter().next()?;
+        attributes.into_iter().find(|(name, _)| name == attr).map(|(_, value)| value)
     }
 
+    #[cfg(test)]
     fn resolve_path(&self, rels_path: &str, target: &str) -> String {
-        if let Some(stripped) = target.strip_prefix('/') {
-            return stripped.to_string();
-        }
+        refs::resolve_target(&refs::source_path(rels_path).unwrap_or_default(), target)
+    }
 
-        // Get directory of rels file
-        let rels_dir = rels_path.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-        let base_dir = rels_dir
-            .replace("_rels", "")
-            .trim_end_matches('/')
-            .to_string();
-
-        if target.starts_with("../") {
-            // Go up one directory
-            let parent = base_dir.rsplit_once('/').map(|(d, _)| d).unwrap_or("");
-            format!("{}/{}", parent, target.trim_start_matches("../"))
-        } else {
-            if base_dir.is_empty() {
-                target.to_string()
-            } else {
-                format!("{}/{}", base_dir, target)
-            }
+    /// Path of the part that a relationship leads to if that part is not there.
+    fn missing_target(&self, relationship: &Reference) -> Option<String> {
+        let target = relationship.part.as_ref()?;
+        // The package itself and addresses without a target mode
+        if target.is_empty() || target.starts_with("http:/") || target.starts_with("https:/") {
+            return None;
         }
+        (!self.package.has_part(target)).then(|| target.clone())
     }
 
-    fn check_slide_references(&mut self) {
-        // Get slides from presentation.xml.rels
-        let mut referenced_slides: HashSet<String> = HashSet::new();
-        let slide_rel_type = crate::parts::relationships::RelationshipType::Slide.uri();
-
-        if let Some(rels_content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(rels_content);
-            for line in xml_str.lines() {
-                if let Some(type_attr) = self.extract_attribute(line, "Type") {
-                    if type_attr != slide_rel_type {
-                        continue;
-                    }
-                    if let Some(target) = self.extract_attribute(line, "Target") {
-                        let full_path = if let Some(stripped) = target.strip_prefix('/') {
-                            stripped.to_string()
-                        } else {
-                            format!("ppt/{}", target)
-                        };
-                        referenced_slides.insert(full_path);
-                    }
-                }
-            }
-        }
+    /// Slide relationships of the presentation as id and path.
+    fn slide_relationships(&self) -> Vec<(String, String)> {
+        self.relationships(PRESENTATION_RELS)
+            .into_iter()
+            .filter(|r| r.rel_type.ends_with("/slide"))
+            .filter_map(|r| Some((r.id, r.part?)))
+            .collect()
+    }
 
-        // Get actual slide files
-        let actual_slides: HashSet<String> = self
-            .package
-            .part_paths()
-            .iter()
-            .filter(|p| {
-                p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
+    /// Place and relationship id of the elements of the presentation with the given name.
+    fn presentation_references(&self, element: &str) -> Vec<(Range<usize>, String)> {
+        elements(&self.part_string(PRESENTATION), element)
+            .into_iter()
+            .filter_map(|(start, end, attributes)| {
+                let (_, id) = attributes.into_iter().find(|(name, _)| name.ends_with(":id"))?;
+                Some((start..end, id))
             })
-            .map(|s| s.to_string())
+            .collect()
+    }
+
+    fn slide_parts(&self) -> Vec<String> {
+        self.parts_where(|p| {
+            p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
+        })
+    }
+
+    fn check_slide_references(&mut self) {
+        let slide_rels = self.slide_relationships();
+        let listed: HashSet<String> = self
+            .presentation_references("p:sldId")
+            .into_iter()
+            .map(|(_, id)| id)
             .collect();
 
         // Check for orphan references (referenced but don't exist)
-        for slide in &referenced_slides {
-            if !actual_slides.contains(slide) {
+        for (_, slide) in &slide_rels {
+            if !self.package.has_part(slide) {
                 self.issues.push(RepairIssue::OrphanSlide {
                     slide_path: slide.clone(),
                 });
@@ -432,35 +407,21 @@ impl PptxRepair {
         }
 
         // Check for unreferenced slides
-        for slide in &actual_slides {
-            if !referenced_slides.contains(slide) {
-                self.issues.push(RepairIssue::MissingSlideReference {
-                    slide_path: slide.clone(),
-                });
+        for slide in self.slide_parts() {
+            if !slide_rels.iter().any(|(id, path)| *path == slide && listed.contains(id)) {
+                self.issues.push(RepairIssue::MissingSlideReference { slide_path: slide });
             }
         }
     }
 
     fn check_content_types(&mut self) {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content);
+        if let Some(xml_str) = self.package.get_part_string(CONTENT_TYPES) {
+            let content_types = ContentTypes::parse(&xml_str);
 
             // Check that all parts have content types
-            let parts = self.package.part_paths();
-            for part in parts {
-                if part == "[Content_Types].xml" {
-                    continue;
-                }
-
-                // Check if part has Override or matches Default
-                let has_override = xml_str.contains(&format!("PartName=\"/{}\"", part));
-                let extension = part.rsplit('.').next().unwrap_or("");
-                let has_default = xml_str.contains(&format!("Extension=\"{}\"", extension));
-
-                if !has_override && !has_default && !part.ends_with(".rels") {
-                    self.issues.push(RepairIssue::InvalidContentType {
-                        path: part.to_string(),
-                    });
+            for path in self.parts_where(|p| p != CONTENT_TYPES && !p.ends_with(".rels")) {
+                if !content_types.covers(&path) {
+                    self.issues.push(RepairIssue::InvalidContentType { path });
                 }
             }
         }
@@ -472,15 +433,15 @@ impl PptxRepair {
         match issue {
             RepairIssue::MissingPart { path, .. } => self.repair_missing_part(path),
             RepairIssue::InvalidXml { path, .. } => self.repair_invalid_xml(path),
-            RepairIssue::BrokenRelationship {
-                source,
-                target,
-                rel_id,
-            } => self.repair_broken_relationship(source, target, rel_id),
+            RepairIssue::BrokenRelationship { source, target, .. } => {
+                self.remove_relationships(source, target)
+            }
             RepairIssue::MissingSlideReference { slide_path } => {
                 self.repair_missing_slide_reference(slide_path)
             }
-            RepairIssue::OrphanSlide { slide_path } => self.repair_orphan_slide(slide_path),
+            RepairIssue::OrphanSlide { slide_path } => {
+                self.remove_relationships(PRESENTATION_RELS, slide_path)
+            }
             RepairIssue::InvalidContentType { path } => self.repair_invalid_content_type(path),
             RepairIssue::MissingNamespace { path, namespace } => {
                 self.repair_missing_namespace(path, namespace)
@@ -495,10 +456,17 @@ impl PptxRepair {
     }
 
     fn repair_missing_part(&mut self, path: &str) -> Result<()> {
+        if self.package.has_part(path) {
+            return Ok(());
+        }
         let content = match path {
             "[Content_Types].xml" => self.generate_content_types(),
             "_rels/.rels" => self.generate_package_rels(),
-            "ppt/presentation.xml" => self.generate_presentation_xml(),
+            "ppt/presentation.xml" => {
+                // Its references need the relationships
+                self.repair_missing_part(PRESENTATION_RELS)?;
+                self.generate_presentation_xml()
+            }
             "ppt/_rels/presentation.xml.rels" => self.generate_presentation_rels(),
             _ => {
                 return Err(PptxError::Generic(format!(
@@ -510,16 +478,36 @@ impl PptxRepair {
 
         self.package
             .add_part(path.to_string(), content.into_bytes());
+        if path == PRESENTATION_RELS {
+            self.remove_unresolved_slides();
+        }
         Ok(())
     }
 
+    /// Remove entries of the slide list that no relationship belongs to.
+    fn remove_unresolved_slides(&mut self) {
+        let slides = self.slide_relationships();
+        let mut xml = self.part_string(PRESENTATION);
+        for (range, id) in self.presentation_references("p:sldId").into_iter().rev() {
+            if !slides.iter().any(|(slide, _)| *slide == id) {
+                xml.replace_range(range, "");
+            }
+        }
+        if self.package.has_part(PRESENTATION) {
+            self.package
+                .add_part(PRESENTATION.to_string(), xml.into_bytes());
+        }
+    }
+
     fn repair_invalid_xml(&mut self, path: &str) -> Result<()> {
         if let Some(content) = self.package.get_part(path) {
             let xml_str = String::from_utf8_lossy(content).to_string();
 
-            // Try to repair using anyrepair for JSON-like structures
-            // For XML, we try basic fixes
+            // Try basic fixes, and keep the part as it is if they are not enough
             let repaired = self.attempt_xml_repair(&xml_str);
+            if let Err(error) = self.validate_xml(&repaired) {
+                return Err(PptxError::InvalidXml(error));
+            }
 
             self.package
                 .add_part(path.to_string(), repaired.into_bytes());
@@ -528,7 +516,7 @@ impl PptxRepair {
     }
 
     fn attempt_xml_repair(&self, xml: &str) -> String {
-        let mut repaired = xml.to_string();
+        let mut repaired = xml.trim_start().to_string();
 
         // Ensure XML declaration
         if !repaired.trim().starts_with("<?xml") {
@@ -548,7 +536,6 @@ impl PptxRepair {
                 // Check if this is already an entity
                 let mut entity = String::from("&");
                 let mut is_entity = false;
-                let mut temp_chars: Vec<char> = Vec::new();
 
                 while let Some(&next) = chars.peek() {
                     if next == ';' {
@@ -560,9 +547,8 @@ impl PptxRepair {
                             || entity == "&apos;"
                             || entity.starts_with("&#");
                         break;
-                    } else if next.is_alphanumeric() || next == '#' || next == 'x' {
-                        temp_chars.push(chars.next().unwrap());
-                        entity.push(*temp_chars.last().unwrap());
+                    } else if next.is_alphanumeric() || next == '#' {
+                        entity.push(chars.next().unwrap());
                     } else {
                         break;
                     }
@@ -575,9 +561,7 @@ impl PptxRepair {
                     result.push_str(&entity);
                 } else {
                     result.push_str("&amp;");
-                    for c in temp_chars {
-                        result.push(c);
-                    }
+                    result.push_str(&entity[1..]);
                 }
             } else {
                 result.push(ch);
@@ -588,199 +572,127 @@ impl PptxRepair {
         repaired
     }
 
-    fn repair_broken_relationship(
-        &mut self,
-        source: &str,
-        _target: &str,
-        rel_id: &str,
-    ) -> Result<()> {
-        // Remove the broken relationship from the rels file
-        if let Some(content) = self.package.get_part(source) {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Remove the relationship line with this ID
-            let pattern = format!("Id=\"{}\"", rel_id);
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&pattern))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package
-                .add_part(source.to_string(), repaired.into_bytes());
+    /// Remove the relationships of a part that lead to the target, and the slides they stand for.
+    fn remove_relationships(&mut self, source: &str, target: &str) -> Result<()> {
+        let mut xml = self.part_string(source);
+        let mut removed = false;
+        for relationship in self.relationships(source).into_iter().rev() {
+            if relationship.part.as_deref() == Some(target) {
+                xml.replace_range(relationship.range, "");
+                removed = true;
+            }
+        }
+        if removed {
+            self.package.add_part(source.to_string(), xml.into_bytes());
+            if source == PRESENTATION_RELS {
+                self.remove_unresolved_slides();
+            }
         }
         Ok(())
     }
 
     fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
-        // Add the slide to presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find the highest rId
-            let max_id = self.find_max_rel_id(&xml_str);
-            let new_id = format!("rId{}", max_id + 1);
-
-            // Extract slide number from path
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Add new relationship before </Relationships>
-            let new_rel = format!(
-                "  <Relationship Id=\"{}\" Type=\"http://schemas.openxmlformats.org/officeDocument/2006/relationships/slide\" Target=\"{}\"/>",
-                new_id, slide_target
-            );
-
-            let repaired = xml_str.replace(
-                "</Relationships>",
-                &format!("{}\n</Relationships>", new_rel),
-            );
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
+        // Add the slide to presentation.xml.rels unless it is there
+        let known = self
+            .slide_relationships()
+            .into_iter()
+            .find(|(_, path)| path == slide_path);
+        let id = match known {
+            Some((id, _)) => id,
+            None => {
+                let id = self.free_rel_id(&[]);
+                let target = slide_path.strip_prefix("ppt/").unwrap_or(slide_path);
+
+                // Add new relationship before </Relationships>
+                let new_rel = format!(
+                    "  <Relationship Id=\"{}\" Type=\"{}\" Target=\"{}\"/>\n",
+                    id,
+                    crate::parts::relationships::RelationshipType::Slide.uri(),
+                    escape_xml(target)
+                );
+                self.insert_before(PRESENTATION_RELS, "</Relationships>", &new_rel)?;
+                id
+            }
+        };
 
-            // Also update presentation.xml sldIdLst
-            self.add_slide_to_presentation(&new_id)?;
-        }
-        Ok(())
+        // Also update presentation.xml sldIdLst
+        self.add_slide_to_presentation(&id)
     }
 
-    fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("ppt/presentation.xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Find highest slide ID
-            let max_slide_id = self.find_max_slide_id(&xml_str);
-            let new_slide_id = max_slide_id + 1;
-
-            // Add to sldIdLst
-            let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, rel_id);
-
-            let repaired = if xml_str.contains("</p:sldIdLst>") {
-                xml_str.replace("</p:sldIdLst>", &format!("{}\n</p:sldIdLst>", new_entry))
-            } else if xml_str.contains("<p:sldIdLst/>") {
-                xml_str.replace(
-                    "<p:sldIdLst/>",
-                    &format!("<p:sldIdLst>{}</p:sldIdLst>", new_entry),
-                )
-            } else {
-                // Insert sldIdLst after sldMasterIdLst
-                xml_str.replace(
-                    "</p:sldMasterIdLst>",
-                    &format!(
-                        "</p:sldMasterIdLst>\n<p:sldIdLst>{}</p:sldIdLst>",
-                        new_entry
-                    ),
-                )
-            };
-
-            self.package
-                .add_part("ppt/presentation.xml".to_string(), repaired.into_bytes());
+    /// Relationship id that neither the presentation nor the given list uses.
+    fn free_rel_id(&self, taken: &[String]) -> String {
+        let mut number = u64::from(self.find_max_rel_id(&self.part_string(PRESENTATION_RELS))) + 1;
+        while taken.contains(&format!("rId{number}")) {
+            number += 1;
         }
-        Ok(())
+        format!("rId{number}")
     }
 
     fn find_max_rel_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: Id="rId(\d+)"
-        let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("Id=\"rId") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 7; // Skip "Id=\"rId"
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
-            }
-        }
-        max_id
+        find_max(xml, "Relationship", "Id", "rId")
     }
 
     fn find_max_slide_id(&self, xml: &str) -> u32 {
-        // Simple string parsing instead of regex for: <p:sldId id="(\d+)"
-        let mut max_id = 0u32;
-        let mut search_start = 0;
-
-        while let Some(pos) = xml[search_start..].find("<p:sldId id=\"") {
-            let absolute_pos = search_start + pos;
-            let start = absolute_pos + 13; // Skip "<p:sldId id=\""
-            if let Some(end_pos) = xml[start..].find('"') {
-                let num_str = &xml[start..start + end_pos];
-                if let Ok(id) = num_str.parse::<u32>() {
-                    max_id = max_id.max(id);
-                }
-                search_start = start + end_pos + 1;
-            } else {
-                break;
-            }
-        }
-        max_id
+        find_max(xml, "p:sldId", "id", "")
     }
 
-    fn repair_orphan_slide(&mut self, slide_path: &str) -> Result<()> {
-        // Remove the orphan reference from presentation.xml.rels
-        if let Some(content) = self.package.get_part("ppt/_rels/presentation.xml.rels") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-            let slide_target = slide_path.replace("ppt/", "");
-
-            // Find and remove the relationship
-            let lines: Vec<&str> = xml_str
-                .lines()
-                .filter(|line| !line.contains(&format!("Target=\"{}\"", slide_target)))
-                .collect();
-
-            let repaired = lines.join("\n");
-            self.package.add_part(
-                "ppt/_rels/presentation.xml.rels".to_string(),
-                repaired.into_bytes(),
-            );
-        }
+    fn insert_before(&mut self, path: &str, end: &str, text: &str) -> Result<()> {
+        let mut xml = self.part_string(path);
+        let Some(pos) = xml.rfind(end) else {
+            return Err(PptxError::Generic(format!("No {end} in {path}")));
+        };
+        xml.insert_str(pos, text);
+        self.package.add_part(path.to_string(), xml.into_bytes());
         Ok(())
     }
 
-    fn repair_invalid_content_type(&mut self, path: &str) -> Result<()> {
-        if let Some(content) = self.package.get_part("[Content_Types].xml") {
-            let xml_str = String::from_utf8_lossy(content).to_string();
-
-            // Determine content type based on path
-            let content_type = self.infer_content_type(path);
+    fn add_slide_to_presentation(&mut self, rel_id: &str) -> Result<()> {
+        if self.presentation_references("p:sldId").iter().any(|(_, id)| id == rel_id) {
+            return Ok(());
+        }
+        let mut xml = self.part_string(PRESENTATION);
 
-            // Add Override entry
-            let new_override = format!(
-                "  <Override PartName=\"/{}\" ContentType=\"{}\"/>",
-                path, content_type
-            );
+        // Slide IDs go from 256 to 2147483647
+        let last = slide_id_value(0).max(self.find_max_slide_id(&xml) as usize);
+        if last >= 2_147_483_647 {
+            return Err(PptxError::Generic("No slide ID is left".to_string()));
+        }
+        let new_slide_id = last + 1;
 
-            let repaired = xml_str.replace("</Types>", &format!("{}\n</Types>", new_override));
-            self.package
-                .add_part("[Content_Types].xml".to_string(), repaired.into_bytes());
+        let new_entry = format!("<p:sldId id=\"{}\" r:id=\"{}\"/>", new_slide_id, rel_id);
+        if xml.contains("</p:sldIdLst>") {
+            return self.insert_before(PRESENTATION, "</p:sldIdLst>", &format!("{new_entry}\n"));
         }
+        let list = format!("<p:sldIdLst>{new_entry}</p:sldIdLst>");
+        let after = |end: &str| xml.find(end).map(|pos| pos + end.len());
+        let place = match elements(&xml, "p:sldIdLst").into_iter().next() {
+            Some((start, end, _)) => Some(start..end),
+            // The list comes after those of the masters
+            None => ["</p:handoutMasterIdLst>", "</p:notesMasterIdLst>", "</p:sldMasterIdLst>"]
+                .into_iter()
+                .find_map(after)
+                .map(|pos| pos..pos),
+        };
+        let Some(place) = place else {
+            return Err(PptxError::Generic("No place for the slide list".to_string()));
+        };
+        xml.replace_range(place, &list);
+        self.package
+            .add_part(PRESENTATION.to_string(), xml.into_bytes());
         Ok(())
     }
 
+    fn repair_invalid_content_type(&mut self, path: &str) -> Result<()> {
+        let new_override = format!(
+            "  <Override PartName=\"/{}\" ContentType=\"{}\"/>\n",
+            escape_xml(path),
+            self.infer_content_type(path)
+        );
+        self.insert_before(CONTENT_TYPES, "</Types>", &new_override)
+    }
+
     fn infer_content_type(&self, path: &str) -> &'static str {
-        if path.contains("slideLayout") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideLayout+xml"
-        } else if path.contains("slideMaster") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slideMaster+xml"
-        } else if path.contains("notesSlide") {
-            "application/vnd.openxmlformats-officedocument.presentationml.notesSlide+xml"
-        } else if path.starts_with("ppt/slides/slide") && path.ends_with(".xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.slide+xml"
-        } else if path.contains("theme") {
-            "application/vnd.openxmlformats-officedocument.theme+xml"
-        } else if path.contains("presentation.xml") {
-            "application/vnd.openxmlformats-officedocument.presentationml.presentation.main+xml"
-        } else if path.ends_with(".xml") {
-            "application/xml"
-        } else {
-            "application/octet-stream"
-        }
+        refs::infer_content_type(path)
     }
 
     fn repair_missing_namespace(&mut self, path: &str, namespace: &str) -> Result<()> {
@@ -829,19 +741,32 @@ impl PptxRepair {
 <Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types">
   <Default Extension="rels" ContentType="application/vnd.openxmlformats-package.relationships+xml"/>
   <Default Extension="xml" ContentType="application/xml"/>
-  <Default Extension="jpeg" ContentType="image/jpeg"/>
-  <Default Extension="png" ContentType="image/png"/>
 "#,
         );
 
-        // Add overrides for existing parts
-        for path in self.package.part_paths() {
-            if path.ends_with(".xml") && path != "[Content_Types].xml" {
-                let ct = self.infer_content_type(path);
-                content.push_str(&format!(
+        // Add defaults for the extensions and overrides for the parts that need one
+        let mut extensions = vec!["rels".to_string(), "xml".to_string()];
+        for path in self.parts_where(|p| p != CONTENT_TYPES && !p.ends_with(".rels")) {
+            let ct = self.infer_content_type(&path);
+            let name = path.rsplit('/').next().unwrap_or(&path);
+            let extension = name.rsplit_once('.').map(|(_, e)| e.to_ascii_lowercase());
+            match extension {
+                Some(e) if extensions.contains(&e) && ct == "application/xml" => {}
+                Some(e) if e != "xml" => {
+                    if !extensions.contains(&e) {
+                        content.push_str(&format!(
+                            "  <Default Extension=\"{}\" ContentType=\"{}\"/>\n",
+                            escape_xml(&e),
+                            ct
+                        ));
+                        extensions.push(e);
+                    }
+                }
+                _ => content.push_str(&format!(
                     "  <Override PartName=\"/{}\" ContentType=\"{}\"/>\n",
-                    path, ct
-                ));
+                    escape_xml(&path),
+                    ct
+                )),
             }
         }
 
@@ -850,35 +775,148 @@ impl PptxRepair {
     }
 
     fn generate_package_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/officeDocument" Target="ppt/presentation.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/package/2006/relationships/metadata/core-properties" Target="docProps/core.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/extended-properties" Target="docProps/app.xml"/>
-</Relationships>"#.to_string()
+        const OFFICE: &str = "http://schemas.openxmlformats.org/officeDocument/2006/relationships";
+        const PACKAGE: &str = "http://schemas.openxmlformats.org/package/2006/relationships";
+        let mut relationships = Relationships::default();
+        for (base, kind, path) in [
+            (OFFICE, "officeDocument", PRESENTATION),
+            (PACKAGE, "metadata/core-properties", "docProps/core.xml"),
+            (OFFICE, "extended-properties", "docProps/app.xml"),
+            (OFFICE, "custom-properties", "docProps/custom.xml"),
+            (PACKAGE, "metadata/thumbnail", "docProps/thumbnail.jpeg"),
+            (PACKAGE, "digital-signature/origin", "_xmlsignatures/origin.sigs"),
+        ] {
+            if path == PRESENTATION || self.package.has_part(path) {
+                let id = format!("rId{}", relationships.ids.len() + 1);
+                relationships.add(id, &format!("{base}/{kind}"), path);
+            }
+        }
+        relationships.finish()
     }
 
     fn generate_presentation_xml(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
+        let relationships = self.relationships(PRESENTATION_RELS);
+        let ids = |kind: &str| -> Vec<String> {
+            let kind = relationships.iter().filter(|r| r.rel_type.ends_with(kind));
+            kind.map(|r| escape_xml(&r.id)).collect()
+        };
+        let list = |name: &str, entries: Vec<String>| match entries.is_empty() {
+            true => String::new(),
+            false => format!("  <p:{name}>{}</p:{name}>\n", entries.concat()),
+        };
+
+        let masters = ids("/slideMaster")
+            .iter()
+            .enumerate()
+            .map(|(i, id)| format!("<p:sldMasterId id=\"{}\" r:id=\"{id}\"/>", 2_147_483_648 + 1000 * i))
+            .collect();
+        let notes = ids("/notesMaster")
+            .iter()
+            .map(|id| format!("<p:notesMasterId r:id=\"{id}\"/>"))
+            .collect();
+        let handouts = ids("/handoutMaster")
+            .iter()
+            .map(|id| format!("<p:handoutMasterId r:id=\"{id}\"/>"))
+            .collect();
+        let slides: String = ids("/slide")
+            .iter()
+            .enumerate()
+            .map(|(i, id)| format!("<p:sldId id=\"{}\" r:id=\"{id}\"/>", slide_id_value(i + 1)))
+            .collect();
+        format!(
+            r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:presentation xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
-  <p:sldMasterIdLst>
-    <p:sldMasterId id="2147483648" r:id="rId1"/>
-  </p:sldMasterIdLst>
-  <p:sldIdLst/>
+{}{}{}  <p:sldIdLst>{slides}</p:sldIdLst>
   <p:sldSz cx="9144000" cy="6858000"/>
   <p:notesSz cx="6858000" cy="9144000"/>
-</p:presentation>"#.to_string()
+</p:presentation>"#,
+            list("sldMasterIdLst", masters),
+            list("notesMasterIdLst", notes),
+            list("handoutMasterIdLst", handouts)
+        )
     }
 
+    /// Relationships to the parts of the presentation, with the ids by which it refers to them.
     fn generate_presentation_rels(&self) -> String {
-        r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
-<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">
-  <Relationship Id="rId1" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/slideMaster" Target="slideMasters/slideMaster1.xml"/>
-  <Relationship Id="rId2" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/theme" Target="theme/theme1.xml"/>
-  <Relationship Id="rId3" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/presProps" Target="presProps.xml"/>
-  <Relationship Id="rId4" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/viewProps" Target="viewProps.xml"/>
-  <Relationship Id="rId5" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/tableStyles" Target="tableStyles.xml"/>
-</Relationships>"#.to_string()
+        let mut relationships = Relationships::default();
+        let mut free = Vec::new();
+        for (kind, element, dir) in [
+            ("slideMaster", "p:sldMasterId", "slideMasters/slideMaster"),
+            ("slide", "p:sldId", "slides/slide"),
+            ("notesMaster", "p:notesMasterId", "notesMasters/notesMaster"),
+            ("handoutMaster", "p:handoutMasterId", "handoutMasters/handoutMaster"),
+            ("font", "p:regular", "fonts/font"),
+            ("presProps", "", "presProps.xml"),
+            ("viewProps", "", "viewProps.xml"),
+            ("theme", "", "theme/theme1.xml"),
+            ("tableStyles", "", "tableStyles.xml"),
+        ] {
+            let start = format!("ppt/{dir}");
+            let parts = self.parts_where(|p| p.starts_with(&start) && !p.ends_with(".rels"));
+            let ids = self.presentation_references(element);
+            for (i, path) in parts.iter().enumerate() {
+                let target = path.strip_prefix("ppt/").unwrap_or(path);
+                match ids.get(i) {
+                    Some((_, id)) => relationships.add(id.clone(), &relationship_type(kind), target),
+                    // Slides that are not listed are added as such
+                    None if kind == "slide" => {}
+                    None => free.push((kind, target.to_string())),
+                }
+            }
+        }
+        let xml = self.part_string(PRESENTATION);
+        let mut taken: Vec<String> = xml
+            .split(":id=\"")
+            .skip(1)
+            .filter_map(|rest| rest.split('"').next())
+            .map(str::to_string)
+            .collect();
+        for (kind, target) in free {
+            let id = self.free_rel_id(&taken);
+            taken.push(id.clone());
+            relationships.add(id, &relationship_type(kind), &target);
+        }
+        relationships.finish()
+    }
+}
+
+/// Largest number among the values of an attribute.
+fn find_max(xml: &str, element: &str, attribute: &str, prefix: &str) -> u32 {
+    elements(xml, element)
+        .into_iter()
+        .flat_map(|(_, _, attributes)| attributes)
+        .filter(|(name, _)| name == attribute)
+        .filter_map(|(_, value)| value.strip_prefix(prefix)?.parse().ok())
+        .max()
+        .unwrap_or(0)
+}
+
+fn relationship_type(kind: &str) -> String {
+    format!("http://schemas.openxmlformats.org/officeDocument/2006/relationships/{kind}")
+}
+
+/// Relationships part under construction
+#[derive(Default)]
+struct Relationships {
+    ids: Vec<String>,
+    elements: String,
+}
+
+impl Relationships {
+    fn add(&mut self, id: String, rel_type: &str, target: &str) {
+        self.elements.push_str(&format!(
+            "  <Relationship Id=\"{}\" Type=\"{rel_type}\" Target=\"{}\"/>\n",
+            escape_xml(&id),
+            escape_xml(target)
+        ));
+        self.ids.push(id);
+    }
+
+    fn finish(self) -> String {
+        format!(
+            "<?xml version=\"1.0\" encoding=\"UTF-8\" standalone=\"yes\"?>\n<Relationships xmlns=\"http://schemas.openxmlformats.org/package/2006/relationships\">\n{}</Relationships>",
+            self.elements
+        )
     }
 }
 
-- 
2.43.0


From 63bdebc3a180e53063cf6b400030aae3791f6eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:26 +0000
Subject: [PATCH 058/108] fix: XML that is not well formed passed as valid in
 validation and repair

---
 src/core/mod.rs        |   1 +
 src/core/validation.rs | 141 +++++++++++++++++++++++++++++++++++++++--
 src/opc/compress.rs    |  16 +----
 src/opc/refs.rs        |  17 +----
 src/oxml/repair.rs     |   6 +-
 5 files changed, 145 insertions(+), 36 deletions(-)

diff --git a/src/core/mod.rs b/src/core/mod.rs
index 2e3b90f..eac1f2b 100644
--- a/src/core/mod.rs
+++ b/src/core/mod.rs
@@ -19,6 +19,7 @@ pub use package_validation::{
 pub use placement::ElementPlacement;
 pub use powerpoint_compat::{validate_powerpoint_structure, CompatReport};
 pub use traits::{Positioned, Sized as ElementSized, ToXml};
+pub(crate) use validation::tag_length;
 pub use validation::{
     check_required_parts, check_required_parts_with_descriptions, clamp_ratio,
     clamp_unit_interval, validate_index, validate_non_empty, validate_non_empty_str,
diff --git a/src/core/validation.rs b/src/core/validation.rs
index 4fdf2bc..223887c 100644
--- a/src/core/validation.rs
+++ b/src/core/validation.rs
@@ -100,17 +100,148 @@ pub fn validate_positive(value: u32, field: &str) -> Result<()> {
 
 /// Well-formedness check for XML / RELS content.
 pub fn validate_well_formed_xml(xml: &str) -> Result<()> {
-    let trimmed = xml.trim();
-    if trimmed.is_empty() {
+    if xml.trim().is_empty() {
         return Err(PptxError::InvalidXml(messages::empty_xml_content()));
     }
 
-    for event in xml::EventReader::from_str(trimmed) {
-        if let Err(e) = event {
-            return Err(PptxError::InvalidXml(e.to_string()));
+    check_well_formed(xml.trim_start_matches('\u{feff}')).map_err(PptxError::InvalidXml)
+}
+
+fn check_well_formed(xml: &str) -> std::result::Result<(), String> {
+    if let Some(c) = xml.chars().find(|&c| c < ' ' && !matches!(c, '\t' | '\n' | '\r')) {
+        return Err(format!("Character {:#x} is not allowed", c as u32));
+    }
+
+    let mut open: Vec<&str> = Vec::new();
+    let mut has_root = false;
+    let mut rest = xml;
+    while !rest.is_empty() {
+        let until = |end: &str| {
+            let found = rest.find(end).map(|pos| pos + end.len());
+            found.ok_or_else(|| format!("Missing {end}"))
+        };
+        let length = if !rest.starts_with('<') {
+            let text = &rest[..rest.find('<').unwrap_or(rest.len())];
+            if open.is_empty() && !text.trim().is_empty() {
+                return Err("Text outside of the root element".to_string());
+            }
+            check_entities(text)?;
+            text.len()
+        } else if rest.starts_with("<!--") {
+            until("-->")?
+        } else if rest.starts_with("<![CDATA[") && !open.is_empty() {
+            until("]]>")?
+        } else if rest.starts_with("<?") {
+            if rest.starts_with("<?xml ") && rest.len() < xml.len() {
+                return Err("XML declaration after the start".to_string());
+            }
+            until("?>")?
+        } else if rest.starts_with("<!DOCTYPE") && !has_root {
+            until(">")?
+        } else {
+            let length = tag_length(rest).ok_or("Unclosed tag")?;
+            let tag = &rest[1..length - 1];
+            if let Some(name) = tag.strip_prefix('/') {
+                let name = name.trim_end();
+                if open.pop() != Some(name) {
+                    return Err(format!("Unexpected closing tag </{name}>"));
+                }
+            } else {
+                if open.is_empty() && has_root {
+                    return Err("More than one root element".to_string());
+                }
+                has_root = true;
+                let body = tag.strip_suffix('/').unwrap_or(tag);
+                let name = &body[..body.find(char::is_whitespace).unwrap_or(body.len())];
+                check_name(name)?;
+                check_attributes(&body[name.len()..])?;
+                if body.len() == tag.len() {
+                    open.push(name);
+                }
+            }
+            length
+        };
+        rest = &rest[length..];
+    }
+
+    match open.last() {
+        Some(name) => Err(format!("Element <{name}> is not closed")),
+        None if !has_root => Err("No root element".to_string()),
+        None => Ok(()),
+    }
+}
+
+/// Length of the tag that the text starts with.
+pub(crate) fn tag_length(text: &str) -> Option<usize> {
+    let mut quote = None;
+    for (pos, c) in text.bytes().enumerate() {
+        match quote {
+            Some(q) if q == c => quote = None,
+            Some(_) => {}
+            None if c == b'"' || c == b'\'' => quote = Some(c),
+            None if c == b'>' => return Some(pos + 1),
+            None => {}
         }
     }
+    None
+}
 
+fn check_name(name: &str) -> std::result::Result<(), String> {
+    let starts_well = name.starts_with(|c: char| c.is_alphabetic() || c == '_');
+    if !starts_well || !name.chars().all(|c| c.is_alphanumeric() || "_:.-".contains(c)) {
+        return Err(format!("Invalid name '{name}'"));
+    }
+    Ok(())
+}
+
+fn check_attributes(tag: &str) -> std::result::Result<(), String> {
+    let mut names: Vec<&str> = Vec::new();
+    let mut rest = tag;
+    while !rest.trim_start().is_empty() {
+        if !rest.starts_with(char::is_whitespace) {
+            return Err("Missing space before an attribute".to_string());
+        }
+        let (name, value) = rest.split_once('=').ok_or("Attribute without a value")?;
+        let name = name.trim();
+        check_name(name)?;
+        if names.contains(&name) {
+            return Err(format!("Attribute '{name}' is given twice"));
+        }
+        names.push(name);
+        let value = value.trim_start();
+        let quote = value.chars().next().filter(|c| ['"', '\''].contains(c));
+        let (value, after) = quote
+            .and_then(|quote| value[1..].split_once(quote))
+            .ok_or("Attribute value without quotes")?;
+        if value.contains('<') {
+            return Err(format!("Attribute '{name}' contains '<'"));
+        }
+        check_entities(value)?;
+        rest = after;
+    }
+    Ok(())
+}
+
+fn check_entities(text: &str) -> std::result::Result<(), String> {
+    for after in text.split('&').skip(1) {
+        let entity = after.split_once(';').map(|(entity, _)| entity);
+        let code = entity.and_then(|entity| entity.strip_prefix('#')).map(|code| {
+            match code.strip_prefix('x') {
+                Some(digits) => u32::from_str_radix(digits, 16),
+                None => code.parse(),
+            }
+        });
+        let valid = match (entity, code) {
+            (Some(entity), Some(code)) => !entity.contains('+') && code.is_ok_and(|code| {
+                matches!(code, 0x9 | 0xA | 0xD) || (code >= 0x20 && char::from_u32(code).is_some())
+            }),
+            (Some(entity), None) => matches!(entity, "amp" | "lt" | "gt" | "quot" | "apos"),
+            (None, _) => false,
+        };
+        if !valid {
+            return Err("Invalid entity reference".to_string());
+        }
+    }
     Ok(())
 }
 
diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 4eb0f37..4a282b9 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -8,6 +8,7 @@
 
 use super::refs::{references, remove_parts};
 use super::Package;
+use crate::core::tag_length;
 use crate::exc::Result;
 use std::collections::HashSet;
 use std::path::Path;
@@ -428,21 +429,6 @@ fn minimize_xml(xml: &str) -> String {
     result
 }
 
-/// Length of the tag that the text starts with
-fn tag_length(text: &str) -> Option<usize> {
-    let mut quote = None;
-    for (pos, c) in text.char_indices() {
-        match quote {
-            Some(q) if q == c => quote = None,
-            Some(_) => {}
-            None if c == '"' || c == '\'' => quote = Some(c),
-            None if c == '>' => return Some(pos + 1),
-            None => {}
-        }
-    }
-    None
-}
-
 /// Analyze PPTX file and return size breakdown
 pub fn analyze_pptx<P: AsRef<Path>>(path: P) -> Result<PptxAnalysis> {
     let package = Package::open(path.as_ref())?;
diff --git a/src/opc/refs.rs b/src/opc/refs.rs
index 2176526..07466d5 100644
--- a/src/opc/refs.rs
+++ b/src/opc/refs.rs
@@ -1,6 +1,7 @@
 //! References between the parts of a package: relationships and content types
 
 use super::Package;
+use crate::core::tag_length;
 use std::ops::Range;
 
 const CONTENT_TYPES: &str = "[Content_Types].xml";
@@ -262,21 +263,7 @@ pub(crate) fn elements(xml: &str, name: &str) -> Vec<(usize, usize, Vec<(String,
         if !xml[from..].starts_with([' ', '\t', '\r', '\n', '/']) {
             continue;
         }
-        let mut quote = None;
-        let Some(tag_end) = xml[from..].char_indices().find_map(|(pos, c)| match (quote, c) {
-            (Some(q), _) => {
-                if q == c {
-                    quote = None;
-                }
-                None
-            }
-            (None, '"' | '\'') => {
-                quote = Some(c);
-                None
-            }
-            (None, '>') => Some(from + pos + 1),
-            _ => None,
-        }) else {
+        let Some(tag_end) = tag_length(&xml[from..]).map(|length| from + length) else {
             break;
         };
         let end = if xml[..tag_end].ends_with("/>") {
diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 8b59230..4d745d4 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -746,7 +746,11 @@ impl PptxRepair {
 
         // Add defaults for the extensions and overrides for the parts that need one
         let mut extensions = vec!["rels".to_string(), "xml".to_string()];
-        for path in self.parts_where(|p| p != CONTENT_TYPES && !p.ends_with(".rels")) {
+        let mut paths = self.parts_where(|p| p != CONTENT_TYPES && !p.ends_with(".rels"));
+        if !self.package.has_part(PRESENTATION) {
+            paths.push(PRESENTATION.to_string());
+        }
+        for path in paths {
             let ct = self.infer_content_type(&path);
             let name = path.rsplit('/').next().unwrap_or(&path);
             let extension = name.rsplit_once('.').map(|(_, e)| e.to_ascii_lowercase());
-- 
2.43.0


From 3a4f9eddccbd40b0cd8c2e400d9df799667ae65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:28 +0000
Subject: [PATCH 059/108] fix: repairing a presentation dropped relationships
 to parts it had just restored, and its fonts

---
 src/oxml/repair.rs | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/src/oxml/repair.rs b/src/oxml/repair.rs
index 4d745d4..96a5c02 100644
--- a/src/oxml/repair.rs
+++ b/src/oxml/repair.rs
@@ -383,6 +383,28 @@ impl PptxRepair {
             .collect()
     }
 
+    /// Relationship ids of the embedded fonts, and what the file of each is called by default.
+    fn font_references(&self) -> Vec<(String, String)> {
+        let xml = self.part_string(PRESENTATION);
+        let faces: Vec<(usize, String)> = elements(&xml, "p:font")
+            .into_iter()
+            .filter_map(|(start, _, attributes)| {
+                let (_, face) = attributes.into_iter().find(|(name, _)| name == "typeface")?;
+                Some((start, face.replace(' ', "")))
+            })
+            .collect();
+        let mut found = Vec::new();
+        for style in ["regular", "bold", "italic", "boldItalic"] {
+            for (range, id) in self.presentation_references(&format!("p:{style}")) {
+                let face = faces.iter().rev().find(|(start, _)| *start < range.start);
+                let face = face.map_or("", |(_, face)| face.as_str());
+                found.push((range.start, id, format!("{face}-{style}.fntdata")));
+            }
+        }
+        found.sort();
+        found.into_iter().map(|(_, id, file)| (id, file)).collect()
+    }
+
     fn slide_parts(&self) -> Vec<String> {
         self.parts_where(|p| {
             p.starts_with("ppt/slides/slide") && p.ends_with(".xml") && !p.contains("_rels")
@@ -574,6 +596,10 @@ impl PptxRepair {
 
     /// Remove the relationships of a part that lead to the target, and the slides they stand for.
     fn remove_relationships(&mut self, source: &str, target: &str) -> Result<()> {
+        // The part may have been added in the meantime
+        if self.package.has_part(target) {
+            return Ok(());
+        }
         let mut xml = self.part_string(source);
         let mut removed = false;
         for relationship in self.relationships(source).into_iter().rev() {
@@ -592,6 +618,8 @@ impl PptxRepair {
     }
 
     fn repair_missing_slide_reference(&mut self, slide_path: &str) -> Result<()> {
+        self.remove_unresolved_slides();
+
         // Add the slide to presentation.xml.rels unless it is there
         let known = self
             .slide_relationships()
@@ -844,12 +872,21 @@ impl PptxRepair {
     fn generate_presentation_rels(&self) -> String {
         let mut relationships = Relationships::default();
         let mut free = Vec::new();
+        let mut fonts = self.parts_where(|p| p.starts_with("ppt/fonts/") && !p.ends_with(".rels"));
+        for (id, file) in self.font_references() {
+            let found = fonts.iter().position(|p| p.rsplit('/').next() == Some(file.as_str()));
+            if !fonts.is_empty() {
+                let path = fonts.remove(found.unwrap_or(0));
+                let target = path.strip_prefix("ppt/").unwrap_or(&path);
+                relationships.add(id, &relationship_type("font"), target);
+            }
+        }
+        free.extend(fonts.iter().map(|p| ("font", p.strip_prefix("ppt/").unwrap_or(p).to_string())));
         for (kind, element, dir) in [
             ("slideMaster", "p:sldMasterId", "slideMasters/slideMaster"),
             ("slide", "p:sldId", "slides/slide"),
             ("notesMaster", "p:notesMasterId", "notesMasters/notesMaster"),
             ("handoutMaster", "p:handoutMasterId", "handoutMasters/handoutMaster"),
-            ("font", "p:regular", "fonts/font"),
             ("presProps", "", "presProps.xml"),
             ("viewProps", "", "viewProps.xml"),
             ("theme", "", "theme/theme1.xml"),
-- 
2.43.0


From 43bd99db8cd4df0c9e99843f3c251bb6d948c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:40 +0000
Subject: [PATCH 060/108] fix: compression removed media that is referred to in
 another case

---
 src/opc/compress.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/opc/compress.rs b/src/opc/compress.rs
index 4a282b9..362e217 100644
--- a/src/opc/compress.rs
+++ b/src/opc/compress.rs
@@ -285,14 +285,17 @@ fn remove_unused_media(package: &mut Package) -> Result<usize> {
     for path in package.part_paths() {
         if path.ends_with(".rels")
             && let Some(xml) = package.get_part_string(path) {
-                referenced.extend(references(path, &xml).into_iter().filter_map(|r| r.part));
+                // Part names are the same in any case
+                let parts = references(path, &xml).into_iter().filter_map(|r| r.part);
+                referenced.extend(parts.map(|part| part.to_ascii_lowercase()));
             }
     }
 
     let unused: Vec<String> = package
         .part_paths()
         .into_iter()
-        .filter(|p| p.starts_with("ppt/media/") && !p.ends_with(".rels") && !referenced.contains(*p))
+        .filter(|p| p.starts_with("ppt/media/") && !p.ends_with(".rels"))
+        .filter(|p| !referenced.contains(&p.to_ascii_lowercase()))
         .map(|s| s.to_string())
         .collect();
 
-- 
2.43.0


From 1e3766e2b71a7f402b2a482744596eb5099e1e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:10:03 +0000
Subject: [PATCH 061/108] fix: code blocks without syntax highlighting were not
 paragraphs of text

Without the cli feature their code stood in a bare a:t in the text body, with quotes that the
package validation took for references.
---
 src/generator/slide_xml/content.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index b038376..eb08a7e 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -101,12 +101,15 @@ fn generate_code_block(
 
     #[cfg(not(feature = "syntect"))]
     let highlighted_xml = {
-        // Fallback to basic XML without syntax highlighting
-        let escaped_code = code_block.code
-            .replace('&', "&amp;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        format!("<a:t>{}</a:t>", escaped_code)
+        // Fallback to paragraphs of plain text without syntax highlighting
+        let mut xml = String::new();
+        for line in code_block.code.lines() {
+            let text = if line.is_empty() { " ".to_string() } else { crate::core::escape_xml(line) };
+            xml.push_str(&format!(
+                r#"<a:p><a:pPr algn="l"/><a:r><a:rPr lang="en-US" sz="1400" dirty="0"><a:solidFill><a:srgbClr val="839496"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr><a:t>{text}</a:t></a:r></a:p>"#
+            ));
+        }
+        xml
     };
 
     let x = code_block.x;
-- 
2.43.0


From 959b7f09c40fc4ce5054cd3057b2364096af6f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:15:55 +0000
Subject: [PATCH 062/108] fix: package validation overlooked lost content types
 and unreadable parts, and took some valid packages for broken

Relationships were only read with Id before Target, in double quotes; content types by
substring, so that a part passed if any longer path was declared or its extension had
the general XML type; a font named like a part of the package passed for that part.
---
 src/core/package_validation/context.rs | 66 +++++-------------
 src/core/package_validation/rules.rs   | 94 ++++++++++----------------
 2 files changed, 54 insertions(+), 106 deletions(-)

diff --git a/src/core/package_validation/context.rs b/src/core/package_validation/context.rs
index b2e21f0..1e54357 100644
--- a/src/core/package_validation/context.rs
+++ b/src/core/package_validation/context.rs
@@ -5,6 +5,8 @@ use std::io::{Read, Seek};
 
 use zip::ZipArchive;
 
+use crate::opc::refs::elements;
+
 use super::rels::{rels_source_dir, resolve_rel_target};
 use super::report::{PackageValidationIssue, ValidationCategory};
 
@@ -115,52 +117,20 @@ impl PackageContext {
 
 fn parse_relationships(rels_xml: &str, base_dir: &str) -> Vec<Relationship> {
     // base_dir is the directory of the relationship source part
-    let mut relationships = Vec::new();
-    let mut search_from = 0;
-
-    while let Some(id_start) = rels_xml[search_from..].find("Id=\"") {
-        let abs_id = search_from + id_start + 4;
-        let Some(id_end) = rels_xml[abs_id..].find('"') else {
-            break;
-        };
-        let id = rels_xml[abs_id..abs_id + id_end].to_string();
-
-        let target_needle = "Target=\"";
-        let after_id = abs_id + id_end;
-        let Some(target_start) = rels_xml[after_id..].find(target_needle) else {
-            search_from = after_id;
-            continue;
-        };
-        let abs_target = after_id + target_start + target_needle.len();
-        let Some(target_end) = rels_xml[abs_target..].find('"') else {
-            break;
-        };
-        let target = rels_xml[abs_target..abs_target + target_end].to_string();
-
-        // Scope the `TargetMode` lookup to the remainder of this element so the
-        // attribute of a later relationship is never mis-attributed.
-        let element_tail_end = rels_xml[abs_target + target_end..]
-            .find('>')
-            .map(|p| abs_target + target_end + p)
-            .unwrap_or(rels_xml.len());
-        let element_tail = &rels_xml[abs_target + target_end..element_tail_end];
-        let target_mode = if element_tail.contains("TargetMode=\"External\"") {
-            "External".to_string()
-        } else {
-            String::new()
-        };
-
-        let resolved = resolve_rel_target(base_dir, &target);
-
-        relationships.push(Relationship {
-            id,
-            target,
-            resolved,
-            target_mode,
-        });
-
-        search_from = element_tail_end;
-    }
-
-    relationships
+    elements(rels_xml, "Relationship")
+        .into_iter()
+        .map(|(_, _, attributes)| {
+            let value = |name: &str| {
+                let found = attributes.iter().find(|(n, _)| n == name);
+                found.map(|(_, v)| v.clone()).unwrap_or_default()
+            };
+            let target = value("Target");
+            Relationship {
+                id: value("Id"),
+                resolved: resolve_rel_target(base_dir, &target),
+                target,
+                target_mode: value("TargetMode"),
+            }
+        })
+        .collect()
 }
diff --git a/src/core/package_validation/rules.rs b/src/core/package_validation/rules.rs
index ff87f65..36f585a 100644
--- a/src/core/package_validation/rules.rs
+++ b/src/core/package_validation/rules.rs
@@ -7,6 +7,7 @@ use zip::ZipArchive;
 
 use crate::core::validation::validate_well_formed_xml;
 use crate::generator::package_xml::{first_slide_rel_id, slide_id_value};
+use crate::opc::refs::{elements, ContentTypes};
 
 use super::context::PackageContext;
 use super::report::{
@@ -93,14 +94,21 @@ fn check_xml_parts<R: Read + Seek>(
         .collect();
 
     for path in xml_parts {
-        if let Some(content) = ctx.read_part(archive, &path)
-            && let Err(e) = validate_well_formed_xml(&content) {
-                report.push(PackageValidationIssue::error(
-                    ValidationCategory::Xml,
-                    e.to_string(),
-                    Some(&path),
-                ));
-            }
+        let Some(content) = ctx.read_part(archive, &path) else {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Xml,
+                format!("Cannot read {path} as UTF-8 text"),
+                Some(&path),
+            ));
+            continue;
+        };
+        if let Err(e) = validate_well_formed_xml(&content) {
+            report.push(PackageValidationIssue::error(
+                ValidationCategory::Xml,
+                e.to_string(),
+                Some(&path),
+            ));
+        }
     }
 }
 
@@ -135,23 +143,17 @@ fn check_content_types<R: Read + Seek>(
         return;
     };
 
+    let types = ContentTypes::parse(&ct);
+
     for path in &ctx.names {
-        if path.ends_with(".rels") || path == "[Content_Types].xml" {
-            continue;
-        }
-        let override_path = format!("/{path}");
-        if ct.contains(&override_path) {
+        if path == "[Content_Types].xml" || types.covers(path) {
             continue;
         }
-        let ext = path.rsplit('.').next().unwrap_or("");
-        let default_needle = format!("Extension=\"{ext}\"");
-        if ext.is_empty() || !ct.contains(&default_needle) {
-            report.push(PackageValidationIssue::error(
-                ValidationCategory::ContentType,
-                format!("Part {path} has no Override or Default in [Content_Types].xml"),
-                Some(path),
-            ));
-        }
+        report.push(PackageValidationIssue::error(
+            ValidationCategory::ContentType,
+            format!("Part {path} has no Override or Default in [Content_Types].xml"),
+            Some(path),
+        ));
     }
 }
 
@@ -233,13 +235,7 @@ fn validate_presentation_rel_order(
     pres_rels: &[super::context::Relationship],
     report: &mut PackageValidationReport,
 ) {
-    let rels_xml = pres_rels
-        .iter()
-        .map(|r| format!("Id=\"{}\" Target=\"{}\"", r.id, r.target))
-        .collect::<Vec<_>>()
-        .join(" ");
-
-    if !rels_xml.contains("Id=\"rId1\"") || !rels_xml.contains("slideMaster") {
+    if !pres_rels.iter().any(|r| r.id == "rId1" && r.resolved.starts_with("ppt/slideMasters/")) {
         report.push(PackageValidationIssue::error(
             ValidationCategory::Relationship,
             "presentation.xml.rels missing rId1 (slideMaster)",
@@ -247,9 +243,10 @@ fn validate_presentation_rel_order(
         ));
     }
 
-    let slide_pos = rels_xml.find("slides/slide");
-    let pres_props_pos = rels_xml.find("presProps");
-    if let (Some(s), Some(p)) = (slide_pos, pres_props_pos)
+    let position = |part: &str| pres_rels.iter().position(|r| r.resolved == part);
+
+    let slide_pos = pres_rels.iter().position(|r| is_slide_part(&r.resolved));
+    if let (Some(s), Some(p)) = (slide_pos, position("ppt/presProps.xml"))
         && s > p {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::Relationship,
@@ -258,9 +255,7 @@ fn validate_presentation_rel_order(
             ));
         }
 
-    let table_pos = rels_xml.find("tableStyles");
-    let theme_pos = rels_xml.find("theme/theme1");
-    if let (Some(t), Some(tb)) = (theme_pos, table_pos)
+    if let (Some(t), Some(tb)) = (position("ppt/theme/theme1.xml"), position("ppt/tableStyles.xml"))
         && t > tb {
             report.push(PackageValidationIssue::error(
                 ValidationCategory::Relationship,
@@ -572,29 +567,12 @@ fn is_slide_part(path: &str) -> bool {
 
 /// Extract `attr="value"` from elements like `<p:sldId id="256" r:id="rId6"/>`.
 fn extract_attr_values(xml: &str, element: &str, attr: &str) -> Vec<String> {
-    let mut values = Vec::new();
-    let needle = format!("<{element}");
-    let attr_needle = format!("{attr}=\"");
-    let mut search_from = 0;
-
-    while let Some(start) = xml[search_from..].find(&needle) {
-        let abs = search_from + start;
-        let end = xml[abs..]
-            .find("/>")
-            .or_else(|| xml[abs..].find("</"))
-            .map(|i| abs + i)
-            .unwrap_or(xml.len());
-        let slice = &xml[abs..end];
-        if let Some(attr_start) = slice.find(&attr_needle) {
-            let val_start = attr_start + attr_needle.len();
-            if let Some(val_end) = slice[val_start..].find('"') {
-                values.push(slice[val_start..val_start + val_end].to_string());
-            }
-        }
-        search_from = end;
-    }
-
-    values
+    elements(xml, element)
+        .into_iter()
+        .flat_map(|(_, _, attributes)| attributes)
+        .filter(|(name, _)| name == attr)
+        .map(|(_, value)| value)
+        .collect()
 }
 
 /// Collect `r:embed` and chart-style `r:id` references from slide XML.
-- 
2.43.0


From 91d1d4965ed98e29b6f89c2b76efe9cf57d101e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:39 +0000
Subject: [PATCH 063/108] fix: ink annotations without strokes were written as
 an empty part

---
 src/generator/slide_content/ink_annotations.rs | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/generator/slide_content/ink_annotations.rs b/src/generator/slide_content/ink_annotations.rs
index 3aa34ca..318e3c4 100644
--- a/src/generator/slide_content/ink_annotations.rs
+++ b/src/generator/slide_content/ink_annotations.rs
@@ -181,10 +181,6 @@ impl InkAnnotations {
 
     /// Generate the standalone ink part XML (`ppt/ink/inkN.xml`).
     pub fn part_xml(&self) -> String {
-        if self.strokes.is_empty() {
-            return String::new();
-        }
-
         let mut xml = String::from(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <ink:ink xmlns:ink="http://www.w3.org/2003/InkML">"#,
-- 
2.43.0


From 3b7e8be14124f1ac65daf77c76fc82bcdd53f8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:32:15 +0000
Subject: [PATCH 064/108] fix: HTML export wrote titles, bullets and names
 unescaped and tables as a placeholder

---
 src/export/html.rs | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/src/export/html.rs b/src/export/html.rs
index 8aad9a2..cc9aba2 100644
--- a/src/export/html.rs
+++ b/src/export/html.rs
@@ -69,7 +69,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
     html.push_str("<!DOCTYPE html>\n<html>\n<head>\n");
     html.push_str("<meta charset=\"UTF-8\">\n");
     html.push_str("<meta name=\"viewport\" content=\"width=device-width, initial-scale=1.0\">\n");
-    html.push_str(&format!("<title>{}</title>\n", presentation.get_title()));
+    html.push_str(&format!("<title>{}</title>\n", escape_html(presentation.get_title())));
 
     // Enhanced CSS
     html.push_str("<style>\n");
@@ -97,7 +97,7 @@ pub fn export_to_html_with_options(presentation: &Presentation, options: &HtmlEx
 
     // Title Slide (Presentation Title)
     html.push_str("<div class=\"slide title-slide\" data-slide=\"0\">\n");
-    html.push_str(&format!("<h1>{}</h1>\n", presentation.get_title()));
+    html.push_str(&format!("<h1>{}</h1>\n", escape_html(presentation.get_title())));
     html.push_str("</div>\n");
 
     // Slides
@@ -128,7 +128,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     html.push_str(&format!("<div class=\"slide-number\">{}</div>\n", index));
 
     // Title
-    html.push_str(&format!("<h2>{}</h2>\n", slide.title));
+    html.push_str(&format!("<h2>{}</h2>\n", escape_html(&slide.title)));
 
     // Content Container
     html.push_str("<div class=\"content\">\n");
@@ -137,7 +137,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     if !slide.content.is_empty() {
         html.push_str("<ul>\n");
         for item in &slide.content {
-            html.push_str(&format!("<li>{}</li>\n", item));
+            html.push_str(&format!("<li>{}</li>\n", escape_html(item)));
         }
         html.push_str("</ul>\n");
     }
@@ -157,7 +157,7 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
     // Code Blocks
     for code in &slide.code_blocks {
         if options.syntax_highlight {
-            html.push_str(&format!("<pre><code class=\"language-{}\">", code.language));
+            html.push_str(&format!("<pre><code class=\"language-{}\">", escape_html(&code.language)));
         } else {
             html.push_str("<pre><code>");
         }
@@ -178,16 +178,27 @@ fn render_slide_with_options(slide: &SlideContent, index: usize, options: &HtmlE
 }
 
 /// Render a table as HTML
-fn render_table_html(_table: &crate::generator::Table) -> String {
+fn render_table_html(table: &crate::generator::Table) -> String {
     let mut html = String::new();
     html.push_str("<table class=\"ppt-table\">\n");
-
-    // Render rows (assuming table has row data structure)
-    // This is a simplified version - you may need to adapt based on actual Table structure
     html.push_str("<tbody>\n");
-    html.push_str("<tr><td>Table content</td></tr>\n"); // Placeholder
-    html.push_str("</tbody>\n");
 
+    for row in &table.rows {
+        html.push_str("<tr>");
+        // Cells that another one spans have no element of their own.
+        for cell in row.cells.iter().filter(|c| !c.h_merge && !c.v_merge) {
+            html.push_str("<td");
+            for (name, span) in [("colspan", cell.grid_span), ("rowspan", cell.row_span)] {
+                if let Some(span) = span {
+                    html.push_str(&format!(" {name}=\"{span}\""));
+                }
+            }
+            html.push_str(&format!(">{}</td>", escape_html(&cell.text)));
+        }
+        html.push_str("</tr>\n");
+    }
+
+    html.push_str("</tbody>\n");
     html.push_str("</table>\n");
     html
 }
@@ -222,14 +233,14 @@ fn render_image_with_options(image: &Image, options: &HtmlExportOptions) -> Opti
 
         Some(format!(
             "<div class=\"image-container\"><img src=\"{}\" alt=\"{}\" /></div>\n",
-            filepath, image.filename
+            escape_html(&filepath), escape_html(&image.filename)
         ))
     } else {
         // Use base64 encoding
         let b64 = base64_encode(&bytes);
         Some(format!(
             "<div class=\"image-container\"><img src=\"data:{};base64,{}\" alt=\"{}\" /></div>\n",
-            mime, b64, image.filename
+            mime, b64, escape_html(&image.filename)
         ))
     }
 }
-- 
2.43.0


From c8ec616a485e2db73d65cecbd19a719adde37e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:41:00 +0000
Subject: [PATCH 065/108] fix: Markdown export let texts become markup and
 wrote broken front matter, picture names and code fences

---
 src/export/md.rs | 114 ++++++++++++++++++++++++++++++-----------------
 1 file changed, 74 insertions(+), 40 deletions(-)

diff --git a/src/export/md.rs b/src/export/md.rs
index b5f802b..7b0f434 100644
--- a/src/export/md.rs
+++ b/src/export/md.rs
@@ -94,14 +94,14 @@ pub fn export_to_markdown_with_options(
     // YAML frontmatter
     if options.include_frontmatter {
         md.push_str("---\n");
-        md.push_str(&format!("title: \"{}\"\n", escape_yaml(presentation.get_title())));
+        md.push_str(&format!("title: {}\n", escape_yaml(presentation.get_title())));
         md.push_str(&format!("slides: {}\n", presentation.slide_count()));
         md.push_str("generator: ppt-rs\n");
         md.push_str("---\n\n");
     }
 
     // Presentation title as main heading
-    md.push_str(&format!("# {}\n\n", presentation.get_title()));
+    md.push_str(&format!("# {}\n\n", escape_markdown(presentation.get_title())));
 
     // Export each slide
     for (i, slide) in presentation.slides().iter().enumerate() {
@@ -140,11 +140,11 @@ pub fn export_to_markdown_with_options(
                 let alt_text = format!("Image {} on slide {}", img_idx + 1, slide_num);
                 // Note: Actual image data would need to be saved separately
                 md.push_str(&format!(
-                    "![{}](images/slide{}_image{}{})\n\n",
+                    "![{}](images/slide{}_image{}.{})\n\n",
                     alt_text,
                     slide_num,
                     img_idx + 1,
-                    image.format.to_lowercase().replace("jpeg", ".jpg").replace("png", ".png")
+                    image.format.to_lowercase().replace("jpeg", "jpg")
                 ));
             }
         }
@@ -152,9 +152,12 @@ pub fn export_to_markdown_with_options(
         // Code blocks
         if !slide.code_blocks.is_empty() {
             for code_block in &slide.code_blocks {
+                // The fence has to be longer than any run of backticks in the code.
+                let longest = code_block.code.split(|c| c != '`').map(str::len).max().unwrap_or(0);
                 md.push_str(&format!(
-                    "```{lang}\n{code}\n```\n\n",
-                    lang = &code_block.language,
+                    "{fence}{lang}\n{code}\n{fence}\n\n",
+                    fence = "`".repeat(3.max(longest + 1)),
+                    lang = code_block.language.replace(['`', '\r', '\n'], ""),
                     code = &code_block.code
                 ));
             }
@@ -177,29 +180,26 @@ pub fn export_to_markdown_with_options(
 fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     let mut md = String::new();
 
-    // Header row
-    if let Some(first_row) = table.rows.first() {
+    // GFM drops the cells of a row that go beyond the header row.
+    let columns = table.rows.iter().map(|row| row.cells.len()).max().unwrap_or(0);
+    if columns == 0 {
+        return md;
+    }
+
+    for (i, row) in table.rows.iter().enumerate() {
         md.push_str("| ");
-        for cell in &first_row.cells {
-            md.push_str(&escape_markdown(&cell.text));
+        for c in 0..columns {
+            if let Some(cell) = row.cells.get(c) {
+                md.push_str(&escape_markdown(&cell.text));
+            }
             md.push_str(" | ");
         }
         md.push('\n');
 
-        // Separator
-        md.push('|');
-        for _ in &first_row.cells {
-            md.push_str(" --- |");
-        }
-        md.push('\n');
-
-        // Data rows
-        for row in table.rows.iter().skip(1) {
-            md.push_str("| ");
-            for cell in &row.cells {
-                md.push_str(&escape_markdown(&cell.text));
-                md.push_str(" | ");
-            }
+        // Separator below the header row
+        if i == 0 {
+            md.push('|');
+            md.push_str(&" --- |".repeat(columns));
             md.push('\n');
         }
     }
@@ -207,27 +207,61 @@ fn export_table_to_gfm(table: &crate::generator::Table) -> String {
     md
 }
 
-/// Escape special Markdown characters
+/// Escape special Markdown characters, so that the text is shown as it is on a single line
 fn escape_markdown(text: &str) -> String {
-    text.replace('\\', "\\\\")
-        .replace('*', "\\*")
-        .replace('_', "\\_")
-        .replace('[', "\\[")
-        .replace(']', "\\]")
-        .replace('`', "\\`")
-        .replace('#', "\\#")
-        .replace('<', "\\<")
-        .replace('>', "\\>")
+    // Blanks at the ends are not shown, but could make an indented code block
+    let text = text.trim_matches([' ', '\t']);
+    let mut out = String::with_capacity(text.len());
+
+    // A list marker
+    let digits = text.len() - text.trim_start_matches(|c: char| c.is_ascii_digit()).len();
+    let marker = match text[digits..].chars().next() {
+        Some('.' | ')') if digits > 0 => Some(digits),
+        Some('-' | '+') if digits == 0 => Some(0),
+        _ => None,
+    };
+
+    let mut chars = text.char_indices().peekable();
+    while let Some((i, c)) = chars.next() {
+        let next = chars.peek().map(|&(_, c)| c);
+        match c {
+            '\\' | '*' | '_' | '[' | ']' | '`' | '#' | '<' | '>' | '|' | '~' => out.push('\\'),
+            '&' if next.is_some_and(|c| c == '#' || c.is_ascii_alphabetic()) => out.push('\\'),
+            _ if marker == Some(i) => out.push('\\'),
+            _ => {}
+        }
+        match c {
+            '\r' if next == Some('\n') => {}
+            '\r' | '\n' => out.push_str("<br>"),
+            _ => out.push(c),
+        }
+    }
+    out
 }
 
-/// Escape special YAML characters in frontmatter
+/// Write a text as a YAML scalar in frontmatter
 fn escape_yaml(text: &str) -> String {
-    if text.contains('\n') || text.contains('"') || text.contains('\\') {
-        // Use literal block scalar for multiline or complex strings
-        format!("|\n  {}", text.replace('\n', "\n  "))
-    } else {
-        text.replace('"', "\\\"").replace('\\', "\\\\")
+    let plain = !text.contains(|c: char| c != '\n' && (c.is_control() || matches!(c, '\u{2028}' | '\u{2029}')));
+    if text.contains('\n') && !text.ends_with('\n') && plain {
+        // Use literal block scalar for multiline strings
+        return format!("|2-\n  {}", text.replace('\n', "\n  "));
+    }
+    let mut out = String::from("\"");
+    for c in text.chars() {
+        match c {
+            '"' | '\\' => {
+                out.push('\\');
+                out.push(c);
+            }
+            '\n' => out.push_str("\\n"),
+            '\r' => out.push_str("\\r"),
+            '\t' => out.push_str("\\t"),
+            c if c.is_control() || matches!(c, '\u{2028}' | '\u{2029}') => out.push_str(&format!("\\u{:04X}", c as u32)),
+            c => out.push(c),
+        }
     }
+    out.push('"');
+    out
 }
 
 #[cfg(test)]
-- 
2.43.0


From 1e22e220681c521c60b0ef5d018f53d7190e0993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:55:00 +0000
Subject: [PATCH 066/108] fix: HTML import lost or misplaced text around void,
 unclosed and mismatched tags, in cells, quotes, code and scripts, and let
 bullets exceed their limit

---
 src/import/html.rs | 515 ++++++++++++++++++++++++++-------------------
 1 file changed, 304 insertions(+), 211 deletions(-)

diff --git a/src/import/html.rs b/src/import/html.rs
index c800ef0..4945940 100644
--- a/src/import/html.rs
+++ b/src/import/html.rs
@@ -423,6 +423,14 @@ const VOID_TAGS: &[&str] = &[
 ];
 
 /// Walk through HTML and produce events
+/// Elements whose content is neither markup nor shown
+const RAW_TEXT_TAGS: &[&str] = &["script", "style", "title", "iframe"];
+
+/// Whether markup starts here: a `<` that no tag name, `/`, `!` or `?` follows is text
+fn starts_markup(chars: &[char], i: usize) -> bool {
+    chars[i] == '<' && chars.get(i + 1).is_some_and(|c| c.is_ascii_alphabetic() || matches!(c, '/' | '!' | '?'))
+}
+
 fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut events = Vec::new();
     let chars: Vec<char> = html.chars().collect();
@@ -430,16 +438,13 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
     let mut i = 0;
 
     while i < len {
-        if chars[i] == '<' {
+        if starts_markup(&chars, i) {
             i += 1;
-            if i >= len {
-                break;
-            }
 
             // Comment <!-- ... -->
             if i + 3 <= len && chars[i] == '!' && i + 1 < len && chars[i + 1] == '-' && i + 2 < len && chars[i + 2] == '-' {
-                // skip to -->
-                i += 3;
+                // skip to -->, which may share its dashes with the start
+                i += 1;
                 while i + 2 < len && !(chars[i] == '-' && chars[i + 1] == '-' && chars[i + 2] == '>') {
                     i += 1;
                 }
@@ -447,8 +452,8 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 continue;
             }
 
-            // Doctype/other <!...>
-            if chars[i] == '!' {
+            // Doctype/other <!...> and <?...>
+            if chars[i] == '!' || chars[i] == '?' {
                 while i < len && chars[i] != '>' {
                     i += 1;
                 }
@@ -480,10 +485,6 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
             }
 
             // Opening or self-closing tag
-            // Skip whitespace before tag name
-            while i < len && (chars[i] == ' ' || chars[i] == '\t' || chars[i] == '\n' || chars[i] == '\r') {
-                i += 1;
-            }
             let mut name = String::new();
             while i < len && (chars[i].is_alphanumeric() || chars[i] == '-' || chars[i] == ':' || chars[i] == '_' || chars[i] == '.') {
                 name.push(chars[i]);
@@ -493,6 +494,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
 
             // Parse attributes
             let mut attrs: Vec<(String, String)> = Vec::new();
+            let mut self_closing = false;
 
             while i < len && chars[i] != '>' {
                 // Skip whitespace
@@ -504,6 +506,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 }
                 if chars[i] == '/' {
                     i += 1;
+                    self_closing = chars.get(i) == Some(&'>');
                     continue;
                 }
 
@@ -538,7 +541,7 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                         }
                     } else {
                         // unquoted value
-                        while i < len && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' && chars[i] != '/' {
+                        while i < len && chars[i] != '>' && chars[i] != ' ' && chars[i] != '\t' && chars[i] != '\n' && chars[i] != '\r' {
                             attr_value.push(chars[i]);
                             i += 1;
                         }
@@ -552,20 +555,30 @@ fn tokenize_html(html: &str) -> Vec<HtmlEvent> {
                 i += 1; // skip '>'
             }
 
-            if !tag_name.is_empty() {
-                events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
+            let close = (self_closing && !VOID_TAGS.contains(&tag_name.as_str())).then(|| tag_name.clone());
+            if close.is_none() && RAW_TEXT_TAGS.contains(&tag_name.as_str()) {
+                // skip to the end tag
+                while i < len {
+                    let name = chars.get(i + 2..i + 2 + tag_name.len()).unwrap_or(&[]);
+                    if chars[i] == '<' && chars.get(i + 1) == Some(&'/') && name.iter().collect::<String>().eq_ignore_ascii_case(&tag_name) {
+                        break;
+                    }
+                    i += 1;
+                }
+            }
+
+            events.push(HtmlEvent::OpenTag { name: tag_name, attrs });
+            if let Some(name) = close {
+                events.push(HtmlEvent::CloseTag(name));
             }
         } else {
             // Text content
             let mut text = String::new();
-            while i < len && chars[i] != '<' {
+            while i < len && !starts_markup(&chars, i) {
                 text.push(chars[i]);
                 i += 1;
             }
-            let trimmed = text.trim();
-            if !trimmed.is_empty() {
-                events.push(HtmlEvent::Text(decode_entities(&text)));
-            }
+            events.push(HtmlEvent::Text(decode_entities(&text)));
         }
     }
 
@@ -582,26 +595,51 @@ const SKIP_TAGS: &[&str] = &[
     "title",
 ];
 
+/// Elements that start and end a line of text
+const BLOCK_TAGS: &[&str] = &[
+    "html", "head", "body", "p", "div", "article", "section", "main", "header", "footer", "aside",
+    "address", "figure", "figcaption", "details", "summary", "fieldset", "ul", "ol", "li", "dl",
+    "dt", "dd", "h1", "h2", "h3", "h4", "h5", "h6", "pre", "blockquote", "table", "caption",
+    "thead", "tbody", "tfoot", "tr", "th", "td", "hr",
+];
+
+/// A table whose end tag is still to come
+#[derive(Default)]
+struct OpenTable {
+    rows: Vec<Vec<String>>,
+    row: Vec<String>,
+    cell: Option<String>,
+}
+
+impl OpenTable {
+    fn end_cell(&mut self) {
+        if let Some(cell) = self.cell.take() {
+            self.row.push(cell.trim().to_string());
+        }
+    }
+
+    fn end_row(&mut self) {
+        self.end_cell();
+        if !self.row.is_empty() {
+            self.rows.push(std::mem::take(&mut self.row));
+        }
+    }
+}
+
 struct HtmlSlideParser {
     options: HtmlParseOptions,
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
     text_buffer: String,
-    tag_stack: Vec<String>,
-    style_stack: Vec<InlineStyle>,
-    in_list: bool,
-    in_table: bool,
-    in_code: bool,
-    in_blockquote: bool,
-    italic: bool,
+    /// Open elements with their styles
+    tag_stack: Vec<(String, InlineStyle)>,
+    tables: Vec<OpenTable>,
     list_items: Vec<(String, Option<BulletTextFormat>)>,
-    table_rows: Vec<Vec<String>>,
-    current_row: Vec<String>,
-    current_cell: String,
+    in_code: bool,
+    blockquote_depth: usize,
     code_content: String,
     blockquote_text: String,
     presentation_title: Option<String>,
-    current_href: Option<String>,
 }
 
 impl HtmlSlideParser {
@@ -612,38 +650,28 @@ impl HtmlSlideParser {
             current_slide: None,
             text_buffer: String::new(),
             tag_stack: Vec::new(),
-            style_stack: Vec::new(),
-            in_list: false,
-            in_table: false,
-            in_code: false,
-            in_blockquote: false,
-            italic: false,
+            tables: Vec::new(),
             list_items: Vec::new(),
-            table_rows: Vec::new(),
-            current_row: Vec::new(),
-            current_cell: String::new(),
+            in_code: false,
+            blockquote_depth: 0,
             code_content: String::new(),
             blockquote_text: String::new(),
             presentation_title: None,
-            current_href: None,
         }
     }
 
-    /// Return the current active style (top of the style stack)
     fn active_style(&self) -> Option<&InlineStyle> {
-        self.style_stack.last()
+        self.tag_stack.last().map(|(_, style)| style)
     }
 
     fn parse(&mut self, events: &[HtmlEvent]) -> Result<Vec<SlideContent>, String> {
         for event in events {
             match event {
                 HtmlEvent::OpenTag { name, attrs } => {
-                    self.tag_stack.push(name.clone());
-                    self.handle_open_tag(name, attrs);
+                    self.open_tag(name, attrs);
                 }
                 HtmlEvent::CloseTag(name) => {
-                    self.handle_close_tag(name);
-                    self.tag_stack.pop();
+                    self.close_tag(name);
                 }
                 HtmlEvent::Text(text) => {
                     self.handle_text(text);
@@ -651,6 +679,7 @@ impl HtmlSlideParser {
             }
         }
 
+        self.close_to(0);
         self.finalize_current_slide();
 
         if self.slides.is_empty() {
@@ -665,57 +694,165 @@ impl HtmlSlideParser {
         Ok(std::mem::take(&mut self.slides))
     }
 
-    fn is_inside_skip_tag(&self) -> bool {
-        self.tag_stack.iter().any(|t| SKIP_TAGS.contains(&t.as_str()))
+    fn is_inside(&self, name: &str) -> bool {
+        self.tag_stack.iter().any(|(t, _)| t == name)
     }
 
-    fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
-        if self.is_inside_skip_tag() {
-            return;
+    fn is_inside_skip_tag(&self) -> bool {
+        self.tag_stack.iter().any(|(t, _)| SKIP_TAGS.contains(&t.as_str()))
+    }
+
+    fn open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
+        if !self.is_inside_skip_tag() {
+            // End tags that may be left out
+            match name {
+                "li" => self.close_implied(&["li"], &["ul", "ol"]),
+                "dt" | "dd" => self.close_implied(&["dt", "dd"], &["dl"]),
+                "tr" => self.close_implied(&["tr"], &["table"]),
+                "td" | "th" => self.close_implied(&["td", "th"], &["tr", "table"]),
+                _ => {}
+            }
+            let in_item = matches!(name, "li" | "ul" | "ol") && self.is_inside("li");
+            if BLOCK_TAGS.contains(&name) && !in_item {
+                self.close_implied(&["p"], &["div", "li", "td", "th", "blockquote"]);
+                self.break_line();
+            }
         }
 
-        // Push style for this element (inherits from parent). Skip void tags.
+        // Void tags have no end tag
         if !VOID_TAGS.contains(&name) {
-            let parent = self.style_stack.last().cloned().unwrap_or_default();
+            let parent = self.active_style().cloned().unwrap_or_default();
             let style = if let Some(style_attr) = attrs.iter().find(|(k, _)| k == "style") {
                 parent.merge(&InlineStyle::parse(&style_attr.1))
             } else {
                 parent
             };
-            self.style_stack.push(style);
+            self.tag_stack.push((name.to_string(), style));
+        }
+        self.handle_open_tag(name, attrs);
+    }
+
+    /// Close an open element that has no end tag of its own
+    fn close_implied(&mut self, names: &[&str], within: &[&str]) {
+        for depth in (0..self.tag_stack.len()).rev() {
+            let open = self.tag_stack[depth].0.as_str();
+            if names.contains(&open) {
+                return self.close_to(depth);
+            }
+            if within.contains(&open) {
+                return;
+            }
+        }
+    }
+
+    /// Close the element that an end tag belongs to, if there is one
+    fn close_tag(&mut self, name: &str) {
+        let table_part = matches!(name, "table" | "caption" | "thead" | "tbody" | "tfoot" | "tr" | "th" | "td");
+        for depth in (0..self.tag_stack.len()).rev() {
+            let open = self.tag_stack[depth].0.as_str();
+            if open == name {
+                return self.close_to(depth);
+            }
+            if SKIP_TAGS.contains(&open) || open == "table" || (!table_part && matches!(open, "caption" | "th" | "td")) {
+                return;
+            }
+        }
+    }
+
+    /// Close open elements until only `depth` are left
+    fn close_to(&mut self, depth: usize) {
+        while self.tag_stack.len() > depth {
+            let name = self.tag_stack[self.tag_stack.len() - 1].0.clone();
+            self.handle_close_tag(&name);
+            self.tag_stack.pop();
+        }
+    }
+
+    /// Where text goes that is neither code nor an item of a slide
+    fn nested_text(&mut self) -> Option<&mut String> {
+        match self.tables.iter_mut().rev().find_map(|t| t.cell.as_mut()) {
+            Some(cell) => Some(cell),
+            None if self.blockquote_depth > 0 => Some(&mut self.blockquote_text),
+            None => None,
+        }
+    }
+
+    fn push_text(&mut self, text: &str) {
+        if self.in_code {
+            self.code_content.push_str(text);
+        } else if let Some(nested) = self.nested_text() {
+            nested.push_str(text);
+        } else {
+            self.text_buffer.push_str(text);
+        }
+    }
+
+    /// Emphasis is marked in text, but not in code
+    fn push_mark(&mut self, mark: &str) {
+        if !self.in_code {
+            self.push_text(mark);
+        }
+    }
+
+    /// End the current line of text
+    fn break_line(&mut self) {
+        if self.in_code {
+            return;
+        }
+        self.flush_text_buffer();
+        if let Some(nested) = self.nested_text() {
+            nested.truncate(nested.trim_end().len());
+            if !nested.is_empty() {
+                nested.push('\n');
+            }
+        }
+    }
+
+    fn handle_open_tag(&mut self, name: &str, attrs: &[(String, String)]) {
+        if self.is_inside_skip_tag() {
+            return;
         }
 
         match name {
             "h1" => {
-                self.flush_text_buffer();
-                self.finalize_current_slide();
-            }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
-                self.flush_text_buffer();
+                if self.nested_text().is_none() {
+                    self.finalize_current_slide();
+                }
             }
-            "p" | "div" | "article" | "section" | "main" | "li" => {}
             "pre" => {
-                self.in_code = true;
-                self.code_content.clear();
+                if !self.in_code {
+                    self.in_code = true;
+                    self.code_content.clear();
+                }
             }
             "table" => {
-                self.in_table = true;
-                self.table_rows.clear();
+                self.tables.push(OpenTable::default());
+            }
+            "tr" => {
+                if let Some(table) = self.tables.last_mut() {
+                    table.end_row();
+                }
+            }
+            "th" | "td" => {
+                if let Some(table) = self.tables.last_mut() {
+                    table.end_cell();
+                    table.cell = Some(String::new());
+                }
             }
             "blockquote" => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+                if self.blockquote_depth == 0 {
+                    self.blockquote_text.clear();
+                }
+                self.blockquote_depth += 1;
             }
             "ul" | "ol" => {
-                self.in_list = true;
                 self.list_items.clear();
             }
             "strong" | "b" => {
-                self.text_buffer.push_str("**");
+                self.push_mark("**");
             }
             "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = true;
+                self.push_mark("*");
             }
             "title" => {}
             "img" => {
@@ -741,20 +878,13 @@ impl HtmlSlideParser {
                     }
                 }
             }
-            "a" => {
-                // Handle hyperlinks - just mark that we're inside a link
-                // The actual link text will be handled in text processing
-                if let Some(href) = attrs.iter().find(|(k, _)| k == "href").map(|(_, v)| v.as_str()) {
-                    // Store the current href for later use
-                    self.current_href = Some(href.to_string());
-                }
-            }
             "br" => {
-                self.text_buffer.push('\n');
+                self.push_text("\n");
             }
             "hr" => {
-                self.flush_text_buffer();
-                self.finalize_current_slide();
+                if self.nested_text().is_none() {
+                    self.finalize_current_slide();
+                }
             }
             _ => {}
         }
@@ -766,13 +896,15 @@ impl HtmlSlideParser {
         }
 
         match name {
-            "h1" => {
+            "h1" if self.nested_text().is_none() => {
                 let title = std::mem::take(&mut self.text_buffer).trim().to_string();
                 if self.presentation_title.is_none() && !title.is_empty() {
                     self.presentation_title = Some(title.clone());
                 }
                 let slide_title = if title.is_empty() { "Slide".to_string() } else { title };
-                let mut slide = SlideContent::new(&slide_title);
+                // What the heading itself holds, like an image, is kept
+                let mut slide = self.current_slide.take().unwrap_or_else(|| SlideContent::new(&slide_title));
+                slide.title = slide_title;
                 // Apply title-level styles from active style
                 if let Some(s) = self.active_style() {
                     if let Some(ref c) = s.color { slide = slide.title_color(c); }
@@ -783,77 +915,52 @@ impl HtmlSlideParser {
                 }
                 self.current_slide = Some(slide);
             }
-            "h2" | "h3" | "h4" | "h5" | "h6" => {
+            "h2" | "h3" | "h4" | "h5" | "h6" if self.nested_text().is_none() => {
                 let text = std::mem::take(&mut self.text_buffer).trim().to_string();
                 if !text.is_empty() {
                     self.add_formatted_text(&format!("**{}**", text));
                 }
             }
-            "p" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
-                }
-            }
-            "div" | "article" | "section" | "main" => {
-                let text = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !text.is_empty() {
-                    self.add_paragraph(&text);
-                }
-            }
-            "li" => {
-                let item = std::mem::take(&mut self.text_buffer).trim().to_string();
-                if !item.is_empty() {
-                    let item_style = self.active_style().and_then(|s| s.to_bullet_format());
-                    self.list_items.push((item, item_style));
-                }
-            }
-            "ul" | "ol" => {
-                self.flush_list_items();
-                self.in_list = false;
-            }
             "pre" => {
                 self.in_code = false;
                 self.flush_code_block();
             }
             "table" => {
-                self.in_table = false;
+                self.break_line();
                 self.flush_table();
             }
             "blockquote" => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
+                self.break_line();
+                self.blockquote_depth = self.blockquote_depth.saturating_sub(1);
+                if self.blockquote_depth == 0 {
+                    self.flush_blockquote();
+                }
+            }
+            "ul" | "ol" => {
+                self.break_line();
+                self.flush_list_items();
             }
             "th" | "td" => {
-                let cell = std::mem::take(&mut self.current_cell).trim().to_string();
-                self.current_row.push(cell);
+                if let Some(table) = self.tables.last_mut() {
+                    table.end_cell();
+                }
             }
             "tr" => {
-                if !self.current_row.is_empty() {
-                    self.table_rows.push(std::mem::take(&mut self.current_row));
-                    self.current_row = Vec::new();
+                if let Some(table) = self.tables.last_mut() {
+                    table.end_row();
                 }
             }
             "strong" | "b" => {
-                self.text_buffer.push_str("**");
+                self.push_mark("**");
             }
             "em" | "i" => {
-                self.text_buffer.push('*');
-                self.italic = false;
+                self.push_mark("*");
             }
-            "a" => {
-                // When closing an anchor tag, we have the link text in the buffer
-                // and the href in current_href. For now, we'll just clear the href
-                // since PowerPoint hyperlink support requires more complex XML handling
-                self.current_href = None;
+            _ if BLOCK_TAGS.contains(&name) => {
+                self.break_line();
             }
             _ => {}
         }
-
-        // Pop style stack for non-void tags (mirrors push in handle_open_tag)
-        if !VOID_TAGS.contains(&name) {
-            self.style_stack.pop();
-        }
     }
 
     fn handle_text(&mut self, text: &str) {
@@ -861,110 +968,96 @@ impl HtmlSlideParser {
             return;
         }
 
-        if self.in_code {
-            self.code_content.push_str(text);
-        } else if self.in_table {
-            self.current_cell.push_str(text);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(text);
-        } else {
-            self.text_buffer.push_str(text);
+        // Blanks between elements separate words, but start no line
+        if !self.in_code && text.trim().is_empty() {
+            let before = match self.nested_text() {
+                Some(nested) => nested.chars().last(),
+                None => self.text_buffer.chars().last(),
+            };
+            if before.is_some_and(|c| !c.is_whitespace()) {
+                self.push_text(" ");
+            }
+            return;
         }
+        self.push_text(text);
     }
 
     fn add_formatted_text(&mut self, text: &str) {
+        self.flush_list_items();
         let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-        } else {
-            let mut slide = SlideContent::new("Slide");
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
-            }
-            slide.content.push(text.to_string());
-            slide.bullets.push(bp);
-            self.current_slide = Some(slide);
-        }
+        self.add_bullet(text.to_string(), fmt, "Slide".to_string());
     }
 
     fn add_paragraph(&mut self, text: &str) {
+        self.flush_list_items();
         let fmt = self.active_style().and_then(|s| s.to_bullet_format());
-        if let Some(ref mut slide) = self.current_slide {
-            if slide.content.len() < self.options.max_bullets {
-                let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-                if let Some(ref f) = fmt {
-                    bp = bp.with_format(f.clone());
-                }
-                slide.content.push(text.to_string());
-                slide.bullets.push(bp);
-            }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Overview".to_string());
-            let mut slide = SlideContent::new(&title);
-            let mut bp = BulletPoint::new(text).with_style(slide.bullet_style);
-            if let Some(ref f) = fmt {
-                bp = bp.with_format(f.clone());
+        self.add_bullet(text.to_string(), fmt, self.fallback_title("Overview"));
+    }
+
+    /// Title of a slide that no heading starts
+    fn fallback_title(&self, title: &str) -> String {
+        self.presentation_title.clone().unwrap_or_else(|| title.to_string())
+    }
+
+    fn add_bullet(&mut self, text: String, fmt: Option<BulletTextFormat>, title: String) {
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new(&title));
+        if slide.content.len() < self.options.max_bullets {
+            let mut bp = BulletPoint::new(&text).with_style(slide.bullet_style);
+            if let Some(fmt) = fmt {
+                bp = bp.with_format(fmt);
             }
-            slide.content.push(text.to_string());
+            slide.content.push(text);
             slide.bullets.push(bp);
-            self.current_slide = Some(slide);
         }
     }
 
     fn flush_text_buffer(&mut self) {
         let text = std::mem::take(&mut self.text_buffer);
         let trimmed = text.trim().to_string();
-        if !trimmed.is_empty() {
+        if trimmed.is_empty() {
+            return;
+        }
+        if self.is_inside("li") {
+            let item_style = self.active_style().and_then(|s| s.to_bullet_format());
+            self.list_items.push((trimmed, item_style));
+        } else {
             self.add_paragraph(&trimmed);
         }
     }
 
     fn flush_list_items(&mut self) {
-        let items = std::mem::take(&mut self.list_items);
-        if items.is_empty() {
-            return;
-        }
-
-        if let Some(ref mut slide) = self.current_slide {
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
-            }
-        } else {
-            let title = self.presentation_title.clone().unwrap_or_else(|| "Key Points".to_string());
-            let mut slide = SlideContent::new(&title);
-            for (item, item_style) in items {
-                if slide.content.len() < self.options.max_bullets {
-                    let mut bp = BulletPoint::new(&item).with_style(slide.bullet_style);
-                    if let Some(ref f) = item_style {
-                        bp = bp.with_format(f.clone());
-                    }
-                    slide.content.push(item);
-                    slide.bullets.push(bp);
-                }
-            }
-            self.current_slide = Some(slide);
+        let title = self.fallback_title("Key Points");
+        for (item, item_style) in std::mem::take(&mut self.list_items) {
+            self.add_bullet(item, item_style, title.clone());
         }
     }
 
     fn flush_table(&mut self) {
-        if !self.options.include_tables || self.table_rows.is_empty() {
+        let Some(mut table) = self.tables.pop() else {
+            return;
+        };
+        table.end_row();
+        let rows = table.rows;
+
+        // A table inside a cell is text of that cell
+        if let Some(cell) = self.tables.iter_mut().rev().find_map(|t| t.cell.as_mut()) {
+            let lines: Vec<String> = rows.iter().map(|row| row.join(" ")).collect();
+            cell.push_str(&lines.join("\n"));
+            cell.push('\n');
+            return;
+        }
+
+        if !self.options.include_tables || rows.is_empty() {
             return;
         }
 
-        let rows = std::mem::take(&mut self.table_rows);
+        // A slide holds one table
+        if self.current_slide.as_ref().is_some_and(|slide| slide.table.is_some())
+            && let Some(slide) = self.current_slide.take() {
+                self.current_slide = Some(SlideContent::new(&slide.title));
+                self.slides.push(slide);
+            }
+
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
         if let Some(ref mut slide) = self.current_slide {
@@ -979,12 +1072,13 @@ impl HtmlSlideParser {
     }
 
     fn flush_code_block(&mut self) {
-        if !self.options.include_code || self.code_content.is_empty() {
+        let content = std::mem::take(&mut self.code_content);
+        let code = content.trim_start_matches(['\r', '\n']).trim_end();
+        if !self.options.include_code || code.is_empty() {
             return;
         }
 
-        let code = std::mem::take(&mut self.code_content);
-        let code_block = CodeBlock::new(code.trim(), "text");
+        let code_block = CodeBlock::new(code, "text");
 
         if let Some(ref mut slide) = self.current_slide {
             slide.code_blocks.push(code_block);
@@ -1001,14 +1095,13 @@ impl HtmlSlideParser {
             return;
         }
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(text);
-        }
+        let title = self.fallback_title("Overview");
+        let slide = self.current_slide.get_or_insert_with(|| SlideContent::new(&title));
+        slide.notes = Some(text);
     }
 
     fn finalize_current_slide(&mut self) {
         self.flush_text_buffer();
-        self.flush_list_items();
         if let Some(slide) = self.current_slide.take() {
             self.slides.push(slide);
         }
-- 
2.43.0


From 32b74cb4af3fb3b0d6f3f665c721a0ad7ddc539d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:13:57 +0000
Subject: [PATCH 067/108] fix: Markdown import lost nested list items, second
 tables, quotes, headings and code indentation, and could panic on inline HTML

---
 src/cli/markdown/parser.rs | 387 ++++++++++++++-----------------------
 1 file changed, 146 insertions(+), 241 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index e6afe33..60bd027 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -16,22 +16,13 @@ pub fn parse(content: &str) -> Result<Vec<SlideContent>, String> {
     parser.parse(content)
 }
 
-/// Represents a task list item
-#[derive(Clone, Debug)]
-struct TaskItem {
-    text: String,
-    checked: bool,
-}
-
 /// State machine for markdown parsing
 struct MarkdownParser {
     slides: Vec<SlideContent>,
     current_slide: Option<SlideContent>,
     current_text: String,
-    // List state
-    in_list: bool,
-    list_items: Vec<String>,
-    task_items: Vec<TaskItem>,
+    // Title of the slide that a slide break begins
+    continued_title: Option<String>,
     // Table state
     in_table: bool,
     table_rows: Vec<Vec<String>>,
@@ -43,16 +34,13 @@ struct MarkdownParser {
     code_content: String,
     code_language: Option<String>,
     // Formatting state
-    is_bold: bool,
-    is_italic: bool,
-    is_strikethrough: bool,
+    in_subheading: bool,
+    in_metadata: bool,
     // Blockquote (speaker notes)
-    in_blockquote: bool,
+    blockquote_depth: usize,
     blockquote_text: String,
-    // Image state
-    pending_image: Option<(String, String)>,
-    // Task list state
-    current_task_checked: bool,
+    // Image state: URL and alternative text, of nested images too
+    pending_images: Vec<(String, String)>,
 }
 
 impl MarkdownParser {
@@ -61,9 +49,7 @@ impl MarkdownParser {
             slides: Vec::new(),
             current_slide: None,
             current_text: String::new(),
-            in_list: false,
-            list_items: Vec::new(),
-            task_items: Vec::new(),
+            continued_title: None,
             in_table: false,
             table_rows: Vec::new(),
             current_row: Vec::new(),
@@ -72,13 +58,11 @@ impl MarkdownParser {
             in_code_block: false,
             code_content: String::new(),
             code_language: None,
-            is_bold: false,
-            is_italic: false,
-            is_strikethrough: false,
-            in_blockquote: false,
+            in_subheading: false,
+            in_metadata: false,
+            blockquote_depth: 0,
             blockquote_text: String::new(),
-            pending_image: None,
-            current_task_checked: false,
+            pending_images: Vec::new(),
         }
     }
 
@@ -88,7 +72,7 @@ impl MarkdownParser {
             | Options::ENABLE_TASKLISTS
             | Options::ENABLE_PLUSES_DELIMITED_METADATA_BLOCKS;
 
-        let parser = Parser::new_ext(content, options);
+        let parser = Parser::new_ext(skip_front_matter(content), options);
 
         for event in parser {
             self.handle_event(event);
@@ -107,49 +91,38 @@ impl MarkdownParser {
         match event {
             // Headings create new slides
             Event::Start(Tag::Heading { level, .. }) => {
-                if level == HeadingLevel::H1 {
-                    self.finalize_current_slide();
+                self.flush_text();
+                if self.blockquote_depth == 0 {
+                    if level == HeadingLevel::H1 {
+                        self.finalize_current_slide();
+                        self.current_slide = Some(SlideContent::new(""));
+                    } else {
+                        self.in_subheading = true;
+                    }
                 }
-                self.current_text.clear();
             }
             Event::End(TagEnd::Heading(level)) => {
-                let title = std::mem::take(&mut self.current_text).trim().to_string();
-                if level == HeadingLevel::H1 {
-                    self.current_slide = Some(SlideContent::new(&title));
-                } else if let Some(ref mut slide) = self.current_slide {
-                    let formatted = format!("**{}**", title);
-                    *slide = slide.clone().add_bullet(&formatted);
+                self.in_subheading = false;
+                if self.blockquote_depth > 0 {
+                    self.flush_text();
+                } else {
+                    let title = std::mem::take(&mut self.current_text).trim().to_string();
+                    if level == HeadingLevel::H1 {
+                        self.slide("Slide").title = title;
+                    } else if !title.is_empty() {
+                        self.add_paragraph(&format!("**{}**", title));
+                    }
                 }
             }
 
-            // Lists
-            Event::Start(Tag::List(_)) => {
-                self.in_list = true;
-                self.list_items.clear();
-                self.task_items.clear();
-            }
-            Event::End(TagEnd::List(_)) => {
-                self.in_list = false;
-                self.flush_list_items();
-            }
-            Event::Start(Tag::Item) => {
-                self.current_text.clear();
-                // Reset task state for new item
-                self.current_task_checked = false;
-            }
-            Event::End(TagEnd::Item) => {
-                let item = std::mem::take(&mut self.current_text).trim().to_string();
-                if !item.is_empty() {
-                    // Since pulldown-cmark may have stripped the [x]/[ ] already,
-                    // we need to check for task items differently
-                    // For now, we'll treat all items as regular bullets
-                    // and let the user add special characters if they want
-                    self.list_items.push(item);
-                }
+            // Each piece of text in a list is a bullet
+            Event::Start(Tag::List(_) | Tag::Item) | Event::End(TagEnd::List(_) | TagEnd::Item) => {
+                self.flush_text();
             }
 
             // Tables
             Event::Start(Tag::Table(_)) => {
+                self.flush_text();
                 self.in_table = true;
                 self.table_rows.clear();
                 self.in_table_head = false;
@@ -186,6 +159,7 @@ impl MarkdownParser {
 
             // Code blocks
             Event::Start(Tag::CodeBlock(kind)) => {
+                self.flush_text();
                 self.in_code_block = true;
                 self.code_content.clear();
                 self.code_language = match kind {
@@ -207,21 +181,35 @@ impl MarkdownParser {
 
             // Blockquotes (speaker notes)
             Event::Start(Tag::BlockQuote) => {
-                self.in_blockquote = true;
-                self.blockquote_text.clear();
+                self.flush_text();
+                self.blockquote_depth += 1;
             }
             Event::End(TagEnd::BlockQuote) => {
-                self.in_blockquote = false;
-                self.flush_blockquote();
+                self.flush_text();
+                self.blockquote_depth -= 1;
+                if self.blockquote_depth == 0 {
+                    self.flush_blockquote();
+                }
+            }
+
+            // Metadata is not part of any slide
+            Event::Start(Tag::MetadataBlock(_)) => {
+                self.flush_text();
+                self.in_metadata = true;
             }
+            Event::End(TagEnd::MetadataBlock(_)) => self.in_metadata = false,
 
             // Inline formatting
-            Event::Start(Tag::Strong) => self.is_bold = true,
-            Event::End(TagEnd::Strong) => self.is_bold = false,
-            Event::Start(Tag::Emphasis) => self.is_italic = true,
-            Event::End(TagEnd::Emphasis) => self.is_italic = false,
-            Event::Start(Tag::Strikethrough) => self.is_strikethrough = true,
-            Event::End(TagEnd::Strikethrough) => self.is_strikethrough = false,
+            Event::Start(Tag::Strong) | Event::End(TagEnd::Strong) => {
+                // Subheadings are bold as a whole
+                if !self.in_subheading {
+                    self.push_text("**");
+                }
+            }
+            Event::Start(Tag::Emphasis) | Event::End(TagEnd::Emphasis) => self.push_text("*"),
+            Event::Start(Tag::Strikethrough) | Event::End(TagEnd::Strikethrough) => {
+                self.push_text("~~")
+            }
             Event::Code(code) => {
                 let formatted = format!("`{}`", code);
                 self.push_text(&formatted);
@@ -229,54 +217,28 @@ impl MarkdownParser {
 
             // Handle other inline elements
             Event::InlineHtml(html) => {
-                // Check for highlight, subscript, superscript in HTML
-                let html_str = html.to_string();
-                if html_str.contains("<mark>") || html_str.contains("<ins>") {
-                    // Highlight syntax: ==text== or <ins>text</ins>
-                    if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
-                            self.push_text(&format!("=={}==", text));
-                        }
-                    }
-                } else if html_str.contains("<sub>") {
-                    // Subscript
-                    if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
-                            self.push_text(&format!("~{}~", text));
-                        }
-                    }
-                } else if html_str.contains("<sup>") {
-                    // Superscript
-                    if let Some(start) = html_str.find(">") {
-                        if let Some(end) = html_str.find("</") {
-                            let text = &html_str[start + 1..end];
-                            self.push_text(&format!("^{}^", text));
-                        }
-                    }
+                // Each tag or comment comes on its own; the text between tags is an event too
+                if html.starts_with("<br") {
+                    self.push_text("\n");
                 }
             }
 
             // Images
             Event::Start(Tag::Image {
-                dest_url, title, ..
+                dest_url, ..
             }) => {
-                self.pending_image = Some((dest_url.to_string(), title.to_string()));
+                self.pending_images.push((dest_url.to_string(), String::new()));
             }
             Event::End(TagEnd::Image) => {
-                if let Some((url, alt)) = self.pending_image.take() {
+                if let Some((url, alt)) = self.pending_images.pop() {
                     self.add_image_placeholder(&url, &alt);
                 }
             }
 
             // Horizontal rule = slide break
             Event::Rule => {
-                self.finalize_current_slide();
-                if let Some(last) = self.slides.last() {
-                    let title = format!("{} (continued)", last.title);
-                    self.current_slide = Some(SlideContent::new(&title));
-                }
+                self.flush_text();
+                self.break_slide();
             }
 
             // Text content
@@ -288,104 +250,58 @@ impl MarkdownParser {
             }
 
             // Paragraphs
-            Event::Start(Tag::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
-                    self.current_text.clear();
-                }
-            }
-            Event::End(TagEnd::Paragraph) => {
-                if !self.in_list && !self.in_table && !self.in_blockquote && !self.in_code_block {
-                    let text = std::mem::take(&mut self.current_text).trim().to_string();
-                    if !text.is_empty() {
-                        self.add_paragraph(&text);
-                    }
-                }
-            }
+            Event::Start(Tag::Paragraph) | Event::End(TagEnd::Paragraph) => self.flush_text(),
 
             _ => {}
         }
     }
 
     fn push_text(&mut self, text: &str) {
-        let formatted = if self.is_bold && self.is_italic {
-            format!("***{}***", text)
-        } else if self.is_bold {
-            format!("**{}**", text)
-        } else if self.is_italic {
-            format!("*{}*", text)
-        } else if self.is_strikethrough {
-            format!("~~{}~~", text)
-        } else {
-            text.to_string()
-        };
-
-        if self.in_code_block {
+        if self.in_metadata {
+        } else if self.in_code_block {
             self.code_content.push_str(text);
+        } else if let Some((_, alt)) = self.pending_images.last_mut() {
+            alt.push_str(text);
         } else if self.in_table {
-            self.current_cell.push_str(&formatted);
-        } else if self.in_blockquote {
-            self.blockquote_text.push_str(&formatted);
+            self.current_cell.push_str(text);
         } else {
-            self.current_text.push_str(&formatted);
+            self.current_text.push_str(text);
         }
     }
 
-    fn add_paragraph(&mut self, text: &str) {
-        if let Some(ref mut slide) = self.current_slide {
-            *slide = slide.clone().add_bullet(text);
+    /// Put the text collected so far where it belongs: into the notes or onto the slide
+    fn flush_text(&mut self) {
+        let text = std::mem::take(&mut self.current_text).trim().to_string();
+        if text.is_empty() {
+            return;
+        }
+        if self.blockquote_depth > 0 {
+            if !self.blockquote_text.is_empty() {
+                self.blockquote_text.push('\n');
+            }
+            self.blockquote_text.push_str(&text);
         } else {
-            let mut slide = SlideContent::new("Slide");
-            slide = slide.add_bullet(text);
-            self.current_slide = Some(slide);
+            self.add_paragraph(&text);
         }
     }
 
-    fn flush_list_items(&mut self) {
-        // Flush regular list items
-        if !self.list_items.is_empty() {
-            let items = std::mem::take(&mut self.list_items);
-
-            if let Some(ref mut slide) = self.current_slide {
-                for item in items {
-                    *slide = slide.clone().add_bullet(&item);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for item in items {
-                    slide = slide.add_bullet(&item);
-                }
-                self.current_slide = Some(slide);
-            }
-        }
+    /// The current slide; a new one if there is none
+    fn slide(&mut self, title: &str) -> &mut SlideContent {
+        let continued = &mut self.continued_title;
+        self.current_slide.get_or_insert_with(|| {
+            SlideContent::new(continued.take().as_deref().unwrap_or(title))
+        })
+    }
 
-        // Flush task list items
-        if !self.task_items.is_empty() {
-            let tasks = std::mem::take(&mut self.task_items);
+    /// End the current slide; what follows goes on a slide that continues it
+    fn break_slide(&mut self) {
+        self.finalize_current_slide();
+        self.continued_title = self.slides.last().map(|last| format!("{} (continued)", last.title));
+    }
 
-            if let Some(ref mut slide) = self.current_slide {
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    *slide = slide.clone().add_bullet(&text);
-                }
-            } else {
-                let mut slide = SlideContent::new("Slide");
-                for task in tasks {
-                    let checkbox = if task.checked { "☑" } else { "☐" };
-                    let text = if task.checked {
-                        format!("{} ~~{}~~", checkbox, task.text)
-                    } else {
-                        format!("{} {}", checkbox, task.text)
-                    };
-                    slide = slide.add_bullet(&text);
-                }
-                self.current_slide = Some(slide);
-            }
-        }
+    fn add_paragraph(&mut self, text: &str) {
+        let slide = self.slide("Slide");
+        *slide = slide.clone().add_bullet(text);
     }
 
     fn flush_table(&mut self) {
@@ -396,19 +312,18 @@ impl MarkdownParser {
         let rows = std::mem::take(&mut self.table_rows);
         let table = crate::generator::table::table_from_string_rows(rows, true);
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.table = Some(table);
-            slide.has_table = true;
-        } else {
-            let mut slide = SlideContent::new("Data Table");
-            slide.table = Some(table);
-            slide.has_table = true;
-            self.current_slide = Some(slide);
+        // A slide holds one table
+        if self.current_slide.as_ref().is_some_and(|slide| slide.table.is_some()) {
+            self.break_slide();
         }
+
+        let slide = self.slide("Data Table");
+        slide.table = Some(table);
+        slide.has_table = true;
     }
 
     fn flush_code_block(&mut self) {
-        if self.code_content.is_empty() {
+        if self.code_content.trim().is_empty() {
             return;
         }
 
@@ -421,15 +336,10 @@ impl MarkdownParser {
             return;
         }
 
-        let code_block = CodeBlock::new(code.trim(), lang_str);
-
-        if let Some(ref mut slide) = self.current_slide {
-            slide.code_blocks.push(code_block);
-        } else {
-            let mut slide = SlideContent::new("Code");
-            slide.code_blocks.push(code_block);
-            self.current_slide = Some(slide);
-        }
+        // Indentation is part of the code
+        let code = code.trim_start_matches('\n').trim_end();
+        let code_block = CodeBlock::new(code, lang_str);
+        self.slide("Code").code_blocks.push(code_block);
     }
 
     fn add_mermaid_diagram(&mut self, code: &str) {
@@ -482,23 +392,9 @@ impl MarkdownParser {
             })
             .collect();
 
-        if let Some(ref mut slide) = self.current_slide {
-            for shape in shapes {
-                slide.shapes.push(shape);
-            }
-            for connector in connectors {
-                slide.connectors.push(connector);
-            }
-        } else {
-            let mut slide = SlideContent::new(title);
-            for shape in shapes {
-                slide.shapes.push(shape);
-            }
-            for connector in connectors {
-                slide.connectors.push(connector);
-            }
-            self.current_slide = Some(slide);
-        }
+        let slide = self.slide(title);
+        slide.shapes.extend(shapes);
+        slide.connectors.extend(connectors);
     }
 
     fn flush_blockquote(&mut self) {
@@ -508,21 +404,17 @@ impl MarkdownParser {
 
         let notes = std::mem::take(&mut self.blockquote_text).trim().to_string();
 
-        if let Some(ref mut slide) = self.current_slide {
-            slide.notes = Some(notes);
-        }
+        let slide = self.slide("Slide");
+        slide.notes = Some(match slide.notes.take() {
+            Some(earlier) => format!("{}\n{}", earlier, notes),
+            None => notes,
+        });
     }
 
     fn add_image_placeholder(&mut self, url: &str, alt: &str) {
         // Try to download or load the actual image
         if let Some(image) = self.load_image(url, alt) {
-            if let Some(ref mut slide) = self.current_slide {
-                slide.images.push(image);
-            } else {
-                let mut slide = SlideContent::new("Image");
-                slide.images.push(image);
-                self.current_slide = Some(slide);
-            }
+            self.slide("Image").images.push(image);
         } else {
             // Fallback to placeholder if image loading fails
             let label = if alt.is_empty() { url } else { alt };
@@ -530,17 +422,10 @@ impl MarkdownParser {
                 .with_fill(ShapeFill::new("E0E0E0"))
                 .with_text(&format!("[Image: {}]", label));
 
-            if let Some(ref mut slide) = self.current_slide {
-                slide.shapes.push(shape);
-            } else {
-                let mut slide = SlideContent::new("Image");
-                slide.shapes.push(shape);
-                self.current_slide = Some(slide);
-            }
+            self.slide("Image").shapes.push(shape);
         }
     }
 
-    /// Load an image from URL or local file path
     fn load_image(&self, url: &str, _alt: &str) -> Option<crate::generator::Image> {
         use crate::generator::ImageBuilder;
         use std::path::Path;
@@ -596,14 +481,34 @@ impl MarkdownParser {
     }
 
     fn finalize_current_slide(&mut self) {
-        self.flush_list_items();
-
+        self.continued_title = None;
         if let Some(slide) = self.current_slide.take() {
             self.slides.push(slide);
         }
     }
 }
 
+/// The content after a leading `---` block of `key: value` lines, if there is one
+fn skip_front_matter(content: &str) -> &str {
+    let mut rest = content;
+    let mut first = true;
+    loop {
+        let (line, after) = rest.split_once('\n').unwrap_or((rest, ""));
+        let line = line.trim_end();
+        if line == "---" && !first {
+            return after;
+        }
+        let entry = line.split_once(':').is_some_and(|(key, _)| {
+            !key.is_empty() && key.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '-')
+        });
+        if after.is_empty() || (first && line != "---") || (!first && !entry) {
+            return content;
+        }
+        first = false;
+        rest = after;
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From edb46945451e036fc28d0eede59a3cc7144d39dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 068/108] fix: drawing ids given by the writer stay clear of
 the ids shapes were given

---
 src/generator/slide_xml/content.rs | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index eb08a7e..d527488 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -20,10 +20,20 @@ pub fn render_additional_content(
         xml.reserve(extra_elements * 512);
     }
 
+    // Assigned IDs must differ from the fixed ones
+    let mut used: std::collections::BTreeSet<usize> =
+        content.shapes.iter().filter_map(|shape| shape.id).map(|id| id as usize).collect();
+    let mut assign_id = |mut id: usize| {
+        while !used.insert(id) {
+            id += 1;
+        }
+        id
+    };
+
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-        let shape_id = shape.id.unwrap_or((i + 10) as u32);
+        let shape_id = shape.id.unwrap_or_else(|| assign_id(i + 10) as u32);
         xml.push_str(&generate_shape_xml(shape, shape_id));
     }
 
@@ -37,7 +47,7 @@ pub fn render_additional_content(
         let rel_id = image_rel_start + i;
         xml.push_str(&crate::generator::images_xml::generate_image_xml(
             image,
-            image_start_id + i,
+            assign_id(image_start_id + i),
             rel_id,
         ));
     }
@@ -46,7 +56,7 @@ pub fn render_additional_content(
     let code_start_id = 30 + content.shapes.len() + content.images.len();
     for (i, code_block) in content.code_blocks.iter().enumerate() {
         xml.push('\n');
-        xml.push_str(&generate_code_block(code_start_id + i, code_block));
+        xml.push_str(&generate_code_block(assign_id(code_start_id + i), code_block));
     }
 
     // Render connectors
@@ -54,7 +64,7 @@ pub fn render_additional_content(
         50 + content.shapes.len() + content.images.len() + content.code_blocks.len();
     for (i, connector) in content.connectors.iter().enumerate() {
         xml.push('\n');
-        let id = connector_start_id + i;
+        let id = assign_id(connector_start_id + i);
         xml.push_str(&crate::generator::connectors::generate_connector_xml(
             connector, id,
         ));
@@ -73,7 +83,7 @@ pub fn render_additional_content(
             xml.push_str(&crate::generator::charts::generate_chart_ref_xml(
                 chart,
                 r_id,
-                chart_start_id + i,
+                assign_id(chart_start_id + i),
             ));
         }
     }
-- 
2.43.0


From 43cbba516900f7adcc3f64089a7a0509e6e65ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 069/108] fix: Mermaid flowcharts keep every node, edge and
 label in written order

---
 src/cli/markdown/mermaid/flowchart.rs | 252 +++++++++++++++++---------
 1 file changed, 168 insertions(+), 84 deletions(-)

diff --git a/src/cli/markdown/mermaid/flowchart.rs b/src/cli/markdown/mermaid/flowchart.rs
index 3cae060..56b9240 100644
--- a/src/cli/markdown/mermaid/flowchart.rs
+++ b/src/cli/markdown/mermaid/flowchart.rs
@@ -27,13 +27,14 @@ pub fn parse(code: &str) -> Flowchart {
     let first_line = lines.next().unwrap_or("");
     let direction = parse_direction(first_line);
 
-    let mut nodes: HashMap<String, FlowNode> = HashMap::new();
+    // In the order of their appearance, which is the order of the layout
+    let mut nodes: Vec<FlowNode> = Vec::new();
     let mut connections: Vec<FlowConnection> = Vec::new();
     let mut subgraphs: Vec<Subgraph> = Vec::new();
     let mut current_subgraph: Option<Subgraph> = None;
 
     for line in lines {
-        let line = line.trim();
+        let line = line.trim().trim_end_matches(';').trim_end();
         if line.is_empty() || line.starts_with("%%") {
             continue;
         }
@@ -43,12 +44,16 @@ pub fn parse(code: &str) -> Flowchart {
             let name = line
                 .strip_prefix("subgraph")
                 .unwrap_or("")
-                .trim()
-                .to_string();
-            current_subgraph = Some(Subgraph {
+                .trim();
+            let name = match parse_node_def(name) {
+                (_, Some(node)) => node.label,
+                (_, None) => unquote(name).to_string(),
+            };
+            let outer = current_subgraph.replace(Subgraph {
                 name,
                 nodes: Vec::new(),
             });
+            subgraphs.extend(outer);
             continue;
         }
 
@@ -60,127 +65,206 @@ pub fn parse(code: &str) -> Flowchart {
             continue;
         }
 
-        // Parse connections: A --> B, A --> B[Label], A[Text] --> B[Text]
-        if let Some((from_part, rest)) = split_connection(line) {
-            let (arrow_type, to_part) = parse_arrow_and_rest(&rest);
-
-            // Parse from node
-            let (from_id, from_node) = parse_node_def(&from_part);
-            if let Some(node) = from_node {
-                nodes.entry(from_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&from_id) {
-                        sg.nodes.push(from_id.clone());
+        // Parse connections: A --> B, A --> B[Label], A[Text] --> B[Text], A --> B --> C
+        if let Some((from_part, mut rest)) = split_connection(line) {
+            let (from_part, label) = split_inline_label(&from_part);
+            let mut pending = label.map(str::to_string);
+            let mut from_ids = declare_nodes(from_part, &mut nodes, &mut current_subgraph, &subgraphs);
+
+            loop {
+                let (arrow_type, to_part) = parse_arrow_and_rest(&rest);
+
+                // Parse to node (may have label on arrow)
+                let (to_part, arrow_label) = extract_arrow_label(&to_part);
+                let next = split_connection(&to_part);
+                let (to_part, next_label) = match &next {
+                    Some((part, _)) => split_inline_label(part),
+                    None => (to_part.as_str(), None),
+                };
+                let to_ids = declare_nodes(to_part, &mut nodes, &mut current_subgraph, &subgraphs);
+
+                let label = arrow_label.or(pending.take());
+                for from in &from_ids {
+                    for to in &to_ids {
+                        connections.push(FlowConnection {
+                            from: from.clone(),
+                            to: to.clone(),
+                            label: label.clone(),
+                            arrow_type,
+                        });
                     }
                 }
-            }
 
-            // Parse to node (may have label on arrow)
-            let (to_part_clean, arrow_label) = extract_arrow_label(&to_part);
-            let (to_id, to_node) = parse_node_def(&to_part_clean);
-            if let Some(node) = to_node {
-                nodes.entry(to_id.clone()).or_insert(node);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&to_id) {
-                        sg.nodes.push(to_id.clone());
-                    }
+                let next_label = next_label.map(str::to_string);
+                match next {
+                    Some((_, next_rest)) => rest = next_rest,
+                    None => break,
                 }
+                from_ids = to_ids;
+                pending = next_label;
             }
-
-            connections.push(FlowConnection {
-                from: from_id,
-                to: to_id,
-                label: arrow_label,
-                arrow_type,
-            });
         } else {
             // Standalone node definition
-            let (id, node) = parse_node_def(line);
-            if let Some(n) = node {
-                nodes.entry(id.clone()).or_insert(n);
-                if let Some(ref mut sg) = current_subgraph {
-                    if !sg.nodes.contains(&id) {
-                        sg.nodes.push(id);
-                    }
-                }
-            }
+            declare_nodes(line, &mut nodes, &mut current_subgraph, &subgraphs);
         }
     }
+    subgraphs.extend(current_subgraph);
 
     Flowchart {
         direction,
-        nodes: nodes.into_values().collect(),
+        nodes,
         connections,
         subgraphs,
     }
 }
 
-/// Split line at connection arrow
-fn split_connection(line: &str) -> Option<(String, String)> {
-    for arrow in ["==>", "-.->", "-->", "---", "->"] {
-        if let Some(pos) = line.find(arrow) {
-            let from = line[..pos].trim().to_string();
-            let rest = line[pos..].to_string();
-            return Some((from, rest));
+/// Add the nodes that a part of a line names, and return their IDs
+fn declare_nodes(
+    part: &str,
+    nodes: &mut Vec<FlowNode>,
+    subgraph: &mut Option<Subgraph>,
+    subgraphs: &[Subgraph],
+) -> Vec<String> {
+    let mut ids = Vec::new();
+    let mut rest = part;
+    loop {
+        let end = find_outside_text(rest, |s| s.starts_with('&').then_some(1));
+        let (id, node) = parse_node_def(end.map_or(rest, |(pos, _)| &rest[..pos]));
+        if let Some(node) = node {
+            match nodes.iter_mut().find(|known| known.id == id) {
+                // The text of a node may follow its first use
+                Some(known) => {
+                    if node.label != id || node.shape != NodeShape::Rectangle {
+                        *known = node;
+                    }
+                }
+                None => nodes.push(node),
+            }
+            if let Some(sg) = subgraph {
+                if !sg.nodes.contains(&id) && !subgraphs.iter().any(|sg| sg.nodes.contains(&id)) {
+                    sg.nodes.push(id.clone());
+                }
+            }
+            ids.push(id);
+        }
+        match end {
+            Some((pos, len)) => rest = &rest[pos + len..],
+            None => return ids,
+        }
+    }
+}
+
+/// First position, outside brackets and quotes, where `matches` tells the length of a match
+fn find_outside_text(s: &str, matches: impl Fn(&str) -> Option<usize>) -> Option<(usize, usize)> {
+    let mut depth = 0usize;
+    let mut quoted = false;
+    let mut before = ' ';
+    for (pos, c) in s.char_indices() {
+        let opened = matches!(std::mem::replace(&mut before, c), '[' | '(' | '{');
+        match c {
+            '"' if quoted || opened => quoted = !quoted,
+            _ if quoted => {}
+            '[' | '(' | '{' => depth += 1,
+            ']' | ')' | '}' => depth = depth.saturating_sub(1),
+            _ if depth == 0 => {
+                if let Some(len) = matches(&s[pos..]) {
+                    return Some((pos, len));
+                }
+            }
+            _ => {}
         }
     }
     None
 }
 
-/// Parse arrow type and get the rest of the string
+/// Split a connection line into from part and rest (including arrow)
+fn split_connection(line: &str) -> Option<(String, String)> {
+    let arrows = ["==>", "-.->", ".->", "-->", "---", "->"];
+    let (pos, _) = find_outside_text(line, |s| {
+        arrows.iter().find(|arrow| s.starts_with(**arrow)).map(|arrow| arrow.len())
+    })
+    .or_else(|| arrows.iter().filter_map(|arrow| Some((line.find(arrow)?, arrow.len()))).min())?;
+    // An arrow may be longer than the shortest of its kind
+    let from = line[..pos].trim_end_matches(['-', '=', '.']).trim().to_string();
+    Some((from, line[pos..].to_string()))
+}
+
+/// Split `A -- text`, which precedes an arrow, into the node and the text of the arrow
+fn split_inline_label(part: &str) -> (&str, Option<&str>) {
+    let start = find_outside_text(part, |s| {
+        ["--", "==", "-."].iter().any(|line| s.starts_with(line)).then_some(2)
+    });
+    match start {
+        Some((pos, len)) => (part[..pos].trim(), Some(unquote(part[pos + len..].trim()))),
+        None => (part, None),
+    }
+}
+
+fn unquote(s: &str) -> &str {
+    s.strip_prefix('"').and_then(|s| s.strip_suffix('"')).unwrap_or(s)
+}
+
+/// Parse the arrow and get the rest
 fn parse_arrow_and_rest(s: &str) -> (ArrowStyle, String) {
-    if s.starts_with("==>") {
-        (ArrowStyle::Thick, s[3..].trim().to_string())
-    } else if s.starts_with("-.->") {
-        (ArrowStyle::Dotted, s[4..].trim().to_string())
-    } else if s.starts_with("-->") {
-        (ArrowStyle::Arrow, s[3..].trim().to_string())
-    } else if s.starts_with("---") {
-        (ArrowStyle::Open, s[3..].trim().to_string())
-    } else if s.starts_with("->") {
-        (ArrowStyle::Arrow, s[2..].trim().to_string())
+    let (style, rest) = if let Some(rest) = s.strip_prefix("==>") {
+        (ArrowStyle::Thick, rest)
+    } else if let Some(rest) = s.strip_prefix("-.->").or(s.strip_prefix(".->")) {
+        (ArrowStyle::Dotted, rest)
+    } else if let Some(rest) = s.strip_prefix("-->") {
+        (ArrowStyle::Arrow, rest)
+    } else if let Some(rest) = s.strip_prefix("---") {
+        let rest = rest.trim_start_matches('-');
+        match rest.strip_prefix('>') {
+            Some(rest) => (ArrowStyle::Arrow, rest),
+            None => (ArrowStyle::Open, rest),
+        }
+    } else if let Some(rest) = s.strip_prefix("->") {
+        (ArrowStyle::Arrow, rest)
     } else {
-        (ArrowStyle::Arrow, s.to_string())
-    }
+        (ArrowStyle::Arrow, s)
+    };
+    (style, rest.trim().to_string())
 }
 
-/// Extract arrow label like |text|
+/// Extract label from arrow like |label|
 fn extract_arrow_label(s: &str) -> (String, Option<String>) {
-    if let Some(start) = s.find('|') {
-        if let Some(end) = s[start + 1..].find('|') {
-            let label = s[start + 1..start + 1 + end].to_string();
-            let rest = s[start + 2 + end..].trim().to_string();
-            return (rest, Some(label));
-        }
+    if let Some((label, rest)) = s.strip_prefix('|').and_then(|s| s.split_once('|')) {
+        return (rest.trim().to_string(), Some(unquote(label.trim()).to_string()));
     }
     (s.to_string(), None)
 }
 
-/// Parse a node definition like A[Text] or B(Text) or C{Text}
-fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
+/// Parse a node definition like A, A[Text], A(Text), A{Text}
+pub(super) fn parse_node_def(s: &str) -> (String, Option<FlowNode>) {
     let s = s.trim();
 
-    // Try different bracket types
-    for (open, close, shape) in [
+    // The bracket that opens first encloses the text
+    let mut brackets: Vec<_> = [
         ("((", "))", NodeShape::Circle),
         ("([", "])", NodeShape::Stadium),
         ("{{", "}}", NodeShape::Hexagon),
         ("[", "]", NodeShape::Rectangle),
         ("(", ")", NodeShape::RoundedRect),
         ("{", "}", NodeShape::Diamond),
-    ] {
-        if let Some(start) = s.find(open) {
-            let id = s[..start].trim().to_string();
-            if let Some(end) = s[start + open.len()..].find(close) {
-                let label = s[start + open.len()..start + open.len() + end].to_string();
-                return (id.clone(), Some(FlowNode { id, label, shape }));
-            }
+    ]
+    .into_iter()
+    .filter_map(|(open, close, shape)| Some((s.find(open)?, open, close, shape)))
+    .collect();
+    brackets.sort_by_key(|bracket| bracket.0);
+    for (start, open, close, shape) in brackets {
+        let id = s[..start].trim().to_string();
+        let text = &s[start + open.len()..];
+        if let (Some(end), false) = (text.rfind(close), id.contains(char::is_whitespace)) {
+            let label = unquote(text[..end].trim()).to_string();
+            return (id.clone(), Some(FlowNode { id, label, shape }));
         }
     }
 
-    // Plain node ID without brackets
-    let id = s.to_string();
-    if !id.is_empty() && id.chars().all(|c| c.is_alphanumeric() || c == '_') {
+    // Plain node ID without brackets, maybe with the name of a class
+    let id = s.split(":::").next().unwrap_or(s).to_string();
+    if id.chars().any(char::is_alphanumeric)
+        && id.chars().all(|c| c.is_alphanumeric() || matches!(c, '_' | '-' | '.'))
+    {
         return (
             id.clone(),
             Some(FlowNode {
-- 
2.43.0


From a2ccace57c462efdea0e3c4e1201d475db9eb829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:50 +0000
Subject: [PATCH 070/108] fix: Mermaid class and ER diagrams keep the entities
 their relations name

---
 src/cli/markdown/mermaid/class_diagram.rs |  9 ++++
 src/cli/markdown/mermaid/er_diagram.rs    | 61 +++++++++++------------
 2 files changed, 38 insertions(+), 32 deletions(-)

diff --git a/src/cli/markdown/mermaid/class_diagram.rs b/src/cli/markdown/mermaid/class_diagram.rs
index b5335bc..3a794bb 100644
--- a/src/cli/markdown/mermaid/class_diagram.rs
+++ b/src/cli/markdown/mermaid/class_diagram.rs
@@ -73,6 +73,15 @@ pub fn generate_elements(code: &str) -> DiagramElements {
         }
     }
 
+    // Relationships name classes too
+    for (from, to, _) in &relationships {
+        for name in [from, to] {
+            if !name.is_empty() && !classes.iter().any(|(known, _, _)| known == name) {
+                classes.push((name.clone(), Vec::new(), Vec::new()));
+            }
+        }
+    }
+
     // Layout parameters
     let start_x = 500_000u32;
     let start_y = 1_600_000u32;
diff --git a/src/cli/markdown/mermaid/er_diagram.rs b/src/cli/markdown/mermaid/er_diagram.rs
index ef1ab15..e1f6ff6 100644
--- a/src/cli/markdown/mermaid/er_diagram.rs
+++ b/src/cli/markdown/mermaid/er_diagram.rs
@@ -7,12 +7,22 @@ use crate::generator::connectors::{
 use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 use std::collections::HashMap;
 
+/// Entities of a relationship such as `A ||--o{ B`
+fn split_relationship(s: &str) -> Option<(&str, &str)> {
+    let (left, right) = s.split_once("--").or_else(|| s.split_once(".."))?;
+    let left = ["||", "|o", "}o", "}|"].iter().find_map(|m| left.trim_end().strip_suffix(m))?;
+    let right = ["||", "o|", "o{", "|{"].iter().find_map(|m| right.trim_start().strip_prefix(m))?;
+    let (left, right) = (left.trim().trim_matches('"'), right.trim().trim_matches('"'));
+    (!left.is_empty() && !right.is_empty()).then_some((left, right))
+}
+
 /// Generate shapes and connectors for an ER diagram
 pub fn generate_elements(code: &str) -> DiagramElements {
     let mut shapes = Vec::new();
     let mut connectors = Vec::new();
 
-    let mut entities: HashMap<String, Vec<String>> = HashMap::new();
+    // In the order of their appearance, which is the order of the layout
+    let mut entities: Vec<(String, Vec<String>)> = Vec::new();
     let mut relationships: Vec<(String, String, String)> = Vec::new();
     let mut current_entity = String::new();
 
@@ -22,45 +32,32 @@ pub fn generate_elements(code: &str) -> DiagramElements {
             continue;
         }
 
-        if line.contains("||") || line.contains("}|") || line.contains("|{") || line.contains("o{")
-        {
-            // Extract relationship label after colon
-            let (rel_part, label) = if let Some(colon_pos) = line.find(':') {
-                let label_part = line[colon_pos + 1..].trim();
-                // Remove quotes if present
-                let label = label_part.trim_matches('"').trim_matches('\'').to_string();
-                (&line[..colon_pos], label)
-            } else {
-                (line, String::new())
-            };
-
-            let parts: Vec<&str> = rel_part
-                .split(|c: char| c == '|' || c == '{' || c == '}' || c == 'o' || c == '-')
-                .collect();
-            let parts: Vec<&str> = parts
-                .into_iter()
-                .filter(|s| !s.is_empty() && s.chars().any(|c| c.is_alphabetic()))
-                .collect();
-            if parts.len() >= 2 {
-                let e1 = parts[0].trim().to_string();
-                let e2 = parts[parts.len() - 1].trim().to_string();
-                if !entities.contains_key(&e1) {
-                    entities.insert(e1.clone(), Vec::new());
-                }
-                if !entities.contains_key(&e2) {
-                    entities.insert(e2.clone(), Vec::new());
+        // Extract relationship label after colon
+        let (rel_part, label) = if let Some(colon_pos) = line.find(':') {
+            let label_part = line[colon_pos + 1..].trim();
+            // Remove quotes if present
+            let label = label_part.trim_matches('"').trim_matches('\'').to_string();
+            (&line[..colon_pos], label)
+        } else {
+            (line, String::new())
+        };
+
+        if let Some((e1, e2)) = split_relationship(rel_part) {
+            for e in [e1, e2] {
+                if !entities.iter().any(|(name, _)| name == e) {
+                    entities.push((e.to_string(), Vec::new()));
                 }
-                relationships.push((e1, e2, label));
             }
+            relationships.push((e1.to_string(), e2.to_string(), label));
         } else if line.contains('{') {
             current_entity = line.split('{').next().unwrap_or("").trim().to_string();
-            if !entities.contains_key(&current_entity) {
-                entities.insert(current_entity.clone(), Vec::new());
+            if !entities.iter().any(|(name, _)| *name == current_entity) {
+                entities.push((current_entity.clone(), Vec::new()));
             }
         } else if line == "}" {
             current_entity.clear();
         } else if !current_entity.is_empty() && !line.is_empty() {
-            if let Some(attrs) = entities.get_mut(&current_entity) {
+            if let Some((_, attrs)) = entities.iter_mut().find(|(name, _)| *name == current_entity) {
                 attrs.push(line.to_string());
             }
         }
-- 
2.43.0


From 16995b5de516ad13bbf44b72f3004ab171d8a212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:58 +0000
Subject: [PATCH 071/108] fix: a Mermaid diagram may begin with blank or
 comment lines

---
 src/cli/markdown/mermaid/mod.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/cli/markdown/mermaid/mod.rs b/src/cli/markdown/mermaid/mod.rs
index 5a6ec4b..f1f5517 100644
--- a/src/cli/markdown/mermaid/mod.rs
+++ b/src/cli/markdown/mermaid/mod.rs
@@ -36,7 +36,7 @@ use crate::generator::{Shape, ShapeFill, ShapeLine, ShapeType};
 
 /// Detect the type of Mermaid diagram from code
 pub fn detect_type(code: &str) -> MermaidType {
-    let first_line = code.lines().next().unwrap_or("").trim().to_lowercase();
+    let first_line = skip_preamble(code).lines().next().unwrap_or("").trim().to_lowercase();
 
     if first_line.starts_with("graph") || first_line.starts_with("flowchart") {
         MermaidType::Flowchart
@@ -67,8 +67,22 @@ pub fn detect_type(code: &str) -> MermaidType {
     }
 }
 
+/// The code from its first line that is neither blank nor a comment
+fn skip_preamble(code: &str) -> &str {
+    let mut rest = code;
+    while let Some((line, after)) = rest.split_once('\n') {
+        let line = line.trim();
+        if !line.is_empty() && !line.starts_with("%%") {
+            break;
+        }
+        rest = after;
+    }
+    rest
+}
+
 /// Create shapes and connectors for a Mermaid diagram (main entry point)
 pub fn create_diagram_elements(code: &str) -> DiagramElements {
+    let code = skip_preamble(code);
     let diagram_type = detect_type(code);
 
     match diagram_type {
-- 
2.43.0


From c4e8b0bdab1ab5bb14082a8fce62b2e5fb8cb774 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:58 +0000
Subject: [PATCH 072/108] fix: Mermaid sequence diagrams keep actors and names
 of several words

---
 src/cli/markdown/mermaid/sequence.rs | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/src/cli/markdown/mermaid/sequence.rs b/src/cli/markdown/mermaid/sequence.rs
index a43a5db..9832fb0 100644
--- a/src/cli/markdown/mermaid/sequence.rs
+++ b/src/cli/markdown/mermaid/sequence.rs
@@ -14,26 +14,28 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         let line = line.trim();
 
         // Parse participant
-        if line.starts_with("participant") {
-            let rest = line.strip_prefix("participant").unwrap_or("").trim();
+        if let Some(rest) = line.strip_prefix("participant ").or(line.strip_prefix("actor ")) {
+            let rest = rest.trim();
             let (id, display_name) = if let Some((id, alias)) = rest.split_once(" as ") {
                 (id.trim().to_string(), alias.trim().to_string())
             } else {
-                let id = rest.split_whitespace().next().unwrap_or("").to_string();
-                (id.clone(), id)
+                (rest.to_string(), rest.to_string())
             };
-            if !id.is_empty() && !participant_ids.contains(&id) {
-                participant_ids.push(id.clone());
+            if !id.is_empty() {
+                if !participant_ids.contains(&id) {
+                    participant_ids.push(id.clone());
+                }
                 participant_names.insert(id, display_name);
             }
         }
         // Parse message
-        else if line.contains("->>") || line.contains("-->>") {
-            let arrow = if line.contains("-->>") { "-->>" } else { "->>" };
-            if let Some((from_part, rest)) = line.split_once(arrow) {
+        else if let Some((from_part, rest)) = line.split_once("->>") {
+            // The arrow is "->>" or "-->>"
+            let from_part = from_part.strip_suffix('-').unwrap_or(from_part);
+            {
                 if let Some((to_part, msg)) = rest.split_once(':') {
                     let from = from_part.trim().to_string();
-                    let to = to_part.trim().to_string();
+                    let to = to_part.trim_start_matches(['+', '-']).trim().to_string();
                     let text = msg.trim().to_string();
 
                     if !participant_ids.contains(&from) {
-- 
2.43.0


From 6e0475ef263f76915897d77460bfd9d5e26c45a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:58 +0000
Subject: [PATCH 073/108] fix: Mermaid charts keep labels with colons, tasks
 without a section and points on the plot

---
 src/cli/markdown/mermaid/gantt.rs    | 18 +++++++++++-------
 src/cli/markdown/mermaid/journey.rs  |  4 ++--
 src/cli/markdown/mermaid/pie.rs      |  2 +-
 src/cli/markdown/mermaid/quadrant.rs |  6 +++---
 4 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/cli/markdown/mermaid/gantt.rs b/src/cli/markdown/mermaid/gantt.rs
index d37e14d..c4fb478 100644
--- a/src/cli/markdown/mermaid/gantt.rs
+++ b/src/cli/markdown/mermaid/gantt.rs
@@ -19,7 +19,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         if line.starts_with("title") {
             title = line.strip_prefix("title").unwrap_or("").trim().to_string();
         } else if line.starts_with("section") {
-            if !current_section.is_empty() {
+            if !current_section.is_empty() || !current_tasks.is_empty() {
                 sections.push((current_section.clone(), current_tasks.clone()));
                 current_tasks.clear();
             }
@@ -39,7 +39,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         }
     }
 
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_tasks.is_empty() {
         sections.push((current_section, current_tasks));
     }
 
@@ -62,11 +62,15 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     let colors = ["4472C4", "ED7D31", "70AD47", "FFC000", "5B9BD5"];
 
     for (section_idx, (section_name, tasks)) in sections.iter().enumerate() {
-        let section_shape = Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
-            .with_fill(ShapeFill::new("E0E0E0"))
-            .with_text(section_name);
-        shapes.push(section_shape);
-        y += section_height + 50_000;
+        // Tasks may come without a section
+        if !section_name.is_empty() {
+            let section_shape =
+                Shape::new(ShapeType::Rectangle, start_x, y, 7_000_000, section_height)
+                    .with_fill(ShapeFill::new("E0E0E0"))
+                    .with_text(section_name);
+            shapes.push(section_shape);
+            y += section_height + 50_000;
+        }
 
         for (task_idx, (task_name, duration)) in tasks.iter().enumerate() {
             let label_shape =
diff --git a/src/cli/markdown/mermaid/journey.rs b/src/cli/markdown/mermaid/journey.rs
index 90687f5..078aa62 100644
--- a/src/cli/markdown/mermaid/journey.rs
+++ b/src/cli/markdown/mermaid/journey.rs
@@ -17,7 +17,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
 
         if trimmed.starts_with("section") {
             // Save previous section
-            if !current_section.is_empty() {
+            if !current_section.is_empty() || !current_items.is_empty() {
                 sections.push((current_section.clone(), current_items.clone()));
                 current_items.clear();
             }
@@ -38,7 +38,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     }
 
     // Save last section
-    if !current_section.is_empty() {
+    if !current_section.is_empty() || !current_items.is_empty() {
         sections.push((current_section, current_items));
     }
 
diff --git a/src/cli/markdown/mermaid/pie.rs b/src/cli/markdown/mermaid/pie.rs
index 6d6d186..90527af 100644
--- a/src/cli/markdown/mermaid/pie.rs
+++ b/src/cli/markdown/mermaid/pie.rs
@@ -9,7 +9,7 @@ pub fn parse(code: &str) -> Vec<(String, f64)> {
     for line in code.lines().skip(1) {
         let line = line.trim();
         if line.contains(':') && !line.starts_with("title") {
-            if let Some((label, value)) = line.split_once(':') {
+            if let Some((label, value)) = line.rsplit_once(':') {
                 let label = label.trim().trim_matches('"').to_string();
                 if let Ok(val) = value.trim().parse::<f64>() {
                     slices.push((label, val));
diff --git a/src/cli/markdown/mermaid/quadrant.rs b/src/cli/markdown/mermaid/quadrant.rs
index 79ff1d4..5991469 100644
--- a/src/cli/markdown/mermaid/quadrant.rs
+++ b/src/cli/markdown/mermaid/quadrant.rs
@@ -44,7 +44,7 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         } else if trimmed.contains('[') && trimmed.contains(']') {
             // Parse point: "Label: [x, y]"
             if let Some(bracket_start) = trimmed.find('[') {
-                let label = trimmed[..bracket_start].trim_end_matches(':').trim();
+                let label = trimmed[..bracket_start].trim().trim_end_matches(':').trim();
                 let coords = &trimmed[bracket_start..];
                 if let Some(bracket_end) = coords.find(']') {
                     let coord_str = &coords[1..bracket_end];
@@ -120,9 +120,9 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
     for (label, x, y) in &points {
         // Convert 0-1 coordinates to chart position
         // Note: y is inverted (0 at bottom, 1 at top)
-        let px = chart_x + ((*x * chart_width as f32) as u32).saturating_sub(point_size / 2);
+        let px = chart_x + ((x.clamp(0.0, 1.0) * chart_width as f32) as u32).saturating_sub(point_size / 2);
         let py =
-            chart_y + (((1.0 - *y) * chart_height as f32) as u32).saturating_sub(point_size / 2);
+            chart_y + (((1.0 - y.clamp(0.0, 1.0)) * chart_height as f32) as u32).saturating_sub(point_size / 2);
 
         shapes.extend(create_labeled_dot(
             px,
-- 
2.43.0


From dc55e952158b74934d0d882ae8a75a1f5c49476f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:58 +0000
Subject: [PATCH 074/108] fix: Mermaid mindmaps and Git graphs keep their nodes
 and names

---
 src/cli/markdown/mermaid/gitgraph.rs |  6 +++++-
 src/cli/markdown/mermaid/mindmap.rs  | 18 ++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/cli/markdown/mermaid/gitgraph.rs b/src/cli/markdown/mermaid/gitgraph.rs
index bf4ba66..0e32bf4 100644
--- a/src/cli/markdown/mermaid/gitgraph.rs
+++ b/src/cli/markdown/mermaid/gitgraph.rs
@@ -22,7 +22,11 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
             let id = if trimmed.contains("id:") {
                 let parts: Vec<&str> = trimmed.split("id:").collect();
                 if parts.len() > 1 {
-                    parts[1].trim().trim_matches('"').to_string()
+                    let id = parts[1].trim();
+                    match id.strip_prefix('"').and_then(|id| id.split_once('"')) {
+                        Some((id, _)) => id.to_string(),
+                        None => id.trim_matches('"').to_string(),
+                    }
                 } else {
                     format!("C{}", commit_count)
                 }
diff --git a/src/cli/markdown/mermaid/mindmap.rs b/src/cli/markdown/mermaid/mindmap.rs
index ab2bf65..5262623 100644
--- a/src/cli/markdown/mermaid/mindmap.rs
+++ b/src/cli/markdown/mermaid/mindmap.rs
@@ -1,5 +1,6 @@
 //! Mindmap diagram parsing and rendering
 
+use super::flowchart::parse_node_def;
 use super::types::{create_labeled_shape, LabelPosition};
 use crate::generator::{Shape, ShapeType};
 
@@ -20,19 +21,20 @@ pub fn generate_shapes(code: &str) -> Vec<Shape> {
         let spaces = line.len() - line.trim_start().len();
         let text = trimmed
             .trim_start_matches(|c| c == '-' || c == '+' || c == '*')
-            .trim()
-            .trim_matches(|c| c == '(' || c == ')' || c == '[' || c == ']')
-            .to_string();
+            .trim();
+        // A node may have an ID before the brackets around its text
+        let text = match parse_node_def(text) {
+            (_, Some(node)) if text.ends_with([')', ']', '}']) => node.label,
+            _ => text.to_string(),
+        };
 
         if text.is_empty() {
             continue;
         }
 
-        if spaces == 0 || (root.is_empty() && spaces <= 4) {
-            if root.is_empty() {
-                root = text;
-            }
-        } else if spaces <= 8 {
+        if root.is_empty() && spaces <= 4 {
+            root = text;
+        } else if spaces <= 8 || level1.is_empty() {
             level1.push(text);
         } else {
             let parent_idx = level1.len().saturating_sub(1);
-- 
2.43.0


From 65f9cebdeaab94398fb830a5abc08948b81d3195 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:58 +0000
Subject: [PATCH 075/108] fix: a second Mermaid diagram keeps its own
 connections and a big one its place

---
 src/cli/markdown/parser.rs | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/cli/markdown/parser.rs b/src/cli/markdown/parser.rs
index 60bd027..eb1a0c3 100644
--- a/src/cli/markdown/parser.rs
+++ b/src/cli/markdown/parser.rs
@@ -356,20 +356,20 @@ impl MarkdownParser {
         let (offset_x, offset_y) = if let Some(bounds) = &elements.bounds {
             // Calculate offset to center diagram
             let available_height = slide_height - title_offset;
-            let center_x = (slide_width.saturating_sub(bounds.width)) / 2;
+            let center_x = slide_width.saturating_sub(bounds.width) / 2;
             let center_y = title_offset + (available_height.saturating_sub(bounds.height)) / 2;
 
             // Offset from current position to centered position
             (
-                center_x.saturating_sub(bounds.x) as i32,
-                center_y.saturating_sub(bounds.y) as i32,
+                center_x as i32 - bounds.x as i32,
+                center_y as i32 - bounds.y as i32,
             )
         } else {
             (0, 0)
         };
 
         // Apply offset to shapes
-        let shapes: Vec<_> = elements
+        let mut shapes: Vec<_> = elements
             .shapes
             .into_iter()
             .map(|mut shape| {
@@ -380,7 +380,7 @@ impl MarkdownParser {
             .collect();
 
         // Apply offset to connectors
-        let connectors: Vec<_> = elements
+        let mut connectors: Vec<_> = elements
             .connectors
             .into_iter()
             .map(|mut conn| {
@@ -393,6 +393,18 @@ impl MarkdownParser {
             .collect();
 
         let slide = self.slide(title);
+
+        // Each diagram numbers its shapes from 10; go on after those of earlier diagrams
+        let last_id = slide.shapes.iter().filter_map(|shape| shape.id).max();
+        let shift = last_id.map_or(0, |id| id + 1 - 10);
+        for shape in &mut shapes {
+            shape.id = shape.id.map(|id| id + shift);
+        }
+        for connector in &mut connectors {
+            connector.start_shape_id = connector.start_shape_id.map(|id| id + shift);
+            connector.end_shape_id = connector.end_shape_id.map(|id| id + shift);
+        }
+
         slide.shapes.extend(shapes);
         slide.connectors.extend(connectors);
     }
-- 
2.43.0


From 29c1f7a1691d9cdc5f1296fef42fbac833fe9c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 076/108] fix: charts wrote series names, categories, axes and
 options where the chart schema does not have them

---
 src/generator/charts/xml.rs | 210 ++++++++++++++++--------------------
 1 file changed, 90 insertions(+), 120 deletions(-)

diff --git a/src/generator/charts/xml.rs b/src/generator/charts/xml.rs
index 3d17154..a7771c0 100644
--- a/src/generator/charts/xml.rs
+++ b/src/generator/charts/xml.rs
@@ -122,35 +122,30 @@ fn column_letters(mut idx: usize) -> String {
 }
 
 /// Generate series data XML
-fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
+fn generate_series_data(chart: &Chart, idx: usize, series_name: &str, values: &[f64]) -> String {
     let mut xml = format!(
         r#"
 <c:ser>
 <c:idx val="{}"/>
 <c:order val="{}"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
+<c:strRef>
+<c:f>Sheet1!${}$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
 </c:tx>
-</c:title>
 <c:dLbls>
 <c:showVal val="0"/>
-</c:dLbls>
+</c:dLbls>{}
 <c:val>
 <c:numRef>
 <c:f>Sheet1!${}$2:${}${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
-        idx, idx, escape_xml(series_name),
+        idx, idx, column_letters(1 + idx), escape_xml(series_name), generate_category_data(chart),
         column_letters(1 + idx), column_letters(1 + idx), 1 + values.len()
     );
 
@@ -175,27 +170,16 @@ fn generate_series_data(_chart: &Chart, idx: usize, series_name: &str, values: &
     xml
 }
 
-/// Generate category axis XML
-fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
+/// Generate the category labels of a series
+fn generate_category_data(chart: &Chart) -> String {
     let mut xml = format!(
         r#"
-<c:catAx>
-<c:axId val="1"/>
-<c:scaling>
-<c:orientation val="minMax"/>
-</c:scaling>
-<c:delete val="0"/>
-<c:axPos val="{}"/>
-<c:majorGridlines/>
-<c:numFmt formatCode="General" sourceLinked="1"/>
-<c:tickLblPos val="low"/>
-<c:crossAx val="2"/>
-<c:crosses val="autoZero"/>
+<c:cat>
 <c:strRef>
 <c:f>Sheet1!$A$2:$A${}</c:f>
 <c:strCache>
 <c:ptCount val="{}"/>"#,
-        ax_pos, 1 + chart.category_count(), chart.category_count()
+        1 + chart.category_count(), chart.category_count()
     );
 
     for (idx, cat) in chart.categories.iter().enumerate() {
@@ -212,18 +196,44 @@ fn generate_category_axis(chart: &Chart, ax_pos: &str) -> String {
         r#"
 </c:strCache>
 </c:strRef>
-</c:catAx>"#
+</c:cat>"#
     );
 
     xml
 }
 
+/// References from a chart to its category (or X) and value axes
+const AXIS_IDS: &str = r#"
+<c:axId val="1"/>
+<c:axId val="2"/>"#;
+
+/// Generate category axis XML
+fn generate_category_axis(ax_pos: &str) -> String {
+    format!(
+        r#"
+<c:catAx>
+<c:axId val="1"/>
+<c:scaling>
+<c:orientation val="minMax"/>
+</c:scaling>
+<c:delete val="0"/>
+<c:axPos val="{}"/>
+<c:majorGridlines/>
+<c:numFmt formatCode="General" sourceLinked="1"/>
+<c:tickLblPos val="low"/>
+<c:crossAx val="2"/>
+<c:crosses val="autoZero"/>
+</c:catAx>"#,
+        ax_pos
+    )
+}
+
 /// Generate value axis XML
-fn generate_value_axis(ax_pos: &str) -> String {
+fn generate_value_axis(id: u32, cross_id: u32, ax_pos: &str) -> String {
     format!(
         r#"
 <c:valAx>
-<c:axId val="2"/>
+<c:axId val="{}"/>
 <c:scaling>
 <c:orientation val="minMax"/>
 </c:scaling>
@@ -232,10 +242,10 @@ fn generate_value_axis(ax_pos: &str) -> String {
 <c:majorGridlines/>
 <c:numFmt formatCode="General" sourceLinked="1"/>
 <c:tickLblPos val="low"/>
-<c:crossAx val="1"/>
+<c:crossAx val="{}"/>
 <c:crosses val="autoZero"/>
 </c:valAx>"#,
-        ax_pos
+        id, ax_pos, cross_id
     )
 }
 
@@ -255,9 +265,10 @@ fn generate_bar_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "l"));
-    xml.push_str(&generate_value_axis("b"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
+    xml.push_str(&generate_category_axis("l"));
+    xml.push_str(&generate_value_axis(2, 1, "b"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -277,9 +288,10 @@ fn generate_line_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:lineChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis(2, 1, "l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -299,30 +311,26 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
 <c:ser>
 <c:idx val="0"/>
 <c:order val="0"/>
-<c:title>
 <c:tx>
-<c:rich>
-<a:bodyPr/>
-<a:lstStyle/>
-<a:p>
-<a:r>
-<a:rPr lang="en-US" sz="1000"/>
-<a:t>{}</a:t>
-</a:r>
-</a:p>
-</c:rich>
+<c:strRef>
+<c:f>Sheet1!$B$1</c:f>
+<c:strCache>
+<c:ptCount val="1"/>
+<c:pt idx="0"><c:v>{}</c:v></c:pt>
+</c:strCache>
+</c:strRef>
 </c:tx>
-</c:title>
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>{}
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
             escape_xml(&series.name),
+            generate_category_data(chart),
             1 + series.values.len()
         ));
 
@@ -336,35 +344,11 @@ fn generate_pie_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
@@ -380,8 +364,7 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:doughnutChart>
-<c:varyColors val="1"/>
-<c:holeSize val="50"/>"#);
+<c:varyColors val="1"/>"#);
 
     // Doughnut chart uses first series only (like pie)
     if let Some(series) = chart.series.first() {
@@ -402,13 +385,14 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
 <c:dLbls>
 <c:showCatName val="1"/>
 <c:showPercent val="1"/>
-</c:dLbls>
+</c:dLbls>{}
 <c:val>
 <c:numRef>
 <c:f>Sheet1!$B$2:$B${}</c:f>
 <c:numCache>
 <c:formatCode>General</c:formatCode>"#,
             escape_xml(&series.name),
+            generate_category_data(chart),
             1 + series.values.len()
         ));
 
@@ -422,40 +406,17 @@ fn generate_doughnut_chart_xml(chart: &Chart) -> String {
             ));
         }
 
-        xml.push_str(&format!(
+        xml.push_str(
             r#"
 </c:numCache>
 </c:numRef>
 </c:val>
-<c:cat>
-<c:strRef>
-<c:f>Sheet1!$A$2:$A${}</c:f>
-<c:strCache>
-<c:ptCount val="{}"/>"#,
-            1 + chart.category_count(),
-            chart.category_count()
-        ));
-
-        for (idx, cat) in chart.categories.iter().enumerate() {
-            xml.push_str(&format!(
-                r#"
-<c:pt idx="{}">
-<c:v>{}</c:v>
-</c:pt>"#,
-                idx, escape_xml(cat)
-            ));
-        }
-
-        xml.push_str(
-            r#"
-</c:strCache>
-</c:strRef>
-</c:cat>
 </c:ser>"#
         );
     }
 
-    xml.push_str("</c:doughnutChart>");
+    xml.push_str(r#"
+<c:holeSize val="50"/></c:doughnutChart>"#);
     xml.push_str(chart_part_footer());
 
     xml
@@ -473,9 +434,10 @@ fn generate_area_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:areaChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis(2, 1, "l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -556,9 +518,10 @@ fn generate_scatter_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:scatterChart>");
+    xml.push_str(&generate_value_axis(1, 2, "b"));
+    xml.push_str(&generate_value_axis(2, 1, "l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -569,8 +532,7 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
     let mut xml = chart_part_header(chart);
     
     xml.push_str(r#"<c:bubbleChart>
-<c:varyColors val="0"/>
-<c:bubbleScale val="100"/>"#);
+<c:varyColors val="0"/>"#);
 
     for (idx, series) in chart.series.iter().enumerate() {
         let column = column_letters(1 + 2 * idx);
@@ -662,9 +624,12 @@ fn generate_bubble_chart_xml(chart: &Chart) -> String {
         );
     }
 
-    xml.push_str(&generate_value_axis("b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(r#"
+<c:bubbleScale val="100"/>"#);
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:bubbleChart>");
+    xml.push_str(&generate_value_axis(1, 2, "b"));
+    xml.push_str(&generate_value_axis(2, 1, "l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -682,9 +647,10 @@ fn generate_radar_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:radarChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis(2, 1, "l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -701,9 +667,10 @@ fn generate_stock_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:stockChart>");
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis(2, 1, "l"));
     xml.push_str(chart_part_footer());
 
     xml
@@ -723,8 +690,7 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
         xml.push_str(&generate_series_data(chart, idx, &series.name, &series.values));
     }
 
-    xml.push_str(&generate_category_axis(chart, "b"));
-    xml.push_str(&generate_value_axis("l"));
+    xml.push_str(AXIS_IDS);
     xml.push_str("</c:barChart>");
 
     // Second half as lines
@@ -736,9 +702,13 @@ fn generate_combo_chart_xml(chart: &Chart) -> String {
             xml.push_str(&generate_series_data(chart, mid + idx, &series.name, &series.values));
         }
 
+        xml.push_str(AXIS_IDS);
         xml.push_str("</c:lineChart>");
     }
 
+    xml.push_str(&generate_category_axis("b"));
+    xml.push_str(&generate_value_axis(2, 1, "l"));
+
     xml.push_str(chart_part_footer());
 
     xml
-- 
2.43.0


From a66c4e8ec200379befc529b55a1f5230be6639d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 077/108] fix: shape kinds were written with preset names that
 do not exist

---
 src/generator/shapes.rs | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index 01c98d9..f7eb01d 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -189,12 +189,12 @@ impl ShapeType {
             ShapeType::FlowChartDocument => "flowChartDocument",
             ShapeType::FlowChartPredefinedProcess => "flowChartPredefinedProcess",
             ShapeType::FlowChartInternalStorage => "flowChartInternalStorage",
-            ShapeType::FlowChartData => "flowChartData",
+            ShapeType::FlowChartData => "flowChartInputOutput",
             ShapeType::FlowChartInputOutput => "flowChartInputOutput",
             ShapeType::FlowChartManualInput => "flowChartManualInput",
             ShapeType::FlowChartManualOperation => "flowChartManualOperation",
             ShapeType::FlowChartConnector => "flowChartConnector",
-            ShapeType::FlowChartOffPageConnector => "flowChartOffPageConnector",
+            ShapeType::FlowChartOffPageConnector => "flowChartOffpageConnector",
             ShapeType::FlowChartPunchedCard => "flowChartPunchedCard",
             ShapeType::FlowChartPunchedTape => "flowChartPunchedTape",
             ShapeType::FlowChartSummingJunction => "flowChartSummingJunction",
@@ -215,11 +215,11 @@ impl ShapeType {
             ShapeType::CurvedLeftArrow => "curvedLeftArrow",
             ShapeType::CurvedUpArrow => "curvedUpArrow",
             ShapeType::CurvedDownArrow => "curvedDownArrow",
-            ShapeType::CurvedLeftRightArrow => "curvedLeftRightArrow",
-            ShapeType::CurvedUpDownArrow => "curvedUpDownArrow",
+            ShapeType::CurvedLeftRightArrow => "leftRightArrow",
+            ShapeType::CurvedUpDownArrow => "upDownArrow",
             ShapeType::StripedRightArrow => "stripedRightArrow",
             ShapeType::NotchedRightArrow => "notchedRightArrow",
-            ShapeType::PentagonArrow => "pentArrow",
+            ShapeType::PentagonArrow => "homePlate",
             ShapeType::ChevronArrow => "chevron",
             ShapeType::RightArrowCallout => "rightArrowCallout",
             ShapeType::LeftArrowCallout => "leftArrowCallout",
@@ -234,11 +234,11 @@ impl ShapeType {
             ShapeType::Parallelogram => "parallelogram",
             ShapeType::Trapezoid => "trapezoid",
             ShapeType::NonIsoscelesTrapezoid => "nonIsoscelesTrapezoid",
-            ShapeType::IsoscelesTrapezoid => "isoTrapezoid",
+            ShapeType::IsoscelesTrapezoid => "trapezoid",
             ShapeType::Cube => "cube",
             ShapeType::Can => "can",
-            ShapeType::Cone => "cone",
-            ShapeType::Cylinder => "cylinder",
+            ShapeType::Cone => "triangle",
+            ShapeType::Cylinder => "can",
             ShapeType::Bevel => "bevel",
             ShapeType::Donut => "donut",
             ShapeType::NoSmoking => "noSmoking",
@@ -250,7 +250,7 @@ impl ShapeType {
             ShapeType::Pie => "pie",
             ShapeType::Teardrop => "teardrop",
             ShapeType::Plaque => "plaque",
-            ShapeType::MusicNote => "musicNote",
+            ShapeType::MusicNote => "actionButtonSound",
             ShapeType::PictureFrame => "frame",
             
             ShapeType::Star10 => "star10",
@@ -258,11 +258,11 @@ impl ShapeType {
             ShapeType::Star16 => "star16",
             ShapeType::Star24 => "star24",
             ShapeType::Star32 => "star32",
-            ShapeType::Seal => "seal",
-            ShapeType::Seal4 => "seal4",
-            ShapeType::Seal8 => "seal8",
-            ShapeType::Seal16 => "seal16",
-            ShapeType::Seal32 => "seal32",
+            ShapeType::Seal => "irregularSeal1",
+            ShapeType::Seal4 => "star4",
+            ShapeType::Seal8 => "star8",
+            ShapeType::Seal16 => "star16",
+            ShapeType::Seal32 => "star32",
             ShapeType::ActionButtonBlank => "actionButtonBlank",
             ShapeType::ActionButtonHome => "actionButtonHome",
             ShapeType::ActionButtonHelp => "actionButtonHelp",
-- 
2.43.0


From 4ab87187b044929d298b6a629a5a02cec74c0c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 078/108] fix: gradients were written with angles past a full
 turn and a path name that does not exist

---
 src/generator/gradients.rs | 4 ++--
 src/generator/shapes.rs    | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/gradients.rs b/src/generator/gradients.rs
index ff77f5f..92f5488 100644
--- a/src/generator/gradients.rs
+++ b/src/generator/gradients.rs
@@ -22,7 +22,7 @@ impl GradientType {
             GradientType::Linear => "lin",
             GradientType::Radial => "circle",
             GradientType::Rectangular => "rect",
-            GradientType::Path => "path",
+            GradientType::Path => "shape",
         }
     }
 }
@@ -50,7 +50,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,
             GradientDirection::DiagonalDown => 2700000,
             GradientDirection::DiagonalUp => 18900000,
-            GradientDirection::Custom(deg) => deg * 60000,
+            GradientDirection::Custom(deg) => (deg % 360) * 60000,
         }
     }
 }
diff --git a/src/generator/shapes.rs b/src/generator/shapes.rs
index f7eb01d..8173e2a 100644
--- a/src/generator/shapes.rs
+++ b/src/generator/shapes.rs
@@ -447,7 +447,7 @@ impl GradientDirection {
             GradientDirection::Vertical => 5400000,      // 90 * 60000
             GradientDirection::DiagonalDown => 2700000,  // 45 * 60000
             GradientDirection::DiagonalUp => 18900000,   // 315 * 60000
-            GradientDirection::Angle(deg) => deg * 60000,
+            GradientDirection::Angle(deg) => (deg % 360) * 60000,
         }
     }
 }
-- 
2.43.0


From 41e61a1cfe64ce1c1fa98a19d2e07fe170474f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 079/108] fix: double cell borders were written with a dash
 name that does not exist

---
 src/parts/table.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index 9d7129a..85ad3c7 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -104,15 +104,21 @@ impl CellBorder {
         if self.style == BorderStyle::None {
             return format!("<a:{}/>\n", tag);
         }
+        // A double line is a compound line, not a dash.
+        let (compound, dash) = match self.style {
+            BorderStyle::Double => ("dbl", "solid"),
+            style => ("sng", style.as_str()),
+        };
         format!(
-            r#"<a:{} w="{}" cap="flat" cmpd="sng" algn="ctr">
+            r#"<a:{} w="{}" cap="flat" cmpd="{}" algn="ctr">
               <a:solidFill><a:srgbClr val="{}"/></a:solidFill>
               <a:prstDash val="{}"/>
             </a:{}>"#,
             tag,
             self.width,
+            compound,
             self.color.trim_start_matches('#'),
-            self.style.as_str(),
+            dash,
             tag
         )
     }
-- 
2.43.0


From 76d93650c5d63dcf38aff6dee3ac3abb255dd17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 080/108] fix: table rows without a height lacked the required
 attribute

---
 src/parts/table.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/parts/table.rs b/src/parts/table.rs
index 85ad3c7..1529b83 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -505,10 +505,8 @@ impl TableRowPart {
 
     /// Generate XML for this row
     pub fn to_xml(&self) -> String {
-        let height_attr = self
-            .height
-            .map(|h| format!(r#" h="{}""#, h))
-            .unwrap_or_default();
+        // The height is required; PowerPoint grows rows to fit their text.
+        let height_attr = format!(r#" h="{}""#, self.height.unwrap_or(370840));
 
         let cells_xml: String = self
             .cells
-- 
2.43.0


From 7a8e1c4c9ab1d1a8b7bdc7d47c4c06bd1156cd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 081/108] fix: ink required a namespace its slide did not
 declare

---
 src/generator/slide_xml/content.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index d527488..7cb4268 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -93,7 +93,7 @@ pub fn render_additional_content(
         && content.ink_annotations.is_some() {
             xml.push('\n');
             xml.push_str(&format!(
-                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
+                r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main" Requires="p14"><p:contentPart xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" r:id="{}"/></mc:Choice></mc:AlternateContent>"#,
                 rel_id
             ));
         }
-- 
2.43.0


From ffc74276d165c952b690a08c1983ce7edc7c60c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 082/108] fix: an empty code block was written as a text body
 without a paragraph

---
 src/generator/slide_xml/content.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 7cb4268..917d52f 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -122,6 +122,13 @@ fn generate_code_block(
         xml
     };
 
+    // A text body needs at least one paragraph
+    let highlighted_xml = if highlighted_xml.is_empty() {
+        r#"<a:p><a:endParaRPr lang="en-US" sz="1400" dirty="0"/></a:p>"#.to_string()
+    } else {
+        highlighted_xml
+    };
+
     let x = code_block.x;
     let y = code_block.y;
     let width = code_block.width;
-- 
2.43.0


From 087b75a4435007fdbfa33c7fc4ac513dbc308c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 083/108] fix: connector labels were written inside the
 connector, which holds no text

---
 src/generator/connectors.rs        | 39 +++++++++++++++++++++++++-----
 src/generator/slide_xml/content.rs |  7 ++++--
 2 files changed, 38 insertions(+), 8 deletions(-)

diff --git a/src/generator/connectors.rs b/src/generator/connectors.rs
index eefb63c..450d37b 100644
--- a/src/generator/connectors.rs
+++ b/src/generator/connectors.rs
@@ -350,7 +350,18 @@ impl Connector {
 }
 
 /// Generate connector XML for a slide
+///
+/// A connector cannot hold text: its label becomes a text box, with the next ID, at its middle.
 pub fn generate_connector_xml(connector: &Connector, shape_id: usize) -> String {
+    generate_connector_xml_with_label_id(connector, shape_id, shape_id + 1)
+}
+
+/// Generate connector XML for a slide, giving the text box of its label an ID of its own
+pub fn generate_connector_xml_with_label_id(
+    connector: &Connector,
+    shape_id: usize,
+    label_id: usize,
+) -> String {
     let x = connector.start_x.min(connector.end_x);
     let y = connector.start_y.min(connector.end_y);
     let cx = connector.width();
@@ -433,29 +444,45 @@ pub fn generate_connector_xml(connector: &Connector, shape_id: usize) -> String
 
     xml.push_str(r#"
 </a:ln>
-</p:spPr>"#);
+</p:spPr>
+</p:cxnSp>"#);
 
     // Add label if present
     if let Some(label) = &connector.label {
         xml.push_str(&format!(
             r#"
+<p:sp>
+<p:nvSpPr>
+<p:cNvPr id="{label_id}" name="Connector Label {label_id}"/>
+<p:cNvSpPr txBox="1"/>
+<p:nvPr/>
+</p:nvSpPr>
+<p:spPr>
+<a:xfrm>
+<a:off x="{x}" y="{y}"/>
+<a:ext cx="{cx}" cy="{cy}"/>
+</a:xfrm>
+<a:prstGeom prst="rect">
+<a:avLst/>
+</a:prstGeom>
+<a:noFill/>
+</p:spPr>
 <p:txBody>
-<a:bodyPr/>
+<a:bodyPr wrap="none" anchor="ctr"/>
 <a:lstStyle/>
 <a:p>
+<a:pPr algn="ctr"/>
 <a:r>
 <a:rPr lang="en-US" sz="1000"/>
 <a:t>{}</a:t>
 </a:r>
 </a:p>
-</p:txBody>"#,
+</p:txBody>
+</p:sp>"#,
             escape_xml(label)
         ));
     }
 
-    xml.push_str(r#"
-</p:cxnSp>"#);
-
     xml
 }
 
diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 917d52f..4affcb2 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -65,8 +65,11 @@ pub fn render_additional_content(
     for (i, connector) in content.connectors.iter().enumerate() {
         xml.push('\n');
         let id = assign_id(connector_start_id + i);
-        xml.push_str(&crate::generator::connectors::generate_connector_xml(
-            connector, id,
+        let label_id = connector.label.as_ref().map_or(id, |_| {
+            assign_id(connector_start_id + content.connectors.len() + i)
+        });
+        xml.push_str(&crate::generator::connectors::generate_connector_xml_with_label_id(
+            connector, id, label_id,
         ));
     }
 
-- 
2.43.0


From a15f118832dcf19116ae69fc94ba61989298ab80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 084/108] fix: the reveal transition was written with an
 element the namespace does not have

---
 src/generator/slide_content/transition.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_content/transition.rs b/src/generator/slide_content/transition.rs
index 4039709..0fb33c5 100644
--- a/src/generator/slide_content/transition.rs
+++ b/src/generator/slide_content/transition.rs
@@ -27,7 +27,7 @@ impl TransitionType {
             TransitionType::Push => r#"<p:transition><p:push dir="r"/></p:transition>"#.to_string(), // Default right
             TransitionType::Wipe => r#"<p:transition><p:wipe dir="r"/></p:transition>"#.to_string(), // Default right
             TransitionType::Split => r#"<p:transition><p:split dir="out" orient="horz"/></p:transition>"#.to_string(),
-            TransitionType::Reveal => r#"<p:transition><p:reveal dir="r"/></p:transition>"#.to_string(),
+            TransitionType::Reveal => r#"<mc:AlternateContent xmlns:mc="http://schemas.openxmlformats.org/markup-compatibility/2006"><mc:Choice xmlns:p14="http://schemas.microsoft.com/office/powerpoint/2010/main" Requires="p14"><p:transition><p14:reveal dir="r"/></p:transition></mc:Choice><mc:Fallback><p:transition><p:fade/></p:transition></mc:Fallback></mc:AlternateContent>"#.to_string(),
             TransitionType::Cover => r#"<p:transition><p:cover dir="r"/></p:transition>"#.to_string(),
             TransitionType::Zoom => r#"<p:transition><p:zoom dir="in"/></p:transition>"#.to_string(),
         }
-- 
2.43.0


From 1a7dd9523977e4e1d7d5555938c295418182b86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 085/108] fix: picture effects were written twice or out of
 order

---
 src/generator/image_effects.rs | 14 ++++++++++++--
 src/generator/images.rs        |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/generator/image_effects.rs b/src/generator/image_effects.rs
index d55e624..46d2e44 100644
--- a/src/generator/image_effects.rs
+++ b/src/generator/image_effects.rs
@@ -10,9 +10,19 @@ pub fn generate_effect_list_xml(effects: &[ImageEffect]) -> String {
         return String::new();
     }
 
+    // The schema has each effect at most once, in this order
     let mut xml = String::from("<a:effectLst>");
-    for effect in effects {
-        xml.push_str(&generate_effect_xml(effect));
+    for kind in [
+        ImageEffect::Blur,
+        ImageEffect::Glow,
+        ImageEffect::InnerShadow,
+        ImageEffect::Shadow,
+        ImageEffect::Reflection,
+        ImageEffect::SoftEdges,
+    ] {
+        if effects.contains(&kind) {
+            xml.push_str(&generate_effect_xml(&kind));
+        }
     }
     xml.push_str("</a:effectLst>");
     xml
diff --git a/src/generator/images.rs b/src/generator/images.rs
index bc8f688..e15f971 100644
--- a/src/generator/images.rs
+++ b/src/generator/images.rs
@@ -53,7 +53,7 @@ impl Crop {
 }
 
 /// Image effects
-#[derive(Clone, Debug)]
+#[derive(Clone, Debug, PartialEq)]
 pub enum ImageEffect {
     /// Outer shadow
     Shadow,
-- 
2.43.0


From 334e2a29a58d7617dab766b6c7ece0bacc156374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 086/108] fix: code in shapes had its font before its colour

---
 src/generator/shapes_xml.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/shapes_xml.rs b/src/generator/shapes_xml.rs
index 3b3a634..117dd4e 100644
--- a/src/generator/shapes_xml.rs
+++ b/src/generator/shapes_xml.rs
@@ -350,7 +350,7 @@ fn generate_text_xml_with_autofit(text: &Option<String>, width: u32, height: u32
                         r#"<a:p>
 <a:pPr algn="l"/>
 <a:r>
-<a:rPr lang="en-US" sz="1200" dirty="0"><a:latin typeface="Consolas"/><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill></a:rPr>
+<a:rPr lang="en-US" sz="1200" dirty="0"><a:solidFill><a:srgbClr val="FFFFFF"/></a:solidFill><a:latin typeface="Consolas"/></a:rPr>
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-- 
2.43.0


From da00a0467d0ed58f1a8665c9f9434027ef8deefe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:35:30 +0000
Subject: [PATCH 087/108] fix: bullets deeper than nine levels were written
 with a level that does not exist

---
 src/generator/layouts/common.rs       | 3 ++-
 src/generator/slide_content/bullet.rs | 4 ++++
 src/generator/slide_content/mod.rs    | 1 +
 src/generator/slide_xml/layouts.rs    | 9 +++++----
 4 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/generator/layouts/common.rs b/src/generator/layouts/common.rs
index 88cf029..24704cb 100644
--- a/src/generator/layouts/common.rs
+++ b/src/generator/layouts/common.rs
@@ -4,7 +4,7 @@ use crate::core::XmlWriter;
 use crate::generator::constants::{
     SLIDE_WIDTH, SLIDE_HEIGHT,
 };
-use crate::generator::slide_content::BulletStyle;
+use crate::generator::slide_content::{BulletStyle, MAX_LEVEL};
 
 /// XML declaration and namespaces
 pub const XML_DECL: &str = r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>"#;
@@ -263,6 +263,7 @@ impl SlideXmlBuilder {
     
     /// Add bullet paragraph with specific style
     pub fn add_bullet_with_style(mut self, text: &str, props: &str, level: u32, style: BulletStyle) -> Self {
+        let level = level.min(MAX_LEVEL);
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200 + indent;
         let bullet_xml = style.to_xml();
diff --git a/src/generator/slide_content/bullet.rs b/src/generator/slide_content/bullet.rs
index 314d856..ba7a552 100644
--- a/src/generator/slide_content/bullet.rs
+++ b/src/generator/slide_content/bullet.rs
@@ -24,6 +24,9 @@ pub enum BulletStyle {
     None,
 }
 
+/// Deepest indentation level of a paragraph
+pub(crate) const MAX_LEVEL: u32 = 8;
+
 impl BulletStyle {
     /// Get the OOXML bullet type attribute
     pub fn to_xml(&self) -> String {
@@ -43,6 +46,7 @@ impl BulletStyle {
     
     /// Get the OOXML indent level XML
     pub fn indent_xml(&self, level: u32) -> String {
+        let level = level.min(MAX_LEVEL);
         let indent = 457200 + (level * 457200); // 0.5 inch base + 0.5 inch per level
         let margin_left = level * 457200;
         format!(r#"indent="-{}" marL="{}""#, indent, margin_left + indent)
diff --git a/src/generator/slide_content/mod.rs b/src/generator/slide_content/mod.rs
index 4081347..87ccd37 100644
--- a/src/generator/slide_content/mod.rs
+++ b/src/generator/slide_content/mod.rs
@@ -23,6 +23,7 @@ pub mod table_merge;
 pub mod embedded_fonts;
 pub mod presentation_settings;
 
+pub(crate) use bullet::MAX_LEVEL;
 pub use bullet::{BulletStyle, BulletPoint, BulletTextFormat};
 pub use layout::SlideLayout;
 pub use code_block::CodeBlock;
diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 95c0224..bd22aeb 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -1,6 +1,6 @@
 //! Slide layout implementations
 
-use crate::generator::slide_content::{SlideContent, BulletPoint, BulletTextFormat};
+use crate::generator::slide_content::{SlideContent, BulletPoint, BulletTextFormat, MAX_LEVEL};
 use crate::core::escape_xml;
 use crate::generator::slide::formatting::generate_text_props;
 use super::common::{SLIDE_HEADER, SLIDE_FOOTER, generate_title_shape};
@@ -36,8 +36,9 @@ fn generate_bullet_paragraph_from_point(
     bullet: &BulletPoint,
     default_props: &ExtendedTextProps,
 ) -> String {
-    let indent = 457200 + (bullet.level * 457200);
-    let margin_left = bullet.level * 457200 + indent;
+    let level = bullet.level.min(MAX_LEVEL);
+    let indent = 457200 + (level * 457200);
+    let margin_left = level * 457200 + indent;
     let bullet_xml = bullet.style.to_xml();
     let text_props = generate_bullet_text_props(default_props, bullet.format.as_ref());
     
@@ -52,7 +53,7 @@ fn generate_bullet_paragraph_from_point(
 <a:t>{}</a:t>
 </a:r>
 </a:p>"#,
-        bullet.level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
+        level, margin_left, indent, bullet_xml, text_props, escape_xml(&bullet.text)
     )
 }
 
-- 
2.43.0


From 6920bffc38d8a714c06294e47a9f3d0d1e301a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:11 +0000
Subject: [PATCH 088/108] fix: narration was left out of slide shows that did
 not ask for it

---
 src/generator/slide_content/slide_show_settings.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_content/slide_show_settings.rs b/src/generator/slide_content/slide_show_settings.rs
index 3fff7db..8420d79 100644
--- a/src/generator/slide_content/slide_show_settings.rs
+++ b/src/generator/slide_content/slide_show_settings.rs
@@ -132,9 +132,11 @@ impl SlideShowSettings {
         if self.loop_continuously {
             attrs.push(r#"loop="1""#.to_string());
         }
-        if self.show_without_narration {
-            attrs.push(r#"showNarration="0""#.to_string());
-        }
+        // The schema leaves the narration out of the show unless told otherwise.
+        attrs.push(format!(
+            r#"showNarration="{}""#,
+            if self.show_without_narration { "0" } else { "1" }
+        ));
         if self.show_without_animation {
             attrs.push(r#"showAnimation="0""#.to_string());
         }
-- 
2.43.0


From 01a94e83165df9112a72fad9aabe02da1cfd5239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:11 +0000
Subject: [PATCH 089/108] fix: runs ignored strikethrough, highlight, subscript
 and superscript

---
 src/generator/text/run.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/generator/text/run.rs b/src/generator/text/run.rs
index 980c59b..a80a879 100644
--- a/src/generator/text/run.rs
+++ b/src/generator/text/run.rs
@@ -68,6 +68,14 @@ impl Run {
         let bold = if self.format.bold { "1" } else { "0" };
         let italic = if self.format.italic { "1" } else { "0" };
         let underline = if self.format.underline { " u=\"sng\"" } else { "" };
+        let strike = if self.format.strikethrough { " strike=\"sngStrike\"" } else { "" };
+        let baseline = if self.format.subscript {
+            " baseline=\"-25000\""
+        } else if self.format.superscript {
+            " baseline=\"30000\""
+        } else {
+            ""
+        };
         
         let color_xml = self.format.color.as_ref()
             .map(|c| format!(r#"<a:solidFill><a:srgbClr val="{}"/></a:solidFill>"#, c))
@@ -77,9 +85,11 @@ impl Run {
             .map(|f| format!(r#"<a:latin typeface="{}"/>"#, escape_xml(f)))
             .unwrap_or_default();
 
+        let highlight_xml = self.format.to_highlight_xml();
+
         format!(
-            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{} dirty="0">{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
-            size, bold, italic, underline, color_xml, font_xml, escape_xml(&self.text)
+            r#"<a:r><a:rPr lang="en-US" sz="{}" b="{}" i="{}"{}{}{} dirty="0">{}{}{}</a:rPr><a:t>{}</a:t></a:r>"#,
+            size, bold, italic, underline, strike, baseline, color_xml, highlight_xml, font_xml, escape_xml(&self.text)
         )
     }
 }
-- 
2.43.0


From b803e8f0f557ee0639cfdbbc3f25e3a78d522adc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:11 +0000
Subject: [PATCH 090/108] fix: centred table cells were written left and at the
 top

---
 src/generator/table/format.rs | 16 +++-------------
 src/parts/table.rs            |  6 +-----
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/generator/table/format.rs b/src/generator/table/format.rs
index ccadbd4..d6ccccb 100644
--- a/src/generator/table/format.rs
+++ b/src/generator/table/format.rs
@@ -1,6 +1,6 @@
 //! Shared table cell formatting and XML generation
 
-use super::cell::{CellAlign, CellVAlign, TableCell};
+use super::cell::TableCell;
 use crate::core::escape_xml;
 use crate::generator::slide_content::table_merge::CellMergeState;
 use crate::generator::text::{color_to_xml, TextFormat};
@@ -71,11 +71,7 @@ pub fn run_properties_xml(cell: &TableCell) -> String {
 
 /// Paragraph properties element for `<a:p>`.
 pub fn paragraph_props_xml(cell: &TableCell) -> String {
-    if cell.align == CellAlign::Center {
-        String::new()
-    } else {
-        format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
-    }
+    format!(r#"<a:pPr algn="{}"/>"#, cell.align.as_str())
 }
 
 /// Body properties for `<a:bodyPr>` inside table cells.
@@ -86,19 +82,13 @@ pub fn body_props_xml(_cell: &TableCell) -> String {
 
 /// Cell properties (`<a:tcPr>`) including background and vertical alignment.
 pub fn tc_properties_xml(cell: &TableCell) -> String {
-    let anchor = if cell.valign == CellVAlign::Middle {
-        String::new()
-    } else {
-        format!(r#" anchor="{}""#, cell.valign.as_str())
-    };
+    let anchor = format!(r#" anchor="{}""#, cell.valign.as_str());
 
     if let Some(ref background) = cell.background_color {
         format!(
             r#"<a:tcPr{anchor}>{}</a:tcPr>"#,
             color_to_xml(background)
         )
-    } else if anchor.is_empty() {
-        "<a:tcPr/>".to_string()
     } else {
         format!(r#"<a:tcPr{anchor}/>"#)
     }
diff --git a/src/parts/table.rs b/src/parts/table.rs
index 1529b83..5b88b82 100644
--- a/src/parts/table.rs
+++ b/src/parts/table.rs
@@ -425,11 +425,7 @@ impl TableCellPart {
             .unwrap_or_default();
 
         // Paragraph alignment
-        let p_pr = if self.h_align == HorizontalAlign::Center {
-            String::new()
-        } else {
-            format!(r#"<a:pPr algn="{}"/>"#, self.h_align.as_str())
-        };
+        let p_pr = format!(r#"<a:pPr algn="{}"/>"#, self.h_align.as_str());
 
         // Cell properties
         let mut tcpr_attrs = format!(r#" anchor="{}""#, self.v_align.as_str());
-- 
2.43.0


From ad4c9e2c52462fb167155eded37a531d2aa19533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:11 +0000
Subject: [PATCH 091/108] fix: titles of section headers were bold even when
 asked not to be

---
 src/generator/slide_xml/layouts.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index bd22aeb..66bdea0 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -110,7 +110,7 @@ pub fn create_section_header_slide(
     let title_size = content.title_size.unwrap_or(48) * 100;
     let title_props = generate_text_props(
         title_size,
-        true,
+        content.title_bold,
         content.title_italic,
         content.title_underline,
         content.title_color.as_deref(),
-- 
2.43.0


From 7239275b571c2d3147ca72ce2aa98c5a1e576e6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:11 +0000
Subject: [PATCH 092/108] fix: content_underline had no effect

---
 src/generator/slide_xml/layouts.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 66bdea0..0c02b96 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -243,7 +243,7 @@ pub fn create_title_and_big_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
@@ -326,7 +326,7 @@ pub fn create_two_column_slide(
         content_size,
         content.content_bold,
         content.content_italic,
-        false,
+        content.content_underline,
         content.content_color.as_deref(),
     );
 
@@ -505,7 +505,7 @@ pub fn create_title_and_content_slide(
             content_size,
             content.content_bold,
             content.content_italic,
-            false,
+            content.content_underline,
             content.content_color.as_deref(),
         );
 
-- 
2.43.0


From 1ff8c92e10120b61af238f6c4578cfac740d620d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 093/108] fix: colours with characters beyond ASCII made the
 PDF export panic

---
 src/export/slide_render.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 9e4bb57..234f13a 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -63,7 +63,7 @@ fn font_name(bold: bool, italic: bool) -> &'static str {
 
 fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     let h = hex.trim_start_matches('#');
-    if h.len() == 6 {
+    if h.len() == 6 && h.is_ascii() {
         let r = u8::from_str_radix(&h[0..2], 16).unwrap_or(0);
         let g = u8::from_str_radix(&h[2..4], 16).unwrap_or(0);
         let b = u8::from_str_radix(&h[4..6], 16).unwrap_or(0);
-- 
2.43.0


From 38ffd812ebbe8078dd609e16a43c752a2cdd03d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 094/108] fix: lettered bullets past the 26th were signs in the
 PDF export

---
 src/export/slide_render.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 234f13a..0b9b372 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -120,8 +120,8 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     match style {
         BulletStyle::Bullet => "\u{2022}".to_string(),
         BulletStyle::Number => format!("{}.", index + 1),
-        BulletStyle::LetterLower => format!("{}.", char::from_u32(b'a' as u32 + index).unwrap_or('a')),
-        BulletStyle::LetterUpper => format!("{}.", char::from_u32(b'A' as u32 + index).unwrap_or('A')),
+        BulletStyle::LetterLower => format!("{}.", to_letters(index).to_lowercase()),
+        BulletStyle::LetterUpper => format!("{}.", to_letters(index)),
         BulletStyle::RomanLower => to_roman(index + 1).to_lowercase(),
         BulletStyle::RomanUpper => to_roman(index + 1),
         BulletStyle::Custom(ch) => ch.to_string(),
@@ -129,6 +129,12 @@ fn bullet_prefix(style: BulletStyle, index: u32) -> String {
     }
 }
 
+/// A to Z, then AA, BB and so on, as PowerPoint numbers.
+fn to_letters(index: u32) -> String {
+    let letter = (b'A' + (index % 26) as u8) as char;
+    letter.to_string().repeat(index as usize / 26 + 1)
+}
+
 fn to_roman(mut num: u32) -> String {
     let pairs = [(1000, "M"), (900, "CM"), (500, "D"), (400, "CD"), (100, "C"), (90, "XC"), (50, "L"), (40, "XL"), (10, "X"), (9, "IX"), (5, "V"), (4, "IV"), (1, "I")];
     let mut result = String::new();
-- 
2.43.0


From 4dfd7a48743883ebdc60d4299ead1396ea238159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:14:27 +0000
Subject: [PATCH 095/108] fix: PDF pages lacked the font of code and the
 encoding of other characters

---
 src/export/slide_render.rs | 68 ++++++++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 24 deletions(-)

diff --git a/src/export/slide_render.rs b/src/export/slide_render.rs
index 0b9b372..439cb7c 100644
--- a/src/export/slide_render.rs
+++ b/src/export/slide_render.rs
@@ -19,36 +19,29 @@ const FONT_HELVETICA: &str = "Helvetica";
 const FONT_HELVETICA_BOLD: &str = "Helvetica-Bold";
 const FONT_HELVETICA_OBLIQUE: &str = "Helvetica-Oblique";
 const FONT_HELVETICA_BOLD_OBLIQUE: &str = "Helvetica-BoldOblique";
+const FONT_COURIER: &str = "Courier";
 
 struct FontIds {
     helvetica: u32,
     helvetica_bold: u32,
     helvetica_oblique: u32,
     helvetica_bold_oblique: u32,
+    courier: u32,
 }
 
 fn add_fonts(generator: &mut PdfGenerator) -> FontIds {
-    let helvetica = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA
-    ));
-    let helvetica_bold = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD
-    ));
-    let helvetica_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_OBLIQUE
-    ));
-    let helvetica_bold_oblique = generator.add_object(format!(
-        "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n>>\n",
-        FONT_HELVETICA_BOLD_OBLIQUE
-    ));
+    let mut add_font = |name: &str| {
+        generator.add_object(format!(
+            "<< /Type /Font\n/Subtype /Type1\n/BaseFont /{}\n/Encoding /WinAnsiEncoding\n>>\n",
+            name
+        ))
+    };
     FontIds {
-        helvetica,
-        helvetica_bold,
-        helvetica_oblique,
-        helvetica_bold_oblique,
+        helvetica: add_font(FONT_HELVETICA),
+        helvetica_bold: add_font(FONT_HELVETICA_BOLD),
+        helvetica_oblique: add_font(FONT_HELVETICA_OBLIQUE),
+        helvetica_bold_oblique: add_font(FONT_HELVETICA_BOLD_OBLIQUE),
+        courier: add_font(FONT_COURIER),
     }
 }
 
@@ -73,10 +66,35 @@ fn hex_to_rgb(hex: &str) -> (f32, f32, f32) {
     }
 }
 
+/// The code of a character in WinAnsiEncoding, which the fonts of the document use.
+fn win_ansi_code(c: char) -> Option<u32> {
+    // The characters of the codes from 0x80 to 0x9F.
+    const HIGH: [char; 32] = [
+        '€', '\0', '‚', 'ƒ', '„', '…', '†', '‡', 'ˆ', '‰', 'Š', '‹', 'Œ', '\0', 'Ž', '\0',
+        '\0', '‘', '’', '“', '”', '•', '–', '—', '˜', '™', 'š', '›', 'œ', '\0', 'ž', 'Ÿ',
+    ];
+    match c {
+        '\0'..='\x7f' | '\u{a0}'..='\u{ff}' => Some(c as u32),
+        _ => HIGH.iter().position(|h| *h == c).map(|i| i as u32 + 0x80),
+    }
+}
+
 fn escape_pdf_text(s: &str) -> String {
-    s.replace('\\', "\\\\")
-        .replace('(', "\\(")
-        .replace(')', "\\)")
+    let mut escaped = String::with_capacity(s.len());
+    for c in s.chars() {
+        match c {
+            '\\' | '(' | ')' => {
+                escaped.push('\\');
+                escaped.push(c);
+            }
+            _ if c.is_ascii() => escaped.push(c),
+            _ => match win_ansi_code(c) {
+                Some(code) => escaped.push_str(&format!("\\{code:03o}")),
+                None => escaped.push('?'),
+            },
+        }
+    }
+    escaped
 }
 
 fn set_color(out: &mut Vec<u8>, r: f32, g: f32, b: f32) {
@@ -310,7 +328,7 @@ fn render_slide(
             if y < margin {
                 break;
             }
-            draw_text_line(&mut cs, line, margin + 8.0, y, "Courier", code_size, 0.1, 0.1, 0.1);
+            draw_text_line(&mut cs, line, margin + 8.0, y, FONT_COURIER, code_size, 0.1, 0.1, 0.1);
             y -= code_line_h;
         }
         y -= line_height * 0.5;
@@ -352,6 +370,7 @@ fn add_page(
              /{} {} 0 R \
              /{} {} 0 R \
              /{} {} 0 R \
+             /{} {} 0 R \
          >> >>\n\
          >>\n",
         pages_obj_id,
@@ -362,6 +381,7 @@ fn add_page(
         FONT_HELVETICA_BOLD, font_ids.helvetica_bold,
         FONT_HELVETICA_OBLIQUE, font_ids.helvetica_oblique,
         FONT_HELVETICA_BOLD_OBLIQUE, font_ids.helvetica_bold_oblique,
+        FONT_COURIER, font_ids.courier,
     );
     generator.add_object(page_dict)
 }
-- 
2.43.0


From 106939ea079c0f2416f7c792ba361f1c70df184c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:20:23 +0000
Subject: [PATCH 096/108] fix: bullets of centered titles and section headers
 were dropped

---
 src/generator/slide_xml/layouts.rs | 67 ++++++++++++++++++++++++++++++
 1 file changed, 67 insertions(+)

diff --git a/src/generator/slide_xml/layouts.rs b/src/generator/slide_xml/layouts.rs
index 0c02b96..013a9c4 100644
--- a/src/generator/slide_xml/layouts.rs
+++ b/src/generator/slide_xml/layouts.rs
@@ -57,6 +57,71 @@ fn generate_bullet_paragraph_from_point(
     )
 }
 
+/// Render the bullets of a title slide as a subtitle below its title
+fn render_subtitle(xml: &mut String, content: &SlideContent, y: u32, height: u32) {
+    if content.bullets.is_empty() && content.content.is_empty() {
+        return;
+    }
+
+    xml.push_str(&format!(
+        r#"
+<p:sp>
+<p:nvSpPr>
+<p:cNvPr id="3" name="Content"/>
+<p:cNvSpPr txBox="1"/>
+<p:nvPr/>
+</p:nvSpPr>
+<p:spPr>
+<a:xfrm>
+<a:off x="457200" y="{y}"/>
+<a:ext cx="8230200" cy="{height}"/>
+</a:xfrm>
+<a:prstGeom prst="rect"><a:avLst/></a:prstGeom>
+<a:noFill/>
+</p:spPr>
+<p:txBody>
+<a:bodyPr wrap="square" rtlCol="0"/>
+<a:lstStyle/>"#
+    ));
+
+    let default_props = ExtendedTextProps::with_basic(
+        content.content_size.unwrap_or(28) * 100,
+        content.content_bold,
+        content.content_italic,
+        content.content_underline,
+        content.content_color.as_deref(),
+    );
+    let mut push_line = |text: &str, format: Option<&BulletTextFormat>| {
+        xml.push_str(&format!(
+            r#"
+<a:p>
+<a:pPr algn="ctr"><a:buNone/></a:pPr>
+<a:r>
+{}
+<a:t>{}</a:t>
+</a:r>
+</a:p>"#,
+            generate_bullet_text_props(&default_props, format),
+            escape_xml(text)
+        ));
+    };
+    if !content.bullets.is_empty() {
+        for bullet in &content.bullets {
+            push_line(&bullet.text, bullet.format.as_ref());
+        }
+    } else {
+        for line in &content.content {
+            push_line(line, None);
+        }
+    }
+
+    xml.push_str(
+        r#"
+</p:txBody>
+</p:sp>"#,
+    );
+}
+
 /// Create a blank slide
 pub fn create_blank_slide(
     content: &SlideContent,
@@ -128,6 +193,7 @@ pub fn create_section_header_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    render_subtitle(&mut xml, content, 3_429_000, 2_743_200);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
@@ -160,6 +226,7 @@ pub fn create_centered_title_slide(
     );
 
     let mut xml = format!("{}\n{}", SLIDE_HEADER, title_shape);
+    render_subtitle(&mut xml, content, 4_114_800, 2_057_400);
     render_additional_content(&mut xml, content, chart_rids, ink_rel_id);
     xml.push_str(SLIDE_FOOTER);
     xml
-- 
2.43.0


From 41eafc4128649a4bea0cb49efb28cdcc71f33426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:23 +0000
Subject: [PATCH 097/108] fix: numbered decks did not have their title on the
 first slide

---
 src/generator/builder.rs       | 5 +++--
 src/generator/slide_xml/mod.rs | 3 ++-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 43abab8..0b8d12b 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -769,7 +769,7 @@ fn write_package_files<W: Write + Seek>(
     }
 
     // 7. Slides
-    write_slides(zip, options, slide_count, custom_slides)?;
+    write_slides(zip, options, title, slide_count, custom_slides)?;
 
     // 8. Slide relationships
     write_slide_relationships_extended(
@@ -1160,6 +1160,7 @@ fn write_notes_relationships_lazy<W: Write + Seek>(
 fn write_slides<W: Write + Seek>(
     zip: &mut ZipWriter<W>,
     options: &FileOptions,
+    title: &str,
     slide_count: usize,
     custom_slides: Option<&[SlideContent]>,
 ) -> Result<()> {
@@ -1210,7 +1211,7 @@ fn write_slides<W: Write + Seek>(
         }
         None => {
             for i in 1..=slide_count {
-                let slide_xml = create_slide_xml(i, "Presentation");
+                let slide_xml = create_slide_xml(i, title);
                 set_slide_xml_path(&mut zip_path, i);
                 zip.start_file(&zip_path, *options)?;
                 zip.write_all(slide_xml.as_bytes())?;
diff --git a/src/generator/slide_xml/mod.rs b/src/generator/slide_xml/mod.rs
index d3afdb2..9d56c62 100644
--- a/src/generator/slide_xml/mod.rs
+++ b/src/generator/slide_xml/mod.rs
@@ -13,13 +13,14 @@ mod layouts;
 mod content;
 
 use super::slide_content::{SlideContent, SlideLayout};
+use crate::core::escape_xml;
 
 pub use common::create_slide_rels_xml;
 
 /// Create simple slide XML
 pub fn create_slide_xml(slide_num: usize, title: &str) -> String {
     let slide_title = if slide_num == 1 {
-        title.to_string()
+        escape_xml(title)
     } else {
         format!("Slide {slide_num}")
     };
-- 
2.43.0


From ce806983559bf36f7d5aefd8da03826494efc335 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:23 +0000
Subject: [PATCH 098/108] fix: the office theme lost the fonts it was given

---
 src/generator/presentation_theme.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/generator/presentation_theme.rs b/src/generator/presentation_theme.rs
index 1b1caff..23fa2f8 100644
--- a/src/generator/presentation_theme.rs
+++ b/src/generator/presentation_theme.rs
@@ -233,7 +233,7 @@ impl PresentationTheme {
 
     /// Generate `ppt/theme/theme1.xml` content using the full Office theme template.
     pub fn to_theme_xml(&self) -> String {
-        if self.name == "Office Theme" && self.colors == ThemeColorScheme::office() {
+        if *self == Self::office() {
             return office_theme_xml().to_string();
         }
 
-- 
2.43.0


From 7e65b65ff2d3ca308fa6fbedf3f5dd3731dca007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:28:57 +0000
Subject: [PATCH 099/108] fix: tables were dropped from slides other than title
 and content

---
 src/generator/slide_xml/content.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/generator/slide_xml/content.rs b/src/generator/slide_xml/content.rs
index 4affcb2..ec63a8d 100644
--- a/src/generator/slide_xml/content.rs
+++ b/src/generator/slide_xml/content.rs
@@ -1,7 +1,7 @@
 //! Additional content rendering (shapes, images, code blocks, connectors)
 
 use crate::generator::shapes_xml::generate_shape_xml;
-use crate::generator::slide_content::SlideContent;
+use crate::generator::slide_content::{SlideContent, SlideLayout};
 
 /// Render additional content elements (shapes, images, code blocks, connectors, charts, ink)
 pub fn render_additional_content(
@@ -30,6 +30,13 @@ pub fn render_additional_content(
         id
     };
 
+    // The table of a title and content slide is part of its content
+    if content.layout != SlideLayout::TitleAndContent
+        && let Some(table) = &content.table {
+            xml.push('\n');
+            xml.push_str(&crate::generator::table::generate_table_xml(table, assign_id(5)));
+        }
+
     // Render shapes - use shape's fixed ID if set, otherwise auto-assign
     for (i, shape) in content.shapes.iter().enumerate() {
         xml.push('\n');
-- 
2.43.0


From 4dae6f91a7e9098e88819af6e029827cdd4fbba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:11 +0000
Subject: [PATCH 100/108] fix: links to slides are slide jumps, and mail
 subjects and file paths are percent-encoded

---
 src/generator/hyperlinks.rs | 38 ++++++++++++++++++++++++++++++++++---
 1 file changed, 35 insertions(+), 3 deletions(-)

diff --git a/src/generator/hyperlinks.rs b/src/generator/hyperlinks.rs
index a695359..6e8d682 100644
--- a/src/generator/hyperlinks.rs
+++ b/src/generator/hyperlinks.rs
@@ -72,11 +72,18 @@ impl HyperlinkAction {
             HyperlinkAction::Email { address, subject } => {
                 let mut mailto = format!("mailto:{}", address);
                 if let Some(subj) = subject {
-                    mailto.push_str(&format!("?subject={}", subj));
+                    mailto.push_str(&format!("?subject={}", percent_encode(subj, "")));
                 }
                 mailto
             }
-            HyperlinkAction::File(path) => format!("file:///{}", path.replace('\\', "/")),
+            HyperlinkAction::File(path) => {
+                let path = path.replace('\\', "/");
+                let path = match path.strip_prefix('/') {
+                    Some(rest) if !rest.starts_with('/') => rest,
+                    _ => &path,
+                };
+                format!("file:///{}", percent_encode(path, "/:"))
+            }
         }
     }
 
@@ -101,6 +108,21 @@ impl HyperlinkAction {
     }
 }
 
+/// Percent-encode the bytes of `text` that may not stand in a URI as they are,
+/// leaving unreserved characters and those of `keep`.
+fn percent_encode(text: &str, keep: &str) -> String {
+    let mut out = String::with_capacity(text.len());
+    for b in text.bytes() {
+        let c = b as char;
+        if c.is_ascii_alphanumeric() || "-._~".contains(c) || keep.contains(c) {
+            out.push(c);
+        } else {
+            out.push_str(&format!("%{b:02X}"));
+        }
+    }
+    out
+}
+
 /// Hyperlink definition
 #[derive(Clone, Debug)]
 pub struct Hyperlink {
@@ -176,6 +198,8 @@ pub fn generate_text_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
     // Add action for internal navigation
     if let Some(action) = hyperlink.action.action_type() {
         xml.push_str(&format!(r#" action="{}""#, action));
+    } else if matches!(hyperlink.action, HyperlinkAction::Slide(_)) {
+        xml.push_str(r#" action="ppaction://hlinksldjump""#);
     }
 
     xml.push_str("/>");
@@ -198,6 +222,8 @@ pub fn generate_shape_hyperlink_xml(hyperlink: &Hyperlink, r_id: &str) -> String
 
     if let Some(action) = hyperlink.action.action_type() {
         xml.push_str(&format!(r#" action="{}""#, action));
+    } else if matches!(hyperlink.action, HyperlinkAction::Slide(_)) {
+        xml.push_str(r#" action="ppaction://hlinksldjump""#);
     }
 
     xml.push_str("/>");
@@ -213,9 +239,15 @@ pub fn generate_hyperlink_relationship_xml(hyperlink: &Hyperlink, r_id: &str) ->
         ""
     };
 
+    let kind = match hyperlink.action {
+        HyperlinkAction::Slide(_) => "slide",
+        _ => "hyperlink",
+    };
+
     format!(
-        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/hyperlink" Target="{}"{}/>"#,
+        r#"<Relationship Id="{}" Type="http://schemas.openxmlformats.org/officeDocument/2006/relationships/{}" Target="{}"{}/>"#,
         r_id,
+        kind,
         escape_xml(&target),
         target_mode
     )
-- 
2.43.0


From 5baa3d5b064b82e20d46baee65adfb3046cb38d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:11 +0000
Subject: [PATCH 101/108] fix: every link of a slide gets a relationship of its
 own

---
 src/generator/builder.rs | 44 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/src/generator/builder.rs b/src/generator/builder.rs
index 0b8d12b..e8101e2 100644
--- a/src/generator/builder.rs
+++ b/src/generator/builder.rs
@@ -104,6 +104,41 @@ fn slide_hyperlink_relationships(slide: &SlideContent) -> Vec<String> {
     rels
 }
 
+/// The slide with a relationship id of its own for every link: links without an
+/// id get one, and so do links whose id is taken by the slide's own
+/// relationships (`rId1` to `rId<own_count>`) or by another link's target.
+fn with_link_ids(slide: &SlideContent, own_count: usize) -> std::borrow::Cow<'_, SlideContent> {
+    use std::borrow::Cow;
+    let own: Vec<String> = (1..=own_count).map(|i| format!("rId{i}")).collect();
+    let mut used: Vec<(String, crate::generator::HyperlinkAction)> = Vec::new();
+    let mut slide = Cow::Borrowed(slide);
+    for i in 0..slide.shapes.len() {
+        let Some(link) = slide.shapes[i].hyperlink.clone() else { continue };
+        let is_free = |id: &str, used: &[(String, crate::generator::HyperlinkAction)]| {
+            id.starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')
+                && id.chars().all(|c| c.is_ascii_alphanumeric() || matches!(c, '_' | '-' | '.'))
+                && !own.iter().any(|o| o == id)
+                && used.iter().all(|(u, action)| u != id || *action == link.action)
+        };
+        let id = match link.r_id.as_deref() {
+            Some(id) if is_free(id, &used) => id.to_string(),
+            _ => {
+                let mut n = own_count + 1;
+                while !is_free(&format!("rId{n}"), &used) {
+                    n += 1;
+                }
+                let id = format!("rId{n}");
+                if let Some(h) = slide.to_mut().shapes[i].hyperlink.as_mut() {
+                    h.r_id = Some(id.clone());
+                }
+                id
+            }
+        };
+        used.push((id, link.action.clone()));
+    }
+    slide
+}
+
 fn set_notes_part_path(path: &mut String, notes_part_num: usize) {
     path.clear();
     path.push_str("ppt/notesSlides/notesSlide");
@@ -1074,6 +1109,9 @@ fn write_slide_packages_lazy<W: Write + Seek>(
             None
         };
 
+        let own_count = start_rid - 1 + slide.charts.len() + usize::from(slide.ink_annotations.is_some());
+        let slide = with_link_ids(&slide, own_count);
+
         let slide_xml = create_slide_xml_with_content(
             slide_num,
             &slide,
@@ -1190,9 +1228,10 @@ fn write_slides<W: Write + Seek>(
                     None
                 };
 
+                let own_count = start_rid - 1 + slide.charts.len() + usize::from(slide.ink_annotations.is_some());
                 let slide_xml = create_slide_xml_with_content(
                     slide_num,
-                    slide,
+                    &with_link_ids(slide, own_count),
                     &chart_rids,
                     ink_rel_id.as_deref(),
                 );
@@ -1273,13 +1312,14 @@ fn write_slide_relationships_extended<W: Write + Seek>(
                     None
                 };
 
+                let own_count = start_rid - 1 + slide.charts.len() + usize::from(slide.ink_annotations.is_some());
                 let slide_rels = super::package_xml::create_slide_rels_xml_with_images(
                     layout_number,
                     slide.notes.is_some(),
                     notes_part.unwrap_or(1),
                     &chart_rels,
                     &images,
-                    &slide_hyperlink_relationships(slide),
+                    &slide_hyperlink_relationships(&with_link_ids(slide, own_count)),
                     ink_rel_tuple,
                 );
                 set_slide_rels_path(&mut zip_path, slide_num);
-- 
2.43.0


From ffd69330d147fba8a0b98794c5fd4a043702c0c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:11 +0000
Subject: [PATCH 102/108] fix: removing a slide removes the links of other
 slides to it

---
 src/oxml/editor.rs | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/src/oxml/editor.rs b/src/oxml/editor.rs
index 3ad02f7..301c35c 100644
--- a/src/oxml/editor.rs
+++ b/src/oxml/editor.rs
@@ -89,6 +89,7 @@ impl PresentationEditor {
 
         self.slides.remove(index);
         self.rebuild_slide_list();
+        self.remove_links_to(&path);
         self.remove_part(&path);
 
         Ok(())
@@ -266,6 +267,35 @@ impl PresentationEditor {
         })
     }
 
+    /// Remove the links of the slides that lead to the given slide.
+    fn remove_links_to(&mut self, path: &str) {
+        for slide in self.slides.clone() {
+            let mut rels = self.part_string(&rels_path(&slide));
+            let mut xml = self.part_string(&slide);
+            let mut found = false;
+            for (start, end, attributes) in elements(&rels, "Relationship").into_iter().rev() {
+                let value = |name: &str| attributes.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_str());
+                let internal = value("TargetMode") != Some("External");
+                if !internal || value("Target").is_none_or(|t| resolve_target(&slide, t) != path) {
+                    continue;
+                }
+                found = true;
+                rels.replace_range(start..end, "");
+                for name in ["a:hlinkClick", "a:hlinkMouseOver", "a:hlinkHover"] {
+                    for (start, end, link) in elements(&xml, name).into_iter().rev() {
+                        if link.iter().any(|(n, v)| n == "r:id" && Some(v.as_str()) == value("Id")) {
+                            xml.replace_range(start..end, "");
+                        }
+                    }
+                }
+            }
+            if found {
+                self.package.add_part(rels_path(&slide), rels.into_bytes());
+                self.package.add_part(slide, xml.into_bytes());
+            }
+        }
+    }
+
     /// Remove a part together with the parts that only it referred to.
     fn remove_part(&mut self, path: &str) {
         let related = self.related_parts(path);
-- 
2.43.0


From a10d078065f9d5a932133a1cba7829746bf99ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:20 +0000
Subject: [PATCH 103/108] fix: unique slide and relationship ids in the
 presentation part

---
 src/parts/presentation.rs | 54 ++++++++++++++++++++++++---------------
 1 file changed, 34 insertions(+), 20 deletions(-)

diff --git a/src/parts/presentation.rs b/src/parts/presentation.rs
index e571887..c52ed8e 100644
--- a/src/parts/presentation.rs
+++ b/src/parts/presentation.rs
@@ -50,7 +50,9 @@ impl PresentationPart {
 
     /// Add a slide reference
     pub fn add_slide(&mut self, r_id: &str) -> u32 {
-        let id = 256 + self.slide_refs.len() as u32 + 1;
+        // The ids of slides that were read may be any
+        let last = self.slide_refs.iter().map(|s| s.id).max().unwrap_or(256);
+        let id = last.max(256) + 1;
         self.slide_refs.push(SlideRef {
             id,
             r_id: r_id.to_string(),
@@ -74,30 +76,37 @@ impl PresentationPart {
         self.slide_height = height;
     }
 
+    /// Relationship ids of the slide master and the theme: those that were set,
+    /// else the first that no slide has.
+    fn own_r_ids(&self) -> (String, String) {
+        let free = |other: Option<&str>| {
+            (1..)
+                .map(|n| format!("rId{n}"))
+                .find(|id| other != Some(id.as_str()) && self.slide_refs.iter().all(|s| s.r_id != *id))
+                .unwrap_or_default()
+        };
+        let master = self
+            .slide_master_r_id
+            .clone()
+            .unwrap_or_else(|| free(self.theme_r_id.as_deref()));
+        let theme = self.theme_r_id.clone().unwrap_or_else(|| free(Some(&master)));
+        (master, theme)
+    }
+
     /// Create default relationships for presentation
     pub fn create_relationships(&self) -> Relationships {
         let mut rels = Relationships::new();
+        let (master_r_id, theme_r_id) = self.own_r_ids();
 
         // Add slide master
-        if let Some(ref r_id) = self.slide_master_r_id {
-            rels.add_with_id(
-                r_id,
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        } else {
-            rels.add(
-                RelationshipType::SlideMaster,
-                "slideMasters/slideMaster1.xml",
-            );
-        }
+        rels.add_with_id(
+            &master_r_id,
+            RelationshipType::SlideMaster,
+            "slideMasters/slideMaster1.xml",
+        );
 
         // Add theme
-        if let Some(ref r_id) = self.theme_r_id {
-            rels.add_with_id(r_id, RelationshipType::Theme, "theme/theme1.xml");
-        } else {
-            rels.add(RelationshipType::Theme, "theme/theme1.xml");
-        }
+        rels.add_with_id(&theme_r_id, RelationshipType::Theme, "theme/theme1.xml");
 
         // Add slides
         for (i, slide_ref) in self.slide_refs.iter().enumerate() {
@@ -140,7 +149,11 @@ impl Part for PresentationPart {
             ));
         }
 
-        let master_r_id = self.slide_master_r_id.as_deref().unwrap_or("rId1");
+        let (master_r_id, _) = self.own_r_ids();
+        let size_type = match (self.slide_width, self.slide_height) {
+            (9144000, 6858000) => r#" type="screen4x3""#,
+            _ => "",
+        };
 
         let xml = format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
@@ -150,13 +163,14 @@ impl Part for PresentationPart {
 </p:sldMasterIdLst>
 <p:sldIdLst>{}
 </p:sldIdLst>
-<p:sldSz cx="{}" cy="{}" type="screen4x3"/>
+<p:sldSz cx="{}" cy="{}"{}/>
 <p:notesSz cx="{}" cy="{}"/>
 </p:presentation>"#,
             master_r_id,
             slide_id_list,
             self.slide_width,
             self.slide_height,
+            size_type,
             self.slide_height,
             self.slide_width,
         );
-- 
2.43.0


From a7578ee90e89ff457ddeb16e31d4e05e34bd5947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:20 +0000
Subject: [PATCH 104/108] fix: read content types, and give each extension and
 part one type

---
 src/parts/content_types.rs | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/parts/content_types.rs b/src/parts/content_types.rs
index deb61d9..d25733c 100644
--- a/src/parts/content_types.rs
+++ b/src/parts/content_types.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Default content type mapping (by extension)
 #[derive(Debug, Clone)]
@@ -72,14 +73,18 @@ impl ContentTypesPart {
 
     /// Add a default type
     pub fn add_default(&mut self, extension: impl Into<String>, content_type: impl Into<String>) {
-        self.defaults
-            .push(DefaultType::new(extension, content_type));
+        let default = DefaultType::new(extension, content_type);
+        // An extension has one type
+        self.defaults.retain(|d| !d.extension.eq_ignore_ascii_case(&default.extension));
+        self.defaults.push(default);
     }
 
     /// Add an override type
     pub fn add_override(&mut self, part_name: impl Into<String>, content_type: impl Into<String>) {
-        self.overrides
-            .push(OverrideType::new(part_name, content_type));
+        let new = OverrideType::new(part_name, content_type);
+        // A part has one type
+        self.overrides.retain(|o| o.part_name != new.part_name);
+        self.overrides.push(new);
     }
 
     /// Add presentation part
@@ -213,9 +218,24 @@ impl Part for ContentTypesPart {
         Ok(self.generate_xml())
     }
 
-    fn from_xml(_xml: &str) -> Result<Self, PptxError> {
-        // TODO: Parse XML
-        Ok(ContentTypesPart::new())
+    fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let pairs = |element: &str, key: &str| -> Vec<(String, String)> {
+            root.find_all(element)
+                .into_iter()
+                .filter_map(|e| Some((e.attr(key)?.to_string(), e.attr("ContentType")?.to_string())))
+                .collect()
+        };
+        Ok(ContentTypesPart {
+            defaults: pairs("Default", "Extension")
+                .into_iter()
+                .map(|(extension, content_type)| DefaultType::new(extension, content_type))
+                .collect(),
+            overrides: pairs("Override", "PartName")
+                .into_iter()
+                .map(|(part_name, content_type)| OverrideType::new(part_name, content_type))
+                .collect(),
+        })
     }
 }
 
-- 
2.43.0


From 4ec39139b4284eddc8fadeaea704b6fe3735ca38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:20 +0000
Subject: [PATCH 105/108] fix: themes, layouts and masters keep what they read
 and what is set on them

---
 src/parts/slide_layout.rs | 41 +++++++++++++++++++++++++++-------
 src/parts/slide_master.rs | 34 +++++++++++++++++++----------
 src/parts/theme.rs        | 46 +++++++++++++++++++++++++++++----------
 3 files changed, 91 insertions(+), 30 deletions(-)

diff --git a/src/parts/slide_layout.rs b/src/parts/slide_layout.rs
index 827a129..5063625 100644
--- a/src/parts/slide_layout.rs
+++ b/src/parts/slide_layout.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Slide layout types
 #[derive(Debug, Clone, Copy, PartialEq, Eq)]
@@ -59,6 +60,26 @@ impl LayoutType {
             LayoutType::Custom => "cust",
         }
     }
+
+    /// Layout type with the given XML type value
+    fn from_type_value(value: &str) -> Option<Self> {
+        [
+            LayoutType::Title,
+            LayoutType::TitleAndContent,
+            LayoutType::SectionHeader,
+            LayoutType::TwoContent,
+            LayoutType::Comparison,
+            LayoutType::TitleOnly,
+            LayoutType::Blank,
+            LayoutType::ContentWithCaption,
+            LayoutType::PictureWithCaption,
+            LayoutType::TitleAndVerticalText,
+            LayoutType::VerticalTitleAndText,
+            LayoutType::Custom,
+        ]
+        .into_iter()
+        .find(|t| t.type_value() == value)
+    }
 }
 
 /// Slide layout part (ppt/slideLayouts/slideLayoutN.xml)
@@ -103,6 +124,7 @@ impl SlideLayoutPart {
     /// Set custom name
     pub fn set_name(&mut self, name: impl Into<String>) {
         self.name = name.into();
+        self.xml_content = None;
     }
 
     /// Set master relationship ID
@@ -167,14 +189,17 @@ impl Part for SlideLayoutPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
-        Ok(SlideLayoutPart {
-            path: "ppt/slideLayouts/slideLayout1.xml".to_string(),
-            layout_number: 1,
-            layout_type: LayoutType::TitleAndContent,
-            name: "Layout".to_string(),
-            master_rel_id: "rId1".to_string(),
-            xml_content: Some(xml.to_string()),
-        })
+        let root = XmlParser::parse_str(xml)?;
+        let layout_type = root
+            .attr("type")
+            .and_then(LayoutType::from_type_value)
+            .unwrap_or(LayoutType::Custom);
+        let mut part = SlideLayoutPart::new(1, layout_type);
+        if let Some(name) = root.find("cSld").and_then(|c| c.attr("name")) {
+            part.name = name.to_string();
+        }
+        part.xml_content = Some(xml.to_string());
+        Ok(part)
     }
 }
 
diff --git a/src/parts/slide_master.rs b/src/parts/slide_master.rs
index 41d7516..29a96e0 100644
--- a/src/parts/slide_master.rs
+++ b/src/parts/slide_master.rs
@@ -3,7 +3,9 @@
 //! Represents a slide master template (ppt/slideMasters/slideMasterN.xml).
 
 use super::base::{ContentType, Part, PartType};
+use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Slide master part (ppt/slideMasters/slideMasterN.xml)
 #[derive(Debug, Clone)]
@@ -42,11 +44,13 @@ impl SlideMasterPart {
     /// Set master name
     pub fn set_name(&mut self, name: impl Into<String>) {
         self.name = name.into();
+        self.xml_content = None;
     }
 
     /// Add a layout relationship ID
     pub fn add_layout_rel_id(&mut self, rel_id: impl Into<String>) {
         self.layout_rel_ids.push(rel_id.into());
+        self.xml_content = None;
     }
 
     /// Get layout relationship IDs
@@ -68,10 +72,11 @@ impl SlideMasterPart {
         let layout_ids: String = self
             .layout_rel_ids
             .iter()
-            .map(|id| {
+            .enumerate()
+            .map(|(i, id)| {
                 format!(
                     r#"<p:sldLayoutId id="{}" r:id="{}"/>"#,
-                    2147483649 + self.layout_rel_ids.iter().position(|x| x == id).unwrap() as u64,
+                    2147483649 + i as u64,
                     id
                 )
             })
@@ -81,7 +86,7 @@ impl SlideMasterPart {
         format!(
             r#"<?xml version="1.0" encoding="UTF-8" standalone="yes"?>
 <p:sldMaster xmlns:a="http://schemas.openxmlformats.org/drawingml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships" xmlns:p="http://schemas.openxmlformats.org/presentationml/2006/main">
-  <p:cSld>
+  <p:cSld name="{}">
     <p:bg>
       <p:bgRef idx="1001">
         <a:schemeClr val="bg1"/>
@@ -112,6 +117,7 @@ impl SlideMasterPart {
     <p:otherStyle/>
   </p:txStyles>
 </p:sldMaster>"#,
+            escape_xml(&self.name),
             if layout_ids.is_empty() {
                 "".to_string()
             } else {
@@ -142,14 +148,20 @@ impl Part for SlideMasterPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
-        Ok(SlideMasterPart {
-            path: "ppt/slideMasters/slideMaster1.xml".to_string(),
-            master_number: 1,
-            name: "Office Theme".to_string(),
-            theme_rel_id: "rId1".to_string(),
-            layout_rel_ids: vec![],
-            xml_content: Some(xml.to_string()),
-        })
+        let root = XmlParser::parse_str(xml)?;
+        let mut part = SlideMasterPart::new(1);
+        if let Some(name) = root.find("cSld").and_then(|c| c.attr("name")) {
+            part.name = name.to_string();
+        }
+        if let Some(layouts) = root.find("sldLayoutIdLst") {
+            part.layout_rel_ids = layouts
+                .find_all("sldLayoutId")
+                .into_iter()
+                .filter_map(|l| l.attr("r:id").map(str::to_string))
+                .collect();
+        }
+        part.xml_content = Some(xml.to_string());
+        Ok(part)
     }
 }
 
diff --git a/src/parts/theme.rs b/src/parts/theme.rs
index 8601f9d..d89c1f1 100644
--- a/src/parts/theme.rs
+++ b/src/parts/theme.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Theme color
 #[derive(Debug, Clone)]
@@ -94,21 +95,25 @@ impl ThemePart {
     /// Set theme name
     pub fn set_name(&mut self, name: impl Into<String>) {
         self.name = name.into();
+        self.xml_content = None;
     }
 
     /// Set major font (headings)
     pub fn set_major_font(&mut self, typeface: impl Into<String>) {
         self.major_font = ThemeFont::new(typeface);
+        self.xml_content = None;
     }
 
     /// Set minor font (body)
     pub fn set_minor_font(&mut self, typeface: impl Into<String>) {
         self.minor_font = ThemeFont::new(typeface);
+        self.xml_content = None;
     }
 
     /// Set a theme color
     pub fn set_color(&mut self, name: impl Into<String>, value: impl Into<String>) {
         let name = name.into();
+        self.xml_content = None;
         if let Some(color) = self.colors.iter_mut().find(|c| c.name == name) {
             color.value = value.into();
         } else {
@@ -127,8 +132,8 @@ impl ThemePart {
             .iter()
             .map(|c| {
                 format!(
-                    r#"<a:{} val="{}"><a:srgbClr val="{}"/></a:{}>"#,
-                    c.name, c.name, escape_xml(&c.value), c.name
+                    r#"<a:{}><a:srgbClr val="{}"/></a:{}>"#,
+                    c.name, escape_xml(&c.value), c.name
                 )
             })
             .collect::<Vec<_>>()
@@ -208,15 +213,34 @@ impl Part for ThemePart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
-        Ok(ThemePart {
-            path: "ppt/theme/theme1.xml".to_string(),
-            theme_number: 1,
-            name: "Office Theme".to_string(),
-            major_font: ThemeFont::new("Calibri Light"),
-            minor_font: ThemeFont::new("Calibri"),
-            colors: Self::default_colors(),
-            xml_content: Some(xml.to_string()),
-        })
+        let root = XmlParser::parse_str(xml)?;
+        let mut part = ThemePart::new(1);
+        if let Some(name) = root.attr("name") {
+            part.set_name(name);
+        }
+        if let Some(scheme) = root.find_descendant("clrScheme") {
+            for slot in &scheme.children {
+                let value = slot.children.first().and_then(|c| match c.local_name.as_str() {
+                    "sysClr" => c.attr("lastClr"),
+                    _ => c.attr("val"),
+                });
+                if let Some(value) = value {
+                    part.set_color(slot.local_name.as_str(), value);
+                }
+            }
+        }
+        let typeface = |font: &str| {
+            let latin = root.find_descendant(font)?.find("latin")?;
+            latin.attr("typeface").map(str::to_string)
+        };
+        if let Some(typeface) = typeface("majorFont") {
+            part.set_major_font(typeface);
+        }
+        if let Some(typeface) = typeface("minorFont") {
+            part.set_minor_font(typeface);
+        }
+        part.xml_content = Some(xml.to_string());
+        Ok(part)
     }
 }
 
-- 
2.43.0


From b6c0cee88f2313c32512653da65127788ac9ba3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:20 +0000
Subject: [PATCH 106/108] fix: notes parts name their own part and type and
 read their text

---
 src/parts/notes_slide.rs | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/src/parts/notes_slide.rs b/src/parts/notes_slide.rs
index b5e39fb..fe75750 100644
--- a/src/parts/notes_slide.rs
+++ b/src/parts/notes_slide.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Notes slide part (ppt/notesSlides/notesSlideN.xml)
 #[derive(Debug, Clone)]
@@ -131,11 +132,11 @@ impl Part for NotesSlidePart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Slide // Notes are associated with slides
+        PartType::NotesSlide
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Xml // Notes have their own content type
+        ContentType::NotesSlide
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
@@ -146,13 +147,20 @@ impl Part for NotesSlidePart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
-        Ok(NotesSlidePart {
-            path: "ppt/notesSlides/notesSlide1.xml".to_string(),
-            notes_number: 1,
-            slide_rel_id: "rId1".to_string(),
-            notes_text: String::new(),
-            xml_content: Some(xml.to_string()),
-        })
+        let root = XmlParser::parse_str(xml)?;
+        let mut part = NotesSlidePart::new(1);
+        let body = root.find_all_descendants("sp").into_iter().find(|sp| {
+            sp.find_descendant("ph").is_some_and(|ph| ph.attr("type") == Some("body"))
+        });
+        if let Some(body) = body.and_then(|sp| sp.find("txBody")) {
+            let paragraph = |p: &&crate::oxml::XmlElement| -> String {
+                p.find_all_descendants("t").iter().map(|t| t.text_content()).collect()
+            };
+            let lines: Vec<String> = body.find_all("p").iter().map(paragraph).collect();
+            part.notes_text = lines.join("\n");
+        }
+        part.xml_content = Some(xml.to_string());
+        Ok(part)
     }
 }
 
-- 
2.43.0


From a4f1efffab2dec03171f722582ea0dda3556791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:20 +0000
Subject: [PATCH 107/108] fix: read application properties and write those set
 after reading

---
 src/parts/app_props.rs | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/parts/app_props.rs b/src/parts/app_props.rs
index 8043ef9..f635d69 100644
--- a/src/parts/app_props.rs
+++ b/src/parts/app_props.rs
@@ -5,6 +5,7 @@
 use super::base::{ContentType, Part, PartType};
 use crate::core::escape_xml;
 use crate::exc::PptxError;
+use crate::oxml::XmlParser;
 
 /// Application properties part (docProps/app.xml)
 #[derive(Debug, Clone)]
@@ -53,21 +54,25 @@ impl AppPropertiesPart {
     /// Set application name
     pub fn set_application(&mut self, app: impl Into<String>) {
         self.application = app.into();
+        self.xml_content = None;
     }
 
     /// Set company
     pub fn set_company(&mut self, company: impl Into<String>) {
         self.company = Some(company.into());
+        self.xml_content = None;
     }
 
     /// Set slide count
     pub fn set_slides(&mut self, count: u32) {
         self.slides = count;
+        self.xml_content = None;
     }
 
     /// Set presentation format
     pub fn set_presentation_format(&mut self, format: impl Into<String>) {
         self.presentation_format = format.into();
+        self.xml_content = None;
     }
 
     fn generate_xml(&self) -> String {
@@ -140,7 +145,26 @@ impl Part for AppPropertiesPart {
     }
 
     fn from_xml(xml: &str) -> Result<Self, PptxError> {
+        let root = XmlParser::parse_str(xml)?;
+        let text = |name: &str| root.find(name).map(|e| e.text_content());
+        let number = |name: &str| text(name).and_then(|t| t.trim().parse().ok()).unwrap_or(0);
+        let flag = |name: &str| text(name).is_some_and(|t| matches!(t.trim(), "true" | "1"));
+
         let mut part = AppPropertiesPart::new();
+        part.application = text("Application").unwrap_or_default();
+        part.app_version = text("AppVersion").unwrap_or_default();
+        part.company = text("Company");
+        part.presentation_format = text("PresentationFormat").unwrap_or_default();
+        part.slides = number("Slides");
+        part.paragraphs = number("Paragraphs");
+        part.words = number("Words");
+        part.notes = number("Notes");
+        part.hidden_slides = number("HiddenSlides");
+        part.mm_clips = number("MMClips");
+        part.scale_crop = flag("ScaleCrop");
+        part.links_up_to_date = flag("LinksUpToDate");
+        part.shared_doc = flag("SharedDoc");
+        part.hyperlinks_changed = flag("HyperlinksChanged");
         part.xml_content = Some(xml.to_string());
         Ok(part)
     }
-- 
2.43.0


From 080f60914fae4b7560113485313bdce54a6f9a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:20 +0000
Subject: [PATCH 108/108] fix: media parts name their kind, SVG and TIF
 pictures their type

---
 src/parts/base.rs  | 2 +-
 src/parts/image.rs | 1 +
 src/parts/media.rs | 4 ++--
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/parts/base.rs b/src/parts/base.rs
index 41af2ef..f72e513 100644
--- a/src/parts/base.rs
+++ b/src/parts/base.rs
@@ -53,7 +53,7 @@ impl ContentType {
                 "jpeg" | "jpg" => "image/jpeg",
                 "gif" => "image/gif",
                 "bmp" => "image/bmp",
-                "tiff" => "image/tiff",
+                "tiff" | "tif" => "image/tiff",
                 "svg" => "image/svg+xml",
                 _ => "application/octet-stream",
             },
diff --git a/src/parts/image.rs b/src/parts/image.rs
index 6609d43..b1a1933 100644
--- a/src/parts/image.rs
+++ b/src/parts/image.rs
@@ -87,6 +87,7 @@ impl ImagePart {
             "gif" => "image/gif",
             "bmp" => "image/bmp",
             "tiff" | "tif" => "image/tiff",
+            "svg" => "image/svg+xml",
             _ => "application/octet-stream",
         }
     }
diff --git a/src/parts/media.rs b/src/parts/media.rs
index c0dfb1e..506bf75 100644
--- a/src/parts/media.rs
+++ b/src/parts/media.rs
@@ -175,11 +175,11 @@ impl Part for MediaPart {
     }
 
     fn part_type(&self) -> PartType {
-        PartType::Image // Media uses similar handling to images
+        PartType::Media
     }
 
     fn content_type(&self) -> ContentType {
-        ContentType::Image(self.format.extension().to_string())
+        ContentType::Media(self.format.extension().to_string())
     }
 
     fn to_xml(&self) -> Result<String, PptxError> {
-- 
2.43.0

