From 801e6263ad9041de0368a8f3cc8f8929e4de54bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:55 +0000
Subject: [PATCH 01/63] fix: keep the outer level of a
 MultiSolid/CompositeSolid with one solid

decode() unwraps a lone solid, which is right for a Solid only; a
MultiSolid or CompositeSolid holding exactly one solid came back with one
nesting level missing.
---
 src/rust/fcb_core/src/reader/deserializer.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c447cb8..c7b3692 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -591,6 +591,13 @@ pub(crate) fn decode_geometry(
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
     let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
+    // `decode` unwraps a lone solid, which is only right for a Solid
+    let boundaries = match g.type_() {
+        GeometryType::MultiSolid | GeometryType::CompositeSolid if solids.len() == 1 => {
+            CjBoundaries::Nested(vec![boundaries])
+        }
+        _ => boundaries,
+    };
     let semantics: Option<CjSemantics> = if let (Some(semantics_objects), Some(semantics)) =
         (g.semantics_objects(), g.semantics())
     {
-- 
2.43.0


From d9bd95361b13e7b1989606b24cd7306283b35a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:44 +0000
Subject: [PATCH 02/63] fix: spell out null branches of semantic values when
 encoding

CityJSON allows null in place of the values of a whole shell or solid.
Such a branch contributed no entry to the flattened semantic values, so a
file was written that panicked on reading (or gave later shells the wrong
semantics).
---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 49 +++++++++++++++++++-
 1 file changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index abdf070..2c37d74 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -88,7 +88,12 @@ pub(crate) fn encode(
     let _ = encode_boundaries(cj_boundaries, &mut boundaries);
 
     // Encode semantics if provided
-    let semantics = semantics.map(encode_semantics);
+    let semantics = semantics.map(|s| {
+        encode_semantics(&CjSemantics {
+            values: expand_semantics_values(&s.values, cj_boundaries),
+            surfaces: s.surfaces.clone(),
+        })
+    });
 
     // Encode appearance if provided
     let textures = textures.map(encode_texture);
@@ -405,6 +410,48 @@ pub(crate) fn encode_semantics(semantics: &CjSemantics) -> GMSemantics {
     }
 }
 
+/// Spells out the `null` branches of semantic values: CityJSON allows `null` in place of the
+/// values of a whole shell or solid, whereas the flattened form needs one entry per surface.
+fn expand_semantics_values(
+    values: &CjSemanticsValues,
+    boundaries: &CjBoundaries,
+) -> CjSemanticsValues {
+    match (values, boundaries) {
+        (CjSemanticsValues::Nested(vals), CjBoundaries::Nested(parts))
+            if vals.len() == parts.len() =>
+        {
+            CjSemanticsValues::Nested(
+                vals.iter()
+                    .zip(parts)
+                    .map(|(v, b)| expand_semantics_values(v, b))
+                    .collect(),
+            )
+        }
+        (CjSemanticsValues::Indices(indices), _) if indices.iter().all(Option::is_none) => {
+            CjSemanticsValues::Indices(vec![None; primitive_count(boundaries)])
+        }
+        _ => values.clone(),
+    }
+}
+
+/// Number of primitives (points, lines or surfaces) that carry one semantic value each.
+fn primitive_count(boundaries: &CjBoundaries) -> usize {
+    match boundaries {
+        CjBoundaries::Indices(indices) => indices.len(),
+        CjBoundaries::Nested(parts) if boundary_depth(boundaries) > 3 => {
+            parts.iter().map(primitive_count).sum()
+        }
+        CjBoundaries::Nested(parts) => parts.len(),
+    }
+}
+
+fn boundary_depth(boundaries: &CjBoundaries) -> usize {
+    match boundaries {
+        CjBoundaries::Indices(_) => 1,
+        CjBoundaries::Nested(parts) => 1 + parts.iter().map(boundary_depth).max().unwrap_or(0),
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From de93d8a92969ce203707f182d2e821ecc918bde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:28 +0000
Subject: [PATCH 03/63] fix: restore material and texture values at the nesting
 depth of the geometry

The values of a Solid with a single shell came back one level too deep,
those of a MultiSolid/CompositeSolid with a single solid one level short.
---
 src/rust/fcb_core/src/reader/deserializer.rs | 39 ++++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index c7b3692..2795069 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -11,7 +11,8 @@ use cjseq::{
     CityJSONFeature, CityObject as CjCityObject, Extension as CjExtension,
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
-    MaterialObject as CjMaterial, Metadata as CjMetadata, PointOfContact as CjPointOfContact,
+    MaterialObject as CjMaterial, Metadata as CjMetadata, NestedArray,
+    PointOfContact as CjPointOfContact,
     ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
     TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
     WrapMode as CjWrapMode,
@@ -566,6 +567,23 @@ pub fn to_cj_feature(
     Ok(cj) // Return Result
 }
 
+/// Adds or removes one outer level holding a single element, so that the values of a lone solid or
+/// shell get the nesting depth which the geometry type calls for.
+fn with_depth<T>(values: NestedArray<T>, depth: usize) -> NestedArray<T> {
+    fn depth_of<T>(values: &NestedArray<T>) -> usize {
+        match values {
+            NestedArray::Indices(_) => 1,
+            NestedArray::Nested(v) => 1 + v.iter().map(depth_of).max().unwrap_or(0),
+        }
+    }
+    let actual = depth_of(&values);
+    match values {
+        NestedArray::Nested(mut v) if actual == depth + 1 && v.len() == 1 => v.remove(0),
+        values if actual + 1 == depth => NestedArray::Nested(vec![values]),
+        values => values,
+    }
+}
+
 pub(crate) fn decode_geometry(
     g: Geometry,
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
@@ -616,18 +634,33 @@ pub(crate) fn decode_geometry(
     };
 
     // Decode material mappings if present
-    let material = if let Some(material_mappings) = g.material() {
+    let mut material = if let Some(material_mappings) = g.material() {
         decode_materials(&material_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    for m in material.iter_mut().flat_map(|m| m.values_mut()) {
+        m.values = m.values.take().map(|v| match g.type_() {
+            GeometryType::Solid => with_depth(v, 2),
+            GeometryType::MultiSolid | GeometryType::CompositeSolid => with_depth(v, 3),
+            _ => v,
+        });
+    }
 
     // Decode texture mappings if present
-    let texture = if let Some(texture_mappings) = g.texture() {
+    let mut texture = if let Some(texture_mappings) = g.texture() {
         decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
     } else {
         None
     };
+    for t in texture.iter_mut().flat_map(|t| t.values_mut()) {
+        if matches!(
+            g.type_(),
+            GeometryType::MultiSolid | GeometryType::CompositeSolid
+        ) {
+            t.values = with_depth(t.values.clone(), 5);
+        }
+    }
 
     Ok(CjGeometry {
         thetype: g.type_().to_cj(),
-- 
2.43.0


From 69fcc223c527c2116626779864d7190b3ab6d222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:33 +0000
Subject: [PATCH 04/63] fix: keep the place of a solid without material values

A null solid among the material values of a MultiSolid/CompositeSolid was
dropped, giving the solids after it their neighbour's materials.
---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index 2c37d74..d7e7a98 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -170,6 +170,9 @@ pub(crate) fn encode_material(
                                         );
                                     }
                                 }
+                            } else {
+                                // a solid without material values (null)
+                                material_values.solids.push(0);
                             }
                         }
                     } else {
-- 
2.43.0


From ebae0512f913e82949082681339371da32f6efff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:01 +0000
Subject: [PATCH 05/63] fix: decode Byte, UByte and Binary attributes

The writer stores them, the reader panicked with unreachable!().
---
 src/rust/fcb_core/src/reader/deserializer.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 2795069..3c6a449 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -295,6 +295,20 @@ pub fn decode_attributes(
                 );
                 offset += size_of::<u8>();
             }
+            ColumnType::Byte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                );
+                offset += size_of::<i8>();
+            }
+            ColumnType::UByte => {
+                map.insert(
+                    column.name().to_string(),
+                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                );
+                offset += size_of::<u8>();
+            }
             ColumnType::Short => {
                 map.insert(
                     column.name().to_string(),
@@ -345,7 +359,7 @@ pub fn decode_attributes(
                 }
                 offset += size_of::<f64>();
             }
-            ColumnType::String => {
+            ColumnType::String | ColumnType::Binary => {
                 let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
                 offset += size_of::<u32>();
                 let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
-- 
2.43.0


From b73eaf78f6ca7dd9ab95a34ace1f7637385af36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:41 +0000
Subject: [PATCH 06/63] fix: keep appearance and geometry templates of a
 dataset without metadata

---
 src/rust/fcb_core/src/writer/serializer.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 81800dd..cfa4541 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -217,6 +217,9 @@ pub(super) fn to_fcb_header<'a>(
                 geographical_extent: geographical_extent_from_options.as_ref(),
                 version,
                 attribute_index,
+                appearance,
+                templates,
+                templates_vertices,
                 extensions,
                 ..Default::default()
             },
-- 
2.43.0


From d700241c40de618b5595dfe9b91dc61a2c1c7086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:47 +0000
Subject: [PATCH 07/63] fix: keep reference system codes which are not integers

---
 src/rust/fcb_core/src/reader/deserializer.rs |  5 ++++-
 src/rust/fcb_core/src/writer/serializer.rs   | 11 +++++------
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 3c6a449..4d803a3 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -56,7 +56,10 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
             None,
             rs.authority().unwrap_or_default().to_string(),
             rs.version().to_string(),
-            rs.code().to_string(),
+            match rs.code_string() {
+                Some(code) => code.to_string(),
+                None => rs.code().to_string(),
+            },
         )
     });
     cj.version = header.version().to_string();
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index cfa4541..5d64096 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -277,12 +277,11 @@ pub(super) fn to_reference_system<'a>(
         println!("failed to parse version: {}", e);
         0
     });
-    let code = ref_system.code.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse code: {}", e);
-        0
-    });
-
-    let code_string = None; // TODO: implement code_string
+    // a code which is not an integer (or not in canonical form) goes to code_string
+    let (code, code_string) = match ref_system.code.parse::<i32>() {
+        Ok(code) if code.to_string() == ref_system.code => (code, None),
+        _ => (0, Some(fbb.create_string(&ref_system.code))),
+    };
 
     ReferenceSystem::create(
         fbb,
-- 
2.43.0


From f0f0c19db97c015eabcb88fbc046b52884e7c88b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:52 +0000
Subject: [PATCH 08/63] fix: do not invent a geographical extent when the
 header has none

---
 src/rust/fcb_core/src/reader/deserializer.rs | 25 +++++++++-----------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 4d803a3..2abe6fa 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -65,19 +65,16 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     cj.version = header.version().to_string();
     cj.thetype = String::from("CityJSON");
 
-    let geographical_extent = header
-        .geographical_extent()
-        .map(|extent| {
-            [
-                extent.min().x(),
-                extent.min().y(),
-                extent.min().z(),
-                extent.max().x(),
-                extent.max().y(),
-                extent.max().z(),
-            ]
-        })
-        .unwrap_or_default();
+    let geographical_extent = header.geographical_extent().map(|extent| {
+        [
+            extent.min().x(),
+            extent.min().y(),
+            extent.min().z(),
+            extent.max().x(),
+            extent.max().y(),
+            extent.max().z(),
+        ]
+    });
 
     let point_of_contact = match header.poc_contact_name() {
         Some(_) => Some(to_cj_point_of_contact(header)?),
@@ -85,7 +82,7 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
     };
 
     cj.metadata = Some(CjMetadata {
-        geographical_extent: Some(geographical_extent),
+        geographical_extent,
         identifier: header.identifier().map(|i| i.to_string()),
         point_of_contact,
         reference_date: header.reference_date().map(|r| r.to_string()),
-- 
2.43.0


From 84b5fab8abfcc7b4bcb9a20733918e40964b834b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:08 +0000
Subject: [PATCH 09/63] fix: read the appearance of the dataset header back

---
 src/rust/fcb_core/src/reader/deserializer.rs | 188 ++++++++++---------
 1 file changed, 96 insertions(+), 92 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 2abe6fa..32d93df 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -90,6 +90,8 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
+    cj.appearance = header.appearance().map(|a| to_cj_appearance(&a));
+
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
         (header.templates(), header.templates_vertices())
@@ -479,106 +481,108 @@ pub fn to_cj_feature(
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
     // Decode appearance if present
-    if let Some(appearance) = feature.appearance() {
-        let mut cj_appearance = CjAppearance {
-            materials: None,
-            textures: None,
-            vertices_texture: None,
-            default_theme_texture: None,
-            default_theme_material: None,
-        };
+    cj.appearance = feature.appearance().map(|a| to_cj_appearance(&a));
 
-        // Decode materials
-        if let Some(materials) = appearance.materials() {
-            let cj_materials = materials
-                .iter()
-                .map(|m| {
-                    // Helper function to convert color vectors
-                    let convert_color = |color_opt: Option<flatbuffers::Vector<'_, f64>>| {
-                        color_opt.map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 3, "color must be a vector of 3 elements");
-                            [color_vec[0], color_vec[1], color_vec[2]]
-                        })
-                    };
-
-                    CjMaterial {
-                        name: m.name().to_string(),
-                        ambient_intensity: m.ambient_intensity(),
-                        diffuse_color: convert_color(m.diffuse_color()),
-                        emissive_color: convert_color(m.emissive_color()),
-                        specular_color: convert_color(m.specular_color()),
-                        shininess: m.shininess(),
-                        transparency: m.transparency(),
-                        is_smooth: m.is_smooth(),
-                    }
-                })
-                .collect();
-
-            cj_appearance.materials = Some(cj_materials);
-        }
+    Ok(cj) // Return Result
+}
 
-        // Decode textures
-        if let Some(textures) = appearance.textures() {
-            let cj_textures = textures
-                .iter()
-                .map(|t| {
-                    CjTexture {
-                        image: t.image().to_string(),
-                        texture_format: match t.type_() {
-                            TextureFormat::PNG => CjTextFormat::Png,
-                            TextureFormat::JPG => CjTextFormat::Jpg,
-                            _ => CjTextFormat::Png, // Default to PNG
-                        },
-                        wrap_mode: t.wrap_mode().map(|w| match w {
-                            WrapMode::None => CjWrapMode::None,
-                            WrapMode::Wrap => CjWrapMode::Wrap,
-                            WrapMode::Mirror => CjWrapMode::Mirror,
-                            WrapMode::Clamp => CjWrapMode::Clamp,
-                            WrapMode::Border => CjWrapMode::Border,
-                            _ => CjWrapMode::None, // Default to None
-                        }),
-                        texture_type: t.texture_type().map(|t| match t {
-                            TextureType::Unknown => CjTextType::Unknown,
-                            TextureType::Specific => CjTextType::Specific,
-                            TextureType::Typical => CjTextType::Typical,
-                            _ => CjTextType::Unknown, // Default to Unknown
-                        }),
-                        border_color: t.border_color().map(|c| {
-                            let color_vec: Vec<f64> = c.iter().collect();
-                            assert!(color_vec.len() == 4, "color must be a vector of 4 elements");
-                            [color_vec[0], color_vec[1], color_vec[2], color_vec[3]]
-                        }),
-                    }
-                })
-                .collect::<Vec<_>>();
-
-            cj_appearance.textures = Some(cj_textures);
-        }
+fn to_cj_appearance(appearance: &Appearance) -> CjAppearance {
+    let mut cj_appearance = CjAppearance {
+        materials: None,
+        textures: None,
+        vertices_texture: None,
+        default_theme_texture: None,
+        default_theme_material: None,
+    };
 
-        // Decode vertices_texture
-        if let Some(vertices_texture) = appearance.vertices_texture() {
-            cj_appearance.vertices_texture = Some(
-                vertices_texture
-                    .iter()
-                    .map(|v| [v.u(), v.v()])
-                    .collect::<Vec<_>>(),
-            );
-        }
+    // Decode materials
+    if let Some(materials) = appearance.materials() {
+        let cj_materials = materials
+            .iter()
+            .map(|m| {
+                // Helper function to convert color vectors
+                let convert_color = |color_opt: Option<flatbuffers::Vector<'_, f64>>| {
+                    color_opt.map(|c| {
+                        let color_vec: Vec<f64> = c.iter().collect();
+                        assert!(color_vec.len() == 3, "color must be a vector of 3 elements");
+                        [color_vec[0], color_vec[1], color_vec[2]]
+                    })
+                };
 
-        // Decode default themes
-        if let Some(default_theme_texture) = appearance.default_theme_texture() {
-            cj_appearance.default_theme_texture = Some(default_theme_texture.to_string());
-        }
+                CjMaterial {
+                    name: m.name().to_string(),
+                    ambient_intensity: m.ambient_intensity(),
+                    diffuse_color: convert_color(m.diffuse_color()),
+                    emissive_color: convert_color(m.emissive_color()),
+                    specular_color: convert_color(m.specular_color()),
+                    shininess: m.shininess(),
+                    transparency: m.transparency(),
+                    is_smooth: m.is_smooth(),
+                }
+            })
+            .collect();
 
-        if let Some(default_theme_material) = appearance.default_theme_material() {
-            cj_appearance.default_theme_material = Some(default_theme_material.to_string());
-        }
+        cj_appearance.materials = Some(cj_materials);
+    }
+
+    // Decode textures
+    if let Some(textures) = appearance.textures() {
+        let cj_textures = textures
+            .iter()
+            .map(|t| {
+                CjTexture {
+                    image: t.image().to_string(),
+                    texture_format: match t.type_() {
+                        TextureFormat::PNG => CjTextFormat::Png,
+                        TextureFormat::JPG => CjTextFormat::Jpg,
+                        _ => CjTextFormat::Png, // Default to PNG
+                    },
+                    wrap_mode: t.wrap_mode().map(|w| match w {
+                        WrapMode::None => CjWrapMode::None,
+                        WrapMode::Wrap => CjWrapMode::Wrap,
+                        WrapMode::Mirror => CjWrapMode::Mirror,
+                        WrapMode::Clamp => CjWrapMode::Clamp,
+                        WrapMode::Border => CjWrapMode::Border,
+                        _ => CjWrapMode::None, // Default to None
+                    }),
+                    texture_type: t.texture_type().map(|t| match t {
+                        TextureType::Unknown => CjTextType::Unknown,
+                        TextureType::Specific => CjTextType::Specific,
+                        TextureType::Typical => CjTextType::Typical,
+                        _ => CjTextType::Unknown, // Default to Unknown
+                    }),
+                    border_color: t.border_color().map(|c| {
+                        let color_vec: Vec<f64> = c.iter().collect();
+                        assert!(color_vec.len() == 4, "color must be a vector of 4 elements");
+                        [color_vec[0], color_vec[1], color_vec[2], color_vec[3]]
+                    }),
+                }
+            })
+            .collect::<Vec<_>>();
 
-        cj.appearance = Some(cj_appearance);
+        cj_appearance.textures = Some(cj_textures);
     }
 
-    Ok(cj) // Return Result
+    // Decode vertices_texture
+    if let Some(vertices_texture) = appearance.vertices_texture() {
+        cj_appearance.vertices_texture = Some(
+            vertices_texture
+                .iter()
+                .map(|v| [v.u(), v.v()])
+                .collect::<Vec<_>>(),
+        );
+    }
+
+    // Decode default themes
+    if let Some(default_theme_texture) = appearance.default_theme_texture() {
+        cj_appearance.default_theme_texture = Some(default_theme_texture.to_string());
+    }
+
+    if let Some(default_theme_material) = appearance.default_theme_material() {
+        cj_appearance.default_theme_material = Some(default_theme_material.to_string());
+    }
+
+    cj_appearance
 }
 
 /// Adds or removes one outer level holding a single element, so that the values of a lone solid or
-- 
2.43.0


From d0382926f5721f95f1e7887a24345bd3498aad74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:57 +0000
Subject: [PATCH 10/63] fix: report a header which does not verify

---
 src/rust/fcb_core/src/reader/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 522fefc..06234e3 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -108,7 +108,7 @@ impl<R: Read> FcbReader<R> {
         reader.read_exact(&mut header_buf[4..])?;
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf);
+            let _header = size_prefixed_root_as_header(&header_buf)?;
         }
 
         Ok(FcbReader {
-- 
2.43.0


From edf56318459e97028cb98dca7b2d57445f401932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:01 +0000
Subject: [PATCH 11/63] fix: declare the number of features really written in
 the header

---
 src/rust/fcb_core/src/writer/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 5d0ea56..8e52aa5 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -260,6 +260,9 @@ impl<'a> FcbWriter<'a> {
             }
         }
 
+        // the index and the readers rely on the number of features really written
+        self.header_writer.header_options.feature_count = self.feat_offsets.len() as u64;
+
         // write header with attribute indices metadata
         self.header_writer.attribute_indices_info = Some(attr_index_info);
         let header_buf = self.header_writer.finish_to_header()?;
-- 
2.43.0


From defc2a20666e5eaf67c73ebe6216e92b984a51d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:07 +0000
Subject: [PATCH 12/63] fix: find the greatest value of a key type in the
 attribute index

---
 src/rust/fcb_core/src/static_btree/stree.rs | 35 +++++++++++++++++++--
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 239a5de..38a8359 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -49,6 +49,17 @@ impl<K: Key> NodeItem<K> {
     }
 }
 
+/// Index of the child to the right of a key, given the child to its left. The last key of a level
+/// is the maximum of the key type standing for "no more nodes", it has nothing to its right.
+fn right_child(left_child: usize, node_size: usize, children_level: &Range<usize>) -> usize {
+    let right_child = left_child + node_size;
+    if right_child < children_level.end {
+        right_child
+    } else {
+        left_child
+    }
+}
+
 /// Read full capacity of vec from data stream
 fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
     node_items.clear();
@@ -763,7 +774,14 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        queue.push_back((
+                            right_child(
+                                node_items[index].offset as usize,
+                                node_size,
+                                &self.level_bounds[level - 1],
+                            ),
+                            level - 1,
+                        ));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -860,7 +878,14 @@ impl<K: Key> Stree<K> {
                     node_items.binary_search_by(|item: &Entry<K>| item.key.cmp(&search_entry.key));
                 match search_result {
                     Ok(index) => {
-                        queue.push_back((node_items[index].offset as usize + node_size, level - 1));
+                        queue.push_back((
+                            right_child(
+                                node_items[index].offset as usize,
+                                node_size,
+                                &level_bounds[level - 1],
+                            ),
+                            level - 1,
+                        ));
                     }
                     Err(index) => {
                         if index == 0 {
@@ -1279,7 +1304,11 @@ impl<K: Key> Stree<K> {
                 let mut _offset = 0;
                 match result {
                     Ok(idx) => {
-                        _offset = node_items[idx].offset as usize + node_size;
+                        _offset = right_child(
+                            node_items[idx].offset as usize,
+                            node_size,
+                            &level_bounds[node_range.level - 1],
+                        );
                     }
                     Err(idx) => {
                         if idx == 0 {
-- 
2.43.0


From 3379d4e8a5eb832731540192e6b72bcc6fe637e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 13/63] fix: read long payload entries over HTTP in full and
 report failures

---
 src/rust/fcb_core/src/static_btree/stree.rs | 110 +++++++-------------
 1 file changed, 35 insertions(+), 75 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 38a8359..90cac90 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -2,6 +2,7 @@ use crate::static_btree::entry::{Entry, Offset};
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::Key;
 use crate::static_btree::payload::PayloadEntry;
+use byteorder::{LittleEndian, ReadBytesExt};
 #[cfg(feature = "http")]
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use log::{debug, info};
@@ -115,12 +116,17 @@ async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     offset: usize,
 ) -> Result<PayloadEntry> {
-    let temp_buffered_count_bytes_size = DEFAULT_MIN_REQ_SIZE; //This is hueristic, we don't know the size of the payload. TODO: find a better way
-
     debug!("sending request to fetch payload, offset {offset:?}");
 
+    // The size of the entry is only known once its count has been read
+    let count_bytes = client
+        .min_req_size(DEFAULT_MIN_REQ_SIZE)
+        .get_range(offset, size_of::<u32>())
+        .await?;
+    let count = Cursor::new(count_bytes).read_u32::<LittleEndian>()? as usize;
+
     let payload_data = client
-        .get_range(offset, temp_buffered_count_bytes_size)
+        .get_range(offset, size_of::<u32>() + count * size_of::<Offset>())
         .await?;
     let mut buf = Cursor::new(payload_data);
 
@@ -313,69 +319,14 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         payload_offsets_to_fetch.len()
     );
 
-    // Group adjacent offsets to reduce number of requests
-    let mut offset_ranges = Vec::new();
-    let mut current_range = (payload_offsets_to_fetch[0], payload_offsets_to_fetch[0]);
-
-    for &offset in payload_offsets_to_fetch.iter().skip(1) {
-        // If offsets are close (within DEFAULT_MIN_REQ_SIZE), extend the current range
-        if offset <= current_range.1 + DEFAULT_MIN_REQ_SIZE {
-            current_range.1 = offset;
-        } else {
-            // Otherwise, finish the current range and start a new one
-            offset_ranges.push(current_range);
-            current_range = (offset, offset);
-        }
-    }
-    offset_ranges.push(current_range);
-
-    debug!(
-        "grouped into {} payload range requests",
-        offset_ranges.len()
-    );
-
-    // Fetch each range and process
-    let mut fetched_payloads = HashMap::new();
-
-    for (start, end) in offset_ranges {
-        // Calculate fetch size to include the complete payload entries
-        // Add a margin to account for variable-sized payload entries
-        let fetch_size = (end - start) + DEFAULT_MIN_REQ_SIZE;
-
-        let payload_data = client.get_range(start, fetch_size).await?;
-
-        // Process each requested offset within this range
-        for &offset in payload_offsets_to_fetch
-            .iter()
-            .filter(|&&o| o >= start && o <= end)
-        {
-            let relative_offset = offset - start;
-
-            // Make sure we have enough data
-            if relative_offset < payload_data.len() {
-                let mut buf = Cursor::new(&payload_data[relative_offset..]);
-                match PayloadEntry::deserialize(&mut buf) {
-                    Ok((entry, _)) => {
-                        fetched_payloads.insert(offset, entry);
-                    }
-                    Err(e) => {
-                        debug!("error deserializing payload at offset {}: {:?}", offset, e);
-                        // Continue with other offsets on error
-                    }
-                }
-            }
-        }
-    }
-
-    // Process the fetched payloads and add to results
-    for &offset in &payload_offsets_to_fetch {
-        if let Some(entry) = fetched_payloads.get(&offset) {
-            for offset in &entry.offsets {
-                let start = feature_begin + *offset as usize;
-                results.push(HttpSearchResultItem {
-                    range: HttpRange::RangeFrom(start..),
-                });
-            }
+    // Neighbouring entries are served from the buffer of the client
+    for &payload_offset in &payload_offsets_to_fetch {
+        let entry = read_http_payload_data(client, payload_offset).await?;
+        for offset in entry.offsets {
+            let start = feature_begin + offset as usize;
+            results.push(HttpSearchResultItem {
+                range: HttpRange::RangeFrom(start..),
+            });
         }
     }
 
@@ -1268,9 +1219,6 @@ impl<K: Key> Stree<K> {
         let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, None);
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
-        // Prefetch a chunk of payload data
-        let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
-
         while let Some(node_range) = queue.pop_front() {
             debug!("next: {node_range:?}. {} items left in queue", queue.len());
             let is_leaf = node_range.level == 0;
@@ -1383,6 +1331,15 @@ impl<K: Key> Stree<K> {
             }
         }
 
+        // Prefetch a chunk of payload data, there is none if no key is duplicated
+        let mut payload_cache = PayloadCache::new();
+        if payload_refs
+            .iter()
+            .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
+        {
+            payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
+        }
+
         // Batch resolve all payload references
         let results = batch_resolve_payloads(
             client,
@@ -1609,9 +1566,6 @@ impl<K: Key> Stree<K> {
         let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, Some(1.5));
         debug!("prefetching payload with size: {} bytes", prefetch_size);
 
-        // Prefetch a chunk of payload data
-        let payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
-
         debug!("http_stream_find_range - index_begin: {index_begin}, feature_begin: {feature_begin}, num_items: {num_items}, branching_factor: {branching_factor}, level_bounds: {level_bounds:?}, lower: {lower:?}, upper: {upper:?}");
 
         let Range {
@@ -1673,11 +1627,8 @@ impl<K: Key> Stree<K> {
                 if item.key >= lower && item.key <= upper {
                     let off = item.offset;
 
-                    println!("off: {:?}", off);
-
                     if (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        println!("rel: {:?}", rel);
                         // Add as indirect reference to be resolved in batch
                         payload_refs.push(PayloadRef::Indirect(rel));
                     } else {
@@ -1690,6 +1641,15 @@ impl<K: Key> Stree<K> {
             current_idx = node_end;
         }
 
+        // Prefetch a chunk of payload data, there is none if no key is duplicated
+        let mut payload_cache = PayloadCache::new();
+        if payload_refs
+            .iter()
+            .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
+        {
+            payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
+        }
+
         // Batch resolve all payload references
         let results = batch_resolve_payloads(
             client,
-- 
2.43.0


From 1dc86bccbd6b9b4921d7e706e00664dc3e6a1642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:42 +0000
Subject: [PATCH 14/63] fix: compare keys rather than offsets in attribute
 conditions and include their bound

---
 .../fcb_core/src/static_btree/query/http.rs   |  97 ++++++----
 .../fcb_core/src/static_btree/query/memory.rs |  38 ++--
 .../fcb_core/src/static_btree/query/stream.rs |  75 +++++---
 src/rust/fcb_core/src/static_btree/stree.rs   | 176 +++++++++++++++++-
 4 files changed, 298 insertions(+), 88 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/http.rs b/src/rust/fcb_core/src/static_btree/query/http.rs
index 83fcb2f..1987258 100644
--- a/src/rust/fcb_core/src/static_btree/query/http.rs
+++ b/src/rust/fcb_core/src/static_btree/query/http.rs
@@ -1,8 +1,9 @@
 use std::collections::HashMap;
 use std::marker::PhantomData;
+use std::ops::Bound;
 
 use crate::static_btree::error::{Error, Result};
-use crate::static_btree::key::{Key, KeyType, Max, Min};
+use crate::static_btree::key::{Key, KeyType};
 use crate::static_btree::query::types::{Operator, QueryCondition};
 use crate::static_btree::stree::http::HttpSearchResultItem;
 use crate::static_btree::stree::Stree;
@@ -96,6 +97,26 @@ impl<K: Key> HttpIndex<K> {
 
         Ok(items)
     }
+
+    /// Find all items between two bounds via HTTP
+    pub async fn find_between<T: AsyncHttpRangeClient>(
+        &self,
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        lower: Bound<K>,
+        upper: Bound<K>,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        Stree::http_stream_find_between(
+            client,
+            self.index_begin,
+            self.feature_begin,
+            self.num_items,
+            self.branching_factor,
+            lower,
+            upper,
+            self.combine_request_threshold,
+        )
+        .await
+    }
 }
 
 /// Trait for HTTP indices with heterogeneous key support
@@ -153,30 +174,31 @@ macro_rules! impl_typed_http_search_index {
                 let results = match condition.operator {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
-                        let all = self
-                            .find_range(
-                                client,
-                                Some(<$key_type>::min_value()),
-                                Some(<$key_type>::max_value()),
-                            )
+                        let mut v = self
+                            .find_between(client, Bound::Unbounded, Bound::Excluded(key.clone()))
                             .await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        v.extend(
+                            self.find_between(client, Bound::Excluded(key), Bound::Unbounded)
+                                .await?,
+                        );
+                        v
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        self.find_between(client, Bound::Excluded(key), Bound::Unbounded)
+                            .await?
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        self.find_between(client, Bound::Unbounded, Bound::Excluded(key))
+                            .await?
+                    }
+                    Operator::Ge => {
+                        self.find_between(client, Bound::Included(key), Bound::Unbounded)
+                            .await?
+                    }
+                    Operator::Le => {
+                        self.find_between(client, Bound::Unbounded, Bound::Included(key))
+                            .await?
                     }
-                    Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
                 };
                 Ok(results)
             }
@@ -206,30 +228,31 @@ macro_rules! impl_typed_http_search_index {
                 let results = match condition.operator {
                     Operator::Eq => self.find_exact(client, key.clone()).await?,
                     Operator::Ne => {
-                        let all = self
-                            .find_range(
-                                client,
-                                Some(<$key_type>::min_value()),
-                                Some(<$key_type>::max_value()),
-                            )
+                        let mut v = self
+                            .find_between(client, Bound::Unbounded, Bound::Excluded(key.clone()))
                             .await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        all.into_iter().filter(|x| !eq.contains(x)).collect()
+                        v.extend(
+                            self.find_between(client, Bound::Excluded(key), Bound::Unbounded)
+                                .await?,
+                        );
+                        v
                     }
                     Operator::Gt => {
-                        let mut v = self.find_range(client, Some(key.clone()), None).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        self.find_between(client, Bound::Excluded(key), Bound::Unbounded)
+                            .await?
                     }
                     Operator::Lt => {
-                        let mut v = self.find_range(client, None, Some(key.clone())).await?;
-                        let eq = self.find_exact(client, key.clone()).await?;
-                        v.retain(|x| !eq.contains(x));
-                        v
+                        self.find_between(client, Bound::Unbounded, Bound::Excluded(key))
+                            .await?
+                    }
+                    Operator::Ge => {
+                        self.find_between(client, Bound::Included(key), Bound::Unbounded)
+                            .await?
+                    }
+                    Operator::Le => {
+                        self.find_between(client, Bound::Unbounded, Bound::Included(key))
+                            .await?
                     }
-                    Operator::Ge => self.find_range(client, Some(key.clone()), None).await?,
-                    Operator::Le => self.find_range(client, None, Some(key.clone())).await?,
                 };
                 Ok(results)
             }
diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index 0f6759d..e65bbc8 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -2,10 +2,11 @@ use chrono::{DateTime, Utc};
 use ordered_float::OrderedFloat;
 use std::collections::HashMap;
 use std::io::{Read, Write};
+use std::ops::Bound;
 
 use crate::static_btree::entry::Entry;
 use crate::static_btree::error::{Error, Result};
-use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
+use crate::static_btree::key::{FixedStringKey, Key, KeyType};
 use crate::static_btree::query::types::{Operator, SearchIndex};
 use crate::static_btree::stree::Stree;
 
@@ -60,6 +61,12 @@ impl<K: Key> MemoryIndex<K> {
     pub fn payload_size(&self) -> usize {
         self.stree.payload_size()
     }
+
+    /// Find matches between two bounds, which may be inclusive, exclusive or absent
+    pub fn find_between(&self, lower: Bound<K>, upper: Bound<K>) -> Result<Vec<u64>> {
+        let results = self.stree.find_between(lower, upper)?;
+        Ok(results.into_iter().map(|item| item.offset as u64).collect())
+    }
 }
 
 impl<K: Key> SearchIndex<K> for MemoryIndex<K> {
@@ -118,29 +125,16 @@ macro_rules! impl_typed_search_index {
                 match condition.operator {
                     Operator::Eq => self.find_exact(key),
                     Operator::Ne => {
-                        let min = <$key_type>::min_value();
-                        let max = <$key_type>::max_value();
-                        let all_items = self.find_range(Some(min), Some(max))?;
-                        let matching_items = self.find_exact(key)?;
-                        Ok(all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect())
-                    }
-                    Operator::Gt => {
-                        let mut results = self.find_range(Some(key.clone()), None)?;
-                        let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        Ok(results)
-                    }
-                    Operator::Lt => {
-                        let mut results = self.find_range(None, Some(key.clone()))?;
-                        let exact_matches = self.find_exact(key)?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        let mut results =
+                            self.find_between(Bound::Unbounded, Bound::Excluded(key.clone()))?;
+                        results
+                            .extend(self.find_between(Bound::Excluded(key), Bound::Unbounded)?);
                         Ok(results)
                     }
-                    Operator::Ge => self.find_range(Some(key), None),
-                    Operator::Le => self.find_range(None, Some(key)),
+                    Operator::Gt => self.find_between(Bound::Excluded(key), Bound::Unbounded),
+                    Operator::Lt => self.find_between(Bound::Unbounded, Bound::Excluded(key)),
+                    Operator::Ge => self.find_between(Bound::Included(key), Bound::Unbounded),
+                    Operator::Le => self.find_between(Bound::Unbounded, Bound::Included(key)),
                 }
             }
         }
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0628140..33b2243 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -2,13 +2,13 @@ use std::collections::HashMap;
 use std::fmt::Debug;
 use std::io::{Read, Seek, SeekFrom};
 use std::marker::PhantomData;
-use std::ops::Range;
+use std::ops::{Bound, Range};
 
 use chrono::{DateTime, Utc};
 use ordered_float::OrderedFloat;
 
 use crate::static_btree::error::{Error, Result};
-use crate::static_btree::key::{FixedStringKey, Key, KeyType, Max, Min};
+use crate::static_btree::key::{FixedStringKey, Key, KeyType};
 use crate::static_btree::query::types::{Operator, QueryCondition};
 use crate::static_btree::stree::Stree;
 
@@ -120,6 +120,23 @@ impl<K: Key> StreamIndex<K> {
         reader.seek(SeekFrom::Start(start_position))?;
         results
     }
+
+    /// Find matches between two bounds using a reader
+    pub fn find_between_with_reader<R: Read + Seek + ?Sized>(
+        &self,
+        reader: &mut R,
+        lower: Bound<K>,
+        upper: Bound<K>,
+    ) -> Result<Vec<u64>> {
+        let results = Stree::stream_find_between(
+            reader,
+            self.num_items,
+            self.branching_factor,
+            lower,
+            upper,
+        )?;
+        Ok(results.into_iter().map(|item| item.offset as u64).collect())
+    }
 }
 
 /// Trait alias for objects that implement Read and Seek, to allow trait objects
@@ -161,33 +178,38 @@ macro_rules! impl_typed_stream_search_index {
                 let items = match condition.operator {
                     Operator::Eq => self.find_exact_with_reader(reader, key)?,
                     Operator::Ne => {
-                        let all_items = self.find_range_with_reader(
+                        let mut results = self.find_between_with_reader(
                             reader,
-                            Some(<$key_type>::min_value()),
-                            Some(<$key_type>::max_value()),
+                            Bound::Unbounded,
+                            Bound::Excluded(key.clone()),
                         )?;
-                        let matching_items = self.find_exact_with_reader(reader, key.clone())?;
-                        all_items
-                            .into_iter()
-                            .filter(|item| !matching_items.contains(item))
-                            .collect()
-                    }
-                    Operator::Gt => {
-                        let mut results =
-                            self.find_range_with_reader(reader, Some(key.clone()), None)?;
-                        let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
-                        results
-                    }
-                    Operator::Lt => {
-                        let mut results =
-                            self.find_range_with_reader(reader, None, Some(key.clone()))?;
-                        let exact_matches = self.find_exact_with_reader(reader, key.clone())?;
-                        results.retain(|item| !exact_matches.contains(item));
+                        results.extend(self.find_between_with_reader(
+                            reader,
+                            Bound::Excluded(key),
+                            Bound::Unbounded,
+                        )?);
                         results
                     }
-                    Operator::Ge => self.find_range_with_reader(reader, Some(key), None)?,
-                    Operator::Le => self.find_range_with_reader(reader, None, Some(key))?,
+                    Operator::Gt => self.find_between_with_reader(
+                        reader,
+                        Bound::Excluded(key),
+                        Bound::Unbounded,
+                    )?,
+                    Operator::Lt => self.find_between_with_reader(
+                        reader,
+                        Bound::Unbounded,
+                        Bound::Excluded(key),
+                    )?,
+                    Operator::Ge => self.find_between_with_reader(
+                        reader,
+                        Bound::Included(key),
+                        Bound::Unbounded,
+                    )?,
+                    Operator::Le => self.find_between_with_reader(
+                        reader,
+                        Bound::Unbounded,
+                        Bound::Included(key),
+                    )?,
                 };
                 reader.seek(SeekFrom::Start(start_position))?;
                 Ok(items)
@@ -410,9 +432,6 @@ impl StreamMultiIndex {
             let index_start = start_position + index_range.start as u64;
             // set cursor to the start of the index
             reader.seek(SeekFrom::Start(index_start))?;
-            println!("index_start: {}", index_start);
-            println!("start_position: {}", start_position);
-            println!("query condition: {:?}", cond);
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
             if result_set.is_empty() {
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 90cac90..ad05765 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -10,7 +10,7 @@ use std::cmp::{max, min};
 use std::collections::{HashMap, VecDeque};
 use std::io::{Cursor, Read, Seek, SeekFrom, Write};
 use std::mem::size_of;
-use std::ops::Range;
+use std::ops::{Bound, Range, RangeBounds};
 
 /// Marker bit in offset to indicate a payload reference (MSB).
 const PAYLOAD_TAG: Offset = 1u64 << 63;
@@ -1050,6 +1050,103 @@ impl<K: Key> Stree<K> {
         Ok(results)
     }
 
+    /// Finds all items with keys between two bounds, which may be inclusive, exclusive or absent
+    pub fn find_between(&self, lower: Bound<K>, upper: Bound<K>) -> Result<Vec<SearchResultItem>> {
+        let leaf_level = &self.level_bounds[0];
+        let start_idx = match &lower {
+            Bound::Included(key) | Bound::Excluded(key) => self.find_partition(key.clone())?,
+            Bound::Unbounded => leaf_level.start,
+        };
+
+        let mut results = Vec::new();
+        for idx in max(start_idx, leaf_level.start)..leaf_level.end {
+            let item = &self.node_items[idx];
+            if !(Bound::Unbounded, upper.as_ref()).contains(&item.key) {
+                break;
+            }
+            if !(lower.as_ref(), Bound::Unbounded).contains(&item.key) {
+                continue;
+            }
+            let index = idx - leaf_level.start;
+            if self.payload_initialized && (item.offset & PAYLOAD_TAG) != 0 {
+                let rel = (item.offset & PAYLOAD_MASK) as usize;
+                let (entry, _) =
+                    PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                for o in entry.offsets {
+                    results.push(SearchResultItem {
+                        offset: o as usize,
+                        index,
+                    });
+                }
+            } else {
+                results.push(SearchResultItem {
+                    offset: item.offset as usize,
+                    index,
+                });
+            }
+        }
+
+        Ok(results)
+    }
+
+    /// Same as `find_between`, for an index starting at the current position of a reader
+    pub fn stream_find_between<R: Read + Seek + ?Sized>(
+        data: &mut R,
+        num_items: usize, // number of items in the tree, not the number of entries of original data
+        branching_factor: u16,
+        lower: Bound<K>,
+        upper: Bound<K>,
+    ) -> Result<Vec<SearchResultItem>> {
+        let node_size = branching_factor as usize - 1;
+        let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
+        let leaf_level = &level_bounds[0];
+        let index_base = data.stream_position()?;
+        let payload_data_start = index_base + Stree::<K>::tree_size(leaf_level.end) as u64;
+        let start_idx = match &lower {
+            Bound::Included(key) | Bound::Excluded(key) => {
+                Stree::stream_find_partition(data, num_items, branching_factor, key.clone())?
+            }
+            Bound::Unbounded => leaf_level.start,
+        };
+
+        let mut results = Vec::new();
+        let mut current_idx = max(start_idx, leaf_level.start);
+        'nodes: while current_idx < leaf_level.end {
+            let node_end = min(current_idx + node_size, leaf_level.end);
+            let node_items: Vec<NodeItem<K>> =
+                read_node_items(data, index_base, current_idx, node_end - current_idx)?;
+            for (i, item) in node_items.iter().enumerate() {
+                if !(Bound::Unbounded, upper.as_ref()).contains(&item.key) {
+                    break 'nodes;
+                }
+                if !(lower.as_ref(), Bound::Unbounded).contains(&item.key) {
+                    continue;
+                }
+                let index = current_idx + i - leaf_level.start;
+                if (item.offset & PAYLOAD_TAG) != 0 {
+                    let rel = item.offset & PAYLOAD_MASK;
+                    data.seek(SeekFrom::Start(payload_data_start + rel))?;
+                    let (entry, _) = PayloadEntry::deserialize(data)?;
+                    for o in entry.offsets {
+                        results.push(SearchResultItem {
+                            offset: o as usize,
+                            index,
+                        });
+                    }
+                } else {
+                    results.push(SearchResultItem {
+                        offset: item.offset as usize,
+                        index,
+                    });
+                }
+            }
+            current_idx = node_end;
+        }
+
+        data.seek(SeekFrom::Start(index_base))?;
+        Ok(results)
+    }
+
     /// Finds the partition point for a key in the tree
     /// Returns the index in the leaf level where the key would be inserted
     ///
@@ -1662,6 +1759,83 @@ impl<K: Key> Stree<K> {
 
         Ok(results)
     }
+
+    /// Same as `find_between`, for an index accessed over HTTP
+    #[cfg(feature = "http")]
+    #[allow(clippy::too_many_arguments)]
+    pub async fn http_stream_find_between<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        index_begin: usize,
+        feature_begin: usize,
+        num_items: usize,
+        branching_factor: u16,
+        lower: Bound<K>,
+        upper: Bound<K>,
+        combine_request_threshold: usize,
+    ) -> Result<Vec<HttpSearchResultItem>> {
+        if num_items == 0 {
+            return Ok(vec![]);
+        }
+        let node_size = branching_factor as usize - 1;
+        let level_bounds = Self::generate_level_bounds(num_items, branching_factor);
+        let leaf_level = &level_bounds[0];
+        let payload_data_start = index_begin + Stree::<K>::tree_size(leaf_level.end);
+        let start_idx = match &lower {
+            Bound::Included(key) | Bound::Excluded(key) => {
+                Self::http_stream_find_partition(
+                    client,
+                    index_begin,
+                    num_items,
+                    branching_factor,
+                    key.clone(),
+                    combine_request_threshold,
+                )
+                .await?
+            }
+            Bound::Unbounded => leaf_level.start,
+        };
+
+        let mut payload_refs = Vec::new();
+        let mut current_idx = max(start_idx, leaf_level.start);
+        'nodes: while current_idx < leaf_level.end {
+            let node_end = min(current_idx + node_size, leaf_level.end);
+            let node_items =
+                read_http_node_items::<K, T>(client, index_begin, &(current_idx..node_end)).await?;
+            for item in node_items.iter() {
+                if !(Bound::Unbounded, upper.as_ref()).contains(&item.key) {
+                    break 'nodes;
+                }
+                if !(lower.as_ref(), Bound::Unbounded).contains(&item.key) {
+                    continue;
+                }
+                if (item.offset & PAYLOAD_TAG) != 0 {
+                    payload_refs.push(PayloadRef::Indirect((item.offset & PAYLOAD_MASK) as usize));
+                } else {
+                    payload_refs.push(PayloadRef::Direct(item.offset));
+                }
+            }
+            current_idx = node_end;
+        }
+
+        // Prefetch a chunk of payload data, there is none if no key is duplicated
+        let mut payload_cache = PayloadCache::new();
+        if payload_refs
+            .iter()
+            .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
+        {
+            let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, Some(1.5));
+            payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
+        }
+
+        batch_resolve_payloads(
+            client,
+            payload_refs,
+            payload_data_start,
+            feature_begin,
+            Some(&payload_cache),
+        )
+        .await
+    }
 }
 
 #[cfg(feature = "http")]
-- 
2.43.0


From c4f63de8a2968159a61108f0cfbb001d021db201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:02 +0000
Subject: [PATCH 15/63] fix: deliver a feature once and in file order in
 attribute queries

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 10 ++++------
 src/rust/fcb_core/src/reader/attr_query.rs |  4 ++++
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index a9deae9..fffa34e 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -276,14 +276,15 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             current_index_begin += attr_info.length() as usize;
         }
 
-        let result = http_multi_index
+        let mut result = http_multi_index
             .query(&mut self.client, &query.conditions)
             .await?;
+        result.sort_by_key(|item| item.range.start());
+        // several objects of a feature may match
+        result.dedup();
 
         let count = result.len();
 
-        // println!("result: {:?}", result);
-
         let http_ranges: Vec<HttpRange> = result
             .into_iter()
             .map(|item| match item.range {
@@ -297,7 +298,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             count
         );
 
-        println!("http_ranges: {:?}", http_ranges);
         Ok(AsyncFeatureIter {
             client: self.client,
             fbs: self.fbs,
@@ -680,13 +680,11 @@ impl SelectAttr {
         &mut self,
         client: &mut AsyncBufferedHttpRangeClient<T>,
     ) -> Result<Option<Bytes>> {
-        println!("self.range_pos: {:?}", self.range_pos);
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
         let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
         let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        println!("feature_size: {:?}", feature_size);
         feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
         self.range_pos += 1;
         Ok(Some(feature_buffer.freeze()))
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index ebf8bd4..796fbea 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -389,6 +389,8 @@ impl<R: Read + Seek> FcbReader<R> {
         // Sort the results
         let mut result_vec: Vec<u64> = result.into_iter().collect();
         result_vec.sort();
+        // several objects of a feature may match
+        result_vec.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
@@ -470,6 +472,8 @@ impl<R: Read> FcbReader<R> {
         let query_obj = build_query(&query);
         let mut result = multi_index.query(&query_obj.conditions)?;
         result.sort();
+        // several objects of a feature may match
+        result.dedup();
 
         let header_size = self.buffer.header_buf.len();
         let feature_offset = FeatureOffset {
-- 
2.43.0


From a59b4ed14617007e8fd12bd22e1f77c49d469691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:43 +0000
Subject: [PATCH 16/63] fix: query attribute indices of type Long

---
 src/rust/fcb_core/src/http_reader/mod.rs   | 10 ++++++++++
 src/rust/fcb_core/src/reader/attr_query.rs | 17 +++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index fffa34e..74c094f 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -420,6 +420,16 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                     );
                     multi_index.add_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = HttpIndex::<i64>::new(
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                        index_begin,
+                        feature_begin,
+                        1024 * 1024, // combine_request_threshold
+                    );
+                    multi_index.add_index(col.name().to_string(), index);
+                }
                 ColumnType::Byte => {
                     let index = HttpIndex::<i8>::new(
                         attr_info.num_unique_items() as usize,
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 796fbea..d0f7d72 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -114,6 +114,14 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                     )?;
                     multi_index.add_u64_index(col.name().to_string(), index);
                 }
+                ColumnType::Long => {
+                    let index = MemoryIndex::<i64>::from_buf(
+                        &mut buf,
+                        attr_info.num_unique_items() as usize,
+                        attr_info.branching_factor(),
+                    )?;
+                    multi_index.add_i64_index(col.name().to_string(), index);
+                }
                 ColumnType::Byte => {
                     let index = MemoryIndex::<i8>::from_buf(
                         &mut buf,
@@ -252,6 +260,15 @@ pub fn add_indices_to_multi_stream_index<R: Read + Seek>(
                 );
                 multi_index.add_u64_index(col.name().to_string(), index, attr_info.length() as u64);
             }
+            ColumnType::Long => {
+                let index = StreamIndex::<i64>::new(
+                    attr_info.num_unique_items() as usize,
+                    attr_info.branching_factor(),
+                    index_begin,
+                    attr_info.length() as u64,
+                );
+                multi_index.add_i64_index(col.name().to_string(), index, attr_info.length() as u64);
+            }
             ColumnType::Byte => {
                 let index = StreamIndex::<i8>::new(
                     attr_info.num_unique_items() as usize,
-- 
2.43.0


From 4cf9b6fa73de2df8af8e0e0c07da0d48b9dd44bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:51 +0000
Subject: [PATCH 17/63] fix: index the values objects have, for every integer
 width

---
 src/rust/fcb_core/src/writer/attr_index.rs |   2 +-
 src/rust/fcb_core/src/writer/attribute.rs  | 136 ++++++++-------------
 2 files changed, 52 insertions(+), 86 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index f8b70ca..b757055 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -237,7 +237,7 @@ pub(super) fn build_attribute_index_for_attr(
             },
             branching_factor,
         ),
-        ColumnType::Byte => build_index_generic::<u8, _>(
+        ColumnType::Byte => build_index_generic::<i8, _>(
             *schema_index,
             attribute_entries,
             |entry| {
diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 119b1c0..4d336b4 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -206,7 +206,7 @@ pub enum AttributeIndexEntry {
     DateTime { index: u16, val: DateTime<Utc> },
     Short { index: u16, val: i16 },
     UShort { index: u16, val: u16 },
-    Byte { index: u16, val: u8 },
+    Byte { index: u16, val: i8 },
     UByte { index: u16, val: u8 },
     Json { index: u16, val: String },
     Binary { index: u16, val: String },
@@ -228,6 +228,14 @@ pub fn cityfeature_to_index_entries(
     index_entries
 }
 
+fn as_int<T: TryFrom<i64>>(val: &Value) -> Option<T> {
+    val.as_i64().and_then(|val| T::try_from(val).ok())
+}
+
+fn as_uint<T: TryFrom<u64>>(val: &Value) -> Option<T> {
+    val.as_u64().and_then(|val| T::try_from(val).ok())
+}
+
 // this attr should be a json object with attribute name as key and attribute value as value
 pub fn attribute_to_index_entries(
     attr: &Value,
@@ -242,94 +250,52 @@ pub fn attribute_to_index_entries(
 
     let map = attr.as_object().unwrap();
     for attr in indexing_attr {
+        // there is nothing to index for an object without the attribute
         let val: &Value = match map.get(attr) {
-            Some(val) => val,
-            None => {
-                println!("Attribute {} not found in schema", attr);
-                continue;
-            }
+            Some(val) if !val.is_null() => val,
+            _ => continue,
         };
 
-        let index_coltype = schema.get(attr);
-        if let Some((index, coltype)) = index_coltype {
-            match *coltype {
-                ColumnType::Bool => {
-                    let b = val.as_bool().unwrap_or(false);
-                    index_entries.push(AttributeIndexEntry::Bool {
-                        index: *index,
-                        val: b,
-                    });
-                }
-                ColumnType::Int => {
-                    let i = val.as_i64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::Int {
-                        index: *index,
-                        val: i as i32,
-                    });
-                }
-                ColumnType::UInt => {
-                    let i = val.as_u64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::UInt {
-                        index: *index,
-                        val: i as u32,
-                    });
-                }
-                ColumnType::Long => {
-                    let i = val.as_i64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::Long {
-                        index: *index,
-                        val: i as i64,
-                    });
-                }
-                ColumnType::ULong => {
-                    let i = val.as_u64().unwrap_or(0);
-                    index_entries.push(AttributeIndexEntry::ULong {
-                        index: *index,
-                        val: i as u64,
-                    });
-                }
-                ColumnType::Float => {
-                    let f = val.as_f64().unwrap_or(0.0);
-                    index_entries.push(AttributeIndexEntry::Float {
-                        index: *index,
-                        val: f as f32,
-                    });
-                }
-                ColumnType::Double => {
-                    let f = val.as_f64().unwrap_or(0.0);
-                    index_entries.push(AttributeIndexEntry::Double {
-                        index: *index,
-                        val: f,
-                    });
-                }
-                ColumnType::String => {
-                    index_entries.push(AttributeIndexEntry::String {
-                        index: *index,
-                        val: val.as_str().unwrap_or("").to_string(),
-                    });
-                }
-                ColumnType::DateTime => {
-                    let dt = match chrono::DateTime::parse_from_rfc3339(val.as_str().unwrap_or(""))
-                    {
-                        Ok(dt) => dt.to_utc(),
-                        Err(e) => {
-                            eprintln!("Failed to parse DateTime: {}", e);
-                            // Choose whether to skip, default, or handle differently
-                            // For example, default to 1970-01-01:
-                            DateTime::<Utc>::from_timestamp(0, 0).unwrap()
-                        }
-                    };
-                    index_entries.push(AttributeIndexEntry::DateTime {
-                        index: *index,
-                        val: dt,
-                    });
-                }
-                _ => {
-                    //Byte, Ubyte,
-                    println!("Attribute {} is not supported for indexing", attr);
-                }
+        let Some((index, coltype)) = schema.get(attr) else {
+            continue;
+        };
+        let index = *index;
+        let entry = match *coltype {
+            ColumnType::Bool => val
+                .as_bool()
+                .map(|val| AttributeIndexEntry::Bool { index, val }),
+            ColumnType::Int => as_int(val).map(|val| AttributeIndexEntry::Int { index, val }),
+            ColumnType::UInt => as_uint(val).map(|val| AttributeIndexEntry::UInt { index, val }),
+            ColumnType::Long => as_int(val).map(|val| AttributeIndexEntry::Long { index, val }),
+            ColumnType::ULong => as_uint(val).map(|val| AttributeIndexEntry::ULong { index, val }),
+            ColumnType::Short => as_int(val).map(|val| AttributeIndexEntry::Short { index, val }),
+            ColumnType::UShort => {
+                as_uint(val).map(|val| AttributeIndexEntry::UShort { index, val })
             }
-        }
+            ColumnType::Byte => as_int(val).map(|val| AttributeIndexEntry::Byte { index, val }),
+            ColumnType::UByte => as_uint(val).map(|val| AttributeIndexEntry::UByte { index, val }),
+            ColumnType::Float => val.as_f64().map(|val| AttributeIndexEntry::Float {
+                index,
+                val: val as f32,
+            }),
+            ColumnType::Double => val
+                .as_f64()
+                .map(|val| AttributeIndexEntry::Double { index, val }),
+            ColumnType::String => val.as_str().map(|val| AttributeIndexEntry::String {
+                index,
+                val: val.to_string(),
+            }),
+            ColumnType::DateTime => val
+                .as_str()
+                .and_then(|val| chrono::DateTime::parse_from_rfc3339(val).ok())
+                .map(|val| AttributeIndexEntry::DateTime {
+                    index,
+                    val: val.to_utc(),
+                }),
+            // other types are not supported for indexing
+            _ => None,
+        };
+        index_entries.extend(entry);
     }
 
     index_entries
-- 
2.43.0


From 85b70de9f6f4ac489e936734737b9ade99bf15f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:17 +0000
Subject: [PATCH 18/63] fix: store the entries of an attribute index in a
 reproducible order

---
 src/rust/fcb_core/src/writer/attr_index.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index b757055..a0ef20b 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -24,7 +24,11 @@ where
 {
     let mut entries: Vec<Entry<T>> = Vec::new();
 
-    for feature in attribute_entries.values() {
+    // entries with the same key are stored in the order given, which must not vary between runs
+    let mut features: Vec<&AttributeFeatureOffset> = attribute_entries.values().collect();
+    features.sort_by_key(|feature| feature.offset);
+
+    for feature in features {
         for entry in &feature.index_entries {
             let Some(key) = extract(entry) else {
                 continue;
-- 
2.43.0


From c0caa55e019c89164c2ea345dee9d6fd0386c115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:23 +0000
Subject: [PATCH 19/63] fix: report a failure to build an attribute index, and
 skip an empty one

---
 src/rust/fcb_core/src/writer/attr_index.rs | 19 +++++++++++++------
 src/rust/fcb_core/src/writer/mod.rs        |  4 ++--
 2 files changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attr_index.rs b/src/rust/fcb_core/src/writer/attr_index.rs
index a0ef20b..f7cfbf9 100644
--- a/src/rust/fcb_core/src/writer/attr_index.rs
+++ b/src/rust/fcb_core/src/writer/attr_index.rs
@@ -17,7 +17,7 @@ fn build_index_generic<T, F>(
     attribute_entries: &HashMap<usize, AttributeFeatureOffset>,
     extract: F,
     branching_factor: u16,
-) -> Result<(Vec<u8>, AttributeIndexInfo)>
+) -> Result<Option<(Vec<u8>, AttributeIndexInfo)>>
 where
     T: Key,
     F: Fn(&AttributeIndexEntry) -> Option<T>,
@@ -40,11 +40,15 @@ where
         }
     }
 
+    if entries.is_empty() {
+        return Ok(None);
+    }
+
     let index = MemoryIndex::<T>::build(&entries, branching_factor)?;
     let mut buf = Vec::new();
     index.serialize(&mut buf)?;
     let buf_length = buf.len();
-    Ok((
+    Ok(Some((
         buf,
         AttributeIndexInfo {
             index: schema_index,
@@ -52,17 +56,21 @@ where
             branching_factor: index.branching_factor(),
             num_unique_items: index.num_items() as u32,
         },
-    ))
+    )))
 }
 
+/// Returns None if the attribute is not known or no object has a value for it, there is nothing to
+/// index then
 pub(super) fn build_attribute_index_for_attr(
     attr_name: &str,
     schema: &AttributeSchema,
     attribute_entries: &HashMap<usize, AttributeFeatureOffset>,
     branching_factor: u16,
-) -> Result<(Vec<u8>, AttributeIndexInfo)> {
+) -> Result<Option<(Vec<u8>, AttributeIndexInfo)>> {
     // Look up attribute info from schema; if not found, return None
-    let (schema_index, coltype) = schema.get(attr_name).ok_or(Error::AttributeIndexNotFound)?;
+    let Some((schema_index, coltype)) = schema.get(attr_name) else {
+        return Ok(None);
+    };
 
     match *coltype {
         ColumnType::Bool => build_index_generic::<bool, _>(
@@ -306,7 +314,6 @@ pub(super) fn build_attribute_index_for_attr(
             branching_factor,
         ),
         _ => {
-            println!("Unsupported column type for indexing: {:?}", coltype);
             Err(Error::UnsupportedColumnType(format!("{:?}", coltype)))
         }
     }
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 8e52aa5..a8c224d 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -248,12 +248,12 @@ impl<'a> FcbWriter<'a> {
         if let Some(sorted_indices) = &attr_indices {
             for (name, bf_opt) in sorted_indices {
                 let bf = bf_opt.unwrap_or(crate::static_btree::DEFAULT_BRANCHING_FACTOR);
-                if let Ok((buf, info)) = build_attribute_index_for_attr(
+                if let Some((buf, info)) = build_attribute_index_for_attr(
                     name,
                     &self.attr_schema,
                     &self.attribute_index_entries,
                     bf,
-                ) {
+                )? {
                     attr_index_info.push(info);
                     attr_index_buf.extend(&buf);
                 }
-- 
2.43.0


From 6e1ba5e227a6199bb832a84801582ac37de24420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:40 +0000
Subject: [PATCH 20/63] fix: look up the column of an attribute index by its
 index when reading sequentially

---
 src/rust/fcb_core/src/reader/attr_query.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index d0f7d72..7d97b85 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -464,7 +464,12 @@ impl<R: Read> FcbReader<R> {
 
         for attr_info in attr_index_entries.iter() {
             let column_idx = attr_info.index();
-            let field_name = columns[column_idx as usize].name().to_string();
+            let field_name = columns
+                .iter()
+                .find(|c| c.index() == column_idx)
+                .ok_or(Error::AttributeIndexNotFound)?
+                .name()
+                .to_string();
 
             // Only process this attribute if it's used in the query
             if query_fields.contains(&field_name) {
-- 
2.43.0


From 526fb93c4cef49d82e53a920b9de375356435918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:37 +0000
Subject: [PATCH 21/63] fix: search the spatial index with the node size the
 header declares

---
 src/rust/fcb_core/src/http_reader/mod.rs | 2 +-
 src/rust/fcb_core/src/reader/mod.rs      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 74c094f..fcd64b0 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -209,7 +209,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             header_len,
             attr_index_size,
             count,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
             combine_request_threshold,
         )
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 06234e3..8e4f276 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -213,7 +213,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let list = PackedRTree::stream_search(
             &mut self.reader,
             header.features_count() as usize,
-            PackedRTree::DEFAULT_NODE_SIZE,
+            header.index_node_size(),
             query,
         )?;
         debug_assert!(
-- 
2.43.0


From 4869178dda7332a95a6a7bb458b7989815c7c930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:06 +0000
Subject: [PATCH 22/63] fix: report a failing or truncated input instead of
 ending the iteration

---
 src/rust/fcb_core/src/reader/attr_query.rs |  19 ++-
 src/rust/fcb_core/src/reader/mod.rs        | 149 +++++++++++++--------
 2 files changed, 99 insertions(+), 69 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 7d97b85..41ed2f1 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -3,7 +3,7 @@ use crate::static_btree::{
     QueryCondition, StreamIndex, StreamMultiIndex,
 };
 use std::collections::HashMap;
-use std::io::{self, Cursor, Read, Seek, SeekFrom};
+use std::io::{Cursor, Read, Seek, SeekFrom};
 use std::ops::Range;
 
 use crate::error::{Error, Result};
@@ -15,7 +15,7 @@ use crate::{AttributeIndex, Column, FeatureOffset};
 
 use super::{
     reader_trait::{NotSeekable, Seekable},
-    FcbReader, FeatureIter,
+    skip_bytes, FcbReader, FeatureIter,
 };
 
 pub type AttrQuery = Vec<(String, Operator, KeyType)>;
@@ -423,7 +423,7 @@ impl<R: Read + Seek> FcbReader<R> {
         self.reader
             .seek(SeekFrom::Start(attr_index_start_pos + attr_index_size))?;
 
-        Ok(FeatureIter::<R, Seekable>::new(
+        FeatureIter::<R, Seekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -431,7 +431,7 @@ impl<R: Read + Seek> FcbReader<R> {
             Some(result_vec),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -453,7 +453,7 @@ impl<R: Read> FcbReader<R> {
 
         // Instead of seeking, read and discard the rtree index bytes; we know the correct offset for that.
         let rtree_offset = self.rtree_index_size();
-        io::copy(&mut (&mut self.reader).take(rtree_offset), &mut io::sink())?;
+        skip_bytes(&mut self.reader, rtree_offset)?;
 
         // Since we can't use StreamableMultiIndex with a non-seekable reader,
         // we'll still use MultiIndex but optimize the process to minimize memory usage
@@ -483,10 +483,7 @@ impl<R: Read> FcbReader<R> {
             } else {
                 // Skip this attribute index if not needed
                 let index_size = attr_info.length();
-                io::copy(
-                    &mut (&mut self.reader).take(index_size as u64),
-                    &mut io::sink(),
-                )?;
+                skip_bytes(&mut self.reader, index_size as u64)?;
             }
         }
 
@@ -508,7 +505,7 @@ impl<R: Read> FcbReader<R> {
         let total_feat_count = result.len() as u64;
 
         // Create and return the FeatureIter
-        Ok(FeatureIter::<R, NotSeekable>::new(
+        FeatureIter::<R, NotSeekable>::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -516,6 +513,6 @@ impl<R: Read> FcbReader<R> {
             Some(result),
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 8e4f276..ae20c09 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -124,7 +124,7 @@ impl<R: Read> FcbReader<R> {
     pub fn select_all_seq(mut self) -> Result<FeatureIter<R, NotSeekable>, Error> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         // discard bufer of index
-        io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
+        skip_bytes(&mut self.reader, index_size)?;
         let feature_offset = FeatureOffset {
             magic_bytes: 8,
             header: 4 + self.buffer.header_buf.len() as u64,
@@ -132,7 +132,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -140,7 +140,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query_seq(mut self, query: Query) -> Result<FeatureIter<R, NotSeekable>, Error> {
@@ -161,7 +161,7 @@ impl<R: Read> FcbReader<R> {
         );
         // skip attribute index
         let index_size = self.attr_index_size();
-        io::copy(&mut (&mut self.reader).take(index_size), &mut io::sink())?;
+        skip_bytes(&mut self.reader, index_size)?;
         let feature_offset = FeatureOffset {
             magic_bytes: 8,
             header: 4 + self.buffer.header_buf.len() as u64,
@@ -169,7 +169,7 @@ impl<R: Read> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -177,7 +177,7 @@ impl<R: Read> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -193,7 +193,7 @@ impl<R: Read + Seek> FcbReader<R> {
         let index_size = self.attr_index_size() + self.rtree_index_size();
         self.reader.seek(SeekFrom::Current(index_size as i64))?;
         let total_feat_count = self.buffer.header().features_count();
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -201,7 +201,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 
     pub fn select_query(mut self, query: Query) -> Result<FeatureIter<R, Seekable>, Error> {
@@ -230,7 +230,7 @@ impl<R: Read + Seek> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let total_feat_count = list.len() as u64;
-        Ok(FeatureIter::new(
+        FeatureIter::new(
             self.reader,
             self.verify,
             self.buffer,
@@ -238,7 +238,7 @@ impl<R: Read + Seek> FcbReader<R> {
             None,
             feature_offset,
             total_feat_count,
-        ))
+        )
     }
 }
 
@@ -284,6 +284,14 @@ impl<R: Read> FcbReader<R> {
     }
 }
 
+/// Read and discard exactly this many bytes
+pub(super) fn skip_bytes(mut reader: impl Read, size: u64) -> Result<(), Error> {
+    if io::copy(&mut (&mut reader).take(size), &mut io::sink())? < size {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
+    Ok(())
+}
+
 impl FeatureOffset {
     fn total_size(&self) -> u64 {
         self.magic_bytes + self.header + self.rtree_index + self.attributes
@@ -298,6 +306,21 @@ impl<R: Read> FallibleStreamingIterator for FeatureIter<R, NotSeekable> {
         if self.advance_finished() {
             return Ok(());
         }
+        let result = self.advance_to_next();
+        self.finish_on_error(result)
+    }
+
+    fn get(&self) -> Option<&FcbBuffer> {
+        self.iter_get()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter_size_hint()
+    }
+}
+
+impl<R: Read> FeatureIter<R, NotSeekable> {
+    fn advance_to_next(&mut self) -> Result<(), Error> {
         if let Some(filter) = &self.item_filter {
             let item = &filter[self.feat_no];
             if item.offset as u64 > self.cur_pos {
@@ -306,7 +329,7 @@ impl<R: Read> FallibleStreamingIterator for FeatureIter<R, NotSeekable> {
                 }
                 // skip features
                 let seek_bytes = item.offset as u64 - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
+                skip_bytes(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -319,21 +342,13 @@ impl<R: Read> FallibleStreamingIterator for FeatureIter<R, NotSeekable> {
                     self.state = State::Reading;
                 }
                 let seek_bytes = item_offset - self.cur_pos;
-                io::copy(&mut (&mut self.reader).take(seek_bytes), &mut io::sink())?;
+                skip_bytes(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
 
         self.read_feature()
     }
-
-    fn get(&self) -> Option<&FcbBuffer> {
-        self.iter_get()
-    }
-
-    fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter_size_hint()
-    }
 }
 
 impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
@@ -344,6 +359,21 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
         if self.advance_finished() {
             return Ok(());
         }
+        let result = self.advance_to_next();
+        self.finish_on_error(result)
+    }
+
+    fn get(&self) -> Option<&FcbBuffer> {
+        self.iter_get()
+    }
+
+    fn size_hint(&self) -> (usize, Option<usize>) {
+        self.iter_size_hint()
+    }
+}
+
+impl<R: Read + Seek> FeatureIter<R, Seekable> {
+    fn advance_to_next(&mut self) -> Result<(), Error> {
         if let Some(filter) = &self.item_filter {
             let item = &filter[self.feat_no];
             if item.offset as u64 > self.cur_pos {
@@ -370,14 +400,6 @@ impl<R: Read + Seek> FallibleStreamingIterator for FeatureIter<R, Seekable> {
 
         self.read_feature()
     }
-
-    fn get(&self) -> Option<&FcbBuffer> {
-        self.iter_get()
-    }
-
-    fn size_hint(&self) -> (usize, Option<usize>) {
-        self.iter_size_hint()
-    }
 }
 
 impl<R: Read> FeatureIter<R, NotSeekable> {
@@ -452,7 +474,7 @@ impl<R: Read, S> FeatureIter<R, S> {
         item_attr_filter: Option<Vec<Offset>>,
         feature_offset: FeatureOffset,
         total_feat_count: u64,
-    ) -> FeatureIter<R, S> {
+    ) -> Result<FeatureIter<R, S>, Error> {
         let mut iter = FeatureIter {
             reader,
             verify,
@@ -468,27 +490,23 @@ impl<R: Read, S> FeatureIter<R, S> {
             total_feat_count,
         };
 
-        if iter.read_feature_size() {
+        iter.count = match (&iter.item_filter, &iter.item_attr_filter) {
+            (Some(list), _) => Some(list.len()),
+            (None, Some(list)) => Some(list.len()),
+            (None, None) => match iter.buffer.header().features_count() as usize {
+                0 => None,
+                feat_count => Some(feat_count),
+            },
+        };
+
+        if iter.read_feature_size()? {
             iter.state = State::Finished;
+            iter.count = Some(0);
         } else {
             iter.state = State::ReadFirstFeatureSize
         }
 
-        iter.count = match &iter.item_filter {
-            Some(list) => Some(list.len()),
-            None => {
-                let feat_count = iter.buffer.header().features_count() as usize;
-                if feat_count > 0 {
-                    Some(feat_count)
-                } else if iter.state == State::Finished {
-                    Some(0)
-                } else {
-                    None
-                }
-            }
-        };
-
-        iter
+        Ok(iter)
     }
 
     pub fn header(&self) -> Header {
@@ -515,22 +533,24 @@ impl<R: Read, S> FeatureIter<R, S> {
                 return true;
             }
         }
-        if let Some(attr_filter) = &self.item_attr_filter {
-            if self.feat_no >= attr_filter.len() {
-                self.state = State::Finished;
-                return true;
-            }
-        }
         false
     }
 
     /// Read feature size and return true if end of dataset reached
-    fn read_feature_size(&mut self) -> bool {
+    fn read_feature_size(&mut self) -> Result<bool, Error> {
         self.buffer.features_buf.resize(4, 0);
         self.cur_pos += 4;
-        self.reader
-            .read_exact(&mut self.buffer.features_buf)
-            .is_err()
+        match self.reader.read_exact(&mut self.buffer.features_buf) {
+            Ok(()) => Ok(false),
+            // the end is where it should be, or not known beforehand
+            Err(e)
+                if e.kind() == io::ErrorKind::UnexpectedEof
+                    && self.count.map_or(true, |count| self.feat_no >= count) =>
+            {
+                Ok(true)
+            }
+            Err(e) => Err(e.into()),
+        }
     }
 
     fn read_feature(&mut self) -> Result<(), Error> {
@@ -539,7 +559,7 @@ impl<R: Read, S> FeatureIter<R, S> {
                 self.state = State::Reading;
             }
             State::Reading => {
-                if self.read_feature_size() {
+                if self.read_feature_size()? {
                     self.state = State::Finished;
                     return Ok(());
                 }
@@ -557,8 +577,13 @@ impl<R: Read, S> FeatureIter<R, S> {
         }
         let sbuf = &self.buffer.features_buf;
         let feature_size = u32::from_le_bytes([sbuf[0], sbuf[1], sbuf[2], sbuf[3]]) as usize;
-        self.buffer.features_buf.resize(feature_size + 4, 0);
-        self.reader.read_exact(&mut self.buffer.features_buf[4..])?;
+        // the size is not trusted until as many bytes have been read
+        let read_size = (&mut self.reader)
+            .take(feature_size as u64)
+            .read_to_end(&mut self.buffer.features_buf)?;
+        if read_size < feature_size {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
         if self.verify {
             let _feature = size_prefixed_root_as_city_feature(&self.buffer.features_buf)?;
         }
@@ -568,6 +593,14 @@ impl<R: Read, S> FeatureIter<R, S> {
         Ok(())
     }
 
+    /// Ends the iteration if there was an error, the position in the input is undefined then
+    fn finish_on_error(&mut self, result: Result<(), Error>) -> Result<(), Error> {
+        if result.is_err() {
+            self.state = State::Finished;
+        }
+        result
+    }
+
     fn iter_get(&self) -> Option<&FcbBuffer> {
         if self.state == State::Finished {
             None
-- 
2.43.0


From e1501be3ab3f68d15c8c60da83fe5fc92f7f0cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:30 +0000
Subject: [PATCH 23/63] fix: report HTTP responses which are shorter than
 requested

---
 src/rust/fcb_core/src/http_range.rs         | 28 ++++++++++++
 src/rust/fcb_core/src/http_reader/mod.rs    | 48 ++++++++++++---------
 src/rust/fcb_core/src/lib.rs                |  2 +
 src/rust/fcb_core/src/packed_rtree/mod.rs   | 20 ++++-----
 src/rust/fcb_core/src/static_btree/stree.rs | 39 +++++++++--------
 5 files changed, 89 insertions(+), 48 deletions(-)
 create mode 100644 src/rust/fcb_core/src/http_range.rs

diff --git a/src/rust/fcb_core/src/http_range.rs b/src/rust/fcb_core/src/http_range.rs
new file mode 100644
index 0000000..e05fbbb
--- /dev/null
+++ b/src/rust/fcb_core/src/http_range.rs
@@ -0,0 +1,28 @@
+use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError};
+
+/// Get exactly `length` bytes with offset `begin`.
+///
+/// `AsyncBufferedHttpRangeClient::get_range` returns fewer bytes when the response is shorter
+/// than the request, which is an error for data that has to be there.
+pub(crate) async fn get_range_exact<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    begin: usize,
+    length: usize,
+) -> Result<&[u8], HttpError> {
+    if begin
+        .checked_add(length)
+        .map_or(true, |end| end > isize::MAX as usize)
+    {
+        return Err(HttpError::HttpError(format!(
+            "invalid range: {length} bytes at {begin}"
+        )));
+    }
+    let bytes = client.get_range(begin, length).await?;
+    if bytes.len() < length {
+        return Err(HttpError::HttpError(format!(
+            "unexpected end of data: got {} of {length} bytes at {begin}",
+            bytes.len()
+        )));
+    }
+    Ok(bytes)
+}
diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index fcd64b0..49d3446 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -8,6 +8,7 @@ use crate::deserializer::to_cj_feature;
 use crate::{add_indices_to_multi_memory_index, build_query, fb::*, AttrQuery};
 
 use crate::error::{Error, Result};
+use crate::http_range::get_range_exact;
 use crate::packed_rtree::Query;
 use crate::reader::city_buffer::FcbBuffer;
 use crate::static_btree::{FixedStringKey, Float, KeyType, Operator};
@@ -99,13 +100,15 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         client.set_min_req_size(min_req_size);
         debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
         let mut read_bytes = 0;
-        let bytes = client.get_range(read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
+        let bytes = get_range_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE).await?; // to get magic bytes
         if !check_magic_bytes(bytes) {
             return Err(Error::MissingMagicBytes);
         }
 
         read_bytes += MAGIC_BYTES_SIZE;
-        let mut bytes = BytesMut::from(client.get_range(read_bytes, HEADER_SIZE_SIZE).await?);
+        let mut bytes = BytesMut::from(
+            get_range_exact(&mut client, read_bytes, HEADER_SIZE_SIZE).await?,
+        );
         read_bytes += HEADER_SIZE_SIZE;
 
         let header_size = LittleEndian::read_u32(&bytes) as usize;
@@ -114,7 +117,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        bytes.put(client.get_range(read_bytes, header_size).await?);
+        bytes.put(get_range_exact(&mut client, read_bytes, header_size).await?);
         read_bytes += header_size;
 
         let header_buf = bytes.to_vec();
@@ -500,6 +503,17 @@ impl<T: AsyncHttpRangeClient + Send + Sync> AsyncFeatureIter<T> {
     }
 }
 
+/// Read the size-prefixed feature at `pos`
+async fn read_feature_buffer<T: AsyncHttpRangeClient>(
+    client: &mut AsyncBufferedHttpRangeClient<T>,
+    pos: usize,
+) -> Result<Bytes> {
+    let mut feature_buffer = BytesMut::from(get_range_exact(client, pos, 4).await?);
+    let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
+    feature_buffer.put(get_range_exact(client, pos + 4, feature_size).await?);
+    Ok(feature_buffer.freeze())
+}
+
 enum FeatureSelection {
     SelectAll(SelectAll),
     SelectBbox(SelectBbox),
@@ -537,15 +551,12 @@ impl SelectAll {
         if self.features_left == 0 {
             return Ok(None);
         }
-        self.features_left -= 1;
 
-        let mut feature_buffer = BytesMut::from(client.get_range(self.pos, 4).await?);
-        self.pos += 4;
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(self.pos, feature_size).await?);
-        self.pos += feature_size;
+        let feature_buffer = read_feature_buffer(client, self.pos).await?;
+        self.features_left -= 1;
+        self.pos += feature_buffer.len();
 
-        Ok(Some(feature_buffer.freeze()))
+        Ok(Some(feature_buffer))
     }
 }
 
@@ -665,17 +676,14 @@ impl FeatureBatch {
     ) -> Result<Option<Bytes>> {
         let request_size = self.request_size();
         client.set_min_req_size(request_size);
-        let Some(feature_range) = self.feature_ranges.pop_front() else {
+        let Some(feature_range) = self.feature_ranges.front() else {
             return Ok(None);
         };
 
-        let mut pos = feature_range.start();
-        let mut feature_buffer = BytesMut::from(client.get_range(pos, 4).await?);
-        pos += 4;
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(pos, feature_size).await?);
+        let feature_buffer = read_feature_buffer(client, feature_range.start()).await?;
+        self.feature_ranges.pop_front();
 
-        Ok(Some(feature_buffer.freeze()))
+        Ok(Some(feature_buffer))
     }
 }
 
@@ -693,11 +701,9 @@ impl SelectAttr {
         let Some(range) = self.ranges.get(self.range_pos) else {
             return Ok(None);
         };
-        let mut feature_buffer = BytesMut::from(client.get_range(range.start(), 4).await?);
-        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-        feature_buffer.put(client.get_range(range.start() + 4, feature_size).await?);
+        let feature_buffer = read_feature_buffer(client, range.start()).await?;
         self.range_pos += 1;
-        Ok(Some(feature_buffer.freeze()))
+        Ok(Some(feature_buffer))
     }
 }
 
diff --git a/src/rust/fcb_core/src/lib.rs b/src/rust/fcb_core/src/lib.rs
index 650dc0b..eda1c13 100644
--- a/src/rust/fcb_core/src/lib.rs
+++ b/src/rust/fcb_core/src/lib.rs
@@ -32,6 +32,8 @@ pub mod fb;
 #[allow(dead_code, unused_imports, clippy::all, warnings)]
 #[cfg(all(feature = "http", not(target_arch = "wasm32")))]
 mod http_reader;
+#[cfg(feature = "http")]
+mod http_range;
 
 pub mod packed_rtree;
 mod reader;
diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index afdbf5c..61ce9f1 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -15,6 +15,8 @@ use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
 use core::f64;
 pub use error::Error;
 #[cfg(feature = "http")]
+use crate::http_range::get_range_exact;
+#[cfg(feature = "http")]
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use std::cmp::min;
 use std::collections::VecDeque;
@@ -212,14 +214,10 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
 ) -> Result<Vec<NodeItem>, Error> {
     let begin = base + node_ids.start * size_of::<NodeItem>();
     let length = node_ids.len() * size_of::<NodeItem>();
-    let bytes = client
-        // we've  already determined precisely which nodes to fetch - no need for extra.
-        .min_req_size(0)
-        .get_range(begin, length)
-        .await?;
+    // we've  already determined precisely which nodes to fetch - no need for extra.
+    let bytes = get_range_exact(client.min_req_size(0), begin, length).await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(size_of::<NodeItem>()) {
         node_items.push(NodeItem::from_bytes(node_item_bytes)?);
     }
@@ -425,10 +423,12 @@ impl PackedRTree {
         let min_req_size = self.size(); // read full index at once
         let mut pos = index_begin;
         for i in 0..self.num_nodes() {
-            let bytes = client
-                .min_req_size(min_req_size)
-                .get_range(pos, size_of::<NodeItem>())
-                .await?;
+            let bytes = get_range_exact(
+                client.min_req_size(min_req_size),
+                pos,
+                size_of::<NodeItem>(),
+            )
+            .await?;
             let n = NodeItem::from_bytes(bytes)?;
             self.extent.expand(&n);
             self.node_items[i] = n;
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index ad05765..49ec905 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -4,6 +4,8 @@ use crate::static_btree::key::Key;
 use crate::static_btree::payload::PayloadEntry;
 use byteorder::{LittleEndian, ReadBytesExt};
 #[cfg(feature = "http")]
+use crate::http_range::get_range_exact;
+#[cfg(feature = "http")]
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use log::{debug, info};
 use std::cmp::{max, min};
@@ -96,14 +98,10 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
 
     let begin = base + node_ids.start * NodeItem::<K>::SERIALIZED_SIZE;
     let length = node_ids.len() * NodeItem::<K>::SERIALIZED_SIZE;
-    let bytes = client
-        // we've  already determined precisely which nodes to fetch - no need for extra.
-        .min_req_size(1024 * 1024)
-        .get_range(begin, length)
-        .await?;
+    // we've  already determined precisely which nodes to fetch - no need for extra.
+    let bytes = get_range_exact(client.min_req_size(1024 * 1024), begin, length).await?;
 
     let mut node_items = Vec::with_capacity(node_ids.len());
-    debug_assert_eq!(bytes.len(), length);
     for node_item_bytes in bytes.chunks(NodeItem::<K>::SERIALIZED_SIZE) {
         let node_item = NodeItem::from_reader(&mut Cursor::new(node_item_bytes))?;
         node_items.push(node_item);
@@ -119,15 +117,20 @@ async fn read_http_payload_data<T: AsyncHttpRangeClient>(
     debug!("sending request to fetch payload, offset {offset:?}");
 
     // The size of the entry is only known once its count has been read
-    let count_bytes = client
-        .min_req_size(DEFAULT_MIN_REQ_SIZE)
-        .get_range(offset, size_of::<u32>())
-        .await?;
+    let count_bytes = get_range_exact(
+        client.min_req_size(DEFAULT_MIN_REQ_SIZE),
+        offset,
+        size_of::<u32>(),
+    )
+    .await?;
     let count = Cursor::new(count_bytes).read_u32::<LittleEndian>()? as usize;
 
-    let payload_data = client
-        .get_range(offset, size_of::<u32>() + count * size_of::<Offset>())
-        .await?;
+    let payload_data = get_range_exact(
+        client,
+        offset,
+        size_of::<u32>() + count * size_of::<Offset>(),
+    )
+    .await?;
     let mut buf = Cursor::new(payload_data);
 
     let (payload_entry, _) = PayloadEntry::deserialize(&mut buf)?;
@@ -568,10 +571,12 @@ impl<K: Key> Stree<K> {
         ); //read full index at once
         let mut pos = index_begin;
         for i in 0..self.num_nodes() {
-            let bytes = client
-                .min_req_size(min_req_size)
-                .get_range(pos, size_of::<NodeItem<K>>())
-                .await?;
+            let bytes = get_range_exact(
+                client.min_req_size(min_req_size),
+                pos,
+                NodeItem::<K>::SERIALIZED_SIZE,
+            )
+            .await?;
             let n = NodeItem::from_bytes(bytes)?;
             self.node_items[i] = n;
             pos += NodeItem::<K>::SERIALIZED_SIZE;
-- 
2.43.0


From 687632fbde33b1c56eca00c760421429e89b899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:43 +0000
Subject: [PATCH 24/63] fix: do not expect the last node read over HTTP at a
 fixed position

---
 src/rust/fcb_core/src/packed_rtree/mod.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 61ce9f1..94dade9 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -980,7 +980,6 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1089,7 +1088,6 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 });
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
                                 results.push(HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 });
@@ -1228,7 +1226,6 @@ impl PackedRTree {
                                     range: HttpRange::Range(start..end),
                                 }
                             } else {
-                                debug_assert_eq!(node_pos, num_items - 1);
                                 HttpSearchResultItem {
                                     range: HttpRange::RangeFrom(start..),
                                 }
-- 
2.43.0


From 9c7308b582d6645acb9058e7c385820642b612b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:26 +0000
Subject: [PATCH 25/63] fix: flush the output before reporting a successful
 write

---
 src/rust/fcb_core/src/writer/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index a8c224d..723a59c 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -272,6 +272,8 @@ impl<'a> FcbWriter<'a> {
         out.write_all(&rtree_buf)?;
         out.write_all(&attr_index_buf)?;
         out.write_all(&sorted_feature_buf)?;
+        // a buffered output is dropped here and would not report what it fails to write
+        out.flush()?;
 
         Ok(())
     }
-- 
2.43.0


From e84d74ea95503e8997e4eb70312bdeb89c42e7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:31 +0000
Subject: [PATCH 26/63] fix: keep messages off the standard output

---
 src/rust/cli/src/main.rs                   | 2 --
 src/rust/fcb_core/src/http_reader/mod.rs   | 1 -
 src/rust/fcb_core/src/reader/attr_query.rs | 2 +-
 src/rust/fcb_core/src/writer/serializer.rs | 2 +-
 4 files changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index a8e25e7..4c3115b 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -253,8 +253,6 @@ fn serialize(
         geographical_extent: geo_extent,
     };
 
-    println!("header_options in cli: {:?}", header_options);
-
     let mut fcb = FcbWriter::new(cj, Some(header_options), attr_schema, semantic_attr_schema)?;
 
     for feature in filtered_features.iter() {
diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 49d3446..0f59ae4 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -455,7 +455,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
                 }
 
                 _ => {
-                    println!("Unsupported column type: {:?}", col.type_());
                     return Err(Error::UnsupportedColumnType(col.name().to_string()));
                 }
             }
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 41ed2f1..7533b7b 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -141,7 +141,7 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
                 _ => return Err(Error::UnsupportedColumnType(col.name().to_string())),
             }
         } else {
-            println!("  - Skipping index for field: {}", col.name());
+            eprintln!("  - Skipping index for field: {}", col.name());
         }
     }
     Ok(())
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 5d64096..028c9d7 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -274,7 +274,7 @@ pub(super) fn to_reference_system<'a>(
     let authority = Some(fbb.create_string(&ref_system.authority));
 
     let version = ref_system.version.parse::<i32>().unwrap_or_else(|e| {
-        println!("failed to parse version: {}", e);
+        eprintln!("failed to parse version: {}", e);
         0
     });
     // a code which is not an integer (or not in canonical form) goes to code_string
-- 
2.43.0


From ab91945413ce012ed1cda07490657925184fa91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:33 +0000
Subject: [PATCH 27/63] fix: report a failure to decode or to write in the
 command-line tool

---
 src/rust/cli/src/main.rs | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 4c3115b..f49e82c 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -387,17 +387,11 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
     writeln!(writer, "{}", serde_json::to_string(&cj)?)?;
 
     // Write features
-    let feat_count = header.features_count();
-    let mut feat_num = 0;
-    while let Ok(Some(feat_buf)) = fcb_reader.next() {
+    while let Some(feat_buf) = fcb_reader.next()? {
         let feature = feat_buf.cur_cj_feature()?;
         writeln!(writer, "{}", serde_json::to_string(&feature)?)?;
-
-        feat_num += 1;
-        if feat_num >= feat_count {
-            break;
-        }
     }
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("Successfully decoded to CityJSON");
@@ -407,15 +401,16 @@ fn deserialize(input: &str, output: &str) -> Result<(), Error> {
 
 fn encode_cbor(input: &str, output: &str) -> Result<(), Error> {
     let reader = BufReader::new(get_reader(input)?);
-    let writer = BufWriter::new(get_writer(output)?);
+    let mut writer = BufWriter::new(get_writer(output)?);
 
     let value: serde_json::Value = serde_json::from_reader(reader)?;
-    serde_cbor::to_writer(writer, &value).map_err(|e| {
+    serde_cbor::to_writer(&mut writer, &value).map_err(|e| {
         Error::IoError(std::io::Error::new(
             std::io::ErrorKind::Other,
             format!("failed to encode to cbor: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to cbor");
-- 
2.43.0


From 85bc6a88a6e01f3ea515e7a40c37b24eb2b313b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:18 +0000
Subject: [PATCH 28/63] fix: do not replace attribute values their column
 cannot hold

---
 src/rust/fcb_core/src/writer/attribute.rs  | 29 +++++++++++++++++++++-
 src/rust/fcb_core/src/writer/serializer.rs | 11 +++++---
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 4d336b4..3ee4a05 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -59,6 +59,33 @@ fn guess_type(value: &Value) -> Option<ColumnType> {
     }
 }
 
+/// Whether a column of the type can hold the value. Null is not stored at all.
+pub(crate) fn can_hold(coltype: &ColumnType, val: &Value) -> bool {
+    if val.is_null() {
+        return true;
+    }
+    match *coltype {
+        ColumnType::Bool => val.is_boolean(),
+        ColumnType::Byte => as_int::<i8>(val).is_some(),
+        ColumnType::UByte => as_uint::<u8>(val).is_some(),
+        ColumnType::Short => as_int::<i16>(val).is_some(),
+        ColumnType::UShort => as_uint::<u16>(val).is_some(),
+        ColumnType::Int => as_int::<i32>(val).is_some(),
+        ColumnType::UInt => as_uint::<u32>(val).is_some(),
+        ColumnType::Long => val.is_i64(),
+        ColumnType::ULong => val.is_u64(),
+        ColumnType::Float => val.is_number(),
+        // not every integer has an exact floating-point counterpart
+        ColumnType::Double => match val.as_i64() {
+            Some(i) => i.unsigned_abs() <= 1 << f64::MANTISSA_DIGITS,
+            None => val.is_f64(),
+        },
+        ColumnType::String | ColumnType::DateTime | ColumnType::Binary => val.is_string(),
+        ColumnType::Json => true,
+        _ => false,
+    }
+}
+
 pub(crate) fn attr_size(coltype: &ColumnType, colval: &Value) -> usize {
     match *coltype {
         ColumnType::Byte => size_of::<i8>(),
@@ -108,7 +135,7 @@ pub(crate) fn encode_attributes_with_schema(attr: &Value, schema: &AttributeSche
             }
         };
 
-        if val.is_null() {
+        if val.is_null() || !can_hold(coltype, val) {
             continue;
         }
 
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 028c9d7..128d5ca 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -1,4 +1,6 @@
-use crate::attribute::{encode_attributes_with_schema, AttributeSchema, AttributeSchemaMethods};
+use crate::attribute::{
+    can_hold, encode_attributes_with_schema, AttributeSchema, AttributeSchemaMethods,
+};
 use crate::fb::{
     Appearance, AppearanceArgs, CityFeature, CityFeatureArgs, CityObject, CityObjectArgs,
     CityObjectType, Geometry, GeometryArgs, GeometryType, Material, MaterialArgs, SemanticObject,
@@ -1041,9 +1043,10 @@ pub(super) fn to_fcb_attribute<'a>(
     Option<AttributeSchema>,
 ) {
     let mut is_own_schema = false;
-    for (key, _) in attr.as_object().unwrap().iter() {
-        if !schema.contains_key(key) {
-            is_own_schema = true;
+    for (key, val) in attr.as_object().unwrap().iter() {
+        match schema.get(key) {
+            Some((_, coltype)) if can_hold(coltype, val) => {}
+            _ => is_own_schema = true,
         }
     }
     if is_own_schema {
-- 
2.43.0


From e410e25decf1cc02517a4030fa6ad13e28c090ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:22 +0000
Subject: [PATCH 29/63] fix: infer a column type which holds all the values
 seen

---
 src/rust/fcb_core/src/writer/attribute.rs | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 3ee4a05..12c082d 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -21,10 +21,15 @@ impl AttributeSchemaMethods for AttributeSchema {
 
         let map = attrs.as_object().unwrap();
         for (key, val) in map.iter() {
-            if !self.contains_key(key) && !val.is_null() {
-                if let Some(coltype) = guess_type(val) {
-                    self.insert(key.clone(), (self.len() as u16, coltype));
+            if val.is_null() {
+                continue;
+            }
+            if let Some((_, coltype)) = self.get_mut(key) {
+                if !can_hold(coltype, val) {
+                    *coltype = widen_type(*coltype, val);
                 }
+            } else if let Some(coltype) = guess_type(val) {
+                self.insert(key.clone(), (self.len() as u16, coltype));
             }
         }
     }
@@ -59,6 +64,15 @@ fn guess_type(value: &Value) -> Option<ColumnType> {
     }
 }
 
+/// The type for a column which has to hold the value besides values of the given type.
+fn widen_type(coltype: ColumnType, value: &Value) -> ColumnType {
+    match coltype {
+        ColumnType::ULong if value.is_i64() => ColumnType::Long,
+        ColumnType::ULong | ColumnType::Long if value.is_f64() => ColumnType::Double,
+        _ => ColumnType::Json,
+    }
+}
+
 /// Whether a column of the type can hold the value. Null is not stored at all.
 pub(crate) fn can_hold(coltype: &ColumnType, val: &Value) -> bool {
     if val.is_null() {
-- 
2.43.0


From f3603863b820b317c5c749d3629467a4dfaa6710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:14 +0000
Subject: [PATCH 30/63] fix: leave out attributes which cannot be indexed when
 indexing all of them

---
 src/rust/cli/src/main.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index f49e82c..ab156c5 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -4,6 +4,7 @@ use fcb_core::error::Error;
 use fcb_core::{
     attribute::{AttributeSchema, AttributeSchemaMethods},
     deserializer,
+    fb::header_generated::ColumnType,
     header_writer::HeaderWriterOptions,
     read_cityjson_from_reader, CJType, CJTypeKind, CityJSONSeq, FcbReader, FcbWriter,
 };
@@ -217,6 +218,10 @@ fn serialize(
                     .clone()
                     .unwrap()
                     .iter()
+                    // there is no index for these types
+                    .filter(|(_, (_, coltype))| {
+                        !matches!(*coltype, ColumnType::Json | ColumnType::Binary)
+                    })
                     .map(|attr| {
                         (
                             attr.0.to_string(),
-- 
2.43.0


From d0f7763460ed62ab6587af07d87773bd2959f792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:24 +0000
Subject: [PATCH 31/63] fix: report a failure to write a boolean or string key

---
 src/rust/fcb_core/src/static_btree/key.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 9b1c20a..42d3a71 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -375,7 +375,7 @@ impl Key for bool {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&[*self as u8]).map_err(Error::from);
+        writer.write_all(&[*self as u8])?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
@@ -448,7 +448,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn write_to<W: Write>(&self, writer: &mut W) -> Result<usize> {
-        writer.write_all(&self.0).map_err(Error::from);
+        writer.write_all(&self.0)?;
         Ok(Self::SERIALIZED_SIZE)
     }
 
-- 
2.43.0


From 67aff859db784be7e79b7b8b2829c7be7afce2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:04 +0000
Subject: [PATCH 32/63] fix: do not place features without vertices at the
 origin

---
 src/rust/fcb_core/src/packed_rtree/mod.rs  | 12 +++++++++
 src/rust/fcb_core/src/writer/serializer.rs | 31 ++++------------------
 2 files changed, 17 insertions(+), 26 deletions(-)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 94dade9..4920a88 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -154,8 +154,17 @@ impl NodeItem {
         x >= self.min_x && x <= self.max_x && y >= self.min_y && y <= self.max_y
     }
 
+    /// Whether there is no point in this NodeItem's bounding box
+    fn is_empty(&self) -> bool {
+        !(self.min_x <= self.max_x && self.min_y <= self.max_y)
+    }
+
     /// Calculate the squared Euclidean distance from a point to the centroid of this NodeItem
     pub fn centroid_distance_squared(&self, x: f64, y: f64) -> f64 {
+        if self.is_empty() {
+            return f64::INFINITY;
+        }
+
         let centroid_x = (self.min_x + self.max_x) / 2.0;
         let centroid_y = (self.min_y + self.max_y) / 2.0;
         let dx = x - centroid_x;
@@ -169,6 +178,9 @@ impl NodeItem {
         if self.contains_point(x, y) {
             return 0.0;
         }
+        if self.is_empty() {
+            return f64::INFINITY;
+        }
 
         // Calculate closest point on the bbox
         let closest_x = x.clamp(self.min_x, self.max_x);
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 128d5ca..8a5b3a8 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -447,32 +447,11 @@ pub(super) fn to_fcb_city_feature<'a>(
         .appearance
         .as_ref()
         .map(|app| to_appearance(fbb, app));
-    let min_x = city_feature
-        .vertices
-        .iter()
-        .map(|v| v[0])
-        .min()
-        .unwrap_or(0) as f64;
-    let min_y = city_feature
-        .vertices
-        .iter()
-        .map(|v| v[1])
-        .min()
-        .unwrap_or(0) as f64;
-    let max_x = city_feature
-        .vertices
-        .iter()
-        .map(|v| v[0])
-        .max()
-        .unwrap_or(0) as f64;
-    let max_y = city_feature
-        .vertices
-        .iter()
-        .map(|v| v[1])
-        .max()
-        .unwrap_or(0) as f64;
-
-    let bbox = NodeItem::new(min_x, min_y, max_x, max_y);
+    // stays empty for a feature without vertices, which is not anywhere
+    let mut bbox = NodeItem::create(0);
+    for v in &city_feature.vertices {
+        bbox.expand_xy(v[0] as f64, v[1] as f64);
+    }
     (
         CityFeature::create(
             fbb,
-- 
2.43.0


From 83a1badcfc5807f44f0fa6802765143e49d0204e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:08 +0000
Subject: [PATCH 33/63] fix: index the extent of features under a negative
 scale

---
 src/rust/fcb_core/src/writer/mod.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 723a59c..70d67af 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -131,11 +131,21 @@ impl<'a> FcbWriter<'a> {
         let scale_y = transform.scale[1];
         let translate_x = transform.translate[0];
         let translate_y = transform.translate[1];
+        // a negative scale swaps the minimum and the maximum
+        let ordered = |min: f64, max: f64, scale: f64| {
+            if scale < 0.0 {
+                (max, min)
+            } else {
+                (min, max)
+            }
+        };
+        let (min_x, max_x) = ordered(bbox.min_x, bbox.max_x, scale_x);
+        let (min_y, max_y) = ordered(bbox.min_y, bbox.max_y, scale_y);
         NodeItem::new(
-            bbox.min_x * scale_x + translate_x,
-            bbox.min_y * scale_y + translate_y,
-            bbox.max_x * scale_x + translate_x,
-            bbox.max_y * scale_y + translate_y,
+            min_x * scale_x + translate_x,
+            min_y * scale_y + translate_y,
+            max_x * scale_x + translate_x,
+            max_y * scale_y + translate_y,
         )
     }
 
-- 
2.43.0


From 925a22d6b024d6582bf41401922b7ac4d9bc40e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:50 +0000
Subject: [PATCH 34/63] fix: describe Byte and UByte columns in the dataset
 summary

---
 src/rust/fcb_core/src/reader/deserializer.rs | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 32d93df..16edb89 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -120,10 +120,12 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
         c.iter()
             .map(|c| {
                 let i = c.index();
-                MetaColumn {
+                Ok(MetaColumn {
                     index: i,
                     name: c.name().to_string(),
                     _type: match c.type_() {
+                        ColumnType::Byte => MetaColumnType::Byte,
+                        ColumnType::UByte => MetaColumnType::UByte,
                         ColumnType::Int => MetaColumnType::Int,
                         ColumnType::UInt => MetaColumnType::UInt,
                         ColumnType::Bool => MetaColumnType::Bool,
@@ -137,7 +139,9 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                         ColumnType::UShort => MetaColumnType::UShort,
                         ColumnType::Long => MetaColumnType::Long,
                         ColumnType::ULong => MetaColumnType::ULong,
-                        _ => unreachable!(),
+                        t => {
+                            return Err(Error::UnsupportedColumnType(t.0.to_string()))
+                        }
                     },
                     title: c.title().map(|t| t.to_string()),
                     description: c.description().map(|d| d.to_string()),
@@ -153,15 +157,15 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                             .map(|attr_indices| attr_indices.iter().any(|i| i.index() == c.index()))
                             .unwrap_or(false),
                     ),
-                }
+                })
             })
-            .collect::<Vec<_>>()
+            .collect::<Result<Vec<_>, Error>>()
     });
     if columns.is_none() {
         return Err(Error::MissingRequiredField("columns".to_string()));
     }
     Ok(Meta {
-        columns: columns.unwrap(),
+        columns: columns.unwrap()?,
         feature_count: header.features_count(),
     })
 }
-- 
2.43.0


From 1e7067f6c604428474763917990d6be13297861d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:17 +0000
Subject: [PATCH 35/63] fix: let the declared minimum and maximum date keys
 bound every date

---
 src/rust/fcb_core/src/static_btree/key.rs | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 42d3a71..47d30f7 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -1,6 +1,6 @@
 use crate::static_btree::error::{Error, Result};
 use byteorder::{LittleEndian, ReadBytesExt, WriteBytesExt};
-use chrono::{DateTime, TimeZone, Utc};
+use chrono::{DateTime, Utc};
 use ordered_float::OrderedFloat; // Import OrderedFloat
 use std::fmt::Debug;
 use std::io::{Read, Write};
@@ -158,10 +158,7 @@ impl Max for bool {
 // Implement Max for DateTime<Utc>
 impl Max for DateTime<Utc> {
     fn max_value() -> Self {
-        // A date far in the future (year 9999)
-        Utc.timestamp_opt(253402300799, 999_999_999)
-            .single()
-            .unwrap()
+        DateTime::<Utc>::MAX_UTC
     }
 }
 
@@ -241,7 +238,7 @@ impl Min for bool {
 
 impl Min for DateTime<Utc> {
     fn min_value() -> Self {
-        Utc.timestamp_opt(0, 0).single().unwrap()
+        DateTime::<Utc>::MIN_UTC
     }
 }
 
-- 
2.43.0


From a6e766de95168cd556841def33e2d857f5dd9c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:42 +0000
Subject: [PATCH 36/63] fix: report malformed stored keys as errors instead of
 panicking

---
 src/rust/fcb_core/src/static_btree/entry.rs |  4 +-
 src/rust/fcb_core/src/static_btree/key.rs   | 56 +++++++++++----------
 2 files changed, 32 insertions(+), 28 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/entry.rs b/src/rust/fcb_core/src/static_btree/entry.rs
index 3385ffe..c158e3e 100644
--- a/src/rust/fcb_core/src/static_btree/entry.rs
+++ b/src/rust/fcb_core/src/static_btree/entry.rs
@@ -60,8 +60,8 @@ impl<K: Key> Entry<K> {
     }
 
     pub fn from_bytes(raw: &[u8]) -> Result<Self> {
-        let key = K::from_bytes(&raw[0..K::SERIALIZED_SIZE])?;
-        let offset = Offset::from_bytes(&raw[K::SERIALIZED_SIZE..])?;
+        let key = K::from_bytes(raw)?;
+        let offset = Offset::from_bytes(raw.get(K::SERIALIZED_SIZE..).unwrap_or_default())?;
         Ok(Entry { key, offset })
     }
 
diff --git a/src/rust/fcb_core/src/static_btree/key.rs b/src/rust/fcb_core/src/static_btree/key.rs
index 47d30f7..1f1da15 100644
--- a/src/rust/fcb_core/src/static_btree/key.rs
+++ b/src/rust/fcb_core/src/static_btree/key.rs
@@ -248,6 +248,22 @@ impl<const N: usize> Min for FixedStringKey<N> {
     }
 }
 
+/// The first `N` bytes of a serialized key, an error if there are fewer.
+fn first_bytes<const N: usize>(bytes: &[u8]) -> Result<[u8; N]> {
+    bytes
+        .get(..N)
+        .and_then(|b| b.try_into().ok())
+        .ok_or_else(|| {
+            Error::KeyDeserializationError(format!("a key takes {N} bytes, got {}", bytes.len()))
+        })
+}
+
+fn datetime_from_parts(secs: i64, nanos: u32) -> Result<DateTime<Utc>> {
+    DateTime::from_timestamp(secs, nanos).ok_or_else(|| {
+        Error::KeyDeserializationError(format!("invalid date time: {secs} s {nanos} ns"))
+    })
+}
+
 // Macro to implement Key for primitive integer types easily
 macro_rules! impl_key_for_int {
     ($T:ty, $write_method:ident) => {
@@ -269,9 +285,7 @@ macro_rules! impl_key_for_int {
 
             #[inline]
             fn from_bytes(bytes: &[u8]) -> Result<Self> {
-                let mut array = [0u8; Self::SERIALIZED_SIZE];
-                array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
-                Ok(<$T>::from_le_bytes(array))
+                Ok(<$T>::from_le_bytes(first_bytes(bytes)?))
             }
         }
     };
@@ -298,9 +312,7 @@ macro_rules! impl_key_for_byte {
 
             #[inline]
             fn from_bytes(bytes: &[u8]) -> Result<Self> {
-                let mut array = [0u8; Self::SERIALIZED_SIZE];
-                array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
-                Ok(<$T>::from_le_bytes(array))
+                Ok(<$T>::from_le_bytes(first_bytes(bytes)?))
             }
         }
     };
@@ -335,9 +347,9 @@ impl Key for OrderedFloat<f32> {
 
     #[inline]
     fn from_bytes(bytes: &[u8]) -> Result<Self> {
-        let mut array = [0u8; Self::SERIALIZED_SIZE];
-        array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
-        Ok(OrderedFloat::from(f32::from_le_bytes(array)))
+        Ok(OrderedFloat::from(f32::from_le_bytes(first_bytes(
+            bytes,
+        )?)))
     }
 }
 
@@ -360,9 +372,9 @@ impl Key for OrderedFloat<f64> {
 
     #[inline]
     fn from_bytes(bytes: &[u8]) -> Result<Self> {
-        let mut array = [0u8; Self::SERIALIZED_SIZE];
-        array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
-        Ok(OrderedFloat::from(f64::from_le_bytes(array)))
+        Ok(OrderedFloat::from(f64::from_le_bytes(first_bytes(
+            bytes,
+        )?)))
     }
 }
 
@@ -385,7 +397,8 @@ impl Key for bool {
 
     #[inline]
     fn from_bytes(bytes: &[u8]) -> Result<Self> {
-        Ok(bytes[0] != 0)
+        let [byte] = first_bytes(bytes)?;
+        Ok(byte != 0)
     }
 }
 
@@ -406,22 +419,15 @@ impl Key for DateTime<Utc> {
     fn read_from<R: Read>(reader: &mut R) -> Result<Self> {
         let secs = reader.read_i64::<LittleEndian>()?;
         let nanos = reader.read_u32::<LittleEndian>()?;
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
-        let dt = DateTime::<Utc>::from_utc(ndt, Utc);
-        Ok(dt)
+        datetime_from_parts(secs, nanos)
     }
 
     #[inline]
     fn from_bytes(bytes: &[u8]) -> Result<Self> {
-        let mut array = [0u8; Self::SERIALIZED_SIZE];
-        array.copy_from_slice(&bytes[0..Self::SERIALIZED_SIZE]);
+        let array: [u8; Self::SERIALIZED_SIZE] = first_bytes(bytes)?;
         let secs = i64::from_le_bytes(array[0..8].try_into().unwrap());
         let nanos = u32::from_le_bytes(array[8..12].try_into().unwrap());
-        let ndt =
-            chrono::NaiveDateTime::from_timestamp_opt(secs, nanos).expect("invalid datetime value");
-        let dt = DateTime::<Utc>::from_utc(ndt, Utc);
-        Ok(dt)
+        datetime_from_parts(secs, nanos)
     }
 }
 
@@ -458,9 +464,7 @@ impl<const N: usize> Key for FixedStringKey<N> {
 
     #[inline]
     fn from_bytes(bytes: &[u8]) -> Result<Self> {
-        let mut array = [0u8; N];
-        array.copy_from_slice(&bytes[0..N]);
-        Ok(FixedStringKey(array))
+        Ok(FixedStringKey(first_bytes(bytes)?))
     }
 }
 
-- 
2.43.0


From 45374632854584597094df1135b901f370ca8ee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:22 +0000
Subject: [PATCH 37/63] fix: do not prefetch index payload past the end of a
 small remote file

---
 src/rust/fcb_core/src/static_btree/stree.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 49ec905..8144127 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1439,6 +1439,9 @@ impl<K: Key> Stree<K> {
             .iter()
             .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
         {
+            // the payload section ends before the features, there may be nothing behind them
+            let prefetch_size =
+                min(prefetch_size, feature_begin.saturating_sub(payload_data_start));
             payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
         }
 
@@ -1749,6 +1752,9 @@ impl<K: Key> Stree<K> {
             .iter()
             .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
         {
+            // the payload section ends before the features, there may be nothing behind them
+            let prefetch_size =
+                min(prefetch_size, feature_begin.saturating_sub(payload_data_start));
             payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
         }
 
@@ -1829,6 +1835,9 @@ impl<K: Key> Stree<K> {
             .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
         {
             let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, Some(1.5));
+            // the payload section ends before the features, there may be nothing behind them
+            let prefetch_size =
+                min(prefetch_size, feature_begin.saturating_sub(payload_data_start));
             payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
         }
 
-- 
2.43.0


From bbdb42f1e62c1b56394e15c4e643ed795b2404e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:10 +0000
Subject: [PATCH 38/63] fix: require an index for every condition of an
 attribute query before searching

---
 src/rust/fcb_core/src/static_btree/query/memory.rs | 11 +++++++++++
 src/rust/fcb_core/src/static_btree/query/stream.rs | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/src/rust/fcb_core/src/static_btree/query/memory.rs b/src/rust/fcb_core/src/static_btree/query/memory.rs
index e65bbc8..6fa21a3 100644
--- a/src/rust/fcb_core/src/static_btree/query/memory.rs
+++ b/src/rust/fcb_core/src/static_btree/query/memory.rs
@@ -267,6 +267,17 @@ impl MultiIndex for MemoryMultiIndex {
             return Err(Error::QueryError("query cannot be empty".to_string()));
         }
 
+        // every condition needs an index, whether or not an earlier one already decides the result
+        if let Some(cond) = conditions
+            .iter()
+            .find(|c| !self.indices.contains_key(&c.field))
+        {
+            return Err(Error::QueryError(format!(
+                "no index found for field '{}'",
+                cond.field
+            )));
+        }
+
         // Process the first condition to initialize the result set
         let first_condition = &conditions[0];
         let index = self.indices.get(&first_condition.field).ok_or_else(|| {
diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 33b2243..0fae877 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -400,6 +400,16 @@ impl StreamMultiIndex {
         if conditions.is_empty() {
             return Err(Error::QueryError("query cannot be empty".to_string()));
         }
+        // every condition needs an index, whether or not an earlier one already decides the result
+        if let Some(cond) = conditions
+            .iter()
+            .find(|c| !self.indices.contains_key(&c.field))
+        {
+            return Err(Error::QueryError(format!(
+                "no index found for field '{}'",
+                cond.field
+            )));
+        }
         let first = &conditions[0];
         let indexer = self.indices.get(&first.field).ok_or_else(|| {
             Error::QueryError(format!("no index found for field '{}'", first.field))
-- 
2.43.0


From 19f98414893be871e5fbe63dc16d2ea4524ecbe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:48 +0000
Subject: [PATCH 39/63] fix: write members of unordered maps in a fixed order,
 so that output is reproducible

---
 src/rust/cli/src/main.rs                     | 13 ++++++++++---
 src/rust/fcb_core/src/writer/geom_encoder.rs |  8 +++++++-
 src/rust/fcb_core/src/writer/serializer.rs   | 13 +++++++++----
 3 files changed, 26 insertions(+), 8 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index ab156c5..be68a3c 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -1,4 +1,4 @@
-use cjseq::{CityJSON, CityJSONFeature, Transform as CjTransform};
+use cjseq::{CityJSON, CityJSONFeature, CityObject, Transform as CjTransform};
 use clap::{Parser, Subcommand};
 use fcb_core::error::Error;
 use fcb_core::{
@@ -174,7 +174,7 @@ fn serialize(
         let mut schema = AttributeSchema::new();
         // Limit to max 1000 features for schema building to have faster build time
         for feature in filtered_features.iter().take(1000) {
-            for (_, co) in feature.city_objects.iter() {
+            for co in objects_by_id(feature) {
                 if let Some(attributes) = &co.attributes {
                     schema.add_attributes(attributes);
                 }
@@ -190,7 +190,7 @@ fn serialize(
     let semantic_attr_schema = {
         let mut schema = AttributeSchema::new();
         for feature in filtered_features.iter() {
-            for (_, co) in feature.city_objects.iter() {
+            for co in objects_by_id(feature) {
                 if let Some(geometry) = &co.geometry {
                     for geom in geometry.iter() {
                         if let Some(semantics) = geom.semantics.as_ref() {
@@ -318,6 +318,13 @@ fn get_vertices_from_feature(feature: &CityJSONFeature, transform: &CjTransform)
     result
 }
 
+/// The city objects of a feature in an order which does not change from run to run
+fn objects_by_id(feature: &CityJSONFeature) -> Vec<&CityObject> {
+    let mut objects: Vec<_> = feature.city_objects.iter().collect();
+    objects.sort_by_key(|(id, _)| *id);
+    objects.into_iter().map(|(_, object)| object).collect()
+}
+
 /// Check if a CityJSONFeature intersects with a bounding box
 fn feature_intersects_bbox(
     feature: &CityJSONFeature,
diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index d7e7a98..95ad34b 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -118,6 +118,9 @@ pub(crate) fn encode_material(
     materials: &HashMap<String, CjMaterialReference>,
 ) -> Vec<MaterialMapping> {
     let mut material_mappings = Vec::new();
+    // in an order which does not change from run to run
+    let mut materials: Vec<_> = materials.iter().collect();
+    materials.sort_by_key(|(theme, _)| *theme);
     for (theme, material) in materials {
         if let Some(value) = material.value {
             // Handle single material value
@@ -204,7 +207,10 @@ pub(crate) fn encode_texture(
 ) -> Vec<TextureMapping> {
     let mut texture_mappings = Vec::new();
 
-    for (theme, texture) in texture_map {
+    // in an order which does not change from run to run
+    let mut sorted_textures: Vec<_> = texture_map.iter().collect();
+    sorted_textures.sort_by_key(|(theme, _)| *theme);
+    for (theme, texture) in sorted_textures {
         let mut texture_mapping = TextureMapping {
             theme: theme.clone(),
             solids: Vec::new(),
diff --git a/src/rust/fcb_core/src/writer/serializer.rs b/src/rust/fcb_core/src/writer/serializer.rs
index 8a5b3a8..fd5c1b5 100644
--- a/src/rust/fcb_core/src/writer/serializer.rs
+++ b/src/rust/fcb_core/src/writer/serializer.rs
@@ -87,7 +87,10 @@ pub(super) fn to_fcb_header<'a>(
     // Handle extensions, if present
     let extensions = if let Some(extensions) = &cj.extensions {
         let mut extension_files = Vec::new();
-        for (name, ext) in extensions.iter() {
+        // in an order which does not change from run to run
+        let mut extensions: Vec<_> = extensions.iter().collect();
+        extensions.sort_by_key(|(name, _)| *name);
+        for (name, ext) in extensions {
             let extension_file = ext.fetch_extension_file(name.clone())?;
             extension_files.push(extension_file);
         }
@@ -420,9 +423,11 @@ pub(super) fn to_fcb_city_feature<'a>(
     semantic_attr_schema: Option<&AttributeSchema>,
 ) -> (flatbuffers::WIPOffset<CityFeature<'a>>, NodeItem) {
     let id = Some(fbb.create_string(id));
-    let city_objects: Vec<_> = city_feature
-        .city_objects
-        .iter()
+    // in an order which does not change from run to run
+    let mut sorted_objects: Vec<_> = city_feature.city_objects.iter().collect();
+    sorted_objects.sort_by_key(|(id, _)| *id);
+    let city_objects: Vec<_> = sorted_objects
+        .into_iter()
         .map(|(id, co)| to_city_object(fbb, id, co, attr_schema, semantic_attr_schema))
         .collect();
     let objects = Some(fbb.create_vector(&city_objects));
-- 
2.43.0


From b540f9951991493053c1b99937b203e489c15593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:47 +0000
Subject: [PATCH 40/63] fix: collect index entries of a feature in a fixed
 order, so that output is reproducible

---
 src/rust/fcb_core/src/writer/attribute.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/attribute.rs b/src/rust/fcb_core/src/writer/attribute.rs
index 12c082d..d08c504 100644
--- a/src/rust/fcb_core/src/writer/attribute.rs
+++ b/src/rust/fcb_core/src/writer/attribute.rs
@@ -259,7 +259,10 @@ pub fn cityfeature_to_index_entries(
     indexing_attr: &[String],
 ) -> Vec<AttributeIndexEntry> {
     let mut index_entries = Vec::new();
-    for object in cityfeature.city_objects.values() {
+    // in an order which does not change from run to run
+    let mut objects: Vec<_> = cityfeature.city_objects.iter().collect();
+    objects.sort_by_key(|(id, _)| *id);
+    for (_, object) in objects {
         if let Some(attr) = &object.attributes {
             let attr_index_entries = attribute_to_index_entries(attr, schema, indexing_attr);
             index_entries.extend(attr_index_entries);
-- 
2.43.0


From 93930a220b5012e1e157a3833bd267a32e84fad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:01 +0000
Subject: [PATCH 41/63] fix: follow only links of the spatial index which lead
 to the next level and to ascending features

---
 src/rust/fcb_core/src/http_reader/mod.rs  |  21 +--
 src/rust/fcb_core/src/packed_rtree/mod.rs | 194 +++++++++++++++-------
 src/rust/fcb_core/src/reader/mod.rs       |  16 +-
 3 files changed, 148 insertions(+), 83 deletions(-)

diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 0f59ae4..5195d3c 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -9,7 +9,7 @@ use crate::{add_indices_to_multi_memory_index, build_query, fb::*, AttrQuery};
 
 use crate::error::{Error, Result};
 use crate::http_range::get_range_exact;
-use crate::packed_rtree::Query;
+use crate::packed_rtree::{Error as PackedRtreeError, Query};
 use crate::reader::city_buffer::FcbBuffer;
 use crate::static_btree::{FixedStringKey, Float, KeyType, Operator};
 use crate::{
@@ -217,12 +217,6 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
             combine_request_threshold,
         )
         .await?;
-        debug_assert!(
-            list.windows(2)
-                .all(|w| w[0].range.start() < w[1].range.start()),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
-
         let count = list.len();
         let feature_batches = FeatureBatch::make_batches(list, combine_request_threshold).await?;
         let selection = FeatureSelection::SelectBbox(SelectBbox { feature_batches });
@@ -610,15 +604,12 @@ impl FeatureBatch {
 
             let previous_item = latest_batch.back().expect("we never push an empty batch");
 
-            let HttpRange::Range(Range { end: prev_end, .. }) = previous_item else {
-                debug_assert!(false, "This shouldn't happen. Only the very last feature is expected to have an unknown length");
-                let mut new_batch = VecDeque::new();
-                new_batch.push_back(search_result_item.range);
-                batched_ranges.push(new_batch);
-                continue;
+            // Since the tree is traversed breadth first, list is sorted by construction.
+            let start = search_result_item.range.start();
+            let prev_end = previous_item.end().unwrap_or(previous_item.start() + 1);
+            let Some(wasted_bytes) = start.checked_sub(prev_end) else {
+                return Err(PackedRtreeError::from("feature offsets are not ascending").into());
             };
-
-            let wasted_bytes = search_result_item.range.start() - prev_end;
             if wasted_bytes < combine_request_threshold {
                 if wasted_bytes == 0 {
                     trace!("adjacent feature");
diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 4920a88..68d47e0 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -193,10 +193,14 @@ impl NodeItem {
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec(node_items: &mut Vec<NodeItem>, mut data: impl Read) -> Result<(), Error> {
+/// Read this many items from data stream
+fn read_node_vec(
+    node_items: &mut Vec<NodeItem>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<(), Error> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -213,7 +217,7 @@ fn read_node_items<R: Read + Seek>(
     data.seek(SeekFrom::Start(
         base + (node_index * size_of::<NodeItem>()) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -236,6 +240,50 @@ async fn read_http_node_items<T: AsyncHttpRangeClient>(
     Ok(node_items)
 }
 
+/// Index of the first child of the node at `node_index` of a level. It follows from the number of
+/// items and the node size, a stored index which differs is not followed.
+fn first_child(
+    node_item: &NodeItem,
+    node_index: usize,
+    level: usize,
+    level_bounds: &[Range<usize>],
+    node_size: u16,
+) -> Result<usize, Error> {
+    let child = level_bounds[level - 1].start
+        + (node_index - level_bounds[level].start) * node_size as usize;
+    if node_item.offset != child as u64 {
+        return Err(Error::RTreeError(format!(
+            "node {node_index} refers to node {} instead of node {child}",
+            node_item.offset
+        )));
+    }
+    Ok(child)
+}
+
+/// Byte range of the feature which a leaf node refers to, given the leaf node behind it
+#[cfg(feature = "http")]
+fn feature_range(
+    feature_begin: usize,
+    node_item: &NodeItem,
+    next_node_item: Option<&NodeItem>,
+) -> Result<HttpRange, Error> {
+    let position = |offset: u64| {
+        usize::try_from(offset)
+            .ok()
+            .and_then(|offset| feature_begin.checked_add(offset))
+            .ok_or_else(|| Error::RTreeError(format!("invalid feature offset {offset}")))
+    };
+    let start = position(node_item.offset)?;
+    let Some(next_node_item) = next_node_item else {
+        return Ok(HttpRange::RangeFrom(start..));
+    };
+    let end = position(next_node_item.offset)?;
+    if end <= start {
+        return Err("feature offsets are not ascending".into());
+    }
+    Ok(HttpRange::Range(start..end))
+}
+
 #[derive(Debug, Clone, Copy)]
 pub enum Query {
     BBox(f64, f64, f64, f64),
@@ -419,7 +467,8 @@ impl PackedRTree {
     }
 
     fn read_data(&mut self, data: impl Read) -> Result<(), Error> {
-        read_node_vec(&mut self.node_items, data)?;
+        let num_nodes = self.level_bounds.first().map_or(0, |leaves| leaves.end);
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         for node in &self.node_items {
             self.extent.expand(node)
         }
@@ -481,13 +530,10 @@ impl PackedRTree {
     ) -> Result<PackedRTree, Error> {
         let node_size = node_size.clamp(2u16, 65535u16);
         let level_bounds = PackedRTree::generate_level_bounds(num_items, node_size);
-        let num_nodes = level_bounds
-            .first()
-            .expect("RTree has at least one level when node_size >= 2 and num_items > 0")
-            .end;
         let mut tree = PackedRTree {
             extent: NodeItem::create(0),
-            node_items: Vec::with_capacity(num_nodes),
+            // the number of items is not trusted until as many have been read
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor: node_size,
             level_bounds,
@@ -552,7 +598,14 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
-                            queue.push_back((node_item.offset as usize, level - 1));
+                            let child = first_child(
+                                node_item,
+                                pos,
+                                level,
+                                &self.level_bounds,
+                                self.branching_factor,
+                            )?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -587,7 +640,14 @@ impl PackedRTree {
                                 index: pos - leaf_nodes_offset,
                             });
                         } else {
-                            queue.push_back((node_item.offset as usize, level - 1));
+                            let child = first_child(
+                                node_item,
+                                pos,
+                                level,
+                                &self.level_bounds,
+                                self.branching_factor,
+                            )?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -681,7 +741,13 @@ impl PackedRTree {
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
-                                node_index: node_item.offset as usize,
+                                node_index: first_child(
+                                    node_item,
+                                    pos,
+                                    level,
+                                    &self.level_bounds,
+                                    self.branching_factor,
+                                )?,
                                 level: level - 1,
                             }));
                         }
@@ -741,9 +807,9 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
-                            let offset = node_item.offset as usize;
-                            let prev_level = level - 1;
-                            queue.push_back((offset, prev_level));
+                            let child =
+                                first_child(node_item, pos, level, &level_bounds, node_size)?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -780,9 +846,9 @@ impl PackedRTree {
                             let offset = node_item.offset as usize;
                             results.push(SearchResultItem { offset, index });
                         } else {
-                            let offset = node_item.offset as usize;
-                            let prev_level = level - 1;
-                            queue.push_back((offset, prev_level));
+                            let child =
+                                first_child(node_item, pos, level, &level_bounds, node_size)?;
+                            queue.push_back((child, level - 1));
                         }
                     }
                 }
@@ -879,7 +945,13 @@ impl PackedRTree {
                             // Add this node to the queue with its minimum distance
                             queue.push(Reverse(QueueItem {
                                 distance: dist,
-                                node_index: node_item.offset as usize,
+                                node_index: first_child(
+                                    node_item,
+                                    pos,
+                                    level,
+                                    &level_bounds,
+                                    node_size,
+                                )?,
                                 level: level - 1,
                             }));
                         }
@@ -985,21 +1057,22 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
-                            if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
-                                });
-                            } else {
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
-                                });
-                            }
+                            let range = feature_range(
+                                feature_begin,
+                                node_item,
+                                node_items.get(node_pos + 1),
+                            )?;
+                            results.push(HttpSearchResultItem { range });
                         } else {
                             let children_level = node_range.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let child = first_child(
+                                node_item,
+                                node_range.nodes.start + node_pos,
+                                node_range.level,
+                                &level_bounds,
+                                branching_factor,
+                            )?;
+                            let mut children_nodes = child..child + branching_factor as usize;
                             if children_level == 0 {
                                 // These children are leaf nodes.
                                 //
@@ -1093,21 +1166,22 @@ impl PackedRTree {
 
                         if node_range.level == 0 {
                             // leaf node
-                            let start = feature_begin + node_item.offset as usize;
-                            if let Some(next_node_item) = &node_items.get(node_pos + 1) {
-                                let end = feature_begin + next_node_item.offset as usize;
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
-                                });
-                            } else {
-                                results.push(HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
-                                });
-                            }
+                            let range = feature_range(
+                                feature_begin,
+                                node_item,
+                                node_items.get(node_pos + 1),
+                            )?;
+                            results.push(HttpSearchResultItem { range });
                         } else {
                             let children_level = node_range.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let child = first_child(
+                                node_item,
+                                node_range.nodes.start + node_pos,
+                                node_range.level,
+                                &level_bounds,
+                                branching_factor,
+                            )?;
+                            let mut children_nodes = child..child + branching_factor as usize;
                             if children_level == 0 {
                                 children_nodes.end += 1;
                             }
@@ -1230,18 +1304,12 @@ impl PackedRTree {
                             let centroid_dist = node_item.centroid_distance_squared(x, y);
 
                             // Create range for the result
-                            let start = feature_begin + node_item.offset as usize;
-                            let result = if let Some(next_node_item) = &node_items.get(node_pos + 1)
-                            {
-                                let end = feature_begin + next_node_item.offset as usize;
-                                HttpSearchResultItem {
-                                    range: HttpRange::Range(start..end),
-                                }
-                            } else {
-                                HttpSearchResultItem {
-                                    range: HttpRange::RangeFrom(start..),
-                                }
-                            };
+                            let range = feature_range(
+                                feature_begin,
+                                node_item,
+                                node_items.get(node_pos + 1),
+                            )?;
+                            let result = HttpSearchResultItem { range };
 
                             match nearest {
                                 None => nearest = Some((centroid_dist, result)),
@@ -1253,8 +1321,14 @@ impl PackedRTree {
                         } else {
                             // Not a leaf node - add children to the queue
                             let children_level = next.level - 1;
-                            let mut children_nodes = node_item.offset as usize
-                                ..(node_item.offset + branching_factor as u64) as usize;
+                            let child = first_child(
+                                node_item,
+                                next.nodes.start + node_pos,
+                                next.level,
+                                &level_bounds,
+                                branching_factor,
+                            )?;
+                            let mut children_nodes = child..child + branching_factor as usize;
 
                             if children_level == 0 {
                                 children_nodes.end += 1;
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index ae20c09..f198307 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -155,10 +155,10 @@ impl<R: Read> FcbReader<R> {
             header.index_node_size(),
         )?;
         let list = index.search(query)?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        // Since the tree is traversed breadth first, list is sorted by construction.
+        if !list.windows(2).all(|w| w[0].offset < w[1].offset) {
+            return Err(packed_rtree::Error::from("feature offsets are not ascending").into());
+        }
         // skip attribute index
         let index_size = self.attr_index_size();
         skip_bytes(&mut self.reader, index_size)?;
@@ -216,10 +216,10 @@ impl<R: Read + Seek> FcbReader<R> {
             header.index_node_size(),
             query,
         )?;
-        debug_assert!(
-            list.windows(2).all(|w| w[0].offset < w[1].offset),
-            "Since the tree is traversed breadth first, list should be sorted by construction."
-        );
+        // Since the tree is traversed breadth first, list is sorted by construction.
+        if !list.windows(2).all(|w| w[0].offset < w[1].offset) {
+            return Err(packed_rtree::Error::from("feature offsets are not ascending").into());
+        }
         // skip index
         self.reader
             .seek(SeekFrom::Current(self.attr_index_size() as i64))?;
-- 
2.43.0


From 83c59251acc1d20e3406e65bffa47a48af614f8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:07 +0000
Subject: [PATCH 42/63] fix: follow only links of an attribute index which lead
 to the next level, and do not trust stored lengths

---
 src/rust/fcb_core/src/reader/attr_query.rs    |   9 +-
 src/rust/fcb_core/src/static_btree/payload.rs |   3 +-
 src/rust/fcb_core/src/static_btree/stree.rs   | 205 +++++++++++++-----
 3 files changed, 162 insertions(+), 55 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 7533b7b..7ac67e3 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -3,7 +3,7 @@ use crate::static_btree::{
     QueryCondition, StreamIndex, StreamMultiIndex,
 };
 use std::collections::HashMap;
-use std::io::{Cursor, Read, Seek, SeekFrom};
+use std::io::{self, Cursor, Read, Seek, SeekFrom};
 use std::ops::Range;
 
 use crate::error::{Error, Result};
@@ -28,8 +28,11 @@ pub fn add_indices_to_multi_memory_index<R: Read>(
     attr_info: &AttributeIndex,
 ) -> Result<()> {
     let length = attr_info.length();
-    let mut buf = vec![0; length as usize];
-    data.read_exact(&mut buf)?;
+    // the length is not trusted until as many bytes have been read
+    let mut buf = Vec::new();
+    if data.by_ref().take(length as u64).read_to_end(&mut buf)? < length as usize {
+        return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+    }
     let mut buf = Cursor::new(buf);
     if let Some(col) = columns.iter().find(|col| col.index() == attr_info.index()) {
         if query.iter().any(|(name, _, _)| col.name() == name) {
diff --git a/src/rust/fcb_core/src/static_btree/payload.rs b/src/rust/fcb_core/src/static_btree/payload.rs
index 550e753..15f2b86 100644
--- a/src/rust/fcb_core/src/static_btree/payload.rs
+++ b/src/rust/fcb_core/src/static_btree/payload.rs
@@ -52,7 +52,8 @@ impl PayloadEntry {
     pub fn deserialize<R: Read + Seek + ?Sized>(data: &mut R) -> Result<(Self, usize)> {
         // [count, offset1, offset2, ...]
         let count = data.read_u32::<LittleEndian>()?;
-        let mut offsets = Vec::with_capacity(count as usize);
+        // the count is not trusted until as many offsets have been read
+        let mut offsets = Vec::new();
         for _ in 0..count {
             offsets.push(data.read_u64::<LittleEndian>()?);
         }
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 8144127..1cca254 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -1,11 +1,11 @@
+#[cfg(feature = "http")]
+use crate::http_range::get_range_exact;
 use crate::static_btree::entry::{Entry, Offset};
 use crate::static_btree::error::{Error, Result};
 use crate::static_btree::key::Key;
 use crate::static_btree::payload::PayloadEntry;
 use byteorder::{LittleEndian, ReadBytesExt};
 #[cfg(feature = "http")]
-use crate::http_range::get_range_exact;
-#[cfg(feature = "http")]
 use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
 use log::{debug, info};
 use std::cmp::{max, min};
@@ -52,6 +52,25 @@ impl<K: Key> NodeItem<K> {
     }
 }
 
+/// Index of the child to the left of a key, or of the one `skip` nodes behind it. The children are in
+/// the level below, a stored index which leads out of it is not followed.
+fn child_index(offset: Offset, skip: usize, children_level: &Range<usize>) -> Result<usize> {
+    usize::try_from(offset)
+        .ok()
+        .filter(|child| (children_level.start..=children_level.end).contains(child))
+        .map(|child| min(child + skip, children_level.end))
+        .ok_or_else(|| Error::InvalidFormat(format!("invalid child node {offset} in index")))
+}
+
+/// Position in the file of a feature with the given offset
+#[cfg(feature = "http")]
+fn feature_position(feature_begin: usize, offset: Offset) -> Result<usize> {
+    usize::try_from(offset)
+        .ok()
+        .and_then(|offset| feature_begin.checked_add(offset))
+        .ok_or_else(|| Error::InvalidFormat(format!("invalid feature offset {offset}")))
+}
+
 /// Index of the child to the right of a key, given the child to its left. The last key of a level
 /// is the maximum of the key type standing for "no more nodes", it has nothing to its right.
 fn right_child(left_child: usize, node_size: usize, children_level: &Range<usize>) -> usize {
@@ -63,10 +82,14 @@ fn right_child(left_child: usize, node_size: usize, children_level: &Range<usize
     }
 }
 
-/// Read full capacity of vec from data stream
-fn read_node_vec<K: Key>(node_items: &mut Vec<NodeItem<K>>, mut data: impl Read) -> Result<()> {
+/// Read this many items from data stream
+fn read_node_vec<K: Key>(
+    node_items: &mut Vec<NodeItem<K>>,
+    length: usize,
+    mut data: impl Read,
+) -> Result<()> {
     node_items.clear();
-    for _ in 0..node_items.capacity() {
+    for _ in 0..length {
         node_items.push(NodeItem::from_reader(&mut data)?);
     }
     Ok(())
@@ -83,7 +106,7 @@ fn read_node_items<K: Key, R: Read + Seek + ?Sized>(
     data.seek(SeekFrom::Start(
         base + (node_index * NodeItem::<K>::SERIALIZED_SIZE) as u64,
     ))?;
-    read_node_vec(&mut node_items, data)?;
+    read_node_vec(&mut node_items, length, data)?;
     Ok(node_items)
 }
 
@@ -96,6 +119,9 @@ async fn read_http_node_items<K: Key, T: AsyncHttpRangeClient>(
 ) -> Result<Vec<NodeItem<K>>> {
     info!("sending request to fetch node items, base: {base}, node_ids: {node_ids:?}");
 
+    if node_ids.is_empty() {
+        return Ok(Vec::new());
+    }
     let begin = base + node_ids.start * NodeItem::<K>::SERIALIZED_SIZE;
     let length = node_ids.len() * NodeItem::<K>::SERIALIZED_SIZE;
     // we've  already determined precisely which nodes to fetch - no need for extra.
@@ -267,7 +293,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
         match payload_ref {
             PayloadRef::Direct(offset) => {
                 // Direct offsets can be added to results immediately
-                let start = feature_begin + offset as usize;
+                let start = feature_position(feature_begin, offset)?;
                 results.push(HttpSearchResultItem {
                     range: HttpRange::RangeFrom(start..),
                 });
@@ -282,7 +308,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
                         match cache.get_entry(abs_offset) {
                             Ok(entry) => {
                                 for offset in entry.offsets {
-                                    let start = feature_begin + offset as usize;
+                                    let start = feature_position(feature_begin, offset)?;
                                     results.push(HttpSearchResultItem {
                                         range: HttpRange::RangeFrom(start..),
                                     });
@@ -326,7 +352,7 @@ async fn batch_resolve_payloads<T: AsyncHttpRangeClient>(
     for &payload_offset in &payload_offsets_to_fetch {
         let entry = read_http_payload_data(client, payload_offset).await?;
         for offset in entry.offsets {
-            let start = feature_begin + offset as usize;
+            let start = feature_position(feature_begin, offset)?;
             results.push(HttpSearchResultItem {
                 range: HttpRange::RangeFrom(start..),
             });
@@ -424,7 +450,6 @@ impl<K: Key> Stree<K> {
     // node_size is the number of items in each node, it'll be B-1
     fn generate_level_bounds(num_items: usize, branching_factor: u16) -> Vec<Range<usize>> {
         assert!(branching_factor >= 2, "Node size must be at least 2");
-        assert!(num_items > 0, "Cannot create empty tree");
         assert!(
             num_items <= usize::MAX - ((num_items / branching_factor as usize) * 2),
             "Number of items too large"
@@ -554,7 +579,8 @@ impl<K: Key> Stree<K> {
     }
 
     fn read_data(&mut self, data: impl Read) -> Result<()> {
-        read_node_vec(&mut self.node_items, data)?;
+        let num_nodes = self.level_bounds.first().map_or(0, |leaves| leaves.end);
+        read_node_vec(&mut self.node_items, num_nodes, data)?;
         Ok(())
     }
 
@@ -651,12 +677,9 @@ impl<K: Key> Stree<K> {
         // NOTE: Since it's B+Tree, the branching factor is the number of children per node. Node size is branching factor - 1
         let branching_factor = branching_factor.clamp(2u16, 65535u16);
         let level_bounds = Stree::<K>::generate_level_bounds(num_items, branching_factor);
-        let num_nodes = level_bounds
-            .first()
-            .expect("Btree has at least one level when node_size >= 2 and num_items > 0")
-            .end;
         let mut tree = Stree::<K> {
-            node_items: Vec::with_capacity(num_nodes),
+            // the number of items is not trusted until as many have been read
+            node_items: Vec::new(),
             num_leaf_nodes: num_items,
             branching_factor,
             level_bounds,
@@ -732,7 +755,11 @@ impl<K: Key> Stree<K> {
                     Ok(index) => {
                         queue.push_back((
                             right_child(
-                                node_items[index].offset as usize,
+                                child_index(
+                                    node_items[index].offset,
+                                    0,
+                                    &self.level_bounds[level - 1],
+                                )?,
                                 node_size,
                                 &self.level_bounds[level - 1],
                             ),
@@ -741,14 +768,32 @@ impl<K: Key> Stree<K> {
                     }
                     Err(index) => {
                         if index == 0 {
-                            queue.push_back((node_items[0].offset as usize, level - 1));
+                            queue.push_back((
+                                child_index(
+                                    node_items[0].offset,
+                                    0,
+                                    &self.level_bounds[level - 1],
+                                )?,
+                                level - 1,
+                            ));
                         } else if index == node_items.len() {
                             queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
+                                child_index(
+                                    node_items[node_items.len() - 1].offset,
+                                    node_size,
+                                    &self.level_bounds[level - 1],
+                                )?,
                                 level - 1,
                             ));
                         } else {
-                            queue.push_back((node_items[index].offset as usize, level - 1));
+                            queue.push_back((
+                                child_index(
+                                    node_items[index].offset,
+                                    0,
+                                    &self.level_bounds[level - 1],
+                                )?,
+                                level - 1,
+                            ));
                         }
                     }
                 }
@@ -764,7 +809,7 @@ impl<K: Key> Stree<K> {
                         if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                             let rel = (off & PAYLOAD_MASK) as usize;
                             let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
-                                &self.payload_data[rel..],
+                                self.payload_data.get(rel..).unwrap_or_default(),
                             ))?;
                             for o in entry.offsets {
                                 results.push(SearchResultItem {
@@ -836,7 +881,7 @@ impl<K: Key> Stree<K> {
                     Ok(index) => {
                         queue.push_back((
                             right_child(
-                                node_items[index].offset as usize,
+                                child_index(node_items[index].offset, 0, &level_bounds[level - 1])?,
                                 node_size,
                                 &level_bounds[level - 1],
                             ),
@@ -845,14 +890,24 @@ impl<K: Key> Stree<K> {
                     }
                     Err(index) => {
                         if index == 0 {
-                            queue.push_back((node_items[0].offset as usize, level - 1));
+                            queue.push_back((
+                                child_index(node_items[0].offset, 0, &level_bounds[level - 1])?,
+                                level - 1,
+                            ));
                         } else if index == node_items.len() {
                             queue.push_back((
-                                node_items[node_items.len() - 1].offset as usize + node_size,
+                                child_index(
+                                    node_items[node_items.len() - 1].offset,
+                                    node_size,
+                                    &level_bounds[level - 1],
+                                )?,
                                 level - 1,
                             ));
                         } else {
-                            queue.push_back((node_items[index].offset as usize, level - 1));
+                            queue.push_back((
+                                child_index(node_items[index].offset, 0, &level_bounds[level - 1])?,
+                                level - 1,
+                            ));
                         }
                     }
                 }
@@ -945,8 +1000,9 @@ impl<K: Key> Stree<K> {
                     let idx = current_idx + _i - leaf_nodes_offset;
                     if self.payload_initialized && (off & PAYLOAD_TAG) != 0 {
                         let rel = (off & PAYLOAD_MASK) as usize;
-                        let (entry, _) =
-                            PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                        let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
+                            self.payload_data.get(rel..).unwrap_or_default(),
+                        ))?;
                         for o in entry.offsets {
                             results.push(SearchResultItem {
                                 offset: o as usize,
@@ -1075,8 +1131,9 @@ impl<K: Key> Stree<K> {
             let index = idx - leaf_level.start;
             if self.payload_initialized && (item.offset & PAYLOAD_TAG) != 0 {
                 let rel = (item.offset & PAYLOAD_MASK) as usize;
-                let (entry, _) =
-                    PayloadEntry::deserialize(&mut Cursor::new(&self.payload_data[rel..]))?;
+                let (entry, _) = PayloadEntry::deserialize(&mut Cursor::new(
+                    self.payload_data.get(rel..).unwrap_or_default(),
+                ))?;
                 for o in entry.offsets {
                     results.push(SearchResultItem {
                         offset: o as usize,
@@ -1178,22 +1235,32 @@ impl<K: Key> Stree<K> {
                 Ok(index) => {
                     // Exact match found, go to the corresponding child
                     // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
+                    node_index =
+                        child_index(node_items[index].offset, 0, &self.level_bounds[level - 1])?;
                 }
                 Err(index) => {
                     // No exact match, determine appropriate child based on comparison
                     if index == 0 {
                         // Key is smaller than all keys in this node
                         // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
+                        node_index =
+                            child_index(node_items[0].offset, 0, &self.level_bounds[level - 1])?;
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = child_index(
+                            node_items[node_items.len() - 1].offset,
+                            node_size,
+                            &self.level_bounds[level - 1],
+                        )?;
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
+                        node_index = child_index(
+                            node_items[index].offset,
+                            0,
+                            &self.level_bounds[level - 1],
+                        )?;
                     }
                 }
             }
@@ -1233,22 +1300,29 @@ impl<K: Key> Stree<K> {
                 Ok(index) => {
                     // Exact match found, go to the corresponding child
                     // For an exact match, we go to the child node pointed to by this entry
-                    node_index = node_items[index].offset as usize;
+                    node_index =
+                        child_index(node_items[index].offset, 0, &level_bounds[level - 1])?;
                 }
                 Err(index) => {
                     // No exact match, determine appropriate child based on comparison
                     if index == 0 {
                         // Key is smaller than all keys in this node
                         // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
+                        node_index =
+                            child_index(node_items[0].offset, 0, &level_bounds[level - 1])?;
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = child_index(
+                            node_items[node_items.len() - 1].offset,
+                            node_size,
+                            &level_bounds[level - 1],
+                        )?;
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
+                        node_index =
+                            child_index(node_items[index].offset, 0, &level_bounds[level - 1])?;
                     }
                 }
             }
@@ -1355,18 +1429,34 @@ impl<K: Key> Stree<K> {
                 match result {
                     Ok(idx) => {
                         _offset = right_child(
-                            node_items[idx].offset as usize,
+                            child_index(
+                                node_items[idx].offset,
+                                0,
+                                &level_bounds[node_range.level - 1],
+                            )?,
                             node_size,
                             &level_bounds[node_range.level - 1],
                         );
                     }
                     Err(idx) => {
                         if idx == 0 {
-                            _offset = node_items[0].offset as usize;
+                            _offset = child_index(
+                                node_items[0].offset,
+                                0,
+                                &level_bounds[node_range.level - 1],
+                            )?;
                         } else if idx == node_items.len() {
-                            _offset = node_items[node_items.len() - 1].offset as usize + node_size;
+                            _offset = child_index(
+                                node_items[node_items.len() - 1].offset,
+                                node_size,
+                                &level_bounds[node_range.level - 1],
+                            )?;
                         } else {
-                            _offset = node_items[idx].offset as usize;
+                            _offset = child_index(
+                                node_items[idx].offset,
+                                0,
+                                &level_bounds[node_range.level - 1],
+                            )?;
                         }
                     }
                 }
@@ -1440,8 +1530,10 @@ impl<K: Key> Stree<K> {
             .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
         {
             // the payload section ends before the features, there may be nothing behind them
-            let prefetch_size =
-                min(prefetch_size, feature_begin.saturating_sub(payload_data_start));
+            let prefetch_size = min(
+                prefetch_size,
+                feature_begin.saturating_sub(payload_data_start),
+            );
             payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
         }
 
@@ -1501,7 +1593,8 @@ impl<K: Key> Stree<K> {
             match node_items.binary_search_by(|item: &NodeItem<K>| item.key.cmp(&key)) {
                 Ok(index) => {
                     // Exact match found, go to the corresponding child
-                    node_index = node_items[index].offset as usize;
+                    node_index =
+                        child_index(node_items[index].offset, 0, &level_bounds[level - 1])?;
                 }
 
                 Err(index) => {
@@ -1510,15 +1603,21 @@ impl<K: Key> Stree<K> {
                     if index == 0 {
                         // Key is smaller than all keys in this node
                         // Go to the leftmost child
-                        node_index = node_items[0].offset as usize;
+                        node_index =
+                            child_index(node_items[0].offset, 0, &level_bounds[level - 1])?;
                     } else if index >= node_items.len() {
                         // Key is larger than all keys in this node
                         // Go to the rightmost child's right sibling
-                        node_index = node_items[node_items.len() - 1].offset as usize + node_size;
+                        node_index = child_index(
+                            node_items[node_items.len() - 1].offset,
+                            node_size,
+                            &level_bounds[level - 1],
+                        )?;
                     } else {
                         // Key is between keys in this node
                         // Go to the child node that would contain this key
-                        node_index = node_items[index].offset as usize;
+                        node_index =
+                            child_index(node_items[index].offset, 0, &level_bounds[level - 1])?;
                     }
                 }
             }
@@ -1753,8 +1852,10 @@ impl<K: Key> Stree<K> {
             .any(|payload_ref| matches!(payload_ref, PayloadRef::Indirect(_)))
         {
             // the payload section ends before the features, there may be nothing behind them
-            let prefetch_size =
-                min(prefetch_size, feature_begin.saturating_sub(payload_data_start));
+            let prefetch_size = min(
+                prefetch_size,
+                feature_begin.saturating_sub(payload_data_start),
+            );
             payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
         }
 
@@ -1836,8 +1937,10 @@ impl<K: Key> Stree<K> {
         {
             let prefetch_size = Self::compute_payload_prefetch_size(num_items, None, Some(1.5));
             // the payload section ends before the features, there may be nothing behind them
-            let prefetch_size =
-                min(prefetch_size, feature_begin.saturating_sub(payload_data_start));
+            let prefetch_size = min(
+                prefetch_size,
+                feature_begin.saturating_sub(payload_data_start),
+            );
             payload_cache = prefetch_payload(client, payload_data_start, prefetch_size).await?;
         }
 
-- 
2.43.0


From 64a43caf9f09fc8dee37b46434d4f91a4cdf3ba4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:11 +0000
Subject: [PATCH 43/63] fix: check header values and sizes before relying on
 them

---
 src/rust/fcb_core/src/error.rs              |  8 +-
 src/rust/fcb_core/src/http_reader/mod.rs    | 26 ++----
 src/rust/fcb_core/src/lib.rs                |  5 +-
 src/rust/fcb_core/src/reader/attr_query.rs  |  4 +-
 src/rust/fcb_core/src/reader/city_buffer.rs |  2 +
 src/rust/fcb_core/src/reader/mod.rs         | 89 ++++++++++++++-------
 6 files changed, 83 insertions(+), 51 deletions(-)

diff --git a/src/rust/fcb_core/src/error.rs b/src/rust/fcb_core/src/error.rs
index d5581b5..2469fe1 100644
--- a/src/rust/fcb_core/src/error.rs
+++ b/src/rust/fcb_core/src/error.rs
@@ -30,6 +30,9 @@ pub enum Error {
     #[error("Invalid header size {0}, expected size between 8 and 1MB")]
     IllegalHeaderSize(usize),
 
+    #[error("Invalid header: {0}")]
+    InvalidHeader(String),
+
     #[error("Invalid FlatBuffer format: {0}")]
     InvalidFlatbuffer(#[from] InvalidFlatbuffer),
 
@@ -92,7 +95,10 @@ impl Error {
     pub fn is_format_error(&self) -> bool {
         matches!(
             self,
-            Error::MissingMagicBytes | Error::InvalidFlatbuffer(_) | Error::IllegalHeaderSize(_)
+            Error::MissingMagicBytes
+                | Error::InvalidFlatbuffer(_)
+                | Error::IllegalHeaderSize(_)
+                | Error::InvalidHeader(_)
         )
     }
 
diff --git a/src/rust/fcb_core/src/http_reader/mod.rs b/src/rust/fcb_core/src/http_reader/mod.rs
index 5195d3c..8dec5eb 100644
--- a/src/rust/fcb_core/src/http_reader/mod.rs
+++ b/src/rust/fcb_core/src/http_reader/mod.rs
@@ -10,6 +10,7 @@ use crate::{add_indices_to_multi_memory_index, build_query, fb::*, AttrQuery};
 use crate::error::{Error, Result};
 use crate::http_range::get_range_exact;
 use crate::packed_rtree::{Error as PackedRtreeError, Query};
+use crate::reader::check_header;
 use crate::reader::city_buffer::FcbBuffer;
 use crate::static_btree::{FixedStringKey, Float, KeyType, Operator};
 use crate::{
@@ -123,7 +124,7 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
         let header_buf = bytes.to_vec();
 
         // verify flatbuffer
-        let _header = size_prefixed_root_as_header(&header_buf)?;
+        check_header(&size_prefixed_root_as_header(&header_buf)?)?;
 
         trace!("completed: opening http reader");
         Ok(HttpFcbReader {
@@ -154,22 +155,9 @@ impl<T: AsyncHttpRangeClient + Send + Sync> HttpFcbReader<T> {
 
     fn attr_index_size(&self) -> usize {
         let header = self.fbs.header();
-        header
-            .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0, |acc, ai| {
-                        let len = ai.length() as usize;
-                        if len > usize::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    }) // sum of all attribute index lengths
-                    .unwrap_or(0)
-            })
-            .unwrap_or(0)
+        header.attribute_index().map_or(0, |attr_index| {
+            attr_index.iter().map(|ai| ai.length() as usize).sum()
+        })
     }
 
     fn index_size(&self) -> usize {
@@ -475,10 +463,10 @@ impl<T: AsyncHttpRangeClient + Send + Sync> AsyncFeatureIter<T> {
             return Ok(None);
         };
 
+        // verify flatbuffer
+        let _feature = size_prefixed_root_as_city_feature(&buffer)?;
         // Not zero-copy
         self.fbs.features_buf = buffer.to_vec();
-        // verify flatbuffer
-        let _feature = size_prefixed_root_as_city_feature(&self.fbs.features_buf)?;
         Ok(Some(&self.fbs))
     }
     /// Return current feature
diff --git a/src/rust/fcb_core/src/lib.rs b/src/rust/fcb_core/src/lib.rs
index eda1c13..eef6100 100644
--- a/src/rust/fcb_core/src/lib.rs
+++ b/src/rust/fcb_core/src/lib.rs
@@ -57,5 +57,8 @@ pub use writer::*;
 pub use http_reader::*;
 
 pub fn check_magic_bytes(bytes: &[u8]) -> bool {
-    bytes[0..3] == MAGIC_BYTES[0..3] && bytes[4..7] == MAGIC_BYTES[4..7] && bytes[3] <= VERSION
+    bytes.len() >= MAGIC_BYTES.len()
+        && bytes[0..3] == MAGIC_BYTES[0..3]
+        && bytes[4..7] == MAGIC_BYTES[4..7]
+        && bytes[3] <= VERSION
 }
diff --git a/src/rust/fcb_core/src/reader/attr_query.rs b/src/rust/fcb_core/src/reader/attr_query.rs
index 7ac67e3..86edbe9 100644
--- a/src/rust/fcb_core/src/reader/attr_query.rs
+++ b/src/rust/fcb_core/src/reader/attr_query.rs
@@ -15,7 +15,7 @@ use crate::{AttributeIndex, Column, FeatureOffset};
 
 use super::{
     reader_trait::{NotSeekable, Seekable},
-    skip_bytes, FcbReader, FeatureIter,
+    skip_bytes, skip_forward, FcbReader, FeatureIter,
 };
 
 pub type AttrQuery = Vec<(String, Operator, KeyType)>;
@@ -361,7 +361,7 @@ impl<R: Read + Seek> FcbReader<R> {
 
         // Skip the rtree index bytes; we know the correct offset for that
         let rtree_offset = self.rtree_index_size();
-        self.reader.seek(SeekFrom::Current(rtree_offset as i64))?;
+        skip_forward(&mut self.reader, rtree_offset)?;
 
         // Now we should be at the start of the attribute indices
         let attr_index_start_pos = self.reader.stream_position()?;
diff --git a/src/rust/fcb_core/src/reader/city_buffer.rs b/src/rust/fcb_core/src/reader/city_buffer.rs
index 7eb2cc1..a47ab1d 100644
--- a/src/rust/fcb_core/src/reader/city_buffer.rs
+++ b/src/rust/fcb_core/src/reader/city_buffer.rs
@@ -17,6 +17,8 @@ impl FcbBuffer {
     }
 
     pub fn feature(&self) -> CityFeature {
+        // only the size of the next feature is there before the first and after the last one
+        assert!(self.features_buf.len() > 4, "no current feature");
         unsafe { size_prefixed_root_as_city_feature_unchecked(&self.features_buf) }
     }
 
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index f198307..19391cb 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -102,13 +102,17 @@ impl<R: Read> FcbReader<R> {
             return Err(Error::IllegalHeaderSize(header_size));
         }
 
-        let mut header_buf = Vec::with_capacity(header_size + 4); // 4 bytes for size prefix
-        header_buf.extend_from_slice(&size_buf);
-        header_buf.resize(header_buf.capacity(), 0);
-        reader.read_exact(&mut header_buf[4..])?;
+        let mut header_buf = size_buf.to_vec(); // 4 bytes for size prefix
+        // the size is not trusted until as many bytes have been read
+        let read_size = (&mut reader)
+            .take(header_size as u64)
+            .read_to_end(&mut header_buf)?;
+        if read_size < header_size {
+            return Err(io::Error::from(io::ErrorKind::UnexpectedEof).into());
+        }
 
         if verify {
-            let _header = size_prefixed_root_as_header(&header_buf)?;
+            check_header(&size_prefixed_root_as_header(&header_buf)?)?;
         }
 
         Ok(FcbReader {
@@ -191,7 +195,7 @@ impl<R: Read + Seek> FcbReader<R> {
             attributes: self.attr_index_size(),
         };
         let index_size = self.attr_index_size() + self.rtree_index_size();
-        self.reader.seek(SeekFrom::Current(index_size as i64))?;
+        skip_forward(&mut self.reader, index_size)?;
         let total_feat_count = self.buffer.header().features_count();
         FeatureIter::new(
             self.reader,
@@ -221,8 +225,8 @@ impl<R: Read + Seek> FcbReader<R> {
             return Err(packed_rtree::Error::from("feature offsets are not ascending").into());
         }
         // skip index
-        self.reader
-            .seek(SeekFrom::Current(self.attr_index_size() as i64))?;
+        let index_size = self.attr_index_size();
+        skip_forward(&mut self.reader, index_size)?;
         let feature_offset = FeatureOffset {
             magic_bytes: 8,
             header: 4 + self.buffer.header_buf.len() as u64,
@@ -265,23 +269,47 @@ impl<R: Read> FcbReader<R> {
 
     fn attr_index_size(&self) -> u64 {
         let header = self.buffer.header();
-        header
-            .attribute_index()
-            .map(|attr_index| {
-                attr_index
-                    .iter()
-                    .try_fold(0u32, |acc, ai| {
-                        let len = ai.length();
-                        if len > u32::MAX - acc {
-                            Err(Error::AttributeIndexSizeOverflow)
-                        } else {
-                            Ok(acc + len)
-                        }
-                    })
-                    .unwrap_or(0)
-            })
-            .unwrap_or(0) as u64
+        header.attribute_index().map_or(0, |attr_index| {
+            attr_index.iter().map(|ai| u64::from(ai.length())).sum()
+        })
+    }
+}
+
+/// Check the values of a header which determine where the parts of the file are
+pub(crate) fn check_header(header: &Header) -> Result<(), Error> {
+    let invalid = |msg: String| Err(Error::InvalidHeader(msg));
+    if header.index_node_size() > 0 && header.features_count() > 0 {
+        if header.index_node_size() < 2 {
+            return invalid("node size of spatial index must be at least 2".to_string());
+        }
+        if header.features_count() > 1 << 56 {
+            return invalid(format!("features count {}", header.features_count()));
+        }
     }
+    for index in header.attribute_index().iter().flatten() {
+        if index.branching_factor() < 2 {
+            return invalid("branching factor of attribute index must be at least 2".to_string());
+        }
+        if index.num_unique_items() > index.length() {
+            return invalid(format!(
+                "{} items in attribute index of {} bytes",
+                index.num_unique_items(),
+                index.length()
+            ));
+        }
+    }
+    Ok(())
+}
+
+fn invalid_position() -> Error {
+    io::Error::new(io::ErrorKind::InvalidInput, "position out of range").into()
+}
+
+/// Move this many bytes forward
+fn skip_forward(reader: &mut impl Seek, size: u64) -> Result<(), Error> {
+    let size = i64::try_from(size).map_err(|_| invalid_position())?;
+    reader.seek(SeekFrom::Current(size))?;
+    Ok(())
 }
 
 /// Read and discard exactly this many bytes
@@ -382,7 +410,7 @@ impl<R: Read + Seek> FeatureIter<R, Seekable> {
                 }
                 // skip features
                 let seek_bytes = item.offset as u64 - self.cur_pos;
-                self.reader.seek(SeekFrom::Current(seek_bytes as i64))?;
+                skip_forward(&mut self.reader, seek_bytes)?;
                 self.cur_pos += seek_bytes;
             }
         }
@@ -392,9 +420,12 @@ impl<R: Read + Seek> FeatureIter<R, Seekable> {
                 self.state = State::Reading;
             }
             let item_offset = attr_filter[self.feat_no];
-            self.reader.seek(SeekFrom::Start(
-                self.feature_offset.total_size() + item_offset,
-            ))?;
+            let position = self
+                .feature_offset
+                .total_size()
+                .checked_add(item_offset)
+                .ok_or_else(invalid_position)?;
+            self.reader.seek(SeekFrom::Start(position))?;
             self.cur_pos = item_offset;
         }
 
@@ -597,6 +628,8 @@ impl<R: Read, S> FeatureIter<R, S> {
     fn finish_on_error(&mut self, result: Result<(), Error>) -> Result<(), Error> {
         if result.is_err() {
             self.state = State::Finished;
+            // there may be data in it which has not been verified
+            self.buffer.features_buf.clear();
         }
         result
     }
-- 
2.43.0


From aac33f6d484538203e9b032b4073d9fad3d7368e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:23 +0000
Subject: [PATCH 44/63] fix: report malformed features as errors instead of
 panicking while decoding

---
 src/rust/fcb_core/src/reader/deserializer.rs | 206 ++++++++++---------
 src/rust/fcb_core/src/reader/geom_decoder.rs |  96 +++++++--
 2 files changed, 197 insertions(+), 105 deletions(-)

diff --git a/src/rust/fcb_core/src/reader/deserializer.rs b/src/rust/fcb_core/src/reader/deserializer.rs
index 16edb89..ecd9249 100644
--- a/src/rust/fcb_core/src/reader/deserializer.rs
+++ b/src/rust/fcb_core/src/reader/deserializer.rs
@@ -3,7 +3,10 @@ use std::{collections::HashMap, mem::size_of};
 use crate::{
     error::Error,
     fb::*,
-    geom_decoder::{decode, decode_materials, decode_semantics, decode_textures},
+    geom_decoder::{
+        check_materials, check_nesting, check_textures, decode, decode_materials, decode_textures,
+        try_decode_semantics,
+    },
 };
 use byteorder::{ByteOrder, LittleEndian};
 use cjseq::{
@@ -12,10 +15,9 @@ use cjseq::{
     ExtensionFile as CjExtensionFile, Geometry as CjGeometry,
     GeometryTemplates as CjGeometryTemplates, GeometryType as CjGeometryType,
     MaterialObject as CjMaterial, Metadata as CjMetadata, NestedArray,
-    PointOfContact as CjPointOfContact,
-    ReferenceSystem as CjReferenceSystem, Semantics as CjSemantics, TextFormat as CjTextFormat,
-    TextType as CjTextType, TextureObject as CjTexture, Transform as CjTransform,
-    WrapMode as CjWrapMode,
+    PointOfContact as CjPointOfContact, ReferenceSystem as CjReferenceSystem,
+    Semantics as CjSemantics, TextFormat as CjTextFormat, TextType as CjTextType,
+    TextureObject as CjTexture, Transform as CjTransform, WrapMode as CjWrapMode,
 };
 
 use super::meta::{Column as MetaColumn, ColumnType as MetaColumnType, Meta};
@@ -90,7 +92,10 @@ pub fn to_cj_metadata(header: &Header) -> Result<CityJSON, Error> {
         title: header.title().map(|t| t.to_string()),
     });
 
-    cj.appearance = header.appearance().map(|a| to_cj_appearance(&a));
+    cj.appearance = header
+        .appearance()
+        .map(|a| to_cj_appearance(&a))
+        .transpose()?;
 
     // Decode Geometry Templates if present
     if let (Some(fb_templates), Some(fb_vertices)) =
@@ -139,9 +144,7 @@ pub(crate) fn to_meta(header: Header) -> Result<Meta, Error> {
                         ColumnType::UShort => MetaColumnType::UShort,
                         ColumnType::Long => MetaColumnType::Long,
                         ColumnType::ULong => MetaColumnType::ULong,
-                        t => {
-                            return Err(Error::UnsupportedColumnType(t.0.to_string()))
-                        }
+                        t => return Err(Error::UnsupportedColumnType(t.0.to_string())),
                     },
                     title: c.title().map(|t| t.to_string()),
                     description: c.description().map(|d| d.to_string()),
@@ -253,149 +256,157 @@ pub(crate) fn to_cj_co_type(co_type: CityObjectType, extension_type: Option<&str
     }
 }
 
+/// Decodes attributes which are known to be valid, see [`try_decode_attributes`]
+///
+/// # Panics
+///
+/// Panics if the attributes are not valid.
 pub fn decode_attributes(
     columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
     attributes: flatbuffers::Vector<'_, u8>,
 ) -> serde_json::Value {
+    try_decode_attributes(columns, attributes).expect("attributes are valid")
+}
+
+/// The next `length` bytes
+fn take<'a>(bytes: &'a [u8], offset: &mut usize, length: usize) -> Result<&'a [u8], Error> {
+    let taken = bytes[*offset..]
+        .get(..length)
+        .ok_or_else(|| Error::InvalidAttributeValue {
+            msg: "attributes end within a value".to_string(),
+        })?;
+    *offset += length;
+    Ok(taken)
+}
+
+/// Decodes the attributes of an object with the given columns
+pub fn try_decode_attributes(
+    columns: &flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>,
+    attributes: flatbuffers::Vector<'_, u8>,
+) -> Result<serde_json::Value, Error> {
     if attributes.is_empty() {
-        return serde_json::Value::Object(serde_json::Map::new());
+        return Ok(serde_json::Value::Object(serde_json::Map::new()));
     }
 
     let mut map = serde_json::Map::new();
     let bytes = attributes.bytes();
     let mut offset = 0;
     while offset < bytes.len() {
-        let col_index = LittleEndian::read_u16(&bytes[offset..offset + size_of::<u16>()]) as u16;
-        offset += size_of::<u16>();
-        if col_index >= columns.len() as u16 {
-            panic!("column index out of range"); //TODO: handle this as an error
-        }
-        let column = columns.iter().find(|c| c.index() == col_index);
-        if column.is_none() {
-            panic!("column not found"); //TODO: handle this as an error
-        }
-        let column = column.unwrap();
+        let col_index = LittleEndian::read_u16(take(bytes, &mut offset, size_of::<u16>())?);
+        let column = columns
+            .iter()
+            .find(|c| c.index() == col_index)
+            .ok_or_else(|| Error::InvalidAttributeValue {
+                msg: format!("there is no column {col_index}"),
+            })?;
         match column.type_() {
             ColumnType::Int => {
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i32(
-                        &bytes[offset..offset + size_of::<i32>()],
+                        take(bytes, &mut offset, size_of::<i32>())?,
                     ))),
                 );
-                offset += size_of::<i32>();
             }
             ColumnType::UInt => {
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u32(
-                        &bytes[offset..offset + size_of::<u32>()],
+                        take(bytes, &mut offset, size_of::<u32>())?,
                     ))),
                 );
-                offset += size_of::<u32>();
             }
             ColumnType::Bool => {
                 map.insert(
                     column.name().to_string(),
-                    serde_json::Value::Bool(bytes[offset] != 0),
+                    serde_json::Value::Bool(take(bytes, &mut offset, 1)?[0] != 0),
                 );
-                offset += size_of::<u8>();
             }
             ColumnType::Byte => {
                 map.insert(
                     column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(bytes[offset] as i8)),
+                    serde_json::Value::Number(serde_json::Number::from(
+                        take(bytes, &mut offset, 1)?[0] as i8,
+                    )),
                 );
-                offset += size_of::<i8>();
             }
             ColumnType::UByte => {
                 map.insert(
                     column.name().to_string(),
-                    serde_json::Value::Number(serde_json::Number::from(bytes[offset])),
+                    serde_json::Value::Number(serde_json::Number::from(
+                        take(bytes, &mut offset, 1)?[0],
+                    )),
                 );
-                offset += size_of::<u8>();
             }
             ColumnType::Short => {
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i16(
-                        &bytes[offset..offset + size_of::<i16>()],
+                        take(bytes, &mut offset, size_of::<i16>())?,
                     ))),
                 );
-                offset += size_of::<i16>();
             }
             ColumnType::UShort => {
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u16(
-                        &bytes[offset..offset + size_of::<u16>()],
+                        take(bytes, &mut offset, size_of::<u16>())?,
                     ))),
                 );
-                offset += size_of::<u16>();
             }
             ColumnType::Long => {
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_i64(
-                        &bytes[offset..offset + size_of::<i64>()],
+                        take(bytes, &mut offset, size_of::<i64>())?,
                     ))),
                 );
-                offset += size_of::<i64>();
             }
             ColumnType::ULong => {
                 map.insert(
                     column.name().to_string(),
                     serde_json::Value::Number(serde_json::Number::from(LittleEndian::read_u64(
-                        &bytes[offset..offset + size_of::<u64>()],
+                        take(bytes, &mut offset, size_of::<u64>())?,
                     ))),
                 );
-                offset += size_of::<u64>();
             }
             ColumnType::Float => {
-                let f = LittleEndian::read_f32(&bytes[offset..offset + size_of::<f32>()]);
+                let f = LittleEndian::read_f32(take(bytes, &mut offset, size_of::<f32>())?);
                 if let Some(num) = serde_json::Number::from_f64(f as f64) {
                     map.insert(column.name().to_string(), serde_json::Value::Number(num));
                 }
-                offset += size_of::<f32>();
             }
             ColumnType::Double => {
-                let f = LittleEndian::read_f64(&bytes[offset..offset + size_of::<f64>()]);
+                let f = LittleEndian::read_f64(take(bytes, &mut offset, size_of::<f64>())?);
                 if let Some(num) = serde_json::Number::from_f64(f) {
                     map.insert(column.name().to_string(), serde_json::Value::Number(num));
                 }
-                offset += size_of::<f64>();
             }
             ColumnType::String | ColumnType::Binary => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
+                let len = LittleEndian::read_u32(take(bytes, &mut offset, size_of::<u32>())?);
+                let s = String::from_utf8(take(bytes, &mut offset, len as usize)?.to_vec())
                     .unwrap_or_default();
                 map.insert(column.name().to_string(), serde_json::Value::String(s));
-                offset += len as usize;
             }
             ColumnType::DateTime => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
+                let len = LittleEndian::read_u32(take(bytes, &mut offset, size_of::<u32>())?);
+                let s = String::from_utf8(take(bytes, &mut offset, len as usize)?.to_vec())
                     .unwrap_or_default();
                 map.insert(column.name().to_string(), serde_json::Value::String(s));
-                offset += len as usize;
             }
             ColumnType::Json => {
-                let len = LittleEndian::read_u32(&bytes[offset..offset + size_of::<u32>()]);
-                offset += size_of::<u32>();
-                let s = String::from_utf8(bytes[offset..offset + len as usize].to_vec())
+                let len = LittleEndian::read_u32(take(bytes, &mut offset, size_of::<u32>())?);
+                let s = String::from_utf8(take(bytes, &mut offset, len as usize)?.to_vec())
                     .unwrap_or_default();
-                map.insert(column.name().to_string(), serde_json::from_str(&s).unwrap());
-                offset += len as usize;
+                map.insert(column.name().to_string(), serde_json::from_str(&s)?);
             }
 
             // TODO: handle other column types
-            _ => unreachable!(),
+            _ => return Err(Error::UnsupportedColumnType(column.name().to_string())),
         }
     }
 
-    serde_json::Value::Object(map)
+    Ok(serde_json::Value::Object(map))
 }
 
 pub fn to_cj_feature(
@@ -448,12 +459,9 @@ pub fn to_cj_feature(
                     Some(all_geometries)
                 };
 
-                let attributes = if root_attr_schema.is_none() && co.columns().is_none() {
-                    None
-                } else {
-                    co.attributes().map(|a| {
-                        decode_attributes(&co.columns().unwrap_or(root_attr_schema.unwrap()), a)
-                    })
+                let attributes = match (co.columns().or(root_attr_schema), co.attributes()) {
+                    (Some(columns), Some(a)) => Some(try_decode_attributes(&columns, a)?),
+                    _ => None,
                 };
 
                 let children_roles = co
@@ -485,12 +493,32 @@ pub fn to_cj_feature(
         .map_or(Vec::new(), |v| to_cj_vertices(v.iter().collect()));
 
     // Decode appearance if present
-    cj.appearance = feature.appearance().map(|a| to_cj_appearance(&a));
+    cj.appearance = feature
+        .appearance()
+        .map(|a| to_cj_appearance(&a))
+        .transpose()?;
 
     Ok(cj) // Return Result
 }
 
-fn to_cj_appearance(appearance: &Appearance) -> CjAppearance {
+/// A color of the given number of elements
+fn to_cj_color<const N: usize>(
+    color: Option<flatbuffers::Vector<'_, f64>>,
+) -> Result<Option<[f64; N]>, Error> {
+    let Some(color) = color else {
+        return Ok(None);
+    };
+    let color: Vec<f64> = color.iter().collect();
+    let length = color.len();
+    match color.try_into() {
+        Ok(color) => Ok(Some(color)),
+        Err(_) => Err(Error::InvalidAttributeValue {
+            msg: format!("color must be a vector of {N} elements, found {length}"),
+        }),
+    }
+}
+
+fn to_cj_appearance(appearance: &Appearance) -> Result<CjAppearance, Error> {
     let mut cj_appearance = CjAppearance {
         materials: None,
         textures: None,
@@ -504,27 +532,18 @@ fn to_cj_appearance(appearance: &Appearance) -> CjAppearance {
         let cj_materials = materials
             .iter()
             .map(|m| {
-                // Helper function to convert color vectors
-                let convert_color = |color_opt: Option<flatbuffers::Vector<'_, f64>>| {
-                    color_opt.map(|c| {
-                        let color_vec: Vec<f64> = c.iter().collect();
-                        assert!(color_vec.len() == 3, "color must be a vector of 3 elements");
-                        [color_vec[0], color_vec[1], color_vec[2]]
-                    })
-                };
-
-                CjMaterial {
+                Ok(CjMaterial {
                     name: m.name().to_string(),
                     ambient_intensity: m.ambient_intensity(),
-                    diffuse_color: convert_color(m.diffuse_color()),
-                    emissive_color: convert_color(m.emissive_color()),
-                    specular_color: convert_color(m.specular_color()),
+                    diffuse_color: to_cj_color(m.diffuse_color())?,
+                    emissive_color: to_cj_color(m.emissive_color())?,
+                    specular_color: to_cj_color(m.specular_color())?,
                     shininess: m.shininess(),
                     transparency: m.transparency(),
                     is_smooth: m.is_smooth(),
-                }
+                })
             })
-            .collect();
+            .collect::<Result<_, Error>>()?;
 
         cj_appearance.materials = Some(cj_materials);
     }
@@ -534,7 +553,7 @@ fn to_cj_appearance(appearance: &Appearance) -> CjAppearance {
         let cj_textures = textures
             .iter()
             .map(|t| {
-                CjTexture {
+                Ok(CjTexture {
                     image: t.image().to_string(),
                     texture_format: match t.type_() {
                         TextureFormat::PNG => CjTextFormat::Png,
@@ -555,14 +574,10 @@ fn to_cj_appearance(appearance: &Appearance) -> CjAppearance {
                         TextureType::Typical => CjTextType::Typical,
                         _ => CjTextType::Unknown, // Default to Unknown
                     }),
-                    border_color: t.border_color().map(|c| {
-                        let color_vec: Vec<f64> = c.iter().collect();
-                        assert!(color_vec.len() == 4, "color must be a vector of 4 elements");
-                        [color_vec[0], color_vec[1], color_vec[2], color_vec[3]]
-                    }),
-                }
+                    border_color: to_cj_color(t.border_color())?,
+                })
             })
-            .collect::<Vec<_>>();
+            .collect::<Result<Vec<_>, Error>>()?;
 
         cj_appearance.textures = Some(cj_textures);
     }
@@ -586,7 +601,7 @@ fn to_cj_appearance(appearance: &Appearance) -> CjAppearance {
         cj_appearance.default_theme_material = Some(default_theme_material.to_string());
     }
 
-    cj_appearance
+    Ok(cj_appearance)
 }
 
 /// Adds or removes one outer level holding a single element, so that the values of a lone solid or
@@ -630,6 +645,7 @@ pub(crate) fn decode_geometry(
         .boundaries()
         .map(|v| v.iter().collect::<Vec<_>>())
         .unwrap_or_default();
+    check_nesting(&[&solids, &shells, &surfaces, &strings], indices.len())?;
     let boundaries = decode(&solids, &shells, &surfaces, &strings, &indices);
     // `decode` unwraps a lone solid, which is only right for a Solid
     let boundaries = match g.type_() {
@@ -643,21 +659,23 @@ pub(crate) fn decode_geometry(
     {
         let semantics_objects = semantics_objects.iter().collect::<Vec<_>>();
         let semantics = semantics.iter().collect::<Vec<_>>();
-        Some(decode_semantics(
+        Some(try_decode_semantics(
             &solids,
             &shells,
             g.type_(),
             semantics_objects,
             semantics,
             semantic_attr_schema,
-        ))
+        )?)
     } else {
         None
     };
 
     // Decode material mappings if present
     let mut material = if let Some(material_mappings) = g.material() {
-        decode_materials(&material_mappings.iter().collect::<Vec<_>>())
+        let material_mappings = material_mappings.iter().collect::<Vec<_>>();
+        check_materials(&material_mappings)?;
+        decode_materials(&material_mappings)
     } else {
         None
     };
@@ -671,7 +689,9 @@ pub(crate) fn decode_geometry(
 
     // Decode texture mappings if present
     let mut texture = if let Some(texture_mappings) = g.texture() {
-        decode_textures(&texture_mappings.iter().collect::<Vec<_>>())
+        let texture_mappings = texture_mappings.iter().collect::<Vec<_>>();
+        check_textures(&texture_mappings)?;
+        decode_textures(&texture_mappings)
     } else {
         None
     };
diff --git a/src/rust/fcb_core/src/reader/geom_decoder.rs b/src/rust/fcb_core/src/reader/geom_decoder.rs
index 4799eb9..efd0d45 100644
--- a/src/rust/fcb_core/src/reader/geom_decoder.rs
+++ b/src/rust/fcb_core/src/reader/geom_decoder.rs
@@ -11,7 +11,8 @@ use crate::{
 };
 use std::collections::HashMap;
 
-use super::deserializer::decode_attributes;
+use super::deserializer::try_decode_attributes;
+use crate::error::Error;
 
 /// For semantics decoding, we only care about solids and shells.
 /// We stop recursing at d <= 2 which are surfaces, rings and points (meaning we just return semantic_indices).
@@ -21,6 +22,50 @@ struct PartLists<'a> {
     starts: [usize; 5], // parallel "start" indices
 }
 
+/// Checks that each of the flattened arrays has the elements which the counts in the array before it
+/// call for, down to `leaves` elements. Arrays before the first one with elements are not in use.
+pub(crate) fn check_nesting(counts: &[&[u32]], leaves: usize) -> Result<(), Error> {
+    let counts = &counts[counts.iter().take_while(|c| c.is_empty()).count()..];
+    let lengths = counts.iter().skip(1).map(|c| c.len()).chain([leaves]);
+    for (counts, length) in counts.iter().zip(lengths) {
+        if counts.iter().map(|&c| u64::from(c)).sum::<u64>() > length as u64 {
+            return Err(Error::InvalidAttributeValue {
+                msg: "geometry refers to more elements than there are".to_string(),
+            });
+        }
+    }
+    Ok(())
+}
+
+/// Checks that the material mappings can be decoded by [`decode_materials`]
+pub(crate) fn check_materials(mappings: &[MaterialMapping]) -> Result<(), Error> {
+    let list = |v: Option<flatbuffers::Vector<'_, u32>>| v.iter().flatten().collect::<Vec<_>>();
+    for m in mappings {
+        let (solids, shells) = (list(m.solids()), list(m.shells()));
+        if !solids.is_empty() && !shells.is_empty() {
+            check_nesting(&[&solids, &shells], m.vertices().map_or(0, |v| v.len()))?;
+        }
+    }
+    Ok(())
+}
+
+/// Checks that the texture mappings can be decoded by [`decode_textures`]
+pub(crate) fn check_textures(mappings: &[TextureMapping]) -> Result<(), Error> {
+    let list = |v: Option<flatbuffers::Vector<'_, u32>>| v.iter().flatten().collect::<Vec<_>>();
+    for m in mappings {
+        check_nesting(
+            &[
+                &list(m.solids()),
+                &list(m.shells()),
+                &list(m.surfaces()),
+                &list(m.strings()),
+            ],
+            m.vertices().map_or(0, |v| v.len()),
+        )?;
+    }
+    Ok(())
+}
+
 /// Decodes the flattened arrays back into a nested CityJSON boundaries structure.
 ///
 /// Uses cursor indices to track position in each array while rebuilding the
@@ -175,7 +220,7 @@ pub(crate) fn decode(
 pub(crate) fn decode_semantics_surfaces(
     semantics_objects: &[SemanticObject],
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Vec<SemanticsSurface> {
+) -> Result<Vec<SemanticsSurface>, Error> {
     let surfaces = semantics_objects.iter().map(|s| {
         let surface_type_str = match s.type_() {
             // For extended semantic surfaces, use the extension_type
@@ -208,17 +253,19 @@ pub(crate) fn decode_semantics_surfaces(
         let children = s.children().map(|c| c.iter().collect::<Vec<_>>());
 
         let attributes = if let Some(schema) = &semantic_attr_schema {
-            s.attributes().map(|a| decode_attributes(schema, a))
+            s.attributes()
+                .map(|a| try_decode_attributes(schema, a))
+                .transpose()?
         } else {
             None
         };
 
-        SemanticsSurface {
+        Ok(SemanticsSurface {
             thetype: surface_type_str,
             parent: s.parent(),
             children,
             other: attributes,
-        }
+        })
     });
     surfaces.collect()
 }
@@ -330,15 +377,15 @@ fn decode_semantics_(
 /// # Returns
 ///
 /// Complete CityJSON semantics structure with surfaces and values
-pub(crate) fn decode_semantics(
+pub(crate) fn try_decode_semantics(
     solids: &[u32],
     shells: &[u32],
     geometry_type: GeometryType,
     semantics_objects: Vec<SemanticObject>,
     semantics_values: Vec<u32>,
     semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
-) -> Semantics {
-    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema);
+) -> Result<Semantics, Error> {
+    let surfaces = decode_semantics_surfaces(&semantics_objects, semantic_attr_schema)?;
 
     let mut part_lists = PartLists {
         solids,
@@ -363,18 +410,43 @@ pub(crate) fn decode_semantics(
         for &val in &semantics_values {
             leaf.push(if val == u32::MAX { None } else { Some(val) });
         }
-        return Semantics {
+        return Ok(Semantics {
             surfaces,
             values: SemanticsValues::Indices(leaf),
-        };
+        });
     }
 
+    if d == 4 {
+        check_nesting(&[solids], shells.len())?;
+    }
+    check_nesting(&[shells], semantics_values.len())?;
+
     let result = decode_semantics_(d, None, None, &mut part_lists, &semantics_values);
 
-    Semantics {
+    Ok(Semantics {
         surfaces,
         values: result,
-    }
+    })
+}
+
+#[cfg(test)]
+fn decode_semantics(
+    solids: &[u32],
+    shells: &[u32],
+    geometry_type: GeometryType,
+    semantics_objects: Vec<SemanticObject>,
+    semantics_values: Vec<u32>,
+    semantic_attr_schema: Option<flatbuffers::Vector<'_, flatbuffers::ForwardsUOffset<Column<'_>>>>,
+) -> Semantics {
+    try_decode_semantics(
+        solids,
+        shells,
+        geometry_type,
+        semantics_objects,
+        semantics_values,
+        semantic_attr_schema,
+    )
+    .expect("semantics are valid")
 }
 
 impl GeometryType {
-- 
2.43.0


From 5d6bf7448bd1ea830250dcdb1a817e8f0545f23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:30 +0000
Subject: [PATCH 45/63] fix: refuse feature positions out of range in a remote
 spatial index

---
 src/rust/fcb_core/src/packed_rtree/mod.rs   | 1 +
 src/rust/fcb_core/src/static_btree/stree.rs | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/rust/fcb_core/src/packed_rtree/mod.rs b/src/rust/fcb_core/src/packed_rtree/mod.rs
index 68d47e0..65fce10 100644
--- a/src/rust/fcb_core/src/packed_rtree/mod.rs
+++ b/src/rust/fcb_core/src/packed_rtree/mod.rs
@@ -271,6 +271,7 @@ fn feature_range(
         usize::try_from(offset)
             .ok()
             .and_then(|offset| feature_begin.checked_add(offset))
+            .filter(|position| *position <= isize::MAX as usize)
             .ok_or_else(|| Error::RTreeError(format!("invalid feature offset {offset}")))
     };
     let start = position(node_item.offset)?;
diff --git a/src/rust/fcb_core/src/static_btree/stree.rs b/src/rust/fcb_core/src/static_btree/stree.rs
index 1cca254..458e345 100644
--- a/src/rust/fcb_core/src/static_btree/stree.rs
+++ b/src/rust/fcb_core/src/static_btree/stree.rs
@@ -68,6 +68,7 @@ fn feature_position(feature_begin: usize, offset: Offset) -> Result<usize> {
     usize::try_from(offset)
         .ok()
         .and_then(|offset| feature_begin.checked_add(offset))
+        .filter(|position| *position <= isize::MAX as usize)
         .ok_or_else(|| Error::InvalidFormat(format!("invalid feature offset {offset}")))
 }
 
-- 
2.43.0


From 14ddb619435ce044b950ca8f5595fdb851e09128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:32 +0000
Subject: [PATCH 46/63] fix: build the attribute schema of the CLI from all
 features

---
 src/rust/cli/src/main.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index be68a3c..8cd2467 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -172,8 +172,8 @@ fn serialize(
 
     let attr_schema = {
         let mut schema = AttributeSchema::new();
-        // Limit to max 1000 features for schema building to have faster build time
-        for feature in filtered_features.iter().take(1000) {
+        // An attribute may be first used, or need a wider type, in any feature
+        for feature in filtered_features.iter() {
             for co in objects_by_id(feature) {
                 if let Some(attributes) = &co.attributes {
                     schema.add_attributes(attributes);
-- 
2.43.0


From e9f82622c209c6ce42dd41ff1a719063e48c5263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:50 +0000
Subject: [PATCH 47/63] fix: report a failed flush of the CLI's BSON output

---
 src/rust/cli/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 8cd2467..d2fda49 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -454,6 +454,7 @@ fn encode_bson(input: &str, output: &str) -> Result<(), Error> {
             format!("failed to encode to bson: {}", e),
         ))
     })?;
+    writer.flush()?;
 
     if output != "-" {
         eprintln!("successfully encoded to bson");
-- 
2.43.0


From eb8458eb6014ad396566296d8ec4506e96fd3ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:59 +0000
Subject: [PATCH 48/63] fix: accept bounding boxes that start with a negative
 number on the command line

---
 src/rust/cli/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index d2fda49..ef32136 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -54,7 +54,7 @@ enum Commands {
         attr_branching_factor: Option<u16>,
 
         /// Bounding box filter in format "minx,miny,maxx,maxy"
-        #[arg(short = 'b', long)]
+        #[arg(short = 'b', long, allow_hyphen_values = true)]
         bbox: Option<String>,
 
         /// Automatically calculate and set geospatial extent in header
-- 
2.43.0


From b45ae12bcd0b29a0cc1b1478effff069f34db63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:18 +0000
Subject: [PATCH 49/63] fix: keep the attributes of semantic surfaces of
 geometry templates

---
 src/rust/cli/src/main.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index ef32136..09c3d57 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -1,4 +1,4 @@
-use cjseq::{CityJSON, CityJSONFeature, CityObject, Transform as CjTransform};
+use cjseq::{CityJSON, CityJSONFeature, CityObject, Geometry, Transform as CjTransform};
 use clap::{Parser, Subcommand};
 use fcb_core::error::Error;
 use fcb_core::{
@@ -193,17 +193,16 @@ fn serialize(
             for co in objects_by_id(feature) {
                 if let Some(geometry) = &co.geometry {
                     for geom in geometry.iter() {
-                        if let Some(semantics) = geom.semantics.as_ref() {
-                            for sem_obj in semantics.surfaces.iter() {
-                                if let Some(other) = &sem_obj.other {
-                                    schema.add_attributes(other);
-                                }
-                            }
-                        }
+                        add_semantic_attributes(&mut schema, geom);
                     }
                 }
             }
         }
+        if let Some(templates) = &cj.geometry_templates {
+            for geom in templates.templates.iter() {
+                add_semantic_attributes(&mut schema, geom);
+            }
+        }
         if schema.is_empty() {
             None
         } else {
@@ -318,6 +317,17 @@ fn get_vertices_from_feature(feature: &CityJSONFeature, transform: &CjTransform)
     result
 }
 
+/// Adds the attributes of the semantic surfaces of a geometry to the schema
+fn add_semantic_attributes(schema: &mut AttributeSchema, geom: &Geometry) {
+    if let Some(semantics) = geom.semantics.as_ref() {
+        for sem_obj in semantics.surfaces.iter() {
+            if let Some(other) = &sem_obj.other {
+                schema.add_attributes(other);
+            }
+        }
+    }
+}
+
 /// The city objects of a feature in an order which does not change from run to run
 fn objects_by_id(feature: &CityJSONFeature) -> Vec<&CityObject> {
     let mut objects: Vec<_> = feature.city_objects.iter().collect();
-- 
2.43.0


From a07b2671f666dede6f23cbe5b23d36b33466f258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:21 +0000
Subject: [PATCH 50/63] fix: gather semantic attribute types twice so a widened
 type holds every earlier value

---
 src/rust/cli/src/main.rs | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/rust/cli/src/main.rs b/src/rust/cli/src/main.rs
index 09c3d57..c848a50 100644
--- a/src/rust/cli/src/main.rs
+++ b/src/rust/cli/src/main.rs
@@ -189,18 +189,22 @@ fn serialize(
 
     let semantic_attr_schema = {
         let mut schema = AttributeSchema::new();
-        for feature in filtered_features.iter() {
-            for co in objects_by_id(feature) {
-                if let Some(geometry) = &co.geometry {
-                    for geom in geometry.iter() {
-                        add_semantic_attributes(&mut schema, geom);
+        // A type may be widened to one which does not hold each of the earlier values: the
+        // second pass finds those
+        for _ in 0..2 {
+            for feature in filtered_features.iter() {
+                for co in objects_by_id(feature) {
+                    if let Some(geometry) = &co.geometry {
+                        for geom in geometry.iter() {
+                            add_semantic_attributes(&mut schema, geom);
+                        }
                     }
                 }
             }
-        }
-        if let Some(templates) = &cj.geometry_templates {
-            for geom in templates.templates.iter() {
-                add_semantic_attributes(&mut schema, geom);
+            if let Some(templates) = &cj.geometry_templates {
+                for geom in templates.templates.iter() {
+                    add_semantic_attributes(&mut schema, geom);
+                }
             }
         }
         if schema.is_empty() {
-- 
2.43.0


From 37451216a71160bc24de015c18d4dbb3ca97d530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:05 +0000
Subject: [PATCH 51/63] fix: empty lists amid boundaries and texture values are
 encoded at their own level

---
 src/rust/fcb_core/src/writer/geom_encoder.rs | 162 ++++++-------------
 1 file changed, 52 insertions(+), 110 deletions(-)

diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index 95ad34b..0b6c3bf 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -1,6 +1,6 @@
 use cjseq::{
     Boundaries as CjBoundaries, MaterialReference as CjMaterialReference,
-    MaterialValues as CjMaterialValues, Semantics as CjSemantics,
+    MaterialValues as CjMaterialValues, NestedArray as CjNestedArray, Semantics as CjSemantics,
     SemanticsSurface as CjSemanticsSurface, SemanticsValues as CjSemanticsValues,
     TextureReference as CjTextureReference, TextureValues as CjTextureValues,
 };
@@ -85,12 +85,13 @@ pub(crate) fn encode(
         indices: vec![],
     };
     // Encode the geometric boundaries
-    let _ = encode_boundaries(cj_boundaries, &mut boundaries);
+    let depth = nesting_depth(cj_boundaries);
+    encode_boundaries(cj_boundaries, depth, &mut boundaries);
 
     // Encode semantics if provided
     let semantics = semantics.map(|s| {
         encode_semantics(&CjSemantics {
-            values: expand_semantics_values(&s.values, cj_boundaries),
+            values: expand_semantics_values(&s.values, cj_boundaries, depth),
             surfaces: s.surfaces.clone(),
         })
     });
@@ -221,7 +222,8 @@ pub(crate) fn encode_texture(
         };
 
         // Process the texture values based on their structure
-        let _ = encode_texture_values(&texture.values, &mut texture_mapping);
+        let depth = nesting_depth(&texture.values);
+        encode_texture_values(&texture.values, depth, &mut texture_mapping);
 
         texture_mappings.push(texture_mapping);
     }
@@ -234,60 +236,30 @@ pub(crate) fn encode_texture(
 /// # Arguments
 ///
 /// * `values` - Reference to the texture values to encode.
+/// * `depth` - Nesting depth of the values, see [`encode_boundaries`].
 /// * `mapping` - Mutable reference to the TextureMapping struct to populate.
-///
-/// # Returns
-///
-/// The maximum depth encountered during encoding.
-fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping) -> usize {
-    match values {
-        // Leaf node (indices)
+fn encode_texture_values(values: &CjTextureValues, depth: usize, mapping: &mut TextureMapping) {
+    let length = match values {
         CjTextureValues::Indices(indices) => {
-            // Record the number of indices in this ring
-            mapping.strings.push(indices.len() as u32);
-
             // Convert indices to u32, replacing None with u32::MAX
             mapping
                 .vertices
                 .extend(indices.iter().map(|i| i.map_or(u32::MAX, |v| v as u32)));
-
-            // Return the current depth level (1 for rings)
-            1 // ring-level
+            indices.len()
         }
-        // Nested structure
         CjTextureValues::Nested(nested) => {
-            let mut max_depth = 0;
-
-            // Recursively encode each nested value and track the maximum depth
             for sub in nested {
-                let d = encode_texture_values(sub, mapping);
-                max_depth = max_depth.max(d);
+                encode_texture_values(sub, depth - 1, mapping);
             }
-
-            // Number of nested values at the current level
-            let length = nested.len();
-
-            // Interpret the `max_depth` to determine the current geometry type
-            match max_depth {
-                // max_depth = 1 indicates the children are rings, so this level represents surfaces
-                1 => {
-                    mapping.surfaces.push(length as u32);
-                }
-                // max_depth = 2 indicates the children are surfaces, so this level represents shells
-                2 => {
-                    mapping.shells.push(length as u32);
-                }
-                // max_depth = 3 indicates the children are shells, so this level represents solids
-                3 => {
-                    mapping.solids.push(length as u32);
-                }
-                // Any other depth is invalid and should be ignored
-                _ => {}
-            }
-
-            // Return the updated depth level
-            max_depth + 1
+            nested.len()
         }
+    };
+    match depth {
+        1 => mapping.strings.push(length as u32),
+        2 => mapping.surfaces.push(length as u32),
+        3 => mapping.shells.push(length as u32),
+        4 => mapping.solids.push(length as u32),
+        _ => {}
     }
 }
 
@@ -296,67 +268,34 @@ fn encode_texture_values(values: &CjTextureValues, mapping: &mut TextureMapping)
 /// # Arguments
 ///
 /// * `boundaries` - Reference to the CityJSON boundaries to encode.
-///
-/// # Returns
-///
-/// The maximum depth encountered during encoding.
-///
-/// # Panics
-///
-/// Panics if the `max_depth` is not 1, 2, or 3, indicating an invalid geometry nesting depth.
-fn encode_boundaries(boundaries: &CjBoundaries, wip_boundaries: &mut GMBoundaries) -> usize {
-    match boundaries {
-        // ------------------
-        // (1) Leaf (indices)
-        // ------------------
+/// * `depth` - Nesting depth of the boundaries: 1 for a ring, 2 for a surface and so on. An empty
+///   list has the depth of its siblings.
+fn encode_boundaries(boundaries: &CjBoundaries, depth: usize, wip_boundaries: &mut GMBoundaries) {
+    // Number of members at the current level
+    let length = match boundaries {
         CjBoundaries::Indices(indices) => {
             // Extend the flat list of indices with the current ring's indices
             wip_boundaries.indices.extend_from_slice(indices);
-
-            // Record the number of indices in the current ring
-            wip_boundaries.strings.push(indices.len() as u32);
-
-            // Return the current depth level (1 for rings)
-            1 // ring-level
+            indices.len()
         }
-        // ------------------
-        // (2) Nested
-        // ------------------
         CjBoundaries::Nested(sub_boundaries) => {
-            let mut max_depth = 0;
-
-            // Recursively encode each sub-boundary and track the maximum depth
             for sub in sub_boundaries {
-                let d = encode_boundaries(sub, wip_boundaries);
-                max_depth = max_depth.max(d);
-            }
-
-            // Number of sub-boundaries at the current level
-            let length = sub_boundaries.len();
-
-            // Interpret the `max_depth` to determine the current geometry type
-            match max_depth {
-                // max_depth = 1 indicates the children are rings, so this level represents surfaces
-                1 => {
-                    wip_boundaries.surfaces.push(length as u32);
-                }
-                // max_depth = 2 indicates the children are surfaces, so this level represents shells
-                2 => {
-                    // Push the number of surfaces in this shell
-                    wip_boundaries.shells.push(length as u32);
-                }
-                // max_depth = 3 indicates the children are shells, so this level represents solids
-                3 => {
-                    // Push the number of shells in this solid
-                    wip_boundaries.solids.push(length as u32);
-                }
-                // Any other depth is invalid and should panic
-                _ => {}
+                encode_boundaries(sub, depth - 1, wip_boundaries);
             }
-
-            // Return the updated depth level
-            max_depth + 1
+            sub_boundaries.len()
         }
+    };
+    match depth {
+        // Record the number of indices in this ring
+        1 => wip_boundaries.strings.push(length as u32),
+        // Record the number of rings in this surface
+        2 => wip_boundaries.surfaces.push(length as u32),
+        // Record the number of surfaces in this shell
+        3 => wip_boundaries.shells.push(length as u32),
+        // Record the number of shells in this solid
+        4 => wip_boundaries.solids.push(length as u32),
+        // The number of solids follows from the list of solids
+        _ => {}
     }
 }
 
@@ -424,6 +363,7 @@ pub(crate) fn encode_semantics(semantics: &CjSemantics) -> GMSemantics {
 fn expand_semantics_values(
     values: &CjSemanticsValues,
     boundaries: &CjBoundaries,
+    depth: usize,
 ) -> CjSemanticsValues {
     match (values, boundaries) {
         (CjSemanticsValues::Nested(vals), CjBoundaries::Nested(parts))
@@ -432,32 +372,34 @@ fn expand_semantics_values(
             CjSemanticsValues::Nested(
                 vals.iter()
                     .zip(parts)
-                    .map(|(v, b)| expand_semantics_values(v, b))
+                    .map(|(v, b)| expand_semantics_values(v, b, depth - 1))
                     .collect(),
             )
         }
         (CjSemanticsValues::Indices(indices), _) if indices.iter().all(Option::is_none) => {
-            CjSemanticsValues::Indices(vec![None; primitive_count(boundaries)])
+            CjSemanticsValues::Indices(vec![None; primitive_count(boundaries, depth)])
         }
         _ => values.clone(),
     }
 }
 
 /// Number of primitives (points, lines or surfaces) that carry one semantic value each.
-fn primitive_count(boundaries: &CjBoundaries) -> usize {
+fn primitive_count(boundaries: &CjBoundaries, depth: usize) -> usize {
     match boundaries {
         CjBoundaries::Indices(indices) => indices.len(),
-        CjBoundaries::Nested(parts) if boundary_depth(boundaries) > 3 => {
-            parts.iter().map(primitive_count).sum()
-        }
+        CjBoundaries::Nested(parts) if depth > 3 => parts
+            .iter()
+            .map(|part| primitive_count(part, depth - 1))
+            .sum(),
         CjBoundaries::Nested(parts) => parts.len(),
     }
 }
 
-fn boundary_depth(boundaries: &CjBoundaries) -> usize {
-    match boundaries {
-        CjBoundaries::Indices(_) => 1,
-        CjBoundaries::Nested(parts) => 1 + parts.iter().map(boundary_depth).max().unwrap_or(0),
+/// How deep the boundaries or values are nested: 1 for a plain list.
+fn nesting_depth<T>(values: &CjNestedArray<T>) -> usize {
+    match values {
+        CjNestedArray::Indices(_) => 1,
+        CjNestedArray::Nested(parts) => 1 + parts.iter().map(nesting_depth).max().unwrap_or(0),
     }
 }
 
-- 
2.43.0


From 4bb063d487db52a5ff25a8d158e3d1ae506db506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:13 +0000
Subject: [PATCH 52/63] fix: what the format cannot hold is refused with an
 error rather than a panic or damage

---
 src/rust/fcb_core/src/writer/check.rs        | 139 +++++++++++++++++++
 src/rust/fcb_core/src/writer/geom_encoder.rs |  15 +-
 src/rust/fcb_core/src/writer/mod.rs          |   3 +
 3 files changed, 156 insertions(+), 1 deletion(-)
 create mode 100644 src/rust/fcb_core/src/writer/check.rs

diff --git a/src/rust/fcb_core/src/writer/check.rs b/src/rust/fcb_core/src/writer/check.rs
new file mode 100644
index 0000000..f6b546b
--- /dev/null
+++ b/src/rust/fcb_core/src/writer/check.rs
@@ -0,0 +1,139 @@
+//! Checks that a dataset can be represented in the format, so that it is refused rather than damaged.
+
+use crate::cjerror::CjError;
+use crate::error::{Error, Result};
+use crate::writer::geom_encoder::{missing_semantics_values, nesting_depth};
+use cjseq::{
+    Boundaries as CjBoundaries, CityJSON, CityJSONFeature, Geometry as CjGeometry,
+    GeometryType as CjGeometryType, NestedArray as CjNestedArray,
+};
+
+fn invalid(msg: impl Into<String>) -> Error {
+    Error::CityJson {
+        source: CjError::InvalidGeometry { msg: msg.into() },
+    }
+}
+
+/// The transform has a scale and a translation for each axis, and the templates can be encoded
+pub(super) fn check_header(cj: &CityJSON) -> Result<()> {
+    if cj.transform.scale.len() != 3 || cj.transform.translate.len() != 3 {
+        return Err(invalid("a transform needs three scales and translations"));
+    }
+    for template in cj.geometry_templates.iter().flat_map(|t| &t.templates) {
+        if let CjGeometryType::GeometryInstance = template.thetype {
+            return Err(invalid("a template cannot be a geometry instance"));
+        }
+        check_geometry(template)?;
+    }
+    Ok(())
+}
+
+/// The vertices are three 32-bit integers each, and the geometries can be encoded
+pub(super) fn check_feature(feature: &CityJSONFeature) -> Result<()> {
+    for vertex in &feature.vertices {
+        if vertex.len() != 3 || vertex.iter().any(|&c| i32::try_from(c).is_err()) {
+            return Err(invalid(format!(
+                "vertex {vertex:?} is not made of three 32-bit integers"
+            )));
+        }
+    }
+    feature
+        .city_objects
+        .values()
+        .filter_map(|object| object.geometry.as_ref())
+        .flatten()
+        .try_for_each(check_geometry)
+}
+
+fn check_geometry(geometry: &CjGeometry) -> Result<()> {
+    let depth = match geometry.thetype {
+        CjGeometryType::GeometryInstance => return check_geometry_instance(geometry),
+        CjGeometryType::MultiPoint => 1,
+        CjGeometryType::MultiLineString => 2,
+        CjGeometryType::MultiSurface | CjGeometryType::CompositeSurface => 3,
+        CjGeometryType::Solid => 4,
+        CjGeometryType::MultiSolid | CjGeometryType::CompositeSolid => 5,
+    };
+    if !has_depth(&geometry.boundaries, depth) {
+        return Err(invalid(format!(
+            "the boundaries of a {:?} have to be nested {depth} deep",
+            geometry.thetype
+        )));
+    }
+    // the greatest index stands for null
+    let fits = |index: &usize| u32::try_from(*index).is_ok_and(|index| index < u32::MAX);
+    let materials_fit = geometry.material.iter().flatten().all(|(_, material)| {
+        material.value.iter().all(fits)
+            && material
+                .values
+                .iter()
+                .all(|values| all_values(values, &fits))
+    });
+    let textures_fit = geometry
+        .texture
+        .iter()
+        .flatten()
+        .all(|(_, texture)| all_values(&texture.values, &fits));
+    let semantics_fit = geometry
+        .semantics
+        .iter()
+        .all(|semantics| all_values(&semantics.values, &|index| *index < u32::MAX));
+    if !(materials_fit && textures_fit && semantics_fit) {
+        return Err(invalid("an index does not fit into 32 bits"));
+    }
+    let mut materials = geometry.material.iter().flatten();
+    let mut textures = geometry.texture.iter().flatten();
+    if !(materials.all(|(_, m)| m.values.iter().all(|values| is_even(values, 3)))
+        && textures.all(|(_, t)| is_even(&t.values, 5)))
+    {
+        return Err(invalid(
+            "the material or texture values are not all nested equally deep",
+        ));
+    }
+    if let (Some(semantics), 4..) = (&geometry.semantics, depth) {
+        if missing_semantics_values(&semantics.values, &geometry.boundaries) {
+            return Err(invalid("there are surfaces without a semantic value"));
+        }
+    }
+    Ok(())
+}
+
+fn check_geometry_instance(geometry: &CjGeometry) -> Result<()> {
+    let template_fits = geometry
+        .template
+        .is_some_and(|template| u32::try_from(template).is_ok());
+    if !template_fits || geometry.transformation_matrix.is_none() {
+        return Err(invalid(
+            "a geometry instance needs a template and a transformation matrix",
+        ));
+    }
+    match &geometry.boundaries {
+        CjBoundaries::Indices(indices) if indices.len() == 1 => Ok(()),
+        _ => Err(invalid(
+            "a geometry instance has exactly one boundary index",
+        )),
+    }
+}
+
+/// Whether the indices are found `depth` levels down; an empty list may take the place of any level
+fn has_depth<T>(values: &CjNestedArray<T>, depth: usize) -> bool {
+    match values {
+        CjNestedArray::Indices(indices) => depth == 1 || indices.is_empty(),
+        CjNestedArray::Nested(parts) => {
+            depth > 1 && parts.iter().all(|part| has_depth(part, depth - 1))
+        }
+    }
+}
+
+/// Whether all values are found at the same level, which is at most `max_depth`
+fn is_even<T>(values: &CjNestedArray<T>, max_depth: usize) -> bool {
+    let depth = nesting_depth(values);
+    depth <= max_depth && has_depth(values, depth)
+}
+
+fn all_values<T>(values: &CjNestedArray<Option<T>>, fits: &impl Fn(&T) -> bool) -> bool {
+    match values {
+        CjNestedArray::Indices(indices) => indices.iter().flatten().all(fits),
+        CjNestedArray::Nested(parts) => parts.iter().all(|part| all_values(part, fits)),
+    }
+}
diff --git a/src/rust/fcb_core/src/writer/geom_encoder.rs b/src/rust/fcb_core/src/writer/geom_encoder.rs
index 0b6c3bf..4b81e18 100644
--- a/src/rust/fcb_core/src/writer/geom_encoder.rs
+++ b/src/rust/fcb_core/src/writer/geom_encoder.rs
@@ -395,8 +395,21 @@ fn primitive_count(boundaries: &CjBoundaries, depth: usize) -> usize {
     }
 }
 
+/// Whether there are fewer semantic values than primitives.
+pub(super) fn missing_semantics_values(
+    values: &CjSemanticsValues,
+    boundaries: &CjBoundaries,
+) -> bool {
+    let depth = nesting_depth(boundaries);
+    let mut flattened = Vec::new();
+    encode_semantics_values(
+        &expand_semantics_values(values, boundaries, depth),
+        &mut flattened,
+    ) < primitive_count(boundaries, depth)
+}
+
 /// How deep the boundaries or values are nested: 1 for a plain list.
-fn nesting_depth<T>(values: &CjNestedArray<T>) -> usize {
+pub(super) fn nesting_depth<T>(values: &CjNestedArray<T>) -> usize {
     match values {
         CjNestedArray::Indices(_) => 1,
         CjNestedArray::Nested(parts) => 1 + parts.iter().map(nesting_depth).max().unwrap_or(0),
diff --git a/src/rust/fcb_core/src/writer/mod.rs b/src/rust/fcb_core/src/writer/mod.rs
index 70d67af..ff95c64 100644
--- a/src/rust/fcb_core/src/writer/mod.rs
+++ b/src/rust/fcb_core/src/writer/mod.rs
@@ -13,6 +13,7 @@ use std::fs::File;
 use std::io::{BufReader, BufWriter, Read, Seek, SeekFrom, Write};
 mod attr_index;
 pub mod attribute;
+mod check;
 pub mod error;
 pub mod feature_writer;
 pub mod geom_encoder;
@@ -66,6 +67,7 @@ impl<'a> FcbWriter<'a> {
         attr_schema: Option<AttributeSchema>,
         semantic_attr_schema: Option<AttributeSchema>,
     ) -> Result<Self> {
+        check::check_header(&cj)?;
         let attr_schema = attr_schema.unwrap_or_default();
 
         let transform = cj.transform.clone();
@@ -159,6 +161,7 @@ impl<'a> FcbWriter<'a> {
     ///
     /// A Result indicating success or failure of the operation
     pub fn add_feature(&mut self, feature: &'a CityJSONFeature) -> Result<()> {
+        check::check_feature(feature)?;
         if self.feat_writer.is_none() {
             self.feat_writer = Some(FeatureWriter::new(
                 feature,
-- 
2.43.0


From 53d5aa6fed927e59405c3170f0fac45445e8b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:04 +0000
Subject: [PATCH 53/63] fix: a stream query restores the reader's position also
 when nothing matches

---
 src/rust/fcb_core/src/static_btree/query/stream.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/rust/fcb_core/src/static_btree/query/stream.rs b/src/rust/fcb_core/src/static_btree/query/stream.rs
index 0fae877..e9e7888 100644
--- a/src/rust/fcb_core/src/static_btree/query/stream.rs
+++ b/src/rust/fcb_core/src/static_btree/query/stream.rs
@@ -425,11 +425,11 @@ impl StreamMultiIndex {
         reader.seek(SeekFrom::Start(start_position + index_range.start as u64))?;
 
         let mut result_set = indexer.execute_query_condition(reader, first)?;
+        // set cursor to the start of the index
+        reader.seek(SeekFrom::Start(start_position))?;
         if result_set.is_empty() {
             return Ok(vec![]);
         }
-        // set cursor to the start of the index
-        reader.seek(SeekFrom::Start(start_position))?;
 
         for cond in &conditions[1..] {
             let start_position = reader.stream_position()?;
@@ -444,11 +444,11 @@ impl StreamMultiIndex {
             reader.seek(SeekFrom::Start(index_start))?;
             let condition_results = indexer.execute_query_condition(reader, cond)?;
             result_set.retain(|offset| condition_results.contains(offset));
+            // set cursor to the start of the index
+            reader.seek(SeekFrom::Start(start_position))?;
             if result_set.is_empty() {
                 return Ok(vec![]); // no results found for this condition, return early so we don't waste time intersecting empty sets
             }
-            // set cursor to the start of the index
-            reader.seek(SeekFrom::Start(start_position))?;
         }
         // set cursor to the start of the index
         reader.seek(SeekFrom::Start(start_position))?;
-- 
2.43.0


From e82f0e0c28ed31b7d4d9fbbf61b929302c2b8522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:16 +0000
Subject: [PATCH 54/63] fix: stats reported NaN as the mean feature size of an
 empty file

---
 src/rust/fcb_core/src/bin/stats.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/bin/stats.rs b/src/rust/fcb_core/src/bin/stats.rs
index b1301ec..141674d 100644
--- a/src/rust/fcb_core/src/bin/stats.rs
+++ b/src/rust/fcb_core/src/bin/stats.rs
@@ -134,7 +134,11 @@ fn analyze_fcb(path: &Path) -> Result<(u64, usize, usize, usize, usize, f64)> {
             break;
         }
     }
-    let avg_feature_size = total_feature_size as f64 / feature_count as f64;
+    let avg_feature_size = if feature_count > 0 {
+        total_feature_size as f64 / feature_count as f64
+    } else {
+        0.0
+    };
 
     Ok((
         feature_count,
-- 
2.43.0


From 7529d952bf354fb9b6389c3e87cf517bbe5f95ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:19 +0000
Subject: [PATCH 55/63] fix: stats -f csv named twelve columns and wrote
 fourteen

---
 src/rust/fcb_core/src/bin/stats.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/bin/stats.rs b/src/rust/fcb_core/src/bin/stats.rs
index 141674d..668450e 100644
--- a/src/rust/fcb_core/src/bin/stats.rs
+++ b/src/rust/fcb_core/src/bin/stats.rs
@@ -435,7 +435,7 @@ fn output_table(stats: &[FileStats]) {
 }
 
 fn output_csv(stats: &[FileStats]) -> Result<()> {
-    println!("city,fcb_size,jsonl_size,compression,features,city_objects,vertices,vertices_per_object,attributes,avg_fcb_feature_size,avg_jsonl_feature_size,feature_compression");
+    println!("city,fcb_size,jsonl_size,compression,features,city_objects,vertices,vertices_per_object,vertices_per_feature,attributes,semantic_attributes,avg_fcb_feature_size,avg_jsonl_feature_size,feature_compression");
 
     for stat in stats {
         println!(
-- 
2.43.0


From 3bfe6fbe03cc0da650de05bee1f72094182c5f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:22 +0000
Subject: [PATCH 56/63] fix: stats mixed progress and warnings into the report
 on standard output

---
 src/rust/fcb_core/src/bin/stats.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/rust/fcb_core/src/bin/stats.rs b/src/rust/fcb_core/src/bin/stats.rs
index 668450e..45ac280 100644
--- a/src/rust/fcb_core/src/bin/stats.rs
+++ b/src/rust/fcb_core/src/bin/stats.rs
@@ -74,7 +74,7 @@ fn format_size(size_bytes: u64) -> String {
 
 /// Calculate statistics for an FCB file
 fn analyze_fcb(path: &Path) -> Result<(u64, usize, usize, usize, usize, f64)> {
-    println!("analyzing fcb file: {}", path.display());
+    eprintln!("analyzing fcb file: {}", path.display());
 
     let file = File::open(path).context("failed to open fcb file")?;
     let file_size = file.metadata().context("failed to get fcb metadata")?.len();
@@ -152,7 +152,7 @@ fn analyze_fcb(path: &Path) -> Result<(u64, usize, usize, usize, usize, f64)> {
 
 /// Analyze CityJSONSeq file to determine file size and average feature size
 fn analyze_jsonl(path: &Path) -> Result<(u64, f64)> {
-    println!("analyzing jsonl file: {}", path.display());
+    eprintln!("analyzing jsonl file: {}", path.display());
 
     let file = File::open(path).context("failed to open jsonl file")?;
     let file_size = file
@@ -259,7 +259,7 @@ fn find_dataset_pairs(
             if alt_jsonl_path.exists() {
                 pairs.push((fcb_path, alt_jsonl_path, city_name));
             } else {
-                println!("warning: no matching jsonl file found for {}", city_name);
+                eprintln!("warning: no matching jsonl file found for {}", city_name);
             }
         }
     }
@@ -281,16 +281,16 @@ fn main() -> Result<()> {
     // Find all pairs of FCB and JSONL files
     let pairs = find_dataset_pairs(&args.dir, args.recursive, filter_cities.as_ref())?;
     if pairs.is_empty() {
-        println!("no matching dataset pairs found in {}", args.dir.display());
+        eprintln!("no matching dataset pairs found in {}", args.dir.display());
         return Ok(());
     }
 
-    println!("found {} dataset pairs", pairs.len());
+    eprintln!("found {} dataset pairs", pairs.len());
 
     // Analyze each pair
     let mut stats = Vec::new();
     for (fcb_path, jsonl_path, city_name) in pairs {
-        println!("processing city: {}", city_name);
+        eprintln!("processing city: {}", city_name);
 
         // Analyze FCB file
         let (
@@ -303,7 +303,7 @@ fn main() -> Result<()> {
         ) = match analyze_fcb(&fcb_path) {
             Ok(stats) => stats,
             Err(e) => {
-                println!("error analyzing {}: {}", fcb_path.display(), e);
+                eprintln!("error analyzing {}: {}", fcb_path.display(), e);
                 continue;
             }
         };
@@ -313,12 +313,12 @@ fn main() -> Result<()> {
             Ok(file) => match file.metadata() {
                 Ok(metadata) => metadata.len(),
                 Err(e) => {
-                    println!("error getting metadata for {}: {}", fcb_path.display(), e);
+                    eprintln!("error getting metadata for {}: {}", fcb_path.display(), e);
                     continue;
                 }
             },
             Err(e) => {
-                println!("error opening {}: {}", fcb_path.display(), e);
+                eprintln!("error opening {}: {}", fcb_path.display(), e);
                 continue;
             }
         };
@@ -326,7 +326,7 @@ fn main() -> Result<()> {
         let (jsonl_file_size, avg_cjseq_feature_size) = match analyze_jsonl(&jsonl_path) {
             Ok((size, avg)) => (size, avg),
             Err(e) => {
-                println!("error analyzing {}: {}", jsonl_path.display(), e);
+                eprintln!("error analyzing {}: {}", jsonl_path.display(), e);
                 continue;
             }
         };
-- 
2.43.0


From dd2355499009271b43dc16dcacbca525f540205b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:30 +0000
Subject: [PATCH 57/63] fix: browser reader searches the spatial index with the
 node size the header states

---
 src/rust/wasm/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 883f17d..0c46795 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -269,7 +269,7 @@ mod wasm {
                 header_len,
                 attr_index_size,
                 count,
-                PackedRTree::DEFAULT_NODE_SIZE,
+                header.index_node_size(),
                 inner_query,
                 combine_request_threshold,
             )
-- 
2.43.0


From e77206619c66d20c2e734de57fa0b2794e7194d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:33 +0000
Subject: [PATCH 58/63] fix: browser reader reads the index of a 64-bit integer
 column

---
 src/rust/wasm/src/lib.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 0c46795..92eb2b5 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -500,6 +500,16 @@ mod wasm {
                         );
                         multi_index.add_index(col.name().to_string(), index);
                     }
+                    ColumnType::Long => {
+                        let index = HttpIndex::<i64>::new(
+                            attr_info.num_unique_items() as usize,
+                            attr_info.branching_factor(),
+                            index_begin,
+                            feature_begin,
+                            combine_request_threshold,
+                        );
+                        multi_index.add_index(col.name().to_string(), index);
+                    }
                     ColumnType::Byte => {
                         let index = HttpIndex::<i8>::new(
                             attr_info.num_unique_items() as usize,
-- 
2.43.0


From c343410afc2b07deafb60685aee3c1d997ae65c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:35 +0000
Subject: [PATCH 59/63] fix: browser reader delivers a feature once when
 several of its objects match

---
 src/rust/wasm/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 92eb2b5..dcc46b0 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -346,11 +346,15 @@ mod wasm {
             }
             info!("current index begin: {}", current_index_begin);
             // self.client.set_min_req_size(combine_request_threshold);
-            let result = http_multi_index
+            let mut result = http_multi_index
                 .query(&mut self.client, &query.conditions)
                 .await
                 .map_err(|e| JsValue::from_str(&format!("failed to query index: {:?}", e)))?;
 
+            result.sort_by_key(|item| item.range.start());
+            // several objects of a feature may match
+            result.dedup();
+
             info!("result: {:?}", result);
             let count = result.len();
 
-- 
2.43.0


From 2baed423ec094ec504387566f97e3f1c161c5c1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:37 +0000
Subject: [PATCH 60/63] fix: browser reader takes query keys in the type of
 their column

---
 src/rust/wasm/src/lib.rs | 53 ++++++++++++++++++++++++++++++++++------
 1 file changed, 46 insertions(+), 7 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index dcc46b0..6586309 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -324,8 +324,16 @@ mod wasm {
                 .collect();
             attr_index_entries.sort_by_key(|attr_info| attr_info.index());
 
-            // Build the query
-            let query = build_query(&query.inner);
+            // Build the query, with the keys of the type of their columns
+            let mut inner: AttrQuery = Vec::new();
+            for (field, operator, key) in query.inner.iter() {
+                let key = match columns.iter().find(|col| col.name() == field) {
+                    Some(col) => key_for_column(key, col)?,
+                    None => key.clone(),
+                };
+                inner.push((field.clone(), *operator, key));
+            }
+            let query = build_query(&inner);
 
             // Create a StreamableMultiIndex from HTTP range requests
             let mut http_multi_index = HttpMultiIndex::new();
@@ -1037,6 +1045,40 @@ mod wasm {
             .ok_or_else(|| JsValue::from_str(&format!("'{}' must be a number", property)))
     }
 
+    /// All JS numbers are f64: give one the type of the column it is compared with.
+    fn key_for_column(key: &KeyType, col: &Column) -> Result<KeyType, JsValue> {
+        let KeyType::Float64(Float(n)) = key else {
+            return Ok(key.clone());
+        };
+        let n = *n;
+        // `as` saturates, and 2^63 and 2^64 are what the largest integers are rounded to
+        macro_rules! integer {
+            ($type:ty, $variant:ident) => {{
+                let i = n as $type;
+                if i as f64 != n || n >= 9223372036854775808.0 && i == <$type>::MAX {
+                    return Err(JsValue::from_str(&format!(
+                        "{n} is not a value of column '{}' of type {:?}",
+                        col.name(),
+                        col.type_()
+                    )));
+                }
+                KeyType::$variant(i)
+            }};
+        }
+        Ok(match col.type_() {
+            ColumnType::Byte => integer!(i8, Int8),
+            ColumnType::UByte => integer!(u8, UInt8),
+            ColumnType::Short => integer!(i16, Int16),
+            ColumnType::UShort => integer!(u16, UInt16),
+            ColumnType::Int => integer!(i32, Int32),
+            ColumnType::UInt => integer!(u32, UInt32),
+            ColumnType::Long => integer!(i64, Int64),
+            ColumnType::ULong => integer!(u64, UInt64),
+            ColumnType::Float => KeyType::Float32(Float(n as f32)),
+            _ => key.clone(),
+        })
+    }
+
     /// A wasm‑friendly wrapper over `AttrQuery`, which is defined as:
     /// `pub type AttrQuery = Vec<(String, Operator, )>;`
     #[wasm_bindgen]
@@ -1108,11 +1150,8 @@ mod wasm {
                     // All JS numbers are f64.
                     KeyType::Float64(Float(n))
                 } else if let Some(s) = value_js.as_string() {
-                    if s.len() > 50 {
-                        KeyType::StringKey100(FixedStringKey::<100>::from_str(&s))
-                    } else {
-                        KeyType::StringKey50(FixedStringKey::<50>::from_str(&s))
-                    }
+                    // the indexes of string columns have keys of 50 bytes
+                    KeyType::StringKey50(FixedStringKey::<50>::from_str(&s))
                 } else {
                     return Err(JsValue::from_str("Unsupported value type in query tuple"));
                 };
-- 
2.43.0


From db81ab96b3f6963588ee892de460bb8ced83b9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:40 +0000
Subject: [PATCH 61/63] fix: browser reader takes dates before 1970 and refuses
 invalid ones

---
 src/rust/wasm/src/lib.rs | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 6586309..1e2fc69 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -18,7 +18,7 @@ mod wasm {
 
     use byteorder::{ByteOrder, LittleEndian};
     use bytes::{BufMut, Bytes, BytesMut};
-    use chrono::{DateTime, NaiveDateTime, Utc};
+    use chrono::{DateTime, Utc};
     use fcb_core::city_buffer::FcbBuffer;
     use fcb_core::{
         build_query, check_magic_bytes,
@@ -1138,13 +1138,13 @@ mod wasm {
                     // If boolean then use Bool
                     KeyType::Bool(b)
                 } else if value_js.is_instance_of::<js_sys::Date>() {
-                    // If a JS Date, convert to milliseconds then to a NaiveDateTime.
+                    // If a JS Date, convert its milliseconds, which are NaN for an invalid one.
                     let date: js_sys::Date = value_js.unchecked_into();
                     let millis = date.get_time();
-                    let secs = (millis / 1000.0) as i64;
-                    let nanos = ((millis % 1000.0) * 1_000_000.0) as u32;
-                    let ndt = NaiveDateTime::from_timestamp(secs, nanos);
-                    let dt = DateTime::<Utc>::from_utc(ndt, Utc);
+                    let dt = (!millis.is_nan())
+                        .then(|| DateTime::<Utc>::from_timestamp_millis(millis as i64))
+                        .flatten()
+                        .ok_or_else(|| JsValue::from_str("Invalid Date in query tuple"))?;
                     KeyType::DateTime(dt)
                 } else if let Some(n) = value_js.as_f64() {
                     // All JS numbers are f64.
-- 
2.43.0


From bf9ec854c3281638911cace8a62e5f81ef970d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:47 +0000
Subject: [PATCH 62/63] fix: browser reader reports short and failed reads
 instead of losing features

---
 src/rust/fcb_core/src/http_range.rs |   2 +-
 src/rust/fcb_core/src/lib.rs        |   2 +-
 src/rust/fcb_core/src/reader/mod.rs |   2 +-
 src/rust/wasm/src/lib.rs            | 128 +++++++++++-----------------
 4 files changed, 51 insertions(+), 83 deletions(-)

diff --git a/src/rust/fcb_core/src/http_range.rs b/src/rust/fcb_core/src/http_range.rs
index e05fbbb..2ebc019 100644
--- a/src/rust/fcb_core/src/http_range.rs
+++ b/src/rust/fcb_core/src/http_range.rs
@@ -4,7 +4,7 @@ use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, Http
 ///
 /// `AsyncBufferedHttpRangeClient::get_range` returns fewer bytes when the response is shorter
 /// than the request, which is an error for data that has to be there.
-pub(crate) async fn get_range_exact<T: AsyncHttpRangeClient>(
+pub async fn get_range_exact<T: AsyncHttpRangeClient>(
     client: &mut AsyncBufferedHttpRangeClient<T>,
     begin: usize,
     length: usize,
diff --git a/src/rust/fcb_core/src/lib.rs b/src/rust/fcb_core/src/lib.rs
index eef6100..9cf78e5 100644
--- a/src/rust/fcb_core/src/lib.rs
+++ b/src/rust/fcb_core/src/lib.rs
@@ -33,7 +33,7 @@ pub mod fb;
 #[cfg(all(feature = "http", not(target_arch = "wasm32")))]
 mod http_reader;
 #[cfg(feature = "http")]
-mod http_range;
+pub mod http_range;
 
 pub mod packed_rtree;
 mod reader;
diff --git a/src/rust/fcb_core/src/reader/mod.rs b/src/rust/fcb_core/src/reader/mod.rs
index 19391cb..563ee0c 100644
--- a/src/rust/fcb_core/src/reader/mod.rs
+++ b/src/rust/fcb_core/src/reader/mod.rs
@@ -276,7 +276,7 @@ impl<R: Read> FcbReader<R> {
 }
 
 /// Check the values of a header which determine where the parts of the file are
-pub(crate) fn check_header(header: &Header) -> Result<(), Error> {
+pub fn check_header(header: &Header) -> Result<(), Error> {
     let invalid = |msg: String| Err(Error::InvalidHeader(msg));
     if header.index_node_size() > 0 && header.features_count() > 0 {
         if header.index_node_size() < 2 {
diff --git a/src/rust/wasm/src/lib.rs b/src/rust/wasm/src/lib.rs
index 1e2fc69..90b32f5 100644
--- a/src/rust/wasm/src/lib.rs
+++ b/src/rust/wasm/src/lib.rs
@@ -21,24 +21,23 @@ mod wasm {
     use chrono::{DateTime, Utc};
     use fcb_core::city_buffer::FcbBuffer;
     use fcb_core::{
-        build_query, check_magic_bytes,
+        build_query, check_header, check_magic_bytes,
         deserializer::{to_cj_feature, to_cj_metadata},
         fb::*,
+        http_range::get_range_exact,
         size_prefixed_root_as_city_feature, AttrQuery, HEADER_MAX_BUFFER_SIZE, HEADER_SIZE_SIZE,
         MAGIC_BYTES_SIZE,
     };
 
-    use std::fmt::Error;
     use std::result::Result;
     use std::sync::atomic::{AtomicBool, Ordering};
 
-    use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient};
+    use http_range_client::{AsyncBufferedHttpRangeClient, AsyncHttpRangeClient, HttpError};
 
     use fcb_core::packed_rtree::{
         http::HttpRange, http::HttpSearchResultItem, NodeItem, PackedRTree, Query as SpatialQuery,
     };
     use std::collections::VecDeque;
-    use std::ops::Range;
 
     // The largest request we'll speculatively make.
     // If a single huge feature requires, we'll necessarily exceed this limit.
@@ -114,8 +113,7 @@ mod wasm {
             client.set_min_req_size(min_req_size);
             debug!("fetching header. min_req_size: {min_req_size} (assumed_header_size: {assumed_header_size}, prefetched_index_bytes: {prefetch_index_bytes})");
             let mut read_bytes = 0;
-            let bytes = client
-                .get_range(read_bytes, MAGIC_BYTES_SIZE)
+            let bytes = get_range_exact(&mut client, read_bytes, MAGIC_BYTES_SIZE)
                 .await
                 .map_err(|e| JsValue::from_str(&e.to_string()))?; // to get magic bytes
             if !check_magic_bytes(bytes) {
@@ -124,8 +122,7 @@ mod wasm {
 
             read_bytes += MAGIC_BYTES_SIZE;
             let mut bytes = BytesMut::from(
-                client
-                    .get_range(read_bytes, HEADER_SIZE_SIZE)
+                get_range_exact(&mut client, read_bytes, HEADER_SIZE_SIZE)
                     .await
                     .map_err(|e| JsValue::from_str(&e.to_string()))?,
             );
@@ -140,8 +137,7 @@ mod wasm {
             }
 
             bytes.put(
-                client
-                    .get_range(read_bytes, header_size)
+                get_range_exact(&mut client, read_bytes, header_size)
                     .await
                     .map_err(|e| JsValue::from_str(&e.to_string()))?,
             );
@@ -151,6 +147,7 @@ mod wasm {
             // verify flatbuffer
             let header = size_prefixed_root_as_header(&header_buf)
                 .map_err(|e| JsValue::from_str(&e.to_string()))?;
+            check_header(&header).map_err(|e| JsValue::from_str(&e.to_string()))?;
             debug!("completed: opening http reader");
             Ok(HttpFcbReader {
                 client,
@@ -275,12 +272,6 @@ mod wasm {
             )
             .await
             .map_err(|e| JsValue::from_str(&e.to_string()))?;
-            debug_assert!(
-                list.windows(2)
-                    .all(|w| w[0].range.start() < w[1].range.start()),
-                "Since the tree is traversed breadth first, list should be sorted by construction."
-            );
-
             let count = list.len();
             let feature_batches = FeatureBatch::make_batches(list, combine_request_threshold)
                 .await
@@ -587,23 +578,20 @@ mod wasm {
                 return Ok(None);
             };
 
-            // Not zero-copy
-            self.fbs.features_buf = buffer.to_vec();
             // verify flatbuffer
-            let feature = size_prefixed_root_as_city_feature(&self.fbs.features_buf)
+            size_prefixed_root_as_city_feature(&buffer)
                 .map_err(|e| JsValue::from_str(&e.to_string()))?;
-            let cj_feature = to_cj_feature(
-                feature,
-                self._header().columns(),
-                self._header().semantic_columns(),
-            )
-            .map_err(|e| JsValue::from_str(&e.to_string()))?;
+            // Not zero-copy
+            self.fbs.features_buf = buffer.to_vec();
 
-            Ok(Some(to_value(&cj_feature)?))
+            Ok(Some(self.cur_cj_feature()?))
         }
 
         #[wasm_bindgen]
         pub fn cur_cj_feature(&self) -> Result<JsValue, JsValue> {
+            if self.fbs.features_buf.is_empty() {
+                return Err(JsValue::from_str("no current feature"));
+            }
             let cj_feature = to_cj_feature(
                 self.fbs.feature(),
                 self._header().columns(),
@@ -614,6 +602,17 @@ mod wasm {
         }
     }
 
+    /// Read the size-prefixed feature at `pos`
+    async fn read_feature_buffer<T: AsyncHttpRangeClient>(
+        client: &mut AsyncBufferedHttpRangeClient<T>,
+        pos: usize,
+    ) -> Result<Bytes, HttpError> {
+        let mut feature_buffer = BytesMut::from(get_range_exact(client, pos, 4).await?);
+        let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
+        feature_buffer.put(get_range_exact(client, pos + 4, feature_size).await?);
+        Ok(feature_buffer.freeze())
+    }
+
     enum FeatureSelection {
         SelectAll(SelectAll),
         SelectSpatial(SelectSpatial),
@@ -624,7 +623,7 @@ mod wasm {
         async fn next_feature_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             match self {
                 FeatureSelection::SelectAll(select_all) => select_all.next_buffer(client).await,
                 FeatureSelection::SelectSpatial(select_spatial) => {
@@ -647,27 +646,18 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             client.min_req_size(DEFAULT_HTTP_FETCH_SIZE);
 
             if self.features_left == 0 {
                 return Ok(None);
             }
-            self.features_left -= 1;
 
-            let mut feature_buffer =
-                BytesMut::from(client.get_range(self.pos, 4).await.map_err(|_| Error)?);
-            self.pos += 4;
-            let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(self.pos, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
-            self.pos += feature_size;
+            let feature_buffer = read_feature_buffer(client, self.pos).await?;
+            self.features_left -= 1;
+            self.pos += feature_buffer.len();
 
-            Ok(Some(feature_buffer.freeze()))
+            Ok(Some(feature_buffer))
         }
     }
 
@@ -680,7 +670,7 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             let mut next_buffer = None;
             while next_buffer.is_none() {
                 let Some(feature_batch) = self.feature_batches.last_mut() else {
@@ -709,7 +699,7 @@ mod wasm {
         async fn make_batches(
             feature_ranges: Vec<HttpSearchResultItem>,
             combine_request_threshold: usize,
-        ) -> Result<Vec<Self>, Error> {
+        ) -> Result<Vec<Self>, HttpError> {
             let mut batched_ranges = vec![];
 
             for search_result_item in feature_ranges.into_iter() {
@@ -722,15 +712,14 @@ mod wasm {
 
                 let previous_item = latest_batch.back().expect("we never push an empty batch");
 
-                let HttpRange::Range(Range { end: prev_end, .. }) = previous_item else {
-                    debug_assert!(false, "This shouldn't happen. Only the very last feature is expected to have an unknown length");
-                    let mut new_batch = VecDeque::new();
-                    new_batch.push_back(search_result_item.range);
-                    batched_ranges.push(new_batch);
-                    continue;
+                // Since the tree is traversed breadth first, list is sorted by construction.
+                let start = search_result_item.range.start();
+                let prev_end = previous_item.end().unwrap_or(previous_item.start() + 1);
+                let Some(wasted_bytes) = start.checked_sub(prev_end) else {
+                    return Err(HttpError::HttpError(
+                        "feature offsets are not ascending".to_string(),
+                    ));
                 };
-
-                let wasted_bytes = search_result_item.range.start() - prev_end;
                 if wasted_bytes < combine_request_threshold {
                     if wasted_bytes == 0 {
                         trace!("adjacent feature");
@@ -786,26 +775,17 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             let request_size = self.request_size();
             client.set_min_req_size(request_size);
-            let Some(feature_range) = self.feature_ranges.pop_front() else {
+            let Some(feature_range) = self.feature_ranges.front() else {
                 return Ok(None);
             };
 
-            let mut pos = feature_range.start();
-            let mut feature_buffer =
-                BytesMut::from(client.get_range(pos, 4).await.map_err(|_| Error)?);
-            pos += 4;
-            let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(pos, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
+            let feature_buffer = read_feature_buffer(client, feature_range.start()).await?;
+            self.feature_ranges.pop_front();
 
-            Ok(Some(feature_buffer.freeze()))
+            Ok(Some(feature_buffer))
         }
     }
 
@@ -819,25 +799,13 @@ mod wasm {
         async fn next_buffer<T: AsyncHttpRangeClient>(
             &mut self,
             client: &mut AsyncBufferedHttpRangeClient<T>,
-        ) -> Result<Option<Bytes>, Error> {
+        ) -> Result<Option<Bytes>, HttpError> {
             let Some(range) = self.ranges.get(self.range_pos) else {
                 return Ok(None);
             };
-            let mut feature_buffer = BytesMut::from(
-                client
-                    .get_range(range.start(), 4)
-                    .await
-                    .map_err(|_| Error)?,
-            );
-            let feature_size = LittleEndian::read_u32(&feature_buffer) as usize;
-            feature_buffer.put(
-                client
-                    .get_range(range.start() + 4, feature_size)
-                    .await
-                    .map_err(|_| Error)?,
-            );
+            let feature_buffer = read_feature_buffer(client, range.start()).await?;
             self.range_pos += 1;
-            Ok(Some(feature_buffer.freeze()))
+            Ok(Some(feature_buffer))
         }
     }
 
-- 
2.43.0


From 03a16b0468427612942a36f0b34491601ec9a49c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:09 +0000
Subject: [PATCH 63/63] fix: material values with null in place of a solid are
 not refused

---
 src/rust/fcb_core/src/writer/check.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/rust/fcb_core/src/writer/check.rs b/src/rust/fcb_core/src/writer/check.rs
index f6b546b..de0918a 100644
--- a/src/rust/fcb_core/src/writer/check.rs
+++ b/src/rust/fcb_core/src/writer/check.rs
@@ -83,7 +83,7 @@ fn check_geometry(geometry: &CjGeometry) -> Result<()> {
     }
     let mut materials = geometry.material.iter().flatten();
     let mut textures = geometry.texture.iter().flatten();
-    if !(materials.all(|(_, m)| m.values.iter().all(|values| is_even(values, 3)))
+    if !(materials.all(|(_, m)| m.values.iter().all(|values| is_even_or_null(values, 3)))
         && textures.all(|(_, t)| is_even(&t.values, 5)))
     {
         return Err(invalid(
@@ -131,6 +131,20 @@ fn is_even<T>(values: &CjNestedArray<T>, max_depth: usize) -> bool {
     depth <= max_depth && has_depth(values, depth)
 }
 
+/// The same, except that a list of nulls may take the place of any level
+fn is_even_or_null<T>(values: &CjNestedArray<Option<T>>, max_depth: usize) -> bool {
+    fn has_depth_or_null<T>(values: &CjNestedArray<Option<T>>, depth: usize) -> bool {
+        match values {
+            CjNestedArray::Indices(indices) => depth == 1 || indices.iter().all(Option::is_none),
+            CjNestedArray::Nested(parts) => {
+                depth > 1 && parts.iter().all(|part| has_depth_or_null(part, depth - 1))
+            }
+        }
+    }
+    let depth = nesting_depth(values);
+    depth <= max_depth && has_depth_or_null(values, depth)
+}
+
 fn all_values<T>(values: &CjNestedArray<Option<T>>, fits: &impl Fn(&T) -> bool) -> bool {
     match values {
         CjNestedArray::Indices(indices) => indices.iter().flatten().all(fits),
-- 
2.43.0

