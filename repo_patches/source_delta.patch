From dfebf8d3b22990ef17d359d5ad1bcf0881a06841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:29 +0000
Subject: [PATCH 01/41] fix: XML and OSC readers end the stream at a node
 without coordinates

---
 src/xml/mod.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c7e142f..57db90f 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -262,13 +262,10 @@ fn node_xml_elements_to_osm_obj(els: &mut [XmlEvent]) -> Option<StringOSMObj> {
         get_xml_attribute(attrs, "timestamp").map(|x| TimestampFormat::ISOString(x.to_owned()));
     let uid = get_xml_attribute(attrs, "uid").and_then(|x| x.parse().ok());
     let user = get_xml_attribute(attrs, "user");
-    let lat = get_xml_attribute(attrs, "lat")?.parse();
-    let lon = get_xml_attribute(attrs, "lon")?.parse();
-
-    let lat_lon = match (lat, lon) {
-        (Ok(lat), Ok(lon)) => Some((lat, lon)),
-        _errs => None,
-    };
+    // Nodes without a location are possible, e.g. deleted nodes
+    let lat = get_xml_attribute(attrs, "lat").and_then(|x| x.parse().ok());
+    let lon = get_xml_attribute(attrs, "lon").and_then(|x| x.parse().ok());
+    let lat_lon = lat.zip(lon);
     let deleted = get_xml_attribute(attrs, "visible")
         .and_then(|val| match val.as_str() {
             "true" => Some(false),
-- 
2.43.0


From 8a12d61ee276fcec887ed02c11dfcf0a441fa6de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:46 +0000
Subject: [PATCH 02/41] fix: XML and OSC writers panic on an object without a
 version

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index ad074b0..4cde47d 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -162,7 +162,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 57db90f..c4bd685 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -445,7 +445,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             " visible=\"{}\"",
             if obj.deleted() { "false" } else { "true" }
         )?;
-        write!(self.writer, " version=\"{}\"", obj.version().unwrap())?;
+        if let Some(version) = obj.version() {
+            write!(self.writer, " version=\"{}\"", version)?;
+        }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
             write_xml_escaped(&mut self.writer, user)?;
-- 
2.43.0


From 0de552a9515ec07055b2dcd1a58f45e9cdfe63f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:49 +0000
Subject: [PATCH 03/41] fix: XML and OSC writers do not escape the timestamp

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 4cde47d..5b292ae 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -177,7 +177,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index c4bd685..39fc268 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -460,7 +460,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
             write!(self.writer, " changeset=\"{}\"", changeset_id)?;
         }
         if let Some(timestamp) = obj.timestamp() {
-            write!(self.writer, " timestamp=\"{}\"", timestamp)?;
+            write!(self.writer, " timestamp=\"")?;
+            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write!(self.writer, "\"")?;
         }
 
         if let Some(node) = obj.as_node() {
-- 
2.43.0


From 45b0f7ddf98601a5f6d7eeacf47c84e0035f9087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:07 +0000
Subject: [PATCH 04/41] fix: XML and OSC writers lose tabs, newlines and
 carriage returns in attribute values

---
 src/osc/mod.rs | 12 ++++++------
 src/xml/mod.rs | 26 ++++++++++++++++++++------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 5b292ae..5af1d14 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -7,7 +7,7 @@ use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
 use std::iter::Iterator;
 
-use crate::xml::{write_xml_escaped, xml_elements_to_osm_obj};
+use crate::xml::{write_xml_attribute_escaped, xml_elements_to_osm_obj};
 
 use xml_rs::reader::{EventReader, Events, XmlEvent};
 
@@ -167,7 +167,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attribute_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -178,7 +178,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
         }
         if let Some(timestamp) = obj.timestamp() {
             write!(self.writer, " timestamp=\"")?;
-            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write_xml_attribute_escaped(&mut self.writer, &timestamp.to_string())?;
             write!(self.writer, "\"")?;
         }
 
@@ -209,7 +209,7 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attribute_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -217,9 +217,9 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attribute_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attribute_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 39fc268..dd8c445 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -70,6 +70,20 @@ pub(crate) fn write_xml_escaped(writer: &mut impl Write, s: &str) -> std::io::Re
     Ok(())
 }
 
+/// Escape a string for use as an attribute value.
+///
+/// An XML parser replaces literal whitespace characters in an attribute value with spaces, so they
+/// have to be written as character references.
+pub(crate) fn write_xml_attribute_escaped(writer: &mut impl Write, s: &str) -> std::io::Result<()> {
+    for c in s.chars() {
+        match c {
+            '\t' | '\n' | '\r' => write!(writer, "&#{};", c as u32)?,
+            c => write_xml_escaped(writer, c.encode_utf8(&mut [0; 4]))?,
+        }
+    }
+    Ok(())
+}
+
 impl<R: Read> OSMReader for XMLReader<R> {
     type R = R;
     type Obj = StringOSMObj;
@@ -377,7 +391,7 @@ impl<W: Write> XMLWriter<W> {
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-                write_xml_escaped(&mut self.writer, v)?;
+                write_xml_attribute_escaped(&mut self.writer, v)?;
                 write!(self.writer, "\"")?;
             }
             write!(self.writer, ">")?;
@@ -450,7 +464,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(user) = obj.user() {
             write!(self.writer, " user=\"")?;
-            write_xml_escaped(&mut self.writer, user)?;
+            write_xml_attribute_escaped(&mut self.writer, user)?;
             write!(self.writer, "\"")?;
         }
         if let Some(uid) = obj.uid() {
@@ -461,7 +475,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
         }
         if let Some(timestamp) = obj.timestamp() {
             write!(self.writer, " timestamp=\"")?;
-            write_xml_escaped(&mut self.writer, &timestamp.to_string())?;
+            write_xml_attribute_escaped(&mut self.writer, &timestamp.to_string())?;
             write!(self.writer, "\"")?;
         }
 
@@ -492,7 +506,7 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
                     member.0, member.1
                 )?;
                 if !member.2.is_empty() {
-                    write_xml_escaped(&mut self.writer, member.2)?;
+                    write_xml_attribute_escaped(&mut self.writer, member.2)?;
                 }
                 write!(self.writer, "\"/>")?;
             }
@@ -500,9 +514,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
         for (k, v) in obj.tags() {
             write!(self.writer, "\n\t\t<tag k=\"")?;
-            write_xml_escaped(&mut self.writer, k)?;
+            write_xml_attribute_escaped(&mut self.writer, k)?;
             write!(self.writer, "\" v=\"")?;
-            write_xml_escaped(&mut self.writer, v)?;
+            write_xml_attribute_escaped(&mut self.writer, v)?;
             write!(self.writer, "\" />")?;
         }
 
-- 
2.43.0


From b3af9d960893a90b5d41c27736fe0805c1319cec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:10 +0000
Subject: [PATCH 05/41] fix: stringpbf panics on uncompressed blobs

---
 src/stringpbf/mod.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 6e86e9f..e321632 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -37,8 +37,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     // get lifetime errors with bytes not living long enough.
     buf.clear();
     if let Some(raw) = &blob.raw {
-        buf.reserve(raw.len());
-        buf.copy_from_slice(raw.as_slice());
+        buf.extend_from_slice(raw.as_slice());
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
-- 
2.43.0


From 5e01336a749b59369c2537851edf989001e36732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 06/41] fix: PBF ways and relations without a visible flag are
 visible, not deleted

---
 src/arcpbf/mod.rs    | 4 ++--
 src/stringpbf/mod.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index fcd9e96..249da3f 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -276,7 +276,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap(),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(
@@ -366,7 +366,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap(),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index e321632..744fa25 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -262,7 +262,7 @@ fn decode_ways(
             _id: id,
             _tags: tags,
             _nodes: nodes,
-            _deleted: !way.info.visible.unwrap_or(false),
+            _deleted: !way.info.visible.unwrap_or(true),
             _changeset_id: Some(way.info.changeset.unwrap() as u32),
             _uid: Some(way.info.uid.unwrap() as u32),
             _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
@@ -346,7 +346,7 @@ fn decode_relations(
             _id: id,
             _tags: tags,
             _members: members,
-            _deleted: !relation.info.visible.unwrap_or(false),
+            _deleted: !relation.info.visible.unwrap_or(true),
             _changeset_id: Some(relation.info.changeset.unwrap() as u32),
             _uid: Some(relation.info.uid.unwrap() as u32),
             _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-- 
2.43.0


From 845dd5142a575af1093b6c3f99b0b03456497639 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 07/41] fix: stringpbf panics on blocks without exactly one
 primitive group

---
 src/stringpbf/mod.rs | 61 +++++++++++++++++---------------------------
 1 file changed, 23 insertions(+), 38 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 744fa25..a64831e 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -365,72 +365,50 @@ fn decode_primitive_group_to_objs(
     lat_offset: i64,
     lon_offset: i64,
     date_granularity: i32,
-    raw_stringtable: osmformat::StringTable,
+    stringtable: &[SmolStr],
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(
-            raw_stringtable.s.iter().map(|chars| {
-                SmolStr::from(str::from_utf8(chars).expect("Invalid, non-utf8 String"))
-            }),
-        );
-
         num_objects_written += decode_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if primitive_group.dense.is_some() && object_filter.0 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if !primitive_group.ways.is_empty() && object_filter.1 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_ways(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else if !primitive_group.relations.is_empty() && object_filter.2 {
-        let mut stringtable: Vec<SmolStr> = Vec::with_capacity(raw_stringtable.s.len());
-        stringtable.extend(raw_stringtable.s.into_iter().map(|chars| {
-            SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String"))
-        }));
-
         num_objects_written += decode_relations(
             primitive_group,
             granularity,
             lat_offset,
             lon_offset,
             date_granularity,
-            &stringtable,
+            stringtable,
             sink,
         );
     } else {
@@ -454,17 +432,24 @@ fn decode_block_to_objs(
 
     let mut results = 0;
 
-    assert_eq!(block.primitivegroup.len(), 1);
-    results += decode_primitive_group_to_objs(
-        &block.primitivegroup[0],
-        granularity,
-        lat_offset,
-        lon_offset,
-        date_granularity,
-        raw_stringtable,
-        object_filter,
-        sink,
-    );
+    let stringtable: Vec<SmolStr> = raw_stringtable
+        .s
+        .into_iter()
+        .map(|chars| SmolStr::from(String::from_utf8(chars).expect("Invalid, non-utf8 String")))
+        .collect();
+
+    for primitive_group in block.primitivegroup.iter() {
+        results += decode_primitive_group_to_objs(
+            primitive_group,
+            granularity,
+            lat_offset,
+            lon_offset,
+            date_granularity,
+            &stringtable,
+            object_filter,
+            sink,
+        );
+    }
 
     results
 }
-- 
2.43.0


From 0db1f943d1858a3df40384fe2ce0030d2fb3d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 08/41] fix: stringpbf panics on dense nodes when no node of
 the group has tags

---
 src/stringpbf/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index a64831e..06b1cfe 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -162,7 +162,8 @@ fn decode_dense_nodes(
         internal_lon += internal_lon_offset as i32;
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
-        loop {
+        // keys_vals can be left out if no node here has any tags
+        while !keys_vals.is_empty() {
             //assert!(keys_vals_index <= keys_vals.len());
             let next = keys_vals[keys_vals_index];
             keys_vals_index += 1;
-- 
2.43.0


From 55648818307be0b5fb10069d6814403b484cde6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 09/41] fix: PBF readers panic on objects with missing or
 partial metadata

---
 src/arcpbf/mod.rs    | 83 +++++++++++++++++++++++---------------------
 src/stringpbf/mod.rs | 74 ++++++++++++++++++++++-----------------
 2 files changed, 86 insertions(+), 71 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 249da3f..f55aab5 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -192,28 +192,37 @@ fn decode_dense_nodes(
             )
         };
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // All the metadata is optional
+        let changeset_id = changesets.get(index).map(|delta| {
+            last_changset += delta;
+            last_changset as u32
+        });
+        let uid_id = uids.get(index).map(|delta| {
+            last_uid += delta;
+            assert!(last_uid < i32::MAX);
+            last_uid as u32
+        });
+        let user = user_sids.get(index).map(|delta| {
+            last_user_sid += delta;
+            stringtable[last_user_sid as usize].clone().unwrap()
+        });
+        let timestamp = timestamps.get(index).map(|&delta| {
+            let timestamp = delta as i32 + last_timestamp;
+            let timestamp = timestamp * date_granularity;
+            last_timestamp = timestamp;
+            TimestampFormat::EpochNumber(timestamp as i64)
+        });
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone().unwrap()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id,
+            _uid: uid_id,
+            _user: user,
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 
@@ -263,30 +272,26 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
-
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[way.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap()
-                    .clone(),
-            ),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
@@ -355,27 +360,25 @@ fn decode_relations(
             .filter_map(|((t, &id), r_opt)| r_opt.map(|r| (t, id, r)))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(
-                stringtable[relation.info.user_sid.unwrap() as usize]
-                    .clone()
-                    .unwrap(),
-            ),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
     }
 }
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 06b1cfe..ba104f8 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -181,28 +181,37 @@ fn decode_dense_nodes(
             // FIXME infinite loop detection maybe?
         }
 
-        let changeset_id = changesets[index] + last_changset;
-        last_changset = changeset_id;
-        let uid_id = uids[index] + last_uid;
-        last_uid = uid_id;
-        let user_sid = user_sids[index] + last_user_sid;
-        last_user_sid = user_sid;
-        let timestamp = timestamps[index] as i32 + last_timestamp;
-        let timestamp = timestamp * date_granularity;
-        last_timestamp = timestamp;
-        let timestamp = TimestampFormat::EpochNumber(timestamp as i64);
-        assert!(uid_id < i32::MAX);
+        // All the metadata is optional
+        let changeset_id = changesets.get(index).map(|delta| {
+            last_changset += delta;
+            last_changset as u32
+        });
+        let uid_id = uids.get(index).map(|delta| {
+            last_uid += delta;
+            assert!(last_uid < i32::MAX);
+            last_uid as u32
+        });
+        let user = user_sids.get(index).map(|delta| {
+            last_user_sid += delta;
+            stringtable[last_user_sid as usize].clone()
+        });
+        let timestamp = timestamps.get(index).map(|&delta| {
+            let timestamp = delta as i32 + last_timestamp;
+            let timestamp = timestamp * date_granularity;
+            last_timestamp = timestamp;
+            TimestampFormat::EpochNumber(timestamp as i64)
+        });
 
         results.push_back(StringOSMObj::Node(StringNode {
             _id: id as ObjId,
             _tags: tags,
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
-            _changeset_id: Some(changeset_id as u32),
-            _uid: Some(uid_id as u32),
-            _user: Some(stringtable[user_sid as usize].clone()),
-            _version: Some(denseinfo.version[index] as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: changeset_id,
+            _uid: uid_id,
+            _user: user,
+            _version: denseinfo.version.get(index).map(|&v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1
     }
@@ -250,25 +259,26 @@ fn decode_ways(
 
         // TODO assert all node ids are positive
 
-        // TODO could there be *no* info? What should be done there
-
         //println!("from pbf {} last_timestamp {}", way.get_info().get_timestamp(), last_timestamp);
         //let timestamp = way.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(way.info.timestamp.unwrap());
+        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
             _tags: tags,
             _nodes: nodes,
             _deleted: !way.info.visible.unwrap_or(true),
-            _changeset_id: Some(way.info.changeset.unwrap() as u32),
-            _uid: Some(way.info.uid.unwrap() as u32),
-            _user: Some(stringtable[way.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(way.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: way.info.changeset.map(|c| c as u32),
+            _uid: way.info.uid.map(|u| u as u32),
+            _user: way
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: way.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
@@ -336,23 +346,25 @@ fn decode_relations(
             .map(|((t, &id), r)| (t, id, r.clone()))
             .collect();
 
-        // TODO could there be *no* info? What should be done there
         //let timestamp = relation.get_info().get_timestamp() as i32 + last_timestamp;
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = TimestampFormat::EpochNumber(relation.info.timestamp.unwrap());
+        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
             _tags: tags,
             _members: members,
             _deleted: !relation.info.visible.unwrap_or(true),
-            _changeset_id: Some(relation.info.changeset.unwrap() as u32),
-            _uid: Some(relation.info.uid.unwrap() as u32),
-            _user: Some(stringtable[relation.info.user_sid.unwrap() as usize].clone()),
-            _version: Some(relation.info.version.unwrap() as u32),
-            _timestamp: Some(timestamp),
+            _changeset_id: relation.info.changeset.map(|c| c as u32),
+            _uid: relation.info.uid.map(|u| u as u32),
+            _user: relation
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: relation.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
         }));
         num_objects_written += 1;
     }
-- 
2.43.0


From fa2ed424500ed0ecfc9e86386031deda5cd822d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 10/41] fix: PBF coordinates with a granularity or offset not a
 multiple of 100 are wrong

---
 src/arcpbf/mod.rs            | 24 +++++++-----------------
 src/pbf/mod.rs               |  9 +++++++++
 src/stringpbf/mod.rs         | 24 +++++++-----------------
 src/stringpbf/node_id_pos.rs | 24 +++++++-----------------
 4 files changed, 30 insertions(+), 51 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index f55aab5..e1e0b91 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -10,7 +10,7 @@ use std::iter::Iterator;
 use std::sync::Arc;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
+use crate::pbf::decode_coord;
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -126,8 +126,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -138,24 +138,14 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        let internal_lat = decode_coord(raw_lat, granularity, lat_offset);
+        let internal_lon = decode_coord(raw_lon, granularity, lon_offset);
 
         let tags = if !has_tags {
             None
diff --git a/src/pbf/mod.rs b/src/pbf/mod.rs
index 503face..12c392e 100644
--- a/src/pbf/mod.rs
+++ b/src/pbf/mod.rs
@@ -1,2 +1,11 @@
 //! Read PBF file (currently alias for stringpbf::)
 pub use crate::stringpbf::*;
+
+use crate::COORD_PRECISION_NANOS;
+
+/// Convert a coordinate as stored in a PBF file into our internal units. The granularity & offset
+/// are in nanodegrees.
+pub(crate) fn decode_coord(raw: i64, granularity: i32, offset: i64) -> i32 {
+    i32::try_from((offset + granularity as i64 * raw) / COORD_PRECISION_NANOS as i64)
+        .expect("coordinate was larger than the OSM precision allows")
+}
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index ba104f8..7f8e3f7 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -14,7 +14,7 @@ use std::io::{Cursor, Read};
 use std::iter::Iterator;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
+use crate::pbf::decode_coord;
 
 use flate2::read::ZlibDecoder;
 
@@ -130,8 +130,8 @@ fn decode_dense_nodes(
 
     // NB it's important that these start at zero, makes the code easier later
     let mut last_id: i64 = 0;
-    let mut last_raw_lat: i32 = 0;
-    let mut last_raw_lon: i32 = 0;
+    let mut last_raw_lat: i64 = 0;
+    let mut last_raw_lon: i64 = 0;
     let mut last_timestamp = 0;
     let mut last_changset = 0;
     let mut last_uid = 0;
@@ -142,24 +142,14 @@ fn decode_dense_nodes(
         let id = ids[index] + last_id;
         last_id = id;
 
-        let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-            .expect("raw_lat was larger than the OSM precision allows");
+        let raw_lat = lats[index] + last_raw_lat;
         last_raw_lat = raw_lat;
 
-        let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-            .expect("raw_lon was larger than OSM precision allows");
+        let raw_lon = lons[index] + last_raw_lon;
         last_raw_lon = raw_lon;
 
-        // granularity is in nanodegrees
-        let scale_factor = granularity / COORD_PRECISION_NANOS;
-        let mut internal_lat = raw_lat * scale_factor;
-        let mut internal_lon = raw_lon * scale_factor;
-
-        // Offsets from pbf are in nanodegrees
-        let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-        let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-        internal_lat += internal_lat_offset as i32;
-        internal_lon += internal_lon_offset as i32;
+        let internal_lat = decode_coord(raw_lat, granularity, lat_offset);
+        let internal_lon = decode_coord(raw_lon, granularity, lon_offset);
 
         let mut tags: SmallVec<[(SmolStr, SmolStr); 1]> = SmallVec::new();
         // keys_vals can be left out if no node here has any tags
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 6f2d07d..b4e3801 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -5,7 +5,7 @@ use std::iter::Iterator;
 use std::collections::VecDeque;
 
 use super::*;
-use crate::COORD_PRECISION_NANOS;
+use crate::pbf::decode_coord;
 use protobuf::Message;
 
 /// (node id, (latitude, longitude))
@@ -93,32 +93,22 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-            let mut last_raw_lat: i32 = 0;
-            let mut last_raw_lon: i32 = 0;
+            let mut last_raw_lat: i64 = 0;
+            let mut last_raw_lon: i64 = 0;
 
             for index in 0..num_nodes {
                 // last_* start off 0
                 let id = ids[index] + last_id;
                 last_id = id;
 
-                let raw_lat = i32::try_from(lats[index] + last_raw_lat as i64)
-                    .expect("raw_lat was larger than the OSM precision allows");
+                let raw_lat = lats[index] + last_raw_lat;
                 last_raw_lat = raw_lat;
 
-                let raw_lon = i32::try_from(lons[index] + last_raw_lon as i64)
-                    .expect("raw_lon was larger than OSM precision allows");
+                let raw_lon = lons[index] + last_raw_lon;
                 last_raw_lon = raw_lon;
 
-                // granularity is in nanodegrees
-                let scale_factor = granularity / COORD_PRECISION_NANOS;
-                let mut internal_lat = raw_lat * scale_factor;
-                let mut internal_lon = raw_lon * scale_factor;
-
-                // Offsets from pbf are in nanodegrees
-                let internal_lat_offset = lat_offset / COORD_PRECISION_NANOS as i64;
-                let internal_lon_offset = lon_offset / COORD_PRECISION_NANOS as i64;
-                internal_lat += internal_lat_offset as i32;
-                internal_lon += internal_lon_offset as i32;
+                let internal_lat = decode_coord(raw_lat, *granularity, *lat_offset);
+                let internal_lon = decode_coord(raw_lon, *granularity, *lon_offset);
 
                 sink.push_back((id as ObjId, (Lat(internal_lat), Lon(internal_lon))));
                 num_objects += 1;
-- 
2.43.0


From 813b7630e7381f567a2b9d3824c842e75abd1f5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:37 +0000
Subject: [PATCH 11/41] fix: PBF timestamps are wrong with a date granularity,
 or after 2038

---
 src/arcpbf/mod.rs    | 24 +++++++++++++-----------
 src/pbf/mod.rs       |  7 ++++++-
 src/stringpbf/mod.rs | 24 +++++++++++++-----------
 3 files changed, 32 insertions(+), 23 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index e1e0b91..44d68de 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -2,7 +2,6 @@
 //!
 //! Reading PBF files. Writing/creating PBF files is not currently supported or implemented
 use super::ObjId;
-use super::TimestampFormat;
 use byteorder;
 use byteorder::ReadBytesExt;
 use std::io::{Cursor, Read};
@@ -10,7 +9,7 @@ use std::iter::Iterator;
 use std::sync::Arc;
 
 use super::*;
-use crate::pbf::decode_coord;
+use crate::pbf::{decode_coord, decode_timestamp};
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -197,10 +196,8 @@ fn decode_dense_nodes(
             stringtable[last_user_sid as usize].clone().unwrap()
         });
         let timestamp = timestamps.get(index).map(|&delta| {
-            let timestamp = delta as i32 + last_timestamp;
-            let timestamp = timestamp * date_granularity;
-            last_timestamp = timestamp;
-            TimestampFormat::EpochNumber(timestamp as i64)
+            last_timestamp += delta;
+            decode_timestamp(last_timestamp, date_granularity)
         });
 
         results.push(ArcOSMObj::Node(ArcNode {
@@ -224,7 +221,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -267,7 +264,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| decode_timestamp(t, date_granularity));
 
         results.push(ArcOSMObj::Way(ArcWay {
             _id: id,
@@ -291,7 +291,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
@@ -354,7 +354,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| decode_timestamp(t, date_granularity));
 
         results.push(ArcOSMObj::Relation(ArcRelation {
             _id: id,
@@ -382,7 +385,6 @@ fn decode_primitive_group_to_objs(
     stringtable: &[Option<Arc<str>>],
     results: &mut Vec<ArcOSMObj>,
 ) {
-    let date_granularity = date_granularity / 1000;
     if !primitive_group.nodes.is_empty() {
         decode_nodes(
             primitive_group,
diff --git a/src/pbf/mod.rs b/src/pbf/mod.rs
index 12c392e..62247fc 100644
--- a/src/pbf/mod.rs
+++ b/src/pbf/mod.rs
@@ -1,7 +1,7 @@
 //! Read PBF file (currently alias for stringpbf::)
 pub use crate::stringpbf::*;
 
-use crate::COORD_PRECISION_NANOS;
+use crate::{COORD_PRECISION_NANOS, TimestampFormat};
 
 /// Convert a coordinate as stored in a PBF file into our internal units. The granularity & offset
 /// are in nanodegrees.
@@ -9,3 +9,8 @@ pub(crate) fn decode_coord(raw: i64, granularity: i32, offset: i64) -> i32 {
     i32::try_from((offset + granularity as i64 * raw) / COORD_PRECISION_NANOS as i64)
         .expect("coordinate was larger than the OSM precision allows")
 }
+
+/// Convert a timestamp as stored in a PBF file. The granularity is in milliseconds.
+pub(crate) fn decode_timestamp(raw: i64, date_granularity: i32) -> TimestampFormat {
+    TimestampFormat::EpochNumber(raw * date_granularity as i64 / 1000)
+}
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 7f8e3f7..ee564a0 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -3,7 +3,6 @@
 //! Reading PBF files. Writing/creating PBF files is not currently supported or implemented
 use super::OSMReader;
 use super::ObjId;
-use super::TimestampFormat;
 use byteorder;
 use byteorder::ReadBytesExt;
 use protobuf::Message;
@@ -14,7 +13,7 @@ use std::io::{Cursor, Read};
 use std::iter::Iterator;
 
 use super::*;
-use crate::pbf::decode_coord;
+use crate::pbf::{decode_coord, decode_timestamp};
 
 use flate2::read::ZlibDecoder;
 
@@ -186,10 +185,8 @@ fn decode_dense_nodes(
             stringtable[last_user_sid as usize].clone()
         });
         let timestamp = timestamps.get(index).map(|&delta| {
-            let timestamp = delta as i32 + last_timestamp;
-            let timestamp = timestamp * date_granularity;
-            last_timestamp = timestamp;
-            TimestampFormat::EpochNumber(timestamp as i64)
+            last_timestamp += delta;
+            decode_timestamp(last_timestamp, date_granularity)
         });
 
         results.push_back(StringOSMObj::Node(StringNode {
@@ -214,7 +211,7 @@ fn decode_ways(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -254,7 +251,10 @@ fn decode_ways(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = way.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = way
+            .info
+            .timestamp
+            .map(|t| decode_timestamp(t, date_granularity));
 
         results.push_back(StringOSMObj::Way(StringWay {
             _id: id,
@@ -280,7 +280,7 @@ fn decode_relations(
     _granularity: i32,
     _lat_offset: i64,
     _lon_offset: i64,
-    _date_granularity: i32,
+    date_granularity: i32,
     stringtable: &[SmolStr],
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
@@ -340,7 +340,10 @@ fn decode_relations(
         //let timestamp = timestamp * date_granularity;
         //last_timestamp = timestamp;
         //let timestamp = epoch_to_iso(timestamp);
-        let timestamp = relation.info.timestamp.map(TimestampFormat::EpochNumber);
+        let timestamp = relation
+            .info
+            .timestamp
+            .map(|t| decode_timestamp(t, date_granularity));
 
         sink.push_back(StringOSMObj::Relation(StringRelation {
             _id: id,
@@ -372,7 +375,6 @@ fn decode_primitive_group_to_objs(
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    let date_granularity = date_granularity / 1000;
     let mut num_objects_written = 0;
     if !primitive_group.nodes.is_empty() && object_filter.0 {
         num_objects_written += decode_nodes(
-- 
2.43.0


From 14ab35a5bf449ce8f6be4b2118a3b546474e18a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:04 +0000
Subject: [PATCH 12/41] fix: asking a PBF reader for one kind of object loses
 objects of later requests

---
 src/stringpbf/mod.rs | 90 ++++++++++++++++++++++++++------------------
 1 file changed, 53 insertions(+), 37 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index ee564a0..fe61e5b 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -372,11 +372,10 @@ fn decode_primitive_group_to_objs(
     lon_offset: i64,
     date_granularity: i32,
     stringtable: &[SmolStr],
-    object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
     let mut num_objects_written = 0;
-    if !primitive_group.nodes.is_empty() && object_filter.0 {
+    if !primitive_group.nodes.is_empty() {
         num_objects_written += decode_nodes(
             primitive_group,
             granularity,
@@ -386,7 +385,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if primitive_group.dense.is_some() && object_filter.0 {
+    } else if primitive_group.dense.is_some() {
         num_objects_written += decode_dense_nodes(
             primitive_group,
             granularity,
@@ -396,7 +395,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if !primitive_group.ways.is_empty() && object_filter.1 {
+    } else if !primitive_group.ways.is_empty() {
         num_objects_written += decode_ways(
             primitive_group,
             granularity,
@@ -406,7 +405,7 @@ fn decode_primitive_group_to_objs(
             stringtable,
             sink,
         );
-    } else if !primitive_group.relations.is_empty() && object_filter.2 {
+    } else if !primitive_group.relations.is_empty() {
         num_objects_written += decode_relations(
             primitive_group,
             granularity,
@@ -417,17 +416,32 @@ fn decode_primitive_group_to_objs(
             sink,
         );
     } else {
-        // can happen if there is an object filter in operation
+        // an empty group
     }
 
     num_objects_written
 }
 
+/// True iff something in this block is one of the wanted kinds of objects
+fn block_is_wanted(block: &osmformat::PrimitiveBlock, object_filter: &ObjectFilter) -> bool {
+    block.primitivegroup.iter().any(|group| {
+        (object_filter.0 && (!group.nodes.is_empty() || group.dense.is_some()))
+            || (object_filter.1 && !group.ways.is_empty())
+            || (object_filter.2 && !group.relations.is_empty())
+    })
+}
+
 fn decode_block_to_objs(
     mut block: osmformat::PrimitiveBlock,
     object_filter: &ObjectFilter,
     sink: &mut VecDeque<StringOSMObj>,
 ) -> usize {
+    // Either all of a block is decoded or none of it. Everything in the buffer must still be
+    // there if the next thing asked for is another kind of object.
+    if !block_is_wanted(&block, object_filter) {
+        return 0;
+    }
+
     let raw_stringtable = block.stringtable.take().unwrap();
 
     let granularity = block.granularity();
@@ -451,7 +465,6 @@ fn decode_block_to_objs(
             lon_offset,
             date_granularity,
             &stringtable,
-            object_filter,
             sink,
         );
     }
@@ -472,26 +485,51 @@ pub struct PBFReader<R: Read> {
     filereader: FileReader<R>,
     buffer: VecDeque<StringOSMObj>,
     _sorted_assumption: bool,
-    object_filter: ObjectFilter,
 }
 
 impl<R: Read> PBFReader<R> {
     /// Iterate over all the nodes in this source
     pub fn nodes(&mut self) -> impl Iterator<Item = StringNode> + '_ {
-        self.object_filter = (true, false, false);
-        self.objects().filter_map(|o| o.into_node())
+        std::iter::from_fn(move || self.next_filtered(&(true, false, false)))
+            .filter_map(|o| o.into_node())
     }
 
     /// Iterate over all the ways in this source
     pub fn ways(&mut self) -> impl Iterator<Item = StringWay> + '_ {
-        self.object_filter = (false, true, false);
-        self.objects().filter_map(|o| o.into_way())
+        std::iter::from_fn(move || self.next_filtered(&(false, true, false)))
+            .filter_map(|o| o.into_way())
     }
 
     /// Iterate over all the relations in this source
     pub fn relations(&mut self) -> impl Iterator<Item = StringRelation> + '_ {
-        self.object_filter = (false, false, true);
-        self.objects().filter_map(|o| o.into_relation())
+        std::iter::from_fn(move || self.next_filtered(&(false, false, true)))
+            .filter_map(|o| o.into_relation())
+    }
+
+    /// The next object, skipping over blocks which have nothing that passes this filter
+    fn next_filtered(&mut self, object_filter: &ObjectFilter) -> Option<StringOSMObj> {
+        let mut blob_data = Vec::new();
+        while self.buffer.is_empty() {
+            // get the next file block and fill up our buffer
+            // FIXME make this parallel
+
+            // get the next block
+            let mut blob = self.filereader.next()?;
+
+            blob_data.clear();
+            blob_raw_data(&mut blob, &mut blob_data, object_filter);
+            if blob_data.is_empty() {
+                // maybe the filter meant nothing was read
+                continue;
+            }
+            let block: osmformat::PrimitiveBlock =
+                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
+
+            // Turn a block into OSM objects
+            decode_block_to_objs(block, object_filter, &mut self.buffer);
+        }
+
+        self.buffer.pop_front()
     }
 }
 
@@ -512,7 +550,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
             filereader: FileReader::new(reader),
             buffer: VecDeque::new(),
             _sorted_assumption: false,
-            object_filter: (true, true, true),
         }
     }
 
@@ -532,27 +569,6 @@ impl<R: Read> OSMReader for PBFReader<R> {
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-        let mut blob_data = Vec::new();
-        while self.buffer.is_empty() {
-            // get the next file block and fill up our buffer
-            // FIXME make this parallel
-
-            // get the next block
-            let mut blob = self.filereader.next()?;
-
-            blob_data.clear();
-            blob_raw_data(&mut blob, &mut blob_data, &self.object_filter);
-            if blob_data.is_empty() {
-                // maybe the filter meant nothing was read
-                continue;
-            }
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
-
-            // Turn a block into OSM objects
-            decode_block_to_objs(block, &self.object_filter, &mut self.buffer);
-        }
-
-        self.buffer.pop_front()
+        self.next_filtered(&(true, true, true))
     }
 }
-- 
2.43.0


From 0cf1784a0d896fec4cee70821a3079b04acd69bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:44 +0000
Subject: [PATCH 13/41] fix: stringpbf silently skips blobs with unsupported
 compression or no data

---
 src/stringpbf/mod.rs | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index fe61e5b..52484e9 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -40,6 +40,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob, buf: &mut Vec<u8>, _object_filter:
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
         ZlibDecoder::new(cursor).read_to_end(buf).unwrap();
+    } else {
+        panic!("PBF blob has no data, or is compressed with something other than zlib");
     }
 }
 
@@ -518,10 +520,6 @@ impl<R: Read> PBFReader<R> {
 
             blob_data.clear();
             blob_raw_data(&mut blob, &mut blob_data, object_filter);
-            if blob_data.is_empty() {
-                // maybe the filter meant nothing was read
-                continue;
-            }
             let block: osmformat::PrimitiveBlock =
                 osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
 
-- 
2.43.0


From b82d396fd3937fb4b2cfb005f8dbe76fbcfbeb97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:49 +0000
Subject: [PATCH 14/41] fix: PBF readers take an I/O error or a cut off block
 length as the end of the file

---
 src/arcpbf/mod.rs    | 17 ++++++++++++++---
 src/stringpbf/mod.rs | 17 ++++++++++++++---
 2 files changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 44d68de..78e6104 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -54,9 +54,20 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // Only when there is nothing more at all is this the end of the file.
+            let mut size_bytes = Vec::with_capacity(4);
+            self.reader
+                .by_ref()
+                .take(4)
+                .read_to_end(&mut size_bytes)
+                .unwrap();
+            if size_bytes.is_empty() {
+                return None;
+            }
+            let size = size_bytes
+                .as_slice()
+                .read_u32::<byteorder::BigEndian>()
+                .unwrap();
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 52484e9..64ce5af 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -60,9 +60,20 @@ impl<R: Read> FileReader<R> {
 
     fn get_next_osmdata_blob(&mut self) -> Option<fileformat::Blob> {
         loop {
-            // FIXME is there a way we can ask self.reader if it's at EOF? Rather than waiting for
-            // the failure and catching that?
-            let size = self.reader.read_u32::<byteorder::BigEndian>().ok()?;
+            // Only when there is nothing more at all is this the end of the file.
+            let mut size_bytes = Vec::with_capacity(4);
+            self.reader
+                .by_ref()
+                .take(4)
+                .read_to_end(&mut size_bytes)
+                .unwrap();
+            if size_bytes.is_empty() {
+                return None;
+            }
+            let size = size_bytes
+                .as_slice()
+                .read_u32::<byteorder::BigEndian>()
+                .unwrap();
             let mut header_bytes_vec = vec![0; size as usize];
 
             self.reader
-- 
2.43.0


From d6c51a2a37ba03fda5ef0db07eacdb1505fab716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:54 +0000
Subject: [PATCH 15/41] fix: arcpbf panics on zlib blobs without the optional
 raw_size

---
 src/arcpbf/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 78e6104..e166113 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -30,7 +30,7 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size.unwrap() as usize);
+        let mut bytes = Vec::with_capacity(blob.raw_size().max(0) as usize);
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
-- 
2.43.0


From 434ce94ba7f67a32ab598be6cc2380dbc4db7d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:58 +0000
Subject: [PATCH 16/41] fix: arcpbf and the node position reader panic on empty
 groups

---
 src/arcpbf/mod.rs            | 2 +-
 src/stringpbf/node_id_pos.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index e166113..83d0b0e 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -437,7 +437,7 @@ fn decode_primitive_group_to_objs(
             results,
         );
     } else {
-        unreachable!();
+        // an empty group
     }
 }
 
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index b4e3801..b2e0776 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -114,7 +114,7 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
                 num_objects += 1;
             }
         } else {
-            unreachable!();
+            // an empty group
         }
     }
 
-- 
2.43.0


From 40e1f45afade6a7aeffd5376d3151c77206bfbd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:40 +0000
Subject: [PATCH 17/41] fix: timestamps before 1970, after 2038 or after 2106
 wrap around when converted

---
 src/lib.rs   | 4 ++--
 src/utils.rs | 9 ++++-----
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 1202d48..59e9df5 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -255,13 +255,13 @@ impl TimestampFormat {
     pub fn to_iso_string(&self) -> String {
         match self {
             TimestampFormat::ISOString(s) => s.clone(),
-            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t as i32),
+            TimestampFormat::EpochNumber(t) => epoch_to_iso(*t),
         }
     }
 
     pub fn to_epoch_number(&self) -> i64 {
         match self {
-            TimestampFormat::ISOString(s) => iso_to_epoch(s) as i64,
+            TimestampFormat::ISOString(s) => iso_to_epoch(s),
             &TimestampFormat::EpochNumber(t) => t,
         }
     }
diff --git a/src/utils.rs b/src/utils.rs
index d9bb19e..40ba51b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -1,15 +1,14 @@
 //! Misc local utilities
 use chrono::{DateTime, offset::Utc};
 
-pub fn epoch_to_iso(epoch: i32) -> String {
+pub fn epoch_to_iso(epoch: i64) -> String {
     // Chrono is a little silly and can't easily convert from epoch to utc timezone
-    let d: DateTime<Utc> =
-        DateTime::from_timestamp(epoch as i64, 0).expect("epoch timestamp too high");
+    let d: DateTime<Utc> = DateTime::from_timestamp(epoch, 0).expect("epoch timestamp too high");
     d.to_rfc3339_opts(chrono::SecondsFormat::Secs, true)
 }
 
-pub fn iso_to_epoch(iso: &str) -> u32 {
+pub fn iso_to_epoch(iso: &str) -> i64 {
     DateTime::parse_from_rfc3339(iso)
-        .map(|x| x.timestamp() as u32)
+        .map(|x| x.timestamp())
         .unwrap_or(0)
 }
-- 
2.43.0


From 4cfd0c8b5a0a082e93c6ce12eaf8d2d8d1a0f48a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:45 +0000
Subject: [PATCH 18/41] fix: ISO timestamps with different offsets are compared
 as text

---
 src/lib.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 59e9df5..e0a68ca 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -293,10 +293,22 @@ impl fmt::Display for TimestampFormat {
     }
 }
 
+/// Compare 2 ISO timestamps by the instant they stand for. The same instant can be written in
+/// different ways. If either isn't a valid timestamp, they are compared as strings.
+fn cmp_iso(a: &str, b: &str) -> std::cmp::Ordering {
+    match (
+        chrono::DateTime::parse_from_rfc3339(a),
+        chrono::DateTime::parse_from_rfc3339(b),
+    ) {
+        (Ok(a), Ok(b)) => a.cmp(&b),
+        _ => a.cmp(b),
+    }
+}
+
 impl std::cmp::PartialOrd for TimestampFormat {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.partial_cmp(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => Some(cmp_iso(a, b)),
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
             (a, b) => a.to_epoch_number().partial_cmp(&b.to_epoch_number()),
         }
@@ -305,7 +317,7 @@ impl std::cmp::PartialOrd for TimestampFormat {
 impl std::cmp::PartialEq for TimestampFormat {
     fn eq(&self, other: &Self) -> bool {
         match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => a.eq(b),
+            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => cmp_iso(a, b).is_eq(),
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
             (a, b) => a.to_epoch_number().eq(&b.to_epoch_number()),
         }
-- 
2.43.0


From 5ed6069b26cd82879020a706887c304b129e14af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:51 +0000
Subject: [PATCH 19/41] fix: NaN is accepted as a coordinate and becomes 0

---
 src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index e0a68ca..09fd980 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -159,6 +159,7 @@ macro_rules! lat_lon_impl {
                 match (f64::from_str(s)? * COORD_SCALE_FACTOR).round() {
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
+                    x if x.is_nan() => Err(ParseLatLonError::NotANumber),
                     x => Ok(Self(x as i32)),
                 }
             }
@@ -176,6 +177,7 @@ macro_rules! lat_lon_impl {
                 match (val * COORD_SCALE_FACTOR).round() {
                     x if x > (i32::MAX as f64) => Err(ParseLatLonError::TooLarge(x)),
                     x if x < (i32::MIN as f64) => Err(ParseLatLonError::TooSmall(x)),
+                    x if x.is_nan() => Err(ParseLatLonError::NotANumber),
                     x => Ok(Self(x as i32)),
                 }
             }
@@ -213,6 +215,9 @@ pub enum ParseLatLonError {
     /// This should never happen for "normal" Lats and Lons, i.e. those between (-90..90) or
     /// (-180..+180), respectively.
     TooSmall(f64),
+
+    /// The float was NaN
+    NotANumber,
 }
 
 impl std::error::Error for ParseLatLonError {
@@ -231,6 +236,7 @@ impl Display for ParseLatLonError {
             Self::ParseFloatError(inner) => Display::fmt(inner, f),
             Self::TooLarge(float) => write!(f, "{} is too large to represent as a Lat/Lon", float),
             Self::TooSmall(float) => write!(f, "{} is too small to represent as a Lat/Lon", float),
+            Self::NotANumber => write!(f, "NaN cannot be represented as a Lat/Lon"),
         }
     }
 }
-- 
2.43.0


From 81abf4b62c21753af7a8a07cbbd8a9af4e702456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:19 +0000
Subject: [PATCH 20/41] fix: OSC reader does not report objects in a delete
 section as deleted

---
 src/osc/mod.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 5af1d14..cd1ae9e 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -1,7 +1,7 @@
 //! OSC File format
 
 use super::version;
-use super::{Node, OSMObj, OSMObjectType, Relation, Way};
+use super::{Node, OSMObj, OSMObjBase, OSMObjectType, Relation, Way};
 use super::{OSMReader, OSMWriteError, OSMWriter};
 use crate::obj_types::StringOSMObj;
 use std::io::{BufReader, Read, Write};
@@ -13,6 +13,8 @@ use xml_rs::reader::{EventReader, Events, XmlEvent};
 
 pub struct OSCReader<R: Read> {
     parser: Events<BufReader<R>>,
+    /// True iff we are inside a `<delete>` section
+    in_delete: bool,
 }
 
 #[derive(PartialEq)]
@@ -35,6 +37,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     fn new(reader: R) -> Self {
         OSCReader {
             parser: EventReader::new(BufReader::new(reader)).into_iter(),
+            in_delete: false,
         }
     }
 
@@ -67,12 +70,18 @@ impl<R: Read> OSMReader for OSCReader<R> {
                     "node" | "way" | "relation" => {
                         should_push = true;
                     }
+                    "delete" if !should_push => {
+                        self.in_delete = true;
+                    }
                     _ => {}
                 },
                 XmlEvent::EndElement { ref name, .. } => match name.local_name.as_str() {
                     "node" | "way" | "relation" => {
                         should_break = true;
                     }
+                    "delete" if !should_push => {
+                        self.in_delete = false;
+                    }
                     _ => {}
                 },
                 _ => {}
@@ -86,7 +95,11 @@ impl<R: Read> OSMReader for OSCReader<R> {
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        let mut obj = xml_elements_to_osm_obj(&mut elements)?;
+        if self.in_delete {
+            obj.set_deleted(true);
+        }
+        Some(obj)
     }
 }
 
-- 
2.43.0


From b4e5f70534544e4c5210c7daa666c7234e05ed56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:23 +0000
Subject: [PATCH 21/41] fix: inner() of the XML and OSC readers panics

---
 src/osc/mod.rs | 2 +-
 src/xml/mod.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index cd1ae9e..bebda82 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -46,7 +46,7 @@ impl<R: Read> OSMReader for OSCReader<R> {
     }
 
     fn inner(&self) -> &R {
-        todo!("{} {} OSCReader inner()", file!(), line!());
+        self.parser.source().get_ref()
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index dd8c445..52b93d4 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -99,7 +99,7 @@ impl<R: Read> OSMReader for XMLReader<R> {
     }
 
     fn inner(&self) -> &R {
-        todo!("{} {} XMLReader inner()", file!(), line!());
+        self.parser.source().get_ref()
     }
 
     fn next(&mut self) -> Option<StringOSMObj> {
-- 
2.43.0


From 38416cc5f38faae8f70e59ed4455425681ba510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 22/41] fix: changeset reader loops forever if the file ends
 inside a changeset

---
 src/changesets.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index 81244de..31943da 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -204,6 +204,7 @@ impl<R: Read> ChangesetReader<R> {
                                 ensure!(v.is_some(), "No v for tag");
                                 tags.insert(k.unwrap(), v.unwrap());
                             }
+                            Event::Eof => bail!("Unexpected end of file in a changeset"),
                             _ => continue,
                         }
                     }
-- 
2.43.0


From 2766dda79457d9247854dd24ecc5011cba47b9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:52 +0000
Subject: [PATCH 23/41] fix: changeset tag reader silently drops a changeset
 which is cut off

---
 src/changesets.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 31943da..b9c2bed 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -346,16 +346,18 @@ impl<R: Read> ChangesetTagReader<R> {
         loop {
             match self.reader.read_event_into(&mut buf)? {
                 Event::Eof => {
+                    ensure!(
+                        self.curr_id.take().is_none(),
+                        "Unexpected end of file in a changeset"
+                    );
                     return Ok(None);
                 }
                 Event::End(ref e) => {
                     if e.name().local_name().as_ref() == b"changeset" {
-                        ensure!(self.curr_id.is_some(), "Should be an id set");
+                        let curr_id = self.curr_id.take();
+                        ensure!(curr_id.is_some(), "Should be an id set");
 
-                        return Ok(Some((
-                            self.curr_id.unwrap(),
-                            std::mem::take(&mut self.tags),
-                        )));
+                        return Ok(Some((curr_id.unwrap(), std::mem::take(&mut self.tags))));
                     }
                 }
                 Event::Start(ref e) if e.name().local_name().as_ref() == b"changeset" => {
-- 
2.43.0


From a1ca7e616a250b8ea23642e7879ea9f1d5fe1ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:56 +0000
Subject: [PATCH 24/41] fix: dropping an XML or OSC writer panics if the
 underlying writer fails

---
 src/osc/mod.rs | 4 +++-
 src/xml/mod.rs | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index bebda82..406dd7f 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -257,6 +257,8 @@ impl<W: Write> OSMWriter<W> for OSCWriter<W> {
 
 impl<W: Write> Drop for OSCWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // There is no way to report an error here, and a panic might abort the process. Call
+        // close() to find out about errors.
+        let _ = self.close();
     }
 }
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 52b93d4..15651ea 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -541,7 +541,9 @@ impl<W: Write> OSMWriter<W> for XMLWriter<W> {
 
 impl<W: Write> Drop for XMLWriter<W> {
     fn drop(&mut self) {
-        self.close().unwrap();
+        // There is no way to report an error here, and a panic might abort the process. Call
+        // close() to find out about errors.
+        let _ = self.close();
     }
 }
 
-- 
2.43.0


From c039ea57e6dc0a22f05f3664ab748792a13112ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:00 +0000
Subject: [PATCH 25/41] fix: set_header panics for formats without headers

---
 src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib.rs b/src/lib.rs
index 09fd980..db30ff0 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -748,7 +748,7 @@ pub trait OSMWriter<W: Write> {
     fn into_inner(self) -> W;
 
     fn set_header(&mut self, _key_value: (&str, &str)) -> Result<(), OSMWriteError> {
-        todo!("set_header not done yet")
+        Err(OSMWriteError::FormatDoesntSupportHeaders)
     }
 
     /// Create a new OSMWriter, consume all the objects from an OSMObj iterator source, and then
-- 
2.43.0


From 087162bb9e7144caa0efba0df0df4616a3a54625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:13 +0000
Subject: [PATCH 26/41] Hook: make empty Rc and Arc objects, with --cfg
 osmio_verif

---
 src/obj_types/mod.rs         |  3 +++
 src/obj_types/verif_hooks.rs | 33 +++++++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+)
 create mode 100644 src/obj_types/verif_hooks.rs

diff --git a/src/obj_types/mod.rs b/src/obj_types/mod.rs
index 964fe3a..a14bca4 100644
--- a/src/obj_types/mod.rs
+++ b/src/obj_types/mod.rs
@@ -1,7 +1,10 @@
 //! Base OpenStreetMap object types
+#![allow(unexpected_cfgs)]
 mod arc_types;
 mod rc_types;
 mod string_types;
+#[cfg(osmio_verif)]
+mod verif_hooks;
 
 use crate::{Node, OSMObjBase, Relation, Way};
 
diff --git a/src/obj_types/verif_hooks.rs b/src/obj_types/verif_hooks.rs
new file mode 100644
index 0000000..8794339
--- /dev/null
+++ b/src/obj_types/verif_hooks.rs
@@ -0,0 +1,33 @@
+//! Make empty shared-string objects.
+//!
+//! Only compiled with `--cfg osmio_verif`. There is no other way to get an Rc object.
+use super::*;
+use crate::ObjId;
+
+macro_rules! empty_object {
+    ($type:ident, $list:ident) => {
+        impl $type {
+            /// An object with this id and nothing else
+            pub fn verif_empty(id: ObjId) -> Self {
+                $type {
+                    _id: id,
+                    _version: Default::default(),
+                    _deleted: Default::default(),
+                    _changeset_id: Default::default(),
+                    _timestamp: Default::default(),
+                    _uid: Default::default(),
+                    _user: Default::default(),
+                    _tags: Default::default(),
+                    $list: Default::default(),
+                }
+            }
+        }
+    };
+}
+
+empty_object!(RcNode, _lat_lon);
+empty_object!(RcWay, _nodes);
+empty_object!(RcRelation, _members);
+empty_object!(ArcNode, _lat_lon);
+empty_object!(ArcWay, _nodes);
+empty_object!(ArcRelation, _members);
-- 
2.43.0


From 22d5f864c6e0e6d35fe896253fb4e40a76ee5847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:59 +0000
Subject: [PATCH 27/41] fix: changeset tag reader returns untagged changesets
 which have a discussion

---
 src/changesets.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/changesets.rs b/src/changesets.rs
index b9c2bed..5ee8a66 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -357,6 +357,11 @@ impl<R: Read> ChangesetTagReader<R> {
                         let curr_id = self.curr_id.take();
                         ensure!(curr_id.is_some(), "Should be an id set");
 
+                        if self.tags.is_empty() {
+                            // not tagged, but there is e.g. a discussion
+                            continue;
+                        }
+
                         return Ok(Some((curr_id.unwrap(), std::mem::take(&mut self.tags))));
                     }
                 }
-- 
2.43.0


From 6ecd6214408e502b9f5d5d8e40b04528db6bb94c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:24 +0000
Subject: [PATCH 28/41] fix: PBF readers panic on nodes which are not dense

---
 src/arcpbf/mod.rs            | 56 ++++++++++++++++++++++++++++++------
 src/stringpbf/mod.rs         | 54 ++++++++++++++++++++++++++++------
 src/stringpbf/node_id_pos.rs |  8 +++++-
 3 files changed, 101 insertions(+), 17 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 83d0b0e..962dd88 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -93,15 +93,55 @@ impl<R: Read> FileReader<R> {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[Option<Arc<str>>],
-    _results: &mut [ArcOSMObj],
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[Option<Arc<str>>],
+    results: &mut Vec<ArcOSMObj>,
 ) {
-    unimplemented!("Dense node");
+    results.reserve(primitive_group.nodes.len());
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let tags: Vec<_> = keys
+            .zip(vals)
+            .filter_map(|(k, v)| match (k, v) {
+                (Some(k), Some(v)) => Some((k, v)),
+                _ => None,
+            })
+            .collect();
+
+        let internal_lat = decode_coord(node.lat(), granularity, lat_offset);
+        let internal_lon = decode_coord(node.lon(), granularity, lon_offset);
+
+        let timestamp = node
+            .info
+            .timestamp
+            .map(|t| decode_timestamp(t, date_granularity));
+
+        results.push(ArcOSMObj::Node(ArcNode {
+            _id: node.id() as ObjId,
+            _tags: Some(tags),
+            _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|c| c as u32),
+            _uid: node.info.uid.map(|u| u as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone().unwrap()),
+            _version: node.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
+        }));
+    }
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 64ce5af..3d937c9 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -99,15 +99,53 @@ impl<R: Read> FileReader<R> {
 }
 
 fn decode_nodes(
-    _primitive_group: &osmformat::PrimitiveGroup,
-    _granularity: i32,
-    _lat_offset: i64,
-    _lon_offset: i64,
-    _date_granularity: i32,
-    _stringtable: &[SmolStr],
-    _sink: &mut VecDeque<StringOSMObj>,
+    primitive_group: &osmformat::PrimitiveGroup,
+    granularity: i32,
+    lat_offset: i64,
+    lon_offset: i64,
+    date_granularity: i32,
+    stringtable: &[SmolStr],
+    results: &mut VecDeque<StringOSMObj>,
 ) -> usize {
-    unimplemented!("Dense node");
+    let mut num_objects_written = 0;
+    results.reserve(primitive_group.nodes.len());
+    for node in primitive_group.nodes.iter() {
+        let keys = node
+            .keys
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        let vals = node
+            .vals
+            .iter()
+            .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
+        let tags: SmallVec<_> = keys.zip(vals).collect();
+
+        let internal_lat = decode_coord(node.lat(), granularity, lat_offset);
+        let internal_lon = decode_coord(node.lon(), granularity, lon_offset);
+
+        let timestamp = node
+            .info
+            .timestamp
+            .map(|t| decode_timestamp(t, date_granularity));
+
+        results.push_back(StringOSMObj::Node(StringNode {
+            _id: node.id() as ObjId,
+            _tags: tags,
+            _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
+            _deleted: !node.info.visible.unwrap_or(true),
+            _changeset_id: node.info.changeset.map(|c| c as u32),
+            _uid: node.info.uid.map(|u| u as u32),
+            _user: node
+                .info
+                .user_sid
+                .map(|sid| stringtable[sid as usize].clone()),
+            _version: node.info.version.map(|v| v as u32),
+            _timestamp: timestamp,
+        }));
+        num_objects_written += 1;
+    }
+    num_objects_written
 }
 
 fn decode_dense_nodes(
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index b2e0776..89f0953 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -80,7 +80,13 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
 
     for primitive_group in block.primitivegroup.iter() {
         if !primitive_group.nodes.is_empty() {
-            unimplemented!()
+            for node in primitive_group.nodes.iter() {
+                let internal_lat = decode_coord(node.lat(), *granularity, *lat_offset);
+                let internal_lon = decode_coord(node.lon(), *granularity, *lon_offset);
+
+                sink.push_back((node.id() as ObjId, (Lat(internal_lat), Lon(internal_lon))));
+                num_objects += 1;
+            }
         } else if !primitive_group.ways.is_empty() || !primitive_group.relations.is_empty() {
             continue;
         } else if primitive_group.dense.is_some() {
-- 
2.43.0


From 6536506fe38d5e7869c708a2b29f0b8be98fb893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:36 +0000
Subject: [PATCH 29/41] fix: changeset reader refuses an open flag written with
 character references

---
 src/changesets.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index 5ee8a66..ab4c1ed 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -137,11 +137,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
@@ -240,11 +242,13 @@ impl<R: Read> ChangesetReader<R> {
                                 ));
                             }
                             b"open" => {
-                                changeset_builder.open(match attr.value.as_ref() {
-                                    b"true" => true,
-                                    b"false" => false,
-                                    _ => bail!("unknown value"),
-                                });
+                                changeset_builder.open(
+                                    match attr.normalized_value(XmlVersion::Implicit1_0)?.as_ref() {
+                                        "true" => true,
+                                        "false" => false,
+                                        _ => bail!("unknown value"),
+                                    },
+                                );
                             }
                             b"user" => {
                                 changeset_builder.user(
-- 
2.43.0


From 157795cc42364a886b5466348215e12ff59fa674 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:44 +0000
Subject: [PATCH 30/41] fix: XML writer writes version or generator twice if
 they are set as headers

---
 src/xml/mod.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 15651ea..96fb9bb 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -383,11 +383,14 @@ impl<W: Write> XMLWriter<W> {
     fn ensure_header(&mut self) -> Result<(), OSMWriteError> {
         if self._state == State::Initial {
             writeln!(self.writer, "<?xml version=\"1.0\" encoding=\"utf-8\"?>")?;
-            write!(
-                self.writer,
-                "<osm version=\"0.6\" generator=\"osmio/{}\"",
-                version()
-            )?;
+            // An attribute must not be there twice
+            write!(self.writer, "<osm")?;
+            if !self.headers.contains_key("version") {
+                write!(self.writer, " version=\"0.6\"")?;
+            }
+            if !self.headers.contains_key("generator") {
+                write!(self.writer, " generator=\"osmio/{}\"", version())?;
+            }
 
             for (k, v) in self.headers.iter() {
                 write!(self.writer, " {}=\"", k)?;
-- 
2.43.0


From 1d364f6c64bfc90c1d797ab471b0e19f359df4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:22 +0000
Subject: [PATCH 31/41] fix: PBF readers allocate whatever size a file claims

---
 src/arcpbf/mod.rs    | 15 ++++++---------
 src/pbf/mod.rs       | 13 +++++++++++++
 src/stringpbf/mod.rs | 12 ++++--------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 962dd88..bc75d41 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -9,7 +9,7 @@ use std::iter::Iterator;
 use std::sync::Arc;
 
 use super::*;
-use crate::pbf::{decode_coord, decode_timestamp};
+use crate::pbf::{MAX_BLOCK_SIZE, decode_coord, decode_timestamp, read_bytes};
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -30,7 +30,8 @@ fn blob_raw_data(blob: &mut fileformat::Blob) -> Option<Vec<u8>> {
         Some(blob.take_raw())
     } else if let Some(zlib_data) = &blob.zlib_data {
         let cursor = Cursor::new(zlib_data);
-        let mut bytes = Vec::with_capacity(blob.raw_size().max(0) as usize);
+        let size = usize::try_from(blob.raw_size()).unwrap_or(0);
+        let mut bytes = Vec::with_capacity(size.min(MAX_BLOCK_SIZE));
         ZlibDecoder::new(cursor).read_to_end(&mut bytes).ok()?;
 
         Some(bytes)
@@ -68,17 +69,13 @@ impl<R: Read> FileReader<R> {
                 .as_slice()
                 .read_u32::<byteorder::BigEndian>()
                 .unwrap();
-            let mut header_bytes_vec = vec![0; size as usize];
-
-            self.reader
-                .read_exact(header_bytes_vec.as_mut_slice())
-                .unwrap();
+            let header_bytes_vec = read_bytes(&mut self.reader, size.into());
 
             let blob_header: fileformat::BlobHeader =
                 fileformat::BlobHeader::parse_from_bytes(header_bytes_vec.as_slice()).unwrap();
 
-            let mut blob_bytes = vec![0; blob_header.datasize.unwrap() as usize];
-            self.reader.read_exact(blob_bytes.as_mut_slice()).unwrap();
+            let blob_size = u64::try_from(blob_header.datasize.unwrap()).unwrap();
+            let blob_bytes = read_bytes(&mut self.reader, blob_size);
 
             if blob_header.type_.unwrap() != "OSMData" {
                 // keep going to the next blob
diff --git a/src/pbf/mod.rs b/src/pbf/mod.rs
index 62247fc..46dae48 100644
--- a/src/pbf/mod.rs
+++ b/src/pbf/mod.rs
@@ -2,6 +2,19 @@
 pub use crate::stringpbf::*;
 
 use crate::{COORD_PRECISION_NANOS, TimestampFormat};
+use std::io::Read;
+
+/// The format allows no uncompressed block larger than this.
+pub(crate) const MAX_BLOCK_SIZE: usize = 32 * 1024 * 1024;
+
+/// Read this many bytes. Only what is really there is ever allocated, whatever size the file claims,
+/// beyond the maximum size of a block.
+pub(crate) fn read_bytes(reader: &mut impl Read, size: u64) -> Vec<u8> {
+    let mut bytes = Vec::with_capacity(size.min(MAX_BLOCK_SIZE as u64) as usize);
+    reader.take(size).read_to_end(&mut bytes).unwrap();
+    assert_eq!(bytes.len() as u64, size, "unexpected end of file");
+    bytes
+}
 
 /// Convert a coordinate as stored in a PBF file into our internal units. The granularity & offset
 /// are in nanodegrees.
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 3d937c9..809ed5e 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -13,7 +13,7 @@ use std::io::{Cursor, Read};
 use std::iter::Iterator;
 
 use super::*;
-use crate::pbf::{decode_coord, decode_timestamp};
+use crate::pbf::{decode_coord, decode_timestamp, read_bytes};
 
 use flate2::read::ZlibDecoder;
 
@@ -74,17 +74,13 @@ impl<R: Read> FileReader<R> {
                 .as_slice()
                 .read_u32::<byteorder::BigEndian>()
                 .unwrap();
-            let mut header_bytes_vec = vec![0; size as usize];
-
-            self.reader
-                .read_exact(header_bytes_vec.as_mut_slice())
-                .unwrap();
+            let header_bytes_vec = read_bytes(&mut self.reader, size.into());
 
             let blob_header: fileformat::BlobHeader =
                 fileformat::BlobHeader::parse_from_bytes(&header_bytes_vec).unwrap();
 
-            let mut blob_bytes = vec![0; blob_header.datasize() as usize];
-            self.reader.read_exact(blob_bytes.as_mut_slice()).unwrap();
+            let blob_size = u64::try_from(blob_header.datasize()).unwrap();
+            let blob_bytes = read_bytes(&mut self.reader, blob_size);
 
             if blob_header.type_.unwrap() != "OSMData" {
                 // keep going to the next blob
-- 
2.43.0


From 06207f98164088b5f49bcbdc5756559e1c0f6cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:10 +0000
Subject: [PATCH 32/41] fix: PBF readers accept blocks which are cut off inside
 a nested message

---
 src/arcpbf/mod.rs            | 5 ++---
 src/pbf/mod.rs               | 9 +++++++++
 src/stringpbf/mod.rs         | 5 ++---
 src/stringpbf/node_id_pos.rs | 6 ++----
 4 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index bc75d41..f4c934f 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -9,7 +9,7 @@ use std::iter::Iterator;
 use std::sync::Arc;
 
 use super::*;
-use crate::pbf::{MAX_BLOCK_SIZE, decode_coord, decode_timestamp, read_bytes};
+use crate::pbf::{MAX_BLOCK_SIZE, decode_coord, decode_timestamp, parse_message, read_bytes};
 use protobuf::Message;
 
 use flate2::read::ZlibDecoder;
@@ -567,8 +567,7 @@ impl<R: Read> OSMReader for PBFReader<R> {
             let mut blob = self.filereader.next()?;
 
             let blob_data = blob_raw_data(&mut blob).unwrap();
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
+            let block: osmformat::PrimitiveBlock = parse_message(&blob_data).unwrap();
 
             // Turn a block into OSM objects
             let mut objs = decode_block_to_objs(block);
diff --git a/src/pbf/mod.rs b/src/pbf/mod.rs
index 46dae48..e944e95 100644
--- a/src/pbf/mod.rs
+++ b/src/pbf/mod.rs
@@ -2,6 +2,7 @@
 pub use crate::stringpbf::*;
 
 use crate::{COORD_PRECISION_NANOS, TimestampFormat};
+use protobuf::{CodedInputStream, Message};
 use std::io::Read;
 
 /// The format allows no uncompressed block larger than this.
@@ -16,6 +17,14 @@ pub(crate) fn read_bytes(reader: &mut impl Read, size: u64) -> Vec<u8> {
     bytes
 }
 
+/// Parse a message which fills all these bytes. The protobuf library itself takes the end of the
+/// bytes for the end of whatever message is then being read.
+pub(crate) fn parse_message<M: Message>(bytes: &[u8]) -> protobuf::Result<M> {
+    let mut stream = CodedInputStream::from_bytes(bytes);
+    stream.push_limit(bytes.len() as u64)?;
+    M::parse_from(&mut stream)
+}
+
 /// Convert a coordinate as stored in a PBF file into our internal units. The granularity & offset
 /// are in nanodegrees.
 pub(crate) fn decode_coord(raw: i64, granularity: i32, offset: i64) -> i32 {
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 809ed5e..9ad6e9e 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -13,7 +13,7 @@ use std::io::{Cursor, Read};
 use std::iter::Iterator;
 
 use super::*;
-use crate::pbf::{decode_coord, decode_timestamp, read_bytes};
+use crate::pbf::{decode_coord, decode_timestamp, parse_message, read_bytes};
 
 use flate2::read::ZlibDecoder;
 
@@ -565,8 +565,7 @@ impl<R: Read> PBFReader<R> {
 
             blob_data.clear();
             blob_raw_data(&mut blob, &mut blob_data, object_filter);
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(&blob_data).unwrap();
+            let block: osmformat::PrimitiveBlock = parse_message(&blob_data).unwrap();
 
             // Turn a block into OSM objects
             decode_block_to_objs(block, object_filter, &mut self.buffer);
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 89f0953..8ef6186 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -5,8 +5,7 @@ use std::iter::Iterator;
 use std::collections::VecDeque;
 
 use super::*;
-use crate::pbf::decode_coord;
-use protobuf::Message;
+use crate::pbf::{decode_coord, parse_message};
 
 /// (node id, (latitude, longitude))
 type NodeIdPos = (ObjId, (Lat, Lon));
@@ -61,8 +60,7 @@ impl<R: Read> Iterator for PBFNodePositionReader<R> {
             let mut blob = self.filereader.next()?;
 
             blob_raw_data(&mut blob, &mut blob_data, &(true, false, false));
-            let block: osmformat::PrimitiveBlock =
-                osmformat::PrimitiveBlock::parse_from_bytes(blob_data.as_slice()).unwrap();
+            let block: osmformat::PrimitiveBlock = parse_message(&blob_data).unwrap();
 
             // Turn a block into OSM objects
             let _num_objects_read = decode_block_to_objs(block, &mut self.buffer);
-- 
2.43.0


From 34f86bc996fc4414f7a7266cfd3a016630c22708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:06 +0000
Subject: [PATCH 33/41] fix: a timestamp with a fraction of a second equals the
 whole second

---
 src/lib.rs | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index db30ff0..2cc7639 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -311,12 +311,25 @@ fn cmp_iso(a: &str, b: &str) -> std::cmp::Ordering {
     }
 }
 
+/// Compare an ISO timestamp, which may have a fraction of a second, with a whole second.
+fn cmp_iso_epoch(iso: &str, epoch: i64) -> std::cmp::Ordering {
+    match chrono::DateTime::parse_from_rfc3339(iso) {
+        Ok(d) => (d.timestamp(), d.timestamp_subsec_nanos()).cmp(&(epoch, 0)),
+        Err(_) => utils::iso_to_epoch(iso).cmp(&epoch),
+    }
+}
+
 impl std::cmp::PartialOrd for TimestampFormat {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
         match (self, other) {
             (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => Some(cmp_iso(a, b)),
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
-            (a, b) => a.to_epoch_number().partial_cmp(&b.to_epoch_number()),
+            (TimestampFormat::ISOString(a), TimestampFormat::EpochNumber(b)) => {
+                Some(cmp_iso_epoch(a, *b))
+            }
+            (TimestampFormat::EpochNumber(a), TimestampFormat::ISOString(b)) => {
+                Some(cmp_iso_epoch(b, *a).reverse())
+            }
         }
     }
 }
@@ -325,7 +338,10 @@ impl std::cmp::PartialEq for TimestampFormat {
         match (self, other) {
             (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => cmp_iso(a, b).is_eq(),
             (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
-            (a, b) => a.to_epoch_number().eq(&b.to_epoch_number()),
+            (TimestampFormat::ISOString(a), TimestampFormat::EpochNumber(b))
+            | (TimestampFormat::EpochNumber(b), TimestampFormat::ISOString(a)) => {
+                cmp_iso_epoch(a, *b).is_eq()
+            }
         }
     }
 }
-- 
2.43.0


From eb006c55d507236f250983e3da513eea09182a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:22 +0000
Subject: [PATCH 34/41] fix: changeset readers go on reading a source which has
 failed

---
 src/changesets.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index ab4c1ed..a28fe26 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -82,6 +82,12 @@ impl Changeset {
 pub struct ChangesetReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     buf: Vec<u8>,
+    /// The source has failed, and is not read again
+    failed: bool,
+}
+
+fn is_io_error<T>(res: &Result<T>) -> bool {
+    matches!(res, Err(e) if matches!(e.downcast_ref(), Some(quick_xml::Error::Io(_))))
 }
 
 impl<R: Read> ChangesetReader<R> {
@@ -92,6 +98,7 @@ impl<R: Read> ChangesetReader<R> {
         ChangesetReader {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             buf: Vec::new(),
+            failed: false,
         }
     }
 
@@ -105,6 +112,15 @@ impl<R: Read> ChangesetReader<R> {
     }
 
     pub fn next_changeset(&mut self) -> Result<Option<Changeset>> {
+        if self.failed {
+            return Ok(None);
+        }
+        let res = self.read_changeset();
+        self.failed = is_io_error(&res);
+        res
+    }
+
+    fn read_changeset(&mut self) -> Result<Option<Changeset>> {
         // move forward until we are at a changeset tag (happens at the start)
         self.buf.clear();
         let changeset;
@@ -322,6 +338,8 @@ pub struct ChangesetTagReader<R: Read> {
     reader: quick_xml::Reader<BufReader<R>>,
     curr_id: Option<u64>,
     tags: Vec<(String, String)>,
+    /// The source has failed, and is not read again
+    failed: bool,
 }
 
 impl ChangesetTagReader<bzip2::read::MultiBzDecoder<std::fs::File>> {
@@ -340,6 +358,7 @@ impl<R: Read> ChangesetTagReader<R> {
             reader: quick_xml::Reader::from_reader(BufReader::new(reader)),
             curr_id: None,
             tags: Vec::new(),
+            failed: false,
         }
     }
 
@@ -414,6 +433,11 @@ impl<R: Read> Iterator for ChangesetTagReader<R> {
     type Item = Result<(u64, Vec<(String, String)>)>;
 
     fn next(&mut self) -> Option<Self::Item> {
-        self.next_tag().transpose()
+        if self.failed {
+            return None;
+        }
+        let res = self.next_tag();
+        self.failed = is_io_error(&res);
+        res.transpose()
     }
 }
-- 
2.43.0


From d7e639d9fe8bb37cbe540fd82f9e019971ee875f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:10 +0000
Subject: [PATCH 35/41] fix: PBF readers panicked on a dense node whose uid is
 2147483647

---
 src/arcpbf/mod.rs    | 1 -
 src/stringpbf/mod.rs | 1 -
 2 files changed, 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index f4c934f..ab2c29c 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -236,7 +236,6 @@ fn decode_dense_nodes(
         });
         let uid_id = uids.get(index).map(|delta| {
             last_uid += delta;
-            assert!(last_uid < i32::MAX);
             last_uid as u32
         });
         let user = user_sids.get(index).map(|delta| {
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 9ad6e9e..2c0abb9 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -224,7 +224,6 @@ fn decode_dense_nodes(
         });
         let uid_id = uids.get(index).map(|delta| {
             last_uid += delta;
-            assert!(last_uid < i32::MAX);
             last_uid as u32
         });
         let user = user_sids.get(index).map(|delta| {
-- 
2.43.0


From 43184fb182e1f6e13af9f907e4057e0c0f0102db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:14 +0000
Subject: [PATCH 36/41] fix: XML and OSC readers took an object without a valid
 id for the end of the file

---
 src/osc/mod.rs | 6 +++++-
 src/xml/mod.rs | 7 ++++++-
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/osc/mod.rs b/src/osc/mod.rs
index 406dd7f..6de92fd 100644
--- a/src/osc/mod.rs
+++ b/src/osc/mod.rs
@@ -95,7 +95,11 @@ impl<R: Read> OSMReader for OSCReader<R> {
             }
         }
 
-        let mut obj = xml_elements_to_osm_obj(&mut elements)?;
+        if elements.is_empty() {
+            // the end of the document
+            return None;
+        }
+        let mut obj = xml_elements_to_osm_obj(&mut elements).expect("object without a valid id");
         if self.in_delete {
             obj.set_deleted(true);
         }
diff --git a/src/xml/mod.rs b/src/xml/mod.rs
index 96fb9bb..8332962 100644
--- a/src/xml/mod.rs
+++ b/src/xml/mod.rs
@@ -142,7 +142,12 @@ impl<R: Read> OSMReader for XMLReader<R> {
             }
         }
 
-        xml_elements_to_osm_obj(&mut elements)
+        if elements.is_empty() {
+            // the end of the document
+            return None;
+        }
+        let obj = xml_elements_to_osm_obj(&mut elements).expect("object without a valid id");
+        Some(obj)
     }
 }
 
-- 
2.43.0


From 4814ce4f7a168ea12aa6a39a51fa160871584657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:25:31 +0000
Subject: [PATCH 37/41] fix: the changeset readers don't keep what they skip

The buffer for XML events was only cleared between changesets (or changesets
with tags, for the ChangesetTagReader), so the memory used grew with all the
elements skipped in between.
---
 src/changesets.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/changesets.rs b/src/changesets.rs
index a28fe26..418f2f4 100644
--- a/src/changesets.rs
+++ b/src/changesets.rs
@@ -122,9 +122,9 @@ impl<R: Read> ChangesetReader<R> {
 
     fn read_changeset(&mut self) -> Result<Option<Changeset>> {
         // move forward until we are at a changeset tag (happens at the start)
-        self.buf.clear();
         let changeset;
         loop {
+            self.buf.clear();
             match self.reader.read_event_into(&mut self.buf)? {
                 Event::Eof => {
                     return Ok(None);
@@ -188,6 +188,7 @@ impl<R: Read> ChangesetReader<R> {
                     let mut tags = HashMap::new();
                     let mut buf = Vec::new();
                     loop {
+                        buf.clear();
                         match self.reader.read_event_into(&mut buf)? {
                             Event::End(ref e) => {
                                 if e.name().local_name().as_ref() == "changeset".as_bytes() {
@@ -367,6 +368,7 @@ impl<R: Read> ChangesetTagReader<R> {
     fn next_tag(&mut self) -> Result<Option<(u64, Vec<(String, String)>)>> {
         let mut buf = Vec::new();
         loop {
+            buf.clear();
             match self.reader.read_event_into(&mut buf)? {
                 Event::Eof => {
                     ensure!(
-- 
2.43.0


From 22ecc4221d2a3ff798fe9c80bc4492ac2bc18b83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:29 +0000
Subject: [PATCH 38/41] fix: nodes which have no tags are equal to each other

An ArcNode or RcNode whose last tag was removed, and an ArcNode which was read
without tags from some layouts of PBF, had an empty list of tags instead of
none, and was not equal to the same node without tags from elsewhere.
---
 src/arcpbf/mod.rs          | 4 ++--
 src/obj_types/arc_types.rs | 4 ++++
 src/obj_types/rc_types.rs  | 4 ++++
 3 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index ab2c29c..9f46652 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -126,7 +126,7 @@ fn decode_nodes(
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: node.id() as ObjId,
-            _tags: Some(tags),
+            _tags: Some(tags).filter(|t| !t.is_empty()),
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !node.info.visible.unwrap_or(true),
             _changeset_id: node.info.changeset.map(|c| c as u32),
@@ -249,7 +249,7 @@ fn decode_dense_nodes(
 
         results.push(ArcOSMObj::Node(ArcNode {
             _id: id as ObjId,
-            _tags: tags,
+            _tags: tags.filter(|t: &Vec<_>| !t.is_empty()),
             _lat_lon: Some((Lat(internal_lat), Lon(internal_lon))),
             _deleted: !denseinfo.visible.get(index).unwrap_or(&true),
             _changeset_id: changeset_id,
diff --git a/src/obj_types/arc_types.rs b/src/obj_types/arc_types.rs
index fd97482..da65f08 100644
--- a/src/obj_types/arc_types.rs
+++ b/src/obj_types/arc_types.rs
@@ -348,6 +348,10 @@ impl OSMObjBase for ArcNode {
                 .next();
             if let Some(i) = idx {
                 tags.remove(i);
+                if tags.is_empty() {
+                    // same as an object which never had tags
+                    self._tags = None;
+                }
             }
         }
     }
diff --git a/src/obj_types/rc_types.rs b/src/obj_types/rc_types.rs
index 6177f4f..fd02e67 100644
--- a/src/obj_types/rc_types.rs
+++ b/src/obj_types/rc_types.rs
@@ -351,6 +351,10 @@ impl OSMObjBase for RcNode {
                 .next();
             if let Some(i) = idx {
                 tags.remove(i);
+                if tags.is_empty() {
+                    // same as an object which never had tags
+                    self._tags = None;
+                }
             }
         }
     }
-- 
2.43.0


From a47c0a41dc5aa4210d71699b3cdb10c3fc302f0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:11 +0000
Subject: [PATCH 39/41] fix: the order of timestamps is an order

A text which isn't a valid timestamp was compared with other texts as text, but
with epoch numbers as if it were 0. So two different texts could both equal the
same number, and sorting could panic.
---
 src/lib.rs | 48 +++++++++++++-----------------------------------
 1 file changed, 13 insertions(+), 35 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 2cc7639..1ae45dd 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -299,50 +299,28 @@ impl fmt::Display for TimestampFormat {
     }
 }
 
-/// Compare 2 ISO timestamps by the instant they stand for. The same instant can be written in
-/// different ways. If either isn't a valid timestamp, they are compared as strings.
-fn cmp_iso(a: &str, b: &str) -> std::cmp::Ordering {
-    match (
-        chrono::DateTime::parse_from_rfc3339(a),
-        chrono::DateTime::parse_from_rfc3339(b),
-    ) {
-        (Ok(a), Ok(b)) => a.cmp(&b),
-        _ => a.cmp(b),
-    }
-}
-
-/// Compare an ISO timestamp, which may have a fraction of a second, with a whole second.
-fn cmp_iso_epoch(iso: &str, epoch: i64) -> std::cmp::Ordering {
-    match chrono::DateTime::parse_from_rfc3339(iso) {
-        Ok(d) => (d.timestamp(), d.timestamp_subsec_nanos()).cmp(&(epoch, 0)),
-        Err(_) => utils::iso_to_epoch(iso).cmp(&epoch),
+impl TimestampFormat {
+    /// What timestamps are compared by: the instant they stand for (the same instant can be written
+    /// in different ways), to the nanosecond. Anything which isn't a valid timestamp is compared as
+    /// a string & comes after all which are.
+    fn sort_key(&self) -> std::result::Result<(i64, u32), &str> {
+        match self {
+            TimestampFormat::ISOString(s) => chrono::DateTime::parse_from_rfc3339(s)
+                .map(|d| (d.timestamp(), d.timestamp_subsec_nanos()))
+                .map_err(|_| s.as_str()),
+            TimestampFormat::EpochNumber(t) => Ok((*t, 0)),
+        }
     }
 }
 
 impl std::cmp::PartialOrd for TimestampFormat {
     fn partial_cmp(&self, other: &Self) -> Option<std::cmp::Ordering> {
-        match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => Some(cmp_iso(a, b)),
-            (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.partial_cmp(b),
-            (TimestampFormat::ISOString(a), TimestampFormat::EpochNumber(b)) => {
-                Some(cmp_iso_epoch(a, *b))
-            }
-            (TimestampFormat::EpochNumber(a), TimestampFormat::ISOString(b)) => {
-                Some(cmp_iso_epoch(b, *a).reverse())
-            }
-        }
+        Some(self.sort_key().cmp(&other.sort_key()))
     }
 }
 impl std::cmp::PartialEq for TimestampFormat {
     fn eq(&self, other: &Self) -> bool {
-        match (self, other) {
-            (TimestampFormat::ISOString(a), TimestampFormat::ISOString(b)) => cmp_iso(a, b).is_eq(),
-            (TimestampFormat::EpochNumber(a), TimestampFormat::EpochNumber(b)) => a.eq(b),
-            (TimestampFormat::ISOString(a), TimestampFormat::EpochNumber(b))
-            | (TimestampFormat::EpochNumber(b), TimestampFormat::ISOString(a)) => {
-                cmp_iso_epoch(a, *b).is_eq()
-            }
-        }
+        self.sort_key() == other.sort_key()
     }
 }
 
-- 
2.43.0


From 91568a56e4ef84ecc373751112f3323fda066932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:50:42 +0000
Subject: [PATCH 40/41] fix: PBF arrays of other lengths than the rest of the
 object are an error

---
 src/arcpbf/mod.rs            | 24 +++++++++++++++++++++---
 src/stringpbf/mod.rs         | 20 +++++++++++++++++---
 src/stringpbf/node_id_pos.rs |  2 ++
 3 files changed, 40 insertions(+), 6 deletions(-)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 9f46652..3d9b9de 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -108,6 +108,7 @@ fn decode_nodes(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags: Vec<_> = keys
             .zip(vals)
             .filter_map(|(k, v)| match (k, v) {
@@ -163,8 +164,19 @@ fn decode_dense_nodes(
 
     let num_nodes = ids.len();
     results.reserve(num_nodes);
-    // TODO assert that the id, denseinfo, lat, lon and optionally keys_vals has the same
-    // length
+    // Every array has something for every node. The metadata & keys_vals can be left out.
+    assert_eq!(lats.len(), num_nodes);
+    assert_eq!(lons.len(), num_nodes);
+    for len in [
+        denseinfo.version.len(),
+        timestamps.len(),
+        changesets.len(),
+        uids.len(),
+        user_sids.len(),
+        denseinfo.visible.len(),
+    ] {
+        assert!(len == 0 || len == num_nodes);
+    }
 
     let keys_vals = &dense.keys_vals;
     let has_tags = !keys_vals.is_empty();
@@ -260,6 +272,8 @@ fn decode_dense_nodes(
         }));
     }
 
+    assert_eq!(keys_vals_index, keys_vals.len());
+
     // convert the keys_vals to
 }
 
@@ -284,6 +298,7 @@ fn decode_ways(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags = keys.zip(vals);
         let tags: Vec<_> = tags
             .filter_map(|(k, v)| match (k, v) {
@@ -354,6 +369,7 @@ fn decode_relations(
             .vals
             .iter()
             .map(|&idx| stringtable[idx as usize].clone());
+        assert_eq!(keys.len(), vals.len());
         let tags = keys.zip(vals);
         let tags: Vec<_> = tags
             .filter_map(|(k, v)| match (k, v) {
@@ -378,7 +394,9 @@ fn decode_relations(
                 member_ids.push(last_id as ObjId);
             }
         }
-        let _num_members = member_ids.len();
+        let num_members = member_ids.len();
+        assert_eq!(relation.types.len(), num_members);
+        assert_eq!(relation.roles_sid.len(), num_members);
         let member_ids = member_ids.iter();
 
         let member_types = relation
diff --git a/src/stringpbf/mod.rs b/src/stringpbf/mod.rs
index 2c0abb9..cef367c 100644
--- a/src/stringpbf/mod.rs
+++ b/src/stringpbf/mod.rs
@@ -167,8 +167,19 @@ fn decode_dense_nodes(
 
     let num_nodes = ids.len();
     results.reserve(num_nodes);
-    // TODO assert that the id, denseinfo, lat, lon and optionally keys_vals has the same
-    // length
+    // Every array has something for every node. The metadata & keys_vals can be left out.
+    assert_eq!(lats.len(), num_nodes);
+    assert_eq!(lons.len(), num_nodes);
+    for len in [
+        denseinfo.version.len(),
+        timestamps.len(),
+        changesets.len(),
+        uids.len(),
+        user_sids.len(),
+        denseinfo.visible.len(),
+    ] {
+        assert!(len == 0 || len == num_nodes);
+    }
 
     let keys_vals = &dense.keys_vals;
 
@@ -248,6 +259,7 @@ fn decode_dense_nodes(
         }));
         num_objects_written += 1
     }
+    assert_eq!(keys_vals_index, keys_vals.len());
 
     num_objects_written
 }
@@ -363,7 +375,9 @@ fn decode_relations(
                 member_ids.push(last_id as ObjId);
             }
         }
-        let _num_members = member_ids.len();
+        let num_members = member_ids.len();
+        assert_eq!(relation.types.len(), num_members);
+        assert_eq!(relation.roles_sid.len(), num_members);
         let member_ids = member_ids.iter();
 
         let member_types = relation
diff --git a/src/stringpbf/node_id_pos.rs b/src/stringpbf/node_id_pos.rs
index 8ef6186..80331ff 100644
--- a/src/stringpbf/node_id_pos.rs
+++ b/src/stringpbf/node_id_pos.rs
@@ -94,6 +94,8 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock, sink: &mut VecDeque<No
             let lons = &dense.lon;
 
             let num_nodes = ids.len();
+            assert_eq!(lats.len(), num_nodes);
+            assert_eq!(lons.len(), num_nodes);
 
             // NB it's important that these start at zero, makes the code easier later
             let mut last_id: i64 = 0;
-- 
2.43.0


From b5dfbde60ab67bc0e02b418be512f4fc25735d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:51:46 +0000
Subject: [PATCH 41/41] fix: arcpbf doesn't drop tags and members whose strings
 are not UTF-8

---
 src/arcpbf/mod.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/arcpbf/mod.rs b/src/arcpbf/mod.rs
index 3d9b9de..4ee6976 100644
--- a/src/arcpbf/mod.rs
+++ b/src/arcpbf/mod.rs
@@ -502,6 +502,10 @@ fn decode_block_to_objs(block: osmformat::PrimitiveBlock) -> Vec<ArcOSMObj> {
         .iter()
         .map(|chars| std::str::from_utf8(chars).ok().map(Arc::from))
         .collect();
+    assert!(
+        stringtable.iter().all(Option::is_some),
+        "Invalid, non-utf8 String"
+    );
 
     let granularity = block.granularity();
     let lat_offset = block.lat_offset();
-- 
2.43.0

