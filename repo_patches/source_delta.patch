From 7b3b7cf1ee78ef8beaa8c49eae567fd3796424d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 001/116] fix: metadata Value::integer() and rational()
 panicked on an empty list

---
 src/metadata.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index 0f66cd1..f6487dd 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -118,14 +118,14 @@ impl Value {
 
     pub fn integer(&self) -> Option<u32> {
         match self {
-            Self::Int(i) => Some(i[0]),
+            Self::Int(i) => i.first().copied(),
             _ => None,
         }
     }
 
     pub fn rational(&self) -> Option<exif::Rational> {
         match self {
-            Self::Rational(r) => Some(r[0]),
+            Self::Rational(r) => r.first().copied(),
             _ => None,
         }
     }
-- 
2.43.0


From 090d81756613f1d1278173f8d66509658eaf0a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:25 +0000
Subject: [PATCH 002/116] fix: the JPEG, RW and TIF types could not be read
 back from their own text

---
 src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 875628d..34a947d 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -287,14 +287,17 @@ impl From<&str> for Type {
             "DNG" => Self::Dng,
             "ERF" => Self::Erf,
             "GPR" => Self::Gpr,
+            "JPEG" => Self::Jpeg,
             "MRW" => Self::Mrw,
             "NEF" => Self::Nef,
             "NRW" => Self::Nrw,
             "ORF" => Self::Orf,
             "PEF" => Self::Pef,
             "RAF" => Self::Raf,
+            "RW" => Self::Rw,
             "RW2" => Self::Rw2,
             "SR2" => Self::Sr2,
+            "TIF" => Self::Tiff,
             _ => Self::Unknown,
         }
     }
-- 
2.43.0


From a42898c509c18bdafbf3303e2d604c719ee4c696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 003/116] fix: short byte and text values included the padding
 of the directory entry

---
 src/tiff/entry.rs    | 9 ++++++++-
 src/tiff/iterator.rs | 2 +-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index d62c2fc..c7ae8d5 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -124,6 +124,13 @@ impl Entry {
         self.data.as_slice()
     }
 
+    /// The bytes of a value whose unit is one byte. Inline data always
+    /// has 4 bytes: what is past the count isn't part of the value.
+    pub(crate) fn byte_data(&self) -> &[u8] {
+        let data = self.data.as_slice();
+        &data[..data.len().min(self.count as usize)]
+    }
+
     /// monomorphic implementation of `load_data<E>`
     fn load_data_impl(&self, offset: u64, view: &mut View) -> Result<Vec<u8>> {
         let tag_type = TagType::try_from(self.type_).unwrap_or(TagType::Invalid);
@@ -283,7 +290,7 @@ impl Entry {
     /// Get the string value out of the entry.
     pub fn string_value(&self) -> Option<String> {
         if self.type_ == exif::TagType::Ascii as i16 {
-            return Some(String::read::<NativeEndian>(self.data.as_slice()));
+            return Some(String::read::<NativeEndian>(self.byte_data()));
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
diff --git a/src/tiff/iterator.rs b/src/tiff/iterator.rs
index d34b5f5..891ed41 100644
--- a/src/tiff/iterator.rs
+++ b/src/tiff/iterator.rs
@@ -85,7 +85,7 @@ fn from_entry(entry: &Entry, endian: Endian) -> MetadataValue {
         exif::TagType::Float => MetadataValue::Float(entry.value_array::<f32>(endian).unwrap()),
         exif::TagType::Double => MetadataValue::Double(entry.value_array::<f64>(endian).unwrap()),
         exif::TagType::Byte | exif::TagType::Undefined => {
-            MetadataValue::Bytes(entry.data().to_vec())
+            MetadataValue::Bytes(entry.byte_data().to_vec())
         }
         exif::TagType::SByte => MetadataValue::SBytes(entry.value_array::<i8>(endian).unwrap()),
         exif::TagType::Short | exif::TagType::Long => {
-- 
2.43.0


From 5ea09458f020cbaf90edbb7e1139c483b4573d04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:58 +0000
Subject: [PATCH 004/116] fix: reading a rational with a zero denominator as an
 integer panicked

---
 src/tiff/entry.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index c7ae8d5..81305d1 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -228,7 +228,7 @@ impl Entry {
                 TagType::Long => Some(u32::read::<E>(
                     &self.data.as_slice()[u32::unit_size() * index as usize..],
                 )),
-                TagType::Rational => self.value::<Rational, E>().map(|r| r.num / r.denom),
+                TagType::Rational => self.value_at_index::<Rational, E>(index).map(|r| (&r).into()),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
-- 
2.43.0


From ef7e715c9230d81192740254d27f2530c5f24c13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:14 +0000
Subject: [PATCH 005/116] fix: the GPS block of a CR3 file was read without the
 GPS tag names

---
 src/mp4/container.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 7e65ecf..a9fa9e8 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -181,7 +181,12 @@ impl Container {
                     let cursor = Box::new(std::io::Cursor::new(d.clone()));
                     let viewer = Viewer::new(cursor, length as u64);
                     if let Ok(view) = Viewer::create_view(&viewer, 0) {
-                        let mut ifd = tiff::Container::new(view, vec![(t, None)], raw_type);
+                        let tag_names = if t == tiff::IfdType::GpsInfo {
+                            Some(&*tiff::exif::GPSINFO_TAG_NAMES)
+                        } else {
+                            None
+                        };
+                        let mut ifd = tiff::Container::new(view, vec![(t, tag_names)], raw_type);
                         ifd.load(None).expect("ifd load");
                         return Some((viewer, ifd));
                     }
@@ -202,7 +207,11 @@ impl Container {
                             tiff::IfdType::MakerNote,
                             self.raw_type,
                         ),
-                        make_ifd_holder(craw.meta4.as_ref(), tiff::IfdType::Other, self.raw_type),
+                        make_ifd_holder(
+                            craw.meta4.as_ref(),
+                            tiff::IfdType::GpsInfo,
+                            self.raw_type,
+                        ),
                     ]
                 } else {
                     vec![]
-- 
2.43.0


From 095288a7077f677d9bf53ae634fb5669d82ce077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 006/116] fix: the advertised SR2 type could not be opened

---
 src/factory.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/factory.rs b/src/factory.rs
index 1c61657..e9f3fb3 100644
--- a/src/factory.rs
+++ b/src/factory.rs
@@ -59,6 +59,7 @@ lazy_static::lazy_static! {
         (Type::Raf, RafFile::factory as RawFileFactory),
         (Type::Rw, Rw2File::factory as RawFileFactory),
         (Type::Rw2, Rw2File::factory as RawFileFactory),
+        (Type::Sr2, ArwFile::factory as RawFileFactory),
     ]);
 }
 
-- 
2.43.0


From 7034f716b46a6145b2de2f1c6d8a043abdebed71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:10 +0000
Subject: [PATCH 007/116] fix: a file extension that isn't UTF-8 caused a panic

---
 src/rawfile.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rawfile.rs b/src/rawfile.rs
index cc7349f..1fbca15 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -127,7 +127,11 @@ where
     let file_path = filename.as_ref();
     file_path
         .extension()
-        .and_then(|e| identify::type_for_extension(e.to_ascii_lowercase().to_str().unwrap()))
+        .and_then(|e| {
+            e.to_ascii_lowercase()
+                .to_str()
+                .and_then(identify::type_for_extension)
+        })
 }
 
 /// Crate RawFile object from IO.
-- 
2.43.0


From 5672c9c427635bb07e4caa6ae7c971f7f741949a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 008/116] fix: the preview in the maker note of a Leica M (Typ
 240) was never listed

---
 src/dng.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dng.rs b/src/dng.rs
index f9103b0..d3a84a1 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -301,7 +301,7 @@ impl RawFileImpl for DngFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                if mnote.id() == b"Leica6\0" {
+                if mnote.id() == b"Exif.Leica6\0" {
                     // File with Leica6 MakerNote (Leica M Typ-240) have a
                     // larger preview in the MakerNote
                     mnote.entry(exif::MNOTE_LEICA_PREVIEW_IMAGE).map(|e| {
-- 
2.43.0


From eadf1c8b58482af33e1b014993359dda3b2b5f05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:28 +0000
Subject: [PATCH 009/116] fix: a preview of the largest possible size could not
 be reached with a smaller size

---
 src/rawfile.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/rawfile.rs b/src/rawfile.rs
index 1fbca15..2fb6323 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -227,7 +227,7 @@ pub trait RawFile: RawFileImpl + crate::dump::DumpFile + std::fmt::Debug {
             return Err(Error::NotFound);
         }
 
-        let mut smallest_bigger = u32::MAX;
+        let mut smallest_bigger: Option<u32> = None;
         let mut biggest_smaller = 0_u32;
         let mut found_size = 0_u32;
 
@@ -239,8 +239,8 @@ pub trait RawFile: RawFileImpl + crate::dump::DumpFile + std::fmt::Debug {
                     }
                 }
                 Ordering::Greater => {
-                    if *s < smallest_bigger {
-                        smallest_bigger = *s;
+                    if smallest_bigger.map_or(true, |bigger| *s < bigger) {
+                        smallest_bigger = Some(*s);
                     }
                 }
                 Ordering::Equal => {
@@ -251,11 +251,7 @@ pub trait RawFile: RawFileImpl + crate::dump::DumpFile + std::fmt::Debug {
         }
 
         if found_size == 0 {
-            found_size = if smallest_bigger < u32::MAX {
-                smallest_bigger
-            } else {
-                biggest_smaller
-            };
+            found_size = smallest_bigger.unwrap_or(biggest_smaller);
         }
 
         if found_size == 0 {
-- 
2.43.0


From d6f0095d3e22692cefc179b910a89aea40ebb421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:45 +0000
Subject: [PATCH 010/116] fix: the thumbnail of a JPEG was only found when its
 Exif block came first

---
 src/jpeg.rs      | 4 +---
 src/panasonic.rs | 7 +------
 2 files changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/jpeg.rs b/src/jpeg.rs
index a1a73b9..93451f2 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -94,8 +94,6 @@ impl RawFileImpl for JpegFile {
                 let dir = exif.directory(1)?;
                 let len = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)? as u64;
                 let offset = dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)? as u64;
-                // XXX this +12 should be "calculated"
-                let offset = offset + 12;
                 // XXX as a shortcut we assume it's Exif 160x120
                 thumbnails.push((
                     160,
@@ -103,7 +101,7 @@ impl RawFileImpl for JpegFile {
                         width: 160,
                         height: 120,
                         data_type: DataType::Jpeg,
-                        data: thumbnail::Data::Offset(thumbnail::DataOffset { offset, len }),
+                        data: thumbnail::Data::Bytes(exif.load_buffer8(offset, len)),
                     },
                 ));
 
diff --git a/src/panasonic.rs b/src/panasonic.rs
index 890ff97..bdce3a2 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -861,8 +861,6 @@ impl RawFileImpl for Rw2File {
                             dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT_LENGTH)? as u64;
                         let offset =
                             dir.value::<u32>(exif::EXIF_TAG_JPEG_INTERCHANGE_FORMAT)? as u64;
-                        // XXX this +12 should be "calculated"
-                        let offset = jpeg_offset.offset + offset + 12;
                         // XXX as a shortcut we assume it's Exif 160x120
                         thumbnails.push((
                             160,
@@ -870,10 +868,7 @@ impl RawFileImpl for Rw2File {
                                 width: 160,
                                 height: 120,
                                 data_type: DataType::Jpeg,
-                                data: thumbnail::Data::Offset(thumbnail::DataOffset {
-                                    offset,
-                                    len,
-                                }),
+                                data: thumbnail::Data::Bytes(exif.load_buffer8(offset, len)),
                             },
                         ));
 
-- 
2.43.0


From efb38d637c4af7e20de6239b6c365c02ccd6eadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 011/116] fix: reading past the end, or short reads, gave
 buffers with uninitialised memory

---
 src/container.rs | 36 +++++++++++++++++-------------------
 1 file changed, 17 insertions(+), 19 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index 31cee69..d7fa90f 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -143,22 +143,8 @@ pub trait RawContainer {
 
     /// Load an 8bit buffer at `offset` and of `len` bytes.
     fn load_buffer8(&self, offset: u64, len: u64) -> Vec<u8> {
-        let mut data = uninit_vec!(len as usize);
-
         let mut view = self.borrow_view_mut();
-        if view.seek(SeekFrom::Start(offset)).is_err() {
-            log::error!("load_buffer8: Seek failed");
-        }
-        if let Ok(n) = view.read(data.as_mut_slice()) {
-            if n < len as usize {
-                log::debug!("Short read {} < {}", n, len);
-                data.resize(n, 0);
-            }
-        } else {
-            log::error!("load_buffer8: read failed");
-        }
-
-        data
+        load_buffer(&mut view, offset, len)
     }
 
     /// Load an 16 bit buffer at `offset` and of `len` bytes in the native endian.
@@ -185,14 +171,26 @@ fn load_buffer16_endian<E>(view: &mut View, offset: u64, len: u64) -> Vec<u16>
 where
     E: ByteOrder,
 {
-    let mut data = uninit_vec!((len / 2) as usize);
+    load_buffer(view, offset, len)
+        .chunks_exact(2)
+        .map(E::read_u16)
+        .collect()
+}
+
+/// Load up to `len` bytes at `offset`. There will be less only if the end is reached or
+/// an error occurs.
+fn load_buffer(view: &mut View, offset: u64, len: u64) -> Vec<u8> {
+    let mut data = vec![];
 
     if let Err(err) = view.seek(SeekFrom::Start(offset)) {
-        log::error!("load_buffer16: Seek failed: {err}");
+        log::error!("load_buffer: Seek failed: {err}");
+        return data;
     }
 
-    if let Err(err) = view.read_u16_into::<E>(&mut data) {
-        log::error!("load_buffer16: {err}");
+    match view.take(len).read_to_end(&mut data) {
+        Ok(n) if (n as u64) < len => log::debug!("Short read {} < {}", n, len),
+        Ok(_) => {}
+        Err(err) => log::error!("load_buffer: read failed: {err}"),
     }
 
     data
-- 
2.43.0


From f6aac5228d670116be1c972271beec7ae632feeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 012/116] fix: a thumbnail located past the end of the file
 caused a panic

---
 src/container.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/container.rs b/src/container.rs
index d7fa90f..cec525c 100644
--- a/src/container.rs
+++ b/src/container.rs
@@ -113,7 +113,7 @@ pub trait RawContainer {
             Data::Offset(ref offset) => {
                 let mut view = self.borrow_view_mut();
                 let mut len = offset.len;
-                if offset.offset + len > view.len() {
+                if offset.offset.saturating_add(len) > view.len() {
                     // Ricoh GXR A16 have a thumbnail size that goes past EOF
                     // Just readjust the size to go to the end and load that.
                     // It seems to work. Worst case scenario it still doesn't.
@@ -122,7 +122,7 @@ pub trait RawContainer {
                         offset,
                         view.len()
                     );
-                    len = view.len() - offset.offset;
+                    len = view.len().saturating_sub(offset.offset);
                 }
                 let mut data = uninit_vec!(len as usize);
                 view.seek(SeekFrom::Start(offset.offset))?;
-- 
2.43.0


From 5281da5845b60a0b273b962af2db839692990f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:24 +0000
Subject: [PATCH 013/116] fix: the RAF data block was read four times too long,
 losing the tags that follow

---
 src/fujifilm/raf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index 0372d71..fbfaca7 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -595,7 +595,7 @@ impl MetaContainer {
                 let v = view.read_u32::<BigEndian>()?;
                 Value::Int(v)
             } else if tag == TAG_RAF_DATA {
-                let mut v = uninit_vec!(sz as usize);
+                let mut v = uninit_vec!(sz as usize / 4);
                 view.read_u32_into::<LittleEndian>(&mut v)?;
                 Value::U32s(v)
             } else {
-- 
2.43.0


From d7887f7b3cf4c3d0e64b766ccea01b68de195ccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:24 +0000
Subject: [PATCH 014/116] fix: a stream that returns few bytes at a time was
 not recognised

---
 src/identify.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/identify.rs b/src/identify.rs
index 89252e3..e9fe0f1 100644
--- a/src/identify.rs
+++ b/src/identify.rs
@@ -124,7 +124,13 @@ pub(crate) fn type_for_content(content: &mut View) -> Result<Option<Type>> {
     // Change as needed
     let mut buf = [0_u8; 16];
 
-    let len = content.read(&mut buf)?;
+    let mut len = 0;
+    while len < buf.len() {
+        match content.read(&mut buf[len..])? {
+            0 => break,
+            n => len += n,
+        }
+    }
     if len <= 4 {
         return Err(Error::BufferTooSmall);
     }
-- 
2.43.0


From 539ebd0b563c4d2d9b22f7d11a50477e469514d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:24 +0000
Subject: [PATCH 015/116] fix: a tile that failed to decompress left
 uninitialised memory in the image

---
 src/decompress/tiled.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index fde4b10..052f74e 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -38,7 +38,7 @@ impl TiledLJpeg {
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
     fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
-        let mut buffer = uninit_vec!(data_size);
+        let mut buffer = vec![0; data_size];
 
         let mut first_row = 0_usize;
         let mut first_col = 0_usize;
-- 
2.43.0


From 9c98e54f811b78bb81fa135bc75c2bec935e6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:51 +0000
Subject: [PATCH 016/116] fix: offsets in Minolta maker notes count from the
 start of the TIFF data

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 453ed4d..63259b8 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -461,7 +461,7 @@ impl Dir {
                         container,
                         container::Endian::Unset,
                         offset,
-                        offset,
+                        0,
                         &minolta::MNOTE_TAG_NAMES,
                     );
                 }
-- 
2.43.0


From 676e0c780293c2af37102101ba64d27a9ae3a50c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 017/116] fix: packed rows whose width doesn't fill a group
 were misread or refused

---
 src/decompress.rs | 39 ++++++++++++++++++---------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b13acdb..4d46ef7 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -90,12 +90,6 @@ pub(crate) fn unpack_be12to16(
     let rest = input.len() % (15 + pad);
     let mut src = 0_usize; // index in source
 
-    if pad != 0 && (input.len() % 16) != 0 {
-        log::error!("be12to16 incorrect padding for {:?}.", compression);
-        return Err(Error::Decompression(format!(
-            "be12to16 incorrect padding for {compression:?}.",
-        )));
-    }
     if (rest % 3) != 0 {
         log::error!("be12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
@@ -146,12 +140,6 @@ pub(crate) fn unpack_le12to16(
     let rest = input.len() % (15 + pad);
     let mut src = 0_usize; // index in source
 
-    if pad != 0 && (input.len() % 16) != 0 {
-        log::error!("le12to16 incorrect padding for {:?}.", compression);
-        return Err(Error::Decompression(format!(
-            "le12to16 incorrect padding for {compression:?}.",
-        )));
-    }
     if (rest % 3) != 0 {
         log::error!("le12to16 incorrect rest for {:?}.", compression);
         return Err(Error::Decompression(format!(
@@ -224,37 +212,42 @@ pub(crate) fn unpack_from_reader(
         height,
         compression
     );
+    let width = width as usize;
+    // A row is a whole number of bytes, whatever the number of samples.
+    let row_len = (width * bpc as usize + 7) / 8;
     let block_size: usize = match bpc {
-        10 => (width / 4 * 5) as usize,
+        10 | 14 => row_len,
         12 => {
             if compression == tiff::Compression::NikonPack
                 || compression == tiff::Compression::Olympus
                 || compression == tiff::Compression::PanasonicRaw1
             {
-                ((width / 2 * 3) + width / 10) as usize
+                row_len + width / 10
             } else {
-                (width / 2 * 3) as usize
+                row_len
             }
         }
-        14 => (width / 4 * 7) as usize,
         _ => {
             log::warn!("Invalid BPC {}", bpc);
             return Err(Error::InvalidFormat);
         }
     };
     log::debug!("Block size = {}", block_size);
-    let mut block = vec![0; block_size];
-    let out_size = width as usize * height as usize;
+    // 12-bits samples are unpacked by two. When the width is odd, the block
+    // has one more byte to complete the last pair.
+    let block_pad = if bpc == 12 { width % 2 } else { 0 };
+    let mut block = vec![0; block_size + block_pad];
+    let out_size = width * height as usize;
     let mut out_data = Vec::with_capacity(out_size);
     let mut fetched = 0_usize;
     let mut written = 0_usize;
 
     let byte_len = std::cmp::min(byte_len, block_size * height as usize);
     while fetched < byte_len {
-        reader.read_exact(block.as_mut_slice())?;
-        fetched += block.len();
+        reader.read_exact(&mut block[..block_size])?;
+        fetched += block_size;
         match bpc {
-            n @ 10 | n @ 14 => written += unpack_bento16(&block, n, width as usize, &mut out_data)?,
+            n @ 10 | n @ 14 => written += unpack_bento16(&block, n, width, &mut out_data)?,
             12 => {
                 written += match compression {
                     tiff::Compression::NikonPack | tiff::Compression::PentaxPack => {
@@ -273,6 +266,10 @@ pub(crate) fn unpack_from_reader(
             }
             _ => unreachable!(),
         }
+        if block_pad != 0 {
+            out_data.pop();
+            written -= 1;
+        }
     }
     log::debug!("Unpacked {} pixels", written);
 
-- 
2.43.0


From 6212049e173f577b66bec353f135fc4cb1067b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 018/116] fix: the DNG active area is given by its corners, not
 its size

---
 src/dng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index d3a84a1..0e6dbf6 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -357,11 +357,12 @@ impl RawFileImpl for DngFile {
                             .and_then(|e| e.uint_value_array(container.endian()))
                             // check the size of the array. Should be 4
                             .and_then(|a| if a.len() >= 4 { Some(a) } else { None })
+                            // The area is top, left, bottom, right.
                             .map(|a| Rect {
                                 x: a[1],
                                 y: a[0],
-                                height: a[2],
-                                width: a[3],
+                                height: a[2].saturating_sub(a[0]),
+                                width: a[3].saturating_sub(a[1]),
                             })
                             .or_else(|| {
                                 Some(Rect {
-- 
2.43.0


From f79a8554bcec105824de38143b68c47cf68a432b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:31 +0000
Subject: [PATCH 019/116] fix: skipping the decompression was ignored for PEF

---
 src/pentax.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index 3a768f9..56b48b7 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -441,7 +441,7 @@ impl RawFileImpl for PefFile {
         }
     }
 
-    fn load_rawdata(&self, _skip_decompress: bool) -> Result<RawImage> {
+    fn load_rawdata(&self, skip_decompress: bool) -> Result<RawImage> {
         self.container()?;
         let type_id = self.type_id()?;
         let container = self.container.get().unwrap();
@@ -535,6 +535,9 @@ impl RawFileImpl for PefFile {
                     "pef.compression",
                     &format!("{:?}", rawdata.compression())
                 );
+                if skip_decompress {
+                    return rawdata;
+                }
                 if let Some(data8) = rawdata.data8() {
                     let huffman = self
                         .ifd(tiff::IfdType::MakerNote)
-- 
2.43.0


From 1e3c4767c18a68c3e9b59757d44d23ff006da0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:59 +0000
Subject: [PATCH 020/116] fix: the black level of an RW2 without one was the
 white level

---
 src/panasonic.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index bdce3a2..0fc8ce4 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1128,13 +1128,13 @@ impl RawFileImpl for Rw2File {
 
             let br = cfa
                 .uint_value(exif::RW2_TAG_BLACK_LEVEL_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(0) as u16;
             let bg = cfa
                 .uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(0) as u16;
             let bb = cfa
                 .uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(0) as u16;
             raw_data.set_blacks([br, bg, bb, bg]);
 
             let wbr = cfa.uint_value(exif::RW2_TAG_WB_RED_LEVEL);
-- 
2.43.0


From ed23e95e453a989a16bbbe714c7be370f831b721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:59 +0000
Subject: [PATCH 021/116] fix: the white level overflowed for 32 bits samples,
 and large RW2 dimensions overflowed

---
 src/panasonic.rs | 12 +++++++-----
 src/tiff.rs      |  4 +++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/panasonic.rs b/src/panasonic.rs
index 0fc8ce4..cff3c3c 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -980,10 +980,10 @@ impl RawFileImpl for Rw2File {
             let data_type = if has_raw_offset {
                 probe!(self.probe, "rw2.compression", "panasonic");
                 DataType::CompressedRaw
-            } else if real_len >= (pixel_count * 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 2 {
                 probe!(self.probe, "rw2.compression", "unpacked");
                 DataType::Raw
-            } else if real_len >= (pixel_count * 3 / 2) as u64 {
+            } else if real_len >= pixel_count as u64 * 3 / 2 {
                 // Need to unpack
                 probe!(self.probe, "rw2.compression", "packed");
                 packed = true;
@@ -1114,15 +1114,17 @@ impl RawFileImpl for Rw2File {
             };
             raw_data.set_user_crop(Some(user_crop), None);
 
+            // Wider than 16 bits isn't possible.
+            let max_white = 1_u32.checked_shl(bpc as u32).map_or(u32::MAX, |v| v - 1);
             let wr = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_RED)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_white) as u16;
             let wg = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_GREEN)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_white) as u16;
             let wb = cfa
                 .uint_value(exif::RW2_TAG_LINEARITY_LIMIT_BLUE)
-                .unwrap_or((1 << bpc) - 1) as u16;
+                .unwrap_or(max_white) as u16;
 
             raw_data.set_whites([wr, wg, wb, wg]);
 
diff --git a/src/tiff.rs b/src/tiff.rs
index cb08f9d..18cf728 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -441,7 +441,9 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     });
     rawdata.set_photometric_interpretation(photom_int);
     if rawdata.whites()[0] == 0 {
-        let white: u32 = (1_u32 << actual_bpc) - 1;
+        let white = 1_u32
+            .checked_shl(actual_bpc as u32)
+            .map_or(u32::MAX, |v| v - 1);
         rawdata.set_whites([white as u16; 4]);
     }
 
-- 
2.43.0


From c0bc47d0f6998d9d29d1eeb1bbf75b796fb62687 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:52 +0000
Subject: [PATCH 022/116] fix: the undecompressed raw data of a RAF had 16
 bytes not from the file

---
 src/fujifilm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 090911f..e3bc873 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -510,10 +510,11 @@ impl RawFileImpl for RafFile {
                     }
                 } else {
                     let mut raw = raw_container.load_buffer8(cfa_offset, cfa_len);
-                    // The decompressor needs some extra bytes. We add 16.
-                    raw.extend(&[0; 16]);
                     let mut rawbuffer = None;
                     if !skip_decompress {
+                        // The decompressor needs some extra bytes. We add 16.
+                        let raw_len = raw.len();
+                        raw.extend(&[0; 16]);
                         rawbuffer = decompress::decompress_fuji(
                             &raw,
                             raw_size.width as usize,
@@ -521,6 +522,7 @@ impl RawFileImpl for RafFile {
                             &mosaic,
                         )
                         .ok();
+                        raw.truncate(raw_len);
                     }
 
                     if let Some(rawbuffer) = rawbuffer {
-- 
2.43.0


From 6492c6215e621442e46bfb15ec7adec255c80b44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:20 +0000
Subject: [PATCH 023/116] fix: short or absurd values in a RAF caused panics

---
 src/fujifilm.rs      | 25 +++++++++++++++----------
 src/mp4/container.rs |  6 +-----
 src/panasonic.rs     | 12 +++---------
 src/rawfile.rs       | 12 +++++-------
 src/tiff/entry.rs    |  4 +++-
 5 files changed, 27 insertions(+), 32 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index e3bc873..eb1d85e 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -363,7 +363,7 @@ impl RawFileImpl for RafFile {
                 });
 
                 let mut wb = container.value(raf::TAG_WB_OLD).and_then(|v| match v {
-                    raf::Value::Bytes(wb) => {
+                    raf::Value::Bytes(wb) if wb.len() >= 8 => {
                         // XXX Unsure of the format here.
                         probe!(self.probe, "raf.wb.old", true);
                         let g = u16::from_be_bytes(wb[0..2].try_into().ok()?) as f64;
@@ -424,25 +424,29 @@ impl RawFileImpl for RafFile {
                     }) {
                         cfa_offset = dir
                             .value::<u32>(raf::FUJI_TAG_RAW_OFFSET)
-                            .map(|v| v + raw_container.cfa_offset())
+                            .and_then(|v| v.checked_add(raw_container.cfa_offset()))
                             .unwrap_or(0) as u64;
                         cfa_len = dir.value::<u32>(raf::FUJI_TAG_RAW_BYTE_LEN).unwrap_or(0) as u64;
                         bps = dir.value::<u32>(raf::FUJI_TAG_RAW_BPS).unwrap_or(0) as u16;
                         blacks = dir
                             .uint_value_array(raf::FUJI_TAG_RAW_BLACK_LEVEL_GRB)
+                            .filter(|v| !v.is_empty())
                             .unwrap_or_else(|| vec![0_u32; 4]);
                         if wb.is_none() {
-                            let wb_grb = dir.uint_value_array(raf::FUJI_TAG_RAW_WB_GRB).map(|v| {
-                                probe!(self.probe, "raf.wb.grb", true);
-                                let g = v[0] as f64;
-                                [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
-                            });
+                            let wb_grb = dir
+                                .uint_value_array(raf::FUJI_TAG_RAW_WB_GRB)
+                                .filter(|v| v.len() >= 3)
+                                .map(|v| {
+                                    probe!(self.probe, "raf.wb.grb", true);
+                                    let g = v[0] as f64;
+                                    [g / v[1] as f64, 1.0, g / v[2] as f64, f64::NAN]
+                                });
                             wb = wb_grb;
                         }
                     }
                 } else {
                     cfa_offset = raw_container.cfa_offset() as u64 + 2048;
-                    cfa_len = raw_container.cfa_len() as u64 - 2048;
+                    cfa_len = (raw_container.cfa_len() as u64).saturating_sub(2048);
                     // XXX likely 12 is incorrect for 14.
                     bps = if compressed { 12 } else { 16 };
                 }
@@ -546,7 +550,7 @@ impl RawFileImpl for RafFile {
                         // But it is assumed that as long as a value is
                         // bigger than width then it's not right.
                         let mut idx = 0_usize;
-                        while v[idx] >= raw_size.width && idx < v.len() {
+                        while idx < v.len() && v[idx] >= raw_size.width {
                             idx += 1;
                         }
                         // We definitely want the index in probe in case
@@ -562,7 +566,8 @@ impl RawFileImpl for RafFile {
                     }
                 };
                 rawdata.set_blacks(utils::to_quad(&blacks));
-                rawdata.set_whites([((1 << bps as u32) - 1) as u16; 4]);
+                let white = 1_u32.checked_shl(bps as u32).map_or(u32::MAX, |v| v - 1);
+                rawdata.set_whites([white as u16; 4]);
                 rawdata.set_active_area(active_area);
                 rawdata.set_user_crop(crop, aspect_ratio);
                 if let Some(wb) = wb {
diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index a9fa9e8..1beb688 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -207,11 +207,7 @@ impl Container {
                             tiff::IfdType::MakerNote,
                             self.raw_type,
                         ),
-                        make_ifd_holder(
-                            craw.meta4.as_ref(),
-                            tiff::IfdType::GpsInfo,
-                            self.raw_type,
-                        ),
+                        make_ifd_holder(craw.meta4.as_ref(), tiff::IfdType::GpsInfo, self.raw_type),
                     ]
                 } else {
                     vec![]
diff --git a/src/panasonic.rs b/src/panasonic.rs
index cff3c3c..d60017e 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1128,15 +1128,9 @@ impl RawFileImpl for Rw2File {
 
             raw_data.set_whites([wr, wg, wb, wg]);
 
-            let br = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_RED)
-                .unwrap_or(0) as u16;
-            let bg = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN)
-                .unwrap_or(0) as u16;
-            let bb = cfa
-                .uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE)
-                .unwrap_or(0) as u16;
+            let br = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_RED).unwrap_or(0) as u16;
+            let bg = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_GREEN).unwrap_or(0) as u16;
+            let bb = cfa.uint_value(exif::RW2_TAG_BLACK_LEVEL_BLUE).unwrap_or(0) as u16;
             raw_data.set_blacks([br, bg, bb, bg]);
 
             let wbr = cfa.uint_value(exif::RW2_TAG_WB_RED_LEVEL);
diff --git a/src/rawfile.rs b/src/rawfile.rs
index 2fb6323..4f54354 100644
--- a/src/rawfile.rs
+++ b/src/rawfile.rs
@@ -125,13 +125,11 @@ where
     P: AsRef<Path>,
 {
     let file_path = filename.as_ref();
-    file_path
-        .extension()
-        .and_then(|e| {
-            e.to_ascii_lowercase()
-                .to_str()
-                .and_then(identify::type_for_extension)
-        })
+    file_path.extension().and_then(|e| {
+        e.to_ascii_lowercase()
+            .to_str()
+            .and_then(identify::type_for_extension)
+    })
 }
 
 /// Crate RawFile object from IO.
diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index 81305d1..4f273ca 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -228,7 +228,9 @@ impl Entry {
                 TagType::Long => Some(u32::read::<E>(
                     &self.data.as_slice()[u32::unit_size() * index as usize..],
                 )),
-                TagType::Rational => self.value_at_index::<Rational, E>(index).map(|r| (&r).into()),
+                TagType::Rational => self
+                    .value_at_index::<Rational, E>(index)
+                    .map(|r| (&r).into()),
                 _ => {
                     log::error!("incorrect type {} for uint {}", self.type_, self.id);
                     None
-- 
2.43.0


From a9a645705ed1014a2a13e8bdbc1326dc5f6281af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:24 +0000
Subject: [PATCH 024/116] fix: the tags following the RAF data block were lost
 if its size isn't a multiple of four

---
 src/fujifilm/raf.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index fbfaca7..743db98 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -597,6 +597,8 @@ impl MetaContainer {
             } else if tag == TAG_RAF_DATA {
                 let mut v = uninit_vec!(sz as usize / 4);
                 view.read_u32_into::<LittleEndian>(&mut v)?;
+                // The next tag follows whole data.
+                view.seek(SeekFrom::Current((sz % 4) as i64))?;
                 Value::U32s(v)
             } else {
                 let mut v = uninit_vec!(sz as usize);
-- 
2.43.0


From 56438b994878bd8d7c97c297d88cf2a049001e18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:37:30 +0000
Subject: [PATCH 025/116] fix: strips that don't follow one another, or with
 16-bits offsets or sizes, were misread

---
 src/decompress.rs | 28 ++-------------------
 src/tiff.rs       | 64 +++++++++++++++++++++++++++++------------------
 2 files changed, 42 insertions(+), 50 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 4d46ef7..7bd12d0 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -29,9 +29,9 @@ mod tiled;
 pub use ljpeg::LJpeg;
 pub(crate) use tiled::TiledLJpeg;
 
-use std::io::{Read, Seek, SeekFrom};
+use std::io::Read;
 
-use crate::container::{Endian, RawContainer};
+use crate::container::Endian;
 use crate::tiff;
 use crate::{Error, Result};
 use bit_reader::BitReader;
@@ -170,30 +170,6 @@ pub(crate) fn unpack_le12to16(
     Ok(written)
 }
 
-/// Unpack data at `offset` into a 16-bits buffer.
-pub(crate) fn unpack(
-    container: &dyn RawContainer,
-    width: u32,
-    height: u32,
-    bpc: u16,
-    compression: tiff::Compression,
-    offset: u64,
-    byte_len: usize,
-) -> Result<Vec<u16>> {
-    let mut view = container.borrow_view_mut();
-    view.seek(SeekFrom::Start(offset))?;
-
-    unpack_from_reader(
-        &mut *view,
-        width,
-        height,
-        bpc,
-        compression,
-        byte_len,
-        container.endian(),
-    )
-}
-
 /// Unpack from a reader into a 16-bits buffer. `endian` is used when
 /// compression is `None`.
 pub(crate) fn unpack_from_reader(
diff --git a/src/tiff.rs b/src/tiff.rs
index 18cf728..a163b06 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -29,7 +29,7 @@ mod iterator;
 
 use std::convert::TryFrom;
 
-use byteorder::{BigEndian, LittleEndian};
+use byteorder::{BigEndian, ByteOrder, LittleEndian};
 use num_enum::FromPrimitive;
 
 use crate::container::{Endian, RawContainer};
@@ -198,6 +198,14 @@ fn get_mosaic_info(dir: &Dir) -> Option<Pattern> {
         })
 }
 
+/// Load the strips, one after the other. They may be anywhere in the file.
+fn load_strips(container: &Container, strips: &[(u32, u32)]) -> Vec<u8> {
+    strips
+        .iter()
+        .flat_map(|(offset, len)| container.load_buffer8(*offset as u64, *len as u64))
+        .collect()
+}
+
 /// Get the raw data
 pub(crate) fn tiff_get_rawdata(
     container: &Container,
@@ -214,7 +222,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     file_type: Type,
     endian: Endian,
 ) -> Result<RawImage> {
-    let mut offset = 0_u32;
+    let mut strips: Vec<(u32, u32)> = vec![];
 
     let mut bpc = dir
         .value::<u16>(exif::EXIF_TAG_BITS_PER_SAMPLE)
@@ -228,31 +236,34 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     let mut tile_offsets: Option<Vec<u32>> = None;
     let mut tile_size: Option<(u32, u32)> = None;
     let byte_len = dir
-        .value::<u32>(exif::EXIF_TAG_STRIP_OFFSETS)
-        .and_then(|v| {
-            offset = v;
+        .uint_value_array(exif::EXIF_TAG_STRIP_OFFSETS)
+        .filter(|v| !v.is_empty())
+        .and_then(|offsets| {
             let entry = dir.entry(exif::EXIF_TAG_STRIP_BYTE_COUNTS).or_else(|| {
                 log::debug!("byte len not found");
                 // XXX this might trigger the or_else below
                 None
             })?;
+            let byte_counts = entry.uint_value_array(dir.endian())?;
             // In case of overflow, we'll return None
-            entry
-                .value_array::<u32>(dir.endian())
-                .map(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))?
+            let byte_len = byte_counts
+                .iter()
+                .try_fold(0_u32, |sum, &x| sum.checked_add(x))?;
+            strips = if offsets.len() == byte_counts.len() {
+                std::iter::zip(offsets, byte_counts).collect()
+            } else {
+                vec![(offsets[0], byte_len)]
+            };
+            Some(byte_len)
         })
         .or_else(|| {
-            tile_bytes = dir
-                .entry(exif::TIFF_TAG_TILE_BYTECOUNTS)
-                .and_then(|e| e.value_array::<u32>(dir.endian()));
+            tile_bytes = dir.uint_value_array(exif::TIFF_TAG_TILE_BYTECOUNTS);
             // In case of overflow, we'll return 0 via the unwrap().
             let tile_bytes_total = tile_bytes
                 .as_ref()
                 .and_then(|a| a.iter().try_fold(0_u32, |sum, &x| sum.checked_add(x)))
                 .unwrap_or(0);
-            tile_offsets = dir
-                .entry(exif::TIFF_TAG_TILE_OFFSETS)
-                .and_then(|e| e.value_array::<u32>(dir.endian()));
+            tile_offsets = dir.uint_value_array(exif::TIFF_TAG_TILE_OFFSETS);
             // the tile are individual JPEGS....
             let x = dir.uint_value(exif::TIFF_TAG_TILE_WIDTH).unwrap_or(0);
             let y = dir.uint_value(exif::TIFF_TAG_TILE_LENGTH).unwrap_or(0);
@@ -374,7 +385,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
                 mosaic_pattern.unwrap_or_default(),
             )
         } else {
-            let data = container.load_buffer8(offset as u64, byte_len as u64);
+            let data = load_strips(container, &strips);
             RawImage::with_data8(
                 x,
                 y,
@@ -385,11 +396,15 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             )
         }
     } else if bpc == 16 {
-        let data = if endian == Endian::Big {
-            container.load_buffer16_be(offset as u64, byte_len as u64)
-        } else {
-            container.load_buffer16_le(offset as u64, byte_len as u64)
-        };
+        let data = load_strips(container, &strips);
+        let data = data
+            .chunks_exact(2)
+            .map(if endian == Endian::Big {
+                BigEndian::read_u16
+            } else {
+                LittleEndian::read_u16
+            })
+            .collect();
         RawImage::with_data16(
             x,
             y,
@@ -399,14 +414,15 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             mosaic_pattern.unwrap_or_default(),
         )
     } else if bpc == 10 || bpc == 12 || bpc == 14 {
-        let data = decompress::unpack(
-            container,
+        let data = load_strips(container, &strips);
+        let data = decompress::unpack_from_reader(
+            &mut data.as_slice(),
             x,
             y,
             bpc,
             compression,
-            offset as u64,
             byte_len as usize,
+            container.endian(),
         )?;
         RawImage::with_data16(
             x,
@@ -417,7 +433,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             mosaic_pattern.unwrap_or_default(),
         )
     } else if bpc == 8 {
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let data = load_strips(container, &strips);
         // XXX is this efficient?
         RawImage::with_data16(
             x,
-- 
2.43.0


From 7d1a16b8f9bccc8de15300f0e71ed4f08e445380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:11 +0000
Subject: [PATCH 026/116] fix: uncompressed tiles were read as if they were a
 single strip

---
 src/decompress.rs       |   1 +
 src/decompress/ljpeg.rs |  14 +++++
 src/decompress/tiled.rs |  12 ++++-
 src/tiff.rs             | 110 ++++++++++++++++++++--------------------
 4 files changed, 79 insertions(+), 58 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index 7bd12d0..b0e8af4 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -27,6 +27,7 @@ mod sliced_buffer;
 mod tiled;
 
 pub use ljpeg::LJpeg;
+pub(crate) use ljpeg::Tile;
 pub(crate) use tiled::TiledLJpeg;
 
 use std::io::Read;
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 6120d52..91e3e67 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -123,6 +123,20 @@ pub struct Tile {
     pub buf: Vec<u16>,
 }
 
+impl Tile {
+    /// A tile used whole.
+    pub(crate) fn new(width: u32, height: u32, bpc: u16, buf: Vec<u16>) -> Tile {
+        Tile {
+            width,
+            height,
+            u_width: width,
+            u_height: height,
+            bpc,
+            buf,
+        }
+    }
+}
+
 /// Lossless JPEG decompressor. Used by CR2 and DNG.
 pub struct LJpeg {
     /// Canon-style slices. The format of the slices vector is as follow
diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index 052f74e..a0b4e0f 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -36,7 +36,7 @@ impl TiledLJpeg {
     }
 
     /// Combine tiles into the final buffer. `width` and `height` are the final dimensions.
-    fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
+    pub(crate) fn combine_tiles(width: usize, height: usize, tiles: &[Option<Tile>]) -> Vec<u16> {
         let data_size = width * height;
         let mut buffer = vec![0; data_size];
 
@@ -50,10 +50,18 @@ impl TiledLJpeg {
                 continue;
             }
             let tile = tile.as_ref().unwrap();
+            if tile.u_width == 0 {
+                continue;
+            }
             // Edge tiles might be wider than necessary, ie width
             // isn't a multiple of the image width.
             let row_len = std::cmp::min(tile.u_width as usize, width - first_col);
-            for r in 0..tile.u_height as usize {
+            // There might be less data than expected.
+            let rows = std::cmp::min(
+                tile.u_height as usize,
+                tile.buf.len() / tile.u_width as usize,
+            );
+            for r in 0..rows {
                 if first_row + r >= height {
                     // We are past the last row. This is because the
                     // tiles aren't necessarily a multiple of the
diff --git a/src/tiff.rs b/src/tiff.rs
index a163b06..ea02cdf 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -347,15 +347,6 @@ pub(crate) fn tiff_get_rawdata_with_endian(
         log::error!("TIFF: bpc {} is invalid", bpc);
         return Err(Error::FormatError);
     }
-    let actual_bpc = bpc;
-    if (bpc == 12 || bpc == 14)
-        && (compression == Compression::None)
-        && byte_len == (pixel_count * 2)
-    {
-        // it's 12 or 14 bpc, but we have 16 bpc data.
-        log::debug!("setting bpc from {} to 16", bpc);
-        bpc = 16;
-    }
     let mut rawdata = if data_type == DataType::CompressedRaw {
         if tile_bytes.is_some() && tile_offsets.is_some() {
             let tile_bytes = tile_bytes.as_ref().unwrap();
@@ -378,7 +369,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             RawImage::new_tiled(
                 x,
                 y,
-                actual_bpc,
+                bpc,
                 data_type,
                 data,
                 tile_size.unwrap(),
@@ -389,63 +380,72 @@ pub(crate) fn tiff_get_rawdata_with_endian(
             RawImage::with_data8(
                 x,
                 y,
-                actual_bpc,
+                bpc,
                 data_type,
                 data,
                 mosaic_pattern.unwrap_or_default(),
             )
         }
-    } else if bpc == 16 {
-        let data = load_strips(container, &strips);
-        let data = data
-            .chunks_exact(2)
-            .map(if endian == Endian::Big {
-                BigEndian::read_u16
+    } else {
+        let to_samples = |data: &[u8], x: u32, y: u32, byte_len: u32| {
+            let bpc = if (bpc == 12 || bpc == 14)
+                && (compression == Compression::None)
+                && (byte_len as u64 == x as u64 * y as u64 * 2)
+            {
+                // it's 12 or 14 bpc, but we have 16 bpc data.
+                log::debug!("setting bpc from {} to 16", bpc);
+                16
             } else {
-                LittleEndian::read_u16
-            })
-            .collect();
+                bpc
+            };
+            match bpc {
+                16 => Ok(data
+                    .chunks_exact(2)
+                    .map(if endian == Endian::Big {
+                        BigEndian::read_u16
+                    } else {
+                        LittleEndian::read_u16
+                    })
+                    .collect::<Vec<u16>>()),
+                10 | 12 | 14 => decompress::unpack_from_reader(
+                    &mut &data[..],
+                    x,
+                    y,
+                    bpc,
+                    compression,
+                    byte_len as usize,
+                    container.endian(),
+                ),
+                8 => Ok(data.iter().map(|v| *v as u16).collect()),
+                _ => {
+                    log::error!("Invalid RAW format, unsupported bpc {}", bpc);
+                    Err(Error::InvalidFormat)
+                }
+            }
+        };
+        let data = if let (Some(offsets), Some(bytes), Some((tile_x, tile_y))) =
+            (&tile_offsets, &tile_bytes, tile_size)
+        {
+            let tiles = std::iter::zip(offsets, bytes)
+                .map(|(offset, len)| {
+                    let data = container.load_buffer8(*offset as u64, *len as u64);
+                    to_samples(&data, tile_x, tile_y, *len)
+                        .map(|data| decompress::Tile::new(tile_x, tile_y, bpc, data))
+                        .map(Some)
+                })
+                .collect::<Result<Vec<_>>>()?;
+            decompress::TiledLJpeg::combine_tiles(x as usize, y as usize, &tiles)
+        } else {
+            to_samples(&load_strips(container, &strips), x, y, byte_len)?
+        };
         RawImage::with_data16(
-            x,
-            y,
-            actual_bpc,
-            data_type,
-            data,
-            mosaic_pattern.unwrap_or_default(),
-        )
-    } else if bpc == 10 || bpc == 12 || bpc == 14 {
-        let data = load_strips(container, &strips);
-        let data = decompress::unpack_from_reader(
-            &mut data.as_slice(),
             x,
             y,
             bpc,
-            compression,
-            byte_len as usize,
-            container.endian(),
-        )?;
-        RawImage::with_data16(
-            x,
-            y,
-            actual_bpc,
             data_type,
             data,
             mosaic_pattern.unwrap_or_default(),
         )
-    } else if bpc == 8 {
-        let data = load_strips(container, &strips);
-        // XXX is this efficient?
-        RawImage::with_data16(
-            x,
-            y,
-            bpc,
-            data_type,
-            data.iter().map(|v| *v as u16).collect(),
-            mosaic_pattern.unwrap_or_default(),
-        )
-    } else {
-        log::error!("Invalid RAW format, unsupported bpc {}", bpc);
-        return Err(Error::InvalidFormat);
     };
 
     rawdata.set_linearization_table(linearization_table);
@@ -457,9 +457,7 @@ pub(crate) fn tiff_get_rawdata_with_endian(
     });
     rawdata.set_photometric_interpretation(photom_int);
     if rawdata.whites()[0] == 0 {
-        let white = 1_u32
-            .checked_shl(actual_bpc as u32)
-            .map_or(u32::MAX, |v| v - 1);
+        let white = 1_u32.checked_shl(bpc as u32).map_or(u32::MAX, |v| v - 1);
         rawdata.set_whites([white as u16; 4]);
     }
 
-- 
2.43.0


From 6b8513f089bf7c323a11f5f125e0f1ae31ae4ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:50 +0000
Subject: [PATCH 027/116] fix: the blue white balance of NRW files was relative
 to the red

---
 src/nikon.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 4ec14b8..1323b1a 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -516,7 +516,7 @@ impl NefFile {
             let g =
                 (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
             let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
-            Some([g / r, 1.0, b / r])
+            Some([g / r, 1.0, g / b])
         } else {
             log::error!("ColorBalanceA format unknown");
             None
-- 
2.43.0


From 7f85a102ec7bb3a1ebb5f15b18edf195ee7ef97a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:19 +0000
Subject: [PATCH 028/116] fix: the Canon EOS 60D had the same type id as the
 EOS 50D

---
 include/libopenraw/cameraids.h | 2 +-
 src/camera_ids.rs              | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libopenraw/cameraids.h b/include/libopenraw/cameraids.h
index bc83974..c4a3930 100644
--- a/include/libopenraw/cameraids.h
+++ b/include/libopenraw/cameraids.h
@@ -130,7 +130,7 @@ enum _OR_TYPEID_VENDOR_CANON {
     OR_TYPEID_CANON_KISS_F = OR_TYPEID_CANON_1000D,
     OR_TYPEID_CANON_G10 = 35,
     OR_TYPEID_CANON_50D = 36,
-    OR_TYPEID_CANON_60D = 36,
+    OR_TYPEID_CANON_60D = 124,
     OR_TYPEID_CANON_S90 = 37,
     OR_TYPEID_CANON_G12 = 38,
     OR_TYPEID_CANON_S95 = 39,
diff --git a/src/camera_ids.rs b/src/camera_ids.rs
index 53abaec..0548f0b 100644
--- a/src/camera_ids.rs
+++ b/src/camera_ids.rs
@@ -135,7 +135,7 @@ pub mod canon {
     pub const KISS_F: u16 = EOS_1000D;
     pub const G10: u16 = 35;
     pub const EOS_50D: u16 = 36;
-    pub const EOS_60D: u16 = 36;
+    pub const EOS_60D: u16 = 124;
     pub const S90: u16 = 37;
     pub const G12: u16 = 38;
     pub const S95: u16 = 39;
-- 
2.43.0


From 005399f777d12e216ce1fd96e0823bd3648f134b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:10 +0000
Subject: [PATCH 029/116] fix: lossless compressed NEF decoded to a black image

---
 src/nikon.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 1323b1a..23aaf08 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -181,7 +181,8 @@ impl CompressionInfo {
     fn new() -> Self {
         Self {
             vpred: [[0; 2]; 2],
-            curve: vec![0; 0x8000],
+            // Values are unchanged unless the file has a curve.
+            curve: (0..0x8000).collect(),
             huffman: None,
         }
     }
-- 
2.43.0


From 3dd7e0cd24a19aa0aed2220df72a50cd99c39f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:23 +0000
Subject: [PATCH 030/116] fix: the codes of 14-bit lossy compressed NEF were
 wrong

---
 src/nikon/diffiterator.rs | 74 +++++++++++++++++++--------------------
 1 file changed, 37 insertions(+), 37 deletions(-)

diff --git a/src/nikon/diffiterator.rs b/src/nikon/diffiterator.rs
index 69567c5..c227c9d 100644
--- a/src/nikon/diffiterator.rs
+++ b/src/nikon/diffiterator.rs
@@ -75,44 +75,44 @@ pub const LOSSY_12BIT: [HuffmanNode; 27] = [
 // 101             8
 // 1100            3
 // 1101            9
-// 11100           2
-// 11101           1
-// 111100          0
-// 111101          10
-// 111110          11
-// 1111110         12
-// 11111110        13
-// 11111111        14
+// 1110            2
+// 11110           1
+// 111110          0
+// 1111110         10
+// 11111110        11
+// 111111110       12
+// 1111111110      13
+// 1111111111      14
 pub const LOSSY_14BIT: [HuffmanNode; 29] = [
-    /* 0  root     */ (false, 6),
-    /* 1  0        */ (false, 3),
-    /* 2  00       */ (true, 5),
-    /* 3  01       */ (false, 5),
-    /* 4  010      */ (true, 6),
-    /* 5  011      */ (true, 4),
-    /* 6  1        */ (false, 10),
-    /* 7  10       */ (false, 9),
-    /* 8  100      */ (true, 7),
-    /* 9  101      */ (true, 8),
-    /* 10 11       */ (false, 14),
-    /* 11 110      */ (false, 13),
-    /* 12 1100     */ (true, 3),
-    /* 13 1101     */ (true, 9),
-    /* 14 111      */ (false, 18),
-    /* 15 1110     */ (false, 17),
-    /* 16 11100    */ (true, 2),
-    /* 17 11101    */ (true, 1),
-    /* 18 1111     */ (false, 22),
-    /* 19 11110    */ (false, 21),
-    /* 20 111100   */ (true, 0),
-    /* 21 111101   */ (true, 10),
-    /* 22 11111    */ (false, 24),
-    /* 23 111110   */ (true, 11),
-    /* 24 111111   */ (false, 26),
-    /* 25 1111110  */ (true, 12),
-    /* 26 1111111  */ (false, 28),
-    /* 27 11111110 */ (true, 13),
-    /* 28 11111111 */ (true, 14),
+    /* 0  root       */ (false, 6),
+    /* 1  0          */ (false, 3),
+    /* 2  00         */ (true, 5),
+    /* 3  01         */ (false, 5),
+    /* 4  010        */ (true, 6),
+    /* 5  011        */ (true, 4),
+    /* 6  1          */ (false, 10),
+    /* 7  10         */ (false, 9),
+    /* 8  100        */ (true, 7),
+    /* 9  101        */ (true, 8),
+    /* 10 11         */ (false, 14),
+    /* 11 110        */ (false, 13),
+    /* 12 1100       */ (true, 3),
+    /* 13 1101       */ (true, 9),
+    /* 14 111        */ (false, 16),
+    /* 15 1110       */ (true, 2),
+    /* 16 1111       */ (false, 18),
+    /* 17 11110      */ (true, 1),
+    /* 18 11111      */ (false, 20),
+    /* 19 111110     */ (true, 0),
+    /* 20 111111     */ (false, 22),
+    /* 21 1111110    */ (true, 10),
+    /* 22 1111111    */ (false, 24),
+    /* 23 11111110   */ (true, 11),
+    /* 24 11111111   */ (false, 26),
+    /* 25 111111110  */ (true, 12),
+    /* 26 111111111  */ (false, 28),
+    /* 27 1111111110 */ (true, 13),
+    /* 28 1111111111 */ (true, 14),
 ];
 
 // 00              7
-- 
2.43.0


From 2d27f4fe52fe94a5de6e8d29bbda440eb6abfc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:24 +0000
Subject: [PATCH 031/116] fix: compressed NEF samples were shifted out of the
 range bpc and the levels tell

---
 src/nikon.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index 23aaf08..ff7564e 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -444,8 +444,7 @@ impl NefFile {
                             err
                         })?;
                         if j < columns {
-                            let shift: u16 = 16 - rawdata.bpc();
-                            new_data[i * columns + j] = curve.curve[t as usize & 0x3fff] << shift;
+                            new_data[i * columns + j] = curve.curve[t as usize & 0x3fff];
                         }
                     }
                 }
-- 
2.43.0


From 7d9a19ccee3bef61788e9106b84e06fbccd8ef13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:35 +0000
Subject: [PATCH 032/116] fix: compressed NEF without columns, or with an empty
 curve, caused a panic

---
 src/nikon.rs | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index ff7564e..1e6b18b 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -386,7 +386,7 @@ impl NefFile {
                     probe!(self.probe, "nef.compression_curve.computed", "true");
                     // split flag is at offset 562.
                     // XXX
-                } else if header0 != 0x46 && nelems <= 0x4001 {
+                } else if header0 != 0x46 && nelems > 0 && nelems <= 0x4001 {
                     let num_read =
                         container.read_u16_array(&mut view, &mut curve.curve, nelems as usize)?;
                     // XXX It's likly not possible for the short read to appear.
@@ -424,15 +424,16 @@ impl NefFile {
                 probe!(self.probe, "nef.compress_quantized", "true");
                 let rows = rawdata.height() as usize;
                 let raw_columns = rawdata.width() as usize;
+                let data8 = rawdata.data8().ok_or(Error::FormatError)?;
+                if raw_columns == 0 || rows.saturating_mul(raw_columns) > data8.len() * 8 {
+                    // Each sample takes at least one bit.
+                    log::error!("NEF: not enough data for {raw_columns}x{rows}");
+                    return Err(Error::UnexpectedEOF);
+                }
                 // XXX not always true
                 let columns = raw_columns - 1;
 
-                let data8 = rawdata.data8();
-                if data8.is_none() {
-                    return Err(Error::FormatError);
-                }
-                let diffs =
-                    DiffIterator::new(curve.huffman.unwrap(), rawdata.data8().as_ref().unwrap());
+                let diffs = DiffIterator::new(curve.huffman.unwrap(), data8);
                 let mut iter = CfaIterator::new(diffs, raw_columns, curve.vpred);
 
                 // Using uninit_vec! here is slower.
-- 
2.43.0


From 063d07ad00f9527f4c5eab65fd6c1cf618294527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:20 +0000
Subject: [PATCH 033/116] fix: the last four bytes of compressed PEF were
 ignored

---
 src/pentax/decompress.rs | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 8c316dd..5ec7e2c 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -298,11 +298,10 @@ impl BitPump for BitPumpMSB<'_> {
     #[inline(always)]
     fn peek_bits(&mut self, num: u32) -> u32 {
         if num > self.nbits {
-            let inbits = if self.pos + 4 >= self.buffer.len() {
-                0_u64
-            } else {
-                Endian::Big.read_u32(&self.buffer[self.pos..]) as u64
-            };
+            // What is past the end is read as zeros.
+            let inbits = (self.pos..self.pos + 4).fold(0_u64, |acc, i| {
+                (acc << 8) | self.buffer.get(i).copied().unwrap_or(0) as u64
+            });
             self.bits = (self.bits << 32) | inbits;
             self.pos += 4;
             self.nbits += 32;
-- 
2.43.0


From 3fe96b9a2120b3ca98850391aa7268f2451c96e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:31 +0000
Subject: [PATCH 034/116] fix: compressed PEF with an odd number of columns
 caused a panic

---
 src/pentax/decompress.rs | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 5ec7e2c..1790281 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -101,23 +101,21 @@ pub(super) fn decompress(
     htable.initialize()?;
 
     let mut pump = BitPumpMSB::new(src);
-    let mut pred_up1: [i32; 2] = [0, 0];
-    let mut pred_up2: [i32; 2] = [0, 0];
-    let mut pred_left1: i32;
-    let mut pred_left2: i32;
+    let mut pred_up = [[0_i32; 2]; 2];
+    let mut pred_left = [0_i32; 2];
 
     for row in 0..height {
-        pred_up1[row & 1] += htable.huff_decode(&mut pump)?;
-        pred_up2[row & 1] += htable.huff_decode(&mut pump)?;
-        pred_left1 = pred_up1[row & 1];
-        pred_left2 = pred_up2[row & 1];
-        out[row * width] = pred_left1 as u16;
-        out[row * width + 1] = pred_left2 as u16;
-        for col in (2..width).step_by(2) {
-            pred_left1 += htable.huff_decode(&mut pump)?;
-            pred_left2 += htable.huff_decode(&mut pump)?;
-            out[row * width + col] = pred_left1 as u16;
-            out[row * width + col + 1] = pred_left2 as u16;
+        for col in 0..width {
+            let diff = htable.huff_decode(&mut pump)?;
+            let c = col & 1;
+            let pred = if col < 2 {
+                pred_up[row & 1][c] += diff;
+                pred_up[row & 1][c]
+            } else {
+                pred_left[c] + diff
+            };
+            pred_left[c] = pred;
+            out[row * width + col] = pred as u16;
         }
     }
     Ok(out)
-- 
2.43.0


From 51212d03168a26a699f606722f60dbf0d40728e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:44 +0000
Subject: [PATCH 035/116] fix: invalid compressed PEF caused a panic

---
 src/pentax/decompress.rs | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/src/pentax/decompress.rs b/src/pentax/decompress.rs
index 1790281..b5390a5 100644
--- a/src/pentax/decompress.rs
+++ b/src/pentax/decompress.rs
@@ -30,7 +30,7 @@
 use std::io::BufRead;
 
 use crate::container::Endian;
-use crate::Result;
+use crate::{Error, Result};
 
 const DECODE_CACHE_BITS: u32 = 13;
 
@@ -40,6 +40,12 @@ pub(super) fn decompress(
     width: usize,
     height: usize,
 ) -> Result<Vec<u16>> {
+    if width.saturating_mul(height) > src.len().saturating_mul(8) {
+        // Each sample takes at least one bit.
+        return Err(Error::Decompression(
+            "PEF: Compressed data too small.".into(),
+        ));
+    }
     let mut out = vec![0_u16; width * height];
     let mut htable = HuffTable::default();
 
@@ -58,7 +64,11 @@ pub(super) fn decompress(
 
         let mut v1 = [0_u32; 16];
         let pos = cursor.position() as usize;
-        for (i, value) in huff[pos..].iter().enumerate().take(depth) {
+        let lengths = huff.get(pos..pos + depth).ok_or(Error::UnexpectedEOF)?;
+        for (i, value) in lengths.iter().enumerate() {
+            if *value > 12 {
+                return Err(Error::Decompression("PEF: Invalid code length.".into()));
+            }
             v1[i] = *value as u32;
         }
 
@@ -109,10 +119,10 @@ pub(super) fn decompress(
             let diff = htable.huff_decode(&mut pump)?;
             let c = col & 1;
             let pred = if col < 2 {
-                pred_up[row & 1][c] += diff;
+                pred_up[row & 1][c] = pred_up[row & 1][c].wrapping_add(diff);
                 pred_up[row & 1][c]
             } else {
-                pred_left[c] + diff
+                pred_left[c].wrapping_add(diff)
             };
             pred_left[c] = pred;
             out[row * width + col] = pred as u16;
@@ -152,7 +162,14 @@ impl HuffTable {
             }
             self.nbits -= 1;
         }
-        self.hufftable = vec![(0, 0); 1 << self.nbits];
+        let size = 1 << self.nbits;
+        let used: u32 = (1..=self.nbits)
+            .map(|len| self.bits[len as usize] << (self.nbits - len))
+            .sum();
+        if used == 0 || used > size {
+            return Err(Error::Decompression("PEF: Invalid Huffman table.".into()));
+        }
+        self.hufftable = vec![(0, 0); size as usize];
 
         // Fill in the table itself
         let mut h = 0;
-- 
2.43.0


From 1c0b6a129f7d9c5b547a1c113efe928ffa49216c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:18 +0000
Subject: [PATCH 036/116] fix: the last column of compressed ORF with an odd
 number of columns was missing

---
 src/olympus/decompress.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 37f519d..97025fd 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -61,10 +61,9 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
     for y in 0..h {
         let mut acarry = [[0_i32; 3]; 2];
 
-        for x in 0..(w / 2) {
-            let col: usize = x * 2;
+        for col in (0..w).step_by(2) {
             // p is for parity. We go even and odds raw.
-            for p in 0..2 {
+            for p in 0..std::cmp::min(2, w - col) {
                 let i = if acarry[p][2] < 3 { 2 } else { 0 };
                 let mut nbits = 2 + i;
                 while (nbits + i) < 16 && acarry[p][0] as u16 >> (nbits + i) != 0 {
-- 
2.43.0


From bd09f7f66edb6c567d05337d50b32ce2c3f21b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:27 +0000
Subject: [PATCH 037/116] fix: uncompressed ORF with a small or odd size caused
 a panic

---
 src/olympus.rs | 55 ++++++++++++++++++++------------------------------
 1 file changed, 22 insertions(+), 33 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index 1af1493..43320b6 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -215,18 +215,16 @@ impl OrfFile {
         let half = (height + 1) >> 1;
         // Interlaced data seems to be 2048 bytes aligned
         let interlaced_offset = (((half * width * 3 / 2) >> 11) + 1) << 11;
-        let interlaced = &buf[interlaced_offset..];
+        // The data might be short: what is missing is left as 0.
+        let interlaced = buf.get(interlaced_offset..).unwrap_or(&[]);
 
         let mut out: Vec<u16> = vec![0; width * height];
         out.par_chunks_mut(width)
             .enumerate()
             .for_each(|(row, outb)| {
                 let off = row / 2 * width * 12 / 8;
-                let inb = if (row % 2) == 0 {
-                    &buf[off..]
-                } else {
-                    &interlaced[off..]
-                };
+                let inb = if (row % 2) == 0 { buf } else { interlaced };
+                let inb = inb.get(off..).unwrap_or(&[]);
 
                 let mut i = 0;
                 let mut o = 0;
@@ -238,7 +236,9 @@ impl OrfFile {
                     }
                     let out_slice = &mut outb[o..];
                     out_slice[0] = ((in_slice[0] as u16) << 4) | ((in_slice[1] as u16) >> 4);
-                    out_slice[1] = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    if out_slice.len() > 1 {
+                        out_slice[1] = ((in_slice[1] as u16 & 0x0f) << 8) | in_slice[2] as u16;
+                    }
                     i += 3;
                     o += 2;
                 }
@@ -252,12 +252,8 @@ impl OrfFile {
     fn decode_12be_olympus(buf: &[u8], width: usize, height: usize) -> Vec<u16> {
         let mut out: Vec<u16> = vec![0; width * height];
 
-        let mut i = 0;
-        let mut o = 0;
-        while i < buf.len() {
-            let in_slice = &buf[i..];
-            let out_slice = &mut out[o..];
-
+        // An incomplete group is left as 0.
+        for (in_slice, out_slice) in buf.chunks_exact(12).zip(out.chunks_exact_mut(8)) {
             out_slice[0] = ((in_slice[3] as u16) << 4) | (in_slice[2] as u16 >> 4);
             out_slice[1] = ((in_slice[2] as u16 & 0x0f) << 8) | in_slice[1] as u16;
             out_slice[2] = ((in_slice[0] as u16) << 4) | (in_slice[7] as u16 >> 4);
@@ -266,9 +262,6 @@ impl OrfFile {
             out_slice[5] = ((in_slice[4] as u16 & 0x0f) << 8) | in_slice[11] as u16;
             out_slice[6] = ((in_slice[10] as u16) << 4) | (in_slice[9] as u16 >> 4);
             out_slice[7] = ((in_slice[9] as u16 & 0x0f) << 8) | in_slice[8] as u16;
-
-            i += 12;
-            o += 8;
         }
 
         out
@@ -276,20 +269,24 @@ impl OrfFile {
 
     /// Decompress the Olympus RawData. Could be unpack.
     fn decompress(&self, mut data: RawImage) -> RawImage {
-        let width = data.width();
-        let height = data.height();
+        let width = data.width() as usize;
+        let height = data.height() as usize;
+        // The largest size that is computed with these.
+        if width == 0 || height == 0 || width.saturating_mul(height) > usize::MAX / 16 {
+            return data;
+        }
 
         if let Some(d) = data
             .data8()
             .or_else(|| data.data16_as_u8())
             .and_then(|data8| {
-                if data8.len() == (height * ((width * 12 / 8) + ((width + 2) / 10))) as usize {
+                if data8.len() == height * ((width * 12 / 8) + ((width + 2) / 10)) {
                     probe!(self.probe, "orf.decompress.unpack", "true");
                     let mut buf = data8;
                     crate::decompress::unpack_from_reader(
                         &mut buf,
-                        width,
-                        height,
+                        width as u32,
+                        height as u32,
                         12,
                         tiff::Compression::Olympus,
                         data8.len(),
@@ -297,29 +294,21 @@ impl OrfFile {
                         Endian::Little,
                     )
                     .ok()
-                } else if data8.len() == (height * width * 3 / 2) as usize {
+                } else if data8.len() == height * width * 3 / 2 {
                     // It seems that this is the only way™.
                     // Some decoder like rawloader use 3500,
                     // but SP565UZ is 3664 and interlaced.
                     if width < 3700 {
                         probe!(self.probe, "orf.decompress.interlaced", "true");
-                        Some(Self::decode_12be_olympus_interlaced(
-                            data8,
-                            width as usize,
-                            height as usize,
-                        ))
+                        Some(Self::decode_12be_olympus_interlaced(data8, width, height))
                     } else {
                         probe!(self.probe, "orf.decompress.12be", "true");
-                        Some(Self::decode_12be_olympus(
-                            data8,
-                            width as usize,
-                            height as usize,
-                        ))
+                        Some(Self::decode_12be_olympus(data8, width, height))
                     }
                 } else {
                     // Olympus decompression
                     probe!(self.probe, "orf.decompress.olympus", "true");
-                    decompress_olympus(data8, width as usize, height as usize)
+                    decompress_olympus(data8, width, height)
                         .map_err(|err| {
                             log::error!("Decompression failed {}", err);
                             err
-- 
2.43.0


From 6b2740ed523ea4ff67148bf750009ee9150ffbe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:29 +0000
Subject: [PATCH 038/116] fix: invalid compressed ORF overflowed the prediction
 or the memory

---
 src/olympus/decompress.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 97025fd..935baab 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -35,6 +35,10 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
+    if w.saturating_mul(h) > input.len().saturating_mul(8) {
+        // Each sample takes at least one bit.
+        return Err(Error::UnexpectedEOF);
+    }
     let mut output: Vec<u16> = vec![0; h * w];
     let data = output.as_mut_slice();
 
@@ -124,7 +128,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
                         nw[p]
                     };
                     // Set predictor
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) & 0xffff;
                     wo[p] as u16
                 } else {
                     let n: i32 = data[(y - 2) * w + col + p] as i32;
@@ -143,7 +147,7 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
 
                     nw[p] = n;
                     // Set predictors
-                    wo[p] = pred + ((diff << 2) | low);
+                    wo[p] = (pred + ((diff << 2) | low)) & 0xffff;
                     wo[p] as u16
                 };
             }
-- 
2.43.0


From 7c1d9b15317c7b32f3225c9029f9d3be27ad4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:30:25 +0000
Subject: [PATCH 039/116] fix: the last pixels of compressed RW2 were wrong
 after a dark group

---
 src/panasonic/decompress.rs | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/src/panasonic/decompress.rs b/src/panasonic/decompress.rs
index 12aa38f..1107db8 100644
--- a/src/panasonic/decompress.rs
+++ b/src/panasonic/decompress.rs
@@ -107,9 +107,15 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
     let mut color_nonzero = [false, false];
     let mut out = [0u16; 14];
 
-    fn load_initial_px(color_idx: usize, nonzero: &mut [bool; 2], bits: &mut BitsCursor) -> u16 {
+    // The `last` pixel of each color is always 12 bits.
+    fn load_initial_px(
+        color_idx: usize,
+        nonzero: &mut [bool; 2],
+        bits: &mut BitsCursor,
+        last: bool,
+    ) -> u16 {
         let top = bits.next(8);
-        let bottom = if top == 0 && !nonzero[color_idx] {
+        let bottom = if top == 0 && !nonzero[color_idx] && !last {
             0
         } else {
             nonzero[color_idx] = true;
@@ -119,8 +125,8 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
     }
 
     // 2 initial pixels
-    out[0] = load_initial_px(0, &mut color_nonzero, &mut bits);
-    out[1] = load_initial_px(1, &mut color_nonzero, &mut bits);
+    out[0] = load_initial_px(0, &mut color_nonzero, &mut bits, false);
+    out[1] = load_initial_px(1, &mut color_nonzero, &mut bits, false);
     // 4 independent differential groups in every chunk
     for diffidx in 0..4 {
         let shift = bits.next(2);
@@ -133,18 +139,8 @@ fn decode_chunk(bits: ReverseBits) -> [u16; 14] {
             let px = if color_nonzero[coloridx] {
                 decode_next_px(bits.next(8), shift, prev)
             } else {
-                load_initial_px(coloridx, &mut color_nonzero, &mut bits)
+                load_initial_px(coloridx, &mut color_nonzero, &mut bits, px_allidx > 11)
             };
-            /* TODO (done? this seems to be the "first nonzero pixel
-             * is lossless" problem):
-             * dcraw code does an odd thing:
-             * it will read extra 4 bits for the last 2 pixels if
-             * there's all 0's in the chunk. This should send the
-             * stream out of whack.  The pana_bits reader strongly
-             * suggests that the stream of data is separated into
-             * 16-byte chunks, so reading another byte (or half-byte
-             * if interrupted) would contradict it.
-             */
             out[px_allidx] = px;
         }
     }
-- 
2.43.0


From 363b12e1fcb5c59e297b30c82045299a871cf5fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:25 +0000
Subject: [PATCH 040/116] fix: lossless JPEG differences of 32768 were misread

---
 src/decompress/ljpeg.rs | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 91e3e67..fc5c8df 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -460,11 +460,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = read_diff(reader, s)?;
                     self.mcu_row[self.cur_row][0][cur_comp] =
                         (d + self.mcu_row[self.prev_row][0][cur_comp] as i32) as u16;
                 } else {
@@ -484,11 +480,7 @@ impl LJpeg {
                     if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                         // Section F.2.2.1: decode the difference
                         let s = self.huff_decode(dctbl, reader)? as u8;
-                        let d = if s != 0 {
-                            extend(reader.get_bits(s)?, s)
-                        } else {
-                            0
-                        };
+                        let d = read_diff(reader, s)?;
                         let predictor = self.quick_predict(
                             col as i32,
                             cur_comp as i16,
@@ -580,11 +572,7 @@ impl LJpeg {
             if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                 // Section F.2.2.1: decode the difference
                 let s = self.huff_decode(dctbl, reader)? as u8;
-                let d = if s != 0 {
-                    extend(reader.get_bits(s)?, s)
-                } else {
-                    0
-                };
+                let d = read_diff(reader, s)?;
 
                 // Add the predictor to the difference.
                 let cur_row_buf = &mut self.mcu_row[self.cur_row];
@@ -605,11 +593,7 @@ impl LJpeg {
                 if let Some(dctbl) = &dc.dc_huff_tbl_ptrs[compptr.dc_tbl_no as usize] {
                     // Section F.2.2.1: decode the difference
                     let s = self.huff_decode(dctbl, reader)? as u8;
-                    let d = if s != 0 {
-                        extend(reader.get_bits(s)?, s)
-                    } else {
-                        0
-                    };
+                    let d = read_diff(reader, s)?;
                     // Add the predictor to the difference.
                     let cur_row_buf = &mut self.mcu_row[self.cur_row];
                     cur_row_buf[col as usize][cur_comp as usize] =
@@ -1123,6 +1107,17 @@ impl DecompressInfo {
     }
 }
 
+#[inline]
+/// Read the difference of category `s`. Table H.2: the last category
+/// has only one value and no extra bits.
+fn read_diff(reader: &mut LJpegBitReader, s: u8) -> Result<i32> {
+    match s {
+        0 => Ok(0),
+        16 => Ok(32768),
+        _ => Ok(extend(reader.get_bits(s)?, s)),
+    }
+}
+
 #[inline]
 /// F.2.2.1 Code and table for Figure F.12: extend sign bit
 fn extend(x: u16, s: u8) -> i32 {
-- 
2.43.0


From aac4d079f5f96d7d4481f8e8d084c53861c3f2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:42 +0000
Subject: [PATCH 041/116] fix: truncated lossless JPEG caused a panic

---
 src/decompress/bit_reader.rs | 24 +++++++++-----
 src/decompress/ljpeg.rs      | 64 ++++++++++++++++++------------------
 2 files changed, 48 insertions(+), 40 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 2862b05..a09fbca 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -173,17 +173,21 @@ impl<'a> LJpegBitReader<'a> {
     }
 
     /// Read a byte out of the buffer.
-    pub(crate) fn read_u8(&mut self) -> u8 {
-        let b = self.buffer[self.pos];
+    pub(crate) fn read_u8(&mut self) -> Result<u8> {
+        let b = *self.buffer.get(self.pos).ok_or(Error::UnexpectedEOF)?;
         self.pos += 1;
-        b
+        Ok(b)
     }
 
     /// Read an u16 from the bit reader. JPEG is always BigEndian.
-    pub(crate) fn read_u16(&mut self) -> u16 {
-        let b = BigEndian::read_u16(&self.buffer[self.pos..]);
+    pub(crate) fn read_u16(&mut self) -> Result<u16> {
+        let b = self
+            .buffer
+            .get(self.pos..self.pos + 2)
+            .map(BigEndian::read_u16)
+            .ok_or(Error::UnexpectedEOF)?;
         self.pos += 2;
-        b
+        Ok(b)
     }
 
     /// Skip `seek` bytes.
@@ -201,10 +205,14 @@ impl<'a> LJpegBitReader<'a> {
     // Process any stuffed bytes at this time.
     fn fill_bit_buffer(&mut self, nbits: u8) -> Result<()> {
         while self.bits_left < MIN_GET_BITS {
-            let mut c = self.read_u8();
+            if self.pos >= self.buffer.len() && self.bits_left >= nbits {
+                // The end, but there is enough.
+                break;
+            }
+            let mut c = self.read_u8()?;
             // If it's 0xFF, check and discard stuffed zero byte
             if c == 0xff {
-                let c2 = self.read_u8();
+                let c2 = self.read_u8()?;
                 if c2 != 0 {
                     // Oops, it's actually a marker indicating end of
                     // compressed data.  Better put it back for use later.
diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index fc5c8df..3412651 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -295,8 +295,8 @@ impl LJpeg {
     fn read_file_header(&self, dc: &mut DecompressInfo, reader: &mut LJpegBitReader) -> Result<()> {
         // Demand an SOI marker at the start of the file --- otherwise it's
         // probably not a JPEG file at all.
-        let c = reader.read_u8();
-        let c2 = reader.read_u8();
+        let c = reader.read_u8()?;
+        let c2 = reader.read_u8()?;
         if c != 0xff || c2 != M_SOI {
             return Err(Error::Decompression(format!(
                 "LJPEG: Not a JPEG file. Marker is {c:x} {c2:x}"
@@ -521,18 +521,18 @@ impl LJpeg {
         let mut c = 0;
         while c == 0 {
             // nbytes += 1;
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any non-FF bytes
             while c != 0xff {
                 // nbytes += 1;
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             // skip any duplicate FFs
             while c == 0xff {
                 //  we don't increment nbytes here since extra FFs are legal
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
         } // repeat if it was a stuffed FF/00
 
@@ -934,11 +934,11 @@ impl DecompressInfo {
     }
 
     fn get_sof(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
-        self.data_precision = reader.read_u8();
-        self.image_height = reader.read_u16();
-        self.image_width = reader.read_u16();
-        self.num_components = reader.read_u8();
+        let length = reader.read_u16()?;
+        self.data_precision = reader.read_u8()?;
+        self.image_height = reader.read_u16()?;
+        self.image_width = reader.read_u16()?;
+        self.num_components = reader.read_u8()?;
 
         // We don't support files in which the image height is initially
         // specified as 0 and is later redefined by DNL.  As long as we
@@ -965,11 +965,11 @@ impl DecompressInfo {
         for ci in 0..self.num_components {
             let compptr = &mut self.comp_info[ci as usize];
             compptr.component_index = ci as u16;
-            compptr.component_id = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            compptr.component_id = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             compptr.h_samp_factor = ((c >> 4) & 15) as u16;
             compptr.v_samp_factor = (c & 15) as u16;
-            reader.read_u8(); // skip Tq
+            reader.read_u8()?; // skip Tq
         }
 
         Ok(())
@@ -977,9 +977,9 @@ impl DecompressInfo {
 
     fn get_dht(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
         // length as a signed i32 is safer
-        let mut length = reader.read_u16() as i32 - 2;
+        let mut length = reader.read_u16()? as i32 - 2;
         while length > 0 {
-            let index = reader.read_u8();
+            let index = reader.read_u8()?;
 
             if index >= 4 {
                 return Err(Error::JpegFormat(format!("LJPEG: Bogus DHT index {index}")));
@@ -992,7 +992,7 @@ impl DecompressInfo {
             htblptr.bits[0] = 0;
             let mut count = 0_u16;
             for i in 1..=16 {
-                let b = reader.read_u8();
+                let b = reader.read_u8()?;
                 htblptr.bits[i] = b;
                 count += b as u16;
             }
@@ -1001,7 +1001,7 @@ impl DecompressInfo {
                 return Err(Error::JpegFormat("LJPEG: Bogus DHT counts".into()));
             }
             for i in 0_usize..count as usize {
-                htblptr.huffval[i] = reader.read_u8();
+                htblptr.huffval[i] = reader.read_u8()?;
             }
             length -= 1 + 16 + count as i32;
         }
@@ -1009,7 +1009,7 @@ impl DecompressInfo {
     }
 
     fn skip_variable(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: invalid variable length".into()));
         }
@@ -1024,14 +1024,14 @@ impl DecompressInfo {
 
         loop {
             // skip any non-FF bytes
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c != 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
 
-            c = reader.read_u8();
+            c = reader.read_u8()?;
             while c == 0xff {
-                c = reader.read_u8();
+                c = reader.read_u8()?;
             }
             if c != 0 {
                 break;
@@ -1042,16 +1042,16 @@ impl DecompressInfo {
     }
 
     fn get_dri(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        if reader.read_u16() != 4 {
+        if reader.read_u16()? != 4 {
             return Err(Error::JpegFormat("LJPEG: Invalid DRI length.".into()));
         }
-        self.restart_interval = reader.read_u16();
+        self.restart_interval = reader.read_u16()?;
         Ok(())
     }
 
     /// Process APP0 marker.
     fn get_app0(&self, reader: &mut LJpegBitReader) -> Result<()> {
-        let length = reader.read_u16();
+        let length = reader.read_u16()?;
         if length < 2 {
             return Err(Error::JpegFormat("LJPEG: Invalid APP0 length.".into()));
         }
@@ -1061,12 +1061,12 @@ impl DecompressInfo {
     }
 
     fn get_sos(&mut self, reader: &mut LJpegBitReader) -> Result<()> {
-        let mut length = reader.read_u16();
+        let mut length = reader.read_u16()?;
         if length < 3 {
             return Err(Error::JpegFormat("LJPEG: invalid SOS length".into()));
         }
 
-        let n = reader.read_u8();
+        let n = reader.read_u8()?;
         self.comps_in_scan = n as u16;
         length -= 3;
 
@@ -1075,8 +1075,8 @@ impl DecompressInfo {
         }
 
         for i in 0..n {
-            let cc = reader.read_u8() as u16;
-            let c = reader.read_u8();
+            let cc = reader.read_u8()? as u16;
+            let c = reader.read_u8()?;
             length -= 2;
 
             let mut ci = 0;
@@ -1098,9 +1098,9 @@ impl DecompressInfo {
             self.cur_comp_info[i as usize] = compptr.clone();
         }
 
-        self.ss = reader.read_u8();
+        self.ss = reader.read_u8()?;
         reader.skip(1);
-        let c = reader.read_u8();
+        let c = reader.read_u8()?;
         self.pt = c & 0x0f;
 
         Ok(())
-- 
2.43.0


From c8d2bb2e93a3dfb8f82a7ae907bbf2496fd9c8b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:44 +0000
Subject: [PATCH 042/116] fix: lossless JPEG without a scan decoded to a black
 image

---
 src/decompress/ljpeg.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index 3412651..ba94abc 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -188,7 +188,9 @@ impl LJpeg {
 
         let mut bit_reader = LJpegBitReader::new(buffer);
         self.read_file_header(&mut dc_info, &mut bit_reader)?;
-        self.read_scan_header(&mut dc_info, &mut bit_reader)?;
+        if !self.read_scan_header(&mut dc_info, &mut bit_reader)? {
+            return Err(Error::JpegFormat("LJPEG: no image data".into()));
+        }
 
         if dc_info.image_width == 0 || dc_info.image_height == 0 {
             return Err(Error::JpegFormat(format!(
-- 
2.43.0


From 532c097ed0b5b0cd2899c4cffa6dec839bf8b09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:07 +0000
Subject: [PATCH 043/116] fix: invalid lossless JPEG or slices caused a panic
 or exhausted the memory

---
 src/decompress/ljpeg.rs         | 31 ++++++++++++++++++++++++-------
 src/decompress/sliced_buffer.rs |  7 +++++--
 2 files changed, 29 insertions(+), 9 deletions(-)

diff --git a/src/decompress/ljpeg.rs b/src/decompress/ljpeg.rs
index ba94abc..8e33218 100644
--- a/src/decompress/ljpeg.rs
+++ b/src/decompress/ljpeg.rs
@@ -168,6 +168,11 @@ impl LJpeg {
 
     /// Set the slices for Canon CR2.
     pub fn set_slices(&mut self, slices: &[u32]) {
+        // There can't be more slices than columns.
+        if slices.len() < 3 || slices[0] > u16::MAX as u32 * 4 {
+            log::error!("LJPEG: invalid slices");
+            return;
+        }
         let mut v = Vec::new();
         let n = slices[0] as usize;
         v.resize(n + 1, slices[1]);
@@ -204,17 +209,20 @@ impl LJpeg {
                 dc_info.num_components
             )));
         }
+        let num_samples = dc_info.image_width as usize
+            * dc_info.image_height as usize
+            * dc_info.num_components as usize;
+        if num_samples > buffer.len().saturating_mul(8) {
+            // Each sample takes at least one bit.
+            return Err(Error::UnexpectedEOF);
+        }
         let bpc = dc_info.data_precision;
         let mut output: SlicedBuffer<ComponentType> = SlicedBuffer::new(
             dc_info.image_width as u32 * dc_info.num_components as u32,
             dc_info.image_height as u32,
             self.slices.clone().as_deref(),
         );
-        output.reserve(
-            dc_info.image_width as usize
-                * dc_info.image_height as usize
-                * dc_info.num_components as usize,
-        );
+        output.reserve(num_samples);
         log::debug!(
             "dc width = {} dc height = {}",
             dc_info.image_width,
@@ -231,7 +239,11 @@ impl LJpeg {
             // Some CR2 files have 4 components so we need to double the height.
             // Includes 6DMkII.
             // The 7D has proper width and height. We check against the slices.
-            let slice_width: u32 = self.slices.as_ref().map(|s| s.iter().sum()).unwrap_or(0);
+            let slice_width: u32 = self
+                .slices
+                .as_ref()
+                .map(|s| s.iter().fold(0, |acc: u32, w| acc.saturating_add(*w)))
+                .unwrap_or(0);
             if self.is_raw && dc_info.num_components == 4 {
                 if slice_width != 0
                     && (dc_info.image_width as u32 * dc_info.num_components as u32) == slice_width
@@ -638,7 +650,12 @@ impl LJpeg {
                 // log::warn!("Corrupt JPEG data: bad huffman code")
                 rv = 0;
             } else {
-                rv = htbl.huffval[((htbl.valptr[l] as i32) + (code - htbl.mincode[l])) as usize]
+                let index = (htbl.valptr[l] as i32) + (code - htbl.mincode[l]);
+                // This only fails with an invalid table.
+                rv = usize::try_from(index)
+                    .ok()
+                    .and_then(|index| htbl.huffval.get(index).copied())
+                    .ok_or_else(|| Error::JpegFormat("LJPEG: invalid Huffman code".into()))?
                     as u16;
             }
         }
diff --git a/src/decompress/sliced_buffer.rs b/src/decompress/sliced_buffer.rs
index c4cf5cb..be9ecb8 100644
--- a/src/decompress/sliced_buffer.rs
+++ b/src/decompress/sliced_buffer.rs
@@ -138,8 +138,11 @@ impl<T: Copy + Default> SlicedBuffer<T> {
             self.pos = new_pos;
         } else {
             iter.for_each(|d| {
-                self.buffer[self.pos] = d;
-                self.pos = self.advance();
+                // The slices might not be as wide as the image.
+                if let Some(b) = self.buffer.get_mut(self.pos) {
+                    *b = d;
+                    self.pos = self.advance();
+                }
             })
         }
     }
-- 
2.43.0


From dcc813d3893b2859bc3a61f32393d2ae4888fda5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:25 +0000
Subject: [PATCH 044/116] fix: tiles that follow one that can't be decoded were
 misplaced

---
 src/decompress/tiled.rs | 55 +++++++++++++++++++++++------------------
 1 file changed, 31 insertions(+), 24 deletions(-)

diff --git a/src/decompress/tiled.rs b/src/decompress/tiled.rs
index a0b4e0f..9b7d878 100644
--- a/src/decompress/tiled.rs
+++ b/src/decompress/tiled.rs
@@ -24,7 +24,7 @@
 use rayon::prelude::*;
 
 use crate::bitmap::Bitmap;
-use crate::{DataType, RawImage, Result};
+use crate::{DataType, Error, RawImage, Result};
 
 use super::ljpeg::{LJpeg, Tile};
 
@@ -40,19 +40,32 @@ impl TiledLJpeg {
         let data_size = width * height;
         let mut buffer = vec![0; data_size];
 
-        let mut first_row = 0_usize;
-        let mut first_col = 0_usize;
+        // All the tiles are used for the same size.
+        let (tile_width, tile_height) = match tiles
+            .iter()
+            .flatten()
+            .map(|tile| (tile.u_width as usize, tile.u_height as usize))
+            .find(|size| size.0 != 0)
+        {
+            Some(size) => size,
+            None => return buffer,
+        };
+        let across = (width.saturating_sub(1) / tile_width) + 1;
 
         let buf_slice = buffer.as_mut_slice();
-        for tile in tiles {
-            if tile.is_none() {
-                log::error!("tile is none");
-                continue;
-            }
-            let tile = tile.as_ref().unwrap();
-            if tile.u_width == 0 {
-                continue;
+        for (i, tile) in tiles.iter().enumerate() {
+            let first_col = i % across * tile_width;
+            let first_row = i / across * tile_height;
+            if first_row >= height || first_col >= width {
+                break;
             }
+            let tile = match tile {
+                Some(tile) if tile.u_width != 0 => tile,
+                _ => {
+                    log::error!("tile {i} is missing");
+                    continue;
+                }
+            };
             // Edge tiles might be wider than necessary, ie width
             // isn't a multiple of the image width.
             let row_len = std::cmp::min(tile.u_width as usize, width - first_col);
@@ -72,14 +85,6 @@ impl TiledLJpeg {
                 let tile_pos = r * tile.u_width as usize;
                 buf_slice[pos..][..row_len].copy_from_slice(&tile.buf[tile_pos..][..row_len]);
             }
-            first_col += tile.u_width as usize;
-            if first_col >= width {
-                first_col = 0;
-                first_row += tile.u_height as usize;
-                if first_row >= height {
-                    break;
-                }
-            }
         }
 
         buffer
@@ -94,6 +99,12 @@ impl TiledLJpeg {
         if let Some(tiles) = rawdata.tile_data() {
             probe!(probe, "ljpeg.tiled", "true");
             let tile_size = rawdata.tile_size();
+            let (width, height) = (rawdata.width() as usize, rawdata.height() as usize);
+            let size: usize = tiles.iter().map(|tile| tile.len()).sum();
+            if width.saturating_mul(height) > size.saturating_mul(8) {
+                // Each sample takes at least one bit.
+                return Err(Error::UnexpectedEOF);
+            }
             let dec_tiles: Vec<Option<Tile>> = tiles
                 .par_iter()
                 .map(|tile| {
@@ -120,11 +131,7 @@ impl TiledLJpeg {
                 })
                 .collect();
 
-            let data = Self::combine_tiles(
-                rawdata.width() as usize,
-                rawdata.height() as usize,
-                &dec_tiles,
-            );
+            let data = Self::combine_tiles(width, height, &dec_tiles);
 
             let mut rawdata = rawdata.replace_data(data);
             rawdata.set_data_type(DataType::Raw);
-- 
2.43.0


From 37f5d9e46ca5fef6b99345d5cdf34c481bbc72f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:40 +0000
Subject: [PATCH 045/116] fix: reading past the end of compressed data caused a
 panic

---
 src/decompress/bit_reader.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index a09fbca..4015de2 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -44,10 +44,10 @@ pub(crate) trait BitReader {
                 "BitReader: Tried to request {nbits} bits (max 16)."
             )));
         }
-        let value = self.peek(nbits);
+        let value = self.peek(nbits)?;
         self.consume(nbits);
 
-        value
+        Ok(value)
     }
 
     #[inline]
-- 
2.43.0


From b5fa4a59e8b785a7a0d859db3334d0504877423d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:01 +0000
Subject: [PATCH 046/116] fix: the low bits of CRW samples were added to the
 sample before

The ten high bits and the two low bits of each result were those of
two different samples, and the last one of each block had no high bits.
---
 src/canon/crw/decompress.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 26da8fb..401349b 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -314,10 +314,7 @@ impl Decompress {
                 for _ in 0..16 {
                     let c = reader.read_u8()? as u16;
                     for r in 0..4 {
-                        // outbuf is 64, so we must check for it to not
-                        // overflow (read out of bounds)
-                        let next = if i < 63 { outbuf[i + 1] } else { 0 };
-                        outbuf[i] = (next << 2) + ((c >> (r * 2)) & 3);
+                        outbuf[i] = (outbuf[i] << 2) | ((c >> (r * 2)) & 3);
 
                         i += 1;
                     }
-- 
2.43.0


From 0d7bda890cf9d54af08dcc855a2fcbdc249096af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:01 +0000
Subject: [PATCH 047/116] fix: CRW data was taken to have no low bits if it has
 no 0xff at all

Only a 0xff followed by 0 tells that these bytes are compressed data.
---
 src/canon/crw/decompress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 401349b..9df5e70 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -220,7 +220,7 @@ fn make_decoder(
 
 fn canon_has_lowbits(reader: &mut dyn ReadAndSeek) -> Result<bool> {
     let mut test = [0_u8; 0x4000 - 26];
-    let mut ret = false;
+    let mut ret = true;
     reader.rewind()?;
     reader.read_exact(&mut test)?;
     for i in 514..test.len() - 1 {
-- 
2.43.0


From 042b02284643ada613450aa37c9017a8641fa138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:31 +0000
Subject: [PATCH 048/116] fix: CRW images had more samples than pixels when not
 whole blocks

---
 src/canon/crw/decompress.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 9df5e70..c89c9eb 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -323,6 +323,8 @@ impl Decompress {
             }
             data.extend_from_slice(&outbuf);
         }
+        // The last block may go past the end of the image.
+        data.truncate(self.width as usize * self.height as usize);
 
         Ok(RawImage::with_data16(
             self.width,
-- 
2.43.0


From eaa13d26bf0f752088e347c3bf93d24dd9b4a6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:33 +0000
Subject: [PATCH 049/116] fix: memory for a CRW image was reserved whatever the
 size of its data

The dimensions in a damaged file could ask for 8 GB.
---
 src/canon/crw/decompress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index c89c9eb..14a4f1e 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -249,7 +249,7 @@ impl Decompress {
     }
 
     pub(super) fn decompress(&mut self, reader: &mut dyn ReadAndSeek) -> Result<RawImage> {
-        let mut data = Vec::with_capacity(self.width as usize * self.height as usize);
+        let mut data = Vec::new();
 
         let lowbits = if canon_has_lowbits(reader)? { 1 } else { 0 };
         reader.seek(SeekFrom::Start(
-- 
2.43.0


From 1ddac7593b6eb505641d1b367578a89cfb3672d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:57:35 +0000
Subject: [PATCH 050/116] fix: large differences in CRW data caused an overflow

---
 src/canon/crw/decompress.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 14a4f1e..06748e9 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -296,7 +296,7 @@ impl Decompress {
 
                 i += 1;
             }
-            diffbuf[0] += carry;
+            diffbuf[0] = diffbuf[0].wrapping_add(carry);
             carry = diffbuf[0];
             for i in 0..64 {
                 if column % self.width == 0 {
@@ -304,7 +304,7 @@ impl Decompress {
                     base[1] = 512;
                 }
                 column += 1;
-                base[i & 1] += diffbuf[i];
+                base[i & 1] = base[i & 1].wrapping_add(diffbuf[i]);
                 outbuf[i] = base[i & 1] as u16;
             }
             if lowbits != 0 {
-- 
2.43.0


From 6e3f969a778061ee2c326d2fbb01f7a911775712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:14 +0000
Subject: [PATCH 051/116] fix: the samples of CRW files with low bits have 12
 bits, not 10

---
 src/canon/crw.rs            | 6 +++---
 src/canon/crw/decompress.rs | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index c5f4a41..f37a0d4 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -44,8 +44,8 @@ use crate::tiff;
 use crate::tiff::exif;
 use crate::tiff::Dir;
 use crate::{
-    Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Rect, Result,
-    Size, Type, TypeId,
+    Bitmap, Context, DataType, Dump, Error, RawFile, RawFileHandle, RawFileImpl, RawImage, Rect,
+    Result, Size, Type, TypeId,
 };
 
 use super::matrices::MATRICES;
@@ -391,7 +391,7 @@ impl RawFileImpl for CrwFile {
                                 decompressor
                                     .decompress(&mut view)
                                     .map(|mut rawdata| {
-                                        let bpc = 10_u32;
+                                        let bpc = rawdata.bpc();
                                         let (black, white) = MATRICES
                                             .iter()
                                             .find(|m| m.camera == type_id)
diff --git a/src/canon/crw/decompress.rs b/src/canon/crw/decompress.rs
index 06748e9..7915f83 100644
--- a/src/canon/crw/decompress.rs
+++ b/src/canon/crw/decompress.rs
@@ -329,7 +329,7 @@ impl Decompress {
         Ok(RawImage::with_data16(
             self.width,
             self.height,
-            10,
+            if lowbits != 0 { 12 } else { 10 },
             DataType::Raw,
             data,
             Pattern::default(),
-- 
2.43.0


From 5438dedaaa7ecad3f7dabf52922695954c781429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:16 +0000
Subject: [PATCH 052/116] fix: the green levels of the white balance of CRW
 files could overflow

---
 src/canon/crw.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index f37a0d4..a07b256 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -134,7 +134,7 @@ impl CrwFile {
                     let mut wb_data = [0_u16; 4];
                     view.read_endian_u16_array(&mut wb_data, container.endian())
                         .ok();
-                    let g = (wb_data[0] + wb_data[3]) as f64 / 2.0;
+                    let g = (wb_data[0] as f64 + wb_data[3] as f64) / 2.0;
                     Some(vec![g / wb_data[1] as f64, 1.0, g / wb_data[2] as f64])
                 } else {
                     log::warn!("Unexpected ColourInfo2 magic {magic}");
-- 
2.43.0


From 15c3869688283bfb25189577095591e58bd1aeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:42 +0000
Subject: [PATCH 053/116] fix: the undecompressed raw image of a CR2 had no
 dimensions

---
 src/canon/cr2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 947b49f..f00f60b 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -233,8 +233,10 @@ impl Cr2File {
         // contain X & Y but we don't need them right now.
         // We'll use the active area and the JPEG stream.
         // But we need this if we skip decompression.
+        let exif_ifd = self.ifd(tiff::IfdType::Exif);
         let width = cfa_ifd
             .uint_value(exif::EXIF_TAG_PIXEL_X_DIMENSION)
+            .or_else(|| exif_ifd?.uint_value(exif::EXIF_TAG_PIXEL_X_DIMENSION))
             .map(|value| {
                 probe!(self.probe, "cr2.exif_x", "true");
                 value
@@ -242,6 +244,7 @@ impl Cr2File {
             .unwrap_or_default();
         let height = cfa_ifd
             .uint_value(exif::EXIF_TAG_PIXEL_Y_DIMENSION)
+            .or_else(|| exif_ifd?.uint_value(exif::EXIF_TAG_PIXEL_Y_DIMENSION))
             .map(|value| {
                 probe!(self.probe, "cr2.exif_y", "true");
                 value
-- 
2.43.0


From b27245acdaaf3710e8b895e3a50ae47c1700de87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:44 +0000
Subject: [PATCH 054/116] fix: raw images of MRW files without a known white
 level had one of 0

---
 src/minolta.rs | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 1fecfa0..593d0d0 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -297,15 +297,22 @@ impl RawFileImpl for MrwFile {
                 )
             };
             let id = self.type_id()?;
-            if let Some((black, white)) = MATRICES
+            let (black, white) = MATRICES
                 .iter()
                 .find(|m| m.camera == id)
-                .map(|m| (m.black, m.white))
-            {
-                probe!(self.probe, "mrw.whites_blacks", "true");
-                rawdata.set_whites([white; 4]);
-                rawdata.set_blacks([black; 4]);
-            }
+                .map(|m| {
+                    probe!(self.probe, "mrw.whites_blacks", "true");
+                    (m.black, m.white)
+                })
+                .unwrap_or((0, 0));
+            // A 0 value for white isn't valid.
+            let white = if white == 0 {
+                ((1_u32 << rawinfo.bps.min(16)) - 1) as u16
+            } else {
+                white
+            };
+            rawdata.set_whites([white; 4]);
+            rawdata.set_blacks([black; 4]);
             if let Some(wb) = container.get_wb() {
                 probe!(self.probe, "mrw.wb", "true");
                 rawdata.set_as_shot_neutral(&wb);
-- 
2.43.0


From e8758d6a210bce45fd0ca2f9402500a470e98dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:02:22 +0000
Subject: [PATCH 055/116] fix: the white balance of CRW files caused a panic
 when looked up first

---
 src/canon/crw.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index a07b256..3e209d8 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -149,6 +149,8 @@ impl CrwFile {
         }
 
         // D30, G, S.
+        // Get the offset first as it might need to read from the container.
+        let wb_offset = self.crw_wb_offset();
         let wb = heap.records().get(&ciff::Tag::ColourInfo1).and_then(|r| {
             if let ciff::Record::InHeap((pos, len)) = r.data {
                 let mut view = container.borrow_view_mut();
@@ -169,7 +171,7 @@ impl CrwFile {
                     }
                     769.. => {
                         // Pro, G6, S60, S70, S45, S50, G3, G5
-                        let offset = self.crw_wb_offset();
+                        let offset = wb_offset;
                         // magic values from rawspeed if not the default offset.
                         // Pro, G6, S60, S70
                         let key = if offset != Self::CRW_WB_DEFAULT_OFFSET {
-- 
2.43.0


From 2420e28aaa64d9e8955d737a0125f6db10fbd684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:46 +0000
Subject: [PATCH 056/116] fix: linearization with a table ignored the black
 level and could panic

---
 src/rawimage.rs | 22 +++++++---------------
 1 file changed, 7 insertions(+), 15 deletions(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 8e2378f..866fc2a 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -428,28 +428,20 @@ impl RawImage {
         let white = self.whites()[0];
         let black = self.blacks()[0];
         let range = (white - black) as f64;
-        let table = if self
+        let table = self
             .linearization_table
             .as_ref()
-            .map(|t| t.len() == (1 << self.bpc()))
-            .unwrap_or(false)
-        {
-            self.linearization_table.as_ref()
-        } else {
-            None
-        };
+            .filter(|t| Some(t.len()) == 1_usize.checked_shl(self.bpc() as u32));
         log::debug!("pre-lin at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
         let data = buffer
             .data
             .iter()
             .map(|v| {
-                table.map(|t| t[*v as usize] as f64).unwrap_or_else(|| {
-                    if *v < black {
-                        0.0
-                    } else {
-                        (*v - black) as f64
-                    }
-                }) / range
+                // A sample past the end of the table is the last of it.
+                let v = table
+                    .map(|t| t[(*v as usize).min(t.len() - 1)])
+                    .unwrap_or(*v);
+                v.saturating_sub(black) as f64 / range
             })
             .collect();
 
-- 
2.43.0


From 704a57a44e6e9b0f7177d29acefab61fdf1f0a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:48 +0000
Subject: [PATCH 057/116] fix: rendering with a white level below the black
 level panicked

---
 src/rawimage.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 866fc2a..e512e0c 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -422,11 +422,15 @@ impl RawImage {
     ///   this is notable on Leica M8 files.
     /// - scale by range / white
     ///
-    fn linearize(&self, buffer: ImageBuffer<u16>) -> ImageBuffer<f64> {
+    fn linearize(&self, buffer: ImageBuffer<u16>) -> Result<ImageBuffer<f64>> {
         log::debug!("linearize");
         // XXX fix this to use the 4 component
         let white = self.whites()[0];
         let black = self.blacks()[0];
+        if white <= black {
+            log::error!("Invalid levels: black {} white {}", black, white);
+            return Err(Error::InvalidFormat);
+        }
         let range = (white - black) as f64;
         let table = self
             .linearization_table
@@ -448,7 +452,7 @@ impl RawImage {
         let buffer =
             ImageBuffer::<f64>::with_data(data, buffer.width, buffer.height, buffer.bpc, 1);
         log::debug!("post-lin at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
-        buffer
+        Ok(buffer)
     }
 
     /// Interplate the image buffer. Return a new buffer if successful.
@@ -546,7 +550,7 @@ impl RawImage {
             1,
         );
         log::debug!("Linearizing data");
-        let mut data = self.linearize(data16);
+        let mut data = self.linearize(data16)?;
         if options.stage >= RenderingStage::Interpolation {
             log::debug!("Interpolating");
             data = self.interpolate(data)?;
-- 
2.43.0


From 5f9f87dd5bf51687a57271357c66f6d03d3f741a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:50 +0000
Subject: [PATCH 058/116] fix: pixel_at() panicked for pixels just outside of
 the image

---
 src/bitmap.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/bitmap.rs b/src/bitmap.rs
index 6984325..b752ada 100644
--- a/src/bitmap.rs
+++ b/src/bitmap.rs
@@ -66,13 +66,13 @@ impl<T> ImageBuffer<T> {
     where
         T: Copy,
     {
-        if x > self.width || y > self.height {
+        if x >= self.width || y >= self.height {
             return None;
         }
-        let pos = ((y * self.width * self.cc) + x * self.cc) as usize;
-        let pixel = &self.data[pos..pos + self.cc as usize];
+        let cc = self.cc as usize;
+        let pos = (y as usize * self.width as usize + x as usize) * cc;
 
-        Some(pixel.to_vec())
+        self.data.get(pos..pos + cc).map(|pixel| pixel.to_vec())
     }
 
     #[inline]
-- 
2.43.0


From c05bf4fc75510c7cd07be70fb89c6640165328ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:53 +0000
Subject: [PATCH 059/116] fix: rendering an image without enough data panicked

---
 src/rawimage.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index e512e0c..23d3ba2 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -543,7 +543,10 @@ impl RawImage {
         let y = self.height();
         let mut pattern = self.mosaic_pattern().clone();
         let data16 = ImageBuffer::with_data(
-            self.data16().ok_or(Error::InvalidFormat)?.to_vec(),
+            self.data16()
+                .and_then(|data| data.get(..x as usize * y as usize))
+                .ok_or(Error::InvalidFormat)?
+                .to_vec(),
             x,
             y,
             16,
-- 
2.43.0


From 7311287722b01653191a8d7af9224c887cfe0cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:54 +0000
Subject: [PATCH 060/116] fix: rendering an image one pixel wide or high
 panicked

---
 src/render/demosaic.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/render/demosaic.rs b/src/render/demosaic.rs
index 9ffd26e..2ab4cf3 100644
--- a/src/render/demosaic.rs
+++ b/src/render/demosaic.rs
@@ -76,6 +76,11 @@ pub(crate) fn bimedian(
         }
     };
 
+    if input.width < 2 || input.height < 2 {
+        log::error!("Image too small {}x{}", input.width, input.height);
+        return Err(Error::InvalidFormat);
+    }
+
     let mut dst: Vec<f64> = vec![0.0; input.width as usize * input.height as usize * 3];
 
     #[allow(non_snake_case)]
-- 
2.43.0


From e118e5036765273359f68c44af74ba2da9b79ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:56 +0000
Subject: [PATCH 061/116] fix: rendering with an invalid colour matrix panicked

---
 src/rawimage.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 23d3ba2..2438733 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -499,7 +499,7 @@ impl RawImage {
         for i in 1..=2 {
             cm = self
                 .colour_matrix(i)
-                .filter(|m| m.illuminant == exif::LightsourceValue::D65)
+                .filter(|m| m.illuminant == exif::LightsourceValue::D65 && m.len() == 9)
                 .map(|m| Matrix3::from_row_slice(&m.matrix));
             if cm.is_some() {
                 break;
@@ -507,6 +507,10 @@ impl RawImage {
         }
         if let Some(cm) = cm {
             log::debug!("Calculating cam RGB");
+            if !cm.is_invertible() {
+                log::error!("Colour matrix can't be inverted");
+                return Err(Error::InvalidFormat);
+            }
             let cam_rgb = Self::calculate_cam_rgb(&cm);
             log::debug!("pixel cam at 1000, 1000: {:?}", buffer.pixel_at(1000, 1000));
             log::debug!("Applying colour matrix");
-- 
2.43.0


From 0d10448a01309975d8777ce79774af0de5ecf989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:58 +0000
Subject: [PATCH 062/116] fix: linearized images had a single component but the
 type of RGB ones

---
 src/rawimage.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index 2438733..a03fe68 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -594,7 +594,13 @@ impl RawImage {
             "pixel rgb(u16) at 1000, 1000: {:?}",
             data16.pixel_at(1000, 1000)
         );
-        let mut image = RawImage::with_image_buffer(data16, DataType::PixmapRgb16, pattern);
+        // Until it is interpolated there is only one component.
+        let data_type = if options.stage >= RenderingStage::Interpolation {
+            DataType::PixmapRgb16
+        } else {
+            DataType::Raw
+        };
+        let mut image = RawImage::with_image_buffer(data16, data_type, pattern);
         if options.stage >= RenderingStage::Linearization {
             image.set_blacks([0, 0, 0, 0]);
             image.set_whites([u16::MAX; 4]);
-- 
2.43.0


From 0dd1afb16ffe28840abd143076255373023bc7ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:06 +0000
Subject: [PATCH 063/116] fix: or_rawfile_get_colourmatrix panicked with a
 larger buffer and didn't return the size needed

---
 src/capi/rawfile.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index a3051b7..e9f72b2 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -312,12 +312,15 @@ fn rawfile_get_colour_matrix(
             |err| err.into(),
             |cm| {
                 let out_size = unsafe { *size } as usize;
+                // This is also how the caller knows how much is needed.
+                unsafe { *size = cm.1.len() as u32 };
                 if out_size < cm.1.len() {
                     return or_error::BUF_TOO_SMALL;
                 }
-                let slice = unsafe { std::slice::from_raw_parts_mut(matrix, out_size) };
-                slice.copy_from_slice(&cm.1[..out_size]);
-                unsafe { *size = cm.1.len() as u32 };
+                if matrix.is_null() {
+                    return or_error::INVALID_PARAM;
+                }
+                unsafe { matrix.copy_from_nonoverlapping(cm.1.as_ptr(), cm.1.len()) };
                 or_error::NONE
             },
         )
-- 
2.43.0


From 150fc0fa17eff15c61d1ac29c3c0841f4f7c3e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:07 +0000
Subject: [PATCH 064/116] fix: or_rawfile_get_rendered_image left the error
 unset in case of success

---
 src/capi/rawfile.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index e9f72b2..a1e8f14 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -254,7 +254,12 @@ extern "C" fn or_rawfile_get_rendered_image(
         rawfile
             .0
             .rendered_image(options)
-            .map(|r| Box::into_raw(Box::new(r)))
+            .map(|r| {
+                if !error.is_null() {
+                    unsafe { *error = or_error::NONE };
+                }
+                Box::into_raw(Box::new(r))
+            })
             .unwrap_or_else(|e| {
                 if !error.is_null() {
                     unsafe { *error = e.into() };
-- 
2.43.0


From 56a96e9312df73d6075b2a1ec86e135d63b97012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:09 +0000
Subject: [PATCH 065/116] fix: the C API left the error unset for a null
 rawfile

---
 src/capi/rawfile.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index a1e8f14..1b8d0b3 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -146,6 +146,14 @@ extern "C" fn or_rawfile_get_vendorid(rawfile: ORRawFileRef) -> or_rawfile_typei
     )
 }
 
+/// Report in `error` that the rawfile is null.
+fn null_rawfile<T>(error: *mut or_error) -> *mut T {
+    if !error.is_null() {
+        unsafe { *error = or_error::NOT_AREF };
+    }
+    std::ptr::null_mut()
+}
+
 #[no_mangle]
 /// Get the rawdata for the rawfile.
 ///
@@ -155,7 +163,7 @@ extern "C" fn or_rawfile_get_rawdata(
     options: u32,
     error: *mut or_error,
 ) -> ORRawDataRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, null_rawfile(error), {
         let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
         rawfile
             .0
@@ -186,7 +194,7 @@ extern "C" fn or_rawfile_get_thumbnail(
     preferred_size: u32,
     error: *mut or_error,
 ) -> ORThumbnailRef {
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, null_rawfile(error), {
         rawfile
             .0
             .thumbnail(preferred_size)
@@ -250,7 +258,7 @@ extern "C" fn or_rawfile_get_rendered_image(
     error: *mut or_error,
 ) -> ORBitmapDataRef {
     let options = RenderingOptions::from(options);
-    or_unwrap!(rawfile, std::ptr::null_mut(), {
+    or_unwrap!(rawfile, null_rawfile(error), {
         rawfile
             .0
             .rendered_image(options)
-- 
2.43.0


From 06d690aea922f93d63189365b0318ebf81e393a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:11 +0000
Subject: [PATCH 066/116] fix: or_rawfile_get_thumbnail_sizes left the size
 unset when there is none

---
 src/capi/rawfile.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index 1b8d0b3..c883079 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -227,6 +227,9 @@ extern "C" fn or_rawfile_get_thumbnail_sizes(
             // sizes belong to the rawfile.
             return sizes.as_ptr();
         }
+        if !size.is_null() {
+            unsafe { *size = 0 };
+        }
         std::ptr::null()
     })
 }
-- 
2.43.0


From 9082e4afa912bb35f4a419da2ec36c7ff1b9edee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:13 +0000
Subject: [PATCH 067/116] fix: the C API reported errors it has a code for as
 unknown

---
 src/capi.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/capi.rs b/src/capi.rs
index 27fa11a..d7641ad 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -135,7 +135,12 @@ pub enum or_error {
 impl From<Error> for or_error {
     fn from(err: Error) -> or_error {
         match err {
+            Error::None => or_error::NONE,
+            Error::BufferTooSmall => or_error::BUF_TOO_SMALL,
+            Error::InvalidAddress => or_error::NOT_AREF,
             Error::NotFound => or_error::NOT_FOUND,
+            Error::InvalidParam => or_error::INVALID_PARAM,
+            Error::InvalidFormat => or_error::INVALID_FORMAT,
             _ => or_error::UNKNOWN,
         }
     }
-- 
2.43.0


From 8dd7bb26390063999470235f5968fef0bed82f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 068/116] fix: or_bitmapdata_data returned null for an image
 that isn't RGB

---
 src/capi/bitmap.rs | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/src/capi/bitmap.rs b/src/capi/bitmap.rs
index 849c306..bc5945f 100644
--- a/src/capi/bitmap.rs
+++ b/src/capi/bitmap.rs
@@ -21,7 +21,7 @@
 
 //! This contain all the `or_bitmapdata_*` APIs.
 
-use crate::{or_unwrap, Bitmap, DataType, RawImage};
+use crate::{or_unwrap, Bitmap, RawImage};
 
 use super::{or_data_type, or_error};
 
@@ -53,17 +53,15 @@ extern "C" fn or_bitmapdata_data(bitmap: ORBitmapDataRef) -> *const libc::c_void
     or_unwrap!(
         bitmap,
         std::ptr::null(),
-        if bitmap.data_type() == DataType::PixmapRgb16 {
-            bitmap
-                .data16()
-                .map(|data| data.as_ptr())
-                .unwrap_or_else(std::ptr::null) as *const libc::c_void
-        } else {
-            bitmap
-                .data8()
-                .map(|data| data.as_ptr())
-                .unwrap_or_else(std::ptr::null) as *const libc::c_void
-        }
+        bitmap
+            .data16()
+            .map(|data| data.as_ptr() as *const libc::c_void)
+            .or_else(|| {
+                bitmap
+                    .data8()
+                    .map(|data| data.as_ptr() as *const libc::c_void)
+            })
+            .unwrap_or_else(std::ptr::null)
     )
 }
 
-- 
2.43.0


From ba1b3346c6153d9b2c1d45fe9669fc81b7990c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:17 +0000
Subject: [PATCH 069/116] fix: or_mosaicinfo_get_pattern panicked

---
 src/capi/mosaic.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/src/capi/mosaic.rs b/src/capi/mosaic.rs
index afb7444..e95c798 100644
--- a/src/capi/mosaic.rs
+++ b/src/capi/mosaic.rs
@@ -34,8 +34,17 @@ extern "C" fn or_mosaicinfo_get_type(mosaic_info: ORMosaicInfoRef) -> or_cfa_pat
 }
 
 #[no_mangle]
-/// Get the pattern. Currently unimplemented.
-extern "C" fn or_mosaicinfo_get_pattern(_mosaic_info: ORMosaicInfoRef) -> *const u8 {
-    // XXX todo
-    unreachable!();
+/// Get the pattern, an array of `count` colours owned by the mosaic info.
+extern "C" fn or_mosaicinfo_get_pattern(
+    mosaic_info: ORMosaicInfoRef,
+    count: *mut u16,
+) -> *const u8 {
+    or_unwrap!(mosaic_info, std::ptr::null(), {
+        let pattern = mosaic_info.pattern();
+        if !count.is_null() {
+            unsafe { *count = pattern.len() as u16 };
+        }
+        // `PatternColour` is `u8` with the values of the C API.
+        pattern.as_ptr() as *const u8
+    })
 }
-- 
2.43.0


From d5c43d864718370323e637c8133c45bcfd09849b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:19 +0000
Subject: [PATCH 070/116] fix: or_ifd_get_tag_name returned a string without a
 NUL

---
 src/capi/ifd.rs | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/capi/ifd.rs b/src/capi/ifd.rs
index 6176c58..8de01e8 100644
--- a/src/capi/ifd.rs
+++ b/src/capi/ifd.rs
@@ -19,10 +19,21 @@
  * <http://www.gnu.org/licenses/>.
  */
 
+use std::collections::HashMap;
+use std::ffi::CString;
+use std::sync::Mutex;
+
+use once_cell::sync::Lazy;
+
 use crate::tiff::{Ifd, IfdType};
 
 use crate::or_unwrap;
 
+/// The NUL terminated tag names that have been returned. The `CString` don't
+/// move so that the pointers stay valid.
+static TAG_NAMES: Lazy<Mutex<HashMap<&'static str, CString>>> =
+    Lazy::new(|| Mutex::new(HashMap::new()));
+
 /// And IFD directory.
 pub type ORIfdDirRef = *const crate::tiff::Dir;
 
@@ -99,10 +110,14 @@ extern "C" fn or_ifd_get_type(dir: ORIfdDirRef) -> or_ifd_dir_type {
 }
 
 #[no_mangle]
+/// Return the name of the tag. A NUL terminated string owned by the library.
 extern "C" fn or_ifd_get_tag_name(dir: ORIfdDirRef, tag: u32) -> *const std::ffi::c_char {
     or_unwrap!(dir, std::ptr::null(), {
-        dir.tag_name(tag as u16)
-            // XXX this is very very unsafe, it is not NUL terminated
-            .as_ptr() as *const std::ffi::c_char
+        let name = u16::try_from(tag).map_or("", |tag| dir.tag_name(tag));
+        let mut names = TAG_NAMES.lock().unwrap_or_else(|err| err.into_inner());
+        names
+            .entry(name)
+            .or_insert_with(|| CString::new(name).unwrap_or_default())
+            .as_ptr()
     })
 }
-- 
2.43.0


From 4ec67fed61dd2fc6887e9eb634ca584c1f00de63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:43 +0000
Subject: [PATCH 071/116] fix: the C API dereferenced null strings and buffers

---
 src/capi.rs         | 8 ++++----
 src/capi/mime.rs    | 3 +++
 src/capi/rawdata.rs | 3 +++
 src/capi/rawfile.rs | 9 +++++++++
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index d7641ad..6b4c378 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -298,7 +298,7 @@ extern "C" fn or_debug_set_level(lvl: debug_level) {
 /// `filename` (a path), and return the [`ORThumbnailRef`] at the location
 /// pointed by `thumb`.
 ///
-/// If `thumb` is `null`, [`NOT_AREF`][or_error::NOT_AREF] is returned,
+/// If `thumb` or `filename` is `null`, [`NOT_AREF`][or_error::NOT_AREF] is returned,
 /// [`NONE`][or_error::NONE] in case of success. Any other error will
 /// be returned too.
 /// Only if `NONE` is returned then `*thumb` will contain a valid
@@ -313,7 +313,7 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     preferred_size: u32,
     thumb: *mut ORThumbnailRef,
 ) -> or_error {
-    if thumb.is_null() {
+    if thumb.is_null() || filename.is_null() {
         return or_error::NOT_AREF;
     }
     let filename = unsafe { CStr::from_ptr(filename) };
@@ -335,7 +335,7 @@ unsafe extern "C" fn or_get_extract_thumbnail(
 /// Get the raw data from the raw file at `filename` (a path), and
 /// return the [`ORRawDataRef`] at the location pointed by `rawdata`.
 ///
-/// If `rawdata` is `null`, [`NOT_AREF`][or_error::NOT_AREF] is returned,
+/// If `rawdata` or `filename` is `null`, [`NOT_AREF`][or_error::NOT_AREF] is returned,
 /// [`NONE`][or_error::NONE] in case of success. Any other error will
 /// be returned too.
 /// Only if `NONE` is returned then `*rawdata` will contain a valid
@@ -350,7 +350,7 @@ unsafe extern "C" fn or_get_extract_rawdata(
     options: u32,
     rawdata: *mut ORRawDataRef,
 ) -> or_error {
-    if rawdata.is_null() {
+    if rawdata.is_null() || filename.is_null() {
         return or_error::NOT_AREF;
     }
 
diff --git a/src/capi/mime.rs b/src/capi/mime.rs
index 975d012..18029d8 100644
--- a/src/capi/mime.rs
+++ b/src/capi/mime.rs
@@ -64,6 +64,9 @@ extern "C" fn or_get_mime_types() -> *const *const c_char {
 /// A returned value of `0` denote either an error or a an unknown file.
 /// A non null invalid `rawfile` is undefined behaviour.
 extern "C" fn or_get_type_for_mime_type(mime_type: *const c_char) -> or_rawfile_type {
+    if mime_type.is_null() {
+        return Type::Unknown as u32;
+    }
     let mime_type = unsafe { CStr::from_ptr(mime_type) };
     crate::type_for_mime_type(&mime_type.to_string_lossy()).unwrap_or(Type::Unknown) as u32
 }
diff --git a/src/capi/rawdata.rs b/src/capi/rawdata.rs
index eb733ed..7e3569e 100644
--- a/src/capi/rawdata.rs
+++ b/src/capi/rawdata.rs
@@ -165,6 +165,9 @@ extern "C" fn or_rawdata_levels(
 // As shot neutral white balance.
 extern "C" fn or_rawdata_as_shot_neutral(rawdata: ORRawDataRef, wb: *mut f64) -> or_error {
     or_unwrap!(rawdata, or_error::NOT_AREF, {
+        if wb.is_null() {
+            return or_error::NOT_AREF;
+        }
         if let Some(rwb) = &rawdata.as_shot_neutral() {
             unsafe {
                 wb.copy_from_nonoverlapping(rwb.as_ptr(), 4);
diff --git a/src/capi/rawfile.rs b/src/capi/rawfile.rs
index c883079..e353fb4 100644
--- a/src/capi/rawfile.rs
+++ b/src/capi/rawfile.rs
@@ -61,6 +61,9 @@ pub type ORRawFileRef = *mut ORRawFile;
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef {
+    if filename.is_null() {
+        return std::ptr::null_mut();
+    }
     let filename = unsafe { CStr::from_ptr(filename) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -81,6 +84,9 @@ extern "C" fn or_rawfile_new(filename: *mut c_char, type_: Type) -> ORRawFileRef
 /// It will return a [`ORRawFileRef`], that must be freed in with
 /// [`or_rawfile_release`].
 extern "C" fn or_rawfile_new_from_memory(buffer: *const u8, len: u32, type_: Type) -> ORRawFileRef {
+    if buffer.is_null() {
+        return std::ptr::null_mut();
+    }
     let bytes = unsafe { std::slice::from_raw_parts(buffer, len as usize) };
     let type_ = if type_ == Type::Unknown {
         None
@@ -242,6 +248,9 @@ extern "C" fn or_rawfile_get_metavalue(
     key: *const std::ffi::c_char,
 ) -> ORMetaValueRef {
     or_unwrap!(rawfile, std::ptr::null_mut(), {
+        if key.is_null() {
+            return std::ptr::null_mut();
+        }
         let key = unsafe { std::ffi::CStr::from_ptr(key) };
         rawfile
             .0
-- 
2.43.0


From 47a48857c6e3eb70ca5b7f6732e0a61604f3eecf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 072/116] fix: or_get_extract_* didn't give what the raw file
 functions do

---
 src/capi.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 6b4c378..1829c77 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -318,7 +318,7 @@ unsafe extern "C" fn or_get_extract_thumbnail(
     }
     let filename = unsafe { CStr::from_ptr(filename) };
     let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.thumbnail_for_size(preferred_size))
+        .and_then(|rawfile| rawfile.thumbnail(preferred_size))
         .map(Box::new)
         .map_err(or_error::from);
     if let Err(err) = thumbnail {
@@ -357,7 +357,7 @@ unsafe extern "C" fn or_get_extract_rawdata(
     let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
     let rawdata_ = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.load_rawdata(skip_decompression))
+        .and_then(|rawfile| rawfile.raw_data(skip_decompression))
         .map(Box::new)
         .map_err(or_error::from);
     if let Err(err) = rawdata_ {
-- 
2.43.0


From abbd1b5f14da11a096b0feb15b63f9caf5b6d917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:47 +0000
Subject: [PATCH 073/116] fix: or_get_extract_* didn't report files that can't
 be opened

---
 src/capi.rs | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/src/capi.rs b/src/capi.rs
index 1829c77..3f083d0 100644
--- a/src/capi.rs
+++ b/src/capi.rs
@@ -67,7 +67,7 @@ use once_cell::sync::Lazy;
 
 use crate::mosaic::Pattern;
 #[cfg(feature = "capi")]
-use crate::rawfile_from_file;
+use crate::{rawfile_from_file, RawFileHandle};
 use crate::{DataType, Error};
 #[cfg(feature = "capi")]
 pub use bitmap::ORBitmapDataRef;
@@ -122,6 +122,8 @@ pub enum or_error {
     BUF_TOO_SMALL = 1,
     /// The expected pointer / ref is invalid.
     NOT_AREF = 2,
+    /// Can't open the file.
+    CANT_OPEN = 3,
     /// Not found.
     NOT_FOUND = 5,
     /// Invalid parameter
@@ -152,6 +154,7 @@ impl From<or_error> for Error {
             or_error::NONE => Error::None,
             or_error::BUF_TOO_SMALL => Error::BufferTooSmall,
             or_error::NOT_AREF => Error::InvalidAddress,
+            or_error::CANT_OPEN => Error::IoError(std::io::ErrorKind::NotFound.into()),
             or_error::NOT_FOUND => Error::NotFound,
             or_error::INVALID_PARAM => Error::InvalidParam,
             or_error::INVALID_FORMAT => Error::InvalidFormat,
@@ -292,6 +295,15 @@ extern "C" fn or_debug_set_level(lvl: debug_level) {
     log::set_max_level(level);
 }
 
+#[cfg(feature = "capi")]
+/// Open the raw file at `filename`, telling files that can't be opened
+/// from those that aren't recognized.
+fn open_file(filename: &CStr) -> Result<RawFileHandle, or_error> {
+    let path = OsStr::from_bytes(filename.to_bytes());
+    std::fs::File::open(path).map_err(|_| or_error::CANT_OPEN)?;
+    rawfile_from_file(path, None).map_err(or_error::from)
+}
+
 #[cfg(feature = "capi")]
 #[no_mangle]
 /// Get the thumbnail of size `preferred_size` from the raw file at
@@ -317,10 +329,9 @@ unsafe extern "C" fn or_get_extract_thumbnail(
         return or_error::NOT_AREF;
     }
     let filename = unsafe { CStr::from_ptr(filename) };
-    let thumbnail = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.thumbnail(preferred_size))
-        .map(Box::new)
-        .map_err(or_error::from);
+    let thumbnail = open_file(filename)
+        .and_then(|rawfile| rawfile.thumbnail(preferred_size).map_err(or_error::from))
+        .map(Box::new);
     if let Err(err) = thumbnail {
         err
     } else {
@@ -356,10 +367,9 @@ unsafe extern "C" fn or_get_extract_rawdata(
 
     let filename = unsafe { CStr::from_ptr(filename) };
     let skip_decompression = options == or_options::DONT_DECOMPRESS as u32;
-    let rawdata_ = rawfile_from_file(OsStr::from_bytes(filename.to_bytes()), None)
-        .and_then(|rawfile| rawfile.raw_data(skip_decompression))
-        .map(Box::new)
-        .map_err(or_error::from);
+    let rawdata_ = open_file(filename)
+        .and_then(|rawfile| rawfile.raw_data(skip_decompression).map_err(or_error::from))
+        .map(Box::new);
     if let Err(err) = rawdata_ {
         err
     } else {
-- 
2.43.0


From 896f912a8e8ed96418bb6f4beb9c1afa53dd2581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:14 +0000
Subject: [PATCH 074/116] fix: or_bitmapdata_bpc and or_mosaicinfo_get_size
 were declared but not defined

---
 src/capi/bitmap.rs |  6 ++++++
 src/capi/mosaic.rs | 13 +++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/src/capi/bitmap.rs b/src/capi/bitmap.rs
index bc5945f..26bdf43 100644
--- a/src/capi/bitmap.rs
+++ b/src/capi/bitmap.rs
@@ -70,6 +70,12 @@ extern "C" fn or_bitmapdata_format(bitmap: ORBitmapDataRef) -> or_data_type {
     or_unwrap!(bitmap, or_data_type::UNKNOWN, bitmap.data_type().into())
 }
 
+#[no_mangle]
+/// Get the number of bits per component.
+extern "C" fn or_bitmapdata_bpc(bitmap: ORBitmapDataRef) -> u32 {
+    or_unwrap!(bitmap, 0, bitmap.bpc() as u32)
+}
+
 #[no_mangle]
 extern "C" fn or_bitmapdata_dimensions(bitmap: ORBitmapDataRef, x: *mut u32, y: *mut u32) {
     or_unwrap!(bitmap, (), {
diff --git a/src/capi/mosaic.rs b/src/capi/mosaic.rs
index e95c798..859f900 100644
--- a/src/capi/mosaic.rs
+++ b/src/capi/mosaic.rs
@@ -27,6 +27,19 @@ use super::or_cfa_pattern;
 /// A mosaic pattern.
 pub type ORMosaicInfoRef = *const Pattern;
 
+#[no_mangle]
+/// Get the size of the mosaic.
+extern "C" fn or_mosaicinfo_get_size(mosaic_info: ORMosaicInfoRef, x: *mut u16, y: *mut u16) {
+    or_unwrap!(mosaic_info, (), {
+        if !x.is_null() {
+            unsafe { *x = mosaic_info.width() as u16 };
+        }
+        if !y.is_null() {
+            unsafe { *y = mosaic_info.height() as u16 };
+        }
+    })
+}
+
 #[no_mangle]
 /// Get the pattern type.
 extern "C" fn or_mosaicinfo_get_type(mosaic_info: ORMosaicInfoRef) -> or_cfa_pattern {
-- 
2.43.0


From 3b8fe08d227053f692538772d1f8688ce38ea7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:59 +0000
Subject: [PATCH 075/116] fix: reading a value past the end of an undefined
 TIFF entry panicked

---
 src/tiff/entry.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/tiff/entry.rs b/src/tiff/entry.rs
index 4f273ca..2347ea1 100644
--- a/src/tiff/entry.rs
+++ b/src/tiff/entry.rs
@@ -195,9 +195,14 @@ impl Entry {
                 log::error!("index {} is >= {}", index, self.count);
                 return None;
             }
-            return Some(T::read::<E>(
-                &self.data.as_slice()[T::unit_size() * index as usize..],
-            ));
+            // The count of an `Undefined` is in bytes.
+            let start = T::unit_size() * index as usize;
+            return self
+                .data
+                .as_slice()
+                .get(start..)
+                .filter(|data| data.len() >= T::unit_size())
+                .map(T::read::<E>);
         }
         log::error!(
             "Entry {:x}({}) incorrect type {} for {:?}",
-- 
2.43.0


From 49476fc4c50a3bd79c6efe8370fbbcf9b6fffa10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:01 +0000
Subject: [PATCH 076/116] fix: a short CFA pattern panicked

---
 src/tiff.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tiff.rs b/src/tiff.rs
index ea02cdf..49d59f4 100644
--- a/src/tiff.rs
+++ b/src/tiff.rs
@@ -174,10 +174,10 @@ fn convert_cfa_pattern(dir: &Dir, entry: &Entry) -> Option<Pattern> {
 }
 
 fn convert_new_cfa_pattern(entry: &Entry) -> Option<Pattern> {
-    if entry.count < 4 {
+    let data = entry.data();
+    if data.len() < 8 {
         return None;
     }
-    let data = entry.data();
 
     let h = data[0];
     let v = data[1];
-- 
2.43.0


From 42886b2ed291a0ac818dde7e07671b6f133683d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:03 +0000
Subject: [PATCH 077/116] fix: a loop of TIFF directories was followed forever

---
 src/tiff/container.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 12e88c7..212176a 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -22,7 +22,7 @@
 //! The IFD Container. Contains the IFD `Dir`
 
 use std::cell::{RefCell, RefMut};
-use std::collections::HashMap;
+use std::collections::{HashMap, HashSet};
 use std::io::{Read, Seek, SeekFrom};
 
 use byteorder::{BigEndian, LittleEndian, ReadBytesExt};
@@ -232,7 +232,12 @@ impl Container {
                 view.seek(SeekFrom::Start(4)).expect("Seek failed");
                 view.read_endian_u32(self.endian()).unwrap_or(0)
             };
+            let mut visited = HashSet::new();
             while dir_offset != 0 {
+                if !visited.insert(dir_offset) {
+                    error!("Already read dir at {dir_offset}");
+                    break;
+                }
                 let t = if index < self.dir_map.len() {
                     self.dir_map[index]
                 } else {
-- 
2.43.0


From a5221254921388bde08ab94e083f2e2165215c4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:16:05 +0000
Subject: [PATCH 078/116] fix: iterating over many empty directories overflowed
 the stack

---
 src/metadata.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/metadata.rs b/src/metadata.rs
index f6487dd..bd8f544 100644
--- a/src/metadata.rs
+++ b/src/metadata.rs
@@ -163,23 +163,24 @@ impl std::iter::Iterator for Iterator<'_> {
     type Item = Metadata;
 
     fn next(&mut self) -> Option<Self::Item> {
-        let next = match self.inner {
-            InnerIter::Container(ref mut iter) => iter.next().and_then(|container| {
-                let mut iter = InnerIter::Ifd(container.iter());
-                std::mem::swap(&mut self.inner, &mut iter);
-                self.stack.push(iter);
-                self.next()
-            }),
-            InnerIter::Ifd(ref mut iter) => iter.next(),
-            InnerIter::Empty => return None,
-        };
-        if next.is_none() {
-            if let Some(iter) = self.stack.pop() {
-                self.inner = iter;
-                return self.next();
+        loop {
+            let next = match self.inner {
+                InnerIter::Container(ref mut iter) => {
+                    if let Some(dir) = iter.next() {
+                        let iter = std::mem::replace(&mut self.inner, InnerIter::Ifd(dir.iter()));
+                        self.stack.push(iter);
+                        continue;
+                    }
+                    None
+                }
+                InnerIter::Ifd(ref mut iter) => iter.next(),
+                InnerIter::Empty => None,
+            };
+            if next.is_some() {
+                return next;
             }
+            self.inner = self.stack.pop()?;
         }
-        next
     }
 }
 
-- 
2.43.0


From 8715fba00dcb0fec1dd3c9bf4b14b0f3f96aba3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 079/116] fix: the dump of a file whose container can't be
 loaded panicked

---
 src/canon/cr2.rs |  5 +++--
 src/canon/cr3.rs |  5 +++--
 src/dng.rs       |  5 +++--
 src/epson.rs     |  5 +++--
 src/fujifilm.rs  |  5 +++--
 src/jpeg.rs      |  5 +++--
 src/minolta.rs   |  5 +++--
 src/nikon.rs     |  5 +++--
 src/olympus.rs   |  5 +++--
 src/panasonic.rs | 27 ++++++++++++++-------------
 src/pentax.rs    |  5 +++--
 src/sony.rs      |  5 +++--
 12 files changed, 47 insertions(+), 35 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index f00f60b..641c0c4 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -445,8 +445,9 @@ impl Dump for Cr2File {
         dump_writeln!(out, indent, "<Canon CR2 File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR2 File>");
     }
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index c3e3bab..16a3556 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -253,8 +253,9 @@ impl Dump for Cr3File {
         // dump container
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Canon CR3 File>");
     }
diff --git a/src/dng.rs b/src/dng.rs
index 0e6dbf6..837ef4f 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -442,8 +442,9 @@ impl Dump for DngFile {
         dump_writeln!(out, indent, "<DNG File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</DNG File>");
     }
diff --git a/src/epson.rs b/src/epson.rs
index a35f402..1816611 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -240,8 +240,9 @@ impl Dump for ErfFile {
         dump_writeln!(out, indent, "<Epson ERF File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Epson ERF File>");
     }
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index eb1d85e..1d7e3b2 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -593,8 +593,9 @@ impl Dump for RafFile {
     #[cfg(feature = "dump")]
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Fujifilm RAF File>");
-        let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if self.container().is_ok() {
+            self.container.get().unwrap().write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Fujfilm RAF File>");
     }
 }
diff --git a/src/jpeg.rs b/src/jpeg.rs
index 93451f2..f235f50 100644
--- a/src/jpeg.rs
+++ b/src/jpeg.rs
@@ -143,8 +143,9 @@ impl Dump for JpegFile {
         dump_writeln!(out, indent, "<JPEG File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</JPEG File>");
     }
diff --git a/src/minolta.rs b/src/minolta.rs
index 593d0d0..53a6ae2 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -339,8 +339,9 @@ impl Dump for MrwFile {
     #[cfg(feature = "dump")]
     fn write_dump<W: std::io::Write + ?Sized>(&self, out: &mut W, indent: u32) {
         dump_writeln!(out, indent, "<Minolta MRW File>");
-        let _ = self.container();
-        self.container.get().unwrap().write_dump(out, indent + 1);
+        if self.container().is_ok() {
+            self.container.get().unwrap().write_dump(out, indent + 1);
+        }
         dump_writeln!(out, indent, "</Minolat MRW File>");
     }
 }
diff --git a/src/nikon.rs b/src/nikon.rs
index 1e6b18b..bb95888 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -717,8 +717,9 @@ impl Dump for NefFile {
         dump_writeln!(out, indent, "<Nikon NEF File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Nikon NEF File>");
     }
diff --git a/src/olympus.rs b/src/olympus.rs
index 43320b6..6f2103e 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -616,8 +616,9 @@ impl Dump for OrfFile {
         dump_writeln!(out, indent, "<Olympus ORF File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
             if let Some(mnote) = self.maker_note_ifd() {
                 if let Some(dir) = self.olympus_cs_ifd(mnote) {
                     dir.write_dump(out, indent);
diff --git a/src/panasonic.rs b/src/panasonic.rs
index d60017e..5008e51 100644
--- a/src/panasonic.rs
+++ b/src/panasonic.rs
@@ -1183,19 +1183,20 @@ impl Dump for Rw2File {
         dump_writeln!(out, indent, "<Panasonic RW2 File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            let container = self.container.get().unwrap();
-            container.write_dump(out, indent);
-            if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
-                // id = "PanasonicRaw.CameraIfd"
-                dir.tiff_in_entry(
-                    container,
-                    exif::RW2_TAG_CAMERA_IFD,
-                    Some(&RAW_CAMERAIFD_TAG_NAMES),
-                )
-            }) {
-                if let Some(camera_ifd) = camera_tiff.directory(0) {
-                    camera_ifd.write_dump(out, indent);
+            if self.container().is_ok() {
+                let container = self.container.get().unwrap();
+                container.write_dump(out, indent);
+                if let Some(camera_tiff) = self.main_ifd().and_then(|dir| {
+                    // id = "PanasonicRaw.CameraIfd"
+                    dir.tiff_in_entry(
+                        container,
+                        exif::RW2_TAG_CAMERA_IFD,
+                        Some(&RAW_CAMERAIFD_TAG_NAMES),
+                    )
+                }) {
+                    if let Some(camera_ifd) = camera_tiff.directory(0) {
+                        camera_ifd.write_dump(out, indent);
+                    }
                 }
             }
         }
diff --git a/src/pentax.rs b/src/pentax.rs
index 56b48b7..e1c747e 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -579,8 +579,9 @@ impl Dump for PefFile {
         dump_writeln!(out, indent, "<Pentax PEF File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Pentax PEF File>");
     }
diff --git a/src/sony.rs b/src/sony.rs
index 1aaf383..ba731b2 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -1189,8 +1189,9 @@ impl Dump for ArwFile {
         dump_writeln!(out, indent, "<Sony ARW File>");
         {
             let indent = indent + 1;
-            let _ = self.container();
-            self.container.get().unwrap().write_dump(out, indent);
+            if self.container().is_ok() {
+                self.container.get().unwrap().write_dump(out, indent);
+            }
         }
         dump_writeln!(out, indent, "</Sony ARW File>");
     }
-- 
2.43.0


From f0e6d661f65d7ec0e6153780482a6ce6205b298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:24 +0000
Subject: [PATCH 080/116] fix: out of range offsets in CIFF heaps overflowed

---
 src/canon/crw/ciff.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a3e231a..0805c1d 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -263,7 +263,10 @@ impl RecordEntry {
             Record::InRec(bytes)
         } else {
             let len = view.read_endian_u32(endian)?;
-            let offset = view.read_endian_u32(endian)? + base;
+            let offset = view
+                .read_endian_u32(endian)?
+                .checked_add(base)
+                .ok_or(Error::FormatError)?;
             Record::InHeap((offset, len))
         };
 
@@ -488,7 +491,7 @@ impl Heap {
         if self.len as u64 + self.pos as u64 > view.len() {
             log::error!(
                 "CIFF Heap too big: {} for {}",
-                self.len + self.pos,
+                self.len as u64 + self.pos as u64,
                 view.len()
             );
             return Err(Error::FormatError);
-- 
2.43.0


From cdb8de85fdb76e3d1a363ca42f9234797911d823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:26 +0000
Subject: [PATCH 081/116] fix: a CRW file whose header or heaps can't be read
 panicked

---
 src/canon/crw.rs                |  2 +-
 src/canon/crw/ciff.rs           |  6 +++-
 src/canon/crw/ciff/container.rs | 50 ++++++++++++++++++++-------------
 3 files changed, 36 insertions(+), 22 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 3e209d8..913f7b7 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -276,7 +276,7 @@ impl RawFileImpl for CrwFile {
             let mut thumbnails = Vec::new();
             self.container()?;
             let container = self.container.get().unwrap();
-            let heap = container.heap();
+            let heap = container.heap()?;
             heap.records().get(&ciff::Tag::JpegImage).and_then(|r| {
                 if let ciff::Record::InHeap((pos, len)) = r.data {
                     Viewer::create_subview(&container.borrow_view_mut(), pos as u64)
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index 0805c1d..a3d5b1a 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -398,7 +398,11 @@ impl RecordEntry {
             let mut heap = Heap::new(pos, len);
             let mut view = container.borrow_view_mut();
             heap.load(&mut view, container.endian())
-                .expect("Failed to load heap");
+                .map_err(|err| {
+                    log::error!("Failed to load heap: {err}");
+                    err
+                })
+                .ok()?;
             Some(heap)
         } else {
             None
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 65f9cc5..f8ad180 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -34,7 +34,7 @@ use crate::io::View;
 use crate::metadata;
 use crate::tiff::{exif, Dir, Entry, IfdType, TagType};
 use crate::utils;
-use crate::{Dump, Type};
+use crate::{Dump, Error, Result, Type};
 
 use super::{
     CameraSettings, Heap, HeapFileHeader, ImageSpec, Record, RecordData, RecordEntry, Tag,
@@ -247,7 +247,7 @@ impl Container {
 
     fn dirs(&self) -> &Vec<Dir> {
         self.dirs.get_or_init(|| {
-            self.header();
+            let _ = self.header();
 
             let mut main_ifd = Dir::new(self.endian(), IfdType::Main);
             if let Some(image_spec) = self.image_spec() {
@@ -351,30 +351,38 @@ impl Container {
         Some(&self.dirs()[1])
     }
 
-    fn header(&self) -> &HeapFileHeader {
-        self.header.get_or_init(|| {
+    fn header(&self) -> Result<&HeapFileHeader> {
+        self.header.get_or_try_init(|| {
             let mut view = self.borrow_view_mut();
-            let header = HeapFileHeader::from_view(&mut view).expect("Coudln't read file header");
+            view.seek(SeekFrom::Start(0))?;
+            let header = HeapFileHeader::from_view(&mut view).map_err(|err| {
+                log::error!("Coudln't read file header: {err}");
+                err
+            })?;
             self.endian.replace(header.endian);
-            header
+            Ok(header)
         })
     }
 
-    pub(crate) fn heap(&self) -> &Heap {
-        self.heap.get_or_init(|| {
-            let header = self.header();
+    pub(crate) fn heap(&self) -> Result<&Heap> {
+        self.heap.get_or_try_init(|| {
+            let header = self.header()?;
             if header.type_ != *b"HEAP" && header.sub_type != *b"CCDR" {
                 log::error!("Wrong CIFF header types");
             }
             let mut view = self.borrow_view_mut();
-            // XXX check that header.len < view.len()
-            let heaplen = view.len() - header.len as u64;
+            let heaplen = view
+                .len()
+                .checked_sub(header.len as u64)
+                .ok_or(Error::FormatError)?;
             // XXX heaplen should be < u32::MAX
             let mut heap = Heap::new(header.len, heaplen as u32);
-            heap.load(&mut view, self.endian())
-                .expect("Failed to load heap");
+            heap.load(&mut view, self.endian()).map_err(|err| {
+                log::error!("Failed to load heap: {err}");
+                err
+            })?;
 
-            heap
+            Ok(heap)
         })
     }
 
@@ -391,7 +399,7 @@ impl Container {
     fn image_props(&self) -> Option<&Heap> {
         self.image_props
             .get_or_init(|| {
-                let heap = self.heap();
+                let heap = self.heap().ok()?;
                 self.heap_from_heap(heap, super::Tag::ImageProps)
             })
             .as_ref()
@@ -496,7 +504,7 @@ impl Container {
     }
 
     pub(crate) fn raw_data_record(&self) -> Option<&RecordEntry> {
-        self.heap().records().get(&super::Tag::RawImageData)
+        self.heap().ok()?.records().get(&super::Tag::RawImageData)
     }
 }
 
@@ -507,11 +515,13 @@ impl Dump for Container {
         {
             let indent = indent + 1;
 
-            let header = self.header();
-            header.write_dump(out, indent);
+            if let Ok(header) = self.header() {
+                header.write_dump(out, indent);
+            }
 
-            let heap = self.heap();
-            heap.write_dump(out, indent, self);
+            if let Ok(heap) = self.heap() {
+                heap.write_dump(out, indent, self);
+            }
         }
         dump_writeln!(out, indent, "</CIFF Container>");
     }
-- 
2.43.0


From 7b22791099d78842885a194c81ac624820905b62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:28 +0000
Subject: [PATCH 082/116] fix: a CIFF heap that contains itself overflowed the
 stack

---
 src/canon/crw/ciff.rs           | 38 +++++++++++++++++++++++++++------
 src/canon/crw/ciff/container.rs |  2 +-
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a3d5b1a..a9c5d87 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -232,9 +232,14 @@ enum RecordType {
     Unknown,
 }
 
+/// How deep heaps can be nested.
+const MAX_HEAP_DEPTH: u32 = 16;
+
 #[derive(Debug)]
 pub(crate) struct RecordEntry {
     type_code: Tag,
+    /// Depth of the heap it is in.
+    depth: u32,
     pub(crate) data: Record,
 }
 
@@ -254,8 +259,13 @@ fn in_record(type_code: u16) -> bool {
 
 impl RecordEntry {
     /// Create a `RecordEntry` from the view, with `base` as
-    /// the offset base (the Heap offset)
-    fn from_view(base: u32, view: &mut io::View, endian: Endian) -> Result<RecordEntry> {
+    /// the offset base (the Heap offset). `depth` is the depth of the heap.
+    fn from_view(
+        base: u32,
+        depth: u32,
+        view: &mut io::View,
+        endian: Endian,
+    ) -> Result<RecordEntry> {
         let type_code = view.read_endian_u16(endian)?;
         let data = if in_record(type_code) {
             let mut bytes = [0_u8; 8];
@@ -276,6 +286,7 @@ impl RecordEntry {
         }
         Ok(RecordEntry {
             type_code: tag,
+            depth,
             data,
         })
     }
@@ -395,7 +406,11 @@ impl RecordEntry {
 
     fn heap(&self, container: &Container) -> Option<Heap> {
         if let Record::InHeap((pos, len)) = self.data {
-            let mut heap = Heap::new(pos, len);
+            if self.depth >= MAX_HEAP_DEPTH {
+                log::error!("CIFF: too many nested heaps");
+                return None;
+            }
+            let mut heap = Heap::new(pos, len, self.depth + 1);
             let mut view = container.borrow_view_mut();
             heap.load(&mut view, container.endian())
                 .map_err(|err| {
@@ -475,14 +490,17 @@ impl RecordEntry {
 pub(crate) struct Heap {
     pos: u32,
     pub(crate) len: u32,
+    /// Depth of the heap. 0 is the one of the file.
+    depth: u32,
     records: BTreeMap<Tag, RecordEntry>,
 }
 
 impl Heap {
-    pub fn new(pos: u32, len: u32) -> Heap {
+    pub fn new(pos: u32, len: u32, depth: u32) -> Heap {
         Heap {
             pos,
             len,
+            depth,
             records: BTreeMap::new(),
         }
     }
@@ -509,9 +527,17 @@ impl Heap {
         view.seek(SeekFrom::Start(self.pos as u64 + heap_start as u64))?;
         let num_records = view.read_endian_u16(endian)?;
         for _ in 0..num_records {
-            let _ = RecordEntry::from_view(self.pos, view, endian)
-                .map(|entry| {
+            let _ = RecordEntry::from_view(self.pos, self.depth, view, endian)
+                .and_then(|entry| {
+                    match entry.data {
+                        // A heap is inside of the one it is a record of.
+                        Record::InHeap((_, len)) if entry.is_heap() && len >= self.len => {
+                            return Err(Error::FormatError);
+                        }
+                        _ => {}
+                    }
                     self.records.insert(entry.type_code, entry);
+                    Ok(())
                 })
                 .map_err(|err| {
                     log::error!("Failed to read record: {}", err);
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index f8ad180..65b1b8d 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -376,7 +376,7 @@ impl Container {
                 .checked_sub(header.len as u64)
                 .ok_or(Error::FormatError)?;
             // XXX heaplen should be < u32::MAX
-            let mut heap = Heap::new(header.len, heaplen as u32);
+            let mut heap = Heap::new(header.len, heaplen as u32, 0);
             heap.load(&mut view, self.endian()).map_err(|err| {
                 log::error!("Failed to load heap: {err}");
                 err
-- 
2.43.0


From e9d40e34b04aa00367e087625a96ec91073c46ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:30 +0000
Subject: [PATCH 083/116] fix: memory was allocated for CIFF records larger
 than the file

---
 src/canon/crw.rs                |  3 +++
 src/canon/crw/ciff.rs           | 20 ++++++++++++++++----
 src/canon/crw/ciff/container.rs | 10 ++++++++--
 3 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 913f7b7..12e9a80 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -367,6 +367,9 @@ impl RawFileImpl for CrwFile {
                             if skip_decompression {
                                 let mut view = container.borrow_view_mut();
                                 view.seek(SeekFrom::Start(pos as u64))?;
+                                if len as u64 > view.len() {
+                                    return Err(Error::FormatError);
+                                }
                                 let mut data = vec![0; len as usize];
                                 view.read_exact(&mut data)?;
                                 let mut rawdata = RawImage::with_data8(
diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index a9c5d87..b83f10c 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -362,16 +362,22 @@ impl RecordEntry {
             Record::InRec(_) => self.inline_data(container),
             Record::InHeap((pos, len)) => match self.type_() {
                 RecordType::Byte | RecordType::Byte2 => {
-                    let mut bytes = vec![0; len as usize];
                     let mut view = container.borrow_view_mut();
+                    if len as u64 > view.len() {
+                        return None;
+                    }
+                    let mut bytes = vec![0; len as usize];
                     view.seek(SeekFrom::Start(pos as u64))
                         .and_then(|_| view.read_exact(&mut bytes))
                         .ok()
                         .map(|_| RecordData::Byte(bytes))
                 }
                 RecordType::Ascii => {
-                    let mut s = vec![0; len as usize];
                     let mut view = container.borrow_view_mut();
+                    if len as u64 > view.len() {
+                        return None;
+                    }
+                    let mut s = vec![0; len as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_exact(&mut s).ok()?;
                     Some(RecordData::Ascii(
@@ -382,8 +388,11 @@ impl RecordEntry {
                 }
                 RecordType::Word => {
                     let count = self.count()?;
-                    let mut values = vec![0_u16; count as usize];
                     let mut view = container.borrow_view_mut();
+                    if len as u64 > view.len() {
+                        return None;
+                    }
+                    let mut values = vec![0_u16; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u16_array(&mut values, container.endian())
                         .ok()?;
@@ -391,8 +400,11 @@ impl RecordEntry {
                 }
                 RecordType::DWord => {
                     let count = self.count()?;
-                    let mut values = vec![0_u32; count as usize];
                     let mut view = container.borrow_view_mut();
+                    if len as u64 > view.len() {
+                        return None;
+                    }
+                    let mut values = vec![0_u32; count as usize];
                     view.seek(SeekFrom::Start(pos as u64)).ok()?;
                     view.read_endian_u32_array(&mut values, container.endian())
                         .ok()?;
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 65b1b8d..938c1cb 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -454,8 +454,11 @@ impl Container {
                 .get(&super::Tag::RawMakeModel)
                 .and_then(|r| {
                     if let Record::InHeap((pos, len)) = r.data {
-                        let mut s = vec![0; len as usize];
                         let mut view = self.borrow_view_mut();
+                        if len as u64 > view.len() {
+                            return None;
+                        }
+                        let mut s = vec![0; len as usize];
                         view.seek(SeekFrom::Start(pos as u64)).ok()?;
                         view.read_exact(&mut s).ok()?;
                         let mut s = s.split(|b| *b == 0);
@@ -483,8 +486,11 @@ impl Container {
                         .get(&super::Tag::CameraSettings)
                         .and_then(|r| {
                             let count = r.count()?;
-                            if let Record::InHeap((pos, _)) = r.data {
+                            if let Record::InHeap((pos, len)) = r.data {
                                 let mut view = self.borrow_view_mut();
+                                if len as u64 > view.len() {
+                                    return None;
+                                }
                                 view.seek(SeekFrom::Start(pos as u64)).ok()?;
                                 let mut settings = vec![0_u16; count as usize];
                                 view.read_endian_u16_array(&mut settings, self.endian())
-- 
2.43.0


From d1b9120eed22f8ca5b2e167fa887c1b165385898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:32 +0000
Subject: [PATCH 084/116] fix: CRW records shorter than expected panicked

---
 src/canon/crw.rs                |  4 ++--
 src/canon/crw/ciff/container.rs | 32 ++++++++++++++++++++++++--------
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/src/canon/crw.rs b/src/canon/crw.rs
index 12e9a80..5a44ed6 100644
--- a/src/canon/crw.rs
+++ b/src/canon/crw.rs
@@ -213,7 +213,7 @@ impl CrwFile {
             let r = heap.records().get(&ciff::Tag::WhiteBalanceTable)?;
             if let ciff::Record::InHeap((pos, _)) = r.data {
                 // Some dark magic lifted from both rawspeed and dcraw
-                let wb_offset = 1 + (b"0134567028"[wb_idx as usize] - b'0') as u64 * 4;
+                let wb_offset = 1 + (b"0134567028".get(wb_idx as usize)? - b'0') as u64 * 4;
                 let mut view = container.borrow_view_mut();
                 view.seek(SeekFrom::Start(pos as u64 + wb_offset * 2))
                     .ok()?;
@@ -246,7 +246,7 @@ impl RawFileImpl for CrwFile {
                             .and_then(|r| r.data(container))
                             .and_then(|data| {
                                 if let ciff::RecordData::DWord(id) = data {
-                                    return canon::CANON_MODEL_ID_MAP.get(&id[0]).copied();
+                                    return canon::CANON_MODEL_ID_MAP.get(id.first()?).copied();
                                 }
                                 None
                             })
diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 938c1cb..1cb1e68 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -71,9 +71,16 @@ fn translate_string(record: &RecordEntry, container: &Container, tag: u16) -> Ve
     }
 }
 
+fn first_dword(record: &RecordEntry, container: &Container) -> Option<u32> {
+    match record.data(container) {
+        Some(RecordData::DWord(values)) => values.first().copied(),
+        _ => None,
+    }
+}
+
 fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
-    if let Some(RecordData::DWord(ref serial)) = record.data(container) {
-        vec![Entry::from_string(tag, &format!("{:X}", serial[0]))]
+    if let Some(serial) = first_dword(record, container) {
+        vec![Entry::from_string(tag, &format!("{:X}", serial))]
     } else {
         vec![]
     }
@@ -81,7 +88,10 @@ fn translate_serial(record: &RecordEntry, container: &Container, tag: u16) -> Ve
 
 fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
     let mut entries = vec![];
-    if let Some(camera_settings) = container.camera_settings() {
+    if let Some(camera_settings) = container
+        .camera_settings()
+        .filter(|camera_settings| camera_settings.len() > 20)
+    {
         // Macro mode
         let value = camera_settings[1];
         if value == 1 {
@@ -147,10 +157,16 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
 fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16) -> Vec<Entry> {
     if let Some(RecordData::Word(ref value)) = record.data(container) {
-        let fl = value[1] as u32;
+        let fl = match value.get(1) {
+            Some(fl) => *fl as u32,
+            None => return vec![],
+        };
         let mut fu = 0;
-        if let Some(camera_settings) = container.camera_settings() {
-            fu = camera_settings[25] as u32
+        if let Some(units) = container
+            .camera_settings()
+            .and_then(|camera_settings| camera_settings.get(25))
+        {
+            fu = *units as u32
         }
         let mut buf = vec![0_u8; 8];
         container.endian_write_u32(&mut buf, fl);
@@ -163,8 +179,8 @@ fn translate_focal_length(record: &RecordEntry, container: &Container, tag: u16)
 }
 
 fn translate_date(record: &RecordEntry, container: &Container, _: u16) -> Vec<Entry> {
-    if let Some(RecordData::DWord(ref value)) = record.data(container) {
-        if let Some(date_time) = chrono::Utc.timestamp_opt(value[0] as i64, 0).single() {
+    if let Some(value) = first_dword(record, container) {
+        if let Some(date_time) = chrono::Utc.timestamp_opt(value as i64, 0).single() {
             let date = format!("{}", date_time.format("%Y:%m:%d %H:%M:%S"));
 
             let original = Entry::from_string(exif::EXIF_TAG_DATE_TIME_ORIGINAL, &date);
-- 
2.43.0


From 4d50b591bf7e2f63e9e73323ed5f09463c2d7e4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:29 +0000
Subject: [PATCH 085/116] fix: short Canon colour data panicked

---
 src/canon/colour.rs | 87 +++++++++++++++++----------------------------
 src/canon/cr2.rs    |  1 +
 2 files changed, 33 insertions(+), 55 deletions(-)

diff --git a/src/canon/colour.rs b/src/canon/colour.rs
index 6b76032..20fffa1 100644
--- a/src/canon/colour.rs
+++ b/src/canon/colour.rs
@@ -50,10 +50,11 @@ impl ColourFormat {
     /// used.
     pub(crate) fn identify(colour_data: &[u16]) -> Option<Self> {
         use ColourFormat::*;
+        let version = *colour_data.first()? as i16;
         log::debug!(
             "Probing ColourData. (len={} version={})",
             colour_data.len(),
-            colour_data[0] as i16
+            version
         );
 
         match colour_data.len() {
@@ -74,7 +75,7 @@ impl ColourFormat {
             _ => {
                 // The first u16 is a version field (i16), except for
                 // ColourData1 and ColourData2.
-                match colour_data[0] as i16 {
+                match version {
                     // 1DmkIIN, 5D, 30D, 400D
                     1 => Some(ColourData3),
                     // 1DmkIII, 1DSmkIII, 1DmkIV, 5DmkII, 7D,
@@ -104,7 +105,7 @@ impl ColourFormat {
                         log::error!(
                             "Unknown ColourData. (len={} version={})",
                             colour_data.len(),
-                            colour_data[0] as i16
+                            version
                         );
                         None
                     }
@@ -117,48 +118,48 @@ impl ColourFormat {
     pub(crate) fn blacks(&self, colour_data: &[u16]) -> Option<[u16; 4]> {
         use ColourFormat::*;
 
-        let version = colour_data[0];
+        let version = *colour_data.first()?;
         match *self {
             ColourData1 | ColourData2 => None,
-            ColourData3 => colour_data[196..200].try_into().ok(),
+            ColourData3 => colour_data.get(196..200)?.try_into().ok(),
             ColourData4 => match version {
                 2 | 3 => None,
-                4 | 5 => colour_data[692..696].try_into().ok(),
-                6 | 7 => colour_data[715..719].try_into().ok(),
-                9 => colour_data[719..723].try_into().ok(),
+                4 | 5 => colour_data.get(692..696)?.try_into().ok(),
+                6 | 7 => colour_data.get(715..719)?.try_into().ok(),
+                9 => colour_data.get(719..723)?.try_into().ok(),
                 _ => {
-                    log::error!("Invalid version {} for {:?}", colour_data[0], self);
+                    log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData5 => match version as i16 {
-                -4 => colour_data[333..337].try_into().ok(),
-                -3 => colour_data[264..268].try_into().ok(),
+                -4 => colour_data.get(333..337)?.try_into().ok(),
+                -3 => colour_data.get(264..268)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData6 => colour_data[479..483].try_into().ok(),
+            ColourData6 => colour_data.get(479..483)?.try_into().ok(),
             ColourData7 => match version {
-                10 => colour_data[504..508].try_into().ok(),
-                11 => colour_data[728..732].try_into().ok(),
+                10 => colour_data.get(504..508)?.try_into().ok(),
+                11 => colour_data.get(728..732)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
             ColourData8 => match version {
-                14 => colour_data[556..560].try_into().ok(),
-                12 | 13 | 15 => colour_data[778..782].try_into().ok(),
+                14 => colour_data.get(556..560)?.try_into().ok(),
+                12 | 13 | 15 => colour_data.get(778..782)?.try_into().ok(),
                 _ => {
                     log::error!("Invalid version {} for {:?}", version, self);
                     None
                 }
             },
-            ColourData9 => colour_data[329..333].try_into().ok(),
-            ColourData10 => colour_data[343..347].try_into().ok(),
-            ColourData11 => colour_data[363..367].try_into().ok(),
+            ColourData9 => colour_data.get(329..333)?.try_into().ok(),
+            ColourData10 => colour_data.get(343..347)?.try_into().ok(),
+            ColourData11 => colour_data.get(363..367)?.try_into().ok(),
         }
     }
 
@@ -167,43 +168,19 @@ impl ColourFormat {
     pub(crate) fn as_shot(&self, colour_data: &[u16]) -> Option<[f64; 3]> {
         use ColourFormat::*;
 
-        match *self {
-            ColourData1 => {
-                let r = colour_data[25] as f64;
-                let g = colour_data[25 + 1] as f64;
-                let b = colour_data[25 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData2 => {
-                let r = colour_data[24] as f64;
-                let g = colour_data[24 + 1] as f64;
-                let b = colour_data[24 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
+        let wb = match *self {
+            ColourData1 => colour_data.get(25..29)?,
+            ColourData2 => colour_data.get(24..28)?,
             ColourData3 | ColourData4 | ColourData6 | ColourData7 | ColourData8 => {
-                let r = colour_data[63] as f64;
-                let g = colour_data[63 + 1] as f64;
-                let b = colour_data[63 + 3] as f64;
-                Some([g / r, 1.0, g / b])
+                colour_data.get(63..67)?
             }
-            ColourData5 | ColourData9 => {
-                let r = colour_data[71] as f64;
-                let g = colour_data[71 + 1] as f64;
-                let b = colour_data[71 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData10 => {
-                let r = colour_data[85] as f64;
-                let g = colour_data[85 + 1] as f64;
-                let b = colour_data[85 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-            ColourData11 => {
-                let r = colour_data[105] as f64;
-                let g = colour_data[105 + 1] as f64;
-                let b = colour_data[105 + 3] as f64;
-                Some([g / r, 1.0, g / b])
-            }
-        }
+            ColourData5 | ColourData9 => colour_data.get(71..75)?,
+            ColourData10 => colour_data.get(85..89)?,
+            ColourData11 => colour_data.get(105..109)?,
+        };
+        let r = wb[0] as f64;
+        let g = wb[1] as f64;
+        let b = wb[3] as f64;
+        Some([g / r, 1.0, g / b])
     }
 }
diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index 641c0c4..bd37855 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -149,6 +149,7 @@ impl Cr2File {
     fn old_white_balance(&self) -> Option<[f64; 3]> {
         self.maker_note_ifd()
             .and_then(|mnote| mnote.uint_value_array(exif::MNOTE_CANON_WHITE_BALANCE_TABLE))
+            .filter(|v| v.len() >= 3)
             .map(|v| {
                 probe!(self.probe, "cr2.old_wb", "true");
                 let g = v[1] as f64;
-- 
2.43.0


From 80174069ec628ca835d0eacf993cb596c59caad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:31 +0000
Subject: [PATCH 086/116] fix: out of range offsets and sizes in CR2 and CR3
 files overflowed

---
 src/canon/cr2.rs | 6 +++---
 src/canon/cr3.rs | 4 ++--
 src/geometry.rs  | 4 ++--
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/canon/cr2.rs b/src/canon/cr2.rs
index bd37855..8a09229 100644
--- a/src/canon/cr2.rs
+++ b/src/canon/cr2.rs
@@ -180,7 +180,7 @@ impl Cr2File {
                 probe!(self.probe, "cr2.no_tiff_raw_data_len", "true");
                 // not found on the 1D, so we calculate it.
                 let len = std::cmp::min(container.borrow_view_mut().len(), u32::MAX as u64) as u32;
-                len - offset
+                len.saturating_sub(offset)
             });
         let mut rawdata =
             self.get_raw_bytes(0, 0, offset as u64, byte_len as u64, &[], skip_decompress)?;
@@ -272,8 +272,8 @@ impl Cr2File {
                 .map(|mut aspect_info| {
                     probe!(self.probe, "cr2.aspect_info", true);
                     if let Some(sensor_info) = &sensor_info {
-                        aspect_info.1.x += sensor_info.x;
-                        aspect_info.1.y += sensor_info.y;
+                        aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                        aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                     }
                     aspect_info
                 })
diff --git a/src/canon/cr3.rs b/src/canon/cr3.rs
index 16a3556..ddaf120 100644
--- a/src/canon/cr3.rs
+++ b/src/canon/cr3.rs
@@ -217,8 +217,8 @@ impl RawFileImpl for Cr3File {
                     .map(|mut aspect_info| {
                         probe!(self.probe, "cr3.aspect_info", true);
                         if let Some(sensor_info) = &sensor_info {
-                            aspect_info.1.x += sensor_info.x;
-                            aspect_info.1.y += sensor_info.y;
+                            aspect_info.1.x = aspect_info.1.x.saturating_add(sensor_info.x);
+                            aspect_info.1.y = aspect_info.1.y.saturating_add(sensor_info.y);
                         }
                         aspect_info
                     })
diff --git a/src/geometry.rs b/src/geometry.rs
index a15f2e5..faabc0f 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -107,8 +107,8 @@ impl AspectRatio {
         let offset_x = (from.width as i64 - cropped_size.width as i64).abs() / 2;
         Rect::new(
             Point {
-                x: from.x + offset_x as u32,
-                y: from.y + offset_y as u32,
+                x: from.x.saturating_add(offset_x as u32),
+                y: from.y.saturating_add(offset_y as u32),
             },
             cropped_size,
         )
-- 
2.43.0


From ccf8fb13de3a9dd88d28b2d30d0c425ad7f685cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:32 +0000
Subject: [PATCH 087/116] fix: MP4 containers with missing data panicked

---
 src/mp4/container.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/mp4/container.rs b/src/mp4/container.rs
index 1beb688..995f49e 100644
--- a/src/mp4/container.rs
+++ b/src/mp4/container.rs
@@ -134,7 +134,10 @@ impl Container {
         // box (24) + content (8) + prvw box (8) + unknown (4)
         // We need to skip the "boxes" (ISO container)
         // And skip a short (16bits) value.
-        let offset = preview_offset.0 + 44 + 2;
+        let offset = preview_offset
+            .0
+            .checked_add(44 + 2)
+            .ok_or(Error::FormatError)?;
 
         let mut view = self.view.borrow_mut();
         view.seek(SeekFrom::Start(offset))?;
@@ -187,7 +190,7 @@ impl Container {
                             None
                         };
                         let mut ifd = tiff::Container::new(view, vec![(t, tag_names)], raw_type);
-                        ifd.load(None).expect("ifd load");
+                        ifd.load(None).ok()?;
                         return Some((viewer, ifd));
                     }
                 }
@@ -215,7 +218,7 @@ impl Container {
             })
             .len();
 
-        if len < idx as usize {
+        if len <= idx as usize {
             None
         } else {
             self.meta_ifds.get().and_then(|v| v[idx as usize].as_ref())
@@ -265,7 +268,7 @@ impl Container {
 
         let video = match track.stsd {
             // We assume there is only one.
-            Some(ref data) => &data.descriptions[0],
+            Some(ref data) => data.descriptions.first().ok_or(Error::FormatError)?,
             None => return Err(Error::FormatError),
         };
 
@@ -282,13 +285,13 @@ impl Container {
             if stsz.sample_size > 0 {
                 stsz.sample_size as u64
             } else {
-                stsz.sample_sizes[0] as u64
+                *stsz.sample_sizes.first().ok_or(Error::FormatError)? as u64
             }
         } else {
             0
         };
         track_info.offset = if let Some(ref stco) = track.stco {
-            stco.offsets[0]
+            *stco.offsets.first().ok_or(Error::FormatError)?
         } else {
             0
         };
-- 
2.43.0


From 4235ebb4fed2ec027f3ccede1eeec16d7d4b168d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:34 +0000
Subject: [PATCH 088/116] fix: setting a white balance with less than 3 values
 panicked

---
 src/rawimage.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rawimage.rs b/src/rawimage.rs
index a03fe68..c784ddd 100644
--- a/src/rawimage.rs
+++ b/src/rawimage.rs
@@ -276,6 +276,10 @@ impl RawImage {
 
     /// Set the white balance.
     pub fn set_as_shot_neutral(&mut self, as_shot: &[f64]) {
+        if as_shot.len() < 3 {
+            log::error!("Not enough values for the white balance");
+            return;
+        }
         let mut as_shot_neutral = [0_f64; 4];
         as_shot_neutral[0] = as_shot[0];
         as_shot_neutral[1] = as_shot[1];
-- 
2.43.0


From dc76e89ad6214aa0401b5bf114d9284f1e98291d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:45 +0000
Subject: [PATCH 089/116] fix: empty black or white levels panicked

---
 src/utils.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils.rs b/src/utils.rs
index 88e0913..8a4c99b 100644
--- a/src/utils.rs
+++ b/src/utils.rs
@@ -37,10 +37,10 @@ macro_rules! uninit_vec {
 
 /// Convert a slice of u32 to a quad of u16
 /// If there is less than 4 in the slice, it will use the first
-/// value for the quad.
+/// value for the quad, or 0 if it is empty.
 pub(crate) fn to_quad(slice: &[u32]) -> [u16; 4] {
     if slice.len() != 4 {
-        [slice[0] as u16; 4]
+        [slice.first().copied().unwrap_or(0) as u16; 4]
     } else {
         let mut sl = [0_u16; 4];
         for (idx, v) in slice[0..4].iter().enumerate() {
-- 
2.43.0


From 44ad23816a9da56072c0892068fe9eb4f080b8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:47 +0000
Subject: [PATCH 090/116] fix: short or out of range values in NEF files
 panicked

---
 src/nikon.rs | 40 +++++++++++++++++++---------------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/src/nikon.rs b/src/nikon.rs
index bb95888..22a27a3 100644
--- a/src/nikon.rs
+++ b/src/nikon.rs
@@ -242,13 +242,13 @@ impl NefFile {
     fn unpack_nikon(&self, rawdata: RawImage) -> Result<RawImage> {
         let mut width = rawdata.width();
         if self.is_d100() {
-            width += 6;
+            width = width.checked_add(6).ok_or(Error::FormatError)?;
         }
         probe!(self.probe, "nef.nikon_packed_raw", "true");
         let height = rawdata.height();
         let bpc = rawdata.bpc();
         let block_size: usize = match bpc {
-            12 => ((width / 2 * 3) + width / 10) as usize,
+            12 => (width as usize / 2 * 3) + width as usize / 10,
             _ => {
                 log::warn!("Invalid BPC {}", bpc);
                 return Err(Error::InvalidFormat);
@@ -258,16 +258,10 @@ impl NefFile {
 
         let data = rawdata.data8().ok_or(Error::NotFound)?;
 
-        let out_size = width as usize * height as usize;
-        let mut out_data = Vec::with_capacity(out_size);
-        let mut fetched = 0_usize;
+        let mut out_data = Vec::with_capacity(data.len());
         let mut written = 0_usize;
 
-        let byte_len = std::cmp::min(data.len(), block_size * height as usize);
-        while fetched < byte_len {
-            let block = &data[fetched..fetched + block_size];
-            fetched += block.len();
-
+        for block in data.chunks_exact(block_size).take(height as usize) {
             written +=
                 decompress::unpack_be12to16(block, &mut out_data, tiff::Compression::NikonPack)?;
         }
@@ -293,12 +287,13 @@ impl NefFile {
                             log::error!("DecodeTable2 not found");
                             Error::NotFound
                         })?;
-                let pos = curve_entry.offset().ok_or(Error::NotFound)? + mnote.mnote_offset;
+                let pos =
+                    curve_entry.offset().ok_or(Error::NotFound)? as u64 + mnote.mnote_offset as u64;
                 let bpc = rawdata.bpc();
 
                 let container = self.container.get().unwrap();
                 let mut view = container.borrow_view_mut();
-                view.seek(SeekFrom::Start(pos as u64))?;
+                view.seek(SeekFrom::Start(pos))?;
                 let header0 = view.read_u8()?;
                 let header1 = view.read_u8()?;
 
@@ -470,7 +465,7 @@ impl NefFile {
     fn encrypted_white_balance(&self, mnote: &Dir, entry: &tiff::Entry) -> Option<[f64; 3]> {
         probe!(self.probe, "nef.wb.encrypted", "true");
         let data = entry.data();
-        let version = &data[0..4];
+        let version = data.get(0..4)?;
         let endian = mnote.endian();
         probe!(
             self.probe,
@@ -501,9 +496,9 @@ impl NefFile {
             let r = BigEndian::read_u16(data) as f64;
             let b = BigEndian::read_u16(&data[2..]) as f64;
             Some([256.0 / r, 1.0, 256.0 / b])
-        } else if &data[0..4] == b"NRW " {
+        } else if data.starts_with(b"NRW ") {
             probe!(self.probe, "nef.wb.nrw", "true");
-            let offset = if &data[4..8] != b"0100" && entry.count > 72 {
+            let offset = if data.get(4..8)? != b"0100" && entry.count > 72 {
                 56
             } else if entry.count > 1572 {
                 1556
@@ -512,10 +507,10 @@ impl NefFile {
                 return None;
             };
             probe!(self.probe, "nef.wb.nrw.offset", offset);
-            let data = &data[offset..];
+            let data = data.get(offset..offset + 16)?;
             let r = (LittleEndian::read_u32(data) << 2) as f64;
-            let g =
-                (LittleEndian::read_u32(&data[4..]) + LittleEndian::read_u32(&data[8..])) as f64;
+            let g = LittleEndian::read_u32(&data[4..]) as f64
+                + LittleEndian::read_u32(&data[8..]) as f64;
             let b = (LittleEndian::read_u32(&data[12..]) << 2) as f64;
             Some([g / r, 1.0, g / b])
         } else {
@@ -532,7 +527,8 @@ impl NefFile {
                 // `ColorBalanceA` (see [`nrw_white_balance`])
                 if entry.count >= 4 {
                     probe!(self.probe, "nef.wb.nikon", "true");
-                    entry.float_value_array(mnote.endian()).map(|v| {
+                    let v = entry.float_value_array(mnote.endian())?;
+                    Some(v).filter(|v| v.len() >= 3).map(|v| {
                         let mut g = v[2];
                         if g <= 0.0 {
                             g = 1.0;
@@ -603,8 +599,9 @@ impl RawFileImpl for NefFile {
                         None,
                     )
                     .and_then(|dir| {
-                        let start = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
-                            + mnote.mnote_offset;
+                        let start = dir
+                            .value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_START)?
+                            .checked_add(mnote.mnote_offset)?;
                         let len = dir.value::<u32>(exif::MNOTE_NIKON_PREVIEWIFD_LENGTH)?;
                         container
                             .add_thumbnail_from_stream(start, len, &mut thumbnails)
@@ -682,6 +679,7 @@ impl RawFileImpl for NefFile {
                         let user_crop = self
                             .maker_note_ifd()
                             .and_then(|dir| dir.uint_value_array(exif::MNOTE_NIKON_CROP_AREA))
+                            .filter(|user_crop| user_crop.len() >= 4)
                             .map(|user_crop| Rect {
                                 x: user_crop[0],
                                 y: user_crop[1],
-- 
2.43.0


From 0ba5dd9e0da3c175c028bbfd43594b6882fb6505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:49 +0000
Subject: [PATCH 091/116] fix: memory was allocated for packed data larger than
 the file

---
 src/decompress.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/decompress.rs b/src/decompress.rs
index b0e8af4..63b74f8 100644
--- a/src/decompress.rs
+++ b/src/decompress.rs
@@ -213,15 +213,22 @@ pub(crate) fn unpack_from_reader(
     // 12-bits samples are unpacked by two. When the width is odd, the block
     // has one more byte to complete the last pair.
     let block_pad = if bpc == 12 { width % 2 } else { 0 };
-    let mut block = vec![0; block_size + block_pad];
-    let out_size = width * height as usize;
-    let mut out_data = Vec::with_capacity(out_size);
+    let mut block = vec![];
+    let byte_len = std::cmp::min(byte_len, block_size.saturating_mul(height as usize));
+    // A sample takes more than one byte.
+    let mut out_data = Vec::with_capacity(byte_len);
     let mut fetched = 0_usize;
     let mut written = 0_usize;
 
-    let byte_len = std::cmp::min(byte_len, block_size * height as usize);
     while fetched < byte_len {
-        reader.read_exact(&mut block[..block_size])?;
+        block.clear();
+        (&mut *reader)
+            .take(block_size as u64)
+            .read_to_end(&mut block)?;
+        if block.len() < block_size {
+            return Err(Error::UnexpectedEOF);
+        }
+        block.resize(block_size + block_pad, 0);
         fetched += block_size;
         match bpc {
             n @ 10 | n @ 14 => written += unpack_bento16(&block, n, width, &mut out_data)?,
-- 
2.43.0


From 609b7a932890cb3c290dcb373115ee66fbcfaf5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:46 +0000
Subject: [PATCH 092/116] fix: out of range values in ORF files overflowed

---
 src/olympus.rs        | 13 +++++++------
 src/tiff/container.rs |  2 +-
 2 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/olympus.rs b/src/olympus.rs
index 6f2103e..3865571 100644
--- a/src/olympus.rs
+++ b/src/olympus.rs
@@ -439,7 +439,7 @@ impl RawFileImpl for OrfFile {
                 mnote.entry(exif::ORF_TAG_THUMBNAIL_IMAGE).map(|e| {
                     container.add_thumbnail_from_entry(e, mnote.mnote_offset, &mut thumbnails)
                 });
-                self.olympus_cs_ifd(mnote).map(|dir| {
+                self.olympus_cs_ifd(mnote).and_then(|dir| {
                     if dir
                         .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_VALID)
                         .unwrap_or(0)
@@ -448,7 +448,7 @@ impl RawFileImpl for OrfFile {
                         let start = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_START)
                             .unwrap_or(0)
-                            + mnote.mnote_offset;
+                            .checked_add(mnote.mnote_offset)?;
                         let len = dir
                             .value::<u32>(exif::ORF_TAG_CS_PREVIEW_IMAGE_LENGTH)
                             .unwrap_or(0);
@@ -463,6 +463,7 @@ impl RawFileImpl for OrfFile {
                             );
                         }
                     }
+                    Some(())
                 })
             });
 
@@ -579,12 +580,12 @@ impl RawFileImpl for OrfFile {
                             let mut crop = Rect {
                                 x,
                                 y,
-                                width: values[2] + 1 - x,
-                                height: values[3] + 1 - y,
+                                width: values[2].checked_sub(x)?.checked_add(1)?,
+                                height: values[3].checked_sub(y)?.checked_add(1)?,
                             };
                             if let Some(active_area) = active_area {
-                                crop.x += active_area.x;
-                                crop.y += active_area.y;
+                                crop.x = crop.x.checked_add(active_area.x)?;
+                                crop.y = crop.y.checked_add(active_area.y)?;
                             }
 
                             Some(crop)
diff --git a/src/tiff/container.rs b/src/tiff/container.rs
index 212176a..a9e9f71 100644
--- a/src/tiff/container.rs
+++ b/src/tiff/container.rs
@@ -373,7 +373,7 @@ impl Container {
         list: &mut Vec<(u32, thumbnail::ThumbDesc)>,
     ) -> Result<usize> {
         if let Some(val_offset) = e.offset() {
-            let val_offset = val_offset + offset;
+            let val_offset = val_offset.checked_add(offset).ok_or(Error::FormatError)?;
             self.add_thumbnail_from_stream(val_offset, e.count, list)
         } else {
             log::error!("Entry for thumbnail has no offset");
-- 
2.43.0


From 0aa4f9767d974a896c40400e7409a74b7cc81807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:48 +0000
Subject: [PATCH 093/116] fix: decompressing Olympus images without columns
 took forever

---
 src/olympus/decompress.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/olympus/decompress.rs b/src/olympus/decompress.rs
index 935baab..6dad372 100644
--- a/src/olympus/decompress.rs
+++ b/src/olympus/decompress.rs
@@ -35,6 +35,9 @@ pub fn decompress_olympus(input: &[u8], w: usize, h: usize) -> Result<Vec<u16>>
             "ORF: Compressed data too small.".into(),
         ));
     }
+    if w == 0 || h == 0 {
+        return Ok(vec![]);
+    }
     if w.saturating_mul(h) > input.len().saturating_mul(8) {
         // Each sample takes at least one bit.
         return Err(Error::UnexpectedEOF);
-- 
2.43.0


From ac41ba095d4dd20c9674f556e87a8e044cdfe093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:50 +0000
Subject: [PATCH 094/116] fix: short or out of range values in PEF files
 panicked

---
 src/pentax.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/pentax.rs b/src/pentax.rs
index e1c747e..ca9509a 100644
--- a/src/pentax.rs
+++ b/src/pentax.rs
@@ -418,8 +418,9 @@ impl RawFileImpl for PefFile {
             self.ifd(tiff::IfdType::MakerNote).and_then(|mnote| {
                 // The MakerNote has a MNOTE_PENTAX_PREVIEW_IMAGE_SIZE
                 // That contain w in [0] and h in [1]
-                let start =
-                    mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)? + mnote.mnote_offset;
+                let start = mnote
+                    .uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_START)?
+                    .checked_add(mnote.mnote_offset)?;
                 let len = mnote.uint_value(exif::MNOTE_PENTAX_PREVIEW_IMAGE_LENGTH)?;
                 container
                     .add_thumbnail_from_stream(start, len, &mut thumbnails)
@@ -522,7 +523,10 @@ impl RawFileImpl for PefFile {
                             rawdata.set_blacks([black; 4]);
                         }
                     }
-                    if let Some(wb) = mnote.uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE) {
+                    if let Some(wb) = mnote
+                        .uint_value_array(exif::MNOTE_PENTAX_WHITE_BALANCE)
+                        .filter(|wb| wb.len() >= 4)
+                    {
                         // ExifTool and the MNOTE_PENTAX_TAG_NAMES have this as WhitePoint
                         let g = wb[1] as f64;
                         let wb = [g / wb[0] as f64, 1.0, g / wb[3] as f64];
-- 
2.43.0


From 2974b6b40b20e82cede85b02b420a8fb18290cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:51 +0000
Subject: [PATCH 095/116] fix: short or out of range values in ARW files
 panicked

---
 src/sony.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/src/sony.rs b/src/sony.rs
index ba731b2..ce63323 100644
--- a/src/sony.rs
+++ b/src/sony.rs
@@ -824,12 +824,13 @@ impl ArwFile {
         let offset = dir
             .entry(exif::DNG_TAG_DNG_PRIVATE)
             .and_then(|entry| entry.value_array::<u8>(dir.endian()))
+            .filter(|bytes| bytes.len() >= 4)
             .map(|bytes| u32::read::<LittleEndian>(&bytes))
             .ok_or(Error::NotFound)?;
-        let view = Viewer::create_view(&self.reader, offset as u64).expect("Created view");
+        let view = Viewer::create_view(&self.reader, offset as u64)?;
         let mut container = MrwContainer::new(view);
         container.set_endian(Endian::Little);
-        container.load().expect("Failed to load container");
+        container.load()?;
 
         Ok(container)
     }
@@ -900,7 +901,7 @@ impl ArwFile {
     /// get it at the specified `offset`.
     fn aspect_ratio_2010(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings_2010()?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             0 => Some(AspectRatio(16, 9)),
             1 => Some(AspectRatio(4, 3)),
             2 => Some(AspectRatio(3, 2)),
@@ -916,7 +917,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs(&self, offset: usize) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings(Endian::Big)?;
-        match camera_settings[offset] {
+        match *camera_settings.get(offset)? {
             1 => Some(AspectRatio(3, 2)),
             2 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -925,7 +926,7 @@ impl ArwFile {
 
     fn aspect_ratio_cs3(&self) -> Option<AspectRatio> {
         let camera_settings = self.camera_settings3()?;
-        match camera_settings[10] {
+        match *camera_settings.get(10)? {
             4 => Some(AspectRatio(3, 2)),
             8 => Some(AspectRatio(16, 9)),
             _ => None,
@@ -1029,10 +1030,14 @@ impl ArwFile {
                     });
                 let aspect_ratio = self.aspect_ratio();
                 rawimage.set_user_crop(user_crop, aspect_ratio);
-                if let Some(wb) = dir.int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS).map(|v| {
-                    let g = v[1] as f64;
-                    [g / v[0] as f64, 1.0, g / v[3] as f64]
-                }) {
+                if let Some(wb) = dir
+                    .int_value_array(exif::ARW_TAG_WB_RGGB_LEVELS)
+                    .filter(|v| v.len() >= 4)
+                    .map(|v| {
+                        let g = v[1] as f64;
+                        [g / v[0] as f64, 1.0, g / v[3] as f64]
+                    })
+                {
                     rawimage.set_as_shot_neutral(&wb);
                 }
                 // XXX This here and Pentax get the levels from the builtins.
@@ -1070,8 +1075,8 @@ impl ArwFile {
         // They don't match the ImageWidth and ImageHeight
         let width = prd.x; //3881;
         let height = prd.y; //2608;
-        let byte_len = width * height * 2;
-        let data = container.load_buffer8(offset as u64, byte_len as u64);
+        let byte_len = width as u64 * height as u64 * 2;
+        let data = container.load_buffer8(offset as u64, byte_len);
 
         let mut rawimage = RawImage::with_data8(
             width,
-- 
2.43.0


From 90a16eec0bfb9fa7d7e92c5c825c23b700e4d050 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:02 +0000
Subject: [PATCH 096/116] fix: damaged or large MRW files panicked

---
 src/minolta.rs | 61 +++++++++++++++++++++++++++++++-------------------
 1 file changed, 38 insertions(+), 23 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index 53a6ae2..e32f7ff 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -190,7 +190,12 @@ impl RawFileImpl for MrwFile {
             let mut thumbnails = vec![];
             self.container()?;
             if let Some(makernote) = self.ifd(tiff::IfdType::MakerNote) {
-                let ifd = self.container.get().unwrap().ifd_container();
+                let ifd = self
+                    .container
+                    .get()
+                    .unwrap()
+                    .ifd_container()
+                    .ok_or(Error::NotFound)?;
                 // Old files have the thumbnail in the Exif entry `MNOTE_MINOLTA_THUMBNAIL`.
                 let buffer = if let Some(preview) = makernote.entry(exif::MNOTE_MINOLTA_THUMBNAIL) {
                     // e.data() is incorrect.
@@ -212,7 +217,7 @@ impl RawFileImpl for MrwFile {
                         None
                     }
                 };
-                if let Some(mut buffer) = buffer {
+                if let Some(mut buffer) = buffer.filter(|buffer| !buffer.is_empty()) {
                     // For some reason the first byte isn't 0xff. Thanks Minolta.
                     // Setting the first byte to `0xff` makes it be a JPEG.
                     buffer[0] = 0xff;
@@ -235,7 +240,7 @@ impl RawFileImpl for MrwFile {
     /// block.
     fn ifd(&self, ifd_type: tiff::IfdType) -> Option<&tiff::Dir> {
         self.container().ok()?;
-        let ifd = self.container.get().unwrap().ifd_container();
+        let ifd = self.container.get().unwrap().ifd_container()?;
         match ifd_type {
             tiff::IfdType::Raw | tiff::IfdType::Main => ifd.directory(0),
             tiff::IfdType::Exif => ifd.exif_dir(),
@@ -252,11 +257,12 @@ impl RawFileImpl for MrwFile {
             let rawinfo = container.minolta_prd()?;
 
             let cfa_offset = container.raw_data_offset();
+            let num_pixels = rawinfo.x as u64 * rawinfo.y as u64;
             let cfa_len = if rawinfo.is_compressed {
-                rawinfo.x * rawinfo.y + ((rawinfo.x * rawinfo.y) >> 1)
+                num_pixels + (num_pixels >> 1)
             } else {
-                2 * rawinfo.x * rawinfo.y
-            } as u64;
+                2 * num_pixels
+            };
             let mut rawdata = if rawinfo.is_compressed {
                 probe!(self.probe, "mrw.packed", "true");
                 let raw = container.load_buffer8(cfa_offset, cfa_len);
@@ -270,7 +276,7 @@ impl RawFileImpl for MrwFile {
                         rawinfo.mosaic,
                     )
                 } else {
-                    let mut unpacked = Vec::with_capacity((rawinfo.x * rawinfo.y) as usize);
+                    let mut unpacked = Vec::with_capacity(raw.len());
                     decompress::unpack_be12to16(&raw, &mut unpacked, tiff::Compression::None)
                         .map_err(|err| {
                             log::error!("RAF failed to unpack {}", err);
@@ -542,7 +548,7 @@ pub(crate) struct MrwContainer {
     /// TIFF IFD
     ttw: Option<DataBlock>,
     /// The IFD container from `ttw`.
-    ifd: OnceCell<tiff::Container>,
+    ifd: OnceCell<Option<tiff::Container>>,
     /// White balance
     wbg: Option<DataBlock>,
     /// Image processing settings
@@ -607,16 +613,21 @@ impl MrwContainer {
 
     /// Get the IFD container from the `TTW` block.
     /// All the Exif offsets are relative to the begining of the container.
-    fn ifd_container(&self) -> &tiff::Container {
-        self.ifd.get_or_init(|| {
-            let ttw = self.ttw.as_ref().expect("no TTW in the file");
-            let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8)
-                .expect("Couldn't create view");
-            let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
-            ifd.load(None).expect("Failed to load IFD container");
-
-            ifd
-        })
+    /// `None` if there is no such block or if it can't be loaded.
+    fn ifd_container(&self) -> Option<&tiff::Container> {
+        self.ifd
+            .get_or_init(|| {
+                let ttw = self.ttw.as_ref().or_else(|| {
+                    log::error!("no TTW in the file");
+                    None
+                })?;
+                let view = Viewer::create_subview(&self.view.borrow(), ttw.offset + 8).ok()?;
+                let mut ifd = tiff::Container::new(view, vec![(IfdType::Main, None)], Type::Mrw);
+                ifd.load(None).ok()?;
+
+                Some(ifd)
+            })
+            .as_ref()
     }
 
     pub(crate) fn minolta_prd(&self) -> Result<RawInfo> {
@@ -659,13 +670,13 @@ impl MrwContainer {
         self.wbg.as_ref().and_then(|wbg| {
             let rd = wbg
                 .uint8_value(Wbg::DenominatorR as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| 2_f64.powi(6 + d as i32))?;
             let gd = wbg
                 .uint8_value(Wbg::DenominatorG1 as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| 2_f64.powi(6 + d as i32))?;
             let bd = wbg
                 .uint8_value(Wbg::DenominatorB as u64, self)
-                .map(|d| 1 << (6 + d))? as f64;
+                .map(|d| 2_f64.powi(6 + d as i32))?;
             let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
             let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
             let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
@@ -722,7 +733,9 @@ impl RawContainer for MrwContainer {
     }
 
     fn dir_iterator(&self) -> metadata::Iterator {
-        self.ifd_container().dirs().iter().into()
+        self.ifd_container()
+            .map(|ifd| ifd.dirs().iter().into())
+            .unwrap_or_default()
     }
 }
 
@@ -819,7 +832,9 @@ impl Dump for MrwContainer {
                     dump_writeln!(out, indent, "<TTW @{}, len={}>", block.offset, block.length);
                     {
                         let indent = indent + 1;
-                        self.ifd_container().write_dump(out, indent);
+                        if let Some(ifd) = self.ifd_container() {
+                            ifd.write_dump(out, indent);
+                        }
                     }
                     dump_writeln!(out, indent, "</TTW>");
                 }
-- 
2.43.0


From 9543aada6b00a2a203e52ed6fd41fa4d5b21a9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:59 +0000
Subject: [PATCH 097/116] fix: seeking a view relative to a position before its
 start panicked

---
 src/io.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io.rs b/src/io.rs
index 0d66a98..bfb102d 100644
--- a/src/io.rs
+++ b/src/io.rs
@@ -275,7 +275,11 @@ impl std::io::Seek for View {
             }
             _ => pos,
         })
-        .map(|i| i - self.offset)
+        .and_then(|i| {
+            // The position is the one of the `Viewer`: it might be before the view.
+            i.checked_sub(self.offset)
+                .ok_or_else(|| std::io::Error::from(ErrorKind::InvalidInput))
+        })
     }
 }
 
-- 
2.43.0


From 56d5d67eebe2a1d6f3d641d039d24b6d74218c22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:01 +0000
Subject: [PATCH 098/116] fix: short values in ERF files panicked

---
 src/epson.rs | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/src/epson.rs b/src/epson.rs
index 1816611..22189f4 100644
--- a/src/epson.rs
+++ b/src/epson.rs
@@ -136,10 +136,10 @@ impl RawFileImpl for ErfFile {
             let container = self.container.get().unwrap();
             let mut thumbnails = tiff::tiff_thumbnails(container);
             self.maker_note_ifd().and_then(|mnote| {
-                mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).map(|e| {
+                mnote.entry(exif::ERF_TAG_PREVIEW_IMAGE).and_then(|e| {
                     let mut data = Vec::from(e.data());
                     // The data start by 0xee instead of 0xff for a JPEG. Not sure why.
-                    data[0] = 0xff;
+                    *data.first_mut()? = 0xff;
                     let desc = thumbnail::ThumbDesc {
                         // It is 640x424 (3:2 aspect ratio)
                         width: 640,
@@ -148,6 +148,7 @@ impl RawFileImpl for ErfFile {
                         data: thumbnail::Data::Bytes(data),
                     };
                     thumbnails.push((640, desc));
+                    Some(())
                 })
             });
 
@@ -209,11 +210,13 @@ impl RawFileImpl for ErfFile {
                                     log::error!("EPSON white balance len {}", wb_values.len());
                                 }
                                 // These values are taken directly from dcraw.
-                                rawdata.set_as_shot_neutral(&[
-                                    (0x10000 as f64) / ((wb_values[24] as f64) * 508.0 * 1.078),
-                                    1.0,
-                                    (0x10000 as f64) / ((wb_values[25] as f64) * 382.0 * 1.173),
-                                ]);
+                                if let (Some(r), Some(b)) = (wb_values.get(24), wb_values.get(25)) {
+                                    rawdata.set_as_shot_neutral(&[
+                                        (0x10000 as f64) / ((*r as f64) * 508.0 * 1.078),
+                                        1.0,
+                                        (0x10000 as f64) / ((*b as f64) * 382.0 * 1.173),
+                                    ]);
+                                }
                             }
                             None::<()>
                         });
-- 
2.43.0


From a98b67bc5c46dcee64d5a6e6bdd0e45408fa0faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:03 +0000
Subject: [PATCH 099/116] fix: short or out of range values in DNG files
 panicked

---
 src/dng.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dng.rs b/src/dng.rs
index 837ef4f..53f0c51 100644
--- a/src/dng.rs
+++ b/src/dng.rs
@@ -379,8 +379,8 @@ impl RawFileImpl for DngFile {
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_ORIGIN)
                                 .and_then(|v| if v.len() < 2 { None } else { Some(v) })
                                 .map(|v| Point {
-                                    x: v[0] + active_area.x,
-                                    y: v[1] + active_area.y,
+                                    x: v[0].saturating_add(active_area.x),
+                                    y: v[1].saturating_add(active_area.y),
                                 })?;
                             let size = dir
                                 .uint_value_array(exif::DNG_TAG_DEFAULT_CROP_SIZE)
@@ -406,6 +406,7 @@ impl RawFileImpl for DngFile {
                         } else if let Some(as_shot_xy) = self
                             .main_ifd()
                             .and_then(|dir| dir.float_value_array(exif::DNG_TAG_AS_SHOT_WHITE_XY))
+                            .filter(|v| v.len() >= 2)
                         {
                             rawdata.set_as_shot_white_xy((as_shot_xy[0], as_shot_xy[1]));
                         }
-- 
2.43.0


From 7b9c5ef550c95b7a18bf2c5d8811bee1ac38241f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:04 +0000
Subject: [PATCH 100/116] fix: memory was allocated for 14 bits RAF data larger
 than the file

---
 src/fujifilm.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 1d7e3b2..152e802 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -472,10 +472,13 @@ impl RawFileImpl for RafFile {
                     } else {
                         let mut view = raw_container.borrow_view_mut();
                         let unpacked = if bps == 14 {
-                            let mut unpacked = Vec::with_capacity(
-                                raw_size.width as usize * raw_size.height as usize,
-                            );
                             let view = crate::io::Viewer::create_subview(&view, cfa_offset)?;
+                            // More than one byte per value.
+                            let capacity = std::cmp::min(
+                                raw_size.width as u64 * raw_size.height as u64,
+                                view.len(),
+                            );
+                            let mut unpacked = Vec::with_capacity(capacity as usize);
                             let mut reader = BitReaderLe32::new(view);
                             unpack::unpack_14to16(
                                 &mut reader,
-- 
2.43.0


From 971e32f0599ba1bf20168a4c9347a15c4164c49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:28 +0000
Subject: [PATCH 101/116] fix: damaged compressed RAF images panicked

---
 src/decompress/bit_reader.rs |   5 +-
 src/fujifilm/decompress.rs   | 210 +++++++++++++++++++----------------
 2 files changed, 119 insertions(+), 96 deletions(-)

diff --git a/src/decompress/bit_reader.rs b/src/decompress/bit_reader.rs
index 4015de2..f797c9d 100644
--- a/src/decompress/bit_reader.rs
+++ b/src/decompress/bit_reader.rs
@@ -57,7 +57,10 @@ pub(crate) trait BitReader {
         let mut count = 0;
         loop {
             // u16::leading_zeros require at least one bit set.
-            let bits = (self.peek(NUM_BITS as u8).unwrap() << 1) | 0x1;
+            let bits = match self.peek(NUM_BITS as u8) {
+                Ok(bits) => (bits << 1) | 0x1,
+                Err(_) => break,
+            };
             let n = bits.leading_zeros();
             self.consume(n as u8);
             count += n;
diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index b656830..a72bd54 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -36,7 +36,7 @@ use rayon::prelude::*;
 use crate::bitmap::ImageBuffer;
 use crate::decompress::bit_reader::{BitReader, BitReaderBe32};
 use crate::mosaic::{Pattern, PatternColour};
-use crate::{Error, Result, Size};
+use crate::{Error, Result};
 
 /// Calculate the required bits to encode as many states.
 pub fn log2ceil(mut states: usize) -> usize {
@@ -203,6 +203,8 @@ impl Header {
         !(self.signature != 0x4953
       //|| self.lossless != 1
       || self.raw_height > 0x3000
+      || cfa.width() == 0
+      || cfa.height() == 0
       || (self.raw_height as usize) < cfa.height()
       || (self.raw_height as usize) % cfa.height() != 0
       || self.raw_width > 0x3000
@@ -212,6 +214,7 @@ impl Header {
       || self.block_size != 0x300
       || self.raw_rounded_width < self.block_size
       || self.raw_rounded_width % self.block_size != 0
+      || self.raw_rounded_width < self.raw_width
       || self.raw_rounded_width - self.raw_width >= self.block_size
       || self.blocks_in_row > 0x10
       || self.blocks_in_row == 0
@@ -234,19 +237,18 @@ impl Strip {
         params: &Params,
         q_bases: Option<&[u8]>,
         out: &mut ImageBuffer<u16>,
-    ) {
+    ) -> Result<()> {
         let mut info_block = CompressedBlock::new(header, params);
         log::debug!("Fuji strip offset: {}, len: {}", self.offset, self.size);
 
-        let mut pump = if self.offset + self.size == src.len() {
-            let cursor = std::io::Cursor::new(&src[self.offset..]);
-            BitReaderBe32::new(cursor)
+        let end = if self.offset + self.size == src.len() {
+            src.len()
         } else {
             let extra_bytes = 16;
-            let cursor =
-                std::io::Cursor::new(&src[self.offset..self.offset + self.size + extra_bytes]);
-            BitReaderBe32::new(cursor)
+            self.offset + self.size + extra_bytes
         };
+        let data = src.get(self.offset..end).ok_or(Error::UnexpectedEOF)?;
+        let mut pump = BitReaderBe32::new(std::io::Cursor::new(data));
 
         let mtable = [
             (XT_LINE_R0, XT_LINE_R3),
@@ -289,9 +291,9 @@ impl Strip {
             }
 
             if header.raw_type == 16 {
-                info_block.fuji_xtrans_decode_block(&mut pump, &params);
+                info_block.fuji_xtrans_decode_block(&mut pump, &params)?;
             } else {
-                info_block.fuji_bayer_decode_block(&mut pump, &params);
+                info_block.fuji_bayer_decode_block(&mut pump, &params)?;
             }
 
             // copy data from line buffers and advance
@@ -321,6 +323,8 @@ impl Strip {
                     info_block.linebuf[i.0 - 1][params.line_width];
             }
         }
+
+        Ok(())
     }
 }
 
@@ -337,40 +341,42 @@ pub(super) fn decompress_fuji(
 ) -> Result<ImageBuffer<u16>> {
     let mut stream = std::io::Cursor::new(buf);
     let header = Header {
-        signature: stream.read_u16::<BigEndian>().unwrap(),
-        lossless: stream.read_u8().unwrap(),
-        raw_type: stream.read_u8().unwrap(),
-        raw_bits: stream.read_u8().unwrap(),
-        raw_height: stream.read_u16::<BigEndian>().unwrap(),
-        raw_rounded_width: stream.read_u16::<BigEndian>().unwrap(),
-        raw_width: stream.read_u16::<BigEndian>().unwrap(),
-        block_size: stream.read_u16::<BigEndian>().unwrap(),
-        blocks_in_row: stream.read_u8().unwrap(),
-        total_lines: stream.read_u16::<BigEndian>().unwrap(),
+        signature: stream.read_u16::<BigEndian>()?,
+        lossless: stream.read_u8()?,
+        raw_type: stream.read_u8()?,
+        raw_bits: stream.read_u8()?,
+        raw_height: stream.read_u16::<BigEndian>()?,
+        raw_rounded_width: stream.read_u16::<BigEndian>()?,
+        raw_width: stream.read_u16::<BigEndian>()?,
+        block_size: stream.read_u16::<BigEndian>()?,
+        blocks_in_row: stream.read_u8()?,
+        total_lines: stream.read_u16::<BigEndian>()?,
     };
     log::debug!("Header: {:?}", header);
-    if !header.is_valid(corrected_cfa) {
+    if !header.is_valid(corrected_cfa)
+        || !corrected_cfa.pattern().iter().all(|colour| {
+            matches!(
+                colour,
+                PatternColour::Red | PatternColour::Green | PatternColour::Blue
+            )
+        })
+    {
         log::error!("Invalid header");
         return Err(Error::Decompression("Fuji header is not valid".into()));
     }
-    assert_eq!(
-        Size {
-            width: width as u32,
-            height: height as u32
-        },
-        Size {
-            width: header.raw_width.into(),
-            height: header.raw_height.into()
-        },
-        "RAF header specifies different dimensions!"
-    );
+    if width != header.raw_width as usize || height != header.raw_height as usize {
+        log::error!("RAF header specifies different dimensions!");
+        return Err(Error::Decompression(
+            "Fuji header has different dimensions".into(),
+        ));
+    }
 
     let params = Params::new(&header);
     log::debug!("Params: {:?}", params);
 
-    let block_sizes: Vec<usize> = (0..header.blocks_in_row)
-        .map(|_| stream.read_u32::<BigEndian>().unwrap() as usize)
-        .collect();
+    let block_sizes = (0..header.blocks_in_row)
+        .map(|_| Ok(stream.read_u32::<BigEndian>()? as usize))
+        .collect::<Result<Vec<usize>>>()?;
     let raw_offset = header.blocks_in_row as usize * size_of::<u32>();
     let raw_offset_padded = (raw_offset + 0xF) & !0xF;
     stream.seek(SeekFrom::Current((raw_offset_padded - raw_offset) as i64))?;
@@ -380,12 +386,8 @@ pub(super) fn decompress_fuji(
         let total_q_bases = block_sizes.len() * ((header.total_lines as usize + 0xF) & !0xF);
         let mut bytes = vec![0_u8; total_q_bases];
         let byteslice = bytes.as_mut_slice();
-        if stream.read_exact(byteslice).is_ok() {
-            Some(bytes)
-        } else {
-            // XXX log
-            None
-        }
+        stream.read_exact(byteslice)?;
+        Some(bytes)
     } else {
         None
     };
@@ -412,15 +414,15 @@ pub(super) fn decompress_fuji(
     let out = SharedPix2D::new(ImageBuffer::new(width as u32, height as u32, 16, 1));
 
     // Process each strip
-    strips.par_iter().for_each(|strip| {
+    strips.par_iter().try_for_each(|strip| {
         let line_step = (header.total_lines as usize + 0xF) & !0xF;
         // Each strip has it's own q_bases
         let q_bases_strip = q_bases.as_ref().map(|buf| &buf[strip.n * line_step..]);
         // DANGEROUS: We need multiple mut refs here. This should be
         // safe as be only write pixels to pre-allocated memory.
         let outbuf = unsafe { out.inner_mut() };
-        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf);
-    });
+        strip.decompress_strip(buf, &header, &params, q_bases_strip, outbuf)
+    })?;
 
     Ok(out.into_inner())
 }
@@ -585,7 +587,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let line_width = params.line_width;
         let mut colours = Colours::new();
 
@@ -594,7 +596,8 @@ impl CompressedBlock {
                               block: &mut CompressedBlock,
                               c0: usize,
                               c1: usize,
-                              grad: usize| {
+                              grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -604,7 +607,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -612,7 +615,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -622,7 +625,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.r().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -630,11 +633,12 @@ impl CompressedBlock {
                         c1,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_red(line_width);
             block.fuji_extend_green(line_width);
+            Ok(())
         };
 
         let pass_green_blue = |colours: &mut Colours,
@@ -642,7 +646,8 @@ impl CompressedBlock {
                                block: &mut CompressedBlock,
                                c0: usize,
                                c1: usize,
-                               grad: usize| {
+                               grad: usize|
+         -> Result<()> {
             while colours.g().even < line_width || colours.g().odd < line_width {
                 if colours.g().even < line_width {
                     fuji_decode_sample_even(
@@ -652,7 +657,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                     fuji_decode_sample_even(
                         pump,
                         params,
@@ -660,7 +665,7 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
                 if colours.g().even > 8 {
                     fuji_decode_sample_odd(
@@ -670,7 +675,7 @@ impl CompressedBlock {
                         c0,
                         &mut colours.g().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                     fuji_decode_sample_odd(
                         pump,
                         params,
@@ -678,33 +683,35 @@ impl CompressedBlock {
                         c1,
                         &mut colours.b().odd,
                         &mut block.grad_odd[grad],
-                    );
+                    )?;
                 }
             }
             block.fuji_extend_green(line_width);
             block.fuji_extend_blue(line_width);
+            Ok(())
         };
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R2, XT_LINE_G2, 0)?;
         colours.g().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G3, XT_LINE_B2, 1)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R3, XT_LINE_G4, 2)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G5, XT_LINE_B3, 0)?;
         colours.r().reset();
         colours.g().reset();
 
-        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1);
+        pass_red_green(&mut colours, pump, self, XT_LINE_R4, XT_LINE_G6, 1)?;
         colours.g().reset();
         colours.b().reset();
 
-        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2);
+        pass_green_blue(&mut colours, pump, self, XT_LINE_G7, XT_LINE_B4, 2)?;
+        Ok(())
     }
 
     #[allow(clippy::too_many_arguments)]
@@ -719,7 +726,8 @@ impl CompressedBlock {
         c1: usize,
         grad: usize,
         even_func: F,
-    ) where
+    ) -> Result<()>
+    where
         F: Fn(
             &mut CompressedBlock,
             &mut BitReaderBe32<T>,
@@ -728,14 +736,14 @@ impl CompressedBlock {
             usize,
             &mut ColourPos,
             &mut ColourPos,
-        ),
+        ) -> Result<()>,
     {
         let line_width = params.line_width;
         while colours.g().even < line_width || colours.g().odd < line_width {
             if colours.g().even < line_width {
                 let mut c0_pos = *colours.at(C0);
                 let mut c1_pos = *colours.at(C1);
-                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos);
+                even_func(self, pump, c0, c1, grad, &mut c0_pos, &mut c1_pos)?;
                 *colours.at(C0) = c0_pos; // Write back
                 *colours.at(C1) = c1_pos;
             }
@@ -747,7 +755,7 @@ impl CompressedBlock {
                     c0,
                     &mut colours.at(C0).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
                 fuji_decode_sample_odd(
                     pump,
                     params,
@@ -755,9 +763,10 @@ impl CompressedBlock {
                     c1,
                     &mut colours.at(C1).odd,
                     &mut self.grad_odd[grad],
-                );
+                )?;
             }
         }
+        Ok(())
     }
 
     /// Decode X-Trans pattern from block
@@ -765,7 +774,7 @@ impl CompressedBlock {
         &mut self,
         pump: &mut BitReaderBe32<T>,
         params: &Params,
-    ) {
+    ) -> Result<()> {
         let mut colours = Colours::new();
         let line_width = params.line_width;
 
@@ -786,9 +795,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -809,10 +819,11 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -835,13 +846,14 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c0, &mut c0_pos.even);
                 }
                 fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -863,7 +875,7 @@ impl CompressedBlock {
                     c0,
                     &mut c0_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
 
                 if c1_pos.even & 3 == 2 {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
@@ -875,10 +887,11 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
         colours.r().reset();
@@ -903,7 +916,7 @@ impl CompressedBlock {
                         c0,
                         &mut c0_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 }
 
                 fuji_decode_sample_even(
@@ -913,9 +926,10 @@ impl CompressedBlock {
                     c1,
                     &mut c1_pos.even,
                     &mut block.grad_even[grad],
-                );
+                )?;
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_red(line_width);
         self.fuji_extend_green(line_width);
         colours.g().reset();
@@ -940,14 +954,16 @@ impl CompressedBlock {
                         c1,
                         &mut c1_pos.even,
                         &mut block.grad_even[grad],
-                    );
+                    )?;
                 } else {
                     fuji_decode_interpolation_even(block, c1, &mut c1_pos.even);
                 }
+                Ok(())
             },
-        );
+        )?;
         self.fuji_extend_green(line_width);
         self.fuji_extend_blue(line_width);
+        Ok(())
     }
 
     fn fuji_extend_generic(&mut self, line_width: usize, start: usize, end: usize) {
@@ -1136,11 +1152,13 @@ impl Params {
 /// Count and consume all zero bits
 /// Additionally, consume the first 1 bit.
 #[inline(always)]
-fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> u32 {
+fn fuji_zerobits<T: std::io::Read>(pump: &mut BitReaderBe32<T>) -> Result<u32> {
     let count = pump.consume_zerobits();
-    debug_assert_eq!(pump.peek(1).unwrap(), 1);
-    pump.consume(1); // consume the next bit which is 0b1
-    count
+    // consume the next bit which is 0b1
+    if pump.get_bits(1)? != 1 {
+        return Err(Error::UnexpectedEOF);
+    }
+    Ok(count)
 }
 
 /// Calculate bit difference between two values
@@ -1173,22 +1191,22 @@ fn read_code<T: std::io::Read>(
     params: &Params,
     gradient: &mut Gradient,
     q_table: &QTable,
-) -> i32 {
-    let sample = fuji_zerobits(pump);
+) -> Result<i32> {
+    let sample = fuji_zerobits(pump)?;
     let mut code: i32 = if (sample as usize) < params.max_bits - q_table.raw_bits - 1 {
         let dec_bits = bit_diff(gradient.0, gradient.1);
         let extra_bits = if dec_bits == 0 {
             0
         } else {
-            pump.get_bits(dec_bits).unwrap() as i32
+            pump.get_bits(dec_bits)? as i32
         };
         (sample << dec_bits) as i32 + extra_bits
     } else {
-        1 + pump.get_bits(q_table.raw_bits as u8).unwrap() as i32
+        1 + pump.get_bits(q_table.raw_bits as u8)? as i32
     };
     // Validate code
     if code < 0 || code >= q_table.total_values {
-        panic!("Invalid code: {}", code);
+        return Err(Error::Decompression(format!("Fuji invalid code: {code}")));
     }
     // Adjust code
     if (code & 1) != 0 {
@@ -1203,7 +1221,7 @@ fn read_code<T: std::io::Read>(
         gradient.1 >>= 1;
     }
     gradient.1 += 1;
-    code
+    Ok(code)
 }
 
 /// Decode samples for even positions
@@ -1214,7 +1232,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1255,7 +1273,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to even positions
     if grad < 0 {
@@ -1278,6 +1296,7 @@ fn fuji_decode_sample_even<T: std::io::Read>(
     }
 
     *pos += 2;
+    Ok(())
 }
 
 /// Decode samples for odd positions
@@ -1288,7 +1307,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     line: usize,
     pos: &mut usize,
     grads: &mut GradientList,
-) {
+) -> Result<()> {
     // Line -2 |   | f |   |
     // Line -1 | c | b | d |
     // Line  0 | a | x | g |
@@ -1327,7 +1346,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
         params,
         &mut gradients[grad.unsigned_abs() as usize],
         qtable,
-    );
+    )?;
 
     // Adjustments specific to odd positions
     if grad < 0 {
@@ -1350,6 +1369,7 @@ fn fuji_decode_sample_odd<T: std::io::Read>(
     }
 
     *pos += 2;
+    Ok(())
 }
 
 /// Interpolate x value from surrounding pixels
-- 
2.43.0


From 5671445a7ff6d9ae7636791ab9ecffb10f0e965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:30 +0000
Subject: [PATCH 102/116] fix: compressed RAF images were decompressed with the
 CFA pattern transposed

---
 src/fujifilm/decompress.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index a72bd54..1e602f4 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -551,7 +551,7 @@ impl CompressedBlock {
         let cfa_height = strip.cfa.height();
         for row_count in 0..Strip::line_height() {
             for pixel_count in 0..strip.width() {
-                let line_idx = match strip.cfa[(row_count % cfa_height, pixel_count % cfa_width)] {
+                let line_idx = match strip.cfa[(pixel_count % cfa_width, row_count % cfa_height)] {
                     PatternColour::Red => line_buf_r[row_count >> 1],
                     PatternColour::Green => line_buf_g[row_count],
                     PatternColour::Blue => line_buf_b[row_count >> 1],
-- 
2.43.0


From 8c0a0ce1c7667860fe4791a068d5650fa935772f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:34:32 +0000
Subject: [PATCH 103/116] fix: an MP4 UUID box without an UUID panicked

---
 src/mp4/parse/mod.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index 4711a8f..ab39e1a 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -3302,10 +3302,7 @@ fn read_moov<T: Read>(f: &mut BMFFBox<T>, context: Option<MediaContext>) -> Resu
                     }
                 }
                 if !box_known {
-                    debug!(
-                        "Unknown UUID box {:?} (skipping)",
-                        b.head.uuid.as_ref().unwrap()
-                    );
+                    debug!("Unknown UUID box {:?} (skipping)", b.head.uuid.as_ref());
                     skip_box_content(&mut b)?;
                 }
             }
-- 
2.43.0


From a5b279b11a05d24571be54d128207a0a4f40dafc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:15 +0000
Subject: [PATCH 104/116] fix: a compressed RAF image with a short CFA pattern
 panicked

---
 src/fujifilm/decompress.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fujifilm/decompress.rs b/src/fujifilm/decompress.rs
index 1e602f4..f9441ed 100644
--- a/src/fujifilm/decompress.rs
+++ b/src/fujifilm/decompress.rs
@@ -354,6 +354,7 @@ pub(super) fn decompress_fuji(
     };
     log::debug!("Header: {:?}", header);
     if !header.is_valid(corrected_cfa)
+        || corrected_cfa.pattern().len() != corrected_cfa.width() * corrected_cfa.height()
         || !corrected_cfa.pattern().iter().all(|colour| {
             matches!(
                 colour,
-- 
2.43.0


From dbfdfbe7c3d9bab74c97e35ec037cc8d4e455093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:17 +0000
Subject: [PATCH 105/116] fix: an MP4 UUID box was ignored if its UUID took
 more than one read

---
 src/mp4/parse/mod.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/mp4/parse/mod.rs b/src/mp4/parse/mod.rs
index ab39e1a..c45f9e3 100644
--- a/src/mp4/parse/mod.rs
+++ b/src/mp4/parse/mod.rs
@@ -1628,7 +1628,14 @@ fn read_box_header<T: ReadBytesExt>(src: &mut T) -> Result<BoxHeader> {
     let uuid = if name == BoxType::UuidBox {
         if size >= offset + 16 {
             let mut buffer = [0u8; 16];
-            let count = src.read(&mut buffer)?;
+            // A single read might return less than there is.
+            let mut count = 0;
+            while count < buffer.len() {
+                match src.read(&mut buffer[count..])? {
+                    0 => break,
+                    n => count += n,
+                }
+            }
             offset += count.to_u64();
             if count == 16 {
                 Some(buffer)
-- 
2.43.0


From 13149843921c59a27fd3f75617572875e0834a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:49:53 +0000
Subject: [PATCH 106/116] fix: the preview of a RAF file whose header can't be
 read had a size after the metadata was read

---
 src/jpeg/container.rs | 54 +++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 30 deletions(-)

diff --git a/src/jpeg/container.rs b/src/jpeg/container.rs
index 7e68b71..feb4424 100644
--- a/src/jpeg/container.rs
+++ b/src/jpeg/container.rs
@@ -22,6 +22,7 @@
 //! JPEG container
 
 use std::cell::{RefCell, RefMut};
+use std::io::Seek;
 use std::rc::Rc;
 
 use jpeg_decoder::{Decoder, ImageInfo};
@@ -41,7 +42,7 @@ pub(crate) struct Container {
     /// JPEG image info
     image_info: OnceCell<Option<ImageInfo>>,
     /// JPEG decoder
-    decoder: OnceCell<RefCell<Decoder<View>>>,
+    decoder: OnceCell<Option<Decoder<View>>>,
     /// Exif IFD
     exif: OnceCell<Option<(tiff::Container, Rc<Viewer>)>>,
     /// The RawType this belong to
@@ -98,12 +99,25 @@ impl Container {
         }
     }
 
-    /// Initialize the JPEG decoder.
-    fn decoder(&self) -> &RefCell<Decoder<View>> {
-        self.decoder.get_or_init(|| {
-            let view = &*self.view.borrow_mut();
-            RefCell::new(Decoder::new(view.clone()))
-        })
+    /// Initialize the JPEG decoder, and read the info. It is done only
+    /// once: the decoder would carry on from where it failed.
+    fn decoder(&self) -> Option<&Decoder<View>> {
+        self.decoder
+            .get_or_init(|| {
+                let mut view = self.view.borrow().clone();
+                // The position is shared with the other views.
+                view.rewind().ok()?;
+                let mut decoder = Decoder::new(view);
+                decoder
+                    .read_info()
+                    .map_err(|err| {
+                        log::error!("JPEG decoding error: {}", err);
+                        err
+                    })
+                    .ok()?;
+                Some(decoder)
+            })
+            .as_ref()
     }
 
     pub fn exif_dir(&self) -> Option<&tiff::Dir> {
@@ -117,17 +131,7 @@ impl Container {
     pub fn exif(&self) -> Option<&tiff::Container> {
         self.exif
             .get_or_init(|| {
-                let decoder = self.decoder();
-                decoder
-                    .borrow_mut()
-                    .read_info()
-                    .map_err(|err| {
-                        log::error!("JPEG decoding error: {}", err);
-                        err
-                    })
-                    .ok()?;
-                decoder
-                    .borrow()
+                self.decoder()?
                     .exif_data()
                     .and_then(|data| {
                         let data = Vec::from(data);
@@ -164,18 +168,8 @@ impl Container {
 
     /// Load the image info.
     fn image_info(&self) -> &Option<ImageInfo> {
-        self.image_info.get_or_init(|| {
-            let decoder = self.decoder();
-            decoder
-                .borrow_mut()
-                .read_info()
-                .map_err(|err| {
-                    log::error!("JPEG decoding error: {}", err);
-                    err
-                })
-                .ok()?;
-            decoder.borrow().info()
-        })
+        self.image_info
+            .get_or_init(|| self.decoder().and_then(|decoder| decoder.info()))
     }
 
     /// Return the height of the JPEG image.
-- 
2.43.0


From a636a2cd74e7b8208189545e15d1ff6b2f761c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:00 +0000
Subject: [PATCH 107/116] fix: the Orientation of a CRW file was written as a
 LONG from two bytes, wrong in big endian

---
 src/canon/crw/ciff/container.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 1cb1e68..09fec16 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -301,7 +301,7 @@ impl Container {
                 self.endian_write_u16(&mut buffer, image_spec.exif_orientation());
                 let entry = Entry::new(
                     exif::EXIF_TAG_ORIENTATION,
-                    exif::TagType::Long as i16,
+                    exif::TagType::Short as i16,
                     1,
                     buffer,
                 );
-- 
2.43.0


From 650e29876a1b8a62cffcfac1e223905edeee4216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:01 +0000
Subject: [PATCH 108/116] fix: the macro, metering and exposure modes of a CRW
 file were found under the wrong Exif tags

---
 src/canon/crw/ciff/container.rs | 16 +++++++++++++---
 src/tiff/exif/tags.rs           |  4 ++--
 2 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/canon/crw/ciff/container.rs b/src/canon/crw/ciff/container.rs
index 09fec16..916a632 100644
--- a/src/canon/crw/ciff/container.rs
+++ b/src/canon/crw/ciff/container.rs
@@ -97,7 +97,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         if value == 1 {
             let mut buf = [0_u8; 4];
             container.endian_write_u16(&mut buf, 1);
-            let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+            let entry = Entry::new(
+                exif::EXIF_TAG_SUBJECT_DISTANCE_RANGE,
+                TagType::Short as i16,
+                1,
+                buf,
+            );
             entries.push(entry);
         }
 
@@ -128,7 +133,7 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
         };
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, metering);
-        let entry = Entry::new(exif::EXIF_TAG_FLASH, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
         entries.push(entry);
 
         // Exposure mode
@@ -148,7 +153,12 @@ fn translate_camera_settings(_: &RecordEntry, container: &Container, _: u16) ->
 
         let mut buf = [0_u8; 4];
         container.endian_write_u16(&mut buf, exposure);
-        let entry = Entry::new(exif::EXIF_TAG_METERING_MODE, TagType::Short as i16, 1, buf);
+        let entry = Entry::new(
+            exif::EXIF_TAG_EXPOSURE_PROGRAM,
+            TagType::Short as i16,
+            1,
+            buf,
+        );
         entries.push(entry);
     }
 
diff --git a/src/tiff/exif/tags.rs b/src/tiff/exif/tags.rs
index f8f8819..4d28f5c 100644
--- a/src/tiff/exif/tags.rs
+++ b/src/tiff/exif/tags.rs
@@ -76,7 +76,7 @@ pub const _EXIF_TAG_IPTC_NAA: u16 = 0x83bb;
 pub const _EXIF_TAG_IMAGE_RESOURCES: u16 = 0x8649;
 pub const EXIF_TAG_EXIF_IFD_POINTER: u16 = 0x8769;
 pub const _EXIF_TAG_INTER_COLOR_PROFILE: u16 = 0x8773;
-pub const _EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
+pub const EXIF_TAG_EXPOSURE_PROGRAM: u16 = 0x8822;
 pub const _EXIF_TAG_SPECTRAL_SENSITIVITY: u16 = 0x8824;
 pub const EXIF_TAG_GPS_INFO_IFD_POINTER: u16 = 0x8825;
 pub const _EXIF_TAG_ISO_SPEED_RATINGS: u16 = 0x8827;
@@ -131,7 +131,7 @@ pub const _EXIF_TAG_CONTRAST: u16 = 0xa408;
 pub const _EXIF_TAG_SATURATION: u16 = 0xa409;
 pub const _EXIF_TAG_SHARPNESS: u16 = 0xa40a;
 pub const _EXIF_TAG_DEVICE_SETTING_DESCRIPTION: u16 = 0xa40b;
-pub const _EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
+pub const EXIF_TAG_SUBJECT_DISTANCE_RANGE: u16 = 0xa40c;
 pub const _EXIF_TAG_IMAGE_UNIQUE_ID: u16 = 0xa420;
 pub const EXIF_TAG_CAMERA_OWNER_NAME: u16 = 0xa430;
 pub const EXIF_TAG_BODY_SERIAL_NUMBER: u16 = 0xa431;
-- 
2.43.0


From e794d2e2735151bd891234e47cdef978c746e4d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:50:16 +0000
Subject: [PATCH 109/116] fix: the maker note directory of Leica X cameras was
 listed under an unqualified name

---
 src/tiff/dir.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tiff/dir.rs b/src/tiff/dir.rs
index 63259b8..82dd1d4 100644
--- a/src/tiff/dir.rs
+++ b/src/tiff/dir.rs
@@ -340,7 +340,7 @@ impl Dir {
                             0x10 | // Leica X-U (Typ 113)
                             0x1a =>
                                 return Dir::new_makernote(
-                                    b"Leica5\0",
+                                    b"Exif.Leica5\0",
                                     container,
                                     container::Endian::Unset,
                                     offset + 8,
-- 
2.43.0


From c41dc5ee0e0ad332f33452a1780d2adbfc6ac317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:52:05 +0000
Subject: [PATCH 110/116] fix: only a JPEG that starts with its quantization
 tables was recognised from its content

---
 src/identify.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/identify.rs b/src/identify.rs
index e9fe0f1..64c48aa 100644
--- a/src/identify.rs
+++ b/src/identify.rs
@@ -135,7 +135,7 @@ pub(crate) fn type_for_content(content: &mut View) -> Result<Option<Type>> {
         return Err(Error::BufferTooSmall);
     }
 
-    if buf[0..4] == [0xff, 0xd8, 0xff, 0xdb] {
+    if buf[0..3] == [0xff, 0xd8, 0xff] {
         return Ok(Some(Jpeg));
     }
 
-- 
2.43.0


From 688ee0e99d0e8d0cff8bddb58eea15e32d402025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:24 +0000
Subject: [PATCH 111/116] fix: the white balance of a Minolta file with a GBRG
 mosaic was given to the wrong colours

---
 src/minolta.rs | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/minolta.rs b/src/minolta.rs
index e32f7ff..1630192 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -667,19 +667,27 @@ impl MrwContainer {
     }
 
     pub(crate) fn get_wb(&self) -> Option<[f64; 4]> {
+        // Position of red, green and blue in the block.
+        let (r, g, b) = match self.minolta_prd() {
+            Ok(RawInfo {
+                mosaic: Pattern::Gbrg,
+                ..
+            }) => (2, 0, 1),
+            _ => (0, 1, 3),
+        };
         self.wbg.as_ref().and_then(|wbg| {
             let rd = wbg
-                .uint8_value(Wbg::DenominatorR as u64, self)
+                .uint8_value(Wbg::DenominatorR as u64 + r, self)
                 .map(|d| 2_f64.powi(6 + d as i32))?;
             let gd = wbg
-                .uint8_value(Wbg::DenominatorG1 as u64, self)
+                .uint8_value(Wbg::DenominatorR as u64 + g, self)
                 .map(|d| 2_f64.powi(6 + d as i32))?;
             let bd = wbg
-                .uint8_value(Wbg::DenominatorB as u64, self)
+                .uint8_value(Wbg::DenominatorR as u64 + b, self)
                 .map(|d| 2_f64.powi(6 + d as i32))?;
-            let rn = wbg.uint16_value(Wbg::NominatorR as u64, self)? as f64;
-            let gn = wbg.uint16_value(Wbg::NominatorG1 as u64, self)? as f64;
-            let bn = wbg.uint16_value(Wbg::NominatorB as u64, self)? as f64;
+            let rn = wbg.uint16_value(Wbg::NominatorR as u64 + 2 * r, self)? as f64;
+            let gn = wbg.uint16_value(Wbg::NominatorR as u64 + 2 * g, self)? as f64;
+            let bn = wbg.uint16_value(Wbg::NominatorR as u64 + 2 * b, self)? as f64;
 
             Some([rd / rn, gd / gn, bd / bn, f64::NAN])
         })
-- 
2.43.0


From 2754ac111e7eb89f2ce47113e778d290719d5de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:29 +0000
Subject: [PATCH 112/116] fix: the dump of Minolta, Fujifilm and CRW files did
 not close what it opened

---
 src/canon/crw/ciff.rs | 2 +-
 src/fujifilm.rs       | 2 +-
 src/minolta.rs        | 4 ++--
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/canon/crw/ciff.rs b/src/canon/crw/ciff.rs
index b83f10c..2dca4de 100644
--- a/src/canon/crw/ciff.rs
+++ b/src/canon/crw/ciff.rs
@@ -579,7 +579,7 @@ impl Heap {
                 record.write_dump(out, indent, container);
             }
         }
-        dump_writeln!(out, indent, "</HEAP");
+        dump_writeln!(out, indent, "</HEAP>");
     }
 }
 
diff --git a/src/fujifilm.rs b/src/fujifilm.rs
index 152e802..61f2126 100644
--- a/src/fujifilm.rs
+++ b/src/fujifilm.rs
@@ -599,7 +599,7 @@ impl Dump for RafFile {
         if self.container().is_ok() {
             self.container.get().unwrap().write_dump(out, indent + 1);
         }
-        dump_writeln!(out, indent, "</Fujfilm RAF File>");
+        dump_writeln!(out, indent, "</Fujifilm RAF File>");
     }
 }
 
diff --git a/src/minolta.rs b/src/minolta.rs
index 1630192..fec596b 100644
--- a/src/minolta.rs
+++ b/src/minolta.rs
@@ -348,7 +348,7 @@ impl Dump for MrwFile {
         if self.container().is_ok() {
             self.container.get().unwrap().write_dump(out, indent + 1);
         }
-        dump_writeln!(out, indent, "</Minolat MRW File>");
+        dump_writeln!(out, indent, "</Minolta MRW File>");
     }
 }
 
@@ -856,7 +856,7 @@ impl Dump for MrwContainer {
                     );
                 }
             }
-            dump_writeln!(out, indent, "<MRM>");
+            dump_writeln!(out, indent, "</MRM>");
         }
     }
 }
-- 
2.43.0


From f52391b32458bc0da04f276755ed64fcf29a912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:50:32 +0000
Subject: [PATCH 113/116] fix: the dump of a Fujifilm file gave the offset of
 the first raw data for the second

---
 src/fujifilm/raf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fujifilm/raf.rs b/src/fujifilm/raf.rs
index 743db98..dd33c10 100644
--- a/src/fujifilm/raf.rs
+++ b/src/fujifilm/raf.rs
@@ -367,7 +367,7 @@ impl Dump for RafContainer {
             }
             dump_writeln!(out, indent, "</CFA>");
             if self.offsets.extra_cfa_offset != 0 {
-                dump_writeln!(out, indent, "<CFA2 @{}>", self.offsets.cfa_offset);
+                dump_writeln!(out, indent, "<CFA2 @{}>", self.offsets.extra_cfa_offset);
                 {
                     let indent = indent + 1;
                     if let Some(cfa_container) = self.cfa_container2() {
-- 
2.43.0


From 94b46b91a3d9c11e5fd22a982a8929da10b0da5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:09 +0000
Subject: [PATCH 114/116] fix: ordiag saves samples of any depth

---
 src/bin/ordiag.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/bin/ordiag.rs b/src/bin/ordiag.rs
index 146fca3..4c01788 100644
--- a/src/bin/ordiag.rs
+++ b/src/bin/ordiag.rs
@@ -132,7 +132,8 @@ fn save_raw(p: &str, rawdata: &RawImage) -> Result<usize> {
         let mut amount = 0;
         let raw = std::path::PathBuf::from(format!("{stem}_RAW.pgm"));
         if let Some(d) = rawdata.data16() {
-            let white = (1_u32 << rawdata.bpc()) - 1;
+            // A sample isn't over 16 bits, whatever the file says.
+            let white = (1_u32 << std::cmp::min(rawdata.bpc(), 16)) - 1;
             let mut f = std::fs::File::create(&raw)?;
             amount += f.write(b"P5\n")?;
             amount += f.write(format!("{} {}\n", rawdata.width(), rawdata.height()).as_bytes())?;
-- 
2.43.0


From a57cb09c7f0481b8a276ffec6a225b073785850e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:09 +0000
Subject: [PATCH 115/116] fix: ordiag doesn't report a file cut short as
 written

---
 src/bin/ordiag.rs | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/bin/ordiag.rs b/src/bin/ordiag.rs
index 4c01788..518977c 100644
--- a/src/bin/ordiag.rs
+++ b/src/bin/ordiag.rs
@@ -108,8 +108,8 @@ fn save_thumbnail(p: &str, thumb: &Thumbnail) {
             if let Some(fname) = make_thumbnail_name(p, thumb) {
                 if let Some(d) = thumb.data8() {
                     let mut f = std::fs::File::create(&fname).expect("Couldn't open file");
-                    let amount = f.write(d).expect("Couldn't write thumbnail");
-                    eprintln!("Written {fname:?}: {amount} bytes");
+                    f.write_all(d).expect("Couldn't write thumbnail");
+                    eprintln!("Written {fname:?}: {} bytes", d.len());
                 }
             }
         }
@@ -135,9 +135,9 @@ fn save_raw(p: &str, rawdata: &RawImage) -> Result<usize> {
             // A sample isn't over 16 bits, whatever the file says.
             let white = (1_u32 << std::cmp::min(rawdata.bpc(), 16)) - 1;
             let mut f = std::fs::File::create(&raw)?;
-            amount += f.write(b"P5\n")?;
-            amount += f.write(format!("{} {}\n", rawdata.width(), rawdata.height()).as_bytes())?;
-            amount += f.write(format!("{white}\n").as_bytes())?;
+            let header = format!("P5\n{} {}\n{white}\n", rawdata.width(), rawdata.height());
+            f.write_all(header.as_bytes())?;
+            amount += header.len();
             for b in d {
                 let value = std::cmp::min(*b, white as u16);
                 f.write_u16::<BigEndian>(value)?;
-- 
2.43.0


From 393d65479a0e5fbfceb9419f05503f953652cd00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:33:09 +0000
Subject: [PATCH 116/116] fix: rawdata says when there is nothing to save, or
 it can't be

---
 src/bin/rawdata.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/bin/rawdata.rs b/src/bin/rawdata.rs
index 46a1baf..fcb0a2c 100644
--- a/src/bin/rawdata.rs
+++ b/src/bin/rawdata.rs
@@ -9,12 +9,17 @@ fn main() {
     let args: Vec<String> = std::env::args().collect();
     assert!(args.len() > 1, "Incorrect number of arguments");
 
-    let _ = libopenraw::rawfile_from_file(&args[1], None).and_then(|rawfile| {
+    let result = libopenraw::rawfile_from_file(&args[1], None).and_then(|rawfile| {
         // always skip decompression
         let rawdata = rawfile.raw_data(true)?;
+        let data = rawdata.data8().ok_or(libopenraw::Error::NotFound)?;
         let mut f = std::fs::File::create("rawdata.raw")?;
-        let _ = f.write(rawdata.data8().unwrap())?;
+        f.write_all(data)?;
 
         Ok(())
     });
+    if let Err(err) = result {
+        eprintln!("Couldn't extract the raw data: {err}");
+        std::process::exit(1);
+    }
 }
-- 
2.43.0

