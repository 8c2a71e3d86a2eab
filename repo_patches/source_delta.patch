From ed3793d6b13de3ab6c4b315cd378ef6cb5a441e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:15 +0000
Subject: [PATCH 01/35] fix: jump to the next HDU from an absolute position

Skipping the rest of a data unit underflowed (panic, or a jump to a wrong
location) as soon as the reader was beyond the end of the data unit or before
its start, e.g. after reading past the main data table.
---
 src/fits.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fits.rs b/src/fits.rs
index 70e524e..e541c56 100644
--- a/src/fits.rs
+++ b/src/fits.rs
@@ -6,6 +6,7 @@ use crate::hdu::header::extension::image::Image;
 use crate::hdu::header::Header;
 use crate::hdu::header::Xtension;
 
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 #[derive(Debug, Clone)]
@@ -63,16 +64,20 @@ where
         // The number of bytes to skip is the remaining bytes +
         // an offset to get to a multiple of 2880 bytes
 
-        // current seek position since the start of the stream
-        let cur_pos = self.reader.stream_position()? as usize;
-        let mut num_bytes_to_skip = self.num_bytes_in_cur_du - (cur_pos - self.pos_start_cur_du);
+        let mut next_hdu_pos = self.pos_start_cur_du as i128 + self.num_bytes_in_cur_du as i128;
 
         let offset_in_2880_block = self.num_bytes_in_cur_du % 2880;
         let is_aligned_on_block = offset_in_2880_block == 0;
         if !is_aligned_on_block {
-            num_bytes_to_skip += 2880 - offset_in_2880_block;
+            next_hdu_pos += (2880 - offset_in_2880_block) as i128;
         }
-        self.reader.seek_relative(num_bytes_to_skip as i64)?;
+
+        // current seek position since the start of the stream. It can be anywhere, even after
+        // the next HDU, e.g. in the padding, if the user read more bytes than the data unit has
+        let cur_pos = self.reader.stream_position()?;
+        let num_bytes_to_skip = i64::try_from(next_hdu_pos - cur_pos as i128)
+            .map_err(|_| Error::StaticError("The next HDU is out of reach"))?;
+        self.reader.seek_relative(num_bytes_to_skip)?;
 
         Ok(())
     }
-- 
2.43.0


From a524bde79908b93abaac3a26b39ff2ed1393eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:27 +0000
Subject: [PATCH 02/35] fix: bit columns (X) take ceil(r / 8) bytes

A row holding an X column whose repeat count is not a multiple of 8 was
rejected when its header was parsed, one whose repeat count is a multiple of 8
was read with one byte too many, and a variable length array of bits was read
as if each bit took one byte.
---
 src/hdu/data/bintable/data.rs        | 19 ++++++++++++-------
 src/hdu/header/extension/bintable.rs |  6 +++---
 2 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 64759f7..4a16611 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -112,8 +112,8 @@ enum DataReaderState {
         ty: VariableArrayTy,
         /// The number of bytes remaining to read
         num_bytes_to_read: u64,
-        /// The number of elements to read
-        n_elems: u64,
+        /// The total number of bytes of the array
+        num_bytes: u64,
         /// The size in bytes of one element
         t_byte_size: u64,
     },
@@ -405,13 +405,17 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                let num_bytes_to_read = n_elems * t_byte_size;
+                let num_bytes_to_read = match ty {
+                    // an array of bits is packed in bytes
+                    VariableArrayTy::X => n_elems.div_ceil(8),
+                    _ => n_elems * t_byte_size,
+                };
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
                     num_bytes_to_read,
                     t_byte_size,
-                    n_elems,
+                    num_bytes: num_bytes_to_read,
                 };
             }
         }
@@ -471,7 +475,7 @@ where
             DataReaderState::HEAP {
                 ty,
                 num_bytes_to_read,
-                n_elems,
+                num_bytes,
                 t_byte_size,
                 ..
             } => {
@@ -480,7 +484,8 @@ where
                 // Here, our reader is at the good heap location
 
                 // idx of the elem in the heap area
-                let idx = (*n_elems - (*num_bytes_to_read) / (*t_byte_size)) as usize;
+                let idx = (*num_bytes - *num_bytes_to_read) / *t_byte_size;
+                let idx = idx as usize;
 
                 let value = match ty {
                     VariableArrayTy::L => {
@@ -635,7 +640,7 @@ where
                             self.byte_offset += X::BYTES_SIZE;
 
                             self.item_idx += 1;
-                            if self.item_idx == (*repeat_count / 8) + 1 {
+                            if self.item_idx == repeat_count.div_ceil(8) {
                                 self.seek_to_next_col().ok()?;
                             }
 
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index a801ebd..58c538a 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -509,12 +509,12 @@ impl Xtension for BinTable {
             (naxis1 as usize) * (naxis2 as usize)
         };
 
-        let num_bits_per_row = tforms
+        // Each field starts on a byte boundary, a bit field is padded to fill its last byte
+        let num_bytes_per_row = tforms
             .iter()
-            .map(|tform| tform.num_bits_field() as u64)
+            .map(|tform| tform.num_bytes_field() as u64)
             .sum::<u64>();
 
-        let num_bytes_per_row = num_bits_per_row >> 3;
         if num_bytes_per_row != naxis1 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
         }
-- 
2.43.0


From e4142dea01df8b94432868a6a5e696624bd6c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:57 +0000
Subject: [PATCH 03/35] fix: a logical stored as 'F' is false

The logical columns and variable length arrays were read as true for any non
null byte, the ASCII letter F that stands for false included.
---
 src/hdu/data/bintable/data.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 4a16611..c977ec9 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -447,6 +447,11 @@ impl<R> TableData<R> {
     }
 }
 
+/// A logical is true when it is stored as an ASCII T. F indicates false and 0 a null value
+fn is_true(byte: u8) -> bool {
+    !matches!(byte, 0 | b'F')
+}
+
 use super::{ColumnId, DataValue};
 use std::io::Seek;
 impl<R> Iterator for TableData<R>
@@ -489,7 +494,7 @@ where
 
                 let value = match ty {
                     VariableArrayTy::L => {
-                        let value = self.reader.read_u8().ok()? != 0;
+                        let value = is_true(self.reader.read_u8().ok()?);
                         *num_bytes_to_read -= L::BYTES_SIZE as u64;
                         DataValue::Logical {
                             value,
@@ -629,7 +634,7 @@ where
                             }
 
                             Some(DataValue::Logical {
-                                value: byte != 0,
+                                value: is_true(byte),
                                 column: ColumnId::Index(col_idx),
                                 idx,
                             }) // Determine the count idx inside the field
-- 
2.43.0


From e3bbe025549ff4ffaecc863ac550886184f7a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:51 +0000
Subject: [PATCH 04/35] fix: read the table fields that have no value

A variable length array of 0 element made the iterator underflow, a column with
a repeat count of 0 was never left. Besides, such a field at the end of a row
must not make the row iterator read the values of the next row.
---
 src/hdu/data/bintable/data.rs | 76 ++++++++++++++++++++++++-----------
 src/hdu/data/bintable/row.rs  |  3 +-
 2 files changed, 55 insertions(+), 24 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index c977ec9..19646fa 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -300,32 +300,22 @@ where
         }
 
         // If we are at the last row and the last col, then we go to the end of the main data table
-        let off = if last_col && last_row {
+        let next_byte_offset = if last_col && last_row {
             // seek to the end of the main data table
-            self.main_data_table_byte_size as i64 - self.byte_offset as i64
+            self.main_data_table_byte_size
         } else {
             self.col_idx = (self.col_idx + 1) % self.cols_idx.len();
             self.item_idx = 0;
 
             let col_idx = self.cols_idx[self.col_idx];
 
-            let next_row_byte_off = self.col_byte_offsets[col_idx] as i64;
-            let cur_row_byte_off = (self.byte_offset as i64) % (self.ctx.naxis1 as i64);
-
-            let mut rel_row_byte_off = next_row_byte_off - cur_row_byte_off;
-
-            if rel_row_byte_off < 0 {
-                // next col is on the next row
-                // get to the end of the current row
-                rel_row_byte_off += self.ctx.naxis1 as i64;
-            }
-
-            rel_row_byte_off
+            self.row_idx * (self.ctx.naxis1 as usize) + self.col_byte_offsets[col_idx]
         };
 
+        let off = next_byte_offset as i64 - self.byte_offset as i64;
         self.reader.seek_relative(off)?;
         // update the byte offset as well
-        self.byte_offset += off as usize;
+        self.byte_offset = next_byte_offset;
 
         Ok(())
     }
@@ -462,6 +452,29 @@ where
     type Item = DataValue;
 
     fn next(&mut self) -> Option<Self::Item> {
+        // Some fields do not have any value, look for the next one that has
+        loop {
+            if let Some(value) = self.next_in_field()? {
+                return Some(value);
+            }
+
+            let is_empty = |&idx: &usize| self.ctx.tforms[idx].num_bytes_field() == 0;
+            if self.cols_idx.iter().all(is_empty) {
+                return None;
+            }
+        }
+    }
+}
+
+impl<R> TableData<R>
+where
+    R: Read + Seek + Debug,
+{
+    /// Read the next value of the field being read
+    ///
+    /// Returns `None` if there is nothing more to read and `Some(None)` if the field
+    /// was empty, i.e. no value has been read, but the next field can be looked for
+    pub(crate) fn next_in_field(&mut self) -> Option<Option<DataValue>> {
         // First get the column index in the main data table where the reader is
         let col_idx = self.cols_idx[self.col_idx];
 
@@ -609,20 +622,25 @@ where
                     self.seek_to_next_col().ok()?;
                 }
 
-                Some(value)
+                Some(Some(value))
             }
             DataReaderState::MainTable => {
                 // Check whether we are at the end of the main data table
                 // This would mean we read all the table
                 // Read the next value
 
-                if self.byte_offset == self.main_data_table_byte_size {
+                if self.row_idx >= self.ctx.naxis2 as usize || self.ctx.naxis1 == 0 {
                     None
+                } else if self.ctx.tforms[col_idx].num_bytes_field() == 0 {
+                    // A repeat count of 0, there is no value
+                    self.seek_to_next_col().ok()?;
+
+                    Some(None)
                 } else {
                     let idx = self.item_idx;
 
                     // Retrieve its tform to know which type to read from the reader
-                    match &self.ctx.tforms[col_idx] {
+                    let value = match &self.ctx.tforms[col_idx] {
                         // Logical
                         TFormType::L { repeat_count } => {
                             let byte = self.reader.read_u8().ok()?;
@@ -813,7 +831,12 @@ where
 
                             self.byte_offset += P::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                // Nothing to read in the heap
+                                self.seek_to_next_col().ok()?;
+
+                                return Some(None);
+                            } else if self.heap {
                                 self.jump_to_heap(
                                     *ty,
                                     offset_byte as u64,
@@ -822,7 +845,7 @@ where
                                 )
                                 .ok()?;
 
-                                self.next()
+                                return self.next_in_field();
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
@@ -844,11 +867,16 @@ where
 
                             self.byte_offset += Q::BYTES_SIZE;
 
-                            if self.heap {
+                            if self.heap && num_elems == 0 {
+                                // Nothing to read in the heap
+                                self.seek_to_next_col().ok()?;
+
+                                return Some(None);
+                            } else if self.heap {
                                 self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
                                     .ok()?;
 
-                                self.next()
+                                return self.next_in_field();
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
@@ -861,7 +889,9 @@ where
                                 })
                             }
                         }
-                    }
+                    };
+
+                    value.map(Some)
                 }
             }
         }
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 90f8851..2647fd8 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -49,7 +49,8 @@ where
         let mut row_data = vec![];
 
         while self.data.row_idx == self.idx_row {
-            row_data.push(self.data.next()?);
+            // fields that are empty are discarded
+            row_data.extend(self.data.next_in_field()?);
         }
 
         self.idx_row += 1;
-- 
2.43.0


From d0f6f828112c0caa47fb181b6ff0e70743bd5584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:51 +0000
Subject: [PATCH 05/35] fix: a table without any selected field has no value

Iterating over it (TFIELDS = 0, or a selection of fields that do not exist)
panicked on an out of bounds index.
---
 src/hdu/data/bintable/data.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 19646fa..2e15a81 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -476,7 +476,8 @@ where
     /// was empty, i.e. no value has been read, but the next field can be looked for
     pub(crate) fn next_in_field(&mut self) -> Option<Option<DataValue>> {
         // First get the column index in the main data table where the reader is
-        let col_idx = self.cols_idx[self.col_idx];
+        // There is none if no field has been selected
+        let col_idx = *self.cols_idx.get(self.col_idx)?;
 
         // a select fields has been done, we must offset to the first col
         if self.seek_to_first_col {
-- 
2.43.0


From 97b46f22b00db9b9e025dbd44060563dac411a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:54:35 +0000
Subject: [PATCH 06/35] fix: seek to a row whatever the table has been used for
 before

The jump was relative to the location in the main table, which is not where the
reader is if a value has been read in the heap, and the selection of fields was
applied a second time afterwards. A row iterator built from there was returning
empty rows for the ones that had been jumped over.
---
 src/hdu/data/bintable/data.rs | 24 ++++++++++++------------
 src/hdu/data/bintable/row.rs  |  4 +++-
 2 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 2e15a81..09840e0 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -330,24 +330,24 @@ where
                 "The row index specified is > than the number of rows of the table",
             ))
         } else {
-            self.col_idx = 0;
-            self.row_idx = idx;
-            self.item_idx = 0;
-
             let new_byte_offset =
                 // go to the beginning of the idx-th row
-                (idx as i64) * (self.ctx.naxis1 as i64)
+                idx * (self.ctx.naxis1 as usize)
                 // go to the first column of that row
-                + (self.col_byte_offsets[self.cols_idx[0]] as i64);
-
-            // Offset for moving from the current position to the new row position
-            let off =
-                // go back to the beginning of the main table data block
-                - (self.byte_offset as i64) + new_byte_offset;
+                + self.cols_idx.first().map_or(0, |&col| self.col_byte_offsets[col]);
 
+            // Offset for moving from the current position, which can be in the heap, to the new
+            // row position
+            let cur_pos = self.reader.stream_position()?;
+            let off = (self.start_pos + new_byte_offset as u64) as i64 - cur_pos as i64;
             self.reader.seek_relative(off)?;
 
-            self.byte_offset = new_byte_offset as usize;
+            self.state = DataReaderState::MainTable;
+            self.seek_to_first_col = false;
+            self.col_idx = 0;
+            self.row_idx = idx;
+            self.item_idx = 0;
+            self.byte_offset = new_byte_offset;
 
             Ok(())
         }
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 2647fd8..c797cf6 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -13,7 +13,9 @@ pub struct TableRowData<R> {
 
 impl<R> TableRowData<R> {
     pub fn new(data: TableData<R>) -> Self {
-        Self { data, idx_row: 0 }
+        // the data may have been moved to a specific row
+        let idx_row = data.row_idx;
+        Self { data, idx_row }
     }
 
     pub fn get_ctx(&self) -> &BinTable {
-- 
2.43.0


From 7f6044ee821dec4a3bca8bdd5c34506f19096b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:23 +0000
Subject: [PATCH 07/35] fix: stop iterating over a table once an error has been
 met

The iterator returned None but could be polled again afterwards: it was then
giving the bytes of other fields as values, the reader being at an unknown
location.
---
 src/hdu/data/bintable/data.rs | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 09840e0..eed7248 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -155,6 +155,9 @@ pub struct TableData<R> {
 
     /// A flag indicating if the iterator will jump to the heap to parse the variable length array columns
     heap: bool,
+
+    /// A flag indicating if an error has been encountered. The location of the reader is not known anymore
+    failed: bool,
 }
 
 impl<R> TableData<&mut Cursor<R>>
@@ -235,6 +238,7 @@ impl<R> TableData<R> {
             ctx: ctx.clone(),
             row_idx,
             heap,
+            failed: false,
         }
     }
 
@@ -338,6 +342,7 @@ where
 
             // Offset for moving from the current position, which can be in the heap, to the new
             // row position
+            self.failed = true;
             let cur_pos = self.reader.stream_position()?;
             let off = (self.start_pos + new_byte_offset as u64) as i64 - cur_pos as i64;
             self.reader.seek_relative(off)?;
@@ -348,6 +353,7 @@ where
             self.row_idx = idx;
             self.item_idx = 0;
             self.byte_offset = new_byte_offset;
+            self.failed = false;
 
             Ok(())
         }
@@ -475,6 +481,18 @@ where
     /// Returns `None` if there is nothing more to read and `Some(None)` if the field
     /// was empty, i.e. no value has been read, but the next field can be looked for
     pub(crate) fn next_in_field(&mut self) -> Option<Option<DataValue>> {
+        if self.failed {
+            return None;
+        }
+
+        let value = self.read_field_value();
+        // Either it is the end of the table or an error occured
+        self.failed = value.is_none();
+
+        value
+    }
+
+    fn read_field_value(&mut self) -> Option<Option<DataValue>> {
         // First get the column index in the main data table where the reader is
         // There is none if no field has been selected
         let col_idx = *self.cols_idx.get(self.col_idx)?;
@@ -846,7 +864,7 @@ where
                                 )
                                 .ok()?;
 
-                                return self.next_in_field();
+                                return self.read_field_value();
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
@@ -877,7 +895,7 @@ where
                                 self.jump_to_heap(*ty, offset_byte, num_elems, *t_byte_size)
                                     .ok()?;
 
-                                return self.next_in_field();
+                                return self.read_field_value();
                             } else {
                                 // We need to seek to the next call if we do not jump to the heap, notifying
                                 // we finished parsing this field
-- 
2.43.0


From 03422be583f2e01429cc70fed283e63408c31152 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 08/35] fix: the RICE differences can overflow

As CFITSIO tells, the sum of a pixel and its difference with the next one is
computed modulo 2^32. It panicked instead when two adjacent pixels are far from
each other.
---
 src/hdu/data/bintable/tile_compressed/rice.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/rice.rs b/src/hdu/data/bintable/tile_compressed/rice.rs
index b9a9fac..278635f 100644
--- a/src/hdu/data/bintable/tile_compressed/rice.rs
+++ b/src/hdu/data/bintable/tile_compressed/rice.rs
@@ -285,7 +285,7 @@ where
                             diff = !(diff >> 1);
                         }
 
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
@@ -342,7 +342,7 @@ where
                         } else {
                             diff = !(diff >> 1);
                         }
-                        let curpix = (diff as i32) + lastpix;
+                        let curpix = (diff as i32).wrapping_add(lastpix);
                         buf[j..(j + T::size_of())]
                             .copy_from_slice(&curpix.to_ne_bytes()[..T::size_of()]);
                         lastpix = curpix;
-- 
2.43.0


From 1f3a7f9abd0aa2caad71b269cb86f02d9b37a3b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:57:29 +0000
Subject: [PATCH 09/35] fix: the tiles on the border of an image can be smaller

They were all decompressed as tiles of ZTILE1 * ZTILE2 * ... pixels, so that the
iterator stopped at the first border tile of an image whose size is not a
multiple of the tile one.
---
 .../data/bintable/tile_compressed/pixels.rs   | 127 ++++++++----------
 1 file changed, 57 insertions(+), 70 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 9ed59ab..8896bc5 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -52,7 +52,7 @@ where
     desc: TileDesc<K>,
 
     z_tile: Box<[usize]>,
-    //z_naxis: Box<[usize]>,
+    z_naxis: Box<[u64]>,
     z_cmp_type: ZCmpType,
     data_compressed_idx: usize,
 }
@@ -77,6 +77,7 @@ where
     ) -> Self {
         // This buffer is only used if tile compressed image in the gzip compression is to be found
         let TileCompressedImage {
+            z_naxisn,
             z_tilen,
             z_cmp_type,
             data_compressed_idx,
@@ -107,60 +108,46 @@ where
             desc,
 
             data_compressed_idx: *data_compressed_idx,
-            //z_naxis: z_naxisn.clone(),
+            z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
         }
     }
 }
 
-/*
-/// Compute the size of the tile from its row position inside the compressed data column
-/// FIXME: optimize this computation by using memoization
-pub(crate) fn tile_size_from_row_idx(
-    z_tile: &[usize],
-    z_naxis: &[usize],
-    n: usize,
-) -> Box<[usize]> {
-    let d = z_tile.len();
-
-    if d == 0 {
-        // There must be at least one dimension
-        unreachable!();
-    } else {
-        let mut u = vec![0_usize; z_tile.len()];
-
-        let s = z_naxis
-            .iter()
-            .zip(z_tile.iter())
-            .map(|(naxisi, tilei)| naxisi.div_ceil(*tilei))
-            .collect::<Vec<_>>();
-
-        // Compute the position inside the first dimension
-        u[0] = n % s[0];
-
-        for i in 1..d {
-            u[i] = n
-                - u[0]
-                - (1..i)
-                    .map(|k| {
-                        let prod_sk = s.iter().take(k).product::<usize>();
-                        u[k] * prod_sk
-                    })
-                    .sum::<usize>();
-
-            let prod_si = s.iter().take(i).product::<usize>();
-
-            u[i] = (u[i] / prod_si) % s[i];
+/// Compute the number of pixels of the tile from its row position inside the compressed data column
+///
+/// The last tiles along a dimension of the image can be smaller than the other ones.
+///
+/// Returns None if there is no such a tile in the image.
+fn num_pixels_from_row_idx(z_tile: &[usize], z_naxis: &[u64], n: usize) -> Option<u64> {
+    let mut tile_idx = n as u64;
+    let mut num_pixels = 1_u64;
+
+    for (&tilei, &naxisi) in z_tile.iter().zip(z_naxis.iter()) {
+        let tilei = tilei as u64;
+        if tilei == 0 || naxisi == 0 {
+            return None;
         }
 
-        u.iter()
-            .zip(z_naxis.iter().zip(z_tile.iter()))
-            .map(|(&u_i, (&naxis, &tilez))| tilez.min(naxis - u_i * tilez))
-            .collect()
+        let num_tiles = naxisi.div_ceil(tilei);
+        let first_pixel = (tile_idx % num_tiles) * tilei;
+
+        num_pixels = num_pixels.checked_mul(tilei.min(naxisi - first_pixel))?;
+        tile_idx /= num_tiles;
     }
+
+    // The RICE decoder counts the pixels with an i32
+    (tile_idx == 0 && num_pixels <= i32::MAX as u64).then_some(num_pixels)
+}
+
+/// Fill the buffer with the decompressed pixels of a tile
+fn read_tile<R: Read>(mut reader: R, buf: &mut Vec<u8>, num_pixels: usize) -> Result<(), Error> {
+    buf.resize(num_pixels * std::mem::size_of::<u32>(), 0);
+    reader.read_exact(&mut buf[..])?;
+
+    Ok(())
 }
-    */
 
 use std::fmt::Debug;
 impl<R> Iterator for It<R, U8Keywords>
@@ -191,7 +178,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
             self.desc.n_pixels = num_pixels;
             self.desc.remaining_pixels = num_pixels;
 
@@ -215,17 +202,17 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            let gz = GzDecoder::new(reader);
+                            read_tile(gz, buf, num_pixels as usize)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
+                            let rice = RICEDecoder::<_, i32>::new(
                                 reader,
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(rice, buf, num_pixels as usize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -291,7 +278,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
             self.desc.n_pixels = num_pixels;
             self.desc.remaining_pixels = num_pixels;
             // We jump to the heap at the position of the tile
@@ -314,17 +301,17 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            let gz = GzDecoder::new(reader);
+                            read_tile(gz, buf, num_pixels as usize)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
+                            let rice = RICEDecoder::<_, i32>::new(
                                 reader,
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(rice, buf, num_pixels as usize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -397,7 +384,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
             self.desc.n_pixels = num_pixels;
             self.desc.remaining_pixels = num_pixels;
             // We jump to the heap at the position of the tile
@@ -420,17 +407,17 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            let gz = GzDecoder::new(reader);
+                            read_tile(gz, buf, num_pixels as usize)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
+                            let rice = RICEDecoder::<_, i32>::new(
                                 reader,
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(rice, buf, num_pixels as usize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -515,7 +502,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
             self.desc.n_pixels = num_pixels;
             self.desc.remaining_pixels = num_pixels;
 
@@ -591,17 +578,17 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            let gz = GzDecoder::new(reader);
+                            read_tile(gz, buf, num_pixels as usize)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
+                            let rice = RICEDecoder::<_, i32>::new(
                                 reader,
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(rice, buf, num_pixels as usize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -693,7 +680,7 @@ where
             let row_idx = self.row_it.get_row_idx();
 
             // Update the tile compressed currently decompressed
-            let num_pixels = self.z_tile.iter().product::<usize>() as u64;
+            let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
             self.desc.n_pixels = num_pixels;
             self.desc.remaining_pixels = num_pixels;
 
@@ -769,17 +756,17 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let mut gz = GzDecoder::new(reader);
-                            gz.read_exact(&mut buf[..])?;
+                            let gz = GzDecoder::new(reader);
+                            read_tile(gz, buf, num_pixels as usize)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
-                            let mut rice = RICEDecoder::<_, i32>::new(
+                            let rice = RICEDecoder::<_, i32>::new(
                                 reader,
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            rice.read_exact(&mut buf[..])?;
+                            read_tile(rice, buf, num_pixels as usize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
-- 
2.43.0


From ed83f49934cbb28cde193812b11ab4656f9482fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:25 +0000
Subject: [PATCH 10/35] fix: do not return the pixels of a tile that failed to
 decompress

After an error the pixel iterators could be polled again and were giving the
content of the decompression buffer, i.e. the pixels of a previous tile, and
then the rows read from an unknown location.
---
 src/hdu/data/bintable/data.rs                 |  4 +++
 src/hdu/data/bintable/row.rs                  |  4 +++
 .../data/bintable/tile_compressed/pixels.rs   | 35 +++++++++++++------
 3 files changed, 33 insertions(+), 10 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index eed7248..cda6716 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -246,6 +246,10 @@ impl<R> TableData<R> {
         self.heap = heap;
     }
 
+    pub(crate) fn set_failed(&mut self, failed: bool) {
+        self.failed = failed;
+    }
+
     pub(crate) fn get_ctx(&self) -> &BinTable {
         &self.ctx
     }
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index c797cf6..8265547 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -30,6 +30,10 @@ impl<R> TableRowData<R> {
         self.data.get_reader()
     }
 
+    pub(crate) fn set_failed(&mut self, failed: bool) {
+        self.data.set_failed(failed)
+    }
+
     /// Get an iterator over the binary table without interpreting its content as
     /// a compressed tile.
     ///
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 8896bc5..ab95208 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -179,8 +179,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
 
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
@@ -224,6 +222,10 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            // The tile has been decompressed
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -279,8 +281,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
@@ -323,6 +323,10 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            // The tile has been decompressed
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -385,8 +389,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
             // We jump to the heap at the position of the tile
             // Then we decomp the tile and store it into out internal buf
             // Finally we go back to the main data table location before jumping to the heap
@@ -429,6 +431,10 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            // The tile has been decompressed
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -503,8 +509,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
 
             let TileDesc {
                 keywords:
@@ -600,6 +604,10 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            // The tile has been decompressed
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -681,8 +689,6 @@ where
 
             // Update the tile compressed currently decompressed
             let num_pixels = num_pixels_from_row_idx(&self.z_tile, &self.z_naxis, row_idx - 1)?;
-            self.desc.n_pixels = num_pixels;
-            self.desc.remaining_pixels = num_pixels;
 
             let TileDesc {
                 keywords:
@@ -778,6 +784,10 @@ where
                 SeekFrom::Current(off),
             )
             .ok()?;
+
+            // The tile has been decompressed
+            self.desc.n_pixels = num_pixels;
+            self.desc.remaining_pixels = num_pixels;
         }
 
         // There is remaining pixels inside our buffer, we simply return the current one
@@ -840,12 +850,17 @@ where
     where
         F: FnOnce(&mut Self) -> Result<(), Error>,
     {
+        // If anything goes wrong the location of the reader is not known anymore
+        self.row_it.set_failed(true);
+
         let old_pos = SeekFrom::Start(self.get_reader().stream_position()?);
 
         self.get_reader().seek(pos)?;
         f(self)?;
         let _ = self.get_reader().seek(old_pos)?;
 
+        self.row_it.set_failed(false);
+
         Ok(())
     }
 }
-- 
2.43.0


From ef8a6d978a770ea2a8f43c199cc46bb08665ec51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:25 +0000
Subject: [PATCH 11/35] fix: check for the columns a tile compressed image
 needs

The types of the COMPRESSED_DATA, ZSCALE, ZZERO and ZBLANK columns were supposed
to be the good ones and their presence too (a floating point image compressed
without quantization does not have the ZSCALE, ZZERO ones): it panicked if not.
Such a table is now seen as an usual binary table, as it is the case for the
compressions that are not supported.
---
 src/hdu/header/extension/bintable.rs | 37 ++++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 58c538a..b14122c 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -483,7 +483,44 @@ impl Xtension for BinTable {
                 data_compressed_idx,
             };
 
+            // The columns needed to decompress the tiles must be present, with the types we can read
+            let has_valid_columns = {
+                let is_valid = |ttype: &str, is_valid_ty: fn(&TFormType) -> bool| {
+                    find_field_by_ttype(&ttypes, ttype).map(|idx| is_valid_ty(&tforms[idx]))
+                };
+                let is_float = |tform: &TFormType| {
+                    matches!(tform, TFormType::E { repeat_count } | TFormType::D { repeat_count } if *repeat_count > 0)
+                };
+                let is_integer = |tform: &TFormType| {
+                    matches!(
+                        tform,
+                        TFormType::B { repeat_count }
+                        | TFormType::I { repeat_count }
+                        | TFormType::J { repeat_count }
+                        | TFormType::K { repeat_count } if *repeat_count > 0
+                    )
+                };
+                let is_array_desc = matches!(
+                    tforms[data_compressed_idx],
+                    TFormType::P { .. } | TFormType::Q { .. }
+                );
+
+                match z_bitpix {
+                    Bitpix::F32 | Bitpix::F64 => {
+                        is_array_desc
+                            && is_valid("ZSCALE", is_float).unwrap_or(false)
+                            && is_valid("ZZERO", is_float).unwrap_or(false)
+                            && is_valid("ZBLANK", is_integer).unwrap_or(true)
+                    }
+                    _ => is_array_desc,
+                }
+            };
+
             match (z_cmp_type, z_bitpix) {
+                _ if !has_valid_columns => {
+                    warn!("The columns of the tile compressed image are missing or not supported");
+                    None
+                }
                 (ZCmpType::Hcompress1, _) => {
                     warn!("Hcompress compression not supported");
                     None
-- 
2.43.0


From 6198a3a0b855b1837973505db1439ad65b0da492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:51 +0000
Subject: [PATCH 12/35] fix: find the tile columns among the values of a row

The indices of the COMPRESSED_DATA, ZSCALE, ZZERO and ZBLANK columns were used
to index the values of a row although a column does not hold one value only
(repeat count > 1 or null).
---
 src/hdu/data/bintable/tile_compressed/mod.rs  | 10 +++++++
 .../data/bintable/tile_compressed/pixels.rs   |  5 +++-
 src/hdu/header/extension/bintable.rs          | 28 +++++++++++++++++++
 3 files changed, 42 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index 7668cac..e031ab2 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -192,6 +192,11 @@ impl Keywords for F32Keywords {
             });
         // If no ZBLANK colum has been found then check the header keywords (ZBLANK for float, BLANK for integer)
 
+        // These are looked up among the values of a row
+        let z_scale_idx = ctx.value_idx_in_row(z_scale_idx);
+        let z_zero_idx = ctx.value_idx_in_row(z_zero_idx);
+        let z_blank_idx = z_blank_idx.map(|idx| ctx.value_idx_in_row(idx));
+
         Self {
             scale: 1.0,
             zero: 0.0,
@@ -234,6 +239,11 @@ impl Keywords for F64Keywords {
             });
         // If no ZBLANK colum has been found then check the header keywords (ZBLANK for float, BLANK for integer)
 
+        // These are looked up among the values of a row
+        let z_scale_idx = ctx.value_idx_in_row(z_scale_idx);
+        let z_zero_idx = ctx.value_idx_in_row(z_zero_idx);
+        let z_blank_idx = z_blank_idx.map(|idx| ctx.value_idx_in_row(idx));
+
         Self {
             scale: 1.0,
             zero: 0.0,
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index ab95208..17f379e 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -107,7 +107,10 @@ where
 
             desc,
 
-            data_compressed_idx: *data_compressed_idx,
+            // index of the value in the row
+            data_compressed_idx: header
+                .get_xtension()
+                .value_idx_in_row(*data_compressed_idx),
             z_naxis: z_naxisn.clone(),
             z_tile: z_tilen.clone(),
             z_cmp_type: *z_cmp_type,
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index b14122c..b4321fc 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -89,6 +89,14 @@ impl BinTable {
         find_field_by_ttype(&self.ttypes, ttype)
     }
 
+    /// Returns the index, among all the values of a row, of the first value of a field
+    pub(crate) fn value_idx_in_row(&self, field_idx: usize) -> usize {
+        self.tforms[..field_idx]
+            .iter()
+            .map(|tform| tform.num_values_field())
+            .sum()
+    }
+
     pub fn get_z_image(&self) -> &Option<TileCompressedImage> {
         &self.z_image
     }
@@ -821,6 +829,26 @@ impl TFormType {
         }
     }
 
+    /// Number of values that are read for that field when the heap is not read
+    fn num_values_field(&self) -> usize {
+        match self {
+            // Bits are read per byte
+            TFormType::X { repeat_count } => repeat_count.div_ceil(8),
+            TFormType::L { repeat_count }
+            | TFormType::B { repeat_count }
+            | TFormType::I { repeat_count }
+            | TFormType::J { repeat_count }
+            | TFormType::K { repeat_count }
+            | TFormType::A { repeat_count }
+            | TFormType::E { repeat_count }
+            | TFormType::D { repeat_count }
+            | TFormType::C { repeat_count }
+            | TFormType::M { repeat_count } => *repeat_count,
+            // Only the descriptor is read
+            TFormType::P { .. } | TFormType::Q { .. } => 1,
+        }
+    }
+
     pub(crate) fn num_bytes_field(&self) -> usize {
         self.num_bits_field().div_ceil(8)
     }
-- 
2.43.0


From d995a2be4271e124988a9d0d5851633c9931447f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:03:31 +0000
Subject: [PATCH 13/35] fix: use the dithering sequence of the tiled image
 convention

The seed of a tile was the one of the next tile, a blank pixel did not use its
random value, the sequence restarted at 0 instead of from the next seed once
the 10000 values have been used, and a negative ZDITHER0 panicked.
---
 src/hdu/data/bintable/tile_compressed/mod.rs  | 91 +++++++++++++------
 .../data/bintable/tile_compressed/pixels.rs   | 31 +------
 2 files changed, 64 insertions(+), 58 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/mod.rs b/src/hdu/data/bintable/tile_compressed/mod.rs
index e031ab2..5f346ca 100644
--- a/src/hdu/data/bintable/tile_compressed/mod.rs
+++ b/src/hdu/data/bintable/tile_compressed/mod.rs
@@ -93,6 +93,9 @@ pub struct F64Keywords {
 impl F64Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
+        // There is one random value per pixel, blank ones included
+        let ri = self.quantiz.next_random();
+
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
@@ -100,26 +103,16 @@ impl F64Keywords {
             }
         }
 
-        match &mut self.quantiz {
+        match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
-                let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
-
+            Quantiz::SubtractiveDither1 { .. } => {
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { .. } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
-                    let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
@@ -130,6 +123,9 @@ impl F64Keywords {
 impl F32Keywords {
     /// Unquantize the integer decoded value to the real floating point value
     fn unquantize(&mut self, value: i32) -> f32 {
+        // There is one random value per pixel, blank ones included
+        let ri = self.quantiz.next_random();
+
         // map the NaN if value corresponds to BLANK
         if let Some(z_blank) = self.z_blank {
             if z_blank == value {
@@ -137,26 +133,16 @@ impl F32Keywords {
             }
         }
 
-        match &mut self.quantiz {
+        match &self.quantiz {
             Quantiz::NoDither => (value as f32) * self.scale + self.zero,
-            Quantiz::SubtractiveDither1 { i1 } => {
-                let ri = RAND_VALUES[*i1];
-                // increment i1 for the next pixel
-                *i1 = (*i1 + 1) % N_RANDOM;
-
+            Quantiz::SubtractiveDither1 { .. } => {
                 ((value as f32) - ri + 0.5) * self.scale + self.zero
             }
-            Quantiz::SubtractiveDither2 { i1 } => {
+            Quantiz::SubtractiveDither2 { .. } => {
                 // FIXME: i32::MIN is -2147483648 !
                 if value == -2147483647 {
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     0.0
                 } else {
-                    let ri = RAND_VALUES[*i1];
-                    // increment i1 for the next pixel
-                    *i1 = (*i1 + 1) % N_RANDOM;
-
                     ((value as f32) - ri + 0.5) * self.scale + self.zero
                 }
             }
@@ -206,7 +192,7 @@ impl Keywords for F32Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -253,7 +239,7 @@ impl Keywords for F64Keywords {
             z_blank,
             quantiz: Quantiz::NoDither,
             z_quantiz: z_quantiz.clone().unwrap_or(ZQuantiz::NoDither),
-            z_dither_0: z_dither_0.unwrap_or(0),
+            z_dither_0: z_dither_0.unwrap_or(1),
         }
     }
 }
@@ -306,8 +292,53 @@ impl Keywords for I32Keywords {
 #[derive(Debug)]
 enum Quantiz {
     NoDither,
-    SubtractiveDither1 { i1: usize },
-    SubtractiveDither2 { i1: usize },
+    SubtractiveDither1 { i0: usize, i1: usize },
+    SubtractiveDither2 { i0: usize, i1: usize },
+}
+
+/// Index of the first random value to use when i0 is the index of the seed
+fn first_random_idx(i0: usize) -> usize {
+    (RAND_VALUES[i0] * 500.0).floor() as usize
+}
+
+impl Quantiz {
+    /// Set up the quantization for a new tile
+    ///
+    /// # Params
+    ///
+    /// * `row_idx` - The row of the tile in the table, starting at 1
+    fn new(z_quantiz: &ZQuantiz, z_dither_0: i64, row_idx: usize) -> Self {
+        let n_random = N_RANDOM as i64;
+        // The seed of the first row is ZDITHER0 which ranges from 1 to 10000
+        let i0 = (z_dither_0.rem_euclid(n_random) + row_idx as i64 - 2).rem_euclid(n_random);
+        let i0 = i0 as usize;
+        let i1 = first_random_idx(i0);
+
+        match z_quantiz {
+            ZQuantiz::NoDither => Self::NoDither,
+            ZQuantiz::SubtractiveDither1 => Self::SubtractiveDither1 { i0, i1 },
+            ZQuantiz::SubtractiveDither2 => Self::SubtractiveDither2 { i0, i1 },
+        }
+    }
+
+    /// Get the random value of the current pixel and go to the next one
+    fn next_random(&mut self) -> f32 {
+        match self {
+            Self::NoDither => 0.0,
+            Self::SubtractiveDither1 { i0, i1 } | Self::SubtractiveDither2 { i0, i1 } => {
+                let ri = RAND_VALUES[*i1];
+
+                *i1 += 1;
+                if *i1 == N_RANDOM {
+                    // the sequence starts again from the next seed
+                    *i0 = (*i0 + 1) % N_RANDOM;
+                    *i1 = first_random_idx(*i0);
+                }
+
+                ri
+            }
+        }
+    }
 }
 
 #[cfg(test)]
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 17f379e..101399b 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -1,13 +1,12 @@
 use flate2::read::GzDecoder;
 
 use super::super::DataValue;
-use super::dithering::RAND_VALUES;
 use super::rice::RICEDecoder;
 use super::{
     F32Keywords, F64Keywords, I16Keywords, I32Keywords, Keywords, Quantiz, TileDesc, U8Keywords,
 };
 use crate::error::Error;
-use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType, ZQuantiz};
+use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
 use std::io::{Read, Seek, SeekFrom};
@@ -529,19 +528,7 @@ where
                 ..
             } = &mut self.desc;
 
-            *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
-                _ => Quantiz::NoDither,
-            };
+            *quantiz = Quantiz::new(z_quantiz, *z_dither_0, row_idx);
 
             *scale = match row_data[*z_scale_idx] {
                 DataValue::Float { value, .. } => value,
@@ -709,19 +696,7 @@ where
                 ..
             } = &mut self.desc;
 
-            *quantiz = match z_quantiz {
-                ZQuantiz::SubtractiveDither1 => {
-                    let i0 = (row_idx - 1 + ((*z_dither_0) as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither1 { i1 }
-                }
-                ZQuantiz::SubtractiveDither2 => {
-                    let i0 = (row_idx - 1 + (*z_dither_0 as usize)) % 10000;
-                    let i1 = (RAND_VALUES[i0] * 500.0).floor() as usize;
-                    Quantiz::SubtractiveDither2 { i1 }
-                }
-                _ => Quantiz::NoDither,
-            };
+            *quantiz = Quantiz::new(z_quantiz, *z_dither_0, row_idx);
 
             *scale = match row_data[*z_scale_idx] {
                 DataValue::Float { value, .. } => value,
-- 
2.43.0


From 309b96b4e4bb9a3b1ffece64ebee5dadf83e51b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:04:17 +0000
Subject: [PATCH 14/35] fix: deserialize the enumerations from string values

ZQUANTIZ was never recognized, hence a dithering never applied.
---
 src/card.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/card.rs b/src/card.rs
index c8205bc..154df49 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -495,9 +495,24 @@ impl<'de> Deserializer<'de> for &'de Value {
         }
     }
 
+    fn deserialize_enum<V>(
+        self,
+        _name: &'static str,
+        _variants: &'static [&'static str],
+        visitor: V,
+    ) -> Result<V::Value, Self::Error>
+    where
+        V: serde::de::Visitor<'de>,
+    {
+        match self {
+            Value::String { value, .. } => visitor.visit_enum(value.as_str().into_deserializer()),
+            _ => self.deserialize_any(visitor),
+        }
+    }
+
     forward_to_deserialize_any! {
         bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf unit
-        seq tuple tuple_struct map struct enum identifier ignored_any
+        seq tuple tuple_struct map struct identifier ignored_any
         newtype_struct unit_struct
     }
 }
-- 
2.43.0


From 9f7f9afaf8766d9c7ae3bd8e23379f0299b80f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:09 +0000
Subject: [PATCH 15/35] fix: array descriptors can hold any number

The number of bytes and the location of an array were computed without looking
for an overflow.
---
 src/hdu/data/bintable/data.rs                 | 25 ++++++++++-----
 .../data/bintable/tile_compressed/pixels.rs   | 31 ++++++++++---------
 2 files changed, 33 insertions(+), 23 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index cda6716..ff23faa 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -3,6 +3,7 @@ use crate::hdu::header::extension::bintable::{
     TForm, VariableArrayTy, A, B, C, D, E, I, J, K, L, M, P, Q, X,
 };
 use crate::hdu::header::{Header, Xtension};
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 use super::row::TableRowData;
@@ -390,14 +391,27 @@ where
             // We are already in the heap, we do nothing
             DataReaderState::HEAP { .. } => (),
             DataReaderState::MainTable => {
+                // The descriptor can be wrong
+                let too_big = Error::StaticError("The array is out of the heap");
+                let num_bytes_to_read = match ty {
+                    // an array of bits is packed in bytes
+                    VariableArrayTy::X => Some(n_elems.div_ceil(8)),
+                    _ => n_elems.checked_mul(t_byte_size),
+                };
+                let (Some(num_bytes_to_read), Ok(byte_offset)) =
+                    (num_bytes_to_read, i64::try_from(byte_offset))
+                else {
+                    return Err(too_big);
+                };
+
                 // Move to the HEAP
                 let off =
                     // go back to the beginning of the main table data block
                     - (self.byte_offset as i64)
                     // from the beginning of the main table go to the beginning of the heap
-                    + self.ctx.theap as i64
-                    // from the beginning of the heap go to the start of the array
-                    + byte_offset as i64;
+                    + self.ctx.theap as i64;
+                // from the beginning of the heap go to the start of the array
+                let off = off.checked_add(byte_offset).ok_or(too_big)?;
 
                 // Get the current location used to go back to the main table
                 let pos = SeekFrom::Start(self.reader.stream_position()?);
@@ -405,11 +419,6 @@ where
                 // Go to the HEAP
                 self.reader.seek_relative(off)?;
 
-                let num_bytes_to_read = match ty {
-                    // an array of bits is packed in bytes
-                    VariableArrayTy::X => n_elems.div_ceil(8),
-                    _ => n_elems * t_byte_size,
-                };
                 self.state = DataReaderState::HEAP {
                     ty,
                     main_table_pos: pos,
diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 101399b..1adcdcf 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -9,6 +9,7 @@ use crate::error::Error;
 use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage, ZCmpType};
 use crate::hdu::header::{Bitpix, Header};
 use crate::{TableData, TableRowData};
+use std::convert::TryFrom;
 use std::io::{Read, Seek, SeekFrom};
 
 #[derive(Debug)]
@@ -190,9 +191,9 @@ where
                 // go back to the beginning of the main table data block
                 - (main_data_table_offset as i64)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + ctx.theap as i64;
+            // from the beginning of the heap go to the start of the array
+            let off = off.checked_add(i64::try_from(byte_offset).ok()?)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -291,9 +292,9 @@ where
                 // go back to the beginning of the main table data block
                 - (main_data_table_offset as i64)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + ctx.theap as i64;
+            // from the beginning of the heap go to the start of the array
+            let off = off.checked_add(i64::try_from(byte_offset).ok()?)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -399,9 +400,9 @@ where
                 // go back to the beginning of the main table data block
                 - (main_data_table_offset as i64)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + ctx.theap as i64;
+            // from the beginning of the heap go to the start of the array
+            let off = off.checked_add(i64::try_from(byte_offset).ok()?)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -560,9 +561,9 @@ where
                 // go back to the beginning of the main table data block
                 - (main_data_table_offset as i64)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + ctx.theap as i64;
+            // from the beginning of the heap go to the start of the array
+            let off = off.checked_add(i64::try_from(byte_offset).ok()?)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
@@ -728,9 +729,9 @@ where
                 // go back to the beginning of the main table data block
                 - (main_data_table_offset as i64)
                 // from the beginning of the main table go to the beginning of the heap
-                + ctx.theap as i64
-                // from the beginning of the heap go to the start of the array
-                + byte_offset as i64;
+                + ctx.theap as i64;
+            // from the beginning of the heap go to the start of the array
+            let off = off.checked_add(i64::try_from(byte_offset).ok()?)?;
             self.jump_to_location(
                 |s| {
                     let It { buf, row_it, .. } = s;
-- 
2.43.0


From 7b24925f75da333d2ad930f8a52403c065b85181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 16/35] fix: stop iterating over the pixels once an error has
 been met

The following pixels, iterated over or directly accessed to, were read from a
wrong location.
---
 src/hdu/data/iter.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/hdu/data/iter.rs b/src/hdu/data/iter.rs
index ccea367..2765c79 100644
--- a/src/hdu/data/iter.rs
+++ b/src/hdu/data/iter.rs
@@ -53,6 +53,8 @@ pub struct It<R, T> {
     num_items: usize,
     /// Number of item read
     cur_idx: usize,
+    /// Tells if reading an item failed. The location of the reader is not known anymore
+    failed: bool,
     /// The type of element read from the reader
     _t: std::marker::PhantomData<T>,
 }
@@ -98,6 +100,7 @@ where
         Self {
             reader,
             cur_idx: 0,
+            failed: false,
             num_items,
             _t: std::marker::PhantomData,
         }
@@ -112,10 +115,11 @@ where
     type Item = T;
 
     fn next(&mut self) -> Option<Self::Item> {
-        if self.cur_idx == self.num_items {
+        if self.failed || self.cur_idx == self.num_items {
             None
         } else {
             let byte = T::read_be(&mut self.reader);
+            self.failed = byte.is_err();
             self.cur_idx += 1;
 
             byte.ok()
@@ -137,12 +141,16 @@ where
     pub fn read_value(&mut self, idx: usize) -> Result<T, Error> {
         if idx >= self.num_items {
             Err(Error::StaticError("Value to retrieve is out of bounds"))
+        } else if self.failed {
+            Err(Error::StaticError("A previous reading failed"))
         } else {
             // Get the position of the reader since the start of the stream
             let t_bytes = std::mem::size_of::<T>() as i64;
             let off = (idx as i64 - self.cur_idx as i64) * t_bytes;
 
+            self.failed = true;
             self.reader.seek_relative(off)?;
+            self.failed = false;
             self.cur_idx = idx;
 
             self.next()
-- 
2.43.0


From 5e1cd4741c2f1f8c24787d4c30ef0573d70bb736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:42 +0000
Subject: [PATCH 17/35] fix: access the raw bytes of a truncated file

It panicked if the data unit was not totally in the buffer, give what is there
instead.
---
 src/hdu/data/bintable/data.rs | 5 ++++-
 src/hdu/data/image.rs         | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index ff23faa..3b81e6a 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -172,7 +172,10 @@ where
 
         let s = self.start_pos as usize;
         let e = s + (self.ctx.get_num_bytes_data_block() as usize);
-        &raw_bytes[s..e]
+
+        // the buffer may be truncated
+        let e = e.min(raw_bytes.len());
+        &raw_bytes[s.min(e)..e]
     }
 }
 
diff --git a/src/hdu/data/image.rs b/src/hdu/data/image.rs
index 9b5ee0a..1da47e0 100644
--- a/src/hdu/data/image.rs
+++ b/src/hdu/data/image.rs
@@ -98,7 +98,10 @@ where
 
         let s = self.start_pos as usize;
         let e = s + (self.num_bytes_data_block as usize);
-        &raw_bytes[s..e]
+
+        // the buffer may be truncated
+        let e = e.min(raw_bytes.len());
+        &raw_bytes[s.min(e)..e]
     }
 }
 
-- 
2.43.0


From 3f1a7b78b09ea0842a74dba11adf6272a2f05c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:06 +0000
Subject: [PATCH 18/35] fix: stop iterating over the rows once an error has
 been met

An empty row was returned for the one that failed.
---
 src/hdu/data/bintable/data.rs | 4 ++++
 src/hdu/data/bintable/row.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index 3b81e6a..f494f89 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -250,6 +250,10 @@ impl<R> TableData<R> {
         self.heap = heap;
     }
 
+    pub(crate) fn has_failed(&self) -> bool {
+        self.failed
+    }
+
     pub(crate) fn set_failed(&mut self, failed: bool) {
         self.failed = failed;
     }
diff --git a/src/hdu/data/bintable/row.rs b/src/hdu/data/bintable/row.rs
index 8265547..1d3fa3e 100644
--- a/src/hdu/data/bintable/row.rs
+++ b/src/hdu/data/bintable/row.rs
@@ -52,6 +52,10 @@ where
     type Item = Box<[DataValue]>;
 
     fn next(&mut self) -> Option<Self::Item> {
+        if self.data.has_failed() {
+            return None;
+        }
+
         let mut row_data = vec![];
 
         while self.data.row_idx == self.idx_row {
-- 
2.43.0


From aaf1dd436840a3fa446e93912f900e1d9b1cece4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:39 +0000
Subject: [PATCH 19/35] fix: a value made of a single quote is not a string

It panicked when looking for the text between the quotes.
---
 src/card.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index 154df49..d256f97 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -174,7 +174,7 @@ impl TryFrom<&CardBuf> for Card {
 
 fn parse_extension(buf: &[u8; 80]) -> Result<Card, Error> {
     let (value, comment) = split_value_and_comment(&buf[10..])?;
-    if value.starts_with("'") && value.ends_with("'") {
+    if value.starts_with("'") && value.ends_with("'") && value.len() > 1 {
         let end = value.len() - 1;
         let x = value[1..end].trim_ascii().parse()?;
         Ok(Card::Xtension { x, comment })
@@ -275,7 +275,8 @@ fn parse_number(v: String, c: Option<String>) -> Result<Value, Error> {
 /// trimmed to one space.
 fn parse_string(s: String) -> Result<String, Error> {
     let start_quote = s.starts_with("'");
-    let end_quote = s.ends_with("'");
+    // a lone quote is the start one
+    let end_quote = s.ends_with("'") && s.len() > 1;
     let value: &str = match (start_quote, end_quote) {
         (true, true) => &s[1..s.len() - 1], // string enclosed in single quotes
         (false, false) => &s,               // comment string has no quotes
-- 
2.43.0


From 556a2a5a896d48bb38d184f46aedd98bbf541842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:30 +0000
Subject: [PATCH 20/35] fix: header sizes can be any number

The sizes given by NAXISn, PCOUNT and the TFORMn were multiplied without looking
for an overflow, and the number of fields or axis used to allocate memory or to
loop over without checking if they are sound.
---
 src/hdu/header/extension/asciitable.rs |  2 ++
 src/hdu/header/extension/bintable.rs   | 13 +++++++++----
 src/hdu/header/extension/image.rs      |  5 ++++-
 src/hdu/header/extension/mod.rs        | 10 ++++++++++
 src/hdu/header/mod.rs                  |  9 ++++++++-
 5 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/src/hdu/header/extension/asciitable.rs b/src/hdu/header/extension/asciitable.rs
index d981f47..27f5801 100644
--- a/src/hdu/header/extension/asciitable.rs
+++ b/src/hdu/header/extension/asciitable.rs
@@ -8,6 +8,7 @@ use crate::error::Error;
 use crate::hdu::header::Bitpix;
 
 use crate::hdu::header::ValueMap;
+use crate::hdu::header::extension::check_num_bytes;
 use crate::hdu::header::Xtension;
 use serde::Deserialize;
 
@@ -114,6 +115,7 @@ impl Xtension for AsciiTable {
         // NAXIS1
         let naxis1 = values.check_for_naxisi(1)?;
         let naxis2 = values.check_for_naxisi(2)?;
+        check_num_bytes([naxis1, naxis2])?;
 
         // PCOUNT
         let pcount = values.check_for_pcount()?;
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index b4321fc..4cfd03a 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -6,7 +6,7 @@ use crate::hdu::Value;
 use async_trait::async_trait;
 use serde::Serialize;
 
-use super::Xtension;
+use super::{check_num_bytes, Xtension};
 
 use crate::hdu::header::ValueMap;
 use log::warn;
@@ -217,6 +217,9 @@ impl Xtension for BinTable {
         // PCOUNT
         let pcount = values.check_for_pcount()?;
 
+        check_num_bytes([naxis1, naxis2])?;
+        check_num_bytes([pcount])?;
+
         // GCOUNT
         let gcount = values.check_for_gcount()?;
         if gcount != 1 {
@@ -296,8 +299,8 @@ impl Xtension for BinTable {
         // in the first row of the table, and the tile containing the last pixel in the image appears in the
         // last row of the binary table.
         let (z_naxisn, z_tilen) = if let Some(z_naxis) = z_naxis {
-            let mut z_naxisn = Vec::with_capacity(z_naxis);
-            let mut z_tilen = Vec::with_capacity(z_naxis);
+            let mut z_naxisn = Vec::new();
+            let mut z_tilen = Vec::new();
 
             for i in 1..=z_naxis {
                 let znaxisn = if let Ok(value) = values.get_parsed(&format!("ZNAXIS{i}")) {
@@ -377,6 +380,8 @@ impl Xtension for BinTable {
 
                 let num_count_digits = count.len();
                 let repeat_count = count.parse::<usize>().unwrap_or(1);
+                // The number of bits of the field must not overflow
+                let repeat_count = repeat_count.min(usize::MAX / M::BITS_SIZE);
                 // If the field type is not found, discard it as well
                 let Some(field_ty) = tform.chars().nth(num_count_digits) else {
                     warn!("Cannot extract the field type of {tform_kw}");
@@ -558,7 +563,7 @@ impl Xtension for BinTable {
         let num_bytes_per_row = tforms
             .iter()
             .map(|tform| tform.num_bytes_field() as u64)
-            .sum::<u64>();
+            .fold(0_u64, |acc, num_bytes| acc.saturating_add(num_bytes));
 
         if num_bytes_per_row != naxis1 {
             return Err(Error::StaticError("BinTable NAXIS1 and TFORMS does not give the same amount of bytes the table should have per row."));
diff --git a/src/hdu/header/extension/image.rs b/src/hdu/header/extension/image.rs
index 66ca7bc..972b2c9 100644
--- a/src/hdu/header/extension/image.rs
+++ b/src/hdu/header/extension/image.rs
@@ -2,6 +2,7 @@ use async_trait::async_trait;
 use serde::Serialize;
 
 use crate::error::Error;
+use crate::hdu::header::extension::check_num_bytes;
 use crate::hdu::header::Bitpix;
 
 use crate::hdu::header::ValueMap;
@@ -49,7 +50,9 @@ impl Xtension for Image {
         // The size of each NAXIS
         let naxisn = (1..=naxis)
             .map(|naxis_i| values.check_for_naxisi(naxis_i))
-            .collect::<Result<_, _>>()?;
+            .collect::<Result<Box<[u64]>, _>>()?;
+
+        check_num_bytes(std::iter::once(bitpix.byte_size() as u64).chain(naxisn.iter().copied()))?;
 
         Ok(Image { bitpix, naxisn })
     }
diff --git a/src/hdu/header/extension/mod.rs b/src/hdu/header/extension/mod.rs
index 7942b1d..5c36759 100644
--- a/src/hdu/header/extension/mod.rs
+++ b/src/hdu/header/extension/mod.rs
@@ -46,6 +46,16 @@ impl FromStr for XtensionType {
     }
 }
 
+/// Check that the number of bytes of a data unit, i.e. the product of some sizes found in the header,
+/// can be represented with a margin to compute positions in the file
+pub(crate) fn check_num_bytes(sizes: impl IntoIterator<Item = u64>) -> Result<u64, Error> {
+    sizes
+        .into_iter()
+        .try_fold(1_u64, |acc, size| acc.checked_mul(size))
+        .filter(|num_bytes| *num_bytes <= (i64::MAX / 4) as u64)
+        .ok_or(Error::StaticError("The size of the data unit is too big"))
+}
+
 #[async_trait(?Send)]
 pub trait Xtension {
     /// Return the total size in bytes of the data area
diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 69054d9..9722b67 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -154,7 +154,14 @@ impl ValueMap {
     }
 
     fn check_for_tfields(&self) -> Result<usize, Error> {
-        self.get_parsed("TFIELDS")
+        let tfields = self.get_parsed("TFIELDS")?;
+        if tfields > 999 {
+            return Err(Error::StaticError(
+                "The maximum permissible value of TFIELDS is 999",
+            ));
+        }
+
+        Ok(tfields)
     }
 }
 
-- 
2.43.0


From be30d13534f18220e5268aaf07e050638e485db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:09:58 +0000
Subject: [PATCH 21/35] fix: do not allocate a tile from the size given in the
 header only

A header with a wrong ZTILEn made the process run out of memory, or panic if the
product of them overflows.
---
 .../data/bintable/tile_compressed/pixels.rs   | 52 +++++++++++--------
 1 file changed, 31 insertions(+), 21 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index 1adcdcf..d1822a1 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -83,19 +83,14 @@ where
             data_compressed_idx,
             ..
         } = config;
-        // Allocation of a buffer at init of the iterator that is the size of the biggest tiles we can found
-        // on the tile compressed image. This is simply given by the ZTILEi keyword.
-        // Some tiles found on the border of the image can be smaller
-        let n_elems_max = z_tilen.iter().product::<usize>();
-
         // FIXME
         // A little precision. The gzdecoder from flate2 seems to unzip data in a stream of u32 i.e. even if the type of data
         // to uncompress is byte or short, the result will be cast in a u32. I thus allocate for gzip compression, a buffer of
         // n_elems_max * size_in_bytes of u32.
         // It seems to be the same for RICE, so the latter rice decompression code is called on i32
-        let num_bytes_max_tile = n_elems_max * std::mem::size_of::<u32>();
-
-        let buf = vec![0_u8; num_bytes_max_tile];
+        //
+        // It is allocated when decompressing the tiles
+        let buf = vec![];
 
         let desc = TileDesc::new(header, config);
 
@@ -145,9 +140,24 @@ fn num_pixels_from_row_idx(z_tile: &[usize], z_naxis: &[u64], n: usize) -> Optio
 }
 
 /// Fill the buffer with the decompressed pixels of a tile
-fn read_tile<R: Read>(mut reader: R, buf: &mut Vec<u8>, num_pixels: usize) -> Result<(), Error> {
-    buf.resize(num_pixels * std::mem::size_of::<u32>(), 0);
-    reader.read_exact(&mut buf[..])?;
+///
+/// The size of the tile comes from the header, so the buffer is enlarged as long as there are pixels to read.
+/// `blocksize` is the number of pixels that must be read together
+fn read_tile<R: Read>(
+    mut reader: R,
+    buf: &mut Vec<u8>,
+    num_pixels: usize,
+    blocksize: u8,
+) -> Result<(), Error> {
+    let num_bytes = num_pixels * std::mem::size_of::<u32>();
+    let num_bytes_chunk = (blocksize as usize).max(1) * 1024 * std::mem::size_of::<u32>();
+
+    buf.clear();
+    while buf.len() < num_bytes {
+        let start = buf.len();
+        buf.resize(num_bytes.min(start + num_bytes_chunk), 0);
+        reader.read_exact(&mut buf[start..])?;
+    }
 
     Ok(())
 }
@@ -204,7 +214,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize)?;
+                            read_tile(gz, buf, num_pixels as usize, 1)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -213,7 +223,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            read_tile(rice, buf, num_pixels as usize)?;
+                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -305,7 +315,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize)?;
+                            read_tile(gz, buf, num_pixels as usize, 1)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -314,7 +324,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            read_tile(rice, buf, num_pixels as usize)?;
+                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -413,7 +423,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize)?;
+                            read_tile(gz, buf, num_pixels as usize, 1)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -422,7 +432,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            read_tile(rice, buf, num_pixels as usize)?;
+                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -574,7 +584,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize)?;
+                            read_tile(gz, buf, num_pixels as usize, 1)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -583,7 +593,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            read_tile(rice, buf, num_pixels as usize)?;
+                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -742,7 +752,7 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize)?;
+                            read_tile(gz, buf, num_pixels as usize, 1)?;
                         }
                         // FIXME support bytepix
                         ZCmpType::Rice { blocksize, .. } => {
@@ -751,7 +761,7 @@ where
                                 blocksize as i32,
                                 num_pixels as i32,
                             );
-                            read_tile(rice, buf, num_pixels as usize)?;
+                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
-- 
2.43.0


From 2f662b941218949a6f763b28bfb790a6136cfed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:12:27 +0000
Subject: [PATCH 22/35] fix: fail to decode an image whose pixels are not all
 there

The decoder succeeded with null pixels in place of the ones that could not be
read, because of a truncated file or an I/O error.
---
 src/image_integration.rs | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/image_integration.rs b/src/image_integration.rs
index 50c56d1..2a09b54 100644
--- a/src/image_integration.rs
+++ b/src/image_integration.rs
@@ -315,17 +315,23 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
 
     fn read_image(mut self, buf: &mut [u8]) -> ImageResult<()> {
         let is_rgb = self.is_rgb;
+        // count the pixels because the iterators stop as soon as an error occurs
+        let num_pixels = u64::from(self.width)
+            * u64::from(self.height)
+            * if is_rgb { RGB_CHANNELS as u64 } else { 1 };
+        let mut num_pixels_read = 0_u64;
+        let count = &mut num_pixels_read;
         match self.hdu {
             HduImageKind::Image(hdu) => {
                 let scale = Scale::deserialize(hdu.get_header().into_deserializer())
                     .map_err(to_image_error)?;
                 match self.fits.get_data(&hdu).pixels() {
-                    Pixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                    Pixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                    Pixels::I32(it) => write_i32(buf, it, scale, is_rgb),
-                    Pixels::I64(it) => write_i64(buf, it, scale, is_rgb),
-                    Pixels::F32(it) => write_f32(buf, it, is_rgb),
-                    Pixels::F64(it) => write_f64(buf, it, is_rgb),
+                    Pixels::U8(it) => write_u8(buf, it.inspect(|_| *count += 1), scale, is_rgb),
+                    Pixels::I16(it) => write_i16(buf, it.inspect(|_| *count += 1), scale, is_rgb),
+                    Pixels::I32(it) => write_i32(buf, it.inspect(|_| *count += 1), scale, is_rgb),
+                    Pixels::I64(it) => write_i64(buf, it.inspect(|_| *count += 1), scale, is_rgb),
+                    Pixels::F32(it) => write_f32(buf, it.inspect(|_| *count += 1), is_rgb),
+                    Pixels::F64(it) => write_f64(buf, it.inspect(|_| *count += 1), is_rgb),
                 }
             }
             HduImageKind::TileCompressed(hdu) => {
@@ -333,12 +339,12 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
                     .map_err(to_image_error)?;
                 match self.fits.get_data(&hdu) {
                     BinaryTableData::TileCompressed(tc) => match tc {
-                        TcPixels::U8(it) => write_u8(buf, it, scale, is_rgb),
-                        TcPixels::I16(it) => write_i16(buf, it, scale, is_rgb),
-                        TcPixels::I32(it) => write_i32(buf, it, scale, is_rgb),
+                        TcPixels::U8(it) => write_u8(buf, it.inspect(|_| *count += 1), scale, is_rgb),
+                        TcPixels::I16(it) => write_i16(buf, it.inspect(|_| *count += 1), scale, is_rgb),
+                        TcPixels::I32(it) => write_i32(buf, it.inspect(|_| *count += 1), scale, is_rgb),
                         // Tile-compressed F32 and F64 iterators both yield f32
-                        TcPixels::F32(it) => write_f32(buf, it, is_rgb),
-                        TcPixels::F64(it) => write_f32(buf, it, is_rgb),
+                        TcPixels::F32(it) => write_f32(buf, it.inspect(|_| *count += 1), is_rgb),
+                        TcPixels::F64(it) => write_f32(buf, it.inspect(|_| *count += 1), is_rgb),
                     },
                     BinaryTableData::Table(_) => {
                         return Err(to_image_error(
@@ -348,6 +354,9 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
                 }
             }
         }
+        if num_pixels_read != num_pixels {
+            return Err(to_image_error("some pixels could not be read"));
+        }
         Ok(())
     }
 
-- 
2.43.0


From a452031501bb12a38ec6185e0601ceec92c4c826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:03 +0000
Subject: [PATCH 23/35] fix: put the pixels of the tiles where they belong in
 the decoded image

The pixels of a tile compressed image are given tile after tile, they were
written as if they were in the image order.
---
 src/image_integration.rs | 64 ++++++++++++++++++++++++++++++++++++----
 1 file changed, 58 insertions(+), 6 deletions(-)

diff --git a/src/image_integration.rs b/src/image_integration.rs
index 2a09b54..af70629 100644
--- a/src/image_integration.rs
+++ b/src/image_integration.rs
@@ -3,6 +3,7 @@ use std::fmt;
 use std::io::{Read, Seek, SeekFrom};
 use std::ops::DivAssign;
 use std::sync::Once;
+use std::vec;
 
 use image::error::{DecodingError, ImageFormatHint};
 use image::hooks::{register_decoding_hook, register_format_detection_hook, GenericReader};
@@ -16,7 +17,7 @@ use crate::fits::HDU as FitsHDU;
 use crate::hdu::data::bintable::data::BinaryTableData;
 use crate::hdu::data::bintable::tile_compressed::pixels::Pixels as TcPixels;
 use crate::hdu::data::image::Pixels;
-use crate::hdu::header::extension::bintable::BinTable;
+use crate::hdu::header::extension::bintable::{BinTable, TileCompressedImage};
 use crate::hdu::header::extension::image::Image as FitsImage;
 use crate::hdu::header::Bitpix;
 use crate::{Fits, HDU};
@@ -190,6 +191,39 @@ fn write_rgb<const P: usize>(buf: &mut [u8], mut iter: impl Iterator<Item = [u8;
     }
 }
 
+/// Reorder the pixels of a tile compressed image, given tile after tile, as they are in the image.
+///
+/// Nothing is returned if a pixel is missing
+fn untile<T>(mut iter: impl Iterator<Item = T>, image: &TileCompressedImage) -> vec::IntoIter<T>
+where
+    T: Copy + Default,
+{
+    let axis = |i: usize| image.z_naxisn.get(i).map_or(1, |&n| n as usize);
+    let tile = |i: usize| image.z_tilen.get(i).map_or(1, |&n| n.max(1));
+    // range of the pixels along an axis for the tile starting at `start`
+    let range = |i: usize, start: usize| start..axis(i).min(start.saturating_add(tile(i)));
+
+    let mut pixels = vec![T::default(); axis(0) * axis(1) * axis(2)];
+    for z0 in (0..axis(2)).step_by(tile(2)) {
+        for y0 in (0..axis(1)).step_by(tile(1)) {
+            for x0 in (0..axis(0)).step_by(tile(0)) {
+                for z in range(2, z0) {
+                    for y in range(1, y0) {
+                        for x in range(0, x0) {
+                            let Some(pixel) = iter.next() else {
+                                return vec![].into_iter();
+                            };
+                            pixels[(z * axis(1) + y) * axis(0) + x] = pixel;
+                        }
+                    }
+                }
+            }
+        }
+    }
+
+    pixels.into_iter()
+}
+
 /// Write `iter` of `P`-byte values sequentially into `buf` (`P` bytes per pixel).
 fn write_luma<const P: usize>(buf: &mut [u8], iter: impl Iterator<Item = [u8; P]>) {
     for (dst, src) in buf.as_chunks_mut::<P>().0.iter_mut().zip(iter) {
@@ -337,14 +371,32 @@ impl<'a> ImageDecoder for FitsDecoder<'a> {
             HduImageKind::TileCompressed(hdu) => {
                 let scale = Scale::deserialize(hdu.get_header().into_deserializer())
                     .map_err(to_image_error)?;
+                let Some(image) = hdu.get_header().get_xtension().get_z_image() else {
+                    return Err(to_image_error("tile-compressed HDU has no z_image"));
+                };
                 match self.fits.get_data(&hdu) {
                     BinaryTableData::TileCompressed(tc) => match tc {
-                        TcPixels::U8(it) => write_u8(buf, it.inspect(|_| *count += 1), scale, is_rgb),
-                        TcPixels::I16(it) => write_i16(buf, it.inspect(|_| *count += 1), scale, is_rgb),
-                        TcPixels::I32(it) => write_i32(buf, it.inspect(|_| *count += 1), scale, is_rgb),
+                        TcPixels::U8(it) => {
+                            let it = untile(it, image).inspect(|_| *count += 1);
+                            write_u8(buf, it, scale, is_rgb)
+                        }
+                        TcPixels::I16(it) => {
+                            let it = untile(it, image).inspect(|_| *count += 1);
+                            write_i16(buf, it, scale, is_rgb)
+                        }
+                        TcPixels::I32(it) => {
+                            let it = untile(it, image).inspect(|_| *count += 1);
+                            write_i32(buf, it, scale, is_rgb)
+                        }
                         // Tile-compressed F32 and F64 iterators both yield f32
-                        TcPixels::F32(it) => write_f32(buf, it.inspect(|_| *count += 1), is_rgb),
-                        TcPixels::F64(it) => write_f32(buf, it.inspect(|_| *count += 1), is_rgb),
+                        TcPixels::F32(it) => {
+                            let it = untile(it, image).inspect(|_| *count += 1);
+                            write_f32(buf, it, is_rgb)
+                        }
+                        TcPixels::F64(it) => {
+                            let it = untile(it, image).inspect(|_| *count += 1);
+                            write_f32(buf, it, is_rgb)
+                        }
                     },
                     BinaryTableData::Table(_) => {
                         return Err(to_image_error(
-- 
2.43.0


From 65c3a40d1a3f3ba33c4fcfbc68023f66bb44d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:14:21 +0000
Subject: [PATCH 24/35] fix: check for the SIMPLE keyword in the async reader

Any logical keyword set to true was accepted as the first card of a file.
---
 src/hdu/mod.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/hdu/mod.rs b/src/hdu/mod.rs
index 0d33c10..966acb9 100644
--- a/src/hdu/mod.rs
+++ b/src/hdu/mod.rs
@@ -260,13 +260,18 @@ impl AsyncHDU {
         let cards = consume_cards_async(reader, &mut num_bytes_read).await?;
 
         // Check for SIMPLE keyword
-        let _name: String = "SIMPLE".to_owned();
         if let Card::Value {
-            name: _name,
+            name,
             value: Logical { value: true, .. },
             ..
         } = &cards[0]
         {
+            if name != "SIMPLE" {
+                return Err(Error::DynamicError(format!(
+                    "Invalid FITS file: expected `SIMPLE` keyword in first card, found `{name}`"
+                )));
+            }
+
             Ok(AsyncHDU::Primary(
                 async_fits::AsyncHDU::<Image>::new(reader, &mut num_bytes_read, cards).await?,
             ))
-- 
2.43.0


From 9f6a25c424815dcc25fc532864ab800b6c41f67d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:16:03 +0000
Subject: [PATCH 25/35] fix: keep the bytes of an item partially read when the
 reader is pending

The item is read from where it has been left the next time the stream is
polled, and the stream is finished once reading an item failed.
---
 src/hdu/data/stream.rs | 77 +++++++++++++++++++++++++++---------------
 1 file changed, 50 insertions(+), 27 deletions(-)

diff --git a/src/hdu/data/stream.rs b/src/hdu/data/stream.rs
index ac9cd61..3ad1d6a 100644
--- a/src/hdu/data/stream.rs
+++ b/src/hdu/data/stream.rs
@@ -1,5 +1,4 @@
 use byteorder::ByteOrder;
-use futures::AsyncReadExt;
 
 /// An async iterator on the data array
 /// This is an enum whose content depends on the
@@ -28,6 +27,11 @@ where
 {
     pub reader: &'a mut R,
     pub num_remaining_bytes_in_cur_hdu: &'a mut usize,
+    /// The bytes of the next item that have already been read
+    item_bytes: [u8; 8],
+    num_item_bytes: usize,
+    /// Tells if reading an item failed, the stream is then finished
+    failed: bool,
     phantom: std::marker::PhantomData<T>,
 }
 
@@ -39,15 +43,47 @@ where
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu,
+            item_bytes: [0; 8],
+            num_item_bytes: 0,
+            failed: false,
             phantom: std::marker::PhantomData,
         }
     }
+
+    /// Tells if there is no more item
+    fn is_finished(&self) -> bool {
+        let num_bytes = *self.num_remaining_bytes_in_cur_hdu + self.num_item_bytes;
+        self.failed || num_bytes < std::mem::size_of::<T>()
+    }
+
+    /// Read the bytes of an item.
+    ///
+    /// The bytes read before the reader is pending are kept for the next time it is polled
+    fn poll_item(&mut self, buf: &mut [u8], cx: &mut Context<'_>) -> Poll<std::io::Result<()>> {
+        while self.num_item_bytes < buf.len() {
+            let dst = &mut self.item_bytes[self.num_item_bytes..buf.len()];
+            let num_bytes = match Pin::new(&mut *self.reader).poll_read(cx, dst) {
+                Poll::Pending => return Poll::Pending,
+                Poll::Ready(Ok(0)) => Err(std::io::ErrorKind::UnexpectedEof.into()),
+                Poll::Ready(num_bytes) => num_bytes,
+            };
+            self.failed = num_bytes.is_err();
+
+            let num_bytes = num_bytes?;
+            self.num_item_bytes += num_bytes;
+            *self.num_remaining_bytes_in_cur_hdu -= num_bytes;
+        }
+
+        buf.copy_from_slice(&self.item_bytes[..buf.len()]);
+        self.num_item_bytes = 0;
+
+        Poll::Ready(Ok(()))
+    }
 }
 
 use futures::task::Context;
 use futures::task::Poll;
 use futures::AsyncBufRead;
-use futures::Future;
 //use serde::Serialize;
 use std::pin::Pin;
 
@@ -64,18 +100,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 1];
 
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(&mut buf, cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
-                    *self.num_remaining_bytes_in_cur_hdu -= 1;
                     Poll::Ready(Some(Ok(buf)))
                 }
             }
@@ -94,18 +128,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 2];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(&mut buf, cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i16(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i16>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -124,19 +156,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(&mut buf, cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i32>();
-
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -155,18 +184,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(&mut buf, cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_i64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<i64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -185,18 +212,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 4];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(&mut buf, cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_f32(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f32>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
@@ -215,18 +240,16 @@ where
     /// Returns `Poll::Pending` if not ready, `Poll::Ready(Some(x))` if a value
     /// is ready, and `Poll::Ready(None)` if the stream has completed.
     fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
-        if *self.num_remaining_bytes_in_cur_hdu == 0 {
+        if self.is_finished() {
             // The stream has finished
             Poll::Ready(None)
         } else {
             let mut buf = [0_u8; 8];
-            let mut reader_exact = self.reader.read_exact(&mut buf);
-            match Pin::new(&mut reader_exact).poll(cx) {
+            match self.poll_item(&mut buf, cx) {
                 Poll::Pending => Poll::Pending,
                 Poll::Ready(Err(e)) => Poll::Ready(Some(Err(e))),
                 Poll::Ready(Ok(())) => {
                     let item = byteorder::BigEndian::read_f64(&buf);
-                    *self.num_remaining_bytes_in_cur_hdu -= std::mem::size_of::<f64>();
                     Poll::Ready(Some(Ok([item])))
                 }
             }
-- 
2.43.0


From 2d399d302ee71218b630218ba38d9e7896111da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:59 +0000
Subject: [PATCH 26/35] fix: resume the async HDU stream where it has been left
 when the reader is pending

What has been skipped of the current HDU and read of the next header is kept
between two polls. The stream is also fused once the end of file is reached.
---
 src/async_fits.rs | 168 ++++++++++++++++++++++++++++------------------
 1 file changed, 101 insertions(+), 67 deletions(-)

diff --git a/src/async_fits.rs b/src/async_fits.rs
index 4b6d036..3c88b27 100644
--- a/src/async_fits.rs
+++ b/src/async_fits.rs
@@ -1,6 +1,6 @@
 use std::pin::Pin;
 
-use crate::card::Card;
+use crate::card::{Card, CardBuf};
 use crate::hdu;
 use crate::hdu::data::AsyncDataBufRead;
 use crate::hdu::header::extension::asciitable::AsciiTable;
@@ -10,6 +10,7 @@ use crate::hdu::header::extension::Xtension;
 use crate::hdu::header::Header;
 use futures::{Future, Stream};
 use serde::Serialize;
+use std::convert::TryFrom;
 use std::fmt::Debug;
 
 //use crate::hdu::data::{DataAsyncBufRead, DataBufRead};
@@ -20,10 +21,14 @@ pub struct AsyncFits<R> {
     // Store the number of bytes that remains to read so that the current HDU data finishes
     // When getting the next HDU, we will first consume those bytes if there are some
     num_remaining_bytes_in_cur_hdu: usize,
-    // Keep track of the number of total bytes for the current HDU as we might
-    // skip the trailing bytes to get to a multiple of 2880 bytes
-    num_bytes_in_cur_hdu: usize,
-    // If an error has been encountered, the HDU iterator ends
+    // The number of trailing bytes that remains to skip after the current HDU data to get
+    // to a multiple of 2880 bytes
+    num_remaining_padding_bytes: usize,
+    // The bytes of the next header that have already been read
+    header: Vec<u8>,
+    // If the END card of the next header has already been read
+    header_end: bool,
+    // If an error or the end of the file has been encountered, the HDU iterator ends
     error_parsing_encountered: bool,
     reader: R,
 }
@@ -37,7 +42,9 @@ impl<R> AsyncFits<R> {
         Self {
             reader,
             num_remaining_bytes_in_cur_hdu: 0,
-            num_bytes_in_cur_hdu: 0,
+            num_remaining_padding_bytes: 0,
+            header: Vec::new(),
+            header_end: false,
             error_parsing_encountered: false,
             start: true,
         }
@@ -53,43 +60,96 @@ where
         + 'a,
 {
     /// Returns a boolean to know if we are at EOF
+    ///
+    /// What has been consumed is tracked so that it can be called again if the reader was pending
     async fn consume_until_next_hdu(&mut self) -> Result<bool, Error> {
         // 1. Check if there are still bytes to be read to get to the end of data
-        if self.num_remaining_bytes_in_cur_hdu > 0 {
+        while self.num_remaining_bytes_in_cur_hdu > 0 {
             // Then read them
-            <R as AsyncDataBufRead<'_, Image>>::read_n_bytes_exact(
-                &mut self.reader,
-                self.num_remaining_bytes_in_cur_hdu as u64,
-            )
-            .await?;
+            let num_bytes = self.reader.fill_buf().await?.len();
+            if num_bytes == 0 {
+                return Err(Error::StaticError("The file has reached EOF"));
+            }
+
+            let num_bytes = num_bytes.min(self.num_remaining_bytes_in_cur_hdu);
+            self.reader.consume_unpin(num_bytes);
+            self.num_remaining_bytes_in_cur_hdu -= num_bytes;
         }
 
         // 2. We are at the end of the real data. As FITS standard stores data in block of 2880 bytes
         // we must read until the next block of data to get the location of the next HDU
-
-        let is_remaining_bytes = !self.num_bytes_in_cur_hdu.is_multiple_of(2880);
-        // Skip the remaining bytes to set the reader where a new HDU begins
-        if is_remaining_bytes {
-            let mut block_mem_buf: [u8; 2880] = [0; 2880];
-
-            let num_off_bytes = 2880 - (self.num_bytes_in_cur_hdu % 2880);
-            match self
-                .reader
-                .read_exact(&mut block_mem_buf[..num_off_bytes])
-                .await
-            {
-                // An error like unexpected EOF is not permitted by the standard but we make it pass
-                // interpreting it as the last HDU in the file
-                Err(ref e) if e.kind() == std::io::ErrorKind::UnexpectedEof => return Ok(true),
-                Err(e) => return Err(e.into()),
-                Ok(()) => {}
+        while self.num_remaining_padding_bytes > 0 {
+            let num_bytes = self.reader.fill_buf().await?.len();
+            // An unexpected EOF is not permitted by the standard but we make it pass
+            // interpreting it as the last HDU in the file
+            if num_bytes == 0 {
+                return Ok(true);
             }
+
+            let num_bytes = num_bytes.min(self.num_remaining_padding_bytes);
+            self.reader.consume_unpin(num_bytes);
+            self.num_remaining_padding_bytes -= num_bytes;
         }
 
         let eof = self.reader.fill_buf().await?.is_empty();
         Ok(eof)
     }
 
+    /// Read the blocks of 2880 bytes of the next header, or what remains of them if EOF is reached
+    ///
+    /// What has been read is kept so that it can be called again if the reader was pending
+    async fn read_header_blocks(&mut self) -> Result<(), Error> {
+        loop {
+            // Read card by card until the END one, then up to the end of its block
+            let unit = if self.header_end { 2880 } else { 80 };
+            let num_missing_bytes = unit - self.header.len() % unit;
+            if self.header_end && num_missing_bytes == unit {
+                return Ok(());
+            }
+
+            let buf = self.reader.fill_buf().await?;
+            if buf.is_empty() {
+                return Ok(());
+            }
+
+            let num_bytes = buf.len().min(num_missing_bytes);
+            self.header.extend_from_slice(&buf[..num_bytes]);
+            self.reader.consume_unpin(num_bytes);
+
+            if num_bytes == num_missing_bytes && !self.header_end {
+                let mut card: CardBuf = [0; 80];
+                card.copy_from_slice(&self.header[self.header.len() - 80..]);
+                self.header_end = matches!(Card::try_from(&card), Ok(Card::End));
+            }
+        }
+    }
+
+    /// Parse the next HDU
+    async fn next_hdu(&mut self) -> Result<Option<hdu::AsyncHDU>, Error> {
+        // We must consume the bytes until the next header is found
+        // if eof then the iterator finishes
+        if !self.start && self.header.is_empty() && self.consume_until_next_hdu().await? {
+            return Ok(None);
+        }
+
+        self.read_header_blocks().await?;
+
+        // All the header has been read, its parsing is never pending
+        let mut header = futures::io::BufReader::new(&self.header[..]);
+        let hdu = if self.start {
+            // parse the primary HDU
+            hdu::AsyncHDU::new_primary(&mut header).await?
+        } else {
+            // parse the extension HDU
+            hdu::AsyncHDU::new_xtension(&mut header).await?
+        };
+
+        self.header.clear();
+        self.header_end = false;
+
+        Ok(Some(hdu))
+    }
+
     pub fn get_data<X>(&'a mut self, hdu: &AsyncHDU<X>) -> <R as AsyncDataBufRead<'a, X>>::Data
     where
         X: Xtension + Debug,
@@ -128,48 +188,17 @@ where
         if self.error_parsing_encountered {
             Poll::Ready(None)
         } else {
-            let hdu = if !self.start {
-                // We must consume the bytes until the next header is found
-                // if eof then the iterator finishes
-                let consume_tokens_until_next_hdu = self.consume_until_next_hdu();
-                let eof = match std::pin::pin!(consume_tokens_until_next_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // The future finished returning the eof information
-                    Poll::Ready(r) => r,
-                };
-
-                match eof {
-                    Ok(eof) => {
-                        if !eof {
-                            // parse the extension HDU
-                            let r = &mut self.reader;
-                            let parse_x_hdu = hdu::AsyncHDU::new_xtension(r);
-                            match std::pin::pin!(parse_x_hdu).poll(cx) {
-                                Poll::Pending => return Poll::Pending,
-                                // the future finished, returning the parsed hdu or the error while parsing it
-                                Poll::Ready(r) => Some(r),
-                            }
-                        } else {
-                            None
-                        }
-                    }
-                    Err(e) => Some(Err(e)),
-                }
-            } else {
-                // parse the primary HDU
-                let parse_first_hdu = hdu::AsyncHDU::new_primary(&mut self.reader);
-                match std::pin::pin!(parse_first_hdu).poll(cx) {
-                    Poll::Pending => return Poll::Pending,
-                    // the future finished, returning the parsed hdu or the error while parsing it
-                    Poll::Ready(r) => Some(r),
-                }
+            let hdu = match std::pin::pin!(self.next_hdu()).poll(cx) {
+                Poll::Pending => return Poll::Pending,
+                // the future finished, returning the parsed hdu or the error while parsing it
+                Poll::Ready(r) => r.transpose(),
             };
 
             self.start = false;
 
             match hdu {
                 Some(Ok(hdu)) => {
-                    self.num_bytes_in_cur_hdu = match &hdu {
+                    let num_bytes_in_cur_hdu = match &hdu {
                         hdu::AsyncHDU::XImage(h) | hdu::AsyncHDU::Primary(h) => {
                             let xtension = h.get_header().get_xtension();
                             xtension.get_num_bytes_data_block() as usize
@@ -184,7 +213,8 @@ where
                         }
                     };
 
-                    self.num_remaining_bytes_in_cur_hdu = self.num_bytes_in_cur_hdu;
+                    self.num_remaining_bytes_in_cur_hdu = num_bytes_in_cur_hdu;
+                    self.num_remaining_padding_bytes = (2880 - num_bytes_in_cur_hdu % 2880) % 2880;
 
                     Poll::Ready(Some(Ok(hdu)))
                 }
@@ -194,7 +224,11 @@ where
 
                     Poll::Ready(Some(Err(e)))
                 }
-                None => Poll::Ready(None),
+                None => {
+                    self.error_parsing_encountered = true;
+
+                    Poll::Ready(None)
+                }
             }
         }
     }
-- 
2.43.0


From 3646bc76f606e2316432aed2b4be80c0f0614a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:17 +0000
Subject: [PATCH 27/35] fix: keep the text of a number that cannot be parsed as
 it is in the card

---
 src/card.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/card.rs b/src/card.rs
index d256f97..8cf8346 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -259,8 +259,7 @@ fn parse_number(v: String, c: Option<String>) -> Result<Value, Error> {
         })
     } else {
         // fallback to D as an exponent, cf. FITSv4, section 4.2.4 Real floating-point number
-        let v = v.replace('D', "E");
-        if let Ok(val) = v.parse::<f64>() {
+        if let Ok(val) = v.replace('D', "E").parse::<f64>() {
             Ok(Value::Float {
                 value: val,
                 comment: c,
-- 
2.43.0


From bbe357fcd0fcb1eca4ff756b8363df81253532e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:17 +0000
Subject: [PATCH 28/35] fix: find the unit of a comment that starts with a
 space

---
 src/card.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/card.rs b/src/card.rs
index 8cf8346..d241300 100644
--- a/src/card.rs
+++ b/src/card.rs
@@ -531,6 +531,8 @@ impl<'de> IntoDeserializer<'de, Error> for &'de Value {
 /// FITSv4 section 4.3.2. Units in comment fields
 fn parse_unit(comment: &Option<String>) -> Option<&str> {
     if let Some(c) = comment {
+        // the unit is usually separated from the slash by a space
+        let c = c.trim_start();
         if c.starts_with("[") {
             if let Some(i) = c.find("]") {
                 Some(&c[1..i])
-- 
2.43.0


From 30a5918295992e19b81be40484867527a2ee4dcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:46:17 +0000
Subject: [PATCH 29/35] fix: a CONTINUE card only continues the string of the
 card right before it

---
 src/hdu/header/mod.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 9722b67..2674872 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -316,7 +316,11 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 }
             }
             // TODO log skipped card at debug level
-            _ => ( /* NOOP */),
+            _ => {
+                // FITS document 4.2.1.2: a string is only continued by a CONTINUE record that
+                // immediately follows
+                kw = None;
+            }
         }
     }
     Err(Error::StaticError("Missing END card"))
-- 
2.43.0


From dd90444050e9b31c2b7be246848f9460ed107cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:36 +0000
Subject: [PATCH 30/35] fix: decompress all the members of a gzip file

---
 src/gz.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index db6df65..311e69c 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -1,4 +1,4 @@
-use flate2::read::GzDecoder;
+use flate2::read::MultiGzDecoder;
 use std::io::Seek;
 /*
 use crate::hdu::data::FitsRead;
@@ -94,7 +94,8 @@ where
 {
     /// Open a fits file from a path. Can be gzip-compressed
     pub fn new(reader: R) -> Result<Self, Error> {
-        let mut gz = GzDecoder::new(reader);
+        // A gzip file can be made of several members, all have to be decompressed
+        let mut gz = MultiGzDecoder::new(reader);
 
         match gz.header() {
             // `path` points to a file that is gzip-compressed.
-- 
2.43.0


From 4fb20a7e181b3bb735df2dc4084ad771e0997118 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:16:37 +0000
Subject: [PATCH 31/35] fix: leave a plain file where it was when detecting
 gzip

---
 src/gz.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/gz.rs b/src/gz.rs
index 311e69c..d1abebb 100644
--- a/src/gz.rs
+++ b/src/gz.rs
@@ -93,7 +93,9 @@ where
     R: Read + Seek,
 {
     /// Open a fits file from a path. Can be gzip-compressed
-    pub fn new(reader: R) -> Result<Self, Error> {
+    pub fn new(mut reader: R) -> Result<Self, Error> {
+        // The FITS stream does not have to start at the beginning of the reader
+        let start_pos = reader.stream_position()?;
         // A gzip file can be made of several members, all have to be decompressed
         let mut gz = MultiGzDecoder::new(reader);
 
@@ -112,7 +114,7 @@ where
                 // by trying to decompress it, the file must be rewinded
                 // TODO There may be a better way instead of reading the same
                 // file twice.
-                r.seek(SeekFrom::Start(0))?;
+                r.seek(SeekFrom::Start(start_pos))?;
 
                 Ok(GzReader::Reader(r))
             }
-- 
2.43.0


From 5da4774a939b5c0579088e93461de910cf99864b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:44 +0000
Subject: [PATCH 32/35] fix: select the fields of a table wherever its reader
 is

---
 src/hdu/data/bintable/data.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/hdu/data/bintable/data.rs b/src/hdu/data/bintable/data.rs
index f494f89..53c135a 100644
--- a/src/hdu/data/bintable/data.rs
+++ b/src/hdu/data/bintable/data.rs
@@ -297,6 +297,8 @@ impl<R> TableData<R> {
         self.cols_idx.sort_unstable();
 
         // We must go to the first column at this point
+        self.col_idx = 0;
+        self.item_idx = 0;
         self.seek_to_first_col = true;
 
         self
@@ -521,11 +523,15 @@ where
         if self.seek_to_first_col {
             self.seek_to_first_col = false;
 
-            let off = self.col_byte_offsets[col_idx] as i64;
+            // the reader can be at any column of the row, or in the heap
+            self.jump_to_main_table().ok()?;
+            let byte_offset =
+                self.row_idx * (self.ctx.naxis1 as usize) + self.col_byte_offsets[col_idx];
+            let off = byte_offset as i64 - self.byte_offset as i64;
             // seek to the next col location
             self.reader.seek_relative(off).ok()?;
             // update the byte offset as well
-            self.byte_offset += off as usize;
+            self.byte_offset = byte_offset;
         }
 
         match &mut self.state {
-- 
2.43.0


From b5afee97389a3426b89c4011e7b1647e503495f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:29:52 +0000
Subject: [PATCH 33/35] fix: decode RICE tiles of 1 and 2 bytes pixels

---
 .../data/bintable/tile_compressed/pixels.rs   | 104 ++++++++++--------
 src/hdu/header/extension/bintable.rs          |  27 +++--
 2 files changed, 71 insertions(+), 60 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index d1822a1..e686d3c 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -142,15 +142,16 @@ fn num_pixels_from_row_idx(z_tile: &[usize], z_naxis: &[u64], n: usize) -> Optio
 /// Fill the buffer with the decompressed pixels of a tile
 ///
 /// The size of the tile comes from the header, so the buffer is enlarged as long as there are pixels to read.
-/// `blocksize` is the number of pixels that must be read together
+/// `blocksize` is the number of pixels that must be read together and `bytepix` the size of a pixel
 fn read_tile<R: Read>(
     mut reader: R,
     buf: &mut Vec<u8>,
     num_pixels: usize,
     blocksize: u8,
+    bytepix: usize,
 ) -> Result<(), Error> {
-    let num_bytes = num_pixels * std::mem::size_of::<u32>();
-    let num_bytes_chunk = (blocksize as usize).max(1) * 1024 * std::mem::size_of::<u32>();
+    let num_bytes = num_pixels * bytepix;
+    let num_bytes_chunk = (blocksize as usize).max(1) * 1024 * bytepix;
 
     buf.clear();
     while buf.len() < num_bytes {
@@ -162,6 +163,43 @@ fn read_tile<R: Read>(
     Ok(())
 }
 
+/// Fill the buffer with the pixels of a RICE compressed tile
+///
+/// Whatever the size of the pixels that have been compressed, these are stored as i32 in the buffer
+fn read_rice_tile<R: Read>(
+    reader: R,
+    buf: &mut Vec<u8>,
+    num_pixels: usize,
+    blocksize: u8,
+    bytepix: u8,
+) -> Result<(), Error> {
+    let (nblock, nx) = (blocksize as i32, num_pixels as i32);
+
+    let pixels: Vec<i32> = match bytepix {
+        1 => {
+            let rice = RICEDecoder::<_, u8>::new(reader, nblock, nx);
+            read_tile(rice, buf, num_pixels, blocksize, 1)?;
+            buf.iter().map(|&px| px as i32).collect()
+        }
+        2 => {
+            let rice = RICEDecoder::<_, i16>::new(reader, nblock, nx);
+            read_tile(rice, buf, num_pixels, blocksize, 2)?;
+            buf.chunks_exact(2)
+                .map(|px| i16::from_ne_bytes([px[0], px[1]]) as i32)
+                .collect()
+        }
+        _ => {
+            let rice = RICEDecoder::<_, i32>::new(reader, nblock, nx);
+            return read_tile(rice, buf, num_pixels, blocksize, 4);
+        }
+    };
+
+    buf.clear();
+    buf.extend(pixels.into_iter().flat_map(i32::to_ne_bytes));
+
+    Ok(())
+}
+
 use std::fmt::Debug;
 impl<R> Iterator for It<R, U8Keywords>
 where
@@ -214,16 +252,10 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1)?;
+                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
                         }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
+                        ZCmpType::Rice { blocksize, bytepix } => {
+                            read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -315,16 +347,10 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1)?;
+                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
                         }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
+                        ZCmpType::Rice { blocksize, bytepix } => {
+                            read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -423,16 +449,10 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1)?;
+                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
                         }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
+                        ZCmpType::Rice { blocksize, bytepix } => {
+                            read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -584,16 +604,10 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1)?;
+                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
                         }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
+                        ZCmpType::Rice { blocksize, bytepix } => {
+                            read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
@@ -752,16 +766,10 @@ where
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
                             let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1)?;
+                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
                         }
-                        // FIXME support bytepix
-                        ZCmpType::Rice { blocksize, .. } => {
-                            let rice = RICEDecoder::<_, i32>::new(
-                                reader,
-                                blocksize as i32,
-                                num_pixels as i32,
-                            );
-                            read_tile(rice, buf, num_pixels as usize, blocksize)?;
+                        ZCmpType::Rice { blocksize, bytepix } => {
+                            read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
                         }
                         // Other compression not supported, when parsing the bintable extension keywords
                         // we ensured that z_image is `None` for other compressions than GZIP or RICE
diff --git a/src/hdu/header/extension/bintable.rs b/src/hdu/header/extension/bintable.rs
index 4cfd03a..42d471d 100644
--- a/src/hdu/header/extension/bintable.rs
+++ b/src/hdu/header/extension/bintable.rs
@@ -239,12 +239,11 @@ impl Xtension for BinTable {
                 "GZIP_1" => Some(ZCmpType::Gzip1),
                 "GZIP_2" => Some(ZCmpType::Gzip2),
                 "RICE_1" | "RICE_ONE" => {
-                    // Retrieve the block size
-                    let blocksize = values
-                        .iter()
-                        .find_map(|(zname, val)| {
+                    // Retrieve a parameter of the algorithm
+                    let parameter = |name: &str| {
+                        values.iter().find_map(|(zname, val)| {
                             if let Value::String { value, .. } = val {
-                                if value == "BLOCKSIZE" && zname.starts_with("ZNAME") {
+                                if value == name && zname.starts_with("ZNAME") {
                                     let zval = zname.replace("NAME", "VAL");
 
                                     values.get_parsed(&zval).ok()
@@ -255,13 +254,17 @@ impl Xtension for BinTable {
                                 None
                             }
                         })
-                        // Default value: 32
-                        .unwrap_or(32);
-
-                    // FIXME: implement RICE parsing for BYTEPIX != 4
-                    let bytepix = 4;
-
-                    Some(ZCmpType::Rice { blocksize, bytepix })
+                    };
+                    // Default values: 32 and 4
+                    let blocksize = parameter("BLOCKSIZE").unwrap_or(32);
+                    let bytepix = parameter("BYTEPIX").unwrap_or(4);
+
+                    if matches!(bytepix, 1 | 2 | 4) {
+                        Some(ZCmpType::Rice { blocksize, bytepix })
+                    } else {
+                        warn!("BYTEPIX is not supported. The tile compressed image column will be discarded if any");
+                        None
+                    }
                 }
                 "PLI0_1" => Some(ZCmpType::PLI0_1),
                 "HCOMPRESS_1" => Some(ZCmpType::Hcompress1),
-- 
2.43.0


From 6af8894b374d4a59a1f67f9c6578c0d492f15f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:32:41 +0000
Subject: [PATCH 34/35] fix: read gzip tiles whose pixels have the size of
 those of the image

---
 .../data/bintable/tile_compressed/pixels.rs   | 53 +++++++++++++++----
 1 file changed, 43 insertions(+), 10 deletions(-)

diff --git a/src/hdu/data/bintable/tile_compressed/pixels.rs b/src/hdu/data/bintable/tile_compressed/pixels.rs
index e686d3c..38182d0 100644
--- a/src/hdu/data/bintable/tile_compressed/pixels.rs
+++ b/src/hdu/data/bintable/tile_compressed/pixels.rs
@@ -163,6 +163,44 @@ fn read_tile<R: Read>(
     Ok(())
 }
 
+/// Fill the buffer with the pixels of a GZIP compressed tile
+///
+/// The integers are either stored as i32 or with the size of the pixels of the image, `bytepix`.
+/// In the latter case these are extended so that there are 4 bytes per pixel in the buffer
+fn read_gzip_tile<R: Read>(
+    reader: R,
+    buf: &mut Vec<u8>,
+    num_pixels: usize,
+    z_cmp_type: ZCmpType,
+    bytepix: usize,
+) -> Result<(), Error> {
+    let num_bytes = 4 * num_pixels;
+
+    buf.clear();
+    let gz = GzDecoder::new(reader);
+    gz.take(num_bytes as u64).read_to_end(buf)?;
+
+    if buf.len() == num_bytes {
+        Ok(())
+    } else if buf.len() != bytepix * num_pixels {
+        Err(Error::Io(std::io::ErrorKind::UnexpectedEof))
+    } else {
+        let mut extended = vec![0; num_bytes];
+        if z_cmp_type == ZCmpType::Gzip2 && bytepix > 1 {
+            // the most significant bytes of all the pixels come first
+            extended[num_bytes - buf.len()..].copy_from_slice(buf);
+        } else {
+            let pixels = buf.chunks_exact(bytepix);
+            for (dst, px) in extended.chunks_exact_mut(4).zip(pixels) {
+                dst[4 - bytepix..].copy_from_slice(px);
+            }
+        }
+        *buf = extended;
+
+        Ok(())
+    }
+}
+
 /// Fill the buffer with the pixels of a RICE compressed tile
 ///
 /// Whatever the size of the pixels that have been compressed, these are stored as i32 in the buffer
@@ -251,8 +289,7 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
+                            read_gzip_tile(reader, buf, num_pixels as usize, s.z_cmp_type, 1)?;
                         }
                         ZCmpType::Rice { blocksize, bytepix } => {
                             read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
@@ -346,8 +383,7 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
+                            read_gzip_tile(reader, buf, num_pixels as usize, s.z_cmp_type, 2)?;
                         }
                         ZCmpType::Rice { blocksize, bytepix } => {
                             read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
@@ -448,8 +484,7 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
+                            read_gzip_tile(reader, buf, num_pixels as usize, s.z_cmp_type, 4)?;
                         }
                         ZCmpType::Rice { blocksize, bytepix } => {
                             read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
@@ -603,8 +638,7 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
+                            read_gzip_tile(reader, buf, num_pixels as usize, s.z_cmp_type, 4)?;
                         }
                         ZCmpType::Rice { blocksize, bytepix } => {
                             read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
@@ -765,8 +799,7 @@ where
                     match s.z_cmp_type {
                         // For GZIP2, the byte shuffling is done in the next method
                         ZCmpType::Gzip1 | ZCmpType::Gzip2 => {
-                            let gz = GzDecoder::new(reader);
-                            read_tile(gz, buf, num_pixels as usize, 1, 4)?;
+                            read_gzip_tile(reader, buf, num_pixels as usize, s.z_cmp_type, 4)?;
                         }
                         ZCmpType::Rice { blocksize, bytepix } => {
                             read_rice_tile(reader, buf, num_pixels as usize, blocksize, bytepix)?;
-- 
2.43.0


From 6c239cd6830be8c3c05f0d2850fb83ffc2ac6a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:25 +0000
Subject: [PATCH 35/35] fix: a string that ends with an ampersand of its own is
 not continued any further

The record tells if a string goes on (FITS 4.2.1.2), not the string put
together so far: 'abc&&' followed by CONTINUE '' is the string abc&, and
another CONTINUE after it is an orphan.
---
 src/hdu/header/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/hdu/header/mod.rs b/src/hdu/header/mod.rs
index 2674872..41ba44e 100644
--- a/src/hdu/header/mod.rs
+++ b/src/hdu/header/mod.rs
@@ -275,7 +275,9 @@ fn process_cards(cards: &[Card]) -> Result<ValueMap, Error> {
                 if let Some(ref name) = kw {
                     if let Some(v) = values.get_mut(name) {
                         v.append(string, comment);
-                        if !v.continued() {
+                        // the record tells if the string goes on, not the string so far, which
+                        // can have an ampersand of its own at its end
+                        if !card.continued() {
                             kw = None
                         }
                     } else {
-- 
2.43.0

