From cb674bd923c9cf8f717d4de26d2a6e8b774de989 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:00 +0000
Subject: [PATCH 01/13] fix: treat a CRLF pair as a line break when mapping
 positions

A carriage return followed by a line feed is a single grapheme cluster, so
comparing clusters to a lone line feed kept every line but the first of a
CRLF document out of reach.
---
 src/buffer/cursor.rs     | 2 +-
 src/buffer/gap_buffer.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 47859a1..58eb837 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -191,7 +191,7 @@ impl Cursor {
         let mut line = 0;
         let mut length = 0;
         for c in self.data.borrow().to_string().graphemes(true) {
-            if c == "\n" {
+            if c.ends_with('\n') {
                 line += 1;
                 length = 0;
             } else {
diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 6719287..363baf8 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -216,7 +216,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme.ends_with('\n') {
                 line += 1;
                 line_offset = 0;
             } else {
@@ -239,7 +239,7 @@ impl GapBuffer {
             }
 
             // Advance the line and offset characters.
-            if grapheme == "\n" {
+            if grapheme.ends_with('\n') {
                 line += 1;
                 line_offset = 0;
             } else {
-- 
2.43.0


From 312e095ace4d8d4a2dcde0d9ad3b9833c640bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:14 +0000
Subject: [PATCH 02/13] fix: map positions independently of where the gap is

Clusters spanning the gap were counted as two, so the same position could
refer to different locations in identical content, depending on past edits.
---
 src/buffer/gap_buffer.rs | 40 ++++++++++++----------------------------
 1 file changed, 12 insertions(+), 28 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index 363baf8..eaf3076 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -205,37 +205,21 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
-        let first_half = String::from_utf8_lossy(&self.data[..self.gap_start]);
+        // Grapheme clusters can span the gap; we need to look at the contents
+        // as a whole, rather than at the halves on either side of the gap.
+        let contents = self.to_string();
         let mut line = 0;
         let mut line_offset = 0;
 
-        for (offset, grapheme) in (*first_half).grapheme_indices(true) {
+        for (offset, grapheme) in contents.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                return Some(offset);
-            }
-
-            // Advance the line and offset characters.
-            if grapheme.ends_with('\n') {
-                line += 1;
-                line_offset = 0;
-            } else {
-                line_offset += 1;
-            }
-        }
-
-        // We didn't find the position *within* the first half, but it could
-        // be right after it, which means it's right at the start of the gap.
-        if line == position.line && line_offset == position.offset {
-            return Some(self.gap_start + self.gap_length);
-        }
-
-        // We haven't reached the position yet, so we'll move on to the other half.
-        let second_half = String::from_utf8_lossy(&self.data[self.gap_start + self.gap_length..]);
-        for (offset, grapheme) in (*second_half).grapheme_indices(true) {
-            // Check to see if we've found the position yet.
-            if line == position.line && line_offset == position.offset {
-                return Some(self.gap_start + self.gap_length + offset);
+                // Content at or beyond the start of the gap is stored after it.
+                return if offset < self.gap_start {
+                    Some(offset)
+                } else {
+                    Some(offset + self.gap_length)
+                };
             }
 
             // Advance the line and offset characters.
@@ -247,8 +231,8 @@ impl GapBuffer {
             }
         }
 
-        // We didn't find the position *within* the second half, but it could
-        // be right after it, which means it's at the end of the buffer.
+        // We didn't find the position *within* the contents, but it could be
+        // right after them, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
             return Some(self.data.len());
         }
-- 
2.43.0


From 192d03e345011f049d6f80c1c3be0017869f27a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:51 +0000
Subject: [PATCH 03/13] fix: don't overflow when deleting up to the last
 representable line

Ranges reaching past the end of the buffer are clamped, but one whose end line
is usize::MAX panicked (or, without overflow checks, corrupted the gap).
---
 src/buffer/gap_buffer.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index eaf3076..aa5833b 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -165,7 +165,7 @@ impl GapBuffer {
                 // The end of the range doesn't exist; check
                 // if it's on the last line in the file.
                 let start_of_next_line = Position {
-                    line: range.end().line + 1,
+                    line: range.end().line.saturating_add(1),
                     offset: 0,
                 };
 
-- 
2.43.0


From 301528e59a90a7b03bf8b2bb24226c202d7cbb00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 04/13] fix: make undo restore exactly what an edit changed

Operations located the content to remove or put back using positions, which
shift when that content forms grapheme clusters with its surroundings; undoing
could then touch unrelated text. Track byte offsets instead. Deletions with an
end beyond the line or buffer also tracked no content, and couldn't be undone.
---
 src/buffer/gap_buffer.rs       | 103 +++++++++++++++++++--------------
 src/buffer/operation/delete.rs |  26 +++++----
 src/buffer/operation/insert.rs |  63 ++++++++------------
 3 files changed, 96 insertions(+), 96 deletions(-)

diff --git a/src/buffer/gap_buffer.rs b/src/buffer/gap_buffer.rs
index aa5833b..216fb0e 100644
--- a/src/buffer/gap_buffer.rs
+++ b/src/buffer/gap_buffer.rs
@@ -56,13 +56,20 @@ impl GapBuffer {
     /// assert_eq!("my changed buffer data", buffer.to_string());
     /// ```
     pub fn insert(&mut self, data: &str, position: &Position) {
+        if let Some(offset) = self.content_offset(position) {
+            self.insert_at(offset, data);
+        }
+    }
+
+    // Inserts the specified data after the specified number of content bytes.
+    pub(crate) fn insert_at(&mut self, offset: usize, data: &str) {
         // Ensure we have the capacity to insert this data.
         if data.len() > self.gap_length {
             // We're about to add space to the end of the buffer, so move the gap
             // there beforehand so that we're essentially just increasing the
             // gap size, and preventing a split/two-segment gap.
-            let offset = self.data.capacity();
-            self.move_gap(offset);
+            let end = self.data.capacity();
+            self.move_gap(end);
 
             // Re-allocate the gap buffer, increasing its size.
             self.data.reserve(data.len());
@@ -76,12 +83,7 @@ impl GapBuffer {
             }
         }
 
-        let offset = match self.find_offset(position) {
-            Some(o) => o,
-            None => return,
-        };
-
-        self.move_gap(offset);
+        self.move_gap(self.data_offset(offset));
         self.write_to_gap(data);
     }
 
@@ -150,39 +152,40 @@ impl GapBuffer {
     /// assert_eq!(buffer.to_string(), "data");
     /// ```
     pub fn delete(&mut self, range: &Range) {
-        let start_offset = match self.find_offset(&range.start()) {
-            Some(o) => o,
-            None => return,
-        };
-        self.move_gap(start_offset);
+        if let Some((start, end)) = self.deletion_offsets(range) {
+            self.delete_at(start, end - start);
+        }
+    }
 
-        match self.find_offset(&range.end()) {
-            Some(offset) => {
-                // Widen the gap to cover the deleted contents.
-                self.gap_length = offset - self.gap_start;
-            }
-            None => {
+    // Removes a number of content bytes, following the specified number of them.
+    pub(crate) fn delete_at(&mut self, offset: usize, length: usize) {
+        self.move_gap(self.data_offset(offset));
+
+        // Widen the gap to cover the deleted contents.
+        self.gap_length += length;
+    }
+
+    // Maps a range to the start and end content offsets that deleting it would
+    // remove, limiting ranges whose end doesn't exist to the available contents.
+    pub(crate) fn deletion_offsets(&self, range: &Range) -> Option<(usize, usize)> {
+        let start_offset = self.content_offset(&range.start())?;
+
+        let end_offset = self
+            .content_offset(&range.end())
+            .or_else(|| {
                 // The end of the range doesn't exist; check
-                // if it's on the last line in the file.
-                let start_of_next_line = Position {
-                    line: range.end().line.saturating_add(1),
+                // if it's on the last line in the file. If there are other lines
+                // below this range, just remove up until the end of the line.
+                self.content_offset(&Position {
+                    line: range.end().line.checked_add(1)?,
                     offset: 0,
-                };
-
-                match self.find_offset(&start_of_next_line) {
-                    Some(offset) => {
-                        // There are other lines below this range.
-                        // Just remove up until the end of the line.
-                        self.gap_length = offset - self.gap_start;
-                    }
-                    None => {
-                        // We're on the last line, just get rid of the rest
-                        // by extending the gap right to the end of the buffer.
-                        self.gap_length = self.data.len() - self.gap_start;
-                    }
-                }
-            }
-        };
+                })
+            })
+            // We're on the last line, just get rid of the rest
+            // by extending the gap right to the end of the buffer.
+            .unwrap_or(self.data.len() - self.gap_length);
+
+        Some((start_offset, end_offset))
     }
 
     /// Checks whether or not the specified position is in bounds of the buffer data.
@@ -205,6 +208,21 @@ impl GapBuffer {
 
     // Maps a position to its offset equivalent in the data.
     fn find_offset(&self, position: &Position) -> Option<usize> {
+        self.content_offset(position).map(|o| self.data_offset(o))
+    }
+
+    // Maps a content offset to its equivalent in the data, which includes the gap.
+    fn data_offset(&self, offset: usize) -> usize {
+        // Content at or beyond the start of the gap is stored after it.
+        if offset < self.gap_start {
+            offset
+        } else {
+            offset + self.gap_length
+        }
+    }
+
+    // Maps a position to the number of content bytes preceding it.
+    pub(crate) fn content_offset(&self, position: &Position) -> Option<usize> {
         // Grapheme clusters can span the gap; we need to look at the contents
         // as a whole, rather than at the halves on either side of the gap.
         let contents = self.to_string();
@@ -214,12 +232,7 @@ impl GapBuffer {
         for (offset, grapheme) in contents.grapheme_indices(true) {
             // Check to see if we've found the position yet.
             if line == position.line && line_offset == position.offset {
-                // Content at or beyond the start of the gap is stored after it.
-                return if offset < self.gap_start {
-                    Some(offset)
-                } else {
-                    Some(offset + self.gap_length)
-                };
+                return Some(offset);
             }
 
             // Advance the line and offset characters.
@@ -234,7 +247,7 @@ impl GapBuffer {
         // We didn't find the position *within* the contents, but it could be
         // right after them, which means it's at the end of the buffer.
         if line == position.line && line_offset == position.offset {
-            return Some(self.data.len());
+            return Some(contents.len());
         }
 
         None
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 4b5fec3..6dfb658 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -4,25 +4,31 @@ use std::clone::Clone;
 
 /// A reversible buffer delete operation.
 ///
-/// Deletes the content at the specified range. Tracks the deleted content and specified
-/// range, and reverses the operation by (trivially) inserting the deleted content at
-/// the start of the specified range.
+/// Deletes the content at the specified range. Tracks the deleted content, its byte
+/// offset, and the specified range, and reverses the operation by (trivially) inserting
+/// the deleted content at the offset it was removed from.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the starting position of this operation when it is run or reversed.
 #[derive(Clone)]
 pub struct Delete {
     content: Option<String>,
+    offset: usize,
     range: Range,
 }
 
 impl Operation for Delete {
     fn run(&mut self, buffer: &mut Buffer) {
-        // Fetch and store the content we're about to delete.
-        self.content = buffer.data.borrow().read(&self.range);
+        let offsets = buffer.data.borrow().deletion_offsets(&self.range);
 
-        // Delete the data.
-        buffer.data.borrow_mut().delete(&self.range);
+        if let Some((start, end)) = offsets {
+            // Fetch and store the content we're about to delete.
+            self.content = Some(buffer.data()[start..end].to_string());
+            self.offset = start;
+
+            // Delete the data.
+            buffer.data.borrow_mut().delete_at(start, end - start);
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -32,10 +38,7 @@ impl Operation for Delete {
 
     fn reverse(&mut self, buffer: &mut Buffer) {
         if let Some(ref content) = self.content {
-            buffer
-                .data
-                .borrow_mut()
-                .insert(content, &self.range.start());
+            buffer.data.borrow_mut().insert_at(self.offset, content);
 
             // Run the change callback, if present.
             if let Some(ref callback) = buffer.change_callback {
@@ -54,6 +57,7 @@ impl Delete {
     pub fn new(range: Range) -> Delete {
         Delete {
             content: None,
+            offset: 0,
             range,
         }
     }
diff --git a/src/buffer/operation/insert.rs b/src/buffer/operation/insert.rs
index 17d707b..ca23465 100644
--- a/src/buffer/operation/insert.rs
+++ b/src/buffer/operation/insert.rs
@@ -1,14 +1,14 @@
 use crate::buffer::operation::Operation;
-use crate::buffer::{Buffer, Position, Range};
+use crate::buffer::{Buffer, Position};
 use std::clone::Clone;
 use std::convert::Into;
-use unicode_segmentation::UnicodeSegmentation;
 
 /// A reversible buffer insert operation.
 ///
-/// Inserts the provided content at the specified position. Tracks both, and reverses
-/// the operation by calculating the content's start and end positions (range), relative
-/// to its inserted location, and removing said range from the underlying buffer.
+/// Inserts the provided content at the specified position. Tracks both, as well as the
+/// byte offset at which the content was inserted, and reverses the operation by removing
+/// it from there. Positions can't be used to do so: the inserted content may form grapheme
+/// clusters with the characters surrounding it.
 ///
 /// If the buffer is configured with a `change_callback`, it will be called with
 /// the position of this operation when it is run or reversed.
@@ -16,14 +16,17 @@ use unicode_segmentation::UnicodeSegmentation;
 pub struct Insert {
     content: String,
     position: Position,
+    offset: Option<usize>,
 }
 
 impl Operation for Insert {
     fn run(&mut self, buffer: &mut Buffer) {
-        buffer
-            .data
-            .borrow_mut()
-            .insert(&self.content, &self.position);
+        // Find and store the location of the content, if it's a valid one.
+        self.offset = buffer.data.borrow().content_offset(&self.position);
+
+        if let Some(offset) = self.offset {
+            buffer.data.borrow_mut().insert_at(offset, &self.content);
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -31,38 +34,14 @@ impl Operation for Insert {
         }
     }
 
-    // We need to calculate the range of the inserted content.
-    // The start of the range corresponds to the cursor position at the time of the insert,
-    // which we've stored. Finding the end of the range requires that we dig into the content.
     fn reverse(&mut self, buffer: &mut Buffer) {
-        // The line count of the content tells us the line number for the end of the
-        // range (just add the number of new lines to the starting line).
-        let line_count = self.content.chars().filter(|&c| c == '\n').count() + 1;
-        let end_line = self.position.line + line_count - 1;
-
-        let end_offset = if line_count == 1 {
-            // If there's only one line, the range starts and ends on the same line, and so its
-            // offset needs to take the original insertion location into consideration.
-            self.position.offset + self.content.graphemes(true).count()
-        } else {
-            // If there are multiple lines, the end of the range doesn't
-            // need to consider the original insertion location.
-            match self.content.split('\n').last() {
-                Some(line) => line.graphemes(true).count(),
-                None => return,
-            }
-        };
-
-        // Now that we have the required info,
-        // build the end position and total range.
-        let end_position = Position {
-            line: end_line,
-            offset: end_offset,
-        };
-        let range = Range::new(self.position, end_position);
-
         // Remove the content we'd previously inserted.
-        buffer.data.borrow_mut().delete(&range);
+        if let Some(offset) = self.offset {
+            buffer
+                .data
+                .borrow_mut()
+                .delete_at(offset, self.content.len());
+        }
 
         // Run the change callback, if present.
         if let Some(ref callback) = buffer.change_callback {
@@ -78,7 +57,11 @@ impl Operation for Insert {
 impl Insert {
     /// Creates a new empty insert operation.
     pub fn new(content: String, position: Position) -> Insert {
-        Insert { content, position }
+        Insert {
+            content,
+            position,
+            offset: None,
+        }
     }
 }
 
-- 
2.43.0


From 8fd9d912978c16c33efdcc0f30c3e6bf7e186125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:23 +0000
Subject: [PATCH 05/13] fix: keep redo in step with open operation groups

Undoing an open group dropped it, leaving nothing to redo, and redoing while
a group was open re-applied operations that the group's had superseded, at
locations that no longer were what they referred to.
---
 src/buffer/mod.rs | 24 ++++++++++--------------
 1 file changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9ad7a25..147a0c0 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -21,7 +21,7 @@ mod range;
 mod token;
 
 use self::operation::history::History;
-use self::operation::{Operation, OperationGroup};
+use self::operation::OperationGroup;
 use crate::errors::*;
 use std::cell::RefCell;
 use std::default::Default;
@@ -241,21 +241,12 @@ impl Buffer {
     /// assert_eq!("", buffer.data());
     /// ```
     pub fn undo(&mut self) {
-        // Look for an operation to undo. First, check if there's an open, non-empty
-        // operation group. If not, try taking the last operation from the buffer history.
-        let operation: Option<Box<dyn Operation>> = match self.operation_group.take() {
-            Some(group) => {
-                if group.is_empty() {
-                    self.history.previous()
-                } else {
-                    Some(Box::new(group))
-                }
-            }
-            None => self.history.previous(),
-        };
+        // If there's an open, non-empty operation group, end it
+        // so that it becomes the last operation in the history.
+        self.end_operation_group();
 
         // If we found an eligible operation, reverse it.
-        if let Some(mut op) = operation {
+        if let Some(mut op) = self.history.previous() {
             op.reverse(self);
         }
     }
@@ -277,6 +268,11 @@ impl Buffer {
     /// assert_eq!("scribe", buffer.data());
     /// ```
     pub fn redo(&mut self) {
+        // Operations in an open group supersede any that were previously undone.
+        if self.operation_group.as_ref().is_some_and(|g| !g.is_empty()) {
+            return;
+        }
+
         // Look for an operation to apply.
         if let Some(mut op) = self.history.next() {
             op.run(self);
-- 
2.43.0


From c5805b63dcbad4e5d53cc872821ad6efa2eeeb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:27 +0000
Subject: [PATCH 06/13] fix: account for open operation groups when tracking
 modifications

Operations in an open group didn't flag the buffer as modified, and saving or
reloading part way through one marked the point in history preceding it.
---
 src/buffer/mod.rs               | 21 ++++++++++++++++++---
 src/buffer/operation/group.rs   | 21 ++++++++++++++++++++-
 src/buffer/operation/history.rs |  4 ++++
 3 files changed, 42 insertions(+), 4 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 147a0c0..f651e5b 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -190,7 +190,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark();
 
         Ok(())
     }
@@ -366,7 +366,22 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
-        !self.history.at_mark()
+        match self.operation_group {
+            Some(ref group) if !group.is_empty() => !group.at_mark(),
+            _ => !self.history.at_mark(),
+        }
+    }
+
+    // Marks the point at which the buffer is in sync with its file equivalent,
+    // which may be part way through an open operation group.
+    fn mark(&mut self) {
+        match self.operation_group {
+            Some(ref mut group) if !group.is_empty() => {
+                group.mark();
+                self.history.clear_mark();
+            }
+            _ => self.history.mark(),
+        }
     }
 
     /// The number of lines in the buffer, including trailing newlines.
@@ -415,7 +430,7 @@ impl Buffer {
 
         // We mark the history at points where the
         // buffer is in sync with its file equivalent.
-        self.history.mark();
+        self.mark();
 
         Ok(())
     }
diff --git a/src/buffer/operation/group.rs b/src/buffer/operation/group.rs
index c3e7e27..56667f0 100644
--- a/src/buffer/operation/group.rs
+++ b/src/buffer/operation/group.rs
@@ -13,6 +13,7 @@ use crate::buffer::Buffer;
 /// buffer type to signal the start and end of a group.
 pub struct OperationGroup {
     operations: Vec<Box<dyn Operation>>,
+    marked_position: Option<usize>,
 }
 
 impl Operation for OperationGroup {
@@ -39,6 +40,7 @@ impl Operation for OperationGroup {
                 .iter()
                 .map(|o| (*o).clone_operation())
                 .collect(),
+            marked_position: None,
         })
     }
 }
@@ -48,6 +50,7 @@ impl OperationGroup {
     pub fn new() -> OperationGroup {
         OperationGroup {
             operations: Vec::new(),
+            marked_position: None,
         }
     }
 
@@ -60,6 +63,16 @@ impl OperationGroup {
     pub fn is_empty(&self) -> bool {
         self.operations.is_empty()
     }
+
+    /// Marks the point following the last operation added to the group.
+    pub fn mark(&mut self) {
+        self.marked_position = Some(self.operations.len())
+    }
+
+    /// Whether or not the last operation added to the group is the marked one.
+    pub fn at_mark(&self) -> bool {
+        self.marked_position == Some(self.operations.len())
+    }
 }
 
 impl Buffer {
@@ -83,7 +96,13 @@ impl Buffer {
         // Push an open operation group on to the history stack, if one exists.
         if let Some(group) = self.operation_group.take() {
             if !group.is_empty() {
-                self.history.add(Box::new(group))
+                let marked = group.at_mark();
+                self.history.add(Box::new(group));
+
+                // The end of the group is now a point in the history.
+                if marked {
+                    self.history.mark();
+                }
             }
         }
     }
diff --git a/src/buffer/operation/history.rs b/src/buffer/operation/history.rs
index 288199b..a274c96 100644
--- a/src/buffer/operation/history.rs
+++ b/src/buffer/operation/history.rs
@@ -64,6 +64,10 @@ impl History {
         self.marked_position = Some(self.previous.len())
     }
 
+    pub fn clear_mark(&mut self) {
+        self.marked_position = None
+    }
+
     pub fn at_mark(&self) -> bool {
         if let Some(position) = self.marked_position {
             self.previous.len() == position
-- 
2.43.0


From e4241afd6b99dadd720e296b247823726859b350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 07/13] fix: measure distances in grapheme clusters

Position offsets count grapheme clusters, but distances counted bytes, so adding
the distance of multi-byte text to a position led beyond the text's end.
---
 src/buffer/distance.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/buffer/distance.rs b/src/buffer/distance.rs
index bf20d9a..2f22f26 100644
--- a/src/buffer/distance.rs
+++ b/src/buffer/distance.rs
@@ -1,3 +1,5 @@
+use unicode_segmentation::UnicodeSegmentation;
+
 /// A vector value representing a span in a buffer. Unlike the
 /// Range type, whose two positions are absolutes, a Distance
 /// is meant to be used relative to a Position.
@@ -25,7 +27,11 @@ impl Distance {
     pub fn of_str(from: &str) -> Distance {
         Distance {
             lines: from.chars().filter(|&c| c == '\n').count(),
-            offset: from.split('\n').last().map(|l| l.len()).unwrap_or(0),
+            offset: from
+                .split('\n')
+                .last()
+                .map(|l| l.graphemes(true).count())
+                .unwrap_or(0),
         }
     }
 }
-- 
2.43.0


From 31c11eea0aafe32736ac3339a04f86cfaec2eb82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:47 +0000
Subject: [PATCH 08/13] fix: return grapheme cluster-based positions from
 searches

Searches returned byte offsets, which don't refer to the matches in lines with
preceding multi-byte characters, and may not even be in bounds.
---
 src/buffer/mod.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index f651e5b..9be3c0e 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -32,6 +32,7 @@ use std::ops::Fn;
 use std::path::{Path, PathBuf};
 use std::rc::Rc;
 use syntect::parsing::SyntaxReference;
+use unicode_segmentation::UnicodeSegmentation;
 
 /// A feature-rich wrapper around an underlying gap buffer.
 ///
@@ -324,12 +325,12 @@ impl Buffer {
         let mut results = Vec::new();
 
         for (line, data) in self.data().lines().enumerate() {
-            for (offset, _) in data.char_indices() {
-                let haystack = &data[offset..];
-
-                // Check haystack length before slicing it and comparing bytes with needle.
-                if haystack.len() >= needle.len()
-                    && needle.as_bytes() == &haystack.as_bytes()[..needle.len()]
+            // Position offsets are grapheme cluster-based; matches starting within
+            // a cluster are associated with the position of the cluster itself.
+            for (offset, (index, grapheme)) in data.grapheme_indices(true).enumerate() {
+                if grapheme
+                    .char_indices()
+                    .any(|(i, _)| data[index + i..].starts_with(needle))
                 {
                     results.push(Position { line, offset });
                 }
-- 
2.43.0


From fe8d4342c2f4dce4ea245e45cbf6f218961d2b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:07 +0000
Subject: [PATCH 09/13] fix: keep token positions correct around clusters split
 by scope changes

Counting the grapheme clusters of individual tokens counts those extending
across two of them twice, shifting all subsequent positions in the line.
---
 src/buffer/token/token_iterator.rs | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index ad84584..a88c60a 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -2,14 +2,16 @@ use crate::buffer::{Lexeme, Position, Token};
 use crate::errors::*;
 use crate::util::LineIterator;
 use std::cmp;
+use std::iter::Peekable;
 use syntect::parsing::{ParseState, ScopeStack, ScopeStackOp, SyntaxReference, SyntaxSet};
-use unicode_segmentation::UnicodeSegmentation;
+use unicode_segmentation::{GraphemeIndices, UnicodeSegmentation};
 
 pub struct TokenIterator<'a> {
     scopes: ScopeStack,
     parser: ParseState,
     lines: LineIterator<'a>,
     current_line: Option<&'a str>,
+    line_graphemes: Peekable<GraphemeIndices<'a>>,
     current_byte_offset: usize,
     current_position: Position,
     line_events: Vec<(usize, ScopeStackOp)>,
@@ -28,6 +30,7 @@ impl<'a> TokenIterator<'a> {
             parser: ParseState::new(def),
             lines: LineIterator::new(data),
             current_line: None,
+            line_graphemes: "".grapheme_indices(true).peekable(),
             current_byte_offset: 0,
             current_position: Position { line: 0, offset: 0 },
             line_events: Vec::new(),
@@ -100,9 +103,15 @@ impl<'a> TokenIterator<'a> {
 
                     // The event/current offsets are byte-based, but
                     // position offsets should be grapheme cluster-based.
-                    self.current_position.offset += line[self.current_byte_offset..end_of_token]
-                        .graphemes(true)
-                        .count();
+                    // Clusters can extend across tokens, which is why we
+                    // count those in the line, rather than in the token.
+                    while self
+                        .line_graphemes
+                        .next_if(|&(index, _)| index < end_of_token)
+                        .is_some()
+                    {
+                        self.current_position.offset += 1;
+                    }
 
                     self.current_byte_offset = event_offset;
                 }
@@ -142,6 +151,7 @@ impl<'a> TokenIterator<'a> {
 
             // Keep a reference to the line so that we can create slices of it.
             self.current_line = Some(line);
+            self.line_graphemes = line.grapheme_indices(true).peekable();
 
             // Track our position, which we'll pass to generated tokens.
             self.current_position = Position {
-- 
2.43.0


From d00f3e212bd8f60a779fe03a27c734ae7dfecb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:37 +0000
Subject: [PATCH 10/13] fix: update the persisted offset when moving to the end
 of a final empty line

Moving to the end of any other empty line makes subsequent vertical movements
stick to the line start; on the line following a trailing newline it didn't.
---
 src/buffer/cursor.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index 58eb837..ef7b83a 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -175,14 +175,14 @@ impl Cursor {
     /// Moves the cursor offset to after the last character on the current line.
     pub fn move_to_end_of_line(&mut self) {
         let data = self.data.borrow().to_string();
-        let current_line = data.lines().nth(self.line);
-        if let Some(line) = current_line {
-            let new_position = Position {
-                line: self.line,
-                offset: line.graphemes(true).count(),
-            };
-            self.move_to(new_position);
-        }
+
+        // The lines iterator omits the empty line following a trailing newline.
+        let line = data.lines().nth(self.line).unwrap_or("");
+        let new_position = Position {
+            line: self.line,
+            offset: line.graphemes(true).count(),
+        };
+        self.move_to(new_position);
     }
 
     /// Moves the cursor to the last line in the buffer.
-- 
2.43.0


From f36d837aa7e418e1355cd3b9cd0ab182264b729c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:06 +0000
Subject: [PATCH 11/13] fix: don't resume iterating over tokens after a parser
 failure

---
 src/buffer/token/token_iterator.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/token/token_iterator.rs b/src/buffer/token/token_iterator.rs
index a88c60a..4d2aee9 100644
--- a/src/buffer/token/token_iterator.rs
+++ b/src/buffer/token/token_iterator.rs
@@ -45,6 +45,11 @@ impl<'a> TokenIterator<'a> {
     }
 
     fn next_token(&mut self) -> Option<Token<'a>> {
+        // There's no way to carry on after a failure.
+        if self.error.is_some() {
+            return None;
+        }
+
         let token_result = self.build_next_token();
 
         // Track error before halting.
-- 
2.43.0


From 44bb3f03985059fbed4158c7e17281780914bfde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:18 +0000
Subject: [PATCH 12/13] fix: don't overflow when a cursor at the largest line
 or offset is moved or deleted at

---
 src/buffer/cursor.rs           | 4 ++--
 src/buffer/operation/delete.rs | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/buffer/cursor.rs b/src/buffer/cursor.rs
index ef7b83a..7a08968 100644
--- a/src/buffer/cursor.rs
+++ b/src/buffer/cursor.rs
@@ -112,7 +112,7 @@ impl Cursor {
     /// Increments the cursor line. The location is bounds-checked against
     /// the data and the cursor will not be updated if it is out-of-bounds.
     pub fn move_down(&mut self) {
-        let target_line = self.line + 1;
+        let target_line = self.line.saturating_add(1);
         let new_position = Position {
             line: target_line,
             offset: self.sticky_offset,
@@ -158,7 +158,7 @@ impl Cursor {
     pub fn move_right(&mut self) {
         let new_position = Position {
             line: self.line,
-            offset: self.offset + 1,
+            offset: self.offset.saturating_add(1),
         };
         self.move_to(new_position);
     }
diff --git a/src/buffer/operation/delete.rs b/src/buffer/operation/delete.rs
index 6dfb658..b3380ab 100644
--- a/src/buffer/operation/delete.rs
+++ b/src/buffer/operation/delete.rs
@@ -83,7 +83,7 @@ impl Buffer {
         // the current offset and delete the character to the right.
         let mut end = Position {
             line: self.cursor.line,
-            offset: self.cursor.offset + 1,
+            offset: self.cursor.offset.saturating_add(1),
         };
 
         // If there isn't a character to the right,
@@ -91,7 +91,7 @@ impl Buffer {
         // of the next line. If it doesn't exist, that's okay;
         // these values are bounds-checked by delete() anyway.
         if !self.data.borrow().in_bounds(&end) {
-            end.line += 1;
+            end.line = end.line.saturating_add(1);
             end.offset = 0;
         }
 
-- 
2.43.0


From 585d31973762115fdb1f30af04a0961a11001e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:27 +0000
Subject: [PATCH 13/13] fix: consider buffers whose path was taken away
 modified

The documentation promises that buffers without paths are always considered
modified, but one that had been loaded or saved before losing its path wasn't.
---
 src/buffer/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/buffer/mod.rs b/src/buffer/mod.rs
index 9be3c0e..0300965 100644
--- a/src/buffer/mod.rs
+++ b/src/buffer/mod.rs
@@ -367,6 +367,11 @@ impl Buffer {
     /// assert!(buffer.modified());
     /// ```
     pub fn modified(&self) -> bool {
+        // There's nothing for a buffer without a path to be in sync with.
+        if self.path.is_none() {
+            return true;
+        }
+
         match self.operation_group {
             Some(ref group) if !group.is_empty() => !group.at_mark(),
             _ => !self.history.at_mark(),
-- 
2.43.0

