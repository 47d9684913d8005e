From 4adce7314c92a48ca167041f84c6eb823ab1cb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:15 +0000
Subject: [PATCH 01/12] fix: FocusTarget::Text must not land in another node's
 text

---
 src/pretty_print.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 8a8a846..b02b1e9 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -470,6 +470,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         use ConsolidatedNotation::*;
         span!("seek_text");
 
+        let id = chunk.id;
         let mut first_block = self.next_blocks.pop().unwrap();
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
@@ -483,7 +484,7 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                     FocusMark => (),
                     EndOfLine => block.at_eol = true,
                     Textual(textual) => {
-                        if textual.is_from_text {
+                        if textual.is_from_text && chunk.id == id {
                             let (left_textual, right_textual) = textual.split_at(text_pos);
                             block.push_text(left_textual)?;
                             block.chunks.push(Chunk {
-- 
2.43.0


From 8f5789f002d818a925192560e791e83e6cf68b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:47 +0000
Subject: [PATCH 02/12] fix: widths saturate instead of wrapping around or
 overflowing

---
 src/geometry.rs          |  9 +++++++--
 src/pane/display_pane.rs |  6 +++---
 src/pretty_print.rs      | 15 ++++++++-------
 3 files changed, 18 insertions(+), 12 deletions(-)

diff --git a/src/geometry.rs b/src/geometry.rs
index b95508c..5eff22a 100644
--- a/src/geometry.rs
+++ b/src/geometry.rs
@@ -86,9 +86,14 @@ impl Add<Size> for Pos {
 }
 
 /// The width of a string in columns. May be an overestimate. Not to be confused with the number of
-/// bytes, Unicode code points, or Unicode grapheme clusters.
+/// bytes, Unicode code points, or Unicode grapheme clusters. Saturates at `Width::MAX`.
 pub fn str_width(s: &str) -> Width {
-    unicode_width::UnicodeWidthStr::width(s) as Width
+    unicode_width::UnicodeWidthStr::width(s).min(Width::MAX as usize) as Width
+}
+
+/// The sum of some widths. Saturates at `Width::MAX`.
+pub(crate) fn sum_widths(widths: impl Iterator<Item = Width>) -> Width {
+    widths.fold(0, Width::saturating_add)
 }
 
 /// Returns true if the char is 2 columns wide and false if its 1 column wide.
diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index e012d22..1162605 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -64,7 +64,7 @@ where
 
             for row in rect.min_row..rect.max_row {
                 let mut col = rect.min_col;
-                while col + char_width <= rect.max_col {
+                while char_width <= rect.max_col - col {
                     window
                         .display_char(*ch, Pos { row, col }, style, is_full_width)
                         .map_err(PaneError::PrettyWindowError)?;
@@ -332,7 +332,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
             window
                 .set_focus(Pos {
                     row: focus_point.row + rect.min_row,
-                    col: focus_point.col + rect.min_col,
+                    col: focus_point.col.saturating_add(rect.min_col),
                 })
                 .map_err(PaneError::PrettyWindowError)?;
         }
@@ -408,7 +408,7 @@ where
         for ch in segment.str.chars() {
             let is_full_width = is_char_full_width(ch);
             let char_width = if is_full_width { 2 } else { 1 };
-            if pos.col + char_width > rect.max_col {
+            if char_width > rect.max_col - pos.col {
                 break 'segments_loop;
             }
             window
diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index b02b1e9..0d1d66c 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -2,6 +2,7 @@ use crate::{
     consolidated_notation::{
         ConsolidatedNotation, DelayedConsolidatedNotation, IndentNode, Textual,
     },
+    geometry::sum_widths,
     infra::span,
     PrettyDoc, PrintingError, Segment, Width,
 };
@@ -141,22 +142,22 @@ pub struct FocusedLine<'d, D: PrettyDoc<'d>> {
 
 impl<'d, D: PrettyDoc<'d>> Line<'d, D> {
     pub fn width(&self) -> Width {
-        self.segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.segments.iter().map(|seg| seg.width))
     }
 }
 
 impl<'d, D: PrettyDoc<'d>> FocusedLine<'d, D> {
     pub fn left_width(&self) -> Width {
-        self.left_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.left_segments.iter().map(|seg| seg.width))
     }
 
     pub fn right_width(&self) -> Width {
-        self.right_segments.iter().map(|seg| seg.width).sum()
+        sum_widths(self.right_segments.iter().map(|seg| seg.width))
     }
 
     pub fn width(&self) -> Width {
         let segs = self.left_segments.iter().chain(self.right_segments.iter());
-        segs.map(|seg| seg.width).sum()
+        sum_widths(segs.map(|seg| seg.width))
     }
 
     pub fn to_left_string(&self) -> String {
@@ -221,7 +222,7 @@ impl<'d, D: PrettyDoc<'d>> ToString for FocusedLine<'d, D> {
 struct Block<'d, D: PrettyDoc<'d>> {
     /// Stack of resolved text. The last element is the _rightmost_ text.
     segments: Vec<Segment<'d, D>>,
-    /// The sum of the segment string widths.
+    /// The sum of the segment string widths, saturating at `Width::MAX`.
     prefix_len: Width,
     /// Whether there is an `EndOfLine` between the `segments` and the `chunks`.
     at_eol: bool,
@@ -242,7 +243,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
         indent_segments.reverse();
 
         Block {
-            prefix_len: indent_segments.iter().map(|seg| seg.width).sum(),
+            prefix_len: sum_widths(indent_segments.iter().map(|seg| seg.width)),
             segments: indent_segments,
             at_eol: false,
             chunks,
@@ -258,7 +259,7 @@ impl<'d, D: PrettyDoc<'d>> Block<'d, D> {
             width: textual.width,
             style: textual.style,
         });
-        self.prefix_len += textual.width;
+        self.prefix_len = self.prefix_len.saturating_add(textual.width);
         Ok(())
     }
 
-- 
2.43.0


From 2b7efb05263422c7bd212677380e4fd2248b55d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:50 +0000
Subject: [PATCH 03/12] fix: dividing space among panes of zero or huge
 proportional weight

---
 src/pane/divvy.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/pane/divvy.rs b/src/pane/divvy.rs
index d718004..3b779b0 100644
--- a/src/pane/divvy.rs
+++ b/src/pane/divvy.rs
@@ -80,12 +80,18 @@ impl Divvier {
                 child_hungers.push(*hunger);
             }
         }
-        let total_hunger: usize = child_hungers.iter().sum();
+        // (Use u128 because neither this sum nor the products below need fit in a usize.)
+        let total_hunger: u128 = child_hungers.iter().map(|hunger| *hunger as u128).sum();
+        if total_hunger == 0 {
+            // No one is hungry.
+            return;
+        }
+        let cookies = self.cookies as u128;
         // Start by allocating each child a guaranteed minimum number of cookies,
         // found as the floor of the real number of cookies they deserve.
         let mut cookie_allocation: Vec<usize> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger / total_hunger)
+            .map(|hunger| (cookies * *hunger as u128 / total_hunger) as usize)
             .collect();
         // Compute the number of cookies still remaining.
         let allocated_cookies: usize = cookie_allocation.iter().sum();
@@ -93,9 +99,9 @@ impl Divvier {
         // Determine what fraction of a cookie each child still deserves, found as
         // the remainder of the above division. Then hand out the remaining cookies
         // to the children with the largest remainders.
-        let mut remainders: Vec<(usize, usize)> = child_hungers
+        let mut remainders: Vec<(usize, u128)> = child_hungers
             .iter()
-            .map(|hunger| self.cookies * hunger % total_hunger)
+            .map(|hunger| cookies * *hunger as u128 % total_hunger)
             .enumerate()
             .collect();
         remainders.sort_by(|(_, r1), (_, r2)| r2.cmp(r1));
-- 
2.43.0


From a95f83a02f2ed40fae72ba1dfb187b5aba6567cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 04/12] fix: the work to display a document is bounded by its
 lines, not by the window's height

---
 src/pane/display_pane.rs     | 14 +++++---------
 src/pane/printing_options.rs |  4 +++-
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 1162605..8468551 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -263,7 +263,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
 
         let printing_width = options.choose_width(size.width);
         let focus_line_row = options.choose_focus_line_row(size.height);
-        let (mut upward_printer, focused_line, mut downward_printer) = pretty_print(
+        let (upward_printer, focused_line, downward_printer) = pretty_print(
             doc,
             printing_width,
             &options.focus_path,
@@ -281,18 +281,14 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         };
 
         let mut lines = Vec::new();
-        for _ in 0..focus_line_row {
-            if let Some(line) = upward_printer.next() {
-                lines.push(line?);
-            }
+        for line in upward_printer.take(focus_line_row as usize) {
+            lines.push(line?);
         }
         lines.reverse();
         let focus_line_index = lines.len();
         lines.push(Line::from(focused_line));
-        for _ in (focus_line_row + 1)..size.height {
-            if let Some(line) = downward_printer.next() {
-                lines.push(line?);
-            }
+        for line in downward_printer.take((size.height - 1 - focus_line_row) as usize) {
+            lines.push(line?);
         }
 
         Ok(PrintedDoc {
diff --git a/src/pane/printing_options.rs b/src/pane/printing_options.rs
index e43ee97..30c5903 100644
--- a/src/pane/printing_options.rs
+++ b/src/pane/printing_options.rs
@@ -37,7 +37,9 @@ impl PrintingOptions {
     pub(crate) fn choose_focus_line_row(&self, pane_height: Height) -> Row {
         assert!(self.focus_height >= 0.0);
         assert!(self.focus_height <= 1.0);
-        f32::round((pane_height - 1) as f32 * self.focus_height) as Row
+        let row = f32::round((pane_height - 1) as f32 * self.focus_height) as Row;
+        // For huge heights, `f32` is not precise and might have rounded up past the last row.
+        row.min(pane_height - 1)
     }
 
     /// Choose what width to use when pretty-printing the document.
-- 
2.43.0


From c4367231848448ac971d6ff2c975d61d6c066ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 05/12] fix: a dynamic vertical pane shows its whole document
 when the focus isn't at the top

---
 src/pane/display_pane.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 8468551..4e455be 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -160,11 +160,12 @@ where
                 }
 
                 let (label, doc_style) = extract_doc::<L, D, W>(child_note, style.clone())?;
-                let printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
+                let mut printed_doc = if let Some((doc, options)) = get_content(label.clone()) {
                     PrintedDoc::new(doc, &options, available_size, &doc_style)?
                 } else {
                     PrintedDoc::new_empty(&doc_style)
                 };
+                printed_doc.align_to_top();
 
                 let height = printed_doc.height();
                 available_size.height -= height;
@@ -300,6 +301,15 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         })
     }
 
+    /// Reposition the document such that its first line is on the first row of the pane, because
+    /// the pane is going to be made only as tall as the document.
+    fn align_to_top(&mut self) {
+        self.focus_line_row = self.focus_line_index as Row;
+        if let Some(focus_point) = &mut self.focus_point {
+            focus_point.row = self.focus_line_row;
+        }
+    }
+
     /// The number of lines in the document.
     fn height(&self) -> Height {
         self.lines.len() as Height
-- 
2.43.0


From 57aab738d84ab56949d0f3d3aded903d9706c685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:23 +0000
Subject: [PATCH 06/12] fix: columns in a pane are counted the way the pane
 draws them

---
 src/pane/display_pane.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index 4e455be..a0bb998 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -1,7 +1,7 @@
 use crate::{
-    geometry::{is_char_full_width, Rectangle},
+    geometry::{is_char_full_width, sum_widths, Rectangle},
     pane::{divvy::Divvier, DocLabel, PaneNotation, PaneSize, PrettyWindow, PrintingOptions},
-    pretty_print, Height, Line, Pos, PrettyDoc, PrintingError, Row, Size, Width,
+    pretty_print, Height, Line, Pos, PrettyDoc, PrintingError, Row, Segment, Size, Width,
 };
 use std::error::Error;
 
@@ -275,7 +275,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
         let focus_point = if options.set_focus {
             Some(Pos {
                 row: focus_line_row,
-                col: focused_line.left_width(),
+                col: display_width(&focused_line.left_segments),
             })
         } else {
             None
@@ -319,7 +319,7 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
     fn width(&self) -> Width {
         self.lines
             .iter()
-            .map(|line| line.width() as Width)
+            .map(|line| display_width(&line.segments))
             .max()
             .unwrap_or(0)
     }
@@ -357,6 +357,18 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
     }
 }
 
+/// The number of columns that `display_line` needs to display these segments (saturating at
+/// `Width::MAX`). This may differ from the sum of their `width`s because a window displays `char`s
+/// one at a time, and every `char` takes up at least one column.
+fn display_width<'d, D: PrettyDoc<'d>>(segments: &[Segment<'d, D>]) -> Width {
+    sum_widths(
+        segments
+            .iter()
+            .flat_map(|segment| segment.str.chars())
+            .map(|ch| if is_char_full_width(ch) { 2 } else { 1 }),
+    )
+}
+
 /// Display a blank line in the given window, at the given row relative to the `rect`.
 /// Does not display anything that falls outside of the `rect`.
 fn display_blank_line<'d, D, W>(
-- 
2.43.0


From 464220287dd4a7c75f56cdd3c035b4c247afde81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:49 +0000
Subject: [PATCH 07/12] fix: a fold that hides many children in a row must not
 overflow the stack

---
 src/consolidated_notation.rs | 44 ++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 9f76e9c..8ec63f2 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -248,7 +248,22 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
     }
 
     /// Expand this node to get a usable `ConsolidatedNotation`.
-    pub fn eval(mut self) -> Result<ConsolidatedNotation<'d, D>, PrintingError<D::Error>> {
+    pub fn eval(self) -> Result<ConsolidatedNotation<'d, D>, PrintingError<D::Error>> {
+        let mut next = Some(self);
+        let mut result = ConsolidatedNotation::Empty;
+        while let Some(notation) = next.take() {
+            result = notation.eval_step(&mut next)?;
+        }
+        Ok(result)
+    }
+
+    /// Expand this node to get a usable `ConsolidatedNotation`, or else put the notation to expand
+    /// instead of it in `next`. The latter is used for `Left`, to avoid recursing once per child
+    /// when a `Fold`'s join displays nothing but its `Left`.
+    fn eval_step(
+        mut self,
+        next: &mut Option<Self>,
+    ) -> Result<ConsolidatedNotation<'d, D>, PrintingError<D::Error>> {
         use Notation::*;
 
         match self.notation {
@@ -277,7 +292,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
             Flat(note) => {
                 self.flat = true;
                 self.notation = note;
-                self.eval()
+                self.eval_step(next)
             }
             Indent(prefix, style_label, note) => {
                 let style = if let Some(label) = style_label {
@@ -295,7 +310,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 });
                 self.indent = Some(new_indent);
                 self.notation = note;
-                self.eval()
+                self.eval_step(next)
             }
             Concat(note1, note2) => {
                 let mut cnote1 = self.clone();
@@ -306,7 +321,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
             }
             Choice(note1, _note2) if self.flat => {
                 self.notation = note1;
-                self.eval()
+                self.eval_step(next)
             }
             Choice(note1, note2) => {
                 let mut cnote1 = self.clone();
@@ -341,10 +356,10 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 };
                 if doc_to_inspect.condition(cond)? {
                     self.notation = note1;
-                    self.eval()
+                    self.eval_step(next)
                 } else {
                     self.notation = note2;
-                    self.eval()
+                    self.eval_step(next)
                 }
             }
             Child(i) => match self.doc.num_children()? {
@@ -363,22 +378,22 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 self.style =
                     D::Style::combine(&self.style, &self.doc.lookup_style(style_label.clone())?);
                 self.notation = note;
-                self.eval()
+                self.eval_step(next)
             }
             FocusMark => Ok(ConsolidatedNotation::FocusMark),
             Count { zero, one, many } => match self.doc.num_children()? {
                 None => Err(PrintingError::CountNotationOnChildlessDoc),
                 Some(0) => {
                     self.notation = zero;
-                    self.eval()
+                    self.eval_step(next)
                 }
                 Some(1) => {
                     self.notation = one;
-                    self.eval()
+                    self.eval_step(next)
                 }
                 Some(_) => {
                     self.notation = many;
-                    self.eval()
+                    self.eval_step(next)
                 }
             },
             Fold { first, join } => match self.doc.num_children()? {
@@ -386,7 +401,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                 Some(0) => Ok(ConsolidatedNotation::Empty),
                 Some(1) => {
                     self.notation = first;
-                    self.eval()
+                    self.eval_step(next)
                 }
                 Some(n) => {
                     self.join_pos = Some(JoinPos {
@@ -397,7 +412,7 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                         join,
                     });
                     self.notation = join;
-                    self.eval()
+                    self.eval_step(next)
                 }
             },
             Left => match &mut self.join_pos {
@@ -414,12 +429,13 @@ impl<'d, D: PrettyDoc<'d>> DelayedConsolidatedNotation<'d, D> {
                     if *index == 1 {
                         self.notation = *first;
                         self.join_pos = None;
-                        self.eval()
+                        self.eval_step(next)
                     } else {
                         *child = child.unwrap_prev_sibling(*parent, *index - 1)?;
                         *index -= 1;
                         self.notation = *join;
-                        self.eval()
+                        *next = Some(self);
+                        Ok(ConsolidatedNotation::Empty)
                     }
                 }
             },
-- 
2.43.0


From 6b0a6b37918b61423a5608ac1bb72f4d0bf26a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 08/12] fix: dropping deep indentation must not overflow the
 stack

---
 src/consolidated_notation.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/consolidated_notation.rs b/src/consolidated_notation.rs
index 8ec63f2..6ac8dbc 100644
--- a/src/consolidated_notation.rs
+++ b/src/consolidated_notation.rs
@@ -70,6 +70,20 @@ pub struct IndentNode<'d, D: PrettyDoc<'d>> {
     pub parent: Option<Rc<IndentNode<'d, D>>>,
 }
 
+// Without this, dropping the last reference to a deep level of indentation would drop its ancestors
+// recursively, which can overflow the stack.
+impl<'d, D: PrettyDoc<'d>> Drop for IndentNode<'d, D> {
+    fn drop(&mut self) {
+        let mut parent = self.parent.take();
+        while let Some(node) = parent {
+            match Rc::try_unwrap(node) {
+                Ok(mut node) => parent = node.parent.take(),
+                Err(_) => break,
+            }
+        }
+    }
+}
+
 /// A `ConsolidatedNotation` that has not yet been evaluated, to prevent the entire notation tree
 /// from being in memory at once. Call `.eval()` to get a `ConsolidatedNotation`.
 #[derive(Debug)]
-- 
2.43.0


From 66b9456a0897549be455f379f62587d0ce3a32bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:01 +0000
Subject: [PATCH 09/12] fix: seeking a focus mark or text only resolves the
 node's own lines

Seeking FocusTarget::Mark or FocusTarget::Text used to resolve every line between the start of the
node and its mark or text, including all lines of children in between, and the entire rest of the
document if there was no mark or text. Skip lines that can't contain it, like seek_child does.
---
 src/pretty_print.rs | 37 +++++++++++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/pretty_print.rs b/src/pretty_print.rs
index 0d1d66c..33f320d 100644
--- a/src/pretty_print.rs
+++ b/src/pretty_print.rs
@@ -432,11 +432,19 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
 
+        // Only resolve blocks that might contain the `FocusMark`. It can't be inside a child.
+        let is_relevant_chunk = |chunk: &Chunk<'d, D>| -> bool {
+            chunk.id == id && matches!(chunk.notation, FocusMark | Choice(_, _))
+        };
         while let Some(mut block) = self.next_blocks.pop() {
+            if !block.chunks.iter().any(is_relevant_chunk) {
+                self.prev_blocks.push(block);
+                continue;
+            }
             while let Some(chunk) = block.chunks.pop() {
                 match chunk.notation {
                     Empty | Newline(_) | Concat(_, _) => {
-                        panic!("bug in print_next_line: unexpanded chunk")
+                        panic!("bug in seek_mark: unexpanded chunk")
                     }
                     FocusMark => {
                         if chunk.id == id {
@@ -447,15 +455,17 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                     EndOfLine => block.at_eol = true,
                     Textual(textual) => block.push_text(textual)?,
                     Child(_, note) => {
-                        self.expand_focusing_first_block(&mut block, Chunk::new(note)?)?
+                        self.expand_focusing_first_block(&mut block, Chunk::new(note)?)?;
+                        break;
                     }
                     Choice(opt1, opt2) => {
                         let choice = self.choose(&block, opt1, opt2)?;
                         self.expand_focusing_first_block(&mut block, choice)?;
+                        break;
                     }
                 }
             }
-            self.prev_blocks.push(block);
+            self.next_blocks.push(block);
         }
 
         Err(PrintingError::MissingFocusMark)
@@ -476,11 +486,24 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
         self.expand_focusing_first_block(&mut first_block, chunk)?;
         self.next_blocks.push(first_block);
 
+        // Only resolve blocks that might contain the `Text`. It can't be inside a child.
+        let is_relevant_chunk = |chunk: &Chunk<'d, D>| -> bool {
+            chunk.id == id
+                && match &chunk.notation {
+                    Textual(textual) => textual.is_from_text,
+                    Choice(_, _) => true,
+                    _ => false,
+                }
+        };
         while let Some(mut block) = self.next_blocks.pop() {
+            if !block.chunks.iter().any(is_relevant_chunk) {
+                self.prev_blocks.push(block);
+                continue;
+            }
             while let Some(chunk) = block.chunks.pop() {
                 match chunk.notation {
                     Empty | Newline(_) | Concat(_, _) => {
-                        panic!("bug in print_next_line: unexpanded chunk")
+                        panic!("bug in seek_text: unexpanded chunk")
                     }
                     FocusMark => (),
                     EndOfLine => block.at_eol = true,
@@ -498,15 +521,17 @@ impl<'d, D: PrettyDoc<'d>> Printer<'d, D> {
                         block.push_text(textual)?;
                     }
                     Child(_, note) => {
-                        self.expand_focusing_first_block(&mut block, Chunk::new(note)?)?
+                        self.expand_focusing_first_block(&mut block, Chunk::new(note)?)?;
+                        break;
                     }
                     Choice(opt1, opt2) => {
                         let choice = self.choose(&block, opt1, opt2)?;
                         self.expand_focusing_first_block(&mut block, choice)?;
+                        break;
                     }
                 }
             }
-            self.prev_blocks.push(block);
+            self.next_blocks.push(block);
         }
 
         Err(PrintingError::MissingText)
-- 
2.43.0


From 0508826ff6a6ef3236291704716c398df766e8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:56 +0000
Subject: [PATCH 10/12] fix: a pane without columns takes no time to display,
 however tall the window

---
 src/pane/display_pane.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/pane/display_pane.rs b/src/pane/display_pane.rs
index a0bb998..7d7d560 100644
--- a/src/pane/display_pane.rs
+++ b/src/pane/display_pane.rs
@@ -58,6 +58,7 @@ where
     use crate::pretty_doc::Style;
 
     match notation {
+        PaneNotation::Fill { .. } if rect.width() == 0 => (),
         PaneNotation::Fill { ch } => {
             let is_full_width = is_char_full_width(*ch);
             let char_width = if is_full_width { 2 } else { 1 };
@@ -343,6 +344,11 @@ impl<'d, D: PrettyDoc<'d>> PrintedDoc<'d, D> {
                 .map_err(PaneError::PrettyWindowError)?;
         }
 
+        if rect.width() == 0 {
+            // Nothing to display, however many rows there are.
+            return Ok(());
+        }
+
         let first_row = self.focus_line_row - (self.focus_line_index as Row);
         let last_row = first_row + self.lines.len() as Row;
         for row in 0..rect.size().height {
-- 
2.43.0


From 4ff4696a61933e34fbde6472706e42f7a0e54efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:08 +0000
Subject: [PATCH 11/12] fix: a node that becomes the last child of another
 branch needs no separator

---
 src/doc_examples/tree.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/doc_examples/tree.rs b/src/doc_examples/tree.rs
index 7c234ff..80e4f38 100644
--- a/src/doc_examples/tree.rs
+++ b/src/doc_examples/tree.rs
@@ -94,6 +94,10 @@ where
 
     /// Create a new node containing the given children.
     pub fn new_branch(notation: &'static TreeNotation, mut children: Vec<Self>) -> Self {
+        // A child may have been part of another branch before.
+        for child in &mut children {
+            child.needs_separator = false;
+        }
         for child in children
             .iter_mut()
             .rev()
-- 
2.43.0


From bcd65ff473b188d332454a0e78b28f3c9a9e9d30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:34:17 +0000
Subject: [PATCH 12/12] fix: a focus mark before a fold still precedes the
 marks after it

Validation forgot that it had certainly passed a FocusMark when it passed a
Fold, Left or Right, so that notations like mark + fold + mark were accepted
although only the first mark can ever be used.
---
 src/valid_notation.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/valid_notation.rs b/src/valid_notation.rs
index 6ff7402..92007b1 100644
--- a/src/valid_notation.rs
+++ b/src/valid_notation.rs
@@ -254,12 +254,12 @@ impl<L: StyleLabel, C: Condition> Notation<L, C> {
                 // Can't easily check for EOL/mark here
                 first.validate_rec(History::uncertain(), ctx.fold_first())?;
                 join.validate_rec(History::uncertain(), ctx.fold_join())?;
-                Ok(History::uncertain())
+                Ok(history.without_eol())
             }
             Left if ctx.fold != Some(InFoldJoin) => Err(LeftOutsideJoin),
             Right if ctx.fold != Some(InFoldJoin) => Err(RightOutsideJoin),
             // Can't easily check for EOL/mark here
-            Left | Right => Ok(History::uncertain()),
+            Left | Right => Ok(history.without_eol()),
         }
     }
 }
-- 
2.43.0

