From e09b4321340754cc8bf8253f3321995d77ab2f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 01/18] fix: deleting rows or columns of a table skipped
 nothing and panicked

---
 aftermath-core/input_tree/src/input_tree.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/aftermath-core/input_tree/src/input_tree.rs b/aftermath-core/input_tree/src/input_tree.rs
index 9fc4907..3dd3fe6 100644
--- a/aftermath-core/input_tree/src/input_tree.rs
+++ b/aftermath-core/input_tree/src/input_tree.rs
@@ -123,15 +123,18 @@ impl Editable for InputTree {
                     (EditType::Delete, GridDirection::Row) => {
                         assert!(values.width() == old_size.0);
                         new_grid.extend(old_grid.by_ref().take(values.width() * row_or_column.0));
-                        let _ = old_grid.by_ref().skip(values.width() * values.height());
-                        new_grid.extend(old_grid);
+                        new_grid.extend(old_grid.skip(values.width() * values.height()));
                     }
                     (EditType::Delete, GridDirection::Column) => {
                         assert!(values.height() == old_size.1);
                         for _ in 0..values.height() {
                             new_grid.extend(old_grid.by_ref().take(row_or_column.0));
-                            let _ = old_grid.by_ref().skip(values.width());
-                            new_grid.extend(old_grid.by_ref().take(old_size.0 - row_or_column.0));
+                            old_grid.by_ref().take(values.width()).for_each(drop);
+                            new_grid.extend(
+                                old_grid
+                                    .by_ref()
+                                    .take(old_size.0 - row_or_column.0 - values.width()),
+                            );
                         }
                     }
                 }
-- 
2.43.0


From 5606ea20b9a38565a5f77412e5808c7148a44e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 02/18] fix: rebasing a range in a child row moved the wrong
 path step (and panicked for the root row)

---
 aftermath-core/input_tree/src/focus/row_range.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 844f831..4b673e4 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -178,14 +178,14 @@ impl Editable for MinimalInputRowRange {
                     }
                 } else if edit.is_insert() {
                     // Child row insertion, if the edit is before the container, move the container
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if old_offset.0 <= row_index.0 {
                         let delta = new_offset.0 - old_offset.0;
                         row_index.0 += delta;
                     }
                 } else {
                     // Child row deletion
-                    let row_index = self.row_indices.at_mut(row_indices.len() - 1).unwrap();
+                    let row_index = self.row_indices.at_mut(row_indices.len()).unwrap();
                     if new_offset.0 <= row_index.0 && row_index.0 < old_offset.0 {
                         // I'm inside the deleted range, move to the start of the edit
                         self.start = new_offset;
-- 
2.43.0


From 447ede360eb047936253bb0899d90a110b34616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:21 +0000
Subject: [PATCH 03/18] fix: index_in_parent of the root row underflowed
 instead of returning None

---
 aftermath-core/input_tree/src/focus.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/input_tree/src/focus.rs b/aftermath-core/input_tree/src/focus.rs
index 576520d..b23003a 100644
--- a/aftermath-core/input_tree/src/focus.rs
+++ b/aftermath-core/input_tree/src/focus.rs
@@ -99,9 +99,8 @@ impl<'a> InputFocusRow<'a> {
     }
 
     pub fn index_in_parent(&self) -> Option<usize> {
-        self.row_indices
-            .at(self.row_indices.len() - 1)
-            .map(|row_index| row_index.1)
+        let last = self.row_indices.len().checked_sub(1)?;
+        self.row_indices.at(last).map(|row_index| row_index.1)
     }
 
     pub fn offset_to_index(&self, offset: Offset, direction: HorizontalDirection) -> Option<usize> {
-- 
2.43.0


From 3d363b52d1b4421bbaef1409d0e1101c9b7e9c79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:25 +0000
Subject: [PATCH 04/18] fix: moving left out of the first child row of a
 container underflowed

---
 aftermath-core/caret/src/primitive/movement.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a875e21..a529ed7 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -184,11 +184,11 @@ impl NavigationSettings {
     ) -> Option<InputRowPosition<'a>> {
         let parent = caret.row_focus.clone().parent()?;
 
-        let adjacent_index = caret.row_focus.index_in_parent().map(|v| {
+        let adjacent_index = caret.row_focus.index_in_parent().and_then(|v| {
             if direction == HorizontalDirection::Left {
-                v - 1
+                v.checked_sub(1)
             } else {
-                v + 1
+                v.checked_add(1)
             }
         });
         let adjacent_child =
-- 
2.43.0


From 68bcc9d529f6d8c06582a771efd42e90aafc396f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:42 +0000
Subject: [PATCH 05/18] fix: moving the caret next to an empty table panicked

---
 aftermath-core/caret/src/primitive/movement.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aftermath-core/caret/src/primitive/movement.rs b/aftermath-core/caret/src/primitive/movement.rs
index a529ed7..aaa679f 100644
--- a/aftermath-core/caret/src/primitive/movement.rs
+++ b/aftermath-core/caret/src/primitive/movement.rs
@@ -224,7 +224,7 @@ impl NavigationSettings {
         let adjacent_child = caret.row_focus.clone().child_at(adjacent_index).unwrap();
 
         match adjacent_child.node() {
-            input_tree::node::InputNode::Container(_, grid) => {
+            input_tree::node::InputNode::Container(_, grid) if !grid.is_empty() => {
                 let adjacent_row = if direction == HorizontalDirection::Left {
                     adjacent_child
                         .child_at(grid.width() * grid.height() - 1)
@@ -239,7 +239,8 @@ impl NavigationSettings {
                 };
                 Some(InputRowPosition::new(adjacent_row, offset))
             }
-            input_tree::node::InputNode::Symbol(_) => Some(InputRowPosition::new(
+            // A symbol or an empty table, so there is nothing to move into
+            _ => Some(InputRowPosition::new(
                 caret.row_focus.clone(),
                 if direction == HorizontalDirection::Left {
                     Offset(caret.offset.0 - 1)
-- 
2.43.0


From 0347b7439fd9822bfccbb8f81ac8b39222f17845 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:59 +0000
Subject: [PATCH 06/18] fix: replacing a range restored the caret from before
 the change, which could lie outside the formula

---
 aftermath-core/caret/src/math_editor.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index a7c60f5..f8ca023 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -371,7 +371,6 @@ impl MathEditor {
         // Move caret
         // Apply edit
         // Merge edit into undo stack
-        let caret_before = self.caret.clone();
         let mut caret = self.caret.clone();
         let mut builder = EditorActionBuilder::new(self);
         let (basic_edit, _) = BasicEdit::replace_range(
@@ -382,7 +381,6 @@ impl MathEditor {
         caret.end_position.apply_edits(&basic_edit);
         builder.add_edits(basic_edit);
         builder.finish(caret);
-        self.caret = caret_before;
     }
 }
 
-- 
2.43.0


From 7356382e30ab2115e42cc359085deab9404dc65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:29 +0000
Subject: [PATCH 07/18] fix: negation was an infix operator, so it always
 lacked a left operand

---
 aftermath-core/parser/src/rule_collections/logic_rules.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/parser/src/rule_collections/logic_rules.rs b/aftermath-core/parser/src/rule_collections/logic_rules.rs
index f257ab6..f3b86a5 100644
--- a/aftermath-core/parser/src/rule_collections/logic_rules.rs
+++ b/aftermath-core/parser/src/rule_collections/logic_rules.rs
@@ -59,7 +59,7 @@ impl LogicRules {
                 100,
                 just_operator_parser('∨'),
             ),
-            left_infix_rule(
+            prefix_rule(
                 modules.with_rule_name(Self::rule_name("Not")),
                 100,
                 just_operator_parser('¬'),
-- 
2.43.0


From e9a7d9d3fc5deac3b87f66e950d884dcdc0275f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 08/18] fix: render scripts that have whitespace next to them

---
 src/mathml/renderer.ts | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index e36f556..1fe4089 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -83,7 +83,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
@@ -93,7 +92,6 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       });
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
-        assert(hasSyntaxNodeChildren(syntaxTree.children.Children[1], "NewRows"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
           newRowsOperatorOverride: (node) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
-- 
2.43.0


From 3be80444c32fae65071723205af6335b04f7495c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:18 +0000
Subject: [PATCH 09/18] fix: a script's container is not the start of a row

---
 src/mathml/renderer.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/mathml/renderer.ts b/src/mathml/renderer.ts
index 1fe4089..26010c0 100644
--- a/src/mathml/renderer.ts
+++ b/src/mathml/renderer.ts
@@ -84,7 +84,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sup", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msup", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
@@ -93,7 +93,7 @@ export class MathMLRenderer implements Renderer<MathMLElement> {
       builtIn.add("Sub", (syntaxTree, rowIndex) => {
         assert(hasSyntaxNodeChildren(syntaxTree, "Children"));
         return new SimpleContainerMathMLElement(syntaxTree, rowIndex, "msub", this, {
-          newRowsOperatorOverride: (node) => {
+          newRowsOperatorOverride: (node, rowIndex) => {
             assert(hasSyntaxNodeChildren(node, "NewRows"));
             return new RowsContainerMathMLElement(node, rowIndex, "mrow", this);
           },
-- 
2.43.0


From 6355f4c1c85f004c4dd4cf2d0a7e09b862c794e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 10/18] fix: report scripts without a base instead of crashing

---
 src/mathml/parsing.ts | 22 +++++++++++++---------
 1 file changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 3574fd6..7458af8 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -102,29 +102,33 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
       root([wrapInRow(toMathLayout(children[1], errors)), wrapInRow(toMathLayout(children[0], errors))])
     );
   } else if (tagIs(element, "msub")) {
+    const error = expectNChildren(element, 2, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return expectNChildren(element, 2, errors) ?? [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
+    return [...base, sub(wrapInRow(toMathLayout(children[1], errors)))];
   } else if (tagIs(element, "msup")) {
+    const error = expectNChildren(element, 2, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return expectNChildren(element, 2, errors) ?? [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
+    return [...base, sup(wrapInRow(toMathLayout(children[1], errors)))];
   } else if (tagIs(element, "msubsup")) {
+    const error = expectNChildren(element, 3, errors);
+    if (error) return error;
     let base = toMathLayout(children[0], errors);
     if (!Array.isArray(base)) {
       base = [base];
     }
-    return (
-      expectNChildren(element, 3, errors) ?? [
-        ...base,
-        sub(wrapInRow(toMathLayout(children[1], errors))),
-        sup(wrapInRow(toMathLayout(children[2], errors))),
-      ]
-    );
+    return [
+      ...base,
+      sub(wrapInRow(toMathLayout(children[1], errors))),
+      sup(wrapInRow(toMathLayout(children[2], errors))),
+    ];
   } else if (tagIs(element, "munder")) {
     // It's usually a sub/sup
     return (
-- 
2.43.0


From e14618621696780a0ad18b72eb7dcc805d1b0c6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:35 +0000
Subject: [PATCH 11/18] fix: report tables without cells instead of importing
 an empty grid

---
 src/mathml/parsing.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/mathml/parsing.ts b/src/mathml/parsing.ts
index 7458af8..d00c5f9 100644
--- a/src/mathml/parsing.ts
+++ b/src/mathml/parsing.ts
@@ -159,6 +159,10 @@ function toMathLayout(element: Element, errors: Error[]): (InputRow | InputNode)
     }
 
     const tableWidth = children.map((c) => c.children.length).reduce((a, b) => Math.max(a, b), 0);
+    if (tableWidth === 0) {
+      errors.push(new Error("Expected at least one cell in mtable"));
+      return symbol("Error");
+    }
 
     const tableCells = children.flatMap((c) =>
       Array.from({ length: tableWidth }, (_, i) =>
-- 
2.43.0


From 4b81f054cf65f0150b8b3906380b581ed038b4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:20 +0000
Subject: [PATCH 12/18] fix: keep one symbol per token in operators spelled
 with several symbols

`lim`, `true`, `false` and the like became a leaf with a single symbol that
spans several tokens, so caret places inside them ended up at its right end.
---
 aftermath-core/parser/src/make_parser.rs       | 2 +-
 aftermath-core/parser/src/parser_extensions.rs | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/aftermath-core/parser/src/make_parser.rs b/aftermath-core/parser/src/make_parser.rs
index bf2412f..079e73c 100644
--- a/aftermath-core/parser/src/make_parser.rs
+++ b/aftermath-core/parser/src/make_parser.rs
@@ -70,7 +70,7 @@ impl MakeParser for MakeSymbolsParser {
     fn build<'a>(&self, _parser: RcPrattParserType<'a, 'a>) -> BoxedTokenParser<'a, 'a> {
         let node_type = self.node_type;
         just_symbols(&self.symbols)
-            .map(move |v| SyntaxNodeBuilder::new_leaf_node(vec![v], node_type))
+            .map(move |v| SyntaxNodeBuilder::new_leaf_node(v, node_type))
             .with_ctx(())
             .boxed()
     }
diff --git a/aftermath-core/parser/src/parser_extensions.rs b/aftermath-core/parser/src/parser_extensions.rs
index d2f6a51..5a262a6 100644
--- a/aftermath-core/parser/src/parser_extensions.rs
+++ b/aftermath-core/parser/src/parser_extensions.rs
@@ -12,7 +12,7 @@ pub fn just_symbol<'a, E: ParserExtra<'a, &'a [InputNode]>>(
 
 pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
     symbols: &[String],
-) -> impl chumsky::Parser<'a, &'a [InputNode], String, E> {
+) -> impl chumsky::Parser<'a, &'a [InputNode], Vec<String>, E> {
     let symbol_nodes = symbols
         .iter()
         .map(|v| InputNode::Symbol(v.clone()))
@@ -23,6 +23,6 @@ pub fn just_symbols<'a, E: ParserExtra<'a, &'a [InputNode]>>(
                 InputNode::Symbol(v) => v,
                 _ => panic!("Expected symbol"),
             })
-            .collect::<String>()
+            .collect::<Vec<_>>()
     })
 }
-- 
2.43.0


From b13e00b274581c26c2e1dac5cc46ff218bbee2fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:59 +0000
Subject: [PATCH 13/18] fix: a rectangle between two cells of a grid covers
 exactly the cells between them

Its height was a row short unless it ended at the right edge, its width was the
grid's, and selecting from a cell further right left the corners unordered.
---
 .../input_tree/src/grid/grid_view.rs          | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/aftermath-core/input_tree/src/grid/grid_view.rs b/aftermath-core/input_tree/src/grid/grid_view.rs
index 40c28ca..2bac660 100644
--- a/aftermath-core/input_tree/src/grid/grid_view.rs
+++ b/aftermath-core/input_tree/src/grid/grid_view.rs
@@ -16,9 +16,11 @@ impl<'a, T> Grid<T> for GridView<'a, T> {
     }
 
     fn get(&self, xy: Index2D) -> Option<&T> {
+        xy.to_index_checked(self)?;
+        let (start_x, start_y) = self.range.start_index().into();
+        let width = self.grid.width();
         self.grid
-            .values
-            .get(xy.to_index_checked(self)? + self.range.start)
+            .get(Index2D::new(start_x + xy.x, start_y + xy.y, width))
     }
 }
 
@@ -67,13 +69,17 @@ impl GridRectangle {
     }
 
     pub fn width(&self) -> usize {
-        self.width
+        match self.end_index_inclusive() {
+            Some(end_index) => end_index.x - self.start_index().x + 1,
+            None => 0,
+        }
     }
 
     pub fn height(&self) -> usize {
-        let start_y = self.start / self.width;
-        let end_y = self.end / self.width;
-        end_y - start_y
+        match self.end_index_inclusive() {
+            Some(end_index) => end_index.y - self.start_index().y + 1,
+            None => 0,
+        }
     }
 
     pub fn size(&self) -> (usize, usize) {
@@ -104,11 +110,16 @@ impl GridRectangle {
         end_index: Index2D,
         grid: &impl Grid<T>,
     ) -> Self {
+        let width = grid.width();
         let mut start_index = start_index.to_index_checked(grid).unwrap();
         let mut end_index = end_index.to_index_checked(grid).unwrap();
         if start_index > end_index {
             std::mem::swap(&mut start_index, &mut end_index);
         }
-        Self::new(start_index..(end_index + 1), grid.width())
+        // The first one can still be further right than the second one
+        let (start_x, end_x) = (start_index % width, end_index % width);
+        let start_index = start_index - start_x + start_x.min(end_x);
+        let end_index = end_index - end_x + start_x.max(end_x);
+        Self::new(start_index..(end_index + 1), width)
     }
 }
-- 
2.43.0


From 59ac559c10b9ff9b4132f8cd8d20f4ac67593cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:30 +0000
Subject: [PATCH 14/18] fix: a grid edit leaves positions outside of the grid
 alone instead of panicking

---
 aftermath-core/input_tree/src/focus/row_range.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/focus/row_range.rs b/aftermath-core/input_tree/src/focus/row_range.rs
index 4b673e4..e5b3d68 100644
--- a/aftermath-core/input_tree/src/focus/row_range.rs
+++ b/aftermath-core/input_tree/src/focus/row_range.rs
@@ -198,7 +198,15 @@ impl Editable for MinimalInputRowRange {
                     }
                 }
             }
-            RowIndicesEdit::GridIndexEdit { .. } => todo!(), // TODO: Implement
+            RowIndicesEdit::GridIndexEdit {
+                element_indices, ..
+            } => {
+                // The grid remains a single element of its row, so only what is inside of it moves
+                let index_in_row = self.row_indices.at(element_indices.row_indices.len());
+                if index_in_row.map(|v| v.0) == Some(element_indices.index) {
+                    todo!() // TODO: Implement
+                }
+            }
         }
 
         if !is_forwards {
-- 
2.43.0


From 0f0697379648118f7b4a6fdfd5b3e95637642ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:27 +0000
Subject: [PATCH 15/18] fix: releasing a pointer that was not pressed on the
 formula leaves the selection alone

---
 src/component/math-editor.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/component/math-editor.ts b/src/component/math-editor.ts
index 9607db6..3f3d39d 100644
--- a/src/component/math-editor.ts
+++ b/src/component/math-editor.ts
@@ -244,6 +244,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointerup", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
       const newPosition = getPointerPosition(e);
       if (newPosition) {
@@ -255,6 +256,7 @@ export class MathEditor extends HTMLElement {
     });
     container.addEventListener("pointercancel", (e) => {
       if (!e.isPrimary) return;
+      if (!isPointerDown) return;
       isPointerDown = false;
 
       const newPosition = getPointerPosition(e);
-- 
2.43.0


From 06365922d45a4f15b02e7ea0a988c7680ee8e02f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:34 +0000
Subject: [PATCH 16/18] fix: reject malformed grids and containers when
 deserializing

---
 aftermath-core/input_tree/src/grid.rs | 19 ++++++++++++++++
 aftermath-core/input_tree/src/node.rs | 32 ++++++++++++++++++++++++++-
 2 files changed, 50 insertions(+), 1 deletion(-)

diff --git a/aftermath-core/input_tree/src/grid.rs b/aftermath-core/input_tree/src/grid.rs
index b4ab251..e73749b 100644
--- a/aftermath-core/input_tree/src/grid.rs
+++ b/aftermath-core/input_tree/src/grid.rs
@@ -32,11 +32,30 @@ pub enum GridDirection {
     derive(tsify::Tsify),
     tsify(into_wasm_abi, from_wasm_abi)
 )]
+#[serde(try_from = "UncheckedGridVec<T>")]
 pub struct GridVec<T> {
     values: Vec<T>,
     width: usize,
 }
 
+/// Data from the outside, which is not necessarily a proper grid
+#[derive(Deserialize)]
+struct UncheckedGridVec<T> {
+    values: Vec<T>,
+    width: usize,
+}
+
+impl<T> TryFrom<UncheckedGridVec<T>> for GridVec<T> {
+    type Error = &'static str;
+
+    fn try_from(grid: UncheckedGridVec<T>) -> Result<Self, Self::Error> {
+        if grid.width == 0 || grid.values.len() % grid.width != 0 {
+            return Err("the values of a grid must form complete rows");
+        }
+        Ok(GridVec::from_one_dimensional(grid.values, grid.width))
+    }
+}
+
 impl<T> Grid<T> for GridVec<T> {
     fn size(&self) -> (usize, usize) {
         (self.width, self.values.len() / self.width)
diff --git a/aftermath-core/input_tree/src/node.rs b/aftermath-core/input_tree/src/node.rs
index 7375313..c0f5dbe 100644
--- a/aftermath-core/input_tree/src/node.rs
+++ b/aftermath-core/input_tree/src/node.rs
@@ -3,7 +3,7 @@ use std::fmt;
 use serde::{Deserialize, Serialize};
 
 use crate::{
-    grid::{GridVec, Index2D},
+    grid::{Grid, GridVec, Index2D},
     print_helpers::write_with_escaped_double_quotes,
 };
 
@@ -16,6 +16,7 @@ use super::row::InputRow;
     derive(tsify::Tsify),
     tsify(into_wasm_abi, from_wasm_abi)
 )]
+#[serde(try_from = "UncheckedInputNode")]
 pub enum InputNode {
     /// A container with a type
     Container(InputNodeVariant, GridVec<InputRow>),
@@ -25,6 +26,35 @@ pub enum InputNode {
     Symbol(String),
 }
 
+/// Data from the outside, where the containers do not necessarily have the correct shape
+#[derive(Deserialize)]
+enum UncheckedInputNode {
+    Container(InputNodeVariant, GridVec<InputRow>),
+    Symbol(String),
+}
+
+impl TryFrom<UncheckedInputNode> for InputNode {
+    type Error = &'static str;
+
+    fn try_from(node: UncheckedInputNode) -> Result<Self, Self::Error> {
+        match node {
+            UncheckedInputNode::Container(container_type, rows) => {
+                let is_expected_size = match container_type {
+                    InputNodeVariant::Fraction => rows.size() == (1, 2),
+                    InputNodeVariant::Root => rows.size() == (2, 1),
+                    InputNodeVariant::Sup | InputNodeVariant::Sub => rows.size() == (1, 1),
+                    InputNodeVariant::Table => true,
+                };
+                if !is_expected_size {
+                    return Err("the container has an unexpected number of rows");
+                }
+                Ok(InputNode::Container(container_type, rows))
+            }
+            UncheckedInputNode::Symbol(symbol) => Ok(InputNode::Symbol(symbol)),
+        }
+    }
+}
+
 // Could be extended with constructs like <mmultiscripts>
 #[derive(Debug, Copy, Clone, PartialEq, Eq, Serialize, Deserialize)]
 #[cfg_attr(
-- 
2.43.0


From aab6a1be4317d5f30dbfc8d7b96e4cb203c9089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:34 +0000
Subject: [PATCH 17/18] fix: autocomplete with symbols that are empty or longer
 than one byte

---
 aftermath-core/parser/src/autocomplete.rs | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/aftermath-core/parser/src/autocomplete.rs b/aftermath-core/parser/src/autocomplete.rs
index a24121d..fcbbfe9 100644
--- a/aftermath-core/parser/src/autocomplete.rs
+++ b/aftermath-core/parser/src/autocomplete.rs
@@ -71,13 +71,11 @@ impl AutocompleteRule {
 /// Returns the indices of all occurences of needle in haystack.
 /// Can return overlapping ranges.
 fn indices_of(needle: &str, haystack: &str) -> Vec<usize> {
-    let mut indices = Vec::new();
-    let mut i = 0;
-    while let Some(index) = haystack[i..].find(needle).map(|v| v + i) {
-        indices.push(index);
-        i = index + 1;
-    }
-    indices
+    haystack
+        .char_indices()
+        .map(|(index, _)| index)
+        .filter(|&index| haystack[index..].starts_with(needle))
+        .collect()
 }
 
 impl AutocompleteMatcher for AutocompleteRule {
@@ -95,10 +93,15 @@ impl AutocompleteMatcher for AutocompleteRule {
         // input = "m slimm"
         // matching_ranges = [0, 5, 6]
         let mut potential_matches = vec![];
+        let mut starting_symbol_length = 0;
         // Initialize matching_ranges
         if let Some(InputNode::Symbol(starting_symbol)) = input.last() {
-            for i in indices_of(starting_symbol.as_str(), &self.parser) {
-                potential_matches.push(i);
+            // An empty symbol doesn't match anything
+            if !starting_symbol.is_empty() {
+                starting_symbol_length = starting_symbol.len();
+                for i in indices_of(starting_symbol.as_str(), &self.parser) {
+                    potential_matches.push(i);
+                }
             }
         }
 
@@ -126,7 +129,7 @@ impl AutocompleteMatcher for AutocompleteRule {
                 // Matched the whole parser
                 matches.push(AutocompleteRuleMatch {
                     rule: self,
-                    rule_match_length: parser_end_index + 1,
+                    rule_match_length: parser_end_index + starting_symbol_length,
                     input_match_length: symbol_count,
                 })
             }
-- 
2.43.0


From 0c424499ffe95cec686bb9979624108256681784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:33:34 +0000
Subject: [PATCH 18/18] fix: autocorrect looked for the completion in the wrong
 place

---
 aftermath-core/caret/src/math_editor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aftermath-core/caret/src/math_editor.rs b/aftermath-core/caret/src/math_editor.rs
index f8ca023..2ffe3af 100644
--- a/aftermath-core/caret/src/math_editor.rs
+++ b/aftermath-core/caret/src/math_editor.rs
@@ -309,7 +309,7 @@ impl MathEditor {
             .rule
             .matches(
                 autocomplete_range.values(),
-                autocomplete_range.left_offset().0,
+                autocomplete_range.values().len(),
                 1,
             )
             .iter()
-- 
2.43.0

